//! C03: stored parameters always fit the current parents
use crate::symx::*;
use crate::util::*;
use reCTBN::tools::{RandomGraphGenerator, UniformGraphGenerator};

fn fits(n: &CtbnNetwork) {
    for i in 0..n.get_number_of_nodes() {
        if let Some(c) = dp(n.get_node(i)).get_cim() {
            check(c.shape()[0] == n_configs(n, i), "a stored intensity matrix has one table per parent configuration");
        }
        if let Some(c) = dp(n.get_node(i)).get_transitions() {
            check(c.shape()[0] == n_configs(n, i), "stored counts have one table per parent configuration");
        }
        if let Some(c) = dp(n.get_node(i)).get_residence_time() {
            check(c.shape()[0] == n_configs(n, i), "stored residence times have one row per parent configuration");
        }
    }
}
fn fill(n: &mut CtbnNetwork) {
    set_tag_cims(n);
    for i in 0..n.get_number_of_nodes() {
        let (u, d) = (n_configs(n, i), n.get_node(i).get_reserved_space_as_parent());
        let p = dpm(n.get_node_mut(i));
        p.set_transitions(Array3::zeros((u, d, d)));
        p.set_residence_time(Array2::zeros((u, d)));
    }
}
fn filled(mask: usize) -> CtbnNetwork {
    let mut n = graph_net(&[2, 3, 2], mask);
    fill(&mut n);
    n
}

/// variables without parents before and after keep what they hold
fn keeps(before: &CtbnNetwork, n: &CtbnNetwork) {
    for i in 0..before.get_number_of_nodes() {
        if before.get_parent_set(i).is_empty() && n.get_parent_set(i).is_empty() {
            let (a, b) = (dp(before.get_node(i)), dp(n.get_node(i)));
            check(a.get_cim() == b.get_cim() && a.get_transitions() == b.get_transitions() && a.get_residence_time() == b.get_residence_time(),
                "variables whose parents did not change keep their parameters");
        }
    }
}

entries! {
    fn c03_add_edge() {
        let mut n = filled(param(0) * 8 + choose(8));
        let (p, c) = (choose(3), choose(3));
        let had = n.get_parent_set(c).contains(&p);
        n.add_edge(p, c);
        fits(&n);
        if !had {
            check(dp(n.get_node(c)).get_cim().is_none(), "a new parent invalidates the child's parameters");
        }
        for i in 0..3 {
            if i != c {
                check(dp(n.get_node(i)).get_cim().is_some(), "other nodes keep their parameters");
            }
        }
    }
    fn c03_reinitialize() {
        let k = param(0) * 8 + choose(8);
        let mut n = filled(k);
        n.initialize_adj_matrix();
        fits(&n);
        keeps(&filled(k), &n);
        n.add_edge(choose(3), choose(3));
        fits(&n);
    }
    fn c03_add_node() {
        let k = param(0) * 8 + choose(8);
        let mut n = filled(k);
        let mut x = node(3, 2);
        if fork() {
            dpm(&mut x).set_cim(tag_cim(3, 1, 2)).unwrap();
        }
        n.add_node(x).unwrap();
        check(dp(n.get_node(3)).get_cim().is_none(), "a new node starts without parameters");
        n.add_edge(choose(4), choose(4));
        fits(&n);
        keeps(&filled(k), &n);
    }
    fn c03_generate_graph() {
        let k = param(0) * 8 + choose(8);
        let mut n = filled(k);
        let mut g: UniformGraphGenerator = RandomGraphGenerator::new(0.5, Some(7));
        g.generate_graph(&mut n);
        fits(&n);
        keeps(&filled(k), &n);
    }

    // params: number of operations; an arbitrary history of structure changes and parameter settings
    fn c03_history() {
        let mut n = net(&[2, 3]);
        for _ in 0..param(0) {
            let k = n.get_number_of_nodes();
            match choose(8) {
                0 => n.add_edge(0, 1),
                1 => n.add_edge(1, 0),
                2 => n.add_edge(k - 1, choose(2)),
                3 => n.add_edge(choose(2), k - 1),
                4 => n.initialize_adj_matrix(),
                5 => {
                    let mut g: UniformGraphGenerator = RandomGraphGenerator::new(if fork() { 1.0 } else { 0.0 }, Some(7));
                    g.generate_graph(&mut n);
                }
                6 => {
                    let mut x = node(k, 2);
                    dpm(&mut x).set_cim(tag_cim(k, 1, 2)).unwrap();
                    n.add_node(x).unwrap();
                    n.initialize_adj_matrix();
                }
                _ => {
                    if n.get_adj_matrix().is_none() {
                        n.initialize_adj_matrix();
                    }
                    fill(&mut n);
                }
            }
            if n.get_adj_matrix().is_some() {
                fits(&n);
            }
        }
    }
    // params: pseudo-random graph; seven variables
    fn c03_wide() {
        let cards = [2, 3, 2, 2, 2, 4, 2];
        let mut mask = 0;
        let mut rnd = pseudo(param(0) as u32);
        for i in 0..42 {
            if rnd(3) == 0 {
                mask |= 1 << i;
            }
        }
        let mut n = graph_net(&cards, mask);
        fill(&mut n);
        let (p, c) = (choose(7), choose(7));
        let had = n.get_parent_set(c).contains(&p);
        n.add_edge(p, c);
        fits(&n);
        for i in 0..7 {
            if i != c {
                check(dp(n.get_node(i)).get_cim().is_some(), "other nodes keep their parameters");
            } else if !had {
                check(dp(n.get_node(i)).get_cim().is_none(), "a new parent invalidates the child's parameters");
            }
        }
        n.initialize_adj_matrix();
        fits(&n);
        n.add_node(node(7, 3)).unwrap();
        n.add_edge(choose(8), choose(8));
        fits(&n);
    }
}
