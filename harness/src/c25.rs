//! C25: random graphs
use crate::symx::*;
use crate::util::*;
use reCTBN::tools::{RandomGraphGenerator, UniformGraphGenerator};

entries! {
    // params: nodes, density code, edges before
    fn c25_edges() {
        let n = param(0);
        let density = [0.25, 0.5, 0.75, 1.0 / 3.0, 0.9][param(1)];
        let cards: Vec<usize> = (0..n).map(|i| 2 + i % 2).collect();
        let mut g = graph_net(&cards, param(2));
        let mut gen = UniformGraphGenerator::new(density, Some(11));
        let (seed, mut idx) = (11, 0);
        max_draws((n * (n - 1) * 2 + 4) as u64);
        for round in 0..1 + (n == 2) as usize {
            gen.generate_graph(&mut g);
            let mut edge = 0;
            for p in 0..n {
                for c in 0..n {
                    let e = g.get_children_set(p).contains(&c);
                    check(e == g.get_parent_set(c).contains(&p), "parents and children agree");
                    if p == c {
                        check(!e, "no variable is its own parent");
                    } else {
                        // the share of draws that make an edge is the density
                        let v = draw(seed, idx) as f64 / 18446744073709551616.0;
                        idx += 1;
                        let near = (v - density).abs() < 1e-12;
                        check(near | (e == (v < density)), "each edge is present on a share of the draws equal to the density, independently");
                        edge += e as usize;
                    }
                }
            }
            if edge == n * (n - 1) {
                reach("complete");
            }
            if edge == 0 {
                reach("empty");
            }
            if round == 1 {
                reach("second graph");
            }
        }
        check(g.get_number_of_nodes() == n && (0..n).all(|i| g.get_node(i).get_reserved_space_as_parent() == cards[i] && *g.get_node(i).get_label() == *node(i, 2).get_label()), "the nodes stay");
    }
    fn c25_extremes() {
        max_draws(12);
        let full = fork();
        let n = 1 + choose(3);
        let mut g = graph_net(&vec![2; n], if n == 3 { 9 } else { 0 });
        UniformGraphGenerator::new(if full { 1.0 } else { 0.0 }, Some(11)).generate_graph(&mut g);
        for p in 0..n {
            for c in 0..n {
                check(g.get_children_set(p).contains(&c) == (full && p != c), "density 0 gives no edge, density 1 every edge");
            }
        }
    }
    fn c25_domain() {
        let d = any_real();
        let bad = d < 0.0 || d > 1.0;
        if bad {
            must_panic();
        }
        reach(["accepted", "refused"][concretize(bad as usize)]);
        UniformGraphGenerator::new(d, Some(11));
    }

    // params: nodes, pattern, density code; every draw on the side of the density the pattern gives, three on any side
    fn c25_many() {
        let n = param(0);
        let density = [0.25, 0.5, 0.75, 1.0 / 3.0, 0.9][param(2)];
        let total = n * (n - 1);
        max_draws(total as u64);
        let mut rnd = pseudo(param(1) as u32);
        for k in 0..total {
            let v = draw(11, k as u64) as f64 / 18446744073709551616.0;
            let below = rnd(2) == 0;
            if k != 0 && k != total / 2 && k != total - 1 {
                assume(if below { v < density - 1e-9 } else { v > density + 1e-9 });
            }
        }
        let mut g = graph_net(&vec![2; n], 0);
        g.add_edge(n - 1, 0);
        UniformGraphGenerator::new(density, Some(11)).generate_graph(&mut g);
        let mut idx = 0;
        for p in 0..n {
            let ch = g.get_children_set(p);
            for c in 0..n {
                if p == c {
                    check(!ch.contains(&c), "no variable is its own parent");
                } else {
                    let v = draw(11, idx) as f64 / 18446744073709551616.0;
                    idx += 1;
                    let near = (v - density).abs() < 1e-12;
                    check(near | (ch.contains(&c) == (v < density)), "each edge is present on a share of the draws equal to the density, independently");
                }
            }
        }
    }
}
