//! C14: hill climbing ends in a structure no single change improves
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::ScoreFunction;
use reCTBN::structure_learning::StructuralLearningAlgorithm;

pub fn mask_of(s: &BTreeSet<usize>) -> usize {
    s.iter().map(|x| 1 << x).sum()
}
/// a score for every parent set of `focus`; the other nodes prefer one fixed parent set each
pub struct Score {
    pub n: usize,
    pub focus: usize,
    pub table: Vec<f64>,
}
impl Score {
    pub fn any(n: usize, focus: usize) -> Score {
        Score { n, focus, table: (0..1 << n).map(|m| if m >> focus & 1 == 1 { 0.0 } else { any_real() }).collect() }
    }
    pub fn fixed(&self, node: usize) -> usize {
        (node + 1) % self.n
    }
    pub fn of(&self, node: usize, m: usize) -> f64 {
        if node == self.focus {
            self.table[m]
        } else {
            let f = 1 << self.fixed(node);
            -((m ^ f).count_ones() as f64)
        }
    }
}
impl ScoreFunction for Score {
    fn call<T: NetworkProcess>(&self, _: &T, node: usize, parent_set: &BTreeSet<usize>, _: &Dataset) -> f64 {
        check(!parent_set.contains(&node), "a node is never its own parent");
        self.of(node, mask_of(parent_set))
    }
}

/// different scores for different datasets (told apart by the number of trajectories)
struct PerData(Vec<Score>);
impl ScoreFunction for PerData {
    fn call<T: NetworkProcess>(&self, n: &T, node: usize, parent_set: &BTreeSet<usize>, d: &Dataset) -> f64 {
        self.0[d.get_trajectories().len() - 1].call(n, node, parent_set, d)
    }
}

entries! {
    // params: variables; one algorithm object on two datasets, one after the other
    fn c14_again() {
        let n = param(0);
        let cards = vec![2; n];
        let s = [Score::any(n, 0), Score::any(n, 1)];
        let t: Vec<Score> = s.iter().map(|x| Score { n, focus: x.focus, table: x.table.clone() }).collect();
        let h = HillClimbing::new(PerData(t), None);
        for (i, s) in s.iter().enumerate() {
            let d = Dataset::new((0..i + 1).map(|_| Trajectory::new(array![0.0, 1.0], Array2::zeros((2, n)))).collect());
            let g = h.fit_transform(net(&cards), &d);
            for v in 0..n {
                let l = mask_of(&g.get_parent_set(v));
                check(s.of(v, l) >= s.of(v, 0), "the learned parents score at least as well as no parents");
                for p in 0..n {
                    if p != v {
                        check(s.of(v, l ^ (1 << p)) <= s.of(v, l), "no single added or removed parent improves the score");
                    }
                }
            }
        }
    }
    // params: nodes, focus, limit (9: none), edges before
    fn c14_local_optimum() {
        let n = param(0);
        let focus = param(1);
        let cards: Vec<usize> = (0..n).map(|i| 2 + i % 2).collect();
        let mut g = graph_net(&cards, param(3));
        set_tag_cims(&mut g);
        let s = Score::any(n, focus);
        let t: Vec<f64> = s.table.clone();
        let max = if param(2) == 9 { None } else { Some(param(2)) };
        let max_n = max.unwrap_or(n);
        let g = HillClimbing::new(s, max).fit_transform(g, &blank_data(&cards));
        check(g.get_number_of_nodes() == n, "learning keeps the nodes");
        let s = Score { n, focus, table: t };
        for v in 0..n {
            check(*g.get_node(v).get_label() == *node(v, 2).get_label() && g.get_node(v).get_reserved_space_as_parent() == cards[v], "learning keeps the nodes");
            let l = mask_of(&g.get_parent_set(v));
            check(l >> v & 1 == 0, "a node is never its own parent");
            check(l.count_ones() as usize <= max_n, "the limit on the number of parents is kept");
            check(s.of(v, l) >= s.of(v, 0), "the learned parents score at least as well as no parents");
            for p in 0..n {
                if p != v {
                    let m = l ^ (1 << p);
                    if m.count_ones() as usize <= max_n {
                        check(s.of(v, m) <= s.of(v, l), "no single added or removed parent improves the score");
                    }
                }
            }
            if v != focus && max_n > 0 {
                check(l == 1 << s.fixed(v), "each node is learned with its own score");
            }
            if l != 0 && v == focus {
                reach("parents found");
            }
        }
        obsu(mask_of(&g.get_parent_set(focus)));
    }
    fn c14_mismatch() {
        let g = net(&[2, 2]);
        let k = 1 + choose(3);
        let d = blank_data(&[2, 2, 2][..k]);
        if k != 2 {
            must_panic();
        }
        HillClimbing::new(Score { n: 2, focus: 0, table: vec![0.0; 4] }, None).fit_transform(g, &d);
    }

    // params: nodes, focus, limit (99: none), pattern, number of arbitrary weights
    // many variables: fixed scores of every parent set plus arbitrary weights of some parents
    fn c14_many() {
        let (n, focus) = (param(0), param(1));
        let max = if param(2) == 99 { None } else { Some(param(2)) };
        let max_n = max.unwrap_or(n);
        let mut w = vec![0.0; n];
        let mut left = param(4);
        for p in (0..n).rev() {
            if p != focus && left > 0 {
                w[p] = any_real();
                left -= 1;
            }
        }
        let mut rnd = pseudo(param(3) as u32);
        let table: Vec<f64> = (0..1usize << n)
            .map(|m| {
                let mut s = rnd(40) as f64;
                for p in 0..n {
                    if m >> p & 1 == 1 {
                        s += w[p];
                        if param(3) & 1 == 1 {
                            s += 30.0 - p as f64;
                        }
                    }
                }
                s
            })
            .collect();
        let s = Score { n, focus, table: table.clone() };
        let cards = vec![2; n];
        let g = HillClimbing::new(s, max).fit_transform(net(&cards), &blank_data(&cards));
        let s = Score { n, focus, table };
        for v in 0..n {
            let l = mask_of(&g.get_parent_set(v));
            check(l >> v & 1 == 0, "a node is never its own parent");
            check(l.count_ones() as usize <= max_n, "the limit on the number of parents is kept");
            check(s.of(v, l) >= s.of(v, 0), "the learned parents score at least as well as no parents");
            for p in 0..n {
                if p != v {
                    let m = l ^ (1 << p);
                    if m.count_ones() as usize <= max_n {
                        check(s.of(v, m) <= s.of(v, l), "no single added or removed parent improves the score");
                    }
                }
            }
            if v != focus && max_n > 0 {
                check(l == 1 << s.fixed(v), "each node is learned with its own score");
            }
            if v == focus && l.count_ones() > 3 {
                reach("many parents found");
            }
        }
    }
}
