//! C15: constraint-based learning removes exactly the parents some test separates (order-independent PC)
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::constraint_based_algorithm::{Cache, CTPC};
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, HypothesisTest, F};
use reCTBN::structure_learning::StructuralLearningAlgorithm;

/// learned parameters for every node and parent set of an n-node binary network. The exit rates of
/// `focus` from state 0 in the first configuration are arbitrary for every parent set in `free`; the
/// transition counts of `focus` out of state 0 differ from the common ones for the parent sets in `odd`.
/// For the other nodes the rates depend on their successor only.
pub fn table(cards: &[usize], focus: usize, free: usize, odd: usize, steps: bool) -> Table {
    let n = cards.len();
    let mut t = vec![];
    for v in 0..n {
        for m in 0..1usize << n {
            if m >> v & 1 == 1 {
                continue;
            }
            let ps = list_of(m);
            let u: usize = ps.iter().map(|p| cards[*p]).product();
            let d = cards[v];
            let mut q = Array2::from_elem((u, d), 1.0);
            let mut c = Array3::zeros((u, d, d));
            for i in 0..u {
                for x in 0..d {
                    for y in 0..d {
                        if x != y {
                            c[[i, x, y]] = 30;
                        }
                    }
                }
            }
            if v == focus {
                if free >> m & 1 == 1 {
                    q[[0, 0]] = positive();
                } else if steps && m.count_ones() & 1 == 1 {
                    // no set separates a single parent
                    q[[0, 0]] = 100.0;
                }
                if odd >> m & 1 == 1 {
                    c[[u - 1, 0, 1]] = 300;
                }
            } else {
                let s = (v + 1) % n;
                if m >> s & 1 == 1 {
                    let mut w = 1;
                    for p in &ps {
                        if *p == s {
                            break;
                        }
                        w *= cards[*p];
                    }
                    for i in 0..u {
                        q[[i, 0]] = if i / w % cards[s] == 0 { 100.0 } else { 1.0 };
                    }
                }
            }
            t.push((v, set_of(m), learned(v, c, q)));
        }
    }
    Table(t)
}
/// different parameters for different datasets (told apart by the number of trajectories)
struct PerData(Vec<Table>);
impl ParameterLearning for PerData {
    fn fit<T: NetworkProcess>(&self, n: &T, d: &Dataset, node: usize, set: Option<BTreeSet<usize>>) -> Params {
        self.0[d.get_trajectories().len() - 1].fit(n, d, node, set)
    }
}
/// subsets of `of` with `k` elements
pub fn subsets(of: usize, k: u32) -> Vec<usize> {
    (0..of + 1).filter(|s| s & !of == 0 && (*s as u32).count_ones() == k).collect()
}
pub fn pc(n: usize, v: usize, mut indep: impl FnMut(usize, usize) -> bool) -> usize {
    let mut cand = ((1 << n) - 1) & !(1 << v);
    let mut b = 0u32;
    while b < (cand as u32).count_ones() {
        let snap = cand;
        for p in list_of(snap) {
            for s in subsets(snap & !(1 << p), b) {
                if indep(p, s) {
                    cand &= !(1 << p);
                    break;
                }
            }
        }
        b += 1;
    }
    cand
}

entries! {
    // params: nodes, focus, parent sets with arbitrary rates, parent sets with other counts, edges before, 1: rates that alternate with the number of parents
    fn c15_pc_stable() {
        let (n, focus) = (param(0), param(1));
        let mut cards = vec![2; n];
        cards[focus] = 3;
        let t = table(&cards, focus, param(2), param(3), param(5) == 1);
        let t2 = Table(t.0.clone());
        let data = blank_data(&cards);
        let mut g = graph_net(&cards, param(4));
        set_tag_cims(&mut g);
        let (af, ac) = (0.01, 0.01);
        let g = CTPC::new(t, F::new(af), ChiSquare::new(ac)).fit_transform(g, &data);
        check(g.get_number_of_nodes() == n, "learning keeps the nodes");
        for v in 0..n {
            let mut removed_late = 0;
            let want = pc(n, v, |p, s| {
                let mut c = Cache::new(&t2);
                let r = F::new(af).call(&g, v, p, &set_of(s), &data, &mut c);
                let mut c = Cache::new(&t2);
                let r = r && ChiSquare::new(ac).call(&g, v, p, &set_of(s), &data, &mut c);
                if r {
                    removed_late = removed_late.max(s.count_ones());
                }
                r
            });
            let got: usize = g.get_parent_set(v).iter().map(|p| 1 << p).sum();
            check(got == want, "the learned parents are those no test separates from the node");
            check(*g.get_node(v).get_label() == *node(v, 2).get_label() && g.get_node(v).get_reserved_space_as_parent() == cards[v], "learning keeps the nodes");
            if v != focus {
                check(got == 1 << (v + 1) % n, "each node is learned from its own parameters");
            } else {
                reach(["no parents", "one parent", "two parents", "three parents", "more parents", "more parents"][got.count_ones() as usize]);
                if removed_late > 0 {
                    reach("separated by a non-empty set");
                }
                if removed_late > 2 {
                    reach("separated by three or more");
                }
                obsu(got);
            }
        }
    }

    // params: nodes; one algorithm object on two datasets, one after the other
    fn c15_again() {
        let n = param(0);
        let cards: Vec<usize> = vec![2; n];
        let t = [table(&cards, 0, 3 << 1, 0, false), table(&cards, 1, 5, 0, true)];
        let c = CTPC::new(PerData(t.iter().map(|t| Table(t.0.clone())).collect()), F::new(0.01), ChiSquare::new(0.01));
        for (i, t) in t.iter().enumerate() {
            let d = Dataset::new((0..i + 1).map(|_| Trajectory::new(array![0.0, 1.0], Array2::zeros((2, n)))).collect());
            let g = c.fit_transform(net(&cards), &d);
            for v in 0..n {
                let want = pc(n, v, |p, s| {
                    let mut c = Cache::new(t);
                    F::new(0.01).call(&g, v, p, &set_of(s), &d, &mut c) && {
                        let mut c = Cache::new(t);
                        ChiSquare::new(0.01).call(&g, v, p, &set_of(s), &d, &mut c)
                    }
                });
                let got: usize = g.get_parent_set(v).iter().map(|p| 1 << p).sum();
                check(got == want, "the learned parents are those no test separates from the node");
            }
        }
    }
}
