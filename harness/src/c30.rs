//! C30: what is learned about a variable depends on that variable and the given parents only
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};

entries! {
    // params: case, what to compare
    // the same history of node and parents, with other histories of the other variables, other edges
    // in the network and other parameters set
    fn c30_locality() {
        let (cards, node_, pmask, lens): (&[usize], usize, usize, &[usize]) = [
            (&[2, 2][..], 0, 0, &[3][..]),
            (&[2, 2, 2], 1, 0b001, &[2]),
            (&[2, 3, 2], 0, 0b100, &[2]),
            (&[2, 2, 3], 1, 0b100, &[2]),
            (&[3, 2], 1, 0, &[2, 2]),
            (&[2, 2, 2, 2], 2, 0b1001, &[2]),
        ][param(0)];
        let n = cards.len();
        let fam = pmask | 1 << node_;
        let time = any_times(lens);
        let mut e1 = vec![];
        let mut e2 = vec![];
        for l in lens {
            let (mut a, mut b) = (vec![], vec![]);
            for _ in 0..*l {
                let r1: Vec<usize> = cards.iter().map(|c| choose(*c)).collect();
                // other variables: one different value each (for binary variables the only other)
                let r2: Vec<usize> = (0..n).map(|v| if fam >> v & 1 == 1 { r1[v] } else { (r1[v] + 1) % cards[v] }).collect();
                a.push(r1);
                b.push(r2);
            }
            e1.push(a);
            e2.push(b);
        }
        let d1 = data_of(cards, time.clone(), e1).set;
        let d2 = data_of(cards, time, e2).set;
        let g1 = graph_net(cards, 0);
        let s = set_of(pmask);
        // the complete network, or just the family, with matrices and statistics of something else
        let mut g2 = graph_net(cards, if fork() { (1 << (n * (n - 1))) - 1 } else { 0 });
        if fork() {
            g2.initialize_adj_matrix();
            for p in &s {
                g2.add_edge(*p, node_);
            }
        }
        set_tag_cims(&mut g2);
        for v in 0..n {
            let (u, d) = (n_configs(&g2, v), cards[v]);
            let p = dpm(g2.get_node_mut(v));
            p.set_transitions(Array3::from_elem((u, d, d), 7));
            p.set_residence_time(Array2::from_elem((u, d), 3.0));
        }
        match param(1) {
            0 => {
                let (m1, t1) = sufficient_statistics(&g1, &d1, node_, &s);
                let (m2, t2) = sufficient_statistics(&g2, &d2, node_, &s);
                check(m1 == m2 && t1.shape() == t2.shape() && t1.iter().zip(t2.iter()).all(|(a, b)| feq(*a, *b)), "statistics depend on the variable and its parents only");
            }
            1 => {
                let l = BayesianApproach { alpha: 1, tau: 1.0 };
                let a = l.fit(&g1, &d1, node_, Some(s.clone()));
                let b = l.fit(&g2, &d2, node_, Some(s));
                let (a, b) = (dp(&a), dp(&b));
                let (ca, cb) = (a.get_cim().clone().unwrap(), b.get_cim().clone().unwrap());
                check(ca.shape() == cb.shape() && ca.iter().zip(cb.iter()).all(|(x, y)| feq(*x, *y)), "parameters depend on the variable and its parents only");
                check(a.get_transitions() == b.get_transitions(), "parameters depend on the variable and its parents only");
                check(a.get_label() == b.get_label() && *a.get_label() == *node(node_, 2).get_label(), "learned parameters keep the name of the variable");
            }
            2 => {
                let l = LogLikelihood::new(1, 1.0);
                check(feq(l.call(&g1, node_, &s, &d1), l.call(&g2, node_, &s, &d2)), "scores depend on the variable and its parents only");
            }
            3 => {
                let a = MLE {}.fit(&g1, &d1, node_, Some(s.clone()));
                let b = MLE {}.fit(&g2, &d2, node_, Some(s));
                let (a, b) = (dp(&a), dp(&b));
                check(a.get_transitions() == b.get_transitions(), "parameters depend on the variable and its parents only");
                let (ta, tb) = (a.get_residence_time().clone().unwrap(), b.get_residence_time().clone().unwrap());
                let (ca, cb) = (a.get_cim().clone().unwrap(), b.get_cim().clone().unwrap());
                check(ca.shape() == cb.shape() && ta.shape() == tb.shape(), "parameters depend on the variable and its parents only");
                for u in 0..ta.shape()[0] {
                    for x in 0..ta.shape()[1] {
                        check(feq(ta[[u, x]], tb[[u, x]]), "parameters depend on the variable and its parents only");
                        if ta[[u, x]] > 0.0 {
                            for y in 0..ta.shape()[1] {
                                check(feq(ca[[u, x, y]], cb[[u, x, y]]), "parameters depend on the variable and its parents only");
                            }
                        }
                    }
                }
            }
            _ => {
                let l = BIC::new(1, 1.0);
                check(feq(l.call(&g1, node_, &s, &d1), l.call(&g2, node_, &s, &d2)), "scores depend on the variable and its parents only");
            }
        }
    }
    // learning with no parent set given uses the network's own
    fn c30_own_parents() {
        let cards = [2, 2, 3];
        let mask = param(0);
        let g = graph_net(&cards, mask);
        let data = any_data(&cards, &[2], false);
        let v = choose(3);
        let own: BTreeSet<usize> = edges(3, mask).into_iter().filter(|(_, c)| *c == v).map(|(p, _)| p).collect();
        let l = BayesianApproach { alpha: 1, tau: 1.0 };
        let a = l.fit(&g, &data.set, v, None);
        let b = l.fit(&g, &data.set, v, Some(own));
        let (ca, cb) = (dp(&a).get_cim().clone().unwrap(), dp(&b).get_cim().clone().unwrap());
        check(ca.shape() == cb.shape() && ca.iter().zip(cb.iter()).all(|(x, y)| feq(*x, *y)), "without a parent set the network's own is used");
        check(dp(&a).get_transitions() == dp(&b).get_transitions(), "without a parent set the network's own is used");
    }

    // params: case, what to compare; large datasets
    fn c30_large() {
        let (d1, node_, pmask) = large_case(param(0));
        let n = d1.cards.len();
        let fam = pmask | 1 << node_;
        let shift = |e: &Vec<usize>| (0..n).map(|v| if fam >> v & 1 == 1 { e[v] } else { (e[v] + 1) % d1.cards[v] }).collect::<Vec<usize>>();
        let ev = d1.ev.iter().map(|t| t.iter().map(shift).collect()).collect();
        let d2 = data_of(&d1.cards, d1.time.clone(), ev).set;
        let d1 = d1;
        let g1 = net(&d1.cards);
        let mut g2 = net(&d1.cards);
        for v in 0..n {
            g2.add_edge(v, (v + 1) % n);
        }
        let s = set_of(pmask);
        match param(1) {
            0 => {
                let (m1, t1) = sufficient_statistics(&g1, &d1.set, node_, &s);
                let (m2, t2) = sufficient_statistics(&g2, &d2, node_, &s);
                check(m1 == m2 && t1.shape() == t2.shape() && t1.iter().zip(t2.iter()).all(|(a, b)| feq(*a, *b)), "statistics depend on the variable and its parents only");
            }
            _ => {
                let l = BayesianApproach { alpha: 3, tau: 1.0 };
                let a = l.fit(&g1, &d1.set, node_, Some(s.clone()));
                let b = l.fit(&g2, &d2, node_, Some(s));
                let (ca, cb) = (dp(&a).get_cim().clone().unwrap(), dp(&b).get_cim().clone().unwrap());
                check(ca.shape() == cb.shape() && ca.iter().zip(cb.iter()).all(|(x, y)| feq(*x, *y)), "parameters depend on the variable and its parents only");
                check(dp(&a).get_transitions() == dp(&b).get_transitions(), "parameters depend on the variable and its parents only");
            }
        }
    }
}
