//! C10: maximum likelihood parameters
use crate::symx::*;
use crate::util::*;

fn same_stats(p: &DiscreteStatesContinousTimeParams, s: &Stats) {
    let m = p.get_transitions().as_ref().unwrap();
    let t = p.get_residence_time().as_ref().unwrap();
    check(m.shape() == [s.u, s.d, s.d] && t.shape() == [s.u, s.d], "the statistics are attached to the node");
    for u in 0..s.u {
        for x in 0..s.d {
            check(feq(t[[u, x]], s.t(u, x)), "the statistics are attached to the node");
            for y in 0..s.d {
                check(m[[u, x, y]] == s.m(u, x, y), "the statistics are attached to the node");
            }
        }
    }
}

fn mle(n: &CtbnNetwork, d: &Data, node: usize, p: &Params, s: &Stats) {
    let p = dp(&p);
    check(p.get_label() == dp(n.get_node(node)).get_label() && p.get_reserved_space_as_parent() == d.cards[node], "the node keeps its label and domain");
    same_stats(p, s);
    let c = p.get_cim().as_ref().unwrap();
    check(c.shape() == [s.u, s.d, s.d], "one intensity matrix per configuration of the parents");
    for u in 0..s.u {
        for x in 0..s.d {
            if s.t(u, x) > 0.0 {
                let mut sum = 0.0;
                for y in 0..s.d {
                    if y != x {
                        check(feq(c[[u, x, y]], s.m(u, x, y) as f64 / s.t(u, x)), "rates are transitions over residence time");
                        sum += c[[u, x, y]];
                        if s.m(u, x, y) > 0 {
                            reach("a transition");
                        }
                    }
                }
                check(feq(c[[u, x, x]], -sum), "rows sum to zero");
            }
        }
    }
    check(n.get_node(node).get_reserved_space_as_parent() == d.cards[node] && dp(n.get_node(node)).get_cim().is_none(), "the network itself is left alone");
}

entries! {
    // params: case, parent set from the network?
    fn c10_mle() {
        let (cards, node, mask, lens) = learn_case(param(0));
        let parents = list_of(mask);
        let mut n = net(cards);
        n.initialize_adj_matrix();
        let from_net = param(1) == 1;
        if from_net {
            for p in &parents {
                n.add_edge(*p, node);
            }
        }
        let d = any_data_apart(cards, lens);
        let p = MLE {}.fit(&n, &d.set, node, if from_net { None } else { Some(set_of(mask)) });
        mle(&n, &d, node, &p, &Stats::of(&d, node, &parents));
    }
    // params: case
    fn c10_large() {
        let (d, node, mask) = large_case(param(0));
        let n = net(&d.cards);
        let p = MLE {}.fit(&n, &d.set, node, Some(set_of(mask)));
        mle(&n, &d, node, &p, &Stats::of_known(&d, node, &list_of(mask)));
    }

    // two datasets and two nodes in turn
    fn c10_again() {
        let (a, b, node, mask) = two_datasets();
        assume(mask >> node & 1 == 0);
        let n = net(&a.cards);
        let l = MLE {};
        for d in [&a, &b, &a] {
            for (v, m) in [(node, mask), ((node + 1) % 3, 0)] {
                let p = l.fit(&n, &d.set, v, Some(set_of(m)));
                mle(&n, d, v, &p, &Stats::of_known(d, v, &list_of(m)));
            }
        }
    }
}
