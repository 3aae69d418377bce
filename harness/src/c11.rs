//! C11: Bayesian parameters
use crate::symx::*;
use crate::util::*;

fn bayes(n: &CtbnNetwork, d: &Data, node: usize, alpha: usize, tau: f64, p: &Params, s: &Stats) {
    let p = dp(&p);
    let (m, t) = (p.get_transitions().as_ref().unwrap(), p.get_residence_time().as_ref().unwrap());
    check(p.get_label() == dp(n.get_node(node)).get_label() && p.get_reserved_space_as_parent() == d.cards[node], "the node keeps its label and domain");
    let c = p.get_cim().as_ref().unwrap();
    check(c.shape() == [s.u, s.d, s.d] && m.shape() == [s.u, s.d, s.d] && t.shape() == [s.u, s.d], "one intensity matrix per configuration of the parents");
    let k = s.u as f64;
    for u in 0..s.u {
        for x in 0..s.d {
            check(feq(t[[u, x]], s.t(u, x)), "the statistics attached to the node are those of the data, without the prior");
            let mut sum = 0.0;
            for y in 0..s.d {
                check(m[[u, x, y]] == s.m(u, x, y), "the statistics attached to the node are those of the data, without the prior");
                if y != x {
                    let want = (s.m(u, x, y) as f64 + alpha as f64 / k) / (s.t(u, x) + tau / k);
                    check(feq(c[[u, x, y]], want), "rates are smoothed transitions over smoothed residence time");
                    sum += c[[u, x, y]];
                }
            }
            check(feq(c[[u, x, x]], -sum), "rows sum to zero");
        }
    }
    if alpha > 0 {
        let mut ok = true;
        for u in 0..s.u {
            for x in 0..s.d {
                for y in 0..s.d {
                    ok &= if x == y { c[[u, x, y]] < 0.0 } else { c[[u, x, y]] > 0.0 };
                }
            }
        }
        check(ok, "with a positive prior every learned matrix is a valid intensity matrix");
        reach("positive prior");
    }
}

entries! {
    // params: case, parent set from the network?
    fn c11_bayes() {
        let (cards, node, mask, lens) = learn_case(param(0));
        let parents = list_of(mask);
        let mut n = net(cards);
        n.initialize_adj_matrix();
        let from_net = param(1) == 1;
        if from_net {
            for p in &parents {
                n.add_edge(*p, node);
            }
        }
        let d = any_data(cards, lens, false);
        let alpha = count(1000);
        let tau = positive();
        let p = BayesianApproach { alpha, tau }.fit(&n, &d.set, node, if from_net { None } else { Some(set_of(mask)) });
        bayes(&n, &d, node, alpha, tau, &p, &Stats::of(&d, node, &parents));
        obs(dp(&p).get_cim().as_ref().unwrap()[[0, 0, 0]]);
    }
    // params: case
    fn c11_large() {
        let (d, node, mask) = large_case(param(0));
        let n = net(&d.cards);
        let alpha = count(100000);
        let tau = positive();
        let p = BayesianApproach { alpha, tau }.fit(&n, &d.set, node, Some(set_of(mask)));
        bayes(&n, &d, node, alpha, tau, &p, &Stats::of_known(&d, node, &list_of(mask)));
    }

    // two datasets and two nodes in turn
    fn c11_again() {
        let (a, b, node, mask) = two_datasets();
        assume(mask >> node & 1 == 0);
        let n = net(&a.cards);
        let alpha = count(1000);
        let tau = positive();
        let l = BayesianApproach { alpha, tau };
        for d in [&a, &b, &a] {
            for (v, m) in [(node, mask), ((node + 1) % 3, 0)] {
                let p = l.fit(&n, &d.set, v, Some(set_of(m)));
                bayes(&n, d, v, alpha, tau, &p, &Stats::of_known(d, v, &list_of(m)));
            }
        }
    }
}
