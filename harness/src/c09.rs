//! C09: sufficient statistics count exactly what the data contains
use crate::symx::*;
use crate::util::*;

fn statistics(n: &CtbnNetwork, d: &Data, node: usize, mask: usize, s: &Stats) {
    let (m, t) = sufficient_statistics(n, &d.set, node, &set_of(mask));
    check(m.shape() == [s.u, s.d, s.d] && t.shape() == [s.u, s.d], "one table per configuration of the parents");
    let mut total = 0.0;
    for u in 0..s.u {
        for x in 0..s.d {
            check(feq(t[[u, x]], s.t(u, x)), "residence time is the time spent in the state under the configuration");
            total += t[[u, x]];
            for y in 0..s.d {
                check(m[[u, x, y]] == s.m(u, x, y), "transitions are counted under the configuration they leave from");
            }
        }
    }
    let mut span = 0.0;
    for t in &d.time {
        span += t[t.len() - 1] - t[0];
    }
    check(feq(total, span), "residence times add up to the observed time");
    obs(t[[0, 0]]);
}

entries! {
    // params: case, symbolic states
    fn c09_statistics() {
        let (cards, node, mask, lens) = learn_case(param(0));
        let parents = list_of(mask);
        let n = net(cards);
        let d = any_data(cards, lens, param(1) == 1);
        statistics(&n, &d, node, mask, &Stats::of(&d, node, &parents));
    }
    // params: case
    fn c09_large() {
        let (d, node, mask) = large_case(param(0));
        statistics(&net(&d.cards), &d, node, mask, &Stats::of_known(&d, node, &list_of(mask)));
    }
    // statistics of a dataset are the sum of the statistics of its trajectories
    fn c09_additive() {
        let (cards, node, mask, _) = learn_case(param(0));
        let n = net(cards);
        let d = any_data(cards, &[2, 2], false);
        let (m, t) = sufficient_statistics(&n, &d.set, node, &set_of(mask));
        let tr = d.set.get_trajectories();
        let (m1, t1) = sufficient_statistics(&n, &Dataset::new(vec![tr[0].clone()]), node, &set_of(mask));
        let (m2, t2) = sufficient_statistics(&n, &Dataset::new(vec![tr[1].clone()]), node, &set_of(mask));
        for u in 0..m.shape()[0] {
            for x in 0..cards[node] {
                check(feq(t[[u, x]], t1[[u, x]] + t2[[u, x]]), "trajectories contribute independently");
                for y in 0..cards[node] {
                    check(m[[u, x, y]] == m1[[u, x, y]] + m2[[u, x, y]], "trajectories contribute independently");
                }
            }
        }
        reach("two trajectories");
    }
}
