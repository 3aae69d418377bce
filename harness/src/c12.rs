//! C12: marginal log-likelihood score
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction};

pub fn marginal(s: &Stats, alpha: f64, tau: f64) -> f64 {
    let (a, t) = (alpha / s.u as f64, tau / s.u as f64);
    let mut ll = 0.0;
    for u in 0..s.u {
        for x in 0..s.d {
            let mut leave = 0;
            for y in 0..s.d {
                leave += s.m(u, x, y);
            }
            let l = leave as f64;
            // exit rate
            ll += lgamma(a + l + 1.0) + (a + 1.0) * t.ln() - lgamma(a + 1.0) - (a + l + 1.0) * (t + s.t(u, x)).ln();
            // destination
            ll += lgamma(a) - lgamma(a + l);
            for y in 0..s.d {
                ll += lgamma(a + s.m(u, x, y) as f64) - lgamma(a);
            }
        }
    }
    ll
}

entries! {
    // params: case, alpha
    fn c12_log_likelihood() {
        let (cards, node, mask, lens) = learn_case(param(0));
        let n = net(cards);
        let d = any_data(cards, lens, false);
        let alpha = param(1);
        let tau = positive();
        let got = LogLikelihood::new(alpha, tau).call(&n, node, &set_of(mask), &d.set);
        let s = Stats::of(&d, node, &list_of(mask));
        check(feq(got, marginal(&s, alpha as f64, tau)), "the score is the marginal log-likelihood");
        obs(got);
    }
    // params: case, alpha
    fn c12_large() {
        let (d, node, mask) = large_case(param(0));
        let tau = positive();
        let got = LogLikelihood::new(param(1), tau).call(&net(&d.cards), node, &set_of(mask), &d.set);
        let s = Stats::of_known(&d, node, &list_of(mask));
        check(feq(got, marginal(&s, param(1) as f64, tau)), "the score is the marginal log-likelihood");
    }
    fn c12_tau() {
        let tau = any_real();
        assume(tau != 0.0);
        if tau < 0.0 {
            must_panic();
            reach("negative tau");
        }
        LogLikelihood::new(1, tau);
    }

    // one score asked about two datasets, two nodes and two parent sets in turn
    fn c12_again() {
        let (a, b, node, mask) = two_datasets();
        assume(mask >> node & 1 == 0);
        let n = net(&a.cards);
        let tau = positive();
        let l = LogLikelihood::new(2, tau);
        for d in [&a, &b, &a] {
            for (v, m) in [(node, mask), (node, 0), ((node + 1) % 3, 0)] {
                let got = l.call(&n, v, &set_of(m), &d.set);
                check(feq(got, marginal(&Stats::of_known(d, v, &list_of(m)), 2.0, tau)), "the score is the marginal log-likelihood of the data at hand");
            }
        }
    }
}
