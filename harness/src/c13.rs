//! C13: BIC score
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::score_function::{LogLikelihood, ScoreFunction, BIC};

entries! {
    // params: case, alpha
    fn c13_bic() {
        let (cards, node, mask, lens) = learn_case(param(0));
        let n = net(cards);
        let d = any_data(cards, lens, false);
        let alpha = param(1);
        let tau = positive();
        let ll = LogLikelihood::new(alpha, tau).call(&n, node, &set_of(mask), &d.set);
        let got = BIC::new(alpha, tau).call(&n, node, &set_of(mask), &d.set);
        let mut u = 1;
        for p in list_of(mask) {
            u *= cards[p];
        }
        let size: usize = lens.iter().map(|l| l - 1).sum();
        let k = u * cards[node] * (cards[node] - 1);
        check(feq(got, ll - (size as f64).ln() / 2.0 * k as f64), "BIC is the log-likelihood minus the penalty for the parameters");
        obs(got);
    }
    // params: case, alpha
    fn c13_large() {
        let (d, node, mask) = large_case(param(0));
        let n = net(&d.cards);
        let tau = positive();
        let ll = LogLikelihood::new(param(1), tau).call(&n, node, &set_of(mask), &d.set);
        let got = BIC::new(param(1), tau).call(&n, node, &set_of(mask), &d.set);
        let u: usize = list_of(mask).iter().map(|p| d.cards[*p]).product();
        let size: usize = d.time.iter().map(|t| t.len() - 1).sum();
        let k = u * d.cards[node] * (d.cards[node] - 1);
        check(feq(got, ll - (size as f64).ln() / 2.0 * k as f64), "BIC is the log-likelihood minus the penalty for the parameters");
    }
    fn c13_tau() {
        let tau = any_real();
        assume(tau != 0.0);
        if tau < 0.0 {
            must_panic();
            reach("negative tau");
        }
        BIC::new(1, tau);
    }

    // one score asked about two datasets, two nodes and two parent sets in turn
    fn c13_again() {
        let (a, b, node, mask) = two_datasets();
        assume(mask >> node & 1 == 0);
        let n = net(&a.cards);
        let tau = positive();
        let bic = BIC::new(2, tau);
        for d in [&a, &b, &a] {
            for (v, m) in [(node, mask), (node, 0), ((node + 1) % 3, 0)] {
                let ll = LogLikelihood::new(2, tau).call(&n, v, &set_of(m), &d.set);
                let got = bic.call(&n, v, &set_of(m), &d.set);
                let u: usize = list_of(m).iter().map(|p| d.cards[*p]).product();
                let k = u * d.cards[v] * (d.cards[v] - 1);
                check(feq(got, ll - ((d.time[0].len() - 1) as f64).ln() / 2.0 * k as f64), "BIC is the log-likelihood minus the penalty for the parameters");
            }
        }
    }
}
