//! C26: random parameters
use crate::symx::*;
use crate::util::*;
use reCTBN::tools::{RandomParametersGenerator, UniformParametersGenerator};

entries! {
    // params: cards code, edges
    fn c26_matrices() {
        let cards: &[usize] = [&[2][..], &[3], &[2, 2], &[2, 3], &[3, 2], &[2, 2, 2], &[2, 3, 2], &[2; 6], &[7], &[2; 9], &[3, 3, 3]][param(0)];
        let n = cards.len();
        let mut g = graph_net(cards, param(1));
        let lo = real_in(0.0, 10.0);
        let hi = real_in(0.0, 20.0);
        assume(lo + 0.001 < hi);
        // a rate drawn as exactly zero (probability 2^-53) is left out
        let mut total = 0;
        for v in 0..n {
            total += n_configs(&g, v) * cards[v] * (cards[v] + 1);
        }
        for k in 0..total {
            assume(unit_excl(draw(11, k as u64)) > 0.0);
        }
        UniformParametersGenerator::new(lo..hi, Some(11)).generate_parameters(&mut g);
        for v in 0..n {
            let d = cards[v];
            let p = dp(g.get_node(v));
            let c = p.get_cim().clone().unwrap();
            check(c.shape() == [n_configs(&g, v), d, d], "the matrix has a table per parent configuration");
            for u in 0..c.shape()[0] {
                for x in 0..d {
                    let mut sum = 0.0;
                    for y in 0..d {
                        if y != x {
                            check(c[[u, x, y]] >= 0.0, "rates are not negative");
                        }
                        sum += c[[u, x, y]];
                    }
                    check(feq(sum, 0.0), "rows sum to zero");
                    let q = -c[[u, x, x]];
                    check(fle(lo, q) && fle(q, hi), "exit rates lie in the interval");
                }
            }
            check(p.validate_params().is_ok(), "generated parameters are accepted");
        }
        check(edges(n, param(1)).iter().all(|(p, c)| g.get_parent_set(*c).contains(p)), "the structure stays");
    }
    fn c26_domain() {
        let lo = any_real();
        let hi = any_real();
        let bad = lo < 0.0 || hi < 0.0;
        if bad {
            must_panic();
        }
        reach(["accepted", "refused"][concretize(bad as usize)]);
        UniformParametersGenerator::new(lo..hi, Some(11));
    }

    // the structure changes between two calls
    fn c26_again() {
        let cards = [2, 3];
        let mut g = graph_net(&cards, 0);
        let mut gen = UniformParametersGenerator::new(1.0..6.0, Some(11));
        for k in 0..90 {
            assume(unit_excl(draw(11, k)) > 0.0);
        }
        for e in 0..3 {
            if e == 1 {
                g.add_edge(0, 1);
            } else if e == 2 {
                g.add_edge(1, 0);
            }
            gen.generate_parameters(&mut g);
            for v in 0..2 {
                let d = cards[v];
                let c = dp(g.get_node(v)).get_cim().clone().unwrap();
                check(c.shape() == [n_configs(&g, v), d, d], "the matrix has a table per parent configuration");
                for u in 0..c.shape()[0] {
                    for x in 0..d {
                        check(fle(1.0, -c[[u, x, x]]) && fle(-c[[u, x, x]], 6.0), "exit rates lie in the interval");
                    }
                }
                check(dp(g.get_node(v)).validate_params().is_ok(), "generated parameters are accepted");
            }
        }
    }
}
