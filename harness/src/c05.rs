//! C05: the next state follows the intensities of the row
use crate::symx::*;
use crate::util::*;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;

entries! {
    // a row with arbitrary non-negative rates, an arbitrary draw
    fn c05_next_state() {
        let (d, x, zeros) = (param(0), param(1), param(2));
        let (u, cfg) = (2, choose(2));
        let mut c = tag_cim(0, u, d);
        // rates: total q, all but the last non-zero rate free
        let q = positive();
        let mut rate = vec![0.0; d];
        let mut left = q;
        let mut last = d;
        for y in 0..d {
            if y != x && zeros >> y & 1 == 0 {
                last = y;
            }
        }
        for y in 0..d {
            if y != x && zeros >> y & 1 == 0 {
                if y == last {
                    rate[y] = left;
                } else {
                    let r = positive();
                    rate[y] = r;
                    left -= r;
                }
            }
        }
        assume(left > 0.0);
        for y in 0..d {
            c[[cfg, x, y]] = if y == x { -q } else { rate[y] };
        }
        let mut p = dp(&node(0, d)).clone();
        p.set_cim_unchecked(c);
        let mut rng = ChaCha8Rng::seed_from_u64(5);
        let got = sv(&p.get_random_state(x, cfg, &mut rng).unwrap());
        obsu(got);
        check(got < d, "the next state is in the domain");
        check(got != x, "the next state differs from the current one");
        if got < d && got != x {
            check(zeros >> got & 1 == 0, "a state that cannot be reached directly is never chosen");
        }
        let v = unit_incl(draw(5, 0)) * q;
        let mut cum = 0.0;
        for y in 0..d {
            if y != x {
                // (whichever way the draw is made a number)
                let inside = v > cum + q * 1e-12 && v < cum + rate[y] - q * 1e-12;
                cum += rate[y];
                check(!inside | (got == y), "each state is chosen on a share of the draws equal to its share of the rate");
            }
        }
        if got == last {
            reach("last state");
        }
    }
    // a matrix whose row sum is off by the accepted tolerance
    fn c05_rounded_rows() {
        let (d, x) = (param(0), param(1));
        let mut c = tag_cim(0, 1, d);
        let off = real(-1e-9, 1e-9);
        c[[0, x, x]] += off;
        let mut p = dp(&node(0, d)).clone();
        p.set_cim(c).unwrap();
        let mut rng = ChaCha8Rng::seed_from_u64(5);
        let got = sv(&p.get_random_state(x, 0, &mut rng).unwrap());
        check(got < d && got != x, "the next state is another state of the domain even when rates are rounded");
    }
    // any accepted row and any draw with rounded arithmetic
    fn c05_floats() {
        let (d, x, zeros) = (param(0), param(1), param(2));
        let mut c = tag_cim(0, 1, d);
        let mut total = 0.0;
        for y in 0..d {
            if y != x {
                let r = if zeros >> y & 1 == 1 { 0.0 } else { real(1e-3, 1e3) };
                c[[0, x, y]] = r;
                total += r;
            }
        }
        c[[0, x, x]] = -total + real(-1e-9, 1e-9);
        let mut p = dp(&node(0, d)).clone();
        p.set_cim_unchecked(c.clone());
        // draws that rounding cannot carry over the end of a share
        let v = unit_incl(draw(5, 0)) * total;
        let mut cum = 0.0;
        let mut inside = vec![false; d];
        for y in 0..d {
            if y != x {
                inside[y] = v > cum + 1e-5 && v < cum + c[[0, x, y]] - 1e-5;
                cum += c[[0, x, y]];
            }
        }
        let mut rng = ChaCha8Rng::seed_from_u64(5);
        rounding(true);
        let got = sv(&p.get_random_state(x, 0, &mut rng).unwrap());
        rounding(false);
        check(got < d && got != x, "the next state is another state of the domain even when results are rounded");
        if got < d && got != x {
            check(zeros >> got & 1 == 0, "a state that cannot be reached directly is never chosen even when results are rounded");
            for y in 0..d {
                check(!inside[y] | (got == y), "shares are kept up to rounding");
            }
        }
    }
    fn c05_uniform_state() {
        max_draws(3);
        let d = 1 + choose(5);
        let p = node(0, d);
        let seed = any_u64();
        let mut rng = ChaCha8Rng::seed_from_u64(seed);
        let got = sv(&p.get_random_state_uniform(&mut rng));
        check(got == rand::Rng::gen_range(&mut ChaCha8Rng::seed_from_u64(seed), 0..d), "a uniform state is an unbiased draw below the number of states");
        check(got < d, "a uniform state is in the domain");
        for y in 0..d {
            if got == y {
                reach(["u0", "u1", "u2", "u3", "u4"][y]);
            }
        }
    }
    fn c05_no_matrix() {
        let p = node(0, 2);
        let mut rng = ChaCha8Rng::seed_from_u64(5);
        check(p.get_random_state(choose(2), 0, &mut rng).is_err(), "no transition without an intensity matrix");
        check(p.get_random_residence_time(choose(2), 0, &mut rng).is_err(), "no residence time without an intensity matrix");
    }

    // params: states, configurations; fixed rates, an arbitrary draw
    fn c05_wide() {
        let (d, u) = (param(0), param(1));
        let c = tag_cim(0, u, d);
        let (x, cfg) = (pick(d), pick(u));
        let mut p = dp(&node(0, d)).clone();
        p.set_cim_unchecked(c.clone());
        let mut rng = ChaCha8Rng::seed_from_u64(5);
        let got = sv(&p.get_random_state(x, cfg, &mut rng).unwrap());
        check(got < d && got != x, "the next state is another state of the domain");
        let q = -c[[cfg, x, x]];
        let v = unit_incl(draw(5, 0)) * q;
        let mut cum = 0.0;
        for y in 0..d {
            if y != x {
                if y == got {
                    check(v > cum - q * 1e-12 && v < cum + c[[cfg, x, y]] + q * 1e-12, "each state is chosen on a share of the draws equal to its share of the rate");
                }
                cum += c[[cfg, x, y]];
            }
        }
    }
}
