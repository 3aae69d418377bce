//! C04: which intensity matrices a node accepts
use crate::symx::*;
use crate::util::*;

fn param_d(d: usize) -> DiscreteStatesContinousTimeParams {
    dp(&node(0, d)).clone()
}

entries! {
    // arbitrary real entries
    fn c04_entries() {
        let (u, d) = (param(0), param(1));
        let mut c = Array3::zeros((u, d, d));
        let mut good = true;
        let mut bad = false;
        for i in 0..u {
            for x in 0..d {
                let mut sum = 0.0;
                for y in 0..d {
                    let r = any_real();
                    c[[i, x, y]] = r;
                    sum += r;
                    if x == y {
                        good &= r < 0.0;
                        bad |= r >= 0.0;
                    } else {
                        good &= r >= 0.0;
                        bad |= r < -1e-6;
                    }
                }
                good &= sum == 0.0;
                // clearly off: more than any rounding tolerance relative to the row
                let q = c[[i, x, x]].abs();
                let tol = 1e-6 * if q > 1.0 { q } else { 1.0 };
                bad |= sum > tol;
                bad |= sum < -tol;
            }
        }
        let mut p = param_d(d);
        if fork() {
            p.set_cim_unchecked(tag_cim(0, u, d));
        }
        let r = p.set_cim(c.clone());
        check(!good | r.is_ok(), "a valid intensity matrix is accepted");
        check(!bad | r.is_err(), "an invalid intensity matrix is rejected");
        match r {
            Ok(()) => {
                reach("accepted");
                let s = p.get_cim().as_ref().unwrap();
                check(s.shape() == c.shape(), "the accepted matrix is stored");
                for i in 0..u {
                    for x in 0..d {
                        for y in 0..d {
                            check(s[[i, x, y]] == c[[i, x, y]], "the accepted matrix is stored");
                        }
                    }
                }
                check(p.validate_params().is_ok(), "a stored matrix validates");
            }
            Err(_) => {
                reach("rejected");
                check(p.get_cim().is_none(), "a rejected matrix is not stored");
                check(p.validate_params().is_err(), "a node without matrix does not validate");
            }
        }
    }
    // a matrix that is right except for one not-a-number or infinite entry
    fn c04_not_a_number() {
        let (u, d) = (param(0), param(1));
        let mut c = tag_cim(0, u, d);
        let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][choose(3)];
        c[[choose(u), choose(d), choose(d)]] = v;
        let mut p = param_d(d);
        check(p.set_cim(c).is_err(), "an entry that is not a finite number is rejected");
        check(p.get_cim().is_none(), "a rejected matrix is not stored");
    }
    // shapes that do not fit the domain
    fn c04_shapes() {
        let d = 2 + choose(3);
        let (a, b) = (1 + choose(4), 1 + choose(4));
        let mut c = Array3::zeros((1 + choose(2), a, b));
        for i in 0..c.shape()[0] {
            for x in 0..a {
                for y in 0..b {
                    c[[i, x, y]] = if x == y { -((b - 1) as f64) } else { 1.0 };
                }
            }
        }
        let mut p = param_d(d);
        let ok = p.set_cim(c).is_ok();
        if a != d || b != d {
            check(!ok, "a matrix of the wrong shape is rejected");
        } else {
            check(ok, "a matrix of the right shape is accepted");
            reach("right shape");
        }
    }

    // params: tables, states; a valid matrix with one entry replaced by any number
    fn c04_one_entry() {
        let (u, d) = (param(0), param(1));
        let mut c = tag_cim(0, u, d);
        let (i, x, y) = if u * d * d <= 200 { (choose(u), choose(d), choose(d)) } else { (pick(u), pick(d), pick(d)) };
        let r = any_real();
        let off = r - c[[i, x, y]];
        let q = if x == y { r } else { c[[i, x, x]] };
        let q = q.abs();
        let tol = 1e-6 * if q > 1.0 { q } else { 1.0 };
        let sign = if x == y { r < 0.0 } else { r >= 0.0 };
        let wrong = if x == y { r >= 0.0 } else { r < -1e-6 };
        c[[i, x, y]] = r;
        let mut p = param_d(d);
        let ok = p.set_cim(c.clone()).is_ok();
        check(!(off == 0.0) | !sign | ok, "a valid intensity matrix is accepted");
        check(!(wrong | (off > tol) | (off < -tol)) | !ok, "an invalid intensity matrix is rejected");
        check(p.get_cim().is_some() == ok, "an accepted matrix is stored, a rejected one is not");
        if ok {
            check(p.get_cim().as_ref().unwrap() == c, "the accepted matrix is stored");
        }
    }
}
