//! C06: residence times are exponential with the rate on the diagonal
use crate::symx::*;
use crate::util::*;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;

entries! {
    // rounded arithmetic: within 2^-50 of the exact value
    fn c06_floats() {
        let d = param(0);
        let mut c = tag_cim(0, 1, d);
        let q = real(1e-6, 1e6);
        let x = choose(d);
        c[[0, x, x]] = -q;
        let mut p = dp(&node(0, d)).clone();
        p.set_cim_unchecked(c);
        let mut rng = ChaCha8Rng::seed_from_u64(9);
        rounding(true);
        let un = unit_incl(draw(9, 0));
        rounding(false);
        assume(un > 0.0);
        let exact = -un.ln();
        rounding(true);
        let t = p.get_random_residence_time(x, 0, &mut rng).unwrap();
        rounding(false);
        let e = exact * 2f64.powi(-50) + 1e-40;
        check(t >= 0.0, "a residence time is not negative");
        check(t * q <= exact + e && t * q >= exact - e, "residence times are exact up to rounding");
    }
    fn c06_residence() {
        let d = param(0);
        let u = 3;
        let c = any_cim(u, d);
        let (cfg, x) = (choose(u), choose(d));
        let q = -c[[cfg, x, x]];
        let mut p = dp(&node(0, d)).clone();
        p.set_cim(c).unwrap();
        let mut rng = ChaCha8Rng::seed_from_u64(9);
        let un = unit_incl(draw(9, 0));
        assume(un > 0.0);
        let t = p.get_random_residence_time(x, cfg, &mut rng).unwrap();
        obs(t);
        check(t >= 0.0, "a residence time is not negative");
        check(feq(t * q, -un.ln()), "residence time times rate is -ln of a uniform draw");
        // the second call uses a draw of its own
        let un2 = unit_incl(draw(9, 1));
        assume(un2 > 0.0);
        let t2 = p.get_random_residence_time(x, cfg, &mut rng).unwrap();
        check(feq(t2 * q, -un2.ln()), "every call uses a new draw");
    }

    // params: states, configurations
    fn c06_wide() {
        let (d, u) = (param(0), param(1));
        let mut c = tag_cim(0, u, d);
        let (x, cfg) = (pick(d), pick(u));
        let q = positive();
        c[[cfg, x, x]] = -q;
        let mut p = dp(&node(0, d)).clone();
        p.set_cim_unchecked(c);
        let mut rng = ChaCha8Rng::seed_from_u64(9);
        for i in 0..5 {
            let un = unit_incl(draw(9, i));
            assume(un > 0.0);
            let t = p.get_random_residence_time(x, cfg, &mut rng).unwrap();
            check(feq(t * q, -un.ln()), "residence time times rate is -ln of a uniform draw");
        }
    }
}
