//! C18: F comparison of exit rates
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::hypothesis_test::F;

/// params: cardinality, largest count
fn rates(never_left: bool) {
        let (d, hi) = (param(0), param(1));
        let (u1, u2) = (2, 3);
        let (i, j) = (choose(2), 1);
        let mut m1 = Array3::from_elem((u1, d, d), 5);
        let mut m2 = Array3::from_elem((u2, d, d), 5);
        let mut c1 = Array3::from_elem((u1, d, d), 1.0);
        let mut c2 = Array3::from_elem((u2, d, d), 1.0);
        let mut want = true;
        let alpha = real_in(0.0, 1.0);
        let mut empty = false;
        for x in 0..d {
            let (mut r1, mut r2) = (0, 0);
            for y in 0..d {
                let (a, b) = if x == y { (0, 0) } else { (choose(hi + 1), choose(hi + 1)) };
                m1[[i, x, y]] = a;
                m2[[j, x, y]] = b;
                r1 += a;
                r2 += b;
            }
            let (q1, q2) = (positive(), positive());
            c1[[i, x, x]] = -q1;
            c2[[j, x, x]] = -q2;
            if r1 > 0 && r2 > 0 {
                let p = f_cdf(r1 as f64, r2 as f64, q2 / q1);
                want &= (p >= alpha / 2.0) & (p <= 1.0 - alpha / 2.0);
            } else {
                empty = true;
            }
        }
        assume(empty == never_left);
        let got = F::new(alpha).compare_matrices(i, &m1, &c1, j, &m2, &c2);
        check(got == want, "rates are declared different exactly when some ratio of exit rates falls in a tail of the F distribution");
        reach(["different", "same"][concretize(want as usize)]);
        obsu(got as usize);
}

entries! {
    fn c18_rates() {
        rates(false);
    }
    // some state never left under one of the configurations
    fn c18_never_left() {
        rates(true);
    }

    // params: states, pattern; many tables with large counts, rates of one state arbitrary
    fn c18_large() {
        let (d, pat) = (param(0), param(1));
        let (u1, u2) = (20, 30);
        let mut rnd = pseudo(pat as u32);
        let m1 = Array3::from_shape_fn((u1, d, d), |(_, x, y)| if x == y { 0 } else { 1 + rnd([5, 300, 70000][pat]) });
        let m2 = Array3::from_shape_fn((u2, d, d), |(_, x, y)| if x == y { 0 } else { 1 + rnd([5, 300, 70000][pat]) });
        let mut c1 = Array3::from_shape_fn((u1, d, d), |(_, _, _)| 1.0 + rnd(50) as f64);
        let mut c2 = Array3::from_shape_fn((u2, d, d), |(_, _, _)| 1.0 + rnd(50) as f64);
        let (i, j, r) = (pick(u1), pick(u2), pick(d));
        let alpha = real_in(0.0, 1.0);
        let mut want = true;
        for x in 0..d {
            let (mut r1, mut r2) = (0, 0);
            for y in 0..d {
                r1 += m1[[i, x, y]];
                r2 += m2[[j, x, y]];
            }
            let (q1, q2) = if x == r { (positive(), positive()) } else { (3.0, 3.0) };
            c1[[i, x, x]] = -q1;
            c2[[j, x, x]] = -q2;
            let p = f_cdf(r1 as f64, r2 as f64, q2 / q1);
            want &= (p >= alpha / 2.0) & (p <= 1.0 - alpha / 2.0);
        }
        let got = F::new(alpha).compare_matrices(i, &m1, &c1, j, &m2, &c2);
        check(got == want, "rates are declared different exactly when some ratio of exit rates falls in a tail of the F distribution");
    }
}
