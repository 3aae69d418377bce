//! C17: chi-squared comparison of transition tables
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::hypothesis_test::ChiSquare;

/// does row x speak against equality of the two tables?
pub fn row_rejects(m1: &Array3<usize>, i: usize, m2: &Array3<usize>, j: usize, x: usize, alpha: f64) -> bool {
    let d = m1.shape()[1];
    let (mut n1, mut n2) = (0.0, 0.0);
    for y in 0..d {
        if y != x {
            n1 += m1[[i, x, y]] as f64;
            n2 += m2[[j, x, y]] as f64;
        }
    }
    if n1 == 0.0 || n2 == 0.0 {
        return false;
    }
    let k = (n1 / n2).sqrt();
    let mut s = 0.0;
    for y in 0..d {
        if y != x {
            let (a, b) = (m1[[i, x, y]] as f64, m2[[j, x, y]] as f64);
            if a + b > 0.0 {
                let e = k * b - a / k;
                s += e * e / (a + b);
            }
        }
    }
    // exactly at the limit either answer is right
    let c = chi2_cdf(d as f64 - 1.0, s);
    assume(c != 1.0 - alpha);
    c > 1.0 - alpha
}

/// params: cardinality, row that varies, largest count, other rows
fn rows(unobserved: bool) {
    let (d, r, hi) = (param(0), param(1), param(2));
    let mut m1 = Array3::zeros((2, d, d));
    let mut m2 = Array3::zeros((3, d, d));
    for x in 0..d {
        for y in 0..d {
            if x != y {
                for u in 0..2 {
                    m1[[u, x, y]] = 2 + (x + 2 * y + u) % 3;
                }
                for u in 0..3 {
                    m2[[u, x, y]] = if u == 2 && param(3) < 9 { m1[[1, x, y]] * (1 + param(3)) } else { 7 + y };
                }
            }
        }
    }
    let (mut a, mut b, mut never) = (0, 0, false);
    for y in 0..d {
        if y != r {
            m1[[1, r, y]] = choose(hi + 1);
            m2[[2, r, y]] = choose(hi + 1);
            a += m1[[1, r, y]];
            b += m2[[2, r, y]];
            never |= m1[[1, r, y]] + m2[[2, r, y]] == 0;
        }
    }
    never |= a == 0 || b == 0;
    assume(never == unobserved);
    let alpha = real_in(0.0, 1.0);
    let got = ChiSquare::new(alpha).compare_matrices(1, &m1, 2, &m2);
    let mut want = true;
    for x in 0..d {
        want &= !row_rejects(&m1, 1, &m2, 2, x, alpha);
    }
    if unobserved {
        reach(["different, with transitions never observed", "same but for transitions never observed"][concretize(want as usize)]);
        check(want || !got, "tables with a state whose transitions differ significantly are declared different");
        check(got || !want, "transitions and states never observed do not count");
    } else {
        check(got == want, "tables are declared different exactly when some state's transitions differ significantly");
        reach(["different", "same"][concretize(want as usize)]);
        obsu(got as usize);
    }
}

entries! {
    fn c17_rows() {
        rows(false);
    }
    // some transition, or all out of a state, never observed
    fn c17_unobserved() {
        rows(true);
    }
    // proportional tables never differ
    fn c17_proportional() {
        let d = 2 + choose(2);
        let k = 1 + choose(3);
        let mut m1 = Array3::zeros((1, d, d));
        for x in 0..d {
            for y in 0..d {
                if x != y {
                    m1[[0, x, y]] = 1 + choose(2) * (x + y);
                }
            }
        }
        let m2 = m1.mapv(|v: usize| v * k);
        let alpha = real_in(0.0, 0.99);
        check(ChiSquare::new(alpha).compare_matrices(0, &m1, 0, &m2), "proportional tables are not declared different");
    }

    // params: states, pattern; many tables with large counts, any level
    fn c17_large() {
        let (d, pat) = (param(0), param(1));
        let (u1, u2) = (20, 30);
        let mut rnd = pseudo(pat as u32);
        let mut m1 = Array3::from_shape_fn((u1, d, d), |(_, x, y)| if x == y { 0 } else { 50 + rnd(30000) });
        let (i, j) = (pick(u1), pick(u2));
        let mut rnd = pseudo(pat as u32 + 1);
        let mut m2 = Array3::from_shape_fn((u2, d, d), |(_, x, y)| if x == y { 0 } else { 50 + rnd(30000) });
        // alike but for one row, which differs a little
        for x in 0..d {
            for y in 0..d {
                if x != y {
                    m2[[j, x, y]] = m1[[i, x, y]] * (1 + pat);
                }
            }
        }
        let r = pick(d);
        let y = (r + 1) % d;
        m2[[j, r, y]] += [0, 100, 1000, 70000, 10000000][choose(5)];
        if pat == 2 {
            // as many transitions as a u32 cannot hold
            for y in 0..d {
                m1[[i, r, y]] *= 100000;
            }
        }
        let alpha = real_in(0.0, 1.0);
        let got = ChiSquare::new(alpha).compare_matrices(i, &m1, j, &m2);
        let mut want = true;
        for x in 0..d {
            want &= !row_rejects(&m1, i, &m2, j, x, alpha);
        }
        check(got == want, "tables are declared different exactly when some state's transitions differ significantly");
    }
}
