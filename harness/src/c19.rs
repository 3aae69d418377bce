//! C19: conditional tests compare each configuration with the one it extends
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::constraint_based_algorithm::Cache;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, HypothesisTest, F};

/// cardinalities, child, parent, separating set
fn case(i: usize) -> (&'static [usize], usize, usize, usize) {
    const C: [(&[usize], usize, usize, usize); 14] = [
        (&[3, 2], 0, 1, 0),
        (&[3, 3, 2], 0, 1, 0b100),
        (&[3, 2, 3], 0, 2, 0b010),
        (&[2, 3, 3], 1, 0, 0b100),
        (&[2, 3, 2], 2, 0, 0b010),
        (&[2, 3, 3, 2], 2, 1, 0b1001),
        (&[3, 2, 2, 3], 3, 0, 0b0110),
        (&[2, 2, 3, 3], 3, 2, 0b0011),
        (&[2, 3, 2, 2], 1, 3, 0b0101),
        (&[3, 3], 1, 0, 0),
        (&[2, 3, 2, 2, 3, 2], 4, 2, 0b101011),
        (&[2, 2, 2, 2, 2, 3, 2, 2], 5, 7, 0b1011111),
        (&[3, 2, 5, 2, 4], 0, 2, 0b11010),
        (&[3, 20, 2], 0, 1, 0b100),
    ];
    C[i]
}
/// for every joint configuration of the larger set, the index of its projection on the smaller one
fn pairs(cards: &[usize], p: usize, s: usize) -> Vec<(usize, usize)> {
    let small = list_of(s);
    let big = list_of(s | 1 << p);
    let n: usize = big.iter().map(|x| cards[*x]).product();
    (0..n)
        .map(|j| {
            let mut st = vec![0; cards.len()];
            let mut r = j;
            for v in &big {
                st[*v] = r % cards[*v];
                r /= cards[*v];
            }
            (radix(cards, &small, &st), j)
        })
        .collect()
}
/// an arbitrary number below n; one path each
fn any_of(n: usize) -> usize {
    let r = choose((n + 63) / 64) * 64 + choose(64);
    assume(r < n);
    r
}
fn setup(i: usize, q: bool, m: bool) -> (CtbnNetwork, usize, usize, usize, Table, Dataset, Vec<(usize, usize)>) {
    let (cards, c, p, s) = case(i);
    let pr = pairs(cards, p, s);
    let (ns, nb) = (1 + pr.iter().map(|x| x.0).max().unwrap(), pr.len());
    let d = cards[c];
    let mut odd = [usize::MAX; 2];
    if m {
        for o in &mut odd {
            *o = if i < 10 { choose(ns + nb) } else { usize::MAX };
        }
        if i >= 10 {
            odd[0] = any_of(ns + nb);
        }
    }
    // (of the larger cases one configuration only)
    let one = if q && i >= 10 { any_of(ns + nb) } else { usize::MAX };
    let mut make = |u: usize, first: usize| {
        let mut cnt = Array3::from_elem((u, d, d), 30);
        let mut rate = Array2::from_elem((u, d), 1.0);
        for k in 0..u {
            for x in 0..d {
                cnt[[k, x, x]] = 0;
            }
            if odd.contains(&(first + k)) {
                cnt[[k, 0, 1]] = 300;
            }
            if q && (i < 10 || first + k == one) {
                rate[[k, 0]] = positive();
            }
        }
        learned(c, cnt, rate)
    };
    let t = Table(vec![(c, set_of(s), make(ns, 0)), (c, set_of(s | 1 << p), make(nb, ns))]);
    (net(cards), c, p, s, t, blank_data(cards), pr)
}

entries! {
    fn c19_f() {
        let (g, c, p, s, t, data, pr) = setup(param(0), true, false);
        let f = F::new(0.1);
        let mut cache = Cache::new(&t);
        let got = f.call(&g, c, p, &set_of(s), &data, &mut cache);
        let a = dp(t.get(c, &set_of(s)));
        let b = dp(t.get(c, &set_of(s | 1 << p)));
        let mut want = true;
        for (i, j) in pr {
            if want {
                want = f.compare_matrices(i, a.get_transitions().as_ref().unwrap(), a.get_cim().as_ref().unwrap(), j, b.get_transitions().as_ref().unwrap(), b.get_cim().as_ref().unwrap());
            }
        }
        check(got == want, "rates are compared with those of the configuration they extend");
        reach(["dependent", "independent"][concretize(want as usize)]);
    }
    fn c19_chi2() {
        let (g, c, p, s, t, data, pr) = setup(param(0), false, true);
        let f = ChiSquare::new(0.01);
        let mut cache = Cache::new(&t);
        let got = f.call(&g, c, p, &set_of(s), &data, &mut cache);
        let a = dp(t.get(c, &set_of(s)));
        let b = dp(t.get(c, &set_of(s | 1 << p)));
        let mut want = true;
        for (i, j) in pr {
            want &= f.compare_matrices(i, a.get_transitions().as_ref().unwrap(), j, b.get_transitions().as_ref().unwrap());
        }
        check(got == want, "counts are compared with those of the configuration they extend");
        reach(["dependent", "independent"][concretize(want as usize)]);
    }
}
