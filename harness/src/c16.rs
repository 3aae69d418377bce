//! C16: the parameter cache is transparent
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::constraint_based_algorithm::Cache;

use reCTBN::parameter_learning::ParameterLearning;
use reCTBN::params::Params;
use reCTBN::process::NetworkProcess;
use reCTBN::tools::Dataset;

/// parameters that tell which request they answer
struct Tagged;
fn tag(v: usize, s: &BTreeSet<usize>) -> Params {
    let mut k = 1.0;
    for p in s {
        k = k * 512.0 + *p as f64 + 1.0;
    }
    learned(v, Array3::zeros((1, 2, 2)), array![[k, v as f64 + 1.0]])
}
impl ParameterLearning for Tagged {
    fn fit<T: NetworkProcess>(&self, _: &T, _: &Dataset, node: usize, set: Option<BTreeSet<usize>>) -> Params {
        tag(node, &set.unwrap())
    }
}
fn ask(c: &mut Cache<Tagged>, g: &CtbnNetwork, data: &Dataset, v: usize, s: BTreeSet<usize>) {
    let got = c.fit(g, data, v, Some(s.clone()));
    let want = tag(v, &s);
    check(dp(&got).get_cim() == dp(&want).get_cim() && dp(&got).get_label() == dp(&want).get_label(), "a cached answer is the answer for that node and parent set");
}

entries! {
    // all requests in the order in which a learning algorithm makes them, then any others
    // params: nodes, largest parent set, requests after that
    fn c16_levels() {
        let n = param(0);
        let g = net(&vec![2; n]);
        let data = blank_data(&vec![2; n]);
        let mut c = Cache::new(&Tagged);
        for size in 0..param(1) + 1 {
            for v in 0..n {
                for m in 0..1usize << n {
                    if m >> v & 1 == 0 && m.count_ones() as usize == size {
                        ask(&mut c, &g, &data, v, set_of(m));
                    }
                }
            }
        }
        for _ in 0..param(2) {
            let v = choose(n);
            let x = choose(1 << (n - 1));
            ask(&mut c, &g, &data, v, set_of((x & ((1 << v) - 1)) | (x >> v << (v + 1))));
        }
    }
    // nodes far apart; params: requests
    fn c16_far() {
        const FAR: [usize; 5] = [0, 1, 33, 65, 257];
        let g = net(&vec![2; 258]);
        let data = blank_data(&[2]);
        let mut c = Cache::new(&Tagged);
        for _ in 0..param(0) {
            let v = FAR[choose(5)];
            let (a, b) = (FAR[choose(5)], FAR[choose(5)]);
            assume(a <= b && v != a && v != b);
            ask(&mut c, &g, &data, v, [a, b].into_iter().collect());
        }
    }
    // params: nodes, requests
    fn c16_transparent() {
        let n = param(0);
        let g = net(&vec![2; n]);
        let mut t = vec![];
        let mut k = 1;
        for v in 0..n {
            for m in 0..1 << n {
                if m >> v & 1 == 0 {
                    let q = array![[k as f64, 1.0]];
                    t.push((v, set_of(m), learned(v, Array3::zeros((1, 2, 2)), q)));
                    k += 1;
                }
            }
        }
        let t = Table(t);
        let data = blank_data(&vec![2; n]);
        let mut c = Cache::new(&t);
        let mut seen = vec![];
        for _ in 0..param(1) {
            let v = choose(n);
            let m = {
                // skip the bit of the node itself
                let x = choose(1 << (n - 1));
                (x & ((1 << v) - 1)) | (x >> v << (v + 1))
            };
            let s = set_of(m);
            let got = c.fit(&g, &data, v, Some(s.clone()));
            let want = dp(t.get(v, &s));
            check(dp(&got).get_cim() == want.get_cim() && dp(&got).get_label() == want.get_label() && dp(&got).get_transitions() == want.get_transitions(),
                "a cached answer is the answer for that node and parent set");
            if seen.contains(&(v, m)) {
                reach("repeated request");
            }
            seen.push((v, m));
        }
    }
}
