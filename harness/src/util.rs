#![allow(dead_code)]
use crate::symx::*;
pub use ndarray::prelude::*;
pub use reCTBN::params::{self, DiscreteStatesContinousTimeParams, Params, ParamsTrait, StateType};
pub use reCTBN::process::{self, ctbn::CtbnNetwork, ctmp::CtmpProcess, NetworkProcess, NetworkProcessState};
pub use std::collections::BTreeSet;

/// `entries! { fn name() { .. } .. }`: symbolic entry points and their native table
#[macro_export]
macro_rules! entries {
    ($(fn $n:ident() $b:block)*) => {
        mod run { use super::*; $(#[inline(always)] pub fn $n() $b)* }
        $(#[no_mangle] pub extern "C" fn $n() { run::$n() })*
        pub const TABLE: &[(&'static str, fn())] = &[$((stringify!($n), run::$n)),*];
    };
}

const NAMES: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];

fn name(i: usize) -> String {
    let mut s = String::from(NAMES[i % 12]);
    let mut k = i / 12;
    while k > 0 {
        s.push_str(NAMES[k % 12]);
        k /= 12;
    }
    s
}
pub fn node(label: usize, card: usize) -> Params {
    let mut dom = BTreeSet::new();
    for i in 0..card {
        dom.insert(name(i));
    }
    Params::DiscreteStatesContinousTime(DiscreteStatesContinousTimeParams::new(name(label), dom))
}
pub fn dp(p: &Params) -> &DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
pub fn dpm(p: &mut Params) -> &mut DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
/// network without edges over the given cardinalities
pub fn net(cards: &[usize]) -> CtbnNetwork {
    let mut n = CtbnNetwork::new();
    for (i, c) in cards.iter().enumerate() {
        n.add_node(node(i, *c)).unwrap();
    }
    n
}
pub fn st(x: &[usize]) -> NetworkProcessState {
    x.iter().map(|v| StateType::Discrete(*v)).collect()
}
pub fn sv(s: &StateType) -> usize {
    match s {
        StateType::Discrete(v) => *v,
    }
}
/// position of the parents' states in mixed radix, lowest-numbered parent least significant
pub fn radix(cards: &[usize], parents: &[usize], state: &[usize]) -> usize {
    let mut acc = 0;
    let mut w = 1;
    for p in parents {
        acc += state[*p] * w;
        w *= cards[*p];
    }
    acc
}
/// an arbitrary row-major valid intensity matrix row set: u tables, all off-diagonal rates > 0,
/// diagonal = minus the row sum
pub fn any_cim(u: usize, d: usize) -> Array3<f64> {
    let mut c = Array3::zeros((u, d, d));
    for i in 0..u {
        for x in 0..d {
            let mut sum = 0.0;
            for y in 0..d {
                if x != y {
                    let r = positive();
                    c[[i, x, y]] = r;
                    sum += r;
                }
            }
            c[[i, x, x]] = -sum;
        }
    }
    c
}
/// concrete valid matrices, every entry different (also between nodes)
pub fn tag_cim(node: usize, u: usize, d: usize) -> Array3<f64> {
    let mut c = Array3::zeros((u, d, d));
    let mut k = 1 + node * 64;
    for i in 0..u {
        for x in 0..d {
            let mut sum = 0.0;
            for y in 0..d {
                if x != y {
                    let r = k as f64;
                    k += 1;
                    c[[i, x, y]] = r;
                    sum += r;
                }
            }
            c[[i, x, x]] = -sum;
        }
    }
    c
}
pub fn n_configs(n: &CtbnNetwork, node: usize) -> usize {
    n.get_parent_set(node).iter().map(|p| n.get_node(*p).get_reserved_space_as_parent()).product()
}
pub fn set_tag_cims(n: &mut CtbnNetwork) {
    for i in 0..n.get_number_of_nodes() {
        let u = n_configs(n, i);
        let d = n.get_node(i).get_reserved_space_as_parent();
        let c = tag_cim(i, u, d);
        dpm(n.get_node_mut(i)).set_cim(c).unwrap();
    }
}
pub fn set_any_cims(n: &mut CtbnNetwork) {
    for i in 0..n.get_number_of_nodes() {
        let u = n_configs(n, i);
        let d = n.get_node(i).get_reserved_space_as_parent();
        let c = any_cim(u, d);
        dpm(n.get_node_mut(i)).set_cim(c).unwrap();
    }
}
/// edges named by the bits of `mask`: ordered pairs (p, c), p != c, row-major
pub fn edges(n: usize, mask: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut k = 0;
    for p in 0..n {
        for c in 0..n {
            if p != c {
                if k < 64 && mask >> k & 1 == 1 {
                    v.push((p, c));
                }
                k += 1;
            }
        }
    }
    v
}
pub fn graph_net(cards: &[usize], mask: usize) -> CtbnNetwork {
    let mut n = net(cards);
    n.initialize_adj_matrix();
    if mask > 0 {
        for (p, c) in edges(cards.len(), mask) {
            n.add_edge(p, c);
        }
    }
    n
}
pub fn set_of(mask: usize) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    for i in 0..48 {
        if mask >> i & 1 == 1 {
            s.insert(i);
        }
    }
    s
}
pub use rand::SeedableRng;
pub use rand_chacha::ChaCha8Rng;
pub use reCTBN::sampling::{ForwardSampler, Sample, Sampler};
pub use reCTBN::tools::{Dataset, Trajectory};

/// the race of exponential clocks a CTBN is defined by, driven by the nodes' own samplers
pub struct Race {
    pub cards: Vec<usize>,
    pub parents: Vec<Vec<usize>>,
    pub t: f64,
    pub cur: Vec<usize>,
    pub clock: Vec<Option<f64>>,
}
impl Race {
    pub fn new(n: &CtbnNetwork, edges: &[(usize, usize)], init: Vec<usize>) -> Race {
        let k = n.get_number_of_nodes();
        let cards = (0..k).map(|i| n.get_node(i).get_reserved_space_as_parent()).collect();
        let mut parents = vec![vec![]; k];
        for p in 0..k {
            for c in 0..k {
                if edges.contains(&(p, c)) {
                    parents[c].push(p);
                }
            }
        }
        Race { cards, parents, t: 0.0, cur: init, clock: vec![None; k] }
    }
    pub fn config(&self, i: usize) -> usize {
        radix(&self.cards, &self.parents[i], &self.cur)
    }
    /// one transition; returns the node that moved
    pub fn step(&mut self, n: &CtbnNetwork, rng: &mut ChaCha8Rng) -> usize {
        let k = self.cards.len();
        for i in 0..k {
            if self.clock[i].is_none() {
                let r = n.get_node(i).get_random_residence_time(self.cur[i], self.config(i), rng).unwrap();
                self.clock[i] = Some(r + self.t);
            }
        }
        let mut m = 0;
        for i in 1..k {
            if self.clock[i].unwrap() < self.clock[m].unwrap() {
                m = i;
            }
        }
        self.t = self.clock[m].unwrap();
        self.cur[m] = sv(&n.get_node(m).get_random_state(self.cur[m], self.config(m), rng).unwrap());
        self.clock[m] = None;
        for c in 0..k {
            if self.parents[c].contains(&m) {
                self.clock[c] = None;
            }
        }
        m
    }
}
pub fn same_state(a: &NetworkProcessState, b: &[usize]) -> bool {
    let mut s = a.len() == b.len();
    if s {
        for i in 0..b.len() {
            s &= sv(&a[i]) == b[i];
        }
    }
    s
}

pub use reCTBN::parameter_learning::{sufficient_statistics, BayesianApproach, ParameterLearning, MLE};

/// a dataset and the plain values it was made of
pub struct Data {
    pub cards: Vec<usize>,
    pub time: Vec<Vec<f64>>,
    pub ev: Vec<Vec<Vec<usize>>>,
    pub set: Dataset,
}
/// trajectories of the given lengths: arbitrary start, arbitrary positive steps, arbitrary states
/// (`symbolic`: states stay symbolic; otherwise one path per history)
pub fn any_data(cards: &[usize], lens: &[usize], symbolic: bool) -> Data {
    let ev = lens
        .iter()
        .map(|l| (0..*l).map(|_| cards.iter().map(|c| if symbolic { below(*c) } else { choose(*c) }).collect()).collect())
        .collect();
    data_of(cards, times(lens, nonneg), ev)
}
/// (no two samples of a trajectory have the same time)
pub fn any_data_apart(cards: &[usize], lens: &[usize]) -> Data {
    let ev = lens.iter().map(|l| (0..*l).map(|_| cards.iter().map(|c| choose(*c)).collect()).collect()).collect();
    data_of(cards, any_times(lens), ev)
}
pub fn any_times(lens: &[usize]) -> Vec<Vec<f64>> {
    times(lens, positive)
}
/// (samples may have equal times)
pub fn times(lens: &[usize], step: fn() -> f64) -> Vec<Vec<f64>> {
    lens.iter()
        .map(|l| {
            let mut t = nonneg();
            (0..*l)
                .map(|i| {
                    if i > 0 {
                        t += step();
                    }
                    t
                })
                .collect()
        })
        .collect()
}
pub fn data_of(cards: &[usize], time: Vec<Vec<f64>>, ev: Vec<Vec<Vec<usize>>>) -> Data {
    let mut trj = vec![];
    for (t, e) in time.iter().zip(ev.iter()) {
        let mut a = Array2::zeros((t.len(), cards.len()));
        for i in 0..t.len() {
            for v in 0..cards.len() {
                a[[i, v]] = e[i][v];
            }
        }
        trj.push(Trajectory::new(Array1::from_vec(t.clone()), a));
    }
    Data { cards: cards.to_vec(), time, ev, set: Dataset::new(trj) }
}
/// transitions and residence times of `node` per configuration of `parents` (ascending order), by definition
pub struct Stats {
    pub u: usize,
    pub d: usize,
    pub m: Vec<usize>,
    pub t: Vec<f64>,
}
impl Stats {
    pub fn of(data: &Data, node: usize, parents: &[usize]) -> Stats {
        let d = data.cards[node];
        let u = parents.iter().map(|p| data.cards[*p]).product();
        let mut m = vec![0; u * d * d];
        let mut t = vec![0.0; u * d];
        for c in 0..u {
            for (time, ev) in data.time.iter().zip(data.ev.iter()) {
                for i in 1..time.len() {
                    let here = radix(&data.cards, parents, &ev[i - 1]) == c;
                    for x in 0..d {
                        let at = here & (ev[i - 1][node] == x);
                        t[c * d + x] += if at { time[i] - time[i - 1] } else { 0.0 };
                        for y in 0..d {
                            if y != x {
                                m[(c * d + x) * d + y] += (at & (ev[i][node] == y)) as usize;
                            }
                        }
                    }
                }
            }
        }
        Stats { u, d, m, t }
    }
    /// the same for histories of known states
    pub fn of_known(data: &Data, node: usize, parents: &[usize]) -> Stats {
        let d = data.cards[node];
        let u = parents.iter().map(|p| data.cards[*p]).product();
        let mut m = vec![0; u * d * d];
        let mut t = vec![0.0; u * d];
        for (time, ev) in data.time.iter().zip(data.ev.iter()) {
            for i in 1..time.len() {
                let at = radix(&data.cards, parents, &ev[i - 1]) * d + ev[i - 1][node];
                t[at] += time[i] - time[i - 1];
                if ev[i][node] != ev[i - 1][node] {
                    m[at * d + ev[i][node]] += 1;
                }
            }
        }
        Stats { u, d, m, t }
    }
    pub fn m(&self, u: usize, x: usize, y: usize) -> usize {
        self.m[(u * self.d + x) * self.d + y]
    }
    pub fn t(&self, u: usize, x: usize) -> f64 {
        self.t[u * self.d + x]
    }
}
pub fn list_of(mask: usize) -> Vec<usize> {
    set_of(mask).into_iter().collect()
}
/// small cases for learning: cardinalities, node, parent mask, trajectory lengths
pub fn learn_case(i: usize) -> (&'static [usize], usize, usize, &'static [usize]) {
    const C: [(&[usize], usize, usize, &[usize]); 14] = [
        (&[2], 0, 0, &[3]),
        (&[2, 2], 0, 0b10, &[3]),
        (&[2, 3], 1, 0b01, &[3]),
        (&[3, 2], 1, 0b01, &[3]),
        (&[2, 2], 1, 0b01, &[2, 2]),
        (&[3, 2, 2], 1, 0b101, &[2]),
        (&[2, 3, 2], 0, 0b110, &[2]),
        (&[2, 3, 2], 2, 0b011, &[2]),
        (&[3], 0, 0, &[4]),
        (&[2, 2, 2], 0, 0b110, &[3]),
        (&[3, 2], 0, 0b00, &[2, 2]),
        (&[2, 2, 3, 2], 2, 0b1011, &[2]),
        (&[2, 2], 0, 0b10, &[4]),
        (&[3, 2], 0, 0b10, &[2, 2]),
    ];
    C[i]
}

/// larger cases: one pseudo-random history each, every step one of three arbitrary lengths
pub fn large_case(i: usize) -> (Data, usize, usize) {
    const C: [(&[usize], usize, usize, usize, usize); 8] = [
        (&[2], 0, 0, 1, 700),
        (&[2, 3], 0, 0b10, 40, 3),
        (&[2; 10], 9, 0b111111111, 2, 300),
        (&[12, 5], 0, 0b10, 1, 300),
        (&[2, 7, 5, 3], 0, 0b1110, 3, 200),
        (&[2, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3], 3, 0b10000000000010000010, 2, 60),
        (&[3, 2], 0, 0b10, 300, 2),
        (&[2], 0, 0, 1, 66000),
    ];
    let (cards, node, mask, k, len) = C[i];
    let step = [positive(), positive(), positive()];
    let start = nonneg();
    let mut rnd = pseudo(12345);
    let mut time = vec![];
    let mut ev = vec![];
    for _ in 0..k {
        let mut cur: Vec<usize> = cards.iter().map(|c| rnd(*c)).collect();
        let mut n = [0usize; 3];
        let (mut tt, mut ee) = (vec![start], vec![cur.clone()]);
        for _ in 1..len {
            n[rnd(3)] += 1;
            tt.push(start + step[0] * n[0] as f64 + step[1] * n[1] as f64 + step[2] * n[2] as f64);
            let v = rnd(cards.len());
            cur[v] = (cur[v] + 1 + rnd(cards[v] - 1)) % cards[v];
            ee.push(cur.clone());
        }
        time.push(tt);
        ev.push(ee);
    }
    (data_of(cards, time, ev), node, mask)
}

/// a parameter learning method that answers from a table
pub struct Table(pub Vec<(usize, BTreeSet<usize>, Params)>);
impl Table {
    pub fn get(&self, node: usize, set: &BTreeSet<usize>) -> &Params {
        for (n, s, p) in &self.0 {
            if *n == node && s == set {
                return p;
            }
        }
        panic!("request for parameters that make no sense here")
    }
}
impl ParameterLearning for Table {
    fn fit<T: NetworkProcess>(&self, _: &T, _: &Dataset, node: usize, set: Option<BTreeSet<usize>>) -> Params {
        self.get(node, &set.unwrap()).clone()
    }
}
/// learned parameters with given counts and rates (diagonals are filled in)
pub fn learned(label: usize, m: Array3<usize>, q: Array2<f64>) -> Params {
    let d = m.shape()[1];
    let mut p = node(label, d);
    let mut c = Array3::zeros((m.shape()[0], d, d));
    for u in 0..m.shape()[0] {
        for x in 0..d {
            for y in 0..d {
                c[[u, x, y]] = if x == y { -q[[u, x]] } else { q[[u, x]] / (d as f64 - 1.0) };
            }
        }
    }
    dpm(&mut p).set_cim_unchecked(c);
    dpm(&mut p).set_transitions(m);
    p
}
/// a dataset with nothing in it but the right number of variables
pub fn blank_data(cards: &[usize]) -> Dataset {
    data_of(cards, vec![vec![0.0, 1.0]], vec![vec![vec![0; cards.len()]; 2]]).set
}

/// fixed pseudo-random numbers below `n`
pub fn pseudo(mut seed: u32) -> impl FnMut(usize) -> usize {
    move |n: usize| {
        seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
        (seed >> 16) as usize % n
    }
}
/// first, middle or last index; one path each
pub fn pick(n: usize) -> usize {
    [0, n / 2, n - 1][choose(if n > 2 { 3 } else { n })]
}

/// two histories of the same variables (node, parent mask), one longer than the other
pub fn two_datasets() -> (Data, Data, usize, usize) {
    let cards = [2, 3, 2];
    let e = |r: &[[usize; 3]]| vec![r.iter().map(|x| x.to_vec()).collect::<Vec<_>>()];
    let a = data_of(&cards, any_times(&[5]), e(&[[0, 0, 0], [1, 0, 0], [1, 2, 0], [0, 2, 0], [0, 2, 1]]));
    let b = data_of(&cards, any_times(&[4]), e(&[[1, 1, 1], [1, 0, 1], [0, 0, 1], [0, 1, 1]]));
    (a, b, choose(3), choose(8))
}
