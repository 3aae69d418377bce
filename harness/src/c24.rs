//! C24: relative rewards compare a state with its neighbours
use crate::symx::*;
use crate::util::*;
use reCTBN::reward::reward_evaluation::NeighborhoodRelativeReward;
use reCTBN::reward::{Reward, RewardEvaluation, RewardFunction};
use std::collections::HashMap;

struct Given(Vec<(Vec<usize>, f64)>);
impl RewardEvaluation for Given {
    fn evaluate_state_space<N: NetworkProcess, R: RewardFunction>(&self, _: &N, _: &R) -> HashMap<NetworkProcessState, f64> {
        self.0.iter().map(|(s, v)| (st(s), *v)).collect()
    }
    fn evaluate_state<N: NetworkProcess, R: RewardFunction>(&self, _: &N, _: &R, s: &NetworkProcessState) -> f64 {
        self.0.iter().find(|(k, _)| same_state(s, k)).unwrap().1
    }
}
/// values for one variable of two or three states
struct BySize(Vec<Vec<f64>>);
impl RewardEvaluation for BySize {
    fn evaluate_state_space<N: NetworkProcess, R: RewardFunction>(&self, n: &N, _: &R) -> HashMap<NetworkProcessState, f64> {
        let d = n.get_node(0).get_reserved_space_as_parent();
        (0..d).map(|s| (st(&[s]), self.0[d - 2][s])).collect()
    }
    fn evaluate_state<N: NetworkProcess, R: RewardFunction>(&self, n: &N, _: &R, s: &NetworkProcessState) -> f64 {
        self.0[n.get_node(0).get_reserved_space_as_parent() - 2][sv(&s[0])]
    }
}
struct Zero;
impl RewardFunction for Zero {
    fn call(&self, _: &NetworkProcessState, _: Option<&NetworkProcessState>) -> Reward {
        Reward { transition_reward: 0.0, instantaneous_reward: 0.0 }
    }
    fn initialize_from_network_process<T: NetworkProcess>(_: &T) -> Self {
        Zero
    }
}

entries! {
    // params: cardinalities, joint states with arbitrary reward
    fn c24_relative() {
        let cards: &[usize] = [&[2, 2][..], &[2, 3], &[2, 2, 2], &[3], &[2], &[3, 3], &[2, 3, 2], &[2; 7], &[5, 6, 4], &[2, 2, 3, 2, 3], &[40]][param(0)];
        let n = net(cards);
        let size: usize = cards.iter().product();
        let mut v = vec![];
        for i in 0..size {
            let mut r = i;
            let s: Vec<usize> = cards
                .iter()
                .map(|c| {
                    let x = r % c;
                    r /= c;
                    x
                })
                .collect();
            let w = if i < 64 && param(1) >> i & 1 == 1 { positive() } else { (1 + i * 7 % 5) as f64 };
            v.push((s, w));
        }
        let g = Given(v.clone());
        let got = NeighborhoodRelativeReward::new(g).evaluate_state_space(&n, &Zero);
        check(got.len() == size, "every state has a relative reward");
        for (s, w) in &v {
            let mut want = 1.0;
            for (s2, w2) in &v {
                let mut diff = 0;
                for k in 0..s.len() {
                    if s[k] != s2[k] {
                        diff += 1;
                    }
                }
                if diff == 1 {
                    want = f64::max(want, w / w2);
                }
            }
            match got.get(&st(s)) {
                None => check(false, "every state has a relative reward"),
                Some(x) => {
                    check(feq(*x, want), "the relative reward is the largest ratio to a state that differs in one variable, at least one");
                    obs(*x);
                }
            }
        }
    }

    // two networks in turn
    fn c24_again() {
        let v = vec![vec![positive(), positive()], vec![positive(), positive(), positive()]];
        let r = NeighborhoodRelativeReward::new(BySize(v.clone()));
        for d in [2, 3, 2] {
            let v = &v[d - 2];
            let got = r.evaluate_state_space(&net(&[d]), &Zero);
            check(got.len() == d, "every state has a relative reward");
            for s in 0..d {
                let mut want = 1.0;
                for o in 0..d {
                    want = f64::max(want, v[s] / v[o]);
                }
                check(got.get(&st(&[s])).map_or(false, |x| feq(*x, want)), "the relative reward is the largest ratio to a state that differs in one variable, at least one");
            }
        }
    }
}
