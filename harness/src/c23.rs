//! C23: evaluating the state space evaluates every joint state
use crate::symx::*;
use crate::util::*;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{Reward, RewardEvaluation, RewardFunction};

/// reward rate that names the state
struct Name(Vec<usize>);
impl RewardFunction for Name {
    fn call(&self, s: &NetworkProcessState, _: Option<&NetworkProcessState>) -> Reward {
        let all: Vec<usize> = (0..self.0.len()).collect();
        let s: Vec<usize> = s.iter().map(sv).collect();
        Reward { transition_reward: 0.0, instantaneous_reward: 1.0 + radix(&self.0, &all, &s) as f64 }
    }
    fn initialize_from_network_process<T: NetworkProcess>(p: &T) -> Self {
        Name(p.get_node_indices().map(|i| p.get_node(i).get_reserved_space_as_parent()).collect())
    }
}
fn each_state(cards: &[usize], mut f: impl FnMut(Vec<usize>)) {
    let size: usize = cards.iter().product();
    for i in 0..size {
        let mut r = i;
        f(cards
            .iter()
            .map(|c| {
                let x = r % c;
                r /= c;
                x
            })
            .collect());
    }
}

entries! {
    // params: network, draws
    fn c23_same() {
        no_log_zero();
        max_draws(param(1) as u64);
        let (cards, e): (&[usize], usize) = [(&[2][..], 0), (&[2, 2], 1), (&[2, 3], 0)][param(0)];
        let mut n = graph_net(cards, e);
        set_tag_cims(&mut n);
        let mut f = FactoredRewardFunction::initialize_from_network_process(&n);
        for (i, c) in cards.iter().enumerate() {
            *f.get_instantaneous_reward_mut(i) = Array1::from_shape_fn(*c, |_| any_real());
            *f.get_transition_reward_mut(i) = Array2::from_shape_fn((*c, *c), |_| any_real());
        }
        let mc = MonteCarloReward::new(1, 0.1, 0.1, 0.001, RewardCriteria::FiniteHorizon, Some(9));
        let all = mc.evaluate_state_space(&n, &f);
        let mut count = 0;
        each_state(cards, |s| {
            count += 1;
            match all.get(&st(&s)) {
                None => check(false, "every joint state is evaluated"),
                Some(v) => {
                    check(feq(*v, mc.evaluate_state(&n, &f, &st(&s))), "the value of a state does not depend on the other states");
                    obs(*v);
                }
            }
        });
        check(all.len() == count, "nothing but joint states is evaluated");
    }
    // no trajectories: only the states that get a value matter
    fn c23_keys() {
        let cards: &[usize] = [&[2, 2][..], &[2, 3], &[3, 2, 2], &[2, 2, 3, 2], &[5], &[4, 3], &[1, 3], &[3, 1, 2], &[4, 2, 3, 2], &[2, 2, 2, 2, 2], &[2, 2, 2, 2, 2, 2, 2, 2, 2], &[300], &[17, 19], &[2; 12], &[3, 4, 5, 6]][param(0)];
        let n = graph_net(cards, 0);
        let f = Name::initialize_from_network_process(&n);
        let mc = MonteCarloReward::new(0, 0.1, 0.1, 1.0, RewardCriteria::FiniteHorizon, Some(9));
        let all = mc.evaluate_state_space(&n, &f);
        let mut count = 0;
        each_state(cards, |s| {
            count += 1;
            check(all.get(&st(&s)).is_some(), "every joint state is evaluated");
        });
        check(all.len() == count, "nothing but joint states is evaluated");
    }
    // trajectories without transitions: the value of a state is its own reward rate times the horizon
    fn c23_own_value() {
        no_log_zero();
        let cards: &[usize] = [&[2, 2][..], &[2, 3], &[3, 2, 2], &[2, 2, 3, 2], &[5], &[4, 3]][param(0)];
        let mut n = graph_net(cards, 0);
        set_tag_cims(&mut n);
        let f = Name::initialize_from_network_process(&n);
        let end = 1e-9;
        // only trajectories whose first transitions all come after the horizon
        for i in 0..cards.len() {
            let l = -unit_incl(draw(9, i as u64)).ln();
            // (that the first variable is the first to move saves telling the others apart)
            assume(if i == 0 { l > 0.0001 && l < 0.0002 } else { l > 10.0 && l < 30.0 });
        }
        assume(unit_incl(draw(9, cards.len() as u64)) < 1e-6);
        let mc = MonteCarloReward::new(1, 0.1, 0.1, end, RewardCriteria::FiniteHorizon, Some(9));
        let all = mc.evaluate_state_space(&n, &f);
        let ids: Vec<usize> = (0..cards.len()).collect();
        each_state(cards, |s| {
            match all.get(&st(&s)) {
                None => (),
                Some(v) => check(feq(*v, (1.0 + radix(cards, &ids, &s) as f64) * end), "every state gets its own value"),
            }
        });
    }

    // one evaluator asked about two rewards and two networks in turn
    fn c23_again() {
        no_log_zero();
        let end = 1e-9;
        for i in 0..2 {
            let l = -unit_incl(draw(9, i)).ln();
            assume(if i == 0 { l > 0.0001 && l < 0.0002 } else { l > 10.0 && l < 30.0 });
        }
        assume(unit_incl(draw(9, 2)) < 1e-6);
        let mc = MonteCarloReward::new(1, 0.1, 0.1, end, RewardCriteria::FiniteHorizon, Some(9));
        for (cards, scale) in [([2, 2], [2, 2]), ([2, 2], [5, 7]), ([2, 3], [2, 3]), ([3, 2], [2, 3])] {
            let mut n = graph_net(&cards, 0);
            set_tag_cims(&mut n);
            let f = Name(scale.to_vec());
            let all = mc.evaluate_state_space(&n, &f);
            check(all.len() == cards[0] * cards[1], "nothing but joint states is evaluated");
            each_state(&cards, |s| {
                match all.get(&st(&s)) {
                    None => check(false, "every joint state is evaluated"),
                    Some(v) => check(feq(*v, (1.0 + radix(&scale, &[0, 1], &s) as f64) * end), "every state gets its own value"),
                }
            });
        }
    }
}
