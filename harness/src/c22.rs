//! C22: the Monte-Carlo estimate is the mean return of the sampled trajectories
use crate::symx::*;
use crate::util::*;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{Reward, RewardEvaluation, RewardFunction};

pub fn setup(i: usize) -> CtbnNetwork {
    let (cards, e): (&[usize], usize) = [(&[2][..], 0), (&[2, 2], 1), (&[3], 0), (&[2, 2], 3)][i];
    let mut n = graph_net(cards, e);
    set_tag_cims(&mut n);
    n
}
/// return of one trajectory of the sampler up to `end`, by definition
fn one_return<R: RewardFunction>(s: &mut ForwardSampler<CtbnNetwork>, f: &R, end: f64, discount: Option<f64>) -> (f64, usize) {
    s.reset();
    let mut ret = 0.0;
    let mut last = s.next().unwrap();
    let mut moved = 0;
    while last.t < end {
        let x = s.next().unwrap();
        assume(x.t != end);
        let stop = if x.t < end { x.t } else { end };
        let stay = f.call(&last.state, None).instantaneous_reward;
        ret += stay
            * match discount {
                None => stop - last.t,
                Some(d) => ((-d * last.t).exp() - (-d * stop).exp()) / d,
            };
        if x.t < end {
            let jump = f.call(&x.state, Some(&last.state)).transition_reward;
            ret += jump * discount.map_or(1.0, |d| (-d * x.t).exp());
            moved += 1;
        }
        last = x;
    }
    reach(["no transition", "one transition", "two transitions", "more transitions"][if moved > 3 { 3 } else { moved }]);
    (ret, moved)
}
/// one unit of reward per transition and nothing else
struct PerMove;
impl RewardFunction for PerMove {
    fn call(&self, _: &NetworkProcessState, p: Option<&NetworkProcessState>) -> Reward {
        Reward { transition_reward: if p.is_some() { 1.0 } else { 0.0 }, instantaneous_reward: 0.0 }
    }
    fn initialize_from_network_process<T: NetworkProcess>(_: &T) -> Self {
        PerMove
    }
}

/// the time spent in the first state
struct InFirst;
impl RewardFunction for InFirst {
    fn call(&self, s: &NetworkProcessState, _: Option<&NetworkProcessState>) -> Reward {
        Reward { transition_reward: 0.0, instantaneous_reward: if sv(&s[0]) == 0 { 1.0 } else { 0.0 } }
    }
    fn initialize_from_network_process<T: NetworkProcess>(_: &T) -> Self {
        InFirst
    }
}

/// how likely it is that the mean of these is off by more than `err`
fn two_sided(r: &[f64], err: f64) -> f64 {
    let (mut sum, mut sq) = (0.0, 0.0);
    for x in r {
        sum += x;
        sq += x * x;
    }
    let k = r.len() as f64;
    let var = (sq - sum * sum / k) / (k - 1.0);
    if var <= 1e-12 { 0.0 } else { 2.0 * normal_cdf(-err * (k / var).sqrt()) }
}
/// the mean when sampling stops; none where that is decided within rounding
fn stopped(r: &[f64], err: f64, alpha: f64) -> Option<f64> {
    for k in 4..r.len() {
        let p = two_sided(&r[..k], err);
        if p - alpha < 1e-6 && p - alpha > -1e-6 {
            return None;
        }
        if p < alpha {
            reach("stopped early");
            return Some(r[..k].iter().sum::<f64>() / k as f64);
        }
    }
    reach("not converged");
    Some(r.iter().sum::<f64>() / r.len() as f64)
}

entries! {
    // params: network, trajectories, draws, 1: discounted
    fn c22_return() {
        no_log_zero();
        max_draws(param(2) as u64);
        let n = setup(param(0));
        let k = n.get_number_of_nodes();
        let mut f = FactoredRewardFunction::initialize_from_network_process(&n);
        for i in 0..k {
            let c = n.get_node(i).get_reserved_space_as_parent();
            *f.get_instantaneous_reward_mut(i) = Array1::from_shape_fn(c, |_| any_real());
            *f.get_transition_reward_mut(i) = Array2::from_shape_fn((c, c), |_| any_real());
        }
        let init: Vec<usize> = (0..k).map(|i| choose(n.get_node(i).get_reserved_space_as_parent())).collect();
        let end = positive();
        let d = if param(3) == 1 { Some(positive()) } else { None };
        let mc = MonteCarloReward::new(param(1), 0.1, 0.1, end, match d {
            None => RewardCriteria::FiniteHorizon,
            Some(discount_factor) => RewardCriteria::InfiniteHorizon { discount_factor },
        }, Some(9));
        let got = mc.evaluate_state(&n, &f, &st(&init));
        let mut s = ForwardSampler::new(&n, Some(9), Some(st(&init)));
        let mut sum = 0.0;
        for _ in 0..param(1) {
            sum += one_return(&mut s, &f, end, d).0;
        }
        check(feq(got, sum / param(1) as f64), "the estimate is the mean over the trajectories of what they earn");
        obs(got);
    }
    // params: largest number of trajectories, draws; stops as soon as the normal interval is narrow enough
    fn c22_stop() {
        no_log_zero();
        max_draws(param(1) as u64);
        let n = setup(0);
        let end = 0.01;
        let mut s = ForwardSampler::new(&n, Some(9), Some(st(&[0])));
        let r: Vec<f64> = (0..param(0)).map(|_| one_return(&mut s, &PerMove, end, None).0).collect();
        for alpha in [0.05, 0.4] {
            for k in 4..r.len() {
                // the error at which the first k trajectories are just enough
                let (mut lo, mut hi) = (0.0, 50.0);
                for _ in 0..60 {
                    let mid = (lo + hi) / 2.0;
                    if two_sided(&r[..k], mid) < alpha { hi = mid } else { lo = mid }
                }
                for err in [lo * 0.5 + 0.01, lo * 0.999 + 1e-6, hi * 1.001 + 1e-6, hi * 2.0 + 0.01] {
                    if let Some(want) = stopped(&r, err, alpha) {
                        let mc = MonteCarloReward::new(r.len(), err, alpha, end, RewardCriteria::FiniteHorizon, Some(9));
                        let got = mc.evaluate_state(&n, &PerMove, &st(&[0]));
                        check(feq(got, want), "sampling stops exactly when the estimate is within the requested error at the requested confidence");
                        obs(got);
                    }
                }
            }
        }
    }
    // params: largest number of trajectories, draws, 1: any error and confidence; trajectories that move once, at any time
    fn c22_stop_any() {
        no_log_zero();
        max_draws(param(1) as u64);
        let n = setup(0);
        let end = 8.0;
        let (err, alpha) = if param(2) == 1 { (positive(), real_in(0.0, 1.0)) } else { (0.5, 0.25) };
        let mut s = ForwardSampler::new(&n, Some(9), Some(st(&[0])));
        let (mut sum, mut sq) = (0.0, 0.0);
        let mut want = 0.0;
        for i in 1..=param(0) {
            let (r, moved) = one_return(&mut s, &InFirst, end, None);
            assume(moved == 1);
            sum += r;
            sq += r * r;
            let k = i as f64;
            want = sum / k;
            if i > 3 {
                let var = (sq - sum * sum / k) / (k - 1.0);
                assume(var > 1e-6);
                let p = 2.0 * normal_cdf(-err * k.sqrt() / var.sqrt());
                assume(p < alpha - 1e-9 || p > alpha + 1e-9);
                if p < alpha {
                    if i < param(0) {
                        reach("stopped early");
                    }
                    break;
                }
                if i == param(0) {
                    reach("not converged");
                }
            }
        }
        let mc = MonteCarloReward::new(param(0), err, alpha, end, RewardCriteria::FiniteHorizon, Some(9));
        let got = mc.evaluate_state(&n, &InFirst, &st(&[0]));
        check(feq(got, want), "sampling stops exactly when the estimate is within the requested error at the requested confidence");
        obs(got);
    }

    // params: trajectories, pattern; as many transitions per trajectory (none or one) as the pattern gives
    fn c22_long() {
        no_log_zero();
        let n = setup(0);
        let end = 0.01;
        max_draws(param(0) as u64 * 6);
        let mut rnd = pseudo(param(1) as u32);
        let mut s = ForwardSampler::new(&n, Some(9), Some(st(&[0])));
        let r: Vec<f64> = (0..param(0))
            .map(|_| {
                let moves = (rnd(4) == 0) as usize;
                s.reset();
                s.next();
                if moves == 1 {
                    let t = s.next().unwrap().t;
                    assume(t < end * 0.5);
                }
                let t = s.next().unwrap().t;
                assume(t > end * 2.0);
                moves as f64
            })
            .collect();
        for (err, alpha) in [(0.2, 0.05), (0.1, 0.1), (0.3, 0.02), (1e-9, 0.3)] {
            if let Some(want) = stopped(&r, err, alpha) {
                let mc = MonteCarloReward::new(r.len(), err, alpha, end, RewardCriteria::FiniteHorizon, Some(9));
                check(feq(mc.evaluate_state(&n, &PerMove, &st(&[0])), want), "sampling stops exactly when the estimate is within the requested error at the requested confidence");
            }
        }
    }

    // params: draws; one evaluator asked about two rewards, two networks and two states in turn
    fn c22_again() {
        no_log_zero();
        max_draws(param(0) as u64);
        let (a, mut b) = (setup(0), setup(0));
        dpm(b.get_node_mut(0)).set_cim_unchecked(tag_cim(3, 1, 2));
        let end = 0.01;
        let mc = MonteCarloReward::new(1, 0.1, 0.1, end, RewardCriteria::FiniteHorizon, Some(9));
        for i in 0..4 {
            let n = if i < 3 { &a } else { &b };
            let mut f = FactoredRewardFunction::initialize_from_network_process(n);
            *f.get_instantaneous_reward_mut(0) = array![any_real(), any_real()];
            let init = [i / 2 % 2];
            let got = mc.evaluate_state(n, &f, &st(&init));
            let mut s = ForwardSampler::new(n, Some(9), Some(st(&init)));
            let (want, moved) = one_return(&mut s, &f, end, None);
            assume(moved < 2);
            check(feq(got, want), "the estimate is the mean over the trajectories of what they earn");
        }
    }
}
