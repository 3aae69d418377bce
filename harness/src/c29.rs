//! C29: results do not depend on the order in which parallel tasks run
use crate::symx::*;
use crate::util::*;
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{RewardEvaluation, RewardFunction};
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::ScoreFunction;
use reCTBN::structure_learning::StructuralLearningAlgorithm;

fn parents(g: &CtbnNetwork) -> Vec<usize> {
    (0..g.get_number_of_nodes()).map(|v| g.get_parent_set(v).iter().map(|p| 1 << p).sum()).collect()
}
/// scores of every parent set of every node
struct Scores(Vec<Vec<f64>>);
impl ScoreFunction for Scores {
    fn call<T: NetworkProcess>(&self, _: &T, node: usize, s: &BTreeSet<usize>, _: &Dataset) -> f64 {
        self.0[node][s.iter().map(|x| 1 << x).sum::<usize>()]
    }
}

entries! {
    // params: nodes, pattern of scores
    fn c29_hill_climbing() {
        let n = param(0);
        let t: Vec<Vec<f64>> = (0..n).map(|v| (0..1usize << n).map(|m| ((v * 31 + m * 17 + param(1) * 13) % 11) as f64 + m as f64 / 64.0).collect()).collect();
        let data = blank_data(&vec![2; n]);
        let max = if fork() { None } else { Some(1) };
        let a = HillClimbing::new(Scores(t.clone()), max).fit_transform(net(&vec![2; n]), &data);
        schedules(8);
        let b = HillClimbing::new(Scores(t), max).fit_transform(net(&vec![2; n]), &data);
        let (a, b) = (parents(&a), parents(&b));
        check(a == b, "the learned structure is the same in every order");
        if a.iter().any(|x| *x != 0) {
            reach("edges learned");
        }
    }
    // params: nodes, pattern of rates
    fn c29_constraint() {
        let n = param(0);
        let mut t = vec![];
        for v in 0..n {
            for m in 0..1usize << n {
                if m >> v & 1 == 0 {
                    let u = 1 << m.count_ones();
                    let c = Array3::from_shape_fn((u, 2, 2), |(_, x, y)| if x == y { 0 } else { 40 });
                    let q = Array2::from_shape_fn((u, 2), |(i, x)| if (v * 7 + m * 5 + i * 3 + x + param(1)) % 4 == 0 { 9.0 } else { 1.0 });
                    t.push((v, set_of(m), learned(v, c, q)));
                }
            }
        }
        let data = blank_data(&vec![2; n]);
        let a = CTPC::new(Table(t.clone()), F::new(0.01), ChiSquare::new(0.01)).fit_transform(net(&vec![2; n]), &data);
        schedules(8);
        let b = CTPC::new(Table(t), F::new(0.01), ChiSquare::new(0.01)).fit_transform(net(&vec![2; n]), &data);
        let (a, b) = (parents(&a), parents(&b));
        check(a == b, "the learned structure is the same in every order");
        if a.iter().any(|x| *x != 0) {
            reach("edges learned");
        }
    }
    // params: network, fork-joins in arbitrary order, draws
    fn c29_rewards() {
        no_log_zero();
        max_draws(param(2) as u64);
        let cards: &[usize] = [&[2][..], &[2, 2], &[2, 3]][param(0)];
        let mut n = graph_net(cards, 0);
        set_tag_cims(&mut n);
        let mut f = FactoredRewardFunction::initialize_from_network_process(&n);
        for (i, c) in cards.iter().enumerate() {
            *f.get_instantaneous_reward_mut(i) = Array1::from_shape_fn(*c, |x| (1 + x + 2 * i) as f64);
            *f.get_transition_reward_mut(i) = Array2::from_shape_fn((*c, *c), |(x, y)| (x + 3 * y) as f64);
        }
        let mc = MonteCarloReward::new(1, 0.1, 0.1, 0.001, RewardCriteria::FiniteHorizon, Some(9));
        let a = mc.evaluate_state_space(&n, &f);
        schedules(param(1) as u64);
        let b = mc.evaluate_state_space(&n, &f);
        check(a.len() == b.len(), "the same states are evaluated in every order");
        for (k, v) in &a {
            match b.get(k) {
                None => check(false, "the same states are evaluated in every order"),
                Some(w) => check(feq(*v, *w), "the values are the same in every order"),
            }
        }
    }
    // params: network, draws
    fn c29_repeat() {
        no_log_zero();
        max_draws(param(1) as u64);
        let cards: &[usize] = [&[2][..], &[2, 2]][param(0)];
        let mut n = graph_net(cards, 0);
        set_tag_cims(&mut n);
        let mut f = FactoredRewardFunction::initialize_from_network_process(&n);
        for (i, c) in cards.iter().enumerate() {
            *f.get_instantaneous_reward_mut(i) = Array1::from_shape_fn(*c, |x| (1 + x + 2 * i) as f64);
            *f.get_transition_reward_mut(i) = Array2::from_shape_fn((*c, *c), |(x, y)| (x + 3 * y) as f64);
        }
        let mc = MonteCarloReward::new(1, 0.1, 0.1, 0.001, RewardCriteria::FiniteHorizon, Some(9));
        let s = st(&vec![0; cards.len()]);
        let a = mc.evaluate_state(&n, &f, &s);
        let b = mc.evaluate_state(&n, &f, &s);
        check(feq(a, b), "the value of a state does not depend on the evaluations that came before");
    }
}
