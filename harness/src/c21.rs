//! C21: factored rewards
use crate::symx::*;
use crate::util::*;
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::RewardFunction;

const CARDS: [&[usize]; 4] = [&[2, 3], &[3, 2, 2], &[2], &[2, 2, 3, 2]];

fn filled(n: &CtbnNetwork, cards: &[usize]) -> (FactoredRewardFunction, Vec<Array1<f64>>, Vec<Array2<f64>>) {
    let mut f = FactoredRewardFunction::initialize_from_network_process(n);
    let mut inst = vec![];
    let mut tran = vec![];
    for (i, c) in cards.iter().enumerate() {
        check(f.get_instantaneous_reward(i).len() == *c && f.get_transition_reward(i).shape() == [*c, *c], "rewards fit the network");
        check(f.get_instantaneous_reward(i).iter().all(|x| *x == 0.0) && f.get_transition_reward(i).iter().all(|x| *x == 0.0), "rewards start at zero");
        let a = Array1::from_shape_fn(*c, |_| any_real());
        let b = Array2::from_shape_fn((*c, *c), |_| any_real());
        f.get_instantaneous_reward_mut(i).assign(&a);
        f.get_transition_reward_mut(i).assign(&b);
        inst.push(a);
        tran.push(b);
    }
    (f, inst, tran)
}

entries! {
    // params: cards code
    fn c21_rewards() {
        let cards = CARDS[param(0)];
        let k = cards.len();
        let n = net(cards);
        let (f, inst, tran) = filled(&n, cards);
        let cur: Vec<usize> = cards.iter().map(|c| choose(*c)).collect();
        let mut want = 0.0;
        for i in 0..k {
            want += inst[i][cur[i]];
        }
        let r = f.call(&st(&cur), None);
        check(feq(r.instantaneous_reward, want), "the instantaneous reward is the sum over the variables");
        check(r.transition_reward == 0.0, "no transition reward without a transition");
        // nothing changed
        let r = f.call(&st(&cur), Some(&st(&cur)));
        check(feq(r.instantaneous_reward, want) && r.transition_reward == 0.0, "no transition reward without a transition");
        // one variable changes
        let v = choose(k);
        let mut prev = cur.clone();
        prev[v] = (cur[v] + 1 + choose(cards[v] - 1)) % cards[v];
        let r = f.call(&st(&cur), Some(&st(&prev)));
        check(feq(r.instantaneous_reward, want), "the instantaneous reward is the sum over the variables");
        check(feq(r.transition_reward, tran[v][[prev[v], cur[v]]]), "a transition earns the reward of the variable that changed");
        obs(r.transition_reward);
    }

    // many variables, two joint states that differ in any one of them
    fn c21_many() {
        let cards = [2, 3, 2, 5, 2, 2, 4, 2, 3, 2, 2, 7, 2, 2, 3];
        let k = cards.len();
        let n = net(&cards);
        let (f, inst, tran) = filled(&n, &cards);
        let mut rnd = pseudo(param(0) as u32);
        let cur: Vec<usize> = cards.iter().map(|c| rnd(*c)).collect();
        let mut want = 0.0;
        for i in 0..k {
            want += inst[i][cur[i]];
        }
        let v = choose(k);
        let mut prev = cur.clone();
        prev[v] = (cur[v] + 1 + choose(cards[v] - 1)) % cards[v];
        let r = f.call(&st(&cur), Some(&st(&prev)));
        check(feq(r.instantaneous_reward, want), "the instantaneous reward is the sum over the variables");
        check(feq(r.transition_reward, tran[v][[prev[v], cur[v]]]), "a transition earns the reward of the variable that changed");
    }
}
