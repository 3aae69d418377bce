//! C07: forward sampling is the race of exponential clocks of the network
use crate::symx::*;
use crate::util::*;

fn follow(n: &CtbnNetwork, e: &[(usize, usize)], s: &mut ForwardSampler<CtbnNetwork>, rng: &mut ChaCha8Rng, init: Vec<usize>, steps: usize) {
    let mut o = Race::new(n, e, init.clone());
    let mut last: Option<(f64, Vec<usize>)> = None;
    for k in 0..steps {
        let x = s.next().unwrap();
        if k == 0 {
            check(x.t == 0.0, "the first sample is at time zero");
            check(same_state(&x.state, &init), "the first sample is the initial state");
        }
        check(feq(x.t, o.t), "a transition happens when the earliest clock fires");
        check(same_state(&x.state, &o.cur), "only the node whose clock fired moves, to a state drawn from its row");
        if let Some((t, st)) = last {
            check(fle(t, x.t), "time never goes back");
            let mut diff = 0;
            for i in 0..st.len() {
                if st[i] != sv(&x.state[i]) {
                    diff += 1;
                }
            }
            check(diff == 1, "exactly one variable changes per transition");
        }
        last = Some((x.t, x.state.iter().map(sv).collect()));
        if k + 1 < steps {
            let m = o.step(n, rng);
            if m > 0 {
                reach("second node moves");
            }
        } else {
            obs(x.t);
        }
    }
}

entries! {
    // params: cards code, edge mask, steps
    fn c07_race() {
        no_log_zero();
        let cards: &[usize] = [&[2, 2][..], &[2, 3], &[2, 2, 2], &[3], &[2, 2, 2, 2], &[2, 2, 2, 2, 2, 2], &[2]][param(0)];
        let k = cards.len();
        let e = edges(k, param(1));
        let mut n = graph_net(cards, param(1));
        set_tag_cims(&mut n);
        let init: Vec<usize> = if k > 3 { vec![0; k] } else { cards.iter().map(|c| choose(*c)).collect() };
        let mut s = ForwardSampler::new(&n, Some(3), Some(st(&init)));
        let mut rng = ChaCha8Rng::seed_from_u64(3);
        follow(&n, &e, &mut s, &mut rng, init, param(2));
    }
    // long runs in which the nodes move in a given order; params: cards code, edge mask, steps, order
    fn c07_long() {
        no_log_zero();
        let cards: &[usize] = [&[2, 2][..], &[2, 3], &[2, 2, 2]][param(0)];
        let mut n = graph_net(cards, param(1));
        set_tag_cims(&mut n);
        let init = vec![0; cards.len()];
        let mut s = ForwardSampler::new(&n, Some(3), Some(st(&init)));
        let mut rng = ChaCha8Rng::seed_from_u64(3);
        let mut o = Race::new(&n, &edges(cards.len(), param(1)), init.clone());
        for k in 0..param(2) {
            let x = s.next().unwrap();
            check(feq(x.t, o.t), "a transition happens when the earliest clock fires");
            check(same_state(&x.state, &o.cur), "only the node whose clock fired moves, to a state drawn from its row");
            let m = o.step(&n, &mut rng);
            assume(m == (param(3) >> (k % 16)) % 2);
        }
    }
    // arbitrary rates
    fn c07_any_rates() {
        no_log_zero();
        let cards = [2, 2];
        let e = edges(2, param(0));
        let mut n = graph_net(&cards, param(0));
        set_any_cims(&mut n);
        let init: Vec<usize> = cards.iter().map(|c| choose(*c)).collect();
        let mut s = ForwardSampler::new(&n, Some(3), Some(st(&init)));
        let mut rng = ChaCha8Rng::seed_from_u64(3);
        follow(&n, &e, &mut s, &mut rng, init, param(1));
    }
    // reset starts over: time zero, initial state, no clock left over
    fn c07_reset() {
        no_log_zero();
        let cards = [2, 2];
        let e = edges(2, param(0));
        let mut n = graph_net(&cards, param(0));
        set_tag_cims(&mut n);
        let init: Vec<usize> = cards.iter().map(|c| choose(*c)).collect();
        let mut s = ForwardSampler::new(&n, Some(3), Some(st(&init)));
        let mut rng = ChaCha8Rng::seed_from_u64(3);
        let before = param(1);
        follow(&n, &e, &mut s, &mut rng, init.clone(), before);
        // the sampler has already drawn the transition after the last sample
        let mut o = Race::new(&n, &e, init.clone());
        let mut r2 = ChaCha8Rng::seed_from_u64(3);
        for _ in 0..before {
            o.step(&n, &mut r2);
        }
        s.reset();
        follow(&n, &e, &mut s, &mut r2, init, 2);
        reach("reset");
    }
    // without an initial state one is drawn for every node, anew at each reset
    fn c07_drawn_start() {
        no_log_zero();
        max_draws(8);
        let cards = [2, 3];
        let mut n = graph_net(&cards, 1);
        set_tag_cims(&mut n);
        let mut s = ForwardSampler::new(&n, Some(3), None);
        let mut rng = ChaCha8Rng::seed_from_u64(3);
        let want: Vec<usize> = (0..2).map(|i| sv(&n.get_node(i).get_random_state_uniform(&mut rng))).collect();
        if fork() {
            s.reset();
            let again: Vec<usize> = (0..2).map(|i| sv(&n.get_node(i).get_random_state_uniform(&mut rng))).collect();
            let x = s.next().unwrap();
            check(x.t == 0.0 && same_state(&x.state, &again), "reset draws a new start");
        } else {
            let x = s.next().unwrap();
            check(x.t == 0.0 && same_state(&x.state, &want), "the start is drawn uniformly");
        }
    }
}
