//! C08: generated datasets are well formed and reproducible
use crate::symx::*;
use crate::util::*;
use reCTBN::tools::trajectory_generator;

const CARDS: [&[usize]; 3] = [&[2, 2], &[3, 2], &[2]];

fn well_formed(d: &Dataset, cards: &[usize], want: usize, t_end: f64) {
    let k = cards.len();
    check(d.get_trajectories().len() == want, "as many trajectories as asked for");
    for tr in d.get_trajectories() {
        let (t, e) = (tr.get_time(), tr.get_events());
        let m = t.len();
        obsu(m);
        check(m >= 2 && e.shape()[0] == m && e.shape()[1] == k, "one row of states per time point");
        check(t[0] == 0.0, "a trajectory starts at time zero");
        check(t[m - 1] == t_end, "a trajectory ends at the requested time");
        for i in 1..m {
            check(fle(t[i - 1], t[i]), "times are ordered");
        }
        let mut diff_ok = true;
        for i in 0..m {
            for v in 0..k {
                check(e[[i, v]] < cards[v], "states are in the domain");
            }
            if i > 0 {
                let mut diff = 0;
                for v in 0..k {
                    if e[[i, v]] != e[[i - 1, v]] {
                        diff += 1;
                    }
                }
                diff_ok &= diff == if i == m - 1 { 0 } else { 1 };
            }
        }
        check(diff_ok, "one variable changes at each time point, none at the last");
        if m > 2 {
            reach("transition before the end");
        }
    }
}

entries! {
    // params: cards, graph, trajectories, draws
    fn c08_well_formed() {
        no_log_zero();
        max_draws(param(3) as u64);
        let cards = CARDS[param(0)];
        let mut n = graph_net(cards, param(1));
        set_tag_cims(&mut n);
        let t_end = positive();
        let want = param(2);
        let seed = any_u64();
        let d = trajectory_generator(&n, want as u64, t_end, Some(seed));
        well_formed(&d, cards, want, t_end);
    }
    // same network, same seed: same dataset; and each trajectory is what the sampler yields up to the end time
    fn c08_reproducible() {
        no_log_zero();
        max_draws(param(3) as u64);
        let cards = CARDS[param(0)];
        let mut n = graph_net(cards, param(1));
        set_tag_cims(&mut n);
        let t_end = positive();
        let want = param(2);
        let seed = any_u64();
        let a = trajectory_generator(&n, want as u64, t_end, Some(seed));
        let b = trajectory_generator(&n, want as u64, t_end, Some(seed));
        let mut s = ForwardSampler::new(&n, Some(seed), None);
        check(a.get_trajectories().len() == b.get_trajectories().len(), "equal seeds give equal datasets");
        for (x, y) in a.get_trajectories().iter().zip(b.get_trajectories().iter()) {
            check(x.get_time().len() == y.get_time().len(), "equal seeds give equal datasets");
            check(x.get_events() == y.get_events(), "equal seeds give equal datasets");
            let m = x.get_time().len();
            for i in 0..m {
                check(x.get_time()[i] == y.get_time()[i], "equal seeds give equal datasets");
            }
            for i in 0..m - 1 {
                let p = s.next().unwrap();
                check(p.t <= t_end && p.t == x.get_time()[i], "trajectories are the sampler's, one after the other");
                for v in 0..cards.len() {
                    check(sv(&p.state[v]) == x.get_events()[[i, v]], "trajectories are the sampler's, one after the other");
                }
            }
            check(s.next().unwrap().t >= t_end, "no transition before the end time is lost");
            s.reset();
        }
    }
    // longer datasets: the nodes move in a given order, as often in each trajectory
    // params: cards, graph, trajectories, transitions, order, draws
    fn c08_long() {
        no_log_zero();
        max_draws(param(5) as u64);
        let cards = CARDS[param(0)];
        let mut n = graph_net(cards, param(1));
        set_tag_cims(&mut n);
        let t_end = positive();
        let want = param(2);
        let seed = any_u64();
        let mut s = ForwardSampler::new(&n, Some(seed), None);
        let mut all = vec![];
        for _ in 0..want {
            let mut one: Vec<(f64, Vec<usize>)> = vec![];
            for k in 0..param(3) + 2 {
                let x = s.next().unwrap();
                let e: Vec<usize> = x.state.iter().map(sv).collect();
                if k == 0 {
                    assume(same_state(&x.state, &vec![0; cards.len()]));
                } else {
                    let m = param(4) >> (k % 16) & 1;
                    assume(e[m] != one[k - 1].1[m]);
                }
                assume((x.t < t_end) == (k <= param(3)));
                one.push((x.t, e));
            }
            assume(one[param(3) + 1].0 > t_end);
            all.push(one);
            s.reset();
        }
        let d = trajectory_generator(&n, want as u64, t_end, Some(seed));
        well_formed(&d, cards, want, t_end);
        for (tr, one) in d.get_trajectories().iter().zip(all.iter()) {
            check(tr.get_time().len() == param(3) + 2, "trajectories are the sampler's, one after the other");
            for k in 0..param(3) + 1 {
                check(tr.get_time()[k] == one[k].0, "trajectories are the sampler's, one after the other");
                for v in 0..cards.len() {
                    check(tr.get_events()[[k, v]] == one[k].1[v], "trajectories are the sampler's, one after the other");
                }
            }
        }
    }
}
