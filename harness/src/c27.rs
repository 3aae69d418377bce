//! C27: inputs that do not fit together are refused
use crate::symx::*;
use crate::util::*;
use reCTBN::structure_learning::constraint_based_algorithm::CTPC;
use reCTBN::structure_learning::hypothesis_test::{ChiSquare, F};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::{LogLikelihood, BIC};
use reCTBN::structure_learning::StructuralLearningAlgorithm;

fn expect(ok: bool) {
    reach(["does not fit", "fits"][concretize(ok as usize)]);
    if !ok {
        must_panic();
    }
}

/// every variable leaves every state in every configuration of the others
fn busy_data(k: usize) -> Dataset {
    let mut rows = vec![];
    for s in 0..1usize << k {
        for v in 0..k {
            for x in [s, s ^ (1 << v)] {
                rows.push((0..k).map(|i| x >> i & 1).collect::<Vec<usize>>());
            }
        }
    }
    let n = rows.len();
    Dataset::new(vec![Trajectory::new(Array1::from_shape_fn(n, |i| i as f64), Array2::from_shape_fn((n, k), |(i, j)| rows[i][j]))])
}

entries! {
    fn c27_trajectory() {
        let (a, b, w) = (choose(5), choose(5), 1 + choose(3));
        let t = Array1::from_shape_fn(a, |_| any_real());
        let e = Array2::from_shape_fn((b, w), |_| below(4));
        let (t2, e2) = (t.clone(), e.clone());
        expect(a == b);
        let x = Trajectory::new(t, e);
        check(x.get_time() == t2 && x.get_events() == e2, "a trajectory holds what it was made of");
    }
    fn c27_dataset() {
        let n = choose(4);
        let w: Vec<usize> = (0..n).map(|_| 1 + choose(3)).collect();
        let trj: Vec<Trajectory> = w.iter().enumerate().map(|(i, k)| Trajectory::new(Array1::from_elem(1 + i, i as f64), Array2::zeros((1 + i, *k)))).collect();
        expect(w.iter().all(|k| *k == w[0]));
        let d = Dataset::new(trj);
        check(d.get_trajectories().len() == n, "a dataset holds the trajectories it was made of");
        for i in 0..n {
            let t = &d.get_trajectories()[i];
            check(t.get_time().len() == 1 + i && t.get_time()[0] == i as f64 && t.get_events().shape() == [1 + i, w[i]], "a dataset holds the trajectories it was made of");
        }
    }
    // params: 0 hill climbing, 1 constraint-based
    fn c27_learning() {
        let (n, k) = (1 + choose(3), 1 + choose(4));
        let g = net(&vec![2; n]);
        let d = blank_data(&vec![2; k]);
        expect(n == k);
        let g = if param(0) == 0 {
            if fork() {
                HillClimbing::new(BIC::new(1, 1.0), None).fit_transform(g, &d)
            } else {
                HillClimbing::new(LogLikelihood::new(1, 1.0), Some(1)).fit_transform(g, &d)
            }
        } else {
            CTPC::new(BayesianApproach { alpha: 1, tau: 1.0 }, F::new(0.1), ChiSquare::new(0.1)).fit_transform(g, &busy_data(k))
        };
        check(g.get_number_of_nodes() == n, "learning keeps the nodes");
    }
    // data in which nothing ever happens
    fn c27_still() {
        let n = 1 + choose(3);
        let g = CTPC::new(BayesianApproach { alpha: 1, tau: 1.0 }, F::new(0.1), ChiSquare::new(0.1)).fit_transform(net(&vec![2; n]), &blank_data(&vec![2; n]));
        check(g.get_number_of_nodes() == n, "learning keeps the nodes");
    }
    fn c27_score_domain() {
        let tau = any_real();
        expect(tau >= 0.0);
        LogLikelihood::new(choose(3), tau);
    }

    // params: rows; one more or one less time
    fn c27_long() {
        let n = param(0);
        let d = choose(3);
        let t = Array1::from_shape_fn(n + d - 1, |i| i as f64);
        let e = Array2::zeros((n, 2));
        expect(d == 1);
        check(Trajectory::new(t, e).get_time().len() == n, "a trajectory holds what it was made of");
    }
    // params: trajectories, variables; one trajectory, anywhere, may have one variable more or less
    fn c27_many() {
        let (n, w) = (param(0), param(1));
        let (at, d) = (choose(n), choose(3));
        let trj: Vec<Trajectory> = (0..n).map(|i| Trajectory::new(Array1::zeros(2), Array2::zeros((2, if i == at { w + d - 1 } else { w })))).collect();
        expect(d == 1 || n == 1);
        check(Dataset::new(trj).get_trajectories().len() == n, "a dataset holds the trajectories it was made of");
    }
}
