//! C28: a Markov process is a network of one variable
use crate::symx::*;
use crate::util::*;

fn states(d: usize) -> CtmpProcess {
    let mut p = node(0, d);
    let c = tag_cim(0, 1, d);
    dpm(&mut p).set_cim(c).unwrap();
    let mut m = CtmpProcess::new();
    check(m.add_node(p).unwrap() == 0, "the first variable is accepted");
    m
}

/// a process read as a network whose only variable has no parents
struct Read(CtmpProcess);
impl NetworkProcess for Read {
    fn initialize_adj_matrix(&mut self) {
        self.0.initialize_adj_matrix()
    }
    fn add_node(&mut self, n: Params) -> Result<usize, process::NetworkError> {
        self.0.add_node(n)
    }
    fn add_edge(&mut self, p: usize, c: usize) {
        self.0.add_edge(p, c)
    }
    fn get_node_indices(&self) -> std::ops::Range<usize> {
        self.0.get_node_indices()
    }
    fn get_number_of_nodes(&self) -> usize {
        self.0.get_number_of_nodes()
    }
    fn get_node(&self, i: usize) -> &Params {
        self.0.get_node(i)
    }
    fn get_node_mut(&mut self, i: usize) -> &mut Params {
        self.0.get_node_mut(i)
    }
    fn get_param_index_network(&self, _: usize, _: &NetworkProcessState) -> usize {
        0
    }
    fn get_param_index_from_custom_parent_set(&self, s: &NetworkProcessState, p: &BTreeSet<usize>) -> usize {
        self.0.get_param_index_from_custom_parent_set(s, p)
    }
    fn get_parent_set(&self, i: usize) -> BTreeSet<usize> {
        self.0.get_parent_set(i)
    }
    fn get_children_set(&self, i: usize) -> BTreeSet<usize> {
        self.0.get_children_set(i)
    }
}

entries! {
    // a process without parents has one matrix, the first; every state reads it
    fn c28_index() {
        let d = 2 + choose(4);
        let m = states(d);
        let s = below(d);
        let i = m.get_param_index_network(0, &st(&[s]));
        check(i == 0 || i == s, "the matrix read in a state is neither the first nor the one numbered like the state");
        check(i == 0, "every state of a process reads its only matrix");
    }
    fn c28_one_variable() {
        let mut m = CtmpProcess::new();
        check(m.get_number_of_nodes() == 0 && m.get_node_indices() == (0..0), "a new process has no variable");
        let d = 1 + choose(4);
        check(m.add_node(node(3, d)).unwrap() == 0, "the first variable is accepted");
        for _ in 0..2 {
            check(m.get_number_of_nodes() == 1 && m.get_node_indices() == (0..1), "one variable");
            check(*m.get_node(0).get_label() == *node(3, 2).get_label() && m.get_node(0).get_reserved_space_as_parent() == d, "the variable stays");
            check(m.get_parent_set(0).is_empty() && m.get_children_set(0).is_empty(), "no edges");
            check(m.add_node(node(1, 2)).is_err(), "a second variable is refused");
        }
    }
    fn c28_refuses() {
        let mut m = states(2);
        must_panic();
        let i = 1 + choose(3);
        match choose(9) {
            0 => m.add_edge(choose(2), choose(2)),
            1 => m.initialize_adj_matrix(),
            2 => { m.get_node(i); }
            3 => { m.get_node_mut(i); }
            4 => { m.get_parent_set(i); }
            5 => { m.get_children_set(i); }
            6 => { m.get_param_index_network(i, &st(&[0])); }
            7 => { m.get_param_index_from_custom_parent_set(&st(&[0]), &set_of(choose(2))); }
            _ => { CtmpProcess::new().get_parent_set(0); }
        }
    }
    // sampling a process follows its only matrix
    fn c28_sampled() {
        no_log_zero();
        let d = param(0);
        let m = Read(states(d));
        let init = choose(d);
        let mut s = ForwardSampler::new(&m, Some(3), Some(st(&[init])));
        let mut rng = ChaCha8Rng::seed_from_u64(3);
        let (mut t, mut cur) = (0.0, init);
        for _ in 0..param(1) {
            let x = s.next().unwrap();
            check(feq(x.t, t) && same_state(&x.state, &[cur]), "a process is sampled from its intensity matrix");
            t += m.get_node(0).get_random_residence_time(cur, 0, &mut rng).unwrap();
            cur = sv(&m.get_node(0).get_random_state(cur, 0, &mut rng).unwrap());
        }
    }
}
