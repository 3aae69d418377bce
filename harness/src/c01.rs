//! C01: one index per parent configuration, the same everywhere
use crate::symx::*;
use crate::util::*;

const SHAPES: [[usize; 4]; 3] = [[2, 3, 2, 3], [3, 2, 4, 2], [2, 2, 3, 5]];

entries! {
    // every graph into node 0..n, every state
    fn c01_network_index() {
        let cards = SHAPES[param(0)];
        let child = param(1);
        let mut n = net(&cards);
        n.initialize_adj_matrix();
        let mut parents: Vec<usize> = vec![];
        for p in 0..4 {
            if fork() {
                n.add_edge(p, child);
                parents.push(p);
            }
        }
        let s: Vec<usize> = cards.iter().map(|c| below(*c)).collect();
        let t: Vec<usize> = cards.iter().map(|c| below(*c)).collect();
        let (ss, ts) = (st(&s), st(&t));
        let i = n.get_param_index_network(child, &ss);
        let j = n.get_param_index_network(child, &ts);
        let want = radix(&cards, &parents, &s);
        obsu(i);
        check(i == want, "index is the mixed-radix number of the parents' states");
        let size: usize = parents.iter().map(|p| cards[*p]).product();
        check(i < size, "index lies inside the table");
        let mut same = true;
        for p in &parents {
            same &= s[*p] == t[*p];
        }
        check((i == j) == same, "index identifies the parents' states");
        let set: BTreeSet<usize> = parents.iter().cloned().collect();
        check(n.get_param_index_from_custom_parent_set(&ss, &set) == i, "custom parent set gives the same index");
        if parents.len() > 1 {
            reach("several parents");
        }
    }

    // joint state <-> joint index used for amalgamation
    fn c01_joint_index() {
        let cards = SHAPES[param(0)];
        let dom = Array1::from_vec(cards.to_vec());
        let n = net(&cards);
        let all: BTreeSet<usize> = (0..4).collect();
        let total: usize = cards.iter().product();
        let i = below(total);
        let a = CtbnNetwork::idx_to_state(&dom, i);
        let mut inside = a.len() == 4;
        let mut v = vec![];
        for k in 0..4 {
            inside &= a[k] < cards[k];
            v.push(a[k]);
        }
        check(inside, "a joint index names a state of the network");
        let j = n.get_param_index_from_custom_parent_set(&st(&v), &all);
        obsu(j);
        check(i == j, "joint index survives the round trip");
        let s: Vec<usize> = cards.iter().map(|c| below(*c)).collect();
        let k = n.get_param_index_from_custom_parent_set(&st(&s), &all);
        check(k < total, "joint index lies inside the state space");
        let b = CtbnNetwork::idx_to_state(&dom, k);
        let mut same = true;
        for q in 0..4 {
            same &= b[q] == s[q];
        }
        check(same, "joint state survives the round trip");
    }
    // any subset of nodes as custom parent set, whatever the edges are
    fn c01_custom_set() {
        let cards = SHAPES[param(0)];
        let mask = choose(16);
        let n = net(&cards);
        let s: Vec<usize> = cards.iter().map(|c| below(*c)).collect();
        let ps: Vec<usize> = (0..4).filter(|i| mask >> i & 1 == 1).collect();
        let i = n.get_param_index_from_custom_parent_set(&st(&s), &set_of(mask));
        obsu(i);
        check(i == radix(&cards, &ps, &s), "custom set index is the mixed-radix number of its members' states");
    }
    // params: variables, parents (mask), kind of cardinalities
    fn c01_large() {
        let (n, mask) = (param(0), param(1));
        let cards: Vec<usize> = (0..n)
            .map(|i| match param(2) {
                0 => 2,
                1 => 2 + i % 3,
                2 => [300, 2][i % 2],
                _ => 1 + (i * 5) % 7,
            })
            .collect();
        let child = n / 2;
        let mut g = net(&cards);
        g.initialize_adj_matrix();
        let parents = list_of(mask);
        for p in &parents {
            g.add_edge(*p, child);
        }
        let s: Vec<usize> = cards.iter().map(|c| below(*c)).collect();
        let ss = st(&s);
        let i = g.get_param_index_network(child, &ss);
        obsu(i);
        check(i == radix(&cards, &parents, &s), "index is the mixed-radix number of the parents' states");
        check(g.get_param_index_from_custom_parent_set(&ss, &set_of(mask)) == i, "custom parent set gives the same index");
        // back from the index
        let dom = Array1::from_vec(parents.iter().map(|p| cards[*p]).collect());
        let b = CtbnNetwork::idx_to_state(&dom, i);
        let mut same = b.len() == parents.len();
        for (k, p) in parents.iter().enumerate() {
            same &= b[k] == s[*p];
        }
        check(same, "joint state survives the round trip");
    }
}
