//! C02: edges, parents and children agree and change only as asked
use crate::symx::*;
use crate::util::*;

fn agree(n: &CtbnNetwork, want: &Vec<Vec<bool>>) {
    let k = want.len();
    check(n.get_number_of_nodes() == k, "number of nodes");
    check(n.get_node_indices() == (0..k), "node indices");
    for p in 0..k {
        let ch = n.get_children_set(p);
        let pa = n.get_parent_set(p);
        let wc: BTreeSet<usize> = (0..k).filter(|c| want[p][*c]).collect();
        let wp: BTreeSet<usize> = (0..k).filter(|c| want[*c][p]).collect();
        check(ch == wc, "children are the targets of the edges");
        check(pa == wp, "parents are the sources of the edges");
        for c in 0..k {
            check((n.get_adj_matrix().unwrap()[[p, c]] != 0) == want[p][c], "adjacency matrix shows the edges");
        }
    }
}

entries! {
    // an arbitrary graph, then any two operations
    fn c02_operations() {
        let k = param(0);
        let mut n = net(&[2, 3, 2][..k]);
        let mut w = vec![vec![false; k]; k];
        // bit i of the mask: edge i / k -> i % k (self loops included)
        let lo = param(1);
        let mask = lo + 64 * choose(if k == 3 { 8 } else { 1 });
        if mask == 0 && fork() {
            n.initialize_adj_matrix();
        }
        for i in 0..k * k {
            if mask >> i & 1 == 1 {
                n.add_edge(i / k, i % k);
                w[i / k][i % k] = true;
            }
        }
        if mask != 0 {
            agree(&n, &w);
        }
        for _ in 0..param(2) {
            let (p, c) = (choose(k), choose(k));
            n.add_edge(p, c);
            w[p][c] = true;
            agree(&n, &w);
            reach("edge added");
        }
        n.initialize_adj_matrix();
        agree(&n, &vec![vec![false; k]; k]);
    }
    // nodes keep their number, order, label and domain while nodes and edges are added
    fn c02_nodes() {
        let k = 2 + choose(3);
        let mut n = CtbnNetwork::new();
        let mut cards = vec![];
        for i in 0..k {
            let c = 1 + choose(3);
            cards.push(c);
            let r = n.add_node(node(i, c)).unwrap();
            check(r == i, "a new node gets the next index");
            if i > 0 && fork() {
                n.add_edge(0, i);
                check(n.get_parent_set(i).contains(&0), "edge to a new node");
            }
        }
        check(n.get_number_of_nodes() == k, "number of nodes");
        let l = ["a", "b", "c", "d", "e"];
        for i in 0..k {
            check(n.get_node(i).get_label().as_str() == l[i], "label kept");
            check(n.get_node(i).get_reserved_space_as_parent() == cards[i], "cardinality kept");
        }
        n.initialize_adj_matrix();
        for i in 0..k {
            check(n.get_parent_set(i).is_empty() && n.get_children_set(i).is_empty(), "fresh structure has no edges");
        }
    }

    // params: nodes, edges added, times each edge is added; then one more edge
    fn c02_large() {
        let k = param(0);
        let mut n = net(&vec![2; k]);
        n.initialize_adj_matrix();
        let mut w = vec![vec![false; k]; k];
        let mut rnd = pseudo(k as u32);
        for _ in 0..param(1) {
            let (p, c) = (rnd(k), rnd(k));
            for _ in 0..param(2) {
                n.add_edge(p, c);
            }
            w[p][c] = true;
        }
        agree(&n, &w);
        let at = [0, k / 2, k - 1];
        let (p, c) = (at[choose(3)], at[choose(3)]);
        n.add_edge(p, c);
        w[p][c] = true;
        agree(&n, &w);
    }
}
