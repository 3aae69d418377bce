//! C20: the amalgamated process is the network's joint process
use crate::symx::*;
use crate::util::*;

fn joint(cards: &[usize], mut i: usize) -> Vec<usize> {
    cards
        .iter()
        .map(|c| {
            let r = i % c;
            i /= c;
            r
        })
        .collect()
}
fn verify(n: &CtbnNetwork, cards: &[usize], e: &[(usize, usize)]) {
    let k = cards.len();
    let size: usize = cards.iter().product();
    let m = n.amalgamation();
    check(m.get_number_of_nodes() == 1 && m.get_node(0).get_reserved_space_as_parent() == size, "one variable with a state per joint state");
    let c = dp(m.get_node(0)).get_cim().clone().unwrap();
    check(c.shape() == [1, size, size], "one intensity matrix over the joint states");
    for s in 0..size {
        let a = joint(cards, s);
        let mut exit = 0.0;
        for t in 0..size {
            let b = joint(cards, t);
            let diff: Vec<usize> = (0..k).filter(|i| a[*i] != b[*i]).collect();
            let got = c[[0, s, t]];
            if diff.len() == 1 {
                let v = diff[0];
                let ps: Vec<usize> = (0..k).filter(|p| e.contains(&(*p, v))).collect();
                let want = dp(n.get_node(v)).get_cim().as_ref().unwrap()[[radix(cards, &ps, &a), a[v], b[v]]];
                check(feq(got, want), "a single change happens at the rate of the variable that changes, given its parents");
                exit += want;
                if ps.len() > 1 {
                    reach("two parents");
                }
            } else if diff.len() > 1 {
                check(got == 0.0, "no two variables change at once");
            }
        }
        check(feq(c[[0, s, s]], -exit), "the diagonal is minus the total rate of leaving");
    }
}

entries! {
    // params: cards code, edges; arbitrary rates
    fn c20_any_rates() {
        let cards: &[usize] = [&[2, 2][..], &[2, 3], &[3, 2], &[2, 2, 2], &[2, 3, 2], &[3, 2, 2], &[3], &[2, 2, 2, 2]][param(0)];
        let mut n = graph_net(cards, param(1));
        set_any_cims(&mut n);
        verify(&n, cards, &edges(cards.len(), param(1)));
    }
    fn c20_index() {
        let d = [2 + choose(3), 1 + choose(3), 2 + choose(2), 1 + choose(2)];
        let i = below(d.iter().product());
        let s = CtbnNetwork::idx_to_state(&Array1::from_vec(d.to_vec()), i);
        let mut w = 1;
        let mut back = 0;
        let mut ok = s.len() == 4;
        for k in 0..4 {
            ok &= s[k] < d[k];
            back += s[k] * w;
            w *= d[k];
        }
        check(ok & (back == i), "every index is a different joint state");
    }

    // params: cards code, edges; fixed rates, one variable's arbitrary
    fn c20_large() {
        let cards: &[usize] = [&[3, 4, 5][..], &[2; 7], &[17, 6], &[2, 3, 4, 5], &[100], &[2; 8]][param(0)];
        let mut n = graph_net(cards, param(1));
        set_tag_cims(&mut n);
        let v = cards.len() - 1;
        if cards[v] < 6 {
            let c = any_cim(n_configs(&n, v), cards[v]);
            dpm(n.get_node_mut(v)).set_cim(c).unwrap();
        }
        verify(&n, cards, &edges(cards.len(), param(1)));
    }

    // params: edges; amalgamated again after rates and structure have changed
    fn c20_again() {
        let cards = [2, 3];
        let mut n = graph_net(&cards, param(0));
        set_tag_cims(&mut n);
        verify(&n, &cards, &edges(2, param(0)));
        set_any_cims(&mut n);
        verify(&n, &cards, &edges(2, param(0)));
        n.add_edge(1, 0);
        n.add_edge(0, 1);
        set_any_cims(&mut n);
        verify(&n, &cards, &[(0, 1), (1, 0)]);
    }
}
