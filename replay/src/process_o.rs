//! C04-C06, C22: networks and Markov processes.
use crate::ensure;
use crate::gen::*;
use ndarray::*;
use rand::Rng;
use reCTBN::params::{Params, ParamsTrait};
use reCTBN::process::{ctbn::CtbnNetwork, ctmp::CtmpProcess, NetworkProcess};
use reCTBN::sampling::{ForwardSampler, Sampler};
use std::collections::{BTreeSet, HashMap};

pub fn c04(rng: &mut R, size: usize) -> Result<(), String> {
    let n = rng.gen_range(1..=2 + size);
    let cards = gen_cards(rng, n, 1, 4);
    let d = rng.gen_range(0.0..1.0);
    let mut edges = gen_edges(rng, n, d);
    if rng.gen_bool(0.2) {
        let v = rng.gen_range(0..n);
        edges[v][v] = true;
    }
    let s = NetSpec { cards: cards.clone(), edges, cims: vec![] };
    let net = s.build_structure();
    for c in 0..n {
        let ps = s.parents(c);
        let bs: BTreeSet<usize> = ps.iter().cloned().collect();
        let prod = s.nconf(&ps);
        let mut seen: HashMap<usize, Vec<usize>> = HashMap::new();
        for _ in 0..20 {
            let x = gen_state(rng, &cards);
            let i = net.get_param_index_network(c, &st(&x));
            let j = net.get_param_index_from_custom_parent_set(&st(&x), &bs);
            ensure!(i == j, "network index {} != custom-set index {} for node {} cards {:?} parents {:?} state {:?}", i, j, c, cards, ps, x);
            ensure!(i == s.index(&ps, &x), "index {} of node {} is not the mixed-radix number {} (cards {:?} parents {:?} state {:?})", i, c, s.index(&ps, &x), cards, ps, x);
            ensure!(i < prod, "index {} out of range {}", i, prod);
            let key: Vec<usize> = ps.iter().map(|p| x[*p]).collect();
            if let Some(k) = seen.insert(i, key.clone()) {
                ensure!(k == key, "two configurations {:?} {:?} share index {}", k, key, i);
            }
        }
        let cs = gen_subset(rng, n, None, 0.5);
        let x = gen_state(rng, &cards);
        let v: Vec<usize> = cs.iter().cloned().collect();
        let j = net.get_param_index_from_custom_parent_set(&st(&x), &cs);
        ensure!(j == s.index(&v, &x), "custom-set index {} instead of {} (cards {:?} set {:?} state {:?})", j, s.index(&v, &x), cards, cs, x);
    }
    if rng.gen_bool(0.1) {
        // Place values up to the width of the machine word.
        let big: Vec<usize> = {
            let mut v: Vec<usize> = vec![];
            let mut p: usize = 1;
            while v.len() < 63 {
                let m = rng.gen_range(0..3);
                let k = rng.gen_range(1..=[2, 3, 7][m]);
                match p.checked_mul(k) {
                    Some(q) if q <= isize::MAX as usize => p = q,
                    _ => break,
                }
                v.push(k);
            }
            v
        };
        let k = big.len();
        let mut edges = vec![vec![false; k]; k];
        for e in edges.iter_mut() {
            e[0] = true;
        }
        let s = NetSpec { cards: big.clone(), edges, cims: vec![] };
        let net = s.build_structure();
        let ps: Vec<usize> = (0..k).collect();
        let bs: BTreeSet<usize> = ps.iter().cloned().collect();
        for _ in 0..3 {
            let x = gen_state(rng, &big);
            let (a, b, c) = (net.get_param_index_network(0, &st(&x)), net.get_param_index_from_custom_parent_set(&st(&x), &bs), s.index(&ps, &x));
            ensure!(a == c && b == c, "indices {} (network) and {} (set) instead of {} (cards {:?} state {:?})", a, b, c, big, x);
            let y = CtbnNetwork::idx_to_state(&Array1::from_vec(big.clone()), c).to_vec();
            ensure!(y == x, "idx_to_state({:?}, {}) = {:?}, expected {:?}", big, c, y, x);
        }
    }
    let all: BTreeSet<usize> = (0..n).collect();
    let dom = Array1::from_vec(cards.clone());
    let joint: usize = cards.iter().product();
    for k in 0..joint.min(300) {
        let k = if joint > 300 { rng.gen_range(0..joint) } else { k };
        let a = CtbnNetwork::idx_to_state(&dom, k).to_vec();
        ensure!(a == s.decode(k), "idx_to_state({:?}, {}) = {:?}, expected {:?}", cards, k, a, s.decode(k));
        let b = net.get_param_index_from_custom_parent_set(&st(&a), &all);
        ensure!(b == k, "decode then encode: {} -> {:?} -> {} (cards {:?})", k, a, b, cards);
    }
    Ok(())
}

fn same(a: &Params, cim: &Option<Array3<f64>>, label: &str, card: usize, stats: &Option<(Array3<usize>, Array2<f64>)>) -> bool {
    let Params::DiscreteStatesContinousTime(p) = a;
    p.get_cim() == cim
        && p.get_label() == label
        && p.get_reserved_space_as_parent() == card
        && p.get_transitions() == &stats.as_ref().map(|x| x.0.clone())
        && p.get_residence_time() == &stats.as_ref().map(|x| x.1.clone())
}

pub fn c05(rng: &mut R, size: usize) -> Result<(), String> {
    let mut net = CtbnNetwork::new();
    let mut m: Vec<(String, usize, Option<Array3<f64>>, Option<(Array3<usize>, Array2<f64>)>)> = vec![];
    let mut adj: Option<BTreeSet<(usize, usize)>> = None;
    let mut trace = vec![];
    for step in 0..6 + 8 * size {
        match rng.gen_range(0..10) {
            0 | 1 => {
                let k = rng.gen_range(2..4);
                let l = if rng.gen_bool(0.3) { format!("v{}", rng.gen_range(0..=step)) } else { format!("v{}", step) };
                let mut p = dparams(&l, k);
                if rng.gen_bool(0.5) {
                    p.set_cim(gen_cim(rng, 1, k, false)).unwrap();
                    p.set_transitions(Array3::zeros((1, k, k)));
                    p.set_residence_time(Array2::zeros((1, k)));
                }
                trace.push(format!("add_node({})", l));
                let i = net.add_node(Params::DiscreteStatesContinousTime(p)).map_err(|e| format!("add_node failed {:?}", e))?;
                ensure!(i == m.len(), "add_node returned {} instead of {} after {:?}", i, m.len(), trace);
                m.push((l, k, None, None));
                adj = None;
            }
            2 => {
                trace.push("initialize_adj_matrix".into());
                net.initialize_adj_matrix();
                adj = Some(BTreeSet::new());
            }
            3 | 4 | 5 if !m.is_empty() => {
                let p = rng.gen_range(0..m.len());
                let c = rng.gen_range(0..m.len());
                trace.push(format!("add_edge({},{})", p, c));
                net.add_edge(p, c);
                if adj.is_none() {
                    adj = Some(BTreeSet::new());
                }
                adj.as_mut().unwrap().insert((p, c));
                m[c].2 = None;
                m[c].3 = None;
            }
            _ if !m.is_empty() => {
                let i = rng.gen_range(0..m.len());
                let k = m[i].1;
                let u = rng.gen_range(1..3);
                let cim = gen_cim(rng, u, k, false);
                trace.push(format!("set params of {}", i));
                let Params::DiscreteStatesContinousTime(p) = net.get_node_mut(i);
                p.set_cim(cim.clone()).unwrap();
                m[i].2 = Some(cim);
                if rng.gen_bool(0.5) {
                    let a = Array3::from_elem((u, k, k), step);
                    let b = Array2::from_elem((u, k), step as f64);
                    p.set_transitions(a.clone());
                    p.set_residence_time(b.clone());
                    m[i].3 = Some((a, b));
                }
            }
            _ => {}
        }
        ensure!(net.get_number_of_nodes() == m.len() && net.get_node_indices() == (0..m.len()), "node count wrong after {:?}", trace);
        for (i, x) in m.iter().enumerate() {
            ensure!(same(net.get_node(i), &x.2, &x.0, x.1, &x.3), "node {} does not hold what it should (parameters present: {}) after {:?}", i, x.2.is_some(), trace);
        }
        match &adj {
            None => ensure!(net.get_adj_matrix().is_none(), "edge relation present after {:?}", trace),
            Some(a) => {
                for i in 0..m.len() {
                    let ps: BTreeSet<usize> = a.iter().filter(|e| e.1 == i).map(|e| e.0).collect();
                    let cs: BTreeSet<usize> = a.iter().filter(|e| e.0 == i).map(|e| e.1).collect();
                    ensure!(net.get_parent_set(i) == ps, "parents of {} are {:?}, expected {:?} after {:?}", i, net.get_parent_set(i), ps, trace);
                    ensure!(net.get_children_set(i) == cs, "children of {} are {:?}, expected {:?} after {:?}", i, net.get_children_set(i), cs, trace);
                }
            }
        }
    }
    Ok(())
}

pub fn c06(rng: &mut R, size: usize) -> Result<(), String> {
    let mut s = gen_net(rng, if size > 1 { 4 } else { 3 }, 3, true);
    if s.n() == 1 && rng.gen_bool(0.8) {
        s = gen_net(rng, 4, 4, true);
    }
    if s.joint() > 150 {
        return Ok(());
    }
    if rng.gen_bool(0.15) && s.n() < 4 {
        // some nodes are their own parents
        for i in 0..s.n() {
            if rng.gen_bool(0.5) && !s.edges[i][i] {
                s.edges[i][i] = true;
                s.cims[i] = gen_cim(rng, s.nconf(&s.parents(i)), s.cards[i], true);
            }
        }
    }
    if rng.gen_bool(0.4) {
        // rates of very different magnitude
        for c in s.cims.iter_mut() {
            let f = [1.0, 1e-10, 1e-7, 1e-4, 1e2][rng.gen_range(0..5)];
            c.mapv_inplace(|x| x * f);
        }
    }
    let off = rng.gen_bool(0.3);
    if off {
        // rows that sum to zero within the tolerance only
        for c in s.cims.iter_mut() {
            let (u, k, _) = c.dim();
            for i in 0..u {
                for r in 0..k {
                    c[[i, r, r]] -= 1e-8;
                }
            }
        }
    }
    let net = s.build();
    let ctmp = net.amalgamation();
    let j = s.joint();
    ensure!(ctmp.get_number_of_nodes() == 1, "amalgamated process has {} nodes", ctmp.get_number_of_nodes());
    let Params::DiscreteStatesContinousTime(p) = ctmp.get_node(0);
    ensure!(p.get_reserved_space_as_parent() == j, "domain size {} instead of {}", p.get_reserved_space_as_parent(), j);
    let q = p.get_cim().as_ref().ok_or("no matrix")?;
    ensure!(q.shape() == [1, j, j], "shape {:?}", q.shape());
    ensure!(off || p.validate_params().is_ok(), "amalgamated matrix invalid");
    for a in 0..j {
        let x = s.decode(a);
        for b in 0..j {
            let y = s.decode(b);
            let diff: Vec<usize> = (0..s.n()).filter(|i| x[*i] != y[*i]).collect();
            let want: f64 = match diff.len() {
                0 => (0..s.n()).map(|i| s.cims[i][[s.u(i, &x), x[i], x[i]]]).sum(),
                1 => {
                    let i = diff[0];
                    s.cims[i][[s.u(i, &x), x[i], y[i]]]
                }
                _ => 0.0,
            };
            let tol = if diff.is_empty() { 1e-12 * (0..s.n()).map(|i| s.cims[i][[s.u(i, &x), x[i], x[i]]].abs()).sum::<f64>() } else { 1e-12 * want.abs() };
            ensure!((q[[0, a, b]] - want).abs() <= tol, "rate {:?} -> {:?} is {}, expected {} (spec {:?})", x, y, q[[0, a, b]], want, s);
        }
    }
    for i in 0..s.n() {
        let Params::DiscreteStatesContinousTime(p) = net.get_node(i);
        ensure!(p.get_cim().as_ref() == Some(&s.cims[i]), "amalgamation changed the network");
    }
    Ok(())
}

pub fn c22(rng: &mut R, size: usize) -> Result<(), String> {
    let mut p = CtmpProcess::new();
    ensure!(p.get_number_of_nodes() == 0 && p.get_node_indices() == (0..0), "an empty process reports nodes");
    let k = rng.gen_range(2..=3 + size);
    let cim = gen_cim(rng, 1, k, true);
    let mut d = dparams("first", k);
    let with = rng.gen_bool(0.7);
    if with {
        d.set_cim(cim.clone()).unwrap();
    }
    let stats = if rng.gen_bool(0.5) { Some((Array3::from_elem((1, k, k), 3), Array2::from_elem((1, k), 2.5))) } else { None };
    if let Some((a, b)) = &stats {
        d.set_transitions(a.clone());
        d.set_residence_time(b.clone());
    }
    let r = p.add_node(Params::DiscreteStatesContinousTime(d));
    ensure!(matches!(r, Ok(0)), "first node: {:?}", r);
    for i in 0..rng.gen_range(0..3) {
        let r = p.add_node(dnode(&format!("other{}", i), 2));
        ensure!(r.is_err(), "a second node was accepted: {:?}", r);
    }
    ensure!(p.get_number_of_nodes() == 1 && p.get_node_indices() == (0..1), "node count after adding");
    ensure!(p.get_parent_set(0).is_empty() && p.get_children_set(0).is_empty(), "node 0 has parents or children");
    let want = if with { Some(cim.clone()) } else { None };
    ensure!(same(p.get_node(0), &want, "first", k, &stats), "stored node differs from the one added");
    {
        let Params::DiscreteStatesContinousTime(q) = p.get_node_mut(0);
        ensure!(q.get_label() == "first" && q.get_cim() == &want, "get_node_mut gives another node");
        if !with {
            q.set_cim(cim.clone()).unwrap();
        }
    }
    // simulate from every state
    for s0 in 0..k {
        let seed = rng.gen();
        let cim = &cim;
        let p = &p;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || -> Result<(), String> {
            let mut sm = ForwardSampler::new(p, Some(seed), Some(st(&[s0])));
            let mut prev = sm.next().unwrap();
            ensure!(prev.t == 0.0 && unst(&prev.state) == [s0], "first sample {} {:?}", prev.t, prev.state);
            for _ in 0..20 {
                let c = sm.next().unwrap();
                let (a, b) = (unst(&prev.state)[0], unst(&c.state)[0]);
                ensure!(b < k && a != b && cim[[0, a, b]] > 0.0 && c.t >= prev.t, "infeasible step {} -> {}", a, b);
                prev = c;
            }
            sm.reset();
            Ok(())
        }));
        match r {
            Ok(x) => x?,
            Err(_) => return Err(format!("KNOWN[ctmp-simulation-panics] simulating a one-node process with {} states from state {} panics (seed {})", k, s0, seed)),
        }
    }
    Ok(())
}
