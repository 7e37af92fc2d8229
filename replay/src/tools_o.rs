//! C07-C10, C23: trajectories, sampling, random generators, reproducibility.
use crate::ensure;
use crate::gen::*;
use ndarray::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use reCTBN::params::{Params, ParamsTrait, StateType};
use reCTBN::process::{ctbn::CtbnNetwork, NetworkError, NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::{MonteCarloReward, RewardCriteria};
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::{RewardEvaluation, RewardFunction};
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::tools::*;
use std::collections::BTreeSet;
use std::sync::Mutex;

pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

pub fn c07(rng: &mut R, size: usize) -> Result<(), String> {
    // construction
    let (a, b, v) = (rng.gen_range(0..5), rng.gen_range(0..5), rng.gen_range(0..4));
    let t = Array1::from_shape_fn(a, |i| i as f64 * 0.5 + 0.25);
    let e = Array2::from_shape_fn((b, v), |(i, j)| i * 7 + j);
    let bad = panics(|| Trajectory::new(t.clone(), e.clone()));
    ensure!(bad == (a != b), "Trajectory::new with {} times and {} rows: panics={}", a, b, bad);
    if a == b {
        let x = Trajectory::new(t.clone(), e.clone());
        ensure!(x.get_time() == &t && x.get_events() == &e, "trajectory does not keep its data");
    }
    let m = rng.gen_range(0..5);
    let odd = if m > 1 && rng.gen_bool(0.5) { rng.gen_range(0..m) } else { usize::MAX };
    let w = v + if rng.gen_bool(0.5) { 1 } else { 2 };
    let ts: Vec<Trajectory> = (0..m)
        .map(|i| {
            let l = 1 + i % 3;
            let k = if i == odd { w } else { v };
            Trajectory::new(Array1::from_shape_fn(l, |j| j as f64), Array2::from_shape_fn((l, k), |(x, y)| x + y + i))
        })
        .collect();
    let bad = panics(|| Dataset::new(ts.clone()));
    ensure!(bad == (odd != usize::MAX), "Dataset::new with {} trajectories, odd one {:?}: panics={}", m, odd, bad);
    if !bad {
        let d = Dataset::new(ts.clone());
        ensure!(d.get_trajectories().len() == m, "dataset length");
        for (x, y) in d.get_trajectories().iter().zip(ts.iter()) {
            ensure!(x.get_time() == y.get_time() && x.get_events() == y.get_events(), "dataset does not keep its data");
        }
    }
    // generation
    let s = gen_net(rng, 2 + size.min(4), 4, true);
    let net = s.build();
    let n = [0, 1, 2, 3 + size][rng.gen_range(0..4)];
    let mut scale = 0.0f64;
    for c in &s.cims {
        for x in c.iter() {
            scale = scale.max(x.abs());
        }
    }
    let t_end = [1e-6, 0.3, 5.0, 40.0][rng.gen_range(0..4)] / scale;
    let d = trajectory_generator(&net, n as u64, t_end, Some(rng.gen()));
    ensure!(d.get_trajectories().len() == n, "{} trajectories instead of {}", d.get_trajectories().len(), n);
    for tr in d.get_trajectories() {
        let t = tr.get_time();
        let e = tr.get_events();
        let l = t.len();
        ensure!(l >= 2 && e.shape() == [l, s.n()], "shapes {:?} {:?}", t.shape(), e.shape());
        ensure!(t[0] == 0.0, "starts at {}", t[0]);
        ensure!(t[l - 1] == t_end, "ends at {} instead of {}", t[l - 1], t_end);
        for i in 0..l {
            for j in 0..s.n() {
                ensure!(e[[i, j]] < s.cards[j], "state {} out of the domain of node {}", e[[i, j]], j);
            }
            if i + 1 < l {
                ensure!(t[i] <= t[i + 1], "times decrease: {} then {}", t[i], t[i + 1]);
                let diff = (0..s.n()).filter(|j| e[[i, *j]] != e[[i + 1, *j]]).count();
                if i + 2 == l {
                    ensure!(diff == 0, "last row is not a repetition: {:?} {:?}", e.row(i), e.row(i + 1));
                } else {
                    ensure!(diff == 1, "rows {} and {} differ in {} variables", i, i + 1, diff);
                }
            }
        }
    }
    Ok(())
}

/// A network that records which nodes the sampler looks up.
pub struct Spy {
    pub net: CtbnNetwork,
    pub log: Mutex<Vec<usize>>,
}
impl NetworkProcess for Spy {
    fn initialize_adj_matrix(&mut self) {
        self.net.initialize_adj_matrix()
    }
    fn add_node(&mut self, n: Params) -> Result<usize, NetworkError> {
        self.net.add_node(n)
    }
    fn add_edge(&mut self, p: usize, c: usize) {
        self.net.add_edge(p, c)
    }
    fn get_node_indices(&self) -> std::ops::Range<usize> {
        self.net.get_node_indices()
    }
    fn get_number_of_nodes(&self) -> usize {
        self.net.get_number_of_nodes()
    }
    fn get_node(&self, i: usize) -> &Params {
        self.net.get_node(i)
    }
    fn get_node_mut(&mut self, i: usize) -> &mut Params {
        self.net.get_node_mut(i)
    }
    fn get_param_index_network(&self, n: usize, s: &NetworkProcessState) -> usize {
        self.log.lock().unwrap().push(n);
        self.net.get_param_index_network(n, s)
    }
    fn get_param_index_from_custom_parent_set(&self, s: &Vec<StateType>, p: &BTreeSet<usize>) -> usize {
        self.net.get_param_index_from_custom_parent_set(s, p)
    }
    fn get_parent_set(&self, n: usize) -> BTreeSet<usize> {
        self.net.get_parent_set(n)
    }
    fn get_children_set(&self, n: usize) -> BTreeSet<usize> {
        self.net.get_children_set(n)
    }
}

/// The race semantics with the library's own order of draws, from a clone of its generator.
struct Replica<'a> {
    s: &'a NetSpec,
    rng: ChaCha8Rng,
    t: f64,
    x: Vec<usize>,
    nt: Vec<Option<f64>>,
    init: Option<Vec<usize>>,
    doubtful: bool,
}
impl<'a> Replica<'a> {
    fn new(s: &'a NetSpec, seed: u64, init: Option<Vec<usize>>) -> Self {
        let mut r = Replica { s, rng: ChaCha8Rng::seed_from_u64(seed), t: 0.0, x: vec![], nt: vec![], init, doubtful: false };
        r.reset();
        r
    }
    fn reset(&mut self) {
        self.t = 0.0;
        self.x = match &self.init {
            Some(i) => i.clone(),
            None => self.s.cards.iter().map(|k| self.rng.gen_range(0..*k)).collect(),
        };
        self.nt = vec![None; self.s.n()];
    }
    fn next(&mut self) -> (f64, Vec<usize>) {
        let ret = (self.t, self.x.clone());
        for i in 0..self.s.n() {
            if self.nt[i].is_none() {
                let q = -self.s.cims[i][[self.s.u(i, &self.x), self.x[i], self.x[i]]];
                let u: f64 = self.rng.gen_range(0.0..=1.0);
                self.nt[i] = Some(-u.ln() / q + self.t);
            }
        }
        let mut b = 0;
        for i in 1..self.s.n() {
            if self.nt[i].unwrap() < self.nt[b].unwrap() {
                b = i;
            }
        }
        self.t = self.nt[b].unwrap();
        let u: f64 = self.rng.gen_range(0.0..=1.0);
        let uu = self.s.u(b, &self.x);
        let row: Vec<f64> = (0..self.s.cards[b]).map(|j| self.s.cims[b][[uu, self.x[b], j]]).collect();
        let (nx, near) = crate::params_o::expect_next(&row, self.x[b], u);
        self.doubtful |= near;
        self.x[b] = nx;
        self.nt[b] = None;
        for c in self.s.children(b) {
            self.nt[c] = None;
        }
        ret
    }
}

/// Which variables are rescheduled: exactly the one that moved and its children.
fn schedule_check(s: &NetSpec, seed: u64, init: Option<Vec<usize>>, steps: usize, why: &str) -> Result<(), String> {
    let spy = Spy { net: s.build(), log: Mutex::new(vec![]) };
    let mut sm = ForwardSampler::new(&spy, Some(seed), init.map(|x| st(&x)));
    let mut prev = sm.next().unwrap();
    let mut moved: Option<usize> = None;
    let mut log: Vec<usize> = std::mem::take(&mut *spy.log.lock().unwrap());
    for _ in 0..steps {
        let c = sm.next().unwrap();
        let l2 = std::mem::take(&mut *spy.log.lock().unwrap());
        let (a, b) = (unst(&prev.state), unst(&c.state));
        let diff: Vec<usize> = (0..s.n()).filter(|i| a[*i] != b[*i]).collect();
        ensure!(diff.len() == 1 && c.t >= prev.t, "step {:?} -> {:?} (times {} {})", a, b, prev.t, c.t);
        if let Some(m) = moved {
            let mut ok: BTreeSet<usize> = s.children(m).into_iter().collect();
            ok.insert(m);
            ok.insert(diff[0]);
            ensure!(log.iter().all(|x| ok.contains(x)), "after variable {} moved, the schedule of {:?} was touched; allowed {:?} ({})", m, log, ok, why);
            let need: BTreeSet<usize> = s.children(m).into_iter().chain([m]).collect();
            ensure!(need.iter().all(|x| log.contains(x)), "after variable {} moved, only {:?} were rescheduled; needed {:?} ({})", m, log, need, why);
        }
        moved = Some(diff[0]);
        log = l2;
        prev = c;
    }
    Ok(())
}
fn ctmc_check(s: &NetSpec, rng: &mut R, why: &str) -> Result<(), String> {
    // Draws are consumed in another order than expected: judge the process itself.
    schedule_check(s, rng.gen(), None, 2000, why)?;
    let net = s.build();
    let mut sm = ForwardSampler::new(&net, Some(rng.gen()), None);
    let j = s.joint();
    let n = (3000 * j).min(400_000);
    let mut time = vec![0.0; j];
    let mut visits = vec![0usize; j];
    let mut cnt: std::collections::HashMap<(usize, usize), usize> = Default::default();
    let all: Vec<usize> = (0..s.n()).collect();
    let mut prev = sm.next().unwrap();
    for _ in 0..n {
        let c = sm.next().unwrap();
        let (a, b) = (unst(&prev.state), unst(&c.state));
        let (ia, ib) = (s.index(&all, &a), s.index(&all, &b));
        time[ia] += c.t - prev.t;
        visits[ia] += 1;
        *cnt.entry((ia, ib)).or_insert(0) += 1;
        prev = c;
    }
    for a in 0..j {
        if visits[a] < 200 {
            continue;
        }
        let x = s.decode(a);
        let q: f64 = (0..s.n()).map(|i| -s.cims[i][[s.u(i, &x), x[i], x[i]]]).sum();
        let v = visits[a] as f64;
        ensure!((time[a] * q / v - 1.0).abs() < 7.0 / v.sqrt(), "mean stay in {:?} is {} instead of {} ({})", x, time[a] / v, 1.0 / q, why);
        for b in 0..j {
            let y = s.decode(b);
            let d: Vec<usize> = (0..s.n()).filter(|i| x[*i] != y[*i]).collect();
            if d.len() == 1 {
                let p = s.cims[d[0]][[s.u(d[0], &x), x[d[0]], y[d[0]]]] / q;
                let k = *cnt.get(&(a, b)).unwrap_or(&0) as f64;
                ensure!((k - p * v).abs() < 7.0 * (p * (1.0 - p) * v).sqrt() + 4.0, "{:?} -> {:?}: {} of {} moves, expected share {} ({})", x, y, k, v, p, why);
            }
        }
    }
    Ok(())
}

pub fn c08(rng: &mut R, size: usize) -> Result<(), String> {
    let s = gen_net(rng, 2 + size.min(4), 4, true);
    let net = s.build();
    let seed: u64 = rng.gen();
    let init = if rng.gen_bool(0.6) { Some(gen_state(rng, &s.cards)) } else { None };
    let mut sm = ForwardSampler::new(&net, Some(seed), init.as_ref().map(|x| st(x)));
    let mut rp = Replica::new(&s, seed, init.clone());
    let mut off: Option<String> = None;
    for round in 0..3 {
        let len = [1, 4, 30][rng.gen_range(0..3)];
        let mut prev: Option<(f64, Vec<usize>)> = None;
        for step in 0..len {
            let x = sm.next().ok_or("sampler ended")?;
            let (t, v) = (x.t, unst(&x.state));
            match &prev {
                None => {
                    ensure!(t == 0.0, "first sample at time {}", t);
                    ensure!(v.len() == s.n() && (0..s.n()).all(|i| v[i] < s.cards[i]), "first state {:?} outside domains {:?}", v, s.cards);
                    if let Some(i) = &init {
                        ensure!(&v == i, "first state {:?} instead of {:?}", v, i);
                    }
                }
                Some((pt, pv)) => {
                    ensure!(t >= *pt, "time goes back {} -> {}", pt, t);
                    let d: Vec<usize> = (0..s.n()).filter(|i| pv[*i] != v[*i]).collect();
                    ensure!(d.len() == 1, "{:?} -> {:?} differ in {} variables", pv, v, d.len());
                    let r = s.cims[d[0]][[s.u(d[0], pv), pv[d[0]], v[d[0]]]];
                    ensure!(r > 0.0, "{:?} -> {:?} has rate {}", pv, v, r);
                }
            }
            if off.is_none() {
                let (et, ev) = rp.next();
                if !(close(t, et) && v == ev) {
                    off = Some(format!("round {} step {}: got ({}, {:?}), race gives ({}, {:?}); cards {:?} edges {:?} seed {} init {:?}", round, step, t, v, et, ev, s.cards, s.edges, seed, init));
                }
            }
            prev = Some((t, v));
        }
        sm.reset();
        rp.reset();
    }
    if rp.doubtful {
        return Ok(());
    }
    if let Some(why) = off {
        schedule_check(&s, seed, init.clone(), 300, &why)?;
        let mut s = s;
        let mut tries = 0;
        while s.n() < 2 || s.joint() > 40 {
            s = gen_net(rng, 3, 3, true);
            tries += 1;
            if tries > 1000 {
                break;
            }
        }
        // rates of one scale so that every state is visited
        for i in 0..s.n() {
            let (u, k, _) = s.cims[i].dim();
            let mut a = Array3::zeros((u, k, k));
            for x in 0..u {
                for y in 0..k {
                    let mut t = 0.0;
                    for z in 0..k {
                        if y != z {
                            a[[x, y, z]] = rng.gen_range(0.2..3.0);
                            t += a[[x, y, z]];
                        }
                    }
                    a[[x, y, y]] = -t;
                }
            }
            s.cims[i] = a;
        }
        ctmc_check(&s, rng, &why)?;
        // a whole class of schedules
        let mut s2 = s.clone();
        for r in s2.edges.iter_mut() {
            for e in r.iter_mut() {
                *e = false;
            }
        }
        for i in 0..s2.n() {
            let k = s2.cards[i];
            s2.cims[i] = s2.cims[i].slice(s![0..1, .., ..]).to_owned();
            assert_eq!(s2.cims[i].dim(), (1, k, k));
        }
        ctmc_check(&s2, rng, &why)?;
        for _ in 0..3 {
            reset_check(rng, &why)?;
        }
        first_state_check(rng, &why)?;
    }
    Ok(())
}
/// After a reset the first move depends on the initial state only.
fn reset_check(rng: &mut R, why: &str) -> Result<(), String> {
    let n = rng.gen_range(1..=5);
    let cards = gen_cards(rng, n, 2, 3);
    let d = [0.0, 0.0, 0.2, 0.5][rng.gen_range(0..4)];
    let mut s = NetSpec { cards: cards.clone(), edges: gen_edges(rng, n, d), cims: vec![] };
    let x0 = gen_state(rng, &cards);
    for i in 0..n {
        let u = s.nconf(&s.parents(i));
        let k = cards[i];
        // slow in the initial value, fast in the others
        let mut a = Array3::zeros((u, k, k));
        for x in 0..u {
            for y in 0..k {
                let f = if y == x0[i] { 0.3 } else { 3.0 };
                let mut t = 0.0;
                for z in 0..k {
                    if y != z {
                        a[[x, y, z]] = f * rng.gen_range(0.5..1.5);
                        t += a[[x, y, z]];
                    }
                }
                a[[x, y, y]] = -t;
            }
        }
        s.cims.push(a);
    }
    let net = s.build();
    let q: Vec<f64> = (0..n).map(|i| -s.cims[i][[s.u(i, &x0), x0[i], x0[i]]]).collect();
    let tot: f64 = q.iter().sum();
    let mut sm = ForwardSampler::new(&net, Some(rng.gen()), Some(st(&x0)));
    let m = 6000;
    let mut sum = 0.0;
    let mut below = 0usize;
    let mut win = vec![0usize; n];
    for _ in 0..m {
        sm.reset();
        let a = sm.next().unwrap();
        ensure!(a.t == 0.0 && unst(&a.state) == x0, "after a reset: {} {:?} instead of 0 and {:?} ({})", a.t, a.state, x0, why);
        let b = sm.next().unwrap();
        let y = unst(&b.state);
        let diff: Vec<usize> = (0..n).filter(|i| y[*i] != x0[*i]).collect();
        ensure!(diff.len() == 1 && b.t >= 0.0, "after a reset: {:?} -> {:?} at {} ({})", x0, y, b.t, why);
        win[diff[0]] += 1;
        sum += b.t * tot;
        below += (b.t * tot < std::f64::consts::LN_2) as usize;
        for _ in 0..rng.gen_range(0..6) {
            sm.next();
        }
    }
    let m = m as f64;
    ensure!((sum / m - 1.0).abs() < 7.0 / m.sqrt() && (below as f64 - m / 2.0).abs() < 3.5 * m.sqrt(), "after a reset the first stay in {:?} is not exponential with rate {}: scaled mean {}, {} of {} below the median; cards {:?} edges {:?} ({})", x0, tot, sum / m, below, m, cards, s.edges, why);
    for i in 0..n {
        let p = q[i] / tot;
        ensure!((win[i] as f64 - p * m).abs() < 7.0 * (p * (1.0 - p) * m).sqrt() + 4.0, "after a reset variable {} moves first {} times out of {}, expected share {} ({})", i, win[i], m, p, why);
    }
    Ok(())
}
fn first_state_check(rng: &mut R, why: &str) -> Result<(), String> {
    let mut s = gen_net(rng, 3, 4, false);
    while s.joint() < 4 || s.joint() > 40 {
        s = gen_net(rng, 3, 4, false);
    }
    let net = s.build();
    let all: Vec<usize> = (0..s.n()).collect();
    let mut cnt = vec![0usize; s.joint()];
    let mut sm = ForwardSampler::new(&net, Some(rng.gen()), None);
    for _ in 0..300 * s.joint() {
        sm.reset();
        cnt[s.index(&all, &unst(&sm.next().unwrap().state))] += 1;
    }
    ensure!(cnt.iter().all(|c| (*c as f64 - 300.0).abs() < 7.0 * 300f64.sqrt()), "initial states are not spread over the domains: {:?} ({})", cnt, why);
    Ok(())
}

fn edges_of(net: &CtbnNetwork) -> Vec<Vec<bool>> {
    let n = net.get_number_of_nodes();
    (0..n).map(|p| (0..n).map(|c| net.get_children_set(p).contains(&c)).collect()).collect()
}

pub fn c09(rng: &mut R, size: usize) -> Result<(), String> {
    let bad = [-0.1, 1.0 + 1e-9, 2.0, f64::INFINITY, f64::NEG_INFINITY, -1e-300, f64::NAN];
    for d in bad {
        ensure!(panics(|| <UniformGraphGenerator as RandomGraphGenerator>::new(d, Some(1))), "density {} accepted", d);
    }
    let d = [0.0, 1.0, rng.gen_range(0.0..1.0)][rng.gen_range(0..3)];
    ensure!(!panics(|| <UniformGraphGenerator as RandomGraphGenerator>::new(d, Some(1))), "density {} refused", d);
    let s = gen_net(rng, 3 + size.min(5), 3, false);
    let mut net = s.build();
    let mut g = <UniformGraphGenerator as RandomGraphGenerator>::new(d, Some(rng.gen()));
    g.generate_graph(&mut net);
    let n = s.n();
    ensure!(net.get_number_of_nodes() == n, "node set changed");
    let check = |net: &CtbnNetwork| -> Result<(), String> {
        for i in 0..n {
            let Params::DiscreteStatesContinousTime(p) = net.get_node(i);
            ensure!(p.get_label() == &format!("n{}", i) && p.get_reserved_space_as_parent() == s.cards[i], "node {} changed", i);
        }
        let e = edges_of(net);
        for p in 0..n {
            ensure!(!e[p][p], "self-loop on {}", p);
            for c in 0..n {
                ensure!(d != 0.0 || !e[p][c], "density 0 but edge {} -> {} (before: {:?})", p, c, s.edges);
                ensure!(d != 1.0 || p == c || e[p][c], "density 1 but no edge {} -> {}", p, c);
                ensure!(net.get_parent_set(c).contains(&p) == e[p][c], "parents and children disagree");
            }
        }
        Ok(())
    };
    check(&net)?;
    if rng.gen_bool(0.05) {
        // very small densities: edges still appear, at the given rate
        let n = 70;
        let d = 10f64.powf(rng.gen_range(-4.5..-2.0));
        let s = gen_net(rng, 1, 2, false);
        let big = NetSpec { cards: vec![s.cards[0]; n], edges: vec![vec![false; n]; n], cims: vec![] };
        let mut net = big.build_structure();
        let mut g = <UniformGraphGenerator as RandomGraphGenerator>::new(d, Some(rng.gen()));
        let (mut c, m) = (0usize, 150);
        for _ in 0..m {
            g.generate_graph(&mut net);
            c += edges_of(&net).iter().flatten().filter(|x| **x).count();
        }
        let w = d * (m * n * (n - 1)) as f64;
        ensure!((c as f64 - w).abs() <= 8.0 * w.sqrt() + 8.0, "{} edges in {} graphs over {} nodes of density {}, expected about {}", c, m, n, d, w);
    }
    if rng.gen_bool(0.05) {
        // many nodes: every pair appears sometimes and is missing sometimes
        let n = 26;
        let d = rng.gen_range(0.3..0.7);
        let big = NetSpec { cards: vec![2; n], edges: vec![vec![false; n]; n], cims: vec![] };
        let mut net = big.build_structure();
        let mut g = <UniformGraphGenerator as RandomGraphGenerator>::new(d, Some(rng.gen()));
        let m = 150;
        let mut one = vec![vec![0usize; n]; n];
        for _ in 0..m {
            g.generate_graph(&mut net);
            for (p, r) in edges_of(&net).iter().enumerate() {
                for (c, x) in r.iter().enumerate() {
                    one[p][c] += *x as usize;
                }
            }
        }
        for p in 0..n {
            for c in 0..n {
                ensure!(p == c || (one[p][c] > 0 && one[p][c] < m), "edge {} -> {} appeared {} times in {} graphs over {} nodes of density {}", p, c, one[p][c], m, n, d);
            }
        }
    }
    if n >= 2 {
        // frequencies, pairwise dependence, and dependence on what was there before
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|p| (0..n).map(move |c| (p, c))).filter(|(p, c)| p != c).collect();
        let k = pairs.len();
        let m = if size > 3 { 6000 } else { 1500 };
        let mut one = vec![0usize; k];
        let mut two = vec![vec![0usize; k]; k];
        let mut lag = vec![0usize; k];
        let mut last = vec![false; k];
        for it in 0..m {
            if it % 7 == 3 {
                net.add_edge(pairs[it % k].0, pairs[it % k].1);
            }
            g.generate_graph(&mut net);
            let e = edges_of(&net);
            check(&net)?;
            let v: Vec<bool> = pairs.iter().map(|(p, c)| e[*p][*c]).collect();
            for i in 0..k {
                if v[i] {
                    one[i] += 1;
                    lag[i] += (it > 0 && last[i]) as usize;
                    for j in 0..i {
                        if v[j] {
                            two[i][j] += 1;
                        }
                    }
                }
            }
            last = v;
        }
        let dev = |c: usize, p: f64| (c as f64 - p * m as f64).abs() > 7.0 * (p * (1.0 - p) * m as f64).sqrt() + 3.0;
        for i in 0..k {
            ensure!(!dev(one[i], d), "edge {:?} appeared {} times in {} graphs of density {}", pairs[i], one[i], m, d);
            ensure!((lag[i] as f64 - d * d * m as f64).abs() <= 10.0 * (d * d * m as f64).sqrt() + 5.0, "edge {:?} depends on the previous graph: {} repeats in {} at density {}", pairs[i], lag[i], m, d);
            for j in 0..i {
                ensure!(!dev(two[i][j], d * d), "edges {:?} and {:?} appeared together {} times in {} graphs of density {}", pairs[i], pairs[j], two[i][j], m, d);
            }
        }
    }
    Ok(())
}

pub fn c10(rng: &mut R, size: usize) -> Result<(), String> {
    for (a, b) in [(-0.1, 1.0), (1.0, -0.1), (-2.0, -1.0), (f64::NAN, 1.0), (1.0, f64::NAN), (-1e-300, 1.0)] {
        ensure!(panics(|| <UniformParametersGenerator as RandomParametersGenerator>::new(a..b, Some(1))), "interval {}..{} accepted", a, b);
    }
    let a = [0.0, 1e-3, rng.gen_range(0.0..5.0), 100.0, 1e-9, 1e-6][rng.gen_range(0..6)];
    let b = a + [1e-3, 1.0, 10.0, 1e4, 1e-10, 1e-7][rng.gen_range(0..6)];
    let mut s = gen_net(rng, 2 + size.min(4), 4, false);
    if rng.gen_bool(0.2) {
        // some nodes are their own parents
        for i in 0..s.n() {
            if rng.gen_bool(0.5) && !s.edges[i][i] {
                s.edges[i][i] = true;
                s.cims[i] = gen_cim(rng, s.nconf(&s.parents(i)), s.cards[i], false);
            }
        }
    }
    let with = rng.gen_bool(0.5);
    let mut net = if with { s.build() } else { s.build_structure() };
    let mut g = <UniformParametersGenerator as RandomParametersGenerator>::new(a..b, Some(rng.gen()));
    g.generate_parameters(&mut net);
    ensure!(edges_of(&net) == s.edges, "graph changed");
    for i in 0..s.n() {
        let Params::DiscreteStatesContinousTime(p) = net.get_node(i);
        ensure!(p.get_label() == &format!("n{}", i) && p.get_reserved_space_as_parent() == s.cards[i], "node {} changed", i);
        let c = p.get_cim().as_ref().ok_or(format!("node {} got no matrix", i))?;
        let k = s.cards[i];
        let u = s.nconf(&s.parents(i));
        ensure!(c.shape() == [u, k, k], "node {} has shape {:?}, expected {:?}", i, c.shape(), [u, k, k]);
        for x in 0..u {
            for y in 0..k {
                let mut t = 0.0;
                for z in 0..k {
                    let v = c[[x, y, z]];
                    ensure!(v.is_finite() && (y == z || v >= 0.0), "entry {} off the diagonal at {:?} (interval {}..{})", v, (i, x, y, z), a, b);
                    t += v;
                }
                ensure!(t.abs() <= 1e-12 * b, "row sums to {} (interval {}..{})", t, a, b);
                let q = -c[[x, y, y]];
                ensure!(q >= a * (1.0 - 1e-9) && q <= b * (1.0 + 1e-9), "exit rate {} outside {}..{}", q, a, b);
            }
        }
        if a > 0.0 && b < 1e3 {
            ensure!(p.validate_params().is_ok(), "generated parameters invalid");
        }
    }
    Ok(())
}

fn bits(d: &Dataset) -> Vec<(Vec<u64>, Vec<usize>)> {
    d.get_trajectories()
        .iter()
        .map(|t| (t.get_time().iter().map(|x| x.to_bits()).collect(), t.get_events().iter().cloned().collect()))
        .collect()
}
fn cims(n: &CtbnNetwork) -> Vec<Vec<u64>> {
    n.get_node_indices()
        .map(|i| {
            let Params::DiscreteStatesContinousTime(p) = n.get_node(i);
            p.get_cim().as_ref().map(|c| c.iter().map(|x| x.to_bits()).collect()).unwrap_or_default()
        })
        .collect()
}

pub fn c23(rng: &mut R, size: usize) -> Result<(), String> {
    let mut s = gen_net(rng, 2 + size.min(3), 3, true);
    while s.n() < 2 {
        s = gen_net(rng, 3, 3, true);
    }
    let mut scale = 0.0f64;
    for c in &s.cims {
        for x in c.iter() {
            scale = scale.max(x.abs());
        }
    }
    // the second run happens after other draws, on another thread
    let twice = |f: &(dyn Fn() -> String + Sync)| -> (String, String) {
        let a = f();
        let _: u64 = rand::thread_rng().gen();
        let b = std::thread::scope(|s| s.spawn(|| f()).join().unwrap());
        (a, b)
    };
    let seeds: [u64; 4] = [0, 1, u64::MAX, rng.gen()];
    let seed = seeds[rng.gen_range(0..4)];
    let other = seed.wrapping_add(1 + rng.gen_range(0..1000));
    // sometimes more variables than the rest of the run has
    let wide = if rng.gen_bool(0.15) { Some(rng.gen_range(9..40)) } else { None };
    let mk_net = || match wide {
        None => s.build_structure(),
        Some(n) => NetSpec { cards: vec![2; n], edges: (0..n).map(|p| (0..n).map(|c| p + 1 == c).collect()).collect(), cims: vec![] }.build_structure(),
    };
    let mk_graph = |seed: u64| {
        let mut net = mk_net();
        let mut g = <UniformGraphGenerator as RandomGraphGenerator>::new(0.5, Some(seed));
        let mut out = vec![];
        for _ in 0..8 {
            g.generate_graph(&mut net);
            out.push(edges_of(&net));
        }
        format!("{:?}", out)
    };
    let (a, b) = twice(&|| mk_graph(seed));
    ensure!(a == b, "same seed {} gave different graphs\n{}\n{}", seed, a, b);
    let differ_g = (0..6).any(|i| mk_graph(other.wrapping_add(i)) != a);
    ensure!(differ_g, "graphs do not depend on the seed");
    let mk_par = |seed: u64| {
        let mut net = mk_net();
        let mut g = <UniformParametersGenerator as RandomParametersGenerator>::new(0.5..7.0, Some(seed));
        g.generate_parameters(&mut net);
        let x = cims(&net);
        g.generate_parameters(&mut net);
        format!("{:?} {:?}", x, cims(&net))
    };
    let (a, b) = twice(&|| mk_par(seed));
    ensure!(a == b, "same seed {} gave different parameters", seed);
    ensure!(mk_par(other) != a, "parameters do not depend on the seed");
    let net = s.build();
    let init = if rng.gen_bool(0.5) { Some(gen_state(rng, &s.cards)) } else { None };
    let mk_smp = |seed: u64| {
        let mut sm = ForwardSampler::new(&net, Some(seed), init.as_ref().map(|x| st(x)));
        let mut out = vec![];
        for _ in 0..3 {
            for _ in 0..15 {
                let x = sm.next().unwrap();
                out.push((x.t.to_bits(), unst(&x.state)));
            }
            sm.reset();
        }
        format!("{:?}", out)
    };
    let (a, b) = twice(&|| mk_smp(seed));
    ensure!(a == b, "same seed {} gave different samples", seed);
    ensure!(mk_smp(other) != a, "samples do not depend on the seed");
    let mk_trj = |seed: u64| format!("{:?}", bits(&trajectory_generator(&net, 4, 8.0 / scale, Some(seed))));
    let (a, b) = twice(&|| mk_trj(seed));
    ensure!(a == b, "same seed {} gave different trajectories", seed);
    let differ_t = (0..6).any(|i| mk_trj(other.wrapping_add(i)) != a);
    ensure!(differ_t, "trajectories do not depend on the seed");
    if s.joint() <= 64 {
        let mut rf = FactoredRewardFunction::initialize_from_network_process(&net);
        for i in 0..s.n() {
            let k = s.cards[i];
            rf.get_instantaneous_reward_mut(i).assign(&Array1::from_shape_fn(k, |_| rng.gen_range(-1.0..3.0)));
            rf.get_transition_reward_mut(i).assign(&Array2::from_shape_fn((k, k), |_| rng.gen_range(-1.0..3.0)));
        }
        let fin = rng.gen_bool(0.5);
        let stop = if rng.gen_bool(0.5) { 0.0 } else { 0.3 };
        let mk_rew = |seed: u64, threads: usize| {
            let crit = if fin { RewardCriteria::FiniteHorizon } else { RewardCriteria::InfiniteHorizon { discount_factor: 0.3 * scale } };
            let mc = MonteCarloReward::new(12, 0.5, stop, 4.0 / scale, crit, Some(seed));
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            let m = pool.install(|| mc.evaluate_state_space(&net, &rf));
            let mut v: Vec<(Vec<usize>, u64)> = m.iter().map(|(k, v)| (unst(k), v.to_bits())).collect();
            v.sort();
            format!("{:?}", v)
        };
        let a = mk_rew(seed, 1);
        for th in [1, 2, 5] {
            let b = mk_rew(seed, th);
            ensure!(a == b, "same seed {} gave different reward estimates with {} threads\n{}\n{}", seed, th, a, b);
        }
        let differ_r = (0..6).any(|i| mk_rew(other.wrapping_add(i), 3) != a);
        ensure!(differ_r, "reward estimates do not depend on the seed");
    }
    Ok(())
}
