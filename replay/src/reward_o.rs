//! C19-C21: rewards.
use crate::ensure;
use crate::gen::*;
use ndarray::*;
use rand::Rng;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::*;
use reCTBN::reward::reward_function::FactoredRewardFunction;
use reCTBN::reward::*;
use reCTBN::sampling::{ForwardSampler, Sampler};
use std::collections::{BTreeMap, HashMap};

fn rewards(rng: &mut R, s: &NetSpec, net: &CtbnNetwork) -> (FactoredRewardFunction, Vec<Array1<f64>>, Vec<Array2<f64>>) {
    let mut rf = FactoredRewardFunction::initialize_from_network_process(net);
    let (mut a, mut b) = (vec![], vec![]);
    for i in 0..s.n() {
        let k = s.cards[i];
        let x = Array1::from_shape_fn(k, |_| if rng.gen_bool(0.1) { 0.0 } else { rng.gen_range(-2.0..5.0) });
        let y = Array2::from_shape_fn((k, k), |_| if rng.gen_bool(0.1) { 0.0 } else { rng.gen_range(-2.0..5.0) });
        rf.get_instantaneous_reward_mut(i).assign(&x);
        rf.get_transition_reward_mut(i).assign(&y);
        a.push(x);
        b.push(y);
    }
    (rf, a, b)
}

pub fn c19(rng: &mut R, size: usize) -> Result<(), String> {
    let mut s = gen_net(rng, 2 + size.min(6), 5, false);
    let single = rng.gen_bool(0.3);
    if single {
        // single-valued variables have no valid matrix
        let i = rng.gen_range(0..s.n());
        s.cards[i] = 1;
    }
    let net = if single { s.build_structure() } else { s.build() };
    let z = FactoredRewardFunction::initialize_from_network_process(&net);
    for i in 0..s.n() {
        let k = s.cards[i];
        ensure!(z.get_instantaneous_reward(i) == &Array1::<f64>::zeros(k) && z.get_transition_reward(i) == &Array2::<f64>::zeros((k, k)), "initial tables of node {} are not zero or have the wrong size: {:?} {:?}", i, z.get_instantaneous_reward(i), z.get_transition_reward(i));
    }
    let (mut rf, mut a, b) = rewards(rng, &s, &net);
    if rng.gen_bool(0.3) {
        // values that are never or always wanted
        for _ in 0..2 {
            let i = rng.gen_range(0..s.n());
            let x = rng.gen_range(0..s.cards[i]);
            let v = [f64::INFINITY, f64::NEG_INFINITY, 1e300, 1e-300][rng.gen_range(0..4)];
            rf.get_instantaneous_reward_mut(i)[x] = v;
            a[i][x] = v;
        }
    }
    let mut b = b;
    if rng.gen_bool(0.3) {
        for _ in 0..2 {
            let i = rng.gen_range(0..s.n());
            let k = s.cards[i];
            let v = [f64::INFINITY, f64::NEG_INFINITY, f64::MIN, f64::MAX, -1e200, 1e-300][rng.gen_range(0..6)];
            // nearly all transitions of the node
            for x in 0..k {
                for y in 0..k {
                    if rng.gen_bool(0.7) {
                        rf.get_transition_reward_mut(i)[[x, y]] = v;
                        b[i][[x, y]] = v;
                    }
                }
            }
        }
    }
    for i in 0..s.n() {
        ensure!(rf.get_instantaneous_reward(i) == &a[i] && rf.get_transition_reward(i) == &b[i], "tables of node {} differ from what was assigned", i);
    }
    for _ in 0..20 {
        let x = gen_state(rng, &s.cards);
        let ir: f64 = (0..s.n()).map(|i| a[i][x[i]]).sum();
        let r = rf.call(&st(&x), None);
        ensure!(close(r.instantaneous_reward, ir) && r.transition_reward == 0.0, "reward of {:?} is {:?}, expected {} and 0", x, r, ir);
        let r = rf.call(&st(&x), Some(&st(&x)));
        ensure!(close(r.instantaneous_reward, ir) && r.transition_reward == 0.0, "reward of {:?} from itself is {:?}", x, r);
        let mut y = x.clone();
        let i = rng.gen_range(0..s.n());
        if s.cards[i] < 2 {
            continue;
        }
        y[i] = (y[i] + rng.gen_range(1..s.cards[i])) % s.cards[i];
        let r = rf.call(&st(&x), Some(&st(&y)));
        ensure!(close(r.instantaneous_reward, ir) && r.transition_reward == b[i][[y[i], x[i]]], "reward of {:?} -> {:?} is {:?}, expected {} and {}", y, x, r, ir, b[i][[y[i], x[i]]]);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Crit {
    Fin,
    Inf(f64),
}
fn lib(c: Crit) -> RewardCriteria {
    match c {
        Crit::Fin => RewardCriteria::FiniteHorizon,
        Crit::Inf(g) => RewardCriteria::InfiniteHorizon { discount_factor: g },
    }
}
/// the return of one run from the samples (t, state), the last of them at or beyond the end
fn ret(run: &[(f64, Vec<usize>)], end: f64, c: Crit, a: &[Array1<f64>], b: &[Array2<f64>]) -> f64 {
    let w = |x: f64, y: f64| match c {
        Crit::Fin => y - x,
        Crit::Inf(g) => ((-g * x).exp() - (-g * y).exp()) / g,
    };
    let d = |t: f64| match c {
        Crit::Fin => 1.0,
        Crit::Inf(g) => (-g * t).exp(),
    };
    let mut r = 0.0;
    for k in 0..run.len() {
        let (t, x) = &run[k];
        if *t >= end {
            break;
        }
        let next = if k + 1 < run.len() { run[k + 1].0.min(end) } else { end };
        let ir: f64 = x.iter().enumerate().map(|(i, v)| a[i][*v]).sum();
        r += w(*t, next) * ir;
        if k + 1 < run.len() && run[k + 1].0 <= end {
            let y = &run[k + 1].1;
            let i = (0..x.len()).find(|i| x[*i] != y[*i]).unwrap();
            r += d(run[k + 1].0) * b[i][[x[i], y[i]]];
        }
    }
    r
}
fn simulate(net: &CtbnNetwork, seed: u64, x0: &[usize], runs: usize, end: f64, c: Crit, a: &[Array1<f64>], b: &[Array2<f64>]) -> Vec<f64> {
    let mut sm = ForwardSampler::new(net, Some(seed), Some(st(x0)));
    (0..runs)
        .map(|_| {
            sm.reset();
            let mut run = vec![];
            loop {
                let x = sm.next().unwrap();
                let t = x.t;
                run.push((t, unst(&x.state)));
                if t >= end {
                    break;
                }
            }
            ret(&run, end, c, a, b)
        })
        .collect()
}

pub fn c20(rng: &mut R, size: usize) -> Result<(), String> {
    let mut s = gen_net(rng, 2 + size.min(2), 3, true);
    while s.joint() > 60 {
        s = gen_net(rng, 2 + size.min(2), 3, true);
    }
    let net = s.build();
    let mut scale = 0.0f64;
    for c in &s.cims {
        for x in c.iter() {
            scale = scale.max(x.abs());
        }
    }
    let (rf, a, b) = rewards(rng, &s, &net);
    let end = [0.0, 0.5, 3.0, 10.0][rng.gen_range(0..4)] / scale;
    let crit = if rng.gen_bool(0.5) { Crit::Fin } else { Crit::Inf([0.05, 0.5, 2.0][rng.gen_range(0..3)] * scale) };
    let max = [1, 2, 3, 6, 20][rng.gen_range(0..5)];
    let alpha = if rng.gen_bool(0.4) { 0.0 } else { [0.05, 0.5, 1.0][rng.gen_range(0..3)] };
    let err = [1e-3, 0.3, 5.0][rng.gen_range(0..3)];
    let seed: u64 = rng.gen();
    let mc = MonteCarloReward::new(max, err, alpha, end, lib(crit), Some(seed));
    let all = mc.evaluate_state_space(&net, &rf);
    ensure!(all.len() == s.joint(), "{} entries for {} joint states", all.len(), s.joint());
    for k in 0..s.joint() {
        let x = s.decode(k);
        let v = *all.get(&st(&x)).ok_or(format!("no entry for {:?}", x))?;
        let one = mc.evaluate_state(&net, &rf, &st(&x));
        ensure!(v.to_bits() == one.to_bits(), "state {:?}: {} in the state space, {} alone", x, v, one);
        let r = simulate(&net, seed, &x, max, end, crit, &a, &b);
        let mut acc = 0.0;
        let mut hit = false;
        let mut means = vec![];
        for (i, q) in r.iter().enumerate() {
            acc += q;
            let m = acc / (i + 1) as f64;
            means.push(m);
            if (alpha > 0.0 || i + 1 == max) && (m - v).abs() <= 1e-8 * (1.0 + m.abs() + r.iter().fold(0.0f64, |x, y| x.max(y.abs()))) {
                hit = true;
            }
        }
        if !hit {
            // maybe other draws: compare expectations
            let why = format!("state {:?} of {:?} edges {:?}: estimate {} is the mean of no prefix of the runs {:?} (means {:?}); end {} criteria {:?} max {} alpha {} err {} seed {} instantaneous {:?} transition {:?} cims {:?}", x, s.cards, s.edges, v, r, means, end, crit, max, alpha, err, seed, a, b, s.cims);
            for m in [1usize, 3] {
                let n = 6000;
                let mine: Vec<f64> = (0..n).map(|i| simulate(&net, seed ^ (i as u64 * 7919 + 13), &x, m, end, crit, &a, &b).iter().sum::<f64>() / m as f64).collect();
                let its: Vec<f64> = (0..n).map(|i| MonteCarloReward::new(m, err, 0.0, end, lib(crit), Some(seed ^ (i as u64 * 104729 + 29))).evaluate_state(&net, &rf, &st(&x))).collect();
                let mean = |v: &[f64]| v.iter().sum::<f64>() / v.len() as f64;
                let var = |v: &[f64], m: f64| v.iter().map(|x| (x - m).powi(2)).sum::<f64>() / v.len() as f64;
                let (m1, m2) = (mean(&mine), mean(&its));
                let (v1, v2) = (var(&mine, m1), var(&its, m2));
                let se = ((v1 + v2) / n as f64).sqrt();
                ensure!((m1 - m2).abs() <= 6.0 * se + 1e-9 * (1.0 + m1.abs()), "expected value {} instead of {} with {} runs ({})", m2, m1, m, why);
                ensure!((v1 - v2).abs() <= 0.35 * (v1 + v2) + 1e-12, "variance {} instead of {} with {} runs ({})", v2, v1, m, why);
            }
        }
    }
    Ok(())
}

struct Given(Vec<(Vec<usize>, f64)>);
impl RewardEvaluation for Given {
    fn evaluate_state_space<N: NetworkProcess, T: RewardFunction>(&self, _n: &N, _r: &T) -> HashMap<NetworkProcessState, f64> {
        self.0.iter().map(|(k, v)| (st(k), *v)).collect()
    }
    fn evaluate_state<N: NetworkProcess, T: RewardFunction>(&self, _n: &N, _r: &T, s: &NetworkProcessState) -> f64 {
        self.0.iter().find(|x| st(&x.0) == *s).unwrap().1
    }
}

pub fn c21(rng: &mut R, size: usize) -> Result<(), String> {
    let mut s = gen_net(rng, 2 + size.min(3), 4, false);
    while s.joint() > 200 {
        s = gen_net(rng, 2 + size.min(3), 3, false);
    }
    let net = s.build();
    let (rf, _, _) = rewards(rng, &s, &net);
    let keep = if rng.gen_bool(0.3) { 0.6 } else { 1.0 };
    let wild = rng.gen_bool(0.4);
    let mut m: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
    for k in 0..s.joint() {
        if rng.gen_bool(keep) {
            let v = if wild { [0.0, -1.5, f64::INFINITY, 3.0, 1e-300, rng.gen_range(-4.0..4.0)][rng.gen_range(0..6)] } else { [rng.gen_range(0.01..10.0), 1.0, rng.gen_range(0.9..1.1)][rng.gen_range(0..3)] };
            m.insert(s.decode(k), v);
        }
    }
    let g = NeighborhoodRelativeReward::new(Given(m.iter().map(|(k, v)| (k.clone(), *v)).collect())).evaluate_state_space(&net, &rf);
    ensure!(g.len() == m.len(), "{} states reported instead of {}", g.len(), m.len());
    for (k, v) in &m {
        let mut w = 1.0f64;
        for (k2, v2) in &m {
            if (0..s.n()).filter(|i| k[*i] != k2[*i]).count() < 2 {
                w = w.max(v / v2);
            }
        }
        let x = g.get(&st(k)).ok_or(format!("state {:?} missing", k))?;
        ensure!(close(*x, w), "relative reward of {:?} is {}, expected {}; inner {:?}", k, x, w, m);
    }
    Ok(())
}
