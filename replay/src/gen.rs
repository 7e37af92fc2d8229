//! Input generators: networks, matrices, datasets. Every choice comes from the case's own RNG.
use ndarray::*;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use reCTBN::params::{DiscreteStatesContinousTimeParams as DP, Params, StateType};
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess};
use reCTBN::tools::{Dataset, Trajectory};
use std::collections::BTreeSet;

pub type R = ChaCha8Rng;

pub fn dparams(label: &str, card: usize) -> DP {
    DP::new(label.to_string(), (0..card).map(|x| x.to_string()).collect())
}
pub fn dnode(label: &str, card: usize) -> Params {
    Params::DiscreteStatesContinousTime(dparams(label, card))
}

#[derive(Clone, Debug)]
pub struct NetSpec {
    pub cards: Vec<usize>,
    /// edges[p][c]
    pub edges: Vec<Vec<bool>>,
    pub cims: Vec<Array3<f64>>,
}

impl NetSpec {
    pub fn n(&self) -> usize {
        self.cards.len()
    }
    pub fn parents(&self, c: usize) -> Vec<usize> {
        (0..self.n()).filter(|p| self.edges[*p][c]).collect()
    }
    pub fn children(&self, p: usize) -> Vec<usize> {
        (0..self.n()).filter(|c| self.edges[p][*c]).collect()
    }
    pub fn index(&self, ps: &[usize], st: &[usize]) -> usize {
        let mut k = 0;
        let mut m = 1;
        for p in ps {
            k += st[*p] * m;
            m *= self.cards[*p];
        }
        k
    }
    pub fn u(&self, c: usize, st: &[usize]) -> usize {
        self.index(&self.parents(c), st)
    }
    pub fn nconf(&self, ps: &[usize]) -> usize {
        ps.iter().map(|p| self.cards[*p]).product()
    }
    pub fn build_structure(&self) -> CtbnNetwork {
        let mut net = CtbnNetwork::new();
        for (i, c) in self.cards.iter().enumerate() {
            net.add_node(dnode(&format!("n{}", i), *c)).unwrap();
        }
        net.initialize_adj_matrix();
        for p in 0..self.n() {
            for c in 0..self.n() {
                if self.edges[p][c] {
                    net.add_edge(p, c);
                }
            }
        }
        net
    }
    pub fn build(&self) -> CtbnNetwork {
        let mut net = self.build_structure();
        for i in 0..self.n() {
            let Params::DiscreteStatesContinousTime(p) = net.get_node_mut(i);
            p.set_cim(self.cims[i].clone()).unwrap();
        }
        net
    }
    pub fn joint(&self) -> usize {
        self.cards.iter().product()
    }
    pub fn decode(&self, mut k: usize) -> Vec<usize> {
        self.cards
            .iter()
            .map(|c| {
                let r = k % c;
                k /= c;
                r
            })
            .collect()
    }
}

/// A valid row-generator block; `zeros` allows zero off-diagonal rates (at least one stays positive).
pub fn gen_block(rng: &mut R, k: usize, zeros: bool) -> Array2<f64> {
    let scale = [1.0, 1.0, 10.0, 0.05, 1e3][rng.gen_range(0..5)];
    let mut a = Array2::zeros((k, k));
    for i in 0..k {
        let mut s = 0.0;
        let keep = loop {
            let j = rng.gen_range(0..k);
            if j != i || k == 1 {
                break j;
            }
        };
        for j in 0..k {
            if j != i {
                let v = if zeros && j != keep && rng.gen_bool(0.5) {
                    0.0
                } else {
                    scale * rng.gen_range(0.05..1.0)
                };
                a[[i, j]] = v;
                s += v;
            }
        }
        a[[i, i]] = -s;
    }
    a
}
pub fn gen_cim(rng: &mut R, u: usize, k: usize, zeros: bool) -> Array3<f64> {
    let mut a = Array3::zeros((u, k, k));
    for i in 0..u {
        let b = gen_block(rng, k, zeros);
        a.index_axis_mut(Axis(0), i).assign(&b);
    }
    relayout3(rng, a)
}
/// Same contents, possibly Fortran order or a permuted-axes layout.
pub fn relayout3<T: Clone + Default>(rng: &mut R, a: Array3<T>) -> Array3<T> {
    let (x, y, z) = a.dim();
    match rng.gen_range(0..3) {
        0 => a,
        1 => {
            let mut b = Array3::from_elem((x, y, z).f(), T::default());
            b.assign(&a);
            b
        }
        _ => {
            let mut b = Array3::from_elem((z, x, y), T::default()).permuted_axes([1, 2, 0]);
            b.assign(&a);
            b
        }
    }
}
pub fn gen_cards(rng: &mut R, n: usize, lo: usize, hi: usize) -> Vec<usize> {
    (0..n).map(|_| rng.gen_range(lo..=hi)).collect()
}
pub fn gen_edges(rng: &mut R, n: usize, d: f64) -> Vec<Vec<bool>> {
    (0..n)
        .map(|p| (0..n).map(|c| p != c && rng.gen_bool(d)).collect())
        .collect()
}
pub fn gen_net(rng: &mut R, nmax: usize, cmax: usize, zeros: bool) -> NetSpec {
    let star = nmax > 3 && rng.gen_bool(0.12);
    let n = if star { nmax + rng.gen_range(0..4) } else { rng.gen_range(1..=nmax) };
    let cards = gen_cards(rng, n, 2, if star { 2 } else { cmax });
    let d = [0.0, 0.3, 0.5, 0.8, 1.0][rng.gen_range(0..5)];
    let edges = if star {
        // one node with all the others as children or as parents
        let hub = rng.gen_range(0..n);
        let out = rng.gen_bool(0.5);
        (0..n).map(|p| (0..n).map(|c| p != c && (if out { p } else { c }) == hub).collect()).collect()
    } else {
        gen_edges(rng, n, d)
    };
    let mut s = NetSpec { cards, edges, cims: vec![] };
    for i in 0..n {
        let u = s.nconf(&s.parents(i));
        let k = s.cards[i];
        s.cims.push(gen_cim(rng, u, k, zeros));
    }
    s
}
pub fn gen_state(rng: &mut R, cards: &[usize]) -> Vec<usize> {
    cards.iter().map(|c| rng.gen_range(0..*c)).collect()
}
pub fn st(v: &[usize]) -> Vec<StateType> {
    v.iter().map(|x| StateType::Discrete(*x)).collect()
}
pub fn unst(v: &[StateType]) -> Vec<usize> {
    v.iter()
        .map(|x| match x {
            StateType::Discrete(x) => *x,
        })
        .collect()
}
#[derive(Clone, Debug)]
pub struct DataSpec {
    pub times: Vec<Vec<f64>>,
    pub rows: Vec<Vec<Vec<usize>>>,
}
impl DataSpec {
    pub fn build(&self, n: usize) -> Dataset {
        Dataset::new(
            self.times
                .iter()
                .zip(self.rows.iter())
                .map(|(t, r)| {
                    let mut a = Array2::zeros((r.len(), n));
                    for (i, x) in r.iter().enumerate() {
                        for (j, v) in x.iter().enumerate() {
                            a[[i, j]] = *v;
                        }
                    }
                    Trajectory::new(Array1::from_vec(t.clone()), a)
                })
                .collect(),
        )
    }
}
/// `multi`: several variables may change in one row.
pub fn gen_data(rng: &mut R, cards: &[usize], multi: bool, max_tr: usize, max_len: usize) -> DataSpec {
    let ntr = rng.gen_range(1..=max_tr);
    let mut d = DataSpec { times: vec![], rows: vec![] };
    let scale = [1.0, 1.0, 1.0, 1e-8, 1e-3, 1e7][rng.gen_range(0..6)];
    for _ in 0..ntr {
        let len = rng.gen_range(1..=max_len);
        let mut t = if rng.gen_bool(0.7) { 0.0 } else { scale * rng.gen_range(0.0..5.0) };
        let mut s = gen_state(rng, cards);
        let mut ts = vec![];
        let mut rs = vec![];
        for _ in 0..len {
            ts.push(t);
            rs.push(s.clone());
            t += if rng.gen_bool(0.1) { 0.0 } else { scale * rng.gen_range(0.001..2.0) };
            let k = if multi { rng.gen_range(0..=cards.len()) } else { 1 };
            for _ in 0..k {
                let v = rng.gen_range(0..cards.len());
                s[v] = rng.gen_range(0..cards[v]);
            }
        }
        d.times.push(ts);
        d.rows.push(rs);
    }
    d
}
pub fn gen_subset(rng: &mut R, n: usize, not: Option<usize>, d: f64) -> BTreeSet<usize> {
    (0..n).filter(|x| Some(*x) != not && rng.gen_bool(d)).collect()
}
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a.is_finite() && b.is_finite()) && (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
