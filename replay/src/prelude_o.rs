//! The contracts of contracts/a_prelude.rs (assumed in the proofs) against the installed libraries.
//! A finite sample: it exercises the assumptions, it does not prove them.
use crate::gen::R;
use itertools::Itertools;
use ndarray::prelude::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use statrs::distribution::{ChiSquared, ContinuousCDF, FisherSnedecor, Normal};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap};

macro_rules! must {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!("trusted contract does not hold: {}", format!($($a)*))); } };
}
fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
const SP: [f64; 7] = [0.0, 1.0, -1.0, 2.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
fn same(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || near(a, b)
}
/// The model's operations, written from the prelude's spec functions.
fn m_add(a: f64, b: f64) -> f64 {
    match (fin(a), fin(b)) {
        (true, true) => a + b,
        _ if a.is_nan() || b.is_nan() => f64::NAN,
        (false, false) if a != b => f64::NAN,
        (true, _) => b,
        _ => a,
    }
}
fn fin(a: f64) -> bool {
    a.is_finite()
}
fn sg(a: f64) -> i32 {
    if a.is_nan() || a == 0.0 { 0 } else if a > 0.0 { 1 } else { -1 }
}
fn m_mul(a: f64, b: f64) -> f64 {
    if fin(a) && fin(b) { a * b } else if a.is_nan() || b.is_nan() { f64::NAN } else {
        match sg(a) * sg(b) { 1 => f64::INFINITY, -1 => f64::NEG_INFINITY, _ => f64::NAN }
    }
}
/// None: the model leaves the value open (division of a non-zero number by a zero of unknown sign).
fn m_div(a: f64, b: f64) -> Option<f64> {
    if a.is_nan() || b.is_nan() { return Some(f64::NAN); }
    match (fin(a), fin(b)) {
        (true, true) => if b != 0.0 { Some(a / b) } else if a == 0.0 { Some(f64::NAN) } else { None },
        (true, false) => Some(0.0),
        (false, true) => if b > 0.0 { Some(a) } else if b < 0.0 { Some(-a) } else { None },
        _ => Some(f64::NAN),
    }
}
fn floats(g: &mut R) -> Result<(), String> {
    let mut xs = SP.to_vec();
    for _ in 0..4 { xs.push(g.gen_range(-8.0..8.0)); }
    for &a in &xs {
        must!(same(a.abs(), if a.is_nan() { a } else if a < 0.0 { -a } else { a }), "abs {a}");
        let l = a.ln();
        must!(if a.is_nan() || a < 0.0 { l.is_nan() } else if a == 0.0 { l == f64::NEG_INFINITY } else { a.is_infinite() && l == f64::INFINITY || l.is_finite() }, "ln {a}");
        must!(!(a > 0.0 && a <= 1.0) || l <= 0.0, "ln {a} <= 0");
        let q = a.sqrt();
        must!(if a.is_nan() || a < 0.0 { q.is_nan() } else { same(q * q, a) && q >= 0.0 && (a == 0.0 || q > 0.0) }, "sqrt {a}");
        must!(same(a.powi(2), a * a) && same(a.powi(1), a), "powi {a}");
        must!(same(a.recip(), 1.0 / a) && same(a.exp(), std::f64::consts::E.powf(a)), "recip, exp {a}");
        must!(a.is_finite() == !(a.is_nan() || a == f64::INFINITY || a == f64::NEG_INFINITY), "is_finite {a}");
        for &b in &xs {
            must!(same(a + b, m_add(a, b)) && same(a - b, m_add(a, -b)) && same(a * b, m_mul(a, b)), "arithmetic of {a} and {b}");
            if let Some(d) = m_div(a, b) { must!(same(a / b, d), "{a} / {b}"); }
            let lt = !a.is_nan() && !b.is_nan() && a != b && (a == f64::NEG_INFINITY || b == f64::INFINITY || (fin(a) && fin(b) && a - b < 0.0));
            must!((a < b) == lt, "{a} < {b}");
            let c = if a.is_nan() || b.is_nan() { None } else if a == b { Some(Ordering::Equal) } else if lt { Some(Ordering::Less) } else { Some(Ordering::Greater) };
            must!(a.partial_cmp(&b) == c && (a == b) == (c == Some(Ordering::Equal)), "comparison of {a} and {b}");
            must!(same(a.max(b), if a.is_nan() { b } else if b.is_nan() { a } else if lt { b } else { a }), "max of {a} and {b}");
            must!(same(a.min(b), if a.is_nan() { b } else if b.is_nan() { a } else if b < a { b } else { a }), "min of {a} and {b}");
            if a > 0.0 && fin(a) && fin(b) { must!(a.powf(b) > 0.0, "{a} ^ {b} > 0"); }
            must!(same(a.mul_add(b, 1.0), m_add(m_mul(a, b), 1.0)), "mul_add {a} {b}");
        }
    }
    must!(std::f64::consts::E > 2.0 && f64::EPSILON > 0.0 && f64::MIN == -f64::MAX, "constants");
    Ok(())
}
fn arrays(g: &mut R) -> Result<(), String> {
    let (a, b, c) = (g.gen_range(0..4usize), g.gen_range(0..4usize), g.gen_range(0..4usize));
    let v: Vec<f64> = (0..a * b * c).map(|_| g.gen_range(-4.0..4.0)).collect();
    let t = Array::from_iter(v.clone()).into_shape((a, b, c)).unwrap();
    must!(t.shape() == [a, b, c] && t.dim() == (a, b, c), "shape");
    for u in 0..a { for i in 0..b { for j in 0..c {
        must!(t[[u, i, j]] == v[(u * b + i) * c + j], "flat order of a 3-d array");
    } } }
    for ax in 0..3 {
        let d = [a, b, c];
        must!(t.len_of(Axis(ax)) == d[ax] && t.axis_iter(Axis(ax)).len() == d[ax], "axis length");
        for (k, s) in t.axis_iter(Axis(ax)).enumerate() {
            let s2 = t.index_axis(Axis(ax), k);
            must!(s.dim() == s2.dim(), "axis_iter shape");
            for ((x, y), e) in s.indexed_iter() {
                let w = match ax { 0 => t[[k, x, y]], 1 => t[[x, k, y]], _ => t[[x, y, k]] };
                must!(*e == w && s2[[x, y]] == w, "axis {ax} slice {k}");
            }
        }
    }
    let s = t.sum_axis(Axis(2));
    must!(s.dim() == (a, b), "sum_axis shape");
    for u in 0..a { for i in 0..b {
        must!(near(s[[u, i]], (0..c).map(|j| t[[u, i, j]]).sum()), "sum_axis(2)");
        let r = t.slice(s![u, i, ..]);
        must!(r.len() == c && (0..c).all(|j| r[j] == t[[u, i, j]]), "slice u,i,..");
    } }
    let m = t.mapv(|x| x * 2.0);
    must!(m.dim() == t.dim() && t.indexed_iter().all(|(k, x)| m[k] == x * 2.0), "mapv 3-d");
    for ax in 0..3 {
        let mut w = t.clone();
        let d = [a, b, c];
        if d[ax] == 0 { continue; }
        let k = g.gen_range(0..d[ax]);
        let x = t.index_axis(Axis(ax), k).mapv(|x| x + 100.0);
        w.index_axis_mut(Axis(ax), k).assign(&x);
        for (p, e) in w.indexed_iter() {
            let q = [p.0, p.1, p.2];
            must!(*e == t[p] + if q[ax] == k { 100.0 } else { 0.0 }, "assignment to one slice");
        }
    }
    // two dimensions
    let v2: Vec<f64> = (0..a * b).map(|_| g.gen_range(-4.0..4.0)).collect();
    let q = Array2::from_shape_vec((a, b), v2.clone()).unwrap();
    must!(Array2::from_shape_vec((a, b + 1), v2.clone()).is_ok() == (a * (b + 1) == v2.len()), "from_shape_vec checks the length");
    must!(q.nrows() == a && q.ncols() == b && q.iter().copied().collect_vec() == v2, "row-major iteration");
    must!(q.indexed_iter().enumerate().all(|(k, ((i, j), x))| k == i * b + j && *x == v2[k]), "indexed_iter order");
    must!(q.iter().enumerate().all(|(k, x)| *x == q[[k / b, k % b]]), "row-major index");
    for i in 0..a { must!(q.row(i).len() == b && (0..b).all(|j| q.row(i)[j] == q[[i, j]]), "row"); }
    for j in 0..b { must!(q.column(j).len() == a && (0..a).all(|i| q.column(j)[i] == q[[i, j]]), "column"); }
    must!(q.diag().len() == a.min(b) && (0..a.min(b)).all(|i| q.diag()[i] == q[[i, i]]), "diag");
    let (s0, s1) = (q.sum_axis(Axis(0)), q.sum_axis(Axis(1)));
    must!(s0.len() == b && s1.len() == a, "sum_axis lengths");
    must!((0..b).all(|j| near(s0[j], (0..a).map(|i| q[[i, j]]).sum())) && (0..a).all(|i| near(s1[i], (0..b).map(|j| q[[i, j]]).sum())), "sum_axis of a matrix");
    let mut f = q.clone();
    f.diag_mut().fill(7.0);
    must!(f.indexed_iter().all(|((i, j), x)| *x == if i == j { 7.0 } else { q[[i, j]] }), "diag_mut().fill");
    if a == b {
        let d = Array1::from_iter((0..a).map(|_| g.gen_range(0.0..1.0)));
        f.diag_mut().assign(&d);
        must!(f.indexed_iter().all(|((i, j), x)| *x == if i == j { d[i] } else { q[[i, j]] }), "diag_mut().assign");
    }
    let mut z = q.clone();
    let row = s1.clone().mapv(|x| x + 20.0).insert_axis(Axis(1));
    must!(row.dim() == (a, 1) && (0..a).all(|i| row[[i, 0]] == s1[i] + 20.0), "insert_axis(1)");
    let top = s0.clone().insert_axis(Axis(0));
    must!(top.dim() == (1, b) && (0..b).all(|j| top[[0, j]] == s0[j]), "insert_axis(0)");
    z /= &row;
    must!(z.indexed_iter().all(|((i, j), x)| same(*x, q[[i, j]] / row[[i, 0]])), "/= broadcasts a column");
    let mut z = q.clone();
    z *= &row;
    must!(z.indexed_iter().all(|((i, j), x)| same(*x, q[[i, j]] * row[[i, 0]])), "*= broadcasts a column");
    for (name, got, want) in [
        ("+", &q + &row, q.indexed_iter().map(|((i, _), x)| x + row[[i, 0]]).collect_vec()),
        ("-", &q - &row, q.indexed_iter().map(|((i, _), x)| x - row[[i, 0]]).collect_vec()),
        ("*", &q * &row, q.indexed_iter().map(|((i, _), x)| x * row[[i, 0]]).collect_vec()),
        ("/", &q / &row, q.indexed_iter().map(|((i, _), x)| x / row[[i, 0]]).collect_vec()),
    ] {
        must!(got.dim() == q.dim() && got.iter().zip(&want).all(|(x, y)| same(*x, *y)), "matrix {name} column");
    }
    must!((&q * 2.0).iter().zip(&v2).all(|(x, y)| same(*x, *y * 2.0)) && (&q + 2.0).iter().zip(&v2).all(|(x, y)| same(*x, *y + 2.0)), "matrix and scalar");
    let sh = Array1::from(v2.clone()).into_shape((v2.len(), 1));
    must!(sh.is_ok() && sh.as_ref().unwrap().dim() == (v2.len(), 1) && sh.unwrap().iter().copied().collect_vec() == v2, "into_shape((n, 1))");
    let zs: Array3<f64> = Array3::zeros((a, b, c));
    must!(zs.dim() == (a, b, c) && zs.iter().all(|x| *x == 0.0) && Array::<usize, _>::zeros((a, b)).iter().all(|x| *x == 0), "zeros");
    // one dimension
    let n: Array1<usize> = (0..a + b).map(|_| g.gen_range(0..9usize)).collect();
    let k: Array1<usize> = (0..a + b).map(|_| g.gen_range(0..9usize)).collect();
    must!(n.sum() == n.iter().fold(0, |x, y| x + y) && n.product() == n.iter().fold(1, |x, y| x * y), "sum, product");
    must!(n.dot(&k) == n.iter().zip(&k).fold(0, |s, (x, y)| s + x * y), "dot");
    must!(n.len() == a + b && n.shape() == [a + b] && n.dim() == a + b && n.is_empty() == (a + b == 0), "length");
    let mut w = n.clone();
    w.fill(3);
    must!(w.len() == n.len() && w.iter().all(|x| *x == 3) && n.indexed_iter().all(|(i, x)| *x == n[i]), "fill, indexed_iter");
    let neg = -s1.clone();
    must!(neg.iter().zip(&s1).all(|(x, y)| *x == -*y), "negation");
    Ok(())
}
fn collections(g: &mut R) -> Result<(), String> {
    let v: Vec<usize> = (0..g.gen_range(0..9)).map(|_| g.gen_range(0..9)).collect();
    let s: BTreeSet<usize> = v.iter().copied().collect();
    let o = s.iter().copied().collect_vec();
    must!(o.windows(2).all(|w| w[0] < w[1]) && o.len() == s.len() && v.iter().all(|x| o.contains(x)) && o.iter().all(|x| v.contains(x)), "order of a set");
    must!(s.iter().copied().collect_vec() == s.clone().into_iter().collect_vec(), "the order depends on the elements only");
    let mut t = s.clone();
    let x = g.gen_range(0..9);
    must!(t.insert(x) == !s.contains(&x) && t.contains(&x) && t.len() == s.len() + usize::from(!s.contains(&x)), "insert");
    must!(t.remove(&x) && !t.contains(&x) && !t.remove(&x) && t.is_empty() == (t.len() == 0), "remove");
    must!((s == t) == (s.iter().collect_vec() == t.iter().collect_vec()), "set equality");
    let ps: Vec<(usize, usize)> = v.iter().map(|k| (*k, g.gen_range(0..100))).collect();
    let m: HashMap<usize, usize> = ps.iter().copied().collect();
    for k in 0..9 {
        must!(m.get(&k).copied() == ps.iter().rev().find(|p| p.0 == k).map(|p| p.1) && m.contains_key(&k) == v.contains(&k), "the last value of a key is kept");
    }
    let mut m2 = m.clone();
    must!(m2.insert(x, 7) == m.get(&x).copied() && m2[&x] == 7 && (0..9).all(|k| k == x || m.get(&k) == m2.get(&k)), "map insert");
    must!(m.iter().map(|e| *e.0).collect::<BTreeSet<_>>() == s && m.len() == s.len() && m.iter().count() == s.len(), "map iteration");
    m2.clear();
    must!(m2.is_empty(), "clear");
    let n = g.gen_range(0..6usize);
    let k = g.gen_range(0..7usize);
    let cs: Vec<Vec<usize>> = (0..n).map(|x| x * 3).combinations(k).collect();
    let sets: BTreeSet<BTreeSet<usize>> = cs.iter().map(|c| c.iter().copied().collect()).collect();
    must!(cs.iter().all(|c| c.len() == k && c.iter().collect::<BTreeSet<_>>().len() == k && c.iter().all(|x| x % 3 == 0 && x / 3 < n)), "combinations are subsets");
    let want = (0..1usize << n).filter(|b| b.count_ones() as usize == k).count();
    must!(sets.len() == want, "combinations reach every subset of that size ({n} over {k})");
    let i = g.gen_range(0..12usize);
    must!(v.iter().rev().copied().collect_vec() == { let mut w = v.clone(); w.reverse(); w }, "rev");
    must!(v.iter().skip(i).copied().collect_vec() == v.get(i..).unwrap_or(&[]) && v.iter().take(i).copied().collect_vec() == &v[..i.min(v.len())], "skip, take");
    must!((3..i).collect_vec().len() == i.saturating_sub(3) && (3..i).enumerate().all(|(a, b)| b == 3 + a), "ranges");
    must!(vec![5; i] == (0..i).map(|_| 5).collect_vec(), "vec![x; n]");
    let mut e = v.clone();
    e.extend(o.clone());
    must!(e.len() == v.len() + o.len() && e[..v.len()] == v[..] && e[v.len()..] == o[..], "extend");
    let w = g.gen_range(0..4usize);
    let rect: Vec<Vec<usize>> = (0..i).map(|r| (0..w).map(|c| r * 10 + c).collect()).collect();
    let fl = rect.iter().flatten().copied().collect_vec();
    must!(fl.len() == i * w && fl.iter().enumerate().all(|(k, x)| *x == rect[k / w][k % w]), "flatten");
    let (a, b): (usize, usize) = (g.gen(), g.gen());
    must!((a.to_string() == b.to_string()) == (a == b) && a.to_string() == a.to_string(), "decimal strings");
    let (mut p, mut r) = (vec![1], vec![2]);
    std::mem::swap(&mut p, &mut r);
    must!(p == [2] && r == [1] && std::mem::replace(&mut p, vec![9]) == [2] && p == [9], "swap, replace");
    Ok(())
}
fn random(g: &mut R) -> Result<(), String> {
    let seed = g.gen();
    let (mut a, mut b) = (ChaCha8Rng::seed_from_u64(seed), ChaCha8Rng::seed_from_u64(seed));
    for _ in 0..40 {
        must!(a == b, "the state after a draw depends on the seed and the draws before");
        let (lo, w) = (g.gen_range(-3.0..3.0), g.gen_range(0.001..4.0));
        let x: f64 = a.gen_range(lo..lo + w);
        must!(x >= lo && x < lo + w && x == b.gen_range(lo..lo + w), "gen_range of floats");
        let x: f64 = a.gen_range(lo..=lo + w);
        must!(x >= lo && x <= lo + w && x == b.gen_range(lo..=lo + w), "inclusive gen_range of floats");
        let (n, m) = (g.gen_range(0..5usize), g.gen_range(1..5usize));
        let x = a.gen_range(n..n + m);
        must!(x >= n && x < n + m && x == b.gen_range(n..n + m), "gen_range of integers");
        // same value through the inclusive range with the same bounds
        let mut c = a.clone();
        must!(a.gen_range(n..n + m + 1) == c.gen_range(n..=n + m) && a == c, "a..=b draws as a..b+1");
        b = a.clone();
        let x: f64 = a.gen();
        must!((0.0..1.0).contains(&x) && x == b.gen::<f64>(), "gen::<f64>()");
        must!(!a.gen_bool(0.0) && a.gen_bool(1.0), "gen_bool at 0 and 1");
        b = a.clone();
        let p = g.gen_range(0.0..=1.0);
        must!(a.gen_bool(p) == b.gen_bool(p), "gen_bool");
        b = a.clone();
    }
    Ok(())
}
fn distributions(g: &mut R) -> Result<(), String> {
    let xs = [-1.0, 0.0, 1.0, 2.0, 0.25];
    for &a in &xs { for &b in &xs {
        must!(FisherSnedecor::new(a, b).is_ok() == (a > 0.0 && b > 0.0), "FisherSnedecor::new({a}, {b})");
    } }
    for a in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        must!(FisherSnedecor::new(a, 1.0).is_err() && FisherSnedecor::new(1.0, a).is_err(), "FisherSnedecor::new({a}, 1)");
    }
    for a in [-1.0, 0.0, 0.5, 3.0] {
        must!(ChiSquared::new(a).is_ok() == (a > 0.0), "ChiSquared::new({a})");
    }
    must!(Normal::new(0.0, 1.0).is_ok(), "Normal::new(0, 1)");
    let (d1, d2, x) = (g.gen_range(1..20) as f64, g.gen_range(1..20) as f64, g.gen_range(0.01..6.0));
    let y = x + g.gen_range(0.01..1.0);
    let (f, c, n) = (FisherSnedecor::new(d1, d2).unwrap(), ChiSquared::new(d1).unwrap(), Normal::new(0.0, 1.0).unwrap());
    must!(f.cdf(x) == FisherSnedecor::new(d1, d2).unwrap().cdf(x) && f.cdf(x) <= f.cdf(y) + 1e-12 && (0.0..=1.0 + 1e-12).contains(&f.cdf(x)), "F cdf");
    must!(c.cdf(x) <= c.cdf(y) + 1e-12 && n.cdf(x) <= n.cdf(y) + 1e-12 && (n.cdf(x) + n.cdf(-x) - 1.0).abs() < 1e-9, "chi-squared and normal cdf");
    for k in 1..12u64 {
        let f: f64 = (1..k).map(|x| x as f64).product();
        must!((statrs::function::gamma::ln_gamma(k as f64) - f.ln()).abs() < 1e-9, "ln_gamma({k})");
    }
    Ok(())
}
fn further(g: &mut R) -> Result<(), String> {
    let (a, b) = (g.gen_range(0..50usize), g.gen_range(1..9usize));
    must!(b.pow(3) == b * b * b && a.abs_diff(b) == a.max(b) - a.min(b), "pow, abs_diff");
    must!((a as u64).count_ones() == (0..64).filter(|i| a >> i & 1 == 1).count() as u32 && a.is_power_of_two() == (a.count_ones() == 1), "bits");
    must!(a.leading_zeros() <= 64 && a.trailing_zeros() <= 64 && a.next_power_of_two() >= a && b.ilog2() < 64, "bit counts");
    must!((a + b - 1) / b == if a % b == 0 { a / b } else { a / b + 1 } && a.rem_euclid(b) == a % b, "division");
    let mut o = g.gen::<bool>().then_some(a);
    let q = g.gen::<bool>().then_some(b);
    must!(o.or(q) == if o.is_some() { o } else { q } && o.and(q) == if o.is_some() { q } else { None }, "or, and");
    must!(o.xor(q) == match (o, q) { (Some(_), None) => o, (None, Some(_)) => q, _ => None } && o.zip(q) == match (o, q) { (Some(x), Some(y)) => Some((x, y)), _ => None }, "xor, zip");
    let old = o;
    must!(o.replace(7) == old && o == Some(7), "replace");
    must!(Err::<usize, ()>(()).unwrap_or(a) == a && Ok::<usize, ()>(b).unwrap_or(a) == b, "unwrap_or");
    let mut v: Vec<usize> = (0..b).map(|_| g.gen_range(0..6)).collect();
    let w = v.clone();
    must!(v.contains(&a) == v.iter().any(|x| *x == a), "contains");
    v.reverse();
    must!((0..b).all(|i| v[i] == w[b - 1 - i]), "reverse");
    v.swap(0, b - 1);
    must!(v[0] == w[0] && v[b - 1] == w[b - 1], "swap");
    v.sort();
    must!((0..6).all(|x| v.iter().filter(|y| **y == x).count() == w.iter().filter(|y| **y == x).count()), "sort permutes");
    must!(std::cmp::min(a, b) == if a <= b { a } else { b } && std::cmp::max(a, b) == if a <= b { b } else { a }, "min, max");
    let mut t = w.clone();
    must!(std::mem::take(&mut t) == w && t.is_empty(), "take");
    let s: BTreeSet<usize> = w.iter().copied().collect();
    let u: BTreeSet<usize> = v.iter().copied().take(2).collect();
    must!(s.first() == w.iter().min() && s.last() == w.iter().max() && BTreeSet::<usize>::default().is_empty(), "first and last of a set");
    must!(u.is_subset(&s) && s.is_superset(&u) && s.is_disjoint(&u) == u.iter().all(|x| !s.contains(x)), "subset, superset, disjoint");
    let mut m: HashMap<usize, usize> = w.iter().map(|x| (*x, x + 1)).collect();
    let had = m.get(&w[0]).copied();
    must!(m.remove(&w[0]) == had && !m.contains_key(&w[0]) && m.is_empty() == (s.len() == 1), "map remove");
    let arr = Array1::from(w.clone());
    must!(arr.to_vec() == w && arr.first() == w.first() && arr.last() == w.last() && arr.get(a) == w.get(a), "array1 accessors");
    must!(Array2::<f64>::zeros((a, b)).len() == a * b && Array3::<f64>::zeros((2, a, b)).len() == 2 * a * b, "array length");
    for x in [g.gen_range(-9.0..9.0), 2.0, -3.0, 0.5, -0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        if fin(x) {
            must!(x.floor() <= x && x < x.floor() + 1.0 && x.ceil() - 1.0 < x && x <= x.ceil() && (x - x.round()).abs() <= 0.5, "floor, ceil, round of {x}");
            must!((x < 0.0 || (x.trunc() <= x && x < x.trunc() + 1.0)) && near(x.fract(), x - x.trunc()), "trunc, fract of {x}");
            must!(x < 0.0 || (x as usize as f64 <= x && x < x as usize as f64 + 1.0), "{x} as usize");
        } else {
            must!(same(x.floor(), x) && same(x.ceil(), x) && same(x.round(), x) && same(x.trunc(), x), "floor, ceil, round of {x}");
        }
        must!(!(x.is_nan() || x < 0.0) || x as usize == 0, "{x} as usize");
        must!(x != f64::INFINITY || x as usize == usize::MAX, "{x} as usize");
        must!(if x.is_nan() { x.signum().is_nan() } else { sg(x) == 0 || x.signum() == sg(x) as f64 }, "signum {x}");
        must!(!(x < 0.0) || (x.is_sign_negative() && !x.is_sign_positive()), "sign of {x}");
        must!(!(x > 0.0) || (!x.is_sign_negative() && x.is_sign_positive()), "sign of {x}");
        must!(same(x.clamp(-1.0, 2.0), if x < -1.0 { -1.0 } else if x > 2.0 { 2.0 } else { x }), "clamp {x}");
        must!(!(x > -1.0) || (x.ln_1p() - (1.0 + x).ln()).abs() < 1e-9 || x == f64::INFINITY, "ln_1p {x}");
        must!(same(x.exp_m1(), std::f64::consts::E.powf(x) - 1.0), "exp_m1 {x}");
        must!(!fin(x) || near(x.hypot(2.0), (x * x + 4.0).sqrt()), "hypot {x}");
    }
    Ok(())
}
pub fn trusted(g: &mut R, _size: usize) -> Result<(), String> {
    floats(g)?;
    arrays(g)?;
    collections(g)?;
    random(g)?;
    further(g)?;
    distributions(g)
}
