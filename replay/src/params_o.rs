//! C01-C03: the node parameters.
use crate::ensure;
use crate::gen::*;
use ndarray::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use reCTBN::params::{ParamsError, ParamsTrait, StateType};

const TOL: f64 = 1.4901161193847656e-8;

/// Some(verdict) or None when a row sum is too near the tolerance to call.
fn valid(a: &Array3<f64>, k: usize) -> Option<bool> {
    let (u, x, y) = a.dim();
    if x != k || y != k {
        return Some(false);
    }
    let mut border = false;
    for i in 0..u {
        for r in 0..k {
            let mut s = 0.0;
            let mut mag = 0.0f64;
            for c in 0..k {
                let v = a[[i, r, c]];
                if !v.is_finite() {
                    return Some(false);
                }
                if r == c && v >= 0.0 {
                    return Some(false);
                }
                if r != c && v < 0.0 {
                    return Some(false);
                }
                s += v;
                mag = mag.max(v.abs());
            }
            let slack = mag * 1e-14 + 1e-12;
            if s.abs() > TOL + slack {
                return Some(false);
            }
            if s.abs() > TOL - slack {
                border = true;
            }
        }
    }
    if border {
        None
    } else {
        Some(true)
    }
}

pub fn c01(rng: &mut R, size: usize) -> Result<(), String> {
    let k = rng.gen_range(1..=2 + size);
    let u = rng.gen_range(1..=1 + 2 * size);
    let mut p = dparams("lbl", k);
    let tr = Array3::from_shape_fn((u, k, k), |(a, b, c)| a + 2 * b + 3 * c);
    let rt = Array2::from_shape_fn((u, k), |(a, b)| (a + b) as f64 + 0.5);
    let with_stats = rng.gen_bool(0.5);
    if with_stats {
        p.set_transitions(tr.clone());
        p.set_residence_time(rt.clone());
    }
    let prior = rng.gen_bool(0.5);
    if prior && k > 1 {
        p.set_cim_unchecked(gen_cim(rng, u, k, true));
    }
    let (dx, dy) = match rng.gen_range(0..10) {
        0 => (k + 1, k),
        1 => (k, k + 1),
        2 => (k + 1, k + 1),
        3 if k > 1 => (k - 1, k - 1),
        4 if k > 1 => {
            // not square, but as many entries as a square block
            let d: Vec<usize> = (1..=k * k).filter(|d| k * k % d == 0).collect();
            let d = d[rng.gen_range(0..d.len())];
            (d, k * k / d)
        }
        _ => (k, k),
    };
    let zeros = rng.gen_bool(0.5);
    let mut a = if dx == dy && dx > 1 {
        gen_cim(rng, u, dx, zeros)
    } else {
        // rows that sum to zero where the diagonal reaches
        Array3::from_shape_fn((u, dx, dy), |(_, b, c)| if b == c { -((dy - 1) as f64) } else if b < dy { 1.0 } else { 0.0 })
    };
    let i = rng.gen_range(0..u);
    let r = if rng.gen_bool(0.5) { dx - 1 } else { rng.gen_range(0..dx) };
    let c = rng.gen_range(0..dy);
    let what = rng.gen_range(0..13);
    let d = r.min(dy - 1);
    match what {
        0 => a[[i, r, c]] = f64::NAN,
        1 => a[[i, r, c]] = f64::INFINITY,
        2 => a[[i, r, c]] = f64::NEG_INFINITY,
        3 => {
            for j in 0..dy {
                a[[i, r, j]] = 0.0;
            }
        }
        4 if dy > 2 && r != c => {
            // a negative off-diagonal rate with the row sum kept
            let o = (0..dy).find(|j| *j != c && *j != r).unwrap();
            let v = a[[i, r, c]] + 0.5;
            a[[i, r, c]] = -0.5;
            a[[i, r, o]] += v;
        }
        5 => a[[i, r, c]] += 1e-6,
        6 => a[[i, r, c]] -= 1e-6,
        7 => a[[i, r, c]] += 1e-10,
        8 => a[[i, r, d]] = -a[[i, r, d]],
        9 => a[[i, r, c]] *= 3.0,
        10 => {
            // off by more than the tolerance in two rows that cancel
            a[[i, 0, 0]] += 1e-6;
            a[[i, dx - 1, dy - 1]] -= 1e-6;
        }
        _ => {}
    }
    let want = match valid(&a, k) {
        Some(w) => w,
        None => return Ok(()),
    };
    let got = p.set_cim(a.clone());
    ensure!(got.is_ok() == want, "set_cim on domain size {} returned {:?}, expected {}; cim={:?}", k, got, if want { "Ok" } else { "a rejection" }, a);
    if want {
        ensure!(p.get_cim().as_ref() == Some(&a), "accepted matrix not stored as given: {:?} vs {:?}", p.get_cim(), a);
        ensure!(p.validate_params().is_ok(), "validate_params rejects an accepted matrix {:?}", a);
    } else {
        ensure!(matches!(got, Err(ParamsError::InvalidCIM(_))), "wrong error {:?}", got);
        ensure!(p.get_cim().is_none(), "rejected matrix but a matrix is still held");
        ensure!(matches!(p.validate_params(), Err(ParamsError::ParametersNotInitialized(_))), "validate after rejection: {:?}", p.validate_params());
        p.set_cim_unchecked(a.clone());
        ensure!(p.validate_params().is_err(), "validate_params accepts {:?}", a);
    }
    ensure!(p.get_label() == "lbl" && p.get_reserved_space_as_parent() == k, "label or domain changed");
    if with_stats {
        ensure!(p.get_transitions().as_ref() == Some(&tr) && p.get_residence_time().as_ref() == Some(&rt), "statistics changed");
    } else {
        ensure!(p.get_transitions().is_none() && p.get_residence_time().is_none(), "statistics appeared");
    }
    Ok(())
}

pub fn expect_next(row: &[f64], s: usize, u: f64) -> (usize, bool) {
    let l = -row[s];
    let mut cum = 0.0;
    let mut last = usize::MAX;
    let mut near = false;
    for (j, v) in row.iter().enumerate() {
        if j == s || *v <= 0.0 {
            continue;
        }
        cum += v / l;
        last = j;
        if (cum - u).abs() < 1e-12 {
            near = true;
        }
        if cum >= u {
            return (j, near);
        }
    }
    (last, near)
}

fn as_idx(s: &StateType) -> usize {
    match s {
        StateType::Discrete(x) => *x,
    }
}

pub fn c02(rng: &mut R, size: usize) -> Result<(), String> {
    let k = rng.gen_range(2..=3 + size);
    let u = rng.gen_range(1..=1 + size);
    let mut p = dparams("x", k);
    let mut prng = ChaCha8Rng::seed_from_u64(rng.gen());
    let r = p.get_random_state(0, 0, &mut prng);
    ensure!(matches!(r, Err(ParamsError::ParametersNotInitialized(_))), "no matrix, but get_random_state returned {:?}", r);
    let mut cim = gen_cim(rng, u, k, true);
    let spread = rng.gen_bool(0.4);
    if spread {
        respread(rng, &mut cim);
    }
    let tiny = rng.gen_bool(0.3);
    if tiny {
        // legal rates of the order of the row-sum tolerance: the row need not sum to zero exactly
        let b = rng.gen_range(0..u);
        for i in 0..k {
            for j in 0..k {
                cim[[b, i, j]] = 0.0;
            }
            let j = (i + 1) % k;
            cim[[b, i, j]] = 2e-9;
            cim[[b, i, i]] = -8e-9;
        }
    }
    let r = p.set_cim(cim.clone());
    ensure!(r.is_ok(), "valid matrix rejected: {:?} {:?}", r, cim);
    let draws = if size > 2 { 400 } else { 60 };
    let mut exact_ok = true;
    let mut detail = String::new();
    let mut bad: Option<(usize, usize)> = None;
    for _ in 0..draws {
        let uu = rng.gen_range(0..u);
        let s = rng.gen_range(0..k);
        if rng.gen_bool(0.1) {
            extreme(&mut prng);
        }
        let mut c = prng.clone();
        let x: f64 = c.gen_range(0.0..=1.0);
        let row: Vec<f64> = (0..k).map(|j| cim[[uu, s, j]]).collect();
        let (want, near) = expect_next(&row, s, x);
        let got = match p.get_random_state(s, uu, &mut prng) {
            Ok(g) => as_idx(&g),
            Err(e) => return Err(format!("error {:?} with a matrix set", e)),
        };
        ensure!(got < k, "next state {} outside domain 0..{} (state {}, row {:?}, draw {})", got, k, s, row, x);
        ensure!(got != s, "next state equals the current state {} (row {:?}, draw {})", s, row, x);
        ensure!(row[got] > 0.0, "next state {} has rate {} from state {} (row {:?}, draw {})", got, row[got], s, row, x);
        if got != want && !near {
            exact_ok = false;
            bad = Some((uu, s));
            detail = format!("state {} row {:?} draw {}: got {}, inverse CDF gives {}", s, row, x, got, want);
        }
    }
    if !exact_ok && !tiny {
        // maybe another way of drawing: judge by frequencies
        let (uu, s) = bad.unwrap();
        let row: Vec<f64> = (0..k).map(|j| cim[[uu, s, j]]).collect();
        let n = if spread { 1000000 } else { 60000 };
        let mut cnt = vec![0usize; k];
        for _ in 0..n {
            cnt[as_idx(&p.get_random_state(s, uu, &mut prng).unwrap())] += 1;
        }
        let tot: f64 = row.iter().enumerate().filter(|(j, _)| *j != s).map(|x| x.1).sum();
        for j in 0..k {
            if j == s {
                continue;
            }
            let q = row[j] / tot;
            let e = q * n as f64;
            let sd = (e * (1.0 - q)).sqrt();
            ensure!((cnt[j] as f64 - e).abs() <= 7.0 * sd + 3.0, "frequencies {:?} over {} draws do not match row {:?} from state {} ({})", cnt, n, row, s, detail);
        }
    }
    Ok(())
}

/// rates over many orders of magnitude: rare transitions, slow and fast states
fn respread(rng: &mut R, cim: &mut Array3<f64>) {
    let (u, k, _) = cim.dim();
    let scale = 10f64.powi(rng.gen_range(-8..=0));
    for i in 0..u {
        for r in 0..k {
            let row = if rng.gen_bool(0.5) { 1.0 } else { 10f64.powi(rng.gen_range(-4..=2)) };
            let mut s = 0.0;
            for c in 0..k {
                if c == r {
                    continue;
                }
                let f = if rng.gen_bool(0.5) { 1.0 } else { 10f64.powi(rng.gen_range(-4..=-1)) };
                cim[[i, r, c]] *= scale * row * f;
                s += cim[[i, r, c]];
            }
            cim[[i, r, r]] = -s;
        }
    }
}
/// advance to a stream whose next unit draw is near an end of the interval
fn extreme(prng: &mut ChaCha8Rng) {
    for _ in 0..2000 {
        let mut c = prng.clone();
        let x: f64 = c.gen_range(0.0..=1.0);
        if x < 0.003 || x > 0.997 {
            return;
        }
        *prng = c;
    }
}

pub fn c03(rng: &mut R, size: usize) -> Result<(), String> {
    if rng.gen_bool(0.2) {
        // a node with a single value
        let p = dparams("one", 1);
        let mut prng = ChaCha8Rng::seed_from_u64(rng.gen());
        for _ in 0..20 {
            let g = as_idx(&p.get_random_state_uniform(&mut prng));
            ensure!(g == 0, "uniform state {} outside domain 0..1", g);
        }
    }
    let k = rng.gen_range(2..=3 + size);
    let u = rng.gen_range(1..=2 + size);
    let mut p = dparams("x", k);
    let mut prng = ChaCha8Rng::seed_from_u64(rng.gen());
    let r = p.get_random_residence_time(0, 0, &mut prng);
    ensure!(matches!(r, Err(ParamsError::ParametersNotInitialized(_))), "no matrix, but got {:?}", r);
    let mut cim = gen_cim(rng, u, k, true);
    if rng.gen_bool(0.4) {
        respread(rng, &mut cim);
    }
    let r = p.set_cim(cim.clone());
    ensure!(r.is_ok(), "valid matrix rejected: {:?}", r);
    let mut bad = None;
    for _ in 0..60 {
        let uu = rng.gen_range(0..u);
        let s = rng.gen_range(0..k);
        if rng.gen_bool(0.1) {
            extreme(&mut prng);
        }
        let mut c = prng.clone();
        let x: f64 = c.gen_range(0.0..=1.0);
        let q = -cim[[uu, s, s]];
        let t = p.get_random_residence_time(s, uu, &mut prng).map_err(|e| format!("error {:?}", e))?;
        ensure!(t >= 0.0, "negative or NaN residence time {} (rate {})", t, q);
        if !close(t, -x.ln() / q) {
            bad = Some((uu, s, t, x));
        }
        let g = as_idx(&p.get_random_state_uniform(&mut prng));
        ensure!(g < k, "uniform state {} outside domain 0..{}", g, k);
    }
    if let Some((uu, s, t, x)) = bad {
        let q = -cim[[uu, s, s]];
        let n = 40000;
        let v: Vec<f64> = (0..n).map(|_| p.get_random_residence_time(s, uu, &mut prng).unwrap() * q).collect();
        let m = v.iter().sum::<f64>() / n as f64;
        let below = v.iter().filter(|x| **x < std::f64::consts::LN_2).count() as f64 / n as f64;
        ensure!((m - 1.0).abs() < 0.035 && (below - 0.5).abs() < 0.02, "residence times are not exponential with rate {} (state {}, configuration {}): scaled mean {}, share below the median {}; draw {} gave {} instead of {}", q, s, uu, m, below, x, t, -x.ln() / q);
    }
    if rng.gen_bool(0.1) {
        // long and short stays: the extreme draws of many
        let uu = rng.gen_range(0..u);
        let s = rng.gen_range(0..k);
        let q = -cim[[uu, s, s]];
        let n = 200_000;
        let v: Vec<f64> = (0..n).map(|_| p.get_random_residence_time(s, uu, &mut prng).unwrap() * q).collect();
        for x in [1e-4, 1e-3, 1e-2, 0.1, 1.0, 3.0, 5.0, 7.0, 8.0] {
            let share = (-x as f64).exp();
            let w = share * n as f64;
            let c = v.iter().filter(|t| **t > x).count() as f64;
            ensure!((c - w).abs() <= 7.0 * (w * (1.0 - share)).sqrt() + 3.0, "residence times are not exponential with rate {} (state {}, configuration {}): {} of {} draws longer than {} times the mean, expected about {}", q, s, uu, c, n, x, w);
        }
    }
    // uniform initial state covers the domain
    let mut cnt = vec![0usize; k];
    let n = 2000 * k;
    for _ in 0..n {
        cnt[as_idx(&p.get_random_state_uniform(&mut prng))] += 1;
    }
    ensure!(cnt.iter().all(|c| (*c as f64 - 2000.0).abs() < 7.0 * 2000f64.sqrt()), "uniform states not uniform: {:?}", cnt);
    Ok(())
}
