//! Runs the oracle of one property against the real crate.
//!   replay run <PROP> --seed N --secs S [--max-size K] [--min-cases N] --out FILE
//!   replay case <PROP> --case-seed N --size K
mod gen;
mod learn_o;
mod params_o;
mod prelude_o;
mod process_o;
mod reward_o;
mod tools_o;
use gen::R;
use rand::SeedableRng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

type Oracle = fn(&mut R, usize) -> Result<(), String>;
fn oracle(p: &str) -> Option<Oracle> {
    Some(match p {
        "C01" => params_o::c01,
        "C02" => params_o::c02,
        "C03" => params_o::c03,
        "C04" => process_o::c04,
        "C05" => process_o::c05,
        "C06" => process_o::c06,
        "C07" => tools_o::c07,
        "C08" => tools_o::c08,
        "C09" => tools_o::c09,
        "C10" => tools_o::c10,
        "C11" => learn_o::c11,
        "C12" => learn_o::c12,
        "C13" => learn_o::c13,
        "C14" => learn_o::c14,
        "C15" => learn_o::c15,
        "C16" => learn_o::c16,
        "C17" => learn_o::c17,
        "C18" => learn_o::c18,
        "C19" => reward_o::c19,
        "C20" => reward_o::c20,
        "C21" => reward_o::c21,
        "C22" => process_o::c22,
        "C23" => tools_o::c23,
        "TRUSTED" => prelude_o::trusted,
        _ => return None,
    })
}
thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
fn one(o: Oracle, seed: u64, size: usize) -> Result<u64, String> {
    let mut rng = R::seed_from_u64(seed);
    LAST.with(|l| l.borrow_mut().clear());
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o(&mut rng, size))) {
        Ok(Ok(())) => Ok(rng.get_word_pos() as u64),
        Ok(Err(e)) => Err(e),
        Err(_) => Err(format!("panic: {}", LAST.with(|l| l.borrow().clone()))),
    }
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str) -> String {
    s.chars().take(6000).collect()
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
static CUR_SEED: AtomicU64 = AtomicU64::new(0);
static CUR_SIZE: AtomicUsize = AtomicUsize::new(0);
static CUR_CASE: AtomicUsize = AtomicUsize::new(0);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str, d: u64| get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let prop = a[2].clone();
    let o = oracle(&prop).expect("unknown property");
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        let s = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
        let _ = LAST.try_with(|l| *l.borrow_mut() = s);
    }));
    if a[1] == "case" {
        let seed = num("--case-seed", 0);
        let size = num("--size", 1) as usize;
        match one(o, seed, size) {
            Ok(_) => println!("case {} seed {} size {}: ok", prop, seed, size),
            Err(e) => {
                println!("case {} seed {} size {}: FAILS: {}", prop, seed, size, e);
                std::process::exit(1);
            }
        }
        return;
    }
    let seed = num("--seed", 1);
    let secs = num("--secs", 5);
    let maxs = num("--max-size", 4) as usize;
    let minc = num("--min-cases", 40) as usize;
    let maxc = num("--max-cases", u64::MAX) as usize;
    let hang = num("--hang-secs", 150);
    let out = get("--out").expect("--out");
    let start = Instant::now();
    {
        // a case that does not end is a failure of its own
        let (prop, out) = (prop.clone(), out.clone());
        std::thread::spawn(move || {
            let mut last = usize::MAX;
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let c = CUR_CASE.load(Ordering::SeqCst);
                if c != last {
                    last = c;
                    since = Instant::now();
                } else if since.elapsed().as_secs() > hang {
                    let j = format!("{{\"property\":{},\"evaluations\":{},\"distinct\":0,\"seconds\":{:.3},\"known\":{{}},\"samples\":[],\"violation\":{{\"case_seed\":{},\"size\":{},\"message\":{}}}}}", esc(&prop), c, start.elapsed().as_secs_f64(), CUR_SEED.load(Ordering::SeqCst), CUR_SIZE.load(Ordering::SeqCst), esc(&format!("the case did not end within {} s", hang)));
                    std::fs::write(&out, j).unwrap();
                    std::process::exit(1);
                }
            }
        });
    }
    let mut cases = 0usize;
    let mut seen = HashSet::new();
    let mut known: BTreeMap<String, (usize, u64, usize, String)> = BTreeMap::new();
    let mut viol: Option<(u64, usize, String)> = None;
    let mut samples: Vec<String> = vec![];
    while cases < maxc && (cases < minc || start.elapsed().as_secs() < secs) {
        let cs = hash(&(seed, cases, &prop));
        let size = cases % (maxs + 1);
        CUR_SEED.store(cs, Ordering::SeqCst);
        CUR_SIZE.store(size, Ordering::SeqCst);
        CUR_CASE.store(cases + 1, Ordering::SeqCst);
        cases += 1;
        match one(o, cs, size) {
            Ok(pos) => {
                seen.insert((pos, size, cs));
                if samples.len() < 3 {
                    samples.push(format!("{{\"case_seed\":{},\"size\":{},\"random_words_drawn\":{},\"verdict\":\"ok\"}}", cs, size, pos));
                }
            }
            Err(e) => {
                if let Some(r) = e.strip_prefix("KNOWN[") {
                    let i = r.find(']').unwrap();
                    let k = known.entry(r[..i].to_string()).or_insert((0, cs, size, r[i + 1..].trim().to_string()));
                    k.0 += 1;
                    seen.insert((0, size, cs));
                    continue;
                }
                // a smaller failing case of the same oracle
                let mut best = (cs, size, e);
                let t = Instant::now();
                'shrink: for sz in 0..size {
                    for k in 0..60u64 {
                        if t.elapsed().as_secs() > 20 {
                            break 'shrink;
                        }
                        let c2 = hash(&(cs, sz, k));
                        if let Err(e) = one(o, c2, sz) {
                            if !e.starts_with("KNOWN[") {
                                best = (c2, sz, e);
                                break 'shrink;
                            }
                        }
                    }
                }
                viol = Some(best);
                break;
            }
        }
    }
    let kn: Vec<String> = known.iter().map(|(k, v)| format!("{}:{{\"count\":{},\"case_seed\":{},\"size\":{},\"message\":{}}}", esc(k), v.0, v.1, v.2, esc(&clip(&v.3)))).collect();
    let vi = match &viol {
        None => "null".to_string(),
        Some((s, z, m)) => format!("{{\"case_seed\":{},\"size\":{},\"message\":{}}}", s, z, esc(&clip(m))),
    };
    let j = format!("{{\"property\":{},\"evaluations\":{},\"distinct\":{},\"seconds\":{:.3},\"known\":{{{}}},\"samples\":[{}],\"violation\":{}}}", esc(&prop), cases, seen.len(), start.elapsed().as_secs_f64(), kn.join(","), samples.join(","), vi);
    std::fs::write(&out, j).unwrap();
    std::process::exit(if viol.is_some() { 1 } else { 0 });
}
