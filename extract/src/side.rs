//! The contract files: contracts, loop invariants and proof text, kept apart from the code.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct LoopC {
    pub inv: String,
    pub dec: String,
    pub pre: String,
    pub top: String,
    pub bot: String,
    pub post: String,
    pub ty: String,
    pub ens: String,
}
#[derive(Default, Debug, Clone)]
pub struct FnC {
    pub params: Vec<String>,
    pub ret: String,
    pub requires: String,
    pub ensures: String,
    pub panics: String,
    pub entropy: String,
    pub attr: String,
    pub start: String,
    pub end: String,
    pub ops: bool,
    pub trusted: bool,
    pub loops: BTreeMap<usize, LoopC>,
    pub calls: std::collections::BTreeMap<String, String>,
    pub closures: BTreeMap<usize, String>,
}
#[derive(Default, Debug)]
pub struct Side {
    pub fns: BTreeMap<String, FnC>,
    pub raw: String,
    pub traits: BTreeMap<String, String>,
    pub timpls: BTreeMap<String, String>,
    pub lemmas: Vec<String>,
}
impl Side {
    pub fn load(&mut self, text: &str, name: &str) {
        #[derive(PartialEq)]
        enum Sec {
            None,
            Raw,
            Trait(String),
            Timpl(String),
            Fn(String, String, usize),
        }
        let mut sec = Sec::None;
        let mut cur_loop = 0usize;
        for (ln, line) in text.lines().enumerate() {
            let t = line.trim();
            if t.starts_with("@@") {
                continue; // comment
            }
            if let Some(r) = t.strip_prefix('@') {
                let (kw, rest) = match r.find(char::is_whitespace) {
                    Some(i) => (&r[..i], r[i..].trim()),
                    None => (r, ""),
                };
                match kw {
                    "raw" => {
                        sec = Sec::Raw;
                        continue;
                    }
                    "trait" => {
                        sec = Sec::Trait(rest.to_string());
                        self.traits.entry(rest.to_string()).or_default();
                        continue;
                    }
                    "timpl" => {
                        sec = Sec::Timpl(rest.to_string());
                        self.timpls.entry(rest.to_string()).or_default();
                        continue;
                    }
                    "fn" => {
                        // Key(p1, p2) -> r
                        let (head, ret) = match rest.split_once("->") {
                            Some((a, b)) => (a.trim(), b.trim()),
                            None => (rest, ""),
                        };
                        let i = head.find('(').unwrap_or_else(|| panic!("{}:{}: @fn needs (params)", name, ln + 1));
                        let key = head[..i].trim().to_string();
                        let ps = head[i + 1..].trim_end_matches(')');
                        let f = self.fns.entry(key.clone()).or_default();
                        f.params = ps.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
                        f.ret = ret.to_string();
                        sec = Sec::Fn(key, String::new(), 0);
                        cur_loop = 0;
                        continue;
                    }
                    _ => {}
                }
                if let Sec::Fn(key, part, idx) = &mut sec {
                    let f = self.fns.get_mut(key).unwrap();
                    match kw {
                        "requires" | "ensures" | "panics" | "entropy" | "attr" | "start" | "end" => {
                            *part = kw.to_string();
                            cur_loop = 0;
                            push(f, part, *idx, rest);
                        }
                        "ops" => f.ops = true,
                        "trusted" => f.trusted = true,
                        "loop" => {
                            cur_loop = rest.split_whitespace().next().unwrap().parse().unwrap();
                            *idx = cur_loop;
                            f.loops.entry(cur_loop).or_default();
                            *part = String::new();
                        }
                        "inv" | "dec" | "pre" | "top" | "bot" | "post" | "ty" | "ens" => {
                            assert!(cur_loop > 0, "{}:{}: @{} outside @loop", name, ln + 1, kw);
                            *part = kw.to_string();
                            *idx = cur_loop;
                            push(f, part, *idx, rest);
                        }
                        "call" => {
                            *part = format!("call:{}", rest.trim());
                            cur_loop = 0;
                        }
                        "closure" => {
                            let (n, r) = rest.split_once(char::is_whitespace).unwrap();
                            *idx = n.parse().unwrap();
                            *part = "closure".to_string();
                            push(f, part, *idx, r);
                        }
                        _ => panic!("{}:{}: unknown @{}", name, ln + 1, kw),
                    }
                } else {
                    panic!("{}:{}: @{} outside @fn", name, ln + 1, kw);
                }
                continue;
            }
            match &mut sec {
                Sec::None => {}
                Sec::Raw => {
                    self.raw.push_str(line);
                    self.raw.push('\n');
                }
                Sec::Trait(n) => {
                    let e = self.traits.get_mut(n).unwrap();
                    e.push_str(line);
                    e.push('\n');
                }
                Sec::Timpl(n) => {
                    let e = self.timpls.get_mut(n).unwrap();
                    e.push_str(line);
                    e.push('\n');
                }
                Sec::Fn(key, part, idx) => {
                    if t.is_empty() {
                        continue;
                    }
                    let f = self.fns.get_mut(key).unwrap();
                    push(f, part, *idx, line);
                }
            }
        }
    }
}
fn push(f: &mut FnC, part: &str, idx: usize, s: &str) {
    if s.trim().is_empty() {
        return;
    }
    let d = match part {
        "requires" => &mut f.requires,
        "ensures" => &mut f.ensures,
        "panics" => &mut f.panics,
        "entropy" => &mut f.entropy,
        "attr" => &mut f.attr,
        "start" => &mut f.start,
        "end" => &mut f.end,
        "closure" => f.closures.entry(idx).or_default(),
        "" => return,
        c if c.starts_with("call:") => f.calls.entry(c[5..].to_string()).or_default(),
        _ => {
            let l = f.loops.entry(idx).or_default();
            match part {
                "inv" => &mut l.inv,
                "dec" => &mut l.dec,
                "pre" => &mut l.pre,
                "top" => &mut l.top,
                "bot" => &mut l.bot,
                "post" => &mut l.post,
                "ty" => &mut l.ty,
                "ens" => &mut l.ens,
                _ => unreachable!(),
            }
        }
    };
    d.push_str(s);
    d.push('\n');
}
