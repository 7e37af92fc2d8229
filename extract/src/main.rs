//! Mechanical extraction of /repo/src into one file in the verifier's dialect.
mod rw;
mod side;
use proc_macro2::{Delimiter, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use rw::{fix_path, Helper, Rw};
use side::{FnC, Side};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path as FsPath, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

struct FnItem {
    key: String,
    file: String,
    line: usize,
    sig: Signature,
    body: Option<Block>,
    self_ty: Option<String>,
    assoc: Vec<(String, Type)>,
}
struct ImplItem_ {
    generics: Generics,
    self_ty: Type,
    name: String,
    trait_: Option<syn::Path>,
    kept: bool,
    fns: Vec<usize>,
}
struct TypeFix<'a> {
    assoc: &'a [(String, Type)],
}
impl<'a> VisitMut for TypeFix<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.len() == 2 && s[0] == "Self" {
                if let Some((_, ty)) = self.assoc.iter().find(|(n, _)| *n == s[1]) {
                    *t = ty.clone();
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }
}
struct Consts<'a>(&'a BTreeMap<String, Expr>);
impl<'a> VisitMut for Consts<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            let last = p.path.segments.last().unwrap().ident.to_string();
            if let Some(x) = self.0.get(&last) {
                if p.path.segments.len() == 1 || p.path.segments[0].ident != "f64" {
                    let x = x.clone();
                    *e = parse_quote!((#x));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
#[derive(Default)]
struct Locals(Vec<String>);
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let s = p.ident.to_string();
        if s != "None" && !self.0.contains(&s) {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test") || a.path().is_ident("test"))
}
fn rs_files(d: &FsPath, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            rs_files(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

/// Replace whole identifiers (not after a dot) in text.
fn rename(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[s..i].iter().collect();
            let dot = s > 0 && b[s - 1] == '.' && !(s > 1 && b[s - 2] == '.');
            let path = (s > 1 && b[s - 1] == ':' && b[s - 2] == ':') || (i + 1 < b.len() && b[i] == ':' && b[i + 1] == ':');
            match map.get(&w) {
                Some(n) if !dot && !path => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else {
            if b[i].is_ascii_digit() {
                while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                    out.push(b[i]);
                    i += 1;
                }
                continue;
            }
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

struct Pr<'a> {
    out: String,
    fc: &'a FnC,
    map: BTreeMap<String, String>,
    err: Option<String>,
    ind: usize,
    used: BTreeSet<usize>,
    vac: bool,
}
impl<'a> Pr<'a> {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        for _ in 0..self.ind {
            self.out.push_str("  ");
        }
    }
    fn put(&mut self, s: &str) {
        let r = rename(s, &self.map);
        self.out.push_str(&r);
    }
    fn lit(tt: &TokenTree) -> Option<String> {
        if let TokenTree::Group(g) = tt {
            let mut it = g.stream().into_iter();
            if let Some(TokenTree::Literal(l)) = it.next() {
                if let Lit::Str(s) = Lit::new(l) {
                    return Some(s.value());
                }
            }
        }
        None
    }
    fn print(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let TokenTree::Ident(id) = &v[i] {
                let s = id.to_string();
                if s == "__cla" && i + 2 < v.len() {
                    let TokenTree::Group(g) = &v[i + 2] else { unreachable!() };
                    let mut it = g.stream().into_iter();
                    let Some(TokenTree::Group(h)) = it.next() else { unreachable!() };
                    let body: TokenStream = it.skip(1).collect();
                    self.print(h.stream());
                    self.out.push_str(" { ");
                    self.print(body);
                    self.out.push_str(" } ");
                    i += 3;
                    continue;
                }
                if (s == "__m" || s == "__gh" || s == "__clo") && i + 2 < v.len() {
                    let text = Self::lit(&v[i + 2]).unwrap_or_default();
                    if s == "__gh" {
                        self.out.push_str("Ghost(");
                        self.put(&text);
                        self.out.push_str(") ");
                    } else if s == "__clo" {
                        let TokenTree::Group(g) = &v[i + 2] else { unreachable!() };
                        let mut p = text.splitn(3, ' ');
                        p.next();
                        let n: usize = p.next().unwrap().parse().unwrap();
                        let names = p.next().unwrap_or("").to_string();
                        let body: TokenStream = g.stream().into_iter().skip(2).collect();
                        match self.fc.closures.get(&n) {
                            Some(h) => {
                                // rename the header's parameters to the closure's
                                let mut m = self.map.clone();
                                let hp = closure_params(h);
                                let np: Vec<String> = names.split(',').map(|x| x.trim().trim_start_matches('&').trim().to_string()).collect();
                                if hp.len() == np.len() {
                                    for (a, b) in hp.iter().zip(np.iter()) {
                                        if a != b && b.chars().all(|c| c.is_alphanumeric() || c == '_') {
                                            m.insert(a.clone(), b.clone());
                                        }
                                    }
                                }
                                let h2 = rename(h.trim(), &m);
                                self.out.push_str(&h2);
                                self.out.push_str(" { ");
                                self.print(body);
                                self.out.push_str(" } ");
                            }
                            None => {
                                self.err.get_or_insert(format!("closure {} without a contract", n));
                            }
                        }
                    } else {
                        let mut p = text.splitn(3, ' ');
                        let kind = p.next().unwrap().to_string();
                        let l: usize = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let t = self.fc.loops.get(&l).map(|c| match kind.as_str() {
                            "pre" => c.pre.clone(),
                            "top" => c.top.clone(),
                            "bot" => c.bot.clone(),
                            "post" => c.post.clone(),
                            _ => String::new(),
                        });
                        if kind == "top" && self.vac {
                            self.nl();
                            self.out.push_str(&format!("proof {{ if vac_v({}) {{ assert(false); /* VAC_LOOP {} */ }} }}", l, l));
                            self.nl();
                        }
                        let t = match kind.strip_prefix("call:") {
                            Some(n) => self.fc.calls.get(n).cloned(),
                            None => {
                                self.used.insert(l);
                                t
                            }
                        };
                        if let Some(t) = t {
                            if !t.trim().is_empty() {
                                self.nl();
                                self.put(&t);
                                self.nl();
                            }
                        }
                    }
                    i += 3;
                    if s == "__m" && matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                        i += 1;
                    }
                    continue;
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("(", ")"),
                    };
                    let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if g.delimiter() == Delimiter::Brace && inner.len() > 2 {
                        if let TokenTree::Ident(id) = &inner[0] {
                            if *id == "__m" {
                                let t = Self::lit(&inner[2]).unwrap_or_default();
                                if t.starts_with("inv") {
                                    self.loop_head(&mut inner, &t);
                                }
                            }
                        }
                    }
                    self.out.push_str(o);
                    if g.delimiter() == Delimiter::Brace {
                        self.ind += 1;
                        self.nl();
                    }
                    self.print(inner.into_iter().collect());
                    if g.delimiter() == Delimiter::Brace {
                        self.ind -= 1;
                        self.nl();
                    }
                    self.out.push_str(c);
                    self.out.push(' ');
                    if g.delimiter() == Delimiter::Brace {
                        // a line break after a block that ends a statement
                        let next_else = matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if *x == "else");
                        let next_punct = matches!(v.get(i + 1), Some(TokenTree::Punct(_)));
                        if !next_else && !next_punct && i + 1 < v.len() {
                            self.nl();
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                t => {
                    if self.out.ends_with(". ") {
                        self.out.pop();
                    }
                    let s = t.to_string();
                    self.out.push_str(&s);
                    let tick = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), '.' | ';' | ',' | ':'));
                    let call = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() != Delimiter::Brace);
                    if !tick && !call {
                        self.out.push(' ');
                    }
                }
            }
            i += 1;
        }
    }
    fn loop_head(&mut self, inner: &mut Vec<TokenTree>, t: &str) {
        let brk = t.starts_with("invb");
        let l: usize = t.split(' ').nth(1).unwrap().parse().unwrap();
        self.used.insert(l);
        let mut auto = String::new();
        let mut dec = String::new();
        let mut skip = 3;
        if matches!(inner.get(skip), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
            skip += 1;
        }
        while skip + 2 < inner.len() {
            match &inner[skip] {
                TokenTree::Ident(id) if *id == "__m" => {
                    let t = Self::lit(&inner[skip + 2]).unwrap_or_default();
                    let mut p = t.splitn(3, ' ');
                    let k = p.next().unwrap().to_string();
                    p.next();
                    let r = p.next().unwrap_or("").to_string();
                    if k == "auto" {
                        auto = r;
                    } else if k == "dec" {
                        dec = r;
                    } else {
                        break;
                    }
                    skip += 3;
                    if matches!(inner.get(skip), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                        skip += 1;
                    }
                }
                _ => break,
            }
        }
        let rest: Vec<TokenTree> = inner[skip..].to_vec();
        *inner = rest;
        let lc = self.fc.loops.get(&l).cloned().unwrap_or_default();
        self.nl();
        let inv = format!("{}{}{}", auto, if auto.is_empty() { "" } else { "\n" }, lc.inv);
        if !inv.trim().is_empty() {
            self.out.push_str(if brk { "invariant_except_break " } else { "invariant " });
            self.put(&auto);
            self.out.push('\n');
            self.put(&lc.inv);
        }
        if brk && !lc.ens.trim().is_empty() {
            self.out.push_str("ensures ");
            self.put(&lc.ens);
        }
        let d = if lc.dec.trim().is_empty() { dec } else { lc.dec.clone() };
        if !d.trim().is_empty() {
            self.nl();
            self.out.push_str("decreases ");
            self.put(d.trim());
        }
        self.nl();
    }
}
fn closure_params(h: &str) -> Vec<String> {
    let t = h.trim();
    let Some(a) = t.find('|') else { return vec![] };
    let Some(b) = t[a + 1..].find('|') else { return vec![] };
    t[a + 1..a + 1 + b].split(',').map(|p| p.split(':').next().unwrap().trim().to_string()).collect()
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn sig_text(sig: &Signature, fc: Option<&FnC>, assoc: &[(String, Type)]) -> (String, Vec<(String, bool)>, BTreeMap<String, String>) {
    // returns the signature text without contract, the parameter names (and whether `mut`), and the contract renames
    let mut sig = sig.clone();
    TypeFix { assoc }.visit_signature_mut(&mut sig);
    let mut names = vec![];
    let mut n = 0;
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            let (nm, mt) = match &*t.pat {
                Pat::Ident(p) => (p.ident.to_string(), p.mutability.is_some()),
                _ => (format!("p__{}", n), false),
            };
            let id = Ident::new(&nm, Span::call_site());
            *t.pat = parse_quote!(#id);
            names.push((nm, mt));
            n += 1;
        }
    }
    let mut map = BTreeMap::new();
    if let Some(fc) = fc {
        for (a, b) in fc.params.iter().zip(names.iter()) {
            if *a != b.0 {
                map.insert(a.clone(), b.0.clone());
            }
        }
    }
    let ident = &sig.ident;
    let (ig, _, wc) = sig.generics.split_for_impl();
    let inputs = &sig.inputs;
    let ret = match (&sig.output, fc) {
        (ReturnType::Type(_, t), Some(f)) if !f.ret.is_empty() => {
            let r = Ident::new(&f.ret, Span::call_site());
            quote!(-> (#r: #t))
        }
        (o, _) => quote!(#o),
    };
    let g = &sig.generics.params;
    let gp = if g.is_empty() { quote!() } else { quote!(<#g>) };
    let _ = ig;
    (quote!(pub fn #ident #gp (#inputs) #ret #wc).to_string(), names, map)
}
fn clauses(fc: &FnC, map: &BTreeMap<String, String>, with_req: bool) -> String {
    let mut s = String::new();
    if with_req && !fc.requires.trim().is_empty() {
        s.push_str("  requires\n");
        s.push_str(&rename(&fc.requires, map));
    }
    if !fc.ensures.trim().is_empty() {
        s.push_str("  ensures\n");
        s.push_str(&rename(&fc.ensures, map));
    }
    s
}

fn main() {
    let repo = arg("--repo").unwrap_or("/repo".into());
    let cdir = arg("--contracts").unwrap_or("/verif/contracts".into());
    let out_p = arg("--out").unwrap();
    let meta_p = arg("--meta").unwrap();
    let verify: BTreeSet<String> = arg("--verify").unwrap_or_default().split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
    let all = verify.contains("ALL");
    let skip: BTreeSet<String> = arg("--skip").unwrap_or_default().split(',').map(|x| x.trim().to_string()).collect();
    let skel_file = format!("{}/skeleton.txt", cdir);
    // reachability probes: "entry" = assert(false) for the body of every verified function, "full" = probes at its loops and its end
    let vac = arg("--vacuity").unwrap_or_default();
    let bless = std::env::args().any(|a| a == "--bless");

    let mut side = Side::default();
    let mut cf: Vec<PathBuf> = std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false)).collect();
    cf.sort();
    for p in &cf {
        side.load(&std::fs::read_to_string(p).unwrap(), &p.display().to_string());
    }
    let mut prelude = String::new();
    let mut pf: Vec<PathBuf> = std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false)).collect();
    pf.sort();
    for p in &pf {
        prelude.push_str(&format!("// ---- {}\n", p.file_name().unwrap().to_string_lossy()));
        prelude.push_str(&std::fs::read_to_string(p).unwrap());
    }
    let mut blessed: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(&skel_file) {
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            if p.len() == 3 {
                blessed.insert(p[0].into(), (p[1].into(), p[2].split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()));
            }
        }
    }

    // ---- read the sources
    let mut files = vec![];
    rs_files(&FsPath::new(&repo).join("src"), &mut files);
    let mut fns: Vec<FnItem> = vec![];
    let mut impls: Vec<ImplItem_> = vec![];
    let mut structs: Vec<TokenStream> = vec![];
    let mut traits: BTreeMap<String, (ItemTrait, String)> = BTreeMap::new();
    let mut consts: BTreeMap<String, Expr> = BTreeMap::new();
    let mut dispatch: Vec<ItemEnum> = vec![];
    let mut problems: Vec<String> = vec![];
    let mut free: Vec<usize> = vec![];
    let mut queue: Vec<(String, Vec<Item>)> = vec![];
    for f in &files {
        let name = f.strip_prefix(&repo).unwrap().display().to_string();
        let text = std::fs::read_to_string(f).unwrap();
        match parse_file(&text) {
            Ok(x) => queue.push((name, x.items)),
            Err(e) => problems.push(format!("{}: {}", name, e)),
        }
    }
    while !queue.is_empty() {
        let (name, items) = queue.remove(0);
        for it in items {
            match it {
                Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    if let Some((_, v)) = m.content {
                        queue.push((name.clone(), v));
                    }
                }
                Item::Struct(mut s) if !is_test(&s.attrs) => {
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = parse_quote!(pub);
                    }
                    TypeFix { assoc: &[] }.visit_item_struct_mut(&mut s);
                    structs.push(s.to_token_stream());
                }
                Item::Enum(mut s) if !is_test(&s.attrs) => {
                    let d = s.attrs.iter().any(|a| a.path().is_ident("enum_dispatch"));
                    let eq = s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Hash"));
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                        }
                    }
                    TypeFix { assoc: &[] }.visit_item_enum_mut(&mut s);
                    if d {
                        dispatch.push(s.clone());
                    }
                    structs.push(if eq { quote!(#[derive(PartialEq, Eq, Structural)] #s) } else { quote!(#s) });
                }
                Item::Type(mut t) => {
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                    TypeFix { assoc: &[] }.visit_item_type_mut(&mut t);
                    structs.push(t.to_token_stream());
                }
                Item::Const(c) => {
                    consts.insert(c.ident.to_string(), *c.expr);
                }
                Item::Trait(t) => {
                    traits.insert(t.ident.to_string(), (t, name.clone()));
                }
                Item::Fn(f) if !is_test(&f.attrs) => {
                    free.push(fns.len());
                    fns.push(FnItem { key: f.sig.ident.to_string(), file: name.clone(), line: f.sig.span().start().line, sig: f.sig, body: Some(*f.block), self_ty: None, assoc: vec![] });
                }
                Item::Impl(im) if !is_test(&im.attrs) => {
                    let tn = match &*im.self_ty {
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        _ => {
                            problems.push(format!("{}: impl for a type that is not a path", name));
                            continue;
                        }
                    };
                    let trait_ = im.trait_.map(|(_, p, _)| p);
                    let tr_name = trait_.as_ref().map(|p| p.segments.last().unwrap().ident.to_string());
                    let kept = tr_name.as_ref().map(|n| side.traits.contains_key(n)).unwrap_or(false);
                    let mut assoc = vec![];
                    for i in &im.items {
                        if let ImplItem::Type(t) = i {
                            assoc.push((t.ident.to_string(), t.ty.clone()));
                        }
                        if let ImplItem::Const(c) = i {
                            consts.insert(c.ident.to_string(), c.expr.clone());
                        }
                    }
                    let mut v = vec![];
                    for i in im.items {
                        if let ImplItem::Fn(f) = i {
                            v.push(fns.len());
                            fns.push(FnItem { key: format!("{}::{}", tn, f.sig.ident), file: name.clone(), line: f.sig.span().start().line, sig: f.sig, body: Some(f.block), self_ty: Some(tn.clone()), assoc: assoc.clone() });
                        }
                    }
                    impls.push(ImplItem_ { generics: im.generics, self_ty: *im.self_ty, name: tn, trait_, kept, fns: v });
                }
                _ => {}
            }
        }
    }
    // enum_dispatch: the methods forward to the variants
    for d in &dispatch {
        for (_, (t, file)) in traits.clone().iter() {
            let a = t.attrs.iter().find(|a| a.path().is_ident("enum_dispatch"));
            let Some(a) = a else { continue };
            if !a.to_token_stream().to_string().contains(&d.ident.to_string()) {
                continue;
            }
            let en = &d.ident;
            let mut v = vec![];
            for i in &t.items {
                if let TraitItem::Fn(f) = i {
                    let m = &f.sig.ident;
                    let args: Vec<Ident> = f.sig.inputs.iter().filter_map(|x| if let FnArg::Typed(t) = x { if let Pat::Ident(p) = &*t.pat { Some(p.ident.clone()) } else { None } } else { None }).collect();
                    let arms = d.variants.iter().map(|x| {
                        let vi = &x.ident;
                        quote!(#en::#vi(inner__) => inner__.#m(#(#args),*),)
                    });
                    let body: Block = parse_quote!({ match self { #(#arms)* } });
                    v.push(fns.len());
                    fns.push(FnItem { key: format!("{}::{}", en, m), file: file.clone(), line: f.sig.span().start().line, sig: f.sig.clone(), body: Some(body), self_ty: Some(en.to_string()), assoc: vec![] });
                }
            }
            impls.push(ImplItem_ { generics: Generics::default(), self_ty: parse_quote!(#en), name: en.to_string(), trait_: None, kept: false, fns: v });
        }
    }
    // provided methods of flattened traits
    for k in 0..impls.len() {
        let Some(tp) = impls[k].trait_.clone() else { continue };
        let tname = tp.segments.last().unwrap().ident.to_string();
        if let Some((t, file)) = traits.get(&tname) {
            for i in &t.items {
                if let TraitItem::Fn(f) = i {
                    if let Some(b) = &f.default {
                        let has = impls[k].fns.iter().any(|x| fns[*x].sig.ident == f.sig.ident);
                        if !has {
                            let tn = impls[k].name.clone();
                            let n = fns.len();
                            let kept = impls[k].kept;
                            if kept && !side.fns.contains_key(&format!("{}::{}", tname, f.sig.ident)) {
                                // a provided method without a contract: available for inlining only
                            }
                            fns.push(FnItem { key: format!("{}::{}", tn, f.sig.ident), file: file.clone(), line: f.sig.span().start().line, sig: f.sig.clone(), body: Some(b.clone()), self_ty: Some(tn), assoc: vec![] });
                            impls[k].fns.push(n);
                        }
                    }
                }
            }
        }
    }

    // ---- contracts per function
    let trait_of: BTreeMap<usize, String> = impls.iter().filter(|i| i.kept).flat_map(|i| i.fns.iter().map(move |f| (*f, i.trait_.as_ref().unwrap().segments.last().unwrap().ident.to_string()))).collect();
    let contracted = |i: usize, f: &FnItem| -> bool {
        side.fns.contains_key(&f.key) || trait_of.get(&i).map(|t| side.fns.contains_key(&format!("{}::{}", t, f.sig.ident))).unwrap_or(false)
    };
    let mut helper_by_ty: BTreeMap<Option<String>, Vec<usize>> = BTreeMap::new();
    for (i, f) in fns.iter().enumerate() {
        if !contracted(i, f) && f.body.is_some() {
            helper_by_ty.entry(f.self_ty.clone()).or_default().push(i);
        }
    }
    let mk_helpers = |ty: &Option<String>| -> BTreeMap<String, Helper> {
        let mut m = BTreeMap::new();
        for (t, v) in &helper_by_ty {
            for i in v {
                let f = &fns[*i];
                let mut b = f.body.clone().unwrap();
                Consts(&consts).visit_block_mut(&mut b);
                rw::Loops.visit_block_mut(&mut b);
                rw::ClosureReturns.visit_block_mut(&mut b);
                rw::Combinators { opts: rw::option_params(&f.sig) }.visit_block_mut(&mut b);
                let mut sig = f.sig.clone();
                TypeFix { assoc: &f.assoc }.visit_signature_mut(&mut sig);
                let h = || Helper { sig: sig.clone(), body: b.clone() };
                match t {
                    None => {
                        m.insert(f.sig.ident.to_string(), h());
                    }
                    Some(tn) => {
                        if t == ty {
                            m.insert(format!("self.{}", f.sig.ident), h());
                        }
                        // associated functions are inlined anywhere
                        if !matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                            m.insert(format!("{}::{}", tn, f.sig.ident), h());
                        }
                    }
                }
            }
        }
        m
    };

    // ---- rewrite every function
    struct Res {
        key: String,
        verified: bool,
        contracted: bool,
        reason: String,
        skel: String,
        locals: Vec<String>,
        inlined: Vec<String>,
        start: usize,
        end: usize,
        changed: bool,
        nloops: usize,
    }
    let mut res: BTreeMap<usize, Res> = BTreeMap::new();
    let mut texts: BTreeMap<usize, String> = BTreeMap::new();
    for i in 0..fns.len() {
        let f = &fns[i];
        if !contracted(i, f) {
            continue;
        }
        let want = (all || verify.contains(&f.key)) && !skip.contains(&f.key);
        let fc0 = side.fns.get(&f.key).cloned();
        let tfc = trait_of.get(&i).and_then(|t| side.fns.get(&format!("{}::{}", t, f.sig.ident))).cloned();
        let fc = {
            let mut x = fc0.clone().unwrap_or_default();
            if let Some(t) = &tfc {
                if x.params.is_empty() {
                    x.params = t.params.clone();
                }
                if x.ret.is_empty() {
                    x.ret = t.ret.clone();
                }
                if x.panics.trim().is_empty() {
                    x.panics = t.panics.clone();
                }
                if x.entropy.trim().is_empty() {
                    x.entropy = t.entropy.clone();
                }
            }
            x
        };
        let (sigt, names, mut map) = sig_text(&f.sig, Some(&fc), &f.assoc);
        let ctext = clauses(&fc, &map, tfc.is_none());
        let mut loc = Locals::default();
        let mut body = f.body.clone().unwrap();
        loc.visit_block(&body);
        let mut r = Res { key: f.key.clone(), verified: false, contracted: true, reason: String::new(), skel: String::new(), locals: loc.0.clone(), inlined: vec![], start: 0, end: 0, changed: false, nloops: 0 };
        let mut text = String::new();
        // the shape of the body, also when it is not verified now
        Consts(&consts).visit_block_mut(&mut body);
        rw::Loops.visit_block_mut(&mut body);
        rw::ClosureReturns.visit_block_mut(&mut body);
        rw::Combinators { opts: rw::option_params(&f.sig) }.visit_block_mut(&mut body);
        let helpers = mk_helpers(&f.self_ty);
        let mut rw = Rw {
            calls: fc.calls.keys().cloned().collect(),
            nloop: 0,
            nclos: 0,
            skel: vec![],
            err: None,
            hint: None,
            closures: &fc.closures,
            loop_ty: fc.loops.iter().filter(|(_, l)| !l.ty.trim().is_empty()).map(|(k, l)| (*k, l.ty.trim().to_string())).collect(),
            panics: fc.panics.clone(),
            entropy: fc.entropy.clone(),
            ops: fc.ops,
            helpers: &helpers,
            depth: 0,
            inlined: BTreeSet::new(),
            has_dec: fc.loops.iter().filter(|(_, l)| !l.dec.trim().is_empty()).map(|(k, _)| *k).collect(),
            all_dec: true,
        };
        TypeFix { assoc: &f.assoc }.visit_block_mut(&mut body);
        rw.visit_block_mut(&mut body);
        r.skel = rw.skel.join("|");
        r.inlined = rw.inlined.iter().cloned().collect();
        r.nloops = rw.nloop;
        let params = map.clone();
        if let Some((bs, bl)) = blessed.get(&f.key) {
            r.changed = *bs != r.skel;
            if !bless {
                // locals with a new name: the names gone and the names come, in order; by position if that does not fit
                let uniq = |l: &[String], m: &[String]| {
                    let mut v: Vec<String> = vec![];
                    for x in l {
                        if !m.contains(x) && !v.contains(x) {
                            v.push(x.clone());
                        }
                    }
                    v
                };
                let (gone, come) = (uniq(bl, &loc.0), uniq(&loc.0, bl));
                let pairs: Vec<(String, String)> = if gone.len() == come.len() {
                    gone.into_iter().zip(come).collect()
                } else if bl.len() == loc.0.len() {
                    bl.iter().cloned().zip(loc.0.iter().cloned()).collect()
                } else {
                    // between the names that stayed
                    let one = |l: &[String]| uniq(l, &[]);
                    let (a, b) = (one(bl), one(&loc.0));
                    let gaps = |l: &[String], m: &[String]| {
                        let mut g: BTreeMap<String, Vec<String>> = BTreeMap::new();
                        let mut at = String::new();
                        for x in l {
                            if m.contains(x) {
                                at = x.clone();
                            } else {
                                g.entry(at.clone()).or_default().push(x.clone());
                            }
                        }
                        g
                    };
                    let (ga, gb) = (gaps(&a, &b), gaps(&b, &a));
                    ga.iter().flat_map(|(k, v)| v.iter().cloned().zip(gb.get(k).cloned().unwrap_or_default())).collect()
                };
                for (a, b) in pairs {
                    if a != b && !map.contains_key(&a) {
                        map.insert(a, b);
                    }
                }
            }
        }
        let mut ok = want && !fc.trusted;
        if ok {
            if let Some(e) = &rw.err {
                r.reason = e.clone();
                ok = false;
            }
        }
        if ok {
            let mut pr = Pr { out: String::new(), fc: &fc, map: map.clone(), err: None, ind: 1, used: BTreeSet::new(), vac: vac == "full" };
            let mut pre = String::new();
            for (n, m) in &names {
                if *m {
                    pre.push_str(&format!("  let mut {} = {};\n", n, n));
                }
            }
            pre.push_str(&rename(&fc.start, &params));
            let mut fc = fc.clone();
            if vac == "full" {
                fc.end.push_str("\n    proof { if vac_v(0) { assert(false); /* VAC_END */ } }\n");
            }
            let mut stmts = body.stmts.clone();
            if !fc.end.trim().is_empty() {
                let rt = match &f.sig.output {
                    ReturnType::Type(_, t) => {
                        let mut t = t.clone();
                        TypeFix { assoc: &f.assoc }.visit_type_mut(&mut t);
                        quote!(: #t)
                    }
                    _ => quote!(),
                };
                let e = Ident::new("ret_v", Span::call_site());
                match stmts.pop() {
                    Some(Stmt::Expr(Expr::Return(x), _)) => {
                        let v = x.expr;
                        pr.print(quote!(#(#stmts)* let #e #rt = #v;));
                        pr.nl();
                        pr.put(&fc.end);
                        pr.print(quote!(return #e;));
                    }
                    Some(Stmt::Expr(x, None)) => {
                        pr.print(quote!(#(#stmts)* let #e #rt = #x;));
                        pr.nl();
                        pr.put(&fc.end);
                        pr.print(quote!(#e));
                    }
                    Some(s) => {
                        pr.print(quote!(#(#stmts)* #s));
                        pr.nl();
                        pr.put(&fc.end);
                    }
                    None => pr.put(&fc.end),
                }
            } else {
                pr.print(quote!(#(#stmts)*));
            }
            if let Some(e) = pr.err {
                r.reason = e;
                ok = false;
            } else {
                let mut attrs = String::from("#[verifier::loop_isolation(false)]\n");
                if !rw.all_dec {
                    attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
                }
                attrs.push_str(&fc.attr);
                let bodyt = pr.out.trim_end().to_string();
                let post_semi = match body.stmts.last() {
                    Some(Stmt::Expr(_, None)) => "",
                    _ => "",
                };
                text = if vac == "entry" {
                    format!("{}\n{}{{\n  proof {{ assert(false); /* VAC_ENTRY */ }}\n  unreached_v()\n}}\n", sigt, ctext)
                } else {
                    format!("{}{}\n{}{{\n{}  {}{}\n}}\n", attrs, sigt, ctext, pre, bodyt, post_semi)
                };
            }
        }
        if !ok {
            let why = if fc.trusted { "trusted" } else { "" };
            let _ = why;
            text = format!("#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n", sigt, ctext);
            if want && fc.trusted {
                r.reason = "trusted".into();
            }
        }
        r.verified = ok;
        res.insert(i, r);
        texts.insert(i, text);
    }

    // ---- print
    let mut out = String::from("#![allow(warnings)]\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::core::*;\nuse vstd::std_specs::cmp::*;\nuse core::cmp::Ordering;\nuse core::ops::*;\nverus! {\n");
    out.push_str(&prelude);
    out.push_str("\n// ---- types of the source\n");
    for s in &structs {
        out.push_str(&s.to_string());
        out.push('\n');
    }
    out.push_str("\n// ---- specifications\n");
    out.push_str(&side.raw);
    out.push_str("\n// ---- traits of the source\n");
    for (n, txt) in &side.traits {
        let Some((t, _)) = traits.get(n) else {
            problems.push(format!("trait {} is gone", n));
            continue;
        };
        let (ig, _, wc) = t.generics.split_for_impl();
        out.push_str(&format!("pub trait {} {} : Sized {} {{\n{}", n, ig.to_token_stream(), wc.to_token_stream(), txt));
        for i in &t.items {
            if let TraitItem::Fn(f) = i {
                let key = format!("{}::{}", n, f.sig.ident);
                if f.default.is_some() && !side.fns.contains_key(&key) {
                    continue;
                }
                let fc = side.fns.get(&key).cloned().unwrap_or_default();
                let (s, _, map) = sig_text(&f.sig, Some(&fc), &[]);
                out.push_str(&format!("{}\n{};\n", s.trim_start_matches("pub "), clauses(&fc, &map, true)));
            }
        }
        out.push_str("}\n");
    }
    out.push_str("\n// ---- functions of the source\n");
    let emit = |i: usize, out: &mut String, strip_pub: bool, res: &mut BTreeMap<usize, Res>| {
        if let Some(t) = texts.get(&i) {
            let start = out.lines().count() + 1;
            if strip_pub {
                out.push_str(&t.replacen("pub fn", "fn", 1));
            } else {
                out.push_str(t);
            }
            let end = out.lines().count();
            let r = res.get_mut(&i).unwrap();
            r.start = start;
            r.end = end;
        }
    };
    for im in &impls {
        let mut g = im.generics.clone();
        TypeFix { assoc: &[] }.visit_generics_mut(&mut g);
        let mut st = im.self_ty.clone();
        TypeFix { assoc: &[] }.visit_type_mut(&mut st);
        let gp = &g.params;
        let gp = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
        let wc = &g.where_clause;
        let any = im.fns.iter().any(|f| texts.contains_key(f));
        if !any {
            continue;
        }
        if im.kept {
            let tp = im.trait_.as_ref().unwrap().segments.last().unwrap().to_token_stream().to_string();
            out.push_str(&format!("impl {} {} for {} {} {{\n", gp, tp, st.to_token_stream(), wc.to_token_stream()));
            let k = format!("{} for {}", tp, im.name);
            match side.timpls.get(&k) {
                Some(t) => out.push_str(t),
                None => problems.push(format!("no specification for impl {}", k)),
            }
        } else {
            out.push_str(&format!("impl {} {} {} {{\n", gp, st.to_token_stream(), wc.to_token_stream()));
        }
        for f in &im.fns {
            emit(*f, &mut out, im.kept, &mut res);
        }
        out.push_str("}\n");
    }
    for f in &free {
        emit(*f, &mut out, false, &mut res);
    }
    out.push_str("\nfn main() {}\n}\n");
    let _ = format_ident!("x");
    std::fs::write(&out_p, &out).unwrap();
    let present: BTreeSet<String> = res.values().map(|r| r.key.clone()).collect();
    let missing: Vec<String> = side.fns.keys().filter(|k| !present.contains(*k) && !side.traits.contains_key(k.split("::").next().unwrap())).cloned().collect();
    let mut m = String::from("{\n\"fns\": [\n");
    let n = res.len();
    for (j, (i, r)) in res.iter().enumerate() {
        let _ = write!(m, " {{\"key\":{},\"file\":{},\"line\":{},\"verified\":{},\"contracted\":{},\"reason\":{},\"skel\":{},\"changed\":{},\"inlined\":{},\"start\":{},\"end\":{},\"loops\":{}}}{}\n", js(&r.key), js(&fns[*i].file), fns[*i].line, r.verified, r.contracted, js(&r.reason), js(&r.skel), r.changed, jl(&r.inlined), r.start, r.end, r.nloops, if j + 1 < n { "," } else { "" });
    }
    let helpers: Vec<String> = fns.iter().enumerate().filter(|(i, f)| !contracted(*i, f)).map(|(_, f)| f.key.clone()).collect();
    let _ = write!(m, "],\n\"missing\": {},\n\"problems\": {},\n\"uncontracted\": {}\n}}\n", jl(&missing), jl(&problems), jl(&helpers));
    std::fs::write(&meta_p, m).unwrap();
    if bless {
        let mut s = String::new();
        for r in res.values() {
            let _ = write!(s, "{}\t{}\t{}\n", r.key, r.skel, r.locals.join(","));
        }
        std::fs::write(&skel_file, s).unwrap();
    }
}
