//! The rewriting of one function body into the verifier's dialect.
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const MODULES: &[&str] = &[
    "crate", "super", "std", "core", "collections", "ops", "params", "process", "ndarray", "tools", "sampling", "reward", "structure_learning", "parameter_learning", "ctbn", "ctmp", "gamma", "distribution", "statrs", "function", "rand", "rand_chacha", "mem", "cmp", "hypothesis_test", "score_function", "score_based_algorithm", "constraint_based_algorithm", "reward_evaluation", "reward_function", "iter", "alloc", "vec", "string",
];

pub struct Helper {
    pub sig: Signature,
    pub body: Block,
}

pub struct Rw<'a> {
    pub nloop: usize,
    pub nclos: usize,
    pub skel: Vec<String>,
    pub err: Option<String>,
    pub hint: Option<Type>,
    pub closures: &'a BTreeMap<usize, String>,
    pub loop_ty: BTreeMap<usize, String>,
    pub panics: String,
    pub entropy: String,
    pub ops: bool,
    pub helpers: &'a BTreeMap<String, Helper>,
    pub depth: usize,
    pub inlined: BTreeSet<String>,
    pub has_dec: BTreeSet<usize>,
    pub all_dec: bool,
    pub calls: BTreeSet<String>,
}

#[derive(Clone)]
enum Src {
    Range(Expr, Expr),
    Vec(TokenStream),
    MutVec(Expr),
    MutAxis(Expr, TokenStream),
}
#[derive(Clone)]
enum Ad {
    Map(ExprClosure),
    Filter(ExprClosure),
    FilterMap(ExprClosure),
    TakeWhile(ExprClosure),
    Enumerate,
    Zip(Expr),
    Copied,
    Combinations(Expr),
    Flatten,
    Rev,
    Skip(Expr),
    Take(Expr),
}
#[derive(Clone)]
struct Pipe {
    src: Src,
    ads: Vec<Ad>,
    names: Vec<String>,
}
enum Term {
    Collect,
    ToVec,
    Sum(Option<Type>),
    Product(Option<Type>),
    Fold(Expr, ExprClosure),
    ForEach(ExprClosure),
    Any(ExprClosure),
    All(ExprClosure),
    FindMap(ExprClosure),
    MinBy(ExprClosure),
    Count,
    For(Pat, Block),
}

pub fn is_mut_ref(e: &Expr) -> Option<&Expr> {
    if let Expr::Reference(r) = e {
        if r.mutability.is_some() {
            return Some(&r.expr);
        }
    }
    None
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}
fn closure_of(e: &Expr) -> Option<ExprClosure> {
    match strip_paren(e) {
        Expr::Closure(c) => Some(c.clone()),
        Expr::Path(p) => {
            // a function used as a value: eta-expanded
            let v: ExprClosure = parse_quote!(|x__| #p(x__));
            Some(v)
        }
        _ => None,
    }
}
fn mark(kind: &str, l: usize) -> TokenStream {
    let s = format!("{} {}", kind, l);
    quote!(__m! { #s })
}

struct HasReturn(bool);
impl<'ast> syn::visit::Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_item_fn(&mut self, _: &'ast ItemFn) {}
}
pub fn has_return_e(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
pub fn has_return_b(e: &Block) -> bool {
    let mut h = HasReturn(false);
    syn::visit::Visit::visit_block(&mut h, e);
    h.0
}
struct HasContinue(bool);
impl<'ast> syn::visit::Visit<'ast> for HasContinue {
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
}
/// `if c { a; continue; } rest` becomes `if c { a; } else { rest }`.
fn guards_to_else(b: &mut Block) {
    for i in 0..b.stmts.len() {
        if let Stmt::Expr(Expr::If(x), _) = &mut b.stmts[i] {
            let last = matches!(x.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none());
            if last && x.else_branch.is_none() {
                x.then_branch.stmts.pop();
                let mut x = x.clone();
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
                guards_to_else(&mut rest);
                x.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                b.stmts[i] = Stmt::Expr(Expr::If(x), None);
                return;
            }
        }
    }
}
/// In a closure body `if c { a; return x; } rest` becomes `if c { a; x } else { rest }`, and a
/// return in tail position becomes its value.
pub struct ClosureReturns;
impl VisitMut for ClosureReturns {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        if has_return_e(&c.body) {
            let old = c.body.clone();
            tail_expr(&mut c.body);
            if has_return_e(&c.body) {
                c.body = old;
            }
        }
    }
}
fn is_chain(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Range(_) => true,
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter" | "into_iter" | "into_par_iter" | "par_iter" | "iter_mut" | "outer_iter" | "outer_iter_mut" | "axis_iter" | "axis_iter_mut" | "indexed_iter" | "enumerate" | "zip" | "filter" | "filter_map" | "take_while" | "combinations" | "flatten" | "copied" | "keys" | "values" | "rows" => true,
            "map" | "rev" | "skip" | "take" | "cloned" => is_chain(&m.receiver) || matches!(strip_paren(&m.receiver), Expr::MethodCall(r) if r.method == "get_node_indices"),
            "get_node_indices" => false,
            _ => false,
        },
        _ => false,
    }
}
/// Combinators of Option, Result and bool with a closure become the match they stand for.
pub struct Combinators {
    pub opts: BTreeSet<String>,
}
impl Combinators {
    fn is_opt(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Path(p) => p.path.get_ident().map(|i| self.opts.contains(&i.to_string())).unwrap_or(false),
            Expr::Reference(r) => self.is_opt(&r.expr),
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "get" | "get_mut" | "first" | "last" | "as_ref" | "as_mut" | "ok" | "checked_add" | "checked_sub" | "checked_mul" | "checked_div" | "checked_rem" | "partial_cmp" | "pop" | "then_some" | "find" | "position" | "find_map" => true,
                "take" | "replace" | "insert" => m.args.is_empty() || m.method == "replace",
                "clone" | "cloned" | "copied" | "flatten" | "map" | "filter" | "and_then" | "or" | "or_else" | "xor" => !is_chain(&m.receiver) && self.is_opt(&m.receiver),
                _ => false,
            },
            Expr::Call(c) => c.func.to_token_stream().to_string() == "Some",
            Expr::Match(m) => m.arms.last().map(|a| matches!(&*a.body, Expr::Path(p) if p.path.is_ident("None"))).unwrap_or(false),
            _ => false,
        }
    }
}
impl VisitMut for Combinators {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let (id, yes) = match &l.pat {
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => (i.ident.to_string(), is_option_ty(&t.ty)),
                _ => return,
            },
            Pat::Ident(i) => (i.ident.to_string(), l.init.as_ref().map(|x| self.is_opt(&x.expr)).unwrap_or(false)),
            _ => return,
        };
        if yes {
            self.opts.insert(id);
        } else {
            self.opts.remove(&id);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = &*e else { return };
        if is_chain(&m.receiver) {
            return;
        }
        let r = &m.receiver;
        let clo = |i: usize, n: usize| -> Option<(Vec<TokenStream>, Expr)> {
            let c = closure_of(m.args.get(i)?)?;
            if has_return_e(&c.body) || c.inputs.len() != n {
                return None;
            }
            Some((c.inputs.iter().map(untyped).collect(), (*c.body).clone()))
        };
        // evaluated before the call: only what has no effect may move into an arm
        let pure = |x: &Expr| matches!(strip_paren(x), Expr::Lit(_) | Expr::Path(_) | Expr::Field(_));
        let name = m.method.to_string();
        let new: Option<Expr> = match (name.as_str(), m.args.len()) {
            ("map", 1) if self.is_opt(r) => clo(0, 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }),
            ("filter", 1) if self.is_opt(r) => clo(0, 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(opt_x) => { let opt_keep = { let #p = &opt_x; #b }; if opt_keep { Some(opt_x) } else { None } } None => None }) }),
            ("and_then", 1) if self.is_opt(r) => clo(0, 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => None }) }),
            ("is_some_and", 1) => clo(0, 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => false }) }),
            ("is_none_or", 1) => clo(0, 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => true }) }),
            ("map_or", 2) if self.is_opt(r) && pure(&m.args[0]) => clo(1, 1).map(|(p, b)| { let (p, d) = (&p[0], &m.args[0]); parse_quote!(match #r { Some(#p) => #b, None => #d }) }),
            ("map_or_else", 2) if self.is_opt(r) => clo(0, 0).zip(clo(1, 1)).map(|((_, d), (p, b))| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => #d }) }),
            ("unwrap_or_else", 1) => clo(0, 0).map(|(_, b)| parse_quote!(match #r { Some(opt_x) => opt_x, None => #b })).or_else(|| clo(0, 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Ok(opt_x) => opt_x, Err(#p) => #b }) })),
            ("or_else", 1) => clo(0, 0).map(|(_, b)| parse_quote!(match #r { Some(opt_x) => Some(opt_x), None => #b })),
            ("ok_or_else", 1) => clo(0, 0).map(|(_, b)| parse_quote!(match #r { Some(opt_x) => Ok(opt_x), None => Err(#b) })),
            ("map_err", 1) => clo(0, 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Ok(opt_x) => Ok(opt_x), Err(#p) => Err(#b) }) }),
            ("then", 1) => clo(0, 0).map(|(_, b)| parse_quote!(if #r { Some(#b) } else { None })),
            ("then_some", 1) if pure(&m.args[0]) => { let b = &m.args[0]; Some(parse_quote!(if #r { Some(#b) } else { None })) }
            ("flatten", 0) if self.is_opt(r) => Some(parse_quote!(match #r { Some(opt_x) => opt_x, None => None })),
            _ => None,
        };
        if let Some(n) = new {
            *e = parse_quote!((#n));
        }
    }
}
fn is_option_ty(t: &Type) -> bool {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false),
        Type::Reference(r) => is_option_ty(&r.elem),
        Type::Paren(p) => is_option_ty(&p.elem),
        _ => false,
    }
}
pub fn option_params(sig: &Signature) -> BTreeSet<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) if is_option_ty(&t.ty) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
/// `loop { if c { break; } rest }` and `while true { if c { break; } rest }` become `while !c { rest }`.
pub struct Loops;
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let b = match &*e {
            Expr::Loop(l) if l.label.is_none() => &l.body,
            Expr::While(w) if w.label.is_none() && matches!(&*w.cond, Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) if b.value) => &w.body,
            _ => return,
        };
        let Some(Stmt::Expr(Expr::If(i), _)) = b.stmts.first() else { return };
        let only_break = i.then_branch.stmts.len() == 1 && matches!(&i.then_branch.stmts[0], Stmt::Expr(Expr::Break(x), _) if x.expr.is_none() && x.label.is_none());
        if !only_break || matches!(&*i.cond, Expr::Let(_)) {
            return;
        }
        let c = &i.cond;
        let mut rest: Vec<Stmt> = vec![];
        if let Some((_, x)) = &i.else_branch {
            rest.push(Stmt::Expr((**x).clone(), Some(Default::default())));
        }
        rest.extend(b.stmts[1..].iter().cloned());
        let neg: Expr = match strip_paren(c) {
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => { let (l, r) = (&b.left, &b.right); parse_quote!(#l != #r) }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
            x => parse_quote!(!(#x)),
        };
        *e = parse_quote!(while #neg { #(#rest)* });
    }
}
fn tail_expr(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            if let Some(x) = r.expr.take() {
                *e = *x;
            }
        }
        Expr::Block(b) if b.label.is_none() => tail_block(&mut b.block),
        Expr::If(i) => {
            tail_block(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                tail_expr(x);
            }
        }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| tail_expr(&mut a.body)),
        Expr::Paren(p) => tail_expr(&mut p.expr),
        _ => {}
    }
}
fn tail_block(b: &mut Block) {
    for i in 0..b.stmts.len() {
        if let Stmt::Expr(Expr::If(x), _) = &b.stmts[i] {
            let last = matches!(x.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(r), _)) if r.expr.is_some());
            if last && x.else_branch.is_none() && i + 1 < b.stmts.len() {
                let mut x = x.clone();
                let rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
                x.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                b.stmts[i] = Stmt::Expr(Expr::If(x), None);
                break;
            }
        }
    }
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if matches!(e, Expr::Return(_)) {
            *semi = None;
        }
        if semi.is_none() {
            tail_expr(e);
        }
    }
}
struct HasBreak(bool);
impl<'ast> syn::visit::Visit<'ast> for HasBreak {
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
    fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

impl<'a> Rw<'a> {
    fn fail(&mut self, s: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(s.into());
        }
    }

    /// Some(pipeline) when `e` is an iterator chain (without a terminal).
    fn pipe(&mut self, e: &Expr, any: bool) -> Option<Pipe> {
        let e = strip_paren(e);
        match e {
            Expr::Range(r) => {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    return Some(Pipe { src: Src::Range((**a).clone(), (**b).clone()), ads: vec![], names: vec!["range".into()] });
                }
                self.fail("range form");
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = &m.receiver;
                let arg = |i: usize| m.args.iter().nth(i);
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => Some(self.src(quote!(#recv.iter_v()), "iter")),
                    ("into_iter" | "into_par_iter" | "par_iter", 0) => {
                        // on a range or a chain: the chain itself
                        if matches!(strip_paren(recv), Expr::Range(_)) {
                            return self.pipe(recv, true);
                        }
                        if let Some(p) = self.pipe(recv, false) {
                            return Some(p);
                        }
                        if name == "par_iter" {
                            return Some(self.src(quote!(#recv.iter_v()), "iter"));
                        }
                        Some(self.src(quote!(#recv.into_iter_v()), "into_iter"))
                    }
                    ("iter_mut", 0) => Some(Pipe { src: Src::MutVec((**recv).clone()), ads: vec![], names: vec!["iter_mut".into()] }),
                    ("outer_iter_mut", 0) => Some(Pipe { src: Src::MutAxis((**recv).clone(), quote!(Axis(0))), ads: vec![], names: vec!["axis_iter_mut".into()] }),
                    ("axis_iter_mut", 1) => {
                        let a = arg(0).unwrap();
                        Some(Pipe { src: Src::MutAxis((**recv).clone(), quote!(#a)), ads: vec![], names: vec!["axis_iter_mut".into()] })
                    }
                    ("outer_iter", 0) => Some(self.src(quote!(#recv.axis_iter_v(Axis(0))), "axis_iter")),
                    ("axis_iter", 1) => {
                        let a = arg(0).unwrap();
                        Some(self.src(quote!(#recv.axis_iter_v(#a)), "axis_iter"))
                    }
                    ("rows", 0) => Some(self.src(quote!(#recv.axis_iter_v(Axis(0))), "axis_iter")),
                    ("indexed_iter", 0) => Some(self.src(quote!(#recv.indexed_iter_v()), "indexed_iter")),
                    ("keys", 0) => Some(self.src(quote!(#recv.keys_v()), "keys")),
                    ("values", 0) => Some(self.src(quote!(#recv.values_v()), "values")),
                    ("chars", 0) => None,
                    ("map" | "filter" | "filter_map" | "take_while", 1) => {
                        let mut p = self.pipe(recv, any)?;
                        let c = match closure_of(arg(0).unwrap()) {
                            Some(c) => c,
                            None => {
                                self.fail("adaptor without a closure");
                                return None;
                            }
                        };
                        p.ads.push(match name.as_str() {
                            "map" => Ad::Map(c),
                            "filter" => Ad::Filter(c),
                            "filter_map" => Ad::FilterMap(c),
                            _ => Ad::TakeWhile(c),
                        });
                        p.names.push(name);
                        Some(p)
                    }
                    ("enumerate" | "copied" | "cloned" | "flatten" | "rev", 0) => {
                        let mut p = self.pipe(recv, any)?;
                        p.ads.push(match name.as_str() {
                            "enumerate" => Ad::Enumerate,
                            "flatten" => Ad::Flatten,
                            "rev" => Ad::Rev,
                            _ => Ad::Copied,
                        });
                        p.names.push(name);
                        Some(p)
                    }
                    ("zip" | "combinations" | "skip" | "take", 1) => {
                        let mut p = self.pipe(recv, any)?;
                        let x = arg(0).unwrap().clone();
                        p.ads.push(match name.as_str() {
                            "zip" => Ad::Zip(x),
                            "combinations" => Ad::Combinations(x),
                            "skip" => Ad::Skip(x),
                            _ => Ad::Take(x),
                        });
                        p.names.push(name);
                        Some(p)
                    }
                    _ if any => Some(self.src(quote!(#e.into_iter_v()), "into_iter")),
                    _ => None,
                }
            }
            Expr::Reference(r) if any => {
                let x = &r.expr;
                if r.mutability.is_some() {
                    Some(Pipe { src: Src::MutVec((**x).clone()), ads: vec![], names: vec!["iter_mut".into()] })
                } else {
                    Some(self.src(quote!((#x).iter_v()), "iter"))
                }
            }
            _ if any => Some(self.src(quote!((#e).into_iter_v()), "into_iter")),
            _ => None,
        }
    }
    fn src(&self, t: TokenStream, n: &str) -> Pipe {
        Pipe { src: Src::Vec(t), ads: vec![], names: vec![n.into()] }
    }
    /// true if `e` (a receiver of a terminal) is an iterator: it has a source method or an adaptor over a call.
    fn is_chain(&self, e: &Expr) -> bool {
        is_chain(e)
    }
    /// A vector holding the elements of an iterator expression.
    fn mat(&mut self, e: &Expr) -> TokenStream {
        match self.pipe(e, true) {
            Some(p) if p.ads.is_empty() => match p.src {
                Src::Vec(t) => t,
                Src::Range(a, b) => quote!(range_v(#a, #b)),
                _ => {
                    self.fail("mutable iterator used as a value");
                    quote!(())
                }
            },
            Some(p) => self.desugar(p, Term::ToVec),
            None => {
                self.fail("iterator form");
                quote!(())
            }
        }
    }

    fn desugar(&mut self, p: Pipe, term: Term) -> TokenStream {
        // split at adaptors that need the elements so far as a vector
        let mut ads: Vec<Ad> = vec![];
        let mut src = p.src.clone();
        let mut one_to_one = true;
        let mut names: Vec<String> = vec![p.names[0].clone()];
        let mut seen_zip = false;
        for (i, a) in p.ads.iter().enumerate() {
            let needs_vec = match a {
                Ad::Combinations(_) | Ad::Flatten | Ad::Rev | Ad::Skip(_) | Ad::Take(_) => true,
                Ad::Enumerate | Ad::Zip(_) => !one_to_one || (matches!(src, Src::Range(..))),
                _ => false,
            };
            if needs_vec {
                let base = if ads.is_empty() {
                    match &src {
                        Src::Vec(t) => t.clone(),
                        Src::Range(a, b) => quote!(range_v(#a, #b)),
                        _ => {
                            self.fail("mutable iterator in this position");
                            quote!(())
                        }
                    }
                } else {
                    let q = Pipe { src: src.clone(), ads: std::mem::take(&mut ads), names: names.clone() };
                    self.desugar(q, Term::ToVec)
                };
                src = Src::Vec(match a {
                    Ad::Combinations(n) => quote!(combinations_v(#base, #n)),
                    Ad::Flatten => quote!(flatten_v(#base)),
                    Ad::Rev => quote!(rev_v(#base)),
                    Ad::Skip(n) => quote!(skip_v(#base, #n)),
                    Ad::Take(n) => quote!(take_v(#base, #n)),
                    _ => base,
                });
                names = vec![p.names[i + 1].clone()];
                one_to_one = true;
                seen_zip = false;
                if !matches!(a, Ad::Enumerate | Ad::Zip(_)) {
                    continue;
                }
            }
            if matches!(a, Ad::Filter(_) | Ad::FilterMap(_) | Ad::TakeWhile(_)) {
                one_to_one = false;
            }
            if matches!(a, Ad::Zip(_)) {
                seen_zip = true;
            }
            ads.push(a.clone());
            names.push(p.names[i + 1].clone());
        }
        let _ = seen_zip;
        self.nloop += 1;
        let l = self.nloop;
        let tname = match &term {
            Term::Collect | Term::ToVec => "collect",
            Term::Sum(_) => "sum",
            Term::Product(_) => "product",
            Term::Fold(..) => "fold",
            Term::ForEach(_) | Term::For(..) => "for",
            Term::Any(_) => "any",
            Term::All(_) => "all",
            Term::FindMap(_) => "find_map",
            Term::MinBy(_) => "min_by",
            Term::Count => "count",
        };
        self.skel.push(format!("{}:{}.{}", l, names.join("."), tname));

        let k = format_ident!("k_{}", l);
        let it = format_ident!("it_{}", l);
        let end = format_ident!("end_{}", l);
        let cell = format_ident!("cell_{}", l);
        let out = format_ident!("out_{}", l);
        let acc = format_ident!("acc_{}", l);
        let res = format_ident!("res_{}", l);
        let stop = format_ident!("stop_{}", l);
        let mut head = quote!();
        let mut cond;
        let elem0: TokenStream;
        let mut bottom = quote!();
        let mut top = quote!();
        match &src {
            Src::Range(a, b) => {
                head.extend(quote!(let mut #k = #a; let #end = #b;));
                cond = quote!(#k < #end);
                let x = format_ident!("e_{}", l);
                top.extend(quote!(let #x = #k; #k = #k + 1;));
                elem0 = quote!(#x);
            }
            Src::Vec(t) => {
                head.extend(quote!(let #it = #t; let mut #k: usize = 0;));
                cond = quote!(#k < #it.len_v());
                let x = format_ident!("e_{}", l);
                top.extend(quote!(let #x = #it.at_v(#k); #k = #k + 1;));
                elem0 = quote!(#x);
            }
            Src::MutVec(e) => {
                head.extend(quote!(let mut #k: usize = 0; let #end = #e.len_v();));
                cond = quote!(#k < #end);
                top.extend(quote!(let mut #cell = #e.at_v(#k); #k = #k + 1;));
                bottom.extend(quote!(#e.put_v(#k - 1, #cell);));
                elem0 = quote!(&mut #cell);
            }
            Src::MutAxis(e, ax) => {
                head.extend(quote!(let mut #k: usize = 0; let #end = #e.axis_len_v(#ax);));
                cond = quote!(#k < #end);
                top.extend(quote!(let mut #cell = #e.index_axis(#ax, #k); #k = #k + 1;));
                bottom.extend(quote!(#e.put_axis_v(#ax, #k - 1, #cell);));
                elem0 = quote!(&mut #cell);
            }
        }
        // zips
        let mut nz = 0usize;
        let mut zs: Vec<Ident> = vec![];
        for a in &ads {
            if let Ad::Zip(e) = a {
                nz += 1;
                let z = format_ident!("zip_{}_{}", l, nz);
                let t = self.mat(e);
                head.extend(quote!(let #z = #t;));
                cond.extend(quote!(&& #k < #z.len_v()));
                zs.push(z);
            }
        }
        let has_tw = ads.iter().any(|a| matches!(a, Ad::TakeWhile(_)));
        if has_tw {
            head.extend(quote!(let mut #stop = false;));
            cond.extend(quote!(&& !#stop));
        }
        let mut tail = quote!(());
        // terminal statement given the element
        let mut hasbreak = false;
        let tstmt: Box<dyn Fn(TokenStream) -> TokenStream> = match &term {
            Term::Collect | Term::ToVec => {
                head.extend(quote!(let mut #out = Vec::new();));
                tail = if matches!(term, Term::Collect) { quote!(from_vec_v(#out)) } else { quote!(#out) };
                let out = out.clone();
                Box::new(move |e| quote!(#out.push(#e);))
            }
            Term::Sum(t) | Term::Product(t) => {
                let is_sum = matches!(term, Term::Sum(_));
                let ty = self
                    .loop_ty
                    .get(&l)
                    .map(|s| s.trim().to_string())
                    .or(t.as_ref().map(|t| t.to_token_stream().to_string()))
                    .unwrap_or("usize".into());
                let ty = ty.as_str();
                let float = ty == "f64" || ty == "F64";
                let (tt, z): (TokenStream, TokenStream) = match (float, is_sum) {
                    (true, true) => (quote!(F64), quote!(0.0)),
                    (true, false) => (quote!(F64), quote!(1.0)),
                    (false, s) => {
                        let i: TokenStream = ty.parse().unwrap();
                        (i, if s { quote!(0) } else { quote!(1) })
                    }
                };
                head.extend(quote!(let mut #acc: #tt = #z;));
                tail = quote!(#acc);
                let acc = acc.clone();
                Box::new(move |e| if is_sum { quote!(#acc = #acc + val_v(#e);) } else { quote!(#acc = #acc * val_v(#e);) })
            }
            Term::Count => {
                head.extend(quote!(let mut #acc: usize = 0;));
                tail = quote!(#acc);
                let acc = acc.clone();
                Box::new(move |_e| quote!(#acc = #acc + 1;))
            }
            Term::Fold(init, c) => {
                head.extend(quote!(let mut #acc = #init;));
                tail = quote!(#acc);
                if c.inputs.len() != 2 {
                    self.fail("fold closure");
                    return quote!(());
                }
                let (pa, px, body) = (untyped(&c.inputs[0]), untyped(&c.inputs[1]), c.body.clone());
                let acc = acc.clone();
                Box::new(move |e| quote!(let #px = #e; let #pa = #acc; #acc = #body;))
            }
            Term::ForEach(c) => {
                let (px, body) = (untyped(&c.inputs[0]), c.body.clone());
                Box::new(move |e| quote!(let #px = #e; #body;))
            }
            Term::For(pat, body) => {
                let mut plain = body.clone();
                if !bottom.is_empty() {
                    guards_to_else(&mut plain);
                }
                let body = &plain;
                let mut h = HasBreak(false);
                syn::visit::Visit::visit_block(&mut h, body);
                hasbreak = h.0;
                let mut hc = HasContinue(false);
                syn::visit::Visit::visit_block(&mut hc, body);
                if hc.0 && !bottom.is_empty() {
                    self.fail("continue, break or return in a loop over mutable elements");
                }
                let (pat, stmts) = (pat.clone(), body.stmts.clone());
                Box::new(move |e| quote!(let #pat = #e; #(#stmts)*))
            }
            Term::Any(c) | Term::All(c) => {
                let any = matches!(term, Term::Any(_));
                head.extend(if any { quote!(let mut #res = false;) } else { quote!(let mut #res = true;) });
                cond.extend(if any { quote!(&& !#res) } else { quote!(&& #res) });
                tail = quote!(#res);
                let (px, body) = (untyped(&c.inputs[0]), c.body.clone());
                let res = res.clone();
                Box::new(move |e| quote!(let #px = #e; #res = #body;))
            }
            Term::FindMap(c) => {
                head.extend(quote!(let mut #res = None;));
                cond.extend(quote!(&& #res.is_none()));
                tail = quote!(#res);
                let (px, body) = (untyped(&c.inputs[0]), c.body.clone());
                let res = res.clone();
                Box::new(move |e| quote!(let #px = #e; #res = #body;))
            }
            Term::MinBy(c) => {
                head.extend(quote!(let mut #res = None;));
                tail = quote!(#res);
                let (pa, pb, body) = (untyped(&c.inputs[0]), untyped(&c.inputs[1]), c.body.clone());
                let res = res.clone();
                let cand = format_ident!("cand_{}", l);
                let cur = format_ident!("cur_{}", l);
                let ord = format_ident!("ord_{}", l);
                Box::new(move |e| {
                    quote!(let #cand = #e; match #res { None => { #res = Some(#cand); } Some(#cur) => {
                        let #ord = { let #pa = &#cur; let #pb = &#cand; #body };
                        match #ord { Ordering::Greater => { #res = Some(#cand); } _ => {} } } })
                })
            }
        };
        for c in ads.iter().filter_map(|a| match a {
            Ad::Map(c) | Ad::Filter(c) | Ad::FilterMap(c) | Ad::TakeWhile(c) => Some(c),
            _ => None,
        }) {
            if has_return_e(&c.body) || c.inputs.len() != 1 {
                self.fail("closure with return or several parameters");
                return quote!(());
            }
        }
        if let Term::Fold(_, c) | Term::ForEach(c) | Term::Any(c) | Term::All(c) | Term::FindMap(c) | Term::MinBy(c) = &term {
            if has_return_e(&c.body) {
                self.fail("closure with return");
            }
        }
        let body = emit(&ads, 0, elem0, l, 1, &mut zs.into_iter(), &tstmt, &k);
        let inv = mark(if hasbreak { "invb" } else { "inv" }, l);
        let dec_auto = match &src {
            Src::Range(..) | Src::MutVec(_) | Src::MutAxis(..) => quote!(#end - #k),
            Src::Vec(_) => quote!(#it.len() - #k),
        };
        let auto = {
            let mut s = match &src {
                Src::Range(a, _) => {
                    let _ = a;
                    format!("{} <= {} || {} == {}@@START@@,", k, end, k, k)
                }
                Src::Vec(_) => format!("{} <= {}.len(),", k, it),
                _ => format!("{} <= {},", k, end),
            };
            s = s.replace(&format!(" || {} == {}@@START@@", k, k), "");
            if matches!(src, Src::Range(..)) {
                s.clear();
            }
            if matches!(term, Term::Collect | Term::ToVec) && one_to_one && !matches!(src, Src::Range(..)) {
                s.push_str(&format!(" {}.len() == {},", out, k));
            }
            for i in 1..=nz {
                s.push_str(&format!(" {} <= zip_{}_{}.len(),", k, l, i));
            }
            s
        };
        let auto_m = format!("auto {} {}", l, auto);
        let dec_m = format!("dec {} {}", l, dec_auto.to_string());
        let (pre, tp, bot, post) = (mark("pre", l), mark("top", l), mark("bot", l), mark("post", l));
        let whole = quote! {{
            #head
            #pre
            while #cond { #inv __m!{#auto_m} __m!{#dec_m} #top #tp #body #bottom #bot }
            #post
            #tail
        }};
        whole
    }

    fn closure_text(&mut self, c: &ExprClosure) -> Expr {
        self.nclos += 1;
        let n = self.nclos;
        let names: Vec<String> = c.inputs.iter().map(|p| untyped(p).to_token_stream().to_string()).collect();
        let m = format!("closure {} {}", n, names.join(","));
        let body = &c.body;
        if c.inputs.len() == 1 {
            if let (Some(sp), Ok(p)) = (auto_spec(body), syn::parse_str::<TokenStream>(names[0].trim_start_matches('&').trim())) {
                return parse_quote!(__cla!{ { | #p | -> (c__: F64) ensures c__.g@ == #sp }, #body });
            }
        }
        self.skel.push(format!("closure{}", n));
        parse_quote!(__clo!{ #m, #body })
    }
}

/// The value of a closure body that only computes with floats, as a spec expression: its contract.
fn auto_spec(e: &Expr) -> Option<TokenStream> {
    Some(match e {
        Expr::Paren(p) => auto_spec(&p.expr)?,
        Expr::Group(p) => auto_spec(&p.expr)?,
        Expr::Reference(r) => auto_spec(&r.expr)?,
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => auto_spec(x)?,
            _ => return None,
        },
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => auto_spec(&u.expr)?,
        Expr::Path(p) if p.path.get_ident().is_some() => quote!(#p.g@),
        Expr::Field(f) => {
            let _ = auto_spec(&f.base)?;
            quote!(#f.g@)
        }
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            match (f.as_str(), c.args.len()) {
                ("to_f64_v", 1) => {
                    let a = int_spec(&c.args[0])?;
                    quote!(Fl::Fin(#a as real))
                }
                ("F64::lit", 1) => {
                    let Expr::Macro(m) = &c.args[0] else { return None };
                    let l: syn::LitStr = syn::parse2(m.mac.tokens.clone()).ok()?;
                    let t: TokenStream = l.value().parse().ok()?;
                    quote!(Fl::Fin(#t))
                }
                ("F64::sqrt", 1) => fl_call("fsqrt", &[&c.args[0]])?,
                ("F64::ln", 1) => fl_call("fln", &[&c.args[0]])?,
                ("F64::abs", 1) => fl_call("fabs", &[&c.args[0]])?,
                _ => return None,
            }
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let r = &m.receiver;
            match (n.as_str(), m.args.len()) {
                ("neg_v", 0) => fl_call("fneg", &[r])?,
                ("sqrt", 0) => fl_call("fsqrt", &[r])?,
                ("abs", 0) => fl_call("fabs", &[r])?,
                ("ln", 0) => fl_call("fln", &[r])?,
                ("clone", 0) => auto_spec(r)?,
                ("recip", 0) => {
                    let a = auto_spec(r)?;
                    quote!(fdiv(Fl::Fin(1real), #a))
                }
                ("powi", 1) if m.args[0].to_token_stream().to_string() == "2" => fl_call("fmul", &[r, r])?,
                ("add_v", 1) => fl_call("fadd", &[r, &m.args[0]])?,
                ("sub_v", 1) => fl_call("fsub", &[r, &m.args[0]])?,
                ("mul_v", 1) => fl_call("fmul", &[r, &m.args[0]])?,
                ("div_v", 1) => fl_call("fdiv", &[r, &m.args[0]])?,
                ("max", 1) => fl_call("fmax", &[r, &m.args[0]])?,
                ("min", 1) => fl_call("fmin", &[r, &m.args[0]])?,
                ("powf", 1) => fl_call("fpow", &[r, &m.args[0]])?,
                _ => return None,
            }
        }
        Expr::Binary(b) => match b.op {
            BinOp::Add(_) => fl_call("fadd", &[&b.left, &b.right])?,
            BinOp::Sub(_) => fl_call("fsub", &[&b.left, &b.right])?,
            BinOp::Mul(_) => fl_call("fmul", &[&b.left, &b.right])?,
            BinOp::Div(_) => fl_call("fdiv", &[&b.left, &b.right])?,
            _ => return None,
        },
        _ => return None,
    })
}

fn fl_call(f: &str, a: &[&Expr]) -> Option<TokenStream> {
    let f = Ident::new(f, Span::call_site());
    let a: Vec<TokenStream> = a.iter().map(|x| auto_spec(x)).collect::<Option<_>>()?;
    Some(quote!(#f(#(#a),*)))
}

fn int_spec(e: &Expr) -> Option<TokenStream> {
    Some(match e {
        Expr::Paren(p) => int_spec(&p.expr)?,
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
            let x = int_spec(&u.expr)?;
            quote!((*#x))
        }
        Expr::Path(p) if p.path.get_ident().is_some() => quote!(#p),
        _ => return None,
    })
}

fn untyped(p: &Pat) -> TokenStream {
    match p {
        Pat::Type(t) => {
            let q = &t.pat;
            quote!(#q)
        }
        _ => quote!(#p),
    }
}

#[allow(clippy::too_many_arguments)]
fn emit(ads: &[Ad], i: usize, e: TokenStream, l: usize, n: usize, zs: &mut dyn Iterator<Item = Ident>, t: &dyn Fn(TokenStream) -> TokenStream, k: &Ident) -> TokenStream {
    if i == ads.len() {
        return t(e);
    }
    let x = format_ident!("e_{}_{}", l, n);
    match &ads[i] {
        Ad::Map(c) => {
            let (p, b) = (untyped(&c.inputs[0]), &c.body);
            let rest = emit(ads, i + 1, quote!(#x), l, n + 1, zs, t, k);
            quote!(let #x = { let #p = #e; #b }; #rest)
        }
        Ad::Copied => emit(ads, i + 1, quote!(*(#e)), l, n, zs, t, k),
        Ad::Filter(c) => {
            let (p, b) = (untyped(&c.inputs[0]), &c.body);
            let rest = emit(ads, i + 1, quote!(#x), l, n + 1, zs, t, k);
            let kp = format_ident!("keep_{}_{}", l, n);
            quote!(let #x = #e; let #kp = { let #p = &#x; #b }; if #kp { #rest })
        }
        Ad::FilterMap(c) => {
            let (p, b) = (untyped(&c.inputs[0]), &c.body);
            let o = format_ident!("opt_{}_{}", l, n);
            let rest = emit(ads, i + 1, quote!(#x), l, n + 1, zs, t, k);
            quote!(let #o = { let #p = #e; #b }; match #o { Some(#x) => { #rest } None => {} })
        }
        Ad::TakeWhile(c) => {
            let (p, b) = (untyped(&c.inputs[0]), &c.body);
            let rest = emit(ads, i + 1, quote!(#x), l, n + 1, zs, t, k);
            let kp = format_ident!("keep_{}_{}", l, n);
            let stop = format_ident!("stop_{}", l);
            quote!(let #x = #e; let #kp = { let #p = &#x; #b }; if #kp { #rest } else { #stop = true; })
        }
        Ad::Enumerate => {
            emit(ads, i + 1, quote!((#k - 1, #e)), l, n, zs, t, k)
        }
        Ad::Zip(_) => {
            let z = zs.next().unwrap();
            emit(ads, i + 1, quote!((#e, #z.at_v(#k - 1))), l, n, zs, t, k)
        }
        _ => unreachable!(),
    }
}

fn lit_real(s: &str) -> Option<String> {
    // decimal or scientific notation to an exact ratio of integers
    let s: String = s.chars().filter(|c| *c != '_').collect();
    let s = s.trim_end_matches("f64").to_string();
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (s[..i].to_string(), s[i + 1..].parse::<i32>().ok()?),
        None => (s.clone(), 0),
    };
    let (a, b) = match m.find('.') {
        Some(i) => (m[..i].to_string(), m[i + 1..].to_string()),
        None => (m.clone(), String::new()),
    };
    let digits = format!("{}{}", a, b);
    let mut exp = e - b.len() as i32;
    let mut d = digits.trim_start_matches('0').to_string();
    if d.is_empty() {
        return Some("0real".into());
    }
    while d.ends_with('0') && exp < 0 {
        d.pop();
        exp += 1;
    }
    if exp >= 0 {
        Some(format!("{}{}real", d, "0".repeat(exp as usize)))
    } else {
        Some(format!("({}real / 1{}real)", d, "0".repeat((-exp) as usize)))
    }
}

pub const LOGS: &[&str] = &["debug", "info", "warn", "trace", "error", "println", "eprintln", "print", "eprint", "log"];

/// Logging is dropped with its arguments; this says why it may not be: an argument that could do more than read.
pub fn log_effect(m: &syn::Macro) -> Option<String> {
    use syn::visit::Visit;
    struct V(Option<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr(&mut self, e: &'ast Expr) {
            let bad = match e {
                Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Index(_) | Expr::Paren(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Tuple(_) | Expr::Range(_) => None,
                Expr::Reference(r) if r.mutability.is_none() => None,
                Expr::Assign(_) => Some("assignment".to_string()),
                Expr::Binary(b) => match b.op {
                    BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => None,
                    _ => Some("assignment".to_string()),
                },
                Expr::MethodCall(c) => {
                    let n = c.method.to_string();
                    let ok = n.starts_with("get_") && !n.starts_with("get_random") && !n.ends_with("_mut")
                        || ["len", "is_empty", "clone", "as_ref", "iter", "shape", "to_string", "is_some", "is_none", "unwrap", "sum", "label", "first", "last"].contains(&n.as_str());
                    if ok { None } else { Some(format!("call of {}", n)) }
                }
                _ => Some("expression outside the list".to_string()),
            };
            if let Some(b) = bad {
                self.0.get_or_insert(b);
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let args = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated);
    let Ok(args) = args else { return Some("unreadable arguments".to_string()) };
    let mut v = V(None);
    for a in args.iter() {
        // name = value
        match a {
            Expr::Assign(x) if matches!(*x.left, Expr::Path(_)) => v.visit_expr(&x.right),
            _ => v.visit_expr(a),
        }
    }
    v.0
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter() {
            let m = match s {
                Stmt::Macro(m) => &m.mac,
                Stmt::Expr(Expr::Macro(m), _) => &m.mac,
                _ => continue,
            };
            if m.path.segments.last().map(|x| LOGS.contains(&x.ident.to_string().as_str())).unwrap_or(false) {
                if let Some(w) = log_effect(m) {
                    self.fail(format!("logging with a possible effect: {}", w));
                }
            }
        }
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !m.mac.path.segments.last().map(|x| LOGS.contains(&x.ident.to_string().as_str())).unwrap_or(false),
            Stmt::Expr(Expr::Macro(m), _) => !m.mac.path.segments.last().map(|x| LOGS.contains(&x.ident.to_string().as_str())).unwrap_or(false),
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Expr(Expr::Tuple(t), Some(_)) => !t.elems.is_empty(),
            _ => true,
        });
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let e = ExprMacro { attrs: vec![], mac: m.mac.clone() };
                *s = Stmt::Expr(Expr::Macro(e), Some(Default::default()));
            }
            if matches!(s, Stmt::Item(_)) {
                self.fail("item inside a function");
            }
        }
        // A block that ends in a panic has whatever type is expected of it.
        if let Some(Stmt::Expr(Expr::Macro(m), semi)) = b.stmts.last_mut() {
            if matches!(m.mac.path.segments.last().map(|x| x.ident.to_string()).as_deref(), Some("panic" | "unimplemented" | "unreachable" | "todo")) {
                *semi = None;
            }
        }
        let names: Vec<Option<String>> = b
            .stmts
            .iter()
            .map(|s| match s {
                Stmt::Expr(Expr::MethodCall(m), Some(_)) => Some(m.method.to_string()),
                _ => None,
            })
            .collect();
        visit_mut::visit_block_mut(self, b);
        if names.iter().any(|n| n.as_ref().map(|n| self.calls.contains(n)).unwrap_or(false)) && names.len() == b.stmts.len() {
            let old = std::mem::take(&mut b.stmts);
            for (s, n) in old.into_iter().zip(names) {
                b.stmts.push(s);
                if let Some(n) = n.filter(|n| self.calls.contains(n)) {
                    let m = mark(&format!("call:{}", n), 0);
                    b.stmts.push(parse_quote!(#m;));
                }
            }
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        if let Pat::Type(t) = &l.pat {
            let ty = (*t.ty).clone();
            if let Some(i) = &l.init {
                if let Expr::MethodCall(m) = strip_paren(&i.expr) {
                    if (m.method == "sum" || m.method == "product") && m.turbofish.is_none() {
                        self.hint = Some(ty);
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() {
            return;
        }
        // --- before the children ---
        match e {
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let toks = m.mac.tokens.clone();
                match name.as_str() {
                    "panic" | "unimplemented" | "unreachable" | "todo" => {
                        let p = if self.panics.trim().is_empty() { "false".to_string() } else { self.panics.clone() };
                        *e = parse_quote!(panic_v(__gh!{ #p }));
                        return;
                    }
                    "vec" if toks.is_empty() => {
                        *e = parse_quote!(Vec::new());
                        return;
                    }
                    "vec" => {
                        if let Ok(args) = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, toks.clone()) {
                            let n = format_ident!("vec_of_{}", args.len());
                            let a = args.iter();
                            *e = parse_quote!(#n(#(#a),*));
                            visit_mut::visit_expr_mut(self, e);
                        } else if let Ok(r) = syn::parse2::<ExprRepeat>(quote!([#toks])) {
                            let (x, n) = (r.expr, r.len);
                            *e = parse_quote!(vec_rep(#x, #n));
                            visit_mut::visit_expr_mut(self, e);
                        } else {
                            self.fail("vec! form");
                        }
                        return;
                    }
                    "format" => {
                        *e = parse_quote!(fmt_v());
                        return;
                    }
                    "assert" | "debug_assert" => {
                        if let Ok(args) = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, toks.clone()) {
                            let c = &args[0];
                            let p = if self.panics.trim().is_empty() { "false".to_string() } else { self.panics.clone() };
                            let mut c2: Expr = parse_quote!(!(#c));
                            self.visit_expr_mut(&mut c2);
                            *e = parse_quote!(if #c2 { panic_v(__gh!{ #p }) });
                        } else {
                            self.fail("assert form");
                        }
                        return;
                    }
                    "matches" => {
                        let s = toks.to_string();
                        let _ = s;
                        return;
                    }
                    "__m" | "__gh" | "__clo" | "__cla" => return,
                    x if LOGS.contains(&x) => {
                        if let Some(w) = log_effect(&m.mac) {
                            self.fail(format!("logging with a possible effect: {}", w));
                        }
                        *e = parse_quote!(());
                        return;
                    }
                    x => {
                        self.fail(format!("macro {}!", x));
                        return;
                    }
                }
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    self.fail("labelled loop");
                    return;
                }
                let (pat, body, src) = ((*f.pat).clone(), f.body.clone(), (*f.expr).clone());
                if let Some(p) = self.pipe(&src, true) {
                    let t = self.desugar(p, Term::For(pat, body));
                    match parse2::<Expr>(t.clone()) {
                        Ok(x) => *e = x,
                        Err(er) => {
                            self.fail(format!("internal: {} in {}", er, t));
                            return;
                        }
                    }
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                self.fail("for form");
                return;
            }
            Expr::While(w) if !is_generated(&w.body) => {
                if w.label.is_some() || matches!(&*w.cond, Expr::Let(_)) {
                    self.fail("while form");
                    return;
                }
                self.nloop += 1;
                let l = self.nloop;
                self.skel.push(format!("{}:while", l));
                let mut h = HasBreak(false);
                syn::visit::Visit::visit_block(&mut h, &w.body);
                let inv = mark(if h.0 { "invb" } else { "inv" }, l);
                let (pre, tp, bot, post) = (mark("pre", l), mark("top", l), mark("bot", l), mark("post", l));
                if !self.has_dec.contains(&l) {
                    self.all_dec = false;
                }
                let dec = format!("dec {} ", l);
                let (c, s) = (&w.cond, &w.body.stmts);
                *e = parse_quote!({ #pre while #c { #inv __m!{#dec} #tp #(#s)* #bot } #post });
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Loop(_) => {
                self.fail("loop form");
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let n = m.args.len();
                let chain = self.is_chain(&m.receiver);
                let term = match (name.as_str(), n) {
                    ("collect", 0) => Some(Term::Collect),
                    ("collect_vec", 0) => Some(Term::ToVec),
                    ("sum" | "product", 0) if chain => {
                        let t = match &m.turbofish {
                            Some(t) => t.args.iter().find_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }),
                            None => self.hint.take(),
                        };
                        Some(if name == "sum" { Term::Sum(t) } else { Term::Product(t) })
                    }
                    ("count", 0) if chain => Some(Term::Count),
                    ("fold", 2) if chain => closure_of(&m.args[1]).map(|c| Term::Fold(m.args[0].clone(), c)),
                    ("for_each", 1) if chain => closure_of(&m.args[0]).map(Term::ForEach),
                    ("any", 1) if chain => closure_of(&m.args[0]).map(Term::Any),
                    ("all", 1) if chain => closure_of(&m.args[0]).map(Term::All),
                    ("find_map", 1) if chain => closure_of(&m.args[0]).map(Term::FindMap),
                    ("find", 1) if chain => closure_of(&m.args[0]).map(|c| {
                        let (p, b) = (untyped(&c.inputs[0]), &c.body);
                        Term::FindMap(parse_quote!(|find_x| { let find_keep = { let #p = &find_x; #b }; if find_keep { Some(find_x) } else { None } }))
                    }),
                    ("min_by", 1) if chain => closure_of(&m.args[0]).map(Term::MinBy),
                    _ => None,
                };
                if let Some(term) = term {
                    let recv = (*m.receiver).clone();
                    let turbo = m.turbofish.clone();
                    if let Some(p) = self.pipe(&recv, true) {
                        let is_collect = matches!(term, Term::Collect);
                        let bare = matches!(term, Term::Collect) && p.ads.is_empty();
                        let t = if bare {
                            let v = self.mat(&recv);
                            quote!(from_vec_v(#v))
                        } else {
                            self.desugar(p, term)
                        };
                        let t = match (is_collect, turbo) {
                            (true, Some(tb)) => {
                                let a = &tb.args;
                                let x = format_ident!("typed_{}", self.nloop);
                                quote!({ let #x: #a = #t; #x })
                            }
                            _ => t,
                        };
                        match parse2::<Expr>(t.clone()) {
                            Ok(x) => *e = x,
                            Err(er) => {
                                self.fail(format!("internal: {} in {}", er, t));
                                return;
                            }
                        }
                        self.visit_inner(e);
                        return;
                    }
                    self.fail(format!("iterator form before {}", name));
                    return;
                }
                // X.diag_mut().fill(v) / .assign(v)
                if name == "fill" || name == "assign" {
                    if let Expr::MethodCall(r) = &*m.receiver {
                        if r.method == "diag_mut" {
                            let (b, a) = (&r.receiver, &m.args);
                            let nm = format_ident!("diag_{}_v", name);
                            *e = parse_quote!(#b.#nm(#a));
                            visit_mut::visit_expr_mut(self, e);
                            self.post(e);
                            return;
                        }
                        if r.method == "column_mut" || r.method == "row_mut" {
                            self.fail("row or column view");
                            return;
                        }
                    }
                }
                // slice(s![..])
                if name == "slice" && n == 1 {
                    if let Expr::Macro(mm) = &m.args[0] {
                        if mm.mac.path.is_ident("s") {
                            if let Ok(args) = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, mm.mac.tokens.clone()) {
                                let mut nm = String::from("slice_");
                                let mut keep: Vec<Expr> = vec![];
                                for a in args {
                                    if let Expr::Range(r) = &a {
                                        if r.start.is_none() && r.end.is_none() {
                                            nm.push('a');
                                            continue;
                                        }
                                        self.fail("slice range");
                                        return;
                                    }
                                    nm.push('i');
                                    keep.push(a);
                                }
                                let nm = Ident::new(&nm, Span::call_site());
                                let r = &m.receiver;
                                *e = parse_quote!(#r.#nm(#(#keep),*));
                                visit_mut::visit_expr_mut(self, e);
                                self.post(e);
                                return;
                            }
                        }
                    }
                }
                // random ranges
                if name == "gen_range" && n == 1 {
                    let r = &m.receiver;
                    let new: Expr = match strip_paren(&m.args[0]) {
                        Expr::Range(g) => {
                            let (a, b) = (&g.start, &g.end);
                            match g.limits {
                                RangeLimits::HalfOpen(_) => parse_quote!(#r.gen_range_v(#a, #b)),
                                RangeLimits::Closed(_) => parse_quote!(#r.gen_range_incl_v(#a, #b)),
                            }
                        }
                        x => parse_quote!(#r.gen_range_r_v(#x)),
                    };
                    *e = new;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                // v.par_extend(iter), v.extend(iter)
                if (name == "par_extend" || name == "extend") && n == 1 {
                    let a = m.args[0].clone();
                    let t = self.mat(&a);
                    let r = &m.receiver;
                    *e = parse_quote!({ let ext__ = #t; #r.extend_v(ext__); });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                // helper methods without a contract
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident("self") {
                        let key = format!("self.{}", name);
                        if self.inline(&key, e) {
                            return;
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let before = if segs.len() > 1 { segs[segs.len() - 2].clone() } else { String::new() };
                    if last == "from_iter" && c.args.len() == 1 {
                        let a = c.args[0].clone();
                        let t = self.mat(&a);
                        let ty = Ident::new(&before, Span::call_site());
                        let x = format_ident!("fi_{}", self.nloop);
                        *e = if before == "Array1" { parse_quote!({ let #x = #t; Array1::from_vec(#x) }) } else { parse_quote!({ let #x: #ty<_> = from_vec_v(#t); #x }) };
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                    if last == "from_shape_fn" && c.args.len() == 2 {
                        if let Some(cl) = closure_of(&c.args[1]) {
                            let sh = c.args[0].clone();
                            self.nloop += 1;
                            let l = self.nloop;
                            self.skel.push(format!("{}:from_shape_fn", l));
                            let (k, end, shv, out) = (format_ident!("k_{}", l), format_ident!("end_{}", l), format_ident!("sh_{}", l), format_ident!("out_{}", l));
                            let ty = Ident::new(&before, Span::call_site());
                            let pat = untyped(&cl.inputs[0]);
                            let bind = if pat.to_string() == "_" { quote!() } else { quote!(let #pat = unflat_v(#shv, #k - 1);) };
                            let body = &cl.body;
                            let (inv, pre, tp, bot, post) = (mark("inv", l), mark("pre", l), mark("top", l), mark("bot", l), mark("post", l));
                            let auto = format!("auto {} {} <= {}, {}.len() == {},", l, k, end, out, k);
                            let dec = format!("dec {} {} - {}", l, end, k);
                            *e = parse_quote!({
                                let #shv = #sh;
                                let #end = shape_size_v(#shv);
                                let mut #k: usize = 0;
                                let mut #out = Vec::new();
                                #pre
                                while #k < #end { #inv __m!{#auto} __m!{#dec} #k = #k + 1; #bind #tp #out.push(#body); #bot }
                                #post
                                #ty::from_flat_v(#shv, #out)
                            });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    if last == "from_entropy" || last == "thread_rng" && c.args.is_empty() {
                        let p = if self.entropy.trim().is_empty() { "false".to_string() } else { self.entropy.clone() };
                        *e = parse_quote!(Rng8::from_entropy(__gh!{ #p }));
                        return;
                    }
                    if last == "seed_from_u64" {
                        let a = &c.args;
                        *e = parse_quote!(Rng8::seed_from_u64(#a));
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                    let key = if segs[0] == "Self" && segs.len() == 2 { format!("self.{}", last) } else if segs.len() == 1 { last.clone() } else { format!("{}::{}", before, last) };
                    if self.inline(&key, e) {
                        return;
                    }
                }
            }
            Expr::Match(m) => {
                // match &mut f(..) where f returns a mutable reference
                if let Some(inner) = is_mut_ref(&m.expr) {
                    if matches!(strip_paren(inner), Expr::MethodCall(_) | Expr::Call(_)) {
                        let x = inner.clone();
                        m.expr = Box::new(x);
                    }
                }
                for a in m.arms.iter_mut() {
                    a.attrs.clear();
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        self.post(e);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }
}

fn is_generated(b: &Block) -> bool {
    b.stmts.first().map(|s| s.to_token_stream().to_string().starts_with("__m")).unwrap_or(false)
}

pub fn fix_path(p: &mut Path) {
    let n = p.segments.len();
    // std::f64::consts::E
    let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if n >= 2 {
        let keep_from = {
            let mut i = 0;
            while i + 1 < n && (MODULES.contains(&names[i].as_str()) || (names[i] == "self" && i == 0) || (names[i] == "f64" && i + 2 < n) || names[i] == "consts") {
                i += 1;
            }
            i
        };
        if keep_from > 0 {
            let segs: Vec<PathSegment> = p.segments.iter().skip(keep_from).cloned().collect();
            let consts = names[..keep_from].contains(&"consts".to_string());
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
            if consts {
                let c = p.segments[0].ident.to_string();
                p.segments[0].ident = Ident::new(&format!("F64CONST_{}", c), Span::call_site());
            }
        }
    }
    for s in p.segments.iter_mut() {
        let id = s.ident.to_string();
        let new = match id.as_str() {
            "f64" => "F64",
            "HashMap" => "HMap",
            "ChaCha8Rng" => "Rng8",
            _ => continue,
        };
        s.ident = Ident::new(new, s.ident.span());
    }
}

impl<'a> Rw<'a> {
    fn visit_inner(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
    }
    fn inline(&mut self, key: &str, e: &mut Expr) -> bool {
        let Some(h) = self.helpers.get(key) else { return false };
        if self.depth > 6 || has_return_b(&h.body) {
            self.skel.push(format!("uncontracted:{}", key));
            return false;
        }
        let args: Vec<Expr> = match e {
            Expr::Call(c) => c.args.iter().cloned().collect(),
            Expr::MethodCall(m) => m.args.iter().cloned().collect(),
            _ => return false,
        };
        let generic = !h.sig.generics.params.is_empty();
        let mut lets = quote!();
        let mut ai = 0;
        let mut pats = vec![];
        let mut tys = vec![];
        for p in h.sig.inputs.iter() {
            match p {
                FnArg::Receiver(_) => {
                    if matches!(e, Expr::Call(_)) {
                        // Self::helper(self, ..)
                        if ai >= args.len() {
                            return false;
                        }
                        let a = args[ai].to_token_stream().to_string();
                        if a != "self" && a != "& self" && a != "& mut self" {
                            self.fail("helper receiver");
                            return false;
                        }
                        ai += 1;
                    }
                }
                FnArg::Typed(t) => {
                    if ai >= args.len() {
                        return false;
                    }
                    pats.push((*t.pat).clone());
                    tys.push(((*t.ty).clone(), args[ai].clone()));
                    ai += 1;
                }
            }
        }
        // all arguments first, then the parameters, so that no name is captured
        for (i, (t, a)) in tys.iter().enumerate() {
            let x = format_ident!("arg_{}_{}", self.depth, i);
            if generic {
                lets.extend(quote!(let #x = #a;));
            } else {
                lets.extend(quote!(let #x: #t = #a;));
            }
        }
        for (i, p) in pats.iter().enumerate() {
            let x = format_ident!("arg_{}_{}", self.depth, i);
            lets.extend(quote!(let #p = #x;));
        }
        let b = &h.body.stmts;
        self.inlined.insert(key.to_string());
        let t = quote!({ #lets #(#b)* });
        match parse2::<Expr>(t) {
            Ok(x) => *e = x,
            Err(er) => {
                self.fail(format!("inlining {}: {}", key, er));
                return true;
            }
        }
        self.depth += 1;
        visit_mut::visit_expr_mut(self, e);
        self.depth -= 1;
        true
    }
    fn post(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    match lit_real(&f.to_string()) {
                        Some(r) => *e = parse_quote!(F64::lit(__gh!{ #r })),
                        None => self.fail("float literal"),
                    }
                }
            }
            Expr::Path(p) => {
                let n = p.path.segments.len();
                let last = p.path.segments.last().unwrap().ident.to_string();
                if n == 2 && p.path.segments[0].ident == "F64" && last.chars().all(|c| c.is_uppercase() || c == '_') {
                    let id = format_ident!("c_{}", last);
                    *e = parse_quote!(F64::#id());
                } else if n == 1 && last.starts_with("F64CONST_") {
                    let id = format_ident!("c_{}", &last[9..]);
                    *e = parse_quote!(F64::#id());
                }
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                let x = &c.expr;
                if t == "F64" {
                    *e = parse_quote!(to_f64_v(#x));
                } else if t == "f32" {
                    *e = parse_quote!(to_f32_v(#x));
                } else if t == "usize" {
                    let xs = x.to_token_stream().to_string();
                    if ["F64 ::", "to_f64_v", "floor ()", "ceil ()", "round ()", "trunc ()", "sqrt ()", "powf (", ". ln ()"].iter().any(|w| xs.contains(w)) {
                        *e = parse_quote!(f_to_usize_v(#x));
                    }
                }
            }
            Expr::Unary(u) => {
                if let UnOp::Neg(_) = u.op {
                    let x = &u.expr;
                    if !matches!(&*u.expr, Expr::Lit(_)) {
                        *e = parse_quote!((#x).neg_v());
                    }
                }
            }
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                let f = match b.op {
                    BinOp::Add(_) => "add_v",
                    BinOp::Sub(_) => "sub_v",
                    BinOp::Mul(_) => "mul_v",
                    BinOp::Div(_) => "div_v",
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) => {
                        let op: TokenStream = match b.op {
                            BinOp::AddAssign(_) => quote!(+),
                            BinOp::SubAssign(_) => quote!(-),
                            BinOp::MulAssign(_) => quote!(*),
                            _ => quote!(/),
                        };
                        *e = if matches!(strip_paren(r), Expr::Lit(_)) { parse_quote!(#l = #l #op #r) } else { parse_quote!(#l = #l #op val_v(#r)) };
                        return;
                    }
                    _ => return,
                };
                let isref = |x: &Expr| matches!(strip_paren(x), Expr::Reference(_));
                if self.ops || isref(l) || isref(r) {
                    let m = format_ident!("{}", f);
                    *e = parse_quote!((#l).#m(#r));
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let new = match n.as_str() {
                    "clone" | "to_owned" => "clone_v",
                    "len" => "len_v",
                    "unwrap" | "expect" => "unwrap_v",
                    "iter" => "iter_v",
                    "into_iter" => "into_iter_v",
                    "partial_cmp" => "partial_cmp_v",
                    "to_string" => "to_string_v",
                    "gen" => "gen_v",
                    "gen_bool" => "gen_bool_v",
                    "view" | "view_mut" | "reborrow" => {
                        self.fail("array view");
                        return;
                    }
                    "map" | "mapv" if m.args.len() == 1 => {
                        match closure_of(&m.args[0]) {
                            Some(c) => {
                                let x = self.closure_text(&c);
                                let nm = if n == "map" { "map_el" } else { "mapv_el" };
                                m.args = std::iter::once(x).collect();
                                m.turbofish = None;
                                m.method = Ident::new(nm, Span::call_site());
                            }
                            None if matches!(&m.args[0], Expr::Macro(x) if x.mac.path.is_ident("__clo") || x.mac.path.is_ident("__cla")) => {
                                let nm = if n == "map" { "map_el" } else { "mapv_el" };
                                m.turbofish = None;
                                m.method = Ident::new(nm, Span::call_site());
                            }
                            None => self.fail("map without closure"),
                        }
                        return;
                    }
                    _ => return,
                };
                m.method = Ident::new(new, m.method.span());
                if n == "expect" {
                    m.args.clear();
                }
                if new == "unwrap_v" && !self.panics.trim().is_empty() {
                    let p = self.panics.clone();
                    m.method = Ident::new("unwrap_or_panic_v", Span::call_site());
                    let x: Expr = parse_quote!(__gh!{ #p });
                    m.args.push(x);
                }
                m.turbofish = None;
            }
            Expr::Closure(c) => {
                let c = c.clone();
                *e = self.closure_text(&c);
            }
            _ => {}
        }
    }
}
