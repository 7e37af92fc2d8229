@raw
pub open spec fn hc_max(m: Option<usize>, n: int) -> int { if m is Some { m->Some_0 as int } else { n } }
/// The set with p added, or removed if it was there.
pub open spec fn toggle(s: Set<usize>, p: usize) -> Set<usize> { if s.contains(p) { s.remove(p) } else { s.insert(p) } }
pub open spec fn hc_cand(s: Set<usize>, node: usize, n: int, max: int) -> bool { below(s, n) && !s.contains(node) && s.len() <= max }
/// Every candidate parent set can be scored.
pub open spec fn hc_req<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, max: int) -> bool {
    forall|s: Set<usize>, node: usize| node < ns.len() && hc_cand(s, node, ns.len() as int, max) ==> #[trigger] f.score_req(ns, s, node, ds)
}
/// A parent that can be added to or removed from s.
pub open spec fn hc_move(s: Set<usize>, node: usize, p: usize, n: int, max: int) -> bool { p < n && p != node && (s.contains(p) || s.len() < max) }
/// Adding or removing p scores worse.
pub open spec fn hc_worse<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, max: int, node: usize, s: Set<usize>, p: usize) -> bool {
    hc_move(s, node, p, ns.len() as int, max) ==> f.score_s(ns, toggle(s, p), node, ds) < f.score_s(ns, s, node, ds)
}
/// Some move between two candidate sets leaves the score v unchanged.
pub open spec fn hc_tie<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, max: int, node: usize, v: real) -> bool {
    exists|t: Set<usize>, p: usize| hc_cand(t, node, ns.len() as int, max) && hc_move(t, node, p, ns.len() as int, max) && f.score_s(ns, t, node, ds) == v && #[trigger] f.score_s(ns, toggle(t, p), node, ds) == v
}
pub open spec fn hc_best<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, max: int, node: usize, s: Set<usize>, m: int) -> bool {
    forall|p: usize| p < m ==> #[trigger] hc_worse(f, ns, ds, max, node, s, p)
}
/// What hill climbing returns for a node: a small enough parent set, no worse than the empty one, and locally optimal unless a tie was met.
pub open spec fn hc_ok<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, max: int, node: usize, s: Set<usize>) -> bool {
    &&& hc_cand(s, node, ns.len() as int, max)
    &&& f.score_s(ns, s, node, ds) >= f.score_s(ns, Set::empty(), node, ds)
    &&& hc_best(f, ns, ds, max, node, s, ns.len() as int) || hc_tie(f, ns, ds, max, node, f.score_s(ns, s, node, ds))
}
/// The score r lies above the threshold o.
pub open spec fn hc_above(r: real, o: Fl) -> bool { o is NInf || o is Fin && r > o->Fin_0 }
/// How many of the sets s + t, with t a subset of the first m nodes, score above o: what decreases from sweep to sweep.
pub open spec fn hc_num<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, node: usize, o: Fl, s: Set<usize>, m: nat) -> nat decreases m {
    if m == 0 { if hc_above(f.score_s(ns, s, node, ds), o) { 1 } else { 0 } }
    else { hc_num(f, ns, ds, node, o, s, (m - 1) as nat) + hc_num(f, ns, ds, node, o, s.insert((m - 1) as usize), (m - 1) as nat) }
}
pub proof fn lm_num_mono<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, node: usize, o: Fl, q: Fl, s: Set<usize>, m: nat)
    requires forall|r: real| hc_above(r, q) ==> hc_above(r, o), ensures hc_num(f, ns, ds, node, q, s, m) <= hc_num(f, ns, ds, node, o, s, m) decreases m
{ if m > 0 { lm_num_mono(f, ns, ds, node, o, q, s, (m - 1) as nat); lm_num_mono(f, ns, ds, node, o, q, s.insert((m - 1) as usize), (m - 1) as nat); } }
pub proof fn lm_num_less<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, node: usize, o: Fl, q: Fl, s: Set<usize>, m: nat, t: Set<usize>)
    requires
        m <= usize::MAX, forall|r: real| hc_above(r, q) ==> hc_above(r, o),
        hc_above(f.score_s(ns, t, node, ds), o), !hc_above(f.score_s(ns, t, node, ds), q),
        forall|x: usize| x >= m ==> s.contains(x) == t.contains(x), forall|x: usize| #[trigger] s.contains(x) ==> x >= m,
    ensures hc_num(f, ns, ds, node, q, s, m) < hc_num(f, ns, ds, node, o, s, m)
    decreases m,
{
    if m == 0 { assert(s =~= t); }
    else {
        let x = (m - 1) as usize; let k = (m - 1) as nat;
        lm_num_mono(f, ns, ds, node, o, q, s, k); lm_num_mono(f, ns, ds, node, o, q, s.insert(x), k);
        if t.contains(x) {
            assert forall|y: usize| y >= k implies s.insert(x).contains(y) == t.contains(y) by { if y != x { assert(y >= m); } }
            lm_num_less(f, ns, ds, node, o, q, s.insert(x), k, t);
        } else {
            assert forall|y: usize| y >= k implies s.contains(y) == t.contains(y) by { if y != x { assert(y >= m); } }
            lm_num_less(f, ns, ds, node, o, q, s, k, t);
        }
    }
}
/// The parents of a node.
pub open spec fn pset(a: Adj, c: int, n: int) -> Set<usize> { fset(None, a, c, n) }
pub proof fn lm_pset(a: Adj, c: int, n: int, s: Set<usize>) requires is_set(s, par_of(a, c), n), ensures s == pset(a, c, n), is_set(pset(a, c, n), par_of(a, c), n), { lm_fset(a, c, n, s); }
/// The same variables with the same values.
pub open spec fn same_vars(ns: Seq<Params>, ms: Seq<Params>) -> bool { ns.len() == ms.len() && forall|i: int| 0 <= i < ns.len() ==> #[trigger] ms[i].p().label == ns[i].p().label && ms[i].p().domain == ns[i].p().domain }
pub open spec fn hc_learned<S: ScoreFunction>(f: S, ns: Seq<Params>, ds: &Dataset, max: int, l: Seq<(usize, BTreeSet<usize>)>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 == i && hc_ok(f, ns, ds, max, i as usize, l[i].1@) }
@fn HillClimbing::new(score_function, max_parent_set) -> r
@ensures r.score_function == score_function, r.max_parent_set == max_parent_set,
@fn HillClimbing::fit_transform(net, dataset) -> r
@requires
    net.wf(), net.multi(), dataset.trajectories@.len() > 0,
    dataset.trajectories@[0].events.d1() == net.nodes().len() ==> hc_req(self.score_function, net.nodes(), dataset, hc_max(self.max_parent_set, net.nodes().len() as int)),
@ensures
    dataset.trajectories@[0].events.d1() == net.nodes().len(), r.wf(), r.ready(), same_vars(net.nodes(), r.nodes()),
    forall|c: usize| c < net.nodes().len() ==> is_set(#[trigger] pset(r.adj(), c as int, net.nodes().len() as int), par_of(r.adj(), c as int), net.nodes().len() as int)
        && hc_ok(self.score_function, net.nodes(), dataset, hc_max(self.max_parent_set, net.nodes().len() as int), c, pset(r.adj(), c as int, net.nodes().len() as int)),
@panics dataset.trajectories@[0].events.d1() != net.nodes().len()
@start
    hide(hc_best); hide(hc_tie);
    let ghost ns = net.nodes(); let ghost n = ns.len() as int; let ghost f = self.score_function; let ghost max = hc_max(self.max_parent_set, n);
@loop 1
@inv
    net.wf(), net.multi(), net.nodes() == ns,
    hc_learned(f, ns, dataset, max, out_1@),
@top
    let ghost s_empty: Set<usize> = Set::empty();
@loop 2
@pre
    let ghost v0 = f.score_s(ns, s_empty, node, dataset);
@inv
    net.wf(), net.multi(), net.nodes() == ns, node < n,
    hc_cand(parent_set@, node, n, max), current_score.g@ == Fl::Fin(f.score_s(ns, parent_set@, node, dataset)), f.score_s(ns, parent_set@, node, dataset) >= v0,
    old_score.g@ is NInf || old_score.fin() && old_score.v() <= f.score_s(ns, parent_set@, node, dataset)
        && (old_score.v() == f.score_s(ns, parent_set@, node, dataset) ==> hc_best(f, ns, dataset, max, node, parent_set@, n) || hc_tie(f, ns, dataset, max, node, old_score.v())),
@dec
    hc_num(f, ns, dataset, node, old_score.g@, Set::empty(), n as nat)
@top
    let ghost o1 = old_score.g@; let ghost t1 = parent_set@;
@bot
    proof {
        assert(old_score.g@ == Fl::Fin(f.score_s(ns, t1, node, dataset)));
        lm_num_less(f, ns, dataset, node, o1, old_score.g@, Set::empty(), n as nat, t1);
    }
@loop 3
@pre
    let ghost os = old_score.v();
    proof { assert(hc_best(f, ns, dataset, max, node, parent_set@, 0)) by { reveal(hc_best); } }
@inv
    it_3@.len() == n, forall|i: int| 0 <= i < it_3@.len() ==> #[trigger] it_3@[i] == i,
    hc_cand(parent_set@, node, n, max), current_score.g@ == Fl::Fin(f.score_s(ns, parent_set@, node, dataset)), f.score_s(ns, parent_set@, node, dataset) >= v0,
    f.score_s(ns, parent_set@, node, dataset) >= os,
    f.score_s(ns, parent_set@, node, dataset) == os ==> hc_best(f, ns, dataset, max, node, parent_set@, k_3 as int) || hc_tie(f, ns, dataset, max, node, os),
@top
    let ghost s0 = parent_set@; let ghost p0 = e_3;
    proof { if p0 == node && hc_best(f, ns, dataset, max, node, s0, k_3 - 1) { assert(hc_best(f, ns, dataset, max, node, s0, k_3 as int)) by { reveal(hc_best); } } }
@bot
    proof {
        let t = toggle(s0, p0);
        assert(s0.remove(p0).insert(p0) =~= s0 || !s0.contains(p0)); assert(s0.insert(p0).remove(p0) =~= s0 || s0.contains(p0)); assert(s0.remove(p0) =~= s0 || s0.contains(p0));
        assert(parent_set@ == s0 || parent_set@ == t);
        if parent_set@ == s0 {
            if hc_best(f, ns, dataset, max, node, s0, k_3 - 1) { assert(hc_best(f, ns, dataset, max, node, s0, k_3 as int)) by { reveal(hc_best); assert(hc_worse(f, ns, dataset, max, node, s0, p0)); } }
        } else if f.score_s(ns, parent_set@, node, dataset) == os {
            assert(hc_tie(f, ns, dataset, max, node, os)) by { reveal(hc_tie); assert(f.score_s(ns, toggle(s0, p0), node, dataset) == os); }
        }
    }
@loop 4
@pre
    let ghost ls = it_4@;
    proof { assert(forall|i: int| 0 <= i < n ==> (#[trigger] ls[i]).0 == i && hc_ok(f, ns, dataset, max, i as usize, ls[i].1@)); }
@inv
    net.wf(), net.multi(), net.ready(), same_vars(ns, net.nodes()), ls.len() == n,
    forall|p: int, c: int| #[trigger] net.adj()(p, c) == (0 <= c < k_4 && in_set(ls[c].1@)(p)),
@top
    let ghost cs = ls[k_4 - 1].1@;
    proof { assert(hc_ok(f, ns, dataset, max, (k_4 - 1) as usize, cs)); }
@post
    proof {
        assert forall|c: usize| c < n implies is_set(#[trigger] pset(net.adj(), c as int, n), par_of(net.adj(), c as int), n) && hc_ok(f, ns, dataset, max, c, pset(net.adj(), c as int, n)) by {
            let s = ls[c as int].1@;
            assert(hc_ok(f, ns, dataset, max, c, s));
            assert forall|x: usize| #![trigger s.contains(x)] x < n implies s.contains(x) == par_of(net.adj(), c as int)(x as int) by { assert(net.adj()(x as int, c as int) == in_set(s)(x as int)); }
            lm_pset(net.adj(), c as int, n, s);
        }
    }
@loop 5
@inv
    net.wf(), net.multi(), net.ready(), same_vars(ns, net.nodes()), set_order(cs, derefs(it_5@)),
    forall|p: int, c: int| #[trigger] net.adj()(p, c) == (0 <= c < k_4 - 1 && in_set(ls[c].1@)(p) || c == k_4 - 1 && exists|j: int| 0 <= j < k_5 && #[trigger] derefs(it_5@)[j] == p),
@top
    let ghost a0 = net.adj(); let ghost nn = net.nodes();
    proof { assert(derefs(it_5@)[k_5 - 1] == *e_5); assert(cs.contains(*e_5)); }
@bot
    proof {
        assert forall|p: int, c: int| #[trigger] net.adj()(p, c) == (0 <= c < k_4 - 1 && in_set(ls[c].1@)(p) || c == k_4 - 1 && exists|j: int| 0 <= j < k_5 && #[trigger] derefs(it_5@)[j] == p) by {
            let x = a0(p, c);
            if c == k_4 - 1 {
                if p == *e_5 { assert(derefs(it_5@)[k_5 - 1] == p); }
                else if exists|j: int| 0 <= j < k_5 && #[trigger] derefs(it_5@)[j] == p { let j = choose|j: int| 0 <= j < k_5 && #[trigger] derefs(it_5@)[j] == p; assert(j != k_5 - 1); assert(a0(p, c)); }
            }
        }
    }
@post
    proof {
        assert forall|p: int, c: int| #[trigger] net.adj()(p, c) == (0 <= c < k_4 && in_set(ls[c].1@)(p)) by {
            if c == k_4 - 1 {
                if in_set(cs)(p) { let x = p as usize; assert(cs.contains(x)); assert(derefs(it_5@).contains(x)); let j = choose|j: int| 0 <= j < derefs(it_5@).len() && derefs(it_5@)[j] == x; assert(derefs(it_5@)[j] == p); }
                else if net.adj()(p, c) { let j = choose|j: int| 0 <= j < k_5 && #[trigger] derefs(it_5@)[j] == p; assert(cs.contains(derefs(it_5@)[j])); }
            }
        }
    }
