@raw
/// Both tests find node c independent of p given s.
#[verifier::opaque]
pub open spec fn both<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, c: usize, p: usize, s: Set<usize>) -> bool {
    let small = pl.fit_s(ns, s, ds, c as int).p(); let big = pl.fit_s(ns, s.insert(p), ds, c as int).p();
    f_ind(f.alpha.g@, ns, small, big, s, p) && chi_ind(q.alpha.g@, ns, small, big, s, p)
}
/// Some separating set of b members of y, without p, makes c and p independent.
#[verifier::opaque]
pub open spec fn removed<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, c: usize, y: Set<usize>, b: nat, p: usize) -> bool {
    exists|s: Set<usize>| s.subset_of(y.remove(p)) && s.len() == b && #[trigger] both(pl, f, q, ns, ds, c, p, s)
}
pub open spec fn allset(n: nat) -> Set<usize> decreases n { if n == 0 { Set::empty() } else { allset((n - 1) as nat).insert((n - 1) as usize) } }
/// The parents left when the separating sets reach size b.
pub open spec fn pc_at<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, c: usize, b: nat) -> Set<usize> decreases b {
    if b == 0 { allset(ns.len()).remove(c) } else {
        let y = pc_at(pl, f, q, ns, ds, c, (b - 1) as nat);
        y.filter(|p: usize| !removed(pl, f, q, ns, ds, c, y, (b - 1) as nat, p))
    }
}
/// All rounds before b were run.
pub open spec fn pc_runs<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, c: usize, b: nat) -> bool {
    forall|a: nat| a < b ==> a < #[trigger] pc_at(pl, f, q, ns, ds, c, a).len()
}
/// What CTPC returns for a node: the parents left at the first size with no separating set of that size.
pub open spec fn pc_ok<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, c: usize, s: Set<usize>) -> bool {
    exists|b: nat| #[trigger] pc_runs(pl, f, q, ns, ds, c, b) && pc_at(pl, f, q, ns, ds, c, b).len() <= b && s == pc_at(pl, f, q, ns, ds, c, b)
}
pub proof fn lm_allset(n: nat) requires n <= usize::MAX + 1, ensures forall|x: usize| #[trigger] allset(n).contains(x) == (x < n) decreases n
{
    if n > 0 {
        lm_allset((n - 1) as nat); let a = allset((n - 1) as nat); let z = (n - 1) as usize;
        assert forall|x: usize| #[trigger] allset(n).contains(x) == (x < n) by { assert(allset(n) == a.insert(z)); assert(a.contains(x) == (x < n - 1)); }
    }
}
/// Tests on subsets of the variables are defined.
pub proof fn lm_test_ok<T: NetworkProcess>(net: &T, ds: &Dataset, c: usize, p: usize, y: Set<usize>, s: Set<usize>)
    requires net.wf(), ctpc_req(net.nodes(), ds), c < net.nodes().len(), below(y, net.nodes().len() as int), y.contains(p), s.subset_of(y.remove(p)), ensures test_ok(net, ds, c, p, s)
{
    let ns = net.nodes();
    assert(dom_ok(ns)) by { assert forall|i: int| 0 <= i < ns.len() implies #[trigger] card(ns, i) > 0 by { assert(card(ns, i) >= 2); } }
    assert forall|x: usize| #[trigger] s.contains(x) implies x < ns.len() by { assert(y.remove(p).contains(x)); assert(y.contains(x)); }
    if s.contains(p) { assert(y.remove(p).contains(p)); }
    lm_stride_sub(ns, in_set(s), ns.len() as int); lm_stride_sub(ns, in_set(s.insert(p)), ns.len() as int);
}
pub proof fn lm_pc_shrink<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, c: usize, b: nat)
    ensures pc_at(pl, f, q, ns, ds, c, b + 1).len() <= pc_at(pl, f, q, ns, ds, c, b).len()
{ vstd::set_lib::lemma_len_subset(pc_at(pl, f, q, ns, ds, c, b + 1), pc_at(pl, f, q, ns, ds, c, b)); }
pub proof fn lm_pc_below<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, c: usize, b: nat)
    requires ns.len() <= usize::MAX, ensures below(pc_at(pl, f, q, ns, ds, c, b), ns.len() as int), !pc_at(pl, f, q, ns, ds, c, b).contains(c) decreases b
{ if b == 0 { lm_allset(ns.len()); } else { lm_pc_below(pl, f, q, ns, ds, c, (b - 1) as nat); } }
pub proof fn lm_pc_set<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, c: usize, s: Set<usize>)
    requires ns.len() <= usize::MAX, pc_ok(pl, f, q, ns, ds, c, s), ensures below(s, ns.len() as int), !s.contains(c)
{ let b = choose|b: nat| #[trigger] pc_runs(pl, f, q, ns, ds, c, b) && pc_at(pl, f, q, ns, ds, c, b).len() <= b && s == pc_at(pl, f, q, ns, ds, c, b); lm_pc_below(pl, f, q, ns, ds, c, b); }
pub open spec fn all_p() -> spec_fn(int) -> bool { |i: int| true }
pub proof fn lm_stride_sub(ns: Seq<Params>, P: spec_fn(int) -> bool, n: int)
    requires dom_ok(ns), 0 <= n <= ns.len(), ensures 0 < stride(ns, P, n) <= stride(ns, all_p(), n) decreases n
{
    if n > 0 {
        lm_stride_sub(ns, P, n - 1); let t = stride(ns, P, n - 1); let u = stride(ns, all_p(), n - 1); let k = card(ns, n - 1);
        assert(card(ns, n - 1) > 0); assert(all_p()(n - 1));
        assert(t * k <= u * k && t * 1 <= u * k && 0 < t * k && 0 < t * 1) by(nonlinear_arith) requires 0 < t <= u, k > 0;
    }
}
/// Every test on this dataset is defined.
pub open spec fn ctpc_req(ns: Seq<Params>, ds: &Dataset) -> bool {
    ds_ok(ns, ds) && (forall|i: int| 0 <= i < ns.len() ==> #[trigger] card(ns, i) >= 2) && stride(ns, all_p(), ns.len() as int) <= usize::MAX
}
pub open spec fn not_c(out: Seq<usize>, k: int, c: usize) -> bool { forall|x: usize| #[trigger] out.contains(x) == (x < k && x != c) }
pub open spec fn without(out: Seq<usize>, l: Seq<usize>, k: int, p: usize) -> bool { out.no_duplicates() && forall|x: usize| #[trigger] out.contains(x) == (x != p && l.take(k).contains(x)) }
pub proof fn lm_without(out: Seq<usize>, o2: Seq<usize>, l: Seq<usize>, k: int, p: usize)
    requires 0 < k <= l.len(), l.no_duplicates(), without(out, l, k - 1, p), o2 == (if l[k - 1] == p { out } else { out.push(l[k - 1]) }), ensures without(o2, l, k, p)
{
    assert(l.take(k) =~= l.take(k - 1).push(l[k - 1])); lm_push(l.take(k - 1), l[k - 1]); lm_push(out, l[k - 1]);
    if l.take(k - 1).contains(l[k - 1]) { let t = l.take(k - 1); let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == l[k - 1]; assert(l[j] == l[k - 1]); }
    assert(!out.contains(l[k - 1]));
    if l[k - 1] != p { assert forall|i: int, j: int| 0 <= i < o2.len() && 0 <= j < o2.len() && i != j implies o2[i] != o2[j] by {
        if i < out.len() && j < out.len() { } else if i < out.len() { assert(out.contains(out[i])); } else if j < out.len() { assert(out.contains(out[j])); } } }
}
pub open spec fn pc_learned<P: ParameterLearning>(pl: &P, f: F, q: ChiSquare, ns: Seq<Params>, ds: &Dataset, l: Seq<(usize, BTreeSet<usize>)>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 == i && pc_ok(pl, f, q, ns, ds, i as usize, l[i].1@) }
@fn CTPC::new(parameter_learning, Ftest, Chi2test) -> r
@ensures r.parameter_learning == parameter_learning, r.Ftest == Ftest, r.Chi2test == Chi2test,
@fn CTPC::fit_transform(net, dataset) -> r
@requires
    net.wf(), net.multi(), dataset.trajectories@.len() > 0,
    dataset.trajectories@[0].events.d1() == net.nodes().len() ==> ctpc_req(net.nodes(), dataset),
@ensures
    dataset.trajectories@[0].events.d1() == net.nodes().len(), r.wf(), r.ready(), same_vars(net.nodes(), r.nodes()),
    forall|c: usize| c < net.nodes().len() ==> is_set(#[trigger] pset(r.adj(), c as int, net.nodes().len() as int), par_of(r.adj(), c as int), net.nodes().len() as int)
        && pc_ok(&self.parameter_learning, self.Ftest, self.Chi2test, net.nodes(), dataset, c, pset(r.adj(), c as int, net.nodes().len() as int)),
@panics dataset.trajectories@[0].events.d1() != net.nodes().len()
@attr #[verifier::allow_complex_invariants]
@start
    hide(f_ind); hide(chi_ind); hide(pc_runs);
    let ghost ns = net.nodes(); let ghost n = ns.len() as int; let ghost pl = &self.parameter_learning; let ghost f = self.Ftest; let ghost q = self.Chi2test;
@loop 1
@pre
    proof { assert(dom_ok(ns)) by { assert forall|i: int| 0 <= i < ns.len() implies #[trigger] card(ns, i) > 0 by { assert(card(ns, i) >= 2); } } }
@inv
    net.wf(), net.multi(), net.nodes() == ns, pc_learned(pl, f, q, ns, dataset, out_1@),
    it_1@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] it_1@[i] == i,
@loop 2
@inv
    not_c(out_2@, k_2 as int, child_node), it_2@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] it_2@[i] == i,
@top
    let ghost o2 = out_2@;
    proof { lm_push(o2, e_2); }
@loop 3
@pre
    let ghost c = child_node;
    proof {
        lm_allset(n as nat);
        assert forall|x: usize| candidate_parent_set@.contains(x) == allset(n as nat).remove(c).contains(x) by {}
        assert(candidate_parent_set@ =~= pc_at(pl, f, q, ns, dataset, c, 0));
        assert(pc_runs(pl, f, q, ns, dataset, c, 0)) by { reveal(pc_runs); }
    }
@inv
    net.wf(), net.multi(), net.nodes() == ns, c == child_node, c < n, cache.parameter_learning == pl, cache.good(ns, dataset, c as int),
    candidate_parent_set@ == pc_at(pl, f, q, ns, dataset, c, separation_set_size as nat), pc_runs(pl, f, q, ns, dataset, c, separation_set_size as nat),
@dec
    if candidate_parent_set@.len() > separation_set_size { candidate_parent_set@.len() - separation_set_size } else { 0 }
@top
    let ghost y = candidate_parent_set@; let ghost b = separation_set_size as nat;
    proof { lm_pc_below(pl, f, q, ns, dataset, c, b); lm_pc_shrink(pl, f, q, ns, dataset, c, b); }
@bot
    proof {
        assert(candidate_parent_set@ =~= pc_at(pl, f, q, ns, dataset, c, b + 1));
        assert(pc_runs(pl, f, q, ns, dataset, c, b + 1)) by { reveal(pc_runs); assert forall|a: nat| a < b + 1 implies a < #[trigger] pc_at(pl, f, q, ns, dataset, c, a).len() by { } }
    }
@post
    proof { assert(pc_ok(pl, f, q, ns, dataset, c, candidate_parent_set@)); }
@loop 4
@pre
    let ghost l = derefs(it_4@);
@inv
    candidate_parent_set@ == y, separation_set_size == b, set_order(y, l), l == derefs(it_4@), cache.parameter_learning == pl, cache.good(ns, dataset, c as int),
    forall|x: usize| #[trigger] candidate_parent_set_TMP@.contains(x) == (y.contains(x) && !(l.take(k_4 as int).contains(x) && removed(pl, f, q, ns, dataset, c, y, b, x))),
@top
    let ghost p = *e_4; let ghost t0 = candidate_parent_set_TMP@;
    proof { assert(l[k_4 - 1] == p); assert(y.contains(p)); assert(l.take(k_4 as int) =~= l.take(k_4 - 1).push(p)); lm_push(l.take(k_4 - 1), p); }
@post
    proof {
        assert(l.take(l.len() as int) =~= l);
    }
@loop 5
@inv
    set_order(y, derefs(it_5@)), without(out_5@, derefs(it_5@), k_5 as int, p),
@top
    let ghost o5 = out_5@; let ghost l5 = derefs(it_5@);
    proof { assert(l5[k_5 - 1] == *e_5); lm_without(o5, if l5[k_5 - 1] == p { o5 } else { o5.push(l5[k_5 - 1]) }, l5, k_5 as int, p); }
@post
    proof {
        let l5 = derefs(it_5@); assert(l5.take(l5.len() as int) =~= l5); lm_to_set(out_5@);
        assert forall|x: usize| out_5@.to_set().contains(x) == y.remove(p).contains(x) by { assert(out_5@.contains(x) == (x != p && l5.contains(x))); if l5.contains(x) { let j = choose|j: int| 0 <= j < l5.len() && l5[j] == x; assert(y.contains(l5[j])); } }
        assert(out_5@.to_set() =~= y.remove(p));
    }
@loop 6
@pre
    proof {
        assert forall|i: int| 0 <= i < it_6@.len() implies (#[trigger] it_6@[i])@.to_set().subset_of(y.remove(p)) && it_6@[i]@.to_set().len() == b by { }
        assert forall|s: Set<usize>| s.subset_of(y.remove(p)) && s.len() == b implies exists|i: int| 0 <= i < it_6@.len() && #[trigger] it_6@[i]@.to_set() == s by { }
    }
@inv
    candidate_parent_set@ == y, separation_set_size == b, cache.parameter_learning == pl, cache.good(ns, dataset, c as int), candidate_parent_set_TMP@ == t0,
    forall|i: int| 0 <= i < k_6 ==> !both(pl, f, q, ns, dataset, c, p, #[trigger] it_6@[i]@.to_set()),
@top
    let ghost s6 = e_6@.to_set(); let ghost rem = removed(pl, f, q, ns, dataset, c, y, b, p);
    proof {
        assert(e_6 == it_6@[k_6 - 1]); lm_test_ok(&net, dataset, c, p, y, s6);
        let small = pl.fit_s(ns, s6, dataset, c as int).p(); let big = pl.fit_s(ns, s6.insert(p), dataset, c as int).p();
        assert(both(pl, f, q, ns, dataset, c, p, s6) == (f_ind(f.alpha.g@, ns, small, big, s6, p) && chi_ind(q.alpha.g@, ns, small, big, s6, p))) by { reveal(both); }
        if both(pl, f, q, ns, dataset, c, p, s6) { assert(rem) by { reveal(removed); } }
    }
@ens
    candidate_parent_set@ == y, separation_set_size == b, cache.parameter_learning == pl, cache.good(ns, dataset, c as int),
    candidate_parent_set_TMP@ == (if removed(pl, f, q, ns, dataset, c, y, b, p) { t0.remove(p) } else { t0 }),
@post
    proof {
        if forall|i: int| 0 <= i < it_6@.len() ==> !both(pl, f, q, ns, dataset, c, p, #[trigger] it_6@[i]@.to_set()) {
            assert(!removed(pl, f, q, ns, dataset, c, y, b, p)) by { reveal(removed); }
        }
        assert(candidate_parent_set_TMP@ == (if removed(pl, f, q, ns, dataset, c, y, b, p) { t0.remove(p) } else { t0 })); }
@loop 7
@pre
    let ghost ls = it_7@;
    proof { assert(forall|i: int| 0 <= i < n ==> (#[trigger] ls[i]).0 == i && pc_ok(pl, f, q, ns, dataset, i as usize, ls[i].1@)); }
@inv
    net.wf(), net.multi(), net.ready(), same_vars(ns, net.nodes()), ls.len() == n,
    forall|p: int, c: int| #[trigger] net.adj()(p, c) == (0 <= c < k_7 && in_set(ls[c].1@)(p)),
@top
    let ghost cs = ls[k_7 - 1].1@;
    proof { assert(pc_ok(pl, f, q, ns, dataset, (k_7 - 1) as usize, cs)); lm_pc_set(pl, f, q, ns, dataset, (k_7 - 1) as usize, cs); }
@post
    proof {
        assert forall|c: usize| c < n implies is_set(#[trigger] pset(net.adj(), c as int, n), par_of(net.adj(), c as int), n) && pc_ok(pl, f, q, ns, dataset, c, pset(net.adj(), c as int, n)) by {
            let s = ls[c as int].1@;
            assert(pc_ok(pl, f, q, ns, dataset, c, s));
            lm_pc_set(pl, f, q, ns, dataset, c, s);
            assert forall|x: usize| #![trigger s.contains(x)] x < n implies s.contains(x) == par_of(net.adj(), c as int)(x as int) by { assert(net.adj()(x as int, c as int) == in_set(s)(x as int)); }
            lm_pset(net.adj(), c as int, n, s);
        }
    }
@loop 8
@inv
    net.wf(), net.multi(), net.ready(), same_vars(ns, net.nodes()), set_order(cs, derefs(it_8@)),
    forall|p: int, c: int| #[trigger] net.adj()(p, c) == (0 <= c < k_7 - 1 && in_set(ls[c].1@)(p) || c == k_7 - 1 && exists|j: int| 0 <= j < k_8 && #[trigger] derefs(it_8@)[j] == p),
@top
    let ghost a0 = net.adj(); let ghost nn = net.nodes();
    proof { assert(derefs(it_8@)[k_8 - 1] == *e_8); assert(cs.contains(*e_8)); }
@bot
    proof {
        assert forall|p: int, c: int| #[trigger] net.adj()(p, c) == (0 <= c < k_7 - 1 && in_set(ls[c].1@)(p) || c == k_7 - 1 && exists|j: int| 0 <= j < k_8 && #[trigger] derefs(it_8@)[j] == p) by {
            let x = a0(p, c);
            if c == k_7 - 1 {
                if p == *e_8 { assert(derefs(it_8@)[k_8 - 1] == p); }
                else if exists|j: int| 0 <= j < k_8 && #[trigger] derefs(it_8@)[j] == p { let j = choose|j: int| 0 <= j < k_8 && #[trigger] derefs(it_8@)[j] == p; assert(j != k_8 - 1); assert(a0(p, c)); }
            }
        }
    }
@post
    proof {
        assert forall|p: int, c: int| #[trigger] net.adj()(p, c) == (0 <= c < k_7 && in_set(ls[c].1@)(p)) by {
            if c == k_7 - 1 {
                if in_set(cs)(p) { let x = p as usize; assert(cs.contains(x)); assert(derefs(it_8@).contains(x)); let j = choose|j: int| 0 <= j < derefs(it_8@).len() && derefs(it_8@)[j] == x; assert(derefs(it_8@)[j] == p); }
                else if net.adj()(p, c) { let j = choose|j: int| 0 <= j < k_8 && #[trigger] derefs(it_8@)[j] == p; assert(cs.contains(derefs(it_8@)[j])); }
            }
        }
    }
