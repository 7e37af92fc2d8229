@raw
/// The interval from row k to row k+1 of a trajectory starts in configuration u with the node in state x.
pub open spec fn at_ux(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int) -> bool {
    pidx(ns, P, row_st(tr.events, k), ns.len() as int) == u && tr.events.at(k, node) == x
}
/// Transitions of the node from x to y under configuration u between the first k+1 rows.
pub open spec fn tr_cnt(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int, y: int) -> nat decreases k {
    if k <= 0 { 0 } else { tr_cnt(ns, P, node, tr, k - 1, u, x, y) + if at_ux(ns, P, node, tr, k - 1, u, x) && tr.events.at(k, node) == y && x != y { 1nat } else { 0 } }
}
/// Time spent in x under configuration u in the first k intervals.
pub open spec fn tr_time(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int) -> real decreases k {
    if k <= 0 { 0real } else { tr_time(ns, P, node, tr, k - 1, u, x) + if at_ux(ns, P, node, tr, k - 1, u, x) { tr.time.at(k).v() - tr.time.at(k - 1).v() } else { 0real } }
}
pub open spec fn cnt(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, u: int, x: int, y: int) -> nat decreases m {
    if m <= 0 { 0 } else { cnt(ns, P, node, trs, m - 1, u, x, y) + tr_cnt(ns, P, node, trs[m - 1], trs[m - 1].time.d0() - 1, u, x, y) }
}
pub open spec fn tim(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, u: int, x: int) -> real decreases m {
    if m <= 0 { 0real } else { tim(ns, P, node, trs, m - 1, u, x) + tr_time(ns, P, node, trs[m - 1], trs[m - 1].time.d0() - 1, u, x) }
}
pub open spec fn ds_cnt(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, u: int, x: int, y: int) -> nat { cnt(ns, in_set(s), node, ds.trajectories@, ds.trajectories@.len() as int, u, x, y) }
pub open spec fn ds_time(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, u: int, x: int) -> real { tim(ns, in_set(s), node, ds.trajectories@, ds.trajectories@.len() as int, u, x) }
pub open spec fn uconf(ns: Seq<Params>, s: Set<usize>) -> nat { stride(ns, in_set(s), ns.len() as int) }
pub proof fn lm_tr_cnt(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int, y: int)
    requires 0 <= k, ensures tr_cnt(ns, P, node, tr, k, u, x, y) <= k, x == y ==> tr_cnt(ns, P, node, tr, k, u, x, y) == 0 decreases k
{ if k > 0 { lm_tr_cnt(ns, P, node, tr, k - 1, u, x, y); } }
pub proof fn lm_cnt(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, u: int, x: int, y: int)
    requires 0 <= m, forall|i: int| 0 <= i < m ==> (#[trigger] trs[i]).time.d0() >= 1,
    ensures cnt(ns, P, node, trs, m, u, x, y) + m <= rows(trs, m), x == y ==> cnt(ns, P, node, trs, m, u, x, y) == 0 decreases m
{ if m > 0 { lm_cnt(ns, P, node, trs, m - 1, u, x, y); lm_tr_cnt(ns, P, node, trs[m - 1], trs[m - 1].time.d0() - 1, u, x, y); } }
pub proof fn lm_rows_mono(trs: Seq<Trajectory>, a: int, b: int) requires 0 <= a <= b ensures rows(trs, a) <= rows(trs, b) decreases b - a { if a < b { lm_rows_mono(trs, a, b - 1); } }
/// The dot product with the vector of strides is the configuration index.
pub open spec fn is_strides(ns: Seq<Params>, P: spec_fn(int) -> bool, v: Array1<usize>) -> bool {
    v.d0() == ns.len() && forall|i: int| 0 <= i < ns.len() ==> #[trigger] v.at(i) == (if P(i) { stride(ns, P, i) } else { 0 })
}
pub proof fn lm_dot(ns: Seq<Params>, P: spec_fn(int) -> bool, v: Array1<usize>, ev: Array2<usize>, i: int, r: Array1<usize>, n: nat)
    requires is_strides(ns, P, v), r.d0() == ev.d1() == ns.len(), n <= ns.len(), forall|j: int| 0 <= j < r.d0() ==> #[trigger] r.at(j) == ev.at(i, j),
    ensures ndot(n, v, r) == pidx(ns, P, row_st(ev, i), n as int),
    decreases n,
{
    if n > 0 {
        lm_dot(ns, P, v, ev, i, r, (n - 1) as nat);
        assert(r.at(n - 1) == ev.at(i, n - 1));
        assert(v.at(n - 1) == (if P(n - 1) { stride(ns, P, n - 1) } else { 0 }));
        assert(sv(row_st(ev, i), n - 1) == ev.at(i, n - 1));
        let a = v.at(n - 1) as nat; let b = r.at(n - 1) as nat;
        if P(n - 1) { assert(a * b == b * a) by(nonlinear_arith); } else { assert(0nat * b == 0) by(nonlinear_arith); }
    }
}
/// Every node has at least one value.
pub open spec fn dom_ok(ns: Seq<Params>) -> bool { forall|i: int| 0 <= i < ns.len() ==> #[trigger] card(ns, i) > 0 }
pub open spec fn st_req<T: NetworkProcess>(net: &T, dataset: &Dataset, node: usize) -> bool {
    net.wf() && node < net.nodes().len() && ds_ok(net.nodes(), dataset) && dom_ok(net.nodes())
}
pub open spec fn is_stats(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, M: Array3<usize>, T: Array2<F64>) -> bool {
    &&& M.d0() == uconf(ns, s) && M.d1() == card(ns, node) && M.d2() == card(ns, node)
    &&& T.d0() == uconf(ns, s) && T.d1() == card(ns, node)
    &&& forall|u: int, x: int, y: int| M.inb(u, x, y) ==> #[trigger] M.at(u, x, y) == ds_cnt(ns, s, node, ds, u, x, y)
    &&& forall|u: int, x: int| 0 <= u < T.d0() && 0 <= x < T.d1() ==> (#[trigger] T.at(u, x)).g@ == Fl::Fin(ds_time(ns, s, node, ds, u, x))
}
/// Product of the cardinalities of the first k members.
pub open spec fn cards_of(ns: Seq<Params>, l: Seq<usize>, v: Seq<usize>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == card(ns, l[i] as int) }
@raw
pub open spec fn zero_st(ns: Seq<Params>) -> Seq<StateType> { Seq::new(ns.len(), |i: int| StateType::Discrete(0)) }
/// The k-th member of the set is the next variable of the stride product.
pub proof fn lm_member(ns: Seq<Params>, s: Set<usize>, l: Seq<usize>, z: Seq<StateType>, k: int)
    requires set_order(s, l), 0 <= k < l.len(), below(s, ns.len() as int), P_ok(ns, in_set(s), z, ns.len() as int), uconf(ns, s) <= usize::MAX,
    ensures
        upto(l, k) <= l[k] < ns.len(), in_set(s)(l[k] as int), upto(l, k + 1) == l[k] + 1,
        forall|i: int| upto(l, k) <= i < l[k] ==> !#[trigger] in_set(s)(i),
        stride(ns, in_set(s), upto(l, k)) == stride(ns, in_set(s), l[k] as int),
        stride(ns, in_set(s), upto(l, k + 1)) == stride(ns, in_set(s), l[k] as int) * card(ns, l[k] as int) <= usize::MAX,
        0 < stride(ns, in_set(s), l[k] as int) <= usize::MAX,
{
    let P = in_set(s); let n = ns.len() as int; let i = l[k] as int;
    assert(s.contains(l[k]));
    lm_set_gap(s, l, k); lm_upto(s, l, n, k); lm_skip(ns, P, z, upto(l, k), i); lm_step(ns, P, z, i, n); lm_stride_mono(ns, P, z, i, n);
}
pub proof fn lm_all(ns: Seq<Params>, s: Set<usize>, l: Seq<usize>, z: Seq<StateType>)
    requires set_order(s, l), below(s, ns.len() as int),
    ensures stride(ns, in_set(s), upto(l, l.len() as int)) == uconf(ns, s), forall|i: int| upto(l, l.len() as int) <= i ==> !#[trigger] in_set(s)(i), upto(l, l.len() as int) <= ns.len(),
{
    lm_set_gap(s, l, l.len() as int); lm_upto(s, l, ns.len() as int, l.len() as int); lm_skip(ns, in_set(s), z, upto(l, l.len() as int), ns.len() as int);
}
/// M and T count the first m trajectories and the first k intervals of trajectory m.
#[verifier::opaque]
pub open spec fn acc_st(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, k: int, M: Array3<usize>, T: Array2<F64>) -> bool {
    &&& forall|u: int, x: int, y: int| M.inb(u, x, y) ==> #[trigger] M.at(u, x, y) == cnt(ns, P, node, trs, m, u, x, y) + tr_cnt(ns, P, node, trs[m], k, u, x, y)
    &&& forall|u: int, x: int| 0 <= u < T.d0() && 0 <= x < T.d1() ==> (#[trigger] T.at(u, x)).g@ == Fl::Fin(tim(ns, P, node, trs, m, u, x) + tr_time(ns, P, node, trs[m], k, u, x))
}
pub proof fn lm_acc_start(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, M: Array3<usize>, T: Array2<F64>)
    requires
        forall|u: int, x: int, y: int| M.inb(u, x, y) ==> #[trigger] M.at(u, x, y) == 0,
        forall|u: int, x: int| 0 <= u < T.d0() && 0 <= x < T.d1() ==> (#[trigger] T.at(u, x)).g@ == Fl::Fin(0real),
    ensures acc_st(ns, P, node, trs, 0, 0, M, T),
{ reveal(acc_st); }
pub proof fn lm_acc_end(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, M: Array3<usize>, T: Array2<F64>)
    requires 0 <= m, acc_st(ns, P, node, trs, m, trs[m].time.d0() - 1, M, T), ensures acc_st(ns, P, node, trs, m + 1, 0, M, T),
{
    reveal(acc_st);
    let k = trs[m].time.d0() - 1;
    assert forall|u: int, x: int, y: int| M.inb(u, x, y) implies #[trigger] M.at(u, x, y) == cnt(ns, P, node, trs, m + 1, u, x, y) + tr_cnt(ns, P, node, trs[m + 1], 0, u, x, y) by {
        assert(M.at(u, x, y) == cnt(ns, P, node, trs, m, u, x, y) + tr_cnt(ns, P, node, trs[m], k, u, x, y));
        assert(tr_cnt(ns, P, node, trs[m + 1], 0, u, x, y) == 0);
    }
    assert forall|u: int, x: int| 0 <= u < T.d0() && 0 <= x < T.d1() implies (#[trigger] T.at(u, x)).g@ == Fl::Fin(tim(ns, P, node, trs, m + 1, u, x) + tr_time(ns, P, node, trs[m + 1], 0, u, x)) by {
        assert(T.at(u, x).g@ == Fl::Fin(tim(ns, P, node, trs, m, u, x) + tr_time(ns, P, node, trs[m], k, u, x)));
        assert(tr_time(ns, P, node, trs[m + 1], 0, u, x) == 0real);
    }
}
pub proof fn lm_acc_small(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, k: int, M: Array3<usize>, T: Array2<F64>)
    requires 0 <= m < trs.len(), 0 <= k < trs[m].time.d0() - 1, forall|i: int| 0 <= i < trs.len() ==> (#[trigger] trs[i]).time.d0() >= 1,
        rows(trs, m + 1) <= usize::MAX, acc_st(ns, P, node, trs, m, k, M, T),
    ensures forall|u: int, x: int, y: int| M.inb(u, x, y) ==> #[trigger] M.at(u, x, y) < usize::MAX, forall|u: int, x: int| 0 <= u < T.d0() && 0 <= x < T.d1() ==> (#[trigger] T.at(u, x)).fin(),
{
    reveal(acc_st);
    assert forall|u: int, x: int, y: int| M.inb(u, x, y) implies #[trigger] M.at(u, x, y) < usize::MAX by { lm_cnt(ns, P, node, trs, m, u, x, y); lm_tr_cnt(ns, P, node, trs[m], k, u, x, y); }
}
/// One interval is counted: the entry of its configuration and state, nothing else.
pub proof fn lm_acc_step(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, i: int, M0: Array3<usize>, T0: Array2<F64>, M: Array3<usize>, T: Array2<F64>)
    requires
        0 <= m, 0 <= i, acc_st(ns, P, node, trs, m, i, M0, T0), M.same_dim(&M0), T.same_dim(&T0),
        ({
            let tr = trs[m]; let ui = pidx(ns, P, row_st(tr.events, i), ns.len() as int); let x1 = tr.events.at(i, node) as int; let y1 = tr.events.at(i + 1, node) as int;
            &&& tr.time.at(i).fin() && tr.time.at(i + 1).fin()
            &&& forall|u: int, x: int, y: int| M.inb(u, x, y) ==> #[trigger] M.at(u, x, y) == M0.at(u, x, y) + if u == ui && x == x1 && y == y1 && x != y { 1int } else { 0 }
            &&& forall|u: int, x: int| 0 <= u < T.d0() && 0 <= x < T.d1() ==> (#[trigger] T.at(u, x)).g@ == (if u == ui && x == x1 { fadd(T0.at(u, x).g@, fsub(tr.time.at(i + 1).g@, tr.time.at(i).g@)) } else { T0.at(u, x).g@ })
        }),
    ensures acc_st(ns, P, node, trs, m, i + 1, M, T),
{
    reveal(acc_st);
    let tr = trs[m]; let ui = pidx(ns, P, row_st(tr.events, i), ns.len() as int); let x1 = tr.events.at(i, node) as int; let y1 = tr.events.at(i + 1, node) as int; let dt = tr.time.at(i + 1).v() - tr.time.at(i).v();
    assert forall|u: int, x: int| 0 <= u < T.d0() && 0 <= x < T.d1() implies (#[trigger] T.at(u, x)).g@ == Fl::Fin(tim(ns, P, node, trs, m, u, x) + tr_time(ns, P, node, tr, i + 1, u, x)) by {
        assert(at_ux(ns, P, node, tr, i, u, x) == (u == ui && x == x1));
        assert(tr_time(ns, P, node, tr, i + 1, u, x) == tr_time(ns, P, node, tr, i, u, x) + if u == ui && x == x1 { dt } else { 0real });
        assert(T0.at(u, x).g@ == Fl::Fin(tim(ns, P, node, trs, m, u, x) + tr_time(ns, P, node, tr, i, u, x)));
    }
    assert forall|u: int, x: int, y: int| M.inb(u, x, y) implies #[trigger] M.at(u, x, y) == cnt(ns, P, node, trs, m, u, x, y) + tr_cnt(ns, P, node, tr, i + 1, u, x, y) by {
        assert(at_ux(ns, P, node, tr, i, u, x) == (u == ui && x == x1));
        assert(tr_cnt(ns, P, node, tr, i + 1, u, x, y) == tr_cnt(ns, P, node, tr, i, u, x, y) + if u == ui && x == x1 && y == y1 && x != y { 1nat } else { 0 });
        assert(M0.inb(u, x, y));
        assert(M0.at(u, x, y) == cnt(ns, P, node, trs, m, u, x, y) + tr_cnt(ns, P, node, tr, i, u, x, y));
    }
}
pub proof fn lm_acc_stats(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, M: Array3<usize>, T: Array2<F64>)
    requires M.d0() == uconf(ns, s), M.d1() == card(ns, node), M.d2() == card(ns, node), T.d0() == uconf(ns, s), T.d1() == card(ns, node),
        acc_st(ns, in_set(s), node, ds.trajectories@, ds.trajectories@.len() as int, 0, M, T),
    ensures is_stats(ns, s, node, ds, M, T),
{ reveal(acc_st); let trs = ds.trajectories@; let m = trs.len() as int; let P = in_set(s);
    assert forall|u: int, x: int, y: int| M.inb(u, x, y) implies #[trigger] M.at(u, x, y) == ds_cnt(ns, s, node, ds, u, x, y) by { assert(tr_cnt(ns, P, node, trs[m], 0, u, x, y) == 0); }
    assert forall|u: int, x: int| 0 <= u < T.d0() && 0 <= x < T.d1() implies (#[trigger] T.at(u, x)).g@ == Fl::Fin(ds_time(ns, s, node, ds, u, x)) by { assert(tr_time(ns, P, node, trs[m], 0, u, x) == 0real); }
}
@fn sufficient_statistics(net, dataset, node, parent_set) -> r
@requires
    st_req(net, dataset, node), below(parent_set@, net.nodes().len() as int), uconf(net.nodes(), parent_set@) <= usize::MAX,
@ensures
    is_stats(net.nodes(), parent_set@, node as int, dataset, r.0, r.1),
@start
    let ghost ns = net.nodes(); let ghost P = in_set(parent_set@); let ghost n = ns.len() as int; let ghost trs = dataset.trajectories@; let ghost l = ord_s(parent_set@); let ghost s0 = zero_st(ns);
    proof { assert forall|i: int| 0 <= i < n implies #[trigger] sv(s0, i) < card(ns, i) by { assert(sv(s0, i) == 0); } assert(P_ok(ns, P, s0, n)); }
@loop 1
@inv
    set_order(parent_set@, l), l == derefs(it_1@), forall|i: int| 0 <= i < k_1 ==> #[trigger] out_1@[i] == card(ns, l[i] as int),
@top
    proof { assert(l[k_1 - 1] == *e_1); assert(parent_set@.contains(*e_1)); }
@loop 2
@pre
    proof { lm_set_gap(parent_set@, l, 0); lm_upto(parent_set@, l, n, 0); lm_skip(ns, P, s0, 0, upto(l, 0)); }
@inv
    l == derefs(it_2@), acc_2 == stride(ns, P, upto(l, k_2 as int)), vector_to_idx.d0() == n, 0 <= upto(l, k_2 as int) <= n,
    forall|i: int| 0 <= i < n ==> #[trigger] vector_to_idx.at(i) == (if P(i) && i < upto(l, k_2 as int) { stride(ns, P, i) } else { 0 }),
@top
    proof { lm_member(ns, parent_set@, l, s0, k_2 - 1); assert(l[k_2 - 1] == *e_2); assert(*zip_2_1@[k_2 - 1] == parentset_domain@[k_2 - 1]); }
@post
    proof { lm_all(ns, parent_set@, l, s0); assert(is_strides(ns, P, vector_to_idx)); }
@loop 3
@inv
    acc_3 == stride(ns, P, upto(l, k_3 as int)),
@top
    proof { lm_member(ns, parent_set@, l, s0, k_3 - 1); assert(*e_3 == parentset_domain@[k_3 - 1]); }
@loop 4
@inv
    acc_4 == stride(ns, P, upto(l, k_4 as int)),
@top
    proof { lm_member(ns, parent_set@, l, s0, k_4 - 1); assert(*e_4 == parentset_domain@[k_4 - 1]); }
@loop 5
@pre
    let ghost U = uconf(ns, parent_set@); let ghost kk = card(ns, node as int);
    proof { lm_acc_start(ns, P, node as int, trs, M, T); }
@inv
    M.d0() == U, M.d1() == kk, M.d2() == kk, T.d0() == U, T.d1() == kk,
    acc_st(ns, P, node as int, trs, k_5 as int, 0, M, T),
@top
    let ghost tr = trs[k_5 - 1];
    proof { assert(*e_5 == tr); assert(tr_ok(ns, tr)); lm_rows_mono(trs, k_5 as int, trs.len() as int); }
@post
    proof { lm_acc_stats(ns, parent_set@, node as int, dataset, M, T); }
@loop 6
@inv
    k_6 <= end_6, end_6 == tr.time.d0() - 1,
    M.d0() == U, M.d1() == kk, M.d2() == kk, T.d0() == U, T.d1() == kk,
    acc_st(ns, P, node as int, trs, k_5 - 1, k_6 as int, M, T),
@top
    let ghost i = k_6 - 1; let ghost st = row_st(tr.events, i); let ghost M0 = M; let ghost T0 = T; let ghost ui = pidx(ns, P, st, n);
    proof {
        assert forall|j: int| 0 <= j < n implies #[trigger] sv(st, j) < card(ns, j) by { assert(tr.events.at(i, j) < card(ns, j)); }
        assert(P_ok(ns, P, st, n));
        lm_pidx_bound(ns, P, st, n);
        assert(tr.events.at(i, node as int) < kk); assert(tr.events.at(i + 1, node as int) < kk);
        assert(tr.time.at(i).fin() && tr.time.at(i + 1).fin());
        assert forall|r: Array1<usize>| r.d0() == n && (forall|j: int| 0 <= j < n ==> #[trigger] r.at(j) == tr.events.at(i, j)) implies #[trigger] ndot(n as nat, vector_to_idx, r) == ui by { lm_dot(ns, P, vector_to_idx, tr.events, i, r, n as nat); }
        lm_acc_small(ns, P, node as int, trs, k_5 - 1, i, M, T);
    }
@bot
    proof { lm_acc_step(ns, P, node as int, trs, k_5 - 1, i, M0, T0, M, T); }
@post
    proof { lm_acc_end(ns, P, node as int, trs, k_5 - 1, M, T); }
@raw
/// The parent set a fit uses: the one passed in, or the network's own.
pub open spec fn fset(ps: Option<BTreeSet<usize>>, a: Adj, node: int, n: int) -> Set<usize> {
    if ps is Some { ps->Some_0@ } else { choose|s: Set<usize>| is_set(s, par_of(a, node), n) }
}
pub open spec fn fit_ok<T: NetworkProcess>(net: &T, dataset: &Dataset, node: usize, ps: Option<BTreeSet<usize>>) -> bool {
    &&& st_req(net, dataset, node)
    &&& ps is None ==> net.ready()
    &&& ps is Some ==> below(ps->Some_0@, net.nodes().len() as int)
    &&& uconf(net.nodes(), fset(ps, net.adj(), node as int, net.nodes().len() as int)) <= usize::MAX
}
/// What every learning method returns: a copy of the node with a matrix and statistics of the right size.
pub open spec fn fit_shape(ns: Seq<Params>, s: Set<usize>, node: int, r: Params) -> bool {
    let q = r.p(); let k = card(ns, node); let U = uconf(ns, s);
    &&& q.label == ns[node].p().label && q.domain == ns[node].p().domain
    &&& q.cim is Some && q.cim->Some_0.d0() == U && q.cim->Some_0.d1() == k && q.cim->Some_0.d2() == k
    &&& q.transitions is Some && q.transitions->Some_0.d0() == U && q.transitions->Some_0.d1() == k && q.transitions->Some_0.d2() == k
    &&& q.residence_time is Some && q.residence_time->Some_0.d0() == U && q.residence_time->Some_0.d1() == k
}
@trait ParameterLearning
    spec fn fit_s(&self, ns: Seq<Params>, s: Set<usize>, ds: &Dataset, node: int) -> Params;
@fn ParameterLearning::fit(net, dataset, node, parent_set) -> r
@requires fit_ok(net, dataset, node, parent_set),
@ensures
    fit_shape(net.nodes(), fset(parent_set, net.adj(), node as int, net.nodes().len() as int), node as int, r),
    r == self.fit_s(net.nodes(), fset(parent_set, net.adj(), node as int, net.nodes().len() as int), dataset, node as int),
@timpl ParameterLearning for MLE
    open spec fn fit_s(&self, ns: Seq<Params>, s: Set<usize>, ds: &Dataset, node: int) -> Params { choose|p: Params| is_mle(ns, s, node, ds, p) }
@timpl ParameterLearning for BayesianApproach
    open spec fn fit_s(&self, ns: Seq<Params>, s: Set<usize>, ds: &Dataset, node: int) -> Params { choose|p: Params| is_bay(ns, s, node, ds, self.alpha as int, self.tau.g@, p) }
@raw
/// The statistics and identity of a fitted node; f gives the rate of (u, x, y) for x != y, g the value summed up on the diagonal itself.
pub open spec fn is_fit(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, p: Params, f: spec_fn(int, int, int) -> Fl, g: spec_fn(int, int) -> Fl) -> bool {
    let q = p.p();
    &&& fit_shape(ns, s, node, p)
    &&& is_stats(ns, s, node, ds, q.transitions->Some_0, q.residence_time->Some_0)
    &&& forall|u: int, x: int, y: int| q.cim->Some_0.inb(u, x, y) ==> (#[trigger] q.cim->Some_0.at(u, x, y)).g@ == (if x != y { f(u, x, y) } else { fmul(fsum(frow(card(ns, node), f, g, u, x)), Fl::Fin(-1real)) })
}
pub open spec fn frow(k: nat, f: spec_fn(int, int, int) -> Fl, g: spec_fn(int, int) -> Fl, u: int, x: int) -> Seq<F64> { Seq::new(k, |y: int| F64 { g: Ghost(if y == x { g(u, x) } else { f(u, x, y) }) }) }
pub proof fn lm_fset(a: Adj, node: int, n: int, s: Set<usize>)
    requires is_set(s, par_of(a, node), n), ensures s == fset(None, a, node, n),
{
    let c = fset(None, a, node, n); assert(is_set(c, par_of(a, node), n));
    assert forall|x: usize| s.contains(x) == c.contains(x) by { if x < n { assert(s.contains(x) == par_of(a, node)(x as int)); assert(c.contains(x) == par_of(a, node)(x as int)); } }
    assert(s =~= c);
}
pub proof fn lm_fit_unique(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, p: Params, q: Params, f: spec_fn(int, int, int) -> Fl, g: spec_fn(int, int) -> Fl)
    requires is_fit(ns, s, node, ds, p, f, g), is_fit(ns, s, node, ds, q, f, g), ensures p == q,
{
    let a = p.p(); let b = q.p();
    let (mc, nc) = (a.cim->Some_0, b.cim->Some_0); let (mt, nt) = (a.transitions->Some_0, b.transitions->Some_0); let (mr, nr) = (a.residence_time->Some_0, b.residence_time->Some_0);
    assert forall|u: int, x: int, y: int| mc.inb(u, x, y) implies #[trigger] mc.at(u, x, y) == nc.at(u, x, y) by { assert(nc.inb(u, x, y)); assert(mc.at(u, x, y).g@ == nc.at(u, x, y).g@); }
    assert forall|u: int, x: int, y: int| mt.inb(u, x, y) implies #[trigger] mt.at(u, x, y) == nt.at(u, x, y) by { assert(nt.inb(u, x, y)); }
    assert forall|u: int, x: int| 0 <= u < mr.d0() && 0 <= x < mr.d1() implies #[trigger] mr.at(u, x) == nr.at(u, x) by { assert(mr.at(u, x).g@ == nr.at(u, x).g@); }
    ax_array3_ext(mc, nc); ax_array3_ext(mt, nt); ax_array2_ext(mr, nr);
}
/// C1 with the diagonals of its first k blocks replaced by the rows of D.
pub open spec fn diag_done(C: Array3<F64>, C1: Array3<F64>, D: Array2<F64>, k: int) -> bool {
    C.same_dim(&C1) && forall|u: int, x: int, y: int| C1.inb(u, x, y) ==> #[trigger] C.at(u, x, y) == (if u < k && x == y { D.at(u, x) } else { C1.at(u, x, y) })
}
/// The arrays a fit computes are those of the specification.
pub proof fn lm_fit(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, p: Params, f: spec_fn(int, int, int) -> Fl, g: spec_fn(int, int) -> Fl, C1: Array3<F64>, D: Array2<F64>)
    requires
        fit_shape(ns, s, node, p), is_stats(ns, s, node, ds, p.p().transitions->Some_0, p.p().residence_time->Some_0),
        forall|u: int, x: int, y: int| C1.inb(u, x, y) ==> (#[trigger] C1.at(u, x, y)).g@ == (if x == y { g(u, x) } else { f(u, x, y) }),
        D.d0() == C1.d0(), D.d1() == C1.d1(), forall|u: int, x: int| 0 <= u < D.d0() && 0 <= x < D.d1() ==> (#[trigger] D.at(u, x)).g@ == fmul(fsum(C1.row_s(u, x)), Fl::Fin(-1real)),
        diag_done(p.p().cim->Some_0, C1, D, C1.d0() as int),
    ensures is_fit(ns, s, node, ds, p, f, g),
{
    let c = p.p().cim->Some_0; let k = card(ns, node);
    assert forall|u: int, x: int, y: int| c.inb(u, x, y) implies (#[trigger] c.at(u, x, y)).g@ == (if x != y { f(u, x, y) } else { fmul(fsum(frow(k, f, g, u, x)), Fl::Fin(-1real)) }) by {
        assert(C1.inb(u, x, y));
        assert(c.at(u, x, y) == (if x == y { D.at(u, x) } else { C1.at(u, x, y) }));
        if x == y {
            let r = C1.row_s(u, x); let w = frow(k, f, g, u, x);
            assert forall|j: int| 0 <= j < k implies r[j] == w[j] by { assert(C1.inb(u, x, j)); assert(C1.at(u, x, j).g@ == (if x == j { g(u, x) } else { f(u, x, j) })); }
            assert(r =~= w);
        }
    }
}
pub open spec fn mle_f(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset) -> spec_fn(int, int, int) -> Fl {
    |u: int, x: int, y: int| fdiv(Fl::Fin(ds_cnt(ns, s, node, ds, u, x, y) as real), Fl::Fin(ds_time(ns, s, node, ds, u, x)))
}
/// Zero when the state was ever stayed in, otherwise undefined.
pub open spec fn mle_g(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset) -> spec_fn(int, int) -> Fl {
    |u: int, x: int| fdiv(Fl::Fin(0real), Fl::Fin(ds_time(ns, s, node, ds, u, x)))
}
pub open spec fn is_mle(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, p: Params) -> bool {
    is_fit(ns, s, node, ds, p, mle_f(ns, s, node, ds), mle_g(ns, s, node, ds))
}
pub open spec fn bay_f(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, alpha: int, tau: Fl) -> spec_fn(int, int, int) -> Fl {
    |u: int, x: int, y: int| fdiv(
        fadd(Fl::Fin(ds_cnt(ns, s, node, ds, u, x, y) as real), fdiv(Fl::Fin(alpha as real), Fl::Fin(uconf(ns, s) as real))),
        fadd(Fl::Fin(ds_time(ns, s, node, ds, u, x)), fdiv(tau, Fl::Fin(uconf(ns, s) as real))))
}
pub open spec fn is_bay(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, alpha: int, tau: Fl, p: Params) -> bool {
    is_fit(ns, s, node, ds, p, bay_f(ns, s, node, ds, alpha, tau), |u: int, x: int| Fl::Fin(0real))
}
@raw
pub proof fn lm_cnt0(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, u: int, x: int) ensures ds_cnt(ns, s, node, ds, u, x, x) == 0
{ lm_cnt00(ns, in_set(s), node, ds.trajectories@, ds.trajectories@.len() as int, u, x); }
pub proof fn lm_tr0(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int) ensures tr_cnt(ns, P, node, tr, k, u, x, x) == 0 decreases k { if k > 0 { lm_tr0(ns, P, node, tr, k - 1, u, x); } }
pub proof fn lm_cnt00(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, u: int, x: int) ensures cnt(ns, P, node, trs, m, u, x, x) == 0 decreases m { if m > 0 { lm_cnt00(ns, P, node, trs, m - 1, u, x); lm_tr0(ns, P, node, trs[m - 1], trs[m - 1].time.d0() - 1, u, x); } }
@fn MLE::fit(net, dataset, node, parent_set) -> r
@start
    let ghost ns = net.nodes(); let ghost n = ns.len() as int; let ghost S = fset(parent_set, net.adj(), node as int, n); let ghost nd = node as int; let ghost kk = card(ns, nd); let ghost U = uconf(ns, S);
    let ghost f = mle_f(ns, S, nd, dataset); let ghost g = mle_g(ns, S, nd, dataset);
    proof { assert forall|s: Set<usize>| parent_set is None && #[trigger] is_set(s, par_of(net.adj(), nd), n) implies s == S by { lm_fset(net.adj(), nd, n, s); } }
@closure 1 |x: usize| -> (c: F64) ensures c.g@ == Fl::Fin(x as real)
@closure 2 |x: F64| -> (c: F64) ensures c.g@ == fmul(x.g@, Fl::Fin(-1real))
@loop 1
@inv
    CIM.d0() == U, CIM.d1() == kk, CIM.d2() == kk, end_1 == kk,
    forall|u: int, x: int, y: int| 0 <= u < U && 0 <= x < kk && 0 <= y < k_1 ==> (#[trigger] CIM.at(u, x, y)).g@ == f(u, x, y),
@post
    proof {
        let C1 = CIM;
        assert forall|u: int, x: int, y: int| C1.inb(u, x, y) implies (#[trigger] C1.at(u, x, y)).g@ == (if x == y { g(u, x) } else { f(u, x, y) }) by { lm_cnt0(ns, S, nd, dataset, u, x); }
    }
@loop 2
@pre
    let ghost D = tmp_diag_sum; let ghost C1 = CIM;
    proof { assert forall|u: int, x: int| 0 <= u < D.d0() && 0 <= x < D.d1() implies (#[trigger] D.at(u, x)).g@ == fmul(fsum(C1.row_s(u, x)), Fl::Fin(-1real)) by {} }
@inv
    end_2 == U, diag_done(CIM, C1, D, k_2 as int),
@post
    proof {
        assert forall|p: Params| (#[trigger] p.p()).label == ns[nd].p().label && p.p().domain == ns[nd].p().domain && p.p().cim == Some(CIM) && p.p().transitions == Some(M) && p.p().residence_time == Some(T)
            implies p == self.fit_s(ns, S, dataset, nd) by {
            lm_fit(ns, S, nd, dataset, p, f, g, C1, D);
            assert(is_mle(ns, S, nd, dataset, p));
            lm_fit_unique(ns, S, nd, dataset, p, self.fit_s(ns, S, dataset, nd), f, g);
        }
    }
@raw
/// Times never decrease along a trajectory.
pub open spec fn mono(tr: Trajectory) -> bool { forall|i: int| 0 < i < tr.time.d0() ==> tr.time.at(i - 1).v() <= #[trigger] tr.time.at(i).v() }
pub open spec fn ds_mono(ds: &Dataset) -> bool { forall|i: int| 0 <= i < ds.trajectories@.len() ==> mono(#[trigger] ds.trajectories@[i]) }
pub proof fn lm_tr_time(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int)
    requires mono(tr), k < tr.time.d0(), ensures tr_time(ns, P, node, tr, k, u, x) >= 0real decreases k
{ if k > 0 { lm_tr_time(ns, P, node, tr, k - 1, u, x); assert(tr.time.at(k - 1).v() <= tr.time.at(k).v()); } }
pub proof fn lm_tim(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, m: int, u: int, x: int)
    requires m <= trs.len(), forall|i: int| 0 <= i < trs.len() ==> mono(#[trigger] trs[i]), ensures tim(ns, P, node, trs, m, u, x) >= 0real decreases m
{ if m > 0 { lm_tim(ns, P, node, trs, m - 1, u, x); lm_tr_time(ns, P, node, trs[m - 1], trs[m - 1].time.d0() - 1, u, x); } }
pub proof fn lm_frow_sum(k: nat, f: spec_fn(int, int, int) -> Fl, g: spec_fn(int, int) -> Fl, u: int, x: int, m: int)
    requires 0 <= m <= k, forall|y: int| 0 <= y < k && y != x ==> #[trigger] f(u, x, y) is Fin && f(u, x, y)->Fin_0 > 0real, g(u, x) == Fl::Fin(0real),
    ensures ({ let s = fsum(frow(k, f, g, u, x).take(m)); s is Fin && s->Fin_0 >= 0real && (m >= 2 || m == 1 && x != 0 ==> s->Fin_0 > 0real) })
    decreases m
{
    let r = frow(k, f, g, u, x);
    if m > 0 { lm_frow_sum(k, f, g, u, x, m - 1); assert(r.take(m).drop_last() =~= r.take(m - 1)); assert(r.take(m).last() == r[m - 1]);
        if m - 1 != x { assert(f(u, x, m - 1) is Fin); }
    }
}
/// Sum of a row of the learned matrix: the off-diagonal entries plus what stands on the diagonal.
pub open spec fn one_off(a: Seq<F64>, b: Seq<F64>, x: int) -> bool {
    a.len() == b.len() && forall|y: int| 0 <= y < a.len() ==> (#[trigger] a[y]).fin() && b[y].fin() && (y != x ==> a[y] == b[y])
}
pub proof fn lm_sum_swap(a: Seq<F64>, b: Seq<F64>, x: int, m: int)
    requires 0 <= m <= a.len(), one_off(a, b, x),
    ensures fsum(a.take(m)) is Fin, fsum(b.take(m)) is Fin, fsum(a.take(m))->Fin_0 - fsum(b.take(m))->Fin_0 == (if 0 <= x < m { a[x].v() - b[x].v() } else { 0real }),
    decreases m
{
    if m > 0 { lm_sum_swap(a, b, x, m - 1); assert(a[m - 1].fin() && b[m - 1].fin()); assert(a.take(m).drop_last() =~= a.take(m - 1)); assert(b.take(m).drop_last() =~= b.take(m - 1)); assert(a.take(m).last() == a[m - 1]); assert(b.take(m).last() == b[m - 1]); }
}
/// Positive pseudo-counts make every learned matrix a valid intensity matrix.
pub proof fn lm_bay_ok(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, alpha: int, tau: Fl, p: Params)
    requires is_bay(ns, s, node, ds, alpha, tau, p), alpha > 0, tau is Fin, tau->Fin_0 > 0real, card(ns, node) >= 2, ds_mono(ds), uconf(ns, s) > 0,
    ensures cim_opt_ok(card(ns, node), p.p().cim),
{
    let c = p.p().cim->Some_0; let k = card(ns, node); let f = bay_f(ns, s, node, ds, alpha, tau); let U = uconf(ns, s);
    let g: spec_fn(int, int) -> Fl = |u: int, x: int| Fl::Fin(0real);
    assert(forall|u: int, x: int| #[trigger] g(u, x) == Fl::Fin(0real));
    assert forall|u: int, x: int, y: int| #[trigger] f(u, x, y) is Fin && f(u, x, y)->Fin_0 > 0real by {
        lm_tim(ns, in_set(s), node, ds.trajectories@, ds.trajectories@.len() as int, u, x);
        let cc = ds_cnt(ns, s, node, ds, u, x, y) as real; let tt = ds_time(ns, s, node, ds, u, x); let ur = U as real; let ar = alpha as real; let tr = tau->Fin_0;
        assert(ar / ur > 0real) by(nonlinear_arith) requires ar > 0real, ur > 0real;
        assert(tr / ur > 0real) by(nonlinear_arith) requires tr > 0real, ur > 0real;
        let a = cc + ar / ur; let b = tt + tr / ur;
        assert(a / b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real;
    }
    assert forall|u: int, x: int| 0 <= u < c.d0() && 0 <= x < k implies near0(fsum(#[trigger] c.row_s(u, x))) && c.at(u, x, x).fin() && c.at(u, x, x).v() < 0real by {
        let w = frow(k, f, g, u, x); let r = c.row_s(u, x);
        lm_frow_sum(k, f, g, u, x, k as int); assert(w.take(k as int) =~= w);
        assert(c.inb(u, x, x));
        assert(c.at(u, x, x).g@ == fmul(fsum(w), Fl::Fin(-1real)));
        let sv0 = fsum(w)->Fin_0; assert(c.at(u, x, x).v() == -sv0) by(nonlinear_arith) requires c.at(u, x, x).v() == sv0 * (-1real);
        assert forall|y: int| 0 <= y < k implies (#[trigger] r[y]).fin() && w[y].fin() && (y != x ==> r[y] == w[y]) by { assert(c.inb(u, x, y)); assert(f(u, x, y) is Fin); if y != x { assert(r[y].g@ == w[y].g@); } }
        lm_sum_swap(r, w, x, k as int); assert(r.take(k as int) =~= r);
        assert(fsum(r)->Fin_0 == 0real);
    }
    assert forall|u: int, i: int, j: int| c.inb(u, i, j) implies (#[trigger] c.at(u, i, j)).fin() && (i == j ==> c.at(u, i, j).v() < 0real) && (i != j ==> c.at(u, i, j).v() >= 0real) by {
        assert(f(u, i, j) is Fin); let _ = c.row_s(u, i);
    }
}
@fn BayesianApproach::fit(net, dataset, node, parent_set) -> r
@ensures
    self.alpha > 0 && self.tau.fin() && self.tau.v() > 0real && card(net.nodes(), node as int) >= 2 && ds_mono(dataset) ==> cim_opt_ok(card(net.nodes(), node as int), r.p().cim),
@start
    let ghost ns = net.nodes(); let ghost n = ns.len() as int; let ghost S = fset(parent_set, net.adj(), node as int, n); let ghost nd = node as int; let ghost kk = card(ns, nd); let ghost U = uconf(ns, S);
    let ghost f = bay_f(ns, S, nd, dataset, self.alpha as int, self.tau.g@); let ghost g: spec_fn(int, int) -> Fl = |u: int, x: int| Fl::Fin(0real);
    proof { assert forall|s: Set<usize>| parent_set is None && #[trigger] is_set(s, par_of(net.adj(), nd), n) implies s == S by { lm_fset(net.adj(), nd, n, s); }
        let s0 = zero_st(ns); assert forall|i: int| 0 <= i < n implies #[trigger] sv(s0, i) < card(ns, i) by { assert(sv(s0, i) == 0); } assert(P_ok(ns, in_set(S), s0, n)); lm_pidx_bound(ns, in_set(S), s0, n); assert(U > 0); }
@closure 1 |x: usize| -> (c: F64) ensures c.g@ == Fl::Fin(x as real)
@closure 2 |y: F64| -> (c: F64) ensures c.g@ == fadd(y.g@, alpha.g@)
@closure 3 |y: F64| -> (c: F64) ensures c.g@ == fadd(y.g@, tau.g@)
@closure 4 |x: F64| -> (c: F64) ensures c.g@ == fmul(x.g@, Fl::Fin(-1real))
@loop 1
@inv
    CIM.d0() == U, CIM.d1() == kk, CIM.d2() == kk, end_1 == kk,
    forall|u: int, x: int, y: int| 0 <= u < U && 0 <= x < kk && 0 <= y < k_1 ==> (#[trigger] CIM.at(u, x, y)).g@ == f(u, x, y),
@loop 2
@pre
    let ghost C0 = CIM;
@inv
    end_2 == U, CIM.same_dim(&C0), forall|u: int, x: int, y: int| C0.inb(u, x, y) ==> (#[trigger] CIM.at(u, x, y)).g@ == (if u < k_2 && x == y { Fl::Fin(0real) } else { f(u, x, y) }),
@loop 3
@pre
    let ghost D = tmp_diag_sum; let ghost C1 = CIM;
    proof { assert forall|u: int, x: int| 0 <= u < D.d0() && 0 <= x < D.d1() implies (#[trigger] D.at(u, x)).g@ == fmul(fsum(C1.row_s(u, x)), Fl::Fin(-1real)) by {} }
@inv
    end_3 == U, diag_done(CIM, C1, D, k_3 as int),
@post
    proof {
        assert forall|p: Params| (#[trigger] p.p()).label == ns[nd].p().label && p.p().domain == ns[nd].p().domain && p.p().cim == Some(CIM) && p.p().transitions == Some(M) && p.p().residence_time == Some(T)
            implies p == self.fit_s(ns, S, dataset, nd) && (self.alpha > 0 && self.tau.fin() && self.tau.v() > 0real && kk >= 2 && ds_mono(dataset) ==> cim_opt_ok(kk, p.p().cim)) by {
            lm_fit(ns, S, nd, dataset, p, f, g, C1, D);
            assert(is_bay(ns, S, nd, dataset, self.alpha as int, self.tau.g@, p));
            lm_fit_unique(ns, S, nd, dataset, p, self.fit_s(ns, S, dataset, nd), f, g);
            if self.alpha > 0 && self.tau.fin() && self.tau.v() > 0real && kk >= 2 && ds_mono(dataset) { lm_bay_ok(ns, S, nd, dataset, self.alpha as int, self.tau.g@, p); }
        }
    }
