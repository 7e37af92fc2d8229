@raw
/// What a sampler remembers between samples.
#[verifier::ext_equal]
pub ghost struct Smp { pub t: Fl, pub st: Seq<StateType>, pub nx: Seq<Option<F64>>, pub rs: RS }
pub open spec fn cim_s(ns: Seq<Params>, i: int) -> Array3<F64> { ns[i].p().cim->Some_0 }
/// The configuration of node i's parents.
pub open spec fn conf(ns: Seq<Params>, a: Adj, st: Seq<StateType>, i: int) -> int { pidx(ns, par_of(a, i), st, ns.len() as int) as int }
/// A valid matrix for node i with one block per parent configuration and an actual transition out of every state.
pub open spec fn node_ok(ns: Seq<Params>, a: Adj, i: int) -> bool {
    &&& cim_opt_ok(card(ns, i), ns[i].p().cim) && card(ns, i) <= usize::MAX && cim_s(ns, i).d0() == nconf(ns, a, i) && nconf(ns, a, i) <= usize::MAX
    &&& forall|u: int, x: int| 0 <= u < cim_s(ns, i).d0() && 0 <= x < card(ns, i) ==> has_pos(#[trigger] cim_s(ns, i).row_s(u, x), card(ns, i) as int)
}
pub open spec fn smp_req<T: NetworkProcess>(net: &T) -> bool {
    &&& net.wf() && net.ready() && net.multi() && net.nodes().len() > 0 && dom_ok(net.nodes())
    &&& forall|i: int| 0 <= i < net.nodes().len() ==> #[trigger] node_ok(net.nodes(), net.adj(), i)
}
/// Transition time scheduled for node k: one residence time, drawn in its current state and configuration, from now on.
pub open spec fn sched(ns: Seq<Params>, a: Adj, s: Smp, k: int, rs: RS) -> F64 { F64 { g: Ghost(fadd(res_time(cim_s(ns, k), conf(ns, a, s.st, k), sv(s.st, k) as int, rs), s.t)) } }
/// The first k nodes without a scheduled time get one, in order; the others keep theirs.
pub open spec fn fill(ns: Seq<Params>, a: Adj, s: Smp, k: int) -> (Seq<Option<F64>>, RS) decreases k {
    if k <= 0 { (s.nx, s.rs) } else { let (m, r) = fill(ns, a, s, k - 1); if m[k - 1] is None { (m.update(k - 1, Some(sched(ns, a, s, k - 1, r))), rs_next(r)) } else { (m, r) } }
}
/// The node scheduled first.
pub open spec fn winner(nx: Seq<Option<F64>>, n: int) -> int decreases n {
    if n <= 1 { 0 } else { let w = winner(nx, n - 1); if flt(nx[n - 1]->Some_0.g@, nx[w]->Some_0.g@) { n - 1 } else { w } }
}
pub open spec fn discard(a: Adj, nx: Seq<Option<F64>>, w: int) -> Seq<Option<F64>> { Seq::new(nx.len(), |i: int| if i == w || a(w, i) { None } else { nx[i] }) }
/// One transition: the node scheduled first changes at its scheduled time, and it and its children lose their schedule.
pub open spec fn step(ns: Seq<Params>, a: Adj, s: Smp) -> Smp {
    let f = fill(ns, a, s, ns.len() as int); let w = winner(f.0, ns.len() as int);
    Smp { t: f.0[w]->Some_0.g@, st: s.st.update(w, StateType::Discrete(next_state(cim_s(ns, w), conf(ns, a, s.st, w), sv(s.st, w) as usize, f.1))), nx: discard(a, f.0, w), rs: rs_next(f.1) }
}
/// Uniformly drawn states of the first k variables.
pub open spec fn udraw(ns: Seq<Params>, rs: RS, k: int) -> (Seq<StateType>, RS) decreases k {
    if k <= 0 { (Seq::empty(), rs) } else { let (s, r) = udraw(ns, rs, k - 1); (s.push(StateType::Discrete(draw_n(r, 0, card(ns, k - 1)) as usize)), rs_next(r)) }
}
pub open spec fn fresh(ns: Seq<Params>, init: Option<NetworkProcessState>, rs: RS) -> Smp {
    Smp { t: Fl::Fin(0real), st: if init is Some { init->Some_0@ } else { udraw(ns, rs, ns.len() as int).0 }, nx: Seq::new(ns.len(), |i: int| None::<F64>), rs: if init is Some { rs } else { udraw(ns, rs, ns.len() as int).1 } }
}
pub open spec fn smp_ok(ns: Seq<Params>, s: Smp) -> bool {
    &&& st_ok(ns, s.st) && s.nx.len() == ns.len() && fle(Fl::Fin(0real), s.t)
    &&& forall|i: int| 0 <= i < ns.len() && (#[trigger] s.nx[i]) is Some ==> fle(s.t, s.nx[i]->Some_0.g@)
}
impl<'a, T: NetworkProcess> ForwardSampler<'a, T> {
    pub open spec fn m(&self) -> Smp { Smp { t: self.current_time.g@, st: self.current_state@, nx: self.next_transitions@, rs: self.rng.s() } }
    pub open spec fn inv(&self) -> bool {
        smp_req(self.net) && smp_ok(self.net.nodes(), self.m()) && (self.initial_state is Some ==> st_ok(self.net.nodes(), self.initial_state->Some_0@))
    }
}
pub proof fn lm_row(ns: Seq<Params>, a: Adj, st: Seq<StateType>, i: int)
    requires 0 <= i < ns.len(), node_ok(ns, a, i), st_ok(ns, st),
    ensures ({ let c = cim_s(ns, i); let u = conf(ns, a, st, i); let x = sv(st, i) as int;
        &&& c.inb(u, x, x) && c.at(u, x, x).fin() && rate(c, u, x) > 0real && u < nconf(ns, a, i) && row_ok(c.row_s(u, x), x) && has_pos(c.row_s(u, x), c.d2() as int) && x <= usize::MAX }),
{
    let c = cim_s(ns, i); let u = conf(ns, a, st, i); let x = sv(st, i) as int;
    assert(P_ok(ns, par_of(a, i), st, ns.len() as int)); lm_pidx_bound(ns, par_of(a, i), st, ns.len() as int);
    assert(c.inb(u, x, x)); assert(c.at(u, x, x).fin());
    let row = c.row_s(u, x);
    assert forall|j: int| 0 <= j < row.len() implies (#[trigger] row[j]).fin() && (j != x ==> row[j].v() >= 0real) by { assert(c.inb(u, x, j)); assert(c.at(u, x, j).fin()); }
}
/// Filling schedules every node, never before now, and keeps what was scheduled.
pub proof fn lm_fill(ns: Seq<Params>, a: Adj, s: Smp, k: int)
    requires 0 <= k <= ns.len(), smp_ok(ns, s), forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_ok(ns, a, i),
    ensures ({ let m = fill(ns, a, s, k).0;
        &&& m.len() == ns.len()
        &&& forall|i: int| 0 <= i < k ==> (#[trigger] m[i]) is Some
        &&& forall|i: int| k <= i < ns.len() ==> #[trigger] m[i] == s.nx[i]
        &&& forall|i: int| 0 <= i < ns.len() && s.nx[i] is Some ==> #[trigger] m[i] == s.nx[i]
        &&& forall|i: int| 0 <= i < ns.len() && (#[trigger] m[i]) is Some ==> fle(s.t, m[i]->Some_0.g@) }),
    decreases k,
{
    if k > 0 {
        lm_fill(ns, a, s, k - 1); lm_row(ns, a, s.st, k - 1);
        let r = fill(ns, a, s, k - 1).1; let u = conf(ns, a, s.st, k - 1); let x = sv(s.st, k - 1) as int;
        lm_res_nonneg(cim_s(ns, k - 1), u, x, r); ax_draw_incl(r, 0real, 1real);
        assert(fle(s.t, sched(ns, a, s, k - 1, r).g@));
    }
}
pub proof fn lm_winner(nx: Seq<Option<F64>>, n: int)
    requires 0 < n <= nx.len(), forall|i: int| 0 <= i < n ==> (#[trigger] nx[i]) is Some && !(nx[i]->Some_0.g@ is NaN),
    ensures 0 <= winner(nx, n) < n, forall|i: int| 0 <= i < n ==> fle(nx[winner(nx, n)]->Some_0.g@, (#[trigger] nx[i])->Some_0.g@),
    decreases n,
{ if n > 1 { lm_winner(nx, n - 1); } else { assert(nx[0] is Some); } }
/// A step keeps the invariant, never goes back in time and changes exactly the state of the node scheduled first, to another value of its domain.
pub proof fn lm_step_ok(ns: Seq<Params>, a: Adj, s: Smp)
    requires ns.len() > 0, smp_ok(ns, s), forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_ok(ns, a, i),
    ensures ({ let q = step(ns, a, s); let f = fill(ns, a, s, ns.len() as int).0; let w = winner(f, ns.len() as int);
        &&& smp_ok(ns, q) && fle(s.t, q.t) && 0 <= w < ns.len() && sv(q.st, w) != sv(s.st, w) && sv(q.st, w) < card(ns, w)
        &&& forall|i: int| 0 <= i < ns.len() && i != w ==> #[trigger] sv(q.st, i) == sv(s.st, i)
        &&& changes_one(s.st, q.st)
        &&& forall|i: int| 0 <= i < ns.len() ==> fle(q.t, (#[trigger] f[i])->Some_0.g@)
        &&& forall|i: int| 0 <= i < ns.len() && s.nx[i] is Some && i != w && !a(w, i) ==> #[trigger] q.nx[i] == s.nx[i] }),
{
    let n = ns.len() as int; let f = fill(ns, a, s, n); let q = step(ns, a, s);
    lm_fill(ns, a, s, n); lm_winner(f.0, n);
    let w = winner(f.0, n);
    lm_row(ns, a, s.st, w);
    let c = cim_s(ns, w); let u = conf(ns, a, s.st, w); let x = sv(s.st, w) as usize; let row = c.row_s(u, x as int);
    let d = draw_f_incl(f.1, Fl::Fin(0real), Fl::Fin(1real));
    assert(rate(c, u, x as int) == -row[x as int].v());
    lm_chosen(row, rate(c, u, x as int), d, x, c.d2() as int);
    assert(node_ok(ns, a, w)); assert(has_pos(row, c.d2() as int));
    assert(q.st[w] == StateType::Discrete(next_state(c, u, x, f.1)));
    assert(next_state(c, u, x, f.1) == chosen(row, rate(c, u, x as int), d, x, c.d2() as int));
    assert(f.0[w] is Some);
    assert(sv(q.st, w) < card(ns, w) && sv(q.st, w) != sv(s.st, w));
    assert forall|i: int| 0 <= i < n implies #[trigger] sv(q.st, i) < card(ns, i) by { assert(sv(s.st, i) < card(ns, i)); if i != w { assert(q.st[i] == s.st[i]); } }
    assert(differ_at(s.st, q.st, w));
    assert(changes_one(s.st, q.st)) by { assert(sv(s.st, w) != sv(q.st, w)); }
    assert forall|i: int| 0 <= i < n && (#[trigger] q.nx[i]) is Some implies fle(q.t, q.nx[i]->Some_0.g@) by { assert(f.0[i] is Some); }
}
/// Two states of the same length that differ in exactly one variable.
pub open spec fn changes_one(a: Seq<StateType>, b: Seq<StateType>) -> bool { one_step(a, b) && exists|i: int| #[trigger] differ_at(a, b, i) }
pub proof fn lm_udraw(ns: Seq<Params>, rs: RS, k: int)
    requires 0 <= k <= ns.len(), dom_ok(ns), forall|i: int| 0 <= i < ns.len() ==> #[trigger] card(ns, i) <= usize::MAX,
    ensures udraw(ns, rs, k).0.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] sv(udraw(ns, rs, k).0, i) < card(ns, i) decreases k
{ if k > 0 { lm_udraw(ns, rs, k - 1); let r = udraw(ns, rs, k - 1).1; ax_draw_n(r, 0, card(ns, k - 1)); assert(card(ns, k - 1) > 0);
    assert forall|i: int| 0 <= i < k implies #[trigger] sv(udraw(ns, rs, k).0, i) < card(ns, i) by { if i < k - 1 { assert(sv(udraw(ns, rs, k - 1).0, i) < card(ns, i)); } } } }
/// Children of w that the first k elements of the iteration name.
pub open spec fn dropped(it: Seq<usize>, k: int, i: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] it[j] == i }
pub proof fn lm_iter(it: Seq<usize>, P: spec_fn(int) -> bool, n: int)
    requires n <= usize::MAX, exists|s: Set<usize>| #[trigger] set_order(s, it) && is_set(s, P, n),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] P(i) == dropped(it, it.len() as int, i), forall|j: int| 0 <= j < it.len() ==> #[trigger] it[j] < n
{
    let s = choose|s: Set<usize>| #[trigger] set_order(s, it) && is_set(s, P, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] P(i) == dropped(it, it.len() as int, i) by {
        assert(s.contains(i as usize) == P(i));
        if P(i) { assert(it.contains(i as usize)); let j = choose|j: int| 0 <= j < it.len() && it[j] == i as usize; assert(it[j] == i); }
        if dropped(it, it.len() as int, i) { let j = choose|j: int| 0 <= j < it.len() && #[trigger] it[j] == i; assert(s.contains(it[j])); }
    }
    assert forall|j: int| 0 <= j < it.len() implies #[trigger] it[j] < n by { assert(s.contains(it[j])); }
}
@fn ForwardSampler::new(net, seed, initial_state) -> r
@requires
    smp_req(net), initial_state is Some ==> st_ok(net.nodes(), initial_state->Some_0@),
@ensures
    r.net == net, r.initial_state == initial_state, r.inv(),
    seed is Some ==> r.m() == fresh(net.nodes(), initial_state, rs_seed(seed->Some_0)),
    exists|rs: RS| r.m() == #[trigger] fresh(net.nodes(), initial_state, rs),
@entropy seed is None
@fn ForwardSampler::reset()
@requires
    smp_req(old(self).net), old(self).initial_state is Some ==> st_ok(old(self).net.nodes(), old(self).initial_state->Some_0@),
@ensures
    final(self).net == old(self).net, final(self).initial_state == old(self).initial_state, final(self).inv(),
    final(self).m() == fresh(old(self).net.nodes(), old(self).initial_state, old(self).rng.s()),
@start
    let ghost ns = self.net.nodes(); let ghost rs0 = self.rng.s(); let ghost n = ns.len() as int;
    proof { assert forall|i: int| 0 <= i < n implies #[trigger] card(ns, i) <= usize::MAX by { assert(node_ok(ns, self.net.adj(), i)); } lm_udraw(ns, rs0, n); }
@loop 1
@inv
    self.net == old(self).net, self.initial_state == old(self).initial_state, it_1@.len() == n,
    out_1@ == udraw(ns, rs0, k_1 as int).0, self.rng.s() == udraw(ns, rs0, k_1 as int).1,
@top
    proof { assert(card(ns, k_1 - 1) > 0); }
@loop 2
@inv
    it_2@.len() == n, all_none(out_2@),
@end
    proof { assert(self.next_transitions@ =~= Seq::new(ns.len(), |i: int| None::<F64>)); assert(self.m() =~= fresh(ns, self.initial_state, rs0)); }
@raw
pub open spec fn min_done(r: Option<(usize, &Option<F64>)>, nx: Seq<Option<F64>>, k: int) -> bool {
    if k <= 0 { r is None } else { r is Some && r->Some_0.0 == winner(nx, k) && *r->Some_0.1 == nx[r->Some_0.0 as int] && r->Some_0.0 < k }
}
pub open spec fn all_none(s: Seq<Option<F64>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is None }
@fn ForwardSampler::next() -> r
@requires old(self).inv(),
@ensures
    r is Some, r->Some_0.t.g@ == old(self).m().t, r->Some_0.state@ == old(self).m().st,
    final(self).net == old(self).net, final(self).initial_state == old(self).initial_state, final(self).inv(),
    final(self).m() == step(old(self).net.nodes(), old(self).net.adj(), old(self).m()),
    fle(old(self).m().t, final(self).m().t), changes_one(old(self).m().st, final(self).m().st),
@start
    let ghost ns = self.net.nodes(); let ghost A = self.net.adj(); let ghost n = ns.len() as int; let ghost s0 = self.m(); let ghost f = fill(ns, A, s0, n);
    proof { lm_fill(ns, A, s0, n); lm_winner(f.0, n); lm_step_ok(ns, A, s0); }
@loop 1
@inv
    self.net == old(self).net, self.initial_state == old(self).initial_state, self.current_time.g@ == s0.t, self.current_state@ == s0.st, end_1 == n,
    self.next_transitions@.len() == n, self.next_transitions@ == fill(ns, A, s0, k_1 as int).0, self.rng.s() == fill(ns, A, s0, k_1 as int).1,
@pre
    proof { assert(fill(ns, A, s0, 0) == (s0.nx, s0.rs)); }
@top
    let ghost m0 = self.next_transitions@;
    proof { lm_fill(ns, A, s0, k_1 - 1); lm_row(ns, A, s0.st, k_1 - 1); assert(node_ok(ns, A, k_1 - 1)); }
@bot
    proof { assert(self.next_transitions@ =~= fill(ns, A, s0, k_1 as int).0); }
@loop 2
@inv
    min_done(res_2, f.0, k_2 as int), k_2 <= n, self.next_transitions@ == f.0, forall|i: int| 0 <= i < n ==> (#[trigger] f.0[i]) is Some,
@top
    proof { assert(f.0[k_2 - 1] is Some); if k_2 > 1 { lm_winner(f.0, k_2 - 1); assert(f.0[winner(f.0, k_2 - 1)] is Some); } }
@post
    proof { let w = winner(f.0, n); lm_row(ns, A, s0.st, w); assert(node_ok(ns, A, w)); assert(sv(s0.st, w) < card(ns, w)); }
@loop 3
@pre
    let ghost w = winner(f.0, n); let ghost nw = self.next_transitions@[w];
@inv
    self.net == old(self).net, self.initial_state == old(self).initial_state, self.next_transitions@.len() == n,
    self.m().t == step(ns, A, s0).t, self.m().st == step(ns, A, s0).st, self.m().rs == step(ns, A, s0).rs,
    forall|i: int| 0 <= i < n ==> #[trigger] self.next_transitions@[i] == (if dropped(it_3@, k_3 as int, i) { None } else if i == w { nw } else { f.0[i] }),
@post
    proof {
        lm_iter(it_3@, ch_of(A, w), n);
        assert forall|i: int| 0 <= i < n implies A(w, i) == dropped(it_3@, it_3@.len() as int, i) by { assert(ch_of(A, w)(i) == A(w, i)); }
        assert forall|i: int| 0 <= i < n && i != w implies #[trigger] self.next_transitions@[i] == discard(A, f.0, w)[i] by {}
    }
@end
    proof {
        let w = winner(f.0, n);
        assert(self.next_transitions@ =~= discard(A, f.0, w)); assert(self.m() =~= step(ns, A, s0));
    }
