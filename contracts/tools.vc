@raw
/// The run from s reaches time te at its k-th transition.
pub open spec fn ends(te: Fl, ns: Seq<Params>, a: Adj, s: Smp, k: int) -> bool { 0 <= k && !flt(stp(ns, a, s, k).t, te) && forall|j: int| 0 <= j < k ==> flt((#[trigger] stp(ns, a, s, j)).t, te) }
pub open spec fn tlen(te: Fl, ns: Seq<Params>, a: Adj, s: Smp) -> int { choose|k: int| ends(te, ns, a, s, k) }
pub proof fn lm_tlen(te: Fl, ns: Seq<Params>, a: Adj, s: Smp, k: int)
    requires ends(te, ns, a, s, k),
    ensures tlen(te, ns, a, s) == k,
{
    let q = tlen(te, ns, a, s); assert(ends(te, ns, a, s, q));
    if q < k { assert(flt(stp(ns, a, s, q).t, te)); } else if k < q { assert(flt(stp(ns, a, s, k).t, te)); }
}
/// Where trajectory i starts: all trajectories are drawn from one stream, which starts at rs.
pub open spec fn start_i(te: Fl, ns: Seq<Params>, a: Adj, rs: RS, i: int) -> Smp decreases i {
    if i <= 0 { fresh(ns, None, rs) } else { let s = start_i(te, ns, a, rs, i - 1); fresh(ns, None, stp(ns, a, s, tlen(te, ns, a, s) + 1).rs) }
}
/// Row i of the trajectory shows state st.
pub open spec fn shows(tr: Trajectory, i: int, st: Seq<StateType>) -> bool { forall|v: int| 0 <= v < st.len() ==> #[trigger] tr.events.at(i, v) == sv(st, v) }
/// The trajectory records the run from s up to te, with the last state repeated at te.
pub open spec fn records(te: Fl, ns: Seq<Params>, a: Adj, s: Smp, tr: Trajectory) -> bool {
    let k = tlen(te, ns, a, s);
    &&& ends(te, ns, a, s, k) && k >= 1 && tr.time.d0() == k + 1 && tr.events.d0() == k + 1 && tr.events.d1() == ns.len()
    &&& forall|j: int| 0 <= j < k ==> (#[trigger] tr.time.at(j)).g@ == stp(ns, a, s, j).t
    &&& forall|j: int| 0 <= j < k ==> shows(tr, j, (#[trigger] stp(ns, a, s, j)).st)
    &&& tr.time.at(k).g@ == te && shows(tr, k, stp(ns, a, s, k - 1).st)
}
pub open spec fn drawn(te: Fl, ns: Seq<Params>, a: Adj, rs: RS, trs: Seq<Trajectory>, n: int) -> bool {
    trs.len() == n && forall|i: int| 0 <= i < n ==> records(te, ns, a, start_i(te, ns, a, rs, i), #[trigger] trs[i])
}
/// Two rows differ in exactly one column.
pub open spec fn rows_differ_one(tr: Trajectory, i: int, j: int) -> bool {
    exists|v: int| #[trigger] row_diff_at(tr, i, j, v)
}
pub open spec fn row_diff_at(tr: Trajectory, i: int, j: int, v: int) -> bool { 0 <= v < tr.events.d1() && tr.events.at(i, v) != tr.events.at(j, v) && forall|x: int| 0 <= x < tr.events.d1() && x != v ==> #[trigger] tr.events.at(i, x) == tr.events.at(j, x) }
/// A well-formed trajectory up to te.
pub open spec fn traj_wf(te: Fl, ns: Seq<Params>, tr: Trajectory) -> bool {
    let m = tr.time.d0() as int;
    &&& tr_ok(ns, tr) && m >= 2 && tr.time.at(0).g@ == Fl::Fin(0real) && tr.time.at(m - 1).g@ == te
    &&& forall|j: int| 0 <= j < m - 1 ==> fle((#[trigger] tr.time.at(j)).g@, tr.time.at(j + 1).g@)
    &&& forall|v: int| 0 <= v < ns.len() ==> #[trigger] tr.events.at(m - 1, v) == tr.events.at(m - 2, v)
    &&& forall|j: int| 0 <= j < m - 2 ==> rows_differ_one(tr, j, #[trigger] nx_i(j))
}
pub open spec fn nx_i(j: int) -> int { j + 1 }
pub proof fn lm_stq(ns: Seq<Params>, a: Adj, s: Smp, k: int)
    requires ns.len() > 0, smp_ok(ns, s), forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_ok(ns, a, i), 0 <= k,
    ensures smp_ok(ns, stp(ns, a, s, k)), smp_ok(ns, stp(ns, a, s, k + 1)), stp(ns, a, s, k + 1) == step(ns, a, stp(ns, a, s, k)), fle(stp(ns, a, s, k).t, stp(ns, a, s, k + 1).t), changes_one(stp(ns, a, s, k).st, stp(ns, a, s, k + 1).st),
    decreases k,
{
    if k > 0 { lm_stq(ns, a, s, k - 1); }
    lm_step_ok(ns, a, stp(ns, a, s, k));
}
pub proof fn lm_records_wf(te: Fl, ns: Seq<Params>, a: Adj, s: Smp, tr: Trajectory)
    requires records(te, ns, a, s, tr), te is Fin, s.t == Fl::Fin(0real), ns.len() > 0, smp_ok(ns, s), forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_ok(ns, a, i),
    ensures traj_wf(te, ns, tr),
{
    hide(step); hide(node_ok); hide(changes_one);
    let k = tlen(te, ns, a, s); let n = ns.len() as int;
    assert(stp(ns, a, s, 0) == s);
    assert forall|i: int, j: int| 0 <= i < tr.events.d0() && 0 <= j < n implies #[trigger] tr.events.at(i, j) < card(ns, j) by {
        let q = if i == k { k - 1 } else { i }; lm_stq(ns, a, s, q); assert(shows(tr, i, stp(ns, a, s, q).st)); assert(sv(stp(ns, a, s, q).st, j) < card(ns, j));
    }
    assert forall|i: int| 0 <= i < tr.time.d0() implies (#[trigger] tr.time.at(i)).fin() by { if i < k { lm_stq(ns, a, s, i); assert(flt(stp(ns, a, s, i).t, te)); } }
    assert forall|j: int| 0 <= j < k implies fle((#[trigger] tr.time.at(j)).g@, tr.time.at(j + 1).g@) by { lm_stq(ns, a, s, j); assert(flt(stp(ns, a, s, j).t, te)); if j + 1 < k { assert(tr.time.at(j + 1).g@ == stp(ns, a, s, j + 1).t); } }
    assert forall|v: int| 0 <= v < n implies #[trigger] tr.events.at(k, v) == tr.events.at(k - 1, v) by { lm_stq(ns, a, s, k - 1); assert(shows(tr, k - 1, stp(ns, a, s, k - 1).st)); }
    assert forall|j: int| 0 <= j < k - 1 implies rows_differ_one(tr, j, #[trigger] nx_i(j)) by {
        lm_stq(ns, a, s, j);
        let p = stp(ns, a, s, j); let q = stp(ns, a, s, j + 1);
        lm_differ(p.st, q.st);
        let v = choose|v: int| #[trigger] differ_at(p.st, q.st, v);
        assert(shows(tr, j, p.st)); assert(shows(tr, j + 1, q.st));
        assert forall|x: int| 0 <= x < tr.events.d1() && x != v implies #[trigger] tr.events.at(j, x) == tr.events.at(j + 1, x) by { assert(tr.events.at(j + 1, x) == sv(q.st, x)); }
        assert(tr.events.at(j, v) == sv(p.st, v)); assert(tr.events.at(j + 1, v) == sv(q.st, v));
        assert(row_diff_at(tr, j, j + 1, v));
    }
}
pub proof fn lm_differ(a: Seq<StateType>, b: Seq<StateType>)
    requires changes_one(a, b),
    ensures exists|i: int| #[trigger] differ_at(a, b, i) && 0 <= i < a.len() && sv(a, i) != sv(b, i) && forall|x: int| 0 <= x < a.len() && x != i ==> #[trigger] sv(a, x) == sv(b, x),
{}
pub proof fn lm_rowcol(i: int, j: int, w: int)
    requires 0 <= j < w, 0 <= i,
    ensures (i * w + j) / w == i, (i * w + j) % w == j,
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * w + j, w, i, j); }
/// Rows collected so far.
pub open spec fn got(ns: Seq<Params>, a: Adj, s: Smp, time: Seq<F64>, ev: Seq<NetworkProcessState>, j: int) -> bool {
    &&& time.len() == j && ev.len() == j
    &&& forall|x: int| 0 <= x < j ==> (#[trigger] time[x]).g@ == stp(ns, a, s, x).t
    &&& forall|x: int| 0 <= x < j ==> (#[trigger] ev[x])@ == stp(ns, a, s, x).st
}
@fn trajectory_generator(net, n_trajectories, t_end, seed) -> r
@requires smp_req(net), t_end.fin(), t_end.v() > 0real,
@ensures
    r.trajectories@.len() == n_trajectories,
    forall|i: int| 0 <= i < n_trajectories ==> traj_wf(t_end.g@, net.nodes(), #[trigger] r.trajectories@[i]),
    exists|rs: RS| #[trigger] drawn(t_end.g@, net.nodes(), net.adj(), rs, r.trajectories@, n_trajectories as int),
    seed is Some ==> drawn(t_end.g@, net.nodes(), net.adj(), rs_seed(seed->Some_0), r.trajectories@, n_trajectories as int),
@start
    hide(step); hide(node_ok); hide(changes_one);
    let ghost ns = net.nodes(); let ghost A = net.adj(); let ghost te = t_end.g@; let ghost n = ns.len() as int;
@loop 1
@pre
    let ghost rs1 = if seed is Some { rs_seed(seed->Some_0) } else { choose|rs: RS| sampler.m() == #[trigger] fresh(ns, None, rs) };
    proof { assert(sampler.m() == fresh(ns, None, rs1)); }
@inv
    k_1 <= end_1, end_1 == n_trajectories, sampler.net == net, sampler.initial_state is None, sampler.inv(),
    sampler.m() == start_i(te, ns, A, rs1, k_1 as int), drawn(te, ns, A, rs1, trajectories@, k_1 as int),
    forall|i: int| 0 <= i < k_1 ==> traj_wf(te, ns, #[trigger] trajectories@[i]),
@top
    let ghost gi = k_1 - 1; let ghost s0 = start_i(te, ns, A, rs1, gi); let ghost trs0 = trajectories@;
    proof { lm_stq(ns, A, s0, 0); assert(stp(ns, A, s0, 0) == s0); assert(s0.t == Fl::Fin(0real)); }
@bot
    proof {
        let tr = trajectories@[gi]; let k = tlen(te, ns, A, s0); let ev = events@;
        assert(trajectories@ =~= trs0.push(tr));
        assert forall|x: int| 0 <= x < k implies (#[trigger] tr.time.at(x)).g@ == stp(ns, A, s0, x).t by {}
        assert forall|x: int| 0 <= x < k + 1 implies shows(tr, x, (#[trigger] ev[x])@) by { assert forall|v: int| 0 <= v < n implies #[trigger] tr.events.at(x, v) == sv(ev[x]@, v) by { lm_rowcol(x, v, n); } }
        assert forall|x: int| 0 <= x < k implies shows(tr, x, (#[trigger] stp(ns, A, s0, x)).st) by { assert(ev[x]@ == stp(ns, A, s0, x).st); }
        assert(ev[k]@ == stp(ns, A, s0, k - 1).st); assert(shows(tr, k, ev[k]@));
        assert(tr.time.d0() == k + 1); assert(tr.events.d1() == n); assert(tr.time.at(k).g@ == te);
        assert(records(te, ns, A, s0, tr));
        lm_records_wf(te, ns, A, s0, tr);
        assert(drawn(te, ns, A, rs1, trajectories@, gi + 1));
    }
@post
    proof { assert(same_width(trajectories@)) by { assert forall|i: int| 0 <= i < trajectories@.len() implies (#[trigger] trajectories@[i]).events.d1() == trajectories@[0].events.d1() by { assert(traj_wf(te, ns, trajectories@[i])); assert(traj_wf(te, ns, trajectories@[0])); } } }
@loop 2
@pre
    let ghost mut j: int = 0;
@inv
    j >= 0, sampler.net == net, sampler.initial_state is None, sampler.inv(), smp_ok(ns, s0),
    sampler.m() == stp(ns, A, s0, j + 1), sample.t.g@ == stp(ns, A, s0, j).t, sample.state@ == stp(ns, A, s0, j).st,
    got(ns, A, s0, time@, events@, j), forall|x: int| 0 <= x < j ==> flt((#[trigger] stp(ns, A, s0, x)).t, te),
@top
    proof { lm_stq(ns, A, s0, j); lm_stq(ns, A, s0, j + 1); }
@bot
    proof { j = j + 1; }
@post
    proof { assert(ends(te, ns, A, s0, j)); lm_tlen(te, ns, A, s0, j); assert(j >= 1); }
@loop 3
@pre
    proof {
        let k = tlen(te, ns, A, s0);
        assert forall|x: int| 0 <= x < k + 1 implies (#[trigger] events@[x])@.len() == n by { lm_stq(ns, A, s0, if x < k { x } else { k - 1 }); }
        assert(wid(n as nat));
    }
@inv
    it_3@.len() == events@.len() * n, forall|x: int| 0 <= x < k_3 ==> #[trigger] out_3@[x] == sv(events@[x / n]@, x % n),
@raw
pub open spec fn dens_ok(d: F64) -> bool { d.fin() && 0real <= d.v() <= 1real }
/// State of the generator after k draws.
pub open spec fn rs_at(rs: RS, k: int) -> RS decreases k { if k <= 0 { rs } else { rs_next(rs_at(rs, k - 1)) } }
/// Every pair in the table has its own draw among the first k, and is an edge exactly when that draw says so.
pub open spec fn own_draws(adj: Adj, d: F64, rs: RS, w: Map<(int, int), int>, k: int) -> bool {
    &&& forall|p: int, c: int| #[trigger] w.contains_key((p, c)) ==> 0 <= w[(p, c)] < k && adj(p, c) == draw_bool(rs_at(rs, w[(p, c)]), d.v())
    &&& forall|p: int, c: int| #[trigger] adj(p, c) ==> w.contains_key((p, c))
    &&& forall|p: int, c: int, q: int, e: int| #[trigger] w.contains_key((p, c)) && #[trigger] w.contains_key((q, e)) && w[(p, c)] == w[(q, e)] ==> p == q && c == e
}
pub open spec fn pair(n: int, p: int, c: int) -> bool { 0 <= p < n && 0 <= c < n && p != c }
/// The edges are decided by own draws, one for every ordered pair of distinct nodes.
pub open spec fn drawn_graph(adj: Adj, d: F64, n: int, rs: RS) -> bool { exists|w: Map<(int, int), int>, k: int| #[trigger] own_draws(adj, d, rs, w, k) && forall|p: int, c: int| #[trigger] w.contains_key((p, c)) == pair(n, p, c) }
pub open spec fn kept_or_reset(a: Seq<Params>, b: Seq<Params>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] || b[i] == reset_p(a[i]) }
pub axiom fn ax_draw_bool(rs: RS, p: real) ensures p == 0real ==> !draw_bool(rs, p), p == 1real ==> draw_bool(rs, p);
@fn UniformGraphGenerator::new(density, seed) -> r
@ensures
    dens_ok(density), r.density == density, seed is Some ==> r.rng.s() == rs_seed(seed->Some_0),
@panics !dens_ok(density)
@entropy seed is None
@fn UniformGraphGenerator::generate_graph(net)
@requires
    dens_ok(old(self).density), old(net).wf(), old(net).multi(), old(net).nodes().len() <= usize::MAX,
@ensures
    final(self).density == old(self).density, final(net).wf(), final(net).ready(), final(net).multi(), kept_or_reset(old(net).nodes(), final(net).nodes()),
    forall|p: int, c: int| #[trigger] final(net).adj()(p, c) ==> pair(old(net).nodes().len() as int, p, c),
    drawn_graph(final(net).adj(), old(self).density, old(net).nodes().len() as int, old(self).rng.s()),
    old(self).density.v() == 0real ==> forall|p: int, c: int| !#[trigger] final(net).adj()(p, c),
    old(self).density.v() == 1real ==> forall|p: int, c: int| pair(old(net).nodes().len() as int, p, c) ==> #[trigger] final(net).adj()(p, c),
@start
    let ghost ns = net.nodes(); let ghost n = ns.len() as int; let ghost rs0 = self.rng.s(); let ghost d = self.density;
@loop 1
@pre
    let ghost mut w: Map<(int, int), int> = Map::empty(); let ghost mut cnt: int = 0;
@inv
    k_1 <= end_1, end_1 == n, net.wf(), net.ready(), net.multi(), kept_or_reset(ns, net.nodes()), self.density == d, cnt >= 0, self.rng.s() == rs_at(rs0, cnt),
    own_draws(net.adj(), d, rs0, w, cnt), forall|p: int, c: int| #[trigger] w.contains_key((p, c)) == (pair(n, p, c) && p < k_1),
@post
    proof {
        assert(own_draws(net.adj(), d, rs0, w, cnt));
        assert forall|p: int, c: int| #[trigger] net.adj()(p, c) implies pair(n, p, c) by { assert(w.contains_key((p, c))); }
        assert forall|p: int, c: int| pair(n, p, c) implies #[trigger] net.adj()(p, c) == draw_bool(rs_at(rs0, w[(p, c)]), d.v()) by { assert(w.contains_key((p, c))); }
        assert forall|p: int, c: int| pair(n, p, c) implies (#[trigger] net.adj()(p, c) ==> d.v() != 0real) && (d.v() == 1real ==> net.adj()(p, c)) by { ax_draw_bool(rs_at(rs0, w[(p, c)]), d.v()); }
    }
@loop 2
@inv
    k_2 <= end_2, end_2 == n, net.wf(), net.ready(), net.multi(), kept_or_reset(ns, net.nodes()), self.density == d, cnt >= 0, self.rng.s() == rs_at(rs0, cnt),
    own_draws(net.adj(), d, rs0, w, cnt), forall|p: int, c: int| #[trigger] w.contains_key((p, c)) == (pair(n, p, c) && (p < k_1 - 1 || (p == k_1 - 1 && c < k_2))),
@top
    let ghost adj0 = net.adj(); let ghost w0 = w; let ghost cnt0 = cnt; let ghost gp = k_1 - 1; let ghost gc = k_2 - 1; let ghost ns0 = net.nodes();
    proof { assert(!w.contains_key((gp, gc))); assert(!net.adj()(gp, gc)); }
@bot
    proof {
        if gp != gc { w = w.insert((gp, gc), cnt); cnt = cnt + 1; }
        assert forall|p: int, c: int| #[trigger] w.contains_key((p, c)) implies 0 <= w[(p, c)] < cnt && net.adj()(p, c) == draw_bool(rs_at(rs0, w[(p, c)]), d.v()) by { if (p, c) != (gp, gc) { assert(w0.contains_key((p, c))); assert(adj0(p, c) == net.adj()(p, c)); } }
        assert forall|p: int, c: int| #[trigger] net.adj()(p, c) implies w.contains_key((p, c)) by { if (p, c) != (gp, gc) { assert(adj0(p, c)); assert(w0.contains_key((p, c))); } }
        assert forall|i: int| 0 <= i < n implies #[trigger] net.nodes()[i] == ns[i] || net.nodes()[i] == reset_p(ns[i]) by { assert(ns0[i] == ns[i] || ns0[i] == reset_p(ns[i])); }
    }
@raw
/// Row x of block u before scaling: one draw per entry, nothing on the diagonal.
pub open spec fn g_raw(rs: RS, k: nat, u: int, x: int) -> Seq<F64> { Seq::new(k, |y: int| F64 { g: Ghost(if y == x { Fl::Fin(0real) } else { Fl::Fin(unit_half_open(rs_at(rs, flat3(k, k, u, x, y)))) }) }) }
/// Scaled to sum one.
pub open spec fn g_div(rs: RS, k: nat, u: int, x: int) -> Seq<F64> { Seq::new(k, |y: int| F64 { g: Ghost(fdiv(g_raw(rs, k, u, x)[y].g@, fsum(g_raw(rs, k, u, x)))) }) }
/// Scaled to the exit rate drawn for state x.
pub open spec fn g_rate(iv: Range<F64>, rs: RS, k: nat, U: nat, u: int, x: int) -> Fl { Fl::Fin(draw_f(rs_at(rs, (U * k) * k + (u * k + x)), iv.start.g@, iv.end.g@)) }
pub open spec fn g_mul(iv: Range<F64>, rs: RS, k: nat, U: nat, u: int, x: int) -> Seq<F64> { Seq::new(k, |y: int| F64 { g: Ghost(fmul(g_div(rs, k, u, x)[y].g@, g_rate(iv, rs, k, U, u, x))) }) }
pub open spec fn g_at(iv: Range<F64>, rs: RS, k: nat, U: nat, u: int, x: int, y: int) -> Fl { if x == y { fneg(fsum(g_mul(iv, rs, k, U, u, x))) } else { g_mul(iv, rs, k, U, u, x)[y].g@ } }
/// The matrix drawn from rs for a node with k states and U parent configurations.
pub open spec fn gen_cim(iv: Range<F64>, rs: RS, k: nat, U: nat, c: Array3<F64>) -> bool {
    c.d0() == U && c.d1() == k && c.d2() == k && forall|u: int, x: int, y: int| c.inb(u, x, y) ==> (#[trigger] c.at(u, x, y)).g@ == g_at(iv, rs, k, U, u, x, y)
}
/// Generator state when node i's turn comes.
pub open spec fn node_rs(ns: Seq<Params>, a: Adj, rs: RS, i: int) -> RS decreases i { if i <= 0 { rs } else { rs_at(node_rs(ns, a, rs, i - 1), node_draws(ns, a, i - 1)) } }
pub open spec fn node_draws(ns: Seq<Params>, a: Adj, i: int) -> int { ((nconf(ns, a, i) * card(ns, i)) * card(ns, i) + nconf(ns, a, i) * card(ns, i)) as int }
pub open spec fn gen_node(iv: Range<F64>, ns: Seq<Params>, a: Adj, rs: RS, i: int, p: Params) -> bool {
    &&& p.p().label == ns[i].p().label && p.p().domain == ns[i].p().domain && p.p().transitions == ns[i].p().transitions && p.p().residence_time == ns[i].p().residence_time
    &&& p.p().cim is Some && gen_cim(iv, node_rs(ns, a, rs, i), card(ns, i), nconf(ns, a, i), p.p().cim->Some_0)
}
/// A valid row whose exit rate lies in the interval.
pub open spec fn gen_row_ok(iv: Range<F64>, row: Seq<F64>, x: int) -> bool {
    &&& forall|y: int| 0 <= y < row.len() ==> (#[trigger] row[y]).fin() && (y != x ==> row[y].v() >= 0real)
    &&& fsum(row) == Fl::Fin(0real) && iv.start.v() <= -row[x].v() < iv.end.v()
}
pub open spec fn gen_ok(iv: Range<F64>, c: Array3<F64>) -> bool { forall|u: int, x: int| 0 <= u < c.d0() && 0 <= x < c.d1() ==> gen_row_ok(iv, #[trigger] c.row_s(u, x), x) }
/// No draw from the half-open unit interval is exactly zero.
pub open spec fn no_zero_draw(rs: RS) -> bool { forall|k: int| unit_half_open(#[trigger] rs_at(rs, k)) > 0real }
pub axiom fn ax_unit(rs: RS) ensures 0real <= unit_half_open(rs) < 1real;
pub axiom fn ax_draw_f(rs: RS, a: real, b: real) ensures a < b ==> a <= draw_f(rs, Fl::Fin(a), Fl::Fin(b)) < b;
pub proof fn lm_rs_at(rs: RS, a: int, b: int)
    requires a >= 0, b >= 0, ensures rs_at(rs_at(rs, a), b) == rs_at(rs, a + b) decreases b
{ if b > 0 { lm_rs_at(rs, a, b - 1); } }
pub proof fn lm_node_rs(ns: Seq<Params>, a: Adj, rs: RS, i: int)
    requires i >= 0, ensures exists|m: int| m >= 0 && node_rs(ns, a, rs, i) == #[trigger] rs_at(rs, m) decreases i
{
    if i > 0 {
        lm_node_rs(ns, a, rs, i - 1);
        let m = choose|m: int| m >= 0 && node_rs(ns, a, rs, i - 1) == #[trigger] rs_at(rs, m);
        let d = node_draws(ns, a, i - 1);
        assert(d >= 0) by(nonlinear_arith) requires d == (nconf(ns, a, i - 1) * card(ns, i - 1)) * card(ns, i - 1) + nconf(ns, a, i - 1) * card(ns, i - 1);
        lm_rs_at(rs, m, d); assert(node_rs(ns, a, rs, i) == rs_at(rs, m + d));
    } else { assert(node_rs(ns, a, rs, i) == rs_at(rs, 0)); }
}
pub proof fn lm_scale(r: Seq<F64>, w: Seq<F64>, q: real, m: int)
    requires 0 <= m <= r.len() == w.len(), forall|y: int| 0 <= y < r.len() ==> (#[trigger] r[y]).fin() && w[y].g@ == Fl::Fin(r[y].v() * q),
    ensures fsum(r.take(m)) is Fin, fsum(w.take(m)) == Fl::Fin(fsum(r.take(m))->Fin_0 * q) decreases m
{
    if m > 0 {
        lm_scale(r, w, q, m - 1); assert(r.take(m).drop_last() =~= r.take(m - 1)); assert(w.take(m).drop_last() =~= w.take(m - 1)); assert(r.take(m).last() == r[m - 1]); assert(w.take(m).last() == w[m - 1]);
        let s = fsum(r.take(m - 1))->Fin_0; let v = r[m - 1].v(); assert((s + v) * q == s * q + v * q) by(nonlinear_arith);
    } else { assert(0real * q == 0real) by(nonlinear_arith); }
}
/// Non-negative entries, one of them positive.
pub proof fn lm_pos_sum(r: Seq<F64>, z: int, m: int)
    requires 0 <= m <= r.len(), 0 <= z < r.len(), forall|y: int| 0 <= y < r.len() ==> (#[trigger] r[y]).fin() && r[y].v() >= 0real, r[z].v() > 0real,
    ensures fsum(r.take(m)) is Fin, fsum(r.take(m))->Fin_0 >= 0real, z < m ==> fsum(r.take(m))->Fin_0 > 0real decreases m
{ if m > 0 { lm_pos_sum(r, z, m - 1); assert(r.take(m).drop_last() =~= r.take(m - 1)); assert(r.take(m).last() == r[m - 1]); } }
pub proof fn lm_gen_row(iv: Range<F64>, rs: RS, k: nat, U: nat, u: int, x: int, row: Seq<F64>)
    requires k >= 2, 0 <= x < k, row.len() == k, forall|y: int| 0 <= y < k ==> (#[trigger] row[y]).g@ == g_at(iv, rs, k, U, u, x, y), no_zero_draw(rs), iv.start.fin(), iv.end.fin(), 0real <= iv.start.v() < iv.end.v(),
    ensures gen_row_ok(iv, row, x),
{
    let r = g_raw(rs, k, u, x); let d = g_div(rs, k, u, x); let w = g_mul(iv, rs, k, U, u, x); let q = draw_f(rs_at(rs, (U * k) * k + (u * k + x)), iv.start.g@, iv.end.g@);
    ax_draw_f(rs_at(rs, (U * k) * k + (u * k + x)), iv.start.v(), iv.end.v());
    let z = if x == 0 { 1int } else { 0int };
    assert forall|y: int| 0 <= y < k implies (#[trigger] r[y]).fin() && r[y].v() >= 0real by { ax_unit(rs_at(rs, flat3(k, k, u, x, y))); }
    assert(unit_half_open(rs_at(rs, flat3(k, k, u, x, z))) > 0real);
    lm_pos_sum(r, z, k as int); assert(r.take(k as int) =~= r);
    let s = fsum(r)->Fin_0; let t = q / s;
    assert forall|y: int| 0 <= y < k implies (#[trigger] w[y]).g@ == Fl::Fin(r[y].v() * t) by {
        assert(d[y].g@ == Fl::Fin(r[y].v() / s)); let v = r[y].v(); assert((v / s) * q == v * (q / s)) by(nonlinear_arith) requires s > 0real; assert(w[y].g@ == fmul(d[y].g@, Fl::Fin(q)));
    }
    lm_scale(r, w, t, k as int); assert(w.take(k as int) =~= w);
    assert(s * (q / s) == q) by(nonlinear_arith) requires s > 0real;
    assert(t >= 0real) by(nonlinear_arith) requires t == q / s, s > 0real, q >= 0real;
    assert forall|y: int| 0 <= y < k implies (#[trigger] row[y]).fin() && (y != x ==> row[y].v() >= 0real && row[y] == w[y]) by {
        assert(w[y].g@ == Fl::Fin(r[y].v() * t)); let v = r[y].v(); assert(v * t >= 0real) by(nonlinear_arith) requires v >= 0real, t >= 0real;
    }
    assert(w[x].v() == 0real) by { assert(r[x].v() == 0real); assert(0real * t == 0real) by(nonlinear_arith); }
    assert(row[x].v() == -q);
    lm_sum_swap(row, w, x, k as int); assert(row.take(k as int) =~= row);
}
pub proof fn lm_gen_ok(iv: Range<F64>, ns: Seq<Params>, a: Adj, rs: RS, i: int, p: Params)
    requires gen_req(iv, ns, a), no_zero_draw(rs), 0 <= i < ns.len(), card(ns, i) >= 2, gen_node(iv, ns, a, rs, i, p), ensures gen_ok(iv, p.p().cim->Some_0)
{
    let c = p.p().cim->Some_0; let rsi = node_rs(ns, a, rs, i); lm_node_rs(ns, a, rs, i);
    let m = choose|m: int| m >= 0 && rsi == #[trigger] rs_at(rs, m);
    assert forall|q: int| unit_half_open(#[trigger] rs_at(rsi, q)) > 0real by { if q >= 0 { lm_rs_at(rs, m, q); } }
    assert forall|u: int, x: int| 0 <= u < c.d0() && 0 <= x < c.d1() implies gen_row_ok(iv, #[trigger] c.row_s(u, x), x) by { lm_gen_row(iv, rsi, card(ns, i), nconf(ns, a, i), u, x, c.row_s(u, x)); }
}
pub proof fn lm_gen_card(iv: Range<F64>, ns: Seq<Params>, a: Adj, rs: RS, i: int, p: Params) requires gen_node(iv, ns, a, rs, i, p) ensures p.p().domain == ns[i].p().domain {}
pub open spec fn gen_req(iv: Range<F64>, ns: Seq<Params>, a: Adj) -> bool {
    &&& iv.start.fin() && iv.end.fin() && 0real <= iv.start.v() < iv.end.v() && dom_ok(ns)
    &&& forall|i: int| 0 <= i < ns.len() ==> #[trigger] card(ns, i) <= usize::MAX && (nconf(ns, a, i) * card(ns, i)) * card(ns, i) <= usize::MAX && nconf(ns, a, i) <= usize::MAX
}
@fn UniformParametersGenerator::new(interval, seed) -> r
@ensures
    fle(Fl::Fin(0real), interval.start.g@), fle(Fl::Fin(0real), interval.end.g@), r.interval == interval, seed is Some ==> r.rng.s() == rs_seed(seed->Some_0),
@panics !(fle(Fl::Fin(0real), interval.start.g@) && fle(Fl::Fin(0real), interval.end.g@))
@entropy seed is None
@fn UniformParametersGenerator::generate_parameters(net)
@requires
    old(net).wf(), old(net).ready(), gen_req(old(self).interval, old(net).nodes(), old(net).adj()),
@ensures
    final(self).interval == old(self).interval, final(net).wf(), final(net).ready(), final(net).multi() == old(net).multi(), final(net).nodes().len() == old(net).nodes().len(),
    forall|p: int, c: int| #[trigger] final(net).adj()(p, c) == old(net).adj()(p, c),
    forall|i: int| 0 <= i < old(net).nodes().len() ==> gen_node(old(self).interval, old(net).nodes(), old(net).adj(), old(self).rng.s(), i, #[trigger] final(net).nodes()[i]),
    no_zero_draw(old(self).rng.s()) ==> forall|i: int| 0 <= i < old(net).nodes().len() && card(old(net).nodes(), i) >= 2 ==> gen_ok(old(self).interval, (#[trigger] final(net).nodes()[i]).p().cim->Some_0),
@start
    hide(gen_node); hide(gen_ok); hide(set_order); hide(dom_ok); hide(gen_blocks); hide(gen_cim); hide(g_rates);
    let ghost ns = net.nodes(); let ghost A = net.adj(); let ghost n = ns.len() as int; let ghost rs0 = self.rng.s(); let ghost iv = self.interval; let ghost z = zero_st(ns);
@loop 1
@inv
    it_1@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] it_1@[i] == i,
    self.interval == iv, net.wf(), net.ready(), net.multi() == old(net).multi(), net.nodes().len() == n, forall|p: int, c: int| #[trigger] net.adj()(p, c) == A(p, c),
    self.rng.s() == node_rs(ns, A, rs0, k_1 as int), forall|i: int| 0 <= i < k_1 ==> gen_node(iv, ns, A, rs0, i, #[trigger] net.nodes()[i]), forall|i: int| k_1 <= i < n ==> #[trigger] net.nodes()[i] == ns[i],
@top
    let ghost gn = k_1 - 1; let ghost kk = card(ns, gn); let ghost U = nconf(ns, A, gn); let ghost rsn = node_rs(ns, A, rs0, gn); let ghost N = (U * kk) * kk; let ghost ns0 = net.nodes();
    proof { assert(card(ns, gn) <= usize::MAX); }
@bot
    proof { let p = net.nodes()[gn]; assert(p.p().cim is Some); assert(gen_node(iv, ns, A, rs0, gn, p)); }
@post
    proof {
        assert forall|i: int| no_zero_draw(rs0) && 0 <= i < n && card(ns, i) >= 2 implies gen_ok(iv, (#[trigger] net.nodes()[i]).p().cim->Some_0) by { lm_gen_ok(iv, ns, A, rs0, i, net.nodes()[i]); }
    }
@loop 2
@pre
    let ghost l = derefs(it_2@); let ghost ps = choose|ps: Set<usize>| #[trigger] set_order(ps, l) && is_set(ps, par_of(net.adj(), gn), n); let ghost P = in_set(ps);
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] P(i) == par_of(A, gn)(i) by { assert(ps.contains(i as usize) == par_of(net.adj(), gn)(i)); assert(net.adj()(i, gn) == A(i, gn)); }
        lm_pidx_cong(ns, P, par_of(A, gn), z, z, n);
        assert forall|i: int| 0 <= i < n implies #[trigger] sv(z, i) < card(ns, i) by { assert(sv(z, i) == 0); reveal(dom_ok); assert(card(ns, i) > 0); } assert(P_ok(ns, P, z, n));
        lm_set_gap(ps, l, 0); lm_upto(ps, l, n, 0); lm_skip(ns, P, z, 0, upto(l, 0));
    }
@inv
    acc_2 == stride(ns, P, upto(l, k_2 as int)),
@top
    proof { lm_member(ns, ps, l, z, k_2 - 1); assert(l[k_2 - 1] == *e_2); assert(card(ns0, *e_2 as int) == card(ns, *e_2 as int)) by { if *e_2 < gn { lm_gen_card(iv, ns, A, rs0, *e_2 as int, ns0[*e_2 as int]); } } }
@post
    proof { lm_all(ns, ps, l, z); }
@loop 3
@inv
    end_3 == N, self.interval == iv, self.rng.s() == rs_at(rsn, k_3 as int), g_units(rsn, out_3@),
@loop 4
@pre
    proof { assert(gen_blocks(iv, rsn, kk, U, cim, 0)) by { reveal(gen_blocks); } }
@inv
    self.interval == iv, end_4 == U, cim.d0() == U, cim.d1() == kk, cim.d2() == kk, self.rng.s() == rs_at(rsn, N + k_4 * kk),
    gen_blocks(iv, rsn, kk, U, cim, k_4 as int),
@top
    let ghost gu = k_4 - 1; let ghost c0 = cim; let ghost mut gw: Array2<F64> = arbitrary();
    proof {
        assert((k_4 - 1) * kk + kk == k_4 * kk) by(nonlinear_arith);
    }
@post
    proof {
        assert(gen_cim(iv, rsn, kk, U, cim)) by { reveal(gen_blocks); reveal(gen_cim); }
        assert forall|p: Params| (#[trigger] p.p()).label == ns[gn].p().label && p.p().domain == ns[gn].p().domain && p.p().transitions == ns[gn].p().transitions && p.p().residence_time == ns[gn].p().residence_time && p.p().cim == Some(cim)
            implies gen_node(iv, ns, A, rs0, gn, p) by { reveal(gen_node); }
    }
@bot
    proof {
        lm_block(iv, rsn, kk, U, gu, c0, gw, cim);
        assert(gen_blocks(iv, rsn, kk, U, cim, k_4 as int));
    }
@call fill
    let ghost x1 = *x;
    proof { assert(rows_raw(rsn, kk, gu, x1)) by { reveal(gen_blocks); } }
@call div_assign
    let ghost x2 = *x;
    proof { lm_rows_div(rsn, kk, gu, x1, x2); }
@call mul_assign
    let ghost x3 = *x;
    proof { lm_rows_mul(iv, rsn, kk, U, gu, x2, x3); gw = x3; }
@loop 5
@pre
    proof { assert(g_rates(iv, rsn, kk, U, gu, Seq::<F64>::empty())) by { reveal(g_rates); } }
@inv
    end_5 == kk, self.interval == iv, self.rng.s() == rs_at(rsn, N + ((k_4 - 1) * kk + k_5)), g_rates(iv, rsn, kk, U, k_4 - 1, out_5@),
@bot
    proof { assert(g_rates(iv, rsn, kk, U, k_4 - 1, out_5@)) by { reveal(g_rates); } }
@post
    proof { reveal(g_rates); }
@raw
pub open spec fn gen_blocks(iv: Range<F64>, rs: RS, k: nat, U: nat, c: Array3<F64>, m: int) -> bool {
    &&& forall|u: int, x: int, y: int| c.inb(u, x, y) && u < m ==> (#[trigger] c.at(u, x, y)).g@ == g_at(iv, rs, k, U, u, x, y)
    &&& forall|u: int, x: int, y: int| c.inb(u, x, y) && u >= m ==> (#[trigger] c.at(u, x, y)).g@ == Fl::Fin(unit_half_open(rs_at(rs, flat3(k, k, u, x, y))))
}
pub open spec fn g_units(rs: RS, o: Seq<F64>) -> bool { forall|q: int| 0 <= q < o.len() ==> (#[trigger] o[q]).g@ == Fl::Fin(unit_half_open(rs_at(rs, q))) }
pub open spec fn g_rates(iv: Range<F64>, rs: RS, k: nat, U: nat, u: int, o: Seq<F64>) -> bool { forall|q: int| 0 <= q < o.len() ==> (#[trigger] o[q]).g@ == g_rate(iv, rs, k, U, u, q) }
pub open spec fn rows_raw(rs: RS, k: nat, u: int, a: Array2<F64>) -> bool { a.d0() == k && a.d1() == k && forall|x: int, y: int| 0 <= x < k && 0 <= y < k ==> (#[trigger] a.at(x, y)).g@ == (if x == y { Fl::Fin(0real) } else { Fl::Fin(unit_half_open(rs_at(rs, flat3(k, k, u, x, y)))) }) }
#[verifier::opaque]
pub open spec fn rows_div(rs: RS, k: nat, u: int, a: Array2<F64>) -> bool { a.d0() == k && a.d1() == k && forall|x: int| 0 <= x < k ==> #[trigger] a.row_s(x) == g_div(rs, k, u, x) }
#[verifier::opaque]
pub open spec fn rows_mul(iv: Range<F64>, rs: RS, k: nat, U: nat, u: int, a: Array2<F64>) -> bool { a.d0() == k && a.d1() == k && forall|x: int| 0 <= x < k ==> #[trigger] a.row_s(x) == g_mul(iv, rs, k, U, u, x) }
pub proof fn lm_rows_div(rs: RS, k: nat, u: int, a: Array2<F64>, b: Array2<F64>)
    requires rows_raw(rs, k, u, a), b.same_dim(&a), forall|i: int, j: int| 0 <= i < k && 0 <= j < k ==> (#[trigger] b.at(i, j)).g@ == fdiv(a.at(i, j).g@, fsum(a.row_s(i))),
    ensures rows_div(rs, k, u, b),
{
    reveal(rows_div);
    assert forall|x: int| 0 <= x < k implies #[trigger] b.row_s(x) == g_div(rs, k, u, x) by { assert(a.row_s(x) =~= g_raw(rs, k, u, x)); assert(b.row_s(x) =~= g_div(rs, k, u, x)); }
}
pub proof fn lm_rows_mul(iv: Range<F64>, rs: RS, k: nat, U: nat, u: int, a: Array2<F64>, b: Array2<F64>)
    requires rows_div(rs, k, u, a), b.same_dim(&a), forall|i: int, j: int| 0 <= i < k && 0 <= j < k ==> (#[trigger] b.at(i, j)).g@ == fmul(a.at(i, j).g@, g_rate(iv, rs, k, U, u, i)),
    ensures rows_mul(iv, rs, k, U, u, b),
{
    reveal(rows_div); reveal(rows_mul);
    assert forall|x: int| 0 <= x < k implies #[trigger] b.row_s(x) == g_mul(iv, rs, k, U, u, x) by { assert forall|y: int| 0 <= y < k implies a.at(x, y) == g_div(rs, k, u, x)[y] by { assert(a.row_s(x)[y] == a.at(x, y)); } assert(b.row_s(x) =~= g_mul(iv, rs, k, U, u, x)); }
}
pub proof fn lm_block(iv: Range<F64>, rs: RS, k: nat, U: nat, u: int, c0: Array3<F64>, w: Array2<F64>, c: Array3<F64>)
    requires gen_blocks(iv, rs, k, U, c0, u), rows_mul(iv, rs, k, U, u, w), c0.d0() == U, c0.d1() == k, c0.d2() == k, c.same_dim(&c0), 0 <= u < U,
        forall|i: int, x: int, y: int| c0.inb(i, x, y) ==> (#[trigger] c.at(i, x, y)).g@ == (if i != u { c0.at(i, x, y).g@ } else if x == y { fneg(fsum(w.row_s(x))) } else { w.at(x, y).g@ }),
    ensures gen_blocks(iv, rs, k, U, c, u + 1),
{
    reveal(rows_mul);
    assert forall|x: int, y: int| 0 <= x < k && 0 <= y < k implies (#[trigger] c.at(u, x, y)).g@ == g_at(iv, rs, k, U, u, x, y) by { assert(w.row_s(x)[y] == w.at(x, y)); }
}
