@raw
pub open spec fn all_v() -> spec_fn(int) -> bool { |i: int| true }
/// What is left of the number s once its j least significant digits are taken away.
pub open spec fn quo(cs: Seq<nat>, s: nat, j: int) -> nat decreases j { if j <= 0 { s } else { (quo(cs, s, j - 1) as int / cs[j - 1] as int) as nat } }
/// Digit j of s in the mixed radix cs, least significant first.
pub open spec fn dig(cs: Seq<nat>, s: nat, j: int) -> nat { (quo(cs, s, j) as int % cs[j] as int) as nat }
pub open spec fn cseq(v: Array1<usize>) -> Seq<nat> { Seq::new(v.d0(), |i: int| v.at(i) as nat) }
pub open spec fn cards(ns: Seq<Params>) -> Seq<nat> { Seq::new(ns.len(), |i: int| card(ns, i)) }
/// Number of states of the whole network.
pub open spec fn nst(ns: Seq<Params>) -> nat { stride(ns, all_v(), ns.len() as int) }
/// Joint state number s.
pub open spec fn jst(ns: Seq<Params>, s: int) -> Seq<StateType> { Seq::new(ns.len(), |j: int| StateType::Discrete(dig(cards(ns), s as nat, j) as usize)) }
/// Number of a joint state.
pub open spec fn jix(ns: Seq<Params>, st: Seq<StateType>) -> nat { pidx(ns, all_v(), st, ns.len() as int) }
pub open spec fn jok(ns: Seq<Params>) -> bool { dom_ok(ns) && nst(ns) <= usize::MAX }
pub proof fn lm_card(ns: Seq<Params>, i: int)
    requires jok(ns), 0 <= i < ns.len(),
    ensures 0 < card(ns, i) <= usize::MAX,
{
    let z = Seq::new(ns.len(), |j: int| StateType::Discrete(0usize)); let n = ns.len() as int;
    assert forall|j: int| 0 <= j < n && #[trigger] all_v()(j) implies sv(z, j) < card(ns, j) by { assert(card(ns, j) > 0); }
    lm_stride_mono(ns, all_v(), z, i + 1, n); lm_stride_mono(ns, all_v(), z, i, n);
    let t = stride(ns, all_v(), i); let k = card(ns, i);
    assert(k > 0);
    assert(k <= t * k) by(nonlinear_arith) requires t > 0;
}
pub proof fn lm_dig(ns: Seq<Params>, s: int, j: int)
    requires jok(ns), 0 <= j < ns.len(),
    ensures sv(jst(ns, s), j) == dig(cards(ns), s as nat, j), dig(cards(ns), s as nat, j) < card(ns, j),
{
    lm_card(ns, j); let k = card(ns, j) as int; let x = quo(cards(ns), s as nat, j) as int;
    assert(0 <= x % k < k) by(nonlinear_arith) requires k > 0;
}
pub proof fn lm_decode(ns: Seq<Params>, s: int, j: int)
    requires jok(ns), 0 <= j <= ns.len(), 0 <= s,
    ensures pidx(ns, all_v(), jst(ns, s), j) + quo(cards(ns), s as nat, j) * stride(ns, all_v(), j) == s,
    decreases j,
{
    if j > 0 {
        lm_decode(ns, s, j - 1); lm_dig(ns, s, j - 1); lm_card(ns, j - 1);
        let k = card(ns, j - 1) as int; let x = quo(cards(ns), s as nat, j - 1) as int; let t = stride(ns, all_v(), j - 1) as int; let q = x / k; let d = x % k;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, k);
        assert(q >= 0) by(nonlinear_arith) requires q == x / k, x >= 0, k > 0;
        assert(x * t == d * t + q * (t * k)) by(nonlinear_arith) requires x == k * q + d;
    } else { assert(s * 1 == s); }
}
/// Decoding a number below the number of states gives a state of the network with that number.
pub proof fn lm_joint(ns: Seq<Params>, s: int)
    requires jok(ns), 0 <= s < nst(ns),
    ensures st_ok(ns, jst(ns, s)), jix(ns, jst(ns, s)) == s,
{
    let n = ns.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] sv(jst(ns, s), i) < card(ns, i) by { lm_dig(ns, s, i); }
    lm_decode(ns, s, n);
    let q = quo(cards(ns), s as nat, n); let t = nst(ns); let p = jix(ns, jst(ns, s));
    assert(q == 0) by(nonlinear_arith) requires p + q * t == s, s < t, q >= 0, p >= 0;
    assert(q * t == 0) by(nonlinear_arith) requires q == 0;
}
/// Numbering a state and decoding the number gives the state back.
pub proof fn lm_joint_inv(ns: Seq<Params>, st: Seq<StateType>)
    requires jok(ns), st_ok(ns, st),
    ensures jix(ns, st) < nst(ns), jst(ns, jix(ns, st) as int) =~= st,
{
    let n = ns.len() as int; let s = jix(ns, st) as int;
    assert(P_ok(ns, all_v(), st, n)); lm_pidx_bound(ns, all_v(), st, n);
    lm_joint(ns, s); assert(P_ok(ns, all_v(), jst(ns, s), n));
    lm_pidx_inj(ns, all_v(), st, jst(ns, s), n);
    assert forall|i: int| 0 <= i < n implies jst(ns, s)[i] == st[i] by { assert(all_v()(i)); assert(sv(st, i) == sv(jst(ns, s), i)); }
}
pub proof fn lm_nprod(ns: Seq<Params>, v: Seq<usize>, j: int)
    requires 0 <= j <= ns.len(), v.len() == ns.len(), forall|i: int| 0 <= i < ns.len() ==> #[trigger] v[i] == card(ns, i),
    ensures nprod(v.take(j)) == stride(ns, all_v(), j),
    decreases j,
{
    if j > 0 { lm_nprod(ns, v, j - 1); assert(v.take(j).drop_last() =~= v.take(j - 1)); assert(v.take(j).last() == v[j - 1]); assert(v[j - 1] == card(ns, j - 1)); }
}
@fn CtbnNetwork::idx_to_state(variables_domain, state) -> r
@requires forall|i: int| 0 <= i < variables_domain.d0() ==> #[trigger] variables_domain.at(i) > 0,
@ensures
    r.d0() == variables_domain.d0(),
    forall|i: int| 0 <= i < r.d0() ==> #[trigger] r.at(i) == dig(cseq(*variables_domain), state as nat, i),
@start
    let ghost s0 = state; let ghost cs = cseq(*variables_domain);
@loop 1
@inv
    it_1@.len() == cs.len(), array_state.d0() == cs.len(), state == quo(cs, s0 as nat, k_1 as int),
    forall|i: int| 0 <= i < k_1 ==> #[trigger] array_state.at(i) == dig(cs, s0 as nat, i),
@top
    proof {
        let x = quo(cs, s0 as nat, k_1 - 1) as int; let k = cs[k_1 - 1] as int;
        assert(variables_domain.at(k_1 - 1) > 0); assert(*e_1.1 == k);
        assert(0 <= x % k < k && 0 <= x / k <= x) by(nonlinear_arith) requires k > 0, x >= 0;
        assert(x == (x / k) * k + x % k) by(nonlinear_arith) requires k > 0, x >= 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x - x % k, k, x / k, 0);
    }
@raw
/// s and t agree on every variable but i.
pub open spec fn only(s: Seq<StateType>, t: Seq<StateType>, i: int) -> bool { s.len() == t.len() && forall|j: int| 0 <= j < s.len() && j != i ==> #[trigger] sv(s, j) == sv(t, j) }
/// Node i's rate from its value in s to its value in t, under its parents' values in s.
pub open spec fn own_rate(ns: Seq<Params>, a: Adj, s: Seq<StateType>, t: Seq<StateType>, i: int) -> real { cim_s(ns, i).at(conf(ns, a, s, i), sv(s, i) as int, sv(t, i) as int).v() }
pub open spec fn diag_sum(ns: Seq<Params>, a: Adj, s: Seq<StateType>, n: int) -> real decreases n { if n <= 0 { 0real } else { diag_sum(ns, a, s, n - 1) + own_rate(ns, a, s, s, n - 1) } }
/// The rate of the joint process from s to t.
pub open spec fn joint_rate(ns: Seq<Params>, a: Adj, s: Seq<StateType>, t: Seq<StateType>) -> real {
    if s == t { diag_sum(ns, a, s, ns.len() as int) }
    else if exists|w: int| 0 <= w < ns.len() && #[trigger] only(s, t, w) { own_rate(ns, a, s, t, choose|w: int| 0 <= w < ns.len() && #[trigger] only(s, t, w)) }
    else { 0real }
}
pub open spec fn gsum(ns: Seq<Params>, a: Adj, s: Seq<StateType>, t: Seq<StateType>, n: int) -> real decreases n {
    if n <= 0 { 0real } else { gsum(ns, a, s, t, n - 1) + if only(s, t, n - 1) { own_rate(ns, a, s, t, n - 1) } else { 0real } }
}
pub proof fn lm_gsum_none(ns: Seq<Params>, a: Adj, s: Seq<StateType>, t: Seq<StateType>, lo: int, n: int)
    requires 0 <= lo <= n, forall|i: int| lo <= i < n ==> !#[trigger] only(s, t, i),
    ensures gsum(ns, a, s, t, n) == gsum(ns, a, s, t, lo),
    decreases n,
{ if n > lo { lm_gsum_none(ns, a, s, t, lo, n - 1); } }
pub proof fn lm_gsum_eq(ns: Seq<Params>, a: Adj, s: Seq<StateType>, n: int)
    ensures gsum(ns, a, s, s, n) == diag_sum(ns, a, s, n),
    decreases n,
{ if n > 0 { lm_gsum_eq(ns, a, s, n - 1); assert(only(s, s, n - 1)); } }
pub proof fn lm_gsum(ns: Seq<Params>, a: Adj, s: Seq<StateType>, t: Seq<StateType>)
    requires st_ok(ns, s), st_ok(ns, t),
    ensures gsum(ns, a, s, t, ns.len() as int) == joint_rate(ns, a, s, t),
{
    let n = ns.len() as int;
    if s == t { lm_gsum_eq(ns, a, s, n); }
    else if exists|w: int| 0 <= w < n && #[trigger] only(s, t, w) {
        let w = choose|w: int| 0 <= w < n && #[trigger] only(s, t, w);
        assert forall|i: int| 0 <= i < n && i != w implies !#[trigger] only(s, t, i) by {
            if only(s, t, i) { assert forall|j: int| 0 <= j < n implies s[j] == t[j] by { assert(sv(s, j) == sv(t, j)); } assert(s =~= t); }
        }
        lm_gsum_none(ns, a, s, t, 0, w); lm_gsum_none(ns, a, s, t, w + 1, n);
    } else { lm_gsum_none(ns, a, s, t, 0, n); }
}
#[verifier::opaque]
pub open spec fn nodes_ok(ns: Seq<Params>, a: Adj) -> bool { forall|i: int| 0 <= i < ns.len() ==> cim_opt_ok(card(ns, i), (#[trigger] ns[i]).p().cim) && cim_s(ns, i).d0() == nconf(ns, a, i) && nconf(ns, a, i) <= usize::MAX }
/// Row s of the matrix holds the contributions of the first k nodes, and of node k the ones to its first v values.
#[verifier::opaque]
pub open spec fn row_done(ns: Seq<Params>, a: Adj, c: Array3<F64>, s: int, k: int, v: int) -> bool {
    forall|t: int| 0 <= t < nst(ns) ==> (#[trigger] c.at(0, s, t)).g@ == Fl::Fin(gsum(ns, a, jst(ns, s), jst(ns, t), k) + if only(jst(ns, s), jst(ns, t), k) && sv(jst(ns, t), k) < v { own_rate(ns, a, jst(ns, s), jst(ns, t), k) } else { 0real })
}
#[verifier::opaque]
pub open spec fn rows_done(ns: Seq<Params>, a: Adj, c: Array3<F64>, k: int) -> bool { forall|s: int| 0 <= s < k ==> #[trigger] row_done(ns, a, c, s, ns.len() as int, 0) }
#[verifier::opaque]
pub open spec fn rows_zero(ns: Seq<Params>, c: Array3<F64>, k: int) -> bool { forall|s: int, t: int| k <= s < nst(ns) && 0 <= t < nst(ns) ==> (#[trigger] c.at(0, s, t)).g@ == Fl::Fin(0real) }
pub open spec fn dims_am(ns: Seq<Params>, c: Array3<F64>) -> bool { c.d0() == 1 && c.d1() == nst(ns) && c.d2() == nst(ns) }
/// One update of the matrix.
#[verifier::opaque]
pub open spec fn put1(ns: Seq<Params>, c: Array3<F64>, d: Array3<F64>, s: int, x: int, r: real) -> bool {
    &&& dims_am(ns, c) && dims_am(ns, d) && 0 <= s < nst(ns) && 0 <= x < nst(ns)
    &&& forall|u: int, i: int, j: int| #![trigger d.at(u, i, j)] d.inb(u, i, j) ==> d.at(u, i, j).g@ == (if i == s && j == x { fadd(c.at(u, i, j).g@, Fl::Fin(r)) } else { c.at(u, i, j).g@ })
}
pub proof fn lm_am_zero(ns: Seq<Params>, a: Adj, c: Array3<F64>, s: int)
    requires jok(ns), rows_zero(ns, c, s), 0 <= s < nst(ns),
    ensures row_done(ns, a, c, s, 0, 0),
{ reveal(rows_zero); reveal(row_done); }
pub proof fn lm_am_node(ns: Seq<Params>, a: Adj, c: Array3<F64>, s: int, k: int)
    requires jok(ns), 0 <= s < nst(ns), 0 <= k < ns.len(), row_done(ns, a, c, s, k, card(ns, k) as int),
    ensures row_done(ns, a, c, s, k + 1, 0),
{
    reveal(row_done);
    assert forall|t: int| 0 <= t < nst(ns) implies (#[trigger] c.at(0, s, t)).g@ == Fl::Fin(gsum(ns, a, jst(ns, s), jst(ns, t), k + 1)) by { lm_joint(ns, t); assert(sv(jst(ns, t), k) < card(ns, k)); }
}
pub proof fn lm_am_put(ns: Seq<Params>, a: Adj, c: Array3<F64>, d: Array3<F64>, s: int, k: int, v: int, x: int, r: real)
    requires jok(ns), put1(ns, c, d, s, x, r), 0 <= k < ns.len(), 0 <= v < card(ns, k), row_done(ns, a, c, s, k, v),
        x == jix(ns, jst(ns, s).update(k, StateType::Discrete(v as usize))), r == own_rate(ns, a, jst(ns, s), jst(ns, s).update(k, StateType::Discrete(v as usize)), k),
    ensures row_done(ns, a, d, s, k, v + 1),
{
    reveal(row_done); reveal(put1);
    lm_card(ns, k); lm_joint(ns, s);
    let st = jst(ns, s); let nx = st.update(k, StateType::Discrete(v as usize));
    assert forall|i: int| 0 <= i < ns.len() implies #[trigger] sv(nx, i) < card(ns, i) by { assert(sv(st, i) < card(ns, i)); if i != k { assert(nx[i] == st[i]); } }
    lm_joint_inv(ns, nx);
    assert forall|t: int| 0 <= t < nst(ns) implies (#[trigger] d.at(0, s, t)).g@ == Fl::Fin(gsum(ns, a, st, jst(ns, t), k) + if only(st, jst(ns, t), k) && sv(jst(ns, t), k) < v + 1 { own_rate(ns, a, st, jst(ns, t), k) } else { 0real }) by {
        assert(d.inb(0, s, t));
        let q = jst(ns, t); lm_joint(ns, t);
        if t == x {
            assert(q == nx);
            assert forall|j: int| 0 <= j < st.len() && j != k implies #[trigger] sv(st, j) == sv(q, j) by { assert(nx[j] == st[j]); }
            assert(sv(q, k) == v);
        } else if only(st, q, k) && sv(q, k) == v {
            assert forall|j: int| 0 <= j < st.len() implies q[j] == nx[j] by { if j != k { assert(sv(st, j) == sv(q, j)); } }
            assert(q =~= nx); assert(false);
        }
        assert(c.at(0, s, t).g@ is Fin);
    }
}
pub proof fn lm_am_rest(ns: Seq<Params>, a: Adj, c: Array3<F64>, d: Array3<F64>, s: int, x: int, r: real)
    requires put1(ns, c, d, s, x, r), rows_done(ns, a, c, s), rows_zero(ns, c, s + 1),
    ensures rows_done(ns, a, d, s), rows_zero(ns, d, s + 1),
{
    reveal(rows_done); reveal(rows_zero); reveal(put1);
    assert forall|p: int| 0 <= p < s implies #[trigger] row_done(ns, a, d, p, ns.len() as int, 0) by {
        assert(row_done(ns, a, c, p, ns.len() as int, 0)); reveal(row_done);
        assert forall|t: int| 0 <= t < nst(ns) implies (#[trigger] d.at(0, p, t)).g@ == c.at(0, p, t).g@ by { assert(d.inb(0, p, t)); }
    }
    assert forall|p: int, t: int| s + 1 <= p < nst(ns) && 0 <= t < nst(ns) implies (#[trigger] d.at(0, p, t)).g@ == Fl::Fin(0real) by { assert(d.inb(0, p, t)); assert(c.at(0, p, t).g@ == Fl::Fin(0real)); }
}
pub proof fn lm_am_row(ns: Seq<Params>, a: Adj, c: Array3<F64>, s: int)
    requires rows_done(ns, a, c, s), rows_zero(ns, c, s + 1), row_done(ns, a, c, s, ns.len() as int, 0),
    ensures rows_done(ns, a, c, s + 1),
{ reveal(rows_done); }
pub open spec fn joint_gen(ns: Seq<Params>, a: Adj, c: Array3<F64>) -> bool {
    dims_am(ns, c) && forall|s: int, t: int| 0 <= s < nst(ns) && 0 <= t < nst(ns) ==> (#[trigger] c.at(0, s, t)).g@ == Fl::Fin(joint_rate(ns, a, jst(ns, s), jst(ns, t)))
}
pub proof fn lm_am_end(ns: Seq<Params>, a: Adj, c: Array3<F64>)
    requires jok(ns), dims_am(ns, c), rows_done(ns, a, c, nst(ns) as int),
    ensures joint_gen(ns, a, c),
{
    reveal(rows_done); reveal(row_done);
    assert forall|s: int, t: int| 0 <= s < nst(ns) && 0 <= t < nst(ns) implies (#[trigger] c.at(0, s, t)).g@ == Fl::Fin(joint_rate(ns, a, jst(ns, s), jst(ns, t))) by {
        assert(row_done(ns, a, c, s, ns.len() as int, 0)); lm_joint(ns, s); lm_joint(ns, t); lm_gsum(ns, a, jst(ns, s), jst(ns, t)); lm_joint(ns, t);
    }
}
pub proof fn lm_am_cell(ns: Seq<Params>, a: Adj, st: Seq<StateType>, i: int)
    requires 0 <= i < ns.len(), nodes_ok(ns, a), st_ok(ns, st),
    ensures nconf(ns, a, i) <= usize::MAX, conf(ns, a, st, i) < cim_s(ns, i).d0(), cim_s(ns, i).d1() == card(ns, i), cim_s(ns, i).d2() == card(ns, i), cim_s(ns, i) == ns[i].p().cim->Some_0, ns[i].p().cim is Some,
        forall|v: int| 0 <= v < card(ns, i) ==> (#[trigger] cim_s(ns, i).at(conf(ns, a, st, i), sv(st, i) as int, v)).fin(),
{
    reveal(nodes_ok);
    assert(P_ok(ns, par_of(a, i), st, ns.len() as int)); lm_pidx_bound(ns, par_of(a, i), st, ns.len() as int);
    assert(sv(st, i) < card(ns, i)); assert(cim_opt_ok(card(ns, i), ns[i].p().cim));
    assert forall|v: int| 0 <= v < card(ns, i) implies (#[trigger] cim_s(ns, i).at(conf(ns, a, st, i), sv(st, i) as int, v)).fin() by { assert(cim_s(ns, i).inb(conf(ns, a, st, i), sv(st, i) as int, v)); }
}
@fn CtbnNetwork::amalgamation() -> r
@requires
    self.wf(), self.ready(), jok(self.nodes()), nodes_ok(self.nodes(), self.adj()),
@ensures
    r.nodes().len() == 1, r.nodes()[0].p().card() == nst(self.nodes()), r.nodes()[0].p().cim is Some,
    joint_gen(self.nodes(), self.adj(), r.nodes()[0].p().cim->Some_0),
@start
    let ghost ns = self.nodes(); let ghost A = self.adj(); let ghost n = ns.len() as int; let ghost N = nst(ns) as int;
@loop 1
@inv
    it_1@.len() == n, forall|i: int| 0 <= i < k_1 ==> #[trigger] out_1@[i] == card(ns, i),
@post
    proof {
        lm_nprod(ns, out_1@, n); assert(out_1@.take(n) =~= out_1@);
        assert forall|a: Array1<usize>| a.d0() == n && (forall|i: int| 0 <= i < n ==> #[trigger] a.at(i) == out_1@[i]) implies #[trigger] a.seq() == out_1@ by { assert(a.seq() =~= out_1@); }
    }
@loop 2
@pre
    let ghost vs = in_set(variables_set@);
    proof {
        assert forall|x: usize| #![trigger variables_set@.contains(x)] variables_set@.contains(x) == (x < n) by { am_set(variables_set@, n, x); }
        assert(cseq(variables_domain) =~= cards(ns));
        lm_pidx_cong(ns, vs, all_v(), jst(ns, 0), jst(ns, 0), n);
        reveal(rows_done); reveal(rows_zero);
    }
@inv
    k_2 <= end_2, end_2 == N, dims_am(ns, amalgamated_cim), rows_done(ns, A, amalgamated_cim, k_2 as int), rows_zero(ns, amalgamated_cim, k_2 as int),
@top
    let ghost s = k_2 - 1; let ghost st = jst(ns, s);
    proof { lm_joint(ns, s); lm_am_zero(ns, A, amalgamated_cim, s); reveal(rows_zero); }
@bot
    proof { lm_am_row(ns, A, amalgamated_cim, s); }
@post
    proof { lm_am_end(ns, A, amalgamated_cim); }
@loop 3
@inv
    it_3@.len() == n, forall|i: int| 0 <= i < n ==> *(#[trigger] it_3@[i]) == sv(st, i),
    forall|i: int| 0 <= i < k_3 ==> #[trigger] out_3@[i] == StateType::Discrete(sv(st, i) as usize),
@top
    proof { assert(*it_3@[k_3 - 1] == sv(st, k_3 - 1)); }
@post
    proof { assert(out_3@ =~= st); }
@loop 4
@inv
    k_4 <= end_4, end_4 == n, dims_am(ns, amalgamated_cim), row_done(ns, A, amalgamated_cim, s, k_4 as int, 0), rows_done(ns, A, amalgamated_cim, s), rows_zero(ns, amalgamated_cim, s + 1),
@top
    let ghost nd = k_4 - 1;
    proof { lm_am_cell(ns, A, st, nd); assert(sv(st, nd) < card(ns, nd)); }
@bot
    proof { lm_am_node(ns, A, amalgamated_cim, s, nd); }
@loop 5
@inv
    k_5 <= end_5, end_5 == card(ns, nd), dims_am(ns, amalgamated_cim), row_done(ns, A, amalgamated_cim, s, nd, k_5 as int), rows_done(ns, A, amalgamated_cim, s), rows_zero(ns, amalgamated_cim, s + 1),
@top
    let ghost v = k_5 - 1; let ghost c0 = amalgamated_cim; let ghost nx = st.update(nd, StateType::Discrete(v as usize)); let ghost x = jix(ns, nx); let ghost rt = own_rate(ns, A, st, nx, nd);
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] sv(nx, i) < card(ns, i) by { assert(sv(st, i) < card(ns, i)); if i != nd { assert(nx[i] == st[i]); } }
        lm_joint_inv(ns, nx); lm_pidx_cong(ns, vs, all_v(), nx, nx, n);
        assert(cim_s(ns, nd).at(conf(ns, A, st, nd), sv(st, nd) as int, v).fin());
    }
@bot
    proof {
        reveal(put1); assert(put1(ns, c0, amalgamated_cim, s, x as int, rt));
        lm_am_put(ns, A, c0, amalgamated_cim, s, nd, v, x as int, rt); lm_am_rest(ns, A, c0, amalgamated_cim, s, x as int, rt);
    }
@loop 6
@inv
    it_6@.len() == n, forall|i: int| 0 <= i < n ==> *(#[trigger] it_6@[i]) == sv(nx, i),
    forall|i: int| 0 <= i < k_6 ==> #[trigger] out_6@[i] == StateType::Discrete(sv(nx, i) as usize),
@top
    proof { assert(*it_6@[k_6 - 1] == sv(nx, k_6 - 1)); }
@post
    proof { assert(out_6@ =~= nx); }
@loop 7
@pre
    proof { reveal(am_labels); }
@inv
    k_7 <= end_7, end_7 == N, am_labels(out_7@, k_7 as int), out_7@.len() == k_7,
@top
    let ghost o7 = out_7@;
@bot
    proof { lm_labels_push(o7, out_7@, k_7 - 1); }
@post
    proof { lm_labels_set(out_7@, N); }
@raw
#[verifier::opaque]
pub open spec fn am_labels(o: Seq<String>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] o[i])@ == dec_str(i as nat) }
pub proof fn am_set(s: Set<usize>, n: int, x: usize)
    requires 0 <= n <= usize::MAX, exists|q: Seq<usize>| s == #[trigger] q.to_set() && q.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q[i] == i,
    ensures s.contains(x) == (x < n),
{
    let q = choose|q: Seq<usize>| s == #[trigger] q.to_set() && q.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q[i] == i;
    lm_to_set(q);
    if x < n { assert(q[x as int] == x); }
}
pub proof fn lm_labels_push(o: Seq<String>, p: Seq<String>, k: int)
    requires am_labels(o, k), o.len() == k, p.len() == k + 1, p[k]@ == dec_str(k as nat), p == o.push(p[k]),
    ensures am_labels(p, k + 1),
{ reveal(am_labels); assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] p[i])@ == dec_str(i as nat) by { if i < k { assert(p[i] == o[i]); } } }
pub proof fn lm_labels_set(o: Seq<String>, n: int)
    requires am_labels(o, n), o.len() == n,
    ensures o.to_set().len() == n,
{
    reveal(am_labels);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies o[i] != o[j] by { assert(o[i]@ == dec_str(i as nat) && o[j]@ == dec_str(j as nat)); ax_dec_str(i as nat, j as nat); }
    o.unique_seq_to_set();
}
