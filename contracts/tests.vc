@raw
/// Transitions out of state x in block u.
pub open spec fn row_n(m: Array3<usize>, u: int, x: int) -> nat { nsum(m.row_s(u, x)) }
/// State x is left at least once in both samples.
pub open spec fn left2(m1: Array3<usize>, i: int, m2: Array3<usize>, j: int, x: int) -> bool { row_n(m1, i, x) > 0 && row_n(m2, j, x) > 0 }
pub open spec fn all_left(m1: Array3<usize>, i: int, m2: Array3<usize>, j: int) -> bool { forall|x: int| 0 <= x < m1.d1() ==> #[trigger] left2(m1, i, m2, j, x) }
pub open spec fn in_band(alpha: Fl, s: Fl) -> bool { !flt(s, fdiv(alpha, Fl::Fin(2real))) && !flt(fsub(Fl::Fin(1real), fdiv(alpha, Fl::Fin(2real))), s) }
/// The F comparison of the exit rates of state x.
pub open spec fn f_state(alpha: Fl, m1: Array3<usize>, c1: Array3<F64>, i: int, m2: Array3<usize>, c2: Array3<F64>, j: int, x: int) -> bool {
    left2(m1, i, m2, j, x) ==> in_band(alpha, cdf_f(Fl::Fin(row_n(m1, i, x) as real), Fl::Fin(row_n(m2, j, x) as real), fdiv(c2.at(j, x, x).g@, c1.at(i, x, x).g@)))
}
/// The F comparison of block i of the first sample with block j of the second.
pub open spec fn f_pass(alpha: Fl, m1: Array3<usize>, c1: Array3<F64>, i: int, m2: Array3<usize>, c2: Array3<F64>, j: int) -> bool {
    forall|x: int| 0 <= x < m1.d1() ==> #[trigger] f_state(alpha, m1, c1, i, m2, c2, j, x)
}
pub open spec fn chi_term(k: Fl, a: Fl, b: Fl) -> Fl {
    let d = fsub(fmul(k, b), fmul(fdiv(Fl::Fin(1real), k), a));
    fdiv(fmul(d, d), fadd(b, a))
}
pub open spec fn chi_k(m1: Array3<usize>, i: int, m2: Array3<usize>, j: int, x: int) -> Fl { fsqrt(fdiv(Fl::Fin(row_n(m1, i, x) as real), Fl::Fin(row_n(m2, j, x) as real))) }
pub open spec fn nfl(m: Array3<usize>, u: int, x: int, y: int) -> Fl { Fl::Fin(m.at(u, x, y) as real) }
pub open spec fn chi_row(m1: Array3<usize>, i: int, m2: Array3<usize>, j: int, x: int) -> Seq<F64> {
    Seq::new(m1.d2(), |y: int| F64 { g: Ghost(if y == x { Fl::Fin(0real) } else { chi_term(chi_k(m1, i, m2, j, x), nfl(m1, i, x, y), nfl(m2, j, x, y)) }) })
}
pub open spec fn chi_state(alpha: Fl, m1: Array3<usize>, i: int, m2: Array3<usize>, j: int, x: int) -> bool {
    flt(cdf_chi(Fl::Fin((m1.d1() - 1) as real), fsum(chi_row(m1, i, m2, j, x))), fsub(Fl::Fin(1real), alpha))
}
/// What the chi-squared comparison of block i of the first sample with block j of the second computes.
pub open spec fn chi_pass(alpha: Fl, m1: Array3<usize>, i: int, m2: Array3<usize>, j: int) -> bool { forall|x: int| 0 <= x < m1.d1() ==> #[trigger] chi_state(alpha, m1, i, m2, j, x) }
/// The statistic over the off-diagonal transitions seen in either sample.
pub open spec fn chi_sum(m1: Array3<usize>, i: int, m2: Array3<usize>, j: int, x: int, n: int) -> real decreases n {
    if n <= 0 { 0real } else {
        let y = n - 1; let a = m1.at(i, x, y) as real; let b = m2.at(j, x, y) as real; let k = sqrt_r(row_n(m1, i, x) as real / row_n(m2, j, x) as real);
        chi_sum(m1, i, m2, j, x, n - 1) + if y == x || a + b == 0real { 0real } else { (k * b - 1real / k * a) * (k * b - 1real / k * a) / (b + a) }
    }
}
/// The documented comparison: unseen transitions and states never left carry no evidence.
pub open spec fn chi_doc_state(alpha: Fl, m1: Array3<usize>, i: int, m2: Array3<usize>, j: int, x: int) -> bool {
    left2(m1, i, m2, j, x) ==> flt(cdf_chi(Fl::Fin((m1.d1() - 1) as real), Fl::Fin(chi_sum(m1, i, m2, j, x, m1.d2() as int))), fsub(Fl::Fin(1real), alpha))
}
pub open spec fn chi_doc(alpha: Fl, m1: Array3<usize>, i: int, m2: Array3<usize>, j: int) -> bool { forall|x: int| 0 <= x < m1.d1() ==> #[trigger] chi_doc_state(alpha, m1, i, m2, j, x) }
/// Every transition is seen in one of the samples and every state is left in both.
pub open spec fn all_seen(m1: Array3<usize>, i: int, m2: Array3<usize>, j: int) -> bool {
    all_left(m1, i, m2, j) && forall|x: int, y: int| 0 <= x < m1.d1() && 0 <= y < m1.d2() && x != y ==> #[trigger] m1.at(i, x, y) + m2.at(j, x, y) > 0
}
pub proof fn lm_chi_sum(m1: Array3<usize>, i: int, m2: Array3<usize>, j: int, x: int, n: int)
    requires 0 <= n <= m1.d2(), m1.d1() == m1.d2(), 0 <= x < m1.d1(), all_seen(m1, i, m2, j), ensures fsum(chi_row(m1, i, m2, j, x).take(n)) == Fl::Fin(chi_sum(m1, i, m2, j, x, n)) decreases n
{
    let r = chi_row(m1, i, m2, j, x);
    if n > 0 {
        let y = n - 1;
        lm_chi_sum(m1, i, m2, j, x, n - 1); assert(r.take(n).drop_last() =~= r.take(n - 1)); assert(r.take(n).last() == r[n - 1]);
        assert(left2(m1, i, m2, j, x));
        let q = row_n(m1, i, x) as real / row_n(m2, j, x) as real;
        assert(q > 0real) by(nonlinear_arith) requires q == row_n(m1, i, x) as real / row_n(m2, j, x) as real, row_n(m1, i, x) > 0, row_n(m2, j, x) > 0;
        assert(sqrt_r(q) > 0real);
        assert(chi_k(m1, i, m2, j, x) == Fl::Fin(sqrt_r(q)));
        if y != x { assert(m1.at(i, x, y) + m2.at(j, x, y) > 0); }
    }
}
pub proof fn lm_chi_doc(alpha: Fl, m1: Array3<usize>, i: int, m2: Array3<usize>, j: int)
    requires m1.d1() == m1.d2(), all_seen(m1, i, m2, j), ensures chi_pass(alpha, m1, i, m2, j) == chi_doc(alpha, m1, i, m2, j),
{
    assert forall|x: int| 0 <= x < m1.d1() implies #[trigger] chi_state(alpha, m1, i, m2, j, x) == chi_doc_state(alpha, m1, i, m2, j, x) by {
        lm_chi_sum(m1, i, m2, j, x, m1.d2() as int); assert(chi_row(m1, i, m2, j, x).take(m1.d2() as int) =~= chi_row(m1, i, m2, j, x)); assert(left2(m1, i, m2, j, x));
    }
    if chi_pass(alpha, m1, i, m2, j) { assert forall|x: int| 0 <= x < m1.d1() implies #[trigger] chi_doc_state(alpha, m1, i, m2, j, x) by { assert(chi_state(alpha, m1, i, m2, j, x)); } }
    if chi_doc(alpha, m1, i, m2, j) { assert forall|x: int| 0 <= x < m1.d1() implies #[trigger] chi_state(alpha, m1, i, m2, j, x) by { assert(chi_doc_state(alpha, m1, i, m2, j, x)); } }
}
pub proof fn lm_fsum_nat(r: Seq<F64>, m: Seq<usize>)
    requires r.len() == m.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).g@ == Fl::Fin(m[i] as real), ensures fsum(r) == Fl::Fin(nsum(m) as real) decreases r.len()
{ if r.len() > 0 { lm_fsum_nat(r.drop_last(), m.drop_last()); assert(r.last().g@ == Fl::Fin(m.last() as real)); } }
pub open spec fn cmp_req(m1: Array3<usize>, i: int, m2: Array3<usize>, j: int) -> bool {
    0 <= i < m1.d0() && 0 <= j < m2.d0() && m1.d1() == m1.d2() && m2.d1() == m1.d1() && m2.d2() == m1.d1()
}
pub proof fn lm_fcmp(a: Fl, b: Fl) ensures (fcmp(a, b) == Some(Ordering::Less)) == flt(a, b) {}
@fn F::new(alpha) -> r
@ensures r.alpha == alpha,
@fn ChiSquare::new(alpha) -> r
@ensures r.alpha == alpha,
@fn F::compare_matrices(i, M1, cim_1, j, M2, cim_2) -> r
@requires cmp_req(*M1, i as int, *M2, j as int), cim_1.same_dim(M1), cim_2.same_dim(M2),
@ensures r == f_pass(self.alpha.g@, *M1, *cim_1, i as int, *M2, *cim_2, j as int),
@panics stuck
@closure 1 |x: usize| -> (c: F64) ensures c.g@ == Fl::Fin(x as real)
@closure 2 |x: usize| -> (c: F64) ensures c.g@ == Fl::Fin(x as real)
@start
    let ghost m1 = *M1; let ghost m2 = *M2; let ghost c1 = *cim_1; let ghost c2 = *cim_2; let ghost kk = m1.d1() as int; let ghost al = self.alpha.g@; let ghost ii = i as int; let ghost jj = j as int;
    let ghost stuck = !all_left(m1, ii, m2, jj);
@loop 1
@pre
    proof {
        assert forall|x: int| 0 <= x < kk implies (#[trigger] r1.at(x)).g@ == Fl::Fin(row_n(m1, ii, x) as real) by { lm_fsum_nat(M1.row_s(x), m1.row_s(ii, x)); }
        assert forall|x: int| 0 <= x < kk implies (#[trigger] r2.at(x)).g@ == Fl::Fin(row_n(m2, jj, x) as real) by { lm_fsum_nat(M2.row_s(x), m2.row_s(jj, x)); }
    }
@inv
    k_1 <= end_1, end_1 == kk, forall|x: int| 0 <= x < k_1 ==> #[trigger] f_state(al, m1, c1, ii, m2, c2, jj, x),
@top
    proof {
        let x = k_1 - 1;
        assert(r1.at(x).g@ == Fl::Fin(row_n(m1, ii, x) as real)); assert(r2.at(x).g@ == Fl::Fin(row_n(m2, jj, x) as real));
        if !(row_n(m1, ii, x) > 0 && row_n(m2, jj, x) > 0) { assert(!left2(m1, ii, m2, jj, x)); assert(stuck); }
        let b = f_state(al, m1, c1, ii, m2, c2, jj, x);
    }
@fn ChiSquare::compare_matrices(i, M1, j, M2) -> r
@ops
@requires cmp_req(*M1, i as int, *M2, j as int), M1.d1() >= 2,
@ensures
    r == chi_pass(self.alpha.g@, *M1, i as int, *M2, j as int),
    all_seen(*M1, i as int, *M2, j as int) ==> r == chi_doc(self.alpha.g@, *M1, i as int, *M2, j as int),
@closure 1 |x: usize| -> (c: F64) ensures c.g@ == Fl::Fin(x as real)
@closure 2 |x: usize| -> (c: F64) ensures c.g@ == Fl::Fin(x as real)
@closure 3 |a: F64| -> (c: F64) ensures c.g@ == fsqrt(a.g@)
@closure 4 |a: F64| -> (c: F64) ensures c.g@ == fmul(a.g@, a.g@)
@start
    hide(fdiv); hide(fmul); hide(fadd); hide(fsqrt); hide(fcmp); hide(flt); hide(flt);
    let ghost m1 = *M1; let ghost m2 = *M2; let ghost kk = m1.d1() as int; let ghost al = self.alpha.g@; let ghost ii = i as int; let ghost jj = j as int;
@loop 1
@pre
    proof {
        assert forall|x: int| 0 <= x < kk implies (#[trigger] K.at(x, 0)).g@ == chi_k(m1, ii, m2, jj, x) by { lm_fsum_nat(M1.row_s(x), m1.row_s(ii, x)); lm_fsum_nat(M2.row_s(x), m2.row_s(jj, x)); }
        assert forall|x: int| 0 <= x < kk implies (#[trigger] L.at(x, 0)).g@ == fdiv(Fl::Fin(1real), chi_k(m1, ii, m2, jj, x)) by { assert(K.at(x, 0).g@ == chi_k(m1, ii, m2, jj, x)); }
        assert forall|x: int, y: int| 0 <= x < kk && 0 <= y < kk implies (#[trigger] M1.at(x, y)).g@ == nfl(m1, ii, x, y) by {}
        assert forall|x: int, y: int| 0 <= x < kk && 0 <= y < kk implies (#[trigger] M2.at(x, y)).g@ == nfl(m2, jj, x, y) by {}
        assert forall|A: Array2<F64>, x: int| A.d1() == kk && 0 <= x < kk && (forall|y: int| 0 <= y < kk ==> (#[trigger] A.at(x, y)) == chi_row(m1, ii, m2, jj, x)[y]) implies #[trigger] A.row_s(x) == chi_row(m1, ii, m2, jj, x) by { assert(A.row_s(x) =~= chi_row(m1, ii, m2, jj, x)); }
        assert forall|x: int| 0 <= x < kk implies (#[trigger] it_1@[x]).g@ == fsum(chi_row(m1, ii, m2, jj, x)) by { let z = chi_row(m1, ii, m2, jj, x); }
        if all_seen(m1, ii, m2, jj) { lm_chi_doc(al, m1, ii, m2, jj); }
    }
@inv
    it_1@.len() == kk, k_1 <= kk,
    res_1 ==> forall|x: int| 0 <= x < k_1 ==> #[trigger] chi_state(al, m1, ii, m2, jj, x),
    !res_1 ==> !chi_pass(al, m1, ii, m2, jj),
@bot
    proof {
        let b = chi_state(al, m1, ii, m2, jj, k_1 - 1);
        assert(e_1 == it_1@[k_1 - 1]); assert(e_1.g@ == fsum(chi_row(m1, ii, m2, jj, k_1 - 1)));
        assert(n.k.g@ == Fl::Fin((m1.d1() - 1) as real));
        let a = cdf_chi(n.k.g@, e_1.g@); let c = fsub(Fl::Fin(1real), al);
        assert(res_1 == (fcmp(a, c) == Some(Ordering::Less)));
        lm_fcmp(a, c);
        assert(res_1 == flt(a, c));
        assert(res_1 == b);
    }
@raw
/// The two fits a test compares exist.
pub open spec fn test_ok<T: NetworkProcess>(net: &T, dataset: &Dataset, c: usize, p: usize, s: Set<usize>) -> bool {
    &&& st_req(net, dataset, c) && p < net.nodes().len() && !s.contains(p) && below(s, net.nodes().len() as int)
    &&& uconf(net.nodes(), s) <= usize::MAX && uconf(net.nodes(), s.insert(p)) <= usize::MAX
}
/// Independent for the F test: under every state of the separation set and the parent, the exit rates with and without the parent agree.
pub open spec fn f_ind(alpha: Fl, ns: Seq<Params>, small: DiscreteStatesContinousTimeParams, big: DiscreteStatesContinousTimeParams, s: Set<usize>, p: usize) -> bool {
    forall|st: Seq<StateType>| #[trigger] st_ok(ns, st) ==> f_pass(alpha, small.transitions->Some_0, small.cim->Some_0, pidx(ns, in_set(s), st, ns.len() as int) as int, big.transitions->Some_0, big.cim->Some_0, pidx(ns, in_set(s.insert(p)), st, ns.len() as int) as int)
}
/// Independent for the chi-squared test: the same for the jump distributions.
pub open spec fn chi_ind(alpha: Fl, ns: Seq<Params>, small: DiscreteStatesContinousTimeParams, big: DiscreteStatesContinousTimeParams, s: Set<usize>, p: usize) -> bool {
    forall|st: Seq<StateType>| #[trigger] st_ok(ns, st) ==> chi_pass(alpha, small.transitions->Some_0, pidx(ns, in_set(s), st, ns.len() as int) as int, big.transitions->Some_0, pidx(ns, in_set(s.insert(p)), st, ns.len() as int) as int)
}
pub open spec fn digits(ns: Seq<Params>, P: spec_fn(int) -> bool, j: int) -> Seq<StateType> { Seq::new(ns.len(), |i: int| StateType::Discrete((if P(i) { (j / (stride(ns, P, i) as int)) % (card(ns, i) as int) } else { 0 }) as usize)) }
pub proof fn lm_digits(ns: Seq<Params>, P: spec_fn(int) -> bool, j: int, m: int)
    requires dom_ok(ns), 0 <= j <= usize::MAX, 0 <= m <= ns.len(), st_ok(ns, digits(ns, P, j)),
        forall|i: int| 0 <= i < ns.len() && #[trigger] P(i) ==> sv(digits(ns, P, j), i) == (j / (stride(ns, P, i) as int)) % (card(ns, i) as int),
    ensures stride(ns, P, m) > 0, pidx(ns, P, digits(ns, P, j), m) == j % (stride(ns, P, m) as int), decreases m
{
    let z = zero_st(ns);
    assert(P_ok(ns, P, digits(ns, P, j), m)); lm_stride_mono(ns, P, digits(ns, P, j), m, m);
    if m > 0 {
        lm_digits(ns, P, j, m - 1);
        let t = stride(ns, P, m - 1) as int; let k = card(ns, m - 1) as int;
        assert(card(ns, m - 1) > 0);
        if P(m - 1) { vstd::arithmetic::div_mod::lemma_breakdown(j, t, k); assert(t * ((j / t) % k) == ((j / t) % k) * t) by(nonlinear_arith); }
        else { assert(t * 1 == t); }
    }
}
/// Every configuration number is that of some state of the network.
pub proof fn lm_surj(ns: Seq<Params>, P: spec_fn(int) -> bool, j: int, n: int) -> (st: Seq<StateType>)
    requires dom_ok(ns), n == ns.len(), 0 <= j < stride(ns, P, n), stride(ns, P, n) <= usize::MAX,
    ensures st_ok(ns, st), pidx(ns, P, st, n) == j,
{
    let st = digits(ns, P, j);
    lm_uconf_P(ns, P);
    assert forall|i: int| 0 <= i < n implies #[trigger] sv(st, i) < card(ns, i) && sv(st, i) == (if P(i) { (j / (stride(ns, P, i) as int)) % (card(ns, i) as int) } else { 0 }) by {
        assert(card(ns, i) > 0);
        let t = stride(ns, P, i) as int; let k = card(ns, i) as int;
        assert(t > 0) by { lm_stride_mono(ns, P, zero_st(ns), i, n); }
        assert(0 <= j / t <= j) by(nonlinear_arith) requires j >= 0, t > 0;
        let q = j / t;
        assert(0 <= q % k < k && q % k <= q) by(nonlinear_arith) requires q >= 0, k > 0;
    }
    lm_digits(ns, P, j, n);
    assert(j % (stride(ns, P, n) as int) == j) by(nonlinear_arith) requires 0 <= j < stride(ns, P, n);
    st
}
pub proof fn lm_uconf_P(ns: Seq<Params>, P: spec_fn(int) -> bool) requires dom_ok(ns), ensures P_ok(ns, P, zero_st(ns), ns.len() as int),
{ let z = zero_st(ns); assert forall|i: int| 0 <= i < ns.len() && #[trigger] P(i) implies sv(z, i) < card(ns, i) by { assert(card(ns, i) > 0); } }
/// Inserting p multiplies the numbers of the variables above it by its cardinality.
pub proof fn lm_ins(ns: Seq<Params>, s: Set<usize>, p: usize, st: Seq<StateType>, m: int) -> (r: (nat, nat))
    requires p < m <= ns.len(), !s.contains(p), below(s, ns.len() as int),
    ensures ({
        let Q = in_set(s.insert(p)); let P = in_set(s); let a = stride(ns, Q, p as int); let k = card(ns, p as int); let l = pidx(ns, Q, st, p as int); let v = sv(st, p as int);
        &&& pidx(ns, P, st, m) == l + r.0 * a && pidx(ns, Q, st, m) == l + v * a + r.0 * (a * k)
        &&& stride(ns, P, m) == r.1 * a && stride(ns, Q, m) == r.1 * (a * k)
    }), decreases m
{
    let Q = in_set(s.insert(p)); let P = in_set(s); let a = stride(ns, Q, p as int); let k = card(ns, p as int); let l = pidx(ns, Q, st, p as int); let v = sv(st, p as int);
    assert forall|i: int| i != p implies #[trigger] P(i) == Q(i) by { if 0 <= i <= usize::MAX { assert(s.insert(p).contains(i as usize) == s.contains(i as usize)); } }
    assert(Q(p as int) && !P(p as int)) by { assert(s.insert(p).contains(p)); }
    if m == p + 1 {
        lm_pidx_cong(ns, P, Q, st, st, p as int);
        assert(stride(ns, P, p as int) * 1 == stride(ns, P, p as int)); assert(1 * (a * k) == a * k && 1 * a == a && 0 * (a * k) == 0 && 0 * a == 0) by(nonlinear_arith);
        (0, 1)
    } else {
        let (h, g) = lm_ins(ns, s, p, st, m - 1);
        assert(P(m - 1) == Q(m - 1));
        if P(m - 1) {
            let x = sv(st, m - 1); let c = card(ns, m - 1);
            assert(x * (g * a) == (x * g) * a && x * (g * (a * k)) == (x * g) * (a * k) && (g * a) * c == (g * c) * a && (g * (a * k)) * c == (g * c) * (a * k)) by(nonlinear_arith);
            assert((h + x * g) * a == h * a + (x * g) * a && (h + x * g) * (a * k) == h * (a * k) + (x * g) * (a * k)) by(nonlinear_arith);
            (h + x * g, g * c)
        } else { assert(stride(ns, P, m - 1) * 1 == stride(ns, P, m - 1)); assert(stride(ns, Q, m - 1) * 1 == stride(ns, Q, m - 1)); (h, g) }
    }
}
/// The configuration of the separation set inside a configuration of the extended set.
pub proof fn lm_split(ns: Seq<Params>, s: Set<usize>, p: usize, st: Seq<StateType>)
    requires dom_ok(ns), p < ns.len(), !s.contains(p), below(s, ns.len() as int), st_ok(ns, st),
    ensures ({
        let n = ns.len() as int; let Q = in_set(s.insert(p)); let a = stride(ns, Q, p as int) as int; let k = card(ns, p as int) as int; let j = pidx(ns, Q, st, n) as int; let i = pidx(ns, in_set(s), st, n) as int;
        &&& a > 0 && k > 0 && a * k > 0 && i == j % a + (j / (a * k)) * a && 0 <= (j / (a * k)) * a <= i && 0 <= j % a <= i
    }),
{
    let n = ns.len() as int; let Q = in_set(s.insert(p)); let a = stride(ns, Q, p as int) as int; let k = card(ns, p as int) as int; let j = pidx(ns, Q, st, n) as int; let v = sv(st, p as int) as int; let l = pidx(ns, Q, st, p as int) as int;
    let r = lm_ins(ns, s, p, st, n); let h = r.0 as int;
    assert(P_ok(ns, Q, st, p as int)); lm_pidx_bound(ns, Q, st, p as int); assert(v < k);
    assert(a * k > 0 && 0 <= l + v * a < a * k) by(nonlinear_arith) requires 0 <= l < a, 0 <= v < k;
    let b = a * k; let w = l + v * a;
    assert(j == w + h * b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j, b, h, w);
    assert(j == (v + h * k) * a + l) by(nonlinear_arith) requires j == l + v * a + h * (a * k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j, a, v + h * k, l);
    assert(h * a >= 0) by(nonlinear_arith) requires h >= 0, a > 0;
}
@fn F::call(net, child_node, parent_node, separation_set, dataset, cache) -> r
@requires
    test_ok(net, dataset, child_node, parent_node, separation_set@), old(cache).good(net.nodes(), dataset, child_node as int),
@ensures
    final(cache).good(net.nodes(), dataset, child_node as int), final(cache).parameter_learning == old(cache).parameter_learning,
    r == f_ind(self.alpha.g@, net.nodes(), old(cache).parameter_learning.fit_s(net.nodes(), separation_set@, dataset, child_node as int).p(), old(cache).parameter_learning.fit_s(net.nodes(), separation_set@.insert(parent_node), dataset, child_node as int).p(), separation_set@, parent_node),
@start
    let ghost ns = net.nodes(); let ghost n = ns.len() as int; let ghost Q = separation_set@.insert(parent_node); let ghost PQ = in_set(Q); let ghost PS = in_set(separation_set@); let ghost z0 = zero_st(ns);
    let ghost pl = cache.parameter_learning; let ghost sm = pl.fit_s(ns, separation_set@, dataset, child_node as int).p(); let ghost bg = pl.fit_s(ns, Q, dataset, child_node as int).p();
    let ghost m1 = sm.transitions->Some_0; let ghost m2 = bg.transitions->Some_0; let ghost c1 = sm.cim->Some_0; let ghost c2 = bg.cim->Some_0; let ghost al = self.alpha.g@;
    proof { assert forall|i: int| 0 <= i < n && #[trigger] PQ(i) implies sv(z0, i) < card(ns, i) by { assert(sv(z0, i) == 0); assert(card(ns, i) > 0); } assert(P_ok(ns, PQ, z0, n)); }
@loop 1
@pre
    let ghost l = derefs(it_1@);
    proof { lm_set_gap(Q, l, 0); lm_upto(Q, l, n, 0); lm_skip(ns, PQ, z0, 0, upto(l, 0)); assert(Q.contains(parent_node)); assert(l.contains(parent_node)); }
@inv
    l == derefs(it_1@), set_order(Q, l),
    !stop_1 ==> acc_1 == stride(ns, PQ, upto(l, k_1 as int)) && forall|j: int| 0 <= j < k_1 ==> #[trigger] l[j] != parent_node,
    stop_1 ==> acc_1 == stride(ns, PQ, parent_node as int),
@top
    proof { lm_member(ns, Q, l, z0, k_1 - 1); assert(l[k_1 - 1] == *e_1); }
@post
    proof {
        let j = choose|j: int| 0 <= j < l.len() && l[j] == parent_node;
        assert(acc_1 == stride(ns, PQ, parent_node as int));
        lm_step(ns, PQ, z0, parent_node as int, n);
    }
@loop 2
@inv
    k_2 <= end_2, end_2 == uconf(ns, Q),
    forall|st: Seq<StateType>| #[trigger] st_ok(ns, st) && pidx(ns, PQ, st, n) < k_2 ==> f_pass(al, m1, c1, pidx(ns, PS, st, n) as int, m2, c2, pidx(ns, PQ, st, n) as int),
@top
    let ghost st0 = lm_surj(ns, PQ, k_2 - 1, n);
    proof {
        lm_split(ns, separation_set@, parent_node, st0);
        assert(P_ok(ns, PS, st0, n)); lm_pidx_bound(ns, PS, st0, n);
    }
@bot
    proof {
        assert forall|st: Seq<StateType>| #[trigger] st_ok(ns, st) && pidx(ns, PQ, st, n) < k_2 implies f_pass(al, m1, c1, pidx(ns, PS, st, n) as int, m2, c2, pidx(ns, PQ, st, n) as int) by {
            if pidx(ns, PQ, st, n) == k_2 - 1 { lm_split(ns, separation_set@, parent_node, st); }
        }
    }
@post
    proof {
        assert forall|st: Seq<StateType>| #[trigger] st_ok(ns, st) implies f_pass(al, m1, c1, pidx(ns, PS, st, n) as int, m2, c2, pidx(ns, PQ, st, n) as int) by { assert(P_ok(ns, PQ, st, n)); lm_pidx_bound(ns, PQ, st, n); }
    }
@fn ChiSquare::call(net, child_node, parent_node, separation_set, dataset, cache) -> r
@requires
    test_ok(net, dataset, child_node, parent_node, separation_set@), old(cache).good(net.nodes(), dataset, child_node as int), card(net.nodes(), child_node as int) >= 2,
@ensures
    final(cache).good(net.nodes(), dataset, child_node as int), final(cache).parameter_learning == old(cache).parameter_learning,
    r == chi_ind(self.alpha.g@, net.nodes(), old(cache).parameter_learning.fit_s(net.nodes(), separation_set@, dataset, child_node as int).p(), old(cache).parameter_learning.fit_s(net.nodes(), separation_set@.insert(parent_node), dataset, child_node as int).p(), separation_set@, parent_node),
@start
    let ghost ns = net.nodes(); let ghost n = ns.len() as int; let ghost Q = separation_set@.insert(parent_node); let ghost PQ = in_set(Q); let ghost PS = in_set(separation_set@); let ghost z0 = zero_st(ns);
    let ghost pl = cache.parameter_learning; let ghost sm = pl.fit_s(ns, separation_set@, dataset, child_node as int).p(); let ghost bg = pl.fit_s(ns, Q, dataset, child_node as int).p();
    let ghost m1 = sm.transitions->Some_0; let ghost m2 = bg.transitions->Some_0; let ghost c1 = sm.cim->Some_0; let ghost c2 = bg.cim->Some_0; let ghost al = self.alpha.g@;
    proof { assert forall|i: int| 0 <= i < n && #[trigger] PQ(i) implies sv(z0, i) < card(ns, i) by { assert(sv(z0, i) == 0); assert(card(ns, i) > 0); } assert(P_ok(ns, PQ, z0, n)); }
@loop 1
@pre
    let ghost l = derefs(it_1@);
    proof { lm_set_gap(Q, l, 0); lm_upto(Q, l, n, 0); lm_skip(ns, PQ, z0, 0, upto(l, 0)); assert(Q.contains(parent_node)); assert(l.contains(parent_node)); }
@inv
    l == derefs(it_1@), set_order(Q, l),
    !stop_1 ==> acc_1 == stride(ns, PQ, upto(l, k_1 as int)) && forall|j: int| 0 <= j < k_1 ==> #[trigger] l[j] != parent_node,
    stop_1 ==> acc_1 == stride(ns, PQ, parent_node as int),
@top
    proof { lm_member(ns, Q, l, z0, k_1 - 1); assert(l[k_1 - 1] == *e_1); }
@post
    proof {
        let j = choose|j: int| 0 <= j < l.len() && l[j] == parent_node;
        assert(acc_1 == stride(ns, PQ, parent_node as int));
        lm_step(ns, PQ, z0, parent_node as int, n);
    }
@loop 2
@inv
    k_2 <= end_2, end_2 == uconf(ns, Q),
    forall|st: Seq<StateType>| #[trigger] st_ok(ns, st) && pidx(ns, PQ, st, n) < k_2 ==> chi_pass(al, m1, pidx(ns, PS, st, n) as int, m2, pidx(ns, PQ, st, n) as int),
@top
    let ghost st0 = lm_surj(ns, PQ, k_2 - 1, n);
    proof {
        lm_split(ns, separation_set@, parent_node, st0);
        assert(P_ok(ns, PS, st0, n)); lm_pidx_bound(ns, PS, st0, n);
    }
@bot
    proof {
        assert forall|st: Seq<StateType>| #[trigger] st_ok(ns, st) && pidx(ns, PQ, st, n) < k_2 implies chi_pass(al, m1, pidx(ns, PS, st, n) as int, m2, pidx(ns, PQ, st, n) as int) by {
            if pidx(ns, PQ, st, n) == k_2 - 1 { lm_split(ns, separation_set@, parent_node, st); }
        }
    }
@post
    proof {
        assert forall|st: Seq<StateType>| #[trigger] st_ok(ns, st) implies chi_pass(al, m1, pidx(ns, PS, st, n) as int, m2, pidx(ns, PQ, st, n) as int) by { assert(P_ok(ns, PQ, st, n)); lm_pidx_bound(ns, PQ, st, n); }
    }
