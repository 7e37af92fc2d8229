@raw
pub open spec fn sum1(f: spec_fn(int, int) -> real, u: int, x: int) -> real decreases x { if x <= 0 { 0real } else { sum1(f, u, x - 1) + f(u, x - 1) } }
/// Sum of f over all configurations below u and all k states.
pub open spec fn sum2(f: spec_fn(int, int) -> real, u: int, k: int) -> real decreases u { if u <= 0 { 0real } else { sum2(f, u - 1, k) + sum1(f, u - 1, k) } }
/// Transitions out of state x under configuration u into the first m states.
pub open spec fn ds_out(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, u: int, x: int, m: int) -> nat decreases m { if m <= 0 { 0 } else { ds_out(ns, s, node, ds, u, x, m - 1) + ds_cnt(ns, s, node, ds, u, x, m - 1) } }
pub open spec fn outs(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, u: int, x: int) -> nat { ds_out(ns, s, node, ds, u, x, card(ns, node) as int) }
/// Contribution of the residence times in state x under configuration u.
pub open spec fn ll_q(a: real, ta: real, m: nat, t: real) -> real {
    ln_gamma_r(a + m as real + 1real) + (a + 1real) * ln_r(ta) - ln_gamma_r(a + 1real) - (a + m as real + 1real) * ln_r(ta + t)
}
pub open spec fn ll_qf(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, a: real, ta: real) -> spec_fn(int, int) -> real { |u: int, x: int| ll_q(a, ta, outs(ns, s, node, ds, u, x), ds_time(ns, s, node, ds, u, x)) }
/// Contribution of the transitions from state x to the first m states.
pub open spec fn ll_th(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, a: real, u: int, x: int, m: int) -> real decreases m {
    if m <= 0 { 0real } else { ll_th(ns, s, node, ds, a, u, x, m - 1) + (ln_gamma_r(a + ds_cnt(ns, s, node, ds, u, x, m - 1) as real) - ln_gamma_r(a)) }
}
pub open spec fn ll_thf(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, a: real) -> spec_fn(int, int) -> real {
    |u: int, x: int| ln_gamma_r(a) - ln_gamma_r(a + outs(ns, s, node, ds, u, x) as real) + ll_th(ns, s, node, ds, a, u, x, card(ns, node) as int)
}
/// The log-likelihood with pseudo-counts alpha/U and tau/U.
pub open spec fn ll_s(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, alpha: real, tau: real) -> real {
    let U = uconf(ns, s); let k = card(ns, node) as int; let a = alpha / (U as real); let ta = tau / (U as real);
    sum2(ll_thf(ns, s, node, ds, a), U as int, k) + sum2(ll_qf(ns, s, node, ds, a, ta), U as int, k)
}
/// Observed intervals of the first m trajectories.
pub open spec fn obs(trs: Seq<Trajectory>, m: int) -> nat decreases m { if m <= 0 { 0 } else { (obs(trs, m - 1) + trs[m - 1].time.d0() - 1) as nat } }
pub open spec fn ds_obs(ds: &Dataset) -> nat { obs(ds.trajectories@, ds.trajectories@.len() as int) }
pub open spec fn n_par(ns: Seq<Params>, s: Set<usize>, node: int) -> int { uconf(ns, s) * card(ns, node) * (card(ns, node) - 1) }
pub open spec fn bic_s(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, alpha: real, tau: real) -> real {
    ll_s(ns, s, node, ds, alpha, tau) - ln_r(ds_obs(ds) as real) / 2real * (n_par(ns, s, node) as real)
}
pub open spec fn ll_req(ns: Seq<Params>, s: Set<usize>, node: usize, ds: &Dataset, alpha: usize, tau: F64) -> bool {
    &&& node < ns.len() && ds_ok(ns, ds) && ds_mono(ds) && dom_ok(ns) && below(s, ns.len() as int) && uconf(ns, s) <= usize::MAX
    &&& alpha > 0 && tau.fin() && tau.v() > 0real
}
pub proof fn lm_obs(trs: Seq<Trajectory>, m: int)
    requires 0 <= m <= trs.len(), forall|i: int| 0 <= i < trs.len() ==> (#[trigger] trs[i]).time.d0() >= 1,
    ensures obs(trs, m) <= rows(trs, m), decreases m
{ if m > 0 { lm_obs(trs, m - 1); } }
pub open spec fn tr_out(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int, m: int) -> nat decreases m { if m <= 0 { 0 } else { tr_out(ns, P, node, tr, k, u, x, m - 1) + tr_cnt(ns, P, node, tr, k, u, x, m - 1) } }
pub open spec fn c_out(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, j: int, u: int, x: int, m: int) -> nat decreases m { if m <= 0 { 0 } else { c_out(ns, P, node, trs, j, u, x, m - 1) + cnt(ns, P, node, trs, j, u, x, m - 1) } }
pub proof fn lm_tr_out_step(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int, m: int)
    requires k > 0, ensures tr_out(ns, P, node, tr, k, u, x, m) <= tr_out(ns, P, node, tr, k - 1, u, x, m) + (if 0 <= tr.events.at(k, node) < m { 1int } else { 0 }) decreases m
{ if m > 0 { lm_tr_out_step(ns, P, node, tr, k, u, x, m - 1); } }
pub proof fn lm_tr_out(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, k: int, u: int, x: int, m: int)
    requires 0 <= k, ensures tr_out(ns, P, node, tr, k, u, x, m) <= k decreases k
{ if k > 0 { lm_tr_out(ns, P, node, tr, k - 1, u, x, m); lm_tr_out_step(ns, P, node, tr, k, u, x, m); } else { lm_tr_out0(ns, P, node, tr, u, x, m); } }
pub proof fn lm_tr_out0(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, tr: Trajectory, u: int, x: int, m: int) ensures tr_out(ns, P, node, tr, 0, u, x, m) == 0 decreases m { if m > 0 { lm_tr_out0(ns, P, node, tr, u, x, m - 1); } }
pub proof fn lm_c_out_split(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, j: int, u: int, x: int, m: int)
    requires j > 0, ensures c_out(ns, P, node, trs, j, u, x, m) == c_out(ns, P, node, trs, j - 1, u, x, m) + tr_out(ns, P, node, trs[j - 1], trs[j - 1].time.d0() - 1, u, x, m) decreases m
{ if m > 0 { lm_c_out_split(ns, P, node, trs, j, u, x, m - 1); } }
pub proof fn lm_c_out0(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, u: int, x: int, m: int) ensures c_out(ns, P, node, trs, 0, u, x, m) == 0 decreases m { if m > 0 { lm_c_out0(ns, P, node, trs, u, x, m - 1); } }
pub proof fn lm_c_out(ns: Seq<Params>, P: spec_fn(int) -> bool, node: int, trs: Seq<Trajectory>, j: int, u: int, x: int, m: int)
    requires 0 <= j <= trs.len(), forall|i: int| 0 <= i < trs.len() ==> (#[trigger] trs[i]).time.d0() >= 1,
    ensures c_out(ns, P, node, trs, j, u, x, m) <= rows(trs, j), decreases j
{ if j > 0 { lm_c_out(ns, P, node, trs, j - 1, u, x, m); lm_c_out_split(ns, P, node, trs, j, u, x, m); lm_tr_out(ns, P, node, trs[j - 1], trs[j - 1].time.d0() - 1, u, x, m); } else { lm_c_out0(ns, P, node, trs, u, x, m); } }
/// Leaving a state is observed at most once per row.
pub proof fn lm_ds_out(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, u: int, x: int, m: int)
    requires ds_ok(ns, ds), ensures ds_out(ns, s, node, ds, u, x, m) <= usize::MAX,
{ lm_ds_out_eq(ns, s, node, ds, u, x, m); lm_c_out(ns, in_set(s), node, ds.trajectories@, ds.trajectories@.len() as int, u, x, m); }
pub proof fn lm_ds_out_eq(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, u: int, x: int, m: int)
    ensures ds_out(ns, s, node, ds, u, x, m) == c_out(ns, in_set(s), node, ds.trajectories@, ds.trajectories@.len() as int, u, x, m) decreases m
{ if m > 0 { lm_ds_out_eq(ns, s, node, ds, u, x, m - 1); } }
/// The sum of the counts of a row of the statistics.
pub proof fn lm_row_out(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, r: Seq<usize>, u: int, x: int, m: int)
    requires 0 <= m <= r.len(), forall|y: int| 0 <= y < r.len() ==> #[trigger] r[y] == ds_cnt(ns, s, node, ds, u, x, y),
    ensures nsum(r.take(m)) == ds_out(ns, s, node, ds, u, x, m), decreases m
{ if m > 0 { lm_row_out(ns, s, node, ds, r, u, x, m - 1); assert(r.take(m).drop_last() =~= r.take(m - 1)); assert(r.take(m).last() == r[m - 1]); } }
pub proof fn lm_outs(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, r: Seq<usize>, u: int, x: int)
    requires r.len() == card(ns, node), ds_ok(ns, ds), forall|y: int| 0 <= y < r.len() ==> #[trigger] r[y] == ds_cnt(ns, s, node, ds, u, x, y),
    ensures nsum(r) == outs(ns, s, node, ds, u, x) <= usize::MAX,
{ lm_row_out(ns, s, node, ds, r, u, x, r.len() as int); assert(r.take(r.len() as int) =~= r); lm_ds_out(ns, s, node, ds, u, x, r.len() as int); }
pub proof fn lm_uconf_pos(ns: Seq<Params>, s: Set<usize>) requires dom_ok(ns), ensures uconf(ns, s) > 0,
{ let z = zero_st(ns); assert forall|i: int| 0 <= i < ns.len() && #[trigger] in_set(s)(i) implies sv(z, i) < card(ns, i) by { assert(card(ns, i) > 0); } lm_stride_mono(ns, in_set(s), z, ns.len() as int, ns.len() as int); }
pub proof fn lm_row_major<T>(a: Array2<T>, r: Seq<&T>) requires row_major(&a, r), ensures r.len() == ix(a.d0() as int, a.d1() as int), forall|i: int, j: int| 0 <= i < a.d0() && 0 <= j < a.d1() ==> *r[ix(i, a.d1() as int) + j] == #[trigger] a.at(i, j) { reveal(ix); }
#[verifier::opaque]
pub open spec fn ix(u: int, k: int) -> int { u * k }
pub proof fn lm_ix(u: int, k: int) ensures ix(u + 1, k) == ix(u, k) + k, ix(0, k) == 0 { reveal(ix); assert((u + 1) * k == u * k + k) by(nonlinear_arith); }
pub proof fn lm_ix_lt(u: int, x: int, n: int, k: int) requires 0 <= x < k, 0 <= u, 0 < n, ensures ix(u, k) + x < ix(n, k) ==> u < n, ix(u, k) + x == ix(n, k) ==> u == n && x == 0 {
    reveal(ix);
    if u * k + x < n * k { assert(u < n) by(nonlinear_arith) requires u * k + x < n * k, 0 <= x, k > 0; }
    if u * k + x == n * k {
        assert((n - u) * k == x) by(nonlinear_arith) requires u * k + x == n * k;
        if n - u >= 1 { assert((n - u) * k >= k) by(nonlinear_arith) requires n - u >= 1, k > 0; }
        if n - u <= -1 { assert((n - u) * k < 0) by(nonlinear_arith) requires n - u <= -1, k > 0; }
        assert(n - u == 0); assert(0 * k == 0) by(nonlinear_arith);
    }
}
pub open spec fn out_tab(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, A: Array2<usize>) -> bool {
    A.d0() == uconf(ns, s) && A.d1() == card(ns, node) && forall|u: int, x: int| 0 <= u < A.d0() && 0 <= x < A.d1() ==> #[trigger] A.at(u, x) == outs(ns, s, node, ds, u, x)
}
pub open spec fn out_list(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, r: Seq<&usize>) -> bool {
    r.len() == ix(uconf(ns, s) as int, card(ns, node) as int) && forall|u: int, x: int| 0 <= u < uconf(ns, s) && 0 <= x < card(ns, node) ==> *r[ix(u, card(ns, node) as int) + x] == #[trigger] outs(ns, s, node, ds, u, x)
}
pub proof fn lm_out_list(ns: Seq<Params>, s: Set<usize>, node: int, ds: &Dataset, A: Array2<usize>, r: Seq<&usize>) requires row_major(&A, r), out_tab(ns, s, node, ds, A), ensures out_list(ns, s, node, ds, r),
{
    hide(row_major); lm_row_major(A, r);
    assert forall|u: int, x: int| 0 <= u < uconf(ns, s) && 0 <= x < card(ns, node) implies *r[ix(u, card(ns, node) as int) + x] == #[trigger] outs(ns, s, node, ds, u, x) by { assert(A.at(u, x) == outs(ns, s, node, ds, u, x)); }
}
pub open spec fn ll_q_fl(a: Fl, ta: Fl, m: Fl, t: Fl) -> Fl {
    let one = Fl::Fin(1real);
    fsub(fsub(fadd(flngamma(fadd(fadd(a, m), one)), fmul(fadd(a, one), fln(ta))), flngamma(fadd(a, one))), fmul(fadd(fadd(a, m), one), fln(fadd(ta, t))))
}
pub proof fn lm_ll_q(a: real, ta: real, m: nat, t: real) requires a > 0real, ta > 0real, t >= 0real,
    ensures ll_q_fl(Fl::Fin(a), Fl::Fin(ta), Fl::Fin(m as real), Fl::Fin(t)) == Fl::Fin(ll_q(a, ta, m, t)), {}
@trait ScoreFunction
    spec fn score_req(&self, ns: Seq<Params>, s: Set<usize>, node: usize, ds: &Dataset) -> bool;
    spec fn score_s(&self, ns: Seq<Params>, s: Set<usize>, node: usize, ds: &Dataset) -> real;
@fn ScoreFunction::call(net, node, parent_set, dataset) -> r
@requires net.wf(), self.score_req(net.nodes(), parent_set@, node, dataset),
@ensures r.g@ == Fl::Fin(self.score_s(net.nodes(), parent_set@, node, dataset)),
@timpl ScoreFunction for LogLikelihood
    open spec fn score_req(&self, ns: Seq<Params>, s: Set<usize>, node: usize, ds: &Dataset) -> bool { ll_req(ns, s, node, ds, self.alpha, self.tau) }
    open spec fn score_s(&self, ns: Seq<Params>, s: Set<usize>, node: usize, ds: &Dataset) -> real { ll_s(ns, s, node as int, ds, self.alpha as real, self.tau.v()) }
@timpl ScoreFunction for BIC
    open spec fn score_req(&self, ns: Seq<Params>, s: Set<usize>, node: usize, ds: &Dataset) -> bool {
        ll_req(ns, s, node, ds, self.ll.alpha, self.ll.tau) && ds_obs(ds) > 0 && uconf(ns, s) * card(ns, node as int) * card(ns, node as int) <= usize::MAX
    }
    open spec fn score_s(&self, ns: Seq<Params>, s: Set<usize>, node: usize, ds: &Dataset) -> real { bic_s(ns, s, node as int, ds, self.ll.alpha as real, self.ll.tau.v()) }
@fn LogLikelihood::new(alpha, tau) -> r
@ensures r.alpha == alpha, r.tau == tau, !flt(tau.g@, Fl::Fin(0real)),
@panics flt(tau.g@, Fl::Fin(0real))
@fn BIC::new(alpha, tau) -> r
@ensures r.ll.alpha == alpha, r.ll.tau == tau, !flt(tau.g@, Fl::Fin(0real)),
@panics flt(tau.g@, Fl::Fin(0real))
@fn LogLikelihood::compute_score(net, node, parent_set, dataset) -> r
@requires net.wf(), ll_req(net.nodes(), parent_set@, node, dataset, self.alpha, self.tau),
@ensures
    r.0.g@ == Fl::Fin(ll_s(net.nodes(), parent_set@, node as int, dataset, self.alpha as real, self.tau.v())),
    r.1.d0() == uconf(net.nodes(), parent_set@), r.1.d1() == card(net.nodes(), node as int), r.1.d2() == card(net.nodes(), node as int),
@start
    hide(uconf); hide(ds_cnt); hide(ds_time); hide(outs); hide(ds_ok); hide(dom_ok); hide(ds_mono); hide(stride); hide(ll_q); hide(ll_th); hide(sum1); hide(sum2); hide(nsum); hide(row_major); hide(fadd); hide(fmul); hide(fdiv); hide(fln); hide(flngamma); hide(ll_qf);
    let ghost ns = net.nodes(); let ghost S = parent_set@; let ghost nd = node as int; let ghost kk = card(ns, nd) as int; let ghost U = uconf(ns, S) as int;
    let ghost a = self.alpha as real / (U as real); let ghost ta = self.tau.v() / (U as real);
    let ghost fq = ll_qf(ns, S, nd, dataset, a, ta); let ghost ft = ll_thf(ns, S, nd, dataset, a);
    proof {
        reveal(fdiv); lm_uconf_pos(ns, S);
        assert(a > 0real && ta > 0real) by(nonlinear_arith) requires U > 0, self.alpha > 0, self.tau.v() > 0real, a == self.alpha as real / (U as real), ta == self.tau.v() / (U as real);
        assert forall|M: Array3<usize>, T: Array2<F64>, u: int, x: int| #![trigger M.row_s(u, x), T.d0()] is_stats(ns, S, nd, dataset, M, T) && 0 <= u < U && 0 <= x < kk implies nsum(M.row_s(u, x)) == outs(ns, S, nd, dataset, u, x) <= usize::MAX by {
            let r = M.row_s(u, x);
            assert forall|y: int| 0 <= y < r.len() implies #[trigger] r[y] == ds_cnt(ns, S, nd, dataset, u, x, y) by { assert(M.inb(u, x, y)); }
            lm_outs(ns, S, nd, dataset, r, u, x);
        }
        assert forall|u: int, x: int| #[trigger] ds_time(ns, S, nd, dataset, u, x) >= 0real by { reveal(ds_time); reveal(ds_mono); lm_tim(ns, in_set(S), nd, dataset.trajectories@, dataset.trajectories@.len() as int, u, x); }
    }
@loop 1
@pre
    let ghost mut ui: int = 0; let ghost mut xi: int = 0;
    proof {
        reveal(sum1); reveal(sum2); assert(kk > 0) by { reveal(dom_ok); }
        assert forall|A: Array2<usize>| #[trigger] row_major(&A, it_1@) && out_tab(ns, S, nd, dataset, A) implies out_list(ns, S, nd, dataset, it_1@) by { lm_out_list(ns, S, nd, dataset, A, it_1@); }
        assert(out_list(ns, S, nd, dataset, it_1@));
        lm_row_major(T, zip_1_1@); lm_ix(0, kk);
    }
@inv
    0 <= ui, 0 <= xi, kk > 0, xi < kk, k_1 == ix(ui, kk) + xi, it_1@.len() == ix(U, kk), zip_1_1@.len() == ix(U, kk),
    acc_1.g@ == Fl::Fin(sum2(fq, ui, kk) + sum1(fq, ui, xi)),
@top
    proof {
        lm_ix_lt(ui, xi, U, kk);
        assert(*it_1@[k_1 - 1] == outs(ns, S, nd, dataset, ui, xi));
        assert(*zip_1_1@[ix(ui, kk) + xi] == T.at(ui, xi)); assert((*zip_1_1@[k_1 - 1]).g@ == Fl::Fin(ds_time(ns, S, nd, dataset, ui, xi)));
    }
@bot
    proof {
        reveal(sum1); reveal(sum2);
        lm_ll_q(a, ta, outs(ns, S, nd, dataset, ui, xi), ds_time(ns, S, nd, dataset, ui, xi)); assert(e_1_1.g@ == Fl::Fin(fq(ui, xi))) by { reveal(ll_qf); } reveal(fadd);
        assert(sum1(fq, ui, xi + 1) == sum1(fq, ui, xi) + fq(ui, xi));
        if xi + 1 == kk { lm_ix(ui, kk); assert(sum2(fq, ui + 1, kk) == sum2(fq, ui, kk) + sum1(fq, ui, kk)); ui = ui + 1; xi = 0; } else { xi = xi + 1; }
    }
@post
    proof {
        lm_ix_lt(ui, xi, U, kk);
    }
@loop 2
@pre
    proof { reveal(sum2); }
@inv
    it_2@.len() == U, acc_2.g@ == Fl::Fin(sum2(ft, k_2 as int, kk)),
@bot
    proof { reveal(sum2); reveal(fadd); }
@post
    proof { reveal(fadd); }
@loop 3
@pre
    let ghost ug = k_2 - 1;
    proof { reveal(sum1); }
@inv
    it_3@.len() == kk, acc_3.g@ == Fl::Fin(sum1(ft, ug, k_3 as int)),
@top
    let ghost xg = k_3 - 1;
    proof {
        assert forall|y: int| 0 <= y < kk implies #[trigger] e_3.at(y) == ds_cnt(ns, S, nd, dataset, ug, xg, y) by { assert(M.inb(ug, xg, y)); assert(it_2@[ug].at(xg, y) == M.at(ug, xg, y)); }
        let r = e_3.seq();
        assert forall|y: int| 0 <= y < r.len() implies #[trigger] r[y] == ds_cnt(ns, S, nd, dataset, ug, xg, y) by { assert(e_3.at(y) == r[y]); }
        lm_outs(ns, S, nd, dataset, r, ug, xg);
    }
@bot
    proof { reveal(sum1); reveal(fadd); reveal(flngamma); assert(e_3_1.g@ == Fl::Fin(ft(ug, xg))); }
@loop 4
@pre
    proof { reveal(ll_th); reveal(fadd); reveal(flngamma); }
@inv
    it_4@.len() == kk, forall|y: int| 0 <= y < kk ==> #[trigger] e_3.at(y) == ds_cnt(ns, S, nd, dataset, ug, xg, y), acc_4.g@ == Fl::Fin(ll_th(ns, S, nd, dataset, a, ug, xg, k_4 as int)),
@top
    proof { assert(*it_4@[k_4 - 1] == e_3.at(k_4 - 1)); }
@bot
    proof { reveal(ll_th); reveal(fadd); reveal(flngamma); }
@fn LogLikelihood::call()
@fn BIC::call()
@start
    let ghost ns = net.nodes(); let ghost S = parent_set@; let ghost nd = node as int; let ghost kk = card(ns, nd) as int; let ghost U = uconf(ns, S) as int; let ghost trs = dataset.trajectories@;
    proof {
        assert(kk > 0);
        lm_uconf_pos(ns, S);
        assert(0 <= kk * (kk - 1) <= U * (kk * (kk - 1)) && U * (kk * (kk - 1)) == U * kk * (kk - 1) && 0 <= U * (kk - 1) <= U * kk * (kk - 1) && U * (kk - 1) * kk == U * kk * (kk - 1)) by(nonlinear_arith) requires kk > 0, U > 0;
        assert(0 <= U * kk <= U * kk * kk && U * kk * (kk - 1) <= U * kk * kk && 0 <= U * kk * (kk - 1)) by(nonlinear_arith) requires kk > 0, U >= 0;
    }
@loop 1
@inv
    acc_1 == obs(trs, k_1 as int),
@top
    proof { assert(*it_1@[k_1 - 1] == trs[k_1 - 1]); assert(tr_ok(ns, trs[k_1 - 1])); lm_obs(trs, k_1 as int); lm_rows_mono(trs, k_1 as int, trs.len() as int); }
