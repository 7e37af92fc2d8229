@raw
pub proof fn lm_divmod(u: int, i: int, m: int) requires 0 <= i < m ensures (u * m + i) / m == u, (u * m + i) % m == i {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(u * m + i, m, u, i);
}
pub proof fn lm_flat2(u: int, i: int, n: int, m: int) requires 0 <= u < n, 0 <= i < m ensures 0 <= u * m + i < n * m {
    assert(0 <= u * m + i < n * m) by(nonlinear_arith) requires 0 <= u < n, 0 <= i < m;
}
impl Params {
    pub open spec fn p(&self) -> DiscreteStatesContinousTimeParams { self->DiscreteStatesContinousTime_0 }
}
impl DiscreteStatesContinousTimeParams {
    pub open spec fn card(&self) -> nat { self.domain@.len() }
}
pub open spec fn near0(x: Fl) -> bool { fle(fabs(x), Fl::Fin(sqrt_r(eps_r()))) }
/// A valid conditional intensity matrix for a variable with k states.
pub open spec fn cim_ok(k: nat, c: Array3<F64>) -> bool {
    &&& c.d1() == k && c.d2() == k
    &&& forall|u: int, i: int, j: int| c.inb(u, i, j) ==> (#[trigger] c.at(u, i, j)).fin() && (i == j ==> c.at(u, i, j).v() < 0real) && (i != j ==> c.at(u, i, j).v() >= 0real)
    &&& forall|u: int, i: int| 0 <= u < c.d0() && 0 <= i < k ==> near0(fsum(#[trigger] c.row_s(u, i)))
}
pub open spec fn cim_opt_ok(k: nat, c: Option<Array3<F64>>) -> bool { c is Some && cim_ok(k, c->Some_0) }
pub proof fn lm_fsum_fin(s: Seq<F64>)
    ensures fsum(s) is Fin ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fin()
    decreases s.len()
{
    if s.len() > 0 {
        lm_fsum_fin(s.drop_last());
        assert forall|i: int| fsum(s) is Fin && 0 <= i < s.len() implies (#[trigger] s[i]).fin() by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
pub proof fn lm_near0_fin(s: Seq<F64>)
    ensures near0(fsum(s)) ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fin()
{ lm_fsum_fin(s); }

/// Rates of the row that are positive; the inverse-CDF choice among them.
pub open spec fn has_pos(row: Seq<F64>, n: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] row[j]).v() > 0real }
/// Cumulative probability of the positive entries before position n.
pub open spec fn cum(row: Seq<F64>, lam: real, n: int) -> real decreases n {
    if n <= 0 { 0real } else { cum(row, lam, n - 1) + if row[n - 1].v() / lam > 0real { row[n - 1].v() / lam } else { 0real } }
}
/// The state chosen by a draw x: the last one with a positive rate whose preceding cumulative probability is below x, the first one being always eligible.
pub open spec fn chosen(row: Seq<F64>, lam: real, x: real, from: usize, n: int) -> usize decreases n {
    if n <= 0 { from } else {
        let p = chosen(row, lam, x, from, n - 1);
        if row[n - 1].v() / lam > 0real && (p == from || cum(row, lam, n - 1) < x) { (n - 1) as usize } else { p }
    }
}
pub open spec fn rate(c: Array3<F64>, u: int, i: int) -> real { -c.at(u, i, i).v() }
pub open spec fn t_inb(c: Option<Array3<F64>>, u: int, i: int) -> bool { c is Some ==> 0 <= u < c->Some_0.d0() && 0 <= i < c->Some_0.d1() && 0 <= i < c->Some_0.d2() }
/// The residence time drawn in state i under configuration u from generator state s.
pub open spec fn res_time(c: Array3<F64>, u: int, i: int, s: RS) -> Fl {
    fdiv(fneg(fln(Fl::Fin(draw_f_incl(s, Fl::Fin(0real), Fl::Fin(1real))))), fmul(c.at(u, i, i).g@, Fl::Fin(-1real)))
}
/// The ways to write -l / -c.
pub proof fn lm_quot(l: real, c: real)
    ensures c != 0real ==> (-l) / (c * (-1real)) == l / c && -(l / (c * (-1real))) == l / c && -(l / (-c)) == l / c && (-l) / (-c) == l / c && (l * (-1real)) / (-c) == l / c && c * (-1real) == -c,
{ if c != 0real { assert((-l) / (c * (-1real)) == l / c && -(l / (c * (-1real))) == l / c && -(l / (-c)) == l / c && (-l) / (-c) == l / c && (l * (-1real)) / (-c) == l / c) by(nonlinear_arith) requires c != 0real; } }
pub proof fn lm_res_nonneg(c: Array3<F64>, u: int, i: int, s: RS)
    ensures c.at(u, i, i).fin() && rate(c, u, i) > 0real && 0real <= draw_f_incl(s, Fl::Fin(0real), Fl::Fin(1real)) <= 1real ==> fle(Fl::Fin(0real), res_time(c, u, i, s)),
{
    let x = draw_f_incl(s, Fl::Fin(0real), Fl::Fin(1real));
    if c.at(u, i, i).fin() && rate(c, u, i) > 0real && 0real < x <= 1real {
        let q = c.at(u, i, i).v() * (-1real); let l = -ln_r(x);
        assert(l / q >= 0real) by(nonlinear_arith) requires l >= 0real, q > 0real;
    }
}
/// A row whose off-diagonal rates are non-negative and whose exit rate is positive.
pub open spec fn row_ok(row: Seq<F64>, from: int) -> bool {
    &&& 0 <= from < row.len() <= usize::MAX && row[from].fin() && row[from].v() < 0real
    &&& forall|j: int| 0 <= j < row.len() ==> (#[trigger] row[j]).fin() && (j != from ==> row[j].v() >= 0real)
}
pub open spec fn pos_div(a: real, lam: real) -> bool { (a / lam > 0real) == (a > 0real) }
pub proof fn lm_pos_div(a: real, lam: real) requires lam > 0real ensures pos_div(a, lam) {
    assert(a > 0real ==> a / lam > 0real) by(nonlinear_arith) requires lam > 0real;
    assert(a <= 0real ==> a / lam <= 0real) by(nonlinear_arith) requires lam > 0real;
}
/// The chosen state is feasible.
pub proof fn lm_chosen(row: Seq<F64>, lam: real, x: real, from: usize, n: int)
    requires row_ok(row, from as int), lam > 0real, 0 <= n <= row.len(),
    ensures
        has_pos(row, n) ==> chosen(row, lam, x, from, n) != from && chosen(row, lam, x, from, n) < n && row[chosen(row, lam, x, from, n) as int].v() > 0real,
        !has_pos(row, n) ==> chosen(row, lam, x, from, n) == from,
    decreases n,
{
    if n > 0 {
        lm_chosen(row, lam, x, from, n - 1);
        lm_pos_div(row[n - 1].v(), lam);
        if has_pos(row, n - 1) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] row[j]).v() > 0real; assert(row[j].v() > 0real); }
        if row[n - 1].v() > 0real { assert(has_pos(row, n)); }
        if has_pos(row, n) && !has_pos(row, n - 1) { let j = choose|j: int| 0 <= j < n && (#[trigger] row[j]).v() > 0real; assert(j == n - 1); }
    }
}
/// It is the one whose slice of the cumulative distribution contains the draw (the last one for a draw above the total).
pub proof fn lm_chosen_cdf(row: Seq<F64>, lam: real, x: real, from: usize, n: int)
    requires row_ok(row, from as int), lam > 0real, 0 <= n <= row.len(), has_pos(row, n), x > 0real,
    ensures
        cum(row, lam, chosen(row, lam, x, from, n) as int) < x,
        x <= cum(row, lam, chosen(row, lam, x, from, n) as int + 1) || x > cum(row, lam, n),
    decreases n,
{
    lm_chosen(row, lam, x, from, n);
    lm_chosen(row, lam, x, from, n - 1);
    lm_pos_div(row[n - 1].v(), lam);
    if has_pos(row, n - 1) { lm_chosen_cdf(row, lam, x, from, n - 1); lm_cum_mono(row, lam, chosen(row, lam, x, from, n - 1) as int + 1, n - 1); lm_cum_mono(row, lam, chosen(row, lam, x, from, n - 1) as int + 1, n); }
    else {
        if row[n - 1].v() <= 0real { let j = choose|j: int| 0 <= j < n && (#[trigger] row[j]).v() > 0real; assert(has_pos(row, n - 1)); }
        lm_cum0(row, lam, n - 1);
    }
}
pub proof fn lm_cum0(row: Seq<F64>, lam: real, n: int) requires lam > 0real, 0 <= n, !has_pos(row, n) ensures cum(row, lam, n) == 0real decreases n {
    if n > 0 { lm_pos_div(row[n - 1].v(), lam); assert(!has_pos(row, n - 1)) by { if has_pos(row, n - 1) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] row[j]).v() > 0real; assert(row[j].v() > 0real); assert(has_pos(row, n)); } } lm_cum0(row, lam, n - 1); if row[n - 1].v() > 0real { assert(has_pos(row, n)); } }
}
pub proof fn lm_cum_mono(row: Seq<F64>, lam: real, a: int, b: int) requires 0 <= a <= b ensures cum(row, lam, a) <= cum(row, lam, b) decreases b - a {
    if a < b { lm_cum_mono(row, lam, a, b - 1); }
}
/// What the row of state i under configuration u yields from generator state s.
pub open spec fn next_state(c: Array3<F64>, u: int, i: usize, s: RS) -> usize {
    chosen(c.row_s(u, i as int), rate(c, u, i as int), draw_f_incl(s, Fl::Fin(0real), Fl::Fin(1real)), i, c.d2() as int)
}

@fn DiscreteStatesContinousTimeParams::new(label, domain) -> r
@ensures
    r.label == label, r.domain == domain, r.cim is None, r.transitions is None, r.residence_time is None,
@fn DiscreteStatesContinousTimeParams::get_cim() -> r
@ensures *r == self.cim,
@fn DiscreteStatesContinousTimeParams::set_cim(cim) -> r
@ensures
    r is Ok <==> cim_ok(old(self).card(), cim),
    r is Ok ==> final(self).cim == Some(cim),
    r is Err ==> final(self).cim is None,
    final(self).label == old(self).label, final(self).domain == old(self).domain, final(self).transitions == old(self).transitions, final(self).residence_time == old(self).residence_time,
@fn DiscreteStatesContinousTimeParams::set_cim_unchecked(cim)
@ensures
    final(self).cim == Some(cim),
    final(self).label == old(self).label, final(self).domain == old(self).domain, final(self).transitions == old(self).transitions, final(self).residence_time == old(self).residence_time,
@fn DiscreteStatesContinousTimeParams::get_transitions() -> r
@ensures *r == self.transitions,
@fn DiscreteStatesContinousTimeParams::set_transitions(transitions)
@ensures
    final(self).transitions == Some(transitions),
    final(self).label == old(self).label, final(self).domain == old(self).domain, final(self).cim == old(self).cim, final(self).residence_time == old(self).residence_time,
@fn DiscreteStatesContinousTimeParams::get_residence_time() -> r
@ensures *r == self.residence_time,
@fn DiscreteStatesContinousTimeParams::set_residence_time(residence_time)
@ensures
    final(self).residence_time == Some(residence_time),
    final(self).label == old(self).label, final(self).domain == old(self).domain, final(self).cim == old(self).cim, final(self).transitions == old(self).transitions,
@fn DiscreteStatesContinousTimeParams::reset_params()
@ensures
    final(self).cim is None, final(self).transitions is None, final(self).residence_time is None,
    final(self).label == old(self).label, final(self).domain == old(self).domain,
@fn DiscreteStatesContinousTimeParams::get_random_state_uniform(rng) -> r
@requires self.card() > 0,
@ensures
    r == StateType::Discrete(draw_n(old(rng).s(), 0, self.card()) as usize), r->Discrete_0 < self.card(),
    final(rng).s() == rs_next(old(rng).s()),
@fn DiscreteStatesContinousTimeParams::get_random_residence_time(state, u, rng) -> r
@requires t_inb(self.cim, u as int, state as int),
@ensures
    r is Ok <==> self.cim is Some,
    r is Ok && self.cim->Some_0.at(u as int, state as int, state as int).fin() && rate(self.cim->Some_0, u as int, state as int) > 0real ==> (r->Ok_0).g@ == res_time(self.cim->Some_0, u as int, state as int, old(rng).s()),
    r is Ok ==> final(rng).s() == rs_next(old(rng).s()),
    r is Err ==> final(rng).s() == old(rng).s(),
    r is Ok && self.cim->Some_0.at(u as int, state as int, state as int).fin() && rate(self.cim->Some_0, u as int, state as int) > 0real ==> fle(Fl::Fin(0real), (r->Ok_0).g@),
@start
    proof { if self.cim is Some { lm_quot(ln_r(draw_f_incl(old(rng).s(), Fl::Fin(0real), Fl::Fin(1real))), self.cim->Some_0.at(u as int, state as int, state as int).v()); } }
@end
    proof { if self.cim is Some { lm_res_nonneg(self.cim->Some_0, u as int, state as int, old(rng).s()); } }
@fn DiscreteStatesContinousTimeParams::get_random_state(state, u, rng) -> r
@requires t_inb(self.cim, u as int, state as int),
@ensures
    r is Ok <==> self.cim is Some,
    r is Ok ==> final(rng).s() == rs_next(old(rng).s()),
    r is Err ==> final(rng).s() == old(rng).s(),
    r is Ok && row_ok(self.cim->Some_0.row_s(u as int, state as int), state as int) ==> r->Ok_0 == StateType::Discrete(next_state(self.cim->Some_0, u as int, state, old(rng).s())),
    r is Ok && row_ok(self.cim->Some_0.row_s(u as int, state as int), state as int) && has_pos(self.cim->Some_0.row_s(u as int, state as int), self.cim->Some_0.d2() as int) ==>
        sv(seq![r->Ok_0], 0) < self.cim->Some_0.d2() && sv(seq![r->Ok_0], 0) != state && self.cim->Some_0.at(u as int, state as int, sv(seq![r->Ok_0], 0) as int).v() > 0real,
@ops
@closure 1 |x: &F64| -> (r: F64) ensures r.g@ == fdiv(x.g@, lambda.g@)
@loop 1
@pre
    let ghost row = cim.row_s(u as int, state as int);
    let ghost lam = -cim.at(u as int, state as int, state as int).v();
    proof { if row_ok(row, state as int) { assert(row[state as int] == cim.at(u as int, state as int, state as int)); assert(row[state as int].v() * (-1real) == lam) by(nonlinear_arith) requires lam == -row[state as int].v(); assert(lambda.g@ == Fl::Fin(lam)); } }
@inv
    row_ok(row, state as int) ==> lambda.g@ == Fl::Fin(lam) && lam > 0real,
    row_ok(row, state as int) ==> acc_1.0 == chosen(row, lam, urand.v(), state, k_1 as int) && acc_1.1.g@ == Fl::Fin(cum(row, lam, k_1 as int)),
@top
    proof { if row_ok(row, state as int) { assert(row[k_1 - 1] == cim.at(u as int, state as int, k_1 - 1)); assert(row[k_1 - 1].fin()); assert(e_1.g@ == Fl::Fin(row[k_1 - 1].v() / lam)); } }
@post
    proof { if row_ok(row, state as int) { lm_chosen(row, lam, urand.v(), state, row.len() as int); } }
@fn DiscreteStatesContinousTimeParams::get_reserved_space_as_parent() -> r
@ensures r == self.card(),
@fn DiscreteStatesContinousTimeParams::state_to_index(state) -> r
@ensures r == state->Discrete_0,
@fn DiscreteStatesContinousTimeParams::validate_params() -> r
@attr #[verifier::rlimit(80)]
@ensures r is Ok <==> cim_opt_ok(self.card(), self.cim),
@loop 1
@inv
    res_1 ==> !cim_ok(domain_size as nat, *cim),
    !res_1 ==> forall|u: int, i: int| 0 <= u < k_1 && 0 <= i < cim.d1() ==> flt((#[trigger] cim.at(u, i, i)).g@, Fl::Fin(0real)),
@loop 2
@inv
    res_2 ==> !cim_ok(domain_size as nat, *cim),
    !res_2 ==> forall|i: int| 0 <= i < k_2 ==> flt((#[trigger] cim.at(k_1 - 1, i, i)).g@, Fl::Fin(0real)),
@loop 3
@inv
    res_3 ==> !cim_ok(domain_size as nat, *cim),
    !res_3 ==> forall|u: int, i: int| 0 <= u < cim.d0() && 0 <= i < cim.d1() && u * cim.d1() + i < k_3 ==> near0(fsum(#[trigger] cim.row_s(u, i))),
@top
    proof {
        let m = cim.d1() as int; let q = k_3 - 1;
        assert(cim.row_s(q / m, q % m) == cim.row_s(q / m, q % m));
        assert forall|u: int, i: int| #![trigger cim.row_s(u, i)] 0 <= u < cim.d0() && 0 <= i < m && u * m + i == q implies u == q / m && i == q % m by {
            lm_divmod(u, i, m);
        }
    }
@post
    proof {
        if !res_3 {
            assert forall|u: int, i: int| 0 <= u < cim.d0() && 0 <= i < cim.d1() implies near0(fsum(#[trigger] cim.row_s(u, i))) by {
                lm_flat2(u, i, cim.d0() as int, cim.d1() as int);
            }
            assert forall|u: int, i: int, j: int| cim.inb(u, i, j) implies (#[trigger] cim.at(u, i, j)).fin() by {
                lm_near0_fin(cim.row_s(u, i));
                assert(cim.row_s(u, i)[j] == cim.at(u, i, j));
            }
        }
    }
@loop 4
@inv
    res_4 ==> !cim_ok(domain_size as nat, *cim),
    !res_4 ==> forall|u: int, i: int, j: int| cim.inb(u, i, j) && u < k_4 && i != j ==> fle(Fl::Fin(0real), (#[trigger] cim.at(u, i, j)).g@),
@loop 5
@inv
    res_5 ==> !cim_ok(domain_size as nat, *cim),
    !res_5 ==> forall|i: int, j: int| 0 <= i < cim.d1() && 0 <= j < cim.d2() && i != j && i * cim.d2() + j < k_5 ==> fle(Fl::Fin(0real), (#[trigger] cim.at(k_4 - 1, i, j)).g@),
@top
    proof {
        let kk = k_5 - 1;
        assert forall|i: int, j: int| #![trigger cim.at(k_4 - 1, i, j)] 0 <= i < cim.d1() && 0 <= j < cim.d2() && i * cim.d2() + j == kk implies e_5.0.0 == i && e_5.0.1 == j && *e_5.1 == cim.at(k_4 - 1, i, j) by {
            assert(x.at(i, j) == cim.at(k_4 - 1, i, j));
            assert(i * x.d1() + j == kk);
        }
    }
@post
    proof {
        assert forall|i: int, j: int| !res_5 && 0 <= i < cim.d1() && 0 <= j < cim.d2() && i != j implies fle(Fl::Fin(0real), (#[trigger] cim.at(k_4 - 1, i, j)).g@) by {
            lm_flat2(i, j, cim.d1() as int, cim.d2() as int);
        }
    }
@fn DiscreteStatesContinousTimeParams::get_label() -> r
@ensures *r == self.label,

@fn Params::reset_params()
@ensures
    final(self).p().cim is None, final(self).p().transitions is None, final(self).p().residence_time is None,
    final(self).p().label == old(self).p().label, final(self).p().domain == old(self).p().domain,
@fn Params::get_random_state_uniform(rng) -> r
@requires self.p().card() > 0,
@ensures
    r == StateType::Discrete(draw_n(old(rng).s(), 0, self.p().card()) as usize), r->Discrete_0 < self.p().card(),
    final(rng).s() == rs_next(old(rng).s()),
@fn Params::get_random_residence_time(state, u, rng) -> r
@requires t_inb(self.p().cim, u as int, state as int),
@ensures
    r is Ok <==> self.p().cim is Some,
    r is Ok && self.p().cim->Some_0.at(u as int, state as int, state as int).fin() && rate(self.p().cim->Some_0, u as int, state as int) > 0real ==> (r->Ok_0).g@ == res_time(self.p().cim->Some_0, u as int, state as int, old(rng).s()),
    r is Ok ==> final(rng).s() == rs_next(old(rng).s()),
    r is Err ==> final(rng).s() == old(rng).s(),
    r is Ok && self.p().cim->Some_0.at(u as int, state as int, state as int).fin() && rate(self.p().cim->Some_0, u as int, state as int) > 0real ==> fle(Fl::Fin(0real), (r->Ok_0).g@),
@fn Params::get_random_state(state, u, rng) -> r
@requires t_inb(self.p().cim, u as int, state as int),
@ensures
    r is Ok <==> self.p().cim is Some,
    r is Ok ==> final(rng).s() == rs_next(old(rng).s()),
    r is Err ==> final(rng).s() == old(rng).s(),
    r is Ok && row_ok(self.p().cim->Some_0.row_s(u as int, state as int), state as int) ==> r->Ok_0 == StateType::Discrete(next_state(self.p().cim->Some_0, u as int, state, old(rng).s())),
    r is Ok && row_ok(self.p().cim->Some_0.row_s(u as int, state as int), state as int) && has_pos(self.p().cim->Some_0.row_s(u as int, state as int), self.p().cim->Some_0.d2() as int) ==>
        sv(seq![r->Ok_0], 0) < self.p().cim->Some_0.d2() && sv(seq![r->Ok_0], 0) != state && self.p().cim->Some_0.at(u as int, state as int, sv(seq![r->Ok_0], 0) as int).v() > 0real,
@fn Params::get_reserved_space_as_parent() -> r
@ensures r == self.p().card(),
@fn Params::state_to_index(state) -> r
@ensures r == state->Discrete_0,
@fn Params::validate_params() -> r
@ensures r is Ok <==> cim_opt_ok(self.p().card(), self.p().cim),
@fn Params::get_label() -> r
@ensures *r == self.p().label,
