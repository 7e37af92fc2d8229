@raw
/// k transitions.
pub open spec fn stp(ns: Seq<Params>, a: Adj, s: Smp, k: int) -> Smp decreases k { if k <= 0 { s } else { step(ns, a, stp(ns, a, s, k - 1)) } }
/// Discounted length of the stay from t0 to t1.
pub open spec fn stay(c: RewardCriteria, t0: real, t1: real) -> real {
    match c { RewardCriteria::FiniteHorizon => t1 - t0, RewardCriteria::InfiniteHorizon { discount_factor: d } => (pow_r(e_r(), -d.v() * t0) - pow_r(e_r(), -d.v() * t1)) / d.v() }
}
/// Discount at time t.
pub open spec fn disc(c: RewardCriteria, t: real) -> real { match c { RewardCriteria::FiniteHorizon => 1real, RewardCriteria::InfiniteHorizon { discount_factor: d } => pow_r(e_r(), -d.v() * t) } }
pub open spec fn crit_ok(c: RewardCriteria) -> bool { match c { RewardCriteria::FiniteHorizon => true, RewardCriteria::InfiniteHorizon { discount_factor: d } => d.fin() && d.v() != 0real } }
/// Reward earned from p until the next transition q or the end, whichever comes first, with the reward of the transition.
pub open spec fn seg<R: RewardFunction>(mc: MonteCarloReward, rf: &R, p: Smp, q: Smp) -> real {
    let e = mc.end_time.v(); let c = mc.reward_criteria;
    if flt(Fl::Fin(e), q.t) { stay(c, p.t->Fin_0, e) * rf.inst_s(p.st)->Fin_0 }
    else { stay(c, p.t->Fin_0, q.t->Fin_0) * rf.inst_s(p.st)->Fin_0 + disc(c, q.t->Fin_0) * rf.tran_s(p.st, q.st)->Fin_0 }
}
/// Return of the first k stays of the run from s.
pub open spec fn retk<R: RewardFunction>(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, rf: &R, s: Smp, k: int) -> real decreases k {
    if k <= 0 { 0real } else { retk(mc, ns, a, rf, s, k - 1) + seg(mc, rf, stp(ns, a, s, k - 1), stp(ns, a, s, k)) }
}
/// The run from s reaches the end time at its k-th transition.
pub open spec fn is_run(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, s: Smp, k: int) -> bool {
    0 <= k && !flt(stp(ns, a, s, k).t, mc.end_time.g@) && forall|j: int| 0 <= j < k ==> flt((#[trigger] stp(ns, a, s, j)).t, mc.end_time.g@)
}
pub open spec fn rlen(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, s: Smp) -> int { choose|k: int| is_run(mc, ns, a, s, k) }
pub proof fn lm_rlen(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, s: Smp, k: int)
    requires is_run(mc, ns, a, s, k),
    ensures rlen(mc, ns, a, s) == k,
{
    let q = rlen(mc, ns, a, s); assert(is_run(mc, ns, a, s, q));
    if q < k { assert(flt(stp(ns, a, s, q).t, mc.end_time.g@)); } else if k < q { assert(flt(stp(ns, a, s, k).t, mc.end_time.g@)); }
}
/// A run starts in the given state at time zero.
pub open spec fn begin(ns: Seq<Params>, st: Seq<StateType>, rs: RS) -> Smp { Smp { t: Fl::Fin(0real), st: st, nx: Seq::new(ns.len(), |i: int| None::<F64>), rs: rs } }
/// Random numbers at the start of run i: the runs share one stream.
pub open spec fn run_rs(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, st: Seq<StateType>, rs: RS, i: int) -> RS decreases i {
    if i <= 0 { rs } else { let s = begin(ns, st, run_rs(mc, ns, a, st, rs, i - 1)); stp(ns, a, s, rlen(mc, ns, a, s) + 1).rs }
}
/// Return of run i.
pub open spec fn ret_i<R: RewardFunction>(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, rf: &R, st: Seq<StateType>, rs: RS, i: int) -> real {
    let s = begin(ns, st, run_rs(mc, ns, a, st, rs, i)); retk(mc, ns, a, rf, s, rlen(mc, ns, a, s))
}
pub open spec fn ret_sum<R: RewardFunction>(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, rf: &R, st: Seq<StateType>, rs: RS, m: int) -> real decreases m {
    if m <= 0 { 0real } else { ret_sum(mc, ns, a, rf, st, rs, m - 1) + ret_i(mc, ns, a, rf, st, rs, m - 1) }
}
/// Mean return of the first m runs.
pub open spec fn ret_mean<R: RewardFunction>(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, rf: &R, st: Seq<StateType>, rs: RS, m: int) -> real { if m <= 0 { 0real } else { ret_sum(mc, ns, a, rf, st, rs, m) / (m as real) } }
/// The first m runs end.
pub open spec fn ended(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, st: Seq<StateType>, rs: RS, m: int) -> bool {
    forall|i: int| 0 <= i < m ==> is_run(mc, ns, a, begin(ns, st, #[trigger] run_rs(mc, ns, a, st, rs, i)), rlen(mc, ns, a, begin(ns, st, run_rs(mc, ns, a, st, rs, i))))
}
/// m runs drawn from rs are used.
pub open spec fn used(mc: MonteCarloReward, ns: Seq<Params>, a: Adj, st: Seq<StateType>, rs: RS, m: int) -> bool {
    0 <= m <= mc.max_iterations && (mc.max_iterations > 0 ==> m > 0) && ended(mc, ns, a, st, rs, m) && (mc.seed is Some ==> rs == rs_seed(mc.seed->Some_0))
}
pub open spec fn rf_ok<R: RewardFunction>(ns: Seq<Params>, rf: &R) -> bool {
    &&& forall|s: Seq<StateType>| #[trigger] st_ok(ns, s) ==> rf.call_ok(s) && rf.inst_s(s) is Fin
    &&& forall|p: Seq<StateType>, c: Seq<StateType>| st_ok(ns, p) && st_ok(ns, c) && one_step(p, c) ==> (#[trigger] rf.tran_s(p, c)) is Fin
}
pub proof fn lm_stp<R: RewardFunction>(ns: Seq<Params>, a: Adj, rf: &R, s: Smp, k: int)
    requires ns.len() > 0, smp_ok(ns, s), forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_ok(ns, a, i), 0 <= k, rf_ok(ns, rf),
    ensures ({ let p = stp(ns, a, s, k); let q = stp(ns, a, s, k + 1);
        smp_ok(ns, p) && smp_ok(ns, q) && q == step(ns, a, p) && fle(p.t, q.t) && changes_one(p.st, q.st) && one_step(p.st, q.st) && rf.call_ok(p.st) && rf.call_ok(q.st) && rf.inst_s(p.st) is Fin && rf.tran_s(p.st, q.st) is Fin }),
    decreases k,
{
    if k > 0 { lm_stp(ns, a, rf, s, k - 1); }
    lm_step_ok(ns, a, stp(ns, a, s, k));
}
pub proof fn lm_mean(s: real, r: real, i: real)
    requires i >= 0real,
    ensures i > 0real ==> (s / i) * i / (i + 1real) + r / (i + 1real) == (s + r) / (i + 1real), 0real * i / (i + 1real) == 0real,
        i > 0real ==> ((s / i) * i + r) / (i + 1real) == (s + r) / (i + 1real) && s / i + (r - s / i) / (i + 1real) == (s + r) / (i + 1real) && (s / i) * (i / (i + 1real)) + r / (i + 1real) == (s + r) / (i + 1real), 0real * (i / (i + 1real)) == 0real,
{
    if i > 0real {
        let m = s / i; let q = i + 1real;
        assert(m * i == s) by(nonlinear_arith) requires i > 0real, m == s / i;
        assert(m + (r - m) / q == (m * i + r) / q) by(nonlinear_arith) requires q > 0real, q == i + 1real;
        assert(m * (i / q) == m * i / q) by(nonlinear_arith) requires q > 0real;
    }
    assert(0real * (i / (i + 1real)) == 0real) by(nonlinear_arith);
    if i > 0real { assert((s / i) * i == s) by(nonlinear_arith) requires i > 0real; }
    let k = i + 1real;
    assert(s / k + r / k == (s + r) / k) by(nonlinear_arith) requires k > 0real;
    assert(0real * i == 0real) by(nonlinear_arith);
    assert(0real / k == 0real) by(nonlinear_arith) requires k > 0real;
}
@timpl RewardEvaluation for MonteCarloReward
    open spec fn ev_req<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R) -> bool { smp_req(net) && jok(net.nodes()) && rf_ok(net.nodes(), rf) && self.end_time.fin() && crit_ok(self.reward_criteria) }
    open spec fn space_ok<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, m: Map<NetworkProcessState, F64>) -> bool {
        &&& forall|k: NetworkProcessState| #[trigger] m.contains_key(k) == st_ok(net.nodes(), k@)
        &&& forall|k: NetworkProcessState| #[trigger] m.contains_key(k) ==> self.one_ok(net, rf, k@, m[k])
    }
    open spec fn one_req<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, s: Seq<StateType>) -> bool { smp_req(net) && st_ok(net.nodes(), s) && rf_ok(net.nodes(), rf) && self.end_time.fin() && crit_ok(self.reward_criteria) }
    open spec fn one_ok<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, s: Seq<StateType>, v: F64) -> bool {
        exists|rs: RS, m: int| #[trigger] used(*self, net.nodes(), net.adj(), s, rs, m) && v.g@ == Fl::Fin(ret_mean(*self, net.nodes(), net.adj(), rf, s, rs, m))
    }
@fn MonteCarloReward::new(max_iterations, max_err_stop, alpha_stop, end_time, reward_criteria, seed) -> r
@ensures r.max_iterations == max_iterations, r.end_time == end_time, r.reward_criteria == reward_criteria, r.seed == seed, r.alpha_stop == alpha_stop, r.max_err_stop == max_err_stop,
@fn MonteCarloReward::evaluate_state(network_process, reward_function, state) -> r
@start
    hide(step); hide(node_ok); hide(changes_one);
    let ghost mc = *self; let ghost ns = network_process.nodes(); let ghost A = network_process.adj(); let ghost st = state@; let ghost rf = reward_function;
@loop 1
@pre
    let ghost rs0 = sampler.m().rs;
@inv
    k_1 <= end_1, end_1 == mc.max_iterations, sampler.net == network_process, sampler.initial_state == Some(*state), sampler.inv(),
    sampler.m().rs == run_rs(mc, ns, A, st, rs0, k_1 as int), ended(mc, ns, A, st, rs0, k_1 as int), mc.seed is Some ==> rs0 == rs_seed(mc.seed->Some_0),
    expected_value.g@ == Fl::Fin(ret_mean(mc, ns, A, rf, st, rs0, k_1 as int)),
@top
    let ghost gi = k_1 - 1; let ghost rsi = run_rs(mc, ns, A, st, rs0, gi); let ghost s0 = begin(ns, st, rsi);
@post
    proof { assert(used(mc, ns, A, st, rs0, end_1 as int)); }
@loop 2
@pre
    let ghost mut j: int = 0;
    proof { lm_stp(ns, A, rf, s0, 0); assert(stp(ns, A, s0, 0) == s0); }
@inv
    j >= 0, sampler.net == network_process, sampler.initial_state == Some(*state), sampler.inv(), smp_ok(ns, s0),
    sampler.m() == stp(ns, A, s0, j + 1), previous.t.g@ == stp(ns, A, s0, j).t, previous.state@ == stp(ns, A, s0, j).st,
    ret.g@ == Fl::Fin(retk(mc, ns, A, rf, s0, j)), forall|x: int| 0 <= x < j ==> flt((#[trigger] stp(ns, A, s0, x)).t, mc.end_time.g@),
@top
    proof { lm_stp(ns, A, rf, s0, j); }
@bot
    proof { j = j + 1; }
@post
    proof {
        assert(is_run(mc, ns, A, s0, j)); lm_rlen(mc, ns, A, s0, j);
        assert forall|x: int| 0 <= x < gi + 1 implies is_run(mc, ns, A, begin(ns, st, #[trigger] run_rs(mc, ns, A, st, rs0, x)), rlen(mc, ns, A, begin(ns, st, run_rs(mc, ns, A, st, rs0, x)))) by {}
        assert(used(mc, ns, A, st, rs0, gi + 1));
        lm_mean(ret_sum(mc, ns, A, rf, st, rs0, gi), ret_i(mc, ns, A, rf, st, rs0, gi), gi as real);
    }
@raw
pub open spec fn doms(ns: Seq<Params>, v: Seq<Vec<StateType>>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@.len() == card(ns, i) && forall|x: int| 0 <= x < card(ns, i) ==> #[trigger] v[i]@[x] == StateType::Discrete(x as usize)
}
pub open spec fn dom1(v: Seq<StateType>, n: int) -> bool { v.len() == n && forall|x: int| 0 <= x < n ==> #[trigger] v[x] == StateType::Discrete(x as usize) }
pub open spec fn space_done<N: NetworkProcess, R: RewardFunction>(mc: MonteCarloReward, net: &N, rf: &R, out: Seq<(NetworkProcessState, F64)>, n: int) -> bool {
    out.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] out[i]).0@ == jst(net.nodes(), i) && mc.one_ok(net, rf, out[i].0@, out[i].1)
}
pub proof fn lm_stride_le(ns: Seq<Params>, i: int)
    requires jok(ns), 0 <= i < ns.len(),
    ensures stride(ns, all_v(), i) * card(ns, i) == stride(ns, all_v(), i + 1), 0 <= stride(ns, all_v(), i + 1) <= nst(ns), 
{
    let z = Seq::new(ns.len(), |j: int| StateType::Discrete(0usize)); let n = ns.len() as int;
    assert forall|j: int| 0 <= j < n && #[trigger] all_v()(j) implies sv(z, j) < card(ns, j) by { assert(card(ns, j) > 0); }
    lm_stride_mono(ns, all_v(), z, i + 1, n);
}
@fn MonteCarloReward::evaluate_state_space(network_process, reward_function) -> r
@start
    let ghost mc = *self; let ghost ns = network_process.nodes(); let ghost n = ns.len() as int;
@loop 1
@inv
    it_1@.len() == n, doms(ns, out_1@, k_1 as int),
@loop 2
@pre
    let ghost cd = card(ns, k_1 - 1);
@inv
    k_2 <= end_2, end_2 == cd, dom1(out_2@, k_2 as int),
@loop 3
@inv
    it_3@.len() == n, acc_3 == stride(ns, all_v(), k_3 as int),
@top
    proof { lm_stride_le(ns, k_3 - 1); assert(it_3@[k_3 - 1]@.len() == card(ns, k_3 - 1)); }
@loop 4
@inv
    k_4 <= end_4, end_4 == nst(ns), space_done(mc, network_process, reward_function, out_4@, k_4 as int),
@top
    let ghost gs = k_4 - 1;
    proof { lm_joint(ns, gs); }
@post
    proof {
        assert forall|m: HMap<NetworkProcessState, F64>| #[trigger] HMap::from_s(out_4@, m) implies self.space_ok(network_process, reward_function, m@) by {
            assert forall|k: NetworkProcessState| st_ok(ns, k@) implies #[trigger] m@.contains_key(k) by { let x = jix(ns, k@) as int; lm_joint_inv(ns, k@); assert(out_4@[x].0@ == k@); ax_vec_ext(out_4@[x].0, k); }
            assert forall|k: NetworkProcessState| #[trigger] m@.contains_key(k) implies st_ok(ns, k@) && mc.one_ok(network_process, reward_function, k@, m@[k]) by {
                let i = choose|i: int| 0 <= i < out_4@.len() && (#[trigger] out_4@[i]).0 == k && m@[k] == out_4@[i].1; lm_joint(ns, i);
            }
        }
    }
@loop 5
@pre
    let ghost cs = cards(ns);
@inv
    it_5@.len() == n, doms5(ns, it_5@, acc_5.0, acc_5.1@, gs, k_5 as int),
@top
    proof { lm_digit(ns, gs, k_5 - 1); assert(it_5@[k_5 - 1]@.len() == card(ns, k_5 - 1)); assert(it_5@[k_5 - 1]@[dig(cs, gs as nat, k_5 - 1) as int] == StateType::Discrete(dig(cs, gs as nat, k_5 - 1) as usize)); }
@post
    proof { assert(acc_5.1@ =~= jst(ns, gs)); }
@raw
pub open spec fn doms5(ns: Seq<Params>, it: Seq<&Vec<StateType>>, q: usize, o: Seq<StateType>, s: int, k: int) -> bool {
    &&& forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i])@.len() == card(ns, i) && forall|x: int| 0 <= x < card(ns, i) ==> #[trigger] it[i]@[x] == StateType::Discrete(x as usize)
    &&& q == quo(cards(ns), s as nat, k) && o.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] o[i] == jst(ns, s)[i]
}
pub proof fn lm_digit(ns: Seq<Params>, s: int, j: int)
    requires jok(ns), 0 <= j < ns.len(),
    ensures dig(cards(ns), s as nat, j) < card(ns, j), 0 < card(ns, j) <= usize::MAX, quo(cards(ns), s as nat, j + 1) <= quo(cards(ns), s as nat, j),
        quo(cards(ns), s as nat, j + 1) == quo(cards(ns), s as nat, j) as int / card(ns, j) as int, dig(cards(ns), s as nat, j) == quo(cards(ns), s as nat, j) as int % card(ns, j) as int,
{
    lm_dig(ns, s, j); lm_card(ns, j);
    let x = quo(cards(ns), s as nat, j) as int; let k = card(ns, j) as int;
    assert(0 <= x / k <= x && 0 <= x % k) by(nonlinear_arith) requires k > 0, x >= 0;
}
