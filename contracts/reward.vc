@raw
/// Number of positions below n at which two states differ.
pub open spec fn ndiff(a: Seq<StateType>, b: Seq<StateType>, n: int) -> nat decreases n { if n <= 0 { 0 } else { ndiff(a, b, n - 1) + if sv(a, n - 1) == sv(b, n - 1) { 0nat } else { 1 } } }
/// Two states of the same length that differ in at most one variable.
pub open spec fn one_step(a: Seq<StateType>, b: Seq<StateType>) -> bool {
    a.len() == b.len() && forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] sv(a, i) != sv(b, i) && #[trigger] sv(a, j) != sv(b, j) ==> i == j
}
pub open spec fn differ_at(a: Seq<StateType>, b: Seq<StateType>, i: int) -> bool { 0 <= i < a.len() && sv(a, i) != sv(b, i) }
@trait RewardFunction
    spec fn call_ok(&self, s: Seq<StateType>) -> bool;
    spec fn inst_s(&self, s: Seq<StateType>) -> Fl;
    spec fn tran_s(&self, p: Seq<StateType>, c: Seq<StateType>) -> Fl;
    spec fn init_s(ns: Seq<Params>, r: Self) -> bool;
@fn RewardFunction::call(current_state, previous_state) -> r
@requires
    self.call_ok(current_state@), previous_state is Some ==> self.call_ok(previous_state->Some_0@) && one_step(previous_state->Some_0@, current_state@),
@ensures
    r.instantaneous_reward.g@ == self.inst_s(current_state@),
    r.transition_reward.g@ == (if previous_state is Some { self.tran_s(previous_state->Some_0@, current_state@) } else { Fl::Fin(0real) }),
@fn RewardFunction::initialize_from_network_process(p) -> r
@requires p.wf(),
@ensures Self::init_s(p.nodes(), r),
@timpl RewardFunction for FactoredRewardFunction
    open spec fn call_ok(&self, s: Seq<StateType>) -> bool {
        &&& s.len() <= self.instantaneous_reward@.len() && s.len() <= self.transition_reward@.len()
        &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] sv(s, i) < self.instantaneous_reward@[i].d0() && sv(s, i) < self.transition_reward@[i].d0() && sv(s, i) < self.transition_reward@[i].d1()
    }
    open spec fn inst_s(&self, s: Seq<StateType>) -> Fl { inst_sum(self.instantaneous_reward@, s, s.len() as int) }
    open spec fn tran_s(&self, p: Seq<StateType>, c: Seq<StateType>) -> Fl {
        if exists|i: int| #[trigger] differ_at(p, c, i) { let i = choose|i: int| #[trigger] differ_at(p, c, i); self.transition_reward@[i].at(sv(p, i) as int, sv(c, i) as int).g@ } else { Fl::Fin(0real) }
    }
    open spec fn init_s(ns: Seq<Params>, r: FactoredRewardFunction) -> bool {
        &&& r.instantaneous_reward@.len() == ns.len() && r.transition_reward@.len() == ns.len()
        &&& forall|i: int| 0 <= i < ns.len() ==> zero1(card(ns, i), #[trigger] r.instantaneous_reward@[i])
        &&& forall|i: int| 0 <= i < ns.len() ==> zero2(card(ns, i), #[trigger] r.transition_reward@[i])
    }
@raw
/// Sum over the first n variables of the reward assigned to their values.
pub open spec fn inst_sum(t: Seq<Array1<F64>>, s: Seq<StateType>, n: int) -> Fl decreases n { if n <= 0 { Fl::Fin(0real) } else { fadd(inst_sum(t, s, n - 1), t[n - 1].at(sv(s, n - 1) as int).g@) } }
pub open spec fn zero1(k: nat, a: Array1<F64>) -> bool { a.d0() == k && forall|x: int| 0 <= x < k ==> (#[trigger] a.at(x)).g@ == Fl::Fin(0real) }
pub open spec fn zero2(k: nat, a: Array2<F64>) -> bool { a.d0() == k && a.d1() == k && forall|x: int, y: int| 0 <= x < k && 0 <= y < k ==> (#[trigger] a.at(x, y)).g@ == Fl::Fin(0real) }
@fn FactoredRewardFunction::get_transition_reward(node_idx) -> r
@requires node_idx < self.transition_reward@.len(),
@ensures *r == self.transition_reward@[node_idx as int],
@fn FactoredRewardFunction::get_transition_reward_mut(node_idx) -> r
@requires node_idx < old(self).transition_reward@.len(),
@ensures *r == old(self).transition_reward@[node_idx as int], final(self).transition_reward@ == old(self).transition_reward@.update(node_idx as int, *final(r)), final(self).instantaneous_reward == old(self).instantaneous_reward,
@fn FactoredRewardFunction::get_instantaneous_reward(node_idx) -> r
@requires node_idx < self.instantaneous_reward@.len(),
@ensures *r == self.instantaneous_reward@[node_idx as int],
@fn FactoredRewardFunction::get_instantaneous_reward_mut(node_idx) -> r
@requires node_idx < old(self).instantaneous_reward@.len(),
@ensures *r == old(self).instantaneous_reward@[node_idx as int], final(self).instantaneous_reward@ == old(self).instantaneous_reward@.update(node_idx as int, *final(r)), final(self).transition_reward == old(self).transition_reward,
@fn FactoredRewardFunction::call(current_state, previous_state) -> r
@start
    let ghost cs = current_state@; let ghost tt = self.transition_reward@;
@loop 1
@inv
    acc_1.g@ == inst_sum(self.instantaneous_reward@, cs, k_1 as int),
@top
    proof { assert(sv(cs, k_1 - 1) < self.instantaneous_reward@[k_1 - 1].d0()); }
@loop 2
@pre
    let ghost ps = previous_state@;
@inv
    res_2 is None ==> forall|i: int| 0 <= i < k_2 ==> !#[trigger] differ_at(ps, cs, i),
    res_2 is Some ==> k_2 > 0 && differ_at(ps, cs, k_2 - 1) && res_2->Some_0 == tt[k_2 - 1].at(sv(ps, k_2 - 1) as int, sv(cs, k_2 - 1) as int),
@top
    proof { assert(sv(cs, k_2 - 1) < tt[k_2 - 1].d1()); assert(sv(ps, k_2 - 1) < tt[k_2 - 1].d0()); }
@post
    proof {
        assert forall|i: int| res_2 is Some && #[trigger] differ_at(ps, cs, i) implies i == k_2 - 1 by { assert(sv(ps, i) != sv(cs, i)); assert(sv(ps, k_2 - 1) != sv(cs, k_2 - 1)); }
    }
@fn FactoredRewardFunction::initialize_from_network_process(p) -> r
@loop 1
@inv
    instantaneous_reward@.len() == k_1, transition_reward@.len() == k_1, it_1@.len() == p.nodes().len(),
    forall|i: int| 0 <= i < k_1 ==> zero1(card(p.nodes(), i), #[trigger] instantaneous_reward@[i]),
    forall|i: int| 0 <= i < k_1 ==> zero2(card(p.nodes(), i), #[trigger] transition_reward@[i]),

@trait RewardEvaluation
    spec fn ev_req<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R) -> bool;
    spec fn space_ok<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, m: Map<NetworkProcessState, F64>) -> bool;
    spec fn one_req<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, s: Seq<StateType>) -> bool;
    spec fn one_ok<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, s: Seq<StateType>, v: F64) -> bool;
@fn RewardEvaluation::evaluate_state_space(network_process, reward_function) -> r
@requires self.ev_req(network_process, reward_function),
@ensures self.space_ok(network_process, reward_function, r@),
@fn RewardEvaluation::evaluate_state(network_process, reward_function, state) -> r
@requires self.one_req(network_process, reward_function, state@),
@ensures self.one_ok(network_process, reward_function, state@, r),
@raw
/// k2 differs from k1 in fewer than two positions.
pub open spec fn near(k1: NetworkProcessState, k2: NetworkProcessState) -> bool { ndiff(k1@, k2@, if k1@.len() <= k2@.len() { k1@.len() as int } else { k2@.len() as int }) < 2 }
/// v is the largest of 1 and the ratios of k's value to those of its neighbours among the keys P (undefined ratios are ignored).
pub open spec fn is_nrr(m: Map<NetworkProcessState, F64>, P: spec_fn(NetworkProcessState) -> bool, k: NetworkProcessState, v: Fl) -> bool {
    &&& fle(Fl::Fin(1real), v)
    &&& forall|k2: NetworkProcessState| #[trigger] m.contains_key(k2) && P(k2) && near(k, k2) && !(fdiv(m[k].g@, m[k2].g@) is NaN) ==> fle(fdiv(m[k].g@, m[k2].g@), v)
    &&& v == Fl::Fin(1real) || exists|k2: NetworkProcessState| #[trigger] m.contains_key(k2) && P(k2) && near(k, k2) && v == fdiv(m[k].g@, m[k2].g@)
}
pub open spec fn nrr_map(m: Map<NetworkProcessState, F64>, r: Map<NetworkProcessState, F64>) -> bool {
    &&& forall|k: NetworkProcessState| #[trigger] r.contains_key(k) == m.contains_key(k)
    &&& forall|k: NetworkProcessState| #[trigger] r.contains_key(k) ==> is_nrr(m, |k2: NetworkProcessState| true, k, r[k].g@)
}
pub open spec fn seen(it: Seq<(&NetworkProcessState, &F64)>, n: int) -> spec_fn(NetworkProcessState) -> bool { |k: NetworkProcessState| exists|i: int| 0 <= i < n && *(#[trigger] it[i]).0 == k }
pub proof fn lm_nrr_step(m: Map<NetworkProcessState, F64>, it: Seq<(&NetworkProcessState, &F64)>, n: int, k: NetworkProcessState, v0: Fl, v: Fl)
    requires 0 < n <= it.len(), is_nrr(m, seen(it, n - 1), k, v0), m.contains_key(*it[n - 1].0), m[*it[n - 1].0] == *it[n - 1].1,
        v == (if near(k, *it[n - 1].0) { fmax(v0, fdiv(m[k].g@, it[n - 1].1.g@)) } else { v0 }),
    ensures is_nrr(m, seen(it, n), k, v),
{
    let kn = *it[n - 1].0; let P = seen(it, n - 1); let Q = seen(it, n);
    assert(Q(kn)) by { assert(*it[n - 1].0 == kn); }
    assert forall|x: NetworkProcessState| #[trigger] P(x) implies Q(x) by { let i = choose|i: int| 0 <= i < n - 1 && *(#[trigger] it[i]).0 == x; assert(0 <= i < n && *it[i].0 == x); }
    assert forall|x: NetworkProcessState| #[trigger] Q(x) && x != kn implies P(x) by { let i = choose|i: int| 0 <= i < n && *(#[trigger] it[i]).0 == x; assert(0 <= i < n - 1 && *it[i].0 == x); }
    assert forall|k2: NetworkProcessState| #[trigger] m.contains_key(k2) && Q(k2) && near(k, k2) && !(fdiv(m[k].g@, m[k2].g@) is NaN) implies fle(fdiv(m[k].g@, m[k2].g@), v) by { if k2 != kn { assert(P(k2)); } }
    if v != Fl::Fin(1real) {
        if v == v0 { let k2 = choose|k2: NetworkProcessState| #[trigger] m.contains_key(k2) && P(k2) && near(k, k2) && v0 == fdiv(m[k].g@, m[k2].g@); assert(m.contains_key(k2) && Q(k2)); }
        else { assert(m.contains_key(kn) && Q(kn) && near(k, kn)); }
    }
}
pub proof fn lm_nrr_all(m: Map<NetworkProcessState, F64>, P: spec_fn(NetworkProcessState) -> bool, k: NetworkProcessState, v: Fl)
    requires is_nrr(m, P, k, v), forall|x: NetworkProcessState| #[trigger] m.contains_key(x) ==> P(x),
    ensures is_nrr(m, |k2: NetworkProcessState| true, k, v),
{
    if v != Fl::Fin(1real) { let k2 = choose|k2: NetworkProcessState| #[trigger] m.contains_key(k2) && P(k2) && near(k, k2) && v == fdiv(m[k].g@, m[k2].g@); assert(m.contains_key(k2) && near(k, k2)); }
}
pub open spec fn nrr_done(m: Map<NetworkProcessState, F64>, it: Seq<(&NetworkProcessState, &F64)>, out: Seq<(NetworkProcessState, F64)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] out[i]).0 == *it[i].0 && is_nrr(m, |k2: NetworkProcessState| true, out[i].0, out[i].1.g@)
}
@timpl RewardEvaluation for NeighborhoodRelativeReward
    open spec fn ev_req<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R) -> bool { self.inner_reward.ev_req(net, rf) }
    open spec fn space_ok<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, m: Map<NetworkProcessState, F64>) -> bool {
        exists|a: Map<NetworkProcessState, F64>| #[trigger] self.inner_reward.space_ok(net, rf, a) && nrr_map(a, m)
    }
    open spec fn one_req<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, s: Seq<StateType>) -> bool { false }
    open spec fn one_ok<N: NetworkProcess, R: RewardFunction>(&self, net: &N, rf: &R, s: Seq<StateType>, v: F64) -> bool { true }
@fn NeighborhoodRelativeReward::new(inner_reward) -> r
@ensures r.inner_reward == inner_reward,
@fn NeighborhoodRelativeReward::evaluate_state(network_process, reward_function, state) -> r
@panics true
@fn NeighborhoodRelativeReward::evaluate_state_space(network_process, reward_function) -> r
@loop 1
@pre
    let ghost A = absolute_reward@;
@inv
    nrr_done(A, it_1@, out_1@, k_1 as int),
@post
    proof {
        assert forall|m: HMap<NetworkProcessState, F64>| #[trigger] HMap::from_s(out_1@, m) implies nrr_map(A, m@) by {
            assert forall|k: NetworkProcessState| #[trigger] A.contains_key(k) implies m@.contains_key(k) by { let i = choose|i: int| 0 <= i < it_1@.len() && *(#[trigger] it_1@[i]).0 == k; assert(out_1@[i].0 == k); }
            assert forall|k: NetworkProcessState| #[trigger] m@.contains_key(k) implies A.contains_key(k) && is_nrr(A, |k2: NetworkProcessState| true, k, m@[k].g@) by {
                let i = choose|i: int| 0 <= i < out_1@.len() && (#[trigger] out_1@[i]).0 == k && m@[k] == out_1@[i].1; assert(out_1@[i].0 == *it_1@[i].0);
            }
        }
        assert(self.inner_reward.space_ok(network_process, reward_function, A));
    }
@loop 2
@pre
    let ghost key = *e_1.0;
    proof { assert(A[key] == *e_1.1); }
@inv
    is_nrr(A, seen(it_2@, k_2 as int), *k1, max_val.g@),
@top
    let ghost m0 = max_val.g@;
@bot
    proof { lm_nrr_step(A, it_2@, k_2 as int, *k1, m0, max_val.g@); }
@post
    proof { assert forall|x: NetworkProcessState| #[trigger] A.contains_key(x) implies seen(it_2@, k_2 as int)(x) by {} lm_nrr_all(A, seen(it_2@, k_2 as int), *k1, max_val.g@); }
@loop 3
@inv
    acc_3 == ndiff(k1@, k2@, k_3 as int), acc_3 <= k_3,
