@raw
pub open spec fn reset_p(p: Params) -> Params {
    Params::DiscreteStatesContinousTime(DiscreteStatesContinousTimeParams { label: p.p().label, domain: p.p().domain, cim: None, transitions: None, residence_time: None })
}
/// Cardinality of node i.
pub open spec fn card(ns: Seq<Params>, i: int) -> nat { ns[i].p().card() }
pub open spec fn sv(s: Seq<StateType>, i: int) -> nat { s[i]->Discrete_0 as nat }
/// A state of the whole network, every variable inside its domain.
pub open spec fn st_ok(ns: Seq<Params>, s: Seq<StateType>) -> bool { s.len() == ns.len() && forall|i: int| 0 <= i < ns.len() ==> #[trigger] sv(s, i) < card(ns, i) }
/// Number of configurations of the variables below n selected by P.
pub open spec fn stride(ns: Seq<Params>, P: spec_fn(int) -> bool, n: int) -> nat decreases n {
    if n <= 0 { 1 } else { stride(ns, P, n - 1) * (if P(n - 1) { card(ns, n - 1) } else { 1 }) }
}
/// Mixed-radix number of the states of the variables below n selected by P, lowest-numbered variable least significant.
pub open spec fn pidx(ns: Seq<Params>, P: spec_fn(int) -> bool, s: Seq<StateType>, n: int) -> nat decreases n {
    if n <= 0 { 0 } else { pidx(ns, P, s, n - 1) + (if P(n - 1) { sv(s, n - 1) * stride(ns, P, n - 1) } else { 0 }) }
}
pub type Adj = spec_fn(int, int) -> bool;
pub open spec fn par_of(a: Adj, c: int) -> spec_fn(int) -> bool { |p: int| a(p, c) }
pub open spec fn ch_of(a: Adj, p: int) -> spec_fn(int) -> bool { |c: int| a(p, c) }
pub open spec fn in_set(s: Set<usize>) -> spec_fn(int) -> bool { |p: int| 0 <= p <= usize::MAX && s.contains(p as usize) }
/// Number of parent configurations of node c.
pub open spec fn nconf(ns: Seq<Params>, a: Adj, c: int) -> nat { stride(ns, par_of(a, c), ns.len() as int) }
pub open spec fn below(s: Set<usize>, n: int) -> bool { forall|x: usize| #[trigger] s.contains(x) ==> x < n }
/// s is the set of the nodes p with P(p).
pub open spec fn is_set(s: Set<usize>, P: spec_fn(int) -> bool, n: int) -> bool {
    below(s, n) && forall|x: usize| #![trigger s.contains(x)] x < n ==> s.contains(x) == P(x as int)
}
pub open spec fn P_ok(ns: Seq<Params>, P: spec_fn(int) -> bool, s: Seq<StateType>, n: int) -> bool { forall|i: int| 0 <= i < n && #[trigger] P(i) ==> sv(s, i) < card(ns, i) }

pub proof fn lm_pidx_bound(ns: Seq<Params>, P: spec_fn(int) -> bool, s: Seq<StateType>, n: int)
    requires P_ok(ns, P, s, n),
    ensures pidx(ns, P, s, n) < stride(ns, P, n),
    decreases n,
{
    if n > 0 {
        assert(P_ok(ns, P, s, n - 1));
        lm_pidx_bound(ns, P, s, n - 1);
        if P(n - 1) {
            let a = pidx(ns, P, s, n - 1); let t = stride(ns, P, n - 1); let v = sv(s, n - 1); let k = card(ns, n - 1);
            assert(a + v * t < t * k) by(nonlinear_arith) requires a < t, v < k;
        } else { assert(stride(ns, P, n) == stride(ns, P, n - 1)) by { assert(stride(ns, P, n - 1) * 1 == stride(ns, P, n - 1)); } }
    }
}
pub proof fn lm_skip(ns: Seq<Params>, P: spec_fn(int) -> bool, s: Seq<StateType>, a: int, b: int)
    requires 0 <= a <= b, forall|i: int| a <= i < b ==> !#[trigger] P(i),
    ensures pidx(ns, P, s, b) == pidx(ns, P, s, a), stride(ns, P, b) == stride(ns, P, a),
    decreases b - a,
{
    if a < b {
        lm_skip(ns, P, s, a, b - 1);
        assert(stride(ns, P, b - 1) * 1 == stride(ns, P, b - 1)) by(nonlinear_arith);
    }
}
/// The index depends on the selected variables' states only.
pub proof fn lm_pidx_cong(ns: Seq<Params>, P: spec_fn(int) -> bool, Q: spec_fn(int) -> bool, s: Seq<StateType>, t: Seq<StateType>, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] P(i) == Q(i), forall|i: int| 0 <= i < n && #[trigger] P(i) ==> sv(s, i) == sv(t, i),
    ensures pidx(ns, P, s, n) == pidx(ns, Q, t, n), stride(ns, P, n) == stride(ns, Q, n),
    decreases n,
{
    if n > 0 { assert(P(n - 1) == Q(n - 1)); lm_pidx_cong(ns, P, Q, s, t, n - 1); }
}
/// Two states with the same index agree on all selected variables.
pub proof fn lm_pidx_inj(ns: Seq<Params>, P: spec_fn(int) -> bool, s: Seq<StateType>, t: Seq<StateType>, n: int)
    requires P_ok(ns, P, s, n), P_ok(ns, P, t, n), pidx(ns, P, s, n) == pidx(ns, P, t, n),
    ensures forall|i: int| 0 <= i < n && #[trigger] P(i) ==> sv(s, i) == sv(t, i),
    decreases n,
{
    if n > 0 {
        lm_pidx_bound(ns, P, s, n - 1);
        lm_pidx_bound(ns, P, t, n - 1);
        if P(n - 1) {
            let a = pidx(ns, P, s, n - 1); let b = pidx(ns, P, t, n - 1); let z = stride(ns, P, n - 1); let v = sv(s, n - 1); let w = sv(t, n - 1);
            assert(v == w && a == b) by(nonlinear_arith) requires a < z, b < z, a + v * z == b + w * z;
        }
        lm_pidx_inj(ns, P, s, t, n - 1);
    }
}
pub proof fn lm_stride_mono(ns: Seq<Params>, P: spec_fn(int) -> bool, s: Seq<StateType>, a: int, b: int)
    requires 0 <= a <= b, P_ok(ns, P, s, b),
    ensures 0 < stride(ns, P, a) <= stride(ns, P, b),
    decreases b - a,
{
    assert(P_ok(ns, P, s, a));
    lm_pidx_bound(ns, P, s, a);
    if a < b {
        lm_stride_mono(ns, P, s, a, b - 1);
        let t = stride(ns, P, b - 1); let k = card(ns, b - 1);
        if P(b - 1) { assert(t <= t * k) by(nonlinear_arith) requires k > 0; }
        else { assert(t * 1 == t); }
    }
}
/// Only the cardinalities of the nodes matter.
pub proof fn lm_stride_nodes(ns: Seq<Params>, ms: Seq<Params>, P: spec_fn(int) -> bool, s: Seq<StateType>, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] card(ns, i) == card(ms, i),
    ensures stride(ns, P, n) == stride(ms, P, n), pidx(ns, P, s, n) == pidx(ms, P, s, n),
    decreases n,
{
    if n > 0 { assert(card(ns, n - 1) == card(ms, n - 1)); lm_stride_nodes(ns, ms, P, s, n - 1); }
}
/// Position reached after k members of a sorted set: one past the last member.
pub open spec fn upto(l: Seq<usize>, k: int) -> int { if k <= 0 { 0 } else { l[k - 1] + 1 } }
pub proof fn lm_set_gap(s: Set<usize>, l: Seq<usize>, k: int)
    requires set_order(s, l), 0 <= k <= l.len(),
    ensures
        k < l.len() ==> upto(l, k) <= l[k] && in_set(s)(l[k] as int) && forall|i: int| upto(l, k) <= i < l[k] ==> !#[trigger] in_set(s)(i),
        k == l.len() ==> forall|i: int| upto(l, k) <= i ==> !#[trigger] in_set(s)(i),
{
    if k > 0 && k < l.len() { assert(before(l[k - 1], l[k])); }
    if k < l.len() { assert(s.contains(l[k])); }
    let hi: int = if k < l.len() { l[k] as int } else { usize::MAX + 1 };
    assert forall|i: int| upto(l, k) <= i && (k < l.len() ==> i < l[k]) implies !#[trigger] in_set(s)(i) by {
        if in_set(s)(i) {
            let x = i as usize;
            assert(s.contains(x));
            let j = choose|j: int| 0 <= j < l.len() && l[j] == x;
            if j < k { if j < k - 1 { assert(before(l[j], l[k - 1])); } }
            else if j > k { assert(before(l[k], l[j])); }
        }
    }
}

pub proof fn lm_push<T>(s: Seq<T>, a: T) ensures forall|x: T| #[trigger] s.push(a).contains(x) == (s.contains(x) || x == a) {
    assert forall|x: T| #[trigger] s.push(a).contains(x) == (s.contains(x) || x == a) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(a)[i] == x); }
        if x == a { assert(s.push(a)[s.len() as int] == x); }
    }
}
pub proof fn lm_to_set<T>(s: Seq<T>) ensures forall|x: T| #[trigger] s.to_set().contains(x) == s.contains(x) { broadcast use vstd::seq_lib::group_seq_properties; }
pub proof fn lm_upto(s: Set<usize>, l: Seq<usize>, n: int, k: int)
    requires set_order(s, l), below(s, n), 0 <= k <= l.len(), 0 <= n,
    ensures 0 <= upto(l, k) <= n,
{
    if k > 0 { assert(s.contains(l[k - 1])); }
}
/// One step of the index computation stays within the range of the machine integers.
pub proof fn lm_step(ns: Seq<Params>, P: spec_fn(int) -> bool, s: Seq<StateType>, i: int, n: int)
    requires 0 <= i < n, P_ok(ns, P, s, n), stride(ns, P, n) <= usize::MAX,
    ensures
        pidx(ns, P, s, i) < stride(ns, P, i) <= usize::MAX,
        P(i) ==> pidx(ns, P, s, i + 1) == pidx(ns, P, s, i) + sv(s, i) * stride(ns, P, i) && stride(ns, P, i + 1) == stride(ns, P, i) * card(ns, i),
        P(i) ==> 0 <= sv(s, i) * stride(ns, P, i) <= usize::MAX && pidx(ns, P, s, i + 1) <= usize::MAX && stride(ns, P, i) * card(ns, i) <= usize::MAX,
        !P(i) ==> pidx(ns, P, s, i + 1) == pidx(ns, P, s, i) && stride(ns, P, i + 1) == stride(ns, P, i),
{
    assert(P_ok(ns, P, s, i)); assert(P_ok(ns, P, s, i + 1));
    lm_pidx_bound(ns, P, s, i); lm_pidx_bound(ns, P, s, i + 1);
    lm_stride_mono(ns, P, s, i, n); lm_stride_mono(ns, P, s, i + 1, n);
    if P(i) { assert(0 <= sv(s, i) * stride(ns, P, i)) by(nonlinear_arith); }
    else { assert(stride(ns, P, i) * 1 == stride(ns, P, i)); }
}

@trait NetworkProcess
    spec fn nodes(&self) -> Seq<Params>;
    spec fn ready(&self) -> bool;
    spec fn adj(&self) -> Adj;
    spec fn multi(&self) -> bool;
    spec fn wf(&self) -> bool;
@fn NetworkProcess::initialize_adj_matrix()
@requires old(self).wf(), old(self).multi(),
@ensures
    final(self).wf(), final(self).multi(), final(self).ready(), final(self).nodes() == old(self).nodes(),
    forall|p: int, c: int| !#[trigger] final(self).adj()(p, c),
@fn NetworkProcess::add_node(n) -> r
@requires old(self).wf(), old(self).nodes().len() < usize::MAX,
@ensures
    final(self).wf(), final(self).multi() == old(self).multi(),
    old(self).multi() ==> r is Ok && r->Ok_0 == old(self).nodes().len() && final(self).nodes() == old(self).nodes().push(reset_p(n)) && !final(self).ready(),
    !old(self).multi() && old(self).nodes().len() == 0 ==> r is Ok && r->Ok_0 == 0 && final(self).nodes() == seq![n],
    !old(self).multi() && old(self).nodes().len() > 0 ==> r is Err && *final(self) == *old(self),
@fn NetworkProcess::add_edge(parent, child)
@requires old(self).wf(), old(self).multi(), parent < old(self).nodes().len(), child < old(self).nodes().len(),
@ensures
    final(self).wf(), final(self).multi(), final(self).ready(),
    final(self).nodes() == old(self).nodes().update(child as int, reset_p(old(self).nodes()[child as int])),
    forall|p: int, c: int| #[trigger] final(self).adj()(p, c) == ((p == parent && c == child) || (old(self).ready() && old(self).adj()(p, c))),
@fn NetworkProcess::get_node_indices() -> r
@requires self.wf(),
@ensures r.start == 0, r.end == self.nodes().len(),
@fn NetworkProcess::get_number_of_nodes() -> r
@requires self.wf(),
@ensures r == self.nodes().len(),
@fn NetworkProcess::get_node(node_idx) -> r
@requires self.wf(), node_idx < self.nodes().len(),
@ensures *r == self.nodes()[node_idx as int],
@fn NetworkProcess::get_node_mut(node_idx) -> r
@requires old(self).wf(), node_idx < old(self).nodes().len(),
@ensures
    *r == old(self).nodes()[node_idx as int],
    final(self).nodes() == old(self).nodes().update(node_idx as int, *final(r)),
    final(self).wf(), final(self).multi() == old(self).multi(), final(self).ready() == old(self).ready(),
    forall|p: int, c: int| #[trigger] final(self).adj()(p, c) == old(self).adj()(p, c),
@fn NetworkProcess::get_param_index_network(node, current_state) -> r
@requires
    self.wf(), self.ready(), node < self.nodes().len(), st_ok(self.nodes(), current_state@),
    self.multi() ==> nconf(self.nodes(), self.adj(), node as int) <= usize::MAX,
@ensures
    self.multi() ==> r == pidx(self.nodes(), par_of(self.adj(), node as int), current_state@, self.nodes().len() as int) && r < nconf(self.nodes(), self.adj(), node as int),
@fn NetworkProcess::get_param_index_from_custom_parent_set(current_state, parent_set) -> r
@requires
    self.wf(), self.multi(), below(parent_set@, self.nodes().len() as int), st_ok(self.nodes(), current_state@),
    stride(self.nodes(), in_set(parent_set@), self.nodes().len() as int) <= usize::MAX,
@ensures
    r == pidx(self.nodes(), in_set(parent_set@), current_state@, self.nodes().len() as int),
    r < stride(self.nodes(), in_set(parent_set@), self.nodes().len() as int),
@fn NetworkProcess::get_parent_set(node) -> r
@requires self.wf(), self.ready(), node < self.nodes().len(),
@ensures is_set(r@, par_of(self.adj(), node as int), self.nodes().len() as int),
@fn NetworkProcess::get_children_set(node) -> r
@requires self.wf(), self.ready(), node < self.nodes().len(),
@ensures is_set(r@, ch_of(self.adj(), node as int), self.nodes().len() as int),

@timpl NetworkProcess for CtbnNetwork
    open spec fn nodes(&self) -> Seq<Params> { self.nodes@ }
    open spec fn ready(&self) -> bool { self.adj_matrix is Some }
    open spec fn adj(&self) -> Adj { |p: int, c: int| self.adj_matrix is Some && 0 <= p < self.nodes@.len() && 0 <= c < self.nodes@.len() && self.adj_matrix->Some_0.at(p, c) > 0 }
    open spec fn multi(&self) -> bool { true }
    open spec fn wf(&self) -> bool { self.adj_matrix is Some ==> self.adj_matrix->Some_0.d0() == self.nodes@.len() && self.adj_matrix->Some_0.d1() == self.nodes@.len() }
@timpl NetworkProcess for CtmpProcess
    open spec fn nodes(&self) -> Seq<Params> { if self.param is Some { seq![self.param->Some_0] } else { Seq::empty() } }
    open spec fn ready(&self) -> bool { true }
    open spec fn adj(&self) -> Adj { |p: int, c: int| false }
    open spec fn multi(&self) -> bool { false }
    open spec fn wf(&self) -> bool { true }

@fn CtbnNetwork::new() -> r
@ensures r.wf(), r.nodes().len() == 0, !r.ready(),
@fn CtbnNetwork::get_adj_matrix() -> r
@ensures
    self.adj_matrix is None ==> r is None,
    self.adj_matrix is Some ==> r is Some && *r->Some_0 == self.adj_matrix->Some_0,
@fn CtbnNetwork::initialize_adj_matrix()
@ensures
    final(self).adj_matrix is Some,
    forall|p: int, c: int| 0 <= p < final(self).nodes@.len() && 0 <= c < final(self).nodes@.len() ==> #[trigger] final(self).adj_matrix->Some_0.at(p, c) == 0,
@fn CtbnNetwork::add_node()
@fn CtbnNetwork::add_edge()
@fn CtbnNetwork::get_node_indices()
@fn CtbnNetwork::get_number_of_nodes()
@fn CtbnNetwork::get_node()
@fn CtbnNetwork::get_node_mut()
@fn CtbnNetwork::get_param_index_network()
@loop 1
@pre
    let ghost ns = self.nodes(); let ghost st = current_state@; let ghost P = par_of(self.adj(), node as int); let ghost n = ns.len() as int;
    proof { assert(P_ok(ns, P, st, n)); }
@inv
    ns == self.nodes@, st == current_state@, n == ns.len(), st_ok(ns, st), P == par_of(self.adj(), node as int), P_ok(ns, P, st, n), stride(ns, P, n) <= usize::MAX,
    acc_1.0 == pidx(ns, P, st, k_1 as int), acc_1.1 == stride(ns, P, k_1 as int),
@top
    proof { lm_step(ns, P, st, k_1 - 1, n); assert(P(k_1 - 1) == (*e_1 > 0)); }
@post
    proof { lm_pidx_bound(ns, P, st, n); }
@fn CtbnNetwork::get_param_index_from_custom_parent_set()
@loop 1
@pre
    let ghost ns = self.nodes(); let ghost st = current_state@; let ghost P = in_set(parent_set@); let ghost n = ns.len() as int; let ghost l = derefs(it_1@);
    proof { assert(P_ok(ns, P, st, n)); lm_set_gap(parent_set@, l, 0); lm_upto(parent_set@, l, n, 0); lm_skip(ns, P, st, 0, upto(l, 0)); }
@inv
    ns == self.nodes@, st == current_state@, n == ns.len(), l == derefs(it_1@), set_order(parent_set@, l), st_ok(ns, st), P == in_set(parent_set@), P_ok(ns, P, st, n), stride(ns, P, n) <= usize::MAX,
    acc_1.0 == pidx(ns, P, st, upto(l, k_1 as int)), acc_1.1 == stride(ns, P, upto(l, k_1 as int)),
@top
    proof {
        let i = *e_1 as int; let g = upto(l, k_1 - 1);
        assert(l[k_1 - 1] == *e_1);
        assert(parent_set@.contains(*e_1));
        lm_set_gap(parent_set@, l, k_1 - 1); lm_upto(parent_set@, l, n, k_1 - 1); lm_skip(ns, P, st, g, i);
        lm_step(ns, P, st, i, n);
    }
@post
    proof { lm_set_gap(parent_set@, l, k_1 as int); lm_upto(parent_set@, l, n, k_1 as int); lm_skip(ns, P, st, upto(l, k_1 as int), n); lm_pidx_bound(ns, P, st, n); }
@fn CtbnNetwork::get_parent_set()
@loop 1
@inv
    forall|x: usize| #![trigger out_1@.contains(x)] #![trigger it_1@[x as int]] out_1@.contains(x) <==> x < k_1 && *it_1@[x as int] > 0,
@top
    let ghost o = out_1@;
    proof { lm_push(o, (k_1 - 1) as usize); }
@post
    proof { lm_to_set(out_1@); }
@fn CtbnNetwork::get_children_set()
@loop 1
@inv
    forall|x: usize| #![trigger out_1@.contains(x)] #![trigger it_1@[x as int]] out_1@.contains(x) <==> x < k_1 && *it_1@[x as int] > 0,
@top
    let ghost o = out_1@;
    proof { lm_push(o, (k_1 - 1) as usize); }
@post
    proof { lm_to_set(out_1@); }
@fn CtmpProcess::new() -> r
@ensures r.nodes().len() == 0, r.param is None,
