@raw
/// Every stored entry is what the learning method returns for its own key.
pub open spec fn entries_ok<P: ParameterLearning>(pl: &P, m: Map<Option<BTreeSet<usize>>, Params>, ns: Seq<Params>, ds: &Dataset, node: int) -> bool {
    forall|k: Option<BTreeSet<usize>>| #[trigger] m.contains_key(k) ==> k is Some && m[k] == pl.fit_s(ns, k->Some_0@, ds, node) && fit_shape(ns, k->Some_0@, node, m[k])
}
impl<'a, P: ParameterLearning> Cache<'a, P> {
    /// The cache holds results of one network, dataset and node only.
    pub open spec fn good(&self, ns: Seq<Params>, ds: &Dataset, node: int) -> bool {
        &&& entries_ok(self.parameter_learning, self.cache_persistent_small@, ns, ds, node)
        &&& entries_ok(self.parameter_learning, self.cache_persistent_big@, ns, ds, node)
        &&& self.parent_set_size_small < usize::MAX
    }
}
@fn Cache::new(parameter_learning) -> r
@ensures
    r.parameter_learning == parameter_learning, forall|ns: Seq<Params>, ds: &Dataset, node: int| #[trigger] r.good(ns, ds, node),
@fn Cache::fit(net, dataset, node, parent_set) -> r
@requires
    parent_set is Some, fit_ok(net, dataset, node, parent_set), old(self).good(net.nodes(), dataset, node as int),
@ensures
    r == old(self).parameter_learning.fit_s(net.nodes(), parent_set->Some_0@, dataset, node as int),
    fit_shape(net.nodes(), parent_set->Some_0@, node as int, r),
    final(self).good(net.nodes(), dataset, node as int), final(self).parameter_learning == old(self).parameter_learning,
