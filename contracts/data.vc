@raw
/// The states in row i of an event table.
pub open spec fn row_st(ev: Array2<usize>, i: int) -> Seq<StateType> { Seq::new(ev.d1(), |j: int| StateType::Discrete(ev.at(i, j))) }
pub open spec fn tr_ok(ns: Seq<Params>, tr: Trajectory) -> bool {
    &&& tr.time.d0() >= 1 && tr.events.d0() == tr.time.d0() && tr.events.d1() == ns.len()
    &&& forall|i: int, j: int| 0 <= i < tr.events.d0() && 0 <= j < ns.len() ==> #[trigger] tr.events.at(i, j) < card(ns, j)
    &&& forall|i: int| 0 <= i < tr.time.d0() ==> (#[trigger] tr.time.at(i)).fin()
}
/// Number of rows of the first m trajectories.
pub open spec fn rows(trs: Seq<Trajectory>, m: int) -> nat decreases m { if m <= 0 { 0 } else { rows(trs, m - 1) + trs[m - 1].time.d0() } }
pub open spec fn ds_ok(ns: Seq<Params>, ds: &Dataset) -> bool {
    &&& forall|i: int| 0 <= i < ds.trajectories@.len() ==> tr_ok(ns, #[trigger] ds.trajectories@[i])
    &&& rows(ds.trajectories@, ds.trajectories@.len() as int) <= usize::MAX
}
pub open spec fn same_width(trs: Seq<Trajectory>) -> bool { forall|i: int| 0 <= i < trs.len() ==> (#[trigger] trs[i]).events.d1() == trs[0].events.d1() }
@fn Trajectory::new(time, events) -> r
@ensures
    time.d0() == events.d0(), r.time == time, r.events == events,
@panics time.d0() != events.d0()
@fn Trajectory::get_time() -> r
@ensures *r == self.time,
@fn Trajectory::get_events() -> r
@ensures *r == self.events,
@fn Dataset::new(trajectories) -> r
@ensures
    same_width(trajectories@), r.trajectories == trajectories,
@panics !same_width(trajectories@)
@loop 1
@inv
    res_1 ==> !same_width(trajectories@),
    !res_1 ==> forall|i: int| 0 <= i < k_1 ==> (#[trigger] trajectories@[i]).events.d1() == trajectories@[0].events.d1(),
@fn Dataset::get_trajectories() -> r
@ensures *r == self.trajectories,
