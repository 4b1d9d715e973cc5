
// ---- totals ----
pub open spec fn nonempty(v: Seq<ScenarioOutcome>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).phase_results@.len() > 0 }
pub open spec fn count_verdict(v: Seq<ScenarioOutcome>, s: SummaryOutcome) -> nat
    decreases v.len()
{ if v.len() == 0 { 0 } else { count_verdict(v.drop_last(), s) + if v.last().scenario is Mutant && verdict(v.last()) == s { 1nat } else { 0 } } }
pub open spec fn count_mutants(v: Seq<ScenarioOutcome>) -> nat
    decreases v.len()
{ if v.len() == 0 { 0 } else { count_mutants(v.drop_last()) + if v.last().scenario is Mutant { 1nat } else { 0 } } }
/// The data structure invariant: every total is the number of recorded outcomes with that verdict.
pub open spec fn lab_ok(l: LabOutcome) -> bool {
    let v = l.outcomes@;
    &&& nonempty(v)
    &&& l.total_mutants == count_mutants(v)
    &&& l.missed == count_verdict(v, SummaryOutcome::MissedMutant)
    &&& l.caught == count_verdict(v, SummaryOutcome::CaughtMutant)
    &&& l.timeout == count_verdict(v, SummaryOutcome::Timeout)
    &&& l.unviable == count_verdict(v, SummaryOutcome::Unviable)
    &&& l.success == count_verdict(v, SummaryOutcome::Success)
}
pub proof fn count_le(v: Seq<ScenarioOutcome>, s: SummaryOutcome)
    ensures count_verdict(v, s) <= count_mutants(v) <= v.len()
    decreases v.len()
{ if v.len() > 0 { count_le(v.drop_last(), s); } }
/// The verdicts partition the mutants: the totals add up, but for mutants that end in "Failure".
pub proof fn partition(v: Seq<ScenarioOutcome>)
    requires nonempty(v),
    ensures count_mutants(v) == count_verdict(v, SummaryOutcome::MissedMutant) + count_verdict(v, SummaryOutcome::CaughtMutant) + count_verdict(v, SummaryOutcome::Timeout)
        + count_verdict(v, SummaryOutcome::Unviable) + count_verdict(v, SummaryOutcome::Success) + count_verdict(v, SummaryOutcome::Failure)
    decreases v.len()
{ if v.len() > 0 { assert(nonempty(v.drop_last())); partition(v.drop_last()); } }
pub proof fn count_pos(v: Seq<ScenarioOutcome>, s: SummaryOutcome)
    ensures count_verdict(v, s) > 0 <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).scenario is Mutant && verdict(v[i]) == s
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last();
        count_pos(w, s);
        if count_verdict(w, s) > 0 {
            let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).scenario is Mutant && verdict(w[i]) == s;
            assert(v[i] == w[i]);
        }
        if v.last().scenario is Mutant && verdict(v.last()) == s { assert(v[v.len() - 1] == v.last()); }
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).scenario is Mutant && verdict(v[i]) == s {
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).scenario is Mutant && verdict(v[i]) == s;
            if i < w.len() { assert(w[i] == v[i]); }
        }
    }
}
//%fn outcome.rs LabOutcome::add
//%spec
    requires lab_ok(*old(self)), outcome.phase_results@.len() > 0, old(self).outcomes@.len() < usize::MAX,
    ensures lab_ok(*final(self)), final(self).outcomes@ == old(self).outcomes@.push(outcome),
//%entry
    proof {
        let v = self.outcomes@;
        count_le(v, SummaryOutcome::MissedMutant); count_le(v, SummaryOutcome::CaughtMutant); count_le(v, SummaryOutcome::Timeout);
        count_le(v, SummaryOutcome::Unviable); count_le(v, SummaryOutcome::Success);
        assert(v.push(outcome).drop_last() == v);
    }
//%end

