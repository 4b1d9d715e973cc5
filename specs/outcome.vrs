use vstd::prelude::*;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_path.vrs
//%include shim_iter.vrs
#[verifier::external_body]
pub struct Mutant { _p: u8 }
#[verifier::external_body]
pub struct Duration { _p: u8 }
//%include outcome_core.vrs
//%if C03
// ---- the exit status of the process ----
#[verifier::external_body]
pub struct ExitStatus { _p: u8 }
impl ExitStatus {
    pub uninterp spec fn s_code(&self) -> Option<i32>;
    pub uninterp spec fn s_signal(&self) -> Option<i32>;
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<i32>) ensures r == self.s_code() { unimplemented!() }
    #[verifier::external_body]
    pub fn signal(&self) -> (r: Option<i32>) ensures r == self.s_signal() { unimplemented!() }
    #[verifier::external_body]
    pub fn success(&self) -> (r: bool) ensures r == (self.s_code() == Some(0i32)) { unimplemented!() }
}
//%fn process/unix.rs <Exit as From<ExitStatus>>::from
//%as from_status
//%spec
    ensures match status.s_code() {
        Some(0) => r == Exit::Success,
        Some(c) => r == Exit::Failure(c),
        None => match status.s_signal() { Some(s) => r == Exit::Signalled(s), None => r == Exit::Other } },
//%end
//%endif
//%if C05,C06
//%include outcome_totals.vrs
//%endif
//%if C06
//%const exit_code.rs SUCCESS
//%const exit_code.rs USAGE
//%const exit_code.rs FOUND_PROBLEMS
//%const exit_code.rs TIMEOUT
//%const exit_code.rs BASELINE_FAILED
//%paths exit_code::BASELINE_FAILED => BASELINE_FAILED
//%paths exit_code::TIMEOUT => TIMEOUT
//%paths exit_code::FOUND_PROBLEMS => FOUND_PROBLEMS
//%paths exit_code::SUCCESS => SUCCESS
pub open spec fn baseline_failed(v: Seq<ScenarioOutcome>) -> bool { exists|i: int| 0 <= i < v.len() && !((#[trigger] v[i]).scenario is Mutant) && v[i].phase_results@.last().process_status != Exit::Success }
pub open spec fn has_mutant(v: Seq<ScenarioOutcome>, s: SummaryOutcome) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).scenario is Mutant && verdict(v[i]) == s }
//%fn outcome.rs LabOutcome::exit_code
//%spec
    requires lab_ok(*self),
    ensures
        r == (if baseline_failed(self.outcomes@) { 4i32 } else if has_mutant(self.outcomes@, SummaryOutcome::Timeout) { 3i32 } else if has_mutant(self.outcomes@, SummaryOutcome::MissedMutant) { 2i32 } else { 0i32 }),
//%closure 0
    |$0: &ScenarioOutcome| -> (b: bool) requires $0.phase_results@.len() > 0 ensures b == (!($0.scenario is Mutant) && $0.phase_results@.last().process_status != Exit::Success)
//%entry
    proof {
        let v = self.outcomes@;
        count_pos(v, SummaryOutcome::Timeout); count_pos(v, SummaryOutcome::MissedMutant);
    }
//%end
//%endif
} // verus!
fn main() {}
