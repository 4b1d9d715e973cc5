use vstd::prelude::*;
use std::sync::Arc;
verus! {
//%include shim_core.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
// ---- durations and floating point: the operations are named, not interpreted ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: u8 }
impl Duration { pub uninterp spec fn nanos(self) -> nat; }
#[verifier::external_body]
pub struct VF { _p: f64 }
pub uninterp spec fn s_secs(d: Duration) -> VF;
pub uninterp spec fn s_times(a: VF, b: f64) -> VF;
pub uninterp spec fn s_ceil(a: VF) -> VF;
pub uninterp spec fn s_from(a: VF) -> Duration;
pub uninterp spec fn s_whole(s: u64) -> Duration;
impl core::ops::Mul<f64> for VF { type Output = VF;
    #[verifier::external_body]
    fn mul(self, b: f64) -> VF { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<f64> for VF {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, b: f64) -> bool { true }
    open spec fn mul_spec(self, b: f64) -> VF { s_times(self, b) }
}
impl VF {
    #[verifier::external_body]
    pub fn ceil(self) -> (r: VF) ensures r == s_ceil(self) { unimplemented!() }
}
impl Duration {
    #[verifier::external_body]
    pub fn v_secs(&self) -> (r: VF) ensures r == s_secs(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs_f64(a: VF) -> (r: Duration) ensures r == s_from(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(a: u64) -> (r: Duration) ensures r == s_whole(a) { unimplemented!() }
}
#[verifier::external_body]
pub fn max(a: Duration, b: Duration) -> (r: Duration) ensures r == s_max(a, b) { unimplemented!() }
/// std::cmp::max
pub open spec fn s_max(a: Duration, b: Duration) -> Duration { if a.nanos() > b.nanos() { a } else { b } }
//%methods as_secs_f64=v_secs
#[verifier::external_body]
pub struct Function { _p: u8 }
//%type package.rs Package
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Mutant
//%trust unit outcome (check C03)
//%include outcome_core.vrs
//%trust off
//%type timeouts.rs Timeouts derive(Clone, Copy)
//%type options.rs Options keep=test_timeout,build_timeout,minimum_test_timeout,test_timeout_multiplier,build_timeout_multiplier,show_times,check_only
//%const timeouts.rs FALLBACK_TIMEOUT_SECS
pub fn warn_fallback_timeout(a: &str, b: &str) {}
// ---- C14 ----
pub open spec fn test_limit(base: Option<Duration>, o: Options) -> Duration {
    match o.test_timeout { Some(t) => t, None => match base {
        Some(d) => s_max(o.minimum_test_timeout, s_from(s_ceil(s_times(s_secs(d), match o.test_timeout_multiplier { Some(m) => m, None => 5.0f64 })))),
        None => if o.check_only { s_whole(0) } else { s_whole(300) } } }
}
pub open spec fn build_limit(base: Option<Duration>, o: Options) -> Option<Duration> {
    match o.build_timeout { Some(t) => Some(t), None => match (base, o.build_timeout_multiplier) {
        (Some(d), Some(m)) => Some(s_from(s_times(s_secs(d), m))), _ => None } }
}
//%fn timeouts.rs test_timeout
//%spec
    ensures r == test_limit(baseline_duration, *options),
//%end
//%fn timeouts.rs build_timeout
//%spec
    ensures r == build_limit(baseline_duration, *options),
//%end
/// a duration the baseline has for this phase, or none if it has no such phase
pub open spec fn dur_ok(o: ScenarioOutcome, p: Phase, d: Option<Duration>) -> bool {
    match d { Some(x) => exists|r: PhaseResult| #[trigger] o.phase_results@.contains(r) && r.phase == p && r.duration == x, None => forall|i: int| 0 <= i < o.phase_results@.len() ==> (#[trigger] o.phase_results@[i]).phase != p }
}
//%fn timeouts.rs Timeouts::for_baseline
//%spec
    ensures r.test == options.test_timeout, r.build.is_none(),
//%end
//%fn timeouts.rs Timeouts::from_baseline
//%methods map=map
//%spec
    ensures
        exists|d: Option<Duration>| dur_ok(*baseline, Phase::Test, d) && r.test == Some(#[trigger] test_limit(d, *options)),
        exists|d: Option<Duration>| dur_ok(*baseline, Phase::Build, d) && r.build == #[trigger] build_limit(d, *options),
//%closure 0
    |$0: &PhaseResult| -> (d: Duration) ensures d == $0.duration
//%closure 1
    |$0: &PhaseResult| -> (d: Duration) ensures d == $0.duration
//%end
//%fn timeouts.rs Timeouts::without_baseline
//%spec
    ensures r.test == Some(test_limit(None, *options)), r.build == build_limit(None, *options),
//%end
} // verus!
fn main() {}
