//%type outcome.rs Phase derive(PartialEq, Eq, Structural, Clone, Copy)
//%type process.rs Exit derive(PartialEq, Eq, Structural, Clone, Copy)
//%type scenario.rs Scenario
//%type outcome.rs PhaseResult
//%type outcome.rs ScenarioOutcome
//%type outcome.rs SummaryOutcome derive(PartialEq, Eq, Structural)
//%type outcome.rs LabOutcome

// ---- what the verdict is, from the phase results (the statement of C03) ----
pub open spec fn failed(e: Exit) -> bool { e matches Exit::Failure(_) }
pub open spec fn any_build_failed(p: Seq<PhaseResult>) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).phase != Phase::Test && failed(p[i].process_status) }
pub open spec fn any_timeout(p: Seq<PhaseResult>) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).process_status == Exit::Timeout }
pub open spec fn verdict(o: ScenarioOutcome) -> SummaryOutcome {
    let p = o.phase_results@;
    if o.scenario is Baseline {
        if any_timeout(p) { SummaryOutcome::Timeout }
        else if p.last().process_status == Exit::Success { SummaryOutcome::Success }
        else { SummaryOutcome::Failure }
    } else {
        if any_build_failed(p) { SummaryOutcome::Unviable }
        else if any_timeout(p) { SummaryOutcome::Timeout }
        else if p.last().phase == Phase::Test && failed(p.last().process_status) { SummaryOutcome::CaughtMutant }
        else if p.last().phase == Phase::Test && p.last().process_status == Exit::Success { SummaryOutcome::MissedMutant }
        else if p.last().process_status == Exit::Success { SummaryOutcome::Success }
        else { SummaryOutcome::Failure }
    }
}

//%fn process.rs Exit::is_success
//%spec
    ensures r == (self == Exit::Success),
//%end
//%fn process.rs Exit::is_timeout
//%spec
    ensures r == (self == Exit::Timeout),
//%end
//%fn process.rs Exit::is_failure
//%spec
    ensures r == failed(self),
//%end
//%fn outcome.rs PhaseResult::is_success
//%spec
    ensures r == (self.process_status == Exit::Success),
//%end
//%fn scenario.rs Scenario::is_mutant
//%spec
    ensures r == (self is Mutant),
//%end
//%fn scenario.rs Scenario::mutant
//%spec
    ensures match *self { Scenario::Mutant(m) => r == Some(&m), _ => r.is_none() },
//%end
//%fn outcome.rs ScenarioOutcome::last_phase
//%spec
    requires self.phase_results@.len() > 0,
    ensures r == self.phase_results@.last().phase,
//%end
//%fn outcome.rs ScenarioOutcome::last_phase_result
//%spec
    requires self.phase_results@.len() > 0,
    ensures r == self.phase_results@.last().process_status,
//%end
//%fn outcome.rs ScenarioOutcome::success
//%spec
    requires self.phase_results@.len() > 0,
    ensures r == (self.phase_results@.last().process_status == Exit::Success),
//%end
//%fn outcome.rs ScenarioOutcome::phase_result
//%spec
    ensures r matches Some(p) ==> p.phase == phase && self.phase_results@.contains(*p),
        r.is_none() ==> forall|i: int| 0 <= i < self.phase_results@.len() ==> (#[trigger] self.phase_results@[i]).phase != phase,
//%closure 0
    |$0: &&PhaseResult| -> (b: bool) ensures b == ($0.phase == phase)
//%end
//%fn outcome.rs ScenarioOutcome::has_timeout
//%spec
    ensures r == any_timeout(self.phase_results@),
//%closure 0
    |$0: &PhaseResult| -> (b: bool) ensures b == ($0.process_status == Exit::Timeout)
//%end
//%fn outcome.rs ScenarioOutcome::check_or_build_failed
//%spec
    ensures r == any_build_failed(self.phase_results@),
//%closure 0
    |$0: &PhaseResult| -> (b: bool) ensures b == ($0.phase != Phase::Test && failed($0.process_status))
//%end
//%fn outcome.rs ScenarioOutcome::mutant_caught
//%spec
    requires self.phase_results@.len() > 0,
    ensures r == (self.scenario is Mutant && self.phase_results@.last().phase == Phase::Test && failed(self.phase_results@.last().process_status)),
//%end
//%fn outcome.rs ScenarioOutcome::mutant_missed
//%spec
    requires self.phase_results@.len() > 0,
    ensures r == (self.scenario is Mutant && self.phase_results@.last().phase == Phase::Test && self.phase_results@.last().process_status == Exit::Success),
//%end
//%fn outcome.rs ScenarioOutcome::summary
//%spec
    requires self.phase_results@.len() > 0,
    ensures r == verdict(*self),
//%end
//%fn outcome.rs ScenarioOutcome::add_phase_result
//%spec
    ensures final(self).phase_results@ == old(self).phase_results@.push(phase_result), final(self).scenario == old(self).scenario,
        final(self).log_path == old(self).log_path, final(self).diff_path == old(self).diff_path, final(self).output_dir == old(self).output_dir,
//%end

