use vstd::prelude::*;
use std::sync::Arc;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
//%include lab_core.vrs

//%fn source.rs SourceFile::code
//%spec
    ensures r@ == self.code@,
//%end
//%fn build_dir.rs BuildDir::path
//%spec
    ensures r@ == self.path@,
//%end
//%fn build_dir.rs BuildDir::overwrite_file
//%wparam
//%spec
    ensures same_log(*old(w), *final(w)),
        r is Ok ==> final(w).files == old(w).files.insert(join(self.path@, relative_path@), code@) && final(w).write_failed == old(w).write_failed,
        r is Err ==> final(w).write_failed || (same_fs(*old(w), *final(w)) && !old(w).files.contains_key(join(self.path@, relative_path@))),
//%end
/// where the mutant's file is in the build directory
pub open spec fn mfile(d: BuildDir, m: Mutant) -> Seq<char> { join(d.path@, m.source_file.tree_relative_path@) }
//%fn mutant.rs Mutant::apply
//%wparam
//%spec
    ensures same_log(*old(w), *final(w)),
        r is Ok ==> final(w).files == old(w).files.insert(mfile(*build_dir, *self), mutated_code@) && final(w).write_failed == old(w).write_failed,
        r is Err ==> final(w).write_failed || (same_fs(*old(w), *final(w)) && !old(w).files.contains_key(mfile(*build_dir, *self))),
//%end
//%fn mutant.rs Mutant::revert
//%wparam
//%spec
    ensures same_log(*old(w), *final(w)),
        r is Ok ==> final(w).files == old(w).files.insert(mfile(*build_dir, *self), self.source_file.code@) && final(w).write_failed == old(w).write_failed,
        r is Err ==> final(w).write_failed || (same_fs(*old(w), *final(w)) && !old(w).files.contains_key(mfile(*build_dir, *self))),
//%end
//%fn outcome.rs ScenarioOutcome::new
//%spec
    ensures r.scenario == scenario, r.phase_results@.len() == 0, r.log_path@ == scenario_output.log_path@, r.diff_path == scenario_output.diff_path,
//%end
//%fn options.rs Options::phases
//%spec
    ensures r@ == s_phases(*self),
//%end
pub open spec fn s_phases(o: Options) -> Seq<Phase> { if o.check_only { seq![Phase::Check] } else { seq![Phase::Build, Phase::Test] } }
pub open spec fn limit(t: Timeouts, p: Phase) -> Option<Duration> { if p == Phase::Test { t.test } else { t.build } }
/// contract of run_cargo (proved in unit cargo): it changes no source file, and reports how the command ended
#[verifier::external_body]
pub fn run_cargo(build_dir: &BuildDir, jobserver: Option<&JobClient>, packages: &PackageSelection, phase: Phase, timeout: Option<Duration>, scenario_output: &mut ScenarioOutput, options: &Options, console: &Console, Tracked(w): Tracked<&mut World>) -> (r: Result<PhaseResult>)
    ensures same_fs(*old(w), *final(w)), final(w).reported == old(w).reported, final(w).recorded == old(w).recorded, final(w).diffs == old(w).diffs, final(w).taken == old(w).taken, final(w).exhausted == old(w).exhausted,
        r matches Ok(p) ==> p.phase == phase && final(w).runs == old(w).runs.push(Ev { phase, timeout, packages: *packages, files: old(w).files, dir: build_dir.path@, status: p.process_status }),
        r is Err ==> final(w).runs == old(w).runs || exists|s: Exit| final(w).runs == old(w).runs.push(Ev { phase, timeout, packages: *packages, files: old(w).files, dir: build_dir.path@, status: s }),
        final(scenario_output).output_dir == old(scenario_output).output_dir, final(scenario_output).log_path == old(scenario_output).log_path, final(scenario_output).diff_path == old(scenario_output).diff_path,
{ unimplemented!() }

/// the commands of one scenario: phases in order, each only after the one before succeeded (C04)
pub open spec fn phases_ok(new: Seq<Ev>, ph: Seq<Phase>, t: Timeouts) -> bool {
    &&& new.len() <= ph.len()
    &&& forall|i: int| 0 <= i < new.len() ==> (#[trigger] new[i]).phase == ph[i] && new[i].timeout == limit(t, ph[i])
    &&& forall|i: int| 0 <= i < new.len() - 1 ==> (#[trigger] new[i]).status == Exit::Success
}
/// the files present while a scenario is tested: the tree, with at most its own mutation (C02)
pub open spec fn scenario_files(f: Map<Seq<char>, Seq<char>>, s: Scenario, d: BuildDir) -> Map<Seq<char>, Seq<char>> {
    match s { Scenario::Mutant(m) => f.insert(mfile(d, m), mutated(m)), Scenario::Baseline => f }
}
pub open spec fn new_runs(a: World, b: World) -> Seq<Ev> { b.runs.skip(a.runs.len() as int) }
pub open spec fn tested_in(new: Seq<Ev>, f: Map<Seq<char>, Seq<char>>, d: Seq<char>, p: PackageSelection) -> bool {
    forall|i: int| 0 <= i < new.len() ==> (#[trigger] new[i]).files == f && new[i].dir == d && new[i].packages == p
}
//%fn lab.rs Worker::run_one_scenario
//%wparam
//%spec
    requires *scenario matches Scenario::Mutant(m) ==> loaded(*old(w), m, old(self).build_dir.path@),
    ensures
        final(self).build_dir == old(self).build_dir, final(self).options == old(self).options, final(self).tests_for_mutant == old(self).tests_for_mutant,
        final(w).taken == old(w).taken, final(w).exhausted == old(w).exhausted,
        final(w).files == old(w).files || final(w).write_failed, //%[C02,C08,C23,C28]
        r is Ok && !old(w).write_failed ==> !final(w).write_failed, //%[C02,C08,C23,C28]
        old(w).runs.is_prefix_of(final(w).runs),
        tested_in(new_runs(*old(w), *final(w)), scenario_files(old(w).files, *scenario, *old(self).build_dir), old(self).build_dir.path@, *test_packages), //%[C02,C08,C23,C28]
        phases_ok(new_runs(*old(w), *final(w)), s_phases(*old(self).options), timeouts), //%[C04,C14,C28]
        r matches Ok(o) ==> {
            let n = new_runs(*old(w), *final(w));
            &&& o.scenario == *scenario
            &&& o.phase_results@.len() == n.len() && n.len() > 0
            &&& forall|i: int| 0 <= i < n.len() ==> (#[trigger] o.phase_results@[i]).phase == n[i].phase && o.phase_results@[i].process_status == n[i].status
            &&& n.len() == s_phases(*old(self).options).len() || n.last().status != Exit::Success
            &&& final(w).recorded == old(w).recorded.push(o)
            &&& final(w).reported == old(w).reported.push(o) //%[C28]
            &&& *scenario matches Scenario::Mutant(m) ==> final(w).diffs == old(w).diffs.push(diff_of(m, mutated(m)))
        },
        r is Err ==> final(w).reported == old(w).reported, //%[C28]
        r is Err ==> final(w).recorded == old(w).recorded || exists|o: ScenarioOutcome| final(w).recorded == old(w).recorded.push(o) && o.scenario == *scenario,
//%entry
    let ghost w0 = *w;
    let ghost ph = s_phases(*self.options);
    let ghost fs = scenario_files(w.files, *scenario, *self.build_dir);
    proof { assert(w.runs.skip(w.runs.len() as int) =~= Seq::<Ev>::empty()); }
//%loop 0 it it
//%loop 0
    invariant_except_break
        it.index@ <= ph.len(),
        new_runs(w0, *w).len() == it.index@,
        forall|i: int| 0 <= i < new_runs(w0, *w).len() ==> (#[trigger] new_runs(w0, *w)[i]).status == Exit::Success,
    invariant
        self.build_dir == old(self).build_dir, self.options == old(self).options, self.tests_for_mutant == old(self).tests_for_mutant,
        w0 == *old(w), fs == scenario_files(w0.files, *scenario, *self.build_dir), ph == s_phases(*self.options), ph.len() > 0,
        w.taken == w0.taken, w.exhausted == w0.exhausted, w.recorded == w0.recorded, w.reported == w0.reported, w.write_failed == w0.write_failed,
        w.files == fs, w0.runs.is_prefix_of(w.runs),
        outcome.scenario == *scenario,
        outcome.phase_results@.len() == new_runs(w0, *w).len(),
        forall|i: int| 0 <= i < new_runs(w0, *w).len() ==> (#[trigger] outcome.phase_results@[i]).phase == new_runs(w0, *w)[i].phase && outcome.phase_results@[i].process_status == new_runs(w0, *w)[i].status,
        tested_in(new_runs(w0, *w), fs, self.build_dir.path@, *test_packages), //%[C02,C08,C23,C28]
        phases_ok(new_runs(w0, *w), ph, timeouts), //%[C04,C14,C28]
        *scenario matches Scenario::Mutant(m) ==> w.diffs == w0.diffs.push(diff_of(m, mutated(m))),
        *scenario matches Scenario::Mutant(m) ==> loaded(w0, m, self.build_dir.path@),
    ensures new_runs(w0, *w).len() == ph.len() || (new_runs(w0, *w).len() > 0 && new_runs(w0, *w).last().status != Exit::Success),
//%loop 0 start
    let ghost w1 = *w;
    proof {
        assert forall|e: Ev| #[trigger] w1.runs.push(e).skip(w0.runs.len() as int) =~= new_runs(w0, w1).push(e) by {}
    }
//%end

//%if C02,C08,C23,C28
/// what is tested for a mutant (C23)
pub open spec fn pkg_sel(t: TestsForMutant, m: Mutant, p: PackageSelection) -> bool {
    match t {
        TestsForMutant::Workspace => p is All,
        TestsForMutant::Mutated => p matches PackageSelection::Explicit(v) && v@ == seq![m.source_file.package],
        TestsForMutant::Explicit(x) => p matches PackageSelection::Explicit(v) && v@ == x@,
    }
}
/// every command of this worker tested one mutant that was taken from the queue, in its own files, with its packages
pub open spec fn run_of_some(e: Ev, t: Seq<Mutant>, f: Map<Seq<char>, Seq<char>>, wk: Worker) -> bool {
    exists|i: int| 0 <= i < t.len() && e.files == f.insert(mfile(*wk.build_dir, #[trigger] t[i]), mutated(t[i])) && e.dir == wk.build_dir.path@ && pkg_sel(*wk.tests_for_mutant, t[i], e.packages)
}
pub open spec fn runs_of_taken(new: Seq<Ev>, t: Seq<Mutant>, f: Map<Seq<char>, Seq<char>>, wk: Worker) -> bool {
    forall|j: int| 0 <= j < new.len() ==> run_of_some(#[trigger] new[j], t, f, wk)
}
/// the recorded outcomes are those of the mutants taken, in order
pub open spec fn records(rec: Seq<ScenarioOutcome>, t: Seq<Mutant>) -> bool {
    rec.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] rec[i]).scenario == Scenario::Mutant(t[i])
}
pub proof fn runs_step(w0: World, w1: World, w2: World, me: Worker, p: PackageSelection)
    requires w0.runs.is_prefix_of(w1.runs), w1.runs.is_prefix_of(w2.runs), w0.taken.is_prefix_of(w1.taken), w2.taken.len() == w1.taken.len() + 1, w2.taken == w1.taken.push(w2.taken.last()),
        runs_of_taken(new_runs(w0, w1), w1.taken.skip(w0.taken.len() as int), w0.files, me),
        tested_in(new_runs(w1, w2), w0.files.insert(mfile(*me.build_dir, w2.taken.last()), mutated(w2.taken.last())), me.build_dir.path@, p),
        pkg_sel(*me.tests_for_mutant, w2.taken.last(), p),
    ensures runs_of_taken(new_runs(w0, w2), w2.taken.skip(w0.taken.len() as int), w0.files, me),
{
    let t1 = w1.taken.skip(w0.taken.len() as int);
    let t2 = w2.taken.skip(w0.taken.len() as int);
    assert(t2 =~= t1.push(w2.taken.last()));
    let n1 = new_runs(w0, w1);
    let n2 = new_runs(w0, w2);
    let d = new_runs(w1, w2);
    assert(n2 =~= n1 + d);
    assert forall|j: int| 0 <= j < n2.len() implies run_of_some(#[trigger] n2[j], t2, w0.files, me) by {
        if j < n1.len() {
            assert(run_of_some(n1[j], t1, w0.files, me));
            let i = choose|i: int| 0 <= i < t1.len() && n1[j].files == w0.files.insert(mfile(*me.build_dir, #[trigger] t1[i]), mutated(t1[i])) && n1[j].dir == me.build_dir.path@ && pkg_sel(*me.tests_for_mutant, t1[i], n1[j].packages);
            assert(t2[i] == t1[i]);
        } else {
            assert(n2[j] == d[j - n1.len()]);
            assert(t2[t2.len() - 1] == w2.taken.last());
        }
    }
}
//%fn lab.rs Worker::run_queue
//%wparam
//%attr #[verifier::exec_allows_no_decreases_clause]
//%spec
    requires forall|m: Mutant| #[trigger] queued(m) ==> loaded(*old(w), m, self.build_dir.path@), !old(w).write_failed,
    ensures
        final(w).files == old(w).files || final(w).write_failed, //%[C02,C08,C23,C28]
        old(w).taken.is_prefix_of(final(w).taken), old(w).recorded.is_prefix_of(final(w).recorded), old(w).runs.is_prefix_of(final(w).runs), //%[C08,C23,C28]
        r is Ok ==> final(w).exhausted && records(final(w).recorded.skip(old(w).recorded.len() as int), final(w).taken.skip(old(w).taken.len() as int)), //%[C08]
        r is Ok ==> final(w).reported == old(w).reported + final(w).recorded.skip(old(w).recorded.len() as int), //%[C28]
        !final(w).write_failed ==> runs_of_taken(new_runs(*old(w), *final(w)), final(w).taken.skip(old(w).taken.len() as int), old(w).files, self), //%[C08,C23]
//%entry
    let ghost w0 = *w;
    let ghost me = self;
    proof {
        assert(w.runs.skip(w.runs.len() as int) =~= Seq::<Ev>::empty());
        assert(w.taken.skip(w.taken.len() as int) =~= Seq::<Mutant>::empty());
        assert(w.recorded.skip(w.recorded.len() as int) =~= Seq::<ScenarioOutcome>::empty());
        assert(w.reported + Seq::<ScenarioOutcome>::empty() =~= w.reported);
    }
//%loop 0
    invariant
        w0 == *old(w), me == self,
        __self.build_dir == me.build_dir, __self.options == me.options, __self.tests_for_mutant == me.tests_for_mutant,
        forall|m: Mutant| #[trigger] queued(m) ==> loaded(w0, m, me.build_dir.path@),
        w.files == w0.files, !w.write_failed,
        w0.taken.is_prefix_of(w.taken), w0.recorded.is_prefix_of(w.recorded), w0.runs.is_prefix_of(w.runs),
        records(w.recorded.skip(w0.recorded.len() as int), w.taken.skip(w0.taken.len() as int)), //%[C08]
        w.reported == w0.reported + w.recorded.skip(w0.recorded.len() as int), //%[C28]
        runs_of_taken(new_runs(w0, *w), w.taken.skip(w0.taken.len() as int), w0.files, me), //%[C08,C23]
//%loop 0 start
    let ghost w1 = *w;
    proof {
        let n = w0.taken.len() as int;
        assert forall|m: Mutant| #[trigger] w1.taken.push(m).skip(n) =~= w1.taken.skip(n).push(m) by {}
        assert forall|o: ScenarioOutcome| #[trigger] w1.recorded.push(o).skip(w0.recorded.len() as int) =~= w1.recorded.skip(w0.recorded.len() as int).push(o) by {}
        assert forall|a: Seq<ScenarioOutcome>, b: Seq<ScenarioOutcome>, o: ScenarioOutcome| #[trigger] (a + b).push(o) =~= a + b.push(o) by {} //%[C28]
//%if C08,C23
        assert forall|wa: World, w2: World, f: Map<Seq<char>, Seq<char>>, d: Seq<char>, p: PackageSelection|
            #![trigger tested_in(new_runs(wa, w2), f, d, p)]
            wa.runs == w1.runs && w1.runs.is_prefix_of(w2.runs) && w2.taken.len() == w1.taken.len() + 1 && w2.taken == w1.taken.push(w2.taken.last())
            && tested_in(new_runs(wa, w2), f, d, p) && f == w0.files.insert(mfile(*me.build_dir, w2.taken.last()), mutated(w2.taken.last())) && d == me.build_dir.path@
            && pkg_sel(*me.tests_for_mutant, w2.taken.last(), p)
            implies runs_of_taken(new_runs(w0, w2), w2.taken.skip(w0.taken.len() as int), w0.files, me) by { runs_step(w0, w1, w2, me, p); }
//%endif
    }
//%end
//%endif
} // verus!
fn main() {}
