use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_path.vrs
//%include shim_iter.vrs
#[verifier::external_body]
pub struct Mutant { _p: u8 }
#[verifier::external_body]
pub struct Duration { _p: u8 }
//%include outcome_core.vrs
//%include outcome_totals.vrs
impl Mutant {
    pub uninterp spec fn s_name(&self, show_line_col: bool) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self, show_line_col: bool) -> (r: String) ensures r@ == self.s_name(show_line_col) { unimplemented!() }
}
/// Text files opened for appending: what they hold
#[verifier::external_body]
pub struct File { _p: u8 }
impl View for File { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct IoError { _p: u8 }
/// writeln!(file, ..): on success the text was appended
impl File {
    #[verifier::external_body]
    pub fn v_write(&mut self, s: &String) -> (r: core::result::Result<(), IoError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub trait VCtx<T> { spec fn is_ok_(&self) -> bool; fn v_ctx(self) -> (r: Result<T>) where Self: Sized ensures self.is_ok_() == r is Ok; }
impl<T> VCtx<T> for core::result::Result<T, IoError> { open spec fn is_ok_(&self) -> bool { self is Ok }
    #[verifier::external_body]
    fn v_ctx(self) -> (r: Result<T>) { unimplemented!() } }
/// The JSON files written: which value each path holds
pub tracked struct World { pub ghost labs: Map<Seq<char>, LabOutcome>, pub ghost muts: Map<Seq<char>, Seq<Mutant>> }
pub uninterp spec fn s_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, s@) { unimplemented!() }
}
impl File {
    pub uninterp spec fn fpath(&self) -> Seq<char>;
    /// opened for writing, empty
    #[verifier::external_body]
    pub fn create(p: Utf8PathBuf) -> (r: Result<File>) ensures r matches Ok(f) ==> f.fpath() == p@ { unimplemented!() }
}
pub struct BufWriter { pub inner: File }
impl BufWriter { pub fn new(f: File) -> (r: BufWriter) ensures r.inner == f { BufWriter { inner: f } } }
pub open spec fn outcomes_file(o: OutputDir) -> Seq<char> { s_join(o.path@, "outcomes.json"@) }
pub open spec fn mutants_file(o: OutputDir) -> Seq<char> { s_join(o.path@, "mutants.json"@) }
impl ScenarioOutcome {
    /// derived Clone: an equal value
    #[verifier::external_body]
    pub fn v_to_owned(&self) -> (r: ScenarioOutcome) ensures r == *self { unimplemented!() }
}
//%methods to_owned=v_to_owned clone=v_to_owned
//%type output.rs OutputDir
//%ghost write_lab_outcome
/// serde_json on a file that was just created: on success the file holds the value
pub trait VJson { spec fn put(&self, w: World, p: Seq<char>, f: World) -> bool; }
impl VJson for LabOutcome { open spec fn put(&self, w: World, p: Seq<char>, f: World) -> bool { f.labs == w.labs.insert(p, *self) && f.muts == w.muts } }
impl VJson for [Mutant] { open spec fn put(&self, w: World, p: Seq<char>, f: World) -> bool { f.muts == w.muts.insert(p, self@) && f.labs == w.labs } }
#[verifier::external_body]
pub fn v_write_json<V: VJson + ?Sized>(f: BufWriter, v: &V, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>) ensures r is Ok ==> v.put(*old(w), f.inner.fpath(), *final(w)) { unimplemented!() }
//%paths serde_json::to_writer_pretty => v_write_json
//%ghost v_write_json
impl LabOutcome { #[verifier::external_body] pub fn default() -> (r: LabOutcome) ensures r.outcomes@.len() == 0, r.total_mutants == 0, r.missed == 0, r.caught == 0, r.timeout == 0, r.unviable == 0, r.success == 0 { unimplemented!() } }
//%fn outcome.rs LabOutcome::new
//%spec
    ensures lab_ok(r), r.outcomes@.len() == 0,
//%end
//%fn output.rs OutputDir::take_lab_outcome
//%spec
    ensures r == self.lab_outcome,
//%end
//%fn output.rs OutputDir::write_mutants_list
//%wparam
//%spec
    ensures r is Ok ==> final(w).muts == old(w).muts.insert(mutants_file(*self), mutants@) && final(w).labs == old(w).labs,
//%end
//%if C05
//%fn output.rs OutputDir::write_lab_outcome
//%wparam
//%spec
    ensures r is Ok ==> final(w).labs == old(w).labs.insert(outcomes_file(*self), self.lab_outcome) && final(w).muts == old(w).muts,
//%end

pub open spec fn appended(o: OutputDir, n: OutputDir, name: Seq<char>, s: SummaryOutcome) -> bool {
    let add = name + seq!['\n'];
    &&& n.missed_list@ == o.missed_list@ + (if s == SummaryOutcome::MissedMutant { add } else { Seq::empty() })
    &&& n.caught_list@ == o.caught_list@ + (if s == SummaryOutcome::CaughtMutant { add } else { Seq::empty() })
    &&& n.timeout_list@ == o.timeout_list@ + (if s == SummaryOutcome::Timeout { add } else { Seq::empty() })
    &&& n.unviable_list@ == o.unviable_list@ + (if s == SummaryOutcome::Unviable { add } else { Seq::empty() })
}
pub open spec fn same_lists(o: OutputDir, n: OutputDir) -> bool {
    n.missed_list == o.missed_list && n.caught_list == o.caught_list && n.timeout_list == o.timeout_list && n.unviable_list == o.unviable_list
}
//%fn output.rs OutputDir::add_scenario_outcome
//%wparam
//%spec
    requires lab_ok(old(self).lab_outcome), scenario_outcome.phase_results@.len() > 0, old(self).lab_outcome.outcomes@.len() < usize::MAX,
    ensures
        lab_ok(final(self).lab_outcome),
        final(self).lab_outcome.outcomes@ == old(self).lab_outcome.outcomes@.push(*scenario_outcome),
        r is Ok ==> final(w).labs == old(w).labs.insert(outcomes_file(*old(self)), final(self).lab_outcome) && final(w).muts == old(w).muts,
        r is Ok && scenario_outcome.scenario is Baseline ==> same_lists(*old(self), *final(self)),
        r is Ok ==> (scenario_outcome.scenario matches Scenario::Mutant(m) ==> appended(*old(self), *final(self), m.s_name(true), verdict(*scenario_outcome))),
//%entry
    proof { reveal_strlit("\n"); assert("\n"@ == seq!['\n']); }
    let ghost o = *self;
//%end
//%endif
//%if C05
// ---- the record of one outcome in outcomes.json: the members of a JSON object (their order is free) ----
pub ghost enum Js { Scenario(Scenario), Summary(SummaryOutcome), Path(Seq<char>), OptPath(Option<Seq<char>>), Phases(Seq<PhaseResult>), Phase(Phase), Secs(f64), Status(Exit), Argv(Seq<String>) }
pub trait VJs { spec fn js(&self) -> Js; }
impl VJs for Scenario { open spec fn js(&self) -> Js { Js::Scenario(*self) } }
impl VJs for SummaryOutcome { open spec fn js(&self) -> Js { Js::Summary(*self) } }
impl VJs for Utf8PathBuf { open spec fn js(&self) -> Js { Js::Path(self@) } }
impl VJs for Option<Utf8PathBuf> { open spec fn js(&self) -> Js { Js::OptPath(match *self { Some(p) => Some(p@), None => None }) } }
impl VJs for Vec<PhaseResult> { open spec fn js(&self) -> Js { Js::Phases(self@) } }
impl VJs for Phase { open spec fn js(&self) -> Js { Js::Phase(*self) } }
impl VJs for f64 { open spec fn js(&self) -> Js { Js::Secs(*self) } }
impl VJs for Exit { open spec fn js(&self) -> Js { Js::Status(*self) } }
impl VJs for Vec<String> { open spec fn js(&self) -> Js { Js::Argv(self@) } }
pub uninterp spec fn s_secs(d: Duration) -> f64;
impl Duration { #[verifier::external_body] pub fn as_secs_f64(&self) -> (r: f64) ensures r == s_secs(*self) { unimplemented!() } }
pub trait VSerializer: Sized { fn serialize_struct(self, name: &str, n: usize) -> (r: Result<Serializer>) ensures r matches Ok(s) ==> s.f@ == Map::<Seq<char>, Js>::empty(); }
pub struct Serializer { pub f: Ghost<Map<Seq<char>, Js>> }
impl Serializer {
    #[verifier::external_body]
    pub fn serialize_field<T: VJs>(&mut self, name: &str, v: &T) -> (r: Result<()>) ensures r is Ok ==> final(self).f@ == old(self).f@.insert(name@, v.js()) { unimplemented!() }
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<Serializer>) ensures r matches Ok(s) ==> s == self { unimplemented!() }
}
pub proof fn l_keys() ensures "scenario"@ != "summary"@, "scenario"@ != "log_path"@, "scenario"@ != "diff_path"@, "scenario"@ != "phase_results"@, "summary"@ != "log_path"@, "summary"@ != "diff_path"@, "summary"@ != "phase_results"@, "log_path"@ != "diff_path"@, "log_path"@ != "phase_results"@, "diff_path"@ != "phase_results"@
{ reveal_strlit("scenario"); reveal_strlit("summary"); reveal_strlit("log_path"); reveal_strlit("diff_path"); reveal_strlit("phase_results"); assert("scenario"@.len() == 8); assert("summary"@.len() == 7); assert("log_path"@.len() == 8); assert("diff_path"@.len() == 9); assert("phase_results"@.len() == 13); assert("scenario"@[0] == 's'); assert("log_path"@[0] == 'l'); }
pub proof fn l_keys2() ensures "phase"@ != "duration"@, "phase"@ != "process_status"@, "phase"@ != "argv"@, "duration"@ != "process_status"@, "duration"@ != "argv"@, "process_status"@ != "argv"@
{ reveal_strlit("phase"); reveal_strlit("duration"); reveal_strlit("process_status"); reveal_strlit("argv"); assert("phase"@.len() == 5); assert("duration"@.len() == 8); assert("process_status"@.len() == 14); assert("argv"@.len() == 4); }
pub open spec fn outcome_record(o: ScenarioOutcome) -> Map<Seq<char>, Js> {
    Map::empty().insert("scenario"@, Js::Scenario(o.scenario)).insert("summary"@, Js::Summary(verdict(o))).insert("log_path"@, Js::Path(o.log_path@))
        .insert("diff_path"@, o.diff_path.js()).insert("phase_results"@, Js::Phases(o.phase_results@)) }
pub open spec fn phase_record(p: PhaseResult) -> Map<Seq<char>, Js> {
    Map::empty().insert("phase"@, Js::Phase(p.phase)).insert("duration"@, Js::Secs(s_secs(p.duration))).insert("process_status"@, Js::Status(p.process_status)).insert("argv"@, Js::Argv(p.argv@)) }
//%fn outcome.rs <ScenarioOutcome as Serialize>::serialize
//%as v_serialize
//%gen <S: VSerializer>
//%rettype Result<Serializer>
//%spec
    requires self.phase_results@.len() > 0,
    ensures r matches Ok(s) ==> s.f@ == outcome_record(*self),
//%exit
    proof { l_keys(); if r is Ok { assert(r->Ok_0.f@ =~= outcome_record(*self)); } }
//%end
//%fn outcome.rs <PhaseResult as Serialize>::serialize
//%as v_serialize
//%gen <S: VSerializer>
//%rettype Result<Serializer>
//%spec
    ensures r matches Ok(s) ==> s.f@ == phase_record(*self),
//%exit
    proof { l_keys2(); if r is Ok { assert(r->Ok_0.f@ =~= phase_record(*self)); } }
//%end
//%endif
} // verus!
fn main() {}
