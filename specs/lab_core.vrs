//%shim std::sync::Mutex => Mutex
//%shim vec::IntoIter<Mutant> => WorkQueue
//%shim jobserver::Client => JobClient
#[verifier::external_body]
pub struct JobClient { _p: u8 }
#[verifier::external_body]
pub struct Console { _p: u8 }
#[verifier::external_body]
pub struct Function { _p: u8 }
#[verifier::external_body]
pub struct TempDir { _p: u8 }
#[verifier::external_body]
pub struct File { _p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: u8 }
//%type package.rs Package
//%type package.rs PackageSelection
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Mutant
//%trust unit outcome (check C03)
//%include outcome_core.vrs
//%trust off
//%include world.vrs
//%type output.rs ScenarioOutput
//%type build_dir.rs BuildDir
//%type timeouts.rs Timeouts derive(Clone, Copy)
//%type options.rs Options keep=check_only
//%type lab.rs TestsForMutant
//%type lab.rs Worker
// ---- derived Clone: an equal value (assumed) ----
impl VClone for Scenario { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for Utf8PathBuf { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VClone for Arc<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl Utf8Path { #[verifier::external_body] pub fn v_to_owned(&self) -> (r: Utf8PathBuf) ensures r@ == self@ { unimplemented!() } }
//%methods clone=v_clone to_owned=v_to_owned
// ---- locks: a lock gives exclusive use of what it protects ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Locked<T> { _p: core::marker::PhantomData<T> }
impl<T> Mutex<T> {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Locked<T>) { unimplemented!() }
}
impl<T> Locked<T> {
    #[verifier::external_body]
    pub fn expect(self, m: &str) -> (r: Locked<T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: Locked<T>) { unimplemented!() }
}
#[verifier::external_body]
pub struct OutputDir { _p: u8 }
#[verifier::external_body]
pub struct WorkQueue { _p: u8 }
impl Locked<OutputDir> {
    /// contract of OutputDir::start_scenario (proved in unit logs)
    #[verifier::external_body]
    pub fn start_scenario(&mut self, scenario: &Scenario) -> (r: Result<ScenarioOutput>) ensures r matches Ok(o) ==> (o.diff_path is Some) == (*scenario is Mutant) { unimplemented!() }
    /// contract of OutputDir::add_scenario_outcome (proved in unit output)
    #[verifier::external_body]
    pub fn add_scenario_outcome(&mut self, o: &ScenarioOutcome, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
        requires o.phase_results@.len() > 0,
        ensures r is Ok ==> final(w).recorded == old(w).recorded.push(*o), r is Err ==> final(w).recorded == old(w).recorded || final(w).recorded == old(w).recorded.push(*o),
            same_fs(*old(w), *final(w)), final(w).reported == old(w).reported, final(w).runs == old(w).runs, final(w).diffs == old(w).diffs, final(w).taken == old(w).taken, final(w).exhausted == old(w).exhausted,
    { unimplemented!() }
}
impl Locked<WorkQueue> {
    /// vec::IntoIter::next: each item of the queue is handed out once
    #[verifier::external_body]
    pub fn next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<Mutant>)
        ensures r matches Some(m) ==> final(w).taken == old(w).taken.push(m) && final(w).exhausted == old(w).exhausted && queued(m),
            r.is_none() ==> final(w).taken == old(w).taken && final(w).exhausted,
            same_fs(*old(w), *final(w)), final(w).reported == old(w).reported, final(w).runs == old(w).runs, final(w).diffs == old(w).diffs, final(w).recorded == old(w).recorded,
    { unimplemented!() }
}
//%ghost scenario_finished is_file add_scenario_outcome next write write_diff apply revert overwrite_file run_cargo run_one_scenario
pub trait VCtx<T> { spec fn res(&self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) where Self: Sized ensures self.res() matches Some(v) ==> r == Ok::<T, Error>(v), self.res().is_none() ==> r is Err; }
#[verifier::external_body]
pub struct IoError { _p: u8 }
impl<T> VCtx<T> for core::result::Result<T, IoError> { open spec fn res(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn v_ctx(self) -> (r: Result<T>) { unimplemented!() } }
impl Console {
    #[verifier::external_body]
    pub fn scenario_started(&self, dir: &Utf8Path, s: &Scenario, f: File) { unimplemented!() }
    #[verifier::external_body]
    pub fn scenario_phase_started(&self, dir: &Utf8Path, p: Phase) { unimplemented!() }
    #[verifier::external_body]
    pub fn scenario_phase_finished(&self, dir: &Utf8Path, p: Phase) { unimplemented!() }
    #[verifier::external_body]
    pub fn scenario_finished(&self, dir: &Utf8Path, s: &Scenario, o: &ScenarioOutcome, opt: &Options, Tracked(w): Tracked<&mut World>)
        requires *s == o.scenario, o.phase_results@.len() > 0, forall|i: int| 0 <= i < o.phase_results@.len() - 1 ==> (#[trigger] o.phase_results@[i]).process_status == Exit::Success, //%[C28]
        ensures final(w).reported == old(w).reported.push(*o), same_fs(*old(w), *final(w)), final(w).recorded == old(w).recorded, final(w).runs == old(w).runs, final(w).diffs == old(w).diffs, final(w).taken == old(w).taken, final(w).exhausted == old(w).exhausted,
    { unimplemented!() }
}
impl ScenarioOutput {
    #[verifier::external_body]
    pub fn open_log_read(&self) -> (r: Result<File>) { unimplemented!() }
    /// contract of ScenarioOutput::write_diff (proved in unit logs)
    #[verifier::external_body]
    pub fn write_diff(&mut self, diff: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
        requires old(self).diff_path is Some,
        ensures r is Ok ==> final(w).diffs == old(w).diffs.push(diff@), same_fs(*old(w), *final(w)), final(w).reported == old(w).reported, final(w).runs == old(w).runs, final(w).taken == old(w).taken, final(w).recorded == old(w).recorded, final(w).exhausted == old(w).exhausted,
            final(self).output_dir == old(self).output_dir, final(self).log_path == old(self).log_path, final(self).diff_path == old(self).diff_path,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn log_path(&self) -> (r: &Utf8Path) ensures r@ == self.log_path@ { unimplemented!() }
}
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn join(&self, p: &Utf8Path) -> (r: Utf8PathBuf) ensures r@ == join(self@, p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures *final(w) == *old(w), r == old(w).files.contains_key(self@) { unimplemented!() }
}
impl core::ops::Deref for Utf8PathBuf { type Target = Utf8Path;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() } }
/// std::fs::write: on success the file holds the text; on failure it may hold anything
#[verifier::external_body]
pub fn write(p: &Utf8PathBuf, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
    ensures same_log(*old(w), *final(w)),
        r is Ok ==> final(w).files == old(w).files.insert(p@, text_of(b@)) && final(w).write_failed == old(w).write_failed,
        r is Err ==> final(w).write_failed,
{ unimplemented!() }
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
/// str::as_bytes: the text as UTF-8
#[verifier::external_body]
pub fn v_as_bytes(s: &str) -> (r: &[u8]) ensures text_of(r@) == s@ { unimplemented!() }
//%paths code.as_bytes() => v_as_bytes(code)

// ---- the mutated text (contract of Mutant::mutated_code, proved in unit c01) and its diff ----
pub uninterp spec fn mutated(m: Mutant) -> Seq<char>;
pub uninterp spec fn diff_of(m: Mutant, code: Seq<char>) -> Seq<char>;
impl Mutant {
    #[verifier::external_body]
    pub fn mutated_code(&self) -> (r: String) ensures r@ == mutated(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn diff(&self, code: &str) -> (r: String) ensures r@ == diff_of(*self, code@) { unimplemented!() }
}
/// m is one of the mutants of this run's work list
pub uninterp spec fn queued(m: Mutant) -> bool;
/// the file the mutant changes exists in build directory d and holds the text it was loaded with
pub open spec fn loaded(w: World, m: Mutant, d: Seq<char>) -> bool { let p = join(d, m.source_file.tree_relative_path@); w.files.contains_key(p) && w.files[p] == m.source_file.code@ }
