use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
//%shim std::sync::Mutex => Mutex
//%shim vec::IntoIter<Mutant> => VIter<Mutant>
//%shim jobserver::Client => JobClient
#[verifier::external_body]
pub struct JobClient { _p: u8 }
#[verifier::external_body]
pub struct Console { _p: u8 }
#[verifier::external_body]
pub struct Function { _p: u8 }
#[verifier::external_body]
pub struct TempDir { _p: u8 }
#[verifier::external_body]
pub struct File { _p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: u8 }
#[verifier::external_body]
pub struct Instant { _p: u8 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
}
//%type package.rs Package
//%type package.rs PackageSelection
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Mutant
//%trust unit outcome (check C03)
//%include outcome_core.vrs
//%trust off
//%type build_dir.rs BuildDir
//%type timeouts.rs Timeouts derive(Clone, Copy)
//%type main.rs BaselineStrategy derive(PartialEq, Eq, Structural, Clone, Copy)
//%type options.rs TestPackages
//%type options.rs Options keep=check_only,baseline,shuffle,jobs,jobserver,jobserver_tasks,in_place,leak_dirs,test_package
//%type lab.rs TestsForMutant
//%type lab.rs Lab
//%type lab.rs Worker
// ---- ghost state of a whole run ----
pub tracked struct World {
    /// what mutants.json lists
    pub ghost listed: Option<Seq<Mutant>>,
    /// the baseline outcome, once it has run, and what it tested
    pub ghost baseline: Option<ScenarioOutcome>,
    pub ghost baseline_packages: Option<PackageSelection>,
    pub ghost baseline_limits: Option<Timeouts>,
    /// what each worker thread returned, in the order they were started, and the queue and limits they were given
    pub ghost threads: Seq<Result<()>>,
    /// the totals the console was given at the end
    pub ghost summary: Option<LabOutcome>,
    pub ghost queue: Option<(Mutex<VIter<Mutant>>, Timeouts, TestsForMutant, Mutex<OutputDir>)>,
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Locked<T> { _p: core::marker::PhantomData<T> }
impl<T> Mutex<T> {
    pub uninterp spec fn init(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Mutex<T>) ensures r.init() == t { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Locked<T>) { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Locked<Guard<T>>) ensures r.val().first() == self.init() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Guard<T> { _p: core::marker::PhantomData<T> }
/// the value was handed to this caller alone: taken out of the mutex, or just made
pub uninterp spec fn handed<T>(t: T) -> bool;
/// what the mutex was made with
impl<T> Guard<T> { pub uninterp spec fn first(&self) -> T; }
impl<T> Guard<Option<T>> {
    #[verifier::external_body]
    pub fn take(self) -> (r: Option<T>) ensures r matches Some(x) ==> handed(x) && self.first() == Some(x) { unimplemented!() }
}
impl<T> Locked<T> {
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn expect(self, m: &str) -> (r: T) ensures r == self.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: T) ensures r == self.val() { unimplemented!() }
}
#[verifier::external_body]
pub struct OutputDir { _p: u8 }
/// the outcomes kept in the output directory (unit output)
pub uninterp spec fn lab_of(o: OutputDir) -> LabOutcome;
impl OutputDir {
    #[verifier::external_body]
    pub fn open_debug_log(&self) -> (r: Result<File>) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_mutants_list(&self, m: &Vec<Mutant>, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
        ensures r is Ok ==> final(w).listed == Some(m@), final(w).baseline == old(w).baseline, final(w).threads == old(w).threads, final(w).queue == old(w).queue, final(w).baseline_packages == old(w).baseline_packages, final(w).baseline_limits == old(w).baseline_limits,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_lab_outcome(self) -> (r: LabOutcome) ensures r == lab_of(self) { unimplemented!() }
}
impl LabOutcome {
    #[verifier::external_body]
    pub fn default() -> (r: LabOutcome) ensures r.outcomes@.len() == 0, r.total_mutants == 0, r.missed == 0, r.caught == 0, r.timeout == 0, r.unviable == 0, r.success == 0 { unimplemented!() }
}
impl Console {
    #[verifier::external_body]
    pub fn set_debug_log(&self, f: File) { unimplemented!() }
    #[verifier::external_body]
    pub fn discovered_mutants(&self, m: &Vec<Mutant>) { unimplemented!() }
    #[verifier::external_body]
    pub fn start_testing_mutants(&self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_lab_finished(&self, o: &OutputDir, Tracked(w): Tracked<&mut World>) ensures final(w).summary == Some(lab_of(*o)), final(w).listed == old(w).listed, final(w).baseline == old(w).baseline, final(w).threads == old(w).threads, final(w).queue == old(w).queue, final(w).baseline_packages == old(w).baseline_packages, final(w).baseline_limits == old(w).baseline_limits { unimplemented!() }
}
#[verifier::external_body]
pub struct Workspace { _p: u8 }
impl Workspace {
    pub uninterp spec fn s_root(&self) -> Seq<char>;
    pub uninterp spec fn s_by_name(&self, names: Seq<String>) -> Seq<Arc<Package>>;
    #[verifier::external_body]
    pub fn root(&self) -> (r: &Utf8Path) ensures r@ == self.s_root() { unimplemented!() }
    #[verifier::external_body]
    pub fn packages_by_name(&self, names: &Vec<String>) -> (r: Vec<Arc<Package>>) ensures r@ == self.s_by_name(names@) { unimplemented!() }
}
// contracts of the build directories (proved in unit copy)
pub uninterp spec fn s_canon(p: Seq<char>) -> Seq<char>;
/// below a directory made by tempfile
pub uninterp spec fn is_temp(p: Seq<char>) -> bool;
/// a scratch directory, removed when this value is dropped unless it is to be leaked
pub open spec fn scratch(d: BuildDir, o: Options) -> bool { is_temp(d.path@) && (d.temp_dir is None <==> o.leak_dirs) }
pub open spec fn first_dir(d: BuildDir, ws: Workspace, o: Options) -> bool { if o.in_place { d.path@ == s_canon(ws.s_root()) && d.temp_dir is None } else { scratch(d, o) } }
/// the directories that may be tested in
pub open spec fn fits(d: BuildDir, o: Options) -> bool { scratch(d, o) || o.in_place && d.temp_dir is None }
impl BuildDir {
    #[verifier::external_body]
    pub fn for_baseline(workspace: &Workspace, options: &Options, console: &Console) -> (r: Result<BuildDir>) ensures r matches Ok(d) ==> first_dir(d, *workspace, *options) { unimplemented!() }
    #[verifier::external_body]
    pub fn in_place(source: &Utf8Path) -> (r: Result<BuildDir>) ensures r matches Ok(d) ==> d.path@ == s_canon(source@) && d.temp_dir.is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from(source: &Utf8Path, options: &Options, console: &Console) -> (r: Result<BuildDir>) ensures r matches Ok(d) ==> handed(d) && scratch(d, *options) { unimplemented!() }
}
pub uninterp spec fn s_from_baseline(o: ScenarioOutcome, p: Options) -> Timeouts;
pub uninterp spec fn s_without_baseline(p: Options) -> Timeouts;
pub uninterp spec fn s_for_baseline(p: Options) -> Timeouts;
impl Timeouts {
    #[verifier::external_body]
    pub fn from_baseline(o: &ScenarioOutcome, p: &Options) -> (r: Timeouts) ensures r == s_from_baseline(*o, *p) { unimplemented!() }
    #[verifier::external_body]
    pub fn without_baseline(p: &Options) -> (r: Timeouts) ensures r == s_without_baseline(*p) { unimplemented!() }
    #[verifier::external_body]
    pub fn for_baseline(p: &Options) -> (r: Timeouts) ensures r == s_for_baseline(*p) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_jobserver(o: &Options) -> (r: Result<Option<JobClient>>) { unimplemented!() }
/// fastrand::shuffle: a permutation
#[verifier::external_body]
pub fn v_shuffle(m: &mut Vec<Mutant>) ensures final(m)@.to_multiset() == old(m)@.to_multiset(), final(m)@.len() == old(m)@.len() { unimplemented!() }
//%paths fastrand::shuffle => v_shuffle
//%paths Mutex::new(mutants.into_iter()) => Mutex::new(mutants.v_into_iter())
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
impl Error {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>) ensures (r matches Some(x) ==> old(self)@.len() > 0 && x == old(self)@[0]), r is None ==> old(self)@.len() == 0 { unimplemented!() }
}
// ---- threads: a spawned closure runs once, join gives what it returned (assumed contracts of std::thread::scope) ----
//%paths std::panic::resume_unwind => resume_unwind
//%shim thread::ScopedJoinHandle => JoinHandle
pub struct Panic { _p: u8 }
#[verifier::external_body]
pub fn resume_unwind(p: Panic) -> ! { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<'a, T> { _p: core::marker::PhantomData<&'a T> }
impl<'a, T> JoinHandle<'a, T> {
    pub uninterp spec fn res(&self) -> T;
    #[verifier::external_body]
    pub fn join(self) -> (r: core::result::Result<T, Panic>) ensures r matches Ok(x) ==> x == self.res() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct VScope { pub _p: u8 }
pub fn v_scope() -> VScope { VScope { _p: 0 } }
impl VScope {
    #[verifier::external_body]
    pub fn spawn<'a, F: FnOnce() -> Result<()>>(&self, f: F, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle<'a, Result<()>>)
        requires f.requires(()),
        ensures final(w).threads == old(w).threads.push(r.res()), f.ensures((), r.res()),
            final(w).queue == old(w).queue, final(w).listed == old(w).listed, final(w).baseline == old(w).baseline, final(w).baseline_packages == old(w).baseline_packages, final(w).baseline_limits == old(w).baseline_limits,
    { unimplemented!() }
}
/// a worker has returned Ok from Worker::run_queue on this queue: by the contract proved in unit lab it tested, with these limits and
/// packages, and recorded each mutant it took, and then found the queue empty
pub uninterp spec fn drained(q: Mutex<VIter<Mutant>>, t: Timeouts, tests: TestsForMutant, options: Options, out: Mutex<OutputDir>) -> bool;
/// contract of Worker::run_queue (proved in unit lab)
impl Worker<'_> {
    #[verifier::external_body]
    pub fn run_queue(self, work_queue: &Mutex<VIter<Mutant>>, timeouts: Timeouts) -> (r: Result<()>)
        requires true,
            handed(*self.build_dir), //%[C02,C08]
            fits(*self.build_dir, *self.options), //%[C29]
        ensures r is Ok ==> drained(*work_queue, timeouts, *self.tests_for_mutant, *self.options, *self.output_mutex),
    { unimplemented!() }
}
/// contract of Worker::run_one_scenario (proved in unit lab), for the baseline
impl Worker<'_> {
    #[verifier::external_body]
    pub fn run_one_scenario(&mut self, scenario: &Scenario, test_packages: &PackageSelection, timeouts: Timeouts, Tracked(w): Tracked<&mut World>) -> (r: Result<ScenarioOutcome>)
        requires scenario is Baseline, old(w).threads.len() == 0,
            fits(*old(self).build_dir, *old(self).options), //%[C29]
        ensures final(w).listed == old(w).listed, final(w).threads == old(w).threads, final(w).queue == old(w).queue,
            r matches Ok(o) ==> o.scenario is Baseline && o.phase_results@.len() > 0 && final(w).baseline == Some(o) && final(w).baseline_packages == Some(*test_packages) && final(w).baseline_limits == Some(timeouts),
    { unimplemented!() }
}
//%methods clone=v_clone
impl<T> VIter<T> {
    /// itertools: a permutation
    #[verifier::external_body]
    pub fn v_sorted_by_key<K, F: Fn(&T) -> K>(self, f: F) -> (r: VIter<T>) ensures r@.to_multiset() == self@.to_multiset(), forall|x: T| #[trigger] r@.contains(x) <==> self@.contains(x), forall|i: int| 0 <= i < self@.len() ==> r@.contains(#[trigger] self@[i]) { unimplemented!() }
    /// itertools: duplicates removed
    #[verifier::external_body]
    pub fn v_unique(self) -> (r: VIter<T>) ensures forall|x: T| #[trigger] r@.contains(x) <==> self@.contains(x), forall|x: T| r@.contains(x) <==> #[trigger] self@.contains(x), r@.no_duplicates() { unimplemented!() }
}
//%methods sorted_by_key=v_sorted_by_key unique=v_unique
//%ghost write_mutants_list run_baseline run_one_scenario spawn

pub open spec fn is_mutated_pkg(s: Seq<Mutant>, p: Arc<Package>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).source_file.package == p }
//%fn lab.rs Lab::make_worker
//%spec
    ensures r.options == self.options, r.build_dir == build_dir, *r.tests_for_mutant == self.tests_for_mutant, r.output_mutex == &self.output_mutex,
//%end
//%fn lab.rs Lab::run_baseline
//%wparam
//%spec
    requires old(w).threads.len() == 0,
        fits(*build_dir, *self.options), //%[C29]
    ensures final(w).listed == old(w).listed, final(w).threads == old(w).threads, final(w).queue == old(w).queue,
        r matches Ok(o) ==> o.scenario is Baseline && o.phase_results@.len() > 0 && final(w).baseline == Some(o)
            && final(w).baseline_limits == Some(s_for_baseline(*self.options)) //%[C07,C14]
            && (final(w).baseline_packages matches Some(PackageSelection::Explicit(v)) && forall|p: Arc<Package>| v@.contains(p) <==> is_mutated_pkg(mutants@, p)) //%[C07,C23]
            ,
//%closure 0
    |$0: &Mutant| -> (p: Arc<Package>) ensures p == $0.source_file.package
//%closure 1
    |$0: &Arc<Package>| -> (s: String)
//%paths Arc::clone => v_arc_clone
//%end
#[verifier::external_body]
pub fn v_arc_clone<T>(a: &Arc<T>) -> (r: Arc<T>) ensures r == *a { unimplemented!() }
pub open spec fn s_tests_for(o: Options, ws: Workspace, t: TestsForMutant) -> bool {
    match o.test_package {
        TestPackages::Workspace => t is Workspace,
        TestPackages::Mutated => t is Mutated,
        TestPackages::Named(n) => t matches TestsForMutant::Explicit(p) && p@ == ws.s_by_name(n@) }
}
//%fn lab.rs TestsForMutant::new
//%spec
    ensures s_tests_for(*options, *workspace, r),
//%end

//%fn lab.rs Lab::run_queue
//%spec
    requires true,
        handed(*build_dir), //%[C02,C08]
        fits(*build_dir, *self.options), //%[C29]
    ensures r is Ok ==> drained(*work_queue, timeouts, self.tests_for_mutant, *self.options, self.output_mutex),
//%end
proof fn ax_somes<T>(s: Seq<Option<T>>)
    ensures somes(s).len() == 0 ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is None,
    decreases s.len()
{ if s.len() > 0 { ax_somes(s.drop_last()); assert forall|i: int| 0 <= i < s.len() && somes(s).len() == 0 implies (#[trigger] s[i]) is None by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } } } }
pub broadcast proof fn lem_somes<T>(s: Seq<Option<T>>)
    ensures (#[trigger] somes(s)).len() == 0 ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is None,
{ ax_somes(s); }
//%fn lab.rs join_threads
//%entry
    broadcast use lem_somes;
//%closure 0
    |$0: JoinHandle<'_, Result<()>>| -> (o: Option<Error>) ensures o is None ==> $0.res() is Ok
//%spec
    ensures r is Ok ==> forall|i: int| 0 <= i < threads@.len() ==> (#[trigger] threads@[i]).res() is Ok,
//%end
/// each worker thread that returned Ok drained the one queue, with the one set of limits and packages
pub open spec fn workers_ok(w: World, o: Options) -> bool {
    w.queue matches Some(q) && forall|i: int| 0 <= i < w.threads.len() && (#[trigger] w.threads[i]) is Ok ==> drained(q.0, q.1, q.2, o, q.3)
}
pub open spec fn gives_back(v: Vec<JoinHandle<'_, Result<()>>>, s: Seq<Result<()>>) -> bool { v@.len() == s.len() && forall|i: int| #![trigger v@[i]] #![trigger s[i]] 0 <= i < s.len() ==> v@[i].res() == s[i] }
//%fn lab.rs test_mutants
//%wparam
//%opaque 1 `options.jobserver.then(...).transpose().context(...)?` => `v_jobserver(options)?`
//%opaque `console.lab_finished(&output_dir.lab_outcome, start_time, options)` => `console.v_lab_finished(&output_dir, Tracked(w))`
//%spec
    requires old(w).threads.len() == 0, old(w).baseline.is_none(), old(w).listed.is_none(),
    ensures
        final(w).threads.len() > 0 && options.baseline != BaselineStrategy::Skip ==> (final(w).baseline matches Some(o) && o.phase_results@.last().process_status == Exit::Success), //%[C07]
        final(w).baseline is Some ==> options.baseline == BaselineStrategy::Run, //%[C07]
        mutants@.len() == 0 && r is Ok ==> final(w).threads.len() == 0 && final(w).baseline.is_none(),
        final(w).threads.len() > 0 ==> workers_ok(*final(w), *options) && final(w).queue.unwrap().0.init()@.to_multiset() == mutants@.to_multiset() && final(w).listed == Some(final(w).queue.unwrap().0.init()@), //%[C08]
        r is Ok && mutants@.len() > 0 && (options.baseline == BaselineStrategy::Skip || final(w).baseline.unwrap().phase_results@.last().process_status == Exit::Success) ==> final(w).threads.len() > 0, //%[C08]
        r is Ok ==> forall|i: int| 0 <= i < final(w).threads.len() ==> (#[trigger] final(w).threads[i]) is Ok, //%[C08]
        final(w).threads.len() > 0 ==> final(w).queue.unwrap().1 == (if options.baseline == BaselineStrategy::Skip { s_without_baseline(*options) } else { s_from_baseline(final(w).baseline.unwrap(), *options) }), //%[C14]
        final(w).threads.len() > 0 ==> s_tests_for(*options, *workspace, final(w).queue.unwrap().2), //%[C23]
        r matches Ok(l) ==> final(w).threads.len() > 0 ==> final(w).summary == Some(l), //%[C28]
        ({ let n = final(w).threads.len(); n > 0 ==> n <= (if mutants@.len() >= 1 { mutants@.len() } else { 1 }) && (options.jobs matches Some(j) ==> j >= 1 ==> n <= j) && (options.jobs.is_none() ==> n == 1) }), //%[C08]
//%loop 0 it it
//%loop 0
    invariant
        lab.options == options, gives_back(threads, w.threads), w.threads.len() == it.index@, it.snapshot@.remaining().len() == n_threads,
        w.threads.len() > 0 ==> workers_ok(*w, *options) && w.queue == Some((*work_queue, timeouts, lab.tests_for_mutant, lab.output_mutex)),
        w.listed == listed0, w.baseline == baseline0,
        build_dir_0.init() matches Some(d) && fits(d, *options), //%[C29]
//%loop 0 before
    let ghost listed0 = w.listed;
    let ghost baseline0 = w.baseline;
//%loop 0 start
    proof { w.queue = Some((*work_queue, timeouts, lab.tests_for_mutant, lab.output_mutex)); }
//%closure 0
    || -> (o: Result<()>) ensures o is Ok ==> drained(*work_queue, timeouts, lab.tests_for_mutant, *lab.options, lab.output_mutex)
//%end
} // verus!
fn main() {}
