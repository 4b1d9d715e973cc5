use vstd::prelude::*;
verus! {
//%include shim_core.vrs
//%include shim_pathonly.vrs
// ---- the parts main() connects: opaque values, with uninterpreted results ----
#[verifier::external_body]
pub struct Mutant { _p: u8 }
#[verifier::external_body]
pub struct SourceFile { _p: u8 }
#[verifier::external_body]
pub struct Workspace { _p: u8 }
#[verifier::external_body]
pub struct Console { _p: u8 }
#[verifier::external_body]
pub struct OutputDir { _p: u8 }
#[verifier::external_body]
pub struct File { _p: u8 }
#[verifier::external_body]
pub struct LabOutcome { _p: u8 }
#[verifier::external_body]
pub struct Shell { _p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Level { _p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Colors { _p: u8 }
//%shim tracing::Level => Level
//%type shard.rs Shard derive(Clone, Copy)
//%type workspace.rs PackageFilter
//%type visit.rs Discovered
//%type options.rs Options keep=output_in_dir
//%type main.rs Args keep=manifest_path,dir,version,completions,level,colors,no_config,mutate_packages,workspace,iterate,list_files,in_diff,shard,list
pub mod config { use vstd::prelude::*; verus! {
    #[verifier::external_body]
    pub struct Config { _p: u8 }
    pub uninterp spec fn s_default() -> Config;
    pub uninterp spec fn s_tree(root: Seq<char>) -> Config;
} }
use config::Config;
impl Config {
    #[verifier::external_body]
    pub fn default() -> (r: Config) ensures r == config::s_default() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_tree_config(p: &Utf8Path) -> (r: Result<Config>) ensures r matches Ok(c) ==> c == config::s_tree(p@) { unimplemented!() }
}
pub struct In { pub args: Args }
pub tracked struct World {
    /// what was printed as the list, what was handed to the test lab, what was recorded as skipped, and the exit status
    pub ghost listed: Option<Seq<Mutant>>,
    pub ghost files: Option<Seq<SourceFile>>,
    pub ghost tested: Option<Seq<Mutant>>,
    pub ghost outcome: Option<LabOutcome>,
    pub ghost skipped_recorded: Option<Seq<String>>,
    /// where an output directory was made
    pub ghost out: Option<Seq<char>>,
    pub ghost exited: Option<int>,
}
pub open spec fn fresh(w: World) -> bool { w.listed.is_none() && w.files.is_none() && w.tested.is_none() && w.outcome.is_none() && w.skipped_recorded.is_none() && w.exited.is_none() && w.out.is_none() }
pub uninterp spec fn the_args() -> Args;
pub uninterp spec fn s_ws(dir: Seq<char>) -> Workspace;
pub uninterp spec fn s_options(a: Args, c: Config) -> Options;
pub uninterp spec fn s_discover(w: Workspace, f: PackageFilter, o: Options) -> Discovered;
pub uninterp spec fn s_previous(dir: Seq<char>) -> Seq<String>;
pub uninterp spec fn s_removed(m: Seq<Mutant>, prev: Seq<String>) -> Seq<Mutant>;
pub uninterp spec fn s_diff(m: Seq<Mutant>, d: Seq<char>) -> Seq<Mutant>;
pub uninterp spec fn s_file(p: Seq<char>) -> Seq<char>;
pub uninterp spec fn s_shard(m: Seq<Mutant>, s: Shard) -> Seq<Mutant>;
pub uninterp spec fn s_exit(o: LabOutcome) -> int;
pub uninterp spec fn s_root(w: Workspace) -> Seq<char>;
/// --shard arguments come from Shard::from_str (unit shard): k < n
#[verifier::external_body]
pub fn v_args() -> (r: Result<Args>) ensures r matches Ok(a) ==> a == the_args() && (a.shard matches Some(s) ==> s.k < s.n) { unimplemented!() }
#[verifier::external_body]
pub fn v_generate() { unimplemented!() }
pub uninterp spec fn s_parent(p: Seq<char>) -> Option<Seq<char>>;
/// the directory to look for the workspace in: that of --manifest-path, or --dir, or the current one
pub open spec fn s_dir(a: Args) -> Seq<char> {
    match a.manifest_path { Some(m) => match s_parent(m@) { Some(d) => d, None => arbitrary() }, None => match a.dir { Some(d) => d@, None => "."@ } } }
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Utf8Path>) ensures r is None <==> s_parent(self@) is None, r matches Some(d) ==> s_parent(self@) == Some(d@) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_utf8path_new(s: &'static str) -> (r: &'static Utf8Path) ensures r@ == s@ { unimplemented!() }
/// deref coercion
#[verifier::external_body]
pub fn v_deref(p: &Utf8PathBuf) -> (r: &Utf8Path) ensures r@ == p@ { unimplemented!() }
//%paths Utf8Path::new => v_utf8path_new
impl Console {
    #[verifier::external_body]
    pub fn new() -> Console { unimplemented!() }
    #[verifier::external_body]
    pub fn setup_global_trace(&self, l: Level, c: Colors) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_debug_log(&self, f: File) { unimplemented!() }
}
#[verifier::external_body]
pub fn enable_console_colors(c: Colors) { unimplemented!() }
#[verifier::external_body]
pub fn v_install_handler() { unimplemented!() }
//%paths interrupt::install_handler => v_install_handler
impl Workspace {
    #[verifier::external_body]
    pub fn open(d: &Utf8Path) -> (r: Result<Workspace>) ensures r matches Ok(x) ==> x == s_ws(d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn root(&self) -> (r: &Utf8Path) ensures r@ == s_root(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn discover(&self, f: &PackageFilter, o: &Options, c: &Console) -> (r: Result<Discovered>) ensures r matches Ok(d) ==> d == s_discover(*self, *f, *o) { unimplemented!() }
}
impl Options {
    #[verifier::external_body]
    pub fn new(a: &Args, c: &Config) -> (r: Result<Options>) ensures r matches Ok(o) ==> o == s_options(*a, *c) { unimplemented!() }
}
impl PackageFilter {
    #[verifier::external_body]
    pub fn explicit(n: &Vec<String>) -> (r: PackageFilter) ensures r matches PackageFilter::Explicit(v) && v@ == n@ { unimplemented!() }
}
impl Discovered {
    /// unit iterate
    #[verifier::external_body]
    pub fn remove_previously_caught(&mut self, p: &Vec<String>) ensures final(self).mutants@ == s_removed(old(self).mutants@, p@), final(self).files == old(self).files { unimplemented!() }
}
#[verifier::external_body]
pub fn load_previously_caught(d: &Utf8PathBuf) -> (r: Result<Vec<String>>) ensures r matches Ok(v) ==> v@ == s_previous(d@) { unimplemented!() }
/// unit in_diff
#[verifier::external_body]
pub fn diff_filter(m: Vec<Mutant>, d: &String) -> (r: Result<Vec<Mutant>>) ensures r matches Ok(v) ==> v@ == s_diff(m@, d@) { unimplemented!() }
#[verifier::external_body]
pub fn read_to_string(p: &Utf8PathBuf) -> (r: core::result::Result<String, IoError>) ensures r matches Ok(v) ==> v@ == s_file(p@) { unimplemented!() }
#[verifier::external_body]
pub struct IoError { _p: u8 }
pub trait VCtx<T>: Sized { spec fn val(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r matches Ok(v) ==> self.val() == Some(v); }
impl<T> VCtx<T> for core::result::Result<T, IoError> { open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
impl Shard {
    /// unit shard
    #[verifier::external_body]
    pub fn select(&self, m: Vec<Mutant>) -> (r: Vec<Mutant>) requires self.k < self.n, ensures r@ == s_shard(m@, *self) { unimplemented!() }
}
impl LabOutcome {
    #[verifier::external_body]
    pub fn exit_code(&self) -> (r: i32) ensures r == s_exit(*self) { unimplemented!() }
}
impl OutputDir {
    #[verifier::external_body]
    pub fn new(d: &Utf8PathBuf, Tracked(w): Tracked<&mut World>) -> (r: Result<OutputDir>) requires old(w).out.is_none(), ensures *final(w) == (World { out: Some(d@), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_previously_caught(&self, v: &Vec<String>, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
        ensures final(w).listed == old(w).listed, final(w).files == old(w).files, final(w).tested == old(w).tested, final(w).outcome == old(w).outcome, final(w).exited == old(w).exited, final(w).out == old(w).out, r is Ok ==> final(w).skipped_recorded == Some(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn open_debug_log(&self) -> (r: Result<File>) { unimplemented!() }
}
//%paths OutputDir::new(&output_parent_dir) => OutputDir::new(&output_parent_dir, Tracked(w))
/// unit lab_top
#[verifier::external_body]
pub fn test_mutants(m: Vec<Mutant>, ws: &Workspace, d: OutputDir, o: &Options, c: &Console, Tracked(w): Tracked<&mut World>) -> (r: Result<LabOutcome>)
    requires old(w).tested.is_none(), old(w).out is Some,
    ensures final(w).tested == Some(m@), final(w).listed == old(w).listed, final(w).files == old(w).files, final(w).skipped_recorded == old(w).skipped_recorded, final(w).exited == old(w).exited, final(w).out == old(w).out, r matches Ok(o) ==> final(w).outcome == Some(o), r is Err ==> final(w).outcome == old(w).outcome { unimplemented!() }
#[verifier::external_body]
pub fn v_print_mutants(m: &Vec<Mutant>, o: &Options, Tracked(w): Tracked<&mut World>)
    ensures *final(w) == (World { listed: Some(m@), ..*old(w) }) { unimplemented!() }
#[verifier::external_body]
pub fn v_print_files(m: &Vec<SourceFile>, o: &Options, Tracked(w): Tracked<&mut World>)
    ensures *final(w) == (World { files: Some(m@), ..*old(w) }) { unimplemented!() }
#[verifier::external_body]
pub fn v_exit(c: i32, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { exited: Some(c as int), ..*old(w) }) { unimplemented!() }
#[verifier::external_body]
pub fn v_clone_dir(o: &Option<Utf8PathBuf>) -> (r: Option<Utf8PathBuf>) ensures o is None ==> r is None, o matches Some(d) ==> r matches Some(e) && e@ == d@ { unimplemented!() }
impl Utf8Path {
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Utf8PathBuf) ensures r@ == self@ { unimplemented!() }
}
//%paths exit => v_exit
//%ghost write_previously_caught test_mutants v_exit
// ---- the mutants selected by the whole pipeline ----
pub open spec fn s_config(a: Args) -> Config { if a.no_config { config::s_default() } else { config::s_tree(s_root(s_ws(s_dir(a)))) } }
pub open spec fn filter_ok(a: Args, f: PackageFilter) -> bool {
    if a.mutate_packages@.len() > 0 { f matches PackageFilter::Explicit(v) && v@ == a.mutate_packages@ }
    else if a.workspace { f is All }
    else { f matches PackageFilter::Auto(d) && d@ == s_dir(a) }
}
pub open spec fn out_parent(a: Args, o: Options) -> Seq<char> { match o.output_in_dir { Some(d) => d@, None => s_root(s_ws(s_dir(a))) } }
pub open spec fn chosen(a: Args, f: PackageFilter) -> Seq<Mutant> {
    let o = s_options(a, s_config(a));
    let m0 = s_discover(s_ws(s_dir(a)), f, o).mutants@;
    let m1 = if a.iterate { s_removed(m0, s_previous(out_parent(a, o))) } else { m0 };
    let m2 = match a.in_diff { Some(p) => s_diff(m1, s_file(p@)), None => m1 };
    match a.shard { Some(s) => s_shard(m2, s), None => m2 }
}
pub open spec fn diffed(m: Seq<Mutant>, p: Seq<char>, sh: Option<Shard>) -> bool {
    match sh { None => exists|m1: Seq<Mutant>| m == #[trigger] s_diff(m1, s_file(p)), Some(s) => exists|m1: Seq<Mutant>| m == s_shard(#[trigger] s_diff(m1, s_file(p)), s) }
}
//%fn main.rs main
//%as v_main
//%wparam
//%opaque `verif_hooks::run_if_requested();` => ``
//%opaque 1 `match Cargo::try_parse() {...}` => `v_args()?`
//%opaque 1 `generate(...)` => `v_generate()`
//%opaque 1 `else if let Some(dir) = &args.dir { dir }` => `else if let Some(dir) = &args.dir { v_deref(dir) }`
//%opaque 1 `options.output_in_dir.clone()` => `v_clone_dir(&options.output_in_dir)`
//%closure 0
    || -> (p: Utf8PathBuf) ensures p@ == s_root(workspace)
//%opaque 1 `print!("{}", list_files(&discovered.files, &options));` => `v_print_files(&discovered.files, &options, Tracked(w));`
//%opaque 1 `print!("{}", list_mutants(&mutants, &options));` => `v_print_mutants(&mutants, &options, Tracked(w));`
//%spec
    requires fresh(*old(w)),
    ensures
        final(w).tested matches Some(m) ==> exists|f: PackageFilter| (#[trigger] s_discover(s_ws(s_dir(the_args())), f, s_options(the_args(), s_config(the_args())))).mutants@.len() >= 0 && filter_ok(the_args(), f) && m == chosen(the_args(), f), //%[C12,C13,C19,C23]
        final(w).listed matches Some(m) ==> exists|f: PackageFilter| (#[trigger] s_discover(s_ws(s_dir(the_args())), f, s_options(the_args(), s_config(the_args())))).mutants@.len() >= 0 && filter_ok(the_args(), f) && m == chosen(the_args(), f), //%[C12,C13,C19,C23]
        the_args().shard matches Some(s) ==> (final(w).tested matches Some(m) ==> exists|m2: Seq<Mutant>| m == #[trigger] s_shard(m2, s)), //%[C09]
        the_args().shard matches Some(s) ==> (final(w).listed matches Some(m) ==> exists|m2: Seq<Mutant>| m == #[trigger] s_shard(m2, s)), //%[C09]
        the_args().in_diff matches Some(p) ==> (final(w).tested matches Some(m) ==> diffed(m, p@, the_args().shard)), //%[C10,C11]
        the_args().in_diff matches Some(p) ==> (final(w).listed matches Some(m) ==> diffed(m, p@, the_args().shard)), //%[C10,C11]
        final(w).tested is Some ==> !the_args().list && !the_args().list_files,
        the_args().list || the_args().list_files || the_args().version || the_args().completions is Some ==> final(w).tested.is_none() && final(w).out.is_none(),
        // a list is printed if one is asked for, and of what is asked for
        final(w).files matches Some(x) ==> exists|f: PackageFilter| x == (#[trigger] s_discover(s_ws(s_dir(the_args())), f, s_options(the_args(), s_config(the_args())))).files@ && filter_ok(the_args(), f), //%[C24,C27]
        r is Ok && !the_args().version && the_args().completions.is_none() ==> (final(w).files.is_some() <==> the_args().list_files) && (final(w).listed.is_some() <==> the_args().list && !the_args().list_files), //%[C27]
        // the output directory is where --output, the environment or the configuration says, or else in the tree
        final(w).out matches Some(d) ==> d == out_parent(the_args(), s_options(the_args(), s_config(the_args()))), //%[C26]
        // a run that is not for a list makes the output directory and tests, even when nothing is left to test
        r is Ok && !the_args().version && the_args().completions.is_none() && !the_args().list && !the_args().list_files ==> final(w).out.is_some() && final(w).tested.is_some(), //%[C08,C26]
        // whatever --iterate skips is recorded before testing starts
        final(w).tested is Some && the_args().iterate ==> final(w).skipped_recorded == Some(s_previous(out_parent(the_args(), s_options(the_args(), s_config(the_args()))))), //%[C13]
        // the exit status is that of the outcome; without one the run ends with an error
        final(w).exited matches Some(c) ==> final(w).outcome matches Some(o) && c == s_exit(o), //%[C06,C08]
        final(w).tested is Some && final(w).exited.is_none() ==> r is Err, //%[C06,C08]
//%end
} // verus!
fn main() {}
