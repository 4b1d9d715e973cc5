use vstd::prelude::*;
verus! {
//%include shim_core.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: u8 }
pub uninterp spec fn s_from(a: f64) -> Duration;
impl Duration {
    #[verifier::external_body]
    pub fn from_secs_f64(a: f64) -> (r: Duration) ensures r == s_from(a) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Colors { _p: u8 }
#[verifier::external_body]
pub struct RegexSet { _p: u8 }
#[verifier::external_body]
pub struct GlobSet { _p: u8 }
#[verifier::external_body]
pub struct ReError { _p: u8 }
/// the set of these patterns (unit glob for the globs); None if one is not well formed
pub uninterp spec fn s_regexes(p: Seq<String>) -> Option<RegexSet>;
pub uninterp spec fn s_globs(p: Seq<String>) -> Option<Option<GlobSet>>;
impl RegexSet {
    #[verifier::external_body]
    pub fn new(p: &[String]) -> (r: core::result::Result<RegexSet, ReError>) ensures r is Ok <==> s_regexes(p@) is Some, r matches Ok(x) ==> s_regexes(p@) == Some(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == re_empty(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &String) -> (r: bool) ensures r == re_match(*self, s@) { unimplemented!() }
}
pub uninterp spec fn re_empty(r: RegexSet) -> bool;
pub uninterp spec fn re_match(r: RegexSet, s: Seq<char>) -> bool;
pub uninterp spec fn glob_match(r: GlobSet, s: Seq<char>) -> bool;
impl GlobSet {
    #[verifier::external_body]
    pub fn is_match(&self, s: &Utf8Path) -> (r: bool) ensures r == glob_match(*self, s@) { unimplemented!() }
}
#[verifier::external_body]
pub fn build_glob_set(p: &[String]) -> (r: Result<Option<GlobSet>>) ensures r is Ok <==> s_globs(p@) is Some, r matches Ok(x) ==> s_globs(p@) == Some(x) { unimplemented!() }
pub trait VCtx<T>: Sized { spec fn val(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r matches Ok(v) ==> self.val() == Some(v); }
impl<T> VCtx<T> for core::result::Result<T, ReError> { open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
//%shim super::Features => Features
//%type main.rs Features
//%type main.rs BaselineStrategy derive(PartialEq, Eq, Structural, Clone, Copy)
//%type options.rs TestTool derive(PartialEq, Eq, Structural, Clone, Copy)
//%type options.rs TestPackages
//%type options.rs Options
//%type config.rs Config
//%type main.rs Args drop=completions,level,shard,dir,manifest_path
//%type outcome.rs Phase derive(PartialEq, Eq, Structural, Clone, Copy)
#[verifier::external_body]
pub struct Mutant { _p: u8 }
impl Mutant {
    pub uninterp spec fn s_name(&self, lc: bool) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self, lc: bool) -> (r: String) ensures r@ == self.s_name(lc) { unimplemented!() }
}
impl VClone for Features { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for Utf8PathBuf { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
//%methods clone=v_clone
impl Default for TestTool { #[verifier::external_body] fn default() -> (r: TestTool) { unimplemented!() } }
pub trait VOpt<T>: Sized { spec fn o(self) -> Option<T>; fn v_or(self, b: Option<T>) -> (r: Option<T>) ensures r == (match self.o() { Some(x) => Some(x), None => b });
    fn v_opt_default(self) -> (r: T) ensures self.o() matches Some(x) ==> r == x, self.o().is_none() ==> is_default(r); }
pub uninterp spec fn is_default<T>(t: T) -> bool;
/// #[derive(Default)] with #[default] on Cargo
#[verifier::external_body]
pub broadcast proof fn axiom_default_tool(t: TestTool) ensures #[trigger] is_default(t) <==> t == TestTool::Cargo {}
impl<T> VOpt<T> for Option<T> { open spec fn o(self) -> Option<T> { self }
    fn v_or(self, b: Option<T>) -> (r: Option<T>) { match self { Some(x) => Some(x), None => b } }
    #[verifier::external_body]
    fn v_opt_default(self) -> (r: T) { unimplemented!() } }
pub trait VOptRef<T>: Sized { spec fn oo(self) -> Option<T>; fn v_ocloned(self) -> (r: Option<T>) ensures r == self.oo(); }
impl<'a, T: VClone> VOptRef<T> for Option<&'a T> { open spec fn oo(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body]
    fn v_ocloned(self) -> (r: Option<T>) { unimplemented!() } }
/// each string split at commas, in order
pub uninterp spec fn s_commas(s: Seq<String>) -> Seq<String>;
#[verifier::external_body]
pub fn v_commas(s: &Vec<String>) -> (r: VIter<String>) ensures r@ == s_commas(s@) { unimplemented!() }
pub uninterp spec fn s_lit(s: Seq<char>) -> String;
#[verifier::external_body]
pub broadcast proof fn axiom_lit(s: Seq<char>) ensures (#[trigger] s_lit(s))@ == s {}
pub trait VToOwned { spec fn ch(&self) -> Seq<char>; fn v_to_owned(&self) -> (r: String) ensures r == s_lit(self.ch()); }
impl VToOwned for str { open spec fn ch(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_to_owned(&self) -> (r: String) { unimplemented!() } }
//%methods to_owned=v_to_owned
//%methods or=v_or unwrap_or_default=v_opt_default
// ---- helpers ----
//%fn options.rs join_slices
//%spec
    ensures r@ == a@ + b@,
//%end
//%fn options.rs or_slices
//%spec
    ensures r@ == first_nonempty(a@, b@),
//%end
pub open spec fn first_nonempty<T>(a: Seq<T>, b: Seq<T>) -> Seq<T> { if a.len() == 0 { b } else { a } }
pub open spec fn or<T>(a: Option<T>, b: Option<T>) -> Option<T> { match a { Some(x) => Some(x), None => b } }
pub open spec fn dflt<T>(a: Option<T>, b: T) -> T { match a { Some(x) => x, None => b } }
pub open spec fn secs(a: Option<f64>) -> Option<Duration> { match a { Some(x) => Some(s_from(x)), None => None } }
/// which packages' tests are run (C23)
pub open spec fn packages_ok(a: Args, c: Config, t: TestPackages) -> bool {
    if a.test_workspace == Some(true) { t is Workspace }
    else if a.test_package@.len() > 0 { t matches TestPackages::Named(v) && v@ == s_commas(a.test_package@) }
    else if a.test_workspace.is_none() && c.test_workspace == Some(true) { t is Workspace }
    else if c.test_package@.len() > 0 { t matches TestPackages::Named(v) && v@ == c.test_package@ }
    else { t is Mutated }
}
//%fn options.rs Options::new
//%opaque 1 `args.test_package.iter().flat_map(|s| s.split(',')).map(ToString::to_string)` => `v_commas(&args.test_package)`
//%opaque 1 `args.skip_calls.iter().flat_map(|s| s.split(',')).map(ToString::to_string)` => `v_commas(&args.skip_calls)`
//%opaque `options.error_values.iter().for_each(...);` => ``
//%opaque 1 `.or(config.profile.as_ref()).cloned()` => `.v_or(config.profile.as_ref()).v_ocloned()`
//%methods map=map
//%entry
    broadcast use axiom_default_tool;
//%spec
    ensures
        r matches Ok(o) ==> {
            &&& o.test_timeout == secs(args.timeout) //%[C14,C19]
            &&& o.build_timeout == secs(args.build_timeout) //%[C14,C19]
            &&& o.test_timeout_multiplier == or(args.timeout_multiplier, config.timeout_multiplier) //%[C14,C19]
            &&& o.build_timeout_multiplier == or(args.build_timeout_multiplier, config.build_timeout_multiplier) //%[C14,C19]
            &&& o.minimum_test_timeout == s_from(dflt(or(args.minimum_test_timeout, config.minimum_test_timeout), 20f64)) //%[C14,C19]
            &&& packages_ok(*args, *config, o.test_package) //%[C19,C23]
            &&& o.cap_lints == dflt(args.cap_lints, config.cap_lints) //%[C18,C19]
            &&& o.copy_vcs == dflt(or(args.copy_vcs, config.copy_vcs), false) //%[C19,C20]
            &&& o.gitignore == args.gitignore //%[C19,C20]
            &&& o.profile == or(args.profile, config.profile) //%[C18,C19]
            &&& o.output_in_dir == or(args.output, config.output) //%[C19,C13,C26]
            &&& o.test_tool == dflt(or(args.test_tool, config.test_tool), TestTool::Cargo) //%[C18,C19]
            &&& o.features == args.features //%[C18,C19]
            &&& o.additional_cargo_args@ == args.cargo_arg@ + config.additional_cargo_args@ //%[C18,C19]
            &&& o.additional_cargo_test_args@ == args.cargo_test_args@ + config.additional_cargo_test_args@ //%[C18,C19]
            &&& o.error_values@ == args.error@ + config.error_values@ //%[C19]
            &&& Some(o.examine_names) == s_regexes(first_nonempty(args.examine_re@, config.examine_re@)) //%[C12,C19]
            &&& Some(o.exclude_names) == s_regexes(first_nonempty(args.exclude_re@, config.exclude_re@)) //%[C12,C19]
            &&& Some(o.examine_globset) == s_globs(first_nonempty(args.file@, config.examine_globs@)) //%[C12,C19]
            &&& Some(o.exclude_globset) == s_globs(first_nonempty(args.exclude@, config.exclude_globs@)) //%[C12,C19]
            &&& o.skip_calls@ == s_commas(args.skip_calls@) + config.skip_calls@ + (if dflt(or(args.skip_calls_defaults, config.skip_calls_defaults), true) { seq![s_lit("with_capacity"@)] } else { Seq::<String>::empty() }) //%[C19,C21]
            &&& o.baseline == args.baseline && o.check_only == args.check && o.in_place == args.in_place && o.jobs == args.jobs //%[C19]
            &&& o.print_caught == args.caught && o.print_unviable == args.unviable && o.show_times == !args.no_times && o.show_all_logs == args.all_logs //%[C28]
        },
//%end
//%if C12
//%fn options.rs Options::allows_source_file_path
//%spec
    ensures r == ((self.examine_globset matches Some(g) ==> glob_match(g, path@)) && !(self.exclude_globset matches Some(g) && glob_match(g, path@))),
//%closure 0
    |$0: &GlobSet| -> (b: bool) ensures b == glob_match(*$0, path@)
//%closure 1
    |$0: &GlobSet| -> (b: bool) ensures b == glob_match(*$0, path@)
//%end
//%fn options.rs Options::allows_mutant
//%spec
    ensures r == ((re_empty(self.examine_names) || re_match(self.examine_names, mutant.s_name(true))) && (re_empty(self.exclude_names) || !re_match(self.exclude_names, mutant.s_name(true)))),
//%end
//%endif
} // verus!
fn main() {}
