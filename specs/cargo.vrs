use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::sync::Arc;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { _p: u8 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> (r: Instant) { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) { unimplemented!() }
}
#[verifier::external_body]
pub struct JobClient { _p: u8 }
#[verifier::external_body]
pub struct Console { _p: u8 }
#[verifier::external_body]
pub struct BuildDir { _p: u8 }
#[verifier::external_body]
pub struct ScenarioOutput { _p: u8 }
#[verifier::external_body]
pub struct Colors { _p: u8 }
#[verifier::external_body]
pub struct RegexSet { _p: u8 }
#[verifier::external_body]
pub struct GlobSet { _p: u8 }
//%shim jobserver::Client => JobClient
//%shim super::Features => Features
//%type package.rs Package
//%type package.rs PackageSelection
//%type main.rs Features
//%type options.rs TestTool derive(PartialEq, Eq, Structural, Clone, Copy)
//%type options.rs Options keep=test_tool,profile,features,additional_cargo_args,additional_cargo_test_args,cap_lints
//%type outcome.rs Phase derive(PartialEq, Eq, Structural, Clone, Copy)
//%type process.rs Exit derive(PartialEq, Eq, Structural, Clone, Copy)
//%type outcome.rs PhaseResult
// ---- strings and vectors (assumed: their documented meaning) ----
pub trait VOwn { spec fn ov(&self) -> Seq<char>; fn v_own(&self) -> (r: String) ensures r@ == self.ov(); fn v_empty(&self) -> (r: bool) ensures r == (self.ov().len() == 0); }
impl VOwn for str { open spec fn ov(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_own(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_empty(&self) -> (r: bool) { unimplemented!() } }
impl VOwn for String { open spec fn ov(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_own(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_empty(&self) -> (r: bool) { unimplemented!() } }
pub trait VExt<T> { spec fn ev(&self) -> Seq<T>; fn v_extend(&mut self, i: VIter<T>) ensures final(self).ev() == old(self).ev() + i@; }
impl<T> VExt<T> for Vec<T> { open spec fn ev(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_extend(&mut self, i: VIter<T>) { unimplemented!() } }
//%methods to_string=v_own to_owned=v_own is_empty=v_empty extend=v_extend split=v_split join=v_join unwrap_or_else=v_unwrap_or_else
pub open spec fn tx(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn l_push(v: Seq<String>, s: String) ensures #[trigger] tx(v.push(s)) == tx(v) + seq![s@] { assert(tx(v.push(s)) =~= tx(v) + seq![s@]); }
pub broadcast proof fn l_assoc(a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: Seq<Seq<char>>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn l_right(a: Seq<Seq<char>>) ensures #[trigger] (a + Seq::empty()) == a { assert(a + Seq::empty() =~= a); }
pub broadcast proof fn l_left2(a: Seq<Seq<char>>) ensures #[trigger] (Seq::<Seq<char>>::empty() + a) == a { assert(Seq::<Seq<char>>::empty() + a =~= a); }
pub broadcast proof fn l_add(a: Seq<String>, b: Seq<String>) ensures #[trigger] tx(a + b) == tx(a) + tx(b) { assert(tx(a + b) =~= tx(a) + tx(b)); }
pub broadcast proof fn l_none() ensures #[trigger] tx(Seq::empty()) == Seq::<Seq<char>>::empty() { assert(tx(Seq::empty()) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn l_left(s: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + s) == s { assert(Seq::<char>::empty() + s =~= s); }
// ---- the environment (assumed constant during a run) ----
pub uninterp spec fn s_env(n: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub struct VarError { _p: u8 }
#[verifier::external_body]
pub fn v_env(n: &str) -> (r: core::result::Result<String, VarError>) ensures r matches Ok(v) ==> s_env(n@) == Some(v@), r is Err ==> s_env(n@).is_none() { unimplemented!() }
//%paths env::var => v_env
pub trait VResX<T, E>: Sized { spec fn rx(self) -> core::result::Result<T, E>;
    fn v_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) requires self.rx() matches Err(e) ==> call_requires(f, (e,)), ensures match self.rx() { Ok(v) => r == v, Err(e) => call_ensures(f, (e,), r) }; }
impl<T, E> VResX<T, E> for core::result::Result<T, E> { open spec fn rx(self) -> core::result::Result<T, E> { self }
    fn v_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) { match self { Ok(v) => v, Err(e) => f(e) } } }
// ---- C18: the command line ----
pub open spec fn s_bin() -> Seq<char> { match s_env("CARGO"@) { Some(c) => c, None => "cargo"@ } }
pub open spec fn sub(p: Phase, t: TestTool) -> Seq<Seq<char>> {
    match (p, t) {
        (Phase::Check, _) => seq!["check"@] + seq!["--tests"@],
        (Phase::Build, TestTool::Cargo) => seq!["test"@] + seq!["--no-run"@],
        (Phase::Build, TestTool::Nextest) => seq!["nextest"@] + seq!["run"@] + seq!["--no-run"@],
        (Phase::Test, TestTool::Cargo) => seq!["test"@],
        (Phase::Test, TestTool::Nextest) => seq!["nextest"@] + seq!["run"@] } }
pub open spec fn profile_arg(p: Phase, o: Options) -> Seq<Seq<char>> {
    match o.profile { None => Seq::empty(), Some(n) => if p != Phase::Check && o.test_tool == TestTool::Nextest { seq!["--cargo-profile="@ + n@] } else { seq!["--profile="@ + n@] } } }
pub open spec fn pkg_args(s: PackageSelection) -> Seq<Seq<char>> {
    match s { PackageSelection::All => seq!["--workspace"@], PackageSelection::Explicit(v) => Seq::new(v@.len(), |i: int| "--package="@ + (v@[i].name@ + "@"@ + v@[i].version@)) } }
pub open spec fn feature_args(f: Features) -> Seq<Seq<char>> {
    (if f.no_default_features { seq!["--no-default-features"@] } else { Seq::empty() }) + (if f.all_features { seq!["--all-features"@] } else { Seq::empty() })
        + named_features(f.features@) }
pub open spec fn argv(s: PackageSelection, p: Phase, o: Options) -> Seq<Seq<char>> {
    seq![s_bin()] + sub(p, o.test_tool) + profile_arg(p, o) + seq!["--verbose"@] + pkg_args(s) + feature_args(o.features) + tx(o.additional_cargo_args@)
        + (if p == Phase::Test { tx(o.additional_cargo_test_args@) } else { Seq::empty() }) }
pub broadcast proof fn l_pkgs(x: Seq<String>, v: Vec<Arc<Package>>)
    requires x.len() == v@.len(), forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == "--package="@ + (v@[i].name@ + "@"@ + v@[i].version@),
    ensures #![trigger tx(x), pkg_args(PackageSelection::Explicit(v))] tx(x) == pkg_args(PackageSelection::Explicit(v))
{ assert(tx(x) =~= pkg_args(PackageSelection::Explicit(v))); }
pub open spec fn named_features(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| "--features="@ + v[i]@) }
pub broadcast proof fn l_feats(x: Seq<String>, v: Seq<String>)
    requires x.len() == v.len(), forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == "--features="@ + v[i]@,
    ensures #![trigger tx(x), named_features(v)] tx(x) == named_features(v)
{ assert(tx(x) =~= named_features(v)); }
//%fn cargo.rs cargo_bin
//%closure 0
    |$0: VarError| -> (s: String) ensures s@ == "cargo"@
//%spec
    ensures r@ == s_bin(),
//%end
//%fn package.rs Package::version_qualified_name
//%spec
    ensures r@ == self.name@ + "@"@ + self.version@,
//%entry
    broadcast use l_left;
//%end
//%fn cargo.rs cargo_argv
//%closure 0
    |$0: &Arc<Package>| -> (s: String) ensures s@ == "--package="@ + ($0.name@ + "@"@ + $0.version@)
//%closure 1
    |$0: &String| -> (s: String) ensures s@ == "--features="@ + $0@
//%spec
    ensures tx(r@) == argv(*packages, phase, *options),
//%entry
    broadcast use {l_push, l_add, l_none, l_left, l_assoc, l_right, l_left2, l_pkgs, l_feats};
//%end
// ---- rust flags ----
pub uninterp spec fn s_split(t: Seq<char>, c: char) -> Seq<Seq<char>>;
pub uninterp spec fn s_join(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>;
pub open spec fn strs(l: Seq<&str>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| l[i]@) }
pub trait VStrX { spec fn tv(&self) -> Seq<char>; fn v_split<'a>(&'a self, c: char) -> (r: VIter<&'a str>) ensures strs(r@) == s_split(self.tv(), c); }
impl VStrX for String { open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_split<'a>(&'a self, c: char) -> (r: VIter<&'a str>) { unimplemented!() } }
pub trait VJoin { spec fn jv(&self) -> Seq<Seq<char>>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == s_join(self.jv(), sep@); }
impl<'a> VJoin for Vec<&'a str> { open spec fn jv(&self) -> Seq<Seq<char>> { strs(self@) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn once<T>(x: T) -> (r: VIter<T>) ensures r@ == seq![x] { unimplemented!() }
/// String + &str + &str
#[verifier::external_body]
pub fn v_cat(a: String, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }
pub open spec fn nonempty(l: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else if l.last().len() == 0 { nonempty(l.drop_last()) } else { nonempty(l.drop_last()).push(l.last()) } }
pub broadcast proof fn l_nonempty(m: Seq<&str>, k: Seq<bool>)
    requires k.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> k[i] == ((#[trigger] m[i])@.len() != 0),
    ensures strs(#[trigger] select(m, k)) == nonempty(strs(m)),
    decreases m.len()
{ if m.len() > 0 { assert forall|i: int| 0 <= i < m.drop_last().len() implies k.drop_last()[i] == ((#[trigger] m.drop_last()[i])@.len() != 0) by { assert(m.drop_last()[i] == m[i]); }
    l_nonempty(m.drop_last(), k.drop_last()); assert(strs(m).drop_last() =~= strs(m.drop_last())); assert(strs(m).last() == m.last()@);
    let q = select(m.drop_last(), k.drop_last()); assert(strs(q.push(m.last())) =~= strs(q).push(m.last()@)); }
  else { assert(strs(select(m, k)) =~= Seq::empty()); assert(strs(m).len() == 0); } }
pub broadcast proof fn l_strs_add(a: Seq<&str>, b: Seq<&str>)
    requires b.len() == 1,
    ensures strs(#[trigger] (a + b)) == strs(a).push(b[0]@)
{ assert(strs(a + b) =~= strs(a).push(b[0]@)); }
/// the flags that were in the environment, all kept in order, then the cap, once
pub open spec fn capped() -> Seq<char> {
    match s_env("CARGO_ENCODED_RUSTFLAGS"@) {
        Some(e) => if e.len() == 0 { "--cap-lints=warn"@ } else { e + "\x1f"@ + "--cap-lints=warn"@ },
        None => match s_env("RUSTFLAGS"@) {
            Some(f) => if f.len() == 0 { "--cap-lints=warn"@ } else { s_join(nonempty(s_split(f, ' ')).push("--cap-lints=warn"@), "\x1f"@) },
            None => "--cap-lints=warn"@ } } }
//%fn cargo.rs encoded_rustflags
//%opaque 1 `encoded + separator + cap_lints_arg` => `v_cat(encoded, separator, cap_lints_arg)`
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == ($0@.len() != 0)
//%spec
    ensures options.cap_lints ==> (r matches Some(s) && s@ == capped()), !options.cap_lints ==> r is None,
//%entry
    broadcast use {l_nonempty, l_strs_add};
//%end
// ---- one cargo command ----
pub ghost struct Spawn { pub argv: Seq<Seq<char>>, pub env: Seq<(Seq<char>, Seq<char>)>, pub dir: Seq<char>, pub timeout: Option<Duration>, pub status: Exit }
pub tracked struct World { pub ghost spawned: Seq<Spawn> }
pub open spec fn ptx(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1@)) }
pub broadcast proof fn l_ppush(v: Seq<(String, String)>, s: (String, String)) ensures #[trigger] ptx(v.push(s)) == ptx(v).push((s.0@, s.1@)) { assert(ptx(v.push(s)) =~= ptx(v).push((s.0@, s.1@))); }
#[verifier::external_body]
pub struct Process { _p: u8 }
impl Process {
    /// contract of Process::run (unit process): one command, these arguments, environment, directory and limit
    #[verifier::external_body]
    pub fn run(argv: &[String], env: &[(String, String)], dir: &Utf8Path, timeout: Option<Duration>, jobserver: Option<&JobClient>, scenario_output: &mut ScenarioOutput, console: &Console, Tracked(w): Tracked<&mut World>) -> (r: Result<Exit>)
        ensures match r { Ok(e) => final(w).spawned == old(w).spawned.push(Spawn { argv: tx(argv@), env: ptx(env@), dir: dir@, timeout, status: e }),
            Err(_) => final(w).spawned == old(w).spawned || exists|e: Exit| final(w).spawned == old(w).spawned.push(Spawn { argv: tx(argv@), env: ptx(env@), dir: dir@, timeout, status: e }) },
    { unimplemented!() }
}
impl BuildDir {
    pub uninterp spec fn s_path(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Utf8Path) ensures r@ == self.s_path() { unimplemented!() }
}
#[verifier::external_body]
pub fn check_interrupted() -> (r: Result<()>) { unimplemented!() }
#[verifier::external_body]
pub fn v_nextest_odd(a: &Vec<String>, c: i32) -> (r: bool) { unimplemented!() }
//%ghost run
pub open spec fn env_ok(e: Seq<(Seq<char>, Seq<char>)>, o: Options) -> bool {
    if o.cap_lints { e.len() == 3 && e[2] == ("CARGO_ENCODED_RUSTFLAGS"@, capped()) } else { e.len() == 2 }
}
pub open spec fn insta(e: Seq<(Seq<char>, Seq<char>)>) -> bool { e.len() >= 2 && e[0] == ("INSTA_UPDATE"@, "no"@) && e[1] == ("INSTA_FORCE_PASS"@, "0"@) }
pub open spec fn right(s: Spawn, build_dir: BuildDir, packages: PackageSelection, phase: Phase, timeout: Option<Duration>, o: Options) -> bool {
    s.argv == argv(packages, phase, o) && s.dir == build_dir.s_path() && s.timeout == timeout && env_ok(s.env, o) && insta(s.env) }
//%fn cargo.rs run_cargo
//%wparam Tracked(w): Tracked<&mut World>
//%opaque 1 `argv[1] == "nextest" && !NEXTEST_ALLOWED_CODES.contains(&code)` => `v_nextest_odd(&argv, code)`
//%spec
    ensures
        r matches Ok(p) ==> {
            &&& p.phase == phase && tx(p.argv@) == argv(*packages, phase, *options)
            &&& final(w).spawned.len() == old(w).spawned.len() + 1 && final(w).spawned.drop_last() =~= old(w).spawned
            &&& right(final(w).spawned.last(), *build_dir, *packages, phase, timeout, *options) && final(w).spawned.last().status == p.process_status },
        r is Err ==> final(w).spawned == old(w).spawned || (final(w).spawned.drop_last() =~= old(w).spawned && right(final(w).spawned.last(), *build_dir, *packages, phase, timeout, *options)),
//%entry
    broadcast use l_ppush;
    let ghost w0 = *w;
//%end
} // verus!
fn main() {}
