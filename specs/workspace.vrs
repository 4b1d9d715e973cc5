use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::sync::Arc;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
//%type package.rs Package
//%type package.rs PackageSelection
//%type workspace.rs PackageFilter
#[verifier::external_body]
pub struct MetaRest { _p: u8 }
pub struct Metadata { pub workspace_root: Utf8PathBuf, pub rest: MetaRest }
//%shim cargo_metadata::Metadata => Metadata
//%type workspace.rs Workspace
impl<T> VClone for Arc<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn v_arc_clone<T>(a: &Arc<T>) -> (r: Arc<T>) ensures r == *a { unimplemented!() }
//%methods clone=v_clone to_string=v_text
//%paths Arc::clone => v_arc_clone
/// the name a caller gave (AsRef<str>)
pub trait VName { spec fn nv(&self) -> Seq<char>; fn v_text(&self) -> (r: String) ensures r@ == self.nv(); }
impl VName for String { open spec fn nv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_text(&self) -> (r: String) { unimplemented!() } }
impl<'a> VName for &'a str { open spec fn nv(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body]
    fn v_text(&self) -> (r: String) { unimplemented!() } }
/// names.iter().map(AsRef::as_ref).sorted(): the same names, in some order
pub open spec fn given<S: VName>(names: Seq<S>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < names.len() && #[trigger] names[i].nv() == n }
pub open spec fn among(v: Seq<&str>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == n }
#[verifier::external_body]
pub fn v_sorted_names<'a, S: VName>(names: &'a [S]) -> (r: VIter<&'static str>)
    ensures r@ == s_sorted(names@) { unimplemented!() }
pub uninterp spec fn s_sorted<S: VName>(names: Seq<S>) -> Seq<&'static str>;
/// sorting keeps the names (assumed)
pub broadcast axiom fn axiom_sorted<S: VName>(names: Seq<S>)
    ensures forall|n: Seq<char>| #[trigger] among(s_sorted(names), n) <==> given(names, n), #[trigger] s_sorted(names).len() == names.len();
#[verifier::external_body]
pub fn v_name_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// ---- paths ----
pub uninterp spec fn s_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub open spec fn s_root(m: Metadata) -> Seq<char> { m.workspace_root@ }
#[verifier::external_body]
pub fn v_join_is(root: &Utf8Path, rel: &Utf8PathBuf, b: &Utf8PathBuf) -> (r: bool) ensures r == (s_join(root@, rel@) == b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_path_is(a: &Utf8PathBuf, b: &Utf8Path) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn v_as_path(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_assert_abs(b: bool) {}
//%fn workspace.rs Workspace::root
//%opaque 1 `&self.metadata.workspace_root` => `self.metadata.workspace_root.v_as_path()`
//%spec
    ensures r@ == s_root(self.metadata),
//%end
// ---- locate_project: what cargo says is the package or workspace of a directory ----
pub uninterp spec fn s_is_dir(p: Seq<char>) -> bool;
pub uninterp spec fn s_is_file(p: Seq<char>) -> bool;
pub uninterp spec fn s_parent(p: Seq<char>) -> Option<Seq<char>>;
/// what cargo prints when run with these arguments in this directory
pub uninterp spec fn s_cargo_says(args: Seq<Seq<char>>, dir: Seq<char>) -> Seq<char>;
/// the value of "root" in a JSON object
pub uninterp spec fn s_json_root(text: Seq<char>) -> Seq<char>;
pub open spec fn loc_args(ws: bool) -> Seq<Seq<char>> { if ws { seq!["locate-project"@, "--workspace"@] } else { seq!["locate-project"@] } }
/// the directory of the manifest that cargo locates
pub open spec fn s_project(dir: Seq<char>, ws: bool) -> Seq<char> { s_parent(s_json_root(s_cargo_says(loc_args(ws), dir))).unwrap() }
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait VCtx<T>: Sized { spec fn val(self) -> Result<T>; fn v_ctx(self) -> (r: Result<T>) ensures r == self.val(); }
impl<T> VCtx<T> for core::result::Result<T, Error> { open spec fn val(self) -> Result<T> { self }
    fn v_ctx(self) -> (r: Result<T>) { self } }
pub broadcast proof fn l_strs(v: Seq<&str>)
    ensures v.len() == 1 && v[0]@ == "locate-project"@ ==> #[trigger] strs(v) == loc_args(false),
        v.len() == 2 && v[0]@ == "locate-project"@ && v[1]@ == "--workspace"@ ==> strs(v) == loc_args(true),
{ if v.len() == 1 && v[0]@ == "locate-project"@ { assert(strs(v) =~= loc_args(false)); }
  if v.len() == 2 && v[0]@ == "locate-project"@ && v[1]@ == "--workspace"@ { assert(strs(v) =~= loc_args(true)); } }
pub broadcast proof fn l_cat_0(v: Seq<Seq<char>>) ensures #[trigger] (Seq::<Seq<char>>::empty() + v) == v { assert(Seq::<Seq<char>>::empty() + v =~= v); }
pub broadcast group ax_args { l_strs, l_cat_0 }
#[verifier::external_body]
pub struct Cmd { _p: u8 }
impl Cmd {
    pub uninterp spec fn c_args(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn c_dir(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn cargo() -> (r: Cmd) ensures r.c_args() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn args(self, a: &Vec<&str>) -> (r: Cmd) ensures r.c_args() == self.c_args() + strs(a@), r.c_dir() == self.c_dir() { unimplemented!() }
    #[verifier::external_body]
    pub fn current_dir(self, p: &Utf8Path) -> (r: Cmd) ensures r.c_args() == self.c_args(), r.c_dir() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn output(self) -> (r: Result<Output>) ensures r matches Ok(o) ==> o.stdout.text() == s_cargo_says(self.c_args(), self.c_dir()) { unimplemented!() }
}
#[verifier::external_body]
pub struct ExitStatus { _p: u8 }
impl ExitStatus { #[verifier::external_body] pub fn success(&self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub struct Bytes { _p: u8 }
impl Bytes { pub uninterp spec fn text(&self) -> Seq<char>; }
pub struct Output { pub status: ExitStatus, pub stdout: Bytes, pub stderr: Bytes }
#[verifier::external_body]
pub fn v_from_utf8(b: Bytes) -> (r: Result<String>) ensures r matches Ok(s) ==> s@ == b.text() { unimplemented!() }
#[verifier::external_body]
pub struct Value { _p: u8 }
impl Value { pub uninterp spec fn s_rt(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn root_path(&self) -> (r: Result<Utf8PathBuf>) ensures r matches Ok(p) ==> p@ == self.s_rt() { unimplemented!() } }
#[verifier::external_body]
pub fn v_json(s: &String) -> (r: Result<Value>) ensures r matches Ok(v) ==> v.s_rt() == s_json_root(s@) { unimplemented!() }
impl Utf8Path {
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == s_is_dir(self@) { unimplemented!() }
}
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == s_is_dir(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == s_is_file(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_parent(&self) -> (r: Result<Utf8PathBuf>) ensures r matches Ok(p) ==> s_parent(self@) == Some(p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, s@) { unimplemented!() }
}
//%fn workspace.rs locate_project
//%opaque 1 `Command::new(cargo_bin())` => `Cmd::cargo()`
//%opaque 1 `String::from_utf8(output.stdout)` => `v_from_utf8(output.stdout)`
//%opaque 1 `serde_json::from_str(&stdout)` => `v_json(&stdout)`
//%opaque 1 `val["root"].as_str().with_context(...)?.to_owned().into()` => `val.root_path()?`
//%opaque 1 `.parent().ok_or_else(...)?.to_owned()` => `.v_parent()?`
//%spec
    ensures r matches Ok(p) ==> p@ == s_project(path@, workspace) && s_is_dir(p@),
//%entry
    broadcast use ax_args;
//%end
// ---- default members ----
#[verifier::external_body]
pub struct PkgMeta { _p: u8 }
/// the names of the default members; None from a cargo that does not say
pub uninterp spec fn s_default_names(m: Metadata) -> Option<Seq<Seq<char>>>;
/// catch_unwind(|| metadata.workspace_default_packages()): the names in order, or a panic of an old cargo
#[verifier::external_body]
pub fn v_default_members(m: &Metadata) -> (r: core::result::Result<VNames, Error>) ensures r is Ok <==> s_default_names(*m) is Some, r matches Ok(v) ==> v.nn() == s_default_names(*m).unwrap() { unimplemented!() }
#[verifier::external_body]
pub struct VNames { _p: u8 }
impl VNames { pub uninterp spec fn nn(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn sorted(&self) -> (r: Vec<&'static str>) ensures r@.len() == self.nn().len(), forall|n: Seq<char>| #[trigger] given(r@, n) <==> self.nn().contains(n) { unimplemented!() } }
/// exactly the packages with these names
pub open spec fn named(ps: Seq<Arc<Package>>, names: Seq<Seq<char>>, r: Seq<Arc<Package>>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> names.contains((#[trigger] r[k]).name@) && exists|i: int| 0 <= i < ps.len() && #[trigger] ps[i] == r[k] && first_named(ps, r[k].name@, i)
    &&& forall|i: int| 0 <= i < ps.len() && names.contains((#[trigger] ps[i]).name@) ==> exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).name@ == ps[i].name@ }
pub open spec fn is_default(w: Workspace, sel: PackageSelection) -> bool {
    match s_default_names(w.metadata) { Some(ns) => sel matches PackageSelection::Explicit(v) && named(w.packages@, ns, v@), None => sel is All } }
//%fn workspace.rs Workspace::default_packages
//%opaque 1 `catch_unwind(|| metadata.workspace_default_packages())` => `v_default_members(metadata)`
//%opaque 1 `default_packages.iter().map(|pmeta| pmeta.name.as_str()).sorted().collect()` => `default_packages.sorted()`
//%spec
    ensures is_default(*self, r),
//%end
// ---- C23: exactly the named packages that exist ----
pub open spec fn first_named(ps: Seq<Arc<Package>>, n: Seq<char>, i: int) -> bool { 0 <= i < ps.len() && ps[i].name@ == n && forall|j: int| 0 <= j < i ==> (#[trigger] ps[j]).name@ != n }
pub open spec fn exactly<S: VName>(ps: Seq<Arc<Package>>, names: Seq<S>, r: Seq<Arc<Package>>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> given(names, (#[trigger] r[k]).name@) && exists|i: int| 0 <= i < ps.len() && #[trigger] ps[i] == r[k] && first_named(ps, r[k].name@, i)
    &&& forall|i: int| 0 <= i < ps.len() && given(names, (#[trigger] ps[i]).name@) ==> exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).name@ == ps[i].name@ }
pub open spec fn looked_up(ps: Seq<Arc<Package>>, n: Seq<char>, o: Option<Arc<Package>>) -> bool {
    match o { Some(p) => exists|i: int| 0 <= i < ps.len() && #[trigger] ps[i] == p && first_named(ps, n, i), None => forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).name@ != n } }
pub proof fn l_from(q: Seq<Option<Arc<Package>>>, k: int)
    requires 0 <= k < somes(q).len(),
    ensures exists|i: int| 0 <= i < q.len() && #[trigger] q[i] == Some(somes(q)[k]),
    decreases q.len()
{ if q.len() > 0 { match q.last() { Some(x) => { if k == somes(q).len() - 1 { assert(q[q.len() - 1] == Some(somes(q)[k])); } else { l_from(q.drop_last(), k); let i = choose|i: int| 0 <= i < q.drop_last().len() && #[trigger] q.drop_last()[i] == Some(somes(q.drop_last())[k]); assert(q[i] == q.drop_last()[i]); } } None => { l_from(q.drop_last(), k); let i = choose|i: int| 0 <= i < q.drop_last().len() && #[trigger] q.drop_last()[i] == Some(somes(q.drop_last())[k]); assert(q[i] == q.drop_last()[i]); } } } }
pub proof fn l_into(q: Seq<Option<Arc<Package>>>, i: int)
    requires 0 <= i < q.len(), q[i] is Some,
    ensures exists|k: int| 0 <= k < somes(q).len() && #[trigger] somes(q)[k] == q[i]->0,
    decreases q.len()
{ if i == q.len() - 1 { assert(somes(q)[somes(q).len() - 1] == q[i]->0); } else { l_into(q.drop_last(), i); let k = choose|k: int| 0 <= k < somes(q.drop_last()).len() && #[trigger] somes(q.drop_last())[k] == q.drop_last()[i]->0; assert(somes(q)[k] == somes(q.drop_last())[k]); } }
pub proof fn l_exact<S: VName>(ps: Seq<Arc<Package>>, names: Seq<S>, sn: Seq<&str>, q: Seq<Option<Arc<Package>>>)
    requires q.len() == sn.len(), forall|n: Seq<char>| #[trigger] among(sn, n) <==> given(names, n), forall|i: int| 0 <= i < q.len() ==> looked_up(ps, sn[i]@, #[trigger] q[i]),
    ensures exactly(ps, names, somes(q)),
{
    let r = somes(q);
    assert forall|k: int| 0 <= k < r.len() implies given(names, (#[trigger] r[k]).name@) && exists|i: int| 0 <= i < ps.len() && #[trigger] ps[i] == r[k] && first_named(ps, r[k].name@, i) by {
        l_from(q, k); let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == Some(r[k]); assert(looked_up(ps, sn[i]@, q[i])); assert(among(sn, sn[i]@)); }
    assert forall|i: int| 0 <= i < ps.len() && given(names, (#[trigger] ps[i]).name@) implies exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).name@ == ps[i].name@ by {
        assert(among(sn, ps[i].name@)); let j = choose|j: int| 0 <= j < sn.len() && #[trigger] sn[j]@ == ps[i].name@; assert(looked_up(ps, sn[j]@, q[j])); l_into(q, j); }
}
pub proof fn l_exact_all<S: VName>(ps: Seq<Arc<Package>>, names: Seq<S>)
    ensures forall|q: Seq<Option<Arc<Package>>>| q.len() == s_sorted(names).len() && (forall|i: int| 0 <= i < q.len() ==> looked_up(ps, s_sorted(names)[i]@, #[trigger] q[i])) ==> exactly(ps, names, #[trigger] somes(q)),
{ broadcast use axiom_sorted; assert forall|q: Seq<Option<Arc<Package>>>| q.len() == s_sorted(names).len() && (forall|i: int| 0 <= i < q.len() ==> looked_up(ps, s_sorted(names)[i]@, #[trigger] q[i])) implies exactly(ps, names, #[trigger] somes(q)) by { l_exact(ps, names, s_sorted(names), q); } }
//%fn workspace.rs Workspace::packages_by_name
//%gen <S: VName>
//%opaque 1 `names.iter().map(AsRef::as_ref).sorted()` => `v_sorted_names(names)`
//%opaque 1 `p.name == name` => `v_name_is(&p.name, name)`
//%closure 0
    |$0: &str| -> (o: Option<Arc<Package>>) ensures looked_up(self.packages@, $0@, o)
//%closure 1
    |$0: &&Arc<Package>| -> (b: bool) ensures b == ($0.name@ == name@)
//%spec
    ensures exactly(self.packages@, names@, r@),
//%entry
    proof { l_exact_all(self.packages@, names@); }
//%end
pub open spec fn expanded(w: Workspace, sel: PackageSelection) -> Seq<Arc<Package>> { match sel { PackageSelection::All => w.packages@, PackageSelection::Explicit(v) => v@ } }
//%fn workspace.rs Workspace::expand_selection
//%spec
    ensures r@ == expanded(*self, selection),
//%end
/// the packages that the filter means
pub open spec fn selects(w: Workspace, filter: PackageFilter, sel: PackageSelection) -> bool {
    match filter {
        PackageFilter::All => sel is All,
        PackageFilter::Explicit(names) => (sel matches PackageSelection::Explicit(v) && exactly(w.packages@, names@, v@)),
        PackageFilter::Auto(dir) => (exists|i: int| #[trigger] in_dir(w, dir@, i) && sel is Explicit && sel->0@ == seq![w.packages@[i]])
            || ((forall|i: int| 0 <= i < w.packages@.len() ==> !#[trigger] in_dir(w, dir@, i)) && s_project(dir@, false) == s_root(w.metadata) && is_default(w, sel)) }
}
//%fn workspace.rs Workspace::filter_packages
//%opaque 1 `root.join(&package.relative_dir) == package_dir` => `v_join_is(root, &package.relative_dir, &package_dir)`
//%opaque 1 `locate_project(dir, false)` => `locate_project(dir.v_as_path(), false)`
//%opaque 1 `package_dir == root` => `v_path_is(&package_dir, root)`
//%opaque 1 `assert!(package_dir.is_absolute())` => `v_assert_abs(package_dir.is_absolute())`
//%spec
    ensures r matches Ok(sel) ==> selects(*self, *filter, sel),
//%loop 0 it it0
//%loop 0
    invariant 0 <= it0.index@ <= it0.snapshot@.remaining().len(), it0.snapshot@.remaining() == refs(self.packages@), root@ == s_root(self.metadata), package_dir@ == s_project(dir@, false), *filter == PackageFilter::Auto(*dir),
        forall|i: int| 0 <= i < it0.index@ ==> !#[trigger] in_dir(*self, dir@, i),
//%loop 0 start
    proof { assert(*package == self.packages@[it0.index@]); assert(in_dir(*self, dir@, it0.index@) == (s_join(root@, package.relative_dir@) == package_dir@)); assert forall|v: Vec<Arc<Package>>| v@.len() == 1 && v@[0] == *package implies #[trigger] v@ == seq![*package] by { assert(v@ =~= seq![*package]); } }
//%end
pub open spec fn in_dir(w: Workspace, dir: Seq<char>, i: int) -> bool { 0 <= i < w.packages@.len() && s_join(s_root(w.metadata), w.packages@[i].relative_dir@) == s_project(dir, false) }
//%fn workspace.rs PackageFilter::explicit
//%gen <S: VName, I: VIntoIter<S>>
//%closure 0
    |$0: S| -> (o: String) ensures o@ == $0.nv()
//%spec
    ensures r matches PackageFilter::Explicit(v) && v@.len() == names.items().len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@ == names.items()[i].nv(),
//%end
// ---- opening the workspace, and walking what was selected ----
pub trait VPath { spec fn pv(&self) -> Seq<char>;
    fn as_ref(&self) -> (r: &Utf8Path) ensures r@ == self.pv(); }
/// this is what cargo says of the workspace with this manifest
pub uninterp spec fn is_metadata(m: Metadata, manifest: Seq<char>) -> bool;
#[verifier::external_body]
pub struct MetadataCommand { _p: u8 }
impl MetadataCommand {
    pub uninterp spec fn m_path(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: MetadataCommand) { unimplemented!() }
    #[verifier::external_body]
    pub fn no_deps(self) -> (r: MetadataCommand) ensures r.m_path() == self.m_path() { unimplemented!() }
    #[verifier::external_body]
    pub fn manifest_path(self, p: &Utf8PathBuf) -> (r: MetadataCommand) ensures r.m_path() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn current_dir(self, p: &Utf8PathBuf) -> (r: MetadataCommand) ensures r.m_path() == self.m_path() { unimplemented!() }
    #[verifier::external_body]
    pub fn verbose(self, b: bool) -> (r: MetadataCommand) ensures r.m_path() == self.m_path() { unimplemented!() }
    #[verifier::external_body]
    pub fn exec(self) -> (r: Result<Metadata>) ensures r matches Ok(m) ==> is_metadata(m, self.m_path()) { unimplemented!() }
}
//%shim cargo_metadata::MetadataCommand => MetadataCommand
pub uninterp spec fn s_packages(m: Metadata) -> Seq<Arc<Package>>;
#[verifier::external_body]
pub fn packages_from_metadata(m: &Metadata) -> (r: Vec<Arc<Package>>) ensures r@ == s_packages(*m) { unimplemented!() }
#[verifier::external_body]
pub fn check_interrupted() -> (r: Result<()>) { unimplemented!() }
//%fn workspace.rs Workspace::open
//%gen <P: VPath>
//%opaque 1 `start_dir.try_into().expect("start_dir is UTF-8")` => `start_dir`
//%opaque 1 `assert!(dir.is_absolute(), ...)` => `v_assert_abs(dir.is_absolute())`
//%spec
    ensures r matches Ok(w) ==> is_metadata(w.metadata, s_join(s_project(start_dir.pv(), true), "Cargo.toml"@)) && w.packages@ == s_packages(w.metadata),
//%end
#[verifier::external_body]
pub struct Options { _p: u8 }
#[verifier::external_body]
pub struct Console { _p: u8 }
#[verifier::external_body]
pub struct Discovered { _p: u8 }
/// contract of walk_tree in the unit walk
pub uninterp spec fn walked(d: Discovered, root: Seq<char>, ps: Seq<Arc<Package>>, o: Options) -> bool;
#[verifier::external_body]
pub fn walk_tree(root: &Utf8Path, packages: &Vec<Arc<Package>>, options: &Options, console: &Console) -> (r: Result<Discovered>) ensures r matches Ok(d) ==> walked(d, root@, packages@, *options) { unimplemented!() }
pub open spec fn discovered(w: Workspace, filter: PackageFilter, o: Options, d: Discovered, sel: PackageSelection) -> bool { selects(w, filter, sel) && walked(d, s_root(w.metadata), expanded(w, sel), o) }
//%fn workspace.rs Workspace::discover
//%spec
    ensures r matches Ok(d) ==> exists|sel: PackageSelection| #[trigger] discovered(*self, *package_filter, *options, d, sel),
//%exit
    proof { assert forall|sel: PackageSelection, d: Discovered| #![trigger selects(*self, *package_filter, sel), walked(d, s_root(self.metadata), expanded(*self, sel), *options)] selects(*self, *package_filter, sel) && walked(d, s_root(self.metadata), expanded(*self, sel), *options) implies discovered(*self, *package_filter, *options, d, sel) by {} }
//%end
} // verus!
fn main() {}
