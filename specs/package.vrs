use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::sync::Arc;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
//%type package.rs Package
// ---- cargo metadata (assumed: the cargo_metadata crate) ----
pub mod cargo_metadata { use super::*;
    pub struct Target { pub name: String, pub kind: Vec<TargetKind>, pub src_path: Utf8PathBuf }
    pub struct Package { pub name: String, pub version: Version, pub manifest_path: Utf8PathBuf, pub targets: Vec<Target> }
    pub struct Metadata { pub workspace_root: Utf8PathBuf, pub rest: Rest }
}
#[verifier::external_body]
pub struct Rest { _p: u8 }
#[verifier::external_body]
pub struct Version { _p: u8 }
impl Version { pub uninterp spec fn s(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.s() { unimplemented!() } }
pub enum TargetKind { Bench, Bin, CustomBuild, CDyLib, DyLib, Example, Lib, ProcMacro, RLib, StaticLib, Test, Unknown(String) }
pub uninterp spec fn s_strip(p: Seq<char>, root: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn s_parent(a: Seq<char>) -> Option<Seq<char>>;
impl Utf8PathBuf {
    #[verifier::external_body] pub fn strip_prefix(&self, root: &Utf8Path) -> (r: Result<&Utf8Path>) ensures match r { Ok(p) => s_strip(self@, root@) == Some(p@), Err(_) => s_strip(self@, root@).is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Utf8Path>) ensures match r { Some(p) => s_parent(self@) == Some(p@), None => s_parent(self@).is_none() } { unimplemented!() }
}
impl Utf8Path {
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Utf8Path>) ensures match r { Some(p) => s_parent(self@) == Some(p@), None => s_parent(self@).is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Utf8PathBuf) ensures r@ == self@ { unimplemented!() }
}
// ---- C24: which targets' top files are looked at ----
pub open spec fn for_users(k: TargetKind) -> bool { k is Bin || k is ProcMacro || k is CDyLib || k is DyLib || k is Lib || k is RLib || k is StaticLib }
pub open spec fn wanted(t: cargo_metadata::Target) -> bool { exists|i: int| 0 <= i < t.kind@.len() && for_users(#[trigger] t.kind@[i]) }
pub open spec fn is_top(root: Seq<char>, ts: Seq<cargo_metadata::Target>, p: Seq<char>) -> bool { exists|i: int| 0 <= i < ts.len() && wanted(#[trigger] ts[i]) && s_strip(ts[i].src_path@, root) == Some(p) }
pub open spec fn holds(v: Seq<Utf8PathBuf>, p: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == p }
/// exactly these, each once
pub open spec fn tops(root: Seq<char>, ts: Seq<cargo_metadata::Target>, v: Seq<Utf8PathBuf>) -> bool {
    &&& forall|p: Seq<char>| #[trigger] holds(v, p) <==> is_top(root, ts, p)
    &&& distinct(v) }
pub uninterp spec fn sorted(v: Seq<Utf8PathBuf>) -> bool;
pub open spec fn same_items(a: Seq<Utf8PathBuf>, b: Seq<Utf8PathBuf>) -> bool { forall|p: Seq<char>| #[trigger] holds(b, p) <==> holds(a, p) }
pub open spec fn distinct(v: Seq<Utf8PathBuf>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@ }
pub trait VSort { spec fn vs(&self) -> Seq<Utf8PathBuf>;
    fn v_sort(&mut self) ensures sorted(final(self).vs()), same_items(old(self).vs(), final(self).vs());
    fn v_dedup(&mut self) ensures same_items(old(self).vs(), final(self).vs()), sorted(old(self).vs()) ==> distinct(final(self).vs()); }
impl VSort for Vec<Utf8PathBuf> { open spec fn vs(&self) -> Seq<Utf8PathBuf> { self@ }
    #[verifier::external_body] fn v_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_dedup(&mut self) { unimplemented!() } }
pub fn v_own(p: &Utf8Path) -> (r: Utf8PathBuf) ensures r@ == p@ { p.to_owned() }
pub trait VResMap<T>: Sized { spec fn ris(self) -> Option<T>;
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U>)
        requires self.ris() matches Some(x) ==> call_requires(f, (x,)),
        ensures match r { Ok(y) => self.ris() matches Some(x) && call_ensures(f, (x,), y), Err(_) => self.ris().is_none() }; }
impl<T> VResMap<T> for Result<T> { open spec fn ris(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U>) { match self { Ok(x) => Ok(f(x)), Err(e) => Err(e) } } }
pub trait VOptMap<T>: Sized { spec fn ois(self) -> Option<T>;
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.ois() matches Some(x) ==> call_requires(f, (x,)),
        ensures match r { Some(y) => self.ois() matches Some(x) && call_ensures(f, (x,), y), None => self.ois().is_none() }; }
impl<T> VOptMap<T> for Option<T> { open spec fn ois(self) -> Option<T> { self }
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } } }
//%paths ToOwned::to_owned => v_own
//%methods sort=v_sort dedup=v_dedup clone=v_clone
//%fn package.rs should_mutate_target
//%closure 0
    |$0: &TargetKind| -> (b: bool) ensures b == for_users(*$0)
//%spec
    ensures r == wanted(*target),
//%end
pub broadcast proof fn l_holds(v: Seq<Utf8PathBuf>, x: Utf8PathBuf, p: Seq<char>) ensures #[trigger] holds(v.push(x), p) <==> holds(v, p) || x@ == p
{ if holds(v, p) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == p; assert(v.push(x)[i] == v[i]); } if x@ == p { assert(v.push(x)[v.len() as int]@ == p); }
  if holds(v.push(x), p) { let i = choose|i: int| 0 <= i < v.push(x).len() && (#[trigger] v.push(x)[i])@ == p; if i < v.len() { assert(v[i] == v.push(x)[i]); } } }
pub proof fn l_take(root: Seq<char>, ts: Seq<cargo_metadata::Target>, n: int)
    requires 0 <= n < ts.len(),
    ensures forall|p: Seq<char>| #[trigger] is_top(root, ts.take(n + 1), p) <==> is_top(root, ts.take(n), p) || (wanted(ts[n]) && s_strip(ts[n].src_path@, root) == Some(p))
{ assert forall|p: Seq<char>| #[trigger] is_top(root, ts.take(n + 1), p) <==> is_top(root, ts.take(n), p) || (wanted(ts[n]) && s_strip(ts[n].src_path@, root) == Some(p)) by {
    assert(ts.take(n + 1)[n] == ts[n]);
    if is_top(root, ts.take(n), p) { let i = choose|i: int| 0 <= i < ts.take(n).len() && wanted(#[trigger] ts.take(n)[i]) && s_strip(ts.take(n)[i].src_path@, root) == Some(p); assert(ts.take(n + 1)[i] == ts.take(n)[i]); }
    if is_top(root, ts.take(n + 1), p) { let i = choose|i: int| 0 <= i < ts.take(n + 1).len() && wanted(#[trigger] ts.take(n + 1)[i]) && s_strip(ts.take(n + 1)[i].src_path@, root) == Some(p); if i < n { assert(ts.take(n)[i] == ts.take(n + 1)[i]); } } } }
//%fn package.rs package_top_sources
//%spec
    requires s_parent(package_metadata.manifest_path@).is_some(),
    ensures tops(workspace_root@, package_metadata.targets@, r@),
//%loop 0 it it
//%loop 0
    invariant 0 <= it.index@ <= it.snapshot@.remaining().len(), it.snapshot@.remaining() == refs(package_metadata.targets@),
        forall|p: Seq<char>| #[trigger] holds(found@, p) <==> is_top(workspace_root@, package_metadata.targets@.take(it.index@), p),
//%loop 0 start
    broadcast use l_holds;
    proof { l_take(workspace_root@, package_metadata.targets@, it.index@); assert(*target == package_metadata.targets@[it.index@]); }
//%loop 0 after
    let ghost f1 = found@;
    proof { assert(package_metadata.targets@.take(package_metadata.targets@.len() as int) =~= package_metadata.targets@);
        assert(forall|p: Seq<char>| #[trigger] holds(f1, p) <==> is_top(workspace_root@, package_metadata.targets@, p)); }
//%end
/// the package as cargo describes it, if its manifest lies in the workspace
pub open spec fn digested(m: cargo_metadata::Package, root: Seq<char>, r: Option<Package>) -> bool {
    match r {
        Some(p) => p.name@ == m.name@ && p.version@ == m.version.s() && tops(root, m.targets@, p.top_sources@) && s_strip(m.manifest_path@, root).is_some() && s_parent(s_strip(m.manifest_path@, root).unwrap()) == Some(p.relative_dir@),
        None => s_strip(m.manifest_path@, root).is_none() || s_parent(s_strip(m.manifest_path@, root).unwrap()).is_none() } }
//%fn package.rs Package::from_cargo_metadata
//%closure 0
    |$0: &Utf8Path| -> (o: Option<&Utf8Path>) ensures match o { Some(q) => s_parent($0@) == Some(q@), None => s_parent($0@).is_none() }
//%spec
    requires s_parent(package_metadata.manifest_path@).is_some(),
    ensures digested(*package_metadata, workspace_root@, r),
//%end
/// the members of the workspace, as cargo lists them
pub uninterp spec fn s_members(m: cargo_metadata::Metadata) -> Seq<cargo_metadata::Package>;
pub open spec fn sane(m: cargo_metadata::Metadata) -> bool { forall|i: int| 0 <= i < s_members(m).len() ==> s_parent((#[trigger] s_members(m)[i]).manifest_path@).is_some() }
impl cargo_metadata::Metadata { #[verifier::external_body] pub fn workspace_packages(&self) -> (r: Vec<&cargo_metadata::Package>) ensures members_ref(*self, r@) { unimplemented!() } }
/// sorting: the same items, in some order
pub open spec fn perm<A>(a: Seq<A>, b: Seq<A>) -> bool { exists|f: Seq<int>| #[trigger] perm_by(a, b, f) }
pub open spec fn perm_by<A>(a: Seq<A>, b: Seq<A>, f: Seq<int>) -> bool {
    &&& a.len() == b.len() && f.len() == a.len()
    &&& forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < a.len() && b[i] == a[f[i]]
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> #[trigger] f[i] != #[trigger] f[j]
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] hit(f, k) }
pub open spec fn hit(f: Seq<int>, k: int) -> bool { exists|i: int| 0 <= i < f.len() && #[trigger] f[i] == k }
impl<T> VIter<T> { #[verifier::external_body] pub fn v_sorted_by_key(self) -> (r: VIter<T>) ensures perm(self@, r@) { unimplemented!() } }
pub fn v_arc_new<T>(x: T) -> (r: Arc<T>) ensures *r == x { Arc::new(x) }
//%paths Arc::new => v_arc_new
pub open spec fn all_digested(q: Seq<&cargo_metadata::Package>, root: Seq<char>, d: Seq<Option<Package>>) -> bool { q.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> digested(*q[i], root, #[trigger] d[i]) }
pub open spec fn arcs_of(r: Seq<Arc<Package>>, s: Seq<Package>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i] }
pub open spec fn members_ref(m: cargo_metadata::Metadata, v: Seq<&cargo_metadata::Package>) -> bool { v.len() == s_members(m).len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == s_members(m)[i] }
/// the packages of the workspace: each member whose manifest lies in the workspace, once
pub open spec fn all_members(m: cargo_metadata::Metadata, r: Seq<Arc<Package>>) -> bool {
    exists|v: Seq<&cargo_metadata::Package>, q: Seq<&cargo_metadata::Package>, d: Seq<Option<Package>>| members_ref(m, v) && #[trigger] perm(v, q) && #[trigger] all_digested(q, m.workspace_root@, d) && arcs_of(r, somes(d)) }
impl Utf8PathBuf { #[verifier::external_body] pub fn v_path(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() } }
pub proof fn l_members(m: cargo_metadata::Metadata)
    requires sane(m),
    ensures
        forall|v: Seq<&cargo_metadata::Package>, q: Seq<&cargo_metadata::Package>, i: int| #![trigger perm(v, q), q[i]] members_ref(m, v) && perm(v, q) && 0 <= i < q.len() ==> s_parent(q[i].manifest_path@).is_some(),
        forall|v: Seq<&cargo_metadata::Package>, q: Seq<&cargo_metadata::Package>, d: Seq<Option<Package>>, r: Seq<Arc<Package>>| #![trigger perm(v, q), somes(d), all_members(m, r)]
            members_ref(m, v) && perm(v, q) && all_digested(q, m.workspace_root@, d) && arcs_of(r, somes(d)) ==> all_members(m, r),
{ assert forall|v: Seq<&cargo_metadata::Package>, q: Seq<&cargo_metadata::Package>, i: int| #![trigger perm(v, q), q[i]] members_ref(m, v) && perm(v, q) && 0 <= i < q.len() implies s_parent(q[i].manifest_path@).is_some() by {
    let f = choose|f: Seq<int>| #[trigger] perm_by(v, q, f); assert(0 <= f[i] < v.len() && q[i] == v[f[i]]); assert(*v[f[i]] == s_members(m)[f[i]]); } }
//%fn package.rs packages_from_metadata
//%entry
    proof { l_members(*metadata); }
//%opaque 1 `.sorted_by_key(|p| &p.name)` => `.v_sorted_by_key()`
//%opaque 1 `&metadata.workspace_root` => `metadata.workspace_root.v_path()`
//%closure 0
    |$0: &cargo_metadata::Package| -> (o: Option<Package>) requires s_parent($0.manifest_path@).is_some(), ensures digested(*$0, metadata.workspace_root@, o)
//%spec
    requires sane(*metadata),
    ensures all_members(*metadata, r@),
//%end
} // verus!
fn main() {}
