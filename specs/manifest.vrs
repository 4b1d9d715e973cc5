use vstd::prelude::*;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
pub broadcast axiom fn ax_str(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@, ensures a == b;
// ---- paths (assumed: camino) ----
/// the components of a path, as text
pub uninterp spec fn s_comps(p: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn s_absolute(p: Seq<char>) -> bool;
/// base.join(p)
pub uninterp spec fn s_join(base: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn s_canon(p: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub struct Component<'a> { _p: &'a u8 }
impl<'a> Component<'a> {
    pub uninterp spec fn s_str(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.s_str() { unimplemented!() }
}
pub open spec fn ctx(v: Seq<Component>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].s_str()) }
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl Utf8Path {
    #[verifier::external_body]
    pub fn new<'a>(s: &'a str) -> (r: &'a Utf8Path) ensures r@ == s@ { unimplemented!() }
    /// a path in memory has fewer than isize::MAX components
    #[verifier::external_body]
    pub fn components<'a>(&'a self) -> (r: VIter<Component<'a>>) ensures ctx(r@) == s_comps(self@), r@.len() < 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == s_absolute(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Utf8PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn canonicalize_utf8(&self) -> (r: core::result::Result<Utf8PathBuf, IoError>) ensures r matches Ok(p) ==> p@ == s_canon(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&str>) { unimplemented!() }
    pub fn join<P: VPath>(&self, n: P) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, n.pv()) { v_join(self, n) }
}
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn push(&mut self, p: &Utf8Path) ensures final(self)@ == s_join(old(self)@, p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn join<P: VPath>(&self, n: P) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, n.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_path(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() }
}
pub trait VPath { spec fn pv(&self) -> Seq<char>; fn v_p(&self) -> (r: &Utf8Path) ensures r@ == self.pv(); }
impl VPath for Utf8Path { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_p(&self) -> (r: &Utf8Path) { unimplemented!() } }
impl VPath for Utf8PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_p(&self) -> (r: &Utf8Path) { unimplemented!() } }
impl VPath for str { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_p(&self) -> (r: &Utf8Path) { unimplemented!() } }
impl<T: VPath + ?Sized> VPath for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } #[verifier::external_body] fn v_p(&self) -> (r: &Utf8Path) { unimplemented!() } }
#[verifier::external_body]
pub fn v_join<P: VPath>(a: &Utf8Path, n: P) -> (r: Utf8PathBuf) ensures r@ == s_join(a@, n.pv()) { unimplemented!() }
pub type IoError = Error;
pub trait VTry<T>: Sized { spec fn tv(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.tv() is Some, r matches Ok(v) ==> self.tv() == Some(v); }
impl<T> VTry<T> for core::result::Result<T, IoError> { open spec fn tv(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
// ---- TOML values (assumed: the toml crate) ----
#[verifier::external_body]
pub struct Table { _p: u8 }
#[verifier::external_body]
pub struct Array { _p: u8 }
#[verifier::external_body]
pub struct Other { _p: u8 }
pub enum Value { String(String), Array(Array), Table(Table), Other(Other) }
impl View for Table { type V = Map<Seq<char>, Value>; uninterp spec fn view(&self) -> Map<Seq<char>, Value>; }
impl View for Array { type V = Seq<Value>; uninterp spec fn view(&self) -> Seq<Value>; }
//%shim toml::Value => Value
//%shim toml::Table => Table
//%paths toml::Value::String => Value::String
pub uninterp spec fn s_parse(t: Seq<char>) -> Option<Value>;
pub uninterp spec fn s_print(v: Value) -> Seq<char>;
#[verifier::external_body]
pub fn v_parse(s: &str) -> (r: core::result::Result<Value, IoError>) ensures r matches Ok(v) ==> s_parse(s@) == Some(v) { unimplemented!() }
#[verifier::external_body]
pub fn v_print(v: &Value) -> (r: core::result::Result<String, IoError>) ensures r matches Ok(s) ==> s@ == s_print(*v) { unimplemented!() }
//%paths toml::to_string_pretty => v_print
#[verifier::external_body]
pub fn v_same(a: &Value, b: &Value) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
impl VClone for Value { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl Value {
    pub fn as_table_mut(&mut self) -> (r: Option<&mut Table>)
        ensures match r { Some(t) => *old(self) == Value::Table(*t) && *final(self) == Value::Table(*final(t)), None => !(*old(self) is Table) && *final(self) == *old(self) }
    { match self { Value::Table(t) => Some(t), _ => None } }
    pub fn as_array_mut(&mut self) -> (r: Option<&mut Array>)
        ensures match r { Some(t) => *old(self) == Value::Array(*t) && *final(self) == Value::Array(*final(t)), None => !(*old(self) is Array) && *final(self) == *old(self) }
    { match self { Value::Array(t) => Some(t), _ => None } }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => *self matches Value::String(x) && x@ == s@, None => !(*self is String) } { unimplemented!() }
    /// indexing by key: only tables have keys
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut Value>)
        ensures match r { Some(v) => *old(self) matches Value::Table(t) && t@.contains_key(k@) && *v == t@[k@] && (*final(self) matches Value::Table(n) && n@ == t@.insert(k@, *final(v))),
            None => *final(self) == *old(self) && (*old(self) matches Value::Table(t) ==> !t@.contains_key(k@)) }
    { match self { Value::Table(t) => t.get_mut(k), _ => None } }
}
impl Table {
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut Value>)
        ensures match r { Some(v) => old(self)@.contains_key(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => !old(self)@.contains_key(k@) && *final(self) == *old(self) } { unimplemented!() }
}
/// iterating over the entries of a table by mutable reference
pub uninterp spec fn s_idx<'a>(s: Seq<(&'a String, &'a mut Value)>, k: Seq<char>) -> int;
pub open spec fn entries_of<'a>(s: Seq<(&'a String, &'a mut Value)>, o: Map<Seq<char>, Value>, n: Map<Seq<char>, Value>) -> bool {
    &&& n.dom() == o.dom()
    &&& forall|i: int| 0 <= i < s.len() ==> o.contains_key((#[trigger] s[i]).0@) && *s[i].1 == o[s[i].0@]
    &&& forall|k: Seq<char>| o.contains_key(k) ==> 0 <= #[trigger] s_idx(s, k) < s.len() && s[s_idx(s, k)].0@ == k
}
#[verifier::external_body]
pub fn v_entries<'a>(t: &'a mut Table) -> (r: VIter<(&'a String, &'a mut Value)>)
    ensures entries_of(r@, old(t)@, final(t)@), forall|k: Seq<char>| old(t)@.contains_key(k) ==> #[trigger] final(t)@[k] == *final(r@[s_idx(r@, k)].1) { unimplemented!() }
impl Table { pub fn iter_mut<'a>(&'a mut self) -> (r: VIter<(&'a String, &'a mut Value)>)
    ensures entries_of(r@, old(self)@, final(self)@), forall|k: Seq<char>| old(self)@.contains_key(k) ==> #[trigger] final(self)@[k] == *final(r@[s_idx(r@, k)].1) { v_entries(self) } }
#[verifier::external_body]
pub fn v_elems<'a>(t: &'a mut Array) -> (r: VIter<&'a mut Value>)
    ensures r@.len() == old(t)@.len(), final(t)@.len() == old(t)@.len(), forall|i: int| #![trigger r@[i]] #![trigger old(t)@[i]] 0 <= i < r@.len() ==> *r@[i] == old(t)@[i], forall|i: int| 0 <= i < r@.len() ==> #[trigger] final(t)@[i] == *final(r@[i]) { unimplemented!() }
// ---- C16: when does a path climb above where it starts ----
/// steps above the start after the first n components (negative: below)
pub open spec fn above(c: Seq<Seq<char>>, n: int) -> int decreases n { if n <= 0 { 0 } else { above(c, n - 1) + (if c[n - 1] == ".."@ { 1 as int } else if c[n - 1] == "."@ { 0 } else { -1 }) } }
pub open spec fn climbs(c: Seq<Seq<char>>) -> bool { exists|n: int| 0 <= n <= c.len() && #[trigger] above(c, n) > 0 }
pub proof fn l_dots() ensures "."@ != ".."@ { reveal_strlit("."); reveal_strlit(".."); assert("."@.len() == 1); assert(".."@.len() == 2); }
#[verifier::external_body]
pub fn max(a: isize, b: isize) -> (r: isize) ensures r == if a >= b { a } else { b } { unimplemented!() }
//%fn path.rs ascent
//%closure 0
    |$0: Component| -> (s: &str) ensures s@ == $0.s_str()
//%attr #[verifier::exec_allows_no_decreases_clause]
//%loop 0 it it
//%loop 0 vfor
//%loop 0 before
    let ghost cs = s_comps(path@);
    proof { assert(strs(it.all()) =~= cs); }
//%loop 0
    invariant 0 <= it.pos() <= cs.len(), cs.len() < 0x7fff_ffff_ffff_ffff, strs(it.all()) == cs, cs == s_comps(path@), ascent == above(cs, it.pos()), -it.pos() <= ascent <= it.pos(), 0 <= max_ascent <= it.pos(),
        forall|n: int| 0 <= n <= it.pos() ==> #[trigger] above(cs, n) <= max_ascent, exists|n: int| 0 <= n <= it.pos() && #[trigger] above(cs, n) == max_ascent,
    ensures it.pos() == cs.len(),
//%loop 0 start
    broadcast use ax_str;
    let ghost m0 = max_ascent; let ghost k = it.pos() - 1;
    proof { l_dots(); assert(component@ == strs(it.all())[k]); assert(above(cs, k + 1) == above(cs, k) + (if component@ == ".."@ { 1 as int } else if component@ == "."@ { 0 } else { -1 })); }
//%loop 0 end
    proof { assert(max_ascent == above(cs, k + 1) || max_ascent == m0); if max_ascent == m0 { let n = choose|n: int| 0 <= n <= k && #[trigger] above(cs, n) == m0; assert(n <= it.pos() && above(cs, n) == max_ascent); } else { assert(above(cs, it.pos()) == max_ascent); } }
//%entry
    proof { assert(above(s_comps(path@), 0) == 0); }
//%spec
    ensures r >= 0, r > 0 <==> climbs(s_comps(path@)),
        exists|n: int| 0 <= n <= s_comps(path@).len() && #[trigger] above(s_comps(path@), n) == r, forall|n: int| 0 <= n <= s_comps(path@).len() ==> #[trigger] above(s_comps(path@), n) <= r,
//%end
/// the path to use from elsewhere
pub open spec fn s_fix(p: Seq<char>, src: Seq<char>) -> Seq<char> { if s_absolute(p) || !climbs(s_comps(p)) { p } else { s_join(src, p) } }
//%fn manifest.rs fix_path
//%spec
    ensures match r { Some(n) => !s_absolute(path_str@) && climbs(s_comps(path_str@)) && n@ == s_join(source_dir@, path_str@), None => s_absolute(path_str@) || !climbs(s_comps(path_str@)) },
//%end
// ---- C16: what is rewritten ----
pub open spec fn path_fixed(o: Value, n: Value, src: Seq<char>) -> bool { match o { Value::String(s) => n matches Value::String(t) && t@ == s_fix(s@, src), _ => n == o } }
pub open spec fn entry_fixed(o: Value, n: Value, src: Seq<char>) -> bool {
    match o { Value::Table(t) => n matches Value::Table(u) && u@.dom() == t@.dom() && (forall|k: Seq<char>| #[trigger] t@.contains_key(k) ==> if k == "path"@ { path_fixed(t@[k], u@[k], src) } else { u@[k] == t@[k] }), _ => n == o } }
pub open spec fn deps_fixed(o: Value, n: Value, src: Seq<char>) -> bool {
    match o { Value::Table(t) => n matches Value::Table(u) && u@.dom() == t@.dom() && (forall|k: Seq<char>| #[trigger] t@.contains_key(k) ==> entry_fixed(t@[k], u@[k], src)), _ => n == o } }
pub open spec fn is_deps(k: Seq<char>) -> bool { k == "dependencies"@ || k == "dev-dependencies"@ || k == "build-dependencies"@ }
pub open spec fn sections_fixed(t: Map<Seq<char>, Value>, u: Map<Seq<char>, Value>, src: Seq<char>) -> bool {
    u.dom() == t.dom() && (forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> if is_deps(k) { deps_fixed(t[k], u[k], src) } else { u[k] == t[k] }) }
pub open spec fn with_sections(o: Value, n: Value, src: Seq<char>) -> bool { match o { Value::Table(t) => n matches Value::Table(u) && sections_fixed(t@, u@, src), _ => n == o } }
pub open spec fn each_deps(o: Value, n: Value, src: Seq<char>) -> bool {
    match o { Value::Table(t) => n matches Value::Table(u) && u@.dom() == t@.dom() && (forall|k: Seq<char>| #[trigger] t@.contains_key(k) ==> deps_fixed(t@[k], u@[k], src)), _ => n == o } }
pub open spec fn each_sections(o: Value, n: Value, src: Seq<char>) -> bool {
    match o { Value::Table(t) => n matches Value::Table(u) && u@.dom() == t@.dom() && (forall|k: Seq<char>| #[trigger] t@.contains_key(k) ==> with_sections(t@[k], u@[k], src)), _ => n == o } }
/// the whole manifest: dependencies of every kind, replace and patch; nothing else
pub open spec fn top_fixed(o: Value, n: Value, src: Seq<char>) -> bool {
    match o { Value::Table(t) => n matches Value::Table(u) && u@.dom() == t@.dom() && (forall|k: Seq<char>| #[trigger] t@.contains_key(k) ==>
        if is_deps(k) || k == "replace"@ { deps_fixed(t@[k], u@[k], src) } else if k == "target"@ { each_sections(t@[k], u@[k], src) } else if k == "workspace"@ { with_sections(t@[k], u@[k], src) } else if k == "patch"@ { each_deps(t@[k], u@[k], src) } else { u@[k] == t@[k] }), _ => n == o } }
pub broadcast proof fn lem_dom(m: Map<Seq<char>, Value>, k: Seq<char>, v: Value) requires m.contains_key(k), ensures #[trigger] m.insert(k, v).dom() == m.dom() { assert(m.insert(k, v).dom() =~= m.dom()); }
//%fn manifest.rs fix_dependency_table
//%attr #[verifier::exec_allows_no_decreases_clause]
//%loop 0 it it
//%loop 0 vfor
//%loop 0
    invariant 0 <= it.pos() <= it.all().len(), it.all() == all, forall|i: int| 0 <= i < it.pos() ==> entry_fixed(*(#[trigger] all[i]).1, *final(all[i].1), manifest_source_dir@),
    ensures it.pos() == all.len(),
//%loop 0 before
    let ghost all = it.all();
//%loop 0 start
    broadcast use lem_dom;
//%spec
    ensures deps_fixed(*old(dependencies), *final(dependencies), manifest_source_dir@),
//%end
//%fn manifest.rs fix_dependency_sections
//%spec
    ensures sections_fixed(old(table)@, final(table)@, manifest_source_dir@),
//%entry
    broadcast use lem_dom;
    proof { l_names(); }
//%end
pub proof fn l_names()
    ensures "dependencies"@.len() == 12, "dev-dependencies"@.len() == 16, "build-dependencies"@.len() == 18, "replace"@.len() == 7, "patch"@.len() == 5, "target"@.len() == 6, "workspace"@.len() == 9, "path"@.len() == 4, "paths"@.len() == 5, "paths"@[3] == 'h', "patch"@[3] == 'c',
{ reveal_strlit("dependencies"); reveal_strlit("dev-dependencies"); reveal_strlit("build-dependencies"); reveal_strlit("replace"); reveal_strlit("patch"); reveal_strlit("target"); reveal_strlit("workspace"); reveal_strlit("path"); reveal_strlit("paths"); }
//%fn manifest.rs fix_manifest_toml
//%attr #[verifier::exec_allows_no_decreases_clause]
//%optmatch and_then
//%methods clone=v_clone
//%opaque 1 `manifest_toml.parse()` => `v_parse(manifest_toml)`
//%opaque 1 `value == orig_value` => `v_same(&value, &orig_value)`
//%opaque 1 `in targets {` => `in v_entries(targets) {`
//%opaque 1 `in patch_table {` => `in v_entries(patch_table) {`
//%loop 0 it it
//%loop 0 vfor
//%loop 0
    invariant 0 <= it.pos() <= it.all().len(), it.all() == all, forall|i: int| 0 <= i < it.pos() ==> with_sections(*(#[trigger] all[i]).1, *final(all[i].1), manifest_source_dir@),
    ensures it.pos() == all.len(),
//%loop 0 before
    let ghost all = it.all();
//%loop 1 it it
//%loop 1 vfor
//%loop 1
    invariant 0 <= it.pos() <= it.all().len(), it.all() == all, forall|i: int| 0 <= i < it.pos() ==> deps_fixed(*(#[trigger] all[i]).1, *final(all[i].1), manifest_source_dir@),
    ensures it.pos() == all.len(),
//%loop 1 before
    let ghost all = it.all();
//%spec
    ensures r matches Ok(x) ==> (s_parse(manifest_toml@) matches Some(o) && match x { Some(n) => top_fixed(o, n, manifest_source_dir@), None => top_fixed(o, o, manifest_source_dir@) }),
//%entry
    broadcast use lem_dom;
    proof { l_names(); }
//%end
/// config: the paths override list
pub open spec fn elems_fixed(o: Value, n: Value, src: Seq<char>) -> bool { match o { Value::Array(a) => n matches Value::Array(b) && b@.len() == a@.len() && (forall|i: int| 0 <= i < a@.len() ==> path_fixed(#[trigger] a@[i], b@[i], src)), _ => n == o } }
pub open spec fn config_fixed(o: Value, n: Value, src: Seq<char>) -> bool {
    match o { Value::Table(t) => n matches Value::Table(u) && u@.dom() == t@.dom() && (forall|k: Seq<char>| #[trigger] t@.contains_key(k) ==> if k == "paths"@ { elems_fixed(t@[k], u@[k], src) } else { u@[k] == t@[k] }), _ => n == o } }
pub open spec fn path_stays(o: Value) -> bool { o matches Value::String(s) ==> s_absolute(s@) || !climbs(s_comps(s@)) }
pub open spec fn config_stays(o: Value) -> bool { o matches Value::Table(t) ==> (t@.contains_key("paths"@) ==> (t@["paths"@] matches Value::Array(a) ==> forall|i: int| 0 <= i < a@.len() ==> path_stays(#[trigger] a@[i]))) }
//%fn manifest.rs fix_cargo_config_toml
//%attr #[verifier::exec_allows_no_decreases_clause]
//%optmatch and_then
//%opaque 1 `config_toml.parse()` => `v_parse(config_toml)`
//%opaque 1 `in paths {` => `in v_elems(paths) {`
//%loop 0 it it
//%loop 0 vfor
//%loop 0
    invariant 0 <= it.pos() <= it.all().len(), it.all() == all, forall|i: int| 0 <= i < it.pos() ==> path_fixed(*(#[trigger] all[i]), *final(all[i]), source_dir@),
        !changed ==> forall|i: int| 0 <= i < it.pos() ==> path_stays(*(#[trigger] all[i])),
    ensures it.pos() == all.len(),
//%loop 0 before
    let ghost all = it.all();
//%spec
    ensures r matches Ok(x) ==> (s_parse(config_toml@) matches Some(o) && match x { Some(s) => exists|n: Value| s@ == #[trigger] s_print(n) && config_fixed(o, n, source_dir@), None => config_stays(o) }),
//%entry
    broadcast use lem_dom;
    proof { l_names(); }
//%end
// ---- files ----
pub tracked struct World { pub ghost files: Map<Seq<char>, Seq<char>> }
#[verifier::external_body]
pub fn read_to_string<P: VPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<String, IoError>)
    ensures *final(w) == *old(w), r matches Ok(s) ==> old(w).files.contains_key(p.pv()) && s@ == old(w).files[p.pv()] { unimplemented!() }
#[verifier::external_body]
pub struct Bytes { _p: u8 }
impl View for Bytes { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn v_bytes(s: &String) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn write<P: VPath>(p: P, b: Bytes, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
    ensures r is Ok ==> final(w).files == old(w).files.insert(p.pv(), b@), r is Err ==> others_same(old(w).files, final(w).files, p.pv()) { unimplemented!() }
pub open spec fn others_same(a: Map<Seq<char>, Seq<char>>, b: Map<Seq<char>, Seq<char>>, p: Seq<char>) -> bool { forall|q: Seq<char>| q != p ==> #[trigger] b.contains_key(q) == a.contains_key(q) && b[q] == a[q] }
/// the manifest text seen by cargo, given the one in the source tree
pub open spec fn manifest_ok(o: Seq<char>, n: Seq<char>, src: Seq<char>) -> bool { s_parse(o) matches Some(p) && (n == o && top_fixed(p, p, src) || exists|q: Value| n == #[trigger] s_print(q) && top_fixed(p, q, src)) }
pub open spec fn config_ok(o: Seq<char>, n: Seq<char>, src: Seq<char>) -> bool { s_parse(o) matches Some(p) && (n == o && config_stays(p) || exists|q: Value| n == #[trigger] s_print(q) && config_fixed(p, q, src)) }
//%fn manifest.rs fix_manifest
//%wparam Tracked(w): Tracked<&mut World>
//%ghost read_to_string write
//%opaque 1 `toml_str.as_bytes()` => `v_bytes(&toml_str)`
//%spec
    ensures others_same(old(w).files, final(w).files, manifest_scratch_path@),
        r is Ok ==> old(w).files.contains_key(manifest_scratch_path@) && final(w).files.contains_key(manifest_scratch_path@) && manifest_ok(old(w).files[manifest_scratch_path@], final(w).files[manifest_scratch_path@], source_dir@),
//%end
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn exists(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures *final(w) == *old(w), r == old(w).files.contains_key(self@) { unimplemented!() }
}
/// joining an absolute path gives that path
pub broadcast axiom fn ax_abs(a: Seq<char>, b: Seq<char>) requires s_absolute(a), ensures #[trigger] s_join(a, s_join(a, b)) == s_join(a, b);
//%fn manifest.rs fix_cargo_config
//%wparam Tracked(w): Tracked<&mut World>
//%ghost read_to_string write exists
//%opaque 1 `changed_toml.as_bytes()` => `v_bytes(&changed_toml)`
//%spec
    requires s_absolute(build_path@),
    ensures others_same(old(w).files, final(w).files, s_join(build_path@, ".cargo/config.toml"@)),
        r is Ok ==> (old(w).files.contains_key(s_join(build_path@, ".cargo/config.toml"@)) ==> final(w).files.contains_key(s_join(build_path@, ".cargo/config.toml"@)) && config_ok(old(w).files[s_join(build_path@, ".cargo/config.toml"@)], final(w).files[s_join(build_path@, ".cargo/config.toml"@)], source_path@)),
        r is Ok && !old(w).files.contains_key(s_join(build_path@, ".cargo/config.toml"@)) ==> *final(w) == *old(w),
//%entry
    broadcast use ax_abs;
//%end
// ---- the build directory ----
#[verifier::external_body]
pub struct TempDir { _p: u8 }
#[verifier::external_body]
pub struct Console { _p: u8 }
#[verifier::external_body]
pub struct Package { _p: u8 }
//%type options.rs Options keep=leak_dirs
//%type build_dir.rs BuildDir
impl TempDir {
    pub uninterp spec fn s_path(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn into_path(self) -> (r: Utf8PathBuf) ensures r@ == self.s_path() { unimplemented!() }
}
#[verifier::external_body]
pub fn v_temp_path(t: &TempDir) -> (r: Result<Utf8PathBuf>) ensures r matches Ok(p) ==> p@ == t.s_path() { unimplemented!() }
/// what copy_tree leaves in the new directory, for the two files that are fixed up (unit copy)
pub open spec fn same_file(a: World, pa: Seq<char>, b: World, pb: Seq<char>) -> bool { b.files.contains_key(pb) ==> a.files.contains_key(pa) && b.files[pb] == a.files[pa] }
#[verifier::external_body]
pub fn copy_tree(from: &Utf8Path, base: &String, o: &Options, c: &Console, Tracked(w): Tracked<&mut World>) -> (r: Result<TempDir>)
    ensures r matches Ok(t) ==> s_absolute(t.s_path()) && same_file(*old(w), s_join(from@, "Cargo.toml"@), *final(w), s_join(t.s_path(), "Cargo.toml"@)) && same_file(*old(w), s_join(from@, ".cargo/config.toml"@), *final(w), s_join(t.s_path(), ".cargo/config.toml"@)) { unimplemented!() }
pub broadcast axiom fn ax_two(a: Seq<char>) ensures #[trigger] s_join(a, "Cargo.toml"@) != s_join(a, ".cargo/config.toml"@);
//%fn build_dir.rs BuildDir::copy_from
//%wparam Tracked(w): Tracked<&mut World>
//%ghost copy_tree fix_manifest fix_cargo_config
//%opaque 1 `let name_base = format!("cargo-mutants-{}-", source.file_name().unwrap_or("unnamed"));` => `let name_base = v_name();`
//%opaque 1 `temp_dir.path().to_owned().try_into()` => `v_temp_path(&temp_dir)`
//%opaque `&path.join("Cargo.toml"), &source_abs` => `path.join("Cargo.toml").v_p(), source_abs.v_p()`
//%opaque `fix_cargo_config(&path, &source_abs)` => `fix_cargo_config(path.v_p(), source_abs.v_p())`
//%spec
    ensures r matches Ok(b) ==> {
        &&& final(w).files.contains_key(s_join(b.path@, "Cargo.toml"@)) && old(w).files.contains_key(s_join(source@, "Cargo.toml"@))
        &&& manifest_ok(old(w).files[s_join(source@, "Cargo.toml"@)], final(w).files[s_join(b.path@, "Cargo.toml"@)], s_canon(source@))
        &&& (final(w).files.contains_key(s_join(b.path@, ".cargo/config.toml"@)) ==> old(w).files.contains_key(s_join(source@, ".cargo/config.toml"@)) && config_ok(old(w).files[s_join(source@, ".cargo/config.toml"@)], final(w).files[s_join(b.path@, ".cargo/config.toml"@)], s_canon(source@)))
        &&& (options.leak_dirs ==> b.temp_dir.is_none()) },
//%entry
    broadcast use ax_two;
//%end
#[verifier::external_body]
pub fn v_name() -> (r: String) { unimplemented!() }
// ---- source files above the tree ----
pub mod sync { use vstd::prelude::*; verus! {
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Arc<T> { _p: core::marker::PhantomData<T> }
    impl<T> Arc<T> { pub uninterp spec fn v(&self) -> T;
        #[verifier::external_body]
        pub fn new(x: T) -> (r: Arc<T>) ensures r.v() == x { unimplemented!() } }
} }
use sync::Arc;
//%type source.rs SourceFile
impl VClone for Package { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn s_lf(t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_lf(s: String) -> (r: String) ensures r@ == s_lf(s@) { unimplemented!() }
//%fn source.rs SourceFile::load
//%wparam Tracked(w): Tracked<&mut World>
//%ghost read_to_string
//%methods clone=v_clone
//%opaque 1 `.replace("\r\n", "\n")` => `.v_lf()`
//%spec
    ensures *final(w) == *old(w),
        // a file above the tree is never taken in; any other is, with its text
        climbs(s_comps(tree_relative_path@)) ==> r matches Ok(None),
        !climbs(s_comps(tree_relative_path@)) ==> (r matches Ok(x) ==> x is Some),
        r matches Ok(Some(f)) ==> f.tree_relative_path@ == tree_relative_path@ && f.is_top == is_top && old(w).files.contains_key(s_join(tree_path@, tree_relative_path@)) && f.code.v()@ == s_lf(old(w).files[s_join(tree_path@, tree_relative_path@)]),
//%end
pub trait VLf { spec fn lv(self) -> Seq<char>; fn v_lf(self) -> (r: String) ensures r@ == s_lf(self.lv()); }
impl VLf for String { open spec fn lv(self) -> Seq<char> { self@ } fn v_lf(self) -> (r: String) { v_lf(self) } }
} // verus!
fn main() {}
