use vstd::prelude::*;
use std::collections::HashMap;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
// ---- a file system: directories, and files with their text (assumed: std::fs, camino, fs2) ----
pub tracked struct World { pub ghost dirs: Set<Seq<char>>, pub ghost files: Map<Seq<char>, Seq<char>>,
    /// open files whose lock was taken, and the lock files whose lock this run has held; `guard` is the lock file that protects the output directory
    pub ghost locked: Set<int>, pub ghost had: Set<Seq<char>>, pub ghost guard: Seq<char> }
pub open spec fn same_locks(a: World, b: World) -> bool { a.locked == b.locked && a.had == b.had && a.guard == b.guard }
pub uninterp spec fn s_join(d: Seq<char>, n: Seq<char>) -> Seq<char>;
pub uninterp spec fn beneath(p: Seq<char>, d: Seq<char>) -> bool;
/// one path component
pub open spec fn plain(n: Seq<char>) -> bool { n.len() > 0 && forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != '/' }
pub broadcast axiom fn ax_join(a: Seq<char>, n: Seq<char>, b: Seq<char>, m: Seq<char>)
    requires plain(n), plain(m), #[trigger] s_join(a, n) == #[trigger] s_join(b, m), ensures a == b && n == m;
pub broadcast axiom fn ax_beneath(d: Seq<char>, n: Seq<char>, e: Seq<char>)
    requires plain(n), ensures #[trigger] beneath(s_join(d, n), e) <==> d == e || beneath(d, e);
pub broadcast axiom fn ax_not(d: Seq<char>) ensures !#[trigger] beneath(d, d);
pub broadcast axiom fn ax_anti(a: Seq<char>, b: Seq<char>) requires #[trigger] beneath(a, b), ensures !#[trigger] beneath(b, a);
pub broadcast axiom fn ax_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires #[trigger] beneath(a, b), #[trigger] beneath(b, c), ensures beneath(a, c);
/// a file is in a directory that exists
pub open spec fn wf(w: World) -> bool { forall|d: Seq<char>, n: Seq<char>| #![trigger w.files.contains_key(s_join(d, n))] #![trigger w.dirs.contains(s_join(d, n))] plain(n) && (w.files.contains_key(s_join(d, n)) || w.dirs.contains(s_join(d, n))) ==> w.dirs.contains(d) }
pub open spec fn same_at(a: World, b: World, p: Seq<char>) -> bool { a.dirs.contains(p) == b.dirs.contains(p) && a.files.contains_key(p) == b.files.contains_key(p) && (a.files.contains_key(p) ==> a.files[p] == b.files[p]) }
/// only p and what is beneath it was touched
#[verifier::opaque]
pub open spec fn touched(a: World, b: World, p: Seq<char>) -> bool { forall|q: Seq<char>| #![trigger b.files.contains_key(q)] #![trigger b.dirs.contains(q)] q != p && !beneath(q, p) ==> same_at(a, b, q) }
#[verifier::opaque]
pub open spec fn only_in2(a: World, b: World, d: Seq<char>, e: Seq<char>) -> bool { forall|p: Seq<char>| #![trigger b.files.contains_key(p)] #![trigger b.dirs.contains(p)] p != d && !beneath(p, d) && p != e && !beneath(p, e) ==> same_at(a, b, p) }
pub open spec fn files_but(a: World, b: World, p: Seq<char>) -> bool { forall|q: Seq<char>| #![trigger b.files.contains_key(q)] #![trigger b.files[q]] q != p ==> b.files.contains_key(q) == a.files.contains_key(q) && b.files[q] == a.files[q] }
pub open spec fn want(d: Seq<char>, e: Seq<char>) -> bool { true }
pub broadcast proof fn lem_t(a: World, b: World, p: Seq<char>, d: Seq<char>, e: Seq<char>)
    requires #[trigger] touched(a, b, p), #[trigger] want(d, e), p == d || beneath(p, d) || p == e || beneath(p, e), ensures only_in2(a, b, d, e)
{ broadcast use ax_trans; reveal(touched); reveal(only_in2); }
pub broadcast proof fn lem_tt(a: World, b: World, c: World, p: Seq<char>) requires #[trigger] touched(a, b, p), #[trigger] touched(b, c, p), ensures touched(a, c, p) { reveal(touched); }
pub broadcast proof fn lem_t0(a: World, b: World, p: Seq<char>) requires a.files == b.files, a.dirs == b.dirs, ensures #[trigger] touched(a, b, p) { reveal(touched); }
pub broadcast proof fn lem_o(a: World, b: World, c: World, d: Seq<char>, e: Seq<char>) requires #[trigger] only_in2(a, b, d, e), #[trigger] only_in2(b, c, d, e), ensures only_in2(a, c, d, e) { reveal(only_in2); }
pub broadcast proof fn lem_0(a: World, d: Seq<char>, e: Seq<char>) ensures #[trigger] only_in2(a, a, d, e) { reveal(only_in2); }
pub type IoError = Error;
pub trait VTry<T>: Sized { spec fn tv(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.tv() is Some, r matches Ok(v) ==> self.tv() == Some(v); }
impl<T> VTry<T> for core::result::Result<T, IoError> { open spec fn tv(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
pub trait VPath { spec fn pv(&self) -> Seq<char>; }
impl VPath for Utf8Path { open spec fn pv(&self) -> Seq<char> { self@ } }
impl VPath for Utf8PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } }
impl<T: VPath> VPath for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } }
impl Utf8PathBuf {
    #[verifier::external_body] pub fn v_self(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() }
}
//%methods as_std_path=v_self as_ref=v_self
pub trait VJoin: VPath {
    fn join(&self, n: &str) -> (r: Utf8PathBuf) ensures r@ == s_join(self.pv(), n@);
    fn exists(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures *final(w) == *old(w), r == (old(w).dirs.contains(self.pv()) || old(w).files.contains_key(self.pv()));
    fn is_file(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures *final(w) == *old(w), r == old(w).files.contains_key(self.pv());
}
impl VJoin for Utf8Path {
    #[verifier::external_body] fn join(&self, n: &str) -> (r: Utf8PathBuf) { unimplemented!() }
    #[verifier::external_body] fn exists(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_file(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) { unimplemented!() }
}
impl VJoin for Utf8PathBuf {
    #[verifier::external_body] fn join(&self, n: &str) -> (r: Utf8PathBuf) { unimplemented!() }
    #[verifier::external_body] fn exists(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_file(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir<P: VPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
    ensures wf(*old(w)) ==> wf(*final(w)), same_locks(*old(w), *final(w)), final(w).files == old(w).files, r is Ok ==> !old(w).dirs.contains(p.pv()) && final(w).dirs == old(w).dirs.insert(p.pv()), r is Err ==> *final(w) == *old(w), touched(*old(w), *final(w), p.pv()) { unimplemented!() }
#[verifier::external_body]
pub fn remove_dir_all<P: VPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
    requires old(w).had.contains(old(w).guard),
    ensures same_locks(*old(w), *final(w)), wf(*old(w)) ==> wf(*final(w)), touched(*old(w), *final(w), p.pv()), (forall|q: Seq<char>| !beneath(q, p.pv()) ==> #[trigger] final(w).files.contains_key(q) == old(w).files.contains_key(q) && final(w).files[q] == old(w).files[q]), r is Ok ==> !final(w).dirs.contains(p.pv()) && (forall|q: Seq<char>| beneath(q, p.pv()) ==> !(#[trigger] final(w).files.contains_key(q)) && !final(w).dirs.contains(q)) { unimplemented!() }
/// the directory a becomes b
#[verifier::external_body]
pub fn rename<P: VPath, Q: VPath>(a: P, b: Q, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
    requires old(w).had.contains(old(w).guard),
    ensures same_locks(*old(w), *final(w)), wf(*old(w)) ==> wf(*final(w)), only_in2(*old(w), *final(w), a.pv(), b.pv()),
        r is Err ==> *final(w) == *old(w),
        r is Ok ==> moved(*old(w), *final(w), a.pv(), b.pv()),
{ unimplemented!() }
pub open spec fn moved(o: World, n: World, a: Seq<char>, b: Seq<char>) -> bool {
    &&& n.dirs.contains(b) && !n.dirs.contains(a)
    &&& forall|q: Seq<char>| beneath(q, a) ==> !(#[trigger] n.files.contains_key(q)) && !n.dirs.contains(q)
    &&& forall|x: Seq<char>| plain(x) ==> #[trigger] n.files.contains_key(s_join(b, x)) == o.files.contains_key(s_join(a, x)) && (o.files.contains_key(s_join(a, x)) ==> n.files[s_join(b, x)] == o.files[s_join(a, x)])
}
#[verifier::external_body]
pub fn read_to_string<P: VPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<String, IoError>)
    ensures *final(w) == *old(w), r matches Ok(s) ==> old(w).files.contains_key(p.pv()) && s@ == old(w).files[p.pv()] { unimplemented!() }
/// an open file knows its path
#[verifier::external_body]
pub struct File { _p: u8 }
impl View for File { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl File {
    /// which open file this is: a lock belongs to it, and ends when it is dropped
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn options() -> (r: Opts) ensures r@ == oo0() { unimplemented!() }
    /// fs2: the lock, unless someone else has it
    #[verifier::external_body]
    pub fn try_lock_exclusive(&self, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
        ensures r is Ok ==> *final(w) == (World { locked: old(w).locked.insert(self.id()), had: old(w).had.insert(self@), ..*old(w) }), r is Err ==> *final(w) == *old(w) { unimplemented!() }
    /// what is in a lock file is changed only while holding its lock
    #[verifier::external_body]
    pub fn set_len(&self, n: u64, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
        requires old(w).locked.contains(self.id()),
        ensures wf(*old(w)) ==> wf(*final(w)), same_locks(*old(w), *final(w)), final(w).dirs == old(w).dirs, touched(*old(w), *final(w), self@), files_but(*old(w), *final(w), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_write_text(&mut self, s: String, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
        requires old(w).locked.contains(old(self).id()),
        ensures final(self).id() == old(self).id(), final(self)@ == old(self)@, wf(*old(w)) ==> wf(*final(w)), same_locks(*old(w), *final(w)), final(w).dirs == old(w).dirs, touched(*old(w), *final(w), old(self)@), files_but(*old(w), *final(w), old(self)@) { unimplemented!() }
}
/// the same options as a value
#[verifier::external_body]
pub struct Opts { _p: u8 }
impl View for Opts { type V = Oo; uninterp spec fn view(&self) -> Oo; }
impl Opts {
    #[verifier::external_body]
    pub fn create(self, b: bool) -> (r: Opts) ensures r@ == (Oo { create: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_new(self, b: bool) -> (r: Opts) ensures r@ == (Oo { create_new: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(self, b: bool) -> (r: Opts) ensures r@ == (Oo { append: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, b: bool) -> (r: Opts) ensures r@ == (Oo { write: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(self, b: bool) -> (r: Opts) ensures r@ == (Oo { truncate: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: VPath>(&self, p: P, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<File, IoError>)
        requires self@.create || self@.create_new,
        ensures same_locks(*old(w), *final(w)), wf(*old(w)) ==> wf(*final(w)), r is Err ==> *final(w) == *old(w),
            r matches Ok(f) ==> f@ == p.pv() && final(w).dirs == old(w).dirs && final(w).files == opened(old(w).files, p.pv(), self@),
            touched(*old(w), *final(w), p.pv()), files_but(*old(w), *final(w), p.pv()),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Duration { _p: u8 }
#[verifier::external_body]
pub fn v_lock_poll() -> (r: Duration) { unimplemented!() }
#[verifier::external_body]
pub fn sleep(d: Duration) { unimplemented!() }
/// an error once an interrupt has arrived
#[verifier::external_body]
pub fn check_interrupted() -> (r: Result<()>) { unimplemented!() }
/// version, start time, host and user, as JSON
#[verifier::external_body]
pub fn v_lock_text() -> (r: Result<String>) { unimplemented!() }
pub ghost struct Oo { pub create: bool, pub create_new: bool, pub append: bool, pub write: bool, pub truncate: bool }
#[verifier::external_body]
pub struct OpenOptions { _p: u8 }
impl View for OpenOptions { type V = Oo; uninterp spec fn view(&self) -> Oo; }
pub open spec fn oo0() -> Oo { Oo { create: false, create_new: false, append: false, write: false, truncate: false } }
impl OpenOptions {
    #[verifier::external_body]
    pub fn new() -> (r: OpenOptions) ensures r@ == oo0() { unimplemented!() }
    #[verifier::external_body]
    pub fn create(&mut self, b: bool) -> (r: &mut OpenOptions) ensures final(self)@ == (Oo { create: b, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, b: bool) -> (r: &mut OpenOptions) ensures final(self)@ == (Oo { append: b, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, b: bool) -> (r: &mut OpenOptions) ensures final(self)@ == (Oo { truncate: b, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: VPath>(&self, p: P, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<File, IoError>)
        requires self@.create || self@.create_new,
        ensures same_locks(*old(w), *final(w)), wf(*old(w)) ==> wf(*final(w)), r is Err ==> *final(w) == *old(w),
            r matches Ok(f) ==> f@ == p.pv() && final(w).dirs == old(w).dirs && final(w).files == opened(old(w).files, p.pv(), self@),
            touched(*old(w), *final(w), p.pv()), files_but(*old(w), *final(w), p.pv()),
    { unimplemented!() }
}
pub open spec fn opened(f: Map<Seq<char>, Seq<char>>, p: Seq<char>, o: Oo) -> Map<Seq<char>, Seq<char>> { if f.contains_key(p) && !o.truncate { f } else { f.insert(p, Seq::empty()) } }
/// File::options().create_new(true).write(true).open(path) and write_all: a new file with this text
#[verifier::external_body]
pub fn v_write_new<P: VPath>(p: P, s: &String, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
    ensures same_locks(*old(w), *final(w)), touched(*old(w), *final(w), p.pv()), r is Ok ==> !old(w).files.contains_key(p.pv()) && final(w).dirs == old(w).dirs && final(w).files == old(w).files.insert(p.pv(), s@) { unimplemented!() }
#[verifier::external_body]
pub struct LabOutcome { _p: u8 }
impl LabOutcome { #[verifier::external_body] pub fn new() -> LabOutcome { unimplemented!() } }
// ---- lines ----
/// str::lines, for texts made of whole lines
pub open spec fn flat(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last() + seq!['\n'] } }
pub open spec fn one_line(s: Seq<char>) -> bool { (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n') && (s.len() > 0 ==> s.last() != '\r') }
pub open spec fn one_lines(v: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < v.len() ==> one_line(#[trigger] v[i]) }
pub uninterp spec fn s_lines(t: Seq<char>) -> Seq<Seq<char>>;
pub broadcast axiom fn ax_lines(v: Seq<Seq<char>>) requires one_lines(v), ensures #[trigger] s_lines(flat(v)) == v;
pub open spec fn vtx(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn stx(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait VText { spec fn tx(&self) -> Seq<char>; fn v_lines<'a>(&'a self) -> (r: VIter<&'a str>) ensures stx(r@) == s_lines(self.tx()); }
impl VText for String { open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_lines<'a>(&'a self) -> (r: VIter<&'a str>) { unimplemented!() } }
#[verifier::external_body]
pub fn v_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
//%paths str::to_string => v_to_string
pub trait VExt<T> { spec fn ev(&self) -> Seq<T>; fn v_extend<I: VIntoIter<T>>(&mut self, o: I) ensures final(self).ev() == old(self).ev() + o.items(); }
impl<T> VExt<T> for Vec<T> { open spec fn ev(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_extend<I: VIntoIter<T>>(&mut self, o: I) { unimplemented!() } }
//%methods extend=v_extend lines=v_lines
//%paths String::with_capacity => v_string_with_capacity
#[verifier::external_body]
pub fn v_has(v: &[String], s: &String) -> (r: bool) ensures r == vtx(v@).contains(s@) { unimplemented!() }
#[verifier::external_body]
pub struct Mutant { _p: u8 }
#[verifier::external_body]
pub struct SourceFile { _p: u8 }
impl Mutant {
    pub uninterp spec fn s_name(&self, show_line_col: bool) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self, show_line_col: bool) -> (r: String) ensures r@ == self.s_name(show_line_col) { unimplemented!() }
}
//%const output.rs LOCK_JSON
//%const output.rs OUTDIR_NAME
//%const output.rs ROTATED_NAME
//%const output.rs CAUGHT_TXT
//%const output.rs UNVIABLE_TXT
//%const output.rs PREVIOUSLY_CAUGHT_TXT
//%type visit.rs Discovered
//%type output.rs OutputDir
// ---- C13: what earlier runs caught or found unviable ----
pub open spec fn text_at(w: World, d: Seq<char>, n: Seq<char>) -> Seq<Seq<char>> { if w.files.contains_key(s_join(d, n)) { s_lines(w.files[s_join(d, n)]) } else { Seq::empty() } }
pub open spec fn remembered(w: World, out: Seq<char>) -> Seq<Seq<char>> { text_at(w, out, "caught.txt"@) + text_at(w, out, "unviable.txt"@) + text_at(w, out, "previously_caught.txt"@) }
pub open spec fn keep_flags(s: Seq<Mutant>, names: Seq<Seq<char>>) -> Seq<bool> { Seq::new(s.len(), |i: int| !names.contains(s[i].s_name(true))) }
//%fn visit.rs Discovered::remove_previously_caught
//%opaque 1 `previously_caught.contains(&name)` => `v_has(previously_caught, &name)`
//%closure 0
    |$0: &Mutant| -> (b: bool) ensures b == !vtx(previously_caught@).contains($0.s_name(true))
//%spec
    ensures final(self).mutants@ == select(old(self).mutants@, keep_flags(old(self).mutants@, vtx(previously_caught@))), //%[C13]
        final(self).files == old(self).files, //%[C13]
//%entry
    let ghost ms = self.mutants@; let ghost pc = vtx(previously_caught@);
    proof { assert forall|k: Seq<bool>| k.len() == ms.len() && (forall|i: int| 0 <= i < ms.len() ==> #[trigger] k[i] == !pc.contains(ms[i].s_name(true))) implies k == keep_flags(ms, pc) by { assert(k =~= keep_flags(ms, pc)); } }
//%end
//%fn output.rs load_previously_caught
//%wparam Tracked(w): Tracked<&mut World>
//%ghost is_file read_to_string
//%spec
    ensures *final(w) == *old(w), r matches Ok(v) ==> vtx(v@) == remembered(*old(w), s_join(output_parent_dir@, "mutants.out"@)),
//%entry
    broadcast use lem_vtx, lem_strs, lem_empty, lem_vtx0;
//%end
pub broadcast proof fn lem_vtx(a: Seq<String>, b: Seq<String>) ensures #[trigger] vtx(a + b) == vtx(a) + vtx(b) { assert(vtx(a + b) =~= vtx(a) + vtx(b)); }
pub broadcast proof fn lem_vtx0(a: Seq<String>) requires a.len() == 0, ensures #[trigger] vtx(a) == Seq::<Seq<char>>::empty() { assert(vtx(a) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lem_empty(a: Seq<Seq<char>>) ensures #[trigger] (a + Seq::empty()) == a, #[trigger] (Seq::empty() + a) == a { assert(a + Seq::empty() =~= a); assert(Seq::empty() + a =~= a); }
pub broadcast proof fn lem_strs(a: Seq<String>, b: Seq<&str>) requires a.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> b[i]@ == #[trigger] a[i]@, ensures #![trigger vtx(a), stx(b)] vtx(a) == stx(b) { assert(vtx(a) =~= stx(b)); }
//%fn output.rs OutputDir::write_previously_caught
//%wparam Tracked(w): Tracked<&mut World>
//%opaque 1 `caught.iter().map(|l| l.len() + 1).sum()` => `0`
//%opaque 1 `File::options().create_new(true).write(true).open(&path).and_then(|mut f| f.write_all(b.as_bytes()))` => `v_write_new(&path, &b, Tracked(w))`
//%spec
    ensures touched(*old(w), *final(w), s_join(self.path@, "previously_caught.txt"@)), r is Ok ==> final(w).dirs == old(w).dirs && final(w).files == old(w).files.insert(s_join(self.path@, "previously_caught.txt"@), flat(vtx(caught@))),
//%loop 0 it it
//%loop 0
    invariant 0 <= it.index@ <= caught@.len(), it.snapshot@.remaining().len() == caught@.len(), forall|i: int| 0 <= i < caught@.len() ==> *(#[trigger] it.snapshot@.remaining()[i]) == caught@[i], b@ == flat(vtx(caught@).take(it.index@)),
//%loop 0 start
    proof { let t = vtx(caught@); let k = it.index@; assert(t.take(k + 1).drop_last() =~= t.take(k)); assert(t.take(k + 1).last() == t[k]); }
    let ghost b0 = b@;
//%loop 0 end
    proof { assert(b@ =~= b0 + l@ + seq!['\n']); }
//%loop 0 after
    proof { assert(vtx(caught@).take(caught@.len() as int) =~= vtx(caught@)); }
//%end
/// a fresh output directory: empty lists, nothing remembered; what was there is in mutants.out.old; nothing else is touched
pub open spec fn empty_file(w: World, d: Seq<char>, n: Seq<char>) -> bool { w.files.contains_key(s_join(d, n)) && w.files[s_join(d, n)] == Seq::<char>::empty() }
pub open spec fn fresh_out(w: World, d: Seq<char>) -> bool {
    &&& empty_file(w, d, "missed.txt"@) && empty_file(w, d, "caught.txt"@) && empty_file(w, d, "timeout.txt"@) && empty_file(w, d, "unviable.txt"@)
    &&& !w.files.contains_key(s_join(d, "previously_caught.txt"@)) && !w.files.contains_key(s_join(d, "outcomes.json"@)) && !w.files.contains_key(s_join(d, "mutants.json"@))
}
pub open spec fn kept(o: World, n: World, a: Seq<char>, b: Seq<char>) -> bool {
    forall|x: Seq<char>| plain(x) && x != "lock.json"@ && o.files.contains_key(s_join(a, x)) ==> #[trigger] n.files.contains_key(s_join(b, x)) && n.files[s_join(b, x)] == o.files[s_join(a, x)] }
// ---- the lock: nothing is written while another run holds it ----
/// std::path::Path: the same paths
pub type Path = Utf8Path;
pub struct LockFile { _p: u8 }
//%fn output.rs LockFile::acquire_lock
//%wparam Tracked(w): Tracked<&mut World>
//%ghost open try_lock_exclusive set_len v_write_text
//%opaque 1 `write_all(serde_json::to_string_pretty(&LockFile::new())?.as_bytes())` => `v_write_text(v_lock_text()?)`
//%opaque 1 `sleep(LOCK_POLL)` => `sleep(v_lock_poll())`
//%attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//%entry
    broadcast use lem_tt, lem_t0;
//%spec
    ensures wf(*old(w)) ==> wf(*final(w)), final(w).dirs == old(w).dirs, touched(*old(w), *final(w), s_join(output_dir@, "lock.json"@)),
        files_but(*old(w), *final(w), s_join(output_dir@, "lock.json"@)),
        final(w).guard == old(w).guard, forall|q: Seq<char>| old(w).had.contains(q) ==> #[trigger] final(w).had.contains(q),
        r matches Ok(f) ==> f@ == s_join(output_dir@, "lock.json"@) && final(w).locked.contains(f.id()) && final(w).had.contains(f@),
        // while another run has the lock: what is there stays as it is
        old(w).files.contains_key(s_join(output_dir@, "lock.json"@)) && !final(w).had.contains(s_join(output_dir@, "lock.json"@)) ==> final(w).files == old(w).files, //%[C26]
//%loop 0
    invariant_except_break *w == w1,
    invariant lock_file@ == s_join(output_dir@, "lock.json"@),
    ensures *w == (World { locked: w1.locked.insert(lock_file.id()), had: w1.had.insert(lock_file@), ..w1 }),
//%loop 0 before
    let ghost w1 = *w;
//%loop 0 after
    proof { lem_t0(w1, *w, s_join(output_dir@, "lock.json"@)); lem_tt(*old(w), w1, *w, s_join(output_dir@, "lock.json"@)); }
//%end
//%fn output.rs OutputDir::new
//%wparam Tracked(w): Tracked<&mut World>
//%ghost exists create_dir acquire_lock remove_dir_all rename open
//%chain list_file_options
//%spec
    requires wf(*old(w)), !old(w).files.contains_key(s_join(in_dir@, "mutants.out"@)), old(w).guard == s_join(s_join(in_dir@, "mutants.out"@), "lock.json"@), old(w).had == Set::<Seq<char>>::empty(),
    ensures
        // the lock is held for as long as the OutputDir lives
        r matches Ok(o) ==> o.lock_file@ == s_join(o.path@, "lock.json"@) && final(w).locked.contains(o.lock_file.id()), //%[C26]
        // while another run has the lock: nothing changes
        old(w).dirs.contains(s_join(in_dir@, "mutants.out"@)) && old(w).files.contains_key(old(w).guard) && !final(w).had.contains(old(w).guard) ==> r is Err && final(w).files == old(w).files && final(w).dirs == old(w).dirs, //%[C26]
        old(w).dirs.contains(in_dir@) ==> only_in2(*old(w), *final(w), s_join(in_dir@, "mutants.out"@), s_join(in_dir@, "mutants.out.old"@)),
        r matches Ok(o) ==> o.path@ == s_join(in_dir@, "mutants.out"@) && fresh_out(*final(w), o.path@),
        r matches Ok(o) ==> o.missed_list@ == s_join(o.path@, "missed.txt"@) && o.caught_list@ == s_join(o.path@, "caught.txt"@) && o.timeout_list@ == s_join(o.path@, "timeout.txt"@) && o.unviable_list@ == s_join(o.path@, "unviable.txt"@),
        r is Ok ==> kept(*old(w), *final(w), s_join(in_dir@, "mutants.out"@), s_join(in_dir@, "mutants.out.old"@)),
//%entry
    broadcast use ax_join, ax_beneath, ax_not, ax_anti, lem_t, lem_o, lem_0;
    proof { l_names(); let out = s_join(in_dir@, "mutants.out"@); let old_ = s_join(in_dir@, "mutants.out.old"@);
        assert(want(out, old_));
        assert(beneath(out, in_dir@) && beneath(old_, in_dir@));
        assert(out != old_ && !beneath(out, old_) && !beneath(old_, out));
        assert forall|n: Seq<char>| plain(n) implies beneath(#[trigger] s_join(out, n), out) && s_join(out, n) != out && s_join(out, n) != old_ && !beneath(s_join(out, n), old_) by {}
        assert forall|n: Seq<char>| plain(n) implies beneath(#[trigger] s_join(old_, n), old_) && s_join(old_, n) != out && s_join(old_, n) != old_ && !beneath(s_join(old_, n), out) by {} }
//%end
pub proof fn l_names()
    ensures plain("mutants.out"@), plain("mutants.out.old"@), plain("missed.txt"@), plain("caught.txt"@), plain("timeout.txt"@), plain("unviable.txt"@), plain("previously_caught.txt"@), plain("outcomes.json"@), plain("mutants.json"@), plain("lock.json"@), plain("log"@), plain("diff"@),
        "mutants.out"@.len() == 11, "mutants.out.old"@.len() == 15, "missed.txt"@.len() == 10, "missed.txt"@[0] == 'm', "caught.txt"@.len() == 10, "caught.txt"@[0] == 'c', "timeout.txt"@.len() == 11, "unviable.txt"@.len() == 12, "previously_caught.txt"@.len() == 21, "outcomes.json"@.len() == 13, "mutants.json"@.len() == 12, "mutants.json"@[0] == 'm', "unviable.txt"@[0] == 'u', "timeout.txt"@[0] == 't', "lock.json"@.len() == 9, "log"@.len() == 3, "diff"@.len() == 4
{
    reveal_strlit("mutants.out"); reveal_strlit("mutants.out.old"); reveal_strlit("missed.txt"); reveal_strlit("caught.txt"); reveal_strlit("timeout.txt"); reveal_strlit("unviable.txt"); reveal_strlit("previously_caught.txt"); reveal_strlit("outcomes.json"); reveal_strlit("mutants.json"); reveal_strlit("lock.json"); reveal_strlit("log"); reveal_strlit("diff");
}
// ---- C13: histories ----
/// the run that follows remembers what this one was given and what it caught or found unviable, whatever it did in between
pub proof fn thm_next_run(w: World, out: Seq<char>, prev: Seq<Seq<char>>, caught: Seq<Seq<char>>, unviable: Seq<Seq<char>>, x: Seq<char>)
    requires one_lines(prev), one_lines(caught), one_lines(unviable),
        w.files.contains_key(s_join(out, "caught.txt"@)), w.files[s_join(out, "caught.txt"@)] == flat(caught),
        w.files.contains_key(s_join(out, "unviable.txt"@)), w.files[s_join(out, "unviable.txt"@)] == flat(unviable),
        w.files.contains_key(s_join(out, "previously_caught.txt"@)), w.files[s_join(out, "previously_caught.txt"@)] == flat(prev),
    ensures remembered(w, out).contains(x) <==> caught.contains(x) || unviable.contains(x) || prev.contains(x),
{ broadcast use ax_lines;
  let a = caught + unviable; 
  assert(remembered(w, out) == a + prev);
  if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + prev)[i] == x); if i < caught.len() { assert(caught[i] == x); } else { assert(unviable[i - caught.len()] == x); } }
  if caught.contains(x) { let i = choose|i: int| 0 <= i < caught.len() && caught[i] == x; assert(a[i] == x); assert((a + prev)[i] == x); }
  if unviable.contains(x) { let i = choose|i: int| 0 <= i < unviable.len() && unviable[i] == x; assert(a[i + caught.len()] == x); assert((a + prev)[i + caught.len()] == x); }
  if prev.contains(x) { let i = choose|i: int| 0 <= i < prev.len() && prev[i] == x; assert((a + prev)[i + a.len()] == x); }
  if (a + prev).contains(x) { let i = choose|i: int| 0 <= i < (a + prev).len() && (a + prev)[i] == x; if i < a.len() { assert(a[i] == x); if i < caught.len() { assert(caught[i] == x); } else { assert(unviable[i - caught.len()] == x); } } else { assert(prev[i - a.len()] == x); } }
}
} // verus!
fn main() {}
