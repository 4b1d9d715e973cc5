use vstd::prelude::*;
verus! {
//%include shim_core.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
// ---- a file system: every path is a file (with its contents and mode), a directory, a symlink or something else (assumed: std::fs, tempfile, camino) ----
pub enum Node { File(Seq<char>), Dir, Link(Seq<char>), Other }
pub tracked struct World { pub ghost files: Map<Seq<char>, Node>, pub ghost bytes: int, pub ghost count: int }
pub uninterp spec fn s_join(d: Seq<char>, rel: Seq<char>) -> Seq<char>;
/// p is in a directory made for this copy
pub uninterp spec fn is_temp(p: Seq<char>) -> bool;
/// a is rel or a directory above it, but not the top
pub uninterp spec fn anc(a: Seq<char>, rel: Seq<char>) -> bool;
/// q is a directory above p
pub uninterp spec fn above(q: Seq<char>, p: Seq<char>) -> bool;
/// the last component
pub uninterp spec fn s_name(rel: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_join(d: Seq<char>, a: Seq<char>, b: Seq<char>) requires #[trigger] s_join(d, a) == #[trigger] s_join(d, b), ensures a == b;
pub broadcast axiom fn ax_above(d: Seq<char>, a: Seq<char>, b: Seq<char>) requires #[trigger] above(s_join(d, a), s_join(d, b)), ensures a == ""@ || anc(a, b);
pub broadcast axiom fn ax_anc(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires #[trigger] anc(a, b), #[trigger] anc(b, c), ensures anc(a, c);
pub broadcast axiom fn ax_self(a: Seq<char>) requires a != ""@, ensures #[trigger] anc(a, a);
/// rel stands for a path without a root and without `..`
pub broadcast axiom fn ax_temp(d: Seq<char>, rel: Seq<char>) requires is_temp(d), ensures is_temp(#[trigger] s_join(d, rel));
pub type IoError = Error;
pub trait VTry<T>: Sized { spec fn tv(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.tv() is Some, r matches Ok(v) ==> self.tv() == Some(v); }
impl<T> VTry<T> for core::result::Result<T, Error> { open spec fn tv(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
impl<T> VTry<T> for Option<T> { open spec fn tv(self) -> Option<T> { self }
    fn v_ctx(self) -> (r: Result<T>) { match self { Some(v) => Ok(v), None => Err(v_err()) } } }
#[verifier::external_body]
pub struct Path { _p: u8 }
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl core::ops::Deref for Utf8PathBuf { type Target = Utf8Path;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() } }
pub trait VPath { spec fn pv(&self) -> Seq<char>; }
impl VPath for Utf8Path { open spec fn pv(&self) -> Seq<char> { self@ } }
impl VPath for Utf8PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } }
impl VPath for Path { open spec fn pv(&self) -> Seq<char> { self@ } }
impl VPath for PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } }
impl<T: VPath> VPath for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } }
impl Path {
    #[verifier::external_body] pub fn join(&self, n: &Path) -> (r: PathBuf) ensures r@ == s_join(self@, n@) { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix(&self, p: &Utf8Path) -> (r: Option<&Path>) ensures forall|x: Seq<char>| self@ == #[trigger] s_join(p@, x) ==> (r matches Some(q) && q@ == x) { unimplemented!() }
    #[verifier::external_body] pub fn v_try_into(&self) -> (r: Result<&Utf8Path>) ensures r matches Ok(p) ==> p@ == self@ { unimplemented!() }
}
impl PathBuf { #[verifier::external_body] pub fn v_try_into(self) -> (r: Result<Utf8PathBuf>) ensures r matches Ok(p) ==> p@ == self@ { unimplemented!() } }
pub fn v_expect<T>(o: Option<T>) -> (r: T) requires o is Some, ensures o == Some(r) { match o { Some(x) => x, None => v_never() } }
#[verifier::external_body]
pub fn v_never<T>() -> T requires false { unimplemented!() }
//%methods try_into=v_try_into
pub open spec fn kept_but(o: World, n: World, p: Seq<char>) -> bool { forall|q: Seq<char>| #![trigger n.files.contains_key(q)] #![trigger n.files[q]] q != p ==> n.files.contains_key(q) == o.files.contains_key(q) && n.files[q] == o.files[q] }
// ---- the temporary directory ----
#[verifier::external_body]
pub struct TempDir { _p: u8 }
impl TempDir {
    pub uninterp spec fn s_path(&self) -> Seq<char>;
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures r@ == self.s_path() { unimplemented!() }
}
pub struct Builder { _p: u8 }
impl Builder {
    #[verifier::external_body] pub fn prefix(self, s: &str) -> Builder { unimplemented!() }
    #[verifier::external_body] pub fn suffix(self, s: &str) -> Builder { unimplemented!() }
    /// a new empty directory, nowhere near anything that was there before
    #[verifier::external_body]
    pub fn tempdir(self, Tracked(w): Tracked<&mut World>) -> (r: Result<TempDir>)
        ensures final(w).bytes == old(w).bytes, final(w).count == old(w).count, forall|q: Seq<char>| #![trigger final(w).files.contains_key(q)] #![trigger final(w).files[q]] !is_temp(q) ==> final(w).files.contains_key(q) == old(w).files.contains_key(q) && final(w).files[q] == old(w).files[q],
            r matches Ok(t) ==> final(w).files.contains_key(s_join(t.s_path(), ""@)) && final(w).files[s_join(t.s_path(), ""@)] == Node::Dir && is_temp(t.s_path())
                && forall|rel: Seq<char>| rel != ""@ ==> !final(w).files.contains_key(#[trigger] s_join(t.s_path(), rel)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_builder() -> Builder { unimplemented!() }
//%paths tempfile::Builder::new() => v_builder()
#[verifier::external_body]
pub struct Console { _p: u8 }
impl Console {
    #[verifier::external_body] pub fn start_copy(&self, d: &Utf8Path) { unimplemented!() }
    #[verifier::external_body] pub fn finish_copy(&self, d: &Utf8Path) { unimplemented!() }
    #[verifier::external_body] pub fn copy_progress(&self, d: &Utf8Path, n: u64) { unimplemented!() }
}
#[verifier::external_body]
pub fn check_interrupted() -> (r: Result<()>) { unimplemented!() }
// ---- std::fs ----
/// copies contents and mode (assumed: no more than 2^64-1 bytes and 2^31-1 files are ever copied)
#[verifier::external_body]
pub fn v_copy<P: VPath, Q: VPath>(a: P, b: Q, Tracked(w): Tracked<&mut World>) -> (r: Result<u64>)
    ensures kept_but(*old(w), *final(w), b.pv()), r matches Ok(n) ==> old(w).files.contains_key(a.pv()) && final(w).files.contains_key(b.pv()) && (old(w).files[a.pv()] is File ==> final(w).files[b.pv()] == old(w).files[a.pv()])
        && final(w).bytes == old(w).bytes + n && final(w).bytes <= u64::MAX && final(w).count == old(w).count + 1 && final(w).count <= i32::MAX,
{ unimplemented!() }
#[verifier::external_body]
pub fn v_create_dir_all<P: VPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
    ensures final(w).bytes == old(w).bytes, final(w).count == old(w).count, forall|q: Seq<char>| #![trigger final(w).files.contains_key(q)] #![trigger final(w).files[q]] q != p.pv() && !above(q, p.pv()) ==> final(w).files.contains_key(q) == old(w).files.contains_key(q) && final(w).files[q] == old(w).files[q],
        forall|q: Seq<char>| #[trigger] old(w).files.contains_key(q) ==> final(w).files.contains_key(q) && final(w).files[q] == old(w).files[q],
        r is Ok ==> final(w).files.contains_key(p.pv()) && (!old(w).files.contains_key(p.pv()) ==> final(w).files[p.pv()] == Node::Dir), forall|q: Seq<char>| !old(w).files.contains_key(q) && #[trigger] final(w).files.contains_key(q) ==> final(w).files[q] == Node::Dir, r is Ok && old(w).files.contains_key(p.pv()) ==> !(old(w).files[p.pv()] is File),
        is_temp(p.pv()) ==> forall|q: Seq<char>| #![trigger final(w).files.contains_key(q)] #![trigger final(w).files[q]] !is_temp(q) ==> final(w).files.contains_key(q) == old(w).files.contains_key(q) && final(w).files[q] == old(w).files[q],
{ unimplemented!() }
#[verifier::external_body]
pub fn v_read_link<P: VPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<PathBuf>) ensures *final(w) == *old(w), r matches Ok(t) ==> old(w).files.contains_key(p.pv()) && old(w).files[p.pv()] == Node::Link(t@) { unimplemented!() }
#[verifier::external_body]
pub fn v_symlink<P: VPath, Q: VPath>(t: P, p: Q, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
    ensures final(w).bytes == old(w).bytes, final(w).count == old(w).count, kept_but(*old(w), *final(w), p.pv()), r is Ok ==> final(w).files.contains_key(p.pv()) && final(w).files[p.pv()] == Node::Link(t.pv()) { unimplemented!() }
//%paths std::fs::copy => v_copy
//%paths std::fs::create_dir_all => v_create_dir_all
//%paths std::fs::read_link => v_read_link
//%paths std::os::unix::fs::symlink => v_symlink
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct FileType { _p: u8 }
pub ghost enum Kind { File, Dir, Link, Other }
pub open spec fn kind(n: Node) -> Kind { match n { Node::File(_) => Kind::File, Node::Dir => Kind::Dir, Node::Link(_) => Kind::Link, Node::Other => Kind::Other } }
impl View for FileType { type V = Kind; uninterp spec fn view(&self) -> Kind; }
impl FileType {
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == (self@ is File) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == (self@ is Dir) { unimplemented!() }
    #[verifier::external_body] pub fn is_symlink(&self) -> (r: bool) ensures r == (self@ is Link) { unimplemented!() }
}
// ---- walking a tree (assumed: the ignore crate) ----
pub ghost struct En { pub root: Seq<char>, pub rel: Seq<char>, pub kind: Kind }
#[verifier::external_body]
pub struct DirEntry { _p: u8 }
impl View for DirEntry { type V = En; uninterp spec fn view(&self) -> En; }
/// the entry for a path
pub uninterp spec fn ent(rel: Seq<char>) -> DirEntry;
pub broadcast axiom fn ax_ent(rel: Seq<char>) ensures (#[trigger] ent(rel))@.rel == rel;
impl DirEntry {
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures r@ == s_join(self@.root, self@.rel) { unimplemented!() }
    #[verifier::external_body] pub fn file_type(&self) -> (r: Option<FileType>) ensures r matches Some(t) ==> t@ == self@.kind { unimplemented!() }
    #[verifier::external_body] pub fn v_name(&self) -> (r: &str) ensures r@ == s_name(self@.rel) { unimplemented!() }
}
pub ghost struct Cfg { pub root: Seq<char>, pub git_ignore: bool, pub git_exclude: bool, pub git_global: bool, pub hidden: bool, pub ignore: bool, pub require_git: bool }
#[verifier::external_body]
pub struct WalkBuilder { _p: u8 }
impl View for WalkBuilder { type V = Cfg; uninterp spec fn view(&self) -> Cfg; }
/// the filter accepts the entry at this path
pub uninterp spec fn s_kept(b: WalkBuilder, rel: Seq<char>) -> bool;
/// a rule of a .gitignore file, .git/info/exclude or the global ignore file of a git tree matches this path
pub uninterp spec fn git_ignored(root: Seq<char>, rel: Seq<char>) -> bool;
/// another rule leaves it out: hidden files, .ignore files, .gitignore files outside a git tree, some kinds of git rules only
pub uninterp spec fn left_out(c: Cfg, rel: Seq<char>) -> bool;
pub open spec fn std_cfg(root: Seq<char>, gitignore: bool) -> Cfg { Cfg { root, git_ignore: gitignore, git_exclude: gitignore, git_global: gitignore, hidden: false, ignore: false, require_git: true } }
pub broadcast axiom fn ax_cfg(root: Seq<char>, g: bool, rel: Seq<char>) ensures #[trigger] left_out(std_cfg(root, g), rel) == (g && git_ignored(root, rel));
pub open spec fn chosen(b: WalkBuilder, rel: Seq<char>) -> bool { forall|a: Seq<char>| #[trigger] anc(a, rel) ==> s_kept(b, a) && !left_out(b@, a) }
pub open spec fn same_filter(a: WalkBuilder, b: WalkBuilder) -> bool { forall|rel: Seq<char>| #[trigger] s_kept(b, rel) == s_kept(a, rel) }
impl WalkBuilder {
    #[verifier::external_body] pub fn new(p: &Utf8Path) -> (r: WalkBuilder) ensures r@ == (Cfg { root: p@, git_ignore: true, git_exclude: true, git_global: true, hidden: true, ignore: true, require_git: true }), forall|rel: Seq<char>| #[trigger] s_kept(r, rel) { unimplemented!() }
    #[verifier::external_body] pub fn git_ignore(&mut self, b: bool) -> (r: &mut WalkBuilder) ensures final(self)@ == (Cfg { git_ignore: b, ..old(self)@ }), same_filter(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn git_exclude(&mut self, b: bool) -> (r: &mut WalkBuilder) ensures final(self)@ == (Cfg { git_exclude: b, ..old(self)@ }), same_filter(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn git_global(&mut self, b: bool) -> (r: &mut WalkBuilder) ensures final(self)@ == (Cfg { git_global: b, ..old(self)@ }), same_filter(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn hidden(&mut self, b: bool) -> (r: &mut WalkBuilder) ensures final(self)@ == (Cfg { hidden: b, ..old(self)@ }), same_filter(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn ignore(&mut self, b: bool) -> (r: &mut WalkBuilder) ensures final(self)@ == (Cfg { ignore: b, ..old(self)@ }), same_filter(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] pub fn require_git(&mut self, b: bool) -> (r: &mut WalkBuilder) ensures final(self)@ == (Cfg { require_git: b, ..old(self)@ }), same_filter(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_entry<F: Fn(&DirEntry) -> bool>(&mut self, f: F) -> (r: &mut WalkBuilder)
        requires forall|e: DirEntry| #[trigger] call_requires(f, (&e,)),
        ensures final(self)@ == old(self)@, forall|rel: Seq<char>| call_ensures(f, (&ent(rel),), #[trigger] s_kept(*final(self), rel)),
    { unimplemented!() }
    /// everything beneath the root that no rule leaves out, with no directory above it left out; or an error
    #[verifier::external_body]
    pub fn build(&self, Tracked(w): Tracked<&mut World>) -> (r: VIter<Result<DirEntry>>)
        ensures *final(w) == *old(w),
            forall|i: int| 0 <= i < r@.len() ==> ((#[trigger] r@[i]) matches Ok(e) ==> e@.root == self@.root && chosen(*self, e@.rel) && old(w).files.contains_key(s_join(self@.root, e@.rel)) && e@.kind == kind(old(w).files[s_join(self@.root, e@.rel)])),
            all_ok(r@) ==> forall|rel: Seq<char>| #[trigger] old(w).files.contains_key(s_join(self@.root, rel)) && chosen(*self, rel) ==> found(r@, rel),
    { unimplemented!() }
}
pub open spec fn all_ok(s: Seq<Result<DirEntry>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn found(s: Seq<Result<DirEntry>>, rel: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && ((#[trigger] s[i]) matches Ok(e) && e@.rel == rel) }
//%type options.rs Options keep=copy_vcs,gitignore,leak_dirs,in_place
// ---- C20 ----
pub open spec fn is_vcs(n: Seq<char>) -> bool { n == ".git"@ || n == ".hg"@ || n == ".bzr"@ || n == ".svn"@ || n == "_darcs"@ || n == ".jj"@ || n == ".pijul"@ }
/// left out by its name
pub open spec fn name_out(n: Seq<char>, copy_vcs: bool) -> bool { n == "mutants.out"@ || n == "mutants.out.old"@ || (!copy_vcs && is_vcs(n)) }
/// rel belongs in the copy: neither it nor a directory above it is left out by name or, with gitignore, by a git rule
pub open spec fn wanted(root: Seq<char>, o: Options, rel: Seq<char>) -> bool { forall|a: Seq<char>| #[trigger] anc(a, rel) ==> !name_out(s_name(a), o.copy_vcs) && !(o.gitignore && git_ignored(root, a)) }
//%const copy_tree.rs VCS_DIRS => VCS_DIRS@.len() == 7, VCS_DIRS@[0]@ == ".git"@, VCS_DIRS@[1]@ == ".hg"@, VCS_DIRS@[2]@ == ".bzr"@, VCS_DIRS@[3]@ == ".svn"@, VCS_DIRS@[4]@ == "_darcs"@, VCS_DIRS@[5]@ == ".jj"@, VCS_DIRS@[6]@ == ".pijul"@
#[verifier::external_body]
pub fn v_contains(l: &[&str], n: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < l@.len() && (#[trigger] l@[i])@ == n@ { unimplemented!() }
pub broadcast axiom fn ax_str(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
//%fn copy_tree/unix.rs copy_symlink
//%wparam Tracked(w): Tracked<&mut World>
//%ghost v_read_link v_symlink
//%spec
    ensures final(w).bytes == old(w).bytes, final(w).count == old(w).count, kept_but(*old(w), *final(w), dest_path@), r is Ok ==> old(w).files.contains_key(src_path@) && final(w).files.contains_key(dest_path@) && final(w).files[dest_path@] == old(w).files[src_path@],
//%end
pub open spec fn from_walk(e: DirEntry, w0: World, from: Seq<char>, o: Options) -> bool { e@.root == from && wanted(from, o, e@.rel) && w0.files.contains_key(s_join(from, e@.rel)) && e@.kind == kind(w0.files[s_join(from, e@.rel)]) }
/// what the loop has done after some entries
pub open spec fn copied(w0: World, w: World, from: Seq<char>, t: Seq<char>, rel: Seq<char>) -> bool {
    !(w0.files[s_join(from, rel)] is Other) ==> w.files.contains_key(s_join(t, rel)) && w.files[s_join(t, rel)] == w0.files[s_join(from, rel)] }
pub open spec fn src_same(w0: World, w: World) -> bool { forall|q: Seq<char>| #![trigger w0.files.contains_key(q)] #![trigger w0.files[q]] #![trigger w.files.contains_key(q)] #![trigger w.files[q]] !is_temp(q) ==> w.files.contains_key(q) == w0.files.contains_key(q) && w.files[q] == w0.files[q] }
pub open spec fn only_wanted(w: World, from: Seq<char>, t: Seq<char>, o: Options) -> bool { forall|rel: Seq<char>| #[trigger] w.files.contains_key(s_join(t, rel)) ==> wanted(from, o, rel) || rel == ""@ }
/// the copied part: nothing else there, and what is there twice is the same
pub open spec fn only_copies(w0: World, w: World, from: Seq<char>, t: Seq<char>) -> bool { forall|rel: Seq<char>| #[trigger] w.files.contains_key(s_join(t, rel)) ==> w.files[s_join(t, rel)] is Dir || (w0.files.contains_key(s_join(from, rel)) && w.files[s_join(t, rel)] == w0.files[s_join(from, rel)]) }
//%fn copy_tree.rs copy_tree
//%wparam Tracked(w): Tracked<&mut World>
//%ghost tempdir build v_copy v_create_dir_all copy_symlink
//%attr #[verifier::exec_allows_no_decreases_clause]
//%chain walk_builder
//%opaque 1 `entry.file_name().to_string_lossy()` => `entry.v_name()`
//%opaque 1 `VCS_DIRS.contains(&name.as_ref())` => `v_contains(VCS_DIRS, name)`
//%opaque 1 `entry.path().strip_prefix(from_path).expect("entry path is in from_path")` => `v_expect(entry.path().strip_prefix(from_path))`
//%closure 0
    |$0: &DirEntry| -> (b: bool) ensures b == !name_out(s_name($0@.rel), copy_vcs)
//%spec
    requires forall|rel: Seq<char>| !is_temp(#[trigger] s_join(from_path@, rel)), old(w).files.contains_key(s_join(from_path@, ""@)) && old(w).files[s_join(from_path@, ""@)] == Node::Dir, old(w).bytes == 0, old(w).count == 0,
    ensures
        src_same(*old(w), *final(w)),
        r matches Ok(t) ==> is_temp(t.s_path()) && only_wanted(*final(w), from_path@, t.s_path(), *options),
        r matches Ok(t) ==> forall|rel: Seq<char>| #[trigger] old(w).files.contains_key(s_join(from_path@, rel)) && wanted(from_path@, *options, rel) ==> copied(*old(w), *final(w), from_path@, t.s_path(), rel),
//%entry
    broadcast use ax_str, ax_temp, ax_join, ax_above, ax_anc, ax_self, ax_ent, ax_cfg;
    let ghost w0 = *w; let ghost from = from_path@; let ghost o = *options;
//%loop 0 it it
//%loop 0 vfor
//%loop 0
    invariant
        0 <= it.pos() <= it.all().len(), w0 == *old(w), from == from_path@, o == *options, t == temp_dir.s_path(), forall|rel: Seq<char>| !is_temp(#[trigger] s_join(from, rel)), forall|rel: Seq<char>| is_temp(#[trigger] s_join(t, rel)),
        src_same(w0, *w), only_copies(w0, *w, from, t), only_wanted(*w, from, t, o), total_bytes == w.bytes, total_files == w.count, 
        forall|i: int| 0 <= i < it.all().len() ==> ((#[trigger] it.all()[i]) matches Ok(e) ==> from_walk(e, w0, from, o)),
        forall|i: int| 0 <= i < it.pos() ==> ((#[trigger] it.all()[i]) matches Ok(e) && copied(w0, *w, from, t, e@.rel)),
        all_ok(it.all()) ==> forall|rel: Seq<char>| #[trigger] w0.files.contains_key(s_join(from, rel)) && wanted(from, o, rel) ==> found(it.all(), rel),
    ensures it.pos() == it.all().len(),
//%loop 0 before
    let ghost t = temp_dir.s_path();
    proof { assert(src_same(w0, *w)); assert(walk_builder@ == std_cfg(from, o.gitignore));
        assert forall|rel: Seq<char>| #[trigger] s_kept(walk_builder, rel) == !name_out(s_name(rel), o.copy_vcs) by { assert(ent(rel)@.rel == rel); }
        assert forall|rel: Seq<char>| #[trigger] chosen(walk_builder, rel) == wanted(from, o, rel) by {
            if wanted(from, o, rel) { assert forall|a: Seq<char>| #[trigger] anc(a, rel) implies s_kept(walk_builder, a) && !left_out(walk_builder@, a) by {} }
            if chosen(walk_builder, rel) { assert forall|a: Seq<char>| #[trigger] anc(a, rel) implies !name_out(s_name(a), o.copy_vcs) && !(o.gitignore && git_ignored(from, a)) by { assert(s_kept(walk_builder, a)); } } }
        if all_ok(it.all()) { assert forall|rel: Seq<char>| #[trigger] w0.files.contains_key(s_join(from, rel)) && wanted(from, o, rel) implies found(it.all(), rel) by { assert(chosen(walk_builder, rel)); assert(!is_temp(s_join(from, rel))); assert(w.files.contains_key(s_join(from, rel))); } } }
//%loop 0 start
    broadcast use ax_temp, ax_join, ax_above, ax_anc, ax_self;
//%end
// ---- the build directory: nothing but the two fixed-up files differs (their rewriting: unit manifest, which proves these frames) ----
//%type build_dir.rs BuildDir
#[verifier::external_body]
pub struct Workspace { _p: u8 }
impl Workspace { pub uninterp spec fn s_root(&self) -> Seq<char>; #[verifier::external_body] pub fn root(&self) -> (r: &Utf8Path) ensures r@ == self.s_root() { unimplemented!() } }
pub uninterp spec fn s_canon(p: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn v_name() -> (r: String) { unimplemented!() }
impl TempDir { #[verifier::external_body] pub fn into_path(self) -> (r: PathBuf) ensures r@ == self.s_path() { unimplemented!() } }
#[verifier::external_body]
pub fn v_temp_path(t: &TempDir) -> (r: Result<Utf8PathBuf>) ensures r matches Ok(p) ==> p@ == t.s_path() { unimplemented!() }
impl Utf8Path {
    #[verifier::external_body] pub fn canonicalize_utf8(&self) -> (r: Result<Utf8PathBuf>) ensures r matches Ok(p) ==> p@ == s_canon(self@) { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, n: &str) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, n@) { unimplemented!() }
}
#[verifier::external_body]
pub fn fix_manifest(p: &Utf8Path, src: &Utf8Path, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
    ensures kept_but(*old(w), *final(w), p@) { unimplemented!() }
#[verifier::external_body]
pub fn fix_cargo_config(p: &Utf8Path, src: &Utf8Path, Tracked(w): Tracked<&mut World>) -> (r: Result<()>)
    ensures kept_but(*old(w), *final(w), s_join(p@, ".cargo/config.toml"@)) { unimplemented!() }
pub open spec fn rewritten(rel: Seq<char>) -> bool { rel == "Cargo.toml"@ || rel == ".cargo/config.toml"@ }
pub open spec fn whole_copy(w0: World, w: World, from: Seq<char>, t: Seq<char>, o: Options) -> bool {
    &&& forall|rel: Seq<char>| #[trigger] w.files.contains_key(s_join(t, rel)) ==> wanted(from, o, rel) || rel == ""@ || rewritten(rel)
    &&& forall|rel: Seq<char>| #[trigger] w0.files.contains_key(s_join(from, rel)) && wanted(from, o, rel) && !rewritten(rel) ==> copied(w0, w, from, t, rel)
}
/// a directory that can be copied: not one made by tempfile, and nothing copied yet
pub open spec fn copyable(w: World, from: Seq<char>) -> bool { (forall|rel: Seq<char>| !is_temp(#[trigger] s_join(from, rel))) && w.files.contains_key(s_join(from, ""@)) && w.files[s_join(from, ""@)] == Node::Dir && w.bytes == 0 && w.count == 0 }
//%fn build_dir.rs BuildDir::copy_from
//%wparam Tracked(w): Tracked<&mut World>
//%ghost copy_tree fix_manifest fix_cargo_config
//%opaque 1 `let name_base = format!("cargo-mutants-{}-", source.file_name().unwrap_or("unnamed"));` => `let name_base = v_name();`
//%opaque 1 `temp_dir.path().to_owned().try_into()` => `v_temp_path(&temp_dir)`
//%spec
    requires copyable(*old(w), source@),
    ensures src_same(*old(w), *final(w)),
        r matches Ok(b) ==> whole_copy(*old(w), *final(w), source@, b.path@, *options) && is_temp(b.path@)
            && (options.leak_dirs ==> b.temp_dir.is_none()) && (!options.leak_dirs ==> (b.temp_dir matches Some(t) && t.s_path() == b.path@)),
//%entry
    broadcast use ax_temp, ax_join;
    let ghost w0 = *w;
//%end
//%fn build_dir.rs BuildDir::in_place
//%spec
    ensures r matches Ok(b) ==> b.path@ == s_canon(source_path@) && b.temp_dir.is_none(),
//%end
//%fn build_dir.rs BuildDir::for_baseline
//%wparam Tracked(w): Tracked<&mut World>
//%ghost copy_from
//%spec
    requires copyable(*old(w), workspace.s_root()),
    ensures src_same(*old(w), *final(w)), options.in_place ==> *final(w) == *old(w),
        r matches Ok(b) ==> (options.in_place ==> b.path@ == s_canon(workspace.s_root())) && (!options.in_place ==> whole_copy(*old(w), *final(w), workspace.s_root(), b.path@, *options)),
//%end
} // verus!
fn main() {}
