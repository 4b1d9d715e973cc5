use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::sync::Arc;
use std::collections::VecDeque;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
#[verifier::external_body]
pub struct Console { _p: u8 }
#[verifier::external_body]
pub struct WalkProgress { _p: u8 }
#[verifier::external_body]
pub struct Expr { _p: u8 }
#[verifier::external_body]
pub struct SynFile { _p: u8 }
#[verifier::external_body]
pub struct Function { _p: u8 }
#[verifier::external_body]
pub struct RegexSet { _p: u8 }
#[verifier::external_body]
pub struct GlobSet { _p: u8 }
//%type package.rs Package
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Mutant
//%type visit.rs Discovered
//%type visit.rs ModNamespace
//%type visit.rs ExternalModRef
//%type options.rs Options keep=examine_names,exclude_names,examine_globset,exclude_globset
//%shim 'o => 'o
//%type visit.rs DiscoveryVisitor
impl VClone for SourceFile { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
//%methods clone=v_clone
impl Console {
    #[verifier::external_body]
    pub fn start_walk_tree(&self) -> WalkProgress { unimplemented!() }
}
impl WalkProgress {
    #[verifier::external_body]
    pub fn increment_files(&self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn increment_mutants(&self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn check_interrupted() -> (r: Result<()>) { unimplemented!() }
pub uninterp spec fn s_errors(o: Options) -> Seq<Expr>;
// the two filters (contracts proved in unit options)
pub uninterp spec fn path_ok(o: Options, p: Seq<char>) -> bool;
pub uninterp spec fn name_ok(o: Options, m: Mutant) -> bool;
impl Options {
    #[verifier::external_body]
    pub fn parsed_error_exprs(&self) -> (r: Result<Vec<Expr>>) ensures r matches Ok(v) ==> v@ == s_errors(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn allows_mutant(&self, m: &Mutant) -> (r: bool) ensures r == name_ok(*self, *m) { unimplemented!() }
    #[verifier::external_body]
    pub fn allows_source_file_path(&self, p: &Utf8PathBuf) -> (r: bool) ensures r == path_ok(*self, p@) { unimplemented!() }
}
// ---- source files ----
pub tracked struct World {
    /// every path tried, whether its mods are looked for next to it, and the file it turned out to be (None: outside the tree), in order
    pub ghost tried: Seq<(Seq<char>, bool, Option<SourceFile>)>,
    /// the same for each package already walked
    pub ghost done: Seq<Seq<(Seq<char>, bool, Option<SourceFile>)>>,
}
//%if C24
pub open spec fn kf(b: bool) -> bool { b }
//%endif
//%if C12
/// how a file's own mods are found is C24
pub open spec fn kf(b: bool) -> bool { true }
//%endif
//%if C24
/// a file that could be read has a name, so a directory
pub open spec fn has_dir(f: SourceFile) -> bool { s_parent(f.tree_relative_path@).is_some() }
//%endif
//%if C12
pub open spec fn has_dir(f: SourceFile) -> bool { true }
//%endif
pub uninterp spec fn s_load(root: Seq<char>, p: Seq<char>, k: Package, top: bool) -> Option<SourceFile>;
impl SourceFile {
    /// unit source
    #[verifier::external_body]
    pub fn load(root: &Utf8Path, p: &Utf8PathBuf, k: &Package, top: bool, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<SourceFile>>)
        ensures r matches Ok(f) ==> f == s_load(root@, p@, *k, top) && (f matches Some(x) ==> has_dir(x)) && final(w).tried == old(w).tried.push((p@, kf(top), f)), r is Err ==> final(w).tried == old(w).tried, final(w).done == old(w).done { unimplemented!() }
    pub uninterp spec fn s_code(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn code(&self) -> (r: &str) ensures r@ == self.s_code() { unimplemented!() }
}
pub uninterp spec fn s_parse(c: Seq<char>) -> SynFile;
#[verifier::external_body]
pub fn v_parse(c: &str) -> (r: Result<SynFile>) ensures r matches Ok(f) ==> f == s_parse(c@) { unimplemented!() }
/// what the syntax tree visitor finds in a file (unit visitor: C21, C22)
pub uninterp spec fn s_mutants(f: SynFile, sf: SourceFile, e: Seq<Expr>, o: Options) -> Seq<Mutant>;
pub uninterp spec fn s_mods(f: SynFile) -> Seq<ExternalModRef>;
pub open spec fn all_named(s: Seq<ExternalModRef>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).parts@.len() > 0 }
impl<'o> DiscoveryVisitor<'o> {
    #[verifier::external_body]
    pub fn visit_file(&mut self, f: &SynFile)
        requires old(self).mutants@.len() == 0, old(self).external_mods@.len() == 0, old(self).namespace_stack@.len() == 0, old(self).mod_namespace_stack@.len() == 0, old(self).fn_stack@.len() == 0,
        ensures final(self).mutants@ == s_mutants(*f, old(self).source_file, old(self).error_exprs@, *old(self).options), final(self).external_mods@ == s_mods(*f), all_named(s_mods(*f)) { unimplemented!() }
}
pub open spec fn s_file_mutants(sf: SourceFile, e: Seq<Expr>, o: Options) -> Seq<Mutant> { s_mutants(s_parse(sf.s_code()), sf, e, o) }
pub open spec fn file_mods(sf: SourceFile) -> Seq<ExternalModRef> { s_mods(s_parse(sf.s_code())) }
//%fn visit.rs walk_file
//%opaque 1 `syn::parse_str::<syn::File>(source_file.code()).with_context(...)` => `v_parse(source_file.code())`
//%spec
    ensures r matches Ok(x) ==> x.0@ == s_file_mutants(*source_file, error_exprs@, *options) && x.1@ == file_mods(*source_file) && all_named(x.1@),
//%end
//%if C12
pub uninterp spec fn s_find(root: Seq<char>, f: SourceFile, m: ExternalModRef) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn find_mod_source(root: &Utf8Path, f: &SourceFile, m: &ExternalModRef) -> (r: Option<Utf8PathBuf>) ensures match r { Some(p) => s_find(root@, *f, *m) == Some(p@), None => s_find(root@, *f, *m).is_none() } { unimplemented!() }
//%endif
//%if C24
// ---- which file a mod statement means (as rustc looks for it) ----
pub uninterp spec fn s_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn s_parent(a: Seq<char>) -> Option<Seq<char>>;
/// without the extension: the directory for the mods of a file that is not a mod.rs
pub uninterp spec fn s_stem(a: Seq<char>) -> Seq<char>;
/// the last component is this name
pub uninterp spec fn s_named(a: Seq<char>, n: Seq<char>) -> bool;
pub uninterp spec fn s_is_file(a: Seq<char>) -> bool;
impl Utf8PathBuf {
    #[verifier::external_body] pub fn ends_with(&self, n: &str) -> (r: bool) ensures r == s_named(self@, n@) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Utf8Path>) ensures match r { Some(p) => s_parent(self@) == Some(p@), None => s_parent(self@).is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn with_extension(&self, e: &str) -> (r: Utf8PathBuf) ensures e@.len() == 0 ==> r@ == s_stem(self@) { unimplemented!() }
    #[verifier::external_body] pub fn join<P: VPath>(&self, p: P) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == s_is_file(self@) { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn v_extend(&mut self, i: VIter<&Utf8Path>) ensures final(self)@ == joined(old(self)@, i@) { unimplemented!() }
}
impl Utf8Path {
    #[verifier::external_body] pub fn new(s: &String) -> (r: &Utf8Path) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn join<P: VPath>(&self, p: P) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn v_to_owned(&self) -> (r: Utf8PathBuf) ensures r@ == self@ { unimplemented!() }
}
pub trait VPath { spec fn pv(&self) -> Seq<char>; }
impl VPath for String { open spec fn pv(&self) -> Seq<char> { self@ } }
impl<'a> VPath for &'a Utf8PathBuf { open spec fn pv(&self) -> Seq<char> { (**self)@ } }
pub open spec fn joined(d: Seq<char>, s: Seq<&Utf8Path>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { d } else { s_join(joined(d, s.drop_last()), s.last()@) } }
/// the directory inside the enclosing mod blocks
pub open spec fn inside(d: Seq<char>, m: Seq<ModNamespace>) -> Seq<char>
    decreases m.len()
{ if m.len() == 0 { d } else { s_join(inside(d, m.drop_last()), fs_name(m.last())) } }
pub open spec fn fs_name(m: ModNamespace) -> Seq<char> { match m.path_attribute { Some(p) => p@, None => m.name@ } }
/// where the search starts: the file's own directory if its mods lie next to it, or if the outermost name has a path attribute
pub open spec fn start_dir(f: SourceFile, m: ExternalModRef) -> Seq<char> {
    let p = f.tree_relative_path@;
    if f.is_top || s_named(p, "mod.rs"@) || m.parts@[0].path_attribute.is_some() { s_parent(p).unwrap() } else { s_stem(p) } }
pub open spec fn options(f: SourceFile, m: ExternalModRef) -> Seq<Seq<char>> {
    let d = inside(start_dir(f, m), m.parts@.drop_last()); let c = m.parts@.last();
    match c.path_attribute { Some(p) => seq![s_join(d, p@)], None => seq![s_join(d, c.name@ + ".rs"@), s_join(d, c.name@ + "/mod.rs"@)] } }
pub open spec fn first_file(root: Seq<char>, c: Seq<Seq<char>>) -> Option<Seq<char>>
    decreases c.len()
{ if c.len() == 0 { None } else if s_is_file(s_join(root, c[0])) { Some(c[0]) } else { first_file(root, c.skip(1)) } }
#[verifier::opaque]
pub open spec fn s_find(root: Seq<char>, f: SourceFile, m: ExternalModRef) -> Option<Seq<char>> { first_file(root, options(f, m)) }
pub broadcast proof fn l_inside(d: Seq<char>, m: Seq<ModNamespace>, s: Seq<&Utf8Path>)
    requires m.len() == s.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] s[i])@ == fs_name(m[i]),
    ensures #[trigger] joined(d, s) == #[trigger] inside(d, m),
    decreases m.len()
{ if m.len() > 0 { assert forall|i: int| 0 <= i < m.drop_last().len() implies (#[trigger] s.drop_last()[i])@ == fs_name(m.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } l_inside(d, m.drop_last(), s.drop_last()); } }
//%methods extend=v_extend to_owned=v_to_owned
//%paths Utf8PathBuf::as_path => Utf8PathBuf::as_path
impl SourceFile { #[verifier::external_body] pub fn format_source_location(&self, at: LineColumn) -> (r: String) { unimplemented!() } }
//%fn visit.rs ModNamespace::get_filesystem_name
//%spec
    ensures r@ == fs_name(*self),
//%end
/// a String and a &str put together
#[verifier::external_body] pub fn v_cat(a: &String, b: &&str) -> (r: String) ensures r@ == a@ + (*b)@ { unimplemented!() }
/// [T]::split_last
pub trait VSplitLast<T> { spec fn sl(&self) -> Seq<T>; fn v_split_last(&self) -> (r: Option<(&T, &[T])>)
    ensures match r { Some((x, y)) => self.sl().len() > 0 && *x == self.sl().last() && y@ == self.sl().drop_last(), None => self.sl().len() == 0 }; }
impl<T> VSplitLast<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_split_last(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() } }
//%methods split_last=v_split_last
//%fn visit.rs find_mod_source
//%opaque 1 `mod_child.name.clone() + tail` => `v_cat(&mod_child.name, tail)`
//%closure 0
    |$0: &&str| -> (p: Utf8PathBuf) ensures p@ == s_join(search_dir@, mod_child.name@ + (*$0)@)
//%entry
    broadcast use l_inside;
    proof { reveal(s_find); reveal_strlit(""); }
//%loop 0 it it
//%loop 0 before
    let ghost cand = mod_child_candidates@;
    let ghost opts = options(*parent, *mod_namespace);
    proof { assert(search_dir@ == inside(start_dir(*parent, *mod_namespace), mod_namespace.parts@.drop_last())); assert(opts.skip(0) =~= opts); }
//%loop 0
    invariant 0 <= it.index@ <= cand.len(), it.snapshot@.remaining() == cand, cand.len() == opts.len(), opts == options(*parent, *mod_namespace),
        forall|i: int| 0 <= i < cand.len() ==> (#[trigger] cand[i])@ == opts[i],
        first_file(tree_root@, opts) == first_file(tree_root@, opts.skip(it.index@)),
        s_find(tree_root@, *parent, *mod_namespace) == first_file(tree_root@, opts),
//%loop 0 start
    proof { assert(opts.skip(it.index@)[0] == opts[it.index@]); assert(opts.skip(it.index@).skip(1) =~= opts.skip(it.index@ + 1)); }
//%spec
    requires mod_namespace.parts@.len() > 0, s_parent(parent.tree_relative_path@).is_some(),
    ensures match r { Some(p) => s_find(tree_root@, *parent, *mod_namespace) == Some(p@), None => s_find(tree_root@, *parent, *mod_namespace).is_none() },
//%end
//%endif
#[verifier::external_body]
pub fn v_queue(p: &Vec<Utf8PathBuf>) -> (r: VecDeque<(Utf8PathBuf, bool)>) ensures r@.len() == p@.len(), forall|i: int| 0 <= i < p@.len() ==> (#[trigger] r@[i]).0@ == p@[i]@ && r@[i].1 { unimplemented!() }
/// the mutants whose name is allowed, in order
pub open spec fn kept(m: Seq<Mutant>, o: Options) -> Seq<Mutant>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else if name_ok(o, m.last()) { kept(m.drop_last(), o).push(m.last()) } else { kept(m.drop_last(), o) } }
pub broadcast proof fn lemma_kept(m: Seq<Mutant>, k: Seq<bool>, o: Options)
    requires k.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> k[i] == name_ok(o, #[trigger] m[i]),
    ensures #[trigger] select(m, k) == #[trigger] kept(m, o),
    decreases m.len()
{ if m.len() > 0 { assert forall|i: int| 0 <= i < m.drop_last().len() implies k.drop_last()[i] == name_ok(o, #[trigger] m.drop_last()[i]) by { assert(m.drop_last()[i] == m[i]); }
    lemma_kept(m.drop_last(), k.drop_last(), o); } }
/// C12: from every file tried whose path is allowed, the mutants whose name is allowed
pub open spec fn chosen(t: Seq<(Seq<char>, bool, Option<SourceFile>)>, e: Seq<Expr>, o: Options) -> Seq<Mutant>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { chosen(t.drop_last(), e, o) + (match t.last().2 { Some(f) => if path_ok(o, f.tree_relative_path@) { kept(s_file_mutants(f, e, o), o) } else { Seq::empty() }, None => Seq::empty() }) } }
pub open spec fn chosen_files(t: Seq<(Seq<char>, bool, Option<SourceFile>)>, o: Options) -> Seq<SourceFile>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { match t.last().2 { Some(f) => if path_ok(o, f.tree_relative_path@) { chosen_files(t.drop_last(), o).push(f) } else { chosen_files(t.drop_last(), o) }, None => chosen_files(t.drop_last(), o) } } }
/// the files that the mod statements of a file lead to
pub open spec fn by_path(m: ExternalModRef) -> bool { m.parts@.len() > 0 && m.parts@.last().path_attribute.is_some() }
pub type Key = (Seq<char>, bool);
pub open spec fn found(root: Seq<char>, f: SourceFile, m: Seq<ExternalModRef>) -> Seq<Key>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { match s_find(root, f, m.last()) { Some(p) => found(root, f, m.drop_last()).push((p, kf(by_path(m.last())))), None => found(root, f, m.drop_last()) } } }
pub open spec fn children(root: Seq<char>, t: Seq<(Seq<char>, bool, Option<SourceFile>)>) -> Seq<Key>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { children(root, t.drop_last()) + (match t.last().2 { Some(f) => found(root, f, file_mods(f)), None => Seq::empty() }) } }
pub open spec fn paths(t: Seq<(Seq<char>, bool, Option<SourceFile>)>) -> Seq<Key> { Seq::new(t.len(), |i: int| (t[i].0, t[i].1)) }
pub open spec fn texts(t: Seq<Utf8PathBuf>) -> Seq<Key> { Seq::new(t.len(), |i: int| (t[i]@, kf(true))) }
pub open spec fn qpaths(t: Seq<(Utf8PathBuf, bool)>) -> Seq<Key> { Seq::new(t.len(), |i: int| (t[i].0@, kf(t[i].1))) }
/// each file tried is the one at that path
//%if C24
pub open spec fn loads(t: Tries, root: Seq<char>, k: Package) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).2 == s_load(root, t[i].0, k, t[i].1) }
//%endif
//%if C12
pub open spec fn one_load(f: Option<SourceFile>, root: Seq<char>, p: Seq<char>, k: Package) -> bool { f == s_load(root, p, k, true) || f == s_load(root, p, k, false) }
pub open spec fn loads(t: Tries, root: Seq<char>, k: Package) -> bool { forall|i: int| 0 <= i < t.len() ==> one_load((#[trigger] t[i]).2, root, t[i].0, k) }
//%endif
/// the walk reaches every top file and every file that a mod statement in a reached file leads to, whatever the filters
pub open spec fn complete(t: Seq<(Seq<char>, bool, Option<SourceFile>)>, root: Seq<char>, k: Package) -> bool { paths(t) == texts(k.top_sources@) + children(root, t) }
pub type Tries = Seq<(Seq<char>, bool, Option<SourceFile>)>;
pub broadcast proof fn l_children(root: Seq<char>, t: Tries, x: (Seq<char>, bool, Option<SourceFile>))
    ensures #[trigger] children(root, t.push(x)) == (match x.2 { Some(f) => children(root, t) + found(root, f, file_mods(f)), None => children(root, t) })
{ assert(t.push(x).drop_last() =~= t); assert(children(root, t) + Seq::empty() =~= children(root, t)); }
pub broadcast proof fn l_chosen(t: Tries, x: (Seq<char>, bool, Option<SourceFile>), e: Seq<Expr>, o: Options)
    ensures #[trigger] chosen(t.push(x), e, o) == (match x.2 { Some(f) => if path_ok(o, f.tree_relative_path@) { chosen(t, e, o) + kept(s_file_mutants(f, e, o), o) } else { chosen(t, e, o) }, None => chosen(t, e, o) })
{ assert(t.push(x).drop_last() =~= t); assert(chosen(t, e, o) + Seq::empty() =~= chosen(t, e, o)); }
pub broadcast proof fn l_files(t: Tries, x: (Seq<char>, bool, Option<SourceFile>), o: Options)
    ensures #[trigger] chosen_files(t.push(x), o) == (match x.2 { Some(f) => if path_ok(o, f.tree_relative_path@) { chosen_files(t, o).push(f) } else { chosen_files(t, o) }, None => chosen_files(t, o) })
{ assert(t.push(x).drop_last() =~= t); }
pub broadcast proof fn l_found(root: Seq<char>, f: SourceFile, m: Seq<ExternalModRef>, i: int)
    requires 0 <= i < m.len(),
    ensures #[trigger] found(root, f, m.subrange(0, i + 1)) == (match s_find(root, f, m[i]) { Some(p) => found(root, f, m.subrange(0, i)).push((p, kf(by_path(m[i])))), None => found(root, f, m.subrange(0, i)) })
{ assert(m.subrange(0, i + 1).drop_last() =~= m.subrange(0, i)); }
pub broadcast proof fn l_all<A>(m: Seq<A>) ensures #[trigger] m.subrange(0, m.len() as int) == m { assert(m.subrange(0, m.len() as int) =~= m); }
pub broadcast proof fn l_none<A>(m: Seq<A>) ensures #[trigger] m.subrange(0, 0) == Seq::<A>::empty() { assert(m.subrange(0, 0) =~= Seq::empty()); }
pub broadcast proof fn l_qpush(q: Seq<(Utf8PathBuf, bool)>, x: (Utf8PathBuf, bool)) ensures #[trigger] qpaths(q.push(x)) == qpaths(q).push((x.0@, kf(x.1))) { assert(qpaths(q.push(x)) =~= qpaths(q).push((x.0@, kf(x.1)))); }
pub broadcast group group_walk { lemma_kept, l_children, l_chosen, l_files, l_found, l_all, l_none, l_qpush }
//%ghost load walk_package
//%fn visit.rs walk_package
//%attr #[verifier::exec_allows_no_decreases_clause]
//%wparam
//%opaque 1 `VecDeque::from_iter(package.top_sources.iter().map(|p| (p.to_owned(), true)))` => `v_queue(&package.top_sources)`
//%closure 1
    |$0: &ModNamespace| -> (b: bool) ensures b == $0.path_attribute.is_some()
//%closure 0
    |$0: &Mutant| -> (b: bool) ensures b == name_ok(*options, *$0)
//%spec
    requires old(w).tried.len() == 0,
    ensures r matches Ok(x) ==> {
        &&& final(w).done == old(w).done
        &&& complete(final(w).tried, workspace_dir@, *package) && loads(final(w).tried, workspace_dir@, *package)
        &&& x.0@ == chosen(final(w).tried, error_exprs@, *options)
        &&& x.1@ == chosen_files(final(w).tried, *options)
    },
//%entry
    broadcast use group_walk;
//%loop 0 before
    let ghost done0 = w.done;
    proof { assert(paths(w.tried) + qpaths(filename_queue@) =~= texts(package.top_sources@) + children(workspace_dir@, w.tried)); }
//%loop 0
    invariant
        w.done == done0, done0 == old(w).done,
        paths(w.tried) + qpaths(filename_queue@) == texts(package.top_sources@) + children(workspace_dir@, w.tried),
        loads(w.tried, workspace_dir@, *package),
        mutants@ == chosen(w.tried, error_exprs@, *options),
        files@ == chosen_files(w.tried, *options),
    ensures
        w.done == done0, done0 == old(w).done,
        complete(w.tried, workspace_dir@, *package), loads(w.tried, workspace_dir@, *package),
        mutants@ == chosen(w.tried, error_exprs@, *options),
        files@ == chosen_files(w.tried, *options),
//%loop 0 after
//%loop 0 start
    broadcast use group_walk;
    let ghost t0 = w.tried;
    let ghost q0 = qpaths(filename_queue@); let ghost c0 = texts(package.top_sources@) + children(workspace_dir@, w.tried); let ghost p0 = paths(w.tried);
    proof { let x0 = (path@, kf(package_top)); assert(p0 + (seq![x0] + q0) =~= c0); assert(p0.push(x0) + q0 =~= c0); assert(p0.len() + 1 + q0.len() == c0.len());
        assert forall|x: (Seq<char>, bool, Option<SourceFile>)| #[trigger] paths(t0.push(x)) == p0.push((x.0, x.1)) by { assert(paths(t0.push(x)) =~= p0.push((x.0, x.1))); } }
//%loop 1 start
    broadcast use group_walk;
//%loop 1 after
    proof { assert(texts(package.top_sources@) + (children(workspace_dir@, t0) + found(workspace_dir@, source_file, external_mods@)) =~= c0 + found(workspace_dir@, source_file, external_mods@));
        assert(p0.push((path@, kf(package_top))) + (q0 + found(workspace_dir@, source_file, external_mods@)) =~= c0 + found(workspace_dir@, source_file, external_mods@)); }
//%loop 1 it itm
//%loop 1 before
    proof { assert(q0 + Seq::<Key>::empty() =~= q0); }
//%loop 1
    invariant all_named(external_mods@), has_dir(source_file), 0 <= itm.index@ <= external_mods@.len(), itm.snapshot@.remaining().len() == external_mods@.len(),
        forall|i: int| 0 <= i < external_mods@.len() ==> *(#[trigger] itm.snapshot@.remaining()[i]) == external_mods@[i],
        qpaths(filename_queue@) == q0 + found(workspace_dir@, source_file, external_mods@.subrange(0, itm.index@)),
        w.done == done0, done0 == old(w).done,
//%end
/// the packages' mutants, one package after the other
pub open spec fn all_chosen(d: Seq<Tries>, e: Seq<Expr>, o: Options) -> Seq<Mutant>
    decreases d.len()
{ if d.len() == 0 { Seq::empty() } else { all_chosen(d.drop_last(), e, o) + chosen(d.last(), e, o) } }
pub open spec fn all_files(d: Seq<Tries>, o: Options) -> Seq<SourceFile>
    decreases d.len()
{ if d.len() == 0 { Seq::empty() } else { all_files(d.drop_last(), o) + chosen_files(d.last(), o) } }
//%fn visit.rs walk_tree
//%wparam
//%spec
    requires old(w).tried.len() == 0, old(w).done.len() == 0,
    ensures r matches Ok(x) ==> {
        &&& final(w).done.len() == packages@.len()
        &&& forall|i: int| 0 <= i < packages@.len() ==> complete(#[trigger] final(w).done[i], workspace_dir@, *packages@[i]) && loads(final(w).done[i], workspace_dir@, *packages@[i])
        &&& x.mutants@ == all_chosen(final(w).done, s_errors(*options), *options)
        &&& x.files@ == all_files(final(w).done, *options)
    },
//%loop 0 it it
//%loop 0
    invariant 0 <= it.index@ <= packages@.len(), it.snapshot@.remaining().len() == packages@.len(), w.tried.len() == 0, w.done.len() == it.index@,
        forall|i: int| 0 <= i < packages@.len() ==> *(#[trigger] it.snapshot@.remaining()[i]) == packages@[i],
        forall|i: int| 0 <= i < it.index@ ==> complete(#[trigger] w.done[i], workspace_dir@, *packages@[i]) && loads(w.done[i], workspace_dir@, *packages@[i]),
        error_exprs@ == s_errors(*options),
        mutants@ == all_chosen(w.done, s_errors(*options), *options),
        files@ == all_files(w.done, *options),
//%loop 0 end
    proof { let d0 = w.done; w.done = w.done.push(w.tried); w.tried = Seq::empty(); assert(w.done.drop_last() =~= d0); }
//%end
} // verus!
fn main() {}
