use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::sync::Arc;
verus! {
//%include shim_core.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
#[verifier::external_body]
pub struct Package { _p: u8 }
#[verifier::external_body]
pub struct Function { _p: u8 }
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Mutant
// ---- the patch crate: the parsed form of a diff (hint texts and timestamps left out) ----
pub enum Line<'a> { Add(&'a str), Remove(&'a str), Context(&'a str) }
pub struct Range { pub start: u64, pub count: u64 }
pub struct Hunk<'a> { pub old_range: Range, pub new_range: Range, pub lines: Vec<Line<'a>> }
pub struct File<'a> { pub path: &'a str }
pub struct Patch<'a> { pub old: File<'a>, pub new: File<'a>, pub hunks: Vec<Hunk<'a>> }
pub uninterp spec fn s_parse<'a>(t: Seq<char>) -> Option<Seq<Patch<'a>>>;
impl<'a> Patch<'a> {
    #[verifier::external_body]
    pub fn from_multiple(s: &'a str) -> (r: Result<Vec<Patch<'a>>>) ensures match r { Ok(v) => s_parse::<'a>(s@) == Some(v@), Err(_) => s_parse::<'a>(s@).is_none() } { unimplemented!() }
}
// ---- strings ----
pub uninterp spec fn s_lines(t: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn s_join(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>;
pub open spec fn strs(l: Seq<&str>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| l[i]@) }
pub open spec fn is_prefix(p: Seq<char>, t: Seq<char>) -> bool { p.len() <= t.len() && t.subrange(0, p.len() as int) == p }
pub uninterp spec fn s_blank(t: Seq<char>) -> bool;
pub trait VStrX { spec fn tv(&self) -> Seq<char>;
    fn v_lines<'a>(&'a self) -> (r: VIter<&'a str>) ensures strs(r@) == s_lines(self.tv());
    fn v_starts_with(&self, p: &str) -> (r: bool) ensures r == is_prefix(p@, self.tv()); }
impl VStrX for str { open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_lines<'a>(&'a self) -> (r: VIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn once<T>(x: T) -> (r: VIter<T>) ensures r@ == seq![x] { unimplemented!() }
impl<'a> VIter<&'a str> {
    #[verifier::external_body]
    pub fn v_join(self, sep: &str) -> (r: String) ensures r@ == s_join(strs(self@), sep@) { unimplemented!() }
}
//%methods lines=v_lines starts_with=v_starts_with join=v_join
#[verifier::external_body]
pub fn v_is_blank(s: &String) -> (r: bool) ensures r == s_blank(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_ne(a: &str, b: &str) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_path_is(a: &Utf8Path, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_us(x: u64) -> (r: usize) ensures r == x { unimplemented!() }
impl SourceFile {
    pub uninterp spec fn s_code(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn code(&self) -> (r: &str) ensures r@ == self.s_code() { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Utf8Path) ensures r@ == self.tree_relative_path@ { unimplemented!() }
}
// ---- a hash map keyed by paths (equal texts are equal paths) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<'k, V> HashMap<&'k Utf8Path, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'k Utf8Path, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v), r is Some <==> old(self)@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Utf8Path) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    /// entry(k).or_insert_with(|| v)
    #[verifier::external_body]
    pub fn v_entry_or(&mut self, k: &'k Utf8Path, v: V) ensures final(self)@ == (if old(self)@.contains_key(k@) { old(self)@ } else { old(self)@.insert(k@, v) }) { unimplemented!() }
}
// ---- lines of a diff ----
pub open spec fn gone(l: Line) -> bool { l is Remove }
/// how many of the first i lines are in the new file
pub open spec fn shown(l: Seq<Line>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { shown(l, i - 1) + (if gone(l[i - 1]) { 0int } else { 1 }) } }
pub open spec fn first(h: Hunk) -> int { h.new_range.start + (if h.new_range.count == 0 { 1int } else { 0 }) }
/// the number, in the new file, of line i of a hunk, or, if it is removed, of the next line that is there
pub open spec fn at(h: Hunk, i: int) -> int { first(h) + shown(h.lines@, i) }
/// C10: line i of the hunk, the hunk being known up to line m, touches line n of the new file
pub open spec fn touches(h: Hunk, i: int, m: int, n: int) -> bool {
    match h.lines@[i] { Line::Add(_) => n == at(h, i), Line::Context(_) => false, Line::Remove(_) => n >= 1 && (n == at(h, i) - 1 || n == at(h, i) && (n < at(h, m) || h.new_range.count == 0 && m == h.lines@.len() + 1)) } }
pub open spec fn hit(h: Hunk, m: int, n: int) -> bool { exists|i: int| 0 <= i < m && i < h.lines@.len() && #[trigger] touches(h, i, m, n) }
/// the whole hunk: the line after a removed one counts if the hunk shows it, or shows no line at all
pub open spec fn hunk_hit(h: Hunk, n: int) -> bool { exists|i: int| 0 <= i < h.lines@.len() && #[trigger] line_hit(h, i, n) }
pub open spec fn line_hit(h: Hunk, i: int, n: int) -> bool {
    match h.lines@[i] { Line::Add(_) => n == at(h, i), Line::Context(_) => false,
        Line::Remove(_) => n >= 1 && (n == at(h, i) - 1 || n == at(h, i) && (n < at(h, h.lines@.len() as int) || h.new_range.count == 0)) } }
pub open spec fn hits(p: Patch, k: int, n: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] hunk_hit(p.hunks@[j], n) }
pub open spec fn affected(p: Patch, n: int) -> bool { hits(p, p.hunks@.len() as int, n) }
/// what every diff program ensures about the hunks of one file (assumed of the input)
pub open spec fn wf_hunk(h: Hunk) -> bool {
    &&& shown(h.lines@, h.lines@.len() as int) == h.new_range.count
    &&& h.new_range.count > 0 ==> h.new_range.start >= 1
    &&& h.new_range.start + h.new_range.count + 1 < u64::MAX
}
/// one past the last line that a hunk can touch
pub open spec fn top(h: Hunk) -> int { first(h) + h.new_range.count + (if h.new_range.count == 0 { 1int } else { 0 }) }
pub open spec fn wf(p: Patch) -> bool {
    &&& forall|j: int| 0 <= j < p.hunks@.len() ==> wf_hunk(#[trigger] p.hunks@[j])
    &&& forall|j: int| 0 <= j < p.hunks@.len() - 1 ==> top(#[trigger] p.hunks@[j]) <= first(p.hunks@[j + 1])
}
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn has(s: Seq<usize>, n: int) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == n }
pub proof fn l_mono(l: Seq<Line>, i: int, j: int)
    requires i <= j,
    ensures shown(l, i) <= shown(l, j), j >= 0 && i >= 0 ==> shown(l, j) <= shown(l, i) + (j - i),
    decreases j
{ if i < j && j > 0 { l_mono(l, i, j - 1); } }
pub broadcast proof fn l_has_push(s: Seq<usize>, x: usize, n: int)
    ensures #[trigger] has(s.push(x), n) <==> has(s, n) || n == x
{ if has(s, n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(s.push(x)[i] == n); } assert(s.push(x)[s.len() as int] == x);
  if has(s.push(x), n) && n != x { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == n; assert(s[i] == n); } }
/// taking one more line of a hunk into account
pub proof fn l_hit(h: Hunk, m: int, n: int)
    requires 0 <= m < h.lines@.len(),
    ensures hit(h, m + 1, n) <==> (hit(h, m, n) || touches(h, m, m + 1, n) || (!gone(h.lines@[m]) && m > 0 && gone(h.lines@[m - 1]) && n == at(h, m) && n >= 1))
{
    let l = h.lines@;
    assert forall|i: int| 0 <= i < m implies shown(l, i) <= shown(l, m) && #[trigger] touches(h, i, m, n) ==> touches(h, i, m + 1, n) by { l_mono(l, i, m); l_mono(l, m, m + 1); }
    if hit(h, m, n) { let i = choose|i: int| 0 <= i < m && i < l.len() && #[trigger] touches(h, i, m, n); assert(touches(h, i, m + 1, n)); }
    if touches(h, m, m + 1, n) { assert(hit(h, m + 1, n)); }
    if !gone(l[m]) && m > 0 && gone(l[m - 1]) && n == at(h, m) && n >= 1 { assert(shown(l, m) == shown(l, m - 1)); assert(shown(l, m + 1) == shown(l, m) + 1); assert(touches(h, m - 1, m + 1, n)); }
    if hit(h, m + 1, n) {
        let i = choose|i: int| 0 <= i < m + 1 && i < l.len() && #[trigger] touches(h, i, m + 1, n);
        l_mono(l, i, m); l_mono(l, m, m + 1);
        if i < m && !touches(h, i, m, n) {
            // a removed line with nothing shown between it and line m
            assert(n == at(h, i) && n == at(h, m) && !gone(l[m]));
            if !gone(l[m - 1]) { l_mono(l, i, m - 1); assert(shown(l, m) == shown(l, m - 1) + 1); assert(false); }
        }
    }
}
pub proof fn l_full(h: Hunk, n: int)
    requires wf_hunk(h),
    ensures hunk_hit(h, n) <==> hit(h, h.lines@.len() as int, n) || (h.new_range.count == 0 && h.lines@.len() > 0 && gone(h.lines@.last()) && n == at(h, h.lines@.len() as int) && n >= 1)
{
    let l = h.lines@; let z = l.len() as int;
    if hit(h, z, n) { let i = choose|i: int| 0 <= i < z && i < l.len() && #[trigger] touches(h, i, z, n); assert(line_hit(h, i, n)); }
    if hunk_hit(h, n) {
        let i = choose|i: int| 0 <= i < l.len() && #[trigger] line_hit(h, i, n);
        if !touches(h, i, z, n) {
            l_mono(l, i, z); l_mono(l, 0, i); l_mono(l, z - 1, z); l_mono(l, 0, z - 1);
            assert(h.new_range.count == 0); assert(shown(l, z) == 0);
            assert(gone(l.last()));
        } else { assert(hit(h, z, n)); }
    }
    if h.new_range.count == 0 && l.len() > 0 && gone(l.last()) && n == at(h, z) && n >= 1 {
        assert(shown(l, z) == shown(l, z - 1)); assert(line_hit(h, z - 1, n)); }
}
pub broadcast proof fn l_hits(p: Patch, k: int, n: int)
    requires 0 <= k < p.hunks@.len(),
    ensures #[trigger] hits(p, k + 1, n) <==> hits(p, k, n) || hunk_hit(p.hunks@[k], n)
{ if hits(p, k, n) { let j = choose|j: int| 0 <= j < k && hunk_hit(p.hunks@[j], n); assert(hunk_hit(p.hunks@[j], n) && j < k + 1); }
  if hunk_hit(p.hunks@[k], n) { assert(hunk_hit(p.hunks@[k], n) && k < k + 1); } }
pub open spec fn upto(s: Seq<usize>, s0: Seq<usize>, h: Hunk, m: int) -> bool { forall|n: int| #[trigger] has(s, n) <==> has(s0, n) || hit(h, m, n) }
pub open spec fn hunks_upto(s: Seq<usize>, p: Patch, k: int) -> bool { forall|n: int| #[trigger] has(s, n) <==> hits(p, k, n) }
//%if C10
//%fn in_diff.rs affected_lines
//%asserts drop
//%opaque 1 `hunk.new_range.start.try_into().unwrap()` => `v_us(hunk.new_range.start)`
//%closure 0
    |$0: &usize| -> (b: bool) ensures b == (*$0 != lineno)
//%closure 1
    |$0: &usize| -> (b: bool) requires lineno >= 1 ensures b == (*$0 != lineno - 1)
//%spec
    requires wf(*patch),
    ensures sorted(r@), forall|n: int| #[trigger] has(r@, n) <==> affected(*patch, n),
//%loop 0 it ith
//%loop 0
    invariant wf(*patch), 0 <= ith.index@ <= patch.hunks@.len(), ith.snapshot@.remaining().len() == patch.hunks@.len(),
        forall|i: int| 0 <= i < patch.hunks@.len() ==> *(#[trigger] ith.snapshot@.remaining()[i]) == patch.hunks@[i],
        sorted(affected_lines@),
        hunks_upto(affected_lines@, *patch, ith.index@),
        ith.index@ == 0 ==> affected_lines@.len() == 0,
        ith.index@ > 0 ==> forall|i: int| 0 <= i < affected_lines@.len() ==> #[trigger] affected_lines@[i] < top(patch.hunks@[ith.index@ - 1]),
//%loop 0 start
    broadcast use {l_has_push, l_hits};
    let ghost k = ith.index@; let ghost s0 = affected_lines@;
    let ghost h = *hunk;
    proof { assert(h == patch.hunks@[k]); assert(wf_hunk(h)); if k > 0 { assert(top(patch.hunks@[k - 1]) <= first(patch.hunks@[k - 1 + 1])); } }
//%loop 1 it itl
//%loop 1 before
    proof { assert(upto(affected_lines@, s0, h, 0)); }
//%loop 1
    invariant 0 <= itl.index@ <= h.lines@.len(), itl.snapshot@.remaining().len() == h.lines@.len(), *hunk == h, wf_hunk(h),
        forall|i: int| 0 <= i < h.lines@.len() ==> *(#[trigger] itl.snapshot@.remaining()[i]) == h.lines@[i],
        lineno == at(h, itl.index@), lineno >= 1,
        prev_removed == (itl.index@ > 0 && gone(h.lines@[itl.index@ - 1])),
        sorted(affected_lines@), forall|i: int| 0 <= i < affected_lines@.len() ==> #[trigger] affected_lines@[i] < lineno,
        upto(affected_lines@, s0, h, itl.index@),
//%loop 1 start
    broadcast use l_has_push;
    let ghost m = itl.index@; let ghost a0 = affected_lines@;
    proof { assert(*line == h.lines@[m]); l_mono(h.lines@, m + 1, h.lines@.len() as int); l_mono(h.lines@, 0, m);
        assert forall|n: int| hit(h, m + 1, n) <==> (#[trigger] hit(h, m, n) || touches(h, m, m + 1, n) || (!gone(h.lines@[m]) && m > 0 && gone(h.lines@[m - 1]) && n == at(h, m) && n >= 1)) by { l_hit(h, m, n); } 
        assert forall|x: usize| #[trigger] sorted(a0.push(x)) <== (a0.len() > 0 ==> a0.last() < x) by {} }
//%loop 1 end
    proof { assert forall|n: int| #[trigger] has(affected_lines@, n) <==> has(s0, n) || hit(h, m + 1, n) by { l_hit(h, m, n); assert(has(a0, n) <==> has(s0, n) || hit(h, m, n)); } assert(upto(affected_lines@, s0, h, m + 1)); }
//%loop 0 end
    proof { assert forall|n: int| #[trigger] has(affected_lines@, n) <==> hits(*patch, k + 1, n) by { l_full(h, n); l_hits(*patch, k, n); assert(has(s0, n) <==> hits(*patch, k, n)); } assert(hunks_upto(affected_lines@, *patch, k + 1)); }
//%end
//%endif
// ---- file names in a diff ----
pub uninterp spec fn s_strip(p: Seq<char>, prefix: Seq<char>) -> Option<Seq<char>>;
impl Utf8Path {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: &Utf8Path) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix(&self, p: &str) -> (r: Result<&Utf8Path>) ensures match r { Ok(x) => s_strip(self@, p@) == Some(x@), Err(_) => s_strip(self@, p@).is_none() } { unimplemented!() }
}
/// the name of the file in the tree: without a leading b/, if there is one
pub open spec fn new_name(p: Seq<char>) -> Seq<char> { match s_strip(p, "b"@) { Some(x) => x, None => p } }
pub trait VResX<T>: Sized { spec fn rr(self) -> Option<T>; fn v_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.rr() { Some(x) => x, None => d }); }
impl<T> VResX<T> for Result<T> { open spec fn rr(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn v_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } } }
//%fn in_diff.rs strip_patch_path
//%methods unwrap_or=v_unwrap_or
//%spec
    ensures r@ == new_name(path@),
//%end
// ---- C11: the new text that a diff shows ----
pub open spec fn text_of(l: Line) -> Seq<char> { match l { Line::Add(t) => t@, Line::Remove(t) => t@, Line::Context(t) => t@ } }
pub open spec fn shows(h: Hunk, i: int, n: int, t: Seq<char>) -> bool { !gone(h.lines@[i]) && n == h.new_range.start + shown(h.lines@, i) && t == text_of(h.lines@[i]) }
pub open spec fn hshows(h: Hunk, m: int, n: int, t: Seq<char>) -> bool { exists|i: int| 0 <= i < m && #[trigger] shows(h, i, n, t) }
pub open spec fn pshows(p: Patch, k: int, n: int, t: Seq<char>) -> bool { exists|j: int| 0 <= j < k && #[trigger] hshows(p.hunks@[j], p.hunks@[j].lines@.len() as int, n, t) }
pub open spec fn inr(r: Seq<(usize, &str)>, n: int, t: Seq<char>) -> bool { exists|x: int| 0 <= x < r.len() && (#[trigger] r[x]).0 == n && r[x].1@ == t }
pub proof fn l_inr_push(r: Seq<(usize, &str)>, e: (usize, &str), n: int, t: Seq<char>)
    ensures inr(r.push(e), n, t) <==> inr(r, n, t) || (n == e.0 && t == e.1@)
{ if inr(r, n, t) { let x = choose|x: int| 0 <= x < r.len() && (#[trigger] r[x]).0 == n && r[x].1@ == t; assert(r.push(e)[x] == r[x]); }
  assert(r.push(e)[r.len() as int] == e);
  if inr(r.push(e), n, t) { let x = choose|x: int| 0 <= x < r.push(e).len() && (#[trigger] r.push(e)[x]).0 == n && r.push(e)[x].1@ == t; if x < r.len() { assert(r[x] == r.push(e)[x]); } } }
pub proof fn l_hshows(h: Hunk, m: int, n: int, t: Seq<char>)
    requires 0 <= m,
    ensures hshows(h, m + 1, n, t) <==> hshows(h, m, n, t) || shows(h, m, n, t)
{ if hshows(h, m, n, t) { let i = choose|i: int| 0 <= i < m && #[trigger] shows(h, i, n, t); assert(shows(h, i, n, t) && i < m + 1); } if shows(h, m, n, t) { assert(shows(h, m, n, t) && m < m + 1); } }
pub proof fn l_pshows(p: Patch, k: int, n: int, t: Seq<char>)
    requires 0 <= k,
    ensures pshows(p, k + 1, n, t) <==> pshows(p, k, n, t) || hshows(p.hunks@[k], p.hunks@[k].lines@.len() as int, n, t)
{ if pshows(p, k, n, t) { let j = choose|j: int| 0 <= j < k && #[trigger] hshows(p.hunks@[j], p.hunks@[j].lines@.len() as int, n, t); assert(hshows(p.hunks@[j], p.hunks@[j].lines@.len() as int, n, t) && j < k + 1); }
  if hshows(p.hunks@[k], p.hunks@[k].lines@.len() as int, n, t) { assert(k < k + 1); } }
pub open spec fn hnew(r: Seq<(usize, &str)>, r0: Seq<(usize, &str)>, h: Hunk, m: int) -> bool { forall|n: int, t: Seq<char>| #[trigger] inr(r, n, t) <==> inr(r0, n, t) || hshows(h, m, n, t) }
pub open spec fn pnew(r: Seq<(usize, &str)>, p: Patch, k: int) -> bool { forall|n: int, t: Seq<char>| #[trigger] inr(r, n, t) <==> pshows(p, k, n, t) }
//%if C11
//%fn in_diff.rs partial_new_file
//%asserts drop
//%opaque 1 `hunk.new_range.start.try_into().unwrap()` => `v_us(hunk.new_range.start)`
//%spec
    requires wf(*patch),
    ensures pnew(r@, *patch, patch.hunks@.len() as int), forall|x: int| 0 <= x < r@.len() ==> (#[trigger] r@[x]).0 >= 1,
//%loop 0 it ith
//%loop 0
    invariant wf(*patch), 0 <= ith.index@ <= patch.hunks@.len(), ith.snapshot@.remaining().len() == patch.hunks@.len(),
        forall|i: int| 0 <= i < patch.hunks@.len() ==> *(#[trigger] ith.snapshot@.remaining()[i]) == patch.hunks@[i],
        pnew(r@, *patch, ith.index@), forall|x: int| 0 <= x < r@.len() ==> (#[trigger] r@[x]).0 >= 1,
//%loop 0 start
    let ghost k = ith.index@; let ghost r0 = r@; let ghost h = *hunk;
    proof { assert(h == patch.hunks@[k]); assert(wf_hunk(h)); assert(hnew(r@, r0, h, 0)); }
//%loop 1 it itl
//%loop 1
    invariant 0 <= itl.index@ <= h.lines@.len(), itl.snapshot@.remaining().len() == h.lines@.len(), *hunk == h, wf_hunk(h),
        forall|i: int| 0 <= i < h.lines@.len() ==> *(#[trigger] itl.snapshot@.remaining()[i]) == h.lines@[i],
        lineno == h.new_range.start + shown(h.lines@, itl.index@),
        hnew(r@, r0, h, itl.index@), forall|x: int| 0 <= x < r@.len() ==> (#[trigger] r@[x]).0 >= 1,
//%loop 1 start
    let ghost m = itl.index@; let ghost q0 = r@; let ghost ln = lineno;
    proof { assert(*line == h.lines@[m]); l_mono(h.lines@, m + 1, h.lines@.len() as int); l_mono(h.lines@, 0, m); }
//%loop 1 end
    proof { assert forall|n: int, t: Seq<char>| #[trigger] inr(r@, n, t) <==> inr(r0, n, t) || hshows(h, m + 1, n, t) by {
        l_hshows(h, m, n, t); assert(inr(q0, n, t) <==> inr(r0, n, t) || hshows(h, m, n, t));
        if !gone(h.lines@[m]) { assert(r@ =~= q0.push(r@.last())); l_inr_push(q0, r@.last(), n, t); } }
        assert(hnew(r@, r0, h, m + 1)); }
//%loop 0 end
    proof { assert forall|n: int, t: Seq<char>| #[trigger] inr(r@, n, t) <==> pshows(*patch, k + 1, n, t) by { l_pshows(*patch, k, n, t); assert(inr(r0, n, t) <==> pshows(*patch, k, n, t)); } assert(pnew(r@, *patch, k + 1)); }
//%end
//%endif
/// the text of line n of the file; past its end there is no text
pub open spec fn line_at(code: Seq<char>, n: int) -> Seq<char> { if 1 <= n <= s_lines(code).len() { s_lines(code)[n - 1] } else { Seq::empty() } }
pub open spec fn agrees(p: Patch, code: Seq<char>) -> bool { forall|n: int, t: Seq<char>| #[trigger] pshows(p, p.hunks@.len() as int, n, t) ==> t == line_at(code, n) }
pub open spec fn mpath(m: Mutant) -> Seq<char> { m.source_file.tree_relative_path@ }
/// mutants of one file hold the same text of it (established by walk_package: each mutant has a clone of its source file)
pub open spec fn same_source(ms: Seq<Mutant>) -> bool { forall|i: int, j: int| 0 <= i < ms.len() && 0 <= j < ms.len() && mpath(#[trigger] ms[i]) == mpath(#[trigger] ms[j]) ==> ms[i].source_file.s_code() == ms[j].source_file.s_code() }
/// C11: some added or context line differs from the file
pub open spec fn stale_one(p: Patch, ms: Seq<Mutant>) -> bool { exists|j: int| 0 <= j < ms.len() && mpath(#[trigger] ms[j]) == new_name(p.new.path@) && !agrees(p, ms[j].source_file.s_code()) }
pub open spec fn stale(ps: Seq<Patch>, ms: Seq<Mutant>) -> bool { exists|k: int| 0 <= k < ps.len() && stale_one(#[trigger] ps[k], ms) }
pub open spec fn src_map(mp: Map<Seq<char>, &SourceFile>, ms: Seq<Mutant>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < n ==> mp.contains_key(mpath(#[trigger] ms[j]))
    &&& forall|q: Seq<char>| #[trigger] mp.contains_key(q) ==> exists|j: int| 0 <= j < n && mpath(#[trigger] ms[j]) == q && ms[j].source_file == *mp[q] }
pub open spec fn piece_ok(e: (usize, &str), code: Seq<char>) -> bool { e.1@ == line_at(code, e.0 as int) }
pub proof fn l_agrees(r: Seq<(usize, &str)>, p: Patch, code: Seq<char>)
    requires pnew(r, p, p.hunks@.len() as int),
    ensures agrees(p, code) <==> forall|x: int| 0 <= x < r.len() ==> piece_ok(#[trigger] r[x], code)
{ if agrees(p, code) { assert forall|x: int| 0 <= x < r.len() implies piece_ok(#[trigger] r[x], code) by { assert(inr(r, r[x].0 as int, r[x].1@)); } }
  if forall|x: int| 0 <= x < r.len() ==> piece_ok(#[trigger] r[x], code) {
    assert forall|n: int, t: Seq<char>| #[trigger] pshows(p, p.hunks@.len() as int, n, t) implies t == line_at(code, n) by { assert(inr(r, n, t)); let x = choose|x: int| 0 <= x < r.len() && (#[trigger] r[x]).0 == n && r[x].1@ == t; assert(piece_ok(r[x], code)); } } }
//%if C11
//%fn in_diff.rs check_diff_new_text_matches
//%opaque 1 `source_by_name.entry(mutant.source_file.path()).or_insert_with(...)` => `source_by_name.v_entry_or(mutant.source_file.path(), &mutant.source_file)`
//%opaque 1 `diff_content != *source_content` => `v_str_ne(diff_content, *source_content)`
//%spec
    requires same_source(mutants@), forall|k: int| 0 <= k < patches@.len() ==> wf(#[trigger] patches@[k]),
    ensures r is Ok <==> !stale(patches@, mutants@),
//%entry
    proof { reveal_strlit(""); }
//%loop 0 it itm
//%loop 0
    invariant 0 <= itm.index@ <= mutants@.len(), itm.snapshot@.remaining().len() == mutants@.len(),
        forall|i: int| 0 <= i < mutants@.len() ==> *(#[trigger] itm.snapshot@.remaining()[i]) == mutants@[i],
        src_map(source_by_name@, mutants@, itm.index@),
//%loop 0 start
    let ghost mp0 = source_by_name@; let ghost k = itm.index@;
    proof { assert(*mutant == mutants@[k]); }
//%loop 0 end
    proof { assert forall|q: Seq<char>| #[trigger] source_by_name@.contains_key(q) implies exists|j: int| 0 <= j < k + 1 && mpath(#[trigger] mutants@[j]) == q && mutants@[j].source_file == *source_by_name@[q] by {
        if mp0.contains_key(q) { let j = choose|j: int| 0 <= j < k && mpath(#[trigger] mutants@[j]) == q && mutants@[j].source_file == *mp0[q]; assert(mpath(mutants@[j]) == q); } else { assert(mpath(mutants@[k]) == q); } }
        assert(src_map(source_by_name@, mutants@, k + 1)); }
//%loop 1 it itp
//%loop 1
    invariant 0 <= itp.index@ <= patches@.len(), itp.snapshot@.remaining().len() == patches@.len(),
        forall|i: int| 0 <= i < patches@.len() ==> *(#[trigger] itp.snapshot@.remaining()[i]) == patches@[i],
        src_map(source_by_name@, mutants@, mutants@.len() as int), same_source(mutants@), forall|k: int| 0 <= k < patches@.len() ==> wf(#[trigger] patches@[k]),
        forall|k: int| 0 <= k < itp.index@ ==> !stale_one(#[trigger] patches@[k], mutants@),
//%loop 1 start
    let ghost k = itp.index@;
    proof { assert(*patch == patches@[k]); }
//%loop 2 before
    let ghost code = source_file.s_code(); let ghost rec = reconstructed@;
    proof { l_agrees(rec, *patch, code); 
        let j = choose|j: int| 0 <= j < mutants@.len() && mpath(#[trigger] mutants@[j]) == path@ && mutants@[j].source_file == *source_by_name@[path@]; assert(mutants@[j].source_file.s_code() == code); 
        assert(stale_one(*patch, mutants@) <==> !agrees(*patch, code)); }
//%loop 2 it itr
//%loop 2
    invariant 0 <= itr.index@ <= rec.len(), itr.snapshot@.remaining() == rec, strs(lines@) == s_lines(code),
        forall|x: int| 0 <= x < rec.len() ==> (#[trigger] rec[x]).0 >= 1,
        forall|x: int| 0 <= x < itr.index@ ==> piece_ok(#[trigger] rec[x], code),
        agrees(*patch, code) <==> forall|x: int| 0 <= x < rec.len() ==> piece_ok(#[trigger] rec[x], code),
        stale_one(*patch, mutants@) <==> !agrees(*patch, code), *patch == patches@[k], 0 <= k < patches@.len(),
//%loop 2 start
    proof { reveal_strlit(""); assert(rec[itr.index@].0 == lineno && rec[itr.index@].1@ == diff_content@); assert(""@ =~= Seq::empty()); assert(s_lines(code).len() == lines@.len()); }
//%end
//%endif
//%if C11
#[verifier::external_body]
pub fn affected_lines(patch: &Patch) -> (r: Vec<usize>)
    requires wf(*patch),
    ensures sorted(r@), forall|n: int| #[trigger] has(r@, n) <==> affected(*patch, n) { unimplemented!() }
//%endif
//%if C10
#[verifier::external_body]
pub fn check_diff_new_text_matches(patches: &[Patch], mutants: &[Mutant]) -> (r: Result<()>)
    requires same_source(mutants@), forall|k: int| 0 <= k < patches@.len() ==> wf(#[trigger] patches@[k]),
    ensures r is Ok <==> !stale(patches@, mutants@) { unimplemented!() }
//%endif
pub trait VSearch { spec fn vs(&self) -> Seq<usize>; fn v_bsearch(&self, x: &usize) -> (r: core::result::Result<usize, usize>) requires sorted(self.vs()), ensures r is Ok <==> has(self.vs(), *x as int); }
impl VSearch for Vec<usize> { open spec fn vs(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn v_bsearch(&self, x: &usize) -> (r: core::result::Result<usize, usize>) { unimplemented!() } }
//%methods binary_search=v_bsearch
/// a line of a hunk, a hunk header or a file header
pub open spec fn content(l: Seq<char>) -> bool { l.len() > 0 && (l[0] == '+' || l[0] == '-' || l[0] == ' ' || l[0] == '@' || l[0] == '\\') }
/// a line that describes a file without belonging to its text diff
pub open spec fn noise(l: Seq<char>) -> bool {
    is_prefix("Binary files "@, l) || is_prefix("diff --git "@, l) || is_prefix("index "@, l) || is_prefix("old mode "@, l) || is_prefix("new mode "@, l) || is_prefix("deleted file mode "@, l) || is_prefix("new file mode "@, l) || is_prefix("copy from "@, l) || is_prefix("copy to "@, l) || is_prefix("rename from "@, l) || is_prefix("rename to "@, l) || is_prefix("similarity index "@, l) || is_prefix("dissimilarity index "@, l) }
/// dropping them drops nothing of a text diff
pub proof fn l_noise(l: Seq<char>)
    ensures noise(l) ==> !content(l)
{ reveal_strlit("Binary files "); reveal_strlit("diff --git "); reveal_strlit("index "); reveal_strlit("old mode "); reveal_strlit("new mode "); reveal_strlit("deleted file mode "); reveal_strlit("new file mode "); reveal_strlit("copy from "); reveal_strlit("copy to "); reveal_strlit("rename from "); reveal_strlit("rename to "); reveal_strlit("similarity index "); reveal_strlit("dissimilarity index ");
  assert(is_prefix("Binary files "@, l) ==> l[0] == "Binary files "@[0]) by { if is_prefix("Binary files "@, l) { assert(l.subrange(0, "Binary files "@.len() as int)[0] == "Binary files "@[0]); } } assert(is_prefix("diff --git "@, l) ==> l[0] == "diff --git "@[0]) by { if is_prefix("diff --git "@, l) { assert(l.subrange(0, "diff --git "@.len() as int)[0] == "diff --git "@[0]); } } assert(is_prefix("index "@, l) ==> l[0] == "index "@[0]) by { if is_prefix("index "@, l) { assert(l.subrange(0, "index "@.len() as int)[0] == "index "@[0]); } } assert(is_prefix("old mode "@, l) ==> l[0] == "old mode "@[0]) by { if is_prefix("old mode "@, l) { assert(l.subrange(0, "old mode "@.len() as int)[0] == "old mode "@[0]); } } assert(is_prefix("new mode "@, l) ==> l[0] == "new mode "@[0]) by { if is_prefix("new mode "@, l) { assert(l.subrange(0, "new mode "@.len() as int)[0] == "new mode "@[0]); } } assert(is_prefix("deleted file mode "@, l) ==> l[0] == "deleted file mode "@[0]) by { if is_prefix("deleted file mode "@, l) { assert(l.subrange(0, "deleted file mode "@.len() as int)[0] == "deleted file mode "@[0]); } } assert(is_prefix("new file mode "@, l) ==> l[0] == "new file mode "@[0]) by { if is_prefix("new file mode "@, l) { assert(l.subrange(0, "new file mode "@.len() as int)[0] == "new file mode "@[0]); } } assert(is_prefix("copy from "@, l) ==> l[0] == "copy from "@[0]) by { if is_prefix("copy from "@, l) { assert(l.subrange(0, "copy from "@.len() as int)[0] == "copy from "@[0]); } } assert(is_prefix("copy to "@, l) ==> l[0] == "copy to "@[0]) by { if is_prefix("copy to "@, l) { assert(l.subrange(0, "copy to "@.len() as int)[0] == "copy to "@[0]); } } assert(is_prefix("rename from "@, l) ==> l[0] == "rename from "@[0]) by { if is_prefix("rename from "@, l) { assert(l.subrange(0, "rename from "@.len() as int)[0] == "rename from "@[0]); } } assert(is_prefix("rename to "@, l) ==> l[0] == "rename to "@[0]) by { if is_prefix("rename to "@, l) { assert(l.subrange(0, "rename to "@.len() as int)[0] == "rename to "@[0]); } } assert(is_prefix("similarity index "@, l) ==> l[0] == "similarity index "@[0]) by { if is_prefix("similarity index "@, l) { assert(l.subrange(0, "similarity index "@.len() as int)[0] == "similarity index "@[0]); } } assert(is_prefix("dissimilarity index "@, l) ==> l[0] == "dissimilarity index "@[0]) by { if is_prefix("dissimilarity index "@, l) { assert(l.subrange(0, "dissimilarity index "@.len() as int)[0] == "dissimilarity index "@[0]); } } }
impl<T, const N: usize> VSliceIter<T> for [T; N] { open spec fn sitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() } }
//%fn in_diff.rs is_binary_or_extended_header
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == is_prefix($0@, line@)
//%spec
    ensures r == noise(line@), r ==> !content(line@),
//%entry
    proof { l_noise(line@); }
//%end
pub open spec fn no_binary(l: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else if noise(l.last()) { no_binary(l.drop_last()) } else { no_binary(l.drop_last()).push(l.last()) } }
/// the diff without the lines about binary files, which the parser does not know
pub open spec fn s_fixed(t: Seq<char>) -> Seq<char> { s_join(no_binary(s_lines(t)).push(""@), "\n"@) }
pub broadcast proof fn l_nobin(m: Seq<&str>, k: Seq<bool>)
    requires k.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> k[i] == !noise((#[trigger] m[i])@),
    ensures strs(#[trigger] select(m, k)) == no_binary(strs(m)),
    decreases m.len()
{ if m.len() > 0 { assert forall|i: int| 0 <= i < m.drop_last().len() implies k.drop_last()[i] == !noise((#[trigger] m.drop_last()[i])@) by { assert(m.drop_last()[i] == m[i]); }
    l_nobin(m.drop_last(), k.drop_last()); assert(strs(m).drop_last() =~= strs(m.drop_last())); assert(strs(m).last() == m.last()@);
    let q = select(m.drop_last(), k.drop_last()); assert(strs(q.push(m.last())) =~= strs(q).push(m.last()@)); }
  else { assert(strs(select(m, k)) =~= Seq::empty()); assert(strs(m).len() == 0); } }
pub open spec fn named(p: Patch) -> bool { new_name(p.new.path@) != "/dev/null"@ }
pub open spec fn overlaps(m: Mutant, p: Patch) -> bool { exists|n: int| m.span.start.line <= n <= m.span.end.line && #[trigger] affected(p, n) }
pub open spec fn wf_all(o: Option<Seq<Patch>>) -> bool { match o { Some(ps) => forall|k: int| 0 <= k < ps.len() ==> wf(#[trigger] ps[k]), None => true } }
/// C10: the diff names the mutant's file and touches a line of its span
pub open spec fn sel(m: Mutant, ps: Seq<Patch>) -> bool { exists|k: int| 0 <= k < ps.len() && named(#[trigger] ps[k]) && new_name(ps[k].new.path@) == mpath(m) && overlaps(m, ps[k]) }
pub open spec fn picked(ms: Seq<Mutant>, ps: Seq<Patch>, i: int) -> Seq<Mutant>
    decreases i
{ if i <= 0 { Seq::empty() } else if sel(ms[i - 1], ps) { picked(ms, ps, i - 1).push(ms[i - 1]) } else { picked(ms, ps, i - 1) } }
pub open spec fn repeated(ps: Seq<Patch>, n: int) -> bool { exists|i: int, j: int| 0 <= i < j < n && named(#[trigger] ps[i]) && named(#[trigger] ps[j]) && new_name(ps[i].new.path@) == new_name(ps[j].new.path@) }
pub open spec fn line_map(mp: Map<Seq<char>, Vec<usize>>, ps: Seq<Patch>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < n && named(#[trigger] ps[k]) ==> mp.contains_key(new_name(ps[k].new.path@)) && sorted(mp[new_name(ps[k].new.path@)]@) && forall|x: int| #[trigger] has(mp[new_name(ps[k].new.path@)]@, x) <==> affected(ps[k], x)
    &&& forall|q: Seq<char>| #[trigger] mp.contains_key(q) ==> exists|k: int| 0 <= k < n && named(#[trigger] ps[k]) && new_name(ps[k].new.path@) == q }
pub broadcast proof fn l_strs_add(a: Seq<&str>, b: Seq<&str>)
    requires b.len() == 1,
    ensures strs(#[trigger] (a + b)) == strs(a).push(b[0]@)
{ assert(strs(a + b) =~= strs(a).push(b[0]@)); }
pub broadcast proof fn l_step_in(mp0: Map<Seq<char>, Vec<usize>>, ps: Seq<Patch>, k: int, v: Vec<usize>)
    requires 0 <= k < ps.len(), line_map(mp0, ps, k), named(ps[k]), !mp0.contains_key(new_name(ps[k].new.path@)), sorted(v@), forall|x: int| #[trigger] has(v@, x) <==> affected(ps[k], x),
    ensures #[trigger] line_map(mp0.insert(new_name(ps[k].new.path@), v), ps, k + 1)
{ let mp = mp0.insert(new_name(ps[k].new.path@), v);
  assert forall|q: Seq<char>| #[trigger] mp.contains_key(q) implies exists|j: int| 0 <= j < k + 1 && named(#[trigger] ps[j]) && new_name(ps[j].new.path@) == q by {
    if mp0.contains_key(q) { let j = choose|j: int| 0 <= j < k && named(#[trigger] ps[j]) && new_name(ps[j].new.path@) == q; assert(named(ps[j])); } else { assert(named(ps[k])); } }
  assert forall|j: int| 0 <= j < k + 1 && named(#[trigger] ps[j]) implies mp.contains_key(new_name(ps[j].new.path@)) && sorted(mp[new_name(ps[j].new.path@)]@) && forall|x: int| #[trigger] has(mp[new_name(ps[j].new.path@)]@, x) <==> affected(ps[j], x) by {
    if j < k { assert(mp0.contains_key(new_name(ps[j].new.path@))); } } }
pub proof fn l_step_out(mp0: Map<Seq<char>, Vec<usize>>, ps: Seq<Patch>, k: int)
    requires 0 <= k < ps.len(), line_map(mp0, ps, k), !named(ps[k]),
    ensures line_map(mp0, ps, k + 1)
{ assert forall|q: Seq<char>| #[trigger] mp0.contains_key(q) implies exists|j: int| 0 <= j < k + 1 && named(#[trigger] ps[j]) && new_name(ps[j].new.path@) == q by { let j = choose|j: int| 0 <= j < k && named(#[trigger] ps[j]) && new_name(ps[j].new.path@) == q; assert(named(ps[j])); } }
/// a name is new exactly when it is not yet in the map
pub proof fn l_rep(mp0: Map<Seq<char>, Vec<usize>>, ps: Seq<Patch>, k: int)
    requires 0 <= k < ps.len(), line_map(mp0, ps, k), !repeated(ps, k),
    ensures repeated(ps, k + 1) <==> named(ps[k]) && mp0.contains_key(new_name(ps[k].new.path@)),
        repeated(ps, k + 1) ==> repeated(ps, ps.len() as int),
{
    if repeated(ps, k + 1) { let (i, j) = choose|i: int, j: int| 0 <= i < j < k + 1 && named(#[trigger] ps[i]) && named(#[trigger] ps[j]) && new_name(ps[i].new.path@) == new_name(ps[j].new.path@); 
        if j < k { assert(named(ps[i]) && named(ps[j])); assert(repeated(ps, k)); } assert(j == k); assert(mp0.contains_key(new_name(ps[i].new.path@))); assert(named(ps[i]) && named(ps[j]) && j < ps.len()); }
    if named(ps[k]) && mp0.contains_key(new_name(ps[k].new.path@)) { let i = choose|i: int| 0 <= i < k && named(#[trigger] ps[i]) && new_name(ps[i].new.path@) == new_name(ps[k].new.path@); assert(named(ps[i]) && named(ps[k]) && i < k < k + 1); }
}
//%fn in_diff.rs diff_filter
//%opaque 1 `fixed_diff.trim().is_empty()` => `v_is_blank(&fixed_diff)`
//%opaque 1 `Patch::from_multiple(&fixed_diff).map_err(...)` => `Patch::from_multiple(&fixed_diff)`
//%opaque 1 `path == "/dev/null"` => `v_path_is(path, "/dev/null")`
//%attr #[verifier::exec_allows_no_decreases_clause]
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == !noise($0@)
//%spec
    requires same_source(mutants@), wf_all(s_parse(s_fixed(diff_text@))),
    ensures
        s_blank(s_fixed(diff_text@)) ==> (r matches Ok(v) && v@.len() == 0),
        !s_blank(s_fixed(diff_text@)) ==> (match s_parse(s_fixed(diff_text@)) {
            None => r is Err,
            Some(ps) => {
                // C11
                &&& (r is Err <==> stale(ps, mutants@) || repeated(ps, ps.len() as int))
                // C10
                &&& (r matches Ok(v) ==> v@ == picked(mutants@, ps, mutants@.len() as int))
            } }),
//%entry
    broadcast use {l_nobin, l_strs_add};
    let ghost ms = mutants@;
//%loop 0 it itp
//%loop 0 before
    let ghost ps = patches@;
//%loop 0
    invariant !s_blank(s_fixed(diff_text@)), s_parse(s_fixed(diff_text@)) == Some(ps), itp.all() == refs(ps), ps == patches@, 0 <= itp.pos() <= ps.len(), forall|k: int| 0 <= k < ps.len() ==> wf(#[trigger] ps[k]),
        line_map(lines_changed_by_path@, ps, itp.pos()), !repeated(ps, itp.pos()),
    ensures line_map(lines_changed_by_path@, ps, ps.len() as int), !repeated(ps, ps.len() as int),
//%loop 0 start
    let ghost k = itp.pos() - 1; let ghost mp0 = lines_changed_by_path@;
    broadcast use l_step_in;
    proof { assert(*patch == ps[k]); l_rep(mp0, ps, k); if !named(ps[k]) { l_step_out(mp0, ps, k); } }
//%loop 1 it itm
//%loop 1
    invariant itm.all() == ms, 0 <= itm.pos() <= ms.len(), line_map(lines_changed_by_path@, ps, ps.len() as int), !repeated(ps, ps.len() as int),
        matched@ == picked(ms, ps, itm.pos()),
    ensures matched@ == picked(ms, ps, ms.len() as int),
//%loop 1 start
    let ghost i = itm.pos() - 1; let ghost mu = mutant; let ghost got0 = matched@;
    proof { assert(mutant == ms[i]); if !lines_changed_by_path@.contains_key(mpath(mu)) { assert(!sel(mu, ps)); } }
//%loop 2 it itl
//%loop 2 before
    let ghost kk = choose|k: int| 0 <= k < ps.len() && named(#[trigger] ps[k]) && new_name(ps[k].new.path@) == path@;
    proof { assert(named(ps[kk])); assert forall|x: int| 0 <= x < itl.all().len() implies #[trigger] itl.all()[x] == mu.span.start.line + x by {} }
//%loop 2
    invariant mutant == mu, mu == ms[i], matched@ == got0, got0 == picked(ms, ps, i), itm.pos() == i + 1, itm.all() == ms, 0 <= i < ms.len(), path@ == mpath(mu),
        line_map(lines_changed_by_path@, ps, ps.len() as int), !repeated(ps, ps.len() as int),
        0 <= kk < ps.len(), named(ps[kk]), new_name(ps[kk].new.path@) == mpath(mu), *lines_changed == lines_changed_by_path@[mpath(mu)],
        itl.all().len() == (if mu.span.start.line <= mu.span.end.line { mu.span.end.line - mu.span.start.line + 1 } else { 0 }), 0 <= itl.pos() <= itl.all().len(),
        forall|x: int| 0 <= x < itl.all().len() ==> #[trigger] itl.all()[x] == mu.span.start.line + x,
        forall|n: int| mu.span.start.line <= n < mu.span.start.line + itl.pos() ==> !#[trigger] affected(ps[kk], n),
    ensures !overlaps(mu, ps[kk]), mutant == mu, matched@ == got0,
//%loop 2 start
    proof { if affected(ps[kk], line as int) { assert(overlaps(mu, ps[kk])); assert(sel(mu, ps)); } assert(has(lines_changed@, line as int) <==> affected(ps[kk], line as int)); }
//%loop 2 after
    proof { if sel(mu, ps) { let k = choose|k: int| 0 <= k < ps.len() && named(#[trigger] ps[k]) && new_name(ps[k].new.path@) == mpath(mu) && overlaps(mu, ps[k]); if k != kk { assert(named(ps[k]) && named(ps[kk])); assert(repeated(ps, ps.len() as int)); } assert(false); } }
//%end
} // verus!
fn main() {}
