use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
// ---- globset: a builder collects globs; a glob is its pattern and whether * may match a separator ----
pub struct GlobOf { pub pattern: Seq<char>, pub literal_separator: bool }
#[verifier::external_body]
pub struct Glob { _p: u8 }
#[verifier::external_body]
pub struct GlobBuilder { _p: u8 }
#[verifier::external_body]
pub struct GlobSet { _p: u8 }
#[verifier::external_body]
pub struct GlobSetBuilder { _p: u8 }
#[verifier::external_body]
pub struct GlobError { _p: u8 }
impl View for Glob { type V = GlobOf; uninterp spec fn view(&self) -> GlobOf; }
impl View for GlobBuilder { type V = GlobOf; uninterp spec fn view(&self) -> GlobOf; }
/// a path is in the set iff it matches one of the globs
impl View for GlobSet { type V = Seq<GlobOf>; uninterp spec fn view(&self) -> Seq<GlobOf>; }
impl View for GlobSetBuilder { type V = Seq<GlobOf>; uninterp spec fn view(&self) -> Seq<GlobOf>; }
pub trait VStr { spec fn sv(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.sv(); }
impl VStr for str { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VStr for String { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() } }
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> VStr for Cow<'a> { open spec fn sv(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() } }
pub trait VPat { spec fn hits(&self, s: Seq<char>) -> bool; }
impl VPat for char { open spec fn hits(&self, s: Seq<char>) -> bool { s.contains(*self) } }
impl VPat for [char; 2] { open spec fn hits(&self, s: Seq<char>) -> bool { s.contains(self@[0]) || s.contains(self@[1]) } }
pub trait VContains { spec fn cs(&self) -> Seq<char>; fn v_contains<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.hits(self.cs()); }
impl VContains for str { open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() } }
//%methods contains=v_contains
impl GlobBuilder {
    #[verifier::external_body]
    pub fn new<S: VStr>(g: &S) -> (r: GlobBuilder) ensures r@ == (GlobOf { pattern: g.sv(), literal_separator: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn literal_separator(self, b: bool) -> (r: GlobBuilder) ensures r@ == (GlobOf { literal_separator: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: core::result::Result<Glob, GlobError>) ensures r matches Ok(g) ==> g@ == self@ { unimplemented!() }
}
impl GlobSetBuilder {
    #[verifier::external_body]
    pub fn new() -> (r: GlobSetBuilder) ensures r@ == Seq::<GlobOf>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, g: Glob) ensures final(self)@ == old(self)@.push(g@) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(&self) -> (r: core::result::Result<GlobSet, GlobError>) ensures r matches Ok(g) ==> g@ == self@ { unimplemented!() }
}
pub trait VCtx<T>: Sized { spec fn val(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r matches Ok(v) ==> self.val() == Some(v); }
impl<T> VCtx<T> for core::result::Result<T, GlobError> { open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
// ---- C12: what one -f / -e argument means ----
pub open spec fn meaning(s: Seq<char>) -> Seq<GlobOf> {
    if s.contains('/') { seq![GlobOf { pattern: s, literal_separator: true }] }
    else { seq![GlobOf { pattern: "**/"@ + s, literal_separator: true }, GlobOf { pattern: "**/"@ + s + "/**"@, literal_separator: true }] }
}
pub open spec fn meanings<S: VStr>(g: Seq<S>) -> Seq<GlobOf>
    decreases g.len()
{ if g.len() == 0 { Seq::empty() } else { meanings(g.drop_last()) + meaning(g.last().sv()) } }
pub open spec fn globs_of<'a>(s: Seq<Cow<'a>>) -> Seq<GlobOf> { Seq::new(s.len(), |i: int| GlobOf { pattern: s[i].sv(), literal_separator: true }) }
//%paths cfg!(windows) => false
//%fn glob.rs build_glob_set
//%gen <S: VStr>
//%spec
    ensures r matches Ok(x) ==> (x.is_none() <==> globs@.len() == 0) && (x matches Some(s) ==> s@ == meanings(globs@)),
//%entry
    broadcast use vstd::string::group_string_axioms;
//%loop 0 it it
//%loop 0
    invariant it.snapshot@.remaining().len() == globs@.len(), 0 <= it.index@ <= globs@.len(),
        forall|i: int| 0 <= i < globs@.len() ==> *(#[trigger] it.snapshot@.remaining()[i]) == globs@[i],
        builder@ == meanings(globs@.subrange(0, it.index@)),
//%loop 0 start
    proof { assert(globs@.subrange(0, it.index@ + 1).drop_last() =~= globs@.subrange(0, it.index@)); }
    let ghost b0 = builder@;
//%loop 0 end
    proof { assert(globs@.subrange(0, it.index@ + 1).drop_last() =~= globs@.subrange(0, it.index@)); assert(builder@ =~= b0 + meaning(globs@[it.index@].sv())); }
//%loop 0 after
    proof { assert(globs@.subrange(0, globs@.len() as int) =~= globs@); }
//%loop 1 it it1
//%loop 1 before
    let ghost adj = globs_of(adjusted@);
    proof { assert(adj =~= meaning(glob_str@)); }
//%loop 1
    invariant 0 <= it1.index@ <= adj.len(), it1.snapshot@.remaining().len() == adj.len(),
        forall|i: int| 0 <= i < adj.len() ==> adj[i] == (GlobOf { pattern: (#[trigger] it1.snapshot@.remaining()[i]).sv(), literal_separator: true }),
        builder@ =~= b0 + adj.subrange(0, it1.index@),
//%end
} // verus!
fn main() {}
