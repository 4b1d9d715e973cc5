use vstd::prelude::*;
verus! {
//%include shim_core.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
// ---- the parts of a path, as camino gives them ----
#[verifier::external_body]
pub struct Component { _p: u8 }
impl View for Component { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Component { #[verifier::external_body] pub fn as_str(&self) -> (r: &'static str) ensures r@ == self@ { unimplemented!() } }
pub uninterp spec fn s_comps(p: Seq<char>) -> Seq<Component>;
impl Utf8Path { #[verifier::external_body] pub fn components(&self) -> (r: VIter<Component>) ensures r@ == s_comps(self@) { unimplemented!() } }
/// texts joined with a separator
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl VJoin for Vec<&'static str> { open spec fn jv(&self) -> Seq<Seq<char>> { views(self@) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait VJoin { spec fn jv(&self) -> Seq<Seq<char>>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jv(), sep@); }
//%methods join=v_join
#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VEmpty { spec fn ev(&self) -> Seq<char>; fn v_is_empty(&self) -> (r: bool) ensures r == (self.ev().len() == 0); }
impl VEmpty for str { open spec fn ev(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
//%methods is_empty=v_is_empty
/// how a part is written: a root as nothing, so that the path starts with a slash
pub open spec fn written(c: Seq<char>) -> Seq<char> { if c == "/"@ || c == "\\"@ { ""@ } else { c } }
pub open spec fn parts(c: Seq<Component>) -> Seq<Seq<char>>
    decreases c.len()
{ if c.len() == 0 { Seq::empty() } else if c.last()@.len() == 0 { parts(c.drop_last()) } else { parts(c.drop_last()).push(written(c.last()@)) } }
pub open spec fn slashed(p: Seq<char>) -> Seq<char> { joined(parts(s_comps(p)), "/"@) }
pub open spec fn kept(s: Seq<&str>, k: Seq<bool>) -> bool { k.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] k[i] <==> s[i]@.len() != 0) }
pub open spec fn as_strs(c: Seq<Component>, s: Seq<&str>) -> bool { c.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == c[i]@ }
pub open spec fn all_written(s: Seq<&str>, r: Seq<&str>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i])@ == written(s[i]@) }
pub open spec fn wviews(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| written(s[i]@)) }
pub proof fn l_parts(c: Seq<Component>, s: Seq<&str>, k: Seq<bool>)
    requires as_strs(c, s), kept(s, k),
    ensures wviews(select(s, k)) == parts(c),
    decreases c.len()
{
    if c.len() == 0 { assert(wviews(select(s, k)) =~= parts(c)); } else {
        let (c1, s1, k1) = (c.drop_last(), s.drop_last(), k.drop_last());
        assert(as_strs(c1, s1)); assert(kept(s1, k1));
        l_parts(c1, s1, k1);
        assert(s.last()@ == c.last()@); assert(k.last() <==> s[s.len() - 1]@.len() != 0);
        if k.last() { assert(wviews(select(s1, k1).push(s.last())) =~= wviews(select(s1, k1)).push(written(s.last()@))); }
    }
}
pub proof fn l_all(c: Seq<Component>)
    ensures forall|s: Seq<&str>, k: Seq<bool>, r: Seq<&str>| as_strs(c, s) && kept(s, k) && all_written(#[trigger] select(s, k), r) ==> #[trigger] views(r) == parts(c)
{
    assert forall|s: Seq<&str>, k: Seq<bool>, r: Seq<&str>| as_strs(c, s) && kept(s, k) && all_written(#[trigger] select(s, k), r) implies #[trigger] views(r) == parts(c) by {
        l_parts(c, s, k); assert(views(r) =~= wviews(select(s, k))); }
}
//%fn path.rs <Utf8Path as Utf8PathSlashes>::to_slash_path
//%opaque 1 `c == "/"` => `v_str_eq(c, "/")`
//%opaque 1 `c == "\\"` => `v_str_eq(c, "\\")`
//%closure 0
    |$0: Component| -> (o: &'static str) ensures o@ == $0@
//%closure 1
    |$0: &&'static str| -> (b: bool) ensures b == ($0@.len() != 0)
//%closure 2
    |$0: &'static str| -> (o: &'static str) ensures o@ == written($0@)
//%spec
    ensures r@ == slashed(self@),
//%entry
    proof { l_all(s_comps(self@)); }
//%end
} // verus!
fn main() {}
