use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//%include shim_core.vrs
//%include shim_iter.vrs
//%quote
// ---- tokens: a token stream is the sequence of its tokens' text (assumed: quote) ----
#[verifier::external_body]
pub struct Toks { _p: u8 }
/// no tokens; one token; the one then the other
pub uninterp spec fn t0() -> Toks;
pub uninterp spec fn tk(s: Seq<char>) -> Toks;
pub uninterp spec fn cat(a: Toks, b: Toks) -> Toks;
#[verifier::external_body]
pub struct TokenStream { _p: u8 }
impl View for TokenStream { type V = Toks; uninterp spec fn view(&self) -> Toks; }
pub trait VToks { spec fn toks(&self) -> Toks; }
impl VToks for TokenStream { open spec fn toks(&self) -> Toks { self@ } }
impl VToks for Ident { open spec fn toks(&self) -> Toks { tk(self@) } }
impl VToks for Expr { open spec fn toks(&self) -> Toks { s_expr(*self) } }
impl VToks for Toks { open spec fn toks(&self) -> Toks { *self } }
impl<'a, T: VToks> VToks for &'a T { open spec fn toks(&self) -> Toks { (**self).toks() } }
pub uninterp spec fn s_expr(e: Expr) -> Toks;
/// the streams' tokens, one after the other, with the separator in between
pub open spec fn seps(s: Seq<Toks>, sep: Seq<char>) -> Toks
    decreases s.len()
{ if s.len() == 0 { t0() } else if s.len() == 1 { s[0] } else { cat(cat(seps(s.drop_last(), sep), tk(sep)), s.last()) } }
pub open spec fn txt(s: Seq<TokenStream>) -> Seq<Toks> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VAllToks { spec fn all_toks(&self) -> Seq<Toks>; }
impl VAllToks for Vec<TokenStream> { open spec fn all_toks(&self) -> Seq<Toks> { txt(self@) } }
impl VAllToks for Seq<Toks> { open spec fn all_toks(&self) -> Seq<Toks> { *self } }
#[verifier::external_body]
pub fn v_q0() -> (r: TokenStream) ensures r@ == t0() { unimplemented!() }
impl TokenStream {
    #[verifier::external_body]
    pub fn v_t(self, s: &str) -> (r: TokenStream) ensures r@ == cat(self@, tk(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_i<T: VToks>(self, x: &T) -> (r: TokenStream) ensures r@ == cat(self@, x.toks()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_sep<T: VAllToks>(self, x: &T, sep: &str) -> (r: TokenStream) ensures r@ == cat(self@, seps(x.all_toks(), sep@)) { unimplemented!() }
}
// ---- types (assumed: syn) ----
#[verifier::external_body]
pub struct Opaque { _p: u8 }
#[verifier::external_body]
pub struct Ident { _p: u8 }
impl View for Ident { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> PartialEqSpecImpl<&'a str> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a str) -> bool { self@ == (*o)@ } }
impl<'a> PartialEq<&'a str> for Ident { #[verifier::external_body] fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> PartialEqSpecImpl<&'a &'b str> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a &'b str) -> bool { self@ == (**o)@ } }
impl<'a, 'b> PartialEq<&'a &'b str> for Ident { #[verifier::external_body] fn eq(&self, o: &&'a &'b str) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl<str> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ } }
impl PartialEq<str> for Ident { #[verifier::external_body] fn eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl Ident { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub struct Expr { _p: u8 }
pub struct AssocType { pub ident: Ident, pub ty: Type, pub rest: Opaque }
pub enum GenericArgument { Type(Type), Lifetime(Opaque), AssocType(AssocType), Other(Opaque) }
pub struct AngleBracketedGenericArguments { pub args: Vec<GenericArgument>, pub rest: Opaque }
pub enum PathArguments { None, AngleBracketed(AngleBracketedGenericArguments), Parenthesized(Opaque) }
pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
pub struct Path { pub segments: Vec<PathSegment>, pub rooted: bool }
pub struct TypePath { pub path: Path, pub rest: Opaque }
pub struct TypeArray { pub elem: Box<Type>, pub len: Expr, pub rest: Opaque }
pub struct TypeSlice { pub elem: Box<Type>, pub rest: Opaque }
pub struct TypeReference { pub mutability: Option<u8>, pub elem: Box<Type>, pub rest: Opaque }
pub struct TypeTuple { pub elems: Vec<Type>, pub rest: Opaque }
pub struct TraitBound { pub path: Path, pub rest: Opaque }
pub enum TypeParamBound { Trait(TraitBound), Other(Opaque) }
pub struct TypeImplTrait { pub bounds: Vec<TypeParamBound>, pub rest: Opaque }
pub enum Type { Path(TypePath), Array(TypeArray), Slice(TypeSlice), Reference(TypeReference), Tuple(TypeTuple), ImplTrait(TypeImplTrait), Never(Opaque), Other(Opaque) }
pub enum ReturnType { Default, Type(u8, Box<Type>) }
impl Path {
    #[verifier::external_body]
    pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == self.is(s@) { unimplemented!() }
    /// the path is this one identifier
    pub open spec fn is(&self, s: Seq<char>) -> bool { !self.rooted && self.segments@.len() == 1 && self.segments@[0].arguments is None && self.segments@[0].ident@ == s }
    pub open spec fn ends(&self, s: Seq<char>) -> bool { self.segments@.len() > 0 && self.segments@.last().ident@ == s }
}
//%paths syn::TypePath => TypePath
//%paths syn::TypeReference => TypeReference
pub trait VFirst<T> { spec fn it(&self) -> Seq<T>;
    fn v_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.it().len() > 0 && *x == self.it()[0], None => self.it().len() == 0 };
    fn v_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.it().len() > 0 && *x == self.it().last(), None => self.it().len() == 0 }; }
impl<T> VFirst<T> for Vec<T> { open spec fn it(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_last(&self) -> (r: Option<&T>) { unimplemented!() } }
//%methods first=v_first last=v_last collect_tuple=v_pair flat_map=v_flat_map cartesian_product=v_cartesian multi_cartesian_product=v_product
impl<T, const N: usize> VSliceIter<T> for [T; N] { open spec fn sitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() } }
pub trait VOptMap<T>: Sized { spec fn ois(self) -> Option<T>;
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.ois() matches Some(x) ==> call_requires(f, (x,)),
        ensures match r { Some(y) => self.ois() matches Some(x) && call_ensures(f, (x,), y), None => self.ois().is_none() }; }
impl<T> VOptMap<T> for Option<T> { open spec fn ois(self) -> Option<T> { self }
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } } }
// itertools (assumed: documented meaning)
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn v_pair(self) -> (r: Option<(T, T)>) ensures match r { Some(p) => self@.len() == 2 && p.0 == self@[0] && p.1 == self@[1], None => self@.len() != 2 } { unimplemented!() }
    #[verifier::external_body]
    pub fn v_flat_map<U, const N: usize, F: Fn(T) -> [U; N]>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|q: Seq<[U; N]>| q.len() == self@.len() && (forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] q[i])) && r@ == #[trigger] flat(q),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_cartesian<U, O: VIntoIter<U>>(self, o: O) -> (r: VIter<(T, U)>) ensures r@ == cross(self@, o.items()) { unimplemented!() }
}
pub open spec fn flat<U, const N: usize>(q: Seq<[U; N]>) -> Seq<U>
    decreases q.len()
{ if q.len() == 0 { Seq::empty() } else { flat(q.drop_last()) + q.last()@ } }
/// pairs, the first item varying slowest
pub open spec fn cross<T, U>(a: Seq<T>, b: Seq<U>) -> Seq<(T, U)>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { cross(a.drop_last(), b) + Seq::new(b.len(), |i: int| (a.last(), b[i])) } }
/// all ways to choose one item of each, the first varying slowest
pub open spec fn product<T>(a: Seq<Seq<T>>) -> Seq<Seq<T>>
    decreases a.len()
{ if a.len() == 0 { seq![Seq::empty()] } else { grow(product(a.drop_last()), a.last()) } }
pub open spec fn grow<T>(p: Seq<Seq<T>>, b: Seq<T>) -> Seq<Seq<T>>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { grow(p.drop_last(), b) + Seq::new(b.len(), |i: int| p.last().push(b[i])) } }
pub open spec fn views<T>(v: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(v.len(), |i: int| v[i]@) }
impl<T> VIter<Vec<T>> {
    #[verifier::external_body]
    pub fn v_product(self) -> (r: VIter<Vec<T>>) ensures views(r@) == product(views(self@)) { unimplemented!() }
}
impl<T> VIter<T> { #[verifier::external_body] pub fn v_once(x: T) -> (r: VIter<T>) ensures r@ == seq![x] { unimplemented!() } }
//%paths iter::once => VIter::v_once
// ---- the table (book/src/mutants.md, src/fnvalue.rs) ----
pub open spec fn q1(a: Toks) -> Seq<Toks> { seq![a] }
pub open spec fn q2(a: Toks, b: Toks) -> Seq<Toks> { seq![a, b] }
pub open spec fn q3(a: Toks, b: Toks, c: Toks) -> Seq<Toks> { seq![a, b, c] }
pub open spec fn unsigned(p: Path) -> bool { p.is("u8"@) || p.is("u16"@) || p.is("u32"@) || p.is("u64"@) || p.is("u128"@) || p.is("usize"@) }
pub open spec fn signed(p: Path) -> bool { p.is("i8"@) || p.is("i16"@) || p.is("i32"@) || p.is("i64"@) || p.is("i128"@) || p.is("isize"@) }
pub open spec fn float(p: Path) -> bool { p.is("f32"@) || p.is("f64"@) }
pub open spec fn nonzero_signed(p: Path) -> bool { p.ends("NonZeroIsize"@) || p.ends("NonZeroI8"@) || p.ends("NonZeroI16"@) || p.ends("NonZeroI32"@) || p.ends("NonZeroI64"@) || p.ends("NonZeroI128"@) }
pub open spec fn nonzero_unsigned(p: Path) -> bool { p.ends("NonZeroUsize"@) || p.ends("NonZeroU8"@) || p.ends("NonZeroU16"@) || p.ends("NonZeroU32"@) || p.ends("NonZeroU64"@) || p.ends("NonZeroU128"@) }
/// the generic arguments of the last segment, if it has any
pub open spec fn targs(p: Path) -> Option<Seq<GenericArgument>> { if p.segments@.len() == 0 { None } else { match p.segments@.last().arguments { PathArguments::AngleBracketed(a) => Some(a.args@), _ => None } } }
/// the first argument that is not a lifetime, if it is a type
pub open spec fn first_type(a: Seq<GenericArgument>) -> Option<Type>
    decreases a.len()
{ if a.len() == 0 { None } else { match a[0] { GenericArgument::Type(t) => Some(t), GenericArgument::Lifetime(_) => first_type(a.drop_first()), _ => None } } }
pub open spec fn arg_of(p: Path, name: Seq<char>) -> Option<Type> { if p.ends(name) && targs(p).is_some() { first_type(targs(p).unwrap()) } else { None } }
pub open spec fn single(p: Path) -> Option<Type> { match targs(p) { Some(a) => if a.len() == 1 { match a[0] { GenericArgument::Type(t) => Some(t), _ => None } } else { None }, None => None } }
pub open spec fn is_container(p: Path) -> bool { p.ends("Box"@) || p.ends("Cell"@) || p.ends("RefCell"@) || p.ends("Arc"@) || p.ends("Rc"@) || p.ends("Mutex"@) }
pub open spec fn is_collection(p: Path) -> bool { p.ends("BinaryHeap"@) || p.ends("BTreeSet"@) || p.ends("HashSet"@) || p.ends("LinkedList"@) || p.ends("VecDeque"@) }
pub open spec fn is_map(p: Path) -> bool { p.ends("BTreeMap"@) || p.ends("HashMap"@) }
pub open spec fn two(p: Path) -> Option<(Type, Type)> { match targs(p) { Some(a) => if a.len() == 2 { match (a[0], a[1]) { (GenericArgument::Type(x), GenericArgument::Type(y)) => Some((x, y)), _ => None } } else { None }, None => None } }
/// the arguments that are types
pub open spec fn types(a: Seq<GenericArgument>) -> Seq<Type>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { match a.last() { GenericArgument::Type(t) => types(a.drop_last()).push(t), _ => types(a.drop_last()) } } }
pub open spec fn only_type(p: Path) -> Option<Type> { match targs(p) { Some(a) => if types(a).len() == 1 { Some(types(a)[0]) } else { None }, None => None } }
/// the Item of `impl Iterator<Item = ..>`
pub open spec fn item_of(b: TypeParamBound) -> Option<Type> { match b { TypeParamBound::Trait(t) => if t.path.ends("Iterator"@) { match targs(t.path) { Some(a) => if a.len() > 0 { match a[0] { GenericArgument::AssocType(x) => if x.ident@ == "Item"@ { Some(x.ty) } else { None }, _ => None } } else { None }, None => None } } else { None }, _ => None } }
pub open spec fn first_item(b: Seq<TypeParamBound>) -> Option<Type>
    decreases b.len()
{ if b.len() == 0 { None } else if item_of(b[0]).is_some() { item_of(b[0]) } else { first_item(b.drop_first()) } }
pub open spec fn s_errs(e: Seq<Expr>) -> Seq<Toks> { Seq::new(e.len(), |i: int| q_err(e[i])) }
pub open spec fn q_err(error_expr: Expr) -> Toks { Q!{ Err(#error_expr) } }
pub open spec fn q_ok(rep: Toks) -> Toks { Q!{ Ok(#rep) } }
pub open spec fn q_some(rep: Toks) -> Toks { Q!{ Some(#rep) } }
pub open spec fn q_vec(rep: Toks) -> Toks { Q!{ vec![#rep] } }
pub open spec fn q_ref(rep: Toks) -> Toks { Q!{ &#rep } }
pub open spec fn q_leak(rep: Toks) -> Toks { Q!{ Vec::leak(vec![ #rep ]) } }
pub open spec fn q_bleak(rep: Toks) -> Toks { Q!{ Box::leak(Box::new(#rep)) } }
pub open spec fn q_iter(rep: Toks) -> Toks { Q!{ ::std::iter::once(#rep) } }
pub open spec fn q_new(c: Toks, rep: Toks) -> Toks { Q!{ #c::new(#rep) } }
pub open spec fn q_empty(c: Toks) -> Toks { Q!{ #c::new() } }
pub open spec fn q_from(c: Toks, rep: Toks) -> Toks { Q!{ #c::from(#rep) } }
pub open spec fn q_from_iter(c: Toks, rep: Toks) -> Toks { Q!{ #c::from_iter([#rep]) } }
pub open spec fn q_pair(c: Toks, k: Toks, v: Toks) -> Toks { Q!{ #c::from_iter([(#k, #v)]) } }
pub open spec fn q_array(r: Toks, len: Expr) -> Toks { Q!{ [ #r; #len ] } }
pub open spec fn q_borrowed(rep: Toks) -> Toks { Q!{ Cow::Borrowed(#rep) } }
pub open spec fn q_owned(rep: Toks) -> Toks { Q!{ Cow::Owned(#rep.to_owned()) } }
pub open spec fn q_tuple(reps: Seq<Toks>) -> Toks { Q!{ ( #( #reps ),* ) } }
pub open spec fn m_ok(s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_ok(s[i])) }
pub open spec fn m_some(s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_some(s[i])) }
pub open spec fn m_vec(s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_vec(s[i])) }
pub open spec fn m_ref(s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_ref(s[i])) }
pub open spec fn m_leak(s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_leak(s[i])) }
pub open spec fn m_bleak(s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_bleak(s[i])) }
pub open spec fn m_iter(s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_iter(s[i])) }
pub open spec fn m_new(c: Toks, s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_new(c, s[i])) }
pub open spec fn m_from_iter(c: Toks, s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_from_iter(c, s[i])) }
pub open spec fn m_pair(c: Toks, s: Seq<(Toks, Toks)>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_pair(c, s[i].0, s[i].1)) }
pub open spec fn m_array(len: Expr, s: Seq<Toks>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_array(s[i], len)) }
pub open spec fn m_tuple(s: Seq<Seq<Toks>>) -> Seq<Toks> { Seq::new(s.len(), |i: int| q_tuple(s[i])) }
pub open spec fn m_cow(s: Seq<Toks>) -> Seq<Toks>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { m_cow(s.drop_last()) + q2(q_borrowed(s.last()), q_owned(s.last())) } }
pub open spec fn m_guess(c: Toks, s: Seq<Toks>) -> Seq<Toks>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { m_guess(c, s.drop_last()) + q3(q_from_iter(c, s.last()), q_new(c, s.last()), q_from(c, s.last())) } }
pub open spec fn dflt() -> Seq<Toks> { q1(Q!{ Default::default() }) }
pub open spec fn texts() -> Seq<Toks> { q2(Q!{ "" }, Q!{ "xyzzy" }) }
pub open spec fn leaks(s: Seq<Toks>) -> Seq<Toks> { q1(Q!{ Vec::leak(Vec::new()) }) + m_leak(s) }
pub open spec fn is_path(t: Type, s: Seq<char>) -> bool { match t { Type::Path(p) => p.path.is(s), _ => false } }
/// the values tried instead of a body whose type is t
pub open spec fn reps(t: Type, e: Seq<Expr>) -> Seq<Toks>
    decreases t via reps_dec
{
    match t {
        Type::Path(tp) => {
            let p = tp.path;
            if p.is("bool"@) { q2(Q!{ true }, Q!{ false }) }
            else if p.is("String"@) { q2(Q!{ String::new() }, Q!{ "xyzzy".into() }) }
            else if p.is("str"@) { texts() }
            else if unsigned(p) { q2(Q!{ 0 }, Q!{ 1 }) }
            else if signed(p) { q3(Q!{ 0 }, Q!{ 1 }, Q!{ -1 }) }
            else if nonzero_signed(p) { q2(Q!{ 1 }, Q!{ -1 }) }
            else if nonzero_unsigned(p) { q1(Q!{ 1 }) }
            else if float(p) { q3(Q!{ 0.0 }, Q!{ 1.0 }, Q!{ -1.0 }) }
            else if p.ends("Result"@) { (if let Some(x) = arg_of(p, "Result"@) { m_ok(reps(x, e)) } else { q1(Q!{ Ok(Default::default()) }) }) + s_errs(e) }
            else if p.ends("HttpResponse"@) { q1(Q!{ HttpResponse::Ok().finish() }) }
            else if let Some(x) = arg_of(p, "Option"@) { q1(Q!{ None }) + m_some(reps(x, e)) }
            else if let Some(x) = arg_of(p, "Vec"@) { q1(Q!{ vec![] }) + m_vec(reps(x, e)) }
            else if let Some(x) = arg_of(p, "Cow"@) { m_cow(reps(x, e)) }
            else if is_container(p) && single(p).is_some() { m_new(name(p), reps(single(p).unwrap(), e)) }
            else if is_collection(p) && single(p).is_some() { q1(q_empty(name(p))) + m_from_iter(name(p), reps(single(p).unwrap(), e)) }
            else if is_map(p) && two(p).is_some() { q1(q_empty(name(p))) + m_pair(name(p), cross(reps(two(p).unwrap().0, e), reps(two(p).unwrap().1, e))) }
            else if let Some(x) = only_type(p) { q1(q_empty(name(p))) + m_guess(name(p), reps(x, e)) }
            else { dflt() }
        }
        Type::Array(a) => m_array(a.len, reps(*a.elem, e)),
        Type::Slice(s) => leaks(reps(*s.elem, e)),
        Type::Reference(r) => if r.mutability is None && is_path(*r.elem, "str"@) { texts() }
            else { match *r.elem { Type::Slice(s) => leaks(reps(*s.elem, e)), _ => if r.mutability is None { m_ref(reps(*r.elem, e)) } else { m_bleak(reps(*r.elem, e)) } } },
        Type::Tuple(u) => m_tuple(product(Seq::new(u.elems@.len(), |i: int| if 0 <= i < u.elems@.len() { reps(u.elems@[i], e) } else { Seq::empty() }))),
        Type::ImplTrait(i) => if let Some(x) = first_item(i.bounds@) { q1(Q!{ ::std::iter::empty() }) + m_iter(reps(x, e)) } else { Seq::empty() },
        Type::Never(_) => Seq::empty(),
        Type::Other(_) => dflt(),
    }
}
pub open spec fn name(p: Path) -> Toks { tk(p.segments@.last().ident@) }
pub open spec fn ret_reps(r: ReturnType, e: Seq<Expr>) -> Seq<Toks> { match r { ReturnType::Default => q1(Q!{ () }), ReturnType::Type(_, t) => reps(*t, e) } }
// ---- the parts of a type are smaller than the type ----
pub proof fn d_arg(p: Path, i: int)
    requires targs(p).is_some(), 0 <= i < targs(p).unwrap().len(),
    ensures decreases_to!(p => targs(p).unwrap()[i])
{ let s = p.segments; assert(decreases_to!(s => s[s.len() - 1])); let l = s@.last(); match l.arguments { PathArguments::AngleBracketed(a) => { assert(decreases_to!(a.args => a.args[i])); assert(decreases_to!(l => a)); assert(decreases_to!(p => l)); }, _ => {} } }
pub proof fn d_first(a: Seq<GenericArgument>) -> (i: int)
    requires first_type(a).is_some(),
    ensures 0 <= i < a.len(), a[i] == GenericArgument::Type(first_type(a).unwrap())
    decreases a.len()
{ match a[0] { GenericArgument::Lifetime(_) => d_first(a.drop_first()) + 1, _ => 0 } }
pub proof fn d_types(a: Seq<GenericArgument>, j: int) -> (i: int)
    requires 0 <= j < types(a).len(),
    ensures 0 <= i < a.len(), a[i] == GenericArgument::Type(types(a)[j])
    decreases a.len()
{ match a.last() { GenericArgument::Type(t) => if j == types(a).len() - 1 { a.len() - 1 } else { d_types(a.drop_last(), j) }, _ => d_types(a.drop_last(), j) } }
pub proof fn d_item(b: Seq<TypeParamBound>) -> (i: int)
    requires first_item(b).is_some(),
    ensures 0 <= i < b.len(), item_of(b[i]) == first_item(b), first_item(b).is_some()
    decreases b.len()
{ if item_of(b[0]).is_some() { 0 } else { d_item(b.drop_first()) + 1 } }
pub proof fn d_gen(g: GenericArgument)
    requires g is Type,
    ensures decreases_to!(g => g->Type_0)
{ match g { GenericArgument::Type(x) => { assert(decreases_to!(g => x)); }, _ => {} } }
pub proof fn d_arg_of(p: Path, n: Seq<char>)
    requires arg_of(p, n).is_some(),
    ensures decreases_to!(p => arg_of(p, n).unwrap())
{ let i = d_first(targs(p).unwrap()); d_arg(p, i); d_gen(targs(p).unwrap()[i]); }
#[via_fn]
proof fn reps_dec(t: Type, e: Seq<Expr>) {
    match t {
        Type::Path(tp) => { let p = tp.path; assert(decreases_to!(t => tp)); assert(decreases_to!(t => p));
            if arg_of(p, "Result"@).is_some() { d_arg_of(p, "Result"@); } if arg_of(p, "Option"@).is_some() { d_arg_of(p, "Option"@); } if arg_of(p, "Vec"@).is_some() { d_arg_of(p, "Vec"@); } if arg_of(p, "Cow"@).is_some() { d_arg_of(p, "Cow"@); }
            if single(p).is_some() { d_arg(p, 0); assert(decreases_to!(targs(p).unwrap()[0] => single(p).unwrap())); }
            if two(p).is_some() { d_arg(p, 0); d_arg(p, 1); assert(decreases_to!(targs(p).unwrap()[0] => two(p).unwrap().0)); assert(decreases_to!(targs(p).unwrap()[1] => two(p).unwrap().1)); }
            if only_type(p).is_some() { let i = d_types(targs(p).unwrap(), 0); d_arg(p, i); d_gen(targs(p).unwrap()[i]); } }
        Type::Array(a) => { assert(decreases_to!(t => a)); },
        Type::Slice(a) => { assert(decreases_to!(t => a)); },
        Type::Reference(r) => { assert(decreases_to!(t => r)); match *r.elem { Type::Slice(s) => { assert(decreases_to!(*r.elem => s)); assert(decreases_to!(r => *r.elem)); assert(decreases_to!(s => *s.elem)); }, _ => {} } },
        Type::Tuple(u) => { assert(decreases_to!(t => u)); assert forall|i: int| 0 <= i < u.elems@.len() implies decreases_to!(u => #[trigger] u.elems@[i]) by { assert(decreases_to!(u.elems => u.elems[i])); } },
        Type::ImplTrait(x) => { if first_item(x.bounds@).is_some() { let i = d_item(x.bounds@); let b = x.bounds@[i]; assert(decreases_to!(x.bounds => x.bounds[i])); assert(decreases_to!(x => b)); assert(decreases_to!(t => x));
            match b { TypeParamBound::Trait(tb) => { d_arg(tb.path, 0); assert(decreases_to!(b => tb.path)); match targs(tb.path).unwrap()[0] { GenericArgument::AssocType(a) => { assert(decreases_to!(targs(tb.path).unwrap()[0] => a)); assert(decreases_to!(a => a.ty)); }, _ => {} } }, _ => {} } } },
        _ => {}
    }
}
// ---- the code ----
//%fn fnvalue.rs path_ends_with
//%optmatch
//%spec
    ensures r == path.ends(ident@),
//%end
//%fn fnvalue.rs match_impl_iterator
//%attr #[verifier::loop_isolation(false)]
//%loop 0 it it
//%loop 0
    invariant 0 <= it.index@ <= it.snapshot@.remaining().len(), it.snapshot@.remaining() == refs(bounds@), first_item(bounds@) == first_item(bounds@.skip(it.index@)),
//%loop 0 before
    proof { assert(bounds@.skip(0) =~= bounds@); }
//%loop 0 start
    proof { assert(bounds@.skip(it.index@)[0] == bounds@[it.index@]); assert(bounds@.skip(it.index@).drop_first() =~= bounds@.skip(it.index@ + 1)); }
//%spec
    ensures match r { Some(x) => first_item(__p0.bounds@) == Some(*x), None => first_item(__p0.bounds@).is_none() },
//%end
//%fn fnvalue.rs known_container
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == (last.ident@ == (*$0)@)
//%spec
    ensures match r { Some(x) => is_container(*path) && single(*path) == Some(*x.1) && name(*path) == tk(x.0@), None => !is_container(*path) || single(*path).is_none() },
//%end
//%fn fnvalue.rs known_collection
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == (last.ident@ == (*$0)@)
//%spec
    ensures match r { Some(x) => is_collection(*path) && single(*path) == Some(*x.1) && name(*path) == tk(x.0@), None => !is_collection(*path) || single(*path).is_none() },
//%end
//%fn fnvalue.rs known_map
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == (last.ident@ == (*$0)@)
//%spec
    ensures match r { Some(x) => is_map(*path) && two(*path) == Some((*x.1, *x.2)) && name(*path) == tk(x.0@), None => !is_map(*path) || two(*path).is_none() },
//%end
pub broadcast proof fn l_types(a: Seq<GenericArgument>, q: Seq<Option<&Type>>)
    requires a.len() == q.len(), forall|i: int| 0 <= i < a.len() ==> (match a[i] { GenericArgument::Type(x) => #[trigger] q[i] == Some(&x), _ => q[i].is_none() }),
    ensures #![trigger types(a), somes(q)] types(a).len() == somes(q).len(), forall|i: int| 0 <= i < types(a).len() ==> *#[trigger] somes(q)[i] == types(a)[i]
    decreases a.len()
{ if a.len() > 0 { l_types(a.drop_last(), q.drop_last()); } }
//%fn fnvalue.rs maybe_collection_or_container
//%entry
    broadcast use l_types;
//%closure 0
    |$0: &GenericArgument| -> (o: Option<&Type>) ensures match *$0 { GenericArgument::Type(x) => o == Some(&x), _ => o.is_none() }
//%spec
    ensures match r { Some(x) => only_type(*path) == Some(*x.1) && name(*path) == tk(x.0@), None => only_type(*path).is_none() },
//%end
//%fn fnvalue.rs path_is_float
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == path.is((*$0)@)
//%spec
    ensures r == float(*path),
//%end
//%fn fnvalue.rs path_is_unsigned
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == path.is((*$0)@)
//%spec
    ensures r == unsigned(*path),
//%end
//%fn fnvalue.rs path_is_signed
//%closure 0
    |$0: &&str| -> (b: bool) ensures b == path.is((*$0)@)
//%spec
    ensures r == signed(*path),
//%end
// a string slice is determined by its characters (assumed; patterns compare slices as values)
#[verifier::external_body]
pub broadcast proof fn ax_str(a: &str, b: &str) requires a@ == b@, ensures #![trigger a@, b@] a == b {}
//%fn fnvalue.rs path_is_nonzero_signed
//%entry
    broadcast use ax_str;
//%closure 0
    |$0: &PathSegment| -> (o: String) ensures o@ == $0.ident@
//%spec
    ensures r == nonzero_signed(*path),
//%end
//%fn fnvalue.rs path_is_nonzero_unsigned
//%entry
    broadcast use ax_str;
//%closure 0
    |$0: &PathSegment| -> (o: String) ensures o@ == $0.ident@
//%spec
    ensures r == nonzero_unsigned(*path),
//%end
//%fn fnvalue.rs match_first_type_arg
//%attr #[verifier::loop_isolation(false)]
//%loop 0 it it
//%loop 0
    invariant 0 <= it.index@ <= it.snapshot@.remaining().len(), it.snapshot@.remaining() == refs(args@), first_type(args@) == first_type(args@.skip(it.index@)),
//%loop 0 before
    proof { assert(args@.skip(0) =~= args@); }
//%loop 0 start
    proof { assert(args@.skip(it.index@)[0] == args@[it.index@]); assert(args@.skip(it.index@).drop_first() =~= args@.skip(it.index@ + 1)); }
//%spec
    ensures match r { Some(x) => arg_of(*path, expected_ident@) == Some(*x), None => arg_of(*path, expected_ident@).is_none() },
//%end
/// how the table is split into cases for the proof
pub open spec fn group(p: Path) -> int {
    if p.is("bool"@) || p.is("String"@) || p.is("str"@) || unsigned(p) || signed(p) || nonzero_signed(p) || nonzero_unsigned(p) || float(p) { 0 }
    else if p.ends("Result"@) { 1 } else if p.ends("HttpResponse"@) || arg_of(p, "Option"@).is_some() || arg_of(p, "Vec"@).is_some() { 2 }
    else if arg_of(p, "Cow"@).is_some() { 3 } else if is_container(p) && single(p).is_some() || is_collection(p) && single(p).is_some() { 4 }
    else if is_map(p) && two(p).is_some() { 5 } else { 6 } }
pub open spec fn cows(s: Seq<TokenStream>, q: Seq<[TokenStream; 2]>) -> bool { s.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i])@[0]@ == q_borrowed(s[i]@) && q[i]@[1]@ == q_owned(s[i]@) }
pub broadcast proof fn l_cow(s: Seq<TokenStream>, q: Seq<[TokenStream; 2]>)
    requires cows(s, q),
    ensures #![trigger txt(s), flat(q)] txt(flat(q)) == m_cow(txt(s))
    decreases s.len()
{ if s.len() > 0 { l_cow(s.drop_last(), q.drop_last()); assert(txt(s).drop_last() =~= txt(s.drop_last())); assert(txt(s).last() == s.last()@); }
  assert(txt(flat(q)) =~= m_cow(txt(s))); }
pub open spec fn guesses(c: Toks, s: Seq<TokenStream>, q: Seq<[TokenStream; 3]>) -> bool { s.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i])@[0]@ == q_from_iter(c, s[i]@) && q[i]@[1]@ == q_new(c, s[i]@) && q[i]@[2]@ == q_from(c, s[i]@) }
pub broadcast proof fn l_guess(c: Toks, s: Seq<TokenStream>, q: Seq<[TokenStream; 3]>)
    requires guesses(c, s, q),
    ensures #![trigger m_guess(c, txt(s)), flat(q)] txt(flat(q)) == m_guess(c, txt(s))
    decreases s.len()
{ if s.len() > 0 { l_guess(c, s.drop_last(), q.drop_last()); assert(txt(s).drop_last() =~= txt(s.drop_last())); assert(txt(s).last() == s.last()@); }
  assert(txt(flat(q)) =~= m_guess(c, txt(s))); }
pub open spec fn refs_of(a: Seq<&TokenStream>, ks: Seq<Toks>) -> bool { a.len() == ks.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == ks[i] }
pub open spec fn pairs_of(c: Seq<(&TokenStream, TokenStream)>, m: Seq<(Toks, Toks)>) -> bool { c.len() == m.len() && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).0@ == m[i].0 && c[i].1@ == m[i].1 }
pub broadcast proof fn l_cross(a: Seq<&TokenStream>, b: Seq<TokenStream>, ks: Seq<Toks>, vs: Seq<Toks>)
    requires refs_of(a, ks), txt(b) == vs,
    ensures #![trigger cross(a, b), cross(ks, vs)] pairs_of(cross(a, b), cross(ks, vs))
    decreases a.len()
{ if a.len() > 0 { assert(refs_of(a.drop_last(), ks.drop_last())); l_cross(a.drop_last(), b, ks.drop_last(), vs); } }
pub open spec fn txts(s: Seq<Seq<TokenStream>>) -> Seq<Seq<Toks>> { Seq::new(s.len(), |i: int| txt(s[i])) }
pub proof fn l_grow(p: Seq<Seq<TokenStream>>, b: Seq<TokenStream>)
    ensures txts(grow(p, b)) =~= grow(txts(p), txt(b))
    decreases p.len()
{ if p.len() > 0 { l_grow(p.drop_last(), b); assert(txts(p).drop_last() =~= txts(p.drop_last())); let g = grow(p, b); let h = grow(txts(p), txt(b)); let n = grow(p.drop_last(), b).len() as int;
    assert(txts(g).len() == h.len());
    assert forall|i: int| 0 <= i < g.len() implies txts(g)[i] =~= h[i] by { if i < n { assert(txts(grow(p.drop_last(), b))[i] == txt(g[i])); } else { assert(g[i] == p.last().push(b[i - n])); assert(h[i] == txt(p.last()).push(b[i - n]@)); } } } }
pub proof fn l_product(a: Seq<Seq<TokenStream>>)
    ensures txts(product(a)) =~= product(txts(a))
    decreases a.len()
{ if a.len() > 0 { l_product(a.drop_last()); assert(txts(a).drop_last() =~= txts(a.drop_last())); l_grow(product(a.drop_last()), a.last()); }
  else { assert(txts(product(a))[0] =~= Seq::<Toks>::empty()); } }
pub broadcast proof fn l_tuple(a: Seq<Vec<TokenStream>>, w: Seq<Seq<Toks>>)
    requires a.len() == w.len(), forall|i: int| 0 <= i < a.len() ==> txt((#[trigger] a[i])@) == w[i],
    ensures #![trigger product(views(a)), product(w)] txts(product(views(a))) == product(w)
{ assert(txts(views(a)) =~= w); l_product(views(a)); }
//%fn fnvalue.rs type_replacements
//%entry
    broadcast use l_cow, l_guess, l_cross, l_tuple;
//%attr #[verifier::exec_allows_no_decreases_clause]
//%rettype VIter<TokenStream>
//%closure 0
    |$0: &Type| -> (o: Vec<TokenStream>) ensures txt(o@) == reps(*$0, error_exprs@)
//%spec
    ensures txt(r@) =~= reps(*type_, error_exprs@),
//%case type_ is Path && group(type_->Path_0.path) == 0
//%case type_ is Path && group(type_->Path_0.path) == 1
//%case type_ is Path && group(type_->Path_0.path) == 2
//%case type_ is Path && group(type_->Path_0.path) == 3
//%case type_ is Path && group(type_->Path_0.path) == 4
//%case type_ is Path && group(type_->Path_0.path) == 5
//%case type_ is Path && group(type_->Path_0.path) == 6
//%case type_ is Array
//%case type_ is Slice
//%case type_ is Reference
//%case type_ is Tuple
//%case type_ is ImplTrait
//%case type_ is Never
//%case type_ is Other
//%end
// ---- the configured error values ----
//%type options.rs Options keep=error_values
pub trait VCtx<T>: Sized { spec fn val(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r matches Ok(v) ==> self.val() == Some(v); }
impl<T, E> VCtx<T> for core::result::Result<T, E> { open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
/// the expression a text reads as, if it reads as one (assumed: syn)
pub uninterp spec fn s_parse(t: Seq<char>) -> Option<Expr>;
#[verifier::external_body]
pub fn v_parse_str(t: &String) -> (r: Result<Expr>) ensures match r { Ok(e) => s_parse(t@) == Some(e), Err(_) => s_parse(t@).is_none() } { unimplemented!() }
//%paths syn::parse_str => v_parse_str
impl<T> VIter<Result<T>> {
    /// collect into a Result: all values, or the first error
    #[verifier::external_body]
    pub fn v_try_collect(self) -> (r: Result<Vec<T>>)
        ensures match r { Ok(v) => v@.len() == self@.len() && forall|i: int| 0 <= i < v@.len() ==> self@[i] == Ok::<T, Error>(#[trigger] v@[i]), Err(_) => exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]) is Err }
    { unimplemented!() }
}
//%fn options.rs Options::parsed_error_exprs
//%methods collect=v_try_collect
//%closure 0
    |$0: &String| -> (o: Result<Expr>) ensures match o { Ok(x) => s_parse($0@) == Some(x), Err(_) => s_parse($0@).is_none() }
//%spec
    ensures match r { Ok(v) => v@.len() == self.error_values@.len() && forall|i: int| 0 <= i < v@.len() ==> s_parse(self.error_values@[i]@) == Some(#[trigger] v@[i]),
        Err(_) => exists|i: int| 0 <= i < self.error_values@.len() && s_parse((#[trigger] self.error_values@[i])@).is_none() },
//%end
//%fn fnvalue.rs return_type_replacements
//%spec
    ensures txt(r@) =~= ret_reps(*return_type, error_exprs@),
//%end
} // verus!
fn main() {}
