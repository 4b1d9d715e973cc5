use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;
use std::sync::Arc;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
// ---- the syntax tree (assumed: syn, proc_macro2, quote) ----
#[verifier::external_body]
pub struct Ident { _p: u8 }
impl View for Ident { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> PartialEqSpecImpl<&'a str> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a str) -> bool { self@ == (*o)@ } }
impl<'a> PartialEq<&'a str> for Ident { #[verifier::external_body] fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> PartialEqSpecImpl<&'a &'b String> for Ident { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a &'b String) -> bool { self@ == (**o)@ } }
impl<'a, 'b> PartialEq<&'a &'b String> for Ident { #[verifier::external_body] fn eq(&self, o: &&'a &'b String) -> (r: bool) { unimplemented!() } }
impl Ident {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn unraw(&self) -> (r: Ident) ensures r@ == s_unraw(self@) { unimplemented!() }
}
pub uninterp spec fn s_unraw(i: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub struct TokenStream { _p: u8 }
#[verifier::external_body]
pub struct Opaque { _p: u8 }
#[verifier::external_body]
pub struct PSpan { _p: u8 }
pub struct Token {}
pub struct PathSegment { pub ident: Ident, pub plain: bool }
pub struct Path { pub segments: Vec<PathSegment>, pub rooted: bool }
impl Path {
    #[verifier::external_body]
    pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == self.s_is(s@) { unimplemented!() }
    pub open spec fn s_is(&self, s: Seq<char>) -> bool { !self.rooted && self.segments@.len() == 1 && self.segments@[0].plain && self.segments@[0].ident@ == s }
    pub open spec fn idents(&self) -> Seq<Seq<char>> { Seq::new(self.segments@.len(), |i: int| self.segments@[i].ident@) }
}
pub struct Attribute { pub meta: Meta, pub rest: Opaque }
pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
impl Meta { pub open spec fn s_path(&self) -> Path { match *self { Meta::Path(p) => p, Meta::List(l) => l.path, Meta::NameValue(v) => v.path } }
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures *r == self.s_path() { unimplemented!() } }
pub struct MetaList { pub path: Path, pub rest: Opaque }
pub struct MetaNameValue { pub path: Path, pub value: Expr }
pub struct ExprLit { pub lit: Lit }
pub enum Lit { Str(LitStr), Other(Opaque) }
#[verifier::external_body]
pub struct LitStr { _p: u8 }
impl LitStr { pub uninterp spec fn s(&self) -> Seq<char>; #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self.s() { unimplemented!() } }
impl Attribute {
    pub open spec fn s_path(&self) -> Path { self.meta.s_path() }
    /// the attribute's arguments, if they are a list of attributes
    pub uninterp spec fn s_metas(&self) -> Option<Seq<Meta>>;
    #[verifier::external_body]
    pub fn v_metas(&self) -> (r: Result<Vec<Meta>>) ensures match r { Ok(v) => self.s_metas() == Some(v@), Err(_) => self.s_metas().is_none() } { unimplemented!() }
    /// the items of the attribute's list, read one after the other, as far as they are paths separated by commas
    pub uninterp spec fn s_list(&self) -> Seq<Path>;
    /// the whole list can be read like that
    pub uninterp spec fn s_list_ok(&self) -> bool;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path) ensures *r == self.s_path() { unimplemented!() }
}
pub struct ParseNestedMeta { pub path: Path }
#[verifier::external_body]
pub struct Nested<'a> { _p: &'a u8 }
impl<'a> Nested<'a> {
    pub uninterp spec fn a(&self) -> Attribute;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn v_next_meta(&mut self) -> (r: Result<Option<ParseNestedMeta>>)
        requires 0 <= old(self).at() <= old(self).a().s_list().len(),
        ensures final(self).a() == old(self).a(), match r {
            Ok(Some(m)) => old(self).at() < old(self).a().s_list().len() && m.path == old(self).a().s_list()[old(self).at()] && final(self).at() == old(self).at() + 1,
            Ok(None) => old(self).at() == old(self).a().s_list().len() && old(self).a().s_list_ok() && final(self).at() == old(self).at(),
            Err(_) => old(self).at() == old(self).a().s_list().len() && !old(self).a().s_list_ok() && final(self).at() == old(self).at() },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_nested<'a>(a: &'a Attribute) -> (r: Nested<'a>) ensures r.a() == *a, r.at() == 0 { unimplemented!() }
pub struct Signature { pub ident: Ident, pub output: ReturnType, pub unsafety: Option<Token> }
#[verifier::external_body]
pub struct ReturnType { _p: u8 }
#[verifier::external_body]
pub struct Stmt { _p: u8 }
pub struct Block { pub stmts: Vec<Stmt> }
pub struct ExprPath { pub path: Path }
#[verifier::external_body]
pub struct OtherExpr { _p: u8 }
pub enum Expr { Path(ExprPath), Lit(ExprLit), Other(OtherExpr) }
pub struct File { pub attrs: Vec<Attribute>, pub rest: Opaque }
pub struct ItemFn { pub attrs: Vec<Attribute>, pub sig: Signature, pub block: Box<Block>, pub rest: Opaque }
pub struct ImplItemFn { pub attrs: Vec<Attribute>, pub sig: Signature, pub block: Block, pub rest: Opaque }
pub struct TraitItemFn { pub attrs: Vec<Attribute>, pub sig: Signature, pub default: Option<Block>, pub rest: Opaque }
pub struct ItemImpl { pub attrs: Vec<Attribute>, pub trait_: Option<(Option<Token>, Path, Token)>, pub self_ty: Box<Opaque>, pub rest: Opaque }
pub struct ItemTrait { pub attrs: Vec<Attribute>, pub ident: Ident, pub rest: Opaque }
pub struct ItemMod { pub attrs: Vec<Attribute>, pub ident: Ident, pub content: Option<Opaque>, pub rest: Opaque }
pub struct ExprCall { pub attrs: Vec<Attribute>, pub func: Box<Expr>, pub rest: Opaque }
pub struct ExprMethodCall { pub attrs: Vec<Attribute>, pub method: Ident, pub rest: Opaque }
pub struct ExprBinary { pub attrs: Vec<Attribute>, pub op: BinOp, pub rest: Opaque }
pub struct ExprUnary { pub attrs: Vec<Attribute>, pub op: UnOp, pub rest: Opaque }
pub struct ExprMatch { pub attrs: Vec<Attribute>, pub arms: Vec<Arm>, pub rest: Opaque }
pub struct Arm { pub pat: Pat, pub guard: Option<(Token, Box<Expr>)>, pub rest: Opaque }
pub enum Pat { Wild(Opaque), Other(Opaque) }
#[derive(Clone, Copy)]
pub struct Tk {}
pub enum BinOp { Add(Tk), Sub(Tk), Mul(Tk), Div(Tk), Rem(Tk), And(Tk), Or(Tk), BitXor(Tk), BitAnd(Tk), BitOr(Tk), Shl(Tk), Shr(Tk), Eq(Tk), Lt(Tk), Le(Tk), Ne(Tk), Ge(Tk), Gt(Tk),
    AddAssign(Tk), SubAssign(Tk), MulAssign(Tk), DivAssign(Tk), RemAssign(Tk), BitXorAssign(Tk), BitAndAssign(Tk), BitOrAssign(Tk), ShlAssign(Tk), ShrAssign(Tk), Other(Tk) }
pub enum UnOp { Deref(Tk), Not(Tk), Neg(Tk), Other(Tk) }
pub uninterp spec fn s_pretty<T>(t: T) -> Seq<char>;
pub uninterp spec fn s_span<T>(t: T) -> Span;
pub trait ToPrettyString { spec fn pretty(&self) -> Seq<char>; fn to_pretty_string(&self) -> (r: String) ensures r@ == self.pretty(); }
impl<T> ToPrettyString for T { open spec fn pretty(&self) -> Seq<char> { s_pretty(*self) }
    #[verifier::external_body] fn to_pretty_string(&self) -> (r: String) { unimplemented!() } }
pub trait Spanned { spec fn sp(&self) -> Span; fn span(&self) -> (r: PSpan) ensures r.s() == self.sp(); }
impl<T> Spanned for T { open spec fn sp(&self) -> Span { s_span(*self) }
    #[verifier::external_body] fn span(&self) -> (r: PSpan) { unimplemented!() } }
impl PSpan {
    pub uninterp spec fn s(&self) -> Span;
    #[verifier::external_body] pub fn v_into(self) -> (r: Span) ensures r == self.s() { unimplemented!() }
    #[verifier::external_body] pub fn start(&self) -> (r: PLine) ensures r.s() == self.s().start { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: PLine) ensures r.s() == self.s().end { unimplemented!() }
}
#[verifier::external_body]
pub struct PLine { _p: u8 }
impl PLine { pub uninterp spec fn s(&self) -> LineColumn; #[verifier::external_body] pub fn v_into(self) -> (r: LineColumn) ensures r == self.s() { unimplemented!() } }
#[verifier::external_body]
pub fn v_span_from(p: PSpan) -> (r: Span) ensures r == p.s() { unimplemented!() }
//%methods into=v_into clone=v_clone
//%paths Span::from => v_span_from
//%shim proc_macro2::Span => PSpan
/// one token, or none: its text
#[verifier::external_body]
pub fn v_quote(s: &str) -> (r: TokenStream) ensures s_pretty(r) == s@ { unimplemented!() }
// ---- the code's own types ----
#[verifier::external_body]
pub struct Package { _p: u8 }
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Function
//%type mutant.rs Mutant
//%type visit.rs ModNamespace
//%type visit.rs ExternalModRef
//%type options.rs Options keep=skip_calls
//%shim 'o => 'o
//%type visit.rs DiscoveryVisitor
impl VClone for SourceFile { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for ModNamespace { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl SourceFile { #[verifier::external_body] pub fn format_source_location(&self, at: LineColumn) -> (r: String) { unimplemented!() } }
pub trait VOptCloned<T> { fn v_cloned(self) -> (r: Option<T>); }
impl<'a> VOptCloned<Arc<Function>> for Option<&'a Arc<Function>> {
    #[verifier::external_body] fn v_cloned(self) -> (r: Option<Arc<Function>>) ensures match self { Some(f) => r == Some(*f), None => r.is_none() } { unimplemented!() } }
// ---- what visiting a part of a file has to give ----
pub ghost struct GF { pub name: Seq<char>, pub ret: Seq<char>, pub span: Span }
pub ghost struct GM { pub file: SourceFile, pub function: Option<GF>, pub span: Span, pub replacement: Seq<char>, pub genre: Genre }
pub ghost struct GD { pub name: Seq<char>, pub path: Option<Seq<char>>, pub at: Span }
pub ghost struct Cx { pub ns: Seq<Seq<char>>, pub fns: Seq<GF>, pub mods: Seq<GD>, pub file: SourceFile, pub errs: Seq<Expr>, pub opts: Options }
pub open spec fn gf(f: Function) -> GF { GF { name: f.function_name@, ret: f.return_type@, span: f.span } }
pub open spec fn gm(m: Mutant) -> GM { GM { file: m.source_file, function: match m.function { Some(f) => Some(gf(*f)), None => None }, span: m.span, replacement: m.replacement@, genre: m.genre } }
pub open spec fn gd(m: ModNamespace) -> GD { GD { name: m.name@, path: match m.path_attribute { Some(p) => Some(p@), None => None }, at: m.source_location } }
pub open spec fn gms(s: Seq<Mutant>) -> Seq<GM> { Seq::new(s.len(), |i: int| gm(s[i])) }
pub open spec fn gds(s: Seq<ModNamespace>) -> Seq<GD> { Seq::new(s.len(), |i: int| gd(s[i])) }
pub open spec fn gxs(s: Seq<ExternalModRef>) -> Seq<Seq<GD>> { Seq::new(s.len(), |i: int| gds(s[i].parts@)) }
pub open spec fn gfs(s: Seq<Arc<Function>>) -> Seq<GF> { Seq::new(s.len(), |i: int| gf(*s[i])) }
pub open spec fn gss(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn l_gms(s: Seq<Mutant>, x: Mutant) ensures #[trigger] gms(s.push(x)) == gms(s).push(gm(x)) { assert(gms(s.push(x)) =~= gms(s).push(gm(x))); }
pub broadcast proof fn l_gds(s: Seq<ModNamespace>, x: ModNamespace) ensures #[trigger] gds(s.push(x)) == gds(s).push(gd(x)) { assert(gds(s.push(x)) =~= gds(s).push(gd(x))); }
pub broadcast proof fn l_gxs(s: Seq<ExternalModRef>, x: ExternalModRef) ensures #[trigger] gxs(s.push(x)) == gxs(s).push(gds(x.parts@)) { assert(gxs(s.push(x)) =~= gxs(s).push(gds(x.parts@))); }
pub broadcast proof fn l_gfs(s: Seq<Arc<Function>>, x: Arc<Function>) ensures #[trigger] gfs(s.push(x)) == gfs(s).push(gf(*x)) { assert(gfs(s.push(x)) =~= gfs(s).push(gf(*x))); }
pub broadcast proof fn l_gss(s: Seq<String>, x: String) ensures #[trigger] gss(s.push(x)) == gss(s).push(x@) { assert(gss(s.push(x)) =~= gss(s).push(x@)); }
pub broadcast proof fn l_dms(s: Seq<ModNamespace>, k: int) requires 0 <= k <= s.len(), ensures #[trigger] gds(s.subrange(0, k)) == gds(s).subrange(0, k) { assert(gds(s.subrange(0, k)) =~= gds(s).subrange(0, k)); }
pub broadcast proof fn l_dfs(s: Seq<Arc<Function>>, k: int) requires 0 <= k <= s.len(), ensures #[trigger] gfs(s.subrange(0, k)) == gfs(s).subrange(0, k) { assert(gfs(s.subrange(0, k)) =~= gfs(s).subrange(0, k)); }
pub broadcast proof fn l_dss(s: Seq<String>, k: int) requires 0 <= k <= s.len(), ensures #[trigger] gss(s.subrange(0, k)) == gss(s).subrange(0, k) { assert(gss(s.subrange(0, k)) =~= gss(s).subrange(0, k)); }
pub broadcast proof fn l_lms(s: Seq<ModNamespace>) ensures (#[trigger] gds(s)).len() == s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> gds(s)[i] == gd(s[i]) {}
pub broadcast proof fn l_lfs(s: Seq<Arc<Function>>) ensures (#[trigger] gfs(s)).len() == s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> gfs(s)[i] == gf(*s[i]) {}
pub broadcast proof fn l_lss(s: Seq<String>) ensures (#[trigger] gss(s)).len() == s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> gss(s)[i] == s[i]@ {}
pub broadcast proof fn l_pop<A>(s: Seq<A>, x: A) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn l_cut<A>(s: Seq<A>, x: A, k: int) requires k == s.len(), ensures #[trigger] s.push(x).subrange(0, k) == s { assert(s.push(x).subrange(0, k) =~= s); }
pub broadcast proof fn l_mid<A>(s: Seq<A>, x: A, t: Seq<A>) ensures #[trigger] (s.push(x) + t) == s + (seq![x] + t) { assert(s.push(x) + t =~= s + (seq![x] + t)); }
pub broadcast proof fn l_left<A>(s: Seq<A>) ensures #[trigger] (Seq::<A>::empty() + s) == s { assert(Seq::<A>::empty() + s =~= s); }
pub broadcast proof fn l_add<A>(s: Seq<A>, t: Seq<A>, x: A) ensures #[trigger] (s + t).push(x) == s + t.push(x) { assert((s + t).push(x) =~= s + t.push(x)); }
pub broadcast proof fn l_one<A>(s: Seq<A>, t: Seq<A>, x: A) ensures #[trigger] (s + t.push(x)) == (s + t).push(x) { assert((s + t).push(x) =~= s + t.push(x)); }
pub broadcast proof fn l_none<A>(s: Seq<A>) ensures #[trigger] (s + Seq::<A>::empty()) == s { assert(s + Seq::<A>::empty() =~= s); }
pub broadcast proof fn l_assoc<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast group gstack { l_lms, l_lfs, l_lss, l_gds, l_gfs, l_gss, l_dms, l_dfs, l_dss, l_pop, l_cut }
pub broadcast group gcat { l_gms, l_one, l_none, l_assoc }
pub broadcast group gtext { l_left, l_assoc }
pub open spec fn cx(v: DiscoveryVisitor) -> Cx { Cx { ns: gss(v.namespace_stack@), fns: gfs(v.fn_stack@), mods: gds(v.mod_namespace_stack@), file: v.source_file, errs: v.error_exprs@, opts: *v.options } }
/// the parts of a file that have a method of their own
pub ghost enum Nd { File(File), Fn(ItemFn), ImplFn(ImplItemFn), TraitFn(TraitItemFn), Impl(ItemImpl), Trait(ItemTrait), Mod(ItemMod), Call(ExprCall), Method(ExprMethodCall), Binary(ExprBinary), Unary(ExprUnary), Match(ExprMatch) }
/// what visiting everything inside a part gives
pub uninterp spec fn in_muts(c: Cx, n: Nd) -> Seq<GM>;
pub uninterp spec fn in_mods(c: Cx, n: Nd) -> Seq<Seq<GD>>;
pub open spec fn step(o: DiscoveryVisitor, n: DiscoveryVisitor, m: Seq<GM>, x: Seq<Seq<GD>>) -> bool { cx(n) == cx(o) && gms(n.mutants@) == gms(o.mutants@) + m && gxs(n.external_mods@) == gxs(o.external_mods@) + x }
/// the generated visitor of syn: calls the methods below for each part inside, in order (by induction on the syntax tree they keep their contracts)
pub open spec fn walked(o: DiscoveryVisitor, n: DiscoveryVisitor, nd: Nd) -> bool { step(o, n, in_muts(cx(o), nd), in_mods(cx(o), nd)) }
#[verifier::external_body] pub fn visit_file(v: &mut DiscoveryVisitor, i: &File) ensures walked(*old(v), *final(v), Nd::File(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_item_fn(v: &mut DiscoveryVisitor, i: &ItemFn) ensures walked(*old(v), *final(v), Nd::Fn(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_impl_item_fn(v: &mut DiscoveryVisitor, i: &ImplItemFn) ensures walked(*old(v), *final(v), Nd::ImplFn(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_trait_item_fn(v: &mut DiscoveryVisitor, i: &TraitItemFn) ensures walked(*old(v), *final(v), Nd::TraitFn(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_item_impl(v: &mut DiscoveryVisitor, i: &ItemImpl) ensures walked(*old(v), *final(v), Nd::Impl(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_item_trait(v: &mut DiscoveryVisitor, i: &ItemTrait) ensures walked(*old(v), *final(v), Nd::Trait(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_item_mod(v: &mut DiscoveryVisitor, i: &ItemMod) ensures walked(*old(v), *final(v), Nd::Mod(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_expr_call(v: &mut DiscoveryVisitor, i: &ExprCall) ensures walked(*old(v), *final(v), Nd::Call(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_expr_method_call(v: &mut DiscoveryVisitor, i: &ExprMethodCall) ensures walked(*old(v), *final(v), Nd::Method(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_expr_binary(v: &mut DiscoveryVisitor, i: &ExprBinary) ensures walked(*old(v), *final(v), Nd::Binary(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_expr_unary(v: &mut DiscoveryVisitor, i: &ExprUnary) ensures walked(*old(v), *final(v), Nd::Unary(*i)) { unimplemented!() }
#[verifier::external_body] pub fn visit_expr_match(v: &mut DiscoveryVisitor, i: &ExprMatch) ensures walked(*old(v), *final(v), Nd::Match(*i)) { unimplemented!() }
// ---- C21: what is left out ----
pub open spec fn cfg_test(a: Attribute) -> bool { a.s_path().idents() == seq!["cfg"@] && a.s_list_ok() && exists|i: int| 0 <= i < a.s_list().len() && (#[trigger] a.s_list()[i]).s_is("test"@) }
pub open spec fn names_skip(p: Path) -> bool { p.idents() == seq!["mutants"@, "skip"@] }
pub open spec fn any_skip(m: Seq<Meta>) -> bool { exists|i: int| 0 <= i < m.len() && names_skip((#[trigger] m[i]).s_path()) }
pub open spec fn skip_attr(a: Attribute) -> bool { names_skip(a.s_path()) || (a.s_path().idents() == seq!["cfg_attr"@] && a.s_metas().is_some() && any_skip(a.s_metas().unwrap())) }
pub open spec fn marks(a: Attribute) -> bool { cfg_test(a) || a.s_path().s_is("test"@) || skip_attr(a) }
pub open spec fn marked(s: Seq<Attribute>) -> bool { exists|i: int| 0 <= i < s.len() && marks(#[trigger] s[i]) }
pub open spec fn ends_with(p: Path, s: Seq<char>) -> bool { p.segments@.len() > 0 && p.segments@.last().ident@ == s }
pub open spec fn skipped_name(c: Cx, n: Seq<char>) -> bool { exists|i: int| 0 <= i < c.opts.skip_calls@.len() && (#[trigger] c.opts.skip_calls@[i])@ == n }
pub open spec fn skipped_call(c: Cx, p: Path) -> bool { exists|i: int| 0 <= i < c.opts.skip_calls@.len() && ends_with(p, (#[trigger] c.opts.skip_calls@[i])@) }
pub open spec fn left_out(c: Cx, n: Nd) -> bool {
    match n {
        Nd::File(i) => marked(i.attrs@),
        Nd::Fn(i) => marked(i.attrs@) || i.sig.unsafety.is_some(),
        Nd::ImplFn(i) => marked(i.attrs@) || i.sig.unsafety.is_some() || i.sig.ident@ == "new"@,
        Nd::TraitFn(i) => marked(i.attrs@) || i.sig.unsafety.is_some() || i.sig.ident@ == "new"@,
        Nd::Impl(i) => marked(i.attrs@) || (i.trait_ matches Some(t) && ends_with(t.1, "Default"@)),
        Nd::Trait(i) => marked(i.attrs@),
        Nd::Mod(i) => marked(i.attrs@),
        Nd::Call(i) => marked(i.attrs@) || (*i.func matches Expr::Path(p) && skipped_call(c, p.path)),
        Nd::Method(i) => marked(i.attrs@) || skipped_name(c, i.method@),
        Nd::Binary(i) => marked(i.attrs@),
        Nd::Unary(i) => marked(i.attrs@),
        Nd::Match(i) => marked(i.attrs@),
    }
}
/// nothing to mutate or to follow: an empty body, a declaration without one, a mod whose path attribute is refused
pub open spec fn barren(n: Nd) -> bool {
    match n {
        Nd::Fn(i) => i.block.stmts@.len() == 0,
        Nd::ImplFn(i) => i.block.stmts@.len() == 0,
        Nd::TraitFn(i) => match i.default { Some(b) => b.stmts@.len() == 0, None => true },
        Nd::Mod(i) => s_path_attr(i.attrs@) is Err,
        _ => false,
    }
}
// ---- C22: what is generated ----
pub open spec fn table(o: BinOp) -> Seq<Seq<char>> {
    match o {
        BinOp::Eq(_) => seq!["!="@], BinOp::Ne(_) => seq!["=="@], BinOp::And(_) => seq!["||"@], BinOp::Or(_) => seq!["&&"@],
        BinOp::Lt(_) => seq!["=="@, ">"@, "<="@], BinOp::Gt(_) => seq!["=="@, "<"@, ">="@], BinOp::Le(_) => seq![">"@], BinOp::Ge(_) => seq!["<"@],
        BinOp::Add(_) => seq!["-"@, "*"@], BinOp::AddAssign(_) => seq!["-="@, "*="@],
        BinOp::Sub(_) => seq!["+"@, "/"@], BinOp::Mul(_) => seq!["+"@, "/"@], BinOp::SubAssign(_) => seq!["+="@, "/="@], BinOp::MulAssign(_) => seq!["+="@, "/="@],
        BinOp::Div(_) => seq!["%"@, "*"@], BinOp::DivAssign(_) => seq!["%="@, "*="@], BinOp::Rem(_) => seq!["/"@, "+"@], BinOp::RemAssign(_) => seq!["/="@, "+="@],
        BinOp::Shl(_) => seq![">>"@], BinOp::ShlAssign(_) => seq![">>="@], BinOp::Shr(_) => seq!["<<"@], BinOp::ShrAssign(_) => seq!["<<="@],
        BinOp::BitAnd(_) => seq!["|"@, "^"@], BinOp::BitAndAssign(_) => seq!["|="@, "^="@], BinOp::BitOr(_) => seq!["&"@, "^"@], BinOp::BitOrAssign(_) => seq!["&="@, "^="@],
        BinOp::BitXor(_) => seq!["|"@, "&"@], BinOp::BitXorAssign(_) => seq!["|="@, "&="@], BinOp::Other(_) => seq![],
    }
}
pub open spec fn op_text(o: BinOp) -> Seq<char> {
    match o {
        BinOp::Eq(_) => "=="@, BinOp::Ne(_) => "!="@, BinOp::And(_) => "&&"@, BinOp::Or(_) => "||"@, BinOp::Lt(_) => "<"@, BinOp::Gt(_) => ">"@, BinOp::Le(_) => "<="@, BinOp::Ge(_) => ">="@,
        BinOp::Add(_) => "+"@, BinOp::AddAssign(_) => "+="@, BinOp::Sub(_) => "-"@, BinOp::SubAssign(_) => "-="@, BinOp::Mul(_) => "*"@, BinOp::MulAssign(_) => "*="@, BinOp::Div(_) => "/"@, BinOp::DivAssign(_) => "/="@,
        BinOp::Rem(_) => "%"@, BinOp::RemAssign(_) => "%="@, BinOp::Shl(_) => "<<"@, BinOp::ShlAssign(_) => "<<="@, BinOp::Shr(_) => ">>"@, BinOp::ShrAssign(_) => ">>="@,
        BinOp::BitAnd(_) => "&"@, BinOp::BitAndAssign(_) => "&="@, BinOp::BitOr(_) => "|"@, BinOp::BitOrAssign(_) => "|="@, BinOp::BitXor(_) => "^"@, BinOp::BitXorAssign(_) => "^="@, BinOp::Other(_) => ""@,
    }
}
pub open spec fn made(c: Cx, span: Span, rep: Seq<char>, genre: Genre) -> GM { GM { file: c.file, function: if c.fns.len() > 0 { Some(c.fns.last()) } else { None }, span, replacement: rep, genre } }
pub open spec fn same_texts(a: Seq<TokenStream>, t: Seq<Seq<char>>) -> bool { a.len() == t.len() && forall|k: int| 0 <= k < t.len() ==> s_pretty(#[trigger] a[k]) == t[k] }
pub open spec fn some_muts(c: Cx, sp: Span, t: Seq<Seq<char>>) -> Seq<GM>
    decreases t.len()
{ if t.len() == 0 { seq![] } else { some_muts(c, sp, t.drop_last()).push(made(c, sp, t.last(), Genre::BinaryOperator)) } }
pub open spec fn bin_muts(c: Cx, i: ExprBinary) -> Seq<GM> { some_muts(c, s_span(i.op), table(i.op)) }
pub open spec fn un_muts(c: Cx, i: ExprUnary) -> Seq<GM> { match i.op { UnOp::Not(_) => seq![made(c, s_span(i.op), ""@, Genre::UnaryOperator)], UnOp::Neg(_) => seq![made(c, s_span(i.op), ""@, Genre::UnaryOperator)], _ => seq![] } }
pub open spec fn is_wild(a: Arm) -> bool { a.pat is Wild }
pub open spec fn has_wild(s: Seq<Arm>) -> bool { exists|k: int| 0 <= k < s.len() && is_wild(#[trigger] s[k]) }
pub open spec fn arm_muts(c: Cx, s: Seq<Arm>) -> Seq<GM>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if !is_wild(s.last()) && s.last().guard.is_none() { arm_muts(c, s.drop_last()).push(made(c, s_span(s.last()), ""@, Genre::MatchArm)) } else { arm_muts(c, s.drop_last()) } }
pub open spec fn guard_muts(c: Cx, s: Seq<Arm>) -> Seq<GM>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { match s.last().guard { Some(g) => guard_muts(c, s.drop_last()).push(made(c, s_span(g.1), "true"@, Genre::MatchArmGuard)).push(made(c, s_span(g.1), "false"@, Genre::MatchArmGuard)), None => guard_muts(c, s.drop_last()) } } }
pub open spec fn arm_list(c: Cx, s: Seq<&Arm>) -> Seq<GM>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { arm_list(c, s.drop_last()).push(made(c, s_span(*s.last()), ""@, Genre::MatchArm)) } }
pub open spec fn guard_list(c: Cx, s: Seq<&(Token, Box<Expr>)>) -> Seq<GM>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { guard_list(c, s.drop_last()).push(made(c, s_span(s.last().1), "true"@, Genre::MatchArmGuard)).push(made(c, s_span(s.last().1), "false"@, Genre::MatchArmGuard)) } }
pub broadcast proof fn l_arms(c: Cx, a: Seq<Arm>, s: Seq<&Arm>, k: Seq<bool>)
    requires a.len() == s.len(), k.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == a[i], forall|i: int| 0 <= i < s.len() ==> k[i] == (!is_wild(*(#[trigger] s[i])) && s[i].guard.is_none()),
    ensures #![trigger arm_list(c, select(s, k)), arm_muts(c, a)] arm_list(c, select(s, k)) == arm_muts(c, a),
    decreases s.len()
{ if s.len() > 0 { let (a1, s1, k1) = (a.drop_last(), s.drop_last(), k.drop_last());
    assert forall|i: int| 0 <= i < s1.len() implies *(#[trigger] s1[i]) == a1[i] && k1[i] == (!is_wild(*s1[i]) && s1[i].guard.is_none()) by { assert(s1[i] == s[i]); assert(a1[i] == a[i]); assert(k1[i] == k[i]); }
    l_arms(c, a1, s1, k1); assert(*s.last() == a.last()); let q = select(s1, k1); assert(q.push(s.last()).drop_last() =~= q); } }
pub broadcast proof fn l_guards(c: Cx, a: Seq<Arm>, q: Seq<&Option<(Token, Box<Expr>)>>)
    requires a.len() == q.len(), forall|i: int| 0 <= i < q.len() ==> *(#[trigger] q[i]) == a[i].guard,
    ensures #![trigger guard_list(c, somes_ref(q)), guard_muts(c, a)] guard_list(c, somes_ref(q)) == guard_muts(c, a),
    decreases q.len()
{ if q.len() > 0 { let (a1, q1) = (a.drop_last(), q.drop_last());
    assert forall|i: int| 0 <= i < q1.len() implies *(#[trigger] q1[i]) == a1[i].guard by { assert(q1[i] == q[i]); assert(a1[i] == a[i]); }
    l_guards(c, a1, q1); assert(*q.last() == a.last().guard); let r = somes_ref(q1); match *q.last() { Some(x) => { assert(r.push(&x).drop_last() =~= r); } None => {} } } }
pub open spec fn somes_ref<'a, U>(s: Seq<&'a Option<U>>) -> Seq<&'a U>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { match *s.last() { Some(x) => somes_ref(s.drop_last()).push(&x), None => somes_ref(s.drop_last()) } } }
pub trait VFlatMap<T> { spec fn fm(&self) -> Seq<T>;
    fn v_flat_map<'b, U, F: Fn(T) -> &'b Option<U>>(self, f: F) -> (r: VIter<&'b U>) where Self: Sized
        requires forall|i: int| 0 <= i < self.fm().len() ==> call_requires(f, (#[trigger] self.fm()[i],)),
        ensures exists|q: Seq<&'b Option<U>>| q.len() == self.fm().len() && (forall|i: int| 0 <= i < q.len() ==> call_ensures(f, (self.fm()[i],), #[trigger] q[i])) && r@ == #[trigger] somes_ref(q);
}
impl<T> VFlatMap<T> for VIter<T> { open spec fn fm(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_flat_map<'b, U, F: Fn(T) -> &'b Option<U>>(self, f: F) -> (r: VIter<&'b U>) { unimplemented!() } }
//%methods flat_map=v_flat_map
pub open spec fn match_muts(c: Cx, i: ExprMatch) -> Seq<GM> { (if has_wild(i.arms@) { arm_muts(c, i.arms@) } else { seq![] }) + guard_muts(c, i.arms@) }
/// the values a function's result can be replaced with (unit fnvalue)
pub uninterp spec fn s_repls(o: ReturnType, e: Seq<Expr>) -> Seq<TokenStream>;
/// the text of a block, and of a block holding just this
pub uninterp spec fn s_block_text(b: Block) -> Seq<char>;
pub uninterp spec fn s_braced(t: TokenStream) -> Seq<char>;
pub open spec fn s_body_span(b: Block) -> Span { Span { start: s_span(b.stmts@[0]).start, end: s_span(b.stmts@.last()).end } }
pub open spec fn value_muts(c: Cx, b: Block, s: Seq<TokenStream>) -> Seq<GM>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s_braced(s.last()) != s_block_text(b) { value_muts(c, b, s.drop_last()).push(made(c, s_body_span(b), s_pretty(s.last()), Genre::FnValue)) } else { value_muts(c, b, s.drop_last()) } }
pub open spec fn fn_muts(c: Cx, s: Signature, b: Block) -> Seq<GM> { value_muts(c, b, s_repls(s.output, c.errs)) }
pub uninterp spec fn s_joined(ns: Seq<Seq<char>>) -> Seq<char>;
pub open spec fn into_fn(c: Cx, s: Signature, sp: Span) -> Cx { let ns = c.ns.push(s.ident@); Cx { ns, fns: c.fns.push(GF { name: s_joined(ns), ret: s_pretty(s.output), span: sp }), ..c } }
pub open spec fn into_ns(c: Cx, n: Seq<char>) -> Cx { Cx { ns: c.ns.push(n), ..c } }
pub open spec fn impl_name(i: ItemImpl) -> Seq<char> { match i.trait_ { Some(t) => "<impl "@ + s_pretty(t.1) + " for "@ + s_pretty(i.self_ty) + ">"@, None => s_pretty(i.self_ty) } }
pub open spec fn mod_gd(i: ItemMod) -> GD { GD { name: s_unraw(i.ident@), path: s_path_attr(i.attrs@)->Ok_0, at: s_span(i) } }
pub open spec fn down(c: Cx, n: Nd) -> Cx {
    match n {
        Nd::Fn(i) => into_fn(c, i.sig, s_span(i)), Nd::ImplFn(i) => into_fn(c, i.sig, s_span(i)), Nd::TraitFn(i) => into_fn(c, i.sig, s_span(i)),
        Nd::Impl(i) => into_ns(c, impl_name(i)), Nd::Trait(i) => into_ns(c, s_pretty(i.ident)),
        Nd::Mod(i) => Cx { mods: c.mods.push(mod_gd(i)), ..into_ns(c, s_unraw(i.ident@)) },
        _ => c,
    }
}
pub open spec fn own_muts(c: Cx, n: Nd) -> Seq<GM> {
    match n {
        Nd::Fn(i) => fn_muts(down(c, n), i.sig, *i.block), Nd::ImplFn(i) => fn_muts(down(c, n), i.sig, i.block), Nd::TraitFn(i) => fn_muts(down(c, n), i.sig, i.default->Some_0),
        Nd::Binary(i) => bin_muts(c, i), Nd::Unary(i) => un_muts(c, i), Nd::Match(i) => match_muts(c, i),
        _ => seq![],
    }
}
pub open spec fn own_mods(c: Cx, n: Nd) -> Seq<Seq<GD>> { match n { Nd::Mod(i) => if i.content.is_none() { seq![down(c, n).mods] } else { seq![] }, _ => seq![] } }
pub open spec fn muts(c: Cx, n: Nd) -> Seq<GM> { if left_out(c, n) || barren(n) { seq![] } else { own_muts(c, n) + in_muts(down(c, n), n) } }
pub open spec fn mods(c: Cx, n: Nd) -> Seq<Seq<GD>> { if left_out(c, n) || barren(n) { seq![] } else { own_mods(c, n) + in_mods(down(c, n), n) } }
pub open spec fn visited(o: DiscoveryVisitor, n: DiscoveryVisitor, nd: Nd) -> bool { step(o, n, muts(cx(o), nd), mods(cx(o), nd)) }
// ---- helpers of the code ----
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn l_texts(s: Seq<&str>)
    ensures s.len() == 1 ==> #[trigger] texts(s) == seq![s[0]@], s.len() == 2 ==> texts(s) == seq![s[0]@, s[1]@]
{ if s.len() == 1 { assert(texts(s) =~= seq![s[0]@]); } if s.len() == 2 { assert(texts(s) =~= seq![s[0]@, s[1]@]); } }
#[verifier::external_body]
pub fn v_joined(s: &Vec<String>) -> (r: String) ensures r@ == s_joined(gss(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn v_arc<T>(a: &Arc<T>) -> (r: Arc<T>) ensures r == *a { unimplemented!() }
#[verifier::external_body]
pub fn v_block_text(b: &Block) -> (r: String) ensures r@ == s_block_text(*b) { unimplemented!() }
#[verifier::external_body]
pub fn v_braced(b: &TokenStream) -> (r: String) ensures r@ == s_braced(*b) { unimplemented!() }
#[verifier::external_body]
pub fn return_type_replacements(t: &ReturnType, e: &[Expr]) -> (r: Vec<TokenStream>) ensures r@ == s_repls(*t, e@) { unimplemented!() }
/// assert_eq! as an obligation: equal under the derived PartialEq
pub trait VSame<B> { spec fn same(&self, b: &B) -> bool; }
impl<'a> VSame<&'a str> for String { open spec fn same(&self, b: &&'a str) -> bool { self@ == (*b)@ } }
impl VSame<Option<Arc<Function>>> for Option<Arc<Function>> { open spec fn same(&self, b: &Option<Arc<Function>>) -> bool { match (*self, *b) { (Some(x), Some(y)) => gf(*x) == gf(*y), (None, None) => true, _ => false } } }
impl VSame<Option<ModNamespace>> for Option<ModNamespace> { open spec fn same(&self, b: &Option<ModNamespace>) -> bool { match (*self, *b) { (Some(x), Some(y)) => gd(x) == gd(y), (None, None) => true, _ => false } } }
impl<'a> VSame<&'a String> for String { open spec fn same(&self, b: &&'a String) -> bool { self@ == (*b)@ } }
pub fn v_assert_eq<A: VSame<B>, B>(a: A, b: B) requires a.same(&b) {}
/// the text of a path attribute, if this is one
pub open spec fn one_path(a: Attribute) -> Option<Seq<char>> { match a.meta { Meta::NameValue(m) => if m.path.s_is("path"@) { match m.value { Expr::Lit(l) => match l.lit { Lit::Str(t) => Some(t.s()), _ => None }, _ => None } } else { None }, _ => None } }
/// the first one, refused when absolute
pub open spec fn s_path_attr(a: Seq<Attribute>) -> core::result::Result<Option<Seq<char>>, Seq<char>>
    decreases a.len()
{ if a.len() == 0 { Ok(None) } else { match one_path(a[0]) { Some(p) => if p.len() > 0 && p[0] == '/' { Err(p) } else { Ok(Some(p)) }, None => s_path_attr(a.skip(1)) } } }
pub open spec fn path_answer(r: core::result::Result<Utf8PathBuf, String>) -> core::result::Result<Option<Seq<char>>, Seq<char>> { match r { Ok(p) => Ok(Some(p@)), Err(e) => Err(e@) } }
pub open spec fn no_path(a: Seq<Attribute>, i: int) -> bool { forall|j: int| 0 <= j < i ==> one_path(#[trigger] a[j]).is_none() }
pub broadcast proof fn l_first(a: Seq<Attribute>, i: int)
    requires 0 <= i < a.len(), no_path(a, i), one_path(a[i]).is_some(),
    ensures #![trigger s_path_attr(a), s_path_attr(seq![a[i]])] s_path_attr(a) == s_path_attr(seq![a[i]]),
    decreases i
{ if i > 0 { assert(one_path(a[0]).is_none()); assert forall|j: int| 0 <= j < i - 1 implies one_path(#[trigger] a.skip(1)[j]).is_none() by { assert(a.skip(1)[j] == a[j + 1]); } l_first(a.skip(1), i - 1); assert(a.skip(1)[i - 1] == a[i]); } }
pub broadcast proof fn l_nopath(a: Seq<Attribute>)
    requires no_path(a, a.len() as int),
    ensures #[trigger] s_path_attr(a) == core::result::Result::<Option<Seq<char>>, Seq<char>>::Ok(None),
    decreases a.len()
{ if a.len() > 0 { assert(one_path(a[0]).is_none()); assert forall|j: int| 0 <= j < a.skip(1).len() implies one_path(#[trigger] a.skip(1)[j]).is_none() by { assert(a.skip(1)[j] == a[j + 1]); } l_nopath(a.skip(1)); } }
pub trait VFindMap<T> { spec fn fitems(&self) -> Seq<T>;
    fn v_find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>) where Self: Sized
        requires forall|i: int| 0 <= i < self.fitems().len() ==> call_requires(f, (#[trigger] self.fitems()[i],)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self.fitems().len() && call_ensures(f, (#[trigger] self.fitems()[i],), Some(x)) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self.fitems()[j],), None),
            None => forall|i: int| 0 <= i < self.fitems().len() ==> call_ensures(f, (#[trigger] self.fitems()[i],), None) };
}
impl<T> VFindMap<T> for VIter<T> { open spec fn fitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() } }
pub trait VTranspose<T, E> { spec fn oor(self) -> Option<core::result::Result<T, E>>; fn v_transpose(self) -> (r: core::result::Result<Option<T>, E>) where Self: Sized ensures r == (match self.oor() { Some(Ok(x)) => Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }); }
impl<T, E> VTranspose<T, E> for Option<core::result::Result<T, E>> { open spec fn oor(self) -> Option<core::result::Result<T, E>> { self }
    fn v_transpose(self) -> (r: core::result::Result<Option<T>, E>) { match self { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } } }
pub trait VStarts { fn v_starts_with(&self, c: char) -> (r: bool); }
impl VStarts for String { #[verifier::external_body] fn v_starts_with(&self, c: char) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] == c) { unimplemented!() } }
#[verifier::external_body]
pub fn v_path_from(s: String) -> (r: Utf8PathBuf) ensures r@ == s@ { unimplemented!() }
//%methods find_map=v_find_map transpose=v_transpose starts_with=v_starts_with
//%paths Utf8PathBuf::from => v_path_from
//%fn visit.rs find_path_attribute
//%closure 0
    |attr: &Attribute| -> (o: Option<core::result::Result<Utf8PathBuf, String>>) ensures match o { Some(x) => one_path(*attr).is_some() && path_answer(x) == s_path_attr(seq![*attr]), None => one_path(*attr).is_none() }
//%spec
    ensures match r { Ok(Some(p)) => s_path_attr(attrs@) == core::result::Result::<Option<Seq<char>>, Seq<char>>::Ok(Some(p@)), Ok(None) => s_path_attr(attrs@) == core::result::Result::<Option<Seq<char>>, Seq<char>>::Ok(None), Err(e) => s_path_attr(attrs@) == core::result::Result::<Option<Seq<char>>, Seq<char>>::Err(e@) },
//%entry
    broadcast use l_first, l_nopath;
//%end
//%if C21,C22,C25,C27
//%fn visit.rs path_is
//%opaque 1 `path.segments.iter().map(|ps| &ps.ident).eq(idents.iter())` => `v_same_idents(path, idents)`
//%spec
    ensures r == (path.idents() == texts(idents@)),
//%end
#[verifier::external_body]
pub fn v_same_idents(p: &Path, s: &[&str]) -> (r: bool) ensures r == (p.idents() == texts(s@)) { unimplemented!() }
//%fn visit.rs path_ends_with
//%optmatch
//%spec
    ensures r == ends_with(*path, ident@),
//%end
//%fn visit.rs fn_sig_excluded
//%spec
    ensures r == sig.unsafety.is_some(),
//%end
//%fn visit.rs block_is_empty
//%spec
    ensures r == (block.stmts@.len() == 0),
//%end
//%fn visit.rs attr_is_test
//%spec
    ensures r == attr.s_path().s_is("test"@),
//%end
//%fn visit.rs attr_is_cfg_test
//%attr #[verifier::exec_allows_no_decreases_clause]
//%spec
    ensures r == cfg_test(*attr),
//%entry
    broadcast use l_texts;
//%loop 0
    invariant_except_break nested_r is Ok,
    invariant nested.a() == *attr, 0 <= nested.at() <= attr.s_list().len(), contains_test == (exists|i: int| 0 <= i < nested.at() && (#[trigger] attr.s_list()[i]).s_is("test"@)),
    ensures nested.at() == attr.s_list().len(), nested_r is Ok <==> attr.s_list_ok(),
//%end
//%fn visit.rs attr_is_mutants_skip
//%opaque 1 `attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)` => `attr.v_metas()`
//%closure 0
    |meta: &Meta| -> (b: bool) ensures b == names_skip(meta.s_path())
//%spec
    ensures r == skip_attr(*attr),
//%entry
    broadcast use l_texts;
//%end
//%fn visit.rs attrs_excluded
//%closure 0
    |attr: &Attribute| -> (b: bool) ensures b == marks(*attr)
//%spec
    ensures r == marked(attrs@),
//%end
//%endif
//%if C24
#[verifier::external_body]
/// C21
pub fn attrs_excluded(attrs: &[Attribute]) -> (r: bool) ensures r == marked(attrs@) { unimplemented!() }
//%endif
/// what changes in the visitor
pub open spec fn moved(o: DiscoveryVisitor, n: DiscoveryVisitor, c: Cx) -> bool { cx(n) == c && n.mutants@ == o.mutants@ && n.external_mods@ == o.external_mods@ }
//%if C21,C22,C25,C27
//%fn visit.rs DiscoveryVisitor::enter_function
//%opaque 1 `self.namespace_stack.join("::")` => `v_joined(&self.namespace_stack)`
//%opaque 1 `Arc::clone(&function)` => `v_arc(&function)`
//%spec
    ensures moved(*old(self), *final(self), Cx { ns: cx(*old(self)).ns.push(function_name@), fns: cx(*old(self)).fns.push(gf(*r)), ..cx(*old(self)) }),
        gf(*r) == (GF { name: s_joined(cx(*old(self)).ns.push(function_name@)), ret: s_pretty(*return_type), span: span.s() }),
//%entry
    broadcast use gstack;
//%end
//%fn visit.rs DiscoveryVisitor::leave_function
//%asserts veq
//%spec
    requires cx(*old(self)).ns.len() > 0, cx(*old(self)).fns.len() > 0, cx(*old(self)).fns.last() == gf(*function),
    ensures moved(*old(self), *final(self), Cx { ns: cx(*old(self)).ns.drop_last(), fns: cx(*old(self)).fns.drop_last(), ..cx(*old(self)) }),
//%entry
    broadcast use gstack;
//%end
//%fn visit.rs DiscoveryVisitor::collect_mutant
//%spec
    ensures step(*old(self), *final(self), seq![made(cx(*old(self)), span, s_pretty(*replacement), genre)], seq![]),
//%entry
    broadcast use gcat, l_lfs;
//%end
//%endif
//%if C22,C25
//%fn visit.rs function_body_span
//%spec
    ensures match r { Some(s) => block.stmts@.len() > 0 && s == s_body_span(*block), None => block.stmts@.len() == 0 },
//%end
//%fn visit.rs DiscoveryVisitor::collect_fn_mutants
//%attr #[verifier::exec_allows_no_decreases_clause]
//%opaque 1 `block.to_token_stream().to_pretty_string()` => `v_block_text(block)`
//%opaque 1 `quote!( { #rep } ).to_token_stream().to_pretty_string()` => `v_braced(&rep)`
//%spec
    requires cx(*old(self)).fns.len() > 0, block.stmts@.len() > 0,
    ensures step(*old(self), *final(self), fn_muts(cx(*old(self)), *sig, *block), seq![]),
//%entry
    broadcast use gcat, l_lfs;
//%loop 0 before
    let ghost repls0 = repls@;
    assert(repls0.take(0) =~= seq![]);
//%loop 0 it it
//%loop 0 vfor
//%loop 0
    invariant 0 <= it.pos() <= it.all().len(), it.all() == repls0, cx(*self) == cx(*old(self)), orig_block@ == s_block_text(*block), body_span == s_body_span(*block),
        gms(self.mutants@) == gms(old(self).mutants@) + value_muts(cx(*old(self)), *block, repls0.take(it.pos())), gxs(self.external_mods@) == gxs(old(self).external_mods@),
    ensures it.pos() == it.all().len(),
//%loop 0 start
    broadcast use gcat, l_lfs;
    assert(repls0.take(it.pos()).drop_last() =~= repls0.take(it.pos() - 1));
//%loop 0 after
    assert(repls0.take(repls0.len() as int) =~= repls0);
//%end
//%endif
//%if C21,C27
impl<'o> DiscoveryVisitor<'o> {
    /// C22
    #[verifier::external_body]
    pub fn collect_fn_mutants(&mut self, sig: &Signature, block: &Block)
        requires cx(*old(self)).fns.len() > 0, block.stmts@.len() > 0,
        ensures step(*old(self), *final(self), fn_muts(cx(*old(self)), *sig, *block), seq![]) { unimplemented!() }
}
//%endif
//%inline in_namespace
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_file
//%spec
    ensures visited(*old(self), *final(self), Nd::File(*i)),
//%entry
    broadcast use l_none, l_left;
//%end
//%if C21,C22,C25,C27
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_item_fn
//%spec
    ensures visited(*old(self), *final(self), Nd::Fn(*i)),
//%entry
    broadcast use gstack, l_none, l_left, l_assoc;
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_impl_item_fn
//%spec
    ensures visited(*old(self), *final(self), Nd::ImplFn(*i)),
//%entry
    broadcast use gstack, l_none, l_left, l_assoc;
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_trait_item_fn
//%spec
    ensures visited(*old(self), *final(self), Nd::TraitFn(*i)),
//%entry
    broadcast use gstack, l_none, l_left, l_assoc;
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_item_impl
//%asserts veq
//%spec
    ensures visited(*old(self), *final(self), Nd::Impl(*i)),
//%entry
    broadcast use gstack, l_none, l_left, l_assoc;
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_item_trait
//%asserts veq
//%spec
    ensures visited(*old(self), *final(self), Nd::Trait(*i)),
//%entry
    broadcast use gstack, l_none, l_left;
//%end
//%endif
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_item_mod
//%asserts veq
//%spec
    ensures visited(*old(self), *final(self), Nd::Mod(*node)),
//%entry
    broadcast use gstack, l_none, l_left, l_gxs, l_mid;
//%end
//%if C21,C22,C25,C27
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_expr_call
//%closure 0
    |s: &&String| -> (b: bool) ensures b == ends_with(*path, s@)
//%spec
    ensures visited(*old(self), *final(self), Nd::Call(*i)),
//%entry
    broadcast use l_none, l_left;
    assert(cx(*old(self)).opts == *self.options);
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_expr_method_call
//%closure 0
    |s: &&String| -> (b: bool) ensures b == (i.method@ == s@)
//%spec
    ensures visited(*old(self), *final(self), Nd::Method(*i)),
//%entry
    broadcast use l_none, l_left;
    assert(cx(*old(self)).opts == *self.options);
//%end
//%endif
//%if C21,C27
pub broadcast proof fn l_trans(a: DiscoveryVisitor, b: DiscoveryVisitor, c: DiscoveryVisitor, x: Seq<GM>, y: Seq<GM>, u: Seq<Seq<GD>>, v: Seq<Seq<GD>>)
    requires #[trigger] step(a, b, x, u), #[trigger] step(b, c, y, v),
    ensures step(a, c, x + y, u + v),
{ assert(gms(a.mutants@) + (x + y) =~= gms(a.mutants@) + x + y); assert(gxs(a.external_mods@) + (u + v) =~= gxs(a.external_mods@) + u + v); }
/// some mutants collected, nothing else changed
pub open spec fn grown(o: DiscoveryVisitor, n: DiscoveryVisitor) -> bool { exists|x: Seq<GM>| #[trigger] step(o, n, x, seq![]) }
pub open spec fn one_more(o: DiscoveryVisitor, n: DiscoveryVisitor) -> bool { exists|m: GM| #[trigger] step(o, n, seq![m], seq![]) }
pub proof fn l_same(o: DiscoveryVisitor) ensures grown(o, o) { assert(gms(o.mutants@) + Seq::<GM>::empty() =~= gms(o.mutants@)); assert(gxs(o.external_mods@) + Seq::<Seq<GD>>::empty() =~= gxs(o.external_mods@)); assert(step(o, o, seq![], seq![])); }
pub broadcast proof fn l_grown(a: DiscoveryVisitor, b: DiscoveryVisitor, c: DiscoveryVisitor, y: Seq<GM>)
    requires #[trigger] grown(a, b), #[trigger] step(b, c, y, seq![]),
    ensures grown(a, c),
{ let x = choose|x: Seq<GM>| #[trigger] step(a, b, x, seq![]); l_trans(a, b, c, x, y, seq![], seq![]); assert(Seq::<Seq<GD>>::empty() + Seq::<Seq<GD>>::empty() =~= Seq::<Seq<GD>>::empty()); assert(step(a, c, x + y, seq![])); }
/// left out: nothing; otherwise whatever the expression itself gives, then everything inside it
pub open spec fn passed(o: DiscoveryVisitor, n: DiscoveryVisitor, nd: Nd) -> bool { if left_out(cx(o), nd) { step(o, n, seq![], seq![]) } else { exists|x: Seq<GM>| #[trigger] step(o, n, x + in_muts(cx(o), nd), in_mods(cx(o), nd)) } }
pub broadcast proof fn l_passed(a: DiscoveryVisitor, b: DiscoveryVisitor, c: DiscoveryVisitor, nd: Nd)
    requires #[trigger] grown(a, b), #[trigger] walked(b, c, nd), !left_out(cx(a), nd),
    ensures passed(a, c, nd),
{ let x = choose|x: Seq<GM>| #[trigger] step(a, b, x, seq![]); let m = in_muts(cx(a), nd); let d = in_mods(cx(a), nd); l_trans(a, b, c, x, m, seq![], d); assert(Seq::<Seq<GD>>::empty() + d =~= d); assert(step(a, c, x + m, d)); }
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_expr_binary
//%attr #[verifier::exec_allows_no_decreases_clause]
//%spec
    ensures passed(*old(self), *final(self), Nd::Binary(*i)),
//%entry
    broadcast use l_none, l_grown, l_passed;
    proof { l_same(*old(self)); }
//%loop 0 it it0
//%loop 0 vfor
//%loop 0
    invariant grown(*old(self), *self),
//%loop 0 start
    broadcast use l_grown;
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_expr_unary
//%attr #[verifier::exec_allows_no_decreases_clause]
//%spec
    ensures passed(*old(self), *final(self), Nd::Unary(*i)),
//%entry
    broadcast use l_none, l_grown, l_passed;
    proof { l_same(*old(self)); }
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_expr_match
//%attr #[verifier::exec_allows_no_decreases_clause]
//%closure 0
    |arm: &Arm| -> (b: bool)
//%closure 1
    |arm: &&Arm| -> (b: bool)
//%closure 2
    |arm: &Arm| -> (b: &Option<(Token, Box<Expr>)>)
//%spec
    ensures passed(*old(self), *final(self), Nd::Match(*i)),
//%entry
    broadcast use l_none, l_grown, l_passed;
    proof { l_same(*old(self)); }
//%loop 0 it it0
//%loop 0 vfor
//%loop 0
    invariant grown(*old(self), *self),
//%loop 0 start
    broadcast use l_grown;
//%loop 1 it it1
//%loop 1 vfor
//%loop 1
    invariant grown(*old(self), *self),
//%loop 1 start
    broadcast use l_grown;
//%end
//%endif
//%if C22,C25
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_expr_binary
//%attr #[verifier::exec_allows_no_decreases_clause]
//%spec
    ensures visited(*old(self), *final(self), Nd::Binary(*i)),
//%entry
    broadcast use l_none;
//%loop 0 before
    let ghost reps = table(i.op);
    assert(same_texts(it.all(), reps));
//%loop 0 it it
//%loop 0 vfor
//%loop 0
    invariant 0 <= it.pos() <= it.all().len(), same_texts(it.all(), reps),
        step(*old(self), *self, some_muts(cx(*old(self)), s_span(i.op), reps.take(it.pos())), seq![]), reps == table(i.op),
    ensures it.pos() == it.all().len(),
//%loop 0 start
    broadcast use gcat, l_left;
    assert(reps.take(it.pos()).drop_last() =~= reps.take(it.pos() - 1));
//%loop 0 after
    broadcast use l_left, l_assoc;
    assert(reps.take(reps.len() as int) =~= reps);
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_expr_unary
//%spec
    ensures visited(*old(self), *final(self), Nd::Unary(*i)),
//%entry
    broadcast use gcat, l_left;
//%end
//%fn visit.rs <DiscoveryVisitor as Visit<'ast>>::visit_expr_match
//%attr #[verifier::exec_allows_no_decreases_clause]
//%closure 0
    |arm: &Arm| -> (b: bool) ensures b == is_wild(*arm)
//%closure 1
    |arm: &&Arm| -> (b: bool) ensures b == (!is_wild(**arm) && arm.guard.is_none())
//%closure 2
    |arm: &Arm| -> (b: &Option<(Token, Box<Expr>)>) ensures *b == arm.guard
//%spec
    ensures visited(*old(self), *final(self), Nd::Match(*i)),
//%entry
    broadcast use gcat, l_left, l_arms, l_guards;
//%loop 0 before
    let ghost a0 = it.all();
    assert(arm_list(cx(*old(self)), a0) == arm_muts(cx(*old(self)), i.arms@));
//%loop 0 it it
//%loop 0 vfor
//%loop 0
    invariant 0 <= it.pos() <= it.all().len(), it.all() == a0,
        step(*old(self), *self, arm_list(cx(*old(self)), it.all().take(it.pos())), seq![]),
    ensures it.pos() == it.all().len(),
//%loop 0 start
    broadcast use gcat, l_left, l_arms, l_guards;
    assert(it.all().take(it.pos()).drop_last() =~= it.all().take(it.pos() - 1));
//%loop 0 after
    assert(it.all().take(it.all().len() as int) =~= it.all());
//%loop 1 before
    let ghost m1 = gms(self.mutants@);
    let ghost g0 = it2.all();
    assert(guard_list(cx(*old(self)), g0) == guard_muts(cx(*old(self)), i.arms@));
//%loop 1 it it2
//%loop 1 vfor
//%loop 1
    invariant 0 <= it2.pos() <= it2.all().len(), it2.all() == g0, cx(*self) == cx(*old(self)), gms(self.mutants@) == m1 + guard_list(cx(*old(self)), it2.all().take(it2.pos())), gxs(self.external_mods@) == gxs(old(self).external_mods@),
    ensures it2.pos() == it2.all().len(),
//%loop 1 start
    broadcast use gcat, l_left, l_arms, l_guards;
    assert(it2.all().take(it2.pos()).drop_last() =~= it2.all().take(it2.pos() - 1));
//%loop 1 after
    assert(it2.all().take(it2.all().len() as int) =~= it2.all());
//%end
/// C22: a replacement is never the operator it replaces, and never given twice
pub open spec fn h(s: Seq<char>) -> (int, char, char, char) { (s.len() as int, s[0], if s.len() > 1 { s[1] } else { ' ' }, if s.len() > 2 { s[2] } else { ' ' }) }
pub proof fn thm_changes(o: BinOp, j: int, k: int)
    requires 0 <= j < table(o).len(), 0 <= k < table(o).len(),
    ensures table(o)[k] != op_text(o), j != k ==> table(o)[j] != table(o)[k],
{
    reveal_strlit("!="); assert(h("!="@) == (2 as int, '!', '=', ' ')); reveal_strlit("=="); assert(h("=="@) == (2 as int, '=', '=', ' ')); reveal_strlit("||"); assert(h("||"@) == (2 as int, '|', '|', ' ')); reveal_strlit("&&"); assert(h("&&"@) == (2 as int, '&', '&', ' ')); reveal_strlit(">"); assert(h(">"@) == (1 as int, '>', ' ', ' ')); reveal_strlit("<"); assert(h("<"@) == (1 as int, '<', ' ', ' ')); reveal_strlit("<="); assert(h("<="@) == (2 as int, '<', '=', ' ')); reveal_strlit(">="); assert(h(">="@) == (2 as int, '>', '=', ' ')); reveal_strlit("-"); assert(h("-"@) == (1 as int, '-', ' ', ' ')); reveal_strlit("*"); assert(h("*"@) == (1 as int, '*', ' ', ' ')); reveal_strlit("+"); assert(h("+"@) == (1 as int, '+', ' ', ' ')); reveal_strlit("/"); assert(h("/"@) == (1 as int, '/', ' ', ' ')); reveal_strlit("%"); assert(h("%"@) == (1 as int, '%', ' ', ' ')); reveal_strlit("-="); assert(h("-="@) == (2 as int, '-', '=', ' ')); reveal_strlit("*="); assert(h("*="@) == (2 as int, '*', '=', ' ')); reveal_strlit("+="); assert(h("+="@) == (2 as int, '+', '=', ' ')); reveal_strlit("/="); assert(h("/="@) == (2 as int, '/', '=', ' ')); reveal_strlit("%="); assert(h("%="@) == (2 as int, '%', '=', ' ')); reveal_strlit(">>"); assert(h(">>"@) == (2 as int, '>', '>', ' ')); reveal_strlit("<<"); assert(h("<<"@) == (2 as int, '<', '<', ' ')); reveal_strlit(">>="); assert(h(">>="@) == (3 as int, '>', '>', '=')); reveal_strlit("<<="); assert(h("<<="@) == (3 as int, '<', '<', '=')); reveal_strlit("|"); assert(h("|"@) == (1 as int, '|', ' ', ' ')); reveal_strlit("^"); assert(h("^"@) == (1 as int, '^', ' ', ' ')); reveal_strlit("&"); assert(h("&"@) == (1 as int, '&', ' ', ' ')); reveal_strlit("|="); assert(h("|="@) == (2 as int, '|', '=', ' ')); reveal_strlit("^="); assert(h("^="@) == (2 as int, '^', '=', ' ')); reveal_strlit("&="); assert(h("&="@) == (2 as int, '&', '=', ' '));
    assert(h(table(o)[k]) != h(op_text(o)));
    assert(j != k ==> h(table(o)[j]) != h(table(o)[k]));
}
//%endif
} // verus!
fn main() {}
mod syn { pub use crate::*; pub mod visit { pub use crate::{visit_file, visit_item_fn, visit_impl_item_fn, visit_trait_item_fn, visit_item_impl, visit_item_trait, visit_item_mod, visit_expr_call, visit_expr_method_call, visit_expr_binary, visit_expr_unary, visit_expr_match}; } }
