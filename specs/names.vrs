use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
//%include shim_iter.vrs
//%shim Arc<Package> => Package
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Function
//%type mutant.rs Mutant
//%type options.rs Options keep=emit_json,emit_diffs,show_line_col,colors
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Colors { _p: u8 }
pub struct Package { pub name: String }
impl Colors { pub uninterp spec fn s_active(&self) -> bool; #[verifier::external_body] pub fn active_stdout(&self) -> (r: bool) ensures r == self.s_active() { unimplemented!() } }
// ---- numbers ----
pub uninterp spec fn dec(n: nat) -> Seq<char>;
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn v_fmt(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn v_to_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// ---- text put together ----
pub open spec fn flat(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last() } }
pub open spec fn txs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn l_txs(v: Seq<String>, x: String) ensures #[trigger] txs(v.push(x)) == txs(v).push(x@) { assert(txs(v.push(x)) =~= txs(v).push(x@)); }
pub broadcast proof fn l_txs_add(v: Seq<String>, w: Seq<String>) ensures #[trigger] txs(v + w) == txs(v) + txs(w) { assert(txs(v + w) =~= txs(v) + txs(w)); }
pub broadcast proof fn l_txs0(v: Seq<String>) requires v.len() == 0, ensures #[trigger] txs(v) == Seq::<Seq<char>>::empty() { assert(txs(v) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn l_flat_push(v: Seq<Seq<char>>, x: Seq<char>) ensures #[trigger] flat(v.push(x)) == flat(v) + x { assert(v.push(x).drop_last() =~= v); }
pub broadcast proof fn l_flat_add(v: Seq<Seq<char>>, w: Seq<Seq<char>>) ensures #[trigger] flat(v + w) == flat(v) + flat(w) decreases w.len()
{ if w.len() == 0 { assert(v + w =~= v); assert(flat(w) =~= Seq::<char>::empty()); assert(flat(v) + flat(w) =~= flat(v)); }
  else { assert((v + w).drop_last() =~= v + w.drop_last()); l_flat_add(v, w.drop_last()); assert(flat(v + w) =~= flat(v) + flat(w)); } }
pub broadcast proof fn l_flat0(v: Seq<Seq<char>>) requires v.len() == 0, ensures #[trigger] flat(v) == Seq::<char>::empty() {}
pub broadcast group gflat { l_txs, l_txs_add, l_txs0, l_flat_push, l_flat_add, l_flat0 }
pub trait VExt<T> { spec fn ev(&self) -> Seq<T>; fn v_extend<I: VIntoIter<T>>(&mut self, o: I) ensures final(self).ev() == old(self).ev() + o.items(); }
impl<T> VExt<T> for Vec<T> { open spec fn ev(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_extend<I: VIntoIter<T>>(&mut self, o: I) { unimplemented!() } }
pub trait VJoinTexts { spec fn jt(&self) -> Seq<Seq<char>>; fn v_join(&self, sep: &str) -> (r: String) ensures sep@.len() == 0 ==> r@ == flat(self.jt()); }
impl VJoinTexts for Vec<String> { open spec fn jt(&self) -> Seq<Seq<char>> { txs(self@) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VJoinTexts for VIter<String> { open spec fn jt(&self) -> Seq<Seq<char>> { txs(self@) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VIter<String> {
    #[verifier::external_body]
    pub fn v_collect_str(self) -> (r: String) ensures r@ == flat(txs(self@)) { unimplemented!() }
}
//%paths .collect::<String>() => .v_collect_str()
//%methods extend=v_extend join=v_join to_owned=v_own
pub trait VOwn { spec fn ow(&self) -> Seq<char>; fn v_own(&self) -> (r: String) ensures r@ == self.ow(); }
impl VOwn for str { open spec fn ow(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_own(&self) -> (r: String) { unimplemented!() } }
// ---- console: a text that may be shown with colors; without colors it is the text ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct StyledObject<T> { _p: core::marker::PhantomData<T> }
pub ghost struct Sty { pub text: Seq<char>, pub forced: Option<bool> }
impl View for StyledObject<String> { type V = Sty; uninterp spec fn view(&self) -> Sty; }
/// a text without its escape sequences
pub uninterp spec fn strip(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_strip(a: Seq<char>, b: Seq<char>) ensures #[trigger] strip(a + b) == strip(a) + strip(b);
pub broadcast axiom fn ax_strip0(a: Seq<char>) requires a.len() == 0, ensures #[trigger] strip(a) == Seq::<char>::empty();
pub broadcast proof fn l_strip_push(a: Seq<char>, c: char) ensures #[trigger] strip(a.push(c)) == strip(a) + strip(seq![c]) { broadcast use ax_strip; assert(a.push(c) =~= a + seq![c]); }
impl StyledObject<String> {
    #[verifier::external_body]
    pub fn bright(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn magenta(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn yellow(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn force_styling(self, b: bool) -> (r: Self) ensures r@ == (Sty { forced: Some(b), ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures self@.forced == Some(false) ==> r@ == self@.text, strip(r@) == strip(self@.text) { unimplemented!() }
}
#[verifier::external_body]
pub fn style(t: String) -> (r: StyledObject<String>) ensures r@ == (Sty { text: t@, forced: None }) { unimplemented!() }
/// the function written inside styled_parts
pub fn s<S: VDisp>(x: S) -> (r: StyledObject<String>) ensures r@ == (Sty { text: x.disp(), forced: None }) { style(x.v_fmt()) }
pub open spec fn ptx(v: Seq<StyledObject<String>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@.text) }
pub broadcast proof fn l_ptx(v: Seq<StyledObject<String>>, x: StyledObject<String>) ensures #[trigger] ptx(v.push(x)) == ptx(v).push(x@.text) { assert(ptx(v.push(x)) =~= ptx(v).push(x@.text)); }
pub broadcast proof fn l_ptx0(v: Seq<StyledObject<String>>) requires v.len() == 0, ensures #[trigger] ptx(v) == Seq::<Seq<char>>::empty() { assert(ptx(v) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn l_same(a: Seq<String>, v: Seq<StyledObject<String>>) requires a.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] a[i])@ == v[i]@.text, ensures #![trigger txs(a), ptx(v)] txs(a) == ptx(v) { assert(txs(a) =~= ptx(v)); }
pub broadcast proof fn l_strips(a: Seq<String>, v: Seq<StyledObject<String>>) requires a.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> strip((#[trigger] a[i])@) == strip(v[i]@.text), ensures #![trigger txs(a), ptx(v)] strip(flat(txs(a))) == strip(flat(ptx(v))) decreases v.len()
{ broadcast use ax_strip, ax_strip0;
  if v.len() > 0 { l_strips(a.drop_last(), v.drop_last()); assert(txs(a).drop_last() =~= txs(a.drop_last())); assert(ptx(v).drop_last() =~= ptx(v.drop_last())); assert(txs(a).last() == a.last()@); assert(ptx(v).last() == v.last()@.text); } }
// ---- C27: what a mutant is called ----
/// unit slashes
pub uninterp spec fn s_slashes(p: Seq<char>) -> Seq<char>;
impl Utf8PathBuf { #[verifier::external_body] pub fn to_slash_path(&self) -> (r: String) ensures r@ == s_slashes(self@) { unimplemented!() } }
pub uninterp spec fn s_code(f: SourceFile) -> Seq<char>;
impl SourceFile {
    #[verifier::external_body]
    pub fn code(&self) -> (r: &str) ensures r@ == s_code(*self) { unimplemented!() }
}
//%fn source.rs SourceFile::tree_relative_slashes
//%spec
    ensures r@ == s_slashes(self.tree_relative_path@),
//%end
/// unit c01
pub uninterp spec fn s_extract(sp: Span, t: Seq<char>) -> Seq<char>;
impl Span { #[verifier::external_body] pub fn extract(&self, t: &str) -> (r: String) ensures r@ == s_extract(*self, t@) { unimplemented!() } }
pub uninterp spec fn s_mutated(m: Mutant) -> Seq<char>;
impl Mutant { #[verifier::external_body] pub fn mutated_code(&self) -> (r: String) ensures r@ == s_mutated(*self) { unimplemented!() } }
//%fn mutant.rs Mutant::original_text
//%spec
    ensures r@ == s_extract(self.span, s_code(self.source_file)),
//%end
//%fn mutant.rs Mutant::replacement_text
//%spec
    ensures r@ == self.replacement@,
//%end
/// what is replaced or deleted, by what, and where
pub open spec fn in_fn(m: Mutant) -> Seq<Seq<char>> { match m.function { Some(f) => seq![" in "@, f.function_name@], None => seq![] } }
pub open spec fn pieces(m: Mutant) -> Seq<Seq<char>> {
    match m.genre {
        Genre::FnValue => (if m.function.unwrap().return_type@.len() == 0 { seq!["replace "@, m.function.unwrap().function_name@] } else { seq!["replace "@, m.function.unwrap().function_name@, " "@, m.function.unwrap().return_type@] }) + seq![" with "@, m.replacement@],
        Genre::MatchArmGuard => seq!["replace match guard with "@, m.replacement@],
        Genre::MatchArm => seq!["delete match arm"@],
        _ => (if m.replacement@.len() == 0 { seq!["delete "@, s_extract(m.span, s_code(m.source_file))] } else { seq!["replace "@, s_extract(m.span, s_code(m.source_file)), " with "@, m.replacement@] }) + in_fn(m),
    }
}
pub open spec fn change(m: Mutant) -> Seq<char> { flat(pieces(m)) }
pub open spec fn place(m: Mutant, lc: bool) -> Seq<char> {
    if lc { s_slashes(m.source_file.tree_relative_path@) + (":"@ + dec(m.span.start.line as nat) + ":"@ + dec(m.span.start.column as nat) + ": "@) } else { s_slashes(m.source_file.tree_relative_path@) + ": "@ } }
pub open spec fn called(m: Mutant, lc: bool) -> Seq<char> { place(m, lc) + change(m) }
/// a mutant of a function's value is in a function (unit visitor)
pub open spec fn sound(m: Mutant) -> bool { m.genre is FnValue ==> m.function is Some }
//%fn mutant.rs Mutant::styled_parts
//%opaque 1 `fn s<S: ToString>(s: S) -> StyledObject<String> { style(s.to_string()) }` => ``
//%spec
    requires sound(*self),
    ensures ptx(r@) == pieces(*self),
//%entry
    broadcast use l_ptx, l_ptx0;
//%exit
    proof { assert(ptx(r@) =~= pieces(*self)); }
//%end
//%fn mutant.rs Mutant::describe_change
//%closure 0
    |$0: StyledObject<String>| -> (t: String) ensures t@ == $0@.text
//%spec
    requires sound(*self),
    ensures r@ == change(*self),
//%entry
    broadcast use l_same;
//%end
//%fn mutant.rs Mutant::name
//%closure 0
    |$0: StyledObject<String>| -> (t: String) ensures t@ == $0@.text
//%spec
    requires sound(*self),
    ensures r@ == called(*self, show_line_col),
//%entry
    broadcast use l_same, gflat;
    proof { reveal_strlit(""); }
//%exit
    proof { assert(r@ =~= called(*self, show_line_col)); }
//%end
//%fn mutant.rs Mutant::to_styled_string
//%closure 0
    |$0: StyledObject<String>| -> (t: String) ensures strip(t@) == strip($0@.text)
//%spec
    requires sound(*self),
    ensures strip(r@) == strip(called(*self, show_line_col)),
//%entry
    broadcast use l_strips, gflat, ax_strip;
    proof { reveal_strlit(""); }
//%exit
    proof { assert(strip(place(*self, show_line_col) + change(*self)) == strip(place(*self, show_line_col)) + strip(change(*self))); }
//%end
// ---- the diff: of the file as it is and the file as tested, headed by the file and the change ----
pub uninterp spec fn s_udiff(a: Seq<char>, b: Seq<char>, old_label: Seq<char>, new_label: Seq<char>) -> Seq<char>;
pub uninterp spec fn s_one_line(s: Seq<char>) -> Seq<char>;
pub struct TextDiff { pub a: Ghost<Seq<char>>, pub b: Ghost<Seq<char>>, pub h: Ghost<(Seq<char>, Seq<char>)> }
impl TextDiff {
    #[verifier::external_body]
    pub fn from_lines(a: &str, b: &str) -> (r: TextDiff) ensures r.a@ == a@, r.b@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn unified_diff(self) -> (r: TextDiff) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn context_radius(self, n: usize) -> (r: TextDiff) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn header(self, x: &String, y: &String) -> (r: TextDiff) ensures r.a == self.a, r.b == self.b, r.h@ == (x@, y@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == s_udiff(self.a@, self.b@, self.h@.0, self.h@.1) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_one_line(s: String) -> (r: String) ensures r@ == s_one_line(s@) { unimplemented!() }
pub open spec fn diff_of(m: Mutant, mutated: Seq<char>) -> Seq<char> { s_udiff(s_code(m.source_file), mutated, s_slashes(m.source_file.tree_relative_path@), s_one_line(change(m))) }
//%fn mutant.rs Mutant::diff
//%opaque 1 `self.describe_change().replace('\n', " ")` => `v_one_line(self.describe_change())`
//%spec
    requires sound(*self),
    ensures r@ == diff_of(*self, mutated_code@),
//%end
// ---- the record of a mutant ----
pub ghost enum Js { Text(Seq<char>), Fun(Option<Function>), Span(Span), Genre(Genre) }
pub trait VJson { spec fn js(&self) -> Js; }
impl VJson for String { open spec fn js(&self) -> Js { Js::Text(self@) } }
impl VJson for Span { open spec fn js(&self) -> Js { Js::Span(*self) } }
impl VJson for Genre { open spec fn js(&self) -> Js { Js::Genre(*self) } }
impl<'a> VJson for Option<&'a Function> { open spec fn js(&self) -> Js { Js::Fun(match *self { Some(f) => Some(*f), None => None }) } }
pub trait VSerializer: Sized { fn serialize_struct(self, name: &str, n: usize) -> (r: Result<Serializer>) ensures r matches Ok(s) ==> s.f@ == Map::<Seq<char>, Js>::empty(); }
/// the members of the JSON object (their order is free)
pub struct Serializer { pub f: Ghost<Map<Seq<char>, Js>> }
impl Serializer {
    #[verifier::external_body]
    pub fn serialize_field<T: VJson>(&mut self, name: &str, v: &T) -> (r: Result<()>) ensures r is Ok ==> final(self).f@ == old(self).f@.insert(name@, v.js()) { unimplemented!() }
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<Serializer>) ensures r matches Ok(s) ==> s == self { unimplemented!() }
}
#[verifier::external_body]
pub fn v_arc_ref<T>(a: &Arc<T>) -> (r: &T) ensures *r == **a { unimplemented!() }
pub open spec fn record(m: Mutant) -> Map<Seq<char>, Js> {
    Map::empty().insert("package"@, Js::Text(m.source_file.package.name@)).insert("file"@, Js::Text(s_slashes(m.source_file.tree_relative_path@)))
        .insert("function"@, Js::Fun(match m.function { Some(f) => Some(*f), None => None })).insert("span"@, Js::Span(m.span)).insert("replacement"@, Js::Text(m.replacement@)).insert("genre"@, Js::Genre(m.genre)) }
pub proof fn l_keys() ensures "package"@ != "file"@, "package"@ != "function"@, "package"@ != "span"@, "package"@ != "replacement"@, "package"@ != "genre"@, "file"@ != "function"@, "file"@ != "span"@, "file"@ != "replacement"@, "file"@ != "genre"@, "function"@ != "span"@, "function"@ != "replacement"@, "function"@ != "genre"@, "span"@ != "replacement"@, "span"@ != "genre"@, "replacement"@ != "genre"@
{ reveal_strlit("package"); reveal_strlit("file"); reveal_strlit("function"); reveal_strlit("span"); reveal_strlit("replacement"); reveal_strlit("genre"); assert("package"@.len() == 7); assert("file"@.len() == 4); assert("function"@.len() == 8); assert("span"@.len() == 4); assert("replacement"@.len() == 11); assert("genre"@.len() == 5); assert("file"@[0] == 'f'); assert("span"@[0] == 's'); }
//%fn mutant.rs <Mutant as Serialize>::serialize
//%as v_serialize
//%gen <S: VSerializer>
//%rettype Result<Serializer>
//%opaque 1 `self.function.as_ref().map(Arc::as_ref)` => `v_fun(&self.function)`
//%spec
    ensures r matches Ok(s) ==> s.f@ == record(*self),
//%exit
    proof { l_keys(); if r is Ok { assert(r->Ok_0.f@ =~= record(*self)); } }
//%end
#[verifier::external_body]
pub fn v_fun(f: &Option<Arc<Function>>) -> (r: Option<&Function>) ensures f is None ==> r is None, f matches Some(a) ==> r matches Some(b) && *b == **a { unimplemented!() }
// ---- lists ----
pub open spec fn line(m: Mutant, o: Options, colors: bool) -> Seq<char> { called(m, o.show_line_col) + "\n"@ }
#[verifier::external_body]
pub struct Value { _p: u8 }
pub ghost enum GV { Mutant(Mutant, Option<Seq<char>>), File(Seq<char>, Seq<char>), List(Seq<GV>) }
impl View for Value { type V = GV; uninterp spec fn view(&self) -> GV; }
#[verifier::external_body]
pub fn v_to_value(m: &Mutant) -> (r: Value) ensures r@ == GV::Mutant(*m, None) { unimplemented!() }
#[verifier::external_body]
pub fn v_add_diff(o: &mut Value, d: String) requires old(o)@ is Mutant, ensures final(o)@ == GV::Mutant(old(o)@->Mutant_0, Some(d@)) { unimplemented!() }
#[verifier::external_body]
pub fn v_file_value(path: String, package: &String) -> (r: Value) ensures r@ == GV::File(path@, package@) { unimplemented!() }
/// pretty JSON of a list
pub uninterp spec fn s_json(v: Seq<GV>) -> Seq<char>;
pub open spec fn gvs(v: Seq<Value>) -> Seq<GV> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn v_json_list(v: &Vec<Value>) -> (r: String) ensures r@ == s_json(gvs(v@)) { unimplemented!() }
pub open spec fn value_of(m: Mutant, o: Options) -> GV { GV::Mutant(m, if o.emit_diffs { Some(diff_of(m, s_mutated(m))) } else { None }) }
pub open spec fn values(s: Seq<Mutant>, o: Options) -> Seq<GV> { Seq::new(s.len(), |i: int| value_of(s[i], o)) }
/// one entry of the text list, without colors
pub open spec fn entry(m: Mutant, o: Options) -> Seq<char> { called(m, o.show_line_col) + "\n"@ + (if o.emit_diffs { diff_of(m, s_mutated(m)) + "\n"@ } else { Seq::empty() }) }
pub open spec fn entries(s: Seq<Mutant>, o: Options) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { entries(s.drop_last(), o) + entry(s.last(), o) } }
pub proof fn l_entries(s: Seq<Mutant>, o: Options, k: int) requires 0 <= k < s.len(), ensures entries(s.take(k + 1), o) == entries(s.take(k), o) + entry(s[k], o) { assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); }
//%shim serde_json::Value => Value
//%fn list.rs list_mutants
//%opaque 1 `serde_json::to_value(mutant).expect("Serialize mutant")` => `v_to_value(mutant)`
//%opaque 1 `obj.as_object_mut().unwrap().insert("diff".to_owned(), json!(mutant.diff(&mutant.mutated_code())),);` => `v_add_diff(&mut obj, mutant.diff(&mutant.mutated_code()));`
//%opaque 1 `serde_json::to_string_pretty(&list).expect("Serialize mutants")` => `v_json_list(&list)`
//%opaque `String::with_capacity(...)` => `v_string_with_capacity(0)`
//%spec
    requires forall|i: int| 0 <= i < mutants@.len() ==> sound(#[trigger] mutants@[i]),
    ensures options.emit_json ==> r@ == s_json(values(mutants@, *options)),
        !options.emit_json && !options.colors.s_active() ==> r@ == entries(mutants@, *options),
        !options.emit_json ==> strip(r@) == strip(entries(mutants@, *options)),
//%loop 0 it it
//%loop 0
    invariant 0 <= it.index@ <= mutants@.len(), it.snapshot@.remaining().len() == mutants@.len(), forall|i: int| 0 <= i < mutants@.len() ==> *(#[trigger] it.snapshot@.remaining()[i]) == mutants@[i],
        forall|i: int| 0 <= i < mutants@.len() ==> sound(#[trigger] mutants@[i]), gvs(list@) == values(mutants@.take(it.index@), *options),
//%loop 0 start
    let ghost l0 = list@; assert(mutant == mutants@[it.index@]);
//%loop 0 end
    proof { assert(gvs(list@) =~= gvs(l0).push(value_of(*mutant, *options))); assert(values(mutants@.take(it.index@ + 1), *options) =~= values(mutants@.take(it.index@), *options).push(value_of(mutants@[it.index@], *options))); }
//%loop 1 it it
//%loop 1
    invariant 0 <= it.index@ <= mutants@.len(), it.snapshot@.remaining().len() == mutants@.len(), forall|i: int| 0 <= i < mutants@.len() ==> *(#[trigger] it.snapshot@.remaining()[i]) == mutants@[i],
        forall|i: int| 0 <= i < mutants@.len() ==> sound(#[trigger] mutants@[i]), colors == options.colors.s_active(),
        !colors ==> out@ == entries(mutants@.take(it.index@), *options),
        strip(out@) == strip(entries(mutants@.take(it.index@), *options)),
//%loop 1 start
    broadcast use ax_strip, ax_strip0, l_strip_push;
    let ghost o0 = out@; assert(mutant == mutants@[it.index@]);
    proof { l_entries(mutants@, *options, it.index@); }
//%loop 1 end
    proof { let d = if options.emit_diffs { diff_of(*mutant, s_mutated(*mutant)) + "\n"@ } else { Seq::<char>::empty() };
        reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
        assert(entry(*mutant, *options) == called(*mutant, options.show_line_col) + "\n"@ + d);
        if !colors { assert(out@ =~= o0 + entry(*mutant, *options)); }
        let nl = strip("\n"@); let c = strip(called(*mutant, options.show_line_col));
        assert(strip(entry(*mutant, *options)) == c + nl + strip(d));
        if options.emit_diffs { assert(strip(out@) =~= strip(o0) + (c + nl + (strip(diff_of(*mutant, s_mutated(*mutant))) + nl))); } else { assert(strip(out@) =~= strip(o0) + (c + nl + strip(d))); }
    }
//%exit
    proof { assert(mutants@.take(mutants@.len() as int) =~= mutants@); }
//%end
#[verifier::external_body]
pub fn v_array(v: Vec<Value>) -> (r: Value) ensures r@ == GV::List(gvs(v@)) { unimplemented!() }
//%paths Value::Array => v_array
#[verifier::external_body]
pub fn v_json_value(v: &Value) -> (r: String) ensures v@ matches GV::List(l) ==> r@ == s_json(l) { unimplemented!() }
#[verifier::external_body]
pub fn v_plus(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub open spec fn file_value(f: SourceFile) -> GV { GV::File(s_slashes(f.tree_relative_path@), f.package.name@) }
pub open spec fn file_line(f: SourceFile) -> Seq<char> { s_slashes(f.tree_relative_path@) + "\n"@ }
pub broadcast proof fn l_files(v: Seq<Value>, s: Seq<SourceFile>) requires v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i])@ == file_value(s[i]), ensures #![trigger gvs(v), file_values(s)] gvs(v) == file_values(s) { assert(gvs(v) =~= file_values(s)); }
pub open spec fn file_values(s: Seq<SourceFile>) -> Seq<GV> { Seq::new(s.len(), |i: int| file_value(s[i])) }
pub open spec fn file_lines(s: Seq<SourceFile>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| file_line(s[i])) }
pub broadcast proof fn l_lines(v: Seq<String>, s: Seq<SourceFile>) requires v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i])@ == file_line(s[i]), ensures #![trigger txs(v), file_lines(s)] txs(v) == file_lines(s) { assert(txs(v) =~= file_lines(s)); }
//%fn list.rs list_files
//%opaque 1 `json!({ "path": source_file.tree_relative_path.to_slash_path(), "package": source_file.package.name, })` => `v_file_value(source_file.tree_relative_path.to_slash_path(), &source_file.package.name)`
//%opaque 1 `serde_json::to_string_pretty(&json_list).expect("Serialize source files")` => `v_json_value(&json_list)`
//%opaque 1 `file.tree_relative_path.to_slash_path() + "\n"` => `v_plus(file.tree_relative_path.to_slash_path(), "\n")`
//%closure 0
    |$0: &SourceFile| -> (v: Value) ensures v@ == file_value(*$0)
//%closure 1
    |$0: &SourceFile| -> (t: String) ensures t@ == file_line(*$0)
//%spec
    ensures options.emit_json ==> r@ == s_json(file_values(source_files@)), !options.emit_json ==> r@ == flat(file_lines(source_files@)),
//%entry
    broadcast use l_files, l_lines;
    proof { reveal_strlit(""); }
    let ghost fv = file_values(source_files@); let ghost fl = file_lines(source_files@);
//%end
} // verus!
fn main() {}
