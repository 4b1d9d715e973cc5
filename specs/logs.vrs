use vstd::prelude::*;
use std::sync::Arc;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_path.vrs
//%include shim_iter.vrs
//%shim Arc<Package> => Package
//%shim Arc<Function> => Function
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Mutant
//%type scenario.rs Scenario
#[verifier::external_body]
pub struct LabOutcome { _p: u8 }
// ---- numbers as Display prints them ----
pub open spec fn digit(d: nat) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn dv(c: char) -> nat { if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 } else if c == '5' { 5 } else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else { 9 } }
pub open spec fn is_digit(c: char) -> bool { c == '0' || c == '1' || c == '2' || c == '3' || c == '4' || c == '5' || c == '6' || c == '7' || c == '8' || c == '9' }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
/// {:03}: at least three digits
pub open spec fn dec3(n: nat) -> Seq<char> { let d = dec(n); if d.len() >= 3 { d } else if d.len() == 2 { seq!['0'] + d } else { seq!['0', '0'] + d } }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn val(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { 10 * val(s.drop_last()) + dv(s.last()) } }
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn v_fmt(&self) -> (r: String) { unimplemented!() } }
pub trait VNum { spec fn num(&self) -> nat; }
impl VNum for usize { open spec fn num(&self) -> nat { *self as nat } }
impl<T: VNum> VNum for &T { open spec fn num(&self) -> nat { (**self).num() } }
impl<T: VNum> VNum for &mut T { open spec fn num(&self) -> nat { (**self).num() } }
#[verifier::external_body]
pub fn v_disp03<T: VNum>(x: &T) -> (r: String) ensures r@ == dec3(x.num()) { unimplemented!() }
pub proof fn l_dec(n: nat)
    ensures digits(dec(n)), val(dec(n)) == n, digits(dec3(n)), val(dec3(n)) == n
    decreases n
{
    let d = dec(n);
    if n < 10 {
        assert(val(d.drop_last()) == 0); assert(d.last() == digit(n));
    } else {
        l_dec(n / 10);
        assert(d.drop_last() =~= dec(n / 10));
        assert(d.last() == digit(n % 10));
    }
    l_zero(d); l_zero(seq!['0'] + d);
    assert(seq!['0', '0'] + d =~= seq!['0'] + (seq!['0'] + d));
}
pub proof fn l_zero(s: Seq<char>) ensures val(seq!['0'] + s) == val(s) decreases s.len()
{
    let z = seq!['0'] + s;
    if s.len() == 0 { assert(z =~= seq!['0']); assert(z.drop_last() =~= Seq::<char>::empty()); assert(val(z) == 10 * val(z.drop_last()) + dv(z.last())); }
    else { assert(z.drop_last() =~= seq!['0'] + s.drop_last()); assert(z.last() == s.last()); l_zero(s.drop_last()); }
}
// ---- C17: names of logs and diffs ----
/// the path of the file as recorded (contract of SourceFile::tree_relative_slashes)
pub uninterp spec fn s_slashes(f: SourceFile) -> Seq<char>;
impl SourceFile {
    #[verifier::external_body]
    pub fn tree_relative_slashes(&self) -> (r: String) ensures r@ == s_slashes(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn code(&self) -> (r: &str) ensures r@ == s_code(*self) { unimplemented!() }
}
pub uninterp spec fn s_code(f: SourceFile) -> Seq<char>;
pub open spec fn no_sep(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '/' && s[i] != '\\' }
pub open spec fn s_has(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c }
/// str::replace of one character: the others stay, the character is gone unless the replacement brings it back
pub trait VRep { spec fn rp(&self) -> Seq<char>;
    fn v_replace(&self, c: char, t: &str) -> (r: String) ensures (forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i] != c && s_has(self.rp(), r@[i])) || s_has(t@, r@[i]));
    fn v_chars(&self) -> (r: VIter<char>) ensures r@ == self.rp();
}
impl VRep for String { open spec fn rp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_replace(&self, c: char, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
}
impl VRep for str { open spec fn rp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_replace(&self, c: char, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
}
impl VIter<char> {
    #[verifier::external_body]
    pub fn v_collect_str(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
//%methods replace=v_replace chars=v_chars clone=v_clone
//%paths .collect::<String>() => .v_collect_str()
//%fn output.rs clean_filename
//%closure 0
    |$0: char| -> (b: char) ensures b == $0 || b == '_', b != '\\'
//%spec
    ensures no_sep(r@),
//%entry
    proof { reveal_strlit("__"); }
//%end
pub open spec fn base_of(f: Seq<char>, line: nat, col: nat) -> Seq<char> { f + "_line_"@ + dec(line) + "_col_"@ + dec(col) }
/// what log_file_name_base gives
pub open spec fn is_base(k: Seq<char>) -> bool { no_sep(k) && (k == "baseline"@ || exists|f: Seq<char>, l: nat, c: nat| k == #[trigger] base_of(f, l, c)) }
//%fn mutant.rs Mutant::log_file_name_base
//%spec
    ensures is_base(r@), exists|f: Seq<char>| r@ == #[trigger] base_of(f, self.span.start.line as nat, self.span.start.column as nat),
//%entry
    proof { reveal_strlit("_line_"); reveal_strlit("_col_"); l_dec(self.span.start.line as nat); l_dec(self.span.start.column as nat);
        assert forall|f: Seq<char>, g: Seq<char>| #![trigger f + g] no_sep(f) && no_sep(g) implies no_sep(f + g) by {}
        assert forall|f: Seq<char>| no_sep(f) implies no_sep(#[trigger] base_of(f, self.span.start.line as nat, self.span.start.column as nat)) by { l_base_sep(f, self.span.start.line as nat, self.span.start.column as nat); }
        assert forall|f: Seq<char>| #![trigger f + "_line_"@] base_of(f, self.span.start.line as nat, self.span.start.column as nat) == f + "_line_"@ + dec(self.span.start.line as nat) + "_col_"@ + dec(self.span.start.column as nat) by {}
        assert forall|f: Seq<char>| #![trigger Seq::<char>::empty() + f] Seq::<char>::empty() + f =~= f by {} }
//%end
pub proof fn l_base_sep(f: Seq<char>, l: nat, c: nat) requires no_sep(f), ensures no_sep(base_of(f, l, c)) { reveal_strlit("_line_"); reveal_strlit("_col_"); l_dec(l); l_dec(c); }
/// the i-th name made from base k
pub open spec fn nth(k: Seq<char>, i: nat) -> Seq<char> { if i == 0 { k } else { k + "_"@ + dec3(i) } }
pub open spec fn issued(m: Map<Seq<char>, usize>, b: Seq<char>) -> bool { exists|k: Seq<char>, i: nat| m.contains_key(k) && i <= m[k] && b == #[trigger] nth(k, i) }
pub open spec fn names_ok(m: Map<Seq<char>, usize>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> is_base(k) }
pub proof fn l_split(a: Seq<char>, x: Seq<char>, b: Seq<char>, y: Seq<char>)
    requires digits(x), digits(y), a + "_"@ + x == b + "_"@ + y, ensures a == b, x == y
{
    reveal_strlit("_"); assert("_"@ =~= seq!['_']);
    let s = a + "_"@ + x; let t = b + "_"@ + y;
    assert(s.len() == a.len() + 1 + x.len()); assert(t.len() == b.len() + 1 + y.len()); assert(s == t);
    assert(s[a.len() as int] == '_'); assert(t[b.len() as int] == '_');
    if a.len() < b.len() { assert(s[b.len() as int] == x[b.len() - a.len() - 1]); assert(false); }
    if b.len() < a.len() { assert(t[a.len() as int] == y[a.len() - b.len() - 1]); assert(false); }
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(s[i] == a[i]); assert(t[i] == b[i]); }
    assert(x.len() == y.len());
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(s[i + a.len() + 1] == x[i]); assert(t[i + b.len() + 1] == y[i]); }
    assert(a =~= b); assert(x =~= y);
}
/// the last character of a base name is a digit, or it is "baseline"
pub proof fn l_last(k: Seq<char>) requires is_base(k), ensures k.len() > 0, k.last() != 'l'
{
    reveal_strlit("baseline");
    if k != "baseline"@ { let (f, l, c) = choose|f: Seq<char>, l: nat, c: nat| k == #[trigger] base_of(f, l, c); l_dec(c); assert(k.last() == dec(c).last()); }
}
/// no two bases and numbers give the same name
pub proof fn l_inj(k: Seq<char>, i: nat, j: Seq<char>, n: nat)
    requires is_base(k), is_base(j), nth(k, i) == nth(j, n), ensures k == j, i == n
{
    if i == 0 && n > 0 { l_apart(k, j, n); }
    else if n == 0 && i > 0 { l_apart(j, k, i); }
    else if i > 0 { l_dec(i); l_dec(n); l_split(k, dec3(i), j, dec3(n)); }
}
pub proof fn l_apart(k: Seq<char>, j: Seq<char>, n: nat)
    requires is_base(k), is_base(j), n > 0, ensures k != nth(j, n)
{
    l_dec(n); l_last(j);
    reveal_strlit("_"); reveal_strlit("baseline"); reveal_strlit("_col_"); reveal_strlit("_col");
    assert("_"@ =~= seq!['_']); assert("_col_"@ =~= seq!['_', 'c', 'o', 'l', '_']); assert("_col"@ =~= seq!['_', 'c', 'o', 'l']);
    let t = nth(j, n);
    assert(t[j.len() as int] == '_');
    if k == t {
        if k == "baseline"@ { assert(k[j.len() as int] == '_'); }
        else {
            let (f, l, c) = choose|f: Seq<char>, l: nat, c: nat| k == #[trigger] base_of(f, l, c);
            l_dec(c);
            let a = f + "_line_"@ + dec(l) + "_col"@;
            assert(k =~= a + "_"@ + dec(c));
            l_split(a, dec(c), j, dec3(n));
            assert(a.last() == 'l');
        }
    }
}
pub open spec fn log_of(b: Seq<char>) -> Seq<char> { "log/"@ + b + ".log"@ }
pub open spec fn diff_of(b: Seq<char>) -> Seq<char> { "diff/"@ + b + ".diff"@ }
pub proof fn l_paths(a: Seq<char>, b: Seq<char>)
    ensures log_of(a) == log_of(b) ==> a == b, diff_of(a) == diff_of(b) ==> a == b, log_of(a) != diff_of(b), log_of(a).len() > 0, log_of(a)[0] != '/', diff_of(a).len() > 0, diff_of(a)[0] != '/',
{
    reveal_strlit("log/"); reveal_strlit(".log"); reveal_strlit("diff/"); reveal_strlit(".diff");
    assert("log/"@ =~= seq!['l', 'o', 'g', '/']); assert(".log"@ =~= seq!['.', 'l', 'o', 'g']); assert("diff/"@ =~= seq!['d', 'i', 'f', 'f', '/']); assert(".diff"@ =~= seq!['.', 'd', 'i', 'f', 'f']);
    assert(log_of(a).len() == a.len() + 8 && log_of(b).len() == b.len() + 8 && diff_of(a).len() == a.len() + 10 && diff_of(b).len() == b.len() + 10);
    assert(log_of(a)[0] == 'l'); assert(diff_of(b)[0] == 'd'); assert(diff_of(a)[0] == 'd');
    if log_of(a) == log_of(b) { assert(a.len() == b.len()); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(log_of(a)[i + 4] == a[i]); assert(log_of(b)[i + 4] == b[i]); } assert(a =~= b); }
    if diff_of(a) == diff_of(b) { assert(a.len() == b.len()); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(diff_of(a)[i + 5] == a[i]); assert(diff_of(b)[i + 5] == b[i]); } assert(a =~= b); }
}
// ---- files (assumed: std::fs, camino) ----
pub tracked struct World { pub ghost files: Map<Seq<char>, Seq<char>>, pub ghost io_failed: bool }
pub uninterp spec fn s_join(d: Seq<char>, n: Seq<char>) -> Seq<char>;
/// joining a relative path appends it
pub broadcast axiom fn ax_join(d: Seq<char>, n: Seq<char>, m: Seq<char>)
    requires n.len() > 0, m.len() > 0, n[0] != '/', m[0] != '/', #[trigger] s_join(d, n) == #[trigger] s_join(d, m), ensures n == m;
impl VClone for Utf8PathBuf { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl Utf8Path { #[verifier::external_body] pub fn v_to_owned(&self) -> (r: Utf8PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, n: &Utf8PathBuf) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, n@) { unimplemented!() } }
impl Utf8PathBuf {
    #[verifier::external_body] pub fn join(&self, n: &Utf8PathBuf) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, n@) { unimplemented!() }
    #[verifier::external_body] pub fn from(s: String) -> (r: Utf8PathBuf) ensures r@ == s@ { unimplemented!() }
}
//%methods to_owned=v_to_owned
impl core::ops::Deref for Utf8PathBuf { type Target = Utf8Path;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Utf8Path) ensures r@ == self@ { unimplemented!() } }
pub trait VPath { spec fn pv(&self) -> Seq<char>; }
impl VPath for Utf8Path { open spec fn pv(&self) -> Seq<char> { self@ } }
impl VPath for Utf8PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } }
impl<T: VPath> VPath for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } }
pub type IoError = Error;
pub trait VTry<T>: Sized { spec fn tv(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.tv() is Some, r matches Ok(v) ==> self.tv() == Some(v); }
impl<T> VTry<T> for core::result::Result<T, IoError> { open spec fn tv(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
/// an open file knows its path, and whether what is written goes to its end
#[verifier::external_body]
pub struct File { _p: u8 }
pub ghost struct Fh { pub path: Seq<char>, pub append: bool }
impl View for File { type V = Fh; uninterp spec fn view(&self) -> Fh; }
pub ghost struct Oo { pub create: bool, pub create_new: bool, pub append: bool, pub read: bool, pub write: bool, pub truncate: bool }
#[verifier::external_body]
pub struct OpenOptions { _p: u8 }
impl View for OpenOptions { type V = Oo; uninterp spec fn view(&self) -> Oo; }
pub open spec fn oo0() -> Oo { Oo { create: false, create_new: false, append: false, read: false, write: false, truncate: false } }
impl File { #[verifier::external_body] pub fn options() -> (r: OpenOptions) ensures r@ == oo0() { unimplemented!() } }
impl OpenOptions {
    #[verifier::external_body] pub fn new() -> (r: OpenOptions) ensures r@ == oo0() { unimplemented!() }
    #[verifier::external_body] pub fn create(self, b: bool) -> (r: OpenOptions) ensures r@ == (Oo { create: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r@ == (Oo { create_new: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn append(self, b: bool) -> (r: OpenOptions) ensures r@ == (Oo { append: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn read(self, b: bool) -> (r: OpenOptions) ensures r@ == (Oo { read: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn write(self, b: bool) -> (r: OpenOptions) ensures r@ == (Oo { write: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r@ == (Oo { truncate: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: VPath>(self, p: P, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<File, IoError>)
        ensures old(w).io_failed ==> final(w).io_failed,
            r is Err ==> final(w).files == old(w).files && (final(w).io_failed || (self@.create_new && old(w).files.contains_key(p.pv())) || (!self@.create_new && !self@.create && !old(w).files.contains_key(p.pv()))),
            r matches Ok(f) ==> f@ == (Fh { path: p.pv(), append: self@.append }) && final(w).io_failed == old(w).io_failed && (self@.create_new ==> !old(w).files.contains_key(p.pv()))
                && final(w).files == (if self@.truncate || !old(w).files.contains_key(p.pv()) { old(w).files.insert(p.pv(), Seq::empty()) } else { old(w).files }) && (!self@.create_new && !self@.create ==> old(w).files.contains_key(p.pv())),
    { unimplemented!() }
}
/// write!(file, ..) to a file opened for appending: on success the text was appended
impl File {
#[verifier::external_body]
pub fn v_write(&mut self, s: &String, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
    ensures final(self)@ == old(self)@, old(w).io_failed ==> final(w).io_failed, final(w).files.dom() == old(w).files.dom(), forall|q: Seq<char>| q != old(self)@.path && #[trigger] old(w).files.contains_key(q) ==> final(w).files[q] == old(w).files[q],
        r is Ok ==> final(w).io_failed == old(w).io_failed && (old(self)@.append && old(w).files.contains_key(old(self)@.path) ==> final(w).files == old(w).files.insert(old(self)@.path, old(w).files[old(self)@.path] + s@)),
        r is Err ==> final(w).io_failed,
{ unimplemented!() }
}
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
pub trait VBytes { spec fn bt(&self) -> Seq<char>; fn v_as_bytes(&self) -> (r: &[u8]) ensures text_of(r@) == self.bt(); }
impl VBytes for str { open spec fn bt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
//%methods as_bytes=v_as_bytes
/// std::fs::write: on success the file holds just the text
#[verifier::external_body]
pub fn write(p: Utf8PathBuf, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), IoError>)
    ensures old(w).io_failed ==> final(w).io_failed, forall|q: Seq<char>| q != p@ ==> #[trigger] final(w).files.contains_key(q) == old(w).files.contains_key(q) && final(w).files[q] == old(w).files[q],
        r is Ok ==> final(w).io_failed == old(w).io_failed && final(w).files == old(w).files.insert(p@, text_of(b@)),
        r is Err ==> final(w).io_failed,
{ unimplemented!() }
// ---- the names used so far ----
#[verifier::external_body]
pub struct VNames { _p: u8 }
impl View for VNames { type V = Map<Seq<char>, usize>; uninterp spec fn view(&self) -> Map<Seq<char>, usize>; }
pub struct VOcc<'a> { pub v: &'a mut usize }
pub struct VVac<'a> { pub slot: &'a mut Option<usize> }
pub enum Entry<'a> { Occupied(VOcc<'a>), Vacant(VVac<'a>) }
impl VNames {
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: String) -> (r: Entry<'a>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.contains_key(k@) && *e.v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(e.v)),
            Entry::Vacant(e) => !old(self)@.contains_key(k@) && *e.slot == None::<usize> && final(self)@ == (match *final(e.slot) { Some(x) => old(self)@.insert(k@, x), None => old(self)@ }) },
    { unimplemented!() }
}
impl<'a> VOcc<'a> {
    pub fn get_mut(self) -> (r: &'a mut usize) ensures *r == *old(self.v), *final(r) == *final(self.v) { self.v }
}
impl<'a> VVac<'a> {
    pub fn insert(self, x: usize) -> (r: &'a mut Option<usize>) ensures *r == Some(x), *final(self.slot) == *final(r) { *self.slot = Some(x); self.slot }
}
//%shim HashMap<String, usize> => VNames
//%type output.rs OutputDir
//%type output.rs ScenarioOutput
#[verifier::external_body]
pub fn v_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub uninterp spec fn s_disp(s: Scenario) -> Seq<char>;
impl Scenario {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == s_disp(*self) { unimplemented!() }
}
//%fn scenario.rs Scenario::is_mutant
//%spec
    ensures r == (*self is Mutant),
//%end
/// every log and diff there is has a name that was given out
pub open spec fn out_ok(w: World, d: Seq<char>, m: Map<Seq<char>, usize>) -> bool {
    &&& names_ok(m)
    &&& forall|b: Seq<char>| #[trigger] w.files.contains_key(s_join(d, log_of(b))) ==> issued(m, b)
    &&& forall|b: Seq<char>| #[trigger] w.files.contains_key(s_join(d, diff_of(b))) ==> issued(m, b)
}
pub open spec fn only_at(a: World, b: World, p: Seq<char>) -> bool { forall|q: Seq<char>| q != p ==> #[trigger] b.files.contains_key(q) == a.files.contains_key(q) && (b.files.contains_key(q) ==> b.files[q] == a.files[q]) }
//%fn output.rs ScenarioOutput::message
//%wparam Tracked(w): Tracked<&mut World>
//%ghost v_write
//%spec
    ensures final(self).output_dir == old(self).output_dir, final(self).log_path == old(self).log_path, final(self).diff_path == old(self).diff_path, final(self).log_file@ == old(self).log_file@,
        old(w).io_failed ==> final(w).io_failed, final(w).files.dom() == old(w).files.dom(), only_at(*old(w), *final(w), old(self).log_file@.path), r is Err ==> final(w).io_failed, r is Ok ==> final(w).io_failed == old(w).io_failed,
        r is Ok && old(self).log_file@.append && old(w).files.contains_key(old(self).log_file@.path) ==> final(w).files[old(self).log_file@.path] == old(w).files[old(self).log_file@.path] + ("\n*** "@ + message@ + "\n"@),
//%entry
    proof { assert forall|f: Seq<char>| #![trigger Seq::<char>::empty() + f] Seq::<char>::empty() + f =~= f by {} }
//%end
/// the log of this output
pub open spec fn log_ok(o: ScenarioOutput, d: Seq<char>, b: Seq<char>) -> bool {
    o.output_dir@ == d && o.log_path@ == log_of(b) && o.log_file@.path == s_join(d, log_of(b)) && o.log_file@.append && (o.diff_path matches Some(p) ==> p@ == diff_of(b))
}
//%fn output.rs ScenarioOutput::new
//%as v_new
//%wparam Tracked(w): Tracked<&mut World>
//%ghost open message
//%spec
    ensures
        r matches Ok(o) ==> log_ok(o, output_dir@, basename@) && (o.diff_path is Some) == (*scenario is Mutant) && !old(w).files.contains_key(s_join(output_dir@, log_of(basename@))) && final(w).files.contains_key(s_join(output_dir@, log_of(basename@))),
        only_at(*old(w), *final(w), s_join(output_dir@, log_of(basename@))),
        r is Err ==> final(w).io_failed || old(w).files.contains_key(s_join(output_dir@, log_of(basename@))),
        r is Ok ==> final(w).io_failed == old(w).io_failed,
//%entry
    proof { assert forall|f: Seq<char>| #![trigger Seq::<char>::empty() + f] Seq::<char>::empty() + f =~= f by {} }
//%end
/// the base name for a scenario
pub open spec fn base_for(s: Scenario, k: Seq<char>) -> bool { match s { Scenario::Baseline => k == "baseline"@, Scenario::Mutant(m) => exists|f: Seq<char>| k == #[trigger] base_of(f, m.span.start.line as nat, m.span.start.column as nat) } }
pub open spec fn given(m: Map<Seq<char>, usize>, n: Map<Seq<char>, usize>, k: Seq<char>, i: nat) -> bool { if m.contains_key(k) { i == m[k] + 1 && n == m.insert(k, i as usize) } else { i == 0 && n == m.insert(k, 0usize) } }
//%fn output.rs OutputDir::start_scenario
//%wparam Tracked(w): Tracked<&mut World>
//%ghost v_new
//%paths ScenarioOutput::new => ScenarioOutput::v_new
//%opaque 1 `"baseline".into()` => `v_to_string("baseline")`
//%spec
    requires out_ok(*old(w), old(self).path@, old(self).used_log_names@), forall|k: Seq<char>| old(self).used_log_names@.contains_key(k) ==> #[trigger] old(self).used_log_names@[k] < usize::MAX,
    ensures
        final(self).path == old(self).path,
        out_ok(*final(w), final(self).path@, final(self).used_log_names@),
        forall|b: Seq<char>| #[trigger] issued(old(self).used_log_names@, b) ==> issued(final(self).used_log_names@, b),
        r matches Ok(o) ==> (exists|b: Seq<char>| #[trigger] log_ok(o, old(self).path@, b) && no_sep(b) && !issued(old(self).used_log_names@, b) && issued(final(self).used_log_names@, b)) && (o.diff_path is Some) == (*scenario is Mutant),
        r matches Ok(o) ==> !old(w).files.contains_key(s_join(old(self).path@, o.log_path@)) && (o.diff_path matches Some(p) ==> !final(w).files.contains_key(s_join(old(self).path@, p@))),
        r is Err ==> final(w).io_failed,
//%entry
    broadcast use ax_join;
    let ghost m0 = self.used_log_names@; let ghost w0 = *w; let ghost d = self.path@;
    proof { reveal_strlit("baseline"); assert forall|f: Seq<char>| #![trigger Seq::<char>::empty() + f] Seq::<char>::empty() + f =~= f by {}
        assert forall|k: Seq<char>, x: usize| is_base(k) && (if m0.contains_key(k) { x == m0[k] + 1 } else { x == 0 }) implies fresh_name(m0, #[trigger] m0.insert(k, x), nth(k, x as nat)) by { l_fresh(m0, m0.insert(k, x), k, x as nat); }
        assert forall|b: Seq<char>, n: Map<Seq<char>, usize>, w1: World| #[trigger] fresh_name(m0, n, b) && #[trigger] only_at(w0, w1, s_join(d, log_of(b))) implies out_ok(w1, d, n) && !w0.files.contains_key(s_join(d, log_of(b))) && !w1.files.contains_key(s_join(d, diff_of(b))) by { l_out(w0, w1, d, m0, n, b); } }
//%end
pub open spec fn fresh_name(m: Map<Seq<char>, usize>, n: Map<Seq<char>, usize>, b: Seq<char>) -> bool {
    no_sep(b) && !issued(m, b) && issued(n, b) && names_ok(n) && (forall|c: Seq<char>| #[trigger] issued(m, c) ==> issued(n, c)) }
pub proof fn l_fresh(m: Map<Seq<char>, usize>, n: Map<Seq<char>, usize>, k: Seq<char>, i: nat)
    requires names_ok(m), is_base(k), given(m, n, k, i), i <= usize::MAX,
    ensures fresh_name(m, n, nth(k, i))
{
    let b = nth(k, i);
    if issued(m, b) { let (j, x) = choose|j: Seq<char>, x: nat| m.contains_key(j) && x <= m[j] && b == #[trigger] nth(j, x); l_inj(k, i, j, x); }
    assert(n.contains_key(k) && i <= n[k] && b == nth(k, i));
    assert forall|c: Seq<char>| #[trigger] issued(m, c) implies issued(n, c) by { let (j, x) = choose|j: Seq<char>, x: nat| m.contains_key(j) && x <= m[j] && c == #[trigger] nth(j, x); assert(n.contains_key(j) && x <= n[j] && c == nth(j, x)); }
    l_dec(i); reveal_strlit("_");
}
pub proof fn l_out(w0: World, w1: World, d: Seq<char>, m: Map<Seq<char>, usize>, n: Map<Seq<char>, usize>, b: Seq<char>)
    requires out_ok(w0, d, m), fresh_name(m, n, b), only_at(w0, w1, s_join(d, log_of(b))),
    ensures out_ok(w1, d, n), !w0.files.contains_key(s_join(d, log_of(b))), !w1.files.contains_key(s_join(d, diff_of(b))),
{
    broadcast use ax_join;
    assert forall|c: Seq<char>| #[trigger] w1.files.contains_key(s_join(d, log_of(c))) implies issued(n, c) by { l_paths(c, b); l_paths(b, c); if c != b { assert(w0.files.contains_key(s_join(d, log_of(c)))); } }
    assert forall|c: Seq<char>| #[trigger] w1.files.contains_key(s_join(d, diff_of(c))) implies issued(n, c) by { l_paths(b, c); l_paths(c, b); assert(w0.files.contains_key(s_join(d, diff_of(c)))); }
    l_paths(b, b);
}
//%fn output.rs ScenarioOutput::log_path
//%spec
    ensures r@ == self.log_path@,
//%end
//%fn output.rs ScenarioOutput::write_diff
//%wparam Tracked(w): Tracked<&mut World>
//%ghost message write
//%spec
    requires old(self).diff_path is Some, exists|b: Seq<char>| log_ok(*old(self), old(self).output_dir@, b),
    ensures final(self).output_dir == old(self).output_dir, final(self).log_path == old(self).log_path, final(self).diff_path == old(self).diff_path, final(self).log_file@ == old(self).log_file@,
        r is Ok ==> final(w).files.contains_key(s_join(old(self).output_dir@, old(self).diff_path->0@)) && final(w).files[s_join(old(self).output_dir@, old(self).diff_path->0@)] == diff@,
        forall|q: Seq<char>| q != old(self).log_file@.path && q != s_join(old(self).output_dir@, old(self).diff_path->0@) ==> #[trigger] final(w).files.contains_key(q) == old(w).files.contains_key(q) && (final(w).files.contains_key(q) ==> final(w).files[q] == old(w).files[q]),
        r is Err ==> final(w).io_failed,
//%end
//%fn output.rs ScenarioOutput::open_log_read
//%wparam Tracked(w): Tracked<&mut World>
//%ghost open
//%spec
    ensures only_at(*old(w), *final(w), s_join(self.output_dir@, self.log_path@)), old(w).files.contains_key(s_join(self.output_dir@, self.log_path@)) ==> final(w).files == old(w).files, r matches Ok(f) ==> f@.path == s_join(self.output_dir@, self.log_path@),
//%end
//%fn output.rs ScenarioOutput::open_log_append
//%wparam Tracked(w): Tracked<&mut World>
//%ghost open
//%spec
    ensures only_at(*old(w), *final(w), s_join(self.output_dir@, self.log_path@)), old(w).files.contains_key(s_join(self.output_dir@, self.log_path@)) ==> final(w).files == old(w).files, r matches Ok(f) ==> f@.path == s_join(self.output_dir@, self.log_path@) && f@.append,
//%end
// ---- the diff (assumed: the similar crate's unified diff turns its first text into its second, if its labels are single lines) ----
/// d is a unified diff that turns a into b
pub uninterp spec fn patches(d: Seq<char>, a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
pub struct TextDiff { _p: u8 }
#[verifier::external_body]
pub struct UDiff { _p: u8 }
pub ghost struct Ud { pub a: Seq<char>, pub b: Seq<char>, pub labels: Option<(Seq<char>, Seq<char>)> }
impl View for TextDiff { type V = (Seq<char>, Seq<char>); uninterp spec fn view(&self) -> (Seq<char>, Seq<char>); }
impl View for UDiff { type V = Ud; uninterp spec fn view(&self) -> Ud; }
impl TextDiff {
    #[verifier::external_body] pub fn from_lines(a: &str, b: &str) -> (r: TextDiff) ensures r@ == (a@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn unified_diff(self) -> (r: UDiff) ensures r@ == (Ud { a: self@.0, b: self@.1, labels: None }) { unimplemented!() }
}
impl UDiff {
    #[verifier::external_body] pub fn context_radius(self, n: usize) -> (r: UDiff) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn header(self, x: &String, y: &String) -> (r: UDiff) ensures r@ == (Ud { labels: Some((x@, y@)), ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(self) -> (r: String) ensures (self@.labels matches Some(l) ==> !s_has(l.0, '\n') && !s_has(l.1, '\n')) ==> patches(r@, self@.a, self@.b) { unimplemented!() }
}
impl Mutant { #[verifier::external_body] pub fn describe_change(&self) -> (r: String) { unimplemented!() } }
//%fn mutant.rs Mutant::diff
//%spec
    ensures !s_has(s_slashes(self.source_file), '\n') ==> patches(r@, s_code(self.source_file), mutated_code@),
//%entry
    proof { reveal_strlit(" "); }
//%end
/// two scenarios of one run: the later one's files are not those of the earlier one
pub proof fn thm_own_files(m1: Map<Seq<char>, usize>, m2: Map<Seq<char>, usize>, d: Seq<char>, a: ScenarioOutput, ba: Seq<char>, b: ScenarioOutput, bb: Seq<char>)
    requires issued(m1, ba), forall|x: Seq<char>| #[trigger] issued(m1, x) ==> issued(m2, x), log_ok(a, d, ba), log_ok(b, d, bb), !issued(m2, bb),
    ensures a.log_path@ != b.log_path@, s_join(d, a.log_path@) != s_join(d, b.log_path@), a.diff_path matches Some(p) ==> (b.diff_path matches Some(q) ==> p@ != q@ && s_join(d, p@) != s_join(d, q@)),
{ broadcast use ax_join; l_paths(ba, bb); l_paths(bb, ba); }
} // verus!
fn main() {}
