use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_path.vrs
//%include shim_iter.vrs
#[verifier::external_body]
pub struct Mutant { _p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: u8 }
#[verifier::external_body]
pub struct Instant { _p: u8 }
//%trust unit outcome (check C03)
//%include outcome_core.vrs
//%trust off
//%include outcome_totals.vrs
//%type options.rs Options keep=print_caught,print_unviable,show_times,show_all_logs
#[verifier::external_body]
pub struct Progress { _p: u8 }
impl Progress {
    #[verifier::external_body]
    pub fn clear(&self) { unimplemented!() }
    /// the progress bar; its text is not part of the report
    #[verifier::external_body]
    pub fn v_progress(&self) { unimplemented!() }
}
pub struct Console { pub view: Progress }
/// what the program has printed on standard output, one item per write
pub tracked struct World { pub ghost printed: Seq<Seq<char>> }
#[verifier::external_body]
pub fn v_print(s: &str, Tracked(w): Tracked<&mut World>) ensures final(w).printed == old(w).printed.push(s@) { unimplemented!() }
// ---- texts ----
pub uninterp spec fn dec(n: nat) -> Seq<char>;
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn v_fmt(&self) -> (r: String) { unimplemented!() } }
pub open spec fn txs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
pub broadcast proof fn l_txs(v: Seq<String>, x: String) ensures #[trigger] txs(v.push(x)) == txs(v).push(x@) { assert(txs(v.push(x)) =~= txs(v).push(x@)); }
pub broadcast proof fn l_txs0(v: Seq<String>) requires v.len() == 0, ensures #[trigger] txs(v) == Seq::<Seq<char>>::empty() { assert(txs(v) =~= Seq::<Seq<char>>::empty()); }
pub trait VJoinTexts { spec fn jt(&self) -> Seq<Seq<char>>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jt(), sep@); }
impl VJoinTexts for Vec<String> { open spec fn jt(&self) -> Seq<Seq<char>> { txs(self@) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait VInto { spec fn it(&self) -> Seq<char>; fn v_into(&self) -> (r: String) ensures r@ == self.it(); }
impl VInto for str { open spec fn it(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_into(&self) -> (r: String) { unimplemented!() } }
//%methods join=v_join into=v_into expect=v_expect
impl core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub trait VExpect<T> { spec fn xv(&self) -> Option<T>; fn v_expect(self, m: &str) -> (r: T) where Self: Sized requires self.xv() is Some, ensures self.xv() == Some(r); }
impl<T> VExpect<T> for Result<T> { open spec fn xv(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn v_expect(self, m: &str) -> (r: T) { unimplemented!() } }
pub trait VCtx<T>: Sized { spec fn val(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r matches Ok(v) ==> self.val() == Some(v); }
impl<T> VCtx<T> for Result<T> { open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { self } }
// ---- console: a text that may be shown with colors ----
/// a text without its escape sequences
pub uninterp spec fn strip(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_strip(a: Seq<char>, b: Seq<char>) ensures #[trigger] strip(a + b) == strip(a) + strip(b);
pub broadcast axiom fn ax_strip0(a: Seq<char>) requires a.len() == 0, ensures #[trigger] strip(a) == Seq::<char>::empty();
pub broadcast proof fn l_strip_push(a: Seq<char>, c: char) ensures #[trigger] strip(a.push(c)) == strip(a) + strip(seq![c]) { broadcast use ax_strip; assert(a.push(c) =~= a + seq![c]); }
/// at least eight columns wide: blanks added after the text
pub uninterp spec fn pad8(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct StyledObject<T> { _p: core::marker::PhantomData<T> }
impl<T> StyledObject<T> {
    /// the text that is styled
    pub uninterp spec fn tx(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn green(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn red(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn blue(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn yellow(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn magenta(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn cyan(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn bold(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn bright(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn dim(self) -> (r: Self) ensures r.tx() == self.tx() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures strip(r@) == strip(self.tx()) { unimplemented!() }
}
#[verifier::external_body]
pub fn style<T: VDisp>(t: T) -> (r: StyledObject<T>) ensures r.tx() == t.disp() { unimplemented!() }
#[verifier::external_body]
pub fn v_disp8<T>(x: &StyledObject<T>) -> (r: String) ensures strip(r@) == strip(pad8(x.tx())) { unimplemented!() }
impl<T> VDisp for StyledObject<T> { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_fmt(&self) -> (r: String) { unimplemented!() } }
pub broadcast axiom fn ax_styled<T>(s: StyledObject<T>) ensures strip(#[trigger] s.disp()) == strip(s.tx());
// ---- times ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Secs { _p: u8 }
pub uninterp spec fn s_secs(d: Duration) -> Seq<char>;
impl Secs { pub uninterp spec fn one(&self) -> Seq<char>; }
impl Duration {
    #[verifier::external_body]
    pub fn as_secs_f32(&self) -> (r: Secs) ensures r.one() == s_secs(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> (r: Duration) { unimplemented!() }
}
impl Instant {
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_disp_1(x: &Secs) -> (r: String) ensures r@ == x.one() { unimplemented!() }
#[verifier::external_body]
pub struct FormattedDuration { _p: u8 }
/// some text that gives a time
pub uninterp spec fn is_time(s: Seq<char>) -> bool;
impl VDisp for FormattedDuration { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_fmt(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn format_duration(d: Duration) -> (r: FormattedDuration) ensures is_time(r.disp()) { unimplemented!() }
//%fn outcome.rs Phase::name
//%spec
    ensures r@ == s_phase(self),
//%end
pub open spec fn s_phase(p: Phase) -> Seq<char> { match p { Phase::Check => "check"@, Phase::Build => "build"@, Phase::Test => "test"@ } }
impl Phase {
    /// Display for Phase pads its name to no width
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == s_phase(*self) { unimplemented!() }
}
// ---- C28: the report of a scenario ----
pub open spec fn word(v: SummaryOutcome) -> Seq<char> {
    match v { SummaryOutcome::CaughtMutant => "caught"@, SummaryOutcome::MissedMutant => "MISSED"@, SummaryOutcome::Failure => "FAILED"@, SummaryOutcome::Success => "ok"@, SummaryOutcome::Unviable => "unviable"@, SummaryOutcome::Timeout => "TIMEOUT"@ }
}
/// unit names
pub uninterp spec fn called(m: Mutant, lc: bool) -> Seq<char>;
impl Mutant {
    #[verifier::external_body]
    pub fn to_styled_string(&self, lc: bool) -> (r: String) ensures strip(r@) == strip(called(*self, lc)) { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self, lc: bool) -> (r: String) ensures r@ == called(*self, lc) { unimplemented!() }
}
pub open spec fn s_scenario(s: Scenario, lc: bool) -> Seq<char> { match s { Scenario::Baseline => "Unmutated baseline"@, Scenario::Mutant(m) => called(m, lc) } }
//%shim Cow<'static, str> => CowStr
pub enum CowStr { Borrowed(&'static str), Owned(String) }
//%paths Cow::Borrowed => CowStr::Borrowed
//%paths Cow::Owned => CowStr::Owned
impl VDisp for CowStr { open spec fn disp(&self) -> Seq<char> { match *self { CowStr::Borrowed(s) => s@, CowStr::Owned(s) => s@ } } #[verifier::external_body] fn v_fmt(&self) -> (r: String) { unimplemented!() } }
//%fn console.rs style_scenario
//%spec
    ensures strip(r.disp()) == strip(s_scenario(*scenario, line_col)),
//%end
//%fn console.rs style_outcome
//%spec
    requires outcome.phase_results@.len() > 0,
    ensures r.tx() == word(verdict(*outcome)),
//%end
//%fn console.rs style_secs
//%spec
    ensures strip(r@) == strip(s_secs(duration) + "s"@),
//%entry
    proof { reveal_strlit("s"); }
//%exit
    proof { assert(Seq::<char>::empty() + s_secs(duration) =~= s_secs(duration)); }
//%end
pub open spec fn phase_time(p: PhaseResult) -> Seq<char> { s_secs(p.duration) + "s"@ + " "@ + s_phase(p.phase) }
pub open spec fn phase_times(v: Seq<PhaseResult>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| phase_time(v[i])) }
/// what a file holds; not every file holds text
pub uninterp spec fn s_bytes(p: Seq<char>) -> Seq<u8>;
pub uninterp spec fn readable(p: Seq<char>) -> bool;
pub uninterp spec fn is_utf8(b: Seq<u8>) -> bool;
/// the text some bytes encode, with a mark for each that encodes none
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub open spec fn s_file(p: Seq<char>) -> Seq<char> { lossy(s_bytes(p)) }
pub uninterp spec fn s_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn read_to_string(p: Utf8PathBuf) -> (r: Result<String>) ensures r is Ok <==> readable(p@) && is_utf8(s_bytes(p@)), r matches Ok(t) ==> t@ == s_file(p@) { unimplemented!() }
#[verifier::external_body]
pub fn read(p: Utf8PathBuf) -> (r: Result<Vec<u8>>) ensures r is Ok <==> readable(p@), r matches Ok(t) ==> t@ == s_bytes(p@) { unimplemented!() }
pub struct VLossy { pub t: String }
impl VLossy { pub fn into_owned(self) -> (r: String) ensures r@ == self.t@ { self.t }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t@ { unimplemented!() } }
#[verifier::external_body]
pub fn v_from_utf8_lossy(b: &[u8]) -> (r: VLossy) ensures r.t@ == lossy(b@) { unimplemented!() }
impl Utf8PathBuf { #[verifier::external_body] pub fn v_pjoin(&self, p: &Utf8PathBuf) -> (r: Utf8PathBuf) ensures r@ == s_join(self@, p@) { unimplemented!() } }
pub open spec fn s_log(o: ScenarioOutcome) -> Seq<char> { s_file(s_join(o.output_dir@, o.log_path@)) }
//%fn outcome.rs ScenarioOutcome::get_log_content
//%methods join=v_pjoin
//%paths String::from_utf8_lossy => v_from_utf8_lossy
//%paths std::fs::read_to_string => read_to_string
//%paths fs::read_to_string => read_to_string
//%paths std::fs::read => read
//%paths fs::read => read
//%spec
    ensures r is Ok <==> readable(s_join(self.output_dir@, self.log_path@)), r matches Ok(t) ==> t@ == s_log(*self),
//%end
impl ScenarioOutcome {
    #[verifier::external_body]
    pub fn phase_results(&self) -> (r: &[PhaseResult]) ensures r@ == self.phase_results@ { unimplemented!() }
}
//%fn outcome.rs ScenarioOutcome::should_show_logs
//%spec
    requires self.phase_results@.len() > 0,
    ensures r == (!(self.scenario is Mutant) && self.phase_results@.last().process_status != Exit::Success),
//%end
/// a phase was run only after those before it succeeded (unit lab)
pub open spec fn stopped(o: ScenarioOutcome) -> bool { o.phase_results@.len() > 0 && forall|i: int| 0 <= i < o.phase_results@.len() - 1 ==> (#[trigger] o.phase_results@[i]).process_status == Exit::Success }
/// caught mutants are reported only on request, and unviable ones
pub open spec fn hidden(o: ScenarioOutcome, p: Options) -> bool {
    o.scenario is Mutant && (verdict(o) == SummaryOutcome::CaughtMutant && !p.print_caught || verdict(o) == SummaryOutcome::Unviable && !p.print_unviable)
}
pub open spec fn report(o: ScenarioOutcome, p: Options) -> Seq<char> {
    pad8(word(verdict(o))) + " "@ + s_scenario(o.scenario, true)
    + (if p.show_times { " in "@ + joined(phase_times(o.phase_results@), " + "@) } else { Seq::empty() })
    + (if !(o.scenario is Mutant) && o.phase_results@.last().process_status != Exit::Success || p.show_all_logs { seq!['\n'] + s_log(o) } else { Seq::empty() })
    + seq!['\n']
}
pub broadcast proof fn l_joined(a: Seq<Seq<char>>, b: Seq<Seq<char>>, sep: Seq<char>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> strip(#[trigger] a[i]) == strip(b[i]),
    ensures #![trigger joined(a, sep), joined(b, sep)] strip(joined(a, sep)) == strip(joined(b, sep))
    decreases a.len()
{ broadcast use ax_strip, ax_strip0; if a.len() > 1 { l_joined(a.drop_last(), b.drop_last(), sep); assert(strip(a.last()) == strip(a[a.len() - 1])); } else if a.len() == 1 { assert(strip(a[0]) == strip(b[0])); } }
//%fn console.rs Console::message
//%wparam
//%opaque 1 `print!("{message}")` => `v_print(message, Tracked(w))`
//%spec
    ensures final(w).printed == old(w).printed.push(message@),
//%end
//%ghost message
//%fn console.rs Console::scenario_finished
//%wparam
//%opaque 1 `self.view.update(...)` => `self.view.v_progress()`
//%closure 0
    |$0: &PhaseResult| -> (t: String) ensures strip(t@) == strip(phase_time(*$0))
//%spec
    requires *scenario == outcome.scenario, stopped(*outcome), readable(s_join(outcome.output_dir@, outcome.log_path@)),
    ensures
        hidden(*outcome, *options) ==> final(w).printed == old(w).printed,
        !hidden(*outcome, *options) ==> final(w).printed.len() == old(w).printed.len() + 1 && final(w).printed.drop_last() == old(w).printed && strip(final(w).printed.last()) == strip(report(*outcome, *options)),
//%entry
    broadcast use ax_strip, ax_strip0, l_strip_push, ax_styled, l_joined;
//%end
// ---- the last line ----
pub open spec fn s_plural(n: nat, noun: Seq<char>) -> Seq<char> { if n == 1 { dec(n) + " "@ + noun } else { dec(n) + " "@ + noun + "s"@ } }
//%fn console.rs plural
//%spec
    ensures r@ == s_plural(n as nat, noun@),
//%end
pub open spec fn put(v: Seq<Seq<char>>, n: nat, t: Seq<char>) -> Seq<Seq<char>> { if n == 0 { v } else { v.push(dec(n) + t) } }
pub open spec fn counts(missed: nat, caught: nat, unviable: nat, timeout: nat, success: nat) -> Seq<Seq<char>> {
    put(put(put(put(put(Seq::empty(), missed, " missed"@), caught, " caught"@), unviable, " unviable"@), timeout, " timeouts"@), success, " succeeded"@)
}
pub open spec fn totals(v: Seq<ScenarioOutcome>) -> Seq<Seq<char>> {
    counts(count_verdict(v, SummaryOutcome::MissedMutant), count_verdict(v, SummaryOutcome::CaughtMutant), count_verdict(v, SummaryOutcome::Unviable), count_verdict(v, SummaryOutcome::Timeout), count_verdict(v, SummaryOutcome::Success))
}
pub open spec fn last_line(v: Seq<ScenarioOutcome>, t: Option<Seq<char>>) -> Seq<char> {
    s_plural(count_mutants(v), "mutant"@) + " tested"@ + (match t { Some(d) => " in "@ + d, None => Seq::empty() }) + ": "@ + joined(totals(v), ", "@)
}
pub open spec fn is_last_line(r: Seq<char>, v: Seq<ScenarioOutcome>, times: bool) -> bool {
    if times { exists|d: Seq<char>| is_time(d) && r == #[trigger] last_line(v, Some(d)) } else { r == last_line(v, None) }
}
pub broadcast proof fn l_join_push(v: Seq<Seq<char>>, x: Seq<char>, sep: Seq<char>) requires sep.len() == 0, ensures #[trigger] joined(v.push(x), sep) == joined(v, sep) + x
{ assert(v.push(x).drop_last() =~= v); if v.len() == 0 { assert(joined(v, sep) + x =~= x); } else { assert(joined(v, sep) + sep + x =~= joined(v, sep) + x); } }
pub broadcast proof fn l_join0(v: Seq<Seq<char>>, sep: Seq<char>) requires v.len() == 0, ensures #[trigger] joined(v, sep) == Seq::<char>::empty() {}
//%fn outcome.rs LabOutcome::summary_string
//%spec
    requires lab_ok(*self),
    ensures is_last_line(r@, self.outcomes@, options.show_times),
//%entry
    broadcast use l_txs, l_txs0, l_join_push, l_join0;
    proof { reveal_strlit(""); }
//%exit
    proof {
        let v = self.outcomes@;
        if options.show_times {
            assert forall|d: Seq<char>| #[trigger] is_time(d) && (r@ =~= last_line(v, Some(d))) implies is_last_line(r@, v, true) by { assert(r@ == last_line(v, Some(d))); }
        } else { assert(r@ =~= last_line(v, None)); }
    }
//%end
//%fn console.rs Console::discovered_mutants
//%wparam
//%opaque 1 `self.view.update(...)` => `self.view.v_progress()`
//%spec
    ensures final(w).printed.len() == old(w).printed.len() + 1, final(w).printed.drop_last() == old(w).printed,
        final(w).printed.last() == "Found "@ + s_plural(mutants@.len(), "mutant"@) + " to test\n"@,
//%exit
    proof { assert(final(w).printed.last() =~= "Found "@ + s_plural(mutants@.len(), "mutant"@) + " to test\n"@); }
//%end
//%fn console.rs Console::lab_finished
//%wparam
//%opaque 1 `self.view.update(...)` => `self.view.v_progress()`
//%spec
    requires lab_ok(*lab_outcome),
    ensures final(w).printed.len() == old(w).printed.len() + 1, final(w).printed.drop_last() == old(w).printed,
        exists|l: Seq<char>| is_last_line(l, lab_outcome.outcomes@, options.show_times) && final(w).printed.last() == #[trigger] l.push('\n'),
//%exit
    proof { reveal_strlit("\n"); let p = final(w).printed.last(); assert forall|l: Seq<char>| #[trigger] is_last_line(l, lab_outcome.outcomes@, options.show_times) && p =~= l.push('\n') implies p == l.push('\n') by {} }
//%end
} // verus!
fn main() {}
