use vstd::prelude::*;
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_path.vrs
//%type span.rs LineColumn derive(Clone, Copy)
//%type span.rs Span derive(Clone, Copy)

/// Position (line, column) of the character at index i of s, both 1-based, newlines ending lines.
pub open spec fn pos_line(s: Seq<char>, i: int) -> int
    decreases i
{ if i <= 0 { 1 } else if s[i - 1] == '\n' { pos_line(s, i - 1) + 1 } else { pos_line(s, i - 1) } }

pub open spec fn pos_col(s: Seq<char>, i: int) -> int
    decreases i
{ if i <= 0 { 1 } else if s[i - 1] == '\n' { 1 } else { pos_col(s, i - 1) + 1 } }

pub open spec fn no_cr(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '\r' }

pub open spec fn lex_lt(l1: int, c1: int, l2: int, c2: int) -> bool { l1 < l2 || (l1 == l2 && c1 < c2) }

/// Positions grow strictly with the index.
pub proof fn pos_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures lex_lt(pos_line(s, i), pos_col(s, i), pos_line(s, j), pos_col(s, j)),
    decreases j - i
{
    if j > i + 1 { pos_mono(s, i, j - 1); }
}
pub proof fn pos_bounds(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures 1 <= pos_line(s, i) <= i + 1, 1 <= pos_col(s, i) <= i + 1,
    decreases i
{ if i > 0 { pos_bounds(s, i - 1); } }

/// The span denotes the characters from index a (inclusive) to b (exclusive) of s.
pub open spec fn denotes(sp: Span, s: Seq<char>, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= s.len()
    &&& sp.start.line == pos_line(s, a) && sp.start.column == pos_col(s, a)
    &&& sp.end.line == pos_line(s, b) && sp.end.column == pos_col(s, b)
}

//%fn span.rs Span::replace
//%paths String::with_capacity => v_string_with_capacity
//%paths s.len() => v_str_len(s)
//%paths replacement.len() => v_str_len(replacement)
//%spec
    requires no_cr(s@), s@.len() + replacement@.len() < 0xff_ffff_ffff, exists|a: int, b: int| denotes(*self, s@, a, b),
    ensures forall|a: int, b: int| #[trigger] denotes(*self, s@, a, b) ==> r@ == s@.take(a) + replacement@ + s@.skip(b),
//%entry
    let ghost (ga, gb) = choose|a: int, b: int| denotes(*self, s@, a, b);
    proof {
        assert forall|a: int, b: int| #[trigger] denotes(*self, s@, a, b) implies a == ga && b == gb by {
            if a < ga { pos_mono(s@, a, ga); } else if ga < a { pos_mono(s@, ga, a); }
            if b < gb { pos_mono(s@, b, gb); } else if gb < b { pos_mono(s@, gb, b); }
        }
    }
//%loop 0 it it
//%loop 0
    invariant
        0 <= it.index@ <= s@.len(),
        no_cr(s@), s@.len() < 0xff_ffff_ffff, denotes(*self, s@, ga, gb),
        start == self.start, end == self.end,
        it.snapshot@.remaining() == s@,
        line_no == pos_line(s@, it.index@), col_no == pos_col(s@, it.index@),
        r@ == (if it.index@ <= ga { s@.take(it.index@) } else if it.index@ <= gb { s@.take(ga) + replacement@ } else { s@.take(ga) + replacement@ + s@.subrange(gb, it.index@) }),
//%loop 0 start
    proof {
        let i = it.index@;
        pos_bounds(s@, i); pos_bounds(s@, i + 1);
        assert(c == s@[i]);
        assert(s@.take(i + 1) == s@.take(i).push(c));
        if i >= gb { assert(s@.subrange(gb, i + 1) == s@.subrange(gb, i).push(c)); }
        if i < ga { pos_mono(s@, i, ga); } else if ga < i { pos_mono(s@, ga, i); }
        if i < gb { pos_mono(s@, i, gb); } else if gb < i { pos_mono(s@, gb, i); }
    }
//%loop 0 after
    proof {
        pos_bounds(s@, s@.len() as int);
        if ga < s@.len() { pos_mono(s@, ga, s@.len() as int); }
        if gb < s@.len() { pos_mono(s@, gb, s@.len() as int); }
        assert(s@.subrange(gb, s@.len() as int) == s@.skip(gb));
        assert(s@.take(ga) + replacement@ + s@.skip(s@.len() as int) == s@.take(ga) + replacement@);
    }
//%end

//%fn span.rs Span::extract
//%spec
    requires no_cr(s@), s@.len() < 0xff_ffff_ffff, exists|a: int, b: int| denotes(*self, s@, a, b),
    ensures forall|a: int, b: int| #[trigger] denotes(*self, s@, a, b) ==> r@ == s@.subrange(a, b),
//%entry
    let ghost (ga, gb) = choose|a: int, b: int| denotes(*self, s@, a, b);
    proof {
        assert forall|a: int, b: int| #[trigger] denotes(*self, s@, a, b) implies a == ga && b == gb by {
            if a < ga { pos_mono(s@, a, ga); } else if ga < a { pos_mono(s@, ga, a); }
            if b < gb { pos_mono(s@, b, gb); } else if gb < b { pos_mono(s@, gb, b); }
        }
        assert(s@.subrange(ga, ga) == Seq::<char>::empty());
        assert(s@.subrange(gb, gb) == Seq::<char>::empty());
    }
//%loop 0 it it
//%loop 0
    invariant_except_break
        0 <= it.index@ <= s@.len(),
        it.snapshot@.remaining() == s@,
        line_no == pos_line(s@, it.index@), col_no == pos_col(s@, it.index@),
        r@ == (if it.index@ <= ga { Seq::<char>::empty() } else if it.index@ <= gb { s@.subrange(ga, it.index@) } else { s@.subrange(ga, gb) }),
    invariant
        no_cr(s@), s@.len() < 0xff_ffff_ffff, denotes(*self, s@, ga, gb),
        start == self.start, end == self.end,
    ensures r@ == s@.subrange(ga, gb),
//%loop 0 start
    proof {
        let i = it.index@;
        pos_bounds(s@, i); pos_bounds(s@, i + 1);
        assert(c == s@[i]);
        if ga <= i { assert(s@.subrange(ga, i + 1) == s@.subrange(ga, i).push(c)); }
        if i < ga { pos_mono(s@, i, ga); } else if ga < i { pos_mono(s@, ga, i); }
        if i < gb { pos_mono(s@, i, gb); } else if gb < i { pos_mono(s@, gb, i); }
        if i + 1 < gb { pos_mono(s@, i + 1, gb); } else if gb < i + 1 { pos_mono(s@, gb, i + 1); }
    }
//%end

//%const main.rs MUTATION_MARKER_COMMENT
//%shim Arc<Package> => Package
//%shim Arc<Function> => Function
//%shim proc_macro2::LineColumn => PmLineColumn
//%shim proc_macro2::Span => PmSpan
//%type source.rs SourceFile
//%type mutant.rs Genre
//%type mutant.rs Mutant

/// proc_macro2::LineColumn: line from 1, column from 0 (documented)
pub struct PmLineColumn { pub line: usize, pub column: usize }
#[verifier::external_body]
pub struct PmSpan { _p: u8 }
impl PmSpan {
    pub uninterp spec fn s_start(&self) -> PmLineColumn;
    pub uninterp spec fn s_end(&self) -> PmLineColumn;
    #[verifier::external_body]
    pub fn start(&self) -> (r: PmLineColumn) ensures r == self.s_start() { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: PmLineColumn) ensures r == self.s_end() { unimplemented!() }
}
//%fn span.rs <LineColumn as From<proc_macro2::LineColumn>>::from
//%as from_pm_linecolumn
//%spec
    requires l.column < usize::MAX,
    ensures r.line == l.line, r.column == l.column + 1,
//%end
//%fn span.rs <Span as From<proc_macro2::Span>>::from
//%as from_pm_span
//%paths s.start().into() => LineColumn::from_pm_linecolumn(s.start())
//%paths s.end().into() => LineColumn::from_pm_linecolumn(s.end())
//%spec
    requires s.s_start().column < usize::MAX, s.s_end().column < usize::MAX,
    ensures r.start.line == s.s_start().line, r.start.column == s.s_start().column + 1, r.end.line == s.s_end().line, r.end.column == s.s_end().column + 1,
//%end
//%fn span.rs <Span as From<&proc_macro2::Span>>::from
//%as from_pm_span_ref
//%paths s.start().into() => LineColumn::from_pm_linecolumn(s.start())
//%paths s.end().into() => LineColumn::from_pm_linecolumn(s.end())
//%spec
    requires s.s_start().column < usize::MAX, s.s_end().column < usize::MAX,
    ensures r.start.line == s.s_start().line, r.start.column == s.s_start().column + 1, r.end.line == s.s_end().line, r.end.column == s.s_end().column + 1,
//%end
//%fn source.rs SourceFile::code
//%spec
    ensures r@ == self.code@,
//%end
//%fn mutant.rs Mutant::mutated_code
//%spec
    requires no_cr(self.source_file.code@), self.source_file.code@.len() + self.replacement@.len() < 0x7f_ffff_ffff,
        MUTATION_MARKER_COMMENT@.len() < 1000,
        exists|a: int, b: int| denotes(self.span, self.source_file.code@, a, b),
    ensures forall|a: int, b: int| #[trigger] denotes(self.span, self.source_file.code@, a, b) ==>
        r@ == self.source_file.code@.take(a) + (self.replacement@ + seq![' '] + MUTATION_MARKER_COMMENT@) + self.source_file.code@.skip(b),
//%entry
    proof { reveal_strlit(" "); assert(" "@ == seq![' ']); assert(Seq::<char>::empty() + self.replacement@ == self.replacement@);}
//%end
//%fn mutant.rs Mutant::original_text
//%spec
    requires no_cr(self.source_file.code@), self.source_file.code@.len() < 0x7f_ffff_ffff,
        exists|a: int, b: int| denotes(self.span, self.source_file.code@, a, b),
    ensures forall|a: int, b: int| #[trigger] denotes(self.span, self.source_file.code@, a, b) ==> r@ == self.source_file.code@.subrange(a, b),
//%end
} // verus!
fn main() {}
