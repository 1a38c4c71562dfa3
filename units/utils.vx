// Unit `utils`: editor positions and source offsets (C13).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule pub ( crate ) ==>
//@ include text.inc

//@ type ticc-syntax/src/pos.rs Pos | #[derive(Clone, Copy)]
impl Pos {
//@ fn ticc-syntax/src/pos.rs Pos::new
//@ ret r
    ensures r.offset == offset,
//@ end
//@ fn ticc-syntax/src/pos.rs Pos::source_pos
//@ ret r
    ensures r == self.offset,
//@ end
}
#[derive(Clone, Copy)]
pub struct Position { pub line: u32, pub character: u32 }

//@ type ticc-lsp/src/utils.rs LocationTranslator

/// v[i] is where line i starts, for i < v.len(), and there is no line start between them
pub open spec fn starts(s: Seq<char>, v: Seq<usize>) -> bool {
    &&& v.len() > 0
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] start_ok(s, v, i)
    &&& forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] gap_ok(s, v, i)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j]
}
pub open spec fn start_ok(s: Seq<char>, v: Seq<usize>, i: int) -> bool {
    let k = at(s, v[i] as int);
    &&& boundary(s, v[i] as int)
    &&& line(s, k) == i
    &&& col(s, k) == 0
    &&& i > 0 ==> k > 0 && s[k - 1] == '\n'
}
/// no line feed inside line i
pub open spec fn gap_ok(s: Seq<char>, v: Seq<usize>, i: int) -> bool {
    forall|k: int| at(s, v[i] as int) <= k < at(s, v[i + 1] as int) - 1 ==> #[trigger] s[k] != '\n'
}
spec fn inv(t: LocationTranslator) -> bool {
    &&& starts(t.source@, t.line_starts@)
    &&& t.complete ==> forall|k: int| at(t.source@, t.line_starts@.last() as int) <= k < t.source@.len() ==> t.source@[k] != '\n'
    &&& off(t.source@, t.source@.len()) < 0x1_0000_0000
}
/// std: <[usize]>::binary_search on a sorted slice
#[verifier::external_body]
fn vx_binary_search(v: &Vec<usize>, x: &usize) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i < j < v@.len() ==> v@[i] < v@[j],
    ensures match r {
        Ok(i) => i < v@.len() && v@[i as int] == *x,
        Err(i) => i <= v@.len() && (forall|j: int| 0 <= j < i ==> v@[j] < *x) && (forall|j: int| i <= j < v@.len() ==> v@[j] > *x),
    } { unimplemented!() }
fn vx_last(v: &Vec<usize>) -> (r: &usize) requires v@.len() > 0, ensures *r == v@.last() { &v[v.len() - 1] }
fn vx_get(v: &Vec<usize>, i: usize) -> (r: Option<usize>)
    ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { if i < v.len() { Some(v[i]) } else { None } }
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { unimplemented!() }

/// character k starts the line after the ones in v
proof fn next_start(s: Seq<char>, v: Seq<usize>, k: nat)
    requires starts(s, v), at(s, v.last() as int) <= k < s.len(), s[k as int] == '\n',
        forall|i: int| at(s, v.last() as int) <= i < k ==> s[i] != '\n', off(s, k + 1) <= usize::MAX,
    ensures starts(s, v.push(off(s, k + 1) as usize)),
{
    let w = v.push(off(s, k + 1) as usize);
    let n = v.len() - 1;
    at_off(s, k + 1);
    assert(start_ok(s, v, n));
    same_line(s, at(s, v[n] as int), k);
    assert(line(s, k + 1) == n + 1);
    assert(col(s, k + 1) == 0);
    at_lt(s, v[n] as int, k + 1);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] start_ok(s, w, i) by {
        if i < v.len() { assert(start_ok(s, v, i)); assert(w[i] == v[i]); }
    }
    assert forall|i: int| 0 <= i < w.len() - 1 implies #[trigger] gap_ok(s, w, i) by {
        assert(w[i] == v[i]);
        if i < v.len() - 1 { assert(gap_ok(s, v, i)); assert(w[i + 1] == v[i + 1]); }
    }
}
proof fn at_lt(s: Seq<char>, a: int, k: nat)
    requires boundary(s, a), at(s, a) < k <= s.len(),
    ensures a < off(s, k),
{
    off_less(s, at(s, a), k);
}

impl<'a> LocationTranslator<'a> {
//@ fn ticc-lsp/src/utils.rs LocationTranslator::for_source
//@ ret r
    requires off(source@, source@.len()) < 0x1_0000_0000,
    ensures inv(r), r.source == source,
//@ head
    proof { at_off(source@, 0); }
//@ end

//@ fn ticc-lsp/src/utils.rs LocationTranslator::find_next_line_position
//@ rule * self . line_starts . last ( ) . unwrap ( ) ==> * vx_last ( & self . line_starts )
//@ rule & self . source [ last .. ] ==> vx_from ( self . source , last )
//@ rule suffix . char_indices ( ) ==> vx_char_indices ( suffix )
    requires inv(*old(self)), !old(self).complete,
    ensures inv(*final(self)), final(self).source == old(self).source,
        final(self).complete ==> final(self).line_starts@ == old(self).line_starts@,
        !final(self).complete ==> final(self).line_starts@.len() == old(self).line_starts@.len() + 1
            && final(self).line_starts@.drop_last() == old(self).line_starts@,
//@ attr
#[verifier::loop_isolation(false)]
//@ before let last
    let ghost s = self.source@;
    let ghost v0 = self.line_starts@;
    let ghost a = at(s, v0.last() as int);
    proof {
        assert(start_ok(s, v0, v0.len() - 1));
        assert(a <= s.len());
    }
//@ loop 0
    invariant
        vx_it0.seq().len() == suffix@.len(), suffix@ == s.subrange(a as int, s.len() as int),
        forall|k: int| 0 <= k < suffix@.len() ==> #[trigger] vx_it0.seq()[k] == ((off(suffix@, k as nat) as usize), suffix@[k]),
        forall|k: int| 0 <= k < vx_it0.index() ==> suffix@[k] != '\n',
        *self == *old(self),
//@ loophead 0
    proof {
        let k = vx_it0.index() as nat;
        assert((i, c) == vx_it0.seq()[k as int]);
        off_sub(s, a, s.len(), k);
        off_le(s, (a + k) as nat, s.len());
        assert(off(suffix@, k) + last == off(s, a + k));
        if c == '\n' {
            off_le(s, (a + k + 1) as nat, s.len());
            assert(utf8('\n') == 1);
            assert(off(s, a + k + 1) == off(s, a + k) + utf8(s[(a + k) as int]));
            assert forall|i: int| a <= i < a + k implies s[i] != '\n' by { assert(suffix@[i - a] == s[i]); }
            next_start(s, v0, a + k);
            assert(v0.push(off(s, a + k + 1) as usize).drop_last() =~= v0);
        }
    }
//@ before self . complete = true
    proof {
        assert forall|k: int| a <= k < s.len() implies s[k] != '\n' by { assert(suffix@[k - a] == s[k]); }
    }
//@ end

//@ fn ticc-lsp/src/utils.rs LocationTranslator::line_index
//@ ret r
//@ rule * self . line_starts . last ( ) . unwrap ( ) ==> * vx_last ( & self . line_starts )
//@ rule self . line_starts . binary_search ( & pos ) ==> vx_binary_search ( & self . line_starts , & pos )
    requires inv(*old(self)), boundary(old(self).source@, pos as int),
    ensures inv(*final(self)), final(self).source == old(self).source,
        r < final(self).line_starts@.len(), final(self).line_starts@[r as int] <= pos,
        r == line(old(self).source@, at(old(self).source@, pos as int)),
        forall|k: int| at(old(self).source@, final(self).line_starts@[r as int] as int) <= k < at(old(self).source@, pos as int) ==> old(self).source@[k] != '\n',
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant inv(*self), self.source == old(self).source,
        self.complete || self.line_starts@.last() <= off(self.source@, self.source@.len()) ,
    decreases (if self.complete { 0int } else { 1 + off(self.source@, self.source@.len()) - self.line_starts@.last() }),
//@ loophead 0
    proof {
        let s = self.source@;
        assert(start_ok(s, self.line_starts@, self.line_starts@.len() - 1));
        bound_le(s, self.line_starts@.last() as int);
    }
    let ghost v0 = self.line_starts@;
//@ looptail 0
    proof {
        let s = self.source@;
        assert(start_ok(s, self.line_starts@, self.line_starts@.len() - 1));
        bound_le(s, self.line_starts@.last() as int);
        if !self.complete { assert(self.line_starts@[v0.len() - 1] == v0.last()); }
    }
//@ head
    proof {
        let s = self.source@;
        assert(start_ok(s, self.line_starts@, self.line_starts@.len() - 1));
        bound_le(s, self.line_starts@.last() as int);
    }
//@ before match self . line_starts . binary_search
    proof { which_line(self.source@, self.line_starts@, pos as int, self.complete);
        assert(start_ok(self.source@, self.line_starts@, 0)); first_zero(self.source@, self.line_starts@); }
//@ end
}
proof fn off_le(s: Seq<char>, j: nat, k: nat)
    requires j <= k <= s.len(),
    ensures off(s, j) <= off(s, k),
{
    if j < k { off_less(s, j, k); }
}
proof fn bound_le(s: Seq<char>, b: int)
    requires boundary(s, b),
    ensures 0 <= b <= off(s, s.len()), at(s, b) <= s.len(), off(s, at(s, b)) == b,
{
    off_le(s, at(s, b), s.len());
}
proof fn first_zero(s: Seq<char>, v: Seq<usize>)
    requires starts(s, v),
    ensures v[0] == 0,
{
    // line 0 and column 0 is only the start of the text
    assert(start_ok(s, v, 0));
    let k = at(s, v[0] as int);
    bound_le(s, v[0] as int);
    if k > 0 {
        if s[k - 1] == '\n' { assert(line(s, k) >= 1); } else { assert(col(s, k) > 0); }
    }
}
/// the index binary search finds is the line
proof fn which_line(s: Seq<char>, v: Seq<usize>, pos: int, complete: bool)
    requires starts(s, v), boundary(s, pos),
        complete || v.last() > pos,
        complete ==> forall|k: int| at(s, v.last() as int) <= k < s.len() ==> s[k] != '\n',
    ensures forall|i: int| 0 <= i < v.len() && #[trigger] v[i] <= pos && (i + 1 < v.len() ==> v[i + 1] > pos) ==>
        line(s, at(s, pos)) == i && (forall|k: int| at(s, v[i] as int) <= k < at(s, pos) ==> s[k] != '\n')
        && col(s, at(s, pos)) == units(s, at(s, pos)) - units(s, at(s, v[i] as int)) && at(s, v[i] as int) <= at(s, pos),
{
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] <= pos && (i + 1 < v.len() ==> v[i + 1] > pos) implies
        line(s, at(s, pos)) == i && (forall|k: int| at(s, v[i] as int) <= k < at(s, pos) ==> s[k] != '\n')
        && col(s, at(s, pos)) == units(s, at(s, pos)) - units(s, at(s, v[i] as int)) && at(s, v[i] as int) <= at(s, pos) by {
        assert(start_ok(s, v, i));
        bound_le(s, pos);
        if v[i] < pos { at_less(s, v[i] as int, pos); }
        let a = at(s, v[i] as int);
        let p = at(s, pos);
        assert forall|k: int| a <= k < p implies s[k] != '\n' by {
            if i + 1 < v.len() {
                assert(start_ok(s, v, i + 1));
                assert(gap_ok(s, v, i));
                at_less(s, pos, v[i + 1] as int);
            }
        }
        same_line(s, a, p);
    }
}

//@ fn ticc-lsp/src/utils.rs Pos::to_lsp
//@ as pos_to_lsp
//@ ret r
//@ rule self ==> this
//@ rule ( this , $x:rest ) ==> ( this : Pos , $x )
//@ rule LocationTranslator < '_ > ==> LocationTranslator
//@ rule Self :: LspRepr ==> Position
//@ rule & translator . source [ line_start .. pos ] ==> vx_slice ( translator . source , line_start , pos )
//@ rule src . encode_utf16 ( ) . count ( ) ==> vx_utf16_count ( src )
    requires inv(*old(translator)), boundary(old(translator).source@, this.offset as int),
    ensures inv(*final(translator)), final(translator).source == old(translator).source,
        ({
            let s = old(translator).source@;
            let k = at(s, this.offset as int);
            r.line == line(s, k) && r.character == col(s, k)
        }),
//@ before let src
    proof {
        let s = translator.source@;
        assert(start_ok(s, translator.line_starts@, line as int));
        bound_le(s, pos as int);
        let a = at(s, line_start as int);
        let p = at(s, pos as int);
        if line_start < pos { at_less(s, line_start as int, pos as int); }
        same_line(s, a, p);
        units_sub(s, a, p);
        line_grows(s, 0, p);
        units_off(s, p);
        units_off(s, a);
        off_le(s, p, s.len());
        idx_off(s, p);
    }
//@ end
proof fn units_off(s: Seq<char>, k: nat)
    requires k <= s.len(),
    ensures units(s, k) <= off(s, k), col(s, k) <= off(s, k),
    decreases k,
{
    if k > 0 { units_off(s, (k - 1) as nat); }
}
proof fn idx_off(s: Seq<char>, k: nat)
    requires k <= s.len(),
    ensures k <= off(s, k),
    decreases k,
{
    if k > 0 { idx_off(s, (k - 1) as nat); }
}

/// k is where the position (l, c) is, clamped to the end of its line or of the text
pub open spec fn denotes(s: Seq<char>, l: nat, c: nat, k: nat) -> bool {
    if l > line(s, s.len()) { k == s.len() } else {
        &&& k <= s.len()
        &&& line(s, k) == l
        &&& col(s, k) <= c
        &&& (k == s.len() || s[k as int] == '\n' || col(s, k) + utf16(s[k as int]) > c)
    }
}
/// a position denotes one place only
proof fn denotes_one(s: Seq<char>, l: nat, c: nat, j: nat, k: nat)
    requires denotes(s, l, c, j), denotes(s, l, c, k),
    ensures j == k,
{
    if j < k { denotes_less(s, l, c, j, k); } else if k < j { denotes_less(s, l, c, k, j); }
}
proof fn denotes_less(s: Seq<char>, l: nat, c: nat, j: nat, k: nat)
    requires denotes(s, l, c, j), denotes(s, l, c, k), j < k,
    ensures false,
{
    if l <= line(s, s.len()) {
        if exists|i: int| j <= i < k && s[i] == '\n' { line_grows(s, j, k); assert(line(s, j) < line(s, k)); }
        same_line(s, j, k);
        same_line(s, j + 1, k);
    }
}
/// C13: an offset translated to a position and back is the same offset
proof fn round_trip(s: Seq<char>, k: nat)
    requires k <= s.len(),
    ensures denotes(s, line(s, k), col(s, k), k),
        forall|j: nat| #[trigger] denotes(s, line(s, k), col(s, k), j) ==> j == k,
{
    line_grows(s, k, s.len());
    assert(denotes(s, line(s, k), col(s, k), k));
    assert forall|j: nat| #[trigger] denotes(s, line(s, k), col(s, k), j) implies j == k by {
        denotes_one(s, line(s, k), col(s, k), j, k);
    }
}

//@ fn ticc-lsp/src/utils.rs Position::to_ticc
//@ as position_to_ticc
//@ ret r
//@ rule self ==> this
//@ rule ( this , $x:rest ) ==> ( this : Position , $x )
//@ rule LocationTranslator < '_ > ==> LocationTranslator
//@ rule Self :: TiccRepr ==> Pos
//@ rule translator . line_starts . get ( $i:rest ) . copied ( ) ==> vx_get ( & translator . line_starts , $i )
//@ rule translator . source . len ( ) ==> vx_len ( translator . source )
//@ rule & translator . source [ line_start .. line_end ] ==> vx_slice ( translator . source , line_start , line_end )
//@ rule line_source . char_indices ( ) ==> vx_char_indices ( line_source )
//@ rule c . len_utf16 ( ) ==> vx_len_utf16 ( c )
//@ rule unreachable ! ( ) ==> vx_unreachable ( )
    requires inv(*old(translator)),
    ensures inv(*final(translator)), final(translator).source == old(translator).source,
        ({
            let s = old(translator).source@;
            boundary(s, r.offset as int) && denotes(s, this.line as nat, this.character as nat, at(s, r.offset as int))
        }),
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant inv(*translator), translator.source == old(translator).source,
    decreases (if translator.complete { 0int } else { 0x1_0000_0002 - translator.line_starts@.len() }),
//@ looptail 0
    proof { if !translator.complete { many(translator.source@, translator.line_starts@); } }
//@ before let current = translator
    let ghost s = translator.source@;
    let ghost v = translator.line_starts@;
    proof {
        at_off(s, s.len());
        assert(start_ok(s, v, v.len() - 1));
        bound_le(s, v.last() as int);
        if translator.complete { same_line(s, at(s, v.last() as int), s.len()); }
        line_grows(s, at(s, v.last() as int), s.len());
    }
//@ before let line_source
    let ghost a = at(s, line_start as int);
    let ghost e = if next is Some { (at(s, v[this.line + 1] as int) - 1) as nat } else { s.len() };
    proof {
        assert(start_ok(s, v, this.line as int));
        bound_le(s, line_start as int);
        if next is Some {
            assert(start_ok(s, v, this.line + 1));
            bound_le(s, v[this.line + 1] as int);
            assert(utf8('\n') == 1);
            assert(s[e as int] == '\n');
            assert(off(s, e + 1) == off(s, e) + 1);
            at_less(s, line_start as int, v[this.line + 1] as int);
        }
        at_off(s, e);
        assert(line_end == off(s, e));
        assert(a <= e);
        off_le(s, a, e);
        assert forall|k: int| a <= k < e implies s[k] != '\n' by {
            if next is Some { assert(v[this.line as int] == line_start); assert(gap_ok(s, v, this.line as int)); }
        }
        same_line(s, a, e);
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == line_source@.len(), line_source@ == s.subrange(a as int, e as int),
        forall|k: int| 0 <= k < line_source@.len() ==> #[trigger] vx_it1.seq()[k] == ((off(line_source@, k as nat) as usize), line_source@[k]),
        current == col(s, (a + vx_it1.index()) as nat),
        current <= this.character,
//@ loophead 1
    proof {
        let k = vx_it1.index() as nat;
        assert((i, c) == vx_it1.seq()[k as int]);
        assert(c == s[(a + k) as int]);
        off_sub(s, a, e, k);
        off_le(s, (a + k) as nat, s.len());
        at_off(s, (a + k) as nat);
        same_line(s, a, (a + k) as nat);
        units_off(s, (a + k) as nat);
        assert(col(s, (a + k + 1) as nat) == col(s, (a + k) as nat) + utf16(c));
    }
//@ before Pos :: new ( line_end as u32 )
    proof { off_le(s, e, s.len()); assert(denotes(s, this.line as nat, this.character as nat, e)); }
//@ end
/// there are at most as many lines as bytes
proof fn many(s: Seq<char>, v: Seq<usize>)
    requires starts(s, v),
    ensures v.len() <= off(s, s.len()) + 1,
{
    assert(start_ok(s, v, v.len() - 1));
    bound_le(s, v.last() as int);
    line_grows(s, 0, at(s, v.last() as int));
    idx_off(s, at(s, v.last() as int));
}

//@ type ticc-syntax/src/pos.rs Span | #[derive(Clone, Copy)]
impl Span {
//@ fn ticc-syntax/src/pos.rs Span::new
//@ ret r
    ensures r.start == start, r.end == end,
//@ end
//@ fn ticc-syntax/src/pos.rs Span::start
//@ ret r
    ensures r == self.start,
//@ end
//@ fn ticc-syntax/src/pos.rs Span::end
//@ ret r
    ensures r == self.end,
//@ end
}
#[derive(Clone, Copy)]
pub struct Range { pub start: Position, pub end: Position }
/// p is the offset that a protocol position stands for
spec fn stands(s: Seq<char>, a: Position, p: Pos) -> bool {
    boundary(s, p.offset as int) && denotes(s, a.line as nat, a.character as nat, at(s, p.offset as int))
}
/// a is the protocol position of the offset p
spec fn place(s: Seq<char>, p: Pos, a: Position) -> bool {
    let k = at(s, p.offset as int);
    a.line == line(s, k) && a.character == col(s, k)
}
spec fn ranged(s: Seq<char>, x: Span, r: Range) -> bool { place(s, x.start, r.start) && place(s, x.end, r.end) }
/// both ends are between characters
spec fn whole(s: Seq<char>, x: Span) -> bool { boundary(s, x.start.offset as int) && boundary(s, x.end.offset as int) }
//@ fn ticc-lsp/src/utils.rs Span::to_lsp
//@ as span_to_lsp
//@ ret r
//@ rule self ==> this
//@ rule ( this , $x:rest ) ==> ( this : Span , $x )
//@ rule LocationTranslator < '_ > ==> LocationTranslator
//@ rule Self :: LspRepr ==> Range
//@ rule translator . to_lsp ( $x:rest ) ==> pos_to_lsp ( $x , translator )
    requires inv(*old(translator)), whole(old(translator).source@, this),
    ensures inv(*final(translator)), final(translator).source == old(translator).source, ranged(old(translator).source@, this, r),
//@ end
//@ fn ticc-lsp/src/utils.rs Range::to_ticc
//@ as range_to_ticc
//@ ret r
//@ rule self ==> this
//@ rule ( this , $x:rest ) ==> ( this : Range , $x )
//@ rule LocationTranslator < '_ > ==> LocationTranslator
//@ rule Self :: TiccRepr ==> Span
//@ rule translator . to_ticc ( $x:rest ) ==> position_to_ticc ( $x , translator )
    requires inv(*old(translator)),
    ensures inv(*final(translator)), final(translator).source == old(translator).source,
        stands(old(translator).source@, this.start, r.start), stands(old(translator).source@, this.end, r.end),
//@ end

// ---- what the server answers
//@ rule lsp_types :: $x:ident ==> $x
//@ type ticc/src/api/info.rs Info
//@ type ticc/src/api/completion.rs Completion
//@ type ticc/src/lib.rs Severity

pub enum MarkedString { String(String) }
pub enum HoverContents { Scalar(MarkedString) }
pub struct Hover { pub contents: HoverContents, pub range: Option<Range> }
/// `lsp_types::CompletionItem`: the label, and everything else
pub struct CompletionItem { pub label: String, pub rest: Rest }
#[verifier::external_body]
pub struct Rest { r: u8 }
impl CompletionItem {
    #[verifier::external_body]
    fn default() -> (r: CompletionItem) { unimplemented!() }
}
pub enum CompletionResponse { Array(Vec<CompletionItem>) }
pub enum DiagnosticSeverity { Warning, Error }
/// `lsp_types::Diagnostic` without the fields the server leaves empty
pub struct LspDiagnostic { pub range: Range, pub severity: Option<DiagnosticSeverity>, pub source: Option<String>, pub message: String }
/// `ticc::Diagnostic`
pub struct TiccDiagnostic { pub span: Span, pub severity: Severity, pub message: String }

/// `ticc::CompilationUnit`: the questions it answers. Every span it gives lies between characters of its text.
#[verifier::external_body]
pub struct CompilationUnit { u: u8 }
#[verifier::external_body]
pub struct Source { s: u8 }
impl Source {
    uninterp spec fn view(&self) -> Seq<char>;
}
#[verifier::external_body]
fn vx_str(s: &Source) -> (r: &str) ensures r@ == s@, off(r@, r@.len()) < 0x1_0000_0000 { unimplemented!() }
impl CompilationUnit {
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn def_at(&self, p: Pos) -> Option<Span>;
    uninterp spec fn refs_at(&self, p: Pos) -> Option<Seq<Span>>;
    uninterp spec fn info_at(&self, p: Pos) -> Option<Info>;
    uninterp spec fn names_at(&self, p: Pos) -> Option<Seq<Completion>>;
    uninterp spec fn found(&self) -> Seq<TiccDiagnostic>;
    #[verifier::external_body]
    fn source(&self) -> (r: Source) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    fn find_definition(&mut self, p: Pos) -> (r: Option<Span>)
        ensures r == old(self).def_at(p), r matches Some(x) ==> whole(old(self).text(), x) { unimplemented!() }
    #[verifier::external_body]
    fn find_references(&mut self, p: Pos) -> (r: Option<Vec<Span>>)
        ensures match r { None => old(self).refs_at(p) is None, Some(v) => old(self).refs_at(p) == Some(v@) && forall|k: int| 0 <= k < v@.len() ==> whole(old(self).text(), #[trigger] v@[k]) } { unimplemented!() }
    #[verifier::external_body]
    fn info(&mut self, p: Pos) -> (r: Option<Info>)
        ensures r == old(self).info_at(p), r matches Some(x) ==> whole(old(self).text(), x.span) { unimplemented!() }
    #[verifier::external_body]
    fn completions(&mut self, p: Pos) -> (r: Option<Vec<Completion>>)
        ensures match r { None => old(self).names_at(p) is None, Some(v) => old(self).names_at(p) == Some(v@) } { unimplemented!() }
    #[verifier::external_body]
    fn diagnostics(&mut self) -> (r: Vec<TiccDiagnostic>)
        ensures r@ == old(self).found(), forall|k: int| 0 <= k < r@.len() ==> whole(old(self).text(), (#[trigger] r@[k]).span) { unimplemented!() }
}
//@ rule LocationTranslator :: for_source ( & $x:ident ) ==> LocationTranslator :: for_source ( vx_str ( & $x ) )
//@ rule translator . to_ticc ( at ) ==> position_to_ticc ( at , & mut translator )
//@ fn ticc-lsp/src/go_to_definition.rs find_definition
//@ ret r
//@ rule compilation . find_definition ( pos ) . map ( | $v:ident | translator . to_lsp ( $w:ident ) ) ==> match compilation . find_definition ( pos ) { Some ( $v ) => Some ( span_to_lsp ( $w , & mut translator ) ) , None => None }
    ensures exists|p: Pos| stands(old(compilation).text(), at, p) && match #[trigger] old(compilation).def_at(p) {
        None => r is None,
        Some(x) => r is Some && ranged(old(compilation).text(), x, r->0),
    },
//@ before let pos
    proof { assert(translator.source@ == compilation.text()); }
//@ end
/// the iterator chain of `find_references`, as the loop it performs
fn vx_ranges(v: Vec<Span>, translator: &mut LocationTranslator) -> (r: Vec<Range>)
    requires inv(*old(translator)), forall|k: int| 0 <= k < v@.len() ==> whole(old(translator).source@, #[trigger] v@[k]),
    ensures r@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> ranged(old(translator).source@, v@[k], #[trigger] r@[k]),
{
    let mut out: Vec<Range> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), out@.len() == i, inv(*translator), translator.source == old(translator).source,
            forall|k: int| 0 <= k < v@.len() ==> whole(old(translator).source@, #[trigger] v@[k]),
            forall|k: int| 0 <= k < i ==> ranged(old(translator).source@, v@[k], #[trigger] out@[k]),
        decreases v@.len() - i,
    {
        out.push(refs_closure(v[i], translator));
        i = i + 1;
    }
    out
}
//@ fn ticc-lsp/src/find_references.rs find_references
//@ as refs_closure
//@ closure 0
//@ params fn refs_closure(span: Span, translator: &mut LocationTranslator) -> (r: Range)
//@ rule translator . to_lsp ( $w:ident ) ==> span_to_lsp ( $w , translator )
    requires inv(*old(translator)), whole(old(translator).source@, span),
    ensures inv(*final(translator)), final(translator).source == old(translator).source, ranged(old(translator).source@, span, r),
//@ end
//@ fn ticc-lsp/src/find_references.rs find_references
//@ ret r
//@ rule compilation . find_references ( pos ) ? ==> match compilation . find_references ( pos ) { Some ( vx_v ) => vx_v , None => return None }
//@ rule references . into_iter ( ) . map ( $x:rest ) . collect ( ) ==> vx_ranges ( references , & mut translator )
    ensures exists|p: Pos| stands(old(compilation).text(), at, p) && match #[trigger] old(compilation).refs_at(p) {
        None => r is None,
        Some(v) => r is Some && r->0@.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> ranged(old(compilation).text(), v[k], #[trigger] r->0@[k]),
    },
//@ end
//@ fn ticc-lsp/src/hover.rs hover
//@ ret r
//@ rule compilation . info ( $x:rest ) ? ==> match compilation . info ( $x ) { Some ( vx_v ) => vx_v , None => return None }
//@ rule translator . to_lsp ( info . span ) ==> span_to_lsp ( info . span , & mut translator )
    ensures exists|p: Pos| stands(old(compilation).text(), at, p) && match #[trigger] old(compilation).info_at(p) {
        None => r is None,
        Some(x) => r is Some && r->0.contents == HoverContents::Scalar(MarkedString::String(x.doc)) && r->0.range is Some && ranged(old(compilation).text(), x.span, r->0.range->0),
    },
//@ end
/// the iterator chain of `completions`, as the loop it performs
fn vx_items(v: Vec<Completion>) -> (r: Vec<CompletionItem>)
    ensures r@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> (#[trigger] r@[k]).label == v@[k].name,
{
    let mut out: Vec<CompletionItem> = Vec::new();
    for x in it: v
        invariant it.seq() == v@, out@.len() == it.index(), forall|k: int| 0 <= k < it.index() ==> (#[trigger] out@[k]).label == v@[k].name,
    {
        out.push(names_closure(x));
    }
    out
}
//@ fn ticc-lsp/src/completions.rs completions
//@ as names_closure
//@ closure 0
//@ params fn names_closure(c: Completion) -> (r: CompletionItem)
    ensures r.label == c.name,
//@ end
//@ fn ticc-lsp/src/completions.rs completions
//@ ret r
//@ rule compilation . completions ( pos ) ? ==> match compilation . completions ( pos ) { Some ( vx_v ) => vx_v , None => return None }
//@ rule completions . into_iter ( ) . map ( $x:rest ) . collect ( ) ==> vx_items ( completions )
    ensures exists|p: Pos| stands(old(compilation).text(), at, p) && match #[trigger] old(compilation).names_at(p) {
        None => r is None,
        Some(v) => r matches Some(CompletionResponse::Array(w)) && w@.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] w@[k]).label == v[k].name,
    },
//@ end
spec fn reported(s: Seq<char>, e: TiccDiagnostic, d: LspDiagnostic) -> bool {
    ranged(s, e.span, d.range) && d.message@ == e.message@
        && d.severity == Some(match e.severity { Severity::Warning => DiagnosticSeverity::Warning, Severity::Error => DiagnosticSeverity::Error })
}
/// the iterator chain of `get_diagnostics`, as the loop it performs
fn vx_reported(v: Vec<TiccDiagnostic>, translator: &mut LocationTranslator) -> (r: Vec<LspDiagnostic>)
    requires inv(*old(translator)), forall|k: int| 0 <= k < v@.len() ==> whole(old(translator).source@, (#[trigger] v@[k]).span),
    ensures r@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> reported(old(translator).source@, v@[k], #[trigger] r@[k]),
{
    let mut out: Vec<LspDiagnostic> = Vec::new();
    for x in it: v
        invariant it.seq() == v@, out@.len() == it.index(), inv(*translator), translator.source == old(translator).source,
            forall|k: int| 0 <= k < v@.len() ==> whole(old(translator).source@, (#[trigger] v@[k]).span),
            forall|k: int| 0 <= k < it.index() ==> reported(old(translator).source@, v@[k], #[trigger] out@[k]),
    {
        proof { assert(x == v@[it.index() as int]); }
        out.push(diag_closure(x, translator));
    }
    out
}
#[verifier::external_body]
fn vx_clone_string(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
//@ fn ticc-lsp/src/diagnostics.rs get_diagnostics
//@ as diag_closure
//@ closure 0
//@ params fn diag_closure(e: TiccDiagnostic, translator: &mut LocationTranslator) -> (r: LspDiagnostic)
//@ rule Diagnostic { $x:rest } ==> LspDiagnostic { $x }
//@ rule translator . to_lsp ( e . span ) ==> span_to_lsp ( e . span , translator )
//@ rule "ticc" . to_owned ( ) ==> vx_own ( "ticc" )
//@ rule e . message . clone ( ) ==> vx_clone_string ( & e . message )
//@ rule code : None , ==>
//@ rule code_description : None , ==>
//@ rule related_information : None , ==>
//@ rule tags : None , ==>
//@ rule data : None , ==>
    requires inv(*old(translator)), whole(old(translator).source@, e.span),
    ensures inv(*final(translator)), final(translator).source == old(translator).source, reported(old(translator).source@, e, r),
//@ end
//@ fn ticc-lsp/src/diagnostics.rs get_diagnostics
//@ ret r
//@ rule Diagnostic ==> LspDiagnostic
//@ rule compilation . diagnostics ( ) . map ( $x:rest ) . collect ( ) ==> vx_reported ( compilation . diagnostics ( ) , & mut translator )
    ensures r@.len() == old(compilation).found().len(), forall|k: int| 0 <= k < r@.len() ==> reported(old(compilation).text(), old(compilation).found()[k], #[trigger] r@[k]),
//@ end

} // verus!
fn main() {}
