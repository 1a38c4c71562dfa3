// Unit `semtok`: the relative token stream sent to the editor (C14).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule pub ( crate ) ==>
//@ include text.inc

//@ type ticc-syntax/src/pos.rs Pos | #[derive(Clone, Copy)]
//@ type ticc-syntax/src/pos.rs Span | #[derive(Clone, Copy)]
impl Pos {
//@ fn ticc-syntax/src/pos.rs Pos::source_pos
//@ ret r
    ensures r == self.offset,
//@ end
}
impl Span {
//@ fn ticc-syntax/src/pos.rs Span::start
//@ ret r
    ensures r == self.start,
//@ end
//@ fn ticc-syntax/src/pos.rs Span::end
//@ ret r
    ensures r == self.end,
//@ end
}
//@ type ticc/src/api/tokens.rs TokenKind | #[derive(Clone, Copy)]
//@ type ticc/src/api/tokens.rs Token | #[derive(Clone, Copy)]

pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }

pub struct CompilationUnit { pub src: String, pub toks: Vec<Token> }
impl CompilationUnit {
    fn vx_source(&self) -> (r: &str) ensures r@ == self.src@ { self.src.as_str() }
    fn vx_tokens(&self) -> (r: &Vec<Token>) ensures *r == self.toks { &self.toks }
}

spec fn lo(t: Token) -> int { t.span.start.offset as int }
spec fn hi(t: Token) -> int { t.span.end.offset as int }
/// what the tree gives: tokens at character boundaries, in order, not overlapping
spec fn token_order(s: Seq<char>, ts: Seq<Token>) -> bool {
    &&& off(s, s.len()) < 0x1_0000_0000
    &&& forall|i: int| 0 <= i < ts.len() ==> boundary(s, lo(#[trigger] ts[i])) && boundary(s, hi(ts[i])) && lo(ts[i]) <= hi(ts[i])
    &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> hi(ts[i]) <= lo(ts[j])
}
/// absolute line and column of token i, as the protocol decodes the stream
pub open spec fn dec_line(r: Seq<SemanticToken>, i: nat) -> int decreases i {
    if i == 0 { 0 } else { dec_line(r, (i - 1) as nat) + r[i - 1].delta_line }
}
pub open spec fn dec_col(r: Seq<SemanticToken>, i: nat) -> int decreases i {
    if i == 0 { 0 } else { (if r[i - 1].delta_line == 0 { dec_col(r, (i - 1) as nat) } else { 0 }) + r[i - 1].delta_start }
}
proof fn dec_ext(r: Seq<SemanticToken>, q: Seq<SemanticToken>, i: nat)
    requires i <= r.len(), i <= q.len(), forall|k: int| 0 <= k < i ==> r[k] == q[k],
    ensures dec_line(r, i) == dec_line(q, i), dec_col(r, i) == dec_col(q, i),
    decreases i,
{
    if i > 0 { dec_ext(r, q, (i - 1) as nat); }
}
pub open spec fn kind_number(k: TokenKind) -> u32 {
    match k {
        TokenKind::Keyword => 0,
        TokenKind::Type | TokenKind::Ctor => 1,
        TokenKind::Value => 2,
        TokenKind::Function => 3,
        TokenKind::Operator => 4,
        TokenKind::Punctuation => 5,
        TokenKind::Number => 6,
        TokenKind::Comment => 7,
        TokenKind::TypeVariable => 8,
        TokenKind::String => 9,
    }
}
/// the first n decoded tokens are the first n tokens
spec fn decodes(s: Seq<char>, ts: Seq<Token>, r: Seq<SemanticToken>, n: nat) -> bool {
    &&& n <= ts.len() && r.len() == n
    &&& forall|i: int| 0 <= i < n ==> decoded(s, ts[i], #[trigger] r[i], dec_line(r, (i + 1) as nat), dec_col(r, (i + 1) as nat))
}
spec fn decoded(s: Seq<char>, t: Token, x: SemanticToken, l: int, c: int) -> bool {
    let a = at(s, lo(t));
    let b = at(s, hi(t));
    &&& l == line(s, a)
    &&& c == col(s, a)
    &&& x.length == units(s, b) - units(s, a)
    &&& x.token_type == kind_number(t.kind)
    &&& x.token_modifiers_bitset == 0
}
proof fn off_le(s: Seq<char>, j: nat, k: nat)
    requires j <= k <= s.len(),
    ensures off(s, j) <= off(s, k),
{
    if j < k { off_less(s, j, k); }
}
proof fn bound_le(s: Seq<char>, b: int)
    requires boundary(s, b),
    ensures 0 <= b <= off(s, s.len()), at(s, b) <= s.len(), off(s, at(s, b)) == b,
{
    off_le(s, at(s, b), s.len());
}
proof fn small(s: Seq<char>, k: nat)
    requires k <= s.len(),
    ensures units(s, k) <= off(s, k), col(s, k) <= off(s, k), line(s, k) <= off(s, k),
    decreases k,
{
    if k > 0 { small(s, (k - 1) as nat); }
}
/// columns on one line only grow
proof fn col_order(s: Seq<char>, a: nat, b: nat)
    requires a <= b <= s.len(), line(s, a) == line(s, b),
    ensures col(s, a) <= col(s, b),
{
    if exists|i: int| a <= i < b && s[i] == '\n' { line_grows(s, a, b); }
    same_line(s, a, b);
}

//@ fn ticc-lsp/src/semantic_tokens.rs token_type
//@ ret r
    ensures r == kind_number(t),
//@ end

//@ fn ticc-lsp/src/semantic_tokens.rs get_semantic_tokens
//@ ret r
//@ rule & compilation . source ( ) ==> compilation . vx_source ( )
//@ rule compilation . tokens ( ) ==> compilation . vx_tokens ( )
//@ rule & mut CompilationUnit ==> & CompilationUnit
//@ rule src [ $x:any .. $y:any ] . chars ( ) ==> vx_chars ( vx_slice ( src , $x , $y ) )
//@ rule src [ $x:any .. $y:any ] . encode_utf16 ( ) . count ( ) ==> vx_utf16_count ( vx_slice ( src , $x , $y ) )
//@ rule c . len_utf16 ( ) ==> vx_len_utf16 ( c )
    requires token_order(compilation.src@, compilation.toks@),
    ensures decodes(compilation.src@, compilation.toks@, r@, compilation.toks@.len()),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let ghost s = compilation.src@;
    let ghost ts = compilation.toks@;
    proof { at_off(s, 0); }
//@ loop 0
    invariant
        vx_it0.seq().len() == ts.len(),
        forall|k: int| 0 <= k < ts.len() ==> *#[trigger] vx_it0.seq()[k] == ts[k],
        decodes(s, ts, result@, vx_it0.index() as nat),
        last_token_pos.0 == dec_line(result@, vx_it0.index() as nat), last_token_pos.1 == dec_col(result@, vx_it0.index() as nat),
        current_pos == last_token_pos,
        last_token_start == (if vx_it0.index() == 0 { 0 } else { lo(ts[vx_it0.index() - 1]) }),
        boundary(s, last_token_start as int),
        current_pos.0 == line(s, at(s, last_token_start as int)), current_pos.1 == col(s, at(s, last_token_start as int)),
//@ loophead 0
    let ghost n = vx_it0.index() as nat;
    let ghost r0 = result@;
    let ghost a = at(s, last_token_start as int);
    let ghost b = at(s, lo(*token));
    proof {
        assert(*token == ts[n as int]);
        bound_le(s, last_token_start as int);
        bound_le(s, lo(*token));
        bound_le(s, hi(*token));
        assert(last_token_start <= lo(*token));
        if last_token_start < lo(*token) { at_less(s, last_token_start as int, lo(*token)); }
        if lo(*token) < hi(*token) { at_less(s, lo(*token), hi(*token)); }
        assert(a <= b);
    }
//@ loop 1
    invariant
        vx_it1.seq() == s.subrange(a as int, b as int),
        current_pos.0 == line(s, (a + vx_it1.index()) as nat), current_pos.1 == col(s, (a + vx_it1.index()) as nat),
//@ loophead 1
    proof {
        let k = vx_it1.index() as nat;
        assert(c == s[(a + k) as int]);
        small(s, (a + k) as nat);
        small(s, (a + k + 1) as nat);
        off_le(s, (a + k + 1) as nat, s.len());
    }
//@ before let length
    proof {
        let e = at(s, hi(*token));
        units_sub(s, b, e);
        small(s, e);
        off_le(s, e, s.len());
        line_grows(s, a, b);
        if line(s, a) == line(s, b) { col_order(s, a, b); }
    }
//@ looptail 0
    proof {
        let r1 = result@;
        dec_ext(r0, r1, n);
        assert forall|i: int| 0 <= i < n + 1 implies decoded(s, ts[i], #[trigger] r1[i], dec_line(r1, (i + 1) as nat), dec_col(r1, (i + 1) as nat)) by {
            if i < n { dec_ext(r0, r1, (i + 1) as nat); assert(r1[i] == r0[i]); }
        }
    }
//@ end

} // verus!
fn main() {}
