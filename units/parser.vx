// Unit `parser`: the event parser and the tree builder (C07). For every text: no assertion of the
// parser fails, every marker is completed, every token ends up in the tree once and in order, the
// tree's parts cover the text without gaps or overlaps, and an item takes at least one character.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ include pos.inc
//@ include text.inc
//@ rule enum TokenKind { Import , From , Export , $x:rest } ==> enum LexerToken { Import , From , Export , $x }
//@ type ticc/src/compiler/lexer.rs TokenKind | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ rule struct Token { pub ( crate ) kind : TokenKind , $x:rest } ==> struct Token { pub ( crate ) kind : LexerToken , $x }
//@ type ticc/src/compiler/lexer.rs Token | #[derive(Clone, Copy)]
//@ type ticc-syntax/src/lib.rs TokenKind | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-syntax/src/lib.rs TriviaKind | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-syntax/src/lib.rs SyntaxKind | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-syntax/src/lib.rs NodeId | #[derive(Clone, Copy)]
//@ type ticc/src/lib.rs Severity | #[derive(Clone, Copy)]
//@ rule message : RawMessage ==> message : Msg
//@ type ticc/src/error.rs RawDiagnostic
/// the text of a message
#[verifier::external_body]
pub struct Msg { m: u8 }
//@ rule Peekable < Lexer < 'a > > ==> Tokens < 'a >
//@ rule struct Parser < 'a > { at_start_of_line : bool , $x:rest } ==> struct Parser < 'a > { pub at_start_of_line : bool , pub tokens : Tokens < 'a > , pub start_pos : Pos , pub current_pos : Span , pub events : Vec < Event > , pub hints : Vec < ParseHint > , pub expected_tokens : Vec < TokenKind > , }
//@ type ticc/src/compiler/parser.rs Parser
//@ type ticc/src/compiler/parser.rs Event
//@ type ticc/src/compiler/parser.rs Marker
//@ type ticc/src/compiler/parser.rs CompletedMarker
//@ type ticc/src/compiler/parser.rs ParseHint | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/parser.rs TokenOrTrivia

//@ rule super :: $m:ident :: $f:ident ==> $f
//@ rule assert ! ( $x:rest ) ==> vx_assert ( $x )
//@ rule panic ! ( $x:rest ) ==> vx_panic ( )
//@ rule unreachable ! ( ) ==> vx_panic ( )
fn vx_assert(b: bool) requires b, { }
#[verifier::external_body]
fn vx_panic() -> ! requires false, { unimplemented!() }

// ---- the tokens of a text (logos): they cover it without gaps, each at least one character
uninterp spec fn lexed(s: Seq<char>) -> Seq<Token>;
spec fn good_token(t: Token, s: Seq<char>) -> bool {
    boundary(s, t.span.start.offset as int) && boundary(s, t.span.end.offset as int) && t.span.start.offset < t.span.end.offset
}
spec fn covers(l: Seq<Token>, s: Seq<char>) -> bool {
    &&& l.len() == 0 <==> s.len() == 0
    &&& forall|i: int| 0 <= i < l.len() ==> good_token(#[trigger] l[i], s)
    &&& forall|i: int, j: int| 0 <= i < l.len() - 1 && j == i + 1 ==> (#[trigger] l[i]).span.end == (#[trigger] l[j]).span.start
    &&& l.len() > 0 ==> l[0].span.start.offset == 0 && l.last().span.end.offset == off(s, s.len())
}
#[verifier::external_body]
pub struct Tokens<'a> { t: &'a u8 }
impl<'a> Tokens<'a> {
    uninterp spec fn view(&self) -> Seq<Token>;
    /// the text the tokens come from
    uninterp spec fn src(&self) -> Seq<char>;
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&Token>)
        ensures *final(self) == *old(self), r == (if old(self)@.len() > 0 { Some(&old(self)@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_peek(&mut self) -> (r: Option<Token>)
        ensures *final(self) == *old(self), r == (if old(self)@.len() > 0 { Some(old(self)@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Token>)
        ensures
            final(self).src() == old(self).src(),
            old(self)@.len() == 0 ==> r is None && final(self)@.len() == 0,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
}
//@ rule lex ( source ) . peekable ( ) ==> vx_lex ( source )
#[verifier::external_body]
fn vx_lex<'a>(s: &'a str) -> (r: Tokens<'a>)
    requires off(s@, s@.len()) <= u32::MAX,
    ensures r@ == lexed(s@), r.src() == s@, covers(lexed(s@), s@) { unimplemented!() }

//@ fn ticc/src/compiler/parser.rs classify_token
//@ spec
//@ as cls
//@ attr
spec
//@ end
//@ fn ticc/src/compiler/parser.rs classify_token
//@ ret r
    ensures r == cls(token),
//@ end
/// the tokens that are no trivia
spec fn kinds(s: Seq<Token>) -> Seq<TokenKind> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        match cls(s[0].kind) {
            TokenOrTrivia::Token(k) => seq![k] + kinds(s.drop_first()),
            TokenOrTrivia::Trivia(_) => kinds(s.drop_first()),
        }
    }
}
/// the tokens of the events
spec fn toks(e: Seq<Event>) -> Seq<TokenKind> decreases e.len() {
    if e.len() == 0 { seq![] } else {
        match e.last() {
            Event::AddToken(k) => toks(e.drop_last()).push(k),
            _ => toks(e.drop_last()),
        }
    }
}

proof fn kinds_skip(s: Seq<Token>)
    requires s.len() > 0,
    ensures ({
        match cls(s[0].kind) {
            TokenOrTrivia::Token(k) => kinds(s) == seq![k] + kinds(s.drop_first()),
            TokenOrTrivia::Trivia(_) => kinds(s) == kinds(s.drop_first()),
        }
    }),
{ }

// ---- the events: nodes opened and closed
spec fn opens(e: Event) -> bool { e is StartNode || e is Placeholder }
spec fn bal(e: Seq<Event>, n: nat) -> int decreases n {
    if n == 0 { 0 } else { bal(e, (n - 1) as nat) + if opens(e[n - 1]) { 1int } else if e[n - 1] is FinishNode { -1 } else { 0 } }
}
/// the markers not completed
spec fn held(e: Seq<Event>, n: nat) -> int decreases n {
    if n == 0 { 0 } else { held(e, (n - 1) as nat) + if e[n - 1] is Placeholder { 1int } else { 0 } }
}
spec fn fp(e: Event) -> Option<usize> { match e { Event::StartNode { forward_parent, .. } => forward_parent, _ => None } }
/// a node's parent, if it starts later, is a node, and that of this node only
spec fn parents(e: Seq<Event>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() && (#[trigger] fp(e[i])) is Some ==> i < fp(e[i])->0 < e.len() && opens(e[fp(e[i])->0 as int])
    &&& forall|i: int, j: int| 0 <= i < j < e.len() && (#[trigger] fp(e[i])) is Some && (#[trigger] fp(e[j])) is Some ==> fp(e[i])->0 != fp(e[j])->0
}
#[verifier::opaque]
spec fn wf(e: Seq<Event>) -> bool {
    &&& forall|n: nat| n <= e.len() ==> #[trigger] bal(e, n) >= 0
    &&& bal(e, e.len()) == held(e, e.len())
    &&& parents(e)
}
proof fn bal_ext(a: Seq<Event>, b: Seq<Event>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> (opens(#[trigger] a[i]) <==> opens(b[i])) && (a[i] is FinishNode <==> b[i] is FinishNode),
    ensures bal(a, n) == bal(b, n),
    decreases n,
{
    if n > 0 { bal_ext(a, b, (n - 1) as nat); assert(opens(a[n - 1]) <==> opens(b[n - 1])); }
}
proof fn held_ext(a: Seq<Event>, b: Seq<Event>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> (#[trigger] a[i] is Placeholder <==> b[i] is Placeholder),
    ensures held(a, n) == held(b, n),
    decreases n,
{
    if n > 0 { held_ext(a, b, (n - 1) as nat); assert(a[n - 1] is Placeholder <==> b[n - 1] is Placeholder); }
}
proof fn held_pos(e: Seq<Event>, n: nat, k: int)
    requires 0 <= k < n <= e.len(), e[k] is Placeholder,
    ensures held(e, n) >= 1,
    decreases n,
{
    held_nonneg(e, (n - 1) as nat);
    if k < n - 1 { held_pos(e, (n - 1) as nat, k); }
}
proof fn held_nonneg(e: Seq<Event>, n: nat)
    requires n <= e.len(),
    ensures held(e, n) >= 0,
    decreases n,
{
    if n > 0 { held_nonneg(e, (n - 1) as nat); }
}
/// one marker fewer
proof fn held_less(a: Seq<Event>, b: Seq<Event>, n: nat, k: int)
    requires 0 <= k < n <= a.len(), a.len() == b.len(), a[k] is Placeholder, !(b[k] is Placeholder), forall|i: int| 0 <= i < n && i != k ==> (#[trigger] a[i] is Placeholder <==> b[i] is Placeholder),
    ensures held(b, n) == held(a, n) - 1,
    decreases n,
{
    if k < n - 1 { held_less(a, b, (n - 1) as nat, k); assert(a[n - 1] is Placeholder <==> b[n - 1] is Placeholder); } else { held_ext(a, b, (n - 1) as nat); }
}
proof fn wf_push(e: Seq<Event>, x: Event)
    requires wf(e), x is AddToken || x is Error || x is Placeholder,
    ensures wf(e.push(x)),
{
    reveal(wf);
    let f = e.push(x);
    assert forall|n: nat| n <= f.len() implies #[trigger] bal(f, n) >= 0 by {
        bal_ext(e, f, if n <= e.len() { n } else { e.len() });
        assert(bal(e, if n <= e.len() { n } else { e.len() }) >= 0);
    }
    bal_ext(e, f, e.len());
    held_ext(e, f, e.len());
    assert forall|i: int| 0 <= i < f.len() && (#[trigger] fp(f[i])) is Some implies i < fp(f[i])->0 < f.len() && opens(f[fp(f[i])->0 as int]) by { assert(fp(e[i]) is Some); }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && (#[trigger] fp(f[i])) is Some && (#[trigger] fp(f[j])) is Some implies fp(f[i])->0 != fp(f[j])->0 by { assert(fp(e[i]) is Some && fp(e[j]) is Some); }
}
proof fn wf_close(e: Seq<Event>, k: int, s: Event)
    requires wf(e), 0 <= k < e.len(), e[k] is Placeholder, s is StartNode, fp(s) is None,
    ensures wf(e.update(k, s).push(Event::FinishNode)),
{
    reveal(wf);
    let u = e.update(k, s);
    let f = u.push(Event::FinishNode);
    held_pos(e, e.len(), k);
    bal_ext(e, f, e.len());
    held_less(e, u, e.len(), k);
    held_ext(u, f, e.len());
    assert forall|n: nat| n <= f.len() implies #[trigger] bal(f, n) >= 0 by {
        if n <= e.len() { bal_ext(e, f, n); assert(bal(e, n) >= 0); }
    }
    assert forall|i: int| 0 <= i < f.len() && (#[trigger] fp(f[i])) is Some implies i < fp(f[i])->0 < f.len() && opens(f[fp(f[i])->0 as int]) by { assert(fp(e[i]) is Some); }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && (#[trigger] fp(f[i])) is Some && (#[trigger] fp(f[j])) is Some implies fp(f[i])->0 != fp(f[j])->0 by { assert(fp(e[i]) is Some && fp(e[j]) is Some); }
}
proof fn wf_precede(e: Seq<Event>, k: int, s: Event)
    requires wf(e), 0 <= k < e.len() <= usize::MAX, e[k] is StartNode, fp(e[k]) is None, s is StartNode, fp(s) == Some(e.len() as usize),
    ensures wf(e.push(Event::Placeholder).update(k, s)),
{
    wf_push(e, Event::Placeholder);
    reveal(wf);
    let u = e.push(Event::Placeholder);
    let f = u.update(k, s);
    held_ext(u, f, f.len());
    assert forall|n: nat| n <= f.len() implies #[trigger] bal(f, n) >= 0 by { bal_ext(u, f, n); assert(bal(u, n) >= 0); }
    bal_ext(u, f, f.len());
    assert forall|i: int| 0 <= i < f.len() && (#[trigger] fp(f[i])) is Some implies i < fp(f[i])->0 < f.len() && opens(f[fp(f[i])->0 as int]) by { if i != k { assert(fp(e[i]) is Some); } }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && (#[trigger] fp(f[i])) is Some && (#[trigger] fp(f[j])) is Some implies fp(f[i])->0 != fp(f[j])->0 by {
        if i != k && j != k { assert(fp(e[i]) is Some && fp(e[j]) is Some); } else if i != k { assert(fp(e[i]) is Some); } else { assert(fp(e[j]) is Some); }
    }
}
proof fn toks_ext(a: Seq<Event>, b: Seq<Event>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] || !(a[i] is AddToken || b[i] is AddToken),
    ensures toks(a) == toks(b),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a[a.len() - 1] == b[a.len() - 1] || !(a[a.len() - 1] is AddToken || b[a.len() - 1] is AddToken));
        toks_ext(a.drop_last(), b.drop_last());
    }
}
proof fn toks_push(a: Seq<Event>, x: Event)
    ensures toks(a.push(x)) == (match x { Event::AddToken(k) => toks(a).push(k), _ => toks(a) }),
{ assert(a.push(x).drop_last() =~= a); }

// ---- the parser's state
spec fn spot(src: Seq<char>, start: Pos, sp: Span) -> bool {
    boundary(src, sp.start.offset - start.offset) && boundary(src, sp.end.offset - start.offset) && sp.start.offset <= sp.end.offset
}
impl<'x> Parser<'x> {
    spec fn src(&self) -> Seq<char> { self.tokens.src() }
    /// the tokens not taken
    spec fn rest(&self) -> Seq<TokenKind> { kinds(self.tokens@) }
    spec fn left(&self) -> nat { self.rest().len() }
    spec fn next_is(&self, k: TokenKind) -> bool { self.left() > 0 && self.rest()[0] == k }
    /// no token lost: the events' and those not taken
    spec fn whole(&self) -> Seq<TokenKind> { toks(self.events@) + self.rest() }
    spec fn ok(&self) -> bool {
        &&& wf(self.events@)
        &&& forall|i: int| 0 <= i < self.tokens@.len() ==> good_token(#[trigger] self.tokens@[i], self.src())
        &&& self.start_pos.offset + off(self.src(), self.src().len()) <= u32::MAX
        &&& spot(self.src(), self.start_pos, self.current_pos)
        &&& forall|i: int| 0 <= i < self.events@.len() && #[trigger] self.events@[i] is Error ==> spot(self.src(), self.start_pos, self.events@[i]->Error_0.span)
    }
    /// there is something to say in an error message
    spec fn expecting(&self) -> bool { self.hints@.len() + self.expected_tokens@.len() > 0 || self.next_is(TokenKind::Error) }
    spec fn on_token(&self) -> bool { self.tokens@.len() > 0 ==> cls(self.tokens@[0].kind) is Token }
}
spec fn common(a: Parser<'_>, b: Parser<'_>) -> bool {
    &&& b.ok() && b.src() == a.src() && b.start_pos == a.start_pos && b.whole() == a.whole() && b.left() <= a.left()
    &&& a.events@.len() <= b.events@.len()
}
/// b continues a, with every marker completed that it made
#[verifier::opaque]
spec fn keeps(a: Parser<'_>, b: Parser<'_>) -> bool {
    &&& common(a, b)
    &&& forall|i: int| 0 <= i < a.events@.len() ==> #[trigger] b.events@[i] == a.events@[i]
    &&& forall|i: int| a.events@.len() <= i < b.events@.len() ==> !(#[trigger] b.events@[i] is Placeholder)
}
/// the marker at k is not completed
#[verifier::opaque]
spec fn holds(a: Parser<'_>, k: int) -> bool { 0 <= k < a.events@.len() && a.events@[k] is Placeholder }
/// the node at k is complete and has no later parent
#[verifier::opaque]
spec fn done(a: Parser<'_>, k: int) -> bool { 0 <= k < a.events@.len() && a.events@[k] is StartNode && fp(a.events@[k]) is None }
#[verifier::opaque]
spec fn opened(a: Parser<'_>, b: Parser<'_>, k: int) -> bool { common(a, b) && k == a.events@.len() && b.events@ == a.events@.push(Event::Placeholder) }
/// as keeps, and the marker at k is completed
#[verifier::opaque]
spec fn closes(a: Parser<'_>, b: Parser<'_>, k: int) -> bool {
    &&& common(a, b) && holds(a, k) && done(b, k)
    &&& forall|i: int| 0 <= i < a.events@.len() && i != k ==> #[trigger] b.events@[i] == a.events@[i]
    &&& forall|i: int| a.events@.len() <= i < b.events@.len() ==> !(#[trigger] b.events@[i] is Placeholder)
}
/// a marker k for a node around the one at j
#[verifier::opaque]
spec fn preceded(a: Parser<'_>, b: Parser<'_>, j: int, k: int) -> bool {
    &&& common(a, b) && done(a, j) && k == a.events@.len() && b.events@.len() == k + 1 && b.events@[k] is Placeholder && b.events@[j] is StartNode
    &&& forall|i: int| 0 <= i < a.events@.len() && i != j ==> #[trigger] b.events@[i] == a.events@[i]
}
broadcast proof fn keeps_keeps(a: Parser<'_>, b: Parser<'_>, c: Parser<'_>)
    requires #[trigger] keeps(a, b), #[trigger] keeps(b, c),
    ensures keeps(a, c),
{ reveal(keeps); assert forall|i: int| a.events@.len() <= i < c.events@.len() implies !(#[trigger] c.events@[i] is Placeholder) by { if i < b.events@.len() { assert(b.events@[i] == c.events@[i]); } } }
broadcast proof fn keeps_facts(a: Parser<'_>, b: Parser<'_>)
    requires #[trigger] keeps(a, b),
    ensures b.ok(), b.left() <= a.left(), a.events@.len() <= b.events@.len(), b.start_pos == a.start_pos, b.src() == a.src(), b.whole() == a.whole(),
{ reveal(keeps); }
broadcast proof fn opened_facts(a: Parser<'_>, b: Parser<'_>, k: int)
    requires #[trigger] opened(a, b, k),
    ensures b.ok(), b.left() <= a.left(), holds(b, k), k == a.events@.len(),
{ reveal(opened); reveal(holds); }
broadcast proof fn closes_facts(a: Parser<'_>, b: Parser<'_>, k: int)
    requires #[trigger] closes(a, b, k),
    ensures b.ok(), b.left() <= a.left(), done(b, k), holds(a, k),
{ reveal(closes); }
broadcast proof fn preceded_facts(a: Parser<'_>, b: Parser<'_>, j: int, k: int)
    requires #[trigger] preceded(a, b, j, k),
    ensures b.ok(), b.left() <= a.left(), holds(b, k), k == a.events@.len(),
{ reveal(preceded); reveal(holds); }
broadcast proof fn holds_keeps(a: Parser<'_>, b: Parser<'_>, k: int)
    requires #[trigger] holds(a, k), #[trigger] keeps(a, b),
    ensures holds(b, k),
{ reveal(keeps); reveal(holds); }
broadcast proof fn done_keeps(a: Parser<'_>, b: Parser<'_>, k: int)
    requires #[trigger] done(a, k), #[trigger] keeps(a, b),
    ensures done(b, k),
{ reveal(keeps); reveal(done); }
broadcast proof fn open_close(a: Parser<'_>, b: Parser<'_>, c: Parser<'_>, k: int)
    requires #[trigger] opened(a, b, k), #[trigger] closes(b, c, k),
    ensures keeps(a, c),
{
    reveal(keeps); reveal(opened); reveal(closes); reveal(done);
    assert forall|i: int| 0 <= i < a.events@.len() implies #[trigger] c.events@[i] == a.events@[i] by { assert(b.events@[i] == c.events@[i]); }
}
broadcast proof fn keep_close(a: Parser<'_>, b: Parser<'_>, c: Parser<'_>, k: int)
    requires #[trigger] keeps(a, b), #[trigger] closes(b, c, k), holds(a, k),
    ensures closes(a, c, k),
{
    reveal(keeps); reveal(closes); reveal(holds);
    assert forall|i: int| a.events@.len() <= i < c.events@.len() implies !(#[trigger] c.events@[i] is Placeholder) by { if i < b.events@.len() { assert(b.events@[i] == c.events@[i]); } }
}
broadcast proof fn close_keep(a: Parser<'_>, b: Parser<'_>, c: Parser<'_>, k: int)
    requires #[trigger] closes(a, b, k), #[trigger] keeps(b, c),
    ensures closes(a, c, k),
{
    reveal(keeps); reveal(closes); reveal(done);
    done_keeps(b, c, k);
    assert forall|i: int| a.events@.len() <= i < c.events@.len() implies !(#[trigger] c.events@[i] is Placeholder) by { if i < b.events@.len() { assert(b.events@[i] == c.events@[i]); } }
}
broadcast proof fn precede_close(a: Parser<'_>, b: Parser<'_>, c: Parser<'_>, d: Parser<'_>, j: int, k: int)
    requires #[trigger] keeps(a, b), #[trigger] preceded(b, c, j, k), #[trigger] closes(c, d, k), j >= a.events@.len(),
    ensures keeps(a, d),
{
    reveal(keeps); reveal(preceded); reveal(closes); reveal(done); reveal(holds);
    assert forall|i: int| 0 <= i < a.events@.len() implies #[trigger] d.events@[i] == a.events@[i] by { assert(b.events@[i] == a.events@[i]); assert(c.events@[i] == b.events@[i]); }
    assert forall|i: int| a.events@.len() <= i < d.events@.len() implies !(#[trigger] d.events@[i] is Placeholder) by {
        if i < b.events@.len() { assert(!(b.events@[i] is Placeholder)); if i != j { assert(c.events@[i] == b.events@[i]); } assert(d.events@[i] == c.events@[i]); }
    }
}
proof fn keeps_self(a: Parser<'_>)
    requires a.ok(),
    ensures keeps(a, a),
{ reveal(keeps); }
broadcast group moves { keeps_keeps, keeps_facts, opened_facts, closes_facts, preceded_facts, holds_keeps, done_keeps, open_close, keep_close, close_keep, precede_close }

// ---- positions
impl Pos {
//@ fn ticc-syntax/src/pos.rs Pos::new
//@ rule offset : u32 ==> at0 : u32
//@ rule Pos { offset } ==> Pos { offset : at0 }
//@ ret r
    ensures r.offset == at0,
//@ end
//@ fn ticc-syntax/src/pos.rs Pos::from_origin
//@ ret r
    requires self.offset + origin.offset <= u32::MAX,
    ensures r.offset == self.offset + origin.offset,
//@ end
}
impl Span {
//@ fn ticc-syntax/src/pos.rs Span::new
//@ rule start : Pos , end : Pos ==> from : Pos , to : Pos
//@ rule Span { start , end } ==> Span { start : from , end : to }
//@ ret r
    ensures r.start == from, r.end == to,
//@ end
//@ fn ticc-syntax/src/pos.rs Span::from_origin
//@ ret r
    requires self.start.offset + origin.offset <= u32::MAX, self.end.offset + origin.offset <= u32::MAX,
    ensures r.start.offset == self.start.offset + origin.offset, r.end.offset == self.end.offset + origin.offset,
//@ end
//@ fn ticc-syntax/src/pos.rs Span::source_len
//@ ret r
    requires self.start.offset <= self.end.offset,
    ensures r == self.end.offset - self.start.offset,
//@ end
}

// ---- the parser
impl ParseHint {
//@ fn ticc/src/compiler/parser.rs ParseHint::starts_with_token
//@ end
}
/// `hints.iter().all(|h| !h.starts_with_token(t))` for each element kept by `retain`
#[verifier::external_body]
fn vx_retain_all(v: &mut Vec<TokenKind>, hints: &Vec<ParseHint>)
    ensures hints@.len() == 0 ==> final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body]
fn vx_sorted<T>(v: &mut Vec<T>) ensures final(v)@.len() == old(v)@.len() { unimplemented!() }
#[verifier::external_body]
fn vx_deduped<T>(v: &mut Vec<T>) ensures final(v)@.len() <= old(v)@.len(), old(v)@.len() > 0 ==> final(v)@.len() > 0 { unimplemented!() }
#[verifier::external_body]
fn vx_expectations(hints: &Vec<ParseHint>, tokens: &Vec<TokenKind>) -> (r: Vec<String>)
    ensures r@.len() == hints@.len() + tokens@.len() { unimplemented!() }
#[verifier::external_body]
fn vx_text(s: &str) -> String { unimplemented!() }
#[verifier::external_body]
fn vx_list(s: &mut String, l: &Vec<String>) { unimplemented!() }
#[verifier::external_body]
fn vx_name(s: &mut String, t: TokenKind) { unimplemented!() }
#[verifier::external_body]
fn vx_message(s: String) -> Msg { unimplemented!() }
fn vx_is_error(t: Option<TokenKind>) -> (r: bool) ensures r == (t == Some(TokenKind::Error)) { match t { Some(k) => k == TokenKind::Error, None => false } }
proof fn bound_max(s: Seq<char>, b: int)
    requires boundary(s, b),
    ensures 0 <= b <= off(s, s.len()),
{
    let k = at(s, b);
    if k < s.len() { off_less(s, k, s.len()); }
}
impl<'x> Parser<'x> {
//@ fn ticc/src/compiler/parser.rs Parser::hint
    requires old(self).ok(),
    ensures keeps(*old(self), *final(self)), final(self).hints@.len() > 0, final(self).rest() == old(self).rest(), final(self).events@ == old(self).events@,
//@ head
    proof { reveal(keeps); }
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::peek
//@ ret r
//@ rule break Some ( t ) ==> return Some ( t )
//@ rule break None ==> return None
//@ rule self . tokens . peek ( ) . copied ( ) . map ( | t | $b:rest ) ==> ( match self . tokens . vx_peek ( ) { Some ( t ) => Some ( $b ) , None => None } )
    requires old(self).ok(),
    ensures
        keeps(*old(self), *final(self)), final(self).rest() == old(self).rest(), final(self).events@ == old(self).events@, final(self).on_token(),
        final(self).hints == old(self).hints, final(self).expected_tokens == old(self).expected_tokens, final(self).current_pos == old(self).current_pos,
        r == (if old(self).left() > 0 { Some(old(self).rest()[0]) } else { None::<TokenKind> }),
        r is Some <==> final(self).tokens@.len() > 0,
//@ loop 0
    invariant
        self.ok(), self.src() == old(self).src(), self.start_pos == old(self).start_pos, self.rest() == old(self).rest(), self.events@ == old(self).events@,
        self.hints == old(self).hints, self.expected_tokens == old(self).expected_tokens, self.current_pos == old(self).current_pos,
    decreases self.tokens@.len(),
//@ loophead 0
    proof { reveal(keeps); if self.tokens@.len() > 0 { kinds_skip(self.tokens@); } }
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::bump_any
    requires old(self).ok(), old(self).left() > 0,
    ensures keeps(*old(self), *final(self)), final(self).left() == old(self).left() - 1,
//@ head
    let ghost p0 = *old(self);
//@ before self . current_pos
    let ghost p1 = *self;
    proof {
        kinds_skip(pk.tokens@);
        assert(good_token(pk.tokens@[0], self.src()));
        bound_max(self.src(), token.span.end.offset as int);
        toks_push(p0.events@, p1.events@.last());
        assert(p1.whole() =~= p0.whole());
        wf_push(p0.events@, p1.events@.last());
    }
//@ after assert !
    let ghost pk = *self;
    proof { assert(self.tokens@.len() > 0); kinds_skip(self.tokens@); reveal(keeps); }
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::at
//@ ret r
    requires old(self).ok(),
    ensures
        keeps(*old(self), *final(self)), final(self).rest() == old(self).rest(), final(self).events@ == old(self).events@,
        final(self).hints == old(self).hints, token != TokenKind::Error ==> final(self).expected_tokens@.len() > 0,
        final(self).expected_tokens@.len() >= old(self).expected_tokens@.len(),
        r <==> old(self).next_is(token),
//@ head
    proof { reveal(keeps); }
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::at_eof
//@ ret r
    requires old(self).ok(),
    ensures
        keeps(*old(self), *final(self)), final(self).rest() == old(self).rest(), final(self).events@ == old(self).events@,
        final(self).hints == old(self).hints, final(self).expected_tokens == old(self).expected_tokens, final(self).on_token(),
        r <==> old(self).left() == 0, r <==> final(self).tokens@.len() == 0,
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::bump
    requires old(self).ok(), old(self).next_is(token),
    ensures keeps(*old(self), *final(self)), final(self).left() == old(self).left() - 1,
//@ head
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::bump_name
    requires old(self).ok(), old(self).next_is(TokenKind::Ident),
    ensures keeps(*old(self), *final(self)), final(self).left() == old(self).left() - 1,
//@ head
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::start
//@ ret r
    requires old(self).ok(),
    ensures opened(*old(self), *final(self), r.pos as int), final(self).rest() == old(self).rest(), final(self).hints == old(self).hints, final(self).expected_tokens == old(self).expected_tokens,
//@ head
    proof { reveal(opened); wf_push(self.events@, Event::Placeholder); toks_push(self.events@, Event::Placeholder); }
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::expect
    requires old(self).ok(), token != TokenKind::Error,
    ensures keeps(*old(self), *final(self)), old(self).next_is(token) ==> final(self).left() == old(self).left() - 1,
//@ head
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::expect_name
    requires old(self).ok(),
    ensures keeps(*old(self), *final(self)), old(self).next_is(TokenKind::Ident) ==> final(self).left() == old(self).left() - 1,
//@ head
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::emit_error
//@ rule self . peek ( ) == Some ( TokenKind :: Error ) ==> vx_is_error ( self . peek ( ) )
//@ rule "bad token" . to_owned ( ) ==> vx_text ( "bad token" )
//@ rule self . hints . sort ( ) ==> vx_sorted ( & mut self . hints )
//@ rule self . hints . dedup ( ) ==> vx_deduped ( & mut self . hints )
//@ rule self . expected_tokens . retain ( | & t | hints . iter ( ) . all ( | h | $b:rest ) ) ==> vx_retain_all ( & mut self . expected_tokens , hints )
//@ rule self . expected_tokens . sort ( ) ==> vx_sorted ( & mut self . expected_tokens )
//@ rule self . expected_tokens . dedup ( ) ==> vx_deduped ( & mut self . expected_tokens )
//@ rule self . hints . iter ( ) . map ( $x:any ) . chain ( self . expected_tokens . iter ( ) . map ( $y:any ) ) . collect :: < Vec < _ >> ( ) ==> vx_expectations ( & self . hints , & self . expected_tokens )
//@ rule String :: from ( $x ) ==> vx_text ( $x )
//@ rule match expectations . as_slice ( ) { [ ] => $p:any , $r:rest } ==> if expectations . len ( ) == 0 { $p } else { vx_list ( & mut msg , & expectations ) }
//@ rule msg += ", got " ; ==>
//@ rule msg += token . to_str ( ) ==> vx_name ( & mut msg , token )
//@ rule err_fmt ! ( message ) ==> vx_message ( message )
//@ rule self . tokens . peek ( ) . map ( | t | $b:rest ) . unwrap_or ( self . current_pos ) ==> ( match self . tokens . vx_peek ( ) { Some ( t ) => $b , None => self . current_pos } )
    requires old(self).ok(), old(self).expecting(),
    ensures keeps(*old(self), *final(self)), !old(self).next_is(TokenKind::Error) ==> final(self).rest() == old(self).rest() && final(self).expecting(),
        old(self).next_is(TokenKind::Error) ==> final(self).left() == old(self).left() - 1,
        exists|i: int| old(self).events@.len() <= i < final(self).events@.len() && #[trigger] final(self).events@[i] is Error,
//@ head
    broadcast use moves;
    let ghost p0 = *self;
//@ before let start_pos
    let ghost p1 = *self;
    proof {
        assert(p1.events@ == p0.events@ && p1.rest() == p0.rest() && p1.ok() && p1.src() == p0.src());
        assert(keeps(p0, p1)) by { reveal(keeps); }
        if p1.tokens@.len() > 0 {
            assert(good_token(p1.tokens@[0], p1.src()));
            bound_max(p1.src(), p1.tokens@[0].span.start.offset as int);
            bound_max(p1.src(), p1.tokens@[0].span.end.offset as int);
        }
    }
//@ after self . events . push
    let ghost p2 = *self;
    proof {
        wf_push(p1.events@, p2.events@.last());
        toks_push(p1.events@, p2.events@.last());
        assert(p2.ok());
        assert(keeps(p1, p2)) by { reveal(keeps); }
        assert(p2.events@[p1.events@.len() as int] is Error);
    }
//@ after if self . at ( TokenKind :: Error )
    proof { reveal(keeps); assert(self.events@[p1.events@.len() as int] is Error); }
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::error_recover
    requires old(self).ok(), old(self).expecting(),
    ensures keeps(*old(self), *final(self)),
//@ head
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser.rs Parser::error_recover_item
    requires old(self).ok(), old(self).expecting(),
    ensures keeps(*old(self), *final(self)), old(self).left() > 0 && !stops(old(self).rest()[0]) ==> final(self).left() < old(self).left(),
//@ head
    broadcast use moves;
    let ghost p0 = *self;
//@ loophead 0
    broadcast use moves;
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ before loop
    let ghost p1 = *self;
    proof { keeps_self(p1); }
//@ loop 0
    invariant
        self.ok(), keeps(p1, *self), self.left() == p0.left() ==> self.rest() == p0.rest(),
    ensures
        keeps(p1, *self), self.left() == p0.left() ==> self.rest() == p0.rest(), self.left() == 0 || stops(self.rest()[0]),
    decreases self.left(),
//@ end
}
spec fn stops(t: TokenKind) -> bool { t is Export || t is Type || t is Let }
impl Marker {
//@ fn ticc/src/compiler/parser.rs Marker::complete
//@ ret r
//@ rule std :: mem :: forget ( self ) ; ==>
    requires old(parser).ok(), holds(*old(parser), self.pos as int),
    ensures closes(*old(parser), *final(parser), self.pos as int), r.pos == self.pos, final(parser).rest() == old(parser).rest(),
        final(parser).hints == old(parser).hints, final(parser).expected_tokens == old(parser).expected_tokens,
//@ head
    proof { reveal(holds); reveal(closes); reveal(done); }
    let ghost p0 = *parser;
//@ after parser . events . push
    proof {
        let s = parser.events@[self.pos as int];
        wf_close(p0.events@, self.pos as int, s);
        assert(parser.events@ =~= p0.events@.update(self.pos as int, s).push(Event::FinishNode));
        toks_push(p0.events@.update(self.pos as int, s), Event::FinishNode);
        toks_ext(p0.events@, p0.events@.update(self.pos as int, s));
    }
//@ end
}
impl CompletedMarker {
//@ fn ticc/src/compiler/parser.rs CompletedMarker::precede
//@ ret r
    requires old(parser).ok(), done(*old(parser), self.pos as int),
    ensures preceded(*old(parser), *final(parser), self.pos as int, r.pos as int), final(parser).rest() == old(parser).rest(),
        final(parser).hints == old(parser).hints, final(parser).expected_tokens == old(parser).expected_tokens,
//@ head
    proof { reveal(done); reveal(opened); reveal(preceded); }
    let ghost p0 = *parser;
//@ after if let Event :: StartNode
    proof {
        let s = parser.events@[self.pos as int];
        wf_precede(p0.events@, self.pos as int, s);
        let u = p0.events@.push(Event::Placeholder);
        assert(parser.events@ =~= u.update(self.pos as int, s));
        toks_push(p0.events@, Event::Placeholder);
        toks_ext(u, parser.events@);
    }
//@ end
}
//@ fn ticc/src/compiler/parser/type_.rs type_
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)),
    decreases old(p).left(), 5int,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ end
//@ fn ticc/src/compiler/parser/type_.rs non_fn_type
//@ ret r
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)), r is Some ==> done(*final(p), r->0.pos as int) && r->0.pos >= old(p).events@.len() && final(p).left() < old(p).left(), r is None ==> final(p).rest() == old(p).rest() && final(p).hints@.len() > 0,
    decreases old(p).left(), 4int,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ before while
    let ghost p2 = *p;
    proof { keeps_self(p2); }
//@ loop 0
    invariant p.ok(), keeps(p2, *p),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser/type_.rs atom_type
//@ ret r
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)), r is Some ==> done(*final(p), r->0.pos as int) && r->0.pos >= old(p).events@.len() && final(p).left() < old(p).left(), r is None ==> final(p).rest() == old(p).rest() && final(p).hints@.len() > 0,
    decreases old(p).left(), 3int,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ end
//@ fn ticc/src/compiler/parser/expr.rs expr
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)),
    decreases old(p).left(), 6int,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ before while
    let ghost p2 = *p;
    proof { keeps_self(p2); }
//@ loop 0
    invariant p.ok(), keeps(p2, *p), p2.left() < p0.left(),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser/expr.rs match_case
    requires old(p).ok(), old(p).next_is(TokenKind::Pipe),
    ensures keeps(*old(p), *final(p)), final(p).left() < old(p).left(),
    decreases old(p).left(), 2int,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ before while
    let ghost p2 = *p;
    proof { keeps_self(p2); }
//@ loop 0
    invariant p.ok(), keeps(p2, *p),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser/expr.rs op_expr
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)),
    decreases old(p).left(), 5int,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ rule p . peek ( ) . and_then ( binding_power ) ==> ( match p . peek ( ) { Some ( t ) => binding_power ( t ) , None => None } )
//@ before loop
    let ghost p2 = *p;
//@ loop 0
    invariant p.ok(), keeps(p0, *p), p.left() < p0.left(), done(*p, m.pos as int), m.pos >= p0.events@.len(),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser/expr.rs apply_expr
//@ ret r
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)), r is Some ==> done(*final(p), r->0.pos as int) && r->0.pos >= old(p).events@.len() && final(p).left() < old(p).left(),
    decreases old(p).left(), 4int,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ loop 0
    invariant p.ok(), keeps(p0, *p), p.left() < p0.left(), done(*p, m.pos as int), m.pos >= p0.events@.len(),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser/expr.rs atom_expr
//@ ret r
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)), r is Some ==> done(*final(p), r->0.pos as int) && r->0.pos >= old(p).events@.len() && final(p).left() < old(p).left(), r is None ==> final(p).rest() == old(p).rest() && final(p).hints@.len() > 0,
    decreases old(p).left(), 3int,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ end
//@ fn ticc/src/compiler/parser/expr.rs binding_power
//@ end
//@ fn ticc/src/compiler/parser/item.rs item
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)), old(p).left() > 0 ==> final(p).left() < old(p).left(),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ end
//@ fn ticc/src/compiler/parser/item.rs value_item
    requires old(p).ok(), old(p).next_is(TokenKind::Let) && holds(*old(p), m.pos as int),
    ensures closes(*old(p), *final(p), m.pos as int), final(p).left() < old(p).left(),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
    proof { keeps_self(p0); }
//@ end
//@ fn ticc/src/compiler/parser/item.rs type_item
    requires old(p).ok(), old(p).next_is(TokenKind::Type) && holds(*old(p), m.pos as int),
    ensures closes(*old(p), *final(p), m.pos as int), final(p).left() < old(p).left(),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
    proof { keeps_self(p0); }
//@ before while
    let ghost p2 = *p;
    proof { keeps_self(p2); }
//@ loop 0
    invariant p.ok(), keeps(p2, *p),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser/item.rs type_params
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
    proof { keeps_self(p0); }
//@ before while
    let ghost p2 = *p;
    proof { keeps_self(p2); }
//@ loop 0
    invariant p.ok(), keeps(p2, *p),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser/item.rs type_case
    requires old(p).ok(),
    ensures keeps(*old(p), *final(p)), !pipe_optional && old(p).next_is(TokenKind::Pipe) ==> final(p).left() < old(p).left(),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ before loop
    let ghost p2 = *p;
    proof { keeps_self(p2); }
//@ loop 0
    invariant p.ok(), keeps(p2, *p),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end
//@ fn ticc/src/compiler/parser/item.rs exposed_list
    requires old(p).ok(), old(p).next_is(TokenKind::LeftParen),
    ensures keeps(*old(p), *final(p)),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use moves;
    let ghost p0 = *p;
//@ before while
    let ghost p2 = *p;
    proof { keeps_self(p2); }
//@ loop 0
    invariant p.ok(), keeps(p2, *p),
    decreases p.left(),
//@ loophead 0
    broadcast use moves;
//@ end

// ---- the events in their final order
spec fn has_error(e: Seq<Event>, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] e[i] is Error }
/// errors of b are errors of a
spec fn errors_from(a: Seq<Event>, b: Seq<Event>) -> bool { forall|i: int| 0 <= i < b.len() && #[trigger] b[i] is Error ==> exists|j: int| 0 <= j < a.len() && a[j] == b[i] }
/// every node ends after it starts
spec fn nested(e: Seq<Event>) -> bool { forall|n: nat| n <= e.len() ==> #[trigger] bal(e, n) >= 0 }
spec fn no_marker(e: Seq<Event>) -> bool { forall|i: int| 0 <= i < e.len() ==> !(#[trigger] e[i] is Placeholder) }
/// v is what is left of e when everything before i has been moved out
spec fn left_of(e: Seq<Event>, v: Seq<Event>, i: int) -> bool {
    &&& v.len() == e.len()
    &&& forall|k: int| 0 <= k < e.len() ==> #[trigger] v[k] is Placeholder || v[k] == e[k]
    &&& forall|k: int| 0 <= k < i ==> #[trigger] v[k] is Placeholder
    &&& forall|k: int| i <= k < e.len() && #[trigger] v[k] is Placeholder ==> e[k] is StartNode
    &&& forall|k: int| 0 <= k < e.len() && (#[trigger] fp(v[k])) is Some ==> !(v[fp(v[k])->0 as int] is Placeholder)
}
/// f is what has been moved out
spec fn moved(e: Seq<Event>, v: Seq<Event>, f: Seq<Event>, i: int) -> bool {
    &&& held(v, v.len()) == f.len()
    &&& bal(f, f.len()) - f.len() == bal(e, i as nat) - i
    &&& f.len() >= i && nested(f) && no_marker(f) && toks(f) == toks(e.take(i)) && errors_from(e, f)
    &&& has_error(e, i) ==> has_error(f, f.len() as int)
}
proof fn held_all(e: Seq<Event>, n: nat)
    requires n <= e.len(),
    ensures
        (forall|k: int| 0 <= k < n ==> #[trigger] e[k] is Placeholder) ==> held(e, n) == n,
        (forall|k: int| 0 <= k < n ==> !(#[trigger] e[k] is Placeholder)) ==> held(e, n) == 0,
        held(e, n) <= n,
    decreases n,
{
    if n > 0 { held_all(e, (n - 1) as nat); }
}
/// as many as there are
proof fn held_least(e: Seq<Event>, n: nat, i: nat)
    requires i <= n <= e.len(), forall|k: int| 0 <= k < i ==> #[trigger] e[k] is Placeholder,
    ensures held(e, n) >= i,
    decreases n,
{
    held_nonneg(e, n);
    if n > i { held_least(e, (n - 1) as nat, i); } else { held_all(e, n); }
}
proof fn push_f(f: Seq<Event>, x: Event)
    requires nested(f), no_marker(f), !(x is Placeholder), x is FinishNode ==> bal(f, f.len()) > 0,
    ensures nested(f.push(x)), no_marker(f.push(x)), bal(f.push(x), f.len() + 1) == bal(f, f.len()) + if opens(x) { 1int } else if x is FinishNode { -1 } else { 0 },
        has_error(f, f.len() as int) || x is Error ==> has_error(f.push(x), (f.len() + 1) as int),
{
    let g = f.push(x);
    bal_ext(f, g, f.len());
    assert forall|n: nat| n <= g.len() implies #[trigger] bal(g, n) >= 0 by { if n <= f.len() { bal_ext(f, g, n); assert(bal(f, n) >= 0); } else { assert(bal(f, f.len()) >= 0); } }
    if x is Error { assert(g[f.len() as int] is Error); } else if has_error(f, f.len() as int) {
        let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] is Error;
        assert(g[i] is Error);
    }
}
/// positions i < c1 < c2 < … each the parent of the one before
spec fn chain(e: Seq<Event>, c: Seq<usize>, i: int) -> bool {
    &&& c.len() > 0 ==> c[0] == i
    &&& forall|m: int| 0 <= m < c.len() ==> i <= #[trigger] c[m] < e.len() && e[c[m] as int] is StartNode
    &&& forall|m: int| 0 < m < c.len() ==> c[m - 1] < #[trigger] c[m] && fp(e[c[m - 1] as int]) == Some(c[m])
}
proof fn chain_up(e: Seq<Event>, c: Seq<usize>, i: int, a: int, b: int)
    requires chain(e, c, i), 0 <= a < b < c.len(),
    ensures c[a] < c[b],
    decreases b,
{
    if a < b - 1 { chain_up(e, c, i, a, b - 1); }
}
proof fn step(e: Seq<Event>, i: int)
    requires 0 <= i < e.len(),
    ensures toks(e.take(i + 1)) == (match e[i] { Event::AddToken(k) => toks(e.take(i)).push(k), _ => toks(e.take(i)) }),
        has_error(e, i + 1) <==> has_error(e, i) || e[i] is Error,
        bal(e, (i + 1) as nat) == bal(e, i as nat) + if opens(e[i]) { 1int } else if e[i] is FinishNode { -1 } else { 0 },
{
    assert(e.take(i + 1).drop_last() =~= e.take(i));
    if has_error(e, i + 1) && !(e[i] is Error) {
        let k = choose|k: int| 0 <= k < i + 1 && #[trigger] e[k] is Error;
        assert(k < i);
    }
}
/// what one chain leaves
spec fn chained(v0: Seq<Event>, v1: Seq<Event>, c: Seq<usize>) -> bool {
    &&& v0.len() == v1.len() && c.len() > 0
    &&& forall|k: int| 0 <= k < v0.len() ==> #[trigger] v1[k] == v0[k] || exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k
}
spec fn popped(v1: Seq<Event>, v: Seq<Event>, c: Seq<usize>) -> bool {
    &&& v.len() == v1.len()
    &&& forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] == v1[k] || v[k] is Placeholder && exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k
    &&& forall|m: int| 0 <= m < c.len() ==> v[#[trigger] c[m] as int] is Placeholder
}
proof fn chain_facts(e: Seq<Event>, v0: Seq<Event>, v1: Seq<Event>, v: Seq<Event>, c: Seq<usize>, i: int, k: int)
    requires left_of(e, v0, i), chain(e, c, i), chained(v0, v1, c), popped(v1, v, c), 0 <= k < e.len(),
    ensures
        (exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k) ==> v[k] is Placeholder && k >= i && e[k] is StartNode,
        !(exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k) ==> v[k] == v0[k],
        v[k] is Placeholder || v[k] == v0[k] && v[k] == e[k],
{
    assert(v[k] == v1[k] || exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k);
    assert(v1[k] == v0[k] || exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k);
    if exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k {
        let m = choose|m: int| 0 <= m < c.len() && #[trigger] c[m] == k;
        assert(v[c[m] as int] is Placeholder);
        assert(e[c[m] as int] is StartNode);
    }
    assert(v0[k] is Placeholder || v0[k] == e[k]);
}
proof fn after_chain_left(e: Seq<Event>, v0: Seq<Event>, v1: Seq<Event>, v: Seq<Event>, c: Seq<usize>, i: int)
    requires 0 <= i < e.len(), left_of(e, v0, i), fp(v0[i]) is Some, chain(e, c, i), chained(v0, v1, c), popped(v1, v, c), parents(e),
    ensures left_of(e, v, i + 1),
{
    assert forall|k: int| 0 <= k < e.len() implies #[trigger] v[k] is Placeholder || v[k] == e[k] by { chain_facts(e, v0, v1, v, c, i, k); }
    assert(c[0] == i);
    chain_facts(e, v0, v1, v, c, i, i);
    assert forall|k: int| 0 <= k < i + 1 implies #[trigger] v[k] is Placeholder by { chain_facts(e, v0, v1, v, c, i, k); if k < i { assert(v0[k] is Placeholder); } }
    assert forall|k: int| i + 1 <= k < e.len() && #[trigger] v[k] is Placeholder implies e[k] is StartNode by {
        chain_facts(e, v0, v1, v, c, i, k);
        if !(exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k) { assert(v0[k] is Placeholder); }
    }
    assert forall|k: int| 0 <= k < e.len() && (#[trigger] fp(v[k])) is Some implies !(v[fp(v[k])->0 as int] is Placeholder) by {
        chain_facts(e, v0, v1, v, c, i, k);
        let t = fp(v[k])->0 as int;
        assert(fp(e[k]) is Some && fp(v0[k]) is Some);
        assert(!(v0[t] is Placeholder));
        chain_facts(e, v0, v1, v, c, i, t);
        if v[t] is Placeholder {
            let m = choose|m: int| 0 <= m < c.len() && #[trigger] c[m] == t;
            if m == 0 { assert(k < t == i); assert(v[k] is Placeholder); }
            else {
                assert(c[m - 1] < c[m]);
                let j = c[m - 1] as int;
                assert(fp(e[j]) == Some(c[m]));
                assert(v[c[m - 1] as int] is Placeholder);
                assert(fp(e[k]) is Some && fp(e[j]) is Some);
                assert(fp(e[k])->0 == fp(e[j])->0);
            }
        }
    }
}
proof fn after_chain(e: Seq<Event>, v0: Seq<Event>, v1: Seq<Event>, v: Seq<Event>, f0: Seq<Event>, f: Seq<Event>, c: Seq<usize>, i: int)
    requires
        0 <= i < e.len(), left_of(e, v0, i), moved(e, v0, f0, i), fp(v0[i]) is Some, chain(e, c, i), chained(v0, v1, c), popped(v1, v, c), fp(e[c.last() as int]) is None,
        parents(e), no_marker(e), held(v, v.len()) == f.len(), bal(f, f.len()) - f.len() == bal(f0, f0.len()) - f0.len(),
        nested(f), no_marker(f), toks(f) == toks(f0), errors_from(e, f), has_error(f0, f0.len() as int) ==> has_error(f, f.len() as int),
    ensures left_of(e, v, i + 1), moved(e, v, f, i + 1),
{
    hide(parents); hide(chain); hide(chained); hide(popped); hide(errors_from); hide(nested); hide(no_marker);
    after_chain_left(e, v0, v1, v, c, i);
    step(e, i);
    assert(v0[i] == e[i]);
    held_least(v, v.len(), (i + 1) as nat);
}
proof fn after_one(e: Seq<Event>, v0: Seq<Event>, f0: Seq<Event>, i: int)
    requires
        0 <= i < e.len(), left_of(e, v0, i), moved(e, v0, f0, i), fp(v0[i]) is None, !(v0[i] is Placeholder), parents(e), no_marker(e), nested(e),
    ensures left_of(e, v0.update(i, Event::Placeholder), i + 1), moved(e, v0.update(i, Event::Placeholder), f0.push(v0[i]), i + 1),
{
    let v = v0.update(i, Event::Placeholder);
    let x = v0[i];
    let f = f0.push(x);
    step(e, i);
    assert(x == e[i]);
    assert(bal(e, (i + 1) as nat) >= 0);
    push_f(f0, x);
    toks_push(f0, x);
    held_less(v, v0, v.len(), i);
    assert forall|k: int| 0 <= k < e.len() && (#[trigger] fp(v[k])) is Some implies !(v[fp(v[k])->0 as int] is Placeholder) by {
        assert(k != i);
        assert(v[k] == v0[k]);
        assert(fp(v0[k]) is Some);
        assert(!(v0[k] is Placeholder));
        assert(v0[k] == e[k]);
        assert(fp(e[k]) is Some);
        if k < i { assert(v0[k] is Placeholder); }
    }
    assert forall|j: int| 0 <= j < f.len() && #[trigger] f[j] is Error implies exists|k: int| 0 <= k < e.len() && e[k] == f[j] by {
        if j < f0.len() { assert(f0[j] is Error); } else { assert(e[i] == f[j]); }
    }
    assert(left_of(e, v, i + 1)) by {
        assert forall|k: int| 0 <= k < i + 1 implies #[trigger] v[k] is Placeholder by { if k < i { assert(v0[k] is Placeholder); } }
        assert forall|k: int| 0 <= k < e.len() implies #[trigger] v[k] is Placeholder || v[k] == e[k] by { assert(v0[k] is Placeholder || v0[k] == e[k]); }
        assert forall|k: int| i + 1 <= k < e.len() && #[trigger] v[k] is Placeholder implies e[k] is StartNode by { assert(v0[k] is Placeholder); }
    }
}
proof fn after_none(e: Seq<Event>, v0: Seq<Event>, f0: Seq<Event>, i: int)
    requires 0 <= i < e.len(), left_of(e, v0, i), moved(e, v0, f0, i), v0[i] is Placeholder,
    ensures left_of(e, v0, i + 1), moved(e, v0, f0, i + 1),
{
    step(e, i);
    held_least(v0, v0.len(), (i + 1) as nat);
}
spec fn starts(v: Seq<Event>, c: Seq<usize>) -> bool { forall|m: int| 0 <= m < c.len() ==> v[#[trigger] c[m] as int] is StartNode }
spec fn following(e: Seq<Event>, v0: Seq<Event>, v: Seq<Event>, c: Seq<usize>, cur: int, i: int) -> bool {
    &&& v.len() == v0.len() && v0.len() == e.len() && chain(e, c, i) && i <= cur < v.len() && starts(v, c)
    &&& forall|k: int| cur <= k < v.len() ==> #[trigger] v[k] == v0[k]
    &&& forall|k: int| 0 <= k < cur ==> #[trigger] v[k] == v0[k] || exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k
    &&& forall|m: int| 0 <= m < c.len() ==> #[trigger] c[m] < cur
    &&& c.len() == 0 ==> cur == i
    &&& c.len() > 0 ==> fp(e[c.last() as int]) == Some(cur as usize)
    &&& v0[cur] == e[cur] && e[cur] is StartNode && starts(v0, c)
}
/// the chain ends at cur, or goes on
proof fn follow_push(e: Seq<Event>, v0: Seq<Event>, v: Seq<Event>, c: Seq<usize>, cur: usize, i: int)
    requires e.len() <= usize::MAX, parents(e), left_of(e, v0, i), following(e, v0, v, c, cur as int, i),
    ensures
        chain(e, c.push(cur), i), v[cur as int] == e[cur as int], starts(v, c.push(cur)), chained(v0, v, c.push(cur)),
        fp(e[cur as int]) is Some ==> cur < fp(e[cur as int])->0 < e.len() && v0[fp(e[cur as int])->0 as int] == e[fp(e[cur as int])->0 as int] && e[fp(e[cur as int])->0 as int] is StartNode,
        e[cur as int] is StartNode, starts(v0, c.push(cur)),
{
    let d = c.push(cur);
    assert(v[cur as int] == v0[cur as int]);
    assert forall|m: int| 0 <= m < d.len() implies i <= #[trigger] d[m] < e.len() && e[d[m] as int] is StartNode by { if m < c.len() { assert(d[m] == c[m]); } }
    assert forall|m: int| 0 < m < d.len() implies d[m - 1] < #[trigger] d[m] && fp(e[d[m - 1] as int]) == Some(d[m]) by { assert(d[m - 1] == c[m - 1]); if m < c.len() { assert(d[m] == c[m]); } }
    assert forall|m: int| 0 <= m < d.len() implies v[#[trigger] d[m] as int] is StartNode by { if m < c.len() { assert(d[m] == c[m]); } }
    assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v[k] == v0[k] || exists|m: int| 0 <= m < d.len() && #[trigger] d[m] == k by {
        if k < cur && v[k] != v0[k] { let m = choose|m: int| 0 <= m < c.len() && #[trigger] c[m] == k; assert(d[m] == k); }
    }
    assert forall|m: int| 0 <= m < d.len() implies v0[#[trigger] d[m] as int] is StartNode by { if m < c.len() { assert(d[m] == c[m]); } }
    if fp(e[cur as int]) is Some {
        let t = fp(e[cur as int])->0 as int;
        assert(fp(v0[cur as int]) is Some);
        assert(!(v0[t] is Placeholder));
        assert(v0[t] == e[t]);
    }
}
proof fn follow_step(e: Seq<Event>, v0: Seq<Event>, v: Seq<Event>, c: Seq<usize>, cur: usize, i: int, w: Seq<Event>, next: usize)
    requires e.len() <= usize::MAX, parents(e), left_of(e, v0, i), following(e, v0, v, c, cur as int, i), fp(e[cur as int]) == Some(next), w == v.update(cur as int, w[cur as int]), w[cur as int] is StartNode,
    ensures following(e, v0, w, c.push(cur), next as int, i),
{
    follow_push(e, v0, v, c, cur, i);
    let d = c.push(cur);
    assert(fp(e[cur as int]) is Some);
    assert forall|m: int| 0 <= m < d.len() implies #[trigger] d[m] < next by { if m < c.len() { assert(d[m] == c[m]); } }
    assert forall|m: int| 0 <= m < d.len() implies w[#[trigger] d[m] as int] is StartNode by { if m < c.len() { assert(d[m] == c[m]); assert(v[c[m] as int] is StartNode); } }
    assert forall|k: int| 0 <= k < next implies #[trigger] w[k] == v0[k] || exists|m: int| 0 <= m < d.len() && #[trigger] d[m] == k by {
        if k == cur { assert(d[c.len() as int] == k); } else { assert(w[k] == v[k]); assert(v[k] == v0[k] || exists|m: int| 0 <= m < d.len() && #[trigger] d[m] == k); }
    }
    assert forall|k: int| next <= k < w.len() implies #[trigger] w[k] == v0[k] by { assert(w[k] == v[k]); }
}
spec fn popping(v1: Seq<Event>, v: Seq<Event>, c: Seq<usize>, p: int) -> bool {
    &&& v.len() == v1.len() && 0 <= p <= c.len()
    &&& forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] == v1[k] || v[k] is Placeholder && exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == k
    &&& forall|m: int| 0 <= m < p ==> v[#[trigger] c[m] as int] == v1[c[m] as int]
    &&& forall|m: int| p <= m < c.len() ==> v[#[trigger] c[m] as int] is Placeholder
}
proof fn pop_one(e: Seq<Event>, v1: Seq<Event>, v: Seq<Event>, c: Seq<usize>, i: int, p: int, f: Seq<Event>)
    requires chain(e, c, i), starts(v1, c), popping(v1, v, c, p), p > 0, nested(f), no_marker(f), v.len() == e.len(), errors_from(e, f), held(v, v.len()) == f.len(),
    ensures ({
        let k = c[p - 1] as int;
        let g = f.push(v[k]);
        let w = v.update(k, Event::Placeholder);
        &&& 0 <= k < v.len() && v[k] is StartNode && popping(v1, w, c, p - 1) && held(w, w.len()) == g.len()
        &&& nested(g) && no_marker(g) && toks(g) == toks(f) && errors_from(e, g) && bal(g, g.len()) == bal(f, f.len()) + 1
        &&& has_error(f, f.len() as int) ==> has_error(g, g.len() as int)
    }),
{
    let k = c[p - 1] as int;
    let g = f.push(v[k]);
    let w = v.update(k, Event::Placeholder);
    assert(v[c[p - 1] as int] == v1[c[p - 1] as int]);
    push_f(f, v[k]);
    toks_push(f, v[k]);
    held_less(w, v, w.len(), k);
    assert forall|m: int| 0 <= m < p - 1 implies w[#[trigger] c[m] as int] == v1[c[m] as int] by { chain_up(e, c, i, m, p - 1); }
    assert forall|m: int| p - 1 <= m < c.len() implies w[#[trigger] c[m] as int] is Placeholder by { if m > p - 1 { chain_up(e, c, i, p - 1, m); } }
    assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] == v1[j] || w[j] is Placeholder && exists|m: int| 0 <= m < c.len() && #[trigger] c[m] == j by {
        if j == k { assert(c[p - 1] == j); } else { assert(w[j] == v[j]); }
    }
    assert forall|j: int| 0 <= j < g.len() && #[trigger] g[j] is Error implies exists|k: int| 0 <= k < e.len() && e[k] == g[j] by { assert(f[j] is Error); }
}
pub assume_specification<T> [ core::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);
proof fn order_start(e: Seq<Event>)
    requires parents(e), no_marker(e), nested(e),
    ensures left_of(e, e, 0), moved(e, e, seq![], 0),
{
    held_all(e, e.len());
    assert(e.take(0) =~= seq![]);
    assert forall|k: int| 0 <= k < e.len() && (#[trigger] fp(e[k])) is Some implies !(e[fp(e[k])->0 as int] is Placeholder) by {}
}
proof fn order_end(e: Seq<Event>, v: Seq<Event>, f: Seq<Event>)
    requires left_of(e, v, e.len() as int), moved(e, v, f, e.len() as int),
    ensures f.len() == e.len(), nested(f), no_marker(f), bal(f, f.len()) == bal(e, e.len()), toks(f) == toks(e), errors_from(e, f), has_error(e, e.len() as int) ==> has_error(f, f.len() as int),
{
    held_all(v, v.len());
    assert(e.take(e.len() as int) =~= e);
}
proof fn moved_facts(e: Seq<Event>, v: Seq<Event>, f: Seq<Event>, i: int)
    requires moved(e, v, f, i),
    ensures held(v, v.len()) == f.len(), nested(f), no_marker(f), errors_from(e, f),
{}
proof fn follow_start(e: Seq<Event>, v0: Seq<Event>, i: int)
    requires 0 <= i < e.len() <= usize::MAX, left_of(e, v0, i), fp(v0[i]) is Some,
    ensures following(e, v0, v0, seq![], i, i),
{
    assert(v0[i] is Placeholder || v0[i] == e[i]);
}
proof fn pop_start(e: Seq<Event>, v0: Seq<Event>, v1: Seq<Event>, c: Seq<usize>, i: int)
    requires left_of(e, v0, i), chain(e, c, i), chained(v0, v1, c), starts(v1, c), starts(v0, c),
    ensures popping(v1, v1, c, c.len() as int), held(v1, v1.len()) == held(v0, v0.len()),
{
    held_same(v0, v1, v0.len(), c);
}
proof fn held_same(v0: Seq<Event>, v1: Seq<Event>, n: nat, c: Seq<usize>)
    requires chained(v0, v1, c), starts(v1, c), starts(v0, c), n <= v0.len(),
    ensures held(v0, n) == held(v1, n),
    decreases n,
{
    if n > 0 {
        held_same(v0, v1, (n - 1) as nat, c);
        let k = n - 1;
        if v1[k] != v0[k] {
            let m = choose|m: int| 0 <= m < c.len() && #[trigger] c[m] == k;
            assert(v1[c[m] as int] is StartNode);
            assert(v0[c[m] as int] is StartNode);
        }
    }
}
proof fn pop_end(v1: Seq<Event>, v: Seq<Event>, c: Seq<usize>)
    requires popping(v1, v, c, 0),
    ensures popped(v1, v, c),
{}
proof fn pop_range(v1: Seq<Event>, v: Seq<Event>, c: Seq<usize>, p: int)
    requires popping(v1, v, c, p),
    ensures 0 <= p <= c.len(), v.len() == v1.len(),
{}
//@ fn ticc/src/compiler/parser.rs reorder_forward_parents
//@ ret r
//@ rule None => break ==> None => { proof { assert(events@ =~= ev1); } break; }
//@ rule assert_eq ! ( events . len ( ) , final_events . len ( ) ) ==> vx_assert ( events . len ( ) == final_events . len ( ) )
    requires parents(events@), no_marker(events@), nested(events@),
    ensures r@.len() == events@.len(), nested(r@), no_marker(r@), bal(r@, r@.len()) == bal(events@, events@.len()), toks(r@) == toks(events@),
        errors_from(events@, r@), has_error(events@, events@.len() as int) ==> has_error(r@, r@.len() as int),
//@ head
    hide(parents); hide(chain); hide(chained); hide(popped); hide(errors_from); hide(nested); hide(no_marker); hide(popping); hide(following); hide(starts); hide(left_of); hide(moved);
    hide(has_error); hide(bal); hide(held); hide(toks);
    let ghost e0 = events@;
    proof { order_start(e0); }
//@ loop 0
    invariant
        vx_it0.seq().len() == e0.len(), events@.len() == e0.len(), e0.len() <= usize::MAX, parents(e0), no_marker(e0), nested(e0), left_of(e0, events@, i as int), moved(e0, events@, final_events@, i as int), indices@ == Seq::<usize>::empty(),
//@ loophead 0
    let ghost v0 = events@;
    let ghost f0 = final_events@;
    let ghost mut c: Seq<usize> = seq![];
    let ghost mut v1 = v0;
    proof { if fp(v0[i as int]) is Some { follow_start(e0, v0, i as int); } moved_facts(e0, v0, f0, i as int); }
//@ loop 1
    invariant_except_break
        following(e0, v0, events@, indices@, current as int, i as int), current < events@.len(),
    invariant
        e0.len() <= usize::MAX, parents(e0), left_of(e0, v0, i as int), i < e0.len(), events@.len() == e0.len(),
    ensures
        indices@.len() > 0, chain(e0, indices@, i as int), chained(v0, events@, indices@), starts(events@, indices@), starts(v0, indices@),
        fp(e0[indices@.last() as int]) is None,
    decreases events@.len() - current,
//@ loophead 1
    let ghost c1 = indices@;
    let ghost ev1 = events@;
    let ghost cur1 = current;
    proof { follow_push(e0, v0, ev1, c1, current, i as int); }
//@ looptail 1
    proof {
        assert(events@ =~= ev1.update(cur1 as int, events@[cur1 as int]));
        follow_step(e0, v0, ev1, c1, cur1, i as int, events@, current);
    }
//@ before loop
    proof { c = indices@; v1 = events@; if c.len() > 0 { pop_start(e0, v0, v1, c, i as int); assert(indices@ =~= c.take(c.len() as int)); } }
//@ loop 2
    invariant
        parents(e0), chain(e0, c, i as int), starts(v1, c), i < e0.len(), indices@ == c.take(indices@.len() as int), popping(v1, events@, c, indices@.len() as int), events@.len() == e0.len(),
        held(events@, events@.len()) == final_events@.len(),
        bal(final_events@, final_events@.len()) - final_events@.len() == bal(f0, f0.len()) - f0.len(),
        nested(final_events@), no_marker(final_events@), toks(final_events@) == toks(f0), errors_from(e0, final_events@),
        has_error(f0, f0.len() as int) ==> has_error(final_events@, final_events@.len() as int),
    ensures
        indices@ == Seq::<usize>::empty(), popped(v1, events@, c),
    decreases indices@.len(),
//@ loophead 2
    let ghost f2 = final_events@;
    let ghost v2 = events@;
    let ghost i2 = indices@;
    proof {
        pop_range(v1, v2, c, i2.len() as int);
        if i2.len() > 0 { assert(i2.drop_last() =~= c.take(i2.len() - 1)); assert(i2.last() == c[i2.len() - 1]); pop_one(e0, v1, v2, c, i as int, i2.len() as int, f2); }
        else { assert(i2 =~= Seq::<usize>::empty()); pop_end(v1, v2, c); }
    }
//@ after in Some ( idx ) => final_events . push
    proof {
        assert(idx == c[i2.len() - 1]);
        assert(events@ =~= v2.update(idx as int, Event::Placeholder));
        assert(final_events@ =~= f2.push(v2[idx as int]));
    }
//@ looptail 0
    proof {
        let x = v0[i as int];
        if fp(x) is Some {
            after_chain(e0, v0, v1, events@, f0, final_events@, c, i as int);
        } else if !(x is Placeholder) {
            assert(events@ =~= v0.update(i as int, Event::Placeholder));
            assert(final_events@ =~= f0.push(x));
            after_one(e0, v0, f0, i as int);
        } else {
            after_none(e0, v0, f0, i as int);
        }
    }
//@ before assert_eq !
    proof { order_end(e0, events@, final_events@); }
//@ end

// ---- the tree
//@ type ticc-syntax/src/lib.rs SyntaxToken
//@ type ticc-syntax/src/lib.rs TriviaToken
//@ type ticc-syntax/src/lib.rs SyntaxNode
//@ type ticc-syntax/src/lib.rs SyntaxElement
//@ rule Box < str > ==> String
//@ type ticc-syntax/src/lib.rs SyntaxTree
//@ type ticc-syntax/src/lib.rs SyntaxBuilder
/// a token or trivia in the tree
pub enum Leaf { Tok(TokenKind, Span), Tri(TriviaKind, Span) }
spec fn leaves(v: Vec<SyntaxElement>, n: nat) -> Seq<Leaf> decreases v, n {
    if n == 0 || n > v@.len() { seq![] } else {
        leaves(v, (n - 1) as nat) + match v@[n - 1] {
            SyntaxElement::Node(m) => leaves(m.children, m.children@.len()),
            SyntaxElement::Token(t) => seq![Leaf::Tok(t.kind, t.span)],
            SyntaxElement::Trivia(t) => seq![Leaf::Tri(t.kind, t.span)],
        }
    }
}
spec fn el_leaves(e: SyntaxElement) -> Seq<Leaf> {
    match e {
        SyntaxElement::Node(m) => leaves(m.children, m.children@.len()),
        SyntaxElement::Token(t) => seq![Leaf::Tok(t.kind, t.span)],
        SyntaxElement::Trivia(t) => seq![Leaf::Tri(t.kind, t.span)],
    }
}
/// where an element starts and ends, blank space included
spec fn el_start(e: SyntaxElement) -> Pos { match e { SyntaxElement::Node(m) => m.full_span.start, SyntaxElement::Token(t) => t.span.start, SyntaxElement::Trivia(t) => t.span.start } }
spec fn el_end(e: SyntaxElement) -> Pos { match e { SyntaxElement::Node(m) => m.full_span.end, SyntaxElement::Token(t) => t.span.end, SyntaxElement::Trivia(t) => t.span.end } }
/// where the first n children end
spec fn kids_end(v: Seq<SyntaxElement>, n: int, start: Pos) -> Pos { if n <= 0 || n > v.len() { start } else { el_end(v[n - 1]) } }
spec fn edge(src: Seq<char>, sp: Pos, p: Pos) -> bool { boundary(src, p.offset - sp.offset) }
spec fn ordered(s: Span) -> bool { s.start.offset <= s.end.offset }
/// the parts of a node lie one after the other without gaps, and its span lies inside
spec fn good_kids(src: Seq<char>, sp: Pos, v: Vec<SyntaxElement>, n: nat, start: Pos) -> bool decreases v, n {
    n == 0 || n > v@.len() || {
        &&& good_kids(src, sp, v, (n - 1) as nat, start)
        &&& el_start(v@[n - 1]) == kids_end(v@, n - 1, start)
        &&& match v@[n - 1] {
            SyntaxElement::Node(m) => {
                &&& good_kids(src, sp, m.children, m.children@.len(), m.full_span.start)
                &&& m.full_span.end == kids_end(m.children@, m.children@.len() as int, m.full_span.start)
                &&& good_spans(src, sp, m)
            }
            SyntaxElement::Token(t) => good_leaf(src, sp, t.span),
            SyntaxElement::Trivia(t) => good_leaf(src, sp, t.span),
        }
    }
}
spec fn good_leaf(src: Seq<char>, sp: Pos, s: Span) -> bool { ordered(s) && edge(src, sp, s.start) && edge(src, sp, s.end) }
spec fn good_spans(src: Seq<char>, sp: Pos, m: SyntaxNode) -> bool {
    good_leaf(src, sp, m.span) && good_leaf(src, sp, m.full_span) && m.full_span.start.offset <= m.span.start.offset && m.span.end.offset <= m.full_span.end.offset
}
spec fn good_el(src: Seq<char>, sp: Pos, e: SyntaxElement) -> bool {
    match e {
        SyntaxElement::Node(m) => good_node(src, sp, m),
        SyntaxElement::Token(t) => good_leaf(src, sp, t.span),
        SyntaxElement::Trivia(t) => good_leaf(src, sp, t.span),
    }
}
spec fn good_node(src: Seq<char>, sp: Pos, m: SyntaxNode) -> bool {
    good_kids(src, sp, m.children, m.children@.len(), m.full_span.start) && m.full_span.end == kids_end(m.children@, m.children@.len() as int, m.full_span.start) && good_spans(src, sp, m)
}
proof fn leaves_ext(a: Vec<SyntaxElement>, b: Vec<SyntaxElement>, n: nat)
    requires n <= a@.len(), n <= b@.len(), forall|i: int| 0 <= i < n ==> a@[i] == b@[i],
    ensures leaves(a, n) == leaves(b, n),
    decreases n,
{
    if n > 0 { leaves_ext(a, b, (n - 1) as nat); }
}
proof fn good_ext(src: Seq<char>, sp: Pos, a: Vec<SyntaxElement>, b: Vec<SyntaxElement>, n: nat, start: Pos)
    requires n <= a@.len(), n <= b@.len(), forall|i: int| 0 <= i < n ==> a@[i] == b@[i], good_kids(src, sp, a, n, start),
    ensures good_kids(src, sp, b, n, start),
    decreases n,
{
    if n > 0 { good_ext(src, sp, a, b, (n - 1) as nat, start); }
}
proof fn kids_push(src: Seq<char>, sp: Pos, a: Vec<SyntaxElement>, b: Vec<SyntaxElement>, x: SyntaxElement, start: Pos)
    requires b@ == a@.push(x),
    ensures
        leaves(b, b@.len()) == leaves(a, a@.len()) + el_leaves(x), kids_end(b@, b@.len() as int, start) == el_end(x),
        good_kids(src, sp, a, a@.len(), start) && good_el(src, sp, x) && el_start(x) == kids_end(a@, a@.len() as int, start) ==> good_kids(src, sp, b, b@.len(), start),
{
    leaves_ext(a, b, a@.len());
    if good_kids(src, sp, a, a@.len(), start) { good_ext(src, sp, a, b, a@.len(), start); }
    assert(kids_end(b@, b@.len() - 1, start) == kids_end(a@, a@.len() as int, start));
}
/// the nodes in progress, outermost first
spec fn stack_leaves(s: Seq<SyntaxNode>) -> Seq<Leaf> decreases s.len() {
    if s.len() == 0 { seq![] } else { stack_leaves(s.drop_last()) + leaves(s.last().children, s.last().children@.len()) }
}
spec fn node_end(m: SyntaxNode) -> Pos { kids_end(m.children@, m.children@.len() as int, m.full_span.start) }
/// a node in progress
spec fn open_node(src: Seq<char>, sp: Pos, m: SyntaxNode) -> bool {
    &&& m.span.start == m.full_span.start && m.span.end == m.full_span.start && edge(src, sp, m.full_span.start)
    &&& good_kids(src, sp, m.children, m.children@.len(), m.full_span.start)
}
spec fn stack_ok(src: Seq<char>, sp: Pos, s: Seq<SyntaxNode>, end: Pos) -> bool decreases s.len() {
    if s.len() == 0 { true } else { open_node(src, sp, s.last()) && node_end(s.last()) == end && stack_ok(src, sp, s.drop_last(), s.last().full_span.start) }
}
impl SyntaxBuilder {
    spec fn ok(&self) -> bool { stack_ok(self.source@, self.start_pos, self.nodes@, self.current_pos) && edge(self.source@, self.start_pos, self.current_pos) }
    spec fn leaves(&self) -> Seq<Leaf> { stack_leaves(self.nodes@) }
    spec fn same(&self, o: SyntaxBuilder) -> bool { self.source@ == o.source@ && self.start_pos == o.start_pos }
    /// where the outermost node starts
    spec fn origin(&self) -> Pos { self.nodes@[0].full_span.start }
}
proof fn stack_one(src: Seq<char>, sp: Pos, s: Seq<SyntaxNode>, end: Pos)
    requires s.len() == 1, stack_ok(src, sp, s, end),
    ensures stack_leaves(s) == leaves(s[0].children, s[0].children@.len()),
{ assert(s.drop_last() =~= seq![]); assert(stack_leaves(s.drop_last()) =~= seq![]); assert(stack_leaves(s) =~= leaves(s[0].children, s[0].children@.len())); }
proof fn good_orders(src: Seq<char>, sp: Pos, v: Vec<SyntaxElement>, n: nat, start: Pos, a: int, b: int)
    requires good_kids(src, sp, v, n, start), 0 <= a <= b < n <= v@.len(), 
    ensures good_el(src, sp, v@[a]), good_el(src, sp, v@[b]), start.offset <= el_start(v@[a]).offset, el_end(v@[a]).offset <= el_end(v@[b]).offset, a < b ==> el_end(v@[a]).offset <= el_start(v@[b]).offset,
        el_end(v@[b]).offset <= kids_end(v@, n as int, start).offset,
    decreases n,
{
    if b < n - 1 { good_orders(src, sp, v, (n - 1) as nat, start, a, b); }
    else if a < b { good_orders(src, sp, v, (n - 1) as nat, start, a, b - 1); }
    else if a > 0 { good_orders(src, sp, v, (n - 1) as nat, start, a - 1, a - 1); }
}
#[verifier::external_body]
fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->Some_0 == old(v)@.last() && final(v)@.len() == old(v)@.len() && final(v)@.drop_last() == old(v)@.drop_last()
            && final(v)@.last() == *final(r->Some_0),
{ unimplemented!() }
/// `v.iter().rev().find_map(f)`
#[verifier::external_body]
fn vx_rfind_map<T, U>(v: &Vec<T>, f: impl Fn(&T) -> Option<U>) -> (r: Option<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&(#[trigger] v@[i]),), None),
        r is Some ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&(#[trigger] v@[i]),), r) && forall|j: int| i < j < v@.len() ==> f.ensures((&(#[trigger] v@[j]),), None),
{ unimplemented!() }
/// `v.iter().find_map(f)`
#[verifier::external_body]
fn vx_find_map<T, U>(v: &Vec<T>, f: impl Fn(&T) -> Option<U>) -> (r: Option<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&(#[trigger] v@[i]),), None),
        r is Some ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&(#[trigger] v@[i]),), r) && forall|j: int| 0 <= j < i ==> f.ensures((&(#[trigger] v@[j]),), None),
{ unimplemented!() }
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::finish_node_internal
//@ closure 0
//@ params fn full_end(e: &SyntaxElement) -> (r: Option<Pos>)
    ensures r == Some(el_end(*e)),
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::finish_node_internal
//@ closure 1
//@ params fn own_start(e: &SyntaxElement) -> (r: Option<Pos>)
    ensures r == ostart(*e),
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::finish_node_internal
//@ closure 2
//@ params fn own_end(e: &SyntaxElement) -> (r: Option<Pos>)
    ensures r == oend(*e),
//@ end
//@ rule $e . last_mut ( ) ==> vx_last_mut ( & mut $e )
impl SyntaxBuilder {
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::new
//@ rule source : source . into ( ) ==> source : vx_own ( source )
//@ ret r
    ensures r.ok(), r.source@ == source@, r.start_pos == start_pos, r.current_pos == start_pos, r.nodes@.len() == 0, r.leaves() == Seq::<Leaf>::empty(),
//@ head
    proof { at_off(source@, 0); }
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::start_node
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same(*old(self)), final(self).current_pos == old(self).current_pos, final(self).leaves() == old(self).leaves(),
        final(self).nodes@.len() == old(self).nodes@.len() + 1, final(self).origin() == if old(self).nodes@.len() > 0 { old(self).origin() } else { old(self).current_pos },
//@ after self . nodes . push
    proof {
        assert(self.nodes@.drop_last() =~= old(self).nodes@);
        assert(self.leaves() =~= old(self).leaves());
    }
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::add_token
    requires old(self).ok(), old(self).nodes@.len() > 0, old(self).current_pos.offset + len <= u32::MAX, boundary(old(self).source@, old(self).current_pos.offset + len - old(self).start_pos.offset),
    ensures final(self).ok(), final(self).same(*old(self)), final(self).nodes@.len() == old(self).nodes@.len(), final(self).origin() == old(self).origin(),
        final(self).current_pos.offset == old(self).current_pos.offset + len,
        final(self).leaves() == old(self).leaves().push(Leaf::Tok(kind, Span { start: old(self).current_pos, end: final(self).current_pos })),
//@ after self . current_pos = new_pos
    proof { added(self.source@, self.start_pos, old(self).nodes@, self.nodes@, SyntaxElement::Token(SyntaxToken { kind, span: Span { start: old(self).current_pos, end: self.current_pos } }), old(self).current_pos); }
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::add_trivia
    requires old(self).ok(), old(self).nodes@.len() > 0, old(self).current_pos.offset + len <= u32::MAX, boundary(old(self).source@, old(self).current_pos.offset + len - old(self).start_pos.offset),
    ensures final(self).ok(), final(self).same(*old(self)), final(self).nodes@.len() == old(self).nodes@.len(), final(self).origin() == old(self).origin(),
        final(self).current_pos.offset == old(self).current_pos.offset + len,
        final(self).leaves() == old(self).leaves().push(Leaf::Tri(kind, Span { start: old(self).current_pos, end: final(self).current_pos })),
//@ after self . current_pos = new_pos
    proof { added(self.source@, self.start_pos, old(self).nodes@, self.nodes@, SyntaxElement::Trivia(TriviaToken { kind, span: Span { start: old(self).current_pos, end: self.current_pos } }), old(self).current_pos); }
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::finish_node_internal
//@ rule let mut node = self . nodes . pop ( ) . expect ( $m:any ) ==> let mut node = self . nodes . pop ( ) . unwrap ( )
//@ rule node . children . iter ( ) . rev ( ) . find_map ( | e | match e { $a , SyntaxElement :: Trivia ( t ) => $x:rest } ) ==> vx_rfind_map ( & node . children , full_end )
//@ rule node . children . iter ( ) . rev ( ) . find_map ( $x:rest ) ==> vx_rfind_map ( & node . children , own_end )
//@ rule node . children . iter ( ) . find_map ( $x:rest ) ==> vx_find_map ( & node . children , own_start )
//@ rule let full_span_end = ==> let ghost m0 = node ; let full_span_end =
//@ rule let span_start = vx_find_map ( & node . children , own_start ) . ==> let vx_ss = vx_find_map ( & node . children , own_start ) ; let span_start = vx_ss .
//@ rule let span_end = vx_rfind_map ( & node . children , own_end ) . ==> let vx_se = vx_rfind_map ( & node . children , own_end ) ; let span_end = vx_se .
//@ ret r
    requires old(self).ok(), old(self).nodes@.len() > 0,
    ensures
        final(self).same(*old(self)), final(self).current_pos == old(self).current_pos, final(self).nodes@ == old(self).nodes@.drop_last(),
        good_node(old(self).source@, old(self).start_pos, r), r.full_span.end == old(self).current_pos, r.full_span.start == old(self).nodes@.last().full_span.start,
        r.children@ == old(self).nodes@.last().children@,
        stack_ok(old(self).source@, old(self).start_pos, old(self).nodes@.drop_last(), r.full_span.start),
        stack_leaves(old(self).nodes@) == stack_leaves(old(self).nodes@.drop_last()) + leaves(r.children, r.children@.len()),
//@ after node . span =
    proof { span_inside(old(self).source@, old(self).start_pos, m0, vx_ss, vx_se); }
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::finish_node
//@ rule $e . last_mut ( ) . expect ( $m:any ) ==> vx_last_mut ( & mut $e ) . unwrap ( )
    requires old(self).ok(), old(self).nodes@.len() > 1,
    ensures final(self).ok(), final(self).same(*old(self)), final(self).current_pos == old(self).current_pos, final(self).nodes@.len() == old(self).nodes@.len() - 1,
        final(self).leaves() == old(self).leaves(), final(self).origin() == old(self).origin(),
//@ before let current_node
    let ghost mid = self.nodes@;
    let ghost made = node;
//@ after current_node . children . push
    proof { added(self.source@, self.start_pos, mid, self.nodes@, SyntaxElement::Node(made), made.full_span.start); assert(mid[0] == old(self).nodes@[0]); }
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxBuilder::finish
//@ rule ( mut self ) ==> ( self )
//@ rule self . $x:ident ==> vx_s . $x
//@ rule assert_eq ! ( $a , 1 , $m:rest ) ==> vx_assert ( $a == 1 )
//@ ret r
    requires self.ok(), self.nodes@.len() == 1,
    ensures
        r.start_pos == self.start_pos, r.source@ == self.source@, good_node(self.source@, self.start_pos, r.root), r.root.full_span.start == self.origin(), r.root.full_span.end == self.current_pos,
        leaves(r.root.children, r.root.children@.len()) == self.leaves(),
//@ head
    let mut vx_s = self;
    proof { stack_one(self.source@, self.start_pos, self.nodes@, self.current_pos); }
//@ end
}
proof fn added(src: Seq<char>, sp: Pos, a: Seq<SyntaxNode>, b: Seq<SyntaxNode>, x: SyntaxElement, end: Pos)
    requires
        stack_ok(src, sp, a, end), a.len() > 0, b.len() == a.len(), b.drop_last() == a.drop_last(),
        b.last() == (SyntaxNode { children: b.last().children, ..a.last() }), b.last().children@ == a.last().children@.push(x),
        good_el(src, sp, x), el_start(x) == end,
    ensures stack_ok(src, sp, b, el_end(x)), stack_leaves(b) == stack_leaves(a) + el_leaves(x), b[0].full_span.start == a[0].full_span.start,
{
    kids_push(src, sp, a.last().children, b.last().children, x, a.last().full_span.start);
    assert(stack_leaves(b) =~= stack_leaves(a) + el_leaves(x));
    if a.len() > 1 { assert(b.drop_last()[0] == a.drop_last()[0]); assert(b.drop_last()[0] == b[0]); assert(a.drop_last()[0] == a[0]); }
}
spec fn ostart(e: SyntaxElement) -> Option<Pos> { match e { SyntaxElement::Node(m) => Some(m.span.start), SyntaxElement::Token(t) => Some(t.span.start), SyntaxElement::Trivia(_) => None } }
spec fn oend(e: SyntaxElement) -> Option<Pos> { match e { SyntaxElement::Node(m) => Some(m.span.end), SyntaxElement::Token(t) => Some(t.span.end), SyntaxElement::Trivia(_) => None } }
proof fn span_inside(src: Seq<char>, sp: Pos, m: SyntaxNode, ss: Option<Pos>, se: Option<Pos>)
    requires
        open_node(src, sp, m),
        ss is None ==> forall|i: int| 0 <= i < m.children@.len() ==> ostart(#[trigger] m.children@[i]) is None,
        ss is Some ==> exists|i: int| 0 <= i < m.children@.len() && ostart(#[trigger] m.children@[i]) == ss && forall|j: int| 0 <= j < i ==> ostart(#[trigger] m.children@[j]) is None,
        se is None ==> forall|i: int| 0 <= i < m.children@.len() ==> oend(#[trigger] m.children@[i]) is None,
        se is Some ==> exists|i: int| 0 <= i < m.children@.len() && oend(#[trigger] m.children@[i]) == se && forall|j: int| i < j < m.children@.len() ==> oend(#[trigger] m.children@[j]) is None,
    ensures
        ({
            let a = match ss { Some(p) => p, None => m.span.start };
            let b = match se { Some(p) => p, None => m.span.end };
            good_leaf(src, sp, Span { start: a, end: b }) && good_leaf(src, sp, Span { start: m.full_span.start, end: node_end(m) }) && m.full_span.start.offset <= a.offset && b.offset <= node_end(m).offset
        }),
{
    let v = m.children;
    let n = v@.len();
    if n > 0 { good_orders(src, sp, v, n, m.full_span.start, 0, n - 1); }
    if ss is Some {
        let i = choose|i: int| 0 <= i < v@.len() && ostart(#[trigger] v@[i]) == ss && forall|j: int| 0 <= j < i ==> ostart(#[trigger] v@[j]) is None;
        assert(oend(v@[i]) is Some);
        let k = choose|i: int| 0 <= i < v@.len() && oend(#[trigger] v@[i]) == se && forall|j: int| i < j < v@.len() ==> oend(#[trigger] v@[j]) is None;
        assert(ostart(v@[k]) is Some);
        good_orders(src, sp, v, n, m.full_span.start, i, k);
    } else if se is Some {
        let k = choose|i: int| 0 <= i < v@.len() && oend(#[trigger] v@[i]) == se && forall|j: int| i < j < v@.len() ==> oend(#[trigger] v@[j]) is None;
        assert(ostart(v@[k]) is None);
    }
}

// ---- from events to the tree
/// the leaf a token of the text becomes
spec fn leaf(t: Token, sp: Pos) -> Leaf {
    let s = Span { start: Pos { offset: (t.span.start.offset + sp.offset) as u32 }, end: Pos { offset: (t.span.end.offset + sp.offset) as u32 } };
    match cls(t.kind) { TokenOrTrivia::Token(k) => Leaf::Tok(k, s), TokenOrTrivia::Trivia(k) => Leaf::Tri(k, s) }
}
spec fn all_leaves(l: Seq<Token>, n: int, sp: Pos) -> Seq<Leaf> { Seq::new(n as nat, |i: int| leaf(l[i], sp)) }
/// where token q starts
spec fn edge_of(l: Seq<Token>, q: int) -> int { if q <= 0 { 0 } else { l[q - 1].span.end.offset as int } }
/// the next leaf
spec fn next_leaf(s: Seq<char>, b: SyntaxBuilder, q: int) -> bool {
    let l = lexed(s);
    &&& covers(l, s) && 0 <= q <= l.len() && b.ok() && b.source@ == s && b.nodes@.len() > 0 && b.start_pos.offset + off(s, s.len()) <= u32::MAX
    &&& b.current_pos.offset == b.start_pos.offset + edge_of(l, q) && b.leaves() == all_leaves(l, q, b.start_pos)
}
proof fn leaf_fits(s: Seq<char>, b: SyntaxBuilder, q: int)
    requires next_leaf(s, b, q), q < lexed(s).len(),
    ensures ({
        let t = lexed(s)[q];
        &&& good_token(t, s) && t.span.end.offset <= off(s, s.len()) && t.span.start.offset == edge_of(lexed(s), q)
        &&& b.ok() && b.nodes@.len() > 0 && boundary(b.source@, b.current_pos.offset + (t.span.end.offset - t.span.start.offset) - b.start_pos.offset)
        &&& b.current_pos.offset + (t.span.end.offset - t.span.start.offset) == b.start_pos.offset + t.span.end.offset
    }),
{
    let l = lexed(s);
    assert(good_token(l[q], s));
    bound_max(s, l[q].span.end.offset as int);
    if q > 0 { assert(l[q - 1].span.end == l[q].span.start); }
}
proof fn leaf_added(s: Seq<char>, a: SyntaxBuilder, b: SyntaxBuilder, q: int)
    requires next_leaf(s, a, q), q < lexed(s).len(), b.ok(), b.same(a), b.nodes@.len() > 0, b.current_pos.offset == a.start_pos.offset + lexed(s)[q].span.end.offset,
        b.leaves() == a.leaves().push(leaf(lexed(s)[q], a.start_pos)),
    ensures next_leaf(s, b, q + 1),
{
    assert(b.leaves() =~= all_leaves(lexed(s), q + 1, b.start_pos));
}
proof fn toks_prefix(e: Seq<Event>, a: int, b: int)
    requires 0 <= a <= b <= e.len(),
    ensures toks(e.take(a)).len() <= toks(e.take(b)).len(), toks(e.take(b)).take(toks(e.take(a)).len() as int) == toks(e.take(a)),
    decreases b,
{
    if a < b {
        toks_prefix(e, a, b - 1);
        step(e, b - 1);
        assert(toks(e.take(b)).take(toks(e.take(a)).len() as int) =~= toks(e.take(b - 1)).take(toks(e.take(a)).len() as int));
    } else {
        assert(toks(e.take(a)).take(toks(e.take(a)).len() as int) =~= toks(e.take(a)));
    }
}
/// the trivia read but not yet put into the tree
spec fn waiting(l: Seq<Token>, tr: Seq<(TriviaKind, Span)>, q: int) -> bool {
    q + tr.len() <= l.len() && forall|i: int| 0 <= i < tr.len() ==> cls((#[trigger] l[q + i]).kind) == TokenOrTrivia::Trivia(tr[i].0) && l[q + i].span == tr[i].1
}
/// what is to be read starts with a token
spec fn at_token(l: Seq<Token>) -> bool { l.len() > 0 ==> cls(l[0].kind) is Token }
proof fn no_kinds(l: Seq<Token>)
    requires at_token(l), kinds(l).len() == 0,
    ensures l.len() == 0,
{}
/// `while let` head: the next token if it is trivia
fn vx_trivia(t: Option<Token>) -> (r: Option<(TokenOrTrivia, Span)>)
    ensures r == (match t { Some(t) => Some((cls(t.kind), t.span)), None => None }),
{ match t { Some(t) => Some((classify_token(t.kind), t.span)), None => None } }
fn vx_class(t: Option<Token>) -> (r: Option<TokenOrTrivia>)
    ensures r == (match t { Some(t) => Some(cls(t.kind)), None => None }),
{ match t { Some(t) => Some(classify_token(t.kind)), None => None } }
/// `v.drain(..)`
#[verifier::external_body]
fn vx_drain<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
/// what an iterator still gives
#[verifier::external_body]
fn vx_rest<'a>(t: Tokens<'a>) -> (r: Vec<Token>) ensures r@ == t@ { unimplemented!() }
/// node ids (u32) do not run out: an assumption
#[verifier::external_body]
fn vx_next(n: &mut NodeId) { unimplemented!() }
spec fn spots(src: Seq<char>, sp: Pos, d: Seq<RawDiagnostic>) -> bool { forall|i: int| 0 <= i < d.len() ==> spot(src, sp, (#[trigger] d[i]).span) }
spec fn error_spots(src: Seq<char>, sp: Pos, e: Seq<Event>) -> bool { forall|i: int| 0 <= i < e.len() && #[trigger] e[i] is Error ==> spot(src, sp, e[i]->Error_0.span) }
spec fn mid(s: Seq<char>, b: SyntaxBuilder, tr: Seq<(TriviaKind, Span)>, rest: Seq<Token>, q: int) -> bool {
    next_leaf(s, b, q) && waiting(lexed(s), tr, q) && rest == lexed(s).skip(q + tr.len())
}
proof fn edge_grows(l: Seq<Token>, s: Seq<char>, q: int)
    requires covers(l, s), 0 <= q <= l.len(),
    ensures q <= edge_of(l, q) <= off(s, s.len()),
    decreases q,
{
    if q > 0 { edge_grows(l, s, q - 1); assert(good_token(l[q - 1], s)); if q > 1 { assert(l[q - 2].span.end == l[q - 1].span.start); } bound_max(s, l[q - 1].span.end.offset as int); }
}
proof fn start_mid(s: Seq<char>, b: SyntaxBuilder, sp: Pos)
    requires covers(lexed(s), s), b.ok(), b.source@ == s, b.nodes@.len() > 0, b.start_pos == sp, sp.offset + off(s, s.len()) <= u32::MAX, b.current_pos == sp, b.leaves() == Seq::<Leaf>::empty(),
    ensures next_leaf(s, b, 0),
{ assert(b.leaves() =~= all_leaves(lexed(s), 0, sp)); }
/// the tree of the first q tokens of the text
spec fn made_of(t: SyntaxTree, src: Seq<char>, sp: Pos, q: int) -> bool {
    &&& t.start_pos == sp && t.source@ == src && covers(lexed(src), src) && 0 <= q <= lexed(src).len()
    &&& good_node(src, sp, t.root) && t.root.full_span.start == sp && t.root.full_span.end.offset == sp.offset + edge_of(lexed(src), q)
    &&& leaves(t.root.children, t.root.children@.len()) == all_leaves(lexed(src), q, sp)
}
spec fn made(t: SyntaxTree, src: Seq<char>, sp: Pos, n: int, all: bool) -> bool {
    exists|q: int| #[trigger] made_of(t, src, sp, q) && (all ==> q == lexed(src).len()) && (n > 0 ==> q > 0)
}
proof fn next_kind(rest: Seq<Token>, T: Seq<TokenKind>, e: Seq<Event>, i: int, k: TokenKind)
    requires
        0 <= i < e.len(), e[i] == Event::AddToken(k), toks(e).len() <= T.len(), T.take(toks(e).len() as int) == toks(e), at_token(rest), kinds(rest) == T.skip(toks(e.take(i)).len() as int),
    ensures rest.len() > 0, cls(rest[0].kind) == TokenOrTrivia::Token(k), kinds(rest.drop_first()) == T.skip(toks(e.take(i)).len() as int + 1),
{
    let n = toks(e.take(i)).len() as int;
    step(e, i);
    toks_prefix(e, i + 1, e.len() as int);
    assert(e.take(e.len() as int) =~= e);
    assert(toks(e).take(n + 1)[n] == k);
    assert(T.take(toks(e).len() as int)[n] == k);
    assert(T[n] == k);
    assert(T.skip(n)[0] == k);
    if rest.len() > 0 { kinds_skip(rest); assert(kinds(rest).drop_first() =~= kinds(rest.drop_first())); assert(T.skip(n).drop_first() =~= T.skip(n + 1)); }
}
proof fn event_facts(e: Seq<Event>, n: nat)
    requires nested(e), no_marker(e), n <= e.len(),
    ensures bal(e, n) >= 0, n < e.len() ==> !(e[n as int] is Placeholder), bal(e, 0) == 0, toks(e.take(0)).len() == 0, !has_error(e, 0),
{ assert(e.take(0) =~= seq![]); }
//@ fn ticc/src/compiler/parser.rs events_to_node
//@ rule ( builder . finish ( ) , errors ) ==> { let vx_t = builder . finish ( ) ; proof { reveal(made_of); assert(made_of(vx_t, s, start_pos, q)); } ( vx_t , errors ) }
//@ rule lex ( source ) . peekable ( ) ==> vx_lex ( source )
//@ rule lexer . peek ( ) . map ( | t | ( classify_token ( t . kind ) , t . span ) ) ==> vx_trivia ( lexer . vx_peek ( ) )
//@ rule lexer . peek ( ) . map ( | t | classify_token ( t . kind ) ) ==> vx_class ( lexer . vx_peek ( ) )
//@ rule next_node_id . 0 += 1 ==> vx_next ( & mut next_node_id )
//@ rule trivia . drain ( .. ) ==> vx_drain ( & mut trivia )
//@ rule for token in $i:ident ( lexer ) ==> for token in $i ( vx_rest ( lexer ) )
//@ rule assert_eq ! ( actual_kind , kind ) ==> vx_assert ( actual_kind == kind )
//@ ret r
    requires
        nested(events@), no_marker(events@), bal(events@, events@.len()) == 0, start_pos.offset + off(source@, source@.len()) <= u32::MAX, off(source@, source@.len()) < 0x7fff_fff0,
        toks(events@).len() <= kinds(lexed(source@)).len(), kinds(lexed(source@)).take(toks(events@).len() as int) == toks(events@), eat_all ==> kinds(lexed(source@)) == toks(events@),
        error_spots(source@, start_pos, events@),
    ensures
        made(r.0, source@, start_pos, toks(events@).len() as int, eat_all), spots(source@, start_pos, r.1@), has_error(events@, events@.len() as int) ==> r.1@.len() > 0,
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::rlimit(120)]
//@ head
    hide(covers); hide(SyntaxBuilder::ok); hide(SyntaxBuilder::leaves); hide(nested); hide(no_marker); hide(has_error); hide(bal); hide(toks); hide(kinds); hide(leaves); hide(good_kids); hide(all_leaves); hide(off); hide(edge_of); hide(boundary); hide(cls); hide(good_kids); hide(made_of);
    let ghost s = source@;
    let ghost l = lexed(source@);
    let ghost T = kinds(l);
    let ghost e = events@;
    let ghost mut q: int = 0;
    proof { event_facts(e, 0); assert(l.skip(0) =~= l); assert(T.skip(0) =~= T); assert(e.take(e.len() as int) =~= e); }
//@ loop 0
    invariant
        covers(l, s), waiting(l, trivia@, 0), lexer@ == l.skip(trivia@.len() as int), kinds(lexer@) == T,
    ensures
        at_token(lexer@),
    decreases lexer@.len(),
//@ loophead 0
    proof { if lexer@.len() > 0 { kinds_skip(lexer@); } }
//@ looptail 0
    proof { assert(lexer@ =~= l.skip(trivia@.len() as int)); }
//@ before let mut tokens_since_error
    proof { start_mid(s, builder, start_pos); }
//@ loop 1
    invariant
        vx_it1.seq() == e,
        mid(s, builder, trivia@, lexer@, q), at_token(lexer@), kinds(lexer@) == T.skip(toks(e.take(vx_it1.index() as int)).len() as int),
        builder.nodes@.len() == 1 + bal(e, vx_it1.index() as nat), builder.start_pos == start_pos, builder.origin() == start_pos,
        0 <= tokens_since_error <= 2 + q, spots(s, start_pos, errors@),
        errors@.len() == 0 ==> tokens_since_error >= 2 && !has_error(e, vx_it1.index() as int),
        toks(e.take(vx_it1.index() as int)).len() > 0 ==> q > 0,
//@ loophead 1
    let ghost i = vx_it1.index() as int;
    proof { step(e, i); toks_prefix(e, i + 1, e.len() as int); edge_grows(l, s, q); event_facts(e, (i + 1) as nat); event_facts(e, i as nat); }
    let ghost n = toks(e.take(i)).len() as int;
//@ loop 2
    invariant
        next_leaf(s, builder, q + vx_it2.index()), waiting(l, vx_it2.seq(), q), builder.nodes@.len() == 1 + bal(e, i as nat), builder.start_pos == start_pos, builder.origin() == start_pos, trivia@.len() == 0, vx_it2.seq() == tr0,
//@ before for ( kind , span ) in
    let ghost tr0 = trivia@;
//@ loophead 2
    let ghost b2 = builder;
    let ghost k2 = vx_it2.index() as int;
    proof { leaf_fits(s, b2, q + k2); assert(cls(l[q + k2].kind) == TokenOrTrivia::Trivia(kind)); }
//@ looptail 2
    proof { leaf_added(s, b2, builder, q + k2); }
//@ before let token
    proof { q = q + tr0.len(); next_kind(lexer@, T, e, i, kind); leaf_fits(s, builder, q); }
    let ghost b3 = builder;
    let ghost l3 = lexer@;
//@ before tokens_since_error += 1
    proof {
        assert(l3[0] == l[q]);
        leaf_added(s, b3, builder, q);
        assert(l3.drop_first() =~= l.skip(q + 1));
        assert(kinds(lexer@) =~= T.skip(n + 1));
        q = q + 1;
    }
//@ loop 3
    invariant
        mid(s, builder, trivia@, lexer@, q), q > 0, appending ==> trivia@.len() == 0, kinds(lexer@) == T.skip(n + 1), tokens_since_error <= 2 + q,
        builder.nodes@.len() == 1 + bal(e, i as nat), builder.start_pos == start_pos, builder.origin() == start_pos,
    ensures
        at_token(lexer@),
    decreases lexer@.len(),
//@ loophead 3
    let ghost b4 = builder;
    let ghost l4 = lexer@;
    let ghost t4 = trivia@;
    proof { if l4.len() > 0 { kinds_skip(l4); assert(l4[0] == l[q + t4.len()]); if t4.len() == 0 { leaf_fits(s, b4, q); } } }
//@ looptail 3
    proof {
        assert(l4.drop_first() =~= l.skip(q + t4.len() + 1));
        if trivia@.len() == t4.len() { leaf_added(s, b4, builder, q); q = q + 1; }
    }
//@ before if eat_all
    proof { if eat_all { no_kinds(lexer@); } }
//@ loop 4
    invariant
        next_leaf(s, builder, q + vx_it4.index()), waiting(l, vx_it4.seq(), q), builder.nodes@.len() == 1, builder.start_pos == start_pos, builder.origin() == start_pos, vx_it4.seq() == tr0,
//@ loophead 4
    let ghost b5 = builder;
    let ghost k5 = vx_it4.index() as int;
    proof { leaf_fits(s, b5, q + k5); assert(cls(l[q + k5].kind) == TokenOrTrivia::Trivia(kind)); }
//@ looptail 4
    proof { leaf_added(s, b5, builder, q + k5); }
//@ loop 5
    invariant
        vx_it5.seq().len() == 0, next_leaf(s, builder, q + tr0.len()), q + tr0.len() == l.len(), builder.nodes@.len() == 1, builder.start_pos == start_pos, builder.origin() == start_pos,
//@ after for token in
    proof { q = l.len() as int; }
//@ before ( builder . finish ( ) , errors )
    proof { assert(next_leaf(s, builder, q)); }
//@ end

// ---- one definition of the text
impl<'a> Parser<'a> {
//@ fn ticc/src/compiler/parser.rs Parser::finish
//@ ret r
    requires self.ok(), no_marker(self.events@),
    ensures
        nested(r@), no_marker(r@), bal(r@, r@.len()) == 0, toks(r@) == toks(self.events@), error_spots(self.src(), self.start_pos, r@),
        has_error(self.events@, self.events@.len() as int) ==> has_error(r@, r@.len() as int),
//@ head
    proof { reveal(wf); held_all(self.events@, self.events@.len()); }
//@ end
}
//@ type ticc/src/compiler/syntax.rs ItemSyntax
impl ItemSyntax {
//@ fn ticc/src/compiler/syntax.rs ItemSyntax::new
//@ ret r
    ensures r.tree == tree,
//@ end
}
/// cursor::SyntaxNode
//@ rule struct SyntaxNode < 'a > { $x:rest } ==> struct Cursor < 'a > { node : & 'a SyntaxNode , tree : & 'a SyntaxTree }
//@ type ticc-syntax/src/cursor.rs SyntaxNode
impl<'a> Cursor<'a> {
//@ fn ticc-syntax/src/cursor.rs SyntaxNode::full_span
//@ ret r
    ensures r == self.node.full_span,
//@ end
//@ fn ticc-syntax/src/cursor.rs SyntaxNode::span
//@ ret r
    ensures r == self.node.span,
//@ end
}
impl Span {
//@ fn ticc-syntax/src/pos.rs Span::source_range
//@ ret r
    ensures r.start == self.start.offset, r.end == self.end.offset,
//@ end
}
impl SyntaxTree {
//@ fn ticc-syntax/src/lib.rs SyntaxTree::span_source
//@ rule & self . source [ $a .. $b ] ==> vx_slice ( self . source . as_str ( ) , $a , $b )
//@ rule let std :: ops :: Range { start , end } = $x:any ; ==> let vx_r = $x ; let start = vx_r . start ; let end = vx_r . end ;
//@ ret r
    requires good_leaf(self.source@, self.start_pos, span),
    ensures r@ == self.source@.subrange(at(self.source@, span.start.offset - self.start_pos.offset) as int, at(self.source@, span.end.offset - self.start_pos.offset) as int),
//@ end
//@ fn ticc-syntax/src/lib.rs SyntaxTree::root
//@ rule -> cursor :: SyntaxNode < '_ > ==> -> Cursor < '_ >
//@ rule cursor :: SyntaxNode { $x:rest } ==> Cursor { $x }
//@ ret r
    ensures *r.node == self.root, *r.tree == *self,
//@ end
}
// definitions, references and types are filled in later: all empty here
//@ rule diagnostics : Vec < RawDiagnostic > , $x:rest ==> diagnostics : Vec < RawDiagnostic >
//@ rule ir :: Item ==> Item
//@ type ticc/src/compiler/ir.rs Item
proof fn made_facts(t: SyntaxTree, src: Seq<char>, sp: Pos, n: int, all: bool)
    requires made(t, src, sp, n, all), sp.offset + off(src, src.len()) <= u32::MAX,
    ensures t.root.full_span.start == sp, boundary(src, t.root.full_span.end.offset - sp.offset), n > 0 || (all && src.len() > 0) ==> t.root.full_span.end.offset > sp.offset,
{
    let q = choose|q: int| #[trigger] made_of(t, src, sp, q) && (all ==> q == lexed(src).len()) && (n > 0 ==> q > 0);
    at_off(src, 0);
    if q > 0 { assert(good_token(lexed(src)[q - 1], src)); edge_grows(lexed(src), src, q); }
}
/// an item of the text: its tree holds the text's first tokens, blank space and comments, all in order and none left out
spec fn parsed_item(r: Item, src: Seq<char>, sp: Pos) -> bool {
    &&& exists|q: int| #[trigger] made_of(r.syntax.tree, src, sp, q)
    &&& r.span == r.syntax.tree.root.full_span && r.span.start == sp && boundary(src, r.span.end.offset - sp.offset)
    &&& src.len() > 0 ==> r.span.end.offset > sp.offset
    &&& spots(src, sp, r.diagnostics@)
}
//@ fn ticc/src/compiler/parser.rs parse_one_item
//@ rule lex ( source ) . peekable ( ) ==> vx_lex ( source )
//@ rule item :: item ( & mut parser ) ==> item ( & mut parser )
//@ rule super :: syntax :: ItemSyntax :: new ==> ItemSyntax :: new
//@ rule diagnostics , defs : Vec :: new ( ) , $x:rest ==> diagnostics
//@ ret r
    requires start_pos.offset + off(source@, source@.len()) <= u32::MAX, off(source@, source@.len()) < 0x7fff_fff0,
    ensures parsed_item(r, source@, start_pos),
//@ head
    broadcast use moves;
//@ before if ! parser . at_eof ( )
    let ghost p0 = parser;
    proof {
        reveal(wf);
        at_off(source@, 0);
        assert(parser.ok());
    }
//@ before let eat_all
    proof { keeps_self(p0); reveal(keeps); }
//@ before let events
    let ghost p9 = parser;
    proof {
        let t = toks(p9.events@);
        assert(toks(p0.events@) + p0.rest() =~= kinds(lexed(source@)));
        assert(p9.whole() == kinds(lexed(source@)));
        assert((t + p9.rest()).take(t.len() as int) =~= t);
        if eat_all { assert(t + p9.rest() =~= t); }
    }
//@ after let span
    proof {
        made_facts(syntax, source@, start_pos, toks(p9.events@).len() as int, eat_all);
    }
//@ end


} // verus!
fn main() {}