// Unit `fmt`: the formatter emits the tokens it was given (C20).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ type formatter/src/lib.rs Sticky | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type formatter/src/lib.rs Node
//@ type formatter/src/lib.rs FormatBuilder
//@ type formatter/src/lib.rs FormatNode
//@ type formatter/src/lib.rs Element
//@ type formatter/src/lib.rs IndentNode
//@ type formatter/src/lib.rs RawBuilder
//@ rule # [ derive ( Debug ) ] ==>

// ---- std
#[verifier::external_body]
fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *r->Some_0 == old(v)@.last() && final(v)@.len() == old(v)@.len() && final(v)@.drop_last() == old(v)@.drop_last()
            && final(v)@.last() == *final(r->Some_0),
{ unimplemented!() }

pub assume_specification[ <u32 as core::convert::From<bool>>::from ](b: bool) -> (r: u32)
    ensures r == if b { 1u32 } else { 0u32 };
/// `v.iter().rev().find_map(f)`
#[verifier::external_body]
fn vx_rfind_map<T, U>(v: &Vec<T>, f: impl Fn(&T) -> Option<U>) -> (r: Option<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&(#[trigger] v@[i]),), None),
{ unimplemented!() }

// ---- what is said to the formatter
pub enum Ev { Tok(Seq<char>, Sticky), NL, LargeNL, Open(Node), Close }
pub closed spec fn flat(v: Vec<Element>, i: nat) -> Seq<Ev> decreases v, i {
    if i == 0 || i > v@.len() { Seq::empty() } else {
        flat(v, (i - 1) as nat) + match v@[i - 1] {
            Element::Token(t, s) => seq![Ev::Tok(t@, s)],
            Element::Newline => seq![Ev::NL],
            Element::LargeNewline => seq![Ev::LargeNL],
            Element::Node(n) => seq![Ev::Open(n.node)] + flat(n.children, n.children@.len()) + (if n.finished { seq![Ev::Close] } else { Seq::empty() }),
        }
    }
}
pub closed spec fn said(b: FormatBuilder) -> Seq<Ev> { flat(b.root.children, b.root.children@.len()) }
/// some node was started and not finished
pub closed spec fn inside(b: FormatBuilder) -> bool { has_open(b.root) }
spec fn has_open(n: FormatNode) -> bool { n.children@.len() > 0 && n.children@.last() is Node && !n.children@.last()->Node_0.finished }
spec fn last_kid(n: FormatNode) -> FormatNode { n.children@.last()->Node_0 }
spec fn open_of(n: FormatNode) -> FormatNode decreases n via open_dec { if has_open(n) { open_of(last_kid(n)) } else { n } }
#[via_fn]
proof fn open_dec(n: FormatNode) { let v = n.children; assert(has_open(n) ==> decreases_to!(v => v@[v@.len() - 1])); }
/// n1 is n0 with its innermost open node replaced by m
spec fn swapped(n0: FormatNode, n1: FormatNode, m: FormatNode) -> bool decreases n0 via swapped_dec {
    if has_open(n0) {
        n1.node == n0.node && n1.finished == n0.finished && n1.children@.len() == n0.children@.len()
        && n1.children@.drop_last() == n0.children@.drop_last() && n1.children@.last() is Node
        && swapped(last_kid(n0), last_kid(n1), m)
    } else { n1 == m }
}
#[via_fn]
proof fn swapped_dec(n0: FormatNode, n1: FormatNode, m: FormatNode) { let v = n0.children; assert(has_open(n0) ==> decreases_to!(v => v@[v@.len() - 1])); }
proof fn flat_prefix(v: Vec<Element>, w: Vec<Element>, i: nat)
    requires i <= v@.len(), i <= w@.len(), forall|k: int| 0 <= k < i ==> v@[k] == w@[k],
    ensures flat(v, i) == flat(w, i),
    decreases i,
{
    if i > 0 { flat_prefix(v, w, (i - 1) as nat); }
}
spec fn ev_of(e: Element) -> Seq<Ev> {
    match e {
        Element::Token(t, s) => seq![Ev::Tok(t@, s)],
        Element::Newline => seq![Ev::NL],
        Element::LargeNewline => seq![Ev::LargeNL],
        Element::Node(n) => seq![Ev::Open(n.node)] + flat(n.children, n.children@.len()) + (if n.finished { seq![Ev::Close] } else { Seq::empty() }),
    }
}
/// adding an element to the innermost open node adds what it says
proof fn added(n0: FormatNode, n1: FormatNode, m: FormatNode, e: Element)
    requires
        swapped(n0, n1, m),
        m.children@ == open_of(n0).children@.push(e), m.node == open_of(n0).node, m.finished == open_of(n0).finished,
    ensures
        flat(n1.children, n1.children@.len()) == flat(n0.children, n0.children@.len()) + ev_of(e),
        n1.node == n0.node, n1.finished == n0.finished,
        has_open(n1) == (has_open(n0) || (e is Node && !e->Node_0.finished)),
    decreases n0,
{
    let l = n0.children@.len();
    if has_open(n0) {
        let v = n0.children; assert(decreases_to!(v => v@[v@.len() - 1]));
        added(last_kid(n0), last_kid(n1), m, e);
        assert forall|k: int| 0 <= k < l - 1 implies n0.children@[k] == n1.children@[k] by {
            assert(n0.children@.drop_last()[k] == n1.children@.drop_last()[k]);
        }
        flat_prefix(n0.children, n1.children, (l - 1) as nat);
        assert(flat(n1.children, l) =~= flat(n0.children, l) + ev_of(e));
    } else {
        flat_prefix(n0.children, n1.children, l);
        assert(flat(n1.children, l + 1) =~= flat(n0.children, l) + ev_of(e));
    }
}
/// finishing the innermost open node, unless that is the root
proof fn closed(n0: FormatNode, n1: FormatNode, m: FormatNode)
    requires swapped(n0, n1, m), has_open(n0), m.children == open_of(n0).children, m.node == open_of(n0).node, m.finished,
    ensures
        flat(n1.children, n1.children@.len()) == flat(n0.children, n0.children@.len()).push(Ev::Close),
        n1.node == n0.node, n1.finished == n0.finished,
    decreases n0,
{
    let l = n0.children@.len();
    let v = n0.children; assert(decreases_to!(v => v@[v@.len() - 1]));
    assert forall|k: int| 0 <= k < l - 1 implies n0.children@[k] == n1.children@[k] by {
        assert(n0.children@.drop_last()[k] == n1.children@.drop_last()[k]);
    }
    flat_prefix(n0.children, n1.children, (l - 1) as nat);
    reveal_with_fuel(swapped, 3);
    reveal_with_fuel(open_of, 3);
    if has_open(last_kid(n0)) {
        closed(last_kid(n0), last_kid(n1), m);
    } else {
        assert(last_kid(n1) == m);
    }
    assert(n0.children@[l - 1] == Element::Node(last_kid(n0)));
    assert(n1.children@[l - 1] == Element::Node(last_kid(n1)));
    assert(flat(n1.children, l) =~= flat(n0.children, l).push(Ev::Close));
}

// ---- what comes out
pub enum Item { Tok(Seq<char>, Sticky), NL }
/// a node is large if it or a node in it was asked to be
pub closed spec fn large(n: FormatNode) -> bool { n.node.large || large_kids(n.children, n.children@.len()) }
pub closed spec fn large_kids(v: Vec<Element>, i: nat) -> bool decreases v, i {
    0 < i <= v@.len() && (large_kids(v, (i - 1) as nat) || match v@[i - 1] {
        Element::Node(n) => n.node.large || large_kids(n.children, n.children@.len()),
        _ => false,
    })
}
/// the tokens and line breaks of the first i elements of a node (deep: large if something in it is)
pub closed spec fn items(deep: bool, v: Vec<Element>, i: nat, lg: bool) -> Seq<Item> decreases v, i {
    if i == 0 || i > v@.len() { Seq::empty() } else {
        items(deep, v, (i - 1) as nat, lg) + match v@[i - 1] {
            Element::Token(t, s) => seq![Item::Tok(t@, s)],
            Element::Newline => seq![Item::NL],
            Element::LargeNewline => if lg { seq![Item::NL] } else { Seq::empty() },
            Element::Node(n) => items(deep, n.children, n.children@.len(), if deep { large(n) } else { n.node.large }),
        }
    }
}
pub closed spec fn asked(b: FormatBuilder) -> Seq<Item> { items(true, b.root.children, b.root.children@.len(), large(b.root)) }
pub open spec fn prev(s: Sticky) -> bool { s == Sticky::Both || s == Sticky::Prev }
pub open spec fn next(s: Sticky) -> bool { s == Sticky::Both || s == Sticky::Next }
pub open spec fn spaces(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
/// no token yet, or a line break after the last one
pub open spec fn at_start(a: Seq<Item>) -> bool { a.len() == 0 || a.last() is NL }
/// what comes between the items a so far and the next one
pub open spec fn gap(a: Seq<Item>, x: Item, g: Seq<char>) -> bool {
    match x {
        Item::NL => g == if at_start(a) { Seq::<char>::empty() } else { seq!['\n'] },
        Item::Tok(t, s) =>
            if no_toks(a) { g.len() == 0 }
            else if a.last() is NL { exists|k: nat| g == #[trigger] spaces(k) }
            else { g == if next(a.last()->Tok_1) || prev(s) { Seq::<char>::empty() } else { seq![' '] } },
    }
}
pub open spec fn chars(x: Item) -> Seq<char> { match x { Item::NL => Seq::empty(), Item::Tok(t, s) => t } }
pub open spec fn joined(a: Seq<Item>, g: Seq<Seq<char>>) -> Seq<char> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else { joined(a.drop_last(), g.drop_last()) + g.last() + chars(a.last()) }
}
pub open spec fn laid_out(out: Seq<char>, a: Seq<Item>, g: Seq<Seq<char>>) -> bool {
    g.len() == a.len() && out == joined(a, g) && forall|i: int| 0 <= i < a.len() ==> gap(a.take(i), a[i], #[trigger] g[i])
}
/// out is the tokens of a in order; two of them on a line have a space between them unless one sticks to the other;
/// where there is a line break after a token there is one line feed, and nothing but spaces before the next token
pub open spec fn renders(out: Seq<char>, a: Seq<Item>) -> bool { exists|g: Seq<Seq<char>>| #[trigger] laid_out(out, a, g) }
proof fn renders_more(o: Seq<char>, a: Seq<Item>, x: Item, d: Seq<char>)
    requires renders(o, a), gap(a, x, d),
    ensures renders(o + d + chars(x), a + seq![x]),
{
    let g = choose|g: Seq<Seq<char>>| #[trigger] laid_out(o, a, g);
    let h = g.push(d);
    let b = a + seq![x];
    assert(b.drop_last() =~= a);
    assert(h.drop_last() =~= g);
    assert forall|i: int| 0 <= i < b.len() implies gap(b.take(i), b[i], #[trigger] h[i]) by {
        if i < a.len() { assert(b.take(i) =~= a.take(i)); assert(h[i] == g[i]); } else { assert(b.take(i) =~= a); }
    }
    assert(laid_out(o + d + chars(x), b, h));
}
pub open spec fn no_toks(a: Seq<Item>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is NL }
pub open spec fn item_toks(a: Seq<Item>) -> Seq<(Seq<char>, Sticky)> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else {
        item_toks(a.drop_last()) + match a.last() { Item::Tok(t, s) => seq![(t, s)], Item::NL => Seq::empty() }
    }
}
pub open spec fn ev_toks(a: Seq<Ev>) -> Seq<(Seq<char>, Sticky)> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else {
        ev_toks(a.drop_last()) + match a.last() { Ev::Tok(t, s) => seq![(t, s)], _ => Seq::empty() }
    }
}
proof fn item_toks_add(a: Seq<Item>, b: Seq<Item>)
    ensures item_toks(a + b) == item_toks(a) + item_toks(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(item_toks(a) + item_toks(b) =~= item_toks(a)); } else {
        item_toks_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(item_toks(a + b) =~= item_toks(a) + item_toks(b));
    }
}
proof fn ev_toks_add(a: Seq<Ev>, b: Seq<Ev>)
    ensures ev_toks(a + b) == ev_toks(a) + ev_toks(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(ev_toks(a) + ev_toks(b) =~= ev_toks(a)); } else {
        ev_toks_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(ev_toks(a + b) =~= ev_toks(a) + ev_toks(b));
    }
}
proof fn toks_one()
    ensures
        forall|t: Seq<char>, s: Sticky| item_toks(#[trigger] seq![Item::Tok(t, s)]) == seq![(t, s)],
        item_toks(seq![Item::NL]) == Seq::<(Seq<char>, Sticky)>::empty(),
        item_toks(Seq::empty()) == Seq::<(Seq<char>, Sticky)>::empty(),
        forall|t: Seq<char>, s: Sticky| ev_toks(#[trigger] seq![Ev::Tok(t, s)]) == seq![(t, s)],
        forall|n: Node| ev_toks(#[trigger] seq![Ev::Open(n)]) == Seq::<(Seq<char>, Sticky)>::empty(),
        ev_toks(seq![Ev::NL]) == Seq::<(Seq<char>, Sticky)>::empty(),
        ev_toks(seq![Ev::LargeNL]) == Seq::<(Seq<char>, Sticky)>::empty(),
        ev_toks(seq![Ev::Close]) == Seq::<(Seq<char>, Sticky)>::empty(),
        ev_toks(Seq::empty()) == Seq::<(Seq<char>, Sticky)>::empty(),
{
    reveal_with_fuel(item_toks, 3);
    reveal_with_fuel(ev_toks, 3);
    assert forall|t: Seq<char>, s: Sticky| item_toks(#[trigger] seq![Item::Tok(t, s)]) == seq![(t, s)] by {
        assert(item_toks(seq![Item::Tok(t, s)]) =~= seq![(t, s)]);
    }
    assert forall|t: Seq<char>, s: Sticky| ev_toks(#[trigger] seq![Ev::Tok(t, s)]) == seq![(t, s)] by {
        assert(ev_toks(seq![Ev::Tok(t, s)]) =~= seq![(t, s)]);
    }
    assert forall|n: Node| ev_toks(#[trigger] seq![Ev::Open(n)]) == Seq::<(Seq<char>, Sticky)>::empty() by {
        assert(ev_toks(seq![Ev::Open(n)]) =~= Seq::<(Seq<char>, Sticky)>::empty());
    }
    assert(item_toks(seq![Item::NL]) =~= Seq::<(Seq<char>, Sticky)>::empty());
    assert(ev_toks(seq![Ev::NL]) =~= Seq::<(Seq<char>, Sticky)>::empty());
    assert(ev_toks(seq![Ev::LargeNL]) =~= Seq::<(Seq<char>, Sticky)>::empty());
    assert(ev_toks(seq![Ev::Close]) =~= Seq::<(Seq<char>, Sticky)>::empty());
}
/// the tokens that come out are those that went in
proof fn same_toks(v: Vec<Element>, i: nat, lg: bool)
    requires i <= v@.len(),
    ensures item_toks(items(true, v, i, lg)) == ev_toks(flat(v, i)),
    decreases v, i,
{
    toks_one();
    if i > 0 {
        same_toks(v, (i - 1) as nat, lg);
        let e = v@[i - 1];
        let a = items(true, v, (i - 1) as nat, lg);
        let f = flat(v, (i - 1) as nat);
        match e {
            Element::Node(n) => {
                assert(decreases_to!(v => v@[i - 1]));
                let l = n.children@.len();
                same_toks(n.children, l, large(n));
                let c = if n.finished { seq![Ev::Close] } else { Seq::<Ev>::empty() };
                item_toks_add(a, items(true, n.children, l, large(n)));
                ev_toks_add(f, seq![Ev::Open(n.node)] + flat(n.children, l) + c);
                ev_toks_add(seq![Ev::Open(n.node)] + flat(n.children, l), c);
                ev_toks_add(seq![Ev::Open(n.node)], flat(n.children, l));
                assert(ev_toks(seq![Ev::Open(n.node)] + flat(n.children, l) + c) =~= ev_toks(flat(n.children, l)));
            }
            Element::Token(t, s) => { item_toks_add(a, seq![Item::Tok(t@, s)]); ev_toks_add(f, seq![Ev::Tok(t@, s)]); }
            Element::Newline => { item_toks_add(a, seq![Item::NL]); ev_toks_add(f, seq![Ev::NL]); }
            Element::LargeNewline => { item_toks_add(a, seq![Item::NL]); item_toks_add(a, Seq::empty()); ev_toks_add(f, seq![Ev::LargeNL]); }
        }
        assert(item_toks(items(true, v, i, lg)) =~= ev_toks(flat(v, i)));
    }
}

// ---- nesting (the indentation is a u32)
pub closed spec fn deep(v: Vec<Element>, i: nat) -> nat decreases v, i {
    if i == 0 || i > v@.len() { 0 } else {
        let a = deep(v, (i - 1) as nat);
        let b = match v@[i - 1] { Element::Node(n) => 1 + deep(n.children, n.children@.len()), _ => 0 };
        if a < b { b } else { a }
    }
}
proof fn deep_kid(v: Vec<Element>, i: nat, k: int)
    requires 0 <= k < i <= v@.len(), v@[k] is Node,
    ensures deep(v@[k]->Node_0.children, v@[k]->Node_0.children@.len()) < deep(v, i),
    decreases i,
{
    if k < i - 1 { deep_kid(v, (i - 1) as nat, k); }
}

// ---- the text so far
spec fn stack_ok(s: Seq<IndentNode>) -> bool {
    s.len() > 0 && s[0].has_tokens && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).indent <= i
}
spec fn ok(r: RawBuilder) -> bool { stack_ok(r.node_stack@) && !(r.needs_space && r.needs_indent) }
spec fn st(r: RawBuilder, a: Seq<Item>) -> bool {
    &&& renders(r.result@, a)
    &&& r.has_newline == at_start(a)
    &&& r.needs_indent == (a.len() > 0 && at_start(a) && !no_toks(a))
    &&& r.needs_space == (!at_start(a) && !next(a.last()->Tok_1))
}
/// b is a after the items x
spec fn grown(a: RawBuilder, b: RawBuilder, x: Seq<Item>) -> bool {
    ok(b) && b.node_stack@.len() == a.node_stack@.len() && forall|i: Seq<Item>| st(a, i) ==> #[trigger] st(b, i + x)
}
proof fn grown_add(a: RawBuilder, b: RawBuilder, c: RawBuilder, x: Seq<Item>, y: Seq<Item>)
    requires grown(a, b, x), grown(b, c, y),
    ensures grown(a, c, x + y),
{
    assert forall|i: Seq<Item>| st(a, i) implies #[trigger] st(c, i + (x + y)) by {
        assert(st(b, i + x));
        assert(st(c, i + x + y));
        assert(i + x + y =~= i + (x + y));
    }
}
proof fn grown_none(a: RawBuilder)
    requires ok(a),
    ensures grown(a, a, Seq::empty()),
{
    assert forall|i: Seq<Item>| st(a, i) implies #[trigger] st(a, i + Seq::empty()) by { assert(i + Seq::<Item>::empty() =~= i); }
}
/// the stack does not matter
proof fn grown_stack(a: RawBuilder, b: RawBuilder, c: RawBuilder, d: RawBuilder, x: Seq<Item>)
    requires
        grown(b, c, x), stack_ok(d.node_stack@), d.node_stack@.len() == a.node_stack@.len(),
        b.result@ == a.result@, b.has_newline == a.has_newline, b.needs_indent == a.needs_indent, b.needs_space == a.needs_space,
        d.result@ == c.result@, d.has_newline == c.has_newline, d.needs_indent == c.needs_indent, d.needs_space == c.needs_space,
    ensures grown(a, d, x),
{
    assert forall|i: Seq<Item>| st(a, i) implies #[trigger] st(d, i + x) by { assert(st(b, i)); assert(st(c, i + x)); }
}

pub closed spec fn depth(b: FormatBuilder) -> nat { deep(b.root.children, b.root.children@.len()) }
spec fn item_of(dp: bool, e: Element, lg: bool) -> Seq<Item> {
    match e {
        Element::Token(t, s) => seq![Item::Tok(t@, s)],
        Element::Newline => seq![Item::NL],
        Element::LargeNewline => if lg { seq![Item::NL] } else { Seq::empty() },
        Element::Node(n) => items(dp, n.children, n.children@.len(), if dp { large(n) } else { n.node.large }),
    }
}
spec fn deep_of(e: Element) -> nat { match e { Element::Node(n) => 1 + deep(n.children, n.children@.len()), _ => 0 } }
/// e1 is e0 with every node in it marked
spec fn marked_kid(e0: Element, e1: Element) -> bool {
    deep_of(e0) == deep_of(e1) && forall|lg: bool| #[trigger] item_of(false, e1, lg) == item_of(true, e0, lg)
}
spec fn marked(v0: Vec<Element>, v1: Vec<Element>) -> bool {
    v1@.len() == v0@.len() && forall|i: int| 0 <= i < v0@.len() ==> marked_kid(#[trigger] v0@[i], v1@[i])
}
proof fn marked_items(v0: Vec<Element>, v1: Vec<Element>, i: nat, lg: bool)
    requires marked(v0, v1), i <= v0@.len(),
    ensures items(false, v1, i, lg) == items(true, v0, i, lg), deep(v0, i) == deep(v1, i),
    decreases i,
{
    if i > 0 {
        marked_items(v0, v1, (i - 1) as nat, lg);
        assert(marked_kid(v0@[i - 1], v1@[i - 1]));
        assert(item_of(false, v1@[i - 1], lg) == item_of(true, v0@[i - 1], lg));
    }
}

impl Sticky {
//@ fn formatter/src/lib.rs Sticky::to_prev
//@ ret r
    ensures r == prev(self),
//@ end
//@ fn formatter/src/lib.rs Sticky::to_next
//@ ret r
    ensures r == next(self),
//@ end
}

//@ rule text . to_owned ( ) ==> vx_own ( text )
//@ rule ?ws . chars ( ) ==> vx_chars ( ws )
//@ rule ?self . result . push ( $x:rest ) ==> vx_push ( & mut self . result , $x )
//@ rule ?self . result . push_str ( $x:rest ) ==> vx_push_str ( & mut self . result , $x )
//@ fn formatter/src/lib.rs FormatBuilder::current_node.go
//@ ret r
//@ as go
//@ rule match $e . last_mut ( ) { Some ( $p:rest ) if $g:any => { $b:rest } _ => { } } ==> if ( match $e . last ( ) { Some ( $p ) => $g , _ => false } ) { $b }
//@ rule $e . last_mut ( ) ==> vx_last_mut ( & mut $e )
    ensures *r == open_of(*old(node)), swapped(*old(node), *final(node), *final(r)),
    decreases *old(node),
//@ end
impl FormatBuilder {
//@ fn formatter/src/lib.rs FormatBuilder::new
//@ ret r
    ensures said(r) == Seq::<Ev>::empty(), !inside(r),
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::current_node
//@ ret r
    ensures *r == open_of(old(self).root), swapped(old(self).root, final(self).root, *final(r)),
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::add_token
    ensures said(*final(self)) == said(*old(self)).push(Ev::Tok(text@, Sticky::None)), inside(*final(self)) == inside(*old(self)),
//@ after current . children . push
    let ghost vx_m = *current;
    proof {
        added(old(self).root, self.root, vx_m, vx_m.children@.last());
        assert(said(*self) =~= said(*old(self)).push(Ev::Tok(text@, Sticky::None)));
    }
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::add_sticky_token
    ensures said(*final(self)) == said(*old(self)).push(Ev::Tok(text@, sticky)), inside(*final(self)) == inside(*old(self)),
//@ after current . children . push
    let ghost vx_m = *current;
    proof {
        added(old(self).root, self.root, vx_m, vx_m.children@.last());
        assert(said(*self) =~= said(*old(self)).push(Ev::Tok(text@, sticky)));
    }
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::add_newline
    ensures said(*final(self)) == said(*old(self)).push(Ev::NL), inside(*final(self)) == inside(*old(self)),
//@ rule self . current_node ( ) . children . push ( $x:rest ) ==> { let current = self . current_node ( ) ; current . children . push ( $x ) ; let ghost vx_m = *current; proof { added(old(self).root, self.root, vx_m, vx_m.children@.last()); assert(said(*self) =~= said(*old(self)).push(Ev::NL)); } }
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::add_large_newline
    ensures said(*final(self)) == said(*old(self)).push(Ev::LargeNL), inside(*final(self)) == inside(*old(self)),
//@ rule self . current_node ( ) . children . push ( $x:rest ) ==> { let current = self . current_node ( ) ; current . children . push ( $x ) ; let ghost vx_m = *current; proof { added(old(self).root, self.root, vx_m, vx_m.children@.last()); assert(said(*self) =~= said(*old(self)).push(Ev::LargeNL)); } }
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::start_node
    ensures said(*final(self)) == said(*old(self)).push(Ev::Open(node)), inside(*final(self)),
//@ rule self . current_node ( ) . children . push ( $x:rest ) ==> { let current = self . current_node ( ) ; current . children . push ( $x ) ; let ghost vx_m = *current; proof { added(old(self).root, self.root, vx_m, vx_m.children@.last()); assert(said(*self) =~= said(*old(self)).push(Ev::Open(node))); } }
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::add_whitespace
    ensures said(*final(self)) == if ws@.contains('\n') { said(*old(self)).push(Ev::NL) } else { said(*old(self)) },
        inside(*final(self)) == inside(*old(self)),
//@ loop 0
    invariant
        said(*self) == said(*old(self)), inside(*self) == inside(*old(self)),
        vx_it0.seq() == ws@, forall|k: int| 0 <= k < vx_it0.index() ==> ws@[k] != '\n',
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::finish_node
    ensures said(*final(self)) == if inside(*old(self)) { said(*old(self)).push(Ev::Close) } else { said(*old(self)) },
//@ rule self . current_node ( ) . finished = true ==> { let current = self . current_node ( ) ; current . finished = true ; let ghost vx_m = * current ; proof { if inside(*old(self)) { closed(old(self).root, self.root, vx_m); } } }
//@ end
//@ fn formatter/src/lib.rs FormatBuilder::finish
//@ ret r
//@ rule mut self ==> self
//@ rule self . root ==> vx_self . root
    requires depth(self) < 0x8000_0000,
    ensures
        renders(r@, asked(self)),
        item_toks(asked(self)) == ev_toks(said(self)),
//@ head
    let mut vx_self = self;
    let ghost b0 = self;
//@ after self . root . format
    proof {
        assert(st(raw0, Seq::empty()));
        let x = items(true, b0.root.children, b0.root.children@.len(), large(b0.root));
        assert(st(raw, Seq::<Item>::empty() + x));
        assert(Seq::<Item>::empty() + x =~= x);
        same_toks(b0.root.children, b0.root.children@.len(), large(b0.root));
    }
//@ before self . root . format
    let ghost raw0 = raw;
    proof { marked_items(b0.root.children, vx_self.root.children, b0.root.children@.len(), large(b0.root)); }
//@ end
}

impl FormatNode {
//@ fn formatter/src/lib.rs FormatNode::mark_large
//@ rule ?self . node . large |= $n:ident . node . large ==> { let vx_b = $n . node . large ; self . node . large = self . node . large || vx_b }
    ensures
        final(self).node.large == large(*old(self)), final(self).node.indents == old(self).node.indents, final(self).finished == old(self).finished,
        marked(old(self).children, final(self).children),
    decreases *old(self),
//@ head
    let ghost n0 = *self;
//@ loop 0
    invariant
        n0 == *old(self),
        vx_it0.seq().len() == n0.children@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == n0.children@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> marked_kid(n0.children@[k], *final(#[trigger] vx_it0.seq()[k])),
        self.node.large == (n0.node.large || large_kids(n0.children, vx_it0.index() as nat)),
        self.node.indents == n0.node.indents, self.finished == n0.finished,
//@ looptail 0
    proof {
        let k = vx_it0.index() as int;
        assert(marked_kid(n0.children@[k], *c)) by {
            if n0.children@[k] is Node {
                let a = n0.children@[k]->Node_0; let b = (*c)->Node_0;
                marked_items(a.children, b.children, a.children@.len(), large(a));
            }
        }
    }
//@ after for c in
    proof {
        assert forall|i: int| 0 <= i < n0.children@.len() implies marked_kid(#[trigger] n0.children@[i], self.children@[i]) by { }
    }
//@ loophead 0
    proof {
        assert(*c == n0.children@[vx_it0.index() as int]);
        assert(decreases_to!(n0 => n0.children));
        assert(decreases_to!(n0.children => n0.children@[vx_it0.index() as int]));
        assert(decreases_to!(n0 => *c));
    }
//@ end
//@ fn formatter/src/lib.rs FormatNode::format
    requires ok(*old(raw)), old(raw).node_stack@.len() + deep(self.children, self.children@.len()) < 0x8000_0001,
    ensures grown(*old(raw), *final(raw), items(false, self.children, self.children@.len(), self.node.large)),
    decreases *self,
//@ head
    proof { grown_none(*raw); }
//@ loop 0
    invariant
        vx_it0.seq().len() == self.children@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == self.children@[k],
        grown(*old(raw), *raw, items(false, self.children, vx_it0.index() as nat, self.node.large)),
        old(raw).node_stack@.len() + deep(self.children, self.children@.len()) < 0x8000_0001,
//@ rule raw . node ( | $r:ident | $b:rest ) ==> raw . node ( Ghost(items(false, n.children, n.children@.len(), n.node.large)) , | $r : & mut RawBuilder | requires ok(*old($r)), old($r).node_stack@.len() + deep(n.children, n.children@.len()) < 0x8000_0001, ensures grown(*old($r), *final($r), items(false, n.children, n.children@.len(), n.node.large)) { $b } )
//@ loophead 0
    let ghost raw1 = *raw;
    let ghost vx_k = vx_it0.index() as int;
    let ghost vx_v = self.children;
    proof {
        assert(*c == vx_v@[vx_k]);
        assert(decreases_to!(*self => vx_v));
        assert(decreases_to!(vx_v => vx_v@[vx_k]));
        assert(decreases_to!(*self => *c));
        if *c is Node { deep_kid(vx_v, vx_v@.len(), vx_k); }
        grown_none(*raw);
    }
//@ looptail 0
    proof {
        grown_add(*old(raw), raw1, *raw, items(false, vx_v, vx_k as nat, self.node.large), item_of(false, vx_v@[vx_k], self.node.large));
    }
//@ end
}

impl RawBuilder {
//@ fn formatter/src/lib.rs RawBuilder::new
//@ ret r
    ensures st(r, Seq::empty()), ok(r), r.node_stack@.len() == 1,
//@ head
    proof { assert(laid_out(Seq::empty(), Seq::empty(), Seq::empty())); }
//@ end
//@ fn formatter/src/lib.rs RawBuilder::add_token
//@ rule self . node_stack . iter ( ) . rev ( ) . find_map ( | $n:ident | $b:rest ) ==> vx_rfind_map ( & self . node_stack , | $n : & IndentNode | -> (r: Option<u32>) ensures $n.has_tokens ==> r is Some { $b } )
    requires ok(*old(self)),
    ensures grown(*old(self), *final(self), seq![Item::Tok(text@, sticky)]),
//@ head
    let ghost r0 = *self;
//@ before let indent
    let ghost r1 = self.result@;
    proof { assert(self.node_stack@[0].has_tokens); }
//@ loop 0
    invariant
        self.result@ == r1 + spaces(4 * vx_it0.index() as nat),
        r1 == r0.result@ || r1 == r0.result@.push(' '),
        self.node_stack == r0.node_stack, self.needs_space == r0.needs_space, self.has_newline == r0.has_newline,
//@ before self . result . push_str
    let ghost r3 = *self;
//@ after self . has_newline = false
    proof {
        assert forall|i: Seq<Item>| st(r0, i) implies #[trigger] st(*self, i + seq![Item::Tok(text@, sticky)]) by {
            let j = i + seq![Item::Tok(text@, sticky)];
            let g = r3.result@.subrange(r0.result@.len() as int, r3.result@.len() as int);
            assert(j.drop_last() =~= i);
            assert(j.last() == Item::Tok(text@, sticky));
            assert(!no_toks(j)) by { assert(!(j[j.len() - 1] is NL)); }
            assert(self.result@ =~= r0.result@ + g + text@);
            if no_toks(i) { if i.len() > 0 { assert(i[i.len() - 1] is NL); } assert(r0.needs_indent ==> false); }
            if !no_toks(i) && at_start(i) { assert(g =~= spaces(g.len())); }
            assert(gap(i, j.last(), g)) by { if r0.needs_space && !prev(sticky) { assert(g =~= seq![' ']); } else if !r0.needs_indent { assert(g =~= Seq::<char>::empty()); } }
            renders_more(r0.result@, i, j.last(), g);
        }
        assert forall|i: int| 0 <= i < self.node_stack@.len() implies (#[trigger] self.node_stack@[i]).indent <= i by { assert(r0.node_stack@[i].indent <= i); }
    }
//@ looptail 0
    proof { reveal_strlit("    "); assert(self.result@ =~= r1 + spaces(4 * (vx_it0.index() + 1) as nat)); }
//@ end
//@ fn formatter/src/lib.rs RawBuilder::add_newline
    requires ok(*old(self)),
    ensures grown(*old(self), *final(self), seq![Item::NL]),
//@ head
    let ghost r0 = *self;
//@ after if ! self . has_newline
    proof {
        assert forall|i: Seq<Item>| st(r0, i) implies #[trigger] st(*self, i + seq![Item::NL]) by {
            let j = i + seq![Item::NL];
            assert(j.drop_last() =~= i);
            assert(j.last() is NL);
            if !no_toks(i) { let k = choose|k: int| 0 <= k < i.len() && !(i[k] is NL); assert(j[k] == i[k]); }
            if no_toks(i) { assert forall|k: int| 0 <= k < j.len() implies j[k] is NL by { if k < i.len() { assert(j[k] == i[k]); } } }
            if !at_start(i) { assert(!(i[i.len() - 1] is NL)); }
            let g = if at_start(i) { Seq::<char>::empty() } else { seq!['\n'] };
            assert(self.result@ =~= r0.result@ + g + chars(Item::NL));
            renders_more(r0.result@, i, Item::NL, g);
        }
    }
//@ end
//@ fn formatter/src/lib.rs RawBuilder::node
//@ rule contents : impl ==> vx_x : Ghost < Seq < Item > > , contents : impl
    requires
        ok(*old(self)), old(self).node_stack@.len() < 0x8000_0000,
        forall|b: &mut RawBuilder| ok(*b) && b.node_stack@.len() == old(self).node_stack@.len() + 1 ==> #[trigger] contents.requires((b,)),
        forall|b: &mut RawBuilder, u: ()| #[trigger] contents.ensures((b,), u) ==> grown(*b, *final(b), vx_x@),
    ensures grown(*old(self), *final(self), vx_x@),
//@ head
    let ghost r0 = *self;
    proof { assert(self.node_stack@[self.node_stack@.len() - 1].indent < self.node_stack@.len()); }
//@ before contents
    let ghost r1 = *self;
    proof {
        assert forall|i: int| 0 <= i < self.node_stack@.len() implies (#[trigger] self.node_stack@[i]).indent <= i by {
            if i < r0.node_stack@.len() { assert(self.node_stack@[i] == r0.node_stack@[i]); }
        }
    }
//@ after contents
    let ghost r2 = *self;
//@ after self . node_stack . pop
    proof {
        assert forall|i: int| 0 <= i < self.node_stack@.len() implies (#[trigger] self.node_stack@[i]).indent <= i by { assert(self.node_stack@[i] == r2.node_stack@[i]); }
        grown_stack(r0, r1, r2, *self, vx_x@);
    }
//@ end
}
}
fn main() {}
