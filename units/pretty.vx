// Unit `pretty`: the printed form of intermediate code (C12).
use vstd::prelude::*;
use std::rc::Rc;
verus! {
global size_of usize == 8;

//@ rule ir :: $x:ident ==> $x
//@ rule pub ( crate ) ==> pub
//@ type ticc-core/src/ir.rs Name | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Expr
//@ type ticc-core/src/ir.rs LambdaParam
//@ type ticc-core/src/ir.rs TyVar | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Ty
//@ type ticc-core/src/ir.rs Branch
//@ type ticc-core/src/ir.rs Op | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Intrinsic | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs ValueDef
//@ type ticc-core/src/ir.rs TyDef
//@ type ticc-core/src/ir.rs TyCase
//@ type ticc-core/src/ir.rs TyGenerator
//@ type ticc-core/src/ir.rs Program
//@ type ticc-core/src/ir.rs ByteString
//@ type formatter/src/lib.rs Sticky | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type formatter/src/lib.rs Node
//@ type ticc-core/src/pretty.rs Prec | #[derive(Clone, Copy)]
pub type Tok = (Seq<char>, Sticky);

// ---- the formatter: contracts proved in unit `fmt`, as far as tokens go
#[verifier::external_body]
fn vx_some(s: &String) -> (r: bool) ensures r == (s@.len() > 0) { unimplemented!() }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
pub struct FormatBuilder { b: u8 }
impl FormatBuilder {
    uninterp spec fn said(&self) -> Seq<Tok>;
    #[verifier::external_body]
    fn add_token(&mut self, text: &str) ensures final(self).said() == old(self).said() + tk(text@, Sticky::None) { unimplemented!() }
    #[verifier::external_body]
    fn add_sticky_token(&mut self, text: &str, sticky: Sticky) ensures final(self).said() == old(self).said() + tk(text@, sticky) { unimplemented!() }
    #[verifier::external_body]
    fn add_newline(&mut self) ensures final(self).said() == old(self).said() { unimplemented!() }
    #[verifier::external_body]
    fn add_large_newline(&mut self) ensures final(self).said() == old(self).said() { unimplemented!() }
    #[verifier::external_body]
    fn start_node(&mut self, node: Node) ensures final(self).said() == old(self).said() { unimplemented!() }
    #[verifier::external_body]
    fn finish(self) -> (r: String) ensures says(r@, self.said()) { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: FormatBuilder) ensures r.said() == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn finish_node(&mut self) ensures final(self).said() == old(self).said() { unimplemented!() }
}
/// the text is exactly these tokens, laid out (what `renders` and `item_toks` say in unit `fmt`)
uninterp spec fn says(text: Seq<char>, toks: Seq<Tok>) -> bool;
/// the generator of the names of the program
#[verifier::external_body]
pub struct NameGenerator<'a> { n: &'a str }
//@ type ticc-core/src/pretty.rs Format
pub uninterp spec fn name_text(names: NameGenerator<'_>, n: Name) -> Seq<char>;
pub uninterp spec fn debug_str(s: Seq<char>) -> Seq<char>;
/// `names.show_debug(n).to_string()`
#[verifier::external_body]
fn vx_name(names: &NameGenerator<'_>, n: Name) -> (r: String) ensures r@ == name_text(*names, n) { unimplemented!() }
/// `format!("{:?}", s)`
#[verifier::external_body]
fn vx_debug_str(s: &String) -> (r: String) ensures r@ == debug_str(s@) { unimplemented!() }
#[verifier::external_body]
fn vx_debug_bytes(s: &ByteString) -> (r: String) ensures r@ == shown(s.bytes@) { unimplemented!() }
#[verifier::external_body]
fn vx_char(c: u8) -> (r: char) ensures r as u32 == c as u32 { unimplemented!() }
#[verifier::external_body]
fn vx_encode(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
#[verifier::external_body]
fn vx_rest<T>(v: &Vec<T>) -> (r: &[T])
    requires v@.len() > 0,
    ensures r@ == v@.subrange(1, v@.len() as int) { unimplemented!() }

// ---- the printed grammar
spec fn hex(n: u8) -> char { if n < 10 { (48 + n as u32) as char } else { (87 + n as u32) as char } }
/// how one byte of a byte string is written
spec fn byte(b: u8) -> Seq<char> {
    if b == 34 { seq!['\\', '"'] }
    else if b == 92 { seq!['\\', '\\'] }
    else if 32 <= b <= 126 { seq![b as char] }
    else if b == 13 { seq!['\\', 'r'] }
    else if b == 10 { seq!['\\', 'n'] }
    else { seq!['\\', 'x', hex(b / 16), hex(b % 16)] }
}
spec fn bytes(b: Seq<u8>) -> Seq<char> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else { bytes(b.drop_last()) + byte(b.last()) }
}
spec fn shown(b: Seq<u8>) -> Seq<char> { seq!['"'] + bytes(b) + seq!['"'] }
proof fn same_hex(a: u8, b: u8)
    requires a < 16, b < 16,
    ensures hex(a) == hex(b) ==> a == b, (hex(a) as u32) < 128,
{
    assert(hex(a) as u32 == (if a < 10 { 48 + a as u32 } else { 87 + a as u32 }));
    assert(hex(b) as u32 == (if b < 10 { 48 + b as u32 } else { 87 + b as u32 }));
}
/// no written byte begins another one
proof fn prefix_code(x: u8, y: u8, s: Seq<char>, t: Seq<char>)
    requires byte(x) + s == byte(y) + t,
    ensures x == y, s == t,
{
    let l = byte(x) + s;
    let r = byte(y) + t;
    assert(l[0] == byte(x)[0] && r[0] == byte(y)[0]);
    same_hex(x / 16, y / 16); same_hex(x % 16, y % 16);
    if byte(x).len() > 1 && byte(y).len() > 1 {
        assert(l[1] == byte(x)[1] && r[1] == byte(y)[1]);
        if byte(x).len() > 2 && byte(y).len() > 2 {
            assert(l[2] == byte(x)[2] && r[2] == byte(y)[2]);
            assert(l[3] == byte(x)[3] && r[3] == byte(y)[3]);
        }
    }
    assert(x == y);
    assert(s =~= l.subrange(byte(x).len() as int, l.len() as int));
    assert(t =~= r.subrange(byte(x).len() as int, r.len() as int));
}
proof fn first_byte(a: Seq<u8>)
    requires a.len() > 0,
    ensures bytes(a) == byte(a[0]) + bytes(a.drop_first()),
    decreases a.len(),
{
    if a.len() > 1 {
        first_byte(a.drop_last());
        assert(a.drop_last().drop_first() =~= a.drop_first().drop_last());
        assert(a.drop_first().last() == a.last());
        assert(bytes(a) =~= byte(a[0]) + bytes(a.drop_first()));
    } else {
        assert(a.drop_last() =~= Seq::<u8>::empty());
        assert(a.drop_first() =~= Seq::<u8>::empty());
        assert(bytes(a) =~= byte(a[0]) + bytes(a.drop_first()));
    }
}
/// the text of a byte string says which bytes it has, and where it ends
proof fn shown_apart(a: Seq<u8>, b: Seq<u8>, s: Seq<char>, t: Seq<char>)
    requires bytes(a) + seq!['"'] + s == bytes(b) + seq!['"'] + t,
    ensures a == b, s == t,
    decreases a.len(),
{
    let l = bytes(a) + seq!['"'] + s;
    let r = bytes(b) + seq!['"'] + t;
    if a.len() > 0 { first_byte(a); assert(l[0] == byte(a[0])[0]); }
    if b.len() > 0 { first_byte(b); assert(r[0] == byte(b[0])[0]); }
    if a.len() == 0 { assert(l[0] == '"'); assert(b.len() == 0); assert(a =~= b); assert(s =~= l.subrange(1, l.len() as int)); assert(t =~= r.subrange(1, r.len() as int)); }
    else if b.len() == 0 { assert(r[0] == '"'); }
    else {
        let s1 = bytes(a.drop_first()) + seq!['"'] + s;
        let t1 = bytes(b.drop_first()) + seq!['"'] + t;
        assert(l =~= byte(a[0]) + s1);
        assert(r =~= byte(b[0]) + t1);
        prefix_code(a[0], b[0], s1, t1);
        shown_apart(a.drop_first(), b.drop_first(), s, t);
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    }
}
/// `fmt::Formatter`: what was written into it so far
#[verifier::external_body]
pub struct Formatter<'a> { f: &'a str }
impl Formatter<'_> { uninterp spec fn out(&self) -> Seq<char>; }
pub struct FmtError;
#[verifier::external_body]
fn vx_write(f: &mut Formatter<'_>, s: &str) -> (r: Result<(), FmtError>)
    ensures r is Ok ==> final(f).out() == old(f).out() + s@ { unimplemented!() }
/// `str::from_utf8(b).unwrap()` on ASCII
#[verifier::external_body]
fn vx_ascii(b: &[u8; 4], n: usize) -> (r: &str)
    requires n <= 4, forall|i: int| 0 <= i < n ==> b@[i] < 128,
    ensures r@ == Seq::new(n as nat, |i: int| b@[i] as char) { unimplemented!() }
//@ fn ticc-core/src/ir.rs Debug/ByteString::fmt.hex_digit
//@ ret r
    ensures nibble < 16 ==> r == hex(nibble) as u32, nibble < 16 ==> r as char == hex(nibble), nibble < 16 ==> r < 128,
//@ end
impl ByteString {
//@ fn ticc-core/src/ir.rs Debug/ByteString::fmt
//@ ret r
//@ rule fmt :: Formatter ==> Formatter
//@ rule fmt :: Result ==> Result<(), FmtError>
//@ rule f . write_str ( $x:rest ) ==> vx_write ( f , $x )
//@ rule std :: str :: from_utf8 ( & buf [ .. 1 ] ) . unwrap ( ) ==> vx_ascii ( & buf , 1 )
//@ rule std :: str :: from_utf8 ( & buf ) . unwrap ( ) ==> vx_ascii ( & buf , 4 )
    ensures r is Ok ==> final(f).out() == old(f).out() + shown(self.bytes@),
//@ head
    let ghost o = f.out();
    proof { reveal_strlit("\""); assert("\""@ =~= seq!['"']); }
    let ghost all = self.bytes@;
    proof { assert(bytes(all.take(0)) =~= Seq::empty()); assert(o + seq!['"'] + bytes(all.take(0)) =~= o + seq!['"']); }
//@ loophead 0
    proof { reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\r"); reveal_strlit("\\n"); }
    proof { assert("\\\""@ =~= seq!['\\', '"']); assert("\\\\"@ =~= seq!['\\', '\\']); assert("\\r"@ =~= seq!['\\', 'r']); assert("\\n"@ =~= seq!['\\', 'n']); }
    let ghost k = vx_it0.index() as int;
    let ghost o1 = f.out();
    let ghost c = all[k];
    proof { assert(c >> 4 == c / 16) by (bit_vector); assert(c & 0xF == c % 16) by (bit_vector); }
//@ after for
    proof { assert(all.take(all.len() as int) =~= all); assert(o + seq!['"'] + bytes(all) + seq!['"'] =~= o + shown(all)); }
//@ looptail 0
    proof {
        assert(all.take(k + 1).drop_last() =~= all.take(k)); assert(all.take(k + 1).last() == c);
        if c == 34 { assert(s@ == "\\\""@); } else if c == 92 { assert(s@ == "\\\\"@); } else if c == 13 { assert(s@ == "\\r"@); } else if c == 10 { assert(s@ == "\\n"@); }
        else if 32 <= c <= 126 { assert(s@ =~= byte(c)); }
        else { assert(s@.len() == 4); assert(s@[0] == '\\'); assert(s@[1] == 'x'); assert(s@[2] == hex(c / 16)); assert(s@ =~= byte(c)); }
        assert(o1 + byte(c) =~= o + seq!['"'] + bytes(all.take(k + 1)));
    }
//@ loop 0
    invariant all == self.bytes@, f.out() == o + seq!['"'] + bytes(self.bytes@.take(vx_it0.index() as int)), vx_it0.seq().len() == self.bytes@.len(), forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == self.bytes@[k],
//@ end
}
spec fn tk(t: Seq<char>, s: Sticky) -> Seq<Tok> { seq![(t, s)] }
spec fn one(t: &str) -> Seq<Tok> { tk(t@, Sticky::None) }
spec fn pre(t: &str) -> Seq<Tok> { tk(t@, Sticky::Next) }
spec fn post(t: &str) -> Seq<Tok> { tk(t@, Sticky::Prev) }
spec fn both(t: &str) -> Seq<Tok> { tk(t@, Sticky::Both) }
spec fn digit(x: u64) -> char { ('0' as u32 + (x % 10) as u32) as char }
spec fn digits(x: u64) -> Seq<Tok> decreases x {
    (if x >= 10 { digits(x / 10) } else { Seq::empty() }) + tk(seq![digit(x)], Sticky::Prev)
}
spec fn number(x: u64) -> Seq<Tok> { one("") + digits(x) }
spec fn level(p: Prec) -> int {
    match p { Prec::Min => 0, Prec::Compare => 1, Prec::Apply => 2, Prec::Add => 3, Prec::Multiply => 4, Prec::Atom => 5 }
}

spec fn ty_level(t: Ty) -> int {
    match t { Ty::Named(_, _) | Ty::Fn(_, _) | Ty::Abs(_, _) => level(Prec::Apply), _ => level(Prec::Atom) }
}
spec fn parens(p: bool, t: Seq<Tok>) -> Seq<Tok> { if p { pre("(") + t + post(")") } else { t } }
spec fn name_toks(nm: NameGenerator<'_>, n: Name) -> Seq<Tok> { tk(name_text(nm, n), Sticky::None) }
spec fn var_toks(v: TyVar) -> Seq<Tok> { pre("t") + number(v.0) }
/// the tokens of a type where one of level p is wanted
spec fn ty_toks(nm: NameGenerator<'_>, t: Ty, p: int) -> Seq<Tok> decreases t, 1nat {
    parens(ty_level(t) < p, ty_body(nm, t))
}
spec fn ty_body(nm: NameGenerator<'_>, t: Ty) -> Seq<Tok> decreases t, 0nat {
    match t {
        Ty::Bool => one("bool"),
        Ty::Int => one("int"),
        Ty::String => one("string"),
        Ty::Var(v) => var_toks(v),
        Ty::Named(n, args) => name_toks(nm, n) + atoms(nm, args, args@.len()),
        Ty::Fn(params, out) => pre("(") + tys(nm, params, params@.len()) + post(")") + one("->") + ty_toks(nm, *out, 0),
        Ty::Abs(v, t) => one("for") + var_toks(v) + one(".") + ty_toks(nm, *t, 0),
    }
}
/// how deep and wide a type is
spec fn size(t: Ty) -> nat decreases t {
    match t {
        Ty::Named(_, v) => 1 + sizes(v, v@.len()),
        Ty::Fn(v, o) => 1 + sizes(v, v@.len()) + size(*o),
        Ty::Abs(_, b) => 1 + size(*b),
        _ => 0,
    }
}
spec fn sizes(v: Vec<Ty>, n: nat) -> nat decreases v, n {
    if n == 0 || n > v@.len() { 0 } else { sizes(v, (n - 1) as nat) + size(v@[n - 1]) }
}
proof fn size_at(v: Vec<Ty>, n: nat, k: int)
    requires 0 <= k < n <= v@.len(),
    ensures size(v@[k]) <= sizes(v, n),
    decreases n,
{
    if k < n - 1 { size_at(v, (n - 1) as nat, k); }
}
/// arguments of a named type
spec fn atoms(nm: NameGenerator<'_>, v: Vec<Ty>, n: nat) -> Seq<Tok> decreases v, n {
    if n == 0 || n > v@.len() { Seq::empty() } else { atoms(nm, v, (n - 1) as nat) + ty_toks(nm, v@[n - 1], level(Prec::Atom)) }
}
/// the first n of a list of types
spec fn tys(nm: NameGenerator<'_>, v: Vec<Ty>, n: nat) -> Seq<Tok> decreases v, n {
    if n == 0 || n > v@.len() { Seq::empty() }
    else if n == 1 { ty_toks(nm, v@[0], 0) }
    else { tys(nm, v, (n - 1) as nat) + post(",") + ty_toks(nm, v@[n - 1], 0) }
}

spec fn op_level(o: Op) -> Prec {
    match o {
        Op::Add | Op::Subtract => Prec::Add,
        Op::Multiply | Op::Divide | Op::Modulo => Prec::Multiply,
        Op::Less | Op::LessEq | Op::Greater | Op::GreaterEq | Op::Equal | Op::NotEqual => Prec::Compare,
    }
}
/// comparisons do not nest; nor does + in +, nor * in *
spec fn operand_level(o: Op) -> Prec {
    match op_level(o) { Prec::Compare => Prec::Apply, Prec::Add => Prec::Multiply, _ => Prec::Atom }
}
spec fn op_toks(o: Op) -> Seq<Tok> {
    match o {
        Op::Add => one("+"), Op::Subtract => one("-"), Op::Multiply => one("*"), Op::Divide => one("/"), Op::Modulo => one("%"),
        Op::Less => one("<"), Op::LessEq => one("<="), Op::Greater => one(">"), Op::GreaterEq => one(">="), Op::Equal => one("=="), Op::NotEqual => one("!="),
    }
}
spec fn intrinsic_toks(i: Intrinsic) -> Seq<Tok> {
    match i {
        Intrinsic::StringLen => one("%stringLen"),
        Intrinsic::StringConcat => one("%stringConcat"),
        Intrinsic::StringCharAt => one("%stringCharAt"),
        Intrinsic::StringSubstring => one("%stringSubstring"),
        Intrinsic::StringFromChar => one("%stringFromChar"),
        Intrinsic::IntToString => one("%intToString"),
    }
}
spec fn expr_level(e: Expr) -> int {
    match e {
        Expr::Op(_, o, _) => level(op_level(o)),
        Expr::If(_, _, _) | Expr::Lambda(_, _) | Expr::Match(_, _) | Expr::Let(_, _, _) | Expr::LetRec(_, _, _, _) | Expr::Pi(_, _) => level(Prec::Min),
        _ => level(Prec::Atom),
    }
}
spec fn ctor_toks(nm: NameGenerator<'_>, n: Name) -> Seq<Tok> { pre("@") + name_toks(nm, n) }
/// the tokens of an expression where one of level p is wanted
spec fn toks(nm: NameGenerator<'_>, e: Expr, p: int) -> Seq<Tok> decreases e, 1nat {
    parens(expr_level(e) < p, body(nm, e))
}
spec fn body(nm: NameGenerator<'_>, e: Expr) -> Seq<Tok> decreases e, 0nat {
    match e {
        Expr::Bool(b) => if b { one("true") } else { one("false") },
        Expr::Int(x) => number(x),
        Expr::String(s) => tk(shown(s.bytes@), Sticky::None),
        Expr::Name(n) => name_toks(nm, n),
        Expr::Call(f, xs) => toks(nm, *f, level(Prec::Atom)) + both("(") + list(nm, xs, xs@.len()) + post(")"),
        Expr::Intrinsic(i, xs) => intrinsic_toks(i) + both("(") + list(nm, xs, xs@.len()) + post(")"),
        Expr::If(c, t, e) => one("if") + toks(nm, *c, level(Prec::Apply)) + one("then") + toks(nm, *t, 0) + one("else") + toks(nm, *e, 0),
        Expr::Op(a, o, b) => toks(nm, *a, level(operand_level(o))) + op_toks(o) + toks(nm, *b, level(operand_level(o))),
        Expr::Lambda(ps, b) => pre("\\(") + params_all(nm, ps, ps@.len()) + post(")") + one("->") + toks(nm, *b, 0),
        Expr::Match(d, bs) => one("match") + toks(nm, *d, level(Prec::Apply)) + one("with") + branches(nm, bs, bs@.len()) + one("end"),
        Expr::Construct(c, ts, xs) => ctor_toks(nm, c) + ty_args(nm, ts) + both("(") + list(nm, xs, xs@.len()) + post(")"),
        Expr::Let(x, v, b) => one("let") + name_toks(nm, x) + one("=") + toks(nm, *v, 0) + post(";") + toks(nm, *b, 0),
        Expr::LetRec(x, t, v, b) => one("let") + one("rec") + name_toks(nm, x) + one(":") + ty_toks(nm, t, 0) + one("=") + toks(nm, *v, 0) + post(";") + toks(nm, *b, 0),
        Expr::Trap(m, t) => pre("#trap(") + tk(debug_str(m@), Sticky::None) + post(",") + ty_toks(nm, t, 0) + post(")"),
        Expr::Pi(v, b) => one("Pi") + var_toks(v) + one("->") + toks(nm, *b, 0),
        Expr::PiApply(f, t) => toks(nm, *f, level(Prec::Atom)) + both("[") + ty_toks(nm, t, 0) + post("]"),
    }
}
spec fn ty_args(nm: NameGenerator<'_>, ts: Vec<Ty>) -> Seq<Tok> {
    if ts@.len() == 0 { Seq::empty() } else { both("[") + tys(nm, ts, ts@.len()) + post("]") }
}
broadcast proof fn assoc(a: Seq<Tok>, b: Seq<Tok>, c: Seq<Tok>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
broadcast proof fn none(a: Seq<Tok>) ensures #[trigger] (a + Seq::empty()) == a { assert(a + Seq::empty() =~= a); }
proof fn body_def(nm: NameGenerator<'_>, e: Expr)
    ensures body(nm, e) == (match e {
        Expr::Bool(b) => if b { one("true") } else { one("false") },
        Expr::Int(x) => number(x),
        Expr::String(s) => tk(shown(s.bytes@), Sticky::None),
        Expr::Name(n) => name_toks(nm, n),
        Expr::Call(f, xs) => toks(nm, *f, level(Prec::Atom)) + both("(") + list(nm, xs, xs@.len()) + post(")"),
        Expr::Intrinsic(i, xs) => intrinsic_toks(i) + both("(") + list(nm, xs, xs@.len()) + post(")"),
        Expr::If(c, t, e) => one("if") + toks(nm, *c, level(Prec::Apply)) + one("then") + toks(nm, *t, 0) + one("else") + toks(nm, *e, 0),
        Expr::Op(a, o, b) => toks(nm, *a, level(operand_level(o))) + op_toks(o) + toks(nm, *b, level(operand_level(o))),
        Expr::Lambda(ps, b) => pre("\\(") + params_all(nm, ps, ps@.len()) + post(")") + one("->") + toks(nm, *b, 0),
        Expr::Match(d, bs) => one("match") + toks(nm, *d, level(Prec::Apply)) + one("with") + branches(nm, bs, bs@.len()) + one("end"),
        Expr::Construct(c, ts, xs) => ctor_toks(nm, c) + ty_args(nm, ts) + both("(") + list(nm, xs, xs@.len()) + post(")"),
        Expr::Let(x, v, b) => one("let") + name_toks(nm, x) + one("=") + toks(nm, *v, 0) + post(";") + toks(nm, *b, 0),
        Expr::LetRec(x, t, v, b) => one("let") + one("rec") + name_toks(nm, x) + one(":") + ty_toks(nm, t, 0) + one("=") + toks(nm, *v, 0) + post(";") + toks(nm, *b, 0),
        Expr::Trap(m, t) => pre("#trap(") + tk(debug_str(m@), Sticky::None) + post(",") + ty_toks(nm, t, 0) + post(")"),
        Expr::Pi(v, b) => one("Pi") + var_toks(v) + one("->") + toks(nm, *b, 0),
        Expr::PiApply(f, t) => toks(nm, *f, level(Prec::Atom)) + both("[") + ty_toks(nm, t, 0) + post("]"),
    }),
{ }
proof fn list_def(nm: NameGenerator<'_>, v: Vec<Expr>, n: nat)
    ensures list(nm, v, n) == (if n == 0 || n > v@.len() { Seq::<Tok>::empty() }
        else if n == 1 { toks(nm, v@[0], 0) } else { list(nm, v, (n - 1) as nat) + post(",") + toks(nm, v@[n - 1], 0) }),
{ }
proof fn tys_def(nm: NameGenerator<'_>, v: Vec<Ty>, n: nat)
    ensures tys(nm, v, n) == (if n == 0 || n > v@.len() { Seq::<Tok>::empty() }
        else if n == 1 { ty_toks(nm, v@[0], 0) } else { tys(nm, v, (n - 1) as nat) + post(",") + ty_toks(nm, v@[n - 1], 0) }),
{ }
proof fn branches_def(nm: NameGenerator<'_>, v: Vec<Branch>, n: nat)
    ensures branches(nm, v, n) == (if n == 0 || n > v@.len() { Seq::<Tok>::empty() } else {
        branches(nm, v, (n - 1) as nat) + one("|") + ctor_toks(nm, v@[n - 1].ctor) + binds(nm, v@[n - 1].bindings, v@[n - 1].bindings@.len()) + one("->") + toks(nm, v@[n - 1].value, 0)
    }),
{ }
proof fn toks_def(nm: NameGenerator<'_>, e: Expr, p: int) ensures toks(nm, e, p) == parens(expr_level(e) < p, body(nm, e)) { }
proof fn ty_var(nm: NameGenerator<'_>) ensures forall|v: TyVar| #[trigger] ty_toks(nm, Ty::Var(v), 0) == var_toks(v) {
    assert forall|v: TyVar| #[trigger] ty_toks(nm, Ty::Var(v), 0) == var_toks(v) by { assert(ty_body(nm, Ty::Var(v)) == var_toks(v)); }
}
/// the first n of a list of expressions, of parameters
spec fn list(nm: NameGenerator<'_>, v: Vec<Expr>, n: nat) -> Seq<Tok> decreases v, n {
    if n == 0 || n > v@.len() { Seq::empty() }
    else if n == 1 { toks(nm, v@[0], 0) }
    else { list(nm, v, (n - 1) as nat) + post(",") + toks(nm, v@[n - 1], 0) }
}
spec fn param_toks(nm: NameGenerator<'_>, p: LambdaParam) -> Seq<Tok> { name_toks(nm, p.name) + one(":") + ty_toks(nm, p.ty, 0) }
spec fn params_all(nm: NameGenerator<'_>, v: Vec<LambdaParam>, n: nat) -> Seq<Tok> decreases v, n {
    if n == 0 || n > v@.len() { Seq::empty() }
    else if n == 1 { param_toks(nm, v@[0]) }
    else { params_all(nm, v, (n - 1) as nat) + post(",") + param_toks(nm, v@[n - 1]) }
}
spec fn binds(nm: NameGenerator<'_>, v: Vec<Name>, n: nat) -> Seq<Tok> decreases n {
    if n == 0 || n > v@.len() { Seq::empty() } else { binds(nm, v, (n - 1) as nat) + name_toks(nm, v@[n - 1]) }
}
spec fn branches(nm: NameGenerator<'_>, v: Vec<Branch>, n: nat) -> Seq<Tok> decreases v, n {
    if n == 0 || n > v@.len() { Seq::empty() } else {
        let b = v@[n - 1];
        branches(nm, v, (n - 1) as nat) + one("|") + ctor_toks(nm, b.ctor) + binds(nm, b.bindings, b.bindings@.len()) + one("->") + toks(nm, b.value, 0)
    }
}
spec fn def_toks(nm: NameGenerator<'_>, d: ValueDef) -> Seq<Tok> {
    (match d.export_name { Some(x) => pre("export(") + tk(debug_str(x@), Sticky::None) + post(")"), None => Seq::empty() })
    + one("let") + name_toks(nm, d.name) + one(":") + ty_toks(nm, d.ty, 0) + one("=") + toks(nm, d.value, 0) + post(";")
}

// ---- the printer
//@ rule ?self . names . show_debug ( $x:any ) . to_string ( ) ==> vx_name ( self . names , $x )
//@ rule ?format ! ( "{:?}" , $x:rest ) ==> vx_debug_str ( $x )
//@ rule ?format ! ( "{x:?}" ) ==> vx_debug_bytes ( x )
//@ rule ?char :: from ( $x:rest ) ==> vx_char ( $x )
//@ rule ?$c . encode_utf8 ( & mut [ 0 ; 4 ] ) ==> & vx_encode ( $c )
//@ rule ?match $a . as_slice ( ) { [ ] => { } [ $f:ident , $r:ident @ .. ] => { $b:rest } } ==> if $a . len ( ) > 0 { let $f = & $a [ 0 ] ; let $r = vx_rest ( & $a ) ; $b }
//@ rule ?expr_prec < prec ==> vx_less ( expr_prec , prec )
//@ rule ?ty_prec < prec ==> vx_less ( ty_prec , prec )
/// derived: by the order of the variants
fn vx_less(a: Prec, b: Prec) -> (r: bool) ensures r == (level(a) < level(b)) { (a as u8) < (b as u8) }
impl Prec {
//@ fn ticc-core/src/pretty.rs Prec::next
//@ ret r
    ensures r == match self { Prec::Min => Prec::Compare, Prec::Compare => Prec::Apply, Prec::Apply => Prec::Add, Prec::Add => Prec::Multiply, _ => Prec::Atom },
//@ end
}
//@ fn ticc-core/src/pretty.rs expr_prec
//@ ret r
    ensures level(r) == expr_level(*e), *e is Op ==> r == op_level(e->Op_1),
//@ end
//@ fn ticc-core/src/pretty.rs ty_prec
//@ ret r
    ensures level(r) == ty_level(*ty),
//@ end
//@ fn ticc-core/src/pretty.rs expr_node
//@ end
//@ fn ticc-core/src/pretty.rs is_atom
//@ end
//@ fn ticc-core/src/pretty.rs Format::write_number.glue_number
    ensures final(builder).said() == old(builder).said() + digits(x),
    decreases x,
//@ end
impl Format<'_> {
    spec fn said(&self) -> Seq<Tok> { self.builder.said() }
    spec fn nm(&self) -> NameGenerator<'_> { *self.names }
//@ fn ticc-core/src/pretty.rs Format::write_name
    ensures final(self).nm() == old(self).nm(), final(self).said() == old(self).said() + name_toks(old(self).nm(), *name),
//@ end
//@ fn ticc-core/src/pretty.rs Format::write_number
    ensures final(self).nm() == old(self).nm(), final(self).said() == old(self).said() + number(x),
//@ end
//@ fn ticc-core/src/pretty.rs Format::write_ctor
    ensures final(self).nm() == old(self).nm(), final(self).said() == old(self).said() + ctor_toks(old(self).nm(), *ctor),
//@ end
//@ fn ticc-core/src/pretty.rs Format::write_string
    ensures final(self).nm() == old(self).nm(), final(self).said() == old(self).said() + tk(shown(x.bytes@), Sticky::None),
//@ end
//@ fn ticc-core/src/pretty.rs Format::write_ty
//@ rule ?__vx_it_1 ( rest ) ==> __vx_it_1 ( rest . iter ( ) )
    ensures final(self).nm() == old(self).nm(), final(self).said() == old(self).said() + ty_toks(old(self).nm(), *ty, level(prec)),
    decreases size(*ty),
//@ head
    let ghost nm = self.nm();
    let ghost s0 = self.said() + if ty_level(*ty) < level(prec) { pre("(") } else { Seq::empty() };
//@ loop 0
    invariant
        self.nm() == nm, *ty == Ty::Named(*n, *args),
        vx_it0.seq().len() == args@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == args@[k],
        self.said() == s0 + name_toks(nm, *n) + atoms(nm, *args, vx_it0.index() as nat),
//@ loophead 0
    let ghost vx_k = vx_it0.index() as int;
    proof {
        size_at(*args, args@.len(), vx_k);
    }
//@ looptail 0
    proof { assert(self.said() =~= s0 + name_toks(nm, *n) + atoms(nm, *args, (vx_k + 1) as nat)); }
//@ before in ir :: Ty :: Fn ( params , out ) => match params
    proof { if params@.len() > 0 { size_at(*params, params@.len(), 0); } }
//@ loop 1
    invariant
        self.nm() == nm, *ty == Ty::Fn(*params, *out), params@.len() > 0,
        vx_it1.seq().len() == params@.len() - 1,
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == params@[k + 1],
        self.said() == s0 + pre("(") + tys(nm, *params, vx_it1.index() as nat + 1),
//@ loophead 1
    let ghost vx_k = vx_it1.index() as int;
    proof {
        size_at(*params, params@.len(), vx_k + 1);
    }
//@ looptail 1
    proof { assert(self.said() =~= s0 + pre("(") + tys(nm, *params, (vx_k + 2) as nat)); }
//@ after match ty
    proof { reveal_with_fuel(ty_toks, 2); assert(self.said() =~= s0 + ty_body(nm, *ty)); }
//@ end
//@ fn ticc-core/src/pretty.rs Format::write_lambda_param
    ensures final(self).nm() == old(self).nm(), final(self).said() == old(self).said() + param_toks(old(self).nm(), *param),
//@ end
//@ fn ticc-core/src/pretty.rs Format::write_expr
    ensures final(self).nm() == old(self).nm(), final(self).said() == old(self).said() + toks(old(self).nm(), *expr, level(prec)),
    decreases *expr,
//@ head
    hide(toks); hide(body); hide(list); hide(branches); hide(ty_toks); hide(ty_body); hide(tys); hide(digits);
    hide(tk);
    broadcast use {assoc, none};
    let ghost nm = self.nm();
    let ghost pe = *expr;
    proof { toks_def(nm, pe, level(prec)); body_def(nm, pe); ty_var(nm); }
    let ghost s0 = self.said() + if expr_level(*expr) < level(prec) { pre("(") } else { Seq::empty() };
//@ before in ir :: Expr :: Call ( f , args ) => match args . as_slice
    proof { list_def(nm, *args, 0); list_def(nm, *args, 1); if args@.len() > 0 { assert(*expr == Expr::Call(*f, *args)); assert(decreases_to!(*expr => expr->Call_1)); assert(decreases_to!(expr->Call_1 => args@[0])); assert(decreases_to!(*expr => args@[0])); } }
//@ rule ?__vx_it_0 ( rest ) ==> __vx_it_0 ( rest . iter ( ) )
//@ loop 0
    invariant
        self.nm() == nm, *expr == Expr::Call(*f, *args), args@.len() > 0,
        vx_it0.seq().len() == args@.len() - 1,
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == args@[k + 1],
        self.said() == s0 + toks(nm, **f, 5) + both("(") + list(nm, *args, vx_it0.index() as nat + 1),
//@ loophead 0
    let ghost vx_k = vx_it0.index() as int;
    proof { assert(decreases_to!(*expr => expr->Call_1)); assert(decreases_to!(expr->Call_1 => args@[vx_k + 1])); assert(decreases_to!(*expr => args@[vx_k + 1])); }
//@ looptail 0
    proof { list_def(nm, *args, (vx_k + 2) as nat); assert(self.said() == s0 + toks(nm, **f, 5) + both("(") + list(nm, *args, (vx_k + 2) as nat)); }
//@ before in ir :: Expr :: Intrinsic ( i , args ) => match args . as_slice
    proof { list_def(nm, *args, 0); list_def(nm, *args, 1); if args@.len() > 0 { assert(*expr == Expr::Intrinsic(*i, *args)); assert(decreases_to!(*expr => expr->Intrinsic_1)); assert(decreases_to!(expr->Intrinsic_1 => args@[0])); assert(decreases_to!(*expr => args@[0])); } }
//@ rule ?__vx_it_1 ( rest ) ==> __vx_it_1 ( rest . iter ( ) )
//@ loop 1
    invariant
        self.nm() == nm, *expr == Expr::Intrinsic(*i, *args), args@.len() > 0,
        vx_it1.seq().len() == args@.len() - 1,
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == args@[k + 1],
        self.said() == s0 + intrinsic_toks(*i) + both("(") + list(nm, *args, vx_it1.index() as nat + 1),
//@ loophead 1
    let ghost vx_k = vx_it1.index() as int;
    proof { assert(decreases_to!(*expr => expr->Intrinsic_1)); assert(decreases_to!(expr->Intrinsic_1 => args@[vx_k + 1])); assert(decreases_to!(*expr => args@[vx_k + 1])); }
//@ looptail 1
    proof { list_def(nm, *args, (vx_k + 2) as nat); assert(self.said() == s0 + intrinsic_toks(*i) + both("(") + list(nm, *args, (vx_k + 2) as nat)); }
//@ rule ?__vx_it_2 ( rest ) ==> __vx_it_2 ( rest . iter ( ) )
//@ loop 2
    invariant
        self.nm() == nm, *expr == Expr::Lambda(*params, *e), params@.len() > 0,
        vx_it2.seq().len() == params@.len() - 1,
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == params@[k + 1],
        self.said() == s0 + pre("\\(") + params_all(nm, *params, vx_it2.index() as nat + 1),
//@ loophead 2
    let ghost vx_k = vx_it2.index() as int;
    proof { }
//@ looptail 2
    proof { assert(self.said() == s0 + pre("\\(") + params_all(nm, *params, (vx_k + 2) as nat)); }
//@ before in ir :: Expr :: Match ( d , bs ) => for b in
    proof { branches_def(nm, *bs, 0); }
//@ loop 3
    invariant
        self.nm() == nm, *expr == Expr::Match(*d, *bs),
        vx_it3.seq().len() == bs@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == bs@[k],
        self.said() == s0 + one("match") + toks(nm, **d, level(Prec::Apply)) + one("with") + branches(nm, *bs, vx_it3.index() as nat),
//@ loophead 3
    let ghost vx_b = vx_it3.index() as int;
    let ghost vx_s = self.said();
    proof { assert(decreases_to!(*expr => expr->Match_1)); assert(decreases_to!(expr->Match_1 => bs@[vx_b])); assert(decreases_to!(bs@[vx_b] => b.value)); assert(decreases_to!(*expr => b.value)); }
//@ looptail 3
    proof { branches_def(nm, *bs, (vx_b + 1) as nat); assert(self.said() == s0 + one("match") + toks(nm, **d, level(Prec::Apply)) + one("with") + branches(nm, *bs, (vx_b + 1) as nat)); }
//@ loop 4
    invariant
        self.nm() == nm,
        vx_it4.seq().len() == b.bindings@.len(),
        forall|k: int| 0 <= k < vx_it4.seq().len() ==> *(#[trigger] vx_it4.seq()[k]) == b.bindings@[k],
        self.said() == vx_s + one("|") + ctor_toks(nm, b.ctor) + binds(nm, b.bindings, vx_it4.index() as nat),
//@ looptail 4
    proof { assert(self.said() == vx_s + one("|") + ctor_toks(nm, b.ctor) + binds(nm, b.bindings, (vx_it4.index() + 1) as nat)); }
//@ rule ?__vx_it_5 ( rest ) ==> __vx_it_5 ( rest . iter ( ) )
//@ loop 5
    invariant
        self.nm() == nm, *expr == Expr::Construct(*ctor, *tys, *xs), tys@.len() > 0,
        vx_it5.seq().len() == tys@.len() - 1,
        forall|k: int| 0 <= k < vx_it5.seq().len() ==> *(#[trigger] vx_it5.seq()[k]) == tys@[k + 1],
        self.said() == s0 + ctor_toks(nm, *ctor) + both("[") + crate::tys(nm, *tys, vx_it5.index() as nat + 1),
//@ loophead 5
    let ghost vx_k = vx_it5.index() as int;
    proof { }
//@ looptail 5
    proof { tys_def(nm, *tys, (vx_k + 2) as nat); assert(self.said() == s0 + ctor_toks(nm, *ctor) + both("[") + crate::tys(nm, *tys, (vx_k + 2) as nat)); }
//@ before in ir :: Expr :: Construct ( ctor , tys , xs ) => match tys . as_slice
    proof { tys_def(nm, *tys, 0); tys_def(nm, *tys, 1); }
//@ before in ir :: Expr :: Construct ( ctor , tys , xs ) => match xs . as_slice
    proof { list_def(nm, *xs, 0); list_def(nm, *xs, 1); if xs@.len() > 0 { assert(*expr == Expr::Construct(*ctor, *tys, *xs)); assert(decreases_to!(*expr => expr->Construct_2)); assert(decreases_to!(expr->Construct_2 => xs@[0])); assert(decreases_to!(*expr => xs@[0])); } }
//@ rule ?__vx_it_6 ( rest ) ==> __vx_it_6 ( rest . iter ( ) )
//@ loop 6
    invariant
        self.nm() == nm, *expr == Expr::Construct(*ctor, *tys, *xs), xs@.len() > 0,
        vx_it6.seq().len() == xs@.len() - 1,
        forall|k: int| 0 <= k < vx_it6.seq().len() ==> *(#[trigger] vx_it6.seq()[k]) == xs@[k + 1],
        self.said() == s0 + ctor_toks(nm, *ctor) + ty_args(nm, *tys) + both("(") + list(nm, *xs, vx_it6.index() as nat + 1),
//@ loophead 6
    let ghost vx_k = vx_it6.index() as int;
    proof { assert(decreases_to!(*expr => expr->Construct_2)); assert(decreases_to!(expr->Construct_2 => xs@[vx_k + 1])); assert(decreases_to!(*expr => xs@[vx_k + 1])); }
//@ looptail 6
    proof { list_def(nm, *xs, (vx_k + 2) as nat); assert(self.said() == s0 + ctor_toks(nm, *ctor) + ty_args(nm, *tys) + both("(") + list(nm, *xs, (vx_k + 2) as nat)); }
//@ after in ir :: Expr :: Call ( f , args ) => self . builder . add_sticky_token ( ")" , Sticky :: Prev )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: Intrinsic ( i , args ) => self . builder . add_sticky_token ( ")" , Sticky :: Prev )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: If ( a , b , c ) => self . write_expr ( c , Prec :: Min )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: Op ( a , op , b ) => self . write_expr ( b , expr_prec . next ( ) )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: Lambda ( params , e ) => self . write_expr ( e , Prec :: Min )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: Match ( d , bs ) => self . builder . add_token ( "end" )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: Construct ( ctor , tys , xs ) => self . builder . add_sticky_token ( ")" , Sticky :: Prev )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: Let ( x , v , e ) => self . write_expr ( e , Prec :: Min )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: LetRec ( x , ty , v , e ) => self . write_expr ( e , Prec :: Min )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: Trap ( msg , ty ) => self . builder . add_sticky_token ( ")" , Sticky :: Prev )
    proof { assert(self.said() == s0 + body(nm, *expr)); }
//@ after in ir :: Expr :: Pi ( var , expr ) => self . write_expr ( expr , Prec :: Min )
    proof { assert(self.said() == s0 + body(nm, pe)); }
//@ after in ir :: Expr :: PiApply ( expr , ty ) => self . builder . add_sticky_token ( "]" , Sticky :: Prev )
    proof { assert(self.said() == s0 + body(nm, pe)); }
//@ before match expr
    proof { assert(self.said() == s0); }
//@ after match expr
    proof { assert(self.said() == s0 + body(nm, pe)); }
//@ end
//@ fn ticc-core/src/pretty.rs Format::write_def
    ensures final(self).nm() == old(self).nm(), final(self).said() == old(self).said() + def_toks(old(self).nm(), *def),
//@ head
    let ghost nm = self.nm();
    let ghost s0 = self.said();
//@ after self . builder . finish_node
    proof { assert(self.said() =~= s0 + def_toks(nm, *def)); }
//@ end
}
/// the texts of the definitions, a line feed after each of them that is not empty
spec fn joined(t: Seq<Seq<char>>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else {
        let a = joined(t.drop_last());
        (if a.len() > 0 { a.push('\n') } else { a }) + t.last()
    }
}
spec fn prints(p: Program<'_>, t: Seq<Seq<char>>) -> bool {
    t.len() <= p.defs@.len() && forall|i: int| 0 <= i < t.len() ==> says(#[trigger] t[i], def_toks(p.names, p.defs@[i]))
}
//@ fn ticc-core/src/pretty.rs pretty_print
//@ ret r
//@ rule ?$r:ident . len ( ) > 0 ==> vx_some ( & $r )
//@ rule ?$r:ident . push ( $x:rest ) ==> vx_push ( & mut $r , $x )
//@ rule ?$r:ident . push_str ( $x:rest ) ==> vx_push_str ( & mut $r , $x )
    ensures exists|t: Seq<Seq<char>>| t.len() == program.defs@.len() && #[trigger] prints(*program, t) && r@ == joined(t),
//@ before for def in
    let ghost mut t: Seq<Seq<char>> = Seq::empty();
//@ loop 0
    invariant
        vx_it0.seq().len() == program.defs@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == program.defs@[k],
        t.len() == vx_it0.index(), prints(*program, t), result@ == joined(t),
//@ loophead 0
    let ghost t0 = t;
    let ghost o0 = result@;
//@ looptail 0
    proof {
        let a = if o0.len() > 0 { o0.push('\n') } else { o0 };
        let own = result@.subrange(a.len() as int, result@.len() as int);
        assert forall|f: Seq<char>| result@ == #[trigger] (a + f) implies f == own by { assert(f =~= (a + f).subrange(a.len() as int, (a + f).len() as int)); }
        assert(result@ == a + own);
        assert(says(own, def_toks(program.names, *def)));
        t = t.push(own);
        assert(t.drop_last() =~= t0);
    }
//@ end
}
fn main() {}
