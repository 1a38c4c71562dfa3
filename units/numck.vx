// Unit `numck`: integer literals (C08).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ type ticc/src/compiler/numck.rs ParseError

pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// the number the first n digits denote in base ten
pub open spec fn value(s: Seq<char>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { 10 * value(s, (n - 1) as nat) + (s[n - 1] as nat - '0' as nat) as nat }
}
pub open spec fn two64() -> nat { 0x1_0000_0000_0000_0000 }

proof fn value_grows(s: Seq<char>, n: nat, m: nat)
    requires n <= m <= s.len(), digits(s),
    ensures value(s, n) <= value(s, m),
    decreases m,
{
    if n < m { value_grows(s, n, (m - 1) as nat); }
}

// std: char::to_digit(10), str::chars, str::is_empty (trusted as documented)
#[verifier::external_body]
fn vx_to_digit10(c: char) -> (r: Option<u32>)
    ensures digit(c) ==> r == Some((c as u32 - '0' as u32) as u32), !digit(c) ==> r is None { unimplemented!() }
#[verifier::external_body]
fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
fn vx_assert(b: bool) requires b {}

/// `a.and_then(|acc| acc.checked_add(x))`, by the definition of Option::and_then
fn vx_then_add(a: Option<u64>, x: u64) -> (r: Option<u64>)
    ensures r == (match a { Some(v) => if v + x < two64() { Some((v + x) as u64) } else { None }, None => None })
{ match a { Some(v) => v.checked_add(x), None => None } }

//@ fn ticc/src/compiler/numck.rs parse_int
//@ ret r
//@ rule assert ! ( ! s . is_empty ( ) ) ==> vx_assert ( ! vx_is_empty ( s ) )
//@ rule s . chars ( ) ==> vx_chars ( s )
//@ rule c . to_digit ( 10 ) ==> vx_to_digit10 ( c )
//@ rule acc . checked_mul ( 10 ) . and_then ( | acc | acc . checked_add ( $x:rest ) ) ==> vx_then_add ( acc . checked_mul ( 10 ) , $x )
    requires s@.len() > 0,
    ensures match r {
        Ok(v) => digits(s@) && v == value(s@, s@.len()),
        Err(_) => !(digits(s@) && value(s@, s@.len()) < two64()),
    },
//@ loop 0
    invariant
        vx_it0.seq() == s@,
        forall|k: int| 0 <= k < vx_it0.index() ==> digit(#[trigger] s@[k]),
        acc == value(s@, vx_it0.index() as nat),
//@ loophead 0
    proof {
        assert(c == s@[vx_it0.index() as int]);
        if digits(s@) { value_grows(s@, (vx_it0.index() + 1) as nat, s@.len()); }
    }
//@ end

// ---- reporting: exactly the bad literals, at the literal
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Span { s: u32 }
pub struct Tok { pub text: String, pub span: Span }
impl Tok {
    fn text(&self) -> (r: &str) ensures r@ == self.text@ { self.text.as_str() }
    fn span(&self) -> (r: Span) ensures r == self.span { self.span }
}
pub struct Num { pub token: Tok }
impl Num {
    fn token(&self) -> (r: &Tok) ensures *r == self.token { &self.token }
}
pub enum Severity { Error, Warning }
pub struct RawDiagnostic { pub message: u8, pub severity: Severity, pub span: Span }
#[verifier::external_body]
fn vx_msg(s: &str) -> u8 { unimplemented!() }

//@ expr ticc/src/compiler/numck.rs check_numbers
//@ closure 0
//@ params fn check_number(num: &Num, diagnostics: &mut Vec<RawDiagnostic>)
//@ rule err_fmt ! ( err ) ==> vx_msg ( err )
    requires num.token.text@.len() > 0,
    ensures ({
        let t = num.token.text@;
        if digits(t) && value(t, t.len()) < two64() { final(diagnostics)@ == old(diagnostics)@ }
        else {
            &&& final(diagnostics)@.len() == old(diagnostics)@.len() + 1
            &&& final(diagnostics)@.drop_last() == old(diagnostics)@
            &&& final(diagnostics)@.last().span == num.token.span
            &&& final(diagnostics)@.last().severity is Error
        }
    }),
//@ head
    let ghost d0 = diagnostics@;
    proof { assert forall|d: RawDiagnostic| #[trigger] d0.push(d).drop_last() == d0 by { assert(d0.push(d).drop_last() =~= d0); } }
//@ end

} // verus!
fn main() {}
