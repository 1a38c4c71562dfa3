// Text positions: byte offsets, characters, lines and UTF-16 columns.
pub open spec fn utf8(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn utf16(c: char) -> nat { if (c as u32) < 0x10000 { 1 } else { 2 } }
/// byte offset of character k
pub open spec fn off(s: Seq<char>, k: nat) -> nat decreases k {
    if k == 0 { 0 } else { off(s, (k - 1) as nat) + utf8(s[k - 1]) }
}
/// UTF-16 units of the first k characters
pub open spec fn units(s: Seq<char>, k: nat) -> nat decreases k {
    if k == 0 { 0 } else { units(s, (k - 1) as nat) + utf16(s[k - 1]) }
}
/// line of character k: the line feeds before it
pub open spec fn line(s: Seq<char>, k: nat) -> nat decreases k {
    if k == 0 { 0 } else { line(s, (k - 1) as nat) + if s[k - 1] == '\n' { 1nat } else { 0 } }
}
/// column of character k: the UTF-16 units since the last line feed
pub open spec fn col(s: Seq<char>, k: nat) -> nat decreases k {
    if k == 0 { 0 } else if s[k - 1] == '\n' { 0 } else { col(s, (k - 1) as nat) + utf16(s[k - 1]) }
}
/// b is the offset of some character boundary
pub open spec fn boundary(s: Seq<char>, b: int) -> bool { exists|k: nat| k <= s.len() && #[trigger] off(s, k) == b }
/// the character at a boundary
pub open spec fn at(s: Seq<char>, b: int) -> nat { choose|k: nat| k <= s.len() && #[trigger] off(s, k) == b }

pub proof fn off_less(s: Seq<char>, j: nat, k: nat)
    requires j < k <= s.len(),
    ensures off(s, j) < off(s, k),
    decreases k,
{
    if j < k - 1 { off_less(s, j, (k - 1) as nat); }
}
pub proof fn at_off(s: Seq<char>, k: nat)
    requires k <= s.len(),
    ensures boundary(s, off(s, k) as int), at(s, off(s, k) as int) == k,
{
    let j = at(s, off(s, k) as int);
    assert(off(s, k) == off(s, k) as int);
    if j < k { off_less(s, j, k); } else if k < j { off_less(s, k, j); }
}
pub proof fn at_less(s: Seq<char>, a: int, b: int)
    requires boundary(s, a), boundary(s, b), a < b,
    ensures at(s, a) < at(s, b), at(s, b) <= s.len(),
{
    if at(s, b) < at(s, a) { off_less(s, at(s, b), at(s, a)); }
}
pub proof fn off_sub(s: Seq<char>, a: nat, b: nat, k: nat)
    requires a <= b <= s.len(), k <= b - a,
    ensures off(s.subrange(a as int, b as int), k) == off(s, a + k) - off(s, a),
    decreases k,
{
    if k > 0 { off_sub(s, a, b, (k - 1) as nat); }
}
pub proof fn units_sub(s: Seq<char>, a: nat, b: nat)
    requires a <= b <= s.len(),
    ensures units(s.subrange(a as int, b as int), (b - a) as nat) == units(s, b) - units(s, a), units(s, a) <= units(s, b),
    decreases b,
{
    if a < b {
        units_sub(s, a, (b - 1) as nat);
        let x = s.subrange(a as int, b as int);
        let y = s.subrange(a as int, b - 1);
        units_ext(x, y, (b - 1 - a) as nat);
    }
}
pub proof fn units_ext(x: Seq<char>, y: Seq<char>, k: nat)
    requires k <= x.len(), k <= y.len(), forall|i: int| 0 <= i < k ==> x[i] == y[i],
    ensures units(x, k) == units(y, k),
    decreases k,
{
    if k > 0 { units_ext(x, y, (k - 1) as nat); }
}
/// no line feed in [a, b): same line, the column grows by the units in between
pub proof fn same_line(s: Seq<char>, a: nat, b: nat)
    requires a <= b <= s.len(), forall|i: int| a <= i < b ==> s[i] != '\n',
    ensures line(s, b) == line(s, a), col(s, b) == col(s, a) + units(s, b) - units(s, a), units(s, a) <= units(s, b),
    decreases b,
{
    if a < b { same_line(s, a, (b - 1) as nat); }
}
pub proof fn line_grows(s: Seq<char>, a: nat, b: nat)
    requires a <= b <= s.len(),
    ensures line(s, a) <= line(s, b), line(s, b) <= b,
        (exists|i: int| a <= i < b && s[i] == '\n') ==> line(s, a) < line(s, b),
    decreases b,
{
    if a < b {
        line_grows(s, a, (b - 1) as nat);
    } else if a > 0 {
        line_grows(s, (a - 1) as nat, (b - 1) as nat);
    }
}

// std string functions (trusted as documented)
#[verifier::external_body]
fn vx_len(s: &str) -> (r: usize) ensures r == off(s@, s@.len()) { unimplemented!() }
/// `&s[a..]`
#[verifier::external_body]
fn vx_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires boundary(s@, a as int),
    ensures r@ == s@.subrange(at(s@, a as int) as int, s@.len() as int) { unimplemented!() }
/// `&s[a..b]`
#[verifier::external_body]
fn vx_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires boundary(s@, a as int), boundary(s@, b as int), a <= b,
    ensures r@ == s@.subrange(at(s@, a as int) as int, at(s@, b as int) as int) { unimplemented!() }
/// `s.char_indices()`
#[verifier::external_body]
fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> #[trigger] r@[k] == ((off(s@, k as nat) as usize), s@[k]),
        off(s@, s@.len()) <= usize::MAX { unimplemented!() }
#[verifier::external_body]
fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
/// `s.encode_utf16().count()`
#[verifier::external_body]
fn vx_utf16_count(s: &str) -> (r: usize) ensures r == units(s@, s@.len()) { unimplemented!() }
#[verifier::external_body]
fn vx_len_utf16(c: char) -> (r: usize) ensures r == utf16(c) { unimplemented!() }
