//! Texts for the front end: valid programs, name-rich programs, and broken ones.
use crate::gen;
use crate::rgen::G;
use crate::rng::Rng;

const WORDS: &[&str] = &[
    "let", "match", "with", "if", "then", "else", "type", "export", "rec", "import", "from", "fold", "true", "false", "int", "bool", "string", "end",
    "x", "f", "Nil", "Cons", "list", "a", "_", "0", "12", "99999999999999999999", "1a", "\"s\"", "\"", "\"a\\n\"", "(", ")", ":", ";", ",", ".", "|", "|>",
    "->", "\\", "=", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "--c\n", "-- c", "\n", "\r\n", " ", "\t", "é", "日本", "𝄞", "\u{0}", "#", "'", "!", "&",
    "\u{301}", "\u{feff}", "\\n", "let x : int = 1;\n", "type t = A | B;\n", "_x", "X'", "?", "{", "}", "<(", ")>",
];
fn soup(r: &mut Rng) -> String {
    let n = r.below(25);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(WORDS[r.below(WORDS.len())]);
        if r.chance(1, 2) {
            s.push(' ');
        }
    }
    s
}
pub fn valid(r: &mut Rng) -> String {
    let k = r.next();
    let holes = r.chance(1, 3);
    let noise = r.chance(1, 2);
    let p = gen::Gen::new(Rng::new(k, "t"), holes).program();
    gen::print(&p, Rng::new(k, "tp"), noise)
}
fn named(r: &mut Rng) -> String {
    let (k, n) = (r.next(), 1 + r.below(5));
    let p = G::project(Rng::new(k, "tn"), 1, n, r.chance(2, 3));
    p.units.last().unwrap().src.clone()
}
/// cut points: character boundaries
fn at(r: &mut Rng, s: &str) -> usize {
    let mut k = r.below(s.len() + 1);
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    k
}
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..1 + r.below(3) {
        let (a, b) = (at(r, &s), at(r, &s));
        let (a, b) = (a.min(b), a.max(b));
        match r.below(7) {
            0 => s.truncate(b),
            1 => {
                let e = b.min(a + 1 + r.below(6));
                let e = (e..=b).find(|&k| s.is_char_boundary(k)).unwrap_or(b);
                s.replace_range(a..e, "");
            }
            2 | 3 => s.insert_str(a, WORDS[r.below(WORDS.len())]),
            4 => {
                let part = s[a..b].to_string();
                if part.len() < 200 {
                    let c = at(r, &s);
                    s.insert_str(c, &part);
                }
            }
            5 => s = s[b..].to_string(),
            _ => {
                let w = WORDS[r.below(WORDS.len())];
                let e = (a..=b).find(|&k| s.is_char_boundary(k) && s[a..k].ends_with(|c: char| c.is_whitespace())).unwrap_or(b);
                s.replace_range(a..e, w);
            }
        }
    }
    s
}
pub fn any(r: &mut Rng) -> (String, &'static str) {
    match r.below(8) {
        0 => (valid(r), "valid"),
        1 => (named(r), "named"),
        2 => (soup(r), "soup"),
        3 | 4 => {
            let s = valid(r);
            (mutate(r, &s), "broken")
        }
        5 | 6 => {
            let s = named(r);
            (mutate(r, &s), "broken")
        }
        _ => {
            let (a, b) = (named(r), soup(r));
            let k = at(r, &a);
            (format!("{}{}{}", &a[..k], b, &a[k..]), "broken")
        }
    }
}
