//! C12: printing of the core language, read back by the printed grammar.
use super::{bad, Case, Check, Probe, Res};
use crate::core::{self, Def, E, T};
use crate::rng::Rng;
use crate::util;

pub const C12: Check = Check {
    id: "C12",
    quick: 900_000,
    thorough: 3_000_000,
    rule: "core programs (well-typed ones, changed ones, and arbitrary nestings of all forms of expressions and types with any bytes in \
           strings) are printed and the text is read by a parser of the printed grammar; the definitions read have to be the ones printed; \
           non-trivial: the program has at least 8 expressions; tags: typed, arbitrary",
    case: c12,
    probes: c12_probes,
};

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    Word(String),
    Text(String),
    Sym(&'static str),
    Intr(usize),
}
const SYMS: [&str; 24] = ["#trap", "->", "==", "!=", "<=", ">=", "(", ")", "[", "]", ",", ":", ";", "=", "<", ">", "+", "-", "*", "/", "%", "|", "@", "."];
fn lex(s: &str) -> Result<Vec<Tk>, String> {
    let mut out = vec![];
    let mut i = 0;
    let b = s.as_bytes();
    'next: while i < s.len() {
        let c = b[i];
        if c == b' ' || c == b'\n' {
            i += 1;
            continue;
        }
        if c == b'"' {
            let mut j = i + 1;
            while j < s.len() && b[j] != b'"' {
                j += if b[j] == b'\\' { 2 } else { 1 };
            }
            if j >= s.len() {
                return Err("unterminated string".into());
            }
            out.push(Tk::Text(s[i + 1..j].into()));
            i = j + 1;
            continue;
        }
        if c.is_ascii_alphanumeric() || c == b'$' {
            let mut j = i;
            while j < s.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'$') {
                j += 1;
            }
            out.push(Tk::Word(s[i..j].into()));
            i = j;
            continue;
        }
        for (k, (_, t)) in core::INTR.iter().enumerate() {
            if s[i..].starts_with(t) {
                out.push(Tk::Intr(k));
                i += t.len();
                continue 'next;
            }
        }
        if c == b'\\' {
            out.push(Tk::Sym("\\"));
            i += 1;
            continue;
        }
        for t in SYMS {
            if s[i..].starts_with(t) {
                out.push(Tk::Sym(t));
                i += t.len();
                continue 'next;
            }
        }
        return Err(format!("unexpected {:?} at {}", s[i..].chars().next(), i));
    }
    Ok(out)
}
fn bytes(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            match b.get(i + 1) {
                Some(b'n') => out.push(b'\n'),
                Some(b'r') => out.push(b'\r'),
                Some(b'"') => out.push(b'"'),
                Some(b'\\') => out.push(b'\\'),
                Some(b'x') => {
                    out.push(s.get(i + 2..i + 4).and_then(|h| u8::from_str_radix(h, 16).ok()).ok_or("bad \\x")?);
                    i += 2;
                }
                _ => return Err("bad escape".into()),
            }
            i += 2;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Ok(out)
}
/// a Rust string literal without the quotes
fn rust_str(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            out.push(x);
            continue;
        }
        match c.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('\'') => out.push('\''),
            Some('"') => out.push('"'),
            Some('\\') => out.push('\\'),
            Some('u') => {
                let h: String = c.by_ref().skip(1).take_while(|x| *x != '}').collect();
                out.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad \\u")?);
            }
            _ => return Err("bad escape".into()),
        }
    }
    Ok(out)
}

struct P<'a> {
    t: Vec<Tk>,
    i: usize,
    debug: &'a [&'static str],
}
type R<X> = Result<X, String>;
impl P<'_> {
    fn is(&self, s: &str) -> bool {
        match self.t.get(self.i) {
            Some(Tk::Sym(x)) => *x == s,
            Some(Tk::Word(x)) => x == s,
            _ => false,
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        let r = self.is(s);
        if r {
            self.i += 1;
        }
        r
    }
    fn want(&mut self, s: &str) -> R<()> {
        if self.eat(s) { Ok(()) } else { Err(format!("expected {:?}, found {:?}", s, &self.t[self.i..self.t.len().min(self.i + 3)])) }
    }
    fn word(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(Tk::Word(w)) => {
                self.i += 1;
                Ok(w.clone())
            }
            t => Err(format!("expected a word, found {:?}", t)),
        }
    }
    fn text(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(Tk::Text(w)) => {
                self.i += 1;
                Ok(w.clone())
            }
            t => Err(format!("expected a text, found {:?}", t)),
        }
    }
    fn name(&mut self) -> R<usize> {
        let w = self.word()?;
        let (d, n) = w.rsplit_once('_').ok_or(format!("{:?} is no name", w))?;
        let n: usize = n.parse().map_err(|_| format!("{:?} is no name", w))?;
        if self.debug.get(n) != Some(&d) {
            return Err(format!("{:?} is no name of the program", w));
        }
        Ok(n)
    }
    fn tyvar(&mut self) -> R<usize> {
        let w = self.word()?;
        w.strip_prefix('t').and_then(|n| n.parse().ok()).ok_or(format!("{:?} is no type variable", w))
    }
    fn many<X>(&mut self, end: &str, f: fn(&mut Self) -> R<X>) -> R<Vec<X>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(f(self)?);
            if !self.eat(",") {
                self.want(end)?;
                return Ok(v);
            }
        }
    }
    fn ty(&mut self) -> R<T> {
        if self.is("(") {
            return self.paren_ty();
        }
        if self.eat("for") {
            let v = self.tyvar()?;
            self.want(".")?;
            return Ok(T::All(v, Box::new(self.ty()?)));
        }
        if self.ty_word() {
            return self.atom_ty();
        }
        let n = self.name()?;
        let mut args = vec![];
        while self.is("(") || matches!(self.t.get(self.i), Some(Tk::Word(_))) {
            args.push(self.atom_ty()?);
        }
        Ok(T::Named(n, args))
    }
    fn ty_word(&self) -> bool {
        matches!(self.t.get(self.i), Some(Tk::Word(w)) if !w.contains('_'))
    }
    fn atom_ty(&mut self) -> R<T> {
        if self.eat("(") {
            let t = self.ty()?;
            self.want(")")?;
            return Ok(t);
        }
        if self.eat("bool") {
            return Ok(T::Bool);
        }
        if self.eat("int") {
            return Ok(T::Int);
        }
        if self.eat("string") {
            return Ok(T::Str);
        }
        Ok(T::Var(self.tyvar()?))
    }
    fn paren_ty(&mut self) -> R<T> {
        self.want("(")?;
        let ps = self.many(")", |p| p.ty())?;
        self.want("->")?;
        Ok(T::Fn(ps, Box::new(self.ty()?)))
    }
    fn param(&mut self) -> R<(usize, T)> {
        let n = self.name()?;
        self.want(":")?;
        Ok((n, self.ty()?))
    }
    fn expr(&mut self) -> R<E> {
        if self.eat("if") {
            let a = self.sum()?;
            self.want("then")?;
            let b = self.expr()?;
            self.want("else")?;
            return Ok(E::If(Box::new(a), Box::new(b), Box::new(self.expr()?)));
        }
        if self.eat("\\") {
            self.want("(")?;
            let ps = self.many(")", |p| p.param())?;
            self.want("->")?;
            return Ok(E::Lam(ps, Box::new(self.expr()?)));
        }
        if self.eat("match") {
            let d = self.sum()?;
            self.want("with")?;
            let mut bs = vec![];
            while self.eat("|") {
                self.want("@")?;
                let c = self.name()?;
                let mut xs = vec![];
                while !self.eat("->") {
                    xs.push(self.name()?);
                }
                bs.push((c, xs, self.expr()?));
            }
            self.want("end")?;
            return Ok(E::Match(Box::new(d), bs));
        }
        if self.eat("let") {
            if self.eat("rec") {
                let n = self.name()?;
                self.want(":")?;
                let t = self.ty()?;
                self.want("=")?;
                let a = self.expr()?;
                self.want(";")?;
                return Ok(E::Rec(n, t, Box::new(a), Box::new(self.expr()?)));
            }
            let n = self.name()?;
            self.want("=")?;
            let a = self.expr()?;
            self.want(";")?;
            return Ok(E::Let(n, Box::new(a), Box::new(self.expr()?)));
        }
        if self.eat("Pi") {
            let v = self.tyvar()?;
            self.want("->")?;
            return Ok(E::Pi(v, Box::new(self.expr()?)));
        }
        let a = self.sum()?;
        self.rest(a, 5..11, |p| p.sum())
    }
    fn rest(&mut self, a: E, ops: std::ops::Range<usize>, f: fn(&mut Self) -> R<E>) -> R<E> {
        for o in ops {
            if self.eat(core::OPS[o].1) {
                return Ok(E::Op(Box::new(a), o, Box::new(f(self)?)));
            }
        }
        Ok(a)
    }
    fn sum(&mut self) -> R<E> {
        let a = self.product()?;
        self.rest(a, 0..2, |p| p.product())
    }
    fn product(&mut self) -> R<E> {
        let a = self.postfix()?;
        self.rest(a, 2..5, |p| p.postfix())
    }
    fn postfix(&mut self) -> R<E> {
        let mut a = self.atom()?;
        loop {
            if self.eat("(") {
                a = E::Call(Box::new(a), self.many(")", |p| p.expr())?);
            } else if self.eat("[") {
                let t = self.ty()?;
                self.want("]")?;
                a = E::Inst(Box::new(a), t);
            } else {
                return Ok(a);
            }
        }
    }
    fn atom(&mut self) -> R<E> {
        if self.eat("(") {
            let e = self.expr()?;
            self.want(")")?;
            return Ok(e);
        }
        if self.eat("@") {
            let c = self.name()?;
            let ts = if self.eat("[") { self.many("]", |p| p.ty())? } else { vec![] };
            self.want("(")?;
            return Ok(E::Con(c, ts, self.many(")", |p| p.expr())?));
        }
        if self.eat("#trap") {
            self.want("(")?;
            let m = rust_str(&self.text()?)?;
            self.want(",")?;
            let t = self.ty()?;
            self.want(")")?;
            return Ok(E::Trap(m, t));
        }
        match self.t.get(self.i).cloned() {
            Some(Tk::Intr(i)) => {
                self.i += 1;
                self.want("(")?;
                Ok(E::Intr(i, self.many(")", |p| p.expr())?))
            }
            Some(Tk::Text(s)) => {
                self.i += 1;
                Ok(E::Str(bytes(&s)?))
            }
            Some(Tk::Word(w)) => {
                if w == "true" || w == "false" {
                    self.i += 1;
                    return Ok(E::Bool(w == "true"));
                }
                if w.bytes().all(|b| b.is_ascii_digit()) {
                    self.i += 1;
                    return Ok(E::Int(w.parse().map_err(|_| format!("number {}", w))?));
                }
                Ok(E::Name(self.name()?))
            }
            t => Err(format!("expected an expression, found {:?}", t)),
        }
    }
    fn def(&mut self) -> R<Def> {
        let export = if self.eat("export") {
            self.want("(")?;
            let s = rust_str(&self.text()?)?;
            self.want(")")?;
            Some(s)
        } else {
            None
        };
        self.want("let")?;
        let name = self.name()?;
        self.want(":")?;
        let ty = self.ty()?;
        self.want("=")?;
        let value = self.expr()?;
        self.want(";")?;
        Ok(Def { name, export, ty, value })
    }
}
fn read(s: &str, debug: &[&'static str]) -> R<Vec<Def>> {
    let mut p = P { t: lex(s)?, i: 0, debug };
    let mut out = vec![];
    while p.i < p.t.len() {
        out.push(p.def()?);
    }
    Ok(out)
}

// ---------------------------------------------------------------- any nesting
fn any_ty(r: &mut Rng, d: usize) -> T {
    match r.below(if d == 0 { 4 } else { 8 }) {
        0 => T::Bool,
        1 => T::Int,
        2 => T::Str,
        3 => T::Var(r.below(30)),
        4 | 5 => T::Named(r.below(12), (0..r.below(3)).map(|_| any_ty(r, d - 1)).collect()),
        6 => T::Fn((0..r.below(3)).map(|_| any_ty(r, d - 1)).collect(), Box::new(any_ty(r, d - 1))),
        _ => T::All(r.below(30), Box::new(any_ty(r, d - 1))),
    }
}
fn any_str(r: &mut Rng) -> String {
    (0..r.below(5)).map(|_| ["a", "\"", "\\", "\n", "\t", "\u{7}", "'", "é", "\u{200b}", "x0", "\r", "\0", "{", "ſ"][r.below(14)]).collect()
}
fn any_es(r: &mut Rng, d: usize) -> Vec<E> {
    (0..r.below(4)).map(|_| any(r, d)).collect()
}
fn any(r: &mut Rng, d: usize) -> E {
    let n = |r: &mut Rng| r.below(12);
    if d == 0 || r.chance(1, 6) {
        return match r.below(8) {
            0 => E::Bool(r.chance(1, 2)),
            1 | 2 => E::Int([0, 7, 10, 99, 100, 12345, u64::MAX, 1 << 63][r.below(8)]),
            3 => E::Str((0..r.below(5)).map(|_| [b'a', b'"', b'\\', b'\n', b'\r', 0, 7, 31, 32, 126, 127, 128, 200, 255, b'x', b'0'][r.below(16)]).collect()),
            4 => E::Trap(any_str(r), any_ty(r, 2)),
            _ => E::Name(n(r)),
        };
    }
    let b = |r: &mut Rng| Box::new(any(r, d - 1));
    match r.below(15) {
        0 | 1 => E::Call(b(r), any_es(r, d - 1)),
        2 => E::If(b(r), b(r), b(r)),
        3 | 4 | 5 | 6 => E::Op(b(r), r.below(11), b(r)),
        7 => E::Intr(r.below(6), any_es(r, d - 1)),
        8 => E::Lam((0..r.below(3)).map(|_| (n(r), any_ty(r, 2))).collect(), b(r)),
        9 => E::Match(b(r), (0..r.below(3)).map(|_| (n(r), (0..r.below(3)).map(|_| n(r)).collect(), any(r, d - 1))).collect()),
        10 => E::Con(n(r), (0..r.below(3)).map(|_| any_ty(r, 2)).collect(), any_es(r, d - 1)),
        11 => E::Let(n(r), b(r), b(r)),
        12 => E::Rec(n(r), any_ty(r, 3), b(r), b(r)),
        13 => E::Pi(r.below(30), b(r)),
        _ => E::Inst(b(r), any_ty(r, 3)),
    }
}
fn size(e: &E) -> usize {
    1 + match e {
        E::Call(f, xs) => size(f) + xs.iter().map(size).sum::<usize>(),
        E::Intr(_, xs) | E::Con(_, _, xs) => xs.iter().map(size).sum(),
        E::If(a, b, c) => size(a) + size(b) + size(c),
        E::Op(a, _, b) | E::Let(_, a, b) | E::Rec(_, _, a, b) => size(a) + size(b),
        E::Lam(_, b) | E::Pi(_, b) | E::Inst(b, _) => size(b),
        E::Match(d, bs) => size(d) + bs.iter().map(|b| size(&b.2)).sum::<usize>(),
        _ => 0,
    }
}
fn judge(p: &core::Prog) -> Result<(), super::Bad> {
    let (prog, _) = core::convert(p);
    let input = format!("{:?}", p.defs);
    util::note_input(&input);
    let text = ticc_core::pretty_print(&prog);
    match read(&text, &p.debug[..p.limit]) {
        Ok(d) if d == p.defs => Ok(()),
        Ok(d) => Err(bad(&input, "the printed text says another program", format!("{:?}", p.defs), format!("{:?}\nfrom the text\n{}", d, text))),
        Err(e) => Err(bad(&input, "the printed text cannot be read", "definitions of the printed grammar", format!("{}\nin the text\n{}", e, text))),
    }
}
fn c12(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(104729)), "C12");
    let typed = r.chance(1, 3);
    let p = if typed {
        let (mut p, mut v) = core::Gen::new(r.clone()).program();
        for _ in 0..r.below(3) {
            core::mutate(&mut p, &mut v, &mut r);
        }
        p.limit = p.debug.len();
        p
    } else {
        let debug = ["a", "b", "let", "t", "x_y", "n1", "true", "if", "for", "end", "x9", "Cons"].to_vec();
        let d = 1 + r.below(5);
        let defs = (0..1 + r.below(3))
            .map(|_| Def { name: r.below(12), export: if r.chance(1, 3) { Some(any_str(&mut r)) } else { None }, ty: any_ty(&mut r, 3), value: any(&mut r, d) })
            .collect();
        core::Prog { limit: 12, debug, types: vec![], defs }
    };
    judge(&p)?;
    Ok(Case { input: format!("{:?}", p.defs), nontrivial: p.defs.iter().map(|d| size(&d.value)).sum::<usize>() >= 8, tags: vec![if typed { "typed" } else { "arbitrary" }] })
}
fn c12_probes() -> Vec<Probe> {
    let probe = |name: &'static str, e: E| {
        Probe::new(name, move || judge(&core::Prog { limit: 2, debug: vec!["f", "x"], types: vec![], defs: vec![Def { name: 0, export: None, ty: T::Int, value: e.clone() }] }))
    };
    let op = |o| E::Op(Box::new(E::Name(0)), o, Box::new(E::Name(1)));
    vec![
        probe("a sum as a callee", E::Call(Box::new(op(0)), vec![E::Int(1)])),
        probe("a product as a polymorphic value", E::Inst(Box::new(op(2)), T::Int)),
        probe("a difference as the right operand of a difference", E::Op(Box::new(E::Int(1)), 1, Box::new(op(1)))),
    ]
}
