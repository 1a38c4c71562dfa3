//! C07: the front end answers on every text, loses none of it, and finds exactly the syntax errors.
//! The lexer and the recognizer here are written from the language's description alone.
use super::{bad, Bad, Case, Check, Probe, Res};
use crate::checks::queries::{ask, Q};
use crate::rng::Rng;
use crate::{texts, util};
use ticc::{CompilationUnit, NoopModuleResolver, Options, Pos, Severity};

pub const C07: Check = Check {
    id: "C07",
    quick: 120_000,
    thorough: 4_000_000,
    rule: "valid, name-rich, broken and random texts (token soup, multi-byte characters, stray quotes and escapes); every query at positions all over the text; \
           the tokens against an independent lexer and the errors against an independent recognizer of the grammar; non-trivial: at least 8 tokens and a syntax error, \
           or at least 30 tokens without one",
    case: c07,
    probes: c07_probes,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { Kw(&'static str), Op(&'static str), Name, Hole, Num, Str, Comment, Bad }
const KW: &[&str] = &["import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "bool", "string", "true", "false", "fold", "rec"];
const OPS: &[&str] = &["<=", ">=", "==", "!=", "|>", "->", ":", "=", "+", "-", "*", "/", "%", "<", ">", "(", ")", "\\", "|", ",", ".", ";"];
/// the token at the start of `s`: the longest one; None: no token starts here
fn token(s: &str) -> Option<(T, usize)> {
    let b = s.as_bytes();
    let word = |from: usize| from + b[from..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count();
    let c = *b.first()?;
    if c.is_ascii_alphabetic() || c == b'_' {
        let n = word(0);
        return Some((KW.iter().find(|k| **k == &s[..n]).map(|k| T::Kw(k)).unwrap_or(T::Name), n));
    }
    if c.is_ascii_digit() {
        return Some((T::Num, word(0)));
    }
    if c == b'?' {
        let n = word(1);
        return if n > 1 { Some((T::Hole, n)) } else { None };
    }
    if c == b'"' {
        let n = 1 + s[1..].find(|c| c == '"' || c == '\n' || c == '\\').unwrap_or(s.len() - 1);
        return if s[n..].starts_with('"') { Some((T::Str, n + 1)) } else { None };
    }
    if s.starts_with("--") {
        return Some((T::Comment, s.find('\n').unwrap_or(s.len())));
    }
    OPS.iter().find(|o| s.starts_with(**o)).map(|o| (T::Op(o), o.len()))
}
fn blank(s: &str) -> usize {
    if s.starts_with("\r\n") {
        2
    } else if s.starts_with(' ') || s.starts_with('\n') {
        1
    } else {
        0
    }
}
/// characters that may go with the bad one at the start of `s`
fn bad_run(s: &str) -> usize {
    let c = s.chars().next().unwrap();
    match c {
        '"' => 1 + s[1..].find(|c| c == '"' || c == '\n' || c == '\\').unwrap_or(s.len() - 1),
        _ => c.len_utf8(),
    }
}
fn lex(s: &str) -> Vec<(T, usize, usize)> {
    let (mut p, mut out) = (0, vec![]);
    while p < s.len() {
        let n = blank(&s[p..]);
        if n > 0 {
            p += n;
            continue;
        }
        match token(&s[p..]) {
            Some((t, n)) => {
                out.push((t, p, p + n));
                p += n;
            }
            None => {
                let n = bad_run(&s[p..]);
                out.push((T::Bad, p, p + n));
                p += n;
            }
        }
    }
    out
}

/// the grammar; Err: the text does not follow it
struct R { t: Vec<T>, at: usize }
type Ok_ = Result<(), usize>;
impl R {
    fn is(&self, t: T) -> bool { self.t.get(self.at) == Some(&t) }
    fn kw(&self, k: &'static str) -> bool { self.is(T::Kw(k)) }
    fn op(&self, k: &'static str) -> bool { self.is(T::Op(k)) }
    fn eat(&mut self, t: T) -> bool {
        let b = self.is(t);
        self.at += b as usize;
        b
    }
    fn need(&mut self, t: T) -> Ok_ {
        if self.eat(t) { Ok(()) } else { Err(self.at) }
    }
    fn file(&mut self) -> Ok_ {
        while self.at < self.t.len() {
            self.item()?;
        }
        Ok(())
    }
    fn item(&mut self) -> Ok_ {
        if self.eat(T::Kw("import")) {
            self.eat(T::Name);
            if self.eat(T::Op("(")) {
                // names with commas between or after each
                while self.eat(T::Name) && self.eat(T::Op(",")) {}
                self.need(T::Op(")"))?;
            }
            self.need(T::Kw("from"))?;
            self.need(T::Str)?;
            return self.need(T::Op(";"));
        }
        self.eat(T::Kw("export"));
        if self.eat(T::Kw("let")) {
            self.binding()
        } else {
            self.need(T::Kw("type"))?;
            self.need(T::Name)?;
            while self.eat(T::Name) {}
            self.need(T::Op("="))?;
            self.eat(T::Kw("export"));
            self.eat(T::Op("|"));
            loop {
                self.need(T::Name)?;
                loop {
                    if self.field_starts() {
                        self.atom_type()?;
                    } else if !self.eat(T::Kw("rec")) {
                        break;
                    }
                }
                if !self.eat(T::Op("|")) {
                    break;
                }
            }
            self.need(T::Op(";"))
        }
    }
    /// name, optional type, `=`, value, `;`
    fn binding(&mut self) -> Ok_ {
        self.need(T::Name)?;
        if self.eat(T::Op(":")) {
            self.ty()?;
        }
        self.need(T::Op("="))?;
        self.expr()?;
        self.need(T::Op(";"))
    }
    fn field_starts(&self) -> bool {
        self.kw("int") || self.kw("bool") || self.kw("string") || self.is(T::Name) || self.op("(")
    }
    fn atom_type(&mut self) -> Ok_ {
        if self.eat(T::Kw("int")) || self.eat(T::Kw("bool")) || self.eat(T::Kw("string")) {
            Ok(())
        } else if self.eat(T::Op("(")) {
            self.ty()?;
            self.need(T::Op(")"))
        } else {
            self.need(T::Name)?;
            if self.eat(T::Op(".")) { self.need(T::Name) } else { Ok(()) }
        }
    }
    fn ty(&mut self) -> Ok_ {
        let named = self.is(T::Name);
        self.atom_type()?;
        while named && self.field_starts() {
            self.atom_type()?;
        }
        if self.eat(T::Op("->")) { self.ty() } else { Ok(()) }
    }
    fn expr(&mut self) -> Ok_ {
        if self.eat(T::Kw("let")) {
            self.binding()?;
            self.expr()
        } else if self.eat(T::Kw("if")) {
            self.expr()?;
            self.need(T::Kw("then"))?;
            self.expr()?;
            self.need(T::Kw("else"))?;
            self.expr()
        } else if self.eat(T::Op("\\")) {
            self.eat(T::Kw("fold"));
            self.need(T::Name)?;
            self.need(T::Op("->"))?;
            self.expr()
        } else if self.eat(T::Kw("match")) {
            self.expr()?;
            self.need(T::Kw("with"))?;
            while self.eat(T::Op("|")) {
                self.need(T::Name)?;
                if self.eat(T::Op(".")) {
                    self.need(T::Name)?;
                }
                while self.eat(T::Name) {}
                self.need(T::Op("->"))?;
                self.expr()?;
            }
            self.need(T::Kw("end"))
        } else {
            // operands separated by operators (the operands are applications)
            loop {
                self.atom()?;
                while self.atom_starts() {
                    self.atom()?;
                }
                if !["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"].iter().any(|o| self.op(o)) {
                    return Ok(());
                }
                self.at += 1;
            }
        }
    }
    fn atom_starts(&self) -> bool {
        self.op("(") || self.kw("true") || self.kw("false") || self.is(T::Num) || self.is(T::Str) || self.is(T::Name) || self.is(T::Hole)
    }
    fn atom(&mut self) -> Ok_ {
        if self.eat(T::Op("(")) {
            self.expr()?;
            return self.need(T::Op(")"));
        }
        if self.eat(T::Name) {
            return if self.eat(T::Op(".")) { self.need(T::Name) } else { Ok(()) };
        }
        if self.atom_starts() {
            self.at += 1;
            Ok(())
        } else {
            Err(self.at)
        }
    }
}

/// "bad token", or "expected" with a list of tokens; type errors have types there
fn syntactic(m: &str) -> bool {
    let token = |t: &str| ["definition", "type", "expression", "operator", "name", "hole", "number", "string", "bad token"].contains(&t) || t.len() > 2 && t.starts_with('`') && t.ends_with('`');
    match m.strip_prefix("expected ") {
        None => m == "bad token",
        Some(m) => {
            let (list, got) = m.split_once(", got ").map(|(a, b)| (a, Some(b))).unwrap_or((m, None));
            got.map(token).unwrap_or(true) && list.split(", ").flat_map(|p| p.split(" or ")).all(|t| token(t.strip_prefix("or ").unwrap_or(t)))
        }
    }
}

fn unit(src: &str) -> CompilationUnit {
    CompilationUnit::new(src, Options { verify: true, optimize: false }, NoopModuleResolver::new())
}
/// tokens and errors of one text; the number of tokens and whether it follows the grammar
fn check(src: &str) -> Result<(usize, bool), Bad> {
    let own = lex(src);
    let (toks, ds) = match util::catch(|| {
        let mut u = unit(src);
        let t: Vec<(usize, usize, String)> = u.tokens().map(|t| (t.span.start().source_pos(), t.span.end().source_pos(), format!("{:?}", t.kind))).collect();
        let d: Vec<(usize, usize, bool, String)> = u.diagnostics().map(|d| (d.span.start().source_pos(), d.span.end().source_pos(), d.severity == Severity::Error, d.message)).collect();
        (t, d)
    }) {
        Ok(x) => x,
        Err(p) => return Err(bad(src, "the front end panics", "tokens and diagnostics", p)),
    };
    let want: Vec<(usize, usize)> = own.iter().filter(|t| t.0 != T::Bad).map(|t| (t.1, t.2)).collect();
    let got: Vec<(usize, usize)> = toks.iter().map(|t| (t.0, t.1)).collect();
    if want != got {
        return Err(bad(src, "the tokens are not those of the text", format!("{:?}", want), format!("{:?}", got)));
    }
    for ((k, a, b), t) in own.iter().filter(|t| t.0 != T::Bad).zip(&toks) {
        let ok = match k {
            T::Kw(_) => t.2 == "Keyword",
            T::Op(o) => t.2 == if ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"].contains(o) { "Operator" } else { "Punctuation" },
            T::Name => ["Type", "TypeVariable", "Ctor", "Value", "Function"].contains(&t.2.as_str()),
            T::Hole => t.2 == "Value",
            T::Num => t.2 == "Number",
            T::Str => t.2 == "String",
            T::Comment => t.2 == "Comment",
            T::Bad => true,
        };
        if !ok {
            return Err(bad(src, &format!("the token {:?}", &src[*a..*b]), format!("{:?}", k), &t.2));
        }
    }
    for d in &ds {
        if d.0 > d.1 || d.1 > src.len() || !src.is_char_boundary(d.0) || !src.is_char_boundary(d.1) {
            return Err(bad(src, "a diagnostic outside the text", "0 <= start <= end <= length, at character boundaries", format!("{:?}", d)));
        }
    }
    let t: Vec<T> = own.iter().filter(|t| t.0 != T::Comment).map(|t| t.0).collect();
    let n = t.len();
    let mut g = R { t, at: 0 };
    let follows = g.file();
    let syntax: Vec<_> = ds.iter().filter(|d| d.2 && syntactic(&d.3)).collect();
    match follows {
        Ok(()) if syntax.is_empty() => {}
        Err(k) => {
            // the error is reported where the text stops following the grammar: at the token there, or after the last one
            let spans: Vec<(usize, usize)> = own.iter().filter(|t| t.0 != T::Comment).map(|t| (t.1, t.2)).collect();
            let at = match spans.get(k) {
                Some(s) => s.0,
                None => spans.last().map(|s| s.1).unwrap_or(0),
            };
            match syntax.first() {
                Some(d) if d.0 == at => {}
                other => return Err(bad(src, "a text with a syntax error", format!("an error at {}", at), format!("{:?}", other))),
            }
        }
        Ok(()) => return Err(bad(src, "a text that follows the grammar", "no syntax error", format!("{:?}", syntax))),
    }
    Ok((n, follows.is_ok()))
}
fn c07(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C07");
    let (src, tag) = texts::any(&mut r);
    util::note_input(&src);
    let (n, follows) = check(&src)?;
    for _ in 0..6 {
        let p = if r.chance(1, 8) { src.len() + r.below(3) } else { r.below(src.len() + 1) };
        for q in [Q::Definition(p), Q::References(p), Q::Info(p), Q::Completions(p)] {
            let a = util::catch(|| ask(&mut unit(&src), q));
            match a {
                Err(e) => return Err(bad(&format!("{}\n=== query {:?}", src, q), "the front end panics", "an answer", e)),
                Ok(a) => {
                    if r.chance(1, 4) {
                        let b = util::catch(|| ask(&mut unit(&src), q));
                        if b.as_deref().ok() != Some(a.as_str()) {
                            return Err(bad(&format!("{}\n=== query {:?}", src, q), "two answers for one text", &a, format!("{:?}", b)));
                        }
                    }
                }
            }
        }
        // spans of the answers
        let spans = util::catch(|| {
            let mut u = unit(&src);
            let p = Pos::new(p as u32);
            let mut v: Vec<ticc::Span> = vec![];
            v.extend(u.find_definition(p));
            v.extend(u.find_references(p).unwrap_or_default());
            v.extend(u.info(p).map(|i| i.span));
            v.into_iter().map(|s| (s.start().source_pos(), s.end().source_pos())).collect::<Vec<_>>()
        })
        .unwrap_or_default();
        for (a, b) in spans {
            if a > b || b > src.len() || !src.is_char_boundary(a) || !src.is_char_boundary(b) {
                return Err(bad(&format!("{}\n=== position {}", src, p), "an answer outside the text", "a part of the text", format!("{}..{}", a, b)));
            }
        }
    }
    Ok(Case { input: src, nontrivial: if follows { n >= 30 } else { n >= 8 }, tags: vec![tag, if follows { "grammatical" } else { "syntax error" }] })
}
fn c07_probes() -> Vec<Probe> {
    fn sequences(alphabet: &'static [&'static str], len: usize, prefix: &'static str, part: usize) -> impl Fn() -> Result<(), Bad> {
        move || {
            let mut ix = vec![0; len];
            loop {
                // the eighth of them in this part
                if ix.iter().sum::<usize>() % 8 == part {
                    let mut s = prefix.to_string();
                    for k in &ix {
                        s.push_str(alphabet[*k]);
                        s.push(' ');
                    }
                    util::note_input(&s);
                    check(&s)?;
                }
                let mut k = 0;
                loop {
                    if k == len {
                        return Ok(());
                    }
                    ix[k] += 1;
                    if ix[k] < alphabet.len() {
                        break;
                    }
                    ix[k] = 0;
                    k += 1;
                }
            }
        }
    }
    const ALL: &[&str] = &[
        "import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "bool", "string", "true", "false", "fold", "rec", ":", "=", "+", "-", "<", "==", "|>", "(",
        ")", "\\", "->", "|", ",", ".", ";", "x", "A", "?h", "12", "\"s\"", "\n", "--c\n", "!", "\"",
    ];
    const ITEM: &[&str] = &["export", "let", "type", "import", "x", "=", "(", ")", "1", ";", "|", "\nlet", "rec"];
    const EXPR: &[&str] = &["(", ")", "x", ".", "1", "+", "*", "==", ";", "\\", "->"];
    const TYPE: &[&str] = &["x", "int", "(", ")", ".", "->", "rec", "=", ";", ":"];
    let mut v = vec![];
    for part in 0..8 {
        v.extend([
        Probe::new("every token", sequences(ALL, 1, "", part)),
        Probe::new("every two tokens", sequences(ALL, 2, "", part)),
        Probe::new("every three tokens", sequences(ALL, 3, "", part)),
        Probe::new("every four tokens of an item", sequences(ITEM, 4, "", part)),
        Probe::new("every five tokens of an expression", sequences(EXPR, 5, "let x = ", part)),
        Probe::new("every four tokens of a type", sequences(TYPE, 4, "let x : ", part)),
        Probe::new("every four tokens of a constructor", sequences(TYPE, 4, "type t = A ", part)),
        Probe::new("every five characters", {
            move || {
                const C: &[char] = &['a', '0', '"', '-', '>', '|', '=', '!', '?', '\\', '\n', '\r', ' ', 'é', '_'];
                let mut n = part * 7;
                while n < C.len().pow(5) {
                    let mut k = n;
                    let mut s = String::new();
                    for _ in 0..5 {
                        s.push(C[k % C.len()]);
                        k /= C.len();
                    }
                    n += 8 * 7; // one in seven (the alphabet's size and 7 have no common divisor)
                    util::note_input(&s);
                    check(&s)?;
                }
                Ok(())
            }
        }),
        ]);
    }
    v
}
