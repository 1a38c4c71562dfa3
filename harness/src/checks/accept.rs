//! C05: what the front end accepts becomes intermediate code that the validator accepts, with the annotated types.
use super::{bad, Case, Check, Probe, Res};
use crate::gen::{self, Data, Prog, E, T};
use crate::rng::Rng;
use crate::util;
use ticc::{CompilationUnit, NoopModuleResolver, Options, Severity};

pub const C05: Check = Check {
    id: "C05",
    quick: 15_000,
    thorough: 400_000,
    rule: "random well-typed programs, three quarters of them changed in one to three places (an expression replaced by another, \
           by a hole or by a literal, branches swapped, an argument dropped, added or moved, a local annotation dropped, \
           a part of an annotation replaced); whatever is accepted must give valid code with the annotated types, optimized \
           and not; nested folds whose values are used for each other are accepted exactly when their types agree; \
           non-trivial: the program is accepted",
    case,
    probes,
};

fn nodes(e: &mut E, out: &mut Vec<*mut E>) {
    out.push(e as *mut E);
    match e {
        E::Lam(_, b) | E::Fold(_, b) => nodes(b, out),
        E::App(a, b) | E::Pipe(a, b) | E::Op(a, _, b) | E::Let(_, _, a, b) => {
            nodes(a, out);
            nodes(b, out);
        }
        E::If(a, b, c) => {
            nodes(a, out);
            nodes(b, out);
            nodes(c, out);
        }
        E::Match(d, bs) => {
            nodes(d, out);
            for b in bs {
                nodes(&mut b.2, out);
            }
        }
        _ => {}
    }
}
fn types(t: &mut T, out: &mut Vec<*mut T>) {
    out.push(t as *mut T);
    match t {
        T::Fn(a, b) => {
            types(a, out);
            types(b, out);
        }
        T::Data(_, a) => {
            for x in a {
                types(x, out);
            }
        }
        _ => {}
    }
}
fn ground(r: &mut Rng, datas: &[Data], nvars: usize, depth: usize) -> T {
    match r.below(if depth == 0 { 4 } else { 7 }) {
        0 => T::Int,
        1 => T::Bool,
        2 => T::Str,
        3 if nvars > 0 => T::Var(r.below(nvars)),
        4 if !datas.is_empty() => {
            let d = r.below(datas.len());
            T::Data(d, (0..datas[d].params).map(|_| ground(r, datas, nvars, depth - 1)).collect())
        }
        5 => T::Fn(Box::new(ground(r, datas, nvars, depth - 1)), Box::new(ground(r, datas, nvars, depth - 1))),
        _ => T::Int,
    }
}

/// the pointers are used one at a time, between changes of the tree they are collected again
fn change(p: &mut Prog, r: &mut Rng) {
    let k = r.below(p.defs.len());
    let mut all = vec![];
    nodes(&mut p.defs[k].value, &mut all);
    let at = all[r.below(all.len())];
    let other = unsafe { (*all[r.below(all.len())]).clone() };
    let e = unsafe { &mut *at };
    match r.below(16) {
        0 => *e = other,
        1 => *e = E::Hole("m".into()),
        2 => {
            let mut vars: Vec<String> = all.iter().filter_map(|x| match unsafe { &**x } { E::Lam(n, _) | E::Fold(n, _) | E::Let(n, _, _, _) | E::Var(n) => Some(n.clone()), _ => None }).collect();
            for x in &all {
                if let E::Match(_, bs) = unsafe { &**x } {
                    for b in bs {
                        vars.extend(b.1.iter().cloned());
                    }
                }
            }
            if !vars.is_empty() {
                *e = E::Var(vars[r.below(vars.len())].clone());
            }
        }
        3 => {
            if let E::If(a, b, c) = e {
                match r.below(3) { 0 => std::mem::swap(a, b), 1 => std::mem::swap(b, c), _ => std::mem::swap(a, c) }
            } else {
                *e = E::If(Box::new(E::Bool(true)), Box::new(e.clone()), Box::new(other));
            }
        }
        4 => {
            if let E::Match(_, bs) = e {
                let (a, b) = (r.below(bs.len()), r.below(bs.len()));
                if r.chance(1, 2) {
                    let t = bs[a].2.clone();
                    bs[a].2 = std::mem::replace(&mut bs[b].2, t);
                } else if bs[a].1.len() > 1 {
                    bs[a].1.rotate_left(1);
                }
            }
        }
        5 => {
            if let E::App(f, _) = e {
                *e = (**f).clone();
            }
        }
        6 => *e = E::App(Box::new(e.clone()), Box::new(other)),
        7 => *e = E::Lam("mp".into(), Box::new(e.clone())),
        8 => {
            if let E::App(f, a) = e {
                std::mem::swap(f, a);
            } else if let E::Lam(_, b) = e {
                *e = (**b).clone();
            }
        }
        // a local definition without an annotation
        9 | 10 => *e = E::Let("ml".into(), None, Box::new(e.clone()), Box::new(E::Var("ml".into()))),
        11 => *e = E::Let("ml".into(), None, Box::new(other), Box::new(e.clone())),
        12 => {
            for x in &all {
                if let E::Let(_, t, _, _) = unsafe { &mut **x } {
                    if r.chance(1, 2) {
                        *t = None;
                    }
                }
            }
        }
        13 => {
            // used at two types
            *e = E::Let(
                "mi".into(),
                None,
                Box::new(E::Lam("mx".into(), Box::new(E::Var("mx".into())))),
                Box::new(gen::app(E::Var("mi".into()), vec![e.clone()])),
            );
        }
        14 => {
            if let E::Fold(n, b) = e {
                *e = E::Lam(n.clone(), b.clone());
            } else if let E::Lam(n, b) = e {
                *e = E::Fold(n.clone(), b.clone());
            }
        }
        _ => {
            let nv = p.defs[k].nvars;
            let t = ground(r, &p.datas, nv, 2);
            let mut ts = vec![];
            types(&mut p.defs[k].ty, &mut ts);
            let k = r.below(ts.len());
            unsafe { *ts[k] = t };
        }
    }
}

/// what the printer of the code writes for a type, brought to the shape of an annotation
#[derive(PartialEq, Debug, Clone)]
enum P {
    Name(String, Vec<P>),
    Fn(Vec<P>, Box<P>),
}
struct Rd<'a> {
    s: &'a [u8],
    i: usize,
}
impl Rd<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> Option<String> {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        if a == self.i { None } else { Some(String::from_utf8_lossy(&self.s[a..self.i]).into_owned()) }
    }
    fn atom(&mut self) -> Option<P> {
        if self.eat("(") {
            let t = self.ty()?;
            return if self.eat(")") { Some(t) } else { None };
        }
        Some(P::Name(self.word()?, vec![]))
    }
    fn ty(&mut self) -> Option<P> {
        self.ws();
        if self.s[self.i..].starts_with(b"(") {
            // parameters of a function, or a type in parentheses
            self.eat("(");
            let mut ts = vec![self.ty()?];
            while self.eat(",") {
                ts.push(self.ty()?);
            }
            if !self.eat(")") {
                return None;
            }
            if self.eat("->") {
                let out = self.ty()?;
                return Some(match out {
                    P::Fn(b, o) => P::Fn(ts.into_iter().chain(b).collect(), o),
                    o => P::Fn(ts, Box::new(o)),
                });
            }
            return if ts.len() == 1 { ts.pop() } else { None };
        }
        let h = self.word()?;
        let mut args = vec![];
        loop {
            self.ws();
            match self.s.get(self.i) {
                Some(c) if c.is_ascii_alphanumeric() || *c == b'(' => args.push(self.atom()?),
                _ => break,
            }
        }
        Some(P::Name(h, args))
    }
}
/// the annotation in that shape, with what stands for each variable
fn agrees(t: &T, p: &P, datas: &[Data], vars: &mut Vec<(usize, String)>) -> bool {
    match (t, p) {
        (T::Int, P::Name(n, a)) => n == "int" && a.is_empty(),
        (T::Bool, P::Name(n, a)) => n == "bool" && a.is_empty(),
        (T::Str, P::Name(n, a)) => n == "string" && a.is_empty(),
        (T::Var(i), P::Name(n, a)) => {
            if !a.is_empty() {
                return false;
            }
            match vars.iter().find(|(j, m)| j == i || m == n) {
                Some((j, m)) => j == i && m == n,
                None => {
                    vars.push((*i, n.clone()));
                    true
                }
            }
        }
        (T::Data(d, xs), P::Name(n, a)) => {
            n.rsplit_once('_').map(|x| x.0) == Some(datas[*d].name.as_str())
                && xs.len() == a.len()
                && xs.iter().zip(a).all(|(x, y)| agrees(x, y, datas, vars))
        }
        (T::Fn(..), P::Fn(ps, out)) => {
            let mut t = t;
            for p in ps {
                match t {
                    T::Fn(a, b) => {
                        if !agrees(a, p, datas, vars) {
                            return false;
                        }
                        t = b;
                    }
                    _ => return false,
                }
            }
            !matches!(t, T::Fn(..)) && agrees(t, out, datas, vars)
        }
        _ => false,
    }
}
fn check_types(p: &Prog, src: &str, ir: &str, opt: bool) -> Result<(), super::Bad> {
    for d in &p.defs {
        if !d.export {
            continue;
        }
        let head = format!("export(\"{}\") let ", d.name);
        let line = match ir.lines().find(|l| l.starts_with(&head)) {
            Some(l) => l,
            None => return Err(bad(src, "an exported definition is missing from the code", &d.name, ir.to_owned())),
        };
        let mut ty = line[head.len()..].splitn(2, " : ").nth(1).unwrap_or("");
        let mut quantified = vec![];
        while let Some(r) = ty.strip_prefix("for ") {
            let (v, rest) = r.split_once(" . ").unwrap_or((r, ""));
            quantified.push(v.to_owned());
            ty = rest;
        }
        let mut rd = Rd { s: ty.as_bytes(), i: 0 };
        let mut vars = vec![];
        let ok = match rd.ty() {
            Some(t) => rd.eat("=") && agrees(&d.ty, &t, &p.datas, &mut vars),
            None => false,
        };
        if !ok || !vars.iter().all(|(_, n)| quantified.contains(n)) || vars.len() != quantified.len() {
            return Err(bad(src, &format!("type of {} in the code (optimize={})", d.name, opt), format!("{:?}", d.ty), line.to_owned()));
        }
    }
    Ok(())
}

fn accepted(src: &str) -> bool {
    let mut u = CompilationUnit::new(src, Options { verify: true, optimize: false }, NoopModuleResolver::new());
    let errors = u.diagnostics().filter(|d| d.severity == Severity::Error).count();
    errors == 0
}
fn ir(src: &str, opt: bool) -> Result<String, String> {
    util::catch(|| CompilationUnit::new(src, Options { verify: true, optimize: opt }, NoopModuleResolver::new()).emit_ir())
}

/// two folds, one inside the other; the value taken apart inside is that of either, by a condition or not
fn folds(r: &mut Rng) -> Res {
    // (type, constructors)
    let data = [("a", "Na", "Ca"), ("b", "Nb", "Cb"), ("c int", "Nc", "Cc"), ("c bool", "Nc", "Cc")];
    let results = [("int", "7"), ("bool", "true"), ("string", "\"s\"")];
    let (a, ra) = (r.below(4), r.below(3));
    let (b, rb) = (if r.chance(1, 2) { a } else { r.below(4) }, if r.chance(1, 2) { ra } else { r.below(3) });
    let alike = a == b && ra == rb;
    let (sel, mut ok) = match r.below(5) {
        0 => ("y", true),
        1 => ("x", data[a].1 == data[b].1),
        2 => ("(if true then x else y)", alike),
        3 => ("(if true then y else x)", alike),
        _ => ("(match y with | @N -> x | @C n0 r0 -> y end)", alike),
    };
    let used = r.chance(1, 2);
    if used && sel == "x" {
        ok = ok && ra == rb;
    }
    let branches = format!("| {} -> {} | {} n q -> {}", data[b].1, results[rb].1, data[b].2, if used { "q" } else { results[rb].1 });
    let sel = sel.replace("@N", data[b].1).replace("@C", data[b].2);
    let src = format!(
        "type a = Na | Ca int rec;\ntype b = Nb | Cb int rec;\ntype c t = Nc | Cc t rec;\nexport let f : {} -> {} = \\fold x ->\n    \
         let g : {} -> {} = \\fold y -> match {} with {} end;\n    match x with | {} -> {} | {} n q -> q end;\n",
        data[a].0, results[ra].0, data[b].0, results[rb].0, sel, branches, data[a].1, results[ra].1, data[a].2
    );
    util::note_input(&src);
    if accepted(&src) != ok {
        return Err(bad(&src, "two folds, one in the other", if ok { "accepted" } else { "rejected: one type stands where another is expected" }, if ok { "rejected" } else { "accepted" }));
    }
    if ok {
        both(&src)?;
    }
    Ok(Case { input: src, nontrivial: ok, tags: vec!["folds"] })
}

fn case(seed: u64, i: u64) -> Res {
    if i % 32 == 5 {
        return folds(&mut Rng::new(seed.wrapping_add(i.wrapping_mul(6151)), "C05f"));
    }
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(6151)), "C05");
    let mut p = gen::Gen::new(r.clone(), i % 3 == 0).program();
    let mut tags = vec![];
    if i % 4 != 0 {
        for _ in 0..1 + r.below(3) {
            change(&mut p, &mut r);
        }
        tags.push("changed");
    }
    let src = gen::print(&p, r.clone(), false);
    util::note_input(&src);
    if !accepted(&src) {
        tags.push("rejected");
        return Ok(Case { input: src, nontrivial: false, tags });
    }
    tags.push("accepted");
    for opt in [false, true] {
        match ir(&src, opt) {
            Ok(s) => check_types(&p, &src, &s, opt)?,
            Err(m) => return Err(bad(&src, &format!("code of an accepted program (optimize={})", opt), "valid code", m)),
        }
    }
    Ok(Case { input: src, nontrivial: true, tags })
}

fn valid(src: &str) -> Result<(), super::Bad> {
    if !accepted(src) {
        return Err(bad(src, "a program that should be accepted", "no errors", "errors"));
    }
    both(src)
}
fn both(src: &str) -> Result<(), super::Bad> {
    for opt in [false, true] {
        if let Err(m) = ir(src, opt) {
            return Err(bad(src, &format!("code of an accepted program (optimize={})", opt), "valid code", m));
        }
    }
    Ok(())
}
/// rejected, or else valid
fn either(src: &str) -> Result<(), super::Bad> {
    if accepted(src) { both(src) } else { Ok(()) }
}

fn probes() -> Vec<Probe> {
    let mut v = vec![];
    v.push(Probe::new("top-level definition without an annotation", || either("let f = \\x -> x;\n")));
    v.push(Probe::new("types that stay open", || {
        valid("export type l a = Nil | Cons a rec;\nexport let h : int = let i = \\x -> x; 3;\nexport let h3 : int = match (let n : l a = Nil; ?q) with | Nil -> 0 | Cons q r -> 1 end;\n\
               export let h4 : int = let k = ?u; 3;\nexport let h5 : int = (\\p -> 3) (\\u -> u);\n").or_else(|_| {
            valid("export type l a = Nil | Cons a rec;\nexport let h : int = let i = \\x -> x; 3;\nexport let h4 : int = let k = ?u; 3;\nexport let h5 : int = (\\p -> 3) (\\u -> u);\nexport let h6 : int = match Nil with | Nil -> 0 | Cons q r -> 1 end;\n")
        })
    }));
    v.push(Probe::new("types that would contain themselves", || {
        for e in ["\\x -> x x", "(\\x -> x x) (\\x -> x x)", "\\f -> \\g -> f g (g f)", "let w = \\x -> x x; 5", "\\x -> let y = x; y x", "\\a -> \\b -> if a b then b a else b b"] {
            for t in ["int", "a -> a", "(a -> b) -> b", "a -> b", "a"] {
                either(&format!("export let v : {} = {};\n", t, e))?;
            }
        }
        Ok(())
    }));
    v.push(Probe::new("variables of the annotation", || {
        for (t, e) in [
            ("a -> b", "\\x -> x"), ("a -> int", "\\x -> x"), ("a -> a", "\\x -> 5"), ("a -> b -> a", "\\x -> \\y -> y"), ("a", "5"), ("a -> b", "\\x -> ?h"),
            ("a -> b -> b", "\\x -> \\y -> let f : a -> b = \\z -> z; f x"), ("a -> b -> a", "\\x -> \\y -> let f : b -> a = \\z -> x; f y"),
            ("a -> a", "\\x -> let f : a -> a = \\z -> z; f (f x)"), ("int -> int", "\\x -> let f : a -> a = \\z -> z; f x"),
            ("int -> int", "\\x -> let f : a -> a = \\z -> z; if f true then f x else 0"),
            ("(a -> a) -> int", "\\f -> f 5"), ("(a -> a) -> a -> a", "\\f -> \\x -> f (f x)"), ("(a -> b) -> (b -> c) -> a -> c", "\\f -> \\g -> \\x -> f (g x)"),
        ] {
            either(&format!("export let v : {} = {};\n", t, e))?;
        }
        Ok(())
    }));
    v.push(Probe::new("recursive types", || {
        let t = "export type tree a = Leaf | Node rec a rec;\nexport type box a b = Box (tree a) (a -> b);\n";
        for (ty, e) in [
            ("tree a -> int", "\\fold t -> match t with | Leaf -> 0 | Node l x r -> l + r + 1 end"),
            ("tree a -> int", "\\fold t -> match t with | Leaf -> 0 | Node l x r -> x end"),
            ("tree a -> tree a", "\\fold t -> match t with | Leaf -> Leaf | Node l x r -> Node r x l end"),
            ("tree a -> tree a", "\\fold t -> t"),
            ("tree a -> tree a", "\\t -> match t with | Leaf -> Leaf | Node l x r -> match l with | Leaf -> r | Node a b c -> Node a x c end end"),
            ("tree a -> int", "\\t -> match t with | Leaf -> 0 | Node l x r -> l + r + 1 end"),
            ("tree int -> int", "\\fold t -> match t with | Leaf -> 0 | Node l x r -> l + x end"),
            ("tree bool -> int", "\\fold t -> match t with | Leaf -> 0 | Node l x r -> l + x end"),
            ("box a b -> tree b", "\\p -> match p with | Box t f -> (\\fold u -> match u with | Leaf -> Leaf | Node l x r -> Node l (f x) r end) t end"),
            ("box a b -> tree b", "\\p -> match p with | Box t f -> t end"),
            ("tree a -> tree b -> int", "\\fold t -> \\u -> match t with | Leaf -> 0 | Node l x r -> match u with | Leaf -> 1 | Node a b c -> l a + r c end end"),
            ("tree a -> int", "\\fold t -> match t with | Leaf -> 0 | Node l x r -> match l with | Leaf -> 1 | Node a b c -> 2 end end"),
        ] {
            either(&format!("{}export let v : {} = {};\n", t, ty, e))?;
        }
        Ok(())
    }));
    v
}
