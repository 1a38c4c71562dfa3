//! C21: the types shown when hovering.
use super::{bad, Case, Check, Probe, Res};
use crate::gen::{self, Data, Field, Prog, What, E, T};
use crate::rng::Rng;
use crate::util;
use std::collections::HashMap;
use ticc::{CompilationUnit, NoopModuleResolver, Options, Pos};

pub const C21: Check = Check {
    id: "C21",
    quick: 6000,
    thorough: 150_000,
    rule: "random well-typed programs (see gen.rs), hovered at every position; the text shown and the span have to be those of the \
           innermost name or expression there, with the type found by an independent inference and printed with the fewest parentheses; \
           non-trivial: at least 20 places show something",
    case: c21,
    probes: c21_probes,
};

#[derive(Clone, Debug, PartialEq)]
enum Y { Int, Bool, Str, Fn(Box<Y>, Box<Y>), Data(usize, Vec<Y>), Rigid(usize), Meta(usize), Folded(Box<Y>, Box<Y>) }
fn fun(a: Y, b: Y) -> Y {
    Y::Fn(Box::new(a), Box::new(b))
}
struct Inf<'a> {
    p: &'a Prog,
    metas: Vec<Option<Y>>,
    exprs: HashMap<*const E, Y>,
    uses: HashMap<*const E, Name>,
    binds: HashMap<(*const E, usize, usize), (String, Y)>,
}
#[derive(Clone)]
enum Name { Local(String, Y), Top(usize), Ctor(String) }
type Env = Vec<(String, Name)>;
fn conv(t: &T, s: &[Y]) -> Y {
    match t {
        T::Int => Y::Int,
        T::Bool => Y::Bool,
        T::Str => Y::Str,
        T::Fn(a, b) => fun(conv(a, s), conv(b, s)),
        T::Data(d, a) => Y::Data(*d, a.iter().map(|x| conv(x, s)).collect()),
        T::Var(i) => s.get(*i).cloned().unwrap_or(Y::Rigid(*i)),
    }
}
fn ctor<'a>(ds: &'a [Data], c: &str) -> (usize, &'a [Field]) {
    for (i, d) in ds.iter().enumerate() {
        for (n, f) in &d.ctors {
            if n == c {
                return (i, f);
            }
        }
    }
    panic!("no constructor {}", c)
}
fn ctor_ty(ds: &[Data], c: &str, s: &[Y]) -> Y {
    let (d, fs) = ctor(ds, c);
    let own = Y::Data(d, s.to_vec());
    fs.iter().rev().fold(own.clone(), |r, f| fun(match f { Field::Rec => own.clone(), Field::T(t) => conv(t, s) }, r))
}
fn prim_ty(n: &str, s: Y) -> Y {
    use Y::*;
    match n {
        "iterate" => fun(Int, fun(fun(s.clone(), s.clone()), fun(s.clone(), s))),
        "stringLength" => fun(Str, Int),
        "stringConcat" => fun(Str, fun(Str, Str)),
        "stringCharAt" => fun(Int, fun(Str, Int)),
        "stringSubstring" => fun(Int, fun(Int, fun(Str, Str))),
        _ => fun(Int, Str),
    }
}
impl Inf<'_> {
    fn meta(&mut self) -> Y {
        self.metas.push(None);
        Y::Meta(self.metas.len() - 1)
    }
    fn head(&self, t: &Y) -> Y {
        match t {
            Y::Meta(m) => match &self.metas[*m] {
                Some(t) => self.head(t),
                None => t.clone(),
            },
            t => t.clone(),
        }
    }
    fn eq(&mut self, a: &Y, b: &Y) {
        match (self.head(a), self.head(b)) {
            (Y::Meta(m), Y::Meta(n)) if m == n => {}
            (Y::Meta(m), t) | (t, Y::Meta(m)) => self.metas[m] = Some(t),
            (Y::Fn(a, b), Y::Fn(c, d)) | (Y::Folded(a, b), Y::Folded(c, d)) => {
                self.eq(&a, &c);
                self.eq(&b, &d);
            }
            (Y::Data(a, x), Y::Data(b, y)) if a == b => x.iter().zip(&y).for_each(|(x, y)| self.eq(x, y)),
            (a, b) => assert!(a == b, "harness: {:?} and {:?}", a, b),
        }
    }
    fn e(&mut self, env: &Env, e: &E, want: &Y) {
        self.exprs.insert(e, want.clone());
        match e {
            E::Int(_) => self.eq(want, &Y::Int),
            E::Bool(_) => self.eq(want, &Y::Bool),
            E::Str(_) => self.eq(want, &Y::Str),
            E::Hole(_) => {}
            E::Qual(_, n) => {
                let m = self.meta();
                self.eq(want, &prim_ty(n, m));
            }
            E::Ctor(c) => {
                let n = self.p.datas[ctor(&self.p.datas, c).0].params;
                let s: Vec<Y> = (0..n).map(|_| self.meta()).collect();
                self.eq(want, &ctor_ty(&self.p.datas, c, &s));
                self.uses.insert(e, Name::Ctor(c.clone()));
            }
            E::Var(v) => {
                let n = env.iter().rev().find(|x| x.0 == *v).expect("harness: variable").1.clone();
                let t = match &n {
                    Name::Local(_, t) => t.clone(),
                    Name::Top(k) => {
                        let s: Vec<Y> = (0..3).map(|_| self.meta()).collect();
                        conv(&self.p.defs[*k].ty, &s)
                    }
                    Name::Ctor(_) => unreachable!(),
                };
                self.uses.insert(e, n);
                self.eq(want, &t);
            }
            E::Lam(x, b) | E::Fold(x, b) => {
                let (p, r) = (self.meta(), self.meta());
                self.eq(want, &fun(p.clone(), r.clone()));
                let t = if matches!(e, E::Fold(..)) { Y::Folded(Box::new(p), Box::new(r.clone())) } else { p };
                let env = self.bind(env, e, &[(x, 0, 0, t)]);
                self.e(&env, b, &r);
            }
            E::App(f, a) | E::Pipe(a, f) => {
                let p = self.meta();
                self.e(env, f, &fun(p.clone(), want.clone()));
                self.e(env, a, &p);
            }
            E::Op(a, o, b) => {
                self.e(env, a, &Y::Int);
                self.e(env, b, &Y::Int);
                self.eq(want, &if ["+", "-", "*", "/", "%"].contains(o) { Y::Int } else { Y::Bool });
            }
            E::If(c, a, b) => {
                self.e(env, c, &Y::Bool);
                self.e(env, a, want);
                self.e(env, b, want);
            }
            E::Let(n, t, v, r) => {
                let vt = match t {
                    Some(t) => conv(t, &[]),
                    None => self.meta(),
                };
                self.e(env, v, &vt);
                let env = self.bind(env, e, &[(n, 0, 0, vt)]);
                self.e(&env, r, want);
            }
            E::Match(d, cs) => {
                let dt = self.meta();
                self.e(env, d, &dt);
                let (own, rec) = match self.head(&dt) {
                    Y::Folded(a, b) => (*a, *b),
                    _ => (dt.clone(), dt.clone()),
                };
                for (i, (c, vs, b)) in cs.iter().enumerate() {
                    let (k, fs) = ctor(&self.p.datas, c);
                    let s: Vec<Y> = (0..self.p.datas[k].params).map(|_| self.meta()).collect();
                    self.eq(&own, &Y::Data(k, s.clone()));
                    let bs: Vec<_> = vs.iter().zip(fs).enumerate().map(|(j, (v, f))| (v, i, j, match f { Field::Rec => rec.clone(), Field::T(t) => conv(t, &s) })).collect();
                    let env = self.bind(env, e, &bs);
                    self.e(&env, b, want);
                }
            }
        }
    }
    fn bind(&mut self, env: &Env, e: &E, bs: &[(&String, usize, usize, Y)]) -> Env {
        let mut env = env.clone();
        for (x, i, j, t) in bs {
            env.push((x.to_string(), Name::Local(x.to_string(), t.clone())));
            self.binds.insert((e, *i, *j), (x.to_string(), t.clone()));
        }
        env
    }
    fn show(&self, t: &Y, prec: usize) -> String {
        let (s, own) = match self.head(t) {
            Y::Int => ("int".into(), 9),
            Y::Bool => ("bool".into(), 9),
            Y::Str => ("string".into(), 9),
            Y::Meta(_) => ("_".into(), 9),
            Y::Rigid(i) => (["ta", "tb", "tc"][i % 3].to_string(), 9),
            Y::Folded(a, b) => (format!("{{{} => {}}}", self.show(&a, 0), self.show(&b, 0)), 9),
            Y::Fn(a, b) => (format!("{} -> {}", self.show(&a, 1), self.show(&b, 0)), 0),
            Y::Data(d, a) => {
                let mut s = self.p.datas[d].name.clone();
                for x in &a {
                    s.push(' ');
                    s.push_str(&self.show(x, 2));
                }
                (s, if a.is_empty() { 9 } else { 1 })
            }
        };
        if own < prec { format!("({})", s) } else { s }
    }
}

fn c21(seed: u64, i: u64) -> Res {
    let r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C21");
    let p = gen::Gen::new(r.clone(), i % 4 == 3).program();
    let (src, marks) = gen::print_marked(&p, r.clone(), i % 3 == 0);
    util::note_input(&src);
    let mut inf = Inf { p: &p, metas: vec![], exprs: HashMap::new(), uses: HashMap::new(), binds: HashMap::new() };
    let mut env: Env = vec![];
    for (k, d) in p.defs.iter().enumerate() {
        inf.e(&env, &d.value, &conv(&d.ty, &[]));
        env.push((d.name.clone(), Name::Top(k)));
    }
    let ctor_doc = |c: &str| {
        let n = p.datas[ctor(&p.datas, c).0].params;
        let s: Vec<Y> = (0..n).map(Y::Rigid).collect();
        format!("{}: {}", c, inf.show(&ctor_ty(&p.datas, c, &s), 0))
    };
    let top_doc = |k: usize| format!("{}: {}", p.defs[k].name, inf.show(&conv(&p.defs[k].ty, &[]), 0));
    let mut unit = CompilationUnit::new(&src, Options { verify: true, optimize: false }, NoopModuleResolver::new());
    // what is expected at each offset: a name, or else the last expression
    let n = src.len();
    let mut want: Vec<Option<(usize, usize, String)>> = vec![None; n + 1];
    for names in [false, true] {
        for (a, b, w) in &marks {
            let doc = match w {
                What::Expr(e) => Some(inf.show(&inf.exprs[e], 0)),
                _ if !names => continue,
                What::Use(e) => Some(match &inf.uses[e] {
                    Name::Local(x, t) => format!("{}: {}", x, inf.show(t, 0)),
                    Name::Top(k) => top_doc(*k),
                    Name::Ctor(c) => ctor_doc(c),
                }),
                What::Bind(e, i, j) => {
                    let (x, t) = &inf.binds[&(*e, *i, *j)];
                    Some(format!("{}: {}", x, inf.show(t, 0)))
                }
                What::Case(c) | What::CtorDef(c) => Some(ctor_doc(c)),
                What::Ty(d) => Some(format!("{}: *{}", p.datas[*d].name, " -> *".repeat(p.datas[*d].params))),
                What::TyVar(i) => Some(format!("{}: *", ["ta", "tb", "tc"][i % 3])),
                What::Top(k) => Some(top_doc(*k)),
            };
            if matches!(w, What::Expr(_)) == names {
                continue;
            }
            for o in *a..=*b {
                want[o] = doc.clone().map(|d| (*a, *b, d));
            }
        }
    }
    let mut shown = 0;
    let step = if n > 1500 { 1 + n / 700 } else { 1 };
    for o in (0..=n).step_by(step) {
        if !src.is_char_boundary(o) || src[..o].lines().count() <= 1 {
            continue;
        }
        let got = unit.info(Pos::new(o as u32)).map(|i| (i.span.start().source_pos(), i.span.end().source_pos(), i.doc));
        let got = got.map(|(a, b, d)| (a as usize, b as usize, d));
        if got != want[o] {
            return Err(bad(&src, &format!("hovering at offset {}", o), format!("{:?}", want[o]), format!("{:?}", got)));
        }
        if got.is_some() {
            shown += 1;
        }
    }
    Ok(Case { input: src, nontrivial: shown >= 20, tags: vec![] })
}
fn c21_probes() -> Vec<Probe> {
    let probe = |name: &'static str, src: &'static str, at: &'static str, want: &'static str| {
        Probe::new(name, move || {
            let mut u = CompilationUnit::new(src, Options { verify: true, optimize: false }, NoopModuleResolver::new());
            let got = u.info(Pos::new(src.find(at).unwrap() as u32)).map(|i| i.doc);
            if got.as_deref() == Some(want) { Ok(()) } else { Err(bad(src, name, want, format!("{:?}", got))) }
        })
    };
    vec![
        probe("functions in functions", "let f : ((int -> int) -> int) -> int -> bool -> int = ?h;", "f :", "f: ((int -> int) -> int) -> int -> bool -> int"),
        probe("functions in types", "type l a = n | c a rec;\nlet f : l (l (int -> int)) -> l int = ?h;", "f :", "f: l (l (int -> int)) -> l int"),
        probe("unsolved", "let f : int = (\\x -> 1) ?h;", "?h", "_"),
    ]
}
