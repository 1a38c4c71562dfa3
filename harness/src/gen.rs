//! Random well-typed tic programs with an evaluator that shares nothing with the
//! code under test (own AST, own big-step evaluator, own value printer).
use crate::rng::Rng;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Int,
    Bool,
    Str,
    Fn(Box<T>, Box<T>),
    Data(usize, Vec<T>),
    Var(usize),
}

#[derive(Clone, Debug)]
pub enum Field {
    Rec,
    T(T),
}

#[derive(Clone, Debug)]
pub struct Data {
    pub name: String,
    pub params: usize,
    pub ctors: Vec<(String, Vec<Field>)>,
}

#[derive(Clone, Debug)]
pub enum E {
    Int(u64),
    Bool(bool),
    Str(String),
    Var(String),
    Qual(String, String),
    Ctor(String),
    Lam(String, Box<E>),
    Fold(String, Box<E>),
    App(Box<E>, Box<E>),
    Pipe(Box<E>, Box<E>),
    Op(Box<E>, &'static str, Box<E>),
    If(Box<E>, Box<E>, Box<E>),
    Let(String, Option<T>, Box<E>, Box<E>),
    Match(Box<E>, Vec<(String, Vec<String>, E)>),
    Hole(String),
}

pub struct Def {
    pub name: String,
    pub nvars: usize,
    pub ty: T,
    pub value: E,
    pub export: bool,
}

pub struct Prog {
    pub datas: Vec<Data>,
    pub defs: Vec<Def>,
    pub has_holes: bool,
}

pub const PRIMS: &[(&str, usize)] = &[
    ("iterate", 3),
    ("stringLength", 1),
    ("stringConcat", 2),
    ("stringCharAt", 2),
    ("stringSubstring", 3),
    ("stringFromChar", 1),
    ("intToString", 1),
];

fn prim_ty(n: &str) -> (usize, T) {
    use T::*;
    fn f(a: T, b: T) -> T {
        Fn(Box::new(a), Box::new(b))
    }
    match n {
        "iterate" => (1, f(Int, f(f(Var(0), Var(0)), f(Var(0), Var(0))))),
        "stringLength" => (0, f(Str, Int)),
        "stringConcat" => (0, f(Str, f(Str, Str))),
        "stringCharAt" => (0, f(Int, f(Str, Int))),
        "stringSubstring" => (0, f(Int, f(Int, f(Str, Str)))),
        "stringFromChar" => (0, f(Int, Str)),
        _ => (0, f(Int, Str)),
    }
}

pub struct Gen {
    pub r: Rng,
    datas: Vec<Data>,
    fresh: usize,
    holes: bool,
    hole_count: usize,
    budget: i64,
    shadow: bool,
}

#[derive(Clone)]
struct Entry {
    name: String,
    nvars: usize,
    ty: T,
    qual: bool,
}
type Ctx = Vec<Entry>;

fn subst(t: &T, s: &[T]) -> T {
    match t {
        T::Var(i) => s.get(*i).cloned().unwrap_or(T::Var(*i)),
        T::Fn(a, b) => T::Fn(Box::new(subst(a, s)), Box::new(subst(b, s))),
        T::Data(d, a) => T::Data(*d, a.iter().map(|x| subst(x, s)).collect()),
        t => t.clone(),
    }
}

/// first-order matching of a scheme's type against a wanted type
fn unify(t: &T, want: &T, s: &mut Vec<Option<T>>, base: usize) -> bool {
    match (t, want) {
        (T::Var(i), w) if *i >= base => {
            let i = *i - base;
            if let Some(old) = &s[i] {
                old == w
            } else {
                s[i] = Some(w.clone());
                true
            }
        }
        (T::Int, T::Int) | (T::Bool, T::Bool) | (T::Str, T::Str) => true,
        (T::Var(a), T::Var(b)) => a == b,
        (T::Fn(a, b), T::Fn(c, d)) => unify(a, c, s, base) && unify(b, d, s, base),
        (T::Data(a, x), T::Data(b, y)) => a == b && x.iter().zip(y).all(|(p, q)| unify(p, q, s, base)),
        _ => false,
    }
}
fn shift(t: &T, by: usize) -> T {
    match t {
        T::Var(i) => T::Var(i + by),
        T::Fn(a, b) => T::Fn(Box::new(shift(a, by)), Box::new(shift(b, by))),
        T::Data(d, a) => T::Data(*d, a.iter().map(|x| shift(x, by)).collect()),
        t => t.clone(),
    }
}
const BASE: usize = 1000;

impl Gen {
    pub fn new(r: Rng, holes: bool) -> Gen {
        Gen { r, datas: vec![], fresh: 0, holes, hole_count: 0, budget: 0, shadow: true }
    }

    fn name(&mut self) -> String {
        const POOL: &[&str] = &["a", "b", "x", "y", "acc", "f", "g", "n", "m", "s", "lets", "_x", "i2"];
        if self.shadow && self.r.chance(2, 3) {
            self.r.pick(POOL).to_string()
        } else {
            self.fresh += 1;
            format!("v{}", self.fresh)
        }
    }

    fn base_ty(&mut self, nv: usize, depth: usize) -> T {
        let k = self.r.below(if depth == 0 { 5 } else { 9 });
        match k {
            0 | 1 => T::Int,
            2 => T::Bool,
            3 => T::Str,
            4 => {
                if nv > 0 {
                    T::Var(self.r.below(nv))
                } else {
                    T::Int
                }
            }
            5 | 6 | 7 => {
                if self.datas.is_empty() {
                    return T::Bool;
                }
                let d = self.r.below(self.datas.len());
                let n = self.datas[d].params;
                T::Data(d, (0..n).map(|_| self.base_ty(nv, depth - 1)).collect())
            }
            _ => T::Fn(Box::new(self.base_ty(nv, depth - 1)), Box::new(self.base_ty(nv, depth - 1))),
        }
    }

    fn gen_data(&mut self, idx: usize) {
        let params = self.r.below(3);
        let nct = 1 + self.r.below(4);
        let mut ctors = Vec::new();
        // all data types may mention earlier ones only
        for c in 0..nct {
            let nf = if self.r.chance(1, 12) { 4 + self.r.below(8) } else { self.r.below(4) };
            let mut fields = Vec::new();
            for _ in 0..nf {
                if c > 0 && self.r.chance(1, 3) {
                    fields.push(Field::Rec);
                } else {
                    let t = self.base_ty(params, 1);
                    fields.push(Field::T(t));
                }
            }
            ctors.push((format!("C{}{}", idx, (b'A' + c as u8) as char), fields));
        }
        self.datas.push(Data { name: format!("D{}", idx), params, ctors });
    }

    /// can a closed value of this type always be built (type variables come from the context)?
    fn leaf(&mut self, ctx: &Ctx, t: &T, depth: usize) -> E {
        if depth > 6 {
            return self.hole();
        }
        // prefer a variable of exactly this type
        let vs = visible(ctx);
        let c: Vec<&Entry> = vs.iter().filter(|e| e.nvars == 0 && &e.ty == t).collect();
        if !c.is_empty() && self.r.chance(2, 3) {
            let e = self.r.pick(&c).to_owned().clone();
            return ref_of(&e);
        }
        match t {
            T::Int => E::Int(self.int()),
            T::Bool => E::Bool(self.r.chance(1, 2)),
            T::Str => E::Str(self.string()),
            T::Fn(a, b) => {
                let x = self.name();
                let mut c2 = ctx.clone();
                c2.push(Entry { name: x.clone(), nvars: 0, ty: (**a).clone(), qual: false });
                E::Lam(x, Box::new(self.leaf(&c2, b, depth + 1)))
            }
            T::Data(d, args) => {
                let (cn, fs) = self.datas[*d].ctors[0].clone();
                let mut e = E::Ctor(cn);
                for f in fs {
                    let ft = match f {
                        Field::Rec => t.clone(),
                        Field::T(ft) => subst(&ft, args),
                    };
                    let a = self.leaf(ctx, &ft, depth + 1);
                    e = E::App(Box::new(e), Box::new(a));
                }
                e
            }
            T::Var(_) => {
                if let Some(e) = c.first() {
                    ref_of(e)
                } else {
                    // maybe a function in the context returns it
                    for e in vs.iter().rev() {
                        if e.nvars == 0 {
                            if let T::Fn(a, b) = &e.ty {
                                if **b == *t && depth < 4 && !matches!(**a, T::Var(_)) {
                                    let arg = self.leaf(ctx, a, depth + 1);
                                    return E::App(Box::new(ref_of(e)), Box::new(arg));
                                }
                            }
                        }
                    }
                    self.hole()
                }
            }
        }
    }

    fn hole(&mut self) -> E {
        self.hole_count += 1;
        E::Hole(format!("?h{}", self.hole_count))
    }

    fn int(&mut self) -> u64 {
        match self.r.below(10) {
            0 => u64::MAX - self.r.below(3) as u64,
            1 => (1u64 << 63).wrapping_add(self.r.below(3) as u64).wrapping_sub(1),
            2 => (1u64 << 32).wrapping_add(self.r.below(3) as u64).wrapping_sub(1),
            3 => self.r.next(),
            4 => self.r.below(300) as u64,
            _ => self.r.below(8) as u64,
        }
    }

    fn string(&mut self) -> String {
        let n = match self.r.below(8) {
            0 => 0,
            1 => self.r.below(60),
            2 => self.r.below(200),
            _ => self.r.below(9),
        };
        const A: &[char] = &['a', 'b', ' ', 'z', '0', '9', '~', 'Q', '|', '-', 'ž', '☃'];
        (0..n).map(|_| *self.r.pick(A)).collect()
    }

    fn gen(&mut self, ctx: &Ctx, t: &T, depth: usize) -> E {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 {
            return self.leaf(ctx, t, 0);
        }
        if self.holes && self.r.chance(1, 40) {
            return self.hole();
        }
        let k = self.r.below(20);
        match k {
            0 | 1 => {
                // let, possibly annotated (annotated lets may be polymorphic)
                let n = self.name();
                let ann = self.r.chance(1, 2);
                let vt = self.base_ty(0, 2);
                let vt = if self.r.chance(1, 4) { t.clone() } else { vt };
                let v = self.gen(ctx, &vt, depth - 1);
                let mut c2 = ctx.clone();
                c2.push(Entry { name: n.clone(), nvars: 0, ty: vt.clone(), qual: false });
                let rest = self.gen(&c2, t, depth - 1);
                // an annotation may only mention types without enclosing type variables
                let ann = if ann && !has_var(&vt) { Some(vt) } else { None };
                E::Let(n, ann, Box::new(v), Box::new(rest))
            }
            2 | 3 => {
                let c = self.gen(ctx, &T::Bool, depth - 1);
                let a = self.gen(ctx, t, depth - 1);
                let b = self.gen(ctx, t, depth - 1);
                E::If(Box::new(c), Box::new(a), Box::new(b))
            }
            4 | 5 | 6 if !self.datas.is_empty() => {
                // match
                let d = self.r.below(self.datas.len());
                let n = self.datas[d].params;
                let args: Vec<T> = (0..n).map(|_| self.base_ty(0, 1)).collect();
                let dt = T::Data(d, args.clone());
                let discr = self.gen(ctx, &dt, depth - 1);
                let mut cs = self.datas[d].ctors.clone();
                if self.r.chance(1, 2) {
                    cs.reverse();
                }
                let mut cases = Vec::new();
                for (cn, fs) in cs {
                    let mut c2 = ctx.clone();
                    let mut vars: Vec<String> = Vec::new();
                    for f in fs {
                        let mut v = self.name();
                        while vars.contains(&v) {
                            self.fresh += 1;
                            v = format!("v{}", self.fresh);
                        }
                        let ft = match f {
                            Field::Rec => dt.clone(),
                            Field::T(x) => subst(&x, &args),
                        };
                        c2.push(Entry { name: v.clone(), nvars: 0, ty: ft, qual: false });
                        vars.push(v);
                    }
                    let body = self.gen(&c2, t, depth - 1);
                    cases.push((cn, vars, body));
                }
                E::Match(Box::new(discr), cases)
            }
            7 => {
                // immediately applied or piped lambda
                let at = self.base_ty(0, 1);
                let x = self.name();
                let mut c2 = ctx.clone();
                c2.push(Entry { name: x.clone(), nvars: 0, ty: at.clone(), qual: false });
                let body = self.gen(&c2, t, depth - 1);
                let arg = self.gen(ctx, &at, depth - 1);
                let lam = E::Lam(x, Box::new(body));
                if self.r.chance(1, 2) {
                    E::Pipe(Box::new(arg), Box::new(lam))
                } else {
                    E::App(Box::new(lam), Box::new(arg))
                }
            }
            8 if !self.datas.is_empty() => {
                // apply a fold to a value
                let d = self.r.below(self.datas.len());
                let n = self.datas[d].params;
                let args: Vec<T> = (0..n).map(|_| self.base_ty(0, 1)).collect();
                let dt = T::Data(d, args);
                let f = self.fold(ctx, &dt, t, depth - 1);
                let arg = self.gen(ctx, &dt, depth - 1);
                E::App(Box::new(f), Box::new(arg))
            }
            9 => {
                // iterate
                let n = self.r.below(4) as u64;
                let ft = T::Fn(Box::new(t.clone()), Box::new(t.clone()));
                let f = self.gen(ctx, &ft, depth - 1);
                let x = self.gen(ctx, t, depth - 1);
                app(E::Qual("intr".into(), "iterate".into()), vec![E::Int(n), f, x])
            }
            _ => {
                // use something from the context that ends in the wanted type
                if k < 15 {
                    if let Some(e) = self.use_ctx(ctx, t, depth) {
                        return e;
                    }
                }
                self.intro(ctx, t, depth)
            }
        }
    }

    fn fold(&mut self, ctx: &Ctx, dt: &T, res: &T, depth: usize) -> E {
        let T::Data(d, args) = dt else { unreachable!() };
        let p = {
            self.fresh += 1;
            format!("w{}", self.fresh)
        };
        // optional wrapping lambdas when the result is a function
        let mut res_t = res.clone();
        let mut c1 = ctx.clone();
        let mut lams = Vec::new();
        while let T::Fn(a, b) = res_t.clone() {
            if self.r.chance(1, 2) {
                break;
            }
            let x = self.name();
            c1.push(Entry { name: x.clone(), nvars: 0, ty: (*a).clone(), qual: false });
            lams.push(x);
            res_t = *b;
        }
        let mut cases = Vec::new();
        for (cn, fs) in self.datas[*d].ctors.clone() {
            let mut c2 = c1.clone();
            let mut vars: Vec<String> = Vec::new();
            for f in fs {
                let mut v = self.name();
                while vars.contains(&v) {
                    self.fresh += 1;
                    v = format!("v{}", self.fresh);
                }
                let ft = match f {
                    Field::Rec => res.clone(),
                    Field::T(x) => subst(&x, args),
                };
                c2.push(Entry { name: v.clone(), nvars: 0, ty: ft, qual: false });
                vars.push(v);
            }
            let body = self.gen(&c2, &res_t, depth.saturating_sub(1));
            cases.push((cn, vars, body));
        }
        let mut b = E::Match(Box::new(E::Var(p.clone())), cases);
        for x in lams.into_iter().rev() {
            b = E::Lam(x, Box::new(b));
        }
        E::Fold(p, Box::new(b))
    }

    fn use_ctx(&mut self, ctx: &Ctx, t: &T, depth: usize) -> Option<E> {
        let vs = visible(ctx);
        let mut cands: Vec<(Entry, Vec<T>)> = Vec::new();
        for e in vs.iter() {
            let mut cur = shift_free(&e.ty, e.nvars);
            let mut argts = Vec::new();
            loop {
                let mut s = vec![None; e.nvars];
                if unify(&cur, t, &mut s, BASE) {
                    let s: Vec<T> = s
                        .into_iter()
                        .map(|x| x.unwrap_or_else(|| self.base_ty(0, 1)))
                        .collect();
                    cands.push((e.clone(), argts.iter().map(|a: &T| subst_base(a, &s)).collect()));
                    if self.r.chance(2, 3) {
                        break;
                    }
                }
                match cur {
                    T::Fn(a, b) => {
                        argts.push(*a);
                        cur = *b;
                    }
                    _ => break,
                }
            }
        }
        if cands.is_empty() {
            return None;
        }
        let (e, args) = self.r.pick(&cands).clone();
        let mut ex = ref_of(&e);
        for (i, a) in args.iter().enumerate() {
            let av = if e.qual && e.name == "iterate" && i == 0 {
                E::Int(self.r.below(4) as u64)
            } else {
                self.gen(ctx, a, depth - 1)
            };
            ex = if i + 1 == args.len() && self.r.chance(1, 5) {
                E::Pipe(Box::new(av), Box::new(ex))
            } else {
                E::App(Box::new(ex), Box::new(av))
            };
        }
        Some(ex)
    }

    fn intro(&mut self, ctx: &Ctx, t: &T, depth: usize) -> E {
        match t {
            T::Int => {
                if self.r.chance(1, 5) {
                    return E::Int(self.int());
                }
                const OPS: &[&str] = &["+", "-", "*", "/", "%"];
                let op = *self.r.pick(OPS);
                let a = self.gen(ctx, &T::Int, depth - 1);
                let b = self.gen(ctx, &T::Int, depth - 1);
                E::Op(Box::new(a), op, Box::new(b))
            }
            T::Bool => {
                if self.r.chance(1, 6) {
                    return E::Bool(self.r.chance(1, 2));
                }
                const OPS: &[&str] = &["<", "<=", ">", ">=", "==", "!="];
                let op = *self.r.pick(OPS);
                let a = self.gen(ctx, &T::Int, depth - 1);
                let b = self.gen(ctx, &T::Int, depth - 1);
                E::Op(Box::new(a), op, Box::new(b))
            }
            T::Str => E::Str(self.string()),
            T::Fn(a, b) => {
                if let T::Data(..) = **a {
                    if self.r.chance(1, 2) {
                        return self.fold(ctx, a, b, depth);
                    }
                }
                let x = self.name();
                let mut c2 = ctx.clone();
                c2.push(Entry { name: x.clone(), nvars: 0, ty: (**a).clone(), qual: false });
                E::Lam(x, Box::new(self.gen(&c2, b, depth - 1)))
            }
            T::Data(d, args) => {
                let i = self.r.below(self.datas[*d].ctors.len());
                let (cn, fs) = self.datas[*d].ctors[i].clone();
                let mut e = E::Ctor(cn);
                for f in fs {
                    let ft = match f {
                        Field::Rec => t.clone(),
                        Field::T(x) => subst(&x, args),
                    };
                    let a = self.gen(ctx, &ft, depth - 1);
                    e = E::App(Box::new(e), Box::new(a));
                }
                e
            }
            T::Var(_) => self.leaf(ctx, t, 0),
        }
    }

    pub fn program(mut self) -> Prog {
        let nd = self.r.below(4);
        for i in 0..nd {
            self.gen_data(i);
        }
        let mut ctx: Ctx = PRIMS
            .iter()
            .map(|(n, _)| {
                let (nv, t) = prim_ty(n);
                Entry { name: n.to_string(), nvars: nv, ty: t, qual: true }
            })
            .collect();
        let n = 1 + self.r.below(6);
        let mut defs = Vec::new();
        for i in 0..n {
            let nv = if self.r.chance(1, 3) { 1 + self.r.below(2) } else { 0 };
            let ty = if nv > 0 {
                // a polymorphic function: parameters first, the result is built from them
                let mut params: Vec<T> = (0..nv).map(T::Var).collect();
                for _ in 0..self.r.below(2) {
                    let t = self.base_ty(nv, 2);
                    params.push(t);
                }
                let mut t = self.base_ty(nv, 2);
                for p in params.into_iter().rev() {
                    t = T::Fn(Box::new(p), Box::new(t));
                }
                t
            } else {
                self.base_ty(0, 2)
            };
            self.budget = 60;
            let d = 2 + self.r.below(4);
            let value = self.gen(&ctx, &ty, d);
            let name = format!("top{}", i);
            // the variables actually mentioned are quantified
            ctx.push(Entry { name: name.clone(), nvars: nv, ty: ty.clone(), qual: false });
            defs.push(Def { name, nvars: nv, ty, value, export: self.r.chance(4, 5) });
        }
        Prog { datas: self.datas, defs, has_holes: self.hole_count > 0 }
    }
}

fn has_var(t: &T) -> bool {
    match t {
        T::Var(_) => true,
        T::Fn(a, b) => has_var(a) || has_var(b),
        T::Data(_, a) => a.iter().any(has_var),
        _ => false,
    }
}
fn shift_free(t: &T, nvars: usize) -> T {
    if nvars > 0 {
        shift(t, BASE)
    } else {
        t.clone()
    }
}
fn subst_base(t: &T, s: &[T]) -> T {
    match t {
        T::Var(i) if *i >= BASE => s[*i - BASE].clone(),
        T::Fn(a, b) => T::Fn(Box::new(subst_base(a, s)), Box::new(subst_base(b, s))),
        T::Data(d, a) => T::Data(*d, a.iter().map(|x| subst_base(x, s)).collect()),
        t => t.clone(),
    }
}
fn visible(ctx: &Ctx) -> Vec<Entry> {
    let mut out: Vec<Entry> = Vec::new();
    for e in ctx.iter().rev() {
        if !out.iter().any(|o| o.name == e.name && o.qual == e.qual) {
            out.push(e.clone());
        }
    }
    out.reverse();
    out
}
fn ref_of(e: &Entry) -> E {
    if e.qual {
        E::Qual("intr".into(), e.name.clone())
    } else {
        E::Var(e.name.clone())
    }
}
pub fn app(f: E, args: Vec<E>) -> E {
    args.into_iter().fold(f, |f, a| E::App(Box::new(f), Box::new(a)))
}

// ------------------------------------------------------------------ printing

/// what stands at a place of the printed text
#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Expr(*const E),
    Use(*const E),
    Bind(*const E, usize, usize),
    Case(String),
    CtorDef(String),
    Ty(usize),
    TyVar(usize),
    Top(usize),
}
pub struct Printer {
    pub r: Rng,
    pub noise: bool,
    pub out: String,
    /// where tokens start
    pub starts: Vec<usize>,
    pub marks: Vec<(usize, usize, What)>,
}

impl Printer {
    fn tok(&mut self, t: &str) {
        if self.noise {
            match self.r.below(14) {
                0 => self.out.push_str("\n"),
                1 => self.out.push_str("  "),
                2 => self.out.push_str("\r\n   "),
                3 => self.out.push_str(" -- c|;end \"x\n"),
                _ => {}
            }
        }
        if !self.out.is_empty() && !self.out.ends_with(|c| c == ' ' || c == '\n') {
            self.out.push(' ');
        }
        self.starts.push(self.out.len());
        self.out.push_str(t);
    }
    fn mark(&mut self, t: &str, w: What) {
        self.tok(t);
        let e = self.out.len();
        self.marks.push((e - t.len(), e, w));
    }

    pub fn ty(&mut self, datas: &[Data], t: &T, atom: bool) {
        match t {
            T::Int => self.tok("int"),
            T::Bool => self.tok("bool"),
            T::Str => self.tok("string"),
            T::Var(i) => self.mark(["ta", "tb", "tc"][*i % 3], What::TyVar(*i)),
            T::Fn(a, b) => {
                if atom {
                    self.tok("(");
                }
                self.ty(datas, a, matches!(**a, T::Fn(..)));
                self.tok("->");
                self.ty(datas, b, false);
                if atom {
                    self.tok(")");
                }
            }
            T::Data(d, a) => {
                let paren = atom && !a.is_empty();
                if paren {
                    self.tok("(");
                }
                self.mark(&datas[*d].name, What::Ty(*d));
                for x in a {
                    self.ty(datas, x, true);
                }
                if paren {
                    self.tok(")");
                }
            }
        }
    }

    /// `prec`: minimal precedence the context accepts (0 = anything)
    pub fn expr(&mut self, datas: &[Data], e: &E, prec: u32) {
        let (own, open) = match e {
            E::Int(_) | E::Bool(_) | E::Str(_) | E::Var(_) | E::Qual(..) | E::Ctor(_) | E::Hole(_) => (100, false),
            E::App(..) => (50, false),
            E::Op(_, o, _) => (
                match *o {
                    "+" | "-" => 7,
                    "*" | "/" | "%" => 9,
                    _ => 3,
                },
                false,
            ),
            E::Pipe(..) => (1, false),
            E::Lam(..) | E::Fold(..) | E::If(..) | E::Let(..) | E::Match(..) => (0, true),
        };
        let paren = if open { prec > 0 } else { own < prec };
        let paren = paren || self.r.chance(1, 25);
        let first = (self.starts.len(), self.marks.len());
        self.marks.push((0, 0, What::Expr(e)));
        if paren {
            self.tok("(");
        }
        let inner = (self.starts.len(), self.marks.len());
        if paren {
            self.marks.push((0, 0, What::Expr(e)));
        }
        match e {
            E::Int(i) => {
                let s = i.to_string();
                let s = if self.r.chance(1, 20) { format!("0{}", s) } else { s };
                self.tok(&s)
            }
            E::Bool(b) => self.tok(if *b { "true" } else { "false" }),
            E::Str(s) => {
                let q = format!("\"{}\"", s);
                self.tok(&q)
            }
            E::Var(v) | E::Ctor(v) => self.mark(v, What::Use(e)),
            E::Hole(v) => self.tok(v),
            E::Qual(m, n) => {
                let q = format!("{}.{}", m, n);
                self.tok(&q)
            }
            E::App(f, a) => {
                self.expr(datas, f, 50);
                self.expr(datas, a, 100);
            }
            E::Op(a, o, b) => {
                self.expr(datas, a, own);
                self.tok(o);
                self.expr(datas, b, own + 1);
            }
            E::Pipe(a, b) => {
                self.expr(datas, a, 1);
                self.tok("|>");
                self.expr(datas, b, 2);
            }
            E::Lam(x, b) => {
                self.tok("\\");
                self.mark(x, What::Bind(e, 0, 0));
                self.tok("->");
                self.expr(datas, b, 0);
            }
            E::Fold(x, b) => {
                self.tok("\\");
                self.tok("fold");
                self.mark(x, What::Bind(e, 0, 0));
                self.tok("->");
                self.expr(datas, b, 0);
            }
            E::If(c, a, b) => {
                self.tok("if");
                self.expr(datas, c, 0);
                self.tok("then");
                self.expr(datas, a, 0);
                self.tok("else");
                self.expr(datas, b, 0);
            }
            E::Let(n, t, v, rest) => {
                self.tok("let");
                self.mark(n, What::Bind(e, 0, 0));
                if let Some(t) = t {
                    self.tok(":");
                    self.ty(datas, t, false);
                }
                self.tok("=");
                self.expr(datas, v, 0);
                self.tok(";");
                self.expr(datas, rest, 0);
            }
            E::Match(d, cs) => {
                self.tok("match");
                self.expr(datas, d, 0);
                self.tok("with");
                for (i, (c, vs, b)) in cs.iter().enumerate() {
                    self.tok("|");
                    self.mark(c, What::Case(c.clone()));
                    for (j, v) in vs.iter().enumerate() {
                        self.mark(v, What::Bind(e, i, j));
                    }
                    self.tok("->");
                    self.expr(datas, b, 0);
                }
                self.tok("end");
            }
        }
        if paren {
            let m = (self.starts[inner.0], self.out.len());
            self.marks[inner.1].0 = m.0;
            self.marks[inner.1].1 = m.1;
            self.tok(")");
        }
        self.marks[first.1].0 = self.starts[first.0];
        self.marks[first.1].1 = self.out.len();
    }
}

pub fn print(p: &Prog, r: Rng, noise: bool) -> String {
    print_marked(p, r, noise).0
}
/// the text, and what stands where in it
pub fn print_marked(p: &Prog, r: Rng, noise: bool) -> (String, Vec<(usize, usize, What)>) {
    let mut pr = Printer { r, noise, out: String::new(), starts: vec![], marks: vec![] };
    pr.out.push_str("import intr from \"std/intrinsics\";\n");
    for (k, d) in p.datas.iter().enumerate() {
        pr.out.push_str("export type ");
        pr.mark(&d.name, What::Ty(k));
        for i in 0..d.params {
            pr.mark(["ta", "tb", "tc"][i], What::TyVar(i));
        }
        pr.tok("=");
        pr.tok("export");
        for (i, (c, fs)) in d.ctors.iter().enumerate() {
            if i > 0 {
                pr.tok("|");
            }
            pr.mark(c, What::CtorDef(c.clone()));
            for f in fs {
                match f {
                    Field::Rec => pr.tok("rec"),
                    Field::T(t) => pr.ty(&p.datas, t, true),
                }
            }
        }
        pr.tok(";");
        pr.out.push('\n');
    }
    for (k, d) in p.defs.iter().enumerate() {
        if d.export {
            pr.tok("export");
        }
        pr.tok("let");
        pr.mark(&d.name, What::Top(k));
        pr.tok(":");
        pr.ty(&p.datas, &d.ty, false);
        pr.tok("=");
        pr.expr(&p.datas, &d.value, 0);
        pr.tok(";");
        pr.out.push('\n');
    }
    (pr.out, pr.marks)
}

// ---------------------------------------------------------------- evaluation

#[derive(Clone)]
pub enum V {
    I(u64),
    B(bool),
    S(Rc<Vec<u8>>),
    C(Rc<String>, Rc<Vec<V>>),
    F(Rc<F>),
}
pub enum F {
    Lam(Env, String, Rc<E>),
    Fold(Env, String, Rc<E>),
    Ctor(Rc<String>, usize, Vec<V>),
    Prim(&'static str, usize, Vec<V>),
}
pub type Env = Option<Rc<Node>>;
pub struct Node {
    name: String,
    v: V,
    next: Env,
}
fn bind(e: &Env, n: &str, v: V) -> Env {
    Some(Rc::new(Node { name: n.to_string(), v, next: e.clone() }))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Trap(String),
    Limit,
}

pub struct Ev<'a> {
    pub steps: u64,
    pub depth: u32,
    pub rec: HashMap<String, (usize, Vec<bool>)>,
    pub p: &'a Prog,
    pub traps: u32,
}

impl<'a> Ev<'a> {
    pub fn new(p: &'a Prog) -> Ev<'a> {
        let mut rec = HashMap::new();
        for d in &p.datas {
            for (c, fs) in &d.ctors {
                rec.insert(c.clone(), (fs.len(), fs.iter().map(|f| matches!(f, Field::Rec)).collect()));
            }
        }
        Ev { steps: 0, depth: 0, rec, p, traps: 0 }
    }

    fn apply(&mut self, f: V, a: V) -> Result<V, Stop> {
        self.steps += 1;
        if self.steps > 20_000 {
            return Err(Stop::Limit);
        }
        if self.depth > 300 {
            return Err(Stop::Limit);
        }
        self.depth += 1;
        let r = self.apply2(f, a);
        self.depth -= 1;
        r
    }
    fn apply2(&mut self, f: V, a: V) -> Result<V, Stop> {
        let V::F(f) = f else { panic!("not a function") };
        match &*f {
            F::Lam(env, x, b) => {
                let env = bind(env, x, a);
                self.eval(&env, b)
            }
            F::Fold(env, x, b) => {
                let V::C(c, fs) = a else { panic!("fold of non-data") };
                let recs = self.rec[&*c].1.clone();
                let mut out = Vec::new();
                for (v, r) in fs.iter().zip(recs) {
                    out.push(if r { self.apply(V::F(f.clone()), v.clone())? } else { v.clone() });
                }
                let env = bind(env, x, V::C(c, Rc::new(out)));
                self.eval(&env, b)
            }
            F::Ctor(c, n, args) => {
                let mut args = args.clone();
                args.push(a);
                Ok(if args.len() == *n {
                    V::C(c.clone(), Rc::new(args))
                } else {
                    V::F(Rc::new(F::Ctor(c.clone(), *n, args)))
                })
            }
            F::Prim(p, n, args) => {
                let mut args = args.clone();
                args.push(a);
                if args.len() == *n {
                    self.prim(p, args)
                } else {
                    Ok(V::F(Rc::new(F::Prim(p, *n, args))))
                }
            }
        }
    }

    fn prim(&mut self, p: &str, a: Vec<V>) -> Result<V, Stop> {
        fn i(v: &V) -> u64 {
            if let V::I(x) = v {
                *x
            } else {
                panic!()
            }
        }
        fn s(v: &V) -> Rc<Vec<u8>> {
            if let V::S(x) = v {
                x.clone()
            } else {
                panic!()
            }
        }
        Ok(match p {
            "iterate" => {
                let n = i(&a[0]);
                if n > 5000 {
                    return Err(Stop::Limit);
                }
                let mut x = a[2].clone();
                for _ in 0..n {
                    x = self.apply(a[1].clone(), x)?;
                }
                x
            }
            "stringLength" => V::I(s(&a[0]).len() as u64),
            "stringConcat" => {
                let mut v = (*s(&a[0])).clone();
                v.extend_from_slice(&s(&a[1]));
                if v.len() > 4000 {
                    return Err(Stop::Limit);
                }
                V::S(Rc::new(v))
            }
            "stringCharAt" => {
                let st = s(&a[1]);
                let ix = i(&a[0]);
                V::I(if ix < st.len() as u64 { st[ix as usize] as u64 } else { 0 })
            }
            "stringSubstring" => {
                let st = s(&a[2]);
                let n = st.len() as u64;
                let from = i(&a[0]).min(n);
                let len = i(&a[1]).min(n - from);
                V::S(Rc::new(st[from as usize..(from + len) as usize].to_vec()))
            }
            "stringFromChar" => V::S(Rc::new(vec![(i(&a[0]) % 256) as u8])),
            _ => V::S(Rc::new(i(&a[0]).to_string().into_bytes())),
        })
    }

    pub fn eval(&mut self, env: &Env, e: &E) -> Result<V, Stop> {
        self.steps += 1;
        if self.steps > 20_000 {
            return Err(Stop::Limit);
        }
        Ok(match e {
            E::Int(x) => V::I(*x),
            E::Bool(x) => V::B(*x),
            E::Str(s) => V::S(Rc::new(s.as_bytes().to_vec())),
            E::Var(n) => {
                let mut c = env;
                loop {
                    match c {
                        Some(n2) if n2.name == *n => break n2.v.clone(),
                        Some(n2) => c = &n2.next,
                        None => panic!("unbound {}", n),
                    }
                }
            }
            E::Qual(_, n) => {
                let (p, k) = PRIMS.iter().find(|(p, _)| p == n).unwrap();
                V::F(Rc::new(F::Prim(p, *k, vec![])))
            }
            E::Ctor(c) => {
                let n = self.rec[c].0;
                let c = Rc::new(c.clone());
                if n == 0 {
                    V::C(c, Rc::new(vec![]))
                } else {
                    V::F(Rc::new(F::Ctor(c, n, vec![])))
                }
            }
            E::Lam(x, b) => V::F(Rc::new(F::Lam(env.clone(), x.clone(), Rc::new((**b).clone())))),
            E::Fold(x, b) => V::F(Rc::new(F::Fold(env.clone(), x.clone(), Rc::new((**b).clone())))),
            E::App(f, a) => {
                // arguments first, as the compiled back ends do
                let a = self.eval(env, a)?;
                let f = self.eval(env, f)?;
                self.apply(f, a)?
            }
            E::Pipe(a, f) => {
                let a = self.eval(env, a)?;
                let f = self.eval(env, f)?;
                self.apply(f, a)?
            }
            E::Op(a, o, b) => {
                let V::I(a) = self.eval(env, a)? else { panic!() };
                let V::I(b) = self.eval(env, b)? else { panic!() };
                match *o {
                    "+" => V::I(a.wrapping_add(b)),
                    "-" => V::I(a.wrapping_sub(b)),
                    "*" => V::I(a.wrapping_mul(b)),
                    "/" => V::I(if b == 0 { 0 } else { a / b }),
                    "%" => V::I(if b == 0 { a } else { a % b }),
                    "<" => V::B(a < b),
                    "<=" => V::B(a <= b),
                    ">" => V::B(a > b),
                    ">=" => V::B(a >= b),
                    "==" => V::B(a == b),
                    _ => V::B(a != b),
                }
            }
            E::If(c, a, b) => {
                let V::B(c) = self.eval(env, c)? else { panic!() };
                if c {
                    self.eval(env, a)?
                } else {
                    self.eval(env, b)?
                }
            }
            E::Let(n, _, v, r) => {
                let v = self.eval(env, v)?;
                let env = bind(env, n, v);
                self.eval(&env, r)?
            }
            E::Match(d, cs) => {
                let V::C(c, fs) = self.eval(env, d)? else { panic!() };
                let (_, vs, b) = cs.iter().find(|x| x.0 == *c).expect("no case");
                let mut env = env.clone();
                for (v, f) in vs.iter().zip(fs.iter()) {
                    env = bind(&env, v, f.clone());
                }
                self.eval(&env, b)?
            }
            E::Hole(h) => return Err(Stop::Trap(format!("encountered {}", h))),
        })
    }

    /// what `ticc` should print for the program
    pub fn run(&mut self) -> Result<String, Stop> {
        let mut env: Env = None;
        for d in &self.p.defs {
            let v = self.eval(&env, &d.value)?;
            env = bind(&env, &d.name, v);
        }
        let mut out = String::new();
        for d in &self.p.defs {
            if d.export {
                let mut c = &env;
                let v = loop {
                    match c {
                        Some(n) if n.name == d.name => break n.v.clone(),
                        Some(n) => c = &n.next,
                        None => panic!(),
                    }
                };
                out.push_str(&d.name);
                out.push_str(" = ");
                show(&v, false, &mut out);
                out.push('\n');
            }
        }
        Ok(out)
    }
}

pub fn show(v: &V, atom: bool, out: &mut String) {
    match v {
        V::I(i) => out.push_str(&i.to_string()),
        V::B(b) => out.push_str(if *b { "true" } else { "false" }),
        V::S(s) => show_bytes(s, out),
        V::C(c, fs) => {
            let p = atom && !fs.is_empty();
            if p {
                out.push('(');
            }
            out.push_str(c);
            for f in fs.iter() {
                out.push(' ');
                show(f, true, out);
            }
            if p {
                out.push(')');
            }
        }
        V::F(_) => out.push_str(if atom { "(\\_ -> _)" } else { "\\_ -> _" }),
    }
}

pub fn show_bytes(s: &[u8], out: &mut String) {
    out.push('"');
    for &b in s {
        match b {
            b'"' => out.push_str("\\\""),
            b'\\' => out.push_str("\\\\"),
            b'\r' => out.push_str("\\r"),
            b'\n' => out.push_str("\\n"),
            32..=126 => out.push(b as char),
            b => out.push_str(&format!("\\x{:02x}", b)),
        }
    }
    out.push('"');
}
