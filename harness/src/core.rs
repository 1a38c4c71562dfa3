//! A second view of the core language: terms with numbered names, a generator of
//! well-typed programs, mutations, and a typing judgement written independently of
//! ticc-core's validator (binders by syntax, types compared as de Bruijn terms).
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};
use ticc_core::ir;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum T { Bool, Int, Str, Var(usize), Named(usize, Vec<T>), Fn(Vec<T>, Box<T>), All(usize, Box<T>) }
#[derive(Clone, PartialEq, Debug)]
pub enum E {
    Bool(bool),
    Int(u64),
    Str(Vec<u8>),
    Name(usize),
    Call(Box<E>, Vec<E>),
    If(Box<E>, Box<E>, Box<E>),
    Op(Box<E>, usize, Box<E>),
    Intr(usize, Vec<E>),
    Lam(Vec<(usize, T)>, Box<E>),
    Match(Box<E>, Vec<(usize, Vec<usize>, E)>),
    Con(usize, Vec<T>, Vec<E>),
    Let(usize, Box<E>, Box<E>),
    Rec(usize, T, Box<E>, Box<E>),
    Pi(usize, Box<E>),
    Inst(Box<E>, T),
    Trap(String, T),
}
#[derive(Clone, Debug)]
pub struct Ty { pub name: usize, pub vars: Vec<usize>, pub cases: Vec<(usize, Vec<T>)> }
#[derive(Clone, Debug, PartialEq)]
pub struct Def { pub name: usize, pub export: Option<String>, pub ty: T, pub value: E }
#[derive(Clone, Debug)]
pub struct Prog { pub limit: usize, pub debug: Vec<&'static str>, pub types: Vec<Ty>, pub defs: Vec<Def> }

pub const OPS: [(ir::Op, &str); 11] = [
    (ir::Op::Add, "+"), (ir::Op::Subtract, "-"), (ir::Op::Multiply, "*"), (ir::Op::Divide, "/"), (ir::Op::Modulo, "%"),
    (ir::Op::Less, "<"), (ir::Op::LessEq, "<="), (ir::Op::Greater, ">"), (ir::Op::GreaterEq, ">="), (ir::Op::Equal, "=="), (ir::Op::NotEqual, "!="),
];
pub const INTR: [(ir::Intrinsic, &str); 6] = [
    (ir::Intrinsic::StringLen, "%stringLen"), (ir::Intrinsic::StringConcat, "%stringConcat"), (ir::Intrinsic::StringCharAt, "%stringCharAt"),
    (ir::Intrinsic::StringSubstring, "%stringSubstring"), (ir::Intrinsic::StringFromChar, "%stringFromChar"), (ir::Intrinsic::IntToString, "%intToString"),
];
pub fn intr_ty(i: usize) -> (Vec<T>, T) {
    match i {
        0 => (vec![T::Str], T::Int),
        1 => (vec![T::Str, T::Str], T::Str),
        2 => (vec![T::Int, T::Str], T::Int),
        3 => (vec![T::Int, T::Int, T::Str], T::Str),
        4 => (vec![T::Int], T::Str),
        _ => (vec![T::Int], T::Str),
    }
}

// ---------------------------------------------------------------- to ticc-core
pub struct Conv { pub names: Vec<ir::Name>, pub tvs: Vec<ir::TyVar> }
impl Conv {
    pub fn ty(&self, t: &T) -> ir::Ty {
        match t {
            T::Bool => ir::Ty::Bool,
            T::Int => ir::Ty::Int,
            T::Str => ir::Ty::String,
            T::Var(v) => ir::Ty::Var(self.tvs[*v]),
            T::Named(n, ts) => ir::Ty::Named(self.names[*n], ts.iter().map(|t| self.ty(t)).collect()),
            T::Fn(ps, r) => ir::Ty::Fn(ps.iter().map(|t| self.ty(t)).collect(), Box::new(self.ty(r))),
            T::All(v, t) => ir::Ty::Abs(self.tvs[*v], Box::new(self.ty(t))),
        }
    }
    pub fn es(&self, xs: &[E]) -> Vec<ir::Expr> {
        xs.iter().map(|x| self.e(x)).collect()
    }
    fn b(&self, e: &E) -> Box<ir::Expr> {
        Box::new(self.e(e))
    }
    pub fn e(&self, e: &E) -> ir::Expr {
        match e {
            E::Bool(b) => ir::Expr::Bool(*b),
            E::Int(i) => ir::Expr::Int(*i),
            E::Str(s) => ir::Expr::String(ir::ByteString::from(s.clone())),
            E::Name(n) => ir::Expr::Name(self.names[*n]),
            E::Call(f, xs) => ir::Expr::Call(self.b(f), self.es(xs)),
            E::If(a, b, c) => ir::Expr::If(self.b(a), self.b(b), self.b(c)),
            E::Op(a, o, b) => ir::Expr::Op(self.b(a), OPS[*o].0, self.b(b)),
            E::Intr(i, xs) => ir::Expr::Intrinsic(INTR[*i].0, self.es(xs)),
            E::Lam(ps, b) => ir::Expr::Lambda(ps.iter().map(|(n, t)| ir::LambdaParam { name: self.names[*n], ty: self.ty(t) }).collect(), self.b(b)),
            E::Match(d, bs) => ir::Expr::Match(
                self.b(d),
                bs.iter().map(|(c, ns, v)| ir::Branch { ctor: self.names[*c], bindings: ns.iter().map(|n| self.names[*n]).collect(), value: self.e(v) }).collect(),
            ),
            E::Con(c, ts, xs) => ir::Expr::Construct(self.names[*c], ts.iter().map(|t| self.ty(t)).collect(), self.es(xs)),
            E::Let(n, a, b) => ir::Expr::Let(self.names[*n], self.b(a), self.b(b)),
            E::Rec(n, t, a, b) => ir::Expr::LetRec(self.names[*n], self.ty(t), self.b(a), self.b(b)),
            E::Pi(v, b) => ir::Expr::Pi(self.tvs[*v], self.b(b)),
            E::Inst(b, t) => ir::Expr::PiApply(self.b(b), self.ty(t)),
            E::Trap(m, t) => ir::Expr::Trap(m.clone(), self.ty(t)),
        }
    }
}
pub fn convert(p: &Prog) -> (ir::Program<'static>, Conv) {
    let mut prog = ir::Program::new();
    // names beyond the program's own come from another generator
    let mut all = ir::NameGenerator::new();
    let mut names = vec![];
    for (i, d) in p.debug.iter().enumerate() {
        let n = all.new_fresh(d);
        if i < p.limit {
            prog.names.new_fresh(d);
        }
        names.push(n);
    }
    let mut g = ir::TyGenerator::new();
    let tvs = (0..2000).map(|_| g.next()).collect();
    let c = Conv { names, tvs };
    for t in &p.types {
        prog.types.push(ir::TyDef {
            name: c.names[t.name],
            vars: t.vars.iter().map(|v| c.tvs[*v]).collect(),
            cases: t.cases.iter().map(|(n, fs)| ir::TyCase { name: c.names[*n], fields: fs.iter().map(|f| c.ty(f)).collect() }).collect(),
        });
    }
    for d in &p.defs {
        prog.defs.push(ir::ValueDef { name: c.names[d.name], export_name: d.export.clone(), ty: c.ty(&d.ty), value: c.e(&d.value) });
    }
    (prog, c)
}

// ---------------------------------------------------------------- typing
pub fn subst(t: &T, v: usize, s: &T) -> T {
    match t {
        T::Var(w) if *w == v => s.clone(),
        T::Named(n, ts) => T::Named(*n, ts.iter().map(|t| subst(t, v, s)).collect()),
        T::Fn(ps, r) => T::Fn(ps.iter().map(|t| subst(t, v, s)).collect(), Box::new(subst(r, v, s))),
        T::All(w, b) => T::All(*w, Box::new(subst(b, v, s))),
        t => t.clone(),
    }
}
fn free(t: &T, bound: &mut Vec<usize>, out: &mut HashSet<usize>) {
    match t {
        T::Var(v) => {
            if !bound.contains(v) {
                out.insert(*v);
            }
        }
        T::Named(_, ts) => ts.iter().for_each(|t| free(t, bound, out)),
        T::Fn(ps, r) => {
            ps.iter().for_each(|t| free(t, bound, out));
            free(r, bound, out)
        }
        T::All(v, b) => {
            bound.push(*v);
            free(b, bound, out);
            bound.pop();
        }
        _ => {}
    }
}
fn binders(t: &T, out: &mut Vec<usize>) {
    match t {
        T::Named(_, ts) => ts.iter().for_each(|t| binders(t, out)),
        T::Fn(ps, r) => {
            ps.iter().for_each(|t| binders(t, out));
            binders(r, out)
        }
        T::All(v, b) => {
            out.push(*v);
            binders(b, out)
        }
        _ => {}
    }
}
/// de Bruijn form: bound variables by depth
#[derive(PartialEq)]
enum D { Bool, Int, Str, Bound(usize), Free(usize), Named(usize, Vec<D>), Fn(Vec<D>, Box<D>), All(Box<D>) }
fn db(t: &T, env: &mut Vec<usize>) -> D {
    match t {
        T::Bool => D::Bool,
        T::Int => D::Int,
        T::Str => D::Str,
        T::Var(v) => match env.iter().rev().position(|w| w == v) {
            Some(i) => D::Bound(i),
            None => D::Free(*v),
        },
        T::Named(n, ts) => D::Named(*n, ts.iter().map(|t| db(t, env)).collect()),
        T::Fn(ps, r) => D::Fn(ps.iter().map(|t| db(t, env)).collect(), Box::new(db(r, env))),
        T::All(v, b) => {
            env.push(*v);
            let b = db(b, env);
            env.pop();
            D::All(Box::new(b))
        }
    }
}
pub fn alike(a: &T, b: &T) -> bool {
    db(a, &mut vec![]) == db(b, &mut vec![])
}

type Why = String;
struct Chk<'a> {
    p: &'a Prog,
    ctors: HashMap<usize, (usize, Vec<usize>, Vec<T>)>,
    kinds: HashMap<usize, usize>,
    vals: Vec<(usize, T)>,
    tvs: Vec<usize>,
}
impl Chk<'_> {
    fn ty(&mut self, t: &T) -> Result<(), Why> {
        match t {
            T::Bool | T::Int | T::Str => Ok(()),
            T::Var(v) => if self.tvs.contains(v) { Ok(()) } else { Err(format!("type variable t{} is not in scope", v)) },
            T::Named(n, ts) => {
                match self.kinds.get(n) {
                    Some(k) if *k == ts.len() => {}
                    _ => return Err(format!("type {} does not take {} arguments", n, ts.len())),
                }
                for t in ts {
                    self.ty(t)?;
                }
                Ok(())
            }
            T::Fn(ps, r) => {
                for t in ps {
                    self.ty(t)?;
                }
                self.ty(r)
            }
            T::All(v, b) => {
                self.tvs.push(*v);
                let r = self.ty(b);
                self.tvs.pop();
                r
            }
        }
    }
    fn inst(&self, t: &T, v: usize, s: &T) -> Result<T, Why> {
        let (mut fv, mut bs) = (HashSet::new(), vec![]);
        free(s, &mut vec![], &mut fv);
        binders(t, &mut bs);
        if bs.iter().any(|b| fv.contains(b) || *b == v) {
            return Err(format!("CAPTURE: {:?} for t{} in {:?}", s, v, t));
        }
        Ok(subst(t, v, s))
    }
    fn fits(&self, a: &T, b: &T) -> Result<(), Why> {
        if alike(a, b) { Ok(()) } else { Err(format!("{:?} where {:?} is needed", a, b)) }
    }
    fn with<R>(&mut self, bs: Vec<(usize, T)>, f: impl FnOnce(&mut Self) -> Result<R, Why>) -> Result<R, Why> {
        let n = self.vals.len();
        self.vals.extend(bs);
        let r = f(self);
        self.vals.truncate(n);
        r
    }
    fn e(&mut self, e: &E) -> Result<T, Why> {
        Ok(match e {
            E::Bool(_) => T::Bool,
            E::Int(_) => T::Int,
            E::Str(_) => T::Str,
            E::Name(n) => match self.vals.iter().rev().find(|x| x.0 == *n) {
                Some(x) => x.1.clone(),
                None => return Err(format!("name {} is not in scope", n)),
            },
            E::Call(f, xs) => match self.e(f)? {
                T::Fn(ps, r) if ps.len() == xs.len() => {
                    for (x, p) in xs.iter().zip(&ps) {
                        let t = self.e(x)?;
                        self.fits(&t, p)?;
                    }
                    *r
                }
                t => return Err(format!("{:?} called with {} arguments", t, xs.len())),
            },
            E::If(c, a, b) => {
                let t = self.e(c)?;
                self.fits(&t, &T::Bool)?;
                let a = self.e(a)?;
                let b = self.e(b)?;
                if a != b {
                    return Err("branches of an if differ".into());
                }
                a
            }
            E::Op(a, o, b) => {
                for x in [a, b] {
                    let t = self.e(x)?;
                    self.fits(&t, &T::Int)?;
                }
                if *o < 5 { T::Int } else { T::Bool }
            }
            E::Intr(i, xs) => {
                let (ps, r) = intr_ty(*i);
                if ps.len() != xs.len() {
                    return Err("arguments of an intrinsic".into());
                }
                for (x, p) in xs.iter().zip(&ps) {
                    let t = self.e(x)?;
                    self.fits(&t, p)?;
                }
                r
            }
            E::Lam(ps, b) => {
                for p in ps {
                    self.ty(&p.1)?;
                }
                let r = self.with(ps.clone(), |s| s.e(b))?;
                T::Fn(ps.iter().map(|p| p.1.clone()).collect(), Box::new(r))
            }
            E::Match(d, bs) => {
                let T::Named(n, ts) = self.e(d)? else { return Err("match on something else".into()) };
                let mut r: Option<T> = None;
                for (c, ns, v) in bs {
                    let Some((of, vars, fields)) = self.ctors.get(c).cloned() else { return Err(format!("{} is no constructor", c)) };
                    if of != n || vars.len() != ts.len() || fields.len() != ns.len() {
                        return Err("branch of another shape".into());
                    }
                    let mut bind = vec![];
                    for (n, f) in ns.iter().zip(&fields) {
                        let mut t = f.clone();
                        for (v, s) in vars.iter().zip(&ts) {
                            t = self.inst(&t, *v, s)?;
                        }
                        bind.push((*n, t));
                    }
                    let t = self.with(bind, |s| s.e(v))?;
                    match &r {
                        Some(r) if *r != t => return Err("branches of a match differ".into()),
                        _ => r = Some(t),
                    }
                }
                r.ok_or("no branches".to_string())?
            }
            E::Con(c, ts, xs) => {
                let Some((of, vars, fields)) = self.ctors.get(c).cloned() else { return Err(format!("{} is no constructor", c)) };
                if vars.len() != ts.len() || fields.len() != xs.len() {
                    return Err("constructor applied to another number".into());
                }
                for t in ts {
                    self.ty(t)?;
                }
                for (x, f) in xs.iter().zip(&fields) {
                    let mut t = f.clone();
                    for (v, s) in vars.iter().zip(ts) {
                        t = self.inst(&t, *v, s)?;
                    }
                    let xt = self.e(x)?;
                    self.fits(&xt, &t)?;
                }
                T::Named(of, ts.clone())
            }
            E::Let(n, a, b) => {
                let t = self.e(a)?;
                self.with(vec![(*n, t)], |s| s.e(b))?
            }
            E::Rec(n, t, a, b) => {
                self.ty(t)?;
                self.with(vec![(*n, t.clone())], |s| {
                    let at = s.e(a)?;
                    s.fits(&at, t)?;
                    s.e(b)
                })?
            }
            E::Pi(v, b) => {
                self.tvs.push(*v);
                let t = self.e(b);
                self.tvs.pop();
                T::All(*v, Box::new(t?))
            }
            E::Inst(b, t) => {
                let f = self.e(b)?;
                self.ty(t)?;
                match f {
                    T::All(v, r) => self.inst(&r, v, t)?,
                    _ => return Err("type argument for a value".into()),
                }
            }
            E::Trap(_, t) => {
                self.ty(t)?;
                t.clone()
            }
        })
    }
}
/// every name and type variable bound in the program
pub struct Binders { pub names: Vec<usize>, pub tvs: Vec<usize> }
pub fn all_binders(p: &Prog) -> Binders {
    let mut b = Binders { names: vec![], tvs: vec![] };
    for t in &p.types {
        b.names.push(t.name);
        b.tvs.extend(&t.vars);
        for (c, fs) in &t.cases {
            b.names.push(*c);
            fs.iter().for_each(|f| binders(f, &mut b.tvs));
        }
    }
    for d in &p.defs {
        binders(&d.ty, &mut b.tvs);
        expr_binders(&d.value, &mut b);
        b.names.push(d.name);
    }
    b
}
pub fn expr_binders(e: &E, b: &mut Binders) {
    match e {
        E::Bool(_) | E::Int(_) | E::Str(_) | E::Name(_) => {}
        E::Call(f, xs) => {
            expr_binders(f, b);
            xs.iter().for_each(|x| expr_binders(x, b))
        }
        E::If(x, y, z) => [x, y, z].iter().for_each(|x| expr_binders(x, b)),
        E::Op(x, _, y) => [x, y].iter().for_each(|x| expr_binders(x, b)),
        E::Intr(_, xs) => xs.iter().for_each(|x| expr_binders(x, b)),
        E::Lam(ps, x) => {
            for (n, t) in ps {
                b.names.push(*n);
                binders(t, &mut b.tvs)
            }
            expr_binders(x, b)
        }
        E::Match(d, bs) => {
            expr_binders(d, b);
            for (_, ns, v) in bs {
                b.names.extend(ns);
                expr_binders(v, b)
            }
        }
        E::Con(_, ts, xs) => {
            ts.iter().for_each(|t| binders(t, &mut b.tvs));
            xs.iter().for_each(|x| expr_binders(x, b))
        }
        E::Let(n, x, y) => {
            b.names.push(*n);
            expr_binders(x, b);
            expr_binders(y, b)
        }
        E::Rec(n, t, x, y) => {
            b.names.push(*n);
            binders(t, &mut b.tvs);
            expr_binders(x, b);
            expr_binders(y, b)
        }
        E::Pi(v, x) => {
            b.tvs.push(*v);
            expr_binders(x, b)
        }
        E::Inst(x, t) => {
            expr_binders(x, b);
            binders(t, &mut b.tvs)
        }
        E::Trap(_, t) => binders(t, &mut b.tvs),
    }
}
fn distinct(v: &[usize]) -> bool {
    let mut s = HashSet::new();
    v.iter().all(|x| s.insert(*x))
}
pub fn well_typed(p: &Prog, values: &[(E, T)]) -> Result<(), Why> {
    let mut b = all_binders(p);
    for (e, _) in values {
        expr_binders(e, &mut b);
    }
    if !distinct(&b.names) {
        return Err("a name is bound twice".into());
    }
    if !distinct(&b.tvs) {
        return Err("a type variable is bound twice".into());
    }
    if b.names.iter().any(|n| *n >= p.limit) {
        return Err("a name is not of this program".into());
    }
    let mut c = Chk { p, ctors: HashMap::new(), kinds: HashMap::new(), vals: vec![], tvs: vec![] };
    for t in &c.p.types {
        c.kinds.insert(t.name, t.vars.len());
        c.tvs = t.vars.clone();
        for (_, fs) in &t.cases {
            for f in fs {
                c.ty(f)?;
            }
        }
        c.tvs.clear();
        for (k, fs) in &t.cases {
            c.ctors.insert(*k, (t.name, t.vars.clone(), fs.clone()));
        }
    }
    for d in &p.defs {
        c.ty(&d.ty)?;
        let t = c.e(&d.value)?;
        c.fits(&t, &d.ty)?;
        c.vals.push((d.name, t));
    }
    for (e, t) in values {
        let et = c.e(e)?;
        c.fits(&et, t)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- generation
pub struct Gen {
    pub r: Rng,
    names: usize,
    tvs: usize,
    types: Vec<Ty>,
    vals: Vec<(usize, T)>,
    scope: Vec<usize>,
}
impl Gen {
    pub fn new(r: Rng) -> Gen {
        Gen { r, names: 0, tvs: 0, types: vec![], vals: vec![], scope: vec![] }
    }
    fn name(&mut self) -> usize {
        self.names += 1;
        self.names - 1
    }
    fn tv(&mut self) -> usize {
        self.tvs += 1;
        self.tvs - 1
    }
    pub fn program(mut self) -> (Prog, Vec<(E, T)>) {
        let n = self.r.below(3);
        for _ in 0..n {
            let name = self.name();
            let nv = self.r.below(3);
            let vars: Vec<usize> = (0..nv).map(|_| self.tv()).collect();
            self.scope = vars.clone();
            self.types.push(Ty { name, vars: vars.clone(), cases: vec![] });
            let k = 1 + self.r.below(3);
            for _ in 0..k {
                let c = self.name();
                let m = self.r.below(4);
                let fs = (0..m).map(|_| self.ty(2)).collect();
                self.types.last_mut().unwrap().cases.push((c, fs));
            }
            self.scope.clear();
        }
        let mut defs = vec![];
        let n = 1 + self.r.below(3);
        for i in 0..n {
            let ty = self.ty(3);
            let value = self.e(&ty, 4);
            let name = self.name();
            let export = if self.r.chance(1, 2) { Some(["x", "y\"z", "ab_1"][self.r.below(3)].to_string()) } else { None };
            // the type is entered as the value's own: a copy with the same shape
            self.vals.push((name, ty.clone()));
            defs.push(Def { name, export, ty, value });
            let _ = i;
        }
        let mut values = vec![];
        if self.r.chance(1, 3) {
            let t = self.ty(2);
            let v = self.e(&t, 3);
            values.push((v, t));
        }
        let limit = self.names;
        // a few names of another program
        let debug = (0..limit + 3).map(|i| ["x", "y_1", "$", "let", "t", "end", "Ctor"][i % 7]).collect();
        (Prog { limit, debug, types: self.types, defs }, values)
    }
    /// a type to be written somewhere: its binders are new
    fn ty(&mut self, d: usize) -> T {
        if d == 0 || self.r.chance(1, 4) {
            let k = self.r.below(3 + self.scope.len());
            return match k {
                0 => T::Int,
                1 => T::Bool,
                2 => T::Str,
                k => T::Var(self.scope[k - 3]),
            };
        }
        match self.r.below(5) {
            0 | 1 if !self.types.is_empty() => {
                let i = self.r.below(self.types.len());
                let (n, k) = (self.types[i].name, self.types[i].vars.len());
                T::Named(n, (0..k).map(|_| self.ty(d - 1)).collect())
            }
            2 => {
                let v = self.tv();
                self.scope.push(v);
                let t = self.ty(d - 1);
                self.scope.pop();
                T::All(v, Box::new(t))
            }
            _ => {
                let n = self.r.below(3);
                T::Fn((0..n).map(|_| self.ty(d - 1)).collect(), Box::new(self.ty(d - 1)))
            }
        }
    }
    /// the same type with new binders
    fn fresh(&mut self, t: &T) -> T {
        match t {
            T::Named(n, ts) => T::Named(*n, ts.iter().map(|t| self.fresh(t)).collect()),
            T::Fn(ps, r) => T::Fn(ps.iter().map(|t| self.fresh(t)).collect(), Box::new(self.fresh(r))),
            T::All(v, b) => {
                let w = self.tv();
                let b = self.fresh(b);
                T::All(w, Box::new(subst(&b, *v, &T::Var(w))))
            }
            t => t.clone(),
        }
    }
    fn es(&mut self, ts: &[T], d: usize) -> Vec<E> {
        ts.iter().map(|t| self.e(t, d)).collect()
    }
    fn b(&mut self, t: &T, d: usize) -> Box<E> {
        Box::new(self.e(t, d))
    }
    /// an expression of this type (up to the names of bound variables)
    fn e(&mut self, t: &T, d: usize) -> E {
        let known: Vec<usize> = self.vals.iter().filter(|v| alike(&v.1, t)).map(|v| v.0).collect();
        if !known.is_empty() && self.r.chance(1, 2) {
            return E::Name(*self.r.pick(&known));
        }
        if d > 0 && self.r.chance(2, 5) {
            if let Some(e) = self.elim(t, d - 1) {
                return e;
            }
        }
        let dd = d.saturating_sub(1);
        match t {
            T::Int => match self.r.below(if d == 0 { 1 } else { 3 }) {
                0 => E::Int([0, 1, 7, u64::MAX, 10, 1234567][self.r.below(6)]),
                1 => {
                    let o = self.r.below(5);
                    E::Op(self.b(&T::Int, dd), o, self.b(&T::Int, dd))
                }
                _ => {
                    let i = [0, 2][self.r.below(2)];
                    E::Intr(i, self.es(&intr_ty(i).0, dd))
                }
            },
            T::Bool => if d == 0 || self.r.chance(1, 3) { E::Bool(self.r.chance(1, 2)) } else {
                let o = 5 + self.r.below(6);
                E::Op(self.b(&T::Int, dd), o, self.b(&T::Int, dd))
            },
            T::Str => if d == 0 || self.r.chance(1, 3) {
                E::Str([&b""[..], b"a\"\\b", b"\n\x00\xff", b"; let"][self.r.below(4)].to_vec())
            } else {
                let i = [1, 3, 4, 5][self.r.below(4)];
                E::Intr(i, self.es(&intr_ty(i).0, dd))
            },
            T::Named(n, ts) => {
                let ty = self.types.iter().find(|t| t.name == *n).unwrap().clone();
                if d == 0 {
                    return self.trap(t);
                }
                let (c, fs) = ty.cases[self.r.below(ty.cases.len())].clone();
                let ts2: Vec<T> = ts.iter().map(|t| self.fresh(t)).collect();
                let fts: Vec<T> = fs.iter().map(|f| ty.vars.iter().zip(ts).fold(f.clone(), |f, (v, s)| subst(&f, *v, s))).collect();
                E::Con(c, ts2, self.es(&fts, dd))
            }
            T::Fn(ps, r) => {
                let k = self.vals.len();
                let mut qs = vec![];
                for p in ps {
                    let n = self.name();
                    let t = self.fresh(p);
                    qs.push((n, t.clone()));
                    self.vals.push((n, t));
                }
                let b = self.b(r, dd);
                self.vals.truncate(k);
                E::Lam(qs, b)
            }
            T::All(v, b) => {
                if d == 0 {
                    return self.trap(t);
                }
                let w = self.tv();
                self.scope.push(w);
                let e = self.b(&subst(b, *v, &T::Var(w)), dd);
                self.scope.pop();
                E::Pi(w, e)
            }
            T::Var(_) => self.trap(t),
        }
    }
    fn trap(&mut self, t: &T) -> E {
        let t = self.fresh(t);
        E::Trap(["", "hole", "a\"\n"][self.r.below(3)].into(), t)
    }
    fn plain(t: &T) -> bool {
        let mut b = vec![];
        binders(t, &mut b);
        b.is_empty()
    }
    fn elim(&mut self, t: &T, d: usize) -> Option<E> {
        match self.r.below(6) {
            0 if Gen::plain(t) => Some(E::If(self.b(&T::Bool, d), self.b(t, d), self.b(t, d))),
            1 => {
                let at = self.ty(2);
                let a = self.b(&at, d);
                let n = self.name();
                self.vals.push((n, at));
                let b = self.b(t, d);
                self.vals.pop();
                Some(E::Let(n, a, b))
            }
            2 => {
                let rt = self.ty(2);
                let n = self.name();
                self.vals.push((n, rt.clone()));
                let a = self.b(&rt, d);
                let b = self.b(t, d);
                self.vals.pop();
                Some(E::Rec(n, rt, a, b))
            }
            3 => {
                let k = self.r.below(3);
                let ps: Vec<T> = (0..k).map(|_| self.ty(2)).collect();
                let f = self.b(&T::Fn(ps.clone(), Box::new(t.clone())), d);
                Some(E::Call(f, self.es(&ps, d)))
            }
            4 if Gen::plain(t) && !self.types.is_empty() => {
                let i = self.r.below(self.types.len());
                let ty = self.types[i].clone();
                let ts: Vec<T> = ty.vars.iter().map(|_| self.ty(1)).collect();
                let dis = self.b(&T::Named(ty.name, ts.clone()), d);
                let mut bs = vec![];
                for (c, fs) in &ty.cases {
                    if !bs.is_empty() && self.r.chance(1, 3) {
                        continue;
                    }
                    let k = self.vals.len();
                    let mut ns = vec![];
                    for f in fs {
                        let n = self.name();
                        ns.push(n);
                        self.vals.push((n, ty.vars.iter().zip(&ts).fold(f.clone(), |f, (v, s)| subst(&f, *v, s))));
                    }
                    let v = self.e(t, d);
                    self.vals.truncate(k);
                    bs.push((*c, ns, v));
                }
                Some(E::Match(dis, bs))
            }
            _ => {
                // t is an instance of a type made from it
                let s = self.ty(2);
                let v = self.tv();
                let g = if alike(&s, t) { T::Var(v) } else { self.hide(t, &s, v) };
                let e = self.b(&T::All(v, Box::new(g)), d);
                Some(E::Inst(e, self.fresh(&s)))
            }
        }
    }
    /// some occurrences of s in t replaced by the variable
    fn hide(&mut self, t: &T, s: &T, v: usize) -> T {
        if t == s && self.r.chance(2, 3) {
            return T::Var(v);
        }
        match t {
            T::Named(n, ts) => T::Named(*n, ts.iter().map(|t| self.hide(t, s, v)).collect()),
            T::Fn(ps, r) => T::Fn(ps.iter().map(|t| self.hide(t, s, v)).collect(), Box::new(self.hide(r, s, v))),
            T::All(w, b) => T::All(*w, Box::new(self.hide(b, s, v))),
            t => t.clone(),
        }
    }
}

// ---------------------------------------------------------------- mutation
pub enum Site<'a> { Name(&'a mut usize), Tv(&'a mut usize), T(&'a mut T), Ts(&'a mut Vec<T>), E(&'a mut E), Es(&'a mut Vec<E>), Ns(&'a mut Vec<usize>), Bs(&'a mut Vec<(usize, Vec<usize>, E)>), Ps(&'a mut Vec<(usize, T)>) }
/// calls `f` at every place; stops when it returns true
pub struct Walk<'f> { pub f: &'f mut dyn FnMut(Site) -> bool, pub done: bool }
impl Walk<'_> {
    fn at(&mut self, s: Site) {
        if !self.done {
            self.done = (self.f)(s);
        }
    }
    pub fn t(&mut self, t: &mut T) {
        self.at(Site::T(t));
        if self.done {
            return;
        }
        match t {
            T::Var(v) => self.at(Site::Tv(v)),
            T::Named(n, ts) => {
                self.at(Site::Name(n));
                self.ts(ts)
            }
            T::Fn(ps, r) => {
                self.ts(ps);
                self.t(r)
            }
            T::All(v, b) => {
                self.at(Site::Tv(v));
                self.t(b)
            }
            _ => {}
        }
    }
    fn ts(&mut self, ts: &mut Vec<T>) {
        self.at(Site::Ts(ts));
        for t in ts {
            self.t(t);
        }
    }
    fn es(&mut self, xs: &mut Vec<E>) {
        self.at(Site::Es(xs));
        for x in xs {
            self.e(x);
        }
    }
    pub fn e(&mut self, e: &mut E) {
        self.at(Site::E(e));
        if self.done {
            return;
        }
        match e {
            E::Bool(_) | E::Int(_) | E::Str(_) => {}
            E::Name(n) => self.at(Site::Name(n)),
            E::Call(f, xs) => {
                self.e(f);
                self.es(xs)
            }
            E::If(a, b, c) => {
                self.e(a);
                self.e(b);
                self.e(c)
            }
            E::Op(a, _, b) => {
                self.e(a);
                self.e(b)
            }
            E::Intr(_, xs) => self.es(xs),
            E::Lam(ps, b) => {
                self.at(Site::Ps(ps));
                for (n, t) in ps {
                    self.at(Site::Name(n));
                    self.t(t);
                }
                self.e(b)
            }
            E::Match(d, bs) => {
                self.e(d);
                self.at(Site::Bs(bs));
                for (c, ns, v) in bs {
                    self.at(Site::Name(c));
                    self.at(Site::Ns(ns));
                    for n in ns {
                        self.at(Site::Name(n));
                    }
                    self.e(v);
                }
            }
            E::Con(c, ts, xs) => {
                self.at(Site::Name(c));
                self.ts(ts);
                self.es(xs)
            }
            E::Let(n, a, b) => {
                self.at(Site::Name(n));
                self.e(a);
                self.e(b)
            }
            E::Rec(n, t, a, b) => {
                self.at(Site::Name(n));
                self.t(t);
                self.e(a);
                self.e(b)
            }
            E::Pi(v, b) => {
                self.at(Site::Tv(v));
                self.e(b)
            }
            E::Inst(b, t) => {
                self.e(b);
                self.t(t)
            }
            E::Trap(_, t) => self.t(t),
        }
    }
    pub fn prog(&mut self, p: &mut Prog) {
        for t in &mut p.types {
            self.at(Site::Name(&mut t.name));
            for v in &mut t.vars {
                self.at(Site::Tv(v));
            }
            for (c, fs) in &mut t.cases {
                self.at(Site::Name(c));
                self.ts(fs);
            }
        }
        for d in &mut p.defs {
            self.t(&mut d.ty);
            self.e(&mut d.value);
            self.at(Site::Name(&mut d.name));
        }
    }
}
/// one random change
pub fn mutate(p: &mut Prog, values: &mut Vec<(E, T)>, r: &mut Rng) {
    let mut n = 0usize;
    let all = p.debug.len();
    let b = all_binders(p);
    let tvs = b.tvs.len() + 2;
    let go = |p: &mut Prog, values: &mut Vec<(E, T)>, f: &mut dyn FnMut(Site) -> bool| {
        let mut w = Walk { f, done: false };
        w.prog(p);
        for (e, t) in values {
            w.e(e);
            w.t(t);
        }
    };
    go(p, values, &mut |_| {
        n += 1;
        false
    });
    let k = r.below(n);
    let mut i = 0;
    // material to put in
    let mut es: Vec<E> = vec![];
    let mut ts: Vec<T> = vec![T::Int, T::Bool, T::Str];
    go(p, values, &mut |s| {
        match s {
            Site::E(e) => es.push(e.clone()),
            Site::T(t) => ts.push(t.clone()),
            _ => {}
        }
        false
    });
    go(p, values, &mut |s| {
        i += 1;
        if i - 1 != k {
            return false;
        }
        match s {
            Site::Name(x) => *x = if b.names.is_empty() || r.chance(1, 8) { r.below(all) } else { *r.pick(&b.names) },
            Site::Tv(x) => *x = if b.tvs.is_empty() || r.chance(1, 8) { r.below(tvs) } else { *r.pick(&b.tvs) },
            Site::T(x) => *x = r.pick(&ts).clone(),
            Site::Ts(x) => {
                if r.chance(1, 2) && !x.is_empty() { x.pop(); } else { x.push(r.pick(&ts).clone()); }
            }
            Site::E(x) => {
                *x = match r.below(4) {
                    0 => E::Bool(true),
                    1 => E::Int(3),
                    2 if !b.names.is_empty() => E::Name(*r.pick(&b.names)),
                    _ => r.pick(&es).clone(),
                }
            }
            Site::Es(x) => match r.below(3) {
                0 => { x.pop(); }
                1 => x.reverse(),
                _ => x.push(E::Int(1)),
            },
            Site::Ns(x) => {
                if r.chance(1, 2) { x.pop(); } else { x.reverse() }
            }
            Site::Bs(x) => match r.below(3) {
                0 => { x.pop(); }
                1 => x.reverse(),
                _ => x.clear(),
            },
            Site::Ps(x) => {
                if r.chance(1, 2) { x.pop(); } else { x.reverse() }
            }
        }
        true
    });
}
