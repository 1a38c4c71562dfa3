// ---- types as mathematical values
pub ghost enum STy { Bool, Int, Str, Var(TyVar), Named(Name, Seq<STy>), Fn(Seq<STy>, Box<STy>), Abs(TyVar, Box<STy>) }

pub closed spec fn sty(t: Ty) -> STy decreases t, 0nat {
    match t {
        Ty::Bool => STy::Bool,
        Ty::Int => STy::Int,
        Ty::String => STy::Str,
        Ty::Var(v) => STy::Var(v),
        Ty::Named(n, ts) => STy::Named(n, stys(ts, 0)),
        Ty::Fn(ps, r) => STy::Fn(stys(ps, 0), Box::new(sty(*r))),
        Ty::Abs(v, t) => STy::Abs(v, Box::new(sty(*t))),
    }
}
/// the types from the i-th on
pub closed spec fn stys(v: Vec<Ty>, i: nat) -> Seq<STy> decreases v, v@.len() - i {
    if i >= v@.len() { Seq::empty() } else { seq![sty(v@[i as int])] + stys(v, i + 1) }
}
proof fn stys_at(v: Vec<Ty>, i: nat)
    requires i <= v@.len(),
    ensures stys(v, i).len() == v@.len() - i,
        forall|k: int| 0 <= k < v@.len() - i ==> (#[trigger] stys(v, i)[k]) == sty(v@[i + k]),
    decreases v@.len() - i,
{
    if i < v@.len() {
        stys_at(v, i + 1);
        assert forall|k: int| 0 <= k < v@.len() - i implies (#[trigger] stys(v, i)[k]) == sty(v@[i + k]) by {
            if k > 0 { assert(stys(v, i)[k] == stys(v, i + 1)[k - 1]); }
        }
    }
}
proof fn lens(t: Ty)
    ensures
        t is Named ==> stys(t->Named_1, 0).len() == t->Named_1@.len(),
        t is Fn ==> stys(t->Fn_0, 0).len() == t->Fn_0@.len(),
{
    match t { Ty::Named(_, v) => stys_at(v, 0), Ty::Fn(v, _) => stys_at(v, 0), _ => {} }
}
pub closed spec fn param_tys(ps: Seq<LambdaParam>) -> Seq<STy> { ps.map_values(|p: LambdaParam| sty(p.ty)) }
pub closed spec fn param_names(ps: Seq<LambdaParam>) -> Seq<Name> { ps.map_values(|p: LambdaParam| p.name) }

pub ghost struct SCtor { pub ty: Name, pub vars: Seq<TyVar>, pub fields: Seq<STy> }

/// with `s` in place of the variable
pub closed spec fn subst(t: STy, v: TyVar, s: STy) -> STy decreases t {
    match t {
        STy::Var(w) => if w == v { s } else { t },
        STy::Named(n, ts) => STy::Named(n, subst_all(ts, v, s)),
        STy::Fn(ps, r) => STy::Fn(subst_all(ps, v, s), Box::new(subst(*r, v, s))),
        STy::Abs(w, b) => STy::Abs(w, Box::new(subst(*b, v, s))),
        _ => t,
    }
}
pub closed spec fn subst_all(ts: Seq<STy>, v: TyVar, s: STy) -> Seq<STy> decreases ts {
    Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { subst(ts[i], v, s) } else { s })
}
pub closed spec fn substs(t: STy, vs: Seq<TyVar>, ss: Seq<STy>, i: nat) -> STy decreases vs.len() - i {
    if i >= vs.len() { t } else { substs(subst(t, vs[i as int], ss[i as int]), vs, ss, i + 1) }
}
/// the innermost pair of binders one of which is `a` or `b` is this pair
pub closed spec fn bound_alike(a: TyVar, b: TyVar, env: Seq<(TyVar, TyVar)>) -> bool decreases env.len() {
    if env.len() == 0 { a == b } else if env.last().0 == a || env.last().1 == b { env.last() == (a, b) } else { bound_alike(a, b, env.drop_last()) }
}
/// equal up to the names of bound variables
pub closed spec fn alpha(a: STy, b: STy, env: Seq<(TyVar, TyVar)>) -> bool decreases a {
    match (a, b) {
        (STy::Var(x), STy::Var(y)) => bound_alike(x, y, env),
        (STy::Named(n, ts), STy::Named(m, us)) => n == m && ts.len() == us.len() && forall|i: int| 0 <= i < ts.len() ==> alpha(#[trigger] ts[i], us[i], env),
        (STy::Fn(ps, r), STy::Fn(qs, s)) => ps.len() == qs.len() && (forall|i: int| 0 <= i < ps.len() ==> alpha(#[trigger] ps[i], qs[i], env)) && alpha(*r, *s, env),
        (STy::Abs(x, t), STy::Abs(y, u)) => alpha(*t, *u, env.push((x, y))),
        (STy::Bool, STy::Bool) | (STy::Int, STy::Int) | (STy::Str, STy::Str) => true,
        _ => false,
    }
}
pub closed spec fn same_ty(a: STy, b: STy) -> bool { alpha(a, b, Seq::empty()) }

// ---- the typing rules.  `None`: not well typed
/// what is visible: values with their types, types with their number of parameters, constructors, type variables
pub ghost struct Ctx { pub limit: u64, pub vals: Map<Name, STy>, pub kinds: Map<Name, usize>, pub ctors: Map<Name, SCtor>, pub tvs: Set<TyVar> }
/// the names and type variables bound anywhere so far (a program binds each once)
pub ghost struct Used { pub names: Set<Name>, pub tys: Set<TyVar> }

pub closed spec fn fresh_name(g: Ctx, u: Used, n: Name) -> bool { n.id < g.limit && !u.names.contains(n) }
pub closed spec fn with_val(g: Ctx, n: Name, t: STy) -> Ctx { Ctx { vals: g.vals.insert(n, t), ..g } }
pub closed spec fn with_tv(g: Ctx, v: TyVar) -> Ctx { Ctx { tvs: g.tvs.insert(v), ..g } }
pub closed spec fn use_name(u: Used, n: Name) -> Used { Used { names: u.names.insert(n), ..u } }
pub closed spec fn use_tys(u: Used, t: Set<TyVar>) -> Used { Used { tys: t, ..u } }

/// a type is well formed; the type variables bound so far, with its own
pub closed spec fn wf(g: Ctx, u: Set<TyVar>, t: STy) -> Option<Set<TyVar>> decreases t, 0nat {
    match t {
        STy::Var(v) => if g.tvs.contains(v) { Some(u) } else { None },
        STy::Named(n, ts) => if g.kinds.contains_key(n) && g.kinds[n] == ts.len() { wfs(g, u, ts, 0) } else { None },
        STy::Fn(ps, r) => match wfs(g, u, ps, 0) { None => None, Some(u1) => wf(g, u1, *r) },
        STy::Abs(v, b) => if u.contains(v) { None } else { wf(with_tv(g, v), u.insert(v), *b) },
        _ => Some(u),
    }
}
pub closed spec fn wfs(g: Ctx, u: Set<TyVar>, ts: Seq<STy>, i: nat) -> Option<Set<TyVar>> decreases ts, ts.len() - i {
    if i >= ts.len() { Some(u) } else {
        match wf(g, u, ts[i as int]) { None => None, Some(u1) => wfs(g, u1, ts, i + 1) }
    }
}
pub closed spec fn op_result(o: Op) -> STy {
    match o {
        Op::Add | Op::Subtract | Op::Multiply | Op::Divide | Op::Modulo => STy::Int,
        _ => STy::Bool,
    }
}
pub closed spec fn intrinsic_params(i: Intrinsic) -> Seq<STy> {
    match i {
        Intrinsic::StringLen => seq![STy::Str],
        Intrinsic::StringConcat => seq![STy::Str, STy::Str],
        Intrinsic::StringCharAt => seq![STy::Int, STy::Str],
        Intrinsic::StringSubstring => seq![STy::Int, STy::Int, STy::Str],
        Intrinsic::StringFromChar => seq![STy::Int],
        Intrinsic::IntToString => seq![STy::Int],
    }
}
pub closed spec fn intrinsic_result(i: Intrinsic) -> STy {
    match i {
        Intrinsic::StringLen | Intrinsic::StringCharAt => STy::Int,
        _ => STy::Str,
    }
}
/// the type of an expression, and what is bound after it
pub closed spec fn infer(g: Ctx, u: Used, e: Expr) -> Option<(STy, Used)> decreases e, 0nat {
    match e {
        Expr::Bool(_) => Some((STy::Bool, u)),
        Expr::Int(_) => Some((STy::Int, u)),
        Expr::String(_) => Some((STy::Str, u)),
        Expr::Name(n) => if g.vals.contains_key(n) { Some((g.vals[n], u)) } else { None },
        Expr::Call(f, xs) => match infer(g, u, *f) {
            Some((STy::Fn(ps, r), u1)) => if ps.len() != xs@.len() { None } else {
                match infer_args(g, u1, xs, ps, 0) { None => None, Some(u2) => Some((*r, u2)) }
            },
            _ => None,
        },
        Expr::Intrinsic(i, xs) => if intrinsic_params(i).len() != xs@.len() { None } else {
            match infer_args(g, u, xs, intrinsic_params(i), 0) { None => None, Some(u1) => Some((intrinsic_result(i), u1)) }
        },
        Expr::If(c, t, e) => match infer(g, u, *c) {
            None => None,
            Some((ct, u1)) => if !same_ty(ct, STy::Bool) { None } else { match infer(g, u1, *t) {
                None => None,
                Some((tt, u2)) => match infer(g, u2, *e) {
                    None => None,
                    Some((et, u3)) => if tt == et { Some((tt, u3)) } else { None },
                },
            } },
        },
        Expr::Op(a, o, b) => match infer(g, u, *a) {
            None => None,
            Some((at, u1)) => if !same_ty(at, STy::Int) { None } else { match infer(g, u1, *b) {
                None => None,
                Some((bt, u2)) => if same_ty(bt, STy::Int) { Some((op_result(o), u2)) } else { None },
            } },
        },
        Expr::Lambda(ps, b) => match bind_params(g, u, ps@, 0) {
            None => None,
            Some((g1, u1)) => match infer(g1, u1, *b) {
                None => None,
                Some((t, u2)) => Some((STy::Fn(param_tys(ps@), Box::new(t)), u2)),
            },
        },
        Expr::Match(d, bs) => match infer(g, u, *d) {
            Some((STy::Named(n, ts), u1)) => match infer_branches(g, u1, bs, 0, n, ts, None) {
                Some((Some(t), u2)) => Some((t, u2)),
                _ => None,
            },
            _ => None,
        },
        Expr::Construct(c, ts, xs) => if !g.ctors.contains_key(c) { None } else {
            let k = g.ctors[c];
            if k.vars.len() != ts@.len() || k.fields.len() != xs@.len() { None } else {
                match wfs(g, u.tys, stys(ts, 0), 0) {
                    None => None,
                    Some(u1) => match infer_fields(g, use_tys(u, u1), xs, k, stys(ts, 0), 0) {
                        None => None,
                        Some(u2) => Some((STy::Named(k.ty, stys(ts, 0)), u2)),
                    },
                }
            }
        },
        Expr::Let(n, a, b) => match infer(g, u, *a) {
            None => None,
            Some((t, u1)) => if !fresh_name(g, u1, n) { None } else { infer(with_val(g, n, t), use_name(u1, n), *b) },
        },
        Expr::LetRec(n, t, a, b) => match wf(g, u.tys, sty(t)) {
            None => None,
            Some(u1) => if !fresh_name(g, u, n) { None } else {
                let g1 = with_val(g, n, sty(t));
                match infer(g1, use_name(use_tys(u, u1), n), *a) {
                    None => None,
                    Some((at, u2)) => if same_ty(at, sty(t)) { infer(g1, u2, *b) } else { None },
                }
            },
        },
        Expr::Pi(v, b) => if u.tys.contains(v) { None } else {
            match infer(with_tv(g, v), use_tys(u, u.tys.insert(v)), *b) {
                None => None,
                Some((t, u1)) => Some((STy::Abs(v, Box::new(t)), u1)),
            }
        },
        Expr::PiApply(b, t) => match infer(g, u, *b) {
            Some((STy::Abs(v, r), u1)) => match wf(g, u1.tys, sty(t)) {
                None => None,
                Some(u2) => Some((subst(*r, v, sty(t)), use_tys(u1, u2))),
            },
            _ => None,
        },
        Expr::Trap(_, t) => match wf(g, u.tys, sty(t)) { None => None, Some(u1) => Some((sty(t), use_tys(u, u1))) },
    }
}
/// the i-th and later arguments fit the parameters
pub closed spec fn infer_args(g: Ctx, u: Used, xs: Vec<Expr>, ps: Seq<STy>, i: nat) -> Option<Used> decreases xs, xs@.len() - i {
    if i >= xs@.len() { Some(u) } else {
        match infer(g, u, xs@[i as int]) {
            None => None,
            Some((t, u1)) => if same_ty(t, ps[i as int]) { infer_args(g, u1, xs, ps, i + 1) } else { None },
        }
    }
}
pub closed spec fn infer_fields(g: Ctx, u: Used, xs: Vec<Expr>, k: SCtor, ts: Seq<STy>, i: nat) -> Option<Used> decreases xs, xs@.len() - i {
    if i >= xs@.len() { Some(u) } else {
        match infer(g, u, xs@[i as int]) {
            None => None,
            Some((t, u1)) => if same_ty(substs(k.fields[i as int], k.vars, ts, 0), t) { infer_fields(g, u1, xs, k, ts, i + 1) } else { None },
        }
    }
}
pub closed spec fn bind_params(g: Ctx, u: Used, ps: Seq<LambdaParam>, i: nat) -> Option<(Ctx, Used)> decreases ps.len() - i {
    if i >= ps.len() { Some((g, u)) } else {
        let p = ps[i as int];
        if !fresh_name(g, u, p.name) { None } else {
            match wf(g, u.tys, sty(p.ty)) {
                None => None,
                Some(u1) => bind_params(with_val(g, p.name, sty(p.ty)), use_name(use_tys(u, u1), p.name), ps, i + 1),
            }
        }
    }
}
/// the bindings of a branch get the types of the constructor's fields
pub closed spec fn bind_fields(g: Ctx, u: Used, bs: Seq<Name>, k: SCtor, ts: Seq<STy>, i: nat) -> Option<(Ctx, Used)> decreases bs.len() - i {
    if i >= bs.len() { Some((g, u)) } else if !fresh_name(g, u, bs[i as int]) { None } else {
        bind_fields(with_val(g, bs[i as int], substs(k.fields[i as int], k.vars, ts, 0)), use_name(u, bs[i as int]), bs, k, ts, i + 1)
    }
}
/// the i-th and later branches of a match on the type n of ts; `t` is the type of the earlier ones
pub closed spec fn infer_branches(g: Ctx, u: Used, bs: Vec<Branch>, i: nat, n: Name, ts: Seq<STy>, t: Option<STy>) -> Option<(Option<STy>, Used)>
    decreases bs, bs@.len() - i
{
    if i >= bs@.len() { Some((t, u)) } else {
        let b = bs@[i as int];
        if !g.ctors.contains_key(b.ctor) { None } else {
            let k = g.ctors[b.ctor];
            if k.ty != n || k.vars.len() != ts.len() || k.fields.len() != b.bindings@.len() { None } else {
                match bind_fields(g, u, b.bindings@, k, ts, 0) {
                    None => None,
                    Some((g1, u1)) => match infer(g1, u1, b.value) {
                        None => None,
                        Some((bt, u2)) => if t is Some && t->0 != bt { None } else { infer_branches(g, u2, bs, i + 1, n, ts, Some(bt)) },
                    },
                }
            }
        }
    }
}
pub closed spec fn bind_tvs(g: Ctx, u: Used, vs: Seq<TyVar>, i: nat) -> Option<(Ctx, Used)> decreases vs.len() - i {
    if i >= vs.len() { Some((g, u)) } else if u.tys.contains(vs[i as int]) { None } else {
        bind_tvs(with_tv(g, vs[i as int]), use_tys(u, u.tys.insert(vs[i as int])), vs, i + 1)
    }
}
pub closed spec fn check_cases(g: Ctx, u: Used, cs: Seq<TyCase>, i: nat, n: Name, vs: Seq<TyVar>) -> Option<(Ctx, Used)> decreases cs.len() - i {
    if i >= cs.len() { Some((g, u)) } else {
        match check_case(g, u, cs[i as int], n, vs) { None => None, Some((g1, u1)) => check_cases(g1, u1, cs, i + 1, n, vs) }
    }
}
pub closed spec fn check_case(g: Ctx, u: Used, c: TyCase, n: Name, vs: Seq<TyVar>) -> Option<(Ctx, Used)> {
    if !fresh_name(g, u, c.name) { None } else {
        match wfs(g, u.tys, stys(c.fields, 0), 0) {
            None => None,
            Some(u1) => Some((Ctx { ctors: g.ctors.insert(c.name, SCtor { ty: n, vars: vs, fields: stys(c.fields, 0) }), ..g }, use_name(use_tys(u, u1), c.name))),
        }
    }
}
pub closed spec fn check_def(g: Ctx, u: Used, d: TyDef) -> Option<(Ctx, Used)> {
    if !fresh_name(g, u, d.name) { None } else {
        match bind_tvs(Ctx { kinds: g.kinds.insert(d.name, d.vars.len()), ..g }, use_name(u, d.name), d.vars@, 0) {
            None => None,
            Some((g1, u1)) => match check_cases(g1, u1, d.cases@, 0, d.name, d.vars@) {
                None => None,
                // the parameters are visible in the cases only
                Some((g2, u2)) => Some((Ctx { tvs: g.tvs, ..g2 }, u2)),
            },
        }
    }
}
pub closed spec fn check_types(g: Ctx, u: Used, ds: Seq<TyDef>, i: nat) -> Option<(Ctx, Used)> decreases ds.len() - i {
    if i >= ds.len() { Some((g, u)) } else {
        match check_def(g, u, ds[i as int]) { None => None, Some((g1, u1)) => check_types(g1, u1, ds, i + 1) }
    }
}
pub closed spec fn check_values(g: Ctx, u: Used, ds: Seq<ValueDef>, i: nat) -> Option<(Ctx, Used)> decreases ds.len() - i {
    if i >= ds.len() { Some((g, u)) } else {
        let d = ds[i as int];
        match wf(g, u.tys, sty(d.ty)) {
            None => None,
            Some(u1) => match infer(g, use_tys(u, u1), d.value) {
                None => None,
                Some((t, u2)) => if !same_ty(t, sty(d.ty)) || !fresh_name(g, u2, d.name) { None } else {
                    check_values(with_val(g, d.name, t), use_name(u2, d.name), ds, i + 1)
                },
            },
        }
    }
}
