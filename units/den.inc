//@ rule ir :: $x:ident ==> $x
//@ rule opt :: $x:ident ==> $x

//@ type ticc-core/src/ir.rs Expr
//@ type ticc-core/src/ir.rs LambdaParam
//@ type ticc-core/src/ir.rs Branch
//@ type ticc-core/src/ir.rs Op | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Intrinsic | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Ty
//@ type ticc-core/src/ir.rs TyVar | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Name | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[verifier::external_body]
pub struct ByteString { b: Vec<u8> }

// ---- what an expression means: call by name -----------------------------------------
// Every value has a meaning in D; Bot stands for a value whose evaluation reaches a hole or does
// not end. A `let` and a call do not evaluate what they bind, so that the meaning of an expression
// of a pure language can be given without saying when anything is evaluated. What operators and
// intrinsics compute does not matter here (no pass computes anything), they are arbitrary functions.
#[verifier::external_body]
pub struct DFn { f: usize }
pub ghost enum D { Bot, Int(u64), Bool(bool), Str(ByteString), Comp(Name, Seq<D>), Fn(DFn) }
pub type DEnv = Map<Name, D>;

pub uninterp spec fn op_den(op: Op, a: D, b: D) -> D;
pub uninterp spec fn intrinsic_den(i: Intrinsic, xs: Seq<D>) -> D;
/// the function value with the given results (used for the functions that lambdas denote only)
pub uninterp spec fn mk(f: spec_fn(Seq<D>) -> D, params: nat) -> DFn;
/// what calling a value gives
pub uninterp spec fn app(f: D, args: Seq<D>) -> D;
/// the meaning of `rec x = f(x)`
pub uninterp spec fn lfp(f: spec_fn(D) -> D) -> D;

pub open spec fn look(env: DEnv, n: Name) -> D { if env.contains_key(n) { env[n] } else { D::Bot } }
pub open spec fn bind_all(env: DEnv, names: Seq<Name>, vals: Seq<D>, n: nat) -> DEnv
    decreases n
{
    if n == 0 { env } else { bind_all(env, names, vals, (n - 1) as nat).insert(names[n - 1], vals[n - 1]) }
}
pub open spec fn param_names(ps: Seq<LambdaParam>) -> Seq<Name> { Seq::new(ps.len(), |i: int| ps[i].name) }
/// index of the first branch for a constructor
pub open spec fn find_branch(bs: Seq<Branch>, ctor: Name, i: nat) -> nat decreases bs.len() - i {
    if i >= bs.len() || bs[i as int].ctor == ctor { i } else { find_branch(bs, ctor, i + 1) }
}
pub open spec fn den(env: DEnv, e: Expr) -> D decreases e, 0nat {
    match e {
        Expr::Bool(b) => D::Bool(b),
        Expr::Int(i) => D::Int(i),
        Expr::String(s) => D::Str(s),
        Expr::Name(n) => look(env, n),
        Expr::Call(f, args) => app(den(env, *f), den_list(env, args, args@.len())),
        Expr::If(c, t, e) => match den(env, *c) {
            D::Bool(b) => if b { den(env, *t) } else { den(env, *e) },
            _ => D::Bot,
        },
        Expr::Op(a, op, b) => op_den(op, den(env, *a), den(env, *b)),
        Expr::Intrinsic(i, xs) => intrinsic_den(i, den_list(env, xs, xs@.len())),
        Expr::Construct(c, _, xs) => D::Comp(c, den_list(env, xs, xs@.len())),
        Expr::Lambda(ps, b) => D::Fn(mk(lam_fn(env, param_names(ps@), *b), ps@.len())),
        Expr::Match(d, bs) => match den(env, *d) {
            D::Comp(c, vs) => {
                let i = find_branch(bs@, c, 0);
                if i < bs@.len() {
                    den(bind_all(env, bs@[i as int].bindings@, vs, bs@[i as int].bindings@.len()), bs@[i as int].value)
                } else { D::Bot }
            },
            _ => D::Bot,
        },
        Expr::Let(n, v, b) => den(env.insert(n, den(env, *v)), *b),
        Expr::LetRec(n, _, v, b) => den(env.insert(n, lfp(rec_fn(env, n, *v))), *b),
        Expr::Pi(_, b) => den(env, *b),
        Expr::PiApply(b, _) => den(env, *b),
        Expr::Trap(_, _) => D::Bot,
    }
}
pub open spec fn lam_fn(env: DEnv, names: Seq<Name>, b: Expr) -> spec_fn(Seq<D>) -> D decreases b, 1nat {
    |vs: Seq<D>| den(bind_all(env, names, vs, names.len()), b)
}
pub open spec fn rec_fn(env: DEnv, n: Name, v: Expr) -> spec_fn(D) -> D decreases v, 1nat {
    |x: D| den(env.insert(n, x), v)
}
pub open spec fn den_list(env: DEnv, xs: Vec<Expr>, n: nat) -> Seq<D> decreases xs, n {
    if n == 0 || n > xs@.len() { Seq::empty() } else { den_list(env, xs, (n - 1) as nat).push(den(env, xs@[n - 1])) }
}
/// calling the function a lambda denotes binds its parameters
pub broadcast axiom fn beta(env: DEnv, ps: Vec<LambdaParam>, b: Box<Expr>, args: Seq<D>)
    requires args.len() == ps@.len(),
    ensures #[trigger] app(den(env, Expr::Lambda(ps, b)), args) == den(bind_all(env, param_names(ps@), args, ps@.len()), *b);

// ---- free and bound names ------------------------------------------------------------
pub open spec fn fv(e: Expr, x: Name) -> bool decreases e, 0nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) => false,
        Expr::Name(n) => n == x,
        Expr::Call(f, args) => fv(*f, x) || fv_list(args, args@.len(), x),
        Expr::If(c, t, e) => fv(*c, x) || fv(*t, x) || fv(*e, x),
        Expr::Op(a, _, b) => fv(*a, x) || fv(*b, x),
        Expr::Intrinsic(_, xs) => fv_list(xs, xs@.len(), x),
        Expr::Construct(_, _, xs) => fv_list(xs, xs@.len(), x),
        Expr::Lambda(ps, b) => fv(*b, x) && !param_names(ps@).contains(x),
        Expr::Match(d, bs) => fv(*d, x) || fv_branches(bs, bs@.len(), x),
        Expr::Let(n, v, b) => fv(*v, x) || fv(*b, x) && n != x,
        Expr::LetRec(n, _, v, b) => (fv(*v, x) || fv(*b, x)) && n != x,
        Expr::Pi(_, b) => fv(*b, x),
        Expr::PiApply(b, _) => fv(*b, x),
    }
}
pub open spec fn fv_list(xs: Vec<Expr>, n: nat, x: Name) -> bool decreases xs, n {
    if n == 0 || n > xs@.len() { false } else { fv_list(xs, (n - 1) as nat, x) || fv(xs@[n - 1], x) }
}
pub open spec fn fv_branches(bs: Vec<Branch>, n: nat, x: Name) -> bool decreases bs, n {
    if n == 0 || n > bs@.len() { false } else {
        fv_branches(bs, (n - 1) as nat, x) || fv(bs@[n - 1].value, x) && !bs@[n - 1].bindings@.contains(x)
    }
}
pub open spec fn times(s: Seq<Name>, x: Name) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { times(s.drop_last(), x) + if s.last() == x { 1nat } else { 0 } }
}
/// how many binders of an expression bind a name
pub open spec fn bc(e: Expr, x: Name) -> nat decreases e, 0nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => 0,
        Expr::Call(f, args) => bc(*f, x) + bc_list(args, args@.len(), x),
        Expr::If(c, t, e) => bc(*c, x) + bc(*t, x) + bc(*e, x),
        Expr::Op(a, _, b) => bc(*a, x) + bc(*b, x),
        Expr::Intrinsic(_, xs) => bc_list(xs, xs@.len(), x),
        Expr::Construct(_, _, xs) => bc_list(xs, xs@.len(), x),
        Expr::Lambda(ps, b) => bc(*b, x) + times(param_names(ps@), x),
        Expr::Match(d, bs) => bc(*d, x) + bc_branches(bs, bs@.len(), x),
        Expr::Let(n, v, b) => bc(*v, x) + bc(*b, x) + if n == x { 1nat } else { 0 },
        Expr::LetRec(n, _, v, b) => bc(*v, x) + bc(*b, x) + if n == x { 1nat } else { 0 },
        Expr::Pi(_, b) => bc(*b, x),
        Expr::PiApply(b, _) => bc(*b, x),
    }
}
pub open spec fn bc_list(xs: Vec<Expr>, n: nat, x: Name) -> nat decreases xs, n {
    if n == 0 || n > xs@.len() { 0 } else { bc_list(xs, (n - 1) as nat, x) + bc(xs@[n - 1], x) }
}
pub open spec fn bc_branches(bs: Vec<Branch>, n: nat, x: Name) -> nat decreases bs, n {
    if n == 0 || n > bs@.len() { 0 } else {
        bc_branches(bs, (n - 1) as nat, x) + bc(bs@[n - 1].value, x) + times(bs@[n - 1].bindings@, x)
    }
}
/// a match with two branches for a constructor x (what such a match means depends on their order)
pub open spec fn dup(e: Expr, x: Name) -> bool decreases e, 0nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => false,
        Expr::Call(f, args) => dup(*f, x) || dup_list(args, args@.len(), x),
        Expr::If(c, t, e) => dup(*c, x) || dup(*t, x) || dup(*e, x),
        Expr::Op(a, _, b) => dup(*a, x) || dup(*b, x),
        Expr::Intrinsic(_, xs) => dup_list(xs, xs@.len(), x),
        Expr::Construct(_, _, xs) => dup_list(xs, xs@.len(), x),
        Expr::Lambda(ps, b) => dup(*b, x),
        Expr::Match(d, bs) => dup(*d, x) || dup_branches(bs, bs@.len(), x) || ctor_times(bs, bs@.len(), x) > 1,
        Expr::Let(n, v, b) => dup(*v, x) || dup(*b, x),
        Expr::LetRec(n, _, v, b) => dup(*v, x) || dup(*b, x),
        Expr::Pi(_, b) => dup(*b, x),
        Expr::PiApply(b, _) => dup(*b, x),
    }
}
pub open spec fn dup_list(xs: Vec<Expr>, n: nat, x: Name) -> bool decreases xs, n {
    if n == 0 || n > xs@.len() { false } else { dup_list(xs, (n - 1) as nat, x) || dup(xs@[n - 1], x) }
}
pub open spec fn dup_branches(bs: Vec<Branch>, n: nat, x: Name) -> bool decreases bs, n {
    if n == 0 || n > bs@.len() { false } else { dup_branches(bs, (n - 1) as nat, x) || dup(bs@[n - 1].value, x) }
}
pub open spec fn ctor_times(bs: Vec<Branch>, n: nat, x: Name) -> nat decreases n {
    if n == 0 || n > bs@.len() { 0 } else { ctor_times(bs, (n - 1) as nat, x) + if bs@[n - 1].ctor == x { 1nat } else { 0 } }
}
/// the compiler gives every binder a name of its own, and a match one branch for a constructor
pub open spec fn fresh_at(e: Expr, x: Name) -> bool { bc(e, x) <= 1 && (fv(e, x) ==> bc(e, x) == 0) && !dup(e, x) }
pub open spec fn fresh(e: Expr) -> bool { forall|x: Name| #[trigger] fresh_at(e, x) }
/// b may stand for a
pub open spec fn same(a: Expr, b: Expr) -> bool { forall|env: DEnv| #[trigger] den(env, a) == den(env, b) }
pub open spec fn less_at(a: Expr, b: Expr, x: Name) -> bool { bc(b, x) <= bc(a, x) && (fv(b, x) ==> fv(a, x)) && (dup(b, x) ==> dup(a, x)) }
pub open spec fn keeps(a: Expr, b: Expr) -> bool { same(a, b) && forall|x: Name| #[trigger] less_at(a, b, x) }

pub open spec fn keep_list(xs: Seq<Expr>, ys: Seq<Expr>) -> bool {
    xs.len() == ys.len() && forall|k: int| 0 <= k < xs.len() ==> keeps(#[trigger] xs[k], ys[k])
}
pub open spec fn keep_branch(a: Branch, b: Branch) -> bool {
    a.ctor == b.ctor && a.bindings@ == b.bindings@ && keeps(a.value, b.value)
}
pub open spec fn keep_branches(xs: Seq<Branch>, ys: Seq<Branch>) -> bool {
    xs.len() == ys.len() && forall|k: int| 0 <= k < xs.len() ==> keep_branch(#[trigger] xs[k], ys[k])
}
/// b is a with parts that may stand for a's parts
pub open spec fn parts_keep(a: Expr, b: Expr) -> bool {
    match (a, b) {
        (Expr::Bool(_), _) | (Expr::Int(_), _) | (Expr::String(_), _) | (Expr::Name(_), _) | (Expr::Trap(_, _), _) => a == b,
        (Expr::Call(f, xs), Expr::Call(g, ys)) => keeps(*f, *g) && keep_list(xs@, ys@),
        (Expr::If(c, t, e), Expr::If(d, u, f)) => keeps(*c, *d) && keeps(*t, *u) && keeps(*e, *f),
        (Expr::Op(x, o, y), Expr::Op(u, p, v)) => o == p && keeps(*x, *u) && keeps(*y, *v),
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => i == j && keep_list(xs@, ys@),
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => c == d && keep_list(xs@, ys@),
        (Expr::Lambda(ps, x), Expr::Lambda(qs, y)) => param_names(ps@) == param_names(qs@) && keeps(*x, *y),
        (Expr::Match(d, bs), Expr::Match(e, cs)) => keeps(*d, *e) && keep_branches(bs@, cs@),
        (Expr::Let(n, v, r), Expr::Let(m, w, s)) => n == m && keeps(*v, *w) && keeps(*r, *s),
        (Expr::LetRec(n, _, v, r), Expr::LetRec(m, _, w, s)) => n == m && keeps(*v, *w) && keeps(*r, *s),
        (Expr::Pi(_, x), Expr::Pi(_, y)) => keeps(*x, *y),
        (Expr::PiApply(x, _), Expr::PiApply(y, _)) => keeps(*x, *y),
        _ => false,
    }
}
proof fn same_at(env: DEnv, a: Expr, b: Expr)
    requires same(a, b),
    ensures den(env, a) == den(env, b),
{}
proof fn keep_refl(a: Expr)
    ensures keeps(a, a),
{
    assert forall|x: Name| #[trigger] less_at(a, a, x) by {}
}
proof fn keep_trans(a: Expr, b: Expr, c: Expr)
    requires keeps(a, b), keeps(b, c),
    ensures keeps(a, c),
{
    assert forall|env: DEnv| #[trigger] den(env, a) == den(env, c) by { same_at(env, a, b); same_at(env, b, c); }
    assert forall|x: Name| #[trigger] less_at(a, c, x) by { assert(less_at(a, b, x)); assert(less_at(b, c, x)); }
}
proof fn keep_fresh(a: Expr, b: Expr)
    requires keeps(a, b), fresh(a),
    ensures fresh(b),
{
    assert forall|x: Name| #[trigger] fresh_at(b, x) by { assert(less_at(a, b, x)); assert(fresh_at(a, x)); }
}
proof fn list_same(env: DEnv, xs: Vec<Expr>, ys: Vec<Expr>, n: nat)
    requires keep_list(xs@, ys@), n <= xs@.len(),
    ensures den_list(env, xs, n) == den_list(env, ys, n),
    decreases n,
{
    if n > 0 { list_same(env, xs, ys, (n - 1) as nat); assert(keeps(xs@[n - 1], ys@[n - 1])); same_at(env, xs@[n - 1], ys@[n - 1]); }
}
proof fn list_less(xs: Vec<Expr>, ys: Vec<Expr>, n: nat, x: Name)
    requires keep_list(xs@, ys@), n <= xs@.len(),
    ensures bc_list(ys, n, x) <= bc_list(xs, n, x), fv_list(ys, n, x) ==> fv_list(xs, n, x), dup_list(ys, n, x) ==> dup_list(xs, n, x),
    decreases n,
{
    if n > 0 { list_less(xs, ys, (n - 1) as nat, x); assert(keeps(xs@[n - 1], ys@[n - 1])); assert(less_at(xs@[n - 1], ys@[n - 1], x)); }
}
proof fn branches_less(xs: Vec<Branch>, ys: Vec<Branch>, n: nat, x: Name)
    requires keep_branches(xs@, ys@), n <= xs@.len(),
    ensures bc_branches(ys, n, x) <= bc_branches(xs, n, x), fv_branches(ys, n, x) ==> fv_branches(xs, n, x),
        dup_branches(ys, n, x) ==> dup_branches(xs, n, x), ctor_times(ys, n, x) == ctor_times(xs, n, x),
    decreases n,
{
    if n > 0 {
        branches_less(xs, ys, (n - 1) as nat, x);
        assert(keep_branch(xs@[n - 1], ys@[n - 1]));
        assert(less_at(xs@[n - 1].value, ys@[n - 1].value, x));
    }
}
proof fn branches_find(xs: Seq<Branch>, ys: Seq<Branch>, c: Name, i: nat)
    requires keep_branches(xs, ys), i <= xs.len(),
    ensures find_branch(xs, c, i) == find_branch(ys, c, i),
    decreases xs.len() - i,
{
    if i < xs.len() { assert(keep_branch(xs[i as int], ys[i as int])); branches_find(xs, ys, c, i + 1); }
}
#[verifier::spinoff_prover]
proof fn parts_same(env: DEnv, a: Expr, b: Expr)
    requires parts_keep(a, b),
    ensures den(env, a) == den(env, b),
{
    match (a, b) {
        (Expr::Call(f, xs), Expr::Call(g, ys)) => { same_at(env, *f, *g); list_same(env, xs, ys, xs@.len()); }
        (Expr::If(c, t, e), Expr::If(d, u, f)) => { same_at(env, *c, *d); same_at(env, *t, *u); same_at(env, *e, *f); }
        (Expr::Op(x, o, y), Expr::Op(u, p, v)) => { same_at(env, *x, *u); same_at(env, *y, *v); }
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => { list_same(env, xs, ys, xs@.len()); }
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => { list_same(env, xs, ys, xs@.len()); }
        (Expr::Lambda(ps, x), Expr::Lambda(qs, y)) => {
            assert(param_names(ps@).len() == ps@.len() && param_names(qs@).len() == qs@.len());
            let f = lam_fn(env, param_names(ps@), *x);
            let g = lam_fn(env, param_names(qs@), *y);
            assert forall|vs: Seq<D>| #[trigger] f(vs) == g(vs) by { same_at(bind_all(env, param_names(ps@), vs, ps@.len()), *x, *y); }
            assert(f =~= g);
        }
        (Expr::Match(d, bs), Expr::Match(e, cs)) => {
            same_at(env, *d, *e);
            match den(env, *d) {
                D::Comp(c, vs) => {
                    branches_find(bs@, cs@, c, 0);
                    let i = find_branch(bs@, c, 0);
                    if i < bs@.len() {
                        assert(keep_branch(bs@[i as int], cs@[i as int]));
                        same_at(bind_all(env, bs@[i as int].bindings@, vs, bs@[i as int].bindings@.len()), bs@[i as int].value, cs@[i as int].value);
                    }
                }
                _ => {}
            }
        }
        (Expr::Let(n, v, r), Expr::Let(m, w, s)) => { same_at(env, *v, *w); same_at(env.insert(n, den(env, *v)), *r, *s); }
        (Expr::LetRec(n, _, v, r), Expr::LetRec(m, _, w, s)) => {
            let f = rec_fn(env, n, *v);
            let g = rec_fn(env, m, *w);
            assert forall|x: D| #[trigger] f(x) == g(x) by { same_at(env.insert(n, x), *v, *w); }
            assert(f =~= g);
            same_at(env.insert(n, lfp(f)), *r, *s);
        }
        (Expr::Pi(_, x), Expr::Pi(_, y)) => { same_at(env, *x, *y); }
        (Expr::PiApply(x, _), Expr::PiApply(y, _)) => { same_at(env, *x, *y); }
        _ => {}
    }
}
#[verifier::spinoff_prover]
proof fn parts_less(a: Expr, b: Expr, x: Name)
    requires parts_keep(a, b),
    ensures less_at(a, b, x),
{
    match (a, b) {
        (Expr::Call(f, xs), Expr::Call(g, ys)) => { assert(less_at(*f, *g, x)); list_less(xs, ys, xs@.len(), x); }
        (Expr::If(c, t, e), Expr::If(d, u, f)) => { assert(less_at(*c, *d, x)); assert(less_at(*t, *u, x)); assert(less_at(*e, *f, x)); }
        (Expr::Op(p, _, q), Expr::Op(u, _, v)) => { assert(less_at(*p, *u, x)); assert(less_at(*q, *v, x)); }
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => { list_less(xs, ys, xs@.len(), x); }
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => { list_less(xs, ys, xs@.len(), x); }
        (Expr::Lambda(ps, p), Expr::Lambda(qs, q)) => { assert(less_at(*p, *q, x)); }
        (Expr::Match(d, bs), Expr::Match(e, cs)) => { assert(less_at(*d, *e, x)); branches_less(bs, cs, bs@.len(), x); }
        (Expr::Let(n, v, r), Expr::Let(m, w, s)) => { assert(less_at(*v, *w, x)); assert(less_at(*r, *s, x)); }
        (Expr::LetRec(n, _, v, r), Expr::LetRec(m, _, w, s)) => { assert(less_at(*v, *w, x)); assert(less_at(*r, *s, x)); }
        (Expr::Pi(_, p), Expr::Pi(_, q)) => { assert(less_at(*p, *q, x)); }
        (Expr::PiApply(p, _), Expr::PiApply(q, _)) => { assert(less_at(*p, *q, x)); }
        _ => {}
    }
}
proof fn cong(a: Expr, b: Expr)
    requires parts_keep(a, b),
    ensures keeps(a, b),
{
    assert forall|env: DEnv| #[trigger] den(env, a) == den(env, b) by { parts_same(env, a, b); }
    assert forall|x: Name| #[trigger] less_at(a, b, x) by { parts_less(a, b, x); }
}

// ---- the parts of an expression with fresh names have fresh names ----------------------
proof fn list_part(xs: Vec<Expr>, n: nat, k: int, x: Name)
    requires 0 <= k < n <= xs@.len(),
    ensures bc(xs@[k], x) <= bc_list(xs, n, x), fv(xs@[k], x) ==> fv_list(xs, n, x), dup(xs@[k], x) ==> dup_list(xs, n, x),
    decreases n,
{
    if k < n - 1 { list_part(xs, (n - 1) as nat, k, x); }
}
proof fn branch_part(bs: Vec<Branch>, n: nat, k: int, x: Name)
    requires 0 <= k < n <= bs@.len(),
    ensures bc(bs@[k].value, x) + times(bs@[k].bindings@, x) <= bc_branches(bs, n, x),
        fv(bs@[k].value, x) && !bs@[k].bindings@.contains(x) ==> fv_branches(bs, n, x),
        dup(bs@[k].value, x) ==> dup_branches(bs, n, x),
    decreases n,
{
    if k < n - 1 { branch_part(bs, (n - 1) as nat, k, x); }
}
proof fn times_in(s: Seq<Name>, x: Name)
    ensures s.contains(x) <==> times(s, x) > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        times_in(s.drop_last(), x);
        if s.contains(x) && s.last() != x { let i = s.index_of(x); assert(s.drop_last()[i] == x); }
        if s.drop_last().contains(x) { let i = s.drop_last().index_of(x); assert(s[i] == x); }
        if s.last() == x { assert(s[s.len() - 1] == x); }
    }
}
pub open spec fn all_fresh(xs: Seq<Expr>) -> bool { forall|k: int| 0 <= k < xs.len() ==> fresh(#[trigger] xs[k]) }
pub open spec fn branches_fresh(bs: Seq<Branch>) -> bool { forall|k: int| 0 <= k < bs.len() ==> fresh((#[trigger] bs[k]).value) }
pub open spec fn parts_fresh(e: Expr) -> bool {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => true,
        Expr::Call(f, args) => fresh(*f) && all_fresh(args@),
        Expr::If(c, t, e) => fresh(*c) && fresh(*t) && fresh(*e),
        Expr::Op(a, _, b) => fresh(*a) && fresh(*b),
        Expr::Intrinsic(_, xs) => all_fresh(xs@),
        Expr::Construct(_, _, xs) => all_fresh(xs@),
        Expr::Lambda(ps, b) => fresh(*b),
        Expr::Match(d, bs) => fresh(*d) && branches_fresh(bs@),
        Expr::Let(n, v, b) => fresh(*v) && fresh(*b),
        Expr::LetRec(n, _, v, b) => fresh(*v) && fresh(*b),
        Expr::Pi(_, b) => fresh(*b),
        Expr::PiApply(b, _) => fresh(*b),
    }
}
proof fn list_fresh(e: Expr, xs: Vec<Expr>)
    requires fresh(e), forall|x: Name| #![auto] bc_list(xs, xs@.len(), x) <= bc(e, x) && (fv_list(xs, xs@.len(), x) ==> fv(e, x)) && (dup_list(xs, xs@.len(), x) ==> dup(e, x)),
    ensures all_fresh(xs@),
{
    assert forall|k: int| 0 <= k < xs@.len() implies fresh(#[trigger] xs@[k]) by {
        assert forall|x: Name| #[trigger] fresh_at(xs@[k], x) by { list_part(xs, xs@.len(), k, x); assert(fresh_at(e, x)); }
    }
}
#[verifier::spinoff_prover]
proof fn fresh_parts(e: Expr)
    requires fresh(e),
    ensures parts_fresh(e),
{
    match e {
        Expr::Call(f, args) => {
            assert forall|x: Name| #[trigger] fresh_at(*f, x) by { assert(fresh_at(e, x)); }
            list_fresh(e, args);
        }
        Expr::If(c, t, r) => {
            assert forall|x: Name| #[trigger] fresh_at(*c, x) by { assert(fresh_at(e, x)); }
            assert forall|x: Name| #[trigger] fresh_at(*t, x) by { assert(fresh_at(e, x)); }
            assert forall|x: Name| #[trigger] fresh_at(*r, x) by { assert(fresh_at(e, x)); }
        }
        Expr::Op(a, _, b) => {
            assert forall|x: Name| #[trigger] fresh_at(*a, x) by { assert(fresh_at(e, x)); }
            assert forall|x: Name| #[trigger] fresh_at(*b, x) by { assert(fresh_at(e, x)); }
        }
        Expr::Intrinsic(_, xs) => { list_fresh(e, xs); }
        Expr::Construct(_, _, xs) => { list_fresh(e, xs); }
        Expr::Lambda(ps, b) => {
            assert forall|x: Name| #[trigger] fresh_at(*b, x) by { assert(fresh_at(e, x)); times_in(param_names(ps@), x); }
        }
        Expr::Match(d, bs) => {
            assert forall|x: Name| #[trigger] fresh_at(*d, x) by { assert(fresh_at(e, x)); }
            assert forall|k: int| 0 <= k < bs@.len() implies fresh((#[trigger] bs@[k]).value) by {
                assert forall|x: Name| #[trigger] fresh_at(bs@[k].value, x) by {
                    assert(fresh_at(e, x)); branch_part(bs, bs@.len(), k, x); times_in(bs@[k].bindings@, x);
                }
            }
        }
        Expr::Let(n, v, b) => {
            assert forall|x: Name| #[trigger] fresh_at(*v, x) by { assert(fresh_at(e, x)); }
            assert forall|x: Name| #[trigger] fresh_at(*b, x) by { assert(fresh_at(e, x)); }
        }
        Expr::LetRec(n, _, v, b) => {
            assert forall|x: Name| #[trigger] fresh_at(*v, x) by { assert(fresh_at(e, x)); }
            assert forall|x: Name| #[trigger] fresh_at(*b, x) by { assert(fresh_at(e, x)); }
        }
        Expr::Pi(_, b) => { assert forall|x: Name| #[trigger] fresh_at(*b, x) by { assert(fresh_at(e, x)); } }
        Expr::PiApply(b, _) => { assert forall|x: Name| #[trigger] fresh_at(*b, x) by { assert(fresh_at(e, x)); } }
        _ => {}
    }
}

// ---- an expression depends on its free names only ---------------------------------------
pub open spec fn agree(e1: DEnv, e2: DEnv, s: spec_fn(Name) -> bool) -> bool {
    forall|n: Name| s(n) ==> #[trigger] look(e1, n) == look(e2, n)
}
proof fn bind_look(e1: DEnv, e2: DEnv, names: Seq<Name>, vals: Seq<D>, n: nat, x: Name)
    requires n <= names.len(), look(e1, x) == look(e2, x) || names.take(n as int).contains(x),
    ensures look(bind_all(e1, names, vals, n), x) == look(bind_all(e2, names, vals, n), x),
    decreases n,
{
    if n == 0 {
        assert(names.take(0) =~= Seq::empty());
        assert(!Seq::<Name>::empty().contains(x));
    } else if names[n - 1] != x {
        assert(names.take(n as int) =~= names.take(n - 1).push(names[n - 1]));
        if names.take(n as int).contains(x) {
            let i = names.take(n as int).index_of(x);
            assert(names.take(n as int)[i] == x);
            assert(names.take(n - 1)[i] == x);
        }
        bind_look(e1, e2, names, vals, (n - 1) as nat, x);
    }
}
#[verifier::spinoff_prover]
proof fn frame(e1: DEnv, e2: DEnv, e: Expr)
    requires agree(e1, e2, |x: Name| fv(e, x)),
    ensures den(e1, e) == den(e2, e),
    decreases e, 0nat,
{
    let s = |x: Name| fv(e, x);
    match e {
        Expr::Name(n) => { assert(s(n)); }
        Expr::Call(f, args) => { frame_in(e1, e2, e, *f); frame_list(e1, e2, e, args, args@.len()); }
        Expr::If(c, t, r) => { frame_in(e1, e2, e, *c); frame_in(e1, e2, e, *t); frame_in(e1, e2, e, *r); }
        Expr::Op(a, _, b) => { frame_in(e1, e2, e, *a); frame_in(e1, e2, e, *b); }
        Expr::Intrinsic(_, xs) => { frame_list(e1, e2, e, xs, xs@.len()); }
        Expr::Construct(_, _, xs) => { frame_list(e1, e2, e, xs, xs@.len()); }
        Expr::Lambda(ps, b) => {
            let names = param_names(ps@);
            let f = lam_fn(e1, names, *b);
            let g = lam_fn(e2, names, *b);
            assert(names.take(ps@.len() as int) =~= names);
            assert forall|vs: Seq<D>| #[trigger] f(vs) == g(vs) by {
                let t1 = bind_all(e1, names, vs, ps@.len());
                let t2 = bind_all(e2, names, vs, ps@.len());
                let u = |x: Name| fv(*b, x);
                assert forall|x: Name| u(x) implies #[trigger] look(t1, x) == look(t2, x) by {
                    if !names.contains(x) { assert(s(x)); assert(look(e1, x) == look(e2, x)); }
                    bind_look(e1, e2, names, vs, ps@.len(), x);
                }
                frame(t1, t2, *b);
            }
            assert(f =~= g);
        }
        Expr::Match(d, bs) => {
            frame_in(e1, e2, e, *d);
            match den(e1, *d) {
                D::Comp(c, vs) => {
                    let i = find_branch(bs@, c, 0);
                    if i < bs@.len() {
                        let br = bs@[i as int];
                        let names = br.bindings@;
                        assert(names.take(names.len() as int) =~= names);
                        let t1 = bind_all(e1, names, vs, names.len());
                        let t2 = bind_all(e2, names, vs, names.len());
                        let u = |x: Name| fv(br.value, x);
                        assert forall|x: Name| u(x) implies #[trigger] look(t1, x) == look(t2, x) by {
                            if !names.contains(x) { branch_part(bs, bs@.len(), i as int, x); assert(s(x)); assert(look(e1, x) == look(e2, x)); }
                            bind_look(e1, e2, names, vs, names.len(), x);
                        }
                        frame(t1, t2, br.value);
                    }
                }
                _ => {}
            }
        }
        Expr::Let(n, v, b) => {
            frame_in(e1, e2, e, *v);
            frame_insert(e1, e2, n, den(e1, *v), *b, s);
        }
        Expr::LetRec(n, _, v, b) => {
            let f = rec_fn(e1, n, *v);
            let g = rec_fn(e2, n, *v);
            assert forall|x: D| #[trigger] f(x) == g(x) by { frame_insert(e1, e2, n, x, *v, s); }
            assert(f =~= g);
            frame_insert(e1, e2, n, lfp(f), *b, s);
        }
        Expr::Pi(_, b) => { frame_in(e1, e2, e, *b); }
        Expr::PiApply(b, _) => { frame_in(e1, e2, e, *b); }
        _ => {}
    }
}
proof fn frame_insert(e1: DEnv, e2: DEnv, n: Name, v: D, b: Expr, s: spec_fn(Name) -> bool)
    requires agree(e1, e2, s), forall|x: Name| #[trigger] fv(b, x) && x != n ==> s(x),
    ensures den(e1.insert(n, v), b) == den(e2.insert(n, v), b),
    decreases b, 1nat,
{
    let u = |x: Name| fv(b, x);
    assert forall|x: Name| u(x) implies #[trigger] look(e1.insert(n, v), x) == look(e2.insert(n, v), x) by {
        if x != n { assert(s(x)); assert(look(e1, x) == look(e2, x)); }
    }
    frame(e1.insert(n, v), e2.insert(n, v), b);
}
proof fn frame_in(e1: DEnv, e2: DEnv, e: Expr, p: Expr)
    requires agree(e1, e2, |x: Name| fv(e, x)), forall|x: Name| #[trigger] fv(p, x) ==> fv(e, x),
    ensures den(e1, p) == den(e2, p),
    decreases p, 1nat,
{
    let s = |x: Name| fv(e, x);
    let u = |x: Name| fv(p, x);
    assert forall|x: Name| u(x) implies #[trigger] look(e1, x) == look(e2, x) by { assert(s(x)); }
    frame(e1, e2, p);
}
proof fn frame_list(e1: DEnv, e2: DEnv, e: Expr, xs: Vec<Expr>, n: nat)
    requires agree(e1, e2, |x: Name| fv(e, x)), n <= xs@.len(), forall|x: Name| #[trigger] fv_list(xs, xs@.len(), x) ==> fv(e, x),
    ensures den_list(e1, xs, n) == den_list(e2, xs, n),
    decreases xs, n,
{
    if n > 0 {
        frame_list(e1, e2, e, xs, (n - 1) as nat);
        assert forall|x: Name| #[trigger] fv(xs@[n - 1], x) implies fv(e, x) by { list_part(xs, xs@.len(), n - 1, x); }
        frame_in(e1, e2, e, xs@[n - 1]);
    }
}
/// a name that is not free may be bound to anything
proof fn weaken(env: DEnv, n: Name, v: D, e: Expr)
    requires !fv(e, n),
    ensures den(env.insert(n, v), e) == den(env, e),
{
    let s = |x: Name| fv(e, x);
    assert forall|x: Name| s(x) implies #[trigger] look(env.insert(n, v), x) == look(env, x) by {}
    frame(env.insert(n, v), env, e);
}
