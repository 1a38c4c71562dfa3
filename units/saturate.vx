// Unit `saturate`: ticc/src/codegen/opt/saturate.rs against the call-by-name meaning of
// expressions (C03). The pass gives a function that takes its arguments in several groups one group
// that holds them all, and puts in place of each use of its name a function that takes the groups one
// by one and makes one call.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ rule pub ( crate ) id : u64 ==> pub id : u64
//@ include den.inc
//@ rule ?names : Vec < & 'a str > ==> pub names : Vec < & 'a str >

// ---- std stand-ins
#[verifier::external_body]
fn vx_stop() -> ! { unimplemented!() }
/// `args.iter().map(|t| t.clone()).collect()`
#[verifier::external_body]
fn vx_types(args: &Vec<Ty>) -> (r: Vec<Ty>) ensures r@.len() == args@.len() { unimplemented!() }
/// `params.iter().map(|p| (p.name, p.ty.clone())).collect()`
#[verifier::external_body]
fn vx_params(ps: &Vec<LambdaParam>) -> (r: Vec<(Name, Ty)>) ensures r@.len() == ps@.len() { unimplemented!() }
#[verifier::external_body]
fn vx_clone_ty(t: &Ty) -> (r: Ty) { unimplemented!() }
/// instantiates the type variables of a function's parameter (types do not matter to the meaning)
#[verifier::external_body]
fn vx_instantiate(ty: &mut Ty, vars: &Vec<TyVar>, inst: &Vec<TyVar>) { unimplemented!() }
#[verifier::external_body]
fn vx_clone_expr(e: &Expr) -> (r: Expr) ensures r == *e { unimplemented!() }
#[verifier::external_body]
fn vx_extend(a: &mut Vec<LambdaParam>, b: Vec<LambdaParam>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body]
fn vx_extend_ty(a: &mut Vec<Ty>, b: Vec<Ty>) { unimplemented!() }
/// do the groups differ in number or size?
#[verifier::external_body]
fn vx_differ(a: &Vec<Vec<Ty>>, b: &Vec<Vec<(Name, Ty)>>) -> (r: bool)
    ensures r == !(sizes(a@) =~= sizes(b@)),
{ unimplemented!() }

// ---- function values and groups of arguments
/// what a function value is depends on its results at its own number of arguments only
pub axiom fn ext(f: spec_fn(Seq<D>) -> D, g: spec_fn(Seq<D>) -> D, n: nat)
    requires forall|vs: Seq<D>| vs.len() == n ==> #[trigger] f(vs) == g(vs),
    ensures mk(f, n) == mk(g, n);
pub open spec fn sizes<T>(s: Seq<Vec<T>>) -> Seq<nat> { Seq::new(s.len(), |i: int| s[i]@.len()) }
/// the function that takes groups of arguments of these sizes one by one and calls d with all of them
pub open spec fn curry(d: D, ls: Seq<nat>, acc: Seq<D>) -> D decreases ls.len(), 0nat {
    if ls.len() == 0 { app(d, acc) } else { D::Fn(mk(curry_fn(d, ls.drop_first(), acc), ls[0])) }
}
pub open spec fn curry_fn(d: D, ls: Seq<nat>, acc: Seq<D>) -> spec_fn(Seq<D>) -> D decreases ls.len(), 1nat {
    |vs: Seq<D>| curry(d, ls, acc + vs)
}
proof fn curry_by(d: D, ls: Seq<nat>, acc: Seq<D>, vs: Seq<D>)
    ensures curry_fn(d, ls, acc)(vs) == curry(d, ls, acc + vs),
{}
proof fn curry_on(d: D, ls: Seq<nat>, acc: Seq<D>)
    requires ls.len() > 0,
    ensures curry(d, ls, acc) == D::Fn(mk(curry_fn(d, ls.drop_first(), acc), ls[0])),
{}
/// the sizes of the parameter groups of an expression
pub open spec fn lam_groups(e: Expr) -> Seq<nat> decreases e {
    match e { Expr::Lambda(ps, b) => seq![ps@.len()] + lam_groups(*b), _ => Seq::empty() }
}
pub open spec fn all_params(e: Expr) -> Seq<LambdaParam> decreases e {
    match e { Expr::Lambda(ps, b) => ps@ + all_params(*b), _ => Seq::empty() }
}
pub open spec fn body(e: Expr) -> Expr decreases e {
    match e { Expr::Lambda(_, b) => body(*b), _ => e }
}
pub open spec fn under_pi(e: Expr) -> Expr decreases e {
    match e { Expr::Pi(_, b) => under_pi(*b), _ => e }
}
/// b in place of what is under the type parameters of e
pub open spec fn put_pi(e: Expr, b: Expr) -> Expr decreases e {
    match e { Expr::Pi(v, x) => Expr::Pi(v, Box::new(put_pi(*x, b))), _ => b }
}
/// a function that takes the groups of arguments of a one by one is b called with all of them
pub open spec fn collapsed(a: Expr, b: Expr, ls: Seq<nat>) -> bool {
    (forall|env: DEnv| #[trigger] den(env, a) == curry(den(env, b), ls, Seq::empty())) && same_names(a, b)
}
/// the same names are free and the same names are bound
pub open spec fn occ_same(a: Expr, b: Expr, x: Name) -> bool { bc(a, x) == bc(b, x) && fv(a, x) == fv(b, x) }
pub open spec fn same_names(a: Expr, b: Expr) -> bool { forall|x: Name| #[trigger] occ_same(a, b, x) }
proof fn times_add(a: Seq<Name>, b: Seq<Name>, x: Name)
    ensures times(a + b, x) == times(a, x) + times(b, x),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); times_add(a, b.drop_last(), x); }
}
proof fn names_of(e: Expr, x: Name)
    ensures
        bc(e, x) == bc(body(e), x) + times(param_names(all_params(e)), x),
        fv(e, x) == (fv(body(e), x) && !param_names(all_params(e)).contains(x)),
    decreases e,
{
    match e {
        Expr::Lambda(ps, b) => {
            names_of(*b, x);
            let p = param_names(ps@);
            let q = param_names(all_params(*b));
            assert(param_names(all_params(e)) =~= p + q);
            times_add(p, q, x);
            if p.contains(x) { let i = p.index_of(x); assert((p + q)[i] == x); }
            if q.contains(x) { let i = q.index_of(x); assert((p + q)[p.len() + i] == x); }
            if (p + q).contains(x) { let i = (p + q).index_of(x); assert(if i < p.len() { p[i] == x } else { q[i - p.len()] == x }); }
        },
        _ => { assert(param_names(all_params(e)) =~= Seq::<Name>::empty()); },
    }
}
pub open spec fn bind_ps(env: DEnv, ps: Seq<LambdaParam>, vs: Seq<D>) -> DEnv { bind_all(env, param_names(ps), vs, ps.len()) }
proof fn bind_more(env: DEnv, ps: Seq<LambdaParam>, vs: Seq<D>, qs: Seq<LambdaParam>, ws: Seq<D>, n: nat)
    requires vs.len() == ps.len(), ws.len() == qs.len(), n <= qs.len(),
    ensures bind_all(env, param_names(ps + qs), vs + ws, ps.len() + n) == bind_all(bind_ps(env, ps, vs), param_names(qs), ws, n),
    decreases n,
{
    let a = param_names(ps + qs);
    if n == 0 {
        bind_prefix(env, a, vs + ws, param_names(ps), vs, ps.len());
    } else {
        bind_more(env, ps, vs, qs, ws, (n - 1) as nat);
        assert(a[ps.len() + n - 1] == param_names(qs)[n - 1]);
        assert((vs + ws)[ps.len() + n - 1] == ws[n - 1]);
    }
}
proof fn bind_prefix(env: DEnv, a: Seq<Name>, vs: Seq<D>, b: Seq<Name>, ws: Seq<D>, n: nat)
    requires n <= a.len(), n <= b.len(), n <= vs.len(), n <= ws.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] && vs[i] == ws[i],
    ensures bind_all(env, a, vs, n) == bind_all(env, b, ws, n),
    decreases n,
{
    if n > 0 { bind_prefix(env, a, vs, b, ws, (n - 1) as nat); }
}
/// one function with all the parameters of e, seen from under the first groups
proof fn one_by_one(env: DEnv, done: Seq<LambdaParam>, acc: Seq<D>, rest: Expr, all: Vec<LambdaParam>, b: Box<Expr>)
    requires acc.len() == done.len(), all@ == done + all_params(rest), *b == body(rest),
    ensures den(bind_ps(env, done, acc), rest) == curry(den(env, Expr::Lambda(all, b)), lam_groups(rest), acc),
    decreases rest,
{
    let d = den(env, Expr::Lambda(all, b));
    match rest {
        Expr::Lambda(ps, x) => {
            let ls = lam_groups(rest);
            let e1 = bind_ps(env, done, acc);
            let f = lam_fn(e1, param_names(ps@), *x);
            let g = curry_fn(d, ls.drop_first(), acc);
            assert(ls[0] == ps@.len());
            curry_on(d, ls, acc);
            assert(ls.drop_first() =~= lam_groups(*x));
            assert(all@ =~= (done + ps@) + all_params(*x));
            assert forall|vs: Seq<D>| vs.len() == ps@.len() implies #[trigger] f(vs) == g(vs) by {
                curry_by(d, ls.drop_first(), acc, vs);
                bind_more(env, done, acc, ps@, vs, ps@.len());
                one_by_one(env, done + ps@, acc + vs, *x, all, b);
                assert(param_names(done + ps@).len() == done.len() + ps@.len());
            }
            ext(f, g, ps@.len());
        },
        _ => {
            assert(lam_groups(rest) =~= Seq::<nat>::empty());
            assert(all@ =~= done);
            beta(env, all, b, acc);
        },
    }
}
proof fn collapse(e: Expr, all: Vec<LambdaParam>, b: Box<Expr>)
    requires all@ == all_params(e), *b == body(e),
    ensures collapsed(e, Expr::Lambda(all, b), lam_groups(e)),
{
    assert forall|env: DEnv| #[trigger] den(env, e) == curry(den(env, Expr::Lambda(all, b)), lam_groups(e), Seq::empty()) by {
        assert(all@ =~= Seq::<LambdaParam>::empty() + all_params(e));
        one_by_one(env, Seq::empty(), Seq::empty(), e, all, b);
        assert(bind_ps(env, Seq::empty(), Seq::empty()) == env);
    }
    assert forall|x: Name| #[trigger] occ_same(e, Expr::Lambda(all, b), x) by { names_of(e, x); }
}
//@ fn ticc/src/codegen/opt/saturate.rs collapse_lambdas
//@ ret r
//@ rule mut e : ir :: Expr ==> e : Expr
//@ rule final_params . extend ( params ) ==> vx_extend ( & mut final_params , params )
//@ rule break ir :: Expr :: Lambda ( final_params , Box :: new ( output ) ) ==> return Expr :: Lambda ( final_params , Box :: new ( output ) )
    ensures collapsed(e, r, lam_groups(e)), r is Lambda,
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ head
    let ghost e0 = e;
    let mut e = e;
//@ loop 0
    invariant all_params(e0) == final_params@ + all_params(e), body(e0) == body(e),
    decreases e,
//@ before match e
    proof { assert(forall|ps: Vec<LambdaParam>, b: Box<Expr>| e == Expr::Lambda(ps, b) ==> (final_params@ + ps@) + all_params(*b) == final_params@ + (ps@ + all_params(*b))); }
//@ before break
    proof { assert(final_params@ =~= all_params(e0)); collapse(e0, final_params, Box::new(output)); }
//@ end

/// the sizes of the groups of arguments a function of the type takes
pub open spec fn fn_groups(t: Ty) -> Seq<nat> decreases t {
    match t { Ty::Fn(ps, b) => seq![ps@.len()] + fn_groups(*b), _ => Seq::empty() }
}
pub open spec fn under_abs(t: Ty) -> Ty decreases t { match t { Ty::Abs(_, b) => under_abs(*b), _ => t } }
pub open spec fn abs_count(t: Ty) -> nat decreases t { match t { Ty::Abs(_, b) => 1 + abs_count(*b), _ => 0 } }
pub open spec fn pi_count(e: Expr) -> nat decreases e { match e { Expr::Pi(_, b) => 1 + pi_count(*b), _ => 0 } }
proof fn pushed<T>(s: Seq<Vec<T>>, v: Vec<T>)
    ensures sizes(s.push(v)) =~= sizes(s).push(v@.len()),
{}
proof fn joined(a: Seq<nat>, n: nat, b: Seq<nat>)
    ensures a + (seq![n] + b) =~= a.push(n) + b,
{}
//@ fn ticc/src/codegen/opt/saturate.rs get_arg_groups
//@ ret r
//@ rule mut t : & ir :: Ty ==> t : & Ty
//@ rule args . iter ( ) . map ( | t | t . clone ( ) ) . collect ( ) ==> vx_types ( args )
//@ rule break ( vars , groups ) ==> return ( vars , groups )
    ensures r.0@.len() == abs_count(*t), sizes(r.1@) =~= fn_groups(under_abs(*t)),
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ head
    let ghost t0 = *t;
    let mut t = t;
//@ loop 0
    invariant under_abs(*t) == under_abs(t0), vars@.len() + abs_count(*t) == abs_count(t0), groups@.len() == 0,
    ensures *t == under_abs(t0), vars@.len() == abs_count(t0), groups@.len() == 0,
    decreases *t,
//@ loop 1
    invariant sizes(groups@) + fn_groups(*t) =~= fn_groups(under_abs(t0)), vars@.len() == abs_count(t0),
    decreases *t,
//@ end
//@ fn ticc/src/codegen/opt/saturate.rs get_actual_arg_groups
//@ ret r
//@ rule mut e : & ir :: Expr ==> e : & Expr
//@ rule params . iter ( ) . map ( | p | ( p . name , p . ty . clone ( ) ) ) . collect ( ) ==> vx_params ( params )
//@ rule break ( vars , groups ) ==> return ( vars , groups )
    ensures r.0@.len() == pi_count(*e), sizes(r.1@) =~= lam_groups(under_pi(*e)),
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ head
    let ghost e0 = *e;
    let mut e = e;
//@ loop 0
    invariant under_pi(*e) == under_pi(e0), vars@.len() + pi_count(*e) == pi_count(e0), groups@.len() == 0,
    ensures *e == under_pi(e0), vars@.len() == pi_count(e0), groups@.len() == 0,
    decreases *e,
//@ loop 1
    invariant sizes(groups@) + lam_groups(*e) =~= lam_groups(under_pi(e0)), vars@.len() == pi_count(e0),
    decreases *e,
//@ end

pub struct Rewrite { pub vars: Vec<TyVar>, pub arg_groups: Vec<Vec<Ty>> }
/// b in place of what is k type parameters down in e
pub open spec fn wrap(e: Expr, k: nat, b: Expr) -> Expr decreases k {
    if k == 0 { b } else { match e { Expr::Pi(v, x) => Expr::Pi(v, Box::new(wrap(*x, (k - 1) as nat, b))), _ => b } }
}
pub open spec fn down(e: Expr, k: nat) -> Expr decreases k {
    if k == 0 { e } else { match e { Expr::Pi(_, x) => down(*x, (k - 1) as nat), _ => e } }
}
proof fn wrap_more(e: Expr, k: nat, v: TyVar, x: Box<Expr>, b: Expr)
    requires down(e, k) == Expr::Pi(v, x),
    ensures wrap(e, k + 1, b) == wrap(e, k, Expr::Pi(v, Box::new(b))), down(e, k + 1) == *x,
    decreases k,
{
    if k > 0 { wrap_more(*e->Pi_1, (k - 1) as nat, v, x, b); } else { assert(wrap(*x, 0, b) == b); assert(down(*x, 0) == *x); }
}
proof fn wrapped_same(env: DEnv, e: Expr, k: nat, b: Expr)
    requires forall|x: Name| #[trigger] occ_same(down(e, k), b, x),
    ensures
        den(env, wrap(e, k, b)) == den(env, b), den(env, e) == den(env, down(e, k)),
        forall|x: Name| #[trigger] occ_same(e, wrap(e, k, b), x),
    decreases k,
{
    if k > 0 { match e { Expr::Pi(v, x) => {
        wrapped_same(env, *x, (k - 1) as nat, b);
        assert forall|y: Name| #[trigger] occ_same(e, wrap(e, k, b), y) by { assert(occ_same(*x, wrap(*x, (k - 1) as nat, b), y)); }
    }, _ => {} } }
}
#[verifier::external_body]
fn collapse_arg_groups(t: Ty) -> (r: Ty) { unimplemented!() }
//@ fn ticc/src/codegen/opt/saturate.rs check_for_rewrite
//@ ret r
//@ rule mut t : & mut ir :: Ty ==> t : & mut Ty
//@ rule mut expr : & mut ir :: Expr ==> expr : & mut Expr
//@ rule arg_groups . iter ( ) . map ( | g | g . len ( ) ) . collect :: < Vec < _ > > ( ) != actual_groups . iter ( ) . map ( | g | g . len ( ) ) . collect :: < Vec < _ > > ( ) ==> vx_differ ( & arg_groups , & actual_groups )
//@ rule t . clone ( ) ==> vx_clone_ty ( & * t )
//@ rule expr . clone ( ) ==> vx_clone_expr ( & * expr )
    ensures
        r is None ==> *final(expr) == *old(expr),
        r matches Some(w) ==> sizes(w.arg_groups@) == lam_groups(under_pi(*old(expr))) && sizes(w.arg_groups@).len() >= 2
            && collapsed(*old(expr), *final(expr), sizes(w.arg_groups@)),
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ head
    let ghost e0 = *expr;
    let ghost fin = *final(expr);
    let mut t = t;
    let mut expr = expr;
    let ghost mut k: nat = 0;
//@ loop 0
    decreases *t,
//@ loophead 1
    let ghost x0 = *expr;
//@ before expr = e
    proof { wrap_more(e0, k, x0->Pi_0, x0->Pi_1, **final(e)); k = k + 1; }
//@ before * expr = collapse_lambdas
    let ghost x1 = *expr;
//@ after * expr = collapse_lambdas
    proof { assert forall|env: DEnv| #[trigger] den(env, e0) == curry(den(env, fin), sizes(arg_groups@), Seq::empty()) by { wrapped_same(env, e0, k, *expr); } wrapped_same(Map::empty(), e0, k, *expr); }
//@ loop 1
    invariant down(e0, k) == *expr, fin == wrap(e0, k, *final(expr)), under_pi(*expr) == under_pi(e0),
    ensures down(e0, k) == *expr, fin == wrap(e0, k, *final(expr)), *expr == under_pi(e0),
    decreases *expr,
//@ end

// ---- the function put in place of a use
//@ type ticc-core/src/ir.rs NameGenerator
pub open spec fn cnt(n: NameGenerator) -> nat { n.names@.len() }
#[verifier::external_body]
pub struct TyGenerator { n: usize }
impl TyGenerator {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: TyVar) { unimplemented!() }
}
impl<'a> NameGenerator<'a> {
//@ fn ticc-core/src/ir.rs NameGenerator::new_fresh
//@ ret r
    ensures r.id == cnt(*old(self)), cnt(*final(self)) == cnt(*old(self)) + 1,
//@ end
//@ fn ticc-core/src/ir.rs NameGenerator::next_synthetic
//@ ret r
    ensures r.id == cnt(*old(self)), cnt(*final(self)) == cnt(*old(self)) + 1,
//@ end
}
pub open spec fn name_exprs(ns: Seq<Name>) -> Seq<Expr> { Seq::new(ns.len(), |i: int| Expr::Name(ns[i])) }
/// `a.extend(args.into_iter().map(ir::Expr::Name))`
#[verifier::external_body]
fn vx_extend_names(a: &mut Vec<Expr>, args: Vec<Name>) ensures final(a)@ == old(a)@ + name_exprs(args@) { unimplemented!() }
#[verifier::external_body]
fn vx_reverse_from(a: &mut Vec<Name>, from: usize)
    requires from <= old(a)@.len(),
    ensures final(a)@ == old(a)@.subrange(0, from as int) + old(a)@.subrange(from as int, old(a)@.len() as int).reverse(),
{ unimplemented!() }
#[verifier::external_body]
fn vx_reverse(a: &mut Vec<Name>) ensures final(a)@ == old(a)@.reverse() { unimplemented!() }
#[verifier::external_body]
fn vx_rev<'a>(v: &'a Vec<Vec<Ty>>) -> (r: Vec<&'a Vec<Ty>>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[v@.len() - 1 - i],
{ unimplemented!() }
#[verifier::external_body]
fn vx_rev_vars(v: Vec<TyVar>) -> (r: Vec<TyVar>) { unimplemented!() }
/// an expression that stands for a name
pub open spec fn means_name(e: Expr, n: Name) -> bool { forall|env: DEnv| #[trigger] den(env, e) == look(env, n) }
/// a call of what f says with the names ns
pub open spec fn call_of(e: Expr, n: Name, ns: Seq<Name>) -> bool {
    e is Call && means_name(*e->Call_0, n) && e->Call_1@ == name_exprs(ns)
}
proof fn bind_at(env: DEnv, ns: Seq<Name>, vs: Seq<D>, k: nat, i: int)
    requires 0 <= i < k, k <= ns.len(), k <= vs.len(), ns.no_duplicates(),
    ensures look(bind_all(env, ns, vs, k), ns[i]) == vs[i],
    decreases k,
{
    if i < k - 1 { bind_at(env, ns, vs, (k - 1) as nat, i); assert(ns[i] != ns[k - 1]); }
}
proof fn bind_other(env: DEnv, ns: Seq<Name>, vs: Seq<D>, k: nat, x: Name)
    requires k <= ns.len(), k <= vs.len(), !ns.contains(x),
    ensures look(bind_all(env, ns, vs, k), x) == look(env, x),
    decreases k,
{
    if k > 0 { bind_other(env, ns, vs, (k - 1) as nat, x); assert(ns[k - 1] != x); }
}
proof fn names_den(env: DEnv, ns: Seq<Name>, vs: Seq<D>, xs: Vec<Expr>, k: nat)
    requires xs@ == name_exprs(ns), k <= ns.len(), vs.len() == ns.len(), forall|i: int| 0 <= i < ns.len() ==> look(env, #[trigger] ns[i]) == vs[i],
    ensures den_list(env, xs, k) =~= vs.subrange(0, k as int),
    decreases k,
{
    if k > 0 { names_den(env, ns, vs, xs, (k - 1) as nat); assert(xs@[k - 1] == Expr::Name(ns[k - 1])); assert(look(env, ns[k - 1]) == vs[k - 1]); assert(den(env, Expr::Name(ns[k - 1])) == look(env, ns[k - 1])); assert(k <= xs@.len()); }
}
proof fn used(env: DEnv, n: Name, done: Seq<LambdaParam>, acc: Seq<D>, rest: Expr)
    requires
        acc.len() == done.len(), call_of(body(rest), n, param_names(done + all_params(rest))),
        param_names(done + all_params(rest)).no_duplicates(), !param_names(done + all_params(rest)).contains(n),
    ensures den(bind_ps(env, done, acc), rest) == curry(look(env, n), lam_groups(rest), acc),
    decreases rest,
{
    let d = look(env, n);
    match rest {
        Expr::Lambda(ps, x) => {
            let ls = lam_groups(rest);
            let e1 = bind_ps(env, done, acc);
            let f = lam_fn(e1, param_names(ps@), *x);
            let g = curry_fn(d, ls.drop_first(), acc);
            assert(ls[0] == ps@.len());
            curry_on(d, ls, acc);
            assert(ls.drop_first() =~= lam_groups(*x));
            assert((done + ps@) + all_params(*x) =~= done + all_params(rest));
            assert forall|vs: Seq<D>| vs.len() == ps@.len() implies #[trigger] f(vs) == g(vs) by {
                curry_by(d, ls.drop_first(), acc, vs);
                bind_more(env, done, acc, ps@, vs, ps@.len());
                used(env, n, done + ps@, acc + vs, *x);
                assert(param_names(done + ps@).len() == done.len() + ps@.len());
            }
            ext(f, g, ps@.len());
        },
        _ => {
            assert(lam_groups(rest) =~= Seq::<nat>::empty());
            assert(done + all_params(rest) =~= done);
            let ns = param_names(done);
            let e1 = bind_ps(env, done, acc);
            bind_other(env, ns, acc, done.len(), n);
            assert(den(e1, *rest->Call_0) == look(e1, n));
            assert forall|i: int| 0 <= i < ns.len() implies look(e1, #[trigger] ns[i]) == acc[i] by { bind_at(env, ns, acc, done.len(), i); }
            names_den(e1, ns, acc, rest->Call_1, ns.len());
            assert(acc.subrange(0, ns.len() as int) =~= acc);
        },
    }
}
//@ fn ticc/src/codegen/opt/saturate.rs add_args
//@ rule a . extend ( args . into_iter ( ) . map ( ir :: Expr :: Name ) ) ==> vx_extend_names ( a , args )
//@ rule panic ! ( $x:rest ) ==> vx_stop ( )
    ensures
        body(*old(expr)) is Call, body(*final(expr)) is Call, body(*final(expr))->Call_0 == body(*old(expr))->Call_0,
        body(*final(expr))->Call_1@ == body(*old(expr))->Call_1@ + name_exprs(args@),
        lam_groups(*final(expr)) == lam_groups(*old(expr)), all_params(*final(expr)) == all_params(*old(expr)),
    decreases *old(expr),
//@ end

/// names given out from c0 up to c, no two the same
pub open spec fn given(ns: Seq<Name>, c0: nat, c: nat) -> bool {
    c0 <= c && (forall|i: int| 0 <= i < ns.len() ==> c0 <= (#[trigger] ns[i]).id < c) && ns.no_duplicates()
}
proof fn given_push(ns: Seq<Name>, c0: nat, c: nat, n: Name)
    requires given(ns, c0, c), n.id == c,
    ensures given(ns.push(n), c0, c + 1),
{}
proof fn given_reverse(ns: Seq<Name>, c0: nat, c: nat)
    requires given(ns, c0, c),
    ensures given(ns.reverse(), c0, c), ns.reverse().reverse() =~= ns,
{
    assert forall|i: int, j: int| 0 <= i < ns.len() && 0 <= j < ns.len() && i != j implies ns.reverse()[i] != ns.reverse()[j] by {}
}
proof fn given_tail(a: Seq<Name>, b: Seq<Name>, c0: nat, c: nat)
    requires given(a + b, c0, c),
    ensures given(a + b.reverse(), c0, c),
{
    let s = a + b;
    let t = a + b.reverse();
    let at = |i: int| if i < a.len() { i } else { a.len() + (b.len() - 1 - (i - a.len())) };
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == s[at(i)] && 0 <= at(i) < s.len() by {}
    assert forall|i: int| 0 <= i < t.len() implies c0 <= (#[trigger] t[i]).id < c by { assert(t[i] == s[at(i)]); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        assert(t[i] == s[at(i)] && t[j] == s[at(j)] && at(i) != at(j));
    }
}
/// the loop over groups: the parameters taken so far, outermost first, are extra read backwards
pub open spec fn so_far(e: Expr, name: Name, extra: Seq<Name>, ls: Seq<nat>) -> bool {
    call_of(body(e), name, Seq::empty()) && param_names(all_params(e)) == extra.reverse() && lam_groups(e) == ls
}
proof fn one_more(e: Expr, name: Name, extra: Seq<Name>, ls: Seq<nat>, ps: Vec<LambdaParam>, e2: Seq<Name>)
    requires so_far(e, name, extra, ls), e2 == extra + param_names(ps@).reverse(),
    ensures so_far(Expr::Lambda(ps, Box::new(e)), name, e2, seq![ps@.len()] + ls),
{
    let r = Expr::Lambda(ps, Box::new(e));
    assert(param_names(all_params(r)) =~= param_names(ps@) + param_names(all_params(e)));
    assert(e2.reverse() =~= param_names(ps@) + extra.reverse());
}
proof fn filled(env: DEnv, name: Name, e: Expr)
    requires call_of(body(e), name, param_names(all_params(e))), param_names(all_params(e)).no_duplicates(), !param_names(all_params(e)).contains(name),
    ensures den(env, e) == curry(look(env, name), lam_groups(e), Seq::empty()),
{
    assert(Seq::<LambdaParam>::empty() + all_params(e) =~= all_params(e));
    used(env, name, Seq::empty(), Seq::empty(), e);
    assert(bind_ps(env, Seq::empty(), Seq::empty()) == env);
}
/// e stands for the function that takes groups of arguments of these sizes one by one and calls name
pub open spec fn stands(e: Expr, name: Name, ls: Seq<nat>) -> bool {
    forall|env: DEnv| #[trigger] den(env, e) == curry(look(env, name), ls, Seq::empty())
}
//@ fn ticc/src/codegen/opt/saturate.rs rewrite_use
//@ ret r
//@ rule for ( var , vx_p1 ) in __vx_it_3 ( rewrite . vars . iter ( ) . copied ( ) . zip ( & inst ) ) { $x:rest } ==> vx_instantiate ( & mut param_ty , & rewrite . vars , & inst ) ;
//@ rule rewrite . arg_groups . iter ( ) . rev ( ) ==> vx_rev ( & rewrite . arg_groups )
//@ rule param_ty . clone ( ) ==> vx_clone_ty ( param_ty )
//@ rule extra_args [ len_before .. ] . reverse ( ) ==> vx_reverse_from ( & mut extra_args , len_before )
//@ rule extra_args . reverse ( ) ==> vx_reverse ( & mut extra_args )
//@ rule inst . into_iter ( ) . rev ( ) ==> vx_rev_vars ( inst )
    requires name.id < cnt(*old(names)),
    ensures stands(r, name, sizes(rewrite.arg_groups@)), cnt(*final(names)) >= cnt(*old(names)),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let ghost c0 = cnt(*names);
    let ghost gs = rewrite.arg_groups@;
    let ghost name0 = name;
//@ loop 0
    invariant means_name(res, name),
//@ before res = ir :: Expr :: PiApply
    let ghost r1 = res;
//@ after res = ir :: Expr :: PiApply
    proof { assert forall|env: DEnv| #[trigger] den(env, res) == look(env, name) by { assert(den(env, r1) == look(env, name)); } }
//@ before for group in
    proof {
        assert(extra_args@.reverse() =~= Seq::<Name>::empty());
        assert(param_names(all_params(res)) =~= Seq::<Name>::empty());
        assert(lam_groups(res) =~= Seq::<nat>::empty());
        assert(sizes(gs).subrange(gs.len() as int, gs.len() as int) =~= Seq::<nat>::empty());
        assert(res->Call_1@ =~= name_exprs(Seq::empty()));
    }
//@ loop 1
    invariant
        given(extra_args@, c0, cnt(*names)),
        so_far(res, name, extra_args@, sizes(gs).subrange(gs.len() - vx_it1.index(), gs.len() as int)),
//@ loophead 1
    let ghost x0 = extra_args@;
    let ghost r0 = res;
    let ghost i0 = vx_it1.index() as int;
    let ghost ls0 = sizes(gs).subrange(gs.len() - i0, gs.len() as int);
    proof { assert(*group == gs[gs.len() - 1 - i0]); }
//@ loop 2
    invariant
        given(extra_args@, c0, cnt(*names)), extra_args@ =~= x0 + param_names(params@), params@.len() == vx_it2.index(),
//@ before extra_args . push
    proof { given_push(extra_args@, c0, (cnt(*names) - 1) as nat, name); }
//@ before extra_args [ len_before .. ]
    let ghost ns = param_names(params@);
    let ghost ps = params;
    proof {
        assert(extra_args@.subrange(0, x0.len() as int) =~= x0);
        assert(extra_args@.subrange(x0.len() as int, extra_args@.len() as int) =~= ns);
        given_tail(x0, ns, c0, cnt(*names));
    }
//@ after res = ir :: Expr :: Lambda
    proof {
        one_more(r0, name0, x0, ls0, ps, extra_args@);
        assert(seq![ps@.len()] + ls0 =~= sizes(gs).subrange(gs.len() - (i0 + 1), gs.len() as int));
    }
//@ before extra_args . reverse
    proof { given_reverse(extra_args@, c0, cnt(*names)); assert(sizes(gs).subrange(0, gs.len() as int) =~= sizes(gs)); }
//@ after add_args
    proof {
        let ns = param_names(all_params(res));
        assert(body(res)->Call_1@ =~= name_exprs(ns));
        assert(!ns.contains(name)) by { if ns.contains(name) { let i = ns.index_of(name); assert(c0 <= ns[i].id); } }
        assert forall|env: DEnv| #[trigger] den(env, res) == curry(look(env, name), sizes(gs), Seq::empty()) by { filled(env, name, res); }
    }
//@ loop 4
    invariant stands(res, name, sizes(gs)),
//@ before res = ir :: Expr :: Pi ( v , Box :: new ( res ) )
    let ghost r2 = res;
//@ after res = ir :: Expr :: Pi ( v , Box :: new ( res ) )
    proof { assert forall|env: DEnv| #[trigger] den(env, res) == curry(look(env, name), sizes(gs), Seq::empty()) by { assert(den(env, r2) == curry(look(env, name), sizes(gs), Seq::empty())); } }
//@ end

// ---- what the pass does to a program -------------------------------------------------
pub type W = Map<Name, Seq<nat>>;
pub open spec fn keyless(w: W, ns: Seq<Name>) -> bool { forall|i: int| 0 <= i < ns.len() ==> !w.contains_key(#[trigger] ns[i]) }
/// b is a where local recursive functions named in w are collapsed (if p), and a function that makes
/// the call stands for each use of a name in w (if q)
pub open spec fn sat(a: Expr, b: Expr, w: W, p: bool, q: bool) -> bool decreases b, 0nat {
    match (a, b) {
        (Expr::Name(n), _) => if q && w.contains_key(n) { stands(b, n, w[n]) } else { a == b },
        (Expr::Bool(_), _) | (Expr::Int(_), _) | (Expr::String(_), _) | (Expr::Trap(_, _), _) => a == b,
        (Expr::Call(f, xs), Expr::Call(g, ys)) => sat(*f, *g, w, p, q) && xs@.len() == ys@.len() && sat_list(xs@, ys, ys@.len(), w, p, q),
        (Expr::If(c, t, e), Expr::If(d, u, f)) => sat(*c, *d, w, p, q) && sat(*t, *u, w, p, q) && sat(*e, *f, w, p, q),
        (Expr::Op(x, o, y), Expr::Op(u, r, v)) => o == r && sat(*x, *u, w, p, q) && sat(*y, *v, w, p, q),
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => i == j && xs@.len() == ys@.len() && sat_list(xs@, ys, ys@.len(), w, p, q),
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => c == d && xs@.len() == ys@.len() && sat_list(xs@, ys, ys@.len(), w, p, q),
        (Expr::Lambda(ps, x), Expr::Lambda(qs, y)) => param_names(ps@) == param_names(qs@) && keyless(w, param_names(ps@)) && sat(*x, *y, w, p, q),
        (Expr::Match(d, bs), Expr::Match(e, cs)) => sat(*d, *e, w, p, q) && bs@.len() == cs@.len() && sat_branches(bs@, cs, cs@.len(), w, p, q),
        (Expr::Let(n, v, r), Expr::Let(m, u, s)) => n == m && !w.contains_key(n) && sat(*v, *u, w, p, q) && sat(*r, *s, w, p, q),
        (Expr::LetRec(n, _, v, r), Expr::LetRec(m, _, u, s)) => n == m && sat(*r, *s, w, p, q)
            && if p && w.contains_key(n) { exists|v1: Expr| #[trigger] collapsed(*v, v1, w[n]) && sat(v1, *u, w, p, q) } else { sat(*v, *u, w, p, q) },
        (Expr::Pi(_, x), Expr::Pi(_, y)) => sat(*x, *y, w, p, q),
        (Expr::PiApply(x, _), Expr::PiApply(y, _)) => sat(*x, *y, w, p, q),
        _ => false,
    }
}
pub open spec fn sat_list(xs: Seq<Expr>, ys: Vec<Expr>, n: nat, w: W, p: bool, q: bool) -> bool decreases ys, n {
    n == 0 || n > ys@.len() || n > xs.len() || sat(xs[n - 1], ys@[n - 1], w, p, q) && sat_list(xs, ys, (n - 1) as nat, w, p, q)
}
pub open spec fn sat_branches(bs: Seq<Branch>, cs: Vec<Branch>, n: nat, w: W, p: bool, q: bool) -> bool decreases cs, n {
    n == 0 || n > cs@.len() || n > bs.len() || sat(bs[n - 1].value, cs@[n - 1].value, w, p, q) && bs[n - 1].ctor == cs@[n - 1].ctor
        && bs[n - 1].bindings@ == cs@[n - 1].bindings@ && keyless(w, bs[n - 1].bindings@) && sat_branches(bs, cs, (n - 1) as nat, w, p, q)
}
proof fn sat_list_all(xs: Seq<Expr>, ys: Vec<Expr>, n: nat, w: W, p: bool, q: bool)
    requires n <= ys@.len(), n <= xs.len(),
    ensures sat_list(xs, ys, n, w, p, q) <==> forall|k: int| 0 <= k < n ==> sat(#[trigger] xs[k], ys@[k], w, p, q),
    decreases n,
{
    if n > 0 {
        sat_list_all(xs, ys, (n - 1) as nat, w, p, q);
        if sat_list(xs, ys, n, w, p, q) { assert forall|k: int| 0 <= k < n implies sat(#[trigger] xs[k], ys@[k], w, p, q) by { if k < n - 1 {} } }
    }
}
pub open spec fn sat_branch(b: Branch, c: Branch, w: W, p: bool, q: bool) -> bool {
    sat(b.value, c.value, w, p, q) && b.ctor == c.ctor && b.bindings@ == c.bindings@ && keyless(w, b.bindings@)
}
proof fn sat_branches_all(bs: Seq<Branch>, cs: Vec<Branch>, n: nat, w: W, p: bool, q: bool)
    requires n <= cs@.len(), n <= bs.len(),
    ensures sat_branches(bs, cs, n, w, p, q) <==> forall|k: int| 0 <= k < n ==> sat_branch(#[trigger] bs[k], cs@[k], w, p, q),
    decreases n,
{
    if n > 0 {
        sat_branches_all(bs, cs, (n - 1) as nat, w, p, q);
        if sat_branches(bs, cs, n, w, p, q) { assert forall|k: int| 0 <= k < n implies sat_branch(#[trigger] bs[k], cs@[k], w, p, q) by { if k < n - 1 {} } }
    }
}
// -- one phase after the other
#[verifier::spinoff_prover]
proof fn both(a: Expr, m: Expr, b: Expr, w: W)
    requires sat(a, m, w, true, false), sat(m, b, w, false, true),
    ensures sat(a, b, w, true, true),
    decreases b, 0nat,
{
    match (a, m, b) {
        (Expr::Name(_), _, _) => {},
        (Expr::Call(f, xs), Expr::Call(g, ys), Expr::Call(h, zs)) => { both(*f, *g, *h, w); both_list(xs@, ys, zs, zs@.len(), w); },
        (Expr::If(c, t, e), Expr::If(d, u, f), Expr::If(g, v, h)) => { both(*c, *d, *g, w); both(*t, *u, *v, w); both(*e, *f, *h, w); },
        (Expr::Op(x, _, y), Expr::Op(u, _, v), Expr::Op(r, _, s)) => { both(*x, *u, *r, w); both(*y, *v, *s, w); },
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys), Expr::Intrinsic(_, zs)) => { both_list(xs@, ys, zs, zs@.len(), w); },
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys), Expr::Construct(_, _, zs)) => { both_list(xs@, ys, zs, zs@.len(), w); },
        (Expr::Lambda(_, x), Expr::Lambda(_, y), Expr::Lambda(_, z)) => { both(*x, *y, *z, w); },
        (Expr::Match(x, bs), Expr::Match(y, cs), Expr::Match(z, ds)) => { both(*x, *y, *z, w); both_branches(bs@, cs, ds, ds@.len(), w); },
        (Expr::Let(_, v, r), Expr::Let(_, u, s), Expr::Let(_, x, y)) => { both(*v, *u, *x, w); both(*r, *s, *y, w); },
        (Expr::LetRec(n, _, v, r), Expr::LetRec(_, _, u, s), Expr::LetRec(_, _, x, y)) => {
            both(*r, *s, *y, w);
            if w.contains_key(n) {
                let v1 = choose|v1: Expr| #[trigger] collapsed(*v, v1, w[n]) && sat(v1, *u, w, true, false);
                both(v1, *u, *x, w);
            } else { both(*v, *u, *x, w); }
        },
        (Expr::Pi(_, x), Expr::Pi(_, y), Expr::Pi(_, z)) => { both(*x, *y, *z, w); },
        (Expr::PiApply(x, _), Expr::PiApply(y, _), Expr::PiApply(z, _)) => { both(*x, *y, *z, w); },
        _ => {},
    }
}
proof fn both_list(xs: Seq<Expr>, ys: Vec<Expr>, zs: Vec<Expr>, n: nat, w: W)
    requires sat_list(xs, ys, n, w, true, false), sat_list(ys@, zs, n, w, false, true), n <= xs.len(), xs.len() == ys@.len(), ys@.len() == zs@.len(),
    ensures sat_list(xs, zs, n, w, true, true),
    decreases zs, n,
{
    if n > 0 { both(xs[n - 1], ys@[n - 1], zs@[n - 1], w); both_list(xs, ys, zs, (n - 1) as nat, w); }
}
proof fn both_branches(xs: Seq<Branch>, ys: Vec<Branch>, zs: Vec<Branch>, n: nat, w: W)
    requires sat_branches(xs, ys, n, w, true, false), sat_branches(ys@, zs, n, w, false, true), n <= xs.len(), xs.len() == ys@.len(), ys@.len() == zs@.len(),
    ensures sat_branches(xs, zs, n, w, true, true),
    decreases zs, n,
{
    if n > 0 { both(xs[n - 1].value, ys@[n - 1].value, zs@[n - 1].value, w); both_branches(xs, ys, zs, (n - 1) as nat, w); }
}
// -- only the names of the expression matter
pub open spec fn alike_on(a: Expr, w: W, u: W, q: bool, x: Name) -> bool {
    bc(a, x) > 0 || q && fv(a, x) ==> (w.contains_key(x) <==> u.contains_key(x)) && (w.contains_key(x) ==> w[x] == u[x])
}
pub open spec fn alike(a: Expr, w: W, u: W, q: bool) -> bool { forall|x: Name| #[trigger] alike_on(a, w, u, q, x) }
proof fn keyless_alike(ns: Seq<Name>, w: W, u: W)
    requires keyless(w, ns), forall|x: Name| #[trigger] ns.contains(x) ==> (w.contains_key(x) <==> u.contains_key(x)),
    ensures keyless(u, ns),
{
    assert forall|i: int| 0 <= i < ns.len() implies !u.contains_key(#[trigger] ns[i]) by { assert(ns.contains(ns[i])); }
}
#[verifier::spinoff_prover]
proof fn sat_alike(a: Expr, b: Expr, w: W, u: W, p: bool, q: bool)
    requires sat(a, b, w, p, q), alike(a, w, u, q),
    ensures sat(a, b, u, p, q),
    decreases b, 0nat,
{
    match (a, b) {
        (Expr::Name(n), _) => { assert(alike_on(a, w, u, q, n)); },
        (Expr::Call(f, xs), Expr::Call(g, ys)) => {
            assert forall|x: Name| #[trigger] alike_on(*f, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); }
            assert forall|x: Name| bc_list(xs, xs@.len(), x) > 0 || q && fv_list(xs, xs@.len(), x) implies #[trigger] alike_on(a, w, u, q, x) by {}
            sat_alike(*f, *g, w, u, p, q); sat_alike_list(a, xs, ys, ys@.len(), w, u, p, q);
        },
        (Expr::If(c, t, e), Expr::If(d, v, f)) => {
            assert forall|x: Name| #[trigger] alike_on(*c, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); }
            assert forall|x: Name| #[trigger] alike_on(*t, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); }
            assert forall|x: Name| #[trigger] alike_on(*e, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); }
            sat_alike(*c, *d, w, u, p, q); sat_alike(*t, *v, w, u, p, q); sat_alike(*e, *f, w, u, p, q);
        },
        (Expr::Op(x, _, y), Expr::Op(c, _, d)) => {
            assert forall|z: Name| #[trigger] alike_on(*x, w, u, q, z) by { assert(alike_on(a, w, u, q, z)); }
            assert forall|z: Name| #[trigger] alike_on(*y, w, u, q, z) by { assert(alike_on(a, w, u, q, z)); }
            sat_alike(*x, *c, w, u, p, q); sat_alike(*y, *d, w, u, p, q);
        },
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => { sat_alike_list(a, xs, ys, ys@.len(), w, u, p, q); },
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => { sat_alike_list(a, xs, ys, ys@.len(), w, u, p, q); },
        (Expr::Lambda(ps, x), Expr::Lambda(_, y)) => {
            let ns = param_names(ps@);
            assert forall|z: Name| ns.contains(z) implies (w.contains_key(z) <==> u.contains_key(z)) by { times_in(ns, z); assert(alike_on(a, w, u, q, z)); }
            keyless_alike(ns, w, u);
            assert forall|z: Name| #[trigger] alike_on(*x, w, u, q, z) by { times_in(ns, z); assert(alike_on(a, w, u, q, z)); }
            sat_alike(*x, *y, w, u, p, q);
        },
        (Expr::Match(d, bs), Expr::Match(e, cs)) => {
            assert forall|x: Name| #[trigger] alike_on(*d, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); }
            sat_alike(*d, *e, w, u, p, q); sat_alike_branches(a, bs, cs, cs@.len(), w, u, p, q);
        },
        (Expr::Let(n, v, r), Expr::Let(_, c, d)) => {
            assert(alike_on(a, w, u, q, n));
            assert forall|x: Name| #[trigger] alike_on(*v, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); }
            assert forall|x: Name| #[trigger] alike_on(*r, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); assert(alike_on(a, w, u, q, n)); }
            sat_alike(*v, *c, w, u, p, q); sat_alike(*r, *d, w, u, p, q);
        },
        (Expr::LetRec(n, _, v, r), Expr::LetRec(_, _, c, d)) => {
            assert(alike_on(a, w, u, q, n));
            assert forall|x: Name| #[trigger] alike_on(*v, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); assert(alike_on(a, w, u, q, n)); }
            assert forall|x: Name| #[trigger] alike_on(*r, w, u, q, x) by { assert(alike_on(a, w, u, q, x)); assert(alike_on(a, w, u, q, n)); }
            sat_alike(*r, *d, w, u, p, q);
            if p && w.contains_key(n) {
                let v1 = choose|v1: Expr| #[trigger] collapsed(*v, v1, w[n]) && sat(v1, *c, w, p, q);
                assert forall|x: Name| #[trigger] alike_on(v1, w, u, q, x) by { assert(alike_on(*v, w, u, q, x)); assert(occ_same(*v, v1, x)); }
                sat_alike(v1, *c, w, u, p, q);
                assert(collapsed(*v, v1, u[n]));
            } else { sat_alike(*v, *c, w, u, p, q); }
        },
        (Expr::Pi(_, x), Expr::Pi(_, y)) => {
            assert forall|z: Name| #[trigger] alike_on(*x, w, u, q, z) by { assert(alike_on(a, w, u, q, z)); }
            sat_alike(*x, *y, w, u, p, q);
        },
        (Expr::PiApply(x, _), Expr::PiApply(y, _)) => {
            assert forall|z: Name| #[trigger] alike_on(*x, w, u, q, z) by { assert(alike_on(a, w, u, q, z)); }
            sat_alike(*x, *y, w, u, p, q);
        },
        _ => {},
    }
}
pub open spec fn list_of(e: Expr) -> Vec<Expr> {
    match e { Expr::Call(_, xs) => xs, Expr::Intrinsic(_, xs) => xs, Expr::Construct(_, _, xs) => xs, _ => arbitrary() }
}
pub open spec fn is_list(e: Expr) -> bool { e is Call || e is Intrinsic || e is Construct }
proof fn sat_alike_list(a: Expr, xs: Vec<Expr>, ys: Vec<Expr>, n: nat, w: W, u: W, p: bool, q: bool)
    requires is_list(a), list_of(a) == xs, sat_list(xs@, ys, n, w, p, q), alike(a, w, u, q), n <= xs@.len(), xs@.len() == ys@.len(),
    ensures sat_list(xs@, ys, n, u, p, q),
    decreases ys, n,
{
    if n > 0 {
        assert forall|x: Name| #[trigger] alike_on(xs@[n - 1], w, u, q, x) by { list_part(xs, xs@.len(), n - 1, x); assert(alike_on(a, w, u, q, x)); }
        sat_alike(xs@[n - 1], ys@[n - 1], w, u, p, q);
        sat_alike_list(a, xs, ys, (n - 1) as nat, w, u, p, q);
    }
}
proof fn sat_alike_branches(a: Expr, bs: Vec<Branch>, cs: Vec<Branch>, n: nat, w: W, u: W, p: bool, q: bool)
    requires a is Match, a->Match_1 == bs, sat_branches(bs@, cs, n, w, p, q), alike(a, w, u, q), n <= bs@.len(), bs@.len() == cs@.len(),
    ensures sat_branches(bs@, cs, n, u, p, q),
    decreases cs, n,
{
    if n > 0 {
        let ns = bs@[n - 1].bindings@;
        assert forall|x: Name| ns.contains(x) implies (w.contains_key(x) <==> u.contains_key(x)) by { branch_part(bs, bs@.len(), n - 1, x); times_in(ns, x); assert(alike_on(a, w, u, q, x)); }
        keyless_alike(ns, w, u);
        assert forall|x: Name| #[trigger] alike_on(bs@[n - 1].value, w, u, q, x) by { branch_part(bs, bs@.len(), n - 1, x); times_in(ns, x); assert(alike_on(a, w, u, q, x)); }
        sat_alike(bs@[n - 1].value, cs@[n - 1].value, w, u, p, q);
        sat_alike_branches(a, bs, cs, (n - 1) as nat, w, u, p, q);
    }
}

// ---- what that means -----------------------------------------------------------------
/// the function that takes groups of arguments one by one instead of all together
pub open spec fn regroup(d: D, w: W, n: Name) -> D { if w.contains_key(n) { curry(d, w[n], Seq::empty()) } else { d } }
/// e before the pass, f after it: a name of w takes its groups one by one before
pub open spec fn envs_at(e: DEnv, f: DEnv, w: W, n: Name) -> bool { look(e, n) == regroup(look(f, n), w, n) }
pub open spec fn envs(e: DEnv, f: DEnv, w: W) -> bool { forall|n: Name| #[trigger] envs_at(e, f, w, n) }
/// x = curry(a(x)) and y = a(curry(y)) define the same function, up to the grouping of arguments (the
/// rolling rule of least fixed points, for the functions on meanings that expressions give)
pub axiom fn rolling(env: DEnv, n: Name, e: Expr, ls: Seq<nat>)
    ensures
        lfp(|x: D| curry(den(env.insert(n, x), e), ls, Seq::empty()))
            == curry(lfp(|y: D| den(env.insert(n, curry(y, ls, Seq::empty())), e)), ls, Seq::empty());
proof fn envs_insert(e: DEnv, f: DEnv, w: W, n: Name, d: D)
    requires envs(e, f, w),
    ensures envs(e.insert(n, regroup(d, w, n)), f.insert(n, d), w),
{
    let e2 = e.insert(n, regroup(d, w, n));
    let f2 = f.insert(n, d);
    assert forall|x: Name| #[trigger] envs_at(e2, f2, w, x) by {
        assert(envs_at(e, f, w, x));
        if x != n { assert(look(e2, x) == look(e, x)); assert(look(f2, x) == look(f, x)); }
    }
}
proof fn envs_bind(e: DEnv, f: DEnv, w: W, names: Seq<Name>, vs: Seq<D>, k: nat)
    requires envs(e, f, w), keyless(w, names), k <= names.len(),
    ensures envs(bind_all(e, names, vs, k), bind_all(f, names, vs, k), w),
    decreases k,
{
    if k > 0 {
        envs_bind(e, f, w, names, vs, (k - 1) as nat);
        assert(!w.contains_key(names[k - 1]));
        envs_insert(bind_all(e, names, vs, (k - 1) as nat), bind_all(f, names, vs, (k - 1) as nat), w, names[k - 1], vs[k - 1]);
    }
}
proof fn sat_find(bs: Seq<Branch>, cs: Vec<Branch>, w: W, c: Name, i: nat)
    requires sat_branches(bs, cs, cs@.len(), w, true, true), bs.len() == cs@.len(), i <= bs.len(),
    ensures find_branch(bs, c, i) == find_branch(cs@, c, i), i <= find_branch(bs, c, i) <= bs.len(),
    decreases bs.len() - i,
{
    sat_branches_all(bs, cs, cs@.len(), w, true, true);
    if i < bs.len() { assert(sat_branch(bs[i as int], cs@[i as int], w, true, true)); if bs[i as int].ctor != c { sat_find(bs, cs, w, c, i + 1); } }
}
#[verifier::spinoff_prover]
proof fn means(a: Expr, b: Expr, w: W, e: DEnv, f: DEnv)
    requires sat(a, b, w, true, true), envs(e, f, w),
    ensures den(e, a) == den(f, b),
    decreases b, 0nat,
{
    match (a, b) {
        (Expr::Name(n), _) => { assert(envs_at(e, f, w, n)); },
        (Expr::Call(g, xs), Expr::Call(h, ys)) => { means(*g, *h, w, e, f); means_list(xs, ys, ys@.len(), w, e, f); },
        (Expr::If(c, t, x), Expr::If(d, u, y)) => { means(*c, *d, w, e, f); means(*t, *u, w, e, f); means(*x, *y, w, e, f); },
        (Expr::Op(x, _, y), Expr::Op(u, _, v)) => { means(*x, *u, w, e, f); means(*y, *v, w, e, f); },
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => { means_list(xs, ys, ys@.len(), w, e, f); },
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => { means_list(xs, ys, ys@.len(), w, e, f); },
        (Expr::Lambda(ps, x), Expr::Lambda(qs, y)) => {
            let ns = param_names(ps@);
            assert(param_names(qs@).len() == ps@.len());
            let g = lam_fn(e, ns, *x);
            let h = lam_fn(f, ns, *y);
            assert forall|vs: Seq<D>| vs.len() == ps@.len() implies #[trigger] g(vs) == h(vs) by {
                envs_bind(e, f, w, ns, vs, ns.len());
                means(*x, *y, w, bind_all(e, ns, vs, ns.len()), bind_all(f, ns, vs, ns.len()));
            }
            ext(g, h, ps@.len());
        },
        (Expr::Match(d, bs), Expr::Match(c, cs)) => {
            means(*d, *c, w, e, f);
            match den(e, *d) {
                D::Comp(k, vs) => {
                    sat_find(bs@, cs, w, k, 0);
                    let i = find_branch(bs@, k, 0);
                    if i < bs@.len() { means_branch(bs, cs, i as int, w, e, f, vs, cs@.len()); }
                },
                _ => {},
            }
        },
        (Expr::Let(n, v, r), Expr::Let(_, u, s)) => {
            means(*v, *u, w, e, f);
            envs_insert(e, f, w, n, den(f, *u));
            means(*r, *s, w, e.insert(n, den(f, *u)), f.insert(n, den(f, *u)));
        },
        (Expr::LetRec(n, _, v, r), Expr::LetRec(_, _, u, s)) => {
            let d = lfp(rec_fn(f, n, *u));
            assert(lfp(rec_fn(e, n, *v)) == regroup(d, w, n)) by {
                if w.contains_key(n) {
                    let ls = w[n];
                    let v1 = choose|v1: Expr| #[trigger] collapsed(*v, v1, ls) && sat(v1, *u, w, true, true);
                    let before = |x: D| curry(den(e.insert(n, x), v1), ls, Seq::empty());
                    let after = |y: D| den(e.insert(n, curry(y, ls, Seq::empty())), v1);
                    assert forall|x: D| #[trigger] rec_fn(e, n, *v)(x) == before(x) by { assert(den(e.insert(n, x), *v) == curry(den(e.insert(n, x), v1), ls, Seq::empty())); }
                    assert(rec_fn(e, n, *v) =~= before);
                    assert forall|y: D| #[trigger] rec_fn(f, n, *u)(y) == after(y) by {
                        envs_insert(e, f, w, n, y);
                        means(v1, *u, w, e.insert(n, curry(y, ls, Seq::empty())), f.insert(n, y));
                    }
                    assert(rec_fn(f, n, *u) =~= after);
                    rolling(e, n, v1, ls);
                } else {
                    assert forall|x: D| #[trigger] rec_fn(e, n, *v)(x) == rec_fn(f, n, *u)(x) by {
                        envs_insert(e, f, w, n, x);
                        means(*v, *u, w, e.insert(n, x), f.insert(n, x));
                    }
                    assert(rec_fn(e, n, *v) =~= rec_fn(f, n, *u));
                }
            }
            envs_insert(e, f, w, n, d);
            means(*r, *s, w, e.insert(n, regroup(d, w, n)), f.insert(n, d));
        },
        (Expr::Pi(_, x), Expr::Pi(_, y)) => { means(*x, *y, w, e, f); },
        (Expr::PiApply(x, _), Expr::PiApply(y, _)) => { means(*x, *y, w, e, f); },
        _ => {},
    }
}
proof fn means_list(xs: Vec<Expr>, ys: Vec<Expr>, n: nat, w: W, e: DEnv, f: DEnv)
    requires sat_list(xs@, ys, n, w, true, true), n <= xs@.len(), xs@.len() == ys@.len(), envs(e, f, w),
    ensures den_list(e, xs, n) == den_list(f, ys, n),
    decreases ys, n,
{
    if n > 0 { means(xs@[n - 1], ys@[n - 1], w, e, f); means_list(xs, ys, (n - 1) as nat, w, e, f); }
}
proof fn means_branch(bs: Vec<Branch>, cs: Vec<Branch>, i: int, w: W, e: DEnv, f: DEnv, vs: Seq<D>, n: nat)
    requires sat_branches(bs@, cs, n, w, true, true), 0 <= i < n <= bs@.len(), bs@.len() == cs@.len(), envs(e, f, w),
    ensures
        bs@[i].bindings@ == cs@[i].bindings@,
        den(bind_all(e, bs@[i].bindings@, vs, bs@[i].bindings@.len()), bs@[i].value) == den(bind_all(f, cs@[i].bindings@, vs, cs@[i].bindings@.len()), cs@[i].value),
    decreases cs, n,
{
    if i == n - 1 {
        let ns = bs@[i].bindings@;
        envs_bind(e, f, w, ns, vs, ns.len());
        means(bs@[i].value, cs@[i].value, w, bind_all(e, ns, vs, ns.len()), bind_all(f, ns, vs, ns.len()));
    } else { means_branch(bs, cs, i, w, e, f, vs, (n - 1) as nat); }
}
// -- programs
//@ type ticc-core/src/ir.rs ValueDef
pub open spec fn holds(ds: Seq<ValueDef>, env: DEnv) -> bool { forall|i: int| 0 <= i < ds.len() ==> look(env, (#[trigger] ds[i]).name) == den(env, ds[i].value) }
pub open spec fn sat_def(a: ValueDef, b: ValueDef, w: W) -> bool {
    a.name == b.name && a.export_name == b.export_name
    && if w.contains_key(a.name) { exists|v: Expr| #[trigger] collapsed(a.value, v, w[a.name]) && sat(v, b.value, w, true, true) } else { sat(a.value, b.value, w, true, true) }
}
pub open spec fn sat_defs(a: Seq<ValueDef>, b: Seq<ValueDef>, w: W) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> sat_def(#[trigger] a[i], b[i], w) }
/// wherever the new definitions hold, so do the old ones: every name has the value it had, except that
/// a function of w takes the groups of its arguments one by one
pub open spec fn regrouped(a: Seq<ValueDef>, b: Seq<ValueDef>, w: W) -> bool {
    a.len() == b.len()
    && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).name == b[i].name && a[i].export_name == b[i].export_name)
    && forall|e: DEnv, f: DEnv| #[trigger] envs(e, f, w) && #[trigger] holds(b, f) ==> holds(a, e)
}
proof fn program_of(a: Seq<ValueDef>, b: Seq<ValueDef>, w: W)
    requires sat_defs(a, b, w),
    ensures regrouped(a, b, w),
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).name == b[i].name && a[i].export_name == b[i].export_name by { assert(sat_def(a[i], b[i], w)); }
    assert forall|e: DEnv, f: DEnv| #[trigger] envs(e, f, w) && #[trigger] holds(b, f) implies holds(a, e) by {
        assert forall|i: int| 0 <= i < a.len() implies look(e, (#[trigger] a[i]).name) == den(e, a[i].value) by {
            assert(sat_def(a[i], b[i], w));
            let n = a[i].name;
            assert(envs_at(e, f, w, n));
            assert(look(f, b[i].name) == den(f, b[i].value));
            if w.contains_key(n) {
                let v = choose|v: Expr| #[trigger] collapsed(a[i].value, v, w[n]) && sat(v, b[i].value, w, true, true);
                means(v, b[i].value, w, e, f);
                assert(den(e, a[i].value) == curry(den(e, v), w[n], Seq::empty()));
            } else { means(a[i].value, b[i].value, w, e, f); }
        }
    }
}
/// there is such an environment for every one of the new program
proof fn old_env(f: DEnv, w: W) -> (e: DEnv)
    ensures envs(e, f, w),
    decreases w.dom().len(),
{
    if w.dom().len() == 0 {
        assert forall|n: Name| #[trigger] envs_at(f, f, w, n) by { if w.contains_key(n) { assert(w.dom().contains(n)); } }
        f
    } else {
        let n = w.dom().choose();
        assert(w.contains_key(n)) by { assert(w.dom().contains(n)); }
        let u = w.remove(n);
        assert(u.dom() =~= w.dom().remove(n));
        let e = old_env(f, u);
        let r = e.insert(n, regroup(look(f, n), w, n));
        assert forall|x: Name| #[trigger] envs_at(r, f, w, x) by { assert(envs_at(e, f, u, x)); if x != n { assert(look(r, x) == look(e, x)); } }
        r
    }
}

// ---- the first walk: local recursive functions are collapsed --------------------------
pub open spec fn parts(e: Expr) -> nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => 0,
        Expr::Call(_, xs) => xs@.len() + 1,
        Expr::If(_, _, _) => 3,
        Expr::Op(_, _, _) => 2,
        Expr::Intrinsic(_, xs) => xs@.len(),
        Expr::Construct(_, _, xs) => xs@.len(),
        Expr::Lambda(_, _) => 1,
        Expr::Match(_, bs) => bs@.len() + 1,
        Expr::Let(_, _, _) => 2,
        Expr::LetRec(_, _, _, _) => 2,
        Expr::Pi(_, _) => 1,
        Expr::PiApply(_, _) => 1,
    }
}
pub open spec fn part(e: Expr, i: int) -> Expr {
    match e {
        Expr::Call(f, xs) => if i == 0 { *f } else { xs@[i - 1] },
        Expr::If(a, b, c) => if i == 0 { *a } else if i == 1 { *b } else { *c },
        Expr::Op(a, _, b) => if i == 0 { *a } else { *b },
        Expr::Intrinsic(_, xs) => xs@[i],
        Expr::Construct(_, _, xs) => xs@[i],
        Expr::Lambda(_, b) => *b,
        Expr::Match(d, bs) => if i == 0 { *d } else { bs@[i - 1].value },
        Expr::Let(_, v, b) => if i == 0 { *v } else { *b },
        Expr::LetRec(_, _, v, b) => if i == 0 { *v } else { *b },
        Expr::Pi(_, b) => *b,
        Expr::PiApply(b, _) => *b,
        _ => e,
    }
}
pub open spec fn same_node(e: Expr, r: Expr) -> bool {
    match (e, r) {
        (Expr::Bool(_), _) | (Expr::Int(_), _) | (Expr::String(_), _) | (Expr::Name(_), _) | (Expr::Trap(_, _), _) => e == r,
        (Expr::Call(_, xs), Expr::Call(_, ys)) => xs@.len() == ys@.len(),
        (Expr::If(_, _, _), Expr::If(_, _, _)) => true,
        (Expr::Op(_, o, _), Expr::Op(_, p, _)) => o == p,
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => i == j && xs@.len() == ys@.len(),
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => c == d && xs@.len() == ys@.len(),
        (Expr::Lambda(ps, _), Expr::Lambda(qs, _)) => param_names(ps@) == param_names(qs@),
        (Expr::Match(_, bs), Expr::Match(_, cs)) => bs@.len() == cs@.len() && forall|i: int| 0 <= i < bs@.len() ==> (#[trigger] bs@[i]).ctor == cs@[i].ctor && bs@[i].bindings@ == cs@[i].bindings@,
        (Expr::Let(n, _, _), Expr::Let(m, _, _)) => n == m,
        (Expr::LetRec(n, _, _, _), Expr::LetRec(m, _, _, _)) => n == m,
        (Expr::Pi(_, _), Expr::Pi(_, _)) => true,
        (Expr::PiApply(_, _), Expr::PiApply(_, _)) => true,
        _ => false,
    }
}
/// what the node itself binds
pub open spec fn binds(e: Expr, x: Name) -> bool {
    match e {
        Expr::Lambda(ps, _) => param_names(ps@).contains(x),
        Expr::Match(_, bs) => exists|i: int| 0 <= i < bs@.len() && (#[trigger] bs@[i]).bindings@.contains(x),
        Expr::Let(n, _, _) => n == x,
        Expr::LetRec(n, _, _, _) => n == x,
        _ => false,
    }
}
pub open spec fn once(e: Expr) -> bool { forall|x: Name| #[trigger] bc(e, x) <= 1 }
pub open spec fn clear(e: Expr, w: W) -> bool { forall|x: Name| #[trigger] bc(e, x) > 0 ==> !w.contains_key(x) }
/// u is w and entries for names the expression binds
pub open spec fn grew_at(w: W, u: W, e: Expr, x: Name) -> bool {
    (w.contains_key(x) ==> u.contains_key(x) && u[x] == w[x]) && (u.contains_key(x) ==> w.contains_key(x) || bc(e, x) > 0)
}
pub open spec fn grew(w: W, u: W, e: Expr) -> bool { forall|x: Name| #[trigger] grew_at(w, u, e, x) }
/// one node of the walk
pub open spec fn rec_step(a: Expr, b: Expr, w: W, u: W) -> bool {
    match (a, b) {
        (Expr::LetRec(n, _, v, r), Expr::LetRec(m, _, c, s)) => n == m && *r == *s
            && (*c == *v && u == w || u.contains_key(n) && u == w.insert(n, u[n]) && collapsed(*v, *c, u[n])),
        (Expr::LetRec(_, _, _, _), _) => false,
        _ => a == b && u == w,
    }
}
proof fn two_of(xs: Vec<Expr>, n: nat, i: int, j: int, x: Name)
    requires 0 <= i < j < n <= xs@.len(),
    ensures bc(xs@[i], x) + bc(xs@[j], x) <= bc_list(xs, n, x),
    decreases n,
{
    if j < n - 1 { two_of(xs, (n - 1) as nat, i, j, x); } else { list_part(xs, (n - 1) as nat, i, x); }
}
proof fn two_branches(bs: Vec<Branch>, n: nat, i: int, j: int, x: Name)
    requires 0 <= i < j < n <= bs@.len(),
    ensures bc(bs@[i].value, x) + times(bs@[i].bindings@, x) + bc(bs@[j].value, x) + times(bs@[j].bindings@, x) <= bc_branches(bs, n, x),
    decreases n,
{
    if j < n - 1 { two_branches(bs, (n - 1) as nat, i, j, x); } else { branch_part(bs, (n - 1) as nat, i, x); }
}
proof fn part_binds(e: Expr, i: int, x: Name)
    requires 0 <= i < parts(e),
    ensures bc(part(e, i), x) <= bc(e, x), once(e) && bc(part(e, i), x) > 0 ==> !binds(e, x), binds(e, x) ==> bc(e, x) > 0,
{
    match e {
        Expr::Call(f, xs) => { if i > 0 { list_part(xs, xs@.len(), i - 1, x); } },
        Expr::Intrinsic(_, xs) => { list_part(xs, xs@.len(), i, x); },
        Expr::Construct(_, _, xs) => { list_part(xs, xs@.len(), i, x); },
        Expr::Lambda(ps, b) => { times_in(param_names(ps@), x); assert(bc(e, x) == bc(*b, x) + times(param_names(ps@), x)); },
        Expr::Match(d, bs) => {
            if i > 0 { branch_part(bs, bs@.len(), i - 1, x); times_in(bs@[i - 1].bindings@, x); }
            if binds(e, x) {
                let k = choose|k: int| 0 <= k < bs@.len() && (#[trigger] bs@[k]).bindings@.contains(x);
                times_in(bs@[k].bindings@, x);
                branch_part(bs, bs@.len(), k, x);
                if i > 0 && k < i - 1 { two_branches(bs, bs@.len(), k, i - 1, x); }
                if i > 0 && i - 1 < k { two_branches(bs, bs@.len(), i - 1, k, x); }
            }
        },
        _ => {},
    }
}
proof fn parts_apart(e: Expr, i: int, j: int, x: Name)
    requires 0 <= i < parts(e), 0 <= j < parts(e), i != j, once(e), bc(part(e, i), x) > 0,
    ensures bc(part(e, j), x) == 0,
    decreases (if j < i { 1int } else { 0 }),
{
    if j < i {
        if bc(part(e, j), x) > 0 { parts_apart(e, j, i, x); }
    } else {
        assert(bc(e, x) <= 1);
        match e {
            Expr::Call(f, xs) => { list_part(xs, xs@.len(), j - 1, x); if i > 0 { two_of(xs, xs@.len(), i - 1, j - 1, x); } },
            Expr::Intrinsic(_, xs) => { two_of(xs, xs@.len(), i, j, x); },
            Expr::Construct(_, _, xs) => { two_of(xs, xs@.len(), i, j, x); },
            Expr::Match(d, bs) => { branch_part(bs, bs@.len(), j - 1, x); if i > 0 { two_branches(bs, bs@.len(), i - 1, j - 1, x); } },
            _ => {},
        }
    }
}
proof fn stepped(a: Expr, b: Expr, w: W, u: W)
    requires rec_step(a, b, w, u), once(a), clear(a, w),
    ensures once(b), forall|x: Name| bc(a, x) == #[trigger] bc(b, x), grew(w, u, a), forall|x: Name| #[trigger] u.contains_key(x) ==> w.contains_key(x) || binds(a, x) && a is LetRec,
{
    assert forall|x: Name| bc(a, x) == #[trigger] bc(b, x) by {
        if a is LetRec && *(b->LetRec_2) != *(a->LetRec_2) { assert(occ_same(*(a->LetRec_2), *(b->LetRec_2), x)); }
    }
    assert forall|x: Name| #[trigger] bc(b, x) <= 1 by { assert(bc(a, x) <= 1); }
    if a is LetRec { assert(bc(a, a->LetRec_0) > 0); }
    assert forall|x: Name| #[trigger] grew_at(w, u, a, x) by {}
}
/// the maps after each part of e that has been walked
pub open spec fn chain(e: Expr, ws: Seq<W>, i: int) -> bool {
    0 <= i <= parts(e) && ws.len() == i + 1 && once(e)
    && (forall|j: int, x: Name| 0 <= j < parts(e) && #[trigger] bc(part(e, j), x) > 0 ==> !ws[0].contains_key(x))
    && (forall|k: int| 0 <= k < i ==> grew(#[trigger] ws[k], ws[k + 1], part(e, k)))
}
pub open spec fn part_done(e: Expr, ws: Seq<W>, k: int, q: Expr) -> bool { sat(part(e, k), q, ws[k + 1], true, false) }
proof fn chain_start(a: Expr, e: Expr, w: W, u: W)
    requires rec_step(a, e, w, u), once(a), clear(a, w),
    ensures chain(e, seq![u], 0),
{
    stepped(a, e, w, u);
    assert forall|j: int, x: Name| 0 <= j < parts(e) && #[trigger] bc(part(e, j), x) > 0 implies !u.contains_key(x) by {
        part_binds(e, j, x);
        assert(bc(a, x) == bc(e, x));
        assert(bc(a, x) > 0);
    }
}
proof fn chain_clear(e: Expr, ws: Seq<W>, i: int, t: int, k: int)
    requires chain(e, ws, i), 0 <= k <= i, k <= t < parts(e),
    ensures clear(part(e, t), ws[k]), once(part(e, t)),
    decreases k,
{
    assert forall|x: Name| #[trigger] bc(part(e, t), x) <= 1 by { part_binds(e, t, x); assert(bc(e, x) <= 1); }
    if k > 0 {
        chain_clear(e, ws, i, t, k - 1);
        assert(grew(ws[k - 1], ws[k - 1 + 1], part(e, k - 1)));
        assert forall|x: Name| #[trigger] bc(part(e, t), x) > 0 implies !ws[k].contains_key(x) by {
            assert(grew_at(ws[k - 1], ws[k], part(e, k - 1), x));
            if bc(part(e, k - 1), x) > 0 { parts_apart(e, k - 1, t, x); }
        }
    }
}
proof fn chain_push(e: Expr, ws: Seq<W>, i: int, u: W)
    requires chain(e, ws, i), i < parts(e), grew(ws[i], u, part(e, i)),
    ensures chain(e, ws.push(u), i + 1), forall|k: int, q: Expr| 0 <= k < i && #[trigger] part_done(e, ws, k, q) ==> part_done(e, ws.push(u), k, q),
{
    let vs = ws.push(u);
    assert forall|k: int| 0 <= k < i + 1 implies grew(#[trigger] vs[k], vs[k + 1], part(e, k)) by { if k < i { assert(grew(ws[k], ws[k + 1], part(e, k))); } }
    assert forall|k: int, q: Expr| 0 <= k < i && #[trigger] part_done(e, ws, k, q) implies part_done(e, vs, k, q) by { assert(vs[k + 1] == ws[k + 1]); }
}
/// nothing changes for names that the parts from k on do not bind
proof fn chain_keeps(e: Expr, ws: Seq<W>, i: int, k: int, m: int, x: Name)
    requires chain(e, ws, i), 0 <= k <= m <= i, forall|j: int| k <= j < m ==> bc(#[trigger] part(e, j), x) == 0,
    ensures ws[m].contains_key(x) <==> ws[k].contains_key(x), ws[k].contains_key(x) ==> ws[m][x] == ws[k][x],
    decreases m - k,
{
    if k < m {
        chain_keeps(e, ws, i, k, m - 1, x);
        assert(grew(ws[m - 1], ws[m - 1 + 1], part(e, m - 1)));
        assert(grew_at(ws[m - 1], ws[m], part(e, m - 1), x));
        assert(bc(part(e, m - 1), x) == 0);
    }
}
proof fn chain_grew(e: Expr, ws: Seq<W>, i: int, m: int)
    requires chain(e, ws, i), 0 <= m <= i,
    ensures grew(ws[0], ws[m], e),
    decreases m,
{
    if m > 0 {
        chain_grew(e, ws, i, m - 1);
        assert(grew(ws[m - 1], ws[m - 1 + 1], part(e, m - 1)));
        assert forall|x: Name| #[trigger] grew_at(ws[0], ws[m], e, x) by { assert(grew_at(ws[0], ws[m - 1], e, x)); assert(grew_at(ws[m - 1], ws[m], part(e, m - 1), x)); part_binds(e, m - 1, x); }
    } else { assert forall|x: Name| #[trigger] grew_at(ws[0], ws[0], e, x) by {} }
}
proof fn part_at_end(e: Expr, ws: Seq<W>, k: int, q: Expr)
    requires chain(e, ws, parts(e) as int), 0 <= k < parts(e), part_done(e, ws, k, q),
    ensures sat(part(e, k), q, ws.last(), true, false),
{
    let p = part(e, k);
    let w = ws[k + 1];
    let u = ws.last();
    assert forall|x: Name| #[trigger] alike_on(p, w, u, false, x) by {
        if bc(p, x) > 0 {
            assert forall|j: int| k + 1 <= j < parts(e) implies bc(#[trigger] part(e, j), x) == 0 by { parts_apart(e, k, j, x); }
            chain_keeps(e, ws, parts(e) as int, k + 1, parts(e) as int, x);
        }
    }
    sat_alike(p, q, w, u, true, false);
}
proof fn own_binders(a: Expr, e: Expr, w: W, ws: Seq<W>, x: Name)
    requires rec_step(a, e, w, ws[0]), once(a), clear(a, w), chain(e, ws, parts(e) as int), binds(e, x), parts(e) > 0,
    ensures ws.last().contains_key(x) <==> ws[0].contains_key(x), ws[0].contains_key(x) ==> ws.last()[x] == ws[0][x], !(a is LetRec) ==> !ws.last().contains_key(x), !w.contains_key(x),
{
    stepped(a, e, w, ws[0]);
    assert forall|j: int| 0 <= j < parts(e) implies bc(#[trigger] part(e, j), x) == 0 by { part_binds(e, j, x); }
    chain_keeps(e, ws, parts(e) as int, 0, parts(e) as int, x);
    part_binds(e, 0, x);
    assert(bc(a, x) == bc(e, x));
}
/// the whole node
#[verifier::spinoff_prover]
proof fn assembled(a: Expr, e: Expr, r: Expr, w: W, ws: Seq<W>)
    requires
        rec_step(a, e, w, ws[0]), once(a), clear(a, w), chain(e, ws, parts(e) as int), same_node(e, r),
        forall|k: int| 0 <= k < parts(e) ==> part_done(e, ws, k, #[trigger] part(r, k)),
    ensures sat(a, r, ws.last(), true, false), grew(w, ws.last(), a),
{
    let u = ws.last();
    stepped(a, e, w, ws[0]);
    chain_grew(e, ws, parts(e) as int, parts(e) as int);
    assert forall|x: Name| #[trigger] grew_at(w, u, a, x) by { assert(grew_at(w, ws[0], a, x)); assert(grew_at(ws[0], u, e, x)); assert(bc(a, x) == bc(e, x)); }
    assert forall|k: int| 0 <= k < parts(e) implies sat(part(e, k), #[trigger] part(r, k), u, true, false) by { part_at_end(e, ws, k, part(r, k)); }
    if parts(e) > 0 { assert forall|x: Name| #[trigger] binds(e, x) && !(a is LetRec) implies !u.contains_key(x) by { own_binders(a, e, w, ws, x); } }
    match (e, r) {
        (Expr::Call(f, xs), Expr::Call(g, ys)) => {
            assert(sat(part(e, 0), part(r, 0), u, true, false));
            assert forall|k: int| 0 <= k < xs@.len() implies sat(#[trigger] xs@[k], ys@[k], u, true, false) by { assert(sat(part(e, k + 1), part(r, k + 1), u, true, false)); }
            sat_list_all(xs@, ys, ys@.len(), u, true, false);
        },
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => {
            assert forall|k: int| 0 <= k < xs@.len() implies sat(#[trigger] xs@[k], ys@[k], u, true, false) by { assert(sat(part(e, k), part(r, k), u, true, false)); }
            sat_list_all(xs@, ys, ys@.len(), u, true, false);
        },
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => {
            assert forall|k: int| 0 <= k < xs@.len() implies sat(#[trigger] xs@[k], ys@[k], u, true, false) by { assert(sat(part(e, k), part(r, k), u, true, false)); }
            sat_list_all(xs@, ys, ys@.len(), u, true, false);
        },
        (Expr::Match(d, bs), Expr::Match(c, cs)) => {
            assert(sat(part(e, 0), part(r, 0), u, true, false));
            assert forall|k: int| 0 <= k < bs@.len() implies sat_branch(#[trigger] bs@[k], cs@[k], u, true, false) by {
                assert(sat(part(e, k + 1), part(r, k + 1), u, true, false));
                let ns = bs@[k].bindings@;
                assert forall|i: int| 0 <= i < ns.len() implies !u.contains_key(#[trigger] ns[i]) by { assert(ns.contains(ns[i])); assert(binds(e, ns[i])); }
            }
            sat_branches_all(bs@, cs, cs@.len(), u, true, false);
        },
        (Expr::Lambda(ps, _), _) => {
            assert(sat(part(e, 0), part(r, 0), u, true, false));
            let ns = param_names(ps@);
            assert forall|i: int| 0 <= i < ns.len() implies !u.contains_key(#[trigger] ns[i]) by { assert(ns.contains(ns[i])); assert(binds(e, ns[i])); }
        },
        (Expr::LetRec(n, _, v, b), Expr::LetRec(_, _, c, d)) => {
            assert(sat(part(e, 0), part(r, 0), u, true, false));
            assert(sat(part(e, 1), part(r, 1), u, true, false));
            assert(binds(e, n));
            own_binders(a, e, w, ws, n);
            let v0 = *(a->LetRec_2);
            if ws[0].contains_key(n) { assert(collapsed(v0, *v, u[n])); } else { assert(*v == v0); }
        },
        (Expr::Let(n, _, _), _) => {
            assert(sat(part(e, 0), part(r, 0), u, true, false));
            assert(sat(part(e, 1), part(r, 1), u, true, false));
            assert(binds(e, n));
        },
        (Expr::If(_, _, _), _) => {
            assert(sat(part(e, 0), part(r, 0), u, true, false));
            assert(sat(part(e, 1), part(r, 1), u, true, false));
            assert(sat(part(e, 2), part(r, 2), u, true, false));
        },
        (Expr::Op(_, _, _), _) => {
            assert(sat(part(e, 0), part(r, 0), u, true, false));
            assert(sat(part(e, 1), part(r, 1), u, true, false));
        },
        (Expr::Pi(_, _), _) => { assert(sat(part(e, 0), part(r, 0), u, true, false)); },
        (Expr::PiApply(_, _), _) => { assert(sat(part(e, 0), part(r, 0), u, true, false)); },
        _ => {},
    }
}

// -- the map from functions to the groups of their arguments
#[verifier::external_body]
pub struct RwMap { m: std::collections::HashMap<u64, u64> }
impl View for RwMap { type V = W; uninterp spec fn view(&self) -> W; }
impl RwMap {
    #[verifier::external_body]
    pub fn new() -> (r: RwMap) ensures r@ == Map::<Name, Seq<nat>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: Name, r: Rewrite) ensures final(self)@ == old(self)@.insert(n, sizes(r.arg_groups@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, n: &Name) -> (r: Option<&Rewrite>)
        ensures r is Some <==> self@.contains_key(*n), r matches Some(w) ==> sizes(w.arg_groups@) == self@[*n],
    { unimplemented!() }
}
//@ fn ticc/src/codegen/opt/saturate.rs optimize
//@ closure 0
//@ params fn collapse_rec(e: &mut Expr, rewrites: &mut RwMap)
    ensures rec_step(*old(e), *final(e), old(rewrites)@, final(rewrites)@),
//@ end
//@ fn ticc/src/codegen/opt.rs walk_expressions_mut.go
//@ params fn sat_go(expr: &mut Expr, rewrites: &mut RwMap)
//@ splitor
//@ rule f ( expr ) ==> collapse_rec ( expr , rewrites ) ; let ghost e1 = * expr ; let ghost mut ws = seq ! [ rewrites @ ] ; let ghost w1 = rewrites @ ; proof { chain_start ( e0 , e1 , w0 , w1 ) ; }
//@ rule go ( $x , f ) ==> proof { chain_clear ( e1 , ws , ws . len ( ) - 1 , ws . len ( ) - 1 , ws . len ( ) - 1 ) ; } sat_go ( $x , rewrites ) ; proof { chain_push ( e1 , ws , ws . len ( ) - 1 , rewrites @ ) ; ws = ws . push ( rewrites @ ) ; }
//@ rule __vx_it_0 ( b ) ==> __vx_it_0 ( b . iter_mut ( ) )
//@ rule __vx_it_1 ( b ) ==> __vx_it_1 ( b . iter_mut ( ) )
//@ rule __vx_it_2 ( bs ) ==> __vx_it_2 ( bs . iter_mut ( ) )
//@ rule __vx_it_3 ( xs ) ==> __vx_it_3 ( xs . iter_mut ( ) )
    requires once(*old(expr)), clear(*old(expr), old(rewrites)@),
    ensures sat(*old(expr), *final(expr), final(rewrites)@, true, false), grew(old(rewrites)@, final(rewrites)@, *old(expr)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost e0 = *expr;
    let ghost w0 = rewrites@;
//@ loop 0
    invariant
        e1 is Call, rewrites@ == ws.last(), ws[0] == w1,
        vx_it0.seq().len() == e1->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e1->Call_1@[k],
        chain(e1, ws, vx_it0.index() + 1), part_done(e1, ws, 0, **a),
        forall|k: int| 0 <= k < vx_it0.index() ==> part_done(e1, ws, k + 1, *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*b == e1->Call_1@[vx_it0.index() as int]); assert(part(e1, vx_it0.index() + 1) == *b); }
//@ loop 1
    invariant
        e1 is Intrinsic, rewrites@ == ws.last(), ws[0] == w1,
        vx_it1.seq().len() == e1->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == e1->Intrinsic_1@[k],
        chain(e1, ws, vx_it1.index() as int),
        forall|k: int| 0 <= k < vx_it1.index() ==> part_done(e1, ws, k, *final(#[trigger] vx_it1.seq()[k])),
//@ loophead 1
    proof { assert(*b == e1->Intrinsic_1@[vx_it1.index() as int]); assert(part(e1, vx_it1.index() as int) == *b); }
//@ loop 2
    invariant
        e1 is Match, rewrites@ == ws.last(), ws[0] == w1,
        vx_it2.seq().len() == e1->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == e1->Match_1@[k],
        chain(e1, ws, vx_it2.index() + 1), part_done(e1, ws, 0, **a),
        forall|k: int| 0 <= k < vx_it2.index() ==> part_done(e1, ws, k + 1, final(#[trigger] vx_it2.seq()[k]).value)
            && final(vx_it2.seq()[k]).ctor == e1->Match_1@[k].ctor && final(vx_it2.seq()[k]).bindings@ == e1->Match_1@[k].bindings@,
//@ loophead 2
    proof { assert(*b == e1->Match_1@[vx_it2.index() as int]); assert(part(e1, vx_it2.index() + 1) == b.value); }
//@ loop 3
    invariant
        e1 is Construct, rewrites@ == ws.last(), ws[0] == w1,
        vx_it3.seq().len() == e1->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == e1->Construct_2@[k],
        chain(e1, ws, vx_it3.index() as int),
        forall|k: int| 0 <= k < vx_it3.index() ==> part_done(e1, ws, k, *final(#[trigger] vx_it3.seq()[k])),
//@ loophead 3
    proof { assert(*a == e1->Construct_2@[vx_it3.index() as int]); assert(part(e1, vx_it3.index() as int) == *a); }
//@ after match expr
    proof {
        let r = *expr;
        assert(same_node(e1, r));
        assert forall|k: int| 0 <= k < parts(e1) implies part_done(e1, ws, k, #[trigger] part(r, k)) by {}
        assembled(e0, e1, r, w0, ws);
    }
//@ end

// ---- the second walk: uses are rewritten ----------------------------------------------
/// no name of w is bound anew
pub open spec fn tidy(e: Expr, w: W) -> bool { sat(e, e, w, false, false) }
#[verifier::spinoff_prover]
proof fn tidied(a: Expr, m: Expr, w: W)
    requires sat(a, m, w, true, false),
    ensures tidy(m, w),
    decreases m, 0nat,
{
    match (a, m) {
        (Expr::Call(f, xs), Expr::Call(g, ys)) => { tidied(*f, *g, w); tidied_list(xs@, ys, ys@.len(), w); },
        (Expr::If(c, t, e), Expr::If(d, u, f)) => { tidied(*c, *d, w); tidied(*t, *u, w); tidied(*e, *f, w); },
        (Expr::Op(x, _, y), Expr::Op(u, _, v)) => { tidied(*x, *u, w); tidied(*y, *v, w); },
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => { tidied_list(xs@, ys, ys@.len(), w); },
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => { tidied_list(xs@, ys, ys@.len(), w); },
        (Expr::Lambda(_, x), Expr::Lambda(_, y)) => { tidied(*x, *y, w); },
        (Expr::Match(d, bs), Expr::Match(c, cs)) => { tidied(*d, *c, w); tidied_branches(bs@, cs, cs@.len(), w); },
        (Expr::Let(_, v, r), Expr::Let(_, u, s)) => { tidied(*v, *u, w); tidied(*r, *s, w); },
        (Expr::LetRec(n, _, v, r), Expr::LetRec(_, _, u, s)) => {
            tidied(*r, *s, w);
            if w.contains_key(n) {
                let v1 = choose|v1: Expr| #[trigger] collapsed(*v, v1, w[n]) && sat(v1, *u, w, true, false);
                tidied(v1, *u, w);
            } else { tidied(*v, *u, w); }
        },
        (Expr::Pi(_, x), Expr::Pi(_, y)) => { tidied(*x, *y, w); },
        (Expr::PiApply(x, _), Expr::PiApply(y, _)) => { tidied(*x, *y, w); },
        _ => {},
    }
}
proof fn tidied_list(xs: Seq<Expr>, ys: Vec<Expr>, n: nat, w: W)
    requires sat_list(xs, ys, n, w, true, false), n <= xs.len(), xs.len() == ys@.len(),
    ensures sat_list(ys@, ys, n, w, false, false),
    decreases ys, n,
{
    if n > 0 { tidied(xs[n - 1], ys@[n - 1], w); tidied_list(xs, ys, (n - 1) as nat, w); }
}
proof fn tidied_branches(bs: Seq<Branch>, cs: Vec<Branch>, n: nat, w: W)
    requires sat_branches(bs, cs, n, w, true, false), n <= bs.len(), bs.len() == cs@.len(),
    ensures sat_branches(cs@, cs, n, w, false, false),
    decreases cs, n,
{
    if n > 0 { tidied(bs[n - 1].value, cs@[n - 1].value, w); tidied_branches(bs, cs, (n - 1) as nat, w); }
}
proof fn tidy_part(e: Expr, k: int, w: W)
    requires tidy(e, w), 0 <= k < parts(e),
    ensures tidy(part(e, k), w),
{
    match e {
        Expr::Call(_, xs) => { sat_list_all(xs@, xs, xs@.len(), w, false, false); },
        Expr::Intrinsic(_, xs) => { sat_list_all(xs@, xs, xs@.len(), w, false, false); },
        Expr::Construct(_, _, xs) => { sat_list_all(xs@, xs, xs@.len(), w, false, false); },
        Expr::Match(_, bs) => { sat_branches_all(bs@, bs, bs@.len(), w, false, false); if k > 0 { assert(sat_branch(bs@[k - 1], bs@[k - 1], w, false, false)); } },
        _ => {},
    }
}
pub open spec fn part_used(e: Expr, k: int, q: Expr, w: W) -> bool { sat(part(e, k), q, w, false, true) }
#[verifier::spinoff_prover]
proof fn put_together(e: Expr, r: Expr, w: W)
    requires tidy(e, w), same_node(e, r), !(e is Name), forall|k: int| 0 <= k < parts(e) ==> part_used(e, k, #[trigger] part(r, k), w),
    ensures sat(e, r, w, false, true),
{
    if parts(e) > 0 { assert(part_used(e, 0, part(r, 0), w)); }
    if parts(e) > 1 { assert(part_used(e, 1, part(r, 1), w)); }
    if parts(e) > 2 { assert(part_used(e, 2, part(r, 2), w)); }
    match (e, r) {
        (Expr::Call(f, xs), Expr::Call(g, ys)) => {
            assert forall|k: int| 0 <= k < xs@.len() implies sat(#[trigger] xs@[k], ys@[k], w, false, true) by { assert(part_used(e, k + 1, part(r, k + 1), w)); }
            sat_list_all(xs@, ys, ys@.len(), w, false, true);
        },
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => {
            assert forall|k: int| 0 <= k < xs@.len() implies sat(#[trigger] xs@[k], ys@[k], w, false, true) by { assert(part_used(e, k, part(r, k), w)); }
            sat_list_all(xs@, ys, ys@.len(), w, false, true);
        },
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => {
            assert forall|k: int| 0 <= k < xs@.len() implies sat(#[trigger] xs@[k], ys@[k], w, false, true) by { assert(part_used(e, k, part(r, k), w)); }
            sat_list_all(xs@, ys, ys@.len(), w, false, true);
        },
        (Expr::Match(_, bs), Expr::Match(_, cs)) => {
            sat_branches_all(bs@, bs, bs@.len(), w, false, false);
            assert forall|k: int| 0 <= k < bs@.len() implies sat_branch(#[trigger] bs@[k], cs@[k], w, false, true) by {
                assert(part_used(e, k + 1, part(r, k + 1), w));
                assert(sat_branch(bs@[k], bs@[k], w, false, false));
            }
            sat_branches_all(bs@, cs, cs@.len(), w, false, true);
        },
        _ => {},
    }
}
pub open spec fn use_step(a: Expr, b: Expr, w: W) -> bool {
    match a { Expr::Name(n) => if w.contains_key(n) { stands(b, n, w[n]) } else { a == b }, _ => a == b }
}
/// every name of w has been given out
pub open spec fn known_names(w: W, c: nat) -> bool { forall|n: Name| #[trigger] w.contains_key(n) ==> n.id < c }
//@ fn ticc/src/codegen/opt/saturate.rs rewrite_expr
//@ params fn rewrite_expr(expr: &mut Expr, rewrites: &RwMap, names: &mut NameGenerator<'_>, types: &mut TyGenerator)
    requires known_names(rewrites@, cnt(*old(names))),
    ensures use_step(*old(expr), *final(expr), rewrites@), cnt(*final(names)) >= cnt(*old(names)),
//@ end
//@ fn ticc/src/codegen/opt/saturate.rs optimize
//@ closure 1
//@ params fn use_rec(e: &mut Expr, rewrites: &RwMap, names: &mut NameGenerator<'_>, types: &mut TyGenerator)
//@ rule & rewrites ==> rewrites
    requires known_names(rewrites@, cnt(*old(names))),
    ensures use_step(*old(e), *final(e), rewrites@), cnt(*final(names)) >= cnt(*old(names)),
//@ end
//@ fn ticc/src/codegen/opt.rs walk_expressions_postorder_mut.go
//@ params fn use_go(expr: &mut Expr, rewrites: &RwMap, names: &mut NameGenerator<'_>, types: &mut TyGenerator)
//@ splitor
//@ rule f ( expr ) ==> let ghost mid = * expr ; proof { assert ( same_node ( e0 , mid ) ) ; assert forall | k : int | 0 <= k && k < parts ( e0 ) implies part_used ( e0 , k , # [ trigger ] part ( mid , k ) , w ) by { } if ! ( e0 is Name ) { put_together ( e0 , mid , w ) ; } } use_rec ( expr , rewrites , names , types )
//@ rule go ( $x , f ) ==> proof { tidy_part ( e0 , at , w ) ; } use_go ( $x , rewrites , names , types ) ; proof { at = at + 1 ; }
//@ rule __vx_it_0 ( b ) ==> __vx_it_0 ( b . iter_mut ( ) )
//@ rule __vx_it_1 ( b ) ==> __vx_it_1 ( b . iter_mut ( ) )
//@ rule __vx_it_2 ( bs ) ==> __vx_it_2 ( bs . iter_mut ( ) )
//@ rule __vx_it_3 ( xs ) ==> __vx_it_3 ( xs . iter_mut ( ) )
    requires tidy(*old(expr), rewrites@), known_names(rewrites@, cnt(*old(names))),
    ensures sat(*old(expr), *final(expr), rewrites@, false, true), cnt(*final(names)) >= cnt(*old(names)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost e0 = *expr;
    let ghost w = rewrites@;
    let ghost c0 = cnt(*names);
    let ghost mut at: int = 0;
//@ loop 0
    invariant
        e0 is Call, rewrites@ == w, tidy(e0, w), known_names(w, c0), cnt(*names) >= c0,
        vx_it0.seq().len() == e0->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e0->Call_1@[k],
        at == vx_it0.index() + 1, part_used(e0, 0, **a, w),
        forall|k: int| 0 <= k < vx_it0.index() ==> part_used(e0, k + 1, *final(#[trigger] vx_it0.seq()[k]), w),
//@ loophead 0
    proof { assert(*b == e0->Call_1@[vx_it0.index() as int]); assert(part(e0, vx_it0.index() + 1) == *b); }
//@ loop 1
    invariant
        e0 is Intrinsic, rewrites@ == w, tidy(e0, w), known_names(w, c0), cnt(*names) >= c0,
        vx_it1.seq().len() == e0->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == e0->Intrinsic_1@[k],
        at == vx_it1.index(),
        forall|k: int| 0 <= k < vx_it1.index() ==> part_used(e0, k, *final(#[trigger] vx_it1.seq()[k]), w),
//@ loophead 1
    proof { assert(*b == e0->Intrinsic_1@[vx_it1.index() as int]); assert(part(e0, vx_it1.index() as int) == *b); }
//@ loop 2
    invariant
        e0 is Match, rewrites@ == w, tidy(e0, w), known_names(w, c0), cnt(*names) >= c0,
        vx_it2.seq().len() == e0->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == e0->Match_1@[k],
        at == vx_it2.index() + 1, part_used(e0, 0, **a, w),
        forall|k: int| 0 <= k < vx_it2.index() ==> part_used(e0, k + 1, final(#[trigger] vx_it2.seq()[k]).value, w)
            && final(vx_it2.seq()[k]).ctor == e0->Match_1@[k].ctor && final(vx_it2.seq()[k]).bindings@ == e0->Match_1@[k].bindings@,
//@ loophead 2
    proof { assert(*b == e0->Match_1@[vx_it2.index() as int]); assert(part(e0, vx_it2.index() + 1) == b.value); }
//@ loop 3
    invariant
        e0 is Construct, rewrites@ == w, tidy(e0, w), known_names(w, c0), cnt(*names) >= c0,
        vx_it3.seq().len() == e0->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == e0->Construct_2@[k],
        at == vx_it3.index(),
        forall|k: int| 0 <= k < vx_it3.index() ==> part_used(e0, k, *final(#[trigger] vx_it3.seq()[k]), w),
//@ loophead 3
    proof { assert(*a == e0->Construct_2@[vx_it3.index() as int]); assert(part(e0, vx_it3.index() as int) == *a); }
//@ end

// -- the pass
#[verifier::external_body]
pub struct TyDef { n: usize }
//@ type ticc-core/src/ir.rs Program
pub open spec fn top_at(ds: Seq<ValueDef>, n: int, x: Name) -> bool { exists|j: int| 0 <= j < n && (#[trigger] ds[j]).name == x }
/// definitions name themselves and earlier ones only, and every binder of the program has a name of its own
pub open spec fn apart(ds: Seq<ValueDef>, c: nat) -> bool {
    (forall|i: int| 0 <= i < ds.len() ==> once((#[trigger] ds[i]).value) && ds[i].name.id < c)
    && (forall|i: int, x: Name| 0 <= i < ds.len() && #[trigger] bc(ds[i].value, x) > 0 ==> x.id < c && !top_at(ds, ds.len() as int, x))
    && (forall|i: int, x: Name| 0 <= i < ds.len() && #[trigger] fv(ds[i].value, x) ==> top_at(ds, i + 1, x))
    && (forall|i: int, j: int, x: Name| 0 <= i < j < ds.len() && #[trigger] bc(ds[i].value, x) > 0 ==> bc((#[trigger] ds[j]).value, x) == 0)
    && (forall|i: int, j: int| 0 <= i < j < ds.len() ==> (#[trigger] ds[i]).name != (#[trigger] ds[j]).name)
}
/// x is bound in one of the first n definitions
pub open spec fn bound_at(ds: Seq<ValueDef>, n: int, x: Name) -> bool { exists|j: int| 0 <= j < n && bc((#[trigger] ds[j]).value, x) > 0 }
/// the map says something about the first n definitions only
pub open spec fn from_first(ds: Seq<ValueDef>, w: W, n: int) -> bool { forall|x: Name| #[trigger] w.contains_key(x) ==> top_at(ds, n, x) || bound_at(ds, n, x) }
/// the definition itself may have been collapsed
pub open spec fn top_step(d: ValueDef, v: Expr, w: W, u: W) -> bool {
    v == d.value && u == w || u.contains_key(d.name) && u == w.insert(d.name, u[d.name]) && collapsed(d.value, v, u[d.name])
}
proof fn own_name(ds: Seq<ValueDef>, i: int, c: nat, w: W)
    requires apart(ds, c), 0 <= i < ds.len(), from_first(ds, w, i),
    ensures
        !w.contains_key(ds[i].name), bc(ds[i].value, ds[i].name) == 0,
        forall|x: Name| #[trigger] bc(ds[i].value, x) > 0 ==> !w.contains_key(x) && x != ds[i].name,
{
    let n = ds[i].name;
    assert(top_at(ds, ds.len() as int, n));
    if w.contains_key(n) {
        if top_at(ds, i, n) { let j = choose|j: int| 0 <= j < i && (#[trigger] ds[j]).name == n; assert(ds[j].name != ds[i].name); }
        if bound_at(ds, i, n) { let j = choose|j: int| 0 <= j < i && bc((#[trigger] ds[j]).value, n) > 0; assert(bc(ds[j].value, n) > 0); }
    }
    assert forall|x: Name| #[trigger] bc(ds[i].value, x) > 0 implies !w.contains_key(x) && x != n by {
        if w.contains_key(x) {
            if top_at(ds, i, x) { let j = choose|j: int| 0 <= j < i && (#[trigger] ds[j]).name == x; assert(ds[j].name == x); assert(top_at(ds, ds.len() as int, x)); }
            if bound_at(ds, i, x) { let j = choose|j: int| 0 <= j < i && bc((#[trigger] ds[j]).value, x) > 0; assert(bc(ds[j].value, x) > 0); assert(bc(ds[i].value, x) == 0); }
        }
    }
}
proof fn def_ready(ds: Seq<ValueDef>, i: int, c: nat, w: W, v: Expr, w1: W)
    requires apart(ds, c), 0 <= i < ds.len(), from_first(ds, w, i), top_step(ds[i], v, w, w1),
    ensures once(v), clear(v, w1), forall|x: Name| bc(v, x) == #[trigger] bc(ds[i].value, x),
{
    own_name(ds, i, c, w);
    assert(once(ds[i].value));
    assert forall|x: Name| bc(v, x) == #[trigger] bc(ds[i].value, x) by { if v != ds[i].value { assert(occ_same(ds[i].value, v, x)); } }
    assert forall|x: Name| #[trigger] bc(v, x) <= 1 by { assert(bc(ds[i].value, x) <= 1); }
    assert forall|x: Name| #[trigger] bc(v, x) > 0 implies !w1.contains_key(x) by { assert(bc(ds[i].value, x) > 0); }
}
proof fn def_names(ds: Seq<ValueDef>, i: int, c: nat, w: W, v: Expr, w1: W, u: W)
    requires apart(ds, c), 0 <= i < ds.len(), from_first(ds, w, i), top_step(ds[i], v, w, w1), grew(w1, u, v),
    ensures from_first(ds, u, i + 1), known_names(u, c),
{
    def_ready(ds, i, c, w, v, w1);
    assert forall|x: Name| #[trigger] u.contains_key(x) implies top_at(ds, i + 1, x) || bound_at(ds, i + 1, x) by {
        assert(grew_at(w1, u, v, x));
        if bc(v, x) > 0 { assert(bc(ds[i].value, x) > 0); assert(bound_at(ds, i + 1, x)); }
        else if x == ds[i].name { assert(top_at(ds, i + 1, x)); }
        else {
            assert(w.contains_key(x));
            if top_at(ds, i, x) { let j = choose|j: int| 0 <= j < i && (#[trigger] ds[j]).name == x; assert(ds[j].name == x); assert(top_at(ds, i + 1, x)); }
            else { let j = choose|j: int| 0 <= j < i && bc((#[trigger] ds[j]).value, x) > 0; assert(bc(ds[j].value, x) > 0); assert(bound_at(ds, i + 1, x)); }
        }
    }
    assert forall|x: Name| #[trigger] u.contains_key(x) implies x.id < c by {
        if top_at(ds, i + 1, x) { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] ds[j]).name == x; assert(ds[j].name.id < c); }
        else { let j = choose|j: int| 0 <= j < i + 1 && bc((#[trigger] ds[j]).value, x) > 0; assert(bc(ds[j].value, x) > 0); }
    }
}
proof fn def_done(ds: Seq<ValueDef>, i: int, c: nat, w: W, v: Expr, w1: W, u: W, m: Expr, b: ValueDef)
    requires
        apart(ds, c), 0 <= i < ds.len(), from_first(ds, w, i), top_step(ds[i], v, w, w1), grew(w1, u, v),
        sat(v, m, u, true, false), sat(m, b.value, u, false, true), b.name == ds[i].name, b.export_name == ds[i].export_name,
    ensures sat_def(ds[i], b, u),
{
    own_name(ds, i, c, w);
    def_ready(ds, i, c, w, v, w1);
    both(v, m, b.value, u);
    let n = ds[i].name;
    assert(grew_at(w1, u, v, n));
    assert(bc(v, n) == bc(ds[i].value, n));
}
/// what was said about earlier definitions still holds
proof fn defs_keep(ds: Seq<ValueDef>, i: int, c: nat, w: W, v: Expr, w1: W, u: W, j: int, b: ValueDef)
    requires apart(ds, c), 0 <= i < ds.len(), from_first(ds, w, i), top_step(ds[i], v, w, w1), grew(w1, u, v), 0 <= j < i, sat_def(ds[j], b, w),
    ensures sat_def(ds[j], b, u),
{
    own_name(ds, i, c, w);
    def_ready(ds, i, c, w, v, w1);
    let a = ds[j];
    assert(a.name != ds[i].name);
    assert forall|x: Name| (bc(a.value, x) > 0 || fv(a.value, x) || x == a.name) implies (w.contains_key(x) <==> #[trigger] u.contains_key(x)) && (w.contains_key(x) ==> w[x] == u[x]) by {
        assert(grew_at(w1, u, v, x));
        assert(bc(v, x) == bc(ds[i].value, x));
        if bc(a.value, x) > 0 {
            assert(bc(ds[j].value, x) > 0);
            assert(!top_at(ds, ds.len() as int, x));
            assert(bc(ds[i].value, x) == 0);
            assert(ds[i].name == ds[i].name);
        } else {
            if fv(a.value, x) {
                assert(fv(ds[j].value, x));
                assert(top_at(ds, j + 1, x));
                let k = choose|k: int| 0 <= k < j + 1 && (#[trigger] ds[k]).name == x;
                assert(ds[k].name != ds[i].name);
                assert(top_at(ds, ds.len() as int, x));
            } else { assert(ds[j].name == x); assert(top_at(ds, ds.len() as int, x)); }
            if bc(ds[i].value, x) > 0 { assert(false); }
        }
    }
    assert(w.contains_key(a.name) <==> u.contains_key(a.name));
    if w.contains_key(a.name) {
        let q = choose|q: Expr| #[trigger] collapsed(a.value, q, w[a.name]) && sat(q, b.value, w, true, true);
        assert forall|x: Name| #[trigger] alike_on(q, w, u, true, x) by { assert(occ_same(a.value, q, x)); assert(w.contains_key(x) || !w.contains_key(x)); assert(u.contains_key(x) || !u.contains_key(x)); }
        sat_alike(q, b.value, w, u, true, true);
        assert(collapsed(a.value, q, u[a.name]));
    } else {
        assert forall|x: Name| #[trigger] alike_on(a.value, w, u, true, x) by { assert(u.contains_key(x) || !u.contains_key(x)); }
        sat_alike(a.value, b.value, w, u, true, true);
    }
}
//@ fn ticc/src/codegen/opt/saturate.rs optimize
//@ rule HashMap :: new ( ) ==> RwMap :: new ( )
//@ rule opt :: walk_expressions_mut ( & mut v . value , | e | { $x:rest } ) ==> let ghost vx_v = v . value ; let ghost vx_w1 = rewrites @ ; proof { def_ready ( d0 , vx_i , c0 , vx_w , vx_v , vx_w1 ) ; } sat_go ( & mut v . value , & mut rewrites )
//@ rule opt :: walk_expressions_postorder_mut ( & mut v . value , | e | $x:rest ) ==> let ghost vx_m = v . value ; let ghost vx_u = rewrites @ ; proof { tidied ( vx_v , vx_m , vx_u ) ; def_names ( d0 , vx_i , c0 , vx_w , vx_v , vx_w1 , vx_u ) ; } use_go ( & mut v . value , & rewrites , names , types )
    requires apart(old(program).defs@, cnt(old(program).names)),
    ensures exists|w: W| #[trigger] regrouped(old(program).defs@, final(program).defs@, w),
//@ head
    let ghost d0 = program.defs@;
    let ghost c0 = cnt(program.names);
//@ loop 0
    invariant
        vx_it0.seq().len() == d0.len(), apart(d0, c0), c0 <= cnt(*names),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        from_first(d0, rewrites@, vx_it0.index() as int),
        forall|k: int| 0 <= k < vx_it0.index() ==> sat_def(d0[k], *final(#[trigger] vx_it0.seq()[k]), rewrites@),
//@ loophead 0
    let ghost vx_i = vx_it0.index() as int;
    let ghost vx_w = rewrites@;
    proof { assert(*v == d0[vx_i]); }
//@ looptail 0
    proof {
        def_done(d0, vx_i, c0, vx_w, vx_v, vx_w1, vx_u, vx_m, *v);
        assert forall|k: int| 0 <= k < vx_i implies sat_def(d0[k], *final(#[trigger] vx_it0.seq()[k]), vx_u) by {
            defs_keep(d0, vx_i, c0, vx_w, vx_v, vx_w1, vx_u, k, *final(vx_it0.seq()[k]));
        }
    }
//@ after for v in
    proof { program_of(d0, program.defs@, rewrites@); }
//@ end
}
fn main() {}
