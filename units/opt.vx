// Unit `opt`: optimization passes of ticc/src/codegen/opt against the call-by-name meaning of
// expressions (C03).
//
// The walkers of opt.rs take a function that rewrites one node. They are verified once, against the
// contract `step` below states for that function: on an expression whose binders have names of their
// own it leaves one that may stand for it. Every function a pass hands to a walker is verified against
// that contract.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ rule pub ( crate ) id : u64 ==> pub id : u64
//@ include den.inc
//@ rule std :: mem :: replace ( $x:any , $y:rest ) ==> vx_replace ( $x , $y )
//@ rule String :: new ( ) ==> vx_string ( )
//@ rule ?names : Vec < & 'a str > ==> pub names : Vec < & 'a str >
//@ rule unreachable ! ( ) ==> vx_unreachable ( )

// ---- std stand-ins
#[verifier::external_body]
fn vx_replace(e: &mut Expr, with: Expr) -> (r: Expr) ensures r == *old(e), *final(e) == with { unimplemented!() }
#[verifier::external_body]
fn vx_string() -> (r: String) { unimplemented!() }
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { unimplemented!() }
/// an `assert!` or `panic!` of the pass: it stops the compiler when it does not hold
#[verifier::external_body]
fn vx_stop_unless(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
fn vx_stop() -> ! { unimplemented!() }

/// the function a pass hands to a walker
#[verifier::external_body]
fn step(e: &mut Expr)
    requires fresh(*old(e)),
    ensures keeps(*old(e), *final(e)),
{ unimplemented!() }

//@ fn ticc/src/codegen/opt.rs walk_expressions_postorder_mut.go
//@ params fn post_go(expr: &mut Expr)
//@ splitor
//@ rule go ( $x , f ) ==> post_go ( $x )
//@ rule f ( expr ) ==> step ( expr )
//@ rule __vx_it_0 ( b ) ==> __vx_it_0 ( b . iter_mut ( ) )
//@ rule __vx_it_1 ( b ) ==> __vx_it_1 ( b . iter_mut ( ) )
//@ rule __vx_it_2 ( bs ) ==> __vx_it_2 ( bs . iter_mut ( ) )
//@ rule __vx_it_3 ( xs ) ==> __vx_it_3 ( xs . iter_mut ( ) )
    requires fresh(*old(expr)),
    ensures keeps(*old(expr), *final(expr)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost e0 = *expr;
    proof { fresh_parts(e0); }
//@ loop 0
    invariant
        e0 is Call, all_fresh(e0->Call_1@),
        vx_it0.seq().len() == e0->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e0->Call_1@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> keeps(e0->Call_1@[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*b == e0->Call_1@[vx_it0.index() as int]); }
//@ loop 1
    invariant
        e0 is Intrinsic, all_fresh(e0->Intrinsic_1@),
        vx_it1.seq().len() == e0->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == e0->Intrinsic_1@[k],
        forall|k: int| 0 <= k < vx_it1.index() ==> keeps(e0->Intrinsic_1@[k], *final(#[trigger] vx_it1.seq()[k])),
//@ loophead 1
    proof { assert(*b == e0->Intrinsic_1@[vx_it1.index() as int]); }
//@ loop 2
    invariant
        e0 is Match, branches_fresh(e0->Match_1@),
        vx_it2.seq().len() == e0->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == e0->Match_1@[k],
        forall|k: int| 0 <= k < vx_it2.index() ==> keep_branch(e0->Match_1@[k], *final(#[trigger] vx_it2.seq()[k])),
//@ loophead 2
    proof { assert(*b == e0->Match_1@[vx_it2.index() as int]); }
//@ loop 3
    invariant
        e0 is Construct, all_fresh(e0->Construct_2@),
        vx_it3.seq().len() == e0->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == e0->Construct_2@[k],
        forall|k: int| 0 <= k < vx_it3.index() ==> keeps(e0->Construct_2@[k], *final(#[trigger] vx_it3.seq()[k])),
//@ loophead 3
    proof { assert(*a == e0->Construct_2@[vx_it3.index() as int]); }
//@ before f ( expr )
    proof { cong(e0, *expr); keep_fresh(e0, *expr); }
    let ghost e1 = *expr;
//@ after f ( expr )
    proof { keep_trans(e0, e1, *expr); }
//@ end

//@ fn ticc/src/codegen/opt.rs walk_expressions_mut.go
//@ params fn pre_go(expr: &mut Expr)
//@ splitor
//@ rule go ( $x , f ) ==> pre_go ( $x )
//@ rule f ( expr ) ==> step ( expr )
//@ rule __vx_it_0 ( b ) ==> __vx_it_0 ( b . iter_mut ( ) )
//@ rule __vx_it_1 ( b ) ==> __vx_it_1 ( b . iter_mut ( ) )
//@ rule __vx_it_2 ( bs ) ==> __vx_it_2 ( bs . iter_mut ( ) )
//@ rule __vx_it_3 ( xs ) ==> __vx_it_3 ( xs . iter_mut ( ) )
    requires fresh(*old(expr)),
    ensures keeps(*old(expr), *final(expr)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost vx_e = *expr;
//@ after f ( expr )
    let ghost e0 = *expr;
    proof { keep_fresh(vx_e, e0); fresh_parts(e0); }
//@ loop 0
    invariant
        e0 is Call, all_fresh(e0->Call_1@),
        vx_it0.seq().len() == e0->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e0->Call_1@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> keeps(e0->Call_1@[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*b == e0->Call_1@[vx_it0.index() as int]); }
//@ loop 1
    invariant
        e0 is Intrinsic, all_fresh(e0->Intrinsic_1@),
        vx_it1.seq().len() == e0->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == e0->Intrinsic_1@[k],
        forall|k: int| 0 <= k < vx_it1.index() ==> keeps(e0->Intrinsic_1@[k], *final(#[trigger] vx_it1.seq()[k])),
//@ loophead 1
    proof { assert(*b == e0->Intrinsic_1@[vx_it1.index() as int]); }
//@ loop 2
    invariant
        e0 is Match, branches_fresh(e0->Match_1@),
        vx_it2.seq().len() == e0->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == e0->Match_1@[k],
        forall|k: int| 0 <= k < vx_it2.index() ==> keep_branch(e0->Match_1@[k], *final(#[trigger] vx_it2.seq()[k])),
//@ loophead 2
    proof { assert(*b == e0->Match_1@[vx_it2.index() as int]); }
//@ loop 3
    invariant
        e0 is Construct, all_fresh(e0->Construct_2@),
        vx_it3.seq().len() == e0->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == e0->Construct_2@[k],
        forall|k: int| 0 <= k < vx_it3.index() ==> keeps(e0->Construct_2@[k], *final(#[trigger] vx_it3.seq()[k])),
//@ loophead 3
    proof { assert(*a == e0->Construct_2@[vx_it3.index() as int]); }
//@ after match expr
    proof { cong(e0, *expr); keep_trans(vx_e, e0, *expr); }
//@ end

// ---- programs
//@ type ticc-core/src/ir.rs ValueDef
/// `ir::Program`; only the definitions matter
pub struct Program { pub defs: Vec<ValueDef> }
pub open spec fn keep_def(a: ValueDef, b: ValueDef) -> bool {
    a.name == b.name && a.export_name == b.export_name && keeps(a.value, b.value)
}
pub open spec fn keep_defs(a: Seq<ValueDef>, b: Seq<ValueDef>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> keep_def(#[trigger] a[k], b[k])
}
pub open spec fn defs_fresh(a: Seq<ValueDef>) -> bool { forall|k: int| 0 <= k < a.len() ==> fresh((#[trigger] a[k]).value) }

// ---- reduce_pi: types are not part of what an expression means ---------------------------
pub mod reduce_pi { use super::*;
//@ fn ticc/src/codegen/opt/reduce_pi.rs take_apart_pi_apply
//@ ret r
    requires *old(e) is PiApply,
    ensures r.0 == *(old(e)->PiApply_0), r.1 == old(e)->PiApply_1,
//@ end
//@ fn ticc/src/codegen/opt/reduce_pi.rs take_apart_pi
//@ ret r
    requires *old(e) is Pi,
    ensures r.0 == old(e)->Pi_0, r.1 == *(old(e)->Pi_1),
//@ end
pub open spec fn shape(e: Expr) -> bool decreases e {
    match e { Expr::Pi(_, _) => true, Expr::Let(_, _, r) => shape(*r), _ => false }
}
//@ fn ticc/src/codegen/opt/reduce_pi.rs can_apply
//@ ret r
    ensures r ==> shape(*old(e)), *final(e) == *old(e),
    decreases *old(e),
//@ end
/// (which types it leaves does not matter)
#[verifier::external_body]
fn replace_ty_in_ty(t: &mut Ty, var: TyVar, with: &Ty) { unimplemented!() }

//@ fn ticc/src/codegen/opt/reduce_pi.rs replace_ty_in_expr
//@ closure 0
//@ params fn retype(e: &mut Expr, var: TyVar, with: &Ty)
//@ splitor
//@ rule __vx_it_0 ( params ) ==> __vx_it_0 ( params . iter_mut ( ) )
//@ rule __vx_it_1 ( ts ) ==> __vx_it_1 ( ts . iter_mut ( ) )
    ensures keeps(*old(e), *final(e)),
//@ head
    let ghost e0 = *e;
//@ loop 0
    invariant
        e0 is Lambda,
        vx_it0.seq().len() == e0->Lambda_0@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e0->Lambda_0@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> (*final(#[trigger] vx_it0.seq()[k])).name == e0->Lambda_0@[k].name,
//@ after match e
    proof {
        if e0 is Lambda { assert(param_names(e->Lambda_0@) =~= param_names(e0->Lambda_0@)); }
        untyped_keeps(e0, *e);
    }
//@ end
/// the same expression up to types
pub open spec fn untyped(a: Expr, b: Expr) -> bool {
    match (a, b) {
        (Expr::Lambda(ps, x), Expr::Lambda(qs, y)) => param_names(ps@) == param_names(qs@) && x == y,
        (Expr::LetRec(n, _, v, r), Expr::LetRec(m, _, w, s)) => n == m && v == w && r == s,
        (Expr::PiApply(x, _), Expr::PiApply(y, _)) => x == y,
        (Expr::Trap(m, _), Expr::Trap(n, _)) => m == n,
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => c == d && xs == ys,
        _ => a == b,
    }
}
proof fn list_refl(xs: Seq<Expr>)
    ensures keep_list(xs, xs),
{
    assert forall|k: int| 0 <= k < xs.len() implies keeps(#[trigger] xs[k], xs[k]) by { keep_refl(xs[k]); }
}
proof fn untyped_keeps(a: Expr, b: Expr)
    requires untyped(a, b),
    ensures keeps(a, b),
{
    match (a, b) {
        (Expr::Lambda(_, x), Expr::Lambda(_, _)) => { keep_refl(*x); cong(a, b); }
        (Expr::LetRec(_, _, v, r), Expr::LetRec(_, _, _, _)) => { keep_refl(*v); keep_refl(*r); cong(a, b); }
        (Expr::PiApply(x, _), Expr::PiApply(_, _)) => { keep_refl(*x); cong(a, b); }
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, _)) => { list_refl(xs@); cong(a, b); }
        (Expr::Trap(_, _), Expr::Trap(_, _)) => { assert forall|x: Name| #[trigger] less_at(a, b, x) by {} }
        _ => { keep_refl(a); }
    }
}
//@ fn ticc/src/codegen/opt/reduce_pi.rs replace_ty_in_expr
//@ rule opt :: walk_expressions_mut ( e , | e | $x:rest ) ==> pre_go ( e )
    requires fresh(*old(e)),
    ensures keeps(*old(e), *final(e)),
//@ end
//@ fn ticc/src/codegen/opt/reduce_pi.rs apply_pi
    requires shape(*old(e)), fresh(*old(e)),
    ensures keeps(*old(e), *final(e)),
    decreases *old(e),
//@ head
    let ghost e0 = *e;
    proof { fresh_parts(e0); }
//@ before * e = value
    proof {
        assert forall|x: Name| #[trigger] less_at(e0, *(e0->Pi_1), x) by {}
        assert forall|env: DEnv| #[trigger] den(env, e0) == den(env, *(e0->Pi_1)) by {}
        keep_trans(e0, *(e0->Pi_1), value);
    }
//@ after match e
    proof { if e0 is Let { keep_refl(*(e0->Let_1)); cong(e0, *e); } }
//@ end
//@ fn ticc/src/codegen/opt/reduce_pi.rs optimize_expr
    requires fresh(*old(e)),
    ensures keeps(*old(e), *final(e)),
//@ head
    let ghost e0 = *e;
    proof { keep_refl(e0); fresh_parts(e0); }
//@ before * e = a
    proof {
        assert forall|x: Name| #[trigger] less_at(e0, *(e0->PiApply_0), x) by {}
        assert forall|env: DEnv| #[trigger] den(env, e0) == den(env, *(e0->PiApply_0)) by {}
        keep_trans(e0, *(e0->PiApply_0), a);
    }
//@ end
//@ fn ticc/src/codegen/opt/reduce_pi.rs optimize
//@ rule opt :: walk_expressions_postorder_mut ( $x , optimize_expr ) ==> post_go ( $x )
    requires defs_fresh(old(program).defs@),
    ensures keep_defs(old(program).defs@, final(program).defs@),
//@ head
    let ghost d0 = program.defs@;
//@ loop 0
    invariant
        vx_it0.seq().len() == d0.len(), defs_fresh(d0),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> keep_def(d0[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*v == d0[vx_it0.index() as int]); }
//@ end
}

// ---- reduce_apply: `(\a -> b) c` is `let a = c; b` ------------------------------------------
pub mod reduce_apply { use super::*;
//@ fn ticc/src/codegen/opt/reduce_apply.rs take_apart_call
//@ ret r
    requires *old(e) is Call,
    ensures r.0 == *(old(e)->Call_0), r.1 == old(e)->Call_1,
//@ end
//@ fn ticc/src/codegen/opt/reduce_apply.rs take_apart_lambda
//@ ret r
    requires *old(e) is Lambda,
    ensures r.0 == old(e)->Lambda_0, r.1 == *(old(e)->Lambda_1),
//@ end
pub open spec fn shape(e: Expr) -> bool decreases e {
    match e { Expr::Lambda(_, _) => true, Expr::Let(_, _, r) => shape(*r), _ => false }
}
//@ fn ticc/src/codegen/opt/reduce_apply.rs can_apply
//@ ret r
    ensures r ==> shape(*old(e)), *final(e) == *old(e),
    decreases *old(e),
//@ end
/// `params.into_iter().zip(args).rev()`: the pairs, last first
#[verifier::external_body]
fn vx_zip_rev(params: Vec<LambdaParam>, args: Vec<Expr>) -> (r: Vec<(LambdaParam, Expr)>)
    requires params@.len() == args@.len(),
    ensures r@.len() == params@.len(),
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == params@[r@.len() - 1 - k] && r@[k].1 == args@[r@.len() - 1 - k],
{ unimplemented!() }

/// let ps[i] = args[i]; .. b
pub open spec fn lets(ps: Seq<Name>, args: Seq<Expr>, i: nat, b: Expr) -> Expr decreases ps.len() - i {
    if i >= ps.len() { b } else { Expr::Let(ps[i as int], Box::new(args[i as int]), Box::new(lets(ps, args, i + 1, b))) }
}
/// no parameter is free in an argument, and no two are the same
pub open spec fn apart(ps: Seq<Name>, args: Vec<Expr>) -> bool {
    ps.len() == args@.len()
    && (forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() ==> !#[trigger] fv(args@[j], ps[i]))
}
pub proof fn lets_den(env: DEnv, ps: Seq<Name>, args: Vec<Expr>, i: nat, b: Expr)
    requires apart(ps, args), i <= ps.len(),
    ensures den(bind_all(env, ps, den_list(env, args, args@.len()), i), lets(ps, args@, i, b))
        == den(bind_all(env, ps, den_list(env, args, args@.len()), ps.len()), b),
    decreases ps.len() - i,
{
    let vs = den_list(env, args, args@.len());
    if i < ps.len() {
        lets_den(env, ps, args, i + 1, b);
        bind_apart(env, ps, args, vs, i, args@[i as int]);
        list_at(env, args, args@.len(), i as int);
    }
}
pub proof fn bind_names(env: DEnv, ps: Seq<Name>, vs: Seq<D>, n: nat, e: Expr)
    requires n <= ps.len(), forall|i: int| 0 <= i < ps.len() ==> !fv(e, #[trigger] ps[i]),
    ensures den(bind_all(env, ps, vs, n), e) == den(env, e),
    decreases n,
{
    if n > 0 {
        bind_names(env, ps, vs, (n - 1) as nat, e);
        weaken(bind_all(env, ps, vs, (n - 1) as nat), ps[n - 1], vs[n - 1], e);
    }
}
proof fn bind_apart(env: DEnv, ps: Seq<Name>, args: Vec<Expr>, vs: Seq<D>, n: nat, e: Expr)
    requires n <= ps.len(), forall|i: int| 0 <= i < ps.len() ==> !#[trigger] fv(e, ps[i]),
    ensures den(bind_all(env, ps, vs, n), e) == den(env, e),
    decreases n,
{
    if n > 0 {
        bind_apart(env, ps, args, vs, (n - 1) as nat, e);
        weaken(bind_all(env, ps, vs, (n - 1) as nat), ps[n - 1], vs[n - 1], e);
    }
}
proof fn list_at(env: DEnv, xs: Vec<Expr>, n: nat, k: int)
    requires 0 <= k < n <= xs@.len(),
    ensures den_list(env, xs, n).len() == n, den_list(env, xs, n)[k] == den(env, xs@[k]),
    decreases n,
{
    list_len(env, xs, n);
    list_len(env, xs, (n - 1) as nat);
    if k < n - 1 { list_at(env, xs, (n - 1) as nat, k); }
}
pub proof fn list_len(env: DEnv, xs: Vec<Expr>, n: nat)
    requires n <= xs@.len(),
    ensures den_list(env, xs, n).len() == n,
    decreases n,
{
    if n > 0 { list_len(env, xs, (n - 1) as nat); }
}
/// what the nested lets bind and use, from parameter i on
pub open spec fn bc_from(args: Vec<Expr>, i: nat, x: Name) -> nat decreases args@.len() - i {
    if i >= args@.len() { 0 } else { bc(args@[i as int], x) + bc_from(args, i + 1, x) }
}
pub open spec fn times_from(ps: Seq<Name>, i: nat, x: Name) -> nat decreases ps.len() - i {
    if i >= ps.len() { 0 } else { (if ps[i as int] == x { 1nat } else { 0 }) + times_from(ps, i + 1, x) }
}
pub proof fn bc_split(args: Vec<Expr>, i: nat, x: Name)
    requires i <= args@.len(),
    ensures bc_list(args, args@.len(), x) == bc_list(args, i, x) + bc_from(args, i, x),
    decreases args@.len() - i,
{
    if i < args@.len() { bc_split(args, i + 1, x); }
}
pub proof fn times_split(ps: Seq<Name>, i: nat, x: Name)
    requires i <= ps.len(),
    ensures times(ps, x) == times(ps.take(i as int), x) + times_from(ps, i, x),
    decreases ps.len() - i,
{
    if i < ps.len() {
        times_split(ps, i + 1, x);
        assert(ps.take((i + 1) as int).drop_last() =~= ps.take(i as int));
    } else { assert(ps.take(i as int) =~= ps); }
}
pub proof fn lets_less(ps: Seq<Name>, args: Vec<Expr>, i: nat, b: Expr, x: Name)
    requires ps.len() == args@.len(), i <= ps.len(),
    ensures bc(lets(ps, args@, i, b), x) == bc_from(args, i, x) + times_from(ps, i, x) + bc(b, x),
        dup(lets(ps, args@, i, b), x) ==> dup_list(args, args@.len(), x) || dup(b, x),
        fv(lets(ps, args@, i, b), x) ==> fv_list(args, args@.len(), x) || fv(b, x) && forall|j: int| i <= j < ps.len() ==> #[trigger] ps[j] != x,
    decreases ps.len() - i,
{
    if i < ps.len() {
        lets_less(ps, args, i + 1, b, x);
        list_part(args, args@.len(), i as int, x);
        if fv(lets(ps, args@, i, b), x) && !fv_list(args, args@.len(), x) {
            assert(fv(lets(ps, args@, i + 1, b), x) && ps[i as int] != x);
            assert forall|j: int| i <= j < ps.len() implies #[trigger] ps[j] != x by {}
        }
    }
}
proof fn call_at(f: Expr, args: Vec<Expr>, x: Name)
    ensures
        bc(Expr::Call(Box::new(f), args), x) == bc(f, x) + bc_list(args, args@.len(), x),
        fv(Expr::Call(Box::new(f), args), x) == (fv(f, x) || fv_list(args, args@.len(), x)),
        dup(Expr::Call(Box::new(f), args), x) == (dup(f, x) || dup_list(args, args@.len(), x)),
{
    let b = Box::new(f);
    assert(*b == f);
}
/// the lambda case
proof fn applied(ps: Vec<LambdaParam>, b: Box<Expr>, args: Vec<Expr>)
    requires fresh(Expr::Call(Box::new(Expr::Lambda(ps, b)), args)), ps@.len() == args@.len(),
    ensures keeps(Expr::Call(Box::new(Expr::Lambda(ps, b)), args), lets(param_names(ps@), args@, 0, *b)),
{
    let f = Expr::Lambda(ps, b);
    let e = Expr::Call(Box::new(f), args);
    let names = param_names(ps@);
    let r = lets(names, args@, 0, *b);
    assert(names.len() == ps@.len());
    assert(apart(names, args)) by {
        assert forall|i: int, j: int| 0 <= i < names.len() && 0 <= j < names.len() implies !#[trigger] fv(args@[j], names[i]) by {
            let x = names[i];
            assert(fresh_at(e, x));
            call_at(f, args, x);
            assert(bc(f, x) == bc(*b, x) + times(names, x));
            times_in(names, x);
            list_part(args, args@.len(), j, x);
            assert(names.contains(x));
        }
    }
    assert forall|env: DEnv| #[trigger] den(env, e) == den(env, r) by {
        let vs = den_list(env, args, args@.len());
        list_len(env, args, args@.len());
        beta(env, ps, b, vs);
        lets_den(env, names, args, 0, *b);
    }
    assert forall|x: Name| #[trigger] less_at(e, r, x) by {
        lets_less(names, args, 0, *b, x);
        call_at(f, args, x);
        assert(bc(f, x) == bc(*b, x) + times(names, x));
        assert(fv(f, x) == (fv(*b, x) && !names.contains(x)));
        if names.contains(x) { let j = choose|j: int| 0 <= j < names.len() && names[j] == x; assert(names[j] == x); }
        bc_split(args, 0, x);
        times_split(names, 0, x);
        assert(names.take(0) =~= Seq::empty());
    }
}
/// the let case: what is done to the rest of the let is done to the let
proof fn applied_under(n: Name, v: Box<Expr>, r: Box<Expr>, args: Vec<Expr>)
    requires fresh(Expr::Call(Box::new(Expr::Let(n, v, r)), args)),
    ensures fresh(Expr::Call(r, args)),
        forall|q: Expr| #[trigger] keeps(Expr::Call(r, args), q) ==> keeps(Expr::Call(Box::new(Expr::Let(n, v, r)), args), Expr::Let(n, v, Box::new(q))),
{
    let f = Expr::Let(n, v, r);
    let e = Expr::Call(Box::new(f), args);
    let m = Expr::Call(r, args);
    assert forall|x: Name| #[trigger] fresh_at(m, x) by {
        assert(fresh_at(e, x));
        call_at(f, args, x); call_at(*r, args, x);
        assert(bc(f, x) == bc(*v, x) + bc(*r, x) + if n == x { 1nat } else { 0 });
        assert(fv(f, x) == (fv(*v, x) || fv(*r, x) && n != x));
    }
    assert(!fv_list(args, args@.len(), n)) by { assert(fresh_at(e, n)); call_at(f, args, n); assert(bc(f, n) >= 1); }
    assert forall|q: Expr| #[trigger] keeps(m, q) implies keeps(e, Expr::Let(n, v, Box::new(q))) by {
        let l = Expr::Let(n, v, Box::new(q));
        assert forall|env: DEnv| #[trigger] den(env, e) == den(env, l) by {
            let t = env.insert(n, den(env, *v));
            same_at(t, m, q);
            assert(den(env, f) == den(t, *r));
            assert(den(env, l) == den(t, q));
            assert(den(env, e) == app(den(env, f), den_list(env, args, args@.len())));
            assert(den(t, m) == app(den(t, *r), den_list(t, args, args@.len())));
            args_weaken(env, n, den(env, *v), args, args@.len());
        }
        assert forall|x: Name| #[trigger] less_at(e, l, x) by { 
            assert(less_at(m, q, x)); call_at(f, args, x); call_at(*r, args, x);
            assert(bc(f, x) == bc(*v, x) + bc(*r, x) + if n == x { 1nat } else { 0 });
            assert(fv(f, x) == (fv(*v, x) || fv(*r, x) && n != x));
            assert(bc(l, x) == bc(*v, x) + bc(q, x) + if n == x { 1nat } else { 0 });
            assert(fv(l, x) == (fv(*v, x) || fv(q, x) && n != x));
        }
    }
}
proof fn args_weaken(env: DEnv, n: Name, v: D, xs: Vec<Expr>, k: nat)
    requires k <= xs@.len(), !fv_list(xs, k, n),
    ensures den_list(env.insert(n, v), xs, k) == den_list(env, xs, k),
    decreases k,
{
    if k > 0 { args_weaken(env, n, v, xs, (k - 1) as nat); weaken(env, n, v, xs@[k - 1]); }
}
//@ fn ticc/src/codegen/opt/reduce_apply.rs apply
//@ rule assert_eq ! ( $a , $b ) ==> vx_stop_unless ( $a == $b )
//@ rule for ( param , arg ) in $i:ident ( $x:rest ) ==> for vx_e in $i ( vx_pairs )
    requires shape(*old(e)), fresh(Expr::Call(Box::new(*old(e)), args)),
    ensures keeps(Expr::Call(Box::new(*old(e)), args), *final(e)),
    decreases *old(e),
//@ head
    let ghost e0 = *e;
    let ghost a0 = args;
    proof { if e0 is Let { applied_under(e0->Let_0, e0->Let_1, e0->Let_2, args); } }
//@ before let mut result
    let ghost ps0 = params;
    let ghost b0 = body;
    let vx_pairs = vx_zip_rev(params, args);
    proof { applied(ps0, Box::new(b0), a0); }
//@ loop 0
    invariant
        vx_it0.seq() == vx_pairs@, ps0@.len() == a0@.len(), vx_pairs@.len() == ps0@.len(),
        forall|k: int| 0 <= k < vx_pairs@.len() ==> (#[trigger] vx_pairs@[k]).0 == ps0@[vx_pairs@.len() - 1 - k] && vx_pairs@[k].1 == a0@[vx_pairs@.len() - 1 - k],
        result == lets(param_names(ps0@), a0@, (ps0@.len() - vx_it0.index()) as nat, b0),
//@ loophead 0
    let (param, arg) = vx_e;
//@ end
//@ fn ticc/src/codegen/opt/reduce_apply.rs optimize_expr
    requires fresh(*old(e)),
    ensures keeps(*old(e), *final(e)),
//@ head
    proof { keep_refl(*e); }
//@ end
//@ fn ticc/src/codegen/opt/reduce_apply.rs optimize
//@ rule opt :: walk_expressions_postorder_mut ( $x , optimize_expr ) ==> post_go ( $x )
    requires defs_fresh(old(program).defs@),
    ensures keep_defs(old(program).defs@, final(program).defs@),
//@ head
    let ghost d0 = program.defs@;
//@ loop 0
    invariant
        vx_it0.seq().len() == d0.len(), defs_fresh(d0),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> keep_def(d0[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*v == d0[vx_it0.index() as int]); }
//@ end
}

// ---- move_match: `\a -> let b = v; \c -> e` is `\a c -> let b = v; e` (not yet merged) --------
pub mod move_match { use super::*;
//@ fn ticc/src/codegen/opt/move_match.rs move_let
    requires *old(expr) is Let, *(old(expr)->Let_2) is Lambda, fresh(*old(expr)),
    ensures keeps(*old(expr), *final(expr)),
//@ head
    let ghost e0 = *expr;
    proof { moved(e0->Let_0, *(e0->Let_1), (*(e0->Let_2))->Lambda_0, *((*(e0->Let_2))->Lambda_1)); }
//@ end
proof fn moved(n: Name, v: Expr, ps: Vec<LambdaParam>, b: Expr)
    requires fresh(Expr::Let(n, Box::new(v), Box::new(Expr::Lambda(ps, Box::new(b))))),
    ensures keeps(Expr::Let(n, Box::new(v), Box::new(Expr::Lambda(ps, Box::new(b)))),
        Expr::Lambda(ps, Box::new(Expr::Let(n, Box::new(v), Box::new(b))))),
{
    let l = Expr::Lambda(ps, Box::new(b));
    let e = Expr::Let(n, Box::new(v), Box::new(l));
    let m = Expr::Let(n, Box::new(v), Box::new(b));
    let r = Expr::Lambda(ps, Box::new(m));
    let names = param_names(ps@);
    assert(*Box::new(v) == v && *Box::new(b) == b && *Box::new(l) == l && *Box::new(m) == m);
    assert forall|i: int| 0 <= i < names.len() implies !fv(v, #[trigger] names[i]) && names[i] != n by {
        let x = names[i];
        assert(fresh_at(e, x));
        times_in(names, x);
        assert(names.contains(x));
        assert(bc(l, x) == bc(b, x) + times(names, x));
        assert(bc(e, x) == bc(v, x) + bc(l, x) + if n == x { 1nat } else { 0 });
        assert(fv(e, x) == (fv(v, x) || fv(l, x) && n != x));
    }
    assert forall|x: Name| #[trigger] less_at(e, r, x) by {
        assert(bc(l, x) == bc(b, x) + times(names, x));
        assert(bc(e, x) == bc(v, x) + bc(l, x) + if n == x { 1nat } else { 0 });
        assert(fv(l, x) == (fv(b, x) && !names.contains(x)));
        assert(fv(e, x) == (fv(v, x) || fv(l, x) && n != x));
        assert(bc(m, x) == bc(v, x) + bc(b, x) + if n == x { 1nat } else { 0 });
        assert(bc(r, x) == bc(m, x) + times(names, x));
        assert(fv(m, x) == (fv(v, x) || fv(b, x) && n != x));
        assert(fv(r, x) == (fv(m, x) && !names.contains(x)));
        assert(dup(l, x) == dup(b, x) && dup(e, x) == (dup(v, x) || dup(l, x)));
        assert(dup(m, x) == (dup(v, x) || dup(b, x)) && dup(r, x) == dup(m, x));
    }
    assert forall|env: DEnv| #[trigger] den(env, e) == den(env, r) by {
        let t = env.insert(n, den(env, v));
        let f = lam_fn(t, names, b);
        let g = lam_fn(env, names, m);
        assert(names.len() == ps@.len());
        assert forall|vs: Seq<D>| #[trigger] f(vs) == g(vs) by {
            swap(env, n, den(env, v), names, vs, names.len());
            let w = bind_all(env, names, vs, names.len());
            reduce_apply::bind_names(env, names, vs, names.len(), v);
            assert(den(w, m) == den(w.insert(n, den(w, v)), b));
        }
        assert(f =~= g);
        assert(den(env, e) == den(t, l));
    }
}
pub proof fn swap(env: DEnv, n: Name, v: D, names: Seq<Name>, vs: Seq<D>, k: nat)
    requires k <= names.len(), forall|i: int| 0 <= i < names.len() ==> #[trigger] names[i] != n,
    ensures bind_all(env.insert(n, v), names, vs, k) =~= bind_all(env, names, vs, k).insert(n, v),
    decreases k,
{
    if k > 0 {
        swap(env, n, v, names, vs, (k - 1) as nat);
        let a = bind_all(env, names, vs, (k - 1) as nat);
        assert(names[k - 1] != n);
        assert(a.insert(n, v).insert(names[k - 1], vs[k - 1]) =~= a.insert(names[k - 1], vs[k - 1]).insert(n, v));
    }
}
/// the body under all parameters replaced
pub open spec fn put(e: Expr, b: Expr) -> Expr decreases e {
    match e { Expr::Lambda(ps, r) => Expr::Lambda(ps, Box::new(put(*r, b))), _ => b }
}
pub open spec fn inner(e: Expr) -> Expr decreases e {
    match e { Expr::Lambda(_, r) => inner(*r), _ => e }
}
proof fn put_keeps(e: Expr, b: Expr)
    requires keeps(inner(e), b),
    ensures keeps(e, put(e, b)),
    decreases e,
{
    match e { Expr::Lambda(ps, r) => { put_keeps(*r, b); cong(e, put(e, b)); } _ => {} }
}
proof fn inner_fresh(e: Expr)
    requires fresh(e),
    ensures fresh(inner(e)),
    decreases e,
{
    match e { Expr::Lambda(ps, r) => { fresh_parts(e); inner_fresh(*r); } _ => {} }
}
/// what is done to the function's body may be done to the definition
proof fn in_rec(e: Expr, b: Expr)
    requires e is LetRec, *(e->LetRec_2) is Lambda, keeps(inner(*((*(e->LetRec_2))->Lambda_1)), b),
    ensures keeps(e, Expr::LetRec(e->LetRec_0, e->LetRec_1,
        Box::new(Expr::Lambda((*(e->LetRec_2))->Lambda_0, Box::new(put(*((*(e->LetRec_2))->Lambda_1), b)))), e->LetRec_3)),
{
    let d = *(e->LetRec_2);
    let x = *(d->Lambda_1);
    put_keeps(x, b);
    let d2 = Expr::Lambda(d->Lambda_0, Box::new(put(x, b)));
    cong(d, d2);
    keep_refl(*(e->LetRec_3));
    cong(e, Expr::LetRec(e->LetRec_0, e->LetRec_1, Box::new(d2), e->LetRec_3));
}
//@ fn ticc/src/codegen/opt/move_match.rs unwrap_lambdas
//@ ret r
    ensures *r == inner(*old(expr)), *final(expr) == put(*old(expr), *final(r)),
    decreases *old(expr),
//@ end
#[verifier::external_body]
fn is_simple(expr: &Expr, allowed_fn: Name) -> bool { unimplemented!() }
//@ fn ticc/src/codegen/opt/move_match.rs optimize_expr
//@ rule panic ! ( $x:rest ) ==> vx_stop ( )
    requires fresh(*old(expr)),
    ensures keeps(*old(expr), *final(expr)),
//@ head
    let ghost e0 = *expr;
    proof {
        keep_refl(e0);
        fresh_parts(e0);
        if e0 is LetRec && *(e0->LetRec_2) is Lambda {
            fresh_parts(*(e0->LetRec_2));
            inner_fresh(*((*(e0->LetRec_2))->Lambda_1));
            keep_refl(inner(*((*(e0->LetRec_2))->Lambda_1)));
            assert forall|b: Expr| #[trigger] keeps(inner(*((*(e0->LetRec_2))->Lambda_1)), b) implies
                keeps(e0, Expr::LetRec(e0->LetRec_0, e0->LetRec_1,
                    Box::new(Expr::Lambda((*(e0->LetRec_2))->Lambda_0, Box::new(put(*((*(e0->LetRec_2))->Lambda_1), b)))), e0->LetRec_3)) by { in_rec(e0, b); }
        }
    }
//@ before let body = unwrap
    let ghost body0 = **body;
//@ before move_let
    proof { assert(*body == inner(body0)); }
//@ end
//@ fn ticc/src/codegen/opt/move_match.rs optimize
//@ rule opt :: walk_expressions_mut ( $x , optimize_expr ) ==> pre_go ( $x )
    requires defs_fresh(old(program).defs@),
    ensures keep_defs(old(program).defs@, final(program).defs@),
//@ head
    let ghost d0 = program.defs@;
//@ loop 0
    invariant
        vx_it0.seq().len() == d0.len(), defs_fresh(d0),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> keep_def(d0[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*v == d0[vx_it0.index() as int]); }
//@ end
}

// ---- inline_simple: a let whose name is used once is put where it is used ----------------------
pub mod inline_simple { use super::*;
/// how often a name occurs
pub open spec fn uses(e: Expr, x: Name) -> nat decreases e, 0nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) => 0,
        Expr::Name(n) => if n == x { 1 } else { 0 },
        Expr::Call(f, args) => uses(*f, x) + uses_list(args, args@.len(), x),
        Expr::If(c, t, e) => uses(*c, x) + uses(*t, x) + uses(*e, x),
        Expr::Op(a, _, b) => uses(*a, x) + uses(*b, x),
        Expr::Intrinsic(_, xs) => uses_list(xs, xs@.len(), x),
        Expr::Construct(_, _, xs) => uses_list(xs, xs@.len(), x),
        Expr::Lambda(ps, b) => uses(*b, x),
        Expr::Match(d, bs) => uses(*d, x) + uses_branches(bs, bs@.len(), x),
        Expr::Let(_, v, b) => uses(*v, x) + uses(*b, x),
        Expr::LetRec(_, _, v, b) => uses(*v, x) + uses(*b, x),
        Expr::Pi(_, b) => uses(*b, x),
        Expr::PiApply(b, _) => uses(*b, x),
    }
}
pub open spec fn uses_list(xs: Vec<Expr>, n: nat, x: Name) -> nat decreases xs, n {
    if n == 0 || n > xs@.len() { 0 } else { uses_list(xs, (n - 1) as nat, x) + uses(xs@[n - 1], x) }
}
pub open spec fn uses_branches(bs: Vec<Branch>, n: nat, x: Name) -> nat decreases bs, n {
    if n == 0 || n > bs@.len() { 0 } else { uses_branches(bs, (n - 1) as nat, x) + uses(bs@[n - 1].value, x) }
}
pub proof fn uses_part(xs: Vec<Expr>, n: nat, k: int, x: Name)
    requires 0 <= k < n <= xs@.len(),
    ensures uses_list(xs, k as nat, x) + uses(xs@[k], x) <= uses_list(xs, n, x),
    decreases n,
{
    if k < n - 1 { uses_part(xs, (n - 1) as nat, k, x); }
}
pub proof fn uses_branch(xs: Vec<Branch>, n: nat, k: int, x: Name)
    requires 0 <= k < n <= xs@.len(),
    ensures uses_branches(xs, k as nat, x) + uses(xs@[k].value, x) <= uses_branches(xs, n, x),
    decreases n,
{
    if k < n - 1 { uses_branch(xs, (n - 1) as nat, k, x); }
}

/// r is a with b in the place of x
pub open spec fn put_in(a: Expr, x: Name, b: Expr, r: Expr) -> bool decreases a, 0nat {
    match (a, r) {
        (Expr::Bool(_), _) | (Expr::Int(_), _) | (Expr::String(_), _) | (Expr::Trap(_, _), _) => a == r,
        (Expr::Name(n), _) => if n == x { r == b } else { r == a },
        (Expr::Call(f, xs), Expr::Call(g, ys)) => put_in(*f, x, b, *g) && xs@.len() == ys@.len() && put_list(xs, xs@.len(), x, b, ys@),
        (Expr::If(c, t, e), Expr::If(d, u, f)) => put_in(*c, x, b, *d) && put_in(*t, x, b, *u) && put_in(*e, x, b, *f),
        (Expr::Op(p, o, q), Expr::Op(u, w, v)) => o == w && put_in(*p, x, b, *u) && put_in(*q, x, b, *v),
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => i == j && xs@.len() == ys@.len() && put_list(xs, xs@.len(), x, b, ys@),
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => c == d && xs@.len() == ys@.len() && put_list(xs, xs@.len(), x, b, ys@),
        (Expr::Lambda(ps, p), Expr::Lambda(qs, q)) => ps@ == qs@ && put_in(*p, x, b, *q),
        (Expr::Match(d, bs), Expr::Match(e, cs)) => put_in(*d, x, b, *e) && bs@.len() == cs@.len() && put_branches(bs, bs@.len(), x, b, cs@),
        (Expr::Let(n, v, s), Expr::Let(m, w, t)) => n == m && put_in(*v, x, b, *w) && put_in(*s, x, b, *t),
        (Expr::LetRec(n, _, v, s), Expr::LetRec(m, _, w, t)) => n == m && put_in(*v, x, b, *w) && put_in(*s, x, b, *t),
        (Expr::Pi(_, p), Expr::Pi(_, q)) => put_in(*p, x, b, *q),
        (Expr::PiApply(p, _), Expr::PiApply(q, _)) => put_in(*p, x, b, *q),
        _ => false,
    }
}
pub open spec fn put_list(xs: Vec<Expr>, n: nat, x: Name, b: Expr, ys: Seq<Expr>) -> bool decreases xs, n {
    n == 0 || n > xs@.len() || put_list(xs, (n - 1) as nat, x, b, ys) && put_in(xs@[n - 1], x, b, ys[n - 1])
}
pub open spec fn put_branches(xs: Vec<Branch>, n: nat, x: Name, b: Expr, ys: Seq<Branch>) -> bool decreases xs, n {
    n == 0 || n > xs@.len() || put_branches(xs, (n - 1) as nat, x, b, ys) && xs@[n - 1].ctor == ys[n - 1].ctor
        && xs@[n - 1].bindings@ == ys[n - 1].bindings@ && put_in(xs@[n - 1].value, x, b, ys[n - 1].value)
}
proof fn put_all(xs: Vec<Expr>, n: nat, x: Name, b: Expr, ys: Seq<Expr>)
    requires n <= xs@.len(), forall|k: int| 0 <= k < n ==> put_in(xs@[k], x, b, #[trigger] ys[k]),
    ensures put_list(xs, n, x, b, ys),
    decreases n,
{
    if n > 0 { put_all(xs, (n - 1) as nat, x, b, ys); assert(put_in(xs@[n - 1], x, b, ys[n - 1])); }
}
pub open spec fn put_branch(a: Branch, x: Name, b: Expr, r: Branch) -> bool {
    a.ctor == r.ctor && a.bindings@ == r.bindings@ && put_in(a.value, x, b, r.value)
}
proof fn put_all_branches(xs: Vec<Branch>, n: nat, x: Name, b: Expr, ys: Seq<Branch>)
    requires n <= xs@.len(), forall|k: int| 0 <= k < n ==> put_branch(xs@[k], x, b, #[trigger] ys[k]),
    ensures put_branches(xs, n, x, b, ys),
    decreases n,
{
    if n > 0 { put_all_branches(xs, (n - 1) as nat, x, b, ys); assert(put_branch(xs@[n - 1], x, b, ys[n - 1])); }
}
/// nothing in e binds x or a name that b uses
pub open spec fn clear(e: Expr, x: Name, b: Expr) -> bool {
    forall|y: Name| (y == x || fv(b, y)) ==> #[trigger] bc(e, y) == 0
}
proof fn clear_list(e: Expr, xs: Vec<Expr>, x: Name, b: Expr)
    requires clear(e, x, b), forall|y: Name| #[trigger] bc_list(xs, xs@.len(), y) <= bc(e, y),
    ensures forall|k: int| 0 <= k < xs@.len() ==> clear(#[trigger] xs@[k], x, b),
{
    assert forall|k: int| 0 <= k < xs@.len() implies clear(#[trigger] xs@[k], x, b) by {
        assert forall|y: Name| (y == x || fv(b, y)) implies #[trigger] bc(xs@[k], y) == 0 by {
            assert(bc(e, y) == 0); list_part(xs, xs@.len(), k, y);
        }
    }
}
proof fn clear_part(e: Expr, p: Expr, x: Name, b: Expr)
    requires clear(e, x, b), forall|y: Name| #[trigger] bc(p, y) <= bc(e, y),
    ensures clear(p, x, b),
{
    assert forall|y: Name| (y == x || fv(b, y)) implies #[trigger] bc(p, y) == 0 by { assert(bc(e, y) == 0); assert(bc(p, y) <= bc(e, y)); }
}
proof fn put_list_den(env: DEnv, x: Name, b: Expr, xs: Vec<Expr>, n: nat, ys: Vec<Expr>)
    requires
        n <= xs@.len(), xs@.len() == ys@.len(), put_list(xs, n, x, b, ys@), !fv(b, x),
        forall|k: int| 0 <= k < xs@.len() ==> clear(#[trigger] xs@[k], x, b),
    ensures den_list(env.insert(x, den(env, b)), xs, n) == den_list(env, ys, n),
    decreases xs, n,
{
    if n > 0 {
        put_list_den(env, x, b, xs, (n - 1) as nat, ys);
        assert(clear(xs@[n - 1], x, b));
        put_den(env, x, b, xs@[n - 1], ys@[n - 1]);
    }
}
proof fn put_find(xs: Vec<Branch>, n: nat, x: Name, b: Expr, ys: Seq<Branch>, k: int)
    requires put_branches(xs, n, x, b, ys), 0 <= k < n <= xs@.len(),
    ensures put_branch(xs@[k], x, b, ys[k]),
    decreases n,
{
    if k < n - 1 { put_find(xs, (n - 1) as nat, x, b, ys, k); }
}
proof fn same_find(xs: Seq<Branch>, ys: Seq<Branch>, c: Name, i: nat)
    requires xs.len() == ys.len(), i <= xs.len(), forall|k: int| 0 <= k < xs.len() ==> xs[k].ctor == (#[trigger] ys[k]).ctor,
    ensures find_branch(xs, c, i) == find_branch(ys, c, i),
    decreases xs.len() - i,
{
    if i < xs.len() { assert(xs[i as int].ctor == ys[i as int].ctor); same_find(xs, ys, c, i + 1); }
}
/// binding names that are neither x nor used by b does not come in the way
proof fn put_under(env: DEnv, x: Name, b: Expr, names: Seq<Name>, vs: Seq<D>)
    requires forall|i: int| 0 <= i < names.len() ==> #[trigger] names[i] != x && !fv(b, names[i]),
    ensures
        bind_all(env.insert(x, den(env, b)), names, vs, names.len())
            == bind_all(env, names, vs, names.len()).insert(x, den(bind_all(env, names, vs, names.len()), b)),
{
    move_match::swap(env, x, den(env, b), names, vs, names.len());
    reduce_apply::bind_names(env, names, vs, names.len(), b);
}
#[verifier::spinoff_prover]
proof fn put_den(env: DEnv, x: Name, b: Expr, a: Expr, r: Expr)
    requires put_in(a, x, b, r), clear(a, x, b), !fv(b, x),
    ensures den(env.insert(x, den(env, b)), a) == den(env, r),
    decreases a, 0nat,
{
    let v = den(env, b);
    match (a, r) {
        (Expr::Call(f, xs), Expr::Call(g, ys)) => {
            clear_part(a, *f, x, b); clear_list(a, xs, x, b);
            put_den(env, x, b, *f, *g); put_list_den(env, x, b, xs, xs@.len(), ys);
        }
        (Expr::If(c, t, e), Expr::If(d, u, f)) => {
            clear_part(a, *c, x, b); clear_part(a, *t, x, b); clear_part(a, *e, x, b);
            put_den(env, x, b, *c, *d); put_den(env, x, b, *t, *u); put_den(env, x, b, *e, *f);
        }
        (Expr::Op(p, _, q), Expr::Op(u, _, w)) => {
            clear_part(a, *p, x, b); clear_part(a, *q, x, b);
            put_den(env, x, b, *p, *u); put_den(env, x, b, *q, *w);
        }
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => { clear_list(a, xs, x, b); put_list_den(env, x, b, xs, xs@.len(), ys); }
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => { clear_list(a, xs, x, b); put_list_den(env, x, b, xs, xs@.len(), ys); }
        (Expr::Lambda(ps, p), Expr::Lambda(qs, q)) => {
            let names = param_names(ps@);
            assert(param_names(qs@) == names && names.len() == ps@.len() && qs@.len() == ps@.len());
            clear_part(a, *p, x, b);
            assert forall|i: int| 0 <= i < names.len() implies #[trigger] names[i] != x && !fv(b, names[i]) by {
                times_in(names, names[i]); assert(names.contains(names[i]));
                assert(bc(a, names[i]) == bc(*p, names[i]) + times(names, names[i]));
            }
            let f = lam_fn(env.insert(x, v), names, *p);
            let g = lam_fn(env, names, *q);
            assert forall|vs: Seq<D>| #[trigger] f(vs) == g(vs) by {
                put_under(env, x, b, names, vs);
                put_den(bind_all(env, names, vs, names.len()), x, b, *p, *q);
            }
            assert(f =~= g);
        }
        (Expr::Match(d, bs), Expr::Match(e, cs)) => {
            clear_part(a, *d, x, b);
            put_den(env, x, b, *d, *e);
            match den(env, *e) {
                D::Comp(c, vs) => {
                    assert forall|k: int| 0 <= k < bs@.len() implies bs@[k].ctor == (#[trigger] cs@[k]).ctor by { put_find(bs, bs@.len(), x, b, cs@, k); }
                    same_find(bs@, cs@, c, 0);
                    let i = find_branch(bs@, c, 0);
                    if i < bs@.len() {
                        put_find(bs, bs@.len(), x, b, cs@, i as int);
                        let names = bs@[i as int].bindings@;
                        assert forall|y: Name| (y == x || fv(b, y)) implies #[trigger] bc(bs@[i as int].value, y) == 0 && times(names, y) == 0 by {
                            assert(bc(a, y) == 0); branch_part(bs, bs@.len(), i as int, y);
                        }
                        assert forall|j: int| 0 <= j < names.len() implies #[trigger] names[j] != x && !fv(b, names[j]) by {
                            times_in(names, names[j]); assert(names.contains(names[j]));
                            assert(bc(bs@[i as int].value, names[j]) >= 0);
                        }
                        put_under(env, x, b, names, vs);
                        put_den(bind_all(env, names, vs, names.len()), x, b, bs@[i as int].value, cs@[i as int].value);
                    }
                }
                _ => {}
            }
        }
        (Expr::Let(n, p, q), Expr::Let(_, s, t)) => {
            clear_part(a, *p, x, b); clear_part(a, *q, x, b);
            assert(bc(a, n) > 0);
            put_den(env, x, b, *p, *s);
            let w = den(env, *s);
            weaken(env, n, w, b);
            put_den(env.insert(n, w), x, b, *q, *t);
            assert(env.insert(x, v).insert(n, w) =~= env.insert(n, w).insert(x, v));
        }
        (Expr::LetRec(n, _, p, q), Expr::LetRec(_, _, s, t)) => {
            clear_part(a, *p, x, b); clear_part(a, *q, x, b);
            assert(bc(a, n) > 0);
            let f = rec_fn(env.insert(x, v), n, *p);
            let g = rec_fn(env, n, *s);
            assert forall|w: D| #[trigger] f(w) == g(w) by {
                weaken(env, n, w, b);
                put_den(env.insert(n, w), x, b, *p, *s);
                assert(env.insert(x, v).insert(n, w) =~= env.insert(n, w).insert(x, v));
            }
            assert(f =~= g);
            let w = lfp(g);
            weaken(env, n, w, b);
            put_den(env.insert(n, w), x, b, *q, *t);
            assert(env.insert(x, v).insert(n, w) =~= env.insert(n, w).insert(x, v));
        }
        (Expr::Pi(_, p), Expr::Pi(_, q)) => { clear_part(a, *p, x, b); put_den(env, x, b, *p, *q); }
        (Expr::PiApply(p, _), Expr::PiApply(q, _)) => { clear_part(a, *p, x, b); put_den(env, x, b, *p, *q); }
        _ => {}
    }
}
/// what r binds and uses
pub open spec fn put_names(a: Expr, x: Name, b: Expr, r: Expr, y: Name) -> bool {
    bc(r, y) <= bc(a, y) + (if uses(a, x) == 0 { 0 } else { bc(b, y) })
    && (fv(r, y) ==> fv(a, y) && y != x || fv(b, y))
    && (dup(r, y) ==> dup(a, y) || dup(b, y))
}
proof fn put_less_list(x: Name, b: Expr, xs: Vec<Expr>, n: nat, ys: Vec<Expr>, y: Name)
    requires n <= xs@.len(), xs@.len() == ys@.len(), put_list(xs, n, x, b, ys@), uses_list(xs, n, x) <= 1,
        forall|k: int| 0 <= k < xs@.len() ==> clear(#[trigger] xs@[k], x, b),
    ensures bc_list(ys, n, y) <= bc_list(xs, n, y) + (if uses_list(xs, n, x) == 0 { 0 } else { bc(b, y) }),
        fv_list(ys, n, y) ==> fv_list(xs, n, y) && y != x || fv(b, y),
        dup_list(ys, n, y) ==> dup_list(xs, n, y) || dup(b, y),
    decreases xs, n,
{
    if n > 0 {
        put_less_list(x, b, xs, (n - 1) as nat, ys, y);
        assert(clear(xs@[n - 1], x, b));
        put_less(x, b, xs@[n - 1], ys@[n - 1], y);
    }
}
proof fn put_less_branches(x: Name, b: Expr, xs: Vec<Branch>, n: nat, ys: Vec<Branch>, y: Name)
    requires n <= xs@.len(), xs@.len() == ys@.len(), put_branches(xs, n, x, b, ys@), uses_branches(xs, n, x) <= 1,
        forall|k: int| 0 <= k < xs@.len() ==> clear((#[trigger] xs@[k]).value, x, b),
    ensures bc_branches(ys, n, y) <= bc_branches(xs, n, y) + (if uses_branches(xs, n, x) == 0 { 0 } else { bc(b, y) }),
        fv_branches(ys, n, y) ==> fv_branches(xs, n, y) && y != x || fv(b, y),
        dup_branches(ys, n, y) ==> dup_branches(xs, n, y) || dup(b, y), ctor_times(ys, n, y) == ctor_times(xs, n, y),
    decreases xs, n,
{
    if n > 0 {
        put_less_branches(x, b, xs, (n - 1) as nat, ys, y);
        assert(clear(xs@[n - 1].value, x, b));
        put_less(x, b, xs@[n - 1].value, ys@[n - 1].value, y);
    }
}
#[verifier::spinoff_prover]
proof fn put_less(x: Name, b: Expr, a: Expr, r: Expr, y: Name)
    requires put_in(a, x, b, r), uses(a, x) <= 1, clear(a, x, b),
    ensures put_names(a, x, b, r, y),
    decreases a, 0nat,
{
    match (a, r) {
        (Expr::Call(f, xs), Expr::Call(g, ys)) => {
            clear_part(a, *f, x, b); clear_list(a, xs, x, b);
            put_less(x, b, *f, *g, y); put_less_list(x, b, xs, xs@.len(), ys, y);
        }
        (Expr::If(c, t, e), Expr::If(d, u, f)) => {
            clear_part(a, *c, x, b); clear_part(a, *t, x, b); clear_part(a, *e, x, b);
            put_less(x, b, *c, *d, y); put_less(x, b, *t, *u, y); put_less(x, b, *e, *f, y);
        }
        (Expr::Op(p, _, q), Expr::Op(u, _, w)) => {
            clear_part(a, *p, x, b); clear_part(a, *q, x, b);
            put_less(x, b, *p, *u, y); put_less(x, b, *q, *w, y);
        }
        (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => { clear_list(a, xs, x, b); put_less_list(x, b, xs, xs@.len(), ys, y); }
        (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => { clear_list(a, xs, x, b); put_less_list(x, b, xs, xs@.len(), ys, y); }
        (Expr::Lambda(ps, p), Expr::Lambda(qs, q)) => { clear_part(a, *p, x, b); put_less(x, b, *p, *q, y); }
        (Expr::Match(d, bs), Expr::Match(e, cs)) => {
            clear_part(a, *d, x, b); put_less(x, b, *d, *e, y);
            assert forall|k: int| 0 <= k < bs@.len() implies clear((#[trigger] bs@[k]).value, x, b) by {
                assert forall|z: Name| (z == x || fv(b, z)) implies #[trigger] bc(bs@[k].value, z) == 0 by {
                    assert(bc(a, z) == 0); branch_part(bs, bs@.len(), k, z);
                }
            }
            put_less_branches(x, b, bs, bs@.len(), cs, y);
        }
        (Expr::Let(n, p, q), Expr::Let(_, s, t)) => {
            clear_part(a, *p, x, b); clear_part(a, *q, x, b);
            put_less(x, b, *p, *s, y); put_less(x, b, *q, *t, y);
        }
        (Expr::LetRec(n, _, p, q), Expr::LetRec(_, _, s, t)) => {
            clear_part(a, *p, x, b); clear_part(a, *q, x, b);
            put_less(x, b, *p, *s, y); put_less(x, b, *q, *t, y);
        }
        (Expr::Pi(_, p), Expr::Pi(_, q)) => { clear_part(a, *p, x, b); put_less(x, b, *p, *q, y); }
        (Expr::PiApply(p, _), Expr::PiApply(q, _)) => { clear_part(a, *p, x, b); put_less(x, b, *p, *q, y); }
        _ => {}
    }
}
/// the let and its body with the value in the place of the name
proof fn inlined(n: Name, v: Expr, r: Expr)
    requires fresh(Expr::Let(n, Box::new(v), Box::new(r))), uses(r, n) == 1,
    ensures forall|q: Expr| #[trigger] put_in(r, n, v, q) ==> keeps(Expr::Let(n, Box::new(v), Box::new(r)), q),
{
    let e = Expr::Let(n, Box::new(v), Box::new(r));
    assert(*Box::new(v) == v && *Box::new(r) == r);
    assert forall|y: Name| (y == n || fv(v, y)) implies #[trigger] bc(r, y) == 0 by { assert(fresh_at(e, y)); }
    assert(!fv(v, n)) by { assert(fresh_at(e, n)); }
    assert forall|q: Expr| #[trigger] put_in(r, n, v, q) implies keeps(e, q) by {
        assert forall|env: DEnv| #[trigger] den(env, e) == den(env, q) by { put_den(env, n, v, r, q); }
        assert forall|y: Name| #[trigger] less_at(e, q, y) by { put_less(n, v, r, q, y); }
    }
}

// the code
//@ fn ticc/src/codegen/opt/inline_simple.rs is_lambda
    decreases *expr,
//@ end
//@ fn ticc/src/codegen/opt/inline_simple.rs take_apart
//@ ret r
    requires *old(e) is Let,
    ensures r.0 == old(e)->Let_0, r.1 == *(old(e)->Let_1), r.2 == *(old(e)->Let_2),
//@ end
/// (counts do not overflow)
#[verifier::external_body]
fn vx_plus(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
/// a count tells none and one from more
pub open spec fn counts(r: usize, n: nat) -> bool { (r == 0 <==> n == 0) && (r == 1 ==> n == 1) }
/// `xs.iter().map(|x| count_uses(x, ..)).sum()`
fn vx_count(xs: &Vec<Expr>, name: &Name, lambda_single: bool) -> (r: usize)
    ensures counts(r, uses_list(*xs, xs@.len(), *name)),
    decreases *xs, 1nat,
{
    let mut total = 0;
    let mut i = 0;
    while i < xs.len()
        invariant i <= xs@.len(), counts(total, uses_list(*xs, i as nat, *name)),
        decreases xs@.len() - i,
    {
        total = vx_plus(total, count_uses(&xs[i], name, lambda_single));
        i = i + 1;
    }
    total
}
/// `bs.iter().map(|b| count_uses(&b.value, ..)).sum()`
fn vx_count_branches(xs: &Vec<Branch>, name: &Name, lambda_single: bool) -> (r: usize)
    ensures counts(r, uses_branches(*xs, xs@.len(), *name)),
    decreases *xs, 1nat,
{
    let mut total = 0;
    let mut i = 0;
    while i < xs.len()
        invariant i <= xs@.len(), counts(total, uses_branches(*xs, i as nat, *name)),
        decreases xs@.len() - i,
    {
        total = vx_plus(total, count_uses(&xs[i].value, name, lambda_single));
        i = i + 1;
    }
    total
}
//@ fn ticc/src/codegen/opt/inline_simple.rs count_uses
//@ ret r
//@ rule count_uses ( $a:rest ) + count_uses ( $b:rest ) + count_uses ( $c:rest ) ==> vx_plus ( vx_plus ( count_uses ( $a ) , count_uses ( $b ) ) , count_uses ( $c ) )
//@ rule count_uses ( $a:rest ) + count_uses ( $b:rest ) ==> vx_plus ( count_uses ( $a ) , count_uses ( $b ) )
//@ rule count_uses ( $a:rest ) + b . iter ( ) . map ( | b | count_uses ( & b . value , name , lambda_single ) ) . sum :: < usize > ( ) ==> vx_plus ( count_uses ( $a ) , vx_count_branches ( b , name , lambda_single ) )
//@ rule a . iter ( ) . map ( | e | count_uses ( e , name , lambda_single ) ) . sum ( ) ==> vx_count ( a , name , lambda_single )
//@ rule total += count_uses ( $x:rest ) ==> total = vx_plus ( total , count_uses ( $x ) )
    ensures counts(r, uses(*e, *name)),
    decreases *e, 0nat,
//@ loop 0
    invariant
        e is Call, vx_it0.seq().len() == e->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e->Call_1@[k],
        counts(total, uses(*(e->Call_0), *name) + uses_list(e->Call_1, vx_it0.index() as nat, *name)),
//@ loophead 0
    proof { assert(*b == e->Call_1@[vx_it0.index() as int]); }
//@ loop 1
    invariant
        e is Intrinsic, vx_it1.seq().len() == e->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == e->Intrinsic_1@[k],
        counts(total, uses_list(e->Intrinsic_1, vx_it1.index() as nat, *name)),
//@ loophead 1
    proof { assert(*a == e->Intrinsic_1@[vx_it1.index() as int]); }
//@ end
//@ fn ticc/src/codegen/opt/inline_simple.rs replace_use
//@ closure 0
//@ rule matches ! ( $e:ident , ir :: Expr :: Name ( $x:ident ) if $c:rest ) ==> ( match & * $e { ir :: Expr :: Name ( $x ) => $c , _ => false } )
//@ params fn use_step(e: &mut Expr, name: &Name, value: &mut Option<Expr>)
    requires *old(e) is Name && old(e)->Name_0 == *name ==> *old(value) is Some,
    ensures
        *old(e) is Name && old(e)->Name_0 == *name ==> *final(e) == old(value)->0 && *final(value) is None,
        !(*old(e) is Name && old(e)->Name_0 == *name) ==> *final(e) == *old(e) && *final(value) == *old(value),
//@ end
/// of the value there was: it is gone once it has been used
pub open spec fn taken(n: nat, a: Option<Expr>, b: Option<Expr>) -> bool { if n == 0 { b == a } else { b is None } }
//@ fn ticc/src/codegen/opt.rs walk_expressions_postorder_mut.go
//@ params fn put_go(expr: &mut Expr, name: &Name, value: &mut Option<Expr>, vx_b: Ghost<Expr>)
//@ splitor
//@ rule go ( $x , f ) ==> put_go ( $x , name , value , vx_b )
//@ rule f ( expr ) ==> use_step ( expr , name , value )
//@ rule __vx_it_0 ( b ) ==> __vx_it_0 ( b . iter_mut ( ) )
//@ rule __vx_it_1 ( b ) ==> __vx_it_1 ( b . iter_mut ( ) )
//@ rule __vx_it_2 ( bs ) ==> __vx_it_2 ( bs . iter_mut ( ) )
//@ rule __vx_it_3 ( xs ) ==> __vx_it_3 ( xs . iter_mut ( ) )
    requires
        uses(*old(expr), *name) <= 1,
        uses(*old(expr), *name) == 1 ==> *old(value) == Some(vx_b@),
    ensures
        put_in(*old(expr), *name, vx_b@, *final(expr)),
        taken(uses(*old(expr), *name), *old(value), *final(value)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost e0 = *expr;
    let ghost v0 = *value;
//@ loop 0
    invariant
        e0 is Call, uses(e0, *name) <= 1, uses(e0, *name) == 1 ==> v0 == Some(vx_b@),
        vx_it0.seq().len() == e0->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e0->Call_1@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> put_in(e0->Call_1@[k], *name, vx_b@, *final(#[trigger] vx_it0.seq()[k])),
        taken(uses(*(e0->Call_0), *name) + uses_list(e0->Call_1, vx_it0.index() as nat, *name), v0, *value),
//@ loophead 0
    proof { assert(*b == e0->Call_1@[vx_it0.index() as int]); uses_part(e0->Call_1, e0->Call_1@.len(), vx_it0.index() as int, *name); }
//@ loop 1
    invariant
        e0 is Intrinsic, uses(e0, *name) <= 1, uses(e0, *name) == 1 ==> v0 == Some(vx_b@),
        vx_it1.seq().len() == e0->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == e0->Intrinsic_1@[k],
        forall|k: int| 0 <= k < vx_it1.index() ==> put_in(e0->Intrinsic_1@[k], *name, vx_b@, *final(#[trigger] vx_it1.seq()[k])),
        taken(uses_list(e0->Intrinsic_1, vx_it1.index() as nat, *name), v0, *value),
//@ loophead 1
    proof { assert(*b == e0->Intrinsic_1@[vx_it1.index() as int]); uses_part(e0->Intrinsic_1, e0->Intrinsic_1@.len(), vx_it1.index() as int, *name); }
//@ loop 2
    invariant
        e0 is Match, uses(e0, *name) <= 1, uses(e0, *name) == 1 ==> v0 == Some(vx_b@),
        vx_it2.seq().len() == e0->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == e0->Match_1@[k],
        forall|k: int| 0 <= k < vx_it2.index() ==> put_branch(e0->Match_1@[k], *name, vx_b@, *final(#[trigger] vx_it2.seq()[k])),
        taken(uses(*(e0->Match_0), *name) + uses_branches(e0->Match_1, vx_it2.index() as nat, *name), v0, *value),
//@ loophead 2
    proof { assert(*b == e0->Match_1@[vx_it2.index() as int]); uses_branch(e0->Match_1, e0->Match_1@.len(), vx_it2.index() as int, *name); }
//@ loop 3
    invariant
        e0 is Construct, uses(e0, *name) <= 1, uses(e0, *name) == 1 ==> v0 == Some(vx_b@),
        vx_it3.seq().len() == e0->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == e0->Construct_2@[k],
        forall|k: int| 0 <= k < vx_it3.index() ==> put_in(e0->Construct_2@[k], *name, vx_b@, *final(#[trigger] vx_it3.seq()[k])),
        taken(uses_list(e0->Construct_2, vx_it3.index() as nat, *name), v0, *value),
//@ loophead 3
    proof { assert(*a == e0->Construct_2@[vx_it3.index() as int]); uses_part(e0->Construct_2, e0->Construct_2@.len(), vx_it3.index() as int, *name); }
//@ before f ( expr )
    proof {
        if e0 is Call { put_all(e0->Call_1, e0->Call_1@.len(), *name, vx_b@, expr->Call_1@); }
        if e0 is Intrinsic { put_all(e0->Intrinsic_1, e0->Intrinsic_1@.len(), *name, vx_b@, expr->Intrinsic_1@); }
        if e0 is Construct { put_all(e0->Construct_2, e0->Construct_2@.len(), *name, vx_b@, expr->Construct_2@); }
        if e0 is Match { put_all_branches(e0->Match_1, e0->Match_1@.len(), *name, vx_b@, expr->Match_1@); }
    }
//@ end
//@ fn ticc/src/codegen/opt/inline_simple.rs replace_use
//@ rule opt :: walk_expressions_postorder_mut ( e , | e | $x:rest ) ==> put_go ( e , name , value , Ghost ( value -> 0 ) )
    requires uses(*old(e), *name) == 1, *old(value) is Some,
    ensures put_in(*old(e), *name, old(value)->0, *final(e)), *final(value) is None,
//@ end
/// an `assert!` that is proved to hold
#[verifier::external_body]
fn vx_holds(b: bool) requires b { unimplemented!() }
//@ fn ticc/src/codegen/opt/inline_simple.rs optimize_expr
//@ rule assert ! ( $x:rest ) ==> vx_holds ( $x )
//@ rule let value = & mut Some ( value ) ; ==> let mut vx_value = Some ( value ) ; let value = & mut vx_value ;
    requires fresh(*old(e)),
    ensures keeps(*old(e), *final(e)),
//@ head
    let ghost e0 = *e;
    proof {
        keep_refl(e0);
        if e0 is Let && uses(*(e0->Let_2), e0->Let_0) == 1 { inlined(e0->Let_0, *(e0->Let_1), *(e0->Let_2)); }
    }
//@ after if let ir :: Expr :: Let ( x , b , r ) = e
    let ghost e1 = *e;
    proof {
        keep_refl(e1);
        keep_fresh(e0, e1);
        if e1 is Let && uses(*(e1->Let_2), e1->Let_0) == 1 { inlined(e1->Let_0, *(e1->Let_1), *(e1->Let_2)); }
        assert forall|q: Expr| #[trigger] keeps(e1, q) implies keeps(e0, q) by { keep_trans(e0, e1, q); }
    }
//@ end
//@ fn ticc/src/codegen/opt/inline_simple.rs optimize
//@ rule opt :: walk_expressions_mut ( $x , optimize_expr ) ==> pre_go ( $x )
    requires defs_fresh(old(program).defs@),
    ensures keep_defs(old(program).defs@, final(program).defs@),
//@ head
    let ghost d0 = program.defs@;
//@ loop 0
    invariant
        vx_it0.seq().len() == d0.len(), defs_fresh(d0),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> keep_def(d0[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*v == d0[vx_it0.index() as int]); }
//@ end
}

// ---- merge_match: a match on a match whose branches build different constructors -----------------
pub mod merge_match { use super::*;
use reduce_apply::lets;
/// what an expression builds
pub open spec fn ctor_of(e: Expr) -> Option<Name> decreases e {
    match e {
        Expr::Construct(c, _, _) => Some(c),
        Expr::Let(_, _, b) => ctor_of(*b),
        Expr::LetRec(_, _, _, b) => ctor_of(*b),
        Expr::Pi(_, b) => ctor_of(*b),
        Expr::PiApply(b, _) => ctor_of(*b),
        _ => None,
    }
}
//@ fn ticc/src/codegen/opt/merge_match.rs extract_ctor
//@ ret r
    ensures r == ctor_of(*e),
    decreases *e,
//@ end
pub open spec fn all_differ(bs: Seq<Branch>) -> bool {
    (forall|i: int| 0 <= i < bs.len() ==> ctor_of((#[trigger] bs[i]).value) is Some)
    && (forall|i: int, j: int| 0 <= i < j < bs.len() ==> ctor_of((#[trigger] bs[i]).value) != ctor_of((#[trigger] bs[j]).value))
}
/// `branches.iter().filter_map(|b| extract_ctor(&b.value)).collect::<HashSet<_>>().len()`
#[verifier::external_body]
fn vx_different_ctors(bs: &[Branch]) -> (r: usize)
    ensures r == bs@.len() ==> all_differ(bs@),
{ unimplemented!() }
//@ fn ticc/src/codegen/opt/merge_match.rs can_merge_branches
//@ ret r
//@ rule branches . iter ( ) . filter_map ( | b | extract_ctor ( & b . value ) ) . collect :: < HashSet < _ > > ( ) . len ( ) ==> vx_different_ctors ( branches )
    ensures r ==> all_differ(branches@),
//@ end
//@ fn ticc/src/codegen/opt/merge_match.rs take_apart
//@ ret r
    requires *old(expr) is Match, *(old(expr)->Match_0) is Match,
    ensures r.0 == (*(old(expr)->Match_0))->Match_0, r.1 == (*(old(expr)->Match_0))->Match_1, r.2 == old(expr)->Match_1,
//@ end

// -- one branch
/// r is v with `match .. with o` put around what it builds
pub open spec fn merged(v: Expr, o: Branch, r: Expr) -> bool decreases v {
    match (v, r) {
        (Expr::Construct(_, _, xs), _) => r == lets(o.bindings@, xs@, 0, o.value) && xs@.len() == o.bindings@.len(),
        (Expr::Let(n, p, b), Expr::Let(m, q, c)) => n == m && p == q && merged(*b, o, *c),
        (Expr::LetRec(n, _, p, b), Expr::LetRec(m, _, q, c)) => n == m && p == q && merged(*b, o, *c),
        (Expr::Pi(_, b), Expr::Pi(_, c)) => merged(*b, o, *c),
        (Expr::PiApply(b, _), Expr::PiApply(c, _)) => merged(*b, o, *c),
        _ => false,
    }
}
pub open spec fn with_branch(env: DEnv, d: D, o: Branch) -> D {
    den(bind_all(env, o.bindings@, d->Comp_1, o.bindings@.len()), o.value)
}
/// what v binds o does not use, and the other way round
pub open spec fn separate(v: Expr, o: Branch) -> bool {
    (forall|y: Name| #[trigger] bc(v, y) > 0 ==> !fv(o.value, y) && !o.bindings@.contains(y))
    && (forall|i: int| 0 <= i < o.bindings@.len() ==> !fv(v, #[trigger] o.bindings@[i]))
}
proof fn fields_apart(xs: Vec<Expr>, o: Branch, v: Expr)
    requires v is Construct, xs == v->Construct_2, separate(v, o), xs@.len() == o.bindings@.len(),
    ensures reduce_apply::apart(o.bindings@, xs),
{
    assert forall|i: int, j: int| 0 <= i < o.bindings@.len() && 0 <= j < o.bindings@.len() implies !#[trigger] fv(xs@[j], o.bindings@[i]) by {
        let y = o.bindings@[i];
        list_part(xs, xs@.len(), j, y);
        assert(!fv(v, y));
    }
}
/// o means the same where something that it does not use has been bound
proof fn under(env: DEnv, n: Name, w: D, d: D, o: Branch)
    requires !fv(o.value, n), !o.bindings@.contains(n),
    ensures with_branch(env.insert(n, w), d, o) == with_branch(env, d, o),
{
    let names = o.bindings@;
    assert forall|i: int| 0 <= i < names.len() implies #[trigger] names[i] != n by { if names[i] == n { assert(names.contains(n)); } }
    move_match::swap(env, n, w, names, d->Comp_1, names.len());
    weaken(bind_all(env, names, d->Comp_1, names.len()), n, w, o.value);
}
#[verifier::spinoff_prover]
proof fn merged_den(env: DEnv, v: Expr, o: Branch, r: Expr)
    requires merged(v, o, r), separate(v, o), ctor_of(v) is Some,
    ensures den(env, v) is Comp, den(env, v)->Comp_0 == ctor_of(v)->0, den(env, r) == with_branch(env, den(env, v), o),
    decreases v,
{
    match (v, r) {
        (Expr::Construct(_, _, xs), _) => {
            fields_apart(xs, o, v);
            reduce_apply::lets_den(env, o.bindings@, xs, 0, o.value);
            reduce_apply::list_len(env, xs, xs@.len());
        }
        (Expr::Let(n, p, b), Expr::Let(_, _, c)) => {
            assert(bc(v, n) > 0);
            inside(v, *b, o, n);
            merged_den(env.insert(n, den(env, *p)), *b, o, *c);
            under(env, n, den(env, *p), den(env.insert(n, den(env, *p)), *b), o);
        }
        (Expr::LetRec(n, _, p, b), Expr::LetRec(_, _, _, c)) => {
            assert(bc(v, n) > 0);
            inside(v, *b, o, n);
            let w = lfp(rec_fn(env, n, *p));
            merged_den(env.insert(n, w), *b, o, *c);
            under(env, n, w, den(env.insert(n, w), *b), o);
        }
        (Expr::Pi(_, b), Expr::Pi(_, c)) => { same_names(v, *b, o); merged_den(env, *b, o, *c); }
        (Expr::PiApply(b, _), Expr::PiApply(c, _)) => { same_names(v, *b, o); merged_den(env, *b, o, *c); }
        _ => {}
    }
}
proof fn inside(v: Expr, b: Expr, o: Branch, n: Name)
    requires separate(v, o), bc(v, n) > 0, v is Let && b == *(v->Let_2) && n == v->Let_0 || v is LetRec && b == *(v->LetRec_3) && n == v->LetRec_0,
    ensures separate(b, o), !fv(o.value, n), !o.bindings@.contains(n),
{
    assert forall|y: Name| #[trigger] bc(b, y) > 0 implies !fv(o.value, y) && !o.bindings@.contains(y) by { assert(bc(v, y) > 0); }
    assert forall|i: int| 0 <= i < o.bindings@.len() implies !fv(b, #[trigger] o.bindings@[i]) by {
        let y = o.bindings@[i];
        assert(!fv(v, y));
        assert(o.bindings@.contains(y));
    }
}
proof fn same_names(v: Expr, b: Expr, o: Branch)
    requires separate(v, o), v is Pi && b == *(v->Pi_1) || v is PiApply && b == *(v->PiApply_0),
    ensures separate(b, o),
{
    assert forall|y: Name| #[trigger] bc(b, y) > 0 implies !fv(o.value, y) && !o.bindings@.contains(y) by { assert(bc(v, y) > 0); }
    assert forall|i: int| 0 <= i < o.bindings@.len() implies !fv(b, #[trigger] o.bindings@[i]) by { assert(!fv(v, o.bindings@[i])); }
}
proof fn merged_names(v: Expr, o: Branch, r: Expr, x: Name)
    requires merged(v, o, r),
    ensures bc(r, x) == bc(v, x) + times(o.bindings@, x) + bc(o.value, x),
        fv(r, x) ==> fv(v, x) || fv(o.value, x) && !o.bindings@.contains(x),
        dup(r, x) ==> dup(v, x) || dup(o.value, x),
    decreases v,
{
    match (v, r) {
        (Expr::Construct(_, _, xs), _) => {
            let names = o.bindings@;
            reduce_apply::lets_less(names, xs, 0, o.value, x);
            reduce_apply::bc_split(xs, 0, x);
            reduce_apply::times_split(names, 0, x);
            assert(names.take(0) =~= Seq::empty());
            if names.contains(x) { let j = choose|j: int| 0 <= j < names.len() && names[j] == x; assert(names[j] == x); }
        }
        (Expr::Let(n, p, b), Expr::Let(_, _, c)) => { merged_names(*b, o, *c, x); }
        (Expr::LetRec(n, _, p, b), Expr::LetRec(_, _, _, c)) => { merged_names(*b, o, *c, x); }
        (Expr::Pi(_, b), Expr::Pi(_, c)) => { merged_names(*b, o, *c, x); }
        (Expr::PiApply(b, _), Expr::PiApply(c, _)) => { merged_names(*b, o, *c, x); }
        _ => {}
    }
}
/// `outer.bindings.into_iter().zip(fields.drain(..)).rev()`: the pairs, last first
#[verifier::external_body]
fn vx_zip_rev_names(names: Vec<Name>, xs: &mut Vec<Expr>) -> (r: Vec<(Name, Expr)>)
    requires names@.len() == old(xs)@.len(),
    ensures r@.len() == names@.len(),
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == names@[r@.len() - 1 - k] && r@[k].1 == old(xs)@[r@.len() - 1 - k],
{ unimplemented!() }
#[verifier::external_body]
fn vx_holds(b: bool) requires b { unimplemented!() }
//@ fn ticc/src/codegen/opt/merge_match.rs merge_branch
//@ splitor
//@ rule assert_eq ! ( * ctor , outer . ctor ) ==> vx_holds ( * ctor == outer . ctor )
//@ rule assert_eq ! ( $a , $b ) ==> vx_stop_unless ( $a == $b )
//@ rule for ( bind , value ) in $i:ident ( $x:rest ) ==> for vx_e in $i ( vx_pairs )
    requires ctor_of(*old(inner)) == Some(outer.ctor),
    ensures merged(*old(inner), outer, *final(inner)),
    decreases *old(inner),
//@ before let mut result
    let ghost names = outer.bindings@;
    let ghost xs0 = fields@;
    let ghost o0 = outer;
    let vx_pairs = vx_zip_rev_names(outer.bindings, fields);
//@ loop 0
    invariant
        vx_it0.seq() == vx_pairs@, names.len() == xs0.len(), vx_pairs@.len() == names.len(),
        forall|k: int| 0 <= k < vx_pairs@.len() ==> (#[trigger] vx_pairs@[k]).0 == names[vx_pairs@.len() - 1 - k] && vx_pairs@[k].1 == xs0[vx_pairs@.len() - 1 - k],
        result == lets(names, xs0, (names.len() - vx_it0.index()) as nat, o0.value),
//@ loophead 0
    let (bind, value) = vx_e;
//@ end

// -- all branches
pub open spec fn sum(s: Seq<nat>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() } }
proof fn sum_update(s: Seq<nat>, i: int)
    requires 0 <= i < s.len(),
    ensures sum(s) == sum(s.update(i, 0)) + s[i],
    decreases s.len(),
{
    if i < s.len() - 1 {
        sum_update(s.drop_last(), i);
        assert(s.update(i, 0).drop_last() =~= s.drop_last().update(i, 0));
    } else { assert(s.update(i, 0).drop_last() =~= s.drop_last()); }
}
pub open spec fn one_to_one(p: Seq<int>, n: nat) -> bool {
    (forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < n)
    && (forall|k: int, l: int| 0 <= k < l < p.len() ==> #[trigger] p[k] != #[trigger] p[l])
}
proof fn sum_some(s: Seq<nat>, p: Seq<int>, t: Seq<nat>)
    requires one_to_one(p, s.len()), t.len() == p.len(), forall|k: int| 0 <= k < p.len() ==> #[trigger] t[k] == s[p[k]],
    ensures sum(t) <= sum(s),
    decreases p.len(),
{
    if p.len() > 0 {
        let q = p.drop_last();
        let i = p.last();
        assert(p[p.len() - 1] == i);
        sum_update(s, i);
        let s2 = s.update(i, 0);
        assert forall|k: int| 0 <= k < q.len() implies #[trigger] t.drop_last()[k] == s2[q[k]] by { assert(q[k] == p[k] && p[k] != p[p.len() - 1]); assert(t[k] == s[p[k]]); }
        assert forall|k: int| 0 <= k < q.len() implies 0 <= #[trigger] q[k] < s2.len() by { assert(q[k] == p[k]); }
        assert forall|k: int, l: int| 0 <= k < l < q.len() implies #[trigger] q[k] != #[trigger] q[l] by { assert(p[k] != p[l]); }
        sum_some(s2, q, t.drop_last());
        assert(t[p.len() - 1] == s[i]);
    }
}
proof fn sum_le(a: Seq<nat>, b: Seq<nat>, c: Seq<nat>)
    requires a.len() == b.len() == c.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] <= b[k] + c[k],
    ensures sum(a) <= sum(b) + sum(c),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a[a.len() - 1] <= b[a.len() - 1] + c[a.len() - 1]);
        assert forall|k: int| 0 <= k < a.len() - 1 implies #[trigger] a.drop_last()[k] <= b.drop_last()[k] + c.drop_last()[k] by { assert(a[k] <= b[k] + c[k]); }
        sum_le(a.drop_last(), b.drop_last(), c.drop_last());
    }
}
pub open spec fn counts_of(bs: Seq<Branch>, x: Name) -> Seq<nat> { Seq::new(bs.len(), |k: int| bc(bs[k].value, x) + times(bs[k].bindings@, x)) }
pub open spec fn marks_of(bs: Seq<Branch>, x: Name) -> Seq<nat> { Seq::new(bs.len(), |k: int| if bs[k].ctor == x { 1nat } else { 0 }) }
proof fn as_sums(bs: Vec<Branch>, n: nat, x: Name)
    requires n <= bs@.len(),
    ensures bc_branches(bs, n, x) == sum(counts_of(bs@.take(n as int), x)), ctor_times(bs, n, x) == sum(marks_of(bs@.take(n as int), x)),
    decreases n,
{
    let t = bs@.take(n as int);
    if n > 0 {
        as_sums(bs, (n - 1) as nat, x);
        assert(counts_of(t, x).drop_last() =~= counts_of(bs@.take(n - 1), x));
        assert(marks_of(t, x).drop_last() =~= marks_of(bs@.take(n - 1), x));
        assert(counts_of(t, x).last() == bc(bs@[n - 1].value, x) + times(bs@[n - 1].bindings@, x));
        assert(marks_of(t, x).last() == if bs@[n - 1].ctor == x { 1nat } else { 0 });
    } else { assert(counts_of(t, x) =~= Seq::empty() && marks_of(t, x) =~= Seq::empty()); }
}
/// news[k] is inner[p[k]] with outer[q[k]] put around it
pub open spec fn all_merged(inner: Seq<Branch>, outer: Seq<Branch>, p: Seq<int>, q: Seq<int>, news: Seq<Branch>) -> bool {
    p.len() == inner.len() && news.len() == inner.len() && q.len() == inner.len()
    && one_to_one(p, inner.len()) && one_to_one(q, outer.len())
    && forall|k: int| 0 <= k < news.len() ==> merged_from(inner[p[k]], outer[q[k]], #[trigger] news[k])
}
pub open spec fn merged_from(i: Branch, o: Branch, r: Branch) -> bool {
    r.ctor == i.ctor && r.bindings@ == i.bindings@ && ctor_of(i.value) == Some(o.ctor) && merged(i.value, o, r.value)
}
/// every branch is somewhere
pub open spec fn onto(p: Seq<int>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] p.contains(i) }
proof fn found(bs: Vec<Branch>, c: Name, i: nat)
    requires i <= bs@.len(),
    ensures i <= find_branch(bs@, c, i) <= bs@.len(),
        find_branch(bs@, c, i) < bs@.len() ==> bs@[find_branch(bs@, c, i) as int].ctor == c,
        forall|k: int| i <= k < find_branch(bs@, c, i) ==> (#[trigger] bs@[k]).ctor != c,
    decreases bs@.len() - i,
{
    if i < bs@.len() && bs@[i as int].ctor != c { found(bs, c, i + 1); }
}
proof fn two_marks(bs: Vec<Branch>, n: nat, i: int, c: Name)
    requires 0 <= i < n <= bs@.len(), bs@[i].ctor == c,
    ensures ctor_times(bs, n, c) >= 1, forall|j: int| 0 <= j < n && j != i && (#[trigger] bs@[j]).ctor == c ==> ctor_times(bs, n, c) >= 2,
    decreases n,
{
    if i < n - 1 { two_marks(bs, (n - 1) as nat, i, c); }
    else {
        assert forall|j: int| 0 <= j < n && j != i && (#[trigger] bs@[j]).ctor == c implies ctor_times(bs, n, c) >= 2 by { two_marks(bs, (n - 1) as nat, j, c); }
    }
}
/// the only branch for a constructor is the one that is found
proof fn the_one(bs: Vec<Branch>, i: int, c: Name)
    requires 0 <= i < bs@.len(), bs@[i].ctor == c, ctor_times(bs, bs@.len(), c) <= 1,
    ensures find_branch(bs@, c, 0) == i,
{
    found(bs, c, 0);
    let j = find_branch(bs@, c, 0);
    if j != i {
        assert(j < bs@.len()) by { if j == bs@.len() { assert(bs@[i].ctor != c); } }
        two_marks(bs, bs@.len(), i, c);
        assert(bs@[j as int].ctor == c);
    }
}
#[verifier::spinoff_prover]
proof fn merged_less(d: Box<Expr>, inner: Vec<Branch>, outer: Vec<Branch>, p: Seq<int>, q: Seq<int>, news: Vec<Branch>, x: Name)
    requires all_merged(inner@, outer@, p, q, news@),
    ensures less_at(Expr::Match(Box::new(Expr::Match(d, inner)), outer), Expr::Match(d, news), x),
{
    let m = Expr::Match(d, inner);
    let e = Expr::Match(Box::new(m), outer);
    let r = Expr::Match(d, news);
    assert(*Box::new(m) == m);
    as_sums(inner, inner@.len(), x); as_sums(outer, outer@.len(), x); as_sums(news, news@.len(), x);
    assert(inner@.take(inner@.len() as int) =~= inner@ && outer@.take(outer@.len() as int) =~= outer@ && news@.take(news@.len() as int) =~= news@);
    let ci = Seq::new(news@.len(), |k: int| counts_of(inner@, x)[p[k]]);
    let co = Seq::new(news@.len(), |k: int| counts_of(outer@, x)[q[k]]);
    sum_some(counts_of(inner@, x), p, ci);
    sum_some(counts_of(outer@, x), q, co);
    assert forall|k: int| 0 <= k < news@.len() implies #[trigger] counts_of(news@, x)[k] <= ci[k] + co[k] by {
        assert(merged_from(inner@[p[k]], outer@[q[k]], news@[k]));
        merged_names(inner@[p[k]].value, outer@[q[k]], news@[k].value, x);
    }
    sum_le(counts_of(news@, x), ci, co);
    let mi = Seq::new(news@.len(), |k: int| marks_of(inner@, x)[p[k]]);
    sum_some(marks_of(inner@, x), p, mi);
    assert(marks_of(news@, x) =~= mi) by {
        assert forall|k: int| 0 <= k < news@.len() implies marks_of(news@, x)[k] == mi[k] by { assert(merged_from(inner@[p[k]], outer@[q[k]], news@[k])); }
    }
    assert(bc(m, x) == bc(*d, x) + bc_branches(inner, inner@.len(), x));
    assert(bc(e, x) == bc(m, x) + bc_branches(outer, outer@.len(), x));
    assert(bc(r, x) == bc(*d, x) + bc_branches(news, news@.len(), x));
    assert(fv(e, x) == (fv(m, x) || fv_branches(outer, outer@.len(), x)));
    assert(fv(m, x) == (fv(*d, x) || fv_branches(inner, inner@.len(), x)));
    assert(fv(r, x) == (fv(*d, x) || fv_branches(news, news@.len(), x)));
    assert(dup(m, x) == (dup(*d, x) || dup_branches(inner, inner@.len(), x) || ctor_times(inner, inner@.len(), x) > 1));
    assert(dup(r, x) == (dup(*d, x) || dup_branches(news, news@.len(), x) || ctor_times(news, news@.len(), x) > 1));
    assert(dup(e, x) == (dup(m, x) || dup_branches(outer, outer@.len(), x) || ctor_times(outer, outer@.len(), x) > 1));
    branch_names(inner, outer, p, q, news, news@.len(), x);
}
proof fn branch_names(inner: Vec<Branch>, outer: Vec<Branch>, p: Seq<int>, q: Seq<int>, news: Vec<Branch>, n: nat, x: Name)
    requires all_merged(inner@, outer@, p, q, news@), n <= news@.len(),
    ensures
        fv_branches(news, n, x) ==> fv_branches(inner, inner@.len(), x) || fv_branches(outer, outer@.len(), x),
        dup_branches(news, n, x) ==> dup_branches(inner, inner@.len(), x) || dup_branches(outer, outer@.len(), x),
    decreases n,
{
    if n > 0 {
        branch_names(inner, outer, p, q, news, (n - 1) as nat, x);
        let k = n - 1;
        assert(merged_from(inner@[p[k]], outer@[q[k]], news@[k]));
        merged_names(inner@[p[k]].value, outer@[q[k]], news@[k].value, x);
        branch_part(inner, inner@.len(), p[k], x);
        branch_part(outer, outer@.len(), q[k], x);
    }
}
/// what an outer branch uses the inner ones do not bind
#[verifier::spinoff_prover]
proof fn branches_separate(d: Box<Expr>, inner: Vec<Branch>, outer: Vec<Branch>, i: int, j: int)
    requires fresh(Expr::Match(Box::new(Expr::Match(d, inner)), outer)), 0 <= i < inner@.len(), 0 <= j < outer@.len(),
    ensures separate(inner@[i].value, outer@[j]),
        forall|y: Name| inner@[i].bindings@.contains(y) ==> !#[trigger] fv(outer@[j].value, y) && !outer@[j].bindings@.contains(y),
{
    let m = Expr::Match(d, inner);
    let e = Expr::Match(Box::new(m), outer);
    assert(*Box::new(m) == m);
    let v = inner@[i].value;
    let o = outer@[j];
    let names = inner@[i].bindings@;
    assert forall|y: Name| bc(v, y) > 0 || names.contains(y) implies !#[trigger] fv(o.value, y) && !o.bindings@.contains(y) by {
        assert(fresh_at(e, y));
        branch_part(inner, inner@.len(), i, y); branch_part(outer, outer@.len(), j, y);
        times_in(o.bindings@, y); times_in(names, y);
        assert(bc(m, y) == bc(*d, y) + bc_branches(inner, inner@.len(), y));
        assert(bc(e, y) == bc(m, y) + bc_branches(outer, outer@.len(), y));
        assert(fv(e, y) == (fv(m, y) || fv_branches(outer, outer@.len(), y)));
    }
    assert forall|y: Name| #[trigger] bc(v, y) > 0 implies !fv(o.value, y) && !o.bindings@.contains(y) by { assert(!fv(o.value, y)); }
    assert forall|k: int| 0 <= k < o.bindings@.len() implies !fv(v, #[trigger] o.bindings@[k]) by {
        let y = o.bindings@[k];
        assert(o.bindings@.contains(y));
        assert(fresh_at(e, y));
        branch_part(inner, inner@.len(), i, y); branch_part(outer, outer@.len(), j, y);
        times_in(o.bindings@, y); times_in(names, y);
        assert(bc(m, y) == bc(*d, y) + bc_branches(inner, inner@.len(), y));
        assert(bc(e, y) == bc(m, y) + bc_branches(outer, outer@.len(), y));
        assert(fv(e, y) == (fv(m, y) || fv_branches(outer, outer@.len(), y)));
        assert(fv(m, y) == (fv(*d, y) || fv_branches(inner, inner@.len(), y)));
    }
}
/// o means the same where the inner branch's bindings are bound
proof fn under_all(env: DEnv, names: Seq<Name>, vs: Seq<D>, k: nat, d: D, o: Branch)
    requires k <= names.len(), forall|y: Name| names.contains(y) ==> !#[trigger] fv(o.value, y) && !o.bindings@.contains(y),
    ensures with_branch(bind_all(env, names, vs, k), d, o) == with_branch(env, d, o),
    decreases k,
{
    if k > 0 {
        under_all(env, names, vs, (k - 1) as nat, d, o);
        assert(names.contains(names[k - 1]));
        assert(!fv(o.value, names[k - 1]));
        under(bind_all(env, names, vs, (k - 1) as nat), names[k - 1], vs[k - 1], d, o);
    }
}
#[verifier::spinoff_prover]
proof fn merged_same(env: DEnv, d: Box<Expr>, inner: Vec<Branch>, outer: Vec<Branch>, p: Seq<int>, q: Seq<int>, news: Vec<Branch>)
    requires all_merged(inner@, outer@, p, q, news@), onto(p, inner@.len()), fresh(Expr::Match(Box::new(Expr::Match(d, inner)), outer)),
    ensures den(env, Expr::Match(Box::new(Expr::Match(d, inner)), outer)) == den(env, Expr::Match(d, news)),
{
    let m = Expr::Match(d, inner);
    let e = Expr::Match(Box::new(m), outer);
    let r = Expr::Match(d, news);
    assert(*Box::new(m) == m);
    if let D::Comp(c, vs) = den(env, *d) {
        assert(fresh_at(e, c));
        merged_less(d, inner, outer, p, q, news, c);
        assert(!dup(r, c) && !dup(m, c));
        let i = find_branch(inner@, c, 0);
        found(inner, c, 0);
        if i < inner@.len() {
            assert(p.contains(i as int));
            let k = p.index_of(i as int);
            assert(merged_from(inner@[p[k]], outer@[q[k]], news@[k]));
            the_one(news, k, c);
            let o = outer@[q[k]];
            let t = bind_all(env, inner@[i as int].bindings@, vs, inner@[i as int].bindings@.len());
            branches_separate(d, inner, outer, i as int, q[k]);
            merged_den(t, inner@[i as int].value, o, news@[k].value);
            under_all(env, inner@[i as int].bindings@, vs, inner@[i as int].bindings@.len(), den(t, inner@[i as int].value), o);
            assert(den(env, m) == den(t, inner@[i as int].value));
            assert(fresh_at(e, o.ctor));
            assert(!dup(e, o.ctor));
            the_one(outer, q[k], o.ctor);
            assert(den(env, r) == den(t, news@[k].value));
            assert(den(env, e) == with_branch(env, den(env, m), o));
        } else {
            found(news, c, 0);
            let k = find_branch(news@, c, 0);
            if k < news@.len() {
                assert(merged_from(inner@[p[k as int]], outer@[q[k as int]], news@[k as int]));
                assert(inner@[p[k as int]].ctor != c);
            }
            assert(den(env, m) == D::Bot);
        }
    } else { assert(den(env, m) == D::Bot); }
}
/// `sort_by_cached_key` puts the branches into some order
#[verifier::external_body]
fn vx_sort(bs: &mut Vec<Branch>) -> (p: Ghost<Seq<int>>)
    requires all_differ(old(bs)@),
    ensures final(bs)@.len() == old(bs)@.len(), p@.len() == old(bs)@.len(), one_to_one(p@, old(bs)@.len()), onto(p@, old(bs)@.len()),
        forall|k: int| 0 <= k < p@.len() ==> #[trigger] final(bs)@[k] == old(bs)@[p@[k]],
{ unimplemented!() }
/// `HashMap<Name, Branch>`
#[verifier::external_body]
pub struct BranchMap { m: usize }
impl BranchMap {
    pub uninterp spec fn view(&self) -> Map<Name, Branch>;
    #[verifier::external_body]
    fn remove(&mut self, k: &Name) -> (r: Option<Branch>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None },
    { unimplemented!() }
}
/// `.into_iter().map(|b| (b.ctor, b)).collect()`
#[verifier::external_body]
fn vx_by_ctor(bs: Vec<Branch>) -> (r: BranchMap)
    ensures forall|c: Name| #[trigger] r@.contains_key(c) ==> exists|j: int| 0 <= j < bs@.len() && #[trigger] bs@[j] == r@[c] && r@[c].ctor == c,
{ unimplemented!() }
/// `unwrap` of what a well-typed program has
#[verifier::external_body]
fn vx_given(b: Option<Branch>) -> (r: Branch) ensures b == Some(r) { unimplemented!() }
pub open spec fn of_outer(r: Branch, c: Name, outer: Seq<Branch>) -> bool { r.ctor == c && outer.contains(r) }
//@ fn ticc/src/codegen/opt/merge_match.rs merge_branches
//@ rule inner_branches . sort_by_cached_key ( | b | $x:rest ) ==> let vx_p = vx_sort ( & mut inner_branches )
//@ rule outer_branches . into_iter ( ) . map ( | b | ( b . ctor , b ) ) . collect :: < HashMap < _ , _ > > ( ) ==> vx_by_ctor ( outer_branches )
//@ rule outer_branches . remove ( $x:rest ) . unwrap ( ) ==> vx_given ( outer_branches . remove ( $x ) )
    requires *old(expr) is Match, *(old(expr)->Match_0) is Match, fresh(*old(expr)), all_differ((*(old(expr)->Match_0))->Match_1@),
    ensures keeps(*old(expr), *final(expr)),
//@ head
    let ghost e0 = *expr;
    let ghost in0 = (*(e0->Match_0))->Match_1;
    let ghost out0 = e0->Match_1;
    let ghost mut q: Seq<int> = Seq::empty();
//@ before for inner in
    let ghost p = vx_p@;
    let ghost t0 = inner_branches@;
    let ghost m0 = outer_branches@;
    proof {
        assert forall|c: Name| #[trigger] m0.contains_key(c) implies of_outer(m0[c], c, out0@) by {}
    }
//@ loop 0
    invariant
        p.len() == in0@.len(), one_to_one(p, in0@.len()), all_differ(in0@), t0.len() == in0@.len(),
        forall|k: int| 0 <= k < p.len() ==> #[trigger] t0[k] == in0@[p[k]],
        vx_it0.seq().len() == t0.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == t0[k],
        forall|c: Name| #[trigger] m0.contains_key(c) ==> of_outer(m0[c], c, out0@),
        forall|c: Name| #[trigger] outer_branches@.contains_key(c) ==> m0.contains_key(c) && outer_branches@[c] == m0[c],
        q.len() == vx_it0.index(),
        forall|k: int| 0 <= k < q.len() ==> 0 <= #[trigger] q[k] < out0@.len() && Some(out0@[q[k]].ctor) == ctor_of(t0[k].value),
        forall|k: int| 0 <= k < vx_it0.index() ==> merged_from(t0[k], out0@[q[k]], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    let ghost vx_i = vx_it0.index() as int;
    proof { assert(*inner == t0[vx_i]); assert(t0[vx_i] == in0@[p[vx_i]]); assert(0 <= p[vx_i] < in0@.len()); }
//@ after let outer =
    proof {
        assert(m0.contains_key(outer.ctor));
        assert(of_outer(outer, outer.ctor, out0@));
        q = q.push(out0@.index_of(outer));
    }
//@ before * expr = ir :: Expr :: Match
    proof {
        assert(q.len() == in0@.len());
        assert forall|k: int, l: int| 0 <= k < l < q.len() implies #[trigger] q[k] != #[trigger] q[l] by {
            assert(p[k] != p[l]);
            assert(t0[k] == in0@[p[k]] && t0[l] == in0@[p[l]]);
            if p[k] < p[l] { assert(ctor_of(in0@[p[k]].value) != ctor_of(in0@[p[l]].value)); } else { assert(ctor_of(in0@[p[l]].value) != ctor_of(in0@[p[k]].value)); }
        }
        assert forall|k: int| 0 <= k < inner_branches@.len() implies merged_from(in0@[p[k]], out0@[q[k]], #[trigger] inner_branches@[k]) by { assert(t0[k] == in0@[p[k]]); }
        assert(all_merged(in0@, out0@, p, q, inner_branches@));
        let r = Expr::Match(d_, inner_branches);
        assert(e0 == Expr::Match(Box::new(Expr::Match(d_, in0)), out0));
        assert forall|env: DEnv| #[trigger] den(env, e0) == den(env, r) by { merged_same(env, d_, in0, out0, p, q, inner_branches); }
        assert forall|x: Name| #[trigger] less_at(e0, r, x) by { merged_less(d_, in0, out0, p, q, inner_branches, x); }
        assert(keeps(e0, r));
    }
//@ after let ( discr , mut inner_branches , outer_branches )
    let ghost d_ = discr;
//@ end
//@ fn ticc/src/codegen/opt/merge_match.rs optimize_expr
//@ rule ?& mut * * discr ==> & * * discr
    requires fresh(*old(expr)),
    ensures keeps(*old(expr), *final(expr)),
//@ head
    let ghost e0 = *expr;
    proof { keep_refl(e0); }
//@ before merge_branches
    proof { assert(*expr == e0); }
//@ end
//@ fn ticc/src/codegen/opt/merge_match.rs optimize
//@ rule opt :: walk_expressions_mut ( $x , optimize_expr ) ==> pre_go ( $x )
    requires defs_fresh(old(program).defs@),
    ensures keep_defs(old(program).defs@, final(program).defs@),
//@ head
    let ghost d0 = program.defs@;
//@ loop 0
    invariant
        vx_it0.seq().len() == d0.len(), defs_fresh(d0),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> keep_def(d0[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*v == d0[vx_it0.index() as int]); }
//@ end
}

// ---- dce: definitions and lets that nothing refers to -----------------------------------------
pub mod dce { use super::*;
use inline_simple::{uses, uses_list, uses_branches, uses_part, uses_branch};
/// `HashSet<Name>`
#[verifier::external_body]
pub struct NameSet { s: usize }
impl NameSet {
    pub uninterp spec fn view(&self) -> Set<Name>;
    #[verifier::external_body]
    fn new() -> (r: NameSet) ensures r@ == Set::<Name>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, n: Name) -> (r: bool) ensures final(self)@ == old(self)@.insert(n), r == !old(self)@.contains(n) { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, n: &Name) -> (r: bool) ensures r == self@.contains(*n) { unimplemented!() }
}
/// `HashMap<Name, &Expr>`
#[verifier::external_body]
pub struct DefMap<'a> { m: Vec<&'a Expr> }
impl<'a> DefMap<'a> {
    pub uninterp spec fn view(&self) -> Map<Name, Expr>;
    #[verifier::external_body]
    fn new() -> (r: DefMap<'a>) ensures r@ == Map::<Name, Expr>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, n: Name, e: &'a Expr) ensures final(self)@ == old(self)@.insert(n, *e) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, n: &Name) -> (r: Option<&'a Expr>)
        ensures match r { Some(e) => self@.contains_key(*n) && self@[*n] == *e, None => !self@.contains_key(*n) } { unimplemented!() }
}
/// only entries of names that e binds have been added or changed
pub open spec fn only_binders(e: Expr, a: Map<Name, Expr>, b: Map<Name, Expr>) -> bool {
    forall|n: Name| bc(e, n) == 0 ==> #[trigger] b.contains_key(n) == a.contains_key(n) && b[n] == a[n]
}
proof fn only_more(e: Expr, p: Expr, a: Map<Name, Expr>, b: Map<Name, Expr>, c: Map<Name, Expr>)
    requires only_binders(e, a, b), only_binders(p, b, c), binds_less(p, e),
    ensures only_binders(e, a, c),
{
    assert forall|n: Name| bc(e, n) == 0 implies #[trigger] c.contains_key(n) == a.contains_key(n) && c[n] == a[n] by {
        assert(bc(p, n) <= bc(e, n));
        assert(b.contains_key(n) == a.contains_key(n));
    }
}
pub open spec fn binds_less(p: Expr, e: Expr) -> bool { forall|n: Name| #[trigger] bc(p, n) <= bc(e, n) }
pub proof fn parts_bind_less(e: Expr)
    ensures
        match e {
            Expr::Call(f, xs) => binds_less(*f, e) && forall|k: int| 0 <= k < xs@.len() ==> binds_less(#[trigger] xs@[k], e),
            Expr::Intrinsic(_, xs) => forall|k: int| 0 <= k < xs@.len() ==> binds_less(#[trigger] xs@[k], e),
            Expr::Construct(_, _, xs) => forall|k: int| 0 <= k < xs@.len() ==> binds_less(#[trigger] xs@[k], e),
            Expr::Match(d, bs) => binds_less(*d, e) && forall|k: int| 0 <= k < bs@.len() ==> binds_less((#[trigger] bs@[k]).value, e),
            Expr::If(c, t, r) => binds_less(*c, e) && binds_less(*t, e) && binds_less(*r, e),
            Expr::Op(c, _, t) => binds_less(*c, e) && binds_less(*t, e),
            Expr::Let(_, c, t) => binds_less(*c, e) && binds_less(*t, e),
            Expr::LetRec(_, _, c, t) => binds_less(*c, e) && binds_less(*t, e),
            Expr::Lambda(_, b) => binds_less(*b, e),
            Expr::Pi(_, b) => binds_less(*b, e),
            Expr::PiApply(b, _) => binds_less(*b, e),
            _ => true,
        },
{
    match e {
        Expr::Call(_, xs) => { assert forall|k: int| 0 <= k < xs@.len() implies binds_less(#[trigger] xs@[k], e) by { assert forall|n: Name| #[trigger] bc(xs@[k], n) <= bc(e, n) by { list_part(xs, xs@.len(), k, n); } } }
        Expr::Intrinsic(_, xs) => { assert forall|k: int| 0 <= k < xs@.len() implies binds_less(#[trigger] xs@[k], e) by { assert forall|n: Name| #[trigger] bc(xs@[k], n) <= bc(e, n) by { list_part(xs, xs@.len(), k, n); } } }
        Expr::Construct(_, _, xs) => { assert forall|k: int| 0 <= k < xs@.len() implies binds_less(#[trigger] xs@[k], e) by { assert forall|n: Name| #[trigger] bc(xs@[k], n) <= bc(e, n) by { list_part(xs, xs@.len(), k, n); } } }
        Expr::Match(_, bs) => { assert forall|k: int| 0 <= k < bs@.len() implies binds_less((#[trigger] bs@[k]).value, e) by { assert forall|n: Name| #[trigger] bc(bs@[k].value, n) <= bc(e, n) by { branch_part(bs, bs@.len(), k, n); } } }
        _ => {}
    }
}
//@ fn ticc/src/codegen/opt/dce.rs optimize
//@ closure 0
//@ params fn note_let<'a>(e: &'a Expr, all_defs: &mut DefMap<'a>)
    ensures only_binders(*e, old(all_defs)@, final(all_defs)@),
//@ end
//@ fn ticc/src/codegen/opt.rs walk_expressions.go
//@ params fn note_go<'a>(expr: &'a Expr, all_defs: &mut DefMap<'a>)
//@ rule go ( $x , f ) ==> note_go ( $x , all_defs )
//@ rule f ( expr ) ==> note_let ( expr , all_defs )
    ensures
        only_binders(*expr, old(all_defs)@, final(all_defs)@),
        forall|e: Expr, m: Map<Name, Expr>| #[trigger] only_binders(e, m, old(all_defs)@) && binds_less(*expr, e) ==> only_binders(e, m, final(all_defs)@),
    decreases *expr,
//@ head
    let ghost m0 = all_defs@;
    proof { parts_bind_less(*expr); }
//@ loop 0
    invariant
        expr is Call, forall|k: int| 0 <= k < expr->Call_1@.len() ==> binds_less(#[trigger] expr->Call_1@[k], *expr),
        vx_it0.seq().len() == expr->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == expr->Call_1@[k],
        only_binders(*expr, m0, all_defs@),
//@ loophead 0
    let ghost vx_m = all_defs@;
    proof { assert(*b == expr->Call_1@[vx_it0.index() as int]); }
//@ looptail 0
    proof { only_more(*expr, *b, m0, vx_m, all_defs@); }
//@ loop 1
    invariant
        expr is Intrinsic, forall|k: int| 0 <= k < expr->Intrinsic_1@.len() ==> binds_less(#[trigger] expr->Intrinsic_1@[k], *expr),
        vx_it1.seq().len() == expr->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == expr->Intrinsic_1@[k],
        only_binders(*expr, m0, all_defs@),
//@ loophead 1
    let ghost vx_m = all_defs@;
    proof { assert(*b == expr->Intrinsic_1@[vx_it1.index() as int]); }
//@ looptail 1
    proof { only_more(*expr, *b, m0, vx_m, all_defs@); }
//@ loop 2
    invariant
        expr is Match, forall|k: int| 0 <= k < expr->Match_1@.len() ==> binds_less((#[trigger] expr->Match_1@[k]).value, *expr),
        vx_it2.seq().len() == expr->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == expr->Match_1@[k],
        only_binders(*expr, m0, all_defs@),
//@ loophead 2
    let ghost vx_m = all_defs@;
    proof { assert(*b == expr->Match_1@[vx_it2.index() as int]); }
//@ looptail 2
    proof { only_more(*expr, b.value, m0, vx_m, all_defs@); }
//@ loop 3
    invariant
        expr is Construct, forall|k: int| 0 <= k < expr->Construct_2@.len() ==> binds_less(#[trigger] expr->Construct_2@[k], *expr),
        vx_it3.seq().len() == expr->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == expr->Construct_2@[k],
        only_binders(*expr, m0, all_defs@),
//@ loophead 3
    let ghost vx_m = all_defs@;
    proof { assert(*a == expr->Construct_2@[vx_it3.index() as int]); }
//@ looptail 3
    proof { only_more(*expr, *a, m0, vx_m, all_defs@); }
//@ after match expr
    proof {
        assert(only_binders(*expr, m0, all_defs@));
        assert forall|e: Expr, m: Map<Name, Expr>| #[trigger] only_binders(e, m, m0) && binds_less(*expr, e) implies only_binders(e, m, all_defs@) by { only_more(e, *expr, m, m0, all_defs@); }
    }
//@ end

/// b has what a has, and the names that occur in e
pub open spec fn noted(e: Expr, a: Seq<Name>, b: Seq<Name>) -> bool {
    (forall|n: Name| a.contains(n) ==> #[trigger] b.contains(n)) && (forall|n: Name| #[trigger] uses(e, n) > 0 ==> b.contains(n))
}
pub open spec fn grows(a: Seq<Name>, b: Seq<Name>) -> bool { forall|n: Name| a.contains(n) ==> #[trigger] b.contains(n) }
pub open spec fn noted_list(xs: Vec<Expr>, k: nat, b: Seq<Name>) -> bool { forall|n: Name| #[trigger] uses_list(xs, k, n) > 0 ==> b.contains(n) }
pub open spec fn noted_branches(xs: Vec<Branch>, k: nat, b: Seq<Name>) -> bool { forall|n: Name| #[trigger] uses_branches(xs, k, n) > 0 ==> b.contains(n) }
pub open spec fn noted_one(e: Expr, b: Seq<Name>) -> bool { forall|n: Name| #[trigger] uses(e, n) > 0 ==> b.contains(n) }
proof fn pushed(s: Seq<Name>, x: Name)
    ensures grows(s, s.push(x)), s.push(x).contains(x),
{
    assert forall|n: Name| s.contains(n) implies #[trigger] s.push(x).contains(n) by { let i = s.index_of(n); assert(s.push(x)[i] == n); }
    assert(s.push(x)[s.len() as int] == x);
}
proof fn more_list(xs: Vec<Expr>, k: nat, p: Seq<Name>, q: Seq<Name>)
    requires k < xs@.len(), noted_list(xs, k, p), noted(xs@[k as int], p, q),
    ensures noted_list(xs, k + 1, q),
{
    assert forall|n: Name| #[trigger] uses_list(xs, k + 1, n) > 0 implies q.contains(n) by {
        assert(uses_list(xs, k + 1, n) == uses_list(xs, k, n) + uses(xs@[k as int], n));
    }
}
proof fn more_branches(xs: Vec<Branch>, k: nat, p: Seq<Name>, q: Seq<Name>)
    requires k < xs@.len(), noted_branches(xs, k, p), noted(xs@[k as int].value, p, q),
    ensures noted_branches(xs, k + 1, q),
{
    assert forall|n: Name| #[trigger] uses_branches(xs, k + 1, n) > 0 implies q.contains(n) by {
        assert(uses_branches(xs, k + 1, n) == uses_branches(xs, k, n) + uses(xs@[k as int].value, n));
    }
}
pub open spec fn parts_noted(e: Expr, q: Seq<Name>) -> bool {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) => true,
        Expr::Name(n) => q.contains(n),
        Expr::Call(f, xs) => noted_one(*f, q) && noted_list(xs, xs@.len(), q),
        Expr::If(c, t, r) => noted_one(*c, q) && noted_one(*t, q) && noted_one(*r, q),
        Expr::Op(c, _, t) => noted_one(*c, q) && noted_one(*t, q),
        Expr::Intrinsic(_, xs) => noted_list(xs, xs@.len(), q),
        Expr::Construct(_, _, xs) => noted_list(xs, xs@.len(), q),
        Expr::Lambda(_, b) => noted_one(*b, q),
        Expr::Match(d, bs) => noted_one(*d, q) && noted_branches(bs, bs@.len(), q),
        Expr::Let(_, c, t) => noted_one(*c, q) && noted_one(*t, q),
        Expr::LetRec(_, _, c, t) => noted_one(*c, q) && noted_one(*t, q),
        Expr::Pi(_, b) => noted_one(*b, q),
        Expr::PiApply(b, _) => noted_one(*b, q),
    }
}
proof fn all_noted(e: Expr, q: Seq<Name>)
    requires parts_noted(e, q),
    ensures noted_one(e, q),
{
    assert forall|n: Name| #[trigger] uses(e, n) > 0 implies q.contains(n) by {
        match e {
            Expr::Name(_) => {}
            Expr::Call(f, xs) => { assert(uses(*f, n) > 0 || uses_list(xs, xs@.len(), n) > 0); }
            Expr::If(c, t, r) => { assert(uses(*c, n) > 0 || uses(*t, n) > 0 || uses(*r, n) > 0); }
            Expr::Op(c, _, t) => { assert(uses(*c, n) > 0 || uses(*t, n) > 0); }
            Expr::Intrinsic(_, xs) => { assert(uses_list(xs, xs@.len(), n) > 0); }
            Expr::Construct(_, _, xs) => { assert(uses_list(xs, xs@.len(), n) > 0); }
            Expr::Lambda(_, b) => { assert(uses(*b, n) > 0); }
            Expr::Match(d, bs) => { assert(uses(*d, n) > 0 || uses_branches(bs, bs@.len(), n) > 0); }
            Expr::Let(_, c, t) => { assert(uses(*c, n) > 0 || uses(*t, n) > 0); }
            Expr::LetRec(_, _, c, t) => { assert(uses(*c, n) > 0 || uses(*t, n) > 0); }
            Expr::Pi(_, b) => { assert(uses(*b, n) > 0); }
            Expr::PiApply(b, _) => { assert(uses(*b, n) > 0); }
            _ => {}
        }
    }
}
//@ fn ticc/src/codegen/opt/dce.rs mark_used
//@ closure 0
//@ params fn mark_step(e: &Expr, pending: &mut Vec<Name>)
//@ rule mark ( * n ) ==> pending . push ( * n )
    ensures grows(old(pending)@, final(pending)@), *e is Name ==> final(pending)@.contains(e->Name_0),
//@ head
    proof { if *e is Name { pushed(pending@, e->Name_0); } }
//@ end
//@ fn ticc/src/codegen/opt.rs walk_expressions.go
//@ params fn mark_go(expr: &Expr, pending: &mut Vec<Name>)
//@ rule go ( $x , f ) ==> mark_go ( $x , pending )
//@ rule f ( expr ) ==> mark_step ( expr , pending )
    ensures
        noted(*expr, old(pending)@, final(pending)@),
        forall|e: Expr| #[trigger] noted_one(e, old(pending)@) ==> noted_one(e, final(pending)@),
    decreases *expr,
//@ head
    let ghost p0 = pending@;
//@ loop 0
    invariant
        expr is Call, vx_it0.seq().len() == expr->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == expr->Call_1@[k],
        grows(p0, pending@), noted_one(*(expr->Call_0), pending@), noted_list(expr->Call_1, vx_it0.index() as nat, pending@),
//@ loophead 0
    let ghost vx_p = pending@;
    let ghost vx_k = vx_it0.index();
    proof { assert(*b == expr->Call_1@[vx_it0.index() as int]); }
//@ looptail 0
    proof { more_list(expr->Call_1, vx_k as nat, vx_p, pending@); }
//@ loop 1
    invariant
        expr is Intrinsic, vx_it1.seq().len() == expr->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == expr->Intrinsic_1@[k],
        grows(p0, pending@), noted_list(expr->Intrinsic_1, vx_it1.index() as nat, pending@),
//@ loophead 1
    let ghost vx_p = pending@;
    let ghost vx_k = vx_it1.index();
    proof { assert(*b == expr->Intrinsic_1@[vx_it1.index() as int]); }
//@ looptail 1
    proof { more_list(expr->Intrinsic_1, vx_k as nat, vx_p, pending@); }
//@ loop 2
    invariant
        expr is Match, vx_it2.seq().len() == expr->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == expr->Match_1@[k],
        grows(p0, pending@), noted_one(*(expr->Match_0), pending@), noted_branches(expr->Match_1, vx_it2.index() as nat, pending@),
//@ loophead 2
    let ghost vx_p = pending@;
    let ghost vx_k = vx_it2.index();
    proof { assert(*b == expr->Match_1@[vx_it2.index() as int]); }
//@ looptail 2
    proof { more_branches(expr->Match_1, vx_k as nat, vx_p, pending@); }
//@ loop 3
    invariant
        expr is Construct, vx_it3.seq().len() == expr->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == expr->Construct_2@[k],
        grows(p0, pending@), noted_list(expr->Construct_2, vx_it3.index() as nat, pending@),
//@ loophead 3
    let ghost vx_p = pending@;
    let ghost vx_k = vx_it3.index();
    proof { assert(*a == expr->Construct_2@[vx_it3.index() as int]); }
//@ looptail 3
    proof { more_list(expr->Construct_2, vx_k as nat, vx_p, pending@); }
//@ after match expr
    proof {
        assert(grows(p0, pending@));
        assert(parts_noted(*expr, pending@));
        all_noted(*expr, pending@);
        assert forall|n: Name| #[trigger] uses(*expr, n) > 0 implies pending@.contains(n) by {}
        assert forall|e: Expr| #[trigger] noted_one(e, p0) implies noted_one(e, pending@) by {
            assert forall|n: Name| #[trigger] uses(e, n) > 0 implies pending@.contains(n) by { assert(p0.contains(n)); }
        }
    }
//@ end
//@ fn ticc/src/codegen/opt/dce.rs mark_used
//@ params fn mark_used(expr: &Expr, pending: &mut Vec<Name>)
//@ rule opt :: walk_expressions ( expr , | e | $x:rest ) ==> mark_go ( expr , pending )
    ensures noted(*expr, old(pending)@, final(pending)@),
//@ end

// -- lets
/// every name in e is in s
pub open spec fn within(e: Expr, s: Set<Name>) -> bool { forall|n: Name| #[trigger] uses(e, n) > 0 ==> s.contains(n) }
proof fn free_used(e: Expr, x: Name)
    requires fv(e, x),
    ensures uses(e, x) > 0,
    decreases e, 0nat,
{
    match e {
        Expr::Call(f, xs) => { if fv(*f, x) { free_used(*f, x); } else { free_list(xs, xs@.len(), x); } }
        Expr::If(c, t, r) => { if fv(*c, x) { free_used(*c, x); } else if fv(*t, x) { free_used(*t, x); } else { free_used(*r, x); } }
        Expr::Op(a, _, b) => { if fv(*a, x) { free_used(*a, x); } else { free_used(*b, x); } }
        Expr::Intrinsic(_, xs) => { free_list(xs, xs@.len(), x); }
        Expr::Construct(_, _, xs) => { free_list(xs, xs@.len(), x); }
        Expr::Lambda(_, b) => { free_used(*b, x); }
        Expr::Match(d, bs) => { if fv(*d, x) { free_used(*d, x); } else { free_branches(bs, bs@.len(), x); } }
        Expr::Let(_, v, b) => { if fv(*v, x) { free_used(*v, x); } else { free_used(*b, x); } }
        Expr::LetRec(_, _, v, b) => { if fv(*v, x) { free_used(*v, x); } else { free_used(*b, x); } }
        Expr::Pi(_, b) => { free_used(*b, x); }
        Expr::PiApply(b, _) => { free_used(*b, x); }
        _ => {}
    }
}
proof fn free_list(xs: Vec<Expr>, n: nat, x: Name)
    requires fv_list(xs, n, x), n <= xs@.len(),
    ensures uses_list(xs, n, x) > 0,
    decreases xs, n,
{
    if n > 0 { if fv(xs@[n - 1], x) { free_used(xs@[n - 1], x); } else { free_list(xs, (n - 1) as nat, x); } }
}
proof fn free_branches(xs: Vec<Branch>, n: nat, x: Name)
    requires fv_branches(xs, n, x), n <= xs@.len(),
    ensures uses_branches(xs, n, x) > 0,
    decreases xs, n,
{
    if n > 0 { if fv(xs@[n - 1].value, x) { free_used(xs@[n - 1].value, x); } else { free_branches(xs, (n - 1) as nat, x); } }
}
proof fn dropped(e: Expr, s: Set<Name>)
    requires e is Let, within(e, s), !s.contains(e->Let_0),
    ensures keeps(e, *(e->Let_2)), within(*(e->Let_2), s),
{
    let n = e->Let_0;
    let r = *(e->Let_2);
    assert(uses(e, n) == uses(*(e->Let_1), n) + uses(r, n));
    if fv(r, n) { free_used(r, n); }
    assert forall|env: DEnv| #[trigger] den(env, e) == den(env, r) by { weaken(env, n, den(env, *(e->Let_1)), r); }
    assert forall|x: Name| #[trigger] less_at(e, r, x) by {}
    assert forall|m: Name| #[trigger] uses(r, m) > 0 implies s.contains(m) by { assert(uses(e, m) > 0); }
}
//@ fn ticc/src/codegen/opt/dce.rs remove_unused_locals
//@ closure 0
//@ params fn drop_lets(e: &mut Expr, used: &NameSet)
    requires within(*old(e), used@),
    ensures keeps(*old(e), *final(e)), within(*final(e), used@),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost e0 = *e;
    proof { keep_refl(e0); }
//@ loop 0
    invariant keeps(e0, *e), within(*e, used@),
    ensures keeps(e0, *e), within(*e, used@),
//@ loophead 0
    let ghost e1 = *e;
    proof { if e1 is Let && !used@.contains(e1->Let_0) { dropped(e1, used@); keep_trans(e0, e1, *(e1->Let_2)); } }
//@ end
pub open spec fn parts_within(e: Expr, s: Set<Name>) -> bool {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => true,
        Expr::Call(f, args) => within(*f, s) && list_within(args@, s),
        Expr::If(c, t, e) => within(*c, s) && within(*t, s) && within(*e, s),
        Expr::Op(a, _, b) => within(*a, s) && within(*b, s),
        Expr::Intrinsic(_, xs) => list_within(xs@, s),
        Expr::Construct(_, _, xs) => list_within(xs@, s),
        Expr::Lambda(ps, b) => within(*b, s),
        Expr::Match(d, bs) => within(*d, s) && branches_within(bs@, s),
        Expr::Let(n, v, b) => within(*v, s) && within(*b, s),
        Expr::LetRec(n, _, v, b) => within(*v, s) && within(*b, s),
        Expr::Pi(_, b) => within(*b, s),
        Expr::PiApply(b, _) => within(*b, s),
    }
}
pub open spec fn list_within(xs: Seq<Expr>, s: Set<Name>) -> bool { forall|k: int| 0 <= k < xs.len() ==> within(#[trigger] xs[k], s) }
pub open spec fn branches_within(xs: Seq<Branch>, s: Set<Name>) -> bool { forall|k: int| 0 <= k < xs.len() ==> within((#[trigger] xs[k]).value, s) }
proof fn part_within(e: Expr, p: Expr, s: Set<Name>)
    requires within(e, s), forall|n: Name| #[trigger] uses(p, n) <= uses(e, n),
    ensures within(p, s),
{
    assert forall|n: Name| #[trigger] uses(p, n) > 0 implies s.contains(n) by { assert(uses(p, n) <= uses(e, n)); }
}
proof fn list_is_within(e: Expr, xs: Vec<Expr>, s: Set<Name>)
    requires within(e, s), forall|n: Name| #[trigger] uses_list(xs, xs@.len(), n) <= uses(e, n),
    ensures list_within(xs@, s),
{
    assert forall|k: int| 0 <= k < xs@.len() implies within(#[trigger] xs@[k], s) by {
        assert forall|n: Name| #[trigger] uses(xs@[k], n) <= uses(e, n) by { uses_part(xs, xs@.len(), k, n); assert(uses_list(xs, xs@.len(), n) <= uses(e, n)); }
        part_within(e, xs@[k], s);
    }
}
#[verifier::spinoff_prover]
proof fn all_within(e: Expr, s: Set<Name>)
    requires within(e, s),
    ensures parts_within(e, s),
{
    match e {
        Expr::Call(f, xs) => { part_within(e, *f, s); list_is_within(e, xs, s); }
        Expr::If(c, t, r) => { part_within(e, *c, s); part_within(e, *t, s); part_within(e, *r, s); }
        Expr::Op(a, _, b) => { part_within(e, *a, s); part_within(e, *b, s); }
        Expr::Intrinsic(_, xs) => { list_is_within(e, xs, s); }
        Expr::Construct(_, _, xs) => { list_is_within(e, xs, s); }
        Expr::Lambda(_, b) => { part_within(e, *b, s); }
        Expr::Match(d, bs) => {
            part_within(e, *d, s);
            assert forall|k: int| 0 <= k < bs@.len() implies within((#[trigger] bs@[k]).value, s) by {
                assert forall|n: Name| #[trigger] uses(bs@[k].value, n) <= uses(e, n) by { uses_branch(bs, bs@.len(), k, n); }
                part_within(e, bs@[k].value, s);
            }
        }
        Expr::Let(_, v, b) => { part_within(e, *v, s); part_within(e, *b, s); }
        Expr::LetRec(_, _, v, b) => { part_within(e, *v, s); part_within(e, *b, s); }
        Expr::Pi(_, b) => { part_within(e, *b, s); }
        Expr::PiApply(b, _) => { part_within(e, *b, s); }
        _ => {}
    }
}
//@ fn ticc/src/codegen/opt.rs walk_expressions_mut.go
//@ params fn drop_go(expr: &mut Expr, used: &NameSet)
//@ splitor
//@ rule go ( $x , f ) ==> drop_go ( $x , used )
//@ rule f ( expr ) ==> drop_lets ( expr , used )
//@ rule __vx_it_0 ( b ) ==> __vx_it_0 ( b . iter_mut ( ) )
//@ rule __vx_it_1 ( b ) ==> __vx_it_1 ( b . iter_mut ( ) )
//@ rule __vx_it_2 ( bs ) ==> __vx_it_2 ( bs . iter_mut ( ) )
//@ rule __vx_it_3 ( xs ) ==> __vx_it_3 ( xs . iter_mut ( ) )
    requires within(*old(expr), used@),
    ensures keeps(*old(expr), *final(expr)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost vx_e = *expr;
//@ after f ( expr )
    let ghost e0 = *expr;
    proof { all_within(e0, used@); }
//@ loop 0
    invariant
        e0 is Call, list_within(e0->Call_1@, used@),
        vx_it0.seq().len() == e0->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e0->Call_1@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> keeps(e0->Call_1@[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*b == e0->Call_1@[vx_it0.index() as int]); }
//@ loop 1
    invariant
        e0 is Intrinsic, list_within(e0->Intrinsic_1@, used@),
        vx_it1.seq().len() == e0->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == e0->Intrinsic_1@[k],
        forall|k: int| 0 <= k < vx_it1.index() ==> keeps(e0->Intrinsic_1@[k], *final(#[trigger] vx_it1.seq()[k])),
//@ loophead 1
    proof { assert(*b == e0->Intrinsic_1@[vx_it1.index() as int]); }
//@ loop 2
    invariant
        e0 is Match, branches_within(e0->Match_1@, used@),
        vx_it2.seq().len() == e0->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == e0->Match_1@[k],
        forall|k: int| 0 <= k < vx_it2.index() ==> keep_branch(e0->Match_1@[k], *final(#[trigger] vx_it2.seq()[k])),
//@ loophead 2
    proof { assert(*b == e0->Match_1@[vx_it2.index() as int]); }
//@ loop 3
    invariant
        e0 is Construct, list_within(e0->Construct_2@, used@),
        vx_it3.seq().len() == e0->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == e0->Construct_2@[k],
        forall|k: int| 0 <= k < vx_it3.index() ==> keeps(e0->Construct_2@[k], *final(#[trigger] vx_it3.seq()[k])),
//@ loophead 3
    proof { assert(*a == e0->Construct_2@[vx_it3.index() as int]); }
//@ after match expr
    proof { cong(e0, *expr); keep_trans(vx_e, e0, *expr); }
//@ end
//@ fn ticc/src/codegen/opt/dce.rs remove_unused_locals
//@ params fn remove_unused_locals(expr: &mut Expr, used: &NameSet)
//@ rule walk_expressions_mut ( expr , | e | $x:rest ) ==> drop_go ( expr , used )
    requires within(*old(expr), used@),
    ensures keeps(*old(expr), *final(expr)),
//@ end

// -- definitions
/// no two definitions have one name, and no expression binds it
pub open spec fn tops_apart(ds: Seq<ValueDef>) -> bool {
    (forall|i: int, j: int| 0 <= i < ds.len() && 0 <= j < ds.len() ==> bc((#[trigger] ds[i]).value, (#[trigger] ds[j]).name) == 0)
    && (forall|i: int, j: int| 0 <= i < j < ds.len() ==> (#[trigger] ds[i]).name != (#[trigger] ds[j]).name)
}
/// what is needed: the exported definitions, and with a definition all that it names
pub open spec fn closed(ds: Seq<ValueDef>, used: Set<Name>) -> bool {
    (forall|k: int| 0 <= k < ds.len() ==> (#[trigger] ds[k]).export_name is Some ==> used.contains(ds[k].name))
    && (forall|k: int| 0 <= k < ds.len() ==> used.contains((#[trigger] ds[k]).name) ==> within(ds[k].value, used))
}
pub open spec fn needed(ds: Seq<ValueDef>, used: Set<Name>) -> Seq<ValueDef> { ds.filter(|d: ValueDef| used.contains(d.name)) }
/// only definitions that nothing needs have gone
pub open spec fn cleaned(a: Seq<ValueDef>, b: Seq<ValueDef>) -> bool {
    exists|used: Set<Name>| closed(a, used) && #[trigger] keep_defs(needed(a, used), b)
}
fn vx_pop(v: &mut Vec<Name>) -> (r: Option<Name>)
    ensures match r {
        Some(n) => forall|m: Name| #[trigger] old(v)@.contains(m) ==> m == n || final(v)@.contains(m),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@,
    }
{
    let ghost s = v@;
    let r = v.pop();
    proof {
        if s.len() > 0 {
            assert forall|m: Name| #[trigger] s.contains(m) implies m == s.last() || v@.contains(m) by {
                let i = s.index_of(m);
                if i < s.len() - 1 { assert(v@[i] == m); }
            }
        }
    }
    r
}
#[verifier::external_body]
fn vx_retain(ds: &mut Vec<ValueDef>, used: &NameSet)
    ensures final(ds)@ == needed(old(ds)@, used@)
{ unimplemented!() }
proof fn needed_from(ds: Seq<ValueDef>, used: Set<Name>)
    ensures forall|k: int| 0 <= k < needed(ds, used).len() ==> used.contains((#[trigger] needed(ds, used)[k]).name) && ds.contains(needed(ds, used)[k]),
{
    let f = |d: ValueDef| used.contains(d.name);
    assert forall|k: int| 0 <= k < needed(ds, used).len() implies used.contains((#[trigger] needed(ds, used)[k]).name) && ds.contains(needed(ds, used)[k]) by {
        ds.lemma_filter_contains_rev(f, needed(ds, used)[k]);
        ds.filter_lemma(f);
        assert(f(needed(ds, used)[k]));
    }
}
//@ fn ticc/src/codegen/opt/dce.rs optimize
//@ rule HashSet :: new ( ) ==> NameSet :: new ( )
//@ rule HashMap :: new ( ) ==> DefMap :: new ( )
//@ rule opt :: walk_expressions ( & v . value , | e | $x:rest ) ==> note_go ( & v . value , & mut all_defs )
//@ rule mark_used ( value , & mut | name | { pending . push ( name ) ; } ) ==> mark_used ( value , & mut pending )
//@ rule pending . pop ( ) ==> vx_pop ( & mut pending )
//@ rule program . defs . retain ( | n | used . contains ( & n . name ) ) ==> vx_retain ( & mut program . defs , & used )
    requires tops_apart(old(program).defs@),
    ensures cleaned(old(program).defs@, final(program).defs@),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost d0 = program.defs@;
//@ loop 0
    invariant
        program.defs@ == d0, vx_it0.seq().len() == d0.len(),
        forall|k: int| 0 <= k < d0.len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> (#[trigger] d0[k]).export_name is Some ==> pending@.contains(d0[k].name),
//@ loophead 0
    proof { assert(*value == d0[vx_it0.index() as int]); pushed(pending@, value.name); }
//@ loop 1
    invariant
        program.defs@ == d0, tops_apart(d0), vx_it1.seq().len() == d0.len(),
        forall|k: int| 0 <= k < d0.len() ==> *(#[trigger] vx_it1.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it1.index() ==> all_defs@.contains_key((#[trigger] d0[k]).name) && all_defs@[d0[k].name] == d0[k].value,
//@ loophead 1
    proof { assert(*v == d0[vx_it1.index() as int]); }
//@ loop 2
    invariant
        program.defs@ == d0,
        forall|k: int| 0 <= k < d0.len() ==> all_defs@.contains_key((#[trigger] d0[k]).name) && all_defs@[d0[k].name] == d0[k].value,
        forall|k: int| 0 <= k < d0.len() ==> (#[trigger] d0[k]).export_name is Some ==> used@.contains(d0[k].name) || pending@.contains(d0[k].name),
        forall|k: int, n: Name| 0 <= k < d0.len() && used@.contains(d0[k].name) && #[trigger] uses(d0[k].value, n) > 0 ==> used@.contains(n) || pending@.contains(n),
    ensures
        pending@.len() == 0,
//@ before if ! used . insert
    let ghost u0 = used@;
    proof {
        assert forall|k: int| 0 <= k < d0.len() implies (#[trigger] d0[k]).export_name is Some ==> u0.contains(d0[k].name) || name == d0[k].name || pending@.contains(d0[k].name) by {}
        assert forall|k: int, n: Name| 0 <= k < d0.len() && u0.contains(d0[k].name) && #[trigger] uses(d0[k].value, n) > 0 implies u0.contains(n) || name == n || pending@.contains(n) by {}
    }
//@ before program . defs . retain
    proof {
        assert forall|n: Name| !(#[trigger] pending@.contains(n)) by {}
        assert forall|k: int| 0 <= k < d0.len() implies used@.contains((#[trigger] d0[k]).name) ==> within(d0[k].value, used@) by {
            if used@.contains(d0[k].name) {
                assert forall|n: Name| #[trigger] uses(d0[k].value, n) > 0 implies used@.contains(n) by { assert(!pending@.contains(n)); }
            }
        }
        assert forall|k: int| 0 <= k < d0.len() implies (#[trigger] d0[k]).export_name is Some ==> used@.contains(d0[k].name) by { assert(!pending@.contains(d0[k].name)); }
        assert(closed(d0, used@));
        needed_from(d0, used@);
    }
    let ghost d1 = needed(d0, used@);
    proof {
        assert forall|b: Seq<ValueDef>| keep_defs(d1, b) implies #[trigger] cleaned(d0, b) by { assert(closed(d0, used@) && keep_defs(needed(d0, used@), b)); }
        assert forall|k: int| 0 <= k < d1.len() implies within((#[trigger] d1[k]).value, used@) by { let j = d0.index_of(d1[k]); assert(d0[j] == d1[k]); }
    }
//@ loop 3
    invariant
        vx_it3.seq().len() == d1.len(),
        forall|k: int| 0 <= k < d1.len() ==> within((#[trigger] d1[k]).value, used@),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == d1[k],
        forall|k: int| 0 <= k < vx_it3.index() ==> keep_def(d1[k], *final(#[trigger] vx_it3.seq()[k])),
//@ loophead 3
    proof { assert(*v == d1[vx_it3.index() as int]); }
//@ end
}
// ---- inline: a copy of an expression with new names for its binders --------------------------
pub mod inline { use super::*;
//@ rule Expr :: String ( s . clone ( ) ) ==> Expr :: String ( vx_clone_str ( s ) )
#[verifier::external_body]
fn vx_clone_str(s: &ByteString) -> (r: ByteString) ensures r == *s { unimplemented!() }
pub type Ren = Map<Name, Name>;
/// what a name is called in the copy
pub open spec fn rn(m: Ren, x: Name) -> Name { if m.contains_key(x) { m[x] } else { x } }
pub open spec fn rns(m: Ren, s: Seq<Name>) -> Seq<Name> { Seq::new(s.len(), |i: int| rn(m, s[i])) }
/// r is e under other names
pub open spec fn ren(e: Expr, r: Expr, m: Ren) -> bool decreases e, 0nat {
    match (e, r) {
        (Expr::Bool(a), Expr::Bool(b)) => a == b,
        (Expr::Int(a), Expr::Int(b)) => a == b,
        (Expr::String(a), Expr::String(b)) => a == b,
        (Expr::Trap(_, _), Expr::Trap(_, _)) => true,
        (Expr::Name(a), Expr::Name(b)) => b == rn(m, a),
        (Expr::Call(f, xs), Expr::Call(g, ys)) => ren(*f, *g, m) && xs@.len() == ys@.len() && ren_list(xs, ys@, xs@.len(), m),
        (Expr::If(a, b, c), Expr::If(x, y, z)) => ren(*a, *x, m) && ren(*b, *y, m) && ren(*c, *z, m),
        (Expr::Op(a, o, b), Expr::Op(x, p, y)) => o == p && ren(*a, *x, m) && ren(*b, *y, m),
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => i == j && xs@.len() == ys@.len() && ren_list(xs, ys@, xs@.len(), m),
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => c == d && xs@.len() == ys@.len() && ren_list(xs, ys@, xs@.len(), m),
        (Expr::Lambda(ps, b), Expr::Lambda(qs, c)) => param_names(qs@) == rns(m, param_names(ps@)) && ren(*b, *c, m),
        (Expr::Match(d, bs), Expr::Match(g, cs)) => ren(*d, *g, m) && bs@.len() == cs@.len() && ren_branches(bs, cs@, bs@.len(), m),
        (Expr::Let(n, v, b), Expr::Let(k, w, c)) => k == rn(m, n) && ren(*v, *w, m) && ren(*b, *c, m),
        (Expr::LetRec(n, _, v, b), Expr::LetRec(k, _, w, c)) => k == rn(m, n) && ren(*v, *w, m) && ren(*b, *c, m),
        (Expr::Pi(_, b), Expr::Pi(_, c)) => ren(*b, *c, m),
        (Expr::PiApply(b, _), Expr::PiApply(c, _)) => ren(*b, *c, m),
        _ => false,
    }
}
pub open spec fn ren_list(xs: Vec<Expr>, ys: Seq<Expr>, n: nat, m: Ren) -> bool decreases xs, n {
    if n == 0 || n > xs@.len() { true } else { ren_list(xs, ys, (n - 1) as nat, m) && ren(xs@[n - 1], ys[n - 1], m) }
}
pub open spec fn ren_branches(bs: Vec<Branch>, cs: Seq<Branch>, n: nat, m: Ren) -> bool decreases bs, n {
    if n == 0 || n > bs@.len() { true } else {
        ren_branches(bs, cs, (n - 1) as nat, m) && bs@[n - 1].ctor == cs[n - 1].ctor
        && cs[n - 1].bindings@ == rns(m, bs@[n - 1].bindings@) && ren(bs@[n - 1].value, cs[n - 1].value, m)
    }
}
proof fn ren_at(xs: Vec<Expr>, ys: Seq<Expr>, n: nat, m: Ren, k: int)
    requires ren_list(xs, ys, n, m), 0 <= k < n <= xs@.len(),
    ensures ren(xs@[k], ys[k], m),
    decreases n,
{
    if k < n - 1 { ren_at(xs, ys, (n - 1) as nat, m, k); }
}
proof fn ren_branch_at(bs: Vec<Branch>, cs: Seq<Branch>, n: nat, m: Ren, k: int)
    requires ren_branches(bs, cs, n, m), 0 <= k < n <= bs@.len(),
    ensures bs@[k].ctor == cs[k].ctor, cs[k].bindings@ == rns(m, bs@[k].bindings@), ren(bs@[k].value, cs[k].value, m),
    decreases n,
{
    if k < n - 1 { ren_branch_at(bs, cs, (n - 1) as nat, m, k); }
}
/// the names of an expression
pub open spec fn occ(e: Expr, x: Name) -> bool { fv(e, x) || bc(e, x) > 0 }
pub open spec fn alike(e: Expr, m: Ren, k: Ren) -> bool { forall|x: Name| #[trigger] occ(e, x) ==> rn(m, x) == rn(k, x) }
proof fn alike_part(e: Expr, p: Expr, m: Ren, k: Ren)
    requires alike(e, m, k), forall|x: Name| #[trigger] occ(p, x) ==> occ(e, x),
    ensures alike(p, m, k),
{}
proof fn alike_names(s: Seq<Name>, m: Ren, k: Ren)
    requires forall|i: int| 0 <= i < s.len() ==> rn(m, #[trigger] s[i]) == rn(k, s[i]),
    ensures rns(m, s) == rns(k, s),
{
    assert(rns(m, s) =~= rns(k, s));
}
proof fn list_occ(xs: Vec<Expr>, k: int, x: Name)
    requires 0 <= k < xs@.len(), occ(xs@[k], x),
    ensures fv_list(xs, xs@.len(), x) || bc_list(xs, xs@.len(), x) > 0,
{
    list_part(xs, xs@.len(), k, x);
}
proof fn branch_occ(bs: Vec<Branch>, k: int, x: Name)
    requires 0 <= k < bs@.len(), occ(bs@[k].value, x) || bs@[k].bindings@.contains(x),
    ensures fv_branches(bs, bs@.len(), x) || bc_branches(bs, bs@.len(), x) > 0,
{
    branch_part(bs, bs@.len(), k, x);
    times_in(bs@[k].bindings@, x);
}
/// the names of the parts are names of the whole
#[verifier::spinoff_prover]
proof fn occ_parts(e: Expr)
    ensures
        forall|x: Name| #![trigger occ(e, x)] match e {
            Expr::Call(f, xs) => (occ(*f, x) ==> occ(e, x)) && (fv_list(xs, xs@.len(), x) || bc_list(xs, xs@.len(), x) > 0 ==> occ(e, x)),
            Expr::If(a, b, c) => occ(*a, x) || occ(*b, x) || occ(*c, x) ==> occ(e, x),
            Expr::Op(a, _, b) => occ(*a, x) || occ(*b, x) ==> occ(e, x),
            Expr::Intrinsic(_, xs) => fv_list(xs, xs@.len(), x) || bc_list(xs, xs@.len(), x) > 0 ==> occ(e, x),
            Expr::Construct(_, _, xs) => fv_list(xs, xs@.len(), x) || bc_list(xs, xs@.len(), x) > 0 ==> occ(e, x),
            Expr::Lambda(ps, b) => occ(*b, x) || param_names(ps@).contains(x) ==> occ(e, x),
            Expr::Match(d, bs) => occ(*d, x) || fv_branches(bs, bs@.len(), x) || bc_branches(bs, bs@.len(), x) > 0 ==> occ(e, x),
            Expr::Let(n, v, b) => occ(*v, x) || occ(*b, x) || n == x ==> occ(e, x),
            Expr::LetRec(n, _, v, b) => occ(*v, x) || occ(*b, x) || n == x ==> occ(e, x),
            Expr::Pi(_, b) => occ(*b, x) ==> occ(e, x),
            Expr::PiApply(b, _) => occ(*b, x) ==> occ(e, x),
            _ => true,
        },
{
    match e {
        Expr::Lambda(ps, b) => {
            assert forall|x: Name| #![trigger occ(e, x)] occ(*b, x) || param_names(ps@).contains(x) ==> occ(e, x) by { times_in(param_names(ps@), x); }
        }
        _ => {}
    }
}
#[verifier::spinoff_prover]
proof fn ren_alike(e: Expr, r: Expr, m: Ren, k: Ren)
    requires ren(e, r, m), alike(e, m, k),
    ensures ren(e, r, k),
    decreases e, 0nat,
{
    occ_parts(e);
    match (e, r) {
        (Expr::Name(a), Expr::Name(b)) => { assert(occ(e, a)); }
        (Expr::Call(f, xs), Expr::Call(g, ys)) => { ren_alike_in(e, *f, *g, m, k); ren_alike_list(e, xs, ys@, xs@.len(), m, k); }
        (Expr::If(a, b, c), Expr::If(x, y, z)) => { ren_alike_in(e, *a, *x, m, k); ren_alike_in(e, *b, *y, m, k); ren_alike_in(e, *c, *z, m, k); }
        (Expr::Op(a, o, b), Expr::Op(x, p, y)) => { ren_alike_in(e, *a, *x, m, k); ren_alike_in(e, *b, *y, m, k); }
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => { ren_alike_list(e, xs, ys@, xs@.len(), m, k); }
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => { ren_alike_list(e, xs, ys@, xs@.len(), m, k); }
        (Expr::Lambda(ps, b), Expr::Lambda(qs, c)) => {
            let s = param_names(ps@);
            assert forall|i: int| 0 <= i < s.len() implies rn(m, #[trigger] s[i]) == rn(k, s[i]) by { assert(s.contains(s[i])); assert(occ(e, s[i])); }
            alike_names(s, m, k);
            ren_alike_in(e, *b, *c, m, k);
        }
        (Expr::Match(d, bs), Expr::Match(g, cs)) => { ren_alike_in(e, *d, *g, m, k); ren_alike_branches(e, bs, cs@, bs@.len(), m, k); }
        (Expr::Let(n, v, b), Expr::Let(j, w, c)) => { assert(occ(e, n)); ren_alike_in(e, *v, *w, m, k); ren_alike_in(e, *b, *c, m, k); }
        (Expr::LetRec(n, _, v, b), Expr::LetRec(j, _, w, c)) => { assert(occ(e, n)); ren_alike_in(e, *v, *w, m, k); ren_alike_in(e, *b, *c, m, k); }
        (Expr::Pi(_, b), Expr::Pi(_, c)) => { ren_alike_in(e, *b, *c, m, k); }
        (Expr::PiApply(b, _), Expr::PiApply(c, _)) => { ren_alike_in(e, *b, *c, m, k); }
        _ => {}
    }
}
proof fn ren_alike_in(e: Expr, p: Expr, r: Expr, m: Ren, k: Ren)
    requires ren(p, r, m), alike(e, m, k), forall|x: Name| #![trigger occ(e, x)] occ(p, x) ==> occ(e, x),
    ensures ren(p, r, k),
    decreases p, 1nat,
{
    assert forall|x: Name| #[trigger] occ(p, x) implies rn(m, x) == rn(k, x) by { assert(occ(e, x)); }
    ren_alike(p, r, m, k);
}
proof fn ren_alike_list(e: Expr, xs: Vec<Expr>, ys: Seq<Expr>, n: nat, m: Ren, k: Ren)
    requires ren_list(xs, ys, n, m), alike(e, m, k), n <= xs@.len(), forall|x: Name| #![trigger occ(e, x)] fv_list(xs, xs@.len(), x) || bc_list(xs, xs@.len(), x) > 0 ==> occ(e, x),
    ensures ren_list(xs, ys, n, k),
    decreases xs, n,
{
    if n > 0 {
        ren_alike_list(e, xs, ys, (n - 1) as nat, m, k);
        assert forall|x: Name| #![trigger occ(e, x)] occ(xs@[n - 1], x) implies occ(e, x) by { list_occ(xs, n - 1, x); }
        ren_alike_in(e, xs@[n - 1], ys[n - 1], m, k);
    }
}
proof fn ren_alike_branches(e: Expr, bs: Vec<Branch>, cs: Seq<Branch>, n: nat, m: Ren, k: Ren)
    requires ren_branches(bs, cs, n, m), alike(e, m, k), n <= bs@.len(), forall|x: Name| #![trigger occ(e, x)] fv_branches(bs, bs@.len(), x) || bc_branches(bs, bs@.len(), x) > 0 ==> occ(e, x),
    ensures ren_branches(bs, cs, n, k),
    decreases bs, n,
{
    if n > 0 {
        ren_alike_branches(e, bs, cs, (n - 1) as nat, m, k);
        let b = bs@[n - 1];
        assert forall|i: int| 0 <= i < b.bindings@.len() implies rn(m, #[trigger] b.bindings@[i]) == rn(k, b.bindings@[i]) by {
            assert(b.bindings@.contains(b.bindings@[i]));
            branch_occ(bs, n - 1, b.bindings@[i]);
            assert(occ(e, b.bindings@[i]));
        }
        alike_names(b.bindings@, m, k);
        assert forall|x: Name| #![trigger occ(e, x)] occ(b.value, x) implies occ(e, x) by { branch_occ(bs, n - 1, x); }
        ren_alike_in(e, b.value, cs[n - 1].value, m, k);
    }
}

// -- renaming apart keeps the meaning
/// different names stay different
pub open spec fn apart(e: Expr, m: Ren) -> bool { forall|x: Name, y: Name| #[trigger] occ(e, x) && #[trigger] occ(e, y) && x != y ==> rn(m, x) != rn(m, y) }
pub open spec fn tied(e1: DEnv, e2: DEnv, m: Ren, e: Expr) -> bool { forall|x: Name| #[trigger] fv(e, x) ==> look(e2, rn(m, x)) == look(e1, x) }
proof fn bind_tied(e1: DEnv, e2: DEnv, names: Seq<Name>, vals: Seq<D>, n: nat, m: Ren, x: Name)
    requires
        n <= names.len(), look(e2, rn(m, x)) == look(e1, x) || names.take(n as int).contains(x),
        forall|i: int| 0 <= i < names.len() && #[trigger] names[i] != x ==> rn(m, names[i]) != rn(m, x),
    ensures look(bind_all(e2, rns(m, names), vals, n), rn(m, x)) == look(bind_all(e1, names, vals, n), x),
    decreases n,
{
    if n == 0 {
        assert(names.take(0) =~= Seq::empty());
        assert(!Seq::<Name>::empty().contains(x));
    } else if names[n - 1] != x {
        if names.take(n as int).contains(x) {
            let i = names.take(n as int).index_of(x);
            assert(names.take(n as int)[i] == x);
            assert(names.take(n - 1)[i] == x);
        }
        bind_tied(e1, e2, names, vals, (n - 1) as nat, m, x);
        assert(rns(m, names)[n - 1] == rn(m, names[n - 1]));
    } else {
        assert(rns(m, names)[n - 1] == rn(m, x));
    }
}
proof fn same_find(bs: Vec<Branch>, cs: Vec<Branch>, m: Ren, c: Name, i: nat)
    requires bs@.len() == cs@.len(), ren_branches(bs, cs@, bs@.len(), m), i <= bs@.len(),
    ensures find_branch(bs@, c, i) == find_branch(cs@, c, i),
    decreases bs@.len() - i,
{
    if i < bs@.len() { ren_branch_at(bs, cs@, bs@.len(), m, i as int); same_find(bs, cs, m, c, i + 1); }
}
#[verifier::spinoff_prover]
proof fn renamed(e1: DEnv, e2: DEnv, e: Expr, r: Expr, m: Ren)
    requires ren(e, r, m), apart(e, m), tied(e1, e2, m, e),
    ensures den(e1, e) == den(e2, r),
    decreases e, 0nat,
{
    occ_parts(e);
    match (e, r) {
        (Expr::Name(a), Expr::Name(b)) => { assert(fv(e, a)); }
        (Expr::Call(f, xs), Expr::Call(g, ys)) => { renamed_in(e1, e2, e, *f, *g, m); renamed_list(e1, e2, e, xs, ys, xs@.len(), m); }
        (Expr::If(a, b, c), Expr::If(x, y, z)) => { renamed_in(e1, e2, e, *a, *x, m); renamed_in(e1, e2, e, *b, *y, m); renamed_in(e1, e2, e, *c, *z, m); }
        (Expr::Op(a, o, b), Expr::Op(x, p, y)) => { renamed_in(e1, e2, e, *a, *x, m); renamed_in(e1, e2, e, *b, *y, m); }
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => { renamed_list(e1, e2, e, xs, ys, xs@.len(), m); }
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => { renamed_list(e1, e2, e, xs, ys, xs@.len(), m); }
        (Expr::Lambda(ps, b), Expr::Lambda(qs, c)) => {
            let names = param_names(ps@);
            let f = lam_fn(e1, names, *b);
            let g = lam_fn(e2, param_names(qs@), *c);
            assert(param_names(qs@).len() == names.len());
            assert forall|vs: Seq<D>| #[trigger] f(vs) == g(vs) by {
                renamed_under(e1, e2, e, names, vs, *b, *c, m);
            }
            assert(f =~= g);
        }
        (Expr::Match(d, bs), Expr::Match(g, cs)) => {
            renamed_in(e1, e2, e, *d, *g, m);
            match den(e1, *d) {
                D::Comp(c, vs) => {
                    same_find(bs, cs, m, c, 0);
                    let i = find_branch(bs@, c, 0);
                    if i < bs@.len() {
                        ren_branch_at(bs, cs@, bs@.len(), m, i as int);
                        let br = bs@[i as int];
                        assert forall|x: Name| #![trigger occ(e, x)] occ(br.value, x) || br.bindings@.contains(x) implies occ(e, x) by { branch_occ(bs, i as int, x); }
                        assert forall|x: Name| #[trigger] fv(br.value, x) && !br.bindings@.contains(x) implies fv(e, x) by { branch_part(bs, bs@.len(), i as int, x); }
                        renamed_under(e1, e2, e, br.bindings@, vs, br.value, cs@[i as int].value, m);
                    }
                }
                _ => {}
            }
        }
        (Expr::Let(n, v, b), Expr::Let(k, w, c)) => {
            renamed_in(e1, e2, e, *v, *w, m);
            renamed_one(e1, e2, e, n, den(e1, *v), *b, *c, m);
        }
        (Expr::LetRec(n, _, v, b), Expr::LetRec(k, _, w, c)) => {
            let f = rec_fn(e1, n, *v);
            let g = rec_fn(e2, k, *w);
            assert forall|x: D| #[trigger] f(x) == g(x) by { renamed_one(e1, e2, e, n, x, *v, *w, m); }
            assert(f =~= g);
            renamed_one(e1, e2, e, n, lfp(f), *b, *c, m);
        }
        (Expr::Pi(_, b), Expr::Pi(_, c)) => { renamed_in(e1, e2, e, *b, *c, m); }
        (Expr::PiApply(b, _), Expr::PiApply(c, _)) => { renamed_in(e1, e2, e, *b, *c, m); }
        _ => {}
    }
}
proof fn apart_part(e: Expr, p: Expr, m: Ren)
    requires apart(e, m), forall|x: Name| #![trigger occ(e, x)] occ(p, x) ==> occ(e, x),
    ensures apart(p, m),
{
    assert forall|x: Name, y: Name| #[trigger] occ(p, x) && #[trigger] occ(p, y) && x != y implies rn(m, x) != rn(m, y) by { assert(occ(e, x)); assert(occ(e, y)); }
}
proof fn renamed_in(e1: DEnv, e2: DEnv, e: Expr, p: Expr, r: Expr, m: Ren)
    requires ren(p, r, m), apart(e, m), tied(e1, e2, m, e), forall|x: Name| #![trigger occ(e, x)] occ(p, x) ==> occ(e, x), forall|x: Name| #[trigger] fv(p, x) ==> fv(e, x),
    ensures den(e1, p) == den(e2, r),
    decreases p, 1nat,
{
    apart_part(e, p, m);
    renamed(e1, e2, p, r, m);
}
proof fn renamed_one(e1: DEnv, e2: DEnv, e: Expr, n: Name, v: D, p: Expr, r: Expr, m: Ren)
    requires ren(p, r, m), apart(e, m), tied(e1, e2, m, e), occ(e, n), forall|x: Name| #![trigger occ(e, x)] occ(p, x) ==> occ(e, x), forall|x: Name| #[trigger] fv(p, x) && x != n ==> fv(e, x),
    ensures den(e1.insert(n, v), p) == den(e2.insert(rn(m, n), v), r),
    decreases p, 1nat,
{
    apart_part(e, p, m);
    let t1 = e1.insert(n, v);
    let t2 = e2.insert(rn(m, n), v);
    assert forall|x: Name| #[trigger] fv(p, x) implies look(t2, rn(m, x)) == look(t1, x) by {
        if x != n { assert(fv(e, x)); assert(occ(e, x)); }
    }
    renamed(t1, t2, p, r, m);
}
proof fn renamed_under(e1: DEnv, e2: DEnv, e: Expr, names: Seq<Name>, vals: Seq<D>, p: Expr, r: Expr, m: Ren)
    requires
        ren(p, r, m), apart(e, m), tied(e1, e2, m, e),
        forall|x: Name| #![trigger occ(e, x)] occ(p, x) || names.contains(x) ==> occ(e, x), forall|x: Name| #[trigger] fv(p, x) && !names.contains(x) ==> fv(e, x),
    ensures den(bind_all(e1, names, vals, names.len()), p) == den(bind_all(e2, rns(m, names), vals, names.len()), r),
    decreases p, 1nat,
{
    apart_part(e, p, m);
    let t1 = bind_all(e1, names, vals, names.len());
    let t2 = bind_all(e2, rns(m, names), vals, names.len());
    assert(names.take(names.len() as int) =~= names);
    assert forall|x: Name| #[trigger] fv(p, x) implies look(t2, rn(m, x)) == look(t1, x) by {
        assert(occ(p, x));
        assert(occ(e, x));
        assert forall|i: int| 0 <= i < names.len() && #[trigger] names[i] != x implies rn(m, names[i]) != rn(m, x) by { assert(names.contains(names[i])); assert(occ(e, names[i])); }
        if !names.contains(x) { assert(fv(e, x)); }
        bind_tied(e1, e2, names, vals, names.len(), m, x);
    }
    renamed(t1, t2, p, r, m);
}
proof fn renamed_list(e1: DEnv, e2: DEnv, e: Expr, xs: Vec<Expr>, ys: Vec<Expr>, n: nat, m: Ren)
    requires
        ren_list(xs, ys@, n, m), apart(e, m), tied(e1, e2, m, e), n <= xs@.len(), ys@.len() == xs@.len(),
        forall|x: Name| #![trigger occ(e, x)] fv_list(xs, xs@.len(), x) || bc_list(xs, xs@.len(), x) > 0 ==> occ(e, x),
        forall|x: Name| #[trigger] fv_list(xs, xs@.len(), x) ==> fv(e, x),
    ensures den_list(e1, xs, n) == den_list(e2, ys, n),
    decreases xs, n,
{
    if n > 0 {
        renamed_list(e1, e2, e, xs, ys, (n - 1) as nat, m);
        assert forall|x: Name| #![trigger occ(e, x)] occ(xs@[n - 1], x) implies occ(e, x) by { list_occ(xs, n - 1, x); }
        assert forall|x: Name| #[trigger] fv(xs@[n - 1], x) implies fv(e, x) by { list_part(xs, xs@.len(), n - 1, x); }
        renamed_in(e1, e2, e, xs@[n - 1], ys@[n - 1], m);
    }
}
// -- a renaming apart gives what it binds names of their own
pub open spec fn meets(p: Expr, m: Ren, y: Name, w: Option<Name>) -> bool { forall|z: Name| #[trigger] occ(p, z) ==> (rn(m, z) == y) == (w == Some(z)) }
pub open spec fn bcw(p: Expr, w: Option<Name>) -> nat { match w { Some(x) => bc(p, x), None => 0 } }
pub open spec fn fvw(p: Expr, w: Option<Name>) -> bool { match w { Some(x) => fv(p, x), None => false } }
proof fn meets_part(e: Expr, p: Expr, m: Ren, y: Name, w: Option<Name>)
    requires meets(e, m, y, w), forall|x: Name| #![trigger occ(e, x)] occ(p, x) ==> occ(e, x),
    ensures meets(p, m, y, w),
{
    assert forall|z: Name| #[trigger] occ(p, z) implies (rn(m, z) == y) == (w == Some(z)) by { assert(occ(e, z)); }
}
proof fn times_ren(s: Seq<Name>, m: Ren, y: Name, w: Option<Name>)
    requires forall|i: int| 0 <= i < s.len() ==> (rn(m, #[trigger] s[i]) == y) == (w == Some(s[i])),
    ensures times(rns(m, s), y) == match w { Some(x) => times(s, x), None => 0 },
    decreases s.len(),
{
    if s.len() > 0 {
        assert(rns(m, s).drop_last() =~= rns(m, s.drop_last()));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (rn(m, #[trigger] s.drop_last()[i]) == y) == (w == Some(s.drop_last()[i])) by { assert(s.drop_last()[i] == s[i]); }
        times_ren(s.drop_last(), m, y, w);
        assert(s.last() == s[s.len() - 1]);
        assert(rns(m, s).last() == rn(m, s.last()));
    }
}
proof fn contains_ren(s: Seq<Name>, m: Ren, y: Name, w: Option<Name>)
    requires forall|i: int| 0 <= i < s.len() ==> (rn(m, #[trigger] s[i]) == y) == (w == Some(s[i])),
    ensures rns(m, s).contains(y) == match w { Some(x) => s.contains(x), None => false },
{
    times_ren(s, m, y, w);
    times_in(rns(m, s), y);
    match w { Some(x) => { times_in(s, x); } None => {} }
}
#[verifier::spinoff_prover]
proof fn counts(e: Expr, r: Expr, m: Ren, y: Name, w: Option<Name>)
    requires ren(e, r, m), meets(e, m, y, w),
    ensures bc(r, y) == bcw(e, w), fv(r, y) == fvw(e, w),
    decreases e, 0nat,
{
    occ_parts(e);
    match (e, r) {
        (Expr::Name(a), Expr::Name(b)) => { assert(occ(e, a)); }
        (Expr::Call(f, xs), Expr::Call(g, ys)) => { counts_in(e, *f, *g, m, y, w); counts_list(e, xs, ys, xs@.len(), m, y, w); }
        (Expr::If(a, b, c), Expr::If(p, q, s)) => { counts_in(e, *a, *p, m, y, w); counts_in(e, *b, *q, m, y, w); counts_in(e, *c, *s, m, y, w); }
        (Expr::Op(a, o, b), Expr::Op(p, _, q)) => { counts_in(e, *a, *p, m, y, w); counts_in(e, *b, *q, m, y, w); }
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => { counts_list(e, xs, ys, xs@.len(), m, y, w); }
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => { counts_list(e, xs, ys, xs@.len(), m, y, w); }
        (Expr::Lambda(ps, b), Expr::Lambda(qs, c)) => {
            let s = param_names(ps@);
            assert forall|i: int| 0 <= i < s.len() implies (rn(m, #[trigger] s[i]) == y) == (w == Some(s[i])) by { assert(s.contains(s[i])); assert(occ(e, s[i])); }
            times_ren(s, m, y, w);
            contains_ren(s, m, y, w);
            counts_in(e, *b, *c, m, y, w);
        }
        (Expr::Match(d, bs), Expr::Match(g, cs)) => { counts_in(e, *d, *g, m, y, w); counts_branches(e, bs, cs, bs@.len(), m, y, w); }
        (Expr::Let(n, v, b), Expr::Let(j, u, c)) => { assert(occ(e, n)); counts_in(e, *v, *u, m, y, w); counts_in(e, *b, *c, m, y, w); }
        (Expr::LetRec(n, _, v, b), Expr::LetRec(j, _, u, c)) => { assert(occ(e, n)); counts_in(e, *v, *u, m, y, w); counts_in(e, *b, *c, m, y, w); }
        (Expr::Pi(_, b), Expr::Pi(_, c)) => { counts_in(e, *b, *c, m, y, w); }
        (Expr::PiApply(b, _), Expr::PiApply(c, _)) => { counts_in(e, *b, *c, m, y, w); }
        _ => {}
    }
}
proof fn counts_in(e: Expr, p: Expr, r: Expr, m: Ren, y: Name, w: Option<Name>)
    requires ren(p, r, m), meets(e, m, y, w), forall|x: Name| #![trigger occ(e, x)] occ(p, x) ==> occ(e, x),
    ensures bc(r, y) == bcw(p, w), fv(r, y) == fvw(p, w),
    decreases p, 1nat,
{
    meets_part(e, p, m, y, w);
    counts(p, r, m, y, w);
}
proof fn counts_list(e: Expr, xs: Vec<Expr>, ys: Vec<Expr>, n: nat, m: Ren, y: Name, w: Option<Name>)
    requires
        ren_list(xs, ys@, n, m), meets(e, m, y, w), n <= xs@.len(), ys@.len() == xs@.len(),
        forall|x: Name| #![trigger occ(e, x)] fv_list(xs, xs@.len(), x) || bc_list(xs, xs@.len(), x) > 0 ==> occ(e, x),
    ensures
        bc_list(ys, n, y) == match w { Some(x) => bc_list(xs, n, x), None => 0 },
        fv_list(ys, n, y) == match w { Some(x) => fv_list(xs, n, x), None => false },
    decreases xs, n,
{
    if n > 0 {
        counts_list(e, xs, ys, (n - 1) as nat, m, y, w);
        assert forall|x: Name| #![trigger occ(e, x)] occ(xs@[n - 1], x) implies occ(e, x) by { list_occ(xs, n - 1, x); }
        counts_in(e, xs@[n - 1], ys@[n - 1], m, y, w);
    }
}
proof fn counts_branches(e: Expr, bs: Vec<Branch>, cs: Vec<Branch>, n: nat, m: Ren, y: Name, w: Option<Name>)
    requires
        ren_branches(bs, cs@, n, m), meets(e, m, y, w), n <= bs@.len(), cs@.len() == bs@.len(),
        forall|x: Name| #![trigger occ(e, x)] fv_branches(bs, bs@.len(), x) || bc_branches(bs, bs@.len(), x) > 0 ==> occ(e, x),
    ensures
        bc_branches(cs, n, y) == match w { Some(x) => bc_branches(bs, n, x), None => 0 },
        fv_branches(cs, n, y) == match w { Some(x) => fv_branches(bs, n, x), None => false },
    decreases bs, n,
{
    if n > 0 {
        counts_branches(e, bs, cs, (n - 1) as nat, m, y, w);
        let b = bs@[n - 1];
        assert forall|i: int| 0 <= i < b.bindings@.len() implies (rn(m, #[trigger] b.bindings@[i]) == y) == (w == Some(b.bindings@[i])) by {
            assert(b.bindings@.contains(b.bindings@[i]));
            branch_occ(bs, n - 1, b.bindings@[i]);
            assert(occ(e, b.bindings@[i]));
        }
        times_ren(b.bindings@, m, y, w);
        contains_ren(b.bindings@, m, y, w);
        assert forall|x: Name| #![trigger occ(e, x)] occ(b.value, x) implies occ(e, x) by { branch_occ(bs, n - 1, x); }
        counts_in(e, b.value, cs@[n - 1].value, m, y, w);
    }
}
#[verifier::spinoff_prover]
proof fn ctors_stay(e: Expr, r: Expr, m: Ren, x: Name)
    requires ren(e, r, m),
    ensures dup(r, x) == dup(e, x),
    decreases e, 0nat,
{
    match (e, r) {
        (Expr::Call(f, xs), Expr::Call(g, ys)) => { ctors_stay(*f, *g, m, x); ctors_list(xs, ys, xs@.len(), m, x); }
        (Expr::If(a, b, c), Expr::If(p, q, s)) => { ctors_stay(*a, *p, m, x); ctors_stay(*b, *q, m, x); ctors_stay(*c, *s, m, x); }
        (Expr::Op(a, o, b), Expr::Op(p, _, q)) => { ctors_stay(*a, *p, m, x); ctors_stay(*b, *q, m, x); }
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => { ctors_list(xs, ys, xs@.len(), m, x); }
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => { ctors_list(xs, ys, xs@.len(), m, x); }
        (Expr::Lambda(ps, b), Expr::Lambda(qs, c)) => { ctors_stay(*b, *c, m, x); }
        (Expr::Match(d, bs), Expr::Match(g, cs)) => { ctors_stay(*d, *g, m, x); ctors_branches(bs, cs, bs@.len(), m, x); }
        (Expr::Let(n, v, b), Expr::Let(j, u, c)) => { ctors_stay(*v, *u, m, x); ctors_stay(*b, *c, m, x); }
        (Expr::LetRec(n, _, v, b), Expr::LetRec(j, _, u, c)) => { ctors_stay(*v, *u, m, x); ctors_stay(*b, *c, m, x); }
        (Expr::Pi(_, b), Expr::Pi(_, c)) => { ctors_stay(*b, *c, m, x); }
        (Expr::PiApply(b, _), Expr::PiApply(c, _)) => { ctors_stay(*b, *c, m, x); }
        _ => {}
    }
}
proof fn ctors_list(xs: Vec<Expr>, ys: Vec<Expr>, n: nat, m: Ren, x: Name)
    requires ren_list(xs, ys@, n, m), n <= xs@.len(), ys@.len() == xs@.len(),
    ensures dup_list(ys, n, x) == dup_list(xs, n, x),
    decreases xs, n,
{
    if n > 0 { ctors_list(xs, ys, (n - 1) as nat, m, x); ctors_stay(xs@[n - 1], ys@[n - 1], m, x); }
}
proof fn ctors_branches(bs: Vec<Branch>, cs: Vec<Branch>, n: nat, m: Ren, x: Name)
    requires ren_branches(bs, cs@, n, m), n <= bs@.len(), cs@.len() == bs@.len(),
    ensures dup_branches(cs, n, x) == dup_branches(bs, n, x), ctor_times(cs, n, x) == ctor_times(bs, n, x),
    decreases bs, n,
{
    if n > 0 { ctors_branches(bs, cs, (n - 1) as nat, m, x); ctors_stay(bs@[n - 1].value, cs@[n - 1].value, m, x); }
}

// -- the copy
//@ type ticc-core/src/ir.rs NameGenerator
/// `HashMap<Name, Name>`
#[verifier::external_body]
pub struct NameMap { m: usize }
impl NameMap {
    pub uninterp spec fn view(&self) -> Ren;
    #[verifier::external_body]
    fn insert(&mut self, k: Name, v: Name) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Map::<Name, Name>::empty() { unimplemented!() }
    /// `get(x).copied().unwrap_or(*x)`
    #[verifier::external_body]
    fn get_or(&self, x: &Name) -> (r: Name) ensures r == rn(self@, *x) { unimplemented!() }
}
/// `Names` of inline.rs without the map of type variables (types do not matter to the meaning)
pub struct Names<'s> { pub names: NameGenerator<'s>, pub rewrite_names: NameMap }
pub open spec fn cnt(n: Names) -> nat { n.names.names@.len() }
#[verifier::external_body]
fn copy_ty(ty: &Ty, names: &mut Names) -> (r: Ty) ensures cnt(*final(names)) == cnt(*old(names)), final(names).rewrite_names@ == old(names).rewrite_names@ { unimplemented!() }
#[verifier::external_body]
fn vx_copy_tyvar(ty: TyVar, names: &mut Names) -> (r: TyVar) ensures cnt(*final(names)) == cnt(*old(names)), final(names).rewrite_names@ == old(names).rewrite_names@ { unimplemented!() }
#[verifier::external_body]
fn vx_copy_tys(tys: &Vec<Ty>, names: &mut Names) -> (r: Vec<Ty>) ensures cnt(*final(names)) == cnt(*old(names)), final(names).rewrite_names@ == old(names).rewrite_names@ { unimplemented!() }
impl<'a> NameGenerator<'a> {
//@ fn ticc-core/src/ir.rs NameGenerator::new_fresh
//@ ret r
    ensures r.id == old(self).names@.len(), final(self).names@.len() == old(self).names@.len() + 1,
//@ end
//@ fn ticc-core/src/ir.rs NameGenerator::new_copy
//@ ret r
    requires original.id < old(self).names@.len(),
    ensures r.id == old(self).names@.len(), final(self).names@.len() == old(self).names@.len() + 1,
//@ end
}
impl<'s> Names<'s> {
//@ fn ticc/src/codegen/opt/inline.rs Names::copy_name
//@ ret r
    requires original.id < cnt(*old(self)),
    ensures r.id == cnt(*old(self)), cnt(*final(self)) == cnt(*old(self)) + 1, final(self).rewrite_names@ == old(self).rewrite_names@.insert(original, r),
//@ end
}
/// the map takes different names below u to different names below n
pub open spec fn okm(m: Ren, u: nat, n: nat) -> bool {
    u <= n && forall|x: Name| x.id < u ==> (#[trigger] rn(m, x)).id < n
    && forall|x: Name, y: Name| x.id < u && y.id < u && x != y ==> #[trigger] rn(m, x) != #[trigger] rn(m, y)
}
proof fn okm_insert(m: Ren, u: nat, n: nat, x: Name, y: Name)
    requires okm(m, u, n), x.id < u, y.id == n,
    ensures okm(m.insert(x, y), u, n + 1), rn(m.insert(x, y), x) == y, forall|z: Name| z != x ==> #[trigger] rn(m.insert(x, y), z) == rn(m, z),
{
    let k = m.insert(x, y);
    assert forall|z: Name| z != x implies #[trigger] rn(k, z) == rn(m, z) by {}
    assert forall|a: Name| a.id < u implies (#[trigger] rn(k, a)).id < n + 1 by { if a != x { assert(rn(m, a).id < n); } }
    assert forall|a: Name, b: Name| a.id < u && b.id < u && a != b implies #[trigger] rn(k, a) != #[trigger] rn(k, b) by {
        assert(rn(m, a).id < n && rn(m, b).id < n);
        assert(rn(m, a) != rn(m, b));
    }
}
pub open spec fn nice(e: Expr, u: nat) -> bool { fresh(e) && forall|x: Name| #[trigger] occ(e, x) ==> x.id < u }
/// copying b after a leaves the names of a alone
pub open spec fn clear_of(a: Expr, b: Expr) -> bool { forall|x: Name| #[trigger] bc(b, x) > 0 ==> !occ(a, x) }
pub open spec fn changed(m: Ren, k: Ren, e: Expr) -> bool { forall|x: Name| #[trigger] bc(e, x) == 0 ==> rn(k, x) == rn(m, x) }
pub open spec fn anew(m: Ren, e: Expr, n: nat) -> bool { forall|x: Name| #[trigger] bc(e, x) > 0 ==> rn(m, x).id >= n }
pub open spec fn changed_list(m: Ren, k: Ren, xs: Vec<Expr>, j: nat) -> bool { forall|x: Name| #[trigger] bc_list(xs, j, x) == 0 ==> rn(k, x) == rn(m, x) }
pub open spec fn anew_list(m: Ren, xs: Vec<Expr>, j: nat, n: nat) -> bool { forall|x: Name| #[trigger] bc_list(xs, j, x) > 0 ==> rn(m, x).id >= n }
pub open spec fn changed_branches(m: Ren, k: Ren, xs: Vec<Branch>, j: nat) -> bool { forall|x: Name| #[trigger] bc_branches(xs, j, x) == 0 ==> rn(k, x) == rn(m, x) }
pub open spec fn anew_branches(m: Ren, xs: Vec<Branch>, j: nat, n: nat) -> bool { forall|x: Name| #[trigger] bc_branches(xs, j, x) > 0 ==> rn(m, x).id >= n }
pub open spec fn nice_list(xs: Vec<Expr>, u: nat) -> bool {
    (forall|k: int| 0 <= k < xs@.len() ==> nice(#[trigger] xs@[k], u))
    && forall|i: int, j: int| 0 <= i < j < xs@.len() ==> clear_of(#[trigger] xs@[i], #[trigger] xs@[j])
}
pub open spec fn binds(b: Branch, x: Name) -> bool { bc(b.value, x) > 0 || b.bindings@.contains(x) }
pub open spec fn clear_branch(a: Branch, b: Branch) -> bool { forall|x: Name| #[trigger] binds(b, x) ==> !occ(a.value, x) && !a.bindings@.contains(x) }
pub open spec fn distinct(s: Seq<Name>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn small(s: Seq<Name>, u: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).id < u }
pub open spec fn nice_branch(b: Branch, u: nat) -> bool {
    nice(b.value, u) && distinct(b.bindings@) && small(b.bindings@, u) && forall|i: int| 0 <= i < b.bindings@.len() ==> bc(b.value, #[trigger] b.bindings@[i]) == 0
}
pub open spec fn nice_branches(bs: Vec<Branch>, u: nat) -> bool {
    (forall|k: int| 0 <= k < bs@.len() ==> nice_branch(#[trigger] bs@[k], u))
    && forall|i: int, j: int| 0 <= i < j < bs@.len() ==> clear_branch(#[trigger] bs@[i], #[trigger] bs@[j])
}
pub open spec fn clear_list(a: Expr, xs: Vec<Expr>) -> bool { forall|x: Name| #[trigger] bc_list(xs, xs@.len(), x) > 0 ==> !occ(a, x) }
pub open spec fn clear_branches(a: Expr, bs: Vec<Branch>) -> bool { forall|x: Name| #[trigger] bc_branches(bs, bs@.len(), x) > 0 ==> !occ(a, x) }
pub open spec fn parts_nice(e: Expr, u: nat) -> bool {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => true,
        Expr::Call(f, xs) => nice(*f, u) && nice_list(xs, u) && clear_list(*f, xs),
        Expr::If(a, b, c) => nice(*a, u) && nice(*b, u) && nice(*c, u) && clear_of(*a, *b) && clear_of(*a, *c) && clear_of(*b, *c),
        Expr::Op(a, _, b) => nice(*a, u) && nice(*b, u) && clear_of(*a, *b),
        Expr::Intrinsic(_, xs) => nice_list(xs, u),
        Expr::Construct(_, _, xs) => nice_list(xs, u),
        Expr::Lambda(ps, b) => nice(*b, u) && distinct(param_names(ps@)) && small(param_names(ps@), u) && forall|i: int| 0 <= i < ps@.len() ==> bc(*b, (#[trigger] ps@[i]).name) == 0,
        Expr::Match(d, bs) => nice(*d, u) && nice_branches(bs, u) && clear_branches(*d, bs),
        Expr::Let(n, v, b) => nice(*v, u) && nice(*b, u) && clear_of(*v, *b) && bc(*v, n) == 0 && bc(*b, n) == 0 && n.id < u,
        Expr::LetRec(n, _, v, b) => nice(*v, u) && nice(*b, u) && clear_of(*v, *b) && bc(*v, n) == 0 && bc(*b, n) == 0 && n.id < u,
        Expr::Pi(_, b) => nice(*b, u),
        Expr::PiApply(b, _) => nice(*b, u),
    }
}
proof fn two_in(xs: Vec<Expr>, n: nat, i: int, j: int, x: Name)
    requires 0 <= i < j < n <= xs@.len(),
    ensures bc(xs@[i], x) + bc(xs@[j], x) <= bc_list(xs, n, x),
    decreases n,
{
    if j < n - 1 { two_in(xs, (n - 1) as nat, i, j, x); } else { list_part(xs, (n - 1) as nat, i, x); }
}
proof fn two_branches(bs: Vec<Branch>, n: nat, i: int, j: int, x: Name)
    requires 0 <= i < j < n <= bs@.len(),
    ensures bc(bs@[i].value, x) + times(bs@[i].bindings@, x) + bc(bs@[j].value, x) + times(bs@[j].bindings@, x) <= bc_branches(bs, n, x),
    decreases n,
{
    if j < n - 1 { two_branches(bs, (n - 1) as nat, i, j, x); } else { branch_part(bs, (n - 1) as nat, i, x); }
}
proof fn once(s: Seq<Name>)
    requires forall|x: Name| #[trigger] times(s, x) <= 1,
    ensures distinct(s),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] != #[trigger] s[j] by {
        if s[i] == s[j] { twice(s, i, j); assert(times(s, s[i]) <= 1); }
    }
}
proof fn twice(s: Seq<Name>, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i] == s[j],
    ensures times(s, s[i]) > 1,
    decreases s.len(),
{
    if j < s.len() - 1 { twice(s.drop_last(), i, j); } else { assert(s.drop_last()[i] == s[i]); times_in(s.drop_last(), s[i]); }
}
proof fn list_nice(e: Expr, xs: Vec<Expr>, u: nat)
    requires
        nice(e, u), forall|x: Name| #![trigger occ(e, x)] fv_list(xs, xs@.len(), x) || bc_list(xs, xs@.len(), x) > 0 ==> occ(e, x),
        forall|x: Name| #![trigger fresh_at(e, x)] bc_list(xs, xs@.len(), x) <= bc(e, x) && (fv_list(xs, xs@.len(), x) ==> fv(e, x)),
        all_fresh(xs@),
    ensures nice_list(xs, u),
{
    assert forall|k: int| 0 <= k < xs@.len() implies nice(#[trigger] xs@[k], u) by {
        assert forall|x: Name| #[trigger] occ(xs@[k], x) implies x.id < u by { list_occ(xs, k, x); assert(occ(e, x)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < xs@.len() implies clear_of(#[trigger] xs@[i], #[trigger] xs@[j]) by {
        assert forall|x: Name| #[trigger] bc(xs@[j], x) > 0 implies !occ(xs@[i], x) by {
            assert(fresh_at(e, x)); two_in(xs, xs@.len(), i, j, x); list_part(xs, xs@.len(), i, x); list_part(xs, xs@.len(), j, x);
        }
    }
}
proof fn part_nice(e: Expr, p: Expr, u: nat)
    requires nice(e, u), fresh(p), forall|x: Name| #![trigger occ(e, x)] occ(p, x) ==> occ(e, x),
    ensures nice(p, u),
{
    assert forall|x: Name| #[trigger] occ(p, x) implies x.id < u by { assert(occ(e, x)); }
}
#[verifier::spinoff_prover]
proof fn nice_parts(e: Expr, u: nat)
    requires nice(e, u),
    ensures parts_nice(e, u),
{
    fresh_parts(e);
    occ_parts(e);
    match e {
        Expr::Call(f, xs) => {
            part_nice(e, *f, u); list_nice(e, xs, u);
            assert forall|x: Name| #[trigger] bc_list(xs, xs@.len(), x) > 0 implies !occ(*f, x) by { assert(fresh_at(e, x)); }
        }
        Expr::If(a, b, c) => {
            part_nice(e, *a, u); part_nice(e, *b, u); part_nice(e, *c, u);
            assert forall|x: Name| #[trigger] bc(*b, x) > 0 implies !occ(*a, x) by { assert(fresh_at(e, x)); }
            assert forall|x: Name| #[trigger] bc(*c, x) > 0 implies !occ(*a, x) by { assert(fresh_at(e, x)); }
            assert forall|x: Name| #[trigger] bc(*c, x) > 0 implies !occ(*b, x) by { assert(fresh_at(e, x)); }
        }
        Expr::Op(a, _, b) => {
            part_nice(e, *a, u); part_nice(e, *b, u);
            assert forall|x: Name| #[trigger] bc(*b, x) > 0 implies !occ(*a, x) by { assert(fresh_at(e, x)); }
        }
        Expr::Intrinsic(_, xs) => { list_nice(e, xs, u); }
        Expr::Construct(_, _, xs) => { list_nice(e, xs, u); }
        Expr::Lambda(ps, b) => {
            part_nice(e, *b, u);
            let s = param_names(ps@);
            assert forall|x: Name| #[trigger] times(s, x) <= 1 by { assert(fresh_at(e, x)); }
            once(s);
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).id < u by { assert(s.contains(s[i])); assert(occ(e, s[i])); }
            assert forall|i: int| 0 <= i < ps@.len() implies bc(*b, (#[trigger] ps@[i]).name) == 0 by { assert(s[i] == ps@[i].name); assert(s.contains(s[i])); times_in(s, s[i]); assert(fresh_at(e, s[i])); }
        }
        Expr::Match(d, bs) => {
            part_nice(e, *d, u);
            assert forall|k: int| 0 <= k < bs@.len() implies nice_branch(#[trigger] bs@[k], u) by {
                let b = bs@[k];
                assert forall|x: Name| #[trigger] occ(b.value, x) implies x.id < u by { branch_occ(bs, k, x); assert(occ(e, x)); }
                assert forall|x: Name| #[trigger] times(b.bindings@, x) <= 1 by { assert(fresh_at(e, x)); branch_part(bs, bs@.len(), k, x); }
                once(b.bindings@);
                assert forall|i: int| 0 <= i < b.bindings@.len() implies (#[trigger] b.bindings@[i]).id < u by { assert(b.bindings@.contains(b.bindings@[i])); branch_occ(bs, k, b.bindings@[i]); assert(occ(e, b.bindings@[i])); }
                assert forall|i: int| 0 <= i < b.bindings@.len() implies bc(b.value, #[trigger] b.bindings@[i]) == 0 by {
                    let x = b.bindings@[i];
                    assert(b.bindings@.contains(x)); times_in(b.bindings@, x); assert(fresh_at(e, x)); branch_part(bs, bs@.len(), k, x);
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < bs@.len() implies clear_branch(#[trigger] bs@[i], #[trigger] bs@[j]) by {
                assert forall|x: Name| #[trigger] binds(bs@[j], x) implies !occ(bs@[i].value, x) && !bs@[i].bindings@.contains(x) by {
                    times_in(bs@[i].bindings@, x); times_in(bs@[j].bindings@, x);
                    assert(fresh_at(e, x)); two_branches(bs, bs@.len(), i, j, x); branch_part(bs, bs@.len(), i, x); branch_part(bs, bs@.len(), j, x);
                }
            }
            assert forall|x: Name| #[trigger] bc_branches(bs, bs@.len(), x) > 0 implies !occ(*d, x) by { assert(fresh_at(e, x)); }
        }
        Expr::Let(n, v, b) => {
            part_nice(e, *v, u); part_nice(e, *b, u);
            assert forall|x: Name| #[trigger] bc(*b, x) > 0 implies !occ(*v, x) by { assert(fresh_at(e, x)); }
            assert(fresh_at(e, n)); assert(occ(e, n));
        }
        Expr::LetRec(n, _, v, b) => {
            part_nice(e, *v, u); part_nice(e, *b, u);
            assert forall|x: Name| #[trigger] bc(*b, x) > 0 implies !occ(*v, x) by { assert(fresh_at(e, x)); if x == n {} }
            assert(fresh_at(e, n)); assert(occ(e, n));
        }
        Expr::Pi(_, b) => { part_nice(e, *b, u); }
        Expr::PiApply(b, _) => { part_nice(e, *b, u); }
        _ => {}
    }
}
/// a copy made before another one stays as it is
proof fn stays(a: Expr, r: Expr, m: Ren, k: Ren, b: Expr, n: nat)
    requires ren(a, r, m), changed(m, k, b), clear_of(a, b), anew(m, a, n),
    ensures ren(a, r, k), anew(k, a, n),
{
    assert forall|x: Name| #[trigger] occ(a, x) implies rn(m, x) == rn(k, x) by { assert(bc(b, x) == 0); }
    assert forall|x: Name| #[trigger] bc(a, x) > 0 implies rn(k, x).id >= n by { assert(occ(a, x)); }
    ren_alike(a, r, m, k);
}
/// `xs.iter().map(|x| copy(x, names)).collect()`
#[verifier::exec_allows_no_decreases_clause]
fn vx_copies<'s>(xs: &Vec<Expr>, names: &mut Names<'s>, Ghost(u): Ghost<nat>) -> (r: Vec<Expr>)
    requires nice_list(*xs, u), okm(old(names).rewrite_names@, u, cnt(*old(names))),
    ensures
        okm(final(names).rewrite_names@, u, cnt(*final(names))), cnt(*old(names)) <= cnt(*final(names)),
        r@.len() == xs@.len(), ren_list(*xs, r@, xs@.len(), final(names).rewrite_names@),
        changed_list(old(names).rewrite_names@, final(names).rewrite_names@, *xs, xs@.len()),
        anew_list(final(names).rewrite_names@, *xs, xs@.len(), cnt(*old(names))),
{
    let mut r: Vec<Expr> = Vec::new();
    let mut i = 0;
    let ghost m0 = names.rewrite_names@;
    let ghost n0 = cnt(*names);
    while i < xs.len()
        invariant
            i <= xs@.len(), r@.len() == i, nice_list(*xs, u), okm(names.rewrite_names@, u, cnt(*names)), n0 <= cnt(*names),
            ren_list(*xs, r@, i as nat, names.rewrite_names@), changed_list(m0, names.rewrite_names@, *xs, i as nat), anew_list(names.rewrite_names@, *xs, i as nat, n0),
        decreases xs@.len() - i,
    {
        let ghost m1 = names.rewrite_names@;
        let ghost n1 = cnt(*names);
        let ghost r1 = r@;
        let v = copy(&xs[i], names, Ghost(u));
        r.push(v);
        proof { one_more(*xs, r1, v, i as nat, m0, m1, names.rewrite_names@, n0, n1, u); }
        i += 1;
    }
    r
}
proof fn kept_list(xs: Vec<Expr>, ys: Seq<Expr>, n: nat, m: Ren, k: Ren)
    requires ren_list(xs, ys, n, m), n <= xs@.len(), forall|j: int| 0 <= j < n ==> alike(#[trigger] xs@[j], m, k),
    ensures ren_list(xs, ys, n, k),
    decreases n,
{
    if n > 0 { kept_list(xs, ys, (n - 1) as nat, m, k); assert(alike(xs@[n - 1], m, k)); ren_alike(xs@[n - 1], ys[n - 1], m, k); }
}
proof fn longer_list(xs: Vec<Expr>, ys: Seq<Expr>, v: Expr, n: nat, m: Ren)
    requires ren_list(xs, ys, n, m), n <= ys.len(),
    ensures ren_list(xs, ys.push(v), n, m),
    decreases n,
{
    if n > 0 && n <= xs@.len() { longer_list(xs, ys, v, (n - 1) as nat, m); }
}
proof fn in_prefix(xs: Vec<Expr>, n: nat, x: Name) -> (k: int)
    requires bc_list(xs, n, x) > 0, n <= xs@.len(),
    ensures 0 <= k < n, bc(xs@[k], x) > 0,
    decreases n,
{
    if bc(xs@[n - 1], x) > 0 { n - 1 } else { in_prefix(xs, (n - 1) as nat, x) }
}
#[verifier::spinoff_prover]
proof fn one_more(xs: Vec<Expr>, r1: Seq<Expr>, v: Expr, i: nat, m0: Ren, m1: Ren, m2: Ren, n0: nat, n1: nat, u: nat)
    requires
        i < xs@.len(), r1.len() == i, nice_list(xs, u), n0 <= n1,
        ren_list(xs, r1, i, m1), changed_list(m0, m1, xs, i), anew_list(m1, xs, i, n0),
        ren(xs@[i as int], v, m2), changed(m1, m2, xs@[i as int]), anew(m2, xs@[i as int], n1),
    ensures ren_list(xs, r1.push(v), i + 1, m2), changed_list(m0, m2, xs, i + 1), anew_list(m2, xs, i + 1, n0),
{
    let e = xs@[i as int];
    assert forall|j: int| 0 <= j < i implies alike(#[trigger] xs@[j], m1, m2) by {
        assert(clear_of(xs@[j], e));
        assert forall|x: Name| #[trigger] occ(xs@[j], x) implies rn(m1, x) == rn(m2, x) by { assert(bc(e, x) == 0); }
    }
    kept_list(xs, r1, i, m1, m2);
    longer_list(xs, r1, v, i, m2);
    assert(ren_list(xs, r1.push(v), i + 1, m2));
    assert forall|x: Name| #[trigger] bc_list(xs, i + 1, x) == 0 implies rn(m2, x) == rn(m0, x) by { assert(bc_list(xs, i, x) == 0 && bc(e, x) == 0); }
    assert forall|x: Name| #[trigger] bc_list(xs, i + 1, x) > 0 implies rn(m2, x).id >= n0 by {
        if bc(e, x) == 0 {
            assert(bc_list(xs, i, x) > 0);
        } else { assert(rn(m2, x).id >= n1); }
    }
}
proof fn list_after(a: Expr, r: Expr, m: Ren, k: Ren, xs: Vec<Expr>, n: nat)
    requires ren(a, r, m), changed_list(m, k, xs, xs@.len()), clear_list(a, xs), anew(m, a, n),
    ensures ren(a, r, k), anew(k, a, n),
{
    assert forall|x: Name| #[trigger] occ(a, x) implies rn(m, x) == rn(k, x) by { assert(bc_list(xs, xs@.len(), x) == 0); }
    assert forall|x: Name| #[trigger] bc(a, x) > 0 implies rn(k, x).id >= n by { assert(occ(a, x)); }
    ren_alike(a, r, m, k);
}
proof fn branches_after(a: Expr, r: Expr, m: Ren, k: Ren, bs: Vec<Branch>, n: nat)
    requires ren(a, r, m), changed_branches(m, k, bs, bs@.len()), clear_branches(a, bs), anew(m, a, n),
    ensures ren(a, r, k), anew(k, a, n),
{
    assert forall|x: Name| #[trigger] occ(a, x) implies rn(m, x) == rn(k, x) by { assert(bc_branches(bs, bs@.len(), x) == 0); }
    assert forall|x: Name| #[trigger] bc(a, x) > 0 implies rn(k, x).id >= n by { assert(occ(a, x)); }
    ren_alike(a, r, m, k);
}
proof fn kept_branches(bs: Vec<Branch>, cs: Seq<Branch>, n: nat, m: Ren, k: Ren)
    requires
        ren_branches(bs, cs, n, m), n <= bs@.len(),
        forall|j: int| 0 <= j < n ==> alike((#[trigger] bs@[j]).value, m, k) && forall|i: int| 0 <= i < bs@[j].bindings@.len() ==> rn(m, #[trigger] bs@[j].bindings@[i]) == rn(k, bs@[j].bindings@[i]),
    ensures ren_branches(bs, cs, n, k),
    decreases n,
{
    if n > 0 {
        kept_branches(bs, cs, (n - 1) as nat, m, k);
        let b = bs@[n - 1];
        assert(alike(b.value, m, k));
        ren_alike(b.value, cs[n - 1].value, m, k);
        alike_names(b.bindings@, m, k);
    }
}
proof fn longer_branches(bs: Vec<Branch>, cs: Seq<Branch>, v: Branch, n: nat, m: Ren)
    requires ren_branches(bs, cs, n, m), n <= cs.len(),
    ensures ren_branches(bs, cs.push(v), n, m),
    decreases n,
{
    if n > 0 && n <= bs@.len() { longer_branches(bs, cs, v, (n - 1) as nat, m); }
}
/// the names so far have been given new ones
pub open spec fn given(s: Seq<Name>, t: Seq<Name>, j: int, m: Ren, k: Ren, n: nat) -> bool {
    t.len() == j && 0 <= j <= s.len()
    && (forall|i: int| 0 <= i < j ==> #[trigger] t[i] == rn(k, s[i]))
    && (forall|i: int| 0 <= i < j ==> rn(k, #[trigger] s[i]).id >= n)
    && (forall|x: Name| !s.take(j).contains(x) ==> #[trigger] rn(k, x) == rn(m, x))
}
proof fn give(s: Seq<Name>, t: Seq<Name>, j: int, m: Ren, k: Ren, n: nat, y: Name, u: nat, c: nat)
    requires given(s, t, j, m, k, n), j < s.len(), distinct(s), small(s, u), okm(k, u, c), y.id == c, n <= c,
    ensures given(s, t.push(y), j + 1, m, k.insert(s[j], y), n), okm(k.insert(s[j], y), u, c + 1),
{
    let k2 = k.insert(s[j], y);
    okm_insert(k, u, c, s[j], y);
    assert forall|i: int| 0 <= i < j + 1 implies #[trigger] t.push(y)[i] == rn(k2, s[i]) by { if i < j { assert(t[i] == rn(k, s[i])); assert(s[i] != s[j]); } }
    assert forall|i: int| 0 <= i < j + 1 implies rn(k2, #[trigger] s[i]).id >= n by { if i < j { assert(s[i] != s[j]); assert(rn(k, s[i]).id >= n); } }
    assert forall|x: Name| !s.take(j + 1).contains(x) implies #[trigger] rn(k2, x) == rn(m, x) by {
        assert(s.take(j + 1)[j] == s[j]);
        if s.take(j).contains(x) { let i = s.take(j).index_of(x); assert(s.take(j + 1)[i] == x); }
        assert(rn(k, x) == rn(m, x));
    }
}
#[verifier::spinoff_prover]
proof fn under(s: Seq<Name>, t: Seq<Name>, m0: Ren, m1: Ren, m2: Ren, b: Expr, n0: nat, n1: nat)
    requires
        given(s, t, s.len() as int, m0, m1, n0), n0 <= n1, changed(m1, m2, b), anew(m2, b, n1), forall|i: int| 0 <= i < s.len() ==> bc(b, #[trigger] s[i]) == 0,
    ensures
        t == rns(m2, s),
        forall|x: Name| bc(b, x) == 0 && !s.contains(x) ==> #[trigger] rn(m2, x) == rn(m0, x),
        forall|x: Name| bc(b, x) > 0 || s.contains(x) ==> (#[trigger] rn(m2, x)).id >= n0,
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] t[i] == rn(m2, s[i]) by { assert(bc(b, s[i]) == 0); }
    assert(t =~= rns(m2, s));
    assert forall|x: Name| bc(b, x) == 0 && !s.contains(x) implies #[trigger] rn(m2, x) == rn(m0, x) by { assert(rn(m1, x) == rn(m0, x)); }
    assert forall|x: Name| bc(b, x) > 0 || s.contains(x) implies (#[trigger] rn(m2, x)).id >= n0 by {
        if bc(b, x) == 0 { let i = s.index_of(x); assert(s[i] == x); assert(rn(m1, s[i]).id >= n0); }
    }
}
#[verifier::spinoff_prover]
proof fn more_branch(bs: Vec<Branch>, r1: Seq<Branch>, v: Branch, i: nat, m0: Ren, m1: Ren, m2: Ren, m3: Ren, n0: nat, n1: nat, n2: nat, u: nat)
    requires
        i < bs@.len(), r1.len() == i, nice_branches(bs, u), n0 <= n1, n1 <= n2,
        ren_branches(bs, r1, i, m1), changed_branches(m0, m1, bs, i), anew_branches(m1, bs, i, n0),
        given(bs@[i as int].bindings@, v.bindings@, bs@[i as int].bindings@.len() as int, m1, m2, n1), v.ctor == bs@[i as int].ctor,
        ren(bs@[i as int].value, v.value, m3), changed(m2, m3, bs@[i as int].value), anew(m3, bs@[i as int].value, n2),
    ensures ren_branches(bs, r1.push(v), i + 1, m3), changed_branches(m0, m3, bs, i + 1), anew_branches(m3, bs, i + 1, n0),
{
    let b = bs@[i as int];
    let s = b.bindings@;
    assert(nice_branch(b, u));
    under(s, v.bindings@, m1, m2, m3, b.value, n1, n2);
    assert forall|j: int| 0 <= j < i implies alike((#[trigger] bs@[j]).value, m1, m3) && forall|p: int| 0 <= p < bs@[j].bindings@.len() ==> rn(m1, #[trigger] bs@[j].bindings@[p]) == rn(m3, bs@[j].bindings@[p]) by {
        assert(clear_branch(bs@[j], b));
        assert forall|x: Name| #[trigger] occ(bs@[j].value, x) implies rn(m1, x) == rn(m3, x) by { assert(!binds(b, x)); assert(rn(m3, x) == rn(m1, x)); }
        assert forall|p: int| 0 <= p < bs@[j].bindings@.len() implies rn(m1, #[trigger] bs@[j].bindings@[p]) == rn(m3, bs@[j].bindings@[p]) by {
            let x = bs@[j].bindings@[p];
            assert(bs@[j].bindings@.contains(x)); assert(!binds(b, x)); assert(rn(m3, x) == rn(m1, x));
        }
    }
    kept_branches(bs, r1, i, m1, m3);
    longer_branches(bs, r1, v, i, m3);
    assert(ren_branches(bs, r1.push(v), i + 1, m3));
    assert forall|x: Name| #[trigger] bc_branches(bs, i + 1, x) == 0 implies rn(m3, x) == rn(m0, x) by {
        times_in(s, x);
        assert(bc_branches(bs, i, x) == 0 && bc(b.value, x) == 0);
        assert(rn(m3, x) == rn(m1, x));
    }
    assert forall|x: Name| #[trigger] bc_branches(bs, i + 1, x) > 0 implies rn(m3, x).id >= n0 by {
        times_in(s, x);
        if bc(b.value, x) == 0 && !s.contains(x) { assert(bc_branches(bs, i, x) > 0); assert(rn(m3, x) == rn(m1, x)); } else { assert(rn(m3, x).id >= n1); }
    }
}
pub open spec fn done(e: Expr, r: Expr, m: Ren, k: Ren, n: nat) -> bool { ren(e, r, k) && changed(m, k, e) && anew(k, e, n) }
#[verifier::spinoff_prover]
proof fn lambda_done(e: Expr, ps: Vec<LambdaParam>, b: Expr, qs: Seq<LambdaParam>, c: Expr, r: Expr, m0: Ren, m1: Ren, m2: Ren, n0: nat, n1: nat, u: nat)
    requires
        e is Lambda, e->Lambda_0 == ps, *(e->Lambda_1) == b, r is Lambda, r->Lambda_0@ == qs, *(r->Lambda_1) == c, parts_nice(e, u),
        given(param_names(ps@), param_names(qs), ps@.len() as int, m0, m1, n0), n0 <= n1, done(b, c, m1, m2, n1),
    ensures done(e, r, m0, m2, n0),
{
    let s = param_names(ps@);
    assert forall|i: int| 0 <= i < s.len() implies bc(b, #[trigger] s[i]) == 0 by { assert(s[i] == ps@[i].name); }
    under(s, param_names(qs), m0, m1, m2, b, n0, n1);
    assert forall|x: Name| #[trigger] bc(e, x) == 0 implies rn(m2, x) == rn(m0, x) by { times_in(s, x); }
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies rn(m2, x).id >= n0 by { times_in(s, x); }
}
proof fn pair_done(e: Expr, a: Expr, b: Expr, m0: Ren, m1: Ren, m2: Ren, n0: nat, n1: nat)
    requires
        changed(m0, m1, a), anew(m2, a, n0), changed(m1, m2, b), anew(m2, b, n1), n0 <= n1,
        forall|x: Name| #[trigger] bc(e, x) == bc(a, x) + bc(b, x),
    ensures changed(m0, m2, e), anew(m2, e, n0),
{
    assert forall|x: Name| #[trigger] bc(e, x) == 0 implies rn(m2, x) == rn(m0, x) by { assert(bc(a, x) == 0 && bc(b, x) == 0); }
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies rn(m2, x).id >= n0 by { if bc(a, x) == 0 { assert(bc(b, x) > 0); } }
}
proof fn call_done(e: Expr, a: Expr, xs: Vec<Expr>, m0: Ren, m1: Ren, m2: Ren, n0: nat, n1: nat)
    requires
        changed(m0, m1, a), anew(m2, a, n0), changed_list(m1, m2, xs, xs@.len()), anew_list(m2, xs, xs@.len(), n1), n0 <= n1,
        forall|x: Name| #[trigger] bc(e, x) == bc(a, x) + bc_list(xs, xs@.len(), x),
    ensures changed(m0, m2, e), anew(m2, e, n0),
{
    assert forall|x: Name| #[trigger] bc(e, x) == 0 implies rn(m2, x) == rn(m0, x) by { assert(bc(a, x) == 0 && bc_list(xs, xs@.len(), x) == 0); }
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies rn(m2, x).id >= n0 by { if bc(a, x) == 0 { assert(bc_list(xs, xs@.len(), x) > 0); } }
}
proof fn if_done(e: Expr, a: Expr, b: Expr, c: Expr, m0: Ren, m1: Ren, m2: Ren, m3: Ren, n0: nat, n1: nat, n2: nat)
    requires
        changed(m0, m1, a), anew(m3, a, n0), changed(m1, m2, b), anew(m3, b, n0), changed(m2, m3, c), anew(m3, c, n2), n0 <= n1 <= n2,
        forall|x: Name| #[trigger] bc(e, x) == bc(a, x) + bc(b, x) + bc(c, x),
    ensures changed(m0, m3, e), anew(m3, e, n0),
{
    assert forall|x: Name| #[trigger] bc(e, x) == 0 implies rn(m3, x) == rn(m0, x) by { assert(bc(a, x) == 0 && bc(b, x) == 0 && bc(c, x) == 0); }
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies rn(m3, x).id >= n0 by { if bc(a, x) == 0 && bc(b, x) == 0 { assert(bc(c, x) > 0); } }
}
proof fn let_done(e: Expr, n: Name, a: Expr, b: Expr, m0: Ren, mi: Ren, m1: Ren, m2: Ren, n0: nat, n1: nat, ni: nat)
    requires
        forall|z: Name| z != n ==> #[trigger] rn(mi, z) == rn(m0, z), rn(mi, n).id >= n0, n0 <= ni <= n1,
        changed(mi, m1, a), anew(m2, a, n0), changed(m1, m2, b), anew(m2, b, n1), bc(a, n) == 0, bc(b, n) == 0,
        forall|x: Name| #[trigger] bc(e, x) == bc(a, x) + bc(b, x) + if n == x { 1nat } else { 0 },
    ensures changed(m0, m2, e), anew(m2, e, n0), rn(m2, n) == rn(mi, n),
{
    assert forall|x: Name| #[trigger] bc(e, x) == 0 implies rn(m2, x) == rn(m0, x) by { assert(bc(a, x) == 0 && bc(b, x) == 0); assert(rn(mi, x) == rn(m0, x)); }
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies rn(m2, x).id >= n0 by { if bc(a, x) == 0 && x != n { assert(bc(b, x) > 0); } }
}
proof fn list_done(e: Expr, xs: Vec<Expr>, m0: Ren, m2: Ren, n0: nat)
    requires changed_list(m0, m2, xs, xs@.len()), anew_list(m2, xs, xs@.len(), n0), forall|x: Name| #[trigger] bc(e, x) == bc_list(xs, xs@.len(), x),
    ensures changed(m0, m2, e), anew(m2, e, n0),
{
    assert forall|x: Name| #[trigger] bc(e, x) == 0 implies rn(m2, x) == rn(m0, x) by { assert(bc_list(xs, xs@.len(), x) == 0); }
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies rn(m2, x).id >= n0 by { assert(bc_list(xs, xs@.len(), x) > 0); }
}
proof fn one_done(e: Expr, a: Expr, m0: Ren, m2: Ren, n0: nat)
    requires changed(m0, m2, a), anew(m2, a, n0), forall|x: Name| #[trigger] bc(e, x) == bc(a, x),
    ensures changed(m0, m2, e), anew(m2, e, n0),
{
    assert forall|x: Name| #[trigger] bc(e, x) == 0 implies rn(m2, x) == rn(m0, x) by { assert(bc(a, x) == 0); }
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies rn(m2, x).id >= n0 by { assert(bc(a, x) > 0); }
}
proof fn match_done(e: Expr, r: Expr, m0: Ren, m1: Ren, m2: Ren, n0: nat, n1: nat)
    requires
        e is Match, r is Match, ren(*(e->Match_0), *(r->Match_0), m2), n0 <= n1,
        changed(m0, m1, *(e->Match_0)), anew(m2, *(e->Match_0), n0),
        r->Match_1@.len() == e->Match_1@.len(), ren_branches(e->Match_1, r->Match_1@, e->Match_1@.len(), m2),
        changed_branches(m1, m2, e->Match_1, e->Match_1@.len()), anew_branches(m2, e->Match_1, e->Match_1@.len(), n1),
    ensures done(e, r, m0, m2, n0),
{
    assert forall|x: Name| #[trigger] bc(e, x) == 0 implies rn(m2, x) == rn(m0, x) by {
        assert(bc(*(e->Match_0), x) == 0 && bc_branches(e->Match_1, e->Match_1@.len(), x) == 0);
    }
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies rn(m2, x).id >= n0 by {
        if bc(*(e->Match_0), x) == 0 { assert(bc_branches(e->Match_1, e->Match_1@.len(), x) > 0); }
    }
}
//@ fn ticc/src/codegen/opt/inline.rs Inlinable::create_copy.copy
//@ params fn copy<'s>(expr: &Expr, names: &mut Names<'s>, Ghost(u): Ghost<nat>) -> (res: Expr)
//@ rule names . rewrite_names . get ( n ) . copied ( ) . unwrap_or ( * n ) ==> names . rewrite_names . get_or ( n )
//@ rule ir :: Expr :: Call ( Box :: new ( copy ( a , names ) ) , b . iter ( ) . map ( | b | copy ( b , names ) ) . collect ( ) , ) ==> { let vx_a = copy ( a , names , Ghost ( u ) ) ; let ghost m1 = names . rewrite_names @ ; let ghost n1 = cnt ( * names ) ; let vx_b = vx_copies ( b , names , Ghost ( u ) ) ; proof { list_after ( * * a , vx_a , m1 , names . rewrite_names @ , * b , n0 ) ; } let vx_r = Expr :: Call ( Box :: new ( vx_a ) , vx_b ) ; proof { call_done ( * expr , * * a , * b , m0 , m1 , names . rewrite_names @ , n0 , n1 ) ; assert ( done ( * expr , vx_r , m0 , names . rewrite_names @ , n0 ) ) ; } vx_r }
//@ rule ir :: Expr :: Intrinsic ( * a , b . iter ( ) . map ( | b | copy ( b , names ) ) . collect ( ) , ) ==> { let vx_b = vx_copies ( b , names , Ghost ( u ) ) ; proof { list_done ( * expr , * b , m0 , names . rewrite_names @ , n0 ) ; } Expr :: Intrinsic ( * a , vx_b ) }
//@ rule ir :: Expr :: Construct ( * c , tys , a ) ==> proof { list_done ( * expr , expr -> Construct_2 , m0 , names . rewrite_names @ , n0 ) ; } Expr :: Construct ( * c , tys , a )
//@ rule ir :: Expr :: Pi ( ty , Box :: new ( e ) ) ==> proof { one_done ( * expr , * ( expr -> Pi_1 ) , m0 , names . rewrite_names @ , n0 ) ; } Expr :: Pi ( ty , Box :: new ( e ) )
//@ rule ir :: Expr :: PiApply ( Box :: new ( e ) , ty ) ==> proof { one_done ( * expr , * ( expr -> PiApply_0 ) , m0 , names . rewrite_names @ , n0 ) ; } Expr :: PiApply ( Box :: new ( e ) , ty )
//@ rule a . iter ( ) . map ( | e | copy ( e , names ) ) . collect ( ) ==> vx_copies ( a , names , Ghost ( u ) )
//@ rule tys . iter ( ) . map ( | t | copy_ty ( t , names ) ) . collect ( ) ==> vx_copy_tys ( tys , names )
//@ rule ir :: Expr :: If ( Box :: new ( copy ( a , names ) ) , Box :: new ( copy ( b , names ) ) , Box :: new ( copy ( c , names ) ) , ) ==> { let vx_a = copy ( a , names , Ghost ( u ) ) ; let ghost m1 = names . rewrite_names @ ; let ghost n1 = cnt ( * names ) ; let vx_b = copy ( b , names , Ghost ( u ) ) ; let ghost m2 = names . rewrite_names @ ; let ghost n2 = cnt ( * names ) ; proof { stays ( * * a , vx_a , m1 , m2 , * * b , n0 ) ; } let vx_c = copy ( c , names , Ghost ( u ) ) ; proof { stays ( * * a , vx_a , m2 , names . rewrite_names @ , * * c , n0 ) ; stays ( * * b , vx_b , m2 , names . rewrite_names @ , * * c , n0 ) ; } let vx_r = Expr :: If ( Box :: new ( vx_a ) , Box :: new ( vx_b ) , Box :: new ( vx_c ) ) ; proof { if_done ( * expr , * * a , * * b , * * c , m0 , m1 , m2 , names . rewrite_names @ , n0 , n1 , n2 ) ; assert ( done ( * expr , vx_r , m0 , names . rewrite_names @ , n0 ) ) ; } vx_r }
//@ rule ir :: Expr :: Op ( Box :: new ( copy ( a , names ) ) , * op , Box :: new ( copy ( b , names ) ) , ) ==> { let vx_a = copy ( a , names , Ghost ( u ) ) ; let ghost m1 = names . rewrite_names @ ; let ghost n1 = cnt ( * names ) ; let vx_b = copy ( b , names , Ghost ( u ) ) ; proof { stays ( * * a , vx_a , m1 , names . rewrite_names @ , * * b , n0 ) ; } let vx_r = Expr :: Op ( Box :: new ( vx_a ) , * op , Box :: new ( vx_b ) ) ; proof { pair_done ( * expr , * * a , * * b , m0 , m1 , names . rewrite_names @ , n0 , n1 ) ; assert ( done ( * expr , vx_r , m0 , names . rewrite_names @ , n0 ) ) ; } vx_r }
//@ rule ir :: Expr :: Let ( r , Box :: new ( copy ( a , names ) ) , Box :: new ( copy ( b , names ) ) , ) ==> { proof { okm_insert ( m0 , u , n0 , * n , r ) ; } let ghost mi = names . rewrite_names @ ; let ghost ni = cnt ( * names ) ; let vx_a = copy ( a , names , Ghost ( u ) ) ; let ghost m1 = names . rewrite_names @ ; let ghost n1 = cnt ( * names ) ; let vx_b = copy ( b , names , Ghost ( u ) ) ; proof { stays ( * * a , vx_a , m1 , names . rewrite_names @ , * * b , n0 ) ; } let vx_r = Expr :: Let ( r , Box :: new ( vx_a ) , Box :: new ( vx_b ) ) ; proof { let_done ( * expr , * n , * * a , * * b , m0 , mi , m1 , names . rewrite_names @ , n0 , n1 , ni ) ; assert ( done ( * expr , vx_r , m0 , names . rewrite_names @ , n0 ) ) ; } vx_r }
//@ rule ir :: Expr :: LetRec ( r , ty , Box :: new ( copy ( a , names ) ) , Box :: new ( copy ( b , names ) ) , ) ==> { proof { okm_insert ( m0 , u , n0 , * n , r ) ; } let ghost mi = names . rewrite_names @ ; let ghost ni = cnt ( * names ) ; let vx_a = copy ( a , names , Ghost ( u ) ) ; let ghost m1 = names . rewrite_names @ ; let ghost n1 = cnt ( * names ) ; let vx_b = copy ( b , names , Ghost ( u ) ) ; proof { stays ( * * a , vx_a , m1 , names . rewrite_names @ , * * b , n0 ) ; } let vx_r = Expr :: LetRec ( r , ty , Box :: new ( vx_a ) , Box :: new ( vx_b ) ) ; proof { let_done ( * expr , * n , * * a , * * b , m0 , mi , m1 , names . rewrite_names @ , n0 , n1 , ni ) ; assert ( done ( * expr , vx_r , m0 , names . rewrite_names @ , n0 ) ) ; } vx_r }
//@ rule ir :: Expr :: Lambda ( params , Box :: new ( copy ( a , names ) ) , ) ==> let ghost m1 = names . rewrite_names @ ; let ghost n1 = cnt ( * names ) ; let vx_a = copy ( a , names , Ghost ( u ) ) ; let ghost vx_q = params @ ; let vx_b = Box :: new ( vx_a ) ; let vx_r = Expr :: Lambda ( params , vx_b ) ; proof { lambda_done ( * expr , * n , * * a , vx_q , * vx_b , vx_r , m0 , m1 , names . rewrite_names @ , n0 , n1 , u ) ; } vx_r
//@ rule let a = copy ( a , names ) ; let mut branches ==> let vx_s = a ; let a = copy ( a , names , Ghost ( u ) ) ; let ghost m1 = names . rewrite_names @ ; let ghost n1 = cnt ( * names ) ; let mut branches
//@ rule ir :: Expr :: Match ( Box :: new ( a ) , branches ) ==> let vx_r = Expr :: Match ( Box :: new ( a ) , branches ) ; proof { match_done ( * expr , vx_r , m0 , m1 , names . rewrite_names @ , n0 , n1 ) ; } vx_r
//@ rule names . copy_ty ( * ty ) ==> vx_copy_tyvar ( * ty , names )
//@ rule copy ( & b . value , names ) ==> copy ( & b . value , names , Ghost ( u ) )
//@ rule let e = copy ( e , names ) ==> let e = copy ( e , names , Ghost ( u ) )
    requires nice(*expr, u), okm(old(names).rewrite_names@, u, cnt(*old(names))),
    ensures
        okm(final(names).rewrite_names@, u, cnt(*final(names))), cnt(*old(names)) <= cnt(*final(names)),
        done(*expr, res, old(names).rewrite_names@, final(names).rewrite_names@, cnt(*old(names))),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost m0 = names.rewrite_names@;
    let ghost n0 = cnt(*names);
    proof { nice_parts(*expr, u); }
//@ loop 0
    invariant
        expr is Lambda, vx_it0.seq().len() == expr->Lambda_0@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == expr->Lambda_0@[k],
        distinct(param_names(expr->Lambda_0@)), small(param_names(expr->Lambda_0@), u),
        okm(names.rewrite_names@, u, cnt(*names)), n0 <= cnt(*names),
        given(param_names(expr->Lambda_0@), param_names(params@), vx_it0.index() as int, m0, names.rewrite_names@, n0),
//@ loophead 0
    let ghost vx_m = names.rewrite_names@;
    let ghost vx_n = cnt(*names);
    let ghost vx_q = params@;
    let ghost vx_k = vx_it0.index() as int;
    proof { assert(*n == expr->Lambda_0@[vx_k]); assert(param_names(expr->Lambda_0@)[vx_k] == n.name); }
//@ looptail 0
    proof {
        let s = param_names(expr->Lambda_0@);
        assert(s[vx_k] == n.name);
        give(s, param_names(vx_q), vx_k, m0, vx_m, n0, name, u, vx_n);
        assert(param_names(params@) =~= param_names(vx_q).push(name));
    }
//@ loop 1
    invariant
        expr is Match, vx_it1.seq().len() == expr->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == expr->Match_1@[k],
        nice_branches(expr->Match_1, u), okm(names.rewrite_names@, u, cnt(*names)), n1 <= cnt(*names),
        branches@.len() == vx_it1.index(),
        ren_branches(expr->Match_1, branches@, vx_it1.index() as nat, names.rewrite_names@),
        changed_branches(m1, names.rewrite_names@, expr->Match_1, vx_it1.index() as nat),
        anew_branches(names.rewrite_names@, expr->Match_1, vx_it1.index() as nat, n1),
//@ loophead 1
    let ghost vx_m = names.rewrite_names@;
    let ghost vx_n = cnt(*names);
    let ghost vx_r = branches@;
    let ghost vx_k = vx_it1.index() as int;
    proof { assert(*b == expr->Match_1@[vx_k]); assert(nice_branch(*b, u)); }
//@ looptail 1
    proof {
        more_branch(expr->Match_1, vx_r, branches@.last(), vx_k as nat, m1, vx_m, vx_mb, names.rewrite_names@, n1, vx_n, vx_nb, u);
        assert(branches@ =~= vx_r.push(branches@.last()));
    }
//@ loop 2
    invariant
        vx_it2.seq().len() == b.bindings@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == b.bindings@[k],
        nice_branch(*b, u), okm(names.rewrite_names@, u, cnt(*names)), vx_n <= cnt(*names),
        given(b.bindings@, bindings@, vx_it2.index() as int, vx_m, names.rewrite_names@, vx_n),
//@ loophead 2
    let ghost vx_m2 = names.rewrite_names@;
    let ghost vx_n2 = cnt(*names);
    let ghost vx_q = bindings@;
    let ghost vx_j = vx_it2.index() as int;
    proof { assert(*vx_p == b.bindings@[vx_j]); }
//@ looptail 2
    proof { give(b.bindings@, vx_q, vx_j, vx_m, vx_m2, vx_n, r, u, vx_n2); }
//@ before branches . push
    let ghost vx_mb = names.rewrite_names@;
    let ghost vx_nb = cnt(*names);
//@ before ir :: Expr :: Match
    proof { branches_after(**vx_s, a, m1, names.rewrite_names@, expr->Match_1, n0); }
//@ end
//@ type ticc/src/codegen/opt/inline.rs Inlinable
/// r is e with binders of its own: names from n0 on
pub open spec fn copied(e: Expr, r: Expr, n0: nat, n1: nat) -> bool {
    (forall|env: DEnv| #[trigger] den(env, r) == den(env, e)) && fresh(r)
    && (forall|x: Name| #[trigger] bc(r, x) > 0 ==> n0 <= x.id < n1)
    && (forall|x: Name| #[trigger] fv(r, x) == fv(e, x))
}
#[verifier::spinoff_prover]
proof fn copy_keeps(e: Expr, r: Expr, m: Ren, n0: nat, n1: nat)
    requires nice(e, n0), done(e, r, Map::<Name, Name>::empty(), m, n0), okm(m, n0, n1),
    ensures copied(e, r, n0, n1),
{
    let m0 = Map::<Name, Name>::empty();
    assert(apart(e, m)) by {
        assert forall|x: Name, y: Name| #[trigger] occ(e, x) && #[trigger] occ(e, y) && x != y implies rn(m, x) != rn(m, y) by {}
    }
    assert forall|x: Name| #[trigger] fv(e, x) implies rn(m, x) == x by { assert(fresh_at(e, x)); assert(bc(e, x) == 0); assert(rn(m0, x) == x); }
    assert forall|env: DEnv| #[trigger] den(env, r) == den(env, e) by {
        assert(tied(env, env, m, e));
        renamed(env, env, e, r, m);
    }
    assert forall|y: Name| #[trigger] bc(r, y) > 0 implies n0 <= y.id < n1 by { let w = where_from(e, r, m, y); assert(bc(e, w->0) > 0 && occ(e, w->0)); assert(rn(m, w->0) == y); }
    assert forall|y: Name| #[trigger] fv(r, y) == fv(e, y) by {
        let w = where_from(e, r, m, y);
        if fv(r, y) { assert(fv(e, w->0)); }
        if fv(e, y) { assert(occ(e, y)); assert(rn(m, y) == y); }
    }
    assert forall|y: Name| #[trigger] fresh_at(r, y) by {
        let w = where_from(e, r, m, y);
        ctors_stay(e, r, m, y);
        assert(fresh_at(e, y));
        match w {
            Some(x) => { assert(fresh_at(e, x)); if fv(r, y) { assert(fv(e, x)); } }
            None => {}
        }
    }
}
proof fn where_from(e: Expr, r: Expr, m: Ren, y: Name) -> (w: Option<Name>)
    requires ren(e, r, m), apart(e, m),
    ensures bc(r, y) == bcw(e, w), fv(r, y) == fvw(e, w), meets(e, m, y, w), w is Some ==> rn(m, w->0) == y,
{
    let w: Option<Name> = if exists|z: Name| #[trigger] occ(e, z) && rn(m, z) == y { Some(choose|z: Name| #[trigger] occ(e, z) && rn(m, z) == y) } else { None };
    assert forall|z: Name| #[trigger] occ(e, z) implies (rn(m, z) == y) == (w == Some(z)) by {}
    counts(e, r, m, y, w);
    w
}
impl Inlinable {
//@ fn ticc/src/codegen/opt/inline.rs Inlinable::create_copy
//@ params fn create_copy<'s>(&self, names: &mut Names<'s>) -> (res: Expr)
//@ rule names . rewrite_types . clear ( ) ; ==> let ghost n0 = cnt ( * names ) ;
//@ rule copy ( & self . expr , names ) ==> let ghost m0 = names . rewrite_names @ ; proof { empty_okm ( m0 , n0 ) ; } let vx_r = copy ( & self . expr , names , Ghost ( n0 ) ) ; proof { copy_keeps ( self . expr , vx_r , names . rewrite_names @ , n0 , cnt ( * names ) ) ; } vx_r
    requires nice(self.expr, cnt(*old(names))),
    ensures copied(self.expr, res, cnt(*old(names)), cnt(*final(names))), cnt(*old(names)) <= cnt(*final(names)),
//@ end
}
proof fn empty_okm(m: Ren, n: nat)
    requires m == Map::<Name, Name>::empty(),
    ensures okm(m, n, n),
{
    assert forall|x: Name| x.id < n implies (#[trigger] rn(m, x)).id < n by {}
    assert forall|x: Name, y: Name| x.id < n && y.id < n && x != y implies #[trigger] rn(m, x) != #[trigger] rn(m, y) by {}
}
// -- inlining: what a name stands for where it is used
/// what the pass knows: the value of a name
pub type Known = Map<Name, Expr>;
pub open spec fn plus(s: Set<Name>, names: Seq<Name>) -> Set<Name> decreases names.len() {
    if names.len() == 0 { s } else { plus(s, names.drop_last()).insert(names.last()) }
}
pub proof fn in_plus(s: Set<Name>, names: Seq<Name>, x: Name)
    ensures plus(s, names).contains(x) <==> s.contains(x) || names.contains(x),
    decreases names.len(),
{
    if names.len() > 0 {
        in_plus(s, names.drop_last(), x);
        if names.contains(x) && x != names.last() { let i = names.index_of(x); assert(names.drop_last()[i] == x); }
        if names.drop_last().contains(x) { let i = names.drop_last().index_of(x); assert(names[i] == x); }
        if x == names.last() { assert(names[names.len() - 1] == x); }
    }
}
/// the names in scope and the known ones come before c; what a name in scope stands for names what is in scope
pub open spec fn world(s: Set<Name>, k: Known, c: nat) -> bool {
    (forall|x: Name| #[trigger] s.contains(x) ==> x.id < c)
    && (forall|n: Name| #[trigger] k.contains_key(n) ==> n.id < c && nice(k[n], c))
    && (forall|n: Name, x: Name| k.contains_key(n) && s.contains(n) && #[trigger] fv(k[n], x) ==> s.contains(x))
}
pub open spec fn placed(e: Expr, s: Set<Name>, k: Known, x: Name) -> bool {
    (fv(e, x) ==> s.contains(x)) && (bc(e, x) > 0 ==> !s.contains(x) && !k.contains_key(x))
}
pub open spec fn ready(e: Expr, s: Set<Name>, k: Known, c: nat) -> bool { nice(e, c) && world(s, k, c) && forall|x: Name| #[trigger] placed(e, s, k, x) }
/// in env the known names in scope mean what is known about them
pub open spec fn known(k: Known, s: Set<Name>, env: DEnv) -> bool {
    forall|n: Name| k.contains_key(n) && #[trigger] s.contains(n) ==> look(env, n) == den(env, k[n])
}
pub open spec fn means(e: Expr, r: Expr, s: Set<Name>, k: Known) -> bool { forall|env: DEnv| #[trigger] known(k, s, env) ==> den(env, e) == den(env, r) }
pub open spec fn moved_at(e: Expr, r: Expr, s: Set<Name>, c: nat, d: nat, x: Name) -> bool {
    bc(r, x) <= (if x.id < c { bc(e, x) } else if x.id < d { 1 } else { 0 }) && (fv(r, x) ==> s.contains(x)) && !dup(r, x)
}
/// r binds what e binds, and once each names from c to d
pub open spec fn moved(e: Expr, r: Expr, s: Set<Name>, c: nat, d: nat) -> bool { forall|x: Name| #[trigger] moved_at(e, r, s, c, d, x) }
pub open spec fn grown(k: Known, l: Known, e: Expr, c: nat, d: nat) -> bool {
    (forall|n: Name| #[trigger] l.contains_key(n) ==> n.id < d && nice(l[n], d) && (k.contains_key(n) && l[n] == k[n] || !k.contains_key(n) && (bc(e, n) > 0 || c <= n.id)))
    && (forall|n: Name| #[trigger] k.contains_key(n) ==> l.contains_key(n))
}
pub open spec fn alike_on(k: Known, l: Known, s: Set<Name>) -> bool {
    forall|n: Name| #[trigger] s.contains(n) ==> (l.contains_key(n) <==> k.contains_key(n)) && (k.contains_key(n) ==> l[n] == k[n])
}
pub open spec fn waiting(q: Expr, s: Set<Name>, k1: Known, k: Known, c: nat) -> bool { ready(q, s, k, c) && alike_on(k1, k, s) }
pub open spec fn turn(e: Expr, r: Expr, s: Set<Name>, k: Known, c: nat, d: nat) -> bool { c <= d && moved(e, r, s, c, d) && means(e, r, s, k) }
proof fn nice_more(e: Expr, c: nat, d: nat)
    requires nice(e, c), c <= d,
    ensures nice(e, d),
{
    assert forall|x: Name| #[trigger] occ(e, x) implies x.id < d by {}
}
proof fn known_alike(k: Known, l: Known, s: Set<Name>, env: DEnv)
    requires alike_on(k, l, s),
    ensures known(k, s, env) == known(l, s, env),
{
    if known(k, s, env) { assert forall|n: Name| l.contains_key(n) && #[trigger] s.contains(n) implies look(env, n) == den(env, l[n]) by {} }
    if known(l, s, env) { assert forall|n: Name| k.contains_key(n) && #[trigger] s.contains(n) implies look(env, n) == den(env, k[n]) by {} }
}
proof fn means_alike(k: Known, l: Known, s: Set<Name>, e: Expr, r: Expr)
    requires alike_on(k, l, s), means(e, r, s, l),
    ensures means(e, r, s, k),
{
    assert forall|env: DEnv| #[trigger] known(k, s, env) implies den(env, e) == den(env, r) by { known_alike(k, l, s, env); assert(known(l, s, env)); }
}
/// the binders of e are not in scope
pub open spec fn out_of(e: Expr, s: Set<Name>) -> bool { forall|x: Name| #[trigger] bc(e, x) > 0 ==> !s.contains(x) }
proof fn grown_alike(k: Known, l: Known, e: Expr, s: Set<Name>, c: nat, d: nat)
    requires grown(k, l, e, c, d), out_of(e, s), world(s, k, c),
    ensures alike_on(k, l, s),
{
    assert forall|n: Name| #[trigger] s.contains(n) implies (l.contains_key(n) <==> k.contains_key(n)) && (k.contains_key(n) ==> l[n] == k[n]) by {
        assert(n.id < c);
        if bc(e, n) > 0 {}
    }
}
proof fn grown_world(k: Known, l: Known, e: Expr, s: Set<Name>, c: nat, d: nat)
    requires grown(k, l, e, c, d), out_of(e, s), world(s, k, c), c <= d,
    ensures world(s, l, d), alike_on(k, l, s),
{
    grown_alike(k, l, e, s, c, d);
    assert forall|x: Name| #[trigger] s.contains(x) implies x.id < d by {}
    assert forall|n: Name, x: Name| l.contains_key(n) && s.contains(n) && #[trigger] fv(l[n], x) implies s.contains(x) by { assert(k.contains_key(n) && l[n] == k[n]); assert(fv(k[n], x)); }
}
/// q waits while p is walked
proof fn step(p: Expr, q: Expr, sp: Set<Name>, sq: Set<Name>, k1: Known, k: Known, l: Known, c: nat, d: nat)
    requires
        ready(p, sp, k, c), waiting(q, sq, k1, k, c), grown(k, l, p, c, d), c <= d,
        forall|x: Name| #[trigger] bc(p, x) > 0 ==> bc(q, x) == 0 && !sq.contains(x),
    ensures waiting(q, sq, k1, l, d),
{
    grown_world(k, l, p, sq, c, d);
    nice_more(q, c, d);
    assert forall|x: Name| #[trigger] placed(q, sq, l, x) by {
        assert(placed(q, sq, k, x));
        if bc(q, x) > 0 { assert(occ(q, x)); if bc(p, x) > 0 {} }
    }
    assert(alike_on(k1, l, sq)) by {
        assert forall|n: Name| #[trigger] sq.contains(n) implies (l.contains_key(n) <==> k1.contains_key(n)) && (k1.contains_key(n) ==> l[n] == k1[n]) by {}
    }
}
proof fn grown_refl(k: Known, e: Expr, s: Set<Name>, c: nat)
    requires world(s, k, c),
    ensures grown(k, k, e, c, c),
{}
proof fn grown_more(k: Known, l: Known, m: Known, e: Expr, p: Expr, c: nat, d: nat, f: nat)
    requires grown(k, l, e, c, d), grown(l, m, p, d, f), dce::binds_less(p, e), c <= d <= f,
    ensures grown(k, m, e, c, f),
{
    assert forall|n: Name| #[trigger] m.contains_key(n) implies n.id < f && nice(m[n], f) && (k.contains_key(n) && m[n] == k[n] || !k.contains_key(n) && (bc(e, n) > 0 || c <= n.id)) by {
        assert(bc(p, n) <= bc(e, n));
        if l.contains_key(n) {} else { if k.contains_key(n) { assert(l.contains_key(n)); } }
    }
    assert forall|n: Name| #[trigger] k.contains_key(n) implies m.contains_key(n) by { assert(l.contains_key(n)); }
}
proof fn grown_trans(k: Known, l: Known, m: Known, e: Expr, r: Expr, s: Set<Name>, c: nat, d: nat, f: nat)
    requires grown(k, l, e, c, d), grown(l, m, r, d, f), moved(e, r, s, c, d), c <= d <= f,
    ensures grown(k, m, e, c, f),
{
    assert forall|n: Name| #[trigger] m.contains_key(n) implies n.id < f && nice(m[n], f) && (k.contains_key(n) && m[n] == k[n] || !k.contains_key(n) && (bc(e, n) > 0 || c <= n.id)) by {
        assert(moved_at(e, r, s, c, d, n));
        if l.contains_key(n) {} else { if k.contains_key(n) { assert(l.contains_key(n)); } }
    }
    assert forall|n: Name| #[trigger] k.contains_key(n) implies m.contains_key(n) by { assert(l.contains_key(n)); }
}
proof fn moved_trans(a: Expr, b: Expr, r: Expr, s: Set<Name>, c: nat, d: nat, f: nat)
    requires moved(a, b, s, c, d), moved(b, r, s, d, f), c <= d <= f,
    ensures moved(a, r, s, c, f),
{
    assert forall|x: Name| #[trigger] moved_at(a, r, s, c, f, x) by { assert(moved_at(a, b, s, c, d, x)); assert(moved_at(b, r, s, d, f, x)); }
}
proof fn means_trans(a: Expr, b: Expr, r: Expr, s: Set<Name>, k: Known)
    requires means(a, b, s, k), means(b, r, s, k),
    ensures means(a, r, s, k),
{
    assert forall|env: DEnv| #[trigger] known(k, s, env) implies den(env, a) == den(env, r) by {}
}
proof fn moved_refl(e: Expr, s: Set<Name>, c: nat)
    requires nice(e, c), forall|x: Name| #[trigger] fv(e, x) ==> s.contains(x),
    ensures moved(e, e, s, c, c),
{
    assert forall|x: Name| #[trigger] moved_at(e, e, s, c, c, x) by { assert(fresh_at(e, x)); if bc(e, x) > 0 { assert(occ(e, x)); } }
}
proof fn moved_nice(e: Expr, r: Expr, s: Set<Name>, c: nat, d: nat)
    requires nice(e, c), out_of(e, s), forall|x: Name| #[trigger] s.contains(x) ==> x.id < c, moved(e, r, s, c, d), c <= d,
    ensures nice(r, d),
{
    assert forall|x: Name| #[trigger] fresh_at(r, x) by {
        assert(moved_at(e, r, s, c, d, x)); assert(fresh_at(e, x));
        if fv(r, x) { assert(s.contains(x)); if bc(e, x) > 0 {} }
    }
    assert forall|x: Name| #[trigger] occ(r, x) implies x.id < d by { assert(moved_at(e, r, s, c, d, x)); }
}

// -- the parts of an expression in the order they are walked, and what is in scope in them
pub open spec fn parts(e: Expr) -> nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => 0,
        Expr::Call(_, xs) => xs@.len() + 1,
        Expr::If(_, _, _) => 3,
        Expr::Op(_, _, _) => 2,
        Expr::Intrinsic(_, xs) => xs@.len(),
        Expr::Construct(_, _, xs) => xs@.len(),
        Expr::Lambda(_, _) => 1,
        Expr::Match(_, bs) => bs@.len() + 1,
        Expr::Let(_, _, _) => 1,
        Expr::LetRec(_, _, _, _) => 2,
        Expr::Pi(_, _) => 1,
        Expr::PiApply(_, _) => 1,
    }
}
pub open spec fn part(e: Expr, i: int) -> Expr {
    match e {
        Expr::Call(f, xs) => if i == 0 { *f } else { xs@[i - 1] },
        Expr::If(a, b, c) => if i == 0 { *a } else if i == 1 { *b } else { *c },
        Expr::Op(a, _, b) => if i == 0 { *a } else { *b },
        Expr::Intrinsic(_, xs) => xs@[i],
        Expr::Construct(_, _, xs) => xs@[i],
        Expr::Lambda(_, b) => *b,
        Expr::Match(d, bs) => if i == 0 { *d } else { bs@[i - 1].value },
        Expr::Let(_, _, b) => *b,
        Expr::LetRec(_, _, v, b) => if i == 0 { *v } else { *b },
        Expr::Pi(_, b) => *b,
        Expr::PiApply(b, _) => *b,
        _ => e,
    }
}
pub open spec fn scope(e: Expr, s: Set<Name>, i: int) -> Set<Name> {
    match e {
        Expr::Lambda(ps, _) => plus(s, param_names(ps@)),
        Expr::Match(_, bs) => if i == 0 { s } else { plus(s, bs@[i - 1].bindings@) },
        Expr::Let(n, _, _) => s.insert(n),
        Expr::LetRec(n, _, _, _) => s.insert(n),
        _ => s,
    }
}
pub open spec fn clear_parts(e: Expr, s: Set<Name>) -> bool {
    forall|i: int, j: int, x: Name| 0 <= i < j < parts(e) && #[trigger] bc(part(e, i), x) > 0 ==> bc(#[trigger] part(e, j), x) == 0 && !scope(e, s, j).contains(x)
}
pub open spec fn waits(e: Expr, s: Set<Name>, k1: Known, k: Known, c: nat, i: nat) -> bool {
    forall|j: int| i <= j < parts(e) ==> waiting(#[trigger] part(e, j), scope(e, s, j), k1, k, c)
}
proof fn step_all(e: Expr, s: Set<Name>, k1: Known, k: Known, l: Known, c: nat, d: nat, i: nat)
    requires clear_parts(e, s), waits(e, s, k1, k, c, i), i < parts(e), grown(k, l, part(e, i as int), c, d), c <= d,
    ensures waits(e, s, k1, l, d, i + 1),
{
    let p = part(e, i as int);
    assert(waiting(p, scope(e, s, i as int), k1, k, c));
    assert forall|j: int| i + 1 <= j < parts(e) implies waiting(#[trigger] part(e, j), scope(e, s, j), k1, l, d) by {
        let q = part(e, j);
        assert(waiting(q, scope(e, s, j), k1, k, c));
        assert forall|x: Name| #[trigger] bc(p, x) > 0 implies bc(q, x) == 0 && !scope(e, s, j).contains(x) by { assert(bc(part(e, i as int), x) > 0); }
        step(p, q, scope(e, s, i as int), scope(e, s, j), k1, k, l, c, d);
    }
}
/// an expression about to be walked: a `let` may stand for its value already
pub open spec fn good(e: Expr, s: Set<Name>, k: Known, c: nat) -> bool {
    nice(e, c) && world(s, k, c) && match e {
        Expr::Let(n, v, b) => (forall|x: Name| #[trigger] fv(e, x) ==> s.contains(x)) && !s.contains(n) && (k.contains_key(n) ==> k[n] == *v)
            && (forall|x: Name| #[trigger] bc(*b, x) > 0 ==> !s.contains(x) && !k.contains_key(x)),
        _ => forall|x: Name| #[trigger] placed(e, s, k, x),
    }
}
proof fn world_under(s: Set<Name>, names: Seq<Name>, k: Known, c: nat)
    requires world(s, k, c), small(names, c), forall|i: int| 0 <= i < names.len() ==> !k.contains_key(#[trigger] names[i]),
    ensures world(plus(s, names), k, c),
{
    let t = plus(s, names);
    assert forall|x: Name| #[trigger] t.contains(x) implies x.id < c by { in_plus(s, names, x); if names.contains(x) { let i = names.index_of(x); assert(names[i] == x); } }
    assert forall|n: Name, x: Name| k.contains_key(n) && t.contains(n) && #[trigger] fv(k[n], x) implies t.contains(x) by {
        in_plus(s, names, n); in_plus(s, names, x);
        if names.contains(n) { let i = names.index_of(n); assert(names[i] == n); }
    }
}
proof fn alike_refl(k: Known, s: Set<Name>)
    ensures alike_on(k, k, s),
{}
/// a part with the scope of the whole
proof fn part_waits(e: Expr, p: Expr, s: Set<Name>, k: Known, c: nat)
    requires nice(p, c), world(s, k, c), forall|x: Name| #[trigger] placed(e, s, k, x), forall|x: Name| #[trigger] fv(p, x) ==> fv(e, x), dce::binds_less(p, e),
    ensures waiting(p, s, k, k, c),
{
    assert forall|x: Name| #[trigger] placed(p, s, k, x) by { assert(placed(e, s, k, x)); assert(bc(p, x) <= bc(e, x)); }
}
/// a part under binders
proof fn inner_waits(e: Expr, p: Expr, s: Set<Name>, names: Seq<Name>, k: Known, c: nat)
    requires
        nice(p, c), world(s, k, c), small(names, c), forall|x: Name| #[trigger] placed(e, s, k, x), dce::binds_less(p, e),
        forall|x: Name| #[trigger] fv(p, x) ==> fv(e, x) || names.contains(x),
        forall|i: int| 0 <= i < names.len() ==> bc(e, #[trigger] names[i]) > 0 && bc(p, names[i]) == 0,
    ensures waiting(p, plus(s, names), k, k, c),
{
    assert forall|i: int| 0 <= i < names.len() implies !k.contains_key(#[trigger] names[i]) by { assert(placed(e, s, k, names[i])); }
    world_under(s, names, k, c);
    assert forall|x: Name| #[trigger] placed(p, plus(s, names), k, x) by {
        assert(placed(e, s, k, x)); assert(bc(p, x) <= bc(e, x)); in_plus(s, names, x);
        if names.contains(x) { let i = names.index_of(x); assert(names[i] == x); }
    }
}
proof fn plus_one(s: Set<Name>, n: Name)
    ensures plus(s, seq![n]) == s.insert(n),
{
    assert(seq![n].drop_last() =~= Seq::<Name>::empty());
    assert(plus(s, seq![n].drop_last()) == s);
}
#[verifier::spinoff_prover]
proof fn good_waits(e: Expr, s: Set<Name>, k: Known, c: nat)
    requires good(e, s, k, c),
    ensures waits(e, s, k, k, c, 0),
{
    nice_parts(e, c);
    dce::parts_bind_less(e);
    match e {
        Expr::Call(f, xs) => {
            part_waits(e, *f, s, k, c);
            assert forall|j: int| 0 <= j < parts(e) implies waiting(#[trigger] part(e, j), scope(e, s, j), k, k, c) by { if j > 0 { list_waits(e, xs, j - 1, s, k, c); } }
        }
        Expr::Intrinsic(_, xs) => {
            assert forall|j: int| 0 <= j < parts(e) implies waiting(#[trigger] part(e, j), scope(e, s, j), k, k, c) by { list_waits(e, xs, j, s, k, c); }
        }
        Expr::Construct(_, _, xs) => {
            assert forall|j: int| 0 <= j < parts(e) implies waiting(#[trigger] part(e, j), scope(e, s, j), k, k, c) by { list_waits(e, xs, j, s, k, c); }
        }
        Expr::If(a, b, d) => { part_waits(e, *a, s, k, c); part_waits(e, *b, s, k, c); part_waits(e, *d, s, k, c); }
        Expr::Op(a, _, b) => { part_waits(e, *a, s, k, c); part_waits(e, *b, s, k, c); }
        Expr::Pi(_, b) => { part_waits(e, *b, s, k, c); }
        Expr::PiApply(b, _) => { part_waits(e, *b, s, k, c); }
        Expr::Lambda(ps, b) => {
            let names = param_names(ps@);
            assert forall|i: int| 0 <= i < names.len() implies bc(e, #[trigger] names[i]) > 0 && bc(*b, names[i]) == 0 by { assert(names[i] == ps@[i].name); assert(names.contains(names[i])); times_in(names, names[i]); }
            inner_waits(e, *b, s, names, k, c);
        }
        Expr::Match(d, bs) => {
            part_waits(e, *d, s, k, c);
            assert forall|j: int| 0 <= j < parts(e) implies waiting(#[trigger] part(e, j), scope(e, s, j), k, k, c) by {
                if j > 0 {
                    let b = bs@[j - 1];
                    assert(nice_branch(b, c));
                    assert forall|i: int| 0 <= i < b.bindings@.len() implies bc(e, #[trigger] b.bindings@[i]) > 0 && bc(b.value, b.bindings@[i]) == 0 by {
                        assert(b.bindings@.contains(b.bindings@[i])); times_in(b.bindings@, b.bindings@[i]); branch_part(bs, bs@.len(), j - 1, b.bindings@[i]);
                    }
                    assert forall|x: Name| #[trigger] fv(b.value, x) implies fv(e, x) || b.bindings@.contains(x) by { branch_part(bs, bs@.len(), j - 1, x); }
                    assert(dce::binds_less(b.value, e));
                    inner_waits(e, b.value, s, b.bindings@, k, c);
                }
            }
        }
        Expr::Let(n, v, b) => {
            let t = s.insert(n);
            assert(world(t, k, c)) by {
                assert forall|x: Name| #[trigger] t.contains(x) implies x.id < c by {}
                assert forall|m: Name, x: Name| k.contains_key(m) && t.contains(m) && #[trigger] fv(k[m], x) implies t.contains(x) by { if m == n { assert(fv(*v, x)); assert(fv(e, x)); } }
            }
            assert forall|x: Name| #[trigger] placed(*b, t, k, x) by { if fv(*b, x) && x != n { assert(fv(e, x)); } if x == n { assert(bc(*b, n) == 0); } }
            alike_refl(k, t);
        }
        Expr::LetRec(n, _, v, b) => {
            let names = seq![n];
            plus_one(s, n);
            assert(names.contains(n)) by { assert(names[0] == n); }
            assert(bc(e, n) > 0);
            assert forall|x: Name| #[trigger] fv(*v, x) implies fv(e, x) || names.contains(x) by {}
            assert forall|x: Name| #[trigger] fv(*b, x) implies fv(e, x) || names.contains(x) by {}
            inner_waits(e, *v, s, names, k, c);
            inner_waits(e, *b, s, names, k, c);
        }
        _ => {}
    }
}
proof fn list_waits(e: Expr, xs: Vec<Expr>, j: int, s: Set<Name>, k: Known, c: nat)
    requires
        0 <= j < xs@.len(), nice_list(xs, c), world(s, k, c), forall|x: Name| #[trigger] placed(e, s, k, x), dce::binds_less(xs@[j], e),
        e is Call && e->Call_1 == xs || e is Intrinsic && e->Intrinsic_1 == xs || e is Construct && e->Construct_2 == xs,
    ensures waiting(xs@[j], s, k, k, c),
{
    assert forall|x: Name| #[trigger] fv(xs@[j], x) implies fv(e, x) by { list_part(xs, xs@.len(), j, x); }
    part_waits(e, xs@[j], s, k, c);
}
#[verifier::spinoff_prover]
proof fn good_clear(e: Expr, s: Set<Name>, k: Known, c: nat)
    requires good(e, s, k, c),
    ensures clear_parts(e, s),
{
    nice_parts(e, c);
    assert forall|i: int, j: int, x: Name| 0 <= i < j < parts(e) && #[trigger] bc(part(e, i), x) > 0 implies bc(#[trigger] part(e, j), x) == 0 && !scope(e, s, j).contains(x) by {
        assert(fresh_at(e, x));
        assert(placed(e, s, k, x));
        match e {
            Expr::Call(f, xs) => { list_part(xs, xs@.len(), j - 1, x); if i > 0 { two_in(xs, xs@.len(), i - 1, j - 1, x); } }
            Expr::Intrinsic(_, xs) => { two_in(xs, xs@.len(), i, j, x); }
            Expr::Construct(_, _, xs) => { two_in(xs, xs@.len(), i, j, x); }
            Expr::Match(d, bs) => {
                branch_part(bs, bs@.len(), j - 1, x);
                times_in(bs@[j - 1].bindings@, x);
                in_plus(s, bs@[j - 1].bindings@, x);
                if i > 0 { two_branches(bs, bs@.len(), i - 1, j - 1, x); }
            }
            _ => {}
        }
    }
}
proof fn part_binds(e: Expr, i: int)
    requires 0 <= i < parts(e),
    ensures dce::binds_less(part(e, i), e),
{
    dce::parts_bind_less(e);
}

// -- an expression whose parts have been walked
/// only the parts differ
pub open spec fn same_node(e: Expr, r: Expr) -> bool {
    match (e, r) {
        (Expr::Bool(_), _) | (Expr::Int(_), _) | (Expr::String(_), _) | (Expr::Name(_), _) | (Expr::Trap(_, _), _) => e == r,
        (Expr::Call(_, xs), Expr::Call(_, ys)) => xs@.len() == ys@.len(),
        (Expr::If(_, _, _), Expr::If(_, _, _)) => true,
        (Expr::Op(_, o, _), Expr::Op(_, p, _)) => o == p,
        (Expr::Intrinsic(i, xs), Expr::Intrinsic(j, ys)) => i == j && xs@.len() == ys@.len(),
        (Expr::Construct(c, _, xs), Expr::Construct(d, _, ys)) => c == d && xs@.len() == ys@.len(),
        (Expr::Lambda(ps, _), Expr::Lambda(qs, _)) => param_names(ps@) == param_names(qs@),
        (Expr::Match(_, bs), Expr::Match(_, cs)) => bs@.len() == cs@.len() && forall|i: int| 0 <= i < bs@.len() ==> (#[trigger] bs@[i]).ctor == cs@[i].ctor && bs@[i].bindings@ == cs@[i].bindings@,
        (Expr::Let(n, v, _), Expr::Let(m, w, _)) => n == m && *v == *w,
        (Expr::LetRec(n, _, _, _), Expr::LetRec(m, _, _, _)) => n == m,
        (Expr::Pi(_, _), Expr::Pi(_, _)) => true,
        (Expr::PiApply(_, _), Expr::PiApply(_, _)) => true,
        _ => false,
    }
}
/// the part has been walked while the counter went from cs[i] to cs[i + 1]
pub open spec fn part_turned(e: Expr, s: Set<Name>, k: Known, cs: Seq<nat>, i: int, q: Expr) -> bool {
    turn(part(e, i), q, scope(e, s, i), k, cs[i], cs[i + 1])
}
pub open spec fn rising(cs: Seq<nat>) -> bool { forall|i: int, j: int| 0 <= i <= j < cs.len() ==> #[trigger] cs[i] <= #[trigger] cs[j] }
pub open spec fn all_turned(e: Expr, r: Expr, s: Set<Name>, k: Known, cs: Seq<nat>) -> bool {
    rising(cs) && cs.len() == parts(e) + 1 && forall|i: int| 0 <= i < parts(e) ==> part_turned(e, s, k, cs, i, #[trigger] part(r, i))
}
/// names that a part of e binds come before c
proof fn list_moved(xs: Vec<Expr>, ys: Vec<Expr>, s: Set<Name>, c: nat, cs: Seq<nat>, o: int, n: nat, x: Name)
    requires
        n <= xs@.len(), ys@.len() == xs@.len(), 0 <= o, o + n < cs.len(), rising(cs), c <= cs[o],
        forall|i: int| 0 <= i < xs@.len() ==> nice(#[trigger] xs@[i], c),
        forall|i: int| 0 <= i < n ==> moved(xs@[i], #[trigger] ys@[i], s, cs[i + o], cs[i + o + 1]),
    ensures
        bc_list(ys, n, x) <= (if x.id < cs[o] { bc_list(xs, n, x) } else if x.id < cs[n + o] { 1 } else { 0 }),
        fv_list(ys, n, x) ==> s.contains(x), !dup_list(ys, n, x),
    decreases n,
{
    if n > 0 {
        list_moved(xs, ys, s, c, cs, o, (n - 1) as nat, x);
        let i = n - 1;
        assert(moved(xs@[i], ys@[i], s, cs[i + o], cs[i + o + 1]));
        assert(moved_at(xs@[i], ys@[i], s, cs[i + o], cs[i + o + 1], x));
        assert(cs[o] <= cs[i + o] && cs[i + o] <= cs[n + o]);
        if bc(xs@[i], x) > 0 { assert(occ(xs@[i], x)); }
    }
}
proof fn branches_moved(bs: Vec<Branch>, rs: Vec<Branch>, s: Set<Name>, c: nat, cs: Seq<nat>, o: int, n: nat, x: Name)
    requires
        n <= bs@.len(), rs@.len() == bs@.len(), 0 <= o, o + n < cs.len(), rising(cs), c <= cs[o],
        forall|i: int| 0 <= i < bs@.len() ==> nice_branch(#[trigger] bs@[i], c),
        forall|i: int| 0 <= i < n ==> moved(bs@[i].value, (#[trigger] rs@[i]).value, plus(s, bs@[i].bindings@), cs[i + o], cs[i + o + 1]),
        forall|i: int| 0 <= i < bs@.len() ==> (#[trigger] bs@[i]).ctor == rs@[i].ctor && bs@[i].bindings@ == rs@[i].bindings@,
    ensures
        bc_branches(rs, n, x) <= (if x.id < cs[o] { bc_branches(bs, n, x) } else if x.id < cs[n + o] { 1 } else { 0 }),
        fv_branches(rs, n, x) ==> s.contains(x), !dup_branches(rs, n, x), ctor_times(rs, n, x) == ctor_times(bs, n, x),
    decreases n,
{
    if n > 0 {
        branches_moved(bs, rs, s, c, cs, o, (n - 1) as nat, x);
        let i = n - 1;
        let b = bs@[i];
        assert(nice_branch(b, c));
        assert(b.ctor == rs@[i].ctor && b.bindings@ == rs@[i].bindings@);
        assert(moved(b.value, rs@[i].value, plus(s, b.bindings@), cs[i + o], cs[i + o + 1]));
        assert(moved_at(b.value, rs@[i].value, plus(s, b.bindings@), cs[i + o], cs[i + o + 1], x));
        assert(cs[o] <= cs[i + o] && cs[i + o] <= cs[n + o]);
        in_plus(s, b.bindings@, x);
        times_in(b.bindings@, x);
        if b.bindings@.contains(x) { let j = b.bindings@.index_of(x); assert(b.bindings@[j] == x); assert(x.id < c); }
        if bc(b.value, x) > 0 { assert(occ(b.value, x)); }
    }
}
#[verifier::spinoff_prover]
proof fn node_moved(e: Expr, r: Expr, s: Set<Name>, k: Known, cs: Seq<nat>)
    requires good(e, s, k, cs[0]), same_node(e, r), all_turned(e, r, s, k, cs),
    ensures moved(e, r, s, cs[0], cs.last()),
{
    let c = cs[0];
    nice_parts(e, c);
    assert forall|x: Name| #[trigger] moved_at(e, r, s, c, cs.last(), x) by {
        assert(fresh_at(e, x));
        assert(placed(e, s, k, x) || e is Let);
        if bc(e, x) > 0 { assert(occ(e, x)); }
        match (e, r) {
            (Expr::Call(f, xs), Expr::Call(g, ys)) => {
                at_part(e, r, s, k, cs, 0, x);
                assert forall|i: int| 0 <= i < xs@.len() implies moved(xs@[i], #[trigger] ys@[i], s, cs[i + 1], cs[i + 1 + 1]) by { assert(part(r, i + 1) == ys@[i]); assert(part_turned(e, s, k, cs, i + 1, part(r, i + 1))); }
                assert(cs[0] <= cs[1] && cs[1] <= cs[xs@.len() as int + 1]);
                list_moved(xs, ys, s, c, cs, 1, xs@.len(), x);
                if bc(*f, x) > 0 { assert(occ(*f, x)); }
                if bc_list(xs, xs@.len(), x) > 0 { assert(occ(e, x)); }
            }
            (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => {
                assert forall|i: int| 0 <= i < xs@.len() implies moved(xs@[i], #[trigger] ys@[i], s, cs[i + 0], cs[i + 0 + 1]) by { assert(part(r, i) == ys@[i]); assert(part_turned(e, s, k, cs, i, part(r, i))); }
                list_moved(xs, ys, s, c, cs, 0, xs@.len(), x);
            }
            (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => {
                assert forall|i: int| 0 <= i < xs@.len() implies moved(xs@[i], #[trigger] ys@[i], s, cs[i + 0], cs[i + 0 + 1]) by { assert(part(r, i) == ys@[i]); assert(part_turned(e, s, k, cs, i, part(r, i))); }
                list_moved(xs, ys, s, c, cs, 0, xs@.len(), x);
            }
            (Expr::If(a, b, d), Expr::If(_, _, _)) => {
                at_part(e, r, s, k, cs, 0, x); at_part(e, r, s, k, cs, 1, x); at_part(e, r, s, k, cs, 2, x);
                assert(cs[0] <= cs[1] && cs[1] <= cs[2] && cs[2] <= cs[3]);
            }
            (Expr::Op(a, _, b), Expr::Op(_, _, _)) => {
                at_part(e, r, s, k, cs, 0, x); at_part(e, r, s, k, cs, 1, x);
                assert(cs[0] <= cs[1] && cs[1] <= cs[2]);
            }
            (Expr::Lambda(ps, b), Expr::Lambda(_, _)) => {
                at_part(e, r, s, k, cs, 0, x);
                in_plus(s, param_names(ps@), x);
                times_in(param_names(ps@), x);
            }
            (Expr::Match(d, bs), Expr::Match(g, rs)) => {
                at_part(e, r, s, k, cs, 0, x);
                assert forall|i: int| 0 <= i < bs@.len() implies moved(bs@[i].value, (#[trigger] rs@[i]).value, plus(s, bs@[i].bindings@), cs[i + 1], cs[i + 1 + 1]) by {
                    assert(part(r, i + 1) == rs@[i].value); assert(part_turned(e, s, k, cs, i + 1, part(r, i + 1)));
                }
                assert(cs[0] <= cs[1] && cs[1] <= cs[bs@.len() as int + 1]);
                branches_moved(bs, rs, s, c, cs, 1, bs@.len(), x);
                if bc_branches(bs, bs@.len(), x) > 0 { assert(occ(e, x)); }
            }
            (Expr::Let(n, v, b), Expr::Let(_, _, _)) => { at_part(e, r, s, k, cs, 0, x); if fv(*v, x) { assert(fv(e, x)); } }
            (Expr::LetRec(n, _, v, b), Expr::LetRec(_, _, _, _)) => {
                at_part(e, r, s, k, cs, 0, x); at_part(e, r, s, k, cs, 1, x);
                assert(cs[0] <= cs[1] && cs[1] <= cs[2]);
            }
            (Expr::Pi(_, b), Expr::Pi(_, _)) => { at_part(e, r, s, k, cs, 0, x); }
            (Expr::PiApply(b, _), Expr::PiApply(_, _)) => { at_part(e, r, s, k, cs, 0, x); }
            _ => {}
        }
    }
}
proof fn at_part(e: Expr, r: Expr, s: Set<Name>, k: Known, cs: Seq<nat>, i: int, x: Name)
    requires all_turned(e, r, s, k, cs), 0 <= i < parts(e),
    ensures moved_at(part(e, i), part(r, i), scope(e, s, i), cs[i], cs[i + 1], x),
{
    assert(part_turned(e, s, k, cs, i, part(r, i)));
}
proof fn part_means(e: Expr, r: Expr, s: Set<Name>, k: Known, cs: Seq<nat>, i: int, env: DEnv)
    requires all_turned(e, r, s, k, cs), 0 <= i < parts(e), known(k, scope(e, s, i), env),
    ensures den(env, part(e, i)) == den(env, part(r, i)),
{
    assert(part_turned(e, s, k, cs, i, part(r, i)));
}
/// what is known stays so under binders of other names
proof fn known_under(s: Set<Name>, k: Known, c: nat, names: Seq<Name>, vals: Seq<D>, env: DEnv)
    requires known(k, s, env), world(s, k, c), forall|i: int| 0 <= i < names.len() ==> !s.contains(#[trigger] names[i]) && !k.contains_key(names[i]),
    ensures known(k, plus(s, names), bind_all(env, names, vals, names.len())),
{
    let t = bind_all(env, names, vals, names.len());
    assert forall|n: Name| k.contains_key(n) && #[trigger] plus(s, names).contains(n) implies look(t, n) == den(t, k[n]) by {
        in_plus(s, names, n);
        if names.contains(n) { let i = names.index_of(n); assert(names[i] == n); }
        assert(s.contains(n));
        assert forall|i: int| 0 <= i < names.len() implies !fv(k[n], #[trigger] names[i]) by {}
        reduce_apply::bind_names(env, names, vals, names.len(), k[n]);
        not_bound(env, names, vals, names.len(), n);
    }
}
proof fn not_bound(env: DEnv, names: Seq<Name>, vals: Seq<D>, n: nat, x: Name)
    requires n <= names.len(), !names.contains(x),
    ensures look(bind_all(env, names, vals, n), x) == look(env, x),
    decreases n,
{
    if n > 0 { not_bound(env, names, vals, (n - 1) as nat, x); assert(names.contains(names[n - 1])); }
}
proof fn list_means(e: Expr, r: Expr, s: Set<Name>, k: Known, cs: Seq<nat>, xs: Vec<Expr>, ys: Vec<Expr>, o: int, n: nat, env: DEnv)
    requires
        all_turned(e, r, s, k, cs), known(k, s, env), n <= xs@.len(), xs@.len() == ys@.len(), o >= 0, o + xs@.len() <= parts(e),
        forall|i: int| 0 <= i < xs@.len() ==> part(e, i + o) == #[trigger] xs@[i] && part(r, i + o) == ys@[i] && scope(e, s, i + o) == s,
    ensures den_list(env, xs, n) == den_list(env, ys, n),
    decreases n,
{
    if n > 0 {
        list_means(e, r, s, k, cs, xs, ys, o, (n - 1) as nat, env);
        assert(part(e, n - 1 + o) == xs@[n - 1]);
        part_means(e, r, s, k, cs, n - 1 + o, env);
    }
}
proof fn same_find_too(bs: Seq<Branch>, rs: Seq<Branch>, c: Name, i: nat)
    requires bs.len() == rs.len(), i <= bs.len(), forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).ctor == rs[i].ctor,
    ensures find_branch(bs, c, i) == find_branch(rs, c, i),
    decreases bs.len() - i,
{
    if i < bs.len() { assert(bs[i as int].ctor == rs[i as int].ctor); same_find_too(bs, rs, c, i + 1); }
}
#[verifier::spinoff_prover]
proof fn node_means(e: Expr, r: Expr, s: Set<Name>, k: Known, cs: Seq<nat>)
    requires good(e, s, k, cs[0]), same_node(e, r), all_turned(e, r, s, k, cs),
    ensures means(e, r, s, k),
{
    let c = cs[0];
    nice_parts(e, c);
    assert forall|env: DEnv| #[trigger] known(k, s, env) implies den(env, e) == den(env, r) by {
        match (e, r) {
            (Expr::Call(f, xs), Expr::Call(g, ys)) => { part_means(e, r, s, k, cs, 0, env); list_means(e, r, s, k, cs, xs, ys, 1, xs@.len(), env); }
            (Expr::Intrinsic(_, xs), Expr::Intrinsic(_, ys)) => { list_means(e, r, s, k, cs, xs, ys, 0, xs@.len(), env); }
            (Expr::Construct(_, _, xs), Expr::Construct(_, _, ys)) => { list_means(e, r, s, k, cs, xs, ys, 0, xs@.len(), env); }
            (Expr::If(_, _, _), Expr::If(_, _, _)) => { part_means(e, r, s, k, cs, 0, env); part_means(e, r, s, k, cs, 1, env); part_means(e, r, s, k, cs, 2, env); }
            (Expr::Op(_, _, _), Expr::Op(_, _, _)) => { part_means(e, r, s, k, cs, 0, env); part_means(e, r, s, k, cs, 1, env); }
            (Expr::Pi(_, _), Expr::Pi(_, _)) => { part_means(e, r, s, k, cs, 0, env); }
            (Expr::PiApply(_, _), Expr::PiApply(_, _)) => { part_means(e, r, s, k, cs, 0, env); }
            (Expr::Lambda(ps, b), Expr::Lambda(qs, d)) => {
                let names = param_names(ps@);
                assert(names.len() == ps@.len() && param_names(qs@).len() == qs@.len());
                let f = lam_fn(env, names, *b);
                let g = lam_fn(env, param_names(qs@), *d);
                assert forall|i: int| 0 <= i < names.len() implies !s.contains(#[trigger] names[i]) && !k.contains_key(names[i]) by {
                    assert(names.contains(names[i])); times_in(names, names[i]); assert(placed(e, s, k, names[i]));
                }
                assert forall|vs: Seq<D>| #[trigger] f(vs) == g(vs) by {
                    known_under(s, k, c, names, vs, env);
                    part_means(e, r, s, k, cs, 0, bind_all(env, names, vs, names.len()));
                }
                assert(f =~= g);
            }
            (Expr::Match(d, bs), Expr::Match(g, rs)) => {
                part_means(e, r, s, k, cs, 0, env);
                match den(env, *d) {
                    D::Comp(t, vs) => {
                        same_find_too(bs@, rs@, t, 0);
                        let i = find_branch(bs@, t, 0);
                        if i < bs@.len() {
                            let b = bs@[i as int];
                            let names = b.bindings@;
                            assert(rs@[i as int].bindings@ == names);
                            assert forall|j: int| 0 <= j < names.len() implies !s.contains(#[trigger] names[j]) && !k.contains_key(names[j]) by {
                                assert(names.contains(names[j])); times_in(names, names[j]); branch_part(bs, bs@.len(), i as int, names[j]); assert(placed(e, s, k, names[j]));
                            }
                            known_under(s, k, c, names, vs, env);
                            part_means(e, r, s, k, cs, i as int + 1, bind_all(env, names, vs, names.len()));
                        }
                    }
                    _ => {}
                }
            }
            (Expr::Let(n, v, b), Expr::Let(_, _, _)) => {
                let t = env.insert(n, den(env, *v));
                assert forall|m: Name| k.contains_key(m) && #[trigger] s.insert(n).contains(m) implies look(t, m) == den(t, k[m]) by {
                    if m == n { if fv(*v, n) { assert(fv(e, n)); } weaken(env, n, den(env, *v), *v); } else {
                        assert(s.contains(m));
                        if fv(k[m], n) {}
                        weaken(env, n, den(env, *v), k[m]);
                    }
                }
                part_means(e, r, s, k, cs, 0, t);
            }
            (Expr::LetRec(n, _, v, b), Expr::LetRec(_, _, w, _)) => {
                let names = seq![n];
                plus_one(s, n);
                assert(placed(e, s, k, n));
                let f = rec_fn(env, n, *v);
                let g = rec_fn(env, n, *w);
                assert forall|x: D| #[trigger] f(x) == g(x) by {
                    known_under(s, k, c, names, seq![x], env);
                    one_bound(env, n, x);
                    part_means(e, r, s, k, cs, 0, env.insert(n, x));
                }
                assert(f =~= g);
                known_under(s, k, c, names, seq![lfp(f)], env);
                one_bound(env, n, lfp(f));
                part_means(e, r, s, k, cs, 1, env.insert(n, lfp(f)));
            }
            _ => {}
        }
    }
}
proof fn one_bound(env: DEnv, n: Name, x: D)
    ensures bind_all(env, seq![n], seq![x], 1) == env.insert(n, x),
{
    assert(bind_all(env, seq![n], seq![x], 0) == env);
    assert(seq![n][0] == n && seq![x][0] == x);
}
// -- the name at the head of a call
pub open spec fn head(e: Expr) -> Option<Name> decreases e {
    match e { Expr::Name(n) => Some(n), Expr::Call(f, _) => head(*f), Expr::PiApply(f, _) => head(*f), _ => None }
}
pub open spec fn put(e: Expr, d: Expr) -> Expr decreases e {
    match e { Expr::Call(f, xs) => Expr::Call(Box::new(put(*f, d)), xs), Expr::PiApply(f, t) => Expr::PiApply(Box::new(put(*f, d)), t), _ => d }
}
proof fn put_names(e: Expr, d: Expr, x: Name)
    requires head(e) is Some,
    ensures
        bc(put(e, d), x) == bc(e, x) + bc(d, x), fv(put(e, d), x) ==> fv(e, x) || fv(d, x), dup(put(e, d), x) ==> dup(e, x) || dup(d, x),
        fv(e, head(e)->0),
    decreases e,
{
    match e { Expr::Call(f, xs) => { put_names(*f, d, x); } Expr::PiApply(f, t) => { put_names(*f, d, x); } _ => {} }
}
proof fn put_means(env: DEnv, e: Expr, d: Expr)
    requires head(e) is Some, den(env, d) == look(env, head(e)->0),
    ensures den(env, put(e, d)) == den(env, e),
    decreases e,
{
    match e { Expr::Call(f, xs) => { put_means(env, *f, d); } Expr::PiApply(f, t) => { put_means(env, *f, d); } _ => {} }
}
#[verifier::external_body]
fn vx_inc(r: Option<(Name, usize)>) -> (q: Option<(Name, usize)>) ensures q is Some == r is Some, q is Some ==> (q->0).0 == (r->0).0 { unimplemented!() }
//@ fn ticc/src/codegen/opt/inline.rs check_for_inline
//@ ret r
//@ rule check_for_inline ( e ) . map ( | ( n , x ) | ( n , x + 1 ) ) ==> vx_inc ( check_for_inline ( e ) )
    ensures r is Some ==> head(*expr) == Some((r->0).0),
    decreases *expr,
//@ end
//@ fn ticc/src/codegen/opt/inline.rs inline
//@ splitor
    requires head(*old(expr)) is Some,
    ensures *final(expr) == put(*old(expr), def),
    decreases *old(expr),
//@ end
/// whether a value may be inlined does not matter here: any known value may
#[verifier::external_body]
fn check_inlinable(expr: &Expr, allow_complex_value: bool) -> (r: Option<usize>) { unimplemented!() }
#[verifier::external_body]
fn check_small_inlinable(expr: &Expr) -> (r: Option<usize>) { unimplemented!() }
#[verifier::external_body]
fn vx_clone_expr(e: &Expr) -> (r: Expr) ensures r == *e { unimplemented!() }
impl Inlinable {
//@ fn ticc/src/codegen/opt/inline.rs Inlinable::new
//@ ret r
//@ rule expr . clone ( ) ==> vx_clone_expr ( expr )
    ensures r.expr == *expr,
//@ end
}
/// `HashMap<Name, Inlinable>`
#[verifier::external_body]
pub struct InlMap { m: usize }
impl InlMap {
    pub uninterp spec fn view(&self) -> Known;
    #[verifier::external_body]
    fn new() -> (r: InlMap) ensures r@ == Map::<Name, Expr>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, n: Name, i: Inlinable) ensures final(self)@ == old(self)@.insert(n, i.expr) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, n: &Name) -> (r: Option<&Inlinable>) ensures r is Some ==> self@.contains_key(*n) && self@[*n] == r->0.expr { unimplemented!() }
}
proof fn placed_good(e: Expr, s: Set<Name>, k: Known, c: nat)
    requires nice(e, c), world(s, k, c), forall|x: Name| #[trigger] placed(e, s, k, x),
    ensures good(e, s, k, c), out_of(e, s), e is Let ==> !k.contains_key(e->Let_0),
{
    assert forall|x: Name| #[trigger] bc(e, x) > 0 implies !s.contains(x) by { assert(placed(e, s, k, x)); }
    match e {
        Expr::Let(n, v, b) => {
            assert(placed(e, s, k, n));
            assert forall|x: Name| #[trigger] fv(e, x) implies s.contains(x) by { assert(placed(e, s, k, x)); }
            assert forall|x: Name| #[trigger] bc(*b, x) > 0 implies !s.contains(x) && !k.contains_key(x) by { assert(placed(e, s, k, x)); }
        }
        _ => {}
    }
}
/// the copy of what is known about the name at the head takes its place
#[verifier::spinoff_prover]
proof fn inlined(e: Expr, d: Expr, s: Set<Name>, k: Known, c: nat, c2: nat)
    requires ready(e, s, k, c), head(e) is Some, k.contains_key(head(e)->0), copied(k[head(e)->0], d, c, c2), c <= c2,
    ensures
        turn(e, put(e, d), s, k, c, c2), good(put(e, d), s, k, c2), grown(k, k, e, c, c2), out_of(put(e, d), s),
{
    let n = head(e)->0;
    let r = put(e, d);
    assert(s.contains(n)) by { put_names(e, d, n); assert(placed(e, s, k, n)); }
    assert forall|x: Name| #[trigger] moved_at(e, r, s, c, c2, x) by {
        put_names(e, d, x);
        assert(fresh_at(e, x)); assert(fresh_at(d, x)); assert(placed(e, s, k, x));
        if bc(e, x) > 0 { assert(occ(e, x)); }
        if bc(d, x) > 0 {}
        assert(fv(d, x) == fv(k[n], x));
    }
    assert forall|env: DEnv| #[trigger] known(k, s, env) implies den(env, e) == den(env, r) by {
        assert(look(env, n) == den(env, k[n]));
        assert(den(env, d) == den(env, k[n]));
        put_means(env, e, d);
    }
    assert(out_of(e, s)) by { assert forall|x: Name| #[trigger] bc(e, x) > 0 implies !s.contains(x) by { assert(placed(e, s, k, x)); } }
    assert forall|m: Name| #[trigger] k.contains_key(m) implies m.id < c2 && nice(k[m], c2) by { nice_more(k[m], c, c2); }
    assert(grown(k, k, e, c, c2));
    moved_nice(e, r, s, c, c2);
    grown_world(k, k, e, s, c, c2);
    assert forall|x: Name| #[trigger] placed(r, s, k, x) by {
        assert(moved_at(e, r, s, c, c2, x)); assert(placed(e, s, k, x));
        if x.id < c {} else { assert(!s.contains(x)); assert(!k.contains_key(x)); }
    }
    placed_good(r, s, k, c2);
}
#[verifier::spinoff_prover]
proof fn kept(e: Expr, s: Set<Name>, k: Known, c: nat)
    requires good(e, s, k, c),
    ensures turn(e, e, s, k, c, c), grown(k, k, e, c, c), moved(e, e, s, c, c),
{
    assert forall|x: Name| #[trigger] fv(e, x) implies s.contains(x) by { if !(e is Let) { assert(placed(e, s, k, x)); } }
    moved_refl(e, s, c);
}
/// a `let` has become known
#[verifier::spinoff_prover]
proof fn noted(e: Expr, s: Set<Name>, k: Known, c: nat)
    requires good(e, s, k, c), e is Let, !k.contains_key(e->Let_0),
    ensures
        good(e, s, k.insert(e->Let_0, *(e->Let_1)), c), grown(k, k.insert(e->Let_0, *(e->Let_1)), e, c, c),
{
    let n = e->Let_0;
    let v = *(e->Let_1);
    let l = k.insert(n, v);
    nice_parts(e, c);
    assert(bc(e, n) > 0);
    assert forall|m: Name| #[trigger] l.contains_key(m) implies m.id < c && nice(l[m], c) && (k.contains_key(m) && l[m] == k[m] || !k.contains_key(m) && (bc(e, m) > 0 || c <= m.id)) by {}
    assert(world(s, l, c)) by {
        assert forall|m: Name, x: Name| l.contains_key(m) && s.contains(m) && #[trigger] fv(l[m], x) implies s.contains(x) by { assert(m != n); assert(fv(k[m], x)); }
    }
    assert forall|x: Name| #[trigger] bc(*(e->Let_2), x) > 0 implies !s.contains(x) && !l.contains_key(x) by { assert(bc(*(e->Let_2), n) == 0); }
}
//@ fn ticc/src/codegen/opt/inline.rs inline_functions
//@ params fn inline_functions<'s>(expr: &mut Expr, names: &mut Names<'s>, inlinables: &mut InlMap, Ghost(s): Ghost<Set<Name>>)
//@ rule ir :: Expr :: Let ( n , v , e ) = expr ==> Expr :: Let ( n , v , e ) = & * expr
//@ rule inline ( expr , inlinable . create_copy ( names ) ) ==> let vx_d = inlinable . create_copy ( names ) ; proof { inlined ( e0 , vx_d , s , k0 , c0 , cnt ( * names ) ) ; } inline ( expr , vx_d )
    requires good(*old(expr), s, old(inlinables)@, cnt(*old(names))), *old(expr) is Let ==> !old(inlinables)@.contains_key(old(expr)->Let_0), !(*old(expr) is Let) ==> ready(*old(expr), s, old(inlinables)@, cnt(*old(names))),
        out_of(*old(expr), s),
    ensures
        good(*final(expr), s, final(inlinables)@, cnt(*final(names))), out_of(*final(expr), s),
        turn(*old(expr), *final(expr), s, old(inlinables)@, cnt(*old(names)), cnt(*final(names))),
        grown(old(inlinables)@, final(inlinables)@, *old(expr), cnt(*old(names)), cnt(*final(names))),
//@ head
    let ghost e0 = *expr;
    let ghost k0 = inlinables@;
    let ghost c0 = cnt(*names);
    proof { kept(e0, s, k0, c0); if e0 is Let { noted(e0, s, k0, c0); } }
//@ end
/// what holds between the parts, i of them walked
pub open spec fn going(e: Expr, s: Set<Name>, k1: Known, k: Known, cs: Seq<nat>, i: int) -> bool {
    0 <= i <= parts(e) && cs.len() == i + 1 && rising(cs) && waits(e, s, k1, k, cs.last(), i as nat) && grown(k1, k, e, cs[0], cs.last()) && clear_parts(e, s)
}
#[verifier::spinoff_prover]
proof fn went(e: Expr, s: Set<Name>, k1: Known, k: Known, l: Known, cs: Seq<nat>, i: int, d: nat)
    requires going(e, s, k1, k, cs, i), i < parts(e), cs.last() <= d, grown(k, l, part(e, i), cs.last(), d),
    ensures
        going(e, s, k1, l, cs.push(d), i + 1),
        forall|q: Expr| #[trigger] turn(part(e, i), q, scope(e, s, i), k, cs.last(), d) ==> part_turned(e, s, k1, cs.push(d), i, q),
        forall|j: int, q: Expr| 0 <= j < i && #[trigger] part_turned(e, s, k1, cs, j, q) ==> part_turned(e, s, k1, cs.push(d), j, q),
{
    let t = cs.push(d);
    assert(waiting(part(e, i), scope(e, s, i), k1, k, cs.last()));
    assert(rising(t)) by { assert forall|a: int, b: int| 0 <= a <= b < t.len() implies #[trigger] t[a] <= #[trigger] t[b] by { if b < i + 1 { assert(cs[a] <= cs[b]); } else if a < i + 1 { assert(cs[a] <= cs[i]); } } }
    step_all(e, s, k1, k, l, cs.last(), d, i as nat);
    part_binds(e, i);
    assert(cs[0] <= cs[i]);
    grown_more(k1, k, l, e, part(e, i), cs[0], cs.last(), d);
    assert forall|q: Expr| #[trigger] turn(part(e, i), q, scope(e, s, i), k, cs.last(), d) implies part_turned(e, s, k1, t, i, q) by {
        means_alike(k1, k, scope(e, s, i), part(e, i), q);
    }
    assert forall|j: int, q: Expr| 0 <= j < i && #[trigger] part_turned(e, s, k1, cs, j, q) implies part_turned(e, s, k1, t, j, q) by { assert(t[j] == cs[j] && t[j + 1] == cs[j + 1]); }
}
/// the value of a `let` has been walked
pub open spec fn value_walked(e: Expr, r: Expr, s: Set<Name>, k: Known, l: Known, c: nat, d: nat) -> bool {
    match (e, r) {
        (Expr::Let(n, v, b), Expr::Let(m, w, a)) => n == m && *a == *b && turn(*v, *w, s, k, c, d) && grown(k, l, *v, c, d),
        _ => e == r && k == l && c == d && !(e is Let),
    }
}
proof fn value_ready(e: Expr, s: Set<Name>, k: Known, c: nat)
    requires ready(e, s, k, c), e is Let,
    ensures ready(*(e->Let_1), s, k, c),
{
    nice_parts(e, c);
    assert forall|x: Name| #[trigger] placed(*(e->Let_1), s, k, x) by { assert(placed(e, s, k, x)); }
}
#[verifier::spinoff_prover]
proof fn after_value(e: Expr, r: Expr, s: Set<Name>, k: Known, l: Known, c: nat, d: nat)
    requires ready(e, s, k, c), value_walked(e, r, s, k, l, c, d),
    ensures
        good(r, s, l, d), r is Let ==> !l.contains_key(r->Let_0), !(r is Let) ==> ready(r, s, l, d), out_of(r, s),
        turn(e, r, s, k, c, d), grown(k, l, e, c, d), alike_on(k, l, s),
{
    placed_good(e, s, k, c);
    kept(e, s, k, c);
    match (e, r) {
        (Expr::Let(n, v, b), Expr::Let(m, w, a)) => {
            nice_parts(e, c);
            assert forall|x: Name| #[trigger] moved_at(e, r, s, c, d, x) by {
                assert(moved_at(*v, *w, s, c, d, x)); assert(placed(e, s, k, x)); assert(fresh_at(e, x));
                if bc(*b, x) > 0 { assert(occ(*b, x)); }
            }
            assert forall|env: DEnv| #[trigger] known(k, s, env) implies den(env, e) == den(env, r) by {}
            moved_nice(e, r, s, c, d);
            dce::parts_bind_less(e);
            assert(out_of(*v, s)) by { assert forall|x: Name| #[trigger] bc(*v, x) > 0 implies !s.contains(x) by { assert(bc(*v, x) <= bc(e, x)); } }
            grown_world(k, l, *v, s, c, d);
            assert forall|x: Name| #[trigger] l.contains_key(x) implies x.id < d && nice(l[x], d) && (k.contains_key(x) && l[x] == k[x] || !k.contains_key(x) && (bc(e, x) > 0 || c <= x.id)) by { assert(bc(*v, x) <= bc(e, x)); }
            assert(placed(e, s, k, n));
            assert forall|x: Name| #[trigger] fv(r, x) implies s.contains(x) by { assert(moved_at(e, r, s, c, d, x)); }
            assert forall|x: Name| #[trigger] bc(*a, x) > 0 implies !s.contains(x) && !l.contains_key(x) by { assert(placed(e, s, k, x)); assert(fresh_at(e, x)); assert(occ(*b, x)); }
            assert forall|x: Name| #[trigger] bc(r, x) > 0 implies !s.contains(x) by { assert(moved_at(e, r, s, c, d, x)); assert(placed(e, s, k, x)); if s.contains(x) { assert(x.id < c); } }
        }
        _ => {}
    }
}
/// the three steps of the walk together
#[verifier::spinoff_prover]
proof fn walked(e0: Expr, ev: Expr, e1: Expr, r: Expr, s: Set<Name>, k0: Known, kv: Known, k1: Known, k: Known, c0: nat, cv: nat, cs: Seq<nat>)
    requires
        ready(e0, s, k0, c0), turn(e0, ev, s, k0, c0, cv), grown(k0, kv, e0, c0, cv), alike_on(k0, kv, s), out_of(ev, s),
        turn(ev, e1, s, kv, cv, cs[0]), grown(kv, k1, ev, cv, cs[0]), good(e1, s, k1, cs[0]), world(s, kv, cv),
        same_node(e1, r), all_turned(e1, r, s, k1, cs), grown(k1, k, e1, cs[0], cs.last()),
    ensures turn(e0, r, s, k0, c0, cs.last()), grown(k0, k, e0, c0, cs.last()),
{
    node_moved(e1, r, s, k1, cs);
    node_means(e1, r, s, k1, cs);
    assert(cs[0] <= cs[cs.len() - 1]);
    let c1 = cs[0];
    let d = cs.last();
    moved_trans(ev, e1, r, s, cv, c1, d);
    moved_trans(e0, ev, r, s, c0, cv, d);
    grown_alike(kv, k1, ev, s, cv, c1);
    means_alike(kv, k1, s, e1, r);
    means_trans(ev, e1, r, s, kv);
    means_alike(k0, kv, s, ev, r);
    means_trans(e0, ev, r, s, k0);
    grown_trans(kv, k1, k, ev, e1, s, cv, c1, d);
    grown_trans(k0, kv, k, e0, ev, s, c0, cv, d);
}
//@ fn ticc/src/codegen/opt/inline.rs walk_expressions.go
//@ params fn walk<'s>(expr: &mut Expr, names: &mut Names<'s>, inlinables: &mut InlMap, Ghost(s): Ghost<Set<Name>>)
//@ splitor
//@ rule if let ir :: Expr :: Let ( _ , e , _ ) = expr { go ( e , f ) ; } ==> if let Expr :: Let ( _ , e , _ ) = expr { walk ( e , names , inlinables , Ghost ( s ) ) ; }
//@ rule f ( expr ) ==> let ghost ev = * expr ; let ghost kv = inlinables @ ; let ghost cv = cnt ( * names ) ; proof { after_value ( e0 , ev , s , k0 , kv , c0 , cv ) ; } inline_functions ( expr , names , inlinables , Ghost ( s ) ) ; let ghost e1 = * expr ; let ghost k1 = inlinables @ ; let ghost mut kk = k1 ; let ghost mut cs = seq ! [ cnt ( * names ) ] ; let ghost mut sc = s ; let ghost c1 = cnt ( * names ) ; proof { good_waits ( e1 , s , k1 , cs [ 0 ] ) ; good_clear ( e1 , s , k1 , cs [ 0 ] ) ; grown_refl ( k1 , e1 , s , cs [ 0 ] ) ; assert ( going ( e1 , s , k1 , kk , cs , 0 ) ) ; }
//@ rule go ( $x , f ) ==> proof { sc = scope ( e1 , s , cs . len ( ) - 1 ) ; assert ( waiting ( part ( e1 , cs . len ( ) - 1 ) , sc , k1 , kk , cs . last ( ) ) ) ; } walk ( $x , names , inlinables , Ghost ( sc ) ) ; proof { went ( e1 , s , k1 , kk , inlinables @ , cs , cs . len ( ) - 1 , cnt ( * names ) ) ; kk = inlinables @ ; cs = cs . push ( cnt ( * names ) ) ; }
//@ rule __vx_it_0 ( b ) ==> __vx_it_0 ( b . iter_mut ( ) )
//@ rule __vx_it_1 ( a ) ==> __vx_it_1 ( a . iter_mut ( ) )
//@ rule __vx_it_2 ( bs ) ==> __vx_it_2 ( bs . iter_mut ( ) )
//@ rule __vx_it_3 ( xs ) ==> __vx_it_3 ( xs . iter_mut ( ) )
    requires ready(*old(expr), s, old(inlinables)@, cnt(*old(names))),
    ensures
        turn(*old(expr), *final(expr), s, old(inlinables)@, cnt(*old(names)), cnt(*final(names))),
        grown(old(inlinables)@, final(inlinables)@, *old(expr), cnt(*old(names)), cnt(*final(names))),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost e0 = *expr;
    let ghost k0 = inlinables@;
    let ghost c0 = cnt(*names);
    proof { if e0 is Let { value_ready(e0, s, k0, c0); } }
//@ loop 0
    invariant
        e1 is Call, inlinables@ == kk, cnt(*names) == cs.last(), cs[0] == c1,
        vx_it0.seq().len() == e1->Call_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == e1->Call_1@[k],
        going(e1, s, k1, kk, cs, vx_it0.index() + 1), part_turned(e1, s, k1, cs, 0, **a),
        forall|k: int| 0 <= k < vx_it0.index() ==> part_turned(e1, s, k1, cs, k + 1, *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof { assert(*b == e1->Call_1@[vx_it0.index() as int]); assert(part(e1, vx_it0.index() + 1) == *b); }
//@ loop 1
    invariant
        e1 is Intrinsic, inlinables@ == kk, cnt(*names) == cs.last(), cs[0] == c1,
        vx_it1.seq().len() == e1->Intrinsic_1@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == e1->Intrinsic_1@[k],
        going(e1, s, k1, kk, cs, vx_it1.index() as int),
        forall|k: int| 0 <= k < vx_it1.index() ==> part_turned(e1, s, k1, cs, k, *final(#[trigger] vx_it1.seq()[k])),
//@ loophead 1
    proof { assert(*a == e1->Intrinsic_1@[vx_it1.index() as int]); assert(part(e1, vx_it1.index() as int) == *a); }
//@ loop 2
    invariant
        e1 is Match, inlinables@ == kk, cnt(*names) == cs.last(), cs[0] == c1,
        vx_it2.seq().len() == e1->Match_1@.len(),
        forall|k: int| 0 <= k < vx_it2.seq().len() ==> *(#[trigger] vx_it2.seq()[k]) == e1->Match_1@[k],
        going(e1, s, k1, kk, cs, vx_it2.index() + 1), part_turned(e1, s, k1, cs, 0, **a),
        forall|k: int| 0 <= k < vx_it2.index() ==> part_turned(e1, s, k1, cs, k + 1, final(#[trigger] vx_it2.seq()[k]).value)
            && final(vx_it2.seq()[k]).ctor == e1->Match_1@[k].ctor && final(vx_it2.seq()[k]).bindings@ == e1->Match_1@[k].bindings@,
//@ loophead 2
    proof { assert(*b == e1->Match_1@[vx_it2.index() as int]); assert(part(e1, vx_it2.index() + 1) == b.value); }
//@ loop 3
    invariant
        e1 is Construct, inlinables@ == kk, cnt(*names) == cs.last(), cs[0] == c1,
        vx_it3.seq().len() == e1->Construct_2@.len(),
        forall|k: int| 0 <= k < vx_it3.seq().len() ==> *(#[trigger] vx_it3.seq()[k]) == e1->Construct_2@[k],
        going(e1, s, k1, kk, cs, vx_it3.index() as int),
        forall|k: int| 0 <= k < vx_it3.index() ==> part_turned(e1, s, k1, cs, k, *final(#[trigger] vx_it3.seq()[k])),
//@ loophead 3
    proof { assert(*a == e1->Construct_2@[vx_it3.index() as int]); assert(part(e1, vx_it3.index() as int) == *a); }
//@ after match expr
    proof {
        let r = *expr;
        assert(same_node(e1, r));
        assert forall|i: int| 0 <= i < parts(e1) implies part_turned(e1, s, k1, cs, i, #[trigger] part(r, i)) by {}
        walked(e0, ev, e1, r, s, k0, kv, k1, kk, c0, cv, cs);
    }
//@ end
// -- the pass
pub open spec fn tops(ds: Seq<ValueDef>) -> Set<Name> { plus(Set::<Name>::empty(), Seq::new(ds.len(), |i: int| ds[i].name)) }
/// how many names the program has given out
pub uninterp spec fn next_name(p: Program) -> nat;
#[verifier::external_body]
fn vx_names<'s>(p: &Program) -> (r: Names<'s>) ensures cnt(r) == next_name(*p) { unimplemented!() }
#[verifier::external_body]
fn vx_or(a: Option<usize>, b: Option<usize>) -> (r: Option<usize>) { unimplemented!() }
/// definitions name each other only, and every binder of the program has a name of its own
pub open spec fn whole(ds: Seq<ValueDef>, c: nat) -> bool {
    (forall|i: int| 0 <= i < ds.len() ==> nice((#[trigger] ds[i]).value, c) && ds[i].name.id < c)
    && (forall|i: int, x: Name| 0 <= i < ds.len() && #[trigger] fv(ds[i].value, x) ==> tops(ds).contains(x))
    && (forall|i: int, x: Name| 0 <= i < ds.len() && #[trigger] bc(ds[i].value, x) > 0 ==> !tops(ds).contains(x))
    && (forall|i: int, j: int, x: Name| 0 <= i < j < ds.len() && #[trigger] bc(ds[i].value, x) > 0 ==> bc((#[trigger] ds[j]).value, x) == 0)
    && (forall|i: int, j: int| 0 <= i < j < ds.len() ==> (#[trigger] ds[i]).name != (#[trigger] ds[j]).name)
}
/// the definitions hold in env
pub open spec fn holds(ds: Seq<ValueDef>, env: DEnv) -> bool { forall|i: int| 0 <= i < ds.len() ==> look(env, (#[trigger] ds[i]).name) == den(env, ds[i].value) }
pub open spec fn agrees(a: ValueDef, b: ValueDef, ds: Seq<ValueDef>) -> bool {
    a.name == b.name && a.export_name == b.export_name && forall|env: DEnv| #[trigger] holds(ds, env) ==> den(env, a.value) == den(env, b.value)
}
/// wherever the old definitions hold, every new one means what the old one means
pub open spec fn agree_all(a: Seq<ValueDef>, b: Seq<ValueDef>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> agrees(#[trigger] a[i], b[i], a) }
pub open spec fn all_known(ds: Seq<ValueDef>, k: Known) -> bool { forall|env: DEnv| #[trigger] holds(ds, env) ==> known(k, tops(ds), env) }
pub open spec fn to_come(ds: Seq<ValueDef>, k: Known, c: nat, i: int) -> bool {
    world(tops(ds), k, c)
    && (forall|j: int| i <= j < ds.len() ==> ready((#[trigger] ds[j]).value, tops(ds), k, c))
}
proof fn in_tops(ds: Seq<ValueDef>, x: Name)
    ensures
        tops(ds).contains(x) <==> exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).name == x,
{
    let s = Seq::new(ds.len(), |i: int| ds[i].name);
    in_plus(Set::<Name>::empty(), s, x);
    if s.contains(x) { let i = s.index_of(x); assert(s[i] == x); assert(ds[i].name == x); }
    if exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).name == x { let i = choose|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).name == x; assert(s[i] == x); }
}
proof fn at_first(ds: Seq<ValueDef>, k: Known, c: nat)
    requires whole(ds, c), k == Map::<Name, Expr>::empty(),
    ensures to_come(ds, k, c, 0), all_known(ds, k),
{
    let s = tops(ds);
    assert(world(s, k, c)) by { assert forall|x: Name| #[trigger] s.contains(x) implies x.id < c by { in_tops(ds, x); } }
    assert forall|j: int| 0 <= j < ds.len() implies ready((#[trigger] ds[j]).value, s, k, c) by {
        assert forall|x: Name| #[trigger] placed(ds[j].value, s, k, x) by {}
    }
    assert forall|env: DEnv| #[trigger] holds(ds, env) implies known(k, s, env) by {}
}
#[verifier::spinoff_prover]
proof fn next_def(ds: Seq<ValueDef>, i: int, r: Expr, k: Known, l: Known, c0: nat, c: nat, d: nat)
    requires whole(ds, c0), c0 <= c, to_come(ds, k, c, i), all_known(ds, k), 0 <= i < ds.len(), turn(ds[i].value, r, tops(ds), k, c, d), grown(k, l, ds[i].value, c, d),
    ensures
        to_come(ds, l, d, i + 1), all_known(ds, l), forall|env: DEnv| #[trigger] holds(ds, env) ==> den(env, ds[i].value) == den(env, r),
        to_come(ds, l.insert(ds[i].name, r), d, i + 1), all_known(ds, l.insert(ds[i].name, r)),
{
    let s = tops(ds);
    let e = ds[i].value;
    let n = ds[i].name;
    assert(ready(e, s, k, c));
    assert(out_of(e, s)) by { assert forall|x: Name| #[trigger] bc(e, x) > 0 implies !s.contains(x) by { assert(placed(e, s, k, x)); } }
    grown_world(k, l, e, s, c, d);
    moved_nice(e, r, s, c, d);
    assert forall|j: int| i + 1 <= j < ds.len() implies ready((#[trigger] ds[j]).value, s, l, d) by {
        let q = ds[j].value;
        assert(ready(q, s, k, c));
        alike_refl(k, s);
        assert forall|x: Name| #[trigger] bc(e, x) > 0 implies bc(q, x) == 0 && !s.contains(x) by { assert(bc(ds[i].value, x) > 0); }
        step(e, q, s, s, k, k, l, c, d);
    }
    assert forall|env: DEnv| #[trigger] holds(ds, env) implies known(l, s, env) && den(env, e) == den(env, r) by {
        assert(known(k, s, env));
        known_alike(k, l, s, env);
    }
    let m = l.insert(n, r);
    in_tops(ds, n);
    assert(s.contains(n));
    assert(world(s, m, d)) by {
        assert forall|a: Name, x: Name| m.contains_key(a) && s.contains(a) && #[trigger] fv(m[a], x) implies s.contains(x) by {
            if a == n { assert(moved_at(e, r, s, c, d, x)); } else { assert(l.contains_key(a)); assert(fv(l[a], x)); }
        }
    }
    assert forall|j: int| i + 1 <= j < ds.len() implies ready((#[trigger] ds[j]).value, s, m, d) by {
        let q = ds[j].value;
        assert(ready(q, s, l, d));
        assert forall|x: Name| #[trigger] placed(q, s, m, x) by { assert(placed(q, s, l, x)); }
    }
    assert forall|env: DEnv| #[trigger] holds(ds, env) implies known(m, s, env) by {
        assert(known(l, s, env));
        assert(look(env, ds[i].name) == den(env, ds[i].value));
        assert forall|a: Name| m.contains_key(a) && #[trigger] s.contains(a) implies look(env, a) == den(env, m[a]) by { if a != n { assert(l.contains_key(a)); } }
    }
}
//@ fn ticc/src/codegen/opt/inline.rs optimize
//@ rule HashMap :: < ir :: Name , Inlinable > :: new ( ) ==> InlMap :: new ( )
//@ rule Names { $x:rest } ==> vx_names ( program )
//@ rule walk_expressions ( & mut v . value , | x | $x:rest ) ==> walk ( & mut v . value , & mut names , & mut inlinables , Ghost ( tops ( d0 ) ) )
//@ rule check_inlinable ( & v . value , false ) . or_else ( | | check_small_inlinable ( & v . value ) ) ==> vx_or ( check_inlinable ( & v . value , false ) , check_small_inlinable ( & v . value ) )
    requires whole(old(program).defs@, next_name(*old(program))),
    ensures agree_all(old(program).defs@, final(program).defs@),
//@ head
    let ghost d0 = program.defs@;
    let ghost c0 = next_name(*program);
//@ before for v in
    proof { at_first(d0, inlinables@, c0); }
//@ loop 0
    invariant
        vx_it0.seq().len() == d0.len(), whole(d0, c0), c0 <= cnt(names),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> agrees(d0[k], *final(#[trigger] vx_it0.seq()[k]), d0),
        to_come(d0, inlinables@, cnt(names), vx_it0.index() as int), all_known(d0, inlinables@),
//@ loophead 0
    let ghost vx_i = vx_it0.index() as int;
    let ghost vx_k = inlinables@;
    let ghost vx_c = cnt(names);
    proof { assert(*v == d0[vx_i]); }
//@ after walk_expressions
    proof { next_def(d0, vx_i, v.value, vx_k, inlinables@, c0, vx_c, cnt(names)); }
//@ end
}
}
fn main() {}
