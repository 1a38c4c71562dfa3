// Unit `gencore`: what the generation of core produces is well typed where it is
// decided without looking at the program (C05).
//
// - the seven intrinsics have, under the typing rules of the validator (the spec
//   of unit `verify`, infer.inc), the types std declares for them, in every
//   context, and bind only names and type variables that nothing used before;
// - the type of a checked expression becomes the core type of the same shape:
//   type variables the ones the definition binds, types the generated ones;
// - a definition's type is that with its variables abstracted, each by a type
//   variable of its own that nothing used before.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule ir :: $x:ident ==> $x
//@ rule cir :: $x:ident ==> $x
//@ rule pub ( crate ) ==> pub
//@ rule Vec :: from ( [ $x:rest ] ) ==> vec![$x]
//@ rule HashMap ==> HMap
//@ rule HashSet ==> HSet
//@ rule & 'a [ Field ] ==> &'a Vec<Field>

//@ type ticc-core/src/ir.rs Expr
//@ type ticc-core/src/ir.rs LambdaParam
//@ type ticc-core/src/ir.rs Branch
//@ type ticc-core/src/ir.rs Op | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Intrinsic | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Ty
//@ type ticc-core/src/ir.rs TyVar | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-core/src/ir.rs Name | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-core/src/ir.rs TyDef
//@ type ticc-core/src/ir.rs TyCase
//@ type ticc-core/src/ir.rs ValueDef
//@ type ticc-core/src/ir.rs Program
//@ type ticc-core/src/ir.rs NameGenerator
//@ type ticc-core/src/ir.rs TyGenerator
//@ type ticc/src/compiler/ir.rs Type
//@ type ticc/src/compiler/ir.rs Symbol | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/builtin.rs IntrinsicSymbols | #[derive(Clone, Copy)]
//@ type ticc/src/codegen/gen_core.rs Ctor
//@ type ticc/src/codegen/gen_core.rs Generator
#[verifier::external_body]
pub struct ByteString { b: Vec<u8> }
#[verifier::external_body]
pub struct Field { b: Vec<u8> }
#[verifier::external_body]
pub struct ModuleKey { b: Vec<u8> }
#[derive(Clone, Copy)]
pub struct NodeId { pub id: u64 }

// ---- trusted: hash maps
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HSet<T> { t: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_index(&self, k: &K) -> (r: &V) requires self@.contains_key(*k), ensures *r == self@[*k] { unimplemented!() }
}
fn vx_copied<T: Copy>(o: Option<&T>) -> (r: Option<T>)
    ensures match o { Some(v) => r == Some(*v), None => r is None }
{ match o { Some(v) => Some(*v), None => None } }
fn vx_rev(v: &[Symbol]) -> (r: Vec<Symbol>) ensures r@ == v@.reverse() {
    let mut r: Vec<Symbol> = Vec::new();
    let mut i = v.len();
    while i > 0
        invariant i <= v@.len(), r@.len() == v@.len() - i, forall|k: int| 0 <= k < r@.len() ==> r@[k] == v@[v@.len() - 1 - k],
        decreases i,
    {
        i -= 1;
        r.push(v[i]);
    }
    assert(r@ =~= v@.reverse());
    r
}
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { unimplemented!() }

//@ include infer.inc

// ---- the intrinsics
impl<'a> NameGenerator<'a> {
//@ fn ticc-core/src/ir.rs NameGenerator::new_fresh
//@ ret r
//@ contract
    requires old(self).names@.len() < 0xffff_ffff_ffff_ffff,
    ensures
        // a name that did not exist, and now does
        r.id == old(self).names@.len(), final(self).names@.len() == old(self).names@.len() + 1,
//@ end
}
impl TyGenerator {
//@ fn ticc-core/src/ir.rs TyGenerator::next
//@ ret r
//@ contract
    requires old(self).next.0 < 0xffff_ffff_ffff_ffff,
    ensures r == old(self).next, final(self).next.0 == old(self).next.0 + 1,
//@ end
}
/// how many names and type variables there are
pub ghost struct Made { pub names: nat, pub tys: nat }
pub open spec fn within(u: Used, m: Made) -> bool {
    &&& forall|n: Name| u.names.contains(n) ==> n.id < m.names
    &&& forall|v: TyVar| u.tys.contains(v) ==> v.0 < m.tys
}
/// in every context of what there was before, the expression has this type, and it binds what was made meanwhile
pub closed spec fn has_type(before: Made, after: Made, e: Expr, t: STy) -> bool {
    forall|g: Ctx, u: Used| #[trigger] within(u, before) && g.limit >= after.names ==>
        (#[trigger] infer(g, u, e) matches Some((ty, u1)) && ty == t && within(u1, after))
}
pub closed spec fn fun(a: STy, b: STy) -> STy { STy::Fn(seq![a], Box::new(b)) }
pub closed spec fn iterate_ty(v: TyVar) -> STy {
    let a = STy::Var(v);
    STy::Abs(v, Box::new(fun(STy::Int, fun(fun(a, a), fun(a, a)))))
}

/// a function of the arguments of an intrinsic, one at a time, that applies it to them
pub closed spec fn applies(e: Expr, i: Intrinsic, ns: Seq<Name>, k: nat) -> bool decreases ns.len() - k {
    if k >= ns.len() {
        e matches Expr::Intrinsic(j, xs) && j == i && xs@.len() == ns.len() && forall|l: int| 0 <= l < ns.len() ==> #[trigger] xs@[l] == Expr::Name(ns[l])
    } else {
        e matches Expr::Lambda(ps, b) && ps@.len() == 1 && ps@[0].name == ns[k as int] && sty(ps@[0].ty) == intrinsic_params(i)[k as int] && applies(*b, i, ns, k + 1)
    }
}
pub closed spec fn curried(i: Intrinsic, k: nat) -> STy decreases intrinsic_params(i).len() - k {
    if k >= intrinsic_params(i).len() { intrinsic_result(i) } else { fun(intrinsic_params(i)[k as int], curried(i, k + 1)) }
}
proof fn applied(g: Ctx, u: Used, xs: Vec<Expr>, ps: Seq<STy>, ns: Seq<Name>, k: nat)
    requires
        xs@.len() == ns.len() == ps.len(), k <= ns.len(),
        forall|l: int| 0 <= l < ns.len() ==> #[trigger] xs@[l] == Expr::Name(ns[l]),
        forall|l: int| 0 <= l < ns.len() ==> g.vals.contains_key(#[trigger] ns[l]) && g.vals[ns[l]] == ps[l] && (ps[l] is Int || ps[l] is Str),
    ensures infer_args(g, u, xs, ps, k) == Some(u),
    decreases ns.len() - k,
{
    if k < ns.len() {
        assert(xs@[k as int] == Expr::Name(ns[k as int]));
        assert(same_ty(ps[k as int], ps[k as int]));
        assert(infer(g, u, xs@[k as int]) == Some((ps[k as int], u))) by { reveal_with_fuel(infer, 2); }
        applied(g, u, xs, ps, ns, k + 1);
    }
}
/// inside the first k functions
proof fn applies_ty(g: Ctx, u: Used, e: Expr, i: Intrinsic, ns: Seq<Name>, k: nat, m: Made)
    requires
        applies(e, i, ns, k), k <= ns.len() == intrinsic_params(i).len(), within(u, m),
        forall|l: int| 0 <= l < ns.len() ==> (#[trigger] ns[l]).id < g.limit && ns[l].id < m.names,
        forall|l: int, j: int| 0 <= l < j < ns.len() ==> ns[l] != ns[j],
        forall|l: int| k <= l < ns.len() ==> !u.names.contains(#[trigger] ns[l]),
        forall|l: int| 0 <= l < k ==> g.vals.contains_key(#[trigger] ns[l]) && g.vals[ns[l]] == intrinsic_params(i)[l],
    ensures infer(g, u, e) matches Some((t, u1)) && t == curried(i, k) && within(u1, m),
    decreases ns.len() - k,
{
    let ps = intrinsic_params(i);
    assert(forall|l: int| 0 <= l < ps.len() ==> (#[trigger] ps[l]) is Int || ps[l] is Str);
    if k >= ns.len() {
        applied(g, u, e->Intrinsic_1, ps, ns, 0);
    } else {
        let n = ns[k as int];
        let t = ps[k as int];
        let params = e->Lambda_0;
        let b = *e->Lambda_1;
        assert(wf(g, u.tys, t) == Some(u.tys));
        let g1 = with_val(g, n, t);
        let u1 = use_name(use_tys(u, u.tys), n);
        assert(fresh_name(g, u, n));
        reveal_with_fuel(bind_params, 2);
        assert(bind_params(g, u, params@, 0) == Some((g1, u1)));
        applies_ty(g1, u1, b, i, ns, k + 1, m);
        assert(param_tys(params@) =~= seq![t]);
    }
}
proof fn intrinsic_ty(m0: Made, m1: Made, e: Expr, i: Intrinsic, ns: Seq<Name>)
    requires
        applies(e, i, ns, 0), ns.len() == intrinsic_params(i).len(),
        m1.names == m0.names + ns.len(), m1.tys == m0.tys,
        forall|l: int| 0 <= l < ns.len() ==> (#[trigger] ns[l]).id == m0.names + l,
    ensures has_type(m0, m1, e, curried(i, 0)),
{
    assert forall|g: Ctx, u: Used| #[trigger] within(u, m0) && g.limit >= m1.names implies
        (#[trigger] infer(g, u, e) matches Some((ty, u1)) && ty == curried(i, 0) && within(u1, m1)) by {
        assert forall|l: int| 0 <= l < ns.len() implies !u.names.contains(#[trigger] ns[l]) by {}
        assert forall|l: int, j: int| 0 <= l < j < ns.len() implies ns[l] != ns[j] by { assert(ns[l].id != ns[j].id); }
        applies_ty(g, u, e, i, ns, 0, m1);
    }
}

/// a function of one parameter, with its body
pub closed spec fn lam(e: Expr, n: Name, t: STy) -> bool {
    e matches Expr::Lambda(ps, b) && ps@.len() == 1 && ps@[0].name == n && sty(ps@[0].ty) == t
}
pub closed spec fn body(e: Expr) -> Expr { *e->Lambda_1 }
proof fn lam_ty(g: Ctx, u: Used, e: Expr, n: Name, t: STy)
    requires lam(e, n, t), fresh_name(g, u, n), wf(g, u.tys, t) == Some(u.tys),
    ensures infer(g, u, e) == (match infer(with_val(g, n, t), use_name(u, n), body(e)) { None => None::<(STy, Used)>, Some((b, u1)) => Some((fun(t, b), u1)) }),
{
    reveal_with_fuel(bind_params, 2);
    let ps = e->Lambda_0;
    assert(use_tys(u, u.tys) == u);
    assert(bind_params(g, u, ps@, 0) == Some((with_val(g, n, t), use_name(u, n))));
    assert(param_tys(ps@) =~= seq![t]);
}
pub closed spec fn lam2(e: Expr, n: Name, t: STy, m: Name, s: STy) -> bool {
    e matches Expr::Lambda(ps, b) && ps@.len() == 2 && ps@[0].name == n && sty(ps@[0].ty) == t && ps@[1].name == m && sty(ps@[1].ty) == s
}
proof fn lam2_ty(g: Ctx, u: Used, e: Expr, n: Name, t: STy, m: Name, s: STy)
    requires lam2(e, n, t, m, s), fresh_name(g, u, n), fresh_name(g, u, m), m != n, wf(g, u.tys, t) == Some(u.tys), forall|h: Ctx| h.tvs == g.tvs ==> #[trigger] wf(h, u.tys, s) == Some(u.tys),
    ensures infer(g, u, e) == (match infer(with_val(with_val(g, n, t), m, s), use_name(use_name(u, n), m), body(e)) { None => None::<(STy, Used)>, Some((b, u1)) => Some((STy::Fn(seq![t, s], Box::new(b)), u1)) }),
{
    reveal_with_fuel(bind_params, 3);
    let ps = e->Lambda_0;
    let g1 = with_val(g, n, t);
    let u1 = use_name(u, n);
    assert(use_tys(u, u.tys) == u);
    assert(use_tys(u1, u1.tys) == u1);
    assert(wf(g1, u1.tys, s) == Some(u1.tys));
    assert(bind_params(g1, u1, ps@, 1) == Some((with_val(g1, m, s), use_name(u1, m))));
    assert(bind_params(g, u, ps@, 0) == Some((with_val(g1, m, s), use_name(u1, m))));
    assert(param_tys(ps@) =~= seq![t, s]);
}
/// a call with arguments of the parameters' types, which bind nothing
proof fn call_ty(g: Ctx, u: Used, e: Expr, ps: Seq<STy>, r: STy)
    requires
        e is Call, infer(g, u, *e->Call_0) == Some((STy::Fn(ps, Box::new(r)), u)), ps.len() == e->Call_1@.len(),
        forall|k: int| 0 <= k < ps.len() ==> infer(g, u, #[trigger] e->Call_1@[k]) == Some((ps[k], u)) && (ps[k] is Int || ps[k] is Str || ps[k] is Var),
    ensures infer(g, u, e) == Some((r, u)),
{
    args_ty(g, u, e->Call_1, ps, 0);
}
proof fn args_ty(g: Ctx, u: Used, xs: Vec<Expr>, ps: Seq<STy>, i: nat)
    requires
        ps.len() == xs@.len(), i <= xs@.len(),
        forall|k: int| 0 <= k < ps.len() ==> infer(g, u, #[trigger] xs@[k]) == Some((ps[k], u)) && (ps[k] is Int || ps[k] is Str || ps[k] is Var),
    ensures infer_args(g, u, xs, ps, i) == Some(u),
    decreases xs@.len() - i,
{
    if i < xs@.len() {
        assert(infer(g, u, xs@[i as int]) == Some((ps[i as int], u)));
        assert(same_ty(ps[i as int], ps[i as int])) by { reveal_with_fuel(bound_alike, 1); }
        args_ty(g, u, xs, ps, i + 1);
    }
}
pub closed spec fn m0_name(m: Made, k: nat) -> Name { Name { id: (m.names + k) as u64 } }
pub ghost struct It { pub a: TyVar, pub n: Name, pub f: Name, pub x: Name, pub go: Name, pub n2: Name, pub x2: Name }
pub closed spec fn is_name(e: Expr, n: Name) -> bool { e == Expr::Name(n) }
/// `if n2 <= 0 then x2 else go(n2 - 1, f(x2))`, whatever the numbers
pub closed spec fn step(e: Expr, i: It) -> bool {
    e matches Expr::If(c, t, s)
    && (*c matches Expr::Op(p, o, q) && is_name(*p, i.n2) && op_result(o) is Bool && *q is Int)
    && is_name(*t, i.x2)
    && (*s matches Expr::Call(h, xs) && is_name(*h, i.go) && xs@.len() == 2
        && (xs@[0] matches Expr::Op(p, o, q) && is_name(*p, i.n2) && op_result(o) is Int && *q is Int)
        && (xs@[1] matches Expr::Call(h1, ys) && is_name(*h1, i.f) && ys@.len() == 1 && is_name(ys@[0], i.x2)))
}
pub closed spec fn go_ty(i: It) -> STy { STy::Fn(seq![STy::Int, STy::Var(i.a)], Box::new(STy::Var(i.a))) }
pub closed spec fn rec(e: Expr, i: It) -> bool {
    e matches Expr::LetRec(g, t, v, b) && g == i.go && sty(t) == go_ty(i) && lam2(*v, i.n2, STy::Int, i.x2, STy::Var(i.a)) && step(body(*v), i)
    && (*b matches Expr::Call(h, xs) && is_name(*h, i.go) && xs@.len() == 2 && is_name(xs@[0], i.n) && is_name(xs@[1], i.x))
}
pub closed spec fn iterates(e: Expr, i: It) -> bool {
    let a = STy::Var(i.a);
    e matches Expr::Pi(v, b) && v == i.a && lam(*b, i.n, STy::Int) && lam(body(*b), i.f, fun(a, a)) && lam(body(body(*b)), i.x, a) && rec(body(body(body(*b))), i)
}
proof fn step_ty(g: Ctx, u: Used, e: Expr, i: It)
    requires
        step(e, i),
        g.vals.contains_key(i.n2), g.vals[i.n2] is Int,
        g.vals.contains_key(i.x2), g.vals[i.x2] == STy::Var(i.a),
        g.vals.contains_key(i.go), g.vals[i.go] == go_ty(i),
        g.vals.contains_key(i.f), g.vals[i.f] == fun(STy::Var(i.a), STy::Var(i.a)),
    ensures infer(g, u, e) == Some((STy::Var(i.a), u)),
{
    let a = STy::Var(i.a);
    assert(same_ty(STy::Int, STy::Int));
    assert(same_ty(STy::Bool, STy::Bool));
    let c = *e->If_0;
    let s = *e->If_2;
    let xs = s->Call_1;
    reveal_with_fuel(infer, 2);
    assert(infer(g, u, c) == Some((STy::Bool, u)));
    assert(infer(g, u, *e->If_1) == Some((a, u)));
    assert(infer(g, u, xs@[0]) == Some((STy::Int, u)));
    let ys = xs@[1]->Call_1;
    assert(infer(g, u, ys@[0]) == Some((a, u)));
    call_ty(g, u, xs@[1], seq![a], a);
    call_ty(g, u, s, seq![STy::Int, a], a);
}
pub closed spec fn apart(n: Name, i: It) -> bool { n != i.go && n != i.n2 && n != i.x2 }
proof fn rec_ty(g: Ctx, u: Used, e: Expr, i: It)
    requires
        rec(e, i), g.tvs.contains(i.a),
        g.vals.contains_key(i.n), g.vals[i.n] is Int,
        g.vals.contains_key(i.x), g.vals[i.x] == STy::Var(i.a),
        g.vals.contains_key(i.f), g.vals[i.f] == fun(STy::Var(i.a), STy::Var(i.a)),
        fresh_name(g, u, i.go), fresh_name(g, u, i.n2), fresh_name(g, u, i.x2),
        i.go != i.n2, i.go != i.x2, i.n2 != i.x2,
        apart(i.n, i), apart(i.x, i), apart(i.f, i),
    ensures infer(g, u, e) == Some((STy::Var(i.a), use_name(use_name(use_name(u, i.go), i.n2), i.x2))),
{
    let a = STy::Var(i.a);
    reveal_with_fuel(wf, 4);
    reveal_with_fuel(wfs, 4);
    assert(wf(g, u.tys, a) == Some(u.tys));
    assert(wf(g, u.tys, go_ty(i)) == Some(u.tys));
    assert(use_tys(u, u.tys) == u);
    let g1 = with_val(g, i.go, go_ty(i));
    let u1 = use_name(u, i.go);
    let v = *e->LetRec_2;
    let b = *e->LetRec_3;
    let g2 = with_val(with_val(g1, i.n2, STy::Int), i.x2, a);
    let u2 = use_name(use_name(u1, i.n2), i.x2);
    step_ty(g2, u2, body(v), i);
    lam2_ty(g1, u1, v, i.n2, STy::Int, i.x2, a);
    assert(infer(g1, u1, v) == Some((go_ty(i), u2)));
    assert(same_ty(go_ty(i), go_ty(i))) by {
        reveal_with_fuel(alpha, 3);
        assert(bound_alike(i.a, i.a, Seq::empty()));
        assert(alpha(a, a, Seq::empty()));
    }
    let xs = b->Call_1;
    assert(infer(g1, u2, xs@[0]) == Some((STy::Int, u2)));
    assert(infer(g1, u2, xs@[1]) == Some((a, u2)));
    assert(infer(g1, u2, *b->Call_0) == Some((go_ty(i), u2)));
    call_ty(g1, u2, b, seq![STy::Int, a], a);
}
proof fn fn_ty(t: Ty)
    requires t is Fn,
    ensures
        t->Fn_0@.len() == 1 ==> sty(t) == fun(sty(t->Fn_0@[0]), sty(*t->Fn_1)),
        t->Fn_0@.len() == 2 ==> sty(t) == STy::Fn(seq![sty(t->Fn_0@[0]), sty(t->Fn_0@[1])], Box::new(sty(*t->Fn_1))),
{
    let v = t->Fn_0;
    stys_at(v, 0);
    if v@.len() == 1 { assert(stys(v, 0) =~= seq![sty(v@[0])]); }
    if v@.len() == 2 { assert(stys(v, 0) =~= seq![sty(v@[0]), sty(v@[1])]); }
}
proof fn iterate_infers(m0: Made, m1: Made, e: Expr, i: It)
    requires
        iterates(e, i), m0.names < 0xffff_ffff_ffff_fff0, m1.names == m0.names + 6, m1.tys == m0.tys + 1, i.a.0 == m0.tys,
        i.n.id == m0.names, i.f.id == m0.names + 1, i.x.id == m0.names + 2, i.go.id == m0.names + 3, i.n2.id == m0.names + 4, i.x2.id == m0.names + 5,
    ensures has_type(m0, m1, e, iterate_ty(i.a)),
{
    let a = STy::Var(i.a);
    let e1 = *e->Pi_1;
    let e2 = body(e1);
    let e3 = body(e2);
    let e4 = body(e3);
    assert forall|g: Ctx, u: Used| #[trigger] within(u, m0) && g.limit >= m1.names implies
        (#[trigger] infer(g, u, e) matches Some((ty, u1)) && ty == iterate_ty(i.a) && within(u1, m1)) by {
        let g0 = with_tv(g, i.a);
        let u0 = use_tys(u, u.tys.insert(i.a));
        assert(!u.names.contains(i.n) && !u.names.contains(i.f) && !u.names.contains(i.x) && !u.names.contains(i.go) && !u.names.contains(i.n2) && !u.names.contains(i.x2));
        assert(!u.tys.contains(i.a));
        reveal_with_fuel(wf, 4);
        reveal_with_fuel(wfs, 4);
        let g1 = with_val(g0, i.n, STy::Int);
        let u1 = use_name(u0, i.n);
        let g2 = with_val(g1, i.f, fun(a, a));
        let u2 = use_name(u1, i.f);
        let g3 = with_val(g2, i.x, a);
        let u3 = use_name(u2, i.x);
        assert(wf(g0, u0.tys, STy::Int) == Some(u0.tys));
        assert(wf(g1, u1.tys, fun(a, a)) == Some(u1.tys));
        assert(wf(g2, u2.tys, a) == Some(u2.tys));
        lam_ty(g0, u0, e1, i.n, STy::Int);
        lam_ty(g1, u1, e2, i.f, fun(a, a));
        lam_ty(g2, u2, e3, i.x, a);
        rec_ty(g3, u3, e4, i);
    }
}

// ---- the types
impl<'a, 'b> Generator<'a, 'b> {
    spec fn made(&self) -> Made { Made { names: self.program.names.names@.len(), tys: self.program.ty.next.0 as nat } }
}
pub ghost struct Known { pub vars: Map<Symbol, TyVar>, pub types: Map<Symbol, Name>, pub folded: Map<Symbol, Name> }
impl<'a, 'b> Generator<'a, 'b> {
    spec fn known(&self) -> Known { Known { vars: self.type_var_inst@, types: self.symbol_names@, folded: self.folded_type_names@ } }
}
/// a type the checker accepted: nothing unknown, variables have no arguments
pub closed spec fn proper(k: Known, t: Type) -> bool decreases t, 0nat {
    match t {
        Type::Int | Type::Bool | Type::String | Type::Infer => true,
        Type::Error => false,
        Type::Named(n, ts) => if k.vars.contains_key(n) { ts@.len() == 0 } else { k.types.contains_key(n) && propers(k, ts, 0) },
        Type::Fn(a, b) => proper(k, *a) && proper(k, *b),
        Type::Folded(a, to) => match *a {
            Type::Named(n, ts) => if k.vars.contains_key(n) { ts@.len() == 0 } else { k.folded.contains_key(n) && propers(k, ts, 0) && proper(k, *to) },
            _ => proper(k, *a),
        },
    }
}
pub closed spec fn propers(k: Known, ts: Vec<Type>, i: nat) -> bool decreases ts, ts@.len() - i {
    i >= ts@.len() || (proper(k, ts@[i as int]) && propers(k, ts, i + 1))
}
/// the core type
pub closed spec fn core_ty(k: Known, t: Type) -> STy decreases t, 0nat {
    match t {
        Type::Int | Type::Infer | Type::Error => STy::Int,
        Type::Bool => STy::Bool,
        Type::String => STy::Str,
        Type::Named(n, ts) => if k.vars.contains_key(n) { STy::Var(k.vars[n]) } else { STy::Named(k.types[n], core_tys(k, ts, 0)) },
        Type::Fn(a, b) => fun(core_ty(k, *a), core_ty(k, *b)),
        // the one-layer version of a type: its recursive fields are of type `to`
        Type::Folded(a, to) => match *a {
            Type::Named(n, ts) => if k.vars.contains_key(n) { STy::Var(k.vars[n]) } else { STy::Named(k.folded[n], core_tys(k, ts, 0).push(core_ty(k, *to))) },
            _ => core_ty(k, *a),
        },
    }
}
pub closed spec fn core_tys(k: Known, ts: Vec<Type>, i: nat) -> Seq<STy> decreases ts, ts@.len() - i {
    if i >= ts@.len() { Seq::empty() } else { seq![core_ty(k, ts@[i as int])] + core_tys(k, ts, i + 1) }
}
proof fn core_tys_at(k: Known, ts: Vec<Type>, i: nat)
    requires i <= ts@.len(),
    ensures core_tys(k, ts, i).len() == ts@.len() - i,
        forall|j: int| 0 <= j < ts@.len() - i ==> (#[trigger] core_tys(k, ts, i)[j]) == core_ty(k, ts@[i + j]),
    decreases ts@.len() - i,
{
    if i < ts@.len() {
        core_tys_at(k, ts, i + 1);
        assert forall|j: int| 0 <= j < ts@.len() - i implies (#[trigger] core_tys(k, ts, i)[j]) == core_ty(k, ts@[i + j]) by {
            if j > 0 { assert(core_tys(k, ts, i)[j] == core_tys(k, ts, i + 1)[j - 1]); }
        }
    }
}
proof fn propers_at(k: Known, ts: Vec<Type>, i: nat)
    requires propers(k, ts, i),
    ensures forall|j: int| i <= j < ts@.len() ==> proper(k, #[trigger] ts@[j]),
    decreases ts@.len() - i,
{
    if i < ts@.len() { propers_at(k, ts, i + 1); }
}
/// the variables stand for the type variables from the n-th on
pub closed spec fn inst(vars: Map<Symbol, TyVar>, vs: Seq<Symbol>, n: nat, i: nat) -> Map<Symbol, TyVar> decreases i {
    if i == 0 { vars } else { inst(vars, vs, n, (i - 1) as nat).insert(vs[i - 1], TyVar((n + i - 1) as u64)) }
}
proof fn inst_at(vars: Map<Symbol, TyVar>, vs: Seq<Symbol>, n: nat, i: nat, j: int)
    requires vs.no_duplicates(), 0 <= j < i <= vs.len(),
    ensures inst(vars, vs, n, i).contains_key(vs[j]), inst(vars, vs, n, i)[vs[j]] == TyVar((n + j) as u64),
    decreases i,
{
    if j < i - 1 { inst_at(vars, vs, n, (i - 1) as nat, j); }
}
/// abstracted over the variables, from the i-th on, the first one outermost
pub closed spec fn abstracted(t: STy, n: nat, i: nat, count: nat) -> STy decreases count - i {
    if i >= count { t } else { STy::Abs(TyVar((n + i) as u64), Box::new(abstracted(t, n, i + 1, count))) }
}
impl<'a, 'b> Generator<'a, 'b> {
//@ fn ticc/src/codegen/gen_core.rs Generator::gen_fake_name
//@ ret r
//@ contract
    requires old(self).made().names < 0xffff_ffff_ffff_ffff,
    ensures
        r.id == old(self).made().names, final(self).made().names == old(self).made().names + 1,
        final(self).program.ty == old(self).program.ty, final(self).known() == old(self).known(),
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::string_length_intrinsic
//@ rule let n = self . gen_fake_name ( "n" ) ; cir :: Expr :: Lambda ( $x:rest ) ==> let n = self . gen_fake_name ( "n" ) ; let e = cir :: Expr :: Lambda ( $x ) ; proof { intrinsic_ty(m0, self.made(), e, cir :: Intrinsic :: StringLen, seq![n]); } e
//@ ret r
//@ contract
    requires old(self).made().names < 0xffff_ffff_ffff_fff0,
    ensures has_type(old(self).made(), final(self).made(), r, fun(STy::Str, STy::Int)), final(self).known() == old(self).known(),
//@ head
    proof { reveal_with_fuel(applies, 5); reveal_with_fuel(curried, 5); }
    let ghost m0 = self.made();
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::string_concat_intrinsic
//@ rule let a = self . gen_fake_name ( "a" ) ; let b = self . gen_fake_name ( "b" ) ; cir :: Expr :: Lambda ( $x:rest ) ==> let a = self . gen_fake_name ( "a" ) ; let b = self . gen_fake_name ( "b" ) ; let e = cir :: Expr :: Lambda ( $x ) ; proof { intrinsic_ty(m0, self.made(), e, cir :: Intrinsic :: StringConcat, seq![a, b]); } e
//@ ret r
//@ contract
    requires old(self).made().names < 0xffff_ffff_ffff_fff0,
    ensures has_type(old(self).made(), final(self).made(), r, fun(STy::Str, fun(STy::Str, STy::Str))), final(self).known() == old(self).known(),
//@ head
    proof { reveal_with_fuel(applies, 5); reveal_with_fuel(curried, 5); }
    let ghost m0 = self.made();
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::string_char_at_intrinsic
//@ rule let a = self . gen_fake_name ( "a" ) ; let b = self . gen_fake_name ( "b" ) ; cir :: Expr :: Lambda ( $x:rest ) ==> let a = self . gen_fake_name ( "a" ) ; let b = self . gen_fake_name ( "b" ) ; let e = cir :: Expr :: Lambda ( $x ) ; proof { intrinsic_ty(m0, self.made(), e, cir :: Intrinsic :: StringCharAt, seq![a, b]); } e
//@ ret r
//@ contract
    requires old(self).made().names < 0xffff_ffff_ffff_fff0,
    ensures has_type(old(self).made(), final(self).made(), r, fun(STy::Int, fun(STy::Str, STy::Int))), final(self).known() == old(self).known(),
//@ head
    proof { reveal_with_fuel(applies, 5); reveal_with_fuel(curried, 5); }
    let ghost m0 = self.made();
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::string_substring_intrinsic
//@ rule let a = self . gen_fake_name ( "a" ) ; let b = self . gen_fake_name ( "b" ) ; let s = self . gen_fake_name ( "s" ) ; cir :: Expr :: Lambda ( $x:rest ) ==> let a = self . gen_fake_name ( "a" ) ; let b = self . gen_fake_name ( "b" ) ; let s = self . gen_fake_name ( "s" ) ; let e = cir :: Expr :: Lambda ( $x ) ; proof { intrinsic_ty(m0, self.made(), e, cir :: Intrinsic :: StringSubstring, seq![a, b, s]); } e
//@ ret r
//@ contract
    requires old(self).made().names < 0xffff_ffff_ffff_fff0,
    ensures has_type(old(self).made(), final(self).made(), r, fun(STy::Int, fun(STy::Int, fun(STy::Str, STy::Str)))), final(self).known() == old(self).known(),
//@ head
    proof { reveal_with_fuel(applies, 5); reveal_with_fuel(curried, 5); }
    let ghost m0 = self.made();
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::string_from_char_intrinsic
//@ rule let a = self . gen_fake_name ( "a" ) ; cir :: Expr :: Lambda ( $x:rest ) ==> let a = self . gen_fake_name ( "a" ) ; let e = cir :: Expr :: Lambda ( $x ) ; proof { intrinsic_ty(m0, self.made(), e, cir :: Intrinsic :: StringFromChar, seq![a]); } e
//@ ret r
//@ contract
    requires old(self).made().names < 0xffff_ffff_ffff_fff0,
    ensures has_type(old(self).made(), final(self).made(), r, fun(STy::Int, STy::Str)), final(self).known() == old(self).known(),
//@ head
    proof { reveal_with_fuel(applies, 5); reveal_with_fuel(curried, 5); }
    let ghost m0 = self.made();
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::int_to_string_intrinsic
//@ rule let a = self . gen_fake_name ( "a" ) ; cir :: Expr :: Lambda ( $x:rest ) ==> let a = self . gen_fake_name ( "a" ) ; let e = cir :: Expr :: Lambda ( $x ) ; proof { intrinsic_ty(m0, self.made(), e, cir :: Intrinsic :: IntToString, seq![a]); } e
//@ ret r
//@ contract
    requires old(self).made().names < 0xffff_ffff_ffff_fff0,
    ensures has_type(old(self).made(), final(self).made(), r, fun(STy::Int, STy::Str)), final(self).known() == old(self).known(),
//@ head
    proof { reveal_with_fuel(applies, 5); reveal_with_fuel(curried, 5); }
    let ghost m0 = self.made();
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::iterate_intrinsic
//@ rule let a = self . program . ty . next ( ) ; $y:rest ==> let a = self.program.ty.next(); let e = { $y }; proof { reveal_with_fuel(sty, 2); let e1 = *e->Pi_1; fn_ty(body(e1)->Lambda_0@[0].ty); fn_ty(body(body(body(e1)))->LetRec_1); let i = It { a, n: m0_name(m0, 0), f: m0_name(m0, 1), x: m0_name(m0, 2), go: m0_name(m0, 3), n2: m0_name(m0, 4), x2: m0_name(m0, 5) }; assert(sty(body(e1)->Lambda_0@[0].ty) == fun(STy::Var(a), STy::Var(a))); assert(lam(body(e1), i.f, fun(STy::Var(a), STy::Var(a)))); assert(step(body(*body(body(body(e1)))->LetRec_2), i)); assert(rec(body(body(body(e1))), i)); iterate_infers(m0, self.made(), e, It { a, n: m0_name(m0, 0), f: m0_name(m0, 1), x: m0_name(m0, 2), go: m0_name(m0, 3), n2: m0_name(m0, 4), x2: m0_name(m0, 5) }); } e
//@ ret r
//@ contract
    requires old(self).made().names < 0xffff_ffff_ffff_fff0, old(self).made().tys < 0xffff_ffff_ffff_fff0,
    ensures
        // for every type, that of a function that takes a number, a function and a value
        has_type(old(self).made(), final(self).made(), r, iterate_ty(TyVar(old(self).made().tys as u64))), final(self).known() == old(self).known(),
//@ head
    let ghost m0 = self.made();
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::gen_ty
//@ rule self . type_var_inst . get ( n ) . copied ( ) ==> vx_copied(self.type_var_inst.get(n))
//@ rule self . symbol_names [ n ] ==> *self.symbol_names.vx_index(n)
//@ rule self . folded_type_names [ n ] ==> *self.folded_type_names.vx_index(n)
//@ rule args . iter ( ) . map ( | a | self . gen_ty ( a ) ) . collect ( ) ==> self.vx_gen_tys(args)
//@ rule args . iter ( ) . map ( | a | self . gen_ty ( a ) ) . chain ( std :: iter :: once ( to ) ) . collect ( ) ==> { let mut v = self.vx_gen_tys(args); proof { stys_at(v, 0); } let ghost v0 = v; v.push(to); proof { stys_at(v, 0); assert(stys(v, 0) =~= stys(v0, 0).push(sty(to))); } v }
//@ rule assert ! ( args . is_empty ( ) , "var cannot have args" ) ==> if !args.is_empty() { vx_unreachable() }
//@ rule vec ! [ a ] ==> { let v = vec![a]; proof { stys_at(v, 0); assert(stys(v, 0) =~= seq![sty(a)]); } v }
//@ rule panic ! ( $x:rest ) ==> vx_unreachable()
//@ ret r
//@ contract
    requires proper(old(self).known(), *ty),
    ensures
        // the core type of the same shape; nothing is generated for it
        sty(r) == core_ty(old(self).known(), *ty),
        *final(self) == *old(self),
    decreases *ty,
//@ end

    /// stands for `args.iter().map(|a| self.gen_ty(a)).collect()`
    fn vx_gen_tys(&mut self, args: &Vec<Type>) -> (r: Vec<Ty>)
        requires propers(old(self).known(), *args, 0),
        ensures stys(r, 0) == core_tys(old(self).known(), *args, 0), *final(self) == *old(self),
        decreases *args,
    {
        let mut v: Vec<Ty> = Vec::new();
        let mut i = 0;
        proof { propers_at(self.known(), *args, 0); }
        while i < args.len()
            invariant
                i <= args@.len(), v@.len() == i, *self == *old(self),
                forall|j: int| 0 <= j < args@.len() ==> proper(old(self).known(), #[trigger] args@[j]),
                forall|j: int| 0 <= j < i ==> sty(#[trigger] v@[j]) == core_ty(old(self).known(), args@[j]),
            decreases args@.len() - i,
        {
            assert(decreases_to!(*args => args@[i as int]));
            let t = self.gen_ty(&args[i]);
            v.push(t);
            i += 1;
        }
        proof {
            stys_at(v, 0);
            core_tys_at(old(self).known(), *args, 0);
            assert(stys(v, 0) =~= core_tys(old(self).known(), *args, 0));
        }
        v
    }

//@ fn ticc/src/codegen/gen_core.rs Generator::fresh_inst
//@ contract
    requires old(self).made().tys + vars@.len() < 0xffff_ffff_ffff_ffff,
    ensures
        // each variable has a type variable of its own, that nothing used
        final(self).known() == (Known { vars: inst(old(self).known().vars, vars@, old(self).made().tys, vars@.len()), ..old(self).known() }),
        final(self).made() == (Made { tys: old(self).made().tys + vars@.len(), ..old(self).made() }),
//@ loop 0
    invariant
        old(self).made().tys + vars@.len() < 0xffff_ffff_ffff_ffff,
        vx_it0.seq().len() == vars@.len(), forall|k: int| 0 <= k < vars@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vars@[k],
        self.known() == (Known { vars: inst(old(self).known().vars, vars@, old(self).made().tys, vx_it0.index() as nat), ..old(self).known() }),
        self.made() == (Made { tys: (old(self).made().tys + vx_it0.index()) as nat, ..old(self).made() }),
//@ end

//@ fn ticc/src/codegen/gen_core.rs Generator::inst_ty
//@ rule vars . iter ( ) . rev ( ) ==> vx_back . iter ( )
//@ rule self . type_var_inst [ & var ] ==> *self.type_var_inst.vx_index(&var)
//@ ret r
//@ contract
    requires
        vars@.no_duplicates(),
        old(self).made().tys + vars@.len() < 0xffff_ffff_ffff_ffff,
        proper(Known { vars: inst(old(self).known().vars, vars@, old(self).made().tys, vars@.len()), ..old(self).known() }, *ty),
    ensures
        final(self).known() == (Known { vars: inst(old(self).known().vars, vars@, old(self).made().tys, vars@.len()), ..old(self).known() }),
        final(self).made() == (Made { tys: old(self).made().tys + vars@.len(), ..old(self).made() }),
        // its variables abstracted, the first one outermost
        sty(r) == abstracted(core_ty(final(self).known(), *ty), old(self).made().tys, 0, vars@.len()),
//@ loop 0
    invariant
        vars@.no_duplicates(), vx_it0.seq().len() == vars@.len(), forall|k: int| 0 <= k < vars@.len() ==> *(#[trigger] vx_it0.seq()[k]) == vars@[vars@.len() - 1 - k],
        self.known() == (Known { vars: inst(old(self).known().vars, vars@, old(self).made().tys, vars@.len()), ..old(self).known() }),
        self.made() == (Made { tys: old(self).made().tys + vars@.len(), ..old(self).made() }),
        sty(ty) == abstracted(core_ty(self.known(), *ty0), old(self).made().tys, (vars@.len() - vx_it0.index()) as nat, vars@.len()),
//@ before let inst = self
    proof { inst_at(old(self).known().vars, vars@, old(self).made().tys, vars@.len(), vars@.len() - 1 - vx_it0.index()); }
//@ head
    let ghost ty0 = ty;
    let vx_back = vx_rev(vars);
//@ end
}
} // verus!
fn main() {}
