// Unit `typeck`: the type checker accepts only programs the typing rules allow (C05).
//
// Types under inference are slots that refer to each other; `solves` says which assignments of
// types to slots a state stands for. What is proved of every function: the assignments a later
// state stands for are among those of the earlier one, and (nothing reported) they satisfy the rule
// the function checks. `typed` is the rule, written over the syntax tree.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ include defs.inc
//@ include pos.inc
//@ include ast.inc
//@ rule node :: Expr < '_ > ==> & node :: Expr
//@ rule node :: BinaryExpr < '_ > ==> & node :: BinaryExpr
//@ rule node :: Name < '_ > ==> & node :: Name
#[verifier::external_body]
pub struct CompleteUnit { u: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures self@.contains_key(*k) ==> r == Some(&self@[*k]), !self@.contains_key(*k) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    /// `drain`: every entry once, in some order
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: Vec<(K, V)>)
        ensures final(self)@ == Map::<K, V>::empty(),
            forall|i: int| 0 <= i < r@.len() ==> old(self)@.contains_key((#[trigger] r@[i]).0) && old(self)@[r@[i].0] == r@[i].1,
            forall|k: K| #[trigger] old(self)@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && r@[i].0 == k { unimplemented!() }
}
//@ rule HashMap ==> HMap
//@ rule . drain ( ) ==> . vx_drain ( )
//@ rule debug_assert_eq ! ( $x:rest ) ==> ( )
//@ rule debug_assert ! ( $x:rest ) ==> ( )
//@ rule pub ( crate ) fn ==> fn
//@ type ticc/src/compiler/typeck.rs NameTy
//@ type ticc/src/compiler/typeck.rs TyIdx | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/typeck.rs Ty | #[derive(Clone, Copy)]
//@ type ticc/src/compiler/typeck.rs TySlot | #[derive(Clone, Copy)]
//@ type ticc/src/compiler/typeck.rs UnifyError
//@ type ticc/src/compiler/typeck.rs Unifier

// ---- what a state of the unifier stands for
/// types without anything left open; a type applied to arguments is applied to one at a time
pub ghost enum G { Bool, Int, Str, Named(Symbol), Apply(Box<G>, Box<G>), Fn(Box<G>, Box<G>), Folded(Box<G>, Box<G>) }
pub type Sol = Map<int, G>;
spec fn cur(u: Unifier, i: int) -> TySlot { if u.pending@.contains_key(i as usize) { u.pending@[i as usize] } else { u.slots@[i] } }
spec fn len(u: Unifier) -> int { u.slots@.len() as int }
spec fn in_range(u: Unifier, t: TyIdx) -> bool { t.0 < len(u) }
spec fn ty_range(u: Unifier, t: Ty) -> bool {
    match t { Ty::Apply(a, b) | Ty::Fn(a, b) | Ty::Folded(a, b) => in_range(u, a) && in_range(u, b), _ => true }
}
spec fn slot_range(u: Unifier, s: TySlot) -> bool { match s { TySlot::Infer => true, TySlot::Next(t) => in_range(u, t), TySlot::Ty(t) => ty_range(u, t) } }
// ---- no type contains itself
spec fn below(t: TySlot, rk: spec_fn(int) -> nat, n: nat) -> bool {
    match t {
        TySlot::Next(j) => rk(j.0 as int) < n,
        TySlot::Ty(Ty::Apply(a, b)) | TySlot::Ty(Ty::Fn(a, b)) | TySlot::Ty(Ty::Folded(a, b)) => rk(a.0 as int) < n && rk(b.0 as int) < n,
        _ => true,
    }
}
spec fn ranked(u: Unifier, rk: spec_fn(int) -> nat) -> bool { forall|i: int| 0 <= i < len(u) ==> below(#[trigger] cur(u, i), rk, rk(i)) }
spec fn acyclic(u: Unifier) -> bool { exists|rk: spec_fn(int) -> nat| ranked(u, rk) }
spec fn edge(u: Unifier, i: int, j: int) -> bool {
    match cur(u, i) {
        TySlot::Next(t) => j == t.0,
        TySlot::Ty(Ty::Apply(a, b)) | TySlot::Ty(Ty::Fn(a, b)) | TySlot::Ty(Ty::Folded(a, b)) => j == a.0 || j == b.0,
        _ => false,
    }
}
spec fn reach(u: Unifier, i: int, v: int, n: nat) -> bool decreases n {
    i == v || n > 0 && exists|j: int| #[trigger] edge(u, i, j) && reach(u, j, v, (n - 1) as nat)
}
spec fn reaches(u: Unifier, i: int, v: int) -> bool { exists|n: nat| reach(u, i, v, n) }
proof fn reach_step(u: Unifier, i: int, j: int, v: int) requires edge(u, i, j), reaches(u, j, v), ensures reaches(u, i, v)
{ let n = choose|n: nat| reach(u, j, v, n); assert(reach(u, i, v, n + 1)) by { assert(edge(u, i, j) && reach(u, j, v, ((n + 1) - 1) as nat)); } }
proof fn reach_from(u: Unifier, i: int, v: int) -> (j: int) requires reaches(u, i, v), i != v, ensures edge(u, i, j), reaches(u, j, v)
{
    let n = choose|n: nat| reach(u, i, v, n);
    let j = choose|j: int| #[trigger] edge(u, i, j) && reach(u, j, v, (n - 1) as nat);
    assert(reach(u, j, v, (n - 1) as nat));
    j
}
/// the same graph, less some edges
proof fn fewer(a: Unifier, b: Unifier)
    requires acyclic(a), len(a) == len(b), forall|i: int| 0 <= i < len(a) ==> #[trigger] cur(b, i) == cur(a, i) || cur(b, i) is Infer || cur(b, i) == TySlot::Ty(Ty::Error),
    ensures acyclic(b),
{ let rk = choose|rk: spec_fn(int) -> nat| ranked(a, rk); assert forall|i: int| 0 <= i < len(b) implies below(#[trigger] cur(b, i), rk, rk(i)) by { assert(below(cur(a, i), rk, rk(i))); } assert(ranked(b, rk)); }
/// one edge more, from where nothing led
proof fn linked(a: Unifier, b: Unifier, v: int, w: int)
    requires acyclic(a), len(a) == len(b), 0 <= v < len(a), cur(a, v) is Infer, cur(b, v) is Next, cur(b, v)->Next_0.0 == w, !reaches(a, w, v),
        forall|i: int| 0 <= i < len(a) && i != v ==> #[trigger] cur(b, i) == cur(a, i),
    ensures acyclic(b),
{
    let rk = choose|rk: spec_fn(int) -> nat| ranked(a, rk);
    let up = |i: int| if reaches(a, i, v) { rk(i) + rk(w) + 1 } else { rk(i) };
    assert(reach(a, v, v, 0));
    assert forall|i: int| 0 <= i < len(b) implies below(#[trigger] cur(b, i), up, up(i)) by {
        assert(below(cur(a, i), rk, rk(i)));
        if i != v {
            assert forall|j: int| #[trigger] edge(a, i, j) implies up(j) < up(i) by { if reaches(a, j, v) { reach_step(a, i, j, v); } }
            match cur(a, i) {
                TySlot::Next(x) => { assert(edge(a, i, x.0 as int)); }
                TySlot::Ty(Ty::Apply(x, y)) => { assert(edge(a, i, x.0 as int) && edge(a, i, y.0 as int)); }
                TySlot::Ty(Ty::Fn(x, y)) => { assert(edge(a, i, x.0 as int) && edge(a, i, y.0 as int)); }
                TySlot::Ty(Ty::Folded(x, y)) => { assert(edge(a, i, x.0 as int) && edge(a, i, y.0 as int)); }
                _ => { }
            }
        }
    }
    assert(ranked(b, up));
}
proof fn one_more(a: Unifier, b: Unifier)
    requires acyclic(a), len(b) == len(a) + 1, slot_range(a, cur(b, len(a))), forall|i: int| 0 <= i < len(a) ==> #[trigger] cur(b, i) == cur(a, i) && slot_range(a, cur(a, i)),
    ensures acyclic(b),
{
    let rk = choose|rk: spec_fn(int) -> nat| ranked(a, rk);
    let top: nat = match cur(b, len(a)) {
        TySlot::Next(j) => rk(j.0 as int) + 1,
        TySlot::Ty(Ty::Apply(x, y)) | TySlot::Ty(Ty::Fn(x, y)) | TySlot::Ty(Ty::Folded(x, y)) => rk(x.0 as int) + rk(y.0 as int) + 1,
        _ => 0,
    };
    let up = |i: int| if i == len(a) { top } else { rk(i) };
    assert forall|i: int| 0 <= i < len(b) implies below(#[trigger] cur(b, i), up, up(i)) by { if i < len(a) { assert(below(cur(a, i), rk, rk(i))); } }
    assert(ranked(b, up));
}
/// the types a state stands for, given a rank
spec fn built(u: Unifier, rk: spec_fn(int) -> nat, i: int) -> G decreases rk(i) when ranked(u, rk) && 0 <= i < len(u) && wf_slots(u)
{
    match cur(u, i) {
        TySlot::Next(j) => built(u, rk, j.0 as int),
        TySlot::Ty(t) => match t {
            Ty::Bool => G::Bool,
            Ty::String => G::Str,
            Ty::Named(n) => G::Named(n),
            Ty::Apply(a, b) => G::Apply(Box::new(built(u, rk, a.0 as int)), Box::new(built(u, rk, b.0 as int))),
            Ty::Fn(a, b) => G::Fn(Box::new(built(u, rk, a.0 as int)), Box::new(built(u, rk, b.0 as int))),
            Ty::Folded(a, b) => G::Folded(Box::new(built(u, rk, a.0 as int)), Box::new(built(u, rk, b.0 as int))),
            _ => G::Int,
        },
        TySlot::Infer => G::Int,
    }
}
spec fn wf_slots(u: Unifier) -> bool { forall|i: int| 0 <= i < len(u) ==> slot_range(u, #[trigger] cur(u, i)) }
/// every state stands for something
proof fn solvable(u: Unifier) -> (s: Sol) requires wf(u) ensures solves(u, s)
{
    let rk = choose|rk: spec_fn(int) -> nat| ranked(u, rk);
    assert(wf_slots(u)) by { assert forall|i: int| 0 <= i < len(u) implies slot_range(u, #[trigger] cur(u, i)) by { assert(slot_range(u, u.slots@[i])); } }
    let s = Map::new(Set::range(0, len(u)), |i: int| built(u, rk, i));
    assert forall|i: int| 0 <= i < len(u) implies #[trigger] fits_at(u, s, i) by { assert(slot_range(u, cur(u, i))); }
    s
}
spec fn wf(u: Unifier) -> bool {
    len(u) <= u32::MAX && acyclic(u)
    && (forall|i: int| 0 <= i < len(u) ==> slot_range(u, #[trigger] u.slots@[i]))
    && (forall|k: usize| #[trigger] u.pending@.contains_key(k) ==> k < len(u) && slot_range(u, u.pending@[k]))
}
spec fn is_ty(s: Sol, g: G, t: Ty) -> bool {
    match t {
        Ty::Bool => g == G::Bool,
        Ty::Int => g == G::Int,
        Ty::String => g == G::Str,
        Ty::Named(n) => g == G::Named(n),
        Ty::Apply(a, b) => g == G::Apply(Box::new(s[a.0 as int]), Box::new(s[b.0 as int])),
        Ty::Fn(a, b) => g == G::Fn(Box::new(s[a.0 as int]), Box::new(s[b.0 as int])),
        Ty::Folded(a, b) => g == G::Folded(Box::new(s[a.0 as int]), Box::new(s[b.0 as int])),
        Ty::Error => true,
    }
}
spec fn is_slot(s: Sol, g: G, t: TySlot) -> bool { match t { TySlot::Infer => true, TySlot::Next(n) => g == s[n.0 as int], TySlot::Ty(t) => is_ty(s, g, t) } }
spec fn fits_at(u: Unifier, s: Sol, i: int) -> bool { is_slot(s, s[i], cur(u, i)) }
spec fn solves(u: Unifier, s: Sol) -> bool { forall|i: int| 0 <= i < len(u) ==> #[trigger] fits_at(u, s, i) }
/// nothing that was reported already
spec fn clean(u: Unifier) -> bool { forall|i: int| 0 <= i < len(u) ==> #[trigger] cur(u, i) != TySlot::Ty(Ty::Error) }
/// what solves b solves a
spec fn refines(a: Unifier, b: Unifier) -> bool {
    len(a) <= len(b) && (clean(b) ==> clean(a)) && forall|s: Sol| #[trigger] solves(b, s) ==> solves(a, s)
}
broadcast proof fn refines_trans(a: Unifier, b: Unifier, c: Unifier)
    requires #[trigger] refines(a, b), #[trigger] refines(b, c),
    ensures refines(a, c),
{}
/// two types are the same in every solution
spec fn one(u: Unifier, a: TyIdx, b: TyIdx) -> bool { forall|s: Sol| #[trigger] solves(u, s) ==> s[a.0 as int] == s[b.0 as int] }

broadcast proof fn solved(u: Unifier, s: Sol, i: int)
    requires #[trigger] solves(u, s), 0 <= i < len(u),
    ensures is_slot(s, s[i], #[trigger] cur(u, i)),
{ assert(fits_at(u, s, i)); }
broadcast proof fn no_vars(n: Symbol, s: Sol) ensures #[trigger] head_of(n, Seq::empty(), s) == G::Named(n) {}
broadcast proof fn no_args(t: Type, s: Sol, g: G) requires t is Named, t->Named_1@.len() == 0 ensures #[trigger] is_inst(t, Seq::empty(), s, g) == (g == G::Named(t->Named_0))
{ match t { Type::Named(n, v) => { assert(args_inst(v, 0, head_of(n, Seq::empty(), s), Seq::empty(), s, g) == (g == head_of(n, Seq::empty(), s))); no_vars(n, s); } _ => {} } }
broadcast group laws { refines_trans, solved, no_vars, no_args }
/// an open slot refers to another from now on
proof fn bound(a: Unifier, b: Unifier, v: TyIdx, w: TyIdx)
    requires wf(a), in_range(a, v), in_range(a, w), cur(a, v.0 as int) is Infer, b.slots@ == a.slots@, !reaches(a, w.0 as int, v.0 as int),
        b.pending@ == a.pending@.insert(v.0 as usize, TySlot::Next(w)),
    ensures wf(b), refines(a, b), one(b, v, w), one(b, w, v), clean(a) ==> clean(b),
{
    broadcast use solved;
    assert forall|i: int| 0 <= i < len(a) && i != v.0 implies cur(b, i) == cur(a, i) by {}
    assert(cur(b, v.0 as int) == TySlot::Next(w));
    linked(a, b, v.0 as int, w.0 as int);
    assert forall|s: Sol| #[trigger] solves(b, s) implies solves(a, s) by {
        assert forall|i: int| 0 <= i < len(a) implies #[trigger] fits_at(a, s, i) by { assert(fits_at(b, s, i)); }
    }
    if clean(b) { assert forall|i: int| 0 <= i < len(a) implies #[trigger] cur(a, i) != TySlot::Ty(Ty::Error) by { assert(cur(b, i) != TySlot::Ty(Ty::Error)); } }
    if clean(a) { assert forall|i: int| 0 <= i < len(b) implies #[trigger] cur(b, i) != TySlot::Ty(Ty::Error) by { if i != v.0 { assert(cur(a, i) != TySlot::Ty(Ty::Error)); } } }
}
/// a slot more
proof fn grown(a: Unifier, b: Unifier, x: TySlot)
    requires wf(a), len(a) < u32::MAX, b.slots@ == a.slots@.push(x), b.pending@ == a.pending@, slot_range(a, x),
    ensures wf(b), refines(a, b), cur(b, len(a)) == x,
        forall|s: Sol| #[trigger] solves(b, s) ==> is_slot(s, s[len(a)], x),
        clean(b) ==> x != TySlot::Ty(Ty::Error),
        clean(a) && x != TySlot::Ty(Ty::Error) ==> clean(b),
{
    broadcast use solved;
    assert forall|i: int| 0 <= i < len(b) implies slot_range(b, #[trigger] b.slots@[i]) by { if i < len(a) { assert(slot_range(a, a.slots@[i])); } }
    assert forall|i: int| 0 <= i < len(a) implies cur(b, i) == cur(a, i) by {}
    assert(cur(b, len(a)) == x);
    assert forall|i: int| 0 <= i < len(a) implies #[trigger] cur(b, i) == cur(a, i) && slot_range(a, cur(a, i)) by { assert(slot_range(a, a.slots@[i])); }
    one_more(a, b);
    assert forall|s: Sol| #[trigger] solves(b, s) implies solves(a, s) by {
        assert forall|i: int| 0 <= i < len(a) implies #[trigger] fits_at(a, s, i) by { assert(fits_at(b, s, i)); }
    }
    if clean(b) { assert forall|i: int| 0 <= i < len(a) implies #[trigger] cur(a, i) != TySlot::Ty(Ty::Error) by { assert(cur(b, i) != TySlot::Ty(Ty::Error)); } }
}
spec fn settled(u: Unifier) -> bool { u.pending@ == Map::<usize, TySlot>::empty() }
proof fn tainted(a: Unifier, b: Unifier, v: int)
    requires wf(a), 0 <= v < len(a), a.slots@[v] is Infer, settled(a), b.pending@ == a.pending@, b.slots@ == a.slots@.update(v, TySlot::Ty(Ty::Error)),
    ensures wf(b), refines(a, b),
{
    assert forall|i: int| 0 <= i < len(a) && i != v implies cur(b, i) == cur(a, i) by {}
    assert(cur(b, v) == TySlot::Ty(Ty::Error));
    fewer(a, b);
    assert forall|i: int| 0 <= i < len(b) implies slot_range(b, #[trigger] b.slots@[i]) by { assert(slot_range(a, a.slots@[i])); }
    assert forall|s: Sol| #[trigger] solves(b, s) implies solves(a, s) by {
        assert forall|i: int| 0 <= i < len(a) implies #[trigger] fits_at(a, s, i) by { assert(fits_at(b, s, i)); }
    }
}
// ---- types of names
spec fn vars_range(u: Unifier, vs: Seq<(Symbol, TyIdx)>) -> bool { forall|i: int| 0 <= i < vs.len() ==> in_range(u, (#[trigger] vs[i]).1) }
/// the first entry for a variable, or the number of entries
spec fn var_at(vs: Seq<(Symbol, TyIdx)>, v: Symbol, i: int) -> int decreases vs.len() - i {
    if i < 0 || i >= vs.len() || vs[i].0 == v { i } else { var_at(vs, v, i + 1) }
}
/// `vars.iter().find(|(v, _)| v == s)`
#[verifier::external_body]
fn vx_find<'a>(vars: &'a [(Symbol, TyIdx)], s: &Symbol) -> (r: Option<&'a (Symbol, TyIdx)>)
    ensures 0 <= var_at(vars@, *s, 0) <= vars@.len(), (r is None) == (var_at(vars@, *s, 0) == vars@.len()), r is Some ==> *r->0 == vars@[var_at(vars@, *s, 0)]
{ unimplemented!() }
spec fn head_of(n: Symbol, vs: Seq<(Symbol, TyIdx)>, s: Sol) -> G {
    let k = var_at(vs, n, 0);
    if k < vs.len() { s[vs[k].1.0 as int] } else { G::Named(n) }
}
/// g is the written type t with the given variables replaced (what is written `_` is anything)
spec fn is_inst(t: Type, vs: Seq<(Symbol, TyIdx)>, s: Sol, g: G) -> bool decreases t, 0nat {
    match t {
        Type::Int => g == G::Int,
        Type::Bool => g == G::Bool,
        Type::String => g == G::Str,
        Type::Named(n, a) => args_inst(a, a@.len(), head_of(n, vs, s), vs, s, g),
        Type::Fn(a, b) => g is Fn && is_inst(*a, vs, s, *g->Fn_0) && is_inst(*b, vs, s, *g->Fn_1),
        Type::Folded(a, b) => g is Folded && is_inst(*a, vs, s, *g->Folded_0) && is_inst(*b, vs, s, *g->Folded_1),
        Type::Error | Type::Infer => true,
    }
}
spec fn args_inst(a: Vec<Type>, n: nat, head: G, vs: Seq<(Symbol, TyIdx)>, s: Sol, g: G) -> bool decreases a, n {
    if n == 0 { g == head } else if n > a@.len() { false } else {
        g is Apply && args_inst(a, (n - 1) as nat, head, vs, s, *g->Apply_0) && is_inst(a@[n - 1], vs, s, *g->Apply_1)
    }
}
spec fn no_err(t: Type) -> bool decreases t {
    match t {
        Type::Named(_, a) => forall|i: int| 0 <= i < a@.len() ==> no_err(#[trigger] a@[i]),
        Type::Fn(a, b) | Type::Folded(a, b) => no_err(*a) && no_err(*b),
        Type::Error => false,
        _ => true,
    }
}
/// indices are 32 bits; a definition with more than four billion types to infer is not considered
#[verifier::external_body]
proof fn vx_room(u: &Unifier) ensures len(*u) < u32::MAX { }

impl Unifier {
//@ fn ticc/src/compiler/typeck.rs Unifier::get
//@ ret r
    requires wf(*self), in_range(*self, idx),
    ensures r == cur(*self, idx.0 as int), slot_range(*self, r),
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::final_idx
//@ ret r
    requires wf(*self), in_range(*self, ty),
    ensures in_range(*self, r), one(*self, ty, r), !(cur(*self, r.0 as int) is Next), !(cur(*self, ty.0 as int) is Next) ==> r == ty,
        forall|v: int| cur(*self, v) is Infer && #[trigger] reaches(*self, ty.0 as int, v) ==> reaches(*self, r.0 as int, v),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    broadcast use solved;
    proof {
        assert forall|v: int| cur(*self, v) is Infer && #[trigger] reaches(*self, ty.0 as int, v) && cur(*self, ty.0 as int) is Next implies
            reaches(*self, cur(*self, ty.0 as int)->Next_0.0 as int, v) by { let j = reach_from(*self, ty.0 as int, v); }
    }
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::normalize
//@ ret r
    requires wf(*self), in_range(*self, ty),
    ensures
        r is None && (forall|s: Sol| #[trigger] solves(*self, s) ==> true) || r is Some && ty_range(*self, r->0)
            && (clean(*self) ==> !(r->0 is Error)) && forall|s: Sol| #[trigger] solves(*self, s) ==> is_ty(s, s[ty.0 as int], r->0),
        cur(*self, ty.0 as int) is Infer ==> r is None,
        cur(*self, ty.0 as int) is Ty ==> r == Some(cur(*self, ty.0 as int)->Ty_0),
//@ head
    broadcast use solved;
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::occurs
//@ ret r
    requires wf(*self), in_range(*self, var), in_range(*self, ty), cur(*self, var.0 as int) is Infer,
    ensures !r ==> !reaches(*self, ty.0 as int, var.0 as int),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    proof {
        assert forall|i: int| #[trigger] reaches(*self, i, var.0 as int) && i != var.0 implies (match cur(*self, i) {
            TySlot::Ty(Ty::Apply(a, b)) | TySlot::Ty(Ty::Fn(a, b)) | TySlot::Ty(Ty::Folded(a, b)) => reaches(*self, a.0 as int, var.0 as int) || reaches(*self, b.0 as int, var.0 as int),
            TySlot::Next(_) => true,
            _ => false }) by { let j = reach_from(*self, i, var.0 as int); }
    }
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::unify
//@ ret r
//@ rule ( _ , None ) if ! self . occurs ( $x:rest ) => { $b:rest } ( _ , _ ) => Err ( UnifyError ) , ==> ( _ , vx_n ) => { if vx_n . is_none ( ) && ! self . occurs ( $x ) { $b } else { Err ( UnifyError ) } }
//@ rule ?self . unify ( $x:rest ) ? ; ==> if let Err ( vx_e ) = self . unify ( $x ) { return Err ( vx_e ) ; }
    requires wf(*old(self)), in_range(*old(self), t1), in_range(*old(self), t2),
    ensures
        wf(*final(self)), final(self).slots@ == old(self).slots@, refines(*old(self), *final(self)),
        r is Ok && clean(*final(self)) ==> one(*final(self), t1, t2),
        clean(*old(self)) ==> clean(*final(self)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    broadcast use laws;
    let ghost u0 = *self;
    proof {
        assert forall|b: Unifier, v: TyIdx, w: TyIdx| in_range(u0, v) && in_range(u0, w) && cur(u0, v.0 as int) is Infer && !reaches(u0, w.0 as int, v.0 as int) && b.slots@ == u0.slots@
            && b.pending@ == #[trigger] u0.pending@.insert(v.0 as usize, TySlot::Next(w)) implies #[trigger] wf(b) && refines(u0, b) && one(b, v, w) && one(b, w, v) && (clean(u0) ==> clean(b)) by { bound(u0, b, v, w); }
    }
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::fresh_var
//@ ret r
    requires wf(*old(self)),
    ensures wf(*final(self)), in_range(*final(self), r), r.0 == len(*old(self)), len(*final(self)) == len(*old(self)) + 1, refines(*old(self), *final(self)),
        settled(*old(self)) ==> settled(*final(self)),
        clean(*old(self)) ==> clean(*final(self)),
//@ head
    let ghost u0 = *self;
    proof {
        vx_room(self);
        broadcast use laws;
        assert forall|b: Unifier, x: TySlot| b.slots@ == #[trigger] u0.slots@.push(x) && b.pending@ == u0.pending@ && slot_range(u0, x) implies #[trigger] wf(b) && refines(u0, b)
            && cur(b, len(u0)) == x && (forall|s: Sol| #[trigger] solves(b, s) ==> is_slot(s, s[len(u0)], x)) && (clean(b) ==> x != TySlot::Ty(Ty::Error)) && (clean(u0) && x != TySlot::Ty(Ty::Error) ==> clean(b)) by { grown(u0, b, x); }
    }
//@ before idx
    proof { assert(wf(*self)); assert(clean(u0) && TySlot::Infer != TySlot::Ty(Ty::Error) ==> clean(*self)); }
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::allocate
//@ ret r
    requires wf(*old(self)), ty_range(*old(self), ty),
    ensures wf(*final(self)), in_range(*final(self), r), r.0 == len(*old(self)), len(*final(self)) == len(*old(self)) + 1, refines(*old(self), *final(self)),
        settled(*old(self)) ==> settled(*final(self)),
        forall|s: Sol| #[trigger] solves(*final(self), s) ==> is_ty(s, s[r.0 as int], ty),
        clean(*final(self)) ==> !(ty is Error),
        clean(*old(self)) && !(ty is Error) ==> clean(*final(self)),
//@ head
    let ghost u0 = *self;
    proof {
        vx_room(self);
        broadcast use laws;
        assert forall|b: Unifier, x: TySlot| b.slots@ == #[trigger] u0.slots@.push(x) && b.pending@ == u0.pending@ && slot_range(u0, x) implies #[trigger] wf(b) && refines(u0, b)
            && cur(b, len(u0)) == x && (forall|s: Sol| #[trigger] solves(b, s) ==> is_slot(s, s[len(u0)], x)) && (clean(b) ==> x != TySlot::Ty(Ty::Error)) && (clean(u0) && x != TySlot::Ty(Ty::Error) ==> clean(b)) by { grown(u0, b, x); }
    }
//@ before idx
    proof { assert(wf(*self)); assert(clean(u0) && TySlot::Ty(ty) != TySlot::Ty(Ty::Error) ==> clean(*self)); if !(ty is Error) { assert(TySlot::Ty(ty) != TySlot::Ty(Ty::Error)); } }
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::commit
//@ rule for ( idx , value ) in $i:ident ( $x:rest ) ==> for vx_e in $i ( $x )
    requires wf(*old(self)),
    ensures wf(*final(self)), settled(*final(self)), len(*final(self)) == len(*old(self)),
        forall|i: int| 0 <= i < len(*old(self)) ==> cur(*final(self), i) == #[trigger] cur(*old(self), i),
        refines(*old(self), *final(self)), clean(*old(self)) ==> clean(*final(self)),
//@ head
    let ghost u0 = *self;
//@ loop 0
    invariant
        wf(u0), self.pending@ == Map::<usize, TySlot>::empty(), self.slots@.len() == len(u0),
        forall|i: int| 0 <= i < vx_it0.seq().len() ==> u0.pending@.contains_key((#[trigger] vx_it0.seq()[i]).0) && u0.pending@[vx_it0.seq()[i].0] == vx_it0.seq()[i].1,
        forall|k: usize| #[trigger] u0.pending@.contains_key(k) ==> exists|i: int| 0 <= i < vx_it0.seq().len() && vx_it0.seq()[i].0 == k,
        forall|i: int| 0 <= i < len(u0) ==> #[trigger] self.slots@[i] == u0.slots@[i] || u0.pending@.contains_key(i as usize) && self.slots@[i] == u0.pending@[i as usize],
        forall|j: int| 0 <= j < vx_it0.index() ==> self.slots@[(#[trigger] vx_it0.seq()[j]).0 as int] == vx_it0.seq()[j].1,
//@ loophead 0
    let (idx, value) = vx_e;
    proof { assert(vx_it0.seq()[vx_it0.index() as int] == (idx, value)); }
//@ after for ( idx , value ) in
    proof {
        assert forall|i: int| 0 <= i < len(u0) implies cur(*self, i) == #[trigger] cur(u0, i) by {
            if u0.pending@.contains_key(i as usize) { }
        }
        assert forall|i: int| 0 <= i < len(*self) implies slot_range(*self, #[trigger] self.slots@[i]) by { assert(slot_range(u0, u0.slots@[i])); }
        let b = *self;
        fewer(u0, b);
        assert forall|s: Sol| #[trigger] solves(b, s) implies solves(u0, s) by {
            assert forall|i: int| 0 <= i < len(u0) implies #[trigger] fits_at(u0, s, i) by { assert(fits_at(b, s, i)); assert(cur(b, i) == cur(u0, i)); }
        }
        if clean(b) { assert forall|i: int| 0 <= i < len(u0) implies #[trigger] cur(u0, i) != TySlot::Ty(Ty::Error) by { assert(cur(b, i) != TySlot::Ty(Ty::Error)); } }
        if clean(u0) { assert forall|i: int| 0 <= i < len(b) implies #[trigger] cur(b, i) != TySlot::Ty(Ty::Error) by { assert(cur(u0, i) != TySlot::Ty(Ty::Error)); } }
    }
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::rollback
    ensures final(self).slots@ == old(self).slots@, settled(*final(self)),
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::taint
    requires wf(*old(self)), settled(*old(self)), in_range(*old(self), ty),
    ensures wf(*final(self)), settled(*final(self)), len(*final(self)) == len(*old(self)), refines(*old(self), *final(self)),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    let ghost u0 = *self;
    proof {
        assert(slot_range(u0, u0.slots@[ty.0 as int]));
        assert forall|b: Unifier, i: int| 0 <= i < len(u0) && u0.slots@[i] is Infer && b.pending@ == u0.pending@ && b.slots@ == #[trigger] u0.slots@.update(i, TySlot::Ty(Ty::Error))
            implies #[trigger] wf(b) && refines(u0, b) by { tainted(u0, b, i); }
    }
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::instantiate
//@ ret r
//@ rule vars . iter ( ) . find ( | ( v , _ ) | v == s ) ==> vx_find ( vars , s )
//@ rule Some ( ( _ , idx ) ) ==> Some ( vx_p )
//@ rule * idx ==> vx_p . 1
    requires wf(*old(self)), settled(*old(self)), vars_range(*old(self), vars@),
    ensures wf(*final(self)), settled(*final(self)), in_range(*final(self), r), refines(*old(self), *final(self)),
        forall|s: Sol| #[trigger] solves(*final(self), s) ==> is_inst(*ty, vars@, s, s[r.0 as int]),
        clean(*old(self)) && no_err(*ty) ==> clean(*final(self)),
    decreases ty,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use laws;
    let ghost u0 = *self;
//@ loop 0
    invariant
        wf(*self), settled(*self), in_range(*self, t), refines(u0, *self), len(u0) <= len(*self),
        vx_it0.seq().len() == a0.len(), forall|k: int| 0 <= k < a0.len() ==> *(#[trigger] vx_it0.seq()[k]) == a0[k],
        *ty == Type::Named(*s, va), va@ == a0,
        forall|x: Sol| #[trigger] solves(*self, x) ==> args_inst(va, vx_it0.index() as nat, head_of(*s, vars@, x), vars@, x, x[t.0 as int]),
        clean(u0) && no_err(*ty) ==> clean(*self),
//@ before for a in
    let ghost a0 = a@;
    let ghost va = *a;
//@ loophead 0
    let ghost k = vx_it0.index() as int;
    let ghost u1 = *self;
    let ghost t1 = t;
    proof { assert(*a == va@[k]); assert(refines(u0, u1)); if no_err(*ty) { assert(no_err(va@[k])); } }
//@ looptail 0
    proof {
        assert forall|x: Sol| #[trigger] solves(*self, x) implies args_inst(va, (k + 1) as nat, head_of(*s, vars@, x), vars@, x, x[t.0 as int]) by {
            assert(solves(u1, x));
            assert(args_inst(va, k as nat, head_of(*s, vars@, x), vars@, x, x[t1.0 as int]));
        }
    }
//@ end
//@ fn ticc/src/compiler/typeck.rs Unifier::to_ir
//@ ret r
//@ rule panic ! ( $x:rest ) ==> vx_stop ( )
    requires wf(*self), in_range(*self, ty),
    ensures forall|s: Sol| clean(*self) && #[trigger] solves(*self, s) ==> is_inst(r, Seq::empty(), s, s[ty.0 as int]),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    broadcast use laws;
    let ghost ty0 = ty;
//@ before in ir :: Type :: Named ( a , mut x ) => x . push
    let ghost x0 = x;
//@ after in ir :: Type :: Named ( a , mut x ) => x . push
    proof {
        broadcast use laws;
        let n = (x@.len() - 1) as nat;
        assert forall|s: Sol| clean(*self) && #[trigger] solves(*self, s) implies is_inst(Type::Named(a, x), Seq::empty(), s, s[ty0.0 as int]) by {
            let g = s[ty0.0 as int];
            assert(is_ty(s, g, ty));
            assert(is_inst(Type::Named(a, x0), Seq::empty(), s, *g->Apply_0));
            assert(var_at(Seq::empty(), a, 0) == 0);
            same_args(x0, x, n, G::Named(a), s, *g->Apply_0);
            assert(x@[n as int] == x@.last());
            assert(x0@.len() == n);
            assert(head_of(a, Seq::empty(), s) == G::Named(a));
            assert(args_inst(x0, n, G::Named(a), Seq::empty(), s, *g->Apply_0));
            assert(is_inst(x@[n as int], Seq::empty(), s, *g->Apply_1));
            assert(args_inst(x, x@.len(), G::Named(a), Seq::empty(), s, g));
        }
    }
//@ end
}
proof fn same_args(x: Vec<Type>, y: Vec<Type>, n: nat, h: G, s: Sol, g: G)
    requires n <= x@.len(), n <= y@.len(), forall|i: int| 0 <= i < n ==> x@[i] == y@[i],
    ensures args_inst(x, n, h, Seq::empty(), s, g) == args_inst(y, n, h, Seq::empty(), s, g),
    decreases n,
{ if n > 0 && g is Apply { same_args(x, y, (n - 1) as nat, h, s, *g->Apply_0); } }
#[verifier::external_body]
fn vx_stop<T>() -> T ensures false { unimplemented!() }

// ---- the rules
//@ type ticc/src/compiler/typeck.rs Ctor | #[derive(Clone, Copy)]
//@ type ticc/src/lib.rs Severity
pub struct RawDiagnostic { pub message: (), pub severity: Severity, pub span: Span }
//@ rule diagnostics : & 'a mut Vec < RawDiagnostic > ==> diagnostics : Vec < RawDiagnostic >
//@ type ticc/src/compiler/typeck.rs TypeChecker
//@ type ticc/src/compiler/lexer.rs TokenKind | #[derive(Clone, Copy)]
/// which operator stands between the operands, whether a function folds (accessors of the syntax tree)
uninterp spec fn op_of(e: node::BinaryExpr) -> Option<TokenKind>;
#[verifier::external_body]
fn vx_op(e: &node::BinaryExpr) -> (r: Option<TokenKind>) ensures r == op_of(*e) { unimplemented!() }
uninterp spec fn folds(e: node::LambdaExpr) -> bool;
#[verifier::external_body]
fn vx_fold(e: &node::LambdaExpr) -> (r: bool) ensures r == folds(*e) { unimplemented!() }
fn vx_count(c: &node::MatchCase) -> (r: usize) ensures r == n_vars(*c) { match c.vars() { Some(v) => v.vars().len(), None => 0 } }
/// `zip` of two sequences of the same length
#[verifier::external_body]
fn vx_zip<'a>(a: &'a Vec<node::Name>, b: &'a [Field]) -> (r: Vec<(&'a node::Name, &'a Field)>)
    ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == a@[i] && *r@[i].1 == b@[i]
{ unimplemented!() }

/// what is known of names: what the syntax refers to, the types, the constructors
ghost struct K<'a> { syms: Map<NodeId, Symbol>, tys: Map<Symbol, NameTy<'a>>, ctors: Map<Symbol, Ctor<'a>> }
spec fn k_of<'a>(c: TypeChecker<'a>) -> K<'a> { K { syms: c.symbols@, tys: c.symbol_types@, ctors: c.ctors@ } }
spec fn k_range(k: K, u: Unifier) -> bool { forall|s: Symbol| #[trigger] k.tys.contains_key(s) && k.tys[s] is Infer ==> in_range(u, k.tys[s]->Infer_0) }
spec fn ok(c: TypeChecker) -> bool {
    wf(c.unifier) && settled(c.unifier) && k_range(k_of(c), c.unifier)
        && (forall|n: NodeId| #[trigger] c.expr_types@.contains_key(n) ==> in_range(c.unifier, c.expr_types@[n]))
        && (forall|n: NodeId| #[trigger] c.insts@.contains_key(n) ==> all_range(c.unifier, c.insts@[n]@))
}
spec fn all_range(u: Unifier, v: Seq<TyIdx>) -> bool { forall|i: int| 0 <= i < v.len() ==> in_range(u, #[trigger] v[i]) }
spec fn step(a: TypeChecker, b: TypeChecker) -> bool {
    ok(b) && k_of(a) == k_of(b) && refines(a.unifier, b.unifier) && a.diagnostics@.len() <= b.diagnostics@.len()
}
spec fn quiet(a: TypeChecker, b: TypeChecker) -> bool { a.diagnostics@.len() == b.diagnostics@.len() }
spec fn names_of(w: Seq<(Symbol, TyIdx)>) -> Seq<Symbol> { Seq::new(w.len(), |i: int| w[i].0) }
/// a use of a symbol has its type, with its variables replaced
spec fn used_at(k: K, sym: Symbol, s: Sol, g: G) -> bool {
    match k.tys[sym] {
        NameTy::Infer(i) => g == s[i.0 as int],
        NameTy::Inst(t, vs) => exists|w: Seq<(Symbol, TyIdx)>| #[trigger] names_of(w) == vs@ && is_inst(*t, w, s, g),
    }
}
spec fn bound_at(k: K, sym: Symbol, s: Sol, g: G) -> bool {
    match k.tys[sym] { NameTy::Infer(i) => g == s[i.0 as int], NameTy::Inst(t, _) => is_inst(*t, Seq::empty(), s, g) }
}
spec fn known(k: K, n: node::Name) -> bool {
    k.syms.contains_key(n.syntax.id) && k.tys.contains_key(k.syms[n.syntax.id]) && match k.tys[k.syms[n.syntax.id]] { NameTy::Infer(_) => true, NameTy::Inst(t, _) => no_err(*t) }
}
spec fn sym_of(k: K, n: node::Name) -> Symbol { k.syms[n.syntax.id] }
/// to name a type
spec fn is(g: G) -> bool { true }
spec fn arrow(a: G, b: G) -> G { G::Fn(Box::new(a), Box::new(b)) }
spec fn applied(n: Symbol, w: Seq<(Symbol, TyIdx)>, j: int, s: Sol) -> G decreases j {
    if j <= 0 { G::Named(n) } else { G::Apply(Box::new(applied(n, w, j - 1, s)), Box::new(s[w[j - 1].1.0 as int])) }
}
spec fn n_vars(c: node::MatchCase) -> nat { match c.vars { Some(v) => v.vars@.len(), None => 0 } }
spec fn field_is(f: Field, w: Seq<(Symbol, TyIdx)>, s: Sol, r: G, g: G) -> bool { match f { Field::Rec => g == r, Field::Type(t) => is_inst(t, w, s, g) } }
spec fn var_ok(k: K, v: node::Name, f: Field, w: Seq<(Symbol, TyIdx)>, s: Sol, r: G) -> bool {
    exists|g: G| #[trigger] used_at(k, sym_of(k, v), s, g) && field_is(f, w, s, r, g)
}
/// the pattern takes values of type p apart, r is the type of what is folded
spec fn pattern_ok(k: K, c: node::MatchCase, s: Sol, p: G, r: G) -> bool {
    let ct = k.ctors[sym_of(k, c.ctor->0)];
    exists|w: Seq<(Symbol, TyIdx)>| #[trigger] names_of(w) == ct.type_vars@ && p == applied(ct.type_symbol, w, w.len() as int, s)
        && n_vars(c) == ct.fields@.len()
        && forall|i: int| 0 <= i < n_vars(c) ==> var_ok(k, #[trigger] c.vars->0.vars@[i], ct.fields@[i], w, s, r)
}
spec fn taken_apart(d: G, p: G, r: G) -> bool { d == G::Folded(Box::new(p), Box::new(r)) || d == p && d == r }
spec fn arith(k: TokenKind) -> bool { k is Plus || k is Minus || k is Star || k is Slash || k is Percent }
spec fn compares(k: TokenKind) -> bool { k is Less || k is LessEq || k is Greater || k is GreaterEq || k is EqEq || k is NotEq }
/// e may have type g
spec fn typed(k: K, s: Sol, e: node::Expr, g: G) -> bool decreases e {
    match e {
        node::Expr::Name(x) => used_at(k, sym_of(k, x.name->0), s, g),
        node::Expr::NamespacedName(x) => used_at(k, sym_of(k, x.name->0), s, g),
        node::Expr::Apply(x) => x.function is Some && x.arg is Some && exists|a: G| #[trigger] is(a) && typed(k, s, *x.arg->0, a) && typed(k, s, *x.function->0, arrow(a, g)),
        node::Expr::Binary(x) => x.lhs is Some && x.rhs is Some && op_of(x) is Some && {
            let o = op_of(x)->0;
            if arith(o) { g == G::Int && typed(k, s, *x.lhs->0, G::Int) && typed(k, s, *x.rhs->0, G::Int) }
            else if compares(o) { g == G::Bool && typed(k, s, *x.lhs->0, G::Int) && typed(k, s, *x.rhs->0, G::Int) }
            else { exists|a: G| #[trigger] is(a) && typed(k, s, *x.lhs->0, a) && typed(k, s, *x.rhs->0, arrow(a, g)) }
        },
        node::Expr::Let(x) => x.value is Some && x.rest is Some && typed(k, s, *x.rest->0, g)
            && exists|a: G| #[trigger] is(a) && typed(k, s, *x.value->0, a) && bound_at(k, sym_of(k, x.name->0), s, a),
        node::Expr::Match(x) => x.discr is Some && exists|d: G, p: G, r: G| #[trigger] taken_apart(d, p, r) && typed(k, s, *x.discr->0, d)
            && forall|i: int| 0 <= i < x.cases@.len() ==> (#[trigger] x.cases@[i]).body is Some && pattern_ok(k, x.cases@[i], s, p, r) && typed(k, s, *x.cases@[i].body->0, g),
        node::Expr::If(x) => x.cond is Some && x.then_value is Some && x.else_value is Some
            && typed(k, s, *x.cond->0, G::Bool) && typed(k, s, *x.then_value->0, g) && typed(k, s, *x.else_value->0, g),
        node::Expr::Bool(_) => g == G::Bool,
        node::Expr::Number(_) => g == G::Int,
        node::Expr::String(_) => g == G::Str,
        node::Expr::Lambda(x) => x.body is Some && exists|a: G, b: G| g == #[trigger] arrow(a, b) && typed(k, s, *x.body->0, b)
            && used_at(k, sym_of(k, x.param->0), s, if folds(x) { G::Folded(Box::new(a), Box::new(b)) } else { a }),
        node::Expr::Paren(x) => x.inner is Some && typed(k, s, *x.inner->0, g),
        node::Expr::Hole(_) => true,
    }
}
spec fn some_known(k: K, n: Option<node::Name>) -> bool { n is Some && known(k, n->0) }
spec fn fields_known(fs: Seq<Field>) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i] is Type ==> no_err(fs[i]->Type_0)) }
spec fn case_whole(k: K, c: node::MatchCase) -> bool {
    c.ctor is Some && k.syms.contains_key(c.ctor->0.syntax.id) && k.ctors.contains_key(sym_of(k, c.ctor->0)) && fields_known(k.ctors[sym_of(k, c.ctor->0)].fields@)
        && (c.vars is Some ==> forall|i: int| 0 <= i < c.vars->0.vars@.len() ==> known(k, #[trigger] c.vars->0.vars@[i]))
}
/// nothing is missing in e and every name in it is known (otherwise earlier phases report it)
spec fn whole(k: K, e: node::Expr) -> bool decreases e {
    match e {
        node::Expr::Name(x) => some_known(k, x.name),
        node::Expr::NamespacedName(x) => some_known(k, x.name),
        node::Expr::Apply(x) => x.function is Some && x.arg is Some && whole(k, *x.function->0) && whole(k, *x.arg->0),
        node::Expr::Binary(x) => op_of(x) is Some && x.lhs is Some && x.rhs is Some && whole(k, *x.lhs->0) && whole(k, *x.rhs->0),
        node::Expr::Let(x) => some_known(k, x.name) && x.value is Some && x.rest is Some && whole(k, *x.value->0) && whole(k, *x.rest->0),
        node::Expr::Match(x) => x.discr is Some && whole(k, *x.discr->0)
            && forall|i: int| 0 <= i < x.cases@.len() ==> case_whole(k, #[trigger] x.cases@[i]) && x.cases@[i].body is Some && whole(k, *x.cases@[i].body->0),
        node::Expr::If(x) => x.cond is Some && x.then_value is Some && x.else_value is Some && whole(k, *x.cond->0) && whole(k, *x.then_value->0) && whole(k, *x.else_value->0),
        node::Expr::Lambda(x) => some_known(k, x.param) && x.body is Some && whole(k, *x.body->0),
        node::Expr::Paren(x) => x.inner is Some && whole(k, *x.inner->0),
        _ => true,
    }
}
fn vx_fresh_all(u: &mut Unifier, vars: &[Symbol]) -> (r: Vec<(Symbol, TyIdx)>)
    requires wf(*old(u)), settled(*old(u)),
    ensures wf(*final(u)), settled(*final(u)), refines(*old(u), *final(u)), clean(*old(u)) ==> clean(*final(u)), vars_range(*final(u), r@), names_of(r@) == vars@,
{
    broadcast use laws;
    let ghost u0 = *u;
    let mut r = Vec::new();
    let mut i = 0;
    while i < vars.len()
        invariant wf(*u), settled(*u), refines(u0, *u), clean(u0) ==> clean(*u), vars_range(*u, r@), i <= vars@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).0 == vars@[j],
        decreases vars.len() - i,
    {
        let ghost u1 = *u;
        let f = u.fresh_var();
        proof { assert(refines(u1, *u)); assert(refines(u0, u1)); }
        r.push((vars[i], f));
        i += 1;
    }
    proof { assert(names_of(r@) =~= vars@); }
    r
}
fn vx_none<'a>() -> (r: &'a [(Symbol, TyIdx)]) ensures r@ == Seq::<(Symbol, TyIdx)>::empty() { &[] }

impl<'a> TypeChecker<'a> {
fn vx_ctor(&self, n: &node::Name) -> (r: Option<Ctor<'a>>)
    ensures r is Some ==> self.symbols@.contains_key(n.syntax.id) && self.ctors@.contains_key(self.symbols@[n.syntax.id]) && r->0 == self.ctors@[self.symbols@[n.syntax.id]],
        self.symbols@.contains_key(n.syntax.id) && self.ctors@.contains_key(self.symbols@[n.syntax.id]) ==> r is Some,
{
    match self.symbols.get(&n.syntax().id()) { Some(s) => self.ctors.get(s).copied(), None => None }
}
//@ fn ticc/src/compiler/typeck.rs TypeChecker::fresh_var
//@ ret r
    requires ok(*old(self)),
    ensures step(*old(self), *final(self)), quiet(*old(self), *final(self)), in_range(final(self).unifier, r), clean(old(self).unifier) ==> clean(final(self).unifier),
//@ end
//@ fn ticc/src/compiler/typeck.rs TypeChecker::allocate
//@ ret r
    requires ok(*old(self)), ty_range(old(self).unifier, ty),
    ensures step(*old(self), *final(self)), quiet(*old(self), *final(self)), in_range(final(self).unifier, r),
        clean(old(self).unifier) && !(ty is Error) ==> clean(final(self).unifier),
        forall|s: Sol| #[trigger] solves(final(self).unifier, s) ==> is_ty(s, s[r.0 as int], ty),
//@ end
//@ rule err_fmt ! ( $x:rest ) ==> ( )
//@ fn ticc/src/compiler/typeck.rs TypeChecker::unify
    requires ok(*old(self)), in_range(old(self).unifier, expected), in_range(old(self).unifier, actual),
    ensures step(*old(self), *final(self)), clean(old(self).unifier) ==> clean(final(self).unifier),
        quiet(*old(self), *final(self)) && clean(old(self).unifier) ==> one(final(self).unifier, expected, actual),
//@ head
    broadcast use laws;
    let ghost u0 = self.unifier;
//@ after in Err ( UnifyError ) => self . unifier . rollback
    proof { rolled_back(u0, self.unifier); }
//@ end
//@ fn ticc/src/compiler/typeck.rs TypeChecker::taint
    requires ok(*old(self)), in_range(old(self).unifier, ty),
    ensures step(*old(self), *final(self)), quiet(*old(self), *final(self)),
//@ end
//@ fn ticc/src/compiler/typeck.rs TypeChecker::lookup_name
//@ ret r
//@ rule vars . iter ( ) . map ( | v | ( * v , unifier . fresh_var ( ) ) ) . collect :: < Vec < _ > > ( ) ==> vx_fresh_all ( unifier , vars )
//@ rule & inst ==> inst . as_slice ( )
    requires ok(*old(self)),
    ensures step(*old(self), *final(self)), quiet(*old(self), *final(self)), in_range(final(self).unifier, r),
        ({ let k = k_of(*old(self)); k.tys.contains_key(symbol) ==> {
            &&& (forall|s: Sol| #[trigger] solves(final(self).unifier, s) ==> used_at(k, symbol, s, s[r.0 as int]))
            &&& (clean(old(self).unifier) && (k.tys[symbol] is Inst ==> no_err(*k.tys[symbol]->Inst_0)) ==> clean(final(self).unifier)) } }),
//@ head
    broadcast use laws;
//@ end
//@ fn ticc/src/compiler/typeck.rs TypeChecker::lookup_name_opaque
//@ ret r
//@ rule ?& [ ] ==> vx_none ( )
    requires ok(*old(self)),
    ensures step(*old(self), *final(self)), quiet(*old(self), *final(self)), in_range(final(self).unifier, r),
        ({ let k = k_of(*old(self)); k.tys.contains_key(symbol) ==> {
            &&& (forall|s: Sol| #[trigger] solves(final(self).unifier, s) ==> bound_at(k, symbol, s, s[r.0 as int]))
            &&& (clean(old(self).unifier) && (k.tys[symbol] is Inst ==> no_err(*k.tys[symbol]->Inst_0)) ==> clean(final(self).unifier)) } }),
//@ head
    broadcast use laws;
//@ end
//@ fn ticc/src/compiler/typeck.rs TypeChecker::instantiate_name
//@ ret r
//@ rule vars . iter ( ) . map ( | v | ( * v , unifier . fresh_var ( ) ) ) . collect :: < Vec < _ > > ( ) ==> vx_fresh_all ( unifier , vars )
//@ rule inst . iter ( ) . map ( | & ( _ , x ) | x ) . collect ( ) ==> vx_second ( & inst )
//@ rule unifier . instantiate ( ty , & inst ) ==> unifier . instantiate ( ty , inst . as_slice ( ) )
    requires ok(*old(self)),
    ensures step(*old(self), *final(self)), quiet(*old(self), *final(self)), in_range(final(self).unifier, r),
        ({ let k = k_of(*old(self)); k.tys.contains_key(symbol) ==> {
            &&& (forall|s: Sol| #[trigger] solves(final(self).unifier, s) ==> used_at(k, symbol, s, s[r.0 as int]))
            &&& (clean(old(self).unifier) && (k.tys[symbol] is Inst ==> no_err(*k.tys[symbol]->Inst_0)) ==> clean(final(self).unifier)) } }),
//@ head
    broadcast use laws;
//@ end
//@ fn ticc/src/compiler/typeck.rs TypeChecker::check_operands
    requires ok(*old(self)), in_range(old(self).unifier, ty),
    ensures step(*old(self), *final(self)),
        ({ let k = k_of(*old(self)); expr.lhs is Some && expr.rhs is Some && whole(k, *expr.lhs->0) && whole(k, *expr.rhs->0) && clean(old(self).unifier) ==> {
            &&& clean(final(self).unifier)
            &&& (quiet(*old(self), *final(self)) ==> forall|s: Sol| #[trigger] solves(final(self).unifier, s) ==> typed(k, s, *expr.lhs->0, s[ty.0 as int]) && typed(k, s, *expr.rhs->0, s[ty.0 as int])) } }),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ head
    broadcast use laws;
//@ end
//@ fn ticc/src/compiler/typeck.rs TypeChecker::check_expr
//@ rule expr . op ( ) . map ( | o | o . token ( ) . kind ( ) ) ==> vx_op ( expr )
//@ rule expr . fold_token ( ) . is_some ( ) ==> vx_fold ( expr )
//@ rule Some ( & sym ) = self . symbols . get ( $x:rest ) ==> Some ( sym ) = self . symbols . get ( $x ) . copied ( )
//@ rule Some ( & s ) = self . symbols . get ( $x:rest ) ==> Some ( s ) = self . symbols . get ( $x ) . copied ( )
//@ rule panic ! ( $x:rest ) ==> vx_stop ( )
//@ rule self . symbols . get ( & ctor_name . syntax ( ) . id ( ) ) . and_then ( | s | self . ctors . get ( s ) ) . copied ( ) ==> self . vx_ctor ( ctor_name )
//@ rule case . vars ( ) . map ( | v | v . vars ( ) . count ( ) ) . unwrap_or ( 0 ) ==> vx_count ( case )
//@ rule let end = case . vars ( ) . and_then ( $x:rest ) . unwrap_or ( $y:rest ) ; ==>
//@ rule let span = Span :: new ( $x:rest ) ; ==>
//@ rule __vx_it_0 ( expr . cases ( ) ) ==> __vx_it_0 ( expr . cases ( ) . iter ( ) )
//@ rule __vx_it_1 ( ctor . type_vars ) ==> __vx_it_1 ( ctor . type_vars . iter ( ) )
//@ rule __vx_it_2 ( vars . vars ( ) . zip ( ctor . fields ) ) ==> __vx_it_2 ( vx_zip ( vars . vars ( ) , ctor . fields ) )
//@ rule for ( var , field ) in $i:ident ( $x:rest ) ==> for vx_q in $i ( $x )
//@ rule & vars_inst ==> vars_inst . as_slice ( )
    requires ok(*old(self)), in_range(old(self).unifier, expected),
    ensures step(*old(self), *final(self)),
        ({ let k = k_of(*old(self)); whole(k, *expr) && clean(old(self).unifier) ==> {
            &&& clean(final(self).unifier)
            &&& (quiet(*old(self), *final(self)) ==> forall|s: Sol| #[trigger] solves(final(self).unifier, s) ==> typed(k, s, *expr, s[expected.0 as int])) } }),
//@ attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@ head
    broadcast use laws;
    let ghost c0 = *self;
    let ghost k = k_of(c0);
    let ghost e0 = *expr;
    let ghost fine = whole(k, e0) && clean(c0.unifier);
//@ after in node :: Expr :: Apply ( expr ) => self . unify ( expected , b , span )
    proof {
        if fine && quiet(c0, *self) {
            assert forall|s: Sol| #[trigger] solves(self.unifier, s) implies typed(k, s, e0, s[expected.0 as int]) by {
                assert(is(s[a.0 as int])); assert(s[expected.0 as int] == s[b.0 as int]); assert(s[f.0 as int] == arrow(s[a.0 as int], s[b.0 as int]));
            }
        }
    }
//@ after in Some ( TokenKind :: ArgPipe ) => self . unify ( expected , result , span )
    proof {
        if fine && quiet(c0, *self) {
            assert forall|s: Sol| #[trigger] solves(self.unifier, s) implies typed(k, s, e0, s[expected.0 as int]) by {
                assert(is(s[arg.0 as int])); assert(s[expected.0 as int] == s[result.0 as int]); assert(s[f.0 as int] == arrow(s[arg.0 as int], s[result.0 as int]));
            }
        }
    }
//@ after in node :: Expr :: Let ( expr ) => if let Some ( expr ) = expr . rest ( )
    proof {
        if fine && quiet(c0, *self) {
            assert forall|s: Sol| #[trigger] solves(self.unifier, s) implies typed(k, s, e0, s[expected.0 as int]) by {
                assert(is(s[bound_ty.0 as int]));
            }
        }
    }
//@ after in node :: Expr :: Lambda ( expr ) => if let Some ( e ) = expr . body ( )
    proof {
        if fine && quiet(c0, *self) {
            assert forall|s: Sol| #[trigger] solves(self.unifier, s) implies typed(k, s, e0, s[expected.0 as int]) by {
                assert(s[expected.0 as int] == arrow(s[a.0 as int], s[b.0 as int]));
                assert(typed(k, s, *expr.body->0, s[b.0 as int]));
                assert(s[arg_ty.0 as int] == s[arg.0 as int]);
                assert(used_at(k, sym_of(k, expr.param->0), s, s[arg_ty.0 as int]));
 assert(folds(*expr) ==> s[arg.0 as int] == G::Folded(Box::new(s[a.0 as int]), Box::new(s[b.0 as int]))); assert(!folds(*expr) ==> arg == a);
            }
        }
    }
//@ before for case in
    let ghost cs = expr.cases@;
//@ loop 0
    invariant
        step(c0, *self), in_range(self.unifier, primary), in_range(self.unifier, rec),
        vx_it0.seq().len() == cs.len(), forall|j: int| 0 <= j < cs.len() ==> *(#[trigger] vx_it0.seq()[j]) == cs[j],
        fine ==> clean(self.unifier),
        fine && quiet(c0, *self) ==> forall|s: Sol| #[trigger] solves(self.unifier, s) ==> typed(k, s, *expr.discr->0, s[discr.0 as int])
            && taken_apart(s[discr.0 as int], s[primary.0 as int], s[rec.0 as int])
            && forall|i: int| 0 <= i < vx_it0.index() ==> (#[trigger] cs[i]).body is Some && pattern_ok(k, cs[i], s, s[primary.0 as int], s[rec.0 as int]) && typed(k, s, *cs[i].body->0, s[expected.0 as int]),
//@ loophead 0
    let ghost i0 = vx_it0.index() as int;
    let ghost c1 = *self;
    proof { assert(*case == cs[i0]); assert(fine ==> case_whole(k, cs[i0])); }
//@ loop 1
    invariant
        step(c1, *self), quiet(c1, *self), clean(c1.unifier) ==> clean(self.unifier), in_range(self.unifier, t), vars_range(self.unifier, vars_inst@),
        vx_it1.seq().len() == ctor.type_vars@.len(), forall|j: int| 0 <= j < ctor.type_vars@.len() ==> *(#[trigger] vx_it1.seq()[j]) == ctor.type_vars@[j],
        vars_inst@.len() == vx_it1.index(), forall|j: int| 0 <= j < vx_it1.index() ==> (#[trigger] vars_inst@[j]).0 == ctor.type_vars@[j],
        forall|s: Sol| #[trigger] solves(self.unifier, s) ==> s[t.0 as int] == applied(ctor.type_symbol, vars_inst@, vx_it1.index() as int, s),
//@ loophead 1
    let ghost w0 = vars_inst@;
    let ghost i1 = vx_it1.index() as int;
    let ghost t0 = t;
    let ghost c2 = *self;
//@ looptail 1
    proof {
        assert(step(c2, *self));
        assert forall|s: Sol| #[trigger] solves(self.unifier, s) implies s[t.0 as int] == applied(ctor.type_symbol, vars_inst@, i1 + 1, s) by {
            assert(solves(c2.unifier, s));
            same_applied(ctor.type_symbol, w0, vars_inst@, i1, s);
            assert(s[t0.0 as int] == applied(ctor.type_symbol, w0, i1, s));
        }
    }
//@ after self . unify ( primary , t , span )
    let ghost c3 = *self;
    proof { assert(names_of(vars_inst@) =~= ctor.type_vars@); assert(step(c1, c3)); }
//@ before for ( var , field ) in
    let ghost vs = vars.vars@;
//@ loop 2
    invariant
        step(c3, *self), vars_range(self.unifier, vars_inst@), in_range(self.unifier, rec),
        vx_it2.seq().len() == vs.len(), vs.len() == ctor.fields@.len(),
        forall|j: int| 0 <= j < vs.len() ==> *(#[trigger] vx_it2.seq()[j]).0 == vs[j] && *vx_it2.seq()[j].1 == ctor.fields@[j],
        fine ==> clean(self.unifier),
        fine && quiet(c0, *self) ==> forall|s: Sol| #[trigger] solves(self.unifier, s) ==> forall|j: int| 0 <= j < vx_it2.index() ==> var_ok(k, #[trigger] vs[j], ctor.fields@[j], vars_inst@, s, s[rec.0 as int]),
//@ loophead 2
    let (var, field) = vx_q;
    let ghost i2 = vx_it2.index() as int;
    let ghost c4 = *self;
    proof { assert(*var == vs[i2] && *field == ctor.fields@[i2]); assert(fine ==> known(k, vs[i2])); }
//@ after self . unify ( field_ty , sym_ty , span )
    proof {
        assert(step(c4, *self));
        if fine && quiet(c0, *self) {
            assert forall|x: Sol| #[trigger] solves(self.unifier, x) implies var_ok(k, vs[i2], ctor.fields@[i2], vars_inst@, x, x[rec.0 as int]) by {
                assert(used_at(k, sym_of(k, vs[i2]), x, x[sym_ty.0 as int]));
            }
        }
    }
//@ looptail 2
    proof {
        assert(step(c4, *self));
        assert forall|x: Sol| fine && quiet(c0, *self) && #[trigger] solves(self.unifier, x) implies forall|j: int| 0 <= j < i2 + 1 ==> var_ok(k, #[trigger] vs[j], ctor.fields@[j], vars_inst@, x, x[rec.0 as int]) by {
            assert(solves(c4.unifier, x));
            assert forall|j: int| 0 <= j < i2 + 1 implies var_ok(k, #[trigger] vs[j], ctor.fields@[j], vars_inst@, x, x[rec.0 as int]) by { }
        }
    }
//@ after if field_count
    proof {
        assert(step(c3, *self));
        if fine && quiet(c0, *self) {
            assert forall|x: Sol| #[trigger] solves(self.unifier, x) implies pattern_ok(k, cs[i0], x, x[primary.0 as int], x[rec.0 as int]) by {
                assert(names_of(vars_inst@) == ctor.type_vars@);
                assert(solves(c3.unifier, x));
            }
        }
    }
//@ looptail 0
    proof {
        assert(step(c1, *self));
        assert forall|s: Sol| fine && quiet(c0, *self) && #[trigger] solves(self.unifier, s) implies
            forall|i: int| 0 <= i < i0 + 1 ==> (#[trigger] cs[i]).body is Some && pattern_ok(k, cs[i], s, s[primary.0 as int], s[rec.0 as int]) && typed(k, s, *cs[i].body->0, s[expected.0 as int]) by {
            assert(solves(c1.unifier, s));
        }
    }
//@ after for case in
    proof {
        if fine && quiet(c0, *self) {
            assert forall|s: Sol| #[trigger] solves(self.unifier, s) implies typed(k, s, e0, s[expected.0 as int]) by {
                assert(taken_apart(s[discr.0 as int], s[primary.0 as int], s[rec.0 as int]));
            }
        }
    }
//@ end
}
impl node::Expr {
    /// the node of an expression; its id and its span decide nothing here
    #[verifier::external_body]
    fn syntax(&self) -> &SyntaxNode { unimplemented!() }
}
proof fn same_applied(n: Symbol, a: Seq<(Symbol, TyIdx)>, b: Seq<(Symbol, TyIdx)>, j: int, s: Sol)
    requires j <= a.len(), j <= b.len(), forall|i: int| 0 <= i < j ==> a[i] == b[i],
    ensures applied(n, a, j, s) == applied(n, b, j, s),
    decreases j,
{ if j > 0 { same_applied(n, a, b, j - 1, s); } }
proof fn rolled_back(a: Unifier, b: Unifier)
    requires wf(a), settled(a), b.slots@ == a.slots@, settled(b),
    ensures wf(b), refines(a, b), clean(a) ==> clean(b),
{
    assert forall|i: int| cur(b, i) == cur(a, i) by {}
    fewer(a, b);
    assert forall|s: Sol| #[trigger] solves(b, s) implies solves(a, s) by { assert forall|i: int| 0 <= i < len(a) implies #[trigger] fits_at(a, s, i) by { assert(fits_at(b, s, i)); } }
    if clean(b) { assert forall|i: int| 0 <= i < len(a) implies #[trigger] cur(a, i) != TySlot::Ty(Ty::Error) by { assert(cur(b, i) != TySlot::Ty(Ty::Error)); } }
    if clean(a) { assert forall|i: int| 0 <= i < len(b) implies #[trigger] cur(b, i) != TySlot::Ty(Ty::Error) by { assert(cur(a, i) != TySlot::Ty(Ty::Error)); } }
}
fn vx_second(w: &Vec<(Symbol, TyIdx)>) -> (r: Vec<TyIdx>) ensures r@.len() == w@.len(), forall|i: int| 0 <= i < w@.len() ==> #[trigger] r@[i] == w@[i].1
{
    let mut r = Vec::new();
    let mut i = 0;
    while i < w.len() invariant i <= w@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == w@[j].1, decreases w.len() - i { r.push(w[i].1); i += 1; }
    r
}

// ---- an item
pub struct ItemSyntax { pub item: Option<node::Item> }
impl ItemSyntax {
    fn item(&self) -> (r: Option<&node::Item>) ensures r == (match self.item { Some(x) => Some(&x), None => None }) { match &self.item { Some(x) => Some(x), None => None } }
}
//@ type ticc/src/compiler/ir.rs Item
//@ type ticc/src/compiler.rs DefSet
impl<K, V> HMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(K, V)>) where K: Copy, V: Copy
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: Vec<K>) where K: Copy
        ensures forall|i: int| 0 <= i < r@.len() ==> #[trigger] self@.contains_key(r@[i]) { unimplemented!() }
}
#[verifier::external_body]
fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
impl DefSet {
//@ fn ticc/src/compiler.rs DefSet::lookup
//@ ret r
//@ rule & self . defs [ & symbol ] ==> self . defs . get ( & symbol ) . unwrap ( )
    requires self.defs@.contains_key(symbol),
    ensures *r == self.defs@[symbol],
//@ end
}
impl Def {
//@ fn ticc/src/compiler/ir.rs Def::to_ref
//@ ret r
    ensures r.symbol == self.symbol, r.node == self.node,
//@ end
}
/// what the syntax of an item refers to, what it defines
spec fn refs_of(it: Item) -> Seq<(NodeId, Symbol)> {
    Seq::new(it.refs@.len(), |i: int| (it.refs@[i].node, it.refs@[i].symbol)) + Seq::new(it.defs@.len(), |i: int| (it.defs@[i].node, it.defs@[i].symbol))
}
/// `refs` and then the definitions as references
fn vx_all_refs(refs: &Vec<Ref>, defs: &Vec<Def>) -> (r: Vec<Ref>)
    ensures r@.len() == refs@.len() + defs@.len(),
        forall|i: int| 0 <= i < refs@.len() ==> #[trigger] r@[i] == refs@[i],
        forall|i: int| 0 <= i < defs@.len() ==> #[trigger] r@[refs@.len() + i].symbol == defs@[i].symbol && r@[refs@.len() + i].node == defs@[i].node,
{
    let mut r: Vec<Ref> = Vec::new();
    let mut i = 0;
    while i < refs.len() invariant i <= refs@.len(), r@ == refs@.take(i as int), decreases refs.len() - i { r.push(refs[i]); i += 1; proof { assert(r@ =~= refs@.take(i as int)); } }
    i = 0;
    while i < defs.len()
        invariant i <= defs@.len(), r@.len() == refs@.len() + i, forall|j: int| 0 <= j < refs@.len() ==> #[trigger] r@[j] == refs@[j],
            forall|j: int| 0 <= j < i ==> #[trigger] r@[refs@.len() + j].symbol == defs@[j].symbol && r@[refs@.len() + j].node == defs@[j].node,
        decreases defs.len() - i,
    { r.push(defs[i].to_ref()); i += 1; }
    r
}
fn vx_entry<'a>(m: &mut HMap<Symbol, TyIdx>, s: Symbol, c: &mut TypeChecker<'a>) -> (r: TyIdx)
    requires ok(*old(c)), forall|x: Symbol| #[trigger] old(m)@.contains_key(x) ==> in_range(old(c).unifier, old(m)@[x]),
    ensures step(*old(c), *final(c)), quiet(*old(c), *final(c)), clean(old(c).unifier) ==> clean(final(c).unifier), in_range(final(c).unifier, r),
        final(m)@ == old(m)@.insert(s, r), old(m)@.contains_key(s) ==> r == old(m)@[s],
{
    if let Some(x) = m.get(&s).copied() { proof { assert(m@ =~= m@.insert(s, x)); } return x; }
    let x = c.fresh_var();
    m.insert(s, x);
    x
}
/// `iter().find(|d| d.span == span).unwrap()`
#[verifier::external_body]
fn vx_def_at<'a>(defs: &'a Vec<Def>, span: Span) -> (r: &'a Def) ensures exists|i: int| 0 <= i < defs@.len() && #[trigger] defs@[i] == *r && r.span == span { unimplemented!() }
fn vx_to_irs(u: &Unifier, v: &Vec<TyIdx>) -> (r: Vec<Type>)
    requires wf(*u), all_range(*u, v@),
{
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() invariant wf(*u), all_range(*u, v@), decreases v.len() - i { r.push(u.to_ir(v[i])); i += 1; }
    r
}
/// what the checker is told of a symbol is what its definition says
spec fn told(k: K, sym: Symbol, d: Def) -> bool {
    match d.kind {
        DefKind::Value { type_vars, ty } => k.tys.contains_key(sym) && match k.tys[sym] {
            NameTy::Infer(_) => ty is Infer,
            NameTy::Inst(t, vs) => !(ty is Infer) && *t == ty && vs@ == type_vars@,
        },
        DefKind::Ctor { type_symbol, type_params, fields, fn_ty } => k.tys.contains_key(sym) && k.ctors.contains_key(sym)
            && (k.tys[sym] matches NameTy::Inst(t, vs) && *t == fn_ty && vs@ == type_params@)
            && k.ctors[sym].type_symbol == type_symbol && k.ctors[sym].type_vars@ == type_params@ && k.ctors[sym].fields@ == fields@,
        _ => true,
    }
}
spec fn k_upto(k: K, rs: Seq<Ref>, n: int, defs: DefSet) -> bool {
    (forall|i: int| 0 <= i < n ==> k.syms.contains_key((#[trigger] rs[i]).node) && told(k, rs[i].symbol, defs.defs@[rs[i].symbol]))
    && (forall|x: NodeId| #[trigger] k.syms.contains_key(x) ==> exists|i: int| 0 <= i < n && (#[trigger] rs[i]).node == x && rs[i].symbol == k.syms[x])
    && (forall|s: Symbol| #[trigger] k.tys.contains_key(s) || k.ctors.contains_key(s) ==> defs.defs@.contains_key(s) && told(k, s, defs.defs@[s]) && (defs.defs@[s].kind is Value || defs.defs@[s].kind is Ctor))
}
spec fn all_refs(rs: Seq<Ref>, it: Item) -> bool {
    rs.len() == it.refs@.len() + it.defs@.len() && (forall|i: int| 0 <= i < it.refs@.len() ==> #[trigger] rs[i] == it.refs@[i])
        && (forall|i: int| 0 <= i < it.defs@.len() ==> #[trigger] rs[it.refs@.len() + i].symbol == it.defs@[i].symbol && rs[it.refs@.len() + i].node == it.defs@[i].node)
}
spec fn knows(k: K, it: Item, defs: DefSet) -> bool { exists|rs: Seq<Ref>| #[trigger] all_refs(rs, it) && k_upto(k, rs, rs.len() as int, defs) }
/// the value of an item and the type written for it
spec fn value_of(it: Item) -> Option<node::ValueItem> { match it.syntax.item { Some(node::Item::Value(v)) => Some(v), _ => None } }
spec fn annotated(it: Item, t: Type) -> bool {
    exists|i: int| 0 <= i < it.defs@.len() && #[trigger] it.defs@[i].kind is Value && it.defs@[i].span == value_of(it)->0.name->0.token.span && t == it.defs@[i].kind->ty
}
spec fn checked(k: K, it: Item, t: Type, s: Sol) -> bool {
    exists|g: G| #[trigger] is(g) && is_inst(t, Seq::empty(), s, g) && typed(k, s, *value_of(it)->0.expr->0, g)
}
/// the value has the type written for it (if nothing was reported)
spec fn decided(it: Item, defs: DefSet, silent: bool) -> bool {
    exists|k: K, t: Type, s: Sol| #[trigger] knows(k, it, defs) && #[trigger] annotated(it, t)
        && (whole(k, *value_of(it)->0.expr->0) && no_err(t) && silent ==> #[trigger] checked(k, it, t, s))
}
//@ fn ticc/src/compiler/typeck.rs type_check
//@ rule item : & mut ir :: Item ==> item : & mut Item
//@ rule Unifier :: default ( ) ==> Unifier { slots : Vec :: new ( ) , pending : HMap :: new ( ) }
//@ rule diagnostics : & mut item . diagnostics ==> diagnostics : vx_take ( & mut item . diagnostics )
//@ rule HashMap :: new ( ) ==> HMap :: new ( )
//@ rule __vx_it_0 ( item . refs . iter ( ) . copied ( ) . chain ( item . defs . iter ( ) . map ( | d | d . to_ref ( ) ) ) ) ==> __vx_it_0 ( vx_rs )
//@ rule * symbol_vars . entry ( def . symbol ) . or_insert_with ( | | checker . fresh_var ( ) ) ==> vx_entry ( & mut symbol_vars , def . symbol , & mut checker )
//@ rule NameTy :: Inst ( ty , type_vars ) ==> NameTy :: Inst ( ty , type_vars . as_slice ( ) )
//@ rule NameTy :: Inst ( fn_ty , type_params ) ==> NameTy :: Inst ( fn_ty , type_params . as_slice ( ) )
//@ rule type_vars : type_params , fields , ==> type_vars : type_params . as_slice ( ) , fields : fields . as_slice ( ) ,
//@ rule item . defs . iter ( ) . find ( | d | d . span == span ) . unwrap ( ) ==> vx_def_at ( & item . defs , span )
//@ rule & [ ] ==> vx_none ( )
//@ rule unreachable ! ( ) ==> vx_stop ( )
//@ rule Some ( & NameTy :: Infer ( inf ) ) = checker . symbol_types . get ( $x:rest ) ==> Some ( NameTy :: Infer ( inf ) ) = checker . symbol_types . get ( $x )
//@ rule checker . unifier . to_ir ( inf ) ==> checker . unifier . to_ir ( * inf )
//@ rule __vx_it_1 ( ( checker . expr_types ) . iter ( ) ) ==> __vx_it_1 ( checker . expr_types . vx_entries ( ) )
//@ rule __vx_it_2 ( ( checker . insts ) . iter ( ) ) ==> __vx_it_2 ( checker . insts . vx_keys ( ) )
//@ rule for ( vx_p0 , vx_p1 ) in $i:ident ( $x:rest ) ==> for vx_e in $i ( $x )
//@ rule for ( vx_p0 , tys ) in $i:ident ( $x:rest ) ==> for vx_k in $i ( $x )
//@ rule tys . iter ( ) . map ( | & ty | checker . unifier . to_ir ( ty ) ) . collect ( ) ==> vx_to_irs ( & checker . unifier , tys )
    requires
        forall|i: int| 0 <= i < old(item).refs@.len() ==> defs.defs@.contains_key((#[trigger] old(item).refs@[i]).symbol),
        forall|i: int| 0 <= i < old(item).defs@.len() ==> defs.defs@.contains_key((#[trigger] old(item).defs@[i]).symbol),
        forall|s: Symbol| #[trigger] defs.defs@.contains_key(s) ==> defs.defs@[s].symbol == s,
    ensures
        final(item).diagnostics@.len() >= old(item).diagnostics@.len(),
        value_of(*old(item)) is Some && value_of(*old(item))->0.name is Some && value_of(*old(item))->0.expr is Some ==> decided(*old(item), *defs, final(item).diagnostics@.len() == old(item).diagnostics@.len()),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use laws;
    let ghost it0 = *item;
//@ loop 0
    invariant
        item.refs == it0.refs && item.defs == it0.defs && item.syntax == it0.syntax,
        ok(checker), clean(checker.unifier), checker.diagnostics@.len() == it0.diagnostics@.len(),
        vx_it0.seq() == rs, k_upto(k_of(checker), rs, vx_it0.index() as int, *defs),
        forall|x: Symbol| #[trigger] symbol_vars@.contains_key(x) ==> in_range(checker.unifier, symbol_vars@[x]),
//@ loophead 1
    let (vx_p0, vx_p1) = (&vx_e.0, &vx_e.1);
//@ loophead 2
    let vx_p0 = &vx_k;
    let tys = checker.insts.get(vx_p0).unwrap();
//@ before for r in
    let vx_rs = vx_all_refs(&item.refs, &item.defs);
    let ghost rs = vx_rs@;
    proof { assert(checker.unifier.slots@.len() == 0); let rk = |i: int| 0nat; assert(ranked(checker.unifier, rk)); assert(k_upto(k_of(checker), rs, 0, *defs)); }
//@ loophead 0
    let ghost i0 = vx_it0.index() as int;
    let ghost k0 = k_of(checker);
    proof {
        assert(r == rs[i0]);
        if i0 < it0.refs@.len() { assert(rs[i0] == it0.refs@[i0]); } else { let j = i0 - it0.refs@.len(); assert(rs[it0.refs@.len() + j].symbol == it0.defs@[j].symbol); }
    }
//@ looptail 0
    proof {
        let k1 = k_of(checker);
        assert(told(k1, r.symbol, *def));
        assert forall|i: int| 0 <= i < i0 + 1 implies k1.syms.contains_key((#[trigger] rs[i]).node) && told(k1, rs[i].symbol, defs.defs@[rs[i].symbol]) by {
            if i < i0 { assert(told(k0, rs[i].symbol, defs.defs@[rs[i].symbol])); }
        }
        assert forall|x: NodeId| #[trigger] k1.syms.contains_key(x) implies exists|i: int| 0 <= i < i0 + 1 && (#[trigger] rs[i]).node == x && rs[i].symbol == k1.syms[x] by {
            if x == r.node { assert(rs[i0].node == x); } else { assert(k0.syms.contains_key(x)); }
        }
        assert forall|s: Symbol| #[trigger] k1.tys.contains_key(s) || k1.ctors.contains_key(s) implies defs.defs@.contains_key(s) && told(k1, s, defs.defs@[s]) && (defs.defs@[s].kind is Value || defs.defs@[s].kind is Ctor) by {
            if s != r.symbol { assert(told(k0, s, defs.defs@[s])); }
        }
    }
//@ before match syntax . item ( )
    let ghost mut t0 = Type::Infer;
    let ghost k = k_of(checker);
    let ghost c1 = checker;
    proof { assert(knows(k, it0, *defs)) by { assert(all_refs(rs, it0)); } }
//@ arm ir :: DefKind :: Value { type_vars : _ , ty }
    proof { t0 = *ty; }
//@ after in Some ( node :: Item :: Value ( i ) ) => let expected_ty
    let ghost c2 = checker;
//@ after in Some ( node :: Item :: Value ( i ) ) => if let Some ( e ) = i . expr ( )
    proof {
        assert(step(c1, checker));
        if value_of(it0)->0.name is Some && value_of(it0)->0.expr is Some {
            let s = solvable(checker.unifier);
            assert(annotated(it0, t0));
            if whole(k, *value_of(it0)->0.expr->0) && no_err(t0) && quiet(c1, checker) {
                assert(clean(c2.unifier));
                assert(solves(c2.unifier, s));
                assert(is(s[expected_ty.0 as int]));
                assert(checked(k, it0, t0, s));
            }
            let yes = checked(k, it0, t0, s);
            assert(whole(k, *value_of(it0)->0.expr->0) && no_err(t0) && quiet(c1, checker) ==> yes);
            assert(decided(it0, *defs, quiet(c1, checker)));
        }
    }
//@ after match syntax . item ( )
    proof { assert(step(c1, checker)); }
    item.diagnostics = vx_take(&mut checker.diagnostics);
//@ end
}
fn main() {}
