// Unit `verify`: the validator of the core language accepts exactly the
// programs that are well typed (C06).
//
// Every function that can panic takes one more, ghost, argument: whether the
// whole program is ill-typed.  A panic needs it (`vx_reject`), and a caller must
// show that what makes the callee panic makes the whole program ill-typed, so
// "returns" is "well typed" and "panics" is "ill-typed".
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule HashSet ==> HSet
//@ rule HashMap ==> HMap
//@ rule ir :: $x:ident ==> $x
//@ rule pub ( crate ) ==> pub

//@ type ticc-core/src/ir.rs Expr
//@ type ticc-core/src/ir.rs LambdaParam
//@ type ticc-core/src/ir.rs Branch
//@ type ticc-core/src/ir.rs Op | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Intrinsic | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Ty
//@ type ticc-core/src/ir.rs TyVar | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-core/src/ir.rs Name | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-core/src/ir.rs TyDef
//@ type ticc-core/src/ir.rs TyCase
//@ type ticc-core/src/ir.rs ValueDef
//@ type ticc-core/src/ir.rs Program
//@ type ticc-core/src/verify.rs Names
//@ type ticc-core/src/verify.rs Ctor
//@ type ticc-core/src/verify.rs Validator
#[verifier::external_body]
pub struct ByteString { b: Vec<u8> }
pub struct TyGenerator { next: TyVar }
#[verifier::external_body]
pub struct NameGenerator<'a> { names: Vec<&'a str> }
impl<'a> NameGenerator<'a> {
    pub uninterp spec fn limit(&self) -> u64;
    #[verifier::external_body]
    pub fn id_limit(&self) -> (r: u64) ensures r == self.limit() { unimplemented!() }
}

// ---- trusted: hash sets and maps, clones, structural equality
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct HSet<T> { t: Vec<T> }
impl<T> HSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: HSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, t: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*t), r == old(self)@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: HMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// indexing panics without the key
    #[verifier::external_body]
    pub fn vx_index(&self, k: &K, rej: Ghost<bool>) -> (r: &V)
        requires !self@.contains_key(*k) ==> rej@,
        ensures self@.contains_key(*k), *r == self@[*k],
    { unimplemented!() }
}
/// a panic: the program must be ill-typed
#[verifier::external_body]
fn vx_reject(rej: Ghost<bool>) -> ! requires rej@ { unimplemented!() }
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { unimplemented!() }
impl Clone for Ty {
    #[verifier::external_body]
    fn clone(&self) -> (r: Ty) ensures sty(r) == sty(*self) { unimplemented!() }
}
impl Clone for Ctor {
    #[verifier::external_body]
    fn clone(&self) -> (r: Ctor) ensures sctor(r) == sctor(*self) { unimplemented!() }
}
#[verifier::external_body]
fn vx_clone_tys(v: &Vec<Ty>) -> (r: Vec<Ty>) ensures stys(r, 0) == stys(*v, 0) { unimplemented!() }
#[verifier::external_body]
fn vx_clone_vars(v: &[TyVar]) -> (r: Vec<TyVar>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn vx_same(a: &Ty, b: &Ty) -> (r: bool) ensures r == (sty(*a) == sty(*b)) { unimplemented!() }
/// stands for `ps.iter().map(|p| p.ty.clone()).collect()`
fn vx_param_tys(ps: &Vec<LambdaParam>) -> (r: Vec<Ty>) ensures stys(r, 0) == param_tys(ps@) {
    let mut v: Vec<Ty> = Vec::new();
    let mut i = 0;
    while i < ps.len()
        invariant i <= ps@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> sty(#[trigger] v@[k]) == sty(ps@[k].ty),
        decreases ps@.len() - i,
    {
        v.push(Clone::clone(&ps[i].ty));
        i += 1;
    }
    proof { stys_at(v, 0); assert(stys(v, 0) =~= param_tys(ps@)); }
    v
}

//@ include infer.inc
pub closed spec fn sctor(c: Ctor) -> SCtor { SCtor { ty: c.ty_name, vars: c.ty_vars@, fields: stys(c.fields, 0) } }
pub closed spec fn check_extra(g: Ctx, u: Used, vs: Seq<(Expr, Ty)>, i: nat) -> bool decreases vs.len() - i {
    if i >= vs.len() { true } else {
        match infer(g, u, vs[i as int].0) {
            None => false,
            Some((t, u1)) => same_ty(t, sty(vs[i as int].1)) && check_extra(g, u1, vs, i + 1),
        }
    }
}
pub closed spec fn empty_ctx(limit: u64) -> Ctx { Ctx { limit, vals: Map::empty(), kinds: Map::empty(), ctors: Map::empty(), tvs: Set::empty() } }
pub closed spec fn none_used() -> Used { Used { names: Set::empty(), tys: Set::empty() } }
/// the program is well typed, and the further expressions have the given types in it
pub closed spec fn well_typed(p: Program, vs: Seq<(Expr, Ty)>) -> bool {
    match check_types(empty_ctx(p.names.limit()), none_used(), p.types@, 0) {
        None => false,
        Some((g, u)) => match check_values(g, u, p.defs@, 0) {
            None => false,
            Some((g1, u1)) => check_extra(g1, u1, vs, 0),
        },
    }
}

// ---- the validator's state as a context
pub closed spec fn vals_of(types: Map<Name, Ty>, scope: Set<Name>) -> Map<Name, STy> {
    Map::new(types.dom().intersect(scope), |n: Name| sty(types[n]))
}
impl Validator {
    pub closed spec fn ctx(&self) -> Ctx {
        Ctx {
            limit: self.names.id_limit,
            vals: vals_of(self.types@, self.names.in_scope@),
            kinds: self.kinds@,
            ctors: self.ctors@.map_values(|c: Ctor| sctor(c)),
            tvs: self.names.in_scope_ty@,
        }
    }
    pub closed spec fn used(&self) -> Used { Used { names: self.names.defined@, tys: self.names.defined_ty@ } }
    pub closed spec fn inv(&self) -> bool {
        &&& self.names.in_scope@.subset_of(self.names.defined@)
        &&& self.types@.dom().subset_of(self.names.defined@)
        &&& self.kinds@.dom().subset_of(self.names.in_scope@)
        &&& self.ctors@.dom().subset_of(self.names.in_scope@)
        &&& self.names.in_scope_ty@.subset_of(self.names.defined_ty@)
    }
    /// apart from the scope of values, everything is as in `o`
    pub closed spec fn keeps(&self, o: Validator) -> bool {
        self.names.id_limit == o.names.id_limit && self.kinds == o.kinds && self.ctors == o.ctors && self.names.in_scope_ty@ == o.names.in_scope_ty@
    }
}

impl Names {
//@ fn ticc-core/src/verify.rs Names::enter
//@ rule name : ir :: Name ==> name : ir :: Name , vx_rej : Ghost < bool >
//@ rule panic ! ( $x:rest ) ==> vx_reject ( vx_rej )
    requires name.id >= old(self).id_limit || old(self).defined@.contains(name) ==> vx_rej@,
    ensures name.id < final(self).id_limit, !old(self).defined@.contains(name),
        final(self).defined@ == old(self).defined@.insert(name), final(self).in_scope@ == old(self).in_scope@.insert(name),
        final(self).id_limit == old(self).id_limit, final(self).defined_ty == old(self).defined_ty, final(self).in_scope_ty == old(self).in_scope_ty,
//@ end
//@ fn ticc-core/src/verify.rs Names::exit
//@ rule panic ! ( $x:rest ) ==> vx_unreachable ( )
    requires old(self).in_scope@.contains(name),
    ensures final(self).in_scope@ == old(self).in_scope@.remove(name),
        final(self).id_limit == old(self).id_limit, final(self).defined == old(self).defined,
        final(self).defined_ty == old(self).defined_ty, final(self).in_scope_ty == old(self).in_scope_ty,
//@ end
//@ fn ticc-core/src/verify.rs Names::assert_valid
//@ rule name : ir :: Name ==> name : ir :: Name , vx_rej : Ghost < bool >
//@ rule panic ! ( $x:rest ) ==> vx_reject ( vx_rej )
    requires !old(self).in_scope@.contains(name) ==> vx_rej@,
    ensures old(self).in_scope@.contains(name), *final(self) == *old(self),
//@ end
//@ fn ticc-core/src/verify.rs Names::enter_ty
//@ rule ty : ir :: TyVar ==> ty : ir :: TyVar , vx_rej : Ghost < bool >
//@ rule panic ! ( $x:rest ) ==> vx_reject ( vx_rej )
    requires old(self).defined_ty@.contains(ty) ==> vx_rej@,
    ensures !old(self).defined_ty@.contains(ty),
        final(self).defined_ty@ == old(self).defined_ty@.insert(ty), final(self).in_scope_ty@ == old(self).in_scope_ty@.insert(ty),
        final(self).id_limit == old(self).id_limit, final(self).defined == old(self).defined, final(self).in_scope == old(self).in_scope,
//@ end
//@ fn ticc-core/src/verify.rs Names::exit_ty
//@ rule panic ! ( $x:rest ) ==> vx_unreachable ( )
    requires old(self).in_scope_ty@.contains(ty),
    ensures final(self).in_scope_ty@ == old(self).in_scope_ty@.remove(ty), final(self).defined_ty == old(self).defined_ty,
        final(self).id_limit == old(self).id_limit, final(self).defined == old(self).defined, final(self).in_scope == old(self).in_scope,
//@ end
//@ fn ticc-core/src/verify.rs Names::assert_valid_ty
//@ rule ty : ir :: TyVar ==> ty : ir :: TyVar , vx_rej : Ghost < bool >
//@ rule panic ! ( $x:rest ) ==> vx_reject ( vx_rej )
    requires !old(self).in_scope_ty@.contains(ty) ==> vx_rej@,
    ensures old(self).in_scope_ty@.contains(ty), *final(self) == *old(self),
//@ end
}

//@ fn ticc-core/src/verify.rs replace
//@ rule ir :: Ty :: Var ( v ) if * v == var => { $x:rest } ir :: Ty :: Var ( _ ) => { } ==> ir :: Ty :: Var ( v ) => { if * v == var { $x } }
//@ rule with . clone ( ) ==> Clone :: clone ( with )
//@ rule __vx_it_0 ( args ) ==> __vx_it_0 ( args . iter_mut ( ) )
//@ rule __vx_it_1 ( params ) ==> __vx_it_1 ( params . iter_mut ( ) )
    ensures sty(*final(ty)) == subst(sty(*old(ty)), var, sty(*with)),
    decreases *old(ty),
//@ head
    let ghost t0 = *ty;
//@ loop 0
    invariant
        t0 is Named, t0 == *old(ty),
        vx_it0.seq().len() == t0->Named_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == t0->Named_1@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> sty(*final(#[trigger] vx_it0.seq()[k])) == subst(sty(t0->Named_1@[k]), var, sty(*with)),
//@ loophead 0
    proof {
        assert(*a == t0->Named_1@[vx_it0.index() as int]);
        assert(decreases_to!(t0 => t0->Named_1));
        assert(decreases_to!(t0->Named_1 => t0->Named_1@[vx_it0.index() as int]));
        assert(decreases_to!(t0 => *a));
    }
//@ loop 1
    invariant
        t0 is Fn, t0 == *old(ty),
        vx_it1.seq().len() == t0->Fn_0@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == t0->Fn_0@[k],
        forall|k: int| 0 <= k < vx_it1.index() ==> sty(*final(#[trigger] vx_it1.seq()[k])) == subst(sty(t0->Fn_0@[k]), var, sty(*with)),
//@ loophead 1
    proof {
        assert(*p == t0->Fn_0@[vx_it1.index() as int]);
        assert(decreases_to!(t0 => t0->Fn_0));
        assert(decreases_to!(t0->Fn_0 => t0->Fn_0@[vx_it1.index() as int]));
        assert(decreases_to!(t0 => *p));
    }
//@ after for a in
    proof {
        stys_at(*args, 0); stys_at(t0->Named_1, 0);
        assert(stys(*args, 0) =~= subst_all(stys(t0->Named_1, 0), var, sty(*with)));
    }
//@ after for p in
    proof {
        stys_at(*params, 0); stys_at(t0->Fn_0, 0);
        assert(stys(*params, 0) =~= subst_all(stys(t0->Fn_0, 0), var, sty(*with)));
    }
//@ end

//@ fn ticc-core/src/verify.rs assert_fits.check
//@ ret r
//@ rule $x:ident . iter ( ) . zip ( $y:ident ) . all ( | ( a , b ) | $z:rest ) ==> { let mut vx_i = 0 ; let mut vx_ok = true ; while vx_ok && vx_i < $x . len ( ) && vx_i < $y . len ( ) invariant vx_i <= $x@.len(),  vx_i <= $y@.len(), pairs@ == old(pairs)@, decreases_to!(*actual => *$x), vx_ok ==> (forall|k: int| 0 <= k < vx_i ==> alpha(#[trigger] sty($x@[k]), sty($y@[k]), pairs@)), !vx_ok ==> (vx_i > 0 && !alpha(sty($x@[vx_i - 1]), sty($y@[vx_i - 1]), pairs@)) decreases $x@.len() - vx_i { let a = & $x [ vx_i ] ; let b = & $y [ vx_i ] ; proof { assert(decreases_to!(*$x => $x@[vx_i as int])); } vx_ok = $z ; vx_i += 1 ; } proof { stys_at(*$x, 0); stys_at(*$y, 0); if vx_ok && $x@.len() == $y@.len() { assert forall|k: int| 0 <= k < $x@.len() implies alpha(#[trigger] stys(*$x, 0)[k], stys(*$y, 0)[k], pairs@) by { assert(stys(*$x, 0)[k] == sty($x@[k])); } } if !vx_ok { assert(stys(*$x, 0)[vx_i - 1] == sty($x@[vx_i - 1])); } } vx_ok }
    ensures r == alpha(sty(*actual), sty(*expected), old(pairs)@), final(pairs)@ == old(pairs)@,
    decreases *actual,
//@ head
    proof { lens(*actual); lens(*expected); }
//@ loop 0
    invariant
        *actual == Ty::Var(*a), *expected == Ty::Var(*b), pairs@ == old(pairs)@,
        vx_it0.seq().len() == pairs@.len(),
        forall|k: int| 0 <= k < pairs@.len() ==> *(#[trigger] vx_it0.seq()[k]) == pairs@[pairs@.len() - 1 - k],
        bound_alike(*a, *b, pairs@) == bound_alike(*a, *b, pairs@.take(pairs@.len() - vx_it0.index())),
//@ before for vx_p in
    proof { assert(pairs@.take(pairs@.len() as int) =~= pairs@); }
//@ loophead 0
    proof {
        let ghost l = pairs@.len() - vx_it0.index();
        assert(pairs@.take(l).last() == pairs@[l - 1]);
        assert(pairs@.take(l).drop_last() =~= pairs@.take(l - 1));
    }
//@ after pairs.pop()
    proof { assert(pairs@ =~= old(pairs)@); }
//@ end
//@ fn ticc-core/src/verify.rs assert_fits
//@ rule ( actual : & ir :: Ty , expected : & ir :: Ty ) ==> ( actual : & ir :: Ty , expected : & ir :: Ty , vx_rej : Ghost < bool > )
//@ rule panic ! ( $x:rest ) ==> vx_reject ( vx_rej )
    requires !same_ty(sty(*actual), sty(*expected)) ==> vx_rej@,
    ensures same_ty(sty(*actual), sty(*expected)),
//@ end

impl Validator {
    /// only the type variables bound so far have changed
    pub closed spec fn only_tys(&self, o: Validator) -> bool {
        &&& self.keeps(o) && self.types == o.types && self.names.in_scope == o.names.in_scope && self.names.defined == o.names.defined
        &&& o.names.defined_ty@.subset_of(self.names.defined_ty@)
    }

//@ fn ticc-core/src/verify.rs Validator::check_ty
//@ rule ty : & ir :: Ty ==> ty : & ir :: Ty , vx_rej : Ghost < bool >
//@ rule . assert_valid_ty ( $x:rest ) ==> . assert_valid_ty ( $x , vx_rej )
//@ rule . assert_valid ( $x:rest ) ==> . assert_valid ( $x , vx_rej )
//@ rule . check_ty ( $x:rest ) ==> . check_ty ( $x , vx_rej )
//@ rule . enter_ty ( $x:rest ) ==> . enter_ty ( $x , vx_rej )
//@ rule self . kinds [ n ] ==> * self . kinds . vx_index ( n , vx_rej )
//@ rule assert_eq ! ( $a , $b ) ==> if $a != $b { vx_reject ( vx_rej ) }
    requires old(self).inv(), wf(old(self).ctx(), old(self).used().tys, sty(*ty)) is None ==> vx_rej@,
    ensures final(self).inv(), final(self).only_tys(*old(self)), final(self).ctx() == old(self).ctx(),
        wf(old(self).ctx(), old(self).used().tys, sty(*ty)) == Some(final(self).used().tys),
    decreases *ty,
//@ head
    proof { lens(*ty); }
//@ loop 0
    invariant
        *ty == Ty::Named(*n, *args), vx_it0.seq().len() == args@.len(),
        forall|k: int| 0 <= k < args@.len() ==> *(#[trigger] vx_it0.seq()[k]) == args@[k],
        wf(old(self).ctx(), old(self).used().tys, sty(*ty)) is None ==> vx_rej@,
        self.inv(), self.only_tys(*old(self)), self.ctx() == old(self).ctx(), stys(*args, 0).len() == args@.len(),
        wf(old(self).ctx(), old(self).used().tys, sty(*ty)) == wfs(self.ctx(), self.used().tys, stys(*args, 0), vx_it0.index() as nat),
//@ loophead 0
    proof { stys_at(*args, 0); assert(decreases_to!(*args => args@[vx_it0.index() as int])); }
//@ loop 1
    invariant
        *ty == Ty::Fn(*params, *out), vx_it1.seq().len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> *(#[trigger] vx_it1.seq()[k]) == params@[k],
        wf(old(self).ctx(), old(self).used().tys, sty(*ty)) is None ==> vx_rej@,
        self.inv(), self.only_tys(*old(self)), self.ctx() == old(self).ctx(), stys(*params, 0).len() == params@.len(),
        wf(old(self).ctx(), old(self).used().tys, sty(*ty)) == (match wfs(self.ctx(), self.used().tys, stys(*params, 0), vx_it1.index() as nat) {
            None => None, Some(u1) => wf(self.ctx(), u1, sty(**out)) }),
//@ loophead 1
    proof { stys_at(*params, 0); assert(decreases_to!(*params => params@[vx_it1.index() as int])); }
//@ before self.names.exit_ty
    let ghost tvs = self.names.in_scope_ty@;
//@ after self.names.exit_ty
    proof { assert(tvs.remove(*v) =~= old(self).names.in_scope_ty@); }
//@ end
}

// ---- scopes
/// the two give the names of `s` the same types
pub closed spec fn agree(a: Map<Name, STy>, b: Map<Name, STy>, s: Set<Name>) -> bool {
    forall|n: Name| #[trigger] s.contains(n) ==> (a.contains_key(n) <==> b.contains_key(n)) && (b.contains_key(n) ==> a[n] == b[n])
}
pub closed spec fn among(ns: Seq<Name>, lo: int, hi: int, n: Name) -> bool { exists|j: int| lo <= j < hi && #[trigger] ns[j] == n }
impl Validator {
    /// the names lo..hi are visible on top of what is visible in `o`
    pub closed spec fn opened(&self, o: Validator, ns: Seq<Name>, lo: int, hi: int) -> bool {
        &&& self.inv() && o.inv() && self.keeps(o) && 0 <= lo <= hi <= ns.len()
        &&& o.used().names.subset_of(self.used().names)
        &&& forall|n: Name| #[trigger] self.names.in_scope@.contains(n) <==> o.names.in_scope@.contains(n) || among(ns, lo, hi, n)
        &&& forall|j: int| lo <= j < hi ==> !o.used().names.contains(#[trigger] ns[j])
        &&& forall|j: int, k: int| lo <= j < k < hi ==> #[trigger] ns[j] != #[trigger] ns[k]
        &&& agree(self.ctx().vals, o.ctx().vals, o.names.in_scope@)
    }
    /// nothing but what is bound so far has changed, as far as the visible names go
    pub closed spec fn scoped(&self, o: Validator) -> bool {
        &&& self.inv() && self.keeps(o) && self.ctx() == o.ctx()
        &&& self.names.in_scope@ == o.names.in_scope@
        &&& o.used().names.subset_of(self.used().names)
    }
    proof fn only_tys_scoped(self, o: Validator)
        requires self.only_tys(o), self.inv(), self.ctx() == o.ctx(),
        ensures self.scoped(o),
    {}
    proof fn open_start(self, ns: Seq<Name>)
        requires self.inv(),
        ensures self.opened(self, ns, 0, 0),
    {}
    /// a fresh name without a type changes no type
    proof fn entered(self, v: Validator, n: Name)
        requires v.inv(), !v.used().names.contains(n), self.keeps(v), self.types == v.types,
            self.names.in_scope@ == v.names.in_scope@.insert(n), self.names.defined@ == v.names.defined@.insert(n), self.names.defined_ty == v.names.defined_ty,
        ensures self.inv(), self.ctx() == v.ctx(),
    {
        assert(self.ctx().vals =~= v.ctx().vals);
    }
    proof fn open_step(self, v: Validator, o: Validator, ns: Seq<Name>, hi: int, t: Ty)
        requires v.opened(o, ns, 0, hi), hi < ns.len(), !v.used().names.contains(ns[hi]), self.keeps(v),
            self.types@ == v.types@.insert(ns[hi], t), self.names.in_scope@ == v.names.in_scope@.insert(ns[hi]),
            self.names.defined@ == v.names.defined@.insert(ns[hi]), v.names.defined_ty@.subset_of(self.names.defined_ty@),
        ensures self.opened(o, ns, 0, hi + 1), self.ctx() == with_val(v.ctx(), ns[hi], sty(t)),
    {
        assert(self.ctx().vals =~= v.ctx().vals.insert(ns[hi], sty(t)));
        assert(self.ctx() == with_val(v.ctx(), ns[hi], sty(t)));
        assert forall|n: Name| #[trigger] self.names.in_scope@.contains(n) <==> o.names.in_scope@.contains(n) || among(ns, 0, hi + 1, n) by {
            if n == ns[hi] { assert(among(ns, 0, hi + 1, n)); }
            if among(ns, 0, hi, n) { let j = choose|j: int| 0 <= j < hi && #[trigger] ns[j] == n; assert(among(ns, 0, hi + 1, n)); }
            if among(ns, 0, hi + 1, n) && n != ns[hi] { let j = choose|j: int| 0 <= j < hi + 1 && #[trigger] ns[j] == n; assert(among(ns, 0, hi, n)); }
            assert(v.names.in_scope@.contains(n) <==> o.names.in_scope@.contains(n) || among(ns, 0, hi, n));
        }
        assert forall|j: int, k: int| 0 <= j < k < hi + 1 implies #[trigger] ns[j] != #[trigger] ns[k] by {
            if k == hi { assert(among(ns, 0, hi, ns[j])); assert(v.names.in_scope@.contains(ns[j])); }
        }
    }
    proof fn open_body(self, v: Validator, o: Validator, ns: Seq<Name>, hi: int)
        requires v.opened(o, ns, 0, hi), self.scoped(v),
        ensures self.opened(o, ns, 0, hi),
    {}
    proof fn close_can(self, o: Validator, ns: Seq<Name>, lo: int, hi: int)
        requires self.opened(o, ns, lo, hi), lo < hi,
        ensures self.names.in_scope@.contains(ns[lo]),
    {
        assert(among(ns, lo, hi, ns[lo]));
    }
    proof fn close_step(self, v: Validator, o: Validator, ns: Seq<Name>, lo: int, hi: int)
        requires v.opened(o, ns, lo, hi), lo < hi, self.keeps(v), self.types == v.types, self.names.in_scope@ == v.names.in_scope@.remove(ns[lo]),
            self.names.defined == v.names.defined, self.names.defined_ty == v.names.defined_ty,
        ensures self.opened(o, ns, lo + 1, hi),
    {
        assert forall|n: Name| #[trigger] self.names.in_scope@.contains(n) <==> o.names.in_scope@.contains(n) || among(ns, lo + 1, hi, n) by {
            assert(v.names.in_scope@.contains(n) <==> o.names.in_scope@.contains(n) || among(ns, lo, hi, n));
            if among(ns, lo + 1, hi, n) { let j = choose|j: int| lo + 1 <= j < hi && #[trigger] ns[j] == n; assert(among(ns, lo, hi, n)); }
            if among(ns, lo, hi, n) && n != ns[lo] { let j = choose|j: int| lo <= j < hi && #[trigger] ns[j] == n; assert(among(ns, lo + 1, hi, n)); }
        }
        assert forall|n: Name| #[trigger] o.names.in_scope@.contains(n) implies (self.ctx().vals.contains_key(n) <==> o.ctx().vals.contains_key(n)) && (o.ctx().vals.contains_key(n) ==> self.ctx().vals[n] == o.ctx().vals[n]) by {
            assert(v.names.in_scope@.contains(n));
            assert(self.names.in_scope@.contains(n));
        }
        assert(self.kinds@.dom().subset_of(self.names.in_scope@)) by {
            assert forall|n: Name| #[trigger] self.kinds@.dom().contains(n) implies self.names.in_scope@.contains(n) by { assert(o.names.in_scope@.contains(n)); }
        }
        assert(self.ctors@.dom().subset_of(self.names.in_scope@)) by {
            assert forall|n: Name| #[trigger] self.ctors@.dom().contains(n) implies self.names.in_scope@.contains(n) by { assert(o.names.in_scope@.contains(n)); }
        }
    }
    proof fn close_end(self, o: Validator, ns: Seq<Name>, hi: int)
        requires self.opened(o, ns, hi, hi),
        ensures self.scoped(o),
    {
        assert forall|n: Name| self.names.in_scope@.contains(n) <==> o.names.in_scope@.contains(n) by {
            assert(!among(ns, hi, hi, n));
        }
        assert(self.names.in_scope@ =~= o.names.in_scope@);
        assert(self.ctx().vals =~= o.ctx().vals);
    }
}

pub closed spec fn osty(t: Option<Ty>) -> Option<STy> { match t { None => None, Some(t) => Some(sty(t)) } }
pub closed spec fn atys(ps: Seq<Ty>) -> Seq<STy> { ps.map_values(|t: Ty| sty(t)) }
impl Validator {
//@ fn ticc-core/src/verify.rs Validator::assert_params_fit
//@ rule params : [ ir :: Ty ; N ] , actual : & [ ir :: Expr ] ==> params : [ ir :: Ty ; N ] , actual : & Vec < ir :: Expr > , vx_rej : Ghost < bool >
//@ rule panic ! ( $x:rest ) ==> vx_reject ( vx_rej )
//@ rule . check_expr ( $x:rest ) ==> . check_expr ( $x , vx_rej )
//@ rule assert_fits ( $x:rest ) ==> assert_fits ( $x , vx_rej )
//@ rule . zip ( actual ) ==> . zip ( actual . iter ( ) )
//@ rule params . iter ( ) ==> params . as_slice ( ) . iter ( )
//@ rule params . len ( ) ==> N
    requires old(self).inv(),
        N != actual@.len() || infer_args(old(self).ctx(), old(self).used(), *actual, atys(params@), 0) is None ==> vx_rej@,
    ensures final(self).scoped(*old(self)), N == actual@.len(),
        infer_args(old(self).ctx(), old(self).used(), *actual, atys(params@), 0) == Some(final(self).used()),
    decreases *actual,
//@ loop 0
    invariant
        N == actual@.len(), vx_it0.seq().len() == N,
        forall|k: int| 0 <= k < N ==> *(#[trigger] vx_it0.seq()[k]).0 == params@[k] && *vx_it0.seq()[k].1 == actual@[k],
        infer_args(old(self).ctx(), old(self).used(), *actual, atys(params@), 0) is None ==> vx_rej@,
        self.scoped(*old(self)),
        infer_args(old(self).ctx(), old(self).used(), *actual, atys(params@), 0) == infer_args(self.ctx(), self.used(), *actual, atys(params@), vx_it0.index() as nat),
//@ loophead 0
    proof { assert(decreases_to!(*actual => actual@[vx_it0.index() as int])); }
//@ end

//@ fn ticc-core/src/verify.rs Validator::check_expr
//@ ret r
//@ rule expr : & ir :: Expr ==> expr : & ir :: Expr , vx_rej : Ghost < bool >
//@ rule ty . expect ( $x:rest ) ==> ( match ty { Some ( t ) => t , None => vx_reject ( vx_rej ) } )
//@ rule panic ! ( $x:rest ) ==> vx_reject ( vx_rej )
//@ rule assert_eq ! ( $a , $b ) ==> if $a != $b { vx_reject ( vx_rej ) }
//@ rule . assert_valid ( $x:rest ) ==> . assert_valid ( $x , vx_rej )
//@ rule . check_ty ( $x:rest ) ==> . check_ty ( $x , vx_rej )
//@ rule . check_expr ( $x:rest ) ==> . check_expr ( $x , vx_rej )
//@ rule self . assert_params_fit ( [ $x:rest ] , xs ) ==> { let vx_ps = [ $x ] ; proof { assert(atys(vx_ps@) =~= intrinsic_params(*i)); } self . assert_params_fit ( vx_ps , xs , vx_rej ) }
//@ rule . enter_ty ( $x:rest ) ==> . enter_ty ( $x , vx_rej )
//@ rule . enter ( $x:rest ) ==> . enter ( $x , vx_rej )
//@ rule assert_fits ( $x:rest ) ==> assert_fits ( $x , vx_rej )
//@ rule self . types [ n ] ==> self . types . vx_index ( n , vx_rej )
//@ rule self . ctors [ & br . ctor ] ==> self . ctors . vx_index ( & br . ctor , vx_rej )
//@ rule self . ctors [ ctor ] ==> self . ctors . vx_index ( ctor , vx_rej )
//@ rule t != e ==> ! vx_same ( & t , & e )
//@ rule * t != value ==> ! vx_same ( t , & value )
//@ rule params . iter ( ) . map ( | p | p . ty . clone ( ) ) . collect ( ) ==> vx_param_tys ( params )
//@ rule tys . clone ( ) ==> vx_clone_tys ( tys )
//@ rule . zip ( xs ) ==> . zip ( xs . iter ( ) )
//@ rule . zip ( tys ) ==> . zip ( tys . iter ( ) )
//@ rule . zip ( & $x ) ==> . zip ( $x . iter ( ) )
//@ rule replace ( & mut t , var , ty ) ==> replace ( & mut * t , var , ty )
    requires old(self).inv(), infer(old(self).ctx(), old(self).used(), *expr) is None ==> vx_rej@,
    ensures final(self).scoped(*old(self)), infer(old(self).ctx(), old(self).used(), *expr) == Some((sty(r), final(self).used())),
    decreases *expr,
//@ loop 0
    invariant
        expr is Call, expr->Call_1 == *xs, params@.len() == xs@.len(), vx_it0.seq().len() == xs@.len(), stys(params, 0).len() == params@.len(),
        forall|k: int| 0 <= k < xs@.len() ==> *(#[trigger] vx_it0.seq()[k]).0 == params@[k] && *vx_it0.seq()[k].1 == xs@[k],
        infer(old(self).ctx(), old(self).used(), *expr) is None ==> vx_rej@,
        self.scoped(*old(self)),
        infer(old(self).ctx(), old(self).used(), *expr) == (match infer_args(self.ctx(), self.used(), *xs, stys(params, 0), vx_it0.index() as nat) {
            None => None, Some(u2) => Some((sty(*out), u2)) }),
//@ loophead 0
    proof { stys_at(params, 0); assert(decreases_to!(*xs => xs@[vx_it0.index() as int])); assert(decreases_to!(*expr => *xs)); }
//@ before if params.len() != xs.len()
    proof { stys_at(params, 0); }
//@ arm ir::Expr::Lambda(params, body)
    let ghost ns = param_names(params@);
    proof { self.open_start(ns); }
//@ loop 1
    invariant
        *expr == Expr::Lambda(*params, *body), ns == param_names(params@), vx_it1.seq().len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> *(#[trigger] vx_it1.seq()[k]) == params@[k],
        infer(old(self).ctx(), old(self).used(), *expr) is None ==> vx_rej@,
        self.opened(*old(self), ns, 0, vx_it1.index() as int),
        bind_params(old(self).ctx(), old(self).used(), params@, 0) == bind_params(self.ctx(), self.used(), params@, vx_it1.index() as nat),
//@ loophead 1
    let ghost v1 = *self;
    proof { assert(ns[vx_it1.index() as int] == param.name); }
//@ after self.names.enter(param.name)
    proof { self.entered(v1, param.name); }
//@ looptail 1
    proof { self.open_step(v1, *old(self), ns, vx_it1.index() as int, self.types@[param.name]); }
//@ before let body = self.check_expr
    let ghost v1 = *self;
//@ after let body = self.check_expr
    proof { self.open_body(v1, *old(self), ns, ns.len() as int); }
    let ghost v2 = *self;
//@ loop 2
    invariant
        ns == param_names(params@), vx_it2.seq().len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> *(#[trigger] vx_it2.seq()[k]) == params@[k],
        self.opened(*old(self), ns, vx_it2.index() as int, ns.len() as int), self.used() == v2.used(),
//@ loophead 2
    let ghost v1 = *self;
    proof { assert(ns[vx_it2.index() as int] == param.name); self.close_can(*old(self), ns, vx_it2.index() as int, ns.len() as int); }
//@ looptail 2
    proof { self.close_step(v1, *old(self), ns, vx_it2.index() as int, ns.len() as int); }
//@ before in ir::Expr::Lambda(params, body) => ir::Ty::Fn
    proof { self.close_end(*old(self), ns, ns.len() as int); }
//@ before let mut ty = None
    proof { stys_at(args, 0); }
//@ loop 3
    invariant
        expr is Match, expr->Match_1 == *branches, vx_it3.seq().len() == branches@.len(),
        forall|k: int| 0 <= k < branches@.len() ==> *(#[trigger] vx_it3.seq()[k]) == branches@[k],
        infer(old(self).ctx(), old(self).used(), *expr) is None ==> vx_rej@,
        self.scoped(*old(self)), stys(args, 0).len() == args@.len(),
        infer(old(self).ctx(), old(self).used(), *expr) == (match infer_branches(self.ctx(), self.used(), *branches, vx_it3.index() as nat, match_ty, stys(args, 0), osty(ty)) {
            Some((Some(t), u2)) => Some((t, u2)), _ => None }),
//@ loophead 3
    let ghost v3 = *self;
    proof {
        self.open_start(br.bindings@);
        assert(decreases_to!(*expr => *branches));
        assert(decreases_to!(*branches => branches@[vx_it3.index() as int]));
    }
//@ after let ctor = self.ctors[&br.ctor].clone()
    let ghost k0 = sctor(ctor);
    proof { stys_at(ctor.fields, 0); stys_at(args, 0); }
//@ loop 4
    invariant
        vx_it4.seq().len() == br.bindings@.len(), k0.fields.len() == br.bindings@.len(), ctor.ty_vars@ == k0.vars, k0.vars.len() == args@.len(),
        stys(args, 0).len() == args@.len(),
        forall|k: int| 0 <= k < br.bindings@.len() ==> sty((#[trigger] vx_it4.seq()[k]).0) == k0.fields[k] && *vx_it4.seq()[k].1 == br.bindings@[k],
        bind_fields(v3.ctx(), v3.used(), br.bindings@, k0, stys(args, 0), 0) is None ==> vx_rej@,
        self.opened(v3, br.bindings@, 0, vx_it4.index() as int),
        bind_fields(v3.ctx(), v3.used(), br.bindings@, k0, stys(args, 0), 0) == bind_fields(self.ctx(), self.used(), br.bindings@, k0, stys(args, 0), vx_it4.index() as nat),
//@ loophead 4
    let ghost v4 = *self;
    let ghost ft = sty(vx_p0);
    proof { stys_at(args, 0); }
//@ loop 5
    invariant
        vx_it5.seq().len() == args@.len(), ctor.ty_vars@ == k0.vars, k0.vars.len() == args@.len(), stys(args, 0).len() == args@.len(),
        forall|k: int| 0 <= k < args@.len() ==> *(#[trigger] vx_it5.seq()[k]).0 == k0.vars[k] && *vx_it5.seq()[k].1 == args@[k],
        forall|k: int| 0 <= k < args@.len() ==> (#[trigger] stys(args, 0)[k]) == sty(args@[k]),
        substs(ft, k0.vars, stys(args, 0), 0) == substs(sty(field_ty), k0.vars, stys(args, 0), vx_it5.index() as nat),
//@ looptail 4
    proof { self.open_step(v4, v3, br.bindings@, vx_it4.index() as int, self.types@[bind]); }
//@ before let value = self.check_expr
    let ghost v5 = *self;
//@ after let value = self.check_expr
    proof { self.open_body(v5, v3, br.bindings@, br.bindings@.len() as int); }
    let ghost v6 = *self;
//@ loop 6
    invariant
        vx_it6.seq().len() == br.bindings@.len(),
        forall|k: int| 0 <= k < br.bindings@.len() ==> *(#[trigger] vx_it6.seq()[k]) == br.bindings@[k],
        self.opened(v3, br.bindings@, vx_it6.index() as int, br.bindings@.len() as int), self.used() == v6.used(),
//@ loophead 6
    let ghost v7 = *self;
    proof { self.close_can(v3, br.bindings@, vx_it6.index() as int, br.bindings@.len() as int); }
//@ looptail 6
    proof { self.close_step(v7, v3, br.bindings@, vx_it6.index() as int, br.bindings@.len() as int); }
//@ looptail 3
    proof { self.close_end(v3, br.bindings@, br.bindings@.len() as int); }
//@ after let ctor = self.ctors[ctor].clone()
    let ghost k0 = sctor(ctor);
    proof { stys_at(ctor.fields, 0); stys_at(*tys, 0); }
//@ loop 7
    invariant
        expr is Construct, expr->Construct_1 == *tys, vx_it7.seq().len() == tys@.len(), stys(*tys, 0).len() == tys@.len(),
        forall|k: int| 0 <= k < tys@.len() ==> *(#[trigger] vx_it7.seq()[k]) == tys@[k],
        wfs(old(self).ctx(), old(self).used().tys, stys(*tys, 0), 0) is None ==> vx_rej@,
        self.inv(), self.only_tys(*old(self)), self.ctx() == old(self).ctx(),
        wfs(old(self).ctx(), old(self).used().tys, stys(*tys, 0), 0) == wfs(self.ctx(), self.used().tys, stys(*tys, 0), vx_it7.index() as nat),
//@ loophead 7
    proof { stys_at(*tys, 0); }
//@ before for (field, ty) in
    let ghost v8 = *self;
//@ loop 8
    invariant
        expr is Construct, expr->Construct_2 == *fields, vx_it8.seq().len() == fields@.len(), sctor(ctor) == k0, k0.fields.len() == fields@.len(),
        k0.vars.len() == tys@.len(), stys(*tys, 0).len() == tys@.len(),
        forall|k: int| 0 <= k < fields@.len() ==> *(#[trigger] vx_it8.seq()[k]).0 == fields@[k] && sty(*vx_it8.seq()[k].1) == k0.fields[k],
        self.scoped(*old(self)), infer_fields(v8.ctx(), v8.used(), *fields, k0, stys(*tys, 0), 0) is None ==> vx_rej@,
        infer_fields(v8.ctx(), v8.used(), *fields, k0, stys(*tys, 0), 0) == infer_fields(self.ctx(), self.used(), *fields, k0, stys(*tys, 0), vx_it8.index() as nat),
//@ loophead 8
    let ghost ft = sty(*ty);
    proof { stys_at(*tys, 0); assert(decreases_to!(*expr => *fields)); assert(decreases_to!(*fields => fields@[vx_it8.index() as int])); }
//@ loop 9
    invariant
        vx_it9.seq().len() == tys@.len(), ctor.ty_vars@ == k0.vars, k0.vars.len() == tys@.len(), stys(*tys, 0).len() == tys@.len(),
        forall|k: int| 0 <= k < tys@.len() ==> *(#[trigger] vx_it9.seq()[k]).0 == k0.vars[k] && *vx_it9.seq()[k].1 == tys@[k],
        forall|k: int| 0 <= k < tys@.len() ==> (#[trigger] stys(*tys, 0)[k]) == sty(tys@[k]),
        substs(ft, k0.vars, stys(*tys, 0), 0) == substs(sty(ty), k0.vars, stys(*tys, 0), vx_it9.index() as nat),
//@ before in ir::Expr::Let(n, a, b) => self.types.insert
    let ghost v1 = *self;
//@ before in ir::Expr::Let(n, a, b) => let b = self.check_expr
    proof { v1.open_start(seq![*n]); self.open_step(v1, v1, seq![*n], 0, self.types@[*n]); }
    let ghost v2 = *self;
//@ after in ir::Expr::Let(n, a, b) => let b = self.check_expr
    proof { self.open_body(v2, v1, seq![*n], 1); self.close_can(v1, seq![*n], 0, 1); }
    let ghost v3 = *self;
//@ after in ir::Expr::Let(n, a, b) => self.names.exit
    proof { self.close_step(v3, v1, seq![*n], 0, 1); self.close_end(v1, seq![*n], 1); }
//@ before in ir::Expr::LetRec(n, ty, a, b) => self.names.enter
    let ghost v1 = *self;
//@ before in ir::Expr::LetRec(n, ty, a, b) => let a = self.check_expr
    proof { v1.open_start(seq![*n]); self.open_step(v1, v1, seq![*n], 0, self.types@[*n]); }
    let ghost v2 = *self;
//@ after in ir::Expr::LetRec(n, ty, a, b) => let b = self.check_expr
    proof { self.open_body(v2, v1, seq![*n], 1); self.close_can(v1, seq![*n], 0, 1); }
    let ghost v3 = *self;
//@ after in ir::Expr::LetRec(n, ty, a, b) => self.names.exit
    proof { self.close_step(v3, v1, seq![*n], 0, 1); self.close_end(v1, seq![*n], 1); }
//@ before self.names.exit_ty
    let ghost tvs = self.names.in_scope_ty@;
//@ after self.names.exit_ty
    proof { assert(tvs.remove(*ty) =~= old(self).names.in_scope_ty@); }
//@ end
}

pub closed spec fn among_tvs(vs: Seq<TyVar>, lo: int, hi: int, v: TyVar) -> bool { exists|j: int| lo <= j < hi && #[trigger] vs[j] == v }
/// the variables lo..hi are visible on top of t0
pub closed spec fn opened_tvs(t: Set<TyVar>, t0: Set<TyVar>, vs: Seq<TyVar>, lo: int, hi: int) -> bool {
    &&& 0 <= lo <= hi <= vs.len()
    &&& forall|v: TyVar| #[trigger] t.contains(v) <==> t0.contains(v) || among_tvs(vs, lo, hi, v)
    &&& forall|j: int| lo <= j < hi ==> !t0.contains(#[trigger] vs[j])
    &&& forall|j: int, k: int| lo <= j < k < hi ==> #[trigger] vs[j] != #[trigger] vs[k]
}
proof fn open_tv(t: Set<TyVar>, t0: Set<TyVar>, vs: Seq<TyVar>, hi: int)
    requires opened_tvs(t, t0, vs, 0, hi), hi < vs.len(), !t.contains(vs[hi]),
    ensures opened_tvs(t.insert(vs[hi]), t0, vs, 0, hi + 1),
{
    assert forall|v: TyVar| #[trigger] t.insert(vs[hi]).contains(v) <==> t0.contains(v) || among_tvs(vs, 0, hi + 1, v) by {
        assert(t.contains(v) <==> t0.contains(v) || among_tvs(vs, 0, hi, v));
        if v == vs[hi] { assert(among_tvs(vs, 0, hi + 1, v)); }
        if among_tvs(vs, 0, hi, v) { let j = choose|j: int| 0 <= j < hi && #[trigger] vs[j] == v; assert(among_tvs(vs, 0, hi + 1, v)); }
        if among_tvs(vs, 0, hi + 1, v) && v != vs[hi] { let j = choose|j: int| 0 <= j < hi + 1 && #[trigger] vs[j] == v; assert(among_tvs(vs, 0, hi, v)); }
    }
    assert forall|j: int, k: int| 0 <= j < k < hi + 1 implies #[trigger] vs[j] != #[trigger] vs[k] by {
        if k == hi { assert(among_tvs(vs, 0, hi, vs[j])); assert(t.contains(vs[j])); }
    }
}
proof fn close_tv(t: Set<TyVar>, t0: Set<TyVar>, vs: Seq<TyVar>, lo: int, hi: int)
    requires opened_tvs(t, t0, vs, lo, hi), lo < hi,
    ensures t.contains(vs[lo]), opened_tvs(t.remove(vs[lo]), t0, vs, lo + 1, hi),
{
    assert(among_tvs(vs, lo, hi, vs[lo]));
    assert forall|v: TyVar| #[trigger] t.remove(vs[lo]).contains(v) <==> t0.contains(v) || among_tvs(vs, lo + 1, hi, v) by {
        assert(t.contains(v) <==> t0.contains(v) || among_tvs(vs, lo, hi, v));
        if among_tvs(vs, lo + 1, hi, v) { let j = choose|j: int| lo + 1 <= j < hi && #[trigger] vs[j] == v; assert(among_tvs(vs, lo, hi, v)); }
        if among_tvs(vs, lo, hi, v) && v != vs[lo] { let j = choose|j: int| lo <= j < hi && #[trigger] vs[j] == v; assert(among_tvs(vs, lo + 1, hi, v)); }
    }
}
proof fn closed_tvs(t: Set<TyVar>, t0: Set<TyVar>, vs: Seq<TyVar>, hi: int)
    requires opened_tvs(t, t0, vs, hi, hi),
    ensures t == t0,
{
    assert forall|v: TyVar| t.contains(v) <==> t0.contains(v) by { assert(!among_tvs(vs, hi, hi, v)); }
    assert(t =~= t0);
}

impl Validator {
//@ fn ticc-core/src/verify.rs Validator::check_ty_case
//@ rule vars : & [ ir :: TyVar ] ==> vars : & [ ir :: TyVar ] , vx_rej : Ghost < bool >
//@ rule . check_ty ( $x:rest ) ==> . check_ty ( $x , vx_rej )
//@ rule . enter ( $x:rest ) ==> . enter ( $x , vx_rej )
//@ rule vars . to_owned ( ) ==> vx_clone_vars ( vars )
//@ rule case . fields . clone ( ) ==> vx_clone_tys ( & case . fields )
    requires old(self).inv(), check_case(old(self).ctx(), old(self).used(), *case, ty, vars@) is None ==> vx_rej@,
    ensures final(self).inv(), final(self).names.in_scope_ty@ == old(self).names.in_scope_ty@,
        check_case(old(self).ctx(), old(self).used(), *case, ty, vars@) == Some((final(self).ctx(), final(self).used())),
//@ after self.names.enter
    proof { self.entered(*old(self), case.name); stys_at(case.fields, 0); }
    let ghost v1 = *self;
//@ loop 0
    invariant
        vx_it0.seq().len() == case.fields@.len(), stys(case.fields, 0).len() == case.fields@.len(),
        forall|k: int| 0 <= k < case.fields@.len() ==> *(#[trigger] vx_it0.seq()[k]) == case.fields@[k],
        wfs(v1.ctx(), v1.used().tys, stys(case.fields, 0), 0) is None ==> vx_rej@,
        self.inv(), self.only_tys(v1), self.ctx() == v1.ctx(),
        wfs(v1.ctx(), v1.used().tys, stys(case.fields, 0), 0) == wfs(self.ctx(), self.used().tys, stys(case.fields, 0), vx_it0.index() as nat),
//@ loophead 0
    proof { stys_at(case.fields, 0); }
//@ after self.ctors.insert
    proof {
        assert(self.ctx().ctors =~= old(self).ctx().ctors.insert(case.name, SCtor { ty: ty, vars: vars@, fields: stys(case.fields, 0) }));
        assert(self.ctx().vals =~= old(self).ctx().vals);
    }
//@ end

//@ fn ticc-core/src/verify.rs Validator::check_ty_def
//@ rule def : & ir :: TyDef ==> def : & ir :: TyDef , vx_rej : Ghost < bool >
//@ rule . enter ( $x:rest ) ==> . enter ( $x , vx_rej )
//@ rule . enter_ty ( $x:rest ) ==> . enter_ty ( $x , vx_rej )
//@ rule . check_ty_case ( $x:rest ) ==> . check_ty_case ( $x , vx_rej )
    requires old(self).inv(), check_def(old(self).ctx(), old(self).used(), *def) is None ==> vx_rej@,
    ensures final(self).inv(), check_def(old(self).ctx(), old(self).used(), *def) == Some((final(self).ctx(), final(self).used())),
//@ after self.kinds.insert
    let ghost v1 = *self;
    let ghost t0 = old(self).names.in_scope_ty@;
    proof {
        assert(self.ctx().vals =~= old(self).ctx().vals);
        assert(opened_tvs(t0, t0, def.vars@, 0, 0));
    }
//@ loop 0
    invariant
        vx_it0.seq().len() == def.vars@.len(), t0 == v1.names.in_scope_ty@,
        forall|k: int| 0 <= k < def.vars@.len() ==> *(#[trigger] vx_it0.seq()[k]) == def.vars@[k],
        bind_tvs(v1.ctx(), v1.used(), def.vars@, 0) is None ==> vx_rej@,
        self.inv(), opened_tvs(self.names.in_scope_ty@, t0, def.vars@, 0, vx_it0.index() as int),
        bind_tvs(v1.ctx(), v1.used(), def.vars@, 0) == bind_tvs(self.ctx(), self.used(), def.vars@, vx_it0.index() as nat),
//@ loophead 0
    let ghost v2 = *self;
    proof { if !self.names.defined_ty@.contains(def.vars@[vx_it0.index() as int]) { open_tv(self.names.in_scope_ty@, t0, def.vars@, vx_it0.index() as int); } }
//@ looptail 0
    proof { assert(self.ctx() == with_tv(v2.ctx(), var)); }
//@ before for case in
    let ghost v3 = *self;
//@ loop 1
    invariant
        vx_it1.seq().len() == def.cases@.len(),
        forall|k: int| 0 <= k < def.cases@.len() ==> *(#[trigger] vx_it1.seq()[k]) == def.cases@[k],
        check_cases(v3.ctx(), v3.used(), def.cases@, 0, def.name, def.vars@) is None ==> vx_rej@,
        self.inv(), self.names.in_scope_ty@ == v3.names.in_scope_ty@,
        check_cases(v3.ctx(), v3.used(), def.cases@, 0, def.name, def.vars@) == check_cases(self.ctx(), self.used(), def.cases@, vx_it1.index() as nat, def.name, def.vars@),
//@ after for case in
    let ghost v4 = *self;
    proof { if def.vars@.len() == 0 { closed_tvs(self.names.in_scope_ty@, t0, def.vars@, 0); } }
//@ loop 2
    invariant
        vx_it2.seq().len() == def.vars@.len(),
        forall|k: int| 0 <= k < def.vars@.len() ==> *(#[trigger] vx_it2.seq()[k]) == def.vars@[k],
        self.inv(), opened_tvs(self.names.in_scope_ty@, t0, def.vars@, vx_it2.index() as int, def.vars@.len() as int),
        vx_it2.index() == def.vars@.len() ==> self.names.in_scope_ty@ == t0,
        self.used() == v4.used(), (Ctx { tvs: v4.ctx().tvs, ..self.ctx() }) == v4.ctx(),
//@ loophead 2
    proof { close_tv(self.names.in_scope_ty@, t0, def.vars@, vx_it2.index() as int, def.vars@.len() as int); }
//@ looptail 2
    proof { if vx_it2.index() + 1 == def.vars@.len() { closed_tvs(self.names.in_scope_ty@, t0, def.vars@, def.vars@.len() as int); } }
//@ end
}

#[verifier::external_body]
fn vx_no_values() -> (r: &'static [(Expr, Ty)]) ensures r@ == Seq::<(Expr, Ty)>::empty() { unimplemented!() }

//@ fn ticc-core/src/verify.rs assert_valid
//@ rule & [ ] ==> vx_no_values ( )
    ensures well_typed(*program, Seq::empty()),
//@ end
//@ fn ticc-core/src/verify.rs assert_valid_with_values
//@ rule . check_ty_def ( $x:rest ) ==> . check_ty_def ( $x , vx_rej )
//@ rule . check_ty ( $x:rest ) ==> . check_ty ( $x , vx_rej )
//@ rule . check_expr ( $x:rest ) ==> . check_expr ( $x , vx_rej )
//@ rule . enter ( $x:rest ) ==> . enter ( $x , vx_rej )
//@ rule assert_fits ( $x:rest ) ==> assert_fits ( $x , vx_rej )
//@ rule __vx_it_2 ( values ) ==> __vx_it_2 ( values . iter ( ) )
    ensures well_typed(*program, values@),
//@ head
    // a panic below needs the program to be ill-typed
    let vx_rej: Ghost<bool> = Ghost(!well_typed(*program, values@));
    let ghost g0 = empty_ctx(program.names.limit());
//@ before for ty_def in
    proof {
        assert(validator.ctx().vals =~= g0.vals);
        assert(validator.ctx().kinds =~= g0.kinds);
        assert(validator.ctx().ctors =~= g0.ctors);
    }
//@ loop 0
    invariant
        g0 == empty_ctx(program.names.limit()), vx_rej@ == !well_typed(*program, values@), vx_it0.seq().len() == program.types@.len(),
        forall|k: int| 0 <= k < program.types@.len() ==> *(#[trigger] vx_it0.seq()[k]) == program.types@[k],
        validator.inv(),
        check_types(g0, none_used(), program.types@, 0) == check_types(validator.ctx(), validator.used(), program.types@, vx_it0.index() as nat),
//@ after for ty_def in
    let ghost v1 = validator;
//@ loop 1
    invariant
        g0 == empty_ctx(program.names.limit()), vx_rej@ == !well_typed(*program, values@), vx_it1.seq().len() == program.defs@.len(),
        forall|k: int| 0 <= k < program.defs@.len() ==> *(#[trigger] vx_it1.seq()[k]) == program.defs@[k],
        validator.inv(),
        check_types(g0, none_used(), program.types@, 0) == Some((v1.ctx(), v1.used())),
        check_values(v1.ctx(), v1.used(), program.defs@, 0) == check_values(validator.ctx(), validator.used(), program.defs@, vx_it1.index() as nat),
//@ before validator.names.enter
    let ghost v2 = validator;
    proof { v2.open_start(seq![def.name]); }
//@ after validator.types.insert
    proof { validator.open_step(v2, v2, seq![def.name], 0, validator.types@[def.name]); }
//@ after for def in
    let ghost v3 = validator;
//@ loop 2
    invariant
        g0 == empty_ctx(program.names.limit()), vx_rej@ == !well_typed(*program, values@), vx_it2.seq().len() == values@.len(),
        forall|k: int| 0 <= k < values@.len() ==> *(#[trigger] vx_it2.seq()[k]) == values@[k],
        validator.inv(),
        check_types(g0, none_used(), program.types@, 0) == Some((v1.ctx(), v1.used())),
        check_values(v1.ctx(), v1.used(), program.defs@, 0) == Some((v3.ctx(), v3.used())),
        check_extra(v3.ctx(), v3.used(), values@, 0) == check_extra(validator.ctx(), validator.used(), values@, vx_it2.index() as nat),
//@ end
} // verus!
fn main() {}
