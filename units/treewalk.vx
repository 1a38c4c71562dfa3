// Unit `treewalk`: the tree-walking evaluator of ticc-eval against a reference
// big-step semantics of the core language.
use vstd::prelude::*;
use std::rc::Rc;
verus! {
global size_of usize == 8;

//@ include sem.inc
// ---- environments: `Rc<dyn EvalEnv>` is one of the two types that implement the trait
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HMap<K> { k: Vec<K>, v: Vec<Value> }
pub open spec fn smap(m: Map<Name, Value>) -> SEnv { m.map_values(|v: Value| sval(v)) }
impl HMap<Name> {
    pub uninterp spec fn view(&self) -> Map<Name, Value>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: Name, v: Value) -> (r: Option<Value>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// indexing panics without the key
    #[verifier::external_body]
    pub fn vx_at(&self, k: Name) -> (r: &Value) requires self@.contains_key(k), ensures *r == self@[k] { unimplemented!() }
}
//@ rule HashMap < Name , Value > ==> HMap < Name >
//@ rule Rc < dyn EvalEnv > ==> DynEnv
//@ type ticc-eval/src/treewalk.rs Env
//@ type ticc-eval/src/treewalk.rs ExtendedEnv
enum DynEnv { Top(Env), Ext(Box<ExtendedEnv>) }
impl DynEnv {
    spec fn view(&self) -> SEnv decreases *self {
        match self { DynEnv::Top(e) => smap(e.values@), DynEnv::Ext(x) => x.base.view().insert(x.name, sval(x.value)) }
    }
    /// the call through the trait object
    fn lookup(&self, name: Name) -> (r: Value)
        requires self@.contains_key(name),
        ensures sval(r) == self@[name],
        decreases *self, 1nat,
    {
        match self { DynEnv::Top(e) => e.lookup(name), DynEnv::Ext(x) => x.lookup(name) }
    }
    /// cloning the `Rc`
    #[verifier::external_body]
    fn clone(&self) -> (r: DynEnv) ensures r@ == self@ { unimplemented!() }
}
impl Env {
    #[verifier::external_body]
    fn default() -> (r: Env) ensures r.values@ == Map::<Name, Value>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Env) ensures smap(r.values@) == smap(self.values@) { unimplemented!() }
//@ fn ticc-eval/src/treewalk.rs Env::add
    ensures smap(final(self).values@) == smap(old(self).values@).insert(name, sval(value)),
//@ after self . values . insert ( name , value )
    proof { assert(smap(self.values@) =~= smap(old(self).values@).insert(name, sval(value))); }
//@ end
//@ fn ticc-eval/src/treewalk.rs Env::lookup
//@ ret r
//@ rule self . values [ & name ] ==> self . values . vx_at ( name )
    requires smap(self.values@).contains_key(name),
    ensures sval(r) == smap(self.values@)[name],
//@ end
}
impl ExtendedEnv {
//@ fn ticc-eval/src/treewalk.rs EvalEnv/ExtendedEnv::lookup
//@ ret r
    requires self.base@.insert(self.name, sval(self.value)).contains_key(name),
    ensures sval(r) == self.base@.insert(self.name, sval(self.value))[name],
    decreases *self,
//@ end
}
//@ fn ticc-eval/src/treewalk.rs add
//@ ret r
//@ rule Rc :: new ( $x:rest ) ==> DynEnv :: Ext ( Box :: new ( $x ) )
    ensures r@ == env@.insert(name, sval(value)),
//@ end
#[verifier::external_body]
fn vx_call(f: Function, args: &Vec<Value>) -> (r: Result<Value, Trap>)
    ensures sres(r) == apply(f, svals(args@)) { unimplemented!() }
#[verifier::external_body]
fn vx_closure(env: &DynEnv, params: &Vec<LambdaParam>, body: &Expr) -> (r: Value)
    ensures sval(r) == SVal::Fn(closure(lam_env(env@, params@, *body), params@, *body)) { unimplemented!() }
#[verifier::external_body]
fn vx_rec_closure(env: &DynEnv, name: Name, params: &Vec<LambdaParam>, body: &Expr) -> (r: Value)
    ensures sval(r) == SVal::Fn(rec_closure(rec_lam_env(env@, name, params@, *body), name, params@, *body)) { unimplemented!() }

//@ fn ticc-eval/src/treewalk.rs strip_pis
//@ ret r
    ensures *r == under_pis(*expr),
    decreases *expr,
//@ end

/// the closure `args.iter().map(|a| eval_impl(env, a)).collect::<Result<Vec<_>, _>>()?` of the
/// call arm, written out as the loop the iterator adapters perform
fn vx_eval_all(env: &DynEnv, args: &Vec<Expr>) -> (r: Result<Vec<Value>, Trap>)
    requires scoped_list(env@, *args, args@.len()),
    ensures match r {
        Ok(vs) => sem_list(env@, *args, args@.len()) == SList::Vals(svals(vs@)),
        Err(t) => sem_list(env@, *args, args@.len()) == SList::Trap(t.message@),
    },
    decreases *args, 1nat,
{
    let mut out: Vec<Value> = Vec::new();
    proof { assert(svals(out@) =~= Seq::empty()); }
    let mut i: usize = 0;
    while i < args.len()
        invariant 0 <= i <= args@.len(), scoped_list(env@, *args, args@.len()),
            sem_list(env@, *args, i as nat) == SList::Vals(svals(out@)),
        decreases args@.len() - i,
    {
        proof { scoped_at(env@, *args, args@.len(), i as int); }
        match eval_impl(env, &args[i]) {
            Ok(v) => {
                proof { assert(svals(out@.push(v)) =~= svals(out@).push(sval(v))); }
                out.push(v);
            }
            Err(t) => {
                proof { list_trap(env@, *args, (i + 1) as nat, args@.len()); }
                return Err(t);
            }
        }
        i = i + 1;
    }
    Ok(out)
}


// The arms of eval_impl's `match expr`, each verified as its own function.
//@ expr ticc-eval/src/treewalk.rs eval_impl
//@ select op
//@ params fn arm_op_value(op: &Op, a: u64, b: u64) -> (r: Value)
    ensures sval(r) == op_spec(*op, a, b),
//@ end

//@ expr ticc-eval/src/treewalk.rs eval_impl
//@ select i
//@ wrap Ok ( $e )
//@ params fn arm_intrinsic(env: &DynEnv, expr: &Expr, i: &Intrinsic, xs: &Vec<Expr>) -> (r: Result<Value, Trap>)
//@ rule & $s:ident [ .. ] ==> $s . vx_all ( )
//@ rule res . extend ( $x:rest ) ==> vx_extend ( & mut res , $x )
//@ rule res . into ( ) ==> vx_bs_vec ( res )
//@ rule s . get ( idx ) ==> s . vx_get ( idx )
//@ rule s . get ( start .. ) ==> s . vx_from ( start )
//@ rule s . get ( .. len ) ==> vx_to ( s , len )
//@ rule b"" ==> vx_empty ( )
//@ rule Value :: String ( s . into ( ) ) ==> Value :: String ( vx_bs ( s ) )
//@ rule [ ch ] [ .. ] . into ( ) ==> vx_bs_byte ( ch )
//@ rule i . to_string ( ) . as_bytes ( ) . into ( ) ==> vx_decimal ( i )
    requires *expr == Expr::Intrinsic(*i, *xs), scoped(env@, *expr),
    ensures sres(r) == sem(env@, *expr),
    decreases *xs, 2nat,
//@ attr
#[verifier::spinoff_prover]
//@ head
    hide(sem); hide(sem_list); hide(scoped); hide(scoped_list); hide(find_branch); hide(bind_all); hide(under_pis);
    proof {
        assert forall|x: u64| #[trigger] (x as u8) == (x % 256) as u8 by { assert(x as u8 == (x % 256) as u8) by (bit_vector); }
        assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a <= s.len() && 0 <= b <= s.len() - a implies
            #[trigger] s.subrange(a, s.len() as int).subrange(0, b) == s.subrange(a, a + b) by {
            assert(s.subrange(a, s.len() as int).subrange(0, b) =~= s.subrange(a, a + b)); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a == b <= s.len() implies #[trigger] s.subrange(a, b) == Seq::<u8>::empty() by {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty()); }
        intrinsic_scope(env@, *i, *xs);
        intrinsic_traps(env@, *i, *xs);
        assert(sem(env@, xs@[0]) is Trap ==> first_trap(env@, *xs, 0));
        assert(xs@.len() > 1 && sem(env@, xs@[0]) is Val && sem(env@, xs@[1]) is Trap ==> first_trap(env@, *xs, 1));
        assert(xs@.len() > 2 && sem(env@, xs@[0]) is Val && sem(env@, xs@[1]) is Val && sem(env@, xs@[2]) is Trap ==> first_trap(env@, *xs, 2));
    }
//@ end

//@ expr ticc-eval/src/treewalk.rs eval_impl
//@ select expr
//@ armbody ir::Expr::Match(e, branches)
//@ params fn arm_match(env: &DynEnv, expr: &Expr, e: &Expr, branches: &Vec<Branch>) -> (r: Result<Value, Trap>)
//@ rule assert_eq ! ( $a , $b ) ==> vx_assert ( $a == $b )
//@ rule unreachable ! ( $x:rest ) ==> vx_unreachable ( )
    requires expr is Match, *expr->Match_0 == *e, expr->Match_1 == *branches, scoped(env@, *expr),
    ensures sres(r) == sem(env@, *expr),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ loop 0
    invariant
        vx_it0.seq().len() == branches@.len(),
        forall|k: int| 0 <= k < branches@.len() ==> *#[trigger] vx_it0.seq()[k] == branches@[k],
        expr is Match, *expr->Match_0 == *e, expr->Match_1 == *branches,
        scoped(env@, *expr),
        sem(env@, *e) == SRes::Val(SVal::Comp(ctor, svals(fields@))),
        find_branch(branches@, ctor, 0) == find_branch(branches@, ctor, vx_it0.index() as nat),
//@ loop 1
    invariant
        vx_it1.seq().len() == br.bindings@.len(), fields@.len() == br.bindings@.len(),
        forall|k: int| 0 <= k < br.bindings@.len() ==> *(#[trigger] vx_it1.seq()[k]).0 == br.bindings@[k] && *vx_it1.seq()[k].1 == fields@[k],
        env@ == bind_all(outer_env, br.bindings@, svals(fields@), vx_it1.index() as nat),
//@ loophead 0
    proof { find_branch_step(branches@, ctor, vx_it0.index() as nat); }
//@ before let mut env = env . clone ( )
    let ghost outer_env = env@;
//@ end

//@ expr ticc-eval/src/treewalk.rs eval_impl
//@ select expr
//@ armbody ir::Expr::Construct(ctor, _, fields)
//@ params fn arm_construct(env: &DynEnv, ctor: &Name, fields: &Vec<Expr>) -> (r: Result<Value, Trap>)
    requires scoped_list(env@, *fields, fields@.len()),
    ensures sres(r) == (match sem_list(env@, *fields, fields@.len()) {
        SList::Trap(t) => SRes::Trap(t),
        SList::Vals(vs) => SRes::Val(SVal::Comp(*ctor, vs)),
    }),
    decreases *fields, 1nat,
//@ attr
#[verifier::spinoff_prover]
//@ loop 0
    invariant
        vx_it0.seq().len() == fields@.len(),
        forall|k: int| 0 <= k < fields@.len() ==> *#[trigger] vx_it0.seq()[k] == fields@[k],
        scoped_list(env@, *fields, fields@.len()),
        sem_list(env@, *fields, vx_it0.index() as nat) == SList::Vals(svals(f@)),
//@ after let mut f = Vec :: new ( )
    proof { assert(svals(f@) =~= Seq::empty()); }
//@ loophead 0
    proof {
        scoped_at(env@, *fields, fields@.len(), vx_it0.index() as int);
        if sem(env@, *field) is Trap { list_trap(env@, *fields, (vx_it0.index() + 1) as nat, fields@.len()); }
    }
    let ghost f0 = f@;
//@ looptail 0
    proof { assert(svals(f@) =~= svals(f0).push(sval(f@.last()))); }
//@ end

//@ fn ticc-eval/src/treewalk.rs eval_impl
//@ ret r
//@ rule eval_impl ( env , f ) ?. into_fn ( ) . 0 ==> eval_impl ( env , f ) ?. into_fn ( )
//@ rule f ( & args ) ==> vx_call ( f , & args )
//@ rule args . iter ( ) . map ( | a | eval_impl ( env , a ) ) . collect :: < Result < Vec < _ > , _ > > ( ) ? ==> vx_eval_all ( env , args ) ?
//@ rule Ok ( match i { $b:rest } ) ==> arm_intrinsic ( env , expr , i , xs )
//@ rule Ok ( match op { $b:rest } ) ==> Ok ( arm_op_value ( op , a , b ) )
//@ rule ir :: Expr :: Match ( e , branches ) => { $b:rest } ==> ir :: Expr :: Match ( e , branches ) => { arm_match ( env , expr , e , branches ) }
//@ rule ir :: Expr :: Construct ( ctor , _ , fields ) => { $b:rest } ==> ir :: Expr :: Construct ( ctor , _ , fields ) => { arm_construct ( env , ctor , fields ) }
//@ rule let env = env . clone ( ) ; let params = params . clone ( ) ; let body = body . clone ( ) ; Ok ( $x:any ) ==> Ok ( vx_closure ( env , params , body ) )
//@ rule if let $p = v . clone ( ) { let params = Rc :: < [ ir :: LambdaParam ] > :: from ( params ) ; let body = Rc :: new ( * body ) ; let f = $m:any ; $z:rest } ==> if let $p = v { let f = vx_rec_closure ( env , * n , params , & * * body ) ; $z }
//@ rule msg . clone ( ) ==> vx_clone_string ( msg )
    requires scoped(env@, *expr),
    ensures sres(r) == sem(env@, *expr),
    decreases *expr, 1nat,
//@ attr
#[verifier::spinoff_prover]
//@ end


// The bodies of the two closures that make function values.
proof fn bind_step(env: SEnv, names: Seq<Name>, vals: Seq<SVal>, n: nat)
    requires n < names.len(), n < vals.len(),
    ensures bind_all(env, names, vals, n + 1) == bind_all(env, names, vals, n).insert(names[n as int], vals[n as int]),
{}
//@ expr ticc-eval/src/treewalk.rs eval_impl
//@ closure 1
//@ params fn closure_body(env: &DynEnv, params: &Vec<LambdaParam>, body: &Expr, args: &Vec<Value>) -> (r: Result<Value, Trap>)
//@ rule assert_eq ! ( $a , $b ) ==> vx_assert ( $a == $b )
//@ rule . zip ( args ) ==> . zip ( args . iter ( ) )
    requires params@.len() == args@.len(),
        scoped(bind_all(env@, param_names(params@), svals(args@), params@.len()), *body),
        fv(*body).difference(param_names(params@).to_set()).subset_of(env@.dom()),
    ensures sres(r) == sem(bind_all(env@, param_names(params@), svals(args@), params@.len()), *body),
        // the same, told with the part of the environment that identifies the function value
        sres(r) == sem(bind_all(lam_env(env@, params@, *body), param_names(params@), svals(args@), params@.len()), *body),
//@ head
    let ghost outer_env = env@;
    proof { lam_env_enough(env@, params@, *body, svals(args@)); }
//@ loop 0
    invariant
        vx_it0.seq().len() == params@.len(), args@.len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> *(#[trigger] vx_it0.seq()[k]).0 == params@[k] && *vx_it0.seq()[k].1 == args@[k],
        env@ == bind_all(outer_env, param_names(params@), svals(args@), vx_it0.index() as nat),
//@ end

//@ expr ticc-eval/src/treewalk.rs make_rec_fn
//@ closure 0
//@ params fn rec_closure_body(env: &DynEnv, name: Name, params: &Vec<LambdaParam>, body: &Expr, args: &Vec<Value>) -> (r: Result<Value, Trap>)
//@ rule assert_eq ! ( $a , $b ) ==> vx_assert ( $a == $b )
//@ rule . zip ( args ) ==> . zip ( args . iter ( ) )
//@ rule make_rec_fn ( base_env , name , params . clone ( ) , body . clone ( ) ) ==> vx_rec_closure ( & base_env , name , params , body )
    requires params@.len() == args@.len(),
        scoped(rec_env(env@, name, params@, *body, svals(args@)), *body),
    ensures sres(r) == sem(rec_env(env@, name, params@, *body, svals(args@)), *body),
//@ head
    let ghost outer_env = env@;
//@ loop 0
    invariant
        vx_it0.seq().len() == params@.len(), args@.len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> *(#[trigger] vx_it0.seq()[k]).0 == params@[k] && *vx_it0.seq()[k].1 == args@[k],
        env@ == bind_all(outer_env, param_names(params@), svals(args@), vx_it0.index() as nat),
//@ end

pub open spec fn rec_env(env: SEnv, name: Name, params: Seq<LambdaParam>, body: Expr, args: Seq<SVal>) -> SEnv {
    bind_all(env, param_names(params), args, params.len()).insert(name, SVal::Fn(rec_closure(rec_lam_env(env, name, params, body), name, params, body)))
}

// ---- the two top-level functions --------------------------------------------------
//@ include prog.inc
//@ fn ticc-eval/src/treewalk.rs eval_expr
//@ ret res
//@ rule Rc :: new ( env ) ==> DynEnv :: Top ( env )
    requires scoped(smap(env.values@), *expr),
    ensures sres(res) == sem(smap(env.values@), *expr),
//@ end
spec fn prog_scoped(ds: Seq<ValueDef>) -> bool {
    forall|i: int| 0 <= i < ds.len() && prog(ds, i as nat) is Env ==> scoped(prog(ds, i as nat)->Env_0, (#[trigger] ds[i]).value)
}
//@ fn ticc-eval/src/treewalk.rs eval
//@ ret res
    requires prog_scoped(program.defs@),
        prog(program.defs@, program.defs@.len()) is Env ==> forall|k: int| 0 <= k < exprs@.len() ==>
            scoped(prog(program.defs@, program.defs@.len())->Env_0, #[trigger] exprs@[k]),
    ensures ran(program.defs@, exprs@, res),
//@ head
    let ghost ds = program.defs@;
//@ loop 0
    invariant
        vx_it0.seq().len() == ds.len(), ds == program.defs@, prog_scoped(ds),
        forall|k: int| 0 <= k < ds.len() ==> *#[trigger] vx_it0.seq()[k] == ds[k],
        prog(ds, vx_it0.index() as nat) == PEnv::Env(smap(env.values@)),
//@ loophead 0
    proof {
        let i = vx_it0.index() as int;
        assert(scoped(smap(env.values@), ds[i].value));
        if sem(smap(env.values@), ds[i].value) is Trap { prog_trap(ds, (i + 1) as nat, ds.len()); }
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == exprs@.len(), ds == program.defs@,
        forall|k: int| 0 <= k < exprs@.len() ==> *#[trigger] vx_it1.seq()[k] == exprs@[k],
        prog(ds, ds.len()) == PEnv::Env(smap(env.values@)), results@.len() == vx_it1.index(),
        forall|k: int| 0 <= k < exprs@.len() ==> scoped(smap(env.values@), #[trigger] exprs@[k]),
        forall|k: int| 0 <= k < results@.len() ==> sem(smap(env.values@), #[trigger] exprs@[k]) == SRes::Val(sval(results@[k])),
//@ loophead 1
    proof { assert(scoped(smap(env.values@), exprs@[vx_it1.index() as int])); }
//@ before for def in
    proof { assert(smap(env.values@) =~= Map::<Name, SVal>::empty()); }
//@ end

} // verus!
fn main() {}
