// Unit `lambda`: the closure-compiling evaluator of ticc-eval against the same reference semantics
// as the tree-walking one (C02).
//
// A boxed closure is opaque (`Code`): running it needs `ok(frame)`, gives `run(frame)` and leaves the
// environment as it was.  Every closure the compiler makes is lifted out and verified as a function
// against a contract over the codes it captured; the constructor that stands in its place promises
// exactly that contract.  Making a *function value* needs the proof that its body, run on the captured
// values and any arguments, gives what the reference semantics gives.
use vstd::prelude::*;
use std::rc::Rc;
verus! {
global size_of usize == 8;
//@ include sem.inc

// ---- std stand-ins
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HSet<T> { t: Vec<T> }
impl<T> HSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: HSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, t: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// the elements in the order the iterator gives them, whichever that is
    #[verifier::external_body]
    pub fn vx_listed(&self) -> (r: Vec<T>) ensures r@.no_duplicates(), r@.to_set() == self@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: HMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
/// indexing panics without the key
#[verifier::external_body]
fn vx_index(m: &HMap<Name, usize>, k: Name) -> (r: usize) requires m@.contains_key(k), ensures r == m@[k] { unimplemented!() }
/// the values of the definitions before: `Rc<HashMap<ir::Name, Value>>`
#[verifier::external_body]
pub struct Known { k: usize }
impl Known {
    pub uninterp spec fn view(&self) -> SEnv;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Known) ensures r@ == self@ { unimplemented!() }
    /// `.get(&name).cloned()`
    #[verifier::external_body]
    pub fn vx_get(&self, n: Name) -> (r: Option<Value>)
        ensures self@.contains_key(n) ==> r is Some && sval(r->0) == self@[n], !self@.contains_key(n) ==> r is None { unimplemented!() }
}
#[verifier::external_body]
fn vx_assert_is(o: Option<Name>, n: Name) requires o == Some(n) { }
#[verifier::external_body]
fn vx_panic() -> ! requires false { unimplemented!() }
#[verifier::external_body]
fn vx_try_from(s: &[u8], i: usize) -> (r: Option<&[u8]>)
    ensures i <= s@.len() ==> r is Some && r->0@ == s@.subrange(i as int, s@.len() as int),
            i > s@.len() ==> r is None,
{ unimplemented!() }

// ---- environments at run time
//@ rule HashSet ==> HSet
//@ rule HashMap ==> HMap
//@ type ticc-eval/src/lambda.rs NameLookup | #[derive(Clone, Copy)]
//@ type ticc-eval/src/lambda.rs FramePos | #[derive(Clone, Copy)]
//@ type ticc-eval/src/lambda.rs CompactEnv

impl CompactEnv {
    spec fn wf(self) -> bool { self.frame_start <= self.names@.len() }
    /// what the running code sees
    spec fn frame(self) -> Seq<SVal> { svals(self.names@.subrange(self.frame_start as int, self.names@.len() as int)) }
    spec fn same(self, o: CompactEnv) -> bool { self.names@ == o.names@ && self.frame_start == o.frame_start }
//@ fn ticc-eval/src/lambda.rs CompactEnv::open_frame
//@ ret r
    ensures final(self).names@ == old(self).names@, final(self).frame_start == old(self).names@.len(), r.0 == old(self).frame_start,
//@ end
//@ fn ticc-eval/src/lambda.rs CompactEnv::pop_frame
    ensures final(self).names@ == old(self).names@, final(self).frame_start == pos.0,
//@ end
//@ fn ticc-eval/src/lambda.rs CompactEnv::lookup
//@ ret r
    requires self.wf(), lookup.0 < self.frame().len(),
    ensures sval(r) == self.frame()[lookup.0 as int],
//@ head
    let vx_n = self.names.len();
//@ end
//@ fn ticc-eval/src/lambda.rs CompactEnv::add
    ensures final(self).names@ == old(self).names@.push(value), final(self).frame_start == old(self).frame_start,
//@ end
//@ fn ticc-eval/src/lambda.rs CompactEnv::remove
    requires old(self).names@.len() > 0,
    ensures final(self).names@ == old(self).names@.drop_last(), final(self).frame_start == old(self).frame_start,
//@ end
}
proof fn frame_push(a: CompactEnv, b: CompactEnv, v: Value)
    requires a.wf(), b.names@ == a.names@.push(v), b.frame_start == a.frame_start,
    ensures b.wf(), b.frame() == a.frame().push(sval(v)),
{
    assert(b.frame() =~= a.frame().push(sval(v)));
}

// ---- code
#[verifier::external_body]
pub struct Code { c: usize }
impl Code {
    pub uninterp spec fn ok(self, frame: Seq<SVal>) -> bool;
    pub uninterp spec fn run(self, frame: Seq<SVal>) -> SRes;
    /// cloning the `Rc` around the closure
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Code) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn vx_run(c: &Code, env: &mut CompactEnv) -> (r: Result<Value, Trap>)
    requires old(env).wf(), c.ok(old(env).frame()),
    ensures final(env).same(*old(env)), sres(r) == c.run(old(env).frame()),
{ unimplemented!() }
#[verifier::external_body]
fn vx_call(f: Function, env: &mut CompactEnv, args: &Vec<Value>) -> (r: Result<Value, Trap>)
    requires old(env).wf(),
    ensures final(env).same(*old(env)), sres(r) == apply(f, svals(args@)),
{ unimplemented!() }

/// codes run one after the other, up to the first trap
pub open spec fn run_list(cs: Seq<Code>, fr: Seq<SVal>, n: nat) -> SList decreases n {
    if n == 0 || n > cs.len() { SList::Vals(Seq::empty()) } else {
        match run_list(cs, fr, (n - 1) as nat) {
            SList::Trap(t) => SList::Trap(t),
            SList::Vals(vs) => match cs[n - 1].run(fr) {
                SRes::Trap(t) => SList::Trap(t),
                SRes::Val(v) => SList::Vals(vs.push(v)),
            },
        }
    }
}
pub open spec fn all_ok(cs: Seq<Code>, fr: Seq<SVal>) -> bool { forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).ok(fr) }
proof fn run_list_trap(cs: Seq<Code>, fr: Seq<SVal>, n: nat, m: nat)
    requires n <= m <= cs.len(), run_list(cs, fr, n) is Trap,
    ensures run_list(cs, fr, m) == run_list(cs, fr, n),
    decreases m,
{
    if m > n { run_list_trap(cs, fr, n, (m - 1) as nat); }
}
proof fn run_list_1(a: Code, fr: Seq<SVal>)
    ensures run_list(seq![a], fr, 1) == (match a.run(fr) { SRes::Trap(t) => SList::Trap(t), SRes::Val(v) => SList::Vals(seq![v]) }),
{
    reveal_with_fuel(run_list, 3);
    assert(forall|v: SVal| Seq::<SVal>::empty().push(v) =~= seq![v]);
}

// ---- the contracts of the closures
spec fn k_call_ok(f: Code, args: Seq<Code>, fr: Seq<SVal>) -> bool {
    all_ok(args, fr) && f.ok(fr) && (f.run(fr) is Val ==> f.run(fr)->Val_0 is Fn)
}
spec fn k_call(f: Code, args: Seq<Code>, fr: Seq<SVal>) -> SRes {
    match run_list(args, fr, args.len()) {
        SList::Trap(t) => SRes::Trap(t),
        SList::Vals(vs) => match f.run(fr) {
            SRes::Trap(t) => SRes::Trap(t),
            SRes::Val(fv) => apply(fv->Fn_0, vs),
        },
    }
}
spec fn k_if_ok(c: Code, t: Code, e: Code, fr: Seq<SVal>) -> bool {
    c.ok(fr) && t.ok(fr) && e.ok(fr) && (c.run(fr) is Val ==> c.run(fr)->Val_0 is Bool)
}
spec fn k_if(c: Code, t: Code, e: Code, fr: Seq<SVal>) -> SRes {
    match c.run(fr) {
        SRes::Trap(t) => SRes::Trap(t),
        SRes::Val(b) => if b->Bool_0 { t.run(fr) } else { e.run(fr) },
    }
}
spec fn k_op_ok(a: Code, b: Code, fr: Seq<SVal>) -> bool {
    a.ok(fr) && b.ok(fr) && (a.run(fr) is Val ==> a.run(fr)->Val_0 is Int) && (b.run(fr) is Val ==> b.run(fr)->Val_0 is Int)
}
spec fn k_op(op: Op, a: Code, b: Code, fr: Seq<SVal>) -> SRes {
    match a.run(fr) {
        SRes::Trap(t) => SRes::Trap(t),
        SRes::Val(x) => match b.run(fr) {
            SRes::Trap(t) => SRes::Trap(t),
            SRes::Val(y) => SRes::Val(op_spec(op, x->Int_0, y->Int_0)),
        },
    }
}
spec fn k_intr_ok(i: Intrinsic, args: Seq<Code>, fr: Seq<SVal>) -> bool {
    args.len() == intrinsic_arity(i) && all_ok(args, fr)
        && forall|k: int| 0 <= k < args.len() && (#[trigger] args[k]).run(fr) is Val ==> arg_kind(i, k, args[k].run(fr)->Val_0)
}
spec fn k_intr(i: Intrinsic, args: Seq<Code>, fr: Seq<SVal>) -> SRes {
    match run_list(args, fr, args.len()) {
        SList::Trap(t) => SRes::Trap(t),
        SList::Vals(vs) => SRes::Val(intrinsic_spec(i, vs)),
    }
}
spec fn k_cons(n: Name, args: Seq<Code>, fr: Seq<SVal>) -> SRes {
    match run_list(args, fr, args.len()) {
        SList::Trap(t) => SRes::Trap(t),
        SList::Vals(vs) => SRes::Val(SVal::Comp(n, vs)),
    }
}
spec fn k_let_ok(v: Code, r: Code, fr: Seq<SVal>) -> bool {
    v.ok(fr) && (v.run(fr) is Val ==> r.ok(fr.push(v.run(fr)->Val_0)))
}
spec fn k_let(v: Code, r: Code, fr: Seq<SVal>) -> SRes {
    match v.run(fr) {
        SRes::Trap(t) => SRes::Trap(t),
        SRes::Val(x) => r.run(fr.push(x)),
    }
}
spec fn k_match_ok(x: Code, bs: Seq<(Branch, Code)>, fr: Seq<SVal>) -> bool {
    x.ok(fr) && (x.run(fr) is Val ==> {
        let v = x.run(fr)->Val_0;
        let i = find_branch(bs.map_values(|b: (Branch, Code)| b.0), v->Comp_0, 0);
        v is Comp && i < bs.len() && bs[i as int].1.ok(fr + v->Comp_1)
    })
}
spec fn k_match(x: Code, bs: Seq<(Branch, Code)>, fr: Seq<SVal>) -> SRes {
    match x.run(fr) {
        SRes::Trap(t) => SRes::Trap(t),
        SRes::Val(v) => bs[find_branch(bs.map_values(|b: (Branch, Code)| b.0), v->Comp_0, 0) as int].1.run(fr + v->Comp_1),
    }
}
spec fn caps_ok(caps: Seq<NameLookup>, fr: Seq<SVal>) -> bool { forall|k: int| 0 <= k < caps.len() ==> (#[trigger] caps[k]).0 < fr.len() }
spec fn caps_of(caps: Seq<NameLookup>, fr: Seq<SVal>) -> Seq<SVal> { caps.map_values(|l: NameLookup| fr[l.0 as int]) }

// ---- the closures, lifted out and verified
//@ rule Rc < [ Value ] > ==> Vec < Value >
//@ rule . into_fn ( ) . 0 ==> . into_fn ( )
//@ rule $x:ident ( env ) ==> vx_run ( $x , env )
#[verifier::external_body]
fn vx_none() -> (r: Vec<Value>) ensures r@ == Seq::<Value>::empty() { unimplemented!() }
impl Tagged<Function> {
    #[verifier::external_body]
    pub fn from_array<const N: usize>(tag: Name, values: [Value; N]) -> (r: Tagged<Function>)
        ensures r.stag() == tag, r.sfields() == svals(values@) { unimplemented!() }
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Bool(b)
//@ closure 0
//@ params fn c_bool(b: bool, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), true,
    ensures final(env).same(*old(env)), sres(res) == SRes::Val(SVal::Bool(b)),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_bool(b: bool) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (true),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == SRes::Val(SVal::Bool(b)),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Int(i)
//@ closure 0
//@ params fn c_int(i: u64, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), true,
    ensures final(env).same(*old(env)), sres(res) == SRes::Val(SVal::Int(i)),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_int(i: u64) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (true),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == SRes::Val(SVal::Int(i)),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::String(s)
//@ closure 0
//@ params fn c_string(s: &ByteString, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), true,
    ensures final(env).same(*old(env)), sres(res) == SRes::Val(SVal::Str(s@)),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_string(s: ByteString) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (true),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == SRes::Val(SVal::Str(s@)),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Name(n) > ResolvedName::Value(v)
//@ closure 0
//@ params fn c_value(v: &Value, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), true,
    ensures final(env).same(*old(env)), sres(res) == SRes::Val(sval(*v)),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_value(v: Value) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (true),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == SRes::Val(sval(v)),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Name(n) > ResolvedName::Name(lookup)
//@ closure 0
//@ params fn c_name(lookup: NameLookup, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), lookup.0 < old(env).frame().len(),
    ensures final(env).same(*old(env)), sres(res) == SRes::Val(old(env).frame()[lookup.0 as int]),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_name(lookup: NameLookup) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (lookup.0 < fr.len()),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == SRes::Val(fr[lookup.0 as int]),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Trap(msg, _)
//@ closure 0
//@ params fn c_trap(msg: &String, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule msg . clone ( ) ==> vx_clone_string ( msg )
    requires old(env).wf(), true,
    ensures final(env).same(*old(env)), sres(res) == SRes::Trap(msg@),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_trap(msg: String) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (true),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == SRes::Trap(msg@),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Call(f, args) > 0
//@ closure 0
//@ params fn c_call0(f: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule ( $x:ident ( env ) ? . into_fn ( ) . 0 ) ( env , & [ ] ) ==> vx_call ( vx_run ( $x , env ) ? . into_fn ( ) , env , & vx_none ( ) )
    requires old(env).wf(), k_call_ok(*f, Seq::empty(), old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_call(*f, Seq::empty(), old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }

//@ end
#[verifier::external_body]
fn m_call0(f: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_call_ok(f, Seq::empty(), fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_call(f, Seq::empty(), fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Call(f, args) > 1
//@ closure 0
//@ params fn c_call1(f: &Code, arg: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule f ( env , & [ arg ] ) ==> vx_call ( f , env , & vec ! [ arg ] )
    requires old(env).wf(), k_call_ok(*f, seq![*arg], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_call(*f, seq![*arg], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }
    let ghost garg = *arg;
    proof { let cs = seq![*arg]; assert(cs[0] == *arg); }

//@ end
#[verifier::external_body]
fn m_call1(f: Code, arg: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_call_ok(f, seq![arg], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_call(f, seq![arg], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Call(f, args) > 2
//@ closure 0
//@ params fn c_call2(f: &Code, arg1: &Code, arg2: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule f ( env , & [ arg1 , arg2 ] ) ==> vx_call ( f , env , & vec ! [ arg1 , arg2 ] )
    requires old(env).wf(), k_call_ok(*f, seq![*arg1, *arg2], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_call(*f, seq![*arg1, *arg2], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }
    let ghost garg1 = *arg1;
    let ghost garg2 = *arg2;
    proof { let cs = seq![*arg1, *arg2]; assert(cs[0] == *arg1); assert(cs[1] == *arg2); }

//@ end
#[verifier::external_body]
fn m_call2(f: Code, arg1: Code, arg2: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_call_ok(f, seq![arg1, arg2], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_call(f, seq![arg1, arg2], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Call(f, args) > 3
//@ closure 0
//@ params fn c_call3(f: &Code, arg1: &Code, arg2: &Code, arg3: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule f ( env , & [ arg1 , arg2 , arg3 ] ) ==> vx_call ( f , env , & vec ! [ arg1 , arg2 , arg3 ] )
    requires old(env).wf(), k_call_ok(*f, seq![*arg1, *arg2, *arg3], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_call(*f, seq![*arg1, *arg2, *arg3], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }
    let ghost garg1 = *arg1;
    let ghost garg2 = *arg2;
    let ghost garg3 = *arg3;
    proof { let cs = seq![*arg1, *arg2, *arg3]; assert(cs[0] == *arg1); assert(cs[1] == *arg2); assert(cs[2] == *arg3); }

//@ end
#[verifier::external_body]
fn m_call3(f: Code, arg1: Code, arg2: Code, arg3: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_call_ok(f, seq![arg1, arg2, arg3], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_call(f, seq![arg1, arg2, arg3], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Call(f, args) > _
//@ closure 1
//@ params fn c_calln(f: &Code, args: &Vec<Code>, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule f ( env , & arg_values ) ==> vx_call ( f , env , & arg_values )
    requires old(env).wf(), k_call_ok(*f, args@, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_call(*f, args@, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ loop 0
    invariant
        vx_it0.seq().len() == args@.len(),
        forall|k: int| 0 <= k < args@.len() ==> *#[trigger] vx_it0.seq()[k] == args@[k],
        env.wf(), env.same(*old(env)), all_ok(args@, env.frame()),
        run_list(args@, env.frame(), vx_it0.index() as nat) == SList::Vals(svals(arg_values@)),
//@ loophead 0
    proof {
        assert(args@[vx_it0.index() as int].ok(env.frame()));
        if args@[vx_it0.index() as int].run(env.frame()) is Trap { run_list_trap(args@, env.frame(), (vx_it0.index() + 1) as nat, args@.len()); }
    }
    let ghost f0 = arg_values@;
//@ looptail 0
    proof { assert(svals(arg_values@) =~= svals(f0).push(sval(arg_values@.last()))); }
//@ after let mut arg_values = Vec :: with_capacity ( args . len ( ) )
    proof { assert(svals(arg_values@) =~= Seq::empty()); }
//@ end
#[verifier::external_body]
fn m_calln(f: Code, args: Vec<Code>) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_call_ok(f, args@, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_call(f, args@, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::If(c, t, e)
//@ closure 0
//@ params fn c_if(c: &Code, t: &Code, e: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_if_ok(*c, *t, *e, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_if(*c, *t, *e, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_if(c: Code, t: Code, e: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_if_ok(c, t, e, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_if(c, t, e, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::Add
//@ closure 0
//@ params fn c_op_add(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::Add, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_add(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::Add, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::Subtract
//@ closure 0
//@ params fn c_op_subtract(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::Subtract, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_subtract(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::Subtract, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::Multiply
//@ closure 0
//@ params fn c_op_multiply(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::Multiply, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_multiply(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::Multiply, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::Divide
//@ closure 0
//@ params fn c_op_divide(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::Divide, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_divide(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::Divide, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::Modulo
//@ closure 0
//@ params fn c_op_modulo(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::Modulo, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_modulo(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::Modulo, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::Less
//@ closure 0
//@ params fn c_op_less(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::Less, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_less(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::Less, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::LessEq
//@ closure 0
//@ params fn c_op_lesseq(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::LessEq, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_lesseq(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::LessEq, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::Greater
//@ closure 0
//@ params fn c_op_greater(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::Greater, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_greater(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::Greater, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::GreaterEq
//@ closure 0
//@ params fn c_op_greatereq(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::GreaterEq, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_greatereq(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::GreaterEq, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::Equal
//@ closure 0
//@ params fn c_op_equal(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::Equal, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_equal(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::Equal, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b) > ir::Op::NotEqual
//@ closure 0
//@ params fn c_op_notequal(a: &Code, b: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_op_ok(*a, *b, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_op(Op::NotEqual, *a, *b, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ end
#[verifier::external_body]
fn m_op_notequal(a: Code, b: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_op_ok(a, b, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(Op::NotEqual, a, b, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Intrinsic(i, args) > ir::Intrinsic::StringLen
//@ closure 0
//@ params fn c_intr_stringlen(arg: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_intr_ok(Intrinsic::StringLen, seq![*arg], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_intr(Intrinsic::StringLen, seq![*arg], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        assert forall|x: u64| #[trigger] (x as u8) == (x % 256) as u8 by { assert(x as u8 == (x % 256) as u8) by (bit_vector); }
        assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a <= s.len() && 0 <= b <= s.len() - a implies
            #[trigger] s.subrange(a, s.len() as int).subrange(0, b) == s.subrange(a, a + b) by {
            assert(s.subrange(a, s.len() as int).subrange(0, b) =~= s.subrange(a, a + b)); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a == b <= s.len() implies #[trigger] s.subrange(a, b) == Seq::<u8>::empty() by {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty()); }
    }
    proof { reveal_with_fuel(run_list, 6); let cs = seq![*arg]; assert(cs[0] == *arg); }

//@ end
#[verifier::external_body]
fn m_intr_stringlen(arg: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_intr_ok(Intrinsic::StringLen, seq![arg], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_intr(Intrinsic::StringLen, seq![arg], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Intrinsic(i, args) > ir::Intrinsic::StringConcat
//@ closure 0
//@ params fn c_intr_stringconcat(s1: &Code, s2: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule & $s:ident [ .. ] ==> $s . vx_all ( )
//@ rule res . extend ( $x:rest ) ==> vx_extend ( & mut res , $x )
//@ rule res . into ( ) ==> vx_bs_vec ( res )
    requires old(env).wf(), k_intr_ok(Intrinsic::StringConcat, seq![*s1, *s2], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_intr(Intrinsic::StringConcat, seq![*s1, *s2], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        assert forall|x: u64| #[trigger] (x as u8) == (x % 256) as u8 by { assert(x as u8 == (x % 256) as u8) by (bit_vector); }
        assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a <= s.len() && 0 <= b <= s.len() - a implies
            #[trigger] s.subrange(a, s.len() as int).subrange(0, b) == s.subrange(a, a + b) by {
            assert(s.subrange(a, s.len() as int).subrange(0, b) =~= s.subrange(a, a + b)); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a == b <= s.len() implies #[trigger] s.subrange(a, b) == Seq::<u8>::empty() by {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty()); }
    }
    proof { reveal_with_fuel(run_list, 6); let cs = seq![*s1, *s2]; assert(cs[0] == *s1); assert(cs[1] == *s2); }

//@ end
#[verifier::external_body]
fn m_intr_stringconcat(s1: Code, s2: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_intr_ok(Intrinsic::StringConcat, seq![s1, s2], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_intr(Intrinsic::StringConcat, seq![s1, s2], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Intrinsic(i, args) > ir::Intrinsic::StringCharAt
//@ closure 0
//@ params fn c_intr_stringcharat(idx: &Code, s: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule s . get ( idx ) ==> s . vx_get ( idx )
    requires old(env).wf(), k_intr_ok(Intrinsic::StringCharAt, seq![*idx, *s], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_intr(Intrinsic::StringCharAt, seq![*idx, *s], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        assert forall|x: u64| #[trigger] (x as u8) == (x % 256) as u8 by { assert(x as u8 == (x % 256) as u8) by (bit_vector); }
        assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a <= s.len() && 0 <= b <= s.len() - a implies
            #[trigger] s.subrange(a, s.len() as int).subrange(0, b) == s.subrange(a, a + b) by {
            assert(s.subrange(a, s.len() as int).subrange(0, b) =~= s.subrange(a, a + b)); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a == b <= s.len() implies #[trigger] s.subrange(a, b) == Seq::<u8>::empty() by {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty()); }
    }
    proof { reveal_with_fuel(run_list, 6); let cs = seq![*idx, *s]; assert(cs[0] == *idx); assert(cs[1] == *s); }

//@ end
#[verifier::external_body]
fn m_intr_stringcharat(idx: Code, s: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_intr_ok(Intrinsic::StringCharAt, seq![idx, s], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_intr(Intrinsic::StringCharAt, seq![idx, s], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Intrinsic(i, args) > ir::Intrinsic::StringSubstring
//@ closure 0
//@ params fn c_intr_stringsubstring(start: &Code, len: &Code, s: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule s . get ( start .. ) ==> s . vx_from ( start )
//@ rule s . get ( .. len ) ==> vx_to ( s , len )
//@ rule b"" ==> vx_empty ( )
//@ rule s . into ( ) ==> vx_bs ( s )
    requires old(env).wf(), k_intr_ok(Intrinsic::StringSubstring, seq![*start, *len, *s], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_intr(Intrinsic::StringSubstring, seq![*start, *len, *s], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        assert forall|x: u64| #[trigger] (x as u8) == (x % 256) as u8 by { assert(x as u8 == (x % 256) as u8) by (bit_vector); }
        assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a <= s.len() && 0 <= b <= s.len() - a implies
            #[trigger] s.subrange(a, s.len() as int).subrange(0, b) == s.subrange(a, a + b) by {
            assert(s.subrange(a, s.len() as int).subrange(0, b) =~= s.subrange(a, a + b)); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a == b <= s.len() implies #[trigger] s.subrange(a, b) == Seq::<u8>::empty() by {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty()); }
    }
    proof { reveal_with_fuel(run_list, 6); let cs = seq![*start, *len, *s]; assert(cs[0] == *start); assert(cs[1] == *len); assert(cs[2] == *s); }

//@ end
#[verifier::external_body]
fn m_intr_stringsubstring(start: Code, len: Code, s: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_intr_ok(Intrinsic::StringSubstring, seq![start, len, s], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_intr(Intrinsic::StringSubstring, seq![start, len, s], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Intrinsic(i, args) > ir::Intrinsic::StringFromChar
//@ closure 0
//@ params fn c_intr_stringfromchar(ch: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule ByteString :: from ( [ ch ] . as_slice ( ) ) ==> vx_bs_byte ( ch )
    requires old(env).wf(), k_intr_ok(Intrinsic::StringFromChar, seq![*ch], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_intr(Intrinsic::StringFromChar, seq![*ch], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        assert forall|x: u64| #[trigger] (x as u8) == (x % 256) as u8 by { assert(x as u8 == (x % 256) as u8) by (bit_vector); }
        assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a <= s.len() && 0 <= b <= s.len() - a implies
            #[trigger] s.subrange(a, s.len() as int).subrange(0, b) == s.subrange(a, a + b) by {
            assert(s.subrange(a, s.len() as int).subrange(0, b) =~= s.subrange(a, a + b)); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a == b <= s.len() implies #[trigger] s.subrange(a, b) == Seq::<u8>::empty() by {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty()); }
    }
    proof { reveal_with_fuel(run_list, 6); let cs = seq![*ch]; assert(cs[0] == *ch); }

//@ end
#[verifier::external_body]
fn m_intr_stringfromchar(ch: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_intr_ok(Intrinsic::StringFromChar, seq![ch], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_intr(Intrinsic::StringFromChar, seq![ch], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Intrinsic(i, args) > ir::Intrinsic::IntToString
//@ closure 0
//@ params fn c_intr_inttostring(arg: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule arg . to_string ( ) . as_bytes ( ) . into ( ) ==> vx_decimal ( arg )
    requires old(env).wf(), k_intr_ok(Intrinsic::IntToString, seq![*arg], old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_intr(Intrinsic::IntToString, seq![*arg], old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        assert forall|x: u64| #[trigger] (x as u8) == (x % 256) as u8 by { assert(x as u8 == (x % 256) as u8) by (bit_vector); }
        assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a <= s.len() && 0 <= b <= s.len() - a implies
            #[trigger] s.subrange(a, s.len() as int).subrange(0, b) == s.subrange(a, a + b) by {
            assert(s.subrange(a, s.len() as int).subrange(0, b) =~= s.subrange(a, a + b)); }
        assert forall|s: Seq<u8>, a: int, b: int| 0 <= a == b <= s.len() implies #[trigger] s.subrange(a, b) == Seq::<u8>::empty() by {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty()); }
    }
    proof { reveal_with_fuel(run_list, 6); let cs = seq![*arg]; assert(cs[0] == *arg); }

//@ end
#[verifier::external_body]
fn m_intr_inttostring(arg: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_intr_ok(Intrinsic::IntToString, seq![arg], fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_intr(Intrinsic::IntToString, seq![arg], fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Construct(n, _, fields) > 0
//@ closure 0
//@ params fn c_cons0(n: Name, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), true,
    ensures final(env).same(*old(env)), sres(res) == k_cons(n, Seq::empty(), old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }

//@ end
#[verifier::external_body]
fn m_cons0(n: Name) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (true),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_cons(n, Seq::empty(), fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Construct(n, _, fields) > 1
//@ closure 0
//@ params fn c_cons1(n: Name, fields: &Vec<Code>, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule fields [ $i:any ] ( env ) ==> vx_run ( & fields [ $i ] , env )
    requires old(env).wf(), fields@.len() == 1 && all_ok(fields@, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_cons(n, fields@, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }
    proof { assert(fields@[0].ok(old(env).frame())); }

//@ end
#[verifier::external_body]
fn m_cons1(n: Name, fields: Vec<Code>) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (fields@.len() == 1 && all_ok(fields@, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_cons(n, fields@, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Construct(n, _, fields) > 2
//@ closure 0
//@ params fn c_cons2(n: Name, fields: &Vec<Code>, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule fields [ $i:any ] ( env ) ==> vx_run ( & fields [ $i ] , env )
    requires old(env).wf(), fields@.len() == 2 && all_ok(fields@, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_cons(n, fields@, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }
    proof { assert(fields@[0].ok(old(env).frame())); }
    proof { assert(fields@[1].ok(old(env).frame())); }

//@ end
#[verifier::external_body]
fn m_cons2(n: Name, fields: Vec<Code>) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (fields@.len() == 2 && all_ok(fields@, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_cons(n, fields@, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Construct(n, _, fields) > 3
//@ closure 0
//@ params fn c_cons3(n: Name, fields: &Vec<Code>, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule fields [ $i:any ] ( env ) ==> vx_run ( & fields [ $i ] , env )
    requires old(env).wf(), fields@.len() == 3 && all_ok(fields@, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_cons(n, fields@, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }
    proof { assert(fields@[0].ok(old(env).frame())); }
    proof { assert(fields@[1].ok(old(env).frame())); }
    proof { assert(fields@[2].ok(old(env).frame())); }

//@ end
#[verifier::external_body]
fn m_cons3(n: Name, fields: Vec<Code>) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (fields@.len() == 3 && all_ok(fields@, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_cons(n, fields@, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Construct(n, _, fields) > 4
//@ closure 0
//@ params fn c_cons4(n: Name, fields: &Vec<Code>, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule fields [ $i:any ] ( env ) ==> vx_run ( & fields [ $i ] , env )
    requires old(env).wf(), fields@.len() == 4 && all_ok(fields@, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_cons(n, fields@, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof {
        reveal_with_fuel(run_list, 6);
        assert(forall|s: Seq<Value>| s.len() == 0 ==> #[trigger] svals(s) =~= Seq::empty());
        assert(forall|s: Seq<Value>| s.len() == 1 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])));
        assert(forall|s: Seq<Value>| s.len() == 2 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])));
        assert(forall|s: Seq<Value>| s.len() == 3 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])));
        assert(forall|s: Seq<Value>| s.len() == 4 ==> #[trigger] svals(s) =~= Seq::empty().push(sval(s[0])).push(sval(s[1])).push(sval(s[2])).push(sval(s[3])));
    }
    proof { assert(fields@[0].ok(old(env).frame())); }
    proof { assert(fields@[1].ok(old(env).frame())); }
    proof { assert(fields@[2].ok(old(env).frame())); }
    proof { assert(fields@[3].ok(old(env).frame())); }

//@ end
#[verifier::external_body]
fn m_cons4(n: Name, fields: Vec<Code>) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (fields@.len() == 4 && all_ok(fields@, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_cons(n, fields@, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Construct(n, _, fields) > _
//@ closure 0
//@ params fn c_consn(n: Name, fields: &Vec<Code>, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), all_ok(fields@, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_cons(n, fields@, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ loop 0
    invariant
        vx_it0.seq().len() == fields@.len(),
        forall|k: int| 0 <= k < fields@.len() ==> *#[trigger] vx_it0.seq()[k] == fields@[k],
        env.wf(), env.same(*old(env)), all_ok(fields@, env.frame()),
        run_list(fields@, env.frame(), vx_it0.index() as nat) == SList::Vals(svals(field_values@)),
//@ loophead 0
    proof {
        assert(fields@[vx_it0.index() as int].ok(env.frame()));
        if fields@[vx_it0.index() as int].run(env.frame()) is Trap { run_list_trap(fields@, env.frame(), (vx_it0.index() + 1) as nat, fields@.len()); }
    }
    let ghost f0 = field_values@;
//@ looptail 0
    proof { assert(svals(field_values@) =~= svals(f0).push(sval(field_values@.last()))); }
//@ after let mut field_values = Vec :: with_capacity ( fields . len ( ) )
    proof { assert(svals(field_values@) =~= Seq::empty()); }
//@ end
#[verifier::external_body]
fn m_consn(n: Name, fields: Vec<Code>) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (all_ok(fields@, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_cons(n, fields@, fr),
{ unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Let(n, v, r)
//@ closure 0
//@ params fn c_let(v: &Code, r: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
    requires old(env).wf(), k_let_ok(*v, *r, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_let(*v, *r, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ before env . add ( v )
    let ghost e0 = *env;
//@ after env . add ( v )
    proof { frame_push(e0, *env, v); }
//@ after env . remove ( )
    proof { assert(env.names@ =~= old(env).names@); }

//@ end
#[verifier::external_body]
fn m_let(v: Code, r: Code) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == (k_let_ok(v, r, fr)),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_let(v, r, fr),
{ unimplemented!() }

proof fn frame_pushes(a: CompactEnv, b: CompactEnv, vs: Seq<Value>)
    requires a.wf(), b.names@ == a.names@ + vs, b.frame_start == a.frame_start,
    ensures b.wf(), b.frame() == a.frame() + svals(vs),
{
    assert(b.frame() =~= a.frame() + svals(vs));
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Match(x, branches)
//@ closure 1
//@ params fn c_match(x: &Code, branches: &Vec<(Branch, Code)>, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ rule for ( br , body ) in $i:ident ( $x:rest ) ==> for vx_q in $i ( branches . iter ( ) )
//@ rule panic ! ( $x:rest ) ==> vx_panic ( )
    requires old(env).wf(), k_match_ok(*x, branches@, old(env).frame()),
    ensures final(env).same(*old(env)), sres(res) == k_match(*x, branches@, old(env).frame()),
//@ attr
#[verifier::spinoff_prover]
//@ loop 0
    invariant
        vx_it0.seq().len() == branches@.len(),
        forall|k: int| 0 <= k < branches@.len() ==> *#[trigger] vx_it0.seq()[k] == branches@[k],
        env.wf(), env.same(*old(env)), old(env).wf(),
        k_match_ok(*x, branches@, old(env).frame()),
        x.run(old(env).frame()) == SRes::Val(SVal::Comp(tagged.stag(), tagged.sfields())), tag == tagged.stag(),
        find_branch(bspec(branches@), tag, 0) == find_branch(bspec(branches@), tag, vx_it0.index() as nat),
//@ loophead 0
    let br = &vx_q.0;
    let body = &vx_q.1;
    proof {
        assert(bspec(branches@)[vx_it0.index() as int] == branches@[vx_it0.index() as int].0);
        find_branch_step(bspec(branches@), tag, vx_it0.index() as nat);
    }
    let ghost e0 = *env;
//@ loop 1
    invariant
        vx_it1.seq().len() == tagged.fseq().len(),
        forall|k: int| 0 <= k < tagged.fseq().len() ==> *#[trigger] vx_it1.seq()[k] == tagged.fseq()[k],
        e0.wf(), env.wf(), env.names@.len() == e0.names@.len() + vx_it1.index(), env.frame_start == e0.frame_start,
        env.names@.take(e0.names@.len() as int) == e0.names@,
        svals(tagged.fseq()) == tagged.sfields(),
        env.frame() =~= e0.frame() + tagged.sfields().take(vx_it1.index() as int),
//@ loophead 1
    let ghost e1 = *env;
//@ looptail 1
    proof {
        frame_push(e1, *env, env.names@.last());
        assert(env.names@.take(e0.names@.len() as int) =~= e1.names@.take(e0.names@.len() as int));
        assert(sval(tagged.fseq()[vx_it1.index() as int]) == tagged.sfields()[vx_it1.index() as int]);
        assert(tagged.sfields().take(vx_it1.index() + 1) =~= tagged.sfields().take(vx_it1.index() as int).push(tagged.sfields()[vx_it1.index() as int]));
    }
//@ before let res = body ( env )
    proof {
        assert(tagged.sfields().take(tagged.sfields().len() as int) =~= tagged.sfields());
        assert(bspec(branches@)[vx_it0.index() as int].ctor == tag);
        assert(env.frame() =~= old(env).frame() + tagged.sfields());
    }
//@ loop 2
    invariant
        vx_it2.seq().len() == tagged.fseq().len(),
        env.names@.len() == e0.names@.len() + tagged.fseq().len() - vx_it2.index(), env.frame_start == e0.frame_start,
        env.names@.take(e0.names@.len() as int) == e0.names@,
//@ loophead 2
    let ghost e1 = *env;
//@ looptail 2
    proof { assert(env.names@.take(e0.names@.len() as int) =~= e1.names@.take(e0.names@.len() as int)); }
//@ before return res
    proof { assert(env.names@.take(e0.names@.len() as int) =~= env.names@); }
//@ end
spec fn bspec(bs: Seq<(Branch, Code)>) -> Seq<Branch> { bs.map_values(|b: (Branch, Code)| b.0) }
#[verifier::external_body]
fn m_match(x: Code, branches: Vec<(Branch, Code)>) -> (code: Code)
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == k_match_ok(x, branches@, fr),
        forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_match(x, branches@, fr),
{ unimplemented!() }

// ---- function values
/// what a function value made by a lambda has captured
impl Function {
    pub uninterp spec fn caps(self) -> Seq<SVal>;
    pub uninterp spec fn body(self) -> Code;
}
#[verifier::external_body]
fn vx_fn(captured_values: Vec<Value>, body: Code) -> (r: Function)
    ensures r.caps() == svals(captured_values@), r.body() == body { unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Lambda(params, body)
//@ closure 1
//@ params fn l_cap(n: &NameLookup, env: &CompactEnv) -> (r: Value)
    requires env.wf(), n.0 < env.frame().len(),
    ensures sval(r) == env.frame()[n.0 as int],
//@ end
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::LetRec(n, _, v, r)
//@ closure 1
//@ params fn l_cap_rec(n: &NameLookup, env: &CompactEnv) -> (r: Value)
    requires env.wf(), n.0 < env.frame().len(),
    ensures sval(r) == env.frame()[n.0 as int],
//@ end
/// `captures.iter().map(|n| env.lookup(*n)).collect::<Vec<_>>().into()`
fn vx_capture(captures: &Vec<NameLookup>, env: &CompactEnv) -> (r: Vec<Value>)
    requires env.wf(), caps_ok(captures@, env.frame()),
    ensures svals(r@) == caps_of(captures@, env.frame()),
{
    let mut out: Vec<Value> = Vec::new();
    let mut i: usize = 0;
    while i < captures.len()
        invariant env.wf(), caps_ok(captures@, env.frame()), 0 <= i <= captures@.len(),
            svals(out@) =~= caps_of(captures@.take(i as int), env.frame()),
        decreases captures@.len() - i,
    {
        let v = l_cap(&captures[i], env);
        proof {
            assert(captures@.take(i + 1) =~= captures@.take(i as int).push(captures@[i as int]));
            assert(svals(out@.push(v)) =~= svals(out@).push(sval(v)));
            assert(caps_of(captures@.take(i + 1), env.frame()) =~= caps_of(captures@.take(i as int), env.frame()).push(env.frame()[captures@[i as int].0 as int]));
        }
        out.push(v);
        i = i + 1;
    }
    proof { assert(captures@.take(i as int) =~= captures@); }
    out
}
fn vx_capture_rec(captures: &Vec<NameLookup>, env: &CompactEnv) -> (r: Vec<Value>)
    requires env.wf(), caps_ok(captures@, env.frame()),
    ensures svals(r@) == caps_of(captures@, env.frame()),
{
    let mut out: Vec<Value> = Vec::new();
    let mut i: usize = 0;
    while i < captures.len()
        invariant env.wf(), caps_ok(captures@, env.frame()), 0 <= i <= captures@.len(),
            svals(out@) =~= caps_of(captures@.take(i as int), env.frame()),
        decreases captures@.len() - i,
    {
        let v = l_cap_rec(&captures[i], env);
        proof {
            assert(captures@.take(i + 1) =~= captures@.take(i as int).push(captures@[i as int]));
            assert(svals(out@.push(v)) =~= svals(out@).push(sval(v)));
            assert(caps_of(captures@.take(i + 1), env.frame()) =~= caps_of(captures@.take(i as int), env.frame()).push(env.frame()[captures@[i as int].0 as int]));
        }
        out.push(v);
        i = i + 1;
    }
    proof { assert(captures@.take(i as int) =~= captures@); }
    out
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Lambda(params, body)
//@ closure 2
//@ params fn c_lambda_call(captured_values: &Vec<Value>, body: &Code, env: &mut CompactEnv, args: &Vec<Value>) -> (res: Result<Value, Trap>)
//@ rule for $p in $i:ident ( args ) ==> for $p in $i ( args . iter ( ) )
    requires old(env).wf(), body.ok(svals(captured_values@) + svals(args@)),
    ensures final(env).same(*old(env)), sres(res) == body.run(svals(captured_values@) + svals(args@)),
//@ loop 0
    invariant
        vx_it0.seq().len() == captured_values@.len(),
        forall|k: int| 0 <= k < captured_values@.len() ==> *#[trigger] vx_it0.seq()[k] == captured_values@[k],
        env.names@.len() == old(env).names@.len() + vx_it0.index(), env.frame_start == old(env).names@.len(),
        env.names@.take(old(env).names@.len() as int) == old(env).names@,
        env.frame() =~= svals(captured_values@).take(vx_it0.index() as int),
//@ loop 1
    invariant
        vx_it1.seq().len() == args@.len(),
        forall|k: int| 0 <= k < args@.len() ==> *#[trigger] vx_it1.seq()[k] == args@[k],
        env.names@.len() == old(env).names@.len() + captured_values@.len() + vx_it1.index(), env.frame_start == old(env).names@.len(),
        env.names@.take(old(env).names@.len() as int) == old(env).names@,
        env.frame() =~= svals(captured_values@) + svals(args@).take(vx_it1.index() as int),
//@ loophead 0
    let ghost e0 = *env;
//@ looptail 0
    proof {
        frame_push(e0, *env, env.names@.last());
        assert(env.names@.take(old(env).names@.len() as int) =~= e0.names@.take(old(env).names@.len() as int));
    }
//@ loophead 1
    let ghost e0 = *env;
//@ looptail 1
    proof {
        frame_push(e0, *env, env.names@.last());
        assert(env.names@.take(old(env).names@.len() as int) =~= e0.names@.take(old(env).names@.len() as int));
    }
//@ before let res = body ( env )
    proof { assert(env.frame() =~= svals(captured_values@) + svals(args@)); }
//@ loop 2
    invariant
        vx_it2.seq().len() == args@.len(),
        env.names@.len() == old(env).names@.len() + captured_values@.len() + args@.len() - vx_it2.index(),
        env.names@.take(old(env).names@.len() as int) == old(env).names@,
//@ loophead 2
    let ghost e0 = *env;
//@ looptail 2
    proof { assert(env.names@.take(old(env).names@.len() as int) =~= e0.names@.take(old(env).names@.len() as int)); }
//@ loop 3
    invariant
        vx_it3.seq().len() == captured_values@.len(),
        env.names@.len() == old(env).names@.len() + captured_values@.len() - vx_it3.index(),
        env.names@.take(old(env).names@.len() as int) == old(env).names@,
//@ loophead 3
    let ghost e0 = *env;
//@ looptail 3
    proof { assert(env.names@.take(old(env).names@.len() as int) =~= e0.names@.take(old(env).names@.len() as int)); }
//@ before env . pop_frame ( prev_frame )
    proof { assert(env.names@.take(old(env).names@.len() as int) =~= env.names@); }
//@ end
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Lambda(params, body)
//@ closure 0
//@ params fn c_lambda(captures: &Vec<NameLookup>, body: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ lift # 2 => vx_fn(captured_values, body)
//@ rule Function ( Rc :: new ( $x:rest ) ) ==> $x
//@ rule captures . iter ( ) . map ( $x:any ) . collect :: < Vec < _ >> ( ) . into ( ) ==> vx_capture ( captures , env )
    requires old(env).wf(), caps_ok(captures@, old(env).frame()),
    ensures final(env).same(*old(env)), res is Ok, sval(res->Ok_0) is Fn,
        sval(res->Ok_0)->Fn_0.caps() == caps_of(captures@, old(env).frame()), sval(res->Ok_0)->Fn_0.body() == *body,
//@ end
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::LetRec(n, _, v, r)
//@ closure 3
//@ params fn c_rec_call(captured_values: &Vec<Value>, body: &Code, vx_self: Function, env: &mut CompactEnv, args: &Vec<Value>) -> (res: Result<Value, Trap>)
//@ rule for $p in $i:ident ( args ) ==> for $p in $i ( args . iter ( ) )
//@ rule Function ( this . upgrade ( ) . unwrap ( ) ) ==> vx_self
    requires old(env).wf(), body.ok((svals(captured_values@) + svals(args@)).push(SVal::Fn(vx_self))),
    ensures final(env).same(*old(env)), sres(res) == body.run((svals(captured_values@) + svals(args@)).push(SVal::Fn(vx_self))),
//@ loop 0
    invariant
        vx_it0.seq().len() == captured_values@.len(),
        forall|k: int| 0 <= k < captured_values@.len() ==> *#[trigger] vx_it0.seq()[k] == captured_values@[k],
        env.names@.len() == old(env).names@.len() + vx_it0.index(), env.frame_start == old(env).names@.len(),
        env.names@.take(old(env).names@.len() as int) == old(env).names@,
        env.frame() =~= svals(captured_values@).take(vx_it0.index() as int),
//@ loop 1
    invariant
        vx_it1.seq().len() == args@.len(),
        forall|k: int| 0 <= k < args@.len() ==> *#[trigger] vx_it1.seq()[k] == args@[k],
        env.names@.len() == old(env).names@.len() + captured_values@.len() + vx_it1.index(), env.frame_start == old(env).names@.len(),
        env.names@.take(old(env).names@.len() as int) == old(env).names@,
        env.frame() =~= svals(captured_values@) + svals(args@).take(vx_it1.index() as int),
//@ loophead 0
    let ghost e0 = *env;
//@ looptail 0
    proof {
        frame_push(e0, *env, env.names@.last());
        assert(env.names@.take(old(env).names@.len() as int) =~= e0.names@.take(old(env).names@.len() as int));
    }
//@ loophead 1
    let ghost e0 = *env;
//@ looptail 1
    proof {
        frame_push(e0, *env, env.names@.last());
        assert(env.names@.take(old(env).names@.len() as int) =~= e0.names@.take(old(env).names@.len() as int));
    }
//@ before env . add ( this )
    proof { assert(env.frame() =~= svals(captured_values@) + svals(args@)); }
    let ghost e1 = *env;
//@ after env . add ( this )
    proof { frame_push(e1, *env, this); }
//@ after let res = body ( env )
    proof { assert(env.names@.drop_last() =~= e1.names@); }
//@ loop 2
    invariant
        vx_it2.seq().len() == args@.len(),
        env.names@.len() == old(env).names@.len() + captured_values@.len() + args@.len() - vx_it2.index(),
        env.names@.take(old(env).names@.len() as int) == old(env).names@,
//@ loophead 2
    let ghost e0 = *env;
//@ looptail 2
    proof { assert(env.names@.take(old(env).names@.len() as int) =~= e0.names@.take(old(env).names@.len() as int)); }
//@ loop 3
    invariant
        vx_it3.seq().len() == captured_values@.len(),
        env.names@.len() == old(env).names@.len() + captured_values@.len() - vx_it3.index(),
        env.names@.take(old(env).names@.len() as int) == old(env).names@,
//@ loophead 3
    let ghost e0 = *env;
//@ looptail 3
    proof { assert(env.names@.take(old(env).names@.len() as int) =~= e0.names@.take(old(env).names@.len() as int)); }
//@ before env . pop_frame ( prev_frame )
    proof { assert(env.names@.take(old(env).names@.len() as int) =~= env.names@); }
//@ end
impl Function { pub uninterp spec fn knows_itself(self) -> bool; }
#[verifier::external_body]
fn vx_rec_fn(captured_values: Vec<Value>, body: Code) -> (r: Function)
    ensures r.caps() == svals(captured_values@), r.body() == body, r.knows_itself() { unimplemented!() }
spec fn rec_made(f: Function, caps: Seq<SVal>, body: Code) -> bool { f.caps() == caps && f.body() == body && f.knows_itself() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::LetRec(n, _, v, r)
//@ closure 0
//@ params fn c_letrec(captures: &Vec<NameLookup>, body: &Code, rest: &Code, env: &mut CompactEnv) -> (res: Result<Value, Trap>)
//@ lift # 2 => vx_rec_fn(captured_values, body)
//@ rule Rc :: new_cyclic ( $x:rest ) ==> $x
//@ rule Function ( f ) ==> f
//@ rule captures . iter ( ) . map ( $x:any ) . collect :: < Vec < _ >> ( ) . into ( ) ==> vx_capture_rec ( captures , env )
    requires old(env).wf(), caps_ok(captures@, old(env).frame()),
        forall|f: Function| #[trigger] rec_made(f, caps_of(captures@, old(env).frame()), *body) ==> rest.ok(old(env).frame().push(SVal::Fn(f))),
    ensures final(env).same(*old(env)),
        exists|f: Function| #[trigger] rec_made(f, caps_of(captures@, old(env).frame()), *body) && sres(res) == rest.run(old(env).frame().push(SVal::Fn(f))),
//@ before env . add ( Value :: Fn ( Function ( f ) ) )
    let ghost e0 = *env;
    let ghost gf = f;
    proof { assert(rec_made(gf, caps_of(captures@, old(env).frame()), body)); }
//@ after env . add ( Value :: Fn ( Function ( f ) ) )
    proof { frame_push(e0, *env, env.names@.last()); assert(sval(env.names@.last()) == SVal::Fn(gf)); }
//@ after env . remove ( )
    proof { assert(env.names@ =~= old(env).names@); }
//@ end

// ---- where names are at run time
spec fn ps_names(ps: Vec<LambdaParam>) -> Seq<Name> { param_names(ps@) }
pub ghost struct Cx { pub stack: Seq<Name>, pub known: SEnv }
impl Cx {
    spec fn env(self, fr: Seq<SVal>) -> SEnv { bind_all(self.known, self.stack, fr, self.stack.len()) }
    spec fn wf(self) -> bool { self.stack.no_duplicates() && forall|i: int| 0 <= i < self.stack.len() ==> !self.known.contains_key(#[trigger] self.stack[i]) }
    spec fn names(self) -> Set<Name> { self.stack.to_set().union(self.known.dom()) }
    spec fn push(self, n: Name) -> Cx { Cx { stack: self.stack.push(n), known: self.known } }
    spec fn append(self, ns: Seq<Name>) -> Cx { Cx { stack: self.stack + ns, known: self.known } }
}
proof fn bind_prefix(env: SEnv, names: Seq<Name>, vals: Seq<SVal>, more: Seq<Name>, mv: Seq<SVal>, n: nat)
    requires n <= names.len(), names.len() == vals.len(),
    ensures bind_all(env, names + more, vals + mv, n) == bind_all(env, names, vals, n),
    decreases n,
{
    if n > 0 {
        bind_prefix(env, names, vals, more, mv, (n - 1) as nat);
        assert((names + more)[n - 1] == names[n - 1]);
        assert((vals + mv)[n - 1] == vals[n - 1]);
    }
}
proof fn bind_append(env: SEnv, names: Seq<Name>, vals: Seq<SVal>, more: Seq<Name>, mv: Seq<SVal>, k: nat)
    requires k <= more.len(), more.len() == mv.len(), names.len() == vals.len(),
    ensures bind_all(env, names + more, vals + mv, names.len() + k) == bind_all(bind_all(env, names, vals, names.len()), more, mv, k),
    decreases k,
{
    if k == 0 { bind_prefix(env, names, vals, more, mv, names.len()); } else {
        bind_append(env, names, vals, more, mv, (k - 1) as nat);
        assert((names + more)[names.len() + k - 1] == more[k - 1]);
        assert((vals + mv)[names.len() + k - 1] == mv[k - 1]);
    }
}
proof fn env_push(cx: Cx, fr: Seq<SVal>, n: Name, v: SVal)
    requires fr.len() == cx.stack.len(),
    ensures cx.push(n).env(fr.push(v)) == cx.env(fr).insert(n, v),
{
    assert(cx.stack.push(n) =~= cx.stack + seq![n]);
    assert(fr.push(v) =~= fr + seq![v]);
    bind_append(cx.known, cx.stack, fr, seq![n], seq![v], 1);
    reveal_with_fuel(bind_all, 2);
    assert(bind_all(cx.env(fr), seq![n], seq![v], 1) == cx.env(fr).insert(n, v));
}
proof fn env_append(cx: Cx, fr: Seq<SVal>, ns: Seq<Name>, vs: Seq<SVal>)
    requires fr.len() == cx.stack.len(), ns.len() == vs.len(),
    ensures cx.append(ns).env(fr + vs) == bind_all(cx.env(fr), ns, vs, ns.len()),
{
    bind_append(cx.known, cx.stack, fr, ns, vs, ns.len());
}
proof fn bind_at(env: SEnv, names: Seq<Name>, vals: Seq<SVal>, n: nat, x: Name)
    requires n <= names.len() == vals.len(), names.no_duplicates(),
    ensures forall|i: int| 0 <= i < n ==> bind_all(env, names, vals, n).contains_key(#[trigger] names[i]) && bind_all(env, names, vals, n)[names[i]] == vals[i],
        !names.take(n as int).contains(x) ==> bind_all(env, names, vals, n).contains_key(x) == env.contains_key(x) && bind_all(env, names, vals, n)[x] == env[x],
    decreases n,
{
    if n > 0 {
        bind_at(env, names, vals, (n - 1) as nat, x);
        assert(names.take(n as int) =~= names.take(n - 1).push(names[n - 1]));
        assert(names.take(n as int)[n - 1] == names[n - 1]);
        if names.take(n - 1).contains(x) {
            let i = names.take(n - 1).index_of(x);
            assert(names.take(n as int)[i] == x);
        }
        assert forall|i: int| 0 <= i < n implies bind_all(env, names, vals, n).contains_key(#[trigger] names[i]) && bind_all(env, names, vals, n)[names[i]] == vals[i] by {
            if i < n - 1 { assert(names[i] != names[n - 1]); }
        }
    }
}
proof fn env_at(cx: Cx, fr: Seq<SVal>)
    requires cx.wf(), fr.len() == cx.stack.len(),
    ensures forall|i: int| 0 <= i < fr.len() ==> cx.env(fr).contains_key(#[trigger] cx.stack[i]) && cx.env(fr)[cx.stack[i]] == fr[i],
        forall|x: Name| #[trigger] cx.known.contains_key(x) ==> cx.env(fr).contains_key(x) && cx.env(fr)[x] == cx.known[x],
        cx.env(fr).dom() == cx.names(),
{
    assert(cx.stack.take(cx.stack.len() as int) =~= cx.stack);
    if cx.stack.len() > 0 { bind_at(cx.known, cx.stack, fr, cx.stack.len(), cx.stack[0]); }
    assert forall|x: Name| #[trigger] cx.known.contains_key(x) implies cx.env(fr).contains_key(x) && cx.env(fr)[x] == cx.known[x] by {
        bind_at(cx.known, cx.stack, fr, cx.stack.len(), x);
    }
    bind_dom(cx.known, cx.stack, fr, cx.stack.len());
    assert(cx.env(fr).dom() =~= cx.names());
}

//@ type ticc-eval/src/lambda.rs ResolvedName
//@ rule Rc < HMap < Name , Value >> ==> Known
//@ type ticc-eval/src/lambda.rs EnvResolver
impl EnvResolver {
    spec fn cx(self) -> Cx { Cx { stack: self.stack@, known: self.known_values@ } }
    spec fn wf(self) -> bool {
        &&& self.cx().wf()
        &&& self.names@.dom() == self.stack@.to_set()
        &&& forall|i: int| 0 <= i < self.stack@.len() ==> self.names@[#[trigger] self.stack@[i]] == i
    }
//@ fn ticc-eval/src/lambda.rs EnvResolver::from_other
//@ ret res
//@ rule names : Default :: default ( ) ==> names : HMap :: new ( )
//@ rule stack : Default :: default ( ) ==> stack : Vec :: new ( )
    ensures res.wf(), res.cx() == (Cx { stack: Seq::empty(), known: r.known_values@ }),
//@ head
    proof { assert(Seq::<Name>::empty().to_set() =~= Set::<Name>::empty()); assert(Map::<Name, usize>::empty().dom() =~= Set::<Name>::empty()); }
//@ end
//@ fn ticc-eval/src/lambda.rs EnvResolver::lookup
//@ ret res
//@ rule self . known_values . get ( & name ) . cloned ( ) ==> self . known_values . vx_get ( name )
//@ rule self . names [ & name ] ==> vx_index ( & self . names , name )
    requires old(self).wf(), old(self).cx().names().contains(name),
    ensures *final(self) == *old(self), match res {
        ResolvedName::Value(v) => old(self).cx().known.contains_key(name) && sval(v) == old(self).cx().known[name],
        ResolvedName::Name(l) => !old(self).cx().known.contains_key(name) && l.0 < old(self).cx().stack.len() && old(self).cx().stack[l.0 as int] == name,
    },
//@ head
    proof {
        if !self.cx().known.contains_key(name) {
            let i = self.stack@.index_of(name);
            assert(self.stack@[i] == name);
        }
    }
//@ end
//@ fn ticc-eval/src/lambda.rs EnvResolver::add
    requires old(self).wf(), !old(self).cx().names().contains(name),
    ensures final(self).wf(), final(self).cx() == old(self).cx().push(name),
//@ attr
#[verifier::spinoff_prover]
//@ after self . stack . push ( name )
    proof {
        let o = old(self).stack@;
        assert(self.stack@ == o.push(name));
        assert(o.push(name).to_set() =~= o.to_set().insert(name)) by {
            assert forall|x: Name| o.push(name).contains(x) <==> o.contains(x) || x == name by {
                if o.contains(x) { assert(o.push(name)[o.index_of(x)] == x); }
                assert(o.push(name)[o.len() as int] == name);
            }
        }
        assert(self.names@.dom() =~= self.stack@.to_set());
        assert forall|i: int| 0 <= i < self.stack@.len() implies self.names@[#[trigger] self.stack@[i]] == i by {
            if i < o.len() { assert(o.contains(o[i])); assert(self.stack@[i] == o[i]); }
        }
        assert(self.stack@.no_duplicates());
        assert forall|i: int| 0 <= i < self.stack@.len() implies !self.known_values@.contains_key(#[trigger] self.stack@[i]) by {
            if i < o.len() { assert(self.stack@[i] == o[i]); }
        }
    }
//@ end
//@ fn ticc-eval/src/lambda.rs EnvResolver::remove
//@ rule assert_eq ! ( $a:any , Some ( name ) ) ==> vx_assert_is ( $a , name )
    requires old(self).wf(), old(self).stack@.len() > 0, old(self).stack@.last() == name,
    ensures final(self).wf(), final(self).cx() == (Cx { stack: old(self).stack@.drop_last(), known: old(self).cx().known }),
//@ after self . names . remove ( & name )
    proof {
        let o = old(self).stack@;
        let p = o.drop_last();
        assert(o =~= p.push(name));
        assert(p.to_set() =~= o.to_set().remove(name)) by {
            assert forall|x: Name| p.contains(x) <==> o.contains(x) && x != name by {
                if p.contains(x) { let i = p.index_of(x); assert(o[i] == x); }
                if o.contains(x) && x != name { let i = o.index_of(x); assert(p[i] == x); }
            }
        }
        assert(self.names@.dom() =~= self.stack@.to_set());
        assert forall|i: int| 0 <= i < self.stack@.len() implies self.names@[#[trigger] self.stack@[i]] == i by { assert(self.stack@[i] == o[i]); assert(o[i] != o[o.len() - 1]); }
        assert forall|i: int| 0 <= i < self.stack@.len() implies !self.known_values@.contains_key(#[trigger] self.stack@[i]) by { assert(self.stack@[i] == o[i]); }
    }
//@ end
}

// ---- what the compiler assumes about names: a binder is not bound again where it is in scope, and
// names that an earlier part uses are not bound in a later part (every binder of the intermediate
// code is made fresh)
spec fn bn(e: Expr) -> Set<Name> decreases e, 0nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => Set::empty(),
        Expr::Call(f, args) => bn(*f).union(bn_list(args, args@.len())),
        Expr::If(c, t, e) => bn(*c).union(bn(*t)).union(bn(*e)),
        Expr::Op(a, _, b) => bn(*a).union(bn(*b)),
        Expr::Intrinsic(_, xs) => bn_list(xs, xs@.len()),
        Expr::Construct(_, _, xs) => bn_list(xs, xs@.len()),
        Expr::Lambda(ps, b) => bn(*b).union(param_names(ps@).to_set()),
        Expr::Match(d, bs) => bn(*d).union(bn_branches(bs, bs@.len())),
        Expr::Let(n, v, b) => bn(*v).union(bn(*b)).insert(n),
        Expr::LetRec(n, _, v, b) => bn(*v).union(bn(*b)).insert(n),
        Expr::Pi(_, b) => bn(*b),
        Expr::PiApply(b, _) => bn(*b),
    }
}
spec fn bn_list(xs: Vec<Expr>, n: nat) -> Set<Name> decreases xs, n {
    if n == 0 || n > xs@.len() { Set::empty() } else { bn_list(xs, (n - 1) as nat).union(bn(xs@[n - 1])) }
}
spec fn bn_branches(bs: Vec<Branch>, n: nat) -> Set<Name> decreases bs, n {
    if n == 0 || n > bs@.len() { Set::empty() } else {
        bn_branches(bs, (n - 1) as nat).union(bn(bs@[n - 1].value)).union(bs@[n - 1].bindings@.to_set())
    }
}
spec fn apart(a: Set<Name>, b: Set<Name>) -> bool { forall|n: Name| #![trigger a.contains(n)] #![trigger b.contains(n)] !(a.contains(n) && b.contains(n)) }
spec fn neat(e: Expr) -> bool decreases e, 0nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) | Expr::Name(_) => true,
        Expr::Call(f, args) => neat(*f) && neat_list(args, args@.len()) && apart(bn_list(args, args@.len()), fv(*f)),
        Expr::If(c, t, e) => neat(*c) && neat(*t) && neat(*e) && apart(bn(*t), fv(*c)) && apart(bn(*e), fv(*c)) && apart(bn(*e), fv(*t)),
        Expr::Op(a, _, b) => neat(*a) && neat(*b) && apart(bn(*b), fv(*a)),
        Expr::Intrinsic(i, xs) => neat_list(xs, xs@.len()) && xs@.len() == intrinsic_arity(i),
        Expr::Construct(_, _, xs) => neat_list(xs, xs@.len()),
        Expr::Lambda(ps, b) => neat(*b) && apart(bn(*b), param_names(ps@).to_set()) && param_names(ps@).no_duplicates(),
        Expr::Match(d, bs) => neat(*d) && neat_branches(bs, bs@.len()) && apart(bn_branches(bs, bs@.len()), fv(*d)),
        Expr::Let(n, v, b) => neat(*v) && neat(*b) && apart(bn(*b), fv(*v)) && !bn(*b).contains(n) && !fv(*v).contains(n),
        Expr::LetRec(n, _, v, b) => neat(*v) && neat(*b) && apart(bn(*b), fv(*v)) && !bn(*b).contains(n) && !bn(*v).contains(n)
            && under_pis(*v) is Lambda,
        Expr::Pi(_, b) => neat(*b),
        Expr::PiApply(b, _) => neat(*b),
    }
}
spec fn neat_list(xs: Vec<Expr>, n: nat) -> bool decreases xs, n {
    if n == 0 || n > xs@.len() { true } else {
        neat_list(xs, (n - 1) as nat) && neat(xs@[n - 1]) && apart(bn(xs@[n - 1]), fv_list(xs, (n - 1) as nat))
    }
}
spec fn neat_branches(bs: Vec<Branch>, n: nat) -> bool decreases bs, n {
    if n == 0 || n > bs@.len() { true } else {
        let b = bs@[n - 1];
        neat_branches(bs, (n - 1) as nat) && neat(b.value) && b.bindings@.no_duplicates()
            && apart(bn(b.value), b.bindings@.to_set())
            && apart(bn(b.value), fv_branches(bs, (n - 1) as nat)) && apart(b.bindings@.to_set(), fv_branches(bs, (n - 1) as nat))
    }
}
proof fn neat_list_at(xs: Vec<Expr>, n: nat, k: int)
    requires neat_list(xs, n), 0 <= k < n <= xs@.len(),
    ensures neat(xs@[k]), apart(bn(xs@[k]), fv_list(xs, k as nat)), bn(xs@[k]).subset_of(bn_list(xs, n)), fv(xs@[k]).subset_of(fv_list(xs, n)),
    decreases n,
{
    if k < n - 1 { neat_list_at(xs, (n - 1) as nat, k); }
}
proof fn neat_branch_at(bs: Vec<Branch>, n: nat, k: int)
    requires neat_branches(bs, n), 0 <= k < n <= bs@.len(),
    ensures neat(bs@[k].value), bs@[k].bindings@.no_duplicates(), apart(bn(bs@[k].value), bs@[k].bindings@.to_set()),
        apart(bn(bs@[k].value), fv_branches(bs, k as nat)), apart(bs@[k].bindings@.to_set(), fv_branches(bs, k as nat)),
        bn(bs@[k].value).subset_of(bn_branches(bs, n)), bs@[k].bindings@.to_set().subset_of(bn_branches(bs, n)),
        fv(bs@[k].value).difference(bs@[k].bindings@.to_set()).subset_of(fv_branches(bs, n)),
    decreases n,
{
    if k < n - 1 { neat_branch_at(bs, (n - 1) as nat, k); }
}
proof fn neat_pis(e: Expr)
    ensures neat(under_pis(e)) == neat(e), bn(under_pis(e)) == bn(e),
    decreases e,
{
    match e { Expr::Pi(_, b) => neat_pis(*b), _ => {} }
}
proof fn take_next(s: Seq<Name>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i]),
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    let a = s.take(i + 1);
    let b = s.take(i);
    assert forall|x: Name| #[trigger] a.to_set().contains(x) <==> b.to_set().insert(s[i]).contains(x) by {
        if b.contains(x) { let k = b.index_of(x); assert(a[k] == x); assert(a.contains(x)); }
        if a.contains(x) && x != s[i] { let k = a.index_of(x); assert(b[k] == x); assert(b.contains(x)); }
        assert(a[i] == s[i]);
        assert(a.contains(s[i]));
    }
    assert(a.to_set() =~= b.to_set().insert(s[i]));
}
//@ fn ticc-eval/src/lambda.rs strip_pis
//@ ret r
    ensures *r == under_pis(*expr),
    decreases *expr,
//@ end
//@ fn ticc-eval/src/lambda.rs free_names
    requires neat(*expr), apart(bn(*expr), old(result)@),
    ensures final(result)@ == old(result)@.union(fv(*expr)),
    decreases *expr,
//@ attr
#[verifier::spinoff_prover]
//@ loop 0
    invariant
        vx_it0.seq().len() == args@.len(),
        forall|k: int| 0 <= k < args@.len() ==> *#[trigger] vx_it0.seq()[k] == args@[k],
        expr is Call, *expr->Call_0 == **f, expr->Call_1 == *args, neat(*expr), apart(bn(*expr), old(result)@),
        result@ =~= old(result)@.union(fv(**f)).union(fv_list(*args, vx_it0.index() as nat)),
//@ loophead 0
    proof {
        neat_list_at(*args, args@.len(), vx_it0.index() as int);
        assert(decreases_to!(*expr => expr->Call_1));
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == args@.len(),
        forall|k: int| 0 <= k < args@.len() ==> *#[trigger] vx_it1.seq()[k] == args@[k],
        (expr is Intrinsic && expr->Intrinsic_1 == *args) || (expr is Construct && expr->Construct_2 == *args),
        neat(*expr), apart(bn(*expr), old(result)@),
        result@ =~= old(result)@.union(fv_list(*args, vx_it1.index() as nat)),
//@ loophead 1
    proof {
        neat_list_at(*args, args@.len(), vx_it1.index() as int);
        if expr is Intrinsic { assert(decreases_to!(*expr => expr->Intrinsic_1)); } else { assert(decreases_to!(*expr => expr->Construct_2)); }
    }
//@ loop 2
    invariant
        vx_it2.seq().len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> *#[trigger] vx_it2.seq()[k] == params@[k],
        expr is Lambda, expr->Lambda_0 == *params, *expr->Lambda_1 == **body,
        neat(*expr), apart(bn(*expr), old(result)@),
        result@ =~= old(result)@.union(fv(**body).difference(param_names(params@).take(vx_it2.index() as int).to_set())),
//@ loophead 2
    proof {
        let i = vx_it2.index() as int;
        take_next(param_names(params@), i);
        assert(param_names(params@)[i] == params@[i].name);
        assert(param_names(params@).to_set().contains(params@[i].name)) by { assert(param_names(params@).contains(params@[i].name)); }
    }
//@ before for p in
    proof { assert(param_names(params@).take(0).to_set() =~= Set::empty()); }
//@ after for p in
    proof { assert(param_names(params@).take(params@.len() as int) =~= param_names(params@)); }
//@ loop 3
    invariant
        vx_it3.seq().len() == br@.len(),
        forall|k: int| 0 <= k < br@.len() ==> *#[trigger] vx_it3.seq()[k] == br@[k],
        expr is Match, expr->Match_1 == *br, *expr->Match_0 == **d,
        neat(*expr), apart(bn(*expr), old(result)@),
        result@ =~= old(result)@.union(fv(**d)).union(fv_branches(*br, vx_it3.index() as nat)),
//@ loophead 3
    proof {
        neat_branch_at(*br, br@.len(), vx_it3.index() as int);
        assert(decreases_to!(*expr => expr->Match_1));
    }
    let ghost r0 = result@;
//@ loop 4
    invariant
        vx_it4.seq().len() == b.bindings@.len(),
        forall|k: int| 0 <= k < b.bindings@.len() ==> *#[trigger] vx_it4.seq()[k] == b.bindings@[k],
        apart(b.bindings@.to_set(), r0),
        result@ =~= r0.union(fv(b.value).difference(b.bindings@.take(vx_it4.index() as int).to_set())),
//@ loophead 4
    proof {
        let i = vx_it4.index() as int;
        take_next(b.bindings@, i);
        assert(b.bindings@.to_set().contains(b.bindings@[i])) by { assert(b.bindings@.contains(b.bindings@[i])); }
    }
//@ before for binding in
    proof { assert(b.bindings@.take(0).to_set() =~= Set::empty()); }
//@ after for binding in
    proof { assert(b.bindings@.take(b.bindings@.len() as int) =~= b.bindings@); }
//@ end

// ---- what compiling promises: the code does what the reference semantics says, whatever the values
// of the names it finds on the stack
spec fn comp_ok(c: Code, e: Expr, cx: Cx) -> bool {
    forall|fr: Seq<SVal>| #![trigger c.ok(fr)] #![trigger c.run(fr)] fr.len() == cx.stack.len() && scoped(cx.env(fr), e) ==> c.ok(fr) && c.run(fr) == sem(cx.env(fr), e)
}
spec fn comp_list(cs: Seq<Code>, xs: Vec<Expr>, cx: Cx) -> bool {
    cs.len() == xs@.len() && forall|k: int| 0 <= k < cs.len() ==> comp_ok(#[trigger] cs[k], xs@[k], cx)
}
spec fn fits(e: Expr, cx: Cx) -> bool { neat(e) && apart(bn(e), cx.names()) && fv(e).subset_of(cx.names()) }
spec fn fits_list(xs: Vec<Expr>, cx: Cx) -> bool { forall|k: int| 0 <= k < xs@.len() ==> fits(#[trigger] xs@[k], cx) }
proof fn list_right(cs: Seq<Code>, xs: Vec<Expr>, cx: Cx, fr: Seq<SVal>, n: nat)
    requires comp_list(cs, xs, cx), fr.len() == cx.stack.len(), n <= xs@.len(), scoped_list(cx.env(fr), xs, n),
    ensures forall|k: int| 0 <= k < n ==> (#[trigger] cs[k]).ok(fr) && cs[k].run(fr) == sem(cx.env(fr), xs@[k]),
        run_list(cs, fr, n) == sem_list(cx.env(fr), xs, n),
    decreases n,
{
    if n > 0 {
        list_right(cs, xs, cx, fr, (n - 1) as nat);
        assert(comp_ok(cs[n - 1], xs@[n - 1], cx));
        assert(cs[n - 1].ok(fr));
    }
}
fn x_bool(b: bool, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code) requires e == Expr::Bool(b), ensures comp_ok(r, e, cx) { m_bool(b) }
fn x_int(i: u64, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code) requires e == Expr::Int(i), ensures comp_ok(r, e, cx) { m_int(i) }
fn x_string(s: ByteString, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code) requires e is String, (e->String_0)@ == s@, ensures comp_ok(r, e, cx) { m_string(s) }
fn x_trap(m: String, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code) requires e is Trap, (e->Trap_0)@ == m@, ensures comp_ok(r, e, cx) { m_trap(m) }
fn x_value(v: Value, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is Name, cx.wf(), cx.known.contains_key(e->Name_0), sval(v) == cx.known[e->Name_0],
    ensures comp_ok(r, e, cx),
{
    let r = m_value(v);
    proof { assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] r.ok(fr) && r.run(fr) == sem(cx.env(fr), e) by { env_at(cx, fr); } }
    r
}
fn x_name(l: NameLookup, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is Name, cx.wf(), l.0 < cx.stack.len(), cx.stack[l.0 as int] == e->Name_0,
    ensures comp_ok(r, e, cx),
{
    let r = m_name(l);
    proof { assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] r.ok(fr) && r.run(fr) == sem(cx.env(fr), e) by {
        env_at(cx, fr);
        assert(cx.env(fr).contains_key(cx.stack[l.0 as int]));
    } }
    r
}
fn x_call(code: Code, Ghost(f): Ghost<Code>, Ghost(args): Ghost<Seq<Code>>, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is Call, comp_ok(f, *e->Call_0, cx), comp_list(args, e->Call_1, cx),
        forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == k_call_ok(f, args, fr), forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_call(f, args, fr),
    ensures comp_ok(r, e, cx),
{
    proof { assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] code.ok(fr) && code.run(fr) == sem(cx.env(fr), e) by {
        list_right(args, e->Call_1, cx, fr, args.len());
        assert(f.ok(fr));
    } }
    code
}
fn x_if(code: Code, Ghost(c): Ghost<Code>, Ghost(t): Ghost<Code>, Ghost(f): Ghost<Code>, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is If, comp_ok(c, *e->If_0, cx), comp_ok(t, *e->If_1, cx), comp_ok(f, *e->If_2, cx),
        forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == k_if_ok(c, t, f, fr), forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_if(c, t, f, fr),
    ensures comp_ok(r, e, cx),
{
    proof { assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] code.ok(fr) && code.run(fr) == sem(cx.env(fr), e) by {
        assert(c.ok(fr) && t.ok(fr) && f.ok(fr));
    } }
    code
}
fn x_op(code: Code, Ghost(a): Ghost<Code>, Ghost(b): Ghost<Code>, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is Op, comp_ok(a, *e->Op_0, cx), comp_ok(b, *e->Op_2, cx),
        forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == k_op_ok(a, b, fr), forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_op(e->Op_1, a, b, fr),
    ensures comp_ok(r, e, cx),
{
    proof { assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] code.ok(fr) && code.run(fr) == sem(cx.env(fr), e) by {
        assert(a.ok(fr) && b.ok(fr));
    } }
    code
}
fn x_intr(code: Code, Ghost(args): Ghost<Seq<Code>>, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is Intrinsic, comp_list(args, e->Intrinsic_1, cx),
        forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == k_intr_ok(e->Intrinsic_0, args, fr), forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_intr(e->Intrinsic_0, args, fr),
    ensures comp_ok(r, e, cx),
{
    proof { assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] code.ok(fr) && code.run(fr) == sem(cx.env(fr), e) by {
        list_right(args, e->Intrinsic_1, cx, fr, args.len());
        assert forall|k: int| 0 <= k < args.len() && (#[trigger] args[k]).run(fr) is Val implies arg_kind(e->Intrinsic_0, k, args[k].run(fr)->Val_0) by {
            assert(sem(cx.env(fr), e->Intrinsic_1@[k]) is Val);
        }
    } }
    code
}
fn x_cons(code: Code, Ghost(n): Ghost<Name>, Ghost(args): Ghost<Seq<Code>>, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is Construct, n == e->Construct_0, comp_list(args, e->Construct_2, cx),
        forall|fr: Seq<SVal>| all_ok(args, fr) ==> #[trigger] code.ok(fr), forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_cons(n, args, fr),
    ensures comp_ok(r, e, cx),
{
    proof { assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] code.ok(fr) && code.run(fr) == sem(cx.env(fr), e) by {
        list_right(args, e->Construct_2, cx, fr, args.len());
    } }
    code
}
fn x_let(code: Code, Ghost(v): Ghost<Code>, Ghost(b): Ghost<Code>, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is Let, comp_ok(v, *e->Let_1, cx), comp_ok(b, *e->Let_2, cx.push(e->Let_0)),
        forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == k_let_ok(v, b, fr), forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_let(v, b, fr),
    ensures comp_ok(r, e, cx),
{
    proof { assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] code.ok(fr) && code.run(fr) == sem(cx.env(fr), e) by {
        assert(v.ok(fr));
        if v.run(fr) is Val {
            env_push(cx, fr, e->Let_0, v.run(fr)->Val_0);
            assert(b.ok(fr.push(v.run(fr)->Val_0)));
        }
    } }
    code
}
spec fn branches_right(bs: Seq<(Branch, Code)>, es: Seq<Branch>, cx: Cx) -> bool {
    bs.len() == es.len() && forall|k: int| 0 <= k < bs.len() ==> (#[trigger] bs[k]).0 == es[k] && comp_ok(bs[k].1, es[k].value, cx.append(es[k].bindings@))
}
fn x_match(code: Code, Ghost(x): Ghost<Code>, Ghost(bs): Ghost<Seq<(Branch, Code)>>, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>) -> (r: Code)
    requires e is Match, comp_ok(x, *e->Match_0, cx), branches_right(bs, e->Match_1@, cx),
        forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == k_match_ok(x, bs, fr), forall|fr: Seq<SVal>| #[trigger] code.run(fr) == k_match(x, bs, fr),
    ensures comp_ok(r, e, cx),
{
    proof {
        assert(bspec(bs) =~= e->Match_1@);
        assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] code.ok(fr) && code.run(fr) == sem(cx.env(fr), e) by {
            assert(x.ok(fr));
            if x.run(fr) is Val {
                let v = x.run(fr)->Val_0;
                let i = find_branch(bspec(bs), v->Comp_0, 0);
                let b = e->Match_1@[i as int];
                assert(bs[i as int].0 == b);
                env_append(cx, fr, b.bindings@, v->Comp_1);
                assert(bs[i as int].1.ok(fr + v->Comp_1));
            }
        }
    }
    code
}

// ---- function values: the body has to do what the reference semantics does in the environment kept
spec fn lambda_right(caps: Seq<NameLookup>, body: Code, cx: Cx, ps: Vec<LambdaParam>, b: Expr) -> bool {
    forall|fr: Seq<SVal>, args: Seq<SVal>| #![trigger caps_of(caps, fr) + args]
        fr.len() == cx.stack.len() && fv(b).difference(param_names(ps@).to_set()).subset_of(cx.env(fr).dom()) && args.len() == ps@.len()
        && scoped(bind_all(lam_env(cx.env(fr), ps@, b), param_names(ps@), args, ps@.len()), b) ==>
        caps_ok(caps, fr) && body.ok(caps_of(caps, fr) + args)
        && body.run(caps_of(caps, fr) + args) == sem(bind_all(lam_env(cx.env(fr), ps@, b), param_names(ps@), args, ps@.len()), b)
}
#[verifier::external_body]
fn m_lambda(captures: Vec<NameLookup>, body: Code, Ghost(cx): Ghost<Cx>, Ghost(ps): Ghost<Vec<LambdaParam>>, Ghost(b): Ghost<Expr>) -> (code: Code)
    requires lambda_right(captures@, body, cx, ps, b),
    ensures forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == caps_ok(captures@, fr),
        forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && fv(b).difference(param_names(ps@).to_set()).subset_of(cx.env(fr).dom()) ==>
            #[trigger] code.run(fr) == SRes::Val(SVal::Fn(closure(lam_env(cx.env(fr), ps@, b), ps@, b))),
{ unimplemented!() }
spec fn rec_fn(env: SEnv, n: Name, ps: Seq<LambdaParam>, b: Expr) -> SVal { SVal::Fn(rec_closure(rec_lam_env(env, n, ps, b), n, ps, b)) }
spec fn rec_env(env: SEnv, n: Name, ps: Seq<LambdaParam>, b: Expr, args: Seq<SVal>) -> SEnv {
    bind_all(rec_lam_env(env, n, ps, b), param_names(ps), args, ps.len()).insert(n, rec_fn(env, n, ps, b))
}
spec fn letrec_right(caps: Seq<NameLookup>, body: Code, cx: Cx, n: Name, ps: Vec<LambdaParam>, b: Expr) -> bool {
    forall|fr: Seq<SVal>, args: Seq<SVal>| #![trigger caps_of(caps, fr) + args]
        fr.len() == cx.stack.len() && fv(b).difference(param_names(ps@).to_set()).remove(n).subset_of(cx.env(fr).dom()) && args.len() == ps@.len()
        && scoped(rec_env(cx.env(fr), n, ps@, b, args), b) ==>
        caps_ok(caps, fr) && body.ok((caps_of(caps, fr) + args).push(rec_fn(cx.env(fr), n, ps@, b)))
        && body.run((caps_of(caps, fr) + args).push(rec_fn(cx.env(fr), n, ps@, b))) == sem(rec_env(cx.env(fr), n, ps@, b, args), b)
}
#[verifier::external_body]
fn m_letrec(captures: Vec<NameLookup>, body: Code, rest: Code, Ghost(cx): Ghost<Cx>, Ghost(n): Ghost<Name>, Ghost(ps): Ghost<Vec<LambdaParam>>, Ghost(b): Ghost<Expr>) -> (code: Code)
    requires letrec_right(captures@, body, cx, n, ps, b),
    ensures forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && fv(b).difference(param_names(ps@).to_set()).remove(n).subset_of(cx.env(fr).dom()) ==>
            #[trigger] code.ok(fr) == (caps_ok(captures@, fr) && rest.ok(fr.push(rec_fn(cx.env(fr), n, ps@, b)))),
        forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && fv(b).difference(param_names(ps@).to_set()).remove(n).subset_of(cx.env(fr).dom()) ==>
            #[trigger] code.run(fr) == rest.run(fr.push(rec_fn(cx.env(fr), n, ps@, b))),
{ unimplemented!() }

proof fn names_push(cx: Cx, n: Name)
    ensures cx.push(n).names() == cx.names().insert(n),
{
    let a = cx.stack;
    assert forall|x: Name| #[trigger] cx.push(n).names().contains(x) <==> cx.names().insert(n).contains(x) by {
        if a.contains(x) { let i = a.index_of(x); assert(a.push(n)[i] == x); assert(a.push(n).contains(x)); }
        assert(a.push(n)[a.len() as int] == n);
        if a.push(n).contains(x) && x != n { let i = a.push(n).index_of(x); assert(a[i] == x); }
    }
    assert(cx.push(n).names() =~= cx.names().insert(n));
}
proof fn names_append(cx: Cx, ns: Seq<Name>)
    ensures cx.append(ns).names() == cx.names().union(ns.to_set()),
{
    let a = cx.stack;
    assert forall|x: Name| #[trigger] cx.append(ns).names().contains(x) <==> cx.names().union(ns.to_set()).contains(x) by {
        if a.contains(x) { let i = a.index_of(x); assert((a + ns)[i] == x); assert((a + ns).contains(x)); }
        if ns.contains(x) { let i = ns.index_of(x); assert((a + ns)[a.len() + i] == x); assert((a + ns).contains(x)); }
        if (a + ns).contains(x) { let i = (a + ns).index_of(x); if i < a.len() { assert(a[i] == x); } else { assert(ns[i - a.len()] == x); } }
    }
    assert(cx.append(ns).names() =~= cx.names().union(ns.to_set()));
}
#[verifier::external_body]
fn vx_rev(v: &Vec<Name>) -> (r: Vec<Name>) ensures r@ == v@.reverse() { unimplemented!() }
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Call(f, args)
//@ closure 4
//@ params fn l_call(e: &Expr, env: &mut EnvResolver) -> (res: Code)
    requires old(env).wf(), fits(*e, old(env).cx()),
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *e, old(env).cx()),
    decreases *e, 2nat,
//@ end
fn list_call(args: &Vec<Expr>, env: &mut EnvResolver) -> (r: Vec<Code>)
    requires old(env).wf(), fits_list(*args, old(env).cx()),
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_list(r@, *args, old(env).cx()),
    decreases *args, 3nat,
{
    let mut out: Vec<Code> = Vec::new();
    let mut i: usize = 0;
    while i < args.len()
        invariant 0 <= i <= args@.len(), out@.len() == i, env.wf(), env.cx() == old(env).cx(), fits_list(*args, env.cx()),
            forall|k: int| 0 <= k < i ==> comp_ok(#[trigger] out@[k], args@[k], env.cx()),
        decreases args@.len() - i,
    {
        let c = l_call(&args[i], env);
        out.push(c);
        i = i + 1;
    }
    out
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Construct(n, _, fields)
//@ closure 0
//@ params fn l_cons(f: &Expr, env: &mut EnvResolver) -> (res: Code)
    requires old(env).wf(), fits(*f, old(env).cx()),
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *f, old(env).cx()),
    decreases *f, 2nat,
//@ end
fn list_cons(args: &Vec<Expr>, env: &mut EnvResolver) -> (r: Vec<Code>)
    requires old(env).wf(), fits_list(*args, old(env).cx()),
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_list(r@, *args, old(env).cx()),
    decreases *args, 3nat,
{
    let mut out: Vec<Code> = Vec::new();
    let mut i: usize = 0;
    while i < args.len()
        invariant 0 <= i <= args@.len(), out@.len() == i, env.wf(), env.cx() == old(env).cx(), fits_list(*args, env.cx()),
            forall|k: int| 0 <= k < i ==> comp_ok(#[trigger] out@[k], args@[k], env.cx()),
        decreases args@.len() - i,
    {
        let c = l_cons(&args[i], env);
        out.push(c);
        i = i + 1;
    }
    out
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Match(x, branches)
//@ closure 0
//@ params fn l_match(b: Branch, env: &mut EnvResolver) -> (res: (Branch, Code))
//@ rule ( b . bindings . iter ( ) . rev ( ) ) ==> ( vx_back . iter ( ) )
    requires old(env).wf(), neat(b.value), b.bindings@.no_duplicates(), apart(bn(b.value), b.bindings@.to_set()),
        apart(bn(b.value), old(env).cx().names()), apart(b.bindings@.to_set(), old(env).cx().names()),
        fv(b.value).difference(b.bindings@.to_set()).subset_of(old(env).cx().names()),
    ensures final(env).wf(), final(env).cx() == old(env).cx(), res.0 == b, comp_ok(res.1, b.value, old(env).cx().append(b.bindings@)),
    decreases b, 2nat,
//@ attr
#[verifier::spinoff_prover]
//@ loop 0
    invariant
        vx_it0.seq().len() == b.bindings@.len(),
        forall|k: int| 0 <= k < b.bindings@.len() ==> *#[trigger] vx_it0.seq()[k] == b.bindings@[k],
        b.bindings@.no_duplicates(), apart(b.bindings@.to_set(), old(env).cx().names()),
        env.wf(), env.cx().known == old(env).cx().known, env.cx().stack =~= old(env).cx().stack + b.bindings@.take(vx_it0.index() as int),
//@ loophead 0
    proof {
        let i = vx_it0.index() as int;
        let t = b.bindings@.take(i);
        assert(env.cx() == old(env).cx().append(t));
        names_append(old(env).cx(), t);
        assert(b.bindings@.to_set().contains(b.bindings@[i])) by { assert(b.bindings@.contains(b.bindings@[i])); }
        if t.contains(b.bindings@[i]) { let k = t.index_of(b.bindings@[i]); assert(b.bindings@[k] == b.bindings@[i]); }
        assert(b.bindings@.take(i + 1) =~= t.push(b.bindings@[i]));
    }
//@ after let compiled = compile_expr ( & b . value , env )
    let vx_back = vx_rev(&b.bindings);
//@ before let compiled
    proof {
        assert(b.bindings@.take(b.bindings@.len() as int) =~= b.bindings@);
        assert(env.cx() == old(env).cx().append(b.bindings@));
        names_append(old(env).cx(), b.bindings@);
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == b.bindings@.len(), vx_back@ == b.bindings@.reverse(),
        forall|k: int| 0 <= k < vx_back@.len() ==> *#[trigger] vx_it1.seq()[k] == vx_back@[k],
        env.wf(), env.cx().known == old(env).cx().known,
        env.cx().stack =~= old(env).cx().stack + b.bindings@.take(b.bindings@.len() - vx_it1.index()),
        comp_ok(compiled, b.value, old(env).cx().append(b.bindings@)),
//@ loophead 1
    proof { assert(vx_back@[vx_it1.index() as int] == b.bindings@[b.bindings@.len() - 1 - vx_it1.index()]); }
    let ghost s0 = env.cx().stack;
//@ looptail 1
    proof { assert(s0.drop_last() =~= old(env).cx().stack + b.bindings@.take(b.bindings@.len() - vx_it1.index() - 1)); }
//@ end
spec fn sq2(a: Code, b: Code) -> Seq<Code> { seq![a, b] }
spec fn sq3(a: Code, b: Code, c: Code) -> Seq<Code> { seq![a, b, c] }
spec fn sq1(c: Code) -> Seq<Code> { seq![c] }
fn list_match(bs: &Vec<Branch>, env: &mut EnvResolver, Ghost(e): Ghost<Expr>) -> (r: Vec<(Branch, Code)>)
    requires old(env).wf(), e is Match, e->Match_1 == *bs, fits(e, old(env).cx()),
    ensures final(env).wf(), final(env).cx() == old(env).cx(), branches_right(r@, bs@, old(env).cx()),
    decreases *bs, 3nat,
{
    let mut out: Vec<(Branch, Code)> = Vec::new();
    let mut i: usize = 0;
    while i < bs.len()
        invariant 0 <= i <= bs@.len(), out@.len() == i, env.wf(), env.cx() == old(env).cx(), e is Match, e->Match_1 == *bs, fits(e, env.cx()),
            forall|k: int| 0 <= k < i ==> (#[trigger] out@[k]).0 == bs@[k] && comp_ok(out@[k].1, bs@[k].value, env.cx().append(bs@[k].bindings@)),
        decreases bs@.len() - i,
    {
        proof { neat_branch_at(*bs, bs@.len(), i as int); }
        let c = l_match(vx_clone_branch(&bs[i]), env);
        out.push(c);
        i = i + 1;
    }
    out
}
#[verifier::external_body]
fn vx_clone_branch(b: &Branch) -> (r: Branch) ensures r == *b { unimplemented!() }
proof fn fits_args(e: Expr, xs: Vec<Expr>, cx: Cx)
    requires fits(e, cx), (e is Call && xs == e->Call_1) || (e is Intrinsic && xs == e->Intrinsic_1) || (e is Construct && xs == e->Construct_2),
    ensures fits_list(xs, cx), e is Call ==> fits(*e->Call_0, cx),
{
    assert forall|k: int| 0 <= k < xs@.len() implies fits(#[trigger] xs@[k], cx) by { neat_list_at(xs, xs@.len(), k); }
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Call(f, args)
//@ params fn a_call(expr: &Expr, f: &Expr, args: &Vec<Expr>, env: &mut EnvResolver) -> (res: Code)
//@ lift 0 # 0 => x_call(m_call0(f), Ghost(f), Ghost(Seq::empty()), Ghost(env.cx()), Ghost(*expr))
//@ lift 1 # 0 => x_call(m_call1(f, arg), Ghost(f), Ghost(sq1(arg)), Ghost(env.cx()), Ghost(*expr))
//@ lift 2 # 0 => x_call(m_call2(f, arg1, arg2), Ghost(f), Ghost(sq2(arg1, arg2)), Ghost(env.cx()), Ghost(*expr))
//@ lift 3 # 0 => x_call(m_call3(f, arg1, arg2, arg3), Ghost(f), Ghost(sq3(arg1, arg2, arg3)), Ghost(env.cx()), Ghost(*expr))
//@ lift _ # 1 => x_call(m_calln(f, args), Ghost(f), Ghost(args.view()), Ghost(env.cx()), Ghost(*expr))
//@ rule args . iter ( ) . map ( $x:any ) . collect :: < Vec < _ >> ( ) ==> list_call ( args , env )
    requires old(env).wf(), fits(*expr, old(env).cx()), expr is Call, *expr->Call_0 == *f, expr->Call_1 == *args,
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof { fits_args(*expr, *args, env.cx()); assert(decreases_to!(*expr => expr->Call_1)); }
//@ end
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Op(a, op, b)
//@ params fn a_op(expr: &Expr, a: &Expr, op: &Op, b: &Expr, env: &mut EnvResolver) -> (res: Code)
//@ lift ir::Op::Add # 0 => x_op(m_op_add(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::Subtract # 0 => x_op(m_op_subtract(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::Multiply # 0 => x_op(m_op_multiply(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::Divide # 0 => x_op(m_op_divide(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::Modulo # 0 => x_op(m_op_modulo(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::Less # 0 => x_op(m_op_less(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::LessEq # 0 => x_op(m_op_lesseq(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::Greater # 0 => x_op(m_op_greater(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::GreaterEq # 0 => x_op(m_op_greatereq(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::Equal # 0 => x_op(m_op_equal(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Op::NotEqual # 0 => x_op(m_op_notequal(a, b), Ghost(a), Ghost(b), Ghost(env.cx()), Ghost(*expr))
    requires old(env).wf(), fits(*expr, old(env).cx()), expr is Op, *expr->Op_0 == *a, expr->Op_1 == *op, *expr->Op_2 == *b,
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ end
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Intrinsic(i, args)
//@ params fn a_intr(expr: &Expr, i: &Intrinsic, args: &Vec<Expr>, env: &mut EnvResolver) -> (res: Code)
//@ lift ir::Intrinsic::StringLen # 0 => x_intr(m_intr_stringlen(arg), Ghost(sq1(arg)), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Intrinsic::StringConcat # 0 => x_intr(m_intr_stringconcat(s1, s2), Ghost(sq2(s1, s2)), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Intrinsic::StringCharAt # 0 => x_intr(m_intr_stringcharat(idx, s), Ghost(sq2(idx, s)), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Intrinsic::StringSubstring # 0 => x_intr(m_intr_stringsubstring(start, len, s), Ghost(sq3(start, len, s)), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Intrinsic::StringFromChar # 0 => x_intr(m_intr_stringfromchar(ch), Ghost(sq1(ch)), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Intrinsic::IntToString # 0 => x_intr(m_intr_inttostring(arg), Ghost(sq1(arg)), Ghost(env.cx()), Ghost(*expr))
    requires old(env).wf(), fits(*expr, old(env).cx()), expr is Intrinsic, expr->Intrinsic_0 == *i, expr->Intrinsic_1 == *args,
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof { fits_args(*expr, *args, env.cx()); assert(decreases_to!(*expr => expr->Intrinsic_1)); }
//@ end
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Construct(n, _, fields)
//@ params fn a_cons(expr: &Expr, n: &Name, fields: &Vec<Expr>, env: &mut EnvResolver) -> (res: Code)
//@ lift 0 # 0 => x_cons(m_cons0(n), Ghost(n), Ghost(Seq::empty()), Ghost(env.cx()), Ghost(*expr))
//@ lift 1 # 0 => x_cons(m_cons1(n, fields), Ghost(n), Ghost(fields.view()), Ghost(env.cx()), Ghost(*expr))
//@ lift 2 # 0 => x_cons(m_cons2(n, fields), Ghost(n), Ghost(fields.view()), Ghost(env.cx()), Ghost(*expr))
//@ lift 3 # 0 => x_cons(m_cons3(n, fields), Ghost(n), Ghost(fields.view()), Ghost(env.cx()), Ghost(*expr))
//@ lift 4 # 0 => x_cons(m_cons4(n, fields), Ghost(n), Ghost(fields.view()), Ghost(env.cx()), Ghost(*expr))
//@ lift _ # 0 => x_cons(m_consn(n, fields), Ghost(n), Ghost(fields.view()), Ghost(env.cx()), Ghost(*expr))
//@ rule fields . iter ( ) . map ( $x:any ) . collect :: < Vec < _ >> ( ) ==> list_cons ( fields , env )
    requires old(env).wf(), fits(*expr, old(env).cx()), expr is Construct, expr->Construct_0 == *n, expr->Construct_2 == *fields,
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof { fits_args(*expr, *fields, env.cx()); assert(decreases_to!(*expr => expr->Construct_2)); }
//@ end
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Match(x, branches)
//@ params fn a_match(expr: &Expr, x: &Expr, branches: &Vec<Branch>, env: &mut EnvResolver) -> (res: Code)
//@ lift # 1 => x_match(m_match(x, branches), Ghost(x), Ghost(branches.view()), Ghost(env.cx()), Ghost(*expr))
//@ rule branches . iter ( ) . cloned ( ) . map ( $x:any ) . collect :: < Vec < _ >> ( ) ==> list_match ( branches , env , Ghost ( * expr ) )
    requires old(env).wf(), fits(*expr, old(env).cx()), expr is Match, *expr->Match_0 == *x, expr->Match_1 == *branches,
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof { assert(decreases_to!(*expr => expr->Match_1)); }
//@ end
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Let(n, v, r)
//@ params fn a_let(expr: &Expr, n: &Name, v: &Expr, r: &Expr, env: &mut EnvResolver) -> (res: Code)
//@ lift # 0 => x_let(m_let(v, r), Ghost(v), Ghost(r), Ghost(env.cx()), Ghost(*expr))
    requires old(env).wf(), fits(*expr, old(env).cx()), expr is Let, expr->Let_0 == *n, *expr->Let_1 == *v, *expr->Let_2 == *r,
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ head
    proof { names_push(env.cx(), *n); }
//@ after env . remove ( n )
    proof { assert(env.cx().stack =~= old(env).cx().stack); }
//@ end
// ---- function values: what is captured, and where
spec fn captured(caps: Seq<NameLookup>, c1: Cx, cx: Cx) -> bool {
    &&& caps.len() == c1.stack.len()
    &&& c1.known == cx.known
    &&& forall|j: int| 0 <= j < caps.len() ==> (#[trigger] caps[j]).0 < cx.stack.len() && cx.stack[caps[j].0 as int] == c1.stack[j]
}
proof fn captured_env(caps: Seq<NameLookup>, c1: Cx, cx: Cx, fr: Seq<SVal>, keep: Set<Name>)
    requires cx.wf(), c1.wf(), captured(caps, c1, cx), fr.len() == cx.stack.len(), keep.subset_of(c1.names()), keep.subset_of(cx.env(fr).dom()),
    ensures caps_ok(caps, fr), caps_of(caps, fr).len() == c1.stack.len(), agree(c1.env(caps_of(caps, fr)), cx.env(fr).restrict(keep), keep),
{
    let vals = caps_of(caps, fr);
    env_at(cx, fr);
    env_at(c1, vals);
    assert forall|x: Name| #[trigger] keep.contains(x) implies c1.env(vals).contains_key(x) && cx.env(fr).restrict(keep).contains_key(x)
        && c1.env(vals)[x] == cx.env(fr).restrict(keep)[x] by {
        assert(c1.names().contains(x));
        assert(cx.env(fr).dom().contains(x));
        if c1.known.contains_key(x) { assert(cx.known.contains_key(x)); } else {
            assert(c1.stack.contains(x));
            let j = c1.stack.index_of(x);
            assert(c1.stack[j] == x);
            assert(caps[j].0 < cx.stack.len());
            assert(cx.stack[caps[j].0 as int] == x);
            assert(vals[j] == fr[caps[j].0 as int]);
        }
    }
}
proof fn lambda_body(caps: Seq<NameLookup>, body: Code, c1: Cx, cx: Cx, ps: Vec<LambdaParam>, b: Expr)
    requires cx.wf(), c1.wf(), captured(caps, c1, cx), fv(b).difference(param_names(ps@).to_set()).subset_of(c1.names()),
        comp_ok(body, b, c1.append(param_names(ps@))),
    ensures lambda_right(caps, body, cx, ps, b),
{
    let ns = param_names(ps@);
    let keep = fv(b).difference(ns.to_set());
    assert forall|fr: Seq<SVal>, args: Seq<SVal>| #![trigger caps_of(caps, fr) + args]
        fr.len() == cx.stack.len() && keep.subset_of(cx.env(fr).dom()) && args.len() == ps@.len()
        && scoped(bind_all(lam_env(cx.env(fr), ps@, b), ns, args, ps@.len()), b) implies
        caps_ok(caps, fr) && body.ok(caps_of(caps, fr) + args)
        && body.run(caps_of(caps, fr) + args) == sem(bind_all(lam_env(cx.env(fr), ps@, b), ns, args, ps@.len()), b) by {
        captured_env(caps, c1, cx, fr, keep);
        let vals = caps_of(caps, fr);
        env_append(c1, vals, ns, args);
        assert(ns.take(ns.len() as int) =~= ns);
        bind_agree(c1.env(vals), lam_env(cx.env(fr), ps@, b), ns, args, ns.len(), fv(b));
        sem_frame(bind_all(c1.env(vals), ns, args, ns.len()), bind_all(lam_env(cx.env(fr), ps@, b), ns, args, ns.len()), b);
        assert(body.ok(vals + args));
    }
}
proof fn letrec_body(caps: Seq<NameLookup>, body: Code, c1: Cx, cx: Cx, n: Name, ps: Vec<LambdaParam>, b: Expr)
    requires cx.wf(), c1.wf(), captured(caps, c1, cx), fv(b).difference(param_names(ps@).to_set()).remove(n).subset_of(c1.names()),
        comp_ok(body, b, c1.append(param_names(ps@)).push(n)),
    ensures letrec_right(caps, body, cx, n, ps, b),
{
    let ns = param_names(ps@);
    let keep = fv(b).difference(ns.to_set()).remove(n);
    assert forall|fr: Seq<SVal>, args: Seq<SVal>| #![trigger caps_of(caps, fr) + args]
        fr.len() == cx.stack.len() && keep.subset_of(cx.env(fr).dom()) && args.len() == ps@.len()
        && scoped(rec_env(cx.env(fr), n, ps@, b, args), b) implies
        caps_ok(caps, fr) && body.ok((caps_of(caps, fr) + args).push(rec_fn(cx.env(fr), n, ps@, b)))
        && body.run((caps_of(caps, fr) + args).push(rec_fn(cx.env(fr), n, ps@, b))) == sem(rec_env(cx.env(fr), n, ps@, b, args), b) by {
        captured_env(caps, c1, cx, fr, keep);
        let vals = caps_of(caps, fr);
        let f = rec_fn(cx.env(fr), n, ps@, b);
        env_append(c1, vals, ns, args);
        env_push(c1.append(ns), vals + args, n, f);
        assert(ns.take(ns.len() as int) =~= ns);
        let e1 = bind_all(c1.env(vals), ns, args, ns.len());
        let e2 = bind_all(rec_lam_env(cx.env(fr), n, ps@, b), ns, args, ns.len());
        assert(fv(b).remove(n).difference(ns.to_set()) =~= keep);
        bind_agree(c1.env(vals), rec_lam_env(cx.env(fr), n, ps@, b), ns, args, ns.len(), fv(b).remove(n));
        agree_insert(e1, e2, fv(b).remove(n), n, f, fv(b));
        sem_frame(e1.insert(n, f), e2.insert(n, f), b);
        assert(body.ok((vals + args).push(f)));
    }
}
fn x_lambda(code: Code, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>, Ghost(caps): Ghost<Seq<NameLookup>>) -> (r: Code)
    requires e is Lambda, forall|j: int| 0 <= j < caps.len() ==> (#[trigger] caps[j]).0 < cx.stack.len(),
        forall|fr: Seq<SVal>| #[trigger] code.ok(fr) == caps_ok(caps, fr),
        forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && fv(*e->Lambda_1).difference(param_names((e->Lambda_0)@).to_set()).subset_of(cx.env(fr).dom()) ==>
            #[trigger] code.run(fr) == SRes::Val(SVal::Fn(closure(lam_env(cx.env(fr), (e->Lambda_0)@, *e->Lambda_1), (e->Lambda_0)@, *e->Lambda_1))),
    ensures comp_ok(r, e, cx),
{
    code
}
fn x_letrec(code: Code, Ghost(cx): Ghost<Cx>, Ghost(e): Ghost<Expr>, Ghost(caps): Ghost<Seq<NameLookup>>, Ghost(rest): Ghost<Code>) -> (r: Code)
    requires e is LetRec, under_pis(*e->LetRec_2) is Lambda, forall|j: int| 0 <= j < caps.len() ==> (#[trigger] caps[j]).0 < cx.stack.len(),
        comp_ok(rest, *e->LetRec_3, cx.push(e->LetRec_0)),
        ({
            let n = e->LetRec_0;
            let ps = under_pis(*e->LetRec_2)->Lambda_0;
            let b = *under_pis(*e->LetRec_2)->Lambda_1;
            &&& forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && fv(b).difference(param_names(ps@).to_set()).remove(n).subset_of(cx.env(fr).dom()) ==>
                #[trigger] code.ok(fr) == (caps_ok(caps, fr) && rest.ok(fr.push(rec_fn(cx.env(fr), n, ps@, b))))
            &&& forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && fv(b).difference(param_names(ps@).to_set()).remove(n).subset_of(cx.env(fr).dom()) ==>
                #[trigger] code.run(fr) == rest.run(fr.push(rec_fn(cx.env(fr), n, ps@, b)))
        }),
    ensures comp_ok(r, e, cx),
{
    proof {
        let n = e->LetRec_0;
        let ps = under_pis(*e->LetRec_2)->Lambda_0;
        let b = *under_pis(*e->LetRec_2)->Lambda_1;
        fv_pis(*e->LetRec_2);
        assert forall|fr: Seq<SVal>| fr.len() == cx.stack.len() && scoped(cx.env(fr), e) implies #[trigger] code.ok(fr) && code.run(fr) == sem(cx.env(fr), e) by {
            env_push(cx, fr, n, rec_fn(cx.env(fr), n, ps@, b));
            assert(rest.ok(fr.push(rec_fn(cx.env(fr), n, ps@, b))));
        }
    }
    code
}
/// the names found so far: those that are not known already are captured
spec fn seen(caps: Seq<NameLookup>, c1: Cx, cx: Cx, l: Seq<Name>, i: int) -> bool {
    &&& captured(caps, c1, cx)
    &&& forall|x: Name| #[trigger] c1.stack.contains(x) ==> l.take(i).contains(x)
    &&& forall|k: int| 0 <= k < i ==> c1.names().contains(#[trigger] l[k])
}
proof fn seen_none(c1: Cx, cx: Cx, l: Seq<Name>)
    requires c1.stack == Seq::<Name>::empty(), c1.known == cx.known,
    ensures seen(Seq::empty(), c1, cx, l, 0),
{}
proof fn seen_known(caps: Seq<NameLookup>, c1: Cx, cx: Cx, l: Seq<Name>, i: int)
    requires seen(caps, c1, cx, l, i), 0 <= i < l.len(), cx.known.contains_key(l[i]),
    ensures seen(caps, c1, cx, l, i + 1),
{
    let a = l.take(i);
    let b = l.take(i + 1);
    assert forall|x: Name| #[trigger] c1.stack.contains(x) implies b.contains(x) by { let k = a.index_of(x); assert(b[k] == x); }
    assert(c1.names().contains(l[i]));
}
proof fn seen_new(caps: Seq<NameLookup>, c1: Cx, cx: Cx, l: Seq<Name>, i: int)
    requires seen(caps, c1, cx, l, i), 0 <= i < l.len(), l.no_duplicates(), !cx.known.contains_key(l[i]),
    ensures !c1.names().contains(l[i]),
{
    let a = l.take(i);
    if c1.stack.contains(l[i]) { let k = a.index_of(l[i]); assert(a[k] == l[k]); }
}
proof fn seen_captured(caps: Seq<NameLookup>, c1: Cx, cx: Cx, l: Seq<Name>, i: int, at: NameLookup)
    requires seen(caps, c1, cx, l, i), 0 <= i < l.len(), at.0 < cx.stack.len(), cx.stack[at.0 as int] == l[i],
    ensures seen(caps.push(at), c1.push(l[i]), cx, l, i + 1),
{
    let a = l.take(i);
    let b = l.take(i + 1);
    let s = c1.stack;
    assert(b[i] == l[i]);
    assert forall|x: Name| #[trigger] s.push(l[i]).contains(x) implies b.contains(x) by {
        if x != l[i] { let k = s.push(l[i]).index_of(x); assert(s[k] == x); assert(s.contains(x)); let j = a.index_of(x); assert(b[j] == x); }
    }
    names_push(c1, l[i]);
}
proof fn seen_all(caps: Seq<NameLookup>, c1: Cx, cx: Cx, l: Seq<Name>, s: Set<Name>)
    requires seen(caps, c1, cx, l, l.len() as int), l.to_set() == s,
    ensures s.subset_of(c1.names()), forall|x: Name| #[trigger] c1.stack.contains(x) ==> s.contains(x), c1.names().subset_of(s.union(cx.known.dom())),
{
    assert(l.take(l.len() as int) =~= l);
    assert forall|x: Name| s.contains(x) implies c1.names().contains(x) by { assert(l.contains(x)); let k = l.index_of(x); assert(l[k] == x); }
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::Lambda(params, body)
//@ params fn a_lambda(expr: &Expr, params: &Vec<LambdaParam>, body: &Expr, env: &mut EnvResolver) -> (res: Code)
//@ lift # 0 => x_lambda(m_lambda(captures, body, Ghost(env.cx()), Ghost(*params), Ghost(*gbody)), Ghost(env.cx()), Ghost(*expr), Ghost(captures.view()))
//@ rule EnvResolver :: from_other ( & env ) ==> EnvResolver :: from_other ( env )
//@ rule ( captured_names ) . iter ( ) ==> vx_listed . iter ( )
//@ rule : Rc < dyn Fn ( & mut CompactEnv ) -> Result < Value , Trap >> = ==> : Code =
//@ rule compile_expr ( body , & mut inner_env ) . into ( ) ==> compile_expr ( body , & mut inner_env )
//@ rule ResolvedName :: Value ( _ ) => continue ==> ResolvedName :: Value ( _ ) => { }
//@ rule for $p in $i:ident ( params . iter ( ) . rev ( ) ) ==> for vx_q in $i ( 0 .. params . len ( ) )
//@ rule assert_eq ! ( inner_env . names . len ( ) , captures . len ( ) ) ==> vx_assert ( inner_env . names . len ( ) == captures . len ( ) )
    requires old(env).wf(), fits(*expr, old(env).cx()), expr is Lambda, expr->Lambda_0 == *params, *expr->Lambda_1 == *body,
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ head
    let ghost gbody = body;
    let ghost keep = fv(*expr);
    let ghost cx = env.cx();
    let ghost ns = param_names(params@);
//@ after free_names ( expr , & mut captured_names )
    let vx_listed = captured_names.vx_listed();
    proof { assert(Set::<Name>::empty().union(keep) =~= keep); }
//@ before for vx_p in
    proof { seen_none(inner_env.cx(), cx, vx_listed@); assert(captures@ =~= Seq::empty()); }
//@ loop 0
    invariant
        vx_it0.seq().len() == vx_listed@.len(), vx_listed@.no_duplicates(),
        forall|k: int| 0 <= k < vx_listed@.len() ==> *#[trigger] vx_it0.seq()[k] == vx_listed@[k],
        vx_listed@.to_set() == keep, keep.subset_of(cx.names()),
        env.wf(), env.cx() == cx, inner_env.wf(),
        seen(captures@, inner_env.cx(), cx, vx_listed@, vx_it0.index() as int),
//@ loophead 0
    proof {
        let i = vx_it0.index() as int;
        assert(vx_listed@.contains(vx_listed@[i]));
        assert(keep.contains(vx_listed@[i]));
        if cx.known.contains_key(vx_listed@[i]) { seen_known(captures@, inner_env.cx(), cx, vx_listed@, i); } else {
            seen_new(captures@, inner_env.cx(), cx, vx_listed@, i);
        }
    }
    let ghost c0 = captures@;
    let ghost ic0 = inner_env.cx();
//@ after inner_env . add ( c )
    proof { seen_captured(c0, ic0, cx, vx_listed@, vx_it0.index() as int, l); }
//@ after for vx_p in
    let ghost c1 = inner_env.cx();
    proof { seen_all(captures@, c1, cx, vx_listed@, keep); }
    proof {
        assert forall|x: Name| ns.contains(x) implies !c1.names().contains(x) by { assert(ns.to_set().contains(x)); assert(bn(*expr).contains(x)); assert(!cx.names().contains(x)); }
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> *#[trigger] vx_it1.seq()[k] == params@[k],
        inner_env.wf(), ns == param_names(params@), ns.no_duplicates(), c1.wf(), forall|x: Name| ns.contains(x) ==> !c1.names().contains(x),
        inner_env.cx().known == c1.known, inner_env.cx().stack =~= c1.stack + ns.take(vx_it1.index() as int),
//@ loophead 1
    proof { next_param(c1, inner_env.cx(), params@, vx_it1.index() as int); }
//@ before let body
    proof { params_in(c1, inner_env.cx(), ns); }
//@ after let body
    proof { lambda_body(captures@, body, c1, cx, *params, *gbody); }
//@ loop 2
    invariant
        inner_env.wf(), ns == param_names(params@), inner_env.cx().known == c1.known,
        inner_env.cx().stack =~= c1.stack + ns.take(params@.len() - vx_it2.index()),
//@ loophead 2
    let param = &params[params.len() - 1 - vx_q];
    let ghost s0 = inner_env.cx().stack;
//@ looptail 2
    proof { assert(s0.drop_last() =~= c1.stack + ns.take(params@.len() - vx_it2.index() - 1)); }
//@ before assert_eq !
    proof { names_count(inner_env); }
//@ end
proof fn names_count(r: EnvResolver)
    requires r.wf(),
    ensures r.names@.len() == r.stack@.len(),
{
    r.stack@.unique_seq_to_set();
    assert(r.names@.len() == r.names@.dom().len());
}
proof fn next_param(c1: Cx, now: Cx, ps: Seq<LambdaParam>, i: int)
    requires 0 <= i < ps.len(), param_names(ps).no_duplicates(), forall|x: Name| param_names(ps).contains(x) ==> !c1.names().contains(x),
        now.known == c1.known, now.stack =~= c1.stack + param_names(ps).take(i),
    ensures !now.names().contains(ps[i].name), now.stack.push(ps[i].name) =~= c1.stack + param_names(ps).take(i + 1),
{
    let ns = param_names(ps);
    let t = ns.take(i);
    assert(now == c1.append(t));
    names_append(c1, t);
    assert(ns[i] == ps[i].name);
    assert(ns.contains(ns[i]));
    if t.contains(ns[i]) { let k = t.index_of(ns[i]); assert(ns[k] == ns[i]); }
    assert(ns.take(i + 1) =~= t.push(ns[i]));
}
proof fn params_in(c1: Cx, now: Cx, ns: Seq<Name>)
    requires now.known == c1.known, now.stack =~= c1.stack + ns.take(ns.len() as int),
    ensures now == c1.append(ns), now.names() == c1.names().union(ns.to_set()),
{
    assert(ns.take(ns.len() as int) =~= ns);
    names_append(c1, ns);
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ inarm ir::Expr::LetRec(n, _, v, r)
//@ params fn a_letrec(expr: &Expr, n: &Name, v: &Expr, r: &Expr, env: &mut EnvResolver) -> (res: Code)
//@ lift # 0 => x_letrec(m_letrec(captures, body, rest, Ghost(env.cx()), Ghost(n), Ghost(*params), Ghost(**gbody)), Ghost(env.cx()), Ghost(*expr), Ghost(captures.view()), Ghost(rest))
//@ rule EnvResolver :: from_other ( & env ) ==> EnvResolver :: from_other ( env )
//@ rule ( captured_names ) . iter ( ) ==> vx_listed . iter ( )
//@ rule Rc :: new ( $x:rest ) ==> ( $x )
//@ rule ResolvedName :: Value ( _ ) => continue ==> ResolvedName :: Value ( _ ) => { }
//@ rule for $p in $i:ident ( params . iter ( ) . rev ( ) ) ==> for vx_q in $i ( 0 .. params . len ( ) )
//@ rule assert_eq ! ( inner_env . names . len ( ) , captures . len ( ) ) ==> vx_assert ( inner_env . names . len ( ) == captures . len ( ) )
//@ rule panic ! ( $x:rest ) ==> vx_panic ( )
    requires old(env).wf(), fits(*expr, old(env).cx()), expr is LetRec, expr->LetRec_0 == *n, *expr->LetRec_2 == *v, *expr->LetRec_3 == *r,
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 0nat,
//@ attr
#[verifier::spinoff_prover]
//@ head
    let ghost v0 = *v;
    let ghost cx = env.cx();
    proof { fv_pis(*v); neat_pis(*v); under_less(*v); }
//@ after free_names ( v , & mut captured_names )
    let ghost gbody = body;
    let ghost ns = param_names(params@);
    let ghost keep = fv(**body).difference(ns.to_set()).remove(n);
    proof {
        assert(*v == Expr::Lambda(*params, *body));
        assert(fv(*v) == fv(**body).difference(ns.to_set()));
        assert(Set::<Name>::empty().union(fv(*v)) =~= fv(*v));
        assert(bn(*v) == bn(**body).union(ns.to_set()));
    }
//@ after captured_names . remove ( & n )
    let vx_listed = captured_names.vx_listed();
    proof {
        assert(keep.subset_of(fv(*expr)));
        assert(bn(*v).subset_of(bn(*expr)));
        assert(bn(*expr).contains(n));
    }
//@ before for vx_p in
    proof { seen_none(inner_env.cx(), cx, vx_listed@); assert(captures@ =~= Seq::empty()); }
//@ loop 0
    invariant
        vx_it0.seq().len() == vx_listed@.len(), vx_listed@.no_duplicates(),
        forall|k: int| 0 <= k < vx_listed@.len() ==> *#[trigger] vx_it0.seq()[k] == vx_listed@[k],
        vx_listed@.to_set() == keep, keep.subset_of(cx.names()),
        env.wf(), env.cx() == cx, inner_env.wf(),
        seen(captures@, inner_env.cx(), cx, vx_listed@, vx_it0.index() as int),
//@ loophead 0
    proof {
        let i = vx_it0.index() as int;
        assert(vx_listed@.contains(vx_listed@[i]));
        assert(keep.contains(vx_listed@[i]));
        if cx.known.contains_key(vx_listed@[i]) { seen_known(captures@, inner_env.cx(), cx, vx_listed@, i); } else {
            seen_new(captures@, inner_env.cx(), cx, vx_listed@, i);
        }
    }
    let ghost c0 = captures@;
    let ghost ic0 = inner_env.cx();
//@ after inner_env . add ( c )
    proof { seen_captured(c0, ic0, cx, vx_listed@, vx_it0.index() as int, l); }
//@ after for vx_p in
    let ghost c1 = inner_env.cx();
    proof {
        seen_all(captures@, c1, cx, vx_listed@, keep);
        assert forall|x: Name| ns.contains(x) implies !c1.names().contains(x) by { assert(ns.to_set().contains(x)); assert(bn(*v).contains(x)); assert(bn(*expr).contains(x)); assert(!cx.names().contains(x)); }
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == params@.len(),
        forall|k: int| 0 <= k < params@.len() ==> *#[trigger] vx_it1.seq()[k] == params@[k],
        inner_env.wf(), ns == param_names(params@), ns.no_duplicates(), c1.wf(), forall|x: Name| ns.contains(x) ==> !c1.names().contains(x),
        inner_env.cx().known == c1.known, inner_env.cx().stack =~= c1.stack + ns.take(vx_it1.index() as int),
//@ loophead 1
    proof { next_param(c1, inner_env.cx(), params@, vx_it1.index() as int); }
//@ before inner_env . add ( n )
    proof {
        params_in(c1, inner_env.cx(), ns);
        assert(!ns.to_set().contains(n)) by { assert(!bn(*v).contains(n)); }
        assert(!c1.names().contains(n));
        names_push(inner_env.cx(), n);
    }
//@ after let body
    proof { letrec_body(captures@, body, c1, cx, n, *params, **gbody); }
//@ after inner_env . remove ( n )
    proof { assert(inner_env.cx().stack =~= c1.stack + ns.take(params@.len() as int)); }
//@ loop 2
    invariant
        inner_env.wf(), ns == param_names(params@), inner_env.cx().known == c1.known,
        inner_env.cx().stack =~= c1.stack + ns.take(params@.len() - vx_it2.index()),
//@ loophead 2
    let param = &params[params.len() - 1 - vx_q];
    let ghost s0 = inner_env.cx().stack;
//@ looptail 2
    proof { assert(s0.drop_last() =~= c1.stack + ns.take(params@.len() - vx_it2.index() - 1)); }
//@ before assert_eq !
    proof { names_count(inner_env); }
//@ before env . add ( n )
    proof { names_push(env.cx(), n); }
//@ after env . remove ( n )
    proof { assert(env.cx().stack =~= cx.stack); }
//@ end
proof fn under_less(v: Expr)
    ensures under_pis(v) == v || decreases_to!(v => under_pis(v)),
    decreases v,
{
    match v { Expr::Pi(_, b) => under_less(*b), _ => {} }
}
//@ fn ticc-eval/src/lambda.rs compile_expr
//@ params fn compile_expr(expr: &Expr, env: &mut EnvResolver) -> (res: Code)
//@ lift ir::Expr::Bool(b) # 0 => x_bool(b, Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Expr::Int(i) # 0 => x_int(i, Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Expr::String(s) # 0 => x_string(s, Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Expr::Name(n) > ResolvedName::Value(v) # 0 => x_value(v, Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Expr::Name(n) > ResolvedName::Name(lookup) # 0 => x_name(lookup, Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Expr::Call(f, args) => a_call(expr, f, args, env)
//@ lift ir::Expr::If(c, t, e) # 0 => x_if(m_if(c, t, e), Ghost(c), Ghost(t), Ghost(e), Ghost(env.cx()), Ghost(*expr))
//@ lift ir::Expr::Op(a, op, b) => a_op(expr, a, op, b, env)
//@ lift ir::Expr::Intrinsic(i, args) => a_intr(expr, i, args, env)
//@ lift ir::Expr::Lambda(params, body) => a_lambda(expr, params, body, env)
//@ lift ir::Expr::Match(x, branches) => a_match(expr, x, branches, env)
//@ lift ir::Expr::Construct(n, _, fields) => a_cons(expr, n, fields, env)
//@ lift ir::Expr::Let(n, v, r) => a_let(expr, n, v, r, env)
//@ lift ir::Expr::LetRec(n, _, v, r) => a_letrec(expr, n, v, r, env)
//@ lift ir::Expr::Trap(msg, _) # 0 => x_trap(msg, Ghost(env.cx()), Ghost(*expr))
//@ rule msg . clone ( ) ==> vx_clone_string ( msg )
    requires old(env).wf(), fits(*expr, old(env).cx()),
    ensures final(env).wf(), final(env).cx() == old(env).cx(), comp_ok(res, *expr, old(env).cx()),
    decreases *expr, 1nat,
//@ attr
#[verifier::spinoff_prover]
//@ end

// ---- whole programs
//@ include prog.inc
pub open spec fn smap(m: Map<Name, Value>) -> SEnv { m.map_values(|v: Value| sval(v)) }
impl HMap<Name, Value> {
    #[verifier::external_body]
    pub fn vx_pairs(&self) -> (r: Vec<(&Name, &Value)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1,
            forall|k: Name| self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
    { unimplemented!() }
}
/// `Rc::new(known_values)`
#[verifier::external_body]
fn vx_known(m: HMap<Name, Value>) -> (r: Known) ensures r@ == smap(m@) { unimplemented!() }
//@ type ticc-eval/src/lambda.rs Env
impl Env {
    #[verifier::external_body]
    fn default() -> (r: Env) ensures r.values@ == Map::<Name, Value>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Env) ensures smap(r.values@) == smap(self.values@) { unimplemented!() }
//@ fn ticc-eval/src/lambda.rs Env::add
    ensures smap(final(self).values@) == smap(old(self).values@).insert(name, sval(value)),
//@ after self . values . insert ( name , value )
    proof { assert(smap(self.values@) =~= smap(old(self).values@).insert(name, sval(value))); }
//@ end
}
impl EnvResolver {
//@ fn ticc-eval/src/lambda.rs EnvResolver::from_env
//@ ret res
//@ rule names : Default :: default ( ) ==> names : HMap :: new ( )
//@ rule stack : Default :: default ( ) ==> stack : Vec :: new ( )
//@ rule for ( k , v ) in $i:ident ( $x:rest ) ==> for vx_e in $i ( vx_pairs . iter ( ) )
//@ rule k . clone ( ) ==> * k
//@ rule Rc :: new ( known_values ) ==> vx_known ( known_values )
    ensures res.wf(), res.cx() == (Cx { stack: Seq::empty(), known: smap(env.values@) }),
//@ head
    let vx_pairs = env.values.vx_pairs();
    proof { assert(Seq::<Name>::empty().to_set() =~= Set::<Name>::empty()); assert(Map::<Name, usize>::empty().dom() =~= Set::<Name>::empty()); }
//@ loop 0
    invariant
        vx_it0.seq().len() == vx_pairs@.len(),
        forall|k: int| 0 <= k < vx_pairs@.len() ==> *#[trigger] vx_it0.seq()[k] == vx_pairs@[k],
        forall|i: int| 0 <= i < vx_pairs@.len() ==> env.values@.contains_key(*(#[trigger] vx_pairs@[i]).0) && env.values@[*vx_pairs@[i].0] == *vx_pairs@[i].1,
        forall|i: int| 0 <= i < vx_it0.index() ==> known_values@.contains_key(*(#[trigger] vx_pairs@[i]).0),
        forall|k: Name| #[trigger] known_values@.contains_key(k) ==> env.values@.contains_key(k) && sval(known_values@[k]) == sval(env.values@[k]),
//@ loophead 0
    let k = vx_e.0;
    let v = vx_e.1;
//@ after for ( k , v ) in
    proof {
        assert(smap(known_values@) =~= smap(env.values@)) by {
            assert forall|k: Name| known_values@.contains_key(k) <==> env.values@.contains_key(k) by {
                if env.values@.contains_key(k) { let i = choose|i: int| 0 <= i < vx_pairs@.len() && *(#[trigger] vx_pairs@[i]).0 == k; assert(known_values@.contains_key(*vx_pairs@[i].0)); }
            }
        }
    }
//@ end
}
//@ fn ticc-eval/src/lambda.rs eval_expr
//@ ret res
//@ rule CompactEnv :: default ( ) ==> CompactEnv { names : Vec :: new ( ) , frame_start : 0 }
//@ rule compiled ( & mut compact_env ) ==> vx_run ( & compiled , & mut compact_env )
//@ rule assert_eq ! ( $x:any , 0 ) ==> vx_assert ( $x == 0 )
    requires fits(*expr, Cx { stack: Seq::empty(), known: smap(env.values@) }), scoped(smap(env.values@), *expr),
    ensures sres(res) == sem(smap(env.values@), *expr),
//@ before let res = compiled
    proof {
        let cx = Cx { stack: Seq::<Name>::empty(), known: smap(env.values@) };
        assert(compact_env.frame() =~= Seq::<SVal>::empty());
        assert(cx.env(Seq::<SVal>::empty()) == smap(env.values@));
        assert(compiled.ok(compact_env.frame()));
    }
//@ end
spec fn prog_fits(ds: Seq<ValueDef>) -> bool {
    forall|i: int| 0 <= i < ds.len() && prog(ds, i as nat) is Env ==> {
        let e = prog(ds, i as nat)->Env_0;
        scoped(e, (#[trigger] ds[i]).value) && fits(ds[i].value, Cx { stack: Seq::empty(), known: e })
    }
}
//@ fn ticc-eval/src/lambda.rs eval
//@ ret res
    requires prog_fits(program.defs@),
        prog(program.defs@, program.defs@.len()) is Env ==> forall|k: int| 0 <= k < exprs@.len() ==>
            scoped(prog(program.defs@, program.defs@.len())->Env_0, #[trigger] exprs@[k])
            && fits(exprs@[k], Cx { stack: Seq::empty(), known: prog(program.defs@, program.defs@.len())->Env_0 }),
    ensures ran(program.defs@, exprs@, res),
//@ head
    let ghost ds = program.defs@;
//@ loop 0
    invariant
        vx_it0.seq().len() == ds.len(), ds == program.defs@, prog_fits(ds),
        forall|k: int| 0 <= k < ds.len() ==> *#[trigger] vx_it0.seq()[k] == ds[k],
        prog(ds, vx_it0.index() as nat) == PEnv::Env(smap(env.values@)),
//@ loophead 0
    proof {
        let i = vx_it0.index() as int;
        assert(scoped(smap(env.values@), ds[i].value));
        if sem(smap(env.values@), ds[i].value) is Trap { prog_trap(ds, (i + 1) as nat, ds.len()); }
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == exprs@.len(), ds == program.defs@,
        forall|k: int| 0 <= k < exprs@.len() ==> *#[trigger] vx_it1.seq()[k] == exprs@[k],
        prog(ds, ds.len()) == PEnv::Env(smap(env.values@)), results@.len() == vx_it1.index(),
        forall|k: int| 0 <= k < exprs@.len() ==> scoped(smap(env.values@), #[trigger] exprs@[k]) && fits(exprs@[k], Cx { stack: Seq::empty(), known: smap(env.values@) }),
        forall|k: int| 0 <= k < results@.len() ==> sem(smap(env.values@), #[trigger] exprs@[k]) == SRes::Val(sval(results@[k])),
//@ loophead 1
    proof { assert(scoped(smap(env.values@), exprs@[vx_it1.index() as int])); }
//@ before for def in
    proof { assert(smap(env.values@) =~= Map::<Name, SVal>::empty()); }
//@ end

} // verus!
fn main() {}
