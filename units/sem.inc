//@ rule ir :: $x:ident ==> $x
//@ rule crate :: Value < Function > ==> ValueOf < Function >

//@ type ticc-core/src/ir.rs Expr
//@ type ticc-core/src/ir.rs LambdaParam
//@ type ticc-core/src/ir.rs Branch
//@ type ticc-core/src/ir.rs Op | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Intrinsic | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Ty
//@ type ticc-core/src/ir.rs TyVar | #[derive(Clone, Copy)]
//@ type ticc-core/src/ir.rs Name | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-eval/src/lib.rs Trap

// ---- trusted stand-ins for std-backed types ---------------------------------
#[verifier::external_body]
pub struct ByteString { b: Vec<u8> }
impl ByteString {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get(&self, i: usize) -> (r: Option<&u8>)
        ensures i < self@.len() ==> r is Some && *r->0 == self@[i as int],
                i >= self@.len() ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_from(&self, i: usize) -> (r: Option<&[u8]>)
        ensures i <= self@.len() ==> r is Some && r->0@ == self@.subrange(i as int, self@.len() as int),
                i > self@.len() ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ByteString) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
fn vx_to(s: &[u8], i: usize) -> (r: Option<&[u8]>)
    ensures i <= s@.len() ==> r is Some && r->0@ == s@.subrange(0, i as int),
            i > s@.len() ==> r is None,
{ unimplemented!() }
#[verifier::external_body]
fn vx_extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
#[verifier::external_body]
fn vx_bs_vec(v: Vec<u8>) -> (r: ByteString) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn vx_bs(v: &[u8]) -> (r: ByteString) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn vx_bs_byte(v: u8) -> (r: ByteString) ensures r@ == seq![v] { unimplemented!() }
/// the decimal digits of a number (u64::to_string is trusted)
pub uninterp spec fn decimal(x: u64) -> Seq<u8>;
#[verifier::external_body]
fn vx_decimal(x: u64) -> (r: ByteString) ensures r@ == decimal(x) { unimplemented!() }
#[verifier::external_body]
fn vx_empty() -> (r: &'static [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
pub assume_specification<'a, T: Copy> [Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
#[verifier::external_body]
fn vx_dummy() {}
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { unimplemented!() }
#[verifier::external_body]
fn vx_clone_string(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }

// ---- values ------------------------------------------------------------------
#[verifier::external_body]
pub struct Function { f: usize }

pub ghost enum SVal { Int(u64), Bool(bool), Str(Seq<u8>), Comp(Name, Seq<SVal>), Fn(Function) }
pub ghost enum SRes { Val(SVal), Trap(Seq<char>) }

#[verifier::external_body]
#[verifier::accept_recursive_types(F)]
pub struct Tagged<F> { f: Vec<F> }
impl Tagged<Function> {
    pub uninterp spec fn stag(&self) -> Name;
    pub uninterp spec fn sfields(&self) -> Seq<SVal>;
    pub uninterp spec fn fseq(&self) -> Seq<Value>;
    #[verifier::external_body]
    pub fn tag(&self) -> (r: Name) ensures r == self.stag() { unimplemented!() }
    #[verifier::external_body]
    pub fn fields(&self) -> (r: &Vec<Value>)
        ensures r@ == self.fseq(), svals(r@) == self.sfields() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(tag: Name, values: Vec<Value>) -> (r: Tagged<Function>)
        ensures r.stag() == tag, r.sfields() == svals(values@) { unimplemented!() }
}
pub enum ValueOf<F> { Int(u64), Bool(bool), String(ByteString), Composite(Tagged<F>), Fn(F) }
pub type Value = ValueOf<Function>;

pub open spec fn sval(v: Value) -> SVal {
    match v {
        ValueOf::Int(x) => SVal::Int(x),
        ValueOf::Bool(x) => SVal::Bool(x),
        ValueOf::String(s) => SVal::Str(s@),
        ValueOf::Composite(t) => SVal::Comp(t.stag(), t.sfields()),
        ValueOf::Fn(f) => SVal::Fn(f),
    }
}
pub open spec fn svals(v: Seq<Value>) -> Seq<SVal> { v.map_values(|x: Value| sval(x)) }
pub open spec fn sres(r: Result<Value, Trap>) -> SRes {
    match r { Ok(v) => SRes::Val(sval(v)), Err(t) => SRes::Trap(t.message@) }
}

impl ValueOf<Function> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Value) ensures sval(r) == sval(*self) { unimplemented!() }

//@ fn ticc-eval/src/lib.rs Value::into_int
//@ ret r
//@ rule Value :: $x:ident ==> ValueOf :: $x
        requires sval(self) is Int,
        ensures r == sval(self)->Int_0,
//@ end
//@ fn ticc-eval/src/lib.rs Value::into_bool
//@ ret r
//@ rule Value :: $x:ident ==> ValueOf :: $x
        requires sval(self) is Bool,
        ensures r == sval(self)->Bool_0,
//@ end
//@ fn ticc-eval/src/lib.rs Value::into_string
//@ ret r
//@ rule Value :: $x:ident ==> ValueOf :: $x
        requires sval(self) is Str,
        ensures r@ == sval(self)->Str_0,
//@ end
//@ fn ticc-eval/src/lib.rs Value::into_composite
//@ ret r
//@ rule Value :: $x:ident ==> ValueOf :: $x
//@ rule Tagged < F > ==> Tagged < Function >
        requires sval(self) is Comp,
        ensures sval(self) == SVal::Comp(r.stag(), r.sfields()),
//@ end
//@ fn ticc-eval/src/lib.rs Value::into_fn
//@ ret r
//@ rule Value :: $x:ident ==> ValueOf :: $x
//@ rule -> F ==> -> Function
        requires sval(self) is Fn,
        ensures SVal::Fn(r) == sval(self),
//@ end
}

// ---- reference semantics -------------------------------------------------------
pub type SEnv = Map<Name, SVal>;

/// the free names of an expression
pub open spec fn fv(e: Expr) -> Set<Name> decreases e, 0nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) => Set::empty(),
        Expr::Name(n) => Set::empty().insert(n),
        Expr::Call(f, args) => fv(*f).union(fv_list(args, args@.len())),
        Expr::If(c, t, e) => fv(*c).union(fv(*t)).union(fv(*e)),
        Expr::Op(a, _, b) => fv(*a).union(fv(*b)),
        Expr::Intrinsic(_, xs) => fv_list(xs, xs@.len()),
        Expr::Construct(_, _, xs) => fv_list(xs, xs@.len()),
        Expr::Lambda(ps, b) => fv(*b).difference(param_names(ps@).to_set()),
        Expr::Match(d, bs) => fv(*d).union(fv_branches(bs, bs@.len())),
        Expr::Let(n, v, b) => fv(*v).union(fv(*b).remove(n)),
        Expr::LetRec(n, _, v, b) => fv(*v).union(fv(*b)).remove(n),
        Expr::Pi(_, b) => fv(*b),
        Expr::PiApply(b, _) => fv(*b),
    }
}
pub open spec fn fv_list(xs: Vec<Expr>, n: nat) -> Set<Name> decreases xs, n {
    if n == 0 || n > xs@.len() { Set::empty() } else { fv_list(xs, (n - 1) as nat).union(fv(xs@[n - 1])) }
}
pub open spec fn fv_branches(bs: Vec<Branch>, n: nat) -> Set<Name> decreases bs, n {
    if n == 0 || n > bs@.len() { Set::empty() } else {
        fv_branches(bs, (n - 1) as nat).union(fv(bs@[n - 1].value).difference(bs@[n - 1].bindings@.to_set()))
    }
}
/// the part of an environment that a function made in it keeps
pub open spec fn lam_env(env: SEnv, params: Seq<LambdaParam>, body: Expr) -> SEnv {
    env.restrict(fv(body).difference(param_names(params).to_set()))
}
pub open spec fn rec_lam_env(env: SEnv, name: Name, params: Seq<LambdaParam>, body: Expr) -> SEnv {
    env.restrict(fv(body).difference(param_names(params).to_set()).remove(name))
}

/// the function value made for `\params -> body` in an environment (the part of it the lambda uses)
pub uninterp spec fn closure(env: SEnv, params: Seq<LambdaParam>, body: Expr) -> Function;
/// the function value made for a recursive `name = \params -> body`
pub uninterp spec fn rec_closure(env: SEnv, name: Name, params: Seq<LambdaParam>, body: Expr) -> Function;
/// the result of calling a function value
pub uninterp spec fn apply(f: Function, args: Seq<SVal>) -> SRes;

pub open spec fn wrap(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }

pub open spec fn op_spec(op: Op, a: u64, b: u64) -> SVal {
    match op {
        Op::Add => SVal::Int(wrap(a + b)),
        Op::Subtract => SVal::Int(wrap(a - b)),
        Op::Multiply => SVal::Int(wrap(a * b)),
        Op::Divide => SVal::Int(if b == 0 { 0 } else { a / b }),
        Op::Modulo => SVal::Int(if b == 0 { a } else { a % b }),
        Op::Less => SVal::Bool(a < b),
        Op::LessEq => SVal::Bool(a <= b),
        Op::Greater => SVal::Bool(a > b),
        Op::GreaterEq => SVal::Bool(a >= b),
        Op::Equal => SVal::Bool(a == b),
        Op::NotEqual => SVal::Bool(a != b),
    }
}
pub open spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn intrinsic_arity(i: Intrinsic) -> nat {
    match i {
        Intrinsic::StringLen => 1,
        Intrinsic::StringConcat => 2,
        Intrinsic::StringCharAt => 2,
        Intrinsic::StringSubstring => 3,
        Intrinsic::StringFromChar => 1,
        Intrinsic::IntToString => 1,
    }
}
pub open spec fn intrinsic_spec(i: Intrinsic, xs: Seq<SVal>) -> SVal {
    match i {
        Intrinsic::StringLen => SVal::Int(xs[0]->Str_0.len() as u64),
        Intrinsic::StringConcat => SVal::Str(xs[0]->Str_0 + xs[1]->Str_0),
        Intrinsic::StringCharAt => SVal::Int(
            if xs[0]->Int_0 < xs[1]->Str_0.len() { xs[1]->Str_0[xs[0]->Int_0 as int] as u64 } else { 0 }),
        Intrinsic::StringSubstring => SVal::Str({
            let s = xs[2]->Str_0;
            let start = xs[0]->Int_0 as int;
            let len = xs[1]->Int_0 as int;
            if start >= s.len() { Seq::empty() } else { s.subrange(start, min_int(start + len, s.len() as int)) }
        }),
        Intrinsic::StringFromChar => SVal::Str(seq![(xs[0]->Int_0 % 256) as u8]),
        Intrinsic::IntToString => SVal::Str(decimal(xs[0]->Int_0)),
    }
}
pub open spec fn bind_all(env: SEnv, names: Seq<Name>, vals: Seq<SVal>, n: nat) -> SEnv
    decreases n
{
    if n == 0 { env } else { bind_all(env, names, vals, (n - 1) as nat).insert(names[n - 1], vals[n - 1]) }
}
pub open spec fn param_names(ps: Seq<LambdaParam>) -> Seq<Name> { ps.map_values(|p: LambdaParam| p.name) }
pub open spec fn under_pis(e: Expr) -> Expr decreases e {
    match e { Expr::Pi(_, b) => under_pis(*b), _ => e }
}
pub open spec fn is_branch(b: Branch, ctor: Name) -> bool { b.ctor == ctor }
/// index of the first branch for a constructor
pub open spec fn find_branch(bs: Seq<Branch>, ctor: Name, i: nat) -> nat decreases bs.len() - i {
    if i >= bs.len() || bs[i as int].ctor == ctor { i } else { find_branch(bs, ctor, i + 1) }
}
pub ghost enum SList { Vals(Seq<SVal>), Trap(Seq<char>) }

pub open spec fn sem(env: SEnv, e: Expr) -> SRes decreases e, 0nat {
    match e {
        Expr::Bool(b) => SRes::Val(SVal::Bool(b)),
        Expr::Int(i) => SRes::Val(SVal::Int(i)),
        Expr::String(s) => SRes::Val(SVal::Str(s@)),
        Expr::Name(n) => SRes::Val(env[n]),
        Expr::Call(f, args) => match sem_list(env, args, args@.len()) {
            SList::Trap(t) => SRes::Trap(t),
            SList::Vals(vs) => match sem(env, *f) {
                SRes::Trap(t) => SRes::Trap(t),
                SRes::Val(fv) => apply(fv->Fn_0, vs),
            },
        },
        Expr::If(c, t, e) => match sem(env, *c) {
            SRes::Trap(t) => SRes::Trap(t),
            SRes::Val(b) => if b->Bool_0 { sem(env, *t) } else { sem(env, *e) },
        },
        Expr::Op(a, op, b) => match sem(env, *a) {
            SRes::Trap(t) => SRes::Trap(t),
            SRes::Val(x) => match sem(env, *b) {
                SRes::Trap(t) => SRes::Trap(t),
                SRes::Val(y) => SRes::Val(op_spec(op, x->Int_0, y->Int_0)),
            },
        },
        Expr::Intrinsic(i, xs) => match sem_list(env, xs, xs@.len()) {
            SList::Trap(t) => SRes::Trap(t),
            SList::Vals(vs) => SRes::Val(intrinsic_spec(i, vs)),
        },
        Expr::Lambda(ps, b) => SRes::Val(SVal::Fn(closure(lam_env(env, ps@, *b), ps@, *b))),
        Expr::Match(d, bs) => match sem(env, *d) {
            SRes::Trap(t) => SRes::Trap(t),
            SRes::Val(v) => {
                let i = find_branch(bs@, v->Comp_0, 0);
                if i < bs@.len() {
                    sem(bind_all(env, bs@[i as int].bindings@, v->Comp_1, bs@[i as int].bindings@.len()), bs@[i as int].value)
                } else { SRes::Trap(Seq::empty()) }
            },
        },
        Expr::Construct(c, _, xs) => match sem_list(env, xs, xs@.len()) {
            SList::Trap(t) => SRes::Trap(t),
            SList::Vals(vs) => SRes::Val(SVal::Comp(c, vs)),
        },
        Expr::Let(n, v, b) => match sem(env, *v) {
            SRes::Trap(t) => SRes::Trap(t),
            SRes::Val(x) => sem(env.insert(n, x), *b),
        },
        Expr::LetRec(n, _, v, b) => match under_pis(*v) {
            Expr::Lambda(ps, body) => sem(env.insert(n, SVal::Fn(rec_closure(rec_lam_env(env, n, ps@, *body), n, ps@, *body))), *b),
            _ => SRes::Trap(Seq::empty()),
        },
        Expr::Pi(_, b) => sem(env, *b),
        Expr::PiApply(b, _) => sem(env, *b),
        Expr::Trap(m, _) => SRes::Trap(m@),
    }
}
/// the first n expressions, left to right, stopping at the first trap
pub open spec fn sem_list(env: SEnv, xs: Vec<Expr>, n: nat) -> SList decreases xs, n {
    if n == 0 || n > xs@.len() { SList::Vals(Seq::empty()) } else {
        match sem_list(env, xs, (n - 1) as nat) {
            SList::Trap(t) => SList::Trap(t),
            SList::Vals(vs) => match sem(env, xs@[n - 1]) {
                SRes::Trap(t) => SList::Trap(t),
                SRes::Val(v) => SList::Vals(vs.push(v)),
            },
        }
    }
}

// ---- what the IR validator guarantees about an expression (partial correctness:
// values have the kind their context needs, scopes are closed, arities match)
pub open spec fn scoped(env: SEnv, e: Expr) -> bool decreases e, 0nat {
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) => true,
        Expr::Name(n) => env.contains_key(n),
        Expr::Call(f, args) => scoped_list(env, args, args@.len()) && scoped(env, *f)
            && (sem(env, *f) is Val ==> sem(env, *f)->Val_0 is Fn),
        Expr::If(c, t, e) => scoped(env, *c) && scoped(env, *t) && scoped(env, *e)
            && (sem(env, *c) is Val ==> sem(env, *c)->Val_0 is Bool),
        Expr::Op(a, op, b) => scoped(env, *a) && scoped(env, *b)
            && (sem(env, *a) is Val ==> sem(env, *a)->Val_0 is Int)
            && (sem(env, *b) is Val ==> sem(env, *b)->Val_0 is Int),
        Expr::Intrinsic(i, xs) => xs@.len() == intrinsic_arity(i) && scoped_list(env, xs, xs@.len())
            && (forall|k: int| 0 <= k < xs@.len() && sem(env, #[trigger] xs@[k]) is Val ==> arg_kind(i, k, sem(env, xs@[k])->Val_0)),
        Expr::Lambda(ps, b) => fv(e).subset_of(env.dom()),
        Expr::Match(d, bs) => scoped(env, *d) && (sem(env, *d) is Val ==> {
            let v = sem(env, *d)->Val_0;
            let i = find_branch(bs@, v->Comp_0, 0);
            v is Comp && i < bs@.len() && bs@[i as int].bindings@.len() == v->Comp_1.len()
              && scoped(bind_all(env, bs@[i as int].bindings@, v->Comp_1, bs@[i as int].bindings@.len()), bs@[i as int].value)
        }),
        Expr::Construct(c, _, xs) => scoped_list(env, xs, xs@.len()),
        Expr::Let(n, v, b) => scoped(env, *v) && (sem(env, *v) is Val ==> scoped(env.insert(n, sem(env, *v)->Val_0), *b)),
        Expr::LetRec(n, _, v, b) => match under_pis(*v) {
            Expr::Lambda(ps, body) => fv(*v).remove(n).subset_of(env.dom()) && scoped(env.insert(n, SVal::Fn(rec_closure(rec_lam_env(env, n, ps@, *body), n, ps@, *body))), *b),
            _ => false,
        },
        Expr::Pi(_, b) => scoped(env, *b),
        Expr::PiApply(b, _) => scoped(env, *b),
    }
}
pub open spec fn scoped_list(env: SEnv, xs: Vec<Expr>, n: nat) -> bool decreases xs, n {
    if n == 0 || n > xs@.len() { true } else { scoped_list(env, xs, (n - 1) as nat) && scoped(env, xs@[n - 1]) }
}
pub open spec fn arg_kind(i: Intrinsic, k: int, v: SVal) -> bool {
    match i {
        Intrinsic::StringLen => v is Str,
        Intrinsic::StringConcat => v is Str,
        Intrinsic::StringCharAt => if k == 0 { v is Int } else { v is Str },
        Intrinsic::StringSubstring => if k <= 1 { v is Int } else { v is Str },
        Intrinsic::StringFromChar => v is Int,
        Intrinsic::IntToString => v is Int,
    }
}
proof fn scoped_at(env: SEnv, xs: Vec<Expr>, n: nat, k: int)
    requires scoped_list(env, xs, n), 0 <= k < n <= xs@.len(),
    ensures scoped(env, xs@[k]),
    decreases n,
{
    if k < n - 1 { scoped_at(env, xs, (n - 1) as nat, k); }
}
proof fn list_at(env: SEnv, xs: Vec<Expr>, n: nat)
    requires n <= xs@.len(), sem_list(env, xs, n) is Vals,
    ensures sem_list(env, xs, n)->Vals_0.len() == n,
        forall|k: int| 0 <= k < n ==> sem(env, #[trigger] xs@[k]) == SRes::Val(sem_list(env, xs, n)->Vals_0[k]),
    decreases n,
{
    if n > 0 { list_at(env, xs, (n - 1) as nat); }
}
proof fn list_trap(env: SEnv, xs: Vec<Expr>, n: nat, m: nat)
    requires n <= m <= xs@.len(), sem_list(env, xs, n) is Trap,
    ensures sem_list(env, xs, m) == sem_list(env, xs, n),
    decreases m,
{
    if m > n { list_trap(env, xs, n, (m - 1) as nat); }
}
proof fn find_branch_step(bs: Seq<Branch>, ctor: Name, i: nat)
    requires i < bs.len(),
    ensures bs[i as int].ctor == ctor ==> find_branch(bs, ctor, i) == i,
            bs[i as int].ctor != ctor ==> find_branch(bs, ctor, i) == find_branch(bs, ctor, i + 1),
{}

/// the first n results, when they are all values
pub open spec fn vals_of(env: SEnv, xs: Vec<Expr>, n: nat) -> Seq<SVal> {
    Seq::new(n, |k: int| sem(env, xs@[k])->Val_0)
}
proof fn list_vals(env: SEnv, xs: Vec<Expr>, n: nat)
    requires n <= xs@.len(), forall|k: int| 0 <= k < n ==> sem(env, #[trigger] xs@[k]) is Val,
    ensures sem_list(env, xs, n) == SList::Vals(vals_of(env, xs, n)),
    decreases n,
{
    if n > 0 {
        list_vals(env, xs, (n - 1) as nat);
        assert(vals_of(env, xs, n) =~= vals_of(env, xs, (n - 1) as nat).push(sem(env, xs@[n - 1])->Val_0));
    } else {
        assert(vals_of(env, xs, n) =~= Seq::empty());
    }
}
/// a trap in argument k, the ones before it being values, is the result
proof fn list_first_trap(env: SEnv, xs: Vec<Expr>, k: nat)
    requires k < xs@.len(), forall|j: int| 0 <= j < k ==> sem(env, #[trigger] xs@[j]) is Val, sem(env, xs@[k as int]) is Trap,
    ensures sem_list(env, xs, xs@.len()) == SList::Trap(sem(env, xs@[k as int])->Trap_0),
{
    list_vals(env, xs, k);
    assert(sem_list(env, xs, (k + 1) as nat) == SList::Trap(sem(env, xs@[k as int])->Trap_0));
    list_trap(env, xs, (k + 1) as nat, xs@.len());
}
#[verifier::spinoff_prover]
proof fn intrinsic_scope(env: SEnv, i: Intrinsic, xs: Vec<Expr>)
    requires scoped(env, Expr::Intrinsic(i, xs)),
    ensures
        xs@.len() == intrinsic_arity(i),
        forall|k: int| 0 <= k < xs@.len() ==> scoped(env, #[trigger] xs@[k]),
        forall|k: int| 0 <= k < xs@.len() && sem(env, #[trigger] xs@[k]) is Val ==> arg_kind(i, k, sem(env, xs@[k])->Val_0),
{
    assert forall|k: int| 0 <= k < xs@.len() implies scoped(env, #[trigger] xs@[k]) by { scoped_at(env, xs, xs@.len(), k); }
}
pub open spec fn first_trap(env: SEnv, xs: Vec<Expr>, k: int) -> bool {
    0 <= k < xs@.len() && sem(env, xs@[k]) is Trap && forall|j: int| 0 <= j < k ==> sem(env, #[trigger] xs@[j]) is Val
}
#[verifier::spinoff_prover]
proof fn intrinsic_traps(env: SEnv, i: Intrinsic, xs: Vec<Expr>)
    ensures
        forall|k: int| #[trigger] first_trap(env, xs, k) ==> sem(env, Expr::Intrinsic(i, xs)) == sem(env, xs@[k]),
        (forall|k: int| 0 <= k < xs@.len() ==> sem(env, #[trigger] xs@[k]) is Val) ==>
            sem(env, Expr::Intrinsic(i, xs)) == SRes::Val(intrinsic_spec(i, vals_of(env, xs, xs@.len()))),
{
    assert forall|k: int| #[trigger] first_trap(env, xs, k) implies sem(env, Expr::Intrinsic(i, xs)) == sem(env, xs@[k]) by {
        list_first_trap(env, xs, k as nat);
    }
    if forall|k: int| 0 <= k < xs@.len() ==> sem(env, #[trigger] xs@[k]) is Val {
        list_vals(env, xs, xs@.len());
    }
}

// ---- an expression depends on its free names only
pub open spec fn agree(e1: SEnv, e2: SEnv, s: Set<Name>) -> bool {
    forall|n: Name| #[trigger] s.contains(n) ==> e1.contains_key(n) && e2.contains_key(n) && e1[n] == e2[n]
}
proof fn bind_dom(env: SEnv, names: Seq<Name>, vals: Seq<SVal>, n: nat)
    requires n <= names.len(),
    ensures forall|x: Name| #[trigger] bind_all(env, names, vals, n).contains_key(x) <==> env.contains_key(x) || names.take(n as int).contains(x),
    decreases n,
{
    if n > 0 {
        bind_dom(env, names, vals, (n - 1) as nat);
        assert(names.take(n as int) =~= names.take(n - 1).push(names[n - 1]));
        assert forall|x: Name| names.take(n as int).contains(x) <==> names.take(n - 1).contains(x) || x == names[n - 1] by {
            if names.take(n as int).contains(x) && x != names[n - 1] {
                let i = names.take(n as int).index_of(x);
                assert(names.take(n as int)[i] == x);
                assert(names.take(n - 1)[i] == x);
            }
            if names.take(n - 1).contains(x) {
                let i = names.take(n - 1).index_of(x);
                assert(names.take(n as int)[i] == x);
            }
            assert(names.take(n as int)[n - 1] == names[n - 1]);
        }
        let prev = bind_all(env, names, vals, (n - 1) as nat);
        assert(bind_all(env, names, vals, n) == prev.insert(names[n - 1], vals[n - 1]));
        assert forall|x: Name| #[trigger] bind_all(env, names, vals, n).contains_key(x) <==> env.contains_key(x) || names.take(n as int).contains(x) by {
            assert(bind_all(env, names, vals, n).contains_key(x) <==> prev.contains_key(x) || x == names[n - 1]);
            assert(names.take(n as int).contains(x) <==> names.take(n - 1).contains(x) || x == names[n - 1]);
        }
    } else {
        assert(names.take(0) =~= Seq::empty());
        assert(bind_all(env, names, vals, n) == env);
        assert forall|x: Name| !names.take(0).contains(x) by {}
    }
}
proof fn bind_agree(e1: SEnv, e2: SEnv, names: Seq<Name>, vals: Seq<SVal>, n: nat, s: Set<Name>)
    requires n <= names.len(), agree(e1, e2, s.difference(names.take(n as int).to_set())),
    ensures agree(bind_all(e1, names, vals, n), bind_all(e2, names, vals, n), s),
    decreases n,
{
    if n == 0 {
        assert(names.take(0).to_set() =~= Set::empty());
        assert forall|x: Name| #[trigger] s.contains(x) implies e1.contains_key(x) && e2.contains_key(x) && e1[x] == e2[x] by {
            assert(s.difference(names.take(0).to_set()).contains(x));
        }
    } else {
        assert(names.take(n as int) =~= names.take(n - 1).push(names[n - 1]));
        let s1 = s.remove(names[n - 1]);
        assert(agree(e1, e2, s1.difference(names.take(n - 1).to_set()))) by {
            assert forall|x: Name| #[trigger] s1.difference(names.take(n - 1).to_set()).contains(x) implies
                e1.contains_key(x) && e2.contains_key(x) && e1[x] == e2[x] by {
                assert(!names.take(n as int).contains(x)) by {
                    if names.take(n as int).contains(x) {
                        let i = names.take(n as int).index_of(x);
                        assert(names.take(n as int)[i] == x);
                        assert(i < n - 1);
                        assert(names.take(n - 1)[i] == x);
                    }
                }
                assert(s.difference(names.take(n as int).to_set()).contains(x));
            }
        }
        bind_agree(e1, e2, names, vals, (n - 1) as nat, s1);
        assert forall|x: Name| #[trigger] s.contains(x) implies bind_all(e1, names, vals, n).contains_key(x)
            && bind_all(e2, names, vals, n).contains_key(x) && bind_all(e1, names, vals, n)[x] == bind_all(e2, names, vals, n)[x] by {
            if x != names[n - 1] { assert(s1.contains(x)); }
        }
    }
}
proof fn same_restrict(e1: SEnv, e2: SEnv, s: Set<Name>)
    requires agree(e1, e2, s),
    ensures e1.restrict(s) == e2.restrict(s),
{
    assert(e1.restrict(s) =~= e2.restrict(s));
}
proof fn agree_less(e1: SEnv, e2: SEnv, s: Set<Name>, t: Set<Name>)
    requires agree(e1, e2, s), t.subset_of(s),
    ensures agree(e1, e2, t),
{}
proof fn fv_list_at(xs: Vec<Expr>, n: nat, k: int)
    requires 0 <= k < n <= xs@.len(),
    ensures fv(xs@[k]).subset_of(fv_list(xs, n)),
    decreases n,
{
    if k < n - 1 { fv_list_at(xs, (n - 1) as nat, k); }
}
proof fn fv_branch_at(bs: Vec<Branch>, n: nat, k: int)
    requires 0 <= k < n <= bs@.len(),
    ensures fv(bs@[k].value).difference(bs@[k].bindings@.to_set()).subset_of(fv_branches(bs, n)),
    decreases n,
{
    if k < n - 1 { fv_branch_at(bs, (n - 1) as nat, k); }
}
proof fn fv_pis(e: Expr)
    ensures fv(under_pis(e)) == fv(e),
    decreases e,
{
    match e { Expr::Pi(_, b) => fv_pis(*b), _ => {} }
}
#[verifier::spinoff_prover]
proof fn sem_frame(e1: SEnv, e2: SEnv, e: Expr)
    requires agree(e1, e2, fv(e)),
    ensures sem(e1, e) == sem(e2, e), scoped(e1, e) == scoped(e2, e),
    decreases e, 0nat,
{
    match e {
        Expr::Bool(_) | Expr::Int(_) | Expr::String(_) | Expr::Trap(_, _) => {}
        Expr::Name(n) => { assert(fv(e).contains(n)); }
        Expr::Call(f, args) => {
            agree_less(e1, e2, fv(e), fv(*f));
            sem_frame(e1, e2, *f);
            agree_less(e1, e2, fv(e), fv_list(args, args@.len()));
            sem_frame_list(e1, e2, args, args@.len());
        }
        Expr::If(c, t, x) => {
            agree_less(e1, e2, fv(e), fv(*c)); agree_less(e1, e2, fv(e), fv(*t)); agree_less(e1, e2, fv(e), fv(*x));
            sem_frame(e1, e2, *c); sem_frame(e1, e2, *t); sem_frame(e1, e2, *x);
        }
        Expr::Op(a, _, b) => {
            agree_less(e1, e2, fv(e), fv(*a)); agree_less(e1, e2, fv(e), fv(*b));
            sem_frame(e1, e2, *a); sem_frame(e1, e2, *b);
        }
        Expr::Intrinsic(i, xs) => {
            sem_frame_list(e1, e2, xs, xs@.len());
            assert forall|k: int| 0 <= k < xs@.len() implies sem(e1, #[trigger] xs@[k]) == sem(e2, xs@[k]) by {
                fv_list_at(xs, xs@.len(), k);
                agree_less(e1, e2, fv(e), fv(xs@[k]));
                sem_frame(e1, e2, xs@[k]);
            }
        }
        Expr::Construct(_, _, xs) => { sem_frame_list(e1, e2, xs, xs@.len()); }
        Expr::Lambda(ps, b) => {
            assert(lam_env(e1, ps@, *b) =~= lam_env(e2, ps@, *b));
            assert(fv(e).subset_of(e1.dom()) && fv(e).subset_of(e2.dom()));
        }
        Expr::Match(d, bs) => {
            agree_less(e1, e2, fv(e), fv(*d));
            sem_frame(e1, e2, *d);
            if sem(e1, *d) is Val {
                let v = sem(e1, *d)->Val_0;
                let i = find_branch(bs@, v->Comp_0, 0);
                if i < bs@.len() {
                    let b = bs@[i as int];
                    fv_branch_at(bs, bs@.len(), i as int);
                    agree_less(e1, e2, fv(e), fv(b.value).difference(b.bindings@.to_set()));
                    assert(b.bindings@.take(b.bindings@.len() as int) =~= b.bindings@);
                    bind_agree(e1, e2, b.bindings@, v->Comp_1, b.bindings@.len(), fv(b.value));
                    sem_frame(bind_all(e1, b.bindings@, v->Comp_1, b.bindings@.len()), bind_all(e2, b.bindings@, v->Comp_1, b.bindings@.len()), b.value);
                }
            }
        }
        Expr::Let(n, v, b) => {
            agree_less(e1, e2, fv(e), fv(*v));
            sem_frame(e1, e2, *v);
            if sem(e1, *v) is Val {
                let x = sem(e1, *v)->Val_0;
                agree_insert(e1, e2, fv(e), n, x, fv(*b));
                sem_frame(e1.insert(n, x), e2.insert(n, x), *b);
            }
        }
        Expr::LetRec(n, _, v, b) => {
            fv_pis(*v);
            match under_pis(*v) {
                Expr::Lambda(ps, body) => {
                    assert(fv(under_pis(*v)) == fv(*body).difference(param_names(ps@).to_set()));
                    let keep = fv(*body).difference(param_names(ps@).to_set()).remove(n);
                    assert forall|x: Name| keep.contains(x) implies fv(e).contains(x) by {
                        assert(fv(*v).contains(x));
                    }
                    assert(agree(e1, e2, keep));
                    same_restrict(e1, e2, keep);
                    let x = SVal::Fn(rec_closure(rec_lam_env(e1, n, ps@, *body), n, ps@, *body));
                    agree_insert(e1, e2, fv(e), n, x, fv(*b));
                    sem_frame(e1.insert(n, x), e2.insert(n, x), *b);
                    assert(fv(*v).remove(n).subset_of(fv(e)));
                }
                _ => {}
            }
        }
        Expr::Pi(_, b) => { sem_frame(e1, e2, *b); }
        Expr::PiApply(b, _) => { sem_frame(e1, e2, *b); }
    }
}
proof fn agree_insert(e1: SEnv, e2: SEnv, s: Set<Name>, n: Name, x: SVal, t: Set<Name>)
    requires agree(e1, e2, s), t.remove(n).subset_of(s),
    ensures agree(e1.insert(n, x), e2.insert(n, x), t),
{
    assert forall|m: Name| #[trigger] t.contains(m) && m != n implies s.contains(m) by { assert(t.remove(n).contains(m)); }
}
proof fn sem_frame_list(e1: SEnv, e2: SEnv, xs: Vec<Expr>, n: nat)
    requires n <= xs@.len(), agree(e1, e2, fv_list(xs, n)),
    ensures sem_list(e1, xs, n) == sem_list(e2, xs, n), scoped_list(e1, xs, n) == scoped_list(e2, xs, n),
    decreases xs, n,
{
    if n > 0 {
        agree_less(e1, e2, fv_list(xs, n), fv_list(xs, (n - 1) as nat));
        agree_less(e1, e2, fv_list(xs, n), fv(xs@[n - 1]));
        sem_frame_list(e1, e2, xs, (n - 1) as nat);
        sem_frame(e1, e2, xs@[n - 1]);
    }
}
/// what a function made by a lambda does with its arguments, told with the part of the environment it keeps
proof fn lam_env_enough(env: SEnv, ps: Seq<LambdaParam>, body: Expr, args: Seq<SVal>)
    requires fv(body).difference(param_names(ps).to_set()).subset_of(env.dom()),
    ensures sem(bind_all(env, param_names(ps), args, ps.len()), body) == sem(bind_all(lam_env(env, ps, body), param_names(ps), args, ps.len()), body),
        scoped(bind_all(env, param_names(ps), args, ps.len()), body) == scoped(bind_all(lam_env(env, ps, body), param_names(ps), args, ps.len()), body),
{
    let s = fv(body).difference(param_names(ps).to_set());
    assert(agree(env, lam_env(env, ps, body), s));
    assert(param_names(ps).take(ps.len() as int) =~= param_names(ps));
    bind_agree(env, lam_env(env, ps, body), param_names(ps), args, ps.len(), fv(body));
    sem_frame(bind_all(env, param_names(ps), args, ps.len()), bind_all(lam_env(env, ps, body), param_names(ps), args, ps.len()), body);
}
