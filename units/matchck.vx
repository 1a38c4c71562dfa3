// Unit `matchck`: coverage of matches (C09).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule ir :: $x:ident ==> $x
//@ rule pub ( crate ) ==> pub

//@ type ticc/src/compiler/ir.rs Symbol | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/ir.rs DefKind
//@ type ticc/src/compiler/ir.rs Ctors
//@ type ticc/src/compiler/ir.rs Field
//@ type ticc/src/compiler/ir.rs Type
//@ type ticc/src/compiler/ir.rs Ref | #[derive(Clone, Copy)]
pub struct CompleteUnit { u: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeId { n: u32 }
#[derive(Clone, Copy)]
pub struct Span { s: u32 }
pub struct Def { pub kind: DefKind }

// ---- the syntax tree, as its accessors present it
#[derive(Clone, Copy)]
pub struct SyntaxNode { pub id: NodeId, pub span: Span }
impl SyntaxNode {
    fn id(&self) -> (r: NodeId) ensures r == self.id { self.id }
    fn span(&self) -> (r: Span) ensures r == self.span { self.span }
}
pub struct Node { pub node: SyntaxNode }
impl Node {
    fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.node { &self.node }
}
pub struct MatchCase { pub node: SyntaxNode, pub ctor: Option<Node> }
impl MatchCase {
    fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.node { &self.node }
    fn ctor(&self) -> (r: Option<&Node>) ensures r == (match self.ctor { Some(n) => Some(&n), None => None }) {
        match &self.ctor { Some(n) => Some(n), None => None }
    }
}
pub struct MatchExpr { pub node: SyntaxNode, pub discr: Option<Node>, pub cases: Vec<MatchCase> }
impl MatchExpr {
    fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.node { &self.node }
    fn discr(&self) -> (r: Option<&Node>) ensures r == (match self.discr { Some(n) => Some(&n), None => None }) {
        match &self.discr { Some(n) => Some(n), None => None }
    }
    fn cases(&self) -> (r: &Vec<MatchCase>) ensures *r == self.cases { &self.cases }
}
#[verifier::external_body]
pub struct Types { t: u8 }
impl Types {
    pub uninterp spec fn of(&self, n: NodeId) -> Option<Type>;
    #[verifier::external_body]
    fn get(&self, n: &NodeId) -> (r: Option<&Type>)
        ensures r == (match self.of(*n) { Some(t) => Some(&t), None => None }) { unimplemented!() }
}
#[verifier::external_body]
pub struct DefSet { t: u8 }
impl DefSet {
    pub uninterp spec fn of(&self, s: Symbol) -> Def;
    #[verifier::external_body]
    fn lookup(&self, s: Symbol) -> (r: &Def) ensures *r == self.of(s) { unimplemented!() }
}
pub uninterp spec fn ref_at(refs: Seq<Ref>, n: NodeId) -> Option<Ref>;
/// `refs.iter().find(|r| r.node == n)`
#[verifier::external_body]
fn vx_find_ref<'a>(refs: &'a [Ref], n: NodeId) -> (r: Option<&'a Ref>)
    ensures r == (match ref_at(refs@, n) { Some(t) => Some(&t), None => None }) { unimplemented!() }
fn vx_contains(v: &Vec<Symbol>, s: &Symbol) -> (r: bool) ensures r == v@.contains(*s)
{
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *s,
        decreases v@.len() - i,
    {
        if v[i] == *s { return true; }
        i = i + 1;
    }
    false
}
pub open spec fn without(v: Seq<Symbol>, s: Symbol) -> Seq<Symbol> decreases v.len() {
    if v.len() == 0 { v } else if v.last() == s { without(v.drop_last(), s) } else { without(v.drop_last(), s).push(v.last()) }
}
/// `v.retain(|&c| c != s)` (Vec::retain keeps the order)
#[verifier::external_body]
fn vx_retain_ne(v: &mut Vec<Symbol>, s: Symbol) ensures final(v)@ == without(old(v)@, s) { unimplemented!() }
#[verifier::external_body]
fn vx_clone(v: &Vec<Symbol>) -> (r: Vec<Symbol>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { unimplemented!() }

// ---- diagnostics; the words of a message are abstracted to what it says
pub enum Severity { Error, Warning }
pub enum Msg { CannotMatch, Unreachable, Missing1(Symbol), Missing2(Symbol, Symbol), MissingMore(Symbol, usize) }
pub struct RawDiagnostic { pub message: Msg, pub severity: Severity, pub span: Span }
pub open spec fn err(m: Msg, s: Span) -> RawDiagnostic { RawDiagnostic { message: m, severity: Severity::Error, span: s } }

// ---- what must be reported
pub open spec fn case_sym(refs: Seq<Ref>, c: MatchCase) -> Option<Symbol> {
    match c.ctor { None => None, Some(n) => match ref_at(refs, n.node.id) { None => None, Some(r) => Some(r.symbol) } }
}
/// constructors not named by the first n branches, in declaration order
pub open spec fn missing(all: Seq<Symbol>, refs: Seq<Ref>, cs: Seq<MatchCase>, n: nat) -> Seq<Symbol> decreases n {
    if n == 0 { all } else {
        let m = missing(all, refs, cs, (n - 1) as nat);
        let s = case_sym(refs, cs[n - 1])->0;
        if all.contains(s) { without(m, s) } else { m }
    }
}
/// the errors for repeated branches among the first n
pub open spec fn repeated(all: Seq<Symbol>, refs: Seq<Ref>, cs: Seq<MatchCase>, n: nat) -> Seq<RawDiagnostic> decreases n {
    if n == 0 { Seq::empty() } else {
        let d = repeated(all, refs, cs, (n - 1) as nat);
        if repeats(all, refs, cs, n - 1) { d.push(err(Msg::Unreachable, cs[n - 1].node.span)) } else { d }
    }
}
/// branch i names a constructor of the type that an earlier branch names too
pub open spec fn repeats(all: Seq<Symbol>, refs: Seq<Ref>, cs: Seq<MatchCase>, i: int) -> bool {
    all.contains(case_sym(refs, cs[i])->0) && exists|j: int| 0 <= j < i && case_sym(refs, #[trigger] cs[j]) == case_sym(refs, cs[i])
}
pub open spec fn not_covered(m: Seq<Symbol>, s: Span) -> Seq<RawDiagnostic> {
    if m.len() == 0 { Seq::empty() }
    else if m.len() == 1 { seq![err(Msg::Missing1(m[0]), s)] }
    else if m.len() == 2 { seq![err(Msg::Missing2(m[0], m[1]), s)] }
    else { seq![err(Msg::MissingMore(m[0], (m.len() - 1) as usize), s)] }
}
pub open spec fn resolved(refs: Seq<Ref>, cs: Seq<MatchCase>) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> case_sym(refs, #[trigger] cs[i]) is Some
}
proof fn without_has(v: Seq<Symbol>, s: Symbol, x: Symbol)
    ensures without(v, s).contains(x) <==> v.contains(x) && x != s, without(v, s).len() <= v.len(),
    decreases v.len(),
{
    if v.len() > 0 {
        let d = v.drop_last();
        without_has(d, s, x);
        assert(v =~= d.push(v.last()));
        has_push(d, v.last(), x);
        has_push(without(d, s), v.last(), x);
    }
}
proof fn has_push(v: Seq<Symbol>, y: Symbol, x: Symbol)
    ensures v.push(y).contains(x) <==> v.contains(x) || x == y,
{
    if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(v.push(y)[i] == x); }
    if x == y { assert(v.push(y)[v.len() as int] == x); }
}
proof fn missing_has(all: Seq<Symbol>, refs: Seq<Ref>, cs: Seq<MatchCase>, n: nat, x: Symbol)
    requires n <= cs.len(), resolved(refs, cs),
    ensures missing(all, refs, cs, n).contains(x) <==>
        all.contains(x) && (forall|j: int| 0 <= j < n ==> case_sym(refs, #[trigger] cs[j]) != Some(x)),
        missing(all, refs, cs, n).len() <= all.len(),
    decreases n,
{
    if n > 0 {
        missing_has(all, refs, cs, (n - 1) as nat, x);
        let s = case_sym(refs, cs[n - 1])->0;
        without_has(missing(all, refs, cs, (n - 1) as nat), s, x);
    }
}
/// C09, first half: a match all of whose branches resolve is reported as not exhaustive
/// exactly when some constructor has no branch
proof fn exhaustive(all: Seq<Symbol>, refs: Seq<Ref>, cs: Seq<MatchCase>, s: Span)
    requires resolved(refs, cs),
    ensures not_covered(missing(all, refs, cs, cs.len()), s).len() == 0 <==>
        (forall|x: Symbol| #[trigger] all.contains(x) ==> exists|j: int| 0 <= j < cs.len() && case_sym(refs, #[trigger] cs[j]) == Some(x)),
{
    let m = missing(all, refs, cs, cs.len());
    if m.len() > 0 {
        missing_has(all, refs, cs, cs.len(), m[0]);
        assert(m.contains(m[0]));
        assert(all.contains(m[0]));
    } else {
        assert forall|x: Symbol| #[trigger] all.contains(x) implies exists|j: int| 0 <= j < cs.len() && case_sym(refs, #[trigger] cs[j]) == Some(x) by {
            missing_has(all, refs, cs, cs.len(), x);
            assert(!m.contains(x));
        }
    }
}

pub open spec fn type_symbol(t: Type) -> Option<Symbol> {
    match t { Type::Named(s, _) => Some(s), Type::Folded(u, _) => match *u { Type::Named(s, _) => Some(s), _ => None }, _ => None }
}
pub open spec fn unknown(t: Type) -> bool {
    match t { Type::Error => true, Type::Folded(u, _) => *u is Error, _ => false }
}

//@ fn ticc/src/compiler/matchck.rs check
//@ ret r
//@ rule node :: MatchExpr < '_ > ==> & MatchExpr
//@ rule & HashMap < NodeId , ir :: Type > ==> & Types
//@ rule refs . iter ( ) . find ( | r | r . node == $x ) ? ==> vx_find_ref ( refs , $x ) ?
//@ rule err_fmt ! ( "cannot match on " , ty . clone ( ) , ) ==> Msg :: CannotMatch
//@ rule err_fmt ! ( "unreachable pattern" ) ==> Msg :: Unreachable
//@ rule err_fmt ! ( "pattern " , ctor , " not covered" , ) ==> Msg :: Missing1 ( ctor )
//@ rule err_fmt ! ( "patterns " , ctor1 , " and " , ctor2 , " not covered" , ) ==> Msg :: Missing2 ( ctor1 , ctor2 )
//@ rule err_fmt ! ( "patterns " , ctor , " and " , rest . len ( ) , " more not covered" , ) ==> Msg :: MissingMore ( ctor , missing_ctors . len ( ) - 1 )
//@ rule ctors . clone ( ) ==> vx_clone ( ctors )
//@ rule all_ctors . clone ( ) ==> vx_clone ( & all_ctors )
//@ rule unreachable ! ( ) ==> vx_unreachable ( )
//@ rule $v:ident . contains ( & r . symbol ) ==> vx_contains ( & $v , & r . symbol )
//@ rule missing_ctors . retain ( | & c | c != r . symbol ) ==> vx_retain_ne ( & mut missing_ctors , r . symbol )
//@ rule match missing_ctors . as_slice ( ) { & [ ] => { $a:rest } & [ ctor ] => { $b:rest } & [ ctor1 , ctor2 ] => { $c:rest } & [ ctor , ref rest @ .. ] => { $d:rest } } ==> if missing_ctors . len ( ) == 0 { $a } else if missing_ctors . len ( ) == 1 { let ctor = missing_ctors [ 0 ] ; $b } else if missing_ctors . len ( ) == 2 { let ctor1 = missing_ctors [ 0 ] ; let ctor2 = missing_ctors [ 1 ] ; $c } else { let ctor = missing_ctors [ 0 ] ; $d }
    requires
        // a value whose type is known has a type that is defined as a type
        expr.discr is Some && types.of(expr.discr->0.node.id) is Some && type_symbol(types.of(expr.discr->0.node.id)->0) is Some
            ==> defs.of(type_symbol(types.of(expr.discr->0.node.id)->0)->0).kind is Type,
    ensures
        (expr.discr is Some && types.of(expr.discr->0.node.id) is Some) ==> ({
            let t = types.of(expr.discr->0.node.id)->0;
            let cannot = old(diagnostics)@.push(err(Msg::CannotMatch, expr.discr->0.node.span));
            if unknown(t) { final(diagnostics)@ == old(diagnostics)@ }
            else if type_symbol(t) is None { final(diagnostics)@ == cannot }
            else {
                match defs.of(type_symbol(t)->0).kind->ctors {
                    Ctors::Opaque => final(diagnostics)@ == cannot,
                    Ctors::List(all) => resolved(refs@, expr.cases@) ==>
                        final(diagnostics)@ == old(diagnostics)@ + repeated(all@, refs@, expr.cases@, expr.cases@.len())
                            + not_covered(missing(all@, refs@, expr.cases@, expr.cases@.len()), expr.node.span),
                }
            }
        }),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let ghost d0 = diagnostics@;
//@ loop 0
    invariant
        vx_it0.seq().len() == expr.cases@.len(),
        forall|k: int| 0 <= k < expr.cases@.len() ==> *#[trigger] vx_it0.seq()[k] == expr.cases@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> case_sym(refs@, #[trigger] expr.cases@[k]) is Some,
        missing_ctors@ == missing(all_ctors@, refs@, expr.cases@, vx_it0.index() as nat),
        diagnostics@ == d0 + repeated(all_ctors@, refs@, expr.cases@, vx_it0.index() as nat),
//@ loophead 0
    proof {
        assert(*case == expr.cases@[vx_it0.index() as int]);
        let i = vx_it0.index() as int;
        if case_sym(refs@, *case) is Some {
            let pre = expr.cases@.take(i + 1);
            missing_has(all_ctors@, refs@, pre, i as nat, case_sym(refs@, *case)->0);
            missing_take(all_ctors@, refs@, expr.cases@, i as nat, (i + 1) as nat);
            assert forall|j: int| 0 <= j < i implies #[trigger] pre[j] == expr.cases@[j] by {}
            assert(repeats(all_ctors@, refs@, expr.cases@, i) <==> all_ctors@.contains(case_sym(refs@, *case)->0)
                && !missing_ctors@.contains(case_sym(refs@, *case)->0)) by {
                if all_ctors@.contains(case_sym(refs@, *case)->0) && !missing_ctors@.contains(case_sym(refs@, *case)->0) {
                    let j = choose|j: int| 0 <= j < i && case_sym(refs@, #[trigger] pre[j]) == Some(case_sym(refs@, *case)->0);
                    assert(case_sym(refs@, expr.cases@[j]) == case_sym(refs@, *case));
                }
                if repeats(all_ctors@, refs@, expr.cases@, i) {
                    let j = choose|j: int| 0 <= j < i && case_sym(refs@, #[trigger] expr.cases@[j]) == case_sym(refs@, expr.cases@[i]);
                    assert(case_sym(refs@, pre[j]) == case_sym(refs@, *case));
                }
            }
            if !all_ctors@.contains(case_sym(refs@, *case)->0) { }
        }
        assert forall|a: Seq<RawDiagnostic>, x: RawDiagnostic| #[trigger] (d0 + a.push(x)) == (d0 + a).push(x) by { assert(d0 + a.push(x) =~= (d0 + a).push(x)); }
    }
//@ before match missing_ctors
    proof {
        if missing_ctors@.len() > 0 { missing_has(all_ctors@, refs@, expr.cases@, expr.cases@.len(), missing_ctors@[0]); }
        let d1 = diagnostics@;
        assert(d1 + Seq::<RawDiagnostic>::empty() =~= d1);
        assert forall|x: RawDiagnostic| #[trigger] d1.push(x) == d1 + seq![x] by { assert(d1.push(x) =~= d1 + seq![x]); }
    }
//@ end
proof fn missing_take(all: Seq<Symbol>, refs: Seq<Ref>, cs: Seq<MatchCase>, n: nat, m: nat)
    requires n <= m <= cs.len(),
    ensures missing(all, refs, cs.take(m as int), n) == missing(all, refs, cs, n),
    decreases n,
{
    if n > 0 { missing_take(all, refs, cs, (n - 1) as nat, m); }
}

} // verus!
fn main() {}
