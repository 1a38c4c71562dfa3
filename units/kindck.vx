// Unit `kindck`: types applied to the right number of arguments (C10).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule ir :: $x:ident ==> $x
//@ rule pub ( crate ) ==> pub

//@ type ticc/src/compiler/ir.rs Symbol | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/ir.rs DefKind
//@ type ticc/src/compiler/ir.rs Ctors
//@ type ticc/src/compiler/ir.rs Field
//@ type ticc/src/compiler/ir.rs Type
//@ type ticc/src/compiler/ir.rs Ref | #[derive(Clone, Copy)]
pub struct CompleteUnit { u: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeId { n: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Span { s: u32 }
pub struct Def { pub kind: DefKind }
#[verifier::external_body]
pub struct DefSet { t: u8 }
impl DefSet {
    pub uninterp spec fn of(&self, s: Symbol) -> Def;
    #[verifier::external_body]
    fn lookup(&self, s: Symbol) -> (r: &Def) ensures *r == self.of(s) { unimplemented!() }
}
#[verifier::external_body]
fn vx_unreachable() -> ! requires false { unimplemented!() }

// ---- declarative kinding
/// a symbol used as a type is defined as a type (the resolver records nothing else there)
pub open spec fn type_syms(defs: &DefSet, t: Type) -> bool decreases t {
    match t {
        Type::Named(s, ts) => defs.of(s).kind is Type && forall|i: int| 0 <= i < ts@.len() ==> type_syms(defs, #[trigger] ts@[i]),
        Type::Fn(a, b) | Type::Folded(a, b) => type_syms(defs, *a) && type_syms(defs, *b),
        _ => true,
    }
}
pub open spec fn params(defs: &DefSet, s: Symbol) -> nat { defs.of(s).kind->param_count as nat }
pub open spec fn well_kinded(defs: &DefSet, t: Type) -> bool decreases t {
    match t {
        Type::Named(s, ts) => ts@.len() == params(defs, s) && forall|i: int| 0 <= i < ts@.len() ==> well_kinded(defs, #[trigger] ts@[i]),
        Type::Fn(a, b) | Type::Folded(a, b) => well_kinded(defs, *a) && well_kinded(defs, *b),
        _ => true,
    }
}
/// b is a with every wrongly applied type replaced by the error type
pub open spec fn cleaned(defs: &DefSet, a: Type, b: Type) -> bool decreases a {
    match a {
        Type::Named(s, ts) => if ts@.len() != params(defs, s) { b is Error } else {
            match b {
                Type::Named(s2, us) => s2 == s && us@.len() == ts@.len()
                    && forall|i: int| 0 <= i < ts@.len() ==> cleaned(defs, #[trigger] ts@[i], us@[i]),
                _ => false,
            }
        },
        Type::Fn(x, y) => b is Fn && cleaned(defs, *x, *b->Fn_0) && cleaned(defs, *y, *b->Fn_1),
        Type::Folded(x, y) => b is Folded && cleaned(defs, *x, *b->Folded_0) && cleaned(defs, *y, *b->Folded_1),
        _ => a == b,
    }
}
/// equal up to the identity of vectors
pub open spec fn same(a: Type, b: Type) -> bool decreases a {
    match a {
        Type::Named(s, ts) => match b {
            Type::Named(s2, us) => s2 == s && us@.len() == ts@.len() && forall|i: int| 0 <= i < ts@.len() ==> same(#[trigger] ts@[i], us@[i]),
            _ => false,
        },
        Type::Fn(x, y) => b is Fn && same(*x, *b->Fn_0) && same(*y, *b->Fn_1),
        Type::Folded(x, y) => b is Folded && same(*x, *b->Folded_0) && same(*y, *b->Folded_1),
        _ => a == b,
    }
}
/// what is left is well kinded, and a well-kinded type is left alone
proof fn cleaned_is_well(defs: &DefSet, a: Type, b: Type)
    requires cleaned(defs, a, b),
    ensures well_kinded(defs, b), well_kinded(defs, a) ==> same(a, b),
    decreases a,
{
    match a {
        Type::Named(s, ts) => if ts@.len() == params(defs, s) {
            match b {
                Type::Named(s2, us) => {
                    assert forall|i: int| 0 <= i < us@.len() implies well_kinded(defs, #[trigger] us@[i]) by {
                        assert(cleaned(defs, ts@[i], us@[i]));
                        cleaned_is_well(defs, ts@[i], us@[i]);
                    }
                    if well_kinded(defs, a) {
                        assert forall|i: int| 0 <= i < ts@.len() implies same(#[trigger] ts@[i], us@[i]) by {
                            assert(cleaned(defs, ts@[i], us@[i]));
                            cleaned_is_well(defs, ts@[i], us@[i]);
                        }
                    }
                }
                _ => {}
            }
        },
        Type::Fn(x, y) => { cleaned_is_well(defs, *x, *b->Fn_0); cleaned_is_well(defs, *y, *b->Fn_1); }
        Type::Folded(x, y) => { cleaned_is_well(defs, *x, *b->Folded_0); cleaned_is_well(defs, *y, *b->Folded_1); }
        _ => {}
    }
}

//@ fn ticc/src/compiler/kindck.rs check_ty
//@ rule unreachable ! ( ) ==> vx_unreachable ( )
//@ rule ir :: Type :: Fn ( a , b ) | ir :: Type :: Folded ( a , b ) => { $x:rest } ==> ir :: Type :: Fn ( a , b ) => { $x } ir :: Type :: Folded ( a , b ) => { $x }
    requires type_syms(defs, *old(ty)),
    ensures cleaned(defs, *old(ty), *final(ty)),
    decreases *old(ty),
//@ head
    let ghost t0 = *ty;
//@ loop 0
    invariant
        t0 is Named, type_syms(defs, t0), t0 == *old(ty),
        vx_it0.seq().len() == t0->Named_1@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == t0->Named_1@[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> cleaned(defs, t0->Named_1@[k], *final(#[trigger] vx_it0.seq()[k])),
//@ loophead 0
    proof {
        assert(*t == t0->Named_1@[vx_it0.index() as int]);
        assert(decreases_to!(t0 => t0->Named_1));
        assert(decreases_to!(t0->Named_1 => t0->Named_1@[vx_it0.index() as int]));
        assert(decreases_to!(t0 => *t));
    }
//@ end

pub open spec fn field_ok(defs: &DefSet, a: Field, b: Field) -> bool {
    match a { Field::Rec => b is Rec, Field::Type(t) => b is Type && cleaned(defs, t, b->Type_0) }
}
pub open spec fn fields_ok(defs: &DefSet, a: Seq<Field>, b: Seq<Field>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> field_ok(defs, #[trigger] a[i], b[i])
}
/// every type written in a definition is cleaned, nothing else changes
pub open spec fn def_ok(defs: &DefSet, a: DefKind, b: DefKind) -> bool {
    match a {
        DefKind::Value { type_vars, ty } => b is Value && b->Value_type_vars == type_vars && cleaned(defs, ty, b->Value_ty),
        DefKind::Ctor { type_symbol, type_params, fields, fn_ty } => b is Ctor && b->type_symbol == type_symbol
            && b->type_params == type_params && fields_ok(defs, fields@, b->fields@) && cleaned(defs, fn_ty, b->fn_ty),
        _ => a == b,
    }
}
pub open spec fn def_syms(defs: &DefSet, a: DefKind) -> bool {
    match a {
        DefKind::Value { type_vars, ty } => type_syms(defs, ty),
        DefKind::Ctor { type_symbol, type_params, fields, fn_ty } => type_syms(defs, fn_ty)
            && forall|i: int| 0 <= i < fields@.len() ==> (#[trigger] fields@[i] is Type ==> type_syms(defs, fields@[i]->Type_0)),
        _ => true,
    }
}
pub struct Item { pub defs: Vec<Def>, pub diagnostics: Vec<RawDiagnostic> }
#[verifier::external_body]
fn report_errors(defs: &DefSet, item: &mut Item) ensures final(item).defs == old(item).defs { unimplemented!() }

//@ fn ticc/src/compiler/kindck.rs kind_check
//@ rule in $i:ident ( fields ) ==> in $i ( fields . iter_mut ( ) )
    requires forall|i: int| 0 <= i < old(item).defs@.len() ==> def_syms(defs, (#[trigger] old(item).defs@[i]).kind),
    ensures final(item).defs@.len() == old(item).defs@.len(),
        forall|i: int| 0 <= i < old(item).defs@.len() ==> def_ok(defs, (#[trigger] old(item).defs@[i]).kind, final(item).defs@[i].kind),
//@ head
    let ghost d0 = item.defs@;
//@ loop 0
    invariant
        vx_it0.seq().len() == d0.len(),
        forall|i: int| 0 <= i < d0.len() ==> def_syms(defs, (#[trigger] d0[i]).kind),
        forall|k: int| 0 <= k < d0.len() ==> *(#[trigger] vx_it0.seq()[k]) == d0[k],
        forall|k: int| 0 <= k < vx_it0.index() ==> def_ok(defs, d0[k].kind, (*final(#[trigger] vx_it0.seq()[k])).kind),
//@ loophead 0
    let ghost k0 = def.kind;
    proof { assert(*def == d0[vx_it0.index() as int]); }
//@ loop 1
    invariant
        k0 is Ctor, def_syms(defs, k0),
        vx_it1.seq().len() == k0->fields@.len(),
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> *(#[trigger] vx_it1.seq()[k]) == k0->fields@[k],
        forall|k: int| 0 <= k < vx_it1.index() ==> field_ok(defs, k0->fields@[k], *final(#[trigger] vx_it1.seq()[k])),
//@ loophead 1
    proof { assert(*field == k0->fields@[vx_it1.index() as int]); }
//@ end

// ---- reporting
pub struct Tok { pub span: Span }
impl Tok { fn span(&self) -> (r: Span) ensures r == self.span { self.span } }
pub struct Name { pub token: Tok }
impl Name { fn token(&self) -> (r: &Tok) ensures *r == self.token { &self.token } }
pub struct Args { pub n: usize }
impl Args { fn count(&self) -> (r: usize) ensures r == self.n { self.n } }
pub struct NamedType { pub name: Option<Name>, pub args: Args }
impl NamedType {
    fn name(&self) -> (r: Option<&Name>) ensures r == (match self.name { Some(n) => Some(&n), None => None }) {
        match &self.name { Some(n) => Some(n), None => None }
    }
    fn type_args(&self) -> (r: &Args) ensures *r == self.args { &self.args }
}
pub uninterp spec fn ref_at(refs: Seq<Ref>, s: Span) -> Option<Ref>;
/// `refs.iter().find(|r| r.span == s)`
#[verifier::external_body]
fn vx_find_ref<'a>(refs: &'a [Ref], s: Span) -> (r: Option<&'a Ref>)
    ensures r == (match ref_at(refs@, s) { Some(t) => Some(&t), None => None }) { unimplemented!() }
pub enum Severity { Error, Warning }
pub enum Msg { Expects(Symbol, usize, usize) }
pub struct RawDiagnostic { pub message: Msg, pub severity: Severity, pub span: Span }

//@ fn ticc/src/compiler/kindck.rs report_type
//@ ret r
//@ rule ty : node :: NamedType ==> ty : & NamedType
//@ rule refs . iter ( ) . find ( | r | r . span == span ) ? ==> vx_find_ref ( refs , span ) ?
//@ rule unreachable ! ( ) ==> vx_unreachable ( )
//@ rule err_fmt ! ( ir :: Type :: Named ( r . symbol , Vec :: new ( ) ) , " expects " , $p:ident , " type arguments, got " , $a:ident , ) ==> Msg :: Expects ( r . symbol , $p , $a )
    requires ty.name is Some && ref_at(refs@, ty.name->0.token.span) is Some ==> defs.of(ref_at(refs@, ty.name->0.token.span)->0.symbol).kind is Type,
    ensures ({
        let span = ty.name->0.token.span;
        let sym = ref_at(refs@, span)->0.symbol;
        if ty.name is Some && ref_at(refs@, span) is Some && params(defs, sym) != ty.args.n {
            final(diagnostics)@ == old(diagnostics)@.push(RawDiagnostic {
                span, severity: Severity::Error, message: Msg::Expects(sym, params(defs, sym) as usize, ty.args.n) })
        } else { final(diagnostics)@ == old(diagnostics)@ }
    }),
//@ end

} // verus!
fn main() {}
