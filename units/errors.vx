// Unit `errors`: what the compiler found reaches the user: every diagnostic of every item in order,
// then every lint, each at its place and with its severity, the message put together from its parts
// (C08, C09, C10, C17).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule pub ( crate ) ==> pub
//@ rule ir :: $x:ident ==> $x
//@ rule super :: find_def ==> find_def
//@ include defs.inc
//@ include pos.inc
//@ type ticc/src/error.rs RawDiagnostic
//@ type ticc/src/error.rs RawMessage
//@ type ticc/src/error.rs RawSegment
//@ type ticc/src/lib.rs Severity | #[derive(Clone, Copy)]
//@ type ticc/src/lib.rs Diagnostic
pub struct CompleteUnit { u: u8 }
pub struct Item { pub defs: Vec<Def>, pub diagnostics: Vec<RawDiagnostic> }
pub struct CompilationUnit { pub items: Vec<Item>, pub src: Source }
pub struct Source { s: u8 }
pub uninterp spec fn compiled(c: CompilationUnit) -> CompilationUnit;
impl CompilationUnit {
    #[verifier::external_body]
    fn compile_to_end(&mut self) ensures *final(self) == compiled(*old(self)) { unimplemented!() }
}
/// `lint::lints` (unit `unused`); looking for them changes nothing once everything is compiled (unit `unit`)
pub uninterp spec fn linted(c: CompilationUnit) -> Seq<RawDiagnostic>;
#[verifier::external_body]
fn lints(c: &mut CompilationUnit) -> (r: Vec<RawDiagnostic>) ensures r@ == linted(*old(c)), *final(c) == *old(c) { unimplemented!() }
/// the text at a place
pub uninterp spec fn text(s: Source, p: Span) -> Seq<char>;
#[verifier::external_body]
fn vx_text<'a>(s: &'a Source, p: Span) -> (r: &'a str) ensures r@ == text(*s, p) { unimplemented!() }
/// `api::find_def` and the type printer (unit `hover`)
pub uninterp spec fn def_of(items: Seq<Item>, s: Symbol) -> Option<Def>;
#[verifier::external_body]
fn find_def(c: &CompilationUnit, s: Symbol) -> (r: Option<&Def>)
    ensures match r { Some(d) => def_of(c.items@, s) == Some(*d), None => def_of(c.items@, s) is None } { unimplemented!() }
pub uninterp spec fn type_text(c: CompilationUnit, t: Type) -> Seq<char>;
#[verifier::external_body]
pub struct TypePrinter<'a> { c: &'a CompilationUnit }
impl<'a> TypePrinter<'a> {
    uninterp spec fn of(&self) -> CompilationUnit;
    #[verifier::external_body]
    fn new(c: &'a CompilationUnit) -> (r: TypePrinter<'a>) ensures r.of() == *c { unimplemented!() }
    #[verifier::external_body]
    fn print_type(&mut self, t: &Type, to: &mut String)
        ensures final(self).of() == old(self).of(), final(to)@ == old(to)@ + type_text(old(self).of(), *t) { unimplemented!() }
}
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
pub uninterp spec fn decimal(x: usize) -> Seq<char>;
/// `write!(&mut message, "{}", x)`
#[verifier::external_body]
fn vx_put(s: &mut String, x: &usize) ensures final(s)@ == old(s)@ + decimal(*x) { unimplemented!() }

// ---- messages
spec fn part(c: CompilationUnit, s: RawSegment) -> Seq<char> {
    match s {
        RawSegment::Str(t) => t@,
        RawSegment::String(t) => t@,
        RawSegment::Usize(n) => decimal(n),
        RawSegment::Ty(t) => type_text(c, t),
        RawSegment::Symbol(x) => match def_of(c.items@, x) { Some(d) => text(c.src, d.span), None => unknown() },
    }
}
spec fn unknown() -> Seq<char> { "WTF"@ }
spec fn parts(c: CompilationUnit, v: Seq<RawSegment>, n: nat) -> Seq<char> decreases n {
    if n == 0 || n > v.len() { Seq::empty() } else { parts(c, v, (n - 1) as nat) + part(c, v[n - 1]) }
}
spec fn said(c: CompilationUnit, m: RawMessage) -> Seq<char> { parts(c, m.segments@, m.segments@.len()) }
//@ rule message . push_str ( $x:rest ) ==> vx_push_str ( & mut message , $x )
//@ rule ?write ! ( & mut message , "{}" , x ) ==> vx_put ( & mut message , x )
//@ rule ?& compilation . src [ def . span . source_range ( ) ] ==> vx_text ( & compilation . src , def . span )
//@ fn ticc/src/api/errors.rs format_message
//@ rule let def = match super :: find_def ( $a:rest ) { Some ( d ) => d , None => { $x:rest } } ; $y:rest ==> match find_def ( $a ) { Some ( def ) => { $y } , None => { $x } }
//@ rule continue ; ==>
//@ ret r
    requires old(type_printer).of() == *compilation,
    ensures final(type_printer).of() == *compilation, r@ == said(*compilation, *err),
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant vx_it0.seq() == err.segments@.map_values(|s: RawSegment| &s), type_printer.of() == *compilation,
        message@ =~= parts(*compilation, err.segments@, vx_it0.index@ as nat),
//@ loophead 0
    proof { assert(*segment == err.segments@[vx_it0.index@]); }
//@ end
/// the diagnostic is what was found, put in words
spec fn tells(c: CompilationUnit, e: RawDiagnostic, d: Diagnostic) -> bool {
    d.span == e.span && d.severity == e.severity && d.message@ == said(c, e.message)
}
spec fn found(items: Seq<Item>, n: nat) -> Seq<RawDiagnostic> decreases n {
    if n == 0 || n > items.len() { Seq::empty() } else { found(items, (n - 1) as nat) + items[n - 1].diagnostics@ }
}
//@ fn ticc/src/api/errors.rs diagnostics
//@ as tell_lint
//@ closure 0
//@ params fn tell_lint(err: RawDiagnostic, compilation: &CompilationUnit, printer: &mut TypePrinter) -> (r: Diagnostic)
//@ rule & mut printer ==> printer
    requires old(printer).of() == *compilation,
    ensures final(printer).of() == *compilation, tells(*compilation, err, r),
//@ end
//@ fn ticc/src/api/errors.rs diagnostics
//@ as item_list
//@ closure 1
//@ params fn item_list<'a>(item: &'a Item) -> (r: &'a Vec<RawDiagnostic>)
//@ rule item . diagnostics . iter ( ) ==> & item . diagnostics
    ensures *r == item.diagnostics,
//@ end
//@ fn ticc/src/api/errors.rs diagnostics
//@ as tell
//@ closure 2
//@ params fn tell(err: &RawDiagnostic, compilation: &CompilationUnit, printer: &mut TypePrinter) -> (r: Diagnostic)
//@ rule & mut printer ==> printer
    requires old(printer).of() == *compilation,
    ensures final(printer).of() == *compilation, tells(*compilation, *err, r),
//@ end
// the iterator chains, as the loops they perform
fn vx_lints(v: Vec<RawDiagnostic>, compilation: &CompilationUnit, printer: &mut TypePrinter) -> (r: Vec<Diagnostic>)
    requires old(printer).of() == *compilation,
    ensures final(printer).of() == *compilation, r@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> tells(*compilation, v@[k], #[trigger] r@[k]),
{
    let mut out: Vec<Diagnostic> = Vec::new();
    for e in it: v
        invariant it.seq() == v@, printer.of() == *compilation, out@.len() == it.index(), forall|k: int| 0 <= k < it.index() ==> tells(*compilation, v@[k], #[trigger] out@[k]),
    { out.push(tell_lint(e, compilation, printer)); }
    out
}
fn vx_found(items: &Vec<Item>, compilation: &CompilationUnit, printer: &mut TypePrinter, lints: Vec<Diagnostic>) -> (r: Vec<Diagnostic>)
    requires old(printer).of() == *compilation,
    ensures ({ let f = found(items@, items@.len()); r@.len() == f.len() + lints@.len()
        && (forall|k: int| 0 <= k < f.len() ==> tells(*compilation, f[k], #[trigger] r@[k])) && forall|k: int| f.len() <= k < r@.len() ==> #[trigger] r@[k] == lints@[k - f.len()] }),
{
    let mut out: Vec<Diagnostic> = Vec::new();
    let mut i: usize = 0;
    while i < items.len()
        invariant i <= items@.len(), printer.of() == *compilation, out@.len() == found(items@, i as nat).len(),
            forall|k: int| 0 <= k < out@.len() ==> tells(*compilation, found(items@, i as nat)[k], #[trigger] out@[k]),
        decreases items@.len() - i,
    {
        let l = item_list(&items[i]);
        let ghost f0 = found(items@, i as nat);
        let mut j: usize = 0;
        while j < l.len()
            invariant j <= l@.len(), i < items@.len(), l@ == items@[i as int].diagnostics@, printer.of() == *compilation, f0 == found(items@, i as nat), out@.len() == f0.len() + j,
                forall|k: int| 0 <= k < f0.len() ==> tells(*compilation, f0[k], #[trigger] out@[k]),
                forall|k: int| f0.len() <= k < out@.len() ==> tells(*compilation, l@[k - f0.len()], #[trigger] out@[k]),
            decreases l@.len() - j,
        { out.push(tell(&l[j], compilation, printer)); j = j + 1; }
        i = i + 1;
    }
    let ghost n = out@.len();
    let ghost o = out@;
    for d in it: lints
        invariant it.seq() == lints@, out@.len() == n + it.index(), forall|k: int| 0 <= k < n ==> #[trigger] out@[k] == o[k],
            forall|k: int| n <= k < out@.len() ==> #[trigger] out@[k] == lints@[k - n],
    { out.push(d); }
    out
}
//@ fn ticc/src/api/errors.rs diagnostics
//@ params fn diagnostics(compilation: &mut CompilationUnit) -> (r: Vec<Diagnostic>)
//@ rule crate :: lint :: lints ==> lints
//@ rule lints . into_iter ( ) . map ( $x:rest ) . collect :: < Vec < _ > > ( ) ==> vx_lints ( lints , compilation , & mut printer )
//@ rule compilation . items . iter ( ) . flat_map ( $x:rest ) . map ( $y:rest ) . chain ( lints ) ==> vx_found ( & compilation . items , compilation , & mut printer , lints )
    ensures ({
        let c = compiled(*old(compilation));
        let all = found(c.items@, c.items@.len()) + linted(c);
        r@.len() == all.len() && forall|k: int| 0 <= k < all.len() ==> tells(c, all[k], #[trigger] r@[k])
    }),
//@ end

} // verus!
fn main() {}
