// Unit `hover`: the text shown for a name or an expression (C21).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule $a . or_else ( | | $b:rest ) ==> ( match $a { Some ( vx_s ) => Some ( vx_s ) , None => { $b } } )
//@ rule ?$a . map ( | $x:ident | $b:rest ) ==> ( match $a { Some ( $x ) => Some ( $b ) , None => None } )
//@ rule ?$a . filter ( | def | def . has_name ) ==> ( match $a { Some ( vx_d ) => if vx_d . has_name { Some ( vx_d ) } else { None } , None => None } )
//@ rule ?& compilation . src [ $d . span . source_range ( ) ] ==> vx_text ( & compilation . src , $d . span )
//@ rule ?& self . compilation . src [ $d . span . source_range ( ) ] ==> vx_text ( & self . compilation . src , $d . span )
//@ rule to . push_str ( $x:rest ) ==> vx_push_str ( to , $x )
//@ rule to . push ( $x:rest ) ==> vx_push ( to , $x )
//@ rule kind . push_str ( $x:rest ) ==> vx_push_str ( & mut kind , $x )
//@ rule ?String :: from ( $x:rest ) ==> vx_own ( $x )
//@ rule super :: $x:ident ==> $x

//@ include defs.inc
//@ include pos.inc
//@ include text.inc
#[verifier::external_body]
fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
/// `&src[span.source_range()]`
#[verifier::external_body]
fn vx_text<'a>(s: &'a String, p: Span) -> (r: &'a str) ensures r@ == text_of(s@, p) { unimplemented!() }
spec fn text_of(s: Seq<char>, p: Span) -> Seq<char> { s.subrange(at(s, p.start.offset as int) as int, at(s, p.end.offset as int) as int) }
/// `std::collections::HashMap`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<(K, V)> }
impl<K, V> HashMap<K, V> {
    uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn new() -> (r: HashMap<K, V>) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self.map().contains_key(*k) && *v == self.map()[*k], None => !self.map().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
}
pub struct CompleteUnit { u: u8 }
/// the fields of an item that hovering can see; `syntax` stands for the tree
pub struct Item { pub span: Span, pub defs: Vec<Def>, pub refs: Vec<Ref>, pub types: HashMap<NodeId, Type> }
pub struct CompilationUnit { pub items: Vec<Item>, pub src: String }
pub uninterp spec fn compiled(c: CompilationUnit) -> CompilationUnit;
impl CompilationUnit {
    #[verifier::external_body]
    fn compile_to_end(&mut self) ensures *final(self) == compiled(*old(self)) { unimplemented!() }
}
//@ include find.inc
/// an expression of the syntax tree
#[verifier::external_body]
pub struct Expr<'a> { n: &'a str }
#[verifier::external_body]
pub struct Syntax<'a> { n: &'a str }
impl<'a> Syntax<'a> {
    uninterp spec fn span_(&self) -> Span;
    uninterp spec fn id_(&self) -> NodeId;
    #[verifier::external_body]
    fn span(&self) -> (r: Span) ensures r == self.span_() { unimplemented!() }
    #[verifier::external_body]
    fn id(&self) -> (r: NodeId) ensures r == self.id_() { unimplemented!() }
}
impl<'a> Expr<'a> {
    uninterp spec fn node(&self) -> Syntax<'a>;
    #[verifier::external_body]
    fn syntax(&self) -> (r: Syntax<'a>) ensures r == self.node() { unimplemented!() }
}
/// the innermost expression at a position, with its item
uninterp spec fn expr_at(c: CompilationUnit, p: Pos) -> Option<(Item, Expr<'static>)>;

// ---- types as they are shown
spec fn name_of(c: CompilationUnit, s: Symbol) -> Seq<char> {
    match def_of(c.items@, s) { Some(d) => if d.has_name { text_of(c.src@, d.span) } else { "???"@ }, None => "???"@ }
}
spec fn paren(yes: bool, t: Seq<char>) -> Seq<char> { if yes { seq!['('] + t + seq![')'] } else { t } }
spec fn shown(c: CompilationUnit, t: Type, prec: int) -> Seq<char> decreases t {
    match t {
        Type::Int => "int"@,
        Type::Bool => "bool"@,
        Type::String => "string"@,
        Type::Error => "?"@,
        Type::Infer => "_"@,
        Type::Named(s, a) => paren(prec >= 2 && a@.len() > 0, name_of(c, s) + args(c, a, a@.len())),
        Type::Fn(a, b) => paren(prec >= 1, shown(c, *a, 1) + " -> "@ + shown(c, *b, 0)),
        Type::Folded(a, b) => "{"@ + shown(c, *a, 0) + " => "@ + shown(c, *b, 0) + "}"@,
    }
}
spec fn args(c: CompilationUnit, a: Vec<Type>, n: nat) -> Seq<char> decreases a, n {
    if n == 0 || n > a@.len() { Seq::empty() } else { args(c, a, (n - 1) as nat) + seq![' '] + shown(c, a@[n - 1], 2) }
}
//@ type ticc/src/api.rs TypePrinter
impl<'a> TypePrinter<'a> {
    /// what is remembered about names is right
    spec fn ok(&self) -> bool {
        forall|s: Symbol| #[trigger] self.name_cache.map().contains_key(s) ==> self.name_cache.map()[s]@ == name_of(*self.compilation, s)
    }
//@ fn ticc/src/api.rs TypePrinter::new
//@ ret r
    ensures r.ok(), r.compilation == compilation,
//@ end
//@ fn ticc/src/api.rs TypePrinter::lookup_name
//@ ret r
    requires old(self).ok(),
    ensures final(self).ok(), final(self).compilation == old(self).compilation, r@ == name_of(*old(self).compilation, symbol),
//@ end
//@ fn ticc/src/api.rs TypePrinter::print_type
    requires old(self).ok(),
    ensures final(self).ok(), final(self).compilation == old(self).compilation, final(to)@ == old(to)@ + shown(*old(self).compilation, *ty, 0),
//@ end
//@ fn ticc/src/api.rs TypePrinter::print_type_prec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).compilation == old(self).compilation, final(to)@ == old(to)@ + shown(*old(self).compilation, *vx_ty, prec as int),
    decreases *vx_ty,
//@ rule ty : & ir :: Type ==> vx_ty : & ir :: Type
//@ rule match ty ==> match vx_ty
//@ head
    let ghost c = *self.compilation;
    let ghost pe = *vx_ty;
    let ghost s0 = to@;
//@ before in ir :: Type :: Named ( t , a ) => for ty in
    let ghost s1 = to@;
    proof { assert(s1 == s0 + (if prec >= 2 && a@.len() > 0 { seq!['('] } else { Seq::empty() }) + name_of(c, *t)); assert(s1 =~= s1 + args(c, *a, 0)); }
//@ loop 0
    invariant
        self.ok(), *self.compilation == c, self.compilation == old(self).compilation, pe == *vx_ty, pe == Type::Named(*t, *a),
        vx_it0.seq().len() == a@.len(),
        forall|k: int| 0 <= k < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[k]) == a@[k],
        to@ == s1 + args(c, *a, vx_it0.index() as nat),
//@ loophead 0
    let ghost k = vx_it0.index() as int;
    proof { assert(decreases_to!(pe => pe->Named_1)); assert(decreases_to!(pe->Named_1 => a@[k])); assert(*ty == a@[k]); assert(decreases_to!(pe => *ty)); }
//@ looptail 0
    proof { assert(to@ =~= s1 + args(c, *a, (k + 1) as nat)); }
//@ after match ty
    proof {
        match pe {
            Type::Named(t, a) => { assert(to@ =~= s0 + shown(c, pe, prec as int)); }
            Type::Fn(a, b) => { assert(to@ =~= s0 + shown(c, pe, prec as int)); }
            Type::Folded(a, b) => { assert(to@ =~= s0 + shown(c, pe, prec as int)); }
            _ => {}
        }
    }
//@ end
}

// ---- what is shown
pub struct Info { pub span: Span, pub doc: String }
spec fn stars(n: nat) -> Seq<char> decreases n { if n == 0 { "*"@ } else { stars((n - 1) as nat) + " -> *"@ } }
spec fn def_doc(c: CompilationUnit, d: Def) -> Option<Seq<char>> {
    let n = text_of(c.src@, d.span) + ": "@;
    match d.kind {
        DefKind::Value { ty, .. } => Some(n + shown(c, ty, 0)),
        DefKind::Ctor { fn_ty, .. } => Some(n + shown(c, fn_ty, 0)),
        DefKind::Type { param_count, .. } => Some(n + stars(param_count as nat)),
        DefKind::Module { .. } => None,
    }
}
spec fn name_info(c: CompilationUnit, p: Pos) -> Option<(Span, Seq<char>)> {
    match name_at(c.items@, p) {
        None => None,
        Some(r) => match def_of(c.items@, r.symbol) {
            None => None,
            Some(d) => match def_doc(c, d) { Some(t) => Some((r.span, t)), None => None },
        },
    }
}
spec fn type_info(c: CompilationUnit, p: Pos) -> Option<(Span, Seq<char>)> {
    match expr_at(c, p) {
        None => None,
        Some((i, e)) => if i.types.map().contains_key(e.node().id_()) { Some((e.node().span_(), shown(c, i.types.map()[e.node().id_()], 0))) } else { None },
    }
}
spec fn opt_info(o: Option<Info>) -> Option<(Span, Seq<char>)> { match o { Some(i) => Some((i.span, i.doc@)), None => None } }
#[verifier::external_body]
fn find_expr_at_pos<'a>(compilation: &'a CompilationUnit, pos: Pos) -> (r: Option<(&'a Item, Expr<'a>)>)
    ensures match r {
        None => expr_at(*compilation, pos) is None,
        Some((i, e)) => match expr_at(*compilation, pos) { Some((j, f)) => *i == j && e.node() == f.node(), None => false },
    } { unimplemented!() }
/// `format!("{}: ", n)`
#[verifier::external_body]
fn vx_colon(n: &str) -> (r: String) ensures r@ == n@ + ": "@ { unimplemented!() }
/// `format!("{}: {}", n, k)`
#[verifier::external_body]
fn vx_colon2(n: &str, k: String) -> (r: String) ensures r@ == n@ + ": "@ + k@ { unimplemented!() }
//@ expr ticc/src/api/info.rs find_expr_at_pos
//@ closure 0
//@ params fn item_around(item: &Item, pos: Pos) -> (r: bool)
    ensures r == touches(item.span, pos),
//@ end
//@ expr ticc/src/api/info.rs find_expr_at_pos
//@ closure 2
//@ params fn node_around(node: &Syntax<'_>, pos: Pos) -> (r: bool)
    ensures r == touches(node.span_(), pos),
//@ end
//@ fn ticc/src/api/info.rs def_info
//@ ret r
//@ rule format ! ( "{}: " , name ) ==> vx_colon ( name )
//@ rule format ! ( "{}: {}" , name , kind ) ==> vx_colon2 ( name , kind )
    ensures opt_info(r) == name_info(*compilation, pos),
//@ loop 0
    invariant kind@ == stars(vx_it0.index() as nat),
//@ end
//@ fn ticc/src/api/info.rs expr_info
//@ ret r
    ensures opt_info(r) == type_info(*compilation, pos),
//@ end
//@ fn ticc/src/api/info.rs info_at
//@ ret r
    ensures
        *final(compilation) == compiled(*old(compilation)),
        opt_info(r) == (match name_info(*final(compilation), pos) { Some(i) => Some(i), None => type_info(*final(compilation), pos) }),
//@ end
} // verus!
fn main() {}
