// Unit `tokens`: the tokens of a file, classified (C14).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ include defs.inc
//@ include pos.inc
//@ rule enum TokenKind { Import , $x:rest } ==> enum Syntax { Import , $x }
//@ type ticc/src/api/tokens.rs TokenKind | #[derive(Clone, Copy)]
//@ type ticc/src/api/tokens.rs Token | #[derive(Clone, Copy)]
//@ type ticc-syntax/src/lib.rs TokenKind | #[derive(Clone, Copy)]
//@ type ticc-syntax/src/lib.rs TriviaKind | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc-syntax/src/cursor.rs SyntaxElement
pub struct CompleteUnit { u: u8 }
pub struct SyntaxNode<'a> { pub t: &'a str }
/// tokens of the tree: what the cursor reads of them
pub struct SyntaxToken<'a> { pub k: Syntax, pub s: Span, pub t: &'a str }
pub struct TriviaToken<'a> { pub k: TriviaKind, pub s: Span, pub t: &'a str }
impl<'a> SyntaxToken<'a> {
    fn kind(&self) -> (r: Syntax) ensures r == self.k { self.k }
    fn span(&self) -> (r: Span) ensures r == self.s { self.s }
}
impl<'a> TriviaToken<'a> {
    fn kind(&self) -> (r: TriviaKind) ensures r == self.k { self.k }
    fn span(&self) -> (r: Span) ensures r == self.s { self.s }
}
/// `item.syntax.tree.root()`
pub struct Tree { pub t: u8 }
pub struct Item { pub syntax: Tree, pub defs: Vec<Def>, pub refs: Vec<Ref> }
pub struct CompilationUnit { pub items: Vec<Item> }
pub uninterp spec fn compiled(c: CompilationUnit) -> CompilationUnit;
impl CompilationUnit {
    #[verifier::external_body]
    fn compile_to_end(&mut self) ensures *final(self) == compiled(*old(self)) { unimplemented!() }
}
/// the nodes and leaves of the tree, in the order of the text
pub uninterp spec fn elements<'a>(t: Tree) -> Seq<SyntaxElement<'a>>;
#[verifier::external_body]
fn vx_elements<'a>(t: &'a Tree) -> (r: Vec<SyntaxElement<'a>>) ensures r@ == elements::<'a>(*t) { unimplemented!() }

// ---- what tells the kind of a name
/// `HashMap<K, &DefKind>`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct Kinds<'a, K> { k: Vec<(K, &'a DefKind)> }
impl<'a, K> Kinds<'a, K> {
    uninterp spec fn map(&self) -> Map<K, DefKind>;
    /// `get`, with the reference to the reference read
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&'a DefKind>)
        ensures match r { Some(v) => self.map().contains_key(*k) && *v == self.map()[*k], None => !self.map().contains_key(*k) } { unimplemented!() }
}
spec fn pairs<'a, K>(v: Seq<(K, &'a DefKind)>) -> Seq<(K, DefKind)> { v.map_values(|p: (K, &'a DefKind)| (p.0, *p.1)) }
spec fn put_all<K>(v: Seq<(K, DefKind)>, n: nat) -> Map<K, DefKind> decreases n {
    if n == 0 || n > v.len() { Map::empty() } else { put_all(v, (n - 1) as nat).insert(v[n - 1].0, v[n - 1].1) }
}
/// `collect::<HashMap<_, _>>()`: the last entry of a key stays
#[verifier::external_body]
fn vx_collect<'a, K>(v: Vec<(K, &'a DefKind)>) -> (r: Kinds<'a, K>) ensures r.map() == put_all(pairs(v@), v@.len()) { unimplemented!() }

spec fn def_pairs(ds: Seq<Def>) -> Seq<(Symbol, DefKind)> { ds.map_values(|d: Def| (d.symbol, d.kind)) }
spec fn all_defs(items: Seq<Item>, n: nat) -> Seq<(Symbol, DefKind)> decreases n {
    if n == 0 || n > items.len() { Seq::empty() } else { all_defs(items, (n - 1) as nat) + def_pairs(items[n - 1].defs@) }
}
/// the kind of every definition of the file
spec fn kinds_of(items: Seq<Item>) -> Map<Symbol, DefKind> { put_all(all_defs(items, items.len()), all_defs(items, items.len()).len()) }
/// the uses whose definition is in the file, with its kind
spec fn uses(rs: Seq<Ref>, ks: Map<Symbol, DefKind>, n: nat) -> Seq<(Span, DefKind)> decreases n {
    if n == 0 || n > rs.len() { Seq::empty() } else {
        let r = uses(rs, ks, (n - 1) as nat);
        if ks.contains_key(rs[n - 1].symbol) { r.push((rs[n - 1].span, ks[rs[n - 1].symbol])) } else { r }
    }
}
spec fn places(ds: Seq<Def>) -> Seq<(Span, DefKind)> { ds.map_values(|d: Def| (d.span, d.kind)) }
spec fn all_names(items: Seq<Item>, ks: Map<Symbol, DefKind>, n: nat) -> Seq<(Span, DefKind)> decreases n {
    if n == 0 || n > items.len() { Seq::empty() } else {
        all_names(items, ks, (n - 1) as nat) + (uses(items[n - 1].refs@, ks, items[n - 1].refs@.len()) + places(items[n - 1].defs@))
    }
}
/// the kind of the name that stands at a place
spec fn names_of(items: Seq<Item>) -> Map<Span, DefKind> { let v = all_names(items, kinds_of(items), items.len()); put_all(v, v.len()) }

// ---- the classification
spec fn class(t: Syntax, k: Option<DefKind>) -> Option<TokenKind> {
    match t {
        Syntax::Import | Syntax::From | Syntax::Type | Syntax::Int | Syntax::Bool | Syntax::StringTy | Syntax::Rec | Syntax::Export | Syntax::Let
        | Syntax::Match | Syntax::With | Syntax::End | Syntax::If | Syntax::Then | Syntax::Else | Syntax::True | Syntax::False | Syntax::Fold => Some(TokenKind::Keyword),
        Syntax::Equals | Syntax::Pipe | Syntax::Comma | Syntax::Dot | Syntax::Arrow | Syntax::LeftParen | Syntax::RightParen | Syntax::Colon
        | Syntax::Semicolon | Syntax::Backslash => Some(TokenKind::Punctuation),
        Syntax::Plus | Syntax::Minus | Syntax::Star | Syntax::Slash | Syntax::Percent | Syntax::Less | Syntax::LessEq | Syntax::Greater
        | Syntax::GreaterEq | Syntax::EqEq | Syntax::NotEq | Syntax::ArgPipe => Some(TokenKind::Operator),
        Syntax::Number => Some(TokenKind::Number),
        Syntax::String => Some(TokenKind::String),
        Syntax::Hole => Some(TokenKind::Value),
        Syntax::Error => None,
        Syntax::Ident => Some(match k {
            None | Some(DefKind::Value { .. }) => TokenKind::Value,
            Some(DefKind::Ctor { .. }) => TokenKind::Ctor,
            Some(DefKind::Type { is_var, .. }) => if is_var { TokenKind::TypeVariable } else { TokenKind::Type },
            Some(DefKind::Module { .. }) => TokenKind::Type,
        }),
    }
}
/// the token an element of the tree gives, if any
spec fn token_of(e: SyntaxElement, names: Map<Span, DefKind>) -> Option<Token> {
    match e {
        SyntaxElement::Node(_) => None,
        SyntaxElement::Token(t) => match class(t.k, if names.contains_key(t.s) { Some(names[t.s]) } else { None }) { Some(kind) => Some(Token { kind, span: t.s }), None => None },
        SyntaxElement::Trivia(t) => if t.k == TriviaKind::Comment { Some(Token { kind: TokenKind::Comment, span: t.s }) } else { None },
    }
}
spec fn tokens_of(es: Seq<SyntaxElement>, names: Map<Span, DefKind>, n: nat) -> Seq<Token> decreases n {
    if n == 0 || n > es.len() { Seq::empty() } else {
        let r = tokens_of(es, names, (n - 1) as nat);
        match token_of(es[n - 1], names) { Some(t) => r.push(t), None => r }
    }
}
spec fn all_elements<'a>(items: Seq<Item>, n: nat) -> Seq<SyntaxElement<'a>> decreases n {
    if n == 0 || n > items.len() { Seq::empty() } else { all_elements::<'a>(items, (n - 1) as nat) + elements::<'a>(items[n - 1].syntax) }
}
//@ fn ticc/src/api/tokens.rs convert_token
//@ ret r
    ensures r == class(token, match def_kind { Some(k) => Some(*k), None => None }),
//@ end

// ---- the closures of `tokens`, and the iterator chains between them as the loops they perform
//@ fn ticc/src/api/tokens.rs tokens
//@ as def_kind
//@ closure 1
//@ params fn def_kind<'a>(d: &'a Def) -> (r: (Symbol, &'a DefKind))
    ensures r == (d.symbol, &d.kind),
//@ end
//@ fn ticc/src/api/tokens.rs tokens
//@ as use_kind
//@ closure 3
//@ rule Some ( & $k:ident ) ==> Some ( $k )
//@ params fn use_kind<'a>(r: &Ref, def_kinds: &Kinds<'a, Symbol>) -> (res: Option<(Span, &'a DefKind)>)
    ensures match res {
        Some(x) => def_kinds.map().contains_key(r.symbol) && x.0 == r.span && *x.1 == def_kinds.map()[r.symbol],
        None => !def_kinds.map().contains_key(r.symbol),
    },
//@ end
//@ fn ticc/src/api/tokens.rs tokens
//@ as def_place
//@ closure 4
//@ params fn def_place<'a>(d: &'a Def) -> (r: (Span, &'a DefKind))
    ensures r == (d.span, &d.kind),
//@ end
fn vx_def_kinds<'a>(ds: &'a Vec<Def>) -> (r: Vec<(Symbol, &'a DefKind)>) ensures pairs(r@) =~= def_pairs(ds@)
{
    let mut out: Vec<(Symbol, &'a DefKind)> = Vec::new();
    let mut i: usize = 0;
    while i < ds.len()
        invariant i <= ds@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] out@[k]) == (ds@[k].symbol, &ds@[k].kind),
        decreases ds@.len() - i,
    { out.push(def_kind(&ds[i])); i = i + 1; }
    out
}
fn vx_places<'a>(ds: &'a Vec<Def>) -> (r: Vec<(Span, &'a DefKind)>) ensures pairs(r@) =~= places(ds@)
{
    let mut out: Vec<(Span, &'a DefKind)> = Vec::new();
    let mut i: usize = 0;
    while i < ds.len()
        invariant i <= ds@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] out@[k]) == (ds@[k].span, &ds@[k].kind),
        decreases ds@.len() - i,
    { out.push(def_place(&ds[i])); i = i + 1; }
    out
}
fn vx_uses<'a>(rs: &Vec<Ref>, def_kinds: &Kinds<'a, Symbol>) -> (r: Vec<(Span, &'a DefKind)>) ensures pairs(r@) =~= uses(rs@, def_kinds.map(), rs@.len())
{
    let mut out: Vec<(Span, &'a DefKind)> = Vec::new();
    let mut i: usize = 0;
    while i < rs.len()
        invariant i <= rs@.len(), pairs(out@) =~= uses(rs@, def_kinds.map(), i as nat),
        decreases rs@.len() - i,
    { if let Some(x) = use_kind(&rs[i], def_kinds) { out.push(x); } i = i + 1; }
    out
}
#[verifier::external_body]
fn vx_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }
//@ fn ticc/src/api/tokens.rs tokens
//@ as item_defs
//@ closure 0
//@ params fn item_defs<'a>(i: &'a Item) -> (r: Vec<(Symbol, &'a DefKind)>)
//@ rule i . defs . iter ( ) . map ( $x:rest ) ==> vx_def_kinds ( & i . defs )
    ensures pairs(r@) == def_pairs(i.defs@),
//@ end
//@ fn ticc/src/api/tokens.rs tokens
//@ as item_names
//@ closure 2
//@ params fn item_names<'a>(i: &'a Item, def_kinds: &Kinds<'a, Symbol>) -> (r: Vec<(Span, &'a DefKind)>)
//@ rule i . refs . iter ( ) . filter_map ( $x:rest ) ==> vx_uses ( & i . refs , def_kinds )
//@ rule i . defs . iter ( ) . map ( $x:rest ) ==> vx_places ( & i . defs )
//@ rule refs . chain ( defs ) ==> vx_chain ( refs , defs )
    ensures pairs(r@) =~= uses(i.refs@, def_kinds.map(), i.refs@.len()) + places(i.defs@),
//@ end
//@ fn ticc/src/api/tokens.rs tokens
//@ as item_elements
//@ closure 5
//@ params fn item_elements<'a>(item: &'a Item) -> (r: Vec<SyntaxElement<'a>>)
//@ rule item . syntax . tree . root ( ) . descendant_elements ( ) ==> vx_elements ( & item . syntax )
    ensures r@ == elements::<'a>(item.syntax),
//@ end
//@ fn ticc/src/api/tokens.rs tokens
//@ as element_token
//@ closure 6
//@ rule ?symbol_kinds . get ( $x:rest ) . copied ( ) ==> symbol_kinds . get ( $x )
//@ params fn element_token<'a, 'b>(elem: SyntaxElement<'b>, symbol_kinds: &Kinds<'a, Span>) -> (r: Option<Token>)
    ensures r == token_of(elem, symbol_kinds.map()),
//@ end
fn vx_all_defs<'a>(items: &'a Vec<Item>) -> (r: Vec<(Symbol, &'a DefKind)>) ensures pairs(r@) =~= all_defs(items@, items@.len())
{
    let mut out: Vec<(Symbol, &'a DefKind)> = Vec::new();
    let mut i: usize = 0;
    while i < items.len()
        invariant i <= items@.len(), pairs(out@) =~= all_defs(items@, i as nat),
        decreases items@.len() - i,
    { let x = item_defs(&items[i]); out = vx_chain(out, x); i = i + 1; }
    out
}
fn vx_all_names<'a>(items: &'a Vec<Item>, def_kinds: &Kinds<'a, Symbol>) -> (r: Vec<(Span, &'a DefKind)>) ensures pairs(r@) =~= all_names(items@, def_kinds.map(), items@.len())
{
    let mut out: Vec<(Span, &'a DefKind)> = Vec::new();
    let mut i: usize = 0;
    while i < items.len()
        invariant i <= items@.len(), pairs(out@) =~= all_names(items@, def_kinds.map(), i as nat),
        decreases items@.len() - i,
    { let x = item_names(&items[i], def_kinds); out = vx_chain(out, x); i = i + 1; }
    out
}
fn vx_tokens<'a>(items: &'a Vec<Item>, symbol_kinds: &Kinds<'a, Span>) -> (r: Vec<Token>)
    ensures r@ == tokens_of(all_elements::<'a>(items@, items@.len()), symbol_kinds.map(), all_elements::<'a>(items@, items@.len()).len()),
{
    let mut es: Vec<SyntaxElement<'a>> = Vec::new();
    let mut i: usize = 0;
    while i < items.len()
        invariant i <= items@.len(), es@ =~= all_elements::<'a>(items@, i as nat),
        decreases items@.len() - i,
    { let x = item_elements(&items[i]); es = vx_chain(es, x); i = i + 1; }
    let mut out: Vec<Token> = Vec::new();
    for e in it: es
        invariant it.seq() == es@, out@ == tokens_of(es@, symbol_kinds.map(), it.index() as nat),
    { if let Some(t) = element_token(e, symbol_kinds) { out.push(t); } }
    out
}
//@ fn ticc/src/api/tokens.rs tokens
//@ params fn tokens(compilation: &mut CompilationUnit) -> (r: Vec<Token>)
//@ rule let def_kinds = compilation . items . iter ( ) . flat_map ( $x:rest ) . collect :: < HashMap < _ , _ > > ( ) ==> let def_kinds = vx_collect ( vx_all_defs ( & compilation . items ) )
//@ rule let symbol_kinds = compilation . items . iter ( ) . flat_map ( $x:rest ) . collect :: < HashMap < _ , _ > > ( ) ==> let symbol_kinds = vx_collect ( vx_all_names ( & compilation . items , & def_kinds ) )
//@ rule compilation . items . iter ( ) . into_internal ( ) . flat_map ( $x:rest ) . filter_map ( $y:rest ) . collect :: < Vec < _ > > ( ) ==> vx_tokens ( & compilation . items , & symbol_kinds )
//@ rule tokens . into_iter ( ) ==> tokens
    ensures ({ let items = compiled(*old(compilation)).items@; r@ == tokens_of(all_elements(items, items.len()), names_of(items), all_elements(items, items.len()).len()) }),
//@ end

} // verus!
fn main() {}
