// Unit `unit`: incremental compilation (C15). Whatever was asked before, the compiled items are a
// prefix of one list that depends only on the text, the module key and the modules; queries that
// need everything see the whole list.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule $a . map ( | $x:ident | $b:rest ) ==> ( match $a { Some ( $x ) => Some ( $b ) , None => None } )
//@ rule compiler :: $s:ident :: $f:ident ==> $f
//@ rule parser :: parse_one_item ==> parse_one_item
//@ include scope.inc
//@ include text.inc
//@ rule HashMap < Symbol , Def > ==> Defs
//@ type ticc/src/compiler.rs DefSet
//@ type ticc/src/codegen.rs Options | #[derive(Clone, Copy)]
/// `Arc<dyn ModuleResolver>`: what looking a module up gives, taken as fixed
#[verifier::external_body]
pub struct Modules { m: u8 }
impl Clone for Modules {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ rule Arc < str > ==> String
//@ rule Arc < dyn ModuleResolver + Send + Sync > ==> Modules
//@ rule key : ModuleKey , src : ==> pub key : ModuleKey , pub src :
//@ rule items : Vec < Item > , options : Options , modules : ==> pub items : Vec < Item > , pub options : Options , pub modules :
//@ type ticc/src/lib.rs CompilationUnit

// ---- definitions by symbol
#[verifier::external_body]
pub struct Defs { d: u8 }
impl Defs {
    pub uninterp spec fn view(&self) -> Map<Symbol, Def>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Symbol, Def>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: Symbol, v: Def) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// `self.entry(k).or_insert_with(|| v)`
    #[verifier::external_body]
    fn vx_or_insert(&mut self, k: Symbol, v: Def)
        ensures final(self)@ == (if old(self)@.contains_key(k) { old(self)@ } else { old(self)@.insert(k, v) }) { unimplemented!() }
}
impl CompleteUnit {
    /// the definitions behind the types a module's exports mention (unit `exports`, collect_types)
    pub uninterp spec fn types(&self) -> Map<Symbol, Def>;
}
/// the entries of `unit.props.types`, in the order of the map's iterator
#[verifier::external_body]
fn vx_types<'a>(u: &'a CompleteUnit) -> (r: Vec<(&'a Symbol, &'a Def)>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> u.types().contains_key(*(#[trigger] r@[i]).0) && u.types()[*r@[i].0] == *r@[i].1,
        forall|s: Symbol| #[trigger] u.types().contains_key(s) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == s,
{ unimplemented!() }
type DefMap = Map<Symbol, Def>;
spec fn add_one(m: DefMap, d: Def) -> DefMap {
    match d.kind {
        DefKind::Module { unit } => unit.types().union_prefer_right(m).insert(d.symbol, d),
        _ => m.insert(d.symbol, d),
    }
}
spec fn add_all(m: DefMap, ds: Seq<Def>) -> DefMap decreases ds.len() {
    if ds.len() == 0 { m } else { add_one(add_all(m, ds.drop_last()), ds.last()) }
}
impl DefSet {
    fn new() -> (r: DefSet) ensures r.defs@ == Map::<Symbol, Def>::empty() { DefSet { defs: Defs::new() } }
//@ fn ticc/src/compiler.rs DefSet::add_item
//@ rule ( unit . props . types ) . iter ( ) ==> vx_types ( unit )
//@ rule self . defs . entry ( sym ) . or_insert_with ( | | def . clone ( ) ) ==> self . defs . vx_or_insert ( sym , def . clone ( ) )
    ensures final(self).defs@ == add_all(old(self).defs@, item.defs@),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    proof { assert(item.defs@.take(0) =~= Seq::empty()); assert(item.defs@.take(item.defs@.len() as int) =~= item.defs@); }
//@ loop 0
    invariant
        vx_it0.seq().len() == item.defs@.len(),
        forall|k: int| 0 <= k < item.defs@.len() ==> *#[trigger] vx_it0.seq()[k] == item.defs@[k],
        self.defs@ == add_all(old(self).defs@, item.defs@.take(vx_it0.index() as int)),
//@ loophead 0
    let ghost m0 = self.defs@;
    proof {
        let k = vx_it0.index() as int;
        assert(*def == item.defs@[k]);
        assert(item.defs@.take(k + 1).drop_last() =~= item.defs@.take(k));
    }
//@ loop 1
    invariant
        forall|k: int| 0 <= k < vx_it1.seq().len() ==> unit.types().contains_key(*(#[trigger] vx_it1.seq()[k]).0) && unit.types()[*vx_it1.seq()[k].0] == *vx_it1.seq()[k].1,
        forall|s: Symbol| #[trigger] unit.types().contains_key(s) ==> exists|i: int| 0 <= i < vx_it1.seq().len() && *(#[trigger] vx_it1.seq()[i]).0 == s,
        forall|s: Symbol| #[trigger] self.defs@.contains_key(s) <==> m0.contains_key(s) || exists|i: int| 0 <= i < vx_it1.index() && *(#[trigger] vx_it1.seq()[i]).0 == s,
        forall|s: Symbol| #[trigger] self.defs@.contains_key(s) ==> self.defs@[s] == (if m0.contains_key(s) { m0[s] } else { unit.types()[s] }),
//@ before self . defs . insert
    proof {
        if def.kind is Module { assert(self.defs@ =~= def.kind->unit.types().union_prefer_right(m0)); }
    }
//@ end
}

// ---- the stages of compiling one item. Each is a deterministic function of what it reads; symbols
// drawn fresh and the order of hash maps are taken as determined by the place in the list.
pub uninterp spec fn parsed(tail: Seq<char>, start: Pos) -> Item;
pub uninterp spec fn resolved(key: ModuleKey, i: Item, e: Env, m: Modules) -> Item;
pub uninterp spec fn numchecked(i: Item) -> Item;
pub uninterp spec fn kindchecked(i: Item, m: DefMap) -> Item;
pub uninterp spec fn typechecked(i: Item, m: DefMap) -> Item;
pub uninterp spec fn matchchecked(i: Item, m: DefMap) -> Item;

spec fn local_value(d: Def) -> bool { d.vis == Visibility::Local && d.kind is Value }
spec fn owns(i: Item, s: Symbol) -> bool { exists|k: int| 0 <= k < i.defs@.len() && (#[trigger] i.defs@[k]).symbol == s }
/// what checking an item can look up: not the local values of other items, which no name in it means
spec fn seen(m: DefMap, i: Item) -> DefMap { m.restrict(m.dom().filter(|s: Symbol| owns(i, s) || !local_value(m[s]))) }

/// a text does not end up with more than 2^32 - 1 bytes (positions are u32)
spec fn total(src: Seq<char>) -> nat { off(src, src.len()) }
/// parse_one_item (C07): takes at least one character unless there is none
#[verifier::external_body]
fn parse_one_item(source: &str, start_pos: Pos) -> (r: Item)
    ensures
        r == parsed(source@, start_pos),
        r.span.start == start_pos,
        boundary(source@, r.span.end.offset - start_pos.offset),
        source@.len() > 0 ==> r.span.end.offset > start_pos.offset,
{ unimplemented!() }
#[verifier::external_body]
fn resolve(key: ModuleKey, item: &mut Item, scope: &Scope<'_>, modules: Modules)
    ensures *final(item) == resolved(key, *old(item), env(*scope), modules), final(item).span == old(item).span,
{ unimplemented!() }
#[verifier::external_body]
fn check_numbers(item: &mut Item)
    ensures *final(item) == numchecked(*old(item)), final(item).span == old(item).span, final(item).defs == old(item).defs,
{ unimplemented!() }
spec fn same_module(a: DefKind, b: DefKind) -> bool {
    (a is Module <==> b is Module) && (a is Module ==> a == b) && (a is Value <==> b is Value)
}
/// kind checking cleans types and keeps the rest
spec fn cleaned(a: Seq<Def>, b: Seq<Def>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).symbol == b[k].symbol && a[k].vis == b[k].vis && same_module(a[k].kind, b[k].kind)
}
/// type checking fills in the types of local values and keeps the rest
spec fn filled(a: Seq<Def>, b: Seq<Def>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] == b[k] || (local_value(a[k]) && local_value(b[k]) && a[k].symbol == b[k].symbol)
}
#[verifier::external_body]
fn kind_check(item: &mut Item, defs: &DefSet)
    ensures *final(item) == kindchecked(*old(item), seen(defs.defs@, *old(item))), final(item).span == old(item).span, cleaned(old(item).defs@, final(item).defs@),
{ unimplemented!() }
#[verifier::external_body]
fn type_check(item: &mut Item, defs: &DefSet)
    ensures *final(item) == typechecked(*old(item), seen(defs.defs@, *old(item))), final(item).span == old(item).span, filled(old(item).defs@, final(item).defs@),
{ unimplemented!() }
#[verifier::external_body]
fn check_matches(item: &mut Item, defs: &DefSet)
    ensures *final(item) == matchchecked(*old(item), seen(defs.defs@, *old(item))), final(item).span == old(item).span, final(item).defs == old(item).defs,
{ unimplemented!() }

// ---- the list
#[verifier::ext_equal]
ghost struct World { src: Seq<char>, key: ModuleKey, modules: Modules }
spec fn end_of(its: Seq<Item>) -> nat { if its.len() == 0 { 0 } else { its.last().span.end.offset as nat } }
spec fn env_of(src: Seq<char>, its: Seq<Item>) -> Env decreases its.len() {
    if its.len() == 0 { no_env() } else { add_defs(env_of(src, its.drop_last()), src, its.last().defs@, false) }
}
spec fn defs_of(its: Seq<Item>) -> DefMap decreases its.len() {
    if its.len() == 0 { Map::empty() } else { add_all(defs_of(its.drop_last()), its.last().defs@) }
}
spec fn compiled_item(key: ModuleKey, p: Item, e: Env, m: Modules, d: DefMap) -> Item {
    let r = resolved(key, p, e, m);
    let d1 = add_all(d, r.defs@);
    let n = numchecked(r);
    let k = kindchecked(n, seen(d1, n));
    let d2 = add_all(d1, k.defs@);
    let t = typechecked(k, seen(d2, k));
    matchchecked(t, seen(d2, t))
}
/// the item after these
#[verifier::opaque]
spec fn next(w: World, its: Seq<Item>) -> Item {
    let start = end_of(its);
    let p = parsed(w.src.subrange(at(w.src, start as int) as int, w.src.len() as int), Pos { offset: start as u32 });
    compiled_item(w.key, p, env_of(w.src, its), w.modules, defs_of(its))
}
spec fn links(w: World, its: Seq<Item>) -> bool decreases its.len() {
    its.len() == 0 || {
        &&& links(w, its.drop_last())
        &&& its.last() == next(w, its.drop_last())
        &&& its.last().span.end.offset > its.last().span.start.offset == end_of(its.drop_last())
    }
}
spec fn chain(w: World, its: Seq<Item>) -> bool {
    links(w, its) && boundary(w.src, end_of(its) as int) && end_of(its) <= total(w.src) <= u32::MAX
}
proof fn links_take(w: World, its: Seq<Item>, k: int)
    requires links(w, its), 0 <= k <= its.len(),
    ensures links(w, its.take(k)), k < its.len() ==> end_of(its.take(k)) < end_of(its),
    decreases its.len(),
{
    if k == its.len() { assert(its.take(k) =~= its); } else {
        links_take(w, its.drop_last(), k);
        assert(its.drop_last().take(k) =~= its.take(k));
    }
}
/// two such lists agree as far as both go
proof fn links_agree(w: World, a: Seq<Item>, b: Seq<Item>)
    requires links(w, a), links(w, b), a.len() == b.len(),
    ensures a == b,
    decreases a.len(),
{
    if a.len() > 0 {
        links_agree(w, a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
spec fn whole(w: World, its: Seq<Item>) -> bool { chain(w, its) && end_of(its) == total(w.src) }
spec fn full(w: World) -> Seq<Item> { choose|its: Seq<Item>| #[trigger] whole(w, its) }
proof fn begins(w: World, its: Seq<Item>, a: Seq<Item>)
    requires whole(w, its), chain(w, a),
    ensures a.len() <= its.len(), a == its.take(a.len() as int),
{
    if a.len() > its.len() {
        links_take(w, a, its.len() as int);
        links_agree(w, a.take(its.len() as int), its);
    } else {
        links_take(w, its, a.len() as int);
        links_agree(w, its.take(a.len() as int), a);
    }
}
/// C15: there is one list that covers the text, and every list of compiled items begins it
proof fn one_list(w: World, its: Seq<Item>, a: Seq<Item>)
    requires whole(w, its), chain(w, a),
    ensures
        whole(w, full(w)), full(w) == its,
        a.len() <= its.len(), a == its.take(a.len() as int),
{
    begins(w, its, a); begins(w, its, full(w)); begins(w, full(w), its);
    assert(its.take(full(w).len() as int) =~= its);
}

// ---- definitions before and after type checking
/// equal but for local values
spec fn alike(a: DefMap, b: DefMap) -> bool {
    &&& forall|s: Symbol| #[trigger] a.contains_key(s) <==> b.contains_key(s)
    &&& forall|s: Symbol| a.contains_key(s) ==> #[trigger] a[s] == b[s] || (local_value(a[s]) && local_value(b[s]))
}
spec fn owned(ds: Seq<Def>, s: Symbol) -> bool { exists|k: int| 0 <= k < ds.len() && (#[trigger] ds[k]).symbol == s }
proof fn added_alike(a: DefMap, b: DefMap, ds: Seq<Def>)
    requires alike(a, b),
    ensures alike(add_all(a, ds), add_all(b, ds)), forall|s: Symbol| #[trigger] owned(ds, s) ==> add_all(a, ds)[s] == add_all(b, ds)[s],
        forall|s: Symbol| #[trigger] owned(ds, s) ==> add_all(a, ds).contains_key(s),
    decreases ds.len(),
{
    if ds.len() > 0 {
        let (p, d) = (ds.drop_last(), ds.last());
        added_alike(a, b, p);
        let (x, y) = (add_all(a, p), add_all(b, p));
        if let DefKind::Module { unit } = d.kind {
            let (x1, y1) = (unit.types().union_prefer_right(x), unit.types().union_prefer_right(y));
            assert forall|s: Symbol| x1.contains_key(s) implies #[trigger] x1[s] == y1[s] || (local_value(x1[s]) && local_value(y1[s])) by {
                if x.contains_key(s) { assert(x[s] == y[s] || local_value(x[s])); }
            }
        }
        assert forall|s: Symbol| #[trigger] owned(ds, s) implies add_all(a, ds)[s] == add_all(b, ds)[s] && add_all(a, ds).contains_key(s) by {
            let k = choose|k: int| 0 <= k < ds.len() && (#[trigger] ds[k]).symbol == s;
            if s != d.symbol { assert(p[k].symbol == s); assert(owned(p, s)); assert(x[s] == y[s] && x.contains_key(s)); }
        }
        assert forall|s: Symbol| add_all(a, ds).contains_key(s) implies #[trigger] add_all(a, ds)[s] == add_all(b, ds)[s] || (local_value(add_all(a, ds)[s]) && local_value(add_all(b, ds)[s])) by {
            if s != d.symbol && x.contains_key(s) { assert(x[s] == y[s] || local_value(x[s])); }
        }
    }
}
proof fn alike_seen(a: DefMap, b: DefMap, i: Item)
    requires alike(a, b), forall|s: Symbol| owned(i.defs@, s) && a.contains_key(s) ==> #[trigger] a[s] == b[s],
    ensures seen(a, i) =~= seen(b, i),
{
    assert forall|s: Symbol| seen(a, i).contains_key(s) implies seen(b, i).contains_key(s) && seen(a, i)[s] == seen(b, i)[s] by {
        assert(a[s] == b[s] || local_value(a[s]));
        if owns(i, s) { assert(owned(i.defs@, s)); }
    }
    assert forall|s: Symbol| seen(b, i).contains_key(s) implies seen(a, i).contains_key(s) by {
        assert(a[s] == b[s] || local_value(a[s]));
        if owns(i, s) { assert(owned(i.defs@, s)); }
    }
}
/// the last definition of a symbol in a list
spec fn last_def(ds: Seq<Def>, s: Symbol) -> Option<Def> decreases ds.len() {
    if ds.len() == 0 { None } else if ds.last().symbol == s { Some(ds.last()) } else { last_def(ds.drop_last(), s) }
}
/// the first module of a list whose types include a symbol
spec fn from_module(ds: Seq<Def>, s: Symbol) -> Option<Def> decreases ds.len() {
    if ds.len() == 0 { None } else {
        match from_module(ds.drop_last(), s) {
            Some(d) => Some(d),
            None => match ds.last().kind {
                DefKind::Module { unit } => if unit.types().contains_key(s) { Some(unit.types()[s]) } else { None },
                _ => None,
            },
        }
    }
}
spec fn get(m: DefMap, s: Symbol) -> Option<Def> { if m.contains_key(s) { Some(m[s]) } else { None } }
spec fn or(a: Option<Def>, b: Option<Def>) -> Option<Def> { match a { Some(d) => Some(d), None => b } }
proof fn looked_up(m: DefMap, ds: Seq<Def>, s: Symbol)
    ensures get(add_all(m, ds), s) == or(last_def(ds, s), or(get(m, s), from_module(ds, s))),
    decreases ds.len(),
{
    if ds.len() > 0 { looked_up(m, ds.drop_last(), s); }
}
proof fn shapes(a: Seq<Def>, b: Seq<Def>, s: Symbol)
    requires cleaned(a, b),
    ensures from_module(a, s) == from_module(b, s), (last_def(a, s) is Some) == (last_def(b, s) is Some),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a[a.len() - 1].symbol == b[a.len() - 1].symbol);
        assert forall|k: int| 0 <= k < a.drop_last().len() implies (#[trigger] a.drop_last()[k]).symbol == b.drop_last()[k].symbol && a.drop_last()[k].vis == b.drop_last()[k].vis && same_module(a.drop_last()[k].kind, b.drop_last()[k].kind) by {
            assert(a[k].symbol == b[k].symbol);
        }
        shapes(a.drop_last(), b.drop_last(), s);
    }
}
proof fn last_filled(a: Seq<Def>, b: Seq<Def>, s: Symbol)
    requires filled(a, b),
    ensures last_def(a, s) == last_def(b, s) || (last_def(a, s) is Some && last_def(b, s) is Some && local_value(last_def(a, s)->0) && local_value(last_def(b, s)->0)),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(a[a.len() - 1] == b[a.len() - 1] || local_value(a.last()));
        assert forall|k: int| 0 <= k < a.drop_last().len() implies #[trigger] a.drop_last()[k] == b.drop_last()[k] || (local_value(a.drop_last()[k]) && local_value(b.drop_last()[k]) && a.drop_last()[k].symbol == b.drop_last()[k].symbol) by {
            assert(a[k] == b[k] || local_value(a[k]));
        }
        last_filled(a.drop_last(), b.drop_last(), s);
    }
}
proof fn filled_cleaned(a: Seq<Def>, b: Seq<Def>, c: Seq<Def>)
    requires cleaned(a, b), filled(b, c),
    ensures cleaned(a, c),
{
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).symbol == c[k].symbol && a[k].vis == c[k].vis && same_module(a[k].kind, c[k].kind) by {
        assert(b[k] == c[k] || local_value(b[k]));
        assert(a[k].symbol == b[k].symbol);
    }
}
/// adding an item as it is compiled (twice, before types are filled in) or once afterwards
proof fn added_in_steps(m: DefMap, fin: DefMap, raw: Seq<Def>, kinded: Seq<Def>, done: Seq<Def>)
    requires alike(m, fin), cleaned(raw, kinded), filled(kinded, done),
    ensures alike(add_all(add_all(m, raw), kinded), add_all(fin, done)),
{
    filled_cleaned(raw, kinded, done);
    let a = add_all(add_all(m, raw), kinded);
    let b = add_all(fin, done);
    assert forall|s: Symbol| (#[trigger] a.contains_key(s) <==> b.contains_key(s)) && (a.contains_key(s) ==> a[s] == b[s] || (local_value(a[s]) && local_value(b[s]))) by {
        looked_up(m, raw, s); looked_up(add_all(m, raw), kinded, s); looked_up(fin, done, s);
        shapes(raw, kinded, s); shapes(raw, done, s); last_filled(kinded, done, s);
        assert(m.contains_key(s) <==> fin.contains_key(s));
        if m.contains_key(s) { assert(m[s] == fin[s] || local_value(m[s])); }
        assert(get(a, s) is Some <==> a.contains_key(s));
    }
    assert forall|s: Symbol| a.contains_key(s) implies #[trigger] a[s] == b[s] || (local_value(a[s]) && local_value(b[s])) by { assert(a.contains_key(s) <==> b.contains_key(s)); }
}

spec fn world(u: CompilationUnit) -> World { World { src: u.src@, key: u.key, modules: u.modules } }
spec fn wf(u: CompilationUnit) -> bool { chain(world(u), u.items@) }
spec fn same_unit(a: CompilationUnit, b: CompilationUnit) -> bool { world(a) == world(b) && a.options == b.options && a.src == b.src }
/// the items up to an offset: the fewest that reach it, or all
spec fn reaches(w: World, its: Seq<Item>, offset: nat) -> bool { end_of(its) >= offset || end_of(its) == total(w.src) }
impl Pos {
//@ fn ticc-syntax/src/pos.rs Pos::new
//@ ret r
//@ rule offset : u32 ==> vx_o : u32
//@ rule Pos { offset } ==> Pos { offset : vx_o }
    ensures r == (Pos { offset: vx_o }),
//@ end
}
impl CompilationUnit {
//@ fn ticc/src/lib.rs CompilationUnit::compiled_length
//@ ret r
//@ rule self . items . last ( ) ==> vx_last ( & self . items )
    ensures r == end_of(self.items@),
//@ end
//@ fn ticc/src/lib.rs CompilationUnit::compile_up_to
//@ rule & self . src , ==> self . src . as_str ( ) ,
//@ rule self . items . last ( ) . unwrap ( ) ==> vx_last ( & self . items ) . unwrap ( )
//@ rule & self . src [ compiled .. ] ==> vx_from ( self . src . as_str ( ) , compiled )
//@ rule self . src . len ( ) ==> vx_len ( self . src . as_str ( ) )
    requires wf(*old(self)),
    ensures
        wf(*final(self)), same_unit(*old(self), *final(self)),
        old(self).items@.len() <= final(self).items@.len(),
        reaches(world(*final(self)), final(self).items@, offset as nat),
        forall|k: int| old(self).items@.len() <= k < final(self).items@.len() ==> end_of(#[trigger] final(self).items@.take(k)) < offset,
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@ head
    let ghost w = world(*self);
    let ghost u0 = *self;
    proof { assert(self.items@.take(0) =~= Seq::empty()); assert(self.items@.take(self.items@.len() as int) =~= self.items@); }
//@ loop 0
    invariant
        *self == u0,
        vx_it0.seq().len() == self.items@.len(),
        forall|k: int| 0 <= k < self.items@.len() ==> *#[trigger] vx_it0.seq()[k] == self.items@[k],
        own(scope) == env_of(w.src, self.items@.take(vx_it0.index() as int)), scope.parent is None,
        defs.defs@ == defs_of(self.items@.take(vx_it0.index() as int)),
//@ loophead 0
    proof {
        let k = vx_it0.index() as int;
        assert(*item == self.items@[k]);
        assert(self.items@.take(k + 1).drop_last() =~= self.items@.take(k));
    }
//@ loop 1
    invariant
        self.src == u0.src, self.key == u0.key, self.modules == u0.modules, self.options == u0.options,
        chain(w, self.items@),
        u0.items@.len() <= self.items@.len(),
        own(scope) == env_of(w.src, self.items@), scope.parent is None,
        alike(defs.defs@, defs_of(self.items@)),
        forall|k: int| u0.items@.len() <= k < self.items@.len() ==> end_of(#[trigger] self.items@.take(k)) < offset,
    ensures
        reaches(w, self.items@, offset as nat),
    decreases total(w.src) - end_of(self.items@),
//@ loophead 1
    let ghost its = self.items@;
    let ghost d0 = defs.defs@;
    let ghost f0 = defs_of(its);
//@ before let tail
    proof {
        if at(w.src, compiled as int) == w.src.len() { assert(off(w.src, w.src.len()) == compiled); }
        assert(at(w.src, compiled as int) < w.src.len());
    }
//@ before compiler :: resolve
    let ghost p = item;
//@ after compiler :: resolve
    let ghost r = item;
//@ before compiler :: numck
    proof { added_alike(d0, f0, r.defs@); }
    let ghost d1 = defs.defs@;
    let ghost f1 = add_all(f0, r.defs@);
//@ before compiler :: kindck
    let ghost n = item;
    proof { alike_seen(d1, f1, n); }
//@ before compiler :: typeck
    let ghost k = item;
    let ghost d2 = defs.defs@;
    let ghost f2 = add_all(f1, k.defs@);
    proof { added_alike(d1, f1, k.defs@); alike_seen(d2, f2, k); }
//@ before compiler :: matchck
    let ghost t = item;
    proof {
        assert forall|s: Symbol| owned(t.defs@, s) implies owned(k.defs@, s) by {
            let i = choose|i: int| 0 <= i < t.defs@.len() && (#[trigger] t.defs@[i]).symbol == s;
            assert(k.defs@[i] == t.defs@[i] || local_value(k.defs@[i]));
            assert(k.defs@[i].symbol == s);
        }
        alike_seen(d2, f2, t);
    }
//@ before self . items . push
    let ghost done = item;
    proof {
        added_in_steps(d0, f0, r.defs@, k.defs@, done.defs@);
        reveal(next);
        assert(done == next(w, its));
        let c = at(w.src, compiled as int);
        let tl = w.src.subrange(c as int, w.src.len() as int);
        let e = at(tl, p.span.end.offset - p.span.start.offset);
        off_sub(w.src, c, w.src.len(), e);
        at_off(w.src, (c + e) as nat);
        if c + e < w.src.len() { off_less(w.src, (c + e) as nat, w.src.len()); }
    }
//@ looptail 1
    proof {
        assert(self.items@ =~= its.push(done));
        assert(self.items@.drop_last() =~= its);
        assert forall|i: int| u0.items@.len() <= i < self.items@.len() implies end_of(#[trigger] self.items@.take(i)) < offset by {
            assert(self.items@.take(i) =~= its.take(i));
            if i == its.len() { assert(its.take(i) =~= its); }
        }
    }
//@ end
//@ fn ticc/src/lib.rs CompilationUnit::compile_to_end
//@ rule self . src . len ( ) ==> vx_len ( self . src . as_str ( ) )
    requires wf(*old(self)),
    ensures
        wf(*final(self)), same_unit(*old(self), *final(self)),
        final(self).items@ == full(world(*old(self))),
//@ after self . compile_up_to
    proof {
        let w = world(*old(self));
        one_list(w, self.items@, self.items@);
    }
//@ end
}
fn vx_last<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@.last())
{ if v.len() == 0 { None } else { Some(&v[v.len() - 1]) } }

// ---- queries on the whole list (navigation, hover and the lint: units navq, hover, unused)
impl CompilationUnit {
//@ fn ticc/src/lib.rs CompilationUnit::new
//@ ret r
//@ rule ModuleKey :: fresh_key ( ) ==> vx_fresh_key ( )
//@ rule src . into ( ) ==> vx_into ( src )
    requires total(src@) <= u32::MAX,
    ensures wf(r), r.src@ == src@, r.modules == modules, r.options == options,
//@ head
    proof { assert(off(src@, 0) == 0); assert(boundary(src@, 0)); }
//@ end
}
#[verifier::external_body]
fn vx_fresh_key() -> (r: ModuleKey) { unimplemented!() }
#[verifier::external_body]
fn vx_into(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

#[verifier::external_body]
pub struct Program { p: u8 }
/// generate_core (C05): a function of the items
pub uninterp spec fn core_of(its: Seq<Item>, src: Seq<char>) -> Program;
pub uninterp spec fn optimized(o: Options, p: Program) -> Program;
pub uninterp spec fn printed(p: Program) -> Seq<char>;
#[verifier::external_body]
fn vx_generate(c: &CompilationUnit) -> (r: Program) ensures r == core_of(c.items@, c.src@) { unimplemented!() }
/// the validator, when it is on: stops the compiler on invalid code (C06)
#[verifier::external_body]
fn vx_assert_valid(p: &Program) { unimplemented!() }
#[verifier::external_body]
fn vx_optimize<F: Fn(&Program)>(o: Options, f: F, p: &mut Program) ensures *final(p) == optimized(o, *old(p)) { unimplemented!() }
#[verifier::external_body]
fn vx_pretty_print(p: &Program) -> (r: String) ensures r@ == printed(*p) { unimplemented!() }
spec fn emitted(w: World, o: Options) -> Program { optimized(o, core_of(full(w), w.src)) }
//@ fn ticc/src/codegen.rs emit_core
//@ ret r
//@ rule Program < '_ > ==> Program
//@ rule ticc_core :: assert_valid ==> vx_assert_valid
//@ rule gen_core :: generate_core ( compilation ) ==> vx_generate ( compilation )
//@ rule opt :: optimize ==> vx_optimize
    requires wf(*old(compilation)),
    ensures
        wf(*final(compilation)), same_unit(*old(compilation), *final(compilation)),
        r == emitted(world(*old(compilation)), old(compilation).options),
//@ end
//@ fn ticc/src/codegen.rs emit_ir
//@ ret r
//@ rule ticc_core :: pretty_print ==> vx_pretty_print
    requires wf(*old(compilation)),
    ensures
        wf(*final(compilation)), same_unit(*old(compilation), *final(compilation)),
        r@ == printed(emitted(world(*old(compilation)), old(compilation).options)),
//@ end

// ---- completion, which may stop early
//@ type ticc/src/api/completion.rs Completion
//@ type ticc/src/api/completion.rs Resolver
#[verifier::external_body]
pub struct Parsed { p: u8 }
pub uninterp spec fn parsed_of(src: Seq<char>, start: Pos) -> Parsed;
#[verifier::external_body]
fn vx_parse(src: &str, start: Pos) -> (r: Parsed) ensures r == parsed_of(src@, start) { unimplemented!() }
/// what the resolver offers (unit `completion`). No item begins with the use of a name.
pub uninterp spec fn last_answer(key: ModuleKey, p: Parsed, e: Env, m: Modules, pos: Pos) -> Option<Vec<Completion>>;
#[verifier::external_body]
fn vx_resolve(p: &Parsed, key: ModuleKey, scope: &Scope<'_>, m: Modules, r: &mut Resolver)
    ensures
        final(r).results == last_answer(key, *p, env(*scope), m, old(r).pos),
{ unimplemented!() }
/// no item begins with the use of a name: at the very start of the text nothing is offered
#[verifier::external_body]
proof fn no_name_first(w: World, all: Seq<Item>, pos: Pos)
    requires all.len() > 0, pos == all[0].span.start, pos.offset == 0,
    ensures answer(w, all, pos, 0) is None,
{ }
pub uninterp spec fn slice(s: Seq<char>, a: nat, b: nat) -> Option<Seq<char>>;
#[verifier::external_body]
fn vx_get<'a>(s: &'a str, a: usize, b: usize) -> (r: Option<&'a str>)
    ensures match r { Some(x) => slice(s@, a as nat, b as nat) == Some(x@), None => slice(s@, a as nat, b as nat) is None } { unimplemented!() }
#[verifier::external_body]
fn vx_concat(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }
fn vx_take(v: &Vec<Item>, n: usize) -> (r: &[Item]) requires n <= v@.len() ensures r@ == v@.take(n as int) { vstd::slice::slice_subrange(v.as_slice(), 0, n) }
spec fn touches(i: Item, pos: Pos) -> bool { i.span.start.offset <= pos.offset <= i.span.end.offset }
spec fn first_at(its: Seq<Item>, pos: Pos, i: int) -> bool { 0 <= i < its.len() && touches(its[i], pos) && forall|k: int| 0 <= k < i ==> !touches(#[trigger] its[k], pos) }
spec fn any_at(its: Seq<Item>, pos: Pos) -> bool { exists|i: int| #[trigger] first_at(its, pos, i) }
spec fn answer(w: World, its: Seq<Item>, pos: Pos, i: int) -> Option<Vec<Completion>> {
    match (slice(w.src, its[i].span.start.offset as nat, pos.offset as nat), slice(w.src, pos.offset as nat, its[i].span.end.offset as nat)) {
        (Some(a), Some(b)) => last_answer(w.key, parsed_of(a + "ticc_autocomplete_hack"@ + b, its[i].span.start), env_of(w.src, its.take(i)), w.modules, pos),
        _ => None,
    }
}
/// the item a position is in is the same in every list that reaches it
proof fn found_early(w: World, all: Seq<Item>, its: Seq<Item>, pos: Pos, i: int)
    requires whole(w, all), chain(w, its), reaches(w, its, pos.offset as nat), first_at(all, pos, i),
    ensures
        i < its.len() ==> its[i] == all[i] && its.take(i) == all.take(i) && first_at(its, pos, i),
        i >= its.len() ==> i == 0 && its.len() == 0 && pos.offset == 0 && all[0].span.start.offset == 0,
{
    begins(w, all, its);
    let n = its.len() as int;
    if i >= n {
        links_take(w, all, i + 1);
        assert(all.take(i + 1).drop_last() =~= all.take(i));
        assert(all.take(i + 1).last() == all[i]);
        links_take(w, all, i);
        links_take(w, all.take(i), n);
        assert(all.take(i).take(n) =~= its);
        if end_of(its) == total(w.src) && n < all.len() { links_take(w, all, n); }
        if n > 0 {
            assert(all[n - 1] == its[n - 1]);
            assert(all.take(i).take(n).last() == all[n - 1]);
            links_take(w, its, n - 1);
            assert(touches(all[n - 1], pos));
        }
    } else {
        assert(its.take(i) =~= all.take(i));
        assert forall|k: int| 0 <= k < i implies !touches(#[trigger] its[k], pos) by { assert(its[k] == all[k]); }
    }
}
//@ fn ticc/src/api/completion.rs completions_at
//@ ret r
//@ rule compilation . items . iter ( ) . enumerate ( ) . find ( | ( _ , item ) | $body:rest ) ==> { let mut vx_i : usize = 0 ; let mut vx_r : Option < ( usize , & Item ) > = None ; while vx_i < compilation . items . len ( ) && vx_r . is_none ( ) invariant vx_i <= compilation.items@.len(), match vx_r { Some(q) => q.0 + 1 == vx_i && *q.1 == compilation.items@[q.0 as int] && first_at(compilation.items@, pos, q.0 as int), None => forall|k: int| 0 <= k < vx_i ==> !touches(#[trigger] compilation.items@[k], pos) }, decreases compilation.items@.len() - vx_i { let item = & compilation . items [ vx_i ] ; if $body { vx_r = Some ( ( vx_i , item ) ) ; } vx_i = vx_i + 1 ; } vx_r }
//@ rule compilation . items [ .. index ] ==> vx_take ( & compilation . items , index )
//@ rule ( vx_take ( & compilation . items , index ) ) . iter ( ) ==> vx_take ( & compilation . items , index )
//@ rule & compilation . src , item ==> compilation . src . as_str ( ) , item
//@ rule & compilation . src . get ( $a .. $b ) ? ==> vx_get ( compilation . src . as_str ( ) , $a , $b ) ?
//@ rule format ! ( "{}{}{}" , $a:ident , $b:ident , $c:ident ) ==> vx_concat ( $a , $b , $c )
//@ rule crate :: compiler :: parser :: parse_one_item ( $a:any , $b:rest ) ==> vx_parse ( $a , $b )
//@ rule resolve :: resolve_raw ( & parsed . syntax , compilation . key , & scope , compilation . modules . clone ( ) , & mut resolver ) ==> vx_resolve ( & parsed , compilation . key , & scope , compilation . modules . clone ( ) , & mut resolver )
    requires wf(*old(compilation)),
    ensures
        wf(*final(compilation)), same_unit(*old(compilation), *final(compilation)),
        // what is offered depends on the text, the key and the modules, not on what is compiled
        forall|all: Seq<Item>, i: int| whole(world(*old(compilation)), all) && first_at(all, pos, i) ==> r == answer(world(*old(compilation)), all, pos, i),
        forall|all: Seq<Item>| #[trigger] whole(world(*old(compilation)), all) && !any_at(all, pos) ==> r is None,
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant
        vx_it0.seq().len() == index,
        forall|k: int| 0 <= k < index ==> *#[trigger] vx_it0.seq()[k] == compilation.items@[k],
        env(scope) == env_of(compilation.src@, compilation.items@.take(vx_it0.index() as int)),
        own(scope) == env(scope), scope.parent is None,
//@ after compilation . compile_up_to
    proof {
        let w = world(*old(compilation));
        let its = compilation.items@;
        assert forall|all: Seq<Item>, i: int| whole(w, all) && first_at(all, pos, i) implies
            (i < its.len() && first_at(its, pos, i) && answer(w, all, pos, i) == answer(w, its, pos, i)) || (its.len() == 0 && answer(w, all, pos, i) is None) by
        {
            found_early(w, all, its, pos, i);
            if i >= its.len() { no_name_first(w, all, pos); }
        }
        assert forall|all: Seq<Item>| #[trigger] whole(w, all) && any_at(its, pos) implies any_at(all, pos) by {
            begins(w, all, its);
            let i = choose|i: int| first_at(its, pos, i);
            assert forall|k: int| 0 <= k <= i implies its[k] == #[trigger] all[k] by {}
            assert(first_at(all, pos, i));
        }
    }
//@ loophead 0
    proof {
        let k = vx_it0.index() as int;
        assert(*item == compilation.items@[k]);
        assert(compilation.items@.take(k + 1).drop_last() =~= compilation.items@.take(k));
    }
//@ end

} // verus!
fn main() {}
