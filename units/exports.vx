// Unit `exports`: what a module exports and how it is looked up (C18).
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;

//@ rule crate :: $x:ident ==> $x
//@ include defs.inc
//@ include pos.inc
//@ type ticc/src/lib.rs Namespace | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/lib.rs NamespacedName
//@ type ticc/src/lib.rs ExportLookupError
pub struct CompleteUnit { pub props: Arc<CompleteUnitProps> }
/// `CompleteUnitProps` without the compilation unit itself
pub struct CompleteUnitProps { pub exports: Exports, pub types: Types }
pub struct Item { pub defs: Vec<Def> }
pub struct Src { s: u8 }
pub struct CompilationUnit { pub src: Src, pub items: Vec<Item> }
impl Clone for Def {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for NamespacedName {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- std's maps
/// HashMap<NamespacedName, Def>
#[verifier::external_body]
pub struct Exports { e: u8 }
type Key = (Namespace, Seq<char>);
spec fn key(n: NamespacedName) -> Key { (n.namespace, n.name@) }
impl Exports {
    uninterp spec fn view(&self) -> Map<Key, Def>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Key, Def>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: NamespacedName, v: Def) ensures final(self)@ == old(self)@.insert(key(k), v) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &NamespacedName) -> (r: Option<&Def>)
        ensures r == (if self@.contains_key(key(*k)) { Some(&self@[key(*k)]) } else { None }) { unimplemented!() }
}
/// HashMap<Symbol, Def>
#[verifier::external_body]
pub struct Types { e: u8 }
impl Types {
    uninterp spec fn view(&self) -> Map<Symbol, Def>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Symbol, Def>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: Symbol, v: Def) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// `self.extend(o.iter().map(|(&k, v)| (k, v.clone())))`
    #[verifier::external_body]
    fn vx_extend(&mut self, o: &Types) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
}
pub uninterp spec fn text(src: Src, s: Span) -> Seq<char>;
/// `src[span.source_range()].to_owned()`
#[verifier::external_body]
fn vx_text(src: &Src, s: Span) -> (r: String) ensures r@ == text(*src, s) { unimplemented!() }
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

#[verifier::external_body]
fn vx_array<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }

// ---- the rule
spec fn namespaces_of(k: DefKind) -> Seq<Namespace> {
    match k {
        DefKind::Value { .. } => seq![Namespace::Value],
        DefKind::Ctor { .. } => seq![Namespace::Pattern, Namespace::Value],
        DefKind::Type { .. } => seq![Namespace::Type],
        DefKind::Module { .. } => seq![Namespace::Module],
    }
}
spec fn put(m: Map<Key, Def>, src: Src, d: Def, n: nat) -> Map<Key, Def> decreases n {
    if n == 0 { m } else { put(m, src, d, (n - 1) as nat).insert((namespaces_of(d.kind)[n - 1], text(src, d.span)), d) }
}
spec fn add(m: Map<Key, Def>, src: Src, ds: Seq<Def>) -> Map<Key, Def> decreases ds.len() {
    if ds.len() == 0 { m } else {
        let p = add(m, src, ds.drop_last());
        if ds.last().vis == Visibility::Export { put(p, src, ds.last(), namespaces_of(ds.last().kind).len()) } else { p }
    }
}
spec fn exports_of(src: Src, items: Seq<Item>) -> Map<Key, Def> decreases items.len() {
    if items.len() == 0 { Map::empty() } else { add(exports_of(src, items.drop_last()), src, items.last().defs@) }
}
spec fn exported(src: Src, d: Def, k: Key) -> bool {
    d.vis == Visibility::Export && namespaces_of(d.kind).contains(k.0) && text(src, d.span) == k.1
}
spec fn some_export(src: Src, items: Seq<Item>, k: Key) -> bool {
    exists|i: int, j: int| 0 <= i < items.len() && 0 <= j < items[i].defs@.len() && exported(src, #[trigger] items[i].defs@[j], k)
}
/// C18: a name is exported exactly when some definition marked as exported has it, and
/// what is exported under it is such a definition
proof fn exported_exactly(src: Src, items: Seq<Item>, k: Key)
    ensures
        exports_of(src, items).contains_key(k) <==> some_export(src, items, k),
        exports_of(src, items).contains_key(k) ==> exported(src, exports_of(src, items)[k], k),
    decreases items.len(),
{
    if items.len() > 0 {
        let p = items.drop_last();
        exported_exactly(src, p, k);
        let ds = items.last().defs@;
        added(exports_of(src, p), src, ds, k);
        if exports_of(src, p).contains_key(k) {
            let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].defs@.len() && exported(src, #[trigger] p[i].defs@[j], k);
            assert(exported(src, items[i].defs@[j], k));
        }
        if exists|j: int| 0 <= j < ds.len() && exported(src, #[trigger] ds[j], k) {
            let j = choose|j: int| 0 <= j < ds.len() && exported(src, #[trigger] ds[j], k);
            assert(exported(src, items[items.len() - 1].defs@[j], k));
        }
        if some_export(src, items, k) {
            let (i, j) = choose|i: int, j: int| 0 <= i < items.len() && 0 <= j < items[i].defs@.len() && exported(src, #[trigger] items[i].defs@[j], k);
            if i < p.len() { assert(exported(src, p[i].defs@[j], k)); } else { assert(exported(src, ds[j], k)); }
        }
    }
}
proof fn added(m: Map<Key, Def>, src: Src, ds: Seq<Def>, k: Key)
    ensures
        add(m, src, ds).contains_key(k) <==> m.contains_key(k) || exists|j: int| 0 <= j < ds.len() && exported(src, #[trigger] ds[j], k),
        add(m, src, ds).contains_key(k) ==> exported(src, add(m, src, ds)[k], k) || (m.contains_key(k) && add(m, src, ds)[k] == m[k]),
    decreases ds.len(),
{
    if ds.len() > 0 {
        let p = ds.drop_last();
        added(m, src, p, k);
        if exists|j: int| 0 <= j < p.len() && exported(src, #[trigger] p[j], k) {
            let j = choose|j: int| 0 <= j < p.len() && exported(src, #[trigger] p[j], k);
            assert(exported(src, ds[j], k));
        }
        if exists|j: int| 0 <= j < ds.len() && exported(src, #[trigger] ds[j], k) {
            let j = choose|j: int| 0 <= j < ds.len() && exported(src, #[trigger] ds[j], k);
            if j < p.len() { assert(exported(src, p[j], k)); }
        }
        if ds.last().vis == Visibility::Export {
            put_all(add(m, src, p), src, ds.last(), namespaces_of(ds.last().kind).len(), k);
            let ns = namespaces_of(ds.last().kind);
            assert(ns.contains(k.0) <==> exists|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == k.0);
            if exported(src, ds.last(), k) { assert(exported(src, ds[ds.len() - 1], k)); }
        }
    }
}
proof fn put_all(m: Map<Key, Def>, src: Src, d: Def, n: nat, k: Key)
    requires n <= namespaces_of(d.kind).len(),
    ensures
        ({
            let here = text(src, d.span) == k.1 && exists|i: int| 0 <= i < n && #[trigger] namespaces_of(d.kind)[i] == k.0;
            &&& put(m, src, d, n).contains_key(k) <==> m.contains_key(k) || here
            &&& here ==> put(m, src, d, n)[k] == d
            &&& !here && m.contains_key(k) ==> put(m, src, d, n)[k] == m[k]
        }),
    decreases n,
{
    if n > 0 {
        put_all(m, src, d, (n - 1) as nat, k);
        assert(namespaces_of(d.kind)[n - 1] == namespaces_of(d.kind)[n - 1]);
    }
}

//@ fn ticc/src/import.rs collect_exports
//@ ret r
//@ rule HashMap < NamespacedName , ir :: Def > ==> Exports
//@ rule HashMap :: new ( ) ==> Exports :: new ( )
//@ rule unit . src [ $s . source_range ( ) ] . to_owned ( ) ==> vx_text ( & unit . src , $s )
    ensures r@ == exports_of(unit.src, unit.items@),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    proof { assert(unit.items@.take(unit.items@.len() as int) =~= unit.items@); assert(unit.items@.take(0) =~= Seq::empty()); }
//@ loop 0
    invariant
        vx_it0.seq().len() == unit.items@.len(),
        forall|k: int| 0 <= k < unit.items@.len() ==> *#[trigger] vx_it0.seq()[k] == unit.items@[k],
        exports@ == exports_of(unit.src, unit.items@.take(vx_it0.index() as int)),
//@ loophead 0
    let ghost i = vx_it0.index() as int;
    let ghost m0 = exports@;
    proof {
        assert(*item == unit.items@[i]);
        assert(unit.items@.take(i + 1).drop_last() =~= unit.items@.take(i));
        assert(item.defs@.take(0) =~= Seq::empty());
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == item.defs@.len(),
        forall|k: int| 0 <= k < item.defs@.len() ==> *#[trigger] vx_it1.seq()[k] == item.defs@[k],
        exports@ == add(m0, unit.src, item.defs@.take(vx_it1.index() as int)),
//@ loophead 1
    let ghost j = vx_it1.index() as int;
    let ghost m1 = exports@;
    proof {
        assert(*def == item.defs@[j]);
        assert(item.defs@.take(j + 1).drop_last() =~= item.defs@.take(j));
    }
//@ loop 2
    invariant
        vx_it2.seq().len() == namespaces@.len(),
        forall|k: int| 0 <= k < namespaces@.len() ==> *#[trigger] vx_it2.seq()[k] == namespaces@[k],
        namespaces@ =~= namespaces_of(def.kind),
        exports@ == put(m1, unit.src, *def, vx_it2.index() as nat),
//@ looptail 0
    proof { assert(item.defs@.take(item.defs@.len() as int) =~= item.defs@); }
//@ end

spec fn types_add(m: Map<Symbol, Def>, ds: Seq<Def>) -> Map<Symbol, Def> decreases ds.len() {
    if ds.len() == 0 { m } else {
        let p = types_add(m, ds.drop_last());
        match ds.last().kind {
            DefKind::Module { unit } => p.union_prefer_right(unit.props.types@),
            _ => p.insert(ds.last().symbol, ds.last()),
        }
    }
}
spec fn types(items: Seq<Item>) -> Map<Symbol, Def> decreases items.len() {
    if items.len() == 0 { Map::empty() } else { types_add(types(items.drop_last()), items.last().defs@) }
}
//@ fn ticc/src/import.rs collect_types
//@ ret r
//@ rule HashMap < ir :: Symbol , ir :: Def > ==> Types
//@ rule HashMap :: new ( ) ==> Types :: new ( )
//@ rule defs . extend ( $t . iter ( ) . map ( | ( & k , v ) | ( k , v . clone ( ) ) ) ) ==> defs . vx_extend ( & $t )
    ensures r@ == types(unit.items@),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    proof { assert(unit.items@.take(unit.items@.len() as int) =~= unit.items@); assert(unit.items@.take(0) =~= Seq::empty()); }
//@ loop 0
    invariant
        vx_it0.seq().len() == unit.items@.len(),
        forall|k: int| 0 <= k < unit.items@.len() ==> *#[trigger] vx_it0.seq()[k] == unit.items@[k],
        defs@ == types(unit.items@.take(vx_it0.index() as int)),
//@ loophead 0
    let ghost i = vx_it0.index() as int;
    let ghost m0 = defs@;
    proof {
        assert(*item == unit.items@[i]);
        assert(unit.items@.take(i + 1).drop_last() =~= unit.items@.take(i));
        assert(item.defs@.take(0) =~= Seq::empty());
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == item.defs@.len(),
        forall|k: int| 0 <= k < item.defs@.len() ==> *#[trigger] vx_it1.seq()[k] == item.defs@[k],
        defs@ == types_add(m0, item.defs@.take(vx_it1.index() as int)),
//@ loophead 1
    let ghost j = vx_it1.index() as int;
    proof {
        assert(*def == item.defs@[j]);
        assert(item.defs@.take(j + 1).drop_last() =~= item.defs@.take(j));
    }
//@ looptail 0
    proof { assert(item.defs@.take(item.defs@.len() as int) =~= item.defs@); }
//@ end

/// the namespaces, in the order of the search, that have the name
spec fn found_in(m: Map<Key, Def>, name: Seq<char>, all: Seq<Namespace>) -> Seq<Namespace> decreases all.len() {
    if all.len() == 0 { Seq::empty() } else {
        let p = found_in(m, name, all.drop_last());
        if m.contains_key((all.last(), name)) { p.push(all.last()) } else { p }
    }
}
spec fn every() -> Seq<Namespace> { seq![Namespace::Value, Namespace::Type, Namespace::Pattern, Namespace::Module] }
proof fn found_some(m: Map<Key, Def>, name: Seq<char>, all: Seq<Namespace>)
    ensures found_in(m, name, all).len() > 0 <==> exists|i: int| 0 <= i < all.len() && m.contains_key((#[trigger] all[i], name)),
    decreases all.len(),
{
    if all.len() > 0 {
        let p = all.drop_last();
        found_some(m, name, p);
        if exists|i: int| 0 <= i < p.len() && m.contains_key((#[trigger] p[i], name)) {
            let i = choose|i: int| 0 <= i < p.len() && m.contains_key((#[trigger] p[i], name));
            assert(m.contains_key((all[i], name)));
        }
        if exists|i: int| 0 <= i < all.len() && m.contains_key((#[trigger] all[i], name)) {
            let i = choose|i: int| 0 <= i < all.len() && m.contains_key((#[trigger] all[i], name));
            if i < p.len() { assert(m.contains_key((p[i], name))); } else { assert(all[i] == all.last()); }
        }
        if m.contains_key((all.last(), name)) { assert(m.contains_key((all[all.len() - 1], name))); }
    }
}
spec fn in_some_namespace(m: Map<Key, Def>, name: Seq<char>) -> bool { exists|ns: Namespace| m.contains_key((ns, name)) }

impl CompleteUnitProps {
//@ fn ticc/src/lib.rs CompleteUnitProps::find_export
//@ ret r
//@ rule __vx_it_0 ( [ $x:rest ] ) ==> __vx_it_0 ( vx_array ( [ $x ] ) )
//@ rule name . to_owned ( ) ==> vx_owned ( name )
    ensures match r {
        Ok(d) => self.exports@.contains_key((namespace, name@)) && *d == self.exports@[(namespace, name@)],
        Err(ExportLookupError::NoExport) => !in_some_namespace(self.exports@, name@),
        Err(ExportLookupError::WrongNamespace { available_in }) => !self.exports@.contains_key((namespace, name@))
            && in_some_namespace(self.exports@, name@) && available_in@ == found_in(self.exports@, name@, every()),
    },
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let ghost nm = name@;
//@ loop 0
    invariant
        vx_it0.seq() =~= every(),
        name.name@ == nm,
        available_in@ == found_in(self.exports@, nm, every().take(vx_it0.index() as int)),
//@ loophead 0
    proof { assert(every().take(vx_it0.index() + 1).drop_last() =~= every().take(vx_it0.index() as int)); }
//@ before if available_in
    proof {
        assert(every().take(4) =~= every());
        found_some(self.exports@, nm, every());
        assert forall|ns: Namespace| self.exports@.contains_key((ns, nm)) implies exists|i: int| 0 <= i < 4 && self.exports@.contains_key((#[trigger] every()[i], nm)) by {
            let i = match ns { Namespace::Value => 0int, Namespace::Type => 1, Namespace::Pattern => 2, Namespace::Module => 3 };
            assert(every()[i] == ns);
        }
    }
//@ end
}

} // verus!
fn main() {}
