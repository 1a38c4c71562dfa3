// Unit `unused`: unused definitions are reported exactly (C17).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule ir :: $x:ident ==> $x
//@ rule pub ( crate ) ==> pub

//@ type ticc/src/compiler/ir.rs Symbol | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/ir.rs DefKind
//@ type ticc/src/compiler/ir.rs Ctors
//@ type ticc/src/compiler/ir.rs Field
//@ type ticc/src/compiler/ir.rs Type
//@ type ticc/src/compiler/ir.rs Visibility | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/ir.rs Ref | #[derive(Clone, Copy)]
pub struct CompleteUnit { u: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeId { n: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Span { s: u32, e: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ModuleKey { k: u64 }
//@ type ticc/src/compiler/ir.rs Def
/// the fields of an item that the lint can see
pub struct Item { pub defs: Vec<Def>, pub refs: Vec<Ref> }
pub struct Src { s: u8 }
pub struct CompilationUnit { pub src: Src, pub items: Vec<Item> }
pub uninterp spec fn compiled(c: CompilationUnit) -> CompilationUnit;
impl CompilationUnit {
    #[verifier::external_body]
    fn compile_to_end(&mut self) ensures *final(self) == compiled(*old(self)) { unimplemented!() }
}

pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(t) => Some(*t), None => None });
// ---- collections (std's contracts)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { t: Vec<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    fn extend(&mut self, v: Vec<T>) ensures forall|x: T| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x) || v@.contains(x) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { t: Vec<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
}
/// `set.iter().filter_map(f).collect::<Vec<_>>()`, in whatever order
#[verifier::external_body]
fn vx_filter_map<T, U, F: Fn(&T) -> Option<U>>(s: &HashSet<T>, f: F) -> (r: Vec<U>)
    requires forall|x: &T| #[trigger] f.requires((x,)),
    ensures
        forall|x: T| #[trigger] s@.contains(x) ==> exists|o: Option<U>| #[trigger] f.ensures((&x,), o) && (o is Some ==> r@.contains(o->0)),
        forall|u: U| #[trigger] r@.contains(u) ==> exists|x: T| s@.contains(x) && #[trigger] f.ensures((&x,), Some(u)),
{ unimplemented!() }

pub uninterp spec fn text(src: Src, s: Span) -> Seq<char>;
#[verifier::external_body]
pub struct Name { n: u8 }
impl Name { pub uninterp spec fn view(&self) -> Seq<char>; }
/// `&compilation.src[span.source_range()]`
#[verifier::external_body]
fn vx_text(src: &Src, s: Span) -> (r: Name) ensures r@ == text(*src, s) { unimplemented!() }
/// `name.chars().next()`
#[verifier::external_body]
fn vx_first(n: &Name) -> (r: Option<char>) ensures r == (if n@.len() > 0 { Some(n@[0]) } else { None }) { unimplemented!() }

pub enum Severity { Error, Warning }
pub enum Msg { NeverUsed(Symbol) }
pub struct RawDiagnostic { pub message: Msg, pub severity: Severity, pub span: Span }

// ---- the rule
pub open spec fn defs_of(items: Seq<Item>) -> Seq<Def> decreases items.len() {
    if items.len() == 0 { Seq::empty() } else { defs_of(items.drop_last()) + items.last().defs@ }
}
pub open spec fn refs_of(items: Seq<Item>) -> Seq<Ref> decreases items.len() {
    if items.len() == 0 { Seq::empty() } else { refs_of(items.drop_last()) + items.last().refs@ }
}
/// the file refers to s, exports it, or it is a type parameter
pub open spec fn uses(ds: Seq<Def>, rs: Seq<Ref>, s: Symbol) -> bool {
    ||| exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).symbol == s
    ||| exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).symbol == s && keeps(ds[i])
}
pub open spec fn keeps(d: Def) -> bool {
    d.vis == Visibility::Export || (match d.kind { DefKind::Type { is_var, .. } => is_var, _ => false })
}
pub open spec fn ctor_of(ds: Seq<Def>) -> Map<Symbol, Symbol> decreases ds.len() {
    if ds.len() == 0 { Map::empty() } else {
        match ds.last().kind {
            DefKind::Ctor { type_symbol, .. } => ctor_of(ds.drop_last()).insert(ds.last().symbol, type_symbol),
            _ => ctor_of(ds.drop_last()),
        }
    }
}
/// ... or it is the type of a constructor for which one of these holds
pub open spec fn is_used(ds: Seq<Def>, rs: Seq<Ref>, s: Symbol) -> bool {
    uses(ds, rs, s) || exists|c: Symbol| #[trigger] uses(ds, rs, c) && ctor_of(ds).contains_key(c) && ctor_of(ds)[c] == s
}
pub ghost struct File { pub src: Src, pub ds: Seq<Def>, pub rs: Seq<Ref> }
pub open spec fn file(c: CompilationUnit) -> File { File { src: c.src, ds: defs_of(c.items@), rs: refs_of(c.items@) } }
pub open spec fn reportable(e: File, d: Def) -> bool {
    !(d.kind is Module) && d.has_name && !is_used(e.ds, e.rs, d.symbol)
        && !(text(e.src, d.span).len() > 0 && text(e.src, d.span)[0] == '_')
}
pub open spec fn seen(e: File, ds: Seq<Def>, d: Def) -> bool {
    exists|i: int| 0 <= i < ds.len() && reportable(e, #[trigger] ds[i]) && ds[i].symbol == d.symbol && ds[i].span == d.span
}
pub open spec fn report(e: File, ds: Seq<Def>) -> Seq<RawDiagnostic> decreases ds.len() {
    if ds.len() == 0 { Seq::empty() } else {
        let d = ds.last();
        let r = report(e, ds.drop_last());
        if reportable(e, d) && !seen(e, ds.drop_last(), d) {
            r.push(RawDiagnostic { message: Msg::NeverUsed(d.symbol), severity: Severity::Warning, span: d.span })
        } else { r }
    }
}

/// C17: a warning for a definition's symbol at its name exactly when it is reportable, and once
proof fn reported_exactly(e: File, ds: Seq<Def>)
    ensures
        forall|i: int| 0 <= i < ds.len() && reportable(e, #[trigger] ds[i]) ==> reports(report(e, ds), ds[i]),
        forall|k: int| 0 <= k < report(e, ds).len() ==> from(e, ds, #[trigger] report(e, ds)[k]),
        forall|k: int, l: int| 0 <= k < l < report(e, ds).len()
            ==> !((#[trigger] report(e, ds)[k]).message == (#[trigger] report(e, ds)[l]).message && report(e, ds)[k].span == report(e, ds)[l].span),
    decreases ds.len(),
{
    if ds.len() > 0 {
        let d = ds.last();
        let p = ds.drop_last();
        reported_exactly(e, p);
        let r = report(e, p);
        let q = report(e, ds);
        assert forall|i: int| 0 <= i < ds.len() && reportable(e, #[trigger] ds[i]) implies reports(q, ds[i]) by {
            let z = if i < p.len() { assert(ds[i] == p[i]); p[i] } else if seen(e, p, d) {
                let j = choose|j: int| 0 <= j < p.len() && reportable(e, #[trigger] p[j]) && p[j].symbol == d.symbol && p[j].span == d.span; p[j]
            } else { d };
            if i < p.len() || seen(e, p, d) {
                assert(reports(r, z));
                let k = choose|k: int| 0 <= k < r.len() && says(#[trigger] r[k], z);
                assert(says(q[k], ds[i]));
            } else { assert(says(q[q.len() - 1], ds[i])); }
        }
        assert forall|k: int| 0 <= k < q.len() implies from(e, ds, #[trigger] q[k]) by {
            if k < r.len() {
                assert(from(e, p, r[k]));
                let i = choose|i: int| 0 <= i < p.len() && reportable(e, #[trigger] p[i]) && says(r[k], p[i]);
                assert(ds[i] == p[i]);
            } else { assert(ds[ds.len() - 1] == d); }
        }
        assert forall|k: int, l: int| 0 <= k < l < q.len() implies !((#[trigger] q[k]).message == (#[trigger] q[l]).message && q[k].span == q[l].span) by {
            if l >= r.len() {
                assert(from(e, p, r[k]));
            } else { assert(q[k] == r[k] && q[l] == r[l]); }
        }
    }
}
pub open spec fn says(g: RawDiagnostic, d: Def) -> bool { g.message == Msg::NeverUsed(d.symbol) && g.span == d.span }
pub open spec fn reports(r: Seq<RawDiagnostic>, d: Def) -> bool { exists|k: int| 0 <= k < r.len() && says(#[trigger] r[k], d) }
pub open spec fn from(e: File, ds: Seq<Def>, g: RawDiagnostic) -> bool {
    exists|i: int| 0 <= i < ds.len() && reportable(e, #[trigger] ds[i]) && says(g, ds[i])
}
proof fn uses_step(ds: Seq<Def>, rs: Seq<Ref>, s: Symbol)
    ensures
        forall|r: Ref| #[trigger] uses(ds, rs.push(r), s) <==> uses(ds, rs, s) || r.symbol == s,
        forall|d: Def| #[trigger] uses(ds.push(d), rs, s) <==> uses(ds, rs, s) || (d.symbol == s && keeps(d)),
{
    assert forall|r: Ref| #[trigger] uses(ds, rs.push(r), s) <==> uses(ds, rs, s) || r.symbol == s by {
        let q = rs.push(r);
        if r.symbol == s { assert(q[rs.len() as int].symbol == s); }
        if exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).symbol == s { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).symbol == s; assert(q[i].symbol == s); }
    }
    assert forall|d: Def| #[trigger] uses(ds.push(d), rs, s) <==> uses(ds, rs, s) || (d.symbol == s && keeps(d)) by {
        let q = ds.push(d);
        if d.symbol == s && keeps(d) { assert(q[ds.len() as int].symbol == s); }
        if exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).symbol == s && keeps(ds[i]) { let i = choose|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).symbol == s && keeps(ds[i]); assert(q[i].symbol == s); }
    }
}
spec fn stepped<T>(a: Seq<T>, x: T) -> bool { true }

//@ fn ticc/src/lint/unused.rs lints
//@ ret r
//@ rule used . iter ( ) . filter_map ( | s | deps . get ( s ) . copied ( ) ) . collect :: < Vec < _ > > ( ) ==> vx_filter_map ( & used , | s : & Symbol | -> ( o : Option < Symbol > ) ensures o == ( if deps@ . contains_key ( *s ) { Some ( deps@ [ *s ] ) } else { None } ) { deps . get ( s ) . copied ( ) } )
//@ rule & compilation . src [ d . span . source_range ( ) ] ==> vx_text ( & compilation . src , d . span )
//@ rule name . chars ( ) . next ( ) ==> vx_first ( & name )
//@ rule err_fmt ! ( d . symbol , " is never used" ) ==> Msg :: NeverUsed ( d . symbol )
    ensures
        *final(compilation) == compiled(*old(compilation)),
        r@ == report(file(*final(compilation)), defs_of(final(compilation).items@)),
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
//@ after compilation . compile_to_end
    let ghost its = compilation.items@;
    let ghost mut used0 = Set::<Symbol>::empty();
//@ loop 0
    invariant
        vx_it0.seq().len() == its.len(),
        forall|k: int| 0 <= k < its.len() ==> *#[trigger] vx_it0.seq()[k] == its[k],
        forall|s: Symbol| #[trigger] used@.contains(s) <==> uses(defs_of(its.take(vx_it0.index() as int)), refs_of(its.take(vx_it0.index() as int)), s),
        deps@ == ctor_of(defs_of(its.take(vx_it0.index() as int))),
//@ loophead 0
    let ghost i = vx_it0.index() as int;
    let ghost ds0 = defs_of(its.take(i));
    let ghost rs0 = refs_of(its.take(i));
    proof {
        assert(*item == its[i]);
        assert(its.take(i + 1).drop_last() =~= its.take(i));
        assert(rs0 + item.refs@.take(0) =~= rs0);
        assert(item.refs@.take(item.refs@.len() as int) =~= item.refs@);
        assert(ds0 + item.defs@.take(0) =~= ds0);
    }
//@ loop 1
    invariant
        vx_it1.seq().len() == item.refs@.len(),
        forall|k: int| 0 <= k < item.refs@.len() ==> *#[trigger] vx_it1.seq()[k] == item.refs@[k],
        forall|s: Symbol| #[trigger] used@.contains(s) <==> uses(ds0, rs0 + item.refs@.take(vx_it1.index() as int), s),
//@ loophead 1
    proof {
        let j = vx_it1.index() as int;
        assert(*r == item.refs@[j]);
        assert(rs0 + item.refs@.take(j + 1) =~= (rs0 + item.refs@.take(j)).push(*r));
        assert forall|s: Symbol| uses(ds0, #[trigger] (rs0 + item.refs@.take(j)).push(*r), s) <==> #[trigger] uses(ds0, rs0 + item.refs@.take(j), s) || r.symbol == s by {
            uses_step(ds0, rs0 + item.refs@.take(j), s);
        }
    }
//@ loop 2
    invariant
        rs0 + item.refs@ == refs_of(its.take(i + 1)),
        vx_it2.seq().len() == item.defs@.len(),
        forall|k: int| 0 <= k < item.defs@.len() ==> *#[trigger] vx_it2.seq()[k] == item.defs@[k],
        forall|s: Symbol| #[trigger] used@.contains(s) <==> uses(ds0 + item.defs@.take(vx_it2.index() as int), rs0 + item.refs@, s),
        deps@ == ctor_of(ds0 + item.defs@.take(vx_it2.index() as int)),
//@ loophead 2
    proof {
        let j = vx_it2.index() as int;
        let p = ds0 + item.defs@.take(j);
        assert(*d == item.defs@[j]);
        assert(ds0 + item.defs@.take(j + 1) =~= p.push(*d));
        assert(p.push(*d).drop_last() =~= p);
        assert forall|s: Symbol| uses(#[trigger] p.push(*d), rs0 + item.refs@, s) <==> #[trigger] uses(p, rs0 + item.refs@, s) || (d.symbol == s && keeps(*d)) by {
            uses_step(p, rs0 + item.refs@, s);
        }
    }
//@ looptail 0
    proof { assert(item.defs@.take(item.defs@.len() as int) =~= item.defs@); }
//@ after let extras
    let ghost vx_extras = extras;
//@ before let extras
    proof { assert(its.take(its.len() as int) =~= its); used0 = used@; }
//@ before let mut lints
    proof {
        assert(forall|s: Symbol| used0.contains(s) ==> used@.contains(s));
        assert forall|s: Symbol| used@.contains(s) && !used0.contains(s) implies exists|c: Symbol| #[trigger] used0.contains(c) && deps@.contains_key(c) && deps@[c] == s by {
            assert(vx_extras@.contains(s));
        }
        assert forall|c: Symbol| #[trigger] used0.contains(c) && deps@.contains_key(c) implies used@.contains(deps@[c]) by {
            assert(vx_extras@.contains(deps@[c]));
        }
        let f = file(*compilation);
        assert forall|s: Symbol| #[trigger] used@.contains(s) <==> is_used(f.ds, f.rs, s) by {
            if is_used(f.ds, f.rs, s) && !uses(f.ds, f.rs, s) {
                let c = choose|c: Symbol| #[trigger] uses(f.ds, f.rs, c) && ctor_of(f.ds).contains_key(c) && ctor_of(f.ds)[c] == s;
                assert(used0.contains(c));
            }
        }
        assert(its.take(0) =~= Seq::empty());
    }
//@ loop 3
    invariant
        forall|s: Symbol| #[trigger] used@.contains(s) <==> is_used(file(*compilation).ds, file(*compilation).rs, s),
        vx_it3.seq().len() == its.len(),
        forall|k: int| 0 <= k < its.len() ==> *#[trigger] vx_it3.seq()[k] == its[k],
        lints@ == report(file(*compilation), defs_of(its.take(vx_it3.index() as int))),
        forall|p: (Symbol, Span)| #[trigger] reported@.contains(p) <==> seen_pair(file(*compilation), defs_of(its.take(vx_it3.index() as int)), p),
//@ loophead 3
    let ghost i = vx_it3.index() as int;
    let ghost ds0 = defs_of(its.take(i));
    proof {
        assert(*item == its[i]);
        assert(its.take(i + 1).drop_last() =~= its.take(i));
        assert(ds0 + item.defs@.take(0) =~= ds0);
    }
//@ loop 4
    invariant
        vx_it4.seq().len() == item.defs@.len(),
        forall|k: int| 0 <= k < item.defs@.len() ==> *#[trigger] vx_it4.seq()[k] == item.defs@[k],
        lints@ == report(file(*compilation), ds0 + item.defs@.take(vx_it4.index() as int)),
        forall|p: (Symbol, Span)| #[trigger] reported@.contains(p) <==> seen_pair(file(*compilation), ds0 + item.defs@.take(vx_it4.index() as int), p),
//@ loophead 4
    proof {
        let j = vx_it4.index() as int;
        let p = ds0 + item.defs@.take(j);
        assert(*d == item.defs@[j]);
        assert(ds0 + item.defs@.take(j + 1) =~= p.push(*d));
        assert(p.push(*d).drop_last() =~= p);
        pair_step(file(*compilation), p, *d);
        assert(seen(file(*compilation), p, *d) == seen_pair(file(*compilation), p, (d.symbol, d.span)));
    }
//@ looptail 3
    proof { assert(item.defs@.take(item.defs@.len() as int) =~= item.defs@); }
//@ before lints
    proof { assert(its.take(its.len() as int) =~= its); }
//@ end
pub open spec fn seen_pair(e: File, ds: Seq<Def>, p: (Symbol, Span)) -> bool {
    exists|i: int| 0 <= i < ds.len() && reportable(e, #[trigger] ds[i]) && ds[i].symbol == p.0 && ds[i].span == p.1
}
proof fn pair_step(e: File, ds: Seq<Def>, d: Def)
    ensures forall|p: (Symbol, Span)| #[trigger] seen_pair(e, ds.push(d), p) <==> seen_pair(e, ds, p) || (reportable(e, d) && d.symbol == p.0 && d.span == p.1),
{
    assert forall|p: (Symbol, Span)| #[trigger] seen_pair(e, ds.push(d), p) <==> seen_pair(e, ds, p) || (reportable(e, d) && d.symbol == p.0 && d.span == p.1) by {
        let q = ds.push(d);
        if reportable(e, d) && d.symbol == p.0 && d.span == p.1 { assert(reportable(e, q[ds.len() as int])); }
        if seen_pair(e, ds, p) { let i = choose|i: int| 0 <= i < ds.len() && reportable(e, #[trigger] ds[i]) && ds[i].symbol == p.0 && ds[i].span == p.1; assert(reportable(e, q[i])); }
    }
}

} // verus!
fn main() {}
