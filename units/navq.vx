// Unit `navq`: what navigation finds (C11, C15).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// Option's combinators, as std documents them
//@ rule $a . or_else ( | | $b:rest ) ==> ( match $a { Some ( vx_s ) => Some ( vx_s ) , None => { $b } } )
//@ rule $a . map ( | $x:ident | $b:rest ) ==> ( match $a { Some ( $x ) => Some ( $b ) , None => None } )
//@ rule super :: $x:ident ==> $x

//@ include defs.inc
//@ include pos.inc
pub struct CompleteUnit { u: u8 }
/// the fields of an item that navigation can see
pub struct Item { pub span: Span, pub defs: Vec<Def>, pub refs: Vec<Ref> }
pub struct CompilationUnit { pub items: Vec<Item> }
pub uninterp spec fn compiled(c: CompilationUnit) -> CompilationUnit;
impl CompilationUnit {
    #[verifier::external_body]
    fn compile_to_end(&mut self) ensures *final(self) == compiled(*old(self)) { unimplemented!() }
}
//@ include find.inc
//@ fn ticc/src/api/navigation.rs find_definition
//@ ret r
    ensures
        *final(compilation) == compiled(*old(compilation)),
        r == definition(final(compilation).items@, pos),
//@ end

// ---- iterator chains, as loops
/// `v.iter().filter_map(f).collect()`
fn vx_filter_map<T, U, F: Fn(&T) -> Option<U>>(v: &Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|x: &T| #[trigger] f.requires((x,)),
    ensures exists|o: Seq<Option<U>>| #![auto] o.len() == v@.len() && (forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), o[i])) && r@ == somes(o),
{
    let mut r = Vec::new();
    let ghost mut o = Seq::<Option<U>>::empty();
    let mut i: usize = 0;
    while i < v.len()
        invariant
            0 <= i <= v@.len(), o.len() == i, r@ == somes(o),
            forall|x: &T| #[trigger] f.requires((x,)),
            forall|k: int| 0 <= k < i ==> f.ensures((&v@[k],), #[trigger] o[k]),
        decreases v@.len() - i,
    {
        let ghost o0 = o;
        let x = f(&v[i]);
        proof { o = o.push(x); assert(o.drop_last() =~= o0); }
        if let Some(u) = x { r.push(u); }
        i = i + 1;
    }
    r
}
pub open spec fn somes<U>(o: Seq<Option<U>>) -> Seq<U> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(u) => somes(o.drop_last()).push(u), None => somes(o.drop_last()) } }
}
/// `items.iter().flat_map(|i| i.refs.iter())`
fn vx_flat_refs(items: &Vec<Item>) -> (r: Vec<Ref>) ensures r@ == refs_of(items@, items@.len())
{
    let mut r: Vec<Ref> = Vec::new();
    let mut i: usize = 0;
    while i < items.len()
        invariant 0 <= i <= items@.len(), r@ == refs_of(items@, i as nat),
        decreases items@.len() - i,
    {
        let mut j: usize = 0;
        assert(items@[i as int].refs@.take(0) =~= Seq::empty());
        assert(r@ =~= refs_of(items@, i as nat) + items@[i as int].refs@.take(0));
        while j < items[i].refs.len()
            invariant 0 <= i < items@.len(), 0 <= j <= items@[i as int].refs@.len(), r@ == refs_of(items@, i as nat) + items@[i as int].refs@.take(j as int),
            decreases items@[i as int].refs@.len() - j,
        {
            r.push(items[i].refs[j]);
            j = j + 1;
            assert(r@ =~= refs_of(items@, i as nat) + items@[i as int].refs@.take(j as int));
        }
        assert(items@[i as int].refs@.take(j as int) =~= items@[i as int].refs@);
        i = i + 1;
    }
    r
}
/// `items.iter().flat_map(|i| i.defs.iter().map(move |d| (i, d))).find(|(_, d)| d.symbol == s)`
fn vx_find_def<'a>(items: &'a Vec<Item>, s: Symbol) -> (r: Option<(&'a Item, &'a Def)>)
    ensures match home(items@, s, 0) {
        None => r is None,
        Some(k) => match r { Some((i, d)) => *i == items@[k] && Some(*d) == def_of(items@, s), None => false },
    }
{
    let mut i: usize = 0;
    while i < items.len()
        invariant 0 <= i <= items@.len(), home(items@, s, 0) == home(items@, s, i as int),
        decreases items@.len() - i,
    {
        let mut j: usize = 0;
        while j < items[i].defs.len()
            invariant 0 <= i < items@.len(), 0 <= j <= items@[i as int].defs@.len(), home(items@, s, 0) == home(items@, s, i as int),
                sym_in(items@[i as int].defs@, s, 0) == sym_in(items@[i as int].defs@, s, j as int),
            decreases items@[i as int].defs@.len() - j,
        {
            if items[i].defs[j].symbol == s { return Some((&items[i], &items[i].defs[j])); }
            j = j + 1;
        }
        i = i + 1;
    }
    None
}
proof fn places_of(rs: Seq<Ref>, s: Symbol, o: Seq<Option<Span>>)
    requires o.len() == rs.len(), forall|i: int| 0 <= i < rs.len() ==> #[trigger] o[i] == (if rs[i].symbol == s { Some(rs[i].span) } else { None }),
    ensures somes(o) == places(rs, s),
    decreases rs.len(),
{
    if rs.len() > 0 { places_of(rs.drop_last(), s, o.drop_last()); }
}

//@ fn ticc/src/api/navigation.rs find_references
//@ ret r
//@ rule compilation . items . iter ( ) . flat_map ( | i | i . defs . iter ( ) . map ( move | d | ( i , d ) ) ) . find ( | ( _ , d ) | d . symbol == symbol ) ==> vx_find_def ( & compilation . items , symbol )
//@ rule compilation . items . iter ( ) . flat_map ( | i | i . refs . iter ( ) ) ==> vx_flat_refs ( & compilation . items ) . iter ( )
//@ rule $v . iter ( ) . filter_map ( | r | $b:rest ) . collect ( ) ==> vx_filter_map ( & $v , | r : & Ref | -> ( o : Option < Span > ) ensures o == ( if r.symbol == symbol { Some ( r . span ) } else { None } ) { $b } )
    ensures
        *final(compilation) == compiled(*old(compilation)),
        match r { None => references(final(compilation).items@, pos) is None, Some(v) => references(final(compilation).items@, pos) == Some(v@) },
//@ before Some ( refs )
    proof {
        let s = symbol;
        assert forall|rs: Seq<Ref>, o: Seq<Option<Span>>| #![trigger somes(o), places(rs, s)]
            o.len() == rs.len() && (forall|i: int| 0 <= i < rs.len() ==> #[trigger] o[i] == (if rs[i].symbol == s { Some(rs[i].span) } else { None })) implies somes(o) == places(rs, s) by {
            places_of(rs, s, o);
        }
    }
//@ end

/// C11: when a local definition is referred to in its own item only, find-references gives
/// exactly the places that refer to the symbol
proof fn exactly_the_uses(items: Seq<Item>, p: Pos)
    requires
        forall|k: int, j: int, s: Symbol| 0 <= k < items.len() && 0 <= j < items[k].refs@.len() && (#[trigger] items[k].refs@[j]).symbol == s
            && def_of(items, s) is Some && def_of(items, s)->0.vis == Visibility::Local ==> #[trigger] home(items, s, 0) == Some(k),
    ensures references(items, p) is Some ==> references(items, p)->0 == places(refs_of(items, items.len()), name_at(items, p)->0.symbol),
{
    if references(items, p) is Some {
        let s = name_at(items, p)->0.symbol;
        let h = home(items, s, 0)->0;
        if def_of(items, s)->0.vis == Visibility::Local {
            home_range(items, s, 0);
            only_home(items, s, h, items.len());
        }
    }
}
proof fn home_range(items: Seq<Item>, s: Symbol, k: int)
    ensures home(items, s, k) is Some ==> k <= home(items, s, k)->0 < items.len() && 0 <= k && sym_in(items[home(items, s, k)->0].defs@, s, 0) is Some,
    decreases items.len() - k,
{
    if 0 <= k < items.len() && !(sym_in(items[k].defs@, s, 0) is Some) { home_range(items, s, k + 1); }
}
proof fn only_home(items: Seq<Item>, s: Symbol, h: int, n: nat)
    requires
        n <= items.len(), 0 <= h < items.len(),
        forall|k: int, j: int| 0 <= k < items.len() && 0 <= j < items[k].refs@.len() && (#[trigger] items[k].refs@[j]).symbol == s ==> k == h,
    ensures places(refs_of(items, n), s) == (if h < n { places(items[h].refs@, s) } else { Seq::empty() }),
    decreases n,
{
    if n > 0 {
        only_home(items, s, h, (n - 1) as nat);
        places_add(refs_of(items, (n - 1) as nat), items[n - 1].refs@, s);
        if n - 1 != h { places_none(items[n - 1].refs@, s); }
        assert(Seq::<Span>::empty() + places(items[n - 1].refs@, s) =~= places(items[n - 1].refs@, s));
        assert(places(refs_of(items, (n - 1) as nat), s) + Seq::<Span>::empty() =~= places(refs_of(items, (n - 1) as nat), s));
    }
}
proof fn places_none(rs: Seq<Ref>, s: Symbol)
    requires forall|j: int| 0 <= j < rs.len() ==> (#[trigger] rs[j]).symbol != s,
    ensures places(rs, s) == Seq::<Span>::empty(),
    decreases rs.len(),
{
    if rs.len() > 0 { assert(rs[rs.len() - 1].symbol != s); places_none(rs.drop_last(), s); }
}
proof fn places_add(a: Seq<Ref>, b: Seq<Ref>, s: Symbol)
    ensures places(a + b, s) == places(a, s) + places(b, s),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(places(a, s) + places(b, s) =~= places(a, s)); } else {
        places_add(a, b.drop_last(), s);
        assert((a + b).drop_last() =~= a + b.drop_last());
        if b.last().symbol == s { assert(places(a + b, s) =~= places(a, s) + places(b, s)); }
    }
}

} // verus!
fn main() {}
