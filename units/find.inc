// Looking names up: the item, the definition and the use at a position, the definition of a symbol.
impl Def {
//@ fn ticc/src/compiler/ir.rs Def::to_ref
//@ ret r
    ensures r == (Ref { symbol: self.symbol, span: self.span, node: self.node }),
//@ end
}

// ---- what is at a position
pub open spec fn touches(s: Span, p: Pos) -> bool { s.start.offset <= p.offset <= s.end.offset }
pub open spec fn covers(i: Item, p: Pos) -> bool { i.span.start.offset <= p.offset < i.span.end.offset }
pub open spec fn ref_in(rs: Seq<Ref>, p: Pos, k: int) -> Option<Ref> decreases rs.len() - k {
    if k < 0 || k >= rs.len() { None } else if touches(rs[k].span, p) { Some(rs[k]) } else { ref_in(rs, p, k + 1) }
}
pub open spec fn ref_at(items: Seq<Item>, p: Pos, k: int) -> Option<Ref> decreases items.len() - k {
    if k < 0 || k >= items.len() { None }
    else if covers(items[k], p) && ref_in(items[k].refs@, p, 0) is Some { ref_in(items[k].refs@, p, 0) }
    else { ref_at(items, p, k + 1) }
}
pub open spec fn def_in(ds: Seq<Def>, p: Pos, k: int) -> Option<Def> decreases ds.len() - k {
    if k < 0 || k >= ds.len() { None } else if ds[k].has_name && touches(ds[k].span, p) { Some(ds[k]) } else { def_in(ds, p, k + 1) }
}
pub open spec fn def_at(items: Seq<Item>, p: Pos, k: int) -> Option<Def> decreases items.len() - k {
    if k < 0 || k >= items.len() { None }
    else if covers(items[k], p) && def_in(items[k].defs@, p, 0) is Some { def_in(items[k].defs@, p, 0) }
    else { def_at(items, p, k + 1) }
}
/// the symbol at a position: the name used there, or else the one defined there
pub open spec fn name_at(items: Seq<Item>, p: Pos) -> Option<Ref> {
    match ref_at(items, p, 0) {
        Some(r) => Some(r),
        None => match def_at(items, p, 0) { Some(d) => Some(Ref { symbol: d.symbol, span: d.span, node: d.node }), None => None },
    }
}
pub open spec fn sym_in(ds: Seq<Def>, s: Symbol, k: int) -> Option<Def> decreases ds.len() - k {
    if k < 0 || k >= ds.len() { None } else if ds[k].symbol == s { Some(ds[k]) } else { sym_in(ds, s, k + 1) }
}
pub open spec fn home(items: Seq<Item>, s: Symbol, k: int) -> Option<int> decreases items.len() - k {
    if k < 0 || k >= items.len() { None } else if sym_in(items[k].defs@, s, 0) is Some { Some(k) } else { home(items, s, k + 1) }
}
pub open spec fn def_of(items: Seq<Item>, s: Symbol) -> Option<Def> {
    match home(items, s, 0) { Some(k) => sym_in(items[k].defs@, s, 0), None => None }
}
pub open spec fn refs_of(items: Seq<Item>, n: nat) -> Seq<Ref> decreases n {
    if n == 0 { Seq::empty() } else { refs_of(items, (n - 1) as nat) + items[n - 1].refs@ }
}
/// the places that refer to s
pub open spec fn places(rs: Seq<Ref>, s: Symbol) -> Seq<Span> decreases rs.len() {
    if rs.len() == 0 { Seq::empty() } else {
        let p = places(rs.drop_last(), s);
        if rs.last().symbol == s { p.push(rs.last().span) } else { p }
    }
}
pub open spec fn definition(items: Seq<Item>, p: Pos) -> Option<Span> {
    match ref_at(items, p, 0) {
        Some(r) => match def_of(items, r.symbol) { Some(d) => Some(d.span), None => None },
        None => match def_at(items, p, 0) { Some(d) => Some(d.span), None => None },
    }
}
pub open spec fn references(items: Seq<Item>, p: Pos) -> Option<Seq<Span>> {
    match name_at(items, p) {
        None => None,
        Some(r) => match home(items, r.symbol, 0) {
            None => None,
            Some(k) => if def_of(items, r.symbol)->0.vis == Visibility::Local { Some(places(items[k].refs@, r.symbol)) }
                else { Some(places(refs_of(items, items.len()), r.symbol)) },
        },
    }
}
pub open spec fn opt_ref(o: Option<&Ref>) -> Option<Ref> { match o { Some(r) => Some(*r), None => None } }
pub open spec fn opt_def(o: Option<&Def>) -> Option<Def> { match o { Some(r) => Some(*r), None => None } }

//@ fn ticc/src/api.rs find_ref_at
//@ ret r
    ensures opt_ref(r) == ref_at(compilation.items@, pos, 0),
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant
        vx_it0.seq().len() == compilation.items@.len(),
        forall|k: int| 0 <= k < compilation.items@.len() ==> *#[trigger] vx_it0.seq()[k] == compilation.items@[k],
        ref_at(compilation.items@, pos, 0) == ref_at(compilation.items@, pos, vx_it0.index() as int),
//@ loophead 0
    assert(*item == compilation.items@[vx_it0.index() as int]);
//@ loop 1
    invariant
        vx_it1.seq().len() == item.refs@.len(),
        forall|k: int| 0 <= k < item.refs@.len() ==> *#[trigger] vx_it1.seq()[k] == item.refs@[k],
        ref_in(item.refs@, pos, 0) == ref_in(item.refs@, pos, vx_it1.index() as int),
//@ loophead 1
    assert(*r == item.refs@[vx_it1.index() as int]);
//@ end

//@ fn ticc/src/api.rs find_def_at
//@ ret r
    ensures opt_def(r) == def_at(compilation.items@, pos, 0),
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant
        vx_it0.seq().len() == compilation.items@.len(),
        forall|k: int| 0 <= k < compilation.items@.len() ==> *#[trigger] vx_it0.seq()[k] == compilation.items@[k],
        def_at(compilation.items@, pos, 0) == def_at(compilation.items@, pos, vx_it0.index() as int),
//@ loophead 0
    assert(*item == compilation.items@[vx_it0.index() as int]);
//@ loop 1
    invariant
        vx_it1.seq().len() == item.defs@.len(),
        forall|k: int| 0 <= k < item.defs@.len() ==> *#[trigger] vx_it1.seq()[k] == item.defs@[k],
        def_in(item.defs@, pos, 0) == def_in(item.defs@, pos, vx_it1.index() as int),
//@ loophead 1
    assert(*def == item.defs@[vx_it1.index() as int]);
//@ end

//@ fn ticc/src/api.rs find_def_or_ref_at
//@ ret r
    ensures r == name_at(compilation.items@, pos),
//@ end

//@ fn ticc/src/api.rs find_def
//@ ret r
    ensures opt_def(r) == def_of(compilation.items@, symbol),
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant
        vx_it0.seq().len() == compilation.items@.len(),
        forall|k: int| 0 <= k < compilation.items@.len() ==> *#[trigger] vx_it0.seq()[k] == compilation.items@[k],
        home(compilation.items@, symbol, 0) == home(compilation.items@, symbol, vx_it0.index() as int),
//@ loophead 0
    assert(*item == compilation.items@[vx_it0.index() as int]);
//@ loop 1
    invariant
        vx_it1.seq().len() == item.defs@.len(),
        forall|k: int| 0 <= k < item.defs@.len() ==> *#[trigger] vx_it1.seq()[k] == item.defs@[k],
        sym_in(item.defs@, symbol, 0) == sym_in(item.defs@, symbol, vx_it1.index() as int),
//@ loophead 1
    assert(*def == item.defs@[vx_it1.index() as int]);
//@ end

