// Unit `completion`: the completions offered at a name use are exactly the names visible there
// that may stand in that place, each once, in order (C19).
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ rule resolve :: Namespace ==> UseNs
//@ rule resolve :: NameUsage ==> NameUsage
//@ rule resolve :: ResolveSink ==> ResolveSink
//@ include scope.inc
//@ rule namespace : Namespace ==> namespace : ExportNs
//@ type ticc/src/lib.rs NamespacedName
//@ type ticc/src/api/completion.rs Completion
//@ type ticc/src/api/completion.rs Resolver
use Namespace as UseNs;

/// the order of names (std's order of strings: by their bytes, which is by their characters)
spec fn le(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] != b[0] { a[0] < b[0] } else { le(a.drop_first(), b.drop_first()) }
}
proof fn le_antisym(a: Seq<char>, b: Seq<char>)
    requires le(a, b), le(b, a),
    ensures a =~= b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        le_antisym(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    }
}
proof fn le_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires le(a, b), le(b, c),
    ensures le(a, c),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { le_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}

/// the kind of export a use asks for
spec fn export_kind(u: NameUsage) -> ExportNs {
    match u { NameUsage::Value => ExportNs::Value, NameUsage::Ctor => ExportNs::Pattern, NameUsage::Type => ExportNs::Type, NameUsage::Module => ExportNs::Module }
}
/// the names that may stand where a name of this use is written
spec fn fits(e: Env, u: NameUsage, ns: Namespace, n: Seq<char>) -> bool {
    match ns {
        Namespace::None => e.modules.contains_key(n) || match u {
            NameUsage::Value => e.values.contains_key(n),
            NameUsage::Type => e.types.contains_key(n),
            NameUsage::Ctor => e.ctors.contains_key(n),
            NameUsage::Module => false,
        },
        Namespace::Module(m) => m.exports().contains_key((export_kind(u), n)),
        Namespace::UnresolvedModule => false,
    }
}
spec fn name_at(c: Seq<Completion>, i: int) -> Seq<char> { c[i].name@ }
spec fn offers(c: Seq<Completion>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < c.len() && #[trigger] name_at(c, i) == n }
proof fn offers_push(c: Seq<Completion>, x: Completion, n: Seq<char>)
    ensures offers(c.push(x), n) == (offers(c, n) || x.name@ == n),
{
    if offers(c, n) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] name_at(c, i) == n; assert(name_at(c.push(x), i) == n); }
    if x.name@ == n { assert(name_at(c.push(x), c.len() as int) == n); }
    if offers(c.push(x), n) {
        let i = choose|i: int| 0 <= i < c.push(x).len() && #[trigger] name_at(c.push(x), i) == n;
        if i < c.len() { assert(name_at(c, i) == n); }
    }
}
/// strictly increasing: each name once
spec fn increasing(c: Seq<Completion>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> le(#[trigger] name_at(c, i), #[trigger] name_at(c, j)) && name_at(c, i) != name_at(c, j) }
spec fn sorted(c: Seq<Completion>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> le(#[trigger] name_at(c, i), #[trigger] name_at(c, j)) }
/// `dedup_by`: an element equal to the last one kept is removed
spec fn dedup(c: Seq<Completion>) -> Seq<Completion> decreases c.len() {
    if c.len() <= 1 { c } else {
        let d = dedup(c.drop_last());
        if d.last().name@ == c.last().name@ { d } else { d.push(c.last()) }
    }
}
proof fn dedup_ok(c: Seq<Completion>, n: Seq<char>)
    requires sorted(c),
    ensures increasing(dedup(c)), offers(dedup(c), n) == offers(c, n), c.len() > 0 ==> dedup(c).len() > 0 && dedup(c).last().name@ == c.last().name@,
    decreases c.len(),
{
    if c.len() > 1 {
        let p = c.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies le(#[trigger] name_at(p, i), #[trigger] name_at(p, j)) by { assert(le(name_at(c, i), name_at(c, j))); }
        dedup_ok(p, n);
        let d = dedup(p);
        assert(c =~= p.push(c.last()));
        offers_push(p, c.last(), n);
        offers_push(d, c.last(), n);
        if d.last().name@ == c.last().name@ {
            if c.last().name@ == n { assert(name_at(d, d.len() - 1) == n); }
        } else {
            let q = d.push(c.last());
            assert(le(name_at(c, c.len() - 2), name_at(c, c.len() - 1)));
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies le(#[trigger] name_at(q, i), #[trigger] name_at(q, j)) && name_at(q, i) != name_at(q, j) by {
                if j < d.len() { assert(le(name_at(d, i), name_at(d, j))); }
                else if i == d.len() - 1 { }
                else {
                    assert(le(name_at(d, i), name_at(d, d.len() - 1)));
                    le_trans(name_at(d, i), name_at(d, d.len() - 1), name_at(q, j));
                    if name_at(q, i) == name_at(q, j) { le_antisym(name_at(d, i), name_at(d, d.len() - 1)); }
                }
            }
        }
    } else if c.len() == 1 {
    }
}

// ---- std
impl<V> Names<V> {
    /// `keys()`: every name of the map, in any order
    #[verifier::external_body]
    fn vx_keys(&self) -> (r: Vec<&str>)
        ensures forall|n: Seq<char>| self@.contains_key(n) == (exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i]@ == n) { unimplemented!() }
}
impl CompleteUnit {
    #[verifier::external_body]
    fn vx_export_keys(&self) -> (r: Vec<&NamespacedName>)
        ensures forall|k: Key| #[trigger] self.exports().contains_key(k) == (exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i].namespace, r@[i].name@) == k) { unimplemented!() }
}
#[verifier::external_body]
fn vx_sort(v: &mut Vec<Completion>)
    ensures sorted(final(v)@), forall|n: Seq<char>| #[trigger] offers(final(v)@, n) == offers(old(v)@, n) { unimplemented!() }
#[verifier::external_body]
fn vx_dedup(v: &mut Vec<Completion>) ensures final(v)@ == dedup(old(v)@) { unimplemented!() }
#[verifier::external_body]
fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

//@ fn ticc/src/api/completion.rs add_keys_from
//@ rule & HashMap < & str , T > ==> & Names < T >
//@ rule completions . extend ( map . keys ( ) . copied ( ) . map ( | k | $body:rest ) ) ==> for k in it : vx_names invariant it.seq() == vx_gn, forall|n: Seq<char>| #[trigger] offers(completions@, n) == (offers(old(completions)@, n) || (exists|i: int| 0 <= i < it.index() && #[trigger] vx_gn[i]@ == n)) { let ghost c0 = completions@; let vx_c = $body ; completions . push ( vx_c ) ; proof { step(c0, vx_c, completions@, old(completions)@, vx_gn, it.index() as int); } }
//@ rule k . to_owned ( ) ==> vx_owned ( k )
    ensures forall|n: Seq<char>| #[trigger] offers(final(completions)@, n) == (offers(old(completions)@, n) || map@.contains_key(n)),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let vx_names = map.vx_keys();
    let ghost vx_gn = vx_names@;
//@ end
spec fn among(ks: Seq<&str>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && #[trigger] ks[i]@ == n }
proof fn step(c0: Seq<Completion>, x: Completion, c1: Seq<Completion>, old: Seq<Completion>, ks: Seq<&str>, k: int)
    requires 0 <= k < ks.len(), c1 == c0.push(x), x.name@ == ks[k]@,
        forall|n: Seq<char>| #[trigger] offers(c0, n) == (offers(old, n) || (exists|i: int| 0 <= i < k && #[trigger] ks[i]@ == n)),
    ensures forall|n: Seq<char>| #[trigger] offers(c1, n) == (offers(old, n) || (exists|i: int| 0 <= i < k + 1 && #[trigger] ks[i]@ == n)),
{
    assert forall|n: Seq<char>| #[trigger] offers(c1, n) == (offers(old, n) || (exists|i: int| 0 <= i < k + 1 && #[trigger] ks[i]@ == n)) by {
        offers_push(c0, x, n);
        assert(offers(c0, n) == (offers(old, n) || (exists|i: int| 0 <= i < k && #[trigger] ks[i]@ == n)));
        if ks[k]@ == n { assert(0 <= k < k + 1 && ks[k]@ == n); }
    }
}

//@ fn ticc/src/api/completion.rs add_exports
//@ rule Namespace :: $x:ident ==> ExportNs :: $x
//@ rule unit . props . exports . keys ( ) ==> unit . vx_export_keys ( )
    ensures forall|n: Seq<char>| #[trigger] offers(final(completions)@, n) == (offers(old(completions)@, n) || unit.exports().contains_key((export_kind(for_usage), n))),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let ghost old_c = completions@;
//@ loop 0
    invariant
        namespace == export_kind(for_usage),
        forall|k: Key| #[trigger] unit.exports().contains_key(k) == (exists|i: int| 0 <= i < vx_it0.seq().len() && (#[trigger] vx_it0.seq()[i].namespace, vx_it0.seq()[i].name@) == k),
        forall|n: Seq<char>| #[trigger] offers(completions@, n) == (offers(old_c, n) || (exists|i: int| 0 <= i < vx_it0.index() && (#[trigger] vx_it0.seq()[i].namespace, vx_it0.seq()[i].name@) == (namespace, n))),
//@ loophead 0
    let ghost c0 = completions@;
    let ghost k = vx_it0.index() as int;
    let ghost ks = vx_it0.seq();
//@ looptail 0
    proof {
        assert forall|n: Seq<char>| #[trigger] offers(completions@, n) == (offers(old_c, n) || (exists|i: int| 0 <= i < k + 1 && (#[trigger] ks[i].namespace, ks[i].name@) == (namespace, n))) by {
            assert(offers(c0, n) == (offers(old_c, n) || (exists|i: int| 0 <= i < k && (#[trigger] ks[i].namespace, ks[i].name@) == (namespace, n))));
            if ks[k].namespace == namespace { assert(completions@ =~= c0.push(completions@.last())); offers_push(c0, completions@.last(), n); }
        }
    }
//@ end

spec fn usage_in(s: Scope<'_>, u: NameUsage, ns: Namespace, n: Seq<char>) -> bool { fits(own(s), u, ns, n) }
spec fn outside(p: Pos, s: Span) -> bool { p.offset < s.start.offset || s.end.offset < p.offset }
spec fn fits_opt(s: Option<&Scope<'_>>, u: NameUsage, ns: Namespace, n: Seq<char>) -> bool { match s { Some(s) => fits(env(*s), u, ns, n), None => false } }
impl Resolver {
//@ fn ticc/src/api/completion.rs Resolver::on_name
//@ rule name : node :: Name < '_ > ==> name : & node :: Name
//@ rule completions . sort_by ( | a , b | a . name . cmp ( & b . name ) ) ==> vx_sort ( & mut completions )
//@ rule completions . dedup_by ( | a , b | a . name == b . name ) ==> vx_dedup ( & mut completions )
    ensures
        final(self).pos == old(self).pos,
        outside(old(self).pos, name.syntax.span) ==> final(self).results == old(self).results,
        !outside(old(self).pos, name.syntax.span) ==> final(self).results is Some
            && increasing(final(self).results->0@)
            && forall|n: Seq<char>| #[trigger] offers(final(self).results->0@, n) == fits(env(*scope), usage, namespace, n),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let ghost sc0 = *scope;
//@ loop 0
    invariant
        forall|n: Seq<char>| #[trigger] fits(env(sc0), usage, namespace, n) == (offers(completions@, n) || fits_opt(scope, usage, namespace, n)),
    decreases scope,
//@ loophead 0
    let ghost c0 = completions@;
    let ghost s0 = scope;
//@ before completions . dedup_by
    let ghost c1 = completions@;
    proof {
        assert forall|n: Seq<char>| #[trigger] offers(dedup(c1), n) == offers(c1, n) by { dedup_ok(c1, n); }
        dedup_ok(c1, Seq::empty());
        assert forall|n: Seq<char>| #[trigger] offers(c1, n) == fits(env(sc0), usage, namespace, n) by { }
    }
//@ end
}


// ---- the query
pub struct CompilationUnit { pub items: Vec<Item>, pub src: String }
#[verifier::external_body]
pub struct Parsed { p: u8 }
pub uninterp spec fn parsed_of(src: Seq<char>, start: Pos) -> Parsed;
#[verifier::external_body]
fn vx_parse(src: &str, start: Pos) -> (r: Parsed) ensures r == parsed_of(src@, start) { unimplemented!() }
/// what `on_name` keeps after the run of the resolver over the item (unit `resolve`): the answer
/// of the last name whose span touches the position
pub uninterp spec fn last_answer(p: Parsed, e: Env, pos: Pos) -> Option<Vec<Completion>>;
#[verifier::external_body]
fn vx_resolve(p: &Parsed, scope: &Scope<'_>, r: &mut Resolver)
    ensures final(r).results == last_answer(*p, env(*scope), old(r).pos) { unimplemented!() }
pub uninterp spec fn slice(s: Seq<char>, a: nat, b: nat) -> Option<Seq<char>>;
#[verifier::external_body]
fn vx_get<'a>(s: &'a str, a: usize, b: usize) -> (r: Option<&'a str>)
    ensures match r { Some(x) => slice(s@, a as nat, b as nat) == Some(x@), None => slice(s@, a as nat, b as nat) is None } { unimplemented!() }
#[verifier::external_body]
fn vx_concat(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }
fn vx_take(v: &Vec<Item>, n: usize) -> (r: &[Item]) requires n <= v@.len() ensures r@ == v@.take(n as int) { vstd::slice::slice_subrange(v.as_slice(), 0, n) }
impl CompilationUnit {
    pub uninterp spec fn up_to(&self, offset: nat) -> CompilationUnit;
    #[verifier::external_body]
    fn compile_up_to(&mut self, offset: usize) ensures *final(self) == old(self).up_to(offset as nat) { unimplemented!() }
}
spec fn touches(i: Item, pos: Pos) -> bool { i.span.start.offset <= pos.offset <= i.span.end.offset }
/// the names the first k items make visible to the next one
spec fn items_env(items: Seq<Item>, src: Seq<char>, k: int) -> Env decreases k {
    if k <= 0 || k > items.len() { no_env() } else { add_defs(items_env(items, src, k - 1), src, items[k - 1].defs@, false) }
}
/// the first item that touches the position, with a name in place of the cursor
spec fn answer(c: CompilationUnit, pos: Pos, i: int) -> Option<Vec<Completion>> {
    let it = c.items@[i];
    match (slice(c.src@, it.span.start.offset as nat, pos.offset as nat), slice(c.src@, pos.offset as nat, it.span.end.offset as nat)) {
        (Some(a), Some(b)) => last_answer(parsed_of(a + "ticc_autocomplete_hack"@ + b, it.span.start), items_env(c.items@, c.src@, i), pos),
        _ => None,
    }
}
//@ fn ticc/src/api/completion.rs completions_at
//@ ret r
//@ rule compilation . items . iter ( ) . enumerate ( ) . find ( | ( _ , item ) | $body:rest ) ==> { let mut vx_i : usize = 0 ; let mut vx_r : Option < ( usize , & Item ) > = None ; while vx_i < compilation . items . len ( ) && vx_r . is_none ( ) invariant vx_i <= compilation.items@.len(), match vx_r { Some(q) => q.0 + 1 == vx_i && *q.1 == compilation.items@[q.0 as int] && touches(*q.1, pos) && (forall|k: int| 0 <= k < q.0 ==> !touches(#[trigger] compilation.items@[k], pos)), None => forall|k: int| 0 <= k < vx_i ==> !touches(#[trigger] compilation.items@[k], pos) }, decreases compilation.items@.len() - vx_i { let item = & compilation . items [ vx_i ] ; if $body { vx_r = Some ( ( vx_i , item ) ) ; } vx_i = vx_i + 1 ; } vx_r }
//@ rule compilation . items [ .. index ] ==> vx_take ( & compilation . items , index )
//@ rule ( vx_take ( & compilation . items , index ) ) . iter ( ) ==> vx_take ( & compilation . items , index )
//@ rule & compilation . src , item ==> compilation . src . as_str ( ) , item
//@ rule & compilation . src . get ( $a .. $b ) ? ==> vx_get ( compilation . src . as_str ( ) , $a , $b ) ?
//@ rule format ! ( "{}{}{}" , $a:ident , $b:ident , $c:ident ) ==> vx_concat ( $a , $b , $c )
//@ rule crate :: compiler :: parser :: parse_one_item ( $a:any , $b:rest ) ==> vx_parse ( $a , $b )
//@ rule resolve :: resolve_raw ( & parsed . syntax , compilation . key , & scope , compilation . modules . clone ( ) , & mut resolver ) ==> vx_resolve ( & parsed , & scope , & mut resolver )
    ensures ({
        let c = old(compilation).up_to(pos.offset as nat);
        &&& *final(compilation) == c
        &&& (forall|k: int| 0 <= k < c.items@.len() ==> !touches(#[trigger] c.items@[k], pos)) ==> r is None
        &&& forall|i: int| 0 <= i < c.items@.len() && touches(#[trigger] c.items@[i], pos) && (forall|k: int| 0 <= k < i ==> !touches(#[trigger] c.items@[k], pos)) ==> r == answer(c, pos, i)
    }),
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0
    invariant
        vx_it0.seq().len() == index,
        forall|k: int| 0 <= k < index ==> *#[trigger] vx_it0.seq()[k] == compilation.items@[k],
        env(scope) == items_env(compilation.items@, compilation.src@, vx_it0.index() as int),
        own(scope) == env(scope), scope.parent is None,
//@ end

} // verus!
fn main() {}
