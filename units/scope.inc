// Scopes: the names visible at a point, innermost first (Scope of compiler.rs) as a map from each
// name to its innermost binding.
//@ rule crate :: Namespace :: $x:ident ==> ExportNs :: $x
//@ include defs.inc
//@ include pos.inc
//@ include ast.inc
//@ rule enum Namespace { Value , $x:rest } ==> enum ExportNs { Value , $x }
//@ type ticc/src/lib.rs Namespace | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/lib.rs ExportLookupError
//@ type ticc/src/compiler/resolve.rs NameUsage | #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type ticc/src/compiler/resolve.rs Namespace
//@ rule HashMap < & 'a str , Symbol > ==> Names < Symbol >
//@ rule HashMap < & 'a str , CompleteUnit > ==> Names < CompleteUnit >
//@ type ticc/src/compiler.rs Scope
/// everything in an item that scopes do not look at
#[verifier::external_body]
pub struct Rest { r: u8 }
pub struct Item { pub span: Span, pub defs: Vec<Def>, pub rest: Rest }

// ---- a compiled module, as the unit `exports` shows it
#[verifier::external_body]
pub struct CompleteUnit { u: u8 }
pub type Key = (ExportNs, Seq<char>);
impl CompleteUnit {
    pub uninterp spec fn exports(&self) -> Map<Key, Def>;
    /// `CompleteUnitProps::find_export` (contract proved in unit `exports`)
    #[verifier::external_body]
    fn vx_find_export(&self, ns: ExportNs, name: &str) -> (r: Result<&Def, ExportLookupError>)
        ensures match r {
            Ok(d) => self.exports().contains_key((ns, name@)) && *d == self.exports()[(ns, name@)],
            Err(ExportLookupError::NoExport) => !in_some_namespace(self.exports(), name@),
            Err(ExportLookupError::WrongNamespace { available_in }) => !self.exports().contains_key((ns, name@)) && in_some_namespace(self.exports(), name@),
        } { unimplemented!() }
}
impl Clone for CompleteUnit {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Def {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Type {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn in_some_namespace(m: Map<Key, Def>, name: Seq<char>) -> bool { exists|ns: ExportNs| m.contains_key((ns, name)) }
//@ rule $m . props . find_export ( $x:rest ) ==> $m . vx_find_export ( $x )

// ---- std
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Names<V> { t: Vec<V> }
impl<V> Names<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: &str, v: V) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&V>) ensures r == (if self@.contains_key(k@) { Some(&self@[k@]) } else { None }) { unimplemented!() }
}
pub uninterp spec fn text(src: Seq<char>, s: Span) -> Seq<char>;
#[verifier::external_body]
fn vx_text<'a>(src: &'a str, s: Span) -> (r: &'a str) ensures r@ == text(src@, s) { unimplemented!() }
#[verifier::external_body]
fn vx_fresh() -> (r: Symbol) { unimplemented!() }
pub uninterp spec fn lower_first(s: Seq<char>) -> bool;
/// `s.chars().next().unwrap().is_ascii_lowercase()` (a name token is not empty)
#[verifier::external_body]
fn vx_lower_first(s: &str) -> (r: bool) ensures r == lower_first(s@) { unimplemented!() }

// ---- scopes
impl<'a> Scope<'a> {
    fn new() -> (r: Scope<'a>)
        ensures r.values@ == Map::<Seq<char>, Symbol>::empty(), r.types@ == Map::<Seq<char>, Symbol>::empty(),
            r.ctors@ == Map::<Seq<char>, Symbol>::empty(), r.modules@ == Map::<Seq<char>, CompleteUnit>::empty(), r.parent is None,
    { Scope { values: Names::new(), types: Names::new(), ctors: Names::new(), modules: Names::new(), parent: None } }
}
#[verifier::ext_equal]
pub ghost struct Env {
    pub values: Map<Seq<char>, Symbol>,
    pub types: Map<Seq<char>, Symbol>,
    pub ctors: Map<Seq<char>, Symbol>,
    pub modules: Map<Seq<char>, CompleteUnit>,
}
pub open spec fn own(s: Scope<'_>) -> Env { Env { values: s.values@, types: s.types@, ctors: s.ctors@, modules: s.modules@ } }
pub open spec fn no_env() -> Env { Env { values: Map::empty(), types: Map::empty(), ctors: Map::empty(), modules: Map::empty() } }
/// what is visible: the innermost binding of each name
pub open spec fn env(s: Scope<'_>) -> Env decreases s {
    match s.parent { None => own(s), Some(p) => over(env(*p), own(s)) }
}
pub open spec fn over(a: Env, b: Env) -> Env {
    Env {
        values: a.values.union_prefer_right(b.values), types: a.types.union_prefer_right(b.types),
        ctors: a.ctors.union_prefer_right(b.ctors), modules: a.modules.union_prefer_right(b.modules),
    }
}
pub open spec fn with_value(e: Env, n: Seq<char>, s: Symbol) -> Env { Env { values: e.values.insert(n, s), ..e } }
pub open spec fn with_type(e: Env, n: Seq<char>, s: Symbol) -> Env { Env { types: e.types.insert(n, s), ..e } }
pub open spec fn with_ctor(e: Env, n: Seq<char>, s: Symbol) -> Env { Env { ctors: e.ctors.insert(n, s), values: e.values.insert(n, s), ..e } }
pub open spec fn with_module(e: Env, n: Seq<char>, u: CompleteUnit) -> Env { Env { modules: e.modules.insert(n, u), ..e } }

proof fn bound_value(a: Scope<'_>, b: Scope<'_>, n: Seq<char>, s: Symbol)
    requires own(b) == with_value(own(a), n, s), b.parent == a.parent,
    ensures env(b) == with_value(env(a), n, s),
{
    match a.parent { None => {}, Some(p) => assert(env(b) =~= with_value(env(a), n, s)) }
}
proof fn bound_type(a: Scope<'_>, b: Scope<'_>, n: Seq<char>, s: Symbol)
    requires own(b) == with_type(own(a), n, s), b.parent == a.parent,
    ensures env(b) == with_type(env(a), n, s),
{
    match a.parent { None => {}, Some(p) => assert(env(b) =~= with_type(env(a), n, s)) }
}
/// the names an item adds
pub open spec fn add_def(e: Env, src: Seq<char>, d: Def, local: bool) -> Env {
    if (d.vis == Visibility::Local && !local) || !d.has_name { e } else {
        let n = text(src, d.span);
        match d.kind {
            DefKind::Value { .. } => with_value(e, n, d.symbol),
            DefKind::Ctor { .. } => with_ctor(e, n, d.symbol),
            DefKind::Type { .. } => with_type(e, n, d.symbol),
            DefKind::Module { unit } => with_module(e, n, unit),
        }
    }
}
pub open spec fn add_defs(e: Env, src: Seq<char>, ds: Seq<Def>, local: bool) -> Env decreases ds.len() {
    if ds.len() == 0 { e } else { add_def(add_defs(e, src, ds.drop_last(), local), src, ds.last(), local) }
}

impl<'a> Scope<'a> {
//@ fn ticc/src/compiler.rs Scope::with_parent
//@ ret r
    ensures env(r) == env(*parent), r.parent == Some(parent), own(r) == no_env(),
//@ head
    proof { assert(over(env(*parent), no_env()) =~= env(*parent)); }
//@ end

//@ fn ticc/src/compiler.rs Scope::add_item
//@ rule & source [ span . start ( ) . source_pos ( ) .. span . end ( ) . source_pos ( ) ] ==> vx_text ( source , span )
    ensures own(*final(self)) == add_defs(own(*old(self)), source@, item.defs@, include_local), final(self).parent == old(self).parent,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    let ghost e0 = own(*self);
    proof { assert(item.defs@.take(0) =~= Seq::empty()); assert(item.defs@.take(item.defs@.len() as int) =~= item.defs@); }
//@ loop 0
    invariant
        vx_it0.seq().len() == item.defs@.len(),
        forall|k: int| 0 <= k < item.defs@.len() ==> *#[trigger] vx_it0.seq()[k] == item.defs@[k],
        own(*self) == add_defs(e0, source@, item.defs@.take(vx_it0.index() as int), include_local),
        self.parent == old(self).parent,
//@ loophead 0
    proof {
        let k = vx_it0.index() as int;
        assert(*def == item.defs@[k]);
        assert(item.defs@.take(k + 1).drop_last() =~= item.defs@.take(k));
    }
//@ end

//@ fn ticc/src/compiler.rs Scope::lookup_value
//@ ret r
//@ rule let Some ( & $x:ident ) = self . $f:ident . get ( name ) ==> let Some ( $x ) = self . $f . get ( name ) . copied ( )
    ensures r == (if env(*self).values.contains_key(name@) { Some(env(*self).values[name@]) } else { None }),
    decreases self,
//@ end
//@ fn ticc/src/compiler.rs Scope::lookup_type
//@ ret r
//@ rule let Some ( & $x:ident ) = self . $f:ident . get ( name ) ==> let Some ( $x ) = self . $f . get ( name ) . copied ( )
    ensures r == (if env(*self).types.contains_key(name@) { Some(env(*self).types[name@]) } else { None }),
    decreases self,
//@ end
//@ fn ticc/src/compiler.rs Scope::lookup_ctor
//@ ret r
//@ rule let Some ( & $x:ident ) = self . $f:ident . get ( name ) ==> let Some ( $x ) = self . $f . get ( name ) . copied ( )
    ensures r == (if env(*self).ctors.contains_key(name@) { Some(env(*self).ctors[name@]) } else { None }),
    decreases self,
//@ end
//@ fn ticc/src/compiler.rs Scope::lookup_module
//@ ret r
    ensures r == (if env(*self).modules.contains_key(name@) { Some(env(*self).modules[name@]) } else { None }),
    decreases self,
//@ end
}

