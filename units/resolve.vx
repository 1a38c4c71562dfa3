// Unit `resolve`: every name use refers to the innermost visible definition (C11), imported
// names to what the module exports (C18), and the names visible at each use are reported to
// the completion sink (C19).
//
// What a run of the resolver tells its sink (definitions, references, errors, names with the
// names visible there) is a trace of events; `run` says which traces a syntax tree may have.
// Symbols are fresh, so `run` reads the symbol of a new definition off the trace.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

//@ include scope.inc
//@ type ticc/src/lib.rs Severity
/// what a diagnostic says; the names it quotes are dropped
pub enum Msg { UndefVar, UndefType, UndefModule, UndefCtor, NoExport, NotType, NotValue, NotCtor, DuplicateCtor, NoModule, Cycle, Unreadable }
pub struct RawDiagnostic { pub span: Span, pub severity: Severity, pub message: Msg }
spec fn err(s: Span, m: Msg) -> Event { Event::Err(RawDiagnostic { span: s, severity: Severity::Error, message: m }) }
//@ rule err_fmt ! ( "undefined variable" ) ==> Msg :: UndefVar
//@ rule err_fmt ! ( "undefined type" ) ==> Msg :: UndefType
//@ rule err_fmt ! ( "undefined module" ) ==> Msg :: UndefModule
//@ rule err_fmt ! ( "undefined constructor" ) ==> Msg :: UndefCtor
//@ rule err_fmt ! ( "module does not export " , $x:rest ) ==> Msg :: NoExport
//@ rule err_fmt ! ( "duplicate constructor " , $x:rest ) ==> Msg :: DuplicateCtor
//@ rule err_fmt ! ( $x:any , " is not a type" ) ==> Msg :: NotType
//@ rule err_fmt ! ( $x:any , " is not a value" ) ==> Msg :: NotValue
//@ rule err_fmt ! ( $x:any , " is not a constructor" ) ==> Msg :: NotCtor
//@ rule err_fmt ! ( "cannot find module" ) ==> Msg :: NoModule
//@ rule err_fmt ! ( "import cycle" ) ==> Msg :: Cycle
//@ rule err_fmt ! ( "failed to read module: " , $x:rest ) ==> Msg :: Unreadable

// ---- what the sink is told
pub ghost enum What { Value, Ctor(Symbol), Type(nat, bool, Option<Seq<Symbol>>), Module(CompleteUnit) }
pub ghost enum Event {
    Def { symbol: Symbol, what: What, vis: Visibility, span: Span, node: NodeId, named: bool },
    Ref(Ref),
    Err(RawDiagnostic),
    Name { span: Span, usage: NameUsage, env: Env, ns: Namespace },
}
spec fn what(k: DefKind) -> What {
    match k {
        DefKind::Value { .. } => What::Value,
        DefKind::Ctor { type_symbol, .. } => What::Ctor(type_symbol),
        DefKind::Type { param_count, is_var, ctors } => What::Type(param_count as nat, is_var, match ctors { Ctors::List(l) => Some(l@), _ => None }),
        DefKind::Module { unit } => What::Module(unit),
    }
}
spec fn def_event(d: Def) -> Event {
    Event::Def { symbol: d.symbol, what: what(d.kind), vis: d.vis, span: d.span, node: d.node, named: d.has_name }
}
/// any implementation of ResolveSink: the resolver calls these four methods only
#[verifier::external_body]
pub struct Sink { s: u8 }
//@ rule & mut impl ResolveSink ==> & mut Sink
impl Sink {
    pub uninterp spec fn tr(&self) -> Seq<Event>;
    #[verifier::external_body]
    fn record_def(&mut self, def: Def) ensures final(self).tr() == old(self).tr().push(def_event(def)), prefix(old(self).tr(), final(self).tr()) { unimplemented!() }
    #[verifier::external_body]
    fn record_ref(&mut self, r: Ref) ensures final(self).tr() == old(self).tr().push(Event::Ref(r)), prefix(old(self).tr(), final(self).tr()) { unimplemented!() }
    #[verifier::external_body]
    fn record_error(&mut self, err: RawDiagnostic) ensures final(self).tr() == old(self).tr().push(Event::Err(err)), prefix(old(self).tr(), final(self).tr()) { unimplemented!() }
    #[verifier::external_body]
    fn on_name(&mut self, name: &node::Name, usage: NameUsage, scope: &Scope<'_>, namespace: Namespace)
        ensures final(self).tr() == old(self).tr().push(Event::Name { span: name.syntax.span, usage, env: env(*scope), ns: namespace }),
            prefix(old(self).tr(), final(self).tr()) { unimplemented!() }
}
spec fn prefix(a: Seq<Event>, b: Seq<Event>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
broadcast proof fn prefix_trans(a: Seq<Event>, b: Seq<Event>, c: Seq<Event>)
    requires #[trigger] prefix(a, b), #[trigger] prefix(b, c),
    ensures prefix(a, c),
{ }
/// event e comes next
spec fn ex(tr: Seq<Event>, at: int, e: Event) -> int { if 0 <= at < tr.len() && tr[at] == e { at + 1 } else { -1 } }
/// a definition of the given name comes next, of whatever symbol
spec fn ex_def(tr: Seq<Event>, at: int, n: node::Name, w: What, vis: Visibility) -> int {
    if 0 <= at < tr.len() { ex(tr, at, Event::Def { symbol: sym_at(tr, at), what: w, vis, span: n.token.span, node: n.syntax.id, named: true }) } else { -1 }
}
spec fn sym_at(tr: Seq<Event>, at: int) -> Symbol { tr[at]->Def_symbol }
spec fn refer(s: Symbol, n: node::Name) -> Event { Event::Ref(Ref { symbol: s, span: n.token.span, node: n.syntax.id }) }
spec fn seen(n: node::Name, u: NameUsage, e: Env, ns: Namespace) -> Event { Event::Name { span: n.syntax.span, usage: u, env: e, ns } }

impl Def {
//@ fn ticc/src/compiler/ir.rs Def::new
//@ ret r
//@ rule node :: Name < '_ > ==> & node :: Name
    ensures r == (Def { module, symbol, kind, vis, span: name.token.span, node: name.syntax.id, has_name: true }),
//@ end
}
impl Ref {
//@ fn ticc/src/compiler/ir.rs Ref::new
//@ ret r
//@ rule node :: Name < '_ > ==> & node :: Name
    ensures r == (Ref { symbol, span: name.token.span, node: name.syntax.id }),
//@ end
}

// ---- the rule
/// `n` used without a module name, where `t` are the names visible
spec fn plain(n: node::Name, u: NameUsage, t: Map<Seq<char>, Symbol>, undef: Msg, e: Env, tr: Seq<Event>, at: int) -> int {
    let a = ex(tr, at, seen(n, u, e, Namespace::None));
    if t.contains_key(n.token.text@) { ex(tr, a, refer(t[n.token.text@], n)) } else { ex(tr, a, err(n.token.span, undef)) }
}
/// `m.n`
spec fn qualified(m: node::Name, n: node::Name, u: NameUsage, ns: ExportNs, bad: Msg, e: Env, tr: Seq<Event>, at: int) -> int {
    let a = ex(tr, at, seen(m, NameUsage::Module, e, Namespace::None));
    if e.modules.contains_key(m.token.text@) {
        let unit = e.modules[m.token.text@];
        let x = unit.exports();
        let b = ex(tr, a, seen(n, u, e, Namespace::Module(unit)));
        if x.contains_key((ns, n.token.text@)) { ex(tr, b, refer(x[(ns, n.token.text@)].symbol, n)) }
        else if in_some_namespace(x, n.token.text@) { ex(tr, b, err(n.token.span, bad)) }
        else { ex(tr, b, err(m.token.span, Msg::NoExport)) }
    } else {
        ex(tr, ex(tr, a, seen(n, u, e, Namespace::UnresolvedModule)), err(m.token.span, Msg::UndefModule))
    }
}
spec fn rt_head(t: node::NamedType, e: Env, tr: Seq<Event>, at: int, vars: bool) -> (int, Env) {
    match (t.namespace, t.name) {
        (Some(m), Some(n)) => (qualified(m, n, NameUsage::Type, ExportNs::Type, Msg::NotType, e, tr, at), e),
        (None, Some(n)) => if vars && !e.types.contains_key(n.token.text@) && lower_first(n.token.text@) && t.type_args@.len() == 0 {
            let a = ex(tr, at, seen(n, NameUsage::Type, e, Namespace::None));
            (ex_def(tr, a, n, What::Type(0, true, None), Visibility::Local), with_type(e, n.token.text@, sym_at(tr, a)))
        } else { (plain(n, NameUsage::Type, e.types, Msg::UndefType, e, tr, at), e) },
        (_, None) => (at, e),
    }
}
/// a type; with `vars`, an unknown lower case name without arguments is a type variable,
/// visible from there on
spec fn rt(ty: node::Type, e: Env, tr: Seq<Event>, at: int, vars: bool) -> (int, Env) decreases ty {
    match ty {
        node::Type::Fn(f) => {
            let (a, e1) = match f.from { Some(t) => rt(*t, e, tr, at, vars), None => (at, e) };
            match f.to { Some(t) => rt(*t, e1, tr, a, vars), None => (a, e1) }
        }
        node::Type::Named(t) => {
            let (a, e1) = rt_head(t, e, tr, at, vars);
            rt_args(t, t.type_args@.len() as int, e1, tr, a, vars)
        }
        node::Type::Paren(p) => match p.inner { Some(t) => rt(*t, e, tr, at, vars), None => (at, e) },
        _ => (at, e),
    }
}
spec fn rt_args(t: node::NamedType, n: int, e: Env, tr: Seq<Event>, at: int, vars: bool) -> (int, Env) decreases t, n {
    if n <= 0 || n > t.type_args@.len() { (at, e) } else {
        let (a, e1) = rt_args(t, n - 1, e, tr, at, vars);
        rt(t.type_args@[n - 1], e1, tr, a, vars)
    }
}
broadcast proof fn rt_mono(ty: node::Type, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int, vars: bool)
    requires #[trigger] prefix(t1, t2), rt(ty, e, t1, at, vars).0 >= 0,
    ensures #[trigger] rt(ty, e, t2, at, vars) == rt(ty, e, t1, at, vars), at >= 0, rt(ty, e, t1, at, vars).0 <= t1.len() || rt(ty, e, t1, at, vars).0 == at,
    decreases ty,
{
    match ty {
        node::Type::Fn(f) => {
            let (a, e1) = match f.from { Some(t) => rt(*t, e, t1, at, vars), None => (at, e) };
            if let Some(t) = f.to { rt_mono(*t, e1, t1, t2, a, vars); }
            if let Some(t) = f.from { rt_mono(*t, e, t1, t2, at, vars); }
        }
        node::Type::Named(t) => {
            let (a, e1) = rt_head(t, e, t1, at, vars);
            rt_args_mono(t, t.type_args@.len() as int, e1, t1, t2, a, vars);
        }
        node::Type::Paren(p) => { if let Some(t) = p.inner { rt_mono(*t, e, t1, t2, at, vars); } }
        _ => {}
    }
}
broadcast proof fn rt_args_mono(t: node::NamedType, n: int, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int, vars: bool)
    requires #[trigger] prefix(t1, t2), rt_args(t, n, e, t1, at, vars).0 >= 0,
    ensures #[trigger] rt_args(t, n, e, t2, at, vars) == rt_args(t, n, e, t1, at, vars), at >= 0, rt_args(t, n, e, t1, at, vars).0 <= t1.len() || rt_args(t, n, e, t1, at, vars).0 == at,
    decreases t, n,
{
    if !(n <= 0 || n > t.type_args@.len()) {
        let (a, e1) = rt_args(t, n - 1, e, t1, at, vars);
        rt_mono(t.type_args@[n - 1], e1, t1, t2, a, vars);
        rt_args_mono(t, n - 1, e, t1, t2, at, vars);
    }
}

//@ fn ticc/src/compiler/resolve.rs resolve_type
//@ ret r
//@ rule ty : node :: Type < '_ > ==> ty : & node :: Type
//@ rule symbol . map ( | s | $x:rest ) . unwrap_or ( ir :: Type :: Error ) ==> match symbol { Some ( s ) => $x , None => Type :: Error }
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        rt(*ty, env(*scope), final(sink).tr(), old(sink).tr().len() as int, false) == (final(sink).tr().len() as int, env(*scope)),
    decreases ty,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use {prefix_trans, rt_mono, rt_args_mono};
    let ghost ty0 = *ty;
    let ghost t0 = sink.tr();
//@ after let from
    let ghost tm = sink.tr();
//@ after let to
    proof {
        let f = *ty;
        assert(ty0 == node::Type::Fn(f));
        if let Some(t) = f.from { assert(rt(*t, env(*scope), tm, t0.len() as int, false) == (tm.len() as int, env(*scope)));
         rt_mono(*t, env(*scope), tm, sink.tr(), t0.len() as int, false);
         }
        if let Some(t) = f.to { assert(rt(*t, env(*scope), sink.tr(), tm.len() as int, false) == (sink.tr().len() as int, env(*scope))); }
        assert(rt(ty0, env(*scope), sink.tr(), t0.len() as int, false) == (sink.tr().len() as int, env(*scope)));
    }
//@ before let mut args
    let ghost at = sink.tr().len() as int;
    let ghost t1 = sink.tr();
    let ghost nt = *ty;
    proof { assert(rt_head(nt, env(*scope), t1, t0.len() as int, false) == (at, env(*scope))); }
//@ before symbol . map
    proof {
        assert(rt_head(nt, env(*scope), sink.tr(), t0.len() as int, false) == (at, env(*scope)));
        assert(rt_args(nt, nt.type_args@.len() as int, env(*scope), sink.tr(), at, false) == (sink.tr().len() as int, env(*scope)));
        assert(rt(ty0, env(*scope), sink.tr(), t0.len() as int, false) == (sink.tr().len() as int, env(*scope)));
    }
//@ loop 0
    invariant
        ty0 == node::Type::Named(nt), prefix(t0, sink.tr()), prefix(t1, sink.tr()),
        vx_it0.seq().len() == nt.type_args@.len(),
        forall|k: int| 0 <= k < nt.type_args@.len() ==> *#[trigger] vx_it0.seq()[k] == nt.type_args@[k],
        rt_args(nt, vx_it0.index() as int, env(*scope), sink.tr(), at, false) == (sink.tr().len() as int, env(*scope)),
//@ loophead 0
    let ghost tk = sink.tr();
    let ghost k = vx_it0.index() as int;
    proof { assert(*ty == nt.type_args@[k]); }
//@ looptail 0
    proof {
        rt_args_mono(nt, k, env(*scope), tk, sink.tr(), at, false);
        assert(rt(nt.type_args@[k], env(*scope), sink.tr(), tk.len() as int, false) == (sink.tr().len() as int, env(*scope)));
        assert(rt_args(nt, k + 1, env(*scope), sink.tr(), at, false) == (sink.tr().len() as int, env(*scope)));
    }
//@ end


//@ fn ticc/src/compiler/resolve.rs resolve_type_with_vars
//@ ret r
//@ rule ty : node :: Type < 'a > ==> ty : & 'a node :: Type
//@ rule symbol . map ( | s | $x:rest ) . unwrap_or ( ir :: Type :: Error ) ==> match symbol { Some ( s ) => $x , None => Type :: Error }
//@ rule name . token ( ) . text ( ) . chars ( ) . next ( ) . unwrap ( ) . is_ascii_lowercase ( ) ==> vx_lower_first ( name . token ( ) . text ( ) )
//@ rule ty . type_args ( ) . next ( ) . is_none ( ) ==> ( ty . type_args ( ) . len ( ) == 0 )
//@ rule ir :: Symbol :: fresh ( ) ==> vx_fresh ( )
//@ rule scope . types . insert ( $x:rest ) ==> vx_bind_type ( scope , $x )
    ensures
        prefix(old(sink).tr(), final(sink).tr()), final(scope).parent == old(scope).parent,
        rt(*ty, env(*old(scope)), final(sink).tr(), old(sink).tr().len() as int, true) == (final(sink).tr().len() as int, env(*final(scope))),
    decreases ty,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use {prefix_trans, rt_mono, rt_args_mono};
    let ghost ty0 = *ty;
    let ghost t0 = sink.tr();
    let ghost e0 = env(*scope);
//@ after let from
    let ghost tm = sink.tr();
    let ghost em = env(*scope);
//@ after let to
    proof {
        let f = *ty;
        assert(ty0 == node::Type::Fn(f));
        if let Some(t) = f.from { assert(rt(*t, e0, tm, t0.len() as int, true) == (tm.len() as int, em));
         rt_mono(*t, e0, tm, sink.tr(), t0.len() as int, true);
         }
        if let Some(t) = f.to { assert(rt(*t, em, sink.tr(), tm.len() as int, true) == (sink.tr().len() as int, env(*scope))); }
        assert(rt(ty0, e0, sink.tr(), t0.len() as int, true) == (sink.tr().len() as int, env(*scope)));
    }
//@ before let mut args
    let ghost at = sink.tr().len() as int;
    let ghost t1 = sink.tr();
    let ghost nt = *ty;
    let ghost e1 = env(*scope);
    proof { assert(rt_head(nt, e0, t1, t0.len() as int, true) == (at, e1)); }
//@ before symbol . map
    proof {
        assert(rt_head(nt, e0, sink.tr(), t0.len() as int, true) == (at, e1));
        assert(rt_args(nt, nt.type_args@.len() as int, e1, sink.tr(), at, true) == (sink.tr().len() as int, env(*scope)));
        assert(rt(ty0, e0, sink.tr(), t0.len() as int, true) == (sink.tr().len() as int, env(*scope)));
    }
//@ loop 0
    invariant
        ty0 == node::Type::Named(nt), prefix(t0, sink.tr()), prefix(t1, sink.tr()), scope.parent == old(scope).parent,
        vx_it0.seq().len() == nt.type_args@.len(),
        forall|k: int| 0 <= k < nt.type_args@.len() ==> *#[trigger] vx_it0.seq()[k] == nt.type_args@[k],
        rt_args(nt, vx_it0.index() as int, e1, sink.tr(), at, true) == (sink.tr().len() as int, env(*scope)),
//@ loophead 0
    let ghost tk = sink.tr();
    let ghost ek = env(*scope);
    let ghost k = vx_it0.index() as int;
    proof { assert(*ty == nt.type_args@[k]); }
//@ looptail 0
    proof {
        rt_args_mono(nt, k, e1, tk, sink.tr(), at, true);
        assert(rt(nt.type_args@[k], ek, sink.tr(), tk.len() as int, true) == (sink.tr().len() as int, env(*scope)));
        assert(rt_args(nt, k + 1, e1, sink.tr(), at, true) == (sink.tr().len() as int, env(*scope)));
    }
//@ end

fn vx_bind_value<'a>(scope: &mut Scope<'a>, n: &str, s: Symbol)
    ensures env(*final(scope)) == with_value(env(*old(scope)), n@, s), final(scope).parent == old(scope).parent,
{
    let ghost s0 = *scope;
    scope.values.insert(n, s);
    proof { bound_value(s0, *scope, n@, s); }
}
fn vx_bind_type<'a>(scope: &mut Scope<'a>, n: &str, s: Symbol)
    ensures env(*final(scope)) == with_type(env(*old(scope)), n@, s), final(scope).parent == old(scope).parent,
{
    let ghost s0 = *scope;
    scope.types.insert(n, s);
    proof { bound_type(s0, *scope, n@, s); }
}


spec fn rt_opt(t: Option<Box<node::Type>>, e: Env, tr: Seq<Event>, at: int, vars: bool) -> (int, Env) {
    match t { Some(t) => rt(*t, e, tr, at, vars), None => (at, e) }
}
/// a name that binds a value
spec fn rb(n: Option<node::Name>, e: Env, tr: Seq<Event>, at: int) -> (int, Env) {
    match n {
        Some(n) => (ex_def(tr, at, n, What::Value, Visibility::Local), with_value(e, n.token.text@, sym_at(tr, at))),
        None => (at, e),
    }
}
spec fn rb_all(ns: Seq<node::Name>, k: int, e: Env, tr: Seq<Event>, at: int) -> (int, Env) decreases k {
    if k <= 0 || k > ns.len() { (at, e) } else {
        let (a, e1) = rb_all(ns, k - 1, e, tr, at);
        rb(Some(ns[k - 1]), e1, tr, a)
    }
}
/// an expression: every name it uses, and the names that are visible in each part of it
spec fn rx(x: node::Expr, e: Env, tr: Seq<Event>, at: int) -> int decreases x {
    match x {
        node::Expr::Name(x) => match x.name { Some(n) => plain(n, NameUsage::Value, e.values, Msg::UndefVar, e, tr, at), None => at },
        node::Expr::NamespacedName(x) => match (x.namespace, x.name) {
            (Some(m), Some(n)) => qualified(m, n, NameUsage::Value, ExportNs::Value, Msg::NotValue, e, tr, at),
            _ => at,
        },
        node::Expr::Apply(x) => rx_opt(x.arg, e, tr, rx_opt(x.function, e, tr, at)),
        node::Expr::Binary(x) => rx_opt(x.rhs, e, tr, rx_opt(x.lhs, e, tr, at)),
        node::Expr::If(x) => rx_opt(x.else_value, e, tr, rx_opt(x.then_value, e, tr, rx_opt(x.cond, e, tr, at))),
        node::Expr::Paren(x) => rx_opt(x.inner, e, tr, at),
        // the bound name is visible in the rest only; the type's variables in the value only
        node::Expr::Let(x) => {
            let (a, ei) = rt_opt(x.type_, e, tr, at, true);
            let b = rx_opt(x.value, ei, tr, a);
            let (c, er) = rb(x.name, e, tr, b);
            rx_opt(x.rest, er, tr, c)
        }
        node::Expr::Lambda(x) => {
            let (a, eb) = rb(x.param, e, tr, at);
            rx_opt(x.body, eb, tr, a)
        }
        node::Expr::Match(x) => rx_cases(x, x.cases@.len() as int, e, tr, rx_opt(x.discr, e, tr, at)),
        node::Expr::Bool(_) | node::Expr::Number(_) | node::Expr::String(_) | node::Expr::Hole(_) => at,
    }
}
spec fn rx_opt(x: Option<Box<node::Expr>>, e: Env, tr: Seq<Event>, at: int) -> int decreases x {
    match x { Some(x) => rx(*x, e, tr, at), None => at }
}
spec fn rx_cases(m: node::MatchExpr, n: int, e: Env, tr: Seq<Event>, at: int) -> int decreases m, n {
    if n <= 0 || n > m.cases@.len() { at } else { rx_case(m.cases@[n - 1], e, tr, rx_cases(m, n - 1, e, tr, at)) }
}
spec fn rx_case_head(c: node::MatchCase, e: Env, tr: Seq<Event>, at: int) -> int {
    match (c.namespace, c.ctor) {
        (Some(m), Some(n)) => qualified(m, n, NameUsage::Ctor, ExportNs::Pattern, Msg::NotCtor, e, tr, at),
        (None, Some(n)) => plain(n, NameUsage::Ctor, e.ctors, Msg::UndefCtor, e, tr, at),
        (_, None) => at,
    }
}
spec fn rx_vars(v: Option<node::MatchVars>, e: Env, tr: Seq<Event>, at: int) -> (int, Env) {
    match v { Some(v) => rb_all(v.vars@, v.vars@.len() as int, e, tr, at), None => (at, e) }
}
spec fn rx_case(c: node::MatchCase, e: Env, tr: Seq<Event>, at: int) -> int decreases c {
    let (b, eb) = rx_vars(c.vars, e, tr, rx_case_head(c, e, tr, at));
    rx_opt(c.body, eb, tr, b)
}
broadcast proof fn rb_all_mono(ns: Seq<node::Name>, k: int, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rb_all(ns, k, e, t1, at).0 >= 0,
    ensures #[trigger] rb_all(ns, k, e, t2, at) == rb_all(ns, k, e, t1, at), at >= 0,
    decreases k,
{
    if !(k <= 0 || k > ns.len()) { rb_all_mono(ns, k - 1, e, t1, t2, at); }
}
broadcast proof fn rx_mono(x: node::Expr, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rx(x, e, t1, at) >= 0,
    ensures #[trigger] rx(x, e, t2, at) == rx(x, e, t1, at), at >= 0,
    decreases x,
{
    broadcast use {rt_mono, rb_all_mono};
    match x {
        node::Expr::Apply(x) => {
            rx_opt_mono(x.arg, e, t1, t2, rx_opt(x.function, e, t1, at));
            rx_opt_mono(x.function, e, t1, t2, at);
        }
        node::Expr::Binary(x) => {
            rx_opt_mono(x.rhs, e, t1, t2, rx_opt(x.lhs, e, t1, at));
            rx_opt_mono(x.lhs, e, t1, t2, at);
        }
        node::Expr::If(x) => {
            rx_opt_mono(x.else_value, e, t1, t2, rx_opt(x.then_value, e, t1, rx_opt(x.cond, e, t1, at)));
            rx_opt_mono(x.then_value, e, t1, t2, rx_opt(x.cond, e, t1, at));
            rx_opt_mono(x.cond, e, t1, t2, at);
        }
        node::Expr::Paren(x) => { rx_opt_mono(x.inner, e, t1, t2, at); }
        node::Expr::Let(x) => {
            let (a, ei) = rt_opt(x.type_, e, t1, at, true);
            let b = rx_opt(x.value, ei, t1, a);
            let (c, er) = rb(x.name, e, t1, b);
            rx_opt_mono(x.rest, er, t1, t2, c);
            rx_opt_mono(x.value, ei, t1, t2, a);
        }
        node::Expr::Lambda(x) => {
            let (a, eb) = rb(x.param, e, t1, at);
            rx_opt_mono(x.body, eb, t1, t2, a);
        }
        node::Expr::Match(x) => {
            rx_cases_mono(x, x.cases@.len() as int, e, t1, t2, rx_opt(x.discr, e, t1, at));
            rx_opt_mono(x.discr, e, t1, t2, at);
        }
        _ => {}
    }
}
broadcast proof fn rx_opt_mono(x: Option<Box<node::Expr>>, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rx_opt(x, e, t1, at) >= 0,
    ensures #[trigger] rx_opt(x, e, t2, at) == rx_opt(x, e, t1, at), at >= 0,
    decreases x,
{
    if let Some(x) = x { rx_mono(*x, e, t1, t2, at); }
}
broadcast proof fn rx_cases_mono(m: node::MatchExpr, n: int, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rx_cases(m, n, e, t1, at) >= 0,
    ensures #[trigger] rx_cases(m, n, e, t2, at) == rx_cases(m, n, e, t1, at), at >= 0,
    decreases m, n,
{
    if !(n <= 0 || n > m.cases@.len()) {
        rx_case_mono(m.cases@[n - 1], e, t1, t2, rx_cases(m, n - 1, e, t1, at));
        rx_cases_mono(m, n - 1, e, t1, t2, at);
    }
}
broadcast proof fn rx_case_mono(c: node::MatchCase, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rx_case(c, e, t1, at) >= 0,
    ensures #[trigger] rx_case(c, e, t2, at) == rx_case(c, e, t1, at), at >= 0,
    decreases c,
{
    broadcast use rb_all_mono;
    let (b, eb) = rx_vars(c.vars, e, t1, rx_case_head(c, e, t1, at));
    rx_opt_mono(c.body, eb, t1, t2, b);
    if let Some(v) = c.vars { rb_all_mono(v.vars@, v.vars@.len() as int, e, t1, t2, rx_case_head(c, e, t1, at)); }
}

//@ fn ticc/src/compiler/resolve.rs resolve_match_case
//@ rule case : node :: MatchCase ==> case : & node :: MatchCase
//@ rule ir :: Symbol :: fresh ( ) ==> vx_fresh ( )
//@ rule scope . values . insert ( $x:rest ) ==> vx_bind_value ( & mut scope , $x )
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        rx_case(*case, env(*scope), final(sink).tr(), old(sink).tr().len() as int) == final(sink).tr().len(),
    decreases case,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use {prefix_trans, rx_mono, rb_all_mono};
    let ghost t0 = sink.tr();
    let ghost e0 = env(*scope);
//@ before let mut scope
    let ghost t1 = sink.tr();
    let ghost a1 = t1.len() as int;
    proof { assert(rx_case_head(*case, e0, t1, t0.len() as int) == a1); }
//@ loop 0
    invariant
        case.vars is Some, *vars == case.vars->0, prefix(t0, sink.tr()), prefix(t1, sink.tr()),
        vx_it0.seq().len() == vars.vars@.len(),
        forall|k: int| 0 <= k < vars.vars@.len() ==> *#[trigger] vx_it0.seq()[k] == vars.vars@[k],
        rb_all(vars.vars@, vx_it0.index() as int, e0, sink.tr(), a1) == (sink.tr().len() as int, env(scope)),
//@ loophead 0
    let ghost tk = sink.tr();
    let ghost ek = env(scope);
    let ghost k = vx_it0.index() as int;
    proof { assert(*var == vars.vars@[k]); }
//@ looptail 0
    proof {
        rb_all_mono(vars.vars@, k, e0, tk, sink.tr(), a1);
        assert(rb_all(vars.vars@, k + 1, e0, sink.tr(), a1) == (sink.tr().len() as int, env(scope)));
    }
//@ before if let Some ( expr ) = case . body ( )
    let ghost t2 = sink.tr();
    let ghost e2 = env(scope);
    proof {
        assert(rx_case_head(*case, e0, t2, t0.len() as int) == a1);
        assert(rx_vars(case.vars, e0, t2, a1) == (t2.len() as int, e2));
    }
//@ end

//@ fn ticc/src/compiler/resolve.rs resolve_expr
//@ rule expr : node :: Expr , ==> expr : & node :: Expr ,
//@ rule ir :: Symbol :: fresh ( ) ==> vx_fresh ( )
//@ rule scope . values . insert ( $x:rest ) ==> vx_bind_value ( & mut scope , $x )
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        rx(*expr, env(*scope), final(sink).tr(), old(sink).tr().len() as int) == final(sink).tr().len(),
    decreases expr,
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use {prefix_trans, rt_mono, rx_mono, rx_opt_mono};
    let ghost t0 = sink.tr();
    let ghost e0 = env(*scope);
    let ghost x0 = *expr;
//@ loop 0
    invariant
        x0 == node::Expr::Match(*expr), prefix(t0, sink.tr()), prefix(t1, sink.tr()),
        vx_it0.seq().len() == expr.cases@.len(),
        forall|k: int| 0 <= k < expr.cases@.len() ==> *#[trigger] vx_it0.seq()[k] == expr.cases@[k],
        rx_cases(*expr, vx_it0.index() as int, e0, sink.tr(), t1.len() as int) == sink.tr().len(),
//@ before for case in
    let ghost t1 = sink.tr();
    proof { assert(rx_opt(expr.discr, e0, t1, t0.len() as int) == t1.len()); }
//@ loophead 0
    let ghost tk = sink.tr();
    let ghost k = vx_it0.index() as int;
    proof { assert(*case == expr.cases@[k]); }
//@ looptail 0
    proof {
        rx_cases_mono(*expr, k, e0, tk, sink.tr(), t1.len() as int);
        assert(rx_cases(*expr, k + 1, e0, sink.tr(), t1.len() as int) == sink.tr().len());
    }
//@ after if let Some ( e ) = expr . function ( )
    let ghost t1 = sink.tr();
    proof { assert(rx_opt(expr.function, e0, t1, t0.len() as int) == t1.len()); }
//@ after if let Some ( e ) = expr . arg ( )
    proof {
        assert(rx_opt(expr.function, e0, sink.tr(), t0.len() as int) == t1.len());
        assert(rx_opt(expr.arg, e0, sink.tr(), t1.len() as int) == sink.tr().len());
    }
//@ after if let Some ( e ) = expr . lhs ( )
    let ghost t1 = sink.tr();
    proof { assert(rx_opt(expr.lhs, e0, t1, t0.len() as int) == t1.len()); }
//@ after if let Some ( e ) = expr . rhs ( )
    proof {
        assert(rx_opt(expr.lhs, e0, sink.tr(), t0.len() as int) == t1.len());
        assert(rx_opt(expr.rhs, e0, sink.tr(), t1.len() as int) == sink.tr().len());
    }
//@ after if let Some ( e ) = expr . cond ( )
    let ghost t1 = sink.tr();
    proof { assert(rx_opt(expr.cond, e0, t1, t0.len() as int) == t1.len()); }
//@ after if let Some ( e ) = expr . then_value ( )
    let ghost t2 = sink.tr();
    proof {
        assert(rx_opt(expr.cond, e0, t2, t0.len() as int) == t1.len());
        assert(rx_opt(expr.then_value, e0, t2, t1.len() as int) == t2.len());
    }
//@ after if let Some ( e ) = expr . else_value ( )
    proof {
        assert(rx_opt(expr.cond, e0, sink.tr(), t0.len() as int) == t1.len());
        assert(rx_opt(expr.then_value, e0, sink.tr(), t1.len() as int) == t2.len());
        assert(rx_opt(expr.else_value, e0, sink.tr(), t2.len() as int) == sink.tr().len());
    }
//@ after if let Some ( inner ) = expr . inner ( )
    proof { assert(rx_opt(expr.inner, e0, sink.tr(), t0.len() as int) == sink.tr().len()); }
//@ after let ty = if let Some ( ty ) = expr . type_ ( )
    let ghost l = *expr;
    let ghost t1 = sink.tr();
    let ghost ei = env(impl_scope);
    proof { assert(rt_opt(l.type_, e0, t1, t0.len() as int, true) == (t1.len() as int, ei)); }
//@ after if let Some ( expr ) = expr . value ( )
    let ghost t2 = sink.tr();
    proof {
        assert(rx_opt(l.value, ei, t2, t1.len() as int) == t2.len());
    }
//@ before if let Some ( expr ) = expr . rest ( )
    let ghost t3 = sink.tr();
    let ghost er = env(scope);
    proof { assert(rb(l.name, e0, t3, t2.len() as int) == (t3.len() as int, er)); }
//@ after if let Some ( expr ) = expr . rest ( )
    proof {
        assert(rt_opt(l.type_, e0, sink.tr(), t0.len() as int, true) == (t1.len() as int, ei));
        assert(rx_opt(l.value, ei, sink.tr(), t1.len() as int) == t2.len());
        assert(rb(l.name, e0, sink.tr(), t2.len() as int) == (t3.len() as int, er));
        assert(rx_opt(l.rest, er, sink.tr(), t3.len() as int) == sink.tr().len());
    }
//@ after if let Some ( name ) = expr . param ( )
    let ghost la = *expr;
    let ghost t1 = sink.tr();
    let ghost eb = env(scope);
    proof { assert(rb(la.param, e0, t1, t0.len() as int) == (t1.len() as int, eb)); }
//@ after if let Some ( expr ) = expr . body ( )
    proof {
        assert(rb(la.param, e0, sink.tr(), t0.len() as int) == (t1.len() as int, eb));
        assert(rx_opt(la.body, eb, sink.tr(), t1.len() as int) == sink.tr().len());
    }
//@ after for case in
    proof { assert(rx_opt(expr.discr, e0, sink.tr(), t0.len() as int) == t1.len()); }
//@ end


// ---- items
spec fn rfields(fs: Seq<node::Field>, k: int, e: Env, tr: Seq<Event>, at: int) -> int decreases k {
    if k <= 0 || k > fs.len() { at } else {
        let a = rfields(fs, k - 1, e, tr, at);
        match fs[k - 1] {
            node::Field::Rec(_) => a,
            node::Field::Type(f) => rt_opt(f.ty, e, tr, a, false).0,
        }
    }
}
broadcast proof fn rfields_mono(fs: Seq<node::Field>, k: int, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rfields(fs, k, e, t1, at) >= 0,
    ensures #[trigger] rfields(fs, k, e, t2, at) == rfields(fs, k, e, t1, at), at >= 0,
    decreases k,
{
    broadcast use rt_mono;
    if !(k <= 0 || k > fs.len()) {
        if let node::Field::Type(f) = fs[k - 1] { if let Some(t) = f.ty { rt_mono(*t, e, t1, t2, rfields(fs, k - 1, e, t1, at), false); } }
        rfields_mono(fs, k - 1, e, t1, t2, at);
    }
}
/// one constructor: its fields, then its definition unless the type already has one of that name.
/// Gives the names and the symbols of the constructors so far
pub ghost struct SoFar { names: Seq<Seq<char>>, symbols: Seq<Symbol> }
spec fn rcase(c: node::TypeCase, ts: Symbol, vis: Visibility, e: Env, so: SoFar, tr: Seq<Event>, at: int) -> (int, SoFar) {
    let a = rfields(c.fields@, c.fields@.len() as int, e, tr, at);
    match c.name {
        None => (a, so),
        Some(n) => if so.names.contains(n.token.text@) { (ex(tr, a, err(n.token.span, Msg::DuplicateCtor)), so) } else {
            (ex_def(tr, a, n, What::Ctor(ts), vis), SoFar { names: so.names.push(n.token.text@), symbols: so.symbols.push(sym_at(tr, a)) })
        },
    }
}
spec fn rcases(cs: Seq<node::TypeCase>, k: int, ts: Symbol, vis: Visibility, e: Env, tr: Seq<Event>, at: int) -> (int, SoFar) decreases k {
    if k <= 0 || k > cs.len() { (at, SoFar { names: Seq::empty(), symbols: Seq::empty() }) } else {
        let (a, so) = rcases(cs, k - 1, ts, vis, e, tr, at);
        rcase(cs[k - 1], ts, vis, e, so, tr, a)
    }
}
broadcast proof fn rcases_mono(cs: Seq<node::TypeCase>, k: int, ts: Symbol, vis: Visibility, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rcases(cs, k, ts, vis, e, t1, at).0 >= 0,
    ensures #[trigger] rcases(cs, k, ts, vis, e, t2, at) == rcases(cs, k, ts, vis, e, t1, at), at >= 0,
    decreases k,
{
    broadcast use rfields_mono;
    if !(k <= 0 || k > cs.len()) {
        let (a, so) = rcases(cs, k - 1, ts, vis, e, t1, at);
        let fs = cs[k - 1].fields@;
        rfields_mono(fs, fs.len() as int, e, t1, t2, a);
        rcases_mono(cs, k - 1, ts, vis, e, t1, t2, at);
    }
}
spec fn rparams(ps: Seq<node::Name>, k: int, e: Env, tr: Seq<Event>, at: int) -> (int, Env) decreases k {
    if k <= 0 || k > ps.len() { (at, e) } else {
        let (a, e1) = rparams(ps, k - 1, e, tr, at);
        (ex_def(tr, a, ps[k - 1], What::Type(0, true, None), Visibility::Local), with_type(e1, ps[k - 1].token.text@, sym_at(tr, a)))
    }
}
broadcast proof fn rparams_mono(ps: Seq<node::Name>, k: int, e: Env, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rparams(ps, k, e, t1, at).0 >= 0,
    ensures #[trigger] rparams(ps, k, e, t2, at) == rparams(ps, k, e, t1, at), at >= 0,
    decreases k,
{
    if !(k <= 0 || k > ps.len()) { rparams_mono(ps, k - 1, e, t1, t2, at); }
}
spec fn rparams_of(p: Option<node::TypeParams>, e: Env, tr: Seq<Event>, at: int) -> (int, Env) {
    match p { Some(p) => rparams(p.params@, p.params@.len() as int, e, tr, at), None => (at, e) }
}
spec fn n_params(p: Option<node::TypeParams>) -> nat { match p { Some(p) => p.params@.len(), None => 0 } }
spec fn exported(t: Option<Token>) -> Visibility { if t is Some { Visibility::Export } else { Visibility::Module } }
/// a type item: its parameters are visible in its constructors' fields; the type itself is not
spec fn rtype(t: node::TypeItem, ts: Symbol, e: Env, tr: Seq<Event>, at: int) -> int {
    let (a, ep) = rparams_of(t.params, e, tr, at);
    let (b, cs) = rcases(t.cases@, t.cases@.len() as int, ts, exported(t.export_cases_token), ep, tr, a);
    let w = What::Type(n_params(t.params), false, Some(cs.symbols));
    match t.name {
        Some(n) => ex(tr, b, Event::Def { symbol: ts, what: w, vis: exported(t.export_token), span: n.token.span, node: n.syntax.id, named: true }),
        None => ex(tr, b, Event::Def { symbol: ts, what: w, vis: Visibility::Module, span: t.syntax.span, node: t.syntax.id, named: false }),
    }
}
#[verifier::external_body]
fn vx_contains(v: &Vec<&str>, s: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i]@ == s@ { unimplemented!() }
fn vx_extend(v: &mut Vec<Symbol>, s: Option<Symbol>)
    ensures final(v)@ == (match s { Some(x) => old(v)@.push(x), None => old(v)@ })
{ if let Some(x) = s { v.push(x); } }
#[verifier::external_body]
fn vx_type_args(v: &[Symbol]) -> (r: Vec<Type>) { unimplemented!() }
#[verifier::external_body]
fn vx_to_vec(v: &[Symbol]) -> (r: Vec<Symbol>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn vx_rev<'a>(v: &'a Vec<Field>) -> (r: Vec<&'a Field>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *#[trigger] r@[i] == v@[v@.len() - 1 - i] { unimplemented!() }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }

//@ fn ticc/src/compiler/resolve.rs resolve_type_case
//@ ret r
//@ rule case : node :: TypeCase < 'a > ==> case : & 'a node :: TypeCase
//@ rule ir :: Symbol :: fresh ( ) ==> vx_fresh ( )
//@ rule ctor_names . contains ( & name_text ) ==> vx_contains ( ctor_names , name_text )
//@ rule param_symbols . iter ( ) . map ( $x:rest ) . collect ( ) ==> vx_type_args ( param_symbols )
//@ rule param_symbols . to_vec ( ) ==> vx_to_vec ( param_symbols )
//@ rule fields . iter ( ) . rev ( ) ==> vx_rev ( & fields )
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        forall|so: SoFar| so.names == texts(old(ctor_names)@) ==> #[trigger] rcase(*case, type_symbol, ctor_vis, env(*scope), so, final(sink).tr(), old(sink).tr().len() as int)
            == (final(sink).tr().len() as int, SoFar { names: texts(final(ctor_names)@), symbols: match r { Some(s) => so.symbols.push(s), None => so.symbols } }),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use {prefix_trans, rt_mono, rfields_mono};
    let ghost t0 = sink.tr();
    let ghost e0 = env(*scope);
    let ghost names0 = ctor_names@;
    let ghost v0 = *scope;
//@ loop 0
    invariant
        prefix(t0, sink.tr()),
        vx_it0.seq().len() == case.fields@.len(),
        forall|k: int| 0 <= k < case.fields@.len() ==> *#[trigger] vx_it0.seq()[k] == case.fields@[k],
        rfields(case.fields@, vx_it0.index() as int, e0, sink.tr(), t0.len() as int) == sink.tr().len(),
//@ loophead 0
    let ghost tk = sink.tr();
    let ghost k = vx_it0.index() as int;
    proof { assert(*field == case.fields@[k]); }
//@ looptail 0
    proof {
        rfields_mono(case.fields@, k, e0, tk, sink.tr(), t0.len() as int);
        assert(rfields(case.fields@, k + 1, e0, sink.tr(), t0.len() as int) == sink.tr().len());
    }
//@ before if let Some ( name ) = case . name ( )
    let ghost t1 = sink.tr();
    proof {
        assert(texts(names0) == texts(ctor_names@));
        assert(rfields(case.fields@, case.fields@.len() as int, e0, t1, t0.len() as int) == t1.len());
    }
//@ before if ctor_names
    proof {
        assert forall|s: Seq<char>| texts(names0).contains(s) == exists|i: int| 0 <= i < names0.len() && #[trigger] names0[i]@ == s by {
            if texts(names0).contains(s) { let i = choose|i: int| 0 <= i < texts(names0).len() && texts(names0)[i] == s; assert(names0[i]@ == s); }
            if exists|i: int| 0 <= i < names0.len() && #[trigger] names0[i]@ == s { let i = choose|i: int| 0 <= i < names0.len() && #[trigger] names0[i]@ == s; assert(texts(names0)[i] == s); }
        }
    }
//@ before Some ( symbol )
    proof {
        assert(texts(ctor_names@) =~= texts(names0).push(name_text@));
        assert(rfields(case.fields@, case.fields@.len() as int, e0, sink.tr(), t0.len() as int) == t1.len());
    }
//@ end

//@ fn ticc/src/compiler/resolve.rs resolve_type_item
//@ rule item : node :: TypeItem < '_ > ==> item : & node :: TypeItem
//@ rule ir :: Symbol :: fresh ( ) ==> vx_fresh ( )
//@ rule scope . types . insert ( $x:rest ) ==> vx_bind_type ( & mut scope , $x )
//@ rule ctors . extend ( sym ) ==> vx_extend ( & mut ctors , sym )
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        exists|ts: Symbol| rtype(*item, ts, env(*scope), final(sink).tr(), old(sink).tr().len() as int) == final(sink).tr().len(),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use {prefix_trans, rparams_mono, rcases_mono};
    let ghost t0 = sink.tr();
    let ghost e0 = env(*scope);
    let ghost it0 = *item;
//@ loop 0
    invariant
        prefix(t0, sink.tr()), item.params is Some, *params == item.params->0,
        vx_it0.seq().len() == params.params@.len(),
        forall|k: int| 0 <= k < params.params@.len() ==> *#[trigger] vx_it0.seq()[k] == params.params@[k],
        rparams(params.params@, vx_it0.index() as int, e0, sink.tr(), t0.len() as int) == (sink.tr().len() as int, env(scope)),
        param_symbols@.len() == vx_it0.index(),
//@ loophead 0
    let ghost tk = sink.tr();
    let ghost k = vx_it0.index() as int;
    proof { assert(*param == params.params@[k]); }
//@ looptail 0
    proof {
        rparams_mono(params.params@, k, e0, tk, sink.tr(), t0.len() as int);
        assert(rparams(params.params@, k + 1, e0, sink.tr(), t0.len() as int) == (sink.tr().len() as int, env(scope)));
    }
//@ before let mut ctors
    let ghost t1 = sink.tr();
    let ghost e1 = env(scope);
    proof { assert(rparams_of(item.params, e0, t1, t0.len() as int) == (t1.len() as int, e1)); }
//@ before for case in
    proof { assert(texts(ctor_names@) =~= Seq::empty()); assert(ctors@ =~= Seq::empty()); }
//@ loop 1
    invariant
        prefix(t0, sink.tr()), prefix(t1, sink.tr()), ctor_vis == exported(item.export_cases_token),
        vx_it1.seq().len() == item.cases@.len(),
        forall|k: int| 0 <= k < item.cases@.len() ==> *#[trigger] vx_it1.seq()[k] == item.cases@[k],
        rcases(item.cases@, vx_it1.index() as int, symbol, ctor_vis, e1, sink.tr(), t1.len() as int) == (sink.tr().len() as int, SoFar { names: texts(ctor_names@), symbols: ctors@ }),
//@ loophead 1
    let ghost tk = sink.tr();
    let ghost k = vx_it1.index() as int;
    let ghost so = SoFar { names: texts(ctor_names@), symbols: ctors@ };
    proof { assert(*case == item.cases@[k]); }
//@ looptail 1
    proof {
        rcases_mono(item.cases@, k, symbol, ctor_vis, e1, tk, sink.tr(), t1.len() as int);
        assert(rcase(item.cases@[k], symbol, ctor_vis, e1, so, sink.tr(), tk.len() as int) == (sink.tr().len() as int, SoFar { names: texts(ctor_names@), symbols: ctors@ }));
        assert(rcases(item.cases@, k + 1, symbol, ctor_vis, e1, sink.tr(), t1.len() as int) == (sink.tr().len() as int, SoFar { names: texts(ctor_names@), symbols: ctors@ }));
    }
//@ before if let Some ( name ) = item . name ( )
    let ghost t2 = sink.tr();
    let ghost cs = SoFar { names: texts(ctor_names@), symbols: ctors@ };
//@ after if let Some ( name ) = item . name ( )
    proof {
        assert(rparams_of(item.params, e0, sink.tr(), t0.len() as int) == (t1.len() as int, e1));
        assert(rcases(item.cases@, item.cases@.len() as int, symbol, ctor_vis, e1, sink.tr(), t1.len() as int) == (t2.len() as int, cs));
        assert(param_symbols@.len() == n_params(item.params));
        assert(rtype(*item, symbol, e0, sink.tr(), t0.len() as int) == sink.tr().len());
    }
//@ end

//@ fn ticc/src/compiler/resolve.rs resolve_value_item
//@ rule item : node :: ValueItem ==> item : & node :: ValueItem
//@ rule ir :: Symbol :: fresh ( ) ==> vx_fresh ( )
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        rvalue(*item, env(*scope), final(sink).tr(), old(sink).tr().len() as int) == final(sink).tr().len(),
//@ head
    broadcast use {prefix_trans, rt_mono, rx_mono};
    let ghost t0 = sink.tr();
    let ghost e0 = env(*scope);
//@ after let ty =
    let ghost t1 = sink.tr();
    let ghost e1 = env(scope);
    proof { assert(rt_opt(item.type_, e0, t1, t0.len() as int, true) == (t1.len() as int, e1)); }
//@ after if let Some ( name ) = item . name ( )
    let ghost t2 = sink.tr();
    proof {
        assert(rt_opt(item.type_, e0, t2, t0.len() as int, true) == (t1.len() as int, e1));
    }
//@ after if let Some ( expr ) = item . expr ( )
    proof {
        assert(rt_opt(item.type_, e0, sink.tr(), t0.len() as int, true) == (t1.len() as int, e1));
        assert(rx_opt(item.expr, e1, sink.tr(), t2.len() as int) == sink.tr().len());
    }
//@ end
/// a value item: its name is not visible in its own value
spec fn rvalue(v: node::ValueItem, e: Env, tr: Seq<Event>, at: int) -> int {
    let (a, ei) = rt_opt(v.type_, e, tr, at, true);
    let b = match v.name { Some(n) => ex_def(tr, a, n, What::Value, exported(v.export_token)), None => a };
    rx_opt(v.expr, ei, tr, b)
}

// ---- imports
/// what the import's path denotes: a built-in module, or what the module resolver answers
pub uninterp spec fn looked_up(path: Seq<char>) -> Result<CompleteUnit, ImportError>;
#[verifier::external_body]
fn vx_lookup(path: &str) -> (r: Result<CompleteUnit, ImportError>) ensures r == looked_up(path@) { unimplemented!() }
#[verifier::external_body]
fn vx_strip(t: &str) -> (r: &str) ensures r@ == t@.subrange(1, t@.len() - 1) { unimplemented!() }
//@ rule std :: io :: Error ==> IoError
pub struct IoError { e: u8 }
//@ type ticc/src/lib.rs ImportError
spec fn import_err(e: ImportError) -> Msg {
    match e { ImportError::DoesNotExist => Msg::NoModule, ImportError::ImportCycle => Msg::Cycle, ImportError::Io(_) => Msg::Unreadable }
}
impl ExportNs {
    const ALL: [ExportNs; 4] = [ExportNs::Value, ExportNs::Type, ExportNs::Pattern, ExportNs::Module];
}
#[verifier::external_body]
fn vx_all_ns() -> (r: Vec<ExportNs>) ensures r@ == all_ns() { unimplemented!() }
spec fn all_ns() -> Seq<ExportNs> { seq![ExportNs::Value, ExportNs::Type, ExportNs::Pattern, ExportNs::Module] }
/// one definition for each namespace in which the module exports the name
spec fn rexposed(n: node::Name, u: CompleteUnit, k: int, tr: Seq<Event>, at: int) -> (int, bool) decreases k {
    if k <= 0 || k > 4 { (at, false) } else {
        let (a, found) = rexposed(n, u, k - 1, tr, at);
        let key = (all_ns()[k - 1], n.token.text@);
        if u.exports().contains_key(key) {
            let d = u.exports()[key];
            (ex(tr, a, Event::Def { symbol: d.symbol, what: what(d.kind), vis: Visibility::Module, span: n.token.span, node: n.syntax.id, named: true }), true)
        } else { (a, found) }
    }
}
spec fn rexpose(n: node::Name, u: CompleteUnit, tr: Seq<Event>, at: int) -> int {
    let (a, found) = rexposed(n, u, 4, tr, at);
    if found { a } else { ex(tr, a, err(n.token.span, Msg::NoExport)) }
}
spec fn rexpose_all(ns: Seq<node::Name>, k: int, u: CompleteUnit, tr: Seq<Event>, at: int) -> int decreases k {
    if k <= 0 || k > ns.len() { at } else { rexpose(ns[k - 1], u, tr, rexpose_all(ns, k - 1, u, tr, at)) }
}
spec fn rimport(i: node::ImportItem, tr: Seq<Event>, at: int) -> int {
    match i.path {
        None => at,
        Some(p) => match looked_up(p.text@.subrange(1, p.text@.len() - 1)) {
            Err(e) => ex(tr, at, err(p.span, import_err(e))),
            Ok(u) => {
                let a = match i.name {
                    Some(n) => ex_def(tr, at, n, What::Module(u), Visibility::Module),
                    None => if 0 <= at < tr.len() { ex(tr, at, Event::Def { symbol: sym_at(tr, at), what: What::Module(u), vis: Visibility::Module, span: i.syntax.span, node: i.syntax.id, named: false }) } else { -1 },
                };
                match i.exposed_list { Some(l) => rexpose_all(l.imported_names@, l.imported_names@.len() as int, u, tr, a), None => a }
            }
        },
    }
}
broadcast proof fn rexposed_mono(n: node::Name, u: CompleteUnit, k: int, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rexposed(n, u, k, t1, at).0 >= 0,
    ensures #[trigger] rexposed(n, u, k, t2, at) == rexposed(n, u, k, t1, at), at >= 0,
    decreases k,
{
    if !(k <= 0 || k > 4) { rexposed_mono(n, u, k - 1, t1, t2, at); }
}
broadcast proof fn rexpose_all_mono(ns: Seq<node::Name>, k: int, u: CompleteUnit, t1: Seq<Event>, t2: Seq<Event>, at: int)
    requires #[trigger] prefix(t1, t2), rexpose_all(ns, k, u, t1, at) >= 0,
    ensures #[trigger] rexpose_all(ns, k, u, t2, at) == rexpose_all(ns, k, u, t1, at), at >= 0,
    decreases k,
{
    broadcast use rexposed_mono;
    if !(k <= 0 || k > ns.len()) {
        rexposed_mono(ns[k - 1], u, 4, t1, t2, rexpose_all(ns, k - 1, u, t1, at));
        rexpose_all_mono(ns, k - 1, u, t1, t2, at);
    }
}

fn vx_cloned(r: Result<&Def, ExportLookupError>) -> (o: Result<Def, ExportLookupError>)
    ensures o == (match r { Ok(d) => Ok(*d), Err(e) => Err(e) })
{ match r { Ok(d) => Ok(d.clone()), Err(e) => Err(e) } }

//@ fn ticc/src/compiler/resolve.rs resolve_import_item
//@ rule item : node :: ImportItem < '_ > ==> item : & node :: ImportItem
//@ rule , module_resolver : Arc < dyn ModuleResolver > ==>
//@ rule & text [ 1 .. ( text . len ( ) - 1 ) ] ==> vx_strip ( text )
//@ rule crate :: builtin :: lookup_module ( text ) . map ( Ok ) . unwrap_or_else ( || module_resolver . lookup ( text ) ) ==> vx_lookup ( text )
//@ rule ir :: Symbol :: fresh ( ) ==> vx_fresh ( )
//@ rule crate :: Namespace :: ALL ==> vx_all_ns ( )
//@ rule unit . props . find_export ( $x:rest ) . cloned ( ) ==> vx_cloned ( unit . vx_find_export ( $x ) )
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        rimport(*item, final(sink).tr(), old(sink).tr().len() as int) == final(sink).tr().len(),
//@ attr
#[verifier::loop_isolation(false)]
//@ head
    broadcast use {prefix_trans, rexposed_mono, rexpose_all_mono};
    let ghost t0 = sink.tr();
//@ before if let Some ( exposed ) = item . exposed_list ( )
    let ghost t1 = sink.tr();
    let ghost a1 = t1.len() as int;
    let ghost u = unit;
//@ loop 0
    invariant
        prefix(t0, sink.tr()), prefix(t1, sink.tr()), a1 == t1.len(), u == unit,
        vx_it0.seq().len() == exposed.imported_names@.len(),
        forall|k: int| 0 <= k < exposed.imported_names@.len() ==> *#[trigger] vx_it0.seq()[k] == exposed.imported_names@[k],
        rexpose_all(exposed.imported_names@, vx_it0.index() as int, u, sink.tr(), a1) == sink.tr().len(),
//@ loophead 0
    let ghost tk = sink.tr();
    let ghost k = vx_it0.index() as int;
    let ghost nm = *name;
    proof { assert(nm == exposed.imported_names@[k]); }
//@ looptail 0
    proof {
        rexpose_all_mono(exposed.imported_names@, k, u, tk, sink.tr(), a1);
        assert(rexpose(nm, u, sink.tr(), tk.len() as int) == sink.tr().len());
        assert(rexpose_all(exposed.imported_names@, k + 1, u, sink.tr(), a1) == sink.tr().len());
    }
//@ loop 1
    invariant
        prefix(t0, sink.tr()), prefix(t1, sink.tr()), prefix(tk, sink.tr()), u == unit, nm == *name,
        vx_it1.seq() == all_ns(),
        rexposed(nm, u, vx_it1.index() as int, sink.tr(), tk.len() as int) == (sink.tr().len() as int, found),
//@ loophead 1
    let ghost tn = sink.tr();
    let ghost j = vx_it1.index() as int;
    proof { assert(ns == all_ns()[j]); }
//@ looptail 1
    proof {
        rexposed_mono(nm, u, j, tn, sink.tr(), tk.len() as int);
        assert(rexposed(nm, u, j + 1, sink.tr(), tk.len() as int) == (sink.tr().len() as int, found));
    }
//@ end


/// any item, in the environment made by the items before it
spec fn ritem(i: node::Item, ts: Symbol, e: Env, tr: Seq<Event>, at: int) -> int {
    match i {
        node::Item::Import(i) => rimport(i, tr, at),
        node::Item::Type(i) => rtype(i, ts, e, tr, at),
        node::Item::Value(i) => rvalue(i, e, tr, at),
    }
}
//@ fn ticc/src/compiler/resolve.rs resolve_item
//@ rule item : node :: Item < '_ > ==> item : & node :: Item
//@ rule , module_resolver : Arc < dyn ModuleResolver > ==>
//@ rule i , module_resolver ==> i
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        exists|ts: Symbol| ritem(*item, ts, env(*scope), final(sink).tr(), old(sink).tr().len() as int) == final(sink).tr().len(),
//@ head
    let ghost e0 = env(*scope);
    let ghost t0 = sink.tr();
    let ghost it0 = *item;
//@ after match item
    proof {
        match it0 {
            node::Item::Type(i) => {
                let ts = choose|ts: Symbol| rtype(i, ts, e0, sink.tr(), t0.len() as int) == sink.tr().len();
                assert(ritem(*item, ts, e0, sink.tr(), t0.len() as int) == sink.tr().len());
            }
            _ => { assert(ritem(*item, arbitrary(), e0, sink.tr(), t0.len() as int) == sink.tr().len()); }
        }
    }
//@ end

pub struct ItemSyntax { pub item: Option<node::Item> }
impl ItemSyntax {
    fn item(&self) -> (r: Option<&node::Item>) ensures r == (match self.item { Some(x) => Some(&x), None => None }) { match &self.item { Some(x) => Some(x), None => None } }
}
//@ fn ticc/src/compiler/resolve.rs resolve_raw
//@ rule , module_resolver : Arc < dyn ModuleResolver > ==>
//@ rule item , scope , module_resolver ==> item , scope
    ensures
        prefix(old(sink).tr(), final(sink).tr()),
        match syntax.item {
            Some(i) => exists|ts: Symbol| ritem(i, ts, env(*scope), final(sink).tr(), old(sink).tr().len() as int) == final(sink).tr().len(),
            None => final(sink).tr() == old(sink).tr(),
        },
//@ end

// ---- the sink of a compilation keeps definitions, references and errors in order
//@ type ticc/src/compiler/resolve.rs Resolver
impl<'a> Resolver<'a> {
//@ fn ticc/src/compiler/resolve.rs Resolver::record_def
    ensures final(self).defs@ == old(self).defs@.push(def), final(self).refs@ == old(self).refs@, final(self).diagnostics@ == old(self).diagnostics@,
//@ end
//@ fn ticc/src/compiler/resolve.rs Resolver::record_ref
    ensures final(self).refs@ == old(self).refs@.push(r), final(self).defs@ == old(self).defs@, final(self).diagnostics@ == old(self).diagnostics@,
//@ end
//@ fn ticc/src/compiler/resolve.rs Resolver::record_error
    ensures final(self).diagnostics@ == old(self).diagnostics@.push(err), final(self).refs@ == old(self).refs@, final(self).defs@ == old(self).defs@,
//@ end
}

// ---- what the rule means (C11)
/// an unqualified name that is bound refers to its innermost binding, and nothing else is reported
proof fn bound_name_refers(n: node::Name, u: NameUsage, t: Map<Seq<char>, Symbol>, m: Msg, e: Env, tr: Seq<Event>, at: int)
    requires plain(n, u, t, m, e, tr, at) == tr.len(), 0 <= at,
    ensures
        t.contains_key(n.token.text@) ==> tr.last() == refer(t[n.token.text@], n),
        !t.contains_key(n.token.text@) ==> tr.last() == err(n.token.span, m),
        tr.len() == at + 2,
{ }
/// the value of a let sees the outer binding of the let's own name; the rest sees the new one
proof fn let_shadows(l: node::LetExpr, e: Env, tr: Seq<Event>, at: int)
    requires l.name is Some, rx(node::Expr::Let(l), e, tr, at) >= 0,
    ensures ({
        let (a, ei) = rt_opt(l.type_, e, tr, at, true);
        let b = rx_opt(l.value, ei, tr, a);
        let n = l.name->0;
        &&& ei.values == e.values && ei.ctors == e.ctors && ei.modules == e.modules
        &&& rx(node::Expr::Let(l), e, tr, at) == rx_opt(l.rest, with_value(e, n.token.text@, sym_at(tr, b)), tr, ex_def(tr, b, n, What::Value, Visibility::Local))
    }),
{
    if let Some(t) = l.type_ { types_only(*t, e, tr, at, true); }
}
/// a type binds types only
proof fn types_only(ty: node::Type, e: Env, tr: Seq<Event>, at: int, vars: bool)
    ensures ({ let r = rt(ty, e, tr, at, vars).1; r.values == e.values && r.ctors == e.ctors && r.modules == e.modules && (!vars ==> r == e) }),
    decreases ty,
{
    match ty {
        node::Type::Fn(f) => {
            let (a, e1) = match f.from { Some(t) => rt(*t, e, tr, at, vars), None => (at, e) };
            if let Some(t) = f.from { types_only(*t, e, tr, at, vars); }
            if let Some(t) = f.to { types_only(*t, e1, tr, a, vars); }
        }
        node::Type::Named(t) => {
            let (a, e1) = rt_head(t, e, tr, at, vars);
            types_only_args(t, t.type_args@.len() as int, e1, tr, a, vars);
        }
        node::Type::Paren(p) => { if let Some(t) = p.inner { types_only(*t, e, tr, at, vars); } }
        _ => {}
    }
}
proof fn types_only_args(t: node::NamedType, n: int, e: Env, tr: Seq<Event>, at: int, vars: bool)
    ensures ({ let r = rt_args(t, n, e, tr, at, vars).1; r.values == e.values && r.ctors == e.ctors && r.modules == e.modules && (!vars ==> r == e) }),
    decreases t, n,
{
    if !(n <= 0 || n > t.type_args@.len()) {
        types_only_args(t, n - 1, e, tr, at, vars);
        let (a, e1) = rt_args(t, n - 1, e, tr, at, vars);
        types_only(t.type_args@[n - 1], e1, tr, a, vars);
    }
}

} // verus!
fn main() {}
