//! Random multi-module programs that are rich in names: a handful of names used
//! for everything, so that shadowing, duplicates, undefined names and imports of
//! all sorts happen all the time.  The generator keeps its own scopes and so knows
//! what every name token means; it shares no code with the compiler.  The programs
//! are syntactically correct and need not be well typed.
use crate::rng::Rng;
use std::collections::BTreeMap;

pub type Id = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Value,
    Ctor { of: Id },
    Type { arity: usize },
    TyVar,
    Module,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Vis {
    Local,
    Module,
    Export,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Keyword,
    Punct,
    Op,
    Number,
    Str,
    Hole,
    Name,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Bind {
    None,
    /// defines one or more symbols (more than one only in import lists)
    Def(Vec<Id>),
    Use(Id),
    Unresolved,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub class: Class,
    pub bind: Bind,
    /// the names offered here: (names, offered only through a module)
    pub offers: Option<Vec<String>>,
}
#[derive(Clone, Debug)]
pub struct UDef {
    pub id: Id,
    pub tok: usize,
    pub vis: Vis,
    pub item: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ns {
    Value,
    Type,
    Pattern,
}
#[derive(Clone, Debug, Default)]
pub struct Unit {
    pub path: String,
    pub toks: Vec<Tok>,
    pub defs: Vec<UDef>,
    /// (token, message) for every name and arity error
    pub errs: Vec<(usize, String)>,
    /// wrong numbers of type arguments: (token, type, declared, given)
    pub kinds: Vec<(usize, Id, usize, usize)>,
    pub exports: BTreeMap<(Ns, String), Id>,
    pub src: String,
    pub spans: Vec<(usize, usize)>,
    pub comments: Vec<(usize, usize)>,
    pub item_end: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Info {
    pub name: String,
    pub kind: Kind,
}
#[derive(Clone, Default)]
struct Env {
    values: BTreeMap<String, Id>,
    types: BTreeMap<String, Id>,
    ctors: BTreeMap<String, Id>,
    modules: BTreeMap<String, usize>,
}
pub struct Project {
    pub infos: Vec<Info>,
    /// dependencies come first, the last unit is the main one
    pub units: Vec<Unit>,
}

const NAMES: &[&str] = &["a", "b", "c", "T", "U", "C", "D", "foo", "_u", "ab"];

pub struct G {
    r: Rng,
    infos: Vec<Info>,
    units: Vec<Unit>,
    u: Unit,
    errors: bool,
}

const KW: &[&str] = &[
    "import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "bool", "string", "true", "false", "fold", "rec",
];

impl G {
    pub fn project(r: Rng, modules: usize, items: usize, errors: bool) -> Project {
        let mut g = G { r, infos: vec![], units: vec![], u: Unit::default(), errors };
        for m in 0..modules {
            g.u = Unit { path: if m + 1 == modules { "main".into() } else { format!("lib{}", m) }, ..Unit::default() };
            let n = 1 + g.r.below(items);
            g.unit(n);
            g.print();
            let u = std::mem::take(&mut g.u);
            g.units.push(u);
        }
        Project { infos: g.infos, units: g.units }
    }

    fn t(&mut self, s: &str) {
        let class = if KW.contains(&s) {
            Class::Keyword
        } else if ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"].contains(&s) {
            Class::Op
        } else if s.starts_with('"') {
            Class::Str
        } else if s.starts_with('?') {
            Class::Hole
        } else if s.as_bytes()[0].is_ascii_digit() {
            Class::Number
        } else {
            Class::Punct
        };
        self.u.toks.push(Tok { text: s.into(), class, bind: Bind::None, offers: None });
    }
    fn name(&mut self, s: &str, bind: Bind) -> usize {
        self.u.toks.push(Tok { text: s.into(), class: Class::Name, bind, offers: None });
        self.u.toks.len() - 1
    }
    fn pool(&mut self) -> String {
        if self.errors && self.r.chance(1, 60) {
            return format!("long_name_{}", self.r.below(3));
        }
        self.r.pick(NAMES).to_string()
    }
    fn fresh(&mut self, name: &str, kind: Kind) -> Id {
        self.infos.push(Info { name: name.into(), kind });
        self.infos.len() - 1
    }
    fn def(&mut self, name: &str, kind: Kind, vis: Vis) -> Id {
        let id = self.fresh(name, kind);
        let tok = self.name(name, Bind::Def(vec![id]));
        let item = self.u.item_end.len();
        self.u.defs.push(UDef { id, tok, vis, item });
        id
    }
    /// a name that is visible, or (sometimes) any name at all
    fn choose(&mut self, names: Vec<String>) -> String {
        let wild = if self.errors { 12 } else { 1_000_000 };
        if names.is_empty() || self.r.chance(1, wild) {
            return self.pool();
        }
        self.r.pick(&names).clone()
    }
    fn choose_type_names(&mut self, e: &Env) -> Vec<String> {
        e.types.keys().cloned().collect()
    }
    fn offers(e: &Env, m: &BTreeMap<String, Id>) -> Option<Vec<String>> {
        let mut v: Vec<String> = m.keys().cloned().chain(e.modules.keys().cloned()).collect();
        v.sort();
        v.dedup();
        Some(v)
    }

    fn unit(&mut self, items: usize) {
        let mut e = Env::default();
        for _ in 0..items {
            match self.r.below(if self.units.is_empty() { 8 } else { 11 }) {
                0..=2 => self.type_item(&mut e),
                3..=7 => self.value_item(&mut e),
                _ => self.import_item(&mut e),
            }
            let n = self.u.toks.len();
            self.u.item_end.push(n);
        }
    }

    fn import_item(&mut self, e: &mut Env) {
        let target = if self.errors && self.r.chance(1, 12) { None } else { Some(self.r.below(self.units.len())) };
        self.t("import");
        let has_name = self.r.chance(2, 3);
        let mut nm = String::new();
        let start = self.u.toks.len();
        if has_name {
            nm = self.pool();
            if target.is_some() {
                let id = self.def(&nm, Kind::Module, Vis::Module);
                let _ = id;
            } else {
                self.name(&nm, Bind::None);
            }
        }
        if !has_name || self.r.chance(1, 2) {
            self.t("(");
            let n = self.r.below(4);
            for k in 0..n {
                if k > 0 {
                    self.t(",");
                }
                let names = match target {
                    Some(t) => self.units[t].exports.keys().map(|k| k.1.clone()).collect(),
                    None => vec![],
                };
                let name = self.choose(names);
                let tok = self.name(&name, Bind::None);
                let Some(t) = target else { continue };
                let mut ids = vec![];
                for ns in [Ns::Value, Ns::Type, Ns::Pattern] {
                    if let Some(&id) = self.units[t].exports.get(&(ns, name.clone())) {
                        let item = self.u.item_end.len();
                        self.u.defs.push(UDef { id, tok, vis: Vis::Module, item });
                        if !ids.contains(&id) {
                            ids.push(id);
                        }
                        match self.infos[id].kind {
                            Kind::Value => {
                                e.values.insert(name.clone(), id);
                            }
                            Kind::Ctor { .. } => {
                                e.values.insert(name.clone(), id);
                                e.ctors.insert(name.clone(), id);
                            }
                            Kind::Type { .. } => {
                                e.types.insert(name.clone(), id);
                            }
                            _ => unreachable!(),
                        }
                    }
                }
                if ids.is_empty() {
                    self.u.errs.push((tok, format!("module does not export {}", name)));
                } else {
                    self.u.toks[tok].bind = Bind::Def(ids);
                }
            }
            self.t(")");
        }
        self.t("from");
        let path = match target {
            Some(t) => self.units[t].path.clone(),
            None => "nowhere".into(),
        };
        self.t(&format!("\"{}\"", path));
        let p = self.u.toks.len() - 1;
        self.t(";");
        match target {
            None => self.u.errs.push((p, "cannot find module".into())),
            Some(t) => {
                if has_name {
                    e.modules.insert(nm, t);
                }
            }
        }
        let _ = start;
    }

    fn type_item(&mut self, e: &mut Env) {
        let exp = self.r.chance(1, 2);
        if exp {
            self.t("export");
        }
        self.t("type");
        let name = self.pool();
        let tid = self.fresh(&name, Kind::Type { arity: 0 });
        let name_tok = self.name(&name, Bind::Def(vec![tid]));
        let mut inner = e.clone();
        let arity = if self.r.chance(1, 6) { 3 + self.r.below(2) } else { self.r.below(4).saturating_sub(1) };
        for _ in 0..arity {
            let p = self.pool();
            let id = self.def(&p, Kind::TyVar, Vis::Local);
            inner.types.insert(p, id);
        }
        self.infos[tid].kind = Kind::Type { arity };
        self.t("=");
        let exp_cases = self.r.chance(1, 2);
        if exp_cases {
            self.t("export");
        }
        let vis = if exp_cases { Vis::Export } else { Vis::Module };
        let n = 1 + self.r.below(3);
        let mut seen: Vec<String> = vec![];
        let mut ctors = vec![];
        for k in 0..n {
            if k > 0 || self.r.chance(1, 2) {
                self.t("|");
            }
            let cn = self.pool();
            if seen.contains(&cn) {
                let tok = self.name(&cn, Bind::None);
                self.u.errs.push((tok, format!("duplicate constructor {}", cn)));
            } else {
                let id = self.def(&cn, Kind::Ctor { of: tid }, vis);
                ctors.push((cn.clone(), id));
                seen.push(cn);
            }
            for _ in 0..self.r.below(3) {
                if self.r.chance(1, 4) {
                    self.t("rec");
                } else {
                    self.ty(&mut inner, 2, true, &mut None);
                }
            }
        }
        self.t(";");
        // the type's own record comes last in the item
        let item = self.u.item_end.len();
        self.u.defs.push(UDef { id: tid, tok: name_tok, vis: if exp { Vis::Export } else { Vis::Module }, item });
        for (n, id) in ctors {
            e.ctors.insert(n.clone(), id);
            e.values.insert(n.clone(), id);
            if exp_cases {
                self.u.exports.insert((Ns::Value, n.clone()), id);
                self.u.exports.insert((Ns::Pattern, n), id);
            }
        }
        e.types.insert(name.clone(), tid);
        if exp {
            self.u.exports.insert((Ns::Type, name), tid);
        }
    }

    /// vars: Some(_) where unknown lower-case names introduce type variables
    fn ty(&mut self, e: &mut Env, depth: usize, atom: bool, vars: &mut Option<()>) {
        let leaf = depth == 0 && self.r.chance(4, 5);
        match self.r.below(if leaf { 2 } else if depth == 0 { 3 } else { 9 }) {
            0 => self.t("int"),
            1 => {
                let b = self.r.chance(1, 2);
                self.t(if b { "bool" } else { "string" })
            }
            2..=5 if atom && !self.errors => {
                self.t("(");
                self.named(e, depth, false, vars);
                self.t(")");
            }
            2..=5 => self.named(e, depth, atom, vars),
            6 if !atom => {
                self.ty_nofn(e, depth - 1, vars);
                self.t("->");
                self.ty(e, depth - 1, false, vars);
            }
            _ => {
                self.t("(");
                self.ty(e, depth.saturating_sub(1), false, vars);
                self.t(")");
            }
        }
    }
    fn ty_nofn(&mut self, e: &mut Env, depth: usize, vars: &mut Option<()>) {
        match self.r.below(6) {
            0 | 1 => self.t("int"),
            2 | 3 => self.named(e, depth, false, vars),
            _ => {
                self.t("(");
                self.ty(e, depth, false, vars);
                self.t(")");
            }
        }
    }
    fn named(&mut self, e: &mut Env, depth: usize, atom: bool, vars: &mut Option<()>) {
        let tok;
        let mut sym = None;
        let mut fresh_var = None;
        if !e.modules.is_empty() && self.r.chance(1, 4) || self.errors && self.r.chance(1, 40) {
            if let Some((t, s)) = self.ns_name(e, Ns::Type) {
                tok = t;
                sym = s;
            } else {
                tok = self.u.toks.len() - 1;
            }
        } else {
            let names = self.choose_type_names(e);
            let name = if vars.is_some() && self.r.chance(1, 3) { self.pool() } else { self.choose(names) };
            let off = Self::offers(e, &e.types);
            tok = self.name(&name, Bind::None);
            self.u.toks[tok].offers = off;
            if let Some(&id) = e.types.get(&name) {
                self.u.toks[tok].bind = Bind::Use(id);
                sym = Some(id);
            } else if vars.is_some() && name.as_bytes()[0].is_ascii_lowercase() {
                fresh_var = Some(name);
            } else {
                self.u.toks[tok].bind = Bind::Unresolved;
                self.u.errs.push((tok, "undefined type".into()));
            }
        }
        let arity = match sym.map(|s| self.infos[s].kind) {
            Some(Kind::Type { arity }) => arity,
            _ => 0,
        };
        // in an atom position a name takes no arguments
        let n = if atom {
            0
        } else if self.errors && self.r.chance(1, 6) {
            self.r.below(arity + 2)
        } else {
            arity
        };
        if let Some(name) = &fresh_var {
            if n == 0 {
                let id = self.fresh(name, Kind::TyVar);
                self.u.toks[tok].bind = Bind::Def(vec![id]);
                let item = self.u.item_end.len();
                self.u.defs.push(UDef { id, tok, vis: Vis::Local, item });
                e.types.insert(name.clone(), id);
            } else {
                self.u.toks[tok].bind = Bind::Unresolved;
                self.u.errs.push((tok, "undefined type".into()));
            }
        }
        if let Some(s) = sym {
            if n != arity {
                self.u.kinds.push((tok, s, arity, n));
            }
        }
        for _ in 0..n {
            self.ty(e, depth.saturating_sub(1), true, vars);
        }
    }
    /// module.name; returns the token of the name and the symbol
    fn ns_name(&mut self, e: &Env, ns: Ns) -> Option<(usize, Option<Id>)> {
        let names: Vec<String> = e.modules.keys().cloned().collect();
        let m = self.choose(names);
        let mt = self.name(&m, Bind::None);
        self.u.toks[mt].offers = Some(e.modules.keys().cloned().collect());
        self.t(".");
        match e.modules.get(&m).copied() {
            None => {
                let n = self.pool();
                let t = self.name(&n, Bind::Unresolved);
                self.u.toks[t].offers = Some(vec![]);
                self.u.errs.push((mt, "undefined module".into()));
                Some((t, None))
            }
            Some(t) => {
                let all: Vec<String> = self.units[t].exports.keys().filter(|k| k.0 == ns).map(|k| k.1.clone()).collect();
                let n = self.choose(all.clone());
                let tok = self.name(&n, Bind::Unresolved);
                self.u.toks[tok].offers = Some(all);
                if let Some(&id) = self.units[t].exports.get(&(ns, n.clone())) {
                    self.u.toks[tok].bind = Bind::Use(id);
                    return Some((tok, Some(id)));
                }
                if self.units[t].exports.keys().any(|k| k.1 == n) {
                    let what = match ns {
                        Ns::Value => "value",
                        Ns::Type => "type",
                        Ns::Pattern => "constructor",
                    };
                    self.u.errs.push((tok, format!("{} is not a {}", n, what)));
                } else {
                    self.u.errs.push((mt, format!("module does not export {}", n)));
                }
                Some((tok, None))
            }
        }
    }

    fn value_item(&mut self, e: &mut Env) {
        let exp = self.r.chance(1, 3);
        if exp {
            self.t("export");
        }
        self.t("let");
        let name = self.pool();
        let id = self.fresh(&name, Kind::Value);
        let tok = self.name(&name, Bind::Def(vec![id]));
        let mut inner = e.clone();
        if !self.errors || self.r.chance(9, 10) {
            self.t(":");
            self.ty(&mut inner, 2, false, &mut Some(()));
        }
        let item = self.u.item_end.len();
        self.u.defs.push(UDef { id, tok, vis: if exp { Vis::Export } else { Vis::Module }, item });
        self.t("=");
        self.expr(&inner, 4);
        self.t(";");
        e.values.insert(name.clone(), id);
        if exp {
            self.u.exports.insert((Ns::Value, name), id);
        }
    }

    fn expr(&mut self, e: &Env, depth: usize) {
        if depth == 0 {
            return self.atom(e, 0);
        }
        match self.r.below(12) {
            0 | 1 => {
                self.t("let");
                let name = self.pool();
                let id = self.fresh(&name, Kind::Value);
                let tok = self.name(&name, Bind::Def(vec![id]));
                let mut inner = e.clone();
                if self.r.chance(1, 2) {
                    self.t(":");
                    self.ty(&mut inner, 1, false, &mut Some(()));
                }
                self.t("=");
                self.expr(&inner, depth - 1);
                let item = self.u.item_end.len();
                self.u.defs.push(UDef { id, tok, vis: Vis::Local, item });
                self.t(";");
                let mut rest = e.clone();
                rest.values.insert(name, id);
                self.expr(&rest, depth - 1);
            }
            2 | 3 => {
                self.t("match");
                self.expr(e, depth - 1);
                self.t("with");
                for _ in 0..self.r.below(4) {
                    self.t("|");
                    if !e.modules.is_empty() && self.r.chance(1, 4) {
                        self.ns_name(e, Ns::Pattern);
                    } else {
                        let names = e.ctors.keys().cloned().collect();
                        let c = self.choose(names);
                        let off = Self::offers(e, &e.ctors);
                        let tok = self.name(&c, Bind::Unresolved);
                        self.u.toks[tok].offers = off;
                        if let Some(&id) = e.ctors.get(&c) {
                            self.u.toks[tok].bind = Bind::Use(id);
                        } else {
                            self.u.errs.push((tok, "undefined constructor".into()));
                        }
                    }
                    let mut inner = e.clone();
                    for _ in 0..self.r.below(3) {
                        let v = self.pool();
                        let id = self.def(&v, Kind::Value, Vis::Local);
                        inner.values.insert(v, id);
                    }
                    self.t("->");
                    self.expr(&inner, depth - 1);
                }
                self.t("end");
            }
            4 => {
                self.t("if");
                self.expr(e, depth - 1);
                self.t("then");
                self.expr(e, depth - 1);
                self.t("else");
                self.expr(e, depth - 1);
            }
            5 | 6 => {
                self.t("\\");
                if self.r.chance(1, 5) {
                    self.t("fold");
                }
                let v = self.pool();
                let id = self.def(&v, Kind::Value, Vis::Local);
                self.t("->");
                let mut inner = e.clone();
                inner.values.insert(v, id);
                self.expr(&inner, depth - 1);
            }
            7 | 8 => {
                self.apply(e, depth - 1);
                let op = *self.r.pick(&["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"]);
                self.t(op);
                self.apply(e, depth - 1);
            }
            _ => self.apply(e, depth),
        }
    }
    fn apply(&mut self, e: &Env, depth: usize) {
        self.atom(e, depth);
        if self.r.chance(1, 3) {
            for _ in 0..1 + self.r.below(2) {
                self.atom(e, depth.saturating_sub(1));
            }
        }
    }
    fn atom(&mut self, e: &Env, depth: usize) {
        match self.r.below(if depth == 0 { 10 } else { 13 }) {
            0 => {
                let n = self.r.below(100).to_string();
                self.t(&n)
            }
            1 => {
                let b = self.r.chance(1, 2);
                self.t(if b { "true" } else { "false" })
            }
            2 => {
                let s = *self.r.pick(&["\"\"", "\"abc\"", "\"\u{e9}\u{20ac}\"", "\"\u{1f600}x\"", "\"-- no\""]);
                self.t(s)
            }
            3 => {
                let s = *self.r.pick(&["?", "?h", "?Hole1"]);
                self.t(if s == "?" { "?x" } else { s })
            }
            4..=7 => {
                let names = e.values.keys().cloned().collect();
                let n = self.choose(names);
                let off = Self::offers(e, &e.values);
                let tok = self.name(&n, Bind::Unresolved);
                self.u.toks[tok].offers = off;
                if let Some(&id) = e.values.get(&n) {
                    self.u.toks[tok].bind = Bind::Use(id);
                } else {
                    self.u.errs.push((tok, "undefined variable".into()));
                }
            }
            8 | 9 => {
                if e.modules.is_empty() && !(self.errors && self.r.chance(1, 6)) {
                    self.t("0")
                } else {
                    self.ns_name(e, Ns::Value);
                }
            }
            _ => {
                self.t("(");
                self.expr(e, depth - 1);
                self.t(")");
            }
        }
    }

    fn print(&mut self) {
        let mut s = String::new();
        let mut spans = vec![];
        let mut comments = vec![];
        let style = self.r.below(4);
        let mut comment = |s: &mut String, r: &mut Rng| {
            let st = s.len();
            let body = *r.pick(&["-- note", "--", "-- \u{e9}\u{20ac}\u{1f600} x", "--- a -- b", "-- let x : int = 1;"]);
            s.push_str(body);
            comments.push((st, s.len()));
            s.push('\n');
        };
        for (i, t) in self.u.toks.iter().enumerate() {
            if i > 0 || self.r.chance(1, 4) {
                match style {
                    0 => s.push(' '),
                    1 => s.push_str(*self.r.pick(&[" ", "  ", "\n", "\n    "])),
                    2 => {
                        if self.r.chance(1, 8) {
                            s.push(' ');
                            comment(&mut s, &mut self.r);
                        } else {
                            s.push_str(*self.r.pick(&[" ", "\n  "]))
                        }
                    }
                    _ => s.push_str(*self.r.pick(&[" ", "\r\n", "   ", "\n\n"])),
                }
            }
            let tight = i > 0 && {
                let p = &self.u.toks[i - 1].text;
                (p == "(" || t.text == ")" || t.text == ";" || p == "." || t.text == "." || t.text == "," || p == "\\") && !s.ends_with('\n')
            };
            if tight && style != 0 && s.ends_with(' ') && self.r.chance(2, 3) {
                while s.ends_with(' ') {
                    s.pop();
                }
                // a comment or a number must not swallow the next token
                if s.ends_with('\n') {
                    s.push(' ');
                }
            }
            spans.push((s.len(), s.len() + t.text.len()));
            s.push_str(&t.text);
        }
        if self.r.chance(1, 2) {
            s.push('\n');
            if self.r.chance(1, 3) {
                comment(&mut s, &mut self.r);
            }
        }
        self.u.src = s;
        self.u.spans = spans;
        self.u.comments = comments;
    }
}

impl Unit {
    pub fn span(&self, tok: usize) -> (usize, usize) {
        self.spans[tok]
    }
    pub fn first_def(&self, id: Id) -> Option<(usize, usize)> {
        self.defs.iter().find(|d| d.id == id).map(|d| self.spans[d.tok])
    }
    pub fn uses(&self, id: Id) -> Vec<(usize, usize)> {
        (0..self.toks.len()).filter(|&t| self.toks[t].bind == Bind::Use(id)).map(|t| self.spans[t]).collect()
    }
}
