//! C10, C11, C17, C18, C19: what names mean, on generated projects (rgen.rs).
use super::{bad, Bad, Case, Check, Probe, Res};
use crate::rgen::{Bind, Kind, Ns, Project, Unit, Vis, G};
use crate::rng::Rng;
use crate::util;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use ticc::{CompilationUnit, CompleteUnit, ImportError, ModuleResolver, Options, Pos, Severity};

pub const RULE: &str = "random projects of one to three modules that are rich in names (rgen.rs: ten names for everything, so shadowing, duplicates, \
                        undefined names and imports of all kinds are frequent), each with the generator's own record of what every name means";
pub const C10: Check = Check { id: "C10", quick: 40_000, thorough: 1_000_000, rule: RULE, case: |s, i| run("C10", s, i, check_kinds), probes: kind_probes };
pub const C11: Check = Check { id: "C11", quick: 12_000, thorough: 400_000, rule: RULE, case: |s, i| run("C11", s, i, check_nav), probes: nav_probes };
pub const C17: Check = Check { id: "C17", quick: 40_000, thorough: 1_000_000, rule: RULE, case: |s, i| run("C17", s, i, check_unused), probes: unused_probes };
pub const C18: Check = Check { id: "C18", quick: 30_000, thorough: 1_000_000, rule: RULE, case: c18, probes: import_probes };
pub const C19: Check = Check { id: "C19", quick: 6_000, thorough: 200_000, rule: RULE, case: |s, i| run("C19", s, i, check_offers), probes: offer_probes };

pub struct Modules(pub HashMap<String, CompleteUnit>);
impl ModuleResolver for Modules {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        match self.0.get(name) {
            Some(u) => Ok(u.clone()),
            None if name.starts_with("cycle") => Err(ImportError::ImportCycle),
            None => Err(ImportError::DoesNotExist),
        }
    }
}
pub fn modules(p: &Project) -> Arc<Modules> {
    let mut m = Arc::new(Modules(HashMap::new()));
    for u in &p.units[..p.units.len() - 1] {
        let cu = CompilationUnit::new(&u.src, Options { verify: false, optimize: false }, m.clone()).complete();
        let mut next = HashMap::new();
        for (k, v) in &m.0 {
            next.insert(k.clone(), v.clone());
        }
        next.insert(u.path.clone(), cu);
        m = Arc::new(Modules(next));
    }
    m
}
pub fn project(salt: &str, seed: u64, i: u64) -> Project {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), salt);
    let modules = 1 + r.below(3);
    let items = 2 + r.below(7);
    let errors = r.chance(2, 3);
    G::project(r, modules, items, errors)
}
pub fn describe(p: &Project) -> String {
    let mut s = String::new();
    for u in &p.units {
        s.push_str(&format!("=== {}\n{}\n", u.path, u.src));
    }
    s
}
fn run(salt: &str, seed: u64, i: u64, f: fn(&Project, &Unit, &mut CompilationUnit, &str, &mut Rng) -> Result<bool, Bad>) -> Res {
    let p = project(salt, seed, i);
    let text = describe(&p);
    util::note_input(&text);
    let m = modules(&p);
    let main = p.units.last().unwrap();
    let mut u = CompilationUnit::new(&main.src, Options { verify: false, optimize: false }, m);
    let mut r = Rng::new(seed ^ i, "q");
    let nontrivial = f(&p, main, &mut u, &text, &mut r)?;
    Ok(Case { input: text, nontrivial, tags: vec![] })
}
type Diag = (usize, usize, String);
pub fn sp(s: ticc::Span) -> (usize, usize) {
    (s.start().source_pos(), s.end().source_pos())
}
pub fn diags(u: &mut CompilationUnit, sev: Severity, f: impl Fn(&str) -> bool) -> Vec<Diag> {
    let mut v: Vec<Diag> = u.diagnostics().filter(|d| d.severity == sev && f(&d.message)).map(|d| (sp(d.span).0, sp(d.span).1, d.message)).collect();
    v.sort();
    v
}
fn same(text: &str, what: &str, mut want: Vec<Diag>, got: Vec<Diag>) -> Result<(), Bad> {
    want.sort();
    if want != got {
        return Err(bad(text, what, format!("{:?}", want), format!("{:?}", got)));
    }
    Ok(())
}

fn check_kinds(p: &Project, m: &Unit, u: &mut CompilationUnit, text: &str, _: &mut Rng) -> Result<bool, Bad> {
    let mut want = vec![];
    for &(tok, id, arity, n) in &m.kinds {
        let (a, b) = m.spans[tok];
        let name = if m.first_def(id).is_some() { p.infos[id].name.clone() } else { "???".into() };
        want.push((a, b, format!("{} expects {} type arguments, got {}", name, arity, n)));
    }
    let nt = !want.is_empty();
    same(text, "errors about numbers of type arguments", want, diags(u, Severity::Error, |m| m.contains(" type arguments, got ")))?;
    Ok(nt)
}

fn name_errors(m: &Unit, f: impl Fn(&str) -> bool) -> Vec<Diag> {
    m.errs.iter().filter(|e| f(&e.1)).map(|e| (m.spans[e.0].0, m.spans[e.0].1, e.1.clone())).collect()
}
fn is_name_error(m: &str) -> bool {
    m.starts_with("undefined ") || m.starts_with("duplicate constructor ")
}
fn is_import_error(m: &str) -> bool {
    m.starts_with("module does not export ") || m.ends_with(" is not a value") || m.ends_with(" is not a type") || m.ends_with(" is not a constructor") || m == "cannot find module" || m == "import cycle"
}

fn check_nav(_: &Project, m: &Unit, u: &mut CompilationUnit, text: &str, r: &mut Rng) -> Result<bool, Bad> {
    // navigation first for some programs, diagnostics first for others
    let first = r.chance(1, 2);
    if first {
        same(text, "undefined names", name_errors(m, is_name_error), diags(u, Severity::Error, is_name_error))?;
    }
    let mut nt = false;
    let mut toks: Vec<usize> = (0..m.toks.len()).collect();
    for k in (1..toks.len()).rev() {
        let j = r.below(k + 1);
        toks.swap(k, j);
    }
    for t in toks {
        let tok = &m.toks[t];
        let (a, b) = m.spans[t];
        let near_name = |x: usize| (0..m.toks.len()).any(|k| matches!(m.toks[k].bind, Bind::Def(_) | Bind::Use(_)) && m.spans[k].0 <= x && x <= m.spans[k].1);
        let mut ps = vec![a, b, a + (b - a) / 2];
        ps.dedup();
        for pos in ps {
            if !m.src.is_char_boundary(pos) {
                continue;
            }
            let def = u.find_definition(Pos::new(pos as u32)).map(sp);
            let refs = u.find_references(Pos::new(pos as u32)).map(|v| {
                let mut v: Vec<_> = v.into_iter().map(sp).collect();
                v.sort();
                v
            });
            let (wd, wr) = match &tok.bind {
                Bind::Def(ids) if ids.len() == 1 => (Some((a, b)), Some(m.uses(ids[0]))),
                Bind::Use(id) => {
                    nt = true;
                    let d = m.first_def(*id);
                    (d, d.map(|_| m.uses(*id)))
                }
                Bind::Unresolved => (None, None),
                Bind::None if !near_name(pos) => (None, None),
                _ => continue,
            };
            // a definition that was imported twice is found at its first import
            let wd = match &tok.bind {
                Bind::Def(_) => def.filter(|d| *d == (a, b)).or(wd),
                _ => wd,
            };
            if def != wd {
                return Err(bad(text, &format!("definition of {:?} at offset {}", tok.text, pos), format!("{:?}", wd), format!("{:?}", def)));
            }
            if refs != wr {
                return Err(bad(text, &format!("references of {:?} at offset {}", tok.text, pos), format!("{:?}", wr), format!("{:?}", refs)));
            }
        }
    }
    if !first {
        same(text, "undefined names", name_errors(m, is_name_error), diags(u, Severity::Error, is_name_error))?;
    }
    Ok(nt)
}

fn check_unused(p: &Project, m: &Unit, u: &mut CompilationUnit, text: &str, _: &mut Rng) -> Result<bool, Bad> {
    let mut used: BTreeSet<usize> = BTreeSet::new();
    for t in &m.toks {
        if let Bind::Use(id) = t.bind {
            used.insert(id);
        }
    }
    for d in &m.defs {
        if d.vis == Vis::Export || p.infos[d.id].kind == Kind::TyVar {
            used.insert(d.id);
        }
    }
    let types: Vec<usize> = used
        .iter()
        .filter(|&&i| m.first_def(i).is_some())
        .filter_map(|&i| match p.infos[i].kind {
            Kind::Ctor { of } => Some(of),
            _ => None,
        })
        .collect();
    used.extend(types);
    let mut want: BTreeMap<(usize, usize), BTreeSet<usize>> = BTreeMap::new();
    for d in &m.defs {
        let i = &p.infos[d.id];
        if !used.contains(&d.id) && i.kind != Kind::Module && !i.name.starts_with('_') {
            want.entry(m.spans[d.tok]).or_default().insert(d.id);
        }
    }
    let want: Vec<Diag> = want.into_iter().flat_map(|((a, b), ids)| ids.into_iter().map(move |id| (a, b, id))).map(|(a, b, id)| (a, b, format!("{} is never used", p.infos[id].name))).collect();
    let nt = !want.is_empty();
    same(text, "unused definitions", want, diags(u, Severity::Warning, |m| m.ends_with(" is never used")))?;
    Ok(nt)
}

fn check_imports(_: &Project, m: &Unit, u: &mut CompilationUnit, text: &str, _: &mut Rng) -> Result<bool, Bad> {
    let nt = m.toks.iter().any(|t| t.text == "import");
    same(text, "import errors", name_errors(m, is_import_error), diags(u, Severity::Error, is_import_error))?;
    // a name that does resolve is not reported as undefined either
    same(text, "undefined names", name_errors(m, is_name_error), diags(u, Severity::Error, is_name_error))?;
    Ok(nt)
}

fn check_offers(_: &Project, m: &Unit, u: &mut CompilationUnit, text: &str, r: &mut Rng) -> Result<bool, Bad> {
    let mut nt = false;
    let start = r.below(2);
    for t in (0..m.toks.len()).skip(start) {
        let Some(want) = &m.toks[t].offers else { continue };
        let (a, b) = m.spans[t];
        let mut ps = vec![a, b, a + r.below(b - a + 1)];
        ps.dedup();
        for pos in ps {
            let got: Option<Vec<String>> = u.completions(Pos::new(pos as u32)).map(|v| v.into_iter().map(|c| c.name).collect());
            if got.as_ref() != Some(want) {
                return Err(bad(text, &format!("completions at offset {} (name {:?})", pos, m.toks[t].text), format!("{:?}", want), format!("{:?}", got)));
            }
            nt |= !want.is_empty();
        }
    }
    Ok(nt)
}

// ---- C18: also the types and values that come through an import --------------------

fn c18(seed: u64, i: u64) -> Res {
    if i % 3 != 0 {
        return run("C18", seed, i, check_imports);
    }
    typed_imports(seed, i)
}
/// a library exporting values of known types, and importers that use each of them at
/// the right type (accepted, same value) or at another one (rejected)
fn typed_imports(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C18t");
    // (type as the library writes it, as the importer writes it, expression, printed value)
    let all: Vec<(&str, &str, &str, &str)> = vec![
        ("int", "int", "7", "7"),
        ("bool", "bool", "1 < 2", "true"),
        ("string", "string", "\"s\"", "\"s\""),
        ("T", "m.T", "A", "A"),
        ("T", "m.T", "B 3", "B 3"),
        ("P int", "m.P int", "Q 1 A", "Q 1 A"),
        ("P bool", "m.P bool", "Q true (B 1)", "Q true (B 1)"),
        ("P (P int)", "m.P (m.P int)", "Q (Q 2 A) A", "Q (Q 2 A) A"),
        ("int -> int", "int -> int", "\\x -> x + 1", "\\_ -> _"),
        ("a -> P a", "a -> m.P a", "\\x -> Q x A", "\\_ -> _"),
        ("L int", "m.L int", "Cons 1 (Cons 2 Nil)", "Cons 1 (Cons 2 Nil)"),
    ];
    let mut lib = String::from("export type T = export A | B int;\nexport type P a = export Q a T;\nexport type L a = export | Nil | Cons a rec;\n");
    let n = 1 + r.below(5);
    let mut picked = vec![];
    for k in 0..n {
        let e = *r.pick(&all);
        let exported = r.chance(5, 6);
        // an earlier definition of the same name is not the one that is exported
        if exported && r.chance(1, 3) {
            let e = *r.pick(&all);
            lib.push_str(&format!("{}let v{} : {} = {};\n", if r.chance(3, 4) { "export " } else { "" }, k, e.0, e.2));
        }
        lib.push_str(&format!("{}let v{} : {} = {};\n", if exported { "export " } else { "" }, k, e.0, e.2));
        // nor is a later one that stays inside the module
        if exported && r.chance(1, 5) {
            let e = *r.pick(&all);
            lib.push_str(&format!("let v{} : {} = {};\n", k, e.0, e.2));
        }
        picked.push((e, exported));
    }
    // two constructors of one name, of different types: the later one is exported
    let twice = r.chance(1, 3);
    if twice {
        lib.push_str("export type K1 = export K string | K0;\nexport type K2 = export K int T | K3;\n");
    }
    let exposed = r.chance(1, 2);
    let mut main = String::from("import m from \"lib\";\n");
    if exposed {
        main.push_str(&format!("import (T, P, L, {}) from \"lib\";\n", (0..n).filter(|&k| picked[k].1).map(|k| format!("v{}", k)).collect::<Vec<_>>().join(", ")));
        main = main.replace(", )", ")");
    }
    let mut out = String::new();
    let mut wrong = 0;
    let mut wrong_lines = BTreeSet::new();
    for k in 0..n {
        let (e, exported) = picked[k];
        let mut t = e.1.to_string();
        if r.chance(1, 6) {
            let o = r.pick(&all).1;
            if o != e.1 && !o.contains("->") && !e.1.contains("->") {
                t = o.into();
                wrong += 1;
            }
        }
        if !exported {
            wrong += 1;
        }
        if !exported || t != e.1 {
            wrong_lines.insert(main.matches('\n').count());
        }
        let t = if exposed && r.chance(1, 2) { t.replace("m.", "") } else { t };
        let v = if exposed && exported && r.chance(1, 2) { format!("v{}", k) } else { format!("m.v{}", k) };
        main.push_str(&format!("export let w{} : {} = {};\n", k, t, v));
        out.push_str(&format!("w{} = {}\n", k, e.3));
    }
    // matching on an imported type
    main.push_str("let f : m.T -> int = \\x -> match x with | m.A -> 0 | m.B n -> n end;\nexport let z : int = f (m.B 9);\n");
    out.push_str("z = 9\n");
    if twice {
        main.push_str("let g : m.K2 -> int = \\x -> match x with | m.K n t -> n | m.K3 -> 0 end;\nexport let k : int = g (m.K 6 m.A);\n");
        out.push_str("k = 6\n");
    }
    let text = format!("=== lib\n{}\n=== main\n{}", lib, main);
    util::note_input(&text);
    let l = CompilationUnit::new(&lib, Options { verify: true, optimize: false }, Arc::new(Modules(HashMap::new()))).complete();
    let ms = Arc::new(Modules([("lib".to_string(), l)].into_iter().collect()));
    let mut u = CompilationUnit::new(&main, Options { verify: true, optimize: r.chance(1, 2) }, ms);
    let errs = diags(&mut u, Severity::Error, |_| true);
    if (wrong > 0) != !errs.is_empty() {
        return Err(bad(&text, "imported values used at their own types are accepted, at other types or when not exported rejected", format!("{} errors", wrong), format!("{:?}", errs)));
    }
    if wrong > 0 {
        // every wrong line gets its own error
        let lines: BTreeSet<usize> = errs.iter().map(|e| main[..e.0].matches('\n').count()).collect();
        if lines != wrong_lines {
            return Err(bad(&text, "each wrong use of an import is reported, and nothing else", format!("errors on {} lines", wrong), format!("{:?}", errs)));
        }
    } else {
        let got = u.interpret(ticc::Runner::Treewalk).map_err(|t| t.message);
        if got != Ok(out.clone()) {
            return Err(bad(&text, "values seen through an import", out, format!("{:?}", got)));
        }
    }
    Ok(Case { input: text, nontrivial: true, tags: vec![if wrong > 0 { "rejected" } else { "accepted" }] })
}

// ---- fixed inputs -------------------------------------------------------------------

fn unit(src: &str) -> CompilationUnit {
    CompilationUnit::new(src, Options { verify: false, optimize: false }, Arc::new(Modules(HashMap::new())))
}
fn probe(name: &str, src: &'static str, sev: Severity, filter: &'static str, want: &'static [(usize, usize, &'static str)]) -> Probe {
    Probe::new(name, move || {
        let w = want.iter().map(|x| (x.0, x.1, x.2.to_string())).collect();
        same(src, "diagnostics", w, diags(&mut unit(src), sev, |m| m.contains(filter)))
    })
}
fn kind_probes() -> Vec<Probe> {
    vec![
        probe("ill-kinded constructor field", "type X a = X (a int); export let y : int = match X 1 with | X q -> 1 end;", Severity::Error, " type arguments, got ", &[(14, 15, "a expects 0 type arguments, got 1")]),
        probe("well-kinded", "type P a b = P a b; let f : P int (P bool c) -> c = ?f;", Severity::Error, " type arguments, got ", &[]),
    ]
}
fn nav_probes() -> Vec<Probe> {
    vec![]
}
fn unused_probes() -> Vec<Probe> {
    vec![]
}
fn import_probes() -> Vec<Probe> {
    vec![
        probe("missing module", "import a from \"x\";\nimport b from \"x\";\n", Severity::Error, "", &[(14, 17, "cannot find module"), (33, 36, "cannot find module")]),
        probe("import cycle", "import a from \"cycle\";", Severity::Error, "", &[(14, 21, "import cycle")]),
    ]
}
fn offer_probes() -> Vec<Probe> {
    vec![]
}
#[allow(unused)]
fn unused(_: Ns) {}
