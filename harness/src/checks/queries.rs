//! C15: queries in any order.  C07: queries on any text.
use super::{bad, Bad, Case, Check, Probe, Res};
use crate::checks::names::{describe, modules, project, sp};
use crate::rng::Rng;
use crate::{texts, util};
use std::sync::Arc;
use ticc::{CompilationUnit, ModuleResolver, NoopModuleResolver, Options, Pos, Runner, Severity};

pub const C15: Check = Check {
    id: "C15",
    quick: 60_000,
    thorough: 2_000_000,
    rule: "valid, name-rich, multi-module and broken programs, and a random history of up to fourteen queries (all kinds, random positions, some repeated) on \
           one compilation; every answer has to be that of a fresh compilation asked only this; non-trivial: at least two items and a completion at a position \
           that compiles only part of the text",
    case: c15,
    probes: c15_probes,
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Q { Diagnostics, Tokens, Definition(usize), References(usize), Info(usize), Completions(usize), EmitIr, Eval(Runner), Main(Runner), Source }

type Modules = Arc<dyn ModuleResolver + Send + Sync>;
fn new(src: &str, o: Options, m: &Modules) -> CompilationUnit {
    CompilationUnit::new(src, o, m.clone())
}
pub fn ask(u: &mut CompilationUnit, q: Q) -> String {
    match q {
        Q::Diagnostics => format!("{:?}", u.diagnostics().map(|d| (sp(d.span), d.severity, d.message)).collect::<Vec<_>>()),
        Q::Tokens => format!("{:?}", u.tokens().map(|t| (sp(t.span), format!("{:?}", t.kind))).collect::<Vec<_>>()),
        Q::Definition(p) => format!("{:?}", u.find_definition(Pos::new(p as u32)).map(sp)),
        Q::References(p) => format!("{:?}", u.find_references(Pos::new(p as u32)).map(|v| v.into_iter().map(sp).collect::<Vec<_>>())),
        Q::Info(p) => format!("{:?}", u.info(Pos::new(p as u32)).map(|i| (sp(i.span), i.doc))),
        Q::Completions(p) => format!("{:?}", u.completions(Pos::new(p as u32)).map(|v| v.into_iter().map(|c| c.name).collect::<Vec<_>>())),
        Q::EmitIr => u.emit_ir(),
        Q::Eval(r) => format!("{:?}", u.interpret(r).map_err(|t| t.message)),
        Q::Main(r) => format!("{:?}", u.interpret_main(r, b"ab").map_err(|e| e.to_string())),
        Q::Source => u.source().to_string(),
    }
}
fn query(r: &mut Rng, src: &str, runs: bool) -> Q {
    let p = if r.chance(1, 12) { src.len() + r.below(3) } else { r.below(src.len() + 1) };
    match r.below(if runs { 13 } else { 10 }) {
        0 | 1 => Q::Diagnostics,
        2 => Q::Tokens,
        3 => Q::Definition(p),
        4 => Q::References(p),
        5 | 6 => Q::Info(p),
        7 | 8 => Q::Completions(p),
        9 => Q::Source,
        10 => Q::EmitIr,
        11 => Q::Eval([Runner::Treewalk, Runner::Lambda, Runner::Bytecode][r.below(3)]),
        _ => Q::Main([Runner::Treewalk, Runner::Lambda, Runner::Bytecode][r.below(3)]),
    }
}
fn c15(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C15");
    let (src, m, text): (String, Modules, String) = if r.chance(1, 3) {
        let p = project("C15p", seed, i);
        (p.units.last().unwrap().src.clone(), modules(&p), describe(&p))
    } else {
        let (t, _) = texts::any(&mut r);
        (t.clone(), NoopModuleResolver::new(), t)
    };
    util::note_input(&text);
    let o = Options { verify: true, optimize: r.chance(1, 2) };
    let errors = match util::catch(|| new(&src, o, &m).diagnostics().any(|d| d.severity == Severity::Error)) {
        Ok(e) => e,
        Err(_) => return Ok(Case { input: text, nontrivial: false, tags: vec!["panics alone"] }),
    };
    // the evaluators are not asked about programs the compiler rejects
    let runs = !errors;
    let n = 3 + r.below(12);
    let mut hist: Vec<Q> = vec![];
    let mut partial = false;
    let mut u = new(&src, o, &m);
    let mut ended = false;
    for _ in 0..n {
        let q = if !hist.is_empty() && r.chance(1, 5) { hist[r.below(hist.len())] } else { query(&mut r, &src, runs) };
        let Ok(want) = util::catch(|| ask(&mut new(&src, o, &m), q)) else {
            continue;
        };
        hist.push(q);
        let got = util::catch(|| ask(&mut u, q)).unwrap_or_else(|p| format!("panic: {}", p));
        if got != want {
            return Err(bad(&format!("{}\n=== queries {:?}", text, hist), "the last answer depends on the queries before", want, got));
        }
        match q {
            Q::Completions(p) if !ended => partial |= p > 0 && p < src.len() / 2 || partial,
            Q::Source => {}
            _ => ended = true,
        }
    }
    let items = src.matches("let ").count() + src.matches("type ").count();
    Ok(Case { input: format!("{}\n=== queries {:?}", text, hist), nontrivial: partial && items >= 2, tags: if runs { vec!["no errors"] } else { vec![] } })
}
fn c15_probes() -> Vec<Probe> {
    vec![Probe::new("completion first, everything after", || {
        // every completion position before each of the other queries
        let src = "import strlen from \"std/x\";\ntype t a = A a (t a) | B rec; -- c\nexport let f : <a> t a -> int = \\x -> match x with | A y z -> 1 | B z -> 2;\nlet g = \\x -> x;\nlet h : int = f (A 1 ?);\nexport let k : int = let u = \\x -> x in u h;\nlet w : int = f g;\n";
        let m: Modules = NoopModuleResolver::new();
        let o = Options { verify: false, optimize: false };
        for p in 0..=src.len() {
            for q in [Q::Diagnostics, Q::Tokens, Q::Info(src.len() - 3), Q::Completions(src.len() - 4), Q::Definition(src.len() - 4), Q::References(src.len() - 4), Q::Info(60)] {
                let want = ask(&mut new(src, o, &m), q);
                let mut u = new(src, o, &m);
                ask(&mut u, Q::Completions(p));
                let got = ask(&mut u, q);
                if got != want {
                    return Err(bad(&format!("{}\n=== queries {:?}", src, [Q::Completions(p), q]), "the last answer depends on the queries before", want, got));
                }
            }
        }
        Ok::<(), Bad>(())
    })]
}
