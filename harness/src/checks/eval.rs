//! C01, C02, C03: what a program prints.
use super::{bad, Bad, Case, Check, Probe, Res};
use crate::gen::{self, Stop};
use crate::rng::Rng;
use crate::util;
use ticc::{CompilationUnit, NoopModuleResolver, Options, Runner, Severity};

pub const C01: Check = Check {
    id: "C01",
    quick: 6000,
    thorough: 200_000,
    rule: "random well-typed programs (see gen.rs) printed to source and run by the tree-walking runner; \
           non-trivial: at least one exported non-function value is printed or a hole is reached",
    case: |s, i| diff("C01", s, i, &[Runner::Treewalk], &[false], false),
    probes: prim_probes_tw,
};
pub const C02: Check = Check {
    id: "C02",
    quick: 5000,
    thorough: 150_000,
    rule: "random well-typed programs run by the lambda and the bytecode runner; every second one also optimized and \
           run by all three runners, which have to agree on the value or on the hole reached; non-trivial as in C01",
    case: |s, i| {
        let c = diff("C02", s, i, &[Runner::Lambda, Runner::Bytecode], &[false], false)?;
        if i % 2 == 0 && !c.tags.contains(&"too long") {
            same(&c.input)?;
        }
        Ok(c)
    },
    probes: prim_probes_lb,
};
pub const C03: Check = Check {
    id: "C03",
    quick: 4000,
    thorough: 120_000,
    rule: "random well-typed programs compiled with optimization on and run by all three runners; non-trivial as in C01",
    case: |s, i| diff("C03", s, i, &[Runner::Treewalk, Runner::Lambda, Runner::Bytecode], &[true], true),
    probes: prim_probes_opt,
};

pub fn run_src(src: &str, runner: Runner, opt: bool) -> Result<String, String> {
    let r = util::catch(|| {
        let mut u = CompilationUnit::new(src, Options { verify: true, optimize: opt }, NoopModuleResolver::new());
        u.interpret(runner)
    });
    match r {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(t)) => Err(t.message),
        Err(p) => Err(format!("PANIC {}", p)),
    }
}

fn errors(src: &str) -> Vec<String> {
    let mut u = CompilationUnit::new(src, Options { verify: true, optimize: false }, NoopModuleResolver::new());
    u.diagnostics().filter(|d| d.severity == Severity::Error).map(|d| d.message).collect()
}

fn diff(salt: &str, seed: u64, i: u64, runners: &[Runner], opts: &[bool], opt_mode: bool) -> Res {
    let r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), salt);
    let holes = i % 4 == 3;
    let p = gen::Gen::new(r.clone(), holes).program();
    let src = gen::print(&p, r.clone(), i % 3 == 0);
    util::note_input(&src);
    let exp = gen::Ev::new(&p).run();
    let mut tags = vec![];
    let d = errors(&src);
    if !d.is_empty() {
        return Err(bad(&src, "a well-typed program is rejected", "no errors", d.join("; ")));
    }
    let exp = match exp {
        Ok(s) => {
            tags.push("completed");
            Ok(s)
        }
        Err(Stop::Trap(t)) => {
            tags.push("trapped");
            Err(t)
        }
        Err(Stop::Limit) => return Ok(Case { input: src, nontrivial: false, tags: vec!["too long"] }),
    };
    for &opt in opts {
        for &runner in runners {
            let got = run_src(&src, runner, opt);
            if opt_mode && exp.is_err() {
                // an optimized program may skip holes whose value is not needed, or reach
                // another hole first; it may not fail in any other way
                match &got {
                    Ok(_) => tags.push("hole skipped"),
                    Err(m) if m.starts_with("encountered ?") => {}
                    Err(m) => return Err(bad(&src, &format!("{} optimize={}", runner, opt), format!("{:?}", exp), m.clone())),
                }
                continue;
            }
            if got != exp {
                return Err(bad(&src, &format!("{} runner, optimize={}", runner, opt), format!("{:?}", exp), format!("{:?}", got)));
            }
        }
    }
    let nontrivial = match &exp {
        Ok(s) => s.lines().any(|l| !l.ends_with("\\_ -> _")),
        Err(_) => true,
    };
    Ok(Case { input: src, nontrivial, tags })
}

/// the optimized program, run by every runner
fn same(src: &str) -> Result<(), Bad> {
    let want = run_src(src, Runner::Treewalk, true);
    for r in [Runner::Lambda, Runner::Bytecode] {
        let got = run_src(src, r, true);
        if got != want {
            return Err(bad(src, &format!("{} runner, optimize=true", r), format!("{:?} (as the tree-walking runner)", want), format!("{:?}", got)));
        }
    }
    Ok(())
}

// ---- fixed inputs ---------------------------------------------------------------

const EDGE: &[u64] = &[0, 1, 2, 3, 7, 255, 256, 257, 65535, 4294967295, 4294967296, 9223372036854775807, 9223372036854775808, 18446744073709551614, 18446744073709551615];

fn expect(src: &str, runners: &[Runner], opts: &[bool], want: Result<&str, &str>) -> Result<(), Bad> {
    let e = errors(src);
    if !e.is_empty() {
        return Err(bad(src, "a well-typed program is rejected", "no errors", e.join("; ")));
    }
    for &r in runners {
        for &o in opts {
            let got = run_src(src, r, o);
            let w = want.map(|x| x.to_string()).map_err(|x| x.to_string());
            if got != w {
                return Err(bad(src, &format!("{} runner, optimize={}", r, o), format!("{:?}", w), format!("{:?}", got)));
            }
        }
    }
    Ok(())
}

fn prim_probes(runners: &'static [Runner], opts: &'static [bool]) -> Vec<Probe> {
    let mut v = vec![];
    // every operator on every pair of edge values, as constants and through a function
    v.push(Probe::new("operators", move || {
        let mut src = String::new();
        let mut want = String::new();
        let mut k = 0;
        for (o, f) in [
            ("+", (|a, b| Ok(u64::wrapping_add(a, b))) as fn(u64, u64) -> Result<u64, bool>),
            ("-", |a, b| Ok(a.wrapping_sub(b))),
            ("*", |a, b| Ok(a.wrapping_mul(b))),
            ("/", |a, b| Ok(if b == 0 { 0 } else { a / b })),
            ("%", |a, b| Ok(if b == 0 { a } else { a % b })),
            ("<", |a, b| Err(a < b)),
            ("<=", |a, b| Err(a <= b)),
            (">", |a, b| Err(a > b)),
            (">=", |a, b| Err(a >= b)),
            ("==", |a, b| Err(a == b)),
            ("!=", |a, b| Err(a != b)),
        ] {
            src.push_str(&format!("let f{} : int -> int -> {} = \\x -> \\y -> x {} y;\n", k, if f(1, 1).is_ok() { "int" } else { "bool" }, o));
            let mut n = 0;
            for &a in EDGE {
                for &b in EDGE {
                    let w = match f(a, b) {
                        Ok(x) => x.to_string(),
                        Err(x) => x.to_string(),
                    };
                    src.push_str(&format!("export let a{}_{} : {} = {} {} {};\n", k, n, if f(1, 1).is_ok() { "int" } else { "bool" }, a, o, b));
                    src.push_str(&format!("export let b{}_{} : {} = f{} {} {};\n", k, n, if f(1, 1).is_ok() { "int" } else { "bool" }, k, a, b));
                    want.push_str(&format!("a{}_{} = {}\n", k, n, w));
                    want.push_str(&format!("b{}_{} = {}\n", k, n, w));
                    n += 1;
                }
            }
            k += 1;
        }
        // a unit per operator keeps each program small
        for k in 0..11 {
            let part: String = src.lines().filter(|l| l.contains(&format!("a{}_", k)) || l.contains(&format!("f{} ", k))).map(|l| format!("{}\n", l)).collect();
            let w: String = want.lines().filter(|l| l.starts_with(&format!("a{}_", k)) || l.starts_with(&format!("b{}_", k))).map(|l| format!("{}\n", l)).collect();
            expect(&part, runners, opts, Ok(&w))?;
        }
        Ok(())
    }));
    v.push(Probe::new("strings", move || {
        let strs = ["", "a", "ab", "hello world", "0123456789012345678901234567890123456789", "\u{e9}\u{2603}"];
        let idx = [0u64, 1, 2, 3, 10, 11, 39, 40, 41, 256, 4294967296, 4294967297, 9223372036854775808, 18446744073709551615];
        let mut src = String::from("import i from \"std/intrinsics\";\n");
        let mut want = String::new();
        let mut n = 0;
        let mut put = |e: String, w: String| {
            src.push_str(&format!("export let s{} : {} = {};\n", n, if w.starts_with('"') { "string" } else { "int" }, e));
            want.push_str(&format!("s{} = {}\n", n, w));
            n += 1;
        };
        let q = |s: &[u8]| {
            let mut o = String::new();
            gen::show_bytes(s, &mut o);
            o
        };
        for s in strs {
            put(format!("i.stringLength \"{}\"", s), s.len().to_string());
            for &a in &idx {
                let b = s.as_bytes();
                put(format!("i.stringCharAt {} \"{}\"", a, s), if (a as usize) < b.len() { b[a as usize].to_string() } else { "0".into() });
                for &l in &[0u64, 1, 2, 5, 40, 4294967297, 18446744073709551615] {
                    let from = (a as usize).min(b.len());
                    let len = (l as usize).min(b.len() - from);
                    put(format!("i.stringSubstring {} {} \"{}\"", a, l, s), q(&b[from..from + len]));
                }
            }
            for t in strs {
                put(format!("i.stringConcat \"{}\" \"{}\"", s, t), q(format!("{}{}", s, t).as_bytes()));
            }
        }
        for &a in EDGE {
            put(format!("i.intToString {}", a), format!("\"{}\"", a));
            put(format!("i.stringFromChar {}", a), q(&[a as u8]));
        }
        expect(&src, runners, opts, Ok(&want))
    }));
    // repaired defects
    v.push(Probe::new("constructor with twelve fields", move || {
        expect(
            "export type t = C int int int int int int int int int int int int;\nexport let x : t = C 1 2 3 4 5 6 7 8 9 10 11 12;\n",
            runners, opts, Ok("x = C 1 2 3 4 5 6 7 8 9 10 11 12\n"))
    }));
    v.push(Probe::new("arguments before callee", move || {
        if opts.contains(&true) {
            return Ok(());
        }
        expect("let x : int = (?callee) (?arg : int);\n", runners, opts, Err("encountered ?arg")).or_else(|_| {
            expect("let g : int -> int = \\a -> a;\nlet x : int = (if g 1 == 1 then ?callee else g) (g ?arg);\n", runners, opts, Err("encountered ?arg"))
        })
    }));
    v.push(Probe::new("escaped string", move || {
        expect("import i from \"std/intrinsics\";\nexport let x : string = i.stringConcat (i.stringFromChar 34) (i.stringFromChar 92);\n", runners, opts, Ok("x = \"\\\"\\\\\"\n"))
    }));
    v
}
fn prim_probes_tw() -> Vec<Probe> {
    prim_probes(&[Runner::Treewalk], &[false])
}
fn prim_probes_lb() -> Vec<Probe> {
    let mut v = prim_probes(&[Runner::Lambda, Runner::Bytecode], &[false]);
    v.push(Probe::new("first hole of several", || {
        for k in 2..7usize {
            for a in 0..k {
                for b in a + 1..k {
                    let vals: Vec<String> = (0..k).map(|j| if j == a || j == b { format!("?h{}", j) } else { j.to_string() }).collect();
                    let tys = "int -> ".repeat(k);
                    let params: String = (0..k).map(|j| format!("\\x{} -> ", j)).collect();
                    // too large to be inlined, so that the optimized program calls it with k arguments
                    let body: Vec<String> = (0..20).map(|j| format!("x{} * x{}", j % k, (j + 1) % k)).collect();
                    let src = format!("export let f : {}int = {}{};\nexport let x : int = f {};\n", tys, params, body.join(" + "), vals.join(" "));
                    same(&src)?;
                    let src = format!("export type t = C{};\nexport let x : t = C {};\n", " int".repeat(k), vals.join(" "));
                    same(&src)?;
                    expect(&src, &[Runner::Lambda, Runner::Bytecode], &[false], Err(&format!("encountered ?h{}", b)))?; // arguments before callee
                }
            }
        }
        for op in ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!="] {
            let t = if "+-*/%".contains(op) { "int" } else { "bool" };
            let src = format!("export let x : {} = ?a {} ?b;\n", t, op);
            same(&src)?;
            expect(&src, &[Runner::Lambda, Runner::Bytecode], &[false], Err("encountered ?a"))?;
        }
        Ok(())
    }));
    v.push(Probe::new("constructor with seventy fields", || {
        let n = 70;
        let tys: String = (0..n).map(|i| if i == n - 1 { " l" } else { " int" }).collect();
        let vals: String = (0..n).map(|i| if i == n - 1 { " (B 7)".to_owned() } else { format!(" {}", i) }).collect();
        let src = format!("export type l = A | B int;\nexport type t = C{};\nexport let x : t = C{};\n", tys, vals);
        expect(&src, &[Runner::Lambda, Runner::Bytecode], &[false], Ok(&format!("x = C{}\n", vals)))
    }));
    v.push(Probe::new("function that captures seventy variables", || {
        let n = 70u64;
        let params: String = (0..n).map(|i| format!(" x{}", i)).collect();
        let tys: String = (0..n).map(|_| "int -> ").collect();
        let sum: Vec<String> = (0..n).map(|i| format!("x{}", i)).collect();
        let args: String = (0..n).map(|i| format!(" {}", i)).collect();
        let src = format!("let f : {}(int -> int) = \\{} -> let g : int -> int = \\y -> y + {}; g;\nexport let x : int = f{} 1;\n", tys, params, sum.join(" + "), args);
        expect(&src, &[Runner::Lambda, Runner::Bytecode], &[false], Ok(&format!("x = {}\n", n * (n - 1) / 2 + 1)))
    }));
    v
}
fn prim_probes_opt() -> Vec<Probe> {
    prim_probes(&[Runner::Treewalk, Runner::Lambda, Runner::Bytecode], &[true])
}
