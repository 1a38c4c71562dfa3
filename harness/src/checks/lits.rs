//! C08: integer literals.  C09: match coverage.
use super::{bad, Bad, Case, Check, Probe, Res};
use crate::checks::names::{diags, sp};
use crate::rng::Rng;
use crate::util;
use ticc::{CompilationUnit, NoopModuleResolver, Options, Runner, Severity};

pub const C08: Check = Check {
    id: "C08",
    quick: 60_000,
    thorough: 2_000_000,
    rule: "programs with one to six literals in different expression positions: random values, values around powers of two and ten and around 2^64, \
           leading zeros, up to 60 digits, digits followed by letters; non-trivial: a literal within 3 of 2^64 or an over-long or malformed one",
    case: c08,
    probes: super::no_probes,
};
pub const C09: Check = Check {
    id: "C09",
    quick: 40_000,
    thorough: 1_000_000,
    rule: "one to three data types (one to five constructors, parameters, recursive fields) and functions matching on them with random branches \
           (missing, repeated, nested, constructors of other types); non-trivial: at least one branch missing or repeated",
    case: c09,
    probes: super::no_probes,
};

fn unit(src: &str) -> CompilationUnit {
    CompilationUnit::new(src, Options { verify: true, optimize: false }, NoopModuleResolver::new())
}

fn literal(r: &mut Rng) -> String {
    let max: u128 = 1 << 64;
    let mut s = match r.below(9) {
        0 => r.below(300).to_string(),
        1 => (max - 1 - r.below(4) as u128).to_string(),
        2 => (max + r.below(4) as u128).to_string(),
        3 => {
            let mut k = max * (1 + r.below(20) as u128) + r.below(100) as u128;
            k -= r.below(50) as u128;
            k.to_string()
        }
        4 => {
            let p = 10u128.pow(r.below(22) as u32);
            (p + r.below(3) as u128 - if p > 1 { 1 } else { 0 }).to_string()
        }
        5 => {
            let p = 1u128 << r.below(66);
            (p - r.below(2) as u128).to_string()
        }
        6 => {
            let n = 18 + r.below(4);
            let mut s = String::new();
            s.push((b'1' + r.below(9) as u8) as char);
            for _ in 0..n {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            s
        }
        7 => {
            let mut s = String::new();
            for _ in 0..1 + r.below(60) {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            s
        }
        _ => (r.next()).to_string(),
    };
    if r.chance(1, 5) {
        s = format!("{}{}", "0".repeat(1 + r.below(30)), s);
    }
    if r.chance(1, 8) {
        let at = 1 + r.below(s.len());
        let c = *r.pick(&["a", "_", "x", "e5", "_000", "F", "z9"]);
        s.insert_str(at, c);
    }
    s
}
/// Ok(canonical decimal) or the message
fn meaning(s: &str) -> Result<String, &'static str> {
    // the first character that is no digit, or the place where the value leaves the
    // range, whichever the reader meets first
    let mut v: u128 = 0;
    for c in s.bytes() {
        if !c.is_ascii_digit() {
            return Err("invalid number");
        }
        v = v * 10 + (c - b'0') as u128;
        if v >= 1 << 64 {
            return Err("number is too large");
        }
    }
    Ok(v.to_string())
}
fn c08(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C08");
    let n = 1 + r.below(6);
    let mut src = String::from(if r.chance(1, 3) { "-- 99999999999999999999 \u{e9}\nlet s : string = \"99999999999999999999\";\n" } else { "" });
    let mut lits: Vec<(usize, String)> = vec![];
    let mut out = String::new();
    let mut nontrivial = false;
    for k in 0..n {
        let l = literal(&mut r);
        let m = meaning(&l);
        nontrivial |= m.is_err() || m.as_ref().map(|m| m.len() >= 19).unwrap_or(false);
        let (pre, post) = *r.pick(&[
            ("", ""),
            ("(", ")"),
            ("0 + ", ""),
            ("", " + 0"),
            ("(\\x -> x) ", ""),
            ("let y = ", "; y"),
            ("let y = 3; ", ""),
            ("if true then ", " else 1"),
            ("if false then 4 else ", ""),
            ("(\\x -> \\y -> x) ", " 5"),
            ("(let z : int -> int = \\q -> q; z) ", ""),
        ]);
        src.push_str(&format!("export let x{} : int = {}", k, pre));
        lits.push((src.len(), l.clone()));
        src.push_str(&l);
        src.push_str(post);
        src.push_str(*r.pick(&[";\n", " ;", "\n;\r\n"]));
        if let Ok(v) = m {
            out.push_str(&format!("x{} = {}\n", k, v));
        }
    }
    util::note_input(&src);
    let mut u = unit(&src);
    let got: Vec<(usize, usize, String)> = {
        let mut v: Vec<_> = u.diagnostics().filter(|d| d.severity == Severity::Error).map(|d| (sp(d.span).0, sp(d.span).1, d.message)).collect();
        v.sort();
        v
    };
    let mut want: Vec<(usize, usize)> = lits.iter().filter(|l| meaning(&l.1).is_err()).map(|l| (l.0, l.0 + l.1.len())).collect();
    want.sort();
    let gs: Vec<(usize, usize)> = got.iter().map(|g| (g.0, g.1)).collect();
    if want != gs {
        return Err(bad(&src, "errors at literals", format!("{:?}", want), format!("{:?}", got)));
    }
    if want.is_empty() {
        let runner = *r.pick(&[Runner::Treewalk, Runner::Lambda, Runner::Bytecode]);
        let res = u.interpret(runner).map_err(|t| t.message);
        if res != Ok(out.clone()) {
            return Err(bad(&src, &format!("values of literals on {}", runner), out, format!("{:?}", res)));
        }
    }
    Ok(Case { input: src, nontrivial, tags: vec![if want.is_empty() { "accepted" } else { "rejected" }] })
}

// ---- C09 -----------------------------------------------------------------------------

struct Data {
    name: String,
    arity: usize,
    /// (name, fields: 'i' int, 'p' first parameter, 'r' rec)
    ctors: Vec<(String, Vec<char>)>,
}
struct M<'a> {
    r: Rng,
    datas: &'a [Data],
    src: String,
    want: Vec<(usize, usize, String)>,
    next: u64,
    wrong_type: bool,
}
impl M<'_> {
    /// a match on `disc` (of type datas[d]); returns what each constructor evaluates to
    fn matching(&mut self, d: usize, disc: &str, depth: usize, rec_int: bool) -> Vec<Option<u64>> {
        let start = self.src.len();
        self.src.push_str("match ");
        self.src.push_str(disc);
        self.src.push_str(" with ");
        let n = self.datas[d].ctors.len();
        let mut order: Vec<usize> = (0..n).collect();
        for k in (1..n).rev() {
            let j = self.r.below(k + 1);
            order.swap(k, j);
        }
        if self.r.chance(1, 3) {
            for _ in 0..1 + self.r.below(2) {
                if !order.is_empty() {
                    order.remove(0);
                }
            }
        }
        if self.r.chance(1, 3) {
            for _ in 0..1 + self.r.below(2) {
                let at = self.r.below(order.len() + 1);
                order.insert(at, self.r.below(n));
            }
        }
        let mut value = vec![None; n];
        for c in order {
            if self.r.chance(1, 60) && self.datas.len() > 1 {
                let o = (d + 1) % self.datas.len();
                let oc = self.r.below(self.datas[o].ctors.len());
                let (name, fields) = (&self.datas[o].ctors[oc].0, self.datas[o].ctors[oc].1.len());
                self.src.push_str(&format!("| {} {}-> 0 ", name, "_a ".repeat(fields)));
                self.wrong_type = true;
            }
            let case = self.src.len();
            let repeated = value[c].is_some();
            let fields = self.datas[d].ctors[c].1.clone();
            self.src.push_str(&format!("| {} ", self.datas[d].ctors[c].0));
            let mut inner = None;
            for (k, f) in fields.iter().enumerate() {
                self.src.push_str(&format!("_v{}_{} ", depth, k));
                if *f == 'r' && !rec_int && inner.is_none() {
                    inner = Some(format!("_v{}_{}", depth, k));
                }
            }
            self.src.push_str("-> ");
            let v = self.next;
            self.next += 1;
            if depth < 2 && inner.is_some() && self.r.chance(1, 2) {
                let d2 = inner.unwrap();
                let paren = self.r.chance(1, 2);
                if paren {
                    self.src.push('(');
                }
                self.matching(d, &d2, depth + 1, rec_int);
                if paren {
                    self.src.push(')');
                }
                // not evaluated in the accepted program
                if value[c].is_none() {
                    value[c] = Some(u64::MAX);
                }
            } else {
                self.src.push_str(&v.to_string());
                if value[c].is_none() {
                    value[c] = Some(v);
                }
            }
            let end = self.src.len();
            if repeated {
                self.want.push((case, end, "unreachable pattern".into()));
            }
            self.src.push(' ');
        }
        self.src.push_str("end");
        let end = self.src.len();
        let missing: Vec<&str> = (0..n).filter(|&c| value[c].is_none()).map(|c| self.datas[d].ctors[c].0.as_str()).collect();
        match missing.len() {
            0 => {}
            1 => self.want.push((start, end, format!("pattern {} not covered", missing[0]))),
            2 => self.want.push((start, end, format!("patterns {} and {} not covered", missing[0], missing[1]))),
            k => self.want.push((start, end, format!("patterns {} and {} more not covered", missing[0], k - 1))),
        }
        value
    }
}
fn c09(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C09");
    let mut datas = vec![];
    let mut src = String::new();
    for t in 0..1 + r.below(3) {
        let arity = r.below(2);
        let n = 1 + r.below(5);
        let mut ctors = vec![];
        for c in 0..n {
            let mut f = vec![];
            for _ in 0..r.below(3) {
                f.push(*r.pick(if arity > 0 { &['i', 'p', 'r'] } else { &['i', 'i', 'r'] }));
            }
            ctors.push((format!("K{}_{}", t, c), f));
        }
        src.push_str(&format!("type D{}{} = ", t, if arity > 0 { " a" } else { "" }));
        for (k, c) in ctors.iter().enumerate() {
            src.push_str(&format!("{}{}", if k > 0 { " | " } else { "" }, c.0));
            for f in &c.1 {
                src.push_str(match f {
                    'i' => " int",
                    'p' => " a",
                    _ => " rec",
                });
            }
        }
        src.push_str(";\n");
        datas.push(Data { name: format!("D{}", t), arity, ctors });
    }
    let mut m = M { r, datas: &datas, src, want: vec![], next: 100, wrong_type: false };
    let mut evals: Vec<(String, usize, Vec<Option<u64>>)> = vec![];
    for k in 0..1 + m.r.below(3) {
        let d = m.r.below(datas.len());
        let fold = m.r.chance(1, 4);
        let name = format!("f{}", k);
        m.src.push_str(&format!("let {} : {}{} -> int = \\{}x -> ", name, datas[d].name, if datas[d].arity > 0 { " int" } else { "" }, if fold { "fold " } else { "" }));
        let disc = if fold { "x" } else { *m.r.pick(&["x", "(x)", "(let y = x; y)", "(\\q -> q) x", "if 1 < 2 then x else x"]) };
        let v = m.matching(d, disc, 0, fold);
        m.src.push_str(";\n");
        evals.push((name, d, v));
    }
    // values without recursive fields reach each branch
    let mut out = String::new();
    for (name, d, v) in &evals {
        for (c, val) in v.iter().enumerate() {
            let fields = &datas[*d].ctors[c].1;
            if fields.contains(&'r') || val.is_none() || *val == Some(u64::MAX) {
                continue;
            }
            let x = format!("y_{}_{}", name, c);
            m.src.push_str(&format!("export let {} : int = {} ({}{});\n", x, name, datas[*d].ctors[c].0, " 1".repeat(fields.len())));
            out.push_str(&format!("{} = {}\n", x, val.unwrap()));
        }
    }
    let M { src, mut want, mut r, wrong_type, .. } = m;
    util::note_input(&src);
    let mut u = unit(&src);
    let got = diags(&mut u, Severity::Error, |m| m.ends_with(" not covered") || m == "unreachable pattern");
    want.sort();
    if got != want {
        return Err(bad(&src, "coverage errors", format!("{:?}", want), format!("{:?}", got)));
    }
    let all = diags(&mut u, Severity::Error, |_| true);
    if all.len() != want.len() && !wrong_type {
        return Err(bad(&src, "no other errors", format!("{:?}", want), format!("{:?}", all)));
    }
    if all.is_empty() {
        let runner = *r.pick(&[Runner::Treewalk, Runner::Lambda, Runner::Bytecode]);
        let res = u.interpret(runner).map_err(|t| t.message);
        if res != Ok(out.clone()) {
            return Err(bad(&src, &format!("branches taken on {}", runner), out, format!("{:?}", res)));
        }
    }
    Ok(Case { input: src, nontrivial: !want.is_empty(), tags: vec![if want.is_empty() { "accepted" } else { "rejected" }] })
}
#[allow(unused)]
fn unused(_: Bad, _: Probe) {}
