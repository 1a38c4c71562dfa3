//! vx: mechanical extraction of real functions from /repo into a Verus file.
//!
//!   vx <template.vx> <repo-root> <out.rs> <report.json>
//!
//! A template is Verus text with directives (lines starting with `//@`); see
//! /verif/DESIGN.md, "Extraction".  Exit codes: 0 ok, 3 an anchor was lost (the
//! report says which), 2 a mistake in the template.

use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;

#[derive(Debug)]
enum Fail {
    Template(String),
    Lost(String),
}
type R<T> = Result<T, Fail>;

struct Rule {
    pat: Vec<TokenTree>,
    rep: Vec<TokenTree>,
    text: String,
    optional: bool,
    used: usize,
}

#[derive(Default)]
struct FnDirective {
    file: String,
    path: String,
    kind: String,
    sections: BTreeMap<String, String>,
    rules: Vec<Rule>,
    rename: Option<String>,
    ret: Option<String>,
    params: Option<String>,
    noloopname: bool,
    select: Option<String>,
    armbody: Option<String>,
    closure: Option<usize>,
    inarm: Option<String>,
    lifts: Vec<String>,
    wrap: Option<String>,
    sigonly: bool,
    splitor: bool,
    spec: bool,
}

struct Ctx {
    root: String,
    files: HashMap<String, syn::File>,
    macros: HashMap<String, String>,
    rules: Vec<Rule>,
    functions: Vec<(String, String, usize, usize)>,
    types: Vec<String>,
    applied: BTreeMap<String, usize>,
    canary: bool,
    canaries: usize,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 {
        eprintln!("usage: vx template repo out report");
        std::process::exit(2);
    }
    let tpl = load_template(&a[1]);
    let mut cx = Ctx {
        root: a[2].clone(),
        files: HashMap::new(),
        macros: HashMap::new(),
        rules: Vec::new(),
        functions: Vec::new(),
        types: Vec::new(),
        applied: BTreeMap::new(),
        canary: std::env::var("VX_CANARY").is_ok(),
        canaries: 0,
    };
    let res = cx.process(&tpl);
    let (code, msg, out) = match res {
        Ok(o) => (0, String::new(), o),
        Err(Fail::Template(m)) => (2, m, String::new()),
        Err(Fail::Lost(m)) => (3, m, String::new()),
    };
    if code == 0 {
        std::fs::write(&a[3], &out).unwrap();
    }
    let mut rep = String::from("{\n");
    let _ = writeln!(rep, "  \"status\": {}, \"message\": {}, \"canaries\": {},", code, js(&msg), cx.canaries);
    rep.push_str("  \"functions\": [");
    for (i, (f, p, l0, l1)) in cx.functions.iter().enumerate() {
        let _ = write!(
            rep,
            "{}{{\"file\": {}, \"path\": {}, \"from\": {}, \"to\": {}}}",
            if i > 0 { ", " } else { "" },
            js(f),
            js(p),
            l0,
            l1
        );
    }
    rep.push_str("],\n  \"types\": [");
    for (i, t) in cx.types.iter().enumerate() {
        let _ = write!(rep, "{}{}", if i > 0 { ", " } else { "" }, js(t));
    }
    rep.push_str("],\n  \"rewrites\": {");
    for (i, (t, n)) in cx.applied.iter().enumerate() {
        let _ = write!(rep, "{}{}: {}", if i > 0 { ", " } else { "" }, js(t), n);
    }
    rep.push_str("}\n}\n");
    std::fs::write(&a[4], rep).unwrap();
    if code != 0 {
        eprintln!("vx: {}", msg);
    }
    std::process::exit(code);
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn load_template(path: &str) -> String {
    let text = std::fs::read_to_string(path).expect("template");
    let dir = std::path::Path::new(path).parent().unwrap();
    let mut out = String::new();
    for l in text.lines() {
        if let Some(f) = l.trim_start().strip_prefix("//@ include ") {
            let p = dir.join(f.trim());
            out.push_str(&load_template(p.to_str().unwrap()));
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}

fn toks(s: &str) -> R<Vec<TokenTree>> {
    let ts: TokenStream = s
        .parse()
        .map_err(|e| Fail::Template(format!("cannot tokenize `{}`: {}", s, e)))?;
    Ok(ts.into_iter().collect())
}

fn parse_rule(s: &str) -> R<Rule> {
    let (opt, s) = match s.trim().strip_prefix('?') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (a, b) = s
        .split_once("==>")
        .ok_or_else(|| Fail::Template(format!("rule without ==>: {}", s)))?;
    Ok(Rule { pat: toks(a)?, rep: toks(b)?, text: s.trim().to_string(), optional: opt, used: 0 })
}

impl Ctx {
    fn process(&mut self, tpl: &str) -> R<String> {
        let mut out = String::new();
        let mut lines = tpl.lines().peekable();
        while let Some(l) = lines.next() {
            let Some(d) = l.trim_start().strip_prefix("//@") else {
                out.push_str(l);
                out.push('\n');
                continue;
            };
            let d = d.trim();
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            match word {
                "rule" => {
                    let r = parse_rule(rest)?;
                    self.rules.push(r);
                }
                "type" => {
                    let t = self.do_type(rest)?;
                    out.push_str(&t);
                    out.push('\n');
                }
                "fn" | "expr" => {
                    let mut it = rest.split_whitespace();
                    let mut fd = FnDirective {
                        kind: word.into(),
                        file: it.next().unwrap_or("").into(),
                        path: it.next().unwrap_or("").into(),
                        ..Default::default()
                    };
                    let mut section = String::from("contract");
                    loop {
                        let Some(l) = lines.next() else {
                            return Err(Fail::Template(format!("missing //@ end for {}", fd.path)));
                        };
                        if let Some(d) = l.trim_start().strip_prefix("//@") {
                            let d = d.trim();
                            let (w, r) = d.split_once(' ').unwrap_or((d, ""));
                            match w {
                                "end" => break,
                                "rule" => fd.rules.push(parse_rule(r)?),
                                "as" => fd.rename = Some(r.trim().into()),
                                "ret" => fd.ret = Some(r.trim().into()),
                                "params" => fd.params = Some(r.trim().into()),
                                "noloopname" => fd.noloopname = true,
                                "select" => fd.select = Some(r.trim().into()),
                                "closure" => fd.closure = r.trim().parse().ok(),
                                "armbody" => fd.armbody = Some(r.trim().into()),
                                "inarm" => fd.inarm = Some(r.trim().into()),
                                "lift" => fd.lifts.push(r.trim().into()),
                                "wrap" => fd.wrap = Some(r.trim().into()),
                                "sigonly" => fd.sigonly = true,
                                "splitor" => fd.splitor = true,
                                "spec" => fd.spec = true,
                                _ => section = d.to_string(),
                            }
                        } else {
                            let s = fd.sections.entry(section.clone()).or_default();
                            s.push_str(l);
                            s.push('\n');
                        }
                    }
                    let before = out.lines().count() + 1;
                    let t = self.do_fn(fd.file.clone(), fd.path.clone(), &mut fd)?;
                    out.push_str(&t);
                    out.push('\n');
                    let after = out.lines().count();
                    self.functions.push((fd.file.clone(), fd.path.clone(), before, after));
                }
                "" => {}
                w => return Err(Fail::Template(format!("unknown directive {}", w))),
            }
        }
        for r in &self.rules {
            self.applied.insert(r.text.clone(), r.used);
        }
        let _ = &self.macros;
        Ok(out)
    }

    fn load(&mut self, file: &str) -> R<syn::File> {
        if let Some(f) = self.files.get(file) {
            return Ok(f.clone());
        }
        let p = format!("{}/{}", self.root, file);
        let src = std::fs::read_to_string(&p)
            .map_err(|e| Fail::Lost(format!("source file {}: {}", file, e)))?;
        let f = syn::parse_file(&src)
            .map_err(|e| Fail::Lost(format!("cannot parse {}: {}", file, e)))?;
        self.files.insert(file.into(), f.clone());
        Ok(f)
    }

    fn do_type(&mut self, rest: &str) -> R<String> {
        // type <file> <Name> [| attrs text]
        let (head, attrs) = rest.split_once('|').unwrap_or((rest, ""));
        let mut it = head.split_whitespace();
        let file = it.next().unwrap_or("");
        let name = it.next().unwrap_or("");
        let f = self.load(file)?;
        let item = find_item(&f.items, name)
            .ok_or_else(|| Fail::Lost(format!("type {} not found in {}", name, file)))?;
        let mut item = item.clone();
        strip_item_attrs(&mut item);
        self.types.push(format!("{}:{}", file, name));
        let tt: Vec<TokenTree> = item.to_token_stream().into_iter().collect();
        let tt = self.apply_unit_rules(tt)?;
        let mut s = String::new();
        s.push_str(attrs.trim());
        s.push('\n');
        s.push_str(&print(&tt, &BTreeMap::new()));
        Ok(s)
    }

    fn apply_unit_rules(&mut self, mut tt: Vec<TokenTree>) -> R<Vec<TokenTree>> {
        let mut rules = std::mem::take(&mut self.rules);
        for r in rules.iter_mut() {
            tt = apply_rule(r, tt);
        }
        self.rules = rules;
        Ok(tt)
    }

    fn do_fn(&mut self, file: String, path: String, fd: &mut FnDirective) -> R<String> {
        let f = self.load(&file)?;
        let found = find_fn(&f.items, &path)
            .ok_or_else(|| Fail::Lost(format!("function {} not found in {}", path, file)))?;
        let (mut sig, mut block) = found;
        if let Some(p) = &fd.inarm {
            // only the body of one match arm, `A > B`: arm B inside arm A
            let e = arm_at(&mut block, &arm_path(p)?, None)
                .ok_or_else(|| Fail::Lost(format!("arm `{}` of {} in {}", p, path, file)))?;
            block = match e {
                syn::Expr::Block(b) if b.label.is_none() => b.block,
                e => syn::parse2(quote!({ #e })).unwrap(),
            };
        }
        // `A > B # k => CALL`: the k-th closure of the arm (with the `Box::new` around it) becomes CALL;
        // `A > B => CALL`: the whole arm body does
        let mut lifts = Vec::new();
        for l in &fd.lifts {
            let (w, call) = l.rsplit_once(" => ").ok_or_else(|| Fail::Template(format!("lift {}", l)))?;
            let (w, k) = match w.split_once(" # ") {
                Some((w, k)) => (w, Some(k.trim().parse::<usize>().map_err(|_| Fail::Template(format!("lift {}", l)))?)),
                None => match w.strip_prefix("# ") {
                    Some(k) => ("", Some(k.trim().parse::<usize>().map_err(|_| Fail::Template(format!("lift {}", l)))?)),
                    None => (w, None),
                },
            };
            let call: syn::Expr = syn::parse_str(call).map_err(|e| Fail::Template(format!("lift {}: {}", l, e)))?;
            lifts.push((w.trim().to_string(), k, call));
        }
        lifts.sort_by(|a, b| b.1.cmp(&a.1));
        for (w, k, call) in lifts {
            let at = if w.is_empty() { Vec::new() } else { arm_path(&w)? };
            let done = arm_at(&mut block, &at, Some(&mut |e: &mut syn::Expr| match k {
                None => {
                    *e = call.clone();
                    true
                }
                Some(k) => {
                    let mut l = Lift { k, n: 0, call: call.clone(), hit: false };
                    l.visit_expr_mut(e);
                    l.hit
                }
            }));
            if done.is_none() {
                return Err(Fail::Lost(format!("lifted `{}` of {} in {}", w, path, file)));
            }
            *self.applied.entry(format!("lift {}{}", w, k.map(|k| format!(" # {}", k)).unwrap_or_default())).or_insert(0) += 1;
        }
        if let Some(k) = fd.closure {
            // the body of the k-th closure of the function, in source order
            struct Find {
                found: Vec<syn::Expr>,
            }
            impl VisitMut for Find {
                fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
                    self.found.push((*c.body).clone());
                    syn::visit_mut::visit_expr_closure_mut(self, c);
                }
            }
            let mut v = Find { found: vec![] };
            v.visit_block_mut(&mut block);
            if k >= v.found.len() {
                return Err(Fail::Lost(format!("closure {} of {} in {}", k, path, file)));
            }
            let e = v.found.swap_remove(k);
            block = match e {
                syn::Expr::Block(b) if b.label.is_none() => b.block,
                e => syn::parse2(quote!({ #e })).unwrap(),
            };
        } else if fd.kind == "expr" {
            // pick the match expression whose scrutinee is the `select` text
            let want: String = norm(&fd.select.clone().unwrap_or_default())?;
            struct Find {
                want: String,
                found: Vec<syn::Expr>,
            }
            impl<'ast> VisitMut for Find {
                fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
                    if let syn::Expr::Match(m) = e {
                        if norm(&m.expr.to_token_stream().to_string()).ok().as_ref() == Some(&self.want) {
                            self.found.push(e.clone());
                        }
                    }
                    syn::visit_mut::visit_expr_mut(self, e);
                }
            }
            let mut v = Find { want: want.clone(), found: vec![] };
            v.visit_block_mut(&mut block);
            if v.found.len() != 1 {
                return Err(Fail::Lost(format!(
                    "{} `match {}` in {} of {}",
                    v.found.len(),
                    want,
                    path,
                    file
                )));
            }
            let mut e = v.found.pop().unwrap();
            if let Some(p) = &fd.armbody {
                let want = norm(p)?;
                let syn::Expr::Match(m) = &e else { unreachable!() };
                let hits: Vec<syn::Expr> = m
                    .arms
                    .iter()
                    .filter(|a| norm(&a.pat.to_token_stream().to_string()).ok().as_ref() == Some(&want))
                    .map(|a| (*a.body).clone())
                    .collect();
                if hits.len() != 1 {
                    return Err(Fail::Lost(format!("{} arms `{}` in {} of {}", hits.len(), p, path, file)));
                }
                e = hits.into_iter().next().unwrap();
            }
            if let Some(w) = &fd.wrap {
                let pat = toks(w)?;
                let mut b = Bind::new();
                b.insert("e".into(), e.to_token_stream().into_iter().collect());
                let t: TokenStream = subst(&pat, &b).into_iter().collect();
                e = syn::parse2(t).map_err(|x| Fail::Template(format!("wrap: {}", x)))?;
            }
            block = match e {
                syn::Expr::Block(b) if b.label.is_none() => b.block,
                e => syn::parse2(quote!({ #e })).unwrap(),
            };
        }
        strip_block_attrs(&mut block);
        sig.abi = None;
        if fd.splitor {
            SplitOr.visit_block_mut(&mut block);
        }
        // loop markers
        let mut lm = LoopMark { n: 0, name: !fd.noloopname };
        lm.visit_block_mut(&mut block);
        let nloops = lm.n;
        for k in fd.sections.keys() {
            let w: Vec<&str> = k.split_whitespace().collect();
            if w[0].starts_with("loop") {
                let i: usize = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(9999);
                if i >= nloops {
                    return Err(Fail::Lost(format!("loop {} of {} in {}", i, path, file)));
                }
            }
        }
        // arm markers
        for (k, _) in fd.sections.iter() {
            if let Some(p) = k.strip_prefix("arm ") {
                let mut am = ArmMark { want: norm(p)?, key: k.clone(), hits: 0 };
                am.visit_block_mut(&mut block);
                if am.hits == 0 {
                    return Err(Fail::Lost(format!("match arm `{}` of {} in {}", p, path, file)));
                }
            }
            if let Some(p) = k.strip_prefix("before ") {
                // `in ARM => STMT`: in the match arm only
                let (arm, p) = match p.strip_prefix("in ").and_then(|x| x.split_once(" => ")) {
                    Some((a, p)) => (Some(norm(a)?), p),
                    None => (None, p),
                };
                let mut am = StmtMark { want: norm(p)?, on: arm.is_none(), arm, key: k.clone(), hits: 0, after: false };
                am.visit_block_mut(&mut block);
                if am.hits == 0 {
                    return Err(Fail::Lost(format!("statement `{}` of {} in {}", p, path, file)));
                }
            }
            if let Some(p) = k.strip_prefix("after ") {
                // `in ARM => STMT`: in the match arm only
                let (arm, p) = match p.strip_prefix("in ").and_then(|x| x.split_once(" => ")) {
                    Some((a, p)) => (Some(norm(a)?), p),
                    None => (None, p),
                };
                let mut am = StmtMark { want: norm(p)?, on: arm.is_none(), arm, key: k.clone(), hits: 0, after: true };
                am.visit_block_mut(&mut block);
                if am.hits == 0 {
                    return Err(Fail::Lost(format!("statement `{}` of {} in {}", p, path, file)));
                }
            }
        }
        let name = fd.rename.clone().unwrap_or_else(|| sig.ident.to_string());
        sig.ident = Ident::new(&name, Span::call_site());
        let mut st: Vec<TokenTree> = sig.to_token_stream().into_iter().collect();
        let mut bt: Vec<TokenTree> = block.to_token_stream().into_iter().collect();
        let mut rules = std::mem::take(&mut fd.rules);
        for r in rules.iter_mut() {
            st = apply_rule(r, st);
            bt = apply_rule(r, bt);
            if r.used == 0 && !r.optional {
                return Err(Fail::Lost(format!("rewrite `{}` did not apply in {} of {}", r.text, path, file)));
            }
            *self.applied.entry(r.text.clone()).or_insert(0) += r.used;
        }
        st = self.apply_unit_rules(st)?;
        bt = self.apply_unit_rules(bt)?;
        let mut s = String::new();
        if let Some(a) = fd.sections.get("attr") {
            s.push_str(a);
        }
        if let Some(p) = &fd.params {
            // the wrapper signature for an extracted expression
            let _ = write!(s, "{}", p);
        } else {
            let sigtext = print(&st, &BTreeMap::new());
            let sigtext = if let Some(r) = &fd.ret {
                match rfind_arrow(&st) {
                    Some(ix) => {
                        let a = print(&st[..ix], &BTreeMap::new());
                        // stop at where clause
                        let tail = &st[ix + 2..];
                        let w = tail
                            .iter()
                            .position(|t| matches!(t, TokenTree::Ident(i) if i == "where"))
                            .unwrap_or(tail.len());
                        format!(
                            "{} -> ({}: {}) {}",
                            a,
                            r,
                            print(&tail[..w], &BTreeMap::new()),
                            print(&tail[w..], &BTreeMap::new())
                        )
                    }
                    None => sigtext,
                }
            } else {
                sigtext
            };
            s.push_str(&sigtext);
        }
        s.push('\n');
        if let Some(c) = fd.sections.get("contract") {
            s.push_str(c);
        }
        if fd.sigonly {
            s.push_str("{ unimplemented!() }\n");
            return Ok(s);
        }
        // head section
        let mut body = print(&bt, &fd.sections);
        let ext = fd.sections.get("attr").map_or(false, |a| a.contains("external_body"));
        if self.canary && !ext && !fd.spec {
            // with contradictory preconditions or axioms this would be provable
            let ix = body.find('{').unwrap();
            body.insert_str(ix + 1, "\nassert(false);\n");
            self.canaries += 1;
        }
        if let Some(h) = fd.sections.get("head") {
            let ix = body.find('{').unwrap();
            body.insert_str(ix + 1, &format!("\n{}", h));
        }
        s.push_str(&body);
        Ok(s)
    }
}

fn norm(s: &str) -> R<String> {
    Ok(print(&toks(s)?, &BTreeMap::new()).split_whitespace().collect::<Vec<_>>().join(" "))
}

fn rfind_arrow(t: &[TokenTree]) -> Option<usize> {
    // top-level `->` of the signature (after the parameter list)
    let args = t.iter().position(|x| matches!(x, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis))?;
    let mut i = args;
    while i + 1 < t.len() {
        if let (TokenTree::Punct(a), TokenTree::Punct(b)) = (&t[i], &t[i + 1]) {
            if a.as_char() == '-' && b.as_char() == '>' {
                return Some(i);
            }
        }
        i += 1;
    }
    None
}

fn just_continue(b: &syn::Block) -> bool {
    match b.stmts.as_slice() {
        [syn::Stmt::Expr(syn::Expr::Continue(c), _)] => c.label.is_none(),
        _ => false,
    }
}

/// Verus has no `continue` in `for` loops: at the top level of a for body,
/// `if C { continue; } REST` is `if !(C) { REST }`, and
/// `let P = E else { continue; }; REST` is `if let P = E { REST }`.
fn uncontinue(stmts: &mut Vec<syn::Stmt>) {
    for i in (0..stmts.len()).rev() {
        let rest: Vec<syn::Stmt> = stmts[i + 1..].to_vec();
        let new: Option<syn::Stmt> = match &stmts[i] {
            syn::Stmt::Expr(syn::Expr::If(f), _) if f.else_branch.is_none() && just_continue(&f.then_branch) => {
                let c = &f.cond;
                if let syn::Expr::Let(l) = &**c {
                    Some(syn::parse2(quote!(if #l { } else { #(#rest)* })).unwrap())
                } else {
                    Some(syn::parse2(quote!(if !(#c) { #(#rest)* })).unwrap())
                }
            }
            syn::Stmt::Local(l) => match &l.init {
                Some(init) => match &init.diverge {
                    Some((_, d)) if matches!(&**d, syn::Expr::Block(b) if just_continue(&b.block)) => {
                        let (p, e) = (&l.pat, &init.expr);
                        Some(syn::parse2(quote!(if let #p = #e { #(#rest)* })).unwrap())
                    }
                    _ => None,
                },
                None => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            stmts.truncate(i);
            stmts.push(n);
        }
    }
}

struct LoopMark {
    n: usize,
    name: bool,
}
impl LoopMark {
    fn mark(&mut self, b: &mut syn::Block) -> usize {
        let k = self.n;
        self.n += 1;
        let id = Ident::new(&format!("__vx_loop_{}", k), Span::call_site());
        let idt = Ident::new(&format!("__vx_looptail_{}", k), Span::call_site());
        b.stmts.insert(0, syn::parse2(quote!(#id;)).unwrap());
        // the tail marker goes after the last statement (with `;` if it was an expression)
        if let Some(syn::Stmt::Expr(_, semi)) = b.stmts.last_mut() {
            if semi.is_none() {
                *semi = Some(Default::default());
            }
        }
        b.stmts.push(syn::parse2(quote!(#idt;)).unwrap());
        k
    }
}
impl VisitMut for LoopMark {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // `while let P = E { .. }` is `loop { match E { P => { .. } _ => break } }`
        if let syn::Expr::While(w) = e {
            if let syn::Expr::Let(l) = &*w.cond {
                let (label, pat, ex, body) = (&w.label, &l.pat, &l.expr, &w.body);
                *e = syn::parse2(quote!(#label loop { match #ex { #pat => #body _ => { break; } } })).unwrap();
            }
        }
        let mut before: Option<syn::Stmt> = None;
        match e {
            syn::Expr::ForLoop(f) => {
                uncontinue(&mut f.body.stmts);
                // `for (i, p) in e.enumerate() { .. }` is
                // `let mut n = 0; for p in e { let i = n; n = n + 1; .. }`
                if let (syn::Pat::Tuple(t), syn::Expr::MethodCall(m)) = (&*f.pat, &*f.expr) {
                    if t.elems.len() == 2 && m.method == "enumerate" && m.args.is_empty() {
                        let n = Ident::new(&format!("vx_n{}", self.n), Span::call_site());
                        let (i, p, r) = (t.elems[0].clone(), t.elems[1].clone(), (*m.receiver).clone());
                        f.body.stmts.insert(0, syn::parse2(quote!(let #i = #n;)).unwrap());
                        f.body.stmts.insert(1, syn::parse2(quote!(#n = #n + 1;)).unwrap());
                        *f.pat = p;
                        *f.expr = r;
                        before = Some(syn::parse2(quote!(let mut #n: usize = 0;)).unwrap());
                    }
                }
                // `for &x in e { .. }` is `for p in e { let x = *p; .. }` for Copy items
                let mut depth = 0;
                let mut inner = (*f.pat).clone();
                while let syn::Pat::Reference(r) = &inner {
                    depth += 1;
                    inner = (*r.pat).clone();
                }
                if depth > 0 && matches!(inner, syn::Pat::Ident(_) | syn::Pat::Tuple(_)) {
                    let mut e: syn::Expr = syn::parse2(quote!(vx_p)).unwrap();
                    for _ in 0..depth {
                        e = syn::parse2(quote!(*#e)).unwrap();
                    }
                    f.body.stmts.insert(0, syn::parse2(quote!(let #inner = #e;)).unwrap());
                    *f.pat = syn::Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: Ident::new("vx_p", Span::call_site()), subpat: None });
                }
                // `for (&x, mut y) in e { .. }` is `for (p, q) in e { let x = *p; let mut y = q; .. }`
                if let syn::Pat::Tuple(t) = &mut *f.pat {
                    for (i, el) in t.elems.iter_mut().enumerate() {
                        let id = Ident::new(&format!("vx_p{}", i), Span::call_site());
                        let bind: syn::Stmt = match el {
                            syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Ident(_)) => {
                                let x = r.pat.clone();
                                syn::parse2(quote!(let #x = *#id;)).unwrap()
                            }
                            syn::Pat::Ident(x) if x.mutability.is_some() && x.by_ref.is_none() => {
                                let x = x.clone();
                                syn::parse2(quote!(let #x = #id;)).unwrap()
                            }
                            _ => continue,
                        };
                        f.body.stmts.insert(0, bind);
                        *el = syn::Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None });
                    }
                }
                let k = self.mark(&mut f.body);
                // `for x in &mut v` is `for x in v.iter_mut()` (std's IntoIterator for references)
                if let syn::Expr::Reference(r) = &*f.expr {
                    let inner = (*r.expr).clone();
                    *f.expr = if r.mutability.is_some() {
                        syn::parse2(quote!((#inner).iter_mut())).unwrap()
                    } else {
                        syn::parse2(quote!((#inner).iter())).unwrap()
                    };
                }
                if self.name {
                    let it = Ident::new(&format!("__vx_it_{}", k), Span::call_site());
                    let ex = f.expr.clone();
                    *f.expr = syn::parse2(quote!(#it(#ex))).unwrap();
                }
            }
            syn::Expr::While(w) => {
                self.mark(&mut w.body);
            }
            syn::Expr::Loop(l) => {
                self.mark(&mut l.body);
            }
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
        if let Some(b) = before {
            let inner = e.clone();
            *e = syn::parse2(quote!({ #b #inner })).unwrap();
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

fn marker(key: &str) -> Ident {
    let h: String = key.bytes().map(|b| format!("{:02x}", b)).collect();
    Ident::new(&format!("__vx_at_{}", h), Span::call_site())
}

fn arm_path(p: &str) -> R<Vec<String>> {
    p.split(" > ").map(norm).collect()
}

/// the body of the only arm at a path of patterns (each searched inside the one before);
/// with `change`, the body is changed in place and the change must report success
fn arm_at<'b>(block: &mut syn::Block, path: &[String], change: Option<&mut (dyn FnMut(&mut syn::Expr) -> bool + 'b)>) -> Option<syn::Expr> {
    struct V<'a, 'c, 'b> {
        path: &'a [String],
        hits: usize,
        found: Option<syn::Expr>,
        change: Option<&'c mut (dyn FnMut(&mut syn::Expr) -> bool + 'b)>,
    }
    impl VisitMut for V<'_, '_, '_> {
        fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
            let p = norm(&a.pat.to_token_stream().to_string()).unwrap_or_default();
            if p != self.path[0] {
                syn::visit_mut::visit_arm_mut(self, a);
                return;
            }
            if self.path.len() > 1 {
                let rest = self.path;
                self.path = &rest[1..];
                syn::visit_mut::visit_arm_mut(self, a);
                self.path = rest;
                return;
            }
            self.hits += 1;
            match &mut self.change {
                Some(c) => {
                    if c(&mut a.body) {
                        self.found = Some((*a.body).clone());
                    }
                }
                None => self.found = Some((*a.body).clone()),
            }
        }
    }
    if path.is_empty() {
        let mut e: syn::Expr = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: block.clone() });
        let ok = change.map(|c| c(&mut e)).unwrap_or(true);
        if let syn::Expr::Block(b) = &e {
            *block = b.block.clone();
        }
        return if ok { Some(e) } else { None };
    }
    let mut v = V { path, hits: 0, found: None, change };
    v.visit_block_mut(block);
    if v.hits == 1 {
        v.found
    } else {
        None
    }
}

/// `A(x) | B(x) => e` becomes `A(x) => e, B(x) => e` (arms whose pattern binds names)
struct SplitOr;
impl VisitMut for SplitOr {
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        struct Binds(bool);
        impl VisitMut for Binds {
            fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
                if p.ident.to_string().starts_with(|c: char| c.is_lowercase()) {
                    self.0 = true;
                }
            }
        }
        let mut arms = vec![];
        for a in std::mem::take(&mut m.arms) {
            let mut b = Binds(false);
            b.visit_pat_mut(&mut a.pat.clone());
            match &a.pat {
                syn::Pat::Or(o) if b.0 => {
                    for p in &o.cases {
                        let mut c = a.clone();
                        c.pat = p.clone();
                        if c.comma.is_none() {
                            c.comma = Some(Default::default());
                        }
                        arms.push(c);
                    }
                }
                _ => arms.push(a),
            }
        }
        m.arms = arms;
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
}

struct Lift {
    k: usize,
    n: usize,
    call: syn::Expr,
    hit: bool,
}
impl VisitMut for Lift {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let boxed = match e {
            syn::Expr::Call(c) => {
                let f = norm(&c.func.to_token_stream().to_string()).unwrap_or_default();
                f == "Box :: new" && c.args.len() == 1 && matches!(c.args[0], syn::Expr::Closure(_))
            }
            syn::Expr::Closure(_) => true,
            _ => false,
        };
        if boxed {
            let i = self.n;
            if i == self.k {
                *e = self.call.clone();
                self.hit = true;
                self.n += 1;
                return;
            }
            self.n += 1;
            let inner = match e {
                syn::Expr::Call(c) => &mut c.args[0],
                e => e,
            };
            if let syn::Expr::Closure(c) = inner {
                self.visit_expr_mut(&mut c.body);
            }
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

struct ArmMark {
    want: String,
    key: String,
    hits: usize,
}
impl VisitMut for ArmMark {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        syn::visit_mut::visit_arm_mut(self, a);
        let p = norm(&a.pat.to_token_stream().to_string()).unwrap_or_default();
        if p == self.want {
            self.hits += 1;
            let m = marker(&self.key);
            let b = a.body.clone();
            *a.body = match &*b {
                syn::Expr::Block(eb) if eb.label.is_none() => {
                    let mut eb = eb.clone();
                    eb.block.stmts.insert(0, syn::parse2(quote!(#m;)).unwrap());
                    syn::Expr::Block(eb)
                }
                _ => syn::parse2(quote!({ #m; #b })).unwrap(),
            };
        }
    }
}

struct StmtMark {
    want: String,
    arm: Option<String>,
    on: bool,
    key: String,
    hits: usize,
    after: bool,
}
impl VisitMut for StmtMark {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let was = self.on;
        if let Some(w) = &self.arm {
            if norm(&a.pat.to_token_stream().to_string()).unwrap_or_default() == *w {
                self.on = true;
            }
        }
        syn::visit_mut::visit_arm_mut(self, a);
        self.on = was;
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        syn::visit_mut::visit_block_mut(self, b);
        if !self.on {
            return;
        }
        let mut i = 0;
        while i < b.stmts.len() {
            let t = norm(&b.stmts[i].to_token_stream().to_string()).unwrap_or_default();
            if t.starts_with(&self.want) {
                self.hits += 1;
                let m = marker(&self.key);
                let s: syn::Stmt = syn::parse2(quote!(#m;)).unwrap();
                if self.after {
                    b.stmts.insert(i + 1, s);
                } else {
                    b.stmts.insert(i, s);
                }
                i += 1;
            }
            i += 1;
        }
    }
}

fn strip_item_attrs(i: &mut syn::Item) {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
            a.clear();
        }
    }
    S.visit_item_mut(i);
}
fn strip_block_attrs(b: &mut syn::Block) {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
            a.clear();
        }
    }
    S.visit_block_mut(b);
}

fn find_item<'a>(items: &'a [syn::Item], name: &str) -> Option<&'a syn::Item> {
    for i in items {
        let id = match i {
            syn::Item::Enum(e) => e.ident.to_string(),
            syn::Item::Struct(s) => s.ident.to_string(),
            syn::Item::Const(s) => s.ident.to_string(),
            syn::Item::Type(s) => s.ident.to_string(),
            syn::Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find_item(its, name) {
                        return Some(x);
                    }
                }
                continue;
            }
            _ => continue,
        };
        if id == name {
            return Some(i);
        }
    }
    None
}

/// `Type::method`, `function`, `<Trait for Type>::method` written `Trait/Type::method`;
/// nested functions after a dot: `walk.go`.
fn find_fn(items: &[syn::Item], path: &str) -> Option<(syn::Signature, syn::Block)> {
    let mut parts = path.split('.');
    let first = parts.next().unwrap();
    let (mut sig, mut block) = find_top(items, first)?;
    for p in parts {
        let b = block.clone();
        let inner: Vec<syn::Item> = b
            .stmts
            .iter()
            .filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None })
            .collect();
        let r = find_top(&inner, p)?;
        sig = r.0;
        block = r.1;
    }
    // nested functions are extracted on their own
    block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Fn(_))));
    Some((sig, block))
}

fn find_top(items: &[syn::Item], name: &str) -> Option<(syn::Signature, syn::Block)> {
    let (tr, rest) = match name.split_once('/') {
        Some((t, r)) => (Some(t), r),
        None => (None, name),
    };
    let (ty, m) = match rest.split_once("::") {
        Some((t, m)) => (Some(t), m),
        None => (None, rest),
    };
    for i in items {
        match i {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == m => {
                return Some((f.sig.clone(), (*f.block).clone()));
            }
            syn::Item::Impl(im) if ty.is_some() => {
                let tn = match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => continue,
                };
                if Some(tn.as_str()) != ty {
                    continue;
                }
                let trn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                if let Some(t) = tr {
                    if trn.as_deref() != Some(t) {
                        continue;
                    }
                }
                for it in &im.items {
                    if let syn::ImplItem::Fn(f) = it {
                        if f.sig.ident == m {
                            return Some((f.sig.clone(), f.block.clone()));
                        }
                    }
                }
            }
            syn::Item::Mod(md) => {
                if let Some((_, its)) = &md.content {
                    if let Some(x) = find_top(its, name) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

// ---------------------------------------------------------------- rewriting

type Bind = HashMap<String, Vec<TokenTree>>;

fn apply_rule(r: &mut Rule, tt: Vec<TokenTree>) -> Vec<TokenTree> {
    let mut out: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < tt.len() {
        let mut b = Bind::new();
        let chain_start = i == 0 || !is_chain_link(&tt[i - 1]) ;
        let starts_meta = meta(&r.pat, 0).is_some();
        if !starts_meta || (chain_start && is_chain_tok(&tt[i])) {
            if let Some(n) = match_seq(&r.pat, &tt[i..], &mut b, starts_meta, false) {
                if n > 0 {
                    r.used += 1;
                    let rep = subst(&r.rep, &b);
                    // rewrite inside captured pieces too
                    let rep = rep
                        .into_iter()
                        .map(|t| rec_group(r, t, &b))
                        .collect::<Vec<_>>();
                    out.extend(rep);
                    i += n;
                    continue;
                }
            }
        }
        match &tt[i] {
            TokenTree::Group(g) => {
                let inner = apply_rule(r, g.stream().into_iter().collect());
                let mut ng = Group::new(g.delimiter(), inner.into_iter().collect());
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out
}

fn rec_group(r: &mut Rule, t: TokenTree, _b: &Bind) -> TokenTree {
    // captured groups may contain further matches; replacement text itself must not re-match forever
    match t {
        TokenTree::Group(g) => {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            let before = r.used;
            if before > 10_000 {
                return TokenTree::Group(g);
            }
            let has = contains_match(r, &inner);
            if !has {
                return TokenTree::Group(g);
            }
            // only descend one generation: rules whose replacement contains the pattern are not iterated
            let inner = apply_rule_once(r, inner);
            TokenTree::Group(Group::new(g.delimiter(), inner.into_iter().collect()))
        }
        t => t,
    }
}

fn contains_match(r: &Rule, tt: &[TokenTree]) -> bool {
    let starts_meta = meta(&r.pat, 0).is_some();
    for i in 0..tt.len() {
        let mut b = Bind::new();
        let chain_start = i == 0 || !is_chain_link(&tt[i - 1]);
        if (!starts_meta || (chain_start && is_chain_tok(&tt[i])))
            && match_seq(&r.pat, &tt[i..], &mut b, starts_meta, false).map_or(false, |n| n > 0)
        {
            return true;
        }
        if let TokenTree::Group(g) = &tt[i] {
            let v: Vec<TokenTree> = g.stream().into_iter().collect();
            if contains_match(r, &v) {
                return true;
            }
        }
    }
    false
}

fn apply_rule_once(r: &mut Rule, tt: Vec<TokenTree>) -> Vec<TokenTree> {
    // guard against replacement containing its own pattern
    let rep_self = contains_match(r, &r.rep.clone());
    if rep_self {
        return tt;
    }
    apply_rule(r, tt)
}

fn is_chain_link(t: &TokenTree) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == '.' || p.as_char() == ':')
}
fn is_chain_tok(t: &TokenTree) -> bool {
    match t {
        TokenTree::Ident(_) | TokenTree::Literal(_) => true,
        TokenTree::Group(g) => g.delimiter() != Delimiter::Brace,
        TokenTree::Punct(_) => false,
    }
}
fn in_chain(t: &[TokenTree]) -> bool {
    // ident/group/literal separated by `.`/`::`/`?` ; two adjacent idents break a chain
    let mut prev_word = false;
    for x in t {
        match x {
            TokenTree::Ident(_) | TokenTree::Literal(_) => {
                if prev_word {
                    return false;
                }
                prev_word = true;
            }
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Brace {
                    return false;
                }
                prev_word = true;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c != '.' && c != ':' && c != '?' {
                    return false;
                }
                if c != '?' {
                    prev_word = false;
                }
            }
        }
    }
    true
}

/// metavariable at position i: returns (name, kind, tokens used)
fn meta(p: &[TokenTree], i: usize) -> Option<(String, String, usize)> {
    if let (Some(TokenTree::Punct(d)), Some(TokenTree::Ident(n))) = (p.get(i), p.get(i + 1)) {
        if d.as_char() == '$' {
            if let (Some(TokenTree::Punct(c)), Some(TokenTree::Ident(k))) = (p.get(i + 2), p.get(i + 3)) {
                let ks = k.to_string();
                if c.as_char() == ':' && (ks == "ident" || ks == "tt" || ks == "any" || ks == "rest") {
                    return Some((n.to_string(), ks, 4));
                }
            }
            return Some((n.to_string(), String::new(), 2));
        }
    }
    None
}

fn match_seq(p: &[TokenTree], t: &[TokenTree], b: &mut Bind, chain: bool, anch: bool) -> Option<usize> {
    if p.is_empty() {
        if anch && !t.is_empty() {
            return None;
        }
        return Some(0);
    }
    if let Some((name, kind, used)) = meta(p, 0) {
        let rest = &p[used..];
        let max = match kind.as_str() {
            "ident" | "tt" => 1,
            _ => t.len(),
        };
        let min = if kind == "any" || kind == "rest" { 0 } else { 1 };
        if kind == "rest" {
            let cap = t.to_vec();
            b.insert(name, cap);
            return Some(t.len());
        }
        for n in min..=max {
            if n > t.len() {
                break;
            }
            let cap = &t[..n];
            if kind == "ident" && !matches!(cap[0], TokenTree::Ident(_)) {
                return None;
            }
            if kind.is_empty() && chain && !in_chain(cap) {
                return None;
            }
            if kind.is_empty()
                && !chain
                && cap
                    .last()
                    .map_or(false, |x| matches!(x, TokenTree::Punct(p) if p.as_char() == ';'))
            {
                return None;
            }
            if let Some(old) = b.get(&name) {
                if print(old, &BTreeMap::new()) != print(cap, &BTreeMap::new()) {
                    continue;
                }
            }
            let mut b2 = b.clone();
            b2.insert(name.clone(), cap.to_vec());
            if let Some(m) = match_seq(rest, &t[n..], &mut b2, false, anch) {
                *b = b2;
                return Some(n + m);
            }
        }
        return None;
    }
    let x = t.first()?;
    let ok = match (&p[0], x) {
        (TokenTree::Ident(a), TokenTree::Ident(c)) => a == c,
        (TokenTree::Punct(a), TokenTree::Punct(c)) => a.as_char() == c.as_char(),
        (TokenTree::Literal(a), TokenTree::Literal(c)) => a.to_string() == c.to_string(),
        (TokenTree::Group(a), TokenTree::Group(c)) => {
            if a.delimiter() != c.delimiter() {
                false
            } else {
                let pa: Vec<TokenTree> = a.stream().into_iter().collect();
                let ta: Vec<TokenTree> = c.stream().into_iter().collect();
                match match_seq(&pa, &ta, b, false, true) {
                    Some(n) => n == ta.len(),
                    None => false,
                }
            }
        }
        _ => false,
    };
    if !ok {
        return None;
    }
    match_seq(&p[1..], &t[1..], b, false, anch).map(|n| n + 1)
}

fn subst(rep: &[TokenTree], b: &Bind) -> Vec<TokenTree> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < rep.len() {
        if let Some((name, _, used)) = meta(rep, i) {
            if let Some(v) = b.get(&name) {
                out.extend(v.iter().cloned());
                i += used;
                continue;
            }
        }
        match &rep[i] {
            TokenTree::Group(g) => {
                let inner = subst(&g.stream().into_iter().collect::<Vec<_>>(), b);
                out.push(TokenTree::Group(Group::new(g.delimiter(), inner.into_iter().collect())));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out
}

// ---------------------------------------------------------------- printing

fn print(tt: &[TokenTree], sections: &BTreeMap<String, String>) -> String {
    let mut s = String::new();
    pr(tt, sections, &mut s);
    s
}

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?'))
        .collect();
    String::from_utf8(b).unwrap_or_default()
}

fn pr(tt: &[TokenTree], sections: &BTreeMap<String, String>, s: &mut String) {
    let mut i = 0;
    while i < tt.len() {
        match &tt[i] {
            TokenTree::Ident(id) => {
                let t = id.to_string();
                if let Some(k) = t.strip_prefix("__vx_it_") {
                    // `__vx_it_k(expr)` -> `vx_itk: expr`
                    if let Some(TokenTree::Group(g)) = tt.get(i + 1) {
                        let _ = write!(s, "vx_it{}: ", k);
                        pr(&g.stream().into_iter().collect::<Vec<_>>(), sections, s);
                        i += 2;
                        continue;
                    }
                }
                if let Some(k) = t.strip_prefix("__vx_looptail_") {
                    if let Some(x) = sections.get(&format!("looptail {}", k)) {
                        s.push('\n');
                        s.push_str(x);
                    }
                    i += 2; // and the `;`
                    continue;
                }
                if let Some(k) = t.strip_prefix("__vx_loop_") {
                    if let Some(x) = sections.get(&format!("loophead {}", k)) {
                        s.push('\n');
                        s.push_str(x);
                    }
                    i += 2;
                    continue;
                }
                if let Some(k) = t.strip_prefix("__vx_at_") {
                    if let Some(x) = sections.get(&unhex(k)) {
                        s.push('\n');
                        s.push_str(x);
                    }
                    i += 2;
                    continue;
                }
                s.push_str(&t);
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                let _ = write!(s, "{} ", l);
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                let joint = p.spacing() == proc_macro2::Spacing::Joint;
                if p.as_char() == ';' {
                    s.push('\n');
                } else if !joint {
                    s.push(' ');
                }
            }
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match g.delimiter() {
                    Delimiter::Brace => {
                        // loop contract goes before the brace
                        if let Some(TokenTree::Ident(id)) = inner.first() {
                            let t = id.to_string();
                            if let Some(k) = t.strip_prefix("__vx_loop_") {
                                if let Some(x) = sections.get(&format!("loop {}", k)) {
                                    s.push('\n');
                                    s.push_str(x);
                                }
                            }
                        }
                        s.push_str("{\n");
                        pr(&inner, sections, s);
                        s.push_str("\n} ");
                    }
                    Delimiter::Parenthesis => {
                        trim_sp(s);
                        s.push('(');
                        pr(&inner, sections, s);
                        trim_sp(s);
                        s.push_str(") ");
                    }
                    Delimiter::Bracket => {
                        s.push('[');
                        pr(&inner, sections, s);
                        s.push_str("] ");
                    }
                    Delimiter::None => pr(&inner, sections, s),
                }
            }
        }
        if let TokenTree::Punct(p) = &tt[i] {
            if p.as_char() == ',' && s.len() - s.rfind('\n').unwrap_or(0) > 90 {
                s.push('\n');
            }
        }
        i += 1;
    }
}

fn trim_sp(_s: &mut String) {}
