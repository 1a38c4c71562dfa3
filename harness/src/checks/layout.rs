//! C20: what the formatter makes of a sequence of tokens, line breaks and nodes.
use super::{bad, Case, Check, Probe, Res};
use crate::rng::Rng;
use crate::util;
use formatter::{FormatBuilder, Node, Sticky};

pub const C20: Check = Check {
    id: "C20",
    quick: 6_000_000,
    thorough: 10_000_000,
    rule: "random sequences of formatter calls (tokens of all stickiness and contents, line breaks of both kinds, nested nodes, nodes left \
           open or finished too often); non-trivial: at least three tokens and a line break after a token; tags: large, nested",
    case: c20,
    probes: || Vec::<Probe>::new(),
};
#[derive(Clone, Copy, Debug, PartialEq)]
enum S { Both, Prev, Next, None }
#[derive(Clone, Debug)]
enum C { Tok(String, S, bool), NL, Large, Ws(String), Open(bool, bool), Close }
#[derive(Debug)]
enum It { Tok(String, S), NL }
/// the items of the calls from `at` on, up to the end of the node; whether the node is large
fn items(calls: &[C], at: &mut usize, root: bool, out: &mut Vec<Result<It, usize>>, asked: bool, ids: &mut Vec<bool>) {
    let id = ids.len();
    ids.push(asked);
    while *at < calls.len() {
        let c = &calls[*at];
        *at += 1;
        match c {
            C::Tok(t, s, _) => out.push(Ok(It::Tok(t.clone(), *s))),
            C::NL => out.push(Ok(It::NL)),
            C::Ws(w) => {
                if w.contains('\n') {
                    out.push(Ok(It::NL));
                }
            }
            C::Large => out.push(Err(id)),
            C::Open(l, _) => {
                let kid = ids.len();
                items(calls, at, false, out, *l, ids);
                if ids[kid] {
                    ids[id] = true;
                }
            }
            C::Close if root => {}
            C::Close => return,
        }
    }
}
fn expected(calls: &[C]) -> (Vec<It>, bool) {
    let (mut out, mut ids) = (vec![], vec![]);
    items(calls, &mut 0, true, &mut out, false, &mut ids);
    let large = ids.iter().any(|&l| l);
    (out.into_iter().filter_map(|x| match x { Ok(i) => Some(i), Err(id) => if ids[id] { Some(It::NL) } else { None } }).collect(), large)
}
fn follows(its: &[It], rest: &str, last: Option<S>, broken: bool) -> Result<(), String> {
    let Some(i) = its.first() else {
        return if rest.is_empty() { Ok(()) } else { Err(format!("more text {:?}", rest)) };
    };
    match i {
        It::NL => {
            if last.is_some() && !broken {
                let rest = rest.strip_prefix('\n').ok_or_else(|| format!("no line break before {:?}", rest))?;
                return follows(&its[1..], rest, last, true);
            }
            follows(&its[1..], rest, last, broken)
        }
        It::Tok(t, s) => {
            if broken {
                // any number of steps of indentation
                let all = rest.len() - rest.trim_start_matches(' ').len();
                let mut res = Err(String::new());
                for k in (0..=all).step_by(4) {
                    res = match rest[k..].strip_prefix(t.as_str()) {
                        Some(more) => follows(&its[1..], more, Some(*s), false),
                        None => Err(format!("not {:?} at {:?}", t, rest)),
                    };
                    if res.is_ok() {
                        break;
                    }
                }
                return res;
            }
            let mut rest = rest;
            if let Some(l) = last {
                if !(matches!(l, S::Both | S::Next) || matches!(s, S::Both | S::Prev)) {
                    rest = rest.strip_prefix(' ').ok_or_else(|| format!("no space before {:?}", rest))?;
                }
            }
            let rest = rest.strip_prefix(t.as_str()).ok_or_else(|| format!("not {:?} at {:?}", t, rest))?;
            follows(&its[1..], rest, Some(*s), false)
        }
    }
}
fn gen(r: &mut Rng) -> Vec<C> {
    let n = 1 + r.below(24);
    let mut depth = 0usize;
    let mut v = vec![];
    for _ in 0..n {
        v.push(match r.below(12) {
            0..=4 => {
                let t = ["a", "b1", "(", ")", ",", "", "x y", "é→", "\"s\"", "+", "let"][r.below(11)];
                let s = [S::None, S::None, S::Both, S::Prev, S::Next][r.below(5)];
                C::Tok(t.into(), s, s == S::None && r.chance(2, 3))
            }
            5 => C::NL,
            6 => C::Large,
            7 => C::Ws([" ", "\n", " \n ", "\t", ""][r.below(5)].into()),
            8 | 9 => { depth += 1; C::Open(r.chance(1, 4), r.chance(2, 3)) }
            _ => {
                if depth > 0 || r.chance(1, 8) { depth = depth.saturating_sub(1); C::Close } else { C::NL }
            }
        });
    }
    if r.chance(3, 4) {
        for _ in 0..depth { v.push(C::Close); }
    }
    v
}
fn run(calls: &[C]) -> String {
    let mut b = FormatBuilder::new();
    for c in calls {
        match c {
            C::Tok(t, _, true) => b.add_token(t),
            C::Tok(t, s, false) => b.add_sticky_token(t, match s { S::Both => Sticky::Both, S::Prev => Sticky::Prev, S::Next => Sticky::Next, S::None => Sticky::None }),
            C::NL => b.add_newline(),
            C::Large => b.add_large_newline(),
            C::Ws(w) => b.add_whitespace(w),
            C::Open(l, i) => b.start_node(Node { large: *l, indents: *i }),
            C::Close => b.finish_node(),
        }
    }
    b.finish()
}
fn c20(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(104729)), "C20");
    let calls = gen(&mut r);
    let input = format!("{:?}", calls);
    util::note_input(&input);
    let (its, large) = expected(&calls);
    let out = util::catch(|| run(&calls)).map_err(|e| bad(&input, "the formatter panics", "text", e))?;
    if let Err(e) = follows(&its, &out, None, false) {
        return Err(bad(&input, "the formatter's text is not the tokens it was given", format!("{:?}", its), format!("{:?}: {}", out, e)));
    }
    let toks = its.iter().filter(|x| matches!(x, It::Tok(..))).count();
    let mut tags = vec![];
    if large { tags.push("large"); }
    if calls.iter().any(|c| matches!(c, C::Open(..))) { tags.push("nested"); }
    Ok(Case { input, nontrivial: toks >= 3 && out.trim_end_matches('\n').contains('\n'), tags })
}
