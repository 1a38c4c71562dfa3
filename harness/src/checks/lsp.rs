//! C13: position translation.  C14: semantic tokens.
use super::{bad, Bad, Case, Check, Probe, Res};
use crate::checks::names::{describe, modules, project};
use crate::rgen::{Bind, Class, Kind};
use crate::rng::Rng;
use crate::util;
use ticc::{CompilationUnit, NoopModuleResolver, Options};

pub const C13: Check = Check {
    id: "C13",
    quick: 60_000,
    thorough: 3_000_000,
    rule: "random texts of 0 to 60 characters (ASCII, two-, three- and four-byte characters, line feeds, carriage returns), every boundary and random \
           protocol positions asked in random order from one translator; one case in ten: a random project, what the server answers at random \
           positions (definition, references, hover, completion, diagnostics) against the compiler's own answers; non-trivial: at least two lines and a character outside ASCII",
    case: c13,
    probes: c13_probes,
};
pub const C14: Check = Check {
    id: "C14",
    quick: 12_000,
    thorough: 500_000,
    rule: "two thirds: random name-rich programs (rgen.rs) with non-ASCII comments and strings, tokens classified by the generator; one third: random \
           token soup with comments, decoded against the compiler's own token list; non-trivial: at least two lines of tokens",
    case: c14,
    probes: super::no_probes,
};

const CHARS: &[char] = &['a', 'b', ' ', '1', '\u{e9}', '\u{20ac}', '\u{1f600}', '\n', '\r', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{2028}', '\u{0}', '\t'];

fn text(r: &mut Rng) -> String {
    let n = r.below(61);
    let style = r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        s.push(match style {
            0 => *r.pick(CHARS),
            1 => *r.pick(&['a', '\n', 'b']),
            2 => *r.pick(&['\u{1f600}', '\u{e9}', 'x', '\n']),
            _ => {
                if r.chance(1, 6) {
                    '\n'
                } else {
                    *r.pick(CHARS)
                }
            }
        })
    }
    s
}
fn line_of(s: &str, off: usize) -> (u32, u32) {
    let before = &s.as_bytes()[..off];
    let line = before.iter().filter(|b| **b == b'\n').count();
    let start = before.iter().rposition(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0);
    let units: usize = s[start..off].chars().map(|c| if (c as u32) < 0x10000 { 1 } else { 2 }).sum();
    (line as u32, units as u32)
}
/// the offset of a protocol position: the last boundary on its line not after it
fn offset_of(s: &str, line: u32, ch: u32) -> usize {
    let mut starts = vec![0];
    for (i, b) in s.bytes().enumerate() {
        if b == b'\n' {
            starts.push(i + 1);
        }
    }
    if line as usize >= starts.len() {
        return s.len();
    }
    let st = starts[line as usize];
    let en = starts.get(line as usize + 1).map(|x| x - 1).unwrap_or(s.len());
    let mut units = 0u64;
    let mut at = st;
    for c in s[st..en].chars() {
        units += if (c as u32) < 0x10000 { 1 } else { 2 };
        if units > ch as u64 {
            return at;
        }
        at += c.len_utf8();
    }
    en
}
#[cfg(feature = "answers")]
/// the answers of the server are those of the compiler, positions translated
fn answers(seed: u64, i: u64) -> Res {
    let p = project("C13", seed, i);
    let text = describe(&p);
    util::note_input(&text);
    let src = &p.units.last().unwrap().src;
    let new = || CompilationUnit::new(src, Options { verify: false, optimize: false }, modules(&p));
    let (mut ours, mut theirs) = (new(), new());
    let mut r = Rng::new(seed ^ i, "answers");
    let span = |s: ticc::Span| (line_of(src, s.start().source_pos()), line_of(src, s.end().source_pos()));
    let mut some = 0;
    for _ in 0..12 {
        let l = r.below(src.matches('\n').count() + 2) as u32;
        let c = r.below(40) as u32;
        let o = offset_of(src, l, c);
        let pos = ticc::Pos::new(o as u32);
        let ask = |what: &str| format!("{} at line {} column {} (offset {})", what, l, c, o);
        let (what, want, got) = match r.below(4) {
            0 => ("definition", format!("{:?}", ours.find_definition(pos).map(span)), format!("{:?}", lspx::vx_definition(&mut theirs, (l, c)))),
            1 => ("references", format!("{:?}", ours.find_references(pos).map(|v| v.into_iter().map(span).collect::<Vec<_>>())), format!("{:?}", lspx::vx_references(&mut theirs, (l, c)))),
            2 => ("hover", format!("{:?}", ours.info(pos).map(|x| (Some(span(x.span)), x.doc))), format!("{:?}", lspx::vx_hover(&mut theirs, (l, c)))),
            _ => ("completion", format!("{:?}", ours.completions(pos).map(|v| v.into_iter().map(|x| x.name).collect::<Vec<_>>())), format!("{:?}", lspx::vx_completions(&mut theirs, (l, c)))),
        };
        if want != got {
            return Err(bad(&text, &ask(what), want, got));
        }
        some += (want != "None") as u32;
    }
    let want: Vec<_> = ours.diagnostics().map(|d| (span(d.span), d.severity == ticc::Severity::Error, d.message)).collect();
    let got = lspx::vx_diagnostics(&mut theirs);
    if want != got {
        return Err(bad(&text, "diagnostics", format!("{:?}", want), format!("{:?}", got)));
    }
    Ok(Case { nontrivial: some > 2 && !src.is_ascii(), input: text, tags: vec![] })
}
fn c13(seed: u64, i: u64) -> Res {
    #[cfg(feature = "answers")]
    if i % 10 == 9 {
        return answers(seed, i);
    }
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C13");
    let s = text(&mut r);
    util::note_input(&s);
    let mut shared = lspx::Tr::new(&s);
    let mut offs: Vec<usize> = (0..=s.len()).filter(|&o| s.is_char_boundary(o)).collect();
    for k in (1..offs.len()).rev() {
        let j = r.below(k + 1);
        offs.swap(k, j);
    }
    if r.chance(1, 2) {
        offs.truncate(8);
    }
    for o in offs {
        let want = line_of(&s, o);
        let got = shared.to_lsp(o as u32);
        if got != want {
            return Err(bad(&s, &format!("offset {} to line and column", o), format!("{:?}", want), format!("{:?}", got)));
        }
        let back = shared.to_ticc(got.0, got.1);
        if back != o {
            return Err(bad(&s, &format!("offset {} there and back", o), o.to_string(), back.to_string()));
        }
        let back = lspx::Tr::new(&s).to_ticc(got.0, got.1);
        if back != o {
            return Err(bad(&s, &format!("offset of {:?} from a fresh translator", got), o.to_string(), back.to_string()));
        }
        // any position
        let l = r.below(s.matches('\n').count() + 3) as u32;
        let c = *r.pick(&[0u32, 1, 2, 3, 5, 8, 13, 21, 60, u32::MAX]);
        let want = offset_of(&s, l, c);
        let a = if r.chance(1, 2) { shared.to_ticc(l, c) } else { lspx::Tr::new(&s).to_ticc(l, c) };
        if a != want {
            return Err(bad(&s, &format!("offset of line {} column {}", l, c), want.to_string(), a.to_string()));
        }
    }
    Ok(Case { nontrivial: s.contains('\n') && !s.is_ascii(), input: s, tags: vec![] })
}
fn c13_probes() -> Vec<Probe> {
    vec![Probe::new("column past the end of an inner line", || {
        let s = "012345678\n01234567";
        let g = lspx::Tr::new(s).to_ticc(0, 15);
        if g != 9 {
            return Err(bad(s, "line 0 column 15", "9", g.to_string()));
        }
        Ok(())
    })]
}

// ---- C14 -----------------------------------------------------------------------------

/// (line, column, length, kind)
type T = (u32, u32, u32, Option<&'static str>);

fn place(s: &str, a: usize, b: usize, k: Option<&'static str>) -> T {
    let p = line_of(s, a);
    let len: usize = s[a..b].chars().map(|c| if (c as u32) < 0x10000 { 1 } else { 2 }).sum();
    (p.0, p.1, len as u32, k)
}
fn decode(v: &[lsp_types::SemanticToken]) -> Vec<(u32, u32, u32, String)> {
    let legend = lspx::vx_legend();
    let (mut l, mut c) = (0u32, 0u32);
    v.iter()
        .map(|t| {
            if t.delta_line > 0 {
                l = l.wrapping_add(t.delta_line);
                c = t.delta_start;
            } else {
                c = c.wrapping_add(t.delta_start);
            }
            (l, c, t.length, legend.get(t.token_type as usize).map(|x| x.to_string()).unwrap_or(format!("index {}", t.token_type)) + if t.token_modifiers_bitset != 0 { " modified" } else { "" })
        })
        .collect()
}
fn compare(input: &str, want: &[T], got: &[(u32, u32, u32, String)]) -> Result<(), Bad> {
    let ok = want.len() == got.len() && want.iter().zip(got).all(|(w, g)| (w.0, w.1, w.2) == (g.0, g.1, g.2) && w.3.map(|k| k == g.3).unwrap_or(true));
    if !ok {
        let k = (0..want.len().max(got.len())).find(|&k| match (want.get(k), got.get(k)) {
            (Some(w), Some(g)) => (w.0, w.1, w.2) != (g.0, g.1, g.2) || w.3.map(|k| k != g.3).unwrap_or(false),
            _ => true,
        });
        let k = k.unwrap_or(0);
        return Err(bad(input, &format!("decoded token number {} (line, column, length, kind)", k), format!("{:?}", want.get(k)), format!("{:?}", got.get(k))));
    }
    Ok(())
}
fn c14(seed: u64, i: u64) -> Res {
    if i % 3 == 2 {
        return soup(seed, i);
    }
    let p = project("C14", seed, i);
    let text = describe(&p);
    util::note_input(&text);
    let m = p.units.last().unwrap();
    let mut u = CompilationUnit::new(&m.src, Options { verify: false, optimize: false }, modules(&p));
    let toks = lspx::vx_semantic_tokens(&mut u);
    let mut want: Vec<(usize, T)> = vec![];
    for (t, &(a, b)) in m.toks.iter().zip(&m.spans) {
        let id = match &t.bind {
            Bind::Def(ids) if ids.len() > 1 => None,
            Bind::Def(ids) => Some(Some(ids[0])),
            Bind::Use(id) => Some(m.first_def(*id).map(|_| *id)),
            _ => Some(None),
        };
        let kind = match t.class {
            Class::Keyword => Some("keyword"),
            Class::Punct => Some("punctuation"),
            Class::Op => Some("operator"),
            Class::Number => Some("number"),
            Class::Str => Some("string"),
            Class::Hole => Some("variable"),
            Class::Name => match id {
                None => None,
                Some(None) => Some("variable"),
                Some(Some(id)) => Some(match p.infos[id].kind {
                    Kind::Value => "variable",
                    Kind::Ctor { .. } | Kind::Type { .. } | Kind::Module => "type",
                    Kind::TyVar => "typeParameter",
                }),
            },
        };
        want.push((a, place(&m.src, a, b, kind)));
    }
    for &(a, b) in &m.comments {
        want.push((a, place(&m.src, a, b, Some("comment"))));
    }
    want.sort_by_key(|w| w.0);
    let want: Vec<T> = want.into_iter().map(|w| w.1).collect();
    compare(&text, &want, &decode(&toks))?;
    Ok(Case { nontrivial: m.src.contains('\n'), input: text, tags: vec!["program"] })
}
fn soup(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C14s");
    let mut s = String::new();
    for _ in 0..r.below(40) {
        s.push_str(*r.pick(&[
            "let", "x", " ", "\n", "=", "1", ";", "type", "T", "|", "(", ")", "\"\u{1f600}\"", "-- \u{20ac}\n", "\u{e9}", "\r\n", "match", "with", "end", "\\", "->", "?h", "\t", "@", "export", ":", "int", ".", "+",
        ]));
        if r.chance(1, 2) {
            s.push(' ');
        }
    }
    util::note_input(&s);
    let mut u = CompilationUnit::new(&s, Options { verify: false, optimize: false }, NoopModuleResolver::new());
    let own: Vec<(usize, usize, String)> = u.tokens().map(|t| (t.span.start().source_pos(), t.span.end().source_pos(), format!("{:?}", t.kind))).collect();
    let want: Vec<T> = own
        .iter()
        .map(|(a, b, k)| {
            let k = match k.as_str() {
                "Keyword" => "keyword",
                "Type" | "Ctor" => "type",
                "TypeVariable" => "typeParameter",
                "Value" => "variable",
                "Function" => "function",
                "Operator" => "operator",
                "Punctuation" => "punctuation",
                "Number" => "number",
                "String" => "string",
                "Comment" => "comment",
                _ => "?",
            };
            place(&s, *a, *b, Some(k))
        })
        .collect();
    let mut end = 0;
    for (a, b, _) in &own {
        if *a < end || b <= a {
            return Err(bad(&s, "tokens in order and without overlap", format!("a token after {}", end), format!("{}..{}", a, b)));
        }
        end = *b;
    }
    let toks = lspx::vx_semantic_tokens(&mut u);
    compare(&s, &want, &decode(&toks))?;
    Ok(Case { nontrivial: want.iter().any(|t| t.0 > 0), input: s, tags: vec!["soup"] })
}
