//! C04: garbage collection.
use super::{bad, Case, Check, Probe, Res};
use crate::rng::Rng;
use crate::util;
use super::eval::run_src;
use ticc::Runner;

pub const C04: Check = Check {
    id: "C04",
    quick: 30_000,
    thorough: 2_000_000,
    rule: "random histories of allocations, root changes and collections on the heap itself, compared with a plain graph after \
           every collection; every fourth case is a program whose live data outgrows the heap several times, run by the bytecode runner; \
           non-trivial: the history has a collection that drops an object",
    case: |s, i| if i % 4 == 0 { program(s, i) } else { history(s, i) },
    probes,
};

#[cfg(not(feature = "heap"))]
fn history(s: u64, i: u64) -> Res {
    program(s, i)
}

#[cfg(feature = "heap")]
fn history(seed: u64, i: u64) -> Res {
    use heapx::{Field, Machine, Obj};
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C04h");
    let mut log = String::new();
    let mut m = Machine::new();
    let steps = 20 + r.below(if i % 8 == 1 { 600 } else { 120 });
    let max_fields = *r.pick(&[2usize, 4, 9, 33, 64]);
    let max_bytes = *r.pick(&[8usize, 40, 300, 3000]);
    let keep = 2 + r.below(40);
    let mut dropped = false;
    let mut tags = vec![];
    let mut reachable_before = 0;
    for _ in 0..steps {
        let k = r.below(100);
        if k < 55 {
            // allocate, making room first the way the runner does
            let bytes_obj = r.chance(1, 4) || m.roots.is_empty() && r.chance(1, 3);
            let tag = if r.chance(1, 3) { r.next() } else { r.below(5) as u64 };
            let n = if bytes_obj {
                if r.chance(1, 8) { 0 } else { r.below(max_bytes + 1) }
            } else if r.chance(1, 10) {
                max_fields
            } else {
                r.below(max_fields + 1)
            };
            let mut shape = if bytes_obj { Obj::Bytes(tag, (0..n).map(|_| r.next() as u8).collect()) } else { Obj::Fields(tag, vec![Field::Int(0); n]) };
            let size = Machine::size(&shape);
            if m.free() < size {
                log.push_str(&format!("collect(room {})\n", size));
                util::note_input(&log);
                reachable_before = m.check().unwrap_or(0);
                let all = m.allocated();
                m.collect(Some(size as u32));
                dropped |= m.allocated() < all;
                if let Err(e) = m.check() {
                    return Err(bad(&log, "the heap after a collection", "the same graph", e));
                }
                if m.free() < size {
                    return Err(bad(&log, "room after a collection", format!("{} free bytes", size), format!("{}", m.free())));
                }
                tags.push("collect for room");
            }
            if let Obj::Fields(_, f) = &mut shape {
                for x in f.iter_mut() {
                    *x = if m.roots.is_empty() || r.chance(2, 5) {
                        // integers that look like addresses as well as others
                        Field::Int(if r.chance(1, 2) { 8 * r.below(400) as u64 } else { r.next() })
                    } else {
                        Field::Ref(r.below(m.roots.len()))
                    };
                }
            }
            log.push_str(&format!("alloc {:?}\n", shape));
            util::note_input(&log);
            match &shape {
                Obj::Bytes(t, b) => m.alloc_bytes(*t, b),
                Obj::Fields(t, f) => m.alloc_obj(*t, f),
            }
        } else if k < 70 && !m.roots.is_empty() {
            let i = r.below(m.roots.len());
            let f = r.below(max_fields);
            log.push_str(&format!("follow root {} field {}\n", i, f));
            util::note_input(&log);
            m.follow(i, f);
        } else if k < 76 && !m.roots.is_empty() {
            let i = r.below(m.roots.len());
            log.push_str(&format!("dup root {}\n", i));
            m.dup_root(i);
        } else if k < 94 && !m.roots.is_empty() {
            let i = r.below(m.roots.len());
            log.push_str(&format!("drop root {}\n", i));
            m.drop_root(i);
        } else {
            log.push_str("collect\n");
            util::note_input(&log);
            let all = m.allocated();
            let n = m.check().map_err(|e| bad(&log, "the heap between collections", "the graph that was built", e))?;
            m.collect(None);
            dropped |= m.allocated() < all;
            match m.check() {
                Err(e) => return Err(bad(&log, "the heap after a collection", "the same graph", e)),
                Ok(k) if k != n => return Err(bad(&log, "objects reachable after a collection", format!("{}", n), format!("{}", k))),
                _ => {}
            }
            if m.allocated() > all {
                return Err(bad(&log, "used memory after a collection", format!("at most {}", all), format!("{}", m.allocated())));
            }
            tags.push("collect");
        }
        while m.roots.len() > keep {
            let i = r.below(m.roots.len());
            log.push_str(&format!("drop root {}\n", i));
            m.drop_root(i);
        }
    }
    let _ = reachable_before;
    m.check().map_err(|e| bad(&log, "the heap at the end", "the graph that was built", e))?;
    Ok(Case { input: log, nontrivial: dropped, tags })
}

/// A list machine with many live values: built by folds, with a Rust mirror.
fn program(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(7919)), "C04p");
    let mut src = String::from(
        "import s from \"std/intrinsics\";\n\
         export type list a = Nil | Cons a rec;\n\
         export type box a = Box a;\n\
         export type tree = Leaf | Node rec int string rec;\n\
         export type pair a b = Pair a b;\n",
    );
    let nf = if r.chance(1, 4) { 64 } else { 1 + r.below(63) };
    // a wide constructor with integers and strings mixed
    let wide: Vec<bool> = (0..nf).map(|_| r.chance(1, 2)).collect();
    src.push_str(&format!("export type wide = W{};\n", wide.iter().map(|b| if *b { " string" } else { " int" }).collect::<String>()));
    let mut want = String::new();
    let big = r.chance(1, 4);
    let n = 1 + r.below(if big { 400 } else { 60 });
    let a = r.below(1000) as u64;
    let b = 1 + r.below(7) as u64;
    let pad: String = (0..r.below(30)).map(|k| (b'a' + (k % 26) as u8) as char).collect();
    // strings made one after another and kept in a list
    src.push_str(&format!(
        "let name : int -> string = \\i -> s.stringConcat \"{}\" (s.intToString (i * {} + {}));\n\
         let build : int -> list string = \\n -> match s.iterate n (\\p -> match p with | Pair i l -> Pair (i + 1) (Cons (name i) l) end) (Pair 0 Nil) with | Pair i l -> l end;\n\
         let total : list string -> int = \\fold l -> match l with | Nil -> 0 | Cons x r -> s.stringLength x + r end;\n\
         let last : list string -> string = \\fold l -> match l with | Nil -> \"\" | Cons x r -> if s.stringLength r == 0 then x else r end;\n",
        pad, b, a
    ));
    let nm = |k: u64| format!("{}{}", pad, k.wrapping_mul(b).wrapping_add(a));
    src.push_str(&format!("let l1 : list string = build {};\n", n));
    // garbage between
    let waste = 1 + r.below(300);
    src.push_str(&format!("export let waste : int = total (build {});\n", waste));
    want.push_str(&format!("waste = {}\n", (0..waste as u64).map(|k| nm(k).len()).sum::<usize>()));
    src.push_str("export let sum : int = total l1;\nexport let first : string = last l1;\n");
    want.push_str(&format!("sum = {}\n", (0..n as u64).map(|k| nm(k).len()).sum::<usize>()));
    want.push_str(&format!("first = \"{}\"\n", nm(0)));
    // a tree with sharing: every level uses the level below twice
    let d = r.below(8);
    src.push_str(&format!(
        "let grow : int -> tree = \\n -> s.iterate n (\\t -> Node t (n + 1) (s.stringConcat \"{}\" \"!\") t) Leaf;\n\
         let count : tree -> int = \\fold t -> match t with | Leaf -> 1 | Node x k n r -> x + r + k end;\n\
         export let leaves : int = count (grow {});\n",
        pad, d
    ));
    let mut c = 1u64;
    for _ in 0..d {
        c = 2 * c + (d as u64 + 1);
    }
    want.push_str(&format!("leaves = {}\n", c));
    // doubling strings
    let dbl = r.below(9);
    src.push_str(&format!("export let long : int = s.stringLength (s.iterate {} (\\x -> s.stringConcat x x) \"ab{}\");\n", dbl, pad));
    want.push_str(&format!("long = {}\n", (2 + pad.len()) << dbl));
    // closures that hold strings, kept in boxes
    let m = 1 + r.below(20);
    src.push_str(&format!(
        "let adders : int -> list (box (string -> string)) = \\n -> match s.iterate n (\\p -> match p with | Pair i l -> Pair (i + 1) (let k : string = name i; Cons (Box (\\x -> s.stringConcat k (s.stringConcat x k))) l) end) (Pair 0 Nil) with | Pair i l -> l end;\n\
         let app : list (box (string -> string)) -> string -> string = \\fold l -> \\x -> match l with | Nil -> x | Cons b r -> match b with | Box g -> g (r x) end end;\n\
         export let apps : string = app (adders {}) \"-\";\n",
        m
    ));
    let mut x = String::from("-");
    for k in 0..m as u64 {
        x = format!("{}{}{}", nm(k), x, nm(k));
    }
    want.push_str(&format!("apps = \"{}\"\n", x));
    // the wide value
    src.push_str(&format!(
        "export let w : wide = W{};\n",
        wide.iter().enumerate().map(|(k, st)| if *st { format!(" (name {})", k) } else { format!(" ({} + total l1)", k) }).collect::<String>()
    ));
    let sum: usize = (0..n as u64).map(|k| nm(k).len()).sum();
    want.push_str(&format!(
        "w = W{}\n",
        wide.iter().enumerate().map(|(k, st)| if *st { format!(" \"{}\"", nm(k as u64)) } else { format!(" {}", k + sum) }).collect::<String>()
    ));
    util::note_input(&src);
    let got = run_src(&src, Runner::Bytecode, i % 8 == 0);
    if got != Ok(want.clone()) {
        return Err(bad(&src, "bytecode runner", want, format!("{:?}", got)));
    }
    Ok(Case { input: src, nontrivial: true, tags: vec!["program"] })
}

fn probes() -> Vec<Probe> {
    vec![Probe::new("constructor with sixty-four fields", || {
        let f: String = (0..64).map(|k| if k % 2 == 0 { " string" } else { " int" }).collect();
        let v: String = (0..64).map(|k| if k % 2 == 0 { format!(" (s.intToString {})", k) } else { format!(" {}", k) }).collect();
        let w: String = (0..64).map(|k| if k % 2 == 0 { format!(" \"{}\"", k) } else { format!(" {}", k) }).collect();
        let src = format!("import s from \"std/intrinsics\";\nexport type t = C{};\nexport let x : t = C{};\n", f, v);
        let got = run_src(&src, Runner::Bytecode, false);
        let want = Ok(format!("x = C{}\n", w));
        if got != want {
            return Err(bad(&src, "bytecode runner", format!("{:?}", want), format!("{:?}", got)));
        }
        Ok(())
    })]
}
