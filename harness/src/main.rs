//! Bounded stand-ins and replay for the contract proofs: every property has a
//! generator of inputs and an oracle that shares no code with /repo.
//!
//!   vh run <ID> --seed S --tier quick|thorough --secs N --out DIR [--known FILE]
//!   vh case <ID> --seed S --index I          (replay one case)
#![allow(dead_code)]
mod checks;
mod core;
mod gen;
mod rgen;
mod rng;
mod texts;
mod util;

use checks::{Bad, Check};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::js;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn one(check: &'static Check, seed: u64, i: u64) -> checks::Res {
    let i2 = i;
    match catch_unwind(AssertUnwindSafe(|| (check.case)(seed, i2))) {
        Ok(r) => r,
        Err(e) => Err(Bad {
            input: util::last_input(),
            expected: "no panic".into(),
            got: format!("panic: {}", util::panic_text(&e)),
            what: "the code under test panicked".into(),
            key: String::new(),
        }),
    }
}

fn bad_json(check: &Check, seed: u64, i: i64, b: &Bad) -> String {
    format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"index\": {},\n \"what\": {},\n \"input\": {},\n \"expected\": {},\n \"got\": {},\n \"key\": {}\n}}\n",
        js(check.id), seed, i, js(&b.what), js(&b.input), js(&b.expected), js(&b.got), js(&b.key)
    )
}

fn main() {
    util::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).cloned().unwrap_or_default();
    let id = a.get(2).cloned().unwrap_or_default();
    let Some(check) = checks::CHECKS.iter().find(|c| c.id == id) else {
        eprintln!("unknown check {}", id);
        std::process::exit(2);
    };
    let seed: u64 = arg("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    if mode == "case" {
        let i: u64 = arg("--index").and_then(|x| x.parse().ok()).unwrap_or(0);
        let th = std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || match one(check, seed, i) {
                Ok(c) => {
                    println!("ok\n{}", c.input);
                    0
                }
                Err(b) => {
                    println!("{}", bad_json(check, seed, i as i64, &b));
                    1
                }
            })
            .unwrap();
        std::process::exit(th.join().unwrap_or(3));
    }
    let tier = arg("--tier").unwrap_or("quick".into());
    let secs: u64 = arg("--secs").and_then(|x| x.parse().ok()).unwrap_or(60);
    let out = arg("--out").unwrap_or("/tmp".into());
    let known: HashSet<String> = arg("--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|t| t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect())
        .unwrap_or_default();
    let n = if tier == "thorough" { check.thorough } else { check.quick };
    let n: u64 = arg("--n").and_then(|x| x.parse().ok()).unwrap_or(n);
    let start = Instant::now();
    let threads = 8u64.min(n.max(1));
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let state = Arc::new(Mutex::new((
        0u64,                             // evaluations
        HashSet::<u64>::new(),            // distinct non-trivial
        Vec::<String>::new(),             // samples
        BTreeMap::<&'static str, u64>::new(), // tags
        Vec::<(i64, Bad)>::new(),         // violations
        Vec::<Bad>::new(),                // known
    )));
    // fixed probes first (fixed and known findings, boundary inputs)
    {
        let count = (check.probes)().len();
        let turn = Arc::new(AtomicU64::new(0));
        let mut ths = vec![];
        for _ in 0..8.min(count) {
            let (known, state2, turn) = (known.clone(), state.clone(), turn.clone());
            let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
                let probes = (check.probes)();
                loop {
                    let k = turn.fetch_add(1, Ordering::SeqCst) as usize;
                    if k >= probes.len() {
                        break;
                    }
                    let p = &probes[k];
                    let r = catch_unwind(AssertUnwindSafe(|| p.run()));
                    let r = match r {
                        Ok(r) => r,
                        Err(e) => Err(Bad {
                            input: p.name().to_string(),
                            expected: "no panic".into(),
                            got: format!("panic: {}", util::panic_text(&e)),
                            what: "the code under test panicked on a fixed probe".into(),
                            key: String::new(),
                        }),
                    };
                    let mut s = state2.lock().unwrap();
                    s.0 += 1;
                    if let Err(mut b) = r {
                        b.key = p.name().to_string();
                        if known.contains(&b.key) {
                            s.5.push(b);
                        } else {
                            s.4.push((-(k as i64) - 1, b));
                        }
                    }
                }
            });
            ths.push(th.unwrap());
        }
        for th in ths {
            let _ = th.join();
        }
    }
    let mut handles = vec![];
    let curs: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    for t in 0..threads {
        let (stop, next, state, curs, known) = (stop.clone(), next.clone(), state.clone(), curs.clone(), known.clone());
        let out = out.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let path = format!("{}/cur.{}", out, t);
                    let f = std::fs::File::create(&path).ok();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || start.elapsed() > Duration::from_secs(secs) {
                            break;
                        }
                        if let Some(f) = &f {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_all_at(&i.to_le_bytes(), 0);
                        }
                        curs[t as usize].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        curs[t as usize].0.store(i, Ordering::Relaxed);
                        let r = one(check, seed, i);
                        curs[t as usize].0.store(u64::MAX, Ordering::Relaxed);
                        let mut s = state.lock().unwrap();
                        s.0 += 1;
                        match r {
                            Ok(c) => {
                                for tag in c.tags {
                                    *s.3.entry(tag).or_insert(0) += 1;
                                }
                                if c.nontrivial {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    c.input.hash(&mut h);
                                    s.1.insert(h.finish());
                                    if s.2.len() < 3 && c.input.len() < 1500 {
                                        s.2.push(c.input);
                                    }
                                }
                            }
                            Err(b) => {
                                if !b.key.is_empty() && known.contains(&b.key) {
                                    s.5.push(b);
                                } else {
                                    s.4.push((i as i64, b));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    let _ = std::fs::remove_file(&path);
                })
                .unwrap(),
        );
    }
    // watchdog: a case that runs for two minutes is a hang
    {
        let curs = curs.clone();
        let state = state.clone();
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = start.elapsed().as_millis() as u64;
            for c in curs.iter() {
                let i = c.0.load(Ordering::Relaxed);
                if i != u64::MAX && now.saturating_sub(c.1.load(Ordering::Relaxed)) > 120_000 {
                    let b = Bad {
                        input: format!("case {} of seed {}", i, seed),
                        expected: "an answer".into(),
                        got: "no answer within 120 s".into(),
                        what: "the code under test does not terminate".into(),
                        key: String::new(),
                    };
                    let _ = std::fs::write(format!("{}/violation.json", out), bad_json(check, seed, i as i64, &b));
                    let s = state.lock().unwrap();
                    println!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [], \"tags\": {{}}, \"known\": [], \"violations\": 1, \"wall\": {:.2}}}", s.0, s.1.len(), start.elapsed().as_secs_f64());
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
            }
        });
    }
    for h in handles {
        let _ = h.join();
    }
    let s = state.lock().unwrap();
    let mut viol: Vec<&(i64, Bad)> = s.4.iter().collect();
    viol.sort_by_key(|x| (x.1.input.len(), x.0));
    if let Some((i, b)) = viol.first() {
        let _ = std::fs::write(format!("{}/violation.json", out), bad_json(check, seed, *i, b));
    }
    let samples: Vec<String> = s.2.iter().map(|x| js(x)).collect();
    let tags: Vec<String> = s.3.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let known: Vec<String> = s.5.iter().map(|b| format!("[{}, {}]", js(&b.key), js(&b.got))).collect();
    println!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"tags\": {{{}}}, \"known\": [{}], \"violations\": {}, \"rule\": {}, \"wall\": {:.2}}}",
        s.0, s.1.len(), samples.join(", "), tags.join(", "), known.join(", "), s.4.len(), js(check.rule), start.elapsed().as_secs_f64()
    );
    std::process::exit(if s.4.is_empty() { 0 } else { 1 });
}
