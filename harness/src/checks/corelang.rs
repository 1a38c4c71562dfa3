//! C06: the validator of the core language.
use super::{bad, Case, Check, Probe, Res};
use crate::core::{self, E, T};
use crate::rng::Rng;
use crate::util;

pub const C06: Check = Check {
    id: "C06",
    quick: 600_000,
    thorough: 1_500_000,
    rule: "random core programs that are well typed by construction (polymorphic functions and arguments, data types, all forms of \
           expressions), as they are and with one to three random changes, against an independent typing judgement (de Bruijn types); \
           non-trivial: the program binds at least three names; tags: accepted, rejected",
    case: c06,
    probes: c06_probes,
};
fn show(p: &core::Prog, v: &[(E, T)]) -> String {
    format!("{:?}\nvalues {:?}", p, v)
}
fn judge(p: &core::Prog, v: &[(E, T)]) -> (Result<(), String>, Result<(), String>) {
    let want = core::well_typed(p, v);
    let (prog, c) = core::convert(p);
    let vs: Vec<_> = v.iter().map(|(e, t)| (c.e(e), c.ty(t))).collect();
    let got = util::catch(|| if vs.is_empty() { ticc_core::assert_valid(&prog) } else { ticc_core::assert_valid_with_values(&prog, &vs) });
    (want, got)
}
fn c06(seed: u64, i: u64) -> Res {
    let mut r = Rng::new(seed.wrapping_add(i.wrapping_mul(104729)), "C06");
    let (mut p, mut v) = core::Gen::new(r.clone()).program();
    let n = [0, 1, 1, 2, 3][r.below(5)];
    for _ in 0..n {
        core::mutate(&mut p, &mut v, &mut r);
    }
    let input = show(&p, &v);
    util::note_input(&input);
    let (want, got) = judge(&p, &v);
    if n == 0 && want.is_err() {
        panic!("harness: generated program is ill-typed: {:?}\n{}", want, input);
    }
    match (&want, &got) {
        (Err(w), Ok(())) => return Err(bad(&input, "an ill-typed program is accepted", format!("rejected: {}", w), "accepted")),
        (Ok(()), Err(g)) => return Err(bad(&input, "a well-typed program is rejected", "accepted", g.clone())),
        _ => {}
    }
    if let Err(w) = &want {
        if w.starts_with("CAPTURE") {
            return Err(bad(&input, "substitution would capture a variable", "no variable is captured", w.clone()));
        }
    }
    Ok(Case { input, nontrivial: core::all_binders(&p).names.len() >= 3, tags: vec![if want.is_ok() { "accepted" } else { "rejected" }] })
}
fn c06_probes() -> Vec<Probe> {
    let probe = |name: &'static str, p: core::Prog, v: Vec<(E, T)>, ok: bool| {
        Probe::new(name, move || {
            let (want, got) = judge(&p, &v);
            if want.is_ok() != ok || got.is_ok() != ok {
                return Err(bad(&show(&p, &v), name, if ok { "accepted" } else { "rejected" }, format!("{:?}", got)));
            }
            Ok(())
        })
    };
    let var = |v| T::Var(v);
    let f = |a, b| T::Fn(vec![a], Box::new(b));
    let all = |v, t| T::All(v, Box::new(t));
    let prog = |types: Vec<core::Ty>, value: E, ty: T| core::Prog { limit: 6, debug: vec!["a"; 6], types, defs: vec![core::Def { name: 5, export: None, ty, value }] };
    let pair = core::Ty { name: 0, vars: vec![0, 1], cases: vec![(1, vec![var(0), var(1)])] };
    // Pi t. \(x: t) -> trap: P t (for w. t), at for v. v -> int
    let dup = |with: T| E::Call(
        Box::new(E::Inst(
            Box::new(E::Pi(2, Box::new(E::Lam(vec![(2, var(2))], Box::new(E::Trap("".into(), T::Named(0, vec![var(2), all(3, var(2))]))))))),
            with.clone(),
        )),
        vec![E::Trap("".into(), match with { T::All(_, b) => { let b = core::subst(&b, 4, &var(5)); all(5, b) } t => t })],
    );
    let one = |v: usize| all(v, f(var(v), T::Int));
    vec![
        probe("a free type variable as a type argument", prog(vec![], E::Call(Box::new(E::Inst(Box::new(E::Pi(0, Box::new(E::Lam(vec![], Box::new(E::Int(1)))))), var(1))), vec![]), T::Int), vec![], false),
        probe("an unknown type as an argument of a constructor", prog(vec![core::Ty { name: 0, vars: vec![0], cases: vec![(1, vec![])] }], E::Con(1, vec![T::Named(3, vec![])], vec![]), T::Named(0, vec![T::Named(3, vec![])])), vec![], false),
        probe(
            "bound variables of one part of a type in another",
            prog(vec![pair.clone()], E::Int(1), T::Int),
            vec![(dup(one(4)), T::Named(0, vec![all(6, f(var(6), T::Int)), all(6, all(7, f(var(6), T::Int)))]))],
            false,
        ),
        probe(
            "the same type with other bound variables",
            prog(vec![pair], E::Int(1), T::Int),
            vec![(dup(one(4)), T::Named(0, vec![all(6, f(var(6), T::Int)), all(6, all(7, f(var(7), T::Int)))]))],
            true,
        ),
    ]
}
