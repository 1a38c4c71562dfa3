// ---- programs: the definitions in order, each seeing the ones before it
//@ type ticc-core/src/ir.rs ValueDef
/// `ir::Program`; only the definitions matter for running it
pub struct Program { pub defs: Vec<ValueDef> }
//@ rule Program < '_ > ==> Program
pub ghost enum PEnv { Env(SEnv), Trap(Seq<char>) }
pub open spec fn prog(ds: Seq<ValueDef>, n: nat) -> PEnv decreases n {
    if n == 0 || n > ds.len() { PEnv::Env(Map::empty()) } else {
        match prog(ds, (n - 1) as nat) {
            PEnv::Trap(t) => PEnv::Trap(t),
            PEnv::Env(e) => match sem(e, ds[n - 1].value) {
                SRes::Trap(t) => PEnv::Trap(t),
                SRes::Val(v) => PEnv::Env(e.insert(ds[n - 1].name, v)),
            },
        }
    }
}
proof fn prog_trap(ds: Seq<ValueDef>, n: nat, m: nat)
    requires n <= m <= ds.len(), prog(ds, n) is Trap,
    ensures prog(ds, m) == prog(ds, n),
    decreases m,
{
    if m > n { prog_trap(ds, n, (m - 1) as nat); }
}
/// what a run gives: the values of the expressions, or the first trap
pub open spec fn ran(ds: Seq<ValueDef>, es: Seq<Expr>, r: Result<Vec<Value>, Trap>) -> bool {
    match (prog(ds, ds.len()), r) {
        (PEnv::Trap(t), Err(m)) => m.message@ == t,
        (PEnv::Env(e), Ok(vs)) => vs@.len() == es.len() && forall|k: int| 0 <= k < es.len() ==> sem(e, #[trigger] es[k]) == SRes::Val(sval(vs@[k])),
        (PEnv::Env(e), Err(m)) => exists|k: int| 0 <= k < es.len() && sem(e, #[trigger] es[k]) == SRes::Trap(m.message@)
            && forall|j: int| 0 <= j < k ==> sem(e, #[trigger] es[j]) is Val,
        _ => false,
    }
}
