mod accept;
mod corelang;
mod eval;
mod front;
mod heap;
mod layout;
mod hover;
mod lits;
#[cfg(feature = "lsp")]
mod history;
#[cfg(feature = "lsp")]
mod lsp;
mod names;
mod print;
mod queries;

pub struct Case {
    pub input: String,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}
#[derive(Debug)]
pub struct Bad {
    pub input: String,
    pub expected: String,
    pub got: String,
    pub what: String,
    pub key: String,
}
pub type Res = Result<Case, Bad>;

pub struct Probe {
    name: String,
    f: Box<dyn Fn() -> Result<(), Bad>>,
}
impl Probe {
    pub fn new(name: &str, f: impl Fn() -> Result<(), Bad> + 'static) -> Probe {
        Probe { name: name.into(), f: Box::new(f) }
    }
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn run(&self) -> Result<(), Bad> {
        (self.f)()
    }
}

pub struct Check {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: fn(u64, u64) -> Res,
    pub probes: fn() -> Vec<Probe>,
}

pub fn no_probes() -> Vec<Probe> {
    vec![]
}

pub fn bad(input: &str, what: &str, expected: impl Into<String>, got: impl Into<String>) -> Bad {
    Bad { input: input.into(), what: what.into(), expected: expected.into(), got: got.into(), key: String::new() }
}

pub static CHECKS: &[Check] = &[
    eval::C01,
    eval::C02,
    eval::C03,
    heap::C04,
    accept::C05,
    corelang::C06,
    print::C12,
    layout::C20,
    hover::C21,
    queries::C15, front::C07,
    lits::C08,
    lits::C09,
    #[cfg(feature = "lsp")]
    lsp::C13,
    #[cfg(feature = "lsp")]
    history::C16,
    #[cfg(feature = "lsp")]
    lsp::C14,
    names::C10,
    names::C11,
    names::C17,
    names::C18,
    names::C19,
];
