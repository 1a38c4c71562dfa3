//! The language server, compiled from /repo's own source as a library: the text
//! of main.rs is included unchanged, and its private entry point re-exported.
#![allow(warnings)]
/// the server's log is not kept
macro_rules! eprintln { ($($t:tt)*) => {{ let _ = format_args!($($t)*); }} }
include!("/repo/ticc-lsp/src/main.rs");

pub fn vx_run(conn: lsp_server::Connection, read: std::sync::Arc<dyn Fn(&std::path::Path) -> std::result::Result<String, std::io::Error> + Send + Sync>) {
    run(conn, read)
}
pub fn vx_semantic_tokens(u: &mut ticc::CompilationUnit) -> Vec<lsp_types::SemanticToken> {
    semantic_tokens::get_semantic_tokens(u)
}
pub fn vx_legend() -> Vec<&'static str> {
    semantic_tokens::DEFINED_TYPES.to_vec()
}
pub struct Tr<'a>(utils::LocationTranslator<'a>);
impl<'a> Tr<'a> {
    pub fn new(s: &'a str) -> Self {
        Tr(utils::LocationTranslator::for_source(s))
    }
    pub fn to_lsp(&mut self, offset: u32) -> (u32, u32) {
        let p = self.0.to_lsp(ticc::Pos::new(offset));
        (p.line, p.character)
    }
    pub fn to_ticc(&mut self, line: u32, character: u32) -> usize {
        self.0.to_ticc(lsp_types::Position { line, character }).source_pos()
    }
}
#[cfg(feature = "answers")]
mod answers {
    use crate::*;
    pub type At = (u32, u32);
    fn at(a: At) -> lsp_types::Position {
        lsp_types::Position { line: a.0, character: a.1 }
    }
    fn range(r: lsp_types::Range) -> (At, At) {
        ((r.start.line, r.start.character), (r.end.line, r.end.character))
    }
    /// what the server answers for a position, and what it reports
    pub fn vx_definition(u: &mut ticc::CompilationUnit, a: At) -> Option<(At, At)> {
        go_to_definition::find_definition(u, at(a)).map(range)
    }
    pub fn vx_references(u: &mut ticc::CompilationUnit, a: At) -> Option<Vec<(At, At)>> {
        find_references::find_references(u, at(a)).map(|v| v.into_iter().map(range).collect())
    }
    pub fn vx_hover(u: &mut ticc::CompilationUnit, a: At) -> Option<(Option<(At, At)>, String)> {
        hover::hover(u, at(a)).map(|h| (h.range.map(range), match h.contents {
            lsp_types::HoverContents::Scalar(lsp_types::MarkedString::String(s)) => s,
            x => format!("{:?}", x),
        }))
    }
    pub fn vx_completions(u: &mut ticc::CompilationUnit, a: At) -> Option<Vec<String>> {
        completions::completions(u, at(a)).map(|c| match c {
            lsp_types::CompletionResponse::Array(v) => v.into_iter().map(|c| c.label).collect(),
            lsp_types::CompletionResponse::List(l) => l.items.into_iter().map(|c| c.label).collect(),
        })
    }
    pub fn vx_diagnostics(u: &mut ticc::CompilationUnit) -> Vec<((At, At), bool, String)> {
        diagnostics::get_diagnostics(u).into_iter().map(|d| (range(d.range), d.severity == Some(lsp_types::DiagnosticSeverity::Error), d.message)).collect()
    }
}
#[cfg(feature = "answers")]
pub use answers::*;
