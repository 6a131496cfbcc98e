//! Helpers shared by the language-service monitors: positions computed independently of the
//! tool, construction of services and a driver that issues every kind of request.
use lsp_types::*;
use serde_json::{json, Value};
use wat_service::LanguageService;

pub fn uri(i: usize) -> Uri {
    format!("untitled:doc-{i}.wat").parse().unwrap()
}
pub fn token_types() -> Vec<SemanticTokenType> {
    vec![
        SemanticTokenType::TYPE,
        SemanticTokenType::PARAMETER,
        SemanticTokenType::VARIABLE,
        SemanticTokenType::FUNCTION,
        SemanticTokenType::KEYWORD,
        SemanticTokenType::COMMENT,
        SemanticTokenType::STRING,
        SemanticTokenType::NUMBER,
        SemanticTokenType::OPERATOR,
    ]
}
pub fn init_params(types: Vec<SemanticTokenType>) -> InitializeParams {
    InitializeParams {
        capabilities: ClientCapabilities {
            text_document: Some(TextDocumentClientCapabilities {
                semantic_tokens: Some(SemanticTokensClientCapabilities { token_types: types, ..Default::default() }),
                ..Default::default()
            }),
            ..Default::default()
        },
        ..Default::default()
    }
}
pub fn service() -> LanguageService {
    let mut s = LanguageService::default();
    s.initialize(init_params(token_types()));
    s
}
pub fn opened(text: &str) -> LanguageService {
    let mut s = service();
    s.commit(uri(0), text.to_string());
    s
}

/// Line/column conversion by the LSP rules (UTF-16 columns), written without the tool's code.
pub struct Lines<'a> {
    pub text: &'a str,
    pub starts: Vec<usize>,
}
impl<'a> Lines<'a> {
    pub fn new(text: &'a str) -> Self {
        let mut starts = vec![0];
        starts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
        Lines { text, starts }
    }
    pub fn pos(&self, off: usize) -> Position {
        let line = self.starts.partition_point(|s| *s <= off) - 1;
        let col: usize = self.text[self.starts[line]..off].chars().map(char::len_utf16).sum();
        Position::new(line as u32, col as u32)
    }
    pub fn range(&self, a: usize, b: usize) -> Range {
        Range::new(self.pos(a), self.pos(b))
    }
    pub fn line_end(&self, line: usize) -> usize {
        match self.starts.get(line + 1) {
            Some(n) => {
                let e = n - 1;
                if e > self.starts[line] && self.text.as_bytes()[e - 1] == b'\r' {
                    e - 1
                } else {
                    e
                }
            }
            None => self.text.len(),
        }
    }
    /// Byte offset of a position; `None` when it does not denote a place in the text.
    pub fn off(&self, p: Position) -> Option<usize> {
        let line = p.line as usize;
        let st = *self.starts.get(line)?;
        // a token may contain the `\r` of a line end (escaped in a string): the column after it
        // is clamped to the line by clients
        let end = self.starts.get(line + 1).map_or(self.text.len(), |n| n - 1);
        let mut col = 0usize;
        for (i, c) in self.text[st..end].char_indices() {
            if col == p.character as usize {
                return Some(st + i);
            }
            if col > p.character as usize {
                return None;
            }
            col += c.len_utf16();
        }
        (col == p.character as usize).then_some(end)
    }
    pub fn slice(&self, r: Range) -> Option<&'a str> {
        let (a, b) = (self.off(r.start)?, self.off(r.end)?);
        self.text.get(a..b)
    }
    pub fn full(&self) -> Range {
        self.range(0, self.text.len())
    }
}

pub fn tdid(u: &Uri) -> TextDocumentIdentifier {
    TextDocumentIdentifier { uri: u.clone() }
}
pub fn tdpos(u: &Uri, p: Position) -> TextDocumentPositionParams {
    TextDocumentPositionParams { text_document: tdid(u), position: p }
}
pub fn goto_params(u: &Uri, p: Position) -> GotoDefinitionParams {
    GotoDefinitionParams {
        text_document_position_params: tdpos(u, p),
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
    }
}
pub fn ref_params(u: &Uri, p: Position, decl: bool) -> ReferenceParams {
    ReferenceParams {
        text_document_position: tdpos(u, p),
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
        context: ReferenceContext { include_declaration: decl },
    }
}
pub fn rename_params(u: &Uri, p: Position, name: &str) -> RenameParams {
    RenameParams { text_document_position: tdpos(u, p), new_name: name.to_string(), work_done_progress_params: Default::default() }
}
pub fn hover_params(u: &Uri, p: Position) -> HoverParams {
    HoverParams { text_document_position_params: tdpos(u, p), work_done_progress_params: Default::default() }
}
pub fn completion_params(u: &Uri, p: Position) -> CompletionParams {
    CompletionParams {
        text_document_position: tdpos(u, p),
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
        context: None,
    }
}
pub fn ch_prepare_params(u: &Uri, p: Position) -> CallHierarchyPrepareParams {
    CallHierarchyPrepareParams { text_document_position_params: tdpos(u, p), work_done_progress_params: Default::default() }
}
pub fn fmt_options(tab: u32, spaces: bool) -> FormattingOptions {
    FormattingOptions { tab_size: tab, insert_spaces: spaces, ..Default::default() }
}
pub fn diagnostics(s: &LanguageService, u: &Uri) -> Vec<Diagnostic> {
    s.publish_diagnostics(u.clone()).diagnostics
}
pub fn code_action_params(u: &Uri, r: Range, d: Vec<Diagnostic>) -> CodeActionParams {
    CodeActionParams {
        text_document: tdid(u),
        range: r,
        context: CodeActionContext { diagnostics: d, only: None, trigger_kind: None },
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
    }
}

pub const PER_POS: [&str; 9] =
    ["definition", "typeDefinition", "declaration", "references", "hover", "completion", "prepareRename", "rename", "callHierarchy"];
pub const PER_RANGE: [&str; 4] = ["codeAction", "inlayHint", "rangeFormatting", "semanticTokens/range"];
pub const PER_DOC: [&str; 6] = ["diagnostics", "documentSymbol", "foldingRange", "formatting", "semanticTokens", "selectionRange"];

fn v<T: serde::Serialize>(x: T) -> Value {
    serde_json::to_value(x).unwrap()
}
pub fn at_pos(s: &LanguageService, u: &Uri, what: &str, p: Position) -> Value {
    match what {
        "definition" => v(s.goto_definition(goto_params(u, p))),
        "typeDefinition" => v(s.goto_type_definition(goto_params(u, p))),
        "declaration" => v(s.goto_declaration(goto_params(u, p))),
        "references" => json!([v(s.find_references(ref_params(u, p, true))), v(s.find_references(ref_params(u, p, false)))]),
        "hover" => v(s.hover(hover_params(u, p))),
        "completion" => v(s.completion(completion_params(u, p))),
        "prepareRename" => v(s.prepare_rename(tdpos(u, p))),
        "rename" => match s.rename(rename_params(u, p, "$renamed")) {
            Ok(x) => json!({"ok": v(x)}),
            Err(e) => json!({"err": e.to_string()}),
        },
        "callHierarchy" => {
            let items = s.prepare_call_hierarchy(ch_prepare_params(u, p));
            let mut out = vec![v(&items)];
            for it in items.into_iter().flatten() {
                out.push(v(s.call_hierarchy_incoming_calls(CallHierarchyIncomingCallsParams {
                    item: it.clone(),
                    work_done_progress_params: Default::default(),
                    partial_result_params: Default::default(),
                })));
                out.push(v(s.call_hierarchy_outgoing_calls(CallHierarchyOutgoingCallsParams {
                    item: it,
                    work_done_progress_params: Default::default(),
                    partial_result_params: Default::default(),
                })));
            }
            Value::Array(out)
        }
        _ => unreachable!(),
    }
}
pub fn at_range(s: &LanguageService, u: &Uri, what: &str, r: Range, tab: u32, spaces: bool) -> Value {
    match what {
        "codeAction" => {
            let d: Vec<Diagnostic> = diagnostics(s, u);
            v(s.code_action(code_action_params(u, r, d)))
        }
        "inlayHint" => v(s.inlay_hint(InlayHintParams { text_document: tdid(u), range: r, work_done_progress_params: Default::default() })),
        "rangeFormatting" => v(s.range_formatting(DocumentRangeFormattingParams {
            text_document: tdid(u),
            range: r,
            options: fmt_options(tab, spaces),
            work_done_progress_params: Default::default(),
        })),
        "semanticTokens/range" => v(s.semantic_tokens_range(SemanticTokensRangeParams {
            text_document: tdid(u),
            range: r,
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })),
        _ => unreachable!(),
    }
}
pub fn at_doc(s: &LanguageService, u: &Uri, what: &str, positions: &[Position], tab: u32, spaces: bool) -> Value {
    match what {
        "diagnostics" => {
            let a = v(diagnostics(s, u));
            let b = v(s.pull_diagnostics(DocumentDiagnosticParams {
                text_document: tdid(u),
                identifier: None,
                previous_result_id: None,
                work_done_progress_params: Default::default(),
                partial_result_params: Default::default(),
            }));
            json!([a, b["items"]])
        }
        "documentSymbol" => v(s.document_symbol(DocumentSymbolParams {
            text_document: tdid(u),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })),
        "foldingRange" => v(s.folding_range(FoldingRangeParams {
            text_document: tdid(u),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })),
        "formatting" => v(s.formatting(DocumentFormattingParams {
            text_document: tdid(u),
            options: fmt_options(tab, spaces),
            work_done_progress_params: Default::default(),
        })),
        "semanticTokens" => v(s.semantic_tokens_full(SemanticTokensParams {
            text_document: tdid(u),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })),
        "selectionRange" => v(s.selection_range(SelectionRangeParams {
            text_document: tdid(u),
            positions: positions.to_vec(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        })),
        _ => unreachable!(),
    }
}
/// Every `range` and `selectionRange` inside a response.
pub fn ranges_in(val: &Value, out: &mut Vec<Range>) {
    match val {
        Value::Object(m) => {
            if m.contains_key("start") && m.contains_key("end") && m.len() == 2 {
                if let Ok(r) = serde_json::from_value::<Range>(val.clone()) {
                    out.push(r);
                    return;
                }
            }
            m.values().for_each(|x| ranges_in(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| ranges_in(x, out)),
        _ => {}
    }
}
/// Sorts every array whose order carries no meaning (diagnostics and what they relate to, symbols).
pub fn normalise(val: &mut Value) {
    match val {
        Value::Array(a) => {
            a.iter_mut().for_each(normalise);
            a.sort_by_key(|x| x.to_string());
        }
        Value::Object(m) => m.values_mut().for_each(normalise),
        _ => {}
    }
}
