//! C19 document symbols, C20 semantic tokens, C21 hover, C22 completion, C23 inlay hints,
//! C24 call hierarchy, C25 folding and selection ranges: answers about whole documents or
//! single places, compared with what the generator knows about the document.
use crate::gen::*;
use crate::lex::{lex, LK};
use crate::props::nav::{make, tool_opts, Case, ASSUME};
use crate::report::{Cx, Prop};
use crate::rng::Rng;
use crate::spec::{self, V};
use crate::svc::*;
use lsp_types::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use wat_syntax::SyntaxKind as K;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            quick: 240_000,
            thorough: 600_000,
            rule: "one comparison of the symbol tree of a document with the definitions the generator wrote; distinct by text; non-trivial when there is any definition",
            assumptions: ASSUME,
            required: &["symbols:Func", "symbols:Type", "symbols:Global", "symbols:Memory", "symbols:Table", "symbols:Local", "multi_module", "unnamed", "imported"],
            case: c19,
            probes: None,
        },
        Prop {
            id: "C20",
            quick: 240_000,
            thorough: 600_000,
            rule: "one comparison of all semantic tokens of a document (or a range of it) with the tokens and comments of the text; distinct by text, legend and range",
            assumptions: ASSUME,
            required: &["kind:type", "kind:parameter", "kind:variable", "kind:function", "kind:keyword", "kind:comment", "kind:string", "kind:number", "kind:operator", "ranges", "partial_legends", "multi_line_comments", "non_ascii_before_token"],
            case: c20,
            probes: Some(c20_probes),
        },
        Prop {
            id: "C21",
            quick: 240_000,
            thorough: 600_000,
            rule: "one hover request at one token of a generated document; distinct by text and place; non-trivial when the token has something to say",
            assumptions: ASSUME,
            required: &["on:Func", "on:Type", "on:Global", "on:Local", "on:param", "on:instr", "on:valtype", "on:nothing", "from_reference", "from_definition", "sig_from_type", "doc_comments"],
            case: c21,
            probes: None,
        },
        Prop {
            id: "C22",
            quick: 240_000,
            thorough: 600_000,
            rule: "one completion request at one reference of a generated document; distinct by text and place; non-trivial when there is something to offer",
            assumptions: ASSUME,
            required: &["at:Func", "at:Type", "at:Global", "at:Memory", "at:Table", "at:Local", "at:Label", "dollar", "number", "instr", "segment"],
            case: c22,
            probes: None,
        },
        Prop {
            id: "C23",
            quick: 240_000,
            thorough: 600_000,
            rule: "one comparison of all inlay hints of a range of a document with the typed references and function ends in it; distinct by text and range; non-trivial when there is any hint",
            assumptions: ASSUME,
            required: &["hints:Local", "hints:Global", "hints:Func", "sub_ranges", "undefined"],
            case: c23,
            probes: None,
        },
        Prop {
            id: "C24",
            quick: 240_000,
            thorough: 600_000,
            rule: "one comparison of callers and callees of a function with the calls the generator wrote; distinct by text and function; non-trivial when there is any call",
            assumptions: ASSUME,
            required: &["incoming", "outgoing", "recursive", "imported", "from_call", "from_definition"],
            case: c24,
            probes: None,
        },
        Prop {
            id: "C25",
            quick: 240_000,
            thorough: 600_000,
            rule: "one comparison of the folding ranges, or of the selection ranges of one place, with the syntax tree the generator wrote; distinct by text and place",
            assumptions: ASSUME,
            required: &["foldings", "selections", "no_token", "several_positions"],
            case: c25,
            probes: None,
        },
        Prop {
            id: "C31",
            quick: 100_000,
            thorough: 2_000_000,
            rule: "one word of a valid document, typed in part; distinct by document and place",
            assumptions: &[
                "words and instructions the tool's own list lacks, and words whose prefix is itself a complete word, are not asked for",
                "memory arguments are asked for in folded instructions only: behind a flat one the parser takes a word for the next instruction",
            ],
            required: &["keyword", "operator", "class", "snippet", "cut_off", "rest_of_document", "behind_parenthesis"],
            case: c31,
            probes: None,
        },
    ]
}
impl Case {
    pub fn node_off(&self, n: usize) -> (usize, usize) {
        let (a, b) = self.d.ends(n).expect("node with tokens");
        (self.r.range(&self.d, a).0, self.r.range(&self.d, b).1)
    }
    pub fn node_range(&self, l: &Lines, n: usize) -> Range {
        let (a, b) = self.node_off(n);
        l.range(a, b)
    }
    /// Name by which the definition is shown.
    fn shown(&self, x: &Def) -> Option<String> {
        x.name.clone().or_else(|| x.num_ok.then(|| x.idx.to_string()))
    }
}
fn at(l: &Lines, r: Range) -> String {
    format!("{:?} at {}:{}", l.slice(r).map(|s| s.chars().take(60).collect::<String>()).unwrap_or("<no text>".into()), r.start.line, r.start.character)
}
/// Number of module fields of any kind before a definition, or a lower bound of it.
fn number_like(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

// ------------------------------------------------------------------ document symbols
fn c19(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = 0;
    if rng.chance(1, 4) {
        o.modules = rng.range(2, 5);
        o.max_fields = rng.range(1, 5);
    }
    let c = make(rng, o);
    let (d, text, u) = (&c.d, &c.r.text, uri(0));
    let l = Lines::new(text);
    let Some(got) = cx.guard("documentSymbol", text, || opened(text).document_symbol(DocumentSymbolParams {
        text_document: tdid(&u),
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
    })) else {
        return;
    };
    let Some(DocumentSymbolResponse::Nested(got)) = got else {
        return cx.fail("no-symbols", "no symbol tree".into(), text);
    };
    cx.eval(text, !d.defs.is_empty());
    if d.modules.len() > 1 {
        cx.count("multi_module", 1);
    }
    // (name if it can be told, kind, range, selection range, children)
    struct S {
        name: Option<String>,
        kind: SymbolKind,
        range: Range,
        sel: Range,
        ch: Vec<S>,
    }
    let of_def = |cx: &mut Cx, x: &Def, ch: Vec<S>| {
        cx.count(&format!("symbols:{:?}", x.space), 1);
        if x.imported {
            cx.count("imported", 1);
        }
        if x.name.is_none() {
            cx.count("unnamed", 1);
        }
        let range = c.node_range(&l, x.node);
        S {
            name: c.shown(x),
            kind: if x.space == Space::Func { SymbolKind::FUNCTION } else { SymbolKind::VARIABLE },
            range,
            sel: if x.name.is_some() { c.tok_range(&l, x.loc) } else { range },
            ch,
        }
    };
    let mut want = vec![];
    for (m, node) in d.modules.iter().enumerate() {
        let mut ch: Vec<S> = vec![];
        for (i, x) in d.defs.iter().enumerate() {
            if x.module != m || matches!(x.space, Space::Local | Space::Label) {
                continue;
            }
            let locals: Vec<S> = if x.space == Space::Func {
                d.defs.iter().filter(|y| y.space == Space::Local && !y.is_param && y.func == Some(i)).map(|y| of_def(cx, y, vec![])).collect()
            } else {
                vec![]
            };
            ch.push(of_def(cx, x, locals));
        }
        ch.sort_by_key(|s| (s.range.start.line, s.range.start.character));
        let range = c.node_range(&l, *node);
        want.push(S { name: Some("module".into()), kind: SymbolKind::MODULE, range, sel: range, ch });
    }
    // a module without any definition may be left out
    let empty: Vec<Range> = want.iter().filter(|s| s.ch.is_empty()).map(|s| s.range).collect();
    let listed: BTreeSet<u32> = got.iter().filter(|g| empty.contains(&g.range)).map(|g| g.range.start.line * 100_000 + g.range.start.character).collect();
    want.retain(|s| !s.ch.is_empty() || listed.contains(&(s.range.start.line * 100_000 + s.range.start.character)));
    fn cmp(l: &Lines, want: &[S], got: &[DocumentSymbol], path: &str) -> Option<(String, String)> {
        if want.len() != got.len() {
            return Some((
                "symbol-count".into(),
                format!("{path} has the symbols [{}], expected [{}]", got.iter().map(|g| g.name.clone()).collect::<Vec<_>>().join(", "), want.iter().map(|w| w.name.clone().unwrap_or("?".into())).collect::<Vec<_>>().join(", ")),
            ));
        }
        for (w, g) in want.iter().zip(got) {
            let p = format!("{path} > {}", w.name.as_deref().unwrap_or("?"));
            if w.name.as_ref().is_some_and(|n| *n != g.name) || w.name.is_none() && !number_like(&g.name) {
                return Some(("symbol-name".into(), format!("{p} is called {:?} or out of order", g.name)));
            }
            if w.kind != g.kind {
                return Some(("symbol-kind".into(), format!("{p} is shown as {:?}", g.kind)));
            }
            if w.range != g.range {
                return Some(("symbol-range".into(), format!("{p} has the range {}, expected {}", at(l, g.range), at(l, w.range))));
            }
            if w.sel != g.selection_range {
                return Some(("symbol-selection".into(), format!("{p} has the selection range {}, expected {}", at(l, g.selection_range), at(l, w.sel))));
            }
            let none = vec![];
            if let Some(x) = cmp(l, &w.ch, g.children.as_ref().unwrap_or(&none), &p) {
                return Some(x);
            }
        }
        None
    }
    if let Some((sig, msg)) = cmp(&l, &want, &got, "document") {
        return cx.fail(&sig, msg, text);
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "symbols": d.defs.len()}));
    }
}

// ------------------------------------------------------------------ semantic tokens
/// What a token is, by the role the generator gave it; `None`: no semantic token.
fn roles(c: &Case) -> BTreeMap<usize, (usize, &'static str)> {
    let d = &c.d;
    let refs: BTreeMap<usize, &Ref> = d.refs.iter().map(|r| (r.tok, r)).collect();
    let mut out = BTreeMap::new();
    for (i, t) in d.toks.iter().enumerate() {
        let r = refs.get(&i);
        let is_param = |r: &Ref| r.targets.first().is_some_and(|x| d.defs[*x].is_param);
        let k = match t.kind {
            K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE => "type",
            K::KEYWORD => "keyword",
            K::INSTR_NAME => "operator",
            K::STRING => "string",
            K::FLOAT => "number",
            K::INT | K::UNSIGNED_INT => match r {
                Some(r) if r.space == Space::Func && matches!(r.site.as_str(), "call" | "return_call" | "ref.func" | "start" | "export") => "function",
                Some(r) if r.space == Space::Local => {
                    if is_param(r) {
                        "parameter"
                    } else {
                        "variable"
                    }
                }
                _ => "number",
            },
            K::IDENT => match r {
                Some(r) if r.space == Space::Func && matches!(r.site.as_str(), "call" | "return_call" | "ref.func" | "start" | "export") => "function",
                Some(r) if r.space == Space::Local && is_param(r) => "parameter",
                Some(_) => "variable",
                None => match d.nodes[t.parent].kind {
                    K::MODULE_FIELD_FUNC => "function",
                    K::PARAM => "parameter",
                    _ => "variable",
                },
            },
            _ => continue,
        };
        let (a, b) = c.r.range(d, i);
        out.insert(a, (b, k));
    }
    for x in lex(&c.r.text) {
        if matches!(x.kind, LK::LineComment | LK::BlockComment) {
            out.insert(x.start, (x.start + x.text.len(), "comment"));
        }
    }
    out
}
fn utf16(s: &str) -> u32 {
    s.chars().map(|c| c.len_utf16() as u32).sum()
}
fn decode(data: &[SemanticToken]) -> Vec<(Position, u32, u32)> {
    let mut p = Position::new(0, 0);
    data.iter()
        .map(|t| {
            if t.delta_line > 0 {
                p = Position::new(p.line + t.delta_line, t.delta_start);
            } else {
                p.character += t.delta_start;
            }
            (p, t.length, t.token_type)
        })
        .collect()
}
fn c20(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = 0;
    let mut types = token_types();
    if rng.chance(1, 3) {
        types.retain(|_| rng.chance(3, 4));
        rng.shuffle(&mut types);
        cx.count("partial_legends", 1);
    }
    let c = make(rng, o);
    let (text, u) = (&c.r.text, uri(0));
    let l = Lines::new(text);
    let mut s = wat_service::LanguageService::default();
    let legend: Vec<String> = match s.initialize(init_params(types)).capabilities.semantic_tokens_provider {
        Some(SemanticTokensServerCapabilities::SemanticTokensOptions(o)) => o.legend.token_types.iter().map(|t| t.as_str().to_string()).collect(),
        _ => return cx.fail("no-legend", "the legend isn't announced".into(), text),
    };
    let inp = format!("legend {legend:?}\n{text}");
    let Some(full) = cx.guard("semanticTokens", &inp, || {
        s.commit(u.clone(), text.clone());
        s.semantic_tokens_full(SemanticTokensParams { text_document: tdid(&u), work_done_progress_params: Default::default(), partial_result_params: Default::default() })
    }) else {
        return;
    };
    let Some(SemanticTokensResult::Tokens(full)) = full else {
        return cx.fail("no-tokens", "no answer".into(), &inp);
    };
    let all = roles(&c);
    let want: Vec<(Position, u32, &str)> =
        all.iter().filter(|(_, (_, k))| legend.iter().any(|x| x == k)).map(|(a, (b, k))| (l.pos(*a), utf16(&text[*a..*b]), *k)).collect();
    for (a, (b, k)) in &all {
        cx.count(&format!("kind:{k}"), 1);
        if *k == "comment" && text[*a..*b].contains('\n') {
            cx.count("multi_line_comments", 1);
        }
        if !text[l.starts[l.pos(*a).line as usize]..*a].is_ascii() {
            cx.count("non_ascii_before_token", 1);
        }
    }
    cx.eval(&inp, !want.is_empty());
    let name = |t: u32| legend.get(t as usize).map(String::as_str).unwrap_or("<not in the legend>");
    let check = |cx: &mut Cx, what: &str, got: &[(Position, u32, u32)], want: &[(Position, u32, &str)], inp: &str| {
        for (i, w) in want.iter().enumerate() {
            let Some(g) = got.get(i) else {
                cx.fail(&format!("{what}-missing"), format!("no semantic token for the {} at {}:{}", w.2, w.0.line, w.0.character), inp);
                return false;
            };
            if g.0 != w.0 || g.1 != w.1 {
                cx.fail(&format!("{what}-place"), format!("token {i} is a {} at {}:{} of length {}, expected a {} at {}:{} of length {}", name(g.2), g.0.line, g.0.character, g.1, w.2, w.0.line, w.0.character, w.1), inp);
                return false;
            }
            if name(g.2) != w.2 {
                cx.fail(&format!("{what}-kind"), format!("{:?} is marked as {}, expected {}", l.off(w.0).map(|a| text[a..].chars().take(20).collect::<String>()), name(g.2), w.2), inp);
                return false;
            }
        }
        if got.len() > want.len() {
            cx.fail(&format!("{what}-extra"), format!("{} tokens, expected {}", got.len(), want.len()), inp);
            return false;
        }
        true
    };
    if full.data.iter().any(|t| t.token_modifiers_bitset != 0) {
        return cx.fail("modifiers", "modifiers that aren't in the legend".into(), &inp);
    }
    if !check(cx, "full", &decode(&full.data), &want, &inp) {
        return;
    }
    // a part of the document: the same tokens, as far as they lie in the range
    for _ in 0..3 {
        let (mut a, mut b) = (rng.below(text.len() + 1), rng.below(text.len() + 1));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        while !text.is_char_boundary(a) {
            a -= 1;
        }
        while !text.is_char_boundary(b) {
            b -= 1;
        }
        let inp = format!("range {:?}\n{inp}", l.range(a, b));
        let Some(part) = cx.guard("semanticTokens/range", &inp, || {
            s.semantic_tokens_range(SemanticTokensRangeParams { text_document: tdid(&u), range: l.range(a, b), work_done_progress_params: Default::default(), partial_result_params: Default::default() })
        }) else {
            return;
        };
        let Some(SemanticTokensRangeResult::Tokens(part)) = part else {
            return cx.fail("no-tokens", "no answer".into(), &inp);
        };
        cx.count("ranges", 1);
        let want: Vec<(Position, u32, &str)> = all
            .iter()
            .filter(|(x, (y, k))| **x < b && *y > a && legend.iter().any(|z| z == k))
            .map(|(x, (y, k))| (l.pos(*x), utf16(&text[*x..*y]), *k))
            .collect();
        let mut got = decode(&part.data);
        // the column of the first token is a recorded finding: columns up to the end of its line follow from it
        if let (Some(g), Some(w)) = (got.first().cloned(), want.first()) {
            if g.0.line == w.0.line && g.0.character != w.0.character && w.0.character > g.0.character {
                let by = w.0.character - g.0.character;
                for x in got.iter_mut().take_while(|x| x.0.line == g.0.line) {
                    x.0.character += by;
                }
            }
        }
        if !check(cx, "range", &got, &want, &inp) {
            return;
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "legend": legend, "tokens": want.len()}));
    }
}
fn c20_probes(cx: &mut Cx) {
    let text = "(module (func $f (result i32) i32.const 1))";
    let s = opened(text);
    let l = Lines::new(text);
    let r = l.range(text.find("i32.const").unwrap(), text.len());
    let got = s.semantic_tokens_range(SemanticTokensRangeParams { text_document: tdid(&uri(0)), range: r, work_done_progress_params: Default::default(), partial_result_params: Default::default() });
    if let Some(SemanticTokensRangeResult::Tokens(t)) = got {
        if t.data.first().map(|x| x.delta_start) != Some(r.start.character) {
            cx.fail("range-first-column", format!("the first token of a range starts at column {:?} instead of {}", t.data.first().map(|x| x.delta_start), r.start.character), text);
        }
    }
}

// ------------------------------------------------------------------ hover
fn sig_text(sig: &Sig) -> String {
    let mut v = vec![];
    for (t, n) in &sig.params {
        v.push(match n {
            Some(n) => format!("(param {n} {})", t.s()),
            None => format!("(param {})", t.s()),
        });
    }
    v.extend(sig.results.iter().map(|t| format!("(result {})", t.s())));
    v.join(" ")
}
fn join(parts: &[&str]) -> String {
    format!("({})", parts.iter().filter(|p| !p.is_empty()).copied().collect::<Vec<_>>().join(" "))
}
/// The signature as it is written, with the names of parameters.
fn written_sig(d: &Doc, x: &Def) -> Sig {
    let kids = |n: usize| d.nodes[n].ch.iter().filter_map(|e| if let El::N(n) = e { Some(*n) } else { None });
    let mut sig = Sig::default();
    for n in kids(x.node).filter(|n| matches!(d.nodes[*n].kind, K::TYPE_USE | K::FUNC_TYPE)).flat_map(kids) {
        let types: Vec<V> = kids(n)
            .filter(|v| d.nodes[*v].kind == K::VAL_TYPE)
            .filter_map(|v| d.ends(v))
            .map(|(t, _)| *spec::ALLV.iter().find(|v| v.s() == d.toks[t].text).expect("type"))
            .collect();
        match d.nodes[n].kind {
            K::PARAM => {
                let name = d.nodes[n].ch.iter().find_map(|e| match e {
                    El::T(t) if d.toks[*t].kind == K::IDENT => Some(d.toks[*t].text.clone()),
                    _ => None,
                });
                sig.params.extend(types.into_iter().map(|t| (t, name.clone())));
            }
            K::RESULT => sig.results.extend(types),
            _ => {}
        }
    }
    match x.type_ref {
        Some(t) if sig == Sig::default() => written_sig(d, &d.defs[t]),
        _ => sig,
    }
}
pub fn func_header(d: &Doc, x: &Def) -> String {
    join(&["func", x.name.as_deref().unwrap_or(""), &sig_text(&written_sig(d, x))])
}
/// The `;;;` comments right before a definition, the last uninterrupted run of them.
fn doc_of(text: &str, start: usize) -> String {
    let before: Vec<_> = lex(text).into_iter().filter(|x| x.start < start).collect();
    let mut run = vec![];
    for x in before.iter().rev() {
        match x.kind {
            LK::Ws => {}
            LK::LineComment => {
                if x.text.starts_with(";;;") {
                    run.push(x.text);
                } else if !run.is_empty() {
                    break;
                }
            }
            _ => break,
        }
    }
    run.reverse();
    run.iter()
        .map(|c| {
            let c = c.trim_end_matches(['\r', '\n']).strip_prefix(";;;").unwrap();
            c.strip_prefix([' ', '\t']).unwrap_or(c)
        })
        .collect::<Vec<_>>()
        .join("\n")
}
fn def_hover(c: &Case, x: &Def) -> Option<String> {
    let name = x.name.as_deref().unwrap_or("");
    Some(match x.space {
        Space::Func => {
            let mut s = format!("```wat\n{}\n```", func_header(&c.d, x));
            let doc = doc_of(&c.r.text, c.node_off(x.node).0);
            if !doc.is_empty() {
                s.push_str("\n---\n");
                s.push_str(&doc);
            }
            s
        }
        Space::Local => join(&[if x.is_param { "param" } else { "local" }, name, x.ty?.s()]),
        Space::Global => {
            let t = x.ty?.s();
            let m = format!("(mut {t})");
            join(&["global", name, if x.mutable { &m } else { t }])
        }
        Space::Type => join(&["type", name, &join(&["func", &sig_text(&written_sig(&c.d, x))])]),
        _ => return None,
    })
}
fn contents(h: &HoverContents) -> String {
    let m = |m: &MarkedString| match m {
        MarkedString::String(s) => s.clone(),
        MarkedString::LanguageString(s) => s.value.clone(),
    };
    match h {
        HoverContents::Scalar(x) => m(x),
        HoverContents::Array(a) => a.iter().map(m).collect::<Vec<_>>().join("\n"),
        HoverContents::Markup(x) => x.value.clone(),
    }
}
fn c21(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = *rng.pick(&[0, 0, 40]);
    o.dup = 0;
    let c = make(rng, o);
    let (d, text, u) = (&c.d, &c.r.text, uri(0));
    let l = Lines::new(text);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    let refs: BTreeMap<usize, &Ref> = d.refs.iter().map(|r| (r.tok, r)).collect();
    let defs: BTreeMap<usize, &Def> = d.defs.iter().filter(|x| x.loc != usize::MAX).map(|x| (x.loc, x)).collect();
    let mut toks: Vec<usize> = refs.keys().chain(defs.keys()).copied().collect();
    for _ in 0..12 {
        toks.push(rng.below(d.toks.len()));
    }
    while toks.len() > 60 {
        toks.swap_remove(rng.below(toks.len()));
    }
    for t in toks {
        let tok = &d.toks[t];
        if matches!(tok.kind, K::L_PAREN | K::R_PAREN) {
            continue;
        }
        let (a, b) = c.r.range(d, t);
        let pos = l.pos(*rng.pick(&[a, b]));
        let inp = format!("hover at {}:{} (`{}`)\n{text}", pos.line, pos.character, tok.text);
        let Some(got) = cx.guard("hover", &inp, || s.hover(hover_params(&u, pos))) else { return };
        let r = refs.get(&t);
        let want: Option<String> = match (r, defs.get(&t)) {
            (Some(r), _) => {
                if !matches!(d.nodes[tok.parent].kind, K::OPERAND | K::INDEX) || r.site.starts_with("elem") {
                    continue;
                }
                match r.targets.first() {
                    Some(x) => {
                        let x = &d.defs[*x];
                        // function names outside of instructions aren't looked up
                        if matches!(r.space, Space::Func) && !matches!(r.site.as_str(), "call" | "return_call" | "ref.func") {
                            if got.is_none() {
                                continue;
                            }
                        }
                        cx.count("from_reference", 1);
                        if x.space == Space::Func && !x.inline_sig && x.type_ref.is_some() {
                            cx.count("sig_from_type", 1);
                        }
                        cx.count(&if x.is_param { "on:param".into() } else { format!("on:{:?}", x.space) }, 1);
                        def_hover(&c, x)
                    }
                    None => None,
                }
            }
            (None, Some(x)) => {
                cx.count("from_definition", 1);
                cx.count(&if x.is_param { "on:param".into() } else { format!("on:{:?}", x.space) }, 1);
                let w = def_hover(&c, x);
                if x.space == Space::Func && w.as_ref().is_some_and(|w| w.contains("\n---\n")) {
                    cx.count("doc_comments", 1);
                }
                // the type of a parameter or local without name is the definition as well
                if matches!(tok.kind, K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE) {
                    continue;
                }
                w
            }
            (None, None) => match tok.kind {
                K::INSTR_NAME => {
                    let Some(i) = spec::BY_NAME.get(&tok.text) else { continue };
                    let (x, y) = spec::TABLE[*i].op;
                    let Some(got) = &got else {
                        return cx.fail("hover-instr", format!("no answer on `{}`", tok.text), &inp);
                    };
                    cx.count("on:instr", 1);
                    let text = contents(&got.contents);
                    let Some(code) = text.strip_prefix(&format!("```wat\n{}\n```\nBinary Opcode: ", tok.text)) else {
                        return cx.fail("hover-instr", format!("{text:?} on `{}`", tok.text), &inp);
                    };
                    let bytes: Option<Vec<u32>> = code.split_whitespace().map(|b| u32::from_str_radix(b.strip_prefix("0x")?, 16).ok()).collect();
                    let want: Vec<u32> = match y {
                        None => vec![x as u32],
                        Some(y) => {
                            let mut v = vec![x as u32];
                            let mut y = y;
                            loop {
                                let b = y & 0x7F;
                                y >>= 7;
                                v.push(if y > 0 { b | 0x80 } else { b });
                                if y == 0 {
                                    break;
                                }
                            }
                            v
                        }
                    };
                    cx.state(&tok.text);
                    if bytes.as_ref() != Some(&want) && bytes != y.map(|y| vec![x as u32, y]) {
                        return cx.fail("opcode", format!("`{}` is said to be {code}, expected {want:x?}", tok.text), &inp);
                    }
                    Some(text.clone())
                }
                K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE => {
                    cx.count("on:valtype", 1);
                    match &got {
                        Some(g) if contents(&g.contents).starts_with(&format!("```wat\n{}\n```\n", tok.text)) => Some(contents(&g.contents)),
                        _ => return cx.fail("hover-valtype", format!("{:?} on `{}`", got.map(|g| contents(&g.contents)), tok.text), &inp),
                    }
                }
                K::STRING | K::FLOAT | K::MEM_ARG => None,
                K::INT | K::UNSIGNED_INT => None,
                _ => continue,
            },
        };
        cx.eval(&inp, want.is_some());
        // (an empty text is as good as none)
        let got = got.filter(|g| want.is_some() || !contents(&g.contents).is_empty());
        match (&got, &want) {
            (None, None) => cx.count("on:nothing", 1),
            (Some(g), Some(w)) => {
                let g_text = contents(&g.contents);
                if g_text != *w {
                    return cx.fail("hover-text", format!("hover says {g_text:?}, expected {w:?}"), &inp);
                }
                if g.range != Some(l.range(a, b)) {
                    return cx.fail("hover-range", format!("hover is about {:?}", g.range.map(|r| at(&l, r))), &inp);
                }
            }
            (Some(g), None) => return cx.fail("hover-unexpected", format!("hover says {:?}", contents(&g.contents)), &inp),
            (None, Some(w)) => return cx.fail("hover-missing", format!("hover says nothing, expected {w:?}"), &inp),
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>()}));
    }
}

// ------------------------------------------------------------------ completion
fn c22(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = *rng.pick(&[0, 0, 40]);
    let c = make(rng, o);
    let (d, text, u) = (&c.d, &c.r.text, uri(0));
    let l = Lines::new(text);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    let mut refs: Vec<&Ref> = d.refs.iter().collect();
    while refs.len() > 40 {
        refs.swap_remove(rng.below(refs.len()));
    }
    for r in refs {
        let (a, b) = c.r.range(d, r.tok);
        // somewhere in the word, behind its first character
        let mut p = rng.range(a + 1, b);
        while !text.is_char_boundary(p) {
            p += 1;
        }
        let pos = l.pos(p);
        let word = &d.toks[r.tok].text;
        let inp = format!("completion at {}:{} (in `{word}`)\n{text}", pos.line, pos.character);
        let kind = d.nodes[d.toks[r.tok].parent].kind;
        if !(kind == K::OPERAND && matches!(r.site.as_str(), "call" | "return_call" | "ref.func" | "br" | "br_if" | "br_table" | "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill" | "table.copy" | "table.init")
            || kind == K::OPERAND && (r.site.starts_with("local.") || r.site.starts_with("global."))
            || kind == K::INDEX && matches!(r.site.as_str(), "start" | "export" | "typeuse" | "type"))
        {
            cx.state(&format!("skipped {kind:?} {}", r.site));
            continue;
        }
        let Some(got) = cx.guard("completion", &inp, || s.completion(completion_params(&u, pos))) else { return };
        let got = match got {
            Some(CompletionResponse::Array(v)) => v,
            Some(CompletionResponse::List(l)) => l.items,
            None => vec![],
        };
        let dollar = word.starts_with('$');
        cx.count(if dollar { "dollar" } else { "number" }, 1);
        cx.count(&format!("at:{:?}", r.space), 1);
        // (label, inserted text, kind, type)
        let mut want: Vec<(Option<String>, CompletionItemKind, Option<String>, Option<String>)> = vec![];
        let item = match r.space {
            Space::Func => CompletionItemKind::FUNCTION,
            Space::Type => CompletionItemKind::INTERFACE,
            _ => CompletionItemKind::VARIABLE,
        };
        if r.space == Space::Label {
            for (n, x) in r.labels.iter().enumerate() {
                let x = &d.defs[*x];
                want.push((x.name.clone().or(Some(n.to_string())), item, None, None));
            }
        } else {
            for x in d.defs.iter().filter(|x| x.space == r.space && x.module == r.module && (r.space != Space::Local || x.func == r.func)) {
                let ty = if matches!(x.space, Space::Local | Space::Global) { x.ty.map(|t| t.s().to_string()) } else { None };
                let doc = (x.space == Space::Func).then(|| format!("```wat\n{}\n```", func_header(d, x)));
                want.push((c.shown(x), item, ty, doc));
            }
        }
        if dollar {
            want.retain(|w| w.0.as_ref().is_some_and(|n| n.starts_with('$')));
        }
        cx.eval(&inp, !want.is_empty());
        cx.state(&format!("{:?} {} {dollar} {}", r.space, r.site, want.len().min(9)));
        if got.len() != want.len() {
            return cx.fail(
                "completion-list",
                format!("completion offers [{}], expected [{}]", got.iter().map(|g| g.label.clone()).collect::<Vec<_>>().join(", "), want.iter().map(|w| w.0.clone().unwrap_or("?".into())).collect::<Vec<_>>().join(", ")),
                &inp,
            );
        }
        let mut left: Vec<&CompletionItem> = got.iter().collect();
        want.sort_by_key(|w| w.0.is_none());
        for w in &want {
            let doc = |g: &CompletionItem| match &g.documentation {
                Some(Documentation::MarkupContent(m)) => Some(m.value.clone()),
                Some(Documentation::String(s)) => Some(s.clone()),
                None => None,
            };
            let ty = |g: &CompletionItem| g.label_details.as_ref().and_then(|x| x.description.clone());
            let fits = |g: &CompletionItem| {
                (match &w.0 {
                    Some(n) => *n == g.label,
                    None => number_like(&g.label),
                }) && g.kind == Some(w.1)
                    && ty(g) == w.2
                    && doc(g) == w.3
            };
            let Some(i) = left.iter().position(|g| fits(g)) else {
                return cx.fail(
                    "completion-item",
                    format!("{w:?} isn't offered, but [{}]", got.iter().map(|g| format!("{} {:?} {:?} {:?}", g.label, g.kind, ty(g), doc(g))).collect::<Vec<_>>().join(", ")),
                    &inp,
                );
            };
            let g = left.swap_remove(i);
            // the `$` that is there already isn't inserted again
            let insert = g.insert_text.as_deref().unwrap_or(&g.label);
            if insert != if dollar { g.label.strip_prefix('$').unwrap_or("") } else { &g.label } {
                return cx.fail("completion-insert", format!("{:?} inserts {insert:?}", g.label), &inp);
            }
        }
    }
    // the second operand of `table.init` is an element segment, not a table
    for t in (0..d.toks.len()).filter(|t| d.toks[*t].text == "$segment" && d.toks[*t].kind == K::IDENT) {
        let (a, b) = c.r.range(d, t);
        let pos = l.pos(rng.range(a + 1, b));
        let inp = format!("completion at {}:{} (in `$segment`)\n{text}", pos.line, pos.character);
        let Some(got) = cx.guard("completion", &inp, || s.completion(completion_params(&u, pos))) else { return };
        cx.count("segment", 1);
        cx.eval(&inp, true);
        let got: Vec<String> = match got {
            Some(CompletionResponse::Array(v)) => v.into_iter().map(|x| x.label).collect(),
            Some(CompletionResponse::List(l)) => l.items.into_iter().map(|x| x.label).collect(),
            None => vec![],
        };
        if let Some(x) = d.defs.iter().find(|x| x.space == Space::Table && c.shown(x).is_some_and(|n| got.contains(&n))) {
            return cx.fail("completion-segment", format!("the table {:?} is offered for an element segment", x.name), &inp);
        }
    }
    // names of instructions
    let instrs: Vec<usize> = (0..d.toks.len()).filter(|t| d.toks[*t].kind == K::INSTR_NAME).collect();
    if !instrs.is_empty() {
        let t = *rng.pick(&instrs);
        let (a, b) = c.r.range(d, t);
        let pos = l.pos(rng.range(a + 1, b));
        let inp = format!("completion at {}:{} (in `{}`)\n{text}", pos.line, pos.character, d.toks[t].text);
        let Some(got) = cx.guard("completion", &inp, || s.completion(completion_params(&u, pos))) else { return };
        let got: BTreeSet<String> = match got {
            Some(CompletionResponse::Array(v)) => v.into_iter().map(|x| x.label).collect(),
            _ => BTreeSet::new(),
        };
        cx.count("instr", 1);
        if let Some(x) = spec::TABLE.iter().find(|x| matches!(x.op, (0x28..=0xBF, None)) && !got.contains(&x.name)) {
            return cx.fail("completion-instr", format!("`{}` isn't offered", x.name), &inp);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>()}));
    }
}

// ------------------------------------------------------------------ inlay hints
fn c23(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = *rng.pick(&[0, 0, 60]);
    o.dup = 0;
    let c = make(rng, o);
    let (d, text, u) = (&c.d, &c.r.text, uri(0));
    let l = Lines::new(text);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    let mut all: Vec<(usize, usize, String, Space)> = vec![];
    for r in &d.refs {
        if !matches!(r.space, Space::Local | Space::Global) {
            continue;
        }
        let (a, b) = c.r.range(d, r.tok);
        match r.targets.first().and_then(|x| d.defs[*x].ty) {
            Some(t) => all.push((a, b, t.s().to_string(), r.space)),
            None => cx.count("undefined", 1),
        }
    }
    for x in d.defs.iter().filter(|x| x.space == Space::Func) {
        if let Some(n) = &x.name {
            let (_, b) = c.node_off(x.node);
            all.push((b - 1, b, format!("(func {n})"), Space::Func));
        }
    }
    for i in 0..4 {
        let (mut a, mut b) = if i == 0 { (0, text.len()) } else { (rng.below(text.len() + 1), rng.below(text.len() + 1)) };
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if i > 1 && !all.is_empty() {
            // borders of something that has a hint
            let x = rng.pick(&all);
            if rng.chance(1, 2) {
                a = x.0.min(b);
            } else {
                b = x.1.max(a);
            }
        }
        while !text.is_char_boundary(a) {
            a -= 1;
        }
        while !text.is_char_boundary(b) {
            b -= 1;
        }
        if i > 0 {
            cx.count("sub_ranges", 1);
        }
        let range = l.range(a, b);
        // (a place inside a line end is the end of the line)
        let (a, b) = (l.off(range.start).unwrap_or(a), l.off(range.end).unwrap_or(b));
        let inp = format!("range {}:{} to {}:{}\n{text}", range.start.line, range.start.character, range.end.line, range.end.character);
        let Some(got) = cx.guard("inlayHint", &inp, || s.inlay_hint(InlayHintParams { text_document: tdid(&u), range, work_done_progress_params: Default::default() })) else { return };
        let mut got: Vec<(Position, String, bool)> = got
            .unwrap_or_default()
            .into_iter()
            .map(|h| {
                (
                    h.position,
                    match h.label {
                        InlayHintLabel::String(s) => s,
                        InlayHintLabel::LabelParts(p) => p.into_iter().map(|p| p.value).collect(),
                    },
                    h.kind == Some(InlayHintKind::TYPE),
                )
            })
            .collect();
        let mut want: Vec<(Position, String, bool)> = vec![];
        for x in all.iter().filter(|x| a <= x.0 && x.1 <= b) {
            cx.count(&format!("hints:{:?}", x.3), 1);
            want.push((l.pos(x.1), x.2.clone(), x.3 != Space::Func));
        }
        let key = |x: &(Position, String, bool)| (x.0.line, x.0.character, x.1.clone());
        got.sort_by_key(key);
        want.sort_by_key(key);
        cx.eval(&inp, !want.is_empty());
        cx.state(&format!("{} {}", want.len().min(20), i > 0));
        if got != want {
            let show = |v: &Vec<(Position, String, bool)>, w: &Vec<(Position, String, bool)>| v.iter().filter(|x| !w.contains(x)).map(|x| format!("{:?} at {}:{}", x.1, x.0.line, x.0.character)).collect::<Vec<_>>().join(", ");
            return cx.fail("inlay-hints", format!("too many: [{}], missing: [{}] ({} hints, expected {})", show(&got, &want), show(&want, &got), got.len(), want.len()), &inp);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "hints": all.len()}));
    }
}

// ------------------------------------------------------------------ call hierarchy
fn c24(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = *rng.pick(&[0, 0, 40]);
    o.dup = 0;
    o.calls = true;
    let c = make(rng, o);
    let (d, text, u) = (&c.d, &c.r.text, uri(0));
    let l = Lines::new(text);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    let item_of = |x: &Def| {
        let sel = d.toks[x.loc].kind;
        let _ = sel;
        (c.node_range(&l, x.node), c.tok_range(&l, x.loc), c.shown(x), func_header(d, x))
    };
    let same = |g: &CallHierarchyItem, x: &Def| -> Option<String> {
        let (range, sel, name, detail) = item_of(x);
        if g.range != range {
            return Some(format!("the item has the range {}, expected {}", at(&l, g.range), at(&l, range)));
        }
        if g.selection_range != sel {
            return Some(format!("the item has the selection range {}, expected {}", at(&l, g.selection_range), at(&l, sel)));
        }
        if name.as_ref().is_some_and(|n| *n != g.name) || name.is_none() && !number_like(&g.name) {
            return Some(format!("the item is called {:?}, expected {name:?}", g.name));
        }
        if g.detail.as_ref() != Some(&detail) {
            return Some(format!("the item shows {:?}, expected {detail:?}", g.detail));
        }
        if g.uri != u || g.kind != SymbolKind::FUNCTION {
            return Some("the item has a wrong kind or document".into());
        }
        None
    };
    // instruction that holds a reference
    let instr_of = |r: &Ref| {
        let mut n = d.toks[r.tok].parent;
        while d.nodes[n].kind != K::PLAIN_INSTR {
            n = d.nodes[n].parent?;
        }
        Some(n)
    };
    let calls: Vec<(&Ref, usize, usize)> = d
        .refs
        .iter()
        .filter(|r| r.space == Space::Func && matches!(r.site.as_str(), "call" | "return_call" | "ref.func"))
        .filter_map(|r| Some((r, r.targets.first().copied()?, instr_of(r)?)))
        .collect();
    let funcs: Vec<usize> = (0..d.defs.len()).filter(|i| d.defs[*i].space == Space::Func).collect();
    for f in funcs {
        let x = &d.defs[f];
        // from the definition, or from a call
        let from = calls.iter().filter(|k| k.1 == f).map(|k| k.0.tok).collect::<Vec<_>>();
        let t = if from.is_empty() || rng.chance(1, 2) {
            cx.count("from_definition", 1);
            x.loc
        } else {
            cx.count("from_call", 1);
            *rng.pick(&from)
        };
        let (a, b) = c.r.range(d, t);
        let pos = l.pos(*rng.pick(&[a, b]));
        let inp = format!("call hierarchy of {:?} at {}:{}\n{text}", c.shown(x), pos.line, pos.character);
        let Some(items) = cx.guard("prepareCallHierarchy", &inp, || s.prepare_call_hierarchy(ch_prepare_params(&u, pos))) else { return };
        let items = items.unwrap_or_default();
        if items.len() != 1 {
            return cx.fail("prepare", format!("{} items, expected one", items.len()), &inp);
        }
        if let Some(m) = same(&items[0], x) {
            return cx.fail("prepare-item", m, &inp);
        }
        if x.imported {
            cx.count("imported", 1);
        }
        let item = items[0].clone();
        let Some((inc, out)) = cx.guard("callHierarchy", &inp, || {
            (
                s.call_hierarchy_incoming_calls(CallHierarchyIncomingCallsParams { item: item.clone(), work_done_progress_params: Default::default(), partial_result_params: Default::default() }),
                s.call_hierarchy_outgoing_calls(CallHierarchyOutgoingCallsParams { item: item.clone(), work_done_progress_params: Default::default(), partial_result_params: Default::default() }),
            )
        }) else {
            return;
        };
        // (the other function, place of the call)
        let key = |r: Range| (r.start.line, r.start.character, r.end.line, r.end.character);
        let check = |cx: &mut Cx, what: &str, got: Vec<(CallHierarchyItem, Vec<Range>)>, want: Vec<(usize, usize)>| {
            let mut left: Vec<(usize, (u32, u32, u32, u32))> = want.iter().map(|(o, n)| (*o, key(c.node_range(&l, *n)))).collect();
            let show = |o: usize| c.shown(&d.defs[o]).unwrap_or("?".into());
            for (g, ranges) in &got {
                for r in ranges {
                    let Some(i) = left.iter().position(|w| w.1 == key(*r)) else {
                        cx.fail(&format!("{what}-extra"), format!("{what} call of {:?}: {}", g.name, at(&l, *r)), &inp);
                        return false;
                    };
                    let w = left.swap_remove(i);
                    if let Some(m) = same(g, &d.defs[w.0]) {
                        cx.fail(&format!("{what}-item"), format!("{what} call {}: {m}", at(&l, *r)), &inp);
                        return false;
                    }
                }
            }
            if let Some(w) = left.first() {
                cx.fail(&format!("{what}-missing"), format!("{what} call of {} at {}:{} is missing", show(w.0), w.1 .0, w.1 .1), &inp);
                return false;
            }
            cx.count(what, want.len() as u64);
            true
        };
        let want_in: Vec<(usize, usize)> = calls.iter().filter(|k| k.1 == f).filter_map(|k| Some((k.0.func?, k.2))).collect();
        let want_out: Vec<(usize, usize)> = calls.iter().filter(|k| k.0.func == Some(f)).map(|k| (k.1, k.2)).collect();
        if want_in.iter().any(|w| w.0 == f) {
            cx.count("recursive", 1);
        }
        cx.eval(&inp, !want_in.is_empty() || !want_out.is_empty());
        cx.state(&format!("{} {}", want_in.len().min(8), want_out.len().min(8)));
        if !check(cx, "incoming", inc.unwrap_or_default().into_iter().map(|x| (x.from, x.from_ranges)).collect(), want_in) {
            return;
        }
        if !check(cx, "outgoing", out.unwrap_or_default().into_iter().map(|x| (x.to, x.from_ranges)).collect(), want_out) {
            return;
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "calls": calls.len()}));
    }
}

// ------------------------------------------------------------------ folding, selection
fn c25(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = 0;
    let c = make(rng, o);
    let (d, text, u) = (&c.d, &c.r.text, uri(0));
    let l = Lines::new(text);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    let Some(got) = cx.guard("foldingRange", text, || {
        s.folding_range(FoldingRangeParams { text_document: tdid(&u), work_done_progress_params: Default::default(), partial_result_params: Default::default() })
    }) else {
        return;
    };
    let mut got: Vec<_> = got.unwrap_or_default().into_iter().map(|f| (f.start_line, f.start_character.unwrap_or(0), f.end_line, f.end_character.unwrap_or(0))).collect();
    let mut want: Vec<_> = (1..d.nodes.len())
        .filter(|n| d.nodes[*n].ch.iter().any(|e| matches!(e, El::T(t) if matches!(d.toks[*t].kind, K::KEYWORD | K::L_PAREN))))
        .map(|n| c.node_range(&l, n))
        .filter(|r| r.start.line != r.end.line)
        .map(|r| (r.start.line, r.start.character, r.end.line, r.end.character))
        .collect();
    got.sort();
    want.sort();
    cx.count("foldings", want.len() as u64);
    cx.eval(text, !want.is_empty());
    if got != want {
        let diff = |a: &Vec<(u32, u32, u32, u32)>, b: &Vec<(u32, u32, u32, u32)>| a.iter().filter(|x| !b.contains(x)).map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ");
        return cx.fail("folding", format!("foldings too many: [{}], missing: [{}]", diff(&got, &want), diff(&want, &got)), text);
    }
    // several positions in one request: one answer for each, in order
    let toks: Vec<usize> = (0..rng.range(1, 5)).map(|_| rng.below(d.toks.len())).collect();
    let mut places: Vec<(usize, Option<usize>)> = vec![];
    for t in toks {
        let (a, b) = c.r.range(d, t);
        if rng.chance(1, 4) {
            // in white space or a comment
            let end = c.r.starts.get(t + 1).copied().unwrap_or(text.len());
            if end > b + 1 {
                let mut p = rng.range(b + 1, end - 1);
                while !text.is_char_boundary(p) {
                    p -= 1;
                }
                if p > b && p < end {
                    places.push((p, None));
                    cx.count("no_token", 1);
                    continue;
                }
            }
        }
        let punct = matches!(d.toks[t].kind, K::L_PAREN | K::R_PAREN);
        if punct {
            continue;
        }
        places.push((rng.range(a, b), Some(t)));
    }
    for p in &mut places {
        while !text.is_char_boundary(p.0) {
            p.0 -= 1;
        }
    }
    if places.is_empty() {
        return;
    }
    if places.len() > 1 {
        cx.count("several_positions", 1);
    }
    let positions: Vec<Position> = places.iter().map(|p| l.pos(p.0)).collect();
    let inp = format!("selection ranges at {:?}\n{text}", positions.iter().map(|p| format!("{}:{}", p.line, p.character)).collect::<Vec<_>>());
    let Some(got) = cx.guard("selectionRange", &inp, || {
        s.selection_range(SelectionRangeParams { text_document: tdid(&u), positions: positions.clone(), work_done_progress_params: Default::default(), partial_result_params: Default::default() })
    }) else {
        return;
    };
    let got = got.unwrap_or_default();
    if got.len() != places.len() {
        return cx.fail("selection-count", format!("{} selection ranges for {} positions", got.len(), places.len()), &inp);
    }
    for ((g, (p, t)), pos) in got.iter().zip(&places).zip(&positions) {
        cx.count("selections", 1);
        let mut chain = vec![];
        let mut at_ = Some(g);
        while let Some(x) = at_ {
            chain.push(x.range);
            at_ = x.parent.as_deref();
        }
        cx.eval(&format!("{p}|{text}"), t.is_some());
        let pairs: Option<Vec<(usize, usize)>> = chain.iter().map(|r| Some((l.off(r.start)?, l.off(r.end)?))).collect();
        let Some(offs) = pairs else {
            return cx.fail("selection-place", format!("a selection range at {}:{} isn't in the text", pos.line, pos.character), &inp);
        };
        let p = l.off(*pos).unwrap_or(*p);
        if offs.iter().any(|(a, b)| !(*a <= p && p <= *b)) {
            return cx.fail("selection-contains", format!("a selection range at {}:{} doesn't contain the position", pos.line, pos.character), &inp);
        }
        if offs.windows(2).any(|w| !(w[1].0 <= w[0].0 && w[0].1 <= w[1].1)) {
            return cx.fail("selection-nesting", "a parent doesn't contain its child".into(), &inp);
        }
        let Some(t) = t else { continue };
        let mut want = vec![c.r.range(d, *t)];
        let mut n = Some(d.toks[*t].parent);
        while let Some(x) = n {
            want.push(if x == 0 { (0, text.len()) } else { c.node_off(x) });
            n = d.nodes[x].parent;
        }
        cx.state(&format!("{} {:?}", want.len().min(20), d.toks[*t].kind));
        // (blanks and comments before the first token of a node may belong to it)
        let trivia = |a: usize, b: usize| a <= b && lex(&text[a..b]).iter().all(|x| matches!(x.kind, LK::Ws | LK::LineComment | LK::BlockComment));
        if offs.len() != want.len() || offs.iter().zip(&want).any(|(g, w)| g.1 != w.1 || g.0 != w.0 && !trivia(g.0, w.0)) {
            return cx.fail("selection", format!("selection of `{}`: {offs:?}, expected {want:?}", d.toks[*t].text), &inp);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "positions": positions.len()}));
    }
}

/// Words that completion has to offer while they are typed: (kind of item, also when the
/// rest of the document isn't there yet, also directly behind the parenthesis).
fn typed_word(d: &Doc, t: usize) -> Option<(CompletionItemKind, bool, bool)> {
    let tok = &d.toks[t];
    let up = |n: usize| d.nodes[n].parent.unwrap_or(0);
    let node = tok.parent;
    let (kind, gp, ggp) = (d.nodes[node].kind, d.nodes[up(node)].kind, d.nodes[up(up(node))].kind);
    let header = |k: K| matches!(k, K::MODULE_FIELD_FUNC | K::IMPORT_DESC_TYPE_USE);
    const KEY: CompletionItemKind = CompletionItemKind::KEYWORD;
    const TYPE: CompletionItemKind = CompletionItemKind::CLASS;
    let w = tok.text.as_str();
    if tok.kind == K::MEM_ARG {
        // (behind a flat instruction, a word is the next instruction)
        let instr = d.nodes[tok.parent].parent.unwrap_or(0);
        let folded = (0..t).rev().take_while(|p| d.toks[*p].parent != up(instr)).any(|p| d.toks[p].parent == instr && d.toks[p].kind == K::L_PAREN);
        return folded.then_some((CompletionItemKind::SNIPPET, true, false));
    }
    if !matches!(tok.kind, K::KEYWORD | K::INSTR_NAME | K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE) {
        return None;
    }
    if tok.kind == K::INSTR_NAME {
        // (the tool's list of instructions isn't complete: those of the first versions are in it)
        let known = spec::TABLE.iter().any(|x| x.name == w && matches!(x.op, (0x28..=0xBF, None)));
        return (known && gp != K::ELEM_EXPR).then_some((CompletionItemKind::OPERATOR, true, false));
    }
    match (kind, w) {
        (K::MODULE, "module") => Some((KEY, true, true)),
        (K::MODULE_FIELD_ELEM, "elem") | (K::MODULE_FIELD_TABLE, "table") => Some((KEY, true, true)),
        (K::MODULE_FIELD_ELEM | K::MODULE_FIELD_TABLE, _) => (tok.kind == K::REF_TYPE).then_some((TYPE, false, false)),
        (
            K::MODULE_FIELD_DATA | K::MODULE_FIELD_EXPORT | K::MODULE_FIELD_FUNC | K::MODULE_FIELD_GLOBAL | K::MODULE_FIELD_IMPORT | K::MODULE_FIELD_MEMORY | K::MODULE_FIELD_START | K::MODULE_FIELD_TYPE,
            _,
        ) => (tok.kind == K::KEYWORD).then_some((KEY, true, true)),
        (K::EXPORT | K::IMPORT | K::DATA | K::ELEM | K::OFFSET | K::MEM_USE | K::TABLE_USE, _) => (tok.kind == K::KEYWORD).then_some((KEY, true, true)),
        (K::EXPORT_DESC_FUNC | K::EXPORT_DESC_GLOBAL | K::EXPORT_DESC_MEMORY | K::EXPORT_DESC_TABLE, _) => Some((KEY, true, true)),
        (K::IMPORT_DESC_GLOBAL_TYPE | K::IMPORT_DESC_MEMORY_TYPE | K::IMPORT_DESC_TABLE_TYPE | K::IMPORT_DESC_TYPE_USE, _) => Some((KEY, true, true)),
        (K::FUNC_TYPE, "func") | (K::GLOBAL_TYPE, "mut") | (K::LOCAL, "local") => Some((KEY, true, true)),
        (K::TYPE_USE, "type") if header(gp) => Some((KEY, true, true)),
        (K::PARAM, "param") | (K::RESULT, "result") if gp == K::FUNC_TYPE || gp == K::TYPE_USE && ggp == K::MODULE_FIELD_FUNC => Some((KEY, true, true)),
        (K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF | K::BLOCK_IF_ELSE, _) => (tok.kind == K::KEYWORD).then_some((CompletionItemKind::OPERATOR, true, false)),
        (K::ELEM_LIST, "func") => Some((KEY, true, false)),
        (K::ELEM_LIST, _) => (tok.kind == K::REF_TYPE).then_some((TYPE, true, false)),
        (K::TABLE_TYPE, _) => (tok.kind == K::REF_TYPE).then_some((TYPE, true, false)),
        (K::VAL_TYPE, _) => Some((TYPE, matches!(gp, K::PARAM | K::LOCAL), false)),
        _ => None,
    }
}
fn c31(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.wild = false;
    let c = make(rng, o);
    let (d, text) = (&c.d, &c.r.text);
    let words: Vec<(usize, _)> = (0..d.toks.len()).filter_map(|t| Some((t, typed_word(d, t)?))).collect();
    if words.is_empty() {
        return;
    }
    for _ in 0..6 {
        let (t, (item, cut_ok, bare_ok)) = *rng.pick(&words);
        let (a, b) = c.r.range(d, t);
        // (of a memory argument only the part that doesn't vary)
        let word = if item == CompletionItemKind::SNIPPET { &text[a..=a + text[a..b].find('=').unwrap_or(0)] } else { &text[a..b] };
        let cut = cut_ok && rng.chance(1, 2);
        let k = if cut && bare_ok && text[..a].ends_with('(') && rng.chance(1, 5) { 0 } else { rng.range(1, word.len() - 1) };
        let kind = d.nodes[d.toks[t].parent].kind;
        if kind == K::ELEM_LIST && &word[..k] == "func" {
            // a complete word
            continue;
        }
        let typed = format!("{}{}", &text[..a + k], if cut { "" } else { &text[b..] });
        let l = Lines::new(&typed);
        let pos = l.pos(a + k);
        let inp = format!("completion at {}:{} (typing `{word}`)\n{typed}", pos.line, pos.character);
        let Some(got) = cx.guard("completion", &inp, || opened(&typed).completion(completion_params(&uri(0), pos))) else { return };
        let got = match got {
            Some(CompletionResponse::Array(v)) => v,
            Some(CompletionResponse::List(l)) => l.items,
            None => vec![],
        };
        cx.eval(&inp, true);
        cx.count(&format!("{item:?}").to_lowercase(), 1);
        cx.count(if cut { "cut_off" } else { "rest_of_document" }, 1);
        if k == 0 {
            cx.count("behind_parenthesis", 1);
        }
        cx.state(&format!("{kind:?} {} {cut} {k}", if item == CompletionItemKind::OPERATOR { "" } else { word }));
        let same: Vec<&CompletionItem> = got.iter().filter(|g| g.label == word).collect();
        let mut labels: Vec<&str> = got.iter().map(|g| g.label.as_str()).collect();
        labels.truncate(30);
        if same.is_empty() {
            return cx.fail("typing", format!("`{word}` isn't offered, but {labels:?}"), &inp);
        }
        if same.len() > 1 {
            return cx.fail("typing-twice", format!("`{word}` is offered {} times", same.len()), &inp);
        }
        if same[0].kind != Some(item) {
            return cx.fail("typing-kind", format!("`{word}` is offered as {:?}", same[0].kind), &inp);
        }
        if same[0].insert_text.as_ref().is_some_and(|x| x != word) || same[0].text_edit.is_some() {
            return cx.fail("typing-insert", format!("`{word}` inserts something else: {:?}", same[0]), &inp);
        }
        // nothing but words that may stand there
        let only: &[&str] = match kind {
            K::MODULE => &["module"],
            K::MODULE_FIELD_ELEM | K::MODULE_FIELD_TABLE if item != CompletionItemKind::KEYWORD => continue,
            K::EXPORT_DESC_FUNC | K::EXPORT_DESC_GLOBAL | K::EXPORT_DESC_MEMORY | K::EXPORT_DESC_TABLE => &["func", "table", "memory", "global"],
            K::IMPORT_DESC_GLOBAL_TYPE | K::IMPORT_DESC_MEMORY_TYPE | K::IMPORT_DESC_TABLE_TYPE | K::IMPORT_DESC_TYPE_USE => &["func", "table", "memory", "global"],
            K::VAL_TYPE => &["i32", "i64", "f32", "f64", "v128", "funcref", "externref"],
            _ if d.nodes[d.toks[t].parent].parent.is_some_and(|p| d.nodes[p].kind == K::MODULE) => &["data", "elem", "export", "func", "global", "import", "memory", "start", "table", "type"],
            _ => continue,
        };
        if let Some(x) = got.iter().find(|g| !only.contains(&g.label.as_str())) {
            return cx.fail("typing-other", format!("`{}` is offered for `{word}`: {labels:?}", x.label), &inp);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>()}));
    }
}
