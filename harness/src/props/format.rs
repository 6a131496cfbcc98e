//! Formatter monitors.
use crate::{gen::*, lex, lex::LK, mutate, report::*, rng::Rng};
use rowan::ast::AstNode;
use wat_formatter::config::*;
use wat_parser::Parser;
use wat_syntax::{ast::Root, SyntaxNode};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            quick: 400_000,
            thorough: 1000000,
            rule: "one evaluation = one valid document formatted under random options and compared token by token and node by node; distinct by source text",
            assumptions: &["documents come from the ground-truth generator and the committed corpus; token and comment streams are taken with the harness lexer", "`ignore` directives other than by chance are left to C09"],
            required: &["documents_formatted", "comments_in_source", "tokens_and_comments_compared", "formatted_with_tabs", "formatted_with_format_comments"],
            case: c05,
            probes: Some(c05_probes),
        },
        Prop {
            id: "C06",
            quick: 240_000,
            thorough: 750000,
            rule: "one evaluation = one valid document formatted twice, plus two whitespace layouts of one token sequence formatted; non-trivial when formatting changes the text",
            assumptions: &["documents come from the ground-truth generator and the committed corpus; token and comment streams are taken with the harness lexer"],
            required: &["double_formats_compared", "layout_pairs_compared", "blank_variants_compared"],
            case: c06,
            probes: None,
        },
        Prop {
            id: "C07",
            quick: 240_000,
            thorough: 750000,
            rule: "one evaluation = one valid document formatted under random layout options, every line inspected; non-trivial when the output has several lines",
            assumptions: &["documents come from the ground-truth generator and the committed corpus; token and comment streams are taken with the harness lexer", "line widths are judged on ASCII documents"],
            required: &["line_breaks_checked", "indents_checked", "indented_lines", "nesting_checked", "own_lines_checked", "width_triples", "documents_where_width_matters"],
            case: c07,
            probes: None,
        },
        Prop {
            id: "C08",
            quick: 400_000,
            thorough: 1000000,
            rule: "one evaluation = one hostile document formatted; non-trivial when it has syntax errors",
            assumptions: &["nesting as for C01"],
            required: &["broken_documents_formatted", "characters_compared", "valid-damaged", "corpus-damaged"],
            case: c08,
            probes: None,
        },
        Prop {
            id: "C09",
            quick: 240_000,
            thorough: 750000,
            rule: "one evaluation = one document with an ignore directive before a random module or field, formatted with and without it; non-trivial when the ignored text is longer than 8 bytes",
            assumptions: &["documents come from the ground-truth generator and the committed corpus; token and comment streams are taken with the harness lexer"],
            required: &["fields_ignored", "modules_ignored", "ignoring_made_a_difference", "non_directives_compared"],
            case: c09,
            probes: None,
        },
        Prop {
            id: "C10",
            quick: 400_000,
            thorough: 1000000,
            rule: "one evaluation = one range of one document formatted and spliced back; non-trivial when the range is not empty",
            assumptions: &["documents come from the ground-truth generator and the committed corpus; token and comment streams are taken with the harness lexer"],
            required: &["ranges_formatted", "proper_subranges", "hostile_ranges", "whole_document_ranges"],
            case: c10,
            probes: None,
        },
        Prop {
            id: "C32",
            quick: 240_000,
            thorough: 750000,
            rule: "one evaluation = one configuration read, written and read again, and one document with comments formatted under it; non-trivial when an option is set",
            assumptions: &["configurations are read with serde_json"],
            required: &["options_read", "camel_case", "snake_case", "defaults", "refused", "line_comments_spaced", "block_comments_spaced", "comments_kept"],
            case: c32,
            probes: None,
        },
    ]
}
/// Inputs behind recorded findings, so that they stay visible.
fn c05_probes(cx: &mut Cx) {
    let text = "(module (func (export \"p1\") (import \"spectest\" \"print_i32\") (param i32)))";
    let fo = FormatOptions::default();
    let Some((out, _)) = cx.guard("format", text, || format_text(text, &fo)) else { return };
    if stream(text, false) != stream(&out, false) {
        cx.fail("import-export-order", format!("inline import is moved before the inline export\n{out}"), text);
    }
}
pub fn rand_format_opts(rng: &mut Rng) -> FormatOptions {
    FormatOptions {
        layout: LayoutOptions {
            print_width: *rng.pick(&[80, 80, 80, 1, 10, 20, 40, 60, 120, 200, 10000]),
            indent_width: *rng.pick(&[2, 2, 4, 1, 3, 8]),
            line_break: if rng.chance(1, 4) { LineBreak::Crlf } else { LineBreak::Lf },
            use_tabs: rng.chance(1, 4),
        },
        language: LanguageOptions { format_comments: rng.chance(1, 3), ignore_comment_directive: (*rng.pick(&["fmt-ignore", "fmt-ignore", "skip"])).to_string() },
    }
}
pub fn parse_root(text: &str) -> (Root, usize) {
    let mut p = Parser::new(text);
    let t: SyntaxNode = p.parse();
    (Root::cast(t).expect("root"), p.errors().len())
}
pub fn norm_comment(l: &lex::Lexeme) -> String {
    let t = l.text.replace("\r\n", "\n");
    match l.kind {
        LK::LineComment => format!(";;{}", t.strip_prefix(";;").unwrap_or(&t).trim_matches([' ', '\t', '\r'])),
        LK::BlockComment => {
            let inner = t.strip_prefix("(;").and_then(|s| s.strip_suffix(";)")).unwrap_or(&t);
            format!("(;{};)", inner.trim_matches([' ', '\t']))
        }
        _ => l.text.to_string(),
    }
}
/// Token/comment stream: what a formatter must not change.
pub fn stream(text: &str, loose_comments: bool) -> Vec<String> {
    lex::significant(text)
        .iter()
        .map(|l| match l.kind {
            LK::LineComment | LK::BlockComment if loose_comments => norm_comment(l),
            LK::LineComment | LK::BlockComment => l.text.replace("\r\n", "\n"),
            _ => l.text.to_string(),
        })
        .collect()
}
pub fn diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!(
        "stream differs at {i}: source has {:?}, output has {:?}",
        &a[i.saturating_sub(3)..(i + 4).min(a.len())],
        &b[i.saturating_sub(3)..(i + 4).min(b.len())]
    )
}

/// A document plus the layout it was written with.
fn valid_doc(rng: &mut Rng) -> (Doc, Rendered, Layout) {
    let o = rand_opts(rng);
    let d = generate(rng, o);
    let l = rand_layout(rng);
    let r = render(&d, rng, &l);
    (d, r, l)
}
fn format_text(text: &str, fo: &FormatOptions) -> (String, usize) {
    let (r, n) = parse_root(text);
    (wat_formatter::format(&r, fo), n)
}
fn shape_of(text: &str) -> (Vec<String>, usize) {
    let (r, n) = parse_root(text);
    let mut v = vec![];
    super::parser::shape(r.syntax(), &mut v);
    (v, n)
}
/// Content of valid documents survives formatting.
fn c05(cx: &mut Cx, rng: &mut Rng, i: u64) {
    let fo = rand_format_opts(rng);
    let text = if i % 97 == 0 && !mutate::corpus().is_empty() {
        rng.pick(mutate::corpus()).1.clone()
    } else {
        valid_doc(rng).1.text
    };
    let Some(((out, errs), (sh, _))) = cx.guard("format", &text, || (format_text(&text, &fo), shape_of(&text))) else { return };
    if errs > 0 {
        cx.count("skipped_not_valid", 1);
        return;
    }
    cx.eval(&text, text.len() > 20);
    cx.count("documents_formatted", 1);
    cx.count("comments_in_source", lex::significant(&text).iter().filter(|l| matches!(l.kind, LK::LineComment | LK::BlockComment)).count() as u64);
    if fo.layout.use_tabs {
        cx.count("formatted_with_tabs", 1);
    }
    if fo.language.format_comments {
        cx.count("formatted_with_format_comments", 1);
    }
    let a = stream(&text, fo.language.format_comments);
    let b = stream(&out, fo.language.format_comments);
    cx.count("tokens_and_comments_compared", a.len() as u64);
    cx.state(&sh.join(" "));
    if a != b {
        cx.fail("content", format!("{}\nopts {fo:?}\noutput:\n{out}", diff(&a, &b)), &text);
        return;
    }
    let Some((sh2, errs2)) = cx.guard("reparse", &out, || shape_of(&out)) else { return };
    if errs2 > 0 {
        cx.fail("errors-after-format", format!("output has {errs2} syntax errors\nopts {fo:?}\n{out}"), &text);
    } else if sh != sh2 {
        cx.fail("structure", format!("{}\nopts {fo:?}\n{out}", diff(&sh, &sh2)), &text);
    }
    cx.sample(serde_json::json!({"source": text.chars().take(300).collect::<String>(), "formatted": out.chars().take(300).collect::<String>(), "tokens": a.len()}));
}
/// Formatting twice equals formatting once; surface whitespace does not matter.
fn c06(cx: &mut Cx, rng: &mut Rng, i: u64) {
    let fo = rand_format_opts(rng);
    let (d, r, _) = valid_doc(rng);
    let text = if i % 97 == 0 && !mutate::corpus().is_empty() { rng.pick(mutate::corpus()).1.clone() } else { r.text };
    let Some((out, errs)) = cx.guard("format", &text, || format_text(&text, &fo)) else { return };
    if errs > 0 {
        cx.count("skipped_not_valid", 1);
        return;
    }
    cx.eval(&text, out != text);
    let Some((out2, _)) = cx.guard("format", &out, || format_text(&out, &fo)) else { return };
    cx.count("double_formats_compared", 1);
    if out != out2 {
        cx.fail("idempotence", format!("opts {fo:?}\n--1--\n{out}\n--2--\n{out2}"), &text);
    }
    // canonical: two whitespace layouts of one token sequence
    let la = Layout { style: 1, comments: 0, unicode: false, crlf: false };
    let lb = Layout { style: *rng.pick(&[0, 2]), comments: 0, unicode: false, crlf: rng.chance(1, 3) };
    let (ta, tb) = (render(&d, rng, &la).text, render(&d, rng, &lb).text);
    let (ta, tb) = (ta.trim().to_string(), tb.trim().to_string());
    let Some((fa, fb)) = cx.guard("format", &ta, || (format_text(&ta, &fo).0, format_text(&tb, &fo).0)) else { return };
    cx.count("layout_pairs_compared", 1);
    if d.modules.len() == 1 && fa != fb {
        cx.fail("canonical", format!("opts {fo:?}\n--source b--\n{tb}\n--a--\n{fa}\n--b--\n{fb}"), &ta);
    }
    // blanks only: other widths of the blank runs, comments and line breaks kept
    let mut tc = String::new();
    for l in lex::lex(&text) {
        if l.kind == lex::LK::Ws {
            reblank(l.text, rng, &mut tc);
        } else {
            tc.push_str(l.text);
        }
    }
    if tc != text {
        let Some((fc, _)) = cx.guard("format", &tc, || format_text(&tc, &fo)) else { return };
        cx.count("blank_variants_compared", 1);
        if fc != out {
            cx.fail("blank-width", format!("opts {fo:?}\n--source b--\n{tc}\n--a--\n{out}\n--b--\n{fc}"), &text);
        }
    }
    cx.state(&fa.chars().filter(|c| matches!(c, '(' | ')' | '\n')).collect::<String>());
    cx.sample(serde_json::json!({"layout_a": ta.chars().take(200).collect::<String>(), "layout_b": tb.chars().take(200).collect::<String>(), "formatted": fa.chars().take(200).collect::<String>()}));
}
/// Replaces runs of blanks by runs of another length (never empty).
fn reblank(gap: &str, rng: &mut Rng, out: &mut String) {
    let mut in_run = false;
    for c in gap.chars() {
        if matches!(c, ' ' | '\t') {
            if !in_run {
                for _ in 0..1 + rng.below(4) {
                    out.push(if rng.chance(1, 5) { '\t' } else { ' ' });
                }
            }
            in_run = true;
        } else {
            in_run = false;
            out.push(c);
        }
    }
}
fn export_before_import(root: &SyntaxNode) -> bool {
    use wat_syntax::SyntaxKind as K;
    root.descendants().any(|n| {
        n.kind() == K::MODULE_FIELD_FUNC && {
            let ks: Vec<K> = n.children().map(|c| c.kind()).filter(|k| matches!(k, K::EXPORT | K::IMPORT)).collect();
            ks.windows(2).any(|w| w[0] == K::EXPORT && w[1] == K::IMPORT)
        }
    })
}
/// Documents with syntax errors: nothing the user wrote disappears.
fn c08(cx: &mut Cx, rng: &mut Rng, _i: u64) {
    let (text, kind) = mutate::hostile(rng);
    let fo = rand_format_opts(rng);
    let Some((out, errs, reorder)) = cx.guard("format", &text, || {
        let (r, n) = parse_root(&text);
        (wat_formatter::format(&r, &fo), n, export_before_import(r.syntax()))
    }) else {
        return;
    };
    cx.eval(&text, errs > 0 && !text.trim().is_empty());
    cx.count(kind, 1);
    if errs > 0 {
        cx.count("broken_documents_formatted", 1);
    }
    let strip = |s: &str| s.chars().filter(|c| !c.is_ascii_whitespace()).collect::<Vec<char>>();
    let (mut a, mut b) = (strip(&text), strip(&out));
    if reorder {
        // inline import printed before inline exports (see known findings): compare contents only
        a.sort();
        b.sort();
        cx.count("compared_as_multiset", 1);
    }
    cx.count("characters_compared", a.len() as u64);
    let mut it = b.iter();
    let lost = a.iter().enumerate().find(|(_, c)| !it.any(|d| d == *c)).map(|(i, _)| i);
    if let Some(i) = lost {
        let near: String = a[i.saturating_sub(20)..(i + 20).min(a.len())].iter().collect();
        cx.fail("lost", format!("lost near {near:?}\nopts {fo:?}\noutput:\n{out}"), &text);
        return;
    }
    let count = |v: &[char]| v.iter().filter(|c| **c != ')').count();
    if count(&a) != count(&b) {
        cx.fail("invented", format!("output contains text other than closing parens that is not in the source\nopts {fo:?}\noutput:\n{out}"), &text);
    }
    if errs > 0 {
        cx.sample(serde_json::json!({"source": text.chars().take(200).collect::<String>(), "formatted": out.chars().take(200).collect::<String>()}));
    }
}

// ------------------------------------------------------------------ layout options
/// Output lines together with "is the line break that ends it part of a token".
fn lines_outside_tokens(out: &str) -> Vec<(usize, bool)> {
    // (byte offset of each '\n', inside a multi-line token?)
    let mut inside = vec![];
    for l in lex::significant(out) {
        for (i, c) in l.text.char_indices() {
            if c == '\n' {
                inside.push(l.start + i);
            }
        }
    }
    out.char_indices().filter(|(_, c)| *c == '\n').map(|(i, _)| (i, inside.contains(&i))).collect()
}
/// Every module field, instruction, `else` and `end` starts a line of its own.
fn own_lines(cx: &mut Cx, out: &str, inp: &str) {
    use wat_syntax::SyntaxKind as K;
    let root: SyntaxNode = Parser::new(out).parse();
    for e in root.descendants_with_tokens() {
        let (k, Some(p)) = (e.kind(), e.parent()) else { continue };
        let must = matches!(k, K::PLAIN_INSTR | K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF)
            || k == K::BLOCK_IF_ELSE
            || k == K::BLOCK_IF_THEN && p.first_child_or_token().is_some_and(|x| x.kind() == K::L_PAREN)
            || p.kind() == K::MODULE && e.as_node().is_some()
            || k == K::KEYWORD && e.as_token().is_some_and(|t| t.text() == "end");
        if !must {
            continue;
        }
        cx.count("own_lines_checked", 1);
        let a: usize = e.text_range().start().into();
        let ls = out[..a].rfind('\n').map(|x| x + 1).unwrap_or(0);
        if !out[ls..a].trim().is_empty() {
            let line: String = out[ls..].lines().next().unwrap_or("").to_string();
            return cx.fail("own-line", format!("`{}` does not start its line {line:?}\n{out}", e.to_string().chars().take(40).collect::<String>()), inp);
        }
    }
}
fn c07(cx: &mut Cx, rng: &mut Rng, i: u64) {
    let mut fo = rand_format_opts(rng);
    let (d, mut r, _) = valid_doc(rng);
    if rng.chance(1, 3) {
        let l = Layout { style: rng.below(4), comments: 0, unicode: false, crlf: rng.chance(1, 3) };
        r = render(&d, rng, &l);
    }
    let text = if i % 97 == 0 && !mutate::corpus().is_empty() { rng.pick(mutate::corpus()).1.clone() } else { r.text };
    let Some((out, errs)) = cx.guard("format", &text, || format_text(&text, &fo)) else { return };
    if errs > 0 {
        cx.count("skipped_not_valid", 1);
        return;
    }
    cx.eval(&format!("{fo:?}{text}"), out.lines().count() > 1);
    let crlf = matches!(fo.layout.line_break, LineBreak::Crlf);
    let nl = if crlf { "\r\n" } else { "\n" };
    if !out.ends_with(nl) {
        cx.fail("final-line-break", format!("opts {fo:?}\n{out:?}"), &text);
    }
    let brk = lines_outside_tokens(&out);
    let mut start = 0;
    let mut prev_inside = false;
    for (at, inside) in brk {
        let line = &out[start..at];
        if !inside {
            cx.count("line_breaks_checked", 1);
            if line.ends_with('\r') != crlf {
                cx.fail("line-break-kind", format!("line {line:?}\nopts {fo:?}\n{out}"), &text);
            }
        }
        if !prev_inside {
            let ind: String = line.chars().take_while(|c| matches!(c, ' ' | '\t')).collect();
            if !line.trim().is_empty() {
                cx.count("indents_checked", 1);
                let ok = if fo.layout.use_tabs { !ind.contains(' ') } else { !ind.contains('\t') && ind.len() % fo.layout.indent_width == 0 };
                if !ok {
                    cx.fail("indent-kind", format!("line {line:?}\nopts {fo:?}\n{out}"), &text);
                }
                if !ind.is_empty() {
                    cx.count("indented_lines", 1);
                }
            }
        }
        if !inside {
            let l = line.trim_end_matches('\r');
            let tail_is_comment = lex::significant(&out).iter().any(|x| x.kind == LK::LineComment && x.start >= start && x.start < at);
            if l.ends_with([' ', '\t']) && !tail_is_comment {
                cx.fail("trailing-space", format!("line {l:?}\nopts {fo:?}\n{out}"), &text);
            }
        }
        prev_inside = inside;
        start = at + 1;
    }
    {
        let la = Layout { style: *rng.pick(&[0, 1]), comments: 0, unicode: false, crlf: false };
        let ta = render(&d, rng, &la).text;
        let Some((fa, _)) = cx.guard("format", &ta, || format_text(&ta, &fo)) else { return };
        own_lines(cx, &fa, &ta);
        for (ls, depth) in nesting(&fa) {
            let ind = fa[ls..].chars().take_while(|c| matches!(c, ' ' | '\t')).count();
            let l = fa[ls..].trim_start_matches([' ', '\t']);
            let in_func = fa[..ls].rfind("(func").is_some_and(|f| {
                let head = &fa[..f];
                let ll = head.rfind('\n').map(|p| p + 1).unwrap_or(0);
                // a func field starts its own line directly below the module
                head[ll..].trim().is_empty() && {
                    let mut n = 0i32;
                    lex::significant(&fa[f..ls]).iter().all(|x| {
                        n += (x.kind == LK::LParen) as i32 - (x.kind == LK::RParen) as i32;
                        n > 0
                    })
                }
            });
            let header = ["(param", "(result", "(local ", "(type", "(export", "(import", "\""].iter().any(|h| l.starts_with(h));
            if depth > 1 && (!in_func || header) {
                continue;
            }
            let want = if fo.layout.use_tabs { depth } else { depth * fo.layout.indent_width };
            cx.count("nesting_checked", 1);
            if ind != want {
                let line: String = fa[ls..].lines().next().unwrap_or("").to_string();
                cx.fail("nesting", format!("line {line:?} is indented {ind}, its nesting depth asks for {want}\nopts {fo:?}\n{fa}"), &ta);
                break;
            }
        }
    }
    // width: what is over the limit could not be broken any further
    if text.is_ascii() && !crlf {
        let w = fo.layout.print_width;
        fo.layout.print_width = 1;
        let Some((narrow, _)) = cx.guard("format", &text, || format_text(&text, &fo)) else { return };
        let set: std::collections::HashSet<&str> = narrow.lines().map(|l| l.trim()).collect();
        fo.layout.print_width = 100000;
        let Some((wide, _)) = cx.guard("format", &text, || format_text(&text, &fo)) else { return };
        cx.count("width_triples", 1);
        if narrow != wide {
            cx.count("documents_where_width_matters", 1);
        }
        let width = |l: &str| {
            let t = l.trim_start_matches(['\t', ' ']);
            let lead = &l[..l.len() - t.len()];
            lead.chars().map(|c| if c == '\t' { fo.layout.indent_width } else { 1 }).sum::<usize>() + t.len()
        };
        for l in out.lines() {
            if width(l) > w && !set.contains(l.trim()) {
                cx.fail("too-wide", format!("line {l:?} is wider than {w} and can be broken\nopts {fo:?}\n{out}\n--narrow--\n{narrow}"), &text);
                break;
            }
        }
        let maxw = wide.lines().map(|l| width(l)).max().unwrap_or(0);
        // (a comment of several lines breaks the lines around it, depending on what precedes them)
        if maxw <= w && out != wide && !lex::lex(&text).iter().any(|t| t.text.contains('\n') && t.text.starts_with("(;")) {
            cx.fail("needlessly-broken", format!("everything fits {w}\nopts {fo:?}\n{out}\n--wide--\n{wide}"), &text);
        }
    }
}
/// Nesting depth of every line's first token: open parentheses plus open unfolded blocks.
fn nesting(out: &str) -> Vec<(usize, usize)> {
    // (line start, depth)
    let mut depth = 0usize;
    let mut stack: Vec<bool> = vec![];
    let mut res = vec![];
    let toks: Vec<_> = lex::significant(out);
    let mut last_line_end = 0;
    for (k, l) in toks.iter().enumerate() {
        let ls = out[..l.start].rfind('\n').map(|p| p + 1).unwrap_or(0);
        let first = k == 0 || out[..l.start].rfind('\n').is_some_and(|p| p >= last_line_end);
        let after_lp = k > 0 && toks[k - 1].kind == LK::LParen;
        let flat_kw = |s: &str| l.kind == LK::Atom && l.text == s && !after_lp;
        if l.kind == LK::RParen {
            depth = depth.saturating_sub(1);
            stack.pop();
        }
        if flat_kw("end") {
            depth = depth.saturating_sub(1);
            stack.pop();
        }
        if first {
            res.push((ls, if flat_kw("else") { depth.saturating_sub(1) } else { depth }));
        }
        if l.kind == LK::LParen {
            depth += 1;
            stack.push(true);
        }
        if flat_kw("block") || flat_kw("loop") || flat_kw("if") {
            depth += 1;
            stack.push(false);
        }
        last_line_end = l.start + l.text.len();
    }
    res
}

// ------------------------------------------------------------------ fmt-ignore
fn last_tok(d: &Doc, n: usize) -> usize {
    match d.nodes[n].ch.last().unwrap() {
        El::T(t) => *t,
        El::N(n) => last_tok(d, *n),
    }
}
fn first_tok(d: &Doc, n: usize) -> usize {
    match d.nodes[n].ch.first().unwrap() {
        El::T(t) => *t,
        El::N(n) => first_tok(d, *n),
    }
}
fn c09(cx: &mut Cx, rng: &mut Rng, _i: u64) {
    let mut o = rand_opts(rng);
    o.modules = if rng.chance(1, 4) { 2 } else { 1 };
    let d = generate(rng, o);
    let l = rand_layout(rng);
    let r = render(&d, rng, &l);
    let fo = rand_format_opts(rng);
    let nl = if l.crlf { "\r\n" } else { "\n" };
    // the field or module to leave alone
    let m = *rng.pick(&d.modules);
    let mut cands = vec![m, m];
    cands.extend(d.nodes[m].ch.iter().filter_map(|e| match e {
        El::N(n) if format!("{:?}", d.nodes[*n].kind).starts_with("MODULE_FIELD") => Some(*n),
        _ => None,
    }));
    cands.extend(cands[2..].to_vec());
    let target = *rng.pick(&cands);
    let (ft, lt) = (first_tok(&d, target), last_tok(&d, target));
    let (s, e) = (r.starts[ft], r.range(&d, lt).1);
    let raw = &r.text[s..e];
    let dir = fo.language.ignore_comment_directive.clone();
    let pad = *rng.pick(&["", " ", "  "]);
    let tail = *rng.pick(&["", "", " because", "\twhy (;", " "]);
    let indent = *rng.pick(&["", "  ", "\t"]);
    let build = |word: &str| format!("{}{nl};;{pad}{word}{tail}{nl}{indent}{}", &r.text[..s], &r.text[s..]);
    let with = build(&dir);
    let plain_word = "z".repeat(dir.len());
    let plain = build(&plain_word);
    let Some(((a, ea), (b, _))) = cx.guard("format", &with, || (format_text(&with, &fo), format_text(&plain, &fo))) else { return };
    if ea > 0 {
        cx.harness_errors.push(format!("generated document has errors, case {}", cx.case));
        return;
    }
    cx.eval(&with, raw.len() > 8);
    cx.count(if target == m { "modules_ignored" } else { "fields_ignored" }, 1);
    // index of the target's first lexeme
    let k = lex::significant(&with).iter().position(|x| x.start == s + (with.len() - r.text.len())).unwrap();
    let n = lex::significant(raw).len();
    let norm = |s: &str| s.replace("\r\n", "\n");
    let span = |out: &str| {
        let v = lex::significant(out);
        if v.len() < k + n {
            return None;
        }
        Some((v[k].start, v[k + n - 1].start + v[k + n - 1].text.len()))
    };
    let (Some((as_, ae)), Some((bs, be))) = (span(&a), span(&b)) else {
        cx.fail("ignored-lost", format!("output lost tokens\nopts {fo:?}\n{a}"), &with);
        return;
    };
    if norm(&a[as_..ae]) != norm(raw) {
        cx.fail("not-verbatim", format!("ignored text became {:?}\nopts {fo:?}\n{a}", &a[as_..ae]), &with);
        return;
    }
    if !a[as_..ae].contains(&b[bs..be]) {
        cx.count("ignoring_made_a_difference", 1);
    }
    // everything else is formatted as if the comment were an ordinary one
    let before_b = b[..bs].replacen(&plain_word, &dir, 1);
    if a[..as_] != before_b {
        cx.fail("outside-before", format!("text before the ignored node differs\nopts {fo:?}\n--ignored--\n{a}\n--plain--\n{b}"), &with);
    }
    let own_line = |s: &str| s.trim_start_matches('\r').starts_with('\n');
    let stuck = !own_line(&a[ae..]) || !own_line(&b[be..]);
    if stuck && stream(&a[ae..], false) != stream(&b[be..], false) || !stuck && a[ae..] != b[be..] {
        cx.fail("outside-after", format!("text after the ignored node differs\nopts {fo:?}\n--ignored--\n{a}\n--plain--\n{b}"), &with);
    }
    // a longer word is not the directive: same result as any other comment
    let longer = format!("{dir}{}", *rng.pick(&["x", "-", "d", "2"]));
    let (near, far) = (build(&longer), build(&"z".repeat(longer.len())));
    let Some((n, f)) = cx.guard("format", &near, || (format_text(&near, &fo).0, format_text(&far, &fo).0)) else { return };
    cx.count("non_directives_compared", 1);
    if f.replacen(&"z".repeat(longer.len()), &longer, 1) != n {
        cx.fail("non-directive", format!("`{longer}` acts as a directive\nopts {fo:?}\n{n}\n--\n{f}"), &near);
    }
    cx.state(raw);
    cx.sample(serde_json::json!({"source": with.chars().take(300).collect::<String>(), "formatted": a.chars().take(300).collect::<String>()}));
}

// ------------------------------------------------------------------ range formatting
fn boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
fn c10(cx: &mut Cx, rng: &mut Rng, i: u64) {
    let fo = rand_format_opts(rng);
    let hostile = rng.chance(1, 4);
    let text = if hostile { mutate::hostile(rng).0 } else if i % 97 == 0 { rng.pick(mutate::corpus()).1.clone() } else { valid_doc(rng).1.text };
    let (a, b) = match rng.below(6) {
        0 => (0, text.len()),
        1 => {
            let p = boundary(&text, rng.below(text.len() + 1));
            (p, p)
        }
        2 | 3 => {
            let t = lex::significant(&text);
            if t.is_empty() {
                (0, 0)
            } else {
                let x = rng.below(t.len());
                let y = (x + rng.below(6)).min(t.len() - 1);
                (t[x].start, t[y].start + t[y].text.len())
            }
        }
        _ => {
            let x = boundary(&text, rng.below(text.len() + 1));
            let y = boundary(&text, rng.below(text.len() + 1));
            (x.min(y), x.max(y))
        }
    };
    let range = rowan::TextRange::new((a as u32).into(), (b as u32).into());
    let Some((res, errs, reorder)) = cx.guard("format_range", &format!("{a}..{b} {text}"), || {
        let (r, n) = parse_root(&text);
        let li = line_index::LineIndex::new(&text);
        (wat_formatter::format_range(&r, &fo, range, &li), n, export_before_import(r.syntax()))
    }) else {
        return;
    };
    cx.eval(&format!("{a} {b} {text}"), b > a);
    let key = format!("range {a}..{b} of {text}");
    let Some((new, rr)) = res else {
        cx.fail("no-answer", format!("no result for a range in the document, opts {fo:?}"), &key);
        return;
    };
    let (s, e): (usize, usize) = (u32::from(rr.start()) as usize, u32::from(rr.end()) as usize);
    cx.count("ranges_formatted", 1);
    if s > a || e < b || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
        cx.fail("range", format!("replaced range {s}..{e} does not cover the request"), &key);
        return;
    }
    if e - s < text.len() {
        cx.count("proper_subranges", 1);
    }
    let spliced = format!("{}{}{}", &text[..s], new, &text[e..]);
    if hostile {
        cx.count("hostile_ranges", 1);
        let strip = |s: &str| s.chars().filter(|c| !c.is_ascii_whitespace()).collect::<Vec<char>>();
        let (mut x, mut y) = (strip(&text[s..e]), strip(&new));
        if reorder {
            x.sort();
            y.sort();
        }
        let mut it = y.iter();
        if !x.iter().all(|c| it.any(|d| d == c)) {
            cx.fail("lost", format!("range {s}..{e} lost text\nnew: {new:?}"), &key);
        }
        return;
    }
    if errs > 0 {
        return;
    }
    let (x, y) = (stream(&text, fo.language.format_comments), stream(&spliced, fo.language.format_comments));
    if x != y {
        cx.fail("content", format!("{}\nopts {fo:?}\nreplaced {s}..{e} with {new:?}", diff(&x, &y)), &key);
        return;
    }
    let Some(((sh, _), (sh2, e2))) = cx.guard("reparse", &spliced, || (shape_of(&text), shape_of(&spliced))) else { return };
    if e2 > 0 || sh != sh2 {
        cx.fail("structure", format!("replaced {s}..{e} with {new:?}: {e2} errors, {}", diff(&sh, &sh2)), &key);
    }
    if (s, e) == (0, text.len()) {
        let Some((full, _)) = cx.guard("format", &text, || format_text(&text, &fo)) else { return };
        cx.count("whole_document_ranges", 1);
        if full.trim_end() != new.trim_end() && text.len() == b - a {
            cx.fail("whole", "range formatting of the whole document differs from formatting".into(), &key);
        }
    }
    cx.sample(serde_json::json!({"range": [a, b], "replaced": [s, e], "new_text": new.chars().take(200).collect::<String>()}));
}

// ------------------------------------------------------------------ options
fn same_options(a: &FormatOptions, b: &FormatOptions) -> Option<&'static str> {
    let crlf = |o: &FormatOptions| matches!(o.layout.line_break, LineBreak::Crlf);
    if a.layout.print_width != b.layout.print_width {
        Some("print_width")
    } else if a.layout.indent_width != b.layout.indent_width {
        Some("indent_width")
    } else if crlf(a) != crlf(b) {
        Some("line_break")
    } else if a.layout.use_tabs != b.layout.use_tabs {
        Some("use_tabs")
    } else if a.language.format_comments != b.language.format_comments {
        Some("format_comments")
    } else if a.language.ignore_comment_directive != b.language.ignore_comment_directive {
        Some("ignore_comment_directive")
    } else {
        None
    }
}
fn spaced(c: &str) -> String {
    let blank = |x: Option<char>| matches!(x, Some(' ' | '\t'));
    if let Some(x) = c.strip_prefix(";;") {
        return if x.is_empty() || blank(x.chars().next()) { c.to_string() } else { format!(";; {x}") };
    }
    let x = &c[2..c.len() - 2];
    if x.is_empty() {
        return c.to_string();
    }
    format!("(;{}{x}{};)", if blank(x.chars().next()) { "" } else { " " }, if blank(x.chars().last()) { "" } else { " " })
}
fn c32(cx: &mut Cx, rng: &mut Rng, i: u64) {
    use serde_json::{json, Map, Value};
    // what the options are to be, the documented defaults for those left out
    let fo = rand_format_opts(rng);
    let mut want = FormatOptions {
        layout: LayoutOptions { print_width: 80, indent_width: 2, line_break: LineBreak::Lf, use_tabs: false },
        language: LanguageOptions { format_comments: false, ignore_comment_directive: "fmt-ignore".into() },
    };
    let mut obj: Vec<(String, Value)> = vec![];
    for k in 0..6 {
        if rng.chance(1, 3) {
            cx.count("defaults", 1);
            continue;
        }
        let camel = rng.chance(1, 2);
        cx.count(if camel { "camel_case" } else { "snake_case" }, 1);
        cx.count("options_read", 1);
        let (names, v) = match k {
            0 => {
                want.layout.print_width = fo.layout.print_width;
                (["print_width", "printWidth"], json!(fo.layout.print_width))
            }
            1 => {
                want.layout.indent_width = fo.layout.indent_width;
                (["indent_width", "indentWidth"], json!(fo.layout.indent_width))
            }
            2 => {
                let v = if matches!(fo.layout.line_break, LineBreak::Crlf) { "crlf" } else { "lf" };
                want.layout.line_break = fo.layout.line_break.clone();
                ([if rng.chance(1, 3) { "linebreak" } else { "line_break" }, "lineBreak"], json!(v))
            }
            3 => {
                want.layout.use_tabs = fo.layout.use_tabs;
                (["use_tabs", "useTabs"], json!(fo.layout.use_tabs))
            }
            4 => {
                want.language.format_comments = fo.language.format_comments;
                (["format_comments", "formatComments"], json!(fo.language.format_comments))
            }
            _ => {
                want.language.ignore_comment_directive = fo.language.ignore_comment_directive.clone();
                (["ignore_comment_directive", "ignoreCommentDirective"], json!(fo.language.ignore_comment_directive))
            }
        };
        obj.push((names[camel as usize].to_string(), v));
    }
    for n in (1..obj.len()).rev() {
        obj.swap(n, rng.below(n + 1));
    }
    let set = !obj.is_empty();
    // as text, so that the order of the options is the one chosen here
    let show = |obj: &[(String, Value)]| format!("{{{}}}", obj.iter().map(|(k, v)| format!("{}:{v}", json!(k))).collect::<Vec<_>>().join(","));
    let conf = show(&obj);
    let (d, r, _) = valid_doc(rng);
    let _ = d;
    let text = r.text;
    cx.eval(&format!("{conf}{text}"), set);
    let Some(read) = cx.guard("read", &conf, || serde_json::from_str::<FormatOptions>(&conf)) else { return };
    let read = match read {
        Ok(r) => r,
        Err(e) => return cx.fail("refused", format!("the configuration is refused: {e}"), &conf),
    };
    if let Some(o) = same_options(&read, &want) {
        return cx.fail("option", format!("{o} is not what the configuration says: {read:?}, expected {want:?}"), &conf);
    }
    if let Some(o) = same_options(&FormatOptions::default(), &serde_json::from_value(Value::Object(Map::new())).unwrap_or_default()) {
        return cx.fail("default", format!("{o} has different defaults"), &conf);
    }
    let Some(again) = cx.guard("write", &conf, || serde_json::to_value(&read).and_then(serde_json::from_value::<FormatOptions>)) else { return };
    match again {
        Ok(a) => {
            if let Some(o) = same_options(&a, &want) {
                return cx.fail("round-trip", format!("{o} is not written and read back"), &conf);
            }
        }
        Err(e) => return cx.fail("round-trip", format!("what is written is refused: {e}"), &conf),
    }
    if set {
        // a value of a wrong type
        let n = rng.below(obj.len());
        let mut bad = obj.clone();
        let wrong = if bad[n].1.is_string() {
            if bad[n].0.to_lowercase().starts_with("line") { json!("cr") } else { json!(5) }
        } else if bad[n].1.is_number() {
            rng.pick(&[json!("80"), json!(-1), json!(1.5), json!(true)]).clone()
        } else {
            rng.pick(&[json!("true"), json!(1)]).clone()
        };
        bad[n].1 = wrong;
        let conf = show(&bad);
        cx.count("refused", 1);
        if let Ok(o) = serde_json::from_str::<FormatOptions>(&conf) {
            return cx.fail("accepted", format!("a wrong value is accepted: {o:?}"), &conf);
        }
    }
    // comments
    if text.contains(&want.language.ignore_comment_directive) {
        return;
    }
    let Some((out, errs)) = cx.guard("format", &text, || format_text(&text, &read)) else { return };
    if errs > 0 {
        return;
    }
    let comments = |t: &str| -> Vec<String> { lex::significant(t).iter().filter(|l| matches!(l.kind, LK::LineComment | LK::BlockComment)).map(|l| l.text.replace("\r\n", "\n").trim_end_matches('\r').to_string()).collect() };
    let (a, b) = (comments(&text), comments(&out));
    for (x, y) in a.iter().zip(&b) {
        let w = if want.language.format_comments { spaced(x) } else { x.clone() };
        if w == *x {
            cx.count("comments_kept", 1);
        } else {
            cx.count(if x.starts_with(";;") { "line_comments_spaced" } else { "block_comments_spaced" }, 1);
        }
        // (blanks at the end of a line comment don't count)
        let trim = |s: &str| if s.starts_with(";;") { s.trim_end().to_string() } else { s.to_string() };
        if trim(&w) != trim(y) {
            return cx.fail("comment", format!("the comment {x:?} becomes {y:?}, expected {w:?}\nopts {want:?}"), &text);
        }
    }
    if a.len() != b.len() {
        return cx.fail("comment-count", format!("{} comments become {}", a.len(), b.len()), &text);
    }
    if i < 3 {
        cx.sample(json!({"configuration": conf, "comments": a.len()}));
    }
}
