use crate::{gen::*, lex, mutate, report::*, rng::Rng};
use wat_parser::Parser;
use wat_syntax::{SyntaxKind as K, SyntaxNode};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 800_000,
            thorough: 3000000,
            rule: "one evaluation = one text parsed; distinct by text, non-trivial when longer than 3 bytes",
            assumptions: &["nesting depth is at most a few hundred levels (the recursive parser needs stack in proportion to it)", "8 workers, 16 MiB stack, 40 s CPU limit per case"],
            required: &["bytes_parsed", "tokens_checked", "documents_with_errors", "valid-damaged", "corpus-damaged", "soup", "char-soup", "deeply-nested"],
            case: c01,
            probes: Some(c01_probes),
        },
        Prop {
            id: "C02",
            quick: 600_000,
            thorough: 2000000,
            rule: "one evaluation = one text parsed and its error list judged; distinct by text, non-trivial when an error is reported or a mistake was planted",
            assumptions: &["the harness lexer (written from the WebAssembly spec) decides balance and stray characters", "mistakes are planted in documents of the ground-truth generator"],
            required: &["errors_checked", "error_tokens", "surely_wrong", "junk", "paren-removed", "paren-added", "required-removed"],
            case: c02,
            probes: None,
        },
        Prop {
            id: "C03",
            quick: 240_000,
            thorough: 600000,
            rule: "one evaluation = one generated valid document parsed and its tree compared with the generator's; distinct by text",
            assumptions: &["validity and tree come from the harness generator, which follows the WebAssembly text grammar as far as the tool's grammar goes (no v128.const, no `select (result t)`, no multi-memory operands)"],
            required: &["nodes_compared", "tokens_compared"],
            case: c03,
            probes: None,
        },
        Prop {
            id: "C04",
            quick: 400_000,
            thorough: 1000000,
            rule: "one evaluation = one valid document with one planted mistake; distinct by text, non-trivial when it yields a syntax error",
            assumptions: &["stray characters are planted after a token of an instruction of a function body, outside `if`"],
            required: &["other_fields_compared", "documents_with_a_syntax_error", "stray_in_body", "truncated", "rest-is-soup"],
            case: c04,
            probes: None,
        },
    ]
}
/// Inputs behind recorded findings, so that they stay visible.
fn c01_probes(cx: &mut Cx) {
    let text = format!("(module (func {}", "(if ".repeat(40));
    if !finishes(&text, 4) {
        cx.fail("exponential-if", "40 nested folded `if` without `then` do not parse within 4 s of CPU time".into(), &text);
    }
    for f in ["(block ", "(loop ", "block ", "if ", "(i32.eqz ", "(call 0 ", "(if (i32.const 0) (then ", "(param ", "(elem (item "] {
        for tail in ["", ")", "]"] {
            let text = format!("(module (func {}{tail}", f.repeat(60));
            cx.count("nesting_probes", 1);
            if !finishes(&text, 20) {
                cx.fail("slow", "60 levels of nesting do not parse within 20 s of CPU time".into(), &text);
            }
        }
    }
}
fn finishes(text: &str, secs: u64) -> bool {
    use std::{io::Write, os::unix::process::CommandExt};
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("parse").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: secs, rlim_max: secs };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut ch = c.spawn().unwrap();
    let _ = ch.stdin.take().unwrap().write_all(text.as_bytes());
    ch.wait().unwrap().success()
}
pub fn shape(n: &SyntaxNode, out: &mut Vec<String>) {
    out.push(format!("<{:?}", n.kind()));
    for c in n.children_with_tokens() {
        match c {
            rowan::NodeOrToken::Node(n) => shape(&n, out),
            rowan::NodeOrToken::Token(t) => {
                if !matches!(t.kind(), K::WHITESPACE | K::LINE_COMMENT | K::BLOCK_COMMENT) {
                    out.push(format!("{:?} {}", t.kind(), t.text()));
                }
            }
        }
    }
    out.push(">".into());
}
fn gshape(d: &Doc, n: usize, out: &mut Vec<String>) {
    out.push(format!("<{:?}", d.nodes[n].kind));
    for c in &d.nodes[n].ch {
        match c {
            El::N(n) => gshape(d, *n, out),
            El::T(t) => out.push(format!("{:?} {}", d.toks[*t].kind, d.toks[*t].text)),
        }
    }
    out.push(">".into());
}
fn c03(cx: &mut Cx, rng: &mut Rng, _i: u64) {
    let o = rand_opts(rng);
    let d = generate(rng, o);
    let l = rand_layout(rng);
    let r = render(&d, rng, &l);
    let Some((tree, errs)) = cx.guard("parse", &r.text, || {
        let mut p = Parser::new(&r.text);
        let t = p.parse();
        (t, p.errors().to_vec())
    }) else {
        return;
    };
    cx.eval(&r.text, true);
    if !errs.is_empty() {
        cx.fail("errors-on-valid", format!("{:?}", errs), &r.text);
        return;
    }
    let (mut a, mut b) = (vec![], vec![]);
    shape(&tree, &mut a);
    gshape(&d, 0, &mut b);
    cx.count("nodes_compared", d.nodes.len() as u64);
    cx.count("tokens_compared", d.toks.len() as u64);
    cx.state(&d.nodes.iter().map(|n| format!("{:?}", n.kind)).collect::<Vec<_>>().join(" "));
    cx.sample(serde_json::json!({"text": r.text.chars().take(300).collect::<String>(), "nodes": d.nodes.len()}));
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        cx.fail("tree", format!("at {i}: got {:?} want {:?}", &a[i.saturating_sub(3)..(i + 4).min(a.len())], &b[i.saturating_sub(3)..(i + 4).min(b.len())]), &r.text);
    }
}

fn parse(text: &str) -> (SyntaxNode, Vec<wat_parser::SyntaxError>) {
    let mut p = Parser::new(text);
    let t = p.parse();
    (t, p.errors().to_vec())
}
/// Any text: a tree that prints back to it, in bounded time, without crashing.
fn c01(cx: &mut Cx, rng: &mut Rng, _i: u64) {
    let (text, kind) = mutate::hostile(rng);
    cx.eval(&text, text.len() > 3);
    cx.count(kind, 1);
    let Some((tree, errs)) = cx.guard("parse", &text, || parse(&text)) else { return };
    cx.count("bytes_parsed", text.len() as u64);
    if !errs.is_empty() {
        cx.count("documents_with_errors", 1);
    }
    if tree.kind() != K::ROOT {
        cx.fail("root", format!("tree is a {:?}", tree.kind()), &text);
    }
    let printed = tree.to_string();
    if printed != text {
        let i = printed.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
        cx.fail("lossy", format!("tree prints {} of {} bytes, differs at byte {i}", printed.len(), text.len()), &text);
    }
    let mut at = 0usize;
    for e in tree.descendants_with_tokens() {
        if let rowan::NodeOrToken::Token(t) = e {
            let r = t.text_range();
            if u32::from(r.start()) as usize != at || text.get(at..u32::from(r.end()) as usize) != Some(t.text()) {
                cx.fail("token-position", format!("{t:?} is not at byte {at} of the text"), &text);
                break;
            }
            at = u32::from(r.end()) as usize;
            cx.count("tokens_checked", 1);
        }
    }
    // the same text gives the same tree and errors, whatever was parsed before
    let Some((tree2, errs2)) = cx.guard("parse", &text, || parse(&text)) else { return };
    if tree.green() != tree2.green() || errs.len() != errs2.len() || errs.iter().zip(&errs2).any(|(a, b)| a.start != b.start || a.end != b.end || a.message != b.message) {
        cx.fail("unstable", "parsing the same text twice gives different results".into(), &text);
    }
    cx.state(&tree.descendants().map(|n| format!("{:?}", n.kind())).collect::<Vec<_>>().join(" "));
    cx.sample(serde_json::json!({"workload": kind, "text": text.chars().take(200).collect::<String>(), "errors": errs.len(), "nodes": tree.descendants().count()}));
}
/// What an independent lexer knows to be wrong with the text.
fn surely_wrong(text: &str) -> Option<&'static str> {
    let mut depth = 0i64;
    let mut stray = None;
    for l in lex::significant(text) {
        match l.kind {
            lex::LK::LParen => depth += 1,
            lex::LK::RParen => {
                depth -= 1;
                if depth < 0 {
                    return Some("stray closing parenthesis");
                }
            }
            lex::LK::Other => stray = Some("character that no token can contain, or unterminated string or comment"),
            _ => {}
        }
    }
    if depth > 0 {
        return Some("unclosed parenthesis");
    }
    stray
}
fn c02(cx: &mut Cx, rng: &mut Rng, _i: u64) {
    if rng.chance(1, 2) {
        let (text, kind) = mutate::hostile(rng);
        cx.count(kind, 1);
        let Some((tree, errs)) = cx.guard("parse", &text, || parse(&text)) else { return };
        cx.eval(&text, !errs.is_empty());
        c02_common(cx, &text, &tree, &errs);
        return;
    }
    // one mistake in a valid document
    let o = rand_opts(rng);
    let d = generate(rng, o);
    let l = rand_layout(rng);
    let r = render(&d, rng, &l);
    let t = rng.below(d.toks.len());
    let (s, e) = r.range(&d, t);
    let (text, lo, hi, what) = match rng.below(6) {
        0 => {
            let junk = *rng.pick(&[",", "[", "]", "{", "}", "'", "é", "\u{1f600}"]);
            (format!("{} {junk} {}", &r.text[..s], &r.text[s..]), s + 1, s + 1 + junk.len(), "junk")
        }
        1 => {
            let parens: Vec<usize> = (0..d.toks.len()).filter(|t| matches!(d.toks[*t].kind, K::L_PAREN | K::R_PAREN)).collect();
            let t = *rng.pick(&parens);
            let (s, e) = r.range(&d, t);
            (format!("{} {}", &r.text[..s], &r.text[e..]), s, r.text.len(), "paren-removed")
        }
        2 => {
            // opening or closing parenthesis added
            let p = *rng.pick(&["(", ")"]);
            (format!("{} {p} {}", &r.text[..s], &r.text[s..]), s, r.text.len() + 3, "paren-added")
        }
        3 => {
            // a word that only closes or divides a block, where there is none to close
            let open = d.toks.iter().any(|t| t.kind == K::KEYWORD && t.text == "end");
            let w = *rng.pick(if open { &["end", "end", "then"] } else { &["end", "else", "then"] });
            (format!("{} {w} {}", &r.text[..s], &r.text[s..]), s, s + 1, "stray-block-word")
        }
        4 => {
            // a folded `if` that has lost its `then` branch
            let thens: Vec<usize> = (0..d.toks.len())
                .filter(|t| {
                    let n = d.toks[*t].parent;
                    d.nodes[n].kind == K::BLOCK_IF_THEN && d.toks[*t].kind == K::L_PAREN
                })
                .collect();
            if thens.is_empty() {
                cx.count("no_folded_if", 1);
                return;
            }
            let t = *rng.pick(&thens);
            let mut inner = vec![];
            collect(&d, d.toks[t].parent, &mut inner);
            let (s, _) = r.range(&d, inner[0]);
            let (_, e) = r.range(&d, *inner.last().unwrap());
            (format!("{} {}", &r.text[..s], &r.text[e..]), s, s + 1, "then-branch-removed")
        }
        _ => {
            // a token that the production around it cannot do without
            let need: Vec<usize> = (0..d.toks.len()).filter(|t| required(&d, *t)).collect();
            let t = *rng.pick(&need);
            let (s, e) = r.range(&d, t);
            cx.state(&format!("{:?} {:?}", d.nodes[d.toks[t].parent].kind, d.toks[t].kind));
            (format!("{} {}", &r.text[..s], &r.text[e..]), s, s + 1, "required-removed")
        }
    };
    let _ = e;
    let Some((tree, errs)) = cx.guard("parse", &text, || parse(&text)) else { return };
    cx.eval(&text, true);
    cx.count(what, 1);
    c02_common(cx, &text, &tree, &errs);
    if errs.is_empty() {
        cx.fail("missed", format!("{what} at {lo} gives no syntax error"), &text);
        return;
    }
    if matches!(what, "junk") && !errs.iter().any(|e| e.start <= hi && e.end >= lo) {
        cx.fail("elsewhere", format!("{what} at {lo}..{hi} but errors are at {:?}", errs.iter().map(|e| (e.start, e.end)).collect::<Vec<_>>()), &text);
    }
    cx.state(what);
    cx.sample(serde_json::json!({"mistake": what, "at": lo, "errors": errs.iter().map(|e| e.message.to_string()).collect::<Vec<_>>()}));
}
/// Tokens whose removal always leaves an ungrammatical document.
fn required(d: &Doc, t: usize) -> bool {
    let p = d.toks[t].parent;
    let text = d.toks[t].text.as_str();
    match (d.nodes[p].kind, d.toks[t].kind) {
        (K::MODULE | K::EXPORT | K::IMPORT | K::FUNC_TYPE | K::OFFSET | K::ELEM_EXPR | K::TYPE_USE | K::MEM_USE | K::TABLE_USE | K::DATA | K::ELEM | K::BLOCK_IF_THEN, K::KEYWORD) => true,
        (K::EXPORT_DESC_FUNC | K::EXPORT_DESC_GLOBAL | K::EXPORT_DESC_MEMORY | K::EXPORT_DESC_TABLE, K::KEYWORD) => true,
        (K::IMPORT_DESC_TYPE_USE | K::IMPORT_DESC_GLOBAL_TYPE | K::IMPORT_DESC_MEMORY_TYPE | K::IMPORT_DESC_TABLE_TYPE, K::KEYWORD) => true,
        (
            K::MODULE_FIELD_DATA | K::MODULE_FIELD_EXPORT | K::MODULE_FIELD_FUNC | K::MODULE_FIELD_GLOBAL | K::MODULE_FIELD_IMPORT | K::MODULE_FIELD_MEMORY | K::MODULE_FIELD_START
            | K::MODULE_FIELD_TABLE | K::MODULE_FIELD_TYPE,
            K::KEYWORD,
        ) => true,
        (K::GLOBAL_TYPE, K::KEYWORD) => true,
        (K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF, K::KEYWORD) => text == "end",
        (K::MODULE_NAME | K::NAME, K::STRING) => true,
        (K::TABLE_TYPE | K::MODULE_FIELD_TABLE, K::REF_TYPE) => true,
        _ => false,
    }
}
fn c02_common(cx: &mut Cx, text: &str, tree: &SyntaxNode, errs: &[wat_parser::SyntaxError]) {
    for e in errs {
        cx.count("errors_checked", 1);
        if e.start > e.end || e.end > text.len() || !text.is_char_boundary(e.start) || !text.is_char_boundary(e.end) {
            cx.fail("bad-range", format!("{e:?} in a text of {} bytes", text.len()), text);
        }
        if e.message.to_string().trim().is_empty() {
            cx.fail("no-message", format!("{e:?}"), text);
        }
    }
    let bad_tok = tree.descendants_with_tokens().filter(|e| e.kind() == K::ERROR).count();
    cx.count("error_tokens", bad_tok as u64);
    if bad_tok > 0 && errs.is_empty() {
        cx.fail("silent-error-token", "tree has error tokens but no error is reported".into(), text);
    }
    if let Some(w) = surely_wrong(text) {
        cx.count("surely_wrong", 1);
        if errs.is_empty() {
            cx.fail("accepted", format!("{w}, but no error is reported"), text);
        }
    }
}
/// Mistakes do not reach back, and stray characters in a body do not reach other fields.
fn c04(cx: &mut Cx, rng: &mut Rng, _i: u64) {
    let mut o = rand_opts(rng);
    o.max_fields = o.max_fields.max(4);
    o.modules = if rng.chance(1, 5) { 2 } else { 1 };
    let d = generate(rng, o);
    let l = rand_layout(rng);
    let r = render(&d, rng, &l);
    let m = rng.below(d.modules.len());
    let fields: Vec<usize> = d.nodes[d.modules[m]].ch.iter().filter_map(|e| match e {
        El::N(n) if format!("{:?}", d.nodes[*n].kind).starts_with("MODULE_FIELD") => Some(*n),
        _ => None,
    }).collect();
    if fields.len() < 2 {
        cx.count("too_few_fields", 1);
        return;
    }
    if rng.chance(1, 2) {
        let j = *rng.pick(&["]", ",", "\"str\"", "{", "'", "é"]);
        return c04_atom(cx, rng, &d, &r, m, &fields, j);
    }
    let victim = rng.below(fields.len());
    let mut inner = vec![];
    collect(&d, fields[victim], &mut inner);
    let t = *rng.pick(&inner[1..]);
    let (s, e) = r.range(&d, t);
    let junk = ["]", ",", "(foo)", "(bar 1 $x)", "$y", "\"str\"", "12", "(;c;) ]", "(param i32)", "(then)", "nan:0x", "i32.frob", "@x", "(", ")", "((", "))", "(func", "\"", "(;", "if", "end"];
    let (text, what) = match rng.below(5) {
        0 => (format!("{} {}", &r.text[..s], &r.text[e..]), "removed"),
        1 => (format!("{} {} {}", &r.text[..s], rng.pick(&junk), &r.text[e..]), "replaced"),
        2 => (r.text[..s].to_string(), "truncated"),
        3 => (format!("{}{}", &r.text[..s], mutate::soup(rng, 12)), "rest-is-soup"),
        _ => (format!("{} {} {}", &r.text[..e], rng.pick(&junk), &r.text[e..]), "inserted"),
    };
    let Some((tree, errs)) = cx.guard("parse", &text, || parse(&text)) else { return };
    cx.eval(&text, !errs.is_empty());
    cx.count(what, 1);
    if !errs.is_empty() {
        cx.count("documents_with_a_syntax_error", 1);
    }
    let got = fields_of(&tree, m);
    for (k, f) in fields.iter().enumerate().take(victim) {
        if !same_field(cx, &d, *f, got.get(k)) {
            cx.fail("reaches-back", format!("mistake ({what}) in field {victim} changed field {k}"), &text);
            break;
        }
    }
    let vs = r.starts[inner[0]];
    for er in &errs {
        if er.end < vs {
            cx.fail("blames-earlier", format!("mistake at {s}, field starts at {vs}, error at {}..{}: {}", er.start, er.end, er.message), &text);
            break;
        }
    }
    cx.state(&format!("{:?} {what} {:?}", d.nodes[fields[victim]].kind, d.toks[t].kind));
    cx.sample(serde_json::json!({"mistake": what, "document": text.chars().take(200).collect::<String>(), "errors": errs.len(), "fields": fields.len()}));
}
fn fields_of(tree: &SyntaxNode, m: usize) -> Vec<SyntaxNode> {
    tree.children().filter(|c| c.kind() == K::MODULE).nth(m).map(|m| m.children().filter(|c| format!("{:?}", c.kind()).starts_with("MODULE_FIELD")).collect()).unwrap_or_default()
}
fn same_field(cx: &mut Cx, d: &Doc, f: usize, got: Option<&SyntaxNode>) -> bool {
    let (mut want, mut have) = (vec![], vec![]);
    gshape(d, f, &mut want);
    if let Some(n) = got {
        shape(n, &mut have);
    }
    cx.count("other_fields_compared", 1);
    want == have
}
fn c04_atom(cx: &mut Cx, rng: &mut Rng, d: &Doc, r: &Rendered, m: usize, fields: &[usize], junk: &str) {
    // after a token of an instruction of a function body, but not where `(` waits for its keyword
    let mut spots = vec![];
    for (k, f) in fields.iter().enumerate() {
        if d.nodes[*f].kind != K::MODULE_FIELD_FUNC {
            continue;
        }
        let mut v = vec![];
        collect(d, *f, &mut v);
        for t in v {
            let p = d.toks[t].parent;
            let mut up = Some(p);
            let mut in_if = false;
            while let Some(n) = up {
                in_if |= d.nodes[n].kind == K::BLOCK_IF;
                up = d.nodes[n].parent;
            }
            if !in_if && d.toks[t].kind != K::L_PAREN && matches!(d.nodes[p].kind, K::PLAIN_INSTR | K::OPERAND | K::BLOCK_BLOCK | K::BLOCK_LOOP) {
                spots.push((k, t));
            }
        }
    }
    if spots.is_empty() {
        return;
    }
    let (victim, t) = *rng.pick(&spots);
    let e = r.range(d, t).1;
    let text = format!("{} {} {}", &r.text[..e], junk, &r.text[e..]);
    let Some((tree, errs)) = cx.guard("parse", &text, || parse(&text)) else { return };
    cx.eval(&text, !errs.is_empty());
    cx.count("stray_in_body", 1);
    let got = fields_of(&tree, m);
    if got.len() != fields.len() {
        cx.fail("field-count", format!("stray {junk} in field {victim}: {} fields became {}", fields.len(), got.len()), &text);
        return;
    }
    for (k, f) in fields.iter().enumerate() {
        if k != victim && !same_field(cx, d, *f, got.get(k)) {
            cx.fail("reaches-over", format!("stray {junk} in field {victim} after {:?} of {:?} changed field {k}", d.toks[t].text, d.nodes[d.toks[t].parent].kind), &text);
            break;
        }
    }
    let vs = r.starts[first(d, fields[victim])];
    let ve = text.len() - (r.text.len() - r.range(d, last(d, fields[victim])).1);
    for er in &errs {
        if er.end < vs || er.start > ve {
            cx.fail("blames-others", format!("stray {junk} in {vs}..{ve}, error at {}..{}: {}", er.start, er.end, er.message), &text);
            break;
        }
    }
}
fn first(d: &Doc, n: usize) -> usize {
    let mut v = vec![];
    collect(d, n, &mut v);
    v[0]
}
fn last(d: &Doc, n: usize) -> usize {
    let mut v = vec![];
    collect(d, n, &mut v);
    *v.last().unwrap()
}
fn collect(d: &Doc, n: usize, out: &mut Vec<usize>) {
    for c in &d.nodes[n].ch {
        match c {
            El::N(n) => collect(d, *n, out),
            El::T(t) => out.push(*t),
        }
    }
}
