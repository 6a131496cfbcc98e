//! C26 code actions, C27 diagnostics of syntax, operands and modules, C28 formatting of the service.
use crate::gen::*;
use crate::props::nav::{make, tool_opts, ASSUME};
use crate::report::{Cx, Prop};
use crate::rng::Rng;
use crate::svc::*;
use crate::{lex, lex::LK, mutate};
use lsp_types::*;
use rowan::ast::AstNode;
use serde_json::json;
use wat_syntax::SyntaxKind as K;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            quick: 240_000,
            thorough: 1_000_000,
            rule: "one code action request compared with the actions that apply there, their edits applied; distinct by text and range; non-trivial when an action is expected",
            assumptions: ASSUME,
            required: &["split:param", "split:result", "split:local", "no_split", "join", "no_join", "comment_inside", "fix", "fix_twice", "filtered"],
            case: c26,
            probes: None,
        },
        Prop {
            id: "C27",
            quick: 240_000,
            thorough: 1_000_000,
            rule: "one comparison of all diagnostics about syntax, literal operands and modules with what was planted (and with the parser's errors); distinct by text",
            assumptions: ASSUME,
            required: &["no_mistake", "identifier", "integer", "float", "mem_arg", "lane", "second", "modules", "syntax"],
            case: c27,
            probes: None,
        },
        Prop {
            id: "C28",
            quick: 120_000,
            thorough: 500_000,
            rule: "one formatting answer applied to the document and compared with the formatter's output for the same options; diagnostics and symbols compared before and after; distinct by text and options",
            assumptions: ASSUME,
            required: &["valid", "broken", "tabs", "spaces", "ranges", "diagnostics_kept"],
            case: c28,
            probes: None,
        },
    ]
}

pub fn apply(text: &str, l: &Lines, edits: &[TextEdit]) -> Option<String> {
    let mut v: Vec<(usize, usize, &str)> = vec![];
    for e in edits {
        v.push((l.off(e.range.start)?, l.off(e.range.end)?, &e.new_text));
    }
    v.sort();
    let (mut out, mut at) = (String::new(), 0);
    for (a, b, t) in v {
        if a < at || b < a {
            return None;
        }
        out.push_str(&text[at..a]);
        out.push_str(t);
        at = b;
    }
    out.push_str(&text[at..]);
    Some(out)
}
fn words(s: &str) -> Vec<&str> {
    lex::significant(s).iter().map(|x| x.text).collect()
}
fn has_comment(s: &str) -> bool {
    lex::lex(s).iter().any(|x| matches!(x.kind, LK::LineComment | LK::BlockComment))
}
fn ask(s: &wat_service::LanguageService, u: &Uri, r: Range, only: &Option<Vec<CodeActionKind>>) -> Option<Vec<CodeActionOrCommand>> {
    let mut p = code_action_params(u, r, vec![]);
    p.context.only = only.clone();
    s.code_action(p)
}
/// The only action of an answer (`Ok(None)`: there are none).
fn single(u: &Uri, got: Option<Vec<CodeActionOrCommand>>) -> Result<Option<(String, Option<CodeActionKind>, Vec<TextEdit>)>, String> {
    let got = got.unwrap_or_default();
    match &got[..] {
        [] => Ok(None),
        [CodeActionOrCommand::CodeAction(a)] => {
            let edits = a.edit.as_ref().and_then(|e| e.changes.as_ref()).filter(|c| c.len() == 1).and_then(|c| c.get(u)).cloned();
            match edits {
                Some(e) => Ok(Some((a.title.clone(), a.kind.clone(), e))),
                None => Err(format!("an action that doesn't edit just the document: {a:?}")),
            }
        }
        _ => Err(format!("{} actions: {}", got.len(), serde_json::to_string(&got).unwrap())),
    }
}

fn c26(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let o = tool_opts(rng);
    let c = make(rng, o);
    let (text, d, u) = (&c.r.text, &c.d, uri(0));
    let l = Lines::new(text);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    let node_range = |n: usize| {
        let (a, b) = d.ends(n)?;
        Some((c.r.range(d, a).0, c.r.range(d, b).1))
    };
    let types_of = |n: usize| -> Vec<&str> {
        d.nodes[n].ch.iter().filter_map(|e| if let El::N(x) = e { (d.nodes[*x].kind == K::VAL_TYPE).then(|| d.toks[d.ends(*x).unwrap().0].text.as_str()) } else { None }).collect()
    };
    let onlys = |rng: &mut Rng| match rng.below(8) {
        0 => Some(vec![CodeActionKind::QUICKFIX]),
        1 => Some(vec![CodeActionKind::REFACTOR_REWRITE]),
        2 => Some(vec![CodeActionKind::REFACTOR_REWRITE, CodeActionKind::QUICKFIX]),
        3 => Some(vec![CodeActionKind::SOURCE]),
        _ => None,
    };
    let allows = |only: &Option<Vec<CodeActionKind>>, k: CodeActionKind| only.as_ref().is_none_or(|v| v.contains(&k));
    // what a rewriting action must do: replace exactly [a, b) with the given tokens
    let judge = |cx: &mut Cx, what: &str, range: (usize, usize), inp: &str, only: &Option<Vec<CodeActionKind>>, title: &str, want: Option<((usize, usize), Vec<String>)>| {
        let Some(got) = cx.guard("codeAction", inp, || ask(&s, &u, l.range(range.0, range.1), only)) else { return false };
        cx.eval(inp, want.is_some());
        let want = if allows(only, CodeActionKind::REFACTOR_REWRITE) {
            want
        } else {
            cx.count("filtered", 1);
            None
        };
        let got = match single(&u, got) {
            Ok(g) => g,
            Err(e) => {
                cx.fail(&format!("{what}-several"), e, inp);
                return false;
            }
        };
        let ((t, k, edits), ((a, b), toks)) = match (got, want) {
            (None, None) => return true,
            (Some(g), Some(w)) => (g, w),
            (Some(g), None) => {
                cx.fail(&format!("{what}-offered"), format!("{:?} is offered, but doesn't apply", g.0), inp);
                return false;
            }
            (None, Some(_)) => {
                cx.fail(&format!("{what}-not-offered"), format!("{title:?} isn't offered"), inp);
                return false;
            }
        };
        if t != title || k != Some(CodeActionKind::REFACTOR_REWRITE) {
            cx.fail(&format!("{what}-title"), format!("offered is {t:?} of kind {k:?}, expected {title:?}"), inp);
            return false;
        }
        let Some(after) = apply(text, &l, &edits) else {
            cx.fail(&format!("{what}-edit"), format!("edits can't be applied: {edits:?}"), inp);
            return false;
        };
        let body = after.strip_prefix(&text[..a]).and_then(|x| x.strip_suffix(&text[b..]));
        let Some(body) = body else {
            cx.fail(&format!("{what}-outside"), format!("text outside of {:?} changes\n{after}", &text[a..b]), inp);
            return false;
        };
        if words(body) != toks.iter().map(String::as_str).collect::<Vec<_>>() {
            cx.fail(&format!("{what}-result"), format!("{:?} becomes {body:?}, expected {:?}", &text[a..b], toks.join(" ")), inp);
            return false;
        }
        let mut p = wat_parser::Parser::new(&after);
        p.parse();
        if !p.errors().is_empty() {
            cx.fail(&format!("{what}-syntax"), format!("syntax errors afterwards: {:?}\n{after}", p.errors()), inp);
            return false;
        }
        true
    };
    let inside = |rng: &mut Rng, a: usize, b: usize| {
        let pick = |rng: &mut Rng| {
            let mut p = rng.range(a, b);
            while !text.is_char_boundary(p) {
                p += 1;
            }
            p.min(b)
        };
        let (x, y) = (pick(rng), pick(rng));
        if rng.chance(1, 3) {
            (x, x)
        } else {
            (x.min(y), x.max(y))
        }
    };
    let groups: Vec<usize> = (0..d.nodes.len()).filter(|n| matches!(d.nodes[*n].kind, K::PARAM | K::RESULT | K::LOCAL)).collect();
    for _ in 0..4.min(groups.len()) {
        let n = *rng.pick(&groups);
        let (a, b) = node_range(n).unwrap();
        let types = types_of(n);
        let (kw, title) = match d.nodes[n].kind {
            K::PARAM => ("param", "Split parameters"),
            K::RESULT => ("result", "Split results"),
            _ => ("local", "Split locals"),
        };
        let r = inside(rng, a + 1, b - 1);
        let only = onlys(rng);
        let commented = has_comment(&text[a..b]);
        let want = (types.len() > 1 && !commented).then(|| ((a, b), types.iter().flat_map(|t| ["(", kw, t, ")"]).map(String::from).collect()));
        cx.count(&if want.is_some() { format!("split:{kw}") } else { "no_split".to_string() }, 1);
        if commented && types.len() > 1 {
            cx.count("comment_inside", 1);
        }
        cx.state(&format!("{kw} {} {commented}", types.len()));
        let inp = format!("code actions in {:?} ({:?}, only {only:?})\n{text}", &text[a..b], l.range(r.0, r.1));
        if !judge(cx, "split", r, &inp, &only, title, want) {
            return;
        }
    }
    let sigs: Vec<usize> = (0..d.nodes.len()).filter(|n| matches!(d.nodes[*n].kind, K::TYPE_USE | K::FUNC_TYPE)).collect();
    let kids = |n: usize| -> Vec<usize> { d.nodes[n].ch.iter().filter_map(|e| if let El::N(x) = e { Some(*x) } else { None }).collect() };
    let sigs: Vec<usize> = sigs.into_iter().filter(|n| kids(*n).iter().filter(|k| d.nodes[**k].kind == K::PARAM).count() > 1).collect();
    for _ in 0..3.min(sigs.len()) {
        let n = *rng.pick(&sigs);
        let params: Vec<usize> = kids(n).into_iter().filter(|k| d.nodes[*k].kind == K::PARAM).collect();
        let i = rng.below(params.len() - 1);
        let j = rng.range(i + 1, params.len() - 1);
        // up to the neighbouring parameters, or into them
        let (mut x, mut y) = (node_range(params[i]).unwrap().0, node_range(params[j]).unwrap().1);
        if i > 0 && rng.chance(1, 3) {
            x = node_range(params[i - 1]).unwrap().1 - rng.below(2);
        }
        if j + 1 < params.len() && rng.chance(1, 3) {
            y = node_range(params[j + 1]).unwrap().0 + rng.below(2);
        }
        let named = |p: usize| d.nodes[p].ch.iter().any(|e| matches!(e, El::T(t) if d.toks[*t].kind == K::IDENT));
        let fits = |p: usize| {
            let (a, b) = node_range(p).unwrap();
            x <= a && b <= y && !named(p)
        };
        let run: Vec<usize> = params.iter().copied().skip_while(|p| !fits(*p)).take_while(|p| fits(*p)).collect();
        if run.len() == 1 {
            continue;
        }
        let only = onlys(rng);
        let types: Vec<&str> = run.iter().flat_map(|p| types_of(*p)).collect();
        let want = if types.len() > 1 {
            let (a, b) = (node_range(run[0]).unwrap().0, node_range(*run.last().unwrap()).unwrap().1);
            let mut toks = vec!["(".to_string(), "param".into()];
            toks.extend(types.iter().map(|t| t.to_string()));
            toks.push(")".into());
            if has_comment(&text[a..b]) {
                cx.count("comment_inside", 1);
                None
            } else {
                Some(((a, b), toks))
            }
        } else {
            None
        };
        cx.count(if want.is_some() { "join" } else { "no_join" }, 1);
        cx.state(&format!("join {} {}", run.len(), types.len()));
        let inp = format!("code actions in {:?} ({:?}, only {only:?})\n{text}", &text[x..y], l.range(x, y));
        if !judge(cx, "join", (x, y), &inp, &only, "Join parameters", want) {
            return;
        }
    }
    // memory arguments with blanks
    let args: Vec<usize> = (0..d.toks.len())
        .filter(|t| {
            let tok = &d.toks[*t];
            let instr = d.nodes[tok.parent].parent;
            tok.kind == K::MEM_ARG
                && tok.text.split_once('=').is_some_and(|(_, v)| v.bytes().all(|b| b.is_ascii_digit()))
                && instr.is_some_and(|i| d.nodes[i].kind == K::PLAIN_INSTR && matches!(d.nodes[i].ch.first(), Some(El::T(p)) if d.toks[*p].kind == K::L_PAREN))
        })
        .collect();
    if args.is_empty() {
        return;
    }
    let t = *rng.pick(&args);
    let instr = d.nodes[d.toks[t].parent].parent.unwrap();
    let mut broken = vec![t];
    if let Some(o) = args.iter().find(|o| **o != t && d.nodes[d.toks[**o].parent].parent == Some(instr)) {
        if rng.chance(1, 2) {
            broken.push(*o);
            cx.count("fix_twice", 1);
        }
    }
    broken.sort();
    let mut after = text.clone();
    for t in broken.iter().rev() {
        let (a, b) = c.r.range(d, *t);
        let (k, v) = d.toks[*t].text.split_once('=').unwrap();
        let blank = *rng.pick(&[" ", "  ", "\t", "\n", " \n "]);
        let new = match rng.below(3) {
            0 => format!("{k}{blank}={v}"),
            1 => format!("{k}={blank}{v}"),
            _ => format!("{k}{blank}={blank}{v}"),
        };
        after.replace_range(a..b, &new);
    }
    let Some(name) = d.nodes[instr].ch.iter().find_map(|e| if let El::T(t) = e { (d.toks[*t].kind == K::INSTR_NAME).then_some(*t) } else { None }) else { return };
    let (a, b) = c.r.range(d, name);
    let (x, y) = inside(rng, a + 1, b - 1);
    let only = onlys(rng);
    cx.count("fix", 1);
    let mut now = after.clone();
    for round in 0..=broken.len() {
        let inp = format!("code actions at the {} in round {round} (only {only:?})\n{now}", d.toks[name].text);
        let l = Lines::new(&now);
        let Some(got) = cx.guard("codeAction", &inp, || ask(&opened(&now), &u, l.range(x, y), &only)) else { return };
        cx.eval(&inp, true);
        let got = match single(&u, got) {
            Ok(g) => g,
            Err(e) => return cx.fail("fix-several", e, &inp),
        };
        let Some((title, kind, edits)) = got else {
            if round < broken.len() && allows(&only, CodeActionKind::QUICKFIX) {
                return cx.fail("fix-not-offered", "blanks in a memory argument can be fixed, but no action is offered".into(), &inp);
            }
            break;
        };
        if round == broken.len() || !allows(&only, CodeActionKind::QUICKFIX) {
            return cx.fail("fix-offered", format!("{title:?} is offered, but doesn't apply"), &inp);
        }
        if kind != Some(CodeActionKind::QUICKFIX) {
            return cx.fail("fix-kind", format!("kind is {kind:?}"), &inp);
        }
        match apply(&now, &l, &edits) {
            Some(t) => now = t,
            None => return cx.fail("fix-edit", format!("edits can't be applied: {edits:?}"), &inp),
        }
    }
    if allows(&only, CodeActionKind::QUICKFIX) && now != *text {
        return cx.fail("fix-result", format!("the fixed text isn't the one without blanks in memory arguments:\n{now}\n---\n{text}"), &after);
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "memory_arguments": args.len()}));
    }
}

const BY_INDEX: [&str; 13] =
    ["call", "local.get", "local.set", "local.tee", "global.get", "global.set", "ref.func", "memory.init", "data.drop", "elem.drop", "br", "br_if", "return_call"];
const BY_OPT_INDEX: [&str; 6] = ["table.get", "table.set", "table.grow", "table.size", "table.fill", "table.copy"];
/// The message for a wrong literal in the place of the first operand, and literals that are wrong there.
fn operand_rule(name: &str) -> Option<(&'static str, &'static str, &'static [&'static str])> {
    const IDX: &str = "expected identifier or unsigned integer";
    let lane = name.contains("extract_lane") || name.contains("replace_lane");
    if BY_INDEX.contains(&name) || BY_OPT_INDEX.contains(&name) || name == "table.init" {
        return Some(("identifier", IDX, &["1.5", "\"a\"", "offset=1", "nan", "0x1p3"]));
    }
    if lane && !matches!(name, "i16x8.extract_lane" | "i8x16.extract_lane") || name == "i8x16.shuffle" {
        return Some(("identifier", IDX, &["1.5", "\"a\"", "inf"]));
    }
    match name {
        "i32.const" | "i64.const" => Some(("integer", "expected integer", &["1.5", "\"a\"", "$x", "inf", "0x1.8p1", "align=4"])),
        "f32.const" | "f64.const" => Some(("float", "expected floating-point number", &["\"a\"", "$x", "offset=0"])),
        _ if (name.contains(".load") || name.contains(".store")) && !name.contains("lane") => Some(("mem_arg", "expected memory argument", &["\"a\"", "$x", "1", "1.5"])),
        _ => None,
    }
}
fn c27(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.modules = *rng.pick(&[1, 1, 2, 3]);
    o.simd |= rng.chance(1, 2);
    o.even |= rng.chance(1, 2);
    let c = make(rng, o);
    let (d, u) = (&c.d, uri(0));
    let mut text = c.r.text.clone();
    let node_range = |n: usize| {
        let (a, b) = d.ends(n)?;
        Some((c.r.range(d, a).0, c.r.range(d, b).1))
    };
    // plant one wrong operand
    let mut want: Vec<(usize, usize, String)> = vec![];
    let mut shift = (usize::MAX, 0isize);
    let mut planted = false;
    if rng.chance(2, 3) {
        let mut cands = vec![];
        for n in 0..d.nodes.len() {
            if d.nodes[n].kind != K::PLAIN_INSTR {
                continue;
            }
            let Some(name) = d.nodes[n].ch.iter().find_map(|e| if let El::T(t) = e { (d.toks[*t].kind == K::INSTR_NAME).then_some(*t) } else { None }) else { continue };
            let text = d.toks[name].text.as_str();
            // the literals in front of the first operand that is an instruction
            let literals: Vec<usize> = d.nodes[n]
                .ch
                .iter()
                .filter_map(|e| if let El::N(op) = e { Some(*op) } else { None })
                .map_while(|op| match (d.nodes[op].kind, &d.nodes[op].ch[..]) {
                    (K::OPERAND, [El::T(t)]) => Some(*t),
                    _ => None,
                })
                .collect();
            let (Some(first), Some(last)) = (literals.first(), literals.last()) else { continue };
            if text.starts_with("v128.") && text.ends_with("_lane") {
                cands.push((*last, name, ("lane", "expected identifier or unsigned integer", &["1.5", "\"a\"", "inf", "nan:0x1"] as &[&str])));
                if literals.len() > 1 {
                    cands.push((*first, name, ("mem_arg", "expected memory argument", &["\"a\"", "$x", "1", "1.5"])));
                }
                continue;
            }
            let Some(rule) = operand_rule(text) else { continue };
            // stores and loads may have no memory argument
            if rule.0 == "mem_arg" && d.toks[*first].kind != K::MEM_ARG {
                continue;
            }
            cands.push((*first, name, rule));
            if matches!(text, "table.init" | "table.copy") && literals.len() == 2 {
                cands.push((*last, name, ("second", rule.1, rule.2)));
            }
        }
        if !cands.is_empty() {
            // (each kind of operand as likely as any other, and in it each instruction)
            let mut kinds: Vec<&str> = cands.iter().map(|c: &(usize, usize, (&str, &str, &[&str]))| c.2.0).collect();
            kinds.sort();
            kinds.dedup();
            let which = *rng.pick(&kinds);
            cands.retain(|c| c.2.0 == which);
            let mut names: Vec<&str> = cands.iter().map(|c: &(usize, usize, (&str, &str, &[&str]))| d.toks[c.1].text.as_str()).collect();
            names.sort();
            names.dedup();
            let which = *rng.pick(&names);
            cands.retain(|c| d.toks[c.1].text == which);
            let (t, name, (kind, msg, lits)) = *rng.pick(&cands);
            let lit = *rng.pick(lits);
            let (a, b) = c.r.range(d, t);
            text.replace_range(a..b, lit);
            want.push((a, a + lit.len(), msg.to_string()));
            shift = (a, lit.len() as isize - (b - a) as isize);
            planted = true;
            cx.count(kind, 1);
            cx.state(&format!("{} {lit}", d.toks[name].text));
        }
    }
    if !planted {
        cx.count("no_mistake", 1);
    }
    let moved = |x: usize| if x > shift.0 { (x as isize + shift.1) as usize } else { x };
    for m in d.modules.iter().skip(1) {
        let (a, b) = node_range(*m).unwrap();
        want.push((moved(a), moved(b), "only one module is allowed in one file".into()));
        cx.count("modules", 1);
    }
    let compare = |cx: &mut Cx, text: &str, want: &[(usize, usize, String)], syntax_only: bool| {
        let l = Lines::new(text);
        let Some((ds, pulled)) = cx.guard("diagnostics", text, || {
            let s = opened(text);
            let p = s.pull_diagnostics(DocumentDiagnosticParams { text_document: tdid(&u), identifier: None, previous_result_id: None, work_done_progress_params: Default::default(), partial_result_params: Default::default() });
            (s.publish_diagnostics(u.clone()), serde_json::to_value(p).unwrap())
        }) else {
            return;
        };
        cx.eval(text, !want.is_empty());
        if ds.uri != u || pulled["items"] != serde_json::to_value(&ds.diagnostics).unwrap() || pulled["kind"] != "full" {
            return cx.fail("pull-push", format!("pushed diagnostics {ds:?} differ from pulled ones {pulled}"), text);
        }
        let family = |m: &str| {
            m.starts_with("syntax error: ")
                || !syntax_only && (m == "only one module is allowed in one file" || m.starts_with("expected identifier or") || m == "expected integer" || m == "expected floating-point number" || m == "expected memory argument")
        };
        let mut got = vec![];
        for x in &ds.diagnostics {
            if x.severity != Some(DiagnosticSeverity::ERROR) || x.source.as_deref() != Some("wat") {
                return cx.fail("kind", format!("diagnostic with another source or severity: {x:?}"), text);
            }
            if family(&x.message) {
                match (l.off(x.range.start), l.off(x.range.end)) {
                    (Some(a), Some(b)) => got.push((a, b, x.message.clone())),
                    _ => return cx.fail("range", format!("no range of the document: {x:?}"), text),
                }
            }
        }
        let mut want = want.to_vec();
        want.sort();
        got.sort();
        if want == got {
            return;
        }
        for w in &want {
            if !got.contains(w) {
                return cx.fail("missed", format!("{:?} is expected at {:?}, diagnostics are {got:?}", w.2, text.get(w.0..w.1)), text);
            }
        }
        let extra = got.iter().find(|g| !want.contains(g)).or(got.first()).unwrap();
        cx.fail("false-alarm", format!("{:?} at {:?}", extra.2, text.get(extra.0..extra.1)), text);
    };
    let mut p = wat_parser::Parser::new(&text);
    p.parse();
    if !p.errors().is_empty() {
        cx.harness_errors.push(format!("syntax errors after planting an operand: {:?}\n{text}", p.errors()));
        return;
    }
    compare(cx, &text, &want, false);
    // errors of the parser
    let mut bad = c.r.text.replace("\r\n", "\n").replace('\r', " ");
    for _ in 0..rng.range(1, 3) {
        bad = mutate::damage(rng, &bad).replace("\r\n", "\n").replace('\r', " ");
    }
    let mut p = wat_parser::Parser::new(&bad);
    p.parse();
    let want: Vec<_> = p.errors().iter().map(|e| (e.start, e.end, format!("syntax error: {}", e.message))).collect();
    if !want.is_empty() {
        cx.count("syntax", 1);
    }
    compare(cx, &bad, &want, true);
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "planted": want.len()}));
    }
}

fn names(s: &[DocumentSymbol], out: &mut Vec<String>, depth: usize) {
    for x in s {
        out.push(format!("{depth} {} {:?}", x.name, x.kind));
        names(x.children.as_deref().unwrap_or(&[]), out, depth + 1);
    }
}
fn c28(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    if rng.chance(1, 2) {
        o.undefined = 60;
        o.dup = 60;
    }
    o.modules = *rng.pick(&[1, 1, 2]);
    let c = make(rng, o);
    let mut text = c.r.text;
    let valid = rng.chance(3, 4);
    if !valid {
        text = mutate::damage(rng, &text);
    }
    // (the tool doesn't take a lone carriage return for the end of a line)
    text = text.replace("\r\n", "\n").replace('\r', " ");
    if rng.chance(1, 4) {
        text = text.replace('\n', "\r\n");
    }
    cx.count(if valid { "valid" } else { "broken" }, 1);
    let (tab, spaces) = (rng.below(9) as u32, rng.chance(1, 2));
    cx.count(if spaces { "spaces" } else { "tabs" }, 1);
    let u = uri(0);
    let inp = format!("tab size {tab}, spaces {spaces}\n{text}");
    let l = Lines::new(&text);
    let mut fo = wat_formatter::config::FormatOptions::default();
    fo.layout.indent_width = tab as usize;
    fo.layout.use_tabs = !spaces;
    let parse = |t: &str| wat_syntax::ast::Root::cast(wat_parser::Parser::new(t).parse()).unwrap();
    let Some((s, got, want)) = cx.guard("formatting", &inp, || {
        let s = opened(&text);
        let got = s.formatting(DocumentFormattingParams { text_document: tdid(&u), options: fmt_options(tab, spaces), work_done_progress_params: Default::default() });
        (s, got, wat_formatter::format(&parse(&text), &fo))
    }) else {
        return;
    };
    cx.eval(&inp, want != text);
    let Some(after) = got.as_ref().and_then(|e| apply(&text, &l, e)) else {
        return cx.fail("no-edit", format!("no edits that can be applied: {got:?}"), &inp);
    };
    if after != want {
        return cx.fail("formatting", format!("formatting gives\n{after}\n--- instead of\n{want}"), &inp);
    }
    if valid {
        // positions move, but nothing else
        let Some((a, b)) = cx.guard("diagnostics", &inp, || {
            let t = opened(&after);
            let look = |s: &wat_service::LanguageService, text: &str| {
                let l = Lines::new(text);
                let mut v: Vec<String> = diagnostics(s, &u)
                    .iter()
                    .map(|d| {
                        let at = l.slice(d.range).map(|x| words(x).into_iter().filter(|w| !w.starts_with(";;") && !w.starts_with("(;")).collect::<Vec<_>>().join(" "));
                        format!("{} at {at:?}", d.message)
                    })
                    .collect();
                v.sort();
                if let Some(DocumentSymbolResponse::Nested(n)) = s.document_symbol(DocumentSymbolParams { text_document: tdid(&u), work_done_progress_params: Default::default(), partial_result_params: Default::default() }) {
                    names(&n, &mut v, 0);
                }
                v
            };
            (look(&s, &text), look(&t, &after))
        }) else {
            return;
        };
        cx.count("diagnostics_kept", 1);
        if a != b {
            let x = a.iter().zip(&b).find(|(x, y)| x != y).map(|(x, y)| format!("{x} becomes {y}")).unwrap_or(format!("{} become {}", a.len(), b.len()));
            return cx.fail("meaning", format!("diagnostics or symbols change: {x}\n{after}"), &inp);
        }
    }
    // a part of the document
    let li = line_index::LineIndex::new(&text);
    for _ in 0..2 {
        let mut ab = [rng.below(text.len() + 1), rng.below(text.len() + 1)];
        ab.sort();
        for p in &mut ab {
            while !text.is_char_boundary(*p) || *p > 0 && text.as_bytes()[*p - 1] == b'\r' {
                *p -= 1;
            }
        }
        let [a, b] = ab;
        let inp = format!("range {:?}, {inp}", l.range(a, b));
        let Some((got, want)) = cx.guard("rangeFormatting", &inp, || {
            let got = s.range_formatting(DocumentRangeFormattingParams { text_document: tdid(&u), range: l.range(a, b), options: fmt_options(tab, spaces), work_done_progress_params: Default::default() });
            let r = rowan::TextRange::new((a as u32).into(), (b as u32).into());
            (got, wat_formatter::format_range(&parse(&text), &fo, r, &li))
        }) else {
            return;
        };
        cx.count("ranges", 1);
        let want = want.map(|(t, r)| {
            let (x, y) = (usize::from(r.start()), usize::from(r.end()));
            format!("{}{t}{}", &text[..x], &text[y..])
        });
        let got_text = got.as_ref().map(|e| apply(&text, &l, e));
        if got_text != want.clone().map(Some) {
            return cx.fail("range-formatting", format!("range formatting gives {got:?}\n--- instead of\n{want:?}"), &inp);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "tab": tab, "spaces": spaces}));
    }
}
