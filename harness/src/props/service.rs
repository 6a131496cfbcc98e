//! C11 robustness of the language service, C12 incremental recomputation, C13 places in answers.
use crate::mutate;
use crate::report::{Cx, Prop};
use crate::rng::Rng;
use crate::svc::*;
use lsp_types::*;
use serde_json::{json, Value};
use wat_service::LanguageService;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            quick: 160_000,
            thorough: 400_000,
            rule: "one request (any of 19 kinds) on a hostile document at an arbitrary position or range, distinct by text and request; non-trivial when the document is not empty",
            assumptions: &["nesting below some hundred levels (the recursive descent needs stack)", "documents were opened before they are asked about"],
            required: &["requests", "outside_positions", "reversed_ranges", "answers_with_content", "answer_ranges"],
            case: c11,
            probes: Some(c11_probes),
        },
        Prop {
            id: "C12",
            quick: 40_000,
            thorough: 200_000,
            rule: "one comparison of an answer of a long-lived service, after a history of edits and requests, with the answer of a fresh service; distinct by document text and request",
            assumptions: &["order within diagnostics and symbol lists carries no meaning"],
            required: &["edits", "comparisons", "same_length_edits", "comment_edits", "doc_switches", "reverted_edits"],
            case: c12,
            probes: None,
        },
    ]
}

fn boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// A position anywhere: token edges, inside tokens, past ends of lines and of the text.
pub fn any_pos(rng: &mut Rng, l: &Lines) -> (Position, &'static str) {
    match rng.below(12) {
        0 => (Position::new(rng.below(l.starts.len() + 3) as u32, rng.below(200) as u32), "outside"),
        1 => {
            let line = rng.below(l.starts.len());
            let end = l.pos(l.line_end(line));
            (Position::new(end.line, end.character + rng.range(1, 5) as u32), "outside")
        }
        2 => (*rng.pick(&[Position::new(u32::MAX, 0), Position::new(0, u32::MAX), Position::new(u32::MAX, u32::MAX), Position::new(l.starts.len() as u32, 0)]), "outside"),
        3 => {
            // possibly inside a surrogate pair or a multi-byte character
            let p = l.pos(boundary(l.text, rng.below(l.text.len() + 1)));
            (Position::new(p.line, p.character + 1), "near")
        }
        4 => (l.pos(l.text.len()), "end"),
        _ => (l.pos(boundary(l.text, rng.below(l.text.len() + 1))), "inside"),
    }
}
fn token_pos(rng: &mut Rng, l: &Lines) -> Position {
    let toks = crate::lex::lex(l.text);
    if toks.is_empty() {
        return Position::new(0, 0);
    }
    let t = rng.pick(&toks);
    let k = boundary(l.text, t.start + rng.below(t.text.len() + 1));
    l.pos(k)
}

fn check_answer(cx: &mut Cx, what: &str, val: &Value, l: &Lines, input: &str) {
    if val.is_null() || val.as_array().is_some_and(|a| a.is_empty()) {
        return;
    }
    cx.count("answers_with_content", 1);
    // semantic tokens carry no ranges; new text of edits is no range either
    let mut rs = vec![];
    ranges_in(val, &mut rs);
    for r in rs {
        cx.count("answer_ranges", 1);
        match (l.off(r.start), l.off(r.end)) {
            (Some(a), Some(b)) if a <= b => {}
            x => return cx.fail("answer-range", format!("{what}: answer has range {r:?}, which is not a range of the document ({x:?})"), input),
        }
    }
}

fn c11(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let (text, kind) = mutate::hostile(rng);
    // lone carriage returns are line ends for LSP but not for the tool's line table
    let text = text.replace("\r\n", "\u{1}").replace('\r', "").replace('\u{1}', "\r\n");
    cx.count(&format!("docs:{kind}"), 1);
    let input = text.clone();
    let Some(mut s) = cx.guard("commit", &input, || opened(&text)) else { return };
    let l = Lines::new(&text);
    let u = uri(0);
    for k in 0..14 {
        let (what, label, val) = match k % 7 {
            0..=3 => {
                let what = *rng.pick(&PER_POS);
                let (p, pk) = if rng.chance(2, 3) { (token_pos(rng, &l), "token") } else { any_pos(rng, &l) };
                if pk == "outside" {
                    cx.count("outside_positions", 1);
                }
                let label = format!("{what} at {}:{}", p.line, p.character);
                let inp = format!("{label}\n{input}");
                (what, label, cx.guard(what, &inp, || at_pos(&s, &u, what, p)))
            }
            4 | 5 => {
                let what = *rng.pick(&PER_RANGE);
                let (a, _) = if rng.chance(1, 3) { (token_pos(rng, &l), "") } else { any_pos(rng, &l) };
                let (b, _) = if rng.chance(1, 3) { (token_pos(rng, &l), "") } else { any_pos(rng, &l) };
                let r = Range::new(a, b);
                if (a.line, a.character) > (b.line, b.character) {
                    cx.count("reversed_ranges", 1);
                }
                let tab = *rng.pick(&[0, 1, 2, 4, 8]);
                let label = format!("{what} on {}:{}-{}:{} tab {tab}", a.line, a.character, b.line, b.character);
                let inp = format!("{label}\n{input}");
                let sp = rng.chance(1, 2);
                (what, label, cx.guard(what, &inp, || at_range(&s, &u, what, r, tab, sp)))
            }
            _ => {
                let what = *rng.pick(&PER_DOC);
                let ps: Vec<Position> = (0..3).map(|_| any_pos(rng, &l).0).collect();
                let tab = *rng.pick(&[0, 1, 2, 4, 8]);
                let inp = format!("{what} tab {tab}\n{input}");
                let sp = rng.chance(1, 2);
                (what, format!("{what} {tab}"), cx.guard(what, &inp, || at_doc(&s, &u, what, &ps, tab, sp)))
            }
        };
        cx.count("requests", 1);
        cx.count(&format!("request:{what}"), 1);
        cx.eval(&format!("{label}|{text}"), !text.is_empty());
        match val {
            Some(val) => check_answer(cx, &label, &val, &l, &format!("{label}\n{input}")),
            None => match cx.guard("commit", &input, || opened(&text)) {
                Some(n) => s = n,
                None => return,
            },
        }
    }
    cx.state(kind);
    if idx < 3 {
        cx.sample(json!({"kind": kind, "document": text.chars().take(300).collect::<String>()}));
    }
}
fn c11_probes(cx: &mut Cx) {
    // every request kind on the empty document, before and after it had content
    for text in ["", "\n", "(", ")", "(module", "\u{feff}", "é"] {
        let l = Lines::new(text);
        let u = uri(0);
        for p in [Position::new(0, 0), Position::new(0, 1), Position::new(1, 0), Position::new(9, 9)] {
            for what in PER_POS {
                cx.guard(what, text, || at_pos(&opened(text), &u, what, p));
            }
            for q in [Position::new(0, 0), Position::new(5, 5)] {
                for what in PER_RANGE {
                    cx.guard(what, text, || at_range(&opened(text), &u, what, Range::new(p, q), 2, true));
                }
            }
        }
        for what in PER_DOC {
            cx.guard(what, text, || at_doc(&opened(text), &u, what, &[l.pos(0)], 0, true));
        }
    }
}

// ------------------------------------------------------------------ C12
/// One edit of a document as a user makes it; returns what kind of edit it was.
fn edit(rng: &mut Rng, s: &str, old: &[String]) -> (String, &'static str) {
    let toks: Vec<_> = crate::lex::lex(s).into_iter().filter(|l| l.kind != crate::lex::LK::Ws).collect();
    match rng.below(16) {
        0 if !old.is_empty() => (rng.pick(old).clone(), "reverted"),
        // rename one or all occurrences of an identifier, mostly keeping its length
        1..=4 => {
            let ids: Vec<_> = toks.iter().filter(|t| t.text.starts_with('$') && t.text.len() > 1).collect();
            if ids.is_empty() {
                return (format!("{s} "), "append");
            }
            let t = *rng.pick(&ids);
            let same = rng.chance(3, 4);
            let mut n = t.text.to_string();
            n.pop();
            n.push(*rng.pick(&['q', 'z', 'w', '7']));
            if !same {
                n.push('x');
            }
            if rng.chance(1, 2) {
                (s.replace(t.text, &n), if same { "same-length" } else { "rename" })
            } else {
                (format!("{}{n}{}", &s[..t.start], &s[t.start + t.text.len()..]), if same { "same-length" } else { "rename" })
            }
        }
        // swap equal-length keywords, types, instructions, numbers
        5..=7 => {
            const PAIRS: &[(&str, &str)] = &[
                ("i32", "i64"),
                ("f32", "f64"),
                ("i64", "f64"),
                ("i32", "f32"),
                ("block", "block"),
                ("param", "local"),
                ("local.get", "local.set"),
                ("call", "drop"),
                ("add", "sub"),
                ("0", "1"),
                ("1", "2"),
                ("func", "type"),
                ("result", "export"),
                ("memory", "global"),
                ("loop", "then"),
                ("br", "or"),
            ];
            let (a, b) = *rng.pick(PAIRS);
            let (a, b) = if rng.chance(1, 2) { (a, b) } else { (b, a) };
            let at: Vec<usize> = s.match_indices(a).map(|x| x.0).collect();
            if at.is_empty() {
                return (format!("{s}\n"), "append");
            }
            let p = *rng.pick(&at);
            (format!("{}{b}{}", &s[..p], &s[p + a.len()..]), "same-length")
        }
        // comments and blanks
        8 | 9 => {
            let p = if toks.is_empty() { 0 } else { rng.pick(&toks).start };
            let c = *rng.pick(&[";;; doc\n", ";; é\n", "(; x ;)", " ", "\n", "(;\n;)", "\t"]);
            (format!("{}{c}{}", &s[..p], &s[p..]), "comment")
        }
        10 => {
            // change a letter inside a comment or string
            let c: Vec<_> = toks.iter().filter(|t| matches!(t.kind, crate::lex::LK::LineComment | crate::lex::LK::BlockComment | crate::lex::LK::Str) && t.text.len() > 5).collect();
            if c.is_empty() {
                return (format!(";; hi\n{s}"), "comment");
            }
            let t = rng.pick(&c);
            let i = t.start + 3;
            if s.is_char_boundary(i) && s.is_char_boundary(i + 1) && !matches!(s.as_bytes()[i], b'\n' | b'\\' | b'"' | b';' | b'(' | b')') && s.as_bytes()[i - 1] != b'\\' {
                (format!("{}y{}", &s[..i], &s[i + 1..]), "comment")
            } else {
                (s.to_string(), "no-change")
            }
        }
        11 => (s.to_string(), "no-change"),
        12 => (mutate::valid(rng), "replaced"),
        13 => {
            // move a field: cut a balanced part and paste it elsewhere
            let fields: Vec<usize> = s.match_indices("\n  (").map(|x| x.0).collect();
            if fields.len() < 3 {
                return (mutate::damage(rng, s), "damage");
            }
            let i = rng.below(fields.len() - 1);
            let cut = s[fields[i]..fields[i + 1]].to_string();
            let mut t = format!("{}{}", &s[..fields[i]], &s[fields[i + 1]..]);
            let p = boundary(&t, if rng.chance(1, 2) { 7 } else { fields[0] });
            t.insert_str(p, &cut);
            (t, "moved")
        }
        _ => (mutate::damage(rng, s), "damage"),
    }
}
fn c12(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let ndocs = rng.range(1, 3);
    let mut texts: Vec<String> = (0..ndocs)
        .map(|_| {
            let mut o = crate::gen::rand_opts(rng);
            o.max_fields = o.max_fields.min(7);
            o.stmts = o.stmts.min(3);
            o.depth = o.depth.min(3);
            let d = crate::gen::generate(rng, o);
            let mut l = crate::gen::rand_layout(rng);
            if rng.chance(1, 2) {
                l.style = 2;
            }
            crate::gen::render(&d, rng, &l).text
        })
        .collect();
    let mut old: Vec<Vec<String>> = vec![vec![]; ndocs];
    let mut s = service();
    let mut history = vec![];
    for (i, t) in texts.iter().enumerate() {
        s.commit(uri(i), t.clone());
    }
    let steps = rng.range(2, 9);
    let mut last = 0;
    for _ in 0..steps {
        // requests before the edit fill the caches
        for _ in 0..rng.below(5) {
            let i = rng.below(ndocs);
            let l = Lines::new(&texts[i]);
            let p = token_pos(rng, &l);
            let w = *rng.pick(&PER_POS);
            let w2 = *rng.pick(&PER_DOC);
            let t = &texts[i];
            if cx.guard(w, t, || (at_pos(&s, &uri(i), w, p), at_doc(&s, &uri(i), w2, &[p], 2, true))).is_none() {
                return;
            }
        }
        let i = rng.below(ndocs);
        if i != last {
            cx.count("doc_switches", 1);
            last = i;
        }
        let (t, kind) = edit(rng, &texts[i], &old[i]);
        cx.count("edits", 1);
        cx.count(&format!("edit:{kind}"), 1);
        match kind {
            "same-length" => cx.count("same_length_edits", 1),
            "comment" => cx.count("comment_edits", 1),
            "reverted" => cx.count("reverted_edits", 1),
            _ => {}
        }
        old[i].push(std::mem::replace(&mut texts[i], t.clone()));
        history.push(kind);
        s.commit(uri(i), t);
        // compare
        let i = if rng.chance(4, 5) { i } else { rng.below(ndocs) };
        let t = texts[i].clone();
        let u = uri(i);
        let mut fresh = service();
        fresh.commit(u.clone(), t.clone());
        let l = Lines::new(&t);
        let mut ask: Vec<(String, Box<dyn Fn(&LanguageService) -> Value>)> = vec![];
        let ps: Vec<Position> = (0..3).map(|_| token_pos(rng, &l)).collect();
        for w in PER_DOC {
            let (u, ps) = (u.clone(), ps.clone());
            ask.push((w.to_string(), Box::new(move |s| at_doc(s, &u, w, &ps, 2, true))));
        }
        for _ in 0..8 {
            let w = *rng.pick(&PER_POS);
            let p = token_pos(rng, &l);
            let u = u.clone();
            ask.push((format!("{w} at {p:?}"), Box::new(move |s| at_pos(s, &u, w, p))));
        }
        for w in PER_RANGE {
            let r = if rng.chance(1, 2) { l.full() } else { Range::new(token_pos(rng, &l), l.pos(t.len())) };
            let u = u.clone();
            ask.push((format!("{w} on {r:?}"), Box::new(move |s| at_range(s, &u, w, r, 2, true))));
        }
        for (what, f) in ask {
            let Some(mut a) = cx.guard(&what.split(' ').next().unwrap().to_string(), &t, || f(&s)) else { return };
            let Some(mut b) = cx.guard(&what.split(' ').next().unwrap().to_string(), &t, || f(&fresh)) else { return };
            cx.count("comparisons", 1);
            cx.eval(&format!("{what}|{t}"), !a.is_null());
            if what.starts_with("diagnostics") || what.starts_with("documentSymbol") || what.starts_with("codeAction") {
                normalise(&mut a);
                normalise(&mut b);
            }
            if a != b {
                let prev = old[i].last().cloned().unwrap_or_default();
                return cx.fail(
                    &format!("stale:{}", what.split(' ').next().unwrap()),
                    format!("{what} after edits {history:?}: long-lived service answers {}, fresh service {}", short(&a), short(&b)),
                    &format!("{prev}\n=====>\n{t}"),
                );
            }
        }
    }
    cx.state(&history.join(","));
    if idx < 3 {
        cx.sample(json!({"history": history, "documents": ndocs}));
    }
}
fn short(v: &Value) -> String {
    v.to_string().chars().take(500).collect()
}
