//! C34: the work for a text stays in proportion to its size.
use crate::gen::{generate, rand_layout, rand_opts, render};
use crate::lex;
use crate::report::{Cx, Prop};
use crate::rng::Rng;
use crate::svc::*;
use rowan::ast::AstNode;
use std::sync::atomic::{AtomicUsize, Ordering};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        quick: 6_000,
        thorough: 300_000,
        rule: "one measurement of the CPU time of parsing, formatting or one request, on a text made of one construct nested or repeated up to 200 times, of at most 4 KB; distinct by text and operation",
        assumptions: &["nesting below some hundred levels (the recursive descent needs stack)"],
        required: &["nested", "repeated", "unclosed", "parse", "format", "diagnostics", "requests", "deep"],
        case: c34,
        probes: None,
    }]
}
/// Far beyond what any operation needs for such texts (some ten milliseconds), far below what exponential work takes.
const LIMIT: f64 = 5.0;
/// How many measurements exceeded it, in all threads.
static SLOW: AtomicUsize = AtomicUsize::new(0);
const MAX_LEN: usize = 4096;

fn cpu() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}
const OPENERS: &[&str] = &[
    "(if ", "(if (i32.const 1) (then ", "(if (nop) (then) (else ", "(block ", "(block $l ", "(loop ", "(loop $l (result i32) ", "(block (param i32) ", "(block (type 0) ", "block ", "block $l ", "loop ", "if ", "if nop else ",
    "(i32.add ", "(i32.add (i32.const 1) ", "(drop ", "(select ", "(call $f ", "(call 0 ", "(local.set 0 ", "(br_table 0 0 ", "(i32.store offset=1 ", "(i32.load ", "(then ", "(else ", "(func ", "(func $f ", "(func (export \"a\") ",
    "(func (param ", "(param ", "(param $x ", "(result ", "(local ", "(type ", "(type $t ", "(type (func ", "(import \"a\" \"b\" ", "(import \"a\" \"b\" (func ", "(export ", "(export \"a\" (func ", "(global ", "(global (mut ", "(global $g (mut i32) ",
    "(memory ", "(memory (data ", "(memory (export \"a\") ", "(table ", "(table funcref (elem ", "(elem ", "(elem (offset ", "(elem declare func ", "(elem (table 0) ", "(elem funcref (item ", "(data ", "(data (memory 0) (offset ", "(data (offset ",
    "(start ", "(offset ", "(item ", "(module ", "(module $m ", "(; ", "(", "( (; c ;) ", "(ref.func ", "(foo ", "(foo.bar $x ", ";; fmt-ignore\n(i32.add ", "((",
];
fn unit(rng: &mut Rng) -> String {
    match rng.below(10) {
        0..=5 => (0..rng.range(1, 3)).map(|_| *rng.pick(OPENERS)).collect(),
        6 | 7 => crate::mutate::soup(rng, 4) + " ",
        _ => {
            // some consecutive tokens of a valid module
            let o = rand_opts(rng);
            let d = generate(rng, o);
            let l = rand_layout(rng);
            let text = render(&d, rng, &l).text;
            let toks = lex::lex(&text);
            let n = toks.len();
            let a = rng.below(n);
            let b = (a + rng.range(1, 12)).min(n);
            format!("{} ", &text[toks[a].start..toks[b - 1].start + toks[b - 1].text.len()])
        }
    }
}
/// What closes the constructs that `open` leaves open.
fn closers(open: &str) -> String {
    let mut stack = vec![];
    for t in lex::lex(open) {
        match t.text {
            "(" => stack.push(")"),
            ")" => drop(stack.pop()),
            "block" | "loop" | "if" if stack.last() != Some(&")") || open[..t.start].trim_end().ends_with(|c| c != '(') => stack.push(" end"),
            _ => {}
        }
    }
    if open.starts_with("(; ") {
        return " ;)".into();
    }
    stack.reverse();
    stack.concat()
}
fn c34(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    if SLOW.load(Ordering::Relaxed) > 1 {
        // further measurements would take as long
        return;
    }
    let (pre, suf) = *rng.pick(&[("", ""), ("(module ", ")"), ("(module (func ", "))"), ("(module (func $f (param i32) (result i32) ", "))"), ("(module (type (func)) (func ", "))"), ("(module (global i32 ", "))")]);
    let open = unit(rng);
    let (kind, close) = match rng.below(8) {
        0 => ("repeated", String::new()),
        1 => ("unclosed", String::new()),
        2 => ("nested", unit(rng)),
        3 => ("nested", closers(&open) + *rng.pick(&[" nop", " %", " (", " )", ";;\n", " $x", " 1"])),
        _ => ("nested", closers(&open)),
    };
    let open = if kind == "repeated" { format!("{open}{}{}", if rng.chance(1, 2) { unit(rng) } else { String::new() }, closers(&open)) } else { open };
    let mid = match rng.below(4) {
        0 => String::new(),
        1 => unit(rng),
        _ => rng.pick(&["(nop)", "nop", "(i32.const 0)", "i32.const 0", "x", "1", "(then)", "(then (nop))", "end", "i32", "$x", "%"]).to_string(),
    };
    let suf = if kind == "unclosed" || rng.chance(1, 4) { "" } else { suf };
    cx.count(kind, 1);
    let parens = open.matches('(').count().max(open.matches("block").count() + open.matches("loop").count() + open.matches("if").count()).max(1);
    let mut prev = 0;
    for n in [6, 10, 12, 14, 16, 18, 20, 22, 24, 27, 30, 40, 60, 100] {
        let n = if kind == "repeated" { n * 2 } else { n.min(200 / parens.min(4)) };
        if n <= prev || SLOW.load(Ordering::Relaxed) > 1 {
            break;
        }
        prev = n;
        let text = format!("{pre}{}{mid}{}{suf}", open.repeat(n), close.repeat(n));
        if text.len() > MAX_LEN {
            break;
        }
        if n >= 60 {
            cx.count("deep", 1);
        }
        let mut t0 = cpu();
        let slow = |cx: &mut Cx, what: &str, t0: &mut f64| {
            let t = cpu() - *t0;
            cx.eval(&format!("{what}{text}"), true);
            cx.count(what, 1);
            if t > 0.15 && std::env::var_os("WLT_SLOW").is_some() { eprintln!("SLOW {t:.2} {what} {n} {open:?} {mid:?} {close:?} {}", text.len()); }
            if t > LIMIT {
                SLOW.fetch_add(1, Ordering::Relaxed);
                cx.fail(&format!("slow-{what}"), format!("{what} took {t:.1} s of CPU time for {} bytes: {n} times {open:?}, {mid:?}, {close:?}", text.len()), &text);
            }
            *t0 = cpu();
            t > LIMIT
        };
        let Some(tree) = cx.guard("parse", &text, || wat_syntax::ast::Root::cast(wat_parser::Parser::new(&text).parse())) else { return };
        if slow(cx, "parse", &mut t0) {
            return;
        }
        let Some(_) = cx.guard("format", &text, || wat_formatter::format(&tree.unwrap(), &Default::default())) else { return };
        if slow(cx, "format", &mut t0) {
            return;
        }
        let Some(s) = cx.guard("commit", &text, || opened(&text)) else { return };
        if slow(cx, "commit", &mut t0) {
            return;
        }
        let Some(_) = cx.guard("diagnostics", &text, || diagnostics(&s, &uri(0))) else { return };
        if slow(cx, "diagnostics", &mut t0) {
            return;
        }
        if n == 18 || n >= 60 {
            let l = Lines::new(&text);
            let u = uri(0);
            let toks = lex::lex(&text);
            if toks.is_empty() {
                return;
            }
            for what in PER_DOC.into_iter().chain(PER_POS).chain(PER_RANGE) {
                let t = rng.pick(&toks);
                let p = l.pos(t.start);
                let end = l.pos(text.len());
                let Some(_) = cx.guard(what, &text, || {
                    if PER_DOC.contains(&what) {
                        drop(at_doc(&s, &u, what, &[p, end], 2, true))
                    } else if PER_POS.contains(&what) {
                        drop(at_pos(&s, &u, what, p))
                    } else {
                        drop(at_range(&s, &u, what, lsp_types::Range::new(p, end), 2, true))
                    }
                }) else {
                    return;
                };
                cx.count("requests", 1);
                if slow(cx, what, &mut t0) {
                    return;
                }
            }
        }
        if idx < 3 && n == 18 {
            cx.sample(serde_json::json!({"text": text.chars().take(300).collect::<String>()}));
        }
    }
}
