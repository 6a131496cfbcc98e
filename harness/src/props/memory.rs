//! C30: the workloads under AddressSanitizer, the checks for undefined behaviour that a debug build
//! with the nightly compiler makes, and (smaller ones) the Miri interpreter.
use crate::mutate;
use crate::props::nav::{make, tool_opts};
use crate::report::{Cx, Prop};
use crate::rng::Rng;
use crate::svc::*;
use lsp_types::*;
use rowan::ast::AstNode;
use serde_json::json;
use std::process::Command;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        quick: 2_400,
        thorough: 40_000,
        rule: "one document worked through (parsing, tree walk, formatting, requests) in a process with AddressSanitizer and checks for undefined behaviour, or in the Miri interpreter; distinct by text",
        assumptions: &["Miri runs without its aliasing model, which the syntax tree library (rowan) violates", "nesting below some hundred levels"],
        required: &["asan_documents", "asan_requests", "miri_documents", "miri_requests"],
        case: c30,
        probes: None,
    }]
}
/// small documents in which every construct of the grammar (and several errors) occurs
const EVERY_KIND: &[&str] = &[
    "(module $m (type $t (func (param $a i32) (param f32 v128) (result i64)))\n(import \"a\" \"b\" (func $i (type $t)))(import \"a\" \"c\" (table 1 2 funcref))(import \"a\" \"d\" (memory 1))(import \"a\" \"e\" (global (mut i32))))",
    "(module (table $t (export \"t\") 1 funcref) (table funcref (elem func $f)) (memory $m (export \"m\") (data \"\\00a\")) (memory 1 2 shared)\n(global $g (export \"g\") (mut f64) (f64.const nan:0x1)) (start $f) (func $f) (export \"f\" (func $f)) (export \"u\" (table $t)) (export \"v\" (memory $m)) (export \"w\" (global $g)))",
    "(module (elem $e (table 0) (offset i32.const 0) func 0 0) (elem declare funcref (ref.null func) (item ref.func 0)) (data $d (memory 0) (i32.const 0) \"x\" \"y\") (data \"z\") (func) (memory 1) (table 1 externref))",
    "(module (func $f (export \"f\") (param i32 $x) (param $y i32) (result i32) (local $l i64) ;; c\n (block $b (result i32) (br_if $b (i32.const 1) (local.get $y)) (; d (; e ;) ;) drop i32.const 0x1F)\n if (result i32) i32.const 1 else i32.const 2 end\n (loop $k (br_table 0 $k (local.get 0))) (if (i32.eqz (i32.load offset=4 align=4 (i32.const 0))) (then nop) (else unreachable))\n call_indirect 0 (type 0) (param i32)))",
    "(module (func (i32.const 1.5) (local.get) (call $nope) ]x[ \"str\\q) (func $f (local.get 99999999999) (f32.const nan:0x) @ \u{e9}))) (module))\n(func",
];
fn c30(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let miri_runs = if cx.tier_thorough { 64 } else { 8 };
    if idx < miri_runs {
        return miri(cx, rng, idx);
    }
    if std::env::var_os("WLT_ASAN").is_none() {
        cx.harness_errors.push("not built with AddressSanitizer (use run.sh)".into());
        return;
    }
    let (text, kind) = if rng.chance(1, 3) { ({ let o = tool_opts(rng); make(rng, o).r.text }, "valid") } else { mutate::hostile(rng) };
    cx.count("asan_documents", 1);
    cx.state(kind);
    cx.eval(&text, !text.is_empty());
    // crashes of other kinds are the subject of other properties
    let mut n = 0;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let tree = wat_parser::Parser::new(&text).parse();
        for x in tree.descendants_with_tokens() {
            n += x.kind() as u64 & 1;
        }
        let root = wat_syntax::ast::Root::cast(tree).unwrap();
        let mut fo = wat_formatter::config::FormatOptions::default();
        fo.layout.print_width = rng.range(1, 120);
        n += wat_formatter::format(&root, &fo).len() as u64 & 1;
        let mut s = opened(&text);
        let l = Lines::new(&text);
        let u = uri(0);
        for round in 0..2 {
            for what in PER_DOC {
                at_doc(&s, &u, what, &[l.pos(0)], 2, true);
            }
            for what in PER_POS {
                let (p, _) = crate::props::service::any_pos(rng, &l);
                at_pos(&s, &u, what, p);
            }
            for what in PER_RANGE {
                let (p, _) = crate::props::service::any_pos(rng, &l);
                at_range(&s, &u, what, Range::new(l.pos(0), p), 2, true);
            }
            if round == 0 {
                // everything the first round computed is replaced or dropped
                s.commit(u.clone(), mutate::damage(rng, &text));
                at_doc(&s, &u, "diagnostics", &[], 2, true);
                s.commit(u.clone(), text.clone());
            }
        }
    }));
    if idx % 64 == 0 {
        // any number may be handed to the (safe) conversion: it refuses what isn't a kind
        use rowan::Language;
        for raw in 0..=u16::MAX {
            let kind = std::panic::catch_unwind(|| wat_syntax::WatLanguage::kind_from_raw(rowan::SyntaxKind(raw)));
            if let Ok(kind) = kind {
                n += wat_syntax::WatLanguage::kind_to_raw(kind).0 as u64 & 1;
                cx.count("kinds_converted", 1);
            }
        }
    }
    std::hint::black_box(n);
    cx.count("asan_requests", 2 * (PER_DOC.len() + PER_POS.len() + PER_RANGE.len()) as u64);
    if idx < 12 {
        cx.sample(json!({"document": text.chars().take(200).collect::<String>(), "kind": kind}));
    }
}
fn miri(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    // (the interpreter needs about a minute for a kilobyte and the requests)
    let mut docs: Vec<String> = vec![];
    docs.extend(EVERY_KIND.get(idx as usize).map(|s| s.to_string()));
    while docs.len() < 2 {
        let mut o = tool_opts(rng);
        o.max_fields = rng.range(1, 4);
        o.stmts = rng.range(0, 3);
        o.modules = 1;
        let mut t = make(rng, o).r.text;
        if rng.chance(1, 2) {
            t = mutate::damage(rng, &t);
        }
        if t.len() < 260 && t.len() > 60 && !t.contains('\u{1d}') {
            docs.push(t);
        }
    }
    let t0 = std::time::Instant::now();
    let all = docs.join("\u{1d}");
    let dir = std::env::temp_dir().join(format!("wlt-miri-{}-{idx}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join("docs");
    std::fs::write(&file, &all).unwrap();
    let base = crate::report::verif_dir();
    let target = std::env::var("WLT_MIRI_TARGET").unwrap_or(base.join("target/miri").display().to_string());
    let out = Command::new("cargo")
        .args(["miri", "run", "--quiet", "--offline", "--manifest-path"])
        .arg(base.join("miri/Cargo.toml"))
        .args(["--target-dir", &target, "--"])
        .arg(&file)
        .env("RUSTUP_TOOLCHAIN", "nightly")
        .env("MIRIFLAGS", "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation")
        .env_remove("RUSTFLAGS")
        .output();
    let _ = std::fs::remove_dir_all(&dir);
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            cx.harness_errors.push(format!("can't run Miri: {e}"));
            return;
        }
    };
    let (stdout, stderr) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    if std::env::var_os("WLT_VERBOSE").is_some() {
        eprintln!("miri {idx}: {:.0} s for {:?} bytes", t0.elapsed().as_secs_f64(), docs.iter().map(|d| d.len()).collect::<Vec<_>>());
    }
    let mut done = 0;
    for line in stdout.lines() {
        if let Some(n) = line.strip_prefix("done ") {
            cx.count("miri_requests", n.parse().unwrap_or(0));
        }
        done += 1;
        cx.count("miri_documents", 1);
    }
    for d in docs.iter().take(done) {
        cx.eval(d, true);
    }
    if stderr.contains("Undefined Behavior") {
        let at = stderr.find("Undefined Behavior").unwrap();
        let from = stderr[..at].rfind('\n').map_or(0, |x| x + 1);
        let doc = docs.get(done).cloned().unwrap_or_default();
        return cx.fail("undefined-behaviour", stderr[from..].chars().take(1200).collect(), &doc);
    }
    if !out.status.success() || done < docs.len() {
        let n = stderr.len();
        let mut from = n.saturating_sub(600);
        while !stderr.is_char_boundary(from) {
            from += 1;
        }
        cx.harness_errors.push(format!("Miri ended with {} after {done} of {} documents: {}", out.status, docs.len(), &stderr[from..]));
    }
}
