//! C18 type checking.
use crate::props::nav::{make, tool_opts, ASSUME};
use crate::report::{Cx, Prop};
use crate::rng::Rng;
use crate::svc::*;
use serde_json::json;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        quick: 400_000,
        thorough: 1_500_000,
        rule: "one comparison of all diagnostics of a document with the planted type mistake (or none); distinct by text; non-trivial when a mistake is planted or the document has code after a branch",
        assumptions: ASSUME,
        required: &["clean", "wrong", "missing", "extra", "flat-wrong", "flat-missing", "polymorphic"],
        case: c18,
        probes: None,
    }]
}
fn c18(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.modules = 1;
    o.wild = false;
    o.typed = true;
    o.share_names = false;
    o.share_scopes = false;
    o.shadow = 0;
    o.calls_indirect = rng.chance(1, 3);
    o.poly = rng.chance(2, 3);
    if rng.chance(3, 4) {
        o.stmts = rng.range(1, 8);
        o.max_fields = rng.range(3, 16);
        let max = *rng.pick(&[4, 20, 60]);
        o.type_mistake = Some(rng.below(max));
    }
    let poly = o.poly;
    let c = make(rng, o);
    let text = &c.r.text;
    let Some(ds) = cx.guard("diagnostics", text, || diagnostics(&opened(text), &uri(0))) else { return };
    let l = Lines::new(text);
    let node_range = |n: usize| {
        let (a, b) = c.d.ends(n).expect("node with tokens");
        (c.r.range(&c.d, a).0, c.r.range(&c.d, b).1)
    };
    let poly = poly && c.d.toks.iter().any(|t| matches!(&*t.text, "unreachable" | "return" | "br"));
    if poly {
        cx.count("polymorphic", 1);
    }
    let got: Vec<(usize, usize, &str)> = ds.iter().map(|d| (l.off(d.range.start).unwrap_or(usize::MAX), l.off(d.range.end).unwrap_or(usize::MAX), d.message.as_str())).collect();
    let show = |(a, b, m): &(usize, usize, &str)| format!("{m:?} at {:?}", text.get(*a..*b).unwrap_or("<no text>"));
    cx.eval(text, poly || !c.d.planted.is_empty());
    let Some(p) = c.d.planted.first() else {
        cx.count("clean", 1);
        if let Some(d) = got.first() {
            cx.fail("false-alarm", format!("{} in a well-typed module", show(d)), text);
        }
        return;
    };
    if c.d.planted.len() > 1 {
        cx.harness_errors.push(format!("more than one mistake: {text}"));
        return;
    }
    cx.count(p.kind, 1);
    let (a, b) = node_range(p.node);
    let name = c.d.ends(p.node).map(|(f, _)| c.d.toks[f..].iter().take(2).map(|t| t.text.as_str()).collect::<Vec<_>>().join("")).unwrap_or_default();
    cx.state(&format!("{} {} {}", p.kind, p.message, name));
    let want = (a, b, p.message.as_str());
    if !got.contains(&want) {
        return cx.fail(
            &format!("{}-missed", p.kind),
            format!("{} is expected, but the diagnostics are {}", show(&want), got.iter().map(show).collect::<Vec<_>>().join(", ")),
            text,
        );
    }
    let loose = p.loose.map(node_range);
    let rest: BTreeSet<_> = got.iter().filter(|d| **d != want && !loose.is_some_and(|(x, y)| x <= d.0 && d.1 <= y && d.2.starts_with("expected type"))).collect();
    if let Some(d) = rest.first() {
        return cx.fail("further-alarm", format!("{} next to the only mistake, {}", show(d), show(&want)), text);
    }
    if got.iter().filter(|d| **d == want).count() > 1 {
        return cx.fail("repeated", format!("{} is reported twice", show(&want)), text);
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "mistake": p.message, "kind": p.kind}));
    }
}
