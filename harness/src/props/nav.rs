//! C13 navigation, C14 references, C15 rename, C16 undefined names, C17 duplicated names:
//! answers of the service compared with the binding model of the generator.
use crate::gen::*;
use crate::report::{Cx, Prop};
use crate::rng::Rng;
use crate::svc::*;
use lsp_types::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use wat_syntax::SyntaxKind as K;

pub const ASSUME: &[&str] = &[
    "generated modules: numeric references to module fields only where the tool's numbering (one counter for all kinds, fixed by its tests) agrees with the index space",
    "no branches to the implicit label of the function (fixed by its tests)",
    "functions that take parameters only from `(type ...)` have no locals",
];
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            quick: 160_000,
            thorough: 300_000,
            rule: "one goto request at one place of one token of a generated document; distinct by text, place and request; non-trivial when the token is a reference",
            assumptions: ASSUME,
            required: &["ref:Func", "ref:Type", "ref:Global", "ref:Memory", "ref:Table", "ref:Local", "ref:Label", "by_name", "by_number", "undefined", "typedef_hits", "non_references", "multi_module"],
            case: c13,
            probes: Some(c13_probes),
        },
        Prop {
            id: "C14",
            quick: 160_000,
            thorough: 300_000,
            rule: "one references request at one token of a generated document; distinct by text and place; non-trivial when the expected list is not empty",
            assumptions: ASSUME,
            required: &["on:Func", "on:Type", "on:Global", "on:Memory", "on:Table", "on:Local", "on:Label", "from_definition", "from_reference", "without_declaration", "duality_pairs"],
            case: c14,
            probes: None,
        },
        Prop {
            id: "C15",
            quick: 160_000,
            thorough: 300_000,
            rule: "one rename of one identifier occurrence; distinct by text and place; non-trivial when more than one place changes",
            assumptions: ASSUME,
            required: &["renames:Func", "renames:Type", "renames:Global", "renames:Memory", "renames:Table", "renames:Local", "renames:Label", "rejected_names", "rejected_places", "multi_edit"],
            case: c15,
            probes: None,
        },
        Prop {
            id: "C16",
            quick: 320_000,
            thorough: 600_000,
            rule: "one comparison of the set of `cannot find` reports of a document with the dangling references the generator planted; distinct by text; non-trivial when there is any reference",
            assumptions: ASSUME,
            required: &["refs_checked", "dangling:Func", "dangling:Type", "dangling:Global", "dangling:Memory", "dangling:Table", "dangling:Local", "dangling:Label", "clean_documents"],
            case: c16,
            probes: Some(c16_probes),
        },
        Prop {
            id: "C17",
            quick: 320_000,
            thorough: 600_000,
            rule: "one comparison of the set of `duplicated name` reports of a document with the repeated names the generator planted; distinct by text; non-trivial when there is a repeated name",
            assumptions: ASSUME,
            required: &["groups:module", "groups:locals", "clean_documents", "same_name_other_scope"],
            case: c17,
            probes: None,
        },
    ]
}

pub struct Case {
    pub d: Doc,
    pub r: Rendered,
}
pub fn tool_opts(rng: &mut Rng) -> Opts {
    let mut o = rand_opts(rng);
    o.tool_idx = true;
    o.modules = if rng.chance(1, 6) { 2 } else { 1 };
    o.calls_indirect = true;
    o.share_scopes = rng.chance(1, 2);
    o.shadow = *rng.pick(&[0, 0, 30]);
    o
}
pub fn make(rng: &mut Rng, o: Opts) -> Case {
    let d = generate(rng, o);
    let l = rand_layout(rng);
    let r = render(&d, rng, &l);
    Case { d, r }
}
impl Case {
    pub fn tok_range(&self, l: &Lines, t: usize) -> Range {
        let (a, b) = self.r.range(&self.d, t);
        l.range(a, b)
    }
}
/// References by number in element segments are not resolved by the tool.
fn tracked(d: &Doc, r: &Ref) -> bool {
    !(r.site == "elem" && matches!(r.by, By::Num(_))) && d.toks[r.tok].text.len() > 0
}
fn place(rng: &mut Rng, c: &Case, t: usize) -> usize {
    let (a, b) = c.r.range(&c.d, t);
    match rng.below(3) {
        0 => a,
        1 => b,
        _ => {
            let mut m = a + rng.below(b - a + 1);
            while !c.r.text.is_char_boundary(m) {
                m -= 1;
            }
            m
        }
    }
}
fn locs(v: Option<GotoDefinitionResponse>) -> Vec<Location> {
    match v {
        None => vec![],
        Some(GotoDefinitionResponse::Scalar(l)) => vec![l],
        Some(GotoDefinitionResponse::Array(a)) => a,
        Some(GotoDefinitionResponse::Link(_)) => vec![],
    }
}
fn key(r: &Range) -> (u32, u32, u32, u32) {
    (r.start.line, r.start.character, r.end.line, r.end.character)
}
fn set(it: impl Iterator<Item = Range>) -> BTreeSet<(u32, u32, u32, u32)> {
    it.map(|r| key(&r)).collect()
}
fn show(l: &Lines, s: &BTreeSet<(u32, u32, u32, u32)>) -> String {
    s.iter()
        .map(|k| {
            let r = Range::new(Position::new(k.0, k.1), Position::new(k.2, k.3));
            format!("{}:{} {:?}", k.0, k.1, l.slice(r).unwrap_or("<no text>"))
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn c13(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = *rng.pick(&[0, 0, 60]);
    let c = make(rng, o);
    let d = &c.d;
    let text = &c.r.text;
    let l = Lines::new(text);
    let u = uri(0);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    if d.modules.len() > 1 {
        cx.count("multi_module", 1);
    }
    let refs: BTreeMap<usize, &Ref> = d.refs.iter().map(|r| (r.tok, r)).collect();
    let mut toks: Vec<usize> = refs.keys().copied().collect();
    for _ in 0..8 {
        toks.push(rng.below(d.toks.len()));
    }
    while toks.len() > 60 {
        toks.swap_remove(rng.below(toks.len()));
    }
    for t in toks {
        let p = place(rng, &c, t);
        let pos = l.pos(p);
        let inp = format!("at {}:{} (`{}`)\n{text}", pos.line, pos.character, d.toks[t].text);
        let Some((def, decl, ty)) = cx.guard("goto", &inp, || {
            (s.goto_definition(goto_params(&u, pos)), s.goto_declaration(goto_params(&u, pos)), s.goto_type_definition(goto_params(&u, pos)))
        }) else {
            return;
        };
        let (def, decl, ty) = (locs(def), locs(decl), locs(ty));
        if def.iter().chain(&decl).chain(&ty).any(|x| x.uri != u) {
            return cx.fail("goto-uri", "a location names another document".into(), &inp);
        }
        let n = (def.len(), decl.len(), ty.len());
        let (def, decl, ty) = (set(def.into_iter().map(|x| x.range)), set(decl.into_iter().map(|x| x.range)), set(ty.into_iter().map(|x| x.range)));
        if n != (def.len(), decl.len(), ty.len()) {
            return cx.fail("goto-repeated", "a location is listed twice".into(), &inp);
        }
        cx.eval(&format!("{p}|{text}"), refs.contains_key(&t));
        let Some(r) = refs.get(&t) else {
            // (a place next to a parenthesis or blank belongs to the token itself)
            if d.toks[t].kind == K::L_PAREN || d.toks[t].kind == K::R_PAREN {
                continue;
            }
            cx.count("non_references", 1);
            if !def.is_empty() || !decl.is_empty() || !ty.is_empty() {
                return cx.fail("goto-nonref", format!("`{}` is no reference, but goto leads to {}", d.toks[t].text, show(&l, &def)), &inp);
            }
            continue;
        };
        if !tracked(d, r) {
            continue;
        }
        cx.count(&format!("ref:{:?}", r.space), 1);
        cx.count(if matches!(r.by, By::Name(_)) { "by_name" } else { "by_number" }, 1);
        cx.state(&format!("{:?} {} {}", r.space, r.site, matches!(r.by, By::Name(_))));
        if r.targets.is_empty() {
            cx.count("undefined", 1);
        }
        let want = set(r.targets.iter().map(|x| c.tok_range(&l, d.defs[*x].loc)));
        if def != want {
            return cx.fail("definition", format!("goto definition of `{}` ({}) leads to [{}], expected [{}]", d.toks[t].text, r.site, show(&l, &def), show(&l, &want)), &inp);
        }
        if r.site == "call" {
            if decl != want {
                return cx.fail("declaration", format!("goto declaration of `{}` leads to [{}], expected [{}]", d.toks[t].text, show(&l, &decl), show(&l, &want)), &inp);
            }
        } else if !decl.is_empty() && decl != want {
            return cx.fail("declaration", format!("goto declaration of `{}` leads to [{}], neither nothing nor [{}]", d.toks[t].text, show(&l, &decl), show(&l, &want)), &inp);
        }
        let operand = d.nodes[d.toks[r.tok].parent].kind == K::OPERAND;
        let want_ty = if r.space == Space::Func && operand {
            // only type uses that resolve
            set(r.targets.iter().filter_map(|f| d.defs[*f].type_ref).map(|ty| c.tok_range(&l, d.defs[ty].loc)))
        } else {
            BTreeSet::new()
        };
        if !want_ty.is_empty() {
            cx.count("typedef_hits", 1);
        }
        if ty != want_ty && !(r.space != Space::Func && ty.is_empty()) {
            return cx.fail("type-definition", format!("goto type definition of `{}` leads to [{}], expected [{}]", d.toks[t].text, show(&l, &ty), show(&l, &want_ty)), &inp);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(400).collect::<String>(), "references": d.refs.len()}));
    }
}
fn c13_probes(cx: &mut Cx) {
    // index spaces are counted per kind: `call 0` is the first function
    for (sig, text, at, want) in [
        ("index-after-type", "(module (type (func)) (func $a) (func (call 0)))", "0)))", "$a"),
        ("index-after-global", "(module (global i32 (i32.const 0)) (func $a) (func (call 0)))", "0)))", "$a"),
    ] {
        let s = opened(text);
        let l = Lines::new(text);
        let p = l.pos(text.find(at).unwrap());
        let got = locs(s.goto_definition(goto_params(&uri(0), p)));
        if got.len() != 1 || l.slice(got[0].range) != Some(want) {
            cx.fail(sig, format!("`call 0` leads to {:?} instead of the first function", got.iter().map(|x| l.slice(x.range)).collect::<Vec<_>>()), text);
        }
    }
}

// ------------------------------------------------------------------ references
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sym {
    Def(usize),
    Ref(usize),
}
/// The symbol a token stands for, as far as the references request is concerned.
fn symbol_at(d: &Doc, t: usize) -> Option<Sym> {
    if !matches!(d.toks[t].kind, K::IDENT | K::INT | K::UNSIGNED_INT | K::NUM_TYPE | K::VEC_TYPE | K::REF_TYPE | K::KEYWORD) {
        return None;
    }
    if let Some(i) = d.refs.iter().position(|r| r.tok == t) {
        return Some(Sym::Ref(i));
    }
    let n = d.toks[t].parent;
    d.defs.iter().position(|x| x.node == n).map(Sym::Def)
}
fn c14(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = *rng.pick(&[0, 0, 40]);
    let c = make(rng, o);
    let d = &c.d;
    let text = &c.r.text;
    let l = Lines::new(text);
    let u = uri(0);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    let mut toks: Vec<usize> = d.refs.iter().map(|r| r.tok).chain(d.defs.iter().filter(|x| x.loc != usize::MAX).map(|x| x.loc)).collect();
    for _ in 0..6 {
        toks.push(rng.below(d.toks.len()));
    }
    while toks.len() > 60 {
        toks.swap_remove(rng.below(toks.len()));
    }
    for t in toks {
        if matches!(d.toks[t].kind, K::L_PAREN | K::R_PAREN) {
            continue;
        }
        let p = place(rng, &c, t);
        let pos = l.pos(p);
        let decl = rng.chance(1, 2);
        let inp = format!("at {}:{} (`{}`), include_declaration {decl}\n{text}", pos.line, pos.character, d.toks[t].text);
        let Some(got) = cx.guard("references", &inp, || s.find_references(ref_params(&u, pos, decl))) else { return };
        let got = got.unwrap_or_default();
        if got.iter().any(|x| x.uri != u) {
            return cx.fail("references-uri", "a location names another document".into(), &inp);
        }
        let n = got.len();
        let got = set(got.into_iter().map(|x| x.range));
        if got.len() != n {
            return cx.fail("references-repeated", "a location is listed twice".into(), &inp);
        }
        let (targets, from) = match symbol_at(d, t) {
            None => (vec![], ""),
            Some(Sym::Def(i)) => (vec![i], "from_definition"),
            Some(Sym::Ref(i)) => {
                if !tracked(d, &d.refs[i]) {
                    continue;
                }
                (d.refs[i].targets.clone(), "from_reference")
            }
        };
        let mut want = set(d.refs.iter().filter(|r| tracked(d, r) && r.targets.iter().any(|x| targets.contains(x))).map(|r| c.tok_range(&l, r.tok)));
        if decl {
            want.extend(set(targets.iter().map(|x| c.tok_range(&l, d.defs[*x].loc))));
        } else {
            cx.count("without_declaration", 1);
        }
        cx.count(from, 1);
        if let Some(x) = targets.first() {
            cx.count(&format!("on:{:?}", d.defs[*x].space), 1);
            cx.count("duality_pairs", want.len() as u64);
            cx.state(&format!("{:?} {from} {decl} {}", d.defs[*x].space, want.len().min(5)));
        }
        cx.eval(&format!("{p}{decl}|{text}"), !want.is_empty());
        if got != want {
            return cx.fail("references", format!("references of `{}` are [{}], expected [{}]", d.toks[t].text, show(&l, &got), show(&l, &want)), &inp);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(400).collect::<String>(), "definitions": d.defs.len(), "references": d.refs.len()}));
    }
}

// ------------------------------------------------------------------ rename
/// Applies edits by the LSP rules; `None` when they overlap or lie outside.
pub fn apply(text: &str, edits: &[TextEdit]) -> Option<String> {
    let l = Lines::new(text);
    let mut e: Vec<(usize, usize, &str)> = vec![];
    for x in edits {
        e.push((l.off(x.range.start)?, l.off(x.range.end)?, &x.new_text));
    }
    e.sort();
    let mut out = String::new();
    let mut at = 0;
    for (a, b, t) in e {
        if a < at || b < a {
            return None;
        }
        out.push_str(&text[at..a]);
        out.push_str(t);
        at = b;
    }
    out.push_str(&text[at..]);
    Some(out)
}
fn module_level(s: Space) -> bool {
    !matches!(s, Space::Local | Space::Label)
}
/// Tokens that a rename of the symbol at token `t` has to change.
fn rename_set(d: &Doc, t: usize) -> Option<BTreeSet<usize>> {
    let name = &d.toks[t].text;
    let by_name = |r: &Ref| matches!(&r.by, By::Name(n) if n == name);
    let named = |x: &Def| x.name.as_ref() == Some(name);
    let sym = symbol_at(d, t)?;
    let (space, module, func) = match sym {
        Sym::Def(i) => (d.defs[i].space, d.defs[i].module, d.defs[i].func),
        Sym::Ref(i) => (d.refs[i].space, d.refs[i].module, d.refs[i].func),
    };
    let mut out = BTreeSet::new();
    if space == Space::Label {
        let def = match sym {
            Sym::Def(i) => i,
            Sym::Ref(i) => match d.refs[i].targets.first() {
                Some(x) => *x,
                None => return Some([t].into()),
            },
        };
        out.insert(d.defs[def].loc);
        out.extend(d.refs.iter().filter(|r| by_name(r) && r.targets.contains(&def)).map(|r| r.tok));
        return Some(out);
    }
    let same = |s: Space, m: usize, f: Option<usize>| {
        m == module && if module_level(space) { module_level(s) } else { s == Space::Local && f == func }
    };
    out.extend(d.defs.iter().filter(|x| named(x) && same(x.space, x.module, x.func)).map(|x| x.loc));
    out.extend(d.refs.iter().filter(|r| by_name(r) && same(r.space, r.module, r.func)).map(|r| r.tok));
    Some(out)
}
fn c15(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = *rng.pick(&[0, 0, 0, 40]);
    let c = make(rng, o);
    let d = &c.d;
    let text = &c.r.text;
    let l = Lines::new(text);
    let u = uri(0);
    let Some(s) = cx.guard("commit", text, || opened(text)) else { return };
    let mut toks: Vec<usize> = (0..d.toks.len()).filter(|t| d.toks[*t].kind == K::IDENT).collect();
    for _ in 0..3 {
        toks.push(rng.below(d.toks.len()));
    }
    while toks.len() > 40 {
        toks.swap_remove(rng.below(toks.len()));
    }
    for t in toks {
        if matches!(d.toks[t].kind, K::L_PAREN | K::R_PAREN) {
            continue;
        }
        let p = place(rng, &c, t);
        let pos = l.pos(p);
        let new = *rng.pick(&["$fresh_new", "$Z", "$a-much-longer-name-than-before.0", "$!?"]);
        let inp = format!("rename at {}:{} (`{}`) to {new}\n{text}", pos.line, pos.character, d.toks[t].text);
        let Some((prep, ren)) = cx.guard("rename", &inp, || (s.prepare_rename(tdpos(&u, pos)), s.rename(rename_params(&u, pos, new)))) else { return };
        let prep = match prep {
            Some(PrepareRenameResponse::Range(r)) => Some(key(&r)),
            Some(_) => Some((0, 0, 0, 0)),
            None => None,
        };
        if d.toks[t].kind != K::IDENT {
            cx.count("rejected_places", 1);
            cx.eval(&inp, false);
            if prep.is_some() || !ren.is_err() {
                return cx.fail("rename-place", format!("`{}` is no identifier, but can be renamed", d.toks[t].text), &inp);
            }
            continue;
        }
        if prep != Some(key(&c.tok_range(&l, t))) {
            return cx.fail("prepare-rename", format!("prepareRename gives {prep:?} for `{}`", d.toks[t].text), &inp);
        }
        let Ok(ren) = ren else {
            return cx.fail("rename-refused", format!("rename of `{}` to {new} is refused", d.toks[t].text), &inp);
        };
        let mut edits = vec![];
        for (k, v) in ren.iter().flat_map(|w| w.changes.iter().flatten()) {
            if k != &u {
                return cx.fail("rename-uri", format!("edits for {k:?}"), &inp);
            }
            edits.extend(v.iter().cloned());
        }
        let Some(want) = rename_set(d, t) else {
            // identifiers of data and element segments and of modules are not symbols
            continue;
        };
        let kind = match symbol_at(d, t) {
            Some(Sym::Def(i)) => d.defs[i].space,
            Some(Sym::Ref(i)) => d.refs[i].space,
            None => unreachable!(),
        };
        cx.count(&format!("renames:{kind:?}"), 1);
        cx.state(&format!("{kind:?} {}", want.len().min(8)));
        if want.len() > 1 {
            cx.count("multi_edit", 1);
        }
        cx.eval(&format!("{p}{new}|{text}"), want.len() > 1);
        if let Some(e) = edits.iter().find(|e| e.new_text != new) {
            return cx.fail("rename-text", format!("an edit inserts {:?}", e.new_text), &inp);
        }
        let n = edits.len();
        let got = set(edits.iter().map(|e| e.range));
        let wantr = set(want.iter().map(|t| c.tok_range(&l, *t)));
        if got != wantr || n != got.len() {
            return cx.fail("rename-places", format!("rename of `{}` changes [{}], expected [{}]", d.toks[t].text, show(&l, &got), show(&l, &wantr)), &inp);
        }
        // the edited text denotes the same bindings
        let Some(after) = apply(text, &edits) else {
            return cx.fail("rename-edits", "edits overlap".into(), &inp);
        };
        let mut d2 = d.clone();
        for t in &want {
            d2.toks[*t].text = new.to_string();
        }
        for x in d2.defs.iter_mut() {
            if want.contains(&x.loc) && x.name.is_some() {
                x.name = Some(new.to_string());
            }
        }
        for x in d2.refs.iter_mut() {
            if want.contains(&x.tok) {
                x.by = By::Name(new.to_string());
            }
        }
        resolve_doc(&mut d2);
        if d.refs.iter().zip(&d2.refs).any(|(a, b)| a.targets != b.targets) {
            cx.harness_errors.push(format!("model of rename does not keep bindings: {inp}"));
            return;
        }
        // and the tool agrees: definitions of the renamed references are where they were
        if rng.chance(1, 4) {
            let r2 = Rendered { text: after.clone(), starts: shifted(&c, &want, new) };
            let l2 = Lines::new(&after);
            let Some(s2) = cx.guard("commit", &after, || opened(&after)) else { return };
            for r in d2.refs.iter().filter(|r| want.contains(&r.tok)).take(6) {
                let p = l2.pos(r2.starts[r.tok]);
                let Some(got) = cx.guard("goto", &after, || locs(s2.goto_definition(goto_params(&u, p)))) else { return };
                let got = set(got.into_iter().map(|x| x.range));
                let w = set(r.targets.iter().map(|x| {
                    let (a, b) = r2.range(&d2, d2.defs[*x].loc);
                    l2.range(a, b)
                }));
                cx.count("bindings_rechecked", 1);
                if got != w {
                    return cx.fail("rename-binding", format!("after the rename `{}` resolves to [{}] instead of [{}]", new, show(&l2, &got), show(&l2, &w)), &inp);
                }
            }
        }
        // names that are no identifiers
        if rng.chance(1, 4) {
            let bad = *rng.pick(&["", "x", "$", "$a b", "$é", "$(x", "$x)", "a$x", "$x\n", "$\"", "$a;b", "$a,b", "$[", "$a{"]);
            let Some(x) = cx.guard("rename", &inp, || s.rename(rename_params(&u, pos, bad))) else { return };
            cx.count("rejected_names", 1);
            if !x.is_err() {
                return cx.fail("rename-bad-name", format!("rename to {bad:?} is accepted"), &inp);
            }
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(400).collect::<String>()}));
    }
}
fn shifted(c: &Case, want: &BTreeSet<usize>, new: &str) -> Vec<usize> {
    let mut delta = 0isize;
    let mut out = vec![];
    for (i, st) in c.r.starts.iter().enumerate() {
        out.push((*st as isize + delta) as usize);
        if want.contains(&i) {
            delta += new.len() as isize - c.d.toks[i].text.len() as isize;
        }
    }
    out
}

// ------------------------------------------------------------------ diagnostics about names
fn with_message(ds: &[Diagnostic], part: &str) -> Vec<Diagnostic> {
    ds.iter().filter(|d| d.message.contains(part)).cloned().collect()
}
fn c16(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    o.undefined = *rng.pick(&[0, 30, 100, 300]);
    if rng.chance(1, 3) {
        // mostly branches between nested blocks
        o.blocks = true;
        o.branches = true;
        o.depth = rng.range(3, 6);
        o.shadow = 30;
    }
    let c = make(rng, o);
    let d = &c.d;
    let text = &c.r.text;
    let l = Lines::new(text);
    let Some(ds) = cx.guard("diagnostics", text, || diagnostics(&opened(text), &uri(0))) else { return };
    let ds = with_message(&ds, "cannot find");
    let got: BTreeMap<_, _> = ds.iter().map(|x| (key(&x.range), x)).collect();
    let mut want = BTreeMap::new();
    for r in d.refs.iter().filter(|r| tracked(d, r)) {
        cx.count("refs_checked", 1);
        if r.targets.is_empty() {
            // a branch outside of all blocks is not looked at (fixed by the tests)
            if r.space == Space::Label && r.labels.is_empty() {
                continue;
            }
            cx.count(&format!("dangling:{:?}", r.space), 1);
            cx.state(&format!("{:?} {} {}", r.space, r.site, matches!(r.by, By::Name(_))));
            want.insert(key(&c.tok_range(&l, r.tok)), r);
        }
    }
    if want.is_empty() {
        cx.count("clean_documents", 1);
    }
    cx.eval(text, !d.refs.is_empty());
    if got.len() != ds.len() {
        return cx.fail("undefined-repeated", "a dangling reference is reported twice".into(), text);
    }
    for (k, r) in &want {
        match got.get(k) {
            None => return cx.fail("undefined-missed", format!("`{}` ({}) at {}:{} is not defined, and this is not reported", d.toks[r.tok].text, r.site, k.0, k.1), text),
            // a number may be shown as it is written or by its value
            Some(x)
                if !x.message.contains(&format!("`{}`", d.toks[r.tok].text))
                    && !matches!(&r.by, By::Num(n) if x.message.contains(&format!("`{n}`"))) =>
            {
                return cx.fail("undefined-message", format!("`{}` is reported as {:?}", d.toks[r.tok].text, x.message), text)
            }
            Some(x) if x.severity != Some(DiagnosticSeverity::ERROR) => return cx.fail("undefined-severity", format!("{:?}", x.severity), text),
            _ => {}
        }
    }
    for (k, x) in &got {
        if !want.contains_key(k) {
            return cx.fail("undefined-false", format!("{:?} at {}:{}, where a reference resolves (or there is none)", x.message, k.0, k.1), text);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "dangling": want.len()}));
    }
}
fn c16_probes(cx: &mut Cx) {
    for (sig, text) in [
        ("index-after-type", "(module (type (func)) (func (call 0)))"),
        ("function-label", "(module (func (block (br 1))))"),
        ("params-of-type", "(module (type $t (func (param i32))) (func (type $t) (drop (local.get 0))))"),
    ] {
        let ds = with_message(&diagnostics(&opened(text), &uri(0)), "cannot find");
        if !ds.is_empty() {
            cx.fail(sig, format!("valid module is reported: {:?}", ds[0].message), text);
        }
    }
}

fn c17(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let mut o = tool_opts(rng);
    // names that are shared between kinds are reported on purpose (fixed by the tests)
    o.share_names = false;
    o.share_scopes = true;
    o.shadow = 0;
    o.dup = *rng.pick(&[0, 60, 200]);
    
    o.named = *rng.pick(&[75, 100]);
    let c = make(rng, o);
    let d = &c.d;
    let text = &c.r.text;
    let l = Lines::new(text);
    let u = uri(0);
    let Some(ds) = cx.guard("diagnostics", text, || diagnostics(&opened(text), &u)) else { return };
    let ds = with_message(&ds, "duplicated name");
    let mut groups: BTreeMap<(usize, Option<usize>, Space, String), Vec<usize>> = BTreeMap::new();
    for x in d.defs.iter().filter(|x| x.loc != usize::MAX && x.space != Space::Label) {
        if let Some(n) = &x.name {
            groups.entry((x.module, if x.space == Space::Local { x.func } else { None }, x.space, n.clone())).or_default().push(x.loc);
        }
    }
    let names: Vec<&String> = groups.keys().map(|k| &k.3).collect();
    if names.iter().collect::<BTreeSet<_>>().len() < names.len() {
        cx.count("same_name_other_scope", 1);
    }
    let mut want: BTreeMap<_, (String, BTreeSet<_>)> = BTreeMap::new();
    for ((_, _, space, name), v) in groups.iter().filter(|g| g.1.len() > 1) {
        cx.count(if *space == Space::Local { "groups:locals" } else { "groups:module" }, 1);
        cx.state(&format!("{space:?} {}", v.len()));
        for t in v {
            let others = set(v.iter().filter(|x| *x != t).map(|x| c.tok_range(&l, *x)));
            want.insert(key(&c.tok_range(&l, *t)), (name.clone(), others));
        }
    }
    if want.is_empty() {
        cx.count("clean_documents", 1);
    }
    cx.eval(text, !want.is_empty());
    let got: BTreeMap<_, _> = ds.iter().map(|x| (key(&x.range), x)).collect();
    if got.len() != ds.len() {
        return cx.fail("duplicate-repeated", "a duplicated name is reported twice".into(), text);
    }
    for (k, (name, others)) in &want {
        let Some(x) = got.get(k) else {
            return cx.fail("duplicate-missed", format!("`{name}` at {}:{} is defined more than once, and this is not reported", k.0, k.1), text);
        };
        if !x.message.contains(&format!("`{name}`")) {
            return cx.fail("duplicate-message", format!("`{name}` is reported as {:?}", x.message), text);
        }
        let rel = x.related_information.clone().unwrap_or_default();
        if rel.iter().any(|r| r.location.uri != u) {
            return cx.fail("duplicate-uri", "related information names another document".into(), text);
        }
        let rel = set(rel.into_iter().map(|r| r.location.range));
        if &rel != others {
            return cx.fail("duplicate-related", format!("`{name}` is related to [{}], expected [{}]", show(&l, &rel), show(&l, others)), text);
        }
    }
    for (k, x) in &got {
        if !want.contains_key(k) {
            return cx.fail("duplicate-false", format!("{:?} at {}:{}, where the name is unique in its scope", x.message, k.0, k.1), text);
        }
    }
    if idx < 3 {
        cx.sample(json!({"document": text.chars().take(300).collect::<String>(), "duplicates": want.len()}));
    }
}
