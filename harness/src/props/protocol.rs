//! C29: the server process, driven over its standard input and output.
use crate::props::nav::{make, tool_opts};
use crate::report::{Cx, Prop};
use crate::rng::Rng;
use crate::svc::*;
use crate::mutate;
use lsp_types::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use wat_service::LanguageService;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        quick: 9_600,
        thorough: 60_000,
        rule: "one session with a server process; every message it writes is compared with what an in-process language service answers; distinct by the script of the session",
        assumptions: &["the client sends well-formed JSON-RPC messages with unique request ids", "documents are nested at most some dozen levels (deeper ones overflow the stack)"],
        required: &[
            "responses", "errors:unknown-method", "errors:bad-params", "errors:unopened", "published", "cleared", "sessions:pull", "sessions:push", "several_changes", "empty_changes", "ignored_notifications",
            "pipelined", "split_writes", "ends:shutdown", "ends:eof", "string_ids", "after_close", "rename_refused", "announced",
        ],
        case: c29,
        probes: Some(c29_probes),
    }]
}
/// The version is printed, without a session.
fn c29_probes(cx: &mut Cx) {
    let version = v(LanguageService::default().initialize(to(&json!({"capabilities": {}}))))["serverInfo"]["version"].as_str().unwrap_or("").to_string();
    for args in [&["-v"][..], &["-V"], &["--version"], &["--debug", "--version"]] {
        let inp = format!("wat_server {}", args.join(" "));
        cx.eval(&inp, true);
        let Ok(mut p) = Command::new(server()).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else {
            cx.harness_errors.push("the server could not be started".into());
            return;
        };
        // its input stays open: it ends without reading a message
        let t = Instant::now();
        let status = loop {
            match p.try_wait() {
                Ok(Some(st)) => break Some(st),
                _ if t.elapsed() > Duration::from_secs(20) => {
                    let _ = p.kill();
                    let _ = p.wait();
                    break None;
                }
                _ => std::thread::sleep(Duration::from_millis(5)),
            }
        };
        let mut out = String::new();
        let _ = p.stdout.take().unwrap().read_to_string(&mut out);
        if !status.is_some_and(|st| st.success()) {
            cx.fail("version-exit", format!("{inp} ends with {status:?}"), &inp);
        } else if out.trim_end() != format!("wat_server v{version}") {
            cx.fail("version", format!("{inp} prints {out:?}, the version is {version:?}"), &inp);
        }
    }
}
/// Requests that the server answers are announced in the answer to `initialize`.
const ANNOUNCED: &[&str] = &[
    "callHierarchyProvider", "codeActionProvider", "completionProvider", "declarationProvider", "definitionProvider", "diagnosticProvider", "documentFormattingProvider", "documentRangeFormattingProvider",
    "documentSymbolProvider", "foldingRangeProvider", "hoverProvider", "inlayHintProvider", "referencesProvider", "renameProvider", "selectionRangeProvider", "semanticTokensProvider", "typeDefinitionProvider",
];
fn announced(r: &Value) -> Option<String> {
    let c = &r["capabilities"];
    if let Some(k) = ANNOUNCED.iter().find(|k| !(c[**k] == json!(true) || c[**k].is_object())) {
        return Some(format!("{k} is {}", c[*k]));
    }
    for (path, want) in [
        ("/renameProvider/prepareProvider", json!(true)),
        ("/textDocumentSync/openClose", json!(true)),
        ("/textDocumentSync/change", json!(1)),
        ("/semanticTokensProvider/full", json!(true)),
        ("/semanticTokensProvider/range", json!(true)),
        ("/diagnosticProvider/interFileDependencies", json!(false)),
        ("/diagnosticProvider/workspaceDiagnostics", json!(false)),
    ] {
        let got = c.pointer(path).cloned().unwrap_or(Value::Null);
        if got != want {
            return Some(format!("{path} is {got}, not {want}"));
        }
    }
    let kinds: Vec<&str> = c["codeActionProvider"]["codeActionKinds"].as_array().into_iter().flatten().filter_map(|k| k.as_str()).collect();
    if c["codeActionProvider"].is_object() && c["codeActionProvider"].get("codeActionKinds").is_some() && !(kinds.contains(&"quickfix") && kinds.contains(&"refactor.rewrite")) {
        return Some(format!("the kinds of code actions are {kinds:?}"));
    }
    let trigger: Vec<&str> = c["completionProvider"]["triggerCharacters"].as_array().into_iter().flatten().filter_map(|k| k.as_str()).collect();
    if !(trigger.contains(&"$") && trigger.contains(&"(")) {
        return Some(format!("completion is triggered by {trigger:?}"));
    }
    None
}
fn server() -> std::path::PathBuf {
    match std::env::var_os("WLT_SERVER") {
        Some(p) => p.into(),
        None => crate::report::verif_dir().join("target/server/debug/wat_server"),
    }
}
/// What a request must be answered with.
#[derive(Clone, Debug)]
enum Want {
    Result(Value),
    Error(Option<String>),
}
fn to<T: serde::de::DeserializeOwned>(p: &Value) -> T {
    serde_json::from_value(p.clone()).unwrap()
}
fn v<T: serde::Serialize>(x: T) -> Value {
    serde_json::to_value(x).unwrap()
}
/// What the service itself answers.
fn model(s: &LanguageService, method: &str, p: &Value) -> Want {
    Want::Result(match method {
        "textDocument/prepareCallHierarchy" => v(s.prepare_call_hierarchy(to(p))),
        "callHierarchy/incomingCalls" => v(s.call_hierarchy_incoming_calls(to(p))),
        "callHierarchy/outgoingCalls" => v(s.call_hierarchy_outgoing_calls(to(p))),
        "textDocument/codeAction" => v(s.code_action(to(p))),
        "textDocument/completion" => v(s.completion(to(p))),
        "textDocument/diagnostic" => v(s.pull_diagnostics(to(p))),
        "textDocument/foldingRange" => v(s.folding_range(to(p))),
        "textDocument/formatting" => v(s.formatting(to(p))),
        "textDocument/rangeFormatting" => v(s.range_formatting(to(p))),
        "textDocument/definition" => v(s.goto_definition(to(p))),
        "textDocument/typeDefinition" => v(s.goto_type_definition(to(p))),
        "textDocument/declaration" => v(s.goto_declaration(to(p))),
        "textDocument/hover" => v(s.hover(to(p))),
        "textDocument/inlayHint" => v(s.inlay_hint(to(p))),
        "textDocument/references" => v(s.find_references(to(p))),
        "textDocument/prepareRename" => v(s.prepare_rename(to(p))),
        "textDocument/rename" => match s.rename(to(p)) {
            Ok(x) => v(x),
            Err(e) => return Want::Error(Some(e.to_string())),
        },
        "textDocument/selectionRange" => v(s.selection_range(to(p))),
        "textDocument/semanticTokens/full" => v(s.semantic_tokens_full(to(p))),
        "textDocument/semanticTokens/range" => v(s.semantic_tokens_range(to(p))),
        "textDocument/documentSymbol" => v(s.document_symbol(to(p))),
        _ => unreachable!("{method}"),
    })
}
const METHODS: [&str; 21] = [
    "textDocument/prepareCallHierarchy",
    "callHierarchy/incomingCalls",
    "callHierarchy/outgoingCalls",
    "textDocument/codeAction",
    "textDocument/completion",
    "textDocument/diagnostic",
    "textDocument/foldingRange",
    "textDocument/formatting",
    "textDocument/rangeFormatting",
    "textDocument/definition",
    "textDocument/typeDefinition",
    "textDocument/declaration",
    "textDocument/hover",
    "textDocument/inlayHint",
    "textDocument/references",
    "textDocument/prepareRename",
    "textDocument/rename",
    "textDocument/selectionRange",
    "textDocument/semanticTokens/full",
    "textDocument/semanticTokens/range",
    "textDocument/documentSymbol",
];
fn rand_pos(rng: &mut Rng, text: &str) -> Value {
    let l = Lines::new(text);
    let mut p = rng.below(text.len() + 1);
    while !text.is_char_boundary(p) {
        p -= 1;
    }
    match rng.below(12) {
        0 => json!({"line": rng.below(50), "character": rng.below(200)}),
        _ => v(l.pos(p)),
    }
}
fn params(rng: &mut Rng, s: &LanguageService, method: &str, uri: &str, text: &str) -> Option<Value> {
    let td = json!({"uri": uri});
    let pos = rand_pos(rng, text);
    let range = {
        let (a, b) = (rand_pos(rng, text), rand_pos(rng, text));
        let k = |p: &Value| (p["line"].as_u64(), p["character"].as_u64());
        if k(&a) <= k(&b) {
            json!({"start": a, "end": b})
        } else {
            json!({"start": b, "end": a})
        }
    };
    let options = json!({"tabSize": rng.range(1, 8), "insertSpaces": rng.chance(1, 2)});
    Some(match method {
        "callHierarchy/incomingCalls" | "callHierarchy/outgoingCalls" => {
            let u: Uri = uri.parse().unwrap();
            let l = Lines::new(text);
            let at = [text.find("(func"), text.rfind("(func"), text.find("call ")].into_iter().flatten().collect::<Vec<_>>();
            let at = *at.get(rng.below(at.len().max(1)))?;
            let item = s.prepare_call_hierarchy(ch_prepare_params(&u, l.pos(at + 1)))?.into_iter().next()?;
            json!({"item": item})
        }
        "textDocument/codeAction" => json!({"textDocument": td, "range": range, "context": {"diagnostics": []}}),
        "textDocument/diagnostic" | "textDocument/foldingRange" | "textDocument/semanticTokens/full" | "textDocument/documentSymbol" => json!({"textDocument": td}),
        "textDocument/formatting" => json!({"textDocument": td, "options": options}),
        "textDocument/rangeFormatting" => json!({"textDocument": td, "options": options, "range": range}),
        "textDocument/inlayHint" | "textDocument/semanticTokens/range" => json!({"textDocument": td, "range": range}),
        "textDocument/references" => json!({"textDocument": td, "position": pos, "context": {"includeDeclaration": rng.chance(1, 2)}}),
        "textDocument/rename" => json!({"textDocument": td, "position": pos, "newName": *rng.pick(&["$new", "$x", "new", "$", "$a b", ""])}),
        "textDocument/selectionRange" => json!({"textDocument": td, "positions": (0..rng.below(4)).map(|_| rand_pos(rng, text)).collect::<Vec<_>>()}),
        _ => json!({"textDocument": td, "position": pos}),
    })
}
fn document(rng: &mut Rng) -> String {
    let mut o = tool_opts(rng);
    o.max_fields = rng.range(1, 6);
    o.stmts = rng.range(0, 3);
    if rng.chance(1, 3) {
        o.undefined = 80;
    }
    let mut t = make(rng, o).r.text;
    match rng.below(8) {
        0 | 1 => t = mutate::damage(rng, &t),
        2 => t = mutate::soup(rng, 20),
        3 if rng.chance(1, 3) => t = String::new(),
        _ => {}
    }
    t
}
enum Read1 {
    Message(Value),
    Eof,
    Garbage(String),
}
fn parse_stream(buf: &[u8]) -> Vec<Read1> {
    let mut out = vec![];
    let mut i = 0;
    while i < buf.len() {
        let rest = &buf[i..];
        let Some(h) = rest.windows(4).position(|w| w == b"\r\n\r\n") else {
            out.push(Read1::Garbage(String::from_utf8_lossy(rest).into_owned()));
            return out;
        };
        let head = String::from_utf8_lossy(&rest[..h]).to_lowercase();
        let len = head.lines().find_map(|l| l.strip_prefix("content-length:")).and_then(|x| x.trim().parse::<usize>().ok());
        let (Some(len), true) = (len, true) else {
            out.push(Read1::Garbage(head));
            return out;
        };
        let Some(body) = rest.get(h + 4..h + 4 + len) else {
            out.push(Read1::Garbage(String::from_utf8_lossy(rest).into_owned()));
            return out;
        };
        match serde_json::from_slice(body) {
            Ok(m) => out.push(Read1::Message(m)),
            Err(_) => {
                out.push(Read1::Garbage(String::from_utf8_lossy(body).into_owned()));
                return out;
            }
        }
        i += h + 4 + len;
    }
    out.push(Read1::Eof);
    out
}

fn c29(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let bin = server();
    if !bin.exists() {
        cx.harness_errors.push(format!("{} doesn't exist", bin.display()));
        return;
    }
    let mut s = LanguageService::default();
    let pull = rng.chance(1, 2);
    cx.count(if pull { "sessions:pull" } else { "sessions:push" }, 1);
    let mut types = token_types();
    if rng.chance(1, 3) {
        types.retain(|_| rng.chance(2, 3));
    }
    let mut caps = json!({"textDocument": {"semanticTokens": {"requests": {}, "tokenTypes": types, "tokenModifiers": [], "formats": []}}});
    if pull {
        caps["textDocument"]["diagnostic"] = json!({});
    } else if rng.chance(1, 6) {
        caps = json!({});
    }
    let init = json!({"processId": null, "rootUri": null, "capabilities": caps});
    let mut script: Vec<Value> = vec![];
    let mut wants: BTreeMap<String, (String, Want)> = BTreeMap::new();
    let mut published: HashMap<String, Vec<Value>> = HashMap::new();
    let init_result = v(s.initialize(to(&init)));
    if let Some(what) = announced(&init_result) {
        return cx.fail("announced", format!("the answer to initialize is wrong: {what}"), &init.to_string());
    }
    cx.count("announced", 1);
    script.push(json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": init}));
    wants.insert("0".into(), ("initialize".into(), Want::Result(init_result)));
    script.push(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));
    let uris: Vec<String> = (0..rng.range(1, 3)).map(|i| ["untitled:one", "file:///tmp/a%20b/t.wat", "file:///x/%C3%A9.wat"][i].to_string()).collect();
    let mut docs: HashMap<String, String> = HashMap::new();
    let mut id = 0;
    let steps = rng.range(3, 24);
    for step in 0..steps {
        let uri = rng.pick(&uris).clone();
        let u: Uri = uri.parse().unwrap();
        let kind = if step == 0 { 0 } else { rng.below(16) };
        let publish = |cx: &mut Cx, s: &LanguageService, published: &mut HashMap<String, Vec<Value>>| {
            if !pull {
                published.entry(uri.clone()).or_default().push(v(s.publish_diagnostics(u.clone())));
                cx.count("published", 1);
            }
        };
        match kind {
            0 => {
                let text = document(rng);
                script.push(json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "wat", "version": 1, "text": text}}}));
                let Some(()) = cx.guard("open", &text, || s.commit(u.clone(), text.clone())) else { return };
                docs.insert(uri.clone(), text);
                publish(cx, &s, &mut published);
            }
            1 | 2 if docs.contains_key(&uri) => {
                let n = *rng.pick(&[1, 1, 1, 2, 3, 0]);
                let mut changes: Vec<String> = vec![];
                for _ in 0..n {
                    changes.push(if rng.chance(1, 2) { mutate::damage(rng, &docs[&uri]) } else { document(rng) });
                }
                script.push(json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": uri, "version": step + 2}, "contentChanges": changes.iter().map(|t| json!({"text": t})).collect::<Vec<_>>()}}));
                cx.count(match n { 0 => "empty_changes", 1 => "one_change", _ => "several_changes" }, 1);
                if let Some(text) = changes.pop() {
                    let Some(()) = cx.guard("change", &text, || s.commit(u.clone(), text.clone())) else { return };
                    docs.insert(uri.clone(), text);
                    publish(cx, &s, &mut published);
                }
            }
            3 if docs.contains_key(&uri) => {
                script.push(json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": uri}}}));
                published.entry(uri.clone()).or_default().push(json!({"uri": uri, "diagnostics": []}));
                cx.count("cleared", 1);
                // it may be asked about and opened again
                cx.count("after_close", 1);
            }
            4 => {
                cx.count("ignored_notifications", 1);
                script.push(match rng.below(5) {
                    0 => json!({"jsonrpc": "2.0", "method": "$/setTrace", "params": {"value": "off"}}),
                    1 => json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": 4711}}),
                    2 => json!({"jsonrpc": "2.0", "method": "workspace/didChangeConfiguration", "params": {"settings": null}}),
                    3 => json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": 5}}}),
                    _ => json!({"jsonrpc": "2.0", "id": 815, "result": null}),
                });
            }
            _ => {
                id += 1;
                let string_id = rng.chance(1, 4);
                let (idv, key) = if string_id { (json!(format!("r{id}")), format!("\"r{id}\"")) } else { (json!(id), format!("{id}")) };
                if string_id {
                    cx.count("string_ids", 1);
                }
                let (method, params, want) = match rng.below(12) {
                    0 => {
                        cx.count("errors:unknown-method", 1);
                        let m = *rng.pick(&["textDocument/codeLens", "workspace/symbol", "textDocument/documentHighlight", "wat/unknown", "completionItem/resolve"]);
                        (m, json!({"textDocument": {"uri": uri}, "query": ""}), Want::Error(None))
                    }
                    1 => {
                        cx.count("errors:bad-params", 1);
                        let p = match rng.below(4) {
                            0 => json!({}),
                            1 => json!({"textDocument": {"uri": uri}, "position": {"line": -1, "character": "x"}, "range": 1, "options": [], "positions": {}, "item": 0, "context": 5}),
                            2 => json!([1, 2]),
                            _ => json!({"textDocument": null}),
                        };
                        let m = loop {
                            let m = *rng.pick(&METHODS);
                            // these need nothing but the document
                            if !matches!(m, "textDocument/diagnostic" | "textDocument/foldingRange" | "textDocument/semanticTokens/full" | "textDocument/documentSymbol") {
                                break m;
                            }
                        };
                        (m, p, Want::Error(None))
                    }
                    2 => {
                        cx.count("errors:unopened", 1);
                        let m = loop {
                            let m = *rng.pick(&METHODS);
                            if !m.starts_with("callHierarchy/") {
                                break m;
                            }
                        };
                        let Some(p) = params(rng, &s, m, "file:///never/opened.wat", "(module)") else { continue };
                        (m, p, Want::Error(None))
                    }
                    _ => {
                        let Some(text) = docs.get(&uri) else { continue };
                        let m = *rng.pick(&METHODS);
                        let Some(Some(p)) = cx.guard("params", text, || params(rng, &s, m, &uri, text)) else { continue };
                        let Some(w) = cx.guard(m, text, || model(&s, m, &p)) else { return };
                        cx.state(&format!("{m} {}", matches!(&w, Want::Result(Value::Null))));
                        if matches!(w, Want::Error(_)) {
                            cx.count("rename_refused", 1);
                        }
                        cx.count("responses", 1);
                        (m, p, w)
                    }
                };
                script.push(json!({"jsonrpc": "2.0", "id": idv, "method": method, "params": params}));
                wants.insert(key, (method.to_string(), want));
            }
        }
    }
    let shutdown = rng.chance(2, 3);
    cx.count(if shutdown { "ends:shutdown" } else { "ends:eof" }, 1);
    if shutdown {
        script.push(json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}));
        wants.insert("\"bye\"".into(), ("shutdown".into(), Want::Result(Value::Null)));
        script.push(json!({"jsonrpc": "2.0", "method": "exit"}));
    }
    let inp = script.iter().map(|m| m.to_string()).collect::<Vec<_>>().join("\n");
    cx.eval(&inp, true);

    // all at once, or in pieces cut anywhere
    let mut bytes = vec![];
    for m in &script {
        let m = m.to_string();
        bytes.extend(format!("Content-Length: {}\r\n", m.len()).bytes());
        if rng.chance(1, 8) {
            bytes.extend(b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n");
        }
        bytes.extend(b"\r\n");
        bytes.extend(m.bytes());
    }
    let mut cuts = vec![bytes.len()];
    if rng.chance(1, 2) {
        cx.count("split_writes", 1);
        cuts.extend((0..rng.range(1, 12)).map(|_| rng.below(bytes.len())));
        cuts.sort();
    } else {
        cx.count("pipelined", 1);
    }
    let pause = rng.below(400) as u64;
    let mut child = match Command::new(&bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => {
            cx.harness_errors.push(format!("can't start the server: {e}"));
            return;
        }
    };
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let mut stderr = child.stderr.take().unwrap();
    let writer = std::thread::spawn(move || {
        let mut at = 0;
        for c in cuts {
            if stdin.write_all(&bytes[at..c]).is_err() {
                return;
            }
            let _ = stdin.flush();
            at = c;
            std::thread::sleep(Duration::from_micros(pause));
        }
    });
    let reader = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = stdout.read_to_end(&mut b);
        b
    });
    let errs = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = stderr.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(st)) => break Some(st),
            Ok(None) if t0.elapsed() > Duration::from_secs(60) => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            Ok(None) => std::thread::sleep(Duration::from_micros(300)),
            Err(e) => {
                cx.harness_errors.push(format!("wait: {e}"));
                return;
            }
        }
    };
    let _ = writer.join();
    let out = reader.join().unwrap_or_default();
    let err = errs.join().unwrap_or_default();
    let tail: String = err.chars().take(600).collect();
    match status {
        None => return cx.fail("hang", format!("the server doesn't end (60 s)\n{tail}"), &inp),
        Some(st) if !st.success() => return cx.fail("died", format!("the server ends with {st}\n{tail}"), &inp),
        _ => {}
    }
    // the messages of the server
    let mut got_published: HashMap<String, Vec<Value>> = HashMap::new();
    let mut answered: BTreeMap<String, usize> = BTreeMap::new();
    for m in parse_stream(&out) {
        let m = match m {
            Read1::Eof => break,
            Read1::Garbage(g) => return cx.fail("garbage", format!("output that is no message: {g:?}"), &inp),
            Read1::Message(m) => m,
        };
        if m.get("method").is_some() {
            if m["method"] != "textDocument/publishDiagnostics" || m.get("id").is_some() {
                return cx.fail("unexpected-message", format!("the server sends {m}"), &inp);
            }
            let u = m["params"]["uri"].as_str().unwrap_or_default().to_string();
            got_published.entry(u).or_default().push(m["params"].clone());
            continue;
        }
        let key = m["id"].to_string();
        let Some((method, want)) = wants.get(&key) else {
            return cx.fail("unknown-id", format!("a response to no request: {m}"), &inp);
        };
        let n = answered.entry(key).or_insert(0);
        *n += 1;
        if *n > 1 {
            return cx.fail("twice", format!("two responses to the request {} ({method})", m["id"]), &inp);
        }
        match want {
            Want::Error(text) => {
                let e = &m["error"];
                if !e.is_object() || !e["code"].is_i64() || text.as_ref().is_some_and(|t| e["message"] != **t) {
                    return cx.fail("no-error", format!("the response to the wrong request {} ({method}) is {m}, expected an error {text:?}", m["id"]), &inp);
                }
            }
            Want::Result(r) => {
                let mut a = m.get("result").cloned().unwrap_or(json!("<no result>"));
                let mut b = r.clone();
                normalise(&mut a);
                normalise(&mut b);
                if a != b || m.get("error").is_some_and(|e| !e.is_null()) {
                    return cx.fail(&format!("wrong-{method}"), format!("the response to {} ({method}) is {m}, expected {r}", m["id"]), &inp);
                }
            }
        }
    }
    for (k, (method, _)) in &wants {
        if !answered.contains_key(k) {
            return cx.fail("unanswered", format!("no response to the request {k} ({method})\n{tail}"), &inp);
        }
    }
    for m in [&mut got_published, &mut published] {
        m.values_mut().for_each(|v| {
            v.iter_mut().for_each(|x| {
                x.as_object_mut().map(|o| o.remove("version"));
                normalise(x)
            })
        });
    }
    for u in &uris {
        let (a, b) = (got_published.remove(u).unwrap_or_default(), published.remove(u).unwrap_or_default());
        if a != b {
            let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return cx.fail(
                "diagnostics",
                format!("{} diagnostics notifications for {u}, expected {}; the one at {i} is {:?}, expected {:?}", a.len(), b.len(), a.get(i).map(Value::to_string), b.get(i).map(Value::to_string)),
                &inp,
            );
        }
    }
    if let Some(u) = got_published.keys().next() {
        return cx.fail("diagnostics", format!("diagnostics for {u:?}, which isn't open"), &inp);
    }
    if err.contains("panicked") {
        return cx.fail("panic", tail, &inp);
    }
    if idx < 2 {
        cx.sample(json!({"messages": script.len(), "requests": wants.len(), "pull": pull, "script": inp.chars().take(400).collect::<String>()}));
    }
}
