//! Campaign driver: shards cases over worker processes, merges what the monitors
//! observed, classifies abnormal endings, writes evidence and the verdict.
use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
    time::Instant,
};

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero for the run to count as an observation
    pub required: &'static [&'static str],
    pub case: fn(&mut Cx, &mut Rng, u64),
    /// fixed inputs tried first on every run
    pub probes: Option<fn(&mut Cx)>,
}

#[derive(Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
    pub input: String,
    pub case: u64,
}

pub struct Cx {
    pub tier_thorough: bool,
    pub seed: u64,
    pub case: u64,
    pub evals: u64,
    pub distinct: BTreeSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub fails: Vec<Fail>,
    pub known: Vec<(String, String)>,
    pub known_hits: BTreeSet<String>,
    pub harness_errors: Vec<String>,
    pub verbose: bool,
    pub states: BTreeSet<u64>,
}
thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc, msg));
    }));
}
impl Cx {
    pub fn new(tier_thorough: bool, seed: u64) -> Self {
        Cx {
            tier_thorough,
            seed,
            case: 0,
            evals: 0,
            distinct: Default::default(),
            counters: Default::default(),
            samples: vec![],
            fails: vec![],
            known: vec![],
            known_hits: Default::default(),
            harness_errors: vec![],
            verbose: false,
            states: Default::default(),
        }
    }
    /// One evaluation of the oracle on `key`; counted as distinct only when non-trivial.
    pub fn eval(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash_str(key));
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(name.to_string()).or_insert(0) += n;
        }
    }
    /// A distinct abstract state/shape that was observed (reported as `distinct_shapes`).
    pub fn state(&mut self, s: &str) {
        self.states.insert(hash_str(s));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 {
            self.samples.push(v);
        }
    }
    pub fn fail(&mut self, sig: &str, msg: String, input: &str) {
        for (ksig, kin) in &self.known {
            if ksig == sig && kin == input {
                self.known_hits.insert(format!("{ksig}"));
                return;
            }
        }
        if self.verbose {
            let s = format!("\nFAIL [{}] case {}: {}\n--- input ---\n{}\n---\n", sig, self.case, msg, input);
            let _ = std::io::stderr().write_all(s.as_bytes());
        }
        if self.fails.iter().filter(|f| f.sig == sig).count() < 2 && self.fails.len() < 40 {
            self.fails.push(Fail { sig: sig.to_string(), msg, input: input.to_string(), case: self.case });
        }
        self.count("violating_observations", 1);
    }
    /// Runs code of the tool; a panic in it is a violation (`panic@location`).
    pub fn guard<T>(&mut self, what: &str, input: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let (loc, msg) = LAST_PANIC.with(|p| p.borrow().clone());
                if loc.starts_with("src/") {
                    self.harness_errors.push(format!("{what}: {loc}: {msg} on case {}", self.case));
                } else {
                    let short = loc.rsplit("/crates/").next().unwrap_or(&loc).to_string();
                    let short = short.rsplit("/registry/src/").next().unwrap_or(&short).to_string();
                    self.fail(&format!("panic:{what}"), format!("{what} panicked at {short}: {msg}"), input);
                }
                None
            }
        }
    }
    fn to_json(&self) -> Value {
        json!({
            "evals": self.evals,
            "distinct": self.distinct.iter().collect::<Vec<_>>(),
            "states": self.states.iter().collect::<Vec<_>>(),
            "counters": self.counters,
            "samples": self.samples,
            "known_hits": self.known_hits,
            "harness_errors": self.harness_errors,
            "fails": self.fails.iter().map(|f| json!({"sig": f.sig, "msg": f.msg, "input": f.input, "case": f.case})).collect::<Vec<_>>(),
        })
    }
}

pub const PROBE_CASE: u64 = u64::MAX;
static CUR: AtomicU64 = AtomicU64::new(0);
static CASE_NO: AtomicU64 = AtomicU64::new(0);

fn thread_cpu_clock() -> libc::clockid_t {
    let mut id: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
    id
}
fn clock_secs(id: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(id, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}
pub const CPU_LIMIT: f64 = 40.0;
pub const STACK: usize = 16 << 20;

fn run_one(prop: &Prop, cx: &mut Cx, idx: u64) {
    cx.case = idx;
    CASE_NO.fetch_add(1, Ordering::SeqCst);
    if idx == PROBE_CASE {
        if let Some(p) = prop.probes {
            cx.guard("probes", "", || ()).unwrap_or(());
            p(cx);
        }
        return;
    }
    let mut rng = Rng::new(&[cx.seed, hash_str(prop.id), idx]);
    let mut f = AssertUnwindSafe(&mut *cx);
    let r = catch_unwind(move || (prop.case)(&mut f, &mut rng, idx));
    if r.is_err() {
        let (loc, msg) = LAST_PANIC.with(|p| p.borrow().clone());
        if loc.starts_with("src/") {
            cx.harness_errors.push(format!("unguarded panic {loc}: {msg} on case {idx}"));
        } else {
            cx.fail("panic:unguarded", format!("panicked at {loc}: {msg}"), &format!("case {idx}"));
        }
    }
}

pub fn worker(prop: &'static Prop, shard: u64, shards: u64, total: u64, dir: &Path, only: Option<u64>, budget: f64) -> ! {
    install_hook();
    unsafe {
        if std::env::var_os("WLT_ASAN").is_none() {
            let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let seed = seed();
    let name = only.map(|o| format!("one-{o}")).unwrap_or(format!("shard-{shard}"));
    let cur_path = dir.join(format!("{name}.cur"));
    let out_path = dir.join(format!("{name}.json"));
    let start_at: u64 = std::env::var("WLT_START").ok().and_then(|s| s.parse().ok()).unwrap_or(shard);
    let (tx, rx) = std::sync::mpsc::channel();
    let cur_path2 = cur_path.clone();
    let verbose = std::env::var("WLT_VERBOSE").is_ok();
    let th = std::thread::Builder::new()
        .stack_size(if std::env::var_os("WLT_ASAN").is_some() { 16 * STACK } else { STACK })
        .spawn(move || {
            let _ = tx.send(thread_cpu_clock());
            let mut cx = Cx::new(thorough, seed);
            cx.verbose = verbose;
            cx.known = load_known(prop.id);
            let t0 = Instant::now();
            let mut curf = std::fs::File::create(&cur_path2).unwrap();
            let mut note = |i: u64| {
                use std::os::unix::fs::FileExt;
                CUR.store(i, Ordering::SeqCst);
                let _ = curf.write_all_at(format!("{i:020}").as_bytes(), 0);
                let _ = curf.flush();
            };
            if let Some(o) = only {
                note(o);
                run_one(prop, &mut cx, o);
            } else {
                if shard == 0 && start_at == 0 {
                    note(PROBE_CASE);
                    run_one(prop, &mut cx, PROBE_CASE);
                }
                let mut i = start_at;
                while i < total && t0.elapsed().as_secs_f64() < budget {
                    note(i);
                    run_one(prop, &mut cx, i);
                    cx.count("cases_run", 1);
                    i += shards;
                }
            }
            std::fs::write(&out_path, cx.to_json().to_string()).unwrap();
            std::process::exit(0);
        })
        .unwrap();
    let clk = rx.recv().unwrap();
    let mut last_case = (0, 0.0);
    loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        if th.is_finished() {
            // only reached when the harness itself failed
            unsafe { libc::_exit(101) };
        }
        let c = CASE_NO.load(Ordering::SeqCst);
        let t = clock_secs(clk);
        if c != last_case.0 {
            last_case = (c, t);
        } else if c != 0 && CUR.load(Ordering::SeqCst) != PROBE_CASE && t - last_case.1 > CPU_LIMIT {
            unsafe { libc::_exit(97) };
        }
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("WLT_VERIF").unwrap_or("/verif".into()))
}
/// known-findings.json: [{"property","status":"known","sig","input","what"} | {"status":"fixed",...}]
pub fn load_known(id: &str) -> Vec<(String, String)> {
    known_entries(id).into_iter().map(|(s, i, _)| (s, i)).collect()
}
fn known_entries(id: &str) -> Vec<(String, String, String)> {
    let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known-findings.json");
    v["findings"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|e| e["property"] == id && e["status"] == "known")
        .map(|e| {
            (
                e["sig"].as_str().unwrap_or("").to_string(),
                e["input"].as_str().unwrap_or("").to_string(),
                e["what"].as_str().unwrap_or("").to_string(),
            )
        })
        .collect()
}

pub fn parent(prop: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let total = std::env::var("WLT_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { prop.thorough } else { prop.quick });
    let budget: f64 = if thorough { 3000.0 } else { 300.0 };
    let shards = 8u64.min(total.max(1));
    let dir = std::env::temp_dir().join(format!("wlt-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let spawn = |shard: u64, start: u64, only: Option<u64>| {
        let mut c = std::process::Command::new(&exe);
        c.arg(prop.id).arg("--worker").arg(format!("{shard}/{shards}/{total}/{budget}")).arg(&dir);
        if let Some(o) = only {
            c.arg(o.to_string());
        }
        c.env("WLT_START", start.to_string());
        c.spawn().expect("spawn worker")
    };
    let mut running: Vec<(u64, std::process::Child, u32)> = (0..shards).map(|s| (s, spawn(s, s, None), 0)).collect();
    let mut results: Vec<Value> = vec![];
    let mut fails: Vec<Fail> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut hung = false;
    while let Some((shard, mut child, retries)) = running.pop() {
        let st = child.wait().unwrap();
        let out = dir.join(format!("shard-{shard}.json"));
        if st.success() && out.exists() {
            results.push(serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap());
            continue;
        }
        // abnormal ending: confirm on the recorded case alone
        let cur: u64 = std::fs::read_to_string(dir.join(format!("shard-{shard}.cur"))).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
        let how = ending(&st);
        if !tool_fault(&st) {
            inconclusive.push(format!("shard {shard} ended {how} at case {cur}"));
            continue;
        }
        if hung {
            // one confirmed endless case decides the verdict; more of them would only cost time
            continue;
        }
        let st2 = spawn(shard, 0, Some(cur)).wait().unwrap();
        let one = dir.join(format!("one-{cur}.json"));
        if tool_fault(&st2) {
            hung |= st2.code() == Some(97);
            fails.push(Fail {
                sig: format!("abnormal-end:{}", ending(&st2)),
                msg: format!("the tool did not survive case {cur}: {how} (confirmed alone: {})", ending(&st2)),
                input: format!("case {cur} seed {}", seed()),
                case: cur,
            });
        } else if one.exists() {
            results.push(serde_json::from_str(&std::fs::read_to_string(&one).unwrap()).unwrap());
            inconclusive.push(format!("shard {shard} ended {how} at case {cur}, not reproduced alone"));
        }
        if retries < 3 && !hung && cur != PROBE_CASE {
            running.push((shard, spawn(shard, cur + shards, None), retries + 1));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut evals = 0;
    let mut distinct = BTreeSet::new();
    let mut states = BTreeSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut known_hits = BTreeSet::new();
    for r in &results {
        evals += r["evals"].as_u64().unwrap();
        distinct.extend(r["distinct"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()));
        states.extend(r["states"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()));
        for (k, v) in r["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
        }
        if samples.len() < 6 {
            samples.extend(r["samples"].as_array().unwrap().iter().cloned());
        }
        for k in r["known_hits"].as_array().unwrap() {
            known_hits.insert(k.as_str().unwrap().to_string());
        }
        for h in r["harness_errors"].as_array().unwrap() {
            inconclusive.push(format!("harness error: {h}"));
        }
        for f in r["fails"].as_array().unwrap() {
            fails.push(Fail {
                sig: f["sig"].as_str().unwrap().into(),
                msg: f["msg"].as_str().unwrap().into(),
                input: f["input"].as_str().unwrap().into(),
                case: f["case"].as_u64().unwrap(),
            });
        }
    }
    for r in prop.required {
        if counters.get(*r).copied().unwrap_or(0) == 0 && fails.is_empty() {
            inconclusive.push(format!("required event `{r}` was never observed"));
        }
    }
    let tier = if thorough { "thorough" } else { "quick" };
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "distinct_shapes": states.len(),
            "events_observed": counters,
            "inconclusive": inconclusive,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fails.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for (sig, _, what) in known_entries(prop.id) {
        if known_hits.contains(&sig) {
            println!("KNOWN-FINDING: property={} {}", prop.id, what);
        }
    }
    if !fails.is_empty() {
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let mut seen = BTreeSet::new();
        for f in &fails {
            if !seen.insert(f.sig.clone()) || seen.len() > 8 {
                continue;
            }
            let p = rdir.join(format!("{}-{:08x}.json", prop.id, hash_str(&format!("{}{}", f.sig, f.input)) as u32));
            let body = json!({"property": prop.id, "seed": seed(), "tier": tier, "case": f.case.to_string(), "signature": f.sig, "what": f.msg, "input": f.input,
                "replay": format!("VERIF_SEED={} VERIF_TIER={} bash /verif/run.sh {} --replay {}", seed(), tier, prop.id, f.case)});
            std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", prop.id, p.display());
            println!("  {}: {}", f.sig, f.msg.chars().take(1500).collect::<String>());
            println!("  input: {:?}", f.input.chars().take(600).collect::<String>());
        }
        return 1;
    }
    if !inconclusive.is_empty() {
        println!("INCONCLUSIVE property={} {:?}", prop.id, inconclusive);
        return 2;
    }
    println!(
        "OK property={} tier={tier} seed={} evaluations={evals} distinct_nontrivial={} shapes={} wall={:.1}s",
        prop.id,
        seed(),
        distinct.len(),
        states.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}
/// Endings that the code under test can cause: crash signals and the CPU watchdog.
/// Anything else (OOM kill, harness failure) says nothing about the property.
fn tool_fault(st: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    st.code() == Some(97) || matches!(st.signal(), Some(4 | 5 | 6 | 7 | 8 | 11))
}
fn ending(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(97), _) => format!("no termination within {CPU_LIMIT} s of CPU time"),
        (Some(c), _) => format!("exit {c}"),
        (_, Some(s)) => format!("signal {s}"),
        _ => "unknown".into(),
    }
}
