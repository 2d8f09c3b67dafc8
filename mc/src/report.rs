use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Replay {
    pub case: String,
    pub prefix: Vec<u32>,
}

static THE: std::sync::OnceLock<&'static Ctx> = std::sync::OnceLock::new();

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub profile: &'static str,
    level: &'static str,
    start: Instant,
    budget: Duration,
    replay: Option<Replay>,
    counts: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<BTreeMap<String, String>>,
    samples: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, Vec<u32>, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<Vec<(String, String)>>,
    exhaustive: AtomicBool,
    errors: Mutex<Vec<String>>,
    beat: Arc<AtomicU64>,
    case_limit: AtomicU64,
    running: Mutex<std::collections::HashMap<std::thread::ThreadId, (String, Vec<u32>, Instant)>>,
    distinct: Mutex<HashSet<u64>>,
    distinct_n: AtomicU64,
    state_file: Option<PathBuf>,
    last_state: Mutex<Instant>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static SHOW: RefCell<bool> = RefCell::new(false);
}

/// Where and why the last panic on this thread happened.
pub fn last_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

fn hash64(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Chooses by tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
        self.progress();
    }
    pub fn note(&self, k: &str, v: impl Into<String>) {
        self.notes.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn assume(&self, s: &str) {
        let mut a = self.assumptions.lock().unwrap();
        if !a.iter().any(|x| x == s) {
            a.push(s.to_string());
        }
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 8 {
            v.push(s.into());
        }
    }
    /// Records a distinct, non-trivial case by its description.
    pub fn distinct(&self, s: &[u8]) {
        self.distinct.lock().unwrap().insert(hash64(s));
    }
    /// Adds a number of cases known to be distinct and non-trivial by construction.
    pub fn distinct_add(&self, n: u64) {
        self.distinct_n.fetch_add(n, Ordering::Relaxed);
    }
    pub fn distinct_u64(&self, h: u64) {
        self.distinct.lock().unwrap().insert(h.wrapping_mul(0x9e3779b97f4a7c15) ^ (h >> 31));
    }
    pub fn not_exhaustive(&self, why: &str) {
        if self.exhaustive.swap(false, Ordering::SeqCst) {
            self.note("not_exhaustive_because", why);
        }
    }
    pub fn out_of_time(&self) -> bool {
        if self.start.elapsed() > self.budget {
            self.not_exhaustive("time budget of this run used up");
            true
        } else {
            false
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Seconds a single case may take before it counts as not returning.
    pub fn set_case_limit(&self, s: u64) {
        self.case_limit.store(s, Ordering::SeqCst);
    }
    pub fn violation(&self, case: &str, prefix: &[u32], what: &str) {
        for (k, w) in &self.known {
            if case == k || (k.ends_with('*') && case.starts_with(&k[..k.len() - 1])) {
                let mut h = self.known_hit.lock().unwrap();
                if !h.iter().any(|(a, _)| a == k) {
                    h.push((k.clone(), w.clone()));
                    println!("KNOWN-FINDING: property={} {}", self.id, w);
                }
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            eprintln!("[{}] {} {:?}: {}", self.id, case, prefix, what);
            v.push((case.to_string(), prefix.to_vec(), what.to_string()));
        }
    }
    pub fn violated(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    /// Enough violations to stop enumerating.
    pub fn stop(&self) -> bool {
        self.violations.lock().unwrap().len() >= 3 || self.out_of_time()
    }
    pub fn error(&self, s: &str) {
        eprintln!("[{}] engine error: {}", self.id, s);
        self.errors.lock().unwrap().push(s.to_string());
    }
    pub fn replaying(&self) -> Option<&Replay> {
        self.replay.as_ref()
    }

    pub(crate) fn enter_case(&self, case: &str, prefix: &[u32]) {
        self.beat.fetch_add(1, Ordering::Relaxed);
        let now = Instant::now();
        self.running
            .lock()
            .unwrap()
            .insert(std::thread::current().id(), (case.to_string(), prefix.to_vec(), now));
        if let Some(f) = &self.state_file {
            let mut l = self.last_state.lock().unwrap();
            if now.duration_since(*l) > Duration::from_millis(20) || self.beat.load(Ordering::Relaxed) < 50 {
                *l = now;
                let _ = std::fs::write(f, format!("{}\n{}", case, fmt_prefix(prefix)));
            }
        }
    }
    /// The case of this thread is getting on.
    fn progress(&self) {
        if let Some(r) = self.running.lock().unwrap().get_mut(&std::thread::current().id()) {
            r.2 = Instant::now();
        }
    }
    pub(crate) fn leave_case(&self) {
        self.running.lock().unwrap().remove(&std::thread::current().id());
    }

    /// Runs one enumerated case.  A panic in the code under test is a violation, a panic raised by
    /// the harness itself is an engine error.
    pub fn case(&self, key: &str, f: impl FnOnce() -> Result<(), String>) {
        if let Some(r) = &self.replay {
            if r.case != key {
                return;
            }
        }
        if self.stop() {
            return;
        }
        self.enter_case(key, &[]);
        let start = Instant::now();
        let r = guarded(f);
        self.leave_case();
        if std::env::var_os("MC_TIMES").is_some() {
            eprintln!("[{}] {:.2} s {key}", self.id, start.elapsed().as_secs_f64());
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.violation(key, &[], &e),
            Err(Fail::Code(e)) => self.violation(key, &[], &e),
            Err(Fail::Harness(e)) => self.error(&format!("{key}: {e}")),
        }
    }

    /// Runs cases on all cores.
    pub fn par_cases<T: Sync>(&self, items: &[T], key: impl Fn(&T) -> String + Sync, f: impl Fn(&T) -> Result<(), String> + Sync) {
        let next = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads() {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= items.len() {
                            break;
                        }
                        self.case(&key(&items[i]), || f(&items[i]));
                    })
                    .unwrap();
            }
        });
    }
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8)
}

pub enum Fail {
    Code(String),
    Harness(String),
}

/// Catches panics and attributes them.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg) = last_panic().unwrap_or(("?".into(), "?".into()));
            Err(attribute(&loc, &msg))
        }
    }
}

pub fn attribute(loc: &str, msg: &str) -> Fail {
    if loc.starts_with("src/") && !loc.starts_with("src//repo") || loc.contains("/verif/") || loc.contains("shims/") {
        // Locations in the harness crate are relative to it; the code under test is /repo/...
        Fail::Harness(format!("panic at {loc}: {msg}"))
    } else {
        Fail::Code(format!("panics at {loc}: {msg}"))
    }
}

pub fn fmt_prefix(p: &[u32]) -> String {
    p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn parse_prefix(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect()
}

fn root() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn load_known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for line in s.lines() {
            // known: property=<id> case=<key> :: <what fails>
            if let Some(rest) = line.strip_prefix("known: ") {
                let mut it = rest.splitn(2, " :: ");
                let head = it.next().unwrap_or("");
                let what = it.next().unwrap_or("").to_string();
                let mut prop = "";
                let mut case = "";
                for w in head.split(' ') {
                    if let Some(x) = w.strip_prefix("property=") {
                        prop = x
                    }
                    if let Some(x) = w.strip_prefix("case=") {
                        case = x
                    }
                }
                if prop == id && !case.is_empty() {
                    v.push((case.to_string(), what));
                }
            }
        }
    }
    v
}

#[derive(Clone, Copy)]
pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub run: fn(&Ctx),
}

/// Entry point of every check binary.
///
/// Parent mode starts this binary (and its sibling built with debug assertions) as children, so
/// that a crash of the code under test is observed rather than suffered.
pub fn main(spec: Spec) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let tier = match get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if args.iter().any(|a| a == "--child") {
        child(spec, tier, seed, get("--replay"), get("--out"));
    } else {
        parent(spec, tier, seed, &args, get("--replay"));
    }
}

fn child(spec: Spec, tier: Tier, seed: u64, replay: Option<String>, out: Option<String>) {
    let replay = replay.map(|p| {
        let s = std::fs::read_to_string(&p).expect("replay file");
        let j = json::parse(&s).expect("replay json");
        Replay {
            case: j["case"].as_str().unwrap_or("").to_string(),
            prefix: parse_prefix(j["choices"].as_str().unwrap_or("")),
        }
    });
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            // Keep the first: later ones are consequences (a failed join, a closed channel).
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
    let budget = match tier {
        Tier::Quick => std::env::var("MC_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(300u64),
        Tier::Thorough => std::env::var("MC_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(780u64),
    };
    let profile = if cfg!(debug_assertions) { "checked" } else { "release" };
    let out_path = PathBuf::from(out.clone().expect("--out"));
    let ctx = Ctx {
        id: spec.id.to_string(),
        tier,
        seed,
        profile,
        level: spec.level,
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        replay,
        counts: Default::default(),
        notes: Default::default(),
        samples: Default::default(),
        assumptions: Default::default(),
        violations: Default::default(),
        known: load_known(spec.id),
        known_hit: Default::default(),
        exhaustive: AtomicBool::new(true),
        errors: Default::default(),
        beat: Arc::new(AtomicU64::new(0)),
        case_limit: AtomicU64::new(200),
        running: Default::default(),
        distinct: Default::default(),
        distinct_n: AtomicU64::new(0),
        state_file: Some(out_path.with_extension("state")),
        last_state: Mutex::new(Instant::now()),
    };
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    THE.set(ctx).ok();
    mcrt::ON_PROGRESS.set(|| {
        if let Some(c) = THE.get() {
            c.progress()
        }
    }).ok();
    // Watchdog: a case that does not return, or memory that runs away.
    let wd_out = out_path.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let lim = ctx.case_limit.load(Ordering::SeqCst);
        let stuck = {
            let r = ctx.running.lock().unwrap();
            r.values().find(|(_, _, t)| t.elapsed().as_secs() > lim).map(|(a, b, _)| (a.clone(), b.clone()))
        };
        if let Some((k, p)) = stuck {
            ctx.violation(&k, &p, &format!("does not return within {lim} s"));
            write_result(ctx, &spec, &wd_out);
            std::process::exit(if ctx.violated() { 1 } else { 0 });
        }
        if rss_mb() > 14000 {
            ctx.error("memory limit of the check exceeded");
            write_result(ctx, &spec, &wd_out);
            std::process::exit(3);
        }
    });
    let run = spec.run;
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || guarded(|| run(ctx))).unwrap();
    match h.join() {
        Ok(Ok(())) => {}
        Ok(Err(Fail::Code(e))) => ctx.violation("setup", &[], &e),
        Ok(Err(Fail::Harness(e))) => ctx.error(&e),
        Err(_) => ctx.error("check thread died"),
    }
    write_result(ctx, &spec, &out_path);
    std::process::exit(if ctx.violated() {
        1
    } else if !ctx.errors.lock().unwrap().is_empty() {
        3
    } else {
        0
    });
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4 / 1024)
        .unwrap_or(0)
}

fn write_result(ctx: &Ctx, spec: &Spec, out: &PathBuf) {
    let mut cov = json::JsonValue::new_object();
    for (k, v) in ctx.counts.lock().unwrap().iter() {
        cov[k.as_str()] = (*v).into();
    }
    for (k, v) in ctx.notes.lock().unwrap().iter() {
        cov[k.as_str()] = v.as_str().into();
    }
    let d = ctx.distinct.lock().unwrap().len() as u64 + ctx.distinct_n.load(Ordering::SeqCst);
    if ctx.level != "model_checking" || d > 0 {
        cov["distinct_nontrivial"] = d.into();
    }
    cov["rule"] = spec.rule.into();
    cov["samples"] = ctx.samples.lock().unwrap().iter().map(|s| json::JsonValue::from(s.as_str())).collect::<Vec<_>>().into();
    cov["exhaustive"] = ctx.exhaustive.load(Ordering::SeqCst).into();
    let viol: Vec<json::JsonValue> = ctx
        .violations
        .lock()
        .unwrap()
        .iter()
        .map(|(c, p, w)| json::object! { case: c.as_str(), choices: fmt_prefix(p), what: w.as_str(), profile: ctx.profile })
        .collect();
    let res = json::object! {
        coverage: cov,
        wall_s: ctx.elapsed(),
        assumptions: ctx.assumptions.lock().unwrap().iter().map(|s| json::JsonValue::from(s.as_str())).collect::<Vec<_>>(),
        violations: viol,
        known: ctx.known_hit.lock().unwrap().iter().map(|(_, w)| json::JsonValue::from(w.as_str())).collect::<Vec<_>>(),
        errors: ctx.errors.lock().unwrap().iter().map(|s| json::JsonValue::from(s.as_str())).collect::<Vec<_>>(),
    };
    let _ = std::fs::write(out, res.dump());
}

fn parent(spec: Spec, tier: Tier, seed: u64, args: &[String], replay: Option<String>) {
    let start = Instant::now();
    let me = std::env::current_exe().expect("own path");
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", spec.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let mut bins = vec![("release", me.clone())];
    if let Some(i) = args.iter().position(|a| a == "--also") {
        bins.push(("checked", PathBuf::from(&args[i + 1])));
    }
    let mut kids = vec![];
    for (name, b) in &bins {
        let out = scratch.join(format!("{name}.json"));
        let work = scratch.join(format!("{name}.work"));
        std::fs::create_dir_all(&work).expect("scratch");
        let mut c = std::process::Command::new(b);
        c.arg("--child").arg("--tier").arg(if tier == Tier::Quick { "quick" } else { "thorough" }).arg("--out").arg(&out);
        c.env("MC_SCRATCH", &work).env("MC_PROFILE", name);
        if let Some(r) = &replay {
            c.arg("--replay").arg(r);
        }
        kids.push((*name, out, c.spawn().expect("child")));
    }
    let mut results = vec![];
    let deadline = start + Duration::from_secs(if tier == Tier::Quick { 870 } else { 890 });
    for (name, out, mut k) in kids {
        let status = loop {
            match k.try_wait().expect("wait") {
                Some(s) => break Some(s),
                None => {
                    if Instant::now() > deadline {
                        let _ = k.kill();
                        let _ = k.wait();
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(10));
                }
            }
        };
        results.push((name, out, status));
    }
    let mut violations: Vec<json::JsonValue> = vec![];
    let mut error = false;
    let mut main_res = None;
    let mut other = json::JsonValue::new_object();
    for (name, out, status) in &results {
        let j = std::fs::read_to_string(out).ok().and_then(|s| json::parse(&s).ok());
        match &j {
            Some(j) => {
                for v in j["violations"].members() {
                    violations.push(v.clone());
                }
                if !j["errors"].is_empty() {
                    error = true;
                }
                if *name == "release" {
                    main_res = Some(j.clone());
                } else {
                    other = j["coverage"].clone();
                    other["wall_s"] = j["wall_s"].clone();
                    other.remove("samples");
                    other.remove("rule");
                }
            }
            None => {
                use std::os::unix::process::ExitStatusExt;
                let sig = status.and_then(|s| s.signal());
                match sig {
                    // Memory faults and aborts come from the code under test (the harness itself
                    // is safe code and never aborts).
                    Some(s) if [4, 6, 7, 8, 11].contains(&s) => {
                        let st = std::fs::read_to_string(out.with_extension("state")).unwrap_or_default();
                        let mut l = st.lines();
                        let case = l.next().unwrap_or("?").to_string();
                        let ch = l.next().unwrap_or("").to_string();
                        violations.push(json::object! { case: case, choices: ch, what: format!("process killed by signal {s} near this case"), profile: *name });
                    }
                    _ => error = true,
                }
            }
        }
        if status.is_none() {
            error = true;
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let m = main_res.unwrap_or(json::object! { coverage: { rule: spec.rule }, assumptions: [] });
    let mut cov = m["coverage"].clone();
    if !other.is_empty() {
        cov["second_build_with_debug_assertions"] = other;
    }
    let mut keep = replay.is_some();
    if replay.is_none() {
        let ev = json::object! {
            property: spec.id,
            tier: if tier == Tier::Quick { "quick" } else { "thorough" },
            seed: seed,
            level: spec.level,
            coverage: cov,
            assumptions: m["assumptions"].clone(),
            wall_s: start.elapsed().as_secs_f64(),
            violations: violations.len(),
        };
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(dir.join(format!("{}.json", spec.id)), ev.pretty(1)).is_err() {
            keep = false;
            error = true;
        }
    }
    let _ = keep;
    if !violations.is_empty() {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut shown: Vec<String> = vec![];
        for (i, v) in violations.iter().enumerate() {
            let p = match &replay {
                Some(r) => PathBuf::from(r),
                None => dir.join(format!("{}-{}.json", spec.id, i)),
            };
            if replay.is_none() {
                let r = json::object! {
                    property: spec.id,
                    case: v["case"].clone(),
                    choices: v["choices"].clone(),
                    what: v["what"].clone(),
                    profile: v["profile"].clone(),
                    tier: if tier == Tier::Quick { "quick" } else { "thorough" },
                };
                let _ = std::fs::write(&p, r.pretty(1));
            }
            if shown.len() < 5 {
                println!("{}: {} ({} build)", v["case"], v["what"], v["profile"]);
                println!("VIOLATION property={} replay={}", spec.id, p.display());
                shown.push(p.display().to_string());
            }
        }
        std::process::exit(1);
    }
    if error {
        println!("check error for {}", spec.id);
        std::process::exit(3);
    }
    println!("{}: held on everything explored ({:.1} s)", spec.id, start.elapsed().as_secs_f64());
}

/// Scratch directory of this run, removed by the parent.
pub fn scratch() -> PathBuf {
    std::env::var("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir())
}
