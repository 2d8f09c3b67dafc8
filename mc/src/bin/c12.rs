//! C12: field set-up under every order of widths and every interleaving of threads at the
//! pause points (start of an operation, entry of the table construction, each allocation inside
//! it, its end). Every history runs in a process of its own, because set-up happens once.
use mc::*;
use scalable_mpc::math::galois::GF;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn mc_set_hook(h: extern "C" fn(i32));
}

// ---- operations -------------------------------------------------------------------------------

fn ops<const W: u8>() -> Result<(), String> {
    let rf = Rf::of::<W>();
    if !rf.primitive() {
        return Err(format!("width {W}: multiplication is wrong (x^{W} = {:#x})", rf.poly));
    }
    let q = rf.order();
    let vals: Vec<u32> = if W <= 5 {
        (0..q).collect()
    } else {
        let mut v: Vec<u32> = (0..W as u32).map(|b| 1 << b).collect();
        v.extend([0, 3, q - 1, q / 2 + 1, q / 3, q - 2]);
        v
    };
    for &a in &vals {
        for &b in &vals {
            let (x, y) = (GF::<W>::from(a), GF::<W>::from(b));
            if u32::from(x * y) != rf.mul(a, b) {
                return Err(format!("width {W}: {a} * {b} gives {}", u32::from(x * y)));
            }
            if u32::from(x + y) != a ^ b {
                return Err(format!("width {W}: {a} + {b} is wrong"));
            }
            if b != 0 && u32::from(x / y) != rf.div(a, b) {
                return Err(format!("width {W}: {a} / {b} gives {}", u32::from(x / y)));
            }
        }
    }
    let mut top = false;
    for k in 0..64u32 {
        let mut r = TapeRng::new(16, &[k << 10 | k]);
        let v = u32::from(GF::<W>::rand(&mut r));
        if v >= q {
            return Err(format!("width {W}: sample {v} is not a field element"));
        }
        top |= v >= q / 2;
    }
    if !top {
        return Err(format!("width {W}: samples miss the upper half of the field"));
    }
    Ok(())
}

fn init(w: u8) -> Result<(), &'static str> {
    match w {
        2 => GF::<2>::init(),
        3 => GF::<3>::init(),
        5 => GF::<5>::init(),
        8 => GF::<8>::init(),
        18 => GF::<18>::init(),
        31 => GF::<31>::init(),
        _ => unreachable!(),
    }
}

fn verify(w: u8) -> Result<(), String> {
    match w {
        2 => ops::<2>(),
        3 => ops::<3>(),
        5 => ops::<5>(),
        8 => ops::<8>(),
        18 => ops::<18>(),
        _ => unreachable!(),
    }
}

static READY: Mutex<Vec<u8>> = Mutex::new(Vec::new());

/// Op code: width to set up, or 100 + width to use (must be set up before).
fn perform(op: u8) -> Result<(), String> {
    if op >= 100 {
        return verify(op - 100);
    }
    match (op, init(op)) {
        (31, Ok(())) => return Err("set-up of the unsupported width 31 reports success".into()),
        (31, Err(_)) => {}
        (_, Err(e)) => return Err(format!("set-up of width {op} fails: {e}")),
        (_, Ok(())) => {
            let mut r = READY.lock().unwrap();
            if !r.contains(&op) {
                r.push(op);
            }
        }
    }
    let all = READY.lock().unwrap().clone();
    for w in all {
        verify(w).map_err(|e| format!("after set-up of width {op}: {e}"))?;
    }
    Ok(())
}

// ---- controlled threads -----------------------------------------------------------------------

#[derive(Default)]
struct Th {
    parked: Option<i32>,
    release: bool,
    done: bool,
    tid: i32,
    err: Option<String>,
}

static THS: Mutex<Vec<Th>> = Mutex::new(Vec::new());
static CV: Condvar = Condvar::new();
static POINTS: AtomicI32 = AtomicI32::new(0);

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

extern "C" fn hook(point: i32) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    POINTS.fetch_add(1, Ordering::SeqCst);
    park(me, point);
}

fn park(me: usize, point: i32) {
    let mut g = THS.lock().unwrap();
    g[me].parked = Some(point);
    CV.notify_all();
    while !g[me].release {
        g = CV.wait(g).unwrap();
    }
    g[me].release = false;
    g[me].parked = None;
}

fn sleeping(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().and_then(|r| r.split_whitespace().next()).map_or(true, |c| c == "S")
}

/// Waits until every thread that was let go is parked, done or blocked.
fn settle() -> Result<(), String> {
    let t0 = Instant::now();
    let mut calm = 0;
    loop {
        {
            let g = THS.lock().unwrap();
            let moving: Vec<i32> = g.iter().filter(|t| !t.done && (t.parked.is_none() || t.release)).map(|t| t.tid).collect();
            if moving.is_empty() {
                return Ok(());
            }
            let pending = g.iter().any(|t| t.release || t.tid == 0);
            drop(g);
            if !pending && moving.iter().all(|t| sleeping(*t)) {
                calm += 1;
                if calm >= 4 {
                    return Ok(());
                }
            } else {
                calm = 0;
            }
        }
        if t0.elapsed() > Duration::from_secs(60) {
            return Err("engine: threads do not settle".into());
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

/// Child: returns the trace of (choice, alternatives) or a violation.
fn child(spec: &str) {
    // pre;t0;t1..|prefix
    let (ops, prefix) = spec.split_once('|').unwrap();
    let prefix: Vec<usize> = prefix.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let parse = |s: &str| -> Vec<u8> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let mut parts = ops.split(';');
    let pre = parse(parts.next().unwrap());
    let scripts: Vec<Vec<u8>> = parts.map(parse).collect();
    let say = |e: String| -> ! {
        println!("BAD {e}");
        std::process::exit(if e.starts_with("engine:") { 4 } else { 1 });
    };
    for op in pre {
        if let Err(e) = perform(op) {
            say(e);
        }
    }
    if scripts.is_empty() {
        println!("OK");
        std::process::exit(0);
    }
    unsafe { mc_set_hook(hook) };
    for (i, s) in scripts.iter().enumerate() {
        THS.lock().unwrap().push(Th::default());
        let s = s.clone();
        std::thread::spawn(move || {
            let tid = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
            THS.lock().unwrap()[i].tid = tid;
            ME.with(|m| m.set(i));
            let mut res = Ok(());
            for op in s {
                park(i, -1);
                res = std::panic::catch_unwind(|| perform(op)).unwrap_or_else(|_| Err(format!("operation {op} panics")));
                if res.is_err() {
                    break;
                }
            }
            ME.with(|m| m.set(usize::MAX));
            let mut g = THS.lock().unwrap();
            g[i].done = true;
            g[i].err = res.err();
            CV.notify_all();
        });
    }
    let mut trace: Vec<String> = vec![];
    let mut last = usize::MAX;
    let mut step = 0;
    loop {
        if let Err(e) = settle() {
            say(e);
        }
        let mut g = THS.lock().unwrap();
        if let Some((i, e)) = g.iter().enumerate().find_map(|(i, t)| t.err.clone().map(|e| (i, e))) {
            say(format!("thread {i}: {e}"));
        }
        if g.iter().all(|t| t.done) {
            break;
        }
        let mut en: Vec<usize> = (0..g.len()).filter(|&i| !g[i].done && g[i].parked.is_some()).collect();
        if en.is_empty() {
            say("set-up never returns: all threads are blocked".into());
        }
        // The running thread first, so that choice 0 never preempts.
        let pre = en.contains(&last);
        if pre {
            en.retain(|x| *x != last);
            en.insert(0, last);
        }
        let c = prefix.get(step).copied().unwrap_or(0) % en.len();
        trace.push(format!("{}/{}/{}/{}:{}", c, en.len(), pre as u8, en[c], g[en[c]].parked.unwrap()));
        step += 1;
        last = en[c];
        g[last].release = true;
        CV.notify_all();
    }
    println!("TRACE {}", trace.join(" "));
    println!("POINTS {}", POINTS.load(Ordering::SeqCst));
    std::process::exit(0);
}

// ---- driver -----------------------------------------------------------------------------------

enum Got {
    Trace(Vec<(usize, usize, bool, String)>, u64),
}

fn spawn(spec: &str) -> Result<Got, (bool, String)> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut ch = std::process::Command::new(exe)
        .args(["--c12-child", spec])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| (true, format!("cannot start: {e}")))?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(100) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err((false, "set-up or an operation never returns".into()));
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let mut out = String::new();
    use std::io::Read;
    ch.stdout.take().unwrap().read_to_string(&mut out).ok();
    if let Some(sig) = st.signal() {
        if [4, 6, 7, 8, 11].contains(&sig) {
            return Err((false, format!("crash with signal {sig}")));
        }
        return Err((true, format!("child killed by signal {sig}")));
    }
    match st.code() {
        Some(0) => {
            let mut v = vec![];
            let mut p = 0;
            for l in out.lines() {
                if let Some(t) = l.strip_prefix("TRACE ") {
                    for e in t.split_whitespace() {
                        let f: Vec<&str> = e.split('/').collect();
                        v.push((f[0].parse().unwrap(), f[1].parse().unwrap(), f[2] == "1", f[3].to_string()));
                    }
                }
                if let Some(t) = l.strip_prefix("POINTS ") {
                    p = t.parse().unwrap();
                }
            }
            Ok(Got::Trace(v, p))
        }
        Some(1) => Err((false, out.lines().find_map(|l| l.strip_prefix("BAD ")).unwrap_or("failed").to_string())),
        // panic in the main thread of the child while performing the pre-operations
        Some(101) => Err((false, "an operation panics".into())),
        c => Err((true, format!("child ends with {c:?}: {out}"))),
    }
}

fn run(ctx: &Ctx) {
    // Sequential histories.
    let widths: &[u8] = &[2, 3, 8, 18, 31];
    let len = ctx.pick(3, 4);
    let mut hs: Vec<Vec<u8>> = vec![];
    for k in 1..=len {
        all_vecs(widths.len() as u32, k, |v| {
            hs.push(v.iter().map(|i| widths[*i as usize]).collect());
            true
        });
    }
    let fmt = |v: &[u8]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    ctx.par_cases(&hs, |h| format!("history:{}", fmt(h)), |h| {
        ctx.count("states", h.len() as u64);
        ctx.count("transitions", h.len() as u64);
        ctx.count("histories", 1);
        match spawn(&format!("{}|", fmt(h))) {
            Ok(_) => {
                ctx.count("traces_validated_against_impl", 1);
                Ok(())
            }
            Err((true, e)) => {
                ctx.error(&e);
                Ok(())
            }
            Err((false, e)) => Err(format!("set-up order {h:?}: {e}")),
        }
    });
    ctx.sample(format!("{} set-up histories of length 1 to {len} over widths {widths:?}, e.g. {:?}", hs.len(), hs.last()));
    // Concurrent scripts: (operations done before, one list per thread), preemption bound.
    let mut sc: Vec<(&str, usize)> = vec![
        (";3;3", 9),
        (";3;8", 9),
        (";18;3", 9),
        (";18;18", 9),
        ("3;103;8", 9),
        ("8;108,3;18", 9),
        (";31;3", 9),
        (";31;31", 9),
        (";3,8;8,3", 3),
        (";3;3;3", 1),
        (";3;8;3", 1),
        (";5;31;18", 1),
    ];
    if !ctx.quick() {
        sc.extend([(";3;3;3", 3), (";3;8;18", 3), (";3,8;8,3", 9), (";2,3;3,5;5,2", 1), ("5;105,3;3,105;18", 2), (";18,18;18", 9)]);
    }
    for (script, bound) in &sc {
        explore_script(ctx, script, *bound);
    }
    ctx.assume("threads are interleaved at the start of each operation, at entry and end of the table construction and at each allocation inside it, not at every instruction");
    ctx.assume("a thread is taken to be blocked when the kernel reports it asleep four times in a row; this only shapes the schedule, verdicts come from results");
}

fn explore_script(ctx: &Ctx, script: &str, bound: usize) {
    let case = format!("threads:{script}");
    if let Some(r) = ctx.replaying() {
        if r.case != case {
            return;
        }
        let p = r.prefix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        if let Err((_, e)) = spawn(&format!("{script}|{p}")) {
            ctx.violation(&case, &r.prefix, &e);
        }
        return;
    }
    let queue = Mutex::new(vec![Vec::<usize>::new()]);
    let seen = Mutex::new(BTreeMap::<String, ()>::new());
    let busy = AtomicI32::new(0);
    let done = AtomicI32::new(0);
    let points = AtomicI32::new(0);
    let cap = ctx.pick(400, 4000);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let item = {
                    let mut q = queue.lock().unwrap();
                    let x = q.pop();
                    if x.is_some() {
                        busy.fetch_add(1, Ordering::SeqCst);
                    }
                    x
                };
                let Some(prefix) = item else {
                    if busy.load(Ordering::SeqCst) == 0 {
                        return;
                    }
                    std::thread::sleep(Duration::from_millis(1));
                    continue;
                };
                if !ctx.stop() {
                    if done.fetch_add(1, Ordering::SeqCst) >= cap {
                        ctx.not_exhaustive(&format!("{case}: more than {cap} schedules"));
                    } else {
                        let p = prefix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                        match spawn(&format!("{script}|{p}")) {
                            Ok(Got::Trace(t, pts)) => {
                                points.fetch_max(pts as i32, Ordering::SeqCst);
                                ctx.count("traces_validated_against_impl", 1);
                                ctx.count("transitions", t.len() as u64);
                                let mut pre = 0usize;
                                let mut q = queue.lock().unwrap();
                                for (i, (c, n, cont, _)) in t.iter().enumerate() {
                                    if i >= prefix.len() {
                                        for alt in 1..*n {
                                            if pre + *cont as usize <= bound {
                                                let mut np: Vec<usize> = t[..i].iter().map(|x| x.0).collect();
                                                np.push(alt);
                                                q.push(np);
                                            }
                                        }
                                    }
                                    if *cont && *c != 0 {
                                        pre += 1;
                                    }
                                }
                                drop(q);
                                let mut g = seen.lock().unwrap();
                                let mut key = String::new();
                                for (_, _, _, e) in &t {
                                    key.push_str(e);
                                    key.push(' ');
                                    if g.insert(key.clone(), ()).is_none() {
                                        ctx.count("states", 1);
                                    }
                                }
                            }
                            Err((true, e)) => ctx.error(&e),
                            Err((false, e)) => ctx.violation(&case, &prefix.iter().map(|x| *x as u32).collect::<Vec<_>>(), &format!("threads doing {script}: {e}")),
                        }
                    }
                }
                busy.fetch_sub(1, Ordering::SeqCst);
            });
        }
    });
    ctx.sample(format!("threads {script} (at most {bound} preemptions): {} schedules, up to {} pause points inside set-up", done.load(Ordering::SeqCst), points.load(Ordering::SeqCst)));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--c12-child" {
        child(&a[2]);
        return;
    }
    mc::main(Spec {
        id: "C12",
        level: "model_checking",
        rule: "states are distinct schedule prefixes (thread and pause point), transitions the releases of a thread, traces complete executions of the real set-up code in a process of their own",
        run,
    })
}
