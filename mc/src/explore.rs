use crate::report::{attribute, guarded, Ctx, Fail};
use mcrt::{Cfg, Outcome, World};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};

#[derive(Clone)]
pub struct Bounds {
    pub kinds: u32,
    /// Choices different from the default allowed per execution.
    pub max_dev: usize,
    pub max_execs: u64,
}

/// Explores all choice sequences of `case` within the bounds.  `f` runs one world to its end and
/// judges it.
pub fn explore<F>(ctx: &Ctx, case: &str, base: &Cfg, b: &Bounds, f: F)
where
    F: Fn(Cfg) -> (Outcome, Result<(), String>) + Sync,
{
    if let Some(r) = ctx.replaying() {
        if r.case == case {
            let mut cfg = base.clone();
            cfg.kinds = b.kinds;
            cfg.prefix = r.prefix.clone();
            judge(ctx, case, &r.prefix.clone(), || f(cfg));
        }
        return;
    }
    if ctx.stop() {
        return;
    }
    struct St {
        /// By number of deviations: everything with fewer goes first.
        work: Vec<Vec<Vec<u32>>>,
        pending: u64,
        shown: bool,
        busy: usize,
        execs: u64,
        capped: bool,
    }
    let st = Mutex::new(St { work: vec![vec![vec![]]], pending: 1, shown: false, busy: 0, execs: 0, capped: false });
    let cv = Condvar::new();
    let states = AtomicU64::new(0);
    let trans = AtomicU64::new(0);
    let traces = AtomicU64::new(0);
    let diverged = AtomicU64::new(0);
    let worker = || loop {
        let (prefix, dev) = {
            let mut s = st.lock().unwrap();
            loop {
                if s.execs >= b.max_execs || ctx.stop() {
                    if s.pending > 0 {
                        s.capped = true;
                    }
                    cv.notify_all();
                    return;
                }
                if let Some(d) = s.work.iter().position(|w| !w.is_empty()) {
                    let w = s.work[d].pop().unwrap();
                    s.pending -= 1;
                    s.busy += 1;
                    s.execs += 1;
                    break (w, d);
                }
                if s.busy == 0 {
                    cv.notify_all();
                    return;
                }
                s = cv.wait(s).unwrap();
            }
        };
        let mut cfg = base.clone();
        cfg.kinds = b.kinds;
        cfg.prefix = prefix.clone();
        let out = judge(ctx, case, &prefix, || f(cfg));
        let mut s = st.lock().unwrap();
        if let Some(o) = out {
            traces.fetch_add(1, Ordering::Relaxed);
            trans.fetch_add(o.steps, Ordering::Relaxed);
            states.fetch_add((o.trace.len().saturating_sub(prefix.len()) + 1) as u64, Ordering::Relaxed);
            if o.overflow {
                diverged.fetch_add(1, Ordering::Relaxed);
            }
            if !s.shown && dev > 0 && dev == b.max_dev.min(1) {
                s.shown = true;
                show(ctx, case, &o);
            }
            if dev < b.max_dev {
                if s.work.len() < dev + 2 {
                    s.work.push(vec![]);
                }
                for i in (prefix.len()..o.trace.len()).rev() {
                    let c = o.trace[i];
                    for alt in 1..c.n {
                        if s.pending + s.execs >= b.max_execs {
                            s.capped = true;
                            continue;
                        }
                        let mut p: Vec<u32> = o.trace[..i].iter().map(|x| x.taken).collect();
                        p.push(alt);
                        s.work[dev + 1].push(p);
                        s.pending += 1;
                    }
                }
            }
        }
        s.busy -= 1;
        drop(s);
        cv.notify_all();
    };
    // A first execution on this thread; more workers only if there is more to do.
    std::thread::scope(|sc| {
        let n = crate::report::threads();
        for _ in 0..n {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, worker).unwrap();
        }
    });
    ctx.count("states", states.load(Ordering::SeqCst));
    ctx.count("transitions", trans.load(Ordering::SeqCst));
    ctx.count("traces_validated_against_impl", traces.load(Ordering::SeqCst));
    let d = diverged.load(Ordering::SeqCst);
    if d > 0 {
        ctx.count("diverged_replays", d);
        ctx.not_exhaustive("some replays diverged");
    }
    if st.lock().unwrap().capped {
        ctx.not_exhaustive(&format!("execution cap in {case}"));
    }
}

fn judge(ctx: &Ctx, case: &str, prefix: &[u32], f: impl FnOnce() -> (Outcome, Result<(), String>)) -> Option<Outcome> {
    ctx.enter_case(case, prefix);
    let r = guarded(f);
    ctx.leave_case();
    match r {
        Ok((o, res)) => {
            if let Err(e) = res {
                // The exact choices of this execution, for replay.
                let p: Vec<u32> = o.trace.iter().map(|c| c.taken).collect();
                let last = p.iter().rposition(|x| *x != 0).map(|i| i + 1).unwrap_or(0);
                ctx.violation(case, &p[..last], &e);
            }
            Some(o)
        }
        Err(Fail::Code(e)) => {
            ctx.violation(case, prefix, &e);
            None
        }
        Err(Fail::Harness(e)) => {
            ctx.error(&format!("{case} {prefix:?}: {e}"));
            None
        }
    }
}

/// Records an execution as a sample.
fn show(ctx: &Ctx, case: &str, o: &Outcome) {
    let at: Vec<String> = o.trace.iter().enumerate().filter(|(_, c)| c.taken != 0).map(|(i, c)| format!(", choice {i} of {} is {} of {}", o.trace.len(), c.taken, c.n)).collect();
    ctx.sample(format!("{case}: {} steps{}", o.steps, at.concat()));
}

/// Runs a single world (no exploration) and counts it.
pub fn run_once<F>(ctx: &Ctx, case: &str, f: F)
where
    F: Fn() -> (Outcome, Result<(), String>),
{
    if let Some(r) = ctx.replaying() {
        if r.case != case {
            return;
        }
    }
    if ctx.stop() {
        return;
    }
    if let Some(o) = judge(ctx, case, &[], f) {
        show(ctx, case, &o);
        count_outcome(ctx, &o);
    }
}

pub fn count_outcome(ctx: &Ctx, o: &Outcome) {
    ctx.count("states", o.trace.len() as u64 + 1);
    ctx.count("transitions", o.steps);
    ctx.count("traces_validated_against_impl", 1);
}

/// Panics and unfinished parties, as a verdict.
pub fn finished(o: &Outcome) -> Result<(), String> {
    if let Some((g, m)) = o.panics.first() {
        let where_ = crate::report::last_panic();
        if let Some((loc, msg)) = where_ {
            if let Fail::Harness(e) = attribute(&loc, &msg) {
                panic!("harness panic inside a world: {e}");
            }
            return Err(format!("party {g} panics at {loc}: {m}"));
        }
        return Err(format!("party {g} panics: {m}"));
    }
    if o.step_limit {
        return Err(format!("no end after {} steps", o.steps));
    }
    if !o.unfinished_roots.is_empty() {
        return Err(format!("parties {:?} never finish (nothing left to run)", o.unfinished_roots));
    }
    Ok(())
}

pub fn world(cfg: Cfg) -> World {
    World::new(cfg)
}

/// Explores many small cases, each on one thread.
pub fn explore_many<T, K, B, F>(ctx: &Ctx, items: &[T], key: K, bounds: B, f: F)
where
    T: Sync,
    K: Fn(&T) -> String + Sync,
    B: Fn(&T) -> (Cfg, Bounds) + Sync,
    F: Fn(Cfg, &T) -> (Outcome, Result<(), String>) + Sync,
{
    let next = AtomicU64::new(0);
    let one = |it: &T| {
        let case = key(it);
        if let Some(r) = ctx.replaying() {
            if r.case == case {
                let (mut cfg, b) = bounds(it);
                cfg.kinds = b.kinds;
                cfg.prefix = r.prefix.clone();
                judge(ctx, &case, &r.prefix.clone(), || f(cfg, it));
            }
            return;
        }
        let (base, b) = bounds(it);
        let mut work: Vec<(Vec<u32>, usize)> = vec![(vec![], 0)];
        let (mut execs, mut states, mut trans, mut diverged) = (0u64, 0u64, 0u64, 0u64);
        let mut capped = false;
        while let Some((prefix, dev)) = work.pop() {
            if execs >= b.max_execs || ctx.stop() {
                capped = true;
                break;
            }
            let mut cfg = base.clone();
            cfg.kinds = b.kinds;
            cfg.prefix = prefix.clone();
            if let Some(o) = judge(ctx, &case, &prefix, || f(cfg, it)) {
                execs += 1;
                trans += o.steps;
                states += (o.trace.len().saturating_sub(prefix.len()) + 1) as u64;
                diverged += o.overflow as u64;
                if execs == 1 + (b.max_dev > 0) as u64 {
                    show(ctx, &case, &o);
                }
                if dev < b.max_dev {
                    for i in (prefix.len()..o.trace.len()).rev() {
                        for alt in 1..o.trace[i].n {
                            let mut p: Vec<u32> = o.trace[..i].iter().map(|x| x.taken).collect();
                            p.push(alt);
                            work.push((p, dev + 1));
                        }
                    }
                }
            } else {
                break;
            }
        }
        ctx.count("states", states);
        ctx.count("transitions", trans);
        ctx.count("traces_validated_against_impl", execs);
        if diverged > 0 {
            ctx.count("diverged_replays", diverged);
            ctx.not_exhaustive("some replays diverged");
        }
        if capped {
            ctx.count("capped_cases", 1);
            ctx.not_exhaustive(&format!("execution cap in {case}"));
        }
    };
    std::thread::scope(|sc| {
        for _ in 0..crate::report::threads() {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= items.len() || ctx.stop() {
                        return;
                    }
                    one(&items[i]);
                })
                .unwrap();
        }
    });
}
