//! C26: the benchmark programs.
use mc::circ::*;
use mc::proto::*;
use mc::*;
use mcrt::{kind_mask, Cfg, Kind, World};
use scalable_mpc::protocol::{garble, network, preproc};
use scalable_mpc::{math::galois::GF, Stats};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

mod programs {
    include!(concat!(env!("OUT_DIR"), "/programs.rs"));
}

thread_local! {
    static LINES: std::cell::RefCell<Option<Arc<Mutex<Vec<String>>>>> = std::cell::RefCell::new(None);
}

/// A line printed by a program.
pub fn said(s: String) {
    LINES.with(|l| {
        if let Some(l) = &*l.borrow() {
            l.lock().unwrap().push(s)
        }
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Prog {
    Garble,
    Preproc,
}

#[derive(Clone, Debug)]
struct Job {
    prog: Prog,
    par: Par,
    tau: usize,
    reps: usize,
    threads: usize,
    save: bool,
    circ: C,
}

impl Job {
    fn name(&self) -> String {
        format!("{:?}:{}:tau{}:reps{}:threads{}:{}:{}", self.prog, self.par.name(), self.tau, self.reps, self.threads, if self.save { "save" } else { "nosave" }, self.circ.name())
    }
}

struct Seen {
    report: Option<String>,
    lines: Vec<Vec<String>>,
    streams: secrecy::Streams,
    writes: Vec<(u32, u32, usize)>,
    circ: String,
}

/// What a driver of our own finds a repetition to cost.
struct Cost {
    /// What each party receives from each party.
    comm: Vec<Vec<(u64, u64)>>,
    /// Random values each party draws.
    draws: std::collections::BTreeMap<u32, u32>,
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

fn go(cfg: Cfg, j: &Job, dir: &Path) -> (mcrt::Outcome, Seen) {
    let n = j.par.n;
    let me = SERIAL.fetch_add(1, Ordering::SeqCst);
    let file = |what: &str| -> PathBuf { dir.join(format!("{me}.{what}")) };
    std::fs::write(file("net"), addresses(n).join("\n")).unwrap();
    std::fs::write(file("circ"), j.circ.text()).unwrap();
    if j.prog == Prog::Preproc {
        let m = lin::transpose(&pre::small_binary(n, j.par.t));
        std::fs::write(file("mat"), m.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") + "\n").collect::<String>()).unwrap();
    }
    let w = World::new(cfg);
    let mut lines = vec![];
    let mut threads = vec![];
    for i in 0..n {
        let mut a: Vec<String> = vec!["prog".into()];
        let mut opt = |k: &str, v: String| {
            a.push(format!("--{k}"));
            a.push(v);
        };
        opt("id", i.to_string());
        opt("net", file("net").display().to_string());
        opt("circ", file("circ").display().to_string());
        opt("threshold", j.par.t.to_string());
        opt("packing-param", j.par.l.to_string());
        opt("lpn-error-bias", j.tau.to_string());
        opt("lpn-key-len", j.par.k.to_string());
        opt("lpn-mssg-len", j.par.q.to_string());
        opt("reps", j.reps.to_string());
        opt("threads", j.threads.to_string());
        if j.prog == Prog::Preproc {
            opt("binsup-mat", file("mat").display().to_string());
        }
        if j.save {
            opt("save", file("save").display().to_string());
        }
        let out = Arc::new(Mutex::new(vec![]));
        lines.push(out.clone());
        let prog = j.prog;
        threads.push(mcrt::spawn_program(&w, i as u32, a, move || {
            LINES.with(|l| *l.borrow_mut() = Some(out));
            match prog {
                Prog::Garble => programs::garble::program_entry(),
                Prog::Preproc => programs::preproc::program_entry(),
            }
        }));
    }
    let out = w.run(false);
    let streams = mcrt::net::streams(&w);
    let writes = mcrt::net::writes(&w);
    w.teardown();
    for t in threads {
        let _ = t.join();
    }
    let circ = file("circ").display().to_string();
    let report = std::fs::read_to_string(file("save")).ok();
    for k in ["net", "circ", "mat", "save"] {
        let _ = std::fs::remove_file(file(k));
    }
    (out, Seen { report, lines: lines.iter().map(|l| l.lock().unwrap().clone()).collect(), streams, writes, circ })
}

/// What each party receives from each party in one repetition, by a driver that takes its readings
/// when nothing is under way.
fn traffic(j: &Job, dir: &Path) -> Result<Cost, String> {
    GF::<18>::init().unwrap();
    let n = j.par.n;
    let w = World::new(Cfg::default());
    let par = j.par;
    let ctxs = contexts::<18>(&par);
    let addrs = Arc::new(addresses(n));
    let got = Arc::new(Mutex::new(vec![vec![]; n]));
    let prog = j.prog;
    for i in 0..n {
        let (a, g, x) = (addrs.clone(), got.clone(), ctxs[i].clone());
        let packed = j.circ.load(dir, &format!("ref{}", SERIAL.fetch_add(1, Ordering::SeqCst))).pack(par.l as u32);
        let sup = Arc::new(scalable_mpc::math::super_inv_matrix::<18>(n, n - par.t));
        let bin = pre::matrix::<18>(&pre::small_binary(n, par.t));
        w.spawn_root(i as u32, async move {
            let (stats, net) = network::setup_tcp_network(i as u16, &a).await;
            let desc = preproc::PreProc::describe(&packed, &x);
            let pause = || tokio::time::sleep(std::time::Duration::from_secs(10));
            pause().await;
            let start = Stats::now(&stats, n as u32).await;
            pause().await;
            match prog {
                Prog::Garble => {
                    let pre = preproc::PreProc::dummy(200, desc, &x);
                    let gc = Arc::new(garble::GarbleContext::new(packed, x));
                    garble::garble(b"".to_vec(), pre, gc, net).await;
                }
                Prog::Preproc => {
                    let r = preproc::RandContext::new(sup.clone(), &x);
                    let z = preproc::ZeroContext::new(sup, &x);
                    let b = preproc::RandBitContext::new(bin, &x);
                    preproc::preproc(b"".to_vec(), desc, x, r, z, b, net).await;
                }
            }
            pause().await;
            g.lock().unwrap()[i] = start.elapsed(&stats).await.1;
        });
    }
    let out = w.run(false);
    w.teardown();
    finished(&out).map_err(|e| format!("one repetition by itself: {e}"))?;
    let comm = got.lock().unwrap().clone();
    Ok(Cost { comm, draws: out.draws })
}

/// Bytes on a connection when parties do nothing but wait for each other once.
fn waiting(n: usize) -> usize {
    let w = World::new(Cfg::default());
    let addrs = Arc::new(addresses(n));
    for i in 0..n {
        let a = addrs.clone();
        w.spawn_root(i as u32, async move {
            let (_, net) = network::setup_tcp_network(i as u16, &a).await;
            network::sync(vec![7; 30], &net, n).await;
            tokio::time::sleep(std::time::Duration::from_secs(10)).await;
        });
    }
    let out = w.run(false);
    finished(&out).expect("reference run");
    let most = mcrt::net::streams(&w).iter().map(|s| s.3 as usize).max().unwrap();
    w.teardown();
    most
}

/// Nobody starts to work before party `late` is ready: until it says anything, others have only
/// told each other that they are.
fn held_back(late: u32, wait: usize, writes: &[(u32, u32, usize)]) -> Result<(), String> {
    let mut sent: std::collections::BTreeMap<(u32, u32), usize> = Default::default();
    for (from, to, k) in writes {
        let x = sent.entry((*from, *to)).or_insert(0);
        // Its number, told to those it connects to, is not a sign of being ready.
        if *from == late && (*to > late || *x >= 2) {
            return Ok(());
        }
        *x += k;
        if *x > 2 * wait {
            return Err(format!("party {from} sends {x} bytes to party {to} before party {late} is ready"));
        }
    }
    Ok(())
}

/// The saved report says what was run and what it cost.
fn report(j: &Job, g: &Cost, circ: &str, s: &Seen) -> Result<bool, String> {
    let text = match (&s.report, j.save) {
        (Some(t), true) => t,
        (None, false) => return Ok(true),
        (Some(_), false) => return Err("a report is written although none was asked for".into()),
        (None, true) => return Err("no report is written".into()),
    };
    let r = json::parse(text).map_err(|e| format!("the report is not JSON: {e}"))?;
    let d = &r["details"];
    let want: [(&str, usize); 8] = [("n", j.par.n), ("t", j.par.t), ("l", j.par.l), ("lpn_tau", j.tau), ("lpn_key_len", j.par.k), ("lpn_mssg_len", j.par.q), ("reps", j.reps), ("threads", j.threads)];
    for (k, v) in want {
        if d[k].as_usize() != Some(v) {
            return Err(format!("the report gives {k} as {}, it is {v}", d[k]));
        }
    }
    if d["circ"].as_str() != Some(circ) {
        return Err(format!("the report gives the circuit as {}", d["circ"]));
    }
    let b = &r["benchmarks"];
    if b.len() != j.par.n {
        return Err(format!("the report has {} entries for {} parties", b.len(), j.par.n));
    }
    let mut exact = true;
    for p in 0..j.par.n {
        let reps = if j.prog == Prog::Garble {
            if b[p]["onetime_comp"].as_u64().is_none() {
                return Err(format!("no one-time cost for party {p}"));
            }
            &b[p]["garbling"]
        } else {
            &b[p]
        };
        if reps.len() != j.reps {
            return Err(format!("the report has {} repetitions of party {p}, {} were run", reps.len(), j.reps));
        }
        for i in 0..j.reps {
            let sum: u64 = (0..reps[i]["comm"].len()).filter_map(|q| reps[i]["comm"][q][0].as_u64()).sum();
            let told = s.lines[p].iter().any(|l| l.split(|c: char| !c.is_ascii_digit()).any(|x| x.parse() == Ok(sum)));
            if !told {
                return Err(format!("party {p} reports {sum} bytes for repetition {i} and prints something else: {:?}", s.lines[p]));
            }
        }
        for q in 0..j.par.n {
            let mut sum = 0;
            for i in 0..j.reps {
                let e = &reps[i];
                if e["time"].as_u64().is_none() || e["comm"].len() != j.par.n {
                    return Err(format!("repetition {i} of party {p}: {e}"));
                }
                let v = match (e["comm"][q][0].as_u64(), e["comm"][q][1].as_u64()) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return Err(format!("repetition {i} of party {p}: traffic {}", e["comm"])),
                };
                if v != g.comm[p][q] {
                    exact = false;
                }
                sum += v.1;
            }
            // Never more than what was sent.
            if p != q {
                let sent: u64 = s.streams.iter().filter(|x| x.0 == q as u32 && x.1 == p as u32).map(|x| x.3).sum();
                if sum > sent {
                    return Err(format!("party {p} reports {sum} bytes from party {q}, which sent {sent}"));
                }
            }
        }
    }
    Ok(exact)
}

/// Reports of a job: how many gave exactly the traffic of each repetition, how many did not.
#[derive(Default)]
struct Exact(AtomicU64, AtomicU64);

impl Exact {
    fn decide(&self) -> Result<(), String> {
        if self.0.load(Ordering::SeqCst) == 0 && self.1.load(Ordering::SeqCst) > 0 {
            return Err("in no explored schedule the report gives the traffic of the repetitions".into());
        }
        Ok(())
    }
}

fn judge(ctx: &Ctx, j: &Job, g: &Cost, cfg: Cfg, dir: &Path, e: &Exact) -> (mcrt::Outcome, Result<(), String>) {
    let (out, s) = go(cfg, j, dir);
    let r = (|| {
        if out.step_limit {
            return Err("the programs go on without end".into());
        }
        if let Some((p, m)) = out.panics.first() {
            return Err(format!("party {p} panics: {m}"));
        }
        if !out.unfinished_roots.is_empty() {
            return Err(format!("the processes of parties {:?} never end", out.unfinished_roots));
        }
        for p in 0..j.par.n as u32 {
            let (did, once) = (out.draws.get(&p).copied().unwrap_or(0), g.draws.get(&p).copied().unwrap_or(0));
            if did as usize != once as usize * j.reps {
                return Err(format!("party {p} draws {did} random values in {} repetitions, {once} are needed for one with these parameters", j.reps));
            }
        }
        if report(j, g, &s.circ, &s)? {
            e.0.fetch_add(1, Ordering::SeqCst);
        } else {
            e.1.fetch_add(1, Ordering::SeqCst);
            let p: Vec<u32> = out.trace.iter().map(|c| c.taken).collect();
            let last = p.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
            ctx.violation(&format!("traffic:{}", j.name()), &p[..last], "the traffic in the report is not what the repetition costs");
            ctx.count("inexact_reports", 1);
        }
        Ok(())
    })();
    (out, r)
}

fn run(ctx: &Ctx) {
    let dir = scratch();
    let and = C { inputs: vec![1, 1], outputs: vec![1], gates: vec![G { k: K::And, a: 0, b: 1, o: 2 }] };
    let inv = C { inputs: vec![1], outputs: vec![1], gates: vec![G { k: K::Inv, a: 0, b: 0, o: 1 }] };
    // Reports with parameters that all differ.
    let mut jobs = vec![];
    for (prog, n, t, l, tau, k, q, reps, threads) in [
        (Prog::Garble, 5, 1, 2, 6, 3, 8, 4, 7),
        (Prog::Garble, 3, 1, 1, 5, 2, 6, 3, 4),
        (Prog::Garble, 6, 1, 2, 3, 4, 5, 1, 9),
        (Prog::Preproc, 7, 1, 3, 2, 4, 6, 5, 8),
        (Prog::Preproc, 3, 1, 1, 2, 5, 6, 4, 7),
        (Prog::Preproc, 9, 2, 3, 2, 1, 4, 0, 5),
    ] {
        for save in [true, false] {
            jobs.push(Job { prog, par: Par::new(n, t, l).lpn(k, q), tau, reps, threads, save, circ: and.clone() });
        }
    }
    ctx.par_cases(&jobs, |j| format!("report:{}", j.name()), |j| {
        let g = traffic(j, &dir)?;
        let e = Exact::default();
        for (_, policy) in policies(j.par.n) {
            let (o, r) = judge(ctx, j, &g, Cfg { record_streams: true, policy, ..Cfg::default() }, &dir, &e);
            ctx.count("states", 1);
            ctx.count("transitions", o.steps);
            ctx.count("traces_validated_against_impl", 1);
            r?;
        }
        ctx.distinct(j.name().as_bytes());
        e.decide()
    });
    // Parties wait for the last one.
    let mut late = vec![];
    for prog in [Prog::Garble, Prog::Preproc] {
        for (n, t, l) in ctx.pick(&[(3, 1, 1), (5, 1, 2)][..], &[(2, 0, 1), (3, 1, 1), (4, 1, 1), (5, 1, 2), (7, 2, 2)][..]) {
            for g in 0..*n as u32 {
                late.push((Job { prog, par: Par::new(*n, *t, *l).lpn(4, 40), tau: 2, reps: 1, threads: 2, save: false, circ: and.clone() }, g));
            }
        }
    }
    ctx.par_cases(&late, |(j, g)| format!("late:{}:{g}", j.name()), |(j, g)| {
        let (out, s) = go(Cfg { record_streams: true, policy: mcrt::Policy::StarveGroup(*g), ..Cfg::default() }, j, &dir);
        count_outcome(ctx, &out);
        finished(&out)?;
        let wait = waiting(j.par.n);
        if s.streams.iter().all(|x| x.3 as usize <= 2 * wait) {
            ctx.sample(format!("{}: too little traffic to tell", j.name()));
            return Ok(());
        }
        held_back(*g, wait, &s.writes)
    });
    // Schedules.
    let t = kind_mask(&[Kind::Task]);
    let y = kind_mask(&[Kind::Yield]);
    let ty = kind_mask(&[Kind::Task, Kind::Yield]);
    let big = !ctx.quick();
    for (prog, n, t_, reps, save, circ, kinds, dev, cap) in [
        (Prog::Preproc, 2, 0, 2, true, &inv, ty, if big { 2 } else { 1 }, ctx.pick(3_000, 40_000)),
        (Prog::Preproc, 2, 0, 1, false, &inv, ty, if big { 2 } else { 1 }, ctx.pick(3_000, 40_000)),
        (Prog::Preproc, 3, 1, 1, true, &inv, t, 1, ctx.pick(3_000, 20_000)),
        (Prog::Preproc, 3, 1, 1, false, &inv, t, 1, ctx.pick(3_000, 20_000)),
        (Prog::Preproc, 3, 1, 2, true, &and, y, 1, ctx.pick(3_000, 20_000)),
        (Prog::Preproc, 4, 1, 1, true, &inv, y, 1, ctx.pick(1_000, 20_000)),
        (Prog::Garble, 2, 0, 1, true, &inv, ty, 1, ctx.pick(1_000, 10_000)),
        (Prog::Garble, 2, 0, 1, false, &inv, ty, 1, ctx.pick(1_000, 10_000)),
        (Prog::Garble, 3, 1, 1, false, &inv, t, 1, ctx.pick(500, 10_000)),
        (Prog::Garble, 3, 1, 2, true, &and, y, 1, ctx.pick(500, 10_000)),
    ] {
        let j = Job { prog, par: Par::new(n, t_, 1).lpn(1, 3), tau: 2, reps, threads: 1, save, circ: circ.clone() };
        let g = match guarded(|| traffic(&j, &dir)) {
            Ok(Ok(g)) => g,
            Ok(Err(e)) | Err(Fail::Code(e)) => {
                ctx.violation(&format!("reference:{}", j.name()), &[], &e);
                continue;
            }
            Err(Fail::Harness(e)) => return ctx.error(&e),
        };
        let e = Exact::default();
        for (name, policy) in policies(n) {
            let base = Cfg { record_streams: true, policy, ..Cfg::default() };
            let (kinds, dev) = if name == "fifo" { (kinds, dev) } else { (0, 0) };
            let b = Bounds { kinds, max_dev: dev, max_execs: cap };
            explore(ctx, &format!("{}:{name}", j.name()), &base, &b, |cfg| judge(ctx, &j, &g, cfg, &dir, &e));
        }
        ctx.par_cases(&[()], |_| format!("exact:{}", j.name()), |_| e.decide());
        ctx.distinct(j.name().as_bytes());
    }
    ctx.assume("a process whose main future has finished ends at once: tasks it spawned get no further turn");
}

fn main() {
    mc::main(Spec {
        id: "C26",
        level: "model_checking",
        rule: "one state per choice point reached, one transition per task step, one trace per execution of the real programs",
        run,
    })
}
