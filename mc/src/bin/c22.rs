//! C22: connection set-up.
use mc::proto::*;
use mc::*;
use mcrt::{kind_mask, Cfg, IoChunk, Kind, Policy, World};
use scalable_mpc::protocol::network::{setup_tcp_network, Recipient, SendMessage};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
struct Start {
    n: usize,
    /// milliseconds before each party starts
    delay: Vec<u64>,
    /// every party on a machine of its own with the same port
    machines: bool,
    /// order in which the processes appear
    order: Vec<usize>,
}

impl Start {
    fn name(&self) -> String {
        if self.n > 6 {
            format!("{}:{}:{}", self.n, self.machines, self.delay.iter().take(3).map(|d| d.to_string()).collect::<Vec<_>>().join("."))
        } else {
            format!("{}:{}:{:?}:{:?}", self.n, self.machines, self.delay, self.order)
        }
    }
}

fn go(cfg: Cfg, s: &Start) -> (mcrt::Outcome, Result<(), String>) {
    let n = s.n;
    let w = World::new(cfg);
    let addrs: Vec<String> = (0..n)
        .map(|i| {
            if s.machines {
                let ip = std::net::Ipv4Addr::new(10, 0, (i / 250) as u8, (i % 250) as u8 + 1);
                mcrt::net::add_host(&w, ip.into(), i as u32);
                format!("{ip}:7000")
            } else {
                format!("127.0.0.1:{}", 9000 + i)
            }
        })
        .collect();
    let addrs = Arc::new(addrs);
    let got: Arc<Mutex<Vec<Vec<(usize, Vec<u8>)>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
    for &i in &s.order {
        let (a, g, d) = (addrs.clone(), got.clone(), s.delay[i]);
        w.spawn_root(i as u32, async move {
            if d > 0 {
                tokio::time::sleep(Duration::from_millis(d)).await;
            }
            let (_st, net) = setup_tcp_network(i as u16, &a).await;
            for j in 0..n {
                let data = vec![i as u8, (i >> 8) as u8, j as u8, (j >> 8) as u8];
                net.send(SendMessage { proto_id: vec![1], to: Recipient::One(j as u16), data });
            }
            for _ in 0..n {
                let m = net.recv(vec![1]).await;
                g.lock().unwrap()[i].push((m.from as usize, m.data));
            }
        });
    }
    let out = w.run(false);
    let r = finished(&out).and_then(|_| {
        for (j, v) in got.lock().unwrap().iter().enumerate() {
            let mut seen = vec![false; n];
            for (from, d) in v {
                let by = d[0] as usize | (d[1] as usize) << 8;
                let to = d[2] as usize | (d[3] as usize) << 8;
                if by != *from || to != j {
                    return Err(format!("party {j} gets the message of party {by} for party {to} attributed to party {from}"));
                }
                if std::mem::replace(&mut seen[by], true) {
                    return Err(format!("party {j} gets the message of party {by} twice"));
                }
            }
            if seen.iter().any(|x| !*x) {
                return Err(format!("party {j} does not hear from everybody"));
            }
        }
        let mut pairs = std::collections::HashMap::new();
        for (a, b, _, _) in mcrt::net::streams(&w) {
            *pairs.entry((a, b)).or_insert(0) += 1;
        }
        for a in 0..n as u32 {
            for b in 0..n as u32 {
                let c = pairs.get(&(a, b)).copied().unwrap_or(0);
                if a != b && c != 1 {
                    return Err(format!("{c} connections between parties {a} and {b}"));
                }
            }
        }
        Ok(())
    });
    w.teardown();
    (out, r)
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

fn run(ctx: &Ctx) {
    let mut items: Vec<(Start, String, Policy, IoChunk, usize, u64)> = vec![];
    let plan: &[(usize, usize, u64)] = if ctx.quick() { &[(1, 3, 20_000), (2, 2, 20_000), (3, 1, 3_000), (4, 1, 1_000)] } else { &[(1, 5, 20_000), (2, 3, 20_000), (3, 2, 20_000), (4, 1, 5_000), (5, 1, 500)] };
    for &(n, dev, cap) in plan {
        let mut delays: Vec<Vec<u64>> = vec![];
        // All assignments of start times around the retry interval.
        let times = [0u64, 500, 1000, 2600];
        all_vecs(if n <= 3 { 4 } else { 2 }, n, |v| {
            delays.push(v.iter().map(|x| times[if n <= 3 { *x as usize } else { *x as usize * 3 }]).collect());
            true
        });
        for machines in [false, true] {
            for (k, delay) in delays.iter().enumerate() {
                for (pi, order) in perms(n).into_iter().enumerate() {
                    let still = delay.iter().all(|d| *d == 0);
                    if !still && pi > 0 {
                        continue; // start times already give an order
                    }
                    let st = Start { n, delay: delay.clone(), machines, order };
                    for (pn, pol) in policies(n) {
                        if pn != "fifo" && (k % 5 != 0 && ctx.quick()) {
                            continue;
                        }
                        items.push((st.clone(), pn, pol, [IoChunk::Full, IoChunk::Max(1)][(k + pi) % 2], dev, cap));
                    }
                }
            }
        }
    }
    ctx.count("start_configurations", items.len() as u64);
    let kinds = kind_mask(&[Kind::Task, Kind::Timer, Kind::Connect, Kind::Select]);
    explore_many(
        ctx,
        &items,
        |x| format!("start:{}:{}:{:?}", x.0.name(), x.1, x.3),
        |x| (Cfg { policy: x.2.clone(), io_chunk: x.3, ..Cfg::default() }, Bounds { kinds, max_dev: x.4, max_execs: x.5 }),
        |cfg, x| go(cfg, &x.0),
    );
    // Only refused attempts varied: many of them.
    let refused: Vec<usize> = vec![2, 3];
    explore_many(
        ctx,
        &refused,
        |n| format!("refused:{n}"),
        |_| (Cfg::default(), Bounds { kinds: kind_mask(&[Kind::Connect]), max_dev: ctx.pick(6, 9), max_execs: ctx.pick(20_000, 200_000) }),
        |cfg, &n| go(cfg, &Start { n, delay: vec![0; n], machines: false, order: (0..n).collect() }),
    );
    // Parties that come much later than the others.
    let mut late: Vec<Start> = vec![];
    for n in [2usize, 3] {
        let times = [0u64, 30_000, 5_000_000];
        all_vecs(3, n, |v| {
            if v.contains(&0) && v.iter().any(|x| *x > 0) {
                for machines in [false, true] {
                    late.push(Start { n, delay: v.iter().map(|x| times[*x as usize]).collect(), machines, order: (0..n).collect() });
                }
            }
            true
        });
    }
    explore_many(
        ctx,
        &late,
        |s| format!("late:{}", s.name()),
        |_| (Cfg { max_steps: 20_000_000, ..Cfg::default() }, Bounds { kinds: 0, max_dev: 0, max_execs: 1 }),
        |cfg, s| go(cfg, s),
    );
    // Many parties.
    let sizes: Vec<(usize, u64)> = if ctx.quick() { vec![(16, 0), (260, 0)] } else { vec![(16, 0), (255, 0), (256, 700), (257, 0), (258, 1500), (300, 0)] };
    for (n, d) in sizes {
        let st = Start { n, delay: (0..n).map(|i| if i % 2 == 0 { d } else { 0 }).collect(), machines: false, order: (0..n).collect() };
        run_once(ctx, &format!("many:{n}:{d}"), || go(Cfg { max_steps: 200_000_000, ..Cfg::default() }, &st));
        ctx.sample(format!("{n} parties"));
    }
}

fn main() {
    mc::main(Spec {
        id: "C22",
        level: "model_checking",
        rule: "states are choice points (and ends) of explored executions, transitions task steps of the real set-up code, traces complete executions after which every pair has exchanged identified messages",
        run,
    })
}
