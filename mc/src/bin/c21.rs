//! C21: framing.
use mc::proto::*;
use mc::script::*;
use mc::*;
use mcrt::{kind_mask, Cfg, IoChunk, Kind, World};
use std::sync::{Arc, Mutex};

fn msg(i: usize, idl: usize, len: usize) -> Msg {
    Msg { from: 1, to: Some(0), id: (0..idl).map(|j| (j * 7 + 1) as u8).collect(), data: (0..len).map(|j| (i * 31 + j * 5 + (j >> 8) + 3) as u8).collect() }
}

fn name(v: &[Msg]) -> String {
    v.iter().map(|m| format!("{}/{}", m.id.len(), m.data.len())).collect::<Vec<_>>().join(",")
}

fn check(cfg: Cfg, v: &[Msg]) -> (mcrt::Outcome, Result<(), String>) {
    let pl = play(cfg, Net::Tcp, 2, v, &[Ask::Parallel], true, false);
    let r = judge_delivery(2, v, &pl);
    (pl.out, r)
}

/// Every way of cutting the stream into reads.
fn splits(ctx: &Ctx) {
    let mut lists: Vec<Vec<Msg>> = vec![];
    // single messages
    for idl in 0..=3 {
        for len in 0..=ctx.pick(9, 12) {
            lists.push(vec![msg(0, idl, len)]);
        }
    }
    // pairs, triples of short ones (messages may share a segment)
    for a in 0..=2 {
        for b in 0..=2 {
            for c in 0..=1 {
                lists.push(vec![msg(0, c, a), msg(1, 1, b)]);
            }
            lists.push(vec![msg(0, 0, a), msg(1, 0, 0), msg(2, 0, b)]);
        }
    }
    ctx.count("split_lists", lists.len() as u64);
    // Sizes around the prefix boundaries and long ones: deviations bounded.
    let mut longer: Vec<Vec<Msg>> = vec![];
    for len in [120, 124, 125, 126, 127, 128, 129] {
        longer.push(vec![msg(0, 1, len), msg(1, 1, 2)]);
        longer.push(vec![msg(0, 2, 1), msg(1, 0, len)]);
    }
    let io = kind_mask(&[Kind::Io]);
    explore_many(
        ctx,
        &lists,
        |v| format!("split:{}", name(v)),
        |_| (Cfg { io_chunk: IoChunk::ChooseRead, ..Cfg::default() }, Bounds { kinds: io, max_dev: 64, max_execs: ctx.pick(20_000, 1_000_000) }),
        |cfg, v| check(cfg, v),
    );
    explore_many(
        ctx,
        &longer,
        |v| format!("split2:{}", name(v)),
        |_| (Cfg { io_chunk: IoChunk::ChooseRead, ..Cfg::default() }, Bounds { kinds: io, max_dev: ctx.pick(1, 2), max_execs: ctx.pick(20_000, 200_000) }),
        |cfg, v| check(cfg, v),
    );
    // Short writes and reads together with task order.
    explore_many(
        ctx,
        &lists,
        |v| format!("both:{}", name(v)),
        |_| (Cfg { io_chunk: IoChunk::ChooseBoth, ..Cfg::default() }, Bounds { kinds: io | kind_mask(&[Kind::Task]), max_dev: ctx.pick(2, 3), max_execs: ctx.pick(3_000, 100_000) }),
        |cfg, v| check(cfg, v),
    );
}

/// Payload and identifier lengths.
fn lengths(ctx: &Ctx) {
    let mut items: Vec<(Vec<Msg>, IoChunk, usize)> = vec![];
    let top = ctx.pick(400, 3000);
    for len in 0..top {
        items.push((vec![msg(0, 2, len), msg(1, 2, 1), msg(2, 3, len / 2)], IoChunk::Full, usize::MAX));
    }
    for idl in 0..=255 {
        for len in [0, 1, 130] {
            items.push((vec![msg(0, idl, len), msg(1, 255 - idl, 3)], IoChunk::Full, usize::MAX));
        }
        for len in [0, 126 - (idl as i64).min(126) as usize, 127 - (idl as i64).min(127) as usize] {
            items.push((vec![msg(0, idl, len)], IoChunk::Max(1), 3));
        }
    }
    for e in [7u32, 14] {
        let c = 1i64 << e;
        for d in -4i64..=4 {
            for idl in [0i64, 1, 2, 255] {
                let len = c + d - idl - 1;
                if len < 0 {
                    continue;
                }
                for (ch, cap) in [(IoChunk::Full, usize::MAX), (IoChunk::Max(1), usize::MAX), (IoChunk::Max(7), 5), (IoChunk::Max(1000), 1024)] {
                    items.push((vec![msg(0, idl as usize, len as usize), msg(1, idl as usize, 2), msg(2, 0, len as usize)], ch, cap));
                }
            }
        }
    }
    for d in ctx.pick(vec![-1i64, 0, 1], (-3..=3).collect()) {
        let len = (1i64 << 21) + d - 2;
        items.push((vec![msg(0, 1, len as usize), msg(1, 1, 1)], IoChunk::Max(1 << 16), 1 << 17));
        items.push((vec![msg(0, 1, len as usize), msg(1, 1, 1)], IoChunk::Full, usize::MAX));
    }
    ctx.count("length_combinations", items.len() as u64);
    explore_many(
        ctx,
        &items,
        |(v, ch, cap)| format!("len:{}:{ch:?}:{cap}", name(v)),
        |(_, ch, cap)| (Cfg { io_chunk: *ch, pipe_cap: *cap, max_steps: 100_000_000, ..Cfg::default() }, Bounds { kinds: 0, max_dev: 0, max_execs: 1 }),
        |cfg, (v, _, _)| check(cfg, v),
    );
}

struct Cut {
    out: mcrt::Outcome,
    got: Vec<(Vec<u8>, Vec<u8>)>,
    totals: Vec<u64>,
}

/// Party 1 sends the messages one after the other (to quiet each time); the stream breaks after
/// `cut` bytes.  `totals`: bytes on the wire after each message.
fn with_cut(v: &[Msg], cut: Option<u64>, chunk: IoChunk, close: bool) -> Cut {
    let w = World::new(Cfg { pipe_cap: usize::MAX, ..Cfg::default() });
    let nets = match set_up(&w, Net::Tcp, 2) {
        Ok(n) => n,
        Err((out, _)) => return Cut { out, got: vec![], totals: vec![] },
    };
    let wire = |w: &World| mcrt::net::streams(w).iter().filter(|s| s.0 == 1 && s.1 == 0).map(|s| s.3).sum::<u64>();
    let base = wire(&w);
    w.set_cfg(|c| c.io_chunk = chunk);
    if let (Some(k), false) = (cut, close) {
        mcrt::net::cut(&w, 1, 0, k);
    }
    let got: Arc<Mutex<Vec<(Vec<u8>, Vec<u8>)>>> = Arc::new(Mutex::new(vec![]));
    let mut ids: Vec<Vec<u8>> = v.iter().map(|m| m.id.clone()).collect();
    ids.push(vec![]);
    ids.push(vec![250]);
    ids.sort();
    ids.dedup();
    for id in ids {
        let (n0, g) = (nets[0].1.clone(), got.clone());
        w.spawn_root(0, async move {
            loop {
                let m = n0.recv(id.clone()).await;
                g.lock().unwrap().push((m.proto_id, m.data));
            }
        });
    }
    let mut totals = vec![];
    let mut out = w.run(false);
    for m in v {
        let (m, n1) = (m.clone(), nets[1].1.clone());
        w.spawn_root(1, async move { m.send(&n1) });
        out = w.run(false);
        totals.push(wire(&w) - base);
    }
    if close {
        // The sender's machine goes away after everything was handed to the system.
        mcrt::kill_group(&w, 1);
        out = w.run(false);
    }
    let got = std::mem::take(&mut *got.lock().unwrap());
    drop(nets);
    w.teardown();
    Cut { out, got, totals }
}

fn truncation(ctx: &Ctx) {
    let mut lists: Vec<Vec<Msg>> = vec![vec![msg(0, 0, 0)], vec![msg(0, 1, 5)], vec![msg(0, 3, 0), msg(1, 3, 4)], vec![msg(0, 2, 3), msg(1, 0, 0), msg(2, 2, 9)]];
    for len in [125, 126, 127, 128, 200] {
        lists.push(vec![msg(0, 1, len), msg(1, 1, 3)]);
        lists.push(vec![msg(0, 1, 2), msg(1, 4, len), msg(2, 1, 1)]);
    }
    if !ctx.quick() {
        lists.push(vec![msg(0, 1, 1 << 14), msg(1, 1, 3)]);
        lists.push((0..12).map(|i| msg(i, i % 3, i * i)).collect());
    }
    ctx.par_cases(&lists, |v| format!("cut:{}", name(v)), |v| {
        let full = with_cut(v, None, IoChunk::Full, false);
        count_outcome(ctx, &full.out);
        let end = *full.totals.last().unwrap();
        for chunk in [IoChunk::Full, IoChunk::Max(1), IoChunk::Max(3)] {
            for k in 0..=end {
                let r = with_cut(v, Some(k), chunk, false);
                count_outcome(ctx, &r.out);
                ctx.count("truncations", 1);
                // Messages of one identifier keep their order; identifiers are collected side by side.
                let mut want: Vec<(Vec<u8>, Vec<u8>)> = v.iter().zip(&full.totals).filter(|(_, t)| **t <= k).map(|(m, _)| (m.id.clone(), m.data.clone())).collect();
                let mut got = r.got;
                want.sort();
                got.sort();
                if got != want {
                    return Err(format!("stream of {end} bytes cut after {k}: received {:?}, completely sent {:?}", sizes(&got), sizes(&want)));
                }
            }
            let r = with_cut(v, None, chunk, true);
            count_outcome(ctx, &r.out);
            if r.got.len() != v.len() {
                return Err(format!("sender gone after sending everything: {} of {} messages received", r.got.len(), v.len()));
            }
        }
        Ok(())
    });
}

fn sizes(v: &[(Vec<u8>, Vec<u8>)]) -> Vec<(usize, usize)> {
    v.iter().map(|(a, b)| (a.len(), b.len())).collect()
}

fn run(ctx: &Ctx) {
    splits(ctx);
    lengths(ctx);
    truncation(ctx);
    ctx.assume("lengths of 2^28 and above are not run");
}

fn main() {
    mc::main(Spec {
        id: "C21",
        level: "model_checking",
        rule: "states are choice points (and ends) of executions, transitions task steps of the real network code, traces complete executions (one per segmentation, length or truncation) whose deliveries are compared with what was sent",
        run,
    })
}
