//! C24: traffic statistics.
use mc::proto::*;
use mc::script::*;
use mc::*;
use mcrt::{kind_mask, Cfg, IoChunk, Kind, Policy};

type Tot = (u64, u64);

fn add(a: &mut Tot, m: &Msg) {
    a.0 += m.data.len() as u64;
    a.1 += (m.data.len() + m.id.len()) as u64;
}

/// A reading lies between what the party's receivers had been handed when it began and what had
/// been sent to the party when it ended; when all is quiet it equals everything sent.
fn judge_stats(n: usize, msgs: &[Msg], pl: &Played) -> Result<(), String> {
    judge_delivery(n, msgs, pl)?;
    let mut sent = vec![vec![(0u64, 0u64); n]; n]; // [party][sender]
    let mut got = vec![vec![(0u64, 0u64); n]; n];
    let mut last = vec![vec![(0u64, 0u64); n]; n];
    let mut before: Vec<(Vec<Vec<Tot>>, Vec<Vec<Tot>>)> = vec![];
    for e in &pl.log {
        before.push((got.clone(), last.clone()));
        match e {
            Ev::Sent(i) => {
                let m = &msgs[*i];
                for p in 0..n {
                    if m.reaches(p) {
                        add(&mut sent[p][m.from], m);
                    }
                }
            }
            Ev::Got { party, from, id, data, .. } => add(&mut got[*party][*from], &Msg { from: *from, to: None, id: id.clone(), data: data.clone() }),
            Ev::Stat { party, since, per, total } => {
                let (had, seen) = before[*since].clone();
                let s: Tot = per.iter().fold((0, 0), |a, x| (a.0 + x.0, a.1 + x.1));
                // The single readings and the total are taken one after the other.
                if total.0 < s.0 || total.1 < s.1 {
                    return Err(format!("party {party}: total {total:?} is less than the sum over senders {s:?}"));
                }
                for f in 0..n {
                    let (x, lo, hi) = (per[f], had[*party][f], sent[*party][f]);
                    if x.0 < lo.0 || x.1 < lo.1 {
                        return Err(format!("party {party}, sender {f}: reading {x:?} after receiving {lo:?} (payload, payload and identifier bytes)"));
                    }
                    if x.0 > hi.0 || x.1 > hi.1 {
                        return Err(format!("party {party}, sender {f}: reading {x:?} with only {hi:?} sent"));
                    }
                    if x.0 < seen[*party][f].0 || x.1 < seen[*party][f].1 {
                        return Err(format!("party {party}, sender {f}: reading falls from {:?} to {x:?}", seen[*party][f]));
                    }
                    let l = &mut last[*party][f];
                    *l = (l.0.max(x.0), l.1.max(x.1));
                }
            }
        }
    }
    for p in 0..n {
        let (per, total) = &pl.stats[p];
        if *per != sent[p] {
            return Err(format!("party {p}: final reading {per:?}, received per sender {:?} (payload, payload and identifier bytes)", sent[p]));
        }
        let s: Tot = sent[p].iter().fold((0, 0), |a, x| (a.0 + x.0, a.1 + x.1));
        if *total != s {
            return Err(format!("party {p}: final total {total:?}, received {s:?}"));
        }
    }
    Ok(())
}

fn name(s: &[Msg]) -> String {
    s.iter().map(|m| m.short()).collect::<Vec<_>>().join(",")
}

fn family(ctx: &Ctx, net: Net, n: usize, k: usize, ids: &[Vec<u8>], asks: &[Ask], pols: &[(String, Policy)], dev: usize, execs: u64) {
    let list = scripts(n, k, ids);
    ctx.sample(format!("{net:?}, {n} parties: all {} histories of {k} messages, a reading after every receipt and at the end, {} base schedules, {dev} deviations", list.len(), pols.len()));
    ctx.count("histories", list.len() as u64);
    let items: Vec<(usize, usize, usize)> = (0..list.len()).flat_map(|i| (0..asks.len()).flat_map(move |a| (0..pols.len()).map(move |p| (i, a, p)))).collect();
    let hold: &[Kind] = &[Kind::Yield];
    for (how, kinds) in [("", &[Kind::Task, Kind::Select][..]), (":hold", hold)] {
        explore_many(
            ctx,
            &items,
            |&(i, a, p)| format!("{net:?}:{n}:{}:{:?}:{}{how}", name(&list[i]), asks[a], pols[p].0),
            |&(_, _, p)| (Cfg { policy: pols[p].1.clone(), ..Cfg::default() }, Bounds { kinds: kind_mask(kinds), max_dev: dev, max_execs: execs }),
            |cfg, &(i, a, _)| {
                let pl = play(cfg, net, n, &list[i], &[asks[a]], false, true);
                let r = judge_stats(n, &list[i], &pl);
                (pl.out, r)
            },
        );
    }
}

/// Larger histories: many sizes, several parties, reads in pieces.
fn sizes(ctx: &Ctx) {
    let mut items = vec![];
    for net in [Net::Tcp, Net::Local] {
        for n in [1usize, 2, 3, 4, 7] {
            for (ci, chunk) in [IoChunk::Full, IoChunk::Max(1), IoChunk::Max(100)].into_iter().enumerate() {
                for step in [1usize, 63, 300, 20_000] {
                    items.push((net, n, ci, chunk, step));
                }
            }
        }
    }
    explore_many(
        ctx,
        &items,
        |x| format!("sizes:{:?}:{}:{}:{}", x.0, x.1, x.2, x.4),
        |x| (Cfg { io_chunk: x.3, ..Cfg::default() }, Bounds { kinds: 0, max_dev: 0, max_execs: 1 }),
        |cfg, x| {
            let n = x.1;
            let mut v = vec![];
            for from in 0..n {
                for i in 0..6 {
                    let to = if i % 3 == 0 { None } else { Some((from + i) % n) };
                    v.push(Msg { from, to, id: vec![from as u8; [0, 1, 3, 255][(i + from) % 4]], data: vec![i as u8; (i + 7 * from) * x.4 % 200_000] });
                }
            }
            let pl = play(cfg, x.0, n, &v, &[Ask::Turns], false, true);
            let r = judge_stats(n, &v, &pl);
            (pl.out, r)
        },
    );
}

fn run(ctx: &Ctx) {
    let fifo = vec![("fifo".to_string(), Policy::Fifo)];
    let ids: Vec<Vec<u8>> = vec![vec![0, 0, 0], vec![1, 2, 3, 4, 5, 6, 7, 8]];
    use Ask::*;
    for net in [Net::Tcp, Net::Local] {
        family(ctx, net, 2, 1, &ids, &[Parallel], &fifo, 3, ctx.pick(10_000, 200_000));
        family(ctx, net, 2, 2, &ids, &[Parallel, Backward], &policies(2), 1, 20_000);
        family(ctx, net, 2, 2, &ids, &[Parallel], &fifo, 2, ctx.pick(4_000, 100_000));
        family(ctx, net, 2, 3, &ids, &[Parallel, Backward], &fifo, ctx.pick(0, 1), 20_000);
        family(ctx, net, 3, 2, &ids[..1], &[Parallel], &policies(3), 1, ctx.pick(300, 20_000));
        family(ctx, net, 3, 3, &ids[..1], &[Parallel], &fifo, ctx.pick(0, 1), 20_000);
    }
    sizes(ctx);
    for net in [Net::Tcp, Net::Local] {
        for n in ctx.pick(&[258usize][..], &[255, 256, 257, 258, 300][..]) {
            run_once(ctx, &format!("crowd:{net:?}:{n}"), || {
                let (out, msgs, v) = crowd(Cfg { max_steps: 200_000_000, ..Cfg::default() }, net, *n);
                let r = finished(&out).and_then(|_| {
                    for (p, x) in v.iter().enumerate() {
                        for (s, read) in x.as_ref().unwrap().1.iter().enumerate() {
                            let mut want = (0, 0);
                            for m in msgs.iter().filter(|m| m.from == s && m.reaches(p)) {
                                add(&mut want, m);
                            }
                            if *read != want {
                                return Err(format!("party {p} of {n} reads {read:?} for sender {s}, received {want:?}"));
                            }
                        }
                    }
                    Ok(())
                });
                (out, r)
            });
        }
    }
}

fn main() {
    mc::main(Spec {
        id: "C24",
        level: "model_checking",
        rule: "states are choice points (and ends) of explored executions, transitions task steps of the real network code, traces complete executions whose readings are compared with the message history",
        run,
    })
}
