//! C20: delivery.
use mc::proto::*;
use mc::script::*;
use mc::*;
use mcrt::{kind_mask, Cfg, Kind, Policy};

const SCHED: &[Kind] = &[Kind::Task, Kind::Select];

fn ids() -> Vec<Vec<u8>> {
    vec![vec![], vec![0], vec![0, 0], vec![1]]
}

fn name(s: &[Msg]) -> String {
    s.iter().map(|m| m.short()).collect::<Vec<_>>().join(",")
}

fn family(ctx: &Ctx, net: Net, n: usize, k: usize, nid: usize, asks: &[Ask], pols: &[(String, Policy)], dev: usize, execs: u64) {
    let list = scripts(n, k, &ids()[..nid]);
    ctx.sample(format!("{net:?}, {n} parties: all {} scripts of {k} messages over {nid} identifiers, {} ways of asking, {} base schedules, {dev} deviations", list.len(), asks.len(), pols.len()));
    ctx.count("scripts", list.len() as u64);
    let items: Vec<(usize, usize, usize)> = (0..list.len()).flat_map(|i| (0..asks.len()).flat_map(move |a| (0..pols.len()).map(move |p| (i, a, p)))).collect();
    for (how, kinds) in [("", SCHED), (":hold", &[Kind::Yield])] {
        explore_many(
            ctx,
            &items,
            |&(i, a, p)| format!("{net:?}:{n}:{}:{:?}:{}{how}", name(&list[i]), asks[a], pols[p].0),
            |&(_, _, p)| (Cfg { policy: pols[p].1.clone(), ..Cfg::default() }, Bounds { kinds: kind_mask(kinds), max_dev: dev, max_execs: execs }),
            |cfg, &(i, a, _)| {
                let pl = play(cfg, net, n, &list[i], &[asks[a]], true, false);
                let r = judge_delivery(n, &list[i], &pl);
                (pl.out, r)
            },
        );
    }
}

/// Longer bursts: order and content of many messages, sent before or after they are asked for.
fn bursts(ctx: &Ctx) {
    let mut list: Vec<(Net, usize, Vec<Msg>)> = vec![];
    for net in [Net::Tcp, Net::Local] {
        for n in [1usize, 2, 3, 5] {
            for k in [7usize, 40] {
                let mut v = vec![];
                for i in 0..k {
                    for from in 0..n {
                        let to = match (i + from) % 3 {
                            0 => None,
                            1 => Some(i % n),
                            _ => Some((from + 1) % n),
                        };
                        let idl = [0, 1, 2, 255][(i / 2 + from) % 4];
                        v.push(Msg { from, to, id: vec![7; idl], data: (0..(i * 37) % 300).map(|j| (i + from * 50 + j) as u8).collect() });
                    }
                }
                list.push((net, n, v));
            }
        }
    }
    for (j, (net, n, v)) in list.iter().enumerate() {
        for ask in [Ask::Parallel, Ask::Forward, Ask::Backward, Ask::Turns] {
            for (pn, pol) in policies(*n) {
                let cfg = Cfg { policy: pol, ..Cfg::default() };
                explore(ctx, &format!("burst:{j}:{ask:?}:{pn}"), &cfg, &Bounds { kinds: kind_mask(SCHED), max_dev: 1, max_execs: ctx.pick(40, 2000) }, |cfg| {
                    let pl = play(cfg, *net, *n, v, &[ask], true, false);
                    let r = judge_delivery(*n, v, &pl);
                    (pl.out, r)
                });
            }
        }
    }
}

fn run(ctx: &Ctx) {
    let fifo = vec![("fifo".to_string(), Policy::Fifo)];
    let all = |n: usize| policies(n);
    use Ask::*;
    for net in [Net::Tcp, Net::Local] {
        // One message: a large part of the whole schedule space.
        family(ctx, net, 2, 1, 1, &[Parallel], &fifo, ctx.pick(5, 7), ctx.pick(20_000, 400_000));
        family(ctx, net, 1, 1, 2, &[Parallel], &fifo, 20, ctx.pick(20_000, 400_000));
        family(ctx, net, 1, 2, 2, &[Parallel, Backward], &fifo, 20, ctx.pick(5_000, 100_000));
        family(ctx, net, 2, 2, 3, &[Parallel, Backward], &fifo, 2, ctx.pick(4_000, 100_000));
        family(ctx, net, 2, 2, 3, &[Parallel, Backward], &all(2), 1, 20_000);
        family(ctx, net, 2, 3, 2, &[Parallel, Forward, Backward, Turns], &fifo, 1, 20_000);
        family(ctx, net, 3, 2, 2, &[Parallel, Backward], &all(3), ctx.pick(0, 1), 20_000);
        if !ctx.quick() {
            family(ctx, net, 2, 3, 3, &[Parallel, Backward], &all(2), 1, 20_000);
            family(ctx, net, 2, 3, 2, &[Parallel], &fifo, 2, 20_000);
            family(ctx, net, 3, 3, 1, &[Parallel], &fifo, 1, 20_000);
            family(ctx, net, 2, 4, 2, &[Parallel, Turns], &fifo, 0, 20_000);
        }
    }
    bursts(ctx);
    for net in [Net::Tcp, Net::Local] {
        for n in ctx.pick(&[258usize][..], &[255, 256, 257, 258, 300][..]) {
            run_once(ctx, &format!("crowd:{net:?}:{n}"), || {
                let (out, msgs, v) = crowd(Cfg { max_steps: 200_000_000, ..Cfg::default() }, net, *n);
                let r = finished(&out).and_then(|_| {
                    for (p, x) in v.iter().enumerate() {
                        for s in 0..*n {
                            let got: Vec<&Vec<u8>> = x.as_ref().unwrap().0.iter().filter(|m| m.0 == s).map(|m| &m.1).collect();
                            let want: Vec<&Vec<u8>> = msgs.iter().filter(|m| m.from == s && m.reaches(p)).map(|m| &m.data).collect();
                            if got != want {
                                return Err(format!("party {p} of {n} receives {} messages from {s}, {} were sent (or others)", got.len(), want.len()));
                            }
                        }
                    }
                    Ok(())
                });
                (out, r)
            });
        }
    }
    ctx.assume("one request per party and identifier is outstanding at a time");
}

fn main() {
    mc::main(Spec {
        id: "C20",
        level: "model_checking",
        rule: "states are choice points (and ends) of explored executions, transitions task steps of the real network code, traces complete executions whose deliveries are compared with the script",
        run,
    })
}
