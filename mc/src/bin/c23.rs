//! C23: collecting one message per party, barriers.
use mc::proto::*;
use mc::*;
use mcrt::{kind_mask, Cfg, Kind, Policy};
use scalable_mpc::protocol::network::{message_from_each_party, sync, Recipient, SendMessage};
use std::sync::{Arc, Mutex};

const SCHED: &[Kind] = &[Kind::Task, Kind::Select];

/// counts[p]: messages party p sends under the identifier (the first counts); noise[p]: messages
/// under other identifiers before each of them.
fn collect(cfg: Cfg, net: Net, counts: &[usize], noise: usize, direct: bool) -> (mcrt::Outcome, Result<(), String>) {
    let n = counts.len();
    let sent: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![false; n]));
    let cs = counts.to_vec();
    let run = parties(cfg, net, n, |p, net, _| {
        let (cs, sent) = (cs.clone(), sent.clone());
        async move {
            let id = vec![5u8];
            let mine = cs[p];
            let (net2, sent2) = (net.clone(), sent.clone());
            let sender = tokio::task::spawn(async move {
                for i in 0..mine {
                    for j in 0..noise {
                        net2.send(SendMessage { proto_id: [vec![5, 5], vec![], vec![6]][(i + j) % 3].clone(), to: Recipient::All, data: vec![99] });
                    }
                    sent2.lock().unwrap()[p] = true;
                    let data = if i == 0 && p == 1 { vec![] } else { vec![p as u8, i as u8] };
                    if direct {
                        for q in 0..n {
                            net2.send(SendMessage { proto_id: vec![5], to: Recipient::One(q as u16), data: data.clone() });
                        }
                    } else {
                        net2.send(SendMessage { proto_id: vec![5], to: Recipient::All, data });
                    }
                    tokio::task::yield_now().await;
                }
            });
            let got = message_from_each_party(id, &net, n).await;
            let early = sent.lock().unwrap().iter().any(|s| !*s);
            sender.await.unwrap();
            (got, early)
        }
    });
    let r = finished(&run.out).and_then(|_| {
        for (p, v) in run.vals.iter().enumerate() {
            let (got, early) = v.as_ref().unwrap();
            if *early {
                return Err(format!("party {p} has collected before every party sent"));
            }
            let want: Vec<Vec<u8>> = (0..n).map(|q| if q == 1 { vec![] } else { vec![q as u8, 0] }).collect();
            if *got != want {
                return Err(format!("party {p} collected {got:?}, first messages are {want:?} (counts {counts:?})"));
            }
        }
        Ok(())
    });
    (run.out, r)
}

/// Rounds of barriers; `same`: one identifier for all rounds, with an exchange between them.
fn barriers(cfg: Cfg, net: Net, n: usize, rounds: usize, same: bool) -> (mcrt::Outcome, Result<(), String>) {
    let log: Arc<Mutex<Vec<(bool, usize, usize)>>> = Arc::new(Mutex::new(vec![]));
    let run = parties(cfg, net, n, |p, net, _| {
        let log = log.clone();
        async move {
            for r in 0..rounds {
                // Parties take different time to get here.
                for _ in 0..(p + r) % 3 {
                    tokio::task::yield_now().await;
                }
                log.lock().unwrap().push((true, p, r));
                let id = if same { vec![1u8] } else { vec![1u8, r as u8] };
                sync(id, &net, n).await;
                log.lock().unwrap().push((false, p, r));
                if same {
                    let x = vec![2u8, r as u8];
                    net.send(SendMessage { proto_id: x.clone(), to: Recipient::All, data: vec![p as u8, (p >> 8) as u8, r as u8] });
                    let got = message_from_each_party(x, &net, n).await;
                    for (q, d) in got.iter().enumerate() {
                        if *d != vec![q as u8, (q >> 8) as u8, r as u8] {
                            log.lock().unwrap().push((false, 1000 + q, r));
                        }
                    }
                }
            }
        }
    });
    let r = finished(&run.out).and_then(|_| {
        let mut reached = vec![0usize; rounds];
        let mut passed = vec![0usize; rounds];
        for (arrive, p, r) in log.lock().unwrap().iter() {
            if *p >= 1000 {
                return Err(format!("exchange of round {r}: wrong message from party {}", p - 1000));
            }
            if *arrive {
                reached[*r] += 1;
            } else {
                if reached[*r] < n {
                    return Err(format!("party {p} passes round {r} when {} of {n} parties have reached it", reached[*r]));
                }
                passed[*r] += 1;
            }
        }
        if passed.iter().any(|x| *x != n) {
            return Err(format!("parties past each round: {passed:?}"));
        }
        Ok(())
    });
    (run.out, r)
}

fn run(ctx: &Ctx) {
    // (n, max copies, deviations, cap)
    for net in [Net::Tcp, Net::Local] {
        let mut items: Vec<(Vec<usize>, usize, bool, String, Policy, usize)> = vec![];
        let plan: &[(usize, u32, usize)] = if ctx.quick() { &[(1, 3, 3), (2, 3, 2), (3, 2, 1), (4, 2, 0)] } else { &[(1, 3, 4), (2, 3, 3), (3, 3, 2), (4, 2, 1), (6, 2, 0)] };
        for &(n, c, dev) in plan {
            all_vecs(c, n, |v| {
                for noise in 0..2 {
                    for direct in [false, true] {
                        for (pn, pol) in policies(n) {
                            items.push((v.iter().map(|x| *x as usize + 1).collect(), noise, direct, pn, pol, dev));
                        }
                    }
                }
                true
            });
        }
        ctx.count("collections", items.len() as u64);
        for (how, kinds) in [("", SCHED), (":hold", &[Kind::Yield])] {
            explore_many(
                ctx,
                &items,
                |x| format!("collect:{net:?}:{:?}:{}:{}:{}{how}", x.0, x.1, x.2, x.3),
                |x| (Cfg { policy: x.4.clone(), ..Cfg::default() }, Bounds { kinds: kind_mask(kinds), max_dev: x.5, max_execs: ctx.pick(3_000, 30_000) }),
                |cfg, x| collect(cfg, net, &x.0, x.1, x.2),
            );
        }
        let plan: &[(usize, usize, usize, u64)] = if ctx.quick() {
            &[(1, 3, 3, 20_000), (2, 1, 4, 20_000), (2, 3, 2, 20_000), (3, 1, 2, 20_000), (3, 3, 1, 20_000), (4, 2, 1, 20_000)]
        } else {
            &[(1, 3, 6, 200_000), (2, 1, 6, 300_000), (2, 3, 3, 200_000), (3, 1, 3, 200_000), (3, 3, 2, 200_000), (4, 2, 2, 200_000), (6, 4, 1, 50_000)]
        };
        for &(n, rounds, dev, cap) in plan {
            for same in [false, true] {
                ctx.sample(format!("{net:?}, {n} parties, {rounds} barriers, same identifier {same}: {dev} deviations from arrival order, one less from each of {} other base schedules", policies(n).len() - 1));
                for (pn, pol) in policies(n) {
                    let cfg = Cfg { policy: pol, ..Cfg::default() };
                    let dev = if pn == "fifo" { dev } else { dev - 1 };
                    for (how, kinds) in [("", SCHED), (":hold", &[Kind::Yield])] {
                        explore(ctx, &format!("barrier:{net:?}:{n}:{rounds}:{same}:{pn}{how}"), &cfg, &Bounds { kinds: kind_mask(kinds), max_dev: dev, max_execs: cap }, |cfg| barriers(cfg, net, n, rounds, same));
                    }
                }
            }
        }
    }
    for net in [Net::Local, Net::Tcp] {
        for n in ctx.pick(&[257usize][..], &[255, 256, 257, 258, 300][..]) {
            if net == Net::Tcp && ctx.quick() {
                continue;
            }
            run_once(ctx, &format!("crowd:{net:?}:{n}"), || barriers(Cfg { max_steps: 200_000_000, ..Cfg::default() }, net, *n, 1, true));
        }
    }
    ctx.assume("rounds under one identifier are separated by an exchange in which every party hears from every party");
}

fn main() {
    mc::main(Spec {
        id: "C23",
        level: "model_checking",
        rule: "states are choice points (and ends) of explored executions, transitions task steps of the real code, traces complete executions whose event order is monitored",
        run,
    })
}
