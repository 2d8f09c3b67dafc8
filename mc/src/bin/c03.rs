//! C03: multiplication and degree reduction.
use mc::proto::*;
use mc::*;
use mcrt::{kind_mask, Cfg, Kind, Policy, RngMode};
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::core::{mult, reduce_degree};
use scalable_mpc::sharing::PackedSharing;
use std::sync::Arc;

/// One batch: per item secrets x, y, mask secrets and filler.
#[derive(Clone)]
struct Item {
    x: Vec<u32>,
    y: Vec<u32>,
    r: Vec<u32>,
    seed: u64,
}

struct Env<const W: u8> {
    p: Par,
    rf: Rf,
    low: Dealer,
    prod: Dealer,
    high: Dealer,
    open: Opener,
    ctxs: Arc<Vec<scalable_mpc::protocol::MPCContext<W>>>,
}

impl<const W: u8> Env<W> {
    fn new(p: Par) -> Self {
        GF::<W>::init().unwrap();
        let rf = Rf::of::<W>();
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        Env {
            p,
            rf,
            low: Dealer::new::<W>(&rf, p.n, p.d(), &pos),
            prod: Dealer::new::<W>(&rf, p.n, 2 * p.d(), &pos),
            high: Dealer::new::<W>(&rf, p.n, p.n - 1, &pos),
            open: Opener::new::<W>(&rf, p.n, p.d(), &pos),
            ctxs: Arc::new(contexts::<W>(&p)),
        }
    }

    /// `reduce`: 0 multiplication, 1 reduction of a sharing of degree n-1, 2 of degree 2d, 3 of degree d.
    fn run(&self, cfg: Cfg, net: Net, batch: &[Item], reduce: u8, leader: Option<u16>, ids: &[Vec<u8>]) -> (mcrt::Outcome, Result<(), String>) {
        let (p, rf) = (self.p, self.rf);
        let mut xs = vec![];
        let mut ys = vec![];
        let mut rs = vec![];
        let mut zs = vec![];
        for it in batch {
            let mut f = Fill(it.seed.wrapping_mul(77777) + 5, W as u32);
            let dl = match reduce {
                1 => &self.high,
                2 => &self.prod,
                _ => &self.low,
            };
            xs.push(dl.share(&it.x, &f.vec(dl.free())));
            ys.push(self.low.share(&it.y, &f.vec(self.low.free())));
            rs.push(self.low.share(&it.r, &f.vec(self.low.free())));
            zs.push(self.high.share(&vec![0; p.l], &f.vec(self.high.free())));
        }
        // Several instances at once when several identifiers are given: the same batch for each.
        let ctxs = self.ctxs.clone();
        let res = parties(cfg, net, p.n, |i, net, _| {
            let (x, y, r, z) = (party_col::<W>(&xs, i), party_col::<W>(&ys, i), party_col::<W>(&rs, i), party_col::<W>(&zs, i));
            let c = ctxs[i].clone();
            let ids = ids.to_vec();
            async move {
                let mut hs = vec![];
                for id in ids {
                    let (x, y, r, z, c, net) = (x.clone(), y.clone(), r.clone(), z.clone(), c.clone(), net.clone());
                    hs.push(tokio::task::spawn(async move {
                        if reduce > 0 {
                            reduce_degree(id, x, r, z, leader, c, net).await
                        } else {
                            mult(id, x, y, r, z, leader, c, net).await
                        }
                    }));
                }
                let mut out = vec![];
                for h in hs {
                    out.push(h.await.unwrap().to_vec());
                }
                out
            }
        });
        let verdict = finished(&res.out).and_then(|_| {
            let outs: Vec<Vec<Vec<GF<W>>>> = res.vals.into_iter().map(|v| v.unwrap()).collect();
            for inst in 0..ids.len() {
                let o: Vec<Vec<GF<W>>> = outs.iter().map(|x| x[inst].clone()).collect();
                if let Some(v) = o.iter().find(|v| v.len() != batch.len()) {
                    return Err(format!("a batch of {} gives {} shares", batch.len(), v.len()));
                }
                for (k, it) in batch.iter().enumerate() {
                    let want: Vec<u32> = if reduce > 0 { it.x.clone() } else { it.x.iter().zip(&it.y).map(|(a, b)| rf.mul(*a, *b)).collect() };
                    let what = format!("{} item {k} of {}, x {:?}, y {:?}, mask {:?}, leader {leader:?}", p.name(), batch.len(), it.x, it.y, it.r);
                    let got = self.open.open(&sharing_of(&o, k)).map_err(|e| format!("{what}: {e}"))?;
                    if got != want {
                        return Err(format!("{what}: result {got:?}, expected {want:?}"));
                    }
                }
            }
            Ok(())
        });
        (res.out, verdict)
    }
}

fn inputs<const W: u8>(ctx: &Ctx, p: Par, cap: u64) {
    let env = Env::<W>::new(p);
    let q = 1u32 << W;
    // All secrets (x, y, mask), if few enough, else unit vectors and pairs; batched by 16.
    let mut items: Vec<Item> = vec![];
    let k = 3 * p.l;
    let mut add = |v: &[u32]| {
        let s = items.len() as u64;
        items.push(Item { x: v[..p.l].to_vec(), y: v[p.l..2 * p.l].to_vec(), r: v[2 * p.l..].to_vec(), seed: s });
        true
    };
    let all = (q as u64).checked_pow(k as u32).is_some_and(|x| x <= cap);
    if all {
        all_vecs(q, k, &mut add);
    } else {
        // all x, y with one fixed mask if possible
        let k2 = 2 * p.l;
        if (q as u64).checked_pow(k2 as u32).is_some_and(|x| x <= cap) {
            all_vecs(q, k2, |v| {
                let mut w = v.to_vec();
                w.extend((0..p.l as u32).map(|i| (i * 3 + 1) % q));
                add(&w)
            });
        } else {
            for a in 0..k {
                for b in 0..=a {
                    for c in [1u32, 2, q - 1] {
                        for d in [1u32, q / 2, q - 2] {
                            let mut v: Vec<u32> = vec![0; k];
                            v[b] = d;
                            v[a] = c;
                            add(&v);
                        }
                    }
                }
            }
        }
    }
    ctx.sample(format!("width {W}, {}: {} secret choices{}", p.name(), items.len(), if all { " (all)" } else { "" }));
    // Sharing randomness of inputs: several fillers per secret come from the seed; leaders rotate.
    let chunks: Vec<(usize, &[Item])> = items.chunks(16).enumerate().collect();
    ctx.par_cases(&chunks, |(i, _)| format!("secrets:{W}:{}:{i}", p.name()), |(i, batch)| {
        for reduce in 0..4u8 {
            let leader = match (i + reduce as usize) % (p.n + 1) {
                0 => None,
                k => Some(k as u16 - 1),
            };
            let cfg = Cfg { rng: RngMode::Overlay { w: W as u32, seed: *i as u64, tape: Default::default() }, rayon_threads: 1 + i % 4, join_order: [0, 1, 3][i % 3], ..Cfg::default() };
            let net = if i % 4 == 0 { Net::Tcp } else { Net::Local };
            let (o, r) = env.run(cfg, net, batch, reduce, leader, &[vec![*i as u8, reduce]]);
            count_outcome(ctx, &o);
            ctx.count("products", batch.len() as u64);
            r?;
        }
        Ok(())
    });
}

/// All randomness of inputs, masks and leader for one pair of secrets in GF(4).
fn randomness(ctx: &Ctx) {
    const W: u8 = 2;
    let p = Par::new(3, 1, 1);
    let env = Env::<W>::new(p);
    let rf = env.rf;
    // free values: x 1, y 1, r 1+secret, z 2; leader draw 1
    let mut tapes = vec![];
    all_vecs(4, 7, |v| {
        tapes.push(v.to_vec());
        true
    });
    let chunks: Vec<(usize, &[Vec<u32>])> = tapes.chunks(ctx.pick(64, 16)).enumerate().collect();
    ctx.par_cases(&chunks, |(i, _)| format!("randomness:{i}"), |(i, ts)| {
        for leader in 0..3u16 {
            let (x, y) = ((*i as u32) % 4, (*i as u32 / 4) % 4);
            let mk = |f: &dyn Fn(&[u32]) -> Vec<u32>| -> Vec<Vec<u32>> { ts.iter().map(|t| f(t)).collect() };
            let xs = mk(&|t| env.low.share(&[x], &t[0..1]));
            let ys = mk(&|t| env.low.share(&[y], &t[1..2]));
            let rs = mk(&|t| env.low.share(&t[2..3], &t[3..4]));
            let zs = mk(&|t| env.high.share(&[0], &t[4..6]));
            let tape = ts.iter().enumerate().map(|(k, t)| ((leader as u32, k as u32), t[6])).collect();
            let cfg = Cfg { rng: RngMode::Tape { w: 2, tape }, ..Cfg::default() };
            let ctxs = env.ctxs.clone();
            let res = parties(cfg, Net::Local, 3, |i, net, _| {
                let (a, b, r, z) = (party_col::<W>(&xs, i), party_col::<W>(&ys, i), party_col::<W>(&rs, i), party_col::<W>(&zs, i));
                let c = ctxs[i].clone();
                async move { mult(vec![1], a, b, r, z, Some(leader), c, net).await.to_vec() }
            });
            count_outcome(ctx, &res.out);
            finished(&res.out)?;
            let o: Vec<Vec<GF<W>>> = res.vals.into_iter().map(|v| v.unwrap()).collect();
            for k in 0..ts.len() {
                let got = env.open.open(&sharing_of(&o, k))?;
                if got != [rf.mul(x, y)] {
                    return Err(format!("{x}*{y} with randomness {:?}, leader {leader}: {got:?}", ts[k]));
                }
            }
            ctx.count("products", ts.len() as u64);
        }
        Ok(())
    });
    ctx.sample(format!("all {} choices of input, mask, zero and leader randomness over 4 elements", tapes.len()));
}

fn schedules<const W: u8>(ctx: &Ctx, p: Par, net: Net, dev: usize, execs: u64, batch: usize, ids: Vec<Vec<u8>>) {
    let env = Env::<W>::new(p);
    let mut f = Fill(9, W as u32);
    let items: Vec<Item> = (0..batch).map(|s| Item { x: f.vec(p.l), y: f.vec(p.l), r: f.vec(p.l), seed: s as u64 }).collect();
    for (pn, pol) in policies(p.n) {
        for leader in [None, Some(0u16), Some(p.n as u16 - 1)] {
            for reduce in 0..2u8 {
                if reduce == 1 && leader.is_none() {
                    continue;
                }
                let dev = if pn == "fifo" { dev } else { dev.saturating_sub(1) };
                let cfg = Cfg { policy: pol.clone(), rng: RngMode::Overlay { w: W as u32, seed: 3, tape: Default::default() }, ..Cfg::default() };
                explore(
                    ctx,
                    &format!("sched:{W}:{}:{net:?}:{}:{pn}:{leader:?}:{reduce}:{batch}", p.name(), ids.len()),
                    &cfg,
                    &Bounds { kinds: kind_mask(&[Kind::Task, Kind::Select]), max_dev: dev, max_execs: execs },
                    |cfg| env.run(cfg, net, &items, reduce, leader, &ids),
                );
            }
        }
    }
}

/// Batch sizes, including none, and every leader.
fn batches<const W: u8>(ctx: &Ctx, p: Par, sizes: &[usize]) {
    let env = Env::<W>::new(p);
    let mut list = vec![];
    for &b in sizes {
        for leader in std::iter::once(None).chain((0..p.n as u16).map(Some)) {
            for reduce in 0..4u8 {
                list.push((b, leader, reduce));
            }
        }
    }
    ctx.par_cases(&list, |x| format!("batch:{W}:{}:{x:?}", p.name()).replace(' ', ""), |&(b, leader, reduce)| {
        let mut f = Fill(b as u64 + 1, W as u32);
        let items: Vec<Item> = (0..b).map(|s| Item { x: f.vec(p.l), y: f.vec(p.l), r: f.vec(p.l), seed: s as u64 }).collect();
        for (net, pol) in [(Net::Tcp, Policy::Fifo), (Net::Local, Policy::Lifo), (Net::Tcp, Policy::GroupDescending)] {
            let cfg = Cfg { policy: pol, ..Cfg::default() };
            // identifiers of various lengths derive various leaders
            for id in [vec![], vec![0], vec![7, 1], vec![255; 9]] {
                let (o, r) = env.run(cfg.clone(), net, &items, reduce, leader, &[id]);
                count_outcome(ctx, &o);
                ctx.count("products", b as u64);
                r?;
                if leader.is_some() {
                    break;
                }
            }
        }
        Ok(())
    });
}

/// More parties than fit in a byte, prescribed leaders from both ends and derived leaders.
fn large<const W: u8>(ctx: &Ctx, p: Par) {
    let env = Env::<W>::new(p);
    let mut list: Vec<(Option<u16>, u8, Vec<Vec<u8>>)> = [0, 1, p.n / 2, 254, 255, 256, p.n - 1].into_iter().filter(|x| *x < p.n).map(|x| (Some(x as u16), (x % 3) as u8, vec![vec![1]])).collect();
    list.push((None, 0, (0..40u8).map(|i| vec![i]).collect()));
    list.push((None, 1, (0..40u8).map(|i| vec![i, i]).collect()));
    ctx.par_cases(&list, |x| format!("large:{W}:{}:{:?}:{}", p.name(), x.0, x.1), |(leader, reduce, ids)| {
        let mut f = Fill(p.n as u64, W as u32);
        let items = [Item { x: f.vec(p.l), y: f.vec(p.l), r: f.vec(p.l), seed: 1 }];
        let (o, r) = env.run(Cfg::default(), Net::Local, &items, *reduce, *leader, ids);
        count_outcome(ctx, &o);
        ctx.count("products", ids.len() as u64);
        r
    });
}

fn run(ctx: &Ctx) {
    randomness(ctx);
    inputs::<2>(ctx, Par::new(3, 1, 1), 1 << 12);
    inputs::<3>(ctx, Par::new(3, 1, 1), 1 << 12);
    inputs::<3>(ctx, Par::new(5, 1, 2), 1 << 12);
    inputs::<4>(ctx, Par::new(5, 2, 1), 1 << 12);
    inputs::<4>(ctx, Par::new(7, 1, 3), 1 << 12);
    inputs::<4>(ctx, Par::new(7, 2, 2), ctx.pick(1 << 12, 1 << 16));
    batches::<18>(ctx, Par::new(3, 1, 1), &[0, 1, 2, 3, 17]);
    batches::<18>(ctx, Par::new(7, 1, 3), &[0, 1, 5]);
    batches::<18>(ctx, Par::new(16, 5, 3), &[1, 4]);
    batches::<18>(ctx, Par::new(8, 2, 2), &[2]); // more parties than the degrees need
    large::<18>(ctx, Par::new(300, 70, 70));
    if !ctx.quick() {
        inputs::<5>(ctx, Par::new(9, 2, 3), 1 << 14);
        inputs::<5>(ctx, Par::new(9, 1, 4), 1 << 14);
        batches::<18>(ctx, Par::new(33, 8, 9), &[1, 3]);
        batches::<18>(ctx, Par::new(9, 1, 3), &[0, 1, 2, 3, 4, 5, 9, 33, 200]);
    }
    schedules::<3>(ctx, Par::new(3, 1, 1), Net::Tcp, ctx.pick(2, 3), ctx.pick(30_000, 200_000), 1, vec![vec![5]]);
    schedules::<3>(ctx, Par::new(3, 1, 1), Net::Local, ctx.pick(2, 3), ctx.pick(30_000, 200_000), 2, vec![vec![5]]);
    schedules::<3>(ctx, Par::new(5, 1, 2), Net::Tcp, 1, ctx.pick(3_000, 50_000), 1, vec![vec![5]]);
    // two at once
    schedules::<3>(ctx, Par::new(3, 1, 1), Net::Tcp, 1, ctx.pick(3_000, 50_000), 2, vec![vec![5, 0], vec![5, 1]]);
    ctx.assume("input and mask sharings come from an independent dealer; where not all secrets are run, all pairs of unit vectors with several scalars stand for the rest by bilinearity");
}

fn main() {
    mc::main(Spec {
        id: "C03",
        level: "model_checking",
        rule: "states are choice points (and ends) of explored executions, transitions task steps of the real protocol code, traces complete executions judged by opening the outputs with reference arithmetic",
        run,
    })
}
