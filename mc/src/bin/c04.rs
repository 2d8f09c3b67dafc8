//! C04: sharing transformations.
use mc::proto::*;
use mc::*;
use mcrt::{kind_mask, Cfg, Kind, Policy, RngMode};
use scalable_mpc::math::galois::GF;
use scalable_mpc::math::Combination;
use scalable_mpc::protocol::core::{randtrans, trans, RandSharingTransform, SharingTransform};
use scalable_mpc::sharing::PackedSharing;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Tf {
    o: Vec<u32>,
    n: Vec<u32>,
    f: Vec<usize>,
}

struct Env<const W: u8> {
    p: Par,
    rf: Rf,
    high: Dealer,
    any: Dealer, // low degree, default positions
    ctxs: Arc<Vec<scalable_mpc::protocol::MPCContext<W>>>,
}

impl<const W: u8> Env<W> {
    fn new(p: Par) -> Self {
        GF::<W>::init().unwrap();
        let rf = Rf::of::<W>();
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        Env { p, rf, high: Dealer::new::<W>(&rf, p.n, p.n - 1, &pos), any: Dealer::new::<W>(&rf, p.n, p.d(), &pos), ctxs: Arc::new(contexts::<W>(&p)) }
    }

    /// The transformation with dealer-made masks: `xs` are the secrets of the batch.
    fn direct(&self, cfg: Cfg, net: Net, tf: &Tf, xs: &[Vec<u32>], deg: usize, leader: Option<u16>, seed: u64) -> (mcrt::Outcome, Result<(), String>) {
        let (p, rf) = (self.p, self.rf);
        let mut f = Fill(seed + 3, W as u32);
        let (mut x, mut r, mut rn) = (vec![], vec![], vec![]);
        for s in xs {
            let deg = deg.max(tf.o.len() - 1);
            let m = f.vec(tf.o.len());
            let fm: Vec<u32> = tf.f.iter().map(|i| m[*i]).collect();
            x.push(deal::<W>(&rf, p.n, deg, &tf.o, s, &f.vec(deg + 1 - tf.o.len())));
            rn.push(deal::<W>(&rf, p.n, p.n - 1, &tf.o, &m, &f.vec(p.n - tf.o.len())));
            r.push(deal::<W>(&rf, p.n, p.d(), &tf.n, &fm, &f.vec(p.d() + 1 - tf.n.len())));
        }
        let ctxs = self.ctxs.clone();
        let st = SharingTransform::new(gf::<W>(&tf.o), gf::<W>(&tf.n), Combination::new(tf.f.clone()));
        let res = parties(cfg, net, p.n, |i, net, _| {
            let (x, r, rn, c, st) = (party_col::<W>(&x, i), party_col::<W>(&r, i), party_col::<W>(&rn, i), ctxs[i].clone(), st.clone());
            async move { trans(vec![9, 9], x, r, rn, st, leader, c, net).await.to_vec() }
        });
        let verdict = finished(&res.out).and_then(|_| {
            let o: Vec<Vec<GF<W>>> = res.vals.into_iter().map(|v| v.unwrap()).collect();
            if o.iter().any(|v| v.len() != xs.len()) {
                return Err(format!("a batch of {} does not give as many shares", xs.len()));
            }
            for (k, s) in xs.iter().enumerate() {
                let want: Vec<u32> = tf.f.iter().map(|i| s[*i]).collect();
                let what = format!("{} {tf:?}, item {k} of {}, secrets {s:?}, degree {deg}, leader {leader:?}", p.name(), xs.len());
                let got = open::<W>(&rf, p.d(), &tf.n, &sharing_of(&o, k)).map_err(|e| format!("{what}: {e}"))?;
                if got != want {
                    return Err(format!("{what}: result {got:?}, expected {want:?}"));
                }
            }
            Ok(())
        });
        (res.out, verdict)
    }

    /// Preparation for several transformations, then all of them.
    fn prepared(&self, cfg: Cfg, net: Net, tfs: &[Tf], reps: usize, seed: u64, unit: Option<usize>) -> (mcrt::Outcome, Result<(), String>) {
        let (p, rf) = (self.p, self.rf);
        let mut f = Fill(seed + 11, W as u32);
        let nr = (p.n + p.t) * reps;
        let nz = 2 * p.n * reps;
        let rands: Vec<Vec<u32>> = (0..nr)
            .map(|i| {
                let s = match unit {
                    Some(u) => (0..p.l).map(|j| (u == i * p.l + j) as u32).collect(),
                    None => f.vec(p.l),
                };
                self.any.share(&s, &f.vec(self.any.free()))
            })
            .collect();
        let zeros: Vec<Vec<u32>> = (0..nz).map(|_| self.high.share(&vec![0; p.l], &f.vec(self.high.free()))).collect();
        // One sharing per transformation and repetition.
        let secrets: Vec<Vec<Vec<u32>>> = tfs.iter().map(|t| (0..reps).map(|_| f.vec(t.o.len())).collect()).collect();
        let x: Vec<Vec<Vec<u32>>> = tfs
            .iter()
            .zip(&secrets)
            .map(|(t, ss)| ss.iter().map(|s| { let d = p.d().max(t.o.len() - 1); deal::<W>(&rf, p.n, d, &t.o, s, &f.vec(d + 1 - t.o.len())) }).collect())
            .collect();
        let ctxs = self.ctxs.clone();
        let res = parties(cfg, net, p.n, |i, net, _| {
            let c = ctxs[i].clone();
            let (os, ns, fs): (Vec<_>, Vec<_>, Vec<_>) = (
                tfs.iter().map(|t| gf::<W>(&t.o)).collect(),
                tfs.iter().map(|t| gf::<W>(&t.n)).collect(),
                tfs.iter().map(|t| Combination::new(t.f.clone())).collect(),
            );
            let rt = RandSharingTransform::new(&os, &ns, &fs, &c);
            let sts: Vec<_> = (0..tfs.len()).map(|k| SharingTransform::new(os[k].clone(), ns[k].clone(), Combination::new(tfs[k].f.clone()))).collect();
            let r: std::collections::VecDeque<GF<W>> = party_col::<W>(&rands, i).to_vec().into();
            let z: std::collections::VecDeque<GF<W>> = party_col::<W>(&zeros, i).to_vec().into();
            let mine: Vec<_> = x.iter().map(|t| party_col::<W>(t, i)).collect();
            async move {
                let (a, b) = randtrans(vec![3], r, z, rt, c.clone(), net.clone()).await;
                let mut out: Vec<Vec<GF<W>>> = vec![];
                let mut pairs = vec![];
                let mut hs = vec![];
                for (k, st) in sts.into_iter().enumerate() {
                    let (ra, rb) = (a.row(k).to_owned(), b.row(k).to_owned());
                    pairs.push((ra.to_vec(), rb.to_vec()));
                    hs.push(tokio::task::spawn(trans(vec![4, k as u8], mine[k].clone(), ra, rb, st, Some((k % c.n) as u16), c.clone(), net.clone())));
                }
                for h in hs {
                    out.push(h.await.unwrap().to_vec());
                }
                (pairs, out)
            }
        });
        let verdict = finished(&res.out).and_then(|_| {
            let o: Vec<_> = res.vals.into_iter().map(|v| v.unwrap()).collect();
            for (k, t) in tfs.iter().enumerate() {
                for e in 0..reps {
                    let what = format!("{} transformations {tfs:?}, number {k}, repetition {e} of {reps}", p.name());
                    let r: Vec<u32> = o.iter().map(|x| u32::from(x.0[k].0[e])).collect();
                    let rn: Vec<u32> = o.iter().map(|x| u32::from(x.0[k].1[e])).collect();
                    let sn = open::<W>(&rf, p.n - 1, &t.o, &rn)?;
                    let s = open::<W>(&rf, p.d(), &t.n, &r).map_err(|e| format!("{what}: prepared sharing: {e}"))?;
                    let want: Vec<u32> = t.f.iter().map(|i| sn[*i]).collect();
                    if s != want {
                        return Err(format!("{what}: prepared pair holds {sn:?} and {s:?}, expected {want:?}"));
                    }
                    let out: Vec<u32> = o.iter().map(|x| u32::from(x.1[k][e])).collect();
                    let got = open::<W>(&rf, p.d(), &t.n, &out).map_err(|e| format!("{what}: {e}"))?;
                    let want: Vec<u32> = t.f.iter().map(|i| secrets[k][e][*i]).collect();
                    if got != want {
                        return Err(format!("{what}: secrets {:?} become {got:?}, expected {want:?}", secrets[k][e]));
                    }
                }
            }
            Ok(())
        });
        (res.out, verdict)
    }
}

/// Position lists of a given length: default, shifted, reversed, spread, at the top of the field.
fn lists(p: &Par, q: u32, len: usize) -> Vec<Vec<u32>> {
    let n = p.n as u32;
    let l = len as u32;
    let free = q - n;
    let mut v: Vec<Vec<u32>> = vec![(n..n + l).collect(), (n..n + l).rev().collect(), (q - l..q).collect(), (0..l).map(|i| n + (i * 2 + 1) % free).collect()];
    v.retain(|x| {
        let mut y = x.clone();
        y.sort();
        y.dedup();
        y.len() == len
    });
    v.sort();
    v.dedup();
    v
}

fn selections(ol: usize, nl: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    all_vecs(ol as u32, nl, |x| {
        v.push(x.iter().map(|i| *i as usize).collect());
        true
    });
    v
}

fn all_tfs(p: &Par, q: u32) -> Vec<Tf> {
    let mut out = vec![];
    for ol in 1..=p.l {
        for nl in 1..=p.l {
            for o in lists(p, q, ol) {
                for n in lists(p, q, nl) {
                    for f in selections(ol, nl) {
                        out.push(Tf { o: o.clone(), n: n.clone(), f });
                    }
                }
            }
        }
    }
    out
}

fn inputs<const W: u8>(ctx: &Ctx, p: Par) {
    let env = Env::<W>::new(p);
    let q = 1u32 << W;
    let tfs = all_tfs(&p, q);
    ctx.sample(format!("width {W}, {}: {} transformations (positions, selection), alone and in every batch filling", p.name(), tfs.len()));
    let idx: Vec<usize> = (0..tfs.len()).collect();
    ctx.par_cases(&idx, |i| format!("direct:{W}:{}:{i}", p.name()), |&i| {
        let tf = &tfs[i];
        // Unit secrets with several scalars, all in one batch (or all secrets if few).
        let mut xs: Vec<Vec<u32>> = vec![];
        if (q as u64).pow(tf.o.len() as u32) <= 64 {
            all_vecs(q, tf.o.len(), |v| {
                xs.push(v.to_vec());
                true
            });
        } else {
            for j in 0..tf.o.len() {
                for c in [1, 2, q - 1] {
                    let mut v = vec![0; tf.o.len()];
                    v[j] = c;
                    xs.push(v);
                }
            }
            xs.push((0..tf.o.len() as u32).map(|j| (j * 5 + 3) % q).collect());
        }
        for (k, deg) in [p.d(), p.n - 1, (p.d() + tf.o.len() - 1).min(p.n - 1)].into_iter().enumerate() {
            let leader = match (i + k) % (p.n + 1) {
                0 => None,
                x => Some(x as u16 - 1),
            };
            let cfg = Cfg { rng: RngMode::Overlay { w: W as u32, seed: i as u64, tape: Default::default() }, rayon_threads: 1 + i % 4, join_order: [0, 1, 3][i % 3], ..Cfg::default() };
            let (o, r) = env.direct(cfg, if i % 5 == 0 { Net::Tcp } else { Net::Local }, tf, &xs, deg, leader, i as u64);
            count_outcome(ctx, &o);
            ctx.count("transformed_sharings", xs.len() as u64);
            r?;
        }
        Ok(())
    });
    // Preparation: batches of 1..=l transformations, neighbours in the list and far apart ones.
    ctx.par_cases(&idx, |i| format!("prepared:{W}:{}:{i}", p.name()), |&i| {
        for k in 1..=p.l {
            let stride = 1 + (i * 7 + k * 13) % tfs.len();
            let group: Vec<Tf> = (0..k).map(|j| tfs[(i + j * stride) % tfs.len()].clone()).collect();
            let cfg = Cfg { rng: RngMode::Overlay { w: W as u32, seed: i as u64, tape: Default::default() }, rayon_threads: 1 + i % 4, ..Cfg::default() };
            let (o, r) = env.prepared(cfg, if i % 5 == 0 { Net::Tcp } else { Net::Local }, &group, 1 + (i + k) % 3, i as u64, None);
            count_outcome(ctx, &o);
            ctx.count("transformed_sharings", (k * (1 + (i + k) % 3)) as u64);
            r?;
        }
        Ok(())
    });
    // Every unit vector of the preparation's randomness.
    let units: Vec<usize> = (0..(p.n + p.t) * 2 * p.l).collect();
    ctx.par_cases(&units, |u| format!("units:{W}:{}:{u}", p.name()), |&u| {
        let group: Vec<Tf> = (0..p.l).map(|j| tfs[(u * 31 + j * 17) % tfs.len()].clone()).collect();
        let (o, r) = env.prepared(Cfg::default(), Net::Local, &group, 2, u as u64, Some(u));
        count_outcome(ctx, &o);
        r
    });
}

fn schedules<const W: u8>(ctx: &Ctx, p: Par, net: Net, dev: usize, execs: u64) {
    let env = Env::<W>::new(p);
    let q = 1u32 << W;
    let tfs = all_tfs(&p, q);
    let group: Vec<Tf> = (0..p.l).map(|j| tfs[tfs.len() / 2 + j].clone()).collect();
    for (pn, pol) in policies(p.n) {
        let dev = if pn == "fifo" { dev } else { dev.saturating_sub(1) };
        let cfg = Cfg { policy: pol.clone(), ..Cfg::default() };
        explore(
            ctx,
            &format!("sched:{W}:{}:{net:?}:{pn}", p.name()),
            &cfg,
            &Bounds { kinds: kind_mask(&[Kind::Task, Kind::Select]), max_dev: dev, max_execs: execs },
            |cfg| env.prepared(cfg, net, &group, 1, 5, None),
        );
    }
}

fn large(ctx: &Ctx, ps: &[Par]) {
    for &p in ps {
        let env = Env::<18>::new(p);
        let mut tfs = vec![];
        for ol in 1..=p.l {
            for nl in [1, ol, p.l] {
                let o: Vec<u32> = (0..ol as u32).map(|i| p.n as u32 + p.l as u32 + i * 37).collect();
                let n: Vec<u32> = (0..nl as u32).map(|i| p.n as u32 + i).collect();
                for shape in 0..3usize {
                    let f: Vec<usize> = (0..nl).map(|j| match shape { 0 => j % ol, 1 => ol - 1 - j % ol, _ => 0 }).collect();
                    tfs.push(Tf { o: o.clone(), n: n.clone(), f: f.clone() });
                    if nl == ol {
                        tfs.push(Tf { o: n.clone(), n: o.clone(), f });
                    }
                }
            }
        }
        let idx: Vec<usize> = (0..tfs.len()).collect();
        ctx.par_cases(&idx, |i| format!("large:{}:{i}", p.name()), |&i| {
            let mut f = Fill(i as u64, 18);
            let xs: Vec<Vec<u32>> = (0..i % 4).map(|_| f.vec(tfs[i].o.len())).collect();
            let pol = [Policy::Fifo, Policy::Lifo, Policy::GroupDescending][i % 3].clone();
            let (o, r) = env.direct(Cfg { policy: pol.clone(), ..Cfg::default() }, Net::Tcp, &tfs[i], &xs, p.d(), Some((i % p.n) as u16), 1);
            count_outcome(ctx, &o);
            r?;
            let k = 1 + i % p.l;
            let group: Vec<Tf> = (0..k).map(|j| tfs[(i + j * 5) % tfs.len()].clone()).collect();
            let (o, r) = env.prepared(Cfg { policy: pol, ..Cfg::default() }, Net::Tcp, &group, 1 + i % 2, 7, None);
            count_outcome(ctx, &o);
            ctx.count("transformed_sharings", (xs.len() + k) as u64);
            r
        });
    }
}

/// More parties than fit in a byte.
fn crowd(ctx: &Ctx, p: Par) {
    let env = Env::<18>::new(p);
    let at = |from: u32, k: usize| -> Vec<u32> { (0..k as u32).map(|i| from + i).collect() };
    let top = (p.n + p.l) as u32;
    let tf = Tf { o: at(top + 9, p.l), n: at(p.n as u32, p.l), f: (0..p.l).rev().collect() };
    let back = Tf { o: at(p.n as u32, 2), n: at(top + 70_000, 3), f: vec![1, 0, 1] };
    let mut list: Vec<(usize, Option<u16>)> = [0, 255, 256, p.n - 1].iter().map(|x| (0, Some(*x as u16))).collect();
    list.extend([(0, None), (1, None)]);
    if p.l < 10 {
        list.push((2, None));
    }
    ctx.par_cases(&list, |x| format!("crowd:{}:{x:?}", p.name()).replace(' ', ""), |&(what, leader)| {
        let mut f = Fill(what as u64, 18);
        let cfg = Cfg::default();
        let (o, r) = match what {
            0 => env.direct(cfg, Net::Local, &tf, &[f.vec(tf.o.len())], p.d(), leader, 1),
            1 => env.direct(cfg, Net::Local, &back, &[f.vec(2), f.vec(2)], p.d(), leader, 1),
            _ => env.prepared(cfg, Net::Local, &[back.clone()], 1, 7, None),
        };
        count_outcome(ctx, &o);
        ctx.count("transformed_sharings", 1);
        r
    });
}

fn run(ctx: &Ctx) {
    inputs::<3>(ctx, Par::new(3, 1, 1));
    inputs::<3>(ctx, Par::new(5, 1, 2));
    inputs::<4>(ctx, Par::new(6, 2, 2));
    inputs::<4>(ctx, Par::new(7, 1, 3));
    if !ctx.quick() {
        inputs::<4>(ctx, Par::new(9, 2, 3));
        inputs::<5>(ctx, Par::new(10, 1, 4));
    }
    large(ctx, &[Par::new(16, 5, 3), Par::new(16, 2, 5)]);
    if !ctx.quick() {
        large(ctx, &[Par::new(33, 7, 8), Par::new(24, 1, 11)]);
    }
    crowd(ctx, Par::new(300, 70, 70));
    crowd(ctx, Par::new(258, 2, 3));
    schedules::<3>(ctx, Par::new(3, 1, 1), Net::Tcp, 2, ctx.pick(20_000, 200_000));
    schedules::<3>(ctx, Par::new(3, 1, 1), Net::Local, 2, ctx.pick(20_000, 200_000));
    schedules::<3>(ctx, Par::new(5, 1, 2), Net::Tcp, 1, ctx.pick(3_000, 50_000));
    ctx.assume("transformations are linear in secrets and masks; unit vectors with several scalars and mixed vectors stand for all secrets where not all are run");
}

fn main() {
    mc::main(Spec {
        id: "C04",
        level: "model_checking",
        rule: "states are choice points (and ends) of explored executions, transitions task steps of the real protocol code, traces complete executions judged by opening prepared pairs and results with reference arithmetic",
        run,
    })
}
