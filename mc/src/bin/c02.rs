//! C02: results do not depend on the schedule.
use mc::circ::*;
use mc::garb::*;
use mc::pre::*;
use mc::proto::*;
use mc::*;
use mcrt::{kind_mask, Cfg, IoChunk, Kind, Policy, RngMode};
use scalable_mpc::math::galois::GF;
use scalable_mpc::math::Combination;
use scalable_mpc::protocol::core::{mult, trans, SharingTransform};
use scalable_mpc::sharing::PackedSharing;

const W: u8 = 8;

#[derive(Clone)]
struct How {
    name: String,
    policy: Policy,
    kinds: u32,
    chunk: IoChunk,
    join: u8,
    dev: usize,
    execs: u64,
}

fn hows(ctx: &Ctx, n: usize, dev_fifo: usize, execs: u64) -> Vec<How> {
    let ts = kind_mask(&[Kind::Task, Kind::Select]);
    let mut v = vec![];
    for (name, policy) in policies(n) {
        let dev = if name == "fifo" { dev_fifo } else { 1 };
        v.push(How { name, policy, kinds: ts, chunk: IoChunk::Full, join: 0, dev, execs });
    }
    // Small pieces on every connection, and the other order of data-parallel halves.
    v.push(How { name: "bytes".into(), policy: Policy::Fifo, kinds: ts, chunk: IoChunk::Max(1), join: 1, dev: 0, execs });
    v.push(How { name: "pieces".into(), policy: Policy::Fifo, kinds: kind_mask(&[Kind::Task]), chunk: IoChunk::Max(5), join: 3, dev: 1, execs: ctx.pick(execs / 4, execs) });
    // One task held up (or one message late) until nothing else can go on.
    let hold = kind_mask(&[Kind::Yield]);
    for (name, policy) in policies(n) {
        if name == "fifo" || name == "lifo" || !ctx.quick() {
            let dev = if name == "fifo" { dev_fifo } else { 1 };
            v.push(How { name: format!("hold:{name}"), policy, kinds: hold, chunk: IoChunk::Full, join: 0, dev, execs });
        }
    }
    v.push(How { name: "join".into(), policy: Policy::Fifo, kinds: kind_mask(&[Kind::Join]), chunk: IoChunk::Full, join: 2, dev: 1, execs });
    v.push(How { name: "split".into(), policy: Policy::Fifo, kinds: kind_mask(&[Kind::Io]), chunk: IoChunk::ChooseBoth, join: 0, dev: 1, execs });
    v
}

fn cfg_of(h: &How, seed: u64) -> Cfg {
    Cfg { policy: h.policy.clone(), rng: RngMode::Stream(seed), io_chunk: h.chunk, join_order: h.join, ..Cfg::default() }
}

/// Several multiplications at once.
fn mults(ctx: &Ctx, p: Par, leaders: &[Option<u16>], dev: usize, execs: u64) {
    GF::<W>::init().unwrap();
    let rf = Rf::of::<W>();
    let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
    let (low, high, op) = (Dealer::new::<W>(&rf, p.n, p.d(), &pos), Dealer::new::<W>(&rf, p.n, p.n - 1, &pos), Opener::new::<W>(&rf, p.n, p.d(), &pos));
    let ctxs = contexts::<W>(&p);
    let batch = 2;
    let mut f = Fill(31, W as u32);
    let mut xs = vec![];
    for _ in 0..leaders.len() * batch {
        let (a, b, r) = (f.vec(p.l), f.vec(p.l), f.vec(p.l));
        let s = [low.share(&a, &f.vec(low.free())), low.share(&b, &f.vec(low.free())), low.share(&r, &f.vec(low.free())), high.share(&vec![0; p.l], &f.vec(high.free()))];
        xs.push((a, b, s));
    }
    for h in hows(ctx, p.n, dev, execs) {
        explore(ctx, &format!("mult:{}:{}:{}", p.name(), leaders.len(), h.name), &cfg_of(&h, 3), &Bounds { kinds: h.kinds, max_dev: h.dev, max_execs: h.execs }, |cfg| {
            let run = parties(cfg, Net::Tcp, p.n, |i, net, _| {
                let c = ctxs[i].clone();
                let parts: Vec<Vec<ndarray::Array1<GF<W>>>> = (0..leaders.len())
                    .map(|k| (0..4).map(|j| xs[k * batch..(k + 1) * batch].iter().map(|x| GF::from(x.2[j][i])).collect()).collect())
                    .collect();
                let leaders = leaders.to_vec();
                async move {
                    let mut hs = vec![];
                    for (k, q) in parts.into_iter().enumerate() {
                        let mut q = q.into_iter();
                        let mut n = || q.next().unwrap();
                        hs.push(tokio::task::spawn(mult(vec![k as u8], n(), n(), n(), n(), leaders[k], c.clone(), net.clone())));
                    }
                    let mut o = vec![];
                    for h in hs {
                        o.extend(h.await.unwrap().to_vec());
                    }
                    o
                }
            });
            let r = finished(&run.out).and_then(|_| {
                let o: Vec<Vec<GF<W>>> = run.vals.iter().map(|v| v.clone().unwrap()).collect();
                for (k, (a, b, _)) in xs.iter().enumerate() {
                    let got = op.open(&sharing_of(&o, k))?;
                    let want: Vec<u32> = a.iter().zip(b).map(|(x, y)| rf.mul(*x, *y)).collect();
                    if got != want {
                        return Err(format!("product {k}: {got:?}, expected {want:?}"));
                    }
                }
                Ok(())
            });
            (run.out, r)
        });
    }
}

/// Several transformations at once.
fn transforms(ctx: &Ctx, p: Par, dev: usize, execs: u64) {
    GF::<W>::init().unwrap();
    let rf = Rf::of::<W>();
    let ctxs = contexts::<W>(&p);
    let mut f = Fill(77, W as u32);
    let base = (p.n + p.l) as u32;
    struct T {
        o: Vec<u32>,
        n: Vec<u32>,
        f: Vec<usize>,
        x: Vec<u32>,
        sh: [Vec<u32>; 3],
    }
    let mut ts = vec![];
    for k in 0..3usize {
        let o: Vec<u32> = (0..p.l as u32).map(|i| base + 2 * i + k as u32).collect();
        let n: Vec<u32> = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        let sel: Vec<usize> = (0..p.l).map(|i| (i + k) % p.l).collect();
        let (x, m) = (f.vec(p.l), f.vec(p.l));
        let fm: Vec<u32> = sel.iter().map(|i| m[*i]).collect();
        let sh = [
            deal::<W>(&rf, p.n, p.d(), &o, &x, &f.vec(p.d() + 1 - p.l)),
            deal::<W>(&rf, p.n, p.d(), &n, &fm, &f.vec(p.d() + 1 - p.l)),
            deal::<W>(&rf, p.n, p.n - 1, &o, &m, &f.vec(p.n - p.l)),
        ];
        ts.push(T { o, n, f: sel, x, sh });
    }
    for h in hows(ctx, p.n, dev, execs) {
        explore(ctx, &format!("trans:{}:{}", p.name(), h.name), &cfg_of(&h, 3), &Bounds { kinds: h.kinds, max_dev: h.dev, max_execs: h.execs }, |cfg| {
            let run = parties(cfg, Net::Tcp, p.n, |i, net, _| {
                let c = ctxs[i].clone();
                let parts: Vec<_> = ts
                    .iter()
                    .map(|t| (SharingTransform::new(gf::<W>(&t.o), gf::<W>(&t.n), Combination::new(t.f.clone())), t.sh.iter().map(|s| ndarray::array![GF::<W>::from(s[i])]).collect::<Vec<_>>()))
                    .collect();
                async move {
                    let mut hs = vec![];
                    for (k, (st, q)) in parts.into_iter().enumerate() {
                        let mut q = q.into_iter();
                        let mut n = || q.next().unwrap();
                        hs.push(tokio::task::spawn(trans(vec![k as u8], n(), n(), n(), st, None, c.clone(), net.clone())));
                    }
                    let mut o = vec![];
                    for h in hs {
                        o.extend(h.await.unwrap().to_vec());
                    }
                    o
                }
            });
            let r = finished(&run.out).and_then(|_| {
                let o: Vec<Vec<GF<W>>> = run.vals.iter().map(|v| v.clone().unwrap()).collect();
                for (k, t) in ts.iter().enumerate() {
                    let got = open::<W>(&rf, p.d(), &t.n, &sharing_of(&o, k))?;
                    let want: Vec<u32> = t.f.iter().map(|i| t.x[*i]).collect();
                    if got != want {
                        return Err(format!("transformation {k}: {got:?}, expected {want:?}"));
                    }
                }
                Ok(())
            });
            (run.out, r)
        });
    }
}

fn preprocessing(ctx: &Ctx, p: Par, req: Req, dev: usize, execs: u64) {
    let inst = PreInst::<W>::usual(p);
    for h in hows(ctx, p.n, dev, execs) {
        explore(ctx, &format!("preproc:{}:{}:{}", p.name(), req.name(), h.name), &cfg_of(&h, 3), &Bounds { kinds: h.kinds, max_dev: h.dev, max_execs: h.execs }, |cfg| {
            let (o, r) = inst.judged(cfg, Net::Tcp, &req);
            (o, r.map(|_| ()))
        });
    }
}

fn garbling(ctx: &Ctx, p: Par, c: &C, dir: &std::path::Path, dev: usize, execs: u64) {
    let inst = Inst::<W>::new(p, c, dir);
    let enc = inst.code();
    let public = match guarded(|| inst.identify(|_| {})) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) | Err(Fail::Code(e)) => return ctx.violation(&format!("garble:{}:identify", p.name()), &[], &e),
        Err(Fail::Harness(e)) => return ctx.error(&e),
    };
    let m = inst.filled((0..inst.wires).map(|i| i % 3 == 1).collect(), 5);
    let pre = inst.deal(&m, 6);
    for h in hows(ctx, p.n, dev, execs) {
        explore(ctx, &format!("garble:{}:{}:{}", p.name(), c.name(), h.name), &cfg_of(&h, 9), &Bounds { kinds: h.kinds, max_dev: h.dev, max_execs: h.execs }, |cfg| {
            let (o, t) = inst.run(cfg, Net::Tcp, pre.clone());
            (o, t.and_then(|t| inst.explain(&public, &enc, &m, &t).map(|_| ())))
        });
    }
}

fn run(ctx: &Ctx) {
    let dir = scratch();
    let e = ctx.pick(3_000, 60_000);
    let d = ctx.pick(1, 2);
    let p3 = Par::new(3, 1, 1).lpn(1, 2);
    let p5 = Par::new(5, 1, 2).lpn(1, 2);
    mults(ctx, p3, &[Some(0)], 2, ctx.pick(20_000, 200_000));
    mults(ctx, p3, &[None, Some(1)], d, e);
    mults(ctx, p5, &[None, Some(4), Some(0)], 1, e);
    transforms(ctx, p3, d, e);
    transforms(ctx, p5, 1, e);
    let req = |e: usize| Req { masks: 1, keys: (2, 1, 1), randoms: 1, zeros: 1, errors: e };
    preprocessing(ctx, p3, req(1), 1, e);
    preprocessing(ctx, p3, req(4), 1, e);
    preprocessing(ctx, p5, req(5), 1, ctx.pick(1_000, 20_000));
    let c1 = C { inputs: vec![2], outputs: vec![1], gates: vec![G { k: K::And, a: 0, b: 1, o: 2 }] };
    let c3 = C { inputs: vec![1, 1], outputs: vec![1], gates: vec![G { k: K::And, a: 0, b: 1, o: 2 }, G { k: K::Xor, a: 2, b: 0, o: 3 }, G { k: K::Inv, a: 3, b: 3, o: 4 }] };
    garbling(ctx, p3, &c1, &dir, 1, ctx.pick(4_000, 60_000));
    garbling(ctx, p5, &c3, &dir, 1, ctx.pick(1_500, 60_000));
    ctx.assume("a connection delivers bytes in order and without loss; delays are schedule choices");
}

fn main() {
    mc::main(Spec {
        id: "C02",
        level: "model_checking",
        rule: "states are choice points and ends of explored executions, transitions task steps of the real code, traces complete executions whose outputs were opened and compared",
        run,
    })
}
