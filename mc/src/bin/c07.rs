//! C07: secrecy of degree reduction, multiplication and sharing transformation.
use mc::proto::*;
use mc::secrecy::*;
use mc::*;
use scalable_mpc::math::galois::GF;
use scalable_mpc::math::Combination;
use scalable_mpc::protocol::core::{mult, randtrans, reduce_degree, trans, RandSharingTransform, SharingTransform};
use scalable_mpc::protocol::MPCContext;
use scalable_mpc::sharing::PackedSharing;
use std::collections::HashMap;

struct Env<const W: u8> {
    p: Par,
    rf: Rf,
    low: Dealer,
    high: Dealer,
    ctxs: Vec<MPCContext<W>>,
}

fn seen<const W: u8>(run: Run<Vec<GF<W>>>) -> Result<Seen, String> {
    finished(&run.out)?;
    Ok(Seen { draws: run.out.draws.clone(), out: run.vals.iter().map(|v| un(v.as_ref().unwrap())).collect(), streams: run.streams })
}

impl<const W: u8> Env<W> {
    fn new(p: Par) -> Self {
        GF::<W>::init().unwrap();
        let rf = Rf::of::<W>();
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        Env { p, rf, low: Dealer::new::<W>(&rf, p.n, p.d(), &pos), high: Dealer::new::<W>(&rf, p.n, p.n - 1, &pos), ctxs: contexts::<W>(&p) }
    }
    fn random(&self, f: &mut Fill) -> Vec<u32> {
        self.low.share(&f.vec(self.p.l), &f.vec(self.low.free()))
    }
    fn zero(&self, f: &mut Fill) -> Vec<u32> {
        self.high.share(&vec![0; self.p.l], &f.vec(self.high.free()))
    }
    /// A basis (over the two-element field) of all masking sharings, or of all zero sharings.
    fn basis(&self, zero: bool) -> Vec<Vec<u32>> {
        let d = if zero { &self.high } else { &self.low };
        let mut v = vec![];
        for j in if zero { self.p.l } else { 0 }..d.d + 1 {
            for b in 0..W {
                let mut x = vec![0; d.d + 1];
                x[j] = 1 << b;
                v.push(d.share(&x[..self.p.l], &x[self.p.l..]));
            }
        }
        v
    }

    /// One batch of degree reductions: slots are, per item, input, masking sharing, zero sharing.
    fn reduction(&self, inputs: &[Vec<u32>], tape: &Tape, leader: Option<u16>) -> Result<Seen, String> {
        let k = inputs.len() / 3;
        seen(parties(tape_cfg(W, tape), Net::Tcp, self.p.n, |i, net, _| {
            let c = self.ctxs[i].clone();
            let part = |j: usize| party_col::<W>(&inputs[j * k..(j + 1) * k], i);
            reduce(part(0), part(1), part(2), leader, c, net)
        }))
    }
    fn multiplication(&self, inputs: &[Vec<u32>], tape: &Tape, leader: Option<u16>) -> Result<Seen, String> {
        let k = inputs.len() / 4;
        seen(parties(tape_cfg(W, tape), Net::Tcp, self.p.n, |i, net, _| {
            let c = self.ctxs[i].clone();
            let part = |j: usize| party_col::<W>(&inputs[j * k..(j + 1) * k], i);
            multiply(part(0), part(1), part(2), part(3), leader, c, net)
        }))
    }
    /// Preparation of up to l transformations and the transformations themselves: slots are the
    /// inputs (by transformation, then repetition), masking sharings, zero sharings.
    fn transformation(&self, tfs: &[Tf], reps: usize, inputs: &[Vec<u32>], tape: &Tape, leader: Option<u16>) -> Result<Seen, String> {
        let p = self.p;
        let nx = tfs.len() * reps;
        let nr = (p.n + p.t) * reps;
        let (os, ns, fs): (Vec<_>, Vec<_>, Vec<_>) = (
            tfs.iter().map(|t| gf::<W>(&t.o)).collect(),
            tfs.iter().map(|t| gf::<W>(&t.n)).collect(),
            tfs.iter().map(|t| Combination::new(t.f.clone())).collect(),
        );
        seen(parties(tape_cfg(W, tape), Net::Tcp, p.n, |i, net, _| {
            let c = self.ctxs[i].clone();
            let rt = RandSharingTransform::new(&os, &ns, &fs, &c);
            let sts: Vec<_> = (0..tfs.len()).map(|k| SharingTransform::new(os[k].clone(), ns[k].clone(), Combination::new(tfs[k].f.clone()))).collect();
            let xs: Vec<_> = (0..tfs.len()).map(|k| party_col::<W>(&inputs[k * reps..(k + 1) * reps], i)).collect();
            let (r, z) = (party_col::<W>(&inputs[nx..nx + nr], i).to_vec(), party_col::<W>(&inputs[nx + nr..], i).to_vec());
            async move {
                let (a, b) = randtrans(vec![3], r.into(), z.into(), rt, c.clone(), net.clone()).await;
                let mut hs = vec![];
                for (k, st) in sts.into_iter().enumerate() {
                    hs.push(tokio::task::spawn(trans(vec![4, k as u8], xs[k].clone(), a.row(k).to_owned(), b.row(k).to_owned(), st, leader, c.clone(), net.clone())));
                }
                let mut o = vec![];
                for h in hs {
                    o.extend(h.await.unwrap().to_vec());
                }
                o
            }
        }))
    }
}

type Arr<const W: u8> = ndarray::Array1<GF<W>>;
type Nw = scalable_mpc::protocol::network::Network;

async fn reduce<const W: u8>(x: Arr<W>, r: Arr<W>, z: Arr<W>, leader: Option<u16>, c: MPCContext<W>, net: Nw) -> Vec<GF<W>> {
    reduce_degree(vec![1], x, r, z, leader, c, net).await.to_vec()
}

async fn multiply<const W: u8>(x: Arr<W>, y: Arr<W>, r: Arr<W>, z: Arr<W>, leader: Option<u16>, c: MPCContext<W>, net: Nw) -> Vec<GF<W>> {
    mult(vec![1], x, y, r, z, leader, c, net).await.to_vec()
}

#[derive(Clone, Debug)]
struct Tf {
    o: Vec<u32>,
    n: Vec<u32>,
    f: Vec<usize>,
}

/// All shares of all parties of an input, bit by bit.
fn shares_of(slot: usize, n: usize, w: u8) -> Vec<Change> {
    (0..n).flat_map(|p| (0..w).map(move |b| Change::Secret(slot, p, 1 << b))).collect()
}

fn judge<const W: u8>(ctx: &Ctx, env: &Env<W>, lin: &Linear, what: &str) -> Result<(), String> {
    ctx.count("evaluations", lin.runs);
    let mut seen = false;
    for c in corrupted(env.p.n, env.p.t) {
        lin.hidden_from(&c).map_err(|e| format!("{what}: {e}"))?;
        if lin.touches(&c) {
            seen = true;
            ctx.distinct(format!("{W} {what} {c:?}").as_bytes());
        }
        ctx.count("party_sets_decided", 1);
    }
    if !seen {
        // Nothing any corrupted set receives depends on the inputs: the observation is empty.
        ctx.error(&format!("{what}: no set of parties receives anything that depends on others' inputs"));
    }
    Ok(())
}

fn reductions<const W: u8>(ctx: &Ctx, pars: &[Par], batch: usize) {
    let mut items = vec![];
    for &p in pars {
        for leader in (0..p.n as u16).map(Some).chain([None]) {
            items.push((p, leader));
        }
    }
    ctx.par_cases(&items, |(p, l)| format!("reduce:{W}:{}:{l:?}:{batch}", p.name()), |&(p, leader)| {
        let env = Env::<W>::new(p);
        let mut f = Fill(3, W as u32);
        let mut inputs: Vec<Vec<u32>> = (0..batch).map(|_| f.vec(p.n)).collect();
        inputs.extend((0..batch).map(|_| env.random(&mut f)));
        inputs.extend((0..batch).map(|_| env.zero(&mut f)));
        let mut ch = vec![];
        for k in 0..batch {
            ch.extend(shares_of(k, p.n, W));
            ch.extend(env.basis(false).into_iter().map(|v| Change::Mask(batch + k, v)));
            ch.extend(env.basis(true).into_iter().map(|v| Change::Mask(2 * batch + k, v)));
        }
        let lin = probe(W, &inputs, &ch, |x, t| env.reduction(x, t, leader))?;
        judge(ctx, &env, &lin, &format!("reduction {} leader {leader:?}", p.name()))
    });
}

/// Multiplication: with the factors given, everything is affine in masks and draws.
fn multiplications<const W: u8>(ctx: &Ctx, pars: &[Par]) {
    let mut items = vec![];
    for &p in pars {
        for leader in 0..p.n as u16 {
            items.push((p, leader));
        }
    }
    ctx.par_cases(&items, |(p, l)| format!("mult:{W}:{}:{l}", p.name()), |&(p, leader)| {
        let env = Env::<W>::new(p);
        let mut f = Fill(9, W as u32);
        let factors: Vec<(Vec<u32>, Vec<u32>)> = (0..ctx.pick(2, 6)).map(|_| (env.random(&mut f), env.random(&mut f))).collect();
        for (x, y) in factors {
            let inputs = vec![x, y, env.random(&mut f), env.zero(&mut f)];
            // Changes of one factor at a time keep the map affine.
            for side in 0..2 {
                let mut ch = shares_of(side, p.n, W);
                ch.extend(env.basis(false).into_iter().map(|v| Change::Mask(2, v)));
                ch.extend(env.basis(true).into_iter().map(|v| Change::Mask(3, v)));
                let lin = probe(W, &inputs, &ch, |x, t| env.multiplication(x, t, Some(leader)))?;
                judge(ctx, &env, &lin, &format!("multiplication {} leader {leader} factor {side} of {:?}", p.name(), &inputs[..2]))?;
            }
        }
        Ok(())
    });
}

/// Three parties over four elements: all factors, all masks, all draws of the leader.
fn all_products(ctx: &Ctx) {
    const W: u8 = 2;
    let p = Par::new(3, 1, 1);
    let env = Env::<W>::new(p);
    let q = 4u32;
    let mut items = vec![];
    for leader in 0..3u16 {
        for c in 0..3usize {
            for held in 0..q * q {
                items.push((leader, c, held));
            }
        }
    }
    // Lines through a given share of party c.
    let pos = un(&PackedSharing::<W>::default_pos(3, 1));
    let xs = un(&PackedSharing::<W>::share_pos(3));
    let line = |c: usize, at_c: u32, secret: u32| -> Vec<u32> { xs.iter().map(|x| env.rf.interp(&[pos[0], xs[c]], &[secret, at_c], *x)).collect() };
    ctx.par_cases(&items, |(l, c, h)| format!("products:{l}:{c}:{h}"), |&(leader, c, held)| {
        let (xc, yc) = (held % q, held / q);
        // What party c holds of the masks: fixed, one choice in quick runs.
        let masks: Vec<(u32, u32)> = if ctx.quick() { vec![((xc + 1) % q, yc)] } else { (0..q * q).map(|m| (m % q, m / q)).collect() };
        for (rc, zc) in masks {
            let mut first: Option<HashMap<Vec<u64>, u64>> = None;
            for s in 0..q * q {
                let (x, y) = (line(c, xc, s % q), line(c, yc, s / q));
                let mut hist: HashMap<Vec<u64>, u64> = HashMap::new();
                let mut draws = 0;
                for m in 0..q * q {
                    let r = line(c, rc, m % q);
                    // Zero at the secret position, given share at c, free share at the next party.
                    let o = (c + 1) % 3;
                    let z: Vec<u32> = xs.iter().map(|v| env.rf.interp(&[pos[0], xs[c], xs[o]], &[0, zc, m / q], *v)).collect();
                    let inputs = vec![x.clone(), y.clone(), r, z];
                    let mut d = 0;
                    loop {
                        let mut tape = Tape::new();
                        tape.insert((leader as u32, 0), d);
                        let s = env.multiplication(&inputs, &tape, Some(leader))?;
                        draws = s.draws.values().sum::<u32>();
                        *hist.entry(pre::view_bits(&s.streams, &[c])).or_insert(0) += 1;
                        ctx.count("evaluations", 1);
                        d += 1;
                        if d == q || c == leader as usize || s.draws.get(&(leader as u32)).copied().unwrap_or(0) != 1 {
                            break;
                        }
                    }
                }
                ctx.distinct_add((hist.len() > 1) as u64);
                match &first {
                    None => {
                        if leader == 1 && c == 1 && held == 5 {
                            ctx.sample(format!("leader and observer {c} holding ({xc},{yc},{rc},{zc}): {} different views over all masks, {draws} draws, same for all 16 products", hist.len()));
                        }
                        first = Some(hist)
                    }
                    Some(h) => {
                        if *h != hist {
                            return Err(format!("leader {leader}: what party {c} receives tells the factors ({},{}) from (0,0), its shares being {xc}, {yc}, {rc}, {zc}", s % q, s / q));
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

/// Transformations as garbling asks for them: a block of old positions without repetitions, all of
/// them selected, to at least as many new positions.
fn shapes(p: Par, w: u8, all: bool) -> Vec<Vec<Tf>> {
    let (n, l) = (p.n as u32, p.l);
    let wires = |k: usize, from: u32| -> Vec<u32> { (0..k as u32).map(|i| n + l as u32 + from + i).collect() };
    let def = |w: u8, k: usize| -> Vec<u32> {
        let v: Vec<u32> = match w {
            3 => un(&PackedSharing::<3>::default_pos(n, l as u32)),
            4 => un(&PackedSharing::<4>::default_pos(n, l as u32)),
            5 => un(&PackedSharing::<5>::default_pos(n, l as u32)),
            _ => un(&PackedSharing::<18>::default_pos(n, l as u32)),
        };
        v[..k].to_vec()
    };
    let mut one: Vec<Tf> = vec![];
    for b in 1..=l {
        one.push(Tf { o: def(w, b), n: wires(b, 0), f: (0..b).collect() });
        for a in 1..=b {
            let mut fs = vec![];
            all_vecs(a as u32, b, |v| {
                if (0..a as u32).all(|x| v.contains(&x)) {
                    fs.push(v.iter().map(|x| *x as usize).collect::<Vec<_>>());
                }
                true
            });
            for (i, f) in fs.into_iter().enumerate() {
                if all || i < 2 {
                    one.push(Tf { o: wires(a, (b - a) as u32), n: def(w, b), f });
                }
            }
        }
    }
    // Alone and in groups of l.
    let mut v: Vec<Vec<Tf>> = one.iter().map(|t| vec![t.clone()]).collect();
    if l > 1 {
        for i in 0..one.len() {
            v.push((0..l).map(|j| one[(i + j * 2) % one.len()].clone()).collect());
        }
    }
    v
}

fn transformations<const W: u8>(ctx: &Ctx, pars: &[Par], reps: usize, every: usize) {
    let mut items = vec![];
    for &p in pars {
        for (k, s) in shapes(p, W, !ctx.quick()).into_iter().enumerate() {
            for leader in 0..p.n {
                if (k + leader) % every == 0 {
                    items.push((p, k, s.clone(), leader as u16));
                }
            }
        }
    }
    ctx.par_cases(&items, |(p, k, _, l)| format!("trans:{W}:{}:{k}:{l}:{reps}", p.name()), |(p, _, tfs, leader)| {
        let p = *p;
        let env = Env::<W>::new(p);
        let mut f = Fill(21, W as u32);
        let (nx, nr, nz) = (tfs.len() * reps, (p.n + p.t) * reps, 2 * p.n * reps);
        let mut inputs: Vec<Vec<u32>> = (0..nx).map(|_| f.vec(p.n)).collect();
        inputs.extend((0..nr).map(|_| env.random(&mut f)));
        inputs.extend((0..nz).map(|_| env.zero(&mut f)));
        let mut ch = vec![];
        for k in 0..nx {
            ch.extend(shares_of(k, p.n, W));
        }
        for k in nx..nx + nr {
            ch.extend(env.basis(false).into_iter().map(|v| Change::Mask(k, v)));
        }
        for k in nx + nr..nx + nr + nz {
            ch.extend(env.basis(true).into_iter().map(|v| Change::Mask(k, v)));
        }
        let lin = probe(W, &inputs, &ch, |x, t| env.transformation(tfs, reps, x, t, Some(*leader)))?;
        judge(ctx, &env, &lin, &format!("transformation {} {tfs:?} leader {leader}", p.name()))
    });
}

fn run(ctx: &Ctx) {
    let small = [Par::new(3, 1, 1), Par::new(4, 1, 1), Par::new(5, 1, 2), Par::new(5, 2, 1), Par::new(6, 1, 2)];
    all_products(ctx);
    reductions::<3>(ctx, &small, 1);
    reductions::<4>(ctx, &[Par::new(7, 1, 3), Par::new(7, 2, 2)], 2);
    reductions::<5>(ctx, &[Par::new(9, 2, 3), Par::new(16, 5, 3)], 1);
    reductions::<18>(ctx, &[Par::new(3, 1, 1)], 2);
    multiplications::<3>(ctx, &small);
    multiplications::<4>(ctx, &[Par::new(7, 1, 3), Par::new(7, 2, 2)]);
    transformations::<3>(ctx, &[Par::new(3, 1, 1)], 2, 1);
    transformations::<4>(ctx, &[Par::new(5, 1, 2), Par::new(5, 2, 1), Par::new(6, 1, 2)], 1, 1);
    transformations::<4>(ctx, &[Par::new(7, 1, 3), Par::new(7, 2, 2)], 1, ctx.pick(5, 1));
    if !ctx.quick() {
        transformations::<5>(ctx, &[Par::new(9, 2, 3)], 1, 7);
        transformations::<18>(ctx, &[Par::new(3, 1, 1)], 1, 1);
    }
    ctx.assume("masking sharings and zero sharings are uniform (the property's premise; their generation is checked separately)");
}

fn main() {
    mc::main(Spec {
        id: "C07",
        level: "exploration",
        rule: "evaluations are executions of the real protocols; distinct counts protocol, parameters, leader and set of parties where something received depends on others' inputs, and non-constant view histograms",
        run,
    })
}
