//! C29: what a whole garbling shows to t parties.
use mc::circ::*;
use mc::garb::*;
use mc::pre::{view_bits, xor, Space};
use mc::proto::*;
use mc::secrecy::*;
use mc::*;
use ndarray::Array3;
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::garble::garble;
use scalable_mpc::protocol::preproc::PreProc;
use scalable_mpc::sharing::PackedSharing;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    Mask,
    Key,
    Random,
    Zero,
    Error,
}

/// All dealt sharings (shares by party) and the draws of the parties.
#[derive(Clone)]
struct Point {
    shares: Vec<Vec<u32>>,
    tape: Tape,
}

#[derive(Clone)]
enum Step {
    Share(usize, Vec<u32>),
    Draw(u32, u32, u32),
}

struct Study<const W: u8> {
    inst: Inst<W>,
    parts: Vec<Part>,
    low: Dealer,
    high: Dealer,
}

impl<const W: u8> Study<W> {
    fn new(p: Par, c: &C, dir: &std::path::Path) -> Self {
        let inst = Inst::<W>::new(p, c, dir);
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        let (low, high) = (Dealer::new::<W>(&inst.rf, p.n, p.d(), &pos), Dealer::new::<W>(&inst.rf, p.n, p.n - 1, &pos));
        let k = inst.counts;
        let mut parts = vec![];
        for (what, num) in [(Part::Mask, k.masks), (Part::Key, k.keys.0 * k.keys.1 * k.keys.2), (Part::Random, k.randoms), (Part::Zero, k.zeros), (Part::Error, k.errors)] {
            parts.extend(std::iter::repeat(what).take(num));
        }
        Study { inst, parts, low, high }
    }

    fn point(&self, seed: u64, draws: &std::collections::BTreeMap<u32, u32>) -> Point {
        let p = self.inst.p;
        let mut f = Fill(seed, W as u32);
        let shares = self
            .parts
            .iter()
            .map(|k| match k {
                Part::Zero => self.high.share(&vec![0; p.l], &f.vec(self.high.free())),
                Part::Mask => self.low.share(&f.vec(p.l).iter().map(|x| x & 1).collect::<Vec<_>>(), &f.vec(self.low.free())),
                _ => self.low.share(&f.vec(p.l), &f.vec(self.low.free())),
            })
            .collect();
        Point { shares, tape: fill_tape(draws, &mut f) }
    }

    fn run(&self, x: &Point) -> Result<Run<()>, String> {
        let p = self.inst.p;
        let k = self.inst.counts;
        let run = parties(tape_cfg(W, &x.tape), Net::Tcp, p.n, |i, net, _| {
            let mut it = x.shares.iter().map(|s| GF::<W>::from(s[i]));
            let pre = PreProc {
                masks: it.by_ref().take(k.masks).collect(),
                keys: Array3::from_shape_vec(k.keys, it.by_ref().take(k.keys.0 * k.keys.1 * k.keys.2).collect()).unwrap(),
                randoms: it.by_ref().take(k.randoms).collect(),
                zeros: it.by_ref().take(k.zeros).collect(),
                errors: it.collect(),
            };
            let g = self.inst.gctx[i].clone();
            async move {
                garble(vec![], pre, g, net).await;
            }
        });
        finished(&run.out)?;
        Ok(run)
    }

    fn shown(&self, x: &Point, c: &[usize]) -> Result<Vec<u64>, String> {
        Ok(view_bits(&self.run(x)?.streams, c))
    }

    fn moved(&self, x: &Point, steps: &[&Step]) -> Point {
        let mut y = x.clone();
        for s in steps {
            match s {
                Step::Share(k, d) => y.shares[*k].iter_mut().zip(d).for_each(|(a, b)| *a ^= b),
                Step::Draw(g, i, m) => *y.tape.entry((*g, *i)).or_insert(0) ^= m,
            }
        }
        y
    }

    /// Single changes that leave all shares held by `c` as they are: of secrets, of randomness.
    fn steps(&self, c: &[usize], draws: &std::collections::BTreeMap<u32, u32>) -> (Vec<(String, Step)>, Vec<Step>) {
        let p = self.inst.p;
        let rf = &self.inst.rf;
        let xs = un(&PackedSharing::<W>::share_pos(p.n as u32));
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        let mut px = pos.clone();
        px.extend(c.iter().map(|i| xs[*i]));
        let low = |slot: usize, v: u32| -> Vec<u32> {
            let mut py = vec![0; px.len()];
            py[slot] = v;
            xs.iter().map(|x| rf.interp(&px, &py, *x)).collect()
        };
        let mut pz = px.clone();
        pz.extend((0..p.n).filter(|i| !c.contains(i)).take(p.n - px.len()).map(|i| xs[i]));
        let high = |at: usize, v: u32| -> Vec<u32> {
            let mut py = vec![0; pz.len()];
            py[at] = v;
            xs.iter().map(|x| rf.interp(&pz, &py, *x)).collect()
        };
        let (mut secret, mut random) = (vec![], vec![]);
        for (k, part) in self.parts.iter().enumerate() {
            for b in 0..if *part == Part::Mask { 1 } else { W } {
                match part {
                    Part::Zero => random.extend((px.len()..pz.len()).map(|at| Step::Share(k, high(at, 1 << b)))),
                    Part::Random => random.extend((0..p.l).map(|s| Step::Share(k, low(s, 1 << b)))),
                    _ => secret.extend((0..p.l).map(|s| (format!("{part:?} {k} slot {s} bit {b}"), Step::Share(k, low(s, 1 << b))))),
                }
            }
        }
        for (g, num) in draws.iter().filter(|x| !c.contains(&(*x.0 as usize))) {
            for i in 0..*num {
                random.extend((0..W).map(|b| Step::Draw(*g, i, 1 << b)));
            }
        }
        (secret, random)
    }

    fn decide(&self, ctx: &Ctx, c: &[usize], bases: u64) -> Result<String, String> {
        let first = self.run(&self.point(1, &Default::default()))?;
        let draws = first.out.draws.clone();
        let (secret, random) = self.steps(c, &draws);
        let pts: Vec<Point> = (0..bases).map(|i| self.point(10 + i, &draws)).collect();
        let at: Vec<Vec<u64>> = pts.iter().map(|x| self.shown(x, c)).collect::<Result<_, _>>()?;
        let diff = |b: usize, s: &[&Step]| -> Result<Vec<u64>, String> {
            ctx.count("evaluations", 1);
            Ok(xor(&self.shown(&self.moved(&pts[b], s), c)?, &at[b]))
        };
        let by: Vec<Vec<Vec<u64>>> = (0..pts.len()).map(|b| random.iter().map(|s| diff(b, &[s])).collect::<Result<_, _>>()).collect::<Result<_, _>>()?;
        // Values whose effect is the same whatever the other values are, up to what earlier found
        // ones blur; everything they reach is uniform.
        let mut blur = Space::default();
        let mut used = vec![false; random.len()];
        let mut rounds = 0;
        loop {
            let fresh: Vec<usize> = (0..random.len())
                .filter(|&i| !used[i])
                .filter(|&i| {
                    let r = blur.reduce(&by[0][i]);
                    (1..pts.len()).all(|b| blur.reduce(&by[b][i]) == r)
                })
                .collect();
            if fresh.is_empty() {
                break;
            }
            // Several at once.
            let mut f = Fill(rounds + 3, 1);
            for b in 0..pts.len() {
                let pick: Vec<usize> = fresh.iter().copied().filter(|_| f.next() == 1).collect();
                let got = diff(b, &pick.iter().map(|i| &random[*i]).collect::<Vec<_>>())?;
                let mut want = vec![0; got.len()];
                for i in &pick {
                    want = xor(&want, &by[b][*i]);
                }
                if !blur.has(&xor(&got, &want)) {
                    panic!("randomness that looked linear is not: this analysis does not apply");
                }
            }
            for i in fresh {
                used[i] = true;
                blur.add(&by[0][i]);
            }
            rounds += 1;
        }
        let who = format!("{} parties {c:?}", self.inst.p.name());
        for b in 0..pts.len() {
            for (i, v) in by[b].iter().enumerate() {
                if !blur.has(v) {
                    let what = match &random[i] {
                        Step::Share(k, _) => format!("{:?} sharing {k}", self.parts[*k]),
                        Step::Draw(g, i, _) => format!("draw {i} of party {g}"),
                    };
                    return Err(format!("{who}: what they receive depends on {what} in a way that fresh randomness does not cover"));
                }
            }
        }
        let mut touched = 0;
        for (name, s) in &secret {
            let mut any = false;
            for b in 0..pts.len() {
                let v = diff(b, &[s])?;
                any |= v.iter().any(|x| *x != 0);
                if !blur.has(&v) {
                    return Err(format!("{who}: what they receive tells about {name}"));
                }
            }
            touched += any as usize;
        }
        // Many secrets at once, and views of unrelated points.
        let mut f = Fill(99, 1);
        for b in 0..pts.len() {
            let pick: Vec<&Step> = secret.iter().filter(|_| f.next() == 1).map(|x| &x.1).collect();
            if !blur.has(&diff(b, &pick)?) {
                return Err(format!("{who}: what they receive tells about several secrets together"));
            }
        }
        Ok(format!("{who}: {} secret and {} random bits, {} bits of the view uniform after {rounds} rounds, {touched} secret bits reach the view", secret.len(), random.len(), blur.dim()))
    }
}

fn study<const W: u8>(ctx: &Ctx, p: Par, circs: &[C], bases: u64) {
    let dir = scratch();
    let ss: Vec<Study<W>> = circs.iter().map(|c| Study::new(p, c, &dir)).collect();
    let items: Vec<(usize, Vec<usize>)> = (0..ss.len()).flat_map(|i| subsets(p.n, p.t).into_iter().map(move |c| (i, c))).collect();
    ctx.par_cases(&items, |(i, c)| format!("{W}:{}:{}:{}", p.name(), circs[*i].name(), c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")), |(i, c)| {
        let t0 = std::time::Instant::now();
        let s = ss[*i].decide(ctx, c, bases)?;
        if std::env::var("MC_TALK").is_ok() {
            eprintln!("{:?} {s}", t0.elapsed());
        }
        ctx.sample(format!("{}: {s}", circs[*i].name()));
        ctx.distinct(format!("{W}{}{}{c:?}", p.name(), circs[*i].name()).as_bytes());
        Ok(())
    });
}

fn run(ctx: &Ctx) {
    let g = |k, a, b, o| G { k, a, b, o };
    let and = C { inputs: vec![1, 1], outputs: vec![1], gates: vec![g(K::And, 0, 1, 2)] };
    let xor = C { inputs: vec![1, 1], outputs: vec![1], gates: vec![g(K::Xor, 0, 1, 2)] };
    let inv = C { inputs: vec![1], outputs: vec![1], gates: vec![g(K::Inv, 0, 0, 1)] };
    // Both outputs of one gate used again, a wire used three times, repeated operands.
    let chain = C { inputs: vec![1, 1], outputs: vec![1], gates: vec![g(K::Xor, 0, 1, 2), g(K::And, 2, 0, 3)] };
    let twice = C { inputs: vec![2], outputs: vec![2], gates: vec![g(K::And, 0, 1, 2), g(K::And, 1, 1, 3), g(K::Inv, 1, 1, 4)] };
    study::<3>(ctx, Par::new(3, 1, 1).lpn(1, 3), &[and.clone(), xor, inv.clone(), chain.clone()], 4);
    study::<4>(ctx, Par::new(3, 1, 1).lpn(1, 3), &[twice.clone()], 3);
    study::<4>(ctx, Par::new(3, 1, 1).lpn(2, 4), &[and.clone()], 3);
    study::<4>(ctx, Par::new(5, 2, 1).lpn(1, 3), &[inv.clone()], 3);
    study::<4>(ctx, Par::new(5, 1, 2).lpn(1, 3), &[and.clone(), twice.clone()], 3);
    if !ctx.quick() {
        study::<4>(ctx, Par::new(3, 1, 1).lpn(2, 4), &[twice.clone()], 3);
        study::<4>(ctx, Par::new(5, 2, 1).lpn(1, 3), &[and.clone()], 3);
        study::<4>(ctx, Par::new(4, 1, 1).lpn(1, 3), &[chain.clone(), twice.clone()], 6);
        study::<4>(ctx, Par::new(7, 2, 2).lpn(1, 3), &[and.clone()], 3);
        study::<4>(ctx, Par::new(7, 1, 3).lpn(1, 3), &[twice.clone()], 3);
        study::<18>(ctx, Par::new(3, 1, 1).lpn(1, 3), &[inv.clone(), chain.clone()], 3);
    }
}

fn main() {
    mc::main(Spec {
        id: "C29",
        level: "exploration",
        rule: "evaluations are complete garblings in which one value (or several) differs from a reference garbling; distinct counts (parameters, circuit, set of parties) decided",
        run,
    })
}
