//! C06: joint randomness is uniform for every set of t parties.
use mc::pre::*;
use mc::proto::*;
use mc::secrecy::*;
use mc::*;
use ndarray::Array2;
use scalable_mpc::math::{binary_super_inv_matrix, galois::GF, super_inv_matrix};
use scalable_mpc::protocol::preproc::{rand, randbit, zero, RandBitContext, RandContext, ZeroContext};
use scalable_mpc::protocol::MPCContext;
use scalable_mpc::sharing::PackedSharing;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum What {
    Rand,
    Zero,
    Bit,
}

struct Env<const W: u8> {
    p: Par,
    what: What,
    mat: Arc<Array2<GF<W>>>,
    ctxs: Vec<MPCContext<W>>,
    op: Opener,
}

impl<const W: u8> Env<W> {
    fn new(p: Par, what: What, mat: Arc<Array2<GF<W>>>) -> Self {
        GF::<W>::init().unwrap();
        let rf = Rf::of::<W>();
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        let d = if what == What::Zero { p.n - 1 } else { p.d() };
        Env { p, what, mat, ctxs: contexts::<W>(&p), op: Opener::new::<W>(&rf, p.n, d, &pos) }
    }
    fn usual(p: Par, what: What) -> Self {
        GF::<W>::init().unwrap();
        let mat = match what {
            What::Bit => matrix::<W>(&small_binary(p.n, p.t)),
            _ => Arc::new(super_inv_matrix(p.n, p.n - p.t)),
        };
        Self::new(p, what, mat)
    }
    fn run(&self, num: usize, tape: &Tape) -> Result<Seen, String> {
        let run = parties(tape_cfg(W, tape), Net::Tcp, self.p.n, |i, net, _| {
            let (c, m, what) = (self.ctxs[i].clone(), self.mat.clone(), self.what);
            async move {
                match what {
                    What::Rand => rand(vec![1], num, RandContext::new(m, &c), net).await.to_vec(),
                    What::Zero => zero(vec![1], num, ZeroContext::new(m, &c), net).await.to_vec(),
                    What::Bit => randbit(vec![1], num, RandBitContext::new(m, &c), net).await.to_vec(),
                }
            }
        });
        finished(&run.out)?;
        let out: Vec<Vec<u32>> = run.vals.iter().map(|v| un(v.as_ref().unwrap())).collect();
        let k = out[0].len();
        if k < num || out.iter().any(|o| o.len() != k) {
            return Err(format!("{} sharings asked for, parties hold {:?} shares", num, out.iter().map(|o| o.len()).collect::<Vec<_>>()));
        }
        for j in 0..k {
            let s = self.op.open(&out.iter().map(|o| o[j]).collect::<Vec<_>>()).map_err(|e| format!("{:?} {j}: {e}", self.what))?;
            let ok = match self.what {
                What::Rand => true,
                What::Zero => s.iter().all(|x| *x == 0),
                What::Bit => s.iter().all(|x| *x <= 1),
            };
            if !ok {
                return Err(format!("{:?} {j} holds {s:?}", self.what));
            }
        }
        Ok(Seen { streams: run.streams, draws: run.out.draws, out })
    }
    /// Bits of freedom one output has to have for a set of `c` parties.
    fn free(&self, c: usize) -> usize {
        let (p, w) = (self.p, W as usize);
        match self.what {
            What::Rand => w * (p.d() + 1 - c),
            What::Zero => w * (p.n - p.l - c),
            What::Bit => p.l + w * (p.t - c),
        }
    }
    fn name(&self) -> String {
        format!("{:?} {} width {W}", self.what, self.p.name())
    }
    /// Uniform for every set of at most t parties?
    fn decide(&self, ctx: &Ctx, num: usize) -> Result<(), String> {
        let lin = probe(W, &[], &[], |_, t| self.run(num, t))?;
        ctx.count("evaluations", lin.runs);
        let k = lin.base.out[0].len();
        for c in corrupted(self.p.n, self.p.t) {
            let (got, want) = (lin.freedom(&c), k * self.free(c.len()));
            ctx.count("party_sets_decided", 1);
            ctx.distinct(format!("{} {num} {c:?}", self.name()).as_bytes());
            if got != want {
                return Err(format!("{}: {k} outputs have {got} bits of freedom for parties {c:?}, uniform ones have {want}", self.name()));
            }
        }
        Ok(())
    }
}

fn linear<const W: u8>(ctx: &Ctx, pars: &[Par]) {
    let mut items = vec![];
    for &p in pars {
        for what in [What::Rand, What::Zero, What::Bit] {
            // One output, a full batch, one more than a batch.
            for num in [1, p.n - p.t, p.n - p.t + 1] {
                items.push((p, what, num));
            }
        }
    }
    ctx.par_cases(&items, |(p, w, k)| format!("linear:{W}:{}:{w:?}:{k}", p.name()), |&(p, what, num)| Env::<W>::usual(p, what).decide(ctx, num));
}

/// The binary matrix for sixteen parties that comes with the programs.
fn shipped(ctx: &Ctx) {
    const W: u8 = 5;
    GF::<W>::init().unwrap();
    let mut items = vec![];
    for f in ["data/binsup_mat/n16_t5.txt"] {
        if std::path::Path::new("/repo").join(f).exists() {
            for l in if ctx.quick() { vec![3] } else { vec![1, 2, 3] } {
                items.push((f, l));
            }
        }
    }
    ctx.par_cases(&items, |(f, l)| format!("shipped:{f}:{l}"), |&(f, l)| {
        let m = binary_super_inv_matrix::<W>(&std::path::Path::new("/repo").join(f));
        Env::<W>::new(Par::new(16, 5, l), What::Bit, Arc::new(m)).decide(ctx, 1)
    });
}

/// Every tape of every party.
fn all_tapes<const W: u8>(ctx: &Ctx, p: Par, what: What) {
    let env = Env::<W>::usual(p, what);
    let key = format!("tapes:{W}:{}:{what:?}", p.name());
    ctx.case(&key, || {
        let first = env.run(1, &Tape::new())?;
        let slots: Vec<(u32, u32)> = first.draws.iter().flat_map(|(g, k)| (0..*k).map(move |i| (*g, i))).collect();
        let bits = slots.len() * W as usize;
        if bits > 20 {
            // More randomness than the protocol needs: too much for all tapes.
            ctx.sample(format!("{}: {bits} bits of randomness, decided by effects", env.name()));
            return env.decide(ctx, 1);
        }
        let q = (1u64 << W) - 1;
        let total = 1u64 << bits;
        let next = std::sync::atomic::AtomicU64::new(0);
        // For each set: (its own draws, what it receives) -> outputs -> how often.
        type Hist = HashMap<(Vec<u64>, Vec<u32>), HashMap<Vec<u32>, u32>>;
        let sets = corrupted(p.n, p.t);
        let all: std::sync::Mutex<Vec<Hist>> = std::sync::Mutex::new(vec![Hist::new(); sets.len()]);
        let bad: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
        std::thread::scope(|s| {
            for _ in 0..report::threads() {
                s.spawn(|| {
                    let mut mine: Vec<Hist> = vec![Hist::new(); sets.len()];
                    loop {
                        let from = next.fetch_add(64, std::sync::atomic::Ordering::SeqCst);
                        if from >= total || bad.lock().unwrap().is_some() {
                            break;
                        }
                        for x in from..(from + 64).min(total) {
                            let tape: Tape = slots.iter().enumerate().map(|(i, s)| (*s, (x >> (i * W as usize) & q) as u32)).collect();
                            let r = report::guarded(|| env.run(1, &tape));
                            let r = match r {
                                Ok(Ok(r)) => r,
                                Ok(Err(e)) | Err(report::Fail::Code(e)) => {
                                    *bad.lock().unwrap() = Some(format!("tape {x:#x}: {e}"));
                                    return;
                                }
                                Err(report::Fail::Harness(e)) => {
                                    ctx.error(&e);
                                    *bad.lock().unwrap() = Some(e);
                                    return;
                                }
                            };
                            for (c, h) in sets.iter().zip(mine.iter_mut()) {
                                let own: Vec<u32> = slots.iter().filter(|s| c.contains(&(s.0 as usize))).map(|s| tape[s]).collect();
                                *h.entry((view_bits(&r.streams, c), own)).or_default().entry(r.out.concat()).or_insert(0) += 1;
                            }
                        }
                    }
                    let mut a = all.lock().unwrap();
                    for (t, m) in a.iter_mut().zip(mine) {
                        for (k, v) in m {
                            let e = t.entry(k).or_default();
                            for (o, n) in v {
                                *e.entry(o).or_insert(0) += n;
                            }
                        }
                    }
                });
            }
        });
        if let Some(e) = bad.into_inner().unwrap() {
            return Err(e);
        }
        ctx.count("evaluations", total);
        let k = first.out[0].len();
        for (c, h) in sets.iter().zip(all.into_inner().unwrap()) {
            let want = 1usize << (k * env.free(c.len()));
            for (view, outs) in &h {
                let one = outs.values().next().unwrap();
                if outs.len() != want || outs.values().any(|n| n != one) {
                    return Err(format!("{}: with view {view:?} parties {c:?} see {} possible outputs (uniform: {want}), counts {:?}", env.name(), outs.len(), outs.values().collect::<Vec<_>>()));
                }
            }
            ctx.distinct_add(h.len() as u64);
        }
        ctx.sample(format!("{}: all {total} tapes of {} draws, {k} outputs per tape", env.name(), slots.len()));
        Ok(())
    });
}

/// The oracle must reject a matrix that passes single contributions on.
fn control(ctx: &Ctx) {
    if ctx.replaying().is_some() {
        return;
    }
    let p = Par::new(4, 1, 1);
    let rows: Vec<Vec<u32>> = (0..3).map(|i| (0..4).map(|j| (i == j) as u32).collect()).collect();
    GF::<4>::init().unwrap();
    for what in [What::Rand, What::Zero, What::Bit] {
        let env = Env::<4>::new(p, what, matrix(&rows));
        if let Ok(Ok(lin)) = report::guarded(|| probe(4, &[], &[], |_, t| env.run(1, t))) {
            if lin.freedom(&[0]) == lin.base.out[0].len() * env.free(1) {
                ctx.error("a matrix that passes on single contributions is not told apart");
            }
        }
    }
}

fn run(ctx: &Ctx) {
    for what in [What::Rand, What::Zero, What::Bit] {
        all_tapes::<2>(ctx, Par::new(3, 1, 1), what);
    }
    control(ctx);
    linear::<3>(ctx, &[Par::new(3, 1, 1), Par::new(4, 1, 1), Par::new(5, 1, 2), Par::new(5, 2, 1), Par::new(6, 1, 2)]);
    linear::<4>(ctx, &[Par::new(7, 1, 3), Par::new(7, 2, 2), Par::new(7, 3, 1), Par::new(9, 2, 3)]);
    linear::<18>(ctx, &[Par::new(3, 1, 1), Par::new(5, 1, 2)]);
    shipped(ctx);
    if !ctx.quick() {
        all_tapes::<3>(ctx, Par::new(3, 1, 1), What::Rand);
        all_tapes::<3>(ctx, Par::new(3, 1, 1), What::Zero);
        linear::<5>(ctx, &[Par::new(10, 3, 2), Par::new(11, 2, 4), Par::new(12, 4, 2), Par::new(16, 5, 3)]);
    }
}

fn main() {
    mc::main(Spec {
        id: "C06",
        level: "exploration",
        rule: "evaluations are executions of the real protocols; distinct counts (protocol, parameters, set of parties) decided and, for complete enumerations, distinct views",
        run,
    })
}
