//! C27: dealer-simulated preprocessing.
use mc::circ::*;
use mc::garb::*;
use mc::proto::*;
use mc::*;
use mcrt::{Cfg, RngMode};
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::preproc::{PreProc, PreProcCount};
use scalable_mpc::sharing::PackedSharing;
use std::collections::HashSet;

struct Env<const W: u8> {
    p: Par,
    ctxs: Vec<scalable_mpc::protocol::MPCContext<W>>,
    low: Opener,
    high: Opener,
}

/// Material opened: secrets of each sharing, and all shares of each sharing.
struct Opened {
    masks: Vec<Vec<u32>>,
    keys: Vec<Vec<u32>>,
    randoms: Vec<Vec<u32>>,
    errors: Vec<Vec<u32>>,
    sharings: [Vec<Vec<u32>>; 5],
}

impl<const W: u8> Env<W> {
    fn new(p: Par) -> Self {
        GF::<W>::init().unwrap();
        let rf = Rf::of::<W>();
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        Env { p, ctxs: contexts::<W>(&p), low: Opener::new::<W>(&rf, p.n, p.d(), &pos), high: Opener::new::<W>(&rf, p.n, p.n - 1, &pos) }
    }

    /// Every party on its own, in a context built by itself.
    fn make(&self, seed: u64, k: PreProcCount) -> Vec<PreProc<W>> {
        self.ctxs.iter().map(|c| PreProc::dummy(seed, k, c)).collect()
    }

    fn open(&self, what: &str, k: PreProcCount, v: &[PreProc<W>]) -> Result<Opened, String> {
        for (i, m) in v.iter().enumerate() {
            let got = (m.masks.len(), m.keys.dim(), m.randoms.len(), m.zeros.len(), m.errors.len());
            let want = (k.masks, k.keys, k.randoms, k.zeros, k.errors);
            if got != want {
                return Err(format!("{what}: party {i} holds {got:?}, announced {want:?}"));
            }
        }
        let cols = |get: &dyn Fn(&PreProc<W>) -> Vec<GF<W>>| -> Vec<Vec<u32>> {
            let all: Vec<Vec<u32>> = v.iter().map(|m| un(&get(m))).collect();
            (0..all[0].len()).map(|j| all.iter().map(|a| a[j]).collect()).collect()
        };
        let sharings = [
            cols(&|m| m.masks.to_vec()),
            cols(&|m| m.keys.iter().copied().collect()),
            cols(&|m| m.randoms.iter().copied().collect()),
            cols(&|m| m.zeros.iter().copied().collect()),
            cols(&|m| m.errors.iter().copied().collect()),
        ];
        let open = |name: &str, s: &[Vec<u32>], o: &Opener| -> Result<Vec<Vec<u32>>, String> {
            s.iter().enumerate().map(|(i, x)| o.open(x).map_err(|e| format!("{what}: {name} {i}: {e}"))).collect()
        };
        let masks = open("mask", &sharings[0], &self.low)?;
        if let Some(i) = masks.iter().position(|m| m.iter().any(|x| *x > 1)) {
            return Err(format!("{what}: mask {i} holds {:?}", masks[i]));
        }
        let keys = open("key", &sharings[1], &self.low)?;
        let randoms = open("masking sharing", &sharings[2], &self.low)?;
        let zeros = open("zero sharing", &sharings[3], &self.high)?;
        if let Some(i) = zeros.iter().position(|m| m.iter().any(|x| *x != 0)) {
            return Err(format!("{what}: zero sharing {i} holds {:?}", zeros[i]));
        }
        let errors = open("error", &sharings[4], &self.low)?;
        Ok(Opened { masks, keys, randoms, errors, sharings })
    }
}

fn counts(masks: usize, k: usize, blocks: usize, randoms: usize, zeros: usize, errors: usize) -> PreProcCount {
    PreProcCount { masks, keys: (2, k, blocks), randoms, zeros, errors }
}

fn all_different(what: &str, name: &str, s: &[&Vec<u32>]) -> Result<(), String> {
    let set: HashSet<_> = s.iter().collect();
    if set.len() != s.len() {
        return Err(format!("{what}: two {name} are the same sharing"));
    }
    Ok(())
}

fn shapes<const W: u8>(ctx: &Ctx, p: Par, sizes: &[usize], seeds: &[u64]) {
    let env = Env::<W>::new(p);
    let mut v = vec![];
    for &m in sizes {
        for &b in sizes {
            for &r in sizes {
                for &z in sizes {
                    for &e in sizes {
                        v.push((m, b, r, z, e));
                    }
                }
            }
        }
    }
    ctx.par_cases(&v, |x| format!("shape:{W}:{}:{x:?}", p.name()).replace(' ', ""), |&(m, b, r, z, e)| {
        let k = counts(m, p.k, b, r, z, e);
        for s in seeds {
            let what = format!("{} seed {s} counts {:?}", p.name(), (m, b, r, z, e));
            let o = env.open(&what, k, &env.make(*s, k))?;
            let all: Vec<&Vec<u32>> = o.sharings[1].iter().chain(&o.sharings[2]).chain(&o.sharings[4]).collect();
            all_different(&what, "sharings of random values", &all)?;
            all_different(&what, "zero sharings", &o.sharings[3].iter().collect::<Vec<_>>())?;
            all_different(&what, "masks", &o.sharings[0].iter().collect::<Vec<_>>())?;
            if o.sharings[3].iter().any(|x| x.iter().all(|y| *y == 0)) {
                return Err(format!("{what}: a zero sharing without randomness"));
            }
            ctx.count("evaluations", 1);
            if m * b * r * z * e > 0 {
                ctx.sample(format!("{what}: masks {:?}, first error {:?} opened from {:?}", o.masks, o.errors[0], o.sharings[4][0]));
            }
        }
        ctx.distinct(format!("{p:?}{m},{b},{r},{z},{e}").as_bytes());
        Ok(())
    });
}

/// Longer batches: up to and beyond the number of sharings generated at once.
fn long<const W: u8>(ctx: &Ctx, p: Par) {
    let env = Env::<W>::new(p);
    let sizes: Vec<(&str, PreProcCount)> = vec![
        ("all-1000", counts(1000, p.k, 500, 1000, 1000, 1000)),
        ("masks", counts(100_003, p.k, 1, 1, 1, 1)),
        ("keys", counts(1, p.k, 100_001, 2, 1, 2)),
        ("randoms", counts(1, p.k, 1, 250_001, 1, 3)),
        ("zeros", counts(1, p.k, 1, 1, 100_001, 1)),
        ("errors", counts(2, p.k, 3, 1, 2, 100_001)),
        ("exact", counts(100_000, p.k, 10, 100_000 - 30 * p.k, 100_000, 10 * p.k)),
    ];
    ctx.par_cases(&sizes, |x| format!("long:{W}:{}:{}", p.name(), x.0), |(n, k)| {
        let what = format!("{} {n}", p.name());
        let o = env.open(&what, *k, &env.make(7, *k))?;
        for (name, s) in [("masks", &o.masks), ("keys", &o.keys), ("masking values", &o.randoms), ("errors", &o.errors)] {
            // A bit or symbol that never changes over a thousand sharings.
            if s.len() >= 1000 {
                for slot in 0..p.l {
                    if s.iter().all(|x| x[slot] == s[0][slot]) {
                        return Err(format!("{what}: slot {slot} of all {name} is {}", s[0][slot]));
                    }
                }
            }
        }
        if *n == "all-1000" {
            let all: Vec<&Vec<u32>> = o.sharings[1].iter().chain(&o.sharings[2]).chain(&o.sharings[4]).collect();
            all_different(&what, "sharings of random values", &all)?;
            all_different(&what, "zero sharings", &o.sharings[3].iter().collect::<Vec<_>>())?;
        }
        ctx.count("evaluations", 1);
        ctx.distinct(format!("{p:?}{n}").as_bytes());
        Ok(())
    });
}

fn seeds<const W: u8>(ctx: &Ctx, p: Par, num: u64) {
    let env = Env::<W>::new(p);
    ctx.case(&format!("seeds:{W}:{}", p.name()), || {
        let mut list: Vec<u64> = (0..num).collect();
        list.extend((0..64).map(|i| 1u64 << i));
        list.extend([200, 201, 202, u64::MAX, u64::MAX - 1]);
        list.sort_unstable();
        list.dedup();
        let k = counts(64, p.k, 4, 8, 8, 8);
        let got: Vec<(u64, Vec<Vec<u32>>)> = {
            let out = std::sync::Mutex::new(vec![]);
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|s| {
                for _ in 0..threads() {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= list.len() {
                            return;
                        }
                        let m = PreProc::dummy(list[i], k, &env.ctxs[0]);
                        let parts = vec![un(&m.masks.to_vec()), un(&m.randoms.iter().copied().collect::<Vec<_>>()), un(&m.zeros.iter().copied().collect::<Vec<_>>()), un(&m.errors.iter().copied().collect::<Vec<_>>()), un(&m.keys.iter().copied().collect::<Vec<_>>())];
                        out.lock().unwrap().push((list[i], parts));
                    });
                }
            });
            out.into_inner().unwrap()
        };
        for (j, name) in ["masks", "masking sharings", "zero sharings", "errors", "keys"].iter().enumerate() {
            let mut seen = std::collections::HashMap::new();
            for (s, parts) in &got {
                if let Some(o) = seen.insert(&parts[j], s) {
                    return Err(format!("{}: seeds {o} and {s} give party 0 the same {name}", p.name()));
                }
                ctx.count("evaluations", 1);
            }
        }
        ctx.distinct_add(got.len() as u64);
        Ok(())
    });
}

fn garbling<const W: u8>(ctx: &Ctx, p: Par, cs: &[C], seeds: &[u64], dir: &std::path::Path) {
    ctx.par_cases(cs, |c| format!("garble:{W}:{}:{}", p.name(), c.name()), |c| {
        let inst = Inst::<W>::new(p, c, dir);
        let env = Env::<W>::new(p);
        let enc = inst.code();
        let public = inst.identify(|_| {})?;
        for s in seeds {
            let pre = env.make(*s, inst.counts);
            let o = env.open(&format!("{} seed {s}", p.name()), inst.counts, &pre)?;
            let wb = inst.wire_blocks();
            if o.masks.len() != wb.len() || o.keys.len() != 2 * p.k * wb.len() {
                return Err(format!("{} masks and {} key elements for {} blocks of wires", o.masks.len(), o.keys.len(), wb.len()));
            }
            let mut m = inst.zero_mat();
            for (b, wires) in wb.iter().enumerate() {
                for (slot, w) in wires.iter().enumerate() {
                    m.masks[*w as usize] = o.masks[b][slot] == 1;
                    for bit in 0..2 {
                        for k in 0..p.k {
                            m.keys[*w as usize][bit][k] = o.keys[(bit * p.k + k) * wb.len() + b][slot];
                        }
                    }
                }
            }
            m.errors = o.errors.clone();
            let (out, t) = inst.run(Cfg { rng: RngMode::Stream(3), ..Cfg::default() }, Net::Local, pre);
            ctx.count("task_steps", out.steps);
            ctx.count("evaluations", 1);
            let t = t?;
            let errs = inst.explain(&public, &enc, &m, &t)?;
            let nin = c.n_in() as usize;
            for x in 0..1u32 << nin {
                let x: Vec<bool> = (0..nin).map(|i| x >> i & 1 == 1).collect();
                if inst.walk(&public, &enc, &m, &errs, &t, &x)? != c.eval(&x) {
                    return Err(format!("garbling with simulated material, inputs {x:?}: wrong outputs"));
                }
            }
        }
        ctx.distinct(format!("{p:?}{}", c.name()).as_bytes());
        Ok(())
    });
}

fn run(ctx: &Ctx) {
    let dir = scratch();
    let sizes: &[usize] = ctx.pick(&[0, 1, 3], &[0, 1, 2, 5]);
    let sd: &[u64] = ctx.pick(&[0], &[0, 1, 200]);
    let ps = [Par::new(3, 1, 1), Par::new(5, 1, 2).lpn(2, 3), Par::new(7, 1, 3), Par::new(7, 2, 2), Par::new(6, 1, 1)];
    shapes::<18>(ctx, ps[0], sizes, sd);
    shapes::<18>(ctx, ps[1], ctx.pick(&[0, 2], sizes), sd);
    for p in ps.iter().copied().skip(2).chain([Par::new(9, 2, 3), Par::new(16, 5, 3).lpn(5, 7)]) {
        shapes::<18>(ctx, p, ctx.pick(&[2], &[1, 3]), &[0, 200]);
    }
    for p in ctx.pick(&ps[..2], &ps[..]) {
        long::<18>(ctx, *p);
    }
    seeds::<18>(ctx, ps[0], ctx.pick(40, 300));
    let one = |nin: u32, g: Vec<G>| C { inputs: vec![nin], outputs: vec![1], gates: g };
    let cs: Vec<C> = all_gates(2, ctx.pick(1, 2), &ALL, true).into_iter().map(|g| one(2, g)).chain([one(3, vec![G { k: K::And, a: 0, b: 2, o: 3 }, G { k: K::Xor, a: 3, b: 1, o: 4 }, G { k: K::And, a: 4, b: 3, o: 5 }, G { k: K::Inv, a: 5, b: 5, o: 6 }])]).collect();
    for p in [ps[0].lpn(1, 3), ps[1]] {
        garbling::<18>(ctx, p, &cs, ctx.pick(&[200, 201], &[200, 201, 202, 0]), &dir);
    }
    ctx.assume("values beyond the internal pool repeat; only batches within it are required to consist of different sharings");
}

fn main() {
    mc::main(Spec {
        id: "C27",
        level: "exploration",
        rule: "one (parameters, counts) shape, one seed, or one circuit garbled with simulated material",
        run,
    })
}
