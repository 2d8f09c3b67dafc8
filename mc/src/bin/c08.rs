//! C08: few shares say nothing about the secrets.
use mc::*;
use ndarray::ArrayView1;
use scalable_mpc::math::galois::GF;
use scalable_mpc::sharing::PackedSharing;
use std::collections::HashMap;

type Maker<'a, const W: u8> = Box<dyn Fn(&[u32], &mut TapeRng) -> Vec<u32> + Sync + 'a>;

/// The histogram of every k-subset of shares over all tapes is flat, for every secrets vector.
fn uniform<const W: u8>(ctx: &Ctx, n: usize, k: usize, nsec: usize, make: &Maker<W>, what: &str) -> Result<(), String> {
    let q = 1u32 << W;
    let subs = subsets(n, k);
    let mut err = Ok(());
    all_vecs(q, nsec, |sec| {
        // How much randomness one sharing takes.
        let mut probe = TapeRng::new(W as u32, &[]);
        make(sec, &mut probe);
        let draws = probe.used;
        let mut hist: Vec<HashMap<u64, u64>> = vec![HashMap::new(); subs.len()];
        let mut total = 0u64;
        all_vecs(q, draws, |tape| {
            let mut r = TapeRng::new(W as u32, tape);
            let sh = make(sec, &mut r);
            if r.used != draws {
                ctx.error(&format!("{what}: amount of randomness taken depends on its values, which this check cannot enumerate"));
                return false;
            }
            total += 1;
            for (s, h) in subs.iter().zip(hist.iter_mut()) {
                let key = s.iter().fold(0u64, |a, &i| a << W | sh[i] as u64);
                *h.entry(key).or_default() += 1;
            }
            true
        });
        if err.is_err() {
            return false;
        }
        ctx.count("evaluations", total);
        let cells = (q as u64).pow(k as u32);
        for (s, h) in subs.iter().zip(&hist) {
            if h.len() as u64 != cells || h.values().any(|c| *c * cells != total) {
                let (mn, mx) = (h.values().min().unwrap(), h.values().max().unwrap());
                err = Err(format!("{what}, secrets {sec:?}: shares of parties {s:?} take {} of {cells} values, {mn} to {mx} times each over all randomness", h.len()));
                return false;
            }
        }
        ctx.distinct_add(subs.len() as u64);
        true
    });
    err
}

fn tiny<const W: u8>(ctx: &Ctx, nmax: u32, cap: u64) {
    GF::<W>::init().unwrap();
    let q = 1u32 << W;
    let mut items = vec![];
    for n in 1..=nmax.min(q - 1) {
        for d in 0..n {
            for l in 1..=(d + 1).min(q - n) {
                if (q as u64).pow(d + 1) <= cap {
                    items.push((n, d, l, 0u32));
                    if q - n > l {
                        items.push((n, d, l, q - n - l));
                    }
                }
            }
        }
    }
    ctx.par_cases(&items, |x| format!("tiny:{W}:{x:?}").replace(' ', ""), |&(n, d, l, shift)| {
        let pos: Vec<u32> = (n + shift..n + shift + l).collect();
        let pg = gf::<W>(&pos);
        let p = PackedSharing::<W>::new(d, n, &pg);
        let k = (d + 1 - l) as usize;
        let what = format!("width {W}, {n} parties, degree {d}, {l} secrets");
        for nsec in 0..=l as usize {
            // With fewer secrets given, the missing positions are random too.
            let kk = k + l as usize - nsec;
            let mk: Maker<W> = Box::new(|s, r| un(&p.share(ArrayView1::from(&gf::<W>(s)), r)));
            let w = format!("{what}, {nsec} given");
            uniform::<W>(ctx, n as usize, kk.min(n as usize), nsec, &mk, &w)?;
            let co = PackedSharing::<W>::compute_share_coeffs(d, n, &pg);
            let mk: Maker<W> = Box::new(move |s, r| un(&PackedSharing::<W>::share_using_coeffs(ArrayView1::from(&gf::<W>(s)), co.view(), l, r)));
            uniform::<W>(ctx, n as usize, kk.min(n as usize), nsec, &mk, &format!("{w}, precomputed coefficients"))?;
        }
        let mk: Maker<W> = Box::new(|_, r| un(&p.rand(r)));
        uniform::<W>(ctx, n as usize, d as usize + 1, 0, &mk, &format!("{what}, random sharing"))?;
        // A random sharing: secrets together with d+1-l shares are uniform too.
        let mk: Maker<W> = Box::new(|_, r| {
            let sh = p.rand(r);
            let mut v = un(&sh);
            v.extend(un(&p.semihon_recon(ArrayView1::from(&sh))));
            v
        });
        uniform::<W>(ctx, (n + l) as usize, d as usize + 1, 0, &mk, &format!("{what}, random sharing with its secrets"))
    });
    ctx.sample(format!("width {W}: {} (parties, degree, secrets, positions) choices, every subset of shares", items.len()));
}

/// Larger parameters: shares as a linear map of secrets and randomness, rank of every subset.
fn large(ctx: &Ctx) {
    const W: u8 = 18;
    GF::<W>::init().unwrap();
    let rf = Rf::of::<W>();
    let mut list = vec![(16u32, 5u32, 3u32), (16, 3, 1), (16, 2, 6), (17, 4, 5), (8, 1, 3), (13, 6, 1), (20, 3, 7)];
    if !ctx.quick() {
        list.extend([(20, 6, 4), (24, 5, 7), (40, 3, 17), (64, 3, 20)]);
    }
    let mut items = vec![];
    for (n, t, l) in list {
        for d in [t + l - 1, 2 * (t + l - 1)] {
            for random in [false, true] {
                if d < n {
                    items.push((n, l, d, random));
                }
            }
        }
    }
    ctx.par_cases(&items, |x| format!("large:{x:?}").replace(' ', ""), |&(n, l, d, random)| {
        let p = PackedSharing::<W>::new(d, n, &PackedSharing::<W>::default_pos(n, l));
        let nsec = if random { 0 } else { l as usize };
        let make = |s: &[u32], tape: &[u32]| {
            let mut r = TapeRng::new(W as u32, tape);
            let v = if random { un(&p.rand(&mut r)) } else { un(&p.share(ArrayView1::from(&gf::<W>(s)), &mut r)) };
            (v, r.used)
        };
        let z = vec![0u32; nsec];
        let (base, draws) = make(&z, &[]);
        if base.iter().any(|x| *x != 0) {
            return Err("zero secrets and randomness do not give zero shares".into());
        }
        // Column of the map for every random value, confirmed to be linear in it.
        let mut cols: Vec<Vec<u32>> = vec![];
        for i in 0..draws {
            let mut tape = vec![0; draws];
            tape[i] = 1;
            let (col, _) = make(&z, &tape);
            for b in 0..18 {
                tape[i] = 1 << b;
                let (c2, _) = make(&z, &tape);
                ctx.count("evaluations", 1);
                if c2.iter().zip(&col).any(|(x, y)| *x != rf.mul(*y, 1 << b)) {
                    return Err(format!("shares are not linear in random value {i}"));
                }
            }
            cols.push(col);
        }
        for s in 0..nsec {
            let mut sec = z.clone();
            sec[s] = 0x2a5f3;
            let (a, _) = make(&sec, &vec![0; draws]);
            for i in 0..draws {
                let mut tape = vec![0; draws];
                tape[i] = 0x1c0de;
                let (b, _) = make(&sec, &tape);
                ctx.count("evaluations", 1);
                if (0..n as usize).any(|j| b[j] != a[j] ^ rf.mul(cols[i][j], 0x1c0de)) {
                    return Err(format!("the effect of random value {i} depends on the secrets"));
                }
            }
        }
        let need = if random { d + 1 } else { d + 1 - l } as usize;
        let mut count = 1u64;
        for i in 0..need as u64 {
            count = count.saturating_mul(n as u64 - i) / (i + 1);
        }
        let mut subs = vec![];
        if count <= ctx.pick(20_000, 400_000) {
            subs = subsets(n as usize, need);
        } else {
            ctx.note(&format!("spaced_subsets_only_{n}_{l}_{d}_{random}"), format!("of {count}"));
            for s in 0..n as usize {
                for step in [1usize, 3, 5, 7] {
                    let v: Vec<usize> = (0..need).map(|i| (s + i * step) % n as usize).collect();
                    let mut u = v.clone();
                    u.sort();
                    u.dedup();
                    if u.len() == need {
                        subs.push(v);
                    }
                }
            }
        }
        for s in &subs {
            let m: Vec<Vec<u32>> = s.iter().map(|&j| cols.iter().map(|col| col[j]).collect()).collect();
            if mc::lin::rank(&rf, &m) != need {
                return Err(format!("{n} parties, degree {d}, {l} secrets: shares of parties {s:?} are not uniform given the secrets"));
            }
        }
        ctx.count("evaluations", subs.len() as u64);
        ctx.distinct_add(subs.len() as u64);
        Ok(())
    });
    ctx.assume("field draws are uniform and independent (draw mapping judged by C11); in the shipped field shares are a linear map of secrets and draws, confirmed on every unit draw with every power of two");
}

fn run(ctx: &Ctx) {
    tiny::<1>(ctx, 1, 1 << 10);
    tiny::<2>(ctx, 3, 1 << 12);
    tiny::<3>(ctx, ctx.pick(6, 7), ctx.pick(1 << 12, 1 << 15));
    tiny::<4>(ctx, ctx.pick(5, 8), ctx.pick(1 << 12, 1 << 16));
    large(ctx);
}

fn main() {
    mc::main(Spec {
        id: "C08",
        level: "exploration",
        rule: "sharings made over all randomness (tiny fields) and ranks of share subsets (shipped field); distinct counts (parameters, secrets, share subset) triples judged",
        run,
    })
}
