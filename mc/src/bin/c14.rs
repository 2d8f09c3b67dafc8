//! C14: interpolation matrices.
use mc::*;
use ndarray::{Array1, ArrayView};
use scalable_mpc::math::{galois::GF, lagrange_coeffs};

fn check<const W: u8>(rf: &Rf, cp: &[u32], np: &[u32]) -> Result<(), String> {
    let m = lagrange_coeffs(&gf::<W>(cp), &gf::<W>(np));
    if m.shape() != [np.len(), cp.len()] {
        return Err(format!("matrix for {} known and {} target points has shape {:?}", cp.len(), np.len(), m.shape()));
    }
    for (i, &t) in np.iter().enumerate() {
        // Every monomial of degree below the number of known points.
        for d in 0..cp.len() {
            let mut got = 0;
            for (j, &c) in cp.iter().enumerate() {
                got ^= rf.mul(u32::from(m[[i, j]]), rf.pow(c, d as u64));
            }
            let want = rf.pow(t, d as u64);
            if got != want {
                return Err(format!("width {W}: known points {cp:?}, target {t}: x^{d} gives {got}, expected {want}"));
            }
        }
    }
    // The way callers apply it.
    let ys: Vec<u32> = cp.iter().map(|c| rf.eval(&(1..=cp.len() as u32).map(|k| k % rf.order()).collect::<Vec<_>>(), *c)).collect();
    let v: Array1<GF<W>> = m.dot(&ArrayView::from(&gf::<W>(&ys)));
    for (i, &t) in np.iter().enumerate() {
        let want = rf.eval(&(1..=cp.len() as u32).map(|k| k % rf.order()).collect::<Vec<_>>(), t);
        if u32::from(v[i]) != want {
            return Err(format!("width {W}: known points {cp:?}, target {t}: applied matrix gives {}", u32::from(v[i])));
        }
    }
    Ok(())
}

fn ordered(q: u32, k: usize, out: &mut Vec<Vec<u32>>) {
    fn rec(q: u32, k: usize, cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for v in 0..q {
            if !cur.contains(&v) {
                cur.push(v);
                rec(q, k, cur, out);
                cur.pop();
            }
        }
    }
    rec(q, k, &mut vec![], out);
}

fn all_lists(q: u32, lo: usize, hi: usize) -> Vec<Vec<u32>> {
    let mut v = vec![];
    for k in lo..=hi {
        ordered(q, k, &mut v);
    }
    v
}

fn tiny<const W: u8>(ctx: &Ctx, kmax: usize, nmax: usize) {
    GF::<W>::init().unwrap();
    let rf = Rf::of::<W>();
    let q = rf.order();
    let cps = all_lists(q, 1, kmax);
    let nps = all_lists(q, 0, nmax);
    let full: Vec<u32> = (0..q).collect();
    for (order, threads) in [(0u8, 1usize), (1, 4), (3, 8), (0, 3)] {
        ctx.par_cases(&cps, |c| format!("lists:{W}:{order}:{threads}:{c:?}"), |cp| {
            mcrt::set_plain_parallel(order, threads);
            for np in &nps {
                check::<W>(&rf, cp, np)?;
            }
            check::<W>(&rf, cp, &full)?;
            if cp.len() == kmax && order == 0 {
                let m: Vec<u32> = lagrange_coeffs(&gf::<W>(cp), &gf::<W>(&full)).iter().map(|x| u32::from(*x)).collect();
                ctx.sample(format!("width {W}: known {cp:?}, targets {full:?}: matrix {m:?}"));
            }
            let mut r = full.clone();
            r.reverse();
            check::<W>(&rf, cp, &r)?;
            ctx.count("evaluations", nps.len() as u64 + 2);
            if order == 0 && threads == 1 {
                ctx.distinct_add(nps.iter().filter(|n| !n.is_empty()).count() as u64 + 1);
            }
            Ok(())
        });
    }
}

fn run(ctx: &Ctx) {
    tiny::<1>(ctx, 2, 2);
    tiny::<2>(ctx, 4, 4);
    tiny::<3>(ctx, ctx.pick(3, 4), 2);
    // Larger sets of the positions the library uses, every target.
    GF::<18>::init().unwrap();
    GF::<8>::init().unwrap();
    let rf18 = Rf::of::<18>();
    let rf8 = Rf::of::<8>();
    let sizes: Vec<usize> = (1..=ctx.pick(20, 48)).collect();
    for (order, threads) in [(0u8, 1usize), (1, 4), (3, 8)] {
        ctx.par_cases(&sizes, |k| format!("range:{order}:{threads}:{k}"), |&k| {
            mcrt::set_plain_parallel(order, threads);
            // contiguous, shifted, reversed, spread out
            let sets: Vec<Vec<u32>> = vec![
                (0..k as u32).collect(),
                (0..k as u32).rev().collect(),
                (5..5 + k as u32).collect(),
                (0..k as u32).map(|i| (i * 37 + 11) % 251).collect(),
            ];
            let targets: Vec<u32> = (0..60).collect();
            let far: Vec<u32> = (0..20).map(|i| (1 << 18) - 1 - i * 977).collect();
            for s in &sets {
                check::<18>(&rf18, s, &targets)?;
                check::<18>(&rf18, s, &far)?;
                check::<8>(&rf8, s, &targets)?;
                let sp: Vec<u32> = s.iter().map(|v| v * 1021 + 3).collect();
                check::<18>(&rf18, &sp, &targets)?;
                ctx.count("evaluations", 4);
                if order == 0 {
                    ctx.distinct_add(4);
                }
            }
            Ok(())
        });
    }
    ctx.assume("the parallel pieces of one call are independent; orders left-first, right-first and alternating with 1, 3, 4 and 8 workers are run, not every interleaving");
}

fn main() {
    mc::main(Spec {
        id: "C14",
        level: "exploration",
        rule: "pairs of known-point and target-point lists, each judged on every monomial; distinct pairs with at least one target counted once although run under several orders of the parallel pieces",
        run,
    })
}
