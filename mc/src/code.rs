//! Binary matrices whose outputs stay independent when inputs are dropped.
use crate::{threads, Ctx};

fn bits(m: &[Vec<u8>], i: usize) -> Vec<u64> {
    let n = m.len();
    let mut v = vec![0u64; (n + 63) / 64];
    for (j, row) in m.iter().enumerate() {
        if row[i] == 1 {
            v[j / 64] |= 1 << (j % 64);
        }
    }
    v
}

/// Shows that every combination of outputs has weight above t: any `z` blocks determine the
/// combination (so at most z-1 blocks vanish) and a block that does not vanish has a minimum weight.
fn certificate(ctx: &Ctx, gens: &[Vec<u64>], n: usize, k: usize, nb: usize, t: usize, cap: u64, cnt: &mut u64) -> bool {
    let nblocks = n / nb;
    let bit = |g: &Vec<u64>, j: usize| g[j / 64] >> (j % 64) & 1;
    let mut minw = usize::MAX;
    let mut maxr = 0;
    // Column j as a vector over the outputs.
    let col: Vec<u128> = (0..n).map(|j| (0..k).fold(0u128, |a, i| a | (bit(&gens[i], j) as u128) << i)).collect();
    for b in 0..nblocks {
        // Words of the block: span of the generators restricted to it.
        let mut basis: Vec<u64> = vec![];
        for g in gens {
            let mut v = (0..nb).fold(0u64, |a, j| a | bit(g, b * nb + j) << j);
            for x in &basis {
                v = v.min(v ^ x);
            }
            if v != 0 {
                basis.push(v);
                basis.sort_by(|a, b| b.cmp(a));
            }
        }
        if basis.len() > 20 {
            return false;
        }
        maxr = maxr.max(basis.len());
        let mut acc = 0u64;
        for c in 1u64..1 << basis.len() {
            acc ^= basis[c.trailing_zeros() as usize];
            minw = minw.min(acc.count_ones() as usize);
            *cnt += 1;
        }
    }
    if maxr == 0 {
        return false;
    }
    let mut z = (k + maxr - 1) / maxr;
    while z <= nblocks {
        if (nblocks + 1 - z) * minw <= t {
            return false;
        }
        let mut sets = 1f64;
        for i in 0..z {
            sets = sets * (nblocks - i) as f64 / (i + 1) as f64;
        }
        if sets > cap as f64 {
            return false;
        }
        // Every z-set of blocks, by depth-first extension of an echelon basis.
        let ok = std::sync::atomic::AtomicBool::new(true);
        let total = std::sync::atomic::AtomicU64::new(0);
        fn insert(e: &mut [u128; 128], mut v: u128) -> bool {
            while v != 0 {
                let b = 127 - v.leading_zeros() as usize;
                if e[b] == 0 {
                    e[b] = v;
                    return true;
                }
                v ^= e[b];
            }
            false
        }
        fn rec(col: &[u128], nb: usize, nblocks: usize, from: usize, left: usize, e: &[u128; 128], rank: usize, k: usize, cnt: &mut u64) -> bool {
            if left == 0 {
                *cnt += 1;
                return rank == k;
            }
            for b in from..=nblocks - left {
                let mut e2 = *e;
                let mut r = rank;
                for j in 0..nb {
                    if insert(&mut e2, col[b * nb + j]) {
                        r += 1;
                    }
                }
                if !rec(col, nb, nblocks, b + 1, left - 1, &e2, r, k, cnt) {
                    return false;
                }
            }
            true
        }
        let pairs: Vec<(usize, usize)> = if z >= 2 { (0..nblocks).flat_map(|a| (a + 1..nblocks).map(move |b| (a, b))).collect() } else { vec![] };
        if z < 2 || pairs.is_empty() {
            let mut c = 0;
            if !rec(&col, nb, nblocks, 0, z, &[0; 128], 0, k, &mut c) {
                ok.store(false, std::sync::atomic::Ordering::SeqCst);
            }
            *cnt += c;
        } else {
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|s| {
                for _ in 0..threads() {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= pairs.len() || !ok.load(std::sync::atomic::Ordering::SeqCst) || ctx.out_of_time() {
                            break;
                        }
                        let (a, b) = pairs[i];
                        if nblocks - b - 1 < z - 2 {
                            continue;
                        }
                        let mut e = [0u128; 128];
                        let mut r = 0;
                        for blk in [a, b] {
                            for j in 0..nb {
                                if insert(&mut e, col[blk * nb + j]) {
                                    r += 1;
                                }
                            }
                        }
                        let mut c = 0;
                        if !rec(&col, nb, nblocks, b + 1, z - 2, &e, r, k, &mut c) {
                            ok.store(false, std::sync::atomic::Ordering::SeqCst);
                        }
                        total.fetch_add(c, std::sync::atomic::Ordering::SeqCst);
                    });
                }
            });
            if ctx.out_of_time() {
                return false;
            }
        }
        *cnt += total.load(std::sync::atomic::Ordering::SeqCst);
        if ok.load(std::sync::atomic::Ordering::SeqCst) {
            return true;
        }
        z += 1;
    }
    false
}

/// Every combination of outputs (columns of `rows`) depends on more than t inputs: all combinations
/// up to `full` outputs, through sets of blocks (at most `cap`) or few outputs at a time beyond.
pub fn weights(ctx: &Ctx, key: &str, rows: &[Vec<u8>], t: usize, full: usize, cap: u64, deep: usize) {
    let (n, k) = (rows.len(), rows[0].len());
    // Full rank after dropping any t inputs: every combination of outputs involves more than t
    // inputs.
    let gens: Vec<Vec<u64>> = (0..k).map(|i| bits(rows, i)).collect();
    let wt = |v: &[u64]| v.iter().map(|x| x.count_ones()).sum::<u32>() as usize;
    if k <= full {
        ctx.case(&format!("{key}:all-combinations"), || {
            let mut acc = vec![0u64; gens[0].len()];
            for c in 1u64..1 << k {
                let b = c.trailing_zeros() as usize;
                for (a, g) in acc.iter_mut().zip(&gens[b]) {
                    *a ^= g;
                }
                if wt(&acc) <= t {
                    return Err(format!("{key}: a combination of outputs depends on only {} inputs", wt(&acc)));
                }
            }
            ctx.count("evaluations", (1 << k) - 1);
            ctx.distinct_add((1 << k) - 1 - k as u64);
            Ok(())
        });
    } else {
        // Concatenated structure: enough non-zero blocks, each of enough weight.
        let mut proven = false;
        for nb in [8usize, 16, 32, 64] {
            if n % nb != 0 || k > 128 || proven {
                continue;
            }
            let mut cnt = 0;
            ctx.case(&format!("{key}:blocks-of-{nb}"), || {
                proven = certificate(ctx, &gens, n, k, nb, t, cap, &mut cnt);
                Ok(())
            });
            ctx.count("evaluations", cnt);
            ctx.distinct_add(cnt);
            if proven {
                ctx.sample(format!("{key}: all combinations covered through blocks of {nb}, {cnt} block sets and block words"));
            }
        }
        let depth = if proven { 2 } else { deep };
        if !proven {
            ctx.not_exhaustive("a larger binary matrix: combinations of a few outputs only");
        }
        let firsts: Vec<usize> = (0..k).collect();
        ctx.par_cases(&firsts, |i| format!("{key}:combinations:{i}"), |&i| {
            fn rec(gens: &[Vec<u64>], from: usize, acc: &[u64], left: usize, t: usize, cnt: &mut u64) -> Result<(), usize> {
                let w = acc.iter().map(|x| x.count_ones()).sum::<u32>() as usize;
                *cnt += 1;
                if w <= t {
                    return Err(w);
                }
                if left == 0 {
                    return Ok(());
                }
                for j in from..gens.len() {
                    let v: Vec<u64> = acc.iter().zip(&gens[j]).map(|(a, b)| a ^ b).collect();
                    rec(gens, j + 1, &v, left - 1, t, cnt)?;
                }
                Ok(())
            }
            let mut cnt = 0;
            let r = rec(&gens, i + 1, &gens[i], depth - 1, t, &mut cnt);
            ctx.count("evaluations", cnt);
            ctx.distinct_add(cnt);
            r.map_err(|w| format!("{key}: a combination of outputs depends on only {w} inputs"))
        });
    }
}
