//! C13: encoding round trips.
use mc::*;
use ndarray::{Array1, Array3};
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::preproc::PreProc;

fn elements<const W: u8>(ctx: &Ctx) {
    let q = GF::<W>::ORDER;
    let nb = (W as usize + 7) / 8;
    let chunks: Vec<u32> = (0..q.min(32)).collect();
    ctx.par_cases(&chunks, |c| format!("element:{W}:{c}"), |c| {
        let n = q.min(32) as u64;
        let lo = (q as u64 * *c as u64 / n) as u32;
        let hi = (q as u64 * (*c as u64 + 1) / n) as u32;
        if GF::<W>::NUM_BYTES != nb {
            return Err(format!("width {W}: advertised {} bytes", GF::<W>::NUM_BYTES));
        }
        let mut all = vec![];
        for a in lo..hi {
            let x = GF::<W>::from(a);
            let b = bincode::serialize(&x).map_err(|e| e.to_string())?;
            if b.len() != nb {
                return Err(format!("width {W}: {a} takes {} bytes, advertised {nb}", b.len()));
            }
            if bincode::serialized_size(&x).unwrap() != nb as u64 {
                return Err(format!("width {W}: size of {a}"));
            }
            let y: GF<W> = bincode::deserialize(&b).map_err(|e| format!("width {W}: {a}: {e}"))?;
            if u32::from(y) != a || y != x {
                return Err(format!("width {W}: {a} decodes to {}", u32::from(y)));
            }
            // In the middle of a longer message.
            let m = (7u8, x, 0xabcdu16, x);
            let b = bincode::serialize(&m).unwrap();
            let r: (u8, GF<W>, u16, GF<W>) = bincode::deserialize(&b).map_err(|e| format!("width {W}: {a}: {e}"))?;
            if r != m {
                return Err(format!("width {W}: {a} inside a message decodes to {}", u32::from(r.1)));
            }
            all.push(x);
        }
        for k in [0usize, 1, 2, 3, 17, all.len()] {
            let v = all[..k.min(all.len())].to_vec();
            let b = bincode::serialize(&v).unwrap();
            if b.len() != 8 + v.len() * nb {
                return Err(format!("width {W}: vector of {} takes {} bytes", v.len(), b.len()));
            }
            let s = bincode::serialize(v.as_slice()).unwrap();
            if s != b {
                return Err(format!("width {W}: a slice is encoded differently from a vector"));
            }
            let r: Vec<GF<W>> = bincode::deserialize(&b).map_err(|e| e.to_string())?;
            if r != v {
                return Err(format!("width {W}: vector of {} elements changes", v.len()));
            }
        }
        ctx.count("evaluations", (hi - lo) as u64 + 6);
        ctx.distinct_add((hi - lo) as u64);
        Ok(())
    });
}

fn material<const W: u8>(ctx: &Ctx) {
    let nb = (W as usize + 7) / 8;
    let q = GF::<W>::ORDER as u64;
    let mut shapes = vec![];
    let (mb, mk) = ctx.pick((6, 6), (10, 12));
    for blocks in 1..=mb {
        for k in 1..=mk {
            for r in [0usize, 1, 2, 5] {
                for z in [0usize, 1, 3] {
                    for e in [0usize, 1, 4] {
                        shapes.push((blocks, k, r, z, e));
                    }
                }
            }
        }
    }
    ctx.par_cases(&shapes, |s| format!("material:{W}:{s:?}"), |&(blocks, k, r, z, e)| {
        // All entries different as far as the width allows.
        let mut c = 0u64;
        let mut nxt = || {
            c += 1;
            GF::<W>::from((c.wrapping_mul(0x9e37_79b9) % q) as u32)
        };
        let p = PreProc::<W> {
            masks: Array1::from_shape_simple_fn(blocks, &mut nxt),
            keys: Array3::from_shape_simple_fn((2, k, blocks), &mut nxt),
            randoms: (0..r).map(|_| nxt()).collect(),
            zeros: (0..z).map(|_| nxt()).collect(),
            errors: (0..e).map(|_| nxt()).collect(),
        };
        let b = bincode::serialize(&p).map_err(|x| x.to_string())?;
        let shares = blocks + 2 * k * blocks + r + z + e;
        let want = shares * nb + 5 * 8;
        if b.len() != want || bincode::serialized_size(&p).unwrap() != want as u64 {
            return Err(format!("material with {shares} shares takes {} bytes, expected {want}", b.len()));
        }
        let d: PreProc<W> = bincode::deserialize(&b).map_err(|x| x.to_string())?;
        if d.masks != p.masks {
            return Err("masks change".into());
        }
        if d.keys.shape() != p.keys.shape() {
            return Err(format!("keys of shape {:?} decode to shape {:?}", p.keys.shape(), d.keys.shape()));
        }
        if d.keys != p.keys {
            return Err("keys change places".into());
        }
        if d.randoms != p.randoms || d.zeros != p.zeros || d.errors != p.errors {
            return Err("masking sharings, zero sharings or errors change".into());
        }
        // Material that has been partly used (front taken away) survives as well.
        let mut u = d;
        if r > 1 {
            u.randoms.pop_front();
            u.randoms.push_back(GF::ONE);
            let d2: PreProc<W> = bincode::deserialize(&bincode::serialize(&u).unwrap()).map_err(|x| x.to_string())?;
            if d2.randoms != u.randoms || d2.keys != u.keys {
                return Err("partly used material changes".into());
            }
        }
        ctx.count("evaluations", 1);
        ctx.distinct(format!("{W}{blocks},{k},{r},{z},{e}").as_bytes());
        Ok(())
    });
    ctx.sample(format!("width {W}: {} shapes, e.g. 3 blocks, 2 key elements, 5 masking sharings", shapes.len()));
}

fn run(ctx: &Ctx) {
    widths!(elements, ctx, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    if !ctx.quick() {
        widths!(elements, ctx, [21, 22, 23, 24, 25]);
    }
    widths!(material, ctx, [3, 8, 9, 16, 17, 18, 24]);
}

fn main() {
    mc::main(Spec {
        id: "C13",
        level: "exploration",
        rule: "elements and material shapes encoded and decoded; each element and shape once",
        run,
    })
}
