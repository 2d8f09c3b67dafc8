//! C10: checked reconstruction.
use mc::*;
use ndarray::{Array1, ArrayView1};
use scalable_mpc::math::galois::GF;
use scalable_mpc::sharing::PackedSharing;
use scalable_mpc::ProtoErrorKind;

fn judge<const W: u8>(rf: &Rf, p: &PackedSharing<W>, pos: &[u32], xs: &[u32], sh: &[u32]) -> Result<bool, String> {
    let d = p.degree() as usize;
    let ok = rf.consistent(xs, sh, d);
    let got = p.recon(Array1::from(gf::<W>(sh)).view());
    let what = || format!("width {W}, {} parties, degree {d}, positions {pos:?}: shares {sh:?}", xs.len());
    match (ok, got) {
        (true, Ok(v)) => {
            let want: Vec<u32> = pos.iter().map(|x| rf.interp(&xs[..d + 1], &sh[..d + 1], *x)).collect();
            if un(&v) != want {
                return Err(format!("{} open to {:?}, expected {want:?}", what(), un(&v)));
            }
        }
        (true, Err(e)) => return Err(format!("{} are consistent but rejected: {e:?}", what())),
        (false, Ok(_)) => return Err(format!("{} are inconsistent but accepted", what())),
        (false, Err(ProtoErrorKind::MaliciousBehavior)) => {}
        (false, Err(e)) => return Err(format!("{} are inconsistent but reported as {e:?}", what())),
    }
    Ok(!ok)
}

fn lengths<const W: u8>(p: &PackedSharing<W>, n: usize) -> Result<(), String> {
    for len in 0..2 * n + 3 {
        for fill in [0u32, 1] {
            if len == n {
                continue;
            }
            match p.recon(Array1::from(gf::<W>(&vec![fill; len])).view()) {
                Err(_) => {}
                Ok(_) => return Err(format!("width {W}, {n} parties: a vector of {len} shares is accepted")),
            }
        }
    }
    Ok(())
}

fn tiny<const W: u8>(ctx: &Ctx, nmax: u32, cap: u64) {
    GF::<W>::init().unwrap();
    let rf = Rf::of::<W>();
    let q = rf.order();
    let mut items = vec![];
    for n in 1..=nmax.min(q - 1) {
        for d in 0..n {
            for l in 1..=(d + 1).min(q - n) {
                items.push((n, d, l, 0));
                if q - n > l {
                    items.push((n, d, l, q - n - l));
                }
            }
        }
    }
    ctx.par_cases(&items, |x| format!("tiny:{W}:{x:?}").replace(' ', ""), |&(n, d, l, shift)| {
        let mut pos: Vec<u32> = (n + shift..n + shift + l).collect();
        if shift > 0 {
            pos.reverse();
        }
        let p = PackedSharing::<W>::new(d, n, &gf::<W>(&pos));
        let xs = un(&PackedSharing::<W>::share_pos(n));
        lengths(&p, n as usize)?;
        let total = (q as u64).pow(n);
        let mut err = Ok(());
        let (mut k, mut nt) = (0u64, 0u64);
        let mut each = |v: &[u32]| {
            match judge(&rf, &p, &pos, &xs, v) {
                Ok(b) => nt += b as u64,
                Err(e) => err = Err(e),
            }
            k += 1;
            err.is_ok()
        };
        if total <= cap {
            all_vecs(q, n as usize, &mut each);
        } else {
            // Alterations: each subset of up to 2 shares, all values, of some sharings.
            for i in 0..=d {
                let mut tape = vec![0; d as usize + 1];
                tape[i as usize] = 1 + i % (q - 1);
                let base = un(&p.rand(&mut TapeRng::new(W as u32, &tape)));
                for a in 0..n as usize {
                    for b in 0..=a {
                        for x in 0..q {
                            for y in 0..q {
                                let mut s = base.clone();
                                s[b] ^= y;
                                s[a] ^= x;
                                if !each(&s) {
                                    return err;
                                }
                            }
                        }
                    }
                }
            }
        }
        ctx.count("evaluations", k);
        ctx.distinct_add(nt);
        err
    });
    ctx.sample(format!("width {W}: {} choices of parties, degree and positions", items.len()));
}

fn large(ctx: &Ctx) {
    const W: u8 = 18;
    GF::<W>::init().unwrap();
    let rf = Rf::of::<W>();
    let mut items = vec![];
    for (n, t, l) in [(16u32, 5u32, 3u32), (16, 7, 1), (7, 1, 3), (33, 8, 8)] {
        for d in [t + l - 1, 2 * (t + l - 1), n - 1, n - 2] {
            if d < n {
                for s in 0..=d {
                    items.push((n, l, d, s));
                }
            }
        }
    }
    ctx.par_cases(&items, |x| format!("large:{x:?}").replace(' ', ""), |&(n, l, d, s)| {
        let pos = un(&PackedSharing::<W>::default_pos(n, l));
        let p = PackedSharing::<W>::new(d, n, &gf::<W>(&pos));
        let xs = un(&PackedSharing::<W>::share_pos(n));
        lengths(&p, n as usize)?;
        let mut tape = vec![0u32; d as usize + 1];
        tape[s as usize] = 0x2f0f1;
        let sh = p.share(ArrayView1::from(&gf::<W>(&tape[..l as usize])), &mut TapeRng::new(W as u32, &tape[l as usize..]));
        let base = un(&sh);
        judge(&rf, &p, &pos, &xs, &base)?;
        let mut k = 1u64;
        for a in 0..n as usize {
            for x in [1u32, 2, 1 << 17, 0x15555, base[a]] {
                let mut v = base.clone();
                v[a] ^= x;
                ctx.distinct_add(judge(&rf, &p, &pos, &xs, &v)? as u64);
                k += 1;
                for b in 0..a {
                    // equal differences too: they cancel in sums
                    for y in [x, 1, 0x3ffff] {
                        let mut v = v.clone();
                        v[b] ^= y;
                        ctx.distinct_add(judge(&rf, &p, &pos, &xs, &v)? as u64);
                        k += 1;
                    }
                }
            }
        }
        // every prefix and suffix of shares altered
        for c in 1..=n as usize {
            for from_end in [false, true] {
                let mut v = base.clone();
                for i in 0..c {
                    let j = if from_end { n as usize - 1 - i } else { i };
                    v[j] ^= 0x111 * (i as u32 + 1);
                }
                ctx.distinct_add(judge(&rf, &p, &pos, &xs, &v)? as u64);
                k += 1;
            }
        }
        ctx.count("evaluations", k);
        Ok(())
    });
}

fn run(ctx: &Ctx) {
    tiny::<1>(ctx, 1, 1 << 18);
    tiny::<2>(ctx, 3, 1 << 18);
    tiny::<3>(ctx, ctx.pick(6, 7), ctx.pick(1 << 15, 1 << 21));
    tiny::<4>(ctx, ctx.pick(6, 9), ctx.pick(1 << 12, 1 << 20));
    large(ctx);
}

fn main() {
    mc::main(Spec {
        id: "C10",
        level: "exploration",
        rule: "share vectors given to checked reconstruction and compared with polynomial consistency; distinct counts the inconsistent ones",
        run,
    })
}
