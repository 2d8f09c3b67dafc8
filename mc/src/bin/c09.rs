//! C09: reconstruction inverts sharing.
use mc::*;
use ndarray::{Array1, ArrayView1};
use scalable_mpc::math::galois::GF;
use scalable_mpc::sharing::PackedSharing;

/// Every reconstruction routine on shares of a polynomial with the given secrets.
fn opens<const W: u8>(p: &PackedSharing<W>, pos: &[GF<W>], sh: &[u32], want: &[u32], what: &str) -> Result<(), String> {
    let shares = Array1::from(gf::<W>(sh));
    let k = want.len();
    let bad = |r: &str, got: &[u32]| Err(format!("{what}: {r} of {sh:?} gives {got:?}, expected {want:?}"));
    let a = un(&p.semihon_recon(shares.view()));
    if a.len() != pos.len() || a[..k] != *want {
        return bad("semi-honest reconstruction", &a);
    }
    match p.recon(shares.view()) {
        Ok(v) => {
            let v = un(&v);
            if v != a {
                return bad("checked reconstruction", &v);
            }
        }
        Err(e) => return Err(format!("{what}: checked reconstruction of {sh:?} fails: {e:?}")),
    }
    let co = PackedSharing::<W>::compute_recon_coeffs(p.degree(), p.num_parties(), pos);
    let b = un(&PackedSharing::<W>::recon_using_coeffs(shares.view(), co.view()));
    if b != a {
        return bad("reconstruction with computed coefficients", &b);
    }
    let c = un(&PackedSharing::<W>::recon_using_coeffs(shares.view(), p.recon_coeffs()));
    if c != a {
        return bad("reconstruction with the sharing's own coefficients", &c);
    }
    Ok(())
}

/// One sharing: degree, secrets, routines.
fn one<const W: u8>(rf: &Rf, p: &PackedSharing<W>, pos: &[u32], secrets: &[u32], tape: &[u32]) -> Result<Vec<u32>, String> {
    let (n, d, l) = (p.num_parties() as usize, p.degree() as usize, pos.len());
    let sv = gf::<W>(secrets);
    let posg = gf::<W>(pos);
    let xs = un(&PackedSharing::<W>::share_pos(n as u32));
    let what = format!("width {W}, {n} parties, degree {d}, positions {pos:?}, secrets {secrets:?}, randomness {tape:?}");
    let sh = un(&p.share(ArrayView1::from(&sv), &mut TapeRng::new(W as u32, tape)));
    let co = PackedSharing::<W>::compute_share_coeffs(d as u32, n as u32, &posg);
    let sh2 = un(&PackedSharing::<W>::share_using_coeffs(ArrayView1::from(&sv), co.view(), l as u32, &mut TapeRng::new(W as u32, tape)));
    for (s, by) in [(&sh, "share"), (&sh2, "share with computed coefficients")] {
        if s.len() != n {
            return Err(format!("{what}: {by} gives {} shares", s.len()));
        }
        if !rf.consistent(&xs, s, d) {
            return Err(format!("{what}: {by} gives {s:?}, not of the requested degree"));
        }
        for (i, &x) in secrets.iter().enumerate() {
            if rf.interp(&xs[..d + 1], &s[..d + 1], pos[i]) != x {
                return Err(format!("{what}: {by} gives {s:?}, which has the wrong secret {i}"));
            }
        }
        opens(p, &posg, s, secrets, &format!("{what}: {by}"))?;
    }
    Ok(sh)
}

fn accessors<const W: u8>(p: &PackedSharing<W>, n: usize, d: usize, l: usize) -> Result<(), String> {
    if (p.num_parties() as usize, p.degree() as usize, p.num_secrets() as usize) != (n, d, l) {
        return Err(format!("reports {} parties, degree {}, {} secrets instead of {n}, {d}, {l}", p.num_parties(), p.degree(), p.num_secrets()));
    }
    Ok(())
}

fn rands<const W: u8>(rf: &Rf, p: &PackedSharing<W>, tape: &[u32], pos: &[u32]) -> Result<(), String> {
    let (n, d) = (p.num_parties() as usize, p.degree() as usize);
    let xs = un(&PackedSharing::<W>::share_pos(n as u32));
    let sh = un(&p.rand(&mut TapeRng::new(W as u32, tape)));
    if sh.len() != n || !rf.consistent(&xs, &sh, d) {
        return Err(format!("width {W}: random sharing {sh:?} is not of degree {d}"));
    }
    let want: Vec<u32> = pos.iter().map(|&x| rf.interp(&xs[..d + 1], &sh[..d + 1], x)).collect();
    opens(p, &gf::<W>(pos), &sh, &want, &format!("width {W}, {n} parties, degree {d}, positions {pos:?}: random sharing"))
}

/// Position lists: all l-subsets of the field outside the share positions, in both directions, if few.
fn position_sets(q: u32, n: u32, l: usize, cap: usize) -> Vec<Vec<u32>> {
    let free = (q - n) as usize;
    let mut v: Vec<Vec<u32>> = vec![];
    let mut subs = if free <= 12 { subsets(free, l) } else { vec![(0..l).collect(), (free - l..free).collect(), (0..l).map(|i| (i * 3 + 1) % free).collect()] };
    subs.dedup();
    for s in subs {
        let a: Vec<u32> = s.iter().map(|x| *x as u32 + n).collect();
        let mut b = a.clone();
        b.reverse();
        v.push(a);
        if l > 1 {
            v.push(b);
        }
    }
    v.truncate(cap);
    v
}

fn tiny<const W: u8>(ctx: &Ctx, nmax: u32, all: u64) {
    GF::<W>::init().unwrap();
    let rf = Rf::of::<W>();
    let q = rf.order();
    let mut items = vec![];
    for n in 1..=nmax.min(q - 1) {
        for d in 0..n {
            for l in 1..=(d + 1).min(q - n) {
                for pos in position_sets(q, n, l as usize, if W <= 3 { 30 } else { 6 }) {
                    items.push((n, d, l as usize, pos));
                }
            }
        }
    }
    ctx.note(&format!("configurations_w{W}"), items.len().to_string());
    ctx.par_cases(&items, |(n, d, l, pos)| format!("tiny:{W}:{n}:{d}:{l}:{pos:?}").replace(' ', ""), |(n, d, l, pos)| {
        let p = PackedSharing::<W>::new(*d, *n, &gf::<W>(pos));
        accessors(&p, *n as usize, *d as usize, *l)?;
        let free = *d as usize + 1;
        let total = (q as u64).checked_pow(free as u32).unwrap_or(u64::MAX);
        let mut err = Ok(());
        let mut k = 0u64;
        let mut each = |v: &[u32]| {
            k += 1;
            if err.is_ok() {
                err = one(&rf, &p, pos, &v[..*l], &v[*l..]).map(|_| ()).and_then(|_| rands(&rf, &p, v, pos));
                // Partial vectors of secrets; the rest of the tape feeds the padding too.
                for part in 0..*l {
                    if err.is_ok() {
                        err = one(&rf, &p, pos, &v[..part], &v[part..]).map(|_| ());
                        k += 1;
                    }
                }
            }
            err.is_ok()
        };
        if total <= all {
            all_vecs(q, free, |v| each(v));
        } else {
            // basis, all scalars, and all pairs of unit vectors
            for i in 0..free {
                for c in 1..q {
                    let mut v = vec![0; free];
                    v[i] = c;
                    each(&v);
                    for j in 0..i {
                        v[j] = 1 + (c + j as u32) % (q - 1);
                        each(&v);
                    }
                }
            }
        }
        ctx.count("evaluations", k);
        ctx.distinct_add(k);
        err
    });
    ctx.sample(format!("width {W}: {} (parties, degree, positions) choices", items.len()));
    // Sums and products.
    let mut pairs = vec![];
    for n in 1..=nmax.min(q - 1) {
        for d1 in 0..n {
            for d2 in 0..n {
                for l in 1..=(d1.min(d2) + 1).min(q - n) {
                    pairs.push((n, d1, d2, l as usize));
                }
            }
        }
    }
    ctx.par_cases(&pairs, |x| format!("pairs:{W}:{x:?}").replace(' ', ""), |&(n, d1, d2, l)| {
        let pos: Vec<u32> = un(&PackedSharing::<W>::default_pos(n, l as u32));
        let pg = gf::<W>(&pos);
        let p1 = PackedSharing::<W>::new(d1, n, &pg);
        let p2 = PackedSharing::<W>::new(d2, n, &pg);
        let ps = PackedSharing::<W>::new(d1.max(d2), n, &pg);
        let pp = (d1 + d2 < n).then(|| PackedSharing::<W>::new(d1 + d2, n, &pg));
        let mk = |p: &PackedSharing<W>, f: usize| -> Vec<(Vec<u32>, Vec<GF<W>>)> {
            let mut out = vec![];
            let mut add = |v: &[u32]| {
                let sh = p.share(ArrayView1::from(&gf::<W>(&v[..l])), &mut TapeRng::new(W as u32, &v[l..]));
                out.push((v[..l].to_vec(), sh));
                true
            };
            if (q as u64).pow(f as u32) <= 64 {
                all_vecs(q, f, &mut add);
            } else {
                for i in 0..f {
                    for c in [1, 2, q - 1] {
                        let mut v: Vec<u32> = (0..f).map(|j| (j as u32 * 3 + i as u32) % q).collect();
                        v[i] = c;
                        add(&v);
                        let mut v = vec![0; f];
                        v[i] = c;
                        add(&v);
                    }
                }
            }
            out
        };
        let (s1, s2) = (mk(&p1, d1 as usize + 1), mk(&p2, d2 as usize + 1));
        for (x, a) in &s1 {
            for (y, b) in &s2 {
                let sum: Vec<u32> = a.iter().zip(b).map(|(u, v)| u32::from(*u + *v)).collect();
                let want: Vec<u32> = x.iter().zip(y).map(|(u, v)| u ^ v).collect();
                opens(&ps, &pg, &sum, &want, &format!("width {W}, {n} parties: sum of sharings of {x:?} and {y:?}"))?;
                if let Some(pp) = &pp {
                    let prod: Vec<u32> = a.iter().zip(b).map(|(u, v)| u32::from(*u * *v)).collect();
                    let want: Vec<u32> = x.iter().zip(y).map(|(u, v)| rf.mul(*u, *v)).collect();
                    opens(pp, &pg, &prod, &want, &format!("width {W}, {n} parties: product of sharings of {x:?} and {y:?}"))?;
                }
                ctx.count("evaluations", 1);
            }
        }
        ctx.distinct_add((s1.len() * s2.len()) as u64);
        Ok(())
    });
}

/// Positions used by different purposes never collide.
fn positions<const W: u8>(ctx: &Ctx, nl: &[(u32, u32)]) {
    GF::<W>::init().unwrap();
    for &(n, l) in nl {
        ctx.case(&format!("positions:{W}:{n}:{l}"), || {
            let q = 1u64 << W;
            let wires: Vec<u32> = (0..(q - n as u64 - l as u64) as u32).collect();
            let sp = un(&PackedSharing::<W>::share_pos(n));
            let dp = un(&PackedSharing::<W>::default_pos(n, l));
            let wp: Vec<u32> = PackedSharing::<W>::wire_to_pos(n, l, wires.iter().cloned()).map(u32::from).collect();
            if sp.len() != n as usize || dp.len() != l as usize || wp.len() != wires.len() {
                return Err(format!("{n} parties, {l} secrets: wrong number of positions"));
            }
            let mut seen = std::collections::HashSet::new();
            for v in sp.iter().chain(&dp).chain(&wp) {
                if !seen.insert(*v) {
                    return Err(format!("{n} parties, {l} secrets: position {v} is used twice"));
                }
            }
            // Same positions when asked for in another order.
            let back: Vec<u32> = PackedSharing::<W>::wire_to_pos(n, l, wires.iter().rev().cloned()).map(u32::from).collect();
            if back.iter().rev().ne(wp.iter()) {
                return Err("a wire's position depends on the other wires asked for".into());
            }
            ctx.count("evaluations", 1);
            ctx.distinct_add(1);
            Ok(())
        });
    }
}

fn run(ctx: &Ctx) {
    tiny::<2>(ctx, 3, 1 << 12);
    tiny::<3>(ctx, 7, ctx.pick(1 << 12, 1 << 15));
    tiny::<4>(ctx, ctx.pick(7, 11), ctx.pick(1 << 8, 1 << 16));
    positions::<2>(ctx, &[(1, 1), (2, 1), (3, 1)]);
    positions::<3>(ctx, &[(3, 2), (5, 2), (7, 1)]);
    positions::<8>(ctx, &[(16, 3), (100, 7), (250, 6)]);
    positions::<18>(ctx, &[(16, 3), (64, 20), (300, 5)]);
    // Shipped field.
    GF::<18>::init().unwrap();
    let rf = Rf::of::<18>();
    let mut items = vec![];
    for (n, t, l) in [(16u32, 5u32, 3u32), (16, 3, 1), (16, 7, 1), (16, 1, 7), (17, 4, 5), (32, 10, 6), (7, 1, 3), (33, 2, 15), (64, 20, 12)] {
        for d in [t + l - 1, 2 * (t + l - 1), n - 1] {
            if d < n {
                for base in [n, n + l + 100, (1 << 18) - l] {
                    items.push((n, d, l, base));
                }
            }
        }
    }
    items.truncate(ctx.pick(60, 1000));
    ctx.par_cases(&items, |x| format!("w18:{x:?}").replace(' ', ""), |&(n, d, l, base)| {
        let mut pos: Vec<u32> = (base..base + l).collect();
        if l > 1 {
            pos.swap(0, 1);
        }
        let p = PackedSharing::<18>::new(d, n, &gf::<18>(&pos));
        accessors(&p, n as usize, d as usize, l as usize)?;
        for i in 0..=d as usize {
            for c in [1u32, 2, 1 << 17, 0x3ffff] {
                let mut v = vec![0u32; d as usize + 1];
                v[i] = c;
                one(&rf, &p, &pos, &v[..l as usize], &v[l as usize..])?;
                ctx.count("evaluations", 1);
                if i < l as usize {
                    one(&rf, &p, &pos, &v[..i], &v[i..])?;
                    ctx.count("evaluations", 1);
                }
            }
            ctx.distinct_add(4);
        }
        let v: Vec<u32> = (0..=d).map(|i| (i * 65537 + 12345) & 0x3ffff).collect();
        one(&rf, &p, &pos, &v[..l as usize], &v[l as usize..])?;
        rands(&rf, &p, &v, &pos)
    });
    ctx.assume("where not all secret and randomness vectors are run, unit vectors with several scalars and their pair sums stand for the rest by linearity of sharing");
}

fn main() {
    mc::main(Spec {
        id: "C09",
        level: "exploration",
        rule: "sharings (or pairs of sharings) made and opened by every routine; distinct counts each (parameters, secrets, randomness) choice once",
        run,
    })
}
