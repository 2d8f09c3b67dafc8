//! C11: field laws.
use mc::*;
use num_traits::{One, Zero};
use scalable_mpc::math::galois::GF;
use std::sync::atomic::{AtomicU64, Ordering};

type F<const W: u8> = GF<W>;

fn e<const W: u8>(v: u32) -> F<W> {
    GF::from(v)
}

/// Every operand form of every operation on one pair.
#[inline(always)]
fn forms<const W: u8>(a: u32, b: u32, prod: u32) -> Result<(), String> {
    let (x, y) = (e::<W>(a), e::<W>(b));
    let bad = |op: &str, got: u32, want: u32| Err(format!("width {W}: {a} {op} {b} gives {got}, expected {want}"));
    macro_rules! chk {
        ($op:expr, $v:expr, $w:expr) => {
            let got: u32 = $v.into();
            if got != $w {
                return bad($op, got, $w);
            }
        };
    }
    let s = a ^ b;
    chk!("+", x + y, s);
    chk!("+", &x + &y, s);
    chk!("+", x + &y, s);
    chk!("+", &x + y, s);
    let mut z = x;
    z += y;
    chk!("+=", z, s);
    let mut z = x;
    z += &y;
    chk!("+=", z, s);
    chk!("-", x - y, s);
    chk!("-", &x - &y, s);
    chk!("-", x - &y, s);
    chk!("-", &x - y, s);
    let mut z = x;
    z -= y;
    chk!("-=", z, s);
    let mut z = x;
    z -= &y;
    chk!("-=", z, s);
    chk!("*", x * y, prod);
    chk!("*", &x * &y, prod);
    chk!("*", x * &y, prod);
    chk!("*", &x * y, prod);
    let mut z = x;
    z *= y;
    chk!("*=", z, prod);
    let mut z = x;
    z *= &y;
    chk!("*=", z, prod);
    if b != 0 {
        // (a*b)/b = a, in every form.
        let p = e::<W>(prod);
        chk!("/ (after *)", p / y, a);
        chk!("/ (after *)", &p / &y, a);
        chk!("/ (after *)", p / &y, a);
        chk!("/ (after *)", &p / y, a);
        let mut z = p;
        z /= y;
        chk!("/=", z, a);
        let mut z = p;
        z /= &y;
        chk!("/=", z, a);
    }
    Ok(())
}

/// Every pair, plain multiplication and division, products of the reference by Gray code.
fn all_pairs<const W: u8>(ctx: &Ctx, with_forms: bool) {
    let rf = Rf::of::<W>();
    let q = rf.order();
    let n_chunks = q.min(64);
    let chunks: Vec<u32> = (0..n_chunks).collect();
    let tot = AtomicU64::new(0);
    ctx.par_cases(&chunks, |c| format!("pairs:{W}:{c}"), |c| {
        let lo = (q as u64 * *c as u64 / n_chunks as u64) as u32;
        let hi = (q as u64 * (*c as u64 + 1) / n_chunks as u64) as u32;
        for a in lo..hi {
            if ctx.out_of_time() {
                return Ok(());
            }
            let x = e::<W>(a);
            let sh: Vec<u32> = (0..W as u32).map(|i| rf.mul(a, 1 << i)).collect();
            let mut b = 0u32;
            let mut prod = 0u32;
            let mut k = 0u32;
            loop {
                if with_forms {
                    forms::<W>(a, b, prod)?;
                } else {
                    let y = e::<W>(b);
                    let p = x * y;
                    if u32::from(p) != prod {
                        return Err(format!("width {W}: {a} * {b} gives {}, expected {prod}", u32::from(p)));
                    }
                    if b != 0 && u32::from(p / y) != a {
                        return Err(format!("width {W}: ({a} * {b}) / {b} gives {}", u32::from(p / y)));
                    }
                }
                k += 1;
                if k == q {
                    break;
                }
                let bit = k.trailing_zeros();
                b ^= 1 << bit;
                prod ^= sh[bit as usize];
            }
            tot.fetch_add(q as u64, Ordering::Relaxed);
        }
        Ok(())
    });
    let t = tot.load(Ordering::SeqCst);
    ctx.count("evaluations", t);
    ctx.distinct_add(t.saturating_sub(4 * q as u64));
}

/// Every element against a spanning set, all forms.
fn spanning<const W: u8>(ctx: &Ctx) {
    if let Err(er) = GF::<W>::init() {
        ctx.violation(&format!("init:{W}"), &[], er);
        return;
    }
    let rf = Rf::of::<W>();
    let q = rf.order();
    let n_chunks = q.min(64);
    let chunks: Vec<u32> = (0..n_chunks).collect();
    ctx.par_cases(&chunks, |c| format!("spanning:{W}:{c}"), |c| {
        let lo = (q as u64 * *c as u64 / n_chunks as u64) as u32;
        let hi = (q as u64 * (*c as u64 + 1) / n_chunks as u64) as u32;
        let mut basis: Vec<u32> = (0..W as u32).map(|i| 1 << i).collect();
        basis.extend([0, 3 % q, q - 1, q / 2 + 1 & (q - 1), 0x2d5a5a5 % q]);
        for a in lo..hi {
            for &b in &basis {
                let p = rf.mul(a, b);
                forms::<W>(a, b, p)?;
                forms::<W>(b, a, p)?;
            }
            let sq = u32::from(e::<W>(a) * e::<W>(a));
            if sq != rf.mul(a, a) {
                return Err(format!("width {W}: {a} squared gives {sq}"));
            }
        }
        ctx.count("evaluations", (hi - lo) as u64 * (2 * basis.len() as u64 + 1));
        ctx.distinct_add((hi - lo) as u64 * (W as u64 - 1));
        Ok(())
    });
}

fn basics<const W: u8>(ctx: &Ctx) {
    ctx.case(&format!("basics:{W}"), || {
        if let Err(x) = GF::<W>::init() {
            return Err(format!("set-up of width {W} fails: {x}"));
        }
        let q = GF::<W>::ORDER;
        if q != 1 << W {
            return Err(format!("width {W}: order is {q}"));
        }
        let rf = Rf::of::<W>();
        if !rf.primitive() {
            return Err(format!("width {W}: products are not those modulo a primitive polynomial (x^{W} reduces to {:#b})", rf.poly));
        }
        ctx.sample(format!("width {W}: x^{W} reduces to {:#b}", rf.poly));
        if u32::from(GF::<W>::ZERO) != 0 || u32::from(GF::<W>::ONE) != 1 {
            return Err(format!("width {W}: identities"));
        }
        if u32::from(<GF<W> as Zero>::zero()) != 0 || u32::from(<GF<W> as One>::one()) != 1 {
            return Err(format!("width {W}: identity traits"));
        }
        for a in 0..q.min(1 << 20) {
            let x = e::<W>(a);
            if u32::from(x) != a {
                return Err(format!("width {W}: {a} converts to {}", u32::from(x)));
            }
            if x.is_zero() != (a == 0) || x.is_one() != (a == 1) || (x == GF::ZERO) != (a == 0) || (x == GF::ONE) != (a == 1) {
                return Err(format!("width {W}: identity test of {a}"));
            }
            if x != e::<W>(a) || (q > 1 && x == e::<W>(a ^ 1)) {
                return Err(format!("width {W}: equality of {a}"));
            }
        }
        ctx.count("evaluations", q.min(1 << 20) as u64);
        Ok(())
    });
}

/// Conversion of any 32-bit integer.
fn convert<const W: u8>(ctx: &Ctx) {
    let rf = Rf::of::<W>();
    let q = rf.order();
    let nhi = 1u64 << (32 - W as u32);
    // Reference for the high part: the polynomial reduced bit by bit.
    let red = |v: u32| -> u32 {
        let mut acc = 0u32;
        for i in (0..32).rev() {
            acc = if W == 1 { acc } else { rf.mul(acc, 2) };
            acc ^= v >> i & 1;
        }
        if W == 1 {
            acc & 1
        } else {
            acc
        }
    };
    let chunks: Vec<u64> = (0..64).collect();
    let full = !ctx.quick() && (W == 18 || W == 8 || W == 3);
    ctx.par_cases(&chunks, |c| format!("convert:{W}:{c}"), |c| {
        let lo = nhi * c / 64;
        let hi = nhi * (c + 1) / 64;
        let mut cnt = 0u64;
        for h in lo..hi {
            if h & 1023 == 0 && ctx.out_of_time() {
                break;
            }
            let base = (h << W) as u32;
            // Sparse sampling of the high part is not used: every high part, with all or the
            // extreme low parts.
            let hv = red(base);
            let mut one = |low: u32| -> Result<(), String> {
                let v = base | low;
                let want = hv ^ low;
                let got = u32::from(e::<W>(v));
                cnt += 1;
                if got != want {
                    return Err(format!("width {W}: {v} converts to {got}, expected {want}"));
                }
                Ok(())
            };
            if full || q <= 8 && h < 1 << 20 {
                for low in 0..q {
                    one(low)?;
                }
            } else {
                for low in [0, 1 & (q - 1), q / 2, q - 1] {
                    one(low)?;
                }
            }
            if nhi > 1 << 24 && ctx.quick() && h >= lo + (1 << 18) {
                break;
            }
        }
        ctx.count("evaluations", cnt);
        Ok(())
    });
}

struct WordRng {
    first: Vec<u32>,
    at: usize,
}

impl rand::RngCore for WordRng {
    #[inline(always)]
    fn next_u32(&mut self) -> u32 {
        let k = self.at;
        self.at += 1;
        if k < self.first.len() {
            self.first[k]
        } else {
            self.first[0].rotate_left(k as u32 * 7 + 1) ^ 0x9e37_79b9u32.wrapping_mul(k as u32)
        }
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.next_u32() as u64;
        v << 32 | v
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Sampling: over all random words, every element comes up equally often.
fn sampling<const W: u8>(ctx: &Ctx) {
    let q = GF::<W>::ORDER as usize;
    let full = !ctx.quick() && W == 18;
    ctx.case(&format!("sampling:{W}"), || {
        let counts = std::sync::Mutex::new(vec![0u64; q]);
        let bad = std::sync::Mutex::new(None::<String>);
        // Words: all of them, or all values of the top 22 bits combined with all values of the low
        // bits by a bijection, so that any contiguous selection of W bits is covered evenly.
        let bits = if full { 32 } else { 22.max(W as u32) };
        std::thread::scope(|s| {
            for th in 0..8u64 {
                let counts = &counts;
                let bad = &bad;
                s.spawn(move || {
                    let mut loc = vec![0u64; q];
                    let n = 1u64 << bits;
                    let mut rng = WordRng { first: vec![0], at: 0 };
                    for i in n * th / 8..n * (th + 1) / 8 {
                        let w = if bits == 32 { i as u32 } else { (i as u32) << (32 - bits) ^ i as u32 };
                        rng.first[0] = w;
                        rng.at = 0;
                        let v = u32::from(GF::<W>::rand(&mut rng));
                        if v as usize >= q {
                            *bad.lock().unwrap() = Some(format!("width {W}: word {w:#x} samples {v}, not an element"));
                            return;
                        }
                        if rng.at <= 1 {
                            loc[v as usize] += 1;
                        }
                    }
                    let mut c = counts.lock().unwrap();
                    for (a, b) in c.iter_mut().zip(loc) {
                        *a += b;
                    }
                });
            }
        });
        if let Some(b) = bad.into_inner().unwrap() {
            return Err(b);
        }
        let c = counts.into_inner().unwrap();
        let (mn, mx) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
        if mn != mx || mn == 0 {
            let who = c.iter().position(|x| *x == mn).unwrap();
            return Err(format!("width {W}: over all random words element {who} is sampled {mn} times, another {mx} times"));
        }
        ctx.count("evaluations", c.iter().sum::<u64>());
        // A later draw is as uniform as the first, whatever the first was.
        if W <= 8 {
            for first in [0u32, 0x7fff_ffff, 0xffff_ffff, 0x1234_5678] {
                let mut c = vec![0u64; q];
                for i in 0..1u32 << 16 {
                    let mut rng = WordRng { first: vec![first, i << 16 | i], at: 0 };
                    let a = u32::from(GF::<W>::rand(&mut rng));
                    let b = u32::from(GF::<W>::rand(&mut rng));
                    let _ = a;
                    if rng.at == 2 {
                        c[b as usize] += 1;
                    }
                }
                if c.iter().min() != c.iter().max() {
                    return Err(format!("width {W}: second draw is not uniform after {first:#x}"));
                }
                ctx.count("evaluations", 1 << 16);
            }
        }
        Ok(())
    });
}

fn pairs_forms<const W: u8>(ctx: &Ctx) {
    all_pairs::<W>(ctx, true)
}
fn pairs_plain<const W: u8>(ctx: &Ctx) {
    all_pairs::<W>(ctx, false)
}

fn run(ctx: &Ctx) {
    ctx.set_case_limit(700);
    widths!(basics, ctx, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
    if ctx.violated() {
        return;
    }
    widths!(pairs_forms, ctx, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
    widths!(convert, ctx, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20]);
    widths!(sampling, ctx, [1, 2, 3, 4, 5, 8, 9, 16, 17, 18, 20]);
    widths!(spanning, ctx, [11, 12, 13, 14, 15, 16, 17, 18, 20]);
    if ctx.quick() {
        ctx.note("pairs", "all pairs for widths 1-10, all elements against a spanning set for 11-18 and 20");
        ctx.not_exhaustive("all pairs of width 18 only in the thorough tier");
    } else {
        widths!(basics, ctx, [21, 22, 24]);
        widths!(spanning, ctx, [19, 21, 22, 24]);
        widths!(pairs_plain, ctx, [11, 12, 13, 14]);
        if ctx.profile == "release" {
            widths!(pairs_plain, ctx, [15, 16, 18]);
        }
    }
}

fn main() {
    mc::main(Spec {
        id: "C11",
        level: "exploration",
        rule: "distinct_nontrivial counts operand pairs with both operands above one, once each; evaluations also count repeated forms: operand pairs (all forms), integers converted and random words sampled, each compared with shift-and-add arithmetic modulo the width's polynomial",
        run,
    })
}
