//! Independent field arithmetic: shift-and-add over GF(2) modulo the polynomial the width uses.

use scalable_mpc::math::galois::GF;

#[derive(Clone, Copy, Debug)]
pub struct Rf {
    pub w: u32,
    pub poly: u32, // without the leading term
}

impl Rf {
    /// Reads the reduction polynomial off one product of the implementation.
    pub fn of<const W: u8>() -> Rf {
        let w = W as u32;
        let poly = if W == 1 {
            1
        } else {
            u32::from(GF::<W>::from(1u32 << (w - 1)) * GF::<W>::from(2))
        };
        Rf { w, poly }
    }
    pub fn order(&self) -> u32 {
        1 << self.w
    }
    pub fn mul(&self, a: u32, b: u32) -> u32 {
        let mut r = 0u32;
        let mut a = a as u64;
        let mut b = b;
        let top = 1u64 << self.w;
        while b != 0 {
            if b & 1 == 1 {
                r ^= a as u32;
            }
            a <<= 1;
            if a & top != 0 {
                a ^= top | self.poly as u64;
            }
            b >>= 1;
        }
        r
    }
    pub fn pow(&self, a: u32, mut e: u64) -> u32 {
        let mut r = 1;
        let mut b = a;
        while e > 0 {
            if e & 1 == 1 {
                r = self.mul(r, b);
            }
            b = self.mul(b, b);
            e >>= 1;
        }
        r
    }
    pub fn inv(&self, a: u32) -> u32 {
        self.pow(a, (1u64 << self.w) - 2)
    }
    pub fn div(&self, a: u32, b: u32) -> u32 {
        self.mul(a, self.inv(b))
    }
    /// Is x a generator of the multiplicative group (polynomial primitive)?
    pub fn primitive(&self) -> bool {
        let n = (1u64 << self.w) - 1;
        if self.w == 1 {
            return true;
        }
        let mut m = n;
        let mut p = 2;
        let mut fs = vec![];
        while p * p <= m {
            if m % p == 0 {
                fs.push(p);
                while m % p == 0 {
                    m /= p;
                }
            }
            p += 1;
        }
        if m > 1 {
            fs.push(m);
        }
        self.pow(2, n) == 1 && fs.iter().all(|f| self.pow(2, n / f) != 1)
    }
    /// Value at `x` of the polynomial of degree < xs.len() through (xs, ys).
    pub fn interp(&self, xs: &[u32], ys: &[u32], x: u32) -> u32 {
        let mut acc = 0;
        for i in 0..xs.len() {
            if ys[i] == 0 {
                continue;
            }
            let mut num = ys[i];
            let mut den = 1;
            for j in 0..xs.len() {
                if i != j {
                    num = self.mul(num, x ^ xs[j]);
                    den = self.mul(den, xs[i] ^ xs[j]);
                }
            }
            acc ^= self.div(num, den);
        }
        acc
    }
    /// Does some polynomial of degree <= d pass through all points?
    pub fn consistent(&self, xs: &[u32], ys: &[u32], d: usize) -> bool {
        if xs.len() <= d + 1 {
            return true;
        }
        (d + 1..xs.len()).all(|k| self.interp(&xs[..d + 1], &ys[..d + 1], xs[k]) == ys[k])
    }
    pub fn eval(&self, coeffs: &[u32], x: u32) -> u32 {
        coeffs.iter().rev().fold(0, |a, c| self.mul(a, x) ^ c)
    }
}

pub fn gf<const W: u8>(v: &[u32]) -> Vec<GF<W>> {
    v.iter().map(|x| GF::from(*x)).collect()
}

pub fn un<const W: u8>(v: &[GF<W>]) -> Vec<u32> {
    v.iter().map(|x| u32::from(*x)).collect()
}

/// Calls `f` with every vector of `len` digits below `base`.
pub fn all_vecs(base: u32, len: usize, mut f: impl FnMut(&[u32]) -> bool) {
    let mut v = vec![0u32; len];
    loop {
        if !f(&v) {
            return;
        }
        let mut i = 0;
        loop {
            if i == len {
                return;
            }
            v[i] += 1;
            if v[i] < base {
                break;
            }
            v[i] = 0;
            i += 1;
        }
    }
}

/// All k-subsets of 0..n.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur = vec![];
    fn rec(n: usize, k: usize, s: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in s..n {
            cur.push(i);
            rec(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    rec(n, k, 0, &mut cur, &mut out);
    out
}

/// Calls a generic function for several widths.
#[macro_export]
macro_rules! widths {
    ($f:ident, $ctx:expr, [$($w:literal),*]) => { $( if !$ctx.stop() { $f::<$w>($ctx); } )* };
}

/// Random generator whose draws are given field values (or words), in order.
pub struct TapeRng {
    pub w: u32,
    pub tape: Vec<u32>,
    pub used: usize,
}

impl TapeRng {
    pub fn new(w: u32, tape: &[u32]) -> Self {
        TapeRng { w, tape: tape.to_vec(), used: 0 }
    }
    fn next(&mut self) -> u32 {
        let v = self.tape.get(self.used).copied().unwrap_or(0);
        self.used += 1;
        v
    }
}

impl rand::RngCore for TapeRng {
    fn next_u32(&mut self) -> u32 {
        let v = self.next();
        mcrt::spread32(self.w, v)
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.next();
        ((v as u64) << (64 - self.w)) | v as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
