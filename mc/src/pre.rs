//! Preprocessing runs, opened.

use crate::gfref::*;
use crate::proto::*;
use mcrt::{Cfg, Outcome};
use ndarray::Array2;
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::preproc::{preproc, PreProc, PreProcCount, RandBitContext, RandContext, ZeroContext};
use scalable_mpc::protocol::MPCContext;
use scalable_mpc::sharing::PackedSharing;
use std::sync::Arc;

pub const MASKS: usize = 0;
pub const KEYS: usize = 1;
pub const RANDOMS: usize = 2;
pub const ZEROS: usize = 3;
pub const ERRORS: usize = 4;
pub const KIND: [&str; 5] = ["mask", "key", "masking sharing", "zero sharing", "error"];

/// Request sizes: masks, keys (shape), masking sharings, zero sharings, errors.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Req {
    pub masks: usize,
    pub keys: (usize, usize, usize),
    pub randoms: usize,
    pub zeros: usize,
    pub errors: usize,
}

impl Req {
    pub fn counts(&self) -> PreProcCount {
        PreProcCount { masks: self.masks, keys: self.keys, randoms: self.randoms, zeros: self.zeros, errors: self.errors }
    }
    pub fn name(&self) -> String {
        format!("m{}k{}x{}x{}r{}z{}e{}", self.masks, self.keys.0, self.keys.1, self.keys.2, self.randoms, self.zeros, self.errors)
    }
}

pub struct PreInst<const W: u8> {
    pub p: Par,
    pub rf: Rf,
    pub ctxs: Vec<MPCContext<W>>,
    rmat: Arc<Array2<GF<W>>>,
    bmat: Arc<Array2<GF<W>>>,
    low: Opener,
    high: Opener,
}

/// Opened material: per kind, the shares of all parties and the secrets of every sharing.
pub struct Opened {
    pub sharings: [Vec<Vec<u32>>; 5],
    pub secrets: [Vec<Vec<u32>>; 5],
}

pub fn matrix<const W: u8>(rows: &[Vec<u32>]) -> Arc<Array2<GF<W>>> {
    let c = rows[0].len();
    Arc::new(Array2::from_shape_vec((rows.len(), c), rows.iter().flatten().map(|x| GF::from(*x)).collect()).unwrap())
}

/// A binary matrix whose every n-t columns have full rank, for small n: one row of ones, or the
/// even-weight code's dual for t = 1.
pub fn small_binary(n: usize, t: usize) -> Vec<Vec<u32>> {
    if t == 1 && n >= 3 {
        // [I | 1] with n-1 rows: any n-1 columns are independent.
        (0..n - 1).map(|i| (0..n).map(|j| (j == i || j == n - 1) as u32).collect()).collect()
    } else {
        vec![vec![1; n]]
    }
}

impl<const W: u8> PreInst<W> {
    pub fn new(p: Par, rmat: Arc<Array2<GF<W>>>, bmat: Arc<Array2<GF<W>>>) -> Self {
        GF::<W>::init().unwrap();
        let rf = Rf::of::<W>();
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        PreInst { p, rf, ctxs: contexts::<W>(&p), rmat, bmat, low: Opener::new::<W>(&rf, p.n, p.d(), &pos), high: Opener::new::<W>(&rf, p.n, p.n - 1, &pos) }
    }
    /// With the matrices the programs use (the binary one in its small form).
    pub fn usual(p: Par) -> Self {
        GF::<W>::init().unwrap();
        Self::new(p, Arc::new(scalable_mpc::math::super_inv_matrix(p.n, p.n - p.t)), matrix(&small_binary(p.n, p.t)))
    }
    /// Every generated value is the contribution of one party.
    pub fn selecting(p: Par, who: usize) -> Self {
        GF::<W>::init().unwrap();
        let row: Vec<u32> = (0..p.n).map(|i| (i == who) as u32).collect();
        Self::new(p, matrix(&[row.clone()]), matrix(&[row]))
    }

    pub fn run(&self, cfg: Cfg, net: Net, req: &Req) -> Run<PreProc<W>> {
        parties(cfg, net, self.p.n, |i, net, _| self.party(i, vec![], req, net))
    }

    /// What party `i` does.
    pub fn party(&self, i: usize, id: Vec<u8>, req: &Req, net: scalable_mpc::protocol::network::Network) -> impl std::future::Future<Output = PreProc<W>> + Send + 'static {
        let k = req.counts();
        let (c, (r, z, b)) = (self.ctxs[i].clone(), self.contexts(i));
        async move { preproc(id, k, c, r, z, b, net).await }
    }

    pub fn contexts(&self, i: usize) -> (RandContext<W>, ZeroContext<W>, RandBitContext<W>) {
        let c = &self.ctxs[i];
        (RandContext::new(self.rmat.clone(), c), ZeroContext::new(self.rmat.clone(), c), RandBitContext::new(self.bmat.clone(), c))
    }

    pub fn judged(&self, cfg: Cfg, net: Net, req: &Req) -> (Outcome, Result<Opened, String>) {
        let run = self.run(cfg, net, req);
        let r = crate::finished(&run.out).and_then(|_| self.open(req, &run.vals.into_iter().map(|x| x.unwrap()).collect::<Vec<_>>()));
        (run.out, r)
    }

    /// Opens the material and checks everything that does not depend on the randomness.
    pub fn open(&self, req: &Req, v: &[PreProc<W>]) -> Result<Opened, String> {
        let what = format!("{} {}", self.p.name(), req.name());
        let mut sharings: [Vec<Vec<u32>>; 5] = Default::default();
        let parts: Vec<[Vec<u32>; 5]> = v
            .iter()
            .map(|m| {
                [
                    un(&m.masks.to_vec()),
                    un(&m.keys.iter().copied().collect::<Vec<_>>()),
                    un(&m.randoms.iter().copied().collect::<Vec<_>>()),
                    un(&m.zeros.iter().copied().collect::<Vec<_>>()),
                    un(&m.errors.iter().copied().collect::<Vec<_>>()),
                ]
            })
            .collect();
        let want = [req.masks, req.keys.0 * req.keys.1 * req.keys.2, req.randoms, req.zeros, req.errors];
        for (i, p) in parts.iter().enumerate() {
            for k in 0..5 {
                let ok = if k == RANDOMS || k == ZEROS { p[k].len() >= want[k] } else { p[k].len() == want[k] };
                if !ok {
                    return Err(format!("{what}: party {i} holds {} shares of kind {}, {} requested", p[k].len(), KIND[k], want[k]));
                }
                if p[k].len() != parts[0][k].len() {
                    return Err(format!("{what}: parties hold different numbers of shares of kind {}", KIND[k]));
                }
            }
            if v[i].keys.dim() != req.keys {
                return Err(format!("{what}: party {i} holds keys of shape {:?}", v[i].keys.dim()));
            }
        }
        let mut secrets: [Vec<Vec<u32>>; 5] = Default::default();
        for k in 0..5 {
            for j in 0..parts[0][k].len() {
                let sh: Vec<u32> = parts.iter().map(|p| p[k][j]).collect();
                let o = if k == ZEROS { &self.high } else { &self.low };
                let s = o.open(&sh).map_err(|e| format!("{what}: {} {j}: {e}", KIND[k]))?;
                if k == MASKS && s.iter().any(|x| *x > 1) {
                    return Err(format!("{what}: mask {j} holds {s:?}"));
                }
                if k == ZEROS && s.iter().any(|x| *x != 0) {
                    return Err(format!("{what}: zero sharing {j} holds {s:?}"));
                }
                secrets[k].push(s);
                sharings[k].push(sh);
            }
        }
        Ok(Opened { sharings, secrets })
    }
}

/// Bytes that parties outside `c` sent to parties in `c`, as bits.
pub fn view_bits(streams: &[(u32, u32, Vec<u8>, u64)], c: &[usize]) -> Vec<u64> {
    let inside = |x: u32| c.contains(&(x as usize));
    let mut s: Vec<_> = streams.iter().filter(|s| !inside(s.0) && inside(s.1)).collect();
    s.sort_by_key(|s| (s.0, s.1));
    let bytes: Vec<u8> = s.iter().flat_map(|s| s.2.iter().copied()).collect();
    pack(&bytes)
}

pub fn pack(bytes: &[u8]) -> Vec<u64> {
    bytes
        .chunks(8)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect()
}

pub fn pack32(v: &[u32]) -> Vec<u64> {
    v.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect()
}

pub fn xor(a: &[u64], b: &[u64]) -> Vec<u64> {
    assert!(a.len() == b.len(), "views of different lengths");
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

/// A subspace over GF(2) in reduced form.
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct Space {
    rows: Vec<(usize, Vec<u64>)>,
}

impl Space {
    pub fn reduce(&self, v: &[u64]) -> Vec<u64> {
        let mut v = v.to_vec();
        for (p, r) in &self.rows {
            if v[p / 64] >> (p % 64) & 1 == 1 {
                for (a, b) in v.iter_mut().zip(r) {
                    *a ^= b;
                }
            }
        }
        v
    }
    /// Adds a vector; true if it was new.
    pub fn add(&mut self, v: &[u64]) -> bool {
        let v = self.reduce(v);
        let Some(w) = v.iter().position(|x| *x != 0) else { return false };
        let p = w * 64 + v[w].trailing_zeros() as usize;
        for (_, r) in self.rows.iter_mut() {
            if r[p / 64] >> (p % 64) & 1 == 1 {
                for (a, b) in r.iter_mut().zip(&v) {
                    *a ^= b;
                }
            }
        }
        let at = self.rows.partition_point(|(q, _)| *q < p);
        self.rows.insert(at, (p, v));
        true
    }
    pub fn has(&self, v: &[u64]) -> bool {
        self.reduce(v).iter().all(|x| *x == 0)
    }
    pub fn vectors(&self) -> Vec<Vec<u64>> {
        self.rows.iter().map(|r| r.1.clone()).collect()
    }
    pub fn dim(&self) -> usize {
        self.rows.len()
    }
}
