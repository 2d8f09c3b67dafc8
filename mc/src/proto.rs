//! Parties in a controlled world.

use crate::gfref::*;
use mcrt::{Cfg, Outcome, World};
use ndarray::{Array1, ArrayView1};
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::network::{setup_local_network, setup_tcp_network, Network, Stats};
use scalable_mpc::protocol::MPCContext;
use scalable_mpc::sharing::PackedSharing;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Par {
    pub n: usize,
    pub t: usize,
    pub l: usize,
    pub k: usize,
    pub q: usize,
}

impl Par {
    pub const fn new(n: usize, t: usize, l: usize) -> Par {
        Par { n, t, l, k: 1, q: 3 }
    }
    pub fn lpn(mut self, k: usize, q: usize) -> Par {
        self.k = k;
        self.q = q;
        self
    }
    /// Degree of the ordinary sharings.
    pub fn d(&self) -> usize {
        self.t + self.l - 1
    }
    pub fn name(&self) -> String {
        format!("n{}t{}l{}k{}q{}", self.n, self.t, self.l, self.k, self.q)
    }
}

pub fn contexts<const W: u8>(p: &Par) -> Vec<MPCContext<W>> {
    let pos = PackedSharing::default_pos(p.n as u32, p.l as u32);
    let pss = Arc::new(PackedSharing::new(p.d() as u32, p.n as u32, &pos));
    let pss_n = Arc::new(PackedSharing::new(p.n as u32 - 1, p.n as u32, &pos));
    (0..p.n)
        .map(|i| MPCContext {
            id: i as u16,
            n: p.n,
            t: p.t,
            l: p.l,
            lpn_tau: 2,
            lpn_key_len: p.k,
            lpn_mssg_len: p.q,
            pss: pss.clone(),
            pss_n: pss_n.clone(),
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Net {
    Tcp,
    Local,
}

/// All parties have arrived; from here on choices count.
pub struct Gate {
    st: Mutex<(usize, Vec<Waker>)>,
    n: usize,
    kinds: u32,
}

impl Gate {
    pub fn new(n: usize, kinds: u32) -> Arc<Gate> {
        Arc::new(Gate { st: Mutex::new((0, vec![])), n, kinds })
    }
    pub async fn pass(self: Arc<Gate>) {
        let open = {
            let mut s = self.st.lock().unwrap();
            s.0 += 1;
            s.0 == self.n
        };
        if open {
            mcrt::expect_current().set_cfg(|c| c.kinds = self.kinds);
            let ws = std::mem::take(&mut self.st.lock().unwrap().1);
            for w in ws {
                w.wake();
            }
        } else {
            std::future::poll_fn(|cx| {
                let mut s = self.st.lock().unwrap();
                if s.0 == self.n {
                    Poll::Ready(())
                } else {
                    s.1.push(cx.waker().clone());
                    Poll::Pending
                }
            })
            .await
        }
    }
}

pub fn addresses(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("127.0.0.1:{}", 9000 + i)).collect()
}

pub struct Run<T> {
    pub out: Outcome,
    pub vals: Vec<Option<T>>,
    pub streams: Vec<(u32, u32, Vec<u8>, u64)>,
}

/// Runs `n` parties to their end.  Connection set-up is not subject to choices here.
pub fn parties<T, F, Fut>(cfg: Cfg, net: Net, n: usize, f: F) -> Run<T>
where
    T: Send + 'static,
    F: Fn(usize, Network, Stats) -> Fut,
    Fut: Future<Output = T> + Send + 'static,
{
    parties_until(cfg, net, n, true, f)
}

pub fn parties_until<T, F, Fut>(mut cfg: Cfg, net: Net, n: usize, stop_when_done: bool, f: F) -> Run<T>
where
    T: Send + 'static,
    F: Fn(usize, Network, Stats) -> Fut,
    Fut: Future<Output = T> + Send + 'static,
{
    let kinds = std::mem::replace(&mut cfg.kinds, 0);
    let policy = std::mem::replace(&mut cfg.policy, mcrt::Policy::Fifo);
    let chunk = std::mem::replace(&mut cfg.io_chunk, mcrt::IoChunk::Full);
    let w = World::new(cfg);
    let vals: Arc<Mutex<Vec<Option<T>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let slots: Arc<Mutex<Vec<Option<(Stats, Network)>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let addrs = addresses(n);
    match net {
        Net::Tcp => {
            for i in 0..n {
                let (a, s) = (addrs.clone(), slots.clone());
                w.spawn_root(i as u32, async move {
                    let x = setup_tcp_network(i as u16, &a).await;
                    s.lock().unwrap()[i] = Some(x);
                });
            }
        }
        Net::Local => {
            let s = slots.clone();
            w.spawn_root(0, async move {
                *s.lock().unwrap() = setup_local_network(n as u16).await.into_iter().map(Some).collect();
            });
        }
    }
    let pre = w.run(true);
    let mut out = pre;
    let got = slots.lock().unwrap().iter().filter(|s| s.is_some()).count();
    if out.panics.is_empty() && got != n {
        out.panics.push((0, format!("{got} ends of a network for {n} parties")));
    }
    if out.panics.is_empty() && out.unfinished_roots.is_empty() && !out.step_limit {
        w.set_cfg(|c| {
            c.kinds = kinds;
            c.policy = policy;
            c.io_chunk = chunk;
        });
        for i in 0..n {
            let (stats, net) = slots.lock().unwrap()[i].take().unwrap();
            let fut = w.enter(|| f(i, net, stats));
            let v = vals.clone();
            w.spawn_root(i as u32, async move {
                let r = fut.await;
                v.lock().unwrap()[i] = Some(r);
            });
        }
        out = w.run(stop_when_done);
    }
    let streams = mcrt::net::streams(&w);
    w.teardown();
    let vals = std::mem::take(&mut *vals.lock().unwrap());
    Run { out, vals, streams }
}

// ---- dealer -----------------------------------------------------------------------------------

/// Polynomial of degree `d` through the secrets at `pos` and further values, evaluated at all
/// parties; computed by the reference field, independent of the library.
pub fn deal<const W: u8>(rf: &Rf, n: usize, d: usize, pos: &[u32], secrets: &[u32], free: &[u32]) -> Vec<u32> {
    let xs = un(&PackedSharing::<W>::share_pos(n as u32));
    assert!(pos.len() == secrets.len() && pos.len() + free.len() == d + 1, "dealer: degree {d}, {} secrets, {} free", pos.len(), free.len());
    let mut px = pos.to_vec();
    px.extend(&xs[..free.len()]);
    let mut py = secrets.to_vec();
    py.extend(free);
    xs.iter().map(|x| rf.interp(&px, &py, *x)).collect()
}

/// Cached dealer: linear map instead of repeated interpolation.
pub struct Dealer {
    pub n: usize,
    pub d: usize,
    pub npos: usize,
    mat: Vec<Vec<u32>>, // parties x (d+1)
    rf: Rf,
}

impl Dealer {
    pub fn new<const W: u8>(rf: &Rf, n: usize, d: usize, pos: &[u32]) -> Dealer {
        let f = d + 1 - pos.len();
        let mut mat = vec![vec![0; d + 1]; n];
        for j in 0..d + 1 {
            let mut v = vec![0; d + 1];
            v[j] = 1;
            let col = deal::<W>(rf, n, d, pos, &v[..pos.len()], &v[pos.len()..pos.len() + f]);
            for i in 0..n {
                mat[i][j] = col[i];
            }
        }
        Dealer { n, d, npos: pos.len(), mat, rf: *rf }
    }
    pub fn free(&self) -> usize {
        self.d + 1 - self.npos
    }
    pub fn share(&self, secrets: &[u32], free: &[u32]) -> Vec<u32> {
        assert!(secrets.len() == self.npos && free.len() == self.free());
        self.mat
            .iter()
            .map(|r| r.iter().zip(secrets.iter().chain(free)).fold(0, |a, (c, v)| a ^ self.rf.mul(*c, *v)))
            .collect()
    }
}

/// Opens a sharing given by all parties: secrets at `pos`, or an error if the degree is exceeded.
pub fn open<const W: u8>(rf: &Rf, d: usize, pos: &[u32], shares: &[u32]) -> Result<Vec<u32>, String> {
    let xs = un(&PackedSharing::<W>::share_pos(shares.len() as u32));
    if !rf.consistent(&xs, shares, d) {
        return Err(format!("shares {shares:?} are not of degree {d}"));
    }
    Ok(pos.iter().map(|x| rf.interp(&xs[..d + 1], &shares[..d + 1], *x)).collect())
}

/// Cached opener.
pub struct Opener {
    d: usize,
    check: Vec<Vec<u32>>,
    rec: Vec<Vec<u32>>,
    rf: Rf,
}

impl Opener {
    pub fn new<const W: u8>(rf: &Rf, n: usize, d: usize, pos: &[u32]) -> Opener {
        let xs = un(&PackedSharing::<W>::share_pos(n as u32));
        let row = |x: u32| -> Vec<u32> {
            (0..=d)
                .map(|j| {
                    let mut v = vec![0; d + 1];
                    v[j] = 1;
                    rf.interp(&xs[..d + 1], &v, x)
                })
                .collect()
        };
        Opener { d, check: xs[d + 1..].iter().map(|x| row(*x)).collect(), rec: pos.iter().map(|x| row(*x)).collect(), rf: *rf }
    }
    fn dot(&self, r: &[u32], s: &[u32]) -> u32 {
        r.iter().zip(s).fold(0, |a, (x, y)| a ^ self.rf.mul(*x, *y))
    }
    pub fn open(&self, shares: &[u32]) -> Result<Vec<u32>, String> {
        for (i, r) in self.check.iter().enumerate() {
            if self.dot(r, &shares[..self.d + 1]) != shares[self.d + 1 + i] {
                return Err(format!("shares {shares:?} are not of degree {}", self.d));
            }
        }
        Ok(self.rec.iter().map(|r| self.dot(r, &shares[..self.d + 1])).collect())
    }
}

/// Deterministic filler values for what a case does not vary.
pub struct Fill(pub u64, pub u32);

impl Fill {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as u32) & ((1u32 << self.1) - 1)
    }
    pub fn vec(&mut self, k: usize) -> Vec<u32> {
        (0..k).map(|_| self.next()).collect()
    }
}

/// by party -> array for one party
pub fn party_col<const W: u8>(sharings: &[Vec<u32>], i: usize) -> Array1<GF<W>> {
    sharings.iter().map(|s| GF::from(s[i])).collect()
}

/// k-th sharing out of the parties' output arrays
pub fn sharing_of<const W: u8>(outs: &[Vec<GF<W>>], k: usize) -> Vec<u32> {
    outs.iter().map(|o| u32::from(o[k])).collect()
}

pub fn view<const W: u8>(v: &[GF<W>]) -> ArrayView1<'_, GF<W>> {
    ArrayView1::from(v)
}

/// The base schedules from which deviations are counted.
pub fn policies(n: usize) -> Vec<(String, mcrt::Policy)> {
    use mcrt::Policy::*;
    let mut v = vec![
        ("fifo".to_string(), Fifo),
        ("lifo".to_string(), Lifo),
        ("asc".to_string(), GroupAscending),
        ("desc".to_string(), GroupDescending),
    ];
    for g in 0..n {
        v.push((format!("slow{g}"), StarveGroup(g as u32)));
    }
    v
}
