//! C31: protocols that run side by side, or one after the other, do not disturb each other.
use mc::circ::*;
use mc::garb::*;
use mc::pre::*;
use mc::proto::*;
use mc::*;
use mcrt::{kind_mask, Cfg, Kind, Policy, RngMode};
use scalable_mpc::math::galois::GF;
use scalable_mpc::math::Combination;
use scalable_mpc::protocol::core::{mult, reduce_degree, trans, SharingTransform};
use scalable_mpc::protocol::garble::garble;
use scalable_mpc::protocol::network::{self, Network};
use scalable_mpc::protocol::preproc::{rand, randbit, zero, PreProc};
use scalable_mpc::protocol::ProtocolIDBuilder;
use scalable_mpc::sharing::PackedSharing;
use std::future::Future;
use std::pin::Pin;

const W: u8 = 8;

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Mult,
    Reduce,
    Trans,
    Rand,
    Zero,
    Bit,
    Pre,
    Garble,
    /// Preprocessing, then garbling with what it gave.
    Both,
}
const ALL: [What; 9] = [What::Mult, What::Reduce, What::Trans, What::Rand, What::Zero, What::Bit, What::Pre, What::Garble, What::Both];

/// What a party has afterwards.
enum Got {
    Shares(Vec<GF<W>>),
    Pre(PreProc<W>),
    Gates(Vec<ndarray::Array2<GF<W>>>),
    Both(PreProc<W>, Vec<ndarray::Array2<GF<W>>>),
}

type Job = Pin<Box<dyn Future<Output = Got> + Send>>;

struct Env {
    p: Par,
    rf: Rf,
    pos: Vec<u32>,
    low: Dealer,
    high: Dealer,
    open: Opener,
    open_n: Opener,
    pre: PreInst<W>,
    garb: Inst<W>,
    public: Public,
    enc: Vec<Vec<u32>>,
}

/// Inputs of one instance.
struct Set {
    a: Vec<Vec<u32>>,
    b: Vec<Vec<u32>>,
    /// shares of all parties: both inputs, masking, masking of full degree (zero and the same)
    sh: [Vec<Vec<u32>>; 5],
    mat: Mat,
    dealt: Vec<PreProc<W>>,
    req: Req,
    num: usize,
}

impl Env {
    fn new(p: Par, c: &C, dir: &std::path::Path) -> Result<Env, String> {
        GF::<W>::init().unwrap();
        let rf = Rf::of::<W>();
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        let garb = Inst::<W>::new(p, c, dir);
        let public = garb.identify(|_| {})?;
        let enc = garb.code();
        Ok(Env {
            p,
            rf,
            low: Dealer::new::<W>(&rf, p.n, p.d(), &pos),
            high: Dealer::new::<W>(&rf, p.n, p.n - 1, &pos),
            open: Opener::new::<W>(&rf, p.n, p.d(), &pos),
            open_n: Opener::new::<W>(&rf, p.n, p.n - 1, &pos),
            pos,
            pre: PreInst::<W>::usual(p),
            garb,
            public,
            enc,
        })
    }

    /// Inputs number `k`; every other one has other sizes.
    fn set(&self, k: usize, same: bool) -> Set {
        let p = self.p;
        let mut f = Fill(100 + k as u64, W as u32);
        let num = if same { 2 } else { 1 + k };
        let (mut a, mut b, mut sh): (Vec<Vec<u32>>, Vec<Vec<u32>>, [Vec<Vec<u32>>; 5]) = Default::default();
        for _ in 0..num {
            let (x, y, r) = (f.vec(p.l), f.vec(p.l), f.vec(p.l));
            sh[0].push(self.low.share(&x, &f.vec(self.low.free())));
            sh[1].push(self.low.share(&y, &f.vec(self.low.free())));
            sh[2].push(self.low.share(&r, &f.vec(self.low.free())));
            sh[3].push(self.high.share(&vec![0; p.l], &f.vec(self.high.free())));
            sh[4].push(self.high.share(&r, &f.vec(self.high.free())));
            a.push(x);
            b.push(y);
        }
        let mat = self.garb.filled((0..self.garb.wires).map(|i| (i + k) % 3 == 1).collect(), 50 + k as u64);
        let dealt = self.garb.deal(&mat, 60 + k as u64);
        let m = if same { 1 } else { k };
        Set { a, b, sh, mat, dealt, req: Req { masks: 1 + m, keys: (2, 1, 1 + m), randoms: 1 + m, zeros: 2 + m, errors: 2 + m }, num }
    }

    fn job(&self, w: What, s: &Set, i: usize, id: Vec<u8>, net: Network) -> Job {
        let c = self.pre.ctxs[i].clone();
        let (rc, zc, bc) = self.pre.contexts(i);
        let mut col = s.sh.iter().map(|v| party_col::<W>(v, i)).collect::<Vec<_>>().into_iter();
        let mut n = || col.next().unwrap();
        let (x, y, r, z, r_n) = (n(), n(), n(), n(), n());
        let num = s.num;
        match w {
            What::Mult => Box::pin(async move { Got::Shares(mult(id, x, y, r, z, None, c, net).await.to_vec()) }),
            What::Reduce => Box::pin(async move { Got::Shares(reduce_degree(id, x, r, z, None, c, net).await.to_vec()) }),
            What::Trans => {
                let pos: Vec<GF<W>> = self.pos.iter().map(|x| GF::from(*x)).collect();
                let t = SharingTransform::new(pos.clone(), pos, Combination::new((0..self.p.l).collect()));
                Box::pin(async move { Got::Shares(trans(id, x, r, r_n, t, None, c, net).await.to_vec()) })
            }
            What::Rand => Box::pin(async move { Got::Shares(rand(id, num, rc, net).await.to_vec()) }),
            What::Zero => Box::pin(async move { Got::Shares(zero(id, num, zc, net).await.to_vec()) }),
            What::Bit => Box::pin(async move { Got::Shares(randbit(id, num, bc, net).await.to_vec()) }),
            What::Pre => {
                let f = self.pre.party(i, id, &s.req, net);
                Box::pin(async move { Got::Pre(f.await) })
            }
            What::Garble => {
                let (m, g) = (s.dealt[i].clone(), self.garb.gctx[i].clone());
                Box::pin(async move { Got::Gates(garble(id, m, g, net).await.gates) })
            }
            What::Both => {
                let mut gen = ProtocolIDBuilder::new(&id, 2);
                let (first, second) = (gen.next().unwrap(), gen.next().unwrap());
                let f = self.pre.party(i, first, &self.garb.request(), net.clone());
                let g = self.garb.gctx[i].clone();
                Box::pin(async move {
                    let m = f.await;
                    let t = garble(second, m.clone(), g, net).await.gates;
                    Got::Both(m, t)
                })
            }
        }
    }

    fn judge(&self, w: What, s: &Set, v: &[&Got]) -> Result<(), String> {
        let what = format!("{w:?} of {}", s.num);
        let tables = |m: &Mat, t: Vec<Vec<ndarray::Array2<GF<W>>>>| {
            let t = self.garb.open(&t)?;
            self.garb.explain(&self.public, &self.enc, m, &t).map(|_| ()).map_err(|e| format!("{what}: {e}"))
        };
        match v[0] {
            Got::Pre(_) => {
                let m: Vec<PreProc<W>> = v.iter().map(|x| if let Got::Pre(m) = x { m.clone() } else { unreachable!() }).collect();
                self.pre.open(&s.req, &m).map(|_| ())
            }
            Got::Gates(_) => tables(&s.mat, v.iter().map(|x| if let Got::Gates(t) = x { t.clone() } else { unreachable!() }).collect()),
            Got::Both(..) => {
                let (m, t): (Vec<_>, Vec<_>) = v.iter().map(|x| if let Got::Both(m, t) = x { (m.clone(), t.clone()) } else { unreachable!() }).unzip();
                tables(&self.garb.mat_of(&self.pre.open(&self.garb.request(), &m)?)?, t)
            }
            Got::Shares(_) => {
                let o: Vec<Vec<GF<W>>> = v.iter().map(|x| if let Got::Shares(t) = x { t.clone() } else { unreachable!() }).collect();
                if o.iter().any(|x| x.len() != o[0].len() || x.len() < s.num) {
                    return Err(format!("{what}: parties have {:?} results", o.iter().map(|x| x.len()).collect::<Vec<_>>()));
                }
                for k in 0..s.num {
                    let sh = sharing_of(&o, k);
                    let got = if w == What::Zero { self.open_n.open(&sh) } else { self.open.open(&sh) }.map_err(|e| format!("{what}: result {k}: {e}"))?;
                    let ok = match w {
                        What::Mult => got == s.a[k].iter().zip(&s.b[k]).map(|(x, y)| self.rf.mul(*x, *y)).collect::<Vec<_>>(),
                        What::Reduce | What::Trans => got == s.a[k],
                        What::Zero => got.iter().all(|x| *x == 0),
                        What::Bit => got.iter().all(|x| *x < 2),
                        _ => true,
                    };
                    if !ok {
                        return Err(format!("{what}: result {k} holds {got:?}"));
                    }
                }
                Ok(())
            }
        }
    }

    /// All of `jobs` at once, `rounds` times under the same identifiers with a barrier in between.
    fn run(&self, cfg: Cfg, net: Net, jobs: &[What], sets: &[Set], rounds: usize) -> (mcrt::Outcome, Result<(), String>) {
        let k = jobs.len();
        let parent = vec![7u8];
        let mut gen = ProtocolIDBuilder::new(&parent, k as u64);
        let ids: Vec<Vec<u8>> = (0..k).map(|_| gen.next().unwrap()).collect();
        let run = parties(cfg, net, self.p.n, |i, net, _| {
            // Every party begins with another one.
            let mut todo: Vec<Vec<(usize, Job)>> = vec![];
            for r in 0..rounds {
                todo.push((0..k).map(|j| (j + i) % k).map(|j| (j, self.job(jobs[j], &sets[r * k + j], i, ids[j].clone(), net.clone()))).collect());
            }
            let n = self.p.n;
            async move {
                let mut all = vec![];
                for (r, jobs) in todo.into_iter().enumerate() {
                    if r > 0 {
                        network::sync(b"barrier".to_vec(), &net, n).await;
                    }
                    let hs: Vec<_> = jobs.into_iter().map(|(j, f)| (j, tokio::task::spawn(f))).collect();
                    let mut got: Vec<Option<Got>> = (0..k).map(|_| None).collect();
                    for (j, h) in hs {
                        got[j] = Some(h.await.unwrap());
                    }
                    all.extend(got.into_iter().map(|x| x.unwrap()));
                }
                all
            }
        });
        let r = finished(&run.out).and_then(|_| {
            let v: Vec<Vec<Got>> = run.vals.into_iter().map(|x| x.unwrap()).collect();
            for (j, s) in sets.iter().enumerate().take(rounds * k) {
                self.judge(jobs[j % k], s, &v.iter().map(|x| &x[j]).collect::<Vec<_>>()).map_err(|e| format!("instance {} in round {}: {e}", j % k, j / k))?;
            }
            Ok(())
        });
        (run.out, r)
    }
}

fn explored(ctx: &Ctx, p: Par, c: &C, dir: &std::path::Path) {
    let env = match guarded(|| Env::new(p, c, dir)) {
        Ok(Ok(e)) => e,
        Ok(Err(e)) | Err(Fail::Code(e)) => return ctx.violation(&format!("{}:identify", p.name()), &[], &e),
        Err(Fail::Harness(e)) => return ctx.error(&e),
    };
    let mut lists: Vec<Vec<What>> = vec![];
    for (i, a) in ALL.iter().enumerate() {
        for b in &ALL[i..] {
            lists.push(vec![*a, *b]);
        }
        lists.push(vec![*a; 3]);
    }
    lists.push(ALL.to_vec());
    let order = kind_mask(&[Kind::Task, Kind::Select]);
    let hold = kind_mask(&[Kind::Yield]);
    for jobs in &lists {
        let name = jobs.iter().map(|j| format!("{j:?}")).collect::<Vec<_>>().join("+");
        for (rounds, same) in [(1, true), (1, false), (2, true)] {
            let sets: Vec<Set> = (0..jobs.len() * rounds).map(|k| env.set(k, same)).collect();
            for net in [Net::Tcp, Net::Local] {
                for (pn, pol) in policies(p.n) {
                    let fifo = matches!(pol, Policy::Fifo);
                    let cfg = Cfg { policy: pol.clone(), rng: RngMode::Stream(3), ..Cfg::default() };
                    let key = format!("{}:{name}:{rounds}:{same}:{net:?}:{pn}", p.name());
                    // One deviation for pairs of single steps; elsewhere the base schedules.
                    let light = jobs.iter().all(|j| !matches!(j, What::Pre | What::Garble | What::Both));
                    let dev = (fifo && jobs.len() == 2 && p.n == 3 && rounds == 1 && (light && same || !ctx.quick())) as usize;
                    for (k, kinds) in [("order", order), ("hold", hold)] {
                        if dev == 0 && k == "hold" {
                            continue;
                        }
                        let b = Bounds { kinds, max_dev: dev, max_execs: ctx.pick(2_000, 5_000) };
                        explore(ctx, &format!("{key}:{k}"), &cfg, &b, |cfg| env.run(cfg, net, jobs, &sets, rounds));
                    }
                }
            }
        }
    }
}

fn run(ctx: &Ctx) {
    let dir = scratch();
    let c = C { inputs: vec![1, 1], outputs: vec![1], gates: vec![G { k: K::And, a: 0, b: 1, o: 2 }, G { k: K::Xor, a: 2, b: 0, o: 3 }, G { k: K::Inv, a: 3, b: 3, o: 4 }] };
    explored(ctx, Par::new(3, 1, 1).lpn(1, 2), &c, &dir);
    explored(ctx, Par::new(5, 1, 2).lpn(1, 3), &c, &dir);
    if !ctx.quick() {
        explored(ctx, Par::new(7, 2, 2).lpn(2, 3), &c, &dir);
    }
    ctx.assume("a connection delivers bytes in order and without loss; delays are schedule choices");
}

fn main() {
    mc::main(Spec {
        id: "C31",
        level: "model_checking",
        rule: "states are choice points and ends of explored executions, transitions task steps of the real code, traces complete executions in which the results of every instance were opened and judged",
        run,
    })
}
