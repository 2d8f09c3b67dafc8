//! Garbling with dealer-made material, and opening of the tables.

use crate::circ::{C, K};
use crate::gfref::*;
use crate::proto::*;
use mcrt::{Cfg, Outcome};
use ndarray::{Array1, Array3};
use scalable_mpc::circuit::{PackedCircuit, PackedGate};
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::garble::{garble, GarbleContext};
use scalable_mpc::protocol::preproc::{PreProc, PreProcCount};
use scalable_mpc::protocol::MPCContext;
use scalable_mpc::sharing::PackedSharing;
use std::sync::Arc;

pub struct Block {
    pub k: K,
    /// input wires per operand, slot by slot
    pub inp: Vec<Vec<u32>>,
    pub out: Vec<u32>,
}

impl Block {
    pub fn rows(&self) -> usize {
        if self.k == K::Inv {
            2
        } else {
            4
        }
    }
    /// masked values of the operands in a row
    pub fn bits(&self, row: usize) -> Vec<usize> {
        if self.k == K::Inv {
            vec![row]
        } else {
            vec![row / 2, row % 2]
        }
    }
    pub fn eval(&self, v: &[bool]) -> bool {
        match self.k {
            K::And => v[0] & v[1],
            K::Xor => v[0] ^ v[1],
            K::Inv => !v[0],
        }
    }
}

/// Wire masks, wire keys and errors in the clear.
#[derive(Clone, Debug)]
pub struct Mat {
    pub masks: Vec<bool>,
    pub keys: Vec<[Vec<u32>; 2]>,
    /// one vector of slots per announced error
    pub errors: Vec<Vec<u32>>,
}

pub struct Inst<const W: u8> {
    pub p: Par,
    pub rf: Rf,
    pub wires: usize,
    pub in_blocks: Vec<Vec<u32>>,
    pub gates: Vec<Block>,
    pub counts: PreProcCount,
    pub gctx: Vec<Arc<GarbleContext<W>>>,
    pub ctxs: Vec<MPCContext<W>>,
    low: Dealer,
    high: Dealer,
    open_n: Opener,
}

/// opened[gate block][row][symbol][slot]
pub type Tables = Vec<Vec<Vec<Vec<u32>>>>;

pub fn blocks_of(packed: &PackedCircuit) -> Vec<Block> {
    packed
        .gates()
        .iter()
        .map(|g| match g {
            PackedGate::And(i) => Block { k: K::And, inp: i.inp.to_vec(), out: i.out.clone() },
            PackedGate::Xor(i) => Block { k: K::Xor, inp: i.inp.to_vec(), out: i.out.clone() },
            PackedGate::Inv(i) => Block { k: K::Inv, inp: i.inp.to_vec(), out: i.out.clone() },
        })
        .collect()
}

impl<const W: u8> Inst<W> {
    pub fn new(p: Par, c: &C, dir: &std::path::Path) -> Inst<W> {
        GF::<W>::init().unwrap();
        let rf = Rf::of::<W>();
        let packed = c.load(dir, &p.name()).pack(p.l as u32);
        Self::of_packed(p, rf, packed)
    }
    pub fn of_packed(p: Par, rf: Rf, packed: PackedCircuit) -> Inst<W> {
        let ctxs = contexts::<W>(&p);
        let counts = PreProc::<W>::describe(&packed, &ctxs[0]);
        let pos = un(&PackedSharing::<W>::default_pos(p.n as u32, p.l as u32));
        Inst {
            p,
            rf,
            wires: packed.num_wires() as usize,
            in_blocks: packed.inputs().to_vec(),
            gates: blocks_of(&packed),
            counts,
            gctx: ctxs.iter().map(|c| Arc::new(GarbleContext::new(packed.clone(), c.clone()))).collect(),
            ctxs,
            low: Dealer::new::<W>(&rf, p.n, p.d(), &pos),
            high: Dealer::new::<W>(&rf, p.n, p.n - 1, &pos),
            open_n: Opener::new::<W>(&rf, p.n, p.n - 1, &pos),
        }
    }

    /// Wires of every block of shared values: circuit inputs, then gate outputs.
    pub fn wire_blocks(&self) -> Vec<&Vec<u32>> {
        self.in_blocks.iter().chain(self.gates.iter().map(|g| &g.out)).collect()
    }

    pub fn zero_mat(&self) -> Mat {
        Mat { masks: vec![false; self.wires], keys: vec![[vec![0; self.p.k], vec![0; self.p.k]]; self.wires], errors: vec![vec![0; self.p.l]; self.counts.errors] }
    }
    pub fn filled(&self, masks: Vec<bool>, seed: u64) -> Mat {
        let mut f = Fill(seed, W as u32);
        let k = self.p.k;
        Mat { masks, keys: (0..self.wires).map(|_| [f.vec(k), f.vec(k)]).collect(), errors: (0..self.counts.errors).map(|_| f.vec(self.p.l)).collect() }
    }

    /// The material of opened preprocessing.
    pub fn mat_of(&self, o: &crate::pre::Opened) -> Result<Mat, String> {
        let mut m = self.zero_mat();
        let wb = self.wire_blocks();
        if o.secrets[0].len() != wb.len() || o.secrets[1].len() != 2 * self.p.k * wb.len() {
            return Err(format!("{} masks and {} key elements for {} blocks of wires", o.secrets[0].len(), o.secrets[1].len(), wb.len()));
        }
        for (b, ws) in wb.iter().enumerate() {
            for (s, w) in ws.iter().enumerate() {
                m.masks[*w as usize] = o.secrets[0][b][s] == 1;
                for bit in 0..2 {
                    for k in 0..self.p.k {
                        m.keys[*w as usize][bit][k] = o.secrets[1][(bit * self.p.k + k) * wb.len() + b][s];
                    }
                }
            }
        }
        m.errors = o.secrets[4].clone();
        Ok(m)
    }
    pub fn request(&self) -> crate::pre::Req {
        let c = &self.counts;
        crate::pre::Req { masks: c.masks, keys: c.keys, randoms: c.randoms, zeros: c.zeros, errors: c.errors }
    }

    /// Material of every party; `seed` drives the sharings.
    pub fn deal(&self, m: &Mat, seed: u64) -> Vec<PreProc<W>> {
        let p = self.p;
        let mut f = Fill(seed, W as u32);
        let (lf, hf) = (self.low.free(), self.high.free());
        let wb = self.wire_blocks();
        let mut low = |s: &[u32], f: &mut Fill| self.low.share(s, &f.vec(lf));
        // Slots without a wire hold arbitrary values.
        let block = |b: &Vec<u32>, get: &dyn Fn(u32) -> u32, f: &mut Fill, bit: bool| -> Vec<u32> {
            (0..p.l)
                .map(|s| match b.get(s) {
                    Some(w) => get(*w),
                    None => {
                        if bit {
                            f.next() & 1
                        } else {
                            f.next()
                        }
                    }
                })
                .collect()
        };
        let masks: Vec<Vec<u32>> = wb
            .iter()
            .map(|b| {
                let s = block(b, &|w| m.masks[w as usize] as u32, &mut f, true);
                low(&s, &mut f)
            })
            .collect();
        let mut keys: Vec<Vec<u32>> = vec![];
        for bit in 0..2 {
            for k in 0..p.k {
                for b in &wb {
                    let s = block(b, &|w| m.keys[w as usize][bit][k], &mut f, false);
                    keys.push(low(&s, &mut f));
                }
            }
        }
        let randoms: Vec<Vec<u32>> = (0..self.counts.randoms)
            .map(|_| {
                let s = f.vec(p.l);
                low(&s, &mut f)
            })
            .collect();
        let zeros: Vec<Vec<u32>> = (0..self.counts.zeros).map(|_| self.high.share(&vec![0; p.l], &f.vec(hf))).collect();
        let errors: Vec<Vec<u32>> = m.errors.iter().map(|e| low(e, &mut f)).collect();
        (0..p.n)
            .map(|i| PreProc {
                masks: party_col::<W>(&masks, i),
                keys: Array3::from_shape_vec((2, p.k, wb.len()), party_col::<W>(&keys, i).to_vec()).unwrap(),
                randoms: party_col::<W>(&randoms, i).to_vec().into(),
                zeros: party_col::<W>(&zeros, i).to_vec().into(),
                errors: party_col::<W>(&errors, i).to_vec().into(),
            })
            .collect()
    }

    pub fn run(&self, cfg: Cfg, net: Net, pre: Vec<PreProc<W>>) -> (Outcome, Result<Tables, String>) {
        let run = parties(cfg, net, self.p.n, |i, net, _| {
            let (pre, g) = (pre[i].clone(), self.gctx[i].clone());
            async move { garble(vec![], pre, g, net).await.gates }
        });
        let r = crate::finished(&run.out).and_then(|_| {
            let v: Vec<_> = run.vals.into_iter().map(|x| x.unwrap()).collect();
            self.open(&v)
        });
        (run.out, r)
    }

    pub fn open(&self, v: &[Vec<ndarray::Array2<GF<W>>>]) -> Result<Tables, String> {
        for (i, x) in v.iter().enumerate() {
            if x.len() != self.gates.len() {
                return Err(format!("party {i} has {} tables for {} gate blocks", x.len(), self.gates.len()));
            }
            for (g, t) in x.iter().enumerate() {
                if t.shape() != [self.gates[g].rows(), self.p.q] {
                    return Err(format!("party {i}, gate block {g}: table of shape {:?}", t.shape()));
                }
            }
        }
        let mut out = vec![];
        for (g, b) in self.gates.iter().enumerate() {
            let mut rows = vec![];
            for r in 0..b.rows() {
                let mut syms = vec![];
                for q in 0..self.p.q {
                    let sh: Vec<u32> = v.iter().map(|x| u32::from(x[g][(r, q)])).collect();
                    let mut s = self.open_n.open(&sh)?;
                    s.truncate(b.out.len());
                    syms.push(s);
                }
                rows.push(syms);
            }
            out.push(rows);
        }
        Ok(out)
    }

    /// Garbles once; the base schedule and the kind of network vary with the seed.
    pub fn tables(&self, m: &Mat, seed: u64) -> (Outcome, Result<Tables, String>) {
        let pol = policies(self.p.n);
        let policy = pol[seed as usize % pol.len()].1.clone();
        let net = if seed / pol.len() as u64 % 2 == 0 { Net::Local } else { Net::Tcp };
        self.run(Cfg { rng: mcrt::RngMode::Stream(seed), policy, ..Cfg::default() }, net, self.deal(m, seed))
    }
}

/// mats[gate block][row][slot][symbol][key index]: the public matrices as they show in the tables.
pub struct Public {
    pub mats: Vec<Vec<Vec<Vec<Vec<Option<u32>>>>>>,
    pub runs: u64,
}

impl<const W: u8> Inst<W> {
    /// Identifies the public matrices from runs that differ in one key symbol of one wire.
    pub fn identify(&self, mut seen: impl FnMut(&Outcome)) -> Result<Public, String> {
        let base_mat = self.zero_mat();
        let (o, t0) = self.tables(&base_mat, 1);
        seen(&o);
        let t0 = t0?;
        let mut mats: Vec<Vec<Vec<Vec<Vec<Option<u32>>>>>> = self.gates.iter().map(|g| vec![vec![vec![vec![None; self.p.k]; self.p.q]; g.out.len()]; g.rows()]).collect();
        let mut runs = 1;
        for w in 0..self.wires as u32 {
            if !self.gates.iter().any(|g| g.inp.iter().any(|v| v.contains(&w))) {
                continue;
            }
            for bit in 0..2 {
                for k in 0..self.p.k {
                    let mut m = base_mat.clone();
                    m.keys[w as usize][bit][k] = 1;
                    let (o, t) = self.tables(&m, 2 + runs);
                    seen(&o);
                    runs += 1;
                    let t = t?;
                    for (g, b) in self.gates.iter().enumerate() {
                        for s in 0..b.out.len() {
                            let own = b.out[s] == w;
                            for r in 0..b.rows() {
                                let bits = b.bits(r);
                                let used = (0..b.inp.len()).filter(|i| b.inp[*i][s] == w && bits[*i] == bit).count();
                                for q in 0..self.p.q {
                                    let d = t[g][r][q][s] ^ t0[g][r][q][s];
                                    if own {
                                        continue;
                                    }
                                    if used % 2 == 0 {
                                        if d != 0 {
                                            return Err(format!(
                                                "gate block {g} slot {s} row {r}: depends on symbol {k} of key {bit} of wire {w}, which is not part of that row's key (operands {:?})",
                                                b.inp.iter().map(|v| v[s]).collect::<Vec<_>>()
                                            ));
                                        }
                                    } else {
                                        let e = &mut mats[g][r][s][q][k];
                                        if e.map_or(false, |x| x != d) {
                                            return Err(format!("gate block {g} slot {s} row {r} symbol {q}: left and right key symbol {k} enter with different factors"));
                                        }
                                        *e = Some(d);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(Public { mats, runs })
    }
}

impl<const W: u8> Inst<W> {
    pub fn encode(&self, enc: &[Vec<u32>], key: &[u32], tag: bool) -> Vec<u32> {
        enc.iter().map(|r| r.iter().zip(key.iter().copied().chain([tag as u32])).fold(0, |a, (c, v)| a ^ self.rf.mul(*c, v))).collect()
    }

    /// The code used for labels: symbols x (key length + 1).
    pub fn code(&self) -> Vec<Vec<u32>> {
        let m = scalable_mpc::math::rs_gen_mat::<W>(self.p.k + 1, self.p.q);
        (0..self.p.q).map(|r| (0..self.p.k + 1).map(|c| u32::from(m[(r, c)])).collect()).collect()
    }

    /// Where a wire is produced: gate block and slot.
    pub fn producer(&self, w: u32) -> Option<(usize, usize)> {
        self.gates.iter().enumerate().find_map(|(g, b)| b.out.iter().position(|x| *x == w).map(|s| (g, s)))
    }

    /// What row `r` of slot `s` of gate block `g` has to encrypt: index of the label.
    pub fn label(&self, m: &Mat, g: usize, s: usize, r: usize) -> usize {
        let b = &self.gates[g];
        let v: Vec<bool> = b.bits(r).iter().enumerate().map(|(i, x)| (*x == 1) ^ m.masks[b.inp[i][s] as usize]).collect();
        (b.eval(&v) ^ m.masks[b.out[s] as usize]) as usize
    }

    /// M·(kL_i + kR_j) of a row.
    pub fn pad(&self, public: &Public, m: &Mat, g: usize, s: usize, r: usize) -> Vec<u32> {
        let b = &self.gates[g];
        let mut key = vec![0; self.p.k];
        for (i, x) in b.bits(r).iter().enumerate() {
            for (k, e) in m.keys[b.inp[i][s] as usize][*x].iter().enumerate() {
                key[k] ^= e;
            }
        }
        (0..self.p.q).map(|q| (0..self.p.k).fold(0, |a, k| a ^ if key[k] == 0 { 0 } else { self.rf.mul(public.mats[g][r][s][q][k].expect("matrix entry not identified"), key[k]) })).collect()
    }

    /// Every row is the right label, under the right keys, plus a supplied error.  Returns which
    /// error went where.
    pub fn explain(&self, public: &Public, enc: &[Vec<u32>], m: &Mat, t: &Tables) -> Result<Vec<usize>, String> {
        let mut rests: Vec<(usize, usize, usize, Vec<u32>)> = vec![];
        for (g, b) in self.gates.iter().enumerate() {
            for r in 0..b.rows() {
                let rest: Vec<Vec<u32>> = (0..b.out.len())
                    .map(|s| {
                        let pad = self.pad(public, m, g, s, r);
                        let c = self.label(m, g, s, r);
                        let msg = self.encode(enc, &m.keys[b.out[s] as usize][c], c == 1);
                        (0..self.p.q).map(|q| t[g][r][q][s] ^ pad[q] ^ msg[q]).collect()
                    })
                    .collect();
                for q in 0..self.p.q {
                    rests.push((g, r, q, rest.iter().map(|v| v[q]).collect()));
                }
            }
        }
        // A block that is not full shows only a prefix of its error.  Longer prefixes first: then
        // which of several fitting errors is taken makes no difference to what can still be matched.
        let mut order: Vec<usize> = (0..rests.len()).collect();
        order.sort_by_key(|i| std::cmp::Reverse(rests[*i].3.len()));
        let mut used = vec![0; rests.len()];
        let mut unused: Vec<bool> = vec![true; m.errors.len()];
        for at in order {
            let (g, r, q, e) = &rests[at];
            let b = &self.gates[*g];
            let fits = |i: usize| unused[i] && m.errors[i][..e.len()] == e[..];
            // In the order of supply if possible, in any order otherwise.
            let i = if at < unused.len() && fits(at) { Some(at) } else { (0..unused.len()).find(|i| fits(*i)) };
            match i {
                Some(i) => {
                    unused[i] = false;
                    used[at] = i;
                }
                None => {
                    let what: Vec<String> = (0..b.out.len())
                        .map(|s| format!("{:?} of wires {:?} -> {}: label {}", b.k, b.inp.iter().map(|v| v[s]).collect::<Vec<_>>(), b.out[s], self.label(m, *g, s, *r)))
                        .collect();
                    return Err(format!(
                        "{}: gate block {g} row {r} symbol {q} is not the label's codeword under the row's key plus a supplied error; remainder {e:?}; slots {what:?}; masks {:?}",
                        self.p.name(),
                        m.masks.iter().map(|b| *b as u8).collect::<Vec<_>>()
                    ));
                }
            }
        }
        Ok(used)
    }

    /// Walks the tables as an evaluator holding one label per input wire, and returns the plain
    /// values of all wires.
    pub fn walk(&self, public: &Public, enc: &[Vec<u32>], m: &Mat, errs: &[usize], t: &Tables, inputs: &[bool]) -> Result<Vec<bool>, String> {
        let mut label: Vec<Option<(Vec<u32>, bool)>> = vec![None; self.wires];
        for (w, x) in inputs.iter().enumerate() {
            let i = x ^ m.masks[w];
            label[w] = Some((m.keys[w][i as usize].clone(), i));
        }
        // Codewords are told apart by comparing with the two possible labels.
        let mut err_at = vec![];
        let mut at = 0;
        for b in &self.gates {
            err_at.push(at);
            at += b.rows() * self.p.q;
        }
        for w in inputs.len() as u32..self.wires as u32 {
            let (g, s) = self.producer(w).ok_or(format!("no gate produces wire {w}"))?;
            let b = &self.gates[g];
            let ins: Vec<(Vec<u32>, bool)> = b.inp.iter().map(|v| label[v[s] as usize].clone().expect("wire order")).collect();
            let r = ins.iter().fold(0, |a, l| 2 * a + l.1 as usize);
            let mut key = vec![0; self.p.k];
            for l in &ins {
                for k in 0..self.p.k {
                    key[k] ^= l.0[k];
                }
            }
            let code: Vec<u32> = (0..self.p.q)
                .map(|q| {
                    let pad = (0..self.p.k).fold(0, |a, k| a ^ if key[k] == 0 { 0 } else { self.rf.mul(public.mats[g][r][s][q][k].expect("matrix entry"), key[k]) });
                    t[g][r][q][s] ^ pad ^ m.errors[errs[err_at[g] + r * self.p.q + q]][s]
                })
                .collect();
            let hit = (0..2).find(|c| self.encode(enc, &m.keys[w as usize][*c], *c == 1) == code);
            match hit {
                Some(c) => label[w as usize] = Some((m.keys[w as usize][c].clone(), c == 1)),
                None => return Err(format!("inputs {inputs:?}: the row selected for wire {w} holds none of its labels")),
            }
        }
        Ok(label.iter().enumerate().map(|(w, l)| l.as_ref().unwrap().1 ^ m.masks[w]).collect())
    }
}

/// Garbles one circuit under all schedules within the bounds.
pub fn explore_garbling<const W: u8>(ctx: &crate::Ctx, p: Par, c: &C, dir: &std::path::Path, net: Net, pols: &[(String, mcrt::Policy)], kinds: u32, dev: usize, execs: u64) {
    let inst = Inst::<W>::new(p, c, dir);
    let enc = inst.code();
    let public = match crate::guarded(|| inst.identify(|_| {})) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) | Err(crate::Fail::Code(e)) => return ctx.violation(&format!("sched:{}:identify", p.name()), &[], &e),
        Err(crate::Fail::Harness(e)) => return ctx.error(&e),
    };
    let m = inst.filled((0..inst.wires).map(|i| i % 3 == 1).collect(), 5);
    let pre = inst.deal(&m, 6);
    for (pn, pol) in pols {
        let cfg = Cfg { policy: pol.clone(), rng: mcrt::RngMode::Stream(9), ..Cfg::default() };
        crate::explore(ctx, &format!("sched:{W}:{}:{net:?}:{pn}:{}", p.name(), c.name()), &cfg, &crate::Bounds { kinds, max_dev: dev, max_execs: execs }, |cfg| {
            let (o, t) = inst.run(cfg, net, pre.clone());
            (o, t.and_then(|t| inst.explain(&public, &enc, &m, &t).map(|_| ())))
        });
    }
}
