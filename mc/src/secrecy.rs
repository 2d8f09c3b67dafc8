//! What a set of parties can tell from what it holds and receives.

use crate::gfref::*;
use crate::pre::{pack32, view_bits, Space};
use crate::proto::*;
use mcrt::{Cfg, RngMode};
use std::collections::{BTreeMap, HashMap};

pub type Tape = HashMap<(u32, u32), u32>;
pub type Streams = Vec<(u32, u32, Vec<u8>, u64)>;

/// One execution: bytes on every connection, numbers of draws, outputs by party.
pub struct Seen {
    pub streams: Streams,
    pub draws: BTreeMap<u32, u32>,
    pub out: Vec<Vec<u32>>,
}

pub fn tape_cfg(w: u8, tape: &Tape) -> Cfg {
    Cfg { rng: RngMode::Tape { w: w as u32, tape: tape.clone() }, record_streams: true, ..Cfg::default() }
}

/// All draws of an execution with these numbers of draws, filled.
pub fn fill_tape(draws: &BTreeMap<u32, u32>, f: &mut Fill) -> Tape {
    draws.iter().flat_map(|(g, k)| (0..*k).map(move |i| (*g, i))).map(|k| (k, f.next())).collect()
}

/// Difference of two executions, byte by byte.
pub fn differ(a: &Streams, b: &Streams) -> Result<Streams, String> {
    if a.len() != b.len() {
        return Err("different connections".into());
    }
    let mut v = vec![];
    for (x, y) in a.iter().zip(b) {
        if (x.0, x.1) != (y.0, y.1) || x.2.len() != y.2.len() {
            return Err(format!("the amount sent from {} to {} depends on values", x.0, x.1));
        }
        v.push((x.0, x.1, x.2.iter().zip(&y.2).map(|(p, q)| p ^ q).collect(), 0));
    }
    Ok(v)
}

/// A change of the inputs of an execution.
#[derive(Clone)]
pub enum Change {
    /// Adds a sharing to one of the masks.
    Mask(usize, Vec<u32>),
    /// Adds a value to one party's share of an input.
    Secret(usize, usize, u32),
    /// Flips bits of one draw.
    Draw(u32, u32, u32),
}

/// What a change does to the bytes sent and to the outputs.
pub struct Dir {
    pub ch: Change,
    pub sent: Streams,
    pub out: Vec<Vec<u32>>,
}

pub struct Linear {
    pub base: Seen,
    pub dirs: Vec<Dir>,
    /// Masks and secrets by slot, shares by party.
    pub slots: usize,
    pub runs: u64,
}

/// Runs the protocol once per single change.  `inputs` are all input sharings, `masks` and
/// `secrets` the slots of either kind.
pub fn probe<F>(w: u8, inputs: &[Vec<u32>], changes: &[Change], run: F) -> Result<Linear, String>
where
    F: Fn(&[Vec<u32>], &Tape) -> Result<Seen, String>,
{
    let mut f = Fill(77, w as u32);
    let first = run(inputs, &Tape::new())?;
    let tape = fill_tape(&first.draws, &mut f);
    let base = run(inputs, &tape)?;
    let mut all: Vec<Change> = changes.to_vec();
    for (g, k) in &base.draws {
        for i in 0..*k {
            for b in 0..w {
                all.push(Change::Draw(*g, i, 1 << b));
            }
        }
    }
    let with = |cs: &[&Change]| {
        let (mut x, mut t) = (inputs.to_vec(), tape.clone());
        for c in cs {
            match c {
                Change::Mask(s, v) => {
                    for (a, b) in x[*s].iter_mut().zip(v) {
                        *a ^= b;
                    }
                }
                Change::Secret(s, p, v) => x[*s][*p] ^= v,
                Change::Draw(g, i, v) => *t.entry((*g, *i)).or_insert(0) ^= v,
            }
        }
        let s = run(&x, &t)?;
        if s.draws != base.draws {
            panic!("the amount of randomness depends on values: this analysis does not apply");
        }
        let out = base.out.iter().zip(&s.out).map(|(a, b)| a.iter().zip(b).map(|(x, y)| x ^ y).collect()).collect();
        Ok::<_, String>((differ(&base.streams, &s.streams)?, out))
    };
    let mut dirs = vec![];
    for c in all {
        let (sent, out) = with(&[&c])?;
        dirs.push(Dir { ch: c, sent, out });
    }
    // Many changes at once have the combined effect.
    let mut f = Fill(5, 1);
    for k in 0..4 {
        let pick: Vec<usize> = (0..dirs.len()).filter(|i| if k == 0 { true } else { f.next() == 1 && *i < dirs.len() }).collect();
        let got = with(&pick.iter().map(|i| &dirs[*i].ch).collect::<Vec<_>>())?;
        let mut want: (Streams, Vec<Vec<u32>>) = (differ(&base.streams, &base.streams)?, base.out.iter().map(|o| vec![0; o.len()]).collect());
        for i in &pick {
            for (a, b) in want.0.iter_mut().zip(&dirs[*i].sent) {
                for (x, y) in a.2.iter_mut().zip(&b.2) {
                    *x ^= y;
                }
            }
            for (a, b) in want.1.iter_mut().zip(&dirs[*i].out) {
                for (x, y) in a.iter_mut().zip(b) {
                    *x ^= y;
                }
            }
        }
        if want != got {
            panic!("what is sent is not an affine function of shares and draws: this analysis does not apply");
        }
    }
    let runs = dirs.len() as u64 + 6;
    Ok(Linear { base, dirs, slots: inputs.len(), runs })
}

impl Linear {
    fn row(&self, c: &[usize], d: &Dir) -> Vec<u64> {
        let mut held = vec![0u32; self.slots * c.len()];
        if let Change::Mask(slot, v) = &d.ch {
            for (i, p) in c.iter().enumerate() {
                held[slot * c.len() + i] = v[*p];
            }
        }
        let mut r = pack32(&held);
        r.extend(view_bits(&d.sent, c));
        r
    }
    /// Everything a change of other parties' input shares does to what `c` sees must also be an
    /// effect of masks (with `c`'s shares of them fixed) and of others' randomness.
    pub fn hidden_from(&self, c: &[usize]) -> Result<(), String> {
        let mut sp = Space::default();
        for d in &self.dirs {
            match d.ch {
                Change::Mask(..) => {
                    sp.add(&self.row(c, d));
                }
                Change::Draw(g, ..) if !c.contains(&(g as usize)) => {
                    sp.add(&self.row(c, d));
                }
                _ => {}
            }
        }
        for d in &self.dirs {
            if let Change::Secret(slot, p, v) = &d.ch {
                if !c.contains(p) && !sp.has(&self.row(c, d)) {
                    return Err(format!("parties {c:?} learn about party {p}'s share (input {slot}, difference {v})"));
                }
            }
        }
        Ok(())
    }
    /// Does anybody outside `c` send anything to `c` that depends on a secret at all?
    pub fn touches(&self, c: &[usize]) -> bool {
        self.dirs.iter().any(|d| matches!(&d.ch, Change::Secret(_, p, _) if !c.contains(p)) && view_bits(&d.sent, c).iter().any(|x| *x != 0))
    }
    /// With everything `c` knows fixed, how many bits of the outputs of all parties are free?
    pub fn freedom(&self, c: &[usize]) -> usize {
        let (mut v, mut b) = (Space::default(), Space::default());
        for d in &self.dirs {
            match d.ch {
                Change::Draw(g, ..) if !c.contains(&(g as usize)) => {
                    let mut r = self.row(c, d);
                    v.add(&r);
                    r.extend(pack32(&d.out.concat()));
                    b.add(&r);
                }
                _ => {}
            }
        }
        b.dim() - v.dim()
    }
}

/// All sets of 1 to `t` parties.
pub fn corrupted(n: usize, t: usize) -> Vec<Vec<usize>> {
    (1..=t).flat_map(|k| subsets(n, k)).collect()
}
