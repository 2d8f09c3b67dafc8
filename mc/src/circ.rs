//! Circuits of the checks: enumeration, text form and a plain interpreter.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    And,
    Xor,
    Inv,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct G {
    pub k: K,
    pub a: u32,
    pub b: u32, // equal to a for INV
    pub o: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct C {
    pub inputs: Vec<u32>,  // group sizes
    pub outputs: Vec<u32>, // group sizes
    pub gates: Vec<G>,
}

impl C {
    pub fn n_in(&self) -> u32 {
        self.inputs.iter().sum()
    }
    pub fn wires(&self) -> u32 {
        self.n_in() + self.gates.len() as u32
    }
    pub fn text(&self) -> String {
        let mut s = format!("{} {}\n", self.gates.len(), self.wires());
        s += &format!("{} {}\n", self.inputs.len(), join(&self.inputs));
        s += &format!("{} {}\n\n", self.outputs.len(), join(&self.outputs));
        for g in &self.gates {
            s += &match g.k {
                K::And => format!("2 1 {} {} {} AND\n", g.a, g.b, g.o),
                K::Xor => format!("2 1 {} {} {} XOR\n", g.a, g.b, g.o),
                K::Inv => format!("1 1 {} {} INV\n", g.a, g.o),
            };
        }
        s
    }
    pub fn eval(&self, inp: &[bool]) -> Vec<bool> {
        let mut w = vec![false; self.wires() as usize];
        w[..inp.len()].copy_from_slice(inp);
        for g in &self.gates {
            let (a, b) = (w[g.a as usize], w[g.b as usize]);
            w[g.o as usize] = match g.k {
                K::And => a & b,
                K::Xor => a ^ b,
                K::Inv => !a,
            };
        }
        w
    }
    pub fn load(&self, dir: &std::path::Path, tag: &str) -> scalable_mpc::circuit::Circuit {
        let p = dir.join(format!("c-{tag}-{:?}.txt", std::thread::current().id()));
        std::fs::write(&p, self.text()).expect("scratch circuit");
        scalable_mpc::circuit::Circuit::from_bristol_fashion(&p)
    }
    pub fn name(&self) -> String {
        let g: Vec<String> = self
            .gates
            .iter()
            .map(|g| match g.k {
                K::And => format!("{}={}&{}", g.o, g.a, g.b),
                K::Xor => format!("{}={}^{}", g.o, g.a, g.b),
                K::Inv => format!("{}=!{}", g.o, g.a),
            })
            .collect();
        format!("in{:?},out{:?},[{}]", self.inputs, self.outputs, g.join(";")).replace(' ', "")
    }
}

pub fn join(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

/// All ways of writing n as an ordered sum of positive parts.
pub fn compositions(n: u32) -> Vec<Vec<u32>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for first in 1..=n {
        for mut rest in compositions(n - first) {
            rest.insert(0, first);
            v.push(rest);
        }
    }
    v
}

/// All gate lists with `g` gates on `nin` inputs, outputs numbered in order.
pub fn all_gates(nin: u32, g: usize, kinds: &[K], ordered_inputs: bool) -> Vec<Vec<G>> {
    let mut out = vec![];
    fn rec(nin: u32, g: usize, kinds: &[K], oi: bool, cur: &mut Vec<G>, out: &mut Vec<Vec<G>>) {
        if cur.len() == g {
            out.push(cur.clone());
            return;
        }
        let o = nin + cur.len() as u32;
        for &k in kinds {
            for a in 0..o {
                if k == K::Inv {
                    cur.push(G { k, a, b: a, o });
                    rec(nin, g, kinds, oi, cur, out);
                    cur.pop();
                } else {
                    for b in if oi { 0 } else { a }..o {
                        cur.push(G { k, a, b, o });
                        rec(nin, g, kinds, oi, cur, out);
                        cur.pop();
                    }
                }
            }
        }
    }
    rec(nin, g, kinds, ordered_inputs, &mut vec![], &mut out);
    out
}

pub const ALL: [K; 3] = [K::And, K::Xor, K::Inv];
