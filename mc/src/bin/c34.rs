//! C34: published communication estimates against what the implementation sends.
use mc::circ::*;
use mc::garb::Inst;
use mc::proto::*;
use mc::*;
use mcrt::Cfg;
use scalable_mpc::math::{galois::GF, super_inv_matrix};
use scalable_mpc::protocol::garble::garble;
use scalable_mpc::protocol::preproc::{preproc, RandBitContext, RandContext, ZeroContext};
use std::collections::BTreeMap;
use std::sync::Arc;

/// Circuit of full blocks: `i` blocks of inputs, then `a` of AND and `x` of XOR gates on the inputs.
fn circuit(l: u32, i: u32, a: u32, x: u32) -> C {
    let nin = i * l;
    let gates = (0..(a + x) * l)
        .map(|j| {
            let k = if j < a * l { K::And } else { K::Xor };
            G { k, a: j % nin, b: (j + 1) % nin, o: nin + j }
        })
        .collect();
    C { inputs: vec![nin], outputs: vec![1], gates }
}

/// Bytes that all parties together receive in the preprocessing of a circuit.
fn sent<const W: u8>(p: Par, dim: usize, c: &C, dir: &std::path::Path) -> Result<u64, String> {
    let inst = Inst::<W>::new(p, c, dir);
    let m = Arc::new(super_inv_matrix::<W>(p.n, p.n - p.t));
    let b = pre::matrix::<W>(&vec![vec![1; p.n]; dim]);
    let run = parties(Cfg::default(), Net::Local, p.n, |i, net, stats| {
        let c = inst.ctxs[i].clone();
        let (r, z, b) = (RandContext::new(m.clone(), &c), ZeroContext::new(m.clone(), &c), RandBitContext::new(b.clone(), &c));
        let k = inst.counts;
        async move {
            preproc(vec![], k, c, r, z, b, net).await;
            stats.total().await.0 as u64
        }
    });
    finished(&run.out)?;
    let v: Option<Vec<u64>> = run.vals.iter().cloned().collect();
    Ok(v.ok_or("no statistics")?.iter().sum())
}

/// The same for garbling.
fn garbled<const W: u8>(p: Par, c: &C, dir: &std::path::Path) -> Result<u64, String> {
    let inst = Inst::<W>::new(p, c, dir);
    let pre = inst.deal(&inst.filled(vec![true; inst.wires], 3), 4);
    let run = parties(Cfg::default(), Net::Local, p.n, |i, net, stats| {
        let g = inst.gctx[i].clone();
        let m = pre[i].clone();
        async move {
            garble(vec![], m, g, net).await;
            stats.total().await.0 as u64
        }
    });
    finished(&run.out)?;
    let v: Option<Vec<u64>> = run.vals.iter().cloned().collect();
    Ok(v.ok_or("no statistics")?.iter().sum())
}

#[derive(Clone, Debug)]
struct Item {
    p: Par,
    dim: usize,
    i: u32,
    a: u32,
    x: u32,
}

impl Item {
    fn name(&self) -> String {
        format!("{}:d{}:i{}a{}x{}", self.p.name(), self.dim, self.i, self.a, self.x)
    }
    fn args(&self) -> String {
        let (p, l) = (self.p, self.p.l as u32);
        format!(
            "-n {} -t {} -l {} --binsup-dim {} --lpn-key-len {} --lpn-ctx-len {} {} {} {}",
            p.n, p.t, p.l, self.dim, p.k, p.q, self.i * l, self.a * l, self.x * l
        )
    }
}

/// Bytes per party as printed: one map per phase.
fn printed(a: &pyscript::Answer) -> Result<[BTreeMap<String, u64>; 2], String> {
    if a.exit != Some(0) {
        return Err(format!("the estimate fails: {}", a.last()));
    }
    let mut v = [BTreeMap::new(), BTreeMap::new()];
    let mut phase = None;
    for l in &a.lines {
        if l.starts_with("---") {
            phase = Some(l.to_lowercase().contains("preproc") as usize);
        } else if let (Some(i), Some((name, val))) = (phase, l.split_once(": ")) {
            let mut w = val.split(' ');
            let x: f64 = w.next().and_then(|x| x.parse().ok()).ok_or(format!("printed line {l:?}"))?;
            let u = match w.next() {
                Some("B") => 1.0,
                Some("KB") => 1e3,
                _ => return Err(format!("printed line {l:?}")),
            };
            // Below a megabyte the print is exact, and a party's share of the cost a whole number.
            if (x * u - (x * u).round()).abs() > 1e-3 {
                return Err(format!("printed line {l:?}"));
            }
            v[i].insert(name.to_string(), (x * u).round() as u64);
        }
    }
    for m in &v {
        let t = m.get("Total").ok_or("no total printed")?;
        let s: u64 = m.iter().filter(|(k, _)| *k != "Total").map(|(_, x)| x).sum();
        if s != *t {
            return Err(format!("printed total {t}, the lines sum to {s}"));
        }
    }
    Ok(v)
}

fn line(m: &BTreeMap<String, u64>, k: &str) -> Result<u64, String> {
    m.get(k).copied().ok_or(format!("no line {k:?} printed"))
}

fn family<const W: u8>(ctx: &Ctx, base: Par, dir: &std::path::Path) {
    GF::<W>::init().unwrap();
    let l = base.l as u32;
    let mut v = vec![];
    for (k, q) in [(1usize, 2usize), (1, 3), (2, 3), (3, 5)].into_iter().take(ctx.pick(3, 4)) {
        for i in 1..=ctx.pick(3u32, 4) {
            for a in 0..=ctx.pick(3u32, 5) {
                for x in 0..=ctx.pick(3u32, 5) {
                    if a + x >= 2 && (i + a + x) % l == 0 && 2 * (a + x) % l == 0 && i * l >= 2 {
                        v.push(Item { p: base.lpn(k, q), dim: 1 + (i + a + x) as usize % 3, i, a, x });
                    }
                }
            }
        }
    }
    let macs = [1u64, 2, 3];
    let mut args: Vec<String> = v.iter().map(|x| format!("--field-bits {W} --semi-honest {}", x.args())).collect();
    for m in macs {
        args.extend(v.iter().map(|x| format!("--field-bits {W} --lenmac {m} {}", x.args())));
    }
    let ans = pyscript::run("communication_estimates.py", &args);
    if let (Some(x), Some(a)) = (v.last(), ans.get(v.len() - 1)) {
        ctx.sample(format!("width {W}, {}: {}", x.name(), a.last()));
    }
    let n = base.n as u64;
    // What the messages add to their contents (lengths) must be the same for both.
    let same = |what: &str, i: usize, j: usize, f: &dyn Fn(&Item) -> Result<u64, String>| -> Result<(), String> {
        let phase = (what == "preprocessing") as usize;
        let extra = |i: usize| -> Result<i64, String> {
            let est = n * line(&printed(&ans[i])?[phase], "Total")?;
            let real = f(&v[i])?;
            if real < est {
                return Err(format!("{what} of {}: {real} bytes are sent, {est} estimated", v[i].name()));
            }
            Ok((real - est) as i64)
        };
        let (d, e) = (extra(i)?, extra(j)?);
        ctx.count("evaluations", 1);
        if d != e {
            return Err(format!("{what}: {} takes {d} bytes more than estimated, {} takes {e}", v[i].name(), v[j].name()));
        }
        ctx.distinct(format!("{W} {what} {}", v[i].name()).as_bytes());
        Ok(())
    };
    let circ = |x: &Item| circuit(l, x.i, x.a, x.x);
    let idx: Vec<usize> = (0..v.len()).collect();
    ctx.par_cases(&idx, |i| format!("preprocessing:{W}:{}", v[*i].name()), |&i| same("preprocessing", i, 0, &|x| sent::<W>(x.p, x.dim, &circ(x), dir)));
    ctx.par_cases(&idx, |i| format!("garbling:{W}:{}", v[*i].name()), |&i| {
        let j = v.iter().position(|y| (y.i, y.a, y.x) == (v[i].i, v[i].a, v[i].x)).unwrap();
        same("garbling", i, j, &|x| garbled::<W>(x.p, &circ(x), dir))
    });
    ctx.par_cases(&idx, |i| format!("authenticated:{W}:{}", v[*i].name()), |&i| {
        let x = &v[i];
        let e = printed(&ans[i])?;
        for (j, m) in macs.iter().enumerate() {
            let f = printed(&ans[(j + 1) * v.len() + i])?;
            for s in ["Transform masks and labels", "Compute plaintexts"] {
                if line(&f[0], s)? != (m + 1) * line(&e[0], s)? {
                    return Err(format!("{}: {s} with {m} tags costs {}, without {}", x.name(), line(&f[0], s)?, line(&e[0], s)?));
                }
            }
            // One product per ciphertext element; errors take two products per element.
            let (c, g) = (line(&f[0], "Compute ciphertexts")?, line(&e[1], "Generate errors")?);
            if 2 * c != (m + 1) * g {
                return Err(format!("{}: ciphertexts with {m} tags cost {c}, errors without {g}", x.name()));
            }
            ctx.count("evaluations", 1);
        }
        Ok(())
    });
}

/// A printed amount in bytes and the last digit of the print.
fn amount(s: &str) -> Option<(f64, f64)> {
    let (x, u) = s.split_once(' ')?;
    let k = ["B", "KB", "MB", "GB", "TB", "PB", "EB"].iter().position(|y| *y == u)? as i32;
    let unit = 1000f64.powi(k);
    let digits = x.split_once('.').map_or(0, |(_, d)| d.len()) as i32;
    Some((x.parse::<f64>().ok()? * unit, unit / 10f64.powi(digits)))
}

/// Choosing plaintexts costs the same for every block, however large the amounts printed.
fn units(ctx: &Ctx) {
    let mut ks: Vec<u64> = vec![];
    for e in 0..ctx.pick(11u32, 13) {
        ks.extend([1u64, 3, 9].map(|m| m * 10u64.pow(e)));
        ks.extend([10u64.pow(e) - 1, 10u64.pow(e) + 1].into_iter().filter(|k| *k > 1));
    }
    let args: Vec<String> = ks.iter().map(|k| format!("--semi-honest -n 5 -t 1 -l 2 --binsup-dim 1 2 {} 0", 2 * k)).collect();
    let ans = pyscript::run("communication_estimates.py", &args);
    let of = |i: usize| -> Result<(f64, f64), String> {
        let a: &pyscript::Answer = &ans[i];
        let l = a.lines.iter().find_map(|l| l.strip_prefix("Compute plaintexts: ")).ok_or(format!("{}: {}", args[i], a.last()))?;
        amount(l).ok_or(format!("{}: printed amount {l:?}", args[i]))
    };
    let idx: Vec<usize> = (0..ks.len()).collect();
    ctx.par_cases(&idx, |i| format!("units:{}", ks[*i]), |&i| {
        let (one, _) = of(0)?;
        let (x, digit) = of(i)?;
        let want = one * ks[i] as f64;
        ctx.count("evaluations", 1);
        ctx.distinct(format!("units {}", ks[i]).as_bytes());
        if (x - want).abs() > digit * 0.51 {
            return Err(format!("{} blocks cost {x} bytes, one costs {one}", ks[i]));
        }
        Ok(())
    });
}

/// Where no dimension is given, the estimate is that for a shipped matrix of enough corruptions.
fn shipped(ctx: &Ctx) {
    let mut files = vec![];
    for f in std::fs::read_dir("/repo/data/binsup_mat").into_iter().flatten().flatten() {
        let name = f.path().file_stem().unwrap().to_string_lossy().to_string();
        let Some((n, t)) = name.strip_prefix('n').and_then(|s| s.split_once("_t")).and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?))) else { continue };
        let dim = std::fs::read_to_string(f.path()).unwrap().lines().next().unwrap_or("").split_ascii_whitespace().count();
        files.push((n, t, dim));
    }
    let mut ns: Vec<usize> = files.iter().map(|f| f.0).collect();
    ns.sort();
    ns.dedup();
    let cs: Vec<(usize, usize)> = ns.iter().flat_map(|&n| (1..=n / 3).map(move |t| (n, t))).collect();
    let plain = |(n, t): (usize, usize), d: String| format!("--semi-honest -n {n} -t {t} -l 2 {d} --lpn-key-len 2 --lpn-ctx-len 5 800 1600 2400");
    let ans = pyscript::run("communication_estimates.py", &cs.iter().map(|c| plain(*c, String::new())).collect::<Vec<_>>());
    let best = |(n, t): (usize, usize)| files.iter().filter(|f| f.0 == n && f.1 >= t).map(|f| f.2).max();
    let with = pyscript::run("communication_estimates.py", &cs.iter().map(|c| plain(*c, format!("--binsup-dim {}", best(*c).unwrap_or(1)))).collect::<Vec<_>>());
    let idx: Vec<usize> = (0..cs.len()).collect();
    ctx.par_cases(&idx, |i| format!("shipped:{}:{}", cs[*i].0, cs[*i].1), |&i| {
        ctx.count("evaluations", 1);
        if ans[i].exit != Some(0) {
            return Ok(()); // No default for these parameters.
        }
        let (n, t) = cs[i];
        if best(cs[i]).is_none() || ans[i].lines != with[i].lines {
            return Err(format!("{n} parties, {t} corruptions: the estimate is not that of a shipped matrix"));
        }
        ctx.distinct(format!("shipped {n} {t}").as_bytes());
        Ok(())
    });
}

fn run(ctx: &Ctx) {
    let dir = scratch();
    for base in [Par::new(3, 1, 1), Par::new(4, 1, 1), Par::new(5, 1, 2), Par::new(5, 2, 1), Par::new(7, 1, 3), Par::new(7, 2, 2), Par::new(9, 2, 3)] {
        family::<18>(ctx, base, &dir);
    }
    for base in [Par::new(3, 1, 1), Par::new(5, 1, 2)] {
        family::<5>(ctx, base, &dir);
        family::<8>(ctx, base, &dir);
        family::<9>(ctx, base, &dir);
        family::<16>(ctx, base, &dir);
    }
    units(ctx);
    shipped(ctx);
    ctx.assume("the length in front of a message is not part of the estimate; it depends on the number of messages, which depends on the circuit only");
}

fn main() {
    mc::main(Spec {
        id: "C34",
        level: "exploration",
        rule: "one (parameters, circuit) pair whose gates fill whole blocks: estimate printed and preprocessing or garbling run; a printed amount; a default dimension; each once",
        run,
    })
}
