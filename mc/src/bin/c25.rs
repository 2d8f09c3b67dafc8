//! C25: public matrices.
use mc::circ::*;
use mc::garb::*;
use mc::proto::*;
use mc::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
struct Item {
    p: Par,
    c: C,
    name: String,
}

fn check<const W: u8>(ctx: &Ctx, it: &Item, dir: &std::path::Path) -> Result<(), String> {
    let inst = Inst::<W>::new(it.p, &it.c, dir);
    let enc = inst.code();
    let public = inst.identify(|o| ctx.count("task_steps", o.steps))?;
    ctx.count("evaluations", public.runs);
    // Uses by wire pair.
    let mut uses: HashMap<Vec<u32>, HashMap<Vec<u32>, (usize, usize, usize)>> = HashMap::new();
    for (g, b) in inst.gates.iter().enumerate() {
        for s in 0..b.out.len() {
            let mut pair: Vec<u32> = b.inp.iter().map(|v| v[s]).collect();
            pair.sort_unstable();
            for r in 0..b.rows() {
                let m: Option<Vec<u32>> = public.mats[g][r][s].iter().flatten().copied().collect();
                // Both operands are the same label: the row's key is zero and shows no matrix.
                let Some(m) = m else { continue };
                ctx.count("matrices", 1);
                if m.iter().all(|x| *x == 0) {
                    return Err(format!("gate block {g} slot {s} row {r}: the matrix is zero"));
                }
                if let Some((g2, s2, r2)) = uses.entry(pair.clone()).or_default().insert(m, (g, s, r)) {
                    return Err(format!(
                        "wires {pair:?}: row {r2} of gate block {g2} slot {s2} and row {r} of gate block {g} slot {s} use the same public matrix"
                    ));
                }
            }
        }
    }
    // The same matrices for other keys, masks, sharings and a context built anew.
    let again = Inst::<W>::new(it.p, &it.c, dir);
    for k in 0..2u64 {
        let m = again.filled((0..inst.wires).map(|i| (i as u64 + k) % 2 == 1).collect(), 50 + k);
        let (o, t) = again.tables(&m, 60 + k);
        ctx.count("task_steps", o.steps);
        ctx.count("evaluations", 1);
        again.explain(&public, &enc, &m, &t?).map_err(|e| format!("with other keys the matrices identified before do not explain the tables: {e}"))?;
    }
    ctx.distinct(it.name.as_bytes());
    Ok(())
}

fn run(ctx: &Ctx) {
    let dir = scratch();
    let q = ctx.quick();
    let p1 = Par::new(3, 1, 1).lpn(1, 6);
    let p2 = Par::new(5, 1, 2).lpn(1, 6);
    let p3 = Par::new(7, 1, 3).lpn(1, 6);
    let p2k = Par::new(5, 1, 2).lpn(2, 4);
    let mut v: Vec<Item> = vec![];
    let mut add = |p: Par, nin: u32, g: Vec<G>| {
        let c = C { inputs: vec![nin], outputs: vec![1], gates: g };
        let name = if c.gates.len() > 12 { format!("{},{}x{:?}...", p.name(), c.gates.len(), c.gates[0]) } else { format!("{},{}", p.name(), c.name()) };
        v.push(Item { p, c, name: name.replace(' ', "") });
    };
    // All small circuits.
    for p in [p1, p2, p3, p2k] {
        for g in all_gates(2, 2, &ALL, true) {
            add(p, 2, g);
        }
    }
    for p in if q { vec![] } else { vec![p1, p2, p3] } {
        for g in all_gates(2, 3, &ALL, true) {
            add(p, 2, g);
        }
    }
    // All multisets of gates on two wires: every way of using one pair again.
    let mut kinds: Vec<(K, u32, u32)> = vec![];
    for k in [K::And, K::Xor] {
        for (a, b) in [(0, 1), (1, 0), (0, 0), (1, 1)] {
            kinds.push((k, a, b));
        }
    }
    kinds.push((K::Inv, 0, 0));
    kinds.push((K::Inv, 1, 1));
    fn multisets(n: usize, k: usize) -> Vec<Vec<usize>> {
        if k == 0 {
            return vec![vec![]];
        }
        let mut v = vec![];
        for m in multisets(n, k - 1) {
            for i in m.last().copied().unwrap_or(0)..n {
                let mut x = m.clone();
                x.push(i);
                v.push(x);
            }
        }
        v
    }
    for len in 3..=ctx.pick(4, 6) {
        for p in [p1, p2, p3] {
            for m in multisets(kinds.len(), len) {
                let g = m.iter().enumerate().map(|(i, k)| G { k: kinds[*k].0, a: kinds[*k].1, b: kinds[*k].2, o: 2 + i as u32 }).collect();
                add(p, 2, g);
            }
        }
    }
    // Three wires, two-input gates of one kind: counters of different wires meet.
    for p in [p1, p2] {
        for len in 3..=ctx.pick(3, 4) {
            let pairs: Vec<(u32, u32)> = (0..3).flat_map(|a| (0..3).filter(move |b| *b != a).map(move |b| (a, b))).collect();
            let mut idx = vec![0usize; len];
            'all: loop {
                let g = idx.iter().enumerate().map(|(i, k)| G { k: K::And, a: pairs[*k].0, b: pairs[*k].1, o: 3 + i as u32 }).collect();
                add(p, 3, g);
                for d in 0..len {
                    idx[d] += 1;
                    if idx[d] < pairs.len() {
                        continue 'all;
                    }
                    idx[d] = 0;
                }
                break;
            }
        }
    }
    // High fan-out: one pair, one wire with many partners, both orders.
    for (p, num) in [(p1, 20u32), (p2, 20), (p3, 20), (p1, 300), (p2, 600), (p3, 900)] {
        for k in ALL {
            add(p, 2, (0..num).map(|i| G { k, a: i % 2 * (k != K::Inv) as u32, b: if k == K::Inv { 0 } else { 1 - i % 2 }, o: 2 + i }).collect());
            add(p, 2, (0..num).map(|i| G { k, a: 0, b: if k == K::Inv { 0 } else { 1 }, o: 2 + i }).collect());
        }
    }
    for p in [p1, p2, p3] {
        // one wire against its own results
        add(p, 2, (0..8u32).map(|i| G { k: K::And, a: 0, b: i + 1, o: 2 + i }).collect());
    }
    ctx.note("circuits", v.len().to_string());
    ctx.par_cases(&v, |i| i.name.clone(), |it| if it.c.gates.len() > 100 { check::<18>(ctx, it, &dir) } else { check::<8>(ctx, it, &dir) });
    ctx.sample(v[0].name.clone());
    ctx.assume("two different matrices of the enumerated sizes coincide by chance with probability below 2^-40");
}

fn main() {
    mc::main(Spec {
        id: "C25",
        level: "exploration",
        rule: "one (parameters, circuit) pair: all its matrices identified from garblings that differ in one key symbol, compared within each wire pair, and used to explain garblings with other keys",
        run,
    })
}
