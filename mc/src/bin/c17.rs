//! C17: packing.
use mc::circ::*;
use mc::*;
use scalable_mpc::circuit::{Circuit, Gate, PackedCircuit, PackedGate};

fn flat(p: &PackedCircuit) -> Vec<(K, Vec<(u32, u32, u32)>)> {
    p.gates()
        .iter()
        .map(|g| match g {
            PackedGate::And(i) => (K::And, zip2(&i.inp[0], &i.inp[1], &i.out)),
            PackedGate::Xor(i) => (K::Xor, zip2(&i.inp[0], &i.inp[1], &i.out)),
            PackedGate::Inv(i) => (K::Inv, zip2(&i.inp[0], &i.inp[0], &i.out)),
        })
        .collect()
}

fn zip2(a: &[u32], b: &[u32], o: &[u32]) -> Vec<(u32, u32, u32)> {
    if a.len() != o.len() || b.len() != o.len() {
        return vec![(u32::MAX, u32::MAX, u32::MAX)]; // reported as a gate that does not exist
    }
    (0..o.len()).map(|i| (a[i].min(b[i]), a[i].max(b[i]), o[i])).collect()
}

fn judge(c: &Circuit, l: u32) -> Result<(), String> {
    let p = c.clone().pack(l);
    let q = c.clone().pack(l);
    let blocks = flat(&p);
    if blocks != flat(&q) || p.inputs() != q.inputs() || p.outputs() != q.outputs() {
        return Err(format!("packing by {l} twice gives different results"));
    }
    let mut want: Vec<(K, (u32, u32, u32))> = c
        .gates()
        .iter()
        .map(|g| match g {
            Gate::And(i) => (K::And, (i.inp[0].min(i.inp[1]), i.inp[0].max(i.inp[1]), i.out)),
            Gate::Xor(i) => (K::Xor, (i.inp[0].min(i.inp[1]), i.inp[0].max(i.inp[1]), i.out)),
            Gate::Inv(i) => (K::Inv, (i.inp[0], i.inp[0], i.out)),
        })
        .collect();
    let mut got: Vec<(K, (u32, u32, u32))> = blocks.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
    want.sort();
    got.sort();
    if want != got {
        return Err(format!("packing by {l}: gates {got:?}, expected {want:?}"));
    }
    let mut counts = (0usize, 0usize, 0usize);
    for (k, v) in &blocks {
        if v.is_empty() || v.len() > l as usize {
            return Err(format!("packing by {l}: a block of {} gates", v.len()));
        }
        match k {
            K::And => counts.0 += 1,
            K::Xor => counts.1 += 1,
            K::Inv => counts.2 += 1,
        }
    }
    if p.get_gate_counts() != counts {
        return Err(format!("packing by {l}: reports block counts {:?}, has {counts:?}", p.get_gate_counts()));
    }
    let num = |k: K| want.iter().filter(|x| x.0 == k).count();
    let cl = |x: usize| (x + l as usize - 1) / l as usize;
    if counts != (cl(num(K::And)), cl(num(K::Xor)), cl(num(K::Inv))) {
        return Err(format!("packing by {l}: {counts:?} blocks for {}, {}, {} gates", num(K::And), num(K::Xor), num(K::Inv)));
    }
    for (what, a, b) in [("input", p.inputs(), c.inputs()), ("output", p.outputs(), c.outputs())] {
        let f: Vec<u32> = a.concat();
        let w: Vec<u32> = b.concat();
        if f != w {
            return Err(format!("packing by {l}: {what} wires {f:?}, expected {w:?}"));
        }
        if a.len() != cl(w.len()) || a.iter().any(|x| x.is_empty() || x.len() > l as usize) {
            return Err(format!("packing by {l}: {what} blocks {a:?}"));
        }
    }
    if p.num_wires() != c.num_wires() || p.gates_per_block() != l {
        return Err(format!("packing by {l}: wire count or packing parameter changes"));
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let mut cs: Vec<(u32, usize, Vec<K>)> = vec![];
    for nin in 1..=2u32 {
        for g in 0..=3usize {
            cs.push((nin, g, ALL.to_vec()));
        }
    }
    cs.push((3, 2, ALL.to_vec()));
    cs.push((1, 4, vec![K::And, K::Inv]));
    if !ctx.quick() {
        cs.push((1, 4, ALL.to_vec()));
        cs.push((2, 4, vec![K::Xor, K::Inv]));
        cs.push((1, 5, vec![K::And]));
        cs.push((3, 3, ALL.to_vec()));
    }
    for (nin, g, kinds) in cs {
        let gl = all_gates(nin, g, &kinds, true);
        ctx.par_cases(&gl, |x| format!("circ:{}", C { inputs: vec![nin], outputs: vec![], gates: x.clone() }.name()), |gates| {
            for (inputs, outputs) in [(vec![nin], vec![1]), (vec![1; nin as usize], vec![1; (nin + g as u32).min(3) as usize])] {
                let c = C { inputs, outputs, gates: gates.clone() }.load(&scratch(), "c17");
                for l in 1..=g as u32 + 2 {
                    judge(&c, l)?;
                    ctx.count("evaluations", 1);
                    ctx.distinct_add((g > 1) as u64);
                }
            }
            Ok(())
        });
        ctx.sample(format!("{nin} inputs, {g} gates: {} gate lists, packing 1..={}", gl.len(), g + 2));
    }
    // Group shapes: many inputs and outputs.
    let shapes: Vec<(u32, u32, usize)> = (1..=7).flat_map(|a| (1..=7).flat_map(move |b| (7..=9).map(move |g| (a, b, g)))).collect();
    ctx.par_cases(&shapes, |s| format!("shape:{s:?}").replace(' ', ""), |&(a, b, g)| {
        let mut gates = vec![];
        let n = a + b;
        for k in 0..g as u32 {
            let o = n + k;
            gates.push(G { k: ALL[(k % 3) as usize], a: (k * 5) % o, b: if k % 3 == 2 { (k * 5) % o } else { (k * 3 + 1) % o }, o });
        }
        let c = C { inputs: vec![a, b], outputs: vec![b, 1], gates }.load(&scratch(), "c17s");
        for l in 1..=16 {
            judge(&c, l)?;
            ctx.count("evaluations", 1);
            ctx.distinct_add(1);
        }
        Ok(())
    });
    let mut files: Vec<_> = std::fs::read_dir("/repo/data/circ").map(|d| d.filter_map(|x| x.ok()).map(|x| x.path()).collect::<Vec<_>>()).unwrap_or_default();
    files.sort();
    for f in files {
        let name = f.file_stem().unwrap().to_string_lossy().to_string();
        let c = Circuit::from_bristol_fashion(&f);
        let ls: Vec<u32> = ctx.pick(vec![1, 2, 3, 7, 64, 100], (1..=40).chain([63, 64, 65, 127, 128, 129, 1000, 200000]).collect());
        ctx.par_cases(&ls, |l| format!("shipped:{name}:{l}"), |&l| {
            ctx.count("evaluations", 1);
            ctx.distinct_add(1);
            judge(&c, l)
        });
    }
}

fn main() {
    mc::main(Spec {
        id: "C17",
        level: "exploration",
        rule: "(circuit, packing parameter) pairs; distinct counts those with more than one gate",
        run,
    })
}
