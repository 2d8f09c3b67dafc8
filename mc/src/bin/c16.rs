//! C16: circuit files.
use mc::circ::*;
use mc::*;
use scalable_mpc::circuit::{Circuit, Gate};

fn same_gate(g: &Gate, w: &G) -> bool {
    match g {
        Gate::And(i) => w.k == K::And && i.inp == [w.a, w.b] && i.out == w.o,
        Gate::Xor(i) => w.k == K::Xor && i.inp == [w.a, w.b] && i.out == w.o,
        Gate::Inv(i) => w.k == K::Inv && i.inp == [w.a] && i.out == w.o,
    }
}

fn judge(ctx: &Ctx, c: &C, text: &str, all_inputs: bool) -> Result<(), String> {
    let p = scratch().join(format!("c16-{:?}.txt", std::thread::current().id()));
    std::fs::write(&p, text).unwrap();
    let l = Circuit::from_bristol_fashion(&p);
    if l.num_wires() != c.wires() {
        return Err(format!("{} wires instead of {}", l.num_wires(), c.wires()));
    }
    if l.gates().len() != c.gates.len() {
        return Err(format!("{} gates instead of {}", l.gates().len(), c.gates.len()));
    }
    for (i, (g, w)) in l.gates().iter().zip(&c.gates).enumerate() {
        if !same_gate(g, w) {
            return Err(format!("gate {i} is misread"));
        }
    }
    let mut at = 0;
    let want: Vec<Vec<u32>> = c.inputs.iter().map(|k| { at += k; (at - k..at).collect() }).collect();
    if l.inputs() != want {
        return Err(format!("input groups {:?}, expected {want:?}", l.inputs()));
    }
    let mut at = c.wires() - c.outputs.iter().sum::<u32>();
    let want_out: Vec<Vec<u32>> = c.outputs.iter().map(|k| { at += k; (at - k..at).collect() }).collect();
    if l.outputs() != want_out {
        return Err(format!("output groups {:?}, expected {want_out:?}", l.outputs()));
    }
    let n = c.n_in() as usize;
    let vecs: Vec<Vec<bool>> = if all_inputs {
        (0u32..1 << n).map(|x| (0..n).map(|i| x >> i & 1 == 1).collect()).collect()
    } else {
        vec![(0..n).map(|i| i % 2 == 0).collect()]
    };
    for v in vecs {
        let w = c.eval(&v);
        let mut at = 0usize;
        let groups: Vec<Vec<bool>> = c.inputs.iter().map(|k| { at += *k as usize; v[at - *k as usize..at].to_vec() }).collect();
        let got = l.eval(&groups);
        let exp: Vec<Vec<bool>> = want_out.iter().map(|g| g.iter().map(|i| w[*i as usize]).collect()).collect();
        if got != exp {
            return Err(format!("on input {groups:?} gives {got:?}, expected {exp:?}"));
        }
        ctx.count("evaluations", 1);
    }
    Ok(())
}

fn perms(v: &[u32]) -> Vec<Vec<u32>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

fn run(ctx: &Ctx) {
    // All circuits: 1-3 inputs, 1-3 gates, ordered inputs, all groupings of inputs and outputs.
    let mut cs: Vec<(u32, usize)> = vec![];
    for nin in 1..=3 {
        for g in 0..=2 {
            cs.push((nin, g));
        }
    }
    cs.push((1, 3));
    cs.push((4, 1));
    if !ctx.quick() {
        cs.extend([(2, 3), (3, 3), (5, 1), (4, 2)]);
    }
    for (nin, g) in cs {
        let gl = all_gates(nin, g, &ALL, true);
        let ins = compositions(nin);
        ctx.par_cases(&gl, |x| format!("circ:{}", C { inputs: vec![nin], outputs: vec![], gates: x.clone() }.name()), |gates| {
            for i in &ins {
                // Any suffix of the wires may be the outputs, in any grouping.
                for no in 1..=(nin + g as u32).min(4) {
                    for o in compositions(no) {
                        let c = C { inputs: i.clone(), outputs: o, gates: gates.clone() };
                        judge(ctx, &c, &c.text(), true)?;
                        ctx.distinct_add((g > 0) as u64);
                    }
                }
            }
            // Gate outputs numbered in any order.
            if g >= 2 {
                let names: Vec<u32> = (nin..nin + g as u32).collect();
                for p in perms(&names) {
                    let m = |w: u32| if w < nin { w } else { p[(w - nin) as usize] };
                    let gs: Vec<G> = gates.iter().map(|x| G { k: x.k, a: m(x.a), b: m(x.b), o: m(x.o) }).collect();
                    let c = C { inputs: vec![nin], outputs: vec![1, 1], gates: gs };
                    judge(ctx, &c, &c.text(), true)?;
                    ctx.distinct_add(1);
                }
            }
            Ok(())
        });
        ctx.sample(format!("{nin} inputs, {g} gates: {} gate lists, {} input groupings", gl.len(), ins.len()));
    }
    // Layout variants.
    let base = C {
        inputs: vec![2, 1],
        outputs: vec![1, 2],
        gates: vec![G { k: K::And, a: 0, b: 2, o: 3 }, G { k: K::Inv, a: 3, b: 3, o: 4 }, G { k: K::Xor, a: 1, b: 4, o: 5 }],
    };
    let t = base.text();
    let variants: Vec<(&str, String)> = vec![
        ("plain", t.clone()),
        ("trailing-spaces", t.replace('\n', " \n")),
        ("leading-spaces", t.lines().map(|l| format!("  {l}\n")).collect()),
        ("double-spaces", t.replace(' ', "  ")),
        ("tabs", t.replace(' ', "\t")),
        ("crlf", t.replace('\n', "\r\n")),
        ("no-final-newline", t.trim_end().to_string()),
        ("final-blank-lines", format!("{t}\n\n")),
    ];
    for (name, v) in &variants {
        ctx.case(&format!("layout:{name}"), || {
            ctx.distinct(name.as_bytes());
            judge(ctx, &base, v, true)
        });
    }
    // Wide groups: wire numbers of several digits and many groups.
    for (i, o) in [(vec![9u32, 1, 5], vec![3u32, 7]), (vec![64, 64], vec![1, 100, 1]), (vec![1; 30], vec![1; 40]), (vec![128, 128, 1], vec![2, 2, 2, 250])] {
        ctx.case(&format!("wide:{i:?}:{o:?}").replace(' ', ""), || {
            let n: u32 = i.iter().sum();
            let mut gates = vec![];
            for k in 0..300u32 {
                let o = n + k;
                gates.push(match k % 3 {
                    0 => G { k: K::Xor, a: (k * 7) % o, b: (k * 13 + 1) % o, o },
                    1 => G { k: K::And, a: (k * 5 + 2) % o, b: (k * 11 + 3) % o, o },
                    _ => G { k: K::Inv, a: (k * 3) % o, b: (k * 3) % o, o },
                });
            }
            let c = C { inputs: i.clone(), outputs: o.clone(), gates };
            ctx.distinct(c.name().as_bytes());
            judge(ctx, &c, &c.text(), false)
        });
    }
    shipped(ctx);
}

fn bits64(x: u64) -> Vec<bool> {
    (0..64).map(|i| x >> i & 1 == 1).collect()
}

fn shipped(ctx: &Ctx) {
    let mut files: Vec<_> = std::fs::read_dir("/repo/data/circ").map(|d| d.filter_map(|x| x.ok()).map(|x| x.path()).collect::<Vec<_>>()).unwrap_or_default();
    files.sort();
    for f in files {
        let name = f.file_stem().unwrap().to_string_lossy().to_string();
        // Own reading of the file.
        let text = std::fs::read_to_string(&f).unwrap();
        let mut tok = text.split_ascii_whitespace();
        let mut num = |tok: &mut std::str::SplitAsciiWhitespace| tok.next().unwrap().parse::<u32>().unwrap();
        let ng = num(&mut tok);
        let _nw = num(&mut tok);
        let ni = num(&mut tok);
        let inputs: Vec<u32> = (0..ni).map(|_| num(&mut tok)).collect();
        let no = num(&mut tok);
        let outputs: Vec<u32> = (0..no).map(|_| num(&mut tok)).collect();
        let mut gates = vec![];
        for _ in 0..ng {
            let fi = num(&mut tok);
            let _ = num(&mut tok);
            let a = num(&mut tok);
            let b = if fi == 2 { num(&mut tok) } else { a };
            let o = num(&mut tok);
            let k = match tok.next().unwrap() {
                "AND" => K::And,
                "XOR" => K::Xor,
                "INV" => K::Inv,
                x => panic!("gate kind {x}"),
            };
            gates.push(G { k, a, b, o });
        }
        let c = C { inputs, outputs, gates };
        ctx.case(&format!("shipped:{name}:read"), || {
            ctx.distinct(name.as_bytes());
            judge(ctx, &c, &text, false)
        });
        let l = Circuit::from_bristol_fashion(&f);
        let n = c.n_in() as usize;
        // Zero, one, every unit vector (quick: every fifth).
        let step = ctx.pick(if n > 200 { 16 } else { 1 }, 1);
        let mut idx: Vec<usize> = (0..n).step_by(step).collect();
        idx.push(n);
        idx.push(n + 1);
        ctx.par_cases(&idx, |i| format!("shipped:{name}:input{i}"), |&i| {
            let v: Vec<bool> = (0..n).map(|j| j == i || i == n + 1).collect();
            let mut at = 0usize;
            let groups: Vec<Vec<bool>> = c.inputs.iter().map(|k| { at += *k as usize; v[at - *k as usize..at].to_vec() }).collect();
            let got: Vec<bool> = l.eval(&groups).concat();
            let w = c.eval(&v);
            let no: u32 = c.outputs.iter().sum();
            let exp = &w[(c.wires() - no) as usize..];
            ctx.count("evaluations", 1);
            ctx.distinct(format!("{name}{i}").as_bytes());
            if got != exp {
                return Err(format!("{name}: wrong output for unit input {i}"));
            }
            Ok(())
        });
        if name == "sub64" {
            ctx.case("shipped:sub64:subtracts", || {
                let vals = [0u64, 1, 2, 3, 0xff, 0x100, 1 << 31, 1 << 32, u64::MAX, u64::MAX - 1, 0x8000_0000_0000_0000, 0x0123_4567_89ab_cdef];
                for a in vals {
                    for b in vals {
                        let r = l.eval(&[bits64(a), bits64(b)]);
                        ctx.count("evaluations", 1);
                        if r != vec![bits64(a.wrapping_sub(b))] {
                            return Err(format!("{a} - {b} is wrong"));
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

fn main() {
    mc::main(Spec {
        id: "C16",
        level: "exploration",
        rule: "circuit evaluations on enumerated files and inputs; distinct counts the files with at least one gate, layouts and shipped-circuit inputs",
        run,
    })
}
