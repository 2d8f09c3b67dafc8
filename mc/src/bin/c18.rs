//! C18: announced preprocessing.
use mc::circ::*;
use mc::garb::*;
use mc::proto::*;
use mc::*;
use mcrt::{Cfg, RngMode};
use scalable_mpc::math::galois::GF;
use scalable_mpc::protocol::preproc::PreProc;

mod size_report {
    include!(concat!(env!("OUT_DIR"), "/preproc_size_alone.rs"));
}

#[derive(Clone, Debug)]
struct Item {
    p: Par,
    c: C,
    /// also garble with one sharing less of each kind
    less: bool,
}

fn one(nin: u32, g: Vec<G>) -> C {
    C { inputs: vec![nin], outputs: vec![1], gates: g }
}

fn chain(k: K, ng: u32) -> C {
    one(2, (0..ng).map(|i| G { k, a: i + 1, b: if k == K::Inv { i + 1 } else { i }, o: i + 2 }).collect())
}

fn attempt<const W: u8>(ctx: &Ctx, inst: &Inst<W>, pre: Vec<PreProc<W>>, seed: u64) -> Result<(), String> {
    let pol = policies(inst.p.n);
    let policy = pol[seed as usize % pol.len()].1.clone();
    let (o, r) = inst.run(Cfg { rng: RngMode::Stream(seed), policy, ..Cfg::default() }, Net::Local, pre);
    ctx.count("evaluations", 1);
    ctx.count("task_steps", o.steps);
    r.map(|_| ())
}

fn check<const W: u8>(ctx: &Ctx, it: &Item, dir: &std::path::Path) -> Result<(), String> {
    check_packed::<W>(ctx, it, &|| it.c.load(dir, &it.p.name()))
}

fn check_packed<const W: u8>(ctx: &Ctx, it: &Item, load: &dyn Fn() -> scalable_mpc::circuit::Circuit) -> Result<(), String> {
    GF::<W>::init().unwrap();
    let inst = Inst::<W>::of_packed(it.p, Rf::of::<W>(), load().pack(it.p.l as u32));
    let k = inst.counts;
    let blocks = inst.wire_blocks().len();
    // Sizes that the circuit itself dictates.
    if k.masks != blocks || k.keys != (2, it.p.k, blocks) {
        return Err(format!("{} blocks of wires, but {} masks and {:?} keys are announced", blocks, k.masks, k.keys));
    }
    // Every party announces the same.
    let packed = load().pack(it.p.l as u32);
    for c in &inst.ctxs {
        let d = PreProc::<W>::describe(&packed, c);
        if (d.masks, d.keys, d.randoms, d.zeros, d.errors) != (k.masks, k.keys, k.randoms, k.zeros, k.errors) {
            return Err("parties announce different numbers".into());
        }
    }
    let m = inst.filled((0..inst.wires).map(|i| i % 2 == 1).collect(), 3);
    let pre = inst.deal(&m, 4);
    attempt(ctx, &inst, pre.clone(), 1).map_err(|e| format!("garbling with the announced numbers {:?}: {e}", (k.masks, k.keys, k.randoms, k.zeros, k.errors)))?;
    ctx.count("complete_garblings", 1);
    if it.less {
        let kinds: [(&str, usize, fn(&mut PreProc<W>)); 5] = [
            ("masks", k.masks, |p| p.masks = p.masks.slice(ndarray::s![..-1]).to_owned()),
            ("keys", blocks, |p| p.keys = p.keys.slice(ndarray::s![.., .., ..-1]).to_owned()),
            ("masking sharings", k.randoms, |p| {
                p.randoms.pop_back();
            }),
            ("zero sharings", k.zeros, |p| {
                p.zeros.pop_back();
            }),
            ("errors", k.errors, |p| {
                p.errors.pop_back();
            }),
        ];
        for (i, (name, num, cut)) in kinds.iter().enumerate() {
            if *num == 0 {
                continue;
            }
            let mut q = pre.clone();
            q.iter_mut().for_each(|p| cut(p));
            let r = guarded(|| attempt(ctx, &inst, q, i as u64));
            match r {
                Ok(Ok(())) => return Err(format!("garbling completes with one less than the announced number of {name} ({num})")),
                Ok(Err(_)) | Err(Fail::Code(_)) => ctx.count("refused_garblings", 1),
                Err(Fail::Harness(e)) => panic!("{e}"),
            }
        }
    }
    ctx.distinct(format!("{it:?}").as_bytes());
    Ok(())
}

/// Numbers of random, zero and bit sharings that preprocessing makes for this material.  A matrix
/// with a single row makes one sharing out of each dealt one, a matrix with very many rows makes all
/// of them out of a single one: the difference in traffic tells how many sharings are made.
fn generated(inst: &Inst<18>) -> Result<Vec<usize>, String> {
    use scalable_mpc::protocol::preproc::{preproc, RandBitContext, RandContext, ZeroContext};
    let (p, k) = (inst.p, inst.counts);
    let rows = 10 * (k.masks + k.keys.0 * k.keys.1 * k.keys.2 + k.randoms + k.zeros + k.errors + 1);
    let few = pre::matrix::<18>(&[vec![1; p.n]]);
    let many = pre::matrix::<18>(&vec![vec![1; p.n]; rows]);
    let bytes = |single: [bool; 3]| -> Result<usize, String> {
        let pick = |i: usize| if single[i] { few.clone() } else { many.clone() };
        let run = parties(Cfg::default(), Net::Local, p.n, |i, net, stats| {
            let c = inst.ctxs[i].clone();
            let (r, z, b) = (RandContext::new(pick(0), &c), ZeroContext::new(pick(1), &c), RandBitContext::new(pick(2), &c));
            async move {
                preproc(vec![], k, c, r, z, b, net).await;
                stats.total().await.0 as usize
            }
        });
        finished(&run.out)?;
        Ok(run.vals[0].unwrap())
    };
    let base = bytes([false; 3])?;
    let mut v = vec![];
    for i in 0..3 {
        let mut single = [false; 3];
        single[i] = true;
        v.push((bytes(single)? - base) / (p.n * GF::<18>::NUM_BYTES) + 1);
    }
    Ok(v)
}

/// The report as the program prints it, in a process of its own.
fn report(ctx: &Ctx, p: Par, c: &C, dir: &std::path::Path) -> Result<(), String> {
    let inst = Inst::<18>::new(p, c, dir);
    let file = dir.join(format!("report-{:?}.txt", std::thread::current().id()));
    std::fs::write(&file, c.text()).expect("scratch circuit");
    let args: Vec<String> = [
        ("--circ", file.display().to_string()),
        ("--num-parties", p.n.to_string()),
        ("--threshold", p.t.to_string()),
        ("--packing-param", p.l.to_string()),
        ("--lpn-key-len", p.k.to_string()),
        ("--lpn-mssg-len", p.q.to_string()),
    ]
    .into_iter()
    .flat_map(|(a, b)| [a.to_string(), b])
    .collect();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env("C18_REPORT", args.join("\n")).output().expect("report process");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if !out.status.success() {
        return Err(format!("size report for {} ends with {:?}: {}", p.name(), out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let k = inst.counts;
    let m = inst.filled(vec![true; inst.wires], 3);
    let sizes: Vec<usize> = inst.deal(&m, 4).iter().map(|x| bincode::serialize(x).unwrap().len()).collect();
    let mut want = vec![k.masks, 2 * p.k * inst.wire_blocks().len(), k.randoms, k.zeros, k.errors, sizes[0]];
    want.extend(generated(&inst)?);
    let got: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).take(want.len()).collect();
    ctx.count("size_reports", 1);
    ctx.count("evaluations", 1);
    if sizes.iter().any(|s| *s != sizes[0]) || got != want {
        return Err(format!("size report for {} {}: prints {got:?}, the material has {want:?} (sharings of each kind, bytes; random, zero and bit sharings made for it)", p.name(), c.name()));
    }
    ctx.distinct(format!("report {p:?} {c:?}").as_bytes());
    Ok(())
}

fn run(ctx: &Ctx) {
    let dir = scratch();
    let q = ctx.quick();
    let mut v = vec![];
    let ps = [
        Par::new(3, 1, 1).lpn(1, 3),
        Par::new(4, 1, 1).lpn(2, 3),
        Par::new(5, 1, 2).lpn(2, 3),
        Par::new(5, 2, 1).lpn(1, 2),
        Par::new(6, 1, 2).lpn(3, 4),
        Par::new(7, 1, 3).lpn(1, 2),
        Par::new(7, 2, 2).lpn(2, 5),
        Par::new(9, 2, 3).lpn(1, 2),
    ];
    for p in ps {
        for g in all_gates(2, 1, &ALL, true) {
            v.push(Item { p, c: one(2, g), less: true });
        }
        for g in all_gates(2, 2, &ALL, !q) {
            v.push(Item { p, c: one(2, g), less: true });
        }
        for g in all_gates(1, 3, &ALL, false).into_iter().step_by(1) {
            if p.l > 1 && (!q || p.n == 5) {
                v.push(Item { p, c: one(1, g), less: true });
            }
        }
        // numbers of input wires and gates around multiples of the packing parameter
        for nin in 1..=7u32 {
            for k in ALL {
                for ng in 1..=7u32 {
                    if q && (nin + ng) % 2 == 0 && p.n > 5 {
                        continue;
                    }
                    let gs = (0..ng).map(|i| G { k, a: i % nin, b: if k == K::Inv { i % nin } else { (i + 1) % nin }, o: nin + i }).collect();
                    v.push(Item { p, c: C { inputs: vec![nin], outputs: vec![1], gates: gs }, less: true });
                }
            }
        }
        // input groups
        for inputs in compositions(5) {
            v.push(Item { p, c: C { inputs, outputs: vec![1], gates: vec![G { k: K::And, a: 0, b: 4, o: 5 }, G { k: K::Inv, a: 5, b: 5, o: 6 }, G { k: K::Xor, a: 6, b: 1, o: 7 }] }, less: true });
        }
    }
    // circuits without gates
    for p in ps {
        for nin in 1..=4 {
            v.push(Item { p, c: C { inputs: vec![nin], outputs: vec![1], gates: vec![] }, less: true });
        }
    }
    // sizes around powers of 256
    for ng in [250u32, 251, 252, 253, 255, 256, 257] {
        for k in ALL {
            v.push(Item { p: Par::new(3, 1, 1).lpn(1, 2), c: chain(k, ng), less: false });
        }
    }
    ctx.note("circuits", v.len().to_string());
    ctx.par_cases(&v, |i| format!("{},{}", i.p.name(), i.c.name()), |it| if it.c.gates.len() > 100 { check::<18>(ctx, it, &dir) } else { check::<8>(ctx, it, &dir) });

    // shipped circuits
    let ship: Vec<(&str, Par)> = ctx.pick(
        vec![("sub64", Par::new(5, 1, 2).lpn(1, 2)), ("sub64", Par::new(9, 2, 3).lpn(1, 2))],
        vec![("sub64", Par::new(3, 1, 1).lpn(2, 3)), ("sub64", Par::new(5, 1, 2).lpn(1, 2)), ("sub64", Par::new(9, 2, 3).lpn(1, 2)), ("sub64", Par::new(16, 5, 3).lpn(1, 2))],
    );
    ctx.par_cases(&ship, |x| format!("shipped,{},{}", x.0, x.1.name()), |(f, p)| {
        let it = Item { p: *p, c: C { inputs: vec![], outputs: vec![], gates: vec![] }, less: *f == "sub64" };
        let path = std::path::PathBuf::from(format!("/repo/data/circ/{f}.txt"));
        check_packed::<18>(ctx, &it, &|| scalable_mpc::circuit::Circuit::from_bristol_fashion(&path))
    });

    let mut reps = vec![];
    for p in ps.iter().copied().chain([Par::new(16, 5, 3).lpn(5, 7), Par::new(5, 1, 2).lpn(127, 555)]) {
        for (nin, ng) in [(1u32, 1u32), (3, 4), (5, 2)] {
            for pat in 0..3u32 {
                let gs: Vec<G> = (0..ng)
                    .map(|i| {
                        let k = ALL[(i + pat) as usize % 3];
                        G { k, a: i % nin, b: if k == K::Inv { i % nin } else { (i + 1) % nin }, o: nin + i }
                    })
                    .collect();
                reps.push((p, C { inputs: vec![nin], outputs: vec![1], gates: gs }));
            }
        }
    }
    ctx.par_cases(&reps, |i| format!("report,{},{}", i.0.name(), i.1.name()), |(p, c)| report(ctx, *p, c, &dir));
    ctx.sample(format!("{},{}", v[0].p.name(), v[0].c.name()));
    ctx.assume("a larger circuit announces and consumes block by block like the enumerated ones");
}

fn main() {
    if let Ok(a) = std::env::var("C18_REPORT") {
        mcrt::set_args(Some(std::iter::once("preproc_size".to_string()).chain(a.split('\n').map(|x| x.to_string())).collect()));
        size_report::preproc_size::program_entry();
        return;
    }
    mc::main(Spec {
        id: "C18",
        level: "exploration",
        rule: "one (parameters, circuit) pair, garbled with the announced material and once with one sharing less of each kind; or one printed report",
        run,
    })
}
