//! C01: garbled tables.
use mc::circ::*;
use mc::garb::*;
use mc::proto::*;
use mc::*;
use std::sync::atomic::{AtomicU64, Ordering};

static RUNS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
struct Item {
    p: Par,
    w: u8,
    c: C,
    all_masks: bool,
}

fn seen(ctx: &Ctx, o: &mcrt::Outcome) {
    RUNS.fetch_add(1, Ordering::Relaxed);
    count_outcome(ctx, o);
}

/// Mask assignments: all, or a family in which every three wires take all eight combinations.
fn masks(wires: usize, all: bool) -> Vec<Vec<bool>> {
    let bits = |m: u32| (0..wires).map(|i| m >> i & 1 == 1).collect::<Vec<bool>>();
    if all {
        return (0..1u32 << wires).map(bits).collect();
    }
    // Codewords of an even-weight-dual code: rows (1, x, ...) with the wires as distinct odd
    // columns; any three distinct odd columns are linearly independent.
    let m = (usize::BITS - (wires - 1).leading_zeros()) as usize + 1;
    (0..1u32 << m).map(|v| (0..wires as u32).map(|i| (v & (i << 1 | 1)).count_ones() & 1 == 1).collect()).collect()
}

fn check<const W: u8>(ctx: &Ctx, it: &Item, dir: &std::path::Path) -> Result<(), String> {
    let inst = Inst::<W>::new(it.p, &it.c, dir);
    let enc = inst.code();
    // Different labels must be told apart in spite of a bounded number of errors.
    for rows in subsets(it.p.q, it.p.k + 1) {
        let sub: Vec<Vec<u32>> = rows.iter().map(|r| enc[*r].clone()).collect();
        if lin::rank(&inst.rf, &sub) != it.p.k + 1 {
            return Err(format!("{}: symbols {rows:?} of the code do not determine the label", it.p.name()));
        }
    }
    let public = inst.identify(|o| seen(ctx, o))?;
    let n_in = it.c.n_in() as usize;
    for (k, ms) in masks(inst.wires, it.all_masks).into_iter().enumerate() {
        let m = inst.filled(ms, 77 + k as u64);
        let (o, t) = inst.tables(&m, 900 + k as u64);
        seen(ctx, &o);
        let t = t?;
        let errs = inst.explain(&public, &enc, &m, &t)?;
        for x in 0..1u32 << n_in {
            let x: Vec<bool> = (0..n_in).map(|i| x >> i & 1 == 1).collect();
            let got = inst.walk(&public, &enc, &m, &errs, &t, &x)?;
            let want = it.c.eval(&x);
            if got != want {
                return Err(format!("inputs {x:?}: evaluation of the tables gives {got:?}, the circuit {want:?}; masks {:?}", m.masks));
            }
            ctx.count("walks", 1);
        }
    }
    ctx.distinct(format!("{it:?}").as_bytes());
    Ok(())
}

fn items(quick: bool) -> Vec<Item> {
    let mut v = vec![];
    let p31 = Par::new(3, 1, 1).lpn(1, 3);
    let p52 = Par::new(5, 1, 2).lpn(2, 3);
    let p73 = Par::new(7, 1, 3).lpn(1, 2);
    let p62 = Par::new(6, 1, 2).lpn(1, 4);
    let p72 = Par::new(7, 2, 2).lpn(2, 4);
    let one = |nin: u32, g: Vec<G>| C { inputs: vec![nin], outputs: vec![g.len() as u32], gates: g };
    let mut add = |p: Par, w: u8, nin: u32, g: usize, ordered: bool, all: bool| {
        for gs in all_gates(nin, g, &ALL, ordered) {
            v.push(Item { p, w, c: one(nin, gs), all_masks: all });
        }
    };
    add(p31, 8, 2, 1, true, true);
    add(p31, 8, 2, 2, true, true);
    add(p52, 8, 2, 1, true, true);
    add(p52, 8, 2, 2, true, true);
    add(p73, 8, 2, 1, true, true);
    add(p72, 8, 2, 1, true, true);
    add(p62, 18, 2, 1, true, true);
    if quick {
        // three gates: packing with a partial block
        add(p52, 8, 1, 3, false, false);
    } else {
        add(p31, 8, 2, 3, true, true);
        add(p52, 8, 2, 3, true, true);
        add(p52, 8, 3, 2, true, true);
        add(p62, 18, 2, 2, true, true);
        add(p72, 8, 2, 2, true, true);
        add(p73, 8, 2, 2, true, true);
        add(p73, 8, 1, 4, false, false);
    }
    // Many gates of one kind over few inputs: several full blocks and a partial one, wires shared
    // within and between blocks.
    for (p, w) in [(p52, 8u8), (p73, 8), (p72, 18)] {
        for k in ALL {
            for ng in [2usize, 3, 4, 5, 7] {
                for pat in 0..3u32 {
                    let gs: Vec<G> = (0..ng as u32)
                        .map(|i| {
                            let o = 3 + i;
                            let (a, b) = match pat {
                                0 => (i % 3, (i + 1) % 3), // inputs only, all shared
                                1 => (o - 1, o - 2),       // chain
                                _ => (0, i % 2 + 1),       // one wire everywhere
                            };
                            G { k, a, b: if k == K::Inv { a } else { b }, o }
                        })
                        .collect();
                    v.push(Item { p, w, c: one(3, gs), all_masks: false });
                }
            }
        }
    }
    // Mixed kinds with input groups.
    for (p, w) in [(p52, 8u8), (p73, 8), (p72, 18)] {
        for inputs in compositions(4) {
            let gs = vec![
                G { k: K::Xor, a: 3, b: 0, o: 4 },
                G { k: K::And, a: 4, b: 1, o: 5 },
                G { k: K::Inv, a: 5, b: 5, o: 6 },
                G { k: K::And, a: 6, b: 2, o: 7 },
                G { k: K::Xor, a: 7, b: 5, o: 8 },
                G { k: K::Inv, a: 4, b: 4, o: 9 },
                G { k: K::And, a: 9, b: 9, o: 10 },
            ];
            v.push(Item { p, w, c: C { inputs, outputs: vec![2, 1], gates: gs }, all_masks: false });
        }
    }
    v
}

fn main() {
    mc::main(Spec {
        id: "C01",
        level: "model_checking",
        rule: "one (parameters, circuit) pair, garbled for every mask assignment stated; states are choice points and ends of executions, transitions task steps, traces complete garblings whose opened tables were compared with the specification",
        run: |ctx| {
            let dir = scratch();
            let its = items(ctx.quick());
            ctx.note("circuits", format!("{}", its.len()));
            ctx.par_cases(&its, |i| format!("{},w{},{}", i.p.name(), i.w, i.c.name()), |it| match it.w {
                8 => check::<8>(ctx, it, &dir),
                18 => check::<18>(ctx, it, &dir),
                _ => unreachable!(),
            });
            ctx.count("garblings", RUNS.load(Ordering::SeqCst));
            // Schedules of one circuit with all gate kinds.
            let c = C {
                inputs: vec![2],
                outputs: vec![1],
                gates: vec![G { k: K::And, a: 0, b: 1, o: 2 }, G { k: K::Xor, a: 2, b: 0, o: 3 }, G { k: K::Inv, a: 3, b: 3, o: 4 }],
            };
            let kinds = mcrt::kind_mask(&[mcrt::Kind::Task, mcrt::Kind::Select]);
            let p = Par::new(3, 1, 1).lpn(1, 2);
            let pols = policies(3);
            explore_garbling::<8>(ctx, p, &c, &dir, Net::Tcp, &pols, kinds, 1, ctx.pick(40_000, 100_000));
            if let Some(i) = its.last() {
                ctx.sample(format!("{},w{},{}", i.p.name(), i.w, i.c.name()));
            }
        },
    });
}
