//! C30: the work of leading is spread over the parties.
use mc::circ::{C, G, K};
use mc::garb::Inst;
use mc::pre::{PreInst, Req};
use mc::proto::*;
use mc::*;
use mcrt::Cfg;
use scalable_mpc::math::galois::GF;
use scalable_mpc::math::Combination;
use scalable_mpc::protocol::core::{mult, reduce_degree, trans, SharingTransform};
use scalable_mpc::protocol::garble::garble;
use scalable_mpc::protocol::ProtocolIDBuilder;
use scalable_mpc::sharing::PackedSharing;

const W: u8 = 18;

/// Bytes every party sends to and receives from others.
fn loads(n: usize, streams: &[(u32, u32, Vec<u8>, u64)]) -> Vec<u64> {
    let mut v = vec![0; n];
    for (from, to, _, total) in streams {
        v[*from as usize] += total;
        v[*to as usize] += total;
    }
    v
}

/// Every party carries between `lo` and `hi` percent of the average.
fn even(v: &[u64], lo: u64, hi: u64) -> Result<(), String> {
    let (n, sum) = (v.len() as u64, v.iter().sum::<u64>());
    match (0..v.len()).find(|i| v[*i] * n * 100 < lo * sum || v[*i] * n * 100 > hi * sum) {
        Some(i) => Err(format!("party {i} has {} bytes of traffic, the average is {}: {v:?}", v[i], sum / n)),
        None => Ok(()),
    }
}

/// Many instances of one step without a prescribed leader; traffic is judged in groups of parties.
fn steps(ctx: &Ctx, p: Par, parent: &[u8], what: &'static str, group: usize) {
    ctx.case(&format!("{what}:{}:{}", p.name(), parent.len()), || {
        GF::<W>::init().unwrap();
        let num = 100 * p.n / group;
        let base = parent.to_vec();
        let mut gen = ProtocolIDBuilder::new(&base, num as u64);
        let ids: Vec<Vec<u8>> = (0..num).filter_map(|_| gen.next()).collect();
        let ctxs = contexts::<W>(&p);
        let run = parties(Cfg::default(), Net::Tcp, p.n, |i, net, _| {
            let (c, ids) = (ctxs[i].clone(), ids.clone());
            async move {
                let z = || ndarray::Array1::from_elem(3, GF::<W>::ZERO);
                let pos = PackedSharing::<W>::default_pos(c.n as u32, c.l as u32);
                let tf = SharingTransform::new(pos.clone(), pos.clone(), Combination::new((0..pos.len()).collect()));
                let mut hs = vec![];
                for id in ids {
                    let (c, net, tf) = (c.clone(), net.clone(), tf.clone());
                    hs.push(tokio::task::spawn(async move {
                        match what {
                            "multiplication" => mult(id, z(), z(), z(), z(), None, c, net).await,
                            "reduction" => reduce_degree(id, z(), z(), z(), None, c, net).await,
                            _ => trans(id, z(), z(), z(), tf, None, c, net).await,
                        }
                    }));
                }
                for h in hs {
                    h.await.unwrap();
                }
            }
        });
        count_outcome(ctx, &run.out);
        finished(&run.out)?;
        let v = loads(p.n, &run.streams);
        ctx.count("evaluations", num as u64);
        let v: Vec<u64> = v.chunks(group).map(|c| c.iter().sum()).collect();
        ctx.distinct(format!("{what}{}{parent:?}{v:?}", p.name()).as_bytes());
        ctx.sample(format!("{what}, {} parties, {num} instances: traffic {v:?}", p.n));
        even(&v, 80, 150)
    });
}

/// Preprocessing with many errors: the multiplications behind them are shared out.
fn preprocessing(ctx: &Ctx, p: Par, errors: usize, hi: u64) {
    ctx.case(&format!("preprocessing:{}:{errors}", p.name()), || {
        let inst = PreInst::<W>::usual(p);
        let req = Req { masks: 1, keys: (2, 1, 1), randoms: 1, zeros: 1, errors };
        let run = inst.run(Cfg::default(), Net::Tcp, &req);
        count_outcome(ctx, &run.out);
        finished(&run.out)?;
        let v = loads(p.n, &run.streams);
        ctx.count("evaluations", 1);
        ctx.distinct(format!("pre{}{errors}{v:?}", p.name()).as_bytes());
        ctx.sample(format!("preprocessing, {} parties, {errors} errors: traffic {v:?}", p.n));
        even(&v, 80, hi)
    });
}

/// Garbling of a circuit with many blocks.
fn garbling(ctx: &Ctx, p: Par, kind: K, gates: u32) {
    ctx.case(&format!("garbling:{}:{kind:?}:{gates}", p.name()), || {
        let gates: Vec<G> = (0..gates).map(|i| G { k: kind, a: i, b: if kind == K::Inv { i } else { i + 1 }, o: i + 2 }).collect();
        let c = C { inputs: vec![2], outputs: vec![1], gates };
        let inst = Inst::<W>::new(p, &c, &scratch());
        let mats = inst.deal(&inst.zero_mat(), 1);
        let run = parties(Cfg::default(), Net::Tcp, p.n, |i, net, _| {
            let (m, g) = (mats[i].clone(), inst.gctx[i].clone());
            async move {
                garble(vec![], m, g, net).await;
            }
        });
        count_outcome(ctx, &run.out);
        finished(&run.out)?;
        let v = loads(p.n, &run.streams);
        ctx.count("evaluations", 1);
        ctx.distinct(format!("garble{}{kind:?}{v:?}", p.name()).as_bytes());
        ctx.sample(format!("garbling, {} parties, {} {kind:?} gates: traffic {v:?}", p.n, c.gates.len()));
        even(&v, 88, 112)
    });
}

fn run(ctx: &Ctx) {
    let pars: Vec<Par> = ctx.pick(&[(5, 1, 2), (7, 2, 2), (8, 3, 1), (16, 5, 3)][..], &[(5, 1, 2), (5, 2, 1), (6, 1, 2), (7, 2, 2), (7, 1, 3), (8, 3, 1), (9, 2, 3), (12, 4, 2), (16, 5, 3), (21, 5, 6), (33, 8, 9)][..]).iter().map(|&(n, t, l)| Par::new(n, t, l)).collect();
    for p in &pars {
        for parent in [&b""[..], b"x", b"garble_benchmark"] {
            for what in ["multiplication", "reduction", "transformation"] {
                steps(ctx, *p, parent, what, 1);
            }
        }
        for per in [8, 9, 20] {
            preprocessing(ctx, *p, per * p.n + per % 2, 130);
        }
    }
    for what in ctx.pick(&["multiplication"][..], &["multiplication", "reduction", "transformation"][..]) {
        steps(ctx, Par::new(300, 2, 2), b"x", what, 30);
    }
    preprocessing(ctx, Par::new(258, 1, 1), 2 * 258, 110);
    for k in [K::And, K::Xor, K::Inv] {
        garbling(ctx, Par::new(3, 1, 1), k, ctx.pick(100, 300));
        garbling(ctx, Par::new(5, 1, 2), k, ctx.pick(200, 600));
        garbling(ctx, Par::new(7, 2, 2), k, ctx.pick(200, 800));
    }
    ctx.assume("evenness is judged over at least a hundred instances per party; other sets of identifiers are covered as far as the function that picks the leader treats them alike");
}

fn main() {
    mc::main(Spec {
        id: "C30",
        level: "exploration",
        rule: "an evaluation is a protocol instance (or a whole run of preprocessing or garbling) of the real code; distinct by step, parameters and resulting traffic of every party",
        run,
    })
}
