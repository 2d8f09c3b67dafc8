//! C05: preprocessing material.
use mc::pre::*;
use mc::proto::*;
use mc::secrecy::*;
use mc::*;
use mcrt::{Cfg, RngMode};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Every request up to the bounds gives well-formed material of the requested size.
fn requests<const W: u8>(ctx: &Ctx, p: Par, top: usize, errors: usize, seeds: u64) {
    let inst = PreInst::<W>::usual(p);
    let mut items = vec![];
    for masks in 0..=top {
        for (k, b) in [(1, 1), (1, top), (2, 1), (3, 2)] {
            for randoms in 0..=top {
                for zeros in 0..=top {
                    for e in 0..=errors {
                        // Not all combinations: two of the five sizes vary freely at a time.
                        let odd = [(masks != 1) as u32, ((k, b) != (1, 1)) as u32, (randoms != 1) as u32, (zeros != 1) as u32, (e != 1) as u32];
                        if odd.iter().sum::<u32>() <= 2 {
                            items.push(Req { masks, keys: (2, k, b), randoms, zeros, errors: e });
                        }
                    }
                }
            }
        }
    }
    items.push(Req { masks: 0, keys: (2, 1, 0), randoms: 0, zeros: 0, errors: 0 });
    items.push(Req { masks: 5, keys: (2, 3, 5), randoms: 40, zeros: 60, errors: 4 * p.n + 1 });
    ctx.par_cases(&items, |r| format!("request:{W}:{}:{}", p.name(), r.name()), |r| {
        for seed in 0..seeds {
            let (_, o) = inst.judged(Cfg { rng: RngMode::Stream(seed + 1), ..Cfg::default() }, if seed % 2 == 0 { Net::Tcp } else { Net::Local }, r);
            o?;
            ctx.count("evaluations", 1);
        }
        ctx.distinct(format!("{W}{}{}", p.name(), r.name()).as_bytes());
        Ok(())
    });
}

struct Shot {
    streams: Streams,
    draws: BTreeMap<u32, u32>,
    o: Opened,
}

fn shoot<const W: u8>(inst: &PreInst<W>, req: &Req, tape: &Tape) -> Result<Shot, String> {
    let run = inst.run(tape_cfg(W, tape), Net::Tcp, req);
    finished(&run.out)?;
    let o = inst.open(req, &run.vals.into_iter().map(|x| x.unwrap()).collect::<Vec<_>>())?;
    Ok(Shot { streams: run.streams, draws: run.out.draws, o })
}

type Bit = (u32, u32, u32); // party, draw, bit

fn flip(t: &Tape, bits: &[Bit]) -> Tape {
    let mut t = t.clone();
    for (g, i, b) in bits {
        *t.entry((*g, *i)).or_insert(0) ^= 1 << b;
    }
    t
}

fn bits_of(draws: &BTreeMap<u32, u32>, w: u8) -> Vec<Bit> {
    draws.iter().flat_map(|(g, k)| (0..*k).flat_map(move |i| (0..w as u32).map(move |b| (*g, i, b)))).collect()
}

/// Base tapes on which single changes are made; the first ones make the random bits one.
fn bases<const W: u8>(inst: &PreInst<W>, req: &Req) -> Result<Vec<Tape>, String> {
    let first = shoot(inst, req, &Tape::new())?;
    let mut v = vec![];
    let ones: Tape = first.draws.iter().flat_map(|(g, k)| (0..*k).map(move |i| ((*g, i), (1u32 << W) - 1))).collect();
    v.push(ones);
    for s in 0..2 {
        let mut f = Fill(100 + s, W as u32);
        let t = fill_tape(&first.draws, &mut f);
        v.push(t.into_iter().map(|(k, x)| (k, x | 1 << (W - 1))).collect());
    }
    Ok(v)
}

/// All generated values are contributions of party `who`: what does each of its draws end up in?
fn uses<const W: u8>(ctx: &Ctx, p: Par, reqs: &[Req]) {
    let items: Vec<(usize, Req)> = (0..p.n).flat_map(|w| reqs.iter().map(move |r| (w, *r))).collect();
    ctx.par_cases(&items, |(w, r)| format!("uses:{W}:{}:{w}:{}", p.name(), r.name()), |&(who, req)| {
        let inst = PreInst::<W>::selecting(p, who);
        let g = who as u32;
        let mut where_: BTreeMap<u32, BTreeSet<(usize, usize)>> = BTreeMap::new(); // draw -> outputs
        let mut opened: BTreeMap<u32, BTreeSet<(usize, usize)>> = BTreeMap::new(); // draw -> errors whose secret moves
        let mut live: BTreeMap<usize, BTreeSet<Bit>> = BTreeMap::new(); // error -> bits that move its secret
        let mut says = BTreeSet::new(); // draws that change what other parties send
        let mut span = pre::Space::default();
        for (bi, base) in bases(&inst, &req)?.iter().enumerate() {
            let b = shoot(&inst, &req, base)?;
            let own: BTreeMap<u32, u32> = b.draws.iter().filter(|x| *x.0 == g).map(|x| (*x.0, *x.1)).collect();
            for bit in bits_of(&own, W) {
                let s = shoot(&inst, &req, &flip(base, &[bit]))?;
                if s.draws != b.draws {
                    panic!("the amount of randomness depends on values: this analysis does not apply");
                }
                ctx.count("evaluations", 1);
                let mut row = vec![];
                for k in 0..5 {
                    for j in 0..b.o.sharings[k].len() {
                        let d: Vec<u32> = b.o.sharings[k][j].iter().zip(&s.o.sharings[k][j]).map(|(x, y)| x ^ y).collect();
                        if d.iter().any(|x| *x != 0) {
                            where_.entry(bit.1).or_default().insert((k, j));
                        }
                        if k != ERRORS {
                            row.extend(d);
                        } else if b.o.secrets[k][j] != s.o.secrets[k][j] {
                            opened.entry(bit.1).or_default().insert((k, j));
                            live.entry(j).or_default().insert(bit);
                        }
                    }
                }
                if bi == 0 {
                    span.add(&pack32(&row));
                }
                if differ(&b.streams, &s.streams)?.iter().any(|x| x.0 != g && x.2.iter().any(|y| *y != 0)) {
                    says.insert(bit.1);
                }
            }
        }
        let what = format!("{} {} (all values from party {who})", p.name(), req.name());
        for (d, outs) in &where_ {
            if outs.len() > 1 {
                return Err(format!("{what}: one random value (draw {d}) ends up in {:?}", outs.iter().map(|(k, j)| format!("{} {j}", KIND[*k])).collect::<Vec<_>>()));
            }
            if let Some((k, j)) = outs.iter().find(|(k, _)| *k != ERRORS) {
                if says.contains(d) {
                    return Err(format!("{what}: what other parties send depends on {} {j}", KIND[*k]));
                }
            }
        }
        // All of the material other than errors is jointly as free as it can be.
        let b = shoot(&inst, &req, &Tape::new())?;
        let w = W as usize;
        let each = [p.l + w * p.t, w * (p.d() + 1), w * (p.d() + 1), w * (p.n - p.l)];
        let want: usize = (0..4).map(|k| each[k] * b.o.sharings[k].len()).sum();
        if span.dim() != want {
            return Err(format!("{what}: masks, keys, masking and zero sharings together have {} bits of freedom, {want} expected", span.dim()));
        }
        ctx.distinct(what.as_bytes());
        // Distribution of each error over the values that decide it.
        let base = bases(&inst, &req)?.remove(1);
        for j in 0..req.errors {
            let bits: Vec<Bit> = live.get(&j).map(|s| s.iter().copied().collect()).unwrap_or_default();
            let cap = ctx.pick(9, 13);
            if bits.len() > cap {
                ctx.count("error_distributions_skipped", 1);
                continue;
            }
            let mut hist: HashMap<Vec<u32>, u64> = HashMap::new();
            for x in 0..1u64 << bits.len() {
                let mut t = base.clone();
                for (i, (g, d, b)) in bits.iter().enumerate() {
                    let e = t.entry((*g, *d)).or_insert(0);
                    *e = *e & !(1 << b) | ((x >> i & 1) as u32) << b;
                }
                let s = shoot(&inst, &req, &t)?;
                *hist.entry(s.o.secrets[ERRORS][j].clone()).or_insert(0) += 1;
                ctx.count("evaluations", 1);
            }
            // Per slot: zero with probability 3/4 + 1/(4q), any other value 1/(4q); slots independent.
            let (q, tot) = (1u64 << W, 1u64 << bits.len());
            let scale = (4 * q).pow(p.l as u32);
            let mut bad = None;
            all_vecs(q as u32, p.l, |v| {
                let weight: u64 = v.iter().map(|x| if *x == 0 { 3 * q + 1 } else { 1 }).product();
                let n = hist.get(v).copied().unwrap_or(0);
                if n * scale != weight * tot {
                    bad = Some(format!("{what}: error {j} is {v:?} in {n} of {tot} cases, expected weight {weight}/{scale}"));
                }
                bad.is_none()
            });
            if let Some(e) = bad {
                return Err(e);
            }
            ctx.count("error_distributions", 1);
            if j == 0 && who == 0 {
                ctx.sample(format!("{what}: error 0 decided by {} random bits, {} outcomes", bits.len(), hist.len()));
            }
        }
        Ok(())
    });
}

/// Given what party `c` receives while errors are made, is each error still distributed as before?
fn secret_errors<const W: u8>(ctx: &Ctx, p: Par, errors: usize, pairs: &[(usize, usize)]) {
    let req = Req { masks: 0, keys: (2, 1, 0), randoms: 0, zeros: 0, errors };
    ctx.par_cases(pairs, |(w, c)| format!("errors:{W}:{}:{errors}:{w}:{c}", p.name()), |&(who, c)| {
        let inst = PreInst::<W>::selecting(p, who);
        let runs = std::cell::Cell::new(0u64);
        // What c sees, then the errors.
        let look = |t: &Tape| -> Result<(Vec<u64>, Vec<u64>), String> {
            runs.set(runs.get() + 1);
            let s = shoot(&inst, &req, t)?;
            Ok((view_bits(&s.streams, &[c]), pack32(&s.o.secrets[ERRORS].concat())))
        };
        let both = |t: &Tape| -> Result<Vec<u64>, String> {
            let (mut a, b) = look(t)?;
            a.extend(b);
            Ok(a)
        };
        let bs = bases(&inst, &req)?;
        let draws = shoot(&inst, &req, &bs[0])?.draws;
        let all: Vec<Bit> = bits_of(&draws, W).into_iter().filter(|b| b.0 != c as u32).collect();
        // Bits that do anything, and pairs that do something together.
        let mut live: BTreeSet<Bit> = BTreeSet::new();
        let mut single: Vec<HashMap<Bit, Vec<u64>>> = vec![];
        let mut at: Vec<Vec<u64>> = vec![];
        for b in &bs {
            let r = both(b)?;
            let mut m = HashMap::new();
            for x in &all {
                let v = both(&flip(b, &[*x]))?;
                if v != r {
                    live.insert(*x);
                }
                m.insert(*x, v);
            }
            single.push(m);
            at.push(r);
        }
        let live: Vec<Bit> = live.into_iter().collect();
        let key = |b: &Bit| (b.0, b.1);
        let mut edges: BTreeSet<((u32, u32), (u32, u32))> = BTreeSet::new();
        for i in 0..live.len() {
            for j in 0..i {
                let (a, b) = (live[i], live[j]);
                let e = (key(&a).min(key(&b)), key(&a).max(key(&b)));
                for (k, base) in bs.iter().enumerate() {
                    if edges.contains(&e) {
                        break;
                    }
                    let v = both(&flip(base, &[a, b]))?;
                    if xor(&v, &at[k]) != xor(&single[k][&a], &single[k][&b]) {
                        edges.insert(e);
                    }
                }
            }
        }
        // Draws that take part in products, in connected groups (one group per error).
        let nodes: BTreeSet<(u32, u32)> = edges.iter().flat_map(|e| [e.0, e.1]).collect();
        let mut groups: Vec<BTreeSet<(u32, u32)>> = vec![];
        for n in &nodes {
            let mut g: BTreeSet<(u32, u32)> = [*n].into();
            groups.retain(|h| {
                let linked = edges.iter().any(|e| (g.contains(&e.0) && h.contains(&e.1)) || (g.contains(&e.1) && h.contains(&e.0)));
                if linked {
                    g.extend(h.iter().copied());
                }
                !linked
            });
            groups.push(g);
        }
        let weight = |d: &(u32, u32)| live.iter().filter(|b| key(b) == *d).count();
        let mut covers: Vec<Vec<Bit>> = vec![];
        for g in &groups {
            let v: Vec<(u32, u32)> = g.iter().copied().collect();
            assert!(v.len() <= 20, "a group of {} draws", v.len());
            let es: Vec<_> = edges.iter().filter(|e| g.contains(&e.0)).collect();
            let mut best: Option<(usize, u32)> = None;
            for m in 0..1u32 << v.len() {
                let w: usize = (0..v.len()).filter(|i| m >> i & 1 == 1).map(|i| weight(&v[i])).sum();
                let has = |d: &(u32, u32)| m >> v.iter().position(|x| x == d).unwrap() & 1 == 1;
                if best.map_or(true, |b| w < b.0) && es.iter().all(|e| has(&e.0) || has(&e.1)) {
                    best = Some((w, m));
                }
            }
            let (w, m) = best.unwrap();
            assert!(w <= 10, "{w} bits take part in products");
            covers.push(live.iter().filter(|b| v.iter().position(|x| *x == key(b)).map_or(false, |i| m >> i & 1 == 1)).copied().collect());
        }
        let fixed: BTreeSet<Bit> = covers.iter().flatten().copied().collect();
        let rest: Vec<Bit> = live.iter().filter(|b| !fixed.contains(b)).copied().collect();
        let what = format!("{} errors, {} width {W}, values from party {who}, observer {c}", errors, p.name());
        let mut moved = BTreeSet::new();
        for cover in &covers {
            struct Piece {
                base: Vec<u64>,
                span: Space,
                hist: HashMap<Vec<u64>, u64>,
                size: u64,
            }
            let mut pieces: Vec<Piece> = vec![];
            for x in 0..1u64 << cover.len() {
                let on: Vec<Bit> = cover.iter().enumerate().filter(|(i, _)| x >> i & 1 == 1).map(|(_, b)| *b).collect();
                let t = flip(&bs[1], &on);
                let (v0, e0) = look(&t)?;
                let (mut vs, mut es, mut js) = (Space::default(), Space::default(), Space::default());
                let mut ev = vec![];
                let mut all_v = vec![];
                for b in &rest {
                    let (v, e) = look(&flip(&t, &[*b]))?;
                    let (v, e) = (xor(&v, &v0), xor(&e, &e0));
                    vs.add(&v);
                    if es.add(&e) {
                        ev.push(e.clone());
                    }
                    js.add(&[v.clone(), e.clone()].concat());
                    all_v.push((v, e));
                }
                // Many at once, as a check of the affine description.
                let mut f = Fill(x + 7, 1);
                let pick: Vec<usize> = (0..rest.len()).filter(|_| f.next() == 1).collect();
                let (v, e) = look(&flip(&t, &pick.iter().map(|i| rest[*i]).collect::<Vec<_>>()))?;
                let (mut wv, mut we) = (v0.clone(), e0.clone());
                for i in &pick {
                    wv = xor(&wv, &all_v[*i].0);
                    we = xor(&we, &all_v[*i].1);
                }
                assert!(v == wv && e == we, "not affine in the remaining values: this analysis does not apply");
                if js.dim() != vs.dim() + es.dim() {
                    return Err(format!("{what}: what the observer receives tells about the errors"));
                }
                let mut hist = HashMap::new();
                for m in 0..1u64 << ev.len() {
                    let mut e = e0.clone();
                    for (i, d) in ev.iter().enumerate() {
                        if m >> i & 1 == 1 {
                            e = xor(&e, d);
                        }
                    }
                    moved.insert(e.clone());
                    *hist.entry(e).or_insert(0) += 1u64 << (16 - ev.len().min(16));
                }
                pieces.push(Piece { base: v0, span: vs, hist, size: 1 });
            }
            // Same views, same errors.
            let mut whole: HashMap<Vec<u64>, u64> = HashMap::new();
            for p in &pieces {
                for (e, n) in &p.hist {
                    *whole.entry(e.clone()).or_insert(0) += n;
                }
            }
            let total = pieces.len() as u64;
            let mut classes: Vec<Piece> = vec![];
            for p in pieces {
                let mut found = false;
                for q in classes.iter_mut() {
                    let d = xor(&p.base, &q.base);
                    if p.span == q.span {
                        if p.span.has(&d) {
                            for (e, n) in &p.hist {
                                *q.hist.entry(e.clone()).or_insert(0) += n;
                            }
                            q.size += 1;
                            found = true;
                            break;
                        }
                    } else {
                        let mut s = p.span.clone();
                        for r in q.span.vectors() {
                            s.add(&r);
                        }
                        if s.has(&d) {
                            return Err(format!("{what}: the range of what the observer receives depends on the secret values"));
                        }
                    }
                }
                if !found {
                    classes.push(p);
                }
            }
            for q in &classes {
                for (e, n) in &whole {
                    if q.hist.get(e).copied().unwrap_or(0) * total != n * q.size {
                        return Err(format!("{what}: for some views the errors are distributed differently"));
                    }
                }
            }
            ctx.count("view_classes", classes.len() as u64);
        }
        if covers.len() != errors {
            return Err(format!("{what}: {} separate groups of values take part in products", covers.len()));
        }
        if moved.len() < 2 {
            return Err(format!("{what}: errors do not vary"));
        }
        ctx.count("evaluations", runs.get());
        ctx.distinct(what.as_bytes());
        ctx.sample(format!("{what}: {} random bits matter, {} of them in products", live.len(), fixed.len()));
        Ok(())
    });
}

/// Sizes and numbers of parties beyond a byte.
fn many<const W: u8>(ctx: &Ctx, p: Par, reqs: &[Req]) {
    let inst = PreInst::<W>::usual(p);
    ctx.par_cases(reqs, |r| format!("many:{W}:{}:{}", p.name(), r.name()), |r| {
        let (_, o) = inst.judged(Cfg { rng: RngMode::Stream(1), ..Cfg::default() }, Net::Local, r);
        o?;
        ctx.count("evaluations", 1);
        ctx.distinct(format!("{W}{}{}", p.name(), r.name()).as_bytes());
        Ok(())
    });
}

fn run(ctx: &Ctx) {
    requests::<8>(ctx, Par::new(3, 1, 1), 3, 7, 2);
    requests::<8>(ctx, Par::new(5, 1, 2), 3, 6, 1);
    requests::<8>(ctx, Par::new(7, 2, 2), 2, 8, 1);
    requests::<18>(ctx, Par::new(7, 1, 3), ctx.pick(1, 3), ctx.pick(2, 15), 1);
    let r = |m, k, b, r, z, e| Req { masks: m, keys: (2, k, b), randoms: r, zeros: z, errors: e };
    many::<18>(ctx, Par::new(3, 1, 1), &[r(300, 1, 1, 1, 1, 1), r(1, 3, 100, 1, 1, 1), r(1, 1, 1, 700, 1, 1), r(1, 1, 1, 1, 700, 1), r(1, 1, 1, 1, 1, 1000), r(66_000, 1, 1, 1, 1, 1), r(1, 1, 33_000, 66_000, 1, 1), r(1, 1, 1, 1, 66_000, 23_000)]);
    many::<18>(ctx, Par::new(127, 1, 1), &[r(1, 1, 1, 1, 1, 1)]);
    many::<18>(ctx, Par::new(258, 2, 2), &[r(2, 1, 2, 3, 2, 259)]);
    uses::<2>(ctx, Par::new(3, 1, 1), &[r(1, 1, 1, 1, 1, 1), r(2, 1, 2, 2, 1, 4), r(0, 2, 1, 3, 2, 3), r(1, 1, 1, 0, 4, 2)]);
    uses::<3>(ctx, Par::new(5, 1, 2), &[r(2, 1, 1, 2, 1, 1), r(1, 1, 1, 1, 1, 6)]);
    if !ctx.quick() {
        uses::<4>(ctx, Par::new(7, 2, 2), &[r(2, 1, 2, 2, 2, 8)]);
        uses::<2>(ctx, Par::new(3, 1, 1), &[r(3, 2, 2, 5, 4, 7)]);
    }
    let all: Vec<(usize, usize)> = (0..3).flat_map(|w| (0..3).filter(move |c| *c != w).map(move |c| (w, c))).collect();
    secret_errors::<2>(ctx, Par::new(3, 1, 1), 1, &all);
    secret_errors::<2>(ctx, Par::new(3, 1, 1), 2, if ctx.quick() { &all[1..4] } else { &all });
    if !ctx.quick() {
        secret_errors::<2>(ctx, Par::new(3, 1, 1), 4, &all);
    }
    ctx.assume("uniformity of the generated sharings for every set of t parties is decided by the check of joint randomness; here values come from one party through selecting matrices");
}

fn main() {
    mc::main(Spec {
        id: "C05",
        level: "exploration",
        rule: "evaluations are executions of the real preprocessing opened against its definition; distinct counts (parameters, request) pairs and (contributor, observer) analyses",
        run,
    })
}
