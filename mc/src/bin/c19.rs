//! C19: identifiers of subprotocols.
use mc::*;
use scalable_mpc::protocol::ProtocolIDBuilder;
use std::collections::HashSet;

fn children(parent: &Vec<u8>, num: u64, want: u64) -> Result<Vec<Vec<u8>>, String> {
    let mut b = ProtocolIDBuilder::new(parent, num);
    let mut v = Vec::with_capacity(want as usize);
    for i in 0..want {
        match b.next() {
            // The network carries identifiers of up to 255 bytes.
            Some(x) if x.len() > 255 => return Err(format!("an identifier of {} bytes for child {i} of {num} of a parent of {}", x.len(), parent.len())),
            Some(x) => v.push(x),
            None => return Err(format!("generator for {num} children ends after {i}")),
        }
    }
    Ok(v)
}

fn check_set(parent: &Vec<u8>, v: &[Vec<u8>]) -> Result<(), String> {
    let mut s = HashSet::new();
    for x in v {
        if x == parent {
            return Err(format!("child equals its parent {parent:?}"));
        }
        if !s.insert(x.clone()) {
            return Err(format!("identifier {x:?} issued twice under {parent:?}"));
        }
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    // Every child count up to a bound, under parents of several shapes.
    let parents: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255, 255], b"garble_benchmark".to_vec()];
    let small: u64 = ctx.pick(1100, 5000);
    let mut counts: Vec<u64> = (1..=small).collect();
    for c in [4095u64, 4096, 4097, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600] {
        counts.push(c);
    }
    if !ctx.quick() {
        counts.extend([131071, 131072, 131073, 262144, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    }
    let mut cases = vec![];
    for (pi, _) in parents.iter().enumerate() {
        for &c in &counts {
            if pi == 0 || c <= 1100 || (pi == 3 && c <= 65600) {
                cases.push((pi, c));
            }
        }
    }
    ctx.par_cases(&cases, |(p, c)| format!("flat:{p}:{c}"), |(p, c)| {
        let parent = &parents[*p];
        let v = children(parent, *c, *c)?;
        check_set(parent, &v)?;
        let again = children(parent, *c, *c)?;
        if v != again {
            return Err(format!("two generators for {c} children disagree"));
        }
        // All the identifiers a generator yields, not only the announced number.
        if *c <= 1100 {
            let mut b = ProtocolIDBuilder::new(parent, *c);
            let mut s = HashSet::new();
            let mut k = 0u64;
            while let Some(x) = b.next() {
                if !s.insert(x.clone()) || &x == parent {
                    return Err(format!("identifier {x:?} (number {k}) repeated"));
                }
                k += 1;
                if k > 2 * *c + 600 {
                    break;
                }
            }
            ctx.count("evaluations", k);
        }
        ctx.count("evaluations", 2 * *c);
        ctx.distinct(format!("{p}:{c}").as_bytes());
        Ok(())
    });
    ctx.sample(format!("children of [] for 257: {:?} ...", children(&vec![], 257, 3).unwrap_or_default()));

    // Trees: each node may have children from one generator of any of these sizes.
    let sizes: &[u64] = &[0, 1, 2, 3, 255, 256, 257];
    let few = 3usize; // children actually expanded per node: first, second, last
    let mut shapes = vec![];
    for &a in sizes {
        for &b in sizes {
            for &c in sizes {
                shapes.push((a, b, c));
            }
        }
    }
    ctx.par_cases(&shapes, |s| format!("tree:{}:{}:{}", s.0, s.1, s.2), |&(a, b, c)| {
        // Two levels: the root has `a` children, its children alternate between `b` and `c`
        // grandchildren, those alternate again.
        for root in [vec![], vec![7u8]] {
            let mut all: HashSet<Vec<u8>> = HashSet::new();
            all.insert(root.clone());
            let add = |all: &mut HashSet<Vec<u8>>, id: &Vec<u8>| -> Result<(), String> {
                ctx.count("evaluations", 1);
                if !all.insert(id.clone()) {
                    return Err(format!("identifier {id:?} occurs twice in the tree {a}/{b}/{c}"));
                }
                Ok(())
            };
            let l1 = children(&root, a, a)?;
            for x in &l1 {
                add(&mut all, x)?;
            }
            for (i, x) in pick(&l1, few) {
                let n2 = if i % 2 == 0 { b } else { c };
                let l2 = children(x, n2, n2)?;
                for y in &l2 {
                    add(&mut all, y)?;
                }
                for (j, y) in pick(&l2, few) {
                    let n3 = if (i + j) % 2 == 0 { c } else { b };
                    for z in children(y, n3, n3)? {
                        add(&mut all, &z)?;
                    }
                }
            }
        }
        ctx.distinct(format!("tree{a}/{b}/{c}").as_bytes());
        Ok(())
    });
    // Deep nesting stays within what the network carries.
    ctx.case("deep", || {
        for num in [2u64, 255, 256, 65535, 65536, 1 << 24] {
            let mut id = b"garble_benchmark".to_vec();
            for _ in 0..8 {
                id = children(&id, num, 2)?.pop().unwrap_or_default();
                ctx.count("evaluations", 2);
            }
            ctx.distinct(format!("deep{num}").as_bytes());
        }
        Ok(())
    });
    // Sibling sets: a complete small tree where every node is expanded.
    ctx.case("full-tree", || {
        for n in 1..=5u64 {
            let mut all = HashSet::new();
            let mut level = vec![vec![9u8]];
            all.insert(vec![9u8]);
            for _ in 0..4 {
                let mut nextl = vec![];
                for p in &level {
                    for x in children(p, n, n)? {
                        ctx.count("evaluations", 1);
                        if !all.insert(x.clone()) {
                            return Err(format!("identifier {x:?} occurs twice"));
                        }
                        nextl.push(x);
                    }
                }
                level = nextl;
            }
            ctx.distinct(format!("full{n}").as_bytes());
        }
        Ok(())
    });
}

fn pick(v: &[Vec<u8>], k: usize) -> Vec<(usize, &Vec<u8>)> {
    let n = v.len();
    let mut idx: Vec<usize> = (0..n.min(k - 1)).collect();
    if n > 0 && !idx.contains(&(n - 1)) {
        idx.push(n - 1);
    }
    idx.into_iter().map(|i| (i, &v[i])).collect()
}

fn main() {
    mc::main(Spec {
        id: "C19",
        level: "exploration",
        rule: "identifiers generated, per child count and per tree shape; every count and shape is distinct and has at least one child",
        run,
    })
}
