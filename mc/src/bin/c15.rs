//! C15: extraction matrices.
use mc::*;
use scalable_mpc::math::{binary_super_inv_matrix, galois::GF, super_inv_matrix};
use std::path::PathBuf;

fn small<const W: u8>(ctx: &Ctx) {
    GF::<W>::init().unwrap();
    let rf = Rf::of::<W>();
    let nmax = ctx.pick(9, 12).min((1usize << W) - 1);
    let mut cs = vec![];
    for n in 1..=nmax {
        for t in 0..n {
            cs.push((n, t));
        }
    }
    ctx.par_cases(&cs, |(n, t)| format!("subsets:{W}:{n}:{t}"), |&(n, t)| {
        let k = n - t;
        let m = super_inv_matrix::<W>(n, k);
        if m.shape() != [k, n] {
            return Err(format!("matrix for {n} inputs, {k} outputs has shape {:?}", m.shape()));
        }
        let cols: Vec<Vec<u32>> = (0..n).map(|j| (0..k).map(|i| u32::from(m[[i, j]])).collect()).collect();
        for s in subsets(n, k) {
            let rows: Vec<Vec<u32>> = s.iter().map(|j| cols[*j].clone()).collect();
            if lin::rank(&rf, &rows) != k {
                return Err(format!("width {W}, n={n}, t={t}: inputs {s:?} alone do not determine the outputs"));
            }
            ctx.count("evaluations", 1);
            ctx.distinct_add((k > 1) as u64);
        }
        Ok(())
    });
}

/// A matrix whose column j is (c x, c x^2, ...) with distinct non-zero x is full rank on all
/// column subsets; used only where subsets are too many.
fn large(ctx: &Ctx) {
    GF::<18>::init().unwrap();
    let rf = Rf::of::<18>();
    let cs: Vec<(usize, usize)> = vec![(16, 5), (32, 10), (64, 21), (128, 31), (256, 43), (256, 89), (300, 20), (512, 131), (600, 3)];
    ctx.par_cases(&cs, |(n, t)| format!("large:{n}:{t}"), |&(n, t)| {
        let k = n - t;
        let m = super_inv_matrix::<18>(n, k);
        if m.shape() != [k, n] {
            return Err(format!("matrix for {n} inputs, {k} outputs has shape {:?}", m.shape()));
        }
        let mut xs = std::collections::HashSet::new();
        let mut geometric = true;
        'c: for j in 0..n {
            let a = u32::from(m[[0, j]]);
            if a == 0 {
                geometric = false;
                break;
            }
            let x = if k > 1 { rf.div(u32::from(m[[1, j]]), a) } else { a };
            if x == 0 || !xs.insert(x) {
                geometric = false;
                break;
            }
            for i in 1..k {
                if u32::from(m[[i, j]]) != rf.mul(u32::from(m[[i - 1, j]]), x) {
                    geometric = false;
                    break 'c;
                }
            }
        }
        if !geometric {
            // Fall back on windows of consecutive columns (necessary condition).
            let cols: Vec<Vec<u32>> = (0..n).map(|j| (0..k).map(|i| u32::from(m[[i, j]])).collect()).collect();
            for off in 0..n {
                let rows: Vec<Vec<u32>> = (0..k).map(|j| cols[(off + j) % n].clone()).collect();
                if lin::rank(&rf, &rows) != k {
                    return Err(format!("n={n}, t={t}: inputs {off}.. alone do not determine the outputs"));
                }
            }
            ctx.not_exhaustive("a large matrix without geometric columns: only windows of columns tried");
        }
        ctx.count("evaluations", (k * n) as u64);
        ctx.distinct(format!("large{n}/{t}").as_bytes());
        Ok(())
    });
}

fn shipped(ctx: &Ctx) {
    let dir = PathBuf::from("/repo/data/binsup_mat");
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.filter_map(|x| x.ok()).map(|x| x.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let name = f.file_stem().unwrap().to_string_lossy().to_string();
        let Some((n, t)) = name.strip_prefix('n').and_then(|s| s.split_once("_t")).and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?))) else { continue };
        let text = std::fs::read_to_string(&f).unwrap();
        let rows: Vec<Vec<u8>> = text.lines().map(|l| l.split_ascii_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
        let k = rows[0].len();
        ctx.case(&format!("file:{name}:entries"), || {
            let m = binary_super_inv_matrix::<18>(&f);
            if m.shape() != [k, n] {
                return Err(format!("{name} loads as {:?}, expected {k} outputs of {n} inputs", m.shape()));
            }
            for i in 0..k {
                for j in 0..n {
                    if u32::from(m[[i, j]]) != rows[j][i] as u32 {
                        return Err(format!("{name}: entry for output {i}, input {j} is {}", u32::from(m[[i, j]])));
                    }
                }
            }
            ctx.count("evaluations", (k * n) as u64);
            ctx.distinct(name.as_bytes());
            Ok(())
        });
        code::weights(ctx, &format!("file:{name}"), &rows, t, ctx.pick(14, 24), ctx.pick(20_000u64, 200_000_000), ctx.pick(3, 5));
        ctx.sample(format!("{name}: {k} outputs"));
    }
    // The reader on small files: every matrix of these shapes.
    let dir = scratch();
    ctx.case("reader", || {
        for (n, k) in [(1usize, 1usize), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3)] {
            for m in 0u32..1 << (n * k) {
                let mut s = String::new();
                for i in 0..n {
                    let row: Vec<String> = (0..k).map(|j| (m >> (i * k + j) & 1).to_string()).collect();
                    s.push_str(&row.join(" "));
                    s.push('\n');
                }
                let p = dir.join("m.txt");
                std::fs::write(&p, &s).unwrap();
                let a = binary_super_inv_matrix::<3>(&p);
                if a.shape() != [k, n] {
                    return Err(format!("a file of {n} lines with {k} entries loads as {:?}", a.shape()));
                }
                for i in 0..n {
                    for j in 0..k {
                        if u32::from(a[[j, i]]) != m >> (i * k + j) & 1 {
                            return Err(format!("file {s:?}: line {i}, entry {j} is misread"));
                        }
                    }
                }
                ctx.count("evaluations", 1);
                ctx.distinct_add(1);
            }
        }
        Ok(())
    });
}

fn run(ctx: &Ctx) {
    widths!(small, ctx, [2, 3, 4, 5, 8, 18]);
    large(ctx);
    shipped(ctx);
}

fn main() {
    mc::main(Spec {
        id: "C15",
        level: "exploration",
        rule: "input subsets (rank), combinations of outputs (weight), matrix files read; each subset of more than one input and each combination of more than one output once",
        run,
    })
}
