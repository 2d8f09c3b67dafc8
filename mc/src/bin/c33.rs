//! C33: generator of the binary extraction matrices.
use mc::*;
use scalable_mpc::math::binary_super_inv_matrix;
use std::collections::BTreeMap;

/// What the script says about its matrix: inputs and tolerated corruptions; none if it finds none.
fn said(a: &pyscript::Answer) -> Result<Option<(usize, usize)>, String> {
    if a.exit != Some(0) {
        return Err(format!("fails: {}", a.last()));
    }
    let num = |label: &str| a.lines.iter().find_map(|l| l.strip_prefix(label)).and_then(|x| x.trim().parse::<usize>().ok());
    match (num("Number of parties:"), num("Maximum number of corruptions:")) {
        (Some(n), Some(t)) => Ok(Some((n, t))),
        (None, None) => Ok(None),
        _ => Err(format!("prints {:?}", a.lines)),
    }
}

fn run(ctx: &Ctx) {
    let mut req: Vec<(usize, usize)> = vec![];
    for n in 1..=ctx.pick(540usize, 1100) {
        for r in 2..=ctx.pick(10usize, 30) {
            req.push((n, r));
        }
    }
    // What is announced, for all requests; requests with the same answer share the matrix.
    let mut groups: BTreeMap<Vec<String>, (usize, usize)> = BTreeMap::new();
    let args: Vec<String> = req.iter().map(|(n, r)| format!("{n} {r}")).collect();
    let v = pyscript::run("gen_binary_supmat.py", &args);
    for (&(n, r), a) in req.iter().zip(&v) {
        ctx.case(&format!("announced:{n}:{r}"), || {
            ctx.count("evaluations", 1);
            ctx.count("requests", 1);
            match said(a).map_err(|e| format!("{n} parties, ratio {r}: {e}"))? {
                None => ctx.count("requests_without_construction", 1),
                Some((m, _)) if m < n => return Err(format!("{n} parties, ratio {r}: a matrix for {m} parties only")),
                Some((m, t)) if (t + 1) * r < m => return Err(format!("{n} parties, ratio {r}: {m} parties, only {t} of them corrupted")),
                _ => {}
            }
            Ok(())
        });
        if let Ok(Some(_)) = said(a) {
            groups.entry(a.lines.clone()).or_insert((n, r));
        }
    }
    ctx.case("announced", || if groups.is_empty() { Err("no request gives a matrix".into()) } else { Ok(()) });
    let dir = scratch().join("matrices");
    let gs: Vec<(usize, usize)> = groups.values().cloned().collect();
    let mut made: Vec<Option<(String, Vec<Vec<u8>>, usize)>> = vec![];
    let dirs: Vec<_> = gs.iter().map(|(n, r)| dir.join(format!("{n}-{r}"))).collect();
    for d in &dirs {
        std::fs::create_dir_all(d).expect("scratch");
    }
    let answers = pyscript::run("gen_binary_supmat.py", &gs.iter().zip(&dirs).map(|((n, r), d)| format!("{n} {r} --output_path {}", d.display())).collect::<Vec<_>>());
    for (((n, r), d), a) in gs.iter().zip(&dirs).zip(&answers) {
        let mut got = None;
        ctx.case(&format!("made:{n}:{r}"), || {
            let (m, t) = said(a).map_err(|e| format!("{n} parties, ratio {r}: {e}"))?.ok_or("no construction when a file is asked for")?;
            let fs: Vec<_> = std::fs::read_dir(d).expect("scratch").map(|x| x.unwrap().path()).collect();
            if fs.len() != 1 {
                return Err(format!("{n} parties, ratio {r}: {} files written", fs.len()));
            }
            let name = fs[0].file_name().unwrap().to_string_lossy().to_string();
            if name != format!("n{m}_t{t}.txt") {
                return Err(format!("{n} parties, ratio {r}: announces {m} parties and {t} corruptions, writes {name}"));
            }
            let text = std::fs::read_to_string(&fs[0]).expect("scratch");
            let rows: Vec<Vec<u8>> = text
                .lines()
                .map(|l| l.split_ascii_whitespace().map(|x| x.parse::<u8>().ok().filter(|b| *b < 2).ok_or(format!("{name}: entry {x}"))).collect())
                .collect::<Result<_, _>>()?;
            let k = rows.first().map(|x| x.len()).unwrap_or(0);
            if rows.len() != m || k == 0 || rows.iter().any(|x| x.len() != k) {
                return Err(format!("{name}: {} lines, the first of {k} entries", rows.len()));
            }
            // The reader takes it as it was meant.
            let b = binary_super_inv_matrix::<18>(&fs[0]);
            if b.shape() != [k, m] || (0..k).any(|i| (0..m).any(|j| u32::from(b[[i, j]]) != rows[j][i] as u32)) {
                return Err(format!("{name} loads as another matrix of shape {:?}", b.shape()));
            }
            ctx.count("matrices", 1);
            ctx.sample(format!("{n} parties, ratio {r}: {name}, {k} outputs"));
            got = Some((name, rows, t));
            Ok(())
        });
        made.push(got);
    }
    // The documented request gives the matrix that is shipped for it; others that are shipped are
    // counted where they come out the same.
    let file = |name: &str| -> Option<Vec<Vec<u8>>> {
        let s = std::fs::read_to_string(format!("/repo/data/binsup_mat/{name}")).ok()?;
        Some(s.lines().map(|l| l.split_ascii_whitespace().map(|x| x.parse().unwrap_or(9)).collect()).collect())
    };
    for (name, rows, _) in made.iter().flatten() {
        ctx.count("shipped_files_reproduced", (file(name).as_ref() == Some(rows)) as u64);
    }
    ctx.case("documented", || {
        let d = dir.join("documented");
        std::fs::create_dir_all(&d).expect("scratch");
        let a = pyscript::run("gen_binary_supmat.py", &[format!("16 3 --output_path {}", d.display())]);
        let got = said(&a[0])?;
        if got != Some((16, 5)) {
            return Err(format!("16 parties, ratio 3: announces {got:?}"));
        }
        let text = std::fs::read_to_string(d.join("n16_t5.txt")).unwrap_or_default();
        let new: Vec<Vec<u8>> = text.lines().map(|l| l.split_ascii_whitespace().map(|x| x.parse().unwrap_or(9)).collect()).collect();
        if file("n16_t5.txt").is_some_and(|old| old != new) {
            return Err("16 parties, ratio 3: another matrix than the one shipped".into());
        }
        ctx.count("evaluations", 1);
        Ok(())
    });
    for ((n, r), g) in gs.iter().zip(&made) {
        let Some((_, rows, t)) = g else { continue };
        if ctx.out_of_time() {
            ctx.not_exhaustive("time");
            break;
        }
        let k = rows[0].len();
        let deep = if k > 128 { 2 } else { ctx.pick(3, 4) };
        code::weights(ctx, &format!("made:{n}:{r}"), rows, *t, ctx.pick(20, 24), ctx.pick(20_000, 20_000_000), deep);
    }
    ctx.assume("numpy and galois are stood in for by small modules; run on the parameters of the shipped files they give the same files");
}

fn main() {
    mc::main(Spec {
        id: "C33",
        level: "exploration",
        rule: "one request answered by the script; one combination of outputs of a matrix it writes; combinations of more than one output counted as distinct",
        run,
    })
}
