//! C32: the launcher starts every party once.
use mc::*;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const NOBODY: u32 = 65534;

/// Stands in for a program: notes its arguments, writes to both outputs, optionally takes a while.
const PROG: &str = r#"#!/bin/bash
id=none; prev=
for a in "$@"; do [ "$prev" = --id ] && id=$a; prev=$a; done
case $SLOW in "$id"|all) sleep 0.3;; esac
printf '%s\n' "$@" > "$NOTES/$id.$$.part"
echo "out $id"
echo "err $id" >&2
mv "$NOTES/$id.$$.part" "$NOTES/$id.$$.done"
"#;

fn is_root() -> bool {
    std::fs::metadata("/proc/self").map(|m| std::os::unix::fs::MetadataExt::uid(&m) == 0).unwrap_or(false)
}

/// A directory below `at` in which the launcher can be run.
fn usable(at: &Path) -> Option<std::path::PathBuf> {
    let root = at.join(format!("mc-C32-{}", std::process::id()));
    std::fs::create_dir_all(&root).ok()?;
    std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o755)).ok()?;
    let mut c = Command::new("bash");
    c.args(["-c", "cd .. && cd - > /dev/null && cat /dev/null"]).current_dir(&root).stdout(Stdio::null()).stderr(Stdio::null());
    if is_root() {
        c.uid(NOBODY).gid(NOBODY);
    }
    if c.status().map(|s| s.success()).unwrap_or(false) {
        return Some(root);
    }
    let _ = std::fs::remove_dir_all(&root);
    None
}

/// Everybody's arguments and what landed in the log files, as an unprivileged user in a directory
/// of its own.
fn launch(dir: &Path, n: usize, args: &[&str], slow: &str) -> Result<(), String> {
    let _ = std::fs::remove_dir_all(dir);
    for d in ["data/tmp", "notes"] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    std::fs::copy("/repo/run.sh", dir.join("run.sh")).unwrap();
    std::fs::write(dir.join("prog"), PROG).unwrap();
    for f in ["run.sh", "prog"] {
        std::fs::set_permissions(dir.join(f), std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    let mut c = Command::new("bash");
    c.arg("./run.sh").arg("./prog").arg(n.to_string()).args(args).current_dir(dir).env_clear();
    c.env("PATH", "/usr/local/bin:/usr/bin:/bin").env("NOTES", dir.join("notes")).env("SLOW", slow);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    if is_root() {
        for d in [".", "data", "data/tmp", "notes"] {
            std::os::unix::fs::chown(dir.join(d), Some(NOBODY), Some(NOBODY)).unwrap();
        }
        c.uid(NOBODY).gid(NOBODY);
    }
    c.process_group(0);
    let child = c.spawn().map_err(|e| panic!("launcher cannot be run: {e}")).unwrap();
    let group = child.id();
    let out = child.wait_with_output().unwrap();
    let shown = String::from_utf8_lossy(&out.stdout).to_string();
    // Parties may take longer than party 0.
    let list = || std::fs::read_dir(dir.join("notes")).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect::<Vec<_>>();
    let begin = Instant::now();
    let mut quiet = Instant::now();
    let mut last = list();
    while begin.elapsed() < Duration::from_secs(20) {
        std::thread::sleep(Duration::from_millis(10));
        let now = list();
        if now != last {
            last = now;
            quiet = Instant::now();
        }
        let done = last.iter().filter(|f| f.ends_with(".done")).count();
        if done >= n && done == last.len() && quiet.elapsed() > Duration::from_millis(40) {
            break;
        }
    }
    let _ = Command::new("kill").args(["-9", "--", &format!("-{group}")]).stderr(Stdio::null()).status();
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for f in &last {
        let id = f.split('.').next().unwrap().to_string();
        *seen.entry(id.clone()).or_insert(0) += 1;
        let got: Vec<String> = std::fs::read_to_string(dir.join("notes").join(f)).unwrap_or_default().lines().map(|x| x.to_string()).collect();
        // The identity once, everything else as given and in order.
        let k = got.iter().position(|x| x == "--id").ok_or(format!("a party is started without identity: {got:?}"))?;
        let rest: Vec<&String> = got.iter().enumerate().filter(|(i, _)| *i != k && *i != k + 1).map(|x| x.1).collect();
        if rest != args.iter().map(|x| x.to_string()).collect::<Vec<_>>().iter().collect::<Vec<_>>() {
            return Err(format!("{n} parties, arguments {args:?}: party {id} is started with {got:?}"));
        }
    }
    let want: BTreeMap<String, usize> = (0..n).map(|i| (i.to_string(), 1)).collect();
    if seen != want {
        return Err(format!("{n} parties: number of starts by party {seen:?}"));
    }
    if !shown.contains("out 0\n") || (1..n).any(|i| shown.contains(&format!("out {i}\n"))) {
        return Err(format!("{n} parties: the launcher shows {shown:?}"));
    }
    for i in 0..n {
        let log = std::fs::read_to_string(dir.join(format!("data/tmp/party_{i}.txt"))).map_err(|e| format!("{n} parties: log of party {i}: {e}"))?;
        let own = log.contains(&format!("out {i}\n")) && (i == 0 || log.contains(&format!("err {i}\n")));
        if !own || log.lines().any(|l| l != format!("out {i}") && l != format!("err {i}")) {
            return Err(format!("{n} parties: log of party {i} holds {log:?}"));
        }
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let Some(root) = [std::env::temp_dir(), "/tmp".into(), "/var/tmp".into()].into_iter().find_map(|d| usable(&d)) else {
        return ctx.error("no directory in which an unprivileged user can work");
    };
    let lists: [&[&str]; 4] = [&[], &["--reps", "3"], &["-a", "1", "-b", "2", "--save", "data/out/x.json", "c.txt", "net.txt"], &["a", "a", "b", "a"]];
    let mut items = vec![];
    for n in 1..=ctx.pick(17usize, 40) {
        for (k, a) in lists.iter().enumerate() {
            for slow in ["none", "0", "1", "all"] {
                if slow == "none" || n <= 4 {
                    items.push((n, k, *a, slow));
                }
            }
        }
    }
    items.push((ctx.pick(100, 300), 1, lists[1], "none"));
    ctx.par_cases(&items, |x| format!("launch:{}:{}:{}", x.0, x.1, x.3), |&(n, k, a, slow)| {
        let r = launch(&root.join(format!("{n}-{k}-{slow}")), n, a, slow);
        ctx.count("evaluations", 1);
        ctx.distinct(format!("{n} {k} {slow}").as_bytes());
        if n == 5 {
            ctx.sample(format!("{n} parties with arguments {a:?}"));
        }
        r
    });
    let _ = std::fs::remove_dir_all(&root);
}

fn main() {
    mc::main(Spec { id: "C32", level: "exploration", rule: "one evaluation per start of the launcher with a number of parties, a list of arguments and slow parties", run })
}
