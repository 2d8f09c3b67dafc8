//! Runs the repository's Python scripts, with stand-ins for the libraries they import.
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
pub struct Answer {
    /// 0 is a normal end, 2 an exception; none when the script did not come back.
    pub exit: Option<i32>,
    pub lines: Vec<String>,
}

impl Answer {
    pub fn last(&self) -> &str {
        self.lines.last().map(|x| x.as_str()).unwrap_or("")
    }
}

/// One run per argument list, in order.
pub fn run(script: &str, args: &[String]) -> Vec<Answer> {
    let per = args.len().div_ceil(crate::threads()).max(1);
    let parts: Vec<&[String]> = args.chunks(per).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = parts.iter().map(|c| s.spawn(move || one(script, c))).collect();
        hs.into_iter().flat_map(|h| h.join().expect("script runner")).collect()
    })
}

fn one(script: &str, args: &[String]) -> Vec<Answer> {
    let root = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let mut k = Command::new("timeout")
        .args(["-k", "5", "150", "python3", "-S"])
        .arg(root.join("tools/scripts.py"))
        .arg(format!("/repo/scripts/{script}"))
        .env("PYTHONPATH", root.join("standins"))
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("PYTHONHASHSEED", "0")
        .current_dir(crate::scratch())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python3");
    let mut si = k.stdin.take().unwrap();
    let text = args.join("\n") + "\n";
    let feeder = std::thread::spawn(move || {
        let _ = si.write_all(text.as_bytes());
    });
    let out = k.wait_with_output().expect("python3");
    let _ = feeder.join();
    let all = String::from_utf8_lossy(&out.stdout).to_string();
    let mut it = all.lines();
    let mut v = vec![];
    while let Some(h) = it.next() {
        let mut w = h.split(' ').skip(1).map(|x| x.parse::<i32>().expect("answer of scripts.py"));
        let (e, n) = (w.next().expect("answer"), w.next().expect("answer"));
        let lines: Vec<String> = it.by_ref().take(n as usize).map(|x| x.to_string()).collect();
        v.push(Answer { exit: Some(e), lines });
    }
    while v.len() < args.len() {
        v.push(Answer { exit: None, lines: vec!["does not come back".into()] });
    }
    v
}
