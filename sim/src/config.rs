//! C19: the same runs by two builds of the library (optional feature on and off), and runs of a program
//! without the standard library (crate `nostd`) against the same program on top of it.
use crate::*;

/// The build without the optional feature.
fn peer() -> std::path::PathBuf {
    match std::env::var("SIM_PEER") {
        Ok(p) => p.into(),
        Err(_) => exe().parent().and_then(|p| p.parent()).map(|p| p.join("plain/treesim")).unwrap_or_else(|| die("no peer")),
    }
}

struct Side {
    exe: std::path::PathBuf,
    args: Vec<String>,
    dump: Option<String>,
    relay: bool,
    child: Option<(std::process::Child, BufReader<std::process::ChildStdout>)>,
    sum: Option<WorkerSum>,
}
impl Side {
    /// The outcome of run `k` of this worker.
    fn outcome(&mut self, base: u64, start: u64, step: u64, count: u64, k: u64) -> String {
        if self.child.is_none() {
            let mut a = vec!["worker".to_string(), "C19".into(), base.to_string(), (start + k * step).to_string(), step.to_string(), (count - k).to_string(), "1024".into()];
            a.extend(self.dump.clone());
            self.args = a;
            let mut c = Command::new(&self.exe)
                .args(&self.args)
                .env("SIM_STREAM", "1")
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| die(&format!("{}: {e}", self.exe.display())));
            let o = c.stdout.take().unwrap();
            self.child = Some((c, BufReader::new(o)));
        }
        let mut line = String::new();
        loop {
            line.clear();
            let rd = &mut self.child.as_mut().unwrap().1;
            if rd.read_line(&mut line).unwrap_or(0) == 0 {
                let (mut c, _) = self.child.take().unwrap();
                let _ = c.wait();
                return "died".into();
            }
            if let Some(r) = line.strip_prefix("R ") {
                return r.trim_end().to_string();
            }
            if line.starts_with("S ") && self.relay {
                let _ = std::io::stdout().lock().write_all(line.as_bytes());
            }
        }
    }
    fn finish(&mut self) {
        if let Some((mut c, rd)) = self.child.take() {
            for l in rd.lines().map_while(Result::ok) {
                if let Some(e) = l.strip_prefix("E ") {
                    self.sum = serde_json::from_str(e).ok();
                }
            }
            let _ = c.wait();
        }
    }
}
fn differs(a: &str, b: &str) -> Option<Found> {
    if a == b {
        return None;
    }
    let what = if a == "died" || b == "died" { "death" } else { "event-log" };
    Some(Found { index: 0, sig: format!("config-differs/{what}"), msg: format!("feature on: {a}; feature off: {b}") })
}
pub fn pair_worker(base: u64, start: u64, step: u64, count: u64, batch: u64, dump: Option<&str>) {
    let out = std::io::stdout();
    let side = |exe, relay, dump: Option<&str>| Side { exe, args: vec![], relay, dump: dump.map(|s| s.into()), child: None, sum: None };
    let (mut a, mut b) = (side(exe(), true, dump), side(peer(), false, None));
    let mut found = 0;
    for k in 0..count {
        if k % batch == 0 {
            let mut o = out.lock();
            let _ = writeln!(o, "B {k}");
            let _ = o.flush();
        }
        let x = a.outcome(base, start, step, count, k);
        let y = b.outcome(base, start, step, count, k);
        if let Some(mut f) = differs(&x, &y) {
            f.index = start + k * step;
            found += 1;
            if found < 10 {
                let _ = writeln!(out.lock(), "V {}", serde_json::to_string(&f).unwrap());
            }
        }
    }
    a.finish();
    b.finish();
    let s = a.sum.unwrap_or_default();
    let _ = writeln!(out.lock(), "E {}", serde_json::to_string(&s).unwrap());
}
/// One plan by both builds, in fresh processes.
pub fn exec_pair(path: &str) -> i32 {
    let go = |exe: std::path::PathBuf| {
        let mut c = Command::new(exe).args(["exec", path, ""]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| die(&format!("{e}")));
        let mut o = c.stdout.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = std::io::Read::read_to_string(&mut o, &mut s);
            s
        });
        let t0 = Instant::now();
        loop {
            match c.try_wait() {
                Ok(Some(_)) => break,
                _ if t0.elapsed() > Duration::from_secs(25) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    let _ = rd.join();
                    return "died".to_string();
                }
                _ => std::thread::sleep(Duration::from_millis(1)),
            }
        }
        let s = rd.join().unwrap_or_default();
        // the event log and the violations found on the way
        if s.lines().any(|l| l.starts_with("H ")) {
            s.lines().map(|l| l.split("\",\"").next().unwrap_or(l).to_string()).collect::<Vec<_>>().join("; ")
        } else {
            "died".into()
        }
    };
    let (a, b) = (go(exe()), go(peer()));
    if let Some(f) = differs(&a, &b) {
        println!("I {}", serde_json::to_string(&(true, ["C19"], &f.sig, &f.msg)).unwrap());
    }
    println!("H {:016x}", a.bytes().fold(0, |h, b| h64(h, b as u64)));
    (a != b) as i32
}

// ------------------------------------------------------------------ without std
/// Builds one variant of the bare program.
fn build_bare(variant: &str) -> Result<String, String> {
    let root = exe().parent().and_then(|p| p.parent()).and_then(|p| p.parent()).and_then(|p| p.parent()).map(|p| p.to_path_buf()).unwrap_or_else(|| die("where am I"));
    let (dir, target) = (root.join("nostd"), root.join(format!("sim/target/nostd-{variant}")));
    let cargo = |args: &[&str]| {
        Command::new("cargo")
            .args(args)
            .arg("--target-dir")
            .arg(&target)
            .current_dir(&dir)
            .env("RUSTUP_TOOLCHAIN", "stable")
            .env("CARGO_NET_OFFLINE", "true")
            .env_remove("RUSTFLAGS")
            .output()
            .unwrap_or_else(|e| die(&format!("cargo: {e}")))
    };
    // modification times of a copied tree can mislead cargo
    let _ = cargo(&["clean", "--offline", "--release", "-p", "tree_iterators_rs"]);
    let mut a = vec!["build", "--offline", "--release"];
    if variant != "bare" {
        a.extend(["--features", variant]);
    }
    let o = cargo(&a);
    if o.status.success() {
        return Ok(target.join("release/nostdsim").display().to_string());
    }
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    match e.lines().find(|l| l.starts_with("error[E") || l.contains("linking with")) {
        Some(_) => {
            let from = e.lines().position(|l| l.starts_with("error")).unwrap_or(0);
            let lines: Vec<&str> = e.lines().skip(from).filter(|l| l.starts_with("error") || l.contains("= note: the lang item")).take(3).map(|l| l.trim()).collect();
            Err(lines.join("; "))
        }
        None => die(&format!("cargo could not build the bare program: {}", e.lines().last().unwrap_or(""))),
    }
}
fn digests(bin: &str, base: u64, from: u64, n: u64) -> Vec<String> {
    let mut c = Command::new(bin)
        .args([base.to_string(), from.to_string(), n.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| die(&format!("{bin}: {e}")));
    let mut o = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut o, &mut s);
        s
    });
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(_)) => break,
            _ if t0.elapsed() > Duration::from_secs(120) => {
                let _ = c.kill();
                let _ = c.wait();
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
    rd.join().unwrap_or_default().lines().filter(|l| l.starts_with("H ")).map(|l| l.to_string()).collect()
}
/// The first run whose outcome is not the same, and how.
fn compare(a: &str, b: &str, base: u64, n: u64) -> (u64, Option<Found>) {
    let parts = 8;
    let hs: Vec<_> = (0..parts)
        .map(|k| {
            let (a, b, m) = (a.to_string(), b.to_string(), n / parts);
            std::thread::spawn(move || (k * m, m, digests(&a, base, k * m, m), digests(&b, base, k * m, m)))
        })
        .collect();
    let mut runs = 0;
    let mut first = None;
    for h in hs {
        let (from, m, x, y) = h.join().unwrap();
        runs += x.len() as u64;
        for i in 0..m as usize {
            let (p, q) = (x.get(i).map_or("died", |s| s), y.get(i).map_or("died", |s| s));
            if p != q && first.is_none() {
                first = Some(Found { index: from + i as u64, sig: "bare-run".into(), msg: format!("run {}: without std: {p}; with std: {q}", from + i as u64) });
            }
            if p == "died" {
                break;
            }
        }
    }
    (runs, first)
}
/// Builds and runs; what was done, and what differs.
pub fn bare(base: u64, thorough: bool) -> (serde_json::Value, Vec<Found>) {
    let mut v = Vec::new();
    if let Ok(which) = std::env::var("SIM_BUILD_FAILED") {
        let f = Found { index: 0, sig: format!("bare-build/{which}"), msg: format!("the library builds in one configuration but not with the {which}") };
        return (serde_json::Value::Null, vec![f]);
    }
    let fail = |variant: &str, e: String| Found { index: 0, sig: format!("bare-build/{variant}"), msg: format!("a program without the standard library cannot be built: {e}") };
    let with_std = build_bare("std").unwrap_or_else(|e| die(&format!("the bare program does not build on top of std either: {e}")));
    let n: u64 = if thorough { 8_000_000 } else { 800_000 };
    let mut runs = 0;
    match build_bare("bare") {
        Err(e) => v.push(fail("plain", e)),
        Ok(b) => {
            let (r, f) = compare(&b, &with_std, base, n);
            runs = r;
            v.extend(f);
        }
    }
    match build_bare("serde") {
        Err(e) => v.push(fail("serde", e)),
        Ok(b) => {
            let (r, f) = compare(&b, &with_std, base, n / 8);
            runs += r;
            v.extend(f);
        }
    }
    let j = serde_json::json!({"runs_without_std": runs, "real": "tree_iterators_rs, core, alloc", "stub": "allocator (arena), panic handler, two libc calls for output"});
    (j, v)
}
pub fn bare_again(sig: &str, base: u64, index: u64) -> Option<String> {
    match sig {
        "bare-run" => {
            let (a, b) = (build_bare("bare").ok()?, build_bare("std").ok()?);
            let (x, y) = (digests(&a, base, index, 1), digests(&b, base, index, 1));
            (x != y).then(|| format!("got: without std {x:?}, with std {y:?}"))
        }
        "bare-build/feature-on" | "bare-build/feature-off" => {
            let root = exe().parent().and_then(|p| p.parent()).and_then(|p| p.parent()).and_then(|p| p.parent()).map(|p| p.to_path_buf()).unwrap_or_else(|| die("where am I"));
            let o = Command::new(root.join("build.sh")).arg(if sig.ends_with("on") { "release" } else { "plain" }).output().unwrap_or_else(|e| die(&format!("{e}")));
            (!o.status.success()).then(|| String::from_utf8_lossy(&o.stdout).lines().take(5).collect::<Vec<_>>().join("; "))
        }
        _ => build_bare(if sig.ends_with("serde") { "serde" } else { "bare" }).err(),
    }
}
