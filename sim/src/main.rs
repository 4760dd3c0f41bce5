//! Deterministic simulator for tree_iterators_rs: supervisor, workers, replay, minimisation.
#![allow(static_mut_refs, dangerous_implicit_autorefs, clippy::all)]
mod drv;
mod exec;
mod gen;
mod kinds;
mod make;
mod model;
mod nodes;
mod pipe;
mod config;
mod plan;
mod special;
mod world;
use exec::{Probes, RunOut};
use plan::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use world::*;

#[global_allocator]
static A: SimAlloc = SimAlloc;

/// Stack space any seam may see below the public entry point of the library, whatever the depth
/// of the tree (deep runs only).
const STACK_LIMIT: usize = 24 << 10;

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = base ^ 0x5EED;
    for b in prop.bytes() {
        h = h64(h, b as u64);
    }
    h64(h, i)
}
fn run_plan(p: &Plan) -> RunOut {
    let mut o = exec::run(p);
    if p.forests.iter().any(|f| f.deep.is_some()) && o.stack_max > STACK_LIMIT {
        o.issues.push(Issue { tags: vec!["C15".into()], sig: "deep-stack".into(), msg: format!("{} bytes of stack in use below a library call on a deep tree", o.stack_max) });
    }
    o
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerSum {
    runs: u64,
    nontrivial: u64,
    ticks: u64,
    fired: [u64; NSITE],
    hits: [u64; NSITE],
    faulted_runs: u64,
    preempt_runs: u64,
    special_runs: u64,
    multi_task_runs: u64,
    max_stack: usize,
    probes: Probes,
    digest: u64,
    issues_other: BTreeMap<String, u64>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Found {
    index: u64,
    sig: String,
    msg: String,
}
fn cfg_keys(p: &Plan, out: &mut HashSet<String>) {
    for t in &p.tasks {
        let f = &p.forests[t.tree % p.forests.len()];
        let src = match t.src {
            Src::One => "one",
            Src::Vec => "vec",
            Src::Arr => "array",
            Src::Hook(_) => "source",
        };
        let k = match &t.kind {
            TKind::Trav { order } => {
                let conv: Vec<&str> = p
                    .ops
                    .iter()
                    .filter(|o| std::ptr::eq(&p.tasks[o.t % p.tasks.len()], t))
                    .filter_map(|o| match o.k {
                        OpK::Leaves => Some("leaves"),
                        OpK::Ctx => Some("ctx"),
                        OpK::Anc => Some("anc"),
                        _ => None,
                    })
                    .collect();
                format!("{order:?}>{}", conv.join(">"))
            }
            TKind::Pipe { stages, term, .. } => {
                let s: Vec<&str> = stages
                    .iter()
                    .map(|s| match s {
                        Stage::Map(_) => "m",
                        Stage::MapPath(_) => "M",
                        Stage::Prune(..) => "p",
                        Stage::PrunePath(..) => "P",
                        Stage::Depth(_) => "d",
                    })
                    .collect();
                let t = match term {
                    Term::Collect => "collect",
                    Term::Fold => "fold",
                    Term::FoldPath => "foldpath",
                    Term::Step => "step",
                    Term::StepPrune(_) => "stepprune",
                };
                format!("pipe:{}>{t}", s.concat())
            }
        };
        out.insert(format!("{:?}/{:?}/{src}/{k}", f.repr, t.own));
    }
    if let Some(s) = &p.special {
        let k = match s {
            Special::Serde { tree, fmt, cut, drop_field, .. } => format!("serde/{:?}/{fmt}/{}/{}", tree.repr, cut.is_some(), drop_field.is_some()),
            Special::Lazy { bin, coll, own, mode, order, .. } => format!("lazy/{bin}/{coll}/{own:?}/{mode}/{order:?}"),
            Special::Kinds { tree, val, own, order, mode, .. } => format!("kinds/{:?}/{val}/{own:?}/{order:?}/{mode}", tree.repr),
            Special::Clone { tree, edit, .. } => format!("clone/{:?}/{}", tree.repr, edit.1),
        };
        out.insert(k);
    }
}

fn worker(prop: &str, base: u64, start: u64, step: u64, count: u64, batch: u64, dump: Option<&str>, known: &[String]) {
    let stream = std::env::var("SIM_STREAM").is_ok();
    if prop == "C19" && !stream {
        return config::pair_worker(base, start, step, count, batch, dump);
    }
    let mut s = WorkerSum::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut cfgs: HashSet<String> = HashSet::new();
    let mut seen: HashSet<String> = HashSet::new();
    let out = std::io::stdout();
    let mut samples = 0;
    let mut k = 0;
    while k < count {
        // one progress line per batch: where to look when the process dies
        {
            let mut o = out.lock();
            let _ = writeln!(o, "B {k}");
            let _ = o.flush();
        }
        for _ in 0..batch.min(count - k) {
            let i = start + k * step;
            k += 1;
            let p = gen::plan(prop, seed_of(base, prop, i));
            let o = run_plan(&p);
            s.runs += 1;
            s.ticks += o.steps;
            for j in 0..NSITE {
                s.fired[j] += o.fired[j];
                s.hits[j] += o.hits[j];
            }
            s.faulted_runs += (o.fired.iter().sum::<u64>() > 0) as u64;
            s.preempt_runs += (o.probes.reentrant_steps > 0) as u64;
            s.special_runs += p.special.is_some() as u64;
            s.multi_task_runs += (p.tasks.len() > 1) as u64;
            s.max_stack = s.max_stack.max(o.stack_max);
            s.probes.add(&o.probes);
            s.digest = h64(s.digest ^ o.hash, o.issues.len() as u64 + o.stack_max as u64 * 0);
            if o.nontrivial {
                s.nontrivial += 1;
                hashes.insert(o.hash);
            }
            if k < 40_000 {
                cfg_keys(&p, &mut cfgs);
            }
            if o.nontrivial && samples < 2 && p.ops.len() < 25 {
                samples += 1;
                let _ = writeln!(out.lock(), "S {}", serde_json::to_string(&p).unwrap());
            }
            if stream {
                let sigs: Vec<&String> = o.issues.iter().map(|x| &x.sig).collect();
                let mut w = out.lock();
                let _ = writeln!(w, "R {:016x} {} {:?}", o.hash, o.steps, sigs);
                let _ = w.flush();
            }
            for is in o.issues {
                if is.tags.iter().any(|t| t == prop) {
                    if seen.insert(is.sig.clone()) || (!known.contains(&is.sig) && seen.len() < 50) {
                        let f = Found { index: i, sig: is.sig, msg: is.msg };
                        let _ = writeln!(out.lock(), "V {}", serde_json::to_string(&f).unwrap());
                    }
                } else {
                    *s.issues_other.entry(format!("{} {}", is.tags.join(","), is.sig)).or_insert(0) += 1;
                }
            }
        }
    }
    if let Some(d) = dump {
        let mut b: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        let _ = std::fs::write(format!("{d}.hashes"), b);
        let v: Vec<&String> = cfgs.iter().collect();
        let _ = std::fs::write(format!("{d}.cfgs"), serde_json::to_string(&v).unwrap());
    }
    let _ = writeln!(out.lock(), "E {}", serde_json::to_string(&s).unwrap());
}

// ---------------------------------------------------------------- replay files
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    base_seed: u64,
    index: u64,
    /// violation class that must reappear: a signature, "crash" or "hang"
    sig: String,
    msg: String,
    minimised: bool,
    plan: Plan,
    /// the failure needs these runs in one process: (first, step, count)
    #[serde(default)]
    batch: Option<(u64, u64, u64)>,
}
/// Runs one plan in this process and prints its issues (fresh-process execution of a replay).
fn exec_plan(path: &str, prop: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("plan file");
    let p: Plan = match serde_json::from_str::<Replay>(&s) {
        Ok(r) => r.plan,
        Err(_) => serde_json::from_str(&s).expect("plan"),
    };
    if prop == "C19" {
        return config::exec_pair(path);
    }
    let o = run_plan(&p);
    let mut bad = false;
    for i in &o.issues {
        let mine = prop.is_empty() || i.tags.iter().any(|t| t == prop);
        bad |= mine;
        println!("I {}", serde_json::to_string(&(mine, &i.tags, &i.sig, &i.msg)).unwrap());
    }
    println!("H {:016x}", o.hash);
    bad as i32
}
#[derive(Clone, Debug, PartialEq)]
enum Class {
    Ok,
    Sigs(Vec<(String, String)>),
    Crash(String),
    Hang,
}
fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}
fn classify(p: &Plan, prop: &str, scratch: &str) -> Class {
    let prop = if prop == "C19" && p.tasks.is_empty() && p.special.is_none() { return Class::Ok } else { prop };
    std::fs::write(scratch, serde_json::to_string(p).unwrap()).expect("scratch");
    let mut c = Command::new(exe())
        .args(["exec", scratch, prop])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let mut out = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut s);
        s
    });
    let status = loop {
        match c.try_wait().expect("wait") {
            Some(s) => break s,
            None if t0.elapsed() > Duration::from_secs(if prop == "C19" { 70 } else { 30 }) => {
                let _ = c.kill();
                let _ = c.wait();
                let _ = rd.join();
                return Class::Hang;
            }
            None => std::thread::sleep(Duration::from_millis(if t0.elapsed() < Duration::from_millis(50) { 1 } else { 10 })),
        }
    };
    let s = rd.join().unwrap_or_default();
    if !s.lines().any(|l| l.starts_with("H ")) {
        return Class::Crash(format!("{status}"));
    }
    let mut v = Vec::new();
    for l in s.lines().filter_map(|l| l.strip_prefix("I ")) {
        if let Ok((mine, _t, sig, msg)) = serde_json::from_str::<(bool, Vec<String>, String, String)>(l) {
            if mine {
                v.push((sig, msg));
            }
        }
    }
    if v.is_empty() {
        Class::Ok
    } else {
        Class::Sigs(v)
    }
}
/// Runs a batch in one fresh worker; true when it dies or stalls.
fn classify_batch(prop: &str, base: u64, b: (u64, u64, u64)) -> bool {
    let mut c = Command::new(exe())
        .args(["worker", prop, &base.to_string(), &b.0.to_string(), &b.1.to_string(), &b.2.to_string(), "64"])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    loop {
        match c.try_wait().expect("wait") {
            Some(s) => return !s.success(),
            None if t0.elapsed() > Duration::from_secs(150) => {
                let _ = c.kill();
                let _ = c.wait();
                return true;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}
/// Same violation class: the signature without its configuration part.
fn same(c: &Class, sig: &str, known: &[String]) -> bool {
    let key = |s: &str| s.split('/').next().unwrap_or("").to_string();
    match c {
        Class::Ok => false,
        Class::Crash(_) => sig == "crash",
        Class::Hang => sig == "hang",
        Class::Sigs(v) => v.iter().any(|(s, _)| key(s) == key(sig) && !known.contains(s)),
    }
}

// ---------------------------------------------------------------- minimisation
fn remove_node(f: &mut Forest, i: usize) {
    remove_nodes(f, i, i + 1)
}
/// Removes nodes lo..hi with their subtrees.
fn remove_nodes(f: &mut Forest, lo: usize, hi: usize) {
    let n = f.nodes.len();
    let mut gone = vec![false; n];
    for g in &mut gone[lo..hi] {
        *g = true;
    }
    for k in 0..n {
        let p = f.nodes[k].0;
        if p != u32::MAX && gone[p as usize] {
            gone[k] = true;
        }
    }
    let mut map = vec![u32::MAX; n];
    let mut out = Vec::new();
    for k in 0..n {
        if !gone[k] {
            map[k] = out.len() as u32;
            let (p, s) = f.nodes[k];
            out.push((if p == u32::MAX { p } else { map[p as usize] }, s));
        }
    }
    f.nodes = out;
}
fn candidates(p: &Plan) -> Vec<Plan> {
    let mut v = Vec::new();
    macro_rules! c { (|$q:ident| $b:block) => {{ let mut $q = p.clone(); $b; if $q != *p { v.push($q); } }} }
    // whole task and its ops
    for t in 0..p.tasks.len() {
        if p.tasks.len() > 1 {
            c!(|q| {
                let n = p.tasks.len();
                q.tasks.remove(t);
                q.ops = p.ops.iter().filter(|o| o.t % n != t).map(|o| Op { t: if o.t % n > t { o.t % n - 1 } else { o.t % n }, k: o.k }).collect();
                q.preempts = p.preempts.iter().filter(|o| o.1 % n != t).map(|o| (o.0, if o.1 % n > t { o.1 % n - 1 } else { o.1 % n })).collect();
            });
        }
    }
    let m = p.ops.len();
    for len in [m / 2, m / 4, 2, 1] {
        if len == 0 {
            continue;
        }
        let mut i = 0;
        while i + len <= m {
            c!(|q| {
                q.ops.drain(i..i + len);
            });
            i += len;
        }
    }
    for i in 0..p.faults.len() {
        c!(|q| {
            q.faults.remove(i);
        });
        c!(|q| {
            q.faults[i].1 = (q.faults[i].1 / 2).max(1);
        });
        c!(|q| {
            q.faults[i].1 = (q.faults[i].1 - 1).max(1);
        });
    }
    for i in 0..p.preempts.len() {
        c!(|q| {
            q.preempts.remove(i);
        });
    }
    for f in 0..p.forests.len() {
        let n = p.forests[f].nodes.len();
        // whole runs of nodes first, single ones once the forest is small
        let mut len = n / 2;
        while len > 1 {
            let mut i = n;
            while i > 0 {
                let lo = i.saturating_sub(len);
                c!(|q| { remove_nodes(&mut q.forests[f], lo, i) });
                i = lo;
            }
            if n / len > 32 {
                break;
            }
            len /= 2;
        }
        if n <= 150 {
            for i in (0..n).rev() {
                c!(|q| { remove_nodes(&mut q.forests[f], i, i + 1) });
            }
        }
        c!(|q| { q.forests[f].hint = 0 });
        c!(|q| { q.forests[f].hint &= 3 });
        if let Some((d, pat)) = p.forests[f].deep {
            c!(|q| { q.forests[f].deep = Some((d / 2, pat)) });
            c!(|q| { q.forests[f].deep = Some((d, 0)) });
        }
    }
    for i in 0..p.ops.len() {
        match p.ops[i].k {
            OpK::Nth(n) => {
                c!(|q| { q.ops[i].k = OpK::Step(n.min(8) + 1) });
                c!(|q| { q.ops[i].k = OpK::Nth(n / 2) });
            }
            OpK::Bulk(h) => {
                c!(|q| { q.ops[i].k = OpK::Drain });
                c!(|q| { q.ops[i].k = OpK::Bulk(h % 12) });
            }
            OpK::Forget => {
                c!(|q| { q.ops[i].k = OpK::Cancel });
            }
            _ => {}
        }
        if let OpK::Step(n) = p.ops[i].k {
            if n > 1 {
                c!(|q| { q.ops[i].k = OpK::Step(n / 2) });
                c!(|q| { q.ops[i].k = OpK::Step(n - 1) });
            }
        }
    }
    for t in 0..p.tasks.len() {
        c!(|q| { q.tasks[t].hold = false });
        if let TKind::Pipe { stages, term, .. } = &p.tasks[t].kind {
            for s in 0..stages.len() {
                c!(|q| {
                    if let TKind::Pipe { stages, .. } = &mut q.tasks[t].kind {
                        stages.remove(s);
                    }
                });
            }
            if !matches!(term, Term::Collect) {
                c!(|q| {
                    if let TKind::Pipe { term, .. } = &mut q.tasks[t].kind {
                        *term = Term::Collect;
                    }
                });
            }
        }
    }
    if let Some(sp) = &p.special {
        match sp {
            Special::Serde { tree, chunks, faults, cut, drop_field, .. } => {
                for i in (1..tree.nodes.len()).rev() {
                    c!(|q| { if let Some(Special::Serde { tree, .. }) = &mut q.special { remove_node(tree, i) } });
                }
                for i in 0..faults.len() {
                    c!(|q| { if let Some(Special::Serde { faults, .. }) = &mut q.special { faults.remove(i); } });
                }
                if !chunks.is_empty() {
                    c!(|q| { if let Some(Special::Serde { chunks, .. }) = &mut q.special { chunks.clear(); } });
                }
                if cut.is_some() {
                    c!(|q| { if let Some(Special::Serde { cut, .. }) = &mut q.special { *cut = None; } });
                }
                if drop_field.is_some() {
                    c!(|q| { if let Some(Special::Serde { drop_field, .. }) = &mut q.special { *drop_field = None; } });
                }
            }
            Special::Kinds { tree, at, .. } => {
                for i in (1..tree.nodes.len()).rev() {
                    c!(|q| { if let Some(Special::Kinds { tree, .. }) = &mut q.special { remove_node(tree, i) } });
                }
                if *at > 0 {
                    let a = *at;
                    c!(|q| { if let Some(Special::Kinds { at, .. }) = &mut q.special { *at = a / 2; } });
                    c!(|q| { if let Some(Special::Kinds { at, .. }) = &mut q.special { *at = a - 1; } });
                }
            }
            Special::Clone { tree, .. } => {
                for i in (1..tree.nodes.len()).rev() {
                    c!(|q| { if let Some(Special::Clone { tree, .. }) = &mut q.special { remove_node(tree, i) } });
                }
            }
            Special::Lazy { steps, .. } => {
                let s0 = *steps;
                c!(|q| { if let Some(Special::Lazy { steps, .. }) = &mut q.special { *steps = s0 / 2; } });
                c!(|q| { if let Some(Special::Lazy { steps, .. }) = &mut q.special { *steps = s0.saturating_sub(1); } });
                c!(|q| { if let Some(Special::Lazy { pct, .. }) = &mut q.special { *pct = 0; } });
                c!(|q| { if let Some(Special::Lazy { fan, .. }) = &mut q.special { *fan = 1; } });
            }
        }
    }
    v
}
fn minimise(p: &Plan, prop: &str, sig: &str, known: &[String], scratch: &str, limit: Duration) -> Plan {
    let t0 = Instant::now();
    let mut best = p.clone();
    'again: loop {
        for q in candidates(&best) {
            if t0.elapsed() > limit {
                return best;
            }
            if same(&classify(&q, prop, scratch), sig, known) {
                best = q;
                continue 'again;
            }
        }
        return best;
    }
}

// ---------------------------------------------------------------- known findings
#[derive(Serialize, Deserialize, Clone)]
struct Known {
    property: String,
    /// "finding" (suppressed, reported as KNOWN-FINDING) or "fixed" (suppresses nothing)
    status: String,
    #[serde(default)]
    sigs: Vec<String>,
    what: String,
    #[serde(default)]
    replay: String,
    #[serde(default)]
    commit: String,
}
fn load_known() -> Vec<Known> {
    let s = match std::fs::read_to_string("known_findings.jsonl") {
        Ok(s) => s,
        Err(_) => return vec![],
    };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .map(|l| serde_json::from_str(l).unwrap_or_else(|e| die(&format!("known_findings.jsonl: {e}"))))
        .collect()
}
fn die(m: &str) -> ! {
    eprintln!("HARNESS-ERROR: {m}");
    std::process::exit(3)
}

// ---------------------------------------------------------------- supervisor
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    // runs, progress batch
    let (q, b) = match prop {
        // the unoptimised build is slower by an order of magnitude
        "C15" if std::env::var("SIM_SECOND").is_ok() => (700, 1),
        "C15" => (3_200, 1),
        "C17" => (4_000_000, 64),
        "C18" => (5_000_000, 64),
        "C14" => (5_000_000, 64),
        "C20" => (130_000, 4),
        // every run is executed by two builds
        "C19" => (1_600_000, 64),
        _ => (6_000_000, 64),
    };
    (if thorough { q * 10 } else { q }, b)
}
enum Msg {
    Line(usize, String),
    Eof(usize),
}
struct Wk {
    child: std::process::Child,
    start: u64,
    at: u64,
    count: u64,
    last: Instant,
    done: bool,
}
fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let (mut runs, batch) = budget(prop, thorough);
    if std::env::var("SIM_BUILD_FAILED").is_ok() {
        runs = 0;
    }
    if let Some(r) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = r;
    }
    let wall = Duration::from_secs(if thorough { 3 * 3600 } else if prop == "C19" { 240 } else { 420 });
    println!("property {prop} tier {tier} seed {base}: {runs} simulated runs");
    let known = load_known();
    let mine: Vec<&Known> = known.iter().filter(|k| k.property == prop && k.status == "finding").collect();
    let known_sigs: Vec<String> = mine.iter().flat_map(|k| k.sigs.iter().cloned()).collect();
    let dir = format!("work/{prop}");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all("replays");
    let _ = std::fs::create_dir_all("evidence");
    let scratch = format!("{dir}/candidate.json");
    let nw: u64 = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut ws: Vec<Wk> = Vec::new();
    for w in 0..nw {
        let count = runs / nw + (w < runs % nw) as u64;
        let mut c = Command::new(exe())
            .args(["worker", prop, &base.to_string(), &w.to_string(), &nw.to_string(), &count.to_string(), &batch.to_string(), &format!("{dir}/w{w}")])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| die(&format!("cannot start a worker: {e}")));
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(w as usize, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::Eof(w as usize));
        });
        ws.push(Wk { child: c, start: w, at: 0, count, last: Instant::now(), done: false });
    }
    drop(tx);
    let mut sums: Vec<WorkerSum> = Vec::new();
    let mut found: Option<Found> = None;
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut dead: Option<(usize, &'static str)> = None;
    let mut cut_short = false;
    let stall = Duration::from_secs(90);
    while ws.iter().any(|w| !w.done) && found.is_none() && dead.is_none() {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(w, l)) => {
                ws[w].last = Instant::now();
                let (k, rest) = l.split_at(2.min(l.len()));
                match k {
                    "B " => ws[w].at = rest.parse().unwrap_or(0),
                    "S " => {
                        if samples.len() < 4 {
                            samples.extend(serde_json::from_str::<serde_json::Value>(rest).ok());
                        }
                    }
                    "V " => {
                        let f: Found = serde_json::from_str(rest).unwrap_or_else(|_| die("worker line"));
                        if known_sigs.contains(&f.sig) {
                            *seen_known.entry(f.sig).or_insert(0) += 1;
                        } else {
                            found = Some(f);
                        }
                    }
                    "E " => {
                        sums.push(serde_json::from_str(rest).unwrap_or_else(|e| die(&format!("worker summary: {e}"))));
                        ws[w].done = true;
                    }
                    _ => {}
                }
            }
            Ok(Msg::Eof(w)) => {
                if !ws[w].done {
                    dead = Some((w, "crash"));
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        if let Some(w) = ws.iter().position(|w| !w.done && w.last.elapsed() > stall) {
            dead = Some((w, "hang"));
        }
        if t0.elapsed() > wall {
            cut_short = true;
            break;
        }
    }
    for w in &mut ws {
        if !w.done {
            let _ = w.child.kill();
        }
        let _ = w.child.wait();
    }
    // a worker died or stalled: find the run, in fresh processes
    let mut vplan: Option<(Plan, String, String, u64)> = None;
    let mut vbatch: Option<(u64, u64, u64)> = None;
    if let (None, Some((w, how))) = (&found, dead) {
        let (s, at, n) = (ws[w].start, ws[w].at, ws[w].count);
        for k in at..(at + batch).min(n) {
            let i = s + k * nw;
            let p = gen::plan(prop, seed_of(base, prop, i));
            match classify(&p, prop, &scratch) {
                Class::Crash(m) => {
                    vplan = Some((p, "crash".into(), format!("the process died while executing the run ({m})"), i));
                    break;
                }
                Class::Hang => {
                    vplan = Some((p, "hang".into(), "the run does not terminate".into(), i));
                    break;
                }
                Class::Sigs(v) => {
                    if let Some((sg, m)) = v.iter().find(|x| !known_sigs.contains(&x.0)) {
                        vplan = Some((p, sg.clone(), m.clone(), i));
                        break;
                    }
                }
                Class::Ok => {}
            }
        }
        if vplan.is_none() && prop != "C19" {
            // the damage needed several runs of one process to show: replay the batch, then
            // everything that worker had done
            for from in [at, at.saturating_sub(64 * batch), 0] {
                let b = (s + from * nw, nw, (at + batch).min(n) - from);
                if classify_batch(prop, base, b) {
                    let p = gen::plan(prop, seed_of(base, prop, b.0));
                    vbatch = Some(b);
                    vplan = Some((p, "crash".into(), format!("the process ended with {how} while executing the runs {}, +{}, ... ({} runs)", b.0, b.1, b.2), b.0));
                    break;
                }
            }
        }
        if vplan.is_none() && prop != "C19" {
            die(&format!("worker {w} ended with {how} near run {at}, but neither a single run nor the whole batch reproduces it"));
        }
    }
    if let Some(f) = found {
        let p = gen::plan(prop, seed_of(base, prop, f.index));
        vplan = Some((p, f.sig, f.msg, f.index));
    }
    let mut violations = 0;
    let mut code = 0;
    let mut bare = serde_json::Value::Null;
    if prop == "C19" && vplan.is_none() {
        let (v, f) = config::bare(base, thorough);
        bare = v;
        for f in f {
            if known_sigs.contains(&f.sig) {
                *seen_known.entry(f.sig).or_insert(0) += 1;
            } else if vplan.is_none() {
                vplan = Some((gen::plan("C19", 0), f.sig, f.msg, f.index));
            }
        }
    }
    if let Some((p, sig, msg, index)) = vplan {
        violations = 1;
        code = 1;
        let reproduced = vbatch.is_none() && !sig.starts_with("bare-") && same(&classify(&p, prop, &scratch), &sig, &known_sigs);
        let q = if reproduced { minimise(&p, prop, &sig, &known_sigs, &scratch, Duration::from_secs(if thorough { 120 } else { 40 })) } else { p.clone() };
        let (sig2, msg2) = match classify(&q, prop, &scratch) {
            _ if sig.starts_with("bare-") => (sig.clone(), msg.clone()),
            Class::Sigs(v) => v.into_iter().find(|x| !known_sigs.contains(&x.0)).unwrap_or((sig.clone(), msg.clone())),
            _ => (sig.clone(), msg.clone()),
        };
        let r = Replay { property: prop.into(), base_seed: base, index, sig: sig2.clone(), msg: msg2.clone(), minimised: reproduced, plan: q, batch: vbatch };
        let path = std::env::current_dir().unwrap().join(format!("replays/{prop}-{base}-{index}.json"));
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
        println!("run {index} (seed {}): {sig}: {msg}", seed_of(base, prop, index));
        println!("minimised: {sig2}: {msg2}{}", if reproduced || sig.starts_with("bare-") { "" } else { " (only reproduces inside the batch; not minimised)" });
        println!("VIOLATION property={prop} replay={}", path.display());
    } else {
        // determinism: the same seeds again, split differently, in other processes
        let n = if prop == "C15" { 24 } else if prop == "C20" { 150 } else { 600 };
        let mut ds = Vec::new();
        for round in 0..2 {
            let mut kids = Vec::new();
            let parts: u64 = 3;
            for w in 0..parts {
                let mut c = Command::new(exe());
                c.args(["digest", prop, &base.to_string(), &(w * n / parts).to_string(), &(n / parts).to_string(), &round.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null());
                kids.push(c.spawn().unwrap_or_else(|e| die(&format!("{e}"))));
            }
            let mut all = Vec::new();
            for k in kids {
                let o = k.wait_with_output().unwrap_or_else(|e| die(&format!("{e}")));
                let mut l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
                l.sort();
                all.extend(l);
            }
            ds.push(all);
        }
        if ds[0] != ds[1] || ds[0].len() as u64 != n {
            die("the simulator is not deterministic: equal seeds gave different event logs");
        }
    }
    for k in &mine {
        // the listed history is replayed on every run; it says whether the defect is still there
        let still = if k.replay.is_empty() {
            k.sigs.iter().any(|s| seen_known.contains_key(s))
        } else {
            std::fs::read_to_string(&k.replay)
                .ok()
                .and_then(|s| serde_json::from_str::<Replay>(&s).ok())
                .map(|r| match classify(&r.plan, prop, &scratch) {
                    Class::Sigs(v) => v.iter().any(|(s, _)| k.sigs.contains(s)),
                    Class::Crash(_) => r.sig == "crash",
                    Class::Hang => r.sig == "hang",
                    Class::Ok => false,
                })
                .unwrap_or(false)
        };
        if still {
            println!("KNOWN-FINDING: property={prop} {}", k.what);
        } else {
            println!("note: listed finding no longer manifests: {}", k.what);
        }
    }
    // ---- evidence
    let mut t = WorkerSum::default();
    for s in &sums {
        t.runs += s.runs;
        t.nontrivial += s.nontrivial;
        t.ticks += s.ticks;
        for j in 0..NSITE {
            t.fired[j] += s.fired[j];
            t.hits[j] += s.hits[j];
        }
        t.faulted_runs += s.faulted_runs;
        t.preempt_runs += s.preempt_runs;
        t.special_runs += s.special_runs;
        t.multi_task_runs += s.multi_task_runs;
        t.max_stack = t.max_stack.max(s.max_stack);
        t.probes.add(&s.probes);
        for (k, v) in &s.issues_other {
            *t.issues_other.entry(k.clone()).or_insert(0) += v;
        }
    }
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut cfgs: HashSet<String> = HashSet::new();
    for w in 0..nw {
        let (h, c) = (format!("{dir}/w{w}.hashes"), format!("{dir}/w{w}.cfgs"));
        if ws[w as usize].done {
            for ch in std::fs::read(&h).unwrap_or_default().chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(ch.try_into().unwrap()));
            }
            let v: Vec<String> = std::fs::read_to_string(&c).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
            cfgs.extend(v);
        }
        let _ = std::fs::remove_file(h);
        let _ = std::fs::remove_file(c);
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let names = |a: &[u64; NSITE], panic: bool| -> serde_json::Map<String, serde_json::Value> {
        let serde_run = prop == "C17" || prop == "C18";
        let mut m = serde_json::Map::new();
        for j in 0..NSITE {
            if a[j] == 0 {
                continue;
            }
            let n = match (serde_run, SITE_NAMES[j]) {
                (true, "src_into") => "stream_read_or_write_failed".to_string(),
                (true, "into_kids") => "stored_bytes_damaged".to_string(),
                (true, "src_next") => "stream_call".to_string(),
                (true, "expand") if panic => "panic_in_value_serialize_or_clone".to_string(),
                (true, "closure") if panic => "panic_in_value_deserialize_or_eq".to_string(),
                (_, n) if panic => format!("panic_in_user_{n}"),
                (_, n) => n.to_string(),
            };
            m.insert(n, a[j].into());
        }
        m
    };
    let mut probes = serde_json::to_value(&t.probes).unwrap();
    let mut faults = names(&t.fired, true);
    for (k, n) in [("cancels_mid", "task_cancelled_mid_traversal"), ("forgotten", "task_forgotten_without_destructor"), ("reentrant_steps", "task_preempted_inside_a_user_callback"), ("sources_cut", "tree_source_ended_early"), ("attach_refused", "late_attach_attempted"), ("bad_lookups", "lookup_of_a_missing_path"), ("poisoned_steps", "step_after_a_caught_panic")] {
        if let Some(v) = probes.as_object_mut().unwrap().remove(k) {
            if v != 0 {
                faults.insert(n.into(), v);
            }
        }
    }
    probes.as_object_mut().unwrap().retain(|_, v| *v != 0);
    if t.runs == 0 && code == 1 {
        t.runs = ws.iter().map(|w| w.at).sum::<u64>().max(1);
    }
    let ev = serde_json::json!({
        "property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": base as i64, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": "one evaluation = one simulated run of a plan (trees, tasks, schedule, faults) drawn from one seed; non-trivial = at least 3 elements yielded, results produced, lookups or stream outcomes judged; distinct = different hash of the complete event log (every seam crossing, yield, drop and operation)",
            "samples": samples,
            "runs_per_hour": (t.runs as f64 / wall_s * 3600.0) as u64,
            "seeds": "one fresh seed per run, so seeds per hour = runs per hour",
            "simulated_time": {"clock": "logical: the library has no clock, every seam crossing is one tick", "ticks": t.ticks},
            "faults_injected": faults,
            "seam_crossings": names(&t.hits, false),
            "runs_with_a_fault_fired": t.faulted_runs,
            "runs_with_reentrant_preemption": t.preempt_runs,
            "runs_with_several_tasks": t.multi_task_runs,
            "runs_in_special_engines": t.special_runs,
            "distinct_workload_configurations": cfgs.len(),
            "probes": probes,
            "max_stack_bytes_below_a_library_call": t.max_stack,
            "components_real": ["tree_iterators_rs (all of it, from /repo's working tree, feature serde)", "std/alloc collections", "serde, serde_json, bincode, streaming_iterator"],
            "components_simulated": ["user node types, child iterators, tree sources, closures and values (seams)", "global allocator (ledger, poisoning, quarantine)", "caller tasks and their scheduler", "byte streams"],
            "cut_short_by_wall_clock": cut_short,
            "without_std": bare,
            "known_findings_seen": seen_known,
            "issues_of_other_properties_ignored_here": t.issues_other.iter().take(12).map(|(k,v)| format!("{k} x{v}")).collect::<Vec<_>>(),
        },
        "assumptions": ["sampling: a clean batch is evidence, not proof", "user code respects Rust's safety rules; mutably and immutably borrowed child iterators are fused, as their traits demand (by-value child iterators and tree sources are not)"],
        "wall_s": wall_s, "violations": violations,
    });
    let ev = if std::env::var("SIM_SECOND").is_ok() {
        // second build of the same simulator: its figures join those of the first
        let mut old: serde_json::Value = std::fs::read_to_string(format!("evidence/{prop}.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_else(|| ev.clone());
        let sum = |a: &serde_json::Value, b: &serde_json::Value| a.as_u64().unwrap_or(0) + b.as_u64().unwrap_or(0);
        old["coverage"]["evaluations"] = sum(&old["coverage"]["evaluations"], &ev["coverage"]["evaluations"]).into();
        old["wall_s"] = (old["wall_s"].as_f64().unwrap_or(0.0) + wall_s).into();
        old["violations"] = violations.into();
        old["coverage"]["unoptimised_build"] = ev["coverage"].clone();
        old
    } else {
        ev
    };
    std::fs::write(format!("evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| die(&format!("evidence: {e}")));
    if code == 0 {
        println!("{prop}: held on {} runs, {} distinct, {} faults fired, {:.1}s", t.runs, hashes.len(), t.fired.iter().sum::<u64>(), wall_s);
    }
    code
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    // keep the main thread's own stack out of it: runs happen on a thread with a fixed stack
    let code = match s(1) {
        "check" => check(s(2)),
        "worker" => {
            let a2 = a.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let n = |i: usize| a2[i].parse::<u64>().unwrap();
                    let known: Vec<String> = load_known().into_iter().filter(|k| k.status == "finding").flat_map(|k| k.sigs).collect();
                    worker(&a2[2], n(3), n(4), n(5), n(6), n(7), a2.get(8).map(|s| s.as_str()), &known);
                })
                .unwrap()
                .join()
                .map(|_| 0)
                .unwrap_or(101)
        }
        "digest" => {
            let a2 = a.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let n = |i: usize| a2[i].parse::<u64>().unwrap();
                    let (from, cnt) = (n(4), n(5));
                    let mut idx: Vec<u64> = (from..from + cnt).collect();
                    if n(6) == 1 {
                        idx.reverse();
                    }
                    for i in idx {
                        let p = gen::plan(&a2[2], seed_of(n(3), &a2[2], i));
                        let o = run_plan(&p);
                        println!("{i} {:016x} {} {:?}", o.hash, o.steps, o.issues.iter().map(|x| &x.sig).collect::<Vec<_>>());
                    }
                })
                .unwrap()
                .join()
                .map(|_| 0)
                .unwrap_or(101)
        }
        "exec" => {
            let (f, p) = (s(2).to_string(), s(3).to_string());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || exec_plan(&f, &p)).unwrap().join().unwrap_or(101)
        }
        "replay" => {
            let txt = std::fs::read_to_string(s(2)).unwrap_or_else(|e| die(&format!("{e}")));
            let r: Replay = serde_json::from_str(&txt).unwrap_or_else(|e| die(&format!("{e}")));
            let scratch = format!("{}/replay-{}.json", std::env::temp_dir().display(), std::process::id());
            if r.sig.starts_with("bare-") {
                let again = config::bare_again(&r.sig, r.base_seed, r.index);
                println!("expected: {}: {}\n{}", r.sig, r.msg, again.as_deref().unwrap_or("does not reproduce"));
                if again.is_some() {
                    println!("VIOLATION property={} replay={}", r.property, s(2));
                }
                std::process::exit(again.is_some() as i32);
            }
            if let Some(b) = r.batch {
                let again = classify_batch(&r.property, r.base_seed, b);
                println!("expected: {}: {}\nthe batch {}", r.sig, r.msg, if again { "fails again" } else { "passes" });
                if again {
                    println!("VIOLATION property={} replay={}", r.property, s(2));
                }
                std::process::exit(again as i32);
            }
            let c = classify(&r.plan, &r.property, &scratch);
            let _ = std::fs::remove_file(&scratch);
            println!("expected: {}: {}\ngot: {c:?}", r.sig, r.msg);
            if same(&c, &r.sig, &[]) {
                println!("VIOLATION property={} replay={}", r.property, s(2));
                1
            } else {
                println!("does not reproduce");
                0
            }
        }
        "gen" => {
            let p = gen::plan(s(2), seed_of(n(3), s(2), n(4)));
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        "survey" => {
            // development aid: every distinct signature of a batch
            let prop = s(2).to_string();
            let (b, c, e) = (n(3), n(4), n(5));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
                    for i in c..e {
                        let p = gen::plan(&prop, seed_of(b, &prop, i));
                        if std::env::var("TRACE").is_ok() {
                            eprintln!("{i}");
                        }
                        let o = run_plan(&p);
                        for x in o.issues.iter() {
                            let en = m.entry(format!("{} {}", x.sig, x.tags.join(","))).or_insert((0, i, x.msg.clone()));
                            en.0 += 1;
                        }
                    }
                    for (k, v) in m {
                        println!("{:7} first {:6} {k}: {}", v.0, v.1, v.2);
                    }
                })
                .unwrap()
                .join()
                .map(|_| 0)
                .unwrap_or(101)
        }
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | exec FILE [PROP] | gen PROP SEED INDEX | survey PROP SEED FROM TO");
            2
        }
    };
    std::process::exit(code);
}
