//! Runs seeds in worker processes, minimises what fails, writes replay files
//! and evidence.

use crate::common::{Cov, Ctx, Fail, Res};
use crate::props::{self, Prop};
use crate::tape::{hash_str, mix2, Tape};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(60);

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn run_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    mix2(mix2(seed, hash_str(prop)), idx)
}

pub enum End {
    Held,
    Violated(Fail),
    /// The harness itself is broken.
    Broken(String),
}

/// One simulated run: a pure function of the tape.
pub fn execute(p: &Prop, tape: Tape, size: u32, tracing: bool) -> (End, Ctx) {
    let mut c = Ctx { t: tape, cov: Cov::default(), tracing, trace: Vec::new(), size };
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut c)));
    let e = match r {
        Ok(Ok(())) => End::Held,
        Ok(Err(f)) => End::Violated(f),
        Err(p) => {
            if let Some(s) = p.downcast_ref::<crate::rec::SimPanic>() {
                End::Broken(format!("escaped injected panic {}", s.0))
            } else {
                let (loc, msg) = crate::last_panic();
                if crate::is_harness_location(&loc) {
                    End::Broken(format!("{} at {}", msg, loc))
                } else {
                    End::Violated(Fail { class: "panic".into(), msg: format!("{} at {}", msg, loc) })
                }
            }
        }
    };
    (e, c)
}

fn dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", prop, tier] => check(prop, tier),
        ["worker", prop, size, seed, shard, n, total, secs] => worker(
            props::find(prop),
            size.parse().unwrap(),
            seed.parse().unwrap(),
            shard.parse().unwrap(),
            n.parse().unwrap(),
            total.parse().unwrap(),
            secs.parse().unwrap(),
        ),
        ["shrink", prop, size, class, file] => shrink(props::find(prop), size.parse().unwrap(), class, file),
        ["replay", file] => replay(file),
        ["one", prop, size, file] => {
            // exit 0 held, 1 violated, 2 broken; prints class
            let tape = read_tape(&std::fs::read_to_string(file).unwrap());
            match execute(props::find(prop), Tape::fixed(tape), size.parse().unwrap(), false).0 {
                End::Held => 0,
                End::Violated(f) => {
                    println!("{}", f.class);
                    1
                }
                End::Broken(s) => {
                    println!("{}", s);
                    2
                }
            }
        }
        ["draws", prop, size, seed, idx, file] => {
            let mut t = Tape::random(run_seed(prop, seed.parse().unwrap(), idx.parse().unwrap()));
            t.sink = std::fs::File::create(file).ok();
            execute(props::find(prop), t, size.parse().unwrap(), false);
            0
        }
        ["run", prop, size, seed, idx] => {
            let p = props::find(prop);
            let t = Tape::random(run_seed(prop, seed.parse().unwrap(), idx.parse().unwrap()));
            let (e, c) = execute(p, t, size.parse().unwrap(), true);
            for l in &c.trace {
                println!("{}", l);
            }
            println!("{:?} hist {:x} execs {} t {}", c.cov.counts, c.cov.hist, c.cov.execs, c.cov.sim_time);
            match e {
                End::Held => println!("held"),
                End::Violated(f) => println!("VIOLATED [{}] {}", f.class, f.msg),
                End::Broken(s) => println!("BROKEN {}", s),
            }
            0
        }
        ["list"] => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: conch-sim check PROP quick|thorough | replay FILE | run PROP SIZE SEED IDX");
            2
        }
    }
}

fn worker(p: &Prop, size: u32, seed: u64, shard: u64, n: u64, total: u64, secs: u64) -> i32 {
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut runs, mut execs, mut time) = (0u64, 0u64, 0u64);
    let mut hashes: Vec<(u64, u64, bool)> = Vec::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples = Vec::new();
    let mut idx = shard;
    let mut code = 0;
    while idx < total && t0.elapsed().as_secs() < secs {
        if writeln!(out, "S {}", idx).and_then(|_| out.flush()).is_err() {
            return 2;
        }
        let (e, c) = execute(p, Tape::random(run_seed(p.id, seed, idx)), size, false);
        runs += 1;
        execs += c.cov.execs;
        time = time.saturating_add(c.cov.sim_time);
        for (k, v) in &c.cov.counts {
            *counts.entry(k).or_insert(0) += v;
        }
        hashes.push((idx, c.cov.hist, c.cov.nontrivial));
        if states.len() < 400_000 {
            states.extend(c.cov.states.iter());
        }
        if samples.len() < 2 && c.cov.nontrivial {
            samples.push(format!("run {}: {}", idx, c.cov.sample));
        }
        match e {
            End::Held => {}
            End::Violated(f) => {
                let tape: Vec<String> = c.t.rec.iter().map(|v| v.to_string()).collect();
                let _ = writeln!(out, "F {} {}\t{}\t{}", idx, esc(&f.class), esc(&f.msg), tape.join(","));
                code = 1;
                break;
            }
            End::Broken(s) => {
                let _ = writeln!(out, "B {} {}", idx, esc(&s));
                code = 2;
                break;
            }
        }
        idx += n;
    }
    for (k, v) in counts {
        let _ = writeln!(out, "C {} {}", v, k);
    }
    for s in samples {
        let _ = writeln!(out, "P {}", esc(&s));
    }
    let mut l = String::new();
    for (i, h, nt) in hashes {
        let _ = writeln!(l, "H {} {:x} {}", i, h, nt as u8);
    }
    for s in states {
        let _ = writeln!(l, "X {:x}", s);
    }
    let _ = write!(out, "{}", l);
    let _ = writeln!(out, "E {} {} {}", runs, execs, time);
    let _ = out.flush();
    code
}

struct Violation {
    idx: u64,
    shard: u64,
    class: String,
    msg: String,
    tape: Option<Vec<u32>>,
}

#[derive(Default)]
struct Totals {
    counts: BTreeMap<String, u64>,
    runs: u64,
    execs: u64,
    time: u64,
    hashes: BTreeMap<u64, (u64, bool)>,
    states: HashSet<u64>,
    samples: Vec<String>,
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn spawn_worker(p: &Prop, size: u32, seed: u64, shard: u64, n: u64, total: u64, secs: u64) -> Child {
    Command::new(exe())
        .args(["worker", p.id])
        .args([size as u64, seed, shard, n, total, secs].iter().map(|v| v.to_string()))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

enum Ev {
    Line(u64, String),
    Gone(u64),
}

/// Runs all shards; gathers totals and the first violation.
fn sweep(p: &Prop, size: u32, seed: u64, shards: u64, total: u64, secs: u64) -> Result<(Totals, Option<Violation>), String> {
    let (tx, rx) = mpsc::channel();
    let mut kids = Vec::new();
    for s in 0..shards {
        let mut k = spawn_worker(p, size, seed, s, shards, total, secs);
        let so = k.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Ev::Line(s, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Ev::Gone(s));
        });
        kids.push(k);
    }
    drop(tx);
    let mut tot = Totals::default();
    let mut at: Vec<(Option<u64>, Instant, bool)> = vec![(None, Instant::now(), false); shards as usize];
    let mut alive = shards;
    let mut viol: Option<Violation> = None;
    let mut broken: Option<String> = None;
    while alive > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Ev::Line(s, l)) => {
                at[s as usize].1 = Instant::now();
                let (k, r) = l.split_at(l.len().min(2));
                match k {
                    "S " => at[s as usize].0 = r.parse().ok(),
                    "F " => {
                        let mut f = r.splitn(3, '\t');
                        let head = f.next().unwrap_or("");
                        let (i, class) = head.split_once(' ').unwrap_or(("0", head));
                        let msg = f.next().unwrap_or("");
                        let tape = read_list(f.next().unwrap_or(""));
                        let v = Violation {
                            idx: i.parse().unwrap_or(0),
                            shard: s,
                            class: unesc(class),
                            msg: unesc(msg),
                            tape: Some(tape),
                        };
                        if viol.as_ref().map_or(true, |o| v.idx < o.idx) {
                            viol = Some(v);
                        }
                    }
                    "B " => broken = Some(unesc(r)),
                    "C " => {
                        let (n, k) = r.split_once(' ').unwrap();
                        *tot.counts.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                    }
                    "P " => tot.samples.push(unesc(r)),
                    "H " => {
                        let v: Vec<&str> = r.split(' ').collect();
                        tot.hashes.insert(v[0].parse().unwrap(), (u64::from_str_radix(v[1], 16).unwrap(), v[2] == "1"));
                    }
                    "X " => {
                        tot.states.insert(u64::from_str_radix(r, 16).unwrap());
                    }
                    "E " => {
                        let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                        tot.runs += v[0];
                        tot.execs += v[1];
                        tot.time = tot.time.saturating_add(v[2]);
                        at[s as usize].2 = true;
                    }
                    _ => {}
                }
            }
            Ok(Ev::Gone(s)) => {
                alive -= 1;
                let st = kids[s as usize].wait();
                if !at[s as usize].2 && viol.is_none() && broken.is_none() {
                    match at[s as usize].0 {
                        Some(idx) => {
                            viol = Some(Violation {
                                idx,
                                shard: s,
                                class: "crash".into(),
                                msg: format!("the simulated process died: {:?}", st.map(|s| s.to_string())),
                                tape: None,
                            })
                        }
                        None => broken = Some("worker died before its first run".into()),
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        if viol.is_none() {
            for s in 0..shards as usize {
                if !at[s].2 && at[s].0.is_some() && at[s].1.elapsed() > HANG {
                    viol = Some(Violation {
                        idx: at[s].0.unwrap(),
                        shard: s as u64,
                        class: "hang".into(),
                        msg: format!("a call did not return within {} s", HANG.as_secs()),
                        tape: None,
                    });
                    break;
                }
            }
        }
        if viol.is_some() || broken.is_some() {
            for k in &mut kids {
                let _ = k.kill();
            }
        }
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    // a violation is reported even if another worker found the harness
    // surprised
    if viol.is_none() {
        if let Some(b) = broken {
            return Err(b);
        }
    }
    Ok((tot, viol))
}

fn read_list(s: &str) -> Vec<u32> {
    s.split(',').filter_map(|v| v.trim().parse().ok()).collect()
}
fn read_tape(s: &str) -> Vec<u32> {
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("tape ") {
            return read_list(r);
        }
    }
    Vec::new()
}
fn write_list(t: &[u32]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}

/// Simplifies a tape while `same` holds.
fn minimise(mut best: Vec<u32>, until: Instant, mut same: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    loop {
        let before = best.clone();
        // shorter
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > until {
                    return best;
                }
                let e = (i + chunk).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                match same(&c) {
                    Some(n) if n.len() < best.len() || (n.len() == best.len() && n < best) => best = n,
                    _ => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // simpler
        let mut i = 0;
        while i < best.len() {
            if Instant::now() > until {
                return best;
            }
            let v = best[i];
            for w in [0, v / 2, v.saturating_sub(1)] {
                if w < best[i] {
                    let mut c = best.clone();
                    c[i] = w;
                    if let Some(n) = same(&c) {
                        if n.len() <= best.len() {
                            best = n;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

fn shrink_time() -> Duration {
    Duration::from_secs(std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30))
}

/// Prints the minimised tape.
fn shrink(p: &Prop, size: u32, class: &str, file: &str) -> i32 {
    let tape = read_tape(&std::fs::read_to_string(file).unwrap());
    let until = Instant::now() + shrink_time();
    let r = minimise(tape, until, |t| match execute(p, Tape::fixed(t.to_vec()), size, false) {
        (End::Violated(f), c) if f.class == class => {
            let mut r = c.t.rec;
            while r.last() == Some(&0) {
                r.pop();
            }
            Some(r)
        }
        _ => None,
    });
    println!("tape {}", write_list(&r));
    0
}

/// Runs one tape in a process of its own: class of the violation, if any.
fn isolated(p: &Prop, size: u32, tape: &[u32], wait: Duration) -> Option<String> {
    let f = dir().join("replays").join(format!(".tape-{}", std::process::id()));
    std::fs::write(&f, format!("tape {}\n", write_list(tape))).ok()?;
    let mut k = Command::new(exe())
        .args(["one", p.id, &size.to_string(), f.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    let r = loop {
        match k.try_wait() {
            Ok(Some(st)) => {
                break match st.code() {
                    Some(0) => None,
                    Some(1) => {
                        let mut s = String::new();
                        use std::io::Read;
                        let _ = k.stdout.take().unwrap().read_to_string(&mut s);
                        Some(s.trim().to_string())
                    }
                    Some(_) => None,
                    None => Some("crash".into()),
                }
            }
            Ok(None) if t0.elapsed() > wait => {
                let _ = k.kill();
                let _ = k.wait();
                break Some("hang".into());
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(1)),
            Err(_) => break None,
        }
    };
    let _ = std::fs::remove_file(&f);
    r
}

/// Violation handled: returns the path of the replay file.
fn report(p: &Prop, size: u32, seed: u64, shards: u64, v: &Violation) -> PathBuf {
    let rdir = dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{}-{}-{}.replay", p.id, seed, v.idx));
    let head = |mode: &str, tape: &str, class: &str, msg: &str, trace: &str| {
        format!(
            "conch-sim replay file\nproperty {}\nclass {}\nmessage {}\nsize {}\nseed {}\nrun {}\nshard {}\nshards {}\nmode {}\ntape {}\n--- schedule and fault trace of this run\n{}\n",
            p.id,
            class,
            esc(msg),
            size,
            seed,
            v.idx,
            v.shard,
            shards,
            mode,
            tape,
            trace
        )
    };
    let tape: Vec<u32> = match &v.tape {
        Some(t) => {
            let f = rdir.join(format!(".shrink-{}", std::process::id()));
            let _ = std::fs::write(&f, format!("tape {}\n", write_list(t)));
            let o = Command::new(exe())
                .args(["shrink", p.id, &size.to_string(), &v.class, f.to_str().unwrap()])
                .stdin(Stdio::null())
                .stderr(Stdio::null())
                .output();
            let _ = std::fs::remove_file(&f);
            match o {
                Ok(o) if o.status.success() => read_tape(&String::from_utf8_lossy(&o.stdout)),
                _ => t.clone(),
            }
        }
        None => {
            // process death or hang: the tape is known only through its seed
            let rec = full_tape(p, size, seed, v.idx);
            let until = Instant::now() + shrink_time();
            let wait = Duration::from_secs(if v.class == "hang" { 5 } else { 30 });
            match isolated(p, size, &rec, Duration::from_secs(20)) {
                Some(c) if c == v.class => minimise(rec, until, |t| {
                    if isolated(p, size, t, wait).as_deref() == Some(&v.class) {
                        Some(t.to_vec())
                    } else {
                        None
                    }
                }),
                _ => rec,
            }
        }
    };
    // the trace of the minimised run, made in a process of its own
    let provisional = head("tape", &write_list(&tape), &v.class, &v.msg, "");
    let _ = std::fs::write(&path, &provisional);
    let (ok, class, msg, trace) = replay_in_child(&path);
    if ok && class == v.class {
        let _ = std::fs::write(&path, head("tape", &write_list(&tape), &class, &msg, &trace));
        println!("minimised to {} choices; replayed exactly in a fresh process", tape.len());
        println!("[{}] {}", class, msg);
    } else {
        // depends on what the process did before: replay the whole shard
        let _ = std::fs::write(&path, head("range", "", &v.class, &v.msg, ""));
        println!("[{}] {}", v.class, v.msg);
        println!("depends on earlier runs of the same process; the replay file repeats them");
    }
    path
}

/// The draws of a run that never finished: run again in a process of its
/// own that writes each draw down as it is made.
fn full_tape(p: &Prop, size: u32, seed: u64, idx: u64) -> Vec<u32> {
    let f = dir().join("replays").join(format!(".draws-{}", std::process::id()));
    let k = Command::new(exe())
        .args(["draws", p.id, &size.to_string(), &seed.to_string(), &idx.to_string(), f.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    if let Ok(mut k) = k {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(10) {
            if let Ok(Some(_)) = k.try_wait() {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        let _ = k.kill();
        let _ = k.wait();
    }
    let t = read_list(&std::fs::read_to_string(&f).unwrap_or_default());
    let _ = std::fs::remove_file(&f);
    t
}

fn replay_in_child(path: &Path) -> (bool, String, String, String) {
    let mut k = match Command::new(exe())
        .args(["replay", path.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(k) => k,
        Err(_) => return (false, String::new(), String::new(), String::new()),
    };
    let so = k.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        use std::io::Read;
        let mut s = String::new();
        let _ = BufReader::new(so).read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let mut died = None;
    loop {
        match k.try_wait() {
            Ok(Some(st)) => {
                if st.code().is_none() {
                    died = Some("crash");
                }
                break;
            }
            Ok(None) if t0.elapsed() > Duration::from_secs(70) => {
                let _ = k.kill();
                let _ = k.wait();
                died = Some("hang");
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
    let s = h.join().unwrap_or_default();
    if let Some(d) = died {
        return (true, d.into(), format!("the simulated process ended by {}", d), s);
    }
    let mut class = String::new();
    let mut msg = String::new();
    let mut trace = String::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("CLASS ") {
            class = r.to_string();
        } else if let Some(r) = l.strip_prefix("MESSAGE ") {
            msg = unesc(r);
        } else {
            trace.push_str(l);
            trace.push('\n');
        }
    }
    (!class.is_empty(), class, msg, trace)
}

/// Exit 1 when the violation happens again.
fn replay(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')))
            .unwrap_or("")
            .to_string()
    };
    let p = props::find(&get("property"));
    let size: u32 = get("size").parse().unwrap_or(1);
    let seed: u64 = get("seed").parse().unwrap_or(1);
    let idx: u64 = get("run").parse().unwrap_or(0);
    let tape = read_tape(&s);
    let (e, c) = if get("mode") == "range" {
        let n: u64 = get("shards").parse().unwrap_or(1);
        let mut i: u64 = get("shard").parse().unwrap_or(0);
        loop {
            let r = execute(p, Tape::random(run_seed(p.id, seed, i)), size, i == idx);
            if i >= idx || !matches!(r.0, End::Held) {
                break r;
            }
            i += n;
        }
    } else {
        execute(p, Tape::fixed(tape), size, true)
    };
    for l in &c.trace {
        println!("{}", l.replace('\n', "\\n"));
    }
    match e {
        End::Held => {
            println!("held: not reproduced");
            0
        }
        End::Violated(f) => {
            println!("CLASS {}", f.class);
            println!("MESSAGE {}", esc(&f.msg));
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        End::Broken(s) => {
            println!("harness failure: {}", s);
            2
        }
    }
}

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let p = props::find(id);
    let seed = seed();
    let thorough = tier == "thorough";
    let (total, size, secs) = if thorough { (p.thorough, 3, 700) } else { (p.quick, 1, 240) };
    // for trying the checks out: a share of the runs only
    let pct = std::env::var("VERIF_PCT").ok().and_then(|s| s.parse().ok()).unwrap_or(100u64);
    let total = (total * pct / 100).max(1);
    let shards = std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(1, 8);
    let (tot, viol) = match sweep(p, size, seed, shards, total, secs) {
        Ok(x) => x,
        Err(b) => {
            println!("HARNESS-FAILURE property={}: {}", id, b);
            return 2;
        }
    };
    // the same seeds in one more process must give the same histories
    let mut recheck = (0u64, 0u64);
    if viol.is_none() {
        if let Ok((again, _)) = sweep(p, size, seed, 1, 64.min(total), 30) {
            for (i, h) in &again.hashes {
                recheck.0 += 1;
                if tot.hashes.get(i).map_or(false, |x| x.0 != h.0) {
                    recheck.1 += 1;
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let distinct: HashSet<u64> = tot.hashes.values().filter(|h| h.1).map(|h| h.0).collect();
    let mut samples: Vec<String> = tot.samples.iter().take(4).cloned().collect();
    if samples.is_empty() {
        samples.push("none".into());
    }
    let list = |v: &[&str]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"simulated_runs\": {},\n    \"seeds_per_hour\": {},\n    \"simulated_parses_per_hour\": {},\n    \"simulated_time_ticks\": {},\n    \"faults_and_events\": {{{}}},\n    \"distinct_states\": {},\n    \"state_measure\": \"hash of one observable step: call result (or point of the fault) together with the amount of input consumed; distinct_nontrivial counts distinct whole histories (program, schedule, faults, results)\",\n    \"determinism_recheck\": {{\"runs\": {}, \"mismatches\": {}}},\n    \"real_components\": [{}],\n    \"stub_components\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json(id),
        json(if thorough { "thorough" } else { "quick" }),
        seed,
        json(p.level),
        tot.execs.max(tot.runs),
        distinct.len(),
        json(p.rule),
        samples.iter().map(|s| json(&crate::common::clip(s, 1500))).collect::<Vec<_>>().join(", "),
        tot.runs,
        (tot.runs as f64 * 3600.0 / wall) as u64,
        (tot.execs as f64 * 3600.0 / wall) as u64,
        tot.time,
        tot.counts.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", "),
        tot.states.len(),
        recheck.0,
        recheck.1,
        list(&["conch_parser::lexer", "conch_parser::parse (Parser, TokenIter, backtick and here-document machinery, iterator)", "conch_parser::token", "the builder implementations named in `rule`"]),
        list(&["character source (simulated wire)", "recording builder", "virtual clock of the wire"]),
        list(&["the workload generator's own model of the shell language says what well-formed text means", "heap and panics are observed per simulated process"]),
        wall,
        viol.is_some() as u8
    );
    let ev = dir().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let code = match &viol {
        None => {
            println!(
                "{}: held on {} runs ({} simulated parses, {} distinct non-trivial histories) in {:.1} s",
                id,
                tot.runs,
                tot.execs,
                distinct.len(),
                wall
            );
            0
        }
        Some(v) => {
            let path = report(p, size, seed, shards, v);
            println!("VIOLATION property={} replay={}", id, path.display());
            1
        }
    };
    known_findings(id);
    if let Err(e) = std::fs::write(ev.join(format!("{}.json", id)), e) {
        println!("cannot write evidence: {}", e);
        return 2;
    }
    code
}

fn known_findings(id: &str) {
    let s = std::fs::read_to_string(dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            if r.starts_with(&format!("property={} ", id)) {
                println!("KNOWN-FINDING: {}", r);
            }
        }
    }
}

#[allow(dead_code)]
fn _types(_: Res) {}
