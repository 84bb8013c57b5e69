//! The runner: shards, counting, shrinking, replay files, evidence.
//!
//! `check ID` starts itself again as a worker process, so that a crash (abort, out of memory, stack
//! overflow) or a hang of the code under test is found and reported like any other failure.
use crate::drive::*;
use crate::props::*;
use crate::tape::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Spec {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rows: usize,
    pub check: Check,
    pub show: fn(&Tape) -> String,
    pub rule: &'static str,
    /// a second stage over the objects the first one kept
    pub post: Option<fn(&mut Vec<Kept>, &mut Post) -> Result<(), (Tape, String)>>,
    pub threads: usize,
}
pub type Kept = (Tape, Vec<u8>, &'static str);
/// What a second stage reports
pub struct Post {
    pub thorough: bool,
    pub scratch: PathBuf,
    pub extra: BTreeMap<String, u64>,
    pub deadline: Instant,
}

/// Built with debug assertions and overflow checks (the other build has neither, like a user's).
const DEV: bool = cfg!(debug_assertions);
/// The other build of this harness
fn other_exe() -> Option<PathBuf> {
    std::env::var_os("VERIF_RELEASE")
        .map(PathBuf::from)
        .filter(|p| p.exists())
}
pub const CASE_LIMIT: Duration = Duration::from_secs(200);

pub fn spec(id: &str) -> Spec {
    crate::specs::all().into_iter().find(|s| s.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}
fn limit_memory() {
    // address space: 20 GB, so that a runaway allocation ends the worker and nothing else
    let l = [20u64 << 30, 20u64 << 30];
    unsafe { setrlimit(9, &l) };
}

pub fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match a(1) {
        "check" => check(a(2), a(3) == "thorough"),
        "worker" => {
            limit_memory();
            worker(a(2), a(3) == "thorough", Path::new(a(4)))
        }
        "one" => {
            limit_memory();
            one(a(2), Path::new(a(3)))
        }
        "guided" => {
            limit_memory();
            crate::guided::guided(
                a(2),
                Path::new(a(3)),
                a(4).parse().unwrap_or(0),
                a(5).parse().unwrap_or(1000),
            )
        }
        "replay" => replay(Path::new(a(2))),
        "show" => {
            let (id, t) = read_replay(Path::new(a(2)));
            println!("{}", (spec(&id).show)(&t));
            0
        }
        // objects for looking at: keep ID DIR COUNT
        "keep" => {
            let s = spec(a(2));
            let dir = PathBuf::from(a(3));
            let n = a(4).parse().unwrap_or(20);
            let cfg = Config {
                cases: n,
                failure_persistence: None,
                ..Config::default()
            };
            let mut runner =
                TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &[seed() as u8; 32]));
            let cx = RefCell::new(new_cx(0, true, &dir, true));
            let _ = runner.run(&strategy(s.rows), |t| {
                let _ = run_case(&s, &t, &mut cx.borrow_mut());
                Ok(())
            });
            for (i, k) in cx.into_inner().keep.iter().enumerate() {
                let _ = std::fs::write(dir.join(format!("{i}.o")), &k.1);
                let _ = std::fs::write(dir.join(format!("{i}.tape")), k.0.to_text());
            }
            0
        }
        "list" => {
            for s in crate::specs::all() {
                println!("{}", s.id)
            }
            0
        }
        _ => {
            eprintln!("usage: faerie-verif check ID [quick|thorough] | replay FILE | show FILE | list");
            2
        }
    };
    std::process::exit(code)
}

// ---------------------------------------------------------------- running one case

/// Ok, or what failed. A panic of the oracle over what faerie produced counts as a failure of the
/// case; a panic of the generator is an error of the harness.
pub fn run_case(s: &Spec, t: &Tape, cx: &mut Cx) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.check)(t, cx))) {
        Ok(Err(m)) if m.starts_with("harness:") => {
            eprintln!("{m}");
            std::process::exit(3)
        }
        Ok(r) => r,
        Err(_) => {
            let m = take_panic().unwrap_or_else(|| "panic".into());
            if ["/gen.rs", "/model.rs", "/tape.rs", "/spec.rs", "/run.rs"]
                .iter()
                .any(|f| m.contains(f))
                || m.contains("harness:")
            {
                eprintln!("harness error: {m}");
                std::process::exit(3)
            }
            Err(format!("the object or outcome could not be interpreted: {m}"))
        }
    }
}
pub fn new_cx(shard: usize, thorough: bool, scratch: &Path, counting: bool) -> Cx {
    Cx {
        st: Stats::default(),
        counting,
        thorough,
        seed: seed(),
        shard,
        scratch: scratch.to_path_buf(),
        keep: vec![],
        serial: 0,
    }
}
/// run a single tape: exit code 0 held, 10 failed (message on stdout)
fn one(id: &str, path: &Path) -> i32 {
    let s = spec(id);
    let t = match std::fs::read_to_string(path).ok().and_then(|x| Tape::from_text(&x)) {
        Some(t) => t,
        None => return 3,
    };
    let scratch = path.parent().unwrap_or(Path::new("/tmp"));
    let mut cx = new_cx(99, false, scratch, false);
    cx.counting = s.post.is_some();
    if let Err(e) = run_case(&s, &t, &mut cx) {
        println!("{e}");
        return 10;
    }
    if let Some(f) = s.post {
        let mut p = Post {
            thorough: false,
            scratch: scratch.to_path_buf(),
            extra: BTreeMap::new(),
            deadline: Instant::now() + Duration::from_secs(100),
        };
        if let Err((_, e)) = f(&mut cx.keep, &mut p) {
            println!("{e}");
            return 10;
        }
    }
    0
}
enum Verdict {
    Held,
    Failed(String),
    Broken(String),
}
fn run_one(exe: &Path, id: &str, t: &Tape, dir: &Path) -> Verdict {
    let f = dir.join("one.tape");
    let _ = std::fs::write(&f, t.to_text());
    let out = dir.join("one.out");
    let mut c = match Command::new(exe)
        .args(["one", id])
        .arg(&f)
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Verdict::Broken(e.to_string()),
    };
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(0), _) => Verdict::Held,
                    (Some(10), _) => {
                        Verdict::Failed(std::fs::read_to_string(&out).unwrap_or_default().trim().to_string())
                    }
                    (None, Some(s)) => Verdict::Failed(format!("the process was ended by signal {s}")),
                    (c, _) => Verdict::Broken(format!("exit {c:?}")),
                }
            }
            Ok(None) if t0.elapsed() > CASE_LIMIT => {
                let _ = c.kill();
                let _ = c.wait();
                return Verdict::Failed(format!("no end after {} s", CASE_LIMIT.as_secs()));
            }
            _ => std::thread::sleep(Duration::from_millis(3)),
        }
    }
}
fn read_replay(p: &Path) -> (String, Tape) {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("{}: {e}", p.display());
        std::process::exit(2)
    });
    let id = s
        .lines()
        .find_map(|l| l.strip_prefix("property "))
        .unwrap_or("")
        .trim()
        .to_string();
    match Tape::from_text(&s) {
        Some(t) => (id, t),
        None => {
            eprintln!("{}: not a replay file", p.display());
            std::process::exit(2)
        }
    }
}
fn replay(p: &Path) -> i32 {
    let text = std::fs::read_to_string(p).unwrap_or_default();
    let line = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k))
            .map(|x| x.trim().to_string())
    };
    if let (Some(id), Some(name)) = (line("property "), line("probe ")) {
        let pr = crate::specs::probes()
            .into_iter()
            .find(|p| p.property == id && p.name == name);
        let Some(pr) = pr else {
            eprintln!("error: no probe {name} of {id}");
            return 3;
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (pr.run)()))
            .unwrap_or_else(|_| Err(take_panic().unwrap_or_default()));
        return match r {
            Ok(()) => {
                println!("held");
                0
            }
            Err(m) => {
                println!("failed: {m}");
                println!("VIOLATION property={id} replay={}", p.display());
                1
            }
        };
    }
    let (id, t) = read_replay(p);
    let dir = mkscratch(&id);
    // what fails in one build may be refused in the other
    let mut v = run_one(&std::env::current_exe().unwrap(), &id, &t, &dir);
    if let (Verdict::Held, Some(x)) = (&v, other_exe()) {
        v = run_one(&x, &id, &t, &dir);
    }
    let _ = std::fs::remove_dir_all(&dir);
    match v {
        Verdict::Held => {
            println!("held");
            0
        }
        Verdict::Failed(m) => {
            println!("{}\nfailed: {m}", (spec(&id).show)(&t));
            println!("VIOLATION property={id} replay={}", p.display());
            1
        }
        Verdict::Broken(m) => {
            eprintln!("error: {m}");
            3
        }
    }
}
fn mkscratch(id: &str) -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() {
        "/dev/shm"
    } else {
        "/tmp"
    };
    let d = PathBuf::from(format!("{base}/faerie-verif-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    if std::fs::create_dir_all(&d).is_err() {
        let d = PathBuf::from(format!("/tmp/faerie-verif-{id}-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        return d;
    }
    d
}

// ---------------------------------------------------------------- the worker

struct Found {
    tape: Tape,
    msg: String,
}
fn worker(id: &str, thorough: bool, dir: &Path) -> i32 {
    let s = spec(id);
    let total = if thorough { s.thorough } else { s.quick };
    let total = if DEV { total } else { (total / 2).max(1) };
    let total = match std::env::var("VERIF_CASES").ok().and_then(|x| x.parse().ok()) {
        Some(n) => n,
        None => total,
    };
    let n = s.threads.min(total.max(1) as usize).max(1);
    let t0 = Instant::now();
    let soft = Duration::from_secs(if thorough { 3000 } else { 240 });
    let stop = AtomicBool::new(false);
    let ticks: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicBool> = (0..n).map(|_| AtomicBool::new(false)).collect();
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let stats: Mutex<Vec<(Stats, Vec<Kept>)>> = Mutex::new(vec![]);
    let cut = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for shard in 0..n {
            let (s, stop, ticks, done, found, stats, cut) = (&s, &stop, &ticks, &done, &found, &stats, &cut);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let cases = total / n as u64 + u64::from((shard as u64) < total % n as u64);
                    let mut h = [0u8; 32];
                    let mut m =
                        Mix::new(seed().wrapping_mul(1000) + shard as u64 + hash_of(id) + if DEV { 0 } else { 500 });
                    for c in h.chunks_mut(8) {
                        c.copy_from_slice(&m.next().to_le_bytes());
                    }
                    let cfg = Config {
                        cases: cases as u32,
                        failure_persistence: None,
                        max_shrink_iters: 6000,
                        max_shrink_time: 60_000,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &h));
                    let cx = RefCell::new(new_cx(shard, thorough, dir, true));
                    let cur = dir.join(format!("cur{shard}"));
                    let msg = RefCell::new(String::new());
                    let r = runner.run(&strategy(s.rows), |t| {
                        let mut cx = cx.borrow_mut();
                        ticks[shard].fetch_add(1, Ordering::Relaxed);
                        if cx.counting {
                            if stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            if t0.elapsed() > soft {
                                cut.store(true, Ordering::Relaxed);
                                return Ok(());
                            }
                            cx.st.evaluations += 1;
                        }
                        let _ = std::fs::write(&cur, t.to_text());
                        match run_case(s, &t, &mut cx) {
                            Ok(()) => Ok(()),
                            Err(e) => {
                                if cx.counting {
                                    if stop.swap(true, Ordering::Relaxed) {
                                        return Ok(());
                                    }
                                    cx.counting = false;
                                }
                                *msg.borrow_mut() = e.clone();
                                Err(TestCaseError::fail(e))
                            }
                        }
                    });
                    let _ = std::fs::remove_file(&cur);
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(_, t)) => {
                            let mut c2 = new_cx(shard, thorough, dir, false);
                            let m = run_case(s, &t, &mut c2).err().unwrap_or_else(|| msg.borrow().clone());
                            found.lock().unwrap().push(Found { tape: t, msg: m })
                        }
                        Err(TestError::Abort(e)) => {
                            eprintln!("harness error: {e}");
                            std::process::exit(3)
                        }
                    }
                    let cx = cx.into_inner();
                    stats.lock().unwrap().push((cx.st, cx.keep));
                    done[shard].store(true, Ordering::Relaxed);
                })
                .expect("thread");
        }
        // watchdog
        let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
        while !done.iter().all(|d| d.load(Ordering::Relaxed)) {
            std::thread::sleep(Duration::from_millis(20));
            for i in 0..n {
                let k = ticks[i].load(Ordering::Relaxed);
                if done[i].load(Ordering::Relaxed) || k != last[i].0 {
                    last[i] = (k, Instant::now());
                } else if k > 0 && last[i].1.elapsed() > CASE_LIMIT {
                    std::process::exit(4)
                }
            }
        }
    });
    let mut st = Stats::default();
    let mut keep = vec![];
    for (x, k) in stats.into_inner().unwrap() {
        st.evaluations += x.evaluations;
        st.distinct.extend(x.distinct);
        for (k, v) in x.classes {
            *st.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in x.extra {
            *st.extra.entry(k).or_insert(0) += v;
        }
        if st.samples.len() < 4 {
            st.samples.extend(x.samples);
        }
        keep.extend(k);
    }
    let mut found = found.into_inner().unwrap();
    if cut.load(Ordering::Relaxed) {
        st.extra.insert("stopped by the time limit".into(), 1);
    }
    if found.is_empty() {
        if let Some(f) = s.post {
            keep.sort_by_cached_key(|k| hash_of(&k.0));
            let mut p = Post {
                thorough,
                scratch: dir.to_path_buf(),
                extra: BTreeMap::new(),
                deadline: Instant::now() + Duration::from_secs(if thorough { 1500 } else { 200 }),
            };
            let r = f(&mut keep, &mut p);
            for (k, v) in p.extra {
                *st.extra.entry(k).or_insert(0) += v;
            }
            if let Err((t, m)) = r {
                found.push(Found { tape: t, msg: m });
                let _ = std::fs::write(dir.join("needs_shrink"), "");
            }
        }
    }
    let _ = std::fs::write(dir.join("stats.json"), stats_json(&s, &st));
    if let Some(f) = found.into_iter().min_by_key(|f| f.tape.rows.len()) {
        let _ = std::fs::write(dir.join("found.tape"), f.tape.to_text());
        let _ = std::fs::write(dir.join("found.msg"), f.msg);
        return 1;
    }
    0
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn stats_json(s: &Spec, st: &Stats) -> String {
    let map = |m: &BTreeMap<String, u64>| {
        m.iter()
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .collect::<Vec<_>>()
            .join(", ")
    };
    format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"classes\": {{{}}}, \"measured\": {{{}}}}}",
        st.evaluations,
        st.distinct.len(),
        js(s.rule),
        st.samples.iter().take(4).map(|x| js(x)).collect::<Vec<_>>().join(", "),
        map(&st.classes),
        map(&st.extra)
    )
}

// ---------------------------------------------------------------- the check

/// drop rows while the case still fails (used where the case must run in its own process)
fn shrink_out_of_process(exe: &Path, id: &str, mut t: Tape, mut msg: String, dir: &Path) -> (Tape, String) {
    let end = Instant::now() + Duration::from_secs(90);
    let mut step = (t.rows.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < t.rows.len() && Instant::now() < end {
            let mut u = t.clone();
            u.rows.drain(i..(i + step).min(t.rows.len()));
            match run_one(exe, id, &u, dir) {
                Verdict::Failed(m) => {
                    t = u;
                    msg = m;
                    any = true;
                }
                _ => i += step,
            }
        }
        if Instant::now() >= end || (step == 1 && !any) {
            return (t, msg);
        }
        step = (step / 2).max(1);
    }
}
fn known_list() -> Vec<String> {
    std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: ").map(|x| x.trim().to_string()))
        .collect()
}
/// The build with edge counters in the code under test
fn guided_exe() -> Option<PathBuf> {
    std::env::var_os("VERIF_GUIDED")
        .map(PathBuf::from)
        .filter(|p| p.exists())
}
/// Ok: number of cases and a line for the evidence; Err: what was found, or that the stage broke
fn guided_stage(exe: &Path, s: &Spec, dir: &Path) -> Result<(u64, String), Option<(Tape, String)>> {
    let total = match std::env::var("VERIF_CASES").ok().and_then(|x| x.parse().ok()) {
        Some(n) => n,
        None => s.thorough / 8,
    };
    for i in 0..8 {
        for f in [format!("cur{i}"), format!("found{i}.tape"), format!("guided{i}.txt")] {
            let _ = std::fs::remove_file(dir.join(f));
        }
    }
    let run = |i: usize| {
        Command::new(exe)
            .args(["guided", s.id])
            .arg(dir)
            .arg(i.to_string())
            .arg((total / s.threads as u64).max(1).to_string())
            .spawn()
    };
    let kids: Vec<_> = (0..s.threads).map(run).collect();
    let mut ends = vec![];
    for k in kids {
        ends.push(
            k.and_then(|mut k| k.wait())
                .map_err(|e| eprintln!("error: {e}"))
                .map_err(|_| None)?,
        );
    }
    let tape = |f: PathBuf| std::fs::read_to_string(f).ok().and_then(|x| Tape::from_text(&x));
    let mut sum = [0u64; 3];
    let mut most = [0u64; 2];
    for (i, st) in ends.iter().enumerate() {
        match (st.code(), st.signal()) {
            (Some(0), _) => {
                let l = std::fs::read_to_string(dir.join(format!("guided{i}.txt"))).unwrap_or_default();
                let v: Vec<u64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                for (k, x) in v.iter().enumerate() {
                    match k {
                        0..=2 => sum[k] += x,
                        3 | 4 => most[k - 3] = most[k - 3].max(*x),
                        _ => {}
                    }
                }
            }
            (Some(1), _) => {
                let m = std::fs::read_to_string(dir.join(format!("found{i}.msg"))).unwrap_or_default();
                return Err(tape(dir.join(format!("found{i}.tape"))).map(|t| (t, m)));
            }
            (Some(4), _) | (None, Some(_)) => {
                let t = tape(dir.join(format!("cur{i}"))).ok_or(None)?;
                return match run_one(exe, s.id, &t, dir) {
                    Verdict::Failed(m) if m.starts_with("no end") => Err(Some((t, m))),
                    Verdict::Failed(m) => Err(Some(shrink_out_of_process(exe, s.id, t, m, dir))),
                    _ => {
                        eprintln!("error: the guided search ended with {st} and its case does not repeat it");
                        Err(None)
                    }
                };
            }
            _ => {
                eprintln!("error: the guided search ended with {st}");
                return Err(None);
            }
        }
    }
    Ok((
        sum[0],
        format!(
            "\"guided\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"corpus\": {}, \"edges\": {}, \"features\": {}}}, ",
            sum[0], sum[1], sum[2], most[0], most[1]
        ),
    ))
}
fn check(id: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let s = spec(id);
    let dir = mkscratch(id);
    let exe = std::env::current_exe().unwrap();
    // the probes of recorded findings
    let known = known_list();
    let mut violation: Option<(Tape, String, Option<String>)> = None;
    for pr in crate::specs::probes().into_iter().filter(|p| p.property == id) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (pr.run)()))
            .unwrap_or_else(|_| Err(take_panic().unwrap_or_default()));
        if let Err(m) = r {
            let key = format!("property={id} probe={}", pr.name);
            if known.iter().any(|k| k.starts_with(&format!("{key} "))) {
                println!(
                    "KNOWN-FINDING: property={id} {}: {}",
                    pr.name,
                    m.lines().next().unwrap_or("")
                );
            } else {
                violation = Some((
                    Tape {
                        hdr: [0; W],
                        rows: vec![],
                    },
                    m,
                    Some(pr.name.to_string()),
                ));
            }
        }
    }
    let mut code = 0;
    let mut guided_n = 0;
    let mut covs = vec![];
    for exe in std::iter::once(exe).chain(other_exe()) {
        if violation.is_some() || code != 0 {
            break;
        }
        for f in ["stats.json", "found.tape", "found.msg", "needs_shrink"] {
            let _ = std::fs::remove_file(dir.join(f));
        }
        let st = Command::new(&exe)
            .args(["worker", id, if thorough { "thorough" } else { "quick" }])
            .arg(&dir)
            .status();
        code = match st {
            Err(e) => {
                eprintln!("error: {e}");
                3
            }
            Ok(st) => match (st.code(), st.signal()) {
                (Some(0), _) => 0,
                (Some(1), _) => {
                    let t = std::fs::read_to_string(dir.join("found.tape"))
                        .ok()
                        .and_then(|x| Tape::from_text(&x));
                    let mut m = std::fs::read_to_string(dir.join("found.msg")).unwrap_or_default();
                    match t {
                        Some(mut t) => {
                            if dir.join("needs_shrink").exists() {
                                let r = shrink_out_of_process(&exe, id, t, m, &dir);
                                t = r.0;
                                m = r.1;
                            }
                            violation = Some((t, m, None));
                            0
                        }
                        None => 3,
                    }
                }
                (Some(4), _) | (None, Some(_)) => {
                    // a hang or a crash: find the case among those that were running
                    let mut v = None;
                    for i in 0..s.threads {
                        let f = dir.join(format!("cur{i}"));
                        if let Some(t) = std::fs::read_to_string(&f).ok().and_then(|x| Tape::from_text(&x)) {
                            if let Verdict::Failed(m) = run_one(&exe, id, &t, &dir) {
                                v = Some((t, m));
                                break;
                            }
                        }
                    }
                    match v {
                        Some((t, m)) => {
                            let (t, m) = if m.starts_with("no end") {
                                (t, m)
                            } else {
                                shrink_out_of_process(&exe, id, t, m, &dir)
                            };
                            violation = Some((t, m, None));
                            0
                        }
                        None => {
                            eprintln!(
                                "error: the worker ended with {:?}/{:?} and no case repeats it",
                                st.code(),
                                st.signal()
                            );
                            3
                        }
                    }
                }
                (c, _) => c.unwrap_or(3).max(2),
            },
        };
        if let Ok(c) = std::fs::read_to_string(dir.join("stats.json")) {
            covs.push(c)
        }
    }
    // the coverage-guided stage of thorough runs
    let mut search = String::new();
    if let (true, true, Some(exe)) = (thorough, violation.is_none() && code == 0, guided_exe()) {
        match guided_stage(&exe, &s, &dir) {
            Ok((cases, text)) => {
                guided_n = cases;
                search = text
            }
            Err(Some((t, m))) => violation = Some((t, m, None)),
            Err(None) => code = 3,
        }
    }
    let num = |c: &str, k: &str| -> u64 {
        c.split(&format!("\"{k}\": "))
            .nth(1)
            .and_then(|x| x.split([',', '}']).next()?.parse().ok())
            .unwrap_or(0)
    };
    let (mut ev_n, di_n) = covs.iter().fold((0, 0), |a, c| {
        (a.0 + num(c, "evaluations"), a.1 + num(c, "distinct_nontrivial"))
    });
    ev_n += guided_n;
    if violation.is_none() && code == 0 {
        println!(
            "{id}: held ({ev_n} cases, {di_n} distinct non-trivial, {:.1} s)",
            t0.elapsed().as_secs_f64()
        );
    }
    let ev = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(ev.join("replays"));
    let cov = covs.first().map(|c| {
        // the first build's coverage, with the totals over both
        let rest = c.split_once(", \"rule\"").map(|x| x.1).unwrap_or("}");
        let rel = covs.get(1).map_or(0, |c| num(c, "evaluations"));
        format!(
            "{{\"evaluations\": {ev_n}, \"distinct_nontrivial\": {di_n}, \"evaluations_without_debug_assertions\": {rel}, {search}\"rule\"{rest}"
        )
    }).unwrap_or_else(|| {
        format!(
            "{{\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": {}, \"samples\": [\"(the worker did not finish)\"]}}",
            js(s.rule)
        )
    });
    let _ = std::fs::remove_dir_all(&dir);
    let j = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}}}\n",
        js(id),
        js(if thorough { "thorough" } else { "quick" }),
        seed(),
        cov,
        "[\"the independent readers, linkers and the reference model in /verif/harness state the property faithfully\"]",
        t0.elapsed().as_secs_f64(),
        violation.is_some() as u32
    );
    if std::fs::write(ev.join(format!("{id}.json")), j).is_err() {
        eprintln!("error: cannot write the evidence file");
        return 3;
    }
    if let Some((t, m, probe)) = violation {
        let f = ev.join("replays").join(format!("{id}.txt"));
        let body = match &probe {
            Some(p) => format!("property {id}\nprobe {p}\n{m}\n"),
            None => format!(
                "property {id}\n{}\n# {}\n\n{}\n",
                t.to_text(),
                m.replace('\n', "\n# "),
                (s.show)(&t)
            ),
        };
        let _ = std::fs::write(&f, body);
        println!("failed: {m}");
        if probe.is_none() {
            println!("{}", (s.show)(&t).lines().take(60).collect::<Vec<_>>().join("\n"));
        }
        println!("VIOLATION property={id} replay={}", f.display());
        return 1;
    }
    code
}
