//! Coverage-guided search over tapes (thorough runs). The build this runs in has edge counters in
//! faerie (and only there: `wrap.sh`); a tape that reaches an edge, or a number of passes over an
//! edge, or a class of case that none before it reached is kept and mutated further. Mutations know
//! what a tape is: rows are calls, so calls are repeated, dropped, moved and taken from other tapes.
use crate::drive::*;
use crate::run::*;
use crate::tape::*;
use std::collections::HashSet;
use std::path::Path;
use std::sync::Mutex;
use std::time::{Duration, Instant};

static COUNTERS: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);

/// Called by the constructors of instrumented code
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let mut c = COUNTERS.lock().unwrap();
    let r = (start as usize, stop as usize);
    if start < stop && !c.contains(&r) {
        c.push(r)
    }
}

fn counters() -> Vec<(usize, usize)> {
    COUNTERS.lock().unwrap().clone()
}
/// how many passes, roughly
fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4..=7 => 4,
        8..=15 => 5,
        16..=31 => 6,
        32..=127 => 7,
        _ => 8,
    }
}

struct Corpus {
    tapes: Vec<Tape>,
    /// how many new features each brought
    gain: Vec<u64>,
    /// how long each took, in microseconds
    cost: Vec<u64>,
    seen: Vec<u16>,
    classes: HashSet<String>,
    edges: u64,
    features: u64,
}
impl Corpus {
    fn observe(&mut self, regions: &[(usize, usize)], cx: &Cx) -> u64 {
        let mut new = 0;
        let mut i = 0;
        for &(a, b) in regions {
            let s = unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) };
            for c in s {
                let k = bucket(*c);
                *c = 0;
                if self.seen.len() <= i {
                    self.seen.push(0)
                }
                if k > 0 && self.seen[i] & 1 << k == 0 {
                    if self.seen[i] == 0 {
                        self.edges += 1
                    }
                    self.seen[i] |= 1 << k;
                    new += 1;
                }
                i += 1;
            }
        }
        for c in cx.st.classes.keys() {
            if !self.classes.contains(c) {
                self.classes.insert(c.clone());
                new += 1;
            }
        }
        self.features += new;
        new
    }
    fn pick(&self, m: &mut Mix) -> usize {
        // giants rarely: what descends from them is as slow as they are
        let mut cost = self.cost.clone();
        cost.sort_unstable();
        let limit = cost[cost.len() / 2] * 8;
        let a = self.pick_any(m);
        if self.cost[a] <= limit || m.below(60) == 0 {
            return a;
        }
        (0..8)
            .map(|_| self.pick_any(m))
            .find(|a| self.cost[*a] <= limit)
            .unwrap_or(0)
    }
    fn pick_any(&self, m: &mut Mix) -> usize {
        // rather the later ones, which reached something rare, and the quick ones
        let n = self.tapes.len();
        let (a, b) = match m.below(3) {
            0 => (n - 1 - m.below(n.min(32)), n - 1 - m.below(n.min(32))),
            _ => (m.below(n), m.below(n)),
        };
        let (x, y) = (self.cost[a] * self.gain[b], self.cost[b] * self.gain[a]);
        match m.below(20) {
            0 => a,
            1..=9 if x < y => a,
            1..=9 => b,
            _ if self.cost[a] < self.cost[b] => a,
            _ => b,
        }
    }
}

fn word(m: &mut Mix, w: u16) -> u16 {
    match m.below(8) {
        0 => 0,
        1 => 0xffff,
        2 => w.wrapping_add(1 + m.below(64) as u16),
        3 => w.wrapping_sub(1 + m.below(64) as u16),
        4 => w ^ 1 << m.below(16),
        5 => (m.below(17) * 0x1000).min(0xffff) as u16,
        _ => m.next() as u16,
    }
}
fn row(m: &mut Mix) -> Row {
    let mut r = [0; W];
    for x in &mut r {
        *x = m.next() as u16
    }
    r
}
fn mutate(t: &Tape, o: &Tape, m: &mut Mix, max: usize) -> Tape {
    let mut t = t.clone();
    for _ in 0..1 + m.below(4) {
        let n = t.rows.len();
        match m.below(14) {
            0 | 1 => {
                let i = m.below(W);
                t.hdr[i] = word(m, t.hdr[i])
            }
            2..=5 if n > 0 => {
                let (r, i) = (m.below(n), m.below(W));
                t.rows[r][i] = word(m, t.rows[r][i])
            }
            6 if n > 0 && n < max => {
                let r = t.rows[m.below(n)];
                t.rows.insert(m.below(n + 1), r)
            }
            7 if n > 0 => {
                let a = m.below(n);
                t.rows.drain(a..(a + 1 + m.below(3)).min(n));
            }
            8 if n < max => {
                let r = row(m);
                t.rows.insert(m.below(n + 1), r)
            }
            9 if n > 1 => {
                let (a, b) = (m.below(n), m.below(n));
                t.rows.swap(a, b)
            }
            10 if n > 1 => {
                // one number as in another call
                let (a, b, i) = (m.below(n), m.below(n), m.below(W));
                t.rows[a][i] = t.rows[b][i]
            }
            11 if !o.rows.is_empty() && n < max => {
                let a = m.below(o.rows.len());
                let b = (a + 1 + m.below(6)).min(o.rows.len()).min(a + max - n);
                let at = m.below(n + 1);
                t.rows.splice(at..at, o.rows[a..b].iter().copied());
            }
            12 if !o.rows.is_empty() => {
                let a = m.below(o.rows.len());
                t.rows.truncate(m.below(n + 1));
                let room = max - t.rows.len();
                t.rows.extend(o.rows[a..].iter().take(room));
            }
            13 => {
                let i = m.below(W);
                t.hdr[i] = o.hdr[i]
            }
            _ => {}
        }
    }
    t
}

/// fewer calls, then simpler numbers, while the case still fails
fn shrink(s: &Spec, mut t: Tape, mut msg: String, dir: &Path) -> (Tape, String) {
    let end = Instant::now() + Duration::from_secs(60);
    let fails = |u: &Tape| {
        let mut cx = new_cx(0, true, dir, false);
        run_case(s, u, &mut cx).err()
    };
    let mut again = true;
    while again && Instant::now() < end {
        again = false;
        let mut step = (t.rows.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < t.rows.len() && Instant::now() < end {
                let mut u = t.clone();
                u.rows.drain(i..(i + step).min(t.rows.len()));
                match fails(&u) {
                    Some(m) => {
                        (t, msg, again) = (u, m, true);
                    }
                    None => i += step,
                }
            }
            if step == 1 {
                break;
            }
            step /= 2;
        }
        for r in 0..=t.rows.len() {
            for i in 0..W {
                let get = |t: &Tape| if r == 0 { t.hdr[i] } else { t.rows[r - 1][i] };
                for to in [0, get(&t) / 2, get(&t).saturating_sub(1)] {
                    if get(&t) <= to || Instant::now() >= end {
                        continue;
                    }
                    let mut u = t.clone();
                    *(if r == 0 { &mut u.hdr[i] } else { &mut u.rows[r - 1][i] }) = to;
                    if let Some(m) = fails(&u) {
                        (t, msg, again) = (u, m, true);
                    }
                }
            }
        }
    }
    (t, msg)
}

/// One shard: exit code 0 held, 1 found (found.tape and found.msg of the shard)
pub fn guided(id: &str, dir: &Path, shard: usize, cases: u64) -> i32 {
    let s = spec(id);
    let regions = counters();
    let mut m = Mix::new(seed().wrapping_mul(7919) + shard as u64 + hash_of(id));
    let mut c = Corpus {
        tapes: vec![],
        gain: vec![],
        cost: vec![],
        seen: vec![],
        classes: HashSet::new(),
        edges: 0,
        features: 0,
    };
    let start = Instant::now();
    let cur = dir.join(format!("cur{shard}"));
    let mut distinct = HashSet::new();
    let mut n = 0;
    // a case that does not end
    let tick = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let t2 = tick.clone();
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let k = t2.load(std::sync::atomic::Ordering::Relaxed);
            if k != last.0 {
                last = (k, Instant::now())
            } else if last.1.elapsed() > CASE_LIMIT {
                std::process::exit(4)
            }
        }
    });
    while n < cases && start.elapsed() < Duration::from_secs(1200) {
        n += 1;
        let t = if c.tapes.is_empty() || n < cases.min(400) / 4 || m.below(50) == 0 {
            let k = [2, 6, 12, s.rows][m.below(4)].min(s.rows);
            Tape {
                hdr: row(&mut m),
                rows: (0..m.below(k + 1)).map(|_| row(&mut m)).collect(),
            }
        } else {
            let (a, b) = (c.pick(&mut m), m.below(c.tapes.len()));
            mutate(&c.tapes[a], &c.tapes[b], &mut m, s.rows)
        };
        let _ = std::fs::write(&cur, t.to_text());
        tick.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut cx = new_cx(100 + shard, true, dir, true);
        cx.serial = n;
        let t0 = Instant::now();
        let r = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || run_case(&s, &t, &mut cx))
                .expect("thread")
                .join()
        })
        .unwrap_or_else(|_| Err("harness: thread".into()));
        let took = t0.elapsed();
        if let Err(e) = r {
            let (t, e) = shrink(&s, t, e, dir);
            let _ = std::fs::write(dir.join(format!("found{shard}.tape")), t.to_text());
            let _ = std::fs::write(dir.join(format!("found{shard}.msg")), e);
            return 1;
        }
        distinct.extend(cx.st.distinct.iter().copied());
        let gain = c.observe(&regions, &cx);
        if gain > 0 {
            c.tapes.push(t);
            c.gain.push(gain);
            c.cost.push(1 + took.as_micros() as u64);
        }
    }
    let _ = std::fs::remove_file(&cur);
    let _ = std::fs::write(
        dir.join(format!("guided{shard}.txt")),
        format!("{n} {} {} {} {}\n", distinct.len(), c.tapes.len(), c.edges, c.features),
    );
    0
}
