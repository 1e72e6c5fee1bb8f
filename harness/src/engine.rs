//! Case runner: generation, shrinking, statistics, evidence, crash and hang supervision.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use vref::tape::{hash_bytes, mix, Tape};

pub type Res = Result<(), String>;

pub struct Case {
    pub t: Tape,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub desc: String,
    pub want_desc: bool,
}

impl Case {
    pub fn new(t: Tape, want_desc: bool) -> Self {
        Case { t, labels: Vec::new(), nontrivial: false, desc: String::new(), want_desc }
    }
    pub fn label(&mut self, cond: bool, l: &'static str) {
        if cond && !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str(" | ");
            }
            self.desc.push_str(&f());
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Case) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// How cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} ({loc})")));
    }));
}

/// Runs `f`, giving the panic message and place if it panics
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case(check: &Check, t: Tape, want_desc: bool) -> (Case, Res) {
    let mut c = Case::new(t, want_desc);
    let r = match catch(|| (check.run)(&mut c)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    };
    (c, r)
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed, hash_bytes(id.as_bytes())), index)
}

/// Minimises the draws of a failing case, keeping it failing.
pub fn shrink(check: &Check, draws: Vec<u64>, budget: Duration) -> (Vec<u64>, String, usize) {
    let start = Instant::now();
    let mut tries = 0usize;
    let mut best = draws;
    let mut msg = String::new();
    let key = |d: &Vec<u64>| (d.len(), d.iter().filter(|&&x| x != 0).count(), d.iter().map(|&x| u128::from(x)).sum::<u128>());
    let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String, tries: &mut usize| -> bool {
        if key(&cand) >= key(best) {
            return false;
        }
        *tries += 1;
        let (c, r) = run_case(check, Tape::replay(cand), false);
        match r {
            Err(m) => {
                let used = c.t.into_used();
                if key(&used) < key(best) {
                    *best = used;
                    *msg = m;
                    return true;
                }
                false
            }
            Ok(()) => false,
        }
    };
    loop {
        let before = key(&best);
        // delete chunks
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                if !attempt(cand, &mut best, &mut msg, &mut tries) {
                    i += size.max(1);
                }
            }
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                if cand[i..end].iter().any(|&x| x != 0) {
                    cand[i..end].fill(0);
                    attempt(cand, &mut best, &mut msg, &mut tries);
                }
                i += size;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && start.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                if i >= cand.len() {
                    break;
                }
                cand[i] = mid;
                if attempt(cand, &mut best, &mut msg, &mut tries) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if key(&best) >= before || start.elapsed() >= budget {
            break;
        }
    }
    (best, msg, tries)
}

pub fn write_replay(dir: &Path, check: &Check, draws: &[u64], detail: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let mut s = format!("gifcheck-replay {}\n", check.id);
    let mut h = 0;
    for d in draws {
        h = mix(h, *d);
    }
    for c in draws.chunks(16) {
        s.push_str("tape");
        for d in c {
            let _ = write!(s, " {d}");
        }
        s.push('\n');
    }
    for l in detail.lines() {
        let _ = writeln!(s, "# {l}");
    }
    let p = dir.join(format!("{}-{:016x}.txt", check.id, h));
    let _ = std::fs::write(&p, s);
    p
}

/// /verif, or where GIFCHECK_DIR says
pub fn verif() -> PathBuf {
    std::env::var_os("GIFCHECK_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// Shrinks a failing case and writes the replay file. Returns it and what fails
pub fn shrink_and_write(c: &Check, draws: Vec<u64>, msg: &str) -> (PathBuf, String) {
    let budget = std::env::var("GIFCHECK_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
    let (best, _, tries) = shrink(c, draws.clone(), Duration::from_secs(budget));
    let (case, res) = run_case(c, Tape::replay(best.clone()), true);
    let dir = verif().join("replays");
    match res {
        Err(e) => {
            let detail = format!("shrunk in {tries} steps to: {e}\n{}", case.desc);
            (write_replay(&dir, c, &best, &format!("{e}\n{}", case.desc)), detail)
        }
        Ok(()) => (write_replay(&dir, c, &draws, msg), format!("the shrunk case doesn't fail again: {msg}")),
    }
}

pub enum Replay {
    Tape(String, Vec<u64>),
    Index(String, u64, u64),
    /// Input of the fuzzer
    Bytes(String, Vec<u8>),
}

pub fn read_replay(path: &Path) -> Result<Replay, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut id = None;
    let mut tape = Vec::new();
    let mut index = None;
    let mut bytes = None;
    for l in s.lines() {
        let mut w = l.split_ascii_whitespace();
        match w.next() {
            Some("gifcheck-replay") => id = w.next().map(String::from),
            Some("tape") => tape.extend(w.filter_map(|x| x.parse::<u64>().ok())),
            Some("bytes") => bytes = w.next().map(|h| (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect::<Vec<u8>>()),
            Some("index") => index = Some((w.next().and_then(|x| x.parse().ok()).unwrap_or(0), w.next().and_then(|x| x.parse().ok()).unwrap_or(0))),
            _ => {}
        }
    }
    let id = id.ok_or("not a replay file")?;
    if let Some(b) = bytes {
        return Ok(Replay::Bytes(id, b));
    }
    Ok(match index {
        Some((s, i)) => Replay::Index(id, s, i),
        None => Replay::Tape(id, tape),
    })
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<(u64, String)>,
}

pub fn write_evidence(path: &Path, check: &Check, tier: &str, seed: u64, r: &Report, wall: f64, extra: &str) {
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"classes\": {{{}}}{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(check.id),
        json_str(tier),
        seed,
        json_str(check.level),
        r.evaluations,
        r.distinct,
        json_str(check.rule),
        r.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "),
        r.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "),
        extra,
        check.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "),
        wall,
        u32::from(r.failure.is_some()),
    );
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(path, s);
}

/// Milliseconds (upper 24 bits) and index
pub static SLOWEST: AtomicU64 = AtomicU64::new(0);

pub const SLOTS: usize = 64;
/// Per worker
const MAX_DISTINCT: usize = 8_000_000;

/// Runs `total` cases on all cores. The in-flight index of each worker is kept in `status` for the supervisor.
pub fn run_all(check: &Check, seed: u64, total: u64, status: Option<&Path>, threads: usize, deadline: Duration) -> Report {
    let start = Instant::now();
    use std::os::unix::fs::FileExt;
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let failure: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let merged: Mutex<(u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<(u64, String)>)> = Mutex::new(Default::default());
    let status_file = status.map(|p| std::fs::OpenOptions::new().write(true).create(true).open(p).expect("status file"));
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        for slot in 0..threads.min(SLOTS) {
            let (next, stop_at, failure, merged, status_file) = (&next, &stop_at, &failure, &merged, &status_file);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut n = 0u64;
                    let mut distinct = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples: Vec<(u64, String)> = Vec::new();
                    let put = |v: u64| {
                        if let Some(f) = status_file {
                            let _ = f.write_all_at(&v.to_le_bytes(), slot as u64 * 8);
                        }
                    };
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total || i > stop_at.load(Ordering::Relaxed) || start.elapsed() > deadline {
                            break;
                        }
                        put(i + 1);
                        let want = samples.len() < 2;
                        let t0 = Instant::now();
                        let (c, r) = run_case(check, Tape::generate(case_seed(seed, check.id, i)), want);
                        let ms = t0.elapsed().as_millis() as u64;
                        SLOWEST.fetch_max(ms.min(0xFF_FFFF) << 40 | i, Ordering::Relaxed);
                        n += 1;
                        for l in &c.labels {
                            *labels.entry(l).or_default() += 1;
                        }
                        if c.nontrivial {
                            // bounded, so that long runs don't run out of memory: it's a lower bound then
                            if distinct.len() < MAX_DISTINCT {
                                distinct.insert(c.t.digest());
                            }
                            if want && !c.desc.is_empty() {
                                samples.push((i, c.desc.clone()));
                            }
                        }
                        if let Err(m) = r {
                            stop_at.fetch_min(i, Ordering::Relaxed);
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map_or(true, |(j, _)| i < *j) {
                                *f = Some((i, m));
                            }
                        }
                    }
                    put(0);
                    let mut g = merged.lock().unwrap();
                    g.0 += n;
                    g.1.extend(distinct);
                    for (k, v) in labels {
                        *g.2.entry(k).or_default() += v;
                    }
                    g.3.extend(samples);
                })
                .expect("spawn");
        }
    });
    done.store(true, Ordering::Relaxed);
    let (n, d, labels, mut samples) = merged.into_inner().unwrap();
    samples.sort();
    samples.truncate(6);
    let f = failure.into_inner().unwrap();
    let slow = SLOWEST.load(Ordering::Relaxed);
    println!("slowest case: {} ms, case {}", slow >> 40, slow & ((1 << 40) - 1));
    Report {
        evaluations: n,
        distinct: d.len() as u64,
        labels,
        samples: samples.into_iter().map(|(i, s)| format!("case {i}: {}", s.chars().take(600).collect::<String>())).collect(),
        failure: f,
    }
}

pub fn flush() {
    let _ = std::io::stdout().flush();
}
