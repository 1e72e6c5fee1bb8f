//! gifcheck check <ID> <quick|thorough>   run a check under supervision
//! gifcheck run <ID> <tier> <status>      the same without (used by `check`)
//! gifcheck replay <file>                 run a replay file again
//! gifcheck case <ID> <seed> <index>      run one case
//! gifcheck list
use gifcheck::alloc::Counting;
use gifcheck::checks;
use gifcheck::engine::{self, *};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, ExitStatus};
use std::time::{Duration, Instant};

#[global_allocator]
static A: Counting = Counting;

/// CPU seconds within which a case that takes milliseconds has to be done
const CASE_CPU: u64 = 40;

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn get(id: &str) -> Check {
    checks::by_id(id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        exit(2)
    })
}

fn violation(id: &str, path: &Path) -> ! {
    println!("VIOLATION property={id} replay={}", path.display());
    engine::flush();
    exit(1)
}

fn run(id: &str, tier: &str, status: &Path) -> ! {
    let c = get(id);
    let start = Instant::now();
    let seed = seed();
    let scale: f64 = std::env::var("GIFCHECK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if tier == "thorough" { c.thorough } else { c.quick }) as f64 * scale).ceil() as u64;
    let threads = std::env::var("GIFCHECK_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let r = run_all(&c, seed, total, Some(status), threads, Duration::from_secs(if tier == "thorough" { 3 * 3600 } else { 400 }));
    let ev = verif().join("evidence").join(format!("{id}.json"));
    write_evidence(&ev, &c, tier, seed, &r, start.elapsed().as_secs_f64(), "");
    println!("{id}: {} cases, {} distinct non-trivial, {:.1} s", r.evaluations, r.distinct, start.elapsed().as_secs_f64());
    for (k, v) in &r.labels {
        println!("  {:5.1}% {k}", 100.0 * *v as f64 / r.evaluations.max(1) as f64);
    }
    let Some((index, msg)) = r.failure else {
        engine::flush();
        exit(0)
    };
    println!("case {index} fails: {msg}");
    engine::flush();
    // if shrinking gets stuck or dies, the supervisor reports this one
    let p = index_replay(&c, seed, index, &msg);
    let _ = std::fs::write(status.with_extension("fail"), p.to_string_lossy().as_bytes());
    let (case, _) = run_case(&c, vref::tape::Tape::generate(case_seed(seed, c.id, index)), false);
    let (p, detail) = shrink_and_write(&c, case.t.into_used(), &msg);
    println!("{detail}");
    violation(id, &p)
}

fn index_replay(c: &Check, seed: u64, index: u64, msg: &str) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-seed{seed}-case{index}.txt", c.id));
    let detail: String = msg.lines().map(|l| format!("# {l}\n")).collect();
    let _ = std::fs::write(&p, format!("gifcheck-replay {}\nindex {seed} {index}\n{detail}", c.id));
    p
}

fn one(c: &Check, t: vref::tape::Tape) -> ! {
    let (case, r) = run_case(c, t, true);
    println!("{}", case.desc);
    match r {
        Ok(()) => {
            println!("{}: holds", c.id);
            exit(0)
        }
        Err(e) => {
            println!("{}: FAILS: {e}", c.id);
            exit(1)
        }
    }
}

fn replay(path: &str) -> ! {
    match read_replay(Path::new(path)) {
        Err(e) => {
            eprintln!("{e}");
            exit(2)
        }
        Ok(Replay::Tape(id, d)) => one(&get(&id), vref::tape::Tape::replay(d)),
        Ok(Replay::Bytes(id, b)) => one(&get(&id), vref::tape::Tape::fuzzed(&b)),
        Ok(Replay::Index(id, s, i)) => one(&get(&id), vref::tape::Tape::generate(case_seed(s, &id, i))),
    }
}

/// Generated cases as input for the fuzzer
fn inputs(c: &Check, n: u64, dir: &Path) {
    let _ = std::fs::create_dir_all(dir);
    for i in 0..n {
        let (mut case, _) = run_case(c, vref::tape::Tape::generate_input(case_seed(seed(), c.id, i)), false);
        let _ = std::fs::write(dir.join(format!("seed{i}")), case.t.take_input());
    }
}

enum Waited {
    Done(ExitStatus),
    Timeout,
}

fn wait(mut ch: std::process::Child, limit: Duration, mut poll: impl FnMut() -> bool) -> Waited {
    let start = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Waited::Done(s);
        }
        if start.elapsed() > limit || poll() {
            let _ = ch.kill();
            let _ = ch.wait();
            return Waited::Timeout;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn slots(status: &Path) -> Vec<u64> {
    std::fs::read(status).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

/// Coverage-guided search with libFuzzer over what the generators draw, starting from generated cases
fn fuzz(c: &Check, secs: u64) {
    let id = c.id;
    let exe = std::env::current_exe().expect("exe");
    let bin = verif().join("fuzz/target/release/giffuzz");
    if !bin.exists() {
        println!("{id}: no fuzzer at {}", bin.display());
        return;
    }
    let work = exe.with_file_name(format!("fuzz-{id}-{}", std::process::id()));
    let (corpus, seeds) = (work.join("corpus"), work.join("seeds"));
    let _ = std::fs::create_dir_all(&corpus);
    inputs(c, 400, &seeds);
    let threads = std::env::var("GIFCHECK_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let log = |i: usize| work.join(format!("log{i}"));
    let mut procs: Vec<_> = (0..threads)
        .map(|i| {
            let out = std::fs::File::create(log(i)).expect("log");
            let ch = Command::new(&bin)
                .arg(&corpus)
                .arg(&seeds)
                .args(["-reload=1", "-max_len=8192", "-timeout=45", "-rss_limit_mb=3500", "-malloc_limit_mb=3500", "-print_final_stats=1", "-verbosity=1", "-use_value_profile=0"])
                .arg(format!("-max_total_time={secs}"))
                .arg(format!("-seed={}", seed() * 100 + i as u64 + 1))
                .arg(format!("-artifact_prefix={}/{i}-", work.display()))
                .env("GIFCHECK_ID", id)
                .stdout(out.try_clone().expect("log"))
                .stderr(out)
                .spawn()
                .expect("fuzzer");
            (i, ch)
        })
        .collect();
    let start = Instant::now();
    let mut bad = None;
    while !procs.is_empty() && bad.is_none() && start.elapsed() < Duration::from_secs(secs + 200) {
        procs.retain_mut(|(i, ch)| match ch.try_wait() {
            Ok(Some(s)) => {
                if !s.success() && bad.is_none() {
                    bad = Some((*i, s));
                }
                false
            }
            _ => true,
        });
        std::thread::sleep(Duration::from_millis(100));
    }
    for (_, ch) in &mut procs {
        let _ = ch.kill();
        let _ = ch.wait();
    }
    let read = |i: usize| String::from_utf8_lossy(&std::fs::read(log(i)).unwrap_or_default()).into_owned();
    let mut runs = 0u64;
    for i in 0..threads {
        runs += read(i).lines().filter_map(|l| l.strip_prefix("stat::number_of_executed_units:")?.trim().parse::<u64>().ok()).sum::<u64>();
    }
    let kept = std::fs::read_dir(&corpus).map_or(0, |d| d.count());
    println!("{id}: {runs} cases by coverage-guided fuzzing, {kept} of them reached something new, {:.0} s", start.elapsed().as_secs_f64());
    let ev = verif().join("evidence").join(format!("{id}.json"));
    if let Ok(s) = std::fs::read_to_string(&ev) {
        let v = u32::from(bad.is_some());
        let s = s.replacen("  \"classes\":", &format!("  \"fuzz_evaluations\": {runs},\n  \"fuzz_corpus\": {kept},\n  \"classes\":"), 1).replacen("\"violations\": 0", &format!("\"violations\": {v}"), 1);
        let _ = std::fs::write(&ev, s);
    }
    let Some((i, status)) = bad else {
        let _ = std::fs::remove_dir_all(&work);
        return;
    };
    let text = read(i);
    let line = text.lines().find_map(|l| l.strip_prefix("fuzzing found ").map(String::from));
    if let Some(l) = line {
        let from = text.find("shrunk").or_else(|| text.find("the shrunk")).unwrap_or(0);
        print!("{}", text[from..].chars().take(3000).collect::<String>());
        let _ = std::fs::remove_dir_all(&work);
        println!("{l}");
        engine::flush();
        exit(1)
    }
    // died, or took too long
    let tail: String = text.lines().rev().take(30).collect::<Vec<_>>().into_iter().rev().map(|l| format!("{l}\n")).collect();
    println!("the fuzzer ends with {status}\n{tail}");
    let artifact = std::fs::read_dir(&work).ok().and_then(|d| {
        d.flatten().map(|e| e.path()).find(|p| p.file_name().is_some_and(|n| ["crash-", "timeout-", "oom-"].iter().any(|k| n.to_string_lossy().starts_with(&format!("{i}-{k}")))))
    });
    let Some(a) = artifact else {
        println!("{id}: the fuzzer fails");
        exit(2)
    };
    let hex: String = std::fs::read(&a).unwrap_or_default().iter().map(|b| format!("{b:02x}")).collect();
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-fuzz-{}.txt", a.file_name().unwrap_or_default().to_string_lossy()));
    let _ = std::fs::write(&p, format!("gifcheck-replay {id}\nbytes {hex}\n"));
    let _ = std::fs::remove_dir_all(&work);
    violation(id, &p)
}

fn check(id: &str, tier: &str) -> ! {
    let c = get(id);
    let exe = std::env::current_exe().expect("exe");
    let status = exe.with_file_name(format!("status-{id}-{}", std::process::id()));
    let fail = status.with_extension("fail");
    let _ = std::fs::write(&status, []);
    let _ = std::fs::remove_file(&fail);
    let limit = Duration::from_secs(if tier == "thorough" { 4 * 3600 } else { 600 });
    let clean = || {
        let _ = std::fs::remove_file(&status);
        let _ = std::fs::remove_file(&fail);
    };
    let child = Command::new("bash")
        .arg("-c")
        .arg("ulimit -v 24000000; ulimit -c 0; exec \"$@\"")
        .arg("gifcheck")
        .arg(&exe)
        .args(["run", id, tier])
        .arg(&status)
        .spawn()
        .expect("spawn");
    // a worker that stays on one case for long is stuck, or the machine is
    let mut last = Vec::new();
    let mut since: Vec<Instant> = Vec::new();
    let w = wait(child, limit, || {
        let s = slots(&status);
        since.resize(s.len(), Instant::now());
        last.resize(s.len(), 0);
        let mut stuck = false;
        for i in 0..s.len() {
            if s[i] != last[i] || s[i] == 0 {
                since[i] = Instant::now();
                last[i] = s[i];
            }
            stuck |= since[i].elapsed() > Duration::from_secs(45);
        }
        if let Ok(m) = std::fs::metadata(&fail).and_then(|m| m.modified()) {
            stuck |= m.elapsed().unwrap_or_default() > Duration::from_secs(120);
        }
        stuck
    });
    let why = match w {
        Waited::Done(s) if s.code() == Some(0) => {
            clean();
            let secs = std::env::var("GIFCHECK_FUZZ").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 300 } else { 0 });
            if secs > 0 {
                fuzz(&c, secs);
            }
            exit(0)
        }
        Waited::Done(s) if s.code() == Some(1) => {
            clean();
            exit(1)
        }
        Waited::Done(s) => format!("died: {s}"),
        Waited::Timeout => "made no progress".to_string(),
    };
    if let Ok(p) = std::fs::read_to_string(&fail) {
        clean();
        violation(id, Path::new(&p));
    }
    println!("{id}: the process running the cases {why}; running the cases it was at one by one");
    let mut idx: Vec<u64> = slots(&status).into_iter().filter(|&x| x > 0).map(|x| x - 1).collect();
    idx.sort_unstable();
    clean();
    for i in idx {
        let mut bad = None;
        for _ in 0..2 {
            let ch = Command::new("bash")
                .arg("-c")
                .arg(format!("ulimit -v 5000000; ulimit -c 0; ulimit -t {CASE_CPU}; exec \"$@\""))
                .arg("gifcheck")
                .arg(&exe)
                .args(["case", id, &seed().to_string(), &i.to_string()])
                .stdout(std::process::Stdio::null())
                .spawn()
                .expect("spawn");
            bad = match wait(ch, Duration::from_secs(8 * CASE_CPU), || false) {
                Waited::Done(s) if s.code() == Some(0) => None,
                Waited::Done(s) if s.code() == Some(1) => Some("fails".to_string()),
                Waited::Done(s) => Some(format!("ends with {s} (signals: 24 or 9 = not done in {CASE_CPU} s of CPU time, 6 = aborted, 11 = stack overflow)")),
                Waited::Timeout => None,
            };
            if bad.is_none() {
                break;
            }
        }
        if let Some(b) = bad {
            println!("{id}: case {i} {b}");
            violation(id, &index_replay(&c, seed(), i, &b));
        }
    }
    println!("{id}: no single case reproduces this");
    exit(2)
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(String::as_str).collect();
    match a[1..] {
        ["list"] => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        ["check", id, tier] => check(id, tier),
        ["run", id, tier, status] => run(id, tier, Path::new(status)),
        ["replay", f] => replay(f),
        ["inputs", id, n, dir] => inputs(&get(id), n.parse().unwrap_or(100), Path::new(dir)),
        ["digest", k] => {
            let text = std::io::read_to_string(std::io::stdin()).unwrap_or_default();
            let draws = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            print!("{}", checks::c28::digest(draws, k.parse().unwrap_or(0)));
        }
        ["case", id, seed, index] => {
            let (s, i) = (seed.parse().unwrap_or(1), index.parse().unwrap_or(0));
            one(&get(id), vref::tape::Tape::generate(case_seed(s, id, i)))
        }
        _ => {
            eprintln!("usage: gifcheck check <ID> <quick|thorough> | replay <file> | case <ID> <seed> <index> | list");
            exit(2)
        }
    }
}
