//! How the crate is built makes no difference.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::jobs::{self, Job};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

pub const CHECK: Check = Check {
    id: "C33",
    run,
    quick: 300_000,
    thorough: 9_000_000,
    rule: "decoders, iterators, streaming decoders and frame decoders over valid or damaged files, with any options and read methods, encoder histories with writers that may fail at any byte, finished or dropped, and conversions of true-colour images, each run by the crate built in four ways: optimised with debug assertions and overflow checks; optimised without; as a debug build without the optional features; and for a 32-bit target (with a standard library built from its sources); non-trivial: it gets beyond opening",
    level: "exploration",
    assumptions: &[RELEASE],
};

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Server {
    fn new(name: &str) -> Result<Self, String> {
        let p = path(name);
        let mut child = Command::new(&p).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {e}", p.display()))?;
        let to = child.stdin.take().ok_or("stdin")?;
        let from = BufReader::new(child.stdout.take().ok_or("stdout")?);
        Ok(Server { child, to, from })
    }
    fn ask(&mut self, draws: &[u64]) -> Option<Vec<String>> {
        let text: Vec<String> = draws.iter().map(u64::to_string).collect();
        self.to.write_all((text.join(" ") + "\n").as_bytes()).ok()?;
        self.to.flush().ok()?;
        let mut line = String::new();
        self.from.read_line(&mut line).ok()?;
        let line = line.strip_suffix('\n')?;
        Some(if line.is_empty() { Vec::new() } else { line.split('\t').map(str::to_string).collect() })
    }
}

fn path(name: &str) -> PathBuf {
    // <verif>/harness/target/release/gifcheck
    let exe = std::env::current_exe().unwrap_or_default();
    let target = exe.ancestors().nth(4).map_or_else(PathBuf::new, |p| p.join("variants/target"));
    target.join(if name == "narrow" { "i686-unknown-linux-gnu/plain" } else { name }).join("gifvariant")
}

/// The 32-bit build needs the sources of the standard library, and libraries to run
fn can_narrow() -> bool {
    static CAN: OnceLock<bool> = OnceLock::new();
    *CAN.get_or_init(|| Server::new("narrow").is_ok_and(|mut s| s.ask(&[]).is_some()))
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

const BUILDS: [(&str, &str); 3] =
    [("plain", "built without debug assertions and overflow checks"), ("bare", "built without optional features"), ("narrow", "built for a 32-bit target")];

thread_local! {
    static SERVERS: RefCell<[Option<Server>; 3]> = const { RefCell::new([None, None, None]) };
}

fn run(c: &mut Case) -> Res {
    let j = jobs::job(&mut c.t);
    let draws = c.t.used().to_vec();
    c.describe(|| jobs::show(&j));
    let want: Vec<String> = jobs::run(&j, false).iter().map(|l| l.replace(['\n', '\t'], " ")).collect();
    c.nontrivial(want.len() > 1);
    c.label(matches!(j, Job::Enc { drop: true, fail: Some(_), .. }), "dropped with a writer that may fail");
    c.label(j.conversion(), "conversion");
    ensure!(!want.iter().any(|l| l.starts_with("drop panics") || l.starts_with("conversion ")), "{:?}; {}", want, jobs::show(&j));
    for (i, (name, what)) in BUILDS.iter().enumerate() {
        if j.conversion() && *name == "bare" {
            continue;
        }
        if *name == "narrow" && !can_narrow() {
            continue;
        }
        c.label(*name == "narrow", "32-bit");
        let got = SERVERS.with_borrow_mut(|s| {
            if s[i].is_none() {
                s[i] = Some(Server::new(name)?);
            }
            let r = s[i].as_mut().and_then(|s| s.ask(&draws));
            if r.is_none() {
                s[i] = None;
            }
            Ok::<_, String>(r)
        });
        let got = match got {
            Ok(Some(g)) => g,
            Ok(None) => return Err(format!("{what}: the process ends; {}", jobs::show(&j))),
            Err(e) => panic!("{e}"),
        };
        if got != want {
            let k = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
            return Err(format!("{what}: result {k} is {:?} instead of {:?}; {}", got.get(k), want.get(k), jobs::show(&j)));
        }
    }
    Ok(())
}
