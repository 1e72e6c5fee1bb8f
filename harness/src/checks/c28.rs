//! Decoders and encoders don't influence each other.
use super::*;
use crate::enc::{self, Hist};
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use crate::wild;
use gif::{Decoder, Encoder};
use std::io::{self, Read, Write};
use std::sync::Mutex;
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C28",
    run,
    quick: 80_000,
    thorough: 2_400_000,
    rule: "2 to 4 decoders (over valid or damaged files, any options, any read methods) and encoders (any histories) and conversions of true-colour images are run one after the other, again, after others that have been given up at any point, interleaved call by call in random order on one thread, nested in the reader or writer of another one, and each on a thread of its own, moving to another thread halfway; one in 60 is also run in a process of its own; non-trivial: at least two of them get beyond opening",
    level: "exploration",
    assumptions: &[TRUSTED],
};

enum Job {
    Dec { bytes: Vec<u8>, opt: Opt, sizes: Vec<usize>, how: Vec<u8> },
    Enc(Hist),
    /// Width, RGBA pixels and speed
    Conv(u16, Vec<u8>, i32),
}

/// Something else to do whenever the reader or writer is called
type Hook<'a> = Option<&'a (dyn Fn() + Sync)>;

/// Reader or writer
struct Io<'a> {
    chop: Chop<'a>,
    out: Vec<u8>,
    hook: Hook<'a>,
    calls: usize,
}

impl Io<'_> {
    fn called(&mut self) {
        self.calls += 1;
        if let (Some(h), true) = (self.hook, self.calls <= 12) {
            h();
        }
    }
}

impl Read for Io<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.called();
        self.chop.read(b)
    }
}

impl Write for Io<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.called();
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum State<'a> {
    Dec(Result<Decoder<Io<'a>>, ErrK>, &'a [u8], usize),
    Enc(Option<Encoder<Io<'a>>>, &'a Hist, usize),
    Conv(&'a [u8], u16, i32, usize),
}

fn start<'a>(j: &'a Job, hook: Hook<'a>) -> (State<'a>, String) {
    let io = |b: &'a [u8], sizes: &[usize]| Io { chop: Chop::new(b, sizes.to_vec()), out: Vec::new(), hook, calls: 0 };
    match j {
        Job::Dec { bytes, opt, sizes, how } => {
            let d = opt.build().read_info(io(bytes, sizes)).map_err(ErrK::from);
            let s = match &d {
                Ok(d) => format!("{:?}", header(d)),
                Err(e) => format!("{e:?}"),
            };
            (State::Dec(d, how, 0), s)
        }
        Job::Conv(w, p, speed) => (State::Conv(p, *w, *speed, 0), "conversion".into()),
        Job::Enc(h) => match Encoder::new(io(&[], &[]), h.width, h.height, &h.gpal) {
            Ok(e) => (State::Enc(Some(e), h, 0), "ok".into()),
            Err(e) => (State::Enc(None, h, 0), e.to_string()),
        },
    }
}

/// One call. None when there's nothing left to do
fn step(s: &mut State<'_>) -> Option<String> {
    match s {
        State::Dec(Err(_), ..) => None,
        State::Dec(Ok(d), how, i) => {
            let h = how[*i % how.len()];
            *i += 1;
            if *i > 300 {
                return None;
            }
            let r = match h {
                0 => d.read_next_frame().map(|f| f.map(FrameOut::from)),
                _ => d.next_frame_info().map(|f| f.map(FrameOut::from)).and_then(|f| {
                    let Some(mut f) = f else { return Ok(None) };
                    let n = d.buffer_size().min(100_000);
                    let mut b = vec![0; n];
                    match h {
                        1 => {}
                        2 => d.read_into_buffer(&mut b)?,
                        _ => {
                            let m = n / 2 & !3;
                            d.fill_buffer(&mut b[..m])?;
                        }
                    }
                    f.buffer = b;
                    Ok(Some(f))
                }),
            };
            match r {
                Ok(Some(f)) => Some(format!("{f:?} {:x}", vref::tape::hash_bytes(&f.buffer))),
                Ok(None) => {
                    *i = 1000;
                    Some("end".into())
                }
                Err(e) => {
                    *i = 1000;
                    Some(format!("{:?}", ErrK::from(e)))
                }
            }
        }
        State::Conv(p, w, speed, i) => {
            *i += 1;
            let h = (p.len() / 4 / usize::from(*w)) as u16;
            match *i {
                1 => {
                    let f = gif::Frame::from_rgba_speed(*w, h, &mut p.to_vec(), *speed);
                    Some(format!("{:?} {:x}", FrameOut::from(&f), vref::tape::hash_bytes(&f.buffer)))
                }
                2 => {
                    let rgb: Vec<u8> = p.chunks(4).flat_map(|c| [c[0], c[1], c[2]]).collect();
                    let mut f = gif::Frame::from_rgb_speed(*w, h, &rgb, *speed);
                    f.make_lzw_pre_encoded();
                    Some(format!("{:?} {:x}", FrameOut::from(&f), vref::tape::hash_bytes(&f.buffer)))
                }
                _ => None,
            }
        }
        State::Enc(e, h, i) => {
            let enc = e.as_mut()?;
            match h.ops.get(*i) {
                Some(o) => {
                    *i += 1;
                    Some(format!("{:?}", enc::apply(enc, o).map_err(|e| e.to_string())))
                }
                None => Some(match e.take()?.into_inner() {
                    Ok(v) => format!("{} bytes {:x}", v.out.len(), vref::tape::hash_bytes(&v.out)),
                    Err(e) => e.to_string(),
                }),
            }
        }
    }
}

fn alone(j: &Job) -> Vec<String> {
    with_hook(j, None)
}

fn with_hook<'a>(j: &'a Job, hook: Hook<'a>) -> Vec<String> {
    let (mut s, first) = start(j, hook);
    let mut v = vec![first];
    while let Some(x) = step(&mut s) {
        v.push(x);
    }
    v
}

fn job(t: &mut Tape) -> Job {
    if t.chance(1, 8) {
        // the speed makes a difference beyond 1509 pixels only
        let large = t.chance(1, 5);
        let (w, h) = if large { (t.range(40, 60) as u16, t.range(40, 60) as u16) } else { vref::gen::dims(t, 500, false) };
        let n = usize::from(w) * usize::from(h) * 4;
        let max = if large { 255 } else { t.pick(&[255u8, 1, 7, 63]) };
        Job::Conv(w, t.bytes(n, max), t.range(if large { 1 } else { 5 }, 30) as i32)
    } else if t.chance(1, 3) {
        Job::Enc(enc::hist(t, 5))
    } else {
        let (bytes, _) = wild::bytes(t);
        let opt = Opt::any(t);
        let sizes = if t.bool() { Vec::new() } else { chop_sizes(t) };
        let n = t.urange(1, 4);
        let how = (0..n).map(|_| if opt.skip { t.below(2) as u8 } else { t.below(4) as u8 }).collect();
        Job::Dec { bytes, opt, sizes, how }
    }
}

fn show(j: &Job) -> String {
    match j {
        Job::Dec { bytes, opt, sizes, how } => format!("decoder {opt:?} reads {sizes:?} how {how:?} file {}", hex(bytes)),
        Job::Enc(h) => enc::show(h),
        Job::Conv(w, p, speed) => format!("conversion of RGBA pixels, width {w}, speed {speed}: {}", hex(p)),
    }
}

fn jobs(t: &mut Tape) -> Vec<Job> {
    let n = t.urange(2, 4);
    (0..n).map(|_| job(t)).collect()
}

/// In a process of its own: runs one job only and prints what it gives
pub fn digest(draws: Vec<u64>, k: usize) -> String {
    alone(&jobs(&mut Tape::replay(draws))[k]).join("\n")
}

fn other_process(draws: &[u64], k: usize) -> Option<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().ok()?;
    // not in the fuzzer
    if exe.file_name()? != "gifcheck" {
        return None;
    }
    let mut ch = Command::new(exe).args(["digest", &k.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let text: Vec<String> = draws.iter().map(u64::to_string).collect();
    ch.stdin.take()?.write_all(text.join(" ").as_bytes()).ok()?;
    let out = ch.wait_with_output().ok()?;
    out.status.success().then(|| String::from_utf8_lossy(&out.stdout).into_owned())
}

fn run(c: &mut Case) -> Res {
    let jobs = jobs(&mut c.t);
    let n = jobs.len();
    let draws = c.t.used().to_vec();
    c.describe(|| jobs.iter().map(show).collect::<Vec<_>>().join(" || "));
    let all = || jobs.iter().map(show).collect::<Vec<_>>().join(" || ");
    let want: Vec<Vec<String>> = jobs.iter().map(alone).collect();
    c.nontrivial(want.iter().filter(|w| w.len() > 2).count() >= 2);
    c.label(jobs.iter().any(|j| matches!(j, Job::Enc(_))), "with an encoder");
    for (i, j) in jobs.iter().enumerate() {
        let again = alone(j);
        ensure!(again == want[i], "job {i} run again: {}; {}", first_diff(&again, &want[i]), all());
    }
    if c.t.chance(1, 60) {
        for (i, w) in want.iter().enumerate() {
            if let Some(o) = other_process(&draws, i) {
                c.label(true, "in other processes");
                let o: Vec<String> = o.split('\n').map(str::to_string).collect();
                ensure!(o == *w, "job {i} in a process of its own: {}; {}", first_diff(&o, w), all());
            }
        }
    }
    // given up by another one
    for _ in 0..c.t.below(4) {
        let (a, b) = (c.t.below(n as u64) as usize, c.t.below(n as u64) as usize);
        let (mut s, _) = start(&jobs[a], None);
        let k = c.t.below(6);
        for _ in 0..k {
            step(&mut s);
        }
        drop(s);
        let again = alone(&jobs[b]);
        ensure!(again == want[b], "job {b} after job {a} has been dropped after {k} calls: {}; {}", first_diff(&again, &want[b]), all());
    }
    // one works while the reader or writer of another is called
    if c.t.chance(1, 3) {
        c.label(true, "nested");
        let (a, b) = (c.t.below(n as u64) as usize, c.t.below(n as u64) as usize);
        let inner = Mutex::new(None);
        let hook = || {
            let v = alone(&jobs[b]);
            if v != want[b] {
                *inner.lock().unwrap() = Some(first_diff(&v, &want[b]));
            }
        };
        let got = with_hook(&jobs[a], Some(&hook));
        if let Some(e) = inner.into_inner().unwrap() {
            return Err(format!("job {b} while job {a} reads or writes: {e}; {}", all()));
        }
        ensure!(got == want[a], "job {a} with job {b} in its reader or writer: {}; {}", first_diff(&got, &want[a]), all());
    }
    // interleaved
    let mut st: Vec<(State<'_>, Vec<String>)> = jobs
        .iter()
        .map(|j| {
            let (s, f) = start(j, None);
            (s, vec![f])
        })
        .collect();
    let mut live: Vec<usize> = (0..n).collect();
    while !live.is_empty() {
        let k = c.t.below(live.len() as u64) as usize;
        let (s, v) = &mut st[live[k]];
        match step(s) {
            Some(x) => v.push(x),
            None => {
                live.remove(k);
            }
        }
    }
    for (i, (_, v)) in st.iter().enumerate() {
        ensure!(*v == want[i], "job {i} interleaved: {}; {}", first_diff(v, &want[i]), all());
    }
    drop(st);
    if c.t.chance(1, 4) {
        c.label(true, "on threads");
        let got: Vec<Vec<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = jobs
                .iter()
                .map(|j| {
                    sc.spawn(move || {
                        let (mut s, f) = start(j, None);
                        let mut v = vec![f];
                        if let Some(x) = step(&mut s) {
                            v.push(x);
                        }
                        std::thread::scope(|sc2| {
                            sc2.spawn(move || {
                                while let Some(x) = step(&mut s) {
                                    v.push(x);
                                }
                                v
                            })
                            .join()
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().and_then(|x| x).unwrap_or_else(|_| vec!["panicked".into()])).collect()
        });
        for (i, v) in got.iter().enumerate() {
            ensure!(*v == want[i], "job {i} on its thread: {}; {}", first_diff(v, &want[i]), all());
        }
    }
    Ok(())
}

fn first_diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("call {i} gives {:?} instead of {:?}", a.get(i), b.get(i))
}
