//! Failing readers.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use std::io::{self, ErrorKind, Read};
use vref::gen::{self, Cfg};
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C16",
    run,
    quick: 1_000_000,
    thorough: 30_000_000,
    rule: "generated files read through a reader that gives short reads and injects errors: a permanent error of random kind and message at a random offset; interruptions at random reads; would-block errors at frame boundaries or anywhere during frame-information iteration; non-trivial: the fault is reached",
    level: "fault_enumeration",
    assumptions: &[TRUSTED, "a frame whose pixel codes are complete but whose block isn't may be returned or not before the error"],
};

#[derive(Clone, Debug)]
pub enum Fault {
    /// Error once, when everything before the offset has been given out
    Once(usize, ErrorKind, String),
    /// Error at and after the offset
    Always(usize, ErrorKind, String),
}

pub struct Faulty<'a> {
    pub inner: Chop<'a>,
    pub faults: Vec<Fault>,
    /// Interrupted on these reads (bit pattern, cycling)
    pub interrupts: u64,
    pub n: u32,
    pub hits: usize,
}

impl Read for Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.interrupts >> (self.n % 64) & 1 != 0 {
            self.hits += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        for i in 0..self.faults.len() {
            let (at, kind, msg, once) = match &self.faults[i] {
                Fault::Once(a, k, m) => (*a, *k, m.clone(), true),
                Fault::Always(a, k, m) => (*a, *k, m.clone(), false),
            };
            if self.inner.pos >= at {
                self.hits += 1;
                if once {
                    self.faults.remove(i);
                }
                return Err(io::Error::new(kind, msg));
            }
            n = n.min(at - self.inner.pos);
        }
        self.inner.read(&mut buf[..n])
    }
}

pub fn kind(t: &mut Tape) -> ErrorKind {
    t.pick(&[
        ErrorKind::Other,
        ErrorKind::ConnectionReset,
        ErrorKind::PermissionDenied,
        ErrorKind::TimedOut,
        ErrorKind::InvalidData,
        ErrorKind::BrokenPipe,
        ErrorKind::WouldBlock,
        ErrorKind::UnexpectedEof,
        ErrorKind::NotFound,
        ErrorKind::InvalidInput,
        ErrorKind::OutOfMemory,
    ])
}

fn run(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: if c.t.chance(1, 10) { 3000 } else { 100 }, max_frames: 4, no_end: true, ..Cfg::default() };
    let f = gen::file(&mut c.t, &cfg);
    let (bytes, sp) = f.serialize();
    let exp = f.frames();
    let rgba = c.t.chance(1, 3);
    let opt = Opt::rgba(rgba);
    let sizes = if c.t.chance(1, 3) { Vec::new() } else { chop_sizes(&mut c.t) };
    let want: Vec<FrameOut> = exp.iter().map(|e| expected(e, rgba, f.gct.as_deref())).collect();
    let interrupts = match c.t.weighted(&[2, 1, 1]) {
        0 => 0,
        1 => 1 << c.t.below(64),
        _ => c.t.seed() & c.t.seed() & 0x7FFF_FFFF_FFFF,
    };
    let mk = |faults: Vec<Fault>, interrupts: u64| Faulty { inner: Chop::new(&bytes, sizes.clone()), faults, interrupts, n: 0, hits: 0 };
    let show = |what: &str| format!("{what}, interrupts {interrupts:#x}, rgba {rgba}, reads {sizes:?}, {}; file {}", f.summary(), hex(&bytes));
    // interruptions only
    if interrupts != 0 {
        c.label(true, "interruptions");
        let mut r = mk(Vec::new(), interrupts);
        let out = decode_all(&mut r, &opt);
        c.nontrivial(r.hits > 0);
        if let Some(d) = diff_frames(&out.frames, &want) {
            return Err(format!("interruptions: {d} (end {:?}); {}", out.end, show("")));
        }
        ensure!(out.end == End::Clean, "interruptions: ends with {:?}; {}", out.end, show(""));
    }
    // a permanent error
    let at = c.t.below(sp.trailer as u64 + 1) as usize;
    let k = kind(&mut c.t);
    let msg = format!("fault {}", c.t.below(1000));
    let what = format!("{k:?} at {at}");
    c.describe(|| show(&what));
    let method = c.t.weighted(&[3, 1, 1, 1]);
    let mut r = mk(vec![Fault::Always(at, k, msg.clone())], interrupts);
    let out = match method {
        0 => decode_all(&mut r, &opt),
        _ => match opt.build().read_info(&mut r) {
            Err(e) => Outcome { header: None, frames: Vec::new(), end: End::Err(e.into()) },
            Ok(mut d) => {
                let h = header(&d);
                let mut frames = Vec::new();
                let end = if method == 1 {
                    let mut it = d.into_iter();
                    loop {
                        match it.next() {
                            Some(Ok(f)) => frames.push(FrameOut::from(&f)),
                            None => break End::Clean,
                            Some(Err(e)) => {
                                ensure!(it.next().is_none(), "the iterator goes on after an error; {}", show(&what));
                                break End::Err(e.into());
                            }
                        }
                    }
                } else {
                    loop {
                        let mut g = match d.next_frame_info() {
                            Ok(Some(f)) => FrameOut::from(f),
                            Ok(None) => break End::Clean,
                            Err(e) => break End::Err(e.into()),
                        };
                        let mut b = vec![0; d.buffer_size()];
                        if method == 3 && !g.interlaced {
                            // in pieces
                            let n = 4 * (1 + b.len() / 13);
                            let mut e = None;
                            for p in b.chunks_mut(n) {
                                match d.fill_buffer(p) {
                                    Ok(true) => {}
                                    Ok(false) => return Err(format!("fill_buffer gives false; {}", show(&what))),
                                    Err(x) => {
                                        e = Some(x);
                                        break;
                                    }
                                }
                            }
                            if let Some(e) = e {
                                break End::Err(e.into());
                            }
                        } else if let Err(e) = d.read_into_buffer(&mut b) {
                            break End::Err(e.into());
                        }
                        g.buffer = b;
                        g.interlaced = false;
                        frames.push(g);
                    }
                };
                Outcome { header: Some(h), frames, end }
            }
        },
    };
    c.nontrivial(r.hits > 0);
    super::c11::cut_ok(&f, &sp, &want, &out, at, false).map_err(|e| format!("{e}; {}", show(&what)))?;
    let e = End::Err(ErrK::Io(k, msg.clone()));
    ensure!(out.end == e, "ends with {:?} instead of {e:?}; {}", out.end, show(&what));
    c.label(out.header.is_none(), "while opening");
    c.label(out.header.is_some(), "after opening");
    if sp.images.is_empty() {
        return Ok(());
    }
    // would-block at frame boundaries, and calling again
    let mut faults = Vec::new();
    let k = c.t.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut]);
    let mut boundary = |n: usize, t: &mut Tape| {
        // when the first image has begun, opening is done
        let from = if n == 0 { sp.images[0].0 + 2 } else { sp.images[n - 1].3 };
        let to = sp.images.get(n).map_or(sp.trailer, |i| i.1);
        faults.push(Fault::Once(t.range(from as u64, to.max(from) as u64) as usize, k, "later".into()));
    };
    let n = c.t.urange(1, 3);
    let mut at: Vec<usize> = (0..n).map(|_| c.t.below(sp.images.len() as u64 + 1) as usize).collect();
    at.sort_unstable();
    at.dedup();
    for a in at {
        boundary(a, &mut c.t);
    }
    let what = format!("{faults:?}");
    let planned = faults.len();
    let mut seen = 0;
    {
        let mut r = mk(faults, interrupts);
        let mut d = opt.build().read_info(&mut r).map_err(|e| format!("opening: {e}; {}", show(&what)))?;
        let mut frames: Vec<FrameOut> = Vec::new();
        loop {
            match d.read_next_frame() {
                Ok(Some(f)) => frames.push(FrameOut::from(f)),
                Ok(None) => break,
                Err(e) => {
                    let e = ErrK::from(e);
                    ensure!(e == ErrK::Io(k, "later".into()), "{e:?}; {}", show(&what));
                    seen += 1;
                    ensure!(seen <= planned, "error reported more than once; {}", show(&what));
                }
            }
        }
        if let Some(x) = diff_frames(&frames, &want) {
            return Err(format!("resumed: {x}; {}", show(&what)));
        }
    }
    ensure!(seen == planned, "{seen} errors instead of {planned}; {}", show(&what));
    c.label(true, "resumed at frame boundaries");
    // anywhere, reading information only
    let first = sp.images[0].0 + 2;
    let mut faults: Vec<Fault> = (0..c.t.urange(1, 4)).map(|_| Fault::Once(c.t.range(first as u64, sp.trailer as u64) as usize, ErrorKind::WouldBlock, "later".into())).collect();
    faults.sort_by_key(|f| match f {
        Fault::Once(a, ..) | Fault::Always(a, ..) => *a,
    });
    let what = format!("info only, {faults:?}");
    let mut r = mk(faults, interrupts);
    let mut d = opt.build().read_info(&mut r).map_err(|e| format!("opening: {e}; {}", show(&what)))?;
    let mut n = 0;
    let mut errors = 0;
    loop {
        match d.next_frame_info() {
            Ok(Some(g)) => {
                ensure!(n < exp.len() && FrameOut::from(g) == expected_meta(&exp[n]), "frame {n} differs; {}", show(&what));
                n += 1;
            }
            Ok(None) => break,
            Err(e) => {
                let e = ErrK::from(e);
                errors += 1;
                ensure!(e == ErrK::Io(ErrorKind::WouldBlock, "later".into()) && errors <= 4, "{e:?}; {}", show(&what));
            }
        }
    }
    ensure!(n == exp.len(), "{n} frames of {}; {}", exp.len(), show(&what));
    Ok(())
}
