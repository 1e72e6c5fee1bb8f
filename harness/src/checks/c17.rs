//! Failing writers.
use crate::enc::{self, Op};
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::{Encoder, EncodingError};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};
use std::rc::Rc;

pub const CHECK: Check = Check {
    id: "C17",
    run,
    quick: 1_800_000,
    thorough: 54_000_000,
    rule: "random encoder histories written to a writer that accepts random amounts per call, reports interruptions, and fails (once or for good; with an error or by accepting nothing) after a random number of bytes; several fault positions per history; non-trivial: the fault is reached",
    level: "fault_enumeration",
    assumptions: &["default configuration of the crate (raii_no_panic)"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Err(ErrorKind),
    Zero,
}

#[derive(Debug, Default)]
struct State {
    out: Vec<u8>,
    faults: usize,
    calls: usize,
}

struct Faulty {
    s: Rc<RefCell<State>>,
    sizes: Vec<usize>,
    interrupts: u64,
    fault: Option<(usize, Kind)>,
    permanent: bool,
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.s.borrow_mut();
        s.calls += 1;
        if self.interrupts >> (s.calls % 64) & 1 != 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = if self.sizes.is_empty() { b.len() } else { b.len().min(self.sizes[s.calls % self.sizes.len()]) };
        if let Some((at, k)) = self.fault {
            if s.out.len() >= at && (self.permanent || s.faults == 0) {
                s.faults += 1;
                return match k {
                    Kind::Err(k) => Err(io::Error::new(k, "planted")),
                    Kind::Zero => Ok(0),
                };
            }
            if s.out.len() < at {
                n = n.min(at - s.out.len());
            }
        }
        s.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn run(c: &mut Case) -> Res {
    let mut h = enc::hist(&mut c.t, 5);
    for o in &mut h.ops {
        // keep it small: every position gets its chance
        if let Op::Frame(f) = o {
            if f.px() > 4000 {
                f.f.width = 20;
                f.f.height = 10;
                f.f.buffer.truncate(250);
            }
        }
    }
    let want = enc::run(&h)?;
    let sizes = match c.t.weighted(&[2, 1, 2]) {
        0 => Vec::new(),
        1 => vec![1],
        _ => (0..c.t.urange(1, 4)).map(|_| c.t.urange(1, 20)).collect(),
    };
    let interrupts = if c.t.bool() { 0 } else { c.t.seed() & c.t.seed() & 0x7FFF_FFFF_FFFF };
    c.describe(|| format!("writes of {sizes:?}, interrupts {interrupts:#x}, {}", enc::show(&h)));
    // no fault
    {
        let s = Rc::new(RefCell::new(State::default()));
        let w = Faulty { s: s.clone(), sizes: sizes.clone(), interrupts, fault: None, permanent: false };
        let mut e = Encoder::new(w, h.width, h.height, &h.gpal).map_err(|e| format!("{e}; {}", enc::show(&h)))?;
        for op in &h.ops {
            enc::apply(&mut e, op).map_err(|e| format!("short writes of {sizes:?}, interrupts {interrupts:#x}: {e}; {}", enc::show(&h)))?;
        }
        if c.t.bool() {
            e.into_inner().map_err(|e| format!("into_inner: {e}; {}", enc::show(&h)))?;
        } else {
            drop(e);
        }
        ensure!(s.borrow().out == want, "short writes of {sizes:?}, interrupts {interrupts:#x} give other bytes: {} instead of {}; {}", hex(&s.borrow().out), hex(&want), enc::show(&h));
    }
    let tries = c.t.urange(1, 12);
    for _ in 0..tries {
        let at = if c.t.chance(1, 8) { want.len() - 1 } else { c.t.below(want.len() as u64) as usize };
        let kind = match c.t.weighted(&[1, 6]) {
            0 => Kind::Zero,
            _ => Kind::Err(c.t.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::WriteZero, ErrorKind::InvalidInput, ErrorKind::OutOfMemory, ErrorKind::UnexpectedEof])),
        };
        let permanent = c.t.bool();
        let finish = c.t.bool();
        let show = || format!("{kind:?} after {at} bytes, permanent {permanent}, writes of {sizes:?}, interrupts {interrupts:#x}, {}", enc::show(&h));
        let is_it = |e: &io::Error| match kind {
            Kind::Zero => e.kind() == ErrorKind::WriteZero,
            Kind::Err(k) => e.kind() == k && e.to_string() == "planted",
        };
        let s = Rc::new(RefCell::new(State::default()));
        let w = Faulty { s: s.clone(), sizes: sizes.clone(), interrupts, fault: Some((at, kind)), permanent };
        let faults = || s.borrow().faults;
        let mut reported = false;
        let check = |what: String, r: Result<(), EncodingError>, reported: &mut bool| -> Res {
            match r {
                Ok(()) => ensure!(faults() == 0, "{what} hides the error; {}", show()),
                Err(EncodingError::Io(e)) => {
                    ensure!(faults() > 0 && is_it(&e), "{what} fails with {e:?}; {}", show());
                    *reported = true;
                }
                Err(e) => return Err(format!("{what} fails with {e:?}; {}", show())),
            }
            Ok(())
        };
        let enc = match Encoder::new(w, h.width, h.height, &h.gpal) {
            Ok(e) => {
                check("Encoder::new".into(), Ok(()), &mut reported)?;
                Some(e)
            }
            Err(e) => {
                check("Encoder::new".into(), Err(e), &mut reported)?;
                None
            }
        };
        let mut in_drop = false;
        if let Some(mut e) = enc {
            for (i, op) in h.ops.iter().enumerate() {
                let r = enc::apply(&mut e, op);
                check(format!("call {i}"), r, &mut reported)?;
                if reported {
                    break;
                }
            }
            c.label(reported, "in a call");
            if reported {
                drop(e);
            } else if finish {
                let r = e.into_inner().map(drop).map_err(EncodingError::from);
                check("into_inner".into(), r, &mut reported)?;
                c.label(reported, "in into_inner");
            } else {
                in_drop = true;
                drop(e);
            }
        } else {
            c.label(true, "in Encoder::new");
        }
        c.nontrivial(faults() > 0);
        ensure!(faults() > 0, "the fault isn't reached; {}", show());
        let out = &s.borrow().out;
        ensure!(out.len() >= at && out[..at] == want[..at], "before the fault {} was written, not a prefix of {}; {}", hex(out), hex(&want), show());
        // closing the stream after a fault that went away is fine
        let tail = &out[at..];
        ensure!(tail.is_empty() || (!permanent && tail == [0x3B]), "after the fault {} was written; {}", hex(tail), show());
        ensure!(reported || in_drop, "the error isn't reported; {}", show());
    }
    Ok(())
}
