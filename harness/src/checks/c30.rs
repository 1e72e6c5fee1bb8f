//! More input never changes what has been reported.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use crate::wild;
use std::cell::Cell;
use std::error::Error;
use std::io::{self, Read};

pub const CHECK: Check = Check {
    id: "C30",
    run,
    quick: 1_200_000,
    thorough: 36_000_000,
    rule: "valid, mutated and arbitrary bytes, cut at any point, decoded with and without the bytes that follow (or with other bytes following), under random options, whole, compressed or for information only; the reader notes whether its end was reached; non-trivial: a frame, or an error other than the unexpected end",
    level: "exploration",
    assumptions: &[TRUSTED],
};

struct Watch<'a> {
    data: &'a [u8],
    ended: &'a Cell<bool>,
}

impl Read for Watch<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        // not too much at once, or everything is asked for
        let n = buf.len().min(7).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        if n == 0 && !buf.is_empty() {
            self.ended.set(true);
        }
        Ok(n)
    }
}

/// Outcome, and whether the reader was asked for more than it has
fn go(data: &[u8], opt: &Opt, info: bool) -> Result<(Outcome, bool), String> {
    let ended = Cell::new(false);
    let r = Watch { data, ended: &ended };
    let mut bad = None;
    let mut err = |e: gif::DecodingError| {
        // the message says something, and the source is what happened
        let text = e.to_string();
        if text.is_empty() {
            bad = Some("an error without a message".to_string());
        }
        match (&e, e.source()) {
            (gif::DecodingError::Io(i), Some(s)) => match s.downcast_ref::<io::Error>() {
                Some(x) if x.kind() == i.kind() => {}
                _ => bad = Some(format!("the source of {e:?} is {s:?}")),
            },
            (gif::DecodingError::Format(_), Some(s)) if s.is::<gif::DecodingFormatError>() && s.to_string() == text => {}
            (_, s) => bad = Some(format!("the source of {e:?} is {s:?}")),
        }
        ErrK::from(e)
    };
    let mut d = match opt.build().read_info(r) {
        Ok(d) => d,
        Err(e) => {
            let e = err(e);
            return match bad {
                Some(b) => Err(b),
                None => Ok((Outcome { header: None, frames: Vec::new(), end: End::Err(e) }, ended.get())),
            };
        }
    };
    let h = header(&d);
    let mut frames = Vec::new();
    let end = loop {
        let r = if info { d.next_frame_info() } else { d.read_next_frame() };
        match r {
            Ok(Some(f)) => frames.push(FrameOut::from(f)),
            Ok(None) => break End::Clean,
            Err(e) => break End::Err(err(e)),
        }
        if frames.len() > 4096 {
            break End::TooMany;
        }
    };
    match bad {
        Some(b) => Err(b),
        None => Ok((Outcome { header: Some(h), frames, end }, ended.get())),
    }
}

fn run(c: &mut Case) -> Res {
    let (bytes, kind) = wild::bytes(&mut c.t);
    c.label(true, kind);
    let opt = Opt::any(&mut c.t);
    let info = c.t.chance(1, 4);
    let cut = c.t.below(bytes.len() as u64 + 1) as usize;
    let mut other = bytes[..cut].to_vec();
    match c.t.below(3) {
        0 => {
            let n = c.t.urange(1, 40);
            other.extend(c.t.bytes(n, 255));
        }
        1 => {
            let n = c.t.urange(1, 40);
            let b = c.t.pick(&[0u8, 0x3B, 0x2C, 0x21, 0xFF, 1]);
            other.extend(vec![b; n]);
        }
        _ => other.extend(wild::soup(&mut c.t)),
    }
    c.describe(|| format!("{kind}, cut at {cut} of {}, info only {info}, {opt:?}, {}", bytes.len(), hex(&bytes)));
    let show = || format!("cut at {cut}, info only {info}, {opt:?}, file {} and {}", hex(&bytes), hex(&other));
    let (p, pe) = go(&bytes[..cut], &opt, info).map_err(|e| format!("{e}; {}", show()))?;
    let decided = match &p.end {
        End::Err(e) => !e.is_eof(),
        _ => true,
    };
    c.nontrivial(!p.frames.is_empty() || decided);
    c.label(decided, "decided before the cut");
    c.label(!decided && !p.frames.is_empty(), "frames, then the cut");
    // needing more is said if and only if there's no more
    ensure!(decided || pe, "reports an unexpected end without having reached the end of the input; {}", show());
    ensure!(p.end != End::Clean || bytes[..cut].contains(&0x3B), "a clean end without a trailer; {}", show());
    for (b, what) in [(&bytes, "all bytes"), (&other, "other bytes following")] {
        let (q, qe) = go(b, &opt, info).map_err(|e| format!("{e}; {}", show()))?;
        if let End::Err(e) = &q.end {
            ensure!(!e.is_eof() || qe, "{what}: reports an unexpected end without having reached the end of the input; {}", show());
        }
        if p.header.is_some() {
            ensure!(p.header == q.header, "{what}: header {:?} vs {:?}; {}", p.header, q.header, show());
        }
        if decided {
            if let Some(d) = p.diff(&q) {
                return Err(format!("{what}: {d}; {}", show()));
            }
        } else {
            ensure!(q.frames.len() >= p.frames.len(), "{what}: {} frames, {} before the cut (end {:?}, {:?}); {}", q.frames.len(), p.frames.len(), q.end, p.end, show());
            if let Some(d) = diff_frames(&p.frames, &q.frames[..p.frames.len()]) {
                return Err(format!("{what}: {d}; {}", show()));
            }
        }
    }
    Ok(())
}
