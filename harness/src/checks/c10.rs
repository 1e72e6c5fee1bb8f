//! Any input, any options, any order of calls: no panic, no hang, no runaway.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use crate::wild;
use gif::streaming_decoder::{Decoded, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::Frame;
use std::borrow::Cow;
use std::cell::Cell;
use std::io::{self, Read};
use std::rc::Rc;
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C10",
    run,
    quick: 4_000_000,
    thorough: 120_000_000,
    rule: "valid, truncated, mutated, grammar-soup and random bytes; random options; up to 40 random decoder calls in any order, continuing after errors and after the end; or the streaming decoder with random pieces and outputs; or the frame decoder on arbitrary buffers. Panics are caught, calls and reads counted, cases run under a CPU time limit; non-trivial: at least one frame header is reached",
    level: "exploration",
    assumptions: &[RELEASE, "a call that takes over 40 s of CPU time twice is taken to hang (cases normally take well under 10 ms)", "the crate is compiled with debug assertions and overflow checks, so that a violated assertion is a panic"],
};

struct Count<R> {
    r: R,
    n: Rc<Cell<usize>>,
}
impl<R: Read> Read for Count<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.n.set(self.n.get() + 1);
        self.r.read(b)
    }
}

fn run(c: &mut Case) -> Res {
    match c.t.weighted(&[6, 3, 2]) {
        0 => calls(c),
        1 => streaming(c),
        _ => frames(c),
    }
}

fn limits(t: &mut Tape) -> Opt {
    let mut o = Opt::any(t);
    // no unlimited memory here: frames may declare 65535x65535 pixels
    o.limit = Some(match t.weighted(&[4, 2, 1]) {
        0 => t.range(1, 20_000),
        1 => 1 << 16,
        _ => 1 << 20,
    });
    o
}

fn calls(c: &mut Case) -> Res {
    let (bytes, kind) = wild::bytes(&mut c.t);
    let opt = limits(&mut c.t);
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    c.label(true, kind);
    let reads = Rc::new(Cell::new(0));
    let mut log: Vec<String> = Vec::new();
    let show = |log: &Vec<String>| format!("{opt:?}, reads {sizes:?}, calls {log:?}, file {}", hex(&bytes));
    let mut d = match opt.build().read_info(Count { r: Chop::new(&bytes, sizes.clone()), n: reads.clone() }) {
        Ok(d) => d,
        Err(_) => {
            ensure!(reads.get() <= 4 * bytes.len() + 100, "{} reads for {} bytes; {}", reads.get(), bytes.len(), show(&log));
            c.describe(|| show(&log));
            return Ok(());
        }
    };
    let n = c.t.urange(1, 40);
    let straight = c.t.chance(1, 3);
    let mut frames = 0;
    let mut failed = false;
    let mut calls = 1;
    for _ in 0..n {
        calls += 1;
        let how = if straight { 0 } else { c.t.weighted(&[4, 4, 2, 4, 1, 1]) };
        match how {
            0 | 1 => {
                log.push(if how == 0 { "frame" } else { "info" }.into());
                let r = if how == 0 { d.read_next_frame() } else { d.next_frame_info() };
                match r {
                    Ok(Some(_)) => {
                        c.nontrivial(true);
                        frames += 1;
                        ensure!(frames * 12 <= bytes.len(), "{frames} frames from {} bytes; {}", bytes.len(), show(&log));
                    }
                    Ok(None) => {}
                    Err(_) => {
                        c.label(true, "error");
                        // what the decoder does after an error is unspecified, apart from not panicking
                        c.label(failed, "several errors");
                        failed = true;
                        frames = 0;
                    }
                }
            }
            2 => {
                let size = d.buffer_size();
                let n = match c.t.weighted(&[3, 2, 1]) {
                    0 => size.min(1 << 21),
                    1 => c.t.urange(0, 300),
                    _ => (size.min(1 << 21) + c.t.urange(0, 20)).saturating_sub(c.t.urange(0, 20)),
                };
                log.push(format!("into {n} of {size}"));
                let mut b = vec![0; n];
                failed |= d.read_into_buffer(&mut b).is_err();
            }
            3 => {
                let n = if c.t.bool() { 4 * c.t.urange(0, 60) } else { c.t.urange(0, 1000) };
                log.push(format!("fill {n}"));
                let mut b = vec![0; n];
                failed |= d.fill_buffer(&mut b).is_err();
            }
            4 => {
                log.push("accessors".into());
                let _ = (d.buffer_size(), d.line_length(), d.palette().map(<[u8]>::len), d.global_palette().map(<[u8]>::len), d.width(), d.height(), d.bg_color(), d.repeat());
            }
            _ => {
                // exhaust the rest
                log.push("iterate".into());
                let mut k = 0;
                let mut it = d.into_iter();
                for f in it.by_ref() {
                    calls += 1;
                    if f.is_err() {
                        break;
                    }
                    k += 1;
                    ensure!(k * 12 <= bytes.len(), "{k} frames from {} bytes; {}", bytes.len(), show(&log));
                }
                let _ = it.next();
                let _ = it.into_inner();
                calls += 2;
                break;
            }
        }
    }
    // every read but those at the end of the data, or after a failed update, gives at least one byte.
    // Those at the end may each give some pixels of codes which have been buffered (64 bits, of 3 bits or more).
    // The factor leaves room for other ways to find out that the data has ended.
    ensure!(reads.get() <= 4 * (bytes.len() + calls + 1 + 21 * 4096), "{} reads in {calls} calls for {} bytes; {}", reads.get(), bytes.len(), show(&log));
    c.describe(|| show(&log));
    Ok(())
}

fn streaming(c: &mut Case) -> Res {
    let (bytes, kind) = wild::bytes(&mut c.t);
    let sizes = chop_sizes(&mut c.t);
    let show = |what: &str| format!("streaming, pieces {sizes:?}: {what}; file {}", hex(&bytes));
    c.label(true, kind);
    c.label(true, "streaming");
    c.describe(|| show(""));
    let mut d = StreamingDecoder::new();
    let mode = c.t.weighted(&[4, 1, 1]);
    let mut out = vec![0u8; c.t.urange(1, 300)];
    // now and then without any room
    let none = if c.t.chance(1, 4) { c.t.urange(1, 6) } else { 0 };
    let mut vec = Vec::new();
    let (mut pos, mut i, mut errors, mut idle) = (0usize, 0usize, 0, 0);
    let mut decoded = 0u64;
    while pos < bytes.len() {
        let end = (pos + sizes[i % sizes.len()]).min(bytes.len());
        i += 1;
        let mut ob = match mode {
            0 if none > 0 && i % none == 0 => OutputBuffer::Slice(&mut []),
            0 => OutputBuffer::Slice(&mut out),
            1 => OutputBuffer::None,
            _ => OutputBuffer::Vec(&mut vec),
        };
        match d.update(&bytes[pos..end], &mut ob) {
            Ok((n, ev)) => {
                ensure!(n <= end - pos, "{}", show(&format!("consumed {n} of {} at {pos}", end - pos)));
                let mut px = 0;
                match ev {
                    Decoded::BytesDecoded(k) => px = k.get(),
                    Decoded::FrameMetadata(_) => {
                        c.nontrivial(true);
                        let _ = d.current_frame().width;
                    }
                    Decoded::SubBlockFinished(_) | Decoded::BlockFinished(_) => {
                        let (_, data, _) = d.last_ext();
                        ensure!(errors > 0 || data.len() <= bytes.len(), "{}", show("extension longer than the file"));
                    }
                    Decoded::Nothing => ensure!(n > 0, "{}", show(&format!("nothing happens at {pos}"))),
                    _ => {}
                }
                decoded += px as u64;
                idle = if n == 0 && px == 0 { idle + 1 } else { 0 };
                ensure!(idle < 8, "{}", show(&format!("no progress at {pos}")));
                pos += n;
                // at most 4096 pixels per code of at least 2 bits
                ensure!(decoded <= 4096 * 4 * (pos as u64 + 16), "{}", show(&format!("{decoded} pixels by offset {pos}")));
            }
            Err(_) => {
                c.label(true, "error");
                errors += 1;
                if errors > 3 {
                    break;
                }
                // again with the same or with later data
                if c.t.bool() {
                    pos = end;
                }
            }
        }
    }
    Ok(())
}

fn frames(c: &mut Case) -> Res {
    let opt = limits(&mut c.t);
    c.label(true, "frame decoder");
    let mut d = FrameDecoder::new(opt.build());
    if c.t.bool() {
        d.set_global_palette(vref::gen::palette(&mut c.t));
    }
    let n = c.t.urange(1, 5);
    let mut log = Vec::new();
    for _ in 0..n {
        let big = c.t.chance(1, 8);
        let (w, h) = if big { (c.t.u16b(), c.t.u16b()) } else { (c.t.below(30) as u16, c.t.below(30) as u16) };
        let len = c.t.urange(0, 60);
        let mut b = c.t.bytes(len, 255);
        if let Some(m) = b.first_mut() {
            if !c.t.chance(1, 5) {
                *m = 1 + *m % 11;
            }
        }
        let f = Frame {
            width: w,
            height: h,
            interlaced: c.t.bool(),
            transparent: Some(c.t.byte()),
            palette: if c.t.bool() { Some(c.t.bytes(7, 255)) } else { None },
            buffer: Cow::Owned(b),
            ..Frame::default()
        };
        log.push(format!("{:?}", FrameOut::from(&f)));
        let size = d.buffer_size(&f);
        c.nontrivial(true);
        if c.t.bool() {
            let mut g = f.clone();
            if d.decode_lzw_encoded_frame(&mut g).is_ok() {
                ensure!(g.buffer.len() == size, "buffer of {} instead of {size} bytes; {log:?}", g.buffer.len());
            }
        } else {
            let k = if c.t.bool() { size.min(1 << 21) } else { c.t.urange(0, 400) };
            let mut buf = vec![0; k];
            let r = d.decode_lzw_encoded_frame_into_buffer(&f, &mut buf);
            ensure!(r.is_err() || k >= size, "{k} bytes accepted for a frame of {size}; {log:?}");
        }
    }
    c.describe(|| format!("frame decoder, {opt:?}, {log:?}"));
    Ok(())
}
