//! Results come as soon as the bytes they depend on have arrived.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::streaming_decoder::{Decoded, OutputBuffer, StreamingDecoder};
use gif::streaming_decoder::Block;
use std::cell::Cell;
use std::io::{self, Read};
use std::rc::Rc;
use crate::wild;
use vref::gen::{self, Cfg};
use vref::lzw;
use vref::refdec::{self, Mode, RefOpt, Stop};
use vref::spec::{deinterlace, FileSpec, ImageSpec, Spans};

pub const CHECK: Check = Check {
    id: "C35",
    run,
    quick: 500_000,
    thorough: 15_000_000,
    rule: "generated files read through a live connection: before every call (opening, frame information, a whole frame, some rows of one, a compressed frame, the end) just the bytes which its result depends on have arrived, in pieces of any size, and a read for more counts as a failure, since it would wait for a peer who may be waiting as well; or the same with the low-level decoder; non-trivial: at least one frame",
    level: "exploration",
    assumptions: &[TRUSTED, "an image's descriptor counts as complete with the minimum code size and the first sub-block's length behind its palette; opening waits for the descriptor of the first image, or the trailer"],
};

/// The LZW decoder keeps up to 64 bits of codes which it has taken but not looked at yet
const SLACK: usize = 8;

/// Most errors are noticed with the byte after
const ERROR_SLACK: usize = 1;

/// Gives out what has arrived, and nothing else
struct Live<'a> {
    data: &'a [u8],
    pos: Rc<Cell<usize>>,
    arrived: Rc<Cell<usize>>,
    sizes: Vec<usize>,
    i: usize,
    early: Rc<Cell<bool>>,
}

impl Read for Live<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let pos = self.pos.get();
        let there = self.arrived.get().min(self.data.len()) - pos;
        if there == 0 {
            self.early.set(true);
            return Err(io::ErrorKind::TimedOut.into());
        }
        let n = if self.sizes.is_empty() { usize::MAX } else { self.sizes[self.i % self.sizes.len()].max(1) };
        self.i += 1;
        let n = n.min(buf.len()).min(there);
        buf[..n].copy_from_slice(&self.data[pos..pos + n]);
        self.pos.set(pos + n);
        Ok(n)
    }
}

/// Offset behind the last byte which belongs to the first `bits` bits of the image's data, and `slack` bytes
fn offset(i: &ImageSpec, meta: usize, bits: usize, slack: usize) -> usize {
    let mut bytes = bits.div_ceil(8) + slack;
    let mut o = meta;
    for b in i.sub_blocks() {
        if bytes == 0 {
            break;
        }
        let n = bytes.min(b.len());
        o += 1 + n;
        bytes -= n;
        if bytes > 0 {
            o += b.len() - n;
        }
    }
    // the terminator
    o + usize::from(bytes > 0)
}

fn run(c: &mut Case) -> Res {
    if c.t.chance(1, 4) {
        return wild_bytes(c);
    }
    let end_code = c.t.chance(1, 6);
    let unknown = c.t.chance(1, 8);
    let cfg = Cfg { max_px: if c.t.chance(1, 12) { 20_000 } else { 300 }, no_end: !end_code, unknown, unknown_ext: unknown, trailing: true, huge: c.t.chance(1, 40), ..Cfg::default() };
    let f = gen::file(&mut c.t, &cfg);
    let (bytes, sp) = f.serialize();
    c.nontrivial(!sp.images.is_empty());
    if c.t.chance(1, 8) {
        if unknown {
            return Ok(());
        }
        return low_level(c, &f, &bytes, &sp);
    }
    let opt = Opt { rgba: c.t.bool(), skip: c.t.chance(1, 5), end_code, unknown, consistency: false, ..Opt::default() };
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    let what = format!("{opt:?}, reads {sizes:?}, {}", f.summary());
    c.describe(|| what.clone());
    let (pos, arrived, early) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)), Rc::new(Cell::new(false)));
    let live = Live { data: &bytes, pos: pos.clone(), arrived: arrived.clone(), sizes, i: 0, early: early.clone() };
    let arrive = |n: usize| arrived.set(arrived.get().max(n));
    let behind = sp.trailer + 1;
    let fail = |what_call: &str, e: String| -> String {
        let n = arrived.get();
        if early.get() { format!("{what_call} wants more than the {n} bytes it depends on; {what}; bytes {}", hex(&bytes)) } else { format!("{what_call} with {n} bytes: {e}; {what}; bytes {}", hex(&bytes)) }
    };
    arrive(sp.images.first().map_or(behind, |i| i.1 + 1));
    let mut d = opt.build().read_info(live).map_err(|e| fail("opening", e.to_string()))?;
    ensure!(!early.get(), "{}", fail("opening", String::new()));
    let exp = f.frames();
    let iter = c.t.chance(1, 5);
    c.label(iter, "iterator");
    c.label(opt.skip, "compressed");
    c.label(end_code, "end code check");
    let imgs: Vec<&ImageSpec> = f.images().collect();
    // everything that makes up the pixels: with an end code to be checked, or compressed, that's all of the data
    let all = |k: usize| -> usize {
        let (_, meta, _, end) = sp.images[k];
        if opt.skip || opt.end_code {
            end
        } else if exp[k].stored.is_empty() {
            meta + 1
        } else {
            offset(imgs[k], meta, lzw::decode(&imgs[k].lzw, imgs[k].mcs, exp[k].stored.len()).bits_used, SLACK)
        }
    };
    let want_at = |k: usize| -> FrameOut {
        let mut w = expected(&exp[k], opt.rgba, f.gct.as_deref());
        if opt.skip {
            let mut b = vec![imgs[k].mcs];
            b.extend_from_slice(&imgs[k].lzw);
            w = expected_meta(&exp[k]);
            w.interlaced = exp[k].interlaced;
            w.buffer = b;
        }
        w
    };
    if iter {
        let mut it = d.into_iter();
        for k in 0..exp.len() {
            arrive(all(k));
            match it.next() {
                Some(Ok(g)) => {
                    if let Some(e) = diff_frame(&FrameOut::from(&g), &want_at(k)) {
                        return Err(fail(&format!("frame {k} of the iterator"), e));
                    }
                }
                x => return Err(fail(&format!("frame {k} of the iterator"), format!("{x:?}"))),
            }
        }
        arrive(behind);
        let x = it.next();
        ensure!(x.is_none(), "{}", fail("the end of the iterator", format!("{x:?}")));
        ensure!(it.next().is_none() && !early.get(), "{}", fail("the iterator after its end", String::new()));
        return Ok(());
    }
    for k in 0..exp.len() {
        let (_, meta, _, _) = sp.images[k];
        if c.t.bool() {
            arrive(all(k));
            let g = d.read_next_frame().map_err(|e| fail(&format!("frame {k}"), e.to_string()))?;
            let Some(g) = g else { return Err(fail(&format!("frame {k}"), "the end".into())) };
            if let Some(e) = diff_frame(&FrameOut::from(g), &want_at(k)) {
                return Err(fail(&format!("frame {k}"), e));
            }
            continue;
        }
        arrive(meta + 1);
        let g = d.next_frame_info().map_err(|e| fail(&format!("information of frame {k}"), e.to_string()))?;
        let Some(g) = g else { return Err(fail(&format!("information of frame {k}"), "the end".into())) };
        if let Some(e) = diff_frame(&FrameOut::from(g), &expected_meta(&exp[k])) {
            return Err(fail(&format!("information of frame {k}"), e));
        }
        if opt.skip {
            continue;
        }
        let i = imgs[k];
        let (w, h) = (usize::from(i.width), usize::from(i.height));
        let ch = if opt.rgba { 4 } else { 1 };
        let full = want_at(k).buffer;
        match c.t.weighted(&[2, 3, 1]) {
            0 => {
                arrive(all(k));
                let mut b = vec![0; w * h * ch];
                d.read_into_buffer(&mut b).map_err(|e| fail(&format!("pixels of frame {k}"), e.to_string()))?;
                ensure!(opt.rgba || b == full, "{}", fail(&format!("pixels of frame {k}"), "wrong".into()));
            }
            1 if w * h > 0 => {
                // pieces as they come, in the order of the file
                c.label(true, "rows as they come");
                let stored = if opt.rgba { None } else { Some(&i.stored) };
                let mut done = 0;
                let pieces = c.t.urange(1, 6);
                for _ in 0..pieces {
                    let n = if c.t.chance(3, 4) { w } else { c.t.urange(1, 40) }.min(w * h - done);
                    if n == 0 {
                        break;
                    }
                    done += n;
                    if opt.end_code && done == w * h {
                        arrive(sp.images[k].3);
                    } else {
                        arrive(offset(i, meta, lzw::decode(&i.lzw, i.mcs, done).bits_used, SLACK));
                    }
                    let mut b = vec![0; n * ch];
                    let ok = d.fill_buffer(&mut b).map_err(|e| fail(&format!("pixels up to {done} of frame {k}"), e.to_string()))?;
                    ensure!(ok, "{}", fail(&format!("pixels up to {done} of frame {k}"), "not filled".into()));
                    if let Some(s) = stored {
                        ensure!(b[..] == s[done - n..done], "{}", fail(&format!("pixels up to {done} of frame {k}"), "wrong".into()));
                    }
                }
            }
            _ => {}
        }
        if i.interlaced && c.t.chance(1, 1000) {
            // keeps the reference honest
            ensure!(deinterlace(&i.stored, w, h) == exp[k].display(), "reference");
        }
    }
    arrive(behind);
    for _ in 0..c.t.urange(1, 3) {
        let r = if c.t.bool() { d.next_frame_info().map(|x| x.is_some()) } else { d.read_next_frame().map(|x| x.is_some()) };
        match r {
            Ok(false) => {}
            x => return Err(fail("the end", format!("{x:?}"))),
        }
    }
    ensure!(!early.get(), "{}", fail("some call", String::new()));
    Ok(())
}

/// The events are there when their last byte is
fn low_level(c: &mut Case, f: &FileSpec, bytes: &[u8], sp: &Spans) -> Res {
    c.label(true, "low-level decoder");
    let sizes = chop_sizes(&mut c.t);
    let what = format!("low-level decoder, pieces {sizes:?}, {}", f.summary());
    c.describe(|| what.clone());
    // what has to be there, after how many bytes
    let mut due: Vec<(usize, &str)> = Vec::new();
    if let Some(&(start, ..)) = sp.images.first() {
        // an image's start can be told by its first byte; one more is tolerated
        due.push((start + 2, "the end of the header"));
    }
    for &(start, meta, _, end) in &sp.images {
        due.push((start + 2, "the start of an image"));
        due.push((meta + 1, "the image's description"));
        due.push((end, "the end of its data"));
    }
    due.push((sp.trailer + 1, "the trailer"));
    let (mut metas, mut ends, mut starts, mut heads, mut trailers) = (0, 0, 0, 0, 0);
    let mut d = StreamingDecoder::new();
    let mut out = [0; 97];
    let mut at = 0;
    let mut i = 0;
    let (mut wm, mut we, mut ws, mut wh, mut wt) = (0, 0, 0, 0, 0);
    for (n, name) in due {
        while at < n {
            let m = sizes[i % sizes.len()].max(1).min(n - at);
            i += 1;
            let mut piece = &bytes[at..at + m];
            at += m;
            while !piece.is_empty() {
                let (used, ev) = d.update(piece, &mut OutputBuffer::Slice(&mut out)).map_err(|e| format!("byte {at}: {e}; {what}; bytes {}", hex(bytes)))?;
                piece = &piece[used..];
                match ev {
                    Decoded::FrameMetadata(_) => metas += 1,
                    Decoded::DataEnd => ends += 1,
                    Decoded::BlockStart(Block::Image) => starts += 1,
                    Decoded::BlockStart(Block::Trailer) => trailers += 1,
                    Decoded::HeaderEnd => heads += 1,
                    _ => {}
                }
            }
        }
        match name {
            "the end of the header" => wh += 1,
            "the start of an image" => ws += 1,
            "the image's description" => wm += 1,
            "the end of its data" => we += 1,
            _ => wt += 1,
        }
        let got = (heads, starts, metas, ends, trailers);
        let want = (wh, ws, wm, we, wt);
        let there = got.0 >= wh && got.1 >= ws && got.2 >= wm && got.3 >= we && got.4 >= wt;
        ensure!(there, "after {n} bytes, {name} should have been reported: (header, starts, descriptions, data ends, trailers) {got:?} instead of {want:?}; {what}; bytes {}", hex(bytes));
    }
    Ok(())
}

/// Errors, and the clean end, don't wait for what is behind them
fn wild_bytes(c: &mut Case) -> Res {
    let (bytes, kind) = if c.t.bool() { (wild::damaged(&mut c.t), "damaged pieces") } else { wild::bytes(&mut c.t) };
    if bytes.len() > 10_000 {
        return Ok(());
    }
    let opt = Opt { rgba: c.t.chance(1, 3), limit: Some(1 << 20), consistency: c.t.chance(1, 4), skip: c.t.chance(1, 5), end_code: c.t.chance(1, 4), unknown: c.t.chance(1, 4) };
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    let ro = RefOpt {
        mode: if opt.skip { Mode::Compressed } else { Mode::Pixels },
        consistency: opt.consistency,
        end_code: opt.end_code,
        unknown: opt.unknown,
        max_px: (1 << 20) / if opt.rgba { 4 } else { 1 },
    };
    let exp = refdec::decode(&bytes, &ro);
    let n = match exp.stop {
        Stop::Clean(n) => n,
        Stop::Defect(d) => {
            // the fewest bytes which show it
            let (mut lo, mut hi) = (0, bytes.len());
            while lo + 1 < hi {
                let mid = (lo + hi) / 2;
                if matches!(refdec::decode(&bytes[..mid], &ro).stop, Stop::Defect(_)) { hi = mid } else { lo = mid }
            }
            c.label(true, d);
            // what the LZW decoder keeps may be in sub-blocks of one byte each
            hi + if matches!(d, "code" | "no end code" | "too few pixels") { 2 * SLACK } else { ERROR_SLACK }
        }
        _ => return Ok(()),
    };
    if n > bytes.len() {
        // only the end of the bytes shows it
        return Ok(());
    }
    c.nontrivial(true);
    c.label(true, "errors");
    let what = format!("{kind}, {opt:?}, reads {sizes:?}, {n} bytes of {}", hex(&bytes));
    c.describe(|| what.clone());
    let early = Rc::new(Cell::new(false));
    let live = Live { data: &bytes, pos: Rc::default(), arrived: Rc::new(Cell::new(n)), sizes, i: 0, early: early.clone() };
    let out = decode_all(live, &opt);
    ensure!(!early.get(), "{:?} can be told from {n} bytes, but more are wanted after {} frames; {what}", exp.stop, out.frames.len());
    let clean = matches!(exp.stop, Stop::Clean(_));
    ensure!(clean == matches!(out.end, End::Clean), "ends with {:?}, reference {:?}; {what}", out.end, exp.stop);
    Ok(())
}
