//! Arbitrary bytes against a reference decoder.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::stream::{self, Ev, StreamEnd};
use crate::util::*;
use crate::wild;
use gif::streaming_decoder::FrameDecoder;
use gif::Repeat;
use vref::lzw::{self, LzwEnd};
use vref::refdec::{self, Mode, RefOpt, RefOut, Stop};

pub const CHECK: Check = Check {
    id: "C32",
    run,
    quick: 3_000_000,
    thorough: 90_000_000,
    rule: "valid, truncated, mutated and arbitrary bytes, and well-framed files with several defects, under random options; read whole (indexed or RGBA), into buffers, compressed, expanded by a frame decoder, for information only, or by the low-level decoder, in random pieces; compared with an independent reference decoder for arbitrary bytes; non-trivial: a frame, or a defect other than the bytes ending",
    level: "exploration",
    assumptions: &[TRUSTED, "where the bytes end right behind a defect, either the defect or the unexpected end may be reported, and a frame whose pixels are complete may be returned or not if what is behind them is incomplete or damaged"],
};

/// Whole frames, or information and then the pixels into a buffer
fn go(r: Chop<'_>, opt: &Opt, how: u64) -> (Outcome, usize) {
    let mut d = match opt.build().read_info(r) {
        Ok(d) => d,
        Err(e) => return (Outcome { header: None, frames: Vec::new(), end: End::Err(e.into()) }, 0),
    };
    let h = header(&d);
    let mut frames: Vec<FrameOut> = Vec::new();
    let end = loop {
        match if how == 0 { d.read_next_frame() } else { d.next_frame_info() } {
            Ok(Some(f)) => {
                let mut f = FrameOut::from(f);
                if how == 1 {
                    let px = u64::from(f.width) * u64::from(f.height) * if opt.rgba { 4 } else { 1 };
                    if opt.limit.is_some_and(|l| px > l) {
                        // the buffer would be the caller's
                        break End::TooMany;
                    }
                    f.buffer = vec![0; d.buffer_size()];
                    if let Err(e) = d.read_into_buffer(&mut f.buffer) {
                        break End::Err(e.into());
                    }
                    f.interlaced = false;
                }
                frames.push(f);
            }
            Ok(None) => break End::Clean,
            Err(e) => break End::Err(e.into()),
        }
    };
    let r = d.into_inner();
    let pos = r.get_ref().pos - r.buffer().len();
    (Outcome { header: Some(h), frames, end }, pos)
}

/// What the low-level decoder reports
fn streaming(bytes: &[u8], s: &stream::Sched, exp: &RefOut) -> Res {
    let out = stream::stream(bytes, s)?;
    let mut frames: Vec<FrameOut> = Vec::new();
    let mut closed = 0;
    for e in &out.evs {
        match e {
            Ev::Meta(f, None) => frames.push(f.clone()),
            Ev::Pixels(p) => match frames.last_mut() {
                Some(f) => f.buffer.extend_from_slice(p),
                None => return Err("pixels before a frame".into()),
            },
            Ev::DataEnd => closed += 1,
            _ => {}
        }
    }
    ensure!(closed == frames.len() || (closed + 1 == frames.len() && !matches!(exp.stop, Stop::Clean(_))), "{closed} data ends for {} frames", frames.len());
    let want: Vec<FrameOut> = exp.frames.iter().map(|e| FrameOut { buffer: e.stored.clone(), ..expected_meta(e) }).collect();
    ensure!(frames.len() == want.len(), "{} frames, reference {}; end {:?}, reference {:?}", frames.len(), want.len(), out.end, exp.stop);
    for (i, (f, w)) in frames.iter().zip(&want).enumerate() {
        // where an error interrupts, how much came before is up to the pieces
        let open = i >= closed;
        ensure!(f.same_meta(w) && f.interlaced == w.interlaced && (f.buffer == w.buffer || (open && w.buffer.starts_with(&f.buffer))), "frame {i}: {f:?}, reference {w:?}");
    }
    let ok = match (&out.end, exp.stop) {
        (StreamEnd::Trailer, Stop::Clean(p)) => {
            ensure!(out.consumed == p, "{} bytes consumed with the trailer, reference {p}", out.consumed);
            true
        }
        (StreamEnd::Starved, Stop::Eof | Stop::DefectAtEnd(_)) => true,
        // the last codes are looked at with the next input
        (StreamEnd::Starved, Stop::Defect("code")) => exp.open_code,
        (StreamEnd::Err(_), Stop::Defect(_) | Stop::DefectAtEnd(_)) => true,
        _ => false,
    };
    ensure!(ok, "ends with {:?}, reference {:?}", out.end, exp.stop);
    if let Some(h) = &exp.header {
        ensure!((out.width, out.height, out.v89) == (h.width, h.height, !h.v87), "screen {}x{}, version 89a {}; reference {h:?}", out.width, out.height, out.v89);
        let bg = out.evs.iter().find_map(|e| if let Ev::Bg(b) = e { Some(*b) } else { None });
        ensure!(bg == Some(h.bg), "background {bg:?}, reference {}", h.bg);
        if !exp.header_optional {
            let g = out.evs.iter().find_map(|e| if let Ev::Gct(g) = e { Some(g.clone()) } else { None });
            ensure!(g.as_deref() == Some(h.gct.as_deref().unwrap_or(&[])), "global palette {g:?}, reference {:?}", h.gct);
        }
    }
    Ok(())
}

fn compare(out: &Outcome, exp: &RefOut, want: &[FrameOut]) -> Res {
    match (&out.header, &exp.header) {
        (None, None) => {}
        (Some(h), Some(x)) => {
            let colors = x.gct.as_ref().map_or(0, |g| g.len() / 3);
            let w = Header {
                width: x.width,
                height: x.height,
                gct: x.gct.clone(),
                bg: Some(usize::from(x.bg)).filter(|&b| b < colors),
                repeat: match x.repeat {
                    None => Repeat::default(),
                    Some(0) => Repeat::Infinite,
                    Some(n) => Repeat::Finite(n),
                },
            };
            ensure!(*h == w, "header {h:?}, reference {w:?}");
        }
        (None, Some(_)) => ensure!(exp.header_optional, "can't be opened: {:?}", out.end),
        (Some(_), None) => return Err(format!("opened, but the reference finds {:?} before the end of the header", exp.stop)),
    }
    let full = want.len();
    let n = out.frames.len();
    ensure!(n == full || (exp.last_optional && n + 1 == full), "{n} frames, reference {full}; end {:?}, reference {:?}", out.end, exp.stop);
    if let Some(d) = diff_frames(&out.frames, &want[..n]) {
        return Err(format!("decoded vs reference: {d}"));
    }
    let ok = match (&out.end, exp.stop) {
        (End::TooMany, Stop::Defect("memory limit")) => true,
        (End::Clean, Stop::Clean(_)) => true,
        (End::Err(e), Stop::Eof) => e.is_eof(),
        (End::Err(e), Stop::Defect(_)) => !e.is_eof(),
        (End::Err(_), Stop::DefectAtEnd(_)) => true,
        _ => false,
    };
    ensure!(ok, "ends with {:?}, reference {:?}", out.end, exp.stop);
    Ok(())
}

fn run(c: &mut Case) -> Res {
    let (bytes, kind) = if c.t.chance(1, 4) { (wild::damaged(&mut c.t), "damaged pieces") } else { wild::bytes(&mut c.t) };
    c.label(true, kind);
    let limit = match c.t.weighted(&[4, 1, 1]) {
        0 => 1 << 22,
        1 => 1 << 16,
        _ => c.t.range(1, 5000),
    };
    let mut opt = Opt {
        rgba: c.t.chance(1, 3),
        limit: Some(limit.max(bytes.len() as u64 + 256)),
        consistency: c.t.chance(1, 4),
        skip: false,
        end_code: c.t.chance(1, 3),
        unknown: c.t.chance(1, 3),
    };
    let how = c.t.weighted(&[4, 2, 2, 1, 2]) as u64;
    let mode = match how {
        0 | 1 => Mode::Pixels,
        2 => {
            opt.skip = true;
            Mode::Compressed
        }
        3 => Mode::Info,
        _ => {
            opt = Opt::default();
            Mode::Stream
        }
    };
    // what is behind the last pixel can be several hundred MB otherwise
    let (mode, how) = if mode == Mode::Stream && bytes.len() > 15_000 { (Mode::Info, 3) } else { (mode, how) };
    opt.end_code &= bytes.len() <= 15_000;
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    let ro = RefOpt { mode, consistency: opt.consistency, end_code: opt.end_code, unknown: opt.unknown, max_px: opt.limit.unwrap_or(u64::MAX) / if opt.rgba { 4 } else { 1 } };
    let exp = refdec::decode(&bytes, &ro);
    c.label(exp.code_size_1, "code size 1");
    c.label(matches!(exp.stop, Stop::Clean(_)), "clean end");
    c.label(exp.split_control, "control extension in pieces");
    match exp.stop {
        Stop::Defect(d) | Stop::DefectAtEnd(d) => c.label(true, d),
        Stop::Eof => c.label(true, "unexpected end"),
        Stop::Clean(_) => {}
    }
    c.label(exp.frames.len() > 1, "several frames");
    c.nontrivial(!exp.frames.is_empty() || matches!(exp.stop, Stop::Defect(_)));
    c.describe(|| format!("{kind}, {opt:?} {mode:?} {how}, {} frames, {:?}, {}", exp.frames.len(), exp.stop, hex(&bytes)));
    let show = || format!("{opt:?} {mode:?} {how}, file {}", hex(&bytes));
    let gct = exp.header.as_ref().and_then(|h| h.gct.clone());
    let want: Vec<FrameOut> = exp
        .frames
        .iter()
        .map(|e| match mode {
            Mode::Pixels => expected(e, opt.rgba, gct.as_deref()),
            Mode::Compressed => FrameOut { buffer: e.stored.clone(), ..expected_meta(e) },
            Mode::Info | Mode::Stream => expected_meta(e),
        })
        .collect();
    if mode == Mode::Stream {
        let s = super::c06::sched(c);
        return streaming(&bytes, &s, &exp).map_err(|e| format!("{e}; {s:?}, file {}", hex(&bytes)));
    }
    let (out, pos) = go(Chop::new(&bytes, sizes), &opt, match mode {
        Mode::Info => 2,
        Mode::Compressed => 0,
        _ => how,
    });
    compare(&out, &exp, &want).map_err(|e| format!("{e}; {}", show()))?;
    if let Stop::Clean(p) = exp.stop {
        ensure!(pos == p, "the reader is at {pos} after the clean end, reference {p}; {}", show());
    }
    if mode == Mode::Compressed {
        // each of them expanded
        let mut fd = FrameDecoder::new(opt.build());
        if let Some(g) = &gct {
            fd.set_global_palette(g.clone());
        }
        for (i, e) in exp.frames.iter().enumerate() {
            let px = u64::from(e.width) * u64::from(e.height);
            let mut f = gif::Frame { width: e.width, height: e.height, interlaced: e.interlaced, palette: e.palette.clone(), transparent: e.transparent, buffer: e.stored.clone().into(), ..Default::default() };
            let got = fd.decode_lzw_encoded_frame(&mut f);
            let want = if px > ro.max_px {
                None
            } else {
                let n = px as usize;
                let r = lzw::decode(&e.stored[1..], e.stored[0], n);
                let ended = !opt.end_code || lzw::decode(&e.stored[1..], e.stored[0], usize::MAX).end == LzwEnd::End;
                (r.pixels.len() >= n && ended).then(|| {
                    let mut x = e.clone();
                    x.stored = r.pixels;
                    x.stored.truncate(n);
                    expected(&x, opt.rgba, gct.as_deref()).buffer
                })
            };
            c.label(want.is_none(), "frame decoder fails");
            match (got, want) {
                (Ok(()), Some(w)) => ensure!(*f.buffer == *w, "frame {i} expanded differs; {}", show()),
                (Err(_), None) => {}
                (g, w) => return Err(format!("frame decoder, frame {i}: {g:?}, reference {}; {}", if w.is_some() { "has pixels" } else { "finds a defect" }, show())),
            }
        }
    }
    Ok(())
}
