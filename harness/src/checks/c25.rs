//! Defects in image data.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::streaming_decoder::FrameDecoder;
use gif::Frame;
use std::borrow::Cow;
use vref::gen::{self, Cfg};
use vref::lzw::{self, CodeWriter, LzwEnd};
use vref::spec::{expand, BlockSpec, ImageSpec};
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C25",
    run,
    quick: 990_000,
    thorough: 29_700_000,
    rule: "generated files in which one frame gets one defect: data for fewer pixels (with or without end code, by 1 pixel up to all), an undefined LZW code before the last pixel, a code size of 0 or over 11, no palette, or a damaged signature; read by every method, piece by piece, compressed and expanded later, in both color modes with random reads; what the defective data holds is established by the reference LZW decoder; non-trivial: the defect is in a frame",
    level: "exploration",
    assumptions: &[TRUSTED, "a partial fill reports missing pixels by an error or by returning false"],
};

/// The codes of the first `n` pixels, and then nothing, the end code, or an undefined code
fn defective(t: &mut Tape, px: &[u8], n: usize, mcs: u8, invalid: bool) -> Option<Vec<u8>> {
    let mut w = CodeWriter::new(mcs);
    let max = t.pick(&[5000usize, 1, 2, 4]);
    if !t.chance(1, 5) {
        w.emit_clear();
    }
    let mut i = 0;
    while i < n {
        if w.full() || t.chance(1, 40) {
            w.emit_clear();
        }
        i += w.emit_match(&px[i..n], max, true);
    }
    if invalid {
        if t.chance(1, 3) {
            w.emit_clear();
        }
        let mut k = t.seed();
        if t.bool() {
            k = 0;
        }
        if !w.emit_invalid(k) {
            return None;
        }
        // what follows looks like data
        for _ in 0..t.below(4) {
            w.emit_code(u16::from(px.first().copied().unwrap_or(0)));
        }
        if t.bool() {
            w.emit_end();
        }
    } else if t.bool() {
        w.emit_end();
    }
    Some(w.bits.finish(0))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Short,
    Invalid,
    CodeSize,
    NoPalette,
}

fn signature(c: &mut Case) -> Res {
    let f = gen::file(&mut c.t, &Cfg { max_px: 30, max_frames: 1, ..Cfg::default() });
    let mut b = f.bytes();
    let good = b[..6].to_vec();
    match c.t.weighted(&[3, 2, 2, 1]) {
        0 => {
            let i = c.t.below(6) as usize;
            b[i] = c.t.byte();
        }
        1 => {
            let i = c.t.below(6) as usize;
            b[i] ^= 1 << c.t.below(8);
        }
        2 => b[..6].copy_from_slice(c.t.pick(&[b"gif89a", b"GIF88a", b"GIF90a", b"GIF89b", b"GIF87b", b"GIF97a", b"\x89PNG\r\n", b"GIF89A", b"\0\0\0\0\0\0", b"GIF8a7"])),
        _ => {
            b.remove(0);
        }
    }
    let ok = b[..6] == good[..] || &b[..6] == b"GIF87a" || &b[..6] == b"GIF89a";
    let sizes = chop_sizes(&mut c.t);
    c.label(true, "signature");
    let r = Opt::default().build().read_info(Chop::new(&b, sizes.clone())).map(drop);
    ensure!(r.is_ok() == ok, "opening with signature {:?}: {r:?}, reads {sizes:?}", &b[..6]);
    Ok(())
}

fn run(c: &mut Case) -> Res {
    if c.t.chance(1, 25) {
        return signature(c);
    }
    let t = &mut c.t;
    let kind = [Kind::Short, Kind::Invalid, Kind::CodeSize, Kind::NoPalette][t.weighted(&[6, 6, 2, 2])];
    let max_px = t.pick(&[60, 60, 400, 3000]);
    let cfg = Cfg { max_px, max_frames: 3, min_frames: 1, zero_dims: kind == Kind::NoPalette, ..Cfg::default() };
    let mut f = gen::file(t, &cfg);
    if kind == Kind::NoPalette {
        // without a global palette the others need their own
        f.gct = None;
        for b in &mut f.blocks {
            if let BlockSpec::Image(i) = b {
                if i.lct.is_none() {
                    i.lct = Some(gen::palette(t));
                }
            }
        }
    }
    let total = f.images().count();
    let bad = t.below(total as u64) as usize;
    let gct = f.gct.clone();
    let img: &mut ImageSpec = f
        .blocks
        .iter_mut()
        .filter_map(|b| match b {
            BlockSpec::Image(i) => Some(i),
            _ => None,
        })
        .nth(bad)
        .unwrap();
    let px = img.stored.len();
    match kind {
        Kind::Short | Kind::Invalid => {
            let n = match t.weighted(&[2, 2, 1]) {
                0 => px - 1,
                1 => t.below(px as u64) as usize,
                _ => 0,
            };
            let Some(d) = defective(t, &img.stored, n, img.mcs, kind == Kind::Invalid) else { return Ok(()) };
            // the reference says what is in there; padding may look like a code
            let r = lzw::decode(&d, img.mcs, usize::MAX);
            let good = match kind {
                Kind::Short => r.pixels.len() < px && r.end != LzwEnd::Invalid,
                _ => r.pixels.len() < px && r.end == LzwEnd::Invalid,
            };
            if !good {
                return Ok(());
            }
            // code sizes over 8 can give values which aren't the given ones if padding is a code
            img.stored[..r.pixels.len()].copy_from_slice(&r.pixels);
            img.stored[r.pixels.len()..].fill(0);
            img.splits = gen::splits(t, d.len());
            img.lzw = d;
        }
        Kind::CodeSize => img.mcs = t.pick(&[0u8, 12, 13, 16, 31, 32, 33, 64, 127, 128, 200, 254, 255]),
        Kind::NoPalette => img.lct = None,
    }
    let img = img.clone();
    let available = match kind {
        Kind::Short | Kind::Invalid => lzw::decode(&img.lzw, img.mcs, usize::MAX).pixels.len(),
        _ => 0,
    };
    let bytes = f.bytes();
    let exp = f.frames();
    let rgba = t.bool();
    let sizes = if t.bool() { Vec::new() } else { chop_sizes(t) };
    c.nontrivial(true);
    c.label(true, ["short data", "invalid code", "code size", "no palette"][kind as usize]);
    c.label(bad > 0, "not in the first frame");
    c.label(available + 1 == px, "one pixel missing");
    let text = format!("{kind:?} in frame {bad} ({available} of {px} pixels), rgba {rgba}, reads {sizes:?}, {}", f.summary());
    c.describe(|| text.clone());
    let show = |m: &str| format!("{m}: {text}; file {}", hex(&bytes));
    let want: Vec<FrameOut> = exp[..bad].iter().map(|e| expected(e, rgba, gct.as_deref())).collect();
    let check = |frames: &[FrameOut], end: &End, m: &str| -> Res {
        if let Some(d) = diff_frames(frames, &want) {
            return Err(format!("{d}; ends with {end:?}; {}", show(m)));
        }
        ensure!(matches!(end, End::Err(_)), "ends with {end:?}; {}", show(m));
        Ok(())
    };
    let opt = Opt::rgba(rgba);
    // whole frames
    let out = decode_all(Chop::new(&bytes, sizes.clone()), &opt);
    ensure!(out.header.is_some(), "can't open; {}", show("whole"));
    check(&out.frames, &out.end, "whole")?;
    // iterator
    let d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", show("iterator")))?;
    let mut frames = Vec::new();
    let mut end = End::Clean;
    for x in d {
        match x {
            Ok(f) => frames.push(FrameOut::from(&f)),
            Err(e) => {
                end = End::Err(e.into());
                break;
            }
        }
    }
    check(&frames, &end, "iterator")?;
    // into a buffer, and in pieces
    for pieces in [false, true] {
        let m = if pieces { "pieces" } else { "into buffer" };
        let mut d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", show(m)))?;
        for (i, w) in want.iter().enumerate() {
            // any method for those before
            let r = match c.t.weighted(&[2, 1]) {
                0 => match d.read_next_frame() {
                    Ok(Some(g)) => diff_frame(&FrameOut::from(g), w),
                    x => return Err(format!("frame {i}: {x:?}; {}", show(m))),
                },
                _ => match d.next_frame_info() {
                    Ok(Some(_)) => None,
                    x => return Err(format!("frame {i}: {x:?}; {}", show(m))),
                },
            };
            if let Some(r) = r {
                return Err(format!("frame {i}: {r}; {}", show(m)));
            }
        }
        match d.next_frame_info() {
            Ok(Some(g)) => {
                ensure!(matches!(kind, Kind::Short | Kind::Invalid), "frame info {g:?}; {}", show(m));
                let e = &exp[bad];
                ensure!(FrameOut::from(g) == expected_meta(e), "frame info differs; {}", show(m));
            }
            Ok(None) => return Err(format!("clean end; {}", show(m))),
            Err(_) => continue,
        }
        let bpp = if rgba { 4 } else { 1 };
        let size = px * bpp;
        if !pieces {
            let mut b = vec![0; d.buffer_size()];
            ensure!(d.read_into_buffer(&mut b).is_err(), "no error; {}", show(m));
            continue;
        }
        let e = &exp[bad];
        let pal = e.palette.as_deref().or(gct.as_deref()).unwrap_or(&[]);
        let stored = if rgba { expand(&e.stored, pal, e.transparent) } else { e.stored.clone() };
        let mut p = 0;
        let mut reported = false;
        while p < size {
            let n = (bpp * c.t.urange(1, 1 + px / 3)).min(size - p);
            let s = c.t.byte();
            let mut b = vec![s; n];
            let r = d.fill_buffer(&mut b);
            // complete pieces hold what's there; others hold it as far as they have been filled
            let full = matches!(r, Ok(true));
            let end = p + n;
            ensure!(!full || end <= available * bpp, "piece up to {end} is complete, but there are only {} bytes; {}", available * bpp, show(m));
            for (q, &x) in b.iter().enumerate() {
                let a = p + q;
                if a >= available * bpp {
                    break;
                }
                let wild = rgba && usize::from(e.stored[a / 4]) * 3 + 3 > pal.len();
                ensure!(x == stored[a] || (x == s && (wild || !full)), "byte {a} is {x} instead of {}; {}", stored[a], show(m));
            }
            p = end;
            if !full {
                reported = true;
                break;
            }
        }
        ensure!(reported, "no error; {}", show(m));
    }
    // kept compressed
    let skip = Opt { skip: true, ..opt.clone() };
    let out = decode_all(Chop::new(&bytes, sizes.clone()), &skip);
    match kind {
        Kind::CodeSize | Kind::NoPalette => {
            ensure!(out.frames.len() == bad && matches!(out.end, End::Err(_)), "{} frames, ends with {:?}; {}", out.frames.len(), out.end, show("compressed"));
        }
        _ => {
            ensure!(out.frames.len() == total && out.end == End::Clean, "{} frames, ends with {:?}; {}", out.frames.len(), out.end, show("compressed"));
        }
    }
    // expanded later
    if kind != Kind::NoPalette {
        let mut fd = FrameDecoder::new(opt.build());
        if let Some(g) = &gct {
            fd.set_global_palette(g.clone());
        }
        let mut b = vec![img.mcs];
        b.extend_from_slice(&img.lzw);
        let mut fr = Frame { width: img.width, height: img.height, interlaced: img.interlaced, palette: img.lct.clone(), buffer: Cow::Owned(b), ..Frame::default() };
        ensure!(fd.decode_lzw_encoded_frame(&mut fr).is_err(), "no error; {}", show("frame decoder"));
    }
    Ok(())
}
