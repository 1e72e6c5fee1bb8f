//! Time for large amounts of data.
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::streaming_decoder::{Decoded, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::{AnyExtension, Encoder, Frame};
use std::io::{self, Read, Write};
use vref::tape::{pattern, Tape};

pub const CHECK: Check = Check {
    id: "C34",
    run,
    quick: 2_000,
    thorough: 21_000,
    rule: "large files of one kind (an extension of many sub-blocks, many extensions, many frames, also behind a large one, an image in many sub-blocks, frames of which only the sizes are large, data after the last pixel, after the trailer, tall or wide, interlaced or not) read in all ways with pieces of any size, and large encoder histories and conversions, with n and 16 n units; CPU time of both; non-trivial: the larger one takes at least 2 ms",
    level: "exploration",
    assumptions: &["time in proportion to the amount of data is assumed up to a factor of 4; less than 0.3 s for the larger amount is always accepted"],
};

const TIMES: usize = 16;

/// CPU time of this thread, in seconds
fn cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}

struct Sink(usize);

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Debug, Clone)]
enum What {
    /// Label, size of sub-blocks, bytes per unit
    Ext { label: u8, sub: usize },
    Exts { label: u8, sub: usize },
    /// With a large one before them
    Frames { w: u16, h: u16, local: bool, interlaced: bool, first: bool },
    /// Sub-block size; pixels per unit
    Image { w: u16, interlaced: bool, sub: usize, kind: usize },
    /// Data after the end code
    Rest { sub: usize },
    /// Frames which claim to be large, for those who don't ask for the pixels
    Giant,
    /// After the trailer
    Trailing,
}

fn sub_blocks(out: &mut Vec<u8>, data: &[u8], sub: usize) {
    for c in data.chunks(sub) {
        out.push(c.len() as u8);
        out.extend_from_slice(c);
    }
    out.push(0);
}

fn desc(out: &mut Vec<u8>, w: u16, h: u16, interlaced: bool, local: bool) {
    out.push(0x2C);
    for x in [0, 0, w, h] {
        out.extend_from_slice(&u16::to_le_bytes(x));
    }
    out.push(if interlaced { 0x40 } else { 0 } | if local { 0x80 } else { 0 });
    if local {
        out.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
    }
}

impl What {
    fn any(t: &mut Tape) -> Self {
        let sub = t.pick(&[1usize, 2, 17, 100, 254, 255]);
        let label = t.pick(&[0xFEu8, 0xFF, 1, 0x77]);
        match t.below(9) {
            8 => What::Giant,
            0 => What::Ext { label, sub },
            1 => What::Exts { label, sub },
            2 => What::Frames { w: t.pick(&[1, 2, 13]), h: t.pick(&[1, 2, 13]), local: t.bool(), interlaced: t.bool(), first: t.bool() },
            3 => What::Rest { sub },
            4 => What::Trailing,
            _ => What::Image { w: t.pick(&[1u16, 3, 8, 64, 1000, 65535]), interlaced: t.bool(), sub, kind: t.below(4) as usize },
        }
    }
    /// A file with `n` kB of it, more or less
    fn bytes(&self, n: usize) -> Vec<u8> {
        let mut v = b"GIF89a\x0a\0\x0a\0\x80\0\0abcdef".to_vec();
        let one = |v: &mut Vec<u8>| {
            desc(v, 1, 1, false, false);
            v.extend_from_slice(&[2, 2, 0x44, 1, 0]);
        };
        let size = n * 1000;
        match *self {
            What::Ext { label, sub } => {
                v.extend_from_slice(&[0x21, label]);
                sub_blocks(&mut v, &pattern(0, 7, size, 255), sub);
                one(&mut v);
            }
            What::Exts { label, sub } => {
                let mut e = vec![0x21, label];
                sub_blocks(&mut e, &[65; 300][..sub], sub);
                for _ in 0..size / e.len() {
                    v.extend_from_slice(&e);
                }
                one(&mut v);
            }
            What::Frames { w, h, local, interlaced, first } => {
                if first {
                    let (w, h) = (1000, n.min(65535) as u16);
                    let mut f = Frame { width: w, height: h, buffer: pattern(0, 7, size, 255).into(), ..Frame::default() };
                    f.make_lzw_pre_encoded();
                    desc(&mut v, w, h, false, false);
                    v.push(f.buffer[0]);
                    sub_blocks(&mut v, &f.buffer[1..], 255);
                }
                let mut f = Frame { width: w, height: h, buffer: vec![1; usize::from(w) * usize::from(h)].into(), ..Frame::default() };
                f.make_lzw_pre_encoded();
                let mut e = Vec::new();
                desc(&mut e, w, h, interlaced, local);
                e.push(f.buffer[0]);
                sub_blocks(&mut e, &f.buffer[1..], 255);
                for _ in 0..size / 4 / e.len() {
                    v.extend_from_slice(&e);
                }
            }
            What::Image { w, interlaced, sub, kind } => {
                let h = (size / usize::from(w)).clamp(1, 65535) as u16;
                let px = usize::from(w) * usize::from(h);
                let mut f = Frame { width: w, height: h, buffer: pattern(kind, 3, px, 1).into(), ..Frame::default() };
                f.make_lzw_pre_encoded();
                desc(&mut v, w, h, interlaced, false);
                v.push(f.buffer[0]);
                sub_blocks(&mut v, &f.buffer[1..], sub);
            }
            What::Rest { sub } => {
                desc(&mut v, 1, 1, false, false);
                v.push(2);
                v.extend_from_slice(&[2, 0x44, 1]);
                sub_blocks(&mut v, &pattern(0, 5, size, 255), sub);
            }
            What::Giant => {
                for _ in 0..size / 1000 {
                    desc(&mut v, 65535, 65535, false, false);
                    v.extend_from_slice(&[2, 2, 0x44, 1, 0]);
                }
            }
            What::Trailing => {
                one(&mut v);
                v.push(0x3B);
                v.extend(pattern(0, 5, size, 255));
            }
        }
        if !matches!(self, What::Trailing) {
            v.push(0x3B);
        }
        v
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum How {
    Whole,
    Iter,
    Info,
    /// Pieces (unit: pixels)
    Fill(usize),
    FillFew(usize),
    Into,
    Lazy,
    Stream(usize, usize, bool),
}

/// How many bytes or pixels have been seen
fn drive(bytes: &[u8], how: How, opt: &Opt, read: usize) -> Result<usize, gif::DecodingError> {
    let mut seen = 0;
    let opt = Opt { skip: how == How::Lazy || (opt.skip && matches!(how, How::Whole | How::Iter | How::Info)), ..opt.clone() };
    let open = || opt.build().read_info(Chop { data: bytes, pos: 0, sizes: if read == 0 { vec![] } else { vec![read] }, i: 0 });
    match how {
        How::Whole => {
            let mut d = open()?;
            while let Some(f) = d.read_next_frame()? {
                seen += f.buffer.len();
            }
            let mut rest = Vec::new();
            d.into_inner().read_to_end(&mut rest)?;
            seen += rest.len();
        }
        How::Iter => {
            for f in open()? {
                seen += f?.buffer.len();
            }
        }
        How::Info => {
            let mut d = open()?;
            while d.next_frame_info()?.is_some() {
                seen += 1;
            }
        }
        How::Fill(n) | How::FillFew(n) => {
            let mut d = open()?;
            let bpp = if opt.rgba { 4 } else { 1 };
            let mut b = vec![0; n * bpp];
            while d.next_frame_info()?.is_some() {
                let mut left = d.buffer_size();
                if matches!(how, How::FillFew(_)) {
                    left = left / 2 & !3;
                }
                while left >= bpp {
                    let k = left.min(b.len());
                    d.fill_buffer(&mut b[..k])?;
                    left -= k;
                    seen += k;
                }
            }
        }
        How::Into => {
            let mut d = open()?;
            while d.next_frame_info()?.is_some() {
                let mut b = vec![0; d.buffer_size()];
                d.read_into_buffer(&mut b)?;
                seen += b.len();
            }
        }
        How::Lazy => {
            let mut d = open()?;
            let mut fd = FrameDecoder::new(Opt { skip: false, ..opt.clone() }.build());
            fd.set_global_palette(vec![9; 768]);
            while let Some(f) = d.read_next_frame()? {
                let mut f = f.clone();
                fd.decode_lzw_encoded_frame(&mut f)?;
                seen += f.buffer.len();
            }
        }
        How::Stream(i, o, discard) => {
            let mut d = StreamingDecoder::new();
            let mut out = vec![0; o];
            for mut c in bytes.chunks(i) {
                while !c.is_empty() {
                    let mut ob = if discard { OutputBuffer::None } else { OutputBuffer::Slice(&mut out) };
                    let (n, ev) = d.update(c, &mut ob)?;
                    c = &c[n..];
                    if !matches!(ev, Decoded::Nothing) {
                        seen += 1;
                    }
                }
            }
        }
    }
    Ok(seen)
}

#[derive(Debug, Clone)]
enum Job {
    Decode { what: What, how: How, opt: Opt, read: usize },
    /// Many frames (or frames and extensions) of one encoder
    /// after a large one
    Calls { w: u16, h: u16, pre: bool, ext: bool, local: bool, first: bool },
    /// One large frame, width
    Large { w: u16, kind: usize, max: u8, interlaced: bool },
    /// One raw extension of slices of this size
    Raw { slice: usize },
    /// Conversion of an image this wide, number of colors
    Conv { w: u16, colors: u32, rgb: bool },
}

fn job(t: &mut Tape) -> Job {
    match t.weighted(&[12, 1, 2, 1, 2]) {
        0 => {
            let what = What::any(t);
            let piece = t.pick(&[1usize, 2, 7, 100, 4096, 100_000]);
            let how = match t.below(10) {
                0 | 1 => How::Whole,
                2 => How::Iter,
                3 => How::Info,
                4 | 5 => How::Fill(piece),
                6 => How::FillFew(piece),
                7 => How::Into,
                8 => How::Lazy,
                _ => How::Stream(t.pick(&[1usize, 3, 300, 1 << 30]), piece, t.bool()),
            };
            let how = match how {
                How::Whole | How::Iter | How::Info | How::Stream(..) if matches!(what, What::Giant) => how,
                _ if matches!(what, What::Giant) => How::Info,
                // it can't be told to allow unknown labels
                How::Stream(..) if matches!(what, What::Ext { label: 0x77, .. } | What::Exts { label: 0x77, .. }) => How::Whole,
                h => h,
            };
            let giant = matches!(what, What::Giant);
            let opt = Opt { rgba: t.bool(), limit: if giant { Some(1 << 30) } else { None }, skip: giant || t.chance(1, 5), end_code: t.chance(1, 4), consistency: false, unknown: true };
            Job::Decode { what, how, opt, read: t.pick(&[0usize, 1, 5, 1000]) }
        }
        1 => Job::Calls { w: t.pick(&[1u16, 10]), h: t.pick(&[1u16, 10]), pre: t.bool(), ext: t.bool(), local: t.bool(), first: t.bool() },
        2 => Job::Large { w: t.pick(&[1u16, 100, 65535]), kind: t.below(4) as usize, max: t.pick(&[0u8, 1, 15, 127, 255]), interlaced: t.bool() },
        3 => Job::Raw { slice: t.pick(&[0usize, 1, 255, 256, 10_000, 1 << 30]) },
        _ => Job::Conv { w: t.pick(&[1u16, 50, 1000]), colors: t.pick(&[1u32, 2, 200, 256]), rgb: t.bool() },
    }
}

/// Prepares `n` units, then measures
fn measure(j: &Job, n: usize, repeat: usize) -> Result<(f64, usize), String> {
    let timed = |f: &mut dyn FnMut() -> Result<usize, String>| {
        let mut best = f64::MAX;
        let mut r = 0;
        for _ in 0..repeat {
            let s = cpu();
            r = f()?;
            best = best.min(cpu() - s);
            if best > 1.0 {
                break;
            }
        }
        Ok((best, r))
    };
    match *j {
        Job::Decode { ref what, how, ref opt, read } => {
            let b = what.bytes(n);
            timed(&mut || drive(&b, how, opt, read).map_err(|e| e.to_string()))
        }
        Job::Calls { w, h, pre, ext, local, first } => {
            let large = first.then(|| {
                let h = n.min(65535) as u16;
                Frame { width: 1000, height: h, buffer: pattern(0, 3, 1000 * usize::from(h), 255).into(), ..Frame::default() }
            });
            let mut f = Frame { width: w, height: h, buffer: vec![1; usize::from(w) * usize::from(h)].into(), palette: local.then(|| vec![1; 300]), ..Frame::default() };
            if pre {
                f.make_lzw_pre_encoded();
            }
            timed(&mut || {
                let mut e = Encoder::new(Sink(0), 1, 1, &[1; 6]).map_err(|e| e.to_string())?;
                if let Some(f) = &large {
                    e.write_frame(f).map_err(|e| e.to_string())?;
                }
                for _ in 0..n * 20 {
                    if pre { e.write_lzw_pre_encoded_frame(&f) } else { e.write_frame(&f) }.map_err(|e| e.to_string())?;
                    if ext {
                        e.write_raw_extension(AnyExtension(0xFE), &[b"text"]).map_err(|e| e.to_string())?;
                    }
                }
                e.into_inner().map(|s| s.0).map_err(|e| e.to_string())
            })
        }
        Job::Large { w, kind, max, interlaced } => {
            let h = (n * 1000 / usize::from(w)).clamp(1, 65535) as u16;
            let px = usize::from(w) * usize::from(h);
            let f = Frame { width: w, height: h, buffer: pattern(kind, 3, px, max).into(), interlaced, ..Frame::default() };
            timed(&mut || {
                let mut e = Encoder::new(Sink(0), 1, 1, &[1; 768]).map_err(|e| e.to_string())?;
                e.write_frame(&f).map_err(|e| e.to_string())?;
                let mut g = f.clone();
                g.make_lzw_pre_encoded();
                e.write_lzw_pre_encoded_frame(&g).map_err(|e| e.to_string())?;
                e.into_inner().map(|s| s.0).map_err(|e| e.to_string())
            })
        }
        Job::Raw { slice } => {
            let data = vec![65u8; n * 1000];
            let slices: Vec<&[u8]> = if slice == 0 { vec![&[]; n * 1000] } else { data.chunks(slice).collect() };
            timed(&mut || {
                let mut e = Encoder::new(Sink(0), 1, 1, &[1; 6]).map_err(|e| e.to_string())?;
                e.write_raw_extension(AnyExtension(0xFE), &slices).map_err(|e| e.to_string())?;
                e.into_inner().map(|s| s.0).map_err(|e| e.to_string())
            })
        }
        Job::Conv { w, colors, rgb } => {
            let h = (n * 1000 / usize::from(w)).clamp(1, 65535) as u16;
            let px = usize::from(w) * usize::from(h);
            let mut p = Vec::with_capacity(px * 4);
            for i in 0..px as u32 {
                let c = (i.wrapping_mul(2_654_435_761) >> 8) % colors;
                p.extend_from_slice(&[(c & 15) as u8 * 16, (c >> 4) as u8, 7]);
                if !rgb {
                    p.push(255);
                }
            }
            timed(&mut || {
                let f = if rgb { Frame::from_rgb(w, h, &p) } else { Frame::from_rgba(w, h, &mut p.clone()) };
                Ok(f.buffer.len())
            })
        }
    }
}

fn run(c: &mut Case) -> Res {
    let j = job(&mut c.t);
    // kB, kilopixels, or so
    let n = c.t.urange(60, 250);
    c.describe(|| format!("{n} and {} units of {j:?}", n * TIMES));
    c.label(matches!(j, Job::Decode { .. }), "decoding");
    let show = |e: String| format!("{e}; {n} units of {j:?}");
    let (large, r2) = measure(&j, n * TIMES, 1).map_err(show)?;
    c.nontrivial(large > 0.002 && r2 > 0);
    if large < 0.3 {
        return Ok(());
    }
    // maybe
    c.label(true, "compared");
    let mut ratio = f64::MAX;
    for _ in 0..3 {
        let (small, _) = measure(&j, n, 3).map_err(show)?;
        let (large, _) = measure(&j, n * TIMES, 1).map_err(show)?;
        ratio = ratio.min(large / small.max(1e-4));
    }
    ensure!(ratio <= 4.0 * TIMES as f64, "{TIMES} times as much takes {ratio:.0} times as long ({large:.2} s); {n} units of {j:?}");
    Ok(())
}
