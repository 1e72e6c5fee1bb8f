//! Memory for long animations.
use super::*;
use crate::alloc;
use crate::enc::{self, Hist, Op};
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::stream::{stream_quiet, Sched};
use crate::util::*;
use gif::streaming_decoder::FrameDecoder;
use gif::{Encoder, Frame};
use std::borrow::Cow;
use std::io::{self, Write};
use vref::gen::{self, Cfg};
use vref::spec::{BlockSpec, FileSpec};

pub const CHECK: Check = Check {
    id: "C27",
    run,
    quick: 120_000,
    thorough: 3_600_000,
    rule: "the blocks of a generated file (or the calls of a generated encoder history) repeated 8 times and 8 + n times, n = 8..=80; decoded whole, by the iterator, for information only, in partial fills, into a buffer, compressed, compressed and expanded, or by the streaming decoder, or encoded; the peak and the sum of allocated bytes are measured by a counting allocator; non-trivial: something is repeated",
    level: "exploration",
    assumptions: &[TRUSTED, "1 KiB and twice the size of the largest block more at the peak (buffers grow in steps), and twice the work per repetition, are tolerated"],
};

const SLACK: u64 = 1024;
const FEW: usize = 8;

/// (peak, total)
fn measure<T>(f: impl FnOnce() -> Result<T, String>) -> Result<(u64, u64, T), String> {
    let base = alloc::start();
    let t = alloc::total();
    let r = f()?;
    Ok((alloc::peak_since(base), alloc::total().wrapping_sub(t), r))
}

/// `largest`: bytes of the largest block. How a buffer for it grows depends on where it stands in the file,
/// because of the reader's own buffer.
fn compare(few: (u64, u64), many: (u64, u64), n: usize, largest: u64) -> Res {
    let (p1, t1) = few;
    let (p2, t2) = many;
    ensure!(p2 <= p1 + SLACK + 2 * largest, "peak of {p2} bytes for {} repetitions, {p1} bytes for {FEW}", FEW + n);
    let linear = (2 * t1 / FEW as u64 + SLACK) * (FEW + n) as u64;
    ensure!(t2 <= linear, "{t2} bytes allocated in all for {} repetitions, {t1} for {FEW}", FEW + n);
    Ok(())
}

fn run(c: &mut Case) -> Res {
    if c.t.chance(1, 4) { encoder(c) } else { decoder(c) }
}

struct Sink(u64);

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn encoder(c: &mut Case) -> Res {
    let h = enc::hist(&mut c.t, 4);
    let n = c.t.urange(8, 80);
    let frames: Vec<Option<Frame<'static>>> = h
        .ops
        .iter()
        .map(|o| match o {
            Op::Frame(f) => {
                let mut fr = f.frame();
                if f.pre {
                    fr.make_lzw_pre_encoded();
                }
                Some(fr)
            }
            _ => None,
        })
        .collect();
    c.nontrivial(!h.ops.is_empty());
    c.label(true, "encoder");
    c.describe(|| format!("{n} more repetitions of {}", enc::show(&h)));
    let go = |reps: usize| {
        measure(|| {
            let mut e = Encoder::new(Sink(0), h.width, h.height, &h.gpal).map_err(|e| e.to_string())?;
            for _ in 0..reps {
                for (o, f) in h.ops.iter().zip(&frames) {
                    match (o, f) {
                        (Op::Frame(x), Some(f)) => if x.pre { e.write_lzw_pre_encoded_frame(f) } else { e.write_frame(f) },
                        _ => enc::apply(&mut e, o),
                    }
                    .map_err(|e| e.to_string())?;
                }
            }
            e.into_inner().map(|s| s.0).map_err(|e| e.to_string())
        })
        .map_err(|e| format!("{e}; {}", enc::show(&h)))
    };
    let (p1, t1, l1) = go(FEW)?;
    let (p2, t2, l2) = go(FEW + n)?;
    compare((p1, t1), (p2, t2), n, 0).map_err(|e| format!("encoder: {e}; {}", show_hist(&h)))?;
    let (head, _) = (13 + enc::expected_gct(&h).len() as u64, ());
    ensure!((l1 - head - 1) * (FEW + n) as u64 == (l2 - head - 1) * FEW as u64, "{l1} bytes for {FEW} repetitions, {l2} for {}; {}", FEW + n, show_hist(&h));
    Ok(())
}

fn show_hist(h: &Hist) -> String {
    enc::show(h)
}

fn drive(how: usize, bytes: &[u8], opt: &Opt, fill: &mut [u8], s: &Sched) -> Result<(u64, u64, usize), String> {
    let show = |e: gif::DecodingError| e.to_string();
    match how {
        6 => measure(|| stream_quiet(bytes, s)),
        5 => {
            // transported compressed, expanded later
            let mut ro = opt.clone();
            ro.skip = true;
            let mut d = ro.build().read_info(bytes).map_err(show)?;
            let mut fd = FrameDecoder::new(opt.build());
            let pal = vec![7; 768];
            measure(|| {
                fd.set_global_palette(pal);
                let mut k = 0;
                while let Some(f) = d.read_next_frame().map_err(show)? {
                    k += 1;
                    if k % 2 == 0 {
                        let mut b = f.clone();
                        fd.decode_lzw_encoded_frame(&mut b).map_err(show)?;
                    } else {
                        let b = Frame { buffer: Cow::Borrowed(&f.buffer), palette: None, ..*f };
                        let n = fd.buffer_size(&b);
                        if n <= fill.len() {
                            fd.decode_lzw_encoded_frame_into_buffer(&b, fill).map_err(show)?;
                        }
                    }
                }
                Ok(k)
            })
        }
        _ => measure(|| {
            let mut ro = opt.clone();
            ro.skip = how == 4;
            let mut d = ro.build().read_info(bytes).map_err(show)?;
            let mut k = 0;
            match how {
                1 => {
                    for f in d {
                        f.map_err(show)?;
                        k += 1;
                    }
                    return Ok(k);
                }
                0 | 4 => {
                    while d.read_next_frame().map_err(show)?.is_some() {
                        k += 1;
                    }
                }
                _ => {
                    while d.next_frame_info().map_err(show)?.is_some() {
                        k += 1;
                        let n = d.buffer_size();
                        match (how, k % 3) {
                            (2, _) => {}
                            (_, 0) if n <= fill.len() => d.read_into_buffer(fill).map_err(show)?,
                            (_, 1) => {
                                let m = (n / 2).min(fill.len()) & !3;
                                d.fill_buffer(&mut fill[..m]).map_err(show)?;
                            }
                            _ => {}
                        }
                    }
                }
            }
            Ok(k)
        }),
    }
}

fn block_len(b: &BlockSpec) -> usize {
    match b {
        BlockSpec::Image(i) => i.lzw.len(),
        BlockSpec::Ext { blocks, .. } | BlockSpec::Unknown { blocks, .. } => blocks.iter().map(|b| b.len() + 1).sum(),
        _ => 0,
    }
}

fn decoder(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: if c.t.chance(1, 8) { 2000 } else { 120 }, max_frames: 3, huge: false, unknown: true, unknown_ext: true, ..Cfg::default() };
    let f = gen::file(&mut c.t, &cfg);
    let n = c.t.urange(8, 80);
    let how = c.t.below(7) as usize;
    // the streaming decoder can't be told to allow unknown blocks
    let known = |f: &FileSpec| -> FileSpec {
        let mut f = f.clone();
        f.blocks.retain(|b| !matches!(b, BlockSpec::Unknown { .. }) && !matches!(b, BlockSpec::Ext { label, .. } if !matches!(label, 1 | 0xF9 | 0xFE | 0xFF)));
        f
    };
    let f = if how == 6 { known(&f) } else { f };
    let times = |k: usize| {
        let mut g = f.clone();
        g.blocks = (0..k).flat_map(|_| f.blocks.iter().cloned()).collect();
        g.bytes()
    };
    let (few, many) = (times(FEW), times(FEW + n));
    let opt = Opt { rgba: c.t.bool(), unknown: true, ..Opt::default() };
    let s = Sched { input: if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) }, output: vec![c.t.urange(1, 400)], discard: vec![c.t.bool(), c.t.bool()] };
    let mut fill = vec![0; 16_000];
    c.nontrivial(!f.blocks.is_empty());
    c.label(true, ["whole", "iterator", "info only", "mixed", "compressed", "expanded later", "streaming"][how]);
    c.describe(|| format!("how {how}, {opt:?}, {n} more repetitions of {}", f.summary()));
    let show = || format!("how {how}, {opt:?}, {n} more repetitions of {}; file {}", f.summary(), hex(&f.bytes()));
    let (p1, t1, k1) = drive(how, &few, &opt, &mut fill, &s).map_err(|e| format!("{e}; {}", show()))?;
    let (p2, t2, k2) = drive(how, &many, &opt, &mut fill, &s).map_err(|e| format!("{e}; {}", show()))?;
    let frames = f.frames().len();
    ensure!(k1 == FEW * frames && k2 == (FEW + n) * frames, "{k1} and {k2} frames; {}", show());
    let largest = f.blocks.iter().map(block_len).max().unwrap_or(0);
    compare((p1, t1), (p2, t2), n, largest as u64).map_err(|e| format!("{e}; {}", show()))
}
