//! Truncation at every point.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use vref::gen::{self, Cfg};
use vref::spec::{FileSpec, Spans};

pub const CHECK: Check = Check {
    id: "C11",
    run,
    quick: 160_000,
    thorough: 4_800_000,
    rule: "generated files cut at every offset before the trailer (at 60 random ones if over 300 bytes long), read whole, by the iterator, compressed, or for frame information only; how many frames must, and may, come back is known from the generator; one evaluation is one file with all its cuts; non-trivial: a cut within or behind an image",
    level: "fault_enumeration",
    assumptions: &[TRUSTED, "a frame whose pixel codes are complete but whose block isn't closed may be returned or not"],
};

/// (frames which have to be returned, frames which may be) for the first `c` bytes
pub fn bounds(sp: &Spans, c: usize) -> (usize, usize) {
    let must = sp.images.iter().filter(|&&(_, _, _, end)| end <= c).count();
    let may = sp.images.iter().filter(|&&(_, meta, need, _)| need.max(meta + 1) <= c).count();
    (must, may)
}

pub fn cut_ok(f: &FileSpec, sp: &Spans, want: &[FrameOut], out: &Outcome, c: usize, skip: bool) -> Res {
    let (must, may) = bounds(sp, c);
    let may = if skip { must } else { may };
    if out.header.is_some() {
        // at least one byte of the blocks is needed to know that the header is complete
        ensure!(c > sp.header_end, "opened without a complete header");
    }
    ensure!(out.frames.len() >= must, "{} frames, but {must} are complete (end {:?})", out.frames.len(), out.end);
    ensure!(out.frames.len() <= may, "{} frames, but only {may} can be complete (end {:?})", out.frames.len(), out.end);
    if let Some(d) = diff_frames(&out.frames, &want[..out.frames.len()]) {
        return Err(format!("vs the full file: {d}"));
    }
    let _ = f;
    Ok(())
}

fn run(c: &mut Case) -> Res {
    let big = c.t.chance(1, 10);
    let cfg = Cfg { max_px: if big { 3000 } else { 60 }, max_frames: 3, no_end: true, ..Cfg::default() };
    let f = gen::file(&mut c.t, &cfg);
    let (bytes, sp) = f.serialize();
    let skip = c.t.chance(1, 4);
    let rgba = c.t.chance(1, 4);
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    let iter = c.t.bool();
    let opt = Opt { rgba, skip, ..Opt::default() };
    let want: Vec<FrameOut> = f
        .frames()
        .iter()
        .zip(f.images())
        .map(|(e, i)| {
            if skip {
                let mut b = vec![i.mcs];
                b.extend_from_slice(&i.lzw);
                FrameOut { buffer: b, ..expected_meta(e) }
            } else {
                expected(e, rgba, f.gct.as_deref())
            }
        })
        .collect();
    let cuts: Vec<usize> = if sp.trailer <= 300 {
        (0..=sp.trailer).collect()
    } else {
        // fewer of them if decoding takes long
        let long = bytes.len() + want.iter().map(|w| w.buffer.len()).sum::<usize>() > 60_000;
        let mut v: Vec<usize> = (0..if long { 10 } else { 40 }).map(|_| c.t.below(sp.trailer as u64 + 1) as usize).collect();
        // around the ends of images
        // (the last ones, and some of the others if there are many)
        let k = sp.images.len().saturating_sub(if long { 1 } else { 6 });
        let some: Vec<usize> = if k <= 6 && !long { (0..k).collect() } else { (0..if k == 0 { 0 } else if long { 1 } else { 6 }).map(|_| c.t.below(k as u64) as usize).collect() };
        for &(s, m, n, e) in some.iter().map(|&i| &sp.images[i]).chain(&sp.images[k..]) {
            v.extend([s, s + 1, m, m + 1, n - 1, n, n + 1, e - 1, e, e + 1]);
        }
        v.push(sp.trailer);
        v.retain(|&x| x <= sp.trailer);
        v
    };
    c.nontrivial(!want.is_empty());
    c.label(want.len() > 1, "several images");
    c.label(skip, "compressed");
    c.label(sp.trailer > 300, "sampled cuts");
    c.describe(|| format!("{} cuts of {} bytes, {opt:?}, {}", cuts.len(), bytes.len(), f.summary()));
    for cut in cuts {
        let part = &bytes[..cut];
        let show = || format!("cut at {cut} of {} (trailer at {}), {opt:?}, reads {sizes:?}, {}; file {}", bytes.len(), sp.trailer, f.summary(), hex(&bytes));
        let out = if iter {
            match opt.build().read_info(Chop::new(part, sizes.clone())) {
                Err(e) => Outcome { header: None, frames: Vec::new(), end: End::Err(e.into()) },
                Ok(d) => {
                    let h = header(&d);
                    let mut frames = Vec::new();
                    let mut end = End::Clean;
                    for x in d {
                        match x {
                            Ok(f) => frames.push(FrameOut::from(&f)),
                            Err(e) => end = End::Err(e.into()),
                        }
                    }
                    Outcome { header: Some(h), frames, end }
                }
            }
        } else {
            decode_all(Chop::new(part, sizes.clone()), &opt)
        };
        cut_ok(&f, &sp, &want, &out, cut, skip).map_err(|e| format!("{e}; {}", show()))?;
        match &out.end {
            End::Err(e) if e.is_eof() => {}
            End::Err(e) if out.header.is_none() => ensure!(matches!(e, ErrK::Io(..)) || cut <= sp.header_end, "opening fails with {e:?}; {}", show()),
            e => return Err(format!("ends with {e:?}; {}", show())),
        }
        // frame information only
        if let Ok(mut d) = opt.build().read_info(Chop::new(part, sizes.clone())) {
            let mut n = 0;
            loop {
                match d.next_frame_info() {
                    Ok(Some(g)) => {
                        ensure!(n < want.len(), "info only: too many frames; {}", show());
                        ensure!(want[n].same_meta(&FrameOut::from(g)), "info only: frame {n}; {}", show());
                        n += 1;
                    }
                    Ok(None) => return Err(format!("info only: clean end after {n} frames; {}", show())),
                    Err(e) => {
                        let e = ErrK::from(e);
                        ensure!(e.is_eof(), "info only: ends with {e:?}; {}", show());
                        break;
                    }
                }
            }
            ensure!(n >= bounds(&sp, cut).0, "info only: {n} frames; {}", show());
        }
    }
    Ok(())
}
