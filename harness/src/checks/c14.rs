//! The end code option.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::streaming_decoder::FrameDecoder;
use gif::Frame;
use std::borrow::Cow;
use vref::gen::{self, Cfg};
use vref::spec::{BlockSpec, ImageSpec};

pub const CHECK: Check = Check {
    id: "C14",
    run,
    quick: 400_000,
    thorough: 12_000_000,
    rule: "generated files in which every image has, or one lacks, an end code (verified with the reference LZW decoder), with data before and after it and any sub-block split, decoded with the check on and off by whole reads, into buffers, by fills, skipping, and by the frame decoder, in random chunks; non-trivial: an image with pixels",
    level: "exploration",
    assumptions: &[TRUSTED],
};

/// No end code, also not in the padding
fn lacks_end(i: &ImageSpec) -> bool {
    let r = vref::lzw::decode(&i.lzw, i.mcs, usize::MAX);
    r.end == vref::lzw::LzwEnd::OutOfData
}

fn run(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: super::c03::max_px(c), no_end: false, max_frames: 3, min_frames: 1, ..Cfg::default() };
    let mut f = gen::file(&mut c.t, &cfg);
    let mut bad = None;
    if c.t.bool() {
        // one without
        let n = f.images().count();
        let k = c.t.below(n as u64) as usize;
        let cfg = Cfg { no_end: true, ..cfg };
        let img = f.images_mut().nth(k).unwrap();
        for _ in 0..8 {
            let l = gen::lzw_stream(&mut c.t, &img.stored, img.mcs, &cfg);
            if !l.has_end {
                (img.lzw, img.has_end, img.bits_needed) = (l.data, false, l.bits_needed);
                if lacks_end(img) {
                    bad = Some(k);
                    break;
                }
            }
        }
        if bad.is_none() {
            // nothing but the pixels
            let mut w = vref::lzw::CodeWriter::new(img.mcs);
            w.emit_clear();
            let mut p = 0;
            while p < img.stored.len() {
                if w.full() {
                    w.emit_clear();
                }
                p += w.emit_match(&img.stored[p..], 5000, true);
            }
            img.bits_needed = if img.stored.is_empty() { 0 } else { w.bits.bit_len() };
            img.lzw = w.bits.finish(0);
            img.has_end = false;
            if lacks_end(img) {
                bad = Some(k);
            } else {
                return Ok(());
            }
        }
        let img = f.images_mut().nth(k).unwrap();
        if c.t.chance(1, 8) {
            img.splits = vec![1; img.lzw.len()];
        }
    }
    let bytes = f.bytes();
    let exp = f.frames();
    let rgba = c.t.chance(1, 3);
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    c.nontrivial(exp.iter().any(|e| !e.stored.is_empty()));
    c.label(bad.is_some(), "one image without an end code");
    c.describe(|| format!("image without end code: {bad:?}; {}", f.summary()));
    let show = || format!("image without end code: {bad:?}, rgba {rgba}, reads {sizes:?}; {}; file {}", f.summary(), hex(&bytes));
    for on in [false, true] {
        let opt = Opt { rgba, end_code: on, ..Opt::default() };
        let want: Vec<FrameOut> = exp.iter().map(|e| expected(e, rgba, f.gct.as_deref())).collect();
        let out = decode_all(Chop::new(&bytes, sizes.clone()), &opt);
        match bad {
            Some(k) if on => {
                // whether the frame itself is returned before its end is looked for is open
                ensure!(out.frames.len() == k || out.frames.len() == k + 1, "{} frames with the check on; {}", out.frames.len(), show());
                if let Some(d) = diff_frames(&out.frames, &want[..out.frames.len()]) {
                    return Err(format!("check {on}: {d}; {}", show()));
                }
                ensure!(matches!(out.end, End::Err(_)), "no end code, but decoding ends with {:?}; {}", out.end, show());
            }
            _ => {
                if let Some(d) = diff_frames(&out.frames, &want) {
                    return Err(format!("check {on}: {d} (end {:?}); {}", out.end, show()));
                }
                ensure!(out.end == End::Clean, "check {on}: ends with {:?}; {}", out.end, show());
            }
        }
        // a mix of the other methods
        let mut d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", show()))?;
        let mut log = Vec::new();
        let mut n = 0;
        let end = loop {
            match d.next_frame_info() {
                Ok(Some(g)) => {
                    ensure!(n < exp.len() && FrameOut::from(g) == expected_meta(&exp[n]), "check {on}: frame {n} info; {}", show());
                }
                Ok(None) => break End::Clean,
                Err(e) => break End::Err(e.into()),
            }
            let size = want[n].buffer.len();
            match c.t.weighted(&[3, 2, 2]) {
                0 => log.push("skip"),
                1 => {
                    log.push("into");
                    let mut b = vec![0; size];
                    match d.read_into_buffer(&mut b) {
                        Ok(()) => ensure!(b == want[n].buffer, "check {on}: frame {n} into buffer; {}", show()),
                        Err(e) => break End::Err(e.into()),
                    }
                }
                _ => {
                    log.push("fill");
                    let k = 4 * c.t.urange(1, 30);
                    let mut b = vec![0; k];
                    match d.fill_buffer(&mut b) {
                        Ok(_) => {}
                        Err(e) => break End::Err(e.into()),
                    }
                }
            }
            n += 1;
        };
        match bad {
            Some(k) if on => ensure!(matches!(end, End::Err(_)) && (n == k || n == k + 1), "methods {log:?}: no end code, but {n} frames and {end:?}; {}", show()),
            _ => ensure!(end == End::Clean && n == exp.len(), "check {on}, methods {log:?}: {n} frames and {end:?}; {}", show()),
        }
        // the frame decoder
        let mut fd = FrameDecoder::new(opt.build());
        fd.set_global_palette(f.gct.clone().unwrap_or_default());
        let mut k = 0;
        for b in &f.blocks {
            let BlockSpec::Image(i) = b else { continue };
            let mut buf = vec![i.mcs];
            buf.extend_from_slice(&i.lzw);
            let mut fr = Frame { width: i.width, height: i.height, interlaced: i.interlaced, transparent: exp[k].transparent, palette: i.lct.clone(), buffer: Cow::Owned(buf), ..Frame::default() };
            let r = fd.decode_lzw_encoded_frame(&mut fr);
            if on && bad == Some(k) {
                ensure!(r.is_err(), "frame decoder: frame {k} without end code accepted; {}", show());
            } else {
                ensure!(r.is_ok(), "frame decoder, check {on}: frame {k}: {r:?}; {}", show());
                ensure!(*fr.buffer == want[k].buffer[..], "frame decoder, check {on}: frame {k} has other pixels; {}", show());
            }
            k += 1;
        }
    }
    Ok(())
}
