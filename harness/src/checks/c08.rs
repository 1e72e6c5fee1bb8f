//! Frames in compressed form.
use super::*;
use crate::enc;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::streaming_decoder::FrameDecoder;
use gif::{Encoder, Frame};
use std::borrow::Cow;
use vref::gen::{self, Cfg};
use vref::spec::expand;

pub const CHECK: Check = Check {
    id: "C08",
    run,
    quick: 1_050_000,
    thorough: 31_500_000,
    rule: "half: random frames written directly and pre-encoded, in one encoder history, bytes compared; half: generated files read without decompression, expanded later by one shared frame decoder in random order mixed with broken frames, and written back pre-encoded; non-trivial: at least one frame with pixels",
    level: "exploration",
    assumptions: &[TRUSTED, RELEASE],
};

fn run(c: &mut Case) -> Res {
    if c.t.bool() {
        pre_encode(c)
    } else {
        transport(c)
    }
}

fn pre_encode(c: &mut Case) -> Res {
    let n = c.t.urange(1, 3);
    let gpal = enc::pal(&mut c.t);
    let has = gpal.len() >= 3;
    let frames: Vec<enc::EFrame> = (0..n)
        .map(|_| {
            let m = enc::max_px(&mut c.t);
            enc::eframe(&mut c.t, has, m)
        })
        .collect();
    c.describe(|| format!("pre-encode {:?}", frames.iter().map(|f| &f.f).collect::<Vec<_>>()));
    c.nontrivial(frames.iter().any(|f| f.px() > 0));
    c.label(true, "pre-encoding");
    let make = |pre: bool| -> Result<Vec<u8>, String> {
        let mut e = Encoder::new(Vec::new(), 10, 10, &gpal).map_err(|e| e.to_string())?;
        for f in &frames {
            let mut x = f.frame();
            if pre {
                x.make_lzw_pre_encoded();
                // only the buffer is replaced
                let mut y = FrameOut::from(&x);
                y.buffer = f.f.buffer.clone();
                ensure!(y == f.f, "make_lzw_pre_encoded changed {:?} to {y:?}", f.f);
                e.write_lzw_pre_encoded_frame(&x).map_err(|e| e.to_string())?;
            } else {
                e.write_frame(&x).map_err(|e| e.to_string())?;
            }
        }
        e.into_inner().map_err(|e| e.to_string())
    };
    let (a, b) = (make(false)?, make(true)?);
    ensure!(a == b, "written directly {} vs pre-encoded {}; {:?}", hex(&a), hex(&b), frames.iter().map(|f| &f.f).collect::<Vec<_>>());
    Ok(())
}

fn transport(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: super::c03::max_px(c), no_end: true, bad_tail: true, max_frames: 5, giant: true, min_frames: 1, ..Cfg::default() };
    let f = gen::file(&mut c.t, &cfg);
    let bytes = f.bytes();
    let rgba = c.t.bool();
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    c.label(true, "transport");
    c.describe(|| format!("rgba {rgba}, {}", f.summary()));
    let show = || format!("rgba {rgba}, {}; file {}", f.summary(), hex(&bytes));
    let exp = f.frames();
    c.nontrivial(exp.iter().any(|e| !e.stored.is_empty()));
    let out = decode_all(Chop::new(&bytes, sizes), &Opt { skip: true, rgba, ..Opt::default() });
    let want: Vec<FrameOut> = exp
        .iter()
        .zip(f.images())
        .map(|(e, i)| {
            let mut b = vec![i.mcs];
            b.extend_from_slice(&i.lzw);
            FrameOut { buffer: b, ..expected_meta(e) }
        })
        .collect();
    if let Some(d) = diff_frames(&out.frames, &want) {
        return Err(format!("compressed frames vs file: {d} (end {:?}); {}", out.end, show()));
    }
    ensure!(out.end == End::Clean, "ended with {:?}; {}", out.end, show());
    // expand, in any order, with one decoder
    let mut fd = FrameDecoder::new(Opt::rgba(rgba).build());
    if let Some(g) = &f.gct {
        fd.set_global_palette(g.clone());
    }
    let n = c.t.urange(1, 2 * exp.len());
    let mut global = f.gct.clone();
    for _ in 0..n {
        let k = c.t.below(exp.len() as u64) as usize;
        if c.t.chance(1, 5) {
            // on to another image
            let p = if c.t.chance(1, 4) { Vec::new() } else { gen::palette(&mut c.t) };
            fd.set_global_palette(p.clone());
            global = if p.is_empty() { None } else { Some(p) };
            c.label(rgba && exp[k].palette.is_none(), "another global palette");
        }
        let e = &exp[k];
        let mut fr = Frame {
            left: e.left,
            top: e.top,
            width: e.width,
            height: e.height,
            delay: e.delay,
            dispose: want[k].dispose,
            transparent: e.transparent,
            needs_user_input: e.user_input,
            interlaced: e.interlaced,
            palette: e.palette.clone(),
            buffer: if c.t.chance(1, 3) { Cow::Owned(want[k].buffer.clone()) } else { Cow::Borrowed(&want[k].buffer) },
        };
        let pal = e.palette.as_deref().or(global.as_deref()).unwrap_or(&[]);
        let idx = e.display();
        let idx_max = usize::from(idx.iter().copied().max().unwrap_or(0));
        let px = if rgba { expand(&idx, pal, e.transparent) } else { idx };
        if rgba && pal.is_empty() {
            // it may be refused, but mustn't come out in colors of other frames
            c.label(true, "no palette any more");
            if fd.decode_lzw_encoded_frame(&mut fr).is_ok() {
                ensure!(fr.buffer.iter().all(|&x| x == 0), "frame {k} has colors, but no palette; {}", show());
            }
            continue;
        }
        match c.t.weighted(&[4, 3, 1, 1]) {
            0 => {
                fd.decode_lzw_encoded_frame(&mut fr).map_err(|e| format!("frame {k}: {e}; {}", show()))?;
                let mut w = expected(e, rgba, global.as_deref());
                w.buffer = px;
                if let Some(d) = diff_frame(&FrameOut::from(&fr), &w) {
                    return Err(format!("frame {k} expanded vs expected: {d}; {}", show()));
                }
            }
            1 => {
                ensure!(fd.buffer_size(&fr) == px.len(), "frame {k}: buffer_size {}; {}", fd.buffer_size(&fr), show());
                let mut buf = vec![0; px.len()];
                fd.decode_lzw_encoded_frame_into_buffer(&fr, &mut buf).map_err(|e| format!("frame {k}: into buffer: {e}; {}", show()))?;
                ensure!(buf == px, "frame {k}: expansion into a buffer gives other pixels; {}", show());
                ensure!(*fr.buffer == want[k].buffer[..], "frame {k}: compressed buffer changed");
                // other sizes: larger ones may be refused, but not written to beyond the frame
                let extra = c.t.pick(&[0usize, 1, 4, 100, 100_000]);
                if extra > 0 && px.len() < 100_000 {
                    let mut buf = vec![0x5A; px.len() + extra];
                    if fd.decode_lzw_encoded_frame_into_buffer(&fr, &mut buf).is_ok() {
                        ensure!(buf[px.len()..].iter().all(|&x| x == 0x5A), "frame {k}: buffer written to beyond the frame; {}", show());
                        // pixels outside of the palette stay
                        let inside = !rgba || idx_max < pal.len() / 3;
                        ensure!(!inside || buf[..px.len()] == px, "frame {k}: expansion into a larger buffer gives other pixels; {}", show());
                    }
                    if px.len() > 0 {
                        let n = c.t.below(px.len() as u64) as usize;
                        let r = fd.decode_lzw_encoded_frame_into_buffer(&fr, &mut buf[..n]);
                        ensure!(r.is_err(), "frame {k}: {n} of {} bytes accepted; {}", px.len(), show());
                    }
                    c.label(true, "buffers of other sizes");
                }
            }
            2 => {
                // a bad code size
                let mut b = want[k].buffer.clone();
                b[0] = c.t.pick(&[0u8, 12, 13, 200, 255]);
                fr.buffer = Cow::Owned(b);
                let before = FrameOut::from(&fr);
                ensure!(fd.decode_lzw_encoded_frame(&mut fr).is_err(), "frame {k}: bad code size accepted; {}", show());
                ensure!(FrameOut::from(&fr) == before, "frame {k} changed when it was refused; {}", show());
                c.label(true, "rejected frame before others");
            }
            _ => {
                // a truncated one: only that it leaves no trace, in the frame or the decoder, matters here
                let b = want[k].buffer.clone();
                let m = c.t.urange(0, b.len());
                fr.buffer = Cow::Owned(b[..m].to_vec());
                let before = FrameOut::from(&fr);
                if fd.decode_lzw_encoded_frame(&mut fr).is_err() {
                    ensure!(FrameOut::from(&fr) == before, "frame {k} changed when it was refused; {}", show());
                }
            }
        }
    }
    // write back
    let mut e = Encoder::new(Vec::new(), f.width, f.height, f.gct.as_deref().unwrap_or(&[])).map_err(|e| e.to_string())?;
    for (k, w) in want.iter().enumerate() {
        let fr = enc::EFrame { f: w.clone(), pre: true }.frame();
        e.write_lzw_pre_encoded_frame(&fr).map_err(|e| format!("frame {k}: writing back: {e}; {}", show()))?;
    }
    let again = e.into_inner().map_err(|e| e.to_string())?;
    let out = decode_all(&again[..], &Opt::rgba(rgba));
    let full: Vec<FrameOut> = exp.iter().map(|e| expected(e, rgba, f.gct.as_deref())).collect();
    if let Some(d) = diff_frames(&out.frames, &full) {
        return Err(format!("written back vs expected: {d} (end {:?}); {}; new file {}", out.end, show(), hex(&again)));
    }
    ensure!(out.end == End::Clean, "written back file ends with {:?}; {}", out.end, show());
    Ok(())
}
