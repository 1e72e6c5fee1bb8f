//! Interlacing.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::streaming_decoder::FrameDecoder;
use gif::Frame;
use std::borrow::Cow;
use vref::gen::{self, Cfg};
use vref::spec::{expand, BlockSpec, FileSpec};

pub const CHECK: Check = Check {
    id: "C05",
    run,
    quick: 210_000,
    thorough: 6_300_000,
    rule: "files with interlaced and plain frames of generated heights (every small height, around multiples of 8, powers of two, up to 65535), read as a whole, into caller's buffers, and expanded from compressed form, in both color modes, compared with the four-pass definition; non-trivial: an interlaced frame of at least 3 rows with pixels",
    level: "exploration",
    assumptions: &[TRUSTED, RELEASE],
};

fn run(c: &mut Case) -> Res {
    let t = &mut c.t;
    let gct = gen::palette(t);
    let n = t.urange(1, 3);
    let cfg = Cfg { max_px: 1 << 20, lzw_styles: false, extra_data: t.bool(), wild_pixels: t.bool(), ..Cfg::default() };
    let mut blocks = Vec::new();
    for _ in 0..n {
        let h = match t.weighted(&[40, 30, 20, 3]) {
            0 => t.range(0, 20),
            1 => t.range(0, 100),
            2 => (8 * t.range(1, 40)).saturating_add_signed([-2i64, -1, 0, 1, 2, 3, 4, 5][t.below(8) as usize]),
            _ => t.pick(&[255u64, 256, 257, 511, 512, 1023, 1024, 4095, 4097, 32767, 32768, 65533, 65534, 65535]),
        } as u16;
        let w = if h > 2000 {
            t.range(1, 2)
        } else if h > 100 {
            t.range(0, 5)
        } else if h < 20 && t.chance(1, 40) {
            t.pick(&[127u64, 128, 255, 256, 257, 1023, 1024, 4096, 16383, 16384, 16385, 21846, 32767, 32768, 65534, 65535]).min(200_000 / u64::from(h.max(1)))
        } else {
            t.range(0, 9)
        } as u16;
        if t.chance(1, 3) {
            blocks.push(gen::gce(t));
        }
        let mut i = gen::image_of(t, Some(gct.len() / 3), &cfg, (10, 10), w, h);
        i.interlaced = !t.chance(1, 4);
        blocks.push(BlockSpec::Image(i));
    }
    let f = FileSpec { v87: false, width: 10, height: 10, extra_flags: 0, bg: 0, aspect: 0, gct: Some(gct.clone()), blocks, trailing: Vec::new() };
    let bytes = f.bytes();
    let rgba = t.bool();
    let exp = f.frames();
    c.nontrivial(exp.iter().any(|e| e.interlaced && e.height > 2 && e.width > 0));
    c.label(exp.iter().any(|e| e.interlaced && e.height > 2000), "interlaced, over 2000 rows");
    c.label(exp.iter().any(|e| e.interlaced && e.height < 9), "interlaced, under 9 rows");
    c.label(exp.iter().any(|e| e.interlaced && e.width > 10000), "interlaced, over 10000 columns");
    c.label(exp.iter().any(|e| !e.interlaced), "not interlaced");
    c.describe(|| f.summary());
    let show = || format!("rgba {rgba}; {}; file {}", f.summary(), hex(&bytes));
    let want: Vec<FrameOut> = exp.iter().map(|e| expected(e, rgba, Some(&gct))).collect();
    // whole
    let out = decode_all(&bytes[..], &Opt::rgba(rgba));
    if let Some(d) = diff_frames(&out.frames, &want) {
        return Err(format!("whole frames vs expected: {d} (end {:?}); {}", out.end, show()));
    }
    ensure!(out.end == End::Clean, "ended with {:?}; {}", out.end, show());
    // into a buffer
    let mut d = Opt::rgba(rgba).build().read_info(&bytes[..]).map_err(|e| format!("{e}; {}", show()))?;
    for (i, (e, w)) in exp.iter().zip(&want).enumerate() {
        let info = d.next_frame_info().map_err(|e| format!("{e}; {}", show()))?.map(FrameOut::from);
        ensure!(info == Some(expected_meta(e)), "frame {i}: info is {info:?}; {}", show());
        let extra = 5;
        let mut buf = vec![0; w.buffer.len() + extra];
        d.read_into_buffer(&mut buf).map_err(|e| format!("frame {i}: {e}; {}", show()))?;
        if let Some(p) = (0..w.buffer.len()).find(|&p| buf[p] != w.buffer[p]) {
            return Err(format!("frame {i}: read_into_buffer: byte {p} is {} instead of {}; {}", buf[p], w.buffer[p], show()));
        }
        ensure!(buf[w.buffer.len()..] == [0; 5], "frame {i}: wrote past the end; {}", show());
    }
    // compressed, expanded later
    let mut fd = FrameDecoder::new(Opt::rgba(rgba).build());
    fd.set_global_palette(gct.clone());
    for (i, (e, img)) in exp.iter().zip(f.images()).enumerate() {
        let mut b = vec![img.mcs];
        b.extend_from_slice(&img.lzw);
        let mut fr = Frame { width: e.width, height: e.height, interlaced: e.interlaced, transparent: e.transparent, palette: e.palette.clone(), buffer: Cow::Owned(b), ..Frame::default() };
        fd.decode_lzw_encoded_frame(&mut fr).map_err(|e| format!("frame {i}: FrameDecoder: {e}; {}", show()))?;
        let idx = e.display();
        let pal = e.palette.as_deref().unwrap_or(&gct);
        let w = if rgba { expand(&idx, pal, e.transparent) } else { idx };
        ensure!(!fr.interlaced && *fr.buffer == w[..], "frame {i}: FrameDecoder gives other pixels (interlaced {}); {}", fr.interlaced, show());
    }
    Ok(())
}
