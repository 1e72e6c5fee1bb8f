//! Memory limits, with a counting allocator.
use crate::alloc;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use crate::wild;
use gif::streaming_decoder::FrameDecoder;
use gif::Frame;
use std::borrow::Cow;
use vref::gen::{self, Cfg};
use vref::spec::{BlockSpec, FileSpec};
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C12",
    run,
    quick: 1_440_000,
    thorough: 43_200_000,
    rule: "files with frames of known sizes decoded under limits at, just below, just above and far from the frame size (up to 64 bits), in indexed, RGBA and compressed mode, through the decoder and the frame decoder; extensions around the limit; declared sizes up to 65535x65535 with little data; and arbitrary mutated files; the peak of allocated bytes is measured by a counting allocator against 6*limit + 256 KiB; non-trivial: a frame is accepted or refused because of the limit",
    level: "exploration",
    assumptions: &["6*limit + 256 KiB is taken as 'a small constant multiple plus a fixed overhead'; the largest peaks seen are well below"],
};

const FIXED: u64 = 256 << 10;

fn allowed(limit: u64) -> u64 {
    limit.saturating_mul(6).saturating_add(FIXED)
}

fn run(c: &mut Case) -> Res {
    if c.t.chance(1, 2000) {
        return default_limit(c);
    }
    match c.t.weighted(&[5, 3, 2, 3]) {
        0 => exact(c),
        1 => declared(c),
        2 => ext(c),
        _ => any(c),
    }
}

/// 50 MB unless set
fn default_limit(c: &mut Case) -> Res {
    const MB50: u64 = 50_000_000;
    let t = &mut c.t;
    let rgba = t.bool();
    let px = if rgba { MB50 / 4 } else { MB50 };
    let fits = t.chance(1, 25);
    let (w, h) = if fits {
        let w = t.pick(&[2500u64, 5000, 10_000, 12_500, 50_000]);
        (w, px / w)
    } else {
        let w = t.range(1000, 65535);
        (w, (px / w + 1 + t.below(3)).min(65535))
    };
    let need = w * h * if rgba { 4 } else { 1 };
    // a single color, in the longest codes
    let mut cw = vref::lzw::CodeWriter::new(2);
    cw.emit_clear();
    let mut n = 0;
    let mut len = 0;
    while n < w * h && (fits || n < 100) {
        if len == 0 {
            cw.emit_code(0);
            len = 1;
        } else if cw.full() {
            cw.emit_code(4095);
        } else {
            cw.emit_code(cw.next as u16);
            len += 1;
        }
        n += len;
    }
    cw.emit_end();
    let mut img = gen::image_of(t, Some(4), &Cfg { lzw_styles: false, extra_data: false, ..Cfg::default() }, (1, 1), 3, 2);
    (img.width, img.height, img.mcs, img.lzw, img.lct, img.interlaced) = (w as u16, h as u16, 2, cw.bits.finish(0), None, false);
    let f = FileSpec { v87: false, width: 1, height: 1, extra_flags: 0, bg: 0, aspect: 0, gct: Some(vec![9; 12]), blocks: vec![BlockSpec::Image(img)], trailing: Vec::new() };
    let bytes = f.bytes();
    let opt = Opt::rgba(rgba);
    c.nontrivial(true);
    c.label(true, "default limit");
    c.label(fits, "exactly the default limit");
    c.describe(|| format!("default limit, rgba {rgba}, {w}x{h}"));
    let base = alloc::start();
    let out = decode_all(&bytes[..], &opt);
    let peak = alloc::peak_since(base);
    if need > MB50 {
        ensure!(out.frames.is_empty() && matches!(out.end, End::Err(_)), "a frame of {need} bytes accepted with the default limit");
        ensure!(peak <= FIXED, "{peak} bytes allocated to refuse a frame of {need} bytes with the default limit");
    } else {
        ensure!(out.end == End::Clean && out.frames.len() == 1, "a frame of {need} bytes refused with the default limit: {:?}", out.end);
        let b = &out.frames[0].buffer;
        let good = if rgba { b.chunks_exact(4).all(|p| p == [9, 9, 9, 255]) } else { b.iter().all(|&p| p == 0) };
        ensure!(b.len() as u64 == need && good, "a large frame of {need} bytes is damaged");
    }
    Ok(())
}

fn near(t: &mut Tape, size: u64) -> u64 {
    match t.weighted(&[3, 3, 2, 1, 1, 1]) {
        0 => size,
        1 => size.saturating_sub(1),
        2 => size + 1,
        3 => t.range(1, size.max(1)),
        4 => size * 4,
        _ => size / 4,
    }
    .max(1)
}

fn exact(c: &mut Case) -> Res {
    let t = &mut c.t;
    let max_px = t.pick(&[100, 2000, 40_000]);
    let cfg = Cfg { max_px, exts: false, max_frames: 3, min_frames: 1, lzw_styles: false, extra_data: false, ..Cfg::default() };
    let f = gen::file(t, &cfg);
    let bytes = f.bytes();
    let (rgba, skip) = (t.bool(), t.chance(1, 3));
    let exp = f.frames();
    let imgs: Vec<_> = f.images().collect();
    // (needed for sure, enough for sure)
    let sizes: Vec<(u64, u64)> = exp
        .iter()
        .zip(&imgs)
        .map(|(e, i)| {
            if skip {
                (i.lzw.len() as u64, i.lzw.len() as u64 + 1)
            } else {
                let n = e.stored.len() as u64 * if rgba { 4 } else { 1 };
                (n, n)
            }
        })
        .collect();
    let k = t.below(sizes.len() as u64) as usize;
    let mut limit = near(t, sizes[k].1);
    if f.blocks.iter().any(|b| matches!(b, BlockSpec::Gce { .. })) {
        // the limit applies to extensions, too
        limit = limit.max(5);
    }
    let unlimited = t.chance(1, 10);
    if t.chance(1, 20) {
        // more than 32 bits
        limit = t.pick(&[1u64 << 32, (1 << 32) + 1, (1 << 33) + 100, u64::MAX, u64::MAX - 1, 1 << 63, i64::MAX as u64]);
        c.label(true, "limit over 32 bits");
    }
    if unlimited {
        limit = 1 << 40;
        c.label(true, "unlimited");
    }
    let t = &mut c.t;
    let opt = Opt { rgba, skip, limit: (!unlimited).then_some(limit), consistency: false, end_code: false, unknown: t.bool() };
    c.describe(|| format!("{opt:?}, {}", f.summary()));
    let show = || format!("{opt:?}, {}; file {}", f.summary(), hex(&bytes));
    let mut d = opt.build().read_info(&bytes[..]).map_err(|e| format!("{e}; {}", show()))?;
    for (i, e) in exp.iter().enumerate() {
        let base = alloc::start();
        let r = match d.read_next_frame() {
            Ok(Some(f)) => Ok(FrameOut::from(f)),
            Ok(None) => return Err(format!("frame {i} missing; {}", show())),
            Err(e) => Err(e.to_string()),
        };
        let peak = alloc::peak_since(base);
        ensure!(peak <= allowed(limit), "frame {i}: {peak} bytes allocated with a limit of {limit}; {}", show());
        match r {
            Ok(got) => {
                ensure!(limit >= sizes[i].0, "frame {i} of {} bytes accepted with a limit of {limit}; {}", sizes[i].0, show());
                c.label(limit == sizes[i].1, "exactly the limit");
                c.nontrivial(true);
                let want = if skip {
                    let mut b = vec![imgs[i].mcs];
                    b.extend_from_slice(&imgs[i].lzw);
                    FrameOut { buffer: b, ..expected_meta(e) }
                } else {
                    expected(e, rgba, f.gct.as_deref())
                };
                if let Some(d) = diff_frame(&got, &want) {
                    return Err(format!("frame {i}: {d}; {}", show()));
                }
            }
            Err(m) => {
                ensure!(limit < sizes[i].1, "frame {i} of {} bytes refused with a limit of {limit}: {m}; {}", sizes[i].1, show());
                c.label(true, "refused");
                c.label(limit + 1 == sizes[i].0, "one byte over the limit");
                c.nontrivial(true);
                break;
            }
        }
    }
    if !skip {
        // the frame decoder
        let mut d = FrameDecoder::new(opt.build());
        d.set_global_palette(vec![1; 768]);
        for (i, e) in exp.iter().enumerate() {
            let mut b = vec![imgs[i].mcs];
            b.extend_from_slice(&imgs[i].lzw);
            let mut f = Frame { width: e.width, height: e.height, interlaced: e.interlaced, buffer: Cow::Owned(b), ..Frame::default() };
            let base = alloc::start();
            let ok = d.decode_lzw_encoded_frame(&mut f).is_ok();
            let peak = alloc::peak_since(base);
            ensure!(ok == (limit >= sizes[i].0), "frame decoder, frame {i} of {} bytes, limit {limit}: accepted {ok}; {}", sizes[i].0, show());
            ensure!(peak <= allowed(limit), "frame decoder, frame {i}: {peak} bytes allocated with a limit of {limit}; {}", show());
        }
    }
    Ok(())
}

/// Large frames are declared, the data is short
fn declared(c: &mut Case) -> Res {
    let t = &mut c.t;
    let w = t.pick(&[65535u16, 65534, 40000, 32768, 3000, 1]);
    let h = t.pick(&[65535u16, 65534, 40000, 32768, 3000, 1]);
    let (rgba, skip) = (t.bool(), t.chance(1, 3));
    let limit = t.pick(&[1u64, 100, 10_000, 100_000, 1 << 20]);
    let need = u64::from(w) * u64::from(h) * if rgba { 4 } else { 1 };
    let mut img = gen::image_of(t, Some(4), &Cfg { lzw_styles: false, extra_data: false, ..Cfg::default() }, (1, 1), 3, 2);
    (img.width, img.height) = (w, h);
    let lzw_len = img.lzw.len() as u64;
    let f = FileSpec { v87: false, width: t.u16b(), height: t.u16b(), extra_flags: 0, bg: 0, aspect: 0, gct: Some(vec![9; 12]), blocks: vec![BlockSpec::Image(img)], trailing: Vec::new() };
    let bytes = f.bytes();
    let opt = Opt { rgba, skip, limit: Some(limit), ..Opt::default() };
    c.nontrivial(need > limit);
    c.label(need > limit, "declared size over the limit");
    c.describe(|| format!("{opt:?}, declared {need} bytes, {}", f.summary()));
    let show = || format!("{opt:?}, declared {need} bytes, {}; file {}", f.summary(), hex(&bytes));
    let base = alloc::start();
    let out = decode_all(&bytes[..], &opt);
    let peak = alloc::peak_since(base);
    ensure!(peak <= allowed(limit), "{peak} bytes allocated with a limit of {limit}; {}", show());
    if skip {
        if limit > lzw_len {
            ensure!(out.end == End::Clean && out.frames.len() == 1, "compressed frame refused: {:?}; {}", out.end, show());
        }
    } else if need > 6 {
        ensure!(out.frames.is_empty() && matches!(out.end, End::Err(_)), "frame with missing data: {:?}; {}", out.end, show());
    }
    // only the information
    let mut d = opt.build().read_info(&bytes[..]).map_err(|e| format!("{e}; {}", show()))?;
    let base = alloc::start();
    for k in 0..2 {
        let r = d.next_frame_info().map(|f| f.is_some()).map_err(|e| format!("info: {e}; {}", show()))?;
        ensure!(r == (k == 0), "info only; {}", show());
    }
    let peak = alloc::peak_since(base);
    ensure!(peak <= FIXED, "{peak} bytes allocated for frame information; {}", show());
    // the frame decoder
    if let (BlockSpec::Image(i), false) = (&f.blocks[0], skip) {
        let mut b = vec![i.mcs];
        b.extend_from_slice(&i.lzw);
        let mut fr = Frame { width: w, height: h, interlaced: i.interlaced, buffer: Cow::Owned(b), ..Frame::default() };
        let mut d = FrameDecoder::new(opt.build());
        let base = alloc::start();
        let r = d.decode_lzw_encoded_frame(&mut fr);
        let peak = alloc::peak_since(base);
        ensure!(r.is_err() || need <= 6, "frame decoder accepts missing data; {}", show());
        ensure!(peak <= allowed(limit), "frame decoder: {peak} bytes allocated with a limit of {limit}; {}", show());
    }
    Ok(())
}

fn ext(c: &mut Case) -> Res {
    let t = &mut c.t;
    let limit = match t.weighted(&[3, 2, 1]) {
        0 => t.range(300, 3000),
        1 => t.range(20, 300),
        _ => t.range(3000, 70_000),
    };
    let size = match t.weighted(&[2, 2, 2, 1]) {
        0 => limit - 1,
        1 => limit + 1,
        2 => t.range(1, 3 * limit),
        _ => limit * 5,
    };
    let s = t.seed();
    let data = vref::tape::pattern(3, s, size as usize, 255);
    let step = t.pick(&[255usize, 255, 254, 100]);
    let label = t.pick(&[0xFEu8, 0xFF, 0x01, 0x42]);
    let img = gen::image_of(t, Some(4), &Cfg { wild_pixels: false, lzw_styles: false, ..Cfg::default() }, (1, 1), 3, 2);
    let img2 = img.clone();
    let before = t.bool();
    let e = BlockSpec::Ext { label, blocks: data.chunks(step).map(<[u8]>::to_vec).collect() };
    let blocks = if before { vec![e, BlockSpec::Image(img)] } else { vec![BlockSpec::Image(img), e, BlockSpec::Image(img2)] };
    let f = FileSpec { v87: false, width: 3, height: 2, extra_flags: 0, bg: 0, aspect: 0, gct: Some(vec![9; 12]), blocks, trailing: Vec::new() };
    let bytes = f.bytes();
    let opt = Opt { limit: Some(limit), unknown: true, ..Opt::default() };
    c.nontrivial(true);
    c.label(size > limit, "extension over the limit");
    c.describe(|| format!("extension of {size} bytes, limit {limit}, before the image: {before}"));
    let base = alloc::start();
    let out = decode_all(&bytes[..], &opt);
    let peak = alloc::peak_since(base);
    ensure!(peak <= allowed(limit), "{peak} bytes allocated with a limit of {limit}, extension {label:#x} of {size} bytes");
    let all = f.frames().len();
    if size > limit {
        ensure!(matches!(out.end, End::Err(_)), "extension {label:#x} of {size} bytes accepted with a limit of {limit}");
        ensure!(out.frames.len() == usize::from(!before), "{} frames", out.frames.len());
    } else if size + 1 <= limit {
        ensure!(out.end == End::Clean && out.frames.len() == all, "extension {label:#x} of {size} bytes with a limit of {limit}: {:?}", out.end);
    }
    Ok(())
}

fn any(c: &mut Case) -> Res {
    let (bytes, kind) = wild::bytes(&mut c.t);
    let mut opt = Opt::any(&mut c.t);
    let limit = c.t.pick(&[1u64, 10, 100, 1000, 10_000, 100_000]);
    opt.limit = Some(limit);
    c.label(true, kind);
    c.describe(|| format!("{kind}, {opt:?}, {}", hex(&bytes)));
    let mut frames = 0;
    let base = alloc::start();
    let mut worst = 0;
    if let Ok(mut d) = opt.build().read_info(&bytes[..]) {
        while let Ok(Some(f)) = d.read_next_frame() {
            let n = f.buffer.len() as u64;
            frames += 1;
            if n > limit {
                worst = n;
            }
            if frames > 4096 {
                break;
            }
        }
    }
    let peak = alloc::peak_since(base);
    c.nontrivial(frames > 0);
    ensure!(worst == 0, "frame of {worst} bytes with a limit of {limit}; {opt:?}; file {}", hex(&bytes));
    ensure!(peak <= allowed(limit), "{peak} bytes allocated with a limit of {limit}; {opt:?}; file {}", hex(&bytes));
    Ok(())
}
