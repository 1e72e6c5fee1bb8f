//! Frames made from pixels.
use crate::engine::{catch, Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::{Encoder, Frame};
use std::collections::BTreeSet;
use vref::tape::{Rng, Tape};

pub const CHECK: Check = Check {
    id: "C19",
    run,
    quick: 1_600_000,
    thorough: 48_000_000,
    rule: "RGBA and RGB images with few colors, with 250 to 262 distinct colors, and with many, colors in all of the picture or only in its last pixels, a few pictures of 64K to 1M pixels, with no, one or several transparent colors and partial alpha, of random sizes and speeds, converted to frames which are expanded by their own palette and also by an encoder and decoder round trip; frames from indexed pixels; wrong lengths, palettes and speeds; non-trivial: at least one pixel",
    level: "exploration",
    assumptions: &["a color is counted after alpha became 0 or 255, with all transparent pixels counting as one color", "which colors quantization chooses is up to color_quant and not judged"],
};

fn size(t: &mut Tape, max: usize) -> (u16, u16) {
    vref::gen::dims(t, max, true)
}

/// RGBA pixels with about `colors` different opaque colors, and the given number of transparent ones.
/// `late`: the first color everywhere but in the last pixels.
fn image(t: &mut Tape, px: usize, colors: usize, trns: usize, partial: bool, late: bool) -> Vec<u8> {
    let s = t.seed();
    let mut r = Rng::new(s);
    let similar = t.bool();
    let opaque: Vec<[u8; 3]> = (0..colors)
        .map(|i| if similar { [(i % 256) as u8, (i / 256) as u8, (s % 3) as u8] } else { [r.next() as u8, r.next() as u8, r.next() as u8] })
        .collect();
    // often the same color as an opaque one
    let clear: Vec<[u8; 3]> = (0..trns).map(|_| if r.below(2) == 0 && !opaque.is_empty() { opaque[r.below(opaque.len() as u64) as usize] } else { [r.next() as u8, r.next() as u8, r.next() as u8] }).collect();
    let share = [2u64, 10, 50, 95][r.below(4) as usize];
    let shuffled = r.below(2) == 0;
    (0..px)
        .flat_map(|i| {
            if !clear.is_empty() && (opaque.is_empty() || r.below(100) < share) {
                let c = clear[r.below(clear.len() as u64) as usize];
                [c[0], c[1], c[2], 0]
            } else if opaque.is_empty() {
                [0, 0, 0, 255]
            } else {
                let k = if late && i + opaque.len() < px {
                    0
                } else if shuffled && !late { r.below(opaque.len() as u64) as usize } else { i % opaque.len() };
                let c = opaque[k];
                let a = if partial { [1, 2, 127, 128, 254, 255][r.below(6) as usize] } else { 255 };
                [c[0], c[1], c[2], a]
            }
        })
        .collect()
}

/// Opaque pixels, with None for transparent ones
fn meaning(rgba: &[u8]) -> Vec<Option<[u8; 3]>> {
    rgba.chunks_exact(4).map(|p| if p[3] == 0 { None } else { Some([p[0], p[1], p[2]]) }).collect()
}

fn show_px(v: &[Option<[u8; 3]>]) -> String {
    if v.len() <= 20 { format!("{v:?}") } else { format!("{:?}..({} pixels)", &v[..10], v.len()) }
}

fn run(c: &mut Case) -> Res {
    match c.t.weighted(&[10, 1, 2]) {
        0 => convert(c),
        1 => indexed(c),
        _ => refused(c),
    }
}

fn convert(c: &mut Case) -> Res {
    let t = &mut c.t;
    let many = t.chance(1, 12);
    let large = !many && t.chance(1, 5000);
    let (w, h) = match (many, t.weighted(&[5, 3])) {
        _ if large => {
            let w = t.pick(&[300u16, 1000, 3, 65535]);
            let px = t.pick(&[65_600usize, 70_000, 132_000, 270_000, 530_000, 1_050_000]);
            (w, (px / usize::from(w) + 1).min(65535) as u16)
        }
        (true, _) => (t.range(17, 40) as u16, t.range(17, 24) as u16),
        (false, 0) => size(t, 400),
        _ => (t.range(16, 30) as u16, t.range(16, 22) as u16),
    };
    let px = usize::from(w) * usize::from(h);
    let rgb = t.chance(1, 3);
    let trns = if rgb { 0 } else { t.weighted(&[3, 3, 2, 1]) };
    let colors = match t.weighted(&[4, 4, 1]) {
        _ if many => t.pick(&[257, 258, 300, 500, 5000]),
        0 => t.urange(0, 12),
        1 => t.urange(250, 256),
        _ => t.urange(1, 250),
    };
    let partial = t.chance(1, 3);
    let late = t.chance(1, if large { 2 } else { 10 });
    let pixels = image(t, px, colors, trns, partial, late);
    c.label(large, "over 65535 pixels");
    let t = &mut c.t;
    let want = meaning(&pixels);
    let opaque: BTreeSet<[u8; 3]> = want.iter().flatten().copied().collect();
    let any_clear = want.contains(&None);
    let n = opaque.len() + usize::from(any_clear);
    let speed = if many { t.range(5, 30) as i32 } else { t.range(1, 30) as i32 };
    let default_speed = !many && t.chance(1, 4);
    c.nontrivial(px > 0);
    c.label(n > 256, "quantized");
    c.label(n == 256, "exactly 256 colors");
    c.label(any_clear, "transparency");
    c.label(trns > 1, "several transparent colors");
    let text = format!("{w}x{h} from {} with {n} colors, {} transparent pixels, speed {speed}: {}", if rgb { "RGB" } else { "RGBA" }, want.iter().filter(|x| x.is_none()).count(), show_px(&want));
    c.describe(|| text.clone());
    let f = if rgb {
        let p: Vec<u8> = pixels.chunks_exact(4).flat_map(|p| [p[0], p[1], p[2]]).collect();
        if default_speed { Frame::from_rgb(w, h, &p) } else { Frame::from_rgb_speed(w, h, &p, speed) }
    } else {
        let mut p = pixels.clone();
        if default_speed { Frame::from_rgba(w, h, &mut p) } else { Frame::from_rgba_speed(w, h, &mut p, speed) }
    };
    ensure!((f.width, f.height) == (w, h), "frame of {}x{}; {text}", f.width, f.height);
    ensure!(f.buffer.len() == px, "{} pixels; {text}", f.buffer.len());
    ensure!((f.left, f.top, f.delay, f.interlaced, f.needs_user_input) == (0, 0, 0, false, false), "{:?}; {text}", FrameOut::from(&f));
    let pal = f.palette.clone().unwrap_or_default();
    ensure!(f.palette.is_some() && pal.len() % 3 == 0 && pal.len() <= 768, "palette of {} bytes; {text}", pal.len());
    if let Some(i) = f.buffer.iter().find(|&&i| usize::from(i) * 3 + 3 > pal.len()) {
        return Err(format!("index {i} outside of the palette of {} colors; {text}", pal.len() / 3));
    }
    let got: Vec<Option<[u8; 3]>> = f
        .buffer
        .iter()
        .map(|&i| if f.transparent == Some(i) { None } else { Some([pal[usize::from(i) * 3], pal[usize::from(i) * 3 + 1], pal[usize::from(i) * 3 + 2]]) })
        .collect();
    compare(&got, &want, n <= 256, &text, "frame")?;
    // through a file
    if c.t.chance(1, 2) {
        let mut file = Vec::new();
        Encoder::new(&mut file, w, h, &[]).and_then(|mut e| e.write_frame(&f)).map_err(|e| format!("can't encode: {e}; {text}"))?;
        let out = decode_all(&file[..], &Opt::rgba(true));
        ensure!(out.frames.len() == 1 && out.end == End::Clean, "can't decode: {:?}; {text}", out.end);
        let b = &out.frames[0].buffer;
        ensure!(b.len() == px * 4, "{} bytes; {text}", b.len());
        ensure!(b.chunks_exact(4).all(|p| p[3] == 0 || p[3] == 255), "partial alpha; {text}");
        let back = meaning(b);
        compare(&back, &want, n <= 256, &text, "decoded file")?;
        ensure!(back == got, "file and frame differ; {text}");
    }
    Ok(())
}

fn compare(got: &[Option<[u8; 3]>], want: &[Option<[u8; 3]>], exact: bool, text: &str, what: &str) -> Res {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g.is_none() == w.is_none(), "{what}: pixel {i} is {g:?} instead of {w:?}; {text}");
        ensure!(!exact || g == w, "{what}: pixel {i} is {g:?} instead of {w:?}; {text}");
    }
    Ok(())
}

fn indexed(c: &mut Case) -> Res {
    let t = &mut c.t;
    let (w, h) = size(t, 300);
    let px = usize::from(w) * usize::from(h);
    let data = t.bytes(px, 255);
    let trns = if t.bool() { Some(t.byte()) } else { None };
    let pal = if t.bool() {
        let n = t.pick(&[0usize, 3, 6, 30, 765, 768, 1, 100]);
        Some(t.bytes(n, 255))
    } else {
        None
    };
    c.nontrivial(px > 0);
    c.label(true, "from indexed pixels");
    let want = FrameOut {
        left: 0,
        top: 0,
        width: w,
        height: h,
        delay: 0,
        dispose: gif::DisposalMethod::Keep,
        transparent: trns,
        user_input: false,
        interlaced: false,
        palette: pal.clone(),
        buffer: data.clone(),
    };
    c.describe(|| format!("{want:?}"));
    let f = match pal {
        Some(p) => Frame::from_palette_pixels(w, h, data, p, trns),
        None => Frame::from_indexed_pixels(w, h, data, trns),
    };
    if let Some(d) = diff_frame(&FrameOut::from(&f), &want) {
        return Err(d);
    }
    // what the constructors leave open
    let want = FrameOut { width: 0, height: 0, transparent: None, palette: None, buffer: Vec::new(), ..want };
    if let Some(d) = diff_frame(&FrameOut::from(&Frame::default()), &want) {
        return Err(format!("default: {d}"));
    }
    Ok(())
}

fn refused(c: &mut Case) -> Res {
    let t = &mut c.t;
    let (w, h) = size(t, 200);
    let px = usize::from(w) * usize::from(h);
    let which = t.below(4);
    let bpp = [4, 3, 1, 1][which as usize];
    // the size is wrong in one out of two
    let wrong_len = t.bool();
    let n = if wrong_len {
        match t.weighted(&[3, 3, 1, 1]) {
            0 => px * bpp + t.urange(1, 5),
            1 if px > 0 => px * bpp - t.urange(1, (px * bpp).min(5)),
            2 if px > 0 => 0,
            _ => px * bpp + 1 + px,
        }
    } else {
        px * bpp
    };
    let wrong_len = n != px * bpp;
    let bad_speed = t.chance(1, 2);
    let speed = if bad_speed { t.pick(&[0i32, -1, 31, 32, 100, i32::MIN, i32::MAX]) } else { t.pick(&[1i32, 30, 2, 29, 15]) };
    let bad_pal = t.chance(1, 2);
    let pal = if bad_pal { vec![7; t.pick(&[771usize, 774, 1000, 3000])] } else { vec![7; t.pick(&[0usize, 768, 3])] };
    // few colors, so that quantization isn't needed
    let mut data = vec![9u8; n];
    let (want, r) = match which {
        0 => (wrong_len || bad_speed, catch(|| drop(Frame::from_rgba_speed(w, h, &mut data, speed)))),
        1 => (wrong_len || bad_speed, catch(|| drop(Frame::from_rgb_speed(w, h, &data, speed)))),
        2 => (wrong_len || bad_pal, catch(|| drop(Frame::from_palette_pixels(w, h, data.clone(), pal.clone(), None)))),
        _ => (wrong_len, catch(|| drop(Frame::from_indexed_pixels(w, h, data.clone(), None)))),
    };
    let text = format!("{} for {w}x{h} with {n} bytes, speed {speed}, palette {} bytes", ["from_rgba_speed", "from_rgb_speed", "from_palette_pixels", "from_indexed_pixels"][which as usize], pal.len());
    c.label(want, "refused");
    c.nontrivial(true);
    c.describe(|| text.clone());
    ensure!(r.is_err() == want, "{text}: panicked {r:?}");
    Ok(())
}
