//! Colour reduction: pictures of more than 256 colors.
use crate::engine::{Case, Check, Res};
use crate::ensure;
use color_quant::NeuQuant;
use gif::Frame;
use std::collections::HashSet;
use vref::tape::{pattern, Tape};

pub const CHECK: Check = Check {
    id: "C37",
    run,
    quick: 30_000,
    thorough: 900_000,
    rule: "pictures of 257 to 3000, or 20000 pixels and over 256 colors (noise, ramps, waves, clusters, one dominant color, dark ones, parts in colors of their own), in 1 out of 3 with transparent pixels, converted from RGB or RGBA at speeds of 1 to 30, and decoded again from a file; the mean squared error is compared with that of the same picture under the quantizer's own palettes of 254 to 256 colors and with the picture's variance; non-trivial: converted at all",
    level: "exploration",
    assumptions: &["NeuQuant as released (color_quant at the version in harness/Cargo.lock) sets the standard: twice its error and a 20th of the picture's variance on top are tolerated (3 times and half of the variance if there are fewer than 1500 pixels), so that another quantizer of that quality passes"],
};

fn dist(a: &[u8], b: &[u8]) -> f64 {
    (0..3).map(|i| (f64::from(a[i]) - f64::from(b[i])).powi(2)).sum()
}

fn picture(t: &mut Tape) -> (u16, u16, Vec<[u8; 3]>, &'static str) {
    let px = if t.chance(1, 20) { 20_000 } else { t.pick(&[257usize, 300, 600, 1500, 2000, 3000]) };
    let w = t.urange(1, px.min(150));
    let h = px.div_ceil(w);
    let n = w * h;
    let kind = t.below(7);
    let r = pattern(3, t.seed(), n * 4 + 16, 255);
    let at = |i: usize| [r[i * 4 + 16], r[i * 4 + 17], r[i * 4 + 18]];
    let (v, name): (Vec<[u8; 3]>, _) = match kind {
        0 => ((0..n).map(at).collect(), "noise"),
        1 => ((0..n).map(|i| [(i % 256) as u8, (i / 256) as u8, (i * 7 % 251) as u8]).collect(), "ramps"),
        2 => {
            let c = |i: usize| {
                let k = usize::from(r[i * 4 + 19] % 5) * 3;
                let a = at(i);
                [0, 1, 2].map(|j: usize| r[k + j].saturating_add(a[j] % 16))
            };
            ((0..n).map(c).collect(), "clusters")
        }
        3 => ((0..n).map(|i| if i > 300 && i % 8 != 0 { [r[0], r[1], r[2]] } else { at(i) }).collect(), "one dominant color"),
        4 => {
            let f = |i: usize| {
                let (x, y) = ((i % w) as f64, (i / w) as f64);
                [(x / 17.0).sin(), (y / 9.0).cos(), ((x + y) / 13.0).sin()].map(|s| (127.0 + 127.0 * s) as u8)
            };
            ((0..n).map(f).collect(), "waves")
        }
        5 => {
            // each part in colors of its own
            let f = |i: usize| {
                let a = at(i);
                let mut p = [a[0] / 8, a[1] / 8, a[2] / 8];
                p[i * 3 / n] += 200;
                p
            };
            ((0..n).map(f).collect(), "parts")
        }
        _ => ((0..n).map(|i| if i < n / 20 + 257 { at(i) } else { [r[i * 4 + 16] % 8; 3] }).collect(), "dark"),
    };
    (w as u16, h as u16, v, name)
}

fn run(c: &mut Case) -> Res {
    let t = &mut c.t;
    let (w, h, v, name) = picture(t);
    let rgb = t.chance(1, 4);
    let every = if !rgb && t.chance(1, 3) { t.urange(2, 30) } else { 0 };
    let start = if t.bool() { t.below(v.len() as u64) as usize } else { 0 };
    let clear = |i: usize| every > 0 && i >= start && (i - start) % every == 1;
    let speed = t.pick(&[10i32, 30, 1, 5, 20, 15, 2, 29]);
    let colors: HashSet<[u8; 3]> = v.iter().enumerate().filter(|(i, _)| !clear(*i)).map(|(_, c)| *c).collect();
    let reduced = colors.len() > 256;
    c.nontrivial(reduced);
    if !reduced {
        return Ok(());
    }
    c.label(every > 0, "transparency");
    c.label(speed == 1, "speed 1");
    c.label(speed >= 29, "speed 29 or 30");
    c.label(true, name);
    let text = format!("{name} of {w}x{h} with {} colors, one in {every} from {start} on transparent, {} at speed {speed}", colors.len(), if rgb { "RGB" } else { "RGBA" });
    c.describe(|| text.clone());
    let rgba: Vec<u8> = v.iter().enumerate().flat_map(|(i, p)| if clear(i) { [0, 0, 0, 0] } else { [p[0], p[1], p[2], 255] }).collect();
    let f = if rgb { Frame::from_rgb_speed(w, h, &v.concat(), speed) } else { Frame::from_rgba_speed(w, h, &mut rgba.clone(), speed) };
    // as seen by a viewer
    let mut file = Vec::new();
    gif::Encoder::new(&mut file, w, h, &[]).and_then(|mut e| e.write_frame(&f)).map_err(|e| format!("can't encode: {e}; {text}"))?;
    let mut o = gif::DecodeOptions::new();
    o.set_color_output(gif::ColorOutput::RGBA);
    let mut d = o.read_info(&file[..]).map_err(|e| format!("can't open: {e}; {text}"))?;
    let seen = match d.read_next_frame() {
        Ok(Some(f)) => f.buffer.to_vec(),
        x => return Err(format!("can't decode: {x:?}; {text}")),
    };
    ensure!(seen.len() == rgba.len(), "{} bytes decoded; {text}", seen.len());
    // now and then it does badly, depending on details
    let direct: Vec<(NeuQuant, Vec<u8>)> = [256, 255, 254].into_iter().map(|k| NeuQuant::new(speed, k, &rgba)).map(|q| { let p = q.color_map_rgb(); (q, p) }).collect();
    let mut neu = [0.0; 3];
    let (mut got, mut mean, mut n) = (0.0, [0.0; 3], 0.0);
    for (i, p) in rgba.chunks_exact(4).enumerate() {
        let s = &seen[i * 4..i * 4 + 4];
        ensure!((s[3] == 0) == (p[3] == 0), "pixel {i} is {s:?} instead of {p:?}; {text}");
        if p[3] == 0 {
            continue;
        }
        n += 1.0;
        got += dist(s, p);
        for (e, (q, pal)) in neu.iter_mut().zip(&direct) {
            let k = q.index_of(p) * 3;
            *e += dist(&pal[k..k + 3], p);
        }
        for j in 0..3 {
            mean[j] += f64::from(p[j]);
        }
    }
    let neu = neu[0].max(neu[1]).max(neu[2]);
    let mean = mean.map(|m| (m / n) as u8);
    let var: f64 = v.iter().enumerate().filter(|(i, _)| !clear(*i)).map(|(_, p)| dist(p, &mean)).sum();
    // small pictures are largely up to chance
    let most = if v.len() < 1500 { 3.0 * neu + 0.5 * var } else { 2.0 * neu + 0.05 * var };
    c.label(v.len() >= 1500, "under the stricter bound");
    c.label(got > 0.5 * most, "over half of the error tolerated");
    c.label(got > 0.75 * most, "over three quarters of the error tolerated");
    ensure!(got <= most, "the error per pixel is {:.0}, {:.0} with the quantizer's palette, {:.0} with one color; {text}", got / n, neu / n, var / n);
    Ok(())
}
