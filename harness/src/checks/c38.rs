//! Files aren't larger than the format requires.
use super::*;
use crate::enc::{self, padded, EFrame, Hist, Op};
use crate::engine::{Case, Check, Res};
use crate::ensure;
use gif::Encoder;
use vref::lzw::CodeWriter;
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C38",
    run,
    quick: 150_000,
    thorough: 4_500_000,
    rule: "encoder histories of up to 6 calls (frames of any size and palette, compressed in advance or not, loop counts, control settings, raw extensions), and compressible frames of up to 60000 pixels (runs, ramps, repeated lines, checkers, dither) in between; what each call writes is measured against the sizes of the format's structures and the data of a greedy LZW encoder with full sub-blocks; non-trivial: a frame of at least 50 pixels",
    level: "exploration",
    assumptions: &[TRUSTED, "the code size may be chosen by the pixels or by the palette; 4 % and 6 bytes per frame are tolerated, and structures the encoder may leave out aren't demanded"],
};

fn bits(n: usize) -> u8 {
    (usize::BITS - n.leading_zeros()).clamp(2, 8) as u8
}

/// Bytes of a greedy encoder
pub fn greedy(px: &[u8], mcs: u8) -> usize {
    let mut w = CodeWriter::new(mcs);
    w.emit_clear();
    let mut i = 0;
    while i < px.len() {
        if w.full() {
            w.emit_clear();
        }
        i += w.emit_match(&px[i..], usize::MAX, false);
    }
    w.emit_end();
    w.bits.finish(0).len()
}

fn sub_blocks(n: usize) -> usize {
    n + n.div_ceil(255) + 1
}

fn structured(t: &mut Tape) -> EFrame {
    let n = t.pick(&[100usize, 1000, 5000, 20_000, 60_000]);
    let w = t.urange(1, n.min(700));
    let h = (n / w).max(1);
    let n = w * h;
    let max = t.pick(&[1u8, 3, 7, 15, 63, 255]);
    let k = t.urange(1, 40);
    let noise = vref::tape::pattern(3, t.seed(), w.max(k), max);
    let kind = t.below(6);
    let buffer: Vec<u8> = match kind {
        0 => vec![max; n],
        1 => (0..n).map(|i| (i / k) as u8 & max).collect(),
        2 => (0..n).map(|i| noise[i % w]).collect(),
        3 => (0..n).map(|i| if (i % w / k + i / w / k) % 2 == 0 { 0 } else { max }).collect(),
        4 => (0..n).map(|i| noise[i % k]).collect(),
        _ => (0..n).map(|i| if noise[i * 7 % noise.len()] > max / 2 { (i % w) as u8 & max } else { 0 }).collect(),
    };
    let pal = t.bytes(3 * (usize::from(max) + 1), 255);
    EFrame {
        f: crate::util::FrameOut {
            left: 0,
            top: 0,
            width: w as u16,
            height: h as u16,
            delay: 1,
            dispose: gif::DisposalMethod::Keep,
            transparent: None,
            user_input: false,
            interlaced: t.chance(1, 4),
            palette: Some(pal),
            buffer,
        },
        pre: t.chance(1, 3),
    }
}

fn run(c: &mut Case) -> Res {
    let t = &mut c.t;
    let mut h: Hist = if t.chance(1, 12) { Hist { width: 9, height: 9, gpal: Vec::new(), ops: Vec::new() } } else { enc::hist(t, 6) };
    if h.ops.is_empty() || t.chance(1, 30) {
        h.ops.push(Op::Frame(structured(t)));
    }
    c.nontrivial(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.px() >= 50)));
    c.describe(|| enc::show(&h));
    let mut e = Encoder::new(Vec::new(), h.width, h.height, &h.gpal).map_err(|e| format!("Encoder::new failed: {e}; {}", enc::show(&h)))?;
    let gct = padded(&h.gpal).len();
    let open = e.get_ref().len();
    ensure!(open <= 13 + gct, "opening writes {open} bytes, with a palette of {gct}; {}", enc::show(&h));
    for (i, op) in h.ops.iter().enumerate() {
        let before = e.get_ref().len();
        enc::apply(&mut e, op).map_err(|x| format!("call {i} ({}) failed: {x}", enc::show_op(op)))?;
        let n = e.get_ref().len() - before;
        let (most, what) = match op {
            Op::Frame(f) => {
                let local = f.f.palette.as_ref().map(|p| padded(p).len());
                let colors = local.unwrap_or(gct) / 3;
                let top = f.f.buffer.iter().max().map_or(0, |&m| usize::from(m));
                let mcs = bits(top).max(bits(colors.saturating_sub(1)));
                let raw = f.f.buffer.len();
                // the reference is slow
                if raw > 100_000 {
                    continue;
                }
                let data = greedy(&f.f.buffer, mcs);
                c.label(raw > 1000 && data < raw / 10, "to a tenth or less");
                c.label(raw > 5000 && data > raw / 2, "incompressible");
                c.label(f.pre, "compressed in advance");
                let data = data.max(greedy(&f.f.buffer, bits(top)));
                (8 + 10 + local.unwrap_or(0) + 1 + sub_blocks(data + data / 25) + 6, format!("{data} bytes of codes, {raw} pixels"))
            }
            Op::SetRepeat(_) | Op::ExtRepeat(_) => (19, String::new()),
            Op::Control { .. } => (8, String::new()),
            // slices may or may not be joined
            Op::Raw { slices, .. } => (2 + slices.iter().map(|s| s.len() + s.len().div_ceil(255)).sum::<usize>() + 1, String::new()),
        };
        ensure!(n <= most, "call {i} writes {n} bytes instead of {most} at most ({what}): {}; {}", enc::show_op(op), enc::show(&h));
    }
    let before = e.get_ref().len();
    let v = e.into_inner().map_err(|x| format!("into_inner failed: {x}; {}", enc::show(&h)))?;
    ensure!(v.len() <= before + 1, "the end takes {} bytes; {}", v.len() - before, enc::show(&h));
    Ok(())
}
