//! Encode, decode, compare.
use super::*;
use crate::enc::{self, Op};
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;

pub const CHECK: Check = Check {
    id: "C01",
    run,
    quick: 1_800_000,
    thorough: 54_000_000,
    rule: "a random history of encoder calls (frames with any metadata, palettes and pixels, written directly or pre-encoded; repeat settings; control, comment, text and application extensions) is encoded and decoded; non-trivial: at least one frame with pixels",
    level: "exploration",
    assumptions: &[TRUSTED, RELEASE],
};

fn run(c: &mut Case) -> Res {
    let mut h = enc::hist_giant(&mut c.t, 6);
    if c.t.chance(1, 5) {
        // the plain path: frames and the repeat setting only
        h.ops.retain(|o| matches!(o, Op::Frame(_) | Op::SetRepeat(_)));
    }
    let n = h.ops.iter().filter(|o| matches!(o, Op::Frame(_))).count();
    let px: usize = h.ops.iter().map(|o| if let Op::Frame(f) = o { f.f.buffer.len() } else { 0 }).sum();
    if n > 0 && px < 2000 && c.t.chance(1, 100_000) {
        // more frames than fit 16 bits
        let k = h.ops.len();
        h.ops = (0..k * (65_600 / n + 1)).map(|i| h.ops[i % k].clone()).collect();
        c.label(true, "over 65535 frames");
    }
    let dropped = c.t.bool();
    let frames = h.ops.iter().filter(|o| matches!(o, Op::Frame(_))).count();
    c.label(frames > 1, "several frames");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.pre)), "pre-encoded frame");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.f.interlaced)), "interlaced flag");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.f.buffer.len() > f.px())), "over-long buffer");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.px() > 3000)), "over 3000 pixels");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.f.palette.as_ref().map_or(false, |p| p.len() % 3 != 0))), "odd palette length");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.f.width == 65535 || f.f.height == 65535)), "65535 pixels in one direction");
    c.nontrivial(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.px() > 0)));
    c.describe(|| enc::show(&h));
    let bytes = if dropped { enc::run_drop(&h)? } else { enc::run(&h)? };
    let out = decode_all(&bytes[..], &Opt::default());
    let show = || format!("{}; file {}", enc::show(&h), hex(&bytes));
    let Some(head) = &out.header else {
        return Err(format!("can't open the encoded file: {:?}; {}", out.end, show()));
    };
    if let Some(d) = diff_frames(&out.frames, &enc::expected_frames(&h)) {
        return Err(format!("decoded vs written: {d} (end {:?}); {}", out.end, show()));
    }
    ensure!(out.end == End::Clean, "decoding ended with {:?}; {}", out.end, show());
    ensure!((head.width, head.height) == (h.width, h.height), "screen {}x{}; {}", head.width, head.height, show());
    ensure!(head.gct.as_deref() == Some(&enc::expected_gct(&h)), "global palette {:?}; {}", head.gct, show());
    ensure!(head.repeat == enc::expected_repeat(&h), "repeat {:?} instead of {:?}; {}", head.repeat, enc::expected_repeat(&h), show());
    Ok(())
}
