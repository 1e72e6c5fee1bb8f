//! Decoding of generated files against what they were generated from.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use vref::gen::{self, Cfg};
use vref::spec::BlockSpec;

pub const CHECK: Check = Check {
    id: "C03",
    run,
    quick: 1_200_000,
    thorough: 36_000_000,
    rule: "files built by the grammar-based generator (all block types, any sub-block split, LZW streams with early, repeated, deferred and missing clear codes, code sizes 2..=11, data after the last pixel) and decoded through a reader with random read sizes; non-trivial: at least one image",
    level: "exploration",
    assumptions: &[TRUSTED, RELEASE],
};

pub fn max_px(c: &mut Case) -> usize {
    match c.t.weighted(&[60, 6, 2]) {
        0 => 400,
        1 => 3000,
        _ => 12000,
    }
}

fn run(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: max_px(c), no_end: true, bad_tail: true, trailing: true, giant: true, ..Cfg::default() };
    let mut f = gen::file(&mut c.t, &cfg);
    let n = f.images().count();
    if n > 0 && f.images().map(|i| i.stored.len()).sum::<usize>() < 2000 && f.bytes().len() < 10_000 && c.t.chance(1, 100_000) {
        // more frames than fit 16 bits
        let k = f.blocks.len();
        f.blocks = (0..k * (65_600 / n + 1)).map(|i| f.blocks[i % k].clone()).collect();
        c.label(true, "over 65535 frames");
    }
    let (bytes, _) = f.serialize();
    let exp = f.frames();
    let rgba = c.t.chance(1, 5);
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    c.nontrivial(!exp.is_empty());
    c.label(exp.is_empty(), "no frames");
    c.label(exp.len() > 1, "several frames");
    c.label(f.images().any(|i| i.mcs > 8), "code size over 8");
    c.label(f.images().any(|i| i.stored.len() > 3000), "over 3000 pixels");
    c.label(f.images().any(|i| i.stored.is_empty()), "frame without pixels");
    c.label(f.images().any(|i| !i.has_end), "no end code");
    c.label(f.images().any(|i| i.lzw.len() * 8 > i.bits_needed + 40), "data after the last pixel");
    c.label(f.blocks.iter().any(|b| matches!(b, BlockSpec::Ext { blocks, .. } if blocks.is_empty())), "empty extension");
    c.describe(|| f.summary());
    let out = decode_all(Chop::new(&bytes, sizes), &Opt::rgba(rgba));
    let show = || format!("{}; file {}", f.summary(), hex(&bytes));
    ensure!(out.header.is_some(), "can't open: {:?}; {}", out.end, show());
    let want: Vec<FrameOut> = exp.iter().map(|e| expected(e, rgba, f.gct.as_deref())).collect();
    if let Some(d) = diff_frames(&out.frames, &want) {
        return Err(format!("decoded vs expected: {d} (end {:?}); {}", out.end, show()));
    }
    ensure!(out.end == End::Clean, "ended with {:?}; {}", out.end, show());
    Ok(())
}
