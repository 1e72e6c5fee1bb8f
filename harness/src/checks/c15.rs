//! Unknown blocks.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use vref::gen::{self, Cfg};
use vref::spec::{BlockSpec, FileSpec};

pub const CHECK: Check = Check {
    id: "C15",
    run,
    quick: 1_200_000,
    thorough: 36_000_000,
    rule: "generated files with blocks of unknown introducers and extensions of unknown labels at any block position and with any payload; default options must give the frames before the first of them and a format error, allowing them must give exactly the result of the same file without them, in all modes; non-trivial: an image in the file",
    level: "exploration",
    assumptions: &[TRUSTED],
};

fn unknown(b: &BlockSpec) -> bool {
    match b {
        BlockSpec::Unknown { .. } => true,
        BlockSpec::Ext { label, .. } => !matches!(label, 0x01 | 0xF9 | 0xFE | 0xFF),
        _ => false,
    }
}

fn run(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: if c.t.chance(1, 12) { 2000 } else { 60 }, unknown: true, unknown_ext: true, text_after_gce: true, no_end: true, ..Cfg::default() };
    let mut f = gen::file(&mut c.t, &cfg);
    if !f.blocks.iter().any(unknown) {
        let at = c.t.below(f.blocks.len() as u64 + 1) as usize;
        let blocks = gen::sub_blocks(&mut c.t);
        let b = if c.t.bool() { BlockSpec::Unknown { intro: gen::unknown_intro(&mut c.t), blocks } } else { BlockSpec::Ext { label: gen::unknown_label(&mut c.t), blocks } };
        f.blocks.insert(at, b);
    }
    let first = f.blocks.iter().position(unknown).unwrap();
    let g = FileSpec { blocks: f.blocks.iter().filter(|b| !unknown(b)).cloned().collect(), ..f.clone() };
    let before = f.blocks[..first].iter().filter(|b| matches!(b, BlockSpec::Image(_))).count();
    let bytes = f.bytes();
    let exp = f.frames();
    let opt = Opt { rgba: c.t.chance(1, 3), skip: c.t.chance(1, 4), ..Opt::default() };
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    c.nontrivial(!exp.is_empty());
    c.label(matches!(f.blocks[first], BlockSpec::Unknown { .. }), "first is an unknown block");
    c.label(matches!(f.blocks[first], BlockSpec::Ext { .. }), "first is an unknown extension");
    c.label(before > 0, "after an image");
    c.label(before < exp.len(), "before an image");
    c.label(f.loops().is_some() && before == 0, "with a loop count");
    c.describe(|| f.summary());
    let show = || format!("{opt:?}, reads {sizes:?}, {}; file {}", f.summary(), hex(&bytes));
    let want = decode_all(&g.bytes()[..], &opt);
    // not allowed
    let out = decode_all(Chop::new(&bytes, sizes.clone()), &opt);
    if let Some(d) = diff_frames(&out.frames, &want.frames[..before.min(want.frames.len())]) {
        return Err(format!("not allowed: {d} (end {:?}); {}", out.end, show()));
    }
    ensure!(matches!(out.end, End::Err(ErrK::Format(_))), "not allowed: ends with {:?}; {}", out.end, show());
    ensure!(out.header.is_some() || before == 0, "not allowed: opening fails; {}", show());
    // allowed
    let opt2 = Opt { unknown: true, ..opt.clone() };
    let out = decode_all(Chop::new(&bytes, sizes.clone()), &opt2);
    if let Some(d) = out.diff(&want) {
        return Err(format!("allowed vs file without: {d}; {}", show()));
    }
    if !opt.skip {
        let full: Vec<FrameOut> = exp.iter().map(|e| expected(e, opt.rgba, f.gct.as_deref())).collect();
        if let Some(d) = diff_frames(&out.frames, &full) {
            return Err(format!("allowed vs expected: {d} (end {:?}); {}", out.end, show()));
        }
    }
    ensure!(out.end == End::Clean, "allowed: ends with {:?}; {}", out.end, show());
    // allowed, information only
    let mut d = opt2.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", show()))?;
    for (i, e) in exp.iter().enumerate() {
        match d.next_frame_info() {
            Ok(Some(x)) => ensure!(FrameOut::from(x) == expected_meta(e), "allowed, information only: frame {i}; {}", show()),
            x => return Err(format!("allowed, information only: frame {i}: {x:?}; {}", show())),
        }
    }
    let x = d.next_frame_info();
    ensure!(matches!(x, Ok(None)), "allowed, information only: ends with {x:?}; {}", show());
    // the streaming decoder doesn't allow them
    let s = super::c06::sched(c);
    let o = crate::stream::stream(&bytes, &s).map_err(|e| format!("streaming: {e}; {}", show()))?;
    ensure!(matches!(o.end, crate::stream::StreamEnd::Err(ErrK::Format(_))), "streaming ends with {:?}; {}", o.end, show());
    Ok(())
}
