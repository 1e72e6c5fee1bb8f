//! Strictness only ever turns success into an error.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use crate::wild;
use vref::gen;

pub const CHECK: Check = Check {
    id: "C31",
    run,
    quick: 1_200_000,
    thorough: 36_000_000,
    rule: "valid, truncated, mutated and arbitrary bytes, decoded under two sets of options of which one is stricter in one or several respects (bounds check, end code check, unknown blocks, memory limit), indexed, RGBA or compressed, whole or for information only; non-trivial: the two outcomes differ, or there are frames",
    level: "exploration",
    assumptions: &[TRUSTED],
};

fn go(bytes: &[u8], opt: &Opt, info: bool) -> Outcome {
    if !info {
        return decode_all(bytes, opt);
    }
    let mut d = match opt.build().read_info(bytes) {
        Ok(d) => d,
        Err(e) => return Outcome { header: None, frames: Vec::new(), end: End::Err(e.into()) },
    };
    let h = header(&d);
    let mut frames = Vec::new();
    let end = loop {
        match d.next_frame_info() {
            Ok(Some(f)) => frames.push(FrameOut::from(f)),
            Ok(None) => break End::Clean,
            Err(e) => break End::Err(e.into()),
        }
        if frames.len() > 4096 {
            break End::TooMany;
        }
    };
    Outcome { header: Some(h), frames, end }
}

fn run(c: &mut Case) -> Res {
    // mostly files with many frames, so that one option stops in the middle
    let (bytes, kind) = if c.t.chance(1, 3) {
        let mut cfg = wild::any_cfg(&mut c.t);
        cfg.max_frames = 6;
        let mut f = gen::file(&mut c.t, &cfg);
        if c.t.bool() {
            // frames inside the screen, but for some
            (f.width, f.height) = (c.t.u16b(), c.t.u16b());
            let all = c.t.urange(0, 8);
            for (k, i) in f.images_mut().enumerate() {
                if k != all {
                    (i.left, i.top) = (0, 0);
                }
            }
        }
        (f.bytes(), "valid file")
    } else {
        wild::bytes(&mut c.t)
    };
    c.label(true, kind);
    let lax = Opt { consistency: c.t.chance(1, 5), end_code: c.t.chance(1, 5), unknown: !c.t.chance(1, 5), limit: Some(1 << 22), ..Opt::any(&mut c.t) };
    let mut strict = lax.clone();
    strict.consistency |= c.t.chance(1, 3);
    strict.end_code |= c.t.chance(1, 3);
    strict.unknown &= !c.t.chance(1, 3);
    if c.t.chance(1, 3) {
        strict.limit = Some(match c.t.weighted(&[2, 2, 1]) {
            0 => c.t.range(1, 500),
            1 => c.t.range(1, 5000),
            _ => 1 << 20,
        });
    }
    let info = c.t.chance(1, 4);
    c.describe(|| format!("{kind}, {lax:?} vs {strict:?}, info only {info}, {}", hex(&bytes)));
    let show = || format!("{lax:?} vs {strict:?}, info only {info}, file {}", hex(&bytes));
    let a = go(&bytes, &lax, info);
    let b = go(&bytes, &strict, info);
    c.nontrivial(!a.frames.is_empty() || a.end != b.end);
    c.label(a != b, "stopped by the stricter options");
    c.label(a != b && !b.frames.is_empty(), "stopped after a frame");
    if a.diff(&b).is_none() {
        return Ok(());
    }
    // a forbidden block ends the header: loop extensions behind it don't count, or what follows can't be opened
    if b.header.is_some() && (a.header.is_some() || strict.unknown == lax.unknown) && !(b.frames.is_empty() && strict.unknown != lax.unknown) {
        ensure!(a.header == b.header, "header {:?} vs {:?}; {}", a.header, b.header, show());
    }
    ensure!(matches!(b.end, End::Err(_)), "differ, but the stricter ends with {:?} after {} frames; the other with {:?} after {}; {}", b.end, b.frames.len(), a.end, a.frames.len(), show());
    ensure!(b.frames.len() <= a.frames.len(), "{} frames, {} with the stricter options; {}", a.frames.len(), b.frames.len(), show());
    if let Some(d) = diff_frames(&a.frames[..b.frames.len()], &b.frames) {
        return Err(format!("{d}; {}", show()));
    }
    // whoever gets to the same point fails there in the same way, or for what was asked to be checked
    Ok(())
}
