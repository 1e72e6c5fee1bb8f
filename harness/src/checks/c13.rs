//! Frame bounds checking.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use vref::gen::{self, Cfg};
use vref::spec::BlockSpec;
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C13",
    run,
    quick: 3_600_000,
    thorough: 108_000_000,
    rule: "files whose screen and frames have sizes and offsets placed exactly at, one inside and one beyond the screen edges (including 0 and 65535, sums over 65535), decoded with the check on and off, completely or for frame information; non-trivial: a frame touching or crossing an edge",
    level: "exploration",
    assumptions: &[TRUSTED],
};

fn axis(t: &mut Tape, screen: u16, size: u16) -> u16 {
    let free = screen.saturating_sub(size);
    match t.weighted(&[2, 4, 2, 1, 1]) {
        0 => 0,
        1 => free,
        2 => t.below(u64::from(free) + 1) as u16,
        3 => free.saturating_add(1),
        _ => t.u16b(),
    }
}

fn run(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: 60, max_frames: 4, min_frames: 1, lzw_styles: false, extra_data: false, ..Cfg::default() };
    let mut f = gen::file(&mut c.t, &cfg);
    let t = &mut c.t;
    // with the information only, frames may have any size
    let info_only = t.chance(1, 3);
    (f.width, f.height) = match t.weighted(&[3, 2, 1]) {
        0 => (t.range(0, 12) as u16, t.range(0, 12) as u16),
        1 => (t.u16b(), t.u16b()),
        _ => (65535, 65535),
    };
    let (sw, sh) = (f.width, f.height);
    let mut touches = false;
    for i in f.images_mut() {
        if info_only {
            if t.bool() {
                i.width = match t.weighted(&[2, 1, 1]) {
                    0 => sw,
                    1 => sw.saturating_add(1),
                    _ => t.u16b(),
                };
            }
            if t.bool() {
                i.height = match t.weighted(&[2, 1, 1]) {
                    0 => sh,
                    1 => sh.saturating_add(1),
                    _ => t.u16b(),
                };
            }
        }
        i.left = axis(t, sw, i.width);
        i.top = axis(t, sh, i.height);
        touches |= u32::from(i.left) + u32::from(i.width) >= u32::from(sw) || u32::from(i.top) + u32::from(i.height) >= u32::from(sh);
    }
    c.nontrivial(touches);
    let bytes = f.bytes();
    let exp = f.frames();
    let inside = |e: &vref::spec::ExpFrame| u32::from(e.left) + u32::from(e.width) <= u32::from(sw) && u32::from(e.top) + u32::from(e.height) <= u32::from(sh);
    let good = exp.iter().position(|e| !inside(e)).unwrap_or(exp.len());
    c.label(good == exp.len(), "all inside");
    c.label(good < exp.len(), "one outside");
    c.label(good < exp.len() && good > 0, "inside, then outside");
    c.label(exp.iter().any(|e| u32::from(e.left) + u32::from(e.width) > 65535 || u32::from(e.top) + u32::from(e.height) > 65535), "sum over 65535");
    c.describe(|| f.summary());
    let rgba = c.t.bool();
    let skip = c.t.chance(1, 4);
    for on in [false, true] {
        let opt = Opt { rgba, skip, consistency: on, ..Opt::default() };
        let show = || format!("info only {info_only}, {opt:?}, {}; file {}", f.summary(), hex(&bytes));
        let n = if on { good } else { exp.len() };
        let out = if info_only {
            let mut d = opt.build().read_info(&bytes[..]).map_err(|e| format!("{e}; {}", show()))?;
            let h = header(&d);
            let mut frames = Vec::new();
            let end = loop {
                match d.next_frame_info() {
                    Ok(Some(x)) => frames.push(FrameOut::from(x)),
                    Ok(None) => break End::Clean,
                    Err(e) => break End::Err(e.into()),
                }
            };
            Outcome { header: Some(h), frames, end }
        } else {
            decode_all(&bytes[..], &opt)
        };
        let want: Vec<FrameOut> = exp[..n]
            .iter()
            .zip(f.blocks.iter().filter_map(|b| if let BlockSpec::Image(i) = b { Some(i) } else { None }))
            .map(|(e, i)| {
                if info_only {
                    expected_meta(e)
                } else if skip {
                    let mut b = vec![i.mcs];
                    b.extend_from_slice(&i.lzw);
                    FrameOut { buffer: b, ..expected_meta(e) }
                } else {
                    expected(e, rgba, f.gct.as_deref())
                }
            })
            .collect();
        if let Some(d) = diff_frames(&out.frames, &want) {
            return Err(format!("check {on}: {d} (end {:?}); {}", out.end, show()));
        }
        let ok = if n == exp.len() { out.end == End::Clean } else { matches!(out.end, End::Err(ErrK::Format(_))) };
        ensure!(ok, "check {on}: ends with {:?} after {n} of {} frames; {}", out.end, exp.len(), show());
    }
    Ok(())
}
