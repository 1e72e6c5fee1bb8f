//! What is done with one frame doesn't influence the next ones.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use vref::gen::{self, Cfg};

pub const CHECK: Check = Check {
    id: "C09",
    run,
    quick: 960_000,
    thorough: 28_800_000,
    rule: "generated files; per frame a random action (skip, part-read with any number of fills, fill past the end, read into a buffer, too small a buffer, read as a whole, in compressed mode too), after which every later frame is compared with the expected one; plus a pass over frame information only; non-trivial: an incompletely read frame followed by a frame with pixels",
    level: "exploration",
    assumptions: &[TRUSTED],
};

fn run(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: super::c03::max_px(c), no_end: true, bad_tail: true, max_frames: 6, min_frames: 1, multi_gce: true, ..Cfg::default() };
    let f = gen::file(&mut c.t, &cfg);
    let bytes = f.bytes();
    let opt = Opt { rgba: c.t.bool(), skip: c.t.chance(1, 4), ..Opt::default() };
    let bpp = if opt.rgba { 4 } else { 1 };
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    let exp = f.frames();
    let imgs: Vec<_> = f.images().collect();
    let mut log = Vec::new();
    let mut d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", f.summary()))?;
    let show = |log: &Vec<String>| format!("actions {log:?}, {opt:?}, reads {sizes:?}, {}; file {}", f.summary(), hex(&bytes));
    let mut touched = false;
    for (i, e) in exp.iter().enumerate() {
        let want = if opt.skip {
            let mut b = vec![imgs[i].mcs];
            b.extend_from_slice(&imgs[i].lzw);
            FrameOut { buffer: b, ..expected_meta(e) }
        } else {
            expected(e, opt.rgba, f.gct.as_deref())
        };
        let how = c.t.weighted(&[3, 2, 3, 1, 1, 1]);
        c.nontrivial(touched && !want.buffer.is_empty());
        if how == 0 {
            log.push("whole".into());
            match d.read_next_frame() {
                Ok(Some(g)) => {
                    if let Some(d) = diff_frame(&FrameOut::from(g), &want) {
                        return Err(format!("frame {i}: {d}; {}", show(&log)));
                    }
                }
                x => return Err(format!("frame {i} is {x:?}; {}", show(&log))),
            }
            continue;
        }
        match d.next_frame_info() {
            Ok(Some(g)) => {
                let g = FrameOut::from(g);
                ensure!(g == expected_meta(e), "frame {i}: info {g:?} instead of {:?}; {}", expected_meta(e), show(&log));
            }
            x => return Err(format!("frame {i}: info {x:?}; {}", show(&log))),
        }
        if opt.skip || how == 1 {
            log.push("skip".into());
            c.label(opt.skip, "skipped in compressed mode");
            c.label(!opt.skip, "skipped");
            touched = true;
            continue;
        }
        let size = want.buffer.len();
        match how {
            2 => {
                touched = true;
                let k = c.t.urange(1, 4);
                let mut left = size;
                for _ in 0..k {
                    let mut n = bpp * c.t.urange(0, (size / bpp / k).max(1) + 1);
                    if !imgs[i].has_end {
                        // there may be invalid codes after the last pixel
                        n = n.min(left);
                        left -= n;
                    }
                    let mut b = vec![0; n];
                    log.push(format!("fill {n}"));
                    match d.fill_buffer(&mut b) {
                        Ok(true) => {}
                        Ok(false) => {
                            c.label(true, "filled past the end");
                            break;
                        }
                        Err(x) => return Err(format!("frame {i}: fill fails: {x}; {}", show(&log))),
                    }
                }
                c.label(true, "part-read");
            }
            3 => {
                log.push("into".into());
                let mut b = vec![0; size];
                d.read_into_buffer(&mut b).map_err(|x| format!("frame {i}: read_into_buffer: {x}; {}", show(&log)))?;
                ensure!(b == want.buffer, "frame {i}: read_into_buffer gives other pixels; {}", show(&log));
            }
            4 => {
                if size > 0 {
                    log.push("too small".into());
                    let n = c.t.below(size as u64) as usize;
                    let mut b = vec![0; n];
                    ensure!(d.read_into_buffer(&mut b).is_err(), "frame {i}: too small a buffer accepted; {}", show(&log));
                    touched = true;
                    c.label(true, "refused buffer");
                }
            }
            _ => {
                // everything, and what comes after the last pixel
                log.push("fill to the end".into());
                touched = true;
                let mut left = size / bpp + if imgs[i].has_end { 700 } else { 0 };
                while left > 0 {
                    let mut b = vec![0; bpp * 50.min(left)];
                    left -= 50.min(left);
                    match d.fill_buffer(&mut b) {
                        Ok(true) => {}
                        Ok(false) => break,
                        Err(x) => return Err(format!("frame {i}: fill fails: {x}; {}", show(&log))),
                    }
                }
            }
        }
    }
    for _ in 0..2 {
        match d.read_next_frame() {
            Ok(None) => {}
            x => return Err(format!("at the end: {x:?}; {}", show(&log))),
        }
    }
    c.describe(|| show(&log));
    // frame information only
    let mut d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", f.summary()))?;
    for (i, e) in exp.iter().enumerate() {
        match d.next_frame_info() {
            Ok(Some(g)) => ensure!(FrameOut::from(g) == expected_meta(e), "info only, frame {i}: {g:?}; {}", show(&log)),
            x => return Err(format!("info only, frame {i}: {x:?}; {}", show(&log))),
        }
    }
    match d.next_frame_info() {
        Ok(None) => Ok(()),
        x => Err(format!("info only, at the end: {x:?}; {}", show(&log))),
    }
}
