//! Graphic control extensions.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::stream::{stream, Ev};
use crate::util::*;
use vref::gen::{self, Cfg};
use vref::spec::BlockSpec;

pub const CHECK: Check = Check {
    id: "C24",
    run,
    quick: 1_800_000,
    thorough: 54_000_000,
    rule: "files with none, one or several control extensions (any flags, delay and transparent index) before each frame, mixed with comments, application extensions and unknown blocks; frames are skipped, read in part, or read whole, indexed, RGBA or compressed, and also through the streaming decoder; the settings of each are compared with those in scope by the description; non-trivial: a frame with, and one without control extension, or several extensions for one frame",
    level: "exploration",
    assumptions: &[TRUSTED, "plain text extensions between a control extension and an image are left out"],
};

fn run(c: &mut Case) -> Res {
    let t = &mut c.t;
    let unknown = t.bool();
    let cfg = Cfg { max_px: 60, max_frames: 5, min_frames: 1, no_end: true, unknown, unknown_ext: unknown, ..Cfg::default() };
    let mut f = gen::file(t, &cfg);
    // more control extensions
    let n = t.weighted(&[2, 2, 2, 1]);
    for _ in 0..n {
        let at = t.below(f.blocks.len() as u64 + 1) as usize;
        let g = gen::gce(t);
        // not before a text extension which precedes an image
        if !f.blocks[at..].iter().take_while(|b| !matches!(b, BlockSpec::Image(_))).any(|b| matches!(b, BlockSpec::Ext { label: 1, .. })) {
            f.blocks.insert(at, g);
        }
    }
    let bytes = f.bytes();
    let exp = f.frames();
    let (mut with, mut without, mut several, mut k) = (0, 0, 0, 0);
    for b in &f.blocks {
        match b {
            BlockSpec::Gce { .. } => k += 1,
            BlockSpec::Image(_) => {
                with += usize::from(k == 1);
                without += usize::from(k == 0);
                several += usize::from(k > 1);
                k = 0;
            }
            _ => {}
        }
    }
    c.nontrivial(with > 0 && without > 0 || several > 0);
    c.label(several > 0, "several before one image");
    c.label(with + several > 0 && without > 0, "frames with and without");
    c.label(k > 0, "none of the frames in scope");
    c.label(f.blocks.iter().any(|b| matches!(b, BlockSpec::Gce { flags, .. } if flags >> 2 & 7 > 3)), "reserved disposal code");
    let t = &mut c.t;
    let opt = Opt { rgba: t.chance(1, 4), skip: t.chance(1, 5), unknown, ..Opt::default() };
    let sizes = if t.bool() { Vec::new() } else { chop_sizes(t) };
    c.describe(|| format!("{opt:?}, {}", f.summary()));
    let mut hist = Vec::new();
    let show = |h: &[&str]| format!("{h:?}, {opt:?}, reads {sizes:?}, {}; file {}", f.summary(), hex(&bytes));
    let mut d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", show(&[])))?;
    for (i, e) in exp.iter().enumerate() {
        let want = expected_meta(e);
        let how = c.t.weighted(&[3, 3, 2, 2]);
        hist.push(["whole", "skip", "part", "into buffer"][how]);
        let g = if how == 0 { d.read_next_frame() } else { d.next_frame_info() };
        let g = match g {
            Ok(Some(g)) => FrameOut::from(g),
            x => return Err(format!("frame {i}: {x:?}; {}", show(&hist))),
        };
        ensure!(g.same_meta(&want), "frame {i}: {g:?} instead of {want:?}; {}", show(&hist));
        if opt.skip {
            continue;
        }
        if how == 2 {
            let n = 4 * c.t.urange(0, 12);
            let mut b = vec![0; n.min(d.buffer_size())];
            d.fill_buffer(&mut b).map_err(|e| format!("frame {i}: fill_buffer: {e}; {}", show(&hist)))?;
        } else if how == 3 {
            let mut b = vec![0; d.buffer_size()];
            d.read_into_buffer(&mut b).map_err(|e| format!("frame {i}: read_into_buffer: {e}; {}", show(&hist)))?;
        }
    }
    match d.next_frame_info() {
        Ok(None) => {}
        x => return Err(format!("after all frames: {x:?}; {}", show(&hist))),
    }
    if !unknown {
        let mut s = super::c06::sched(c);
        if c.t.bool() {
            s.discard = vec![c.t.bool(), c.t.bool()];
        }
        let out = stream(&bytes, &s).map_err(|e| format!("{e}; {s:?}, {}", show(&[])))?;
        let got: Vec<&FrameOut> = out.evs.iter().filter_map(|e| if let Ev::Meta(f, _) = e { Some(f) } else { None }).collect();
        ensure!(got.len() == exp.len(), "streaming: {} frames; {s:?}, {}", got.len(), show(&[]));
        for (i, (g, e)) in got.iter().zip(&exp).enumerate() {
            ensure!(g.same_meta(&expected_meta(e)), "streaming, frame {i}: {g:?} instead of {:?}; {s:?}, {}", expected_meta(e), show(&[]));
        }
    }
    Ok(())
}
