//! What is reported when a file is opened.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::stream::stream;
use crate::util::*;
use gif::Repeat;
use vref::gen::{self, Cfg};
use vref::spec::BlockSpec;

pub const CHECK: Check = Check {
    id: "C23",
    run,
    quick: 3_000_000,
    thorough: 90_000_000,
    rule: "files with any screen size, version, global palette of 2 to 256 colors or none, background indices inside, at the border of and outside of the palette, reserved bits, and looping and other extensions in any order before the first frame; what is reported on opening is compared with the description, and again after every frame; non-trivial: always",
    level: "exploration",
    assumptions: &[TRUSTED],
};

fn run(c: &mut Case) -> Res {
    let t = &mut c.t;
    let cfg = Cfg { max_px: 40, max_frames: 2, no_end: true, ..Cfg::default() };
    let mut f = gen::file(t, &cfg);
    // around the border of the palette
    if let Some(g) = &f.gct {
        let n = g.len() / 3;
        match t.weighted(&[3, 2, 1, 1, 1]) {
            0 => {}
            1 => f.bg = (n - 1) as u8,
            2 => f.bg = n.min(255) as u8,
            3 => f.bg = 0,
            _ => f.bg = 255,
        }
    } else if t.bool() {
        f.bg = t.pick(&[0u8, 1, 255]);
    }
    // further looping extensions, some with other sub-blocks behind
    let first = f.blocks.iter().position(|b| matches!(b, BlockSpec::Image(_))).unwrap_or(f.blocks.len());
    let mut want = None;
    let n = t.weighted(&[3, 2, 2, 1]);
    for _ in 0..n {
        let at = t.below(first as u64 + 1) as usize;
        let v = t.u16b();
        let b = if t.chance(1, 4) {
            let mut blocks = vec![b"NETSCAPE2.0".to_vec(), vec![1, v as u8, (v >> 8) as u8]];
            let k = t.urange(1, 5);
            blocks.push(t.bytes(k, 255));
            BlockSpec::Ext { label: 0xFF, blocks }
        } else {
            BlockSpec::Loop(v)
        };
        f.blocks.insert(at, b);
    }
    let mut loops = 0;
    for b in &f.blocks {
        match b {
            BlockSpec::Image(_) => break,
            BlockSpec::Loop(v) => {
                want = Some(*v);
                loops += 1;
            }
            BlockSpec::Ext { label: 0xFF, blocks } if blocks.len() > 2 && blocks[0] == b"NETSCAPE2.0" && blocks[1].len() == 3 && blocks[1][0] == 1 => {
                want = Some(u16::from(blocks[1][1]) | u16::from(blocks[1][2]) << 8);
                loops += 1;
            }
            _ => {}
        }
    }
    let repeat = match want {
        None => Repeat::Finite(0),
        Some(0) => Repeat::Infinite,
        Some(n) => Repeat::Finite(n),
    };
    let bytes = f.bytes();
    let opt = Opt { rgba: t.chance(1, 4), skip: t.chance(1, 4), ..Opt::default() };
    let sizes = if t.bool() { Vec::new() } else { chop_sizes(t) };
    let colors = f.gct.as_ref().map_or(0, |g| g.len() / 3);
    let bg = if usize::from(f.bg) < colors { Some(usize::from(f.bg)) } else { None };
    let want = Header { width: f.width, height: f.height, gct: f.gct.clone(), bg, repeat };
    c.nontrivial(true);
    c.label(f.gct.is_none(), "no global palette");
    c.label(bg.is_none() && f.gct.is_some(), "background index outside of the palette");
    c.label(loops > 1, "several loop counts");
    c.label(f.frames().is_empty(), "no frames");
    c.describe(|| format!("bg {}, {}", f.bg, f.summary()));
    let show = || format!("{opt:?}, reads {sizes:?}, bg {}, {}; file {}", f.bg, f.summary(), hex(&bytes));
    let mut d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", show()))?;
    let got = header(&d);
    ensure!(got == want, "{got:?} instead of {want:?}; {}", show());
    let mut i = 0;
    loop {
        let whole = c.t.bool();
        let more = if whole { d.read_next_frame().map(|f| f.is_some()) } else { d.next_frame_info().map(|f| f.is_some()) };
        let more = more.map_err(|e| format!("frame {i}: {e}; {}", show()))?;
        let got = header(&d);
        ensure!(got == want, "after frame {i}: {got:?} instead of {want:?}; {}", show());
        if !more {
            break;
        }
        // the palette of the frame
        let img = f.images().nth(i).ok_or("too many frames")?;
        let p = img.lct.as_deref().or(f.gct.as_deref()).unwrap_or(&[]);
        match d.palette() {
            Ok(q) => ensure!(q == p, "frame {i}: palette {} instead of {}; {}", hex(q), hex(p), show()),
            Err(e) => return Err(format!("frame {i}: palette: {e}; {}", show())),
        }
        i += 1;
    }
    // the version is reported by the streaming decoder only
    let s = super::c06::sched(c);
    let out = stream(&bytes, &s).map_err(|e| format!("{e}; {}", show()))?;
    ensure!(out.v89 != f.v87, "version; {}", show());
    ensure!((out.width, out.height) == (f.width, f.height), "size of the streaming decoder; {}", show());
    Ok(())
}
