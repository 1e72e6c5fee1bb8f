//! RGBA mode against the expansion of indexed mode.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use crate::wild;
use vref::spec::expand;

pub const CHECK: Check = Check {
    id: "C04",
    run,
    quick: 1_120_000,
    thorough: 33_600_000,
    rule: "generated files, some of them mutated, are decoded in both color modes; the RGBA frames must be the independent expansion of the indexed ones; also through caller-supplied buffers and partial fills; non-trivial: at least one frame with pixels decoded",
    level: "exploration",
    assumptions: &[TRUSTED, RELEASE],
};

/// Pixels outside of the palette may be left as they were in caller's buffers
fn same_pixels(got: &[u8], old: u8, want: &[u8], idx: &[u8], pal: &[u8]) -> Option<usize> {
    (0..idx.len()).find(|&i| {
        let g = &got[i * 4..i * 4 + 4];
        if usize::from(idx[i]) * 3 + 3 > pal.len() {
            g != [0; 4] && g != [old; 4]
        } else {
            g != &want[i * 4..i * 4 + 4]
        }
    })
}

fn run(c: &mut Case) -> Res {
    let cfg = wild::any_cfg(&mut c.t);
    let f = vref::gen::file(&mut c.t, &cfg);
    let mut bytes = f.bytes();
    if c.t.chance(1, 4) {
        wild::mutate(&mut c.t, &mut bytes);
        c.label(true, "mutated");
    }
    let unknown = c.t.bool();
    let a = decode_all(&bytes[..], &Opt { limit: Some(1 << 20), unknown, ..Opt::default() });
    let b = decode_all(&bytes[..], &Opt { rgba: true, limit: Some(1 << 22), unknown, ..Opt::default() });
    c.describe(|| f.summary());
    let show = || format!("{}; file {}", f.summary(), hex(&bytes));
    ensure!(a.header == b.header, "header {:?} vs {:?}; {}", a.header, b.header, show());
    ensure!(a.frames.len() == b.frames.len(), "{} indexed, {} RGBA frames, ends {:?} and {:?}; {}", a.frames.len(), b.frames.len(), a.end, b.end, show());
    ensure!(a.end == b.end, "indexed mode ends with {:?}, RGBA mode with {:?}; {}", a.end, b.end, show());
    let Some(head) = &a.header else { return Ok(()) };
    let mut pals = Vec::new();
    for (i, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
        c.nontrivial(!x.buffer.is_empty());
        let pal = x.palette.clone().or(head.gct.clone()).unwrap_or_default();
        let want = FrameOut { buffer: expand(&x.buffer, &pal, x.transparent), ..x.clone() };
        c.label(x.buffer.iter().any(|&p| usize::from(p) * 3 >= pal.len()), "index outside of the palette");
        c.label(x.transparent.map_or(false, |t| x.buffer.contains(&t)), "transparent pixels");
        c.label(x.palette.is_none(), "global palette");
        if let Some(d) = diff_frame(y, &want) {
            return Err(format!("frame {i}: RGBA vs expanded indexed: {d}; {}", show()));
        }
        pals.push((want, pal));
    }
    // caller's buffers
    let fill = c.t.byte();
    let mut d = Opt { rgba: true, limit: Some(1 << 22), unknown, ..Opt::default() }.build().read_info(&bytes[..]).map_err(|e| format!("second opening fails: {e}; {}", show()))?;
    for (i, (want, pal)) in pals.iter().enumerate() {
        let info = match d.next_frame_info() {
            Ok(Some(f)) => FrameOut::from(f),
            x => return Err(format!("frame {i}: next_frame_info gives {x:?}; {}", show())),
        };
        ensure!(d.palette().ok() == Some(&pal[..]), "frame {i}: palette() is {:?}; {}", d.palette().ok(), show());
        ensure!(d.buffer_size() == want.buffer.len() && d.line_length() == usize::from(want.width) * 4, "frame {i}: buffer_size {} line_length {}; {}", d.buffer_size(), d.line_length(), show());
        let mut buf = vec![fill; want.buffer.len()];
        let idx = &a.frames[i].buffer;
        if info.interlaced || c.t.bool() {
            if let Err(e) = d.read_into_buffer(&mut buf) {
                return Err(format!("frame {i}: read_into_buffer fails: {e}; {}", show()));
            }
        } else {
            let mut p = 0;
            while p < buf.len() {
                let n = (4 * c.t.urange(1, 50).max(buf.len() / 80)).min(buf.len() - p);
                match d.fill_buffer(&mut buf[p..p + n]) {
                    Ok(true) => {}
                    x => return Err(format!("frame {i}: fill_buffer gives {x:?} at {p}; {}", show())),
                }
                p += n;
            }
            c.label(true, "partial fills");
        }
        if let Some(p) = same_pixels(&buf, fill, &want.buffer, idx, pal) {
            return Err(format!("frame {i}: pixel {p} is {:?} instead of {:?} in the caller's buffer; {}", &buf[p * 4..p * 4 + 4], &want.buffer[p * 4..p * 4 + 4], show()));
        }
    }
    Ok(())
}
