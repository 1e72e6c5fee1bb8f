//! Events of the streaming decoder.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::stream::{stream, Ev, StreamEnd};
use crate::util::*;
use gif::Repeat;
use vref::gen::{self, Cfg};
use vref::lzw;
use vref::spec::{BlockSpec, FileSpec};

pub const CHECK: Check = Check {
    id: "C21",
    run,
    quick: 1_120_000,
    thorough: 33_600_000,
    rule: "generated files (followed by arbitrary bytes in half of the cases) fed to the streaming decoder in random pieces with random output buffers, with the data of some frames discarded; the sequence of events is compared with the one derived from the description of the file; non-trivial: at least one image or extension",
    level: "exploration",
    assumptions: &[TRUSTED, "consecutive BytesDecoded events are taken together, as their number depends on the buffers"],
};

fn events(f: &FileSpec, discard: &[bool]) -> Vec<Ev> {
    let mut v = vec![Ev::Bg(f.bg), Ev::Gct(f.gct.clone().unwrap_or_default())];
    let mut header = true;
    let exp = f.frames();
    let mut n = 0;
    let ext = |v: &mut Vec<Ev>, label: u8, blocks: &[Vec<u8>]| {
        v.push(Ev::Block(0x21));
        let mut d = vec![blocks.first().map_or(0, |b| b.len() as u8)];
        for (i, b) in blocks.iter().enumerate() {
            d.extend_from_slice(b);
            if i + 1 < blocks.len() {
                v.push(Ev::Sub(label, d.len(), crate::stream::keep(&d), false));
            }
        }
        v.push(Ev::Fin(label, d, true));
    };
    for b in &f.blocks {
        match b {
            BlockSpec::Gce { flags, delay, trns } => {
                let d = delay.to_le_bytes();
                ext(&mut v, 0xF9, &[vec![*flags, d[0], d[1], *trns]]);
            }
            BlockSpec::Loop(n) => {
                let d = n.to_le_bytes();
                ext(&mut v, 0xFF, &[b"NETSCAPE2.0".to_vec(), vec![1, d[0], d[1]]]);
                v.push(Ev::Repeat(if *n == 0 { Repeat::Infinite } else { Repeat::Finite(*n) }));
            }
            BlockSpec::Ext { label, blocks } => ext(&mut v, *label, blocks),
            BlockSpec::Unknown { .. } => unreachable!(),
            BlockSpec::Image(i) => {
                if std::mem::take(&mut header) {
                    v.push(Ev::HeaderEnd);
                }
                v.push(Ev::Block(0x2C));
                v.push(Ev::Meta(expected_meta(&exp[n]), None));
                let drop = !discard.is_empty() && discard[n % discard.len()];
                n += 1;
                if !drop {
                    let px = lzw::decode(&i.lzw, i.mcs, usize::MAX).pixels;
                    if !px.is_empty() {
                        v.push(Ev::Pixels(px));
                    }
                }
                v.push(Ev::DataEnd);
            }
        }
    }
    if header {
        v.push(Ev::HeaderEnd);
    }
    v.push(Ev::Block(0x3B));
    v
}

fn run(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: super::c03::max_px(c), trailing: true, no_end: true, ..Cfg::default() };
    let f = gen::file(&mut c.t, &cfg);
    let (bytes, sp) = f.serialize();
    let mut s = super::c06::sched(c);
    if c.t.chance(1, 3) {
        let n = c.t.urange(1, 3);
        s.discard = (0..n).map(|_| c.t.bool()).collect();
    }
    c.nontrivial(!f.blocks.is_empty());
    c.label(!f.trailing.is_empty(), "bytes after the trailer");
    c.label(s.discard.contains(&true) && f.images().next().is_some(), "discarded frames");
    c.label(f.blocks.iter().any(|b| matches!(b, BlockSpec::Ext { .. })), "extensions");
    c.describe(|| format!("{s:?}, {}", f.summary()));
    let show = || format!("{s:?}, {}; file {}", f.summary(), hex(&bytes));
    let out = stream(&bytes, &s).map_err(|e| format!("{e}; {}", show()))?;
    let want = events(&f, &s.discard);
    if let Some(i) = (0..out.evs.len().max(want.len())).find(|&i| out.evs.get(i) != want.get(i)) {
        return Err(format!("event {i} is {:?} instead of {:?} (ends with {:?}); {}", out.evs.get(i), want.get(i), out.end, show()));
    }
    ensure!(out.end == StreamEnd::Trailer, "ends with {:?}; {}", out.end, show());
    ensure!(out.consumed == sp.trailer + 1, "{} bytes consumed at the trailer, which is at {}; {}", out.consumed, sp.trailer, show());
    ensure!((out.width, out.height, out.v89) == (f.width, f.height, !f.v87), "{}x{} version 89a {}; {}", out.width, out.height, out.v89, show());
    Ok(())
}
