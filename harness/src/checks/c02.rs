//! The encoder's output against an independent strict parser and LZW decoder.
use super::*;
use crate::enc::{self, Hist, Op};
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::Repeat;
use vref::lzw::{self, LzwEnd};
use vref::parse::{self, Image, Item};

pub const CHECK: Check = Check {
    id: "C02",
    run,
    quick: 1_350_000,
    thorough: 40_500_000,
    rule: "a random history of encoder calls; the bytes are parsed by the strict reference parser and every item is compared with the call that made it, image data with the reference LZW decoder; non-trivial: at least one image or extension",
    level: "exploration",
    assumptions: &[TRUSTED, RELEASE],
};

fn image_ok(img: &Image, f: &enc::EFrame) -> Res {
    ensure!((img.left, img.top, img.width, img.height) == (f.f.left, f.f.top, f.f.width, f.f.height), "descriptor {img:?}");
    ensure!(img.interlaced() == f.f.interlaced, "interlace flag");
    match (&img.lct, &f.f.palette) {
        (None, None) => {}
        (Some(a), Some(b)) => ensure!(*a == enc::padded(b), "local color table is {a:?}"),
        (a, b) => return Err(format!("local color table {a:?} for palette {b:?}")),
    }
    ensure!(img.flags & 0x18 == 0, "reserved bits in {:#x}", img.flags);
    ensure!((2..=8).contains(&img.mcs), "minimum code size {}", img.mcs);
    let px = f.px();
    let data = img.data();
    let r = lzw::decode(&data, img.mcs, usize::MAX);
    ensure!(r.end == LzwEnd::End, "lzw data ends with {:?} after {} pixels", r.end, r.pixels.len());
    ensure!(r.starts_with_clear, "lzw data doesn't start with a clear code");
    ensure!((r.bits_used + 7) / 8 == data.len(), "{} bytes after the end code", data.len() - (r.bits_used + 7) / 8);
    ensure!(r.pixels.len() >= px && f.f.buffer.starts_with(&r.pixels), "lzw data decodes to {} pixels which are not the ones given", r.pixels.len());
    Ok(())
}

pub fn check_stream(h: &Hist, bytes: &[u8]) -> Res {
    let g = parse::parse(bytes)?;
    ensure!(&g.version == b"89a", "version {:?}", g.version);
    ensure!((g.width, g.height) == (h.width, h.height), "screen size");
    ensure!(g.aspect == 0, "aspect ratio {}", g.aspect);
    ensure!(g.gct.as_ref().map_or(true, |p| usize::from(g.bg) < p.len() / 3), "background index {}", g.bg);
    ensure!(g.gct.as_deref() == Some(&enc::expected_gct(h)), "global color table {:?}", g.gct);
    let mut items = g.items.iter().peekable();
    for (n, op) in h.ops.iter().enumerate() {
        let what = || format!("call {n} ({})", enc::show_op(op));
        match op {
            Op::Frame(f) => {
                let flags = (f.f.dispose as u8) << 2 | u8::from(f.f.user_input) << 1 | u8::from(f.f.transparent.is_some());
                match items.peek() {
                    Some(Item::Ext { label: 0xF9, blocks }) => {
                        ensure!(blocks.len() == 1 && blocks[0].len() == 4, "{}: control extension {blocks:?}", what());
                        let b = &blocks[0];
                        ensure!(b[0] == flags && u16::from_le_bytes([b[1], b[2]]) == f.f.delay && f.f.transparent.map_or(true, |t| t == b[3]), "{}: control extension {b:?}", what());
                        items.next();
                    }
                    _ => ensure!(flags == 1 << 2 && f.f.delay == 0, "{}: no control extension", what()),
                }
                match items.next() {
                    Some(Item::Image(i)) => image_ok(i, f).map_err(|e| format!("{}: {e}", what()))?,
                    x => return Err(format!("{}: found {x:?}", what())),
                }
            }
            Op::SetRepeat(r) | Op::ExtRepeat(r) => {
                let v = match r {
                    Repeat::Finite(0) => continue,
                    Repeat::Finite(n) => *n,
                    Repeat::Infinite => 0,
                };
                let [lo, hi] = v.to_le_bytes();
                let want = Item::Ext { label: 0xFF, blocks: vec![b"NETSCAPE2.0".to_vec(), vec![1, lo, hi]] };
                ensure!(items.next() == Some(&want), "{}: looping extension", what());
            }
            Op::Control { delay, dispose, user_input, trns } => {
                let [lo, hi] = delay.to_le_bytes();
                let flags = (*dispose as u8) << 2 | u8::from(*user_input) << 1 | u8::from(trns.is_some());
                let want = Item::Ext { label: 0xF9, blocks: vec![vec![flags, lo, hi, trns.unwrap_or(0)]] };
                ensure!(items.next() == Some(&want), "{}: control extension", what());
            }
            Op::Raw { label, slices } => {
                let want = Item::Ext { label: *label, blocks: slices.iter().flat_map(|s| s.chunks(255).map(<[u8]>::to_vec)).collect() };
                let got = items.next();
                ensure!(got == Some(&want), "{}: found {got:?}", what());
            }
        }
    }
    ensure!(items.next().is_none(), "unexpected blocks before the trailer");
    Ok(())
}

fn run(c: &mut Case) -> Res {
    let h = enc::hist_giant(&mut c.t, 6);
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(_))), "frames");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.px() > 3000)), "over 3000 pixels");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Frame(f) if f.px() == 0)), "frame without pixels");
    c.label(h.ops.iter().any(|o| matches!(o, Op::Raw { slices, .. } if slices.iter().any(|s| s.len() > 255))), "extension slice over 255 bytes");
    c.label(h.ops.is_empty(), "no calls");
    c.nontrivial(!h.ops.is_empty());
    c.describe(|| enc::show(&h));
    let bytes = enc::run(&h)?;
    check_stream(&h, &bytes).map_err(|e| format!("{e}; {}; file {}", enc::show(&h), hex(&bytes)))?;
    ensure!(enc::run_drop(&h)? == bytes, "dropping and finishing give different bytes; {}", enc::show(&h));
    ensure!(enc::run(&h)? == bytes, "the same calls give different bytes; {}", enc::show(&h));
    Ok(())
}
