//! Extension payloads.
use super::*;
use crate::enc::{self, Hist, Op};
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::stream::{keep, stream, Ev, StreamEnd};
use crate::util::*;
use gif::{AnyExtension, Encoder, Extension, Repeat};
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C20",
    run,
    quick: 1_500_000,
    thorough: 45_000_000,
    rule: "encoder histories with raw comment, application, text and well-formed control extensions of any slicing (empty slices, lengths around multiples of 255, a few over 64 KiB) between frames and repeat settings; the file is fed to the streaming decoder in random pieces and the payloads it reports are compared with those written; frames and loop count are compared with those given; non-trivial: at least one raw extension with data",
    level: "exploration",
    assumptions: &[TRUSTED, "a raw control extension precedes the one which the encoder writes for each frame, and so has no effect", "last_ext() gives the length of the first sub-block, and then all data"],
};

/// Very long payloads, which don't repeat every 255 or 256 bytes
fn long(t: &mut Tape) -> Vec<Vec<u8>> {
    let l = t.pick(&[65_024usize, 65_025, 65_280, 65_535, 65_536, 70_000, 131_072, 200_000]) + t.urange(0, 3);
    let k = t.urange(0, 255);
    let all: Vec<u8> = (0..l).map(|i| (i * 7 + i / 251 + k) as u8).collect();
    match t.below(3) {
        0 => vec![all],
        1 => all.chunks(255).map(<[u8]>::to_vec).collect(),
        _ => {
            let n = t.urange(1, 70_000);
            all.chunks(n.max(100)).map(<[u8]>::to_vec).collect()
        }
    }
}

fn slices(t: &mut Tape) -> Vec<Vec<u8>> {
    if t.chance(1, 1000) {
        return long(t);
    }
    let n = t.weighted(&[1, 5, 3, 2, 1]);
    (0..n)
        .map(|_| {
            let l = match t.weighted(&[4, 4, 1]) {
                0 => t.urange(0, 20),
                1 => t.pick(&[0usize, 1, 2, 253, 254, 255, 256, 257, 509, 510, 511, 512, 764, 765, 766]),
                _ => t.urange(0, 1500),
            };
            t.bytes(l, 255)
        })
        .collect()
}

fn raw(t: &mut Tape) -> Op {
    match t.weighted(&[4, 4, 3, 1]) {
        0 => Op::Raw { label: 0xFE, slices: slices(t) },
        1 => {
            let mut s = slices(t);
            let joined: Vec<u8> = s.concat();
            // not a loop count
            if joined.starts_with(b"NETSCAPE2.0\x01") {
                s.clear();
            }
            Op::Raw { label: 0xFF, slices: s }
        }
        2 => Op::Raw { label: 0x01, slices: slices(t) },
        _ => {
            let mut d = t.bytes(4, 255);
            let k = t.urange(0, 4);
            let e = d.split_off(k);
            Op::Raw { label: 0xF9, slices: vec![d, e] }
        }
    }
}

fn run(c: &mut Case) -> Res {
    let t = &mut c.t;
    let mut h: Hist = enc::hist(t, 4);
    let n = t.urange(1, 4);
    for _ in 0..n {
        let at = t.below(h.ops.len() as u64 + 1) as usize;
        let o = raw(t);
        h.ops.insert(at, o);
    }
    // looping extensions through the raw interface, in any slicing that keeps the sub-blocks
    if t.chance(1, 4) {
        let n = t.u16b();
        let at = t.below(h.ops.len() as u64 + 1) as usize;
        let mut d = vec![1];
        d.extend_from_slice(&n.to_le_bytes());
        h.ops.insert(at, Op::Raw { label: 0xFF, slices: vec![b"NETSCAPE2.0".to_vec(), Vec::new(), d] });
    }
    let payloads: Vec<(u8, Vec<Vec<u8>>)> = h
        .ops
        .iter()
        .filter_map(|o| match o {
            Op::Raw { label, slices } => Some((*label, slices.clone())),
            _ => None,
        })
        .collect();
    c.nontrivial(payloads.iter().any(|(_, s)| s.iter().any(|x| !x.is_empty())));
    c.label(payloads.iter().any(|(_, s)| s.iter().any(|x| x.len() > 255)), "slice over 255 bytes");
    c.label(payloads.iter().any(|(_, s)| s.iter().map(Vec::len).sum::<usize>() > 65_535), "over 65535 bytes");
    c.label(payloads.iter().any(|(_, s)| s.iter().any(Vec::is_empty)), "empty slice");
    c.label(payloads.iter().any(|(_, s)| s.concat().is_empty()), "no data");
    c.describe(|| enc::show(&h));
    let show = || enc::show(&h);
    // what each call writes
    let mut e = Encoder::new(Vec::new(), h.width, h.height, &h.gpal).map_err(|e| format!("Encoder::new: {e}; {}", show()))?;
    for op in &h.ops {
        let before = e.get_ref().len();
        enc::apply(&mut e, op).map_err(|x| format!("{}: {x}; {}", enc::show_op(op), show()))?;
        if let Op::SetRepeat(Repeat::Finite(0)) | Op::ExtRepeat(Repeat::Finite(0)) = op {
            ensure!(e.get_ref().len() == before, "a repeat setting of zero writes {}; {}", hex(&e.get_ref()[before..]), show());
        }
    }
    let bytes = e.into_inner().map_err(|e| format!("into_inner: {e}; {}", show()))?;
    // incrementally
    let s = super::c06::sched(c);
    let show = || format!("{s:?}, {}; file {}", show(), hex(&bytes));
    let out = stream(&bytes, &s).map_err(|e| format!("{e}; {}", show()))?;
    ensure!(out.end == StreamEnd::Trailer, "stream ends with {:?}; {}", out.end, show());
    let mut want = payloads.iter();
    // extensions which the encoder adds aren't raw ones: match them up by position in the history
    let mut ops = h.ops.iter().peekable();
    let mut cur: Vec<(usize, Vec<u8>)> = Vec::new();
    for ev in &out.evs {
        match ev {
            Ev::Block(0x21) => cur.clear(),
            Ev::Meta(..) => {
                while let Some(Op::SetRepeat(Repeat::Finite(0)) | Op::ExtRepeat(Repeat::Finite(0))) = ops.peek() {
                    ops.next();
                }
                let op = ops.next();
                ensure!(matches!(op, Some(Op::Frame(_))), "a frame instead of {op:?}; {}", show());
            }
            Ev::Sub(label, len, data, end) => {
                ensure!(!end, "block end reported too early for {label:#x}; {}", show());
                cur.push((*len, data.clone()));
            }
            Ev::Fin(label, data, end) => {
                ensure!(*end, "block end flag missing for {label:#x}; {}", show());
                ensure!(data.len() <= 1 + 255 * (cur.len() + 1), "sub-block over 255 bytes; {}", show());
                let mut before = 0;
                for (i, (l, d)) in cur.iter().enumerate() {
                    ensure!(*l <= 1 + 255 * (i + 1), "sub-block over 255 bytes; {}", show());
                    ensure!(*l > before && *l < data.len() && keep(&data[..*l]) == *d, "piece {i} of extension {label:#x} is {l} bytes, {}, of {}; {}", hex(d), hex(data), show());
                    before = *l;
                }
                let named = match label {
                    0x01 => Some(Extension::Text),
                    0xF9 => Some(Extension::Control),
                    0xFE => Some(Extension::Comment),
                    0xFF => Some(Extension::Application),
                    _ => None,
                };
                ensure!(AnyExtension(*label).into_known() == named, "label {label:#x} is taken for {:?}; {}", AnyExtension(*label).into_known(), show());
                // skip what doesn't write an extension
                while let Some(Op::SetRepeat(Repeat::Finite(0)) | Op::ExtRepeat(Repeat::Finite(0))) = ops.peek() {
                    ops.next();
                }
                // the control extension of the frame, if it has one
                if let Some(Op::Frame(_)) = ops.peek() {
                    ensure!(*label == 0xF9, "extension {label:#x} for a frame; {}", show());
                    continue;
                }
                match ops.next() {
                    Some(Op::Raw { .. }) => {
                        let (l, s) = want.next().ok_or("no more payloads")?;
                        let all = s.concat();
                        ensure!(l == label, "extension {label:#x} instead of {l:#x}; {}", show());
                        ensure!(data.get(1..) == Some(&all[..]), "payload {} instead of {}; {}", hex(data.get(1..).unwrap_or(&[])), hex(&all), show());
                        let first = s.iter().find(|x| !x.is_empty()).map_or(0, |x| x.len().min(255));
                        ensure!(usize::from(data[0]) == first, "first sub-block of {} bytes instead of {first}; {}", data[0], show());
                        // pieces: all slices are cut into 255 bytes
                        let mut sum = 1;
                        let mut want_cuts = Vec::new();
                        for x in s {
                            for y in x.chunks(255) {
                                sum += y.len();
                                want_cuts.push(sum);
                            }
                        }
                        want_cuts.pop();
                        let cuts: Vec<usize> = cur.iter().map(|p| p.0).collect();
                        // any slicing is fine which keeps the payload, but there can't be fewer pieces than 255 bytes allow
                        ensure!(cuts.len() >= all.len().div_ceil(255).saturating_sub(1), "{} pieces; {}", cuts.len(), show());
                        c.label(cuts == want_cuts && cuts.len() > 1, "several sub-blocks");
                    }
                    Some(Op::SetRepeat(_) | Op::ExtRepeat(_)) => ensure!(*label == 0xFF, "extension {label:#x} for a repeat setting; {}", show()),
                    Some(Op::Control { .. }) => ensure!(*label == 0xF9, "extension {label:#x} for a control extension; {}", show()),
                    Some(Op::Frame(_)) | None => return Err(format!("unexpected extension {label:#x}; {}", show())),
                }
            }
            _ => {}
        }
    }
    ensure!(want.next().is_none(), "extensions are missing; {}", show());
    // frames and loop count
    let rd = decode_all(&bytes[..], &Opt::default());
    if let Some(d) = diff_frames(&rd.frames, &enc::expected_frames(&h)) {
        return Err(format!("{d} (end {:?}); {}", rd.end, show()));
    }
    ensure!(rd.end == End::Clean, "ends with {:?}; {}", rd.end, show());
    let mut rep = Repeat::Finite(0);
    for o in &h.ops {
        match o {
            Op::Frame(_) => break,
            Op::SetRepeat(x) | Op::ExtRepeat(x) if *x != Repeat::Finite(0) => rep = *x,
            Op::Raw { label: 0xFF, slices } => {
                let d = slices.concat();
                if d.len() >= 14 && d.starts_with(b"NETSCAPE2.0\x01") {
                    let n = u16::from_le_bytes([d[12], d[13]]);
                    rep = if n == 0 { Repeat::Infinite } else { Repeat::Finite(n) };
                }
            }
            _ => {}
        }
    }
    let got = rd.header.map(|h| h.repeat);
    ensure!(got == Some(rep), "repeat {got:?} instead of {rep:?}; {}", show());
    Ok(())
}
