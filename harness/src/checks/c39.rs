//! Settings and queries have no side effects.
use super::*;
use crate::enc;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use crate::wild;
use gif::streaming_decoder::FrameDecoder;
use gif::{ColorOutput, DecodeOptions, Decoder, Encoder, MemoryLimit};
use std::num::NonZeroU64;
use vref::tape::Tape;

pub const CHECK: Check = Check {
    id: "C39",
    run,
    quick: 200_000,
    thorough: 6_000_000,
    rule: "decoding options set by 0 to 14 calls in any order, repeated and revoked, on options made in any of 3 ways, with a clone taken midway and changed on its own, against a model of the last value set of each, for a file, damaged or not, for which the settings matter; any reading calls with and without all queries (size, palettes, background, loop count, buffer sizes) in between, queries asked twice; histories of an encoder with and without looking at its writer; non-trivial: some option set more than once, or a frame read or written",
    level: "exploration",
    assumptions: &[TRUSTED],
};

fn run(c: &mut Case) -> Res {
    match c.t.weighted(&[5, 4, 1]) {
        0 => settings(c),
        1 => queries(c),
        _ => writer(c),
    }
}

/// One call on the options and the model
fn set(t: &mut Tape, o: &mut DecodeOptions, m: &mut Opt, valid: bool) -> usize {
    let which = t.below(6) as usize;
    let b = t.bool();
    match which {
        0 => {
            m.rgba = b;
            o.set_color_output(if b { ColorOutput::RGBA } else { ColorOutput::Indexed });
        }
        1 => {
            m.limit = t.pick(&[Some(50_000_000), Some(1), Some(100), Some(1000), Some(10_000), Some(4_000_000), None, Some(1 << 32), Some((1 << 32) + 7), Some(u64::MAX)]);
            // damaged bytes may declare any sizes
            if m.limit.map_or(true, |l| l > u64::from(u32::MAX)) && !valid {
                m.limit = Some(500_000);
            }
            o.set_memory_limit(match m.limit {
                Some(n) => MemoryLimit::Bytes(NonZeroU64::new(n).unwrap()),
                None => MemoryLimit::Unlimited,
            });
        }
        2 => {
            m.consistency = b;
            o.check_frame_consistency(b);
        }
        3 => {
            m.skip = b;
            o.skip_frame_decoding(b);
        }
        4 => {
            m.end_code = b;
            o.check_lzw_end_code(b);
        }
        _ => {
            m.unknown = b;
            o.allow_unknown_blocks(b);
        }
    }
    which
}

/// Each option set once, in a fixed order
fn plain(m: &Opt) -> DecodeOptions {
    // none of the files needs that much
    let m = &Opt { limit: m.limit.filter(|&l| l <= u64::from(u32::MAX)), ..m.clone() };
    let mut o = DecodeOptions::new();
    o.set_color_output(if m.rgba { ColorOutput::RGBA } else { ColorOutput::Indexed });
    o.set_memory_limit(match m.limit {
        Some(n) => MemoryLimit::Bytes(NonZeroU64::new(n).unwrap()),
        None => MemoryLimit::Unlimited,
    });
    o.check_frame_consistency(m.consistency);
    o.skip_frame_decoding(m.skip);
    o.check_lzw_end_code(m.end_code);
    o.allow_unknown_blocks(m.unknown);
    o
}

fn outcome(bytes: &[u8], o: DecodeOptions) -> (Option<Header>, Vec<FrameOut>, Option<ErrK>) {
    let mut frames = Vec::new();
    let mut d = match o.read_info(bytes) {
        Ok(d) => d,
        Err(e) => return (None, frames, Some(e.into())),
    };
    let h = Some(header(&d));
    loop {
        match d.read_next_frame() {
            Ok(Some(f)) => frames.push(f.into()),
            Ok(None) => return (h, frames, None),
            Err(e) => return (h, frames, Some(e.into())),
        }
        if frames.len() > 300 {
            return (h, frames, None);
        }
    }
}

fn same(a: &(Option<Header>, Vec<FrameOut>, Option<ErrK>), b: &(Option<Header>, Vec<FrameOut>, Option<ErrK>)) -> Option<String> {
    if a.0 != b.0 {
        return Some(format!("{:?} vs {:?}", a.0, b.0));
    }
    if a.2 != b.2 {
        return Some(format!("ends with {:?} vs {:?} after {} vs {} frames", a.2, b.2, a.1.len(), b.1.len()));
    }
    diff_frames(&a.1, &b.1)
}

fn input(t: &mut Tape) -> (Vec<u8>, bool) {
    let kind = t.weighted(&[3, 2, 1]);
    let b = match kind {
        0 => {
            let mut cfg = wild::any_cfg(t);
            cfg.max_px = cfg.max_px.min(2000);
            vref::gen::file(t, &cfg).bytes()
        }
        1 => wild::damaged(t),
        _ => wild::bytes(t).0,
    };
    (b, kind == 0)
}

fn settings(c: &mut Case) -> Res {
    let t = &mut c.t;
    let (bytes, valid) = input(t);
    let mut m = Opt::default();
    let mut o = match t.below(3) {
        0 => DecodeOptions::new(),
        1 => DecodeOptions::default(),
        _ => Decoder::<&[u8]>::build(),
    };
    let n = t.urange(0, 14);
    let cut = t.urange(0, n);
    let mut count = [0; 6];
    let mut other = None;
    let mut calls = Vec::new();
    for i in 0..n {
        if i == cut {
            other = Some((o.clone(), m.clone()));
        }
        let k = set(t, &mut o, &mut m, valid);
        count[k] += 1;
        calls.push(k);
    }
    // the clone goes its own way
    if let Some((o2, m2)) = &mut other {
        for _ in 0..t.below(4) {
            set(t, o2, m2, valid);
        }
        if t.bool() {
            std::mem::swap(&mut o, o2);
            std::mem::swap(&mut m, m2);
        }
    }
    c.nontrivial(count.iter().any(|&n| n > 1));
    c.label(other.is_some(), "a clone");
    c.label(n == 0, "defaults");
    c.describe(|| format!("{m:?} set by {calls:?} on {} bytes", bytes.len()));
    let text = || format!("{m:?} set by {calls:?}; file {}", hex(&bytes));
    let want = outcome(&bytes, plain(&m));
    c.label(!want.1.is_empty(), "with frames");
    if let Some(d) = same(&outcome(&bytes, o), &want) {
        return Err(format!("vs options set once: {d}; {}", text()));
    }
    if let Some((o2, m2)) = other {
        if let Some(d) = same(&outcome(&bytes, o2), &outcome(&bytes, plain(&m2))) {
            return Err(format!("the clone, {m2:?}: {d}; {}", text()));
        }
    }
    Ok(())
}

/// All of the queries of a decoder
fn ask<R: std::io::Read>(d: &Decoder<R>) -> String {
    format!(
        "{}x{} {:?} {:?} {:?} {:?} {} {}",
        d.width(),
        d.height(),
        d.global_palette(),
        d.palette().map_err(|e| e.to_string()),
        d.bg_color(),
        d.repeat(),
        d.buffer_size(),
        d.line_length()
    )
}

fn read(d: &mut Decoder<Chop<'_>>, how: u8) -> Result<Option<FrameOut>, ErrK> {
    match how {
        0 => Ok(d.read_next_frame()?.map(FrameOut::from)),
        1 => Ok(d.next_frame_info()?.map(FrameOut::from)),
        _ => {
            let Some(mut f) = d.next_frame_info()?.map(FrameOut::from) else { return Ok(None) };
            let n = d.buffer_size().min(200_000);
            let mut b = vec![1; n];
            if how == 2 {
                d.read_into_buffer(&mut b)?;
            } else {
                let k = (n / 3).max(4) & !3;
                for p in b.chunks_mut(k).take(usize::from(how) - 2) {
                    if p.len() % 4 == 0 && !d.fill_buffer(p)? {
                        break;
                    }
                }
            }
            f.buffer = b;
            Ok(Some(f))
        }
    }
}

fn queries(c: &mut Case) -> Res {
    let t = &mut c.t;
    let (bytes, _) = input(t);
    let opt = Opt { skip: false, ..Opt::any(t) };
    let sizes = chop_sizes(t);
    let how: Vec<u8> = (0..t.urange(1, 6)).map(|_| t.below(6) as u8).collect();
    c.describe(|| format!("{opt:?}, reads {sizes:?}, calls {how:?}, {} bytes", bytes.len()));
    let text = || format!("{opt:?}, reads {sizes:?}, calls {how:?}; file {}", hex(&bytes));
    let (Ok(mut a), Ok(mut b)) = (opt.build().read_info(Chop::new(&bytes, sizes.clone())), opt.build().read_info(Chop::new(&bytes, sizes.clone()))) else { return Ok(()) };
    for i in 0..300 {
        let (q, q2) = (ask(&b), ask(&b));
        ensure!(q == q2, "the same queries give {q} and {q2} before call {i}; {}", text());
        let h = how[i % how.len()];
        let (x, y) = (read(&mut a, h), read(&mut b, h));
        let q = ask(&b);
        let qa = ask(&a);
        ensure!(q == qa, "queries give {qa} without and {q} with earlier ones, after call {i}; {}", text());
        match (&x, &y) {
            (Ok(Some(x)), Ok(Some(y))) => {
                c.nontrivial(true);
                c.label(i > 0, "several frames");
                if let Some(d) = diff_frame(x, y) {
                    return Err(format!("frame {i} without and with queries: {d}; {}", text()));
                }
            }
            (Ok(None), Ok(None)) => break,
            (Err(x), Err(y)) => {
                ensure!(x == y, "{x:?} without and {y:?} with queries; {}", text());
                break;
            }
            _ => return Err(format!("call {i} gives {x:?} without and {y:?} with queries; {}", text())),
        }
    }
    // sizes of frames
    let fd = FrameDecoder::new(opt.build());
    let f = gif::Frame { width: c.t.u16b(), height: c.t.u16b(), interlaced: c.t.bool(), ..gif::Frame::default() };
    ensure!(fd.buffer_size(&f) == fd.buffer_size(&f), "two buffer sizes for {f:?}");
    Ok(())
}

fn writer(c: &mut Case) -> Res {
    let t = &mut c.t;
    let h = enc::hist(t, 5);
    c.nontrivial(h.ops.iter().any(|o| matches!(o, enc::Op::Frame(_))));
    c.label(true, "encoder");
    c.describe(|| enc::show(&h));
    let want = enc::run(&h)?;
    let mut e = Encoder::new(Vec::new(), h.width, h.height, &h.gpal).map_err(|e| e.to_string())?;
    for op in &h.ops {
        let _ = e.get_ref().len();
        let n = e.get_mut().len();
        enc::apply(&mut e, op).map_err(|e| format!("{e}; {}", enc::show(&h)))?;
        ensure!(e.get_ref().len() >= n && e.get_ref()[..n] == want[..n], "what was written differs; {}", enc::show(&h));
    }
    let n = e.get_mut().len();
    let got = e.into_inner().map_err(|e| format!("{e}; {}", enc::show(&h)))?;
    ensure!(n <= got.len() && got == want, "looking at the writer changes what is written; {}", enc::show(&h));
    Ok(())
}
