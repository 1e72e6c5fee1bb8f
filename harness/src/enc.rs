//! Encoder histories as values, and ways to run them.
use gif::{AnyExtension, DisposalMethod, Encoder, EncodingError, Extension, ExtensionData, Frame, Repeat};
use std::borrow::Cow;
use std::io::Write;
use vref::gen;
use vref::spec::BlockSpec;
use vref::tape::Tape;

use crate::util::FrameOut;

#[derive(Clone, Debug)]
pub struct EFrame {
    pub f: FrameOut,
    pub pre: bool,
}

impl EFrame {
    pub fn frame(&self) -> Frame<'static> {
        Frame { buffer: Cow::Owned(self.f.buffer.clone()), ..self.empty() }
    }
    /// Half of the frames borrow their pixels
    pub fn lent(&self) -> Frame<'_> {
        let buffer = if self.f.buffer.len() % 2 == 0 { Cow::Borrowed(&self.f.buffer[..]) } else { Cow::Owned(self.f.buffer.clone()) };
        Frame { buffer, ..self.empty() }
    }
    fn empty(&self) -> Frame<'static> {
        Frame {
            delay: self.f.delay,
            dispose: self.f.dispose,
            transparent: self.f.transparent,
            needs_user_input: self.f.user_input,
            top: self.f.top,
            left: self.f.left,
            width: self.f.width,
            height: self.f.height,
            interlaced: self.f.interlaced,
            palette: self.f.palette.clone(),
            buffer: Cow::Borrowed(&[]),
        }
    }
    pub fn px(&self) -> usize {
        usize::from(self.f.width) * usize::from(self.f.height)
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Frame(EFrame),
    SetRepeat(Repeat),
    /// Through `write_extension`
    ExtRepeat(Repeat),
    Control { delay: u16, dispose: DisposalMethod, user_input: bool, trns: Option<u8> },
    Raw { label: u8, slices: Vec<Vec<u8>> },
}

#[derive(Clone, Debug)]
pub struct Hist {
    pub width: u16,
    pub height: u16,
    pub gpal: Vec<u8>,
    pub ops: Vec<Op>,
}

pub fn dispose(t: &mut Tape) -> DisposalMethod {
    t.pick(&[DisposalMethod::Keep, DisposalMethod::Any, DisposalMethod::Background, DisposalMethod::Previous])
}

pub fn repeat(t: &mut Tape) -> Repeat {
    match t.weighted(&[2, 1, 3]) {
        0 => Repeat::Infinite,
        1 => Repeat::Finite(0),
        _ => Repeat::Finite(t.u16b()),
    }
}

/// Any length: empty, not a multiple of 3, all sizes up to 256 colors
pub fn pal(t: &mut Tape) -> Vec<u8> {
    let n = match t.weighted(&[4, 3, 2, 1]) {
        0 => 3 * t.urange(1, 8),
        1 => 3 * t.urange(1, 256),
        2 => 3 * t.pick(&[1usize, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 254, 255, 256]),
        _ => t.urange(0, 770),
    };
    let mut p = t.bytes(n, 255);
    if t.chance(1, 6) {
        gen::special_palette(t, &mut p);
    }
    p
}

/// What a palette looks like after a round trip
pub fn padded(p: &[u8]) -> Vec<u8> {
    let n = p.len() / 3;
    let mut v = p[..n * 3].to_vec();
    v.resize(3 * n.max(2).next_power_of_two(), 0);
    v
}

pub fn eframe(t: &mut Tape, has_gpal: bool, max_px: usize) -> EFrame {
    let (w, h) = if t.chance(1, 60) {
        if t.bool() { (t.pick(&[65535u16, 65534, 4096, 256, 255]), 1) } else { (1, t.pick(&[65535u16, 65534, 4096, 256, 255])) }
    } else if t.chance(1, 2000) {
        t.pick(&[(257u16, 256u16), (300, 220), (2, 32769), (32768, 3)])
    } else {
        gen::dims(t, max_px, true)
    };
    eframe_of(t, has_gpal, w, h)
}

fn eframe_of(t: &mut Tape, has_gpal: bool, w: u16, h: u16) -> EFrame {
    let px = usize::from(w) * usize::from(h);
    let max = match t.weighted(&[3, 3, 2, 1]) {
        0 => t.below(8) as u8,
        1 => t.byte(),
        2 => t.pick(&[1u8, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255]),
        _ => 255,
    };
    let mut buffer = t.bytes(px, max);
    if px > 0 && t.chance(1, 10) {
        let n = t.urange(1, 40);
        buffer.extend(t.bytes(n, 255));
    }
    let palette = if !has_gpal || t.chance(1, 3) { Some(pal(t)) } else { None };
    EFrame {
        f: FrameOut {
            left: t.u16b(),
            top: t.u16b(),
            width: w,
            height: h,
            delay: t.u16b(),
            dispose: dispose(t),
            transparent: if t.chance(1, 2) { Some(t.byte()) } else { None },
            user_input: t.chance(1, 4),
            interlaced: t.chance(1, 4),
            palette,
            buffer,
        },
        pre: t.chance(1, 4),
    }
}

pub fn raw_inert(t: &mut Tape) -> Op {
    match gen::inert_ext(t, true, &gen::Cfg::default()) {
        BlockSpec::Ext { label, mut blocks } => {
            // join some, so that slices over 255 bytes appear
            if label == 0xFE && t.chance(1, 4) {
                let n = if t.chance(1, 100) { t.pick(&[65025, 65535, 65536, 70000]) } else { t.pick(&[0usize, 1, 254, 255, 256, 257, 509, 510, 511, 765, 1000]) };
                blocks.push(t.bytes(n, 255));
            }
            Op::Raw { label, slices: blocks }
        }
        _ => unreachable!(),
    }
}

pub fn max_px(t: &mut Tape) -> usize {
    match t.weighted(&[30, 4, 1]) {
        0 => 300,
        1 => 4000,
        _ => 20000,
    }
}

/// The same frame, but for one detail
fn vary(t: &mut Tape, f: &mut FrameOut) {
    let px = usize::from(f.width) * usize::from(f.height);
    match t.below(8) {
        0 => f.buffer[..px].reverse(),
        1 if px > 0 => f.buffer[..px].rotate_left(1),
        2 if px > 0 => {
            let i = t.below(px as u64) as usize;
            f.buffer[i] ^= 1 << t.below(8);
        }
        3 if px > 0 => f.buffer[px - 1] = t.byte(),
        4 => f.delay = t.u16b(),
        5 => f.transparent = if f.transparent.is_some() { None } else { Some(t.byte()) },
        6 => f.interlaced ^= true,
        _ => std::mem::swap(&mut f.width, &mut f.height),
    }
}

pub fn hist(t: &mut Tape, max_ops: usize) -> Hist {
    hist_of(t, max_ops, false)
}

pub fn hist_giant(t: &mut Tape, max_ops: usize) -> Hist {
    hist_of(t, max_ops, true)
}

fn hist_of(t: &mut Tape, max_ops: usize, giant: bool) -> Hist {
    let mut width = t.u16b();
    let mut height = t.u16b();
    let gpal = if t.chance(1, 4) { Vec::new() } else { pal(t) };
    let has = gpal.len() >= 3;
    let n = if max_ops > 3 && t.chance(1, 2500) { t.urange(max_ops, 300) } else { t.urange(0, max_ops) };
    let mut ops: Vec<Op> = Vec::new();
    let mut pool = vec![gpal.clone(), padded(&gpal)];
    for _ in 0..n {
        // the same call again
        if !ops.is_empty() && t.chance(1, 12) {
            let mut o = ops[t.below(ops.len() as u64) as usize].clone();
            if let Op::Frame(f) = &mut o {
                f.pre ^= t.bool();
                if t.bool() {
                    vary(t, &mut f.f);
                }
            }
            ops.push(o);
            continue;
        }
        let op = match t.weighted(&[6, 2, 1, 1, 2]) {
            0 => {
                let m = max_px(t);
                let mut f = if giant && t.chance(1, 50_000) {
                    let (w, h) = gen::giant_dims(t);
                    eframe_of(t, has, w, h)
                } else {
                    eframe(t, has, m)
                };
                if t.chance(1, 8) {
                    // a palette which has been there before
                    let mut p = pool[t.below(pool.len() as u64) as usize].clone();
                    if !p.is_empty() && t.chance(1, 4) {
                        let i = t.below(p.len() as u64) as usize;
                        p[i] ^= 1;
                    }
                    f.f.palette = Some(p);
                }
                pool.extend(f.f.palette.clone());
                if t.chance(1, 8) {
                    // all of the screen
                    (f.f.left, f.f.top) = (0, 0);
                    (width, height) = (f.f.width, f.f.height);
                }
                Op::Frame(f)
            }
            1 => Op::SetRepeat(repeat(t)),
            2 => Op::ExtRepeat(repeat(t)),
            3 => Op::Control { delay: t.u16b(), dispose: dispose(t), user_input: t.bool(), trns: if t.bool() { Some(t.byte()) } else { None } },
            _ => raw_inert(t),
        };
        ops.push(op);
    }
    Hist { width, height, gpal, ops }
}

pub fn apply<W: Write>(e: &mut Encoder<W>, op: &Op) -> Result<(), EncodingError> {
    match op {
        Op::Frame(f) => {
            let mut fr = f.lent();
            if f.pre {
                fr.make_lzw_pre_encoded();
                e.write_lzw_pre_encoded_frame(&fr)
            } else {
                e.write_frame(&fr)
            }
        }
        Op::SetRepeat(r) => e.set_repeat(*r),
        Op::ExtRepeat(r) => e.write_extension(ExtensionData::Repetitions(*r)),
        Op::Control { delay, dispose, user_input, trns } => e.write_extension(ExtensionData::new_control_ext(*delay, *dispose, *user_input, *trns)),
        Op::Raw { label, slices } => {
            let s: Vec<&[u8]> = slices.iter().map(|v| &v[..]).collect();
            // by number or by name
            let by_name = match *label {
                0x01 => Some(Extension::Text),
                0xF9 => Some(Extension::Control),
                0xFE => Some(Extension::Comment),
                0xFF => Some(Extension::Application),
                _ => None,
            };
            let l = match by_name {
                Some(n) if s.len() % 2 == 0 => n.into(),
                _ => AnyExtension(*label),
            };
            e.write_raw_extension(l, &s).map_err(EncodingError::Io)
        }
    }
}

/// Runs the history into a vector, finishing explicitly
pub fn run(h: &Hist) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new(Vec::new(), h.width, h.height, &h.gpal).map_err(|e| format!("Encoder::new failed: {e}"))?;
    for (i, op) in h.ops.iter().enumerate() {
        apply(&mut e, op).map_err(|x| format!("call {i} ({}) failed: {x}", show_op(op)))?;
    }
    e.into_inner().map_err(|e| format!("into_inner failed: {e}"))
}

/// Runs the history and drops the encoder
pub fn run_drop(h: &Hist) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    {
        let mut e = Encoder::new(&mut v, h.width, h.height, &h.gpal).map_err(|e| format!("Encoder::new failed: {e}"))?;
        for (i, op) in h.ops.iter().enumerate() {
            apply(&mut e, op).map_err(|x| format!("call {i} ({}) failed: {x}", show_op(op)))?;
        }
    }
    Ok(v)
}

pub fn show_op(op: &Op) -> String {
    match op {
        Op::Frame(f) => format!("{}{:?}", if f.pre { "pre-encoded " } else { "" }, f.f),
        Op::Raw { label, slices } => format!("raw ext {label:#x} {:?}", slices.iter().map(Vec::len).collect::<Vec<_>>()),
        o => format!("{o:?}"),
    }
}

pub fn show(h: &Hist) -> String {
    format!("encoder {}x{} gpal {}B, {} calls: {}", h.width, h.height, h.gpal.len(), h.ops.len(), h.ops.iter().take(400).map(show_op).collect::<Vec<_>>().join("; "))
}

/// Frames which decoding must give, in indexed mode
pub fn expected_frames(h: &Hist) -> Vec<FrameOut> {
    h.ops
        .iter()
        .filter_map(|o| match o {
            Op::Frame(f) => {
                let px = f.px();
                let mut x = f.f.clone();
                x.buffer.truncate(px);
                if x.interlaced {
                    x.buffer = vref::spec::deinterlace(&x.buffer, usize::from(x.width), usize::from(x.height));
                    x.interlaced = false;
                }
                x.palette = x.palette.map(|p| padded(&p));
                Some(x)
            }
            _ => None,
        })
        .collect()
}

/// The loop count which decoding must give
pub fn expected_repeat(h: &Hist) -> Repeat {
    let mut r = Repeat::Finite(0);
    for o in &h.ops {
        match o {
            Op::Frame(_) => break,
            Op::SetRepeat(x) | Op::ExtRepeat(x) if *x != Repeat::Finite(0) => r = *x,
            _ => {}
        }
    }
    r
}

pub fn expected_gct(h: &Hist) -> Vec<u8> {
    padded(&h.gpal)
}
