//! Work for the crate whose results can be compared between builds of it (check C33).
use crate::enc::{self, Hist};
use crate::stream::{self, Sched};
use crate::util::*;
use crate::wild;
use gif::streaming_decoder::FrameDecoder;
use gif::{Encoder, Frame};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use vref::gen;
use vref::tape::{hash_bytes, Tape};

/// After so many bytes; only once; with an error or by accepting nothing
#[derive(Clone, Copy, Debug)]
pub struct Fail {
    at: usize,
    once: bool,
    kind: Option<ErrorKind>,
}

pub enum Job {
    Dec { bytes: Vec<u8>, opt: Opt, sizes: Vec<usize>, how: Vec<u8> },
    Iter { bytes: Vec<u8>, opt: Opt },
    Stream { bytes: Vec<u8>, sched: Sched },
    /// Frames read in compressed form, then decoded
    Lazy { bytes: Vec<u8>, opt: Opt },
    Enc { h: Hist, fail: Option<Fail>, drop: bool },
    /// Image data which isn't from the encoder
    Raw { h: Hist, bufs: Vec<Vec<u8>> },
    /// A frame that claims to be large, and a small buffer
    Huge { w: u16, h: u16, interlaced: bool, opt: Opt, buf: usize },
    /// Width, RGBA pixels and speed
    Conv(u16, Vec<u8>, i32),
    /// Conversions with the wrong number of bytes, for which sizes may have overflowed
    Sizes(u16, u16, usize),
}

impl Job {
    /// Needs the feature color_quant
    pub fn conversion(&self) -> bool {
        matches!(self, Job::Conv(..) | Job::Sizes(..))
    }
}

fn side(t: &mut Tape) -> u16 {
    match t.below(4) {
        0 => t.u16b(),
        1 => t.pick(&[65535u16, 65534, 32768, 32767, 16384, 16383, 4096, 21846, 43691]),
        2 => 1 << t.range(8, 15),
        _ => t.range(20_000, 65_535) as u16,
    }
}

pub fn job(t: &mut Tape) -> Job {
    match t.weighted(&[6, 1, 3, 3, 6, 1, 2, 1, 1]) {
        0 => {
            let bytes = wild::bytes(t).0;
            let opt = Opt::any(t);
            let sizes = if t.bool() { Vec::new() } else { chop_sizes(t) };
            let n = t.urange(1, 4);
            let how = (0..n).map(|_| if opt.skip { t.below(2) as u8 } else { t.below(5) as u8 }).collect();
            Job::Dec { bytes, opt, sizes, how }
        }
        1 => Job::Iter { bytes: wild::bytes(t).0, opt: Opt::any(t) },
        2 => {
            let bytes = wild::bytes(t).0;
            let input = if t.bool() { Vec::new() } else { chop_sizes(t) };
            let output = chop_sizes(t);
            let discard = (0..t.below(3)).map(|_| t.bool()).collect();
            Job::Stream { bytes, sched: Sched { input, output, discard } }
        }
        3 => Job::Lazy { bytes: wild::bytes(t).0, opt: Opt { skip: true, ..Opt::any(t) } },
        4 => {
            let h = enc::hist(t, 5);
            let max = t.pick(&[60u64, 1000]);
            let kinds = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::OutOfMemory, ErrorKind::UnexpectedEof, ErrorKind::StorageFull];
            let fail = if t.bool() { Some(Fail { at: t.below(max) as usize, once: t.bool(), kind: if t.chance(1, 6) { None } else { Some(t.pick(&kinds)) } }) } else { None };
            Job::Enc { h, fail, drop: t.chance(2, 3) }
        }
        5 => {
            let h = enc::hist(t, 5);
            let bufs = (0..t.below(3))
                .map(|_| {
                    let n = t.urange(0, 40);
                    let max = t.pick(&[12u8, 255]);
                    t.bytes(n, max)
                })
                .collect();
            Job::Raw { h, bufs }
        }
        6 => Job::Huge { w: side(t), h: side(t), interlaced: t.bool(), opt: Opt { limit: Some(t.pick(&[1u64 << 24, 1 << 20, 1])), ..Opt::any(t) }, buf: t.urange(1, 1000) * 4 },
        7 => {
            let (w, h) = (side(t), side(t));
            let n = u64::from(w) * u64::from(h) * t.pick(&[1u64, 3, 4]);
            let wrapped = (n as u32) as usize;
            Job::Sizes(w, h, if wrapped < 5000 && n > 5000 { wrapped } else { t.urange(0, 100) * 12 })
        }
        _ => {
            let (w, h) = if t.chance(1, 8) { (t.range(40, 60) as u16, t.range(40, 60) as u16) } else { gen::dims(t, 500, false) };
            let n = usize::from(w) * usize::from(h) * 4;
            let max = t.pick(&[255u8, 1, 7, 63]);
            Job::Conv(w, t.bytes(n, max), t.range(5, 30) as i32)
        }
    }
}

pub fn show(j: &Job) -> String {
    match j {
        Job::Dec { bytes, opt, sizes, how } => format!("decoder {opt:?} reads {sizes:?} how {how:?} file {}", hex(bytes)),
        Job::Iter { bytes, opt } => format!("iterator {opt:?} file {}", hex(bytes)),
        Job::Stream { bytes, sched } => format!("streaming decoder {sched:?} file {}", hex(bytes)),
        Job::Lazy { bytes, opt } => format!("frame decoder {opt:?} file {}", hex(bytes)),
        Job::Enc { h, fail, drop } => format!("writer fails {fail:?} dropped {drop} {}", enc::show(h)),
        Job::Raw { h, bufs } => format!("pre-encoded {bufs:?} {}", enc::show(h)),
        Job::Huge { w, h, interlaced, opt, buf } => format!("frame {w}x{h} interlaced {interlaced} {opt:?} buffer {buf}"),
        Job::Sizes(w, h, n) => format!("conversion of {n} bytes, {w}x{h}"),
        Job::Conv(w, p, speed) => format!("conversion of RGBA pixels, width {w}, speed {speed}: {}", hex(p)),
    }
}

fn frame(f: &FrameOut) -> String {
    format!("{f:?} {:x}", hash_bytes(&f.buffer))
}

struct Out {
    v: Vec<u8>,
    fail: Option<Fail>,
    faults: usize,
}

#[derive(Clone)]
struct Shared(Rc<RefCell<Out>>);

impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut o = self.0.borrow_mut();
        let mut n = b.len();
        if let Some(Fail { at, once, kind }) = o.fail {
            if o.v.len() >= at && !(once && o.faults > 0) && n > 0 {
                o.faults += 1;
                return kind.map_or(Ok(0), |k| Err(io::Error::new(k, "planted")));
            }
            if o.v.len() < at {
                n = n.min(at - o.v.len());
            }
        }
        o.v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn encode(h: &Hist, fail: Option<Fail>, dropped: bool, bufs: &[Vec<u8>], raii_panics: bool) -> Vec<String> {
    let o = Shared(Rc::new(RefCell::new(Out { v: Vec::new(), fail, faults: 0 })));
    let mut v = Vec::new();
    match Encoder::new(o.clone(), h.width, h.height, &h.gpal) {
        Err(e) => v.push(format!("not opened: {e}")),
        Ok(mut e) => {
            let mut failed = false;
            for op in &h.ops {
                let r = enc::apply(&mut e, op);
                failed |= r.is_err();
                v.push(format!("{:?} {}", r.map_err(|e| e.to_string()), o.0.borrow().v.len()));
                // afterwards it's unspecified
                if failed {
                    break;
                }
            }
            for b in bufs {
                let f = Frame { width: 3, height: 2, palette: Some(vec![1; 24]), buffer: b.clone().into(), ..Frame::default() };
                v.push(format!("{:?}", e.write_lzw_pre_encoded_frame(&f).map_err(|e| e.to_string())));
            }
            if dropped {
                let before = o.0.borrow().faults;
                let panicked = catch_unwind(AssertUnwindSafe(|| drop(e))).is_err();
                let lost = o.0.borrow().faults > before;
                v.push(match (panicked, lost && raii_panics) {
                    (a, b) if a == b => "dropped as documented".into(),
                    (true, _) => format!("drop panics, trailer failed: {lost}"),
                    _ => "drop doesn't panic, but the trailer can't be written".into(),
                });
            } else {
                v.push(format!("{:?}", e.into_inner().map(|_| ()).map_err(|e| e.to_string())));
            }
        }
    }
    let o = o.0.borrow();
    v.push(format!("{} bytes {:x} {} faults", o.v.len(), hash_bytes(&o.v), o.faults));
    v
}

fn call<R: Read>(d: &mut gif::Decoder<R>, h: u8) -> Result<Option<FrameOut>, gif::DecodingError> {
    if h == 0 {
        return Ok(d.read_next_frame()?.map(FrameOut::from));
    }
    let Some(mut f) = d.next_frame_info()?.map(FrameOut::from) else { return Ok(None) };
    let n = d.buffer_size().min(100_000);
    let mut b = vec![0; n];
    match h {
        1 => {}
        2 => d.read_into_buffer(&mut b)?,
        3 => {
            let m = n / 2 & !3;
            d.fill_buffer(&mut b[..m])?;
        }
        _ => {
            let l = d.line_length().max(4);
            for c in b.chunks_mut(l) {
                d.fill_buffer(c)?;
            }
        }
    }
    f.buffer = b;
    Ok(Some(f))
}

fn huge(w: u16, h: u16, interlaced: bool, opt: &Opt, buf: usize, v: &mut Vec<String>) {
    let mut file = b"GIF89a\x0a\0\x0a\0\x80\0\0abcdef\x2c\0\0\0\0".to_vec();
    for x in [w, h] {
        file.extend_from_slice(&x.to_le_bytes());
    }
    file.push(if interlaced { 0x40 } else { 0 });
    file.extend_from_slice(&[2, 2, 0x44, 1, 0, 0x3B]);
    // sizes beyond 4 GB can't be told on 32-bit targets
    let size = |n: usize| n.min(u32::MAX as usize);
    let mut b = vec![0; buf];
    let err = |e: gif::DecodingError| format!("{:?}", ErrK::from(e));
    let mut plain = opt.clone();
    plain.skip = false;
    let open = |o: &Opt| o.build().read_info(&file[..]);
    for i in 0..3 {
        let mut d = match open(&plain) {
            Ok(d) => d,
            Err(e) => return v.push(err(e)),
        };
        if i == 2 {
            v.push(d.read_next_frame().map_or_else(err, |f| format!("{:?}", f.map(FrameOut::from))));
            continue;
        }
        match d.next_frame_info() {
            Ok(f) => v.push(format!("{:?}", f.map(FrameOut::from))),
            Err(e) => return v.push(err(e)),
        }
        v.push(format!("{} {}", d.line_length(), size(d.buffer_size())));
        let r = if i == 0 { d.read_into_buffer(&mut b).map(|()| true) } else { d.fill_buffer(&mut b) };
        v.push(r.map_or_else(err, |r| format!("{r}")));
    }
    let mut fd = gif::streaming_decoder::FrameDecoder::new(plain.build());
    fd.set_global_palette(vec![3; 12]);
    if let Ok(mut d) = open(&Opt { skip: true, ..opt.clone() }) {
        match d.read_next_frame() {
            Ok(f) => {
                let Some(mut f) = f.cloned() else { return v.push("no frame".into()) };
                v.push(format!("{:?} {}", FrameOut::from(&f), size(fd.buffer_size(&f))));
                v.push(fd.decode_lzw_encoded_frame_into_buffer(&f, &mut b).map_or_else(err, |()| "fits".into()));
                v.push(fd.decode_lzw_encoded_frame(&mut f).map_or_else(err, |()| "decoded".into()));
            }
            Err(e) => v.push(err(e)),
        }
    }
    let mut e = Encoder::new(Vec::new(), 1, 1, &[1; 6]).expect("writes to a vector");
    let f = Frame { width: w, height: h, interlaced, buffer: b.into(), ..Frame::default() };
    if w > 0 && h > 0 {
        v.push(format!("{:?} {}", e.write_frame(&f).map_err(|e| e.to_string()), e.get_ref().len()));
    }
}

/// `bare`: without the optional features
pub fn run(j: &Job, bare: bool) -> Vec<String> {
    let mut v = Vec::new();
    match j {
        Job::Dec { bytes, opt, sizes, how } => match opt.build().read_info(Chop::new(bytes, sizes.clone())) {
            Err(e) => v.push(format!("{:?}", ErrK::from(e))),
            Ok(mut d) => {
                v.push(format!("{:?}", header(&d)));
                for i in 0..300 {
                    match call(&mut d, how[i % how.len()]) {
                        Ok(Some(f)) => v.push(frame(&f)),
                        Ok(None) => {
                            v.push(format!("end, {:?}", d.into_inner().into_inner().pos));
                            break;
                        }
                        Err(e) => {
                            v.push(format!("{:?}", ErrK::from(e)));
                            break;
                        }
                    }
                }
            }
        },
        Job::Iter { bytes, opt } => match opt.build().read_info(&bytes[..]) {
            Err(e) => v.push(format!("{:?}", ErrK::from(e))),
            Ok(d) => v.extend(d.into_iter().take(300).map(|r| match r {
                Ok(f) => frame(&FrameOut::from(&f)),
                Err(e) => format!("{:?}", ErrK::from(e)),
            })),
        },
        Job::Stream { bytes, sched } => match stream::stream(bytes, sched) {
            Ok(o) => {
                let o = o.normalized();
                v.extend(o.evs.iter().map(|e| {
                    let s = format!("{e:?}");
                    if s.len() > 400 { format!("{} {:x}", s.get(..300).unwrap_or(""), hash_bytes(s.as_bytes())) } else { s }
                }));
                v.push(format!("{:?} {} {}x{} {}", o.end, o.consumed, o.width, o.height, o.v89));
            }
            Err(e) => v.push(e),
        },
        Job::Lazy { bytes, opt } => match opt.build().read_info(&bytes[..]) {
            Err(e) => v.push(format!("{:?}", ErrK::from(e))),
            Ok(mut d) => {
                let mut fd = FrameDecoder::new(opt.build());
                if let Some(p) = d.global_palette() {
                    fd.set_global_palette(p.to_vec());
                }
                for _ in 0..300 {
                    match d.read_next_frame() {
                        Ok(Some(f)) => {
                            v.push(frame(&FrameOut::from(f)));
                            let mut f = f.clone();
                            let n = fd.buffer_size(&f);
                            if n <= 100_000 {
                                let mut b = vec![0; n];
                                let r = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut b);
                                v.push(match r {
                                    Ok(()) => format!("{:x}", hash_bytes(&b)),
                                    Err(e) => format!("{:?}", ErrK::from(e)),
                                });
                            }
                            let r = fd.decode_lzw_encoded_frame(&mut f);
                            v.push(match r {
                                Ok(()) => frame(&FrameOut::from(&f)),
                                Err(e) => format!("{:?}", ErrK::from(e)),
                            });
                        }
                        Ok(None) => {
                            v.push("end".into());
                            break;
                        }
                        Err(e) => {
                            v.push(format!("{:?}", ErrK::from(e)));
                            break;
                        }
                    }
                }
            }
        },
        Job::Enc { h, fail, drop } => v = encode(h, *fail, *drop, &[], bare),
        Job::Huge { w, h, interlaced, opt, buf } => huge(*w, *h, *interlaced, opt, *buf, &mut v),
        #[cfg(feature = "conv")]
        Job::Sizes(w, h, n) => {
            let px = usize::from(*w) * usize::from(*h);
            for (k, bpp) in [1, 1, 3, 4].into_iter().enumerate() {
                let wrong = u64::from(*w) * u64::from(*h) * bpp != *n as u64;
                let r = catch_unwind(|| match k {
                    0 => Frame::from_indexed_pixels(*w, *h, vec![1; *n], None),
                    1 => Frame::from_palette_pixels(*w, *h, vec![1; *n], vec![7; 6], None),
                    2 => Frame::from_rgb_speed(*w, *h, &vec![1; *n], 10),
                    _ => Frame::from_rgba_speed(*w, *h, &mut vec![1; *n], 10),
                });
                v.push(match r {
                    Ok(f) if !wrong && f.buffer.len() == px => "as documented".into(),
                    Err(_) if wrong => "as documented".into(),
                    Ok(f) => format!("conversion {k} gives {} pixels", f.buffer.len()),
                    Err(_) => format!("conversion {k} panics"),
                });
            }
        }
        Job::Raw { h, bufs } => v = encode(h, None, false, bufs, bare),
        #[cfg(feature = "conv")]
        Job::Conv(w, p, speed) => {
            let h = (p.len() / 4 / usize::from(*w)) as u16;
            let mut q = p.clone();
            let f = Frame::from_rgba_speed(*w, h, &mut q, *speed);
            v.push(format!("{} {:x}", frame(&FrameOut::from(&f)), hash_bytes(&q)));
            let rgb: Vec<u8> = p.chunks(4).flat_map(|c| [c[0], c[1], c[2]]).collect();
            let mut f = Frame::from_rgb_speed(*w, h, &rgb, *speed);
            f.make_lzw_pre_encoded();
            v.push(frame(&FrameOut::from(&f)));
        }
        #[cfg(not(feature = "conv"))]
        Job::Conv(..) | Job::Sizes(..) => {}
    }
    v
}
