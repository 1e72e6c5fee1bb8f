//! Reference decoder for arbitrary bytes: what is in them up to the first defect.
use crate::lzw::{self, LzwEnd};
use crate::spec::ExpFrame;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Pixels,
    Compressed,
    Info,
    /// As `Pixels`, but everything the data has, and no palette needed
    Stream,
}

#[derive(Clone, Debug)]
pub struct RefOpt {
    pub mode: Mode,
    pub consistency: bool,
    pub end_code: bool,
    pub unknown: bool,
    /// Largest number of pixels allowed in a frame (`Mode::Pixels` only)
    pub max_px: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    /// The trailer, and the offset behind it
    Clean(usize),
    /// The bytes end too early
    Eof,
    /// Something is wrong with the bytes
    Defect(&'static str),
    /// Something is wrong, but the bytes end right behind it. Either may be reported.
    DefectAtEnd(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefHeader {
    pub v87: bool,
    pub width: u16,
    pub height: u16,
    pub gct: Option<Vec<u8>>,
    /// As in the file
    pub bg: u8,
    /// Of the looping extensions before the first frame
    pub repeat: Option<u16>,
}

#[derive(Clone, Debug)]
pub struct RefOut {
    /// None: can't be opened
    pub header: Option<RefHeader>,
    /// The bytes end where opening does
    pub header_optional: bool,
    /// `stored` is the pixels, the code size with all data, or empty
    pub frames: Vec<ExpFrame>,
    /// The pixels of the last frame are there, but what is behind them is incomplete or damaged
    pub last_optional: bool,
    /// The defect is a code in data which the bytes cut short
    pub open_code: bool,
    pub stop: Stop,
    /// What has been met, for statistics
    pub split_control: bool,
    pub code_size_1: bool,
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Stop> {
        let s = self.b.get(self.p..self.p + n).ok_or(Stop::Eof)?;
        self.p += n;
        Ok(s)
    }
    fn u8(&mut self) -> Result<u8, Stop> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, Stop> {
        let s = self.take(2)?;
        Ok(u16::from_le_bytes([s[0], s[1]]))
    }
    /// Payload, appended to `out`
    fn blocks(&mut self, out: &mut Vec<u8>) -> Result<(), Stop> {
        loop {
            let n = usize::from(self.u8()?);
            if n == 0 {
                return Ok(());
            }
            let have = n.min(self.b.len() - self.p);
            out.extend_from_slice(&self.b[self.p..self.p + have]);
            self.take(n)?;
        }
    }
    /// Something wrong with what has just been taken
    fn defect(&self, what: &'static str) -> Stop {
        if self.p >= self.b.len() { Stop::DefectAtEnd(what) } else { Stop::Defect(what) }
    }
}

pub fn decode(b: &[u8], o: &RefOpt) -> RefOut {
    let mut out = RefOut { header: None, header_optional: false, frames: Vec::new(), last_optional: false, open_code: false, stop: Stop::Eof, split_control: false, code_size_1: false };
    out.stop = match go(b, o, &mut out) {
        Ok(p) => Stop::Clean(p),
        Err(s) => s,
    };
    out
}

#[derive(Clone, Default)]
struct Control {
    delay: u16,
    dispose: u8,
    transparent: Option<u8>,
    user_input: bool,
}

fn go(b: &[u8], o: &RefOpt, out: &mut RefOut) -> Result<usize, Stop> {
    let mut c = Cur { b, p: 0 };
    let sig = c.take(6)?;
    let v87 = match sig {
        b"GIF87a" => true,
        b"GIF89a" => false,
        _ => return Err(Stop::Defect("signature")),
    };
    let (width, height) = (c.u16()?, c.u16()?);
    let flags = c.u8()?;
    let bg = c.u8()?;
    c.u8()?;
    let gct = if flags & 0x80 != 0 { Some(c.take(3 << ((flags & 7) + 1))?.to_vec()) } else { None };
    let mut head = RefHeader { v87, width, height, gct, bg, repeat: None };
    let mut control = Control { dispose: 1, ..Control::default() };
    control.dispose = 1;
    let plain = control.clone();
    loop {
        let at = c.p;
        let intro = c.u8()?;
        let skippable = o.unknown && !matches!(intro, 0x3B | 0x2C | 0x21);
        if out.header.is_none() && intro != 0x21 && !skippable {
            out.header = Some(head.clone());
            // opening may ask for one more byte
            out.header_optional = intro != 0x3B && c.p >= b.len();
        }
        match intro {
            0x3B => return Ok(c.p),
            0x21 => {
                if c.p >= b.len() {
                    return Err(Stop::Eof);
                }
                let label = c.u8()?;
                if !o.unknown && !matches!(label, 0x01 | 0xF9 | 0xFE | 0xFF) {
                    return Err(c.defect("extension label"));
                }
                let first = b.get(c.p).copied().unwrap_or(0);
                let mut data = Vec::new();
                c.blocks(&mut data)?;
                match label {
                    0xF9 => {
                        let Ok([f, d0, d1, t]) = <[u8; 4]>::try_from(&data[..]) else {
                            return Err(Stop::Defect("length of control extension"));
                        };
                        out.split_control |= first != 4;
                        control = Control { delay: u16::from_le_bytes([d0, d1]), dispose: (f >> 2) & 7, transparent: (f & 1 != 0).then_some(t), user_input: f & 2 != 0 };
                        if control.dispose > 3 {
                            control.dispose = 0;
                        }
                    }
                    0xFF if data.len() >= 14 && &data[..12] == b"NETSCAPE2.0\x01" => {
                        head.repeat = Some(u16::from_le_bytes([data[12], data[13]]));
                    }
                    _ => {}
                }
            }
            0x2C => {
                let (left, top, w, h) = (c.u16()?, c.u16()?, c.u16()?, c.u16()?);
                let flags = c.u8()?;
                // the order in which these are found doesn't matter
                let lct = if flags & 0x80 != 0 { 3 << ((flags & 7) + 1) } else { 0usize };
                let cut = c.p + lct + 1 >= b.len();
                let bad = |what| if cut { Stop::DefectAtEnd(what) } else { Stop::Defect(what) };
                if o.consistency && (u32::from(left) + u32::from(w) > u32::from(width) || u32::from(top) + u32::from(h) > u32::from(height)) {
                    return Err(bad("frame bounds"));
                }
                let palette = if flags & 0x80 != 0 { Some(c.take(3 << ((flags & 7) + 1))?.to_vec()) } else { None };
                let mcs = c.u8()?;
                if !(1..=11).contains(&mcs) {
                    return Err(bad("code size"));
                }
                out.code_size_1 |= mcs == 1;
                if c.p >= b.len() {
                    return Err(Stop::Eof);
                }
                if palette.is_none() && head.gct.is_none() && o.mode != Mode::Stream {
                    return Err(Stop::Defect("no palette"));
                }
                let px = u64::from(w) * u64::from(h);
                let g = std::mem::replace(&mut control, plain.clone());
                let mut frame = ExpFrame {
                    left,
                    top,
                    width: w,
                    height: h,
                    delay: g.delay,
                    dispose: g.dispose,
                    transparent: g.transparent,
                    user_input: g.user_input,
                    interlaced: flags & 0x40 != 0,
                    palette,
                    stored: Vec::new(),
                };
                if o.mode == Mode::Info {
                    out.frames.push(frame.clone());
                }
                if o.mode == Mode::Pixels && px > o.max_px {
                    return Err(Stop::Defect("memory limit"));
                }
                let mut data = Vec::new();
                let closed = c.blocks(&mut data);
                match o.mode {
                    Mode::Compressed => {
                        closed?;
                        frame.stored.push(mcs);
                        frame.stored.extend(data);
                        out.frames.push(frame);
                    }
                    Mode::Info => {
                        if o.end_code {
                            match lzw::decode(&data, mcs, usize::MAX).end {
                                LzwEnd::End => {}
                                LzwEnd::Invalid => return Err(Stop::Defect("code")),
                                LzwEnd::OutOfData if closed.is_ok() => return Err(Stop::Defect("no end code")),
                                LzwEnd::OutOfData => {}
                            }
                        }
                        closed?;
                    }
                    Mode::Stream => {
                        let r = lzw::decode(&data, mcs, usize::MAX);
                        frame.stored = r.pixels;
                        out.frames.push(frame);
                        if r.end == LzwEnd::Invalid {
                            out.open_code = closed.is_err();
                            return Err(Stop::Defect("code"));
                        }
                        closed?;
                    }
                    Mode::Pixels => {
                        let n = px as usize;
                        let r = lzw::decode(&data, mcs, n);
                        if r.pixels.len() < n {
                            match r.end {
                                LzwEnd::Invalid => return Err(Stop::Defect("code")),
                                _ => closed?,
                            }
                            return Err(c.defect("too few pixels"));
                        }
                        frame.stored = r.pixels;
                        frame.stored.truncate(n);
                        out.frames.push(frame);
                        out.last_optional = true;
                        if o.end_code {
                            match lzw::decode(&data, mcs, usize::MAX).end {
                                LzwEnd::End => {}
                                LzwEnd::Invalid => return Err(Stop::Defect("code")),
                                LzwEnd::OutOfData if closed.is_ok() => return Err(Stop::Defect("no end code")),
                                LzwEnd::OutOfData => {}
                            }
                        }
                        closed?;
                        out.last_optional = false;
                    }
                }
            }
            _ if o.unknown => {
                c.blocks(&mut Vec::new())?;
            }
            _ => {
                debug_assert!(at < c.p);
                return Err(c.defect("block introducer"));
            }
        }
    }
}
