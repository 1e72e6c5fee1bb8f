//! Driving the gif crate and putting its results into comparable values.
use gif::{ColorOutput, DecodeOptions, Decoder, DecodingError, DisposalMethod, Frame, MemoryLimit, Repeat};
use std::io::{self, Read};
use vref::spec::{expand, ExpFrame};
use vref::tape::Tape;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Opt {
    pub rgba: bool,
    /// None = unlimited
    pub limit: Option<u64>,
    pub consistency: bool,
    pub skip: bool,
    pub end_code: bool,
    pub unknown: bool,
}

impl Default for Opt {
    fn default() -> Self {
        Opt { rgba: false, limit: Some(50_000_000), consistency: false, skip: false, end_code: false, unknown: false }
    }
}

impl Opt {
    pub fn rgba(rgba: bool) -> Self {
        Opt { rgba, ..Opt::default() }
    }
    /// Relies on the documented defaults if the limit is the default one. Otherwise everything is set,
    /// in some cases not for the first time.
    pub fn build(&self) -> DecodeOptions {
        let d = Opt::default();
        let explicit = self.limit != d.limit;
        let mut o = if self.rgba { DecodeOptions::default() } else { DecodeOptions::new() };
        if self.limit.is_some_and(|l| l % 4 == 1) {
            // the last call counts
            let x = Opt { rgba: !self.rgba, limit: Some(7), consistency: !self.consistency, skip: !self.skip, end_code: !self.end_code, unknown: !self.unknown };
            x.set(&mut o, &d, true);
        }
        self.set(&mut o, &d, explicit);
        if self.limit.is_some_and(|l| l % 3 == 1) { o.clone() } else { o }
    }
    fn set(&self, o: &mut DecodeOptions, d: &Opt, explicit: bool) {
        if explicit || self.unknown != d.unknown {
            o.allow_unknown_blocks(self.unknown);
        }
        if explicit || self.rgba != d.rgba {
            o.set_color_output(if self.rgba { ColorOutput::RGBA } else { ColorOutput::Indexed });
        }
        if explicit || self.limit != d.limit {
            o.set_memory_limit(match self.limit {
                None => MemoryLimit::Unlimited,
                Some(n) => MemoryLimit::Bytes(n.max(1).try_into().unwrap()),
            });
        }
        if explicit || self.consistency != d.consistency {
            o.check_frame_consistency(self.consistency);
        }
        if explicit || self.skip != d.skip {
            o.skip_frame_decoding(self.skip);
        }
        if explicit || self.end_code != d.end_code {
            o.check_lzw_end_code(self.end_code);
        }
    }
    pub fn any(t: &mut Tape) -> Self {
        Opt {
            rgba: t.bool(),
            limit: Some(match t.weighted(&[3, 1, 1]) {
                0 => 1 << 22,
                1 => t.range(1, 5000),
                _ => 1 << 16,
            }),
            consistency: t.chance(1, 4),
            skip: t.chance(1, 4),
            end_code: t.chance(1, 4),
            unknown: t.chance(1, 4),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrK {
    Format(String),
    Io(io::ErrorKind, String),
}

impl From<DecodingError> for ErrK {
    fn from(e: DecodingError) -> Self {
        match e {
            DecodingError::Format(f) => ErrK::Format(f.to_string()),
            DecodingError::Io(e) => ErrK::Io(e.kind(), e.to_string()),
        }
    }
}

impl ErrK {
    pub fn is_eof(&self) -> bool {
        matches!(self, ErrK::Io(io::ErrorKind::UnexpectedEof, _))
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct FrameOut {
    pub left: u16,
    pub top: u16,
    pub width: u16,
    pub height: u16,
    pub delay: u16,
    pub dispose: DisposalMethod,
    pub transparent: Option<u8>,
    pub user_input: bool,
    pub interlaced: bool,
    pub palette: Option<Vec<u8>>,
    pub buffer: Vec<u8>,
}

fn short(b: &[u8]) -> String {
    if b.len() <= 24 { format!("{b:?}") } else { format!("{:?}..({} bytes)", &b[..16], b.len()) }
}

impl std::fmt::Debug for FrameOut {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "Frame {{ {}x{} at {},{} delay {} {:?} transparent {:?} input {} interlaced {} palette {} buffer {} }}",
            self.width,
            self.height,
            self.left,
            self.top,
            self.delay,
            self.dispose,
            self.transparent,
            self.user_input,
            self.interlaced,
            self.palette.as_ref().map_or("none".into(), |p| short(p)),
            short(&self.buffer)
        )
    }
}

impl From<&Frame<'_>> for FrameOut {
    fn from(f: &Frame<'_>) -> Self {
        FrameOut {
            left: f.left,
            top: f.top,
            width: f.width,
            height: f.height,
            delay: f.delay,
            dispose: f.dispose,
            transparent: f.transparent,
            user_input: f.needs_user_input,
            interlaced: f.interlaced,
            palette: f.palette.clone(),
            buffer: f.buffer.to_vec(),
        }
    }
}

impl FrameOut {
    /// Everything but the pixels and the interlace flag
    pub fn same_meta(&self, o: &FrameOut) -> bool {
        (self.left, self.top, self.width, self.height, self.delay, self.dispose, self.transparent, self.user_input, &self.palette)
            == (o.left, o.top, o.width, o.height, o.delay, o.dispose, o.transparent, o.user_input, &o.palette)
    }
    pub fn meta_only(&self) -> FrameOut {
        FrameOut { buffer: Vec::new(), interlaced: false, palette: self.palette.clone(), ..*self }
    }
}

/// The frame a whole-frame read must return
pub fn expected(e: &ExpFrame, rgba: bool, gct: Option<&[u8]>) -> FrameOut {
    let idx = e.display();
    let pal = e.palette.as_deref().or(gct).unwrap_or(&[]);
    FrameOut { buffer: if rgba { expand(&idx, pal, e.transparent) } else { idx }, interlaced: false, ..expected_meta(e) }
}

/// The frame info
pub fn expected_meta(e: &ExpFrame) -> FrameOut {
    FrameOut {
        left: e.left,
        top: e.top,
        width: e.width,
        height: e.height,
        delay: e.delay,
        dispose: DisposalMethod::from_u8(e.dispose).unwrap_or(DisposalMethod::Any),
        transparent: e.transparent,
        user_input: e.user_input,
        interlaced: e.interlaced,
        palette: e.palette.clone(),
        buffer: Vec::new(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Header {
    pub width: u16,
    pub height: u16,
    pub gct: Option<Vec<u8>>,
    pub bg: Option<usize>,
    pub repeat: Repeat,
}

pub fn header<R: Read>(d: &Decoder<R>) -> Header {
    Header { width: d.width(), height: d.height(), gct: d.global_palette().map(<[u8]>::to_vec), bg: d.bg_color(), repeat: d.repeat() }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Clean,
    Err(ErrK),
    /// More frames than the caller allowed for
    TooMany,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    /// None if opening failed (the error is in `end`)
    pub header: Option<Header>,
    pub frames: Vec<FrameOut>,
    pub end: End,
}

impl Outcome {
    pub fn diff(&self, o: &Outcome) -> Option<String> {
        if self.header != o.header {
            return Some(format!("header {:?} vs {:?} (end {:?} vs {:?})", self.header, o.header, self.end, o.end));
        }
        if let Some(d) = diff_frames(&self.frames, &o.frames) {
            return Some(format!("{d} (end {:?} vs {:?})", self.end, o.end));
        }
        if self.end != o.end {
            return Some(format!("end {:?} vs {:?} after {} frames", self.end, o.end, self.frames.len()));
        }
        None
    }
}

pub fn diff_frames(a: &[FrameOut], b: &[FrameOut]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if let Some(d) = diff_frame(x, y) {
            return Some(format!("frame {i}: {d}"));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} frames vs {} frames", a.len(), b.len()));
    }
    None
}

pub fn diff_frame(x: &FrameOut, y: &FrameOut) -> Option<String> {
    if x == y {
        return None;
    }
    if x.same_meta(y) && x.interlaced == y.interlaced {
        if x.buffer.len() != y.buffer.len() {
            return Some(format!("buffer of {} vs {} bytes; {x:?} vs {y:?}", x.buffer.len(), y.buffer.len()));
        }
        let p = x.buffer.iter().zip(&y.buffer).position(|(a, b)| a != b).unwrap_or(0);
        return Some(format!("buffers differ at byte {p} of {}: {} vs {}; {x:?} vs {y:?}", x.buffer.len(), x.buffer[p], y.buffer[p]));
    }
    Some(format!("{x:?} vs {y:?}"))
}

/// Reads everything with whole-frame reads
pub fn decode_all<R: Read>(r: R, opt: &Opt) -> Outcome {
    decode_max(r, opt, 100_000)
}

pub fn decode_max<R: Read>(r: R, opt: &Opt, max: usize) -> Outcome {
    let opened = if *opt == Opt::default() { Decoder::new(r) } else { opt.build().read_info(r) };
    let mut d = match opened {
        Ok(d) => d,
        Err(e) => return Outcome { header: None, frames: Vec::new(), end: End::Err(e.into()) },
    };
    let h = header(&d);
    let mut frames = Vec::new();
    let end = loop {
        match d.read_next_frame() {
            Ok(Some(f)) => frames.push(FrameOut::from(f)),
            Ok(None) => break End::Clean,
            Err(e) => break End::Err(e.into()),
        }
        if frames.len() > max {
            break End::TooMany;
        }
    };
    Outcome { header: Some(h), frames, end }
}

/// Gives out at most `sizes[i]` bytes at the i-th read (cycling)
pub struct Chop<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub i: usize,
}

impl<'a> Chop<'a> {
    pub fn new(data: &'a [u8], sizes: Vec<usize>) -> Self {
        Chop { data, pos: 0, sizes, i: 0 }
    }
}

impl Read for Chop<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = if self.sizes.is_empty() { usize::MAX } else { self.sizes[self.i % self.sizes.len()].max(1) };
        self.i += 1;
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Read sizes: small mixes most of the time
pub fn chop_sizes(t: &mut Tape) -> Vec<usize> {
    match t.weighted(&[2, 4, 2, 1]) {
        0 => vec![1],
        1 => {
            let n = t.urange(1, 8);
            (0..n).map(|_| t.urange(1, 12)).collect()
        }
        2 => {
            let n = t.urange(1, 5);
            (0..n).map(|_| t.urange(1, 300)).collect()
        }
        _ => vec![t.urange(1, 8192)],
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if b.len() > 400 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !$c {
            return Err(format!($($arg)+));
        }
    };
}
