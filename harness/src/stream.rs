//! Driving `StreamingDecoder` and recording what it reports.
use gif::streaming_decoder::{Block, Decoded, FrameDataType, OutputBuffer, StreamingDecoder};
use gif::{Repeat, Version};

use crate::util::{ErrK, FrameOut};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Bg(u8),
    Gct(Vec<u8>),
    Repeat(Repeat),
    HeaderEnd,
    Block(u8),
    /// label, length of the collected data, what `keep` leaves of it, block end flag
    Sub(u8, usize, Vec<u8>, bool),
    /// label, collected data, block end flag
    Fin(u8, Vec<u8>, bool),
    Meta(FrameOut, Option<u8>),
    /// Merged
    Pixels(Vec<u8>),
    /// Merged
    Lzw(usize),
    DataEnd,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum StreamEnd {
    Trailer,
    Starved,
    Err(ErrK),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StreamOut {
    pub evs: Vec<Ev>,
    /// Bytes consumed when the trailer was reported
    pub consumed: usize,
    pub end: StreamEnd,
    pub width: u16,
    pub height: u16,
    pub v89: bool,
}

impl StreamOut {
    /// Without the pixels of the frame an error interrupted: how many were given out before is up to the schedule
    pub fn normalized(mut self) -> Self {
        if matches!(self.end, StreamEnd::Err(_) | StreamEnd::Starved) {
            if let Some(Ev::Pixels(_)) = self.evs.last() {
                self.evs.pop();
            }
            self.consumed = 0;
        }
        self
    }
}

#[derive(Clone, Debug)]
pub struct Sched {
    /// Sizes of the pieces given to `update` (cycled); empty = everything
    pub input: Vec<usize>,
    /// Sizes of the output buffers (cycled)
    pub output: Vec<usize>,
    /// Frames whose data is discarded (by index, cycled)
    pub discard: Vec<bool>,
}

/// Damaged image data can give several hundred MB
const MAX_PIXELS: usize = 16 << 20;

/// Extension data before its end: all of it, or the last bytes, as there may be thousands of pieces
pub fn keep(data: &[u8]) -> Vec<u8> {
    if data.len() <= KEEP {
        return data.to_vec();
    }
    data[data.len() - 300..].to_vec()
}
const KEEP: usize = 8192;

/// Runs the decoder over `data`. Fails if the decoder misreports consumption or makes no progress.
pub fn stream(data: &[u8], s: &Sched) -> Result<StreamOut, String> {
    let mut d = StreamingDecoder::new();
    if d.version() != Version::V87a {
        return Err("version before the header has been read".into());
    }
    let mut evs: Vec<Ev> = Vec::new();
    let mut pos = 0;
    let mut piece = 0;
    let mut calls = 0usize;
    let mut idle = 0;
    let mut pixels = 0;
    let mut frame = 0usize;
    let mut out = vec![0u8; s.output.iter().copied().max().unwrap_or(1).max(1)];
    let mut end = StreamEnd::Starved;
    let mut consumed_at_end = 0;
    'outer: while pos < data.len() {
        let n = if s.input.is_empty() { usize::MAX } else { s.input[piece % s.input.len()].max(1) };
        piece += 1;
        let stop = pos.saturating_add(n).min(data.len());
        while pos < stop {
            let osize = s.output[calls % s.output.len()].max(1);
            calls += 1;
            let discard = !s.discard.is_empty() && frame > 0 && s.discard[(frame - 1) % s.discard.len()];
            let mut ob = if discard { OutputBuffer::None } else { OutputBuffer::Slice(&mut out[..osize]) };
            let r = d.update(&data[pos..stop], &mut ob);
            let (consumed, ev) = match r {
                Ok(v) => v,
                Err(e) => {
                    end = StreamEnd::Err(e.into());
                    break 'outer;
                }
            };
            if consumed > stop - pos {
                return Err(format!("update consumed {consumed} bytes of {} at offset {pos}", stop - pos));
            }
            if consumed == 0 && matches!(ev, Decoded::Nothing) {
                return Err(format!("update neither consumed input nor reported anything at offset {pos}"));
            }
            pos += consumed;
            if consumed == 0 && !matches!(ev, Decoded::BytesDecoded(_)) {
                idle += 1;
                if idle > 8 {
                    return Err(format!("no progress in {idle} updates at offset {pos}: {ev:?}"));
                }
            } else {
                idle = 0;
            }
            if end == StreamEnd::Trailer {
                if !matches!(ev, Decoded::Nothing) {
                    return Err(format!("event {ev:?} after the trailer"));
                }
                if pos != stop {
                    return Err(format!("consumed {consumed} bytes after the trailer, {} are left", stop - pos));
                }
                continue;
            }
            match ev {
                Decoded::Nothing => {}
                Decoded::GlobalPalette(p) => evs.push(Ev::Gct(p.to_vec())),
                Decoded::BackgroundColor(b) => evs.push(Ev::Bg(b)),
                Decoded::Repetitions(r) => evs.push(Ev::Repeat(r)),
                Decoded::HeaderEnd => evs.push(Ev::HeaderEnd),
                Decoded::BlockStart(Block::Trailer) => {
                    end = StreamEnd::Trailer;
                    consumed_at_end = pos;
                    evs.push(Ev::Block(Block::Trailer as u8));
                }
                Decoded::BlockStart(b) => evs.push(Ev::Block(b as u8)),
                Decoded::SubBlockFinished(l) => {
                    let (l2, data, e) = d.last_ext();
                    if l2 != l {
                        return Err(format!("last_ext has label {l2:?}, event has {l:?}"));
                    }
                    evs.push(Ev::Sub(l.0, data.len(), keep(data), e));
                }
                Decoded::BlockFinished(l) => {
                    let (l2, data, e) = d.last_ext();
                    if l2 != l {
                        return Err(format!("last_ext has label {l2:?}, event has {l:?}"));
                    }
                    evs.push(Ev::Fin(l.0, data.to_vec(), e));
                }
                Decoded::FrameMetadata(t) => {
                    frame += 1;
                    let f = FrameOut::from(d.current_frame());
                    evs.push(Ev::Meta(f, match t {
                        FrameDataType::Pixels => None,
                        FrameDataType::Lzw { min_code_size } => Some(min_code_size),
                    }));
                }
                Decoded::BytesDecoded(n) => {
                    let n = n.get();
                    if discard {
                        return Err("BytesDecoded without an output buffer".into());
                    }
                    if n > osize {
                        return Err(format!("{n} bytes decoded into a buffer of {osize}"));
                    }
                    let k = n.min(MAX_PIXELS - pixels);
                    pixels += k;
                    if let Some(Ev::Pixels(v)) = evs.last_mut() {
                        v.extend_from_slice(&out[..k]);
                    } else {
                        evs.push(Ev::Pixels(out[..k].to_vec()));
                    }
                    if k < n {
                        end = StreamEnd::Err(ErrK::Format("more pixels than the harness keeps".into()));
                        break 'outer;
                    }
                }
                Decoded::LzwDataCopied(n) => {
                    if let Some(Ev::Lzw(v)) = evs.last_mut() {
                        *v += n;
                    } else {
                        evs.push(Ev::Lzw(n));
                    }
                }
                Decoded::DataEnd => evs.push(Ev::DataEnd),
                e => return Err(format!("unknown event {e:?}")),
            }
        }
    }
    Ok(StreamOut { evs, consumed: consumed_at_end, end, width: d.width(), height: d.height(), v89: d.version() == Version::V89a })
}

/// Runs the decoder over `data` without keeping anything; gives the number of frames
pub fn stream_quiet(data: &[u8], s: &Sched) -> Result<usize, String> {
    let mut d = StreamingDecoder::new();
    let (mut pos, mut piece, mut calls, mut frame) = (0, 0, 0usize, 0usize);
    let mut out = [0u8; 1024];
    while pos < data.len() {
        let n = if s.input.is_empty() { usize::MAX } else { s.input[piece % s.input.len()].max(1) };
        piece += 1;
        let stop = pos.saturating_add(n).min(data.len());
        while pos < stop {
            let osize = s.output[calls % s.output.len()].clamp(1, out.len());
            calls += 1;
            let discard = !s.discard.is_empty() && frame > 0 && s.discard[(frame - 1) % s.discard.len()];
            let mut ob = if discard { OutputBuffer::None } else { OutputBuffer::Slice(&mut out[..osize]) };
            let (consumed, ev) = d.update(&data[pos..stop], &mut ob).map_err(|e| e.to_string())?;
            pos += consumed;
            match ev {
                Decoded::FrameMetadata(_) => frame += 1,
                Decoded::BlockStart(Block::Trailer) => return Ok(frame),
                _ => {}
            }
        }
    }
    Err("no trailer".into())
}
