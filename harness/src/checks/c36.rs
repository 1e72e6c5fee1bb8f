//! Public conversions: labels, settings, errors.
use crate::engine::{Case, Check, Res};
use crate::ensure;
use gif::streaming_decoder::Block;
use gif::{AnyExtension, DecodingError, DecodingFormatError, DisposalMethod, Encoder, EncodingError, EncodingFormatError, Extension, ExtensionData, Frame, Repeat};
use std::borrow::Cow;
use std::error::Error;
use std::io;

pub const CHECK: Check = Check {
    id: "C36",
    run,
    quick: 400_000,
    thorough: 12_000_000,
    rule: "a byte converted to a block kind, an extension kind and a disposal method and back; control settings packed by the constructor of extension data, written, and read back by the format's rules; errors of all kinds built from I/O errors (plain, with a message, with a payload, from the system) and refusals of the encoder, with their messages and sources; clones of frames changed independently; non-trivial: a byte with a meaning, settings other than the default, or an error",
    level: "exploration",
    assumptions: &["labels and bit positions as in the GIF89a specification"],
};

fn run(c: &mut Case) -> Res {
    match c.t.weighted(&[2, 3, 3, 2]) {
        0 => labels(c),
        1 => control(c),
        2 => errors(c),
        _ => clones(c),
    }
}

fn labels(c: &mut Case) -> Res {
    let n = if c.t.bool() { c.t.pick(&[0u8, 1, 2, 3, 4, 0x2C, 0x21, 0x3B, 0xF9, 0xFE, 0xFF]) } else { c.t.urange(0, 255) as u8 };
    c.describe(|| format!("byte {n:#x}"));
    c.label(true, "labels");
    let block = match n {
        0x2C => Some(Block::Image),
        0x21 => Some(Block::Extension),
        0x3B => Some(Block::Trailer),
        _ => None,
    };
    let ext = match n {
        0x01 => Some(Extension::Text),
        0xF9 => Some(Extension::Control),
        0xFE => Some(Extension::Comment),
        0xFF => Some(Extension::Application),
        _ => None,
    };
    let dispose = match n {
        0 => Some(DisposalMethod::Any),
        1 => Some(DisposalMethod::Keep),
        2 => Some(DisposalMethod::Background),
        3 => Some(DisposalMethod::Previous),
        _ => None,
    };
    c.nontrivial(block.is_some() || ext.is_some() || dispose.is_some());
    ensure!(Block::from_u8(n) == block, "block {n:#x} is {:?}", Block::from_u8(n));
    ensure!(Extension::from_u8(n) == ext, "extension {n:#x} is {:?}", Extension::from_u8(n));
    ensure!(AnyExtension(n).into_known() == ext, "label {n:#x} is {:?}", AnyExtension(n).into_known());
    ensure!(DisposalMethod::from_u8(n) == dispose, "disposal {n:#x} is {:?}", DisposalMethod::from_u8(n));
    ensure!(block.map_or(true, |b| b as u8 == n) && ext.map_or(true, |e| e as u8 == n && AnyExtension::from(e) == AnyExtension(n)) && dispose.map_or(true, |d| d as u8 == n), "{n:#x} converts to another byte");
    Ok(())
}

fn control(c: &mut Case) -> Res {
    c.label(true, "settings");
    let (delay, dispose, input) = (c.t.u16b(), crate::enc::dispose(&mut c.t), c.t.bool());
    let trns = c.t.bool().then(|| c.t.urange(0, 255) as u8);
    let text = format!("delay {delay}, {dispose:?}, input {input}, transparent {trns:?}");
    c.describe(|| text.clone());
    c.nontrivial(delay != 0 || input || trns.is_some() || dispose != DisposalMethod::Keep);
    let flags = (dispose as u8) << 2 | u8::from(input) << 1 | u8::from(trns.is_some());
    let e = ExtensionData::new_control_ext(delay, dispose, input, trns);
    match e {
        // without transparency, the index means nothing
        ExtensionData::Control { flags: f, delay: d, trns: t } => ensure!(f == flags && d == delay && trns.map_or(true, |x| x == t), "{text} packed as flags {f:#x}, delay {d}, transparent {t}"),
        _ => return Err(format!("{text} gives something else")),
    }
    let mut enc = Encoder::new(Vec::new(), 1, 1, &[]).map_err(|e| e.to_string())?;
    let at = enc.get_ref().len();
    enc.write_extension(e).map_err(|e| e.to_string())?;
    let b = enc.get_ref()[at..].to_vec();
    let [lo, hi] = delay.to_le_bytes();
    ensure!(b.len() == 8 && b[..6] == [0x21, 0xF9, 4, flags, lo, hi] && b[7] == 0 && trns.map_or(true, |x| x == b[6]), "{text} written as {b:?}");
    // and the raw form is written as it is
    let (f, d, t) = (c.t.urange(0, 255) as u8, c.t.u16b(), c.t.urange(0, 255) as u8);
    let at = enc.get_ref().len();
    enc.write_extension(ExtensionData::Control { flags: f, delay: d, trns: t }).map_err(|e| e.to_string())?;
    let [lo, hi] = d.to_le_bytes();
    let b = &enc.get_ref()[at..];
    ensure!(*b == [0x21, 0xF9, 4, f, lo, hi, t, 0], "flags {f:#x}, delay {d}, transparent {t} written as {b:?}");
    ensure!(Repeat::default() == Repeat::Finite(0), "the default is {:?}", Repeat::default());
    Ok(())
}

#[derive(Debug)]
struct Payload(u64);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "payload {}", self.0)
    }
}
impl Error for Payload {}

fn errors(c: &mut Case) -> Res {
    c.nontrivial(true);
    c.label(true, "errors");
    let kind = super::c16::kind(&mut c.t);
    let which = c.t.weighted(&[2, 2, 2, 1]);
    let id = c.t.urange(0, 1000) as u64;
    let code = c.t.urange(1, 40) as i32;
    let make = || match which {
        0 => io::Error::from(kind),
        1 => io::Error::new(kind, format!("message {id}")),
        2 => io::Error::new(kind, Payload(id)),
        _ => io::Error::from_raw_os_error(code),
    };
    let orig = make();
    let text = format!("{orig:?}");
    c.describe(|| text.clone());
    let same = |e: &io::Error| -> bool {
        e.kind() == orig.kind() && e.to_string() == orig.to_string() && e.raw_os_error() == orig.raw_os_error() && e.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map(|p| p.0) == (which == 2).then_some(id)
    };
    // by `?` and `into`
    let dec: DecodingError = make().into();
    ensure!(dec.to_string() == orig.to_string(), "{text} as a decoding error reads {:?}", dec.to_string());
    ensure!(dec.source().and_then(|s| s.downcast_ref::<io::Error>()).is_some_and(same), "{text} isn't the source of the decoding error");
    ensure!(matches!(&dec, DecodingError::Io(e) if same(e)), "{text} becomes {dec:?}");
    let enc: EncodingError = make().into();
    ensure!(enc.to_string() == orig.to_string(), "{text} as an encoding error reads {:?}", enc.to_string());
    ensure!(enc.source().and_then(|s| s.downcast_ref::<io::Error>()).is_some_and(same), "{text} isn't the source of the encoding error");
    ensure!(matches!(&enc, EncodingError::Io(e) if same(e)), "{text} becomes {enc:?}");
    ensure!(matches!(DecodingError::from(kind), DecodingError::Io(e) if e.kind() == kind), "{kind:?} isn't kept");
    // through trait objects, as applications do
    let boxed: Box<dyn Error + Send + Sync> = Box::new(DecodingError::from(make()));
    ensure!(boxed.downcast_ref::<DecodingError>().is_some(), "not a decoding error in a box");
    let wrapped = io::Error::new(io::ErrorKind::Other, boxed);
    ensure!(wrapped.to_string() == orig.to_string(), "{text} in an I/O error reads {:?}", wrapped.to_string());
    // the encoder's own
    let (a, b, d) = (EncodingFormatError::TooManyColors, EncodingFormatError::MissingColorPalette, EncodingFormatError::InvalidMinCodeSize);
    let texts = [a.to_string(), b.to_string(), d.to_string()];
    ensure!(texts.iter().all(|t| !t.is_empty()) && texts[0] != texts[1] && texts[1] != texts[2] && texts[0] != texts[2], "messages {texts:?}");
    for (e, t) in [a, b, d].into_iter().zip(&texts) {
        let name = format!("{e:?}");
        let e = EncodingError::from(e);
        ensure!(e.to_string() == *t && e.source().and_then(|s| s.downcast_ref::<EncodingFormatError>()).is_some_and(|s| format!("{s:?}") == name), "{name} becomes {e:?}, {e}");
    }
    // the decoder's own
    let bad: &[u8] = c.t.pick(&[&b"GIF88a\0\0\0\0\0\0\0\0\0"[..], b"GIF89a\x01\0\x01\0\0\0\0\x21\x02\0;", b"GIF89a\x01\0\x01\0\0\0\0\x77\0;", b"GIF89a\x01\0\x01\0\0\0\0\x21\xF9\x05\0\0\0\0\0\0\x2c"]);
    match gif::Decoder::new(bad) {
        Err(e @ DecodingError::Format(_)) => {
            let s = e.source().and_then(|s| s.downcast_ref::<DecodingFormatError>());
            let Some(s) = s else { return Err(format!("{e:?} has no source")) };
            ensure!(!e.to_string().is_empty() && s.to_string() == e.to_string() && s.source().is_some_and(|u| u.to_string() == e.to_string()), "{e:?} reads {e}, source {s}");
        }
        Err(e) => return Err(format!("{bad:?}: {e:?}")),
        Ok(mut d) => match d.next_frame_info() {
            Err(DecodingError::Format(_)) => {}
            r => return Err(format!("{bad:?}: {r:?}")),
        },
    }
    Ok(())
}

fn clones(c: &mut Case) -> Res {
    c.label(true, "clones");
    let h = crate::enc::EFrame { f: crate::util::FrameOut {
        left: c.t.u16b(),
        top: c.t.u16b(),
        width: 3,
        height: 2,
        delay: c.t.u16b(),
        dispose: crate::enc::dispose(&mut c.t),
        transparent: c.t.bool().then(|| c.t.urange(0, 255) as u8),
        user_input: c.t.bool(),
        interlaced: c.t.bool(),
        palette: c.t.bool().then(|| crate::enc::pal(&mut c.t)),
        buffer: c.t.bytes(6, 255),
    }, pre: false };
    c.describe(|| format!("{:?}", h.f));
    c.nontrivial(true);
    let bytes = h.f.buffer.clone();
    let mut a = h.frame();
    if c.t.bool() {
        a.buffer = Cow::Borrowed(&bytes);
    }
    let mut b = a.clone();
    let same = |x: &Frame<'_>, y: &crate::util::FrameOut| -> Res {
        match crate::util::diff_frame(&crate::util::FrameOut::from(x), y) {
            Some(d) => Err(format!("clone: {d}")),
            None => Ok(()),
        }
    };
    same(&a, &h.f)?;
    same(&b, &h.f)?;
    // compressing one of them leaves the other, and all other fields
    b.make_lzw_pre_encoded();
    same(&a, &h.f)?;
    let mut w = h.f.clone();
    w.buffer = b.buffer.to_vec();
    same(&b, &w)?;
    let m = *b.buffer.first().ok_or("no code size")?;
    let p = vref::lzw::decode(&b.buffer[1..], m, usize::MAX);
    ensure!(p.pixels == bytes, "{bytes:?} compressed as {:?}", b.buffer);
    Ok(())
}
