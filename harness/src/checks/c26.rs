//! Decoding and encoding again.
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use crate::wild;
use gif::Encoder;
use vref::gen::{self, Cfg};

pub const CHECK: Check = Check {
    id: "C26",
    run,
    quick: 840_000,
    thorough: 25_200_000,
    rule: "decodable files (generated, or mutated ones which still decode) are decoded indexed or compressed, written to a new encoder with the same screen, palette and repeat setting, and decoded again; a second pass must give the same bytes; non-trivial: at least one frame",
    level: "exploration",
    assumptions: &["compressed frames with a code size of 1 (not allowed by the format) are left out", "a file without a global palette gets one of two black entries from the encoder"],
};

/// The file with its frames as decoded, and what it decodes to
fn transcode(bytes: &[u8], skip: bool, unknown: bool) -> Result<Option<(Vec<u8>, Outcome)>, String> {
    let opt = Opt { skip, unknown, ..Opt::default() };
    let Ok(mut d) = opt.build().read_info(bytes) else { return Ok(None) };
    let h = header(&d);
    let mut e = Encoder::new(Vec::new(), h.width, h.height, h.gct.as_deref().unwrap_or(&[])).map_err(|e| format!("Encoder::new: {e}"))?;
    e.set_repeat(h.repeat).map_err(|e| format!("set_repeat: {e}"))?;
    let mut frames = Vec::new();
    loop {
        match d.read_next_frame() {
            Ok(Some(f)) => {
                frames.push(FrameOut::from(f));
                if skip && f.buffer[0] < 2 {
                    // decoded leniently, but not allowed by the format, and so not encoded
                    return Ok(None);
                }
                let r = if skip { e.write_lzw_pre_encoded_frame(f) } else { e.write_frame(f) };
                r.map_err(|x| format!("can't write frame {}: {x}; {:?}", frames.len() - 1, FrameOut::from(f)))?;
            }
            Ok(None) => break,
            Err(_) => return Ok(None),
        }
    }
    let v = e.into_inner().map_err(|e| format!("into_inner: {e}"))?;
    Ok(Some((v, Outcome { header: Some(h), frames, end: End::Clean })))
}

fn run(c: &mut Case) -> Res {
    let t = &mut c.t;
    let bytes = match t.weighted(&[5, 2, 1]) {
        0 => {
            let max_px = t.pick(&[100, 400, 400, 5000]);
            let cfg = Cfg { max_px, trailing: true, no_end: true, text_after_gce: true, ..Cfg::default() };
            gen::file(t, &cfg).bytes()
        }
        1 => {
            let cfg = Cfg { max_px: 100, no_end: true, ..Cfg::default() };
            let mut b = gen::file(t, &cfg).bytes();
            wild::mutate(t, &mut b);
            b
        }
        _ => wild::soup(t),
    };
    let skip = t.chance(1, 3);
    let unknown = t.chance(1, 4);
    let show = |m: &str, o: &[u8]| format!("{m}; compressed {skip}, unknown blocks {unknown}, file {}, encoded {}", hex(&bytes), hex(o));
    let Some((one, first)) = transcode(&bytes, skip, unknown).map_err(|e| show(&e, &[]))? else {
        c.label(true, "doesn't decode");
        return Ok(());
    };
    c.nontrivial(!first.frames.is_empty());
    c.label(skip, "compressed");
    c.label(first.frames.len() > 1, "several frames");
    c.describe(|| format!("compressed {skip}, {} frames, file {}", first.frames.len(), hex(&bytes)));
    // pixels of the two files
    let a = decode_all(&bytes[..], &Opt { unknown, ..Opt::default() });
    let b = decode_all(&one[..], &Opt::default());
    let same_repeat = |x: &Outcome, y: &Outcome| x.header.as_ref().map(|h| (h.width, h.height, h.repeat)) == y.header.as_ref().map(|h| (h.width, h.height, h.repeat));
    if a.end == End::Clean {
        if let Some(d) = diff_frames(&b.frames, &a.frames) {
            return Err(show(&format!("re-encoded vs original: {d} (end {:?})", b.end), &one));
        }
        ensure!(b.end == End::Clean, "{}", show(&format!("re-encoded file ends with {:?}", b.end), &one));
    }
    ensure!(same_repeat(&b, &a), "{}", show(&format!("header {:?} instead of {:?}", b.header, a.header), &one));
    let gct = a.header.as_ref().and_then(|h| h.gct.clone()).unwrap_or_else(|| vec![0; 6]);
    ensure!(b.header.as_ref().and_then(|h| h.gct.clone()) == Some(gct), "{}", show("global palette differs", &one));
    // the second pass
    let Some((two, second)) = transcode(&one, skip, false).map_err(|e| show(&e, &one))? else {
        return Err(show("the re-encoded file doesn't decode", &one));
    };
    ensure!(two == one, "{}", show(&format!("second pass gives {}", hex(&two)), &one));
    if let Some(d) = diff_frames(&second.frames, &first.frames) {
        return Err(show(&format!("second pass: {d}"), &one));
    }
    Ok(())
}
