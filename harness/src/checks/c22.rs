//! The end of the file, and what is behind it.
use super::c16::{Fault, Faulty};
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::Decoder;
use std::io::Read;
use vref::gen::{self, Cfg};

pub const CHECK: Check = Check {
    id: "C22",
    run,
    quick: 1_200_000,
    thorough: 36_000_000,
    rule: "one to four generated files written one after another with arbitrary bytes behind them, read through short reads; each is decoded by a random mix of methods, asked repeatedly for frames after its end, and the recovered reader is used for the next one; iterators of truncated and damaged files and of failing readers are asked on after their error; non-trivial: more than one file, bytes behind the last, or an error",
    level: "exploration",
    assumptions: &[TRUSTED],
};

fn run(c: &mut Case) -> Res {
    if c.t.chance(1, 4) {
        return fused(c);
    }
    let n = c.t.weighted(&[4, 4, 2, 1]) + 1;
    let files: Vec<_> = (0..n)
        .map(|_| {
            let cfg = Cfg { max_px: 200, max_frames: 3, no_end: true, ..Cfg::default() };
            gen::file(&mut c.t, &cfg)
        })
        .collect();
    let tail = match c.t.weighted(&[1, 3, 2]) {
        0 => Vec::new(),
        1 => {
            let n = c.t.urange(1, 40);
            c.t.bytes(n, 255)
        }
        _ => c.t.pick(&[&[0u8][..], &[0x3B], &[0x3B, 0x3B], &[0x2C, 0, 0], &[0x21, 0xF9, 4, 0], b"GIF89a"]).to_vec(),
    };
    let mut bytes: Vec<u8> = files.iter().flat_map(|f| f.bytes()).collect();
    bytes.extend_from_slice(&tail);
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    let rgba = c.t.chance(1, 4);
    let opt = Opt::rgba(rgba);
    let text = format!("rgba {rgba}, reads {sizes:?}, {}, +{} bytes", files.iter().map(|f| f.summary()).collect::<Vec<_>>().join(" & "), tail.len());
    c.describe(|| text.clone());
    let show = || format!("{text}; bytes {}", hex(&bytes));
    c.nontrivial(n > 1 || !tail.is_empty());
    c.label(n > 1, "several files");
    c.label(!tail.is_empty(), "bytes behind the last trailer");
    let mut r: Box<dyn Read> = Box::new(Chop::new(&bytes, sizes));
    for (k, f) in files.iter().enumerate() {
        let exp = f.frames();
        let mut d: Decoder<Box<dyn Read>> = opt.build().read_info(r).map_err(|e| format!("can't open file {k}: {e}; {}", show()))?;
        let how = c.t.weighted(&[3, 3, 3]);
        if how == 2 {
            c.label(true, "iterator");
            let mut it = d.into_iter();
            for (i, e) in exp.iter().enumerate() {
                match it.next() {
                    Some(Ok(g)) => {
                        if let Some(d) = diff_frame(&FrameOut::from(&g), &expected(e, rgba, f.gct.as_deref())) {
                            return Err(format!("file {k}, frame {i}: {d}; {}", show()));
                        }
                    }
                    x => return Err(format!("file {k}, frame {i}: {x:?}; {}", show())),
                }
            }
            for j in 0..c.t.urange(1, 4) {
                let x = it.next();
                ensure!(x.is_none(), "file {k}: the iterator gives {x:?} at call {j} after the end; {}", show());
            }
            r = Box::new(it.into_inner());
            continue;
        }
        let mut i = 0;
        loop {
            let whole = how == 0 || c.t.bool();
            let g = if whole { d.read_next_frame() } else { d.next_frame_info() };
            let g = g.map_err(|e| format!("file {k}, frame {i}: {e}; {}", show()))?;
            let Some(g) = g else { break };
            ensure!(i < exp.len(), "file {k} has too many frames; {}", show());
            let w = if whole { expected(&exp[i], rgba, f.gct.as_deref()) } else { expected_meta(&exp[i]) };
            if let Some(d) = diff_frame(&FrameOut::from(g), &w) {
                return Err(format!("file {k}, frame {i}: {d}; {}", show()));
            }
            if !whole && c.t.bool() {
                // stop in the middle of the frame
                let m = 4 * c.t.urange(0, 30);
                let mut b = vec![0; m.min(d.buffer_size())];
                d.fill_buffer(&mut b).map_err(|e| format!("file {k}, frame {i}: fill_buffer: {e}; {}", show()))?;
            }
            i += 1;
        }
        ensure!(i == exp.len(), "file {k} has {i} frames instead of {}; {}", exp.len(), show());
        for j in 0..c.t.urange(0, 5) {
            let which = c.t.bool();
            let x = if which { d.read_next_frame() } else { d.next_frame_info() };
            match x {
                Ok(None) => {}
                x => return Err(format!("file {k}: call {j} after the end gives {x:?}; {}", show())),
            }
        }
        if c.t.chance(1, 4) {
            let mut it = d.into_iter();
            let x = it.next();
            ensure!(x.is_none(), "file {k}: an iterator made after the end gives {x:?}; {}", show());
            r = Box::new(it.into_inner());
        } else {
            r = Box::new(d.into_inner());
        }
    }
    let mut rest = Vec::new();
    r.read_to_end(&mut rest).map_err(|e| format!("rest: {e}"))?;
    ensure!(rest == tail, "the reader has {} left instead of {}; {}", hex(&rest), hex(&tail), show());
    Ok(())
}

/// After an error
fn fused(c: &mut Case) -> Res {
    let (bytes, kind) = crate::wild::bytes(&mut c.t);
    let opt = Opt::any(&mut c.t);
    let sizes = chop_sizes(&mut c.t);
    c.label(true, kind);
    // errors of the reader, after which it could go on
    let faults: Vec<Fault> = if c.t.chance(1, 3) {
        (0..c.t.urange(1, 3)).map(|_| Fault::Once(c.t.urange(0, bytes.len()), super::c16::kind(&mut c.t), "fault".into())).collect()
    } else {
        Vec::new()
    };
    let what = format!("{kind}, {opt:?}, reads {sizes:?}, {faults:?}, file {}", hex(&bytes));
    c.describe(|| what.clone());
    c.label(!faults.is_empty(), "reader faults");
    let r = Faulty { inner: Chop::new(&bytes, sizes), faults, interrupts: 0, n: 0, hits: 0 };
    let Ok(d) = opt.build().read_info(r) else { return Ok(()) };
    let mut it = d.into_iter();
    let mut n = 0;
    let error = loop {
        match it.next() {
            Some(Ok(_)) => {
                n += 1;
                ensure!(n < 4096, "too many frames");
            }
            Some(Err(_)) => break true,
            None => break false,
        }
    };
    c.nontrivial(error);
    c.label(error, "error");
    for i in 0..3 {
        let x = it.next();
        ensure!(x.is_none(), "the iterator gives {x:?} at call {i} after {}; {what}", if error { "an error" } else { "the end" });
    }
    Ok(())
}
