//! Calls which are refused.
use crate::enc::{self, EFrame, Op};
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::Encoder;

pub const CHECK: Check = Check {
    id: "C18",
    run,
    quick: 2_250_000,
    thorough: 67_500_000,
    rule: "random encoder histories with unacceptable calls mixed in (buffer too small by 1 or more, palettes over 256 colors, no palette at all, bad code sizes, combinations); each must fail and write nothing, everything else must succeed, and the file must equal that of the history without them; non-trivial: at least one refused call",
    level: "exploration",
    assumptions: &["an over-long palette is one with 257 or more complete colors (771 bytes)"],
};

enum Call {
    Good(Op),
    /// The frame, written pre-encoded or not, and why it's bad
    Bad(FrameOut, bool, &'static str),
}

fn run(c: &mut Case) -> Res {
    let t = &mut c.t;
    let mut h = enc::hist(t, 4);
    let has = h.gpal.len() >= 3;
    if t.chance(1, 10) {
        // an over-long global palette
        let n = t.pick(&[771usize, 772, 774, 800, 1000, 5000]);
        let p = t.bytes(n, 255);
        let mut v = Vec::new();
        let r = Encoder::new(&mut v, h.width, h.height, &p).map(drop);
        ensure!(r.is_err(), "global palette of {n} bytes accepted");
        ensure!(v.is_empty(), "refused global palette of {n} bytes, but wrote {}", hex(&v));
        c.label(true, "global palette");
        c.nontrivial(true);
        let t = &mut c.t;
        if t.bool() {
            let n = t.pick(&[0usize, 3, 6, 768, 770]);
            h.gpal = t.bytes(n, 255);
        }
    }
    let has_now = h.gpal.len() >= 3;
    let t = &mut c.t;
    let mut calls: Vec<Call> = Vec::new();
    let good = std::mem::take(&mut h.ops);
    for op in good.into_iter().map(Some).chain([None]) {
        let n = t.weighted(&[3, 3, 1]);
        for _ in 0..n {
            let mut f: EFrame = enc::eframe(t, has_now, 200);
            f.f.buffer.truncate(f.px());
            let mut kind = t.weighted(&[4, 4, 3, 3]);
            if kind == 2 && has_now {
                kind = 0;
            }
            if kind == 0 && f.px() == 0 {
                f.f.width = 3;
                f.f.height = 1;
                f.f.buffer = vec![1, 2, 0];
            }
            let mut pre = f.pre;
            let why = match kind {
                0 => {
                    let k = if t.bool() { 1 } else { t.urange(1, f.px()) };
                    f.f.buffer.truncate(f.px() - k);
                    if t.chance(1, 6) {
                        (f.f.width, f.f.height) = (65535, 65535);
                    }
                    pre = false;
                    "buffer too small"
                }
                1 => {
                    let n = t.pick(&[771usize, 772, 773, 774, 1000, 3000]);
                    f.f.palette = Some(t.bytes(n, 255));
                    "too many colors"
                }
                2 => {
                    f.f.palette = None;
                    "no palette"
                }
                _ => {
                    let m = if t.bool() { t.pick(&[0u8, 1, 12, 13, 255]) } else { t.range(12, 255) as u8 };
                    f.f.buffer.insert(0, m);
                    calls.push(Call::Bad(f.f.clone(), true, "bad code size"));
                    continue;
                }
            };
            if pre {
                let mut x = EFrame { pre: false, ..f.clone() }.frame();
                x.make_lzw_pre_encoded();
                f.f.buffer = x.buffer.to_vec();
            }
            calls.push(Call::Bad(f.f, pre, why));
        }
        if let Some(op) = op {
            // acceptable ones at the limits
            let op = match op {
                Op::Frame(mut f) if t.chance(1, 6) => {
                    let n = t.pick(&[768usize, 769, 770, 767, 0, 1, 2, 3]);
                    f.f.palette = Some(t.bytes(n, 255));
                    Op::Frame(f)
                }
                o => o,
            };
            h.ops.push(op.clone());
            calls.push(Call::Good(op));
        }
    }
    // the history may rely on a global palette that was replaced
    if has && !has_now {
        for x in &mut calls {
            if let Call::Good(Op::Frame(f)) = x {
                f.f.palette.get_or_insert_with(Vec::new);
            }
        }
        for o in &mut h.ops {
            if let Op::Frame(f) = o {
                f.f.palette.get_or_insert_with(Vec::new);
            }
        }
    }
    let bads = calls.iter().filter(|x| matches!(x, Call::Bad(..))).count();
    c.nontrivial(bads > 0);
    let desc = |calls: &Vec<Call>| {
        calls
            .iter()
            .map(|x| match x {
                Call::Good(o) => enc::show_op(o),
                Call::Bad(f, pre, why) => format!("BAD ({why}) {}{f:?}", if *pre { "pre-encoded " } else { "" }),
            })
            .collect::<Vec<_>>()
            .join("; ")
    };
    c.describe(|| format!("gpal {}B: {}", h.gpal.len(), desc(&calls)));
    let show = || format!("gpal {}B: {}", h.gpal.len(), desc(&calls));
    let want = enc::run(&h)?;
    let mut e = Encoder::new(Vec::new(), h.width, h.height, &h.gpal).map_err(|e| format!("Encoder::new: {e}; {}", show()))?;
    for (i, x) in calls.iter().enumerate() {
        let before = e.get_ref().len();
        match x {
            Call::Good(op) => enc::apply(&mut e, op).map_err(|x| format!("call {i} refused: {x}; {}", show()))?,
            Call::Bad(f, pre, why) => {
                let fr = EFrame { f: f.clone(), pre: false }.frame();
                let r = if *pre { e.write_lzw_pre_encoded_frame(&fr) } else { e.write_frame(&fr) };
                c.label(true, why);
                ensure!(r.is_err(), "call {i} ({why}) accepted; {}", show());
                ensure!(e.get_ref().len() == before, "call {i} ({why}) wrote {}; {}", hex(&e.get_ref()[before..]), show());
            }
        }
    }
    let got = e.into_inner().map_err(|e| format!("into_inner: {e}; {}", show()))?;
    ensure!(got == want, "{} instead of {}; {}", hex(&got), hex(&want), show());
    Ok(())
}
