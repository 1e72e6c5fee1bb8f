//! What the encoder has written is complete after every call.
use super::*;
use crate::enc;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use gif::Encoder;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

pub const CHECK: Check = Check {
    id: "C29",
    run,
    quick: 480_000,
    thorough: 14_400_000,
    rule: "generated encoder histories into a writer that keeps what it got, through get_ref, get_mut, or shared from outside; after every call, what's there is decoded, and, with a trailer appended, decoded and compared with the file of a history ending there; non-trivial: a call after the first frame",
    level: "exploration",
    assumptions: &[TRUSTED],
};

#[derive(Clone, Default)]
struct Shared(Rc<RefCell<Vec<u8>>>);

impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn run(c: &mut Case) -> Res {
    let h = enc::hist(&mut c.t, 8);
    let w = Shared::default();
    let look = c.t.below(3);
    let mut e = Encoder::new(w.clone(), h.width, h.height, &h.gpal).map_err(|e| format!("Encoder::new failed: {e}"))?;
    let show = || enc::show(&h);
    c.describe(show);
    let all = enc::run(&h)?;
    let mut last = 0;
    let mut frames = 0;
    for k in 0..=h.ops.len() {
        if k > 0 {
            let op = &h.ops[k - 1];
            enc::apply(&mut e, op).map_err(|x| format!("call {} ({}) failed: {x}; {}", k - 1, enc::show_op(op), show()))?;
            c.nontrivial(frames > 0);
            frames += usize::from(matches!(op, enc::Op::Frame(_)));
        }
        let now = match look {
            0 => w.0.borrow().clone(),
            1 => e.get_ref().0.borrow().clone(),
            _ => e.get_mut().0.borrow().clone(),
        };
        ensure!(now.len() >= last, "call {k}: the output shrinks; {}", show());
        last = now.len();
        ensure!(all.starts_with(&now) && now.len() < all.len(), "after call {k}: {} isn't the beginning of the file {}; {}", hex(&now), hex(&all), show());
        let sub = enc::Hist { ops: h.ops[..k].to_vec(), gpal: h.gpal.clone(), ..h };
        let mut done = now.clone();
        done.push(0x3B);
        let direct = enc::run(&sub)?;
        ensure!(done == direct, "after call {k}: {} bytes are there, a file finished here has {} before the trailer; {}", now.len(), direct.len() - 1, show());
        if k > 0 && k < h.ops.len() && !matches!(h.ops[k - 1], enc::Op::Frame(_)) {
            continue;
        }
        // someone who reads along
        let opt = Opt { unknown: true, limit: None, ..Opt::default() };
        let want = enc::expected_frames(&sub);
        for (b, end) in [(&now, false), (&done, true)] {
            let out = decode_all(&b[..], &opt);
            if out.header.is_none() {
                // without any block, the decoder doesn't know yet that the header is complete
                ensure!(want.is_empty() && !end, "after call {k}: doesn't open: {:?}; {}", out.end, show());
                continue;
            }
            if let Some(d) = diff_frames(&out.frames, &want) {
                return Err(format!("after call {k}, trailer {end}: {d} (end {:?}); {}", out.end, show()));
            }
            let ok = if end { out.end == End::Clean } else { matches!(&out.end, End::Err(e) if e.is_eof()) };
            ensure!(ok, "after call {k}, trailer {end}: ends with {:?}; {}", out.end, show());
        }
        ensure!(now.len() == w.0.borrow().len(), "looking changes the output; {}", show());
    }
    c.label(look > 0, "through the encoder");
    c.label(frames > 1, "several frames");
    drop(e);
    ensure!(*w.0.borrow() == all, "dropping gives {} instead of {}; {}", hex(&w.0.borrow()), hex(&all), show());
    Ok(())
}
