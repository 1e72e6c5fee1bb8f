//! Independence of chunking.
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::stream::{stream, Ev, Sched, StreamEnd, StreamOut};
use crate::util::*;
use crate::wild;

pub const CHECK: Check = Check {
    id: "C06",
    run,
    quick: 1_600_000,
    thorough: 48_000_000,
    rule: "valid, truncated, mutated and arbitrary bytes are decoded twice, from one piece and through a reader with random read sizes, under random options; and fed to the streaming decoder in two different schedules of input pieces and output sizes; non-trivial: the file opens",
    level: "exploration",
    assumptions: &["where a frame ends in an error, how many of its pixels were handed out before is not compared"],
};

pub fn sched(c: &mut Case) -> Sched {
    let t = &mut c.t;
    let input = if t.chance(1, 4) { Vec::new() } else { chop_sizes(t) };
    let output = match t.weighted(&[2, 3, 2]) {
        0 => vec![65536],
        1 => {
            let n = t.urange(1, 5);
            (0..n).map(|_| t.urange(1, 20)).collect()
        }
        _ => vec![t.urange(1, 600)],
    };
    Sched { input, output, discard: Vec::new() }
}

fn run(c: &mut Case) -> Res {
    let (bytes, kind) = wild::bytes(&mut c.t);
    c.label(true, kind);
    let opt = Opt::any(&mut c.t);
    let sizes = chop_sizes(&mut c.t);
    c.describe(|| format!("{kind} {}B, {opt:?}, reads {sizes:?}: {}", bytes.len(), hex(&bytes)));
    let show = || format!("{opt:?}, reads {sizes:?}, file {}", hex(&bytes));
    let a = decode_all(&bytes[..], &opt);
    let b = decode_all(Chop::new(&bytes, sizes.clone()), &opt);
    c.nontrivial(a.header.is_some());
    c.label(!a.frames.is_empty(), "frames");
    c.label(!a.frames.is_empty() && a.end != End::Clean, "frames, then an error");
    if let Some(d) = a.diff(&b) {
        return Err(format!("one piece vs chunks: {d}; {}", show()));
    }
    // streaming
    let (s1, s2) = (sched(c), sched(c));
    let show = || format!("{s1:?} vs {s2:?}, file {}", hex(&bytes));
    let x = stream(&bytes, &s1).map_err(|e| format!("{e}; {}", show()))?.normalized();
    let y = stream(&bytes, &s2).map_err(|e| format!("{e}; {}", show()))?.normalized();
    // Where the input runs out inside of image data, the last codes may not have been looked at yet
    let undecided = |s: &StreamOut| s.end == StreamEnd::Starved && matches!(s.evs.last(), Some(Ev::Meta(..)));
    let free = undecided(&x) || undecided(&y);
    ensure!(x.end == y.end || free, "streaming ends with {:?} vs {:?}; {}", x.end, y.end, show());
    if let Some(i) = (0..x.evs.len().max(y.evs.len())).find(|&i| x.evs.get(i) != y.evs.get(i)) {
        return Err(format!("streaming event {i}: {:?} vs {:?}; {}", x.evs.get(i), y.evs.get(i), show()));
    }
    ensure!(x == y || free, "streaming: {} bytes consumed vs {}; {}", x.consumed, y.consumed, show());
    Ok(())
}
