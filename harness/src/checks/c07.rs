//! Reading methods against each other.
use super::*;
use crate::engine::{Case, Check, Res};
use crate::ensure;
use crate::util::*;
use vref::gen::{self, Cfg};
use vref::spec::expand;

pub const CHECK: Check = Check {
    id: "C07",
    run,
    quick: 1_120_000,
    thorough: 33_600_000,
    rule: "generated files read frame by frame with randomly chosen methods (whole, into a buffer of exact or larger size, into one that is too small, partial fills of random sizes including empty and oversized ones) and by the iterator, plain and through its adaptors; non-trivial: at least one frame with pixels not read as a whole",
    level: "exploration",
    assumptions: &[TRUSTED, "files without pixels beyond width*height, so that a fill beyond the last pixel must report false"],
};

fn run(c: &mut Case) -> Res {
    let cfg = Cfg { max_px: super::c03::max_px(c), extra_data: false, giant: true, ..Cfg::default() };
    let f = gen::file(&mut c.t, &cfg);
    let bytes = f.bytes();
    let rgba = c.t.bool();
    let opt = Opt::rgba(rgba);
    let sizes = if c.t.bool() { Vec::new() } else { chop_sizes(&mut c.t) };
    c.describe(|| format!("rgba {rgba}, {}", f.summary()));
    let show = || format!("rgba {rgba}, reads {sizes:?}, {}; file {}", f.summary(), hex(&bytes));
    let exp = f.frames();
    // the iterator
    let d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", show()))?;
    let mut it = d.into_iter();
    for (i, e) in exp.iter().enumerate() {
        let want = expected(e, rgba, f.gct.as_deref());
        match it.next() {
            Some(Ok(g)) => {
                if let Some(d) = diff_frame(&FrameOut::from(&g), &want) {
                    return Err(format!("frame {i} of the iterator vs expected: {d}; {}", show()));
                }
            }
            x => return Err(format!("frame {i} of the iterator is {x:?}; {}", show())),
        }
    }
    let l = it.next();
    ensure!(l.is_none(), "iterator doesn't end: {l:?}; {}", show());
    if c.t.chance(1, 4) {
        adaptors(c, &exp, &f, &bytes, &opt, &sizes).map_err(|e| format!("{e}; {}", show()))?;
    }
    // other methods
    let mut d = opt.build().read_info(Chop::new(&bytes, sizes.clone())).map_err(|e| format!("{e}; {}", show()))?;
    let bpp = if rgba { 4 } else { 1 };
    for (i, e) in exp.iter().enumerate() {
        let want = expected(e, rgba, f.gct.as_deref());
        let how = c.t.weighted(&[2, 3, 1, 6]);
        if how == 0 {
            match d.read_next_frame() {
                Ok(Some(g)) => {
                    if let Some(d) = diff_frame(&FrameOut::from(g), &want) {
                        return Err(format!("frame {i} whole vs expected: {d}; {}", show()));
                    }
                }
                x => return Err(format!("frame {i} is {x:?}; {}", show())),
            }
            continue;
        }
        match d.next_frame_info() {
            Ok(Some(g)) => ensure!(FrameOut::from(g) == expected_meta(e), "frame {i}: info {:?}; {}", FrameOut::from(g), show()),
            x => return Err(format!("frame {i}: info {x:?}; {}", show())),
        }
        let size = want.buffer.len();
        ensure!(d.buffer_size() == size, "frame {i}: buffer_size {} instead of {size}; {}", d.buffer_size(), show());
        ensure!(d.line_length() == usize::from(e.width) * bpp, "frame {i}: line_length {}; {}", d.line_length(), show());
        c.nontrivial(size > 0);
        let wild = |idx: &[u8], p: usize| {
            // indices outside of the palette are left alone in RGBA mode
            let pal = e.palette.as_deref().or(f.gct.as_deref()).unwrap_or(&[]);
            rgba && usize::from(idx[p / 4]) * 3 + 3 > pal.len()
        };
        match how {
            1 => {
                let extra = if c.t.bool() { 0 } else { c.t.urange(1, 100) };
                c.label(extra > 0, "buffer larger than needed");
                let s = c.t.byte();
                let mut buf = vec![s; size + extra];
                d.read_into_buffer(&mut buf).map_err(|e| format!("frame {i}: read_into_buffer with {extra} extra bytes: {e}; {}", show()))?;
                let idx = e.display();
                if let Some(p) = (0..size).find(|&p| buf[p] != want.buffer[p] && !(wild(&idx, p) && buf[p] == s)) {
                    return Err(format!("frame {i}: read_into_buffer: byte {p} of {size} is {} instead of {}; {}", buf[p], want.buffer[p], show()));
                }
                ensure!(buf[size..].iter().all(|&x| x == s), "frame {i}: read_into_buffer touched bytes beyond the frame; {}", show());
                if c.t.bool() {
                    // nothing is left
                    let mut one = [s; 4];
                    match d.fill_buffer(&mut one[..bpp]) {
                        Ok(false) => {}
                        x => return Err(format!("frame {i}: fill_buffer after read_into_buffer: {x:?}; {}", show())),
                    }
                    c.label(true, "fill after everything was read");
                }
            }
            2 => {
                if size == 0 {
                    continue;
                }
                let n = c.t.below(size as u64) as usize;
                let mut buf = vec![0xA5; size + 8];
                ensure!(d.read_into_buffer(&mut buf[..n]).is_err(), "frame {i}: read_into_buffer accepts {n} of {size} bytes; {}", show());
                ensure!(buf[n..].iter().all(|&x| x == 0xA5), "wrote past the buffer");
                c.label(true, "buffer too small");
                return Ok(());
            }
            _ => {
                let idx = &e.stored;
                let stored = if rgba { expand(idx, e.palette.as_deref().or(f.gct.as_deref()).unwrap_or(&[]), e.transparent) } else { idx.clone() };
                let mut p = 0;
                let big = c.t.chance(1, 3);
                let mut n_fills = 0;
                loop {
                    let mut n = bpp * if big { c.t.urange(0, 2 * size / bpp + 2) } else { c.t.urange(0, 40) };
                    if n_fills > 60 {
                        n = bpp * (size / bpp / 10 + 1);
                    }
                    n_fills += 1;
                    let s = c.t.byte();
                    let mut buf = vec![s; n];
                    let r = d.fill_buffer(&mut buf).map_err(|e| format!("frame {i}: fill_buffer of {n} at {p} of {size}: {e}; {}", show()))?;
                    ensure!(r == (n <= size - p), "frame {i}: fill_buffer of {n} at {p} of {size} gives {r}; {}", show());
                    let m = n.min(size - p);
                    if let Some(q) = (0..m).find(|&q| buf[q] != stored[p + q] && !(wild(idx, p + q) && buf[q] == s)) {
                        return Err(format!("frame {i}: fill_buffer: byte {} of {size} is {} instead of {}; {}", p + q, buf[q], stored[p + q], show()));
                    }
                    ensure!(buf[m..].iter().all(|&x| x == s), "frame {i}: fill_buffer touched bytes beyond the pixels it had; {}", show());
                    p += m;
                    c.label(n == 0, "empty fill");
                    c.label(!r, "fill past the end");
                    c.label(r && m > 0, "complete fill");
                    if !r || (p == size && c.t.bool()) {
                        break;
                    }
                }
            }
        }
    }
    let l = d.next_frame_info().map_err(|e| format!("at the end: {e}; {}", show()))?;
    ensure!(l.is_none(), "extra frame {l:?}");
    Ok(())
}

/// The methods iterators have besides `next`
fn adaptors(c: &mut Case, exp: &[vref::spec::ExpFrame], f: &vref::spec::FileSpec, bytes: &[u8], opt: &Opt, sizes: &[usize]) -> Res {
    let t = &mut c.t;
    let n = exp.len();
    let mut it = opt.build().read_info(Chop::new(bytes, sizes.to_vec())).map_err(|e| e.to_string())?.into_iter();
    // some are taken before
    let mut at = t.urange(0, n.min(2));
    for i in 0..at {
        ensure!(matches!(it.next(), Some(Ok(_))), "frame {i} of the iterator");
    }
    let hint = |h: (usize, Option<usize>), at: usize| -> Res {
        let (lo, hi) = h;
        ensure!(lo <= n - at && hi.map_or(true, |h| h >= n - at), "size hint {lo}, {hi:?} with {} frames left", n - at);
        Ok(())
    };
    hint(it.size_hint(), at)?;
    let same = |x: Option<Result<gif::Frame<'static>, gif::DecodingError>>, i: usize, what: &str| -> Res {
        match (x, exp.get(i)) {
            (Some(Ok(g)), Some(e)) => match diff_frame(&FrameOut::from(&g), &expected(e, opt.rgba, f.gct.as_deref())) {
                Some(d) => Err(format!("{what}, frame {i}: {d}")),
                None => Ok(()),
            },
            (None, None) => Ok(()),
            (x, _) => Err(format!("{what}, frame {i} of {n}: {x:?}")),
        }
    };
    match t.below(6) {
        0 => {
            let got = it.count();
            ensure!(got == n - at, "count gives {got} instead of {}", n - at);
        }
        1 => same(it.last(), if at < n { n - 1 } else { n }, "last")?,
        2 => {
            for _ in 0..3 {
                let k = t.urange(0, 2);
                same(it.nth(k), at + k, "nth")?;
                at = (at + k + 1).min(n);
                hint(it.size_hint(), at)?;
            }
        }
        3 => {
            let k = t.urange(1, 3);
            let mut i = at;
            for x in it.step_by(k) {
                same(Some(x), i, "step_by")?;
                i += k;
            }
            ensure!(i >= n, "step_by {k} ends before frame {i}");
        }
        4 => {
            let mut i = at;
            let r = it.fold(Ok(()), |r: Res, x| {
                let r = r.and_then(|()| same(Some(x), i, "fold"));
                i += 1;
                r
            });
            r?;
            ensure!(i == n, "fold ends before frame {i} of {n}");
        }
        _ => {
            let v: Vec<_> = it.by_ref().take(2).collect();
            for (k, x) in v.into_iter().enumerate() {
                same(Some(x), at + k, "collect")?;
            }
            at = (at + 2).min(n);
            same(it.next(), at, "after take")?;
        }
    }
    Ok(())
}
