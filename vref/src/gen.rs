//! Grammar-based generator of GIF files.
use crate::lzw::CodeWriter;
use crate::spec::*;
use crate::tape::{Rng, Tape};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_frames: usize,
    /// Soft bound on width*height
    pub max_px: usize,
    pub zero_dims: bool,
    /// Allow a missing end code
    pub no_end: bool,
    /// Codes which can't be decoded after the last pixel, if there's no end code
    pub bad_tail: bool,
    /// Pixels and bytes after the last pixel / end code
    pub extra_data: bool,
    pub unknown: bool,
    /// Extensions with labels unknown to the format
    pub unknown_ext: bool,
    /// Comments, text, application
    pub exts: bool,
    pub trailing: bool,
    pub interlace: bool,
    /// Indices outside of the palette
    pub wild_pixels: bool,
    /// 0 or more frames, or at least 1
    pub min_frames: usize,
    /// Code sizes 9..=11
    pub odd_mcs: bool,
    /// A palette is always available
    pub palette: bool,
    /// Legal variations of the code stream (otherwise the common form)
    pub lzw_styles: bool,
    /// text extensions between a control extension and its image leave its scope open to interpretation
    pub text_after_gce: bool,
    /// More than one control extension before an image
    pub multi_gce: bool,
    /// Rarely: frames of over 65535 pixels, extensions of over 65535 bytes, dozens of frames
    pub huge: bool,
    /// Very rarely: frames of millions of pixels (up to 48 MB as RGBA)
    pub giant: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_frames: 4,
            max_px: 400,
            zero_dims: true,
            no_end: false,
            bad_tail: false,
            extra_data: true,
            unknown: false,
            unknown_ext: false,
            exts: true,
            trailing: false,
            interlace: true,
            wild_pixels: true,
            min_frames: 0,
            odd_mcs: true,
            palette: true,
            lzw_styles: true,
            text_after_gce: false,
            multi_gce: true,
            huge: true,
            giant: false,
        }
    }
}

pub fn palette(t: &mut Tape) -> Vec<u8> {
    let k = t.weighted(&[3, 3, 2, 2, 1, 1, 1, 2]) as u32;
    palette_of(t, 2usize << k)
}

pub fn palette_of(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut p = if n <= 4 {
        t.bytes(n * 3, 255)
    } else {
        let s = t.seed();
        let mut r = Rng::new(s);
        (0..n * 3).map(|_| r.next() as u8).collect()
    };
    if t.chance(1, 6) {
        special_palette(t, &mut p);
    }
    p
}

/// Contents which invite shortcuts
pub fn special_palette(t: &mut Tape, p: &mut [u8]) {
    let n = p.len() / 3;
    match t.below(7) {
        0 => p.fill(0),
        // unused entries at the end
        1 => {
            let k = t.urange(0, n);
            p[k * 3..].fill(0);
        }
        2 => p.fill(255),
        // one color only
        3 => {
            for i in 3..p.len() {
                p[i] = p[i - 3];
            }
        }
        // grey
        4 => {
            for i in 0..p.len() {
                p[i] = (i / 3) as u8;
            }
        }
        // the second half is the first one again
        5 => {
            let h = n / 2 * 3;
            for i in h..(2 * h).min(p.len()) {
                p[i] = p[i - h];
            }
        }
        _ => {
            let k = t.urange(0, n);
            p[..k * 3].fill(0);
        }
    }
}

/// Over 2^20 pixels; the last ones have more than 65535 full sub-blocks if they can't be compressed
pub fn giant_dims(t: &mut Tape) -> (u16, u16) {
    t.pick(&[(1025u16, 1024u16), (65535, 17), (17, 65535), (1449, 1449), (2049, 2048), (65, 65535), (3499, 3400), (3400, 3499)])
}

/// Sizes with the shapes that matter: tiny, one row/column, around powers of two, larger
pub fn dims(t: &mut Tape, max_px: usize, zero: bool) -> (u16, u16) {
    let m = max_px.max(1);
    let (w, h) = match t.weighted(&[6, 4, 2, 2, 3, if zero { 1 } else { 0 }]) {
        0 => (t.urange(1, 6), t.urange(1, 6)),
        1 => (t.urange(1, 20), t.urange(1, 20)),
        2 => (t.urange(1, m.min(400)), 1),
        3 => (1, t.urange(1, m.min(400))),
        4 => {
            if t.chance(1, 3) {
                // any magnitude
                let bits = usize::BITS - m.min(65535).leading_zeros();
                let top = 1usize << t.urange(0, bits as usize);
                let w = t.urange(1, top.min(m).min(65535));
                let h = t.urange(1, (m / w).clamp(1, 65535));
                if t.bool() { (w, h) } else { (h, w) }
            } else {
                let w = t.urange(1, m.min(300));
                (w, t.urange(1, (m / w).max(1)))
            }
        }
        _ => {
            let o = t.urange(0, 9);
            if t.bool() { (0, o) } else { (o, 0) }
        }
    };
    let h = if w * h > m { (m / w).max(1) } else { h };
    let w = if w * h > m { m / h.max(1) } else { w };
    (w as u16, h as u16)
}

pub struct LzwOut {
    pub data: Vec<u8>,
    pub has_end: bool,
    pub bits_needed: usize,
}

/// A legal code stream for `pixels` followed by `extra` pixels
pub fn lzw_stream(t: &mut Tape, pixels: &[u8], mcs: u8, cfg: &Cfg) -> LzwOut {
    let mut w = CodeWriter::new(mcs);
    let style = if cfg.lzw_styles { t.weighted(&[6, 2, 2, 4, 2, 2, 1]) } else { 0 };
    let extra: Vec<u8> = if cfg.extra_data && t.chance(1, 6) {
        let n = t.urange(1, 300);
        let max = if mcs >= 8 { 255 } else { (1u16 << mcs) as u8 - 1 };
        t.bytes(n, max)
    } else {
        Vec::new()
    };
    let s = if style == 0 { 0 } else { t.seed() };
    let mut r = Rng::new(s);
    // parameters by style
    let initial = !matches!(style, 4);
    let deferred = matches!(style, 1) || (style == 3 && r.below(3) == 0);
    let max_len = match style {
        2 => 1,
        3 => [1usize, 2, 3, 5000][r.below(4) as usize],
        _ => 5000,
    };
    let clear_p = match style {
        2 => 5,
        3 => r.below(30),
        5 => 25,
        _ => 0,
    };
    let double = matches!(style, 3 | 5) && r.below(2) == 0;
    // decoders set up their table at each of them
    let (clear_p, double) = if pixels.len() > 1_000_000 { (clear_p.min(1), false) } else { (clear_p, double) };
    if initial {
        w.emit_clear();
        if matches!(style, 5 | 6) {
            for _ in 0..1 + r.below(if style == 6 { 40 } else { 3 }) {
                w.emit_clear();
            }
        }
    }
    // `bits_needed`: after the code that completes `pixels`
    let all: Vec<u8> = pixels.iter().chain(extra.iter()).copied().collect();
    let mut i = 0;
    let mut bits_needed = if pixels.is_empty() { Some(0) } else { None };
    while i < all.len() {
        if w.full() && !deferred {
            w.emit_clear();
        } else if clear_p > 0 && r.below(100) < clear_p {
            w.emit_clear();
            if double {
                for _ in 0..r.below(12) {
                    w.emit_clear();
                }
            }
        }
        let ml = if style == 3 && max_len > 1 && r.below(3) == 0 { 1 + r.below(6) as usize } else { max_len };
        let kw = style != 3 || r.below(4) > 0;
        i += w.emit_match(&all[i..], ml, kw);
        if i >= pixels.len() && bits_needed.is_none() {
            bits_needed = Some(w.bits.bit_len());
        }
    }
    if matches!(style, 5 | 6) && r.below(2) == 0 {
        for _ in 0..r.below(10) {
            w.emit_clear();
        }
    }
    let has_end = !(cfg.no_end && t.chance(1, 4));
    if has_end {
        w.emit_end();
    } else if cfg.bad_tail && t.chance(1, 3) {
        let x = t.below(256);
        w.emit_invalid(x);
        for _ in 0..t.below(8) {
            let x = t.below(256);
            w.emit_invalid(x);
        }
    }
    let pad = if has_end && cfg.extra_data && style == 3 { r.next() as u8 } else { 0 };
    let mut data = w.bits.finish(pad);
    if has_end && cfg.extra_data && t.chance(1, 10) {
        let n = t.urange(1, 20);
        let x = t.bytes(n, 255);
        data.extend_from_slice(&x);
    }
    LzwOut { data, has_end, bits_needed: bits_needed.unwrap_or(0) }
}

pub fn splits(t: &mut Tape, len: usize) -> Vec<u8> {
    match t.weighted(&[4, 2, 2, 2]) {
        0 => Vec::new(),
        1 => vec![1; len],
        2 => {
            let k = t.range(1, 255) as u8;
            vec![k; len / usize::from(k) + 1]
        }
        _ => {
            let s = t.seed();
            let mut r = Rng::new(s);
            let big = r.below(2) == 0;
            let mut v = Vec::new();
            let mut left = len;
            while left > 0 {
                let n = (1 + r.below(if big { 255 } else { 4 })) as usize;
                v.push(n as u8);
                left = left.saturating_sub(n);
            }
            v
        }
    }
}

pub fn image(t: &mut Tape, gct: Option<usize>, cfg: &Cfg, screen: (u16, u16), pool: &[Vec<u8>]) -> ImageSpec {
    let all = usize::from(screen.0) * usize::from(screen.1);
    let (width, height) = if all > 0 && all <= cfg.max_px && t.chance(1, 4) {
        screen
    } else if cfg.giant && t.chance(1, 200_000) {
        giant_dims(t)
    } else if cfg.huge && t.chance(1, 3000) {
        t.pick(&[(257, 256), (300, 220), (1, 65535), (65535, 1), (2, 32769), (40000, 2)])
    } else {
        dims(t, cfg.max_px, cfg.zero_dims)
    };
    image_in(t, gct, cfg, screen, width, height, pool)
}

pub fn image_of(t: &mut Tape, gct: Option<usize>, cfg: &Cfg, screen: (u16, u16), width: u16, height: u16) -> ImageSpec {
    image_in(t, gct, cfg, screen, width, height, &[])
}

/// Some palettes are the same as earlier ones
fn image_in(t: &mut Tape, gct: Option<usize>, cfg: &Cfg, screen: (u16, u16), width: u16, height: u16, pool: &[Vec<u8>]) -> ImageSpec {
    let lct = if (gct.is_none() && cfg.palette) || t.chance(1, 3) {
        Some(if !pool.is_empty() && t.chance(1, 4) { pool[t.below(pool.len() as u64) as usize].clone() } else { palette(t) })
    } else {
        None
    };
    let ncol = lct.as_ref().map(|p| p.len() / 3).or(gct).unwrap_or(2);
    let (left, top) = match t.weighted(&[3, 3, 1]) {
        0 => (0, 0),
        1 => (t.below(u64::from(screen.0) + 1) as u16, t.below(u64::from(screen.1) + 1) as u16),
        _ => (t.u16b(), t.u16b()),
    };
    // pixel range and code size
    let need = (usize::BITS - (ncol - 1).leading_zeros()).max(2) as u8; // bits for all palette entries
    let mcs = match t.weighted(&[6, 2, 1]) {
        0 => need,
        1 => t.range(2, 8) as u8,
        _ => {
            if cfg.odd_mcs {
                t.range(9, 11) as u8
            } else {
                need
            }
        }
    };
    let top_index = if mcs >= 8 { 255 } else { (1u16 << mcs) as u8 - 1 };
    let max = if cfg.wild_pixels && t.chance(1, 5) { top_index } else { ((ncol - 1).min(255) as u8).min(top_index) };
    let px = usize::from(width) * usize::from(height);
    let stored = t.bytes(px, max);
    let l = lzw_stream(t, &stored, mcs, cfg);
    let splits = splits(t, l.data.len());
    ImageSpec {
        left,
        top,
        width,
        height,
        interlaced: cfg.interlace && t.chance(1, 3),
        extra_flags: if t.chance(1, 4) { t.byte() } else { 0 },
        lct,
        mcs,
        lzw: l.data,
        splits,
        stored,
        has_end: l.has_end,
        bits_needed: l.bits_needed,
    }
}

/// Now and then with a payload beyond 65535 bytes
pub fn big_sub_blocks(t: &mut Tape, cfg: &Cfg) -> Vec<Vec<u8>> {
    if cfg.huge && t.chance(1, 1500) {
        let s = t.seed();
        let mut r = Rng::new(s);
        let full = r.below(2) == 0;
        return (0..t.pick(&[3usize, 17, 256, 257, 300]))
            .map(|_| {
                let n = if full { 255 } else { 1 + r.below(255) };
                (0..n).map(|_| r.next() as u8).collect()
            })
            .collect();
    }
    sub_blocks(t)
}

pub fn sub_blocks(t: &mut Tape) -> Vec<Vec<u8>> {
    let n = t.weighted(&[2, 4, 2, 1]);
    (0..n)
        .map(|_| {
            let l = match t.weighted(&[5, 2, 1]) {
                0 => t.urange(1, 12),
                1 => t.urange(1, 255),
                _ => t.pick(&[1, 2, 3, 4, 5, 253, 254, 255]),
            };
            t.bytes(l, 255)
        })
        .collect()
}

/// Extension without an effect on decoding
pub fn inert_ext(t: &mut Tape, text_ok: bool, cfg: &Cfg) -> BlockSpec {
    match t.weighted(&[4, 4, if text_ok { 2 } else { 0 }]) {
        0 => BlockSpec::Ext { label: 0xFE, blocks: big_sub_blocks(t, cfg) },
        1 => {
            // application extension which isn't NETSCAPE looping
            let mut blocks = big_sub_blocks(t, cfg);
            match t.weighted(&[3, 2, 2, 1, 2]) {
                0 => {}
                4 => {
                    // almost looping
                    let mut name = b"NETSCAPE2.0".to_vec();
                    let mut data = vec![1, t.byte(), t.byte()];
                    match t.below(5) {
                        0 => {
                            let i = t.below(11) as usize;
                            name[i] ^= t.pick(&[0x20u8, 1, 2, 0x80]);
                        }
                        1 => name[..8].make_ascii_lowercase(),
                        2 => name.truncate(t.urange(1, 10)),
                        3 => data.truncate(t.urange(1, 2)),
                        _ => name.insert(t.urange(0, 11), b' '),
                    }
                    blocks = vec![name, data];
                    return BlockSpec::Ext { label: 0xFF, blocks };
                }
                1 => blocks.insert(0, b"XMP DataXMP".to_vec()),
                2 => blocks.insert(0, b"NETSCAPE3.0".to_vec()),
                _ => {
                    // NETSCAPE with another sub-block id
                    blocks = vec![b"NETSCAPE2.0".to_vec(), vec![2, t.byte(), t.byte(), 0, 0]];
                }
            }
            if blocks.first().map_or(false, |b| b.starts_with(b"NETSCAPE2.0")) && blocks.get(1).map_or(false, |b| b[0] == 1) {
                blocks[0][0] = b'X';
            }
            BlockSpec::Ext { label: 0xFF, blocks }
        }
        _ => {
            let mut blocks = sub_blocks(t);
            blocks.insert(0, t.bytes(12, 255));
            BlockSpec::Ext { label: 0x01, blocks }
        }
    }
}

pub fn unknown_intro(t: &mut Tape) -> u8 {
    loop {
        let b = match t.weighted(&[2, 3]) {
            0 => t.pick(&[0u8, 1, 0x20, 0x22, 0x2B, 0x2D, 0x3A, 0x3C, 0xF9, 0xFE, 0xFF]),
            _ => t.byte(),
        };
        if !matches!(b, 0x21 | 0x2C | 0x3B) {
            return b;
        }
    }
}

pub fn unknown_label(t: &mut Tape) -> u8 {
    let b = t.byte();
    if matches!(b, 0x01 | 0xF9 | 0xFE | 0xFF) { 0x42 } else { b }
}

pub fn gce(t: &mut Tape) -> BlockSpec {
    BlockSpec::Gce {
        flags: match t.weighted(&[3, 2]) {
            0 => (t.below(4) as u8) << 2 | t.below(4) as u8,
            _ => t.byte(),
        },
        delay: t.u16b(),
        trns: match t.weighted(&[3, 1]) {
            0 => t.below(8) as u8,
            _ => t.byte(),
        },
    }
}

pub fn file(t: &mut Tape, cfg: &Cfg) -> FileSpec {
    let (width, height) = if t.chance(1, 3) { dims(t, cfg.max_px, false) } else { (t.u16b(), t.u16b()) };
    let gct = if !t.chance(1, 4) { Some(palette(t)) } else { None };
    let gn = gct.as_ref().map(|g| g.len() / 3);
    let mut pool: Vec<Vec<u8>> = gct.iter().cloned().collect();
    let mut blocks: Vec<BlockSpec> = Vec::new();
    let frames = if cfg.huge && cfg.max_frames > 1 && t.chance(1, 1000) { if t.chance(1, 4) { t.urange(255, 300) } else { t.urange(cfg.max_frames, 70) } } else { t.urange(cfg.min_frames, cfg.max_frames) };
    for f in 0..=frames {
        let mut had_gce = false;
        // blocks before the image (or before the trailer)
        let n = t.weighted(&[4, 4, 2, 1]);
        for _ in 0..n {
            // the same as an earlier one
            if !blocks.is_empty() && t.chance(1, 16) {
                let b = &blocks[t.below(blocks.len() as u64) as usize];
                if matches!(b, BlockSpec::Ext { label: 0xFE | 0xFF, .. } | BlockSpec::Loop(_)) {
                    let b = b.clone();
                    blocks.push(b);
                    continue;
                }
            }
            let unk = if cfg.unknown { 2 } else { 0 };
            let unke = if cfg.unknown_ext { 2 } else { 0 };
            let ext = if cfg.exts { 2 } else { 0 };
            match t.weighted(&[if had_gce && !cfg.multi_gce { 0 } else { 5 }, ext, if cfg.exts { if f == 0 { 2 } else { 1 } } else { 0 }, unk, unke, 1]) {
                0 => {
                    blocks.push(gce(t));
                    had_gce = true;
                }
                1 => {
                    let text_ok = !had_gce || cfg.text_after_gce;
                    let e = inert_ext(t, text_ok, cfg);
                    blocks.push(e);
                }
                2 => blocks.push(BlockSpec::Loop(t.u16b())),
                3 => {
                    let b = BlockSpec::Unknown { intro: unknown_intro(t), blocks: big_sub_blocks(t, cfg) };
                    blocks.push(b);
                }
                4 => {
                    let b = BlockSpec::Ext { label: unknown_label(t), blocks: big_sub_blocks(t, cfg) };
                    blocks.push(b);
                }
                _ => {}
            }
        }
        if f < frames {
            let old: Vec<&ImageSpec> = blocks.iter().filter_map(|b| if let BlockSpec::Image(i) = b { Some(i) } else { None }).collect();
            let i = if !old.is_empty() && t.chance(1, 8) {
                let mut i = old[t.below(old.len() as u64) as usize].clone();
                match t.below(8) {
                    0 => i.left = i.left.wrapping_add(1),
                    1 => i.interlaced = cfg.interlace && !i.interlaced,
                    2 => std::mem::swap(&mut i.width, &mut i.height),
                    3 => {
                        if let Some(p) = &mut i.lct {
                            let k = t.below(p.len() as u64) as usize;
                            p[k] ^= 1 << t.below(8);
                        }
                    }
                    // other pixels, with the same number of each of them
                    4 | 5 => {
                        if t.bool() {
                            i.stored.reverse();
                        } else if !i.stored.is_empty() {
                            let k = t.below(i.stored.len() as u64) as usize;
                            i.stored.rotate_left(k);
                        }
                        let l = lzw_stream(t, &i.stored, i.mcs, cfg);
                        i.splits = splits(t, l.data.len());
                        i.lzw = l.data;
                        i.has_end = l.has_end;
                        i.bits_needed = l.bits_needed;
                    }
                    _ => {}
                }
                i
            } else {
                image(t, gn, cfg, (width, height), &pool)
            };
            pool.extend(i.lct.iter().cloned());
            blocks.push(BlockSpec::Image(i));
        }
    }
    let trailing = if cfg.trailing && t.bool() {
        let n = t.urange(1, 40);
        match t.weighted(&[2, 1]) {
            0 => t.bytes(n, 255),
            _ => t.pick(&[&[0u8][..], &[0x3B], &[0x2C, 0, 0], &[0x21, 0xF9, 4]]).to_vec(),
        }
    } else {
        Vec::new()
    };
    FileSpec {
        v87: t.chance(1, 4),
        width,
        height,
        extra_flags: if t.chance(1, 3) { t.byte() } else { 0 },
        bg: match t.weighted(&[3, 2]) {
            0 => t.below(8) as u8,
            _ => t.byte(),
        },
        aspect: if t.chance(1, 5) { t.byte() } else { 0 },
        gct,
        blocks,
        trailing,
    }
}
