//! Byte strings which may or may not be GIF files.
use vref::gen::{self, Cfg};
use vref::spec::{BlockSpec, ImageSpec};
use vref::tape::{Rng, Tape};

/// Everything a file can have
pub fn any_cfg(t: &mut Tape) -> Cfg {
    Cfg {
        max_px: if t.chance(1, 12) { 4000 } else { 300 },
        max_frames: 4,
        no_end: true,
        unknown: t.chance(1, 4),
        unknown_ext: t.chance(1, 4),
        trailing: true,
        palette: !t.chance(1, 10),
        text_after_gce: true,
        ..Cfg::default()
    }
}

pub fn mutate(t: &mut Tape, b: &mut Vec<u8>) {
    let n = t.urange(1, 4);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        let l = b.len() as u64;
        // often near structure: the first bytes, or anywhere
        let at = if t.chance(1, 4) { t.below(l.min(40)) } else { t.below(l) } as usize;
        match t.weighted(&[4, 3, 3, 2, 2, 2, 1]) {
            0 => b[at] = t.byte(),
            1 => b[at] ^= 1 << t.below(8),
            2 => b[at] = t.pick(&[0u8, 1, 0xFF, 0x2C, 0x21, 0x3B, 0xF9, 0xFE, 0x80, 4, 2, 11, 12]),
            3 => b.insert(at, t.byte()),
            4 => {
                b.remove(at);
            }
            5 => {
                // duplicate a range elsewhere
                let e = (at + t.urange(1, 40)).min(b.len());
                let x = b[at..e].to_vec();
                let to = t.below(b.len() as u64 + 1) as usize;
                b.splice(to..to, x);
            }
            _ => {
                // remove a range
                let e = (at + t.urange(1, 40)).min(b.len());
                b.drain(at..e);
            }
        }
    }
}

/// Pieces of the grammar in any order
pub fn soup(t: &mut Tape) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend_from_slice(if t.bool() { b"GIF89a" } else { b"GIF87a" });
    o.extend_from_slice(&t.u16b().to_le_bytes());
    o.extend_from_slice(&t.u16b().to_le_bytes());
    let f = t.byte() & 0xF3;
    o.extend_from_slice(&[f, t.byte(), 0]);
    if f & 0x80 != 0 {
        let n = 3 * (2usize << (f & 7));
        o.extend(t.bytes(n, 255));
    }
    let n = t.urange(0, 14);
    for _ in 0..n {
        match t.weighted(&[4, 3, 2, 2, 2, 2, 3]) {
            0 => {
                o.push(0x2C);
                for _ in 0..2 {
                    o.extend_from_slice(&t.u16b().to_le_bytes());
                }
                let big = t.chance(1, 6);
                for _ in 0..2 {
                    let v = if big { t.u16b() } else { t.below(12) as u16 };
                    o.extend_from_slice(&v.to_le_bytes());
                }
                let f = t.byte() & 0xC1;
                o.push(f);
                if f & 0x80 != 0 {
                    let n = 3 * (2usize << (f & 7));
                    o.extend(t.bytes(n, 255));
                }
                o.push(if t.chance(1, 5) { t.byte() } else { t.range(1, 8) as u8 });
                if !t.chance(1, 4) {
                    for b in gen::sub_blocks(t) {
                        o.push(b.len() as u8);
                        o.extend(b);
                    }
                    if !t.chance(1, 6) {
                        o.push(0);
                    }
                }
            }
            1 => {
                o.extend_from_slice(&[0x21, 0xF9]);
                let l = if t.chance(1, 5) { t.below(8) as usize } else { 4 };
                o.push(l as u8);
                o.extend(t.bytes(l, 255));
                o.push(0);
            }
            2 => {
                o.extend_from_slice(&[0x21, t.pick(&[0xFEu8, 0xFF, 0x01, 0x00, 0x42])]);
                for b in gen::sub_blocks(t) {
                    o.push(b.len() as u8);
                    o.extend(b);
                }
                o.push(0);
            }
            3 => {
                o.extend_from_slice(b"\x21\xFF\x0BNETSCAPE2.0");
                let l = if t.chance(1, 4) { t.below(6) as usize } else { 3 };
                let mut x = t.bytes(l, 255);
                if let Some(f) = x.first_mut() {
                    *f = 1;
                }
                o.push(l as u8);
                o.extend(x);
                o.push(0);
            }
            4 => o.push(t.byte()),
            5 => o.push(t.pick(&[0u8, 0x3B, 0x2C, 0x21])),
            _ => {
                let n = t.urange(0, 20);
                o.extend(t.bytes(n, 255));
            }
        }
    }
    if t.bool() {
        o.push(0x3B);
    }
    o
}

/// (bytes, kind)
pub fn bytes(t: &mut Tape) -> (Vec<u8>, &'static str) {
    match t.weighted(&[4, 3, 6, 4, 1]) {
        0 => {
            let c = any_cfg(t);
            (gen::file(t, &c).bytes(), "valid file")
        }
        1 => {
            let c = any_cfg(t);
            let mut b = gen::file(t, &c).bytes();
            let n = t.below(b.len() as u64 + 1) as usize;
            b.truncate(n);
            (b, "truncated file")
        }
        2 => {
            let c = any_cfg(t);
            let mut b = gen::file(t, &c).bytes();
            mutate(t, &mut b);
            (b, "mutated file")
        }
        3 => (soup(t), "grammar soup"),
        _ => {
            let n = t.urange(0, 200);
            let s = t.seed();
            let mut r = Rng::new(s);
            let mut b: Vec<u8> = if t.bool() { b"GIF89a".to_vec() } else { Vec::new() };
            b.extend((0..n).map(|_| r.next() as u8));
            (b, "random bytes")
        }
    }
}

/// Well-framed files with defects in what the pieces say
pub fn damaged(t: &mut Tape) -> Vec<u8> {
    let mut c = any_cfg(t);
    c.max_frames = 5;
    let mut f = gen::file(t, &c);
    let n = t.urange(0, 4);
    for _ in 0..n {
        let images: Vec<usize> = (0..f.blocks.len()).filter(|&i| matches!(f.blocks[i], BlockSpec::Image(_))).collect();
        let at = t.below(f.blocks.len() as u64 + 1) as usize;
        match t.weighted(&[6, 2, 2, 2, 1, 1, 1]) {
            0 if !images.is_empty() => {
                let k = images[t.below(images.len() as u64) as usize];
                if let BlockSpec::Image(i) = &mut f.blocks[k] {
                    damage_image(t, i);
                }
            }
            1 => {
                // control extension of some length, in pieces
                let mut left = if t.bool() { 4 } else { t.urange(0, 9) };
                let mut blocks = Vec::new();
                while left > 0 {
                    let n = t.urange(1, left);
                    blocks.push(t.bytes(n, 255));
                    left -= n;
                }
                f.blocks.insert(at, BlockSpec::Ext { label: 0xF9, blocks });
            }
            2 => {
                // nearly a looping extension
                let mut name = b"NETSCAPE2.0".to_vec();
                if t.chance(1, 3) {
                    let k = t.below(11) as usize;
                    name[k] = t.byte();
                }
                let n = t.urange(0, 5);
                let mut p = t.bytes(n, 255);
                if let Some(x) = p.first_mut() {
                    *x = if t.chance(1, 4) { t.byte() } else { 1 };
                }
                let mut blocks = vec![name];
                match t.below(4) {
                    0 => blocks[0].extend(p),
                    1 if p.len() > 1 => {
                        let b = p.split_off(1);
                        blocks.extend([p, b]);
                    }
                    _ if !p.is_empty() => blocks.push(p),
                    _ => {}
                }
                if t.chance(1, 4) {
                    let n = t.urange(1, 5);
                    blocks.push(t.bytes(n, 255));
                }
                f.blocks.insert(at, BlockSpec::Ext { label: 0xFF, blocks });
            }
            3 => {
                let blocks = gen::sub_blocks(t);
                let b = if t.bool() { BlockSpec::Unknown { intro: gen::unknown_intro(t), blocks } } else { BlockSpec::Ext { label: t.byte(), blocks } };
                // a label of 0xF9 or with contents that say something is fine as well
                f.blocks.insert(at, b);
            }
            4 => f.gct = None,
            5 => (f.width, f.height) = (t.u16b(), t.u16b()),
            _ => {
                if at < f.blocks.len() {
                    let b = f.blocks.remove(at);
                    let to = t.below(f.blocks.len() as u64 + 1) as usize;
                    if t.bool() {
                        f.blocks.insert(to, b.clone());
                    }
                    f.blocks.insert(to, b);
                }
            }
        }
    }
    let mut b = f.bytes();
    if t.chance(1, 8) {
        let n = t.below(b.len() as u64 + 1) as usize;
        b.truncate(n);
    }
    b
}

fn damage_image(t: &mut Tape, i: &mut ImageSpec) {
    match t.below(9) {
        0 => i.mcs = t.byte(),
        1 => i.mcs = t.pick(&[0u8, 1, 2, 7, 8, 9, 10, 11, 12]),
        2 if !i.lzw.is_empty() => {
            let k = t.below(i.lzw.len() as u64) as usize;
            i.lzw[k] ^= 1 << t.below(8);
        }
        3 if !i.lzw.is_empty() => {
            let k = t.below(i.lzw.len() as u64) as usize;
            i.lzw[k] = t.byte();
        }
        4 => {
            let n = t.below(i.lzw.len() as u64 + 1) as usize;
            i.lzw.truncate(n);
        }
        5 => {
            let n = t.urange(1, 12);
            i.lzw.extend(t.bytes(n, 255));
        }
        6 => {
            let d = t.range(1, 3) as u16;
            let w = if t.bool() { &mut i.width } else { &mut i.height };
            *w = if t.bool() { w.saturating_add(d) } else { w.saturating_sub(d) };
        }
        7 => i.lct = None,
        _ => (i.left, i.top) = (t.u16b(), t.u16b()),
    }
}
