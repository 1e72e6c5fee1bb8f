//! Builds GIF files byte by byte, without the crate under test.
#![allow(dead_code)]
use std::io::{self, Read};

/// Simple LZW: clears the dictionary so often that the code size never grows.
pub fn lzw(mcs: u8, pixels: &[u8], end: bool) -> Vec<u8> {
    let (mut out, mut acc, mut n) = (vec![], 0u32, 0);
    let mut put = |code: u32, out: &mut Vec<u8>| {
        acc |= code << n;
        n += mcs as u32 + 1;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    };
    let clear = 1u32 << mcs;
    for (i, &p) in pixels.iter().enumerate() {
        if i % ((1 << mcs) - 2).max(1) == 0 {
            put(clear, &mut out);
        }
        put(p as u32, &mut out);
    }
    if end {
        put(clear + 1, &mut out);
    }
    if n > 0 {
        out.push(acc as u8);
    }
    out
}

pub fn sub_blocks(data: &[u8], size: usize) -> Vec<u8> {
    let mut o = vec![];
    for c in data.chunks(size) {
        o.push(c.len() as u8);
        o.extend_from_slice(c);
    }
    o.push(0);
    o
}

pub fn pal(n: usize) -> Vec<u8> {
    (0..n).flat_map(|i| [i as u8, (i * 7 + 1) as u8, 255 - i as u8]).collect()
}

/// Number of colours has to be a power of two, or 0 for none.
pub fn header(w: u16, h: u16, colors: usize, bg: u8) -> Vec<u8> {
    let mut o = b"GIF89a".to_vec();
    o.extend_from_slice(&w.to_le_bytes());
    o.extend_from_slice(&h.to_le_bytes());
    o.push(if colors > 0 { 0x80 | (colors.trailing_zeros() as u8 - 1) } else { 0 });
    o.push(bg);
    o.push(0);
    o.extend(pal(colors));
    o
}

pub fn gce(flags: u8, delay: u16, trns: u8) -> Vec<u8> {
    let mut o = vec![0x21, 0xf9, 4, flags];
    o.extend_from_slice(&delay.to_le_bytes());
    o.extend([trns, 0]);
    o
}

pub fn desc(x: u16, y: u16, w: u16, h: u16, interlaced: bool, local: &[u8]) -> Vec<u8> {
    let mut o = vec![0x2c];
    for v in [x, y, w, h] {
        o.extend_from_slice(&v.to_le_bytes());
    }
    o.push((interlaced as u8) << 6 | if local.is_empty() { 0 } else { 0x80 | ((local.len() / 3).trailing_zeros() as u8 - 1) });
    o.extend_from_slice(local);
    o
}

pub fn image(x: u16, y: u16, w: u16, h: u16, interlaced: bool, local: &[u8], mcs: u8, pixels: &[u8]) -> Vec<u8> {
    let mut o = desc(x, y, w, h, interlaced, local);
    o.push(mcs);
    o.extend(sub_blocks(&lzw(mcs, pixels, true), 255));
    o
}

pub fn ext(label: u8, blocks: &[&[u8]]) -> Vec<u8> {
    let mut o = vec![0x21, label];
    for b in blocks {
        o.push(b.len() as u8);
        o.extend_from_slice(b);
    }
    o.push(0);
    o
}

/// Returns at most the given number of bytes in each read, over and over.
pub struct Chunked<'a>(pub &'a [u8], pub Vec<usize>, pub usize);
impl Read for Chunked<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.1[self.2 % self.1.len()].min(b.len()).min(self.0.len());
        self.2 += 1;
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
