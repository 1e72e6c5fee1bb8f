//! Reference LZW for GIF (LSB first, variable code size up to 12 bits).
use std::collections::HashMap;

/// Bit packer
#[derive(Default)]
pub struct Bits {
    pub out: Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits {
    pub fn put(&mut self, code: u16, size: u32) {
        self.acc |= u32::from(code) << self.n;
        self.n += size;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    pub fn finish(mut self, pad: u8) -> Vec<u8> {
        if self.n > 0 {
            self.out.push(self.acc as u8 | (((u32::from(pad) << self.n) & 0xFF) as u8));
        }
        self.out
    }
    pub fn bit_len(&self) -> usize {
        self.out.len() * 8 + self.n as usize
    }
}

/// Emits codes while tracking the table exactly as a decoder builds it.
pub struct CodeWriter {
    pub m: u32,
    pub size: u32,
    pub next: u32,
    /// (prefix, byte) -> code. `u16::MAX` prefix is unused: roots are implicit.
    dict: HashMap<(u16, u8), u16>,
    /// code -> (prefix, last byte, first byte, length); indexed by code - (clear+2)
    entries: Vec<(u16, u8, u8, u32)>,
    prev: Option<u16>,
    pub bits: Bits,
    pub codes: usize,
}

impl CodeWriter {
    pub fn new(m: u8) -> Self {
        let m = u32::from(m);
        CodeWriter { m, size: m + 1, next: (1 << m) + 2, dict: HashMap::new(), entries: Vec::new(), prev: None, bits: Bits::default(), codes: 0 }
    }
    pub fn clear_code(&self) -> u16 {
        1 << self.m
    }
    pub fn end_code(&self) -> u16 {
        (1 << self.m) + 1
    }
    fn first_byte(&self, code: u16) -> u8 {
        if code < self.clear_code() { code as u8 } else { self.entries[usize::from(code) - usize::from(self.clear_code()) - 2].2 }
    }
    fn len(&self, code: u16) -> u32 {
        if code < self.clear_code() { 1 } else { self.entries[usize::from(code) - usize::from(self.clear_code()) - 2].3 }
    }
    pub fn emit_clear(&mut self) {
        let c = self.clear_code();
        self.bits.put(c, self.size);
        self.codes += 1;
        self.size = self.m + 1;
        self.next = (1 << self.m) + 2;
        self.dict.clear();
        self.entries.clear();
        self.prev = None;
    }
    pub fn emit_end(&mut self) {
        let c = self.end_code();
        self.bits.put(c, self.size);
        self.codes += 1;
    }
    /// A code that no decoder can interpret here, if one exists at this code size
    pub fn emit_invalid(&mut self, choice: u64) -> bool {
        let limit = 1u32 << self.size;
        // codes > next are undefined; == next is undefined without a predecessor
        let lo = if self.prev.is_some() { self.next + 1 } else { self.next };
        let lo = if self.next >= 4096 { 4096 } else { lo };
        if lo >= limit {
            return false;
        }
        let c = lo + (choice % u64::from(limit - lo)) as u32;
        self.bits.put(c as u16, self.size);
        self.codes += 1;
        true
    }
    /// Raw data code with the decoder's table growth
    pub fn emit_code(&mut self, code: u16) {
        self.bits.put(code, self.size);
        self.codes += 1;
        if let Some(p) = self.prev {
            if self.next < 4096 {
                // KwKwK: the new entry is the code itself
                let last = if u32::from(code) == self.next { self.first_byte(p) } else { self.first_byte(code) };
                let e = (p, last, self.first_byte(p), self.len(p) + 1);
                self.entries.push(e);
                self.dict.entry((p, last)).or_insert(self.next as u16);
                if self.next >= (1 << self.size) - 1 && self.size < 12 {
                    self.size += 1;
                }
                self.next += 1;
            }
        }
        self.prev = Some(code);
    }
    /// Emits one data code for a prefix of `data`, not longer than `max_len` pixels. Returns pixels covered.
    pub fn emit_match(&mut self, data: &[u8], max_len: usize, allow_kwkwk: bool) -> usize {
        let mut code = u16::from(data[0]);
        let mut n = 1;
        while n < data.len() && n < max_len {
            match self.dict.get(&(code, data[n])) {
                Some(&c) => {
                    code = c;
                    n += 1;
                }
                None => break,
            }
        }
        // the code the decoder is just about to define: prev + first(prev)
        if allow_kwkwk && self.next < 4096 {
            if let Some(p) = self.prev {
                let l = self.len(p) as usize;
                if l + 1 > n && l + 1 <= max_len && data.len() >= l + 1 && self.expands_to(p, &data[..l]) && data[l] == self.first_byte(p) {
                    let c = self.next as u16;
                    self.emit_code(c);
                    return l + 1;
                }
            }
        }
        self.emit_code(code);
        n
    }
    fn expands_to(&self, mut code: u16, s: &[u8]) -> bool {
        let mut i = s.len();
        loop {
            if code < self.clear_code() {
                return i == 1 && s[0] == code as u8;
            }
            let (p, last, _, _) = self.entries[usize::from(code) - usize::from(self.clear_code()) - 2];
            if i == 0 || s[i - 1] != last {
                return false;
            }
            i -= 1;
            code = p;
        }
    }
    /// The table has no room left
    pub fn full(&self) -> bool {
        self.next >= 4096
    }
    pub fn has_prev(&self) -> bool {
        self.prev.is_some()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LzwEnd {
    /// End code seen
    End,
    /// Ran out of bits
    OutOfData,
    /// Undefined code
    Invalid,
}

#[derive(Clone, Debug)]
pub struct LzwResult {
    pub pixels: Vec<u8>,
    pub end: LzwEnd,
    /// First code is a clear code
    pub starts_with_clear: bool,
    /// Bits up to and including the last code read
    pub bits_used: usize,
    pub codes: usize,
}

/// Decodes at most `limit` pixels' worth of codes (stops at the first code boundary at or after it).
pub fn decode(data: &[u8], m: u8, limit: usize) -> LzwResult {
    let clear = 1u32 << m;
    let end = clear + 1;
    let mut size = u32::from(m) + 1;
    let mut next = clear + 2;
    // (prefix, last, len)
    let mut entries: Vec<(u32, u8, u32)> = Vec::new();
    let mut prev: Option<u32> = None;
    let mut out: Vec<u8> = Vec::new();
    let mut pos = 0usize;
    let mut codes = 0usize;
    let mut starts_with_clear = false;
    let total = data.len() * 8;
    let get = |pos: usize, size: u32| -> u32 {
        let mut v = 0u32;
        for i in 0..size as usize {
            let b = pos + i;
            v |= u32::from(data[b / 8] >> (b % 8) & 1) << i;
        }
        v
    };
    let fin = |pixels, end, bits_used, codes, starts_with_clear| LzwResult { pixels, end, starts_with_clear, bits_used, codes };
    loop {
        if out.len() >= limit {
            return fin(out, LzwEnd::OutOfData, pos, codes, starts_with_clear);
        }
        if pos + size as usize > total {
            return fin(out, LzwEnd::OutOfData, pos, codes, starts_with_clear);
        }
        let code = get(pos, size);
        pos += size as usize;
        codes += 1;
        if codes == 1 {
            starts_with_clear = code == clear;
        }
        if code == clear {
            size = u32::from(m) + 1;
            next = clear + 2;
            entries.clear();
            prev = None;
            continue;
        }
        if code == end {
            return fin(out, LzwEnd::End, pos, codes, starts_with_clear);
        }
        let known = code < clear || (code > end && code < next) || (code == next && prev.is_some() && next < 4096);
        if !known {
            return fin(out, LzwEnd::Invalid, pos, codes, starts_with_clear);
        }
        // string of `c`, appended to out
        let start = out.len();
        let chain = |mut c: u32, out: &mut Vec<u8>, entries: &Vec<(u32, u8, u32)>| {
            let s = out.len();
            while c >= clear {
                let (p, last, _) = entries[(c - clear - 2) as usize];
                out.push(last);
                c = p;
            }
            out.push(c as u8);
            out[s..].reverse();
        };
        if code == next {
            let p = prev.unwrap_or(0);
            chain(p, &mut out, &entries);
            let f = out[start];
            out.push(f);
        } else {
            chain(code, &mut out, &entries);
        }
        let first = out[start];
        if let Some(p) = prev {
            if next < 4096 {
                entries.push((p, first, 0));
                if next >= (1 << size) - 1 && size < 12 {
                    size += 1;
                }
                next += 1;
            }
        }
        prev = Some(code);
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::tape::*;
    #[test]
    fn round_trip() {
        for seed in 0..3000u64 {
            let mut r = Rng::new(seed);
            let m = 2 + r.below(10) as u8;
            let n = r.below(if seed % 10 == 0 { 9000 } else { 200 }) as usize;
            let max = if m >= 8 { 255 } else { (1u16 << m) as u8 - 1 };
            let data = pattern(r.below(5) as usize, r.next(), n, max);
            let mut w = CodeWriter::new(m);
            if r.below(4) > 0 { w.emit_clear(); }
            let mut i = 0;
            let maxl = if r.below(2) == 0 { 10000 } else { 1 + r.below(4) as usize };
            let pc = r.below(3);
            while i < n {
                if pc > 0 && r.below(20) == 0 { w.emit_clear(); if pc > 1 { w.emit_clear(); } }
                i += w.emit_match(&data[i..], maxl, true);
            }
            w.emit_end();
            let b = w.bits.finish(0);
            let d = decode(&b, m, usize::MAX);
            assert_eq!(d.pixels, data);
            assert_eq!(d.end, LzwEnd::End);
        }
    }
}
