//! A GIF file as a value: what it contains, its bytes, and what decoding it must give.

#[derive(Clone, Debug)]
pub struct ImageSpec {
    pub left: u16,
    pub top: u16,
    pub width: u16,
    pub height: u16,
    pub interlaced: bool,
    /// sort flag and reserved bits (masked to 0b0011_1000), and the table size if there is no table
    pub extra_flags: u8,
    /// 2^k entries
    pub lct: Option<Vec<u8>>,
    pub mcs: u8,
    pub lzw: Vec<u8>,
    /// Sizes of the sub-blocks the data is cut into; the rest goes in blocks of 255
    pub splits: Vec<u8>,
    /// Pixel indices in stored order, exactly width*height
    pub stored: Vec<u8>,
    pub has_end: bool,
    /// Bits of `lzw` which are needed to get all the pixels
    pub bits_needed: usize,
}

#[derive(Clone, Debug)]
pub enum BlockSpec {
    /// Graphic control extension
    Gce { flags: u8, delay: u16, trns: u8 },
    /// NETSCAPE2.0 looping
    Loop(u16),
    /// Any other extension
    Ext { label: u8, blocks: Vec<Vec<u8>> },
    /// Block with a non-standard introducer
    Unknown { intro: u8, blocks: Vec<Vec<u8>> },
    Image(ImageSpec),
}

#[derive(Clone, Debug)]
pub struct FileSpec {
    pub v87: bool,
    pub width: u16,
    pub height: u16,
    /// Color resolution and sort flag bits
    pub extra_flags: u8,
    pub bg: u8,
    pub aspect: u8,
    pub gct: Option<Vec<u8>>,
    pub blocks: Vec<BlockSpec>,
    /// Bytes after the trailer
    pub trailing: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Spans {
    /// After the screen descriptor and global table
    pub header_end: usize,
    /// Start of each block
    pub blocks: Vec<usize>,
    /// Per image: (start, offset of the first byte after the minimum code size, bytes needed to have all pixel codes, end of block)
    pub images: Vec<(usize, usize, usize, usize)>,
    /// Offset of the trailer byte
    pub trailer: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExpFrame {
    pub left: u16,
    pub top: u16,
    pub width: u16,
    pub height: u16,
    pub delay: u16,
    /// 0..=3
    pub dispose: u8,
    pub transparent: Option<u8>,
    pub user_input: bool,
    pub interlaced: bool,
    pub palette: Option<Vec<u8>>,
    pub stored: Vec<u8>,
}

impl ExpFrame {
    /// Pixels in display order
    pub fn display(&self) -> Vec<u8> {
        if self.interlaced { deinterlace(&self.stored, usize::from(self.width), usize::from(self.height)) } else { self.stored.clone() }
    }
}

/// Rows in the order in which an interlaced image stores them
pub fn interlaced_rows(height: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(height);
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut r = start;
        while r < height {
            v.push(r);
            r += step;
        }
    }
    v
}

pub fn deinterlace(stored: &[u8], row_bytes: usize, height: usize) -> Vec<u8> {
    let mut out = vec![0; row_bytes * height];
    for (i, r) in interlaced_rows(height).into_iter().enumerate() {
        out[r * row_bytes..(r + 1) * row_bytes].copy_from_slice(&stored[i * row_bytes..(i + 1) * row_bytes]);
    }
    out
}

/// RGBA expansion by the rules of the format; indices outside of the palette are transparent black
pub fn expand(indices: &[u8], palette: &[u8], transparent: Option<u8>) -> Vec<u8> {
    let mut out = Vec::with_capacity(indices.len() * 4);
    for &i in indices {
        let o = usize::from(i) * 3;
        match palette.get(o..o + 3) {
            Some(c) => {
                out.extend_from_slice(c);
                out.push(if transparent == Some(i) { 0 } else { 255 });
            }
            None => out.extend_from_slice(&[0; 4]),
        }
    }
    out
}

pub fn table_flag(pal: &[u8]) -> u8 {
    let n = pal.len() / 3;
    for k in 0..8u8 {
        if n == 2usize << k {
            return k;
        }
    }
    panic!("palette of {n} colors is not a power of two")
}

fn put_blocks(out: &mut Vec<u8>, blocks: &[Vec<u8>]) {
    for b in blocks {
        assert!(!b.is_empty() && b.len() <= 255);
        out.push(b.len() as u8);
        out.extend_from_slice(b);
    }
    out.push(0);
}

impl ImageSpec {
    pub fn sub_blocks(&self) -> Vec<Vec<u8>> {
        let mut v = Vec::new();
        let mut d = &self.lzw[..];
        for &s in &self.splits {
            if d.is_empty() {
                break;
            }
            let n = usize::from(s.max(1)).min(d.len());
            v.push(d[..n].to_vec());
            d = &d[n..];
        }
        for c in d.chunks(255) {
            v.push(c.to_vec());
        }
        v
    }
}

impl FileSpec {
    pub fn bytes(&self) -> Vec<u8> {
        self.serialize().0
    }

    pub fn serialize(&self) -> (Vec<u8>, Spans) {
        let mut o = Vec::new();
        let mut sp = Spans::default();
        o.extend_from_slice(if self.v87 { b"GIF87a" } else { b"GIF89a" });
        o.extend_from_slice(&self.width.to_le_bytes());
        o.extend_from_slice(&self.height.to_le_bytes());
        // the size of a table which isn't there is meaningless
        let mut f = self.extra_flags & if self.gct.is_some() { 0x78 } else { 0x7F };
        if let Some(g) = &self.gct {
            f |= 0x80 | table_flag(g);
        }
        o.push(f);
        o.push(self.bg);
        o.push(self.aspect);
        if let Some(g) = &self.gct {
            o.extend_from_slice(g);
        }
        sp.header_end = o.len();
        for b in &self.blocks {
            sp.blocks.push(o.len());
            match b {
                BlockSpec::Gce { flags, delay, trns } => {
                    o.extend_from_slice(&[0x21, 0xF9, 4, *flags]);
                    o.extend_from_slice(&delay.to_le_bytes());
                    o.extend_from_slice(&[*trns, 0]);
                }
                BlockSpec::Loop(n) => {
                    o.extend_from_slice(&[0x21, 0xFF, 11]);
                    o.extend_from_slice(b"NETSCAPE2.0");
                    o.extend_from_slice(&[3, 1]);
                    o.extend_from_slice(&n.to_le_bytes());
                    o.push(0);
                }
                BlockSpec::Ext { label, blocks } => {
                    o.extend_from_slice(&[0x21, *label]);
                    put_blocks(&mut o, blocks);
                }
                BlockSpec::Unknown { intro, blocks } => {
                    o.push(*intro);
                    put_blocks(&mut o, blocks);
                }
                BlockSpec::Image(i) => {
                    let start = o.len();
                    o.push(0x2C);
                    for x in [i.left, i.top, i.width, i.height] {
                        o.extend_from_slice(&x.to_le_bytes());
                    }
                    let mut f = i.extra_flags & if i.lct.is_some() { 0x38 } else { 0x3F };
                    if i.interlaced {
                        f |= 0x40;
                    }
                    if let Some(p) = &i.lct {
                        f |= 0x80 | table_flag(p);
                    }
                    o.push(f);
                    if let Some(p) = &i.lct {
                        o.extend_from_slice(p);
                    }
                    o.push(i.mcs);
                    let meta = o.len();
                    let mut bits = 0;
                    let mut need = meta;
                    for b in i.sub_blocks() {
                        o.push(b.len() as u8);
                        let bs = o.len();
                        o.extend_from_slice(&b);
                        if bits < i.bits_needed {
                            let left = (i.bits_needed - bits + 7) / 8;
                            need = bs + left.min(b.len());
                        }
                        bits += b.len() * 8;
                    }
                    o.push(0);
                    sp.images.push((start, meta, need, o.len()));
                }
            }
        }
        sp.trailer = o.len();
        o.push(0x3B);
        o.extend_from_slice(&self.trailing);
        (o, sp)
    }

    /// Frames in file order
    pub fn frames(&self) -> Vec<ExpFrame> {
        let mut v = Vec::new();
        let mut gce: Option<(u8, u16, u8)> = None;
        for b in &self.blocks {
            match b {
                BlockSpec::Gce { flags, delay, trns } => gce = Some((*flags, *delay, *trns)),
                BlockSpec::Image(i) => {
                    let (flags, delay, trns) = gce.take().unwrap_or((1 << 2, 0, 0));
                    let d = flags >> 2 & 7;
                    v.push(ExpFrame {
                        left: i.left,
                        top: i.top,
                        width: i.width,
                        height: i.height,
                        delay,
                        dispose: if d > 3 { 0 } else { d },
                        transparent: if flags & 1 != 0 { Some(trns) } else { None },
                        user_input: flags & 2 != 0,
                        interlaced: i.interlaced,
                        palette: i.lct.clone(),
                        stored: i.stored.clone(),
                    });
                }
                _ => {}
            }
        }
        v
    }

    pub fn images(&self) -> impl Iterator<Item = &ImageSpec> {
        self.blocks.iter().filter_map(|b| match b {
            BlockSpec::Image(i) => Some(i),
            _ => None,
        })
    }
    pub fn images_mut(&mut self) -> impl Iterator<Item = &mut ImageSpec> {
        self.blocks.iter_mut().filter_map(|b| match b {
            BlockSpec::Image(i) => Some(i),
            _ => None,
        })
    }

    /// Loop count by the extensions before the first image: None = not given
    pub fn loops(&self) -> Option<u16> {
        let mut r = None;
        for b in &self.blocks {
            match b {
                BlockSpec::Loop(n) => r = Some(*n),
                BlockSpec::Image(_) => break,
                _ => {}
            }
        }
        r
    }

    pub fn summary(&self) -> String {
        use std::fmt::Write;
        let mut s = format!("GIF{} {}x{} gct={}", if self.v87 { "87a" } else { "89a" }, self.width, self.height, self.gct.as_ref().map_or("none".into(), |g| (g.len() / 3).to_string()));
        for b in self.blocks.iter().take(400) {
            let _ = match b {
                BlockSpec::Gce { flags, delay, trns } => write!(s, "; gce({flags:#x},{delay},{trns})"),
                BlockSpec::Loop(n) => write!(s, "; loop({n})"),
                BlockSpec::Ext { label, blocks } => write!(s, "; ext({label:#x},{:?})", blocks.iter().map(Vec::len).collect::<Vec<_>>()),
                BlockSpec::Unknown { intro, blocks } => write!(s, "; unknown({intro:#x},{:?})", blocks.iter().map(Vec::len).collect::<Vec<_>>()),
                BlockSpec::Image(i) => write!(
                    s,
                    "; image({}x{}@{},{}{}{} mcs={} lzw={}B/{} blocks{})",
                    i.width,
                    i.height,
                    i.left,
                    i.top,
                    if i.interlaced { " interlaced" } else { "" },
                    i.lct.as_ref().map_or(String::new(), |p| format!(" lct={}", p.len() / 3)),
                    i.mcs,
                    i.lzw.len(),
                    i.sub_blocks().len(),
                    if i.has_end { "" } else { " no-end" }
                ),
            };
        }
        if !self.trailing.is_empty() {
            let _ = write!(s, "; +{} trailing bytes", self.trailing.len());
        }
        s
    }
}
