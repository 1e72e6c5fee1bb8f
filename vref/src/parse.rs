//! Strict GIF89a parser. Anything outside the grammar is an error.

#[derive(Clone, Debug, PartialEq)]
pub struct Image {
    pub left: u16,
    pub top: u16,
    pub width: u16,
    pub height: u16,
    pub flags: u8,
    pub lct: Option<Vec<u8>>,
    pub mcs: u8,
    pub blocks: Vec<Vec<u8>>,
}
impl Image {
    pub fn interlaced(&self) -> bool {
        self.flags & 0x40 != 0
    }
    pub fn data(&self) -> Vec<u8> {
        self.blocks.concat()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Ext { label: u8, blocks: Vec<Vec<u8>> },
    Image(Image),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Gif {
    pub version: [u8; 3],
    pub width: u16,
    pub height: u16,
    pub flags: u8,
    pub bg: u8,
    pub aspect: u8,
    pub gct: Option<Vec<u8>>,
    pub items: Vec<Item>,
    /// Offset of the item start, and of the trailer as the last entry
    pub offsets: Vec<usize>,
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [u8], String> {
        let s = self.b.get(self.p..self.p + n).ok_or_else(|| format!("offset {}: stream ends inside {what}", self.p))?;
        self.p += n;
        Ok(s)
    }
    fn u8(&mut self, what: &str) -> Result<u8, String> {
        Ok(self.take(1, what)?[0])
    }
    fn u16(&mut self, what: &str) -> Result<u16, String> {
        let s = self.take(2, what)?;
        Ok(u16::from(s[0]) | u16::from(s[1]) << 8)
    }
    fn blocks(&mut self, what: &str) -> Result<Vec<Vec<u8>>, String> {
        let mut v = Vec::new();
        loop {
            let n = self.u8(what)?;
            if n == 0 {
                return Ok(v);
            }
            v.push(self.take(usize::from(n), what)?.to_vec());
        }
    }
}

pub fn parse(b: &[u8]) -> Result<Gif, String> {
    let mut c = Cur { b, p: 0 };
    let sig = c.take(6, "signature")?;
    if &sig[..3] != b"GIF" || (&sig[3..] != b"89a" && &sig[3..] != b"87a") {
        return Err(format!("bad signature {sig:?}"));
    }
    let width = c.u16("screen descriptor")?;
    let height = c.u16("screen descriptor")?;
    let flags = c.u8("screen descriptor")?;
    let bg = c.u8("screen descriptor")?;
    let aspect = c.u8("screen descriptor")?;
    let gct = if flags & 0x80 != 0 { Some(c.take(3 * (2 << (flags & 7)), "global color table")?.to_vec()) } else { None };
    let mut items = Vec::new();
    let mut offsets = Vec::new();
    loop {
        offsets.push(c.p);
        match c.u8("block introducer")? {
            0x3B => break,
            0x21 => {
                let label = c.u8("extension label")?;
                let blocks = c.blocks("extension")?;
                items.push(Item::Ext { label, blocks });
            }
            0x2C => {
                let left = c.u16("image descriptor")?;
                let top = c.u16("image descriptor")?;
                let width = c.u16("image descriptor")?;
                let height = c.u16("image descriptor")?;
                let flags = c.u8("image descriptor")?;
                let lct = if flags & 0x80 != 0 { Some(c.take(3 * (2 << (flags & 7)), "local color table")?.to_vec()) } else { None };
                let mcs = c.u8("minimum code size")?;
                let blocks = c.blocks("image data")?;
                items.push(Item::Image(Image { left, top, width, height, flags, lct, mcs, blocks }));
            }
            x => return Err(format!("offset {}: unexpected block introducer {x:#04x}", c.p - 1)),
        }
    }
    if c.p != b.len() {
        return Err(format!("{} bytes after the trailer at offset {}", b.len() - c.p, c.p - 1));
    }
    Ok(Gif { version: [sig[3], sig[4], sig[5]], width, height, flags, bg, aspect, gct, items, offsets })
}
