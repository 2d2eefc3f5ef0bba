//! An independent reader and writer of the published adhoc file format (0.1.3): bincode layout, bit order, Rice
//! code and predictor, written from the format and not from the library's types.

pub struct Bits<'a> {
    pub words: &'a [u128],
    pub pos: usize,
}
impl Bits<'_> {
    pub fn bit(&mut self) -> Option<u32> {
        let w = self.words.get(self.pos / 128)?;
        let b = (w >> (self.pos % 128)) & 1;
        self.pos += 1;
        Some(b as u32)
    }
    pub fn field(&mut self, n: u32) -> Option<u32> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Some(v)
    }
    /// sign, unary quotient, remainder
    pub fn rice(&mut self, k: u32) -> Option<i32> {
        let sign = self.bit()?;
        let mut q = 0;
        while self.bit()? == 1 {
            q += 1;
        }
        let v = (q << k) as i32 + self.field(k)? as i32;
        Some(if sign == 1 { -v } else { v })
    }
}

#[derive(Default, Clone)]
pub struct BitW {
    pub words: Vec<u128>,
    pub pos: usize,
}
impl BitW {
    pub fn bit(&mut self, b: u32) {
        if self.pos / 128 >= self.words.len() {
            self.words.push(0);
        }
        self.words[self.pos / 128] |= (b as u128 & 1) << (self.pos % 128);
        self.pos += 1;
    }
    pub fn field(&mut self, v: u32, n: u32) {
        for i in 0..n {
            self.bit(v >> i);
        }
    }
    pub fn rice(&mut self, v: i32, k: u32) {
        self.bit((v < 0) as u32);
        let a = v.unsigned_abs();
        for _ in 0..a >> k {
            self.bit(1);
        }
        self.bit(0);
        self.field(a & ((1 << k) - 1), k);
    }
}
/// bits one residual takes with parameter k
pub fn rice_len(v: i32, k: u32) -> u64 {
    (v.unsigned_abs() >> k) as u64 + 2 + k as u64
}

const NORM: f32 = 1.0 / 32767.0f32;
/// the format's predictor: parabola through the last three values, evaluated one step on, as 16-bit PCM
pub fn predict(f: [i16; 3]) -> i16 {
    let [a, b, c] = [f[0] as f32 * NORM, f[1] as f32 * NORM, f[2] as f32 * NORM];
    let d = b - a;
    let e = c - a;
    let c1 = (4.0 * d - e) * 0.5;
    let c2 = (e - 2.0 * d) * 0.5;
    let v = a + (c1 + c2 * 3.0) * 3.0;
    (v.clamp(-1.0, 1.0) * 32767.0) as i16
}
/// difference on the circle of the 65535 values -32767..=32767
pub fn residual(cur: i16, pred: i16) -> i32 {
    let r = cur as i32 - pred as i32;
    if r > 32767 {
        r - 65535
    } else if r < -32767 {
        r + 65535
    } else {
        r
    }
}
pub fn apply(pred: i16, r: i32) -> i16 {
    let v = pred as i32 + r;
    (if v > 32767 {
        v - 65535
    } else if v < -32767 {
        v + 65535
    } else {
        v
    })
    .clamp(-32768, 32767) as i16
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub k: u32,
    pub init: bool,
    pub size: u16,
    pub bit: u64,
    pub hist: [i16; 3],
}
#[derive(Clone, Debug, Default)]
pub struct File {
    pub level: u32,
    pub frames: Vec<Frame>,
    pub nibble_bytes: Vec<u8>,
    pub header_cursor: u32,
    pub info: Option<(u32, u32)>,
    pub words: Vec<u128>,
    pub bit_cursor: u128,
    pub capacity: u128,
}

struct R<'a>(&'a [u8], usize);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let s = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(s)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn u128(&mut self) -> Option<u128> {
        Some(u128::from_le_bytes(self.take(16)?.try_into().unwrap()))
    }
    fn len(&mut self) -> Option<usize> {
        let n = self.u64()? as usize;
        (n <= self.0.len()).then_some(n)
    }
}

/// byte ranges of the parts of a file, for aimed damage
#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub level: usize,
    pub nibble_len: usize,
    pub nibble_count: usize,
    pub init_len: usize,
    pub init_cursor: usize,
    pub size_len: usize,
    pub sizes: usize,
    pub cursor_len: usize,
    pub cursors: usize,
    pub hist_len: usize,
    pub hists: usize,
    pub header_cursor: usize,
    pub info_tag: usize,
    pub rate: usize,
    pub channels: usize,
    pub words_len: usize,
    pub words: usize,
    pub bit_cursor: usize,
    pub capacity: usize,
    pub end: usize,
}

pub fn parse(b: &[u8]) -> Option<(File, Layout)> {
    let mut r = R(b, 0);
    let mut l = Layout::default();
    let level = r.u32()?;
    l.nibble_len = r.1;
    let n = r.len()?;
    let nibbles = r.take(n)?.to_vec();
    l.nibble_count = r.1;
    let count = r.u32()? as usize;
    l.init_len = r.1;
    let n = r.len()?;
    let mut init = vec![];
    for _ in 0..n {
        init.push(r.u64()?);
    }
    l.init_cursor = r.1;
    let init_n = r.u128()?;
    l.size_len = r.1;
    let n = r.len()?;
    l.sizes = r.1;
    let mut sizes = vec![];
    for _ in 0..n {
        sizes.push(r.u16()?);
    }
    l.cursor_len = r.1;
    let n = r.len()?;
    l.cursors = r.1;
    let mut cursors = vec![];
    for _ in 0..n {
        cursors.push(r.u64()?);
    }
    l.hist_len = r.1;
    let n = r.len()?;
    l.hists = r.1;
    let mut hists = vec![];
    for _ in 0..n {
        hists.push([r.u16()? as i16, r.u16()? as i16, r.u16()? as i16]);
    }
    l.header_cursor = r.1;
    let header_cursor = r.u32()?;
    l.info_tag = r.1;
    let info = match r.u8()? {
        0 => None,
        1 => {
            l.rate = r.1;
            let rate = r.u32()?;
            l.channels = r.1;
            Some((rate, r.u32()?))
        }
        _ => return None,
    };
    l.words_len = r.1;
    let n = r.len()?;
    l.words = r.1;
    let mut words = vec![];
    for _ in 0..n {
        words.push(r.u128()?);
    }
    l.bit_cursor = r.1;
    let bit_cursor = r.u128()?;
    l.capacity = r.1;
    let capacity = r.u128()?;
    l.end = r.1;
    if sizes.len() != count || cursors.len() != count || hists.len() != count || init_n != count as u128 {
        return None;
    }
    let mut frames = vec![];
    for i in 0..count {
        frames.push(Frame {
            k: (nibbles.get(i / 2)? >> (4 * (i % 2)) & 15) as u32,
            init: init.get(i / 64)? >> (i % 64) & 1 == 1,
            size: sizes[i],
            bit: cursors[i],
            hist: hists[i],
        });
    }
    Some((File { level, frames, nibble_bytes: nibbles, header_cursor, info, words, bit_cursor, capacity }, l))
}

impl File {
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.frames.len();
        let mut v = vec![];
        v.extend(self.level.to_le_bytes());
        let mut nib = vec![0u8; n.div_ceil(2)];
        let mut init = vec![0u64; n.div_ceil(64)];
        for (i, f) in self.frames.iter().enumerate() {
            nib[i / 2] |= (f.k as u8) << (4 * (i % 2));
            init[i / 64] |= (f.init as u64) << (i % 64);
        }
        v.extend((nib.len() as u64).to_le_bytes());
        v.extend(&nib);
        v.extend((n as u32).to_le_bytes());
        v.extend((init.len() as u64).to_le_bytes());
        for w in init {
            v.extend(w.to_le_bytes());
        }
        v.extend((n as u128).to_le_bytes());
        v.extend((n as u64).to_le_bytes());
        for f in &self.frames {
            v.extend(f.size.to_le_bytes());
        }
        v.extend((n as u64).to_le_bytes());
        for f in &self.frames {
            v.extend(f.bit.to_le_bytes());
        }
        v.extend((n as u64).to_le_bytes());
        for f in &self.frames {
            for h in f.hist {
                v.extend(h.to_le_bytes());
            }
        }
        v.extend(self.header_cursor.to_le_bytes());
        match self.info {
            None => v.push(0),
            Some((r, c)) => {
                v.push(1);
                v.extend(r.to_le_bytes());
                v.extend(c.to_le_bytes());
            }
        }
        v.extend((self.words.len() as u64).to_le_bytes());
        for w in &self.words {
            v.extend(w.to_le_bytes());
        }
        v.extend(self.bit_cursor.to_le_bytes());
        v.extend(self.capacity.to_le_bytes());
        v
    }

    /// decodes every channel from the first frame on; None if the file is not well formed
    pub fn decode(&self) -> Option<Vec<i16>> {
        self.decode_to().map(|(x, _)| x)
    }

    /// the same, and the number of bits the coded audio takes
    pub fn decode_to(&self) -> Option<(Vec<i16>, u128)> {
        let ch = self.info?.1 as usize;
        if ch == 0 || self.frames.len() % ch != 0 {
            return None;
        }
        let mut chans: Vec<Vec<i16>> = vec![vec![]; ch];
        let mut hist = vec![[0i16; 3]; ch];
        let mut bits = Bits { words: &self.words, pos: 0 };
        let mut started = vec![false; ch];
        for (i, f) in self.frames.iter().enumerate() {
            let c = i % ch;
            // the stored position must be where the previous frame ended
            if f.bit != bits.pos as u64 || f.init == started[c] {
                return None;
            }
            let mut n = f.size as usize;
            if !started[c] {
                started[c] = true;
                for k in 0..3 {
                    let v = bits.field(16)? as u16 as i16;
                    hist[c] = [hist[c][1], hist[c][2], v];
                    if k < n {
                        chans[c].push(v);
                    }
                }
                n = n.saturating_sub(3);
                if f.hist != hist[c] {
                    return None;
                }
            } else if f.hist != hist[c] {
                return None;
            }
            for _ in 0..n {
                let r = bits.rice(f.k)?;
                let v = apply(predict(hist[c]), r);
                hist[c] = [hist[c][1], hist[c][2], v];
                chans[c].push(v);
            }
        }
        let n = chans[0].len();
        if chans.iter().any(|c| c.len() != n) {
            return None;
        }
        Some(((0..n).flat_map(|i| chans.iter().map(move |c| c[i])).collect(), bits.pos as u128))
    }
}

/// a writer of the format that picks each frame's parameter with `param(frame index)`
pub fn write(rate: u32, ch: usize, level: u32, calls: &[Vec<i16>], mut param: impl FnMut(usize) -> u32) -> File {
    let mut f = File { level, info: Some((rate, ch as u32)), ..Default::default() };
    let mut w = BitW::default();
    let mut hist = vec![[0i16; 3]; ch];
    for (ci, call) in calls.iter().enumerate() {
        let n = call.len() / ch;
        for c in 0..ch {
            let k = param(f.frames.len());
            let bit = w.pos as u64;
            let mut from = 0;
            if ci == 0 {
                for i in 0..3 {
                    let v = if i < n { call[i * ch + c] } else { 0 };
                    w.field(v as u16 as u32, 16);
                    hist[c] = [hist[c][1], hist[c][2], v];
                }
                from = n.min(3);
            }
            f.frames.push(Frame { k, init: ci == 0, size: n as u16, bit, hist: hist[c] });
            for i in from..n {
                let v = call[i * ch + c];
                w.rice(residual(v, predict(hist[c])), k);
                hist[c] = [hist[c][1], hist[c][2], v];
            }
        }
    }
    f.header_cursor = f.frames.len() as u32;
    f.bit_cursor = w.pos as u128;
    f.capacity = w.pos as u128;
    f.words = w.words;
    f
}

/// payload bits a best-parameter coder needs for these calls (level-scaled 16-bit values per call)
pub fn best_bits(ch: usize, calls: &[Vec<i16>]) -> u64 {
    let mut total = 0;
    let mut hist = vec![[0i16; 3]; ch];
    let mut first = true;
    for call in calls {
        let n = call.len() / ch;
        if n == 0 {
            continue;
        }
        for c in 0..ch {
            let mut from = 0;
            if first {
                for i in 0..3 {
                    let v = if i < n { call[i * ch + c] } else { 0 };
                    hist[c] = [hist[c][1], hist[c][2], v];
                    total += 16;
                }
                from = n.min(3);
            }
            let mut cost = [0u64; 15];
            for i in from..n {
                let v = call[i * ch + c];
                let r = residual(v, predict(hist[c]));
                for k in 1..15 {
                    cost[k] += rice_len(r, k as u32);
                }
                hist[c] = [hist[c][1], hist[c][2], v];
            }
            total += (1..15).map(|k| cost[k]).min().unwrap();
        }
        first = false;
    }
    total
}
