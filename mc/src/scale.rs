//! recordings and streams that are large in one direction: channels, frames, frame size, bytes
use crate::*;
use std::io::{self, Read, Seek, SeekFrom as From, Write};
use std::sync::{Mutex, MutexGuard};

/// channel counts around every width a count could be kept in
pub const WIDE: [usize; 19] =
    [8, 9, 16, 17, 33, 64, 100, 127, 128, 255, 256, 257, 1000, 4099, 32_768, 65_535, 65_536, 65_537, 100_000];

/// (channels, call sizes) of recordings with more frames than a 16-bit index reaches
pub fn tall(tier: Tier) -> Vec<(usize, Vec<usize>)> {
    let mut v = vec![(1, vec![1; 66_000]), (1, vec![3; 131_080]), (2, vec![1; 33_000]), (5, vec![2; 14_000])];
    if tier.thorough() {
        v.extend([(3, vec![1; 100_000]), (1, vec![2; 1_100_000]), (7, vec![5; 40_000])]);
    }
    v
}

static ONE: Mutex<()> = Mutex::new(());
/// executions that take gigabytes run one at a time
pub fn alone() -> MutexGuard<'static, ()> {
    ONE.lock().unwrap_or_else(|e| e.into_inner())
}

/// A loaded codec of `n` frames of `filler` silent blocks in one channel, then three frames of 300 samples.
/// The rate is 1000, so a block lasts a millisecond.
pub fn mostly_silent(ctx: &mut Ctx, n: usize, filler: usize, k: u32) -> (AdhocCodec, Vec<i16>) {
    let bits = |i: usize| if i == 0 { 48 + (filler - 3) * (2 + k as usize) } else { filler * (2 + k as usize) };
    let mut f = format::File { info: Some((1000, 1)), ..Default::default() };
    let mut pos = 0;
    for i in 0..n {
        f.frames.push(format::Frame { k, init: i == 0, size: filler as u16, bit: pos as u64, hist: [0; 3] });
        pos += bits(i);
    }
    let mut w = format::BitW { words: vec![0; pos.div_ceil(128)], pos };
    let tail: Vec<i16> = signal(Sig::Loud, 900, 1).iter().map(|&x| quant(x)).collect();
    let mut hist = [0i16; 3];
    for part in tail.chunks(300) {
        f.frames.push(format::Frame { k: 13, init: false, size: 300, bit: w.pos as u64, hist });
        for &x in part {
            w.rice(format::residual(x, format::predict(hist)), 13);
            hist = [hist[1], hist[2], x];
        }
    }
    f.header_cursor = f.frames.len() as u32;
    (f.bit_cursor, f.capacity) = (w.pos as u128, w.pos as u128);
    f.words = std::mem::take(&mut w.words);
    let bytes = f.bytes();
    drop(f);
    let Some(c) = load(&bytes) else { ctx.fail(format!("a file of {pos} bits of silence and 900 samples does not load")) };
    ctx.op(|| format!("load of {} bytes, {n} frames of {filler} blocks of silence before the last three", bytes.len()));
    (c, tail)
}

// ------------------------------------------------------------------------------------------------ large wav files

/// sample `k` of a large file; its period is odd and not a power of two
pub fn pattern(k: u64) -> i16 {
    ((k % PERIOD) * 40_503 % 65_521) as u16 as i16
}
pub const PERIOD: u64 = 100_003;

/// the bytes `head`, then `bytes` of repeated pattern, then `tail`; nothing of it is held in memory
pub struct Synth {
    pub head: Vec<u8>,
    pub bytes: u64,
    pub tail: Vec<u8>,
    pub pos: u64,
    pub max: usize,
    /// reading at or beyond this byte fails
    pub fails_at: u64,
    unit: Vec<u8>,
}
impl Synth {
    pub fn new(head: Vec<u8>, unit: Vec<u8>, bytes: u64, tail: Vec<u8>) -> Self {
        Synth { head, bytes, tail, pos: 0, max: usize::MAX, fails_at: u64::MAX, unit }
    }
    /// a 16-bit wav file of `samples` pattern samples
    pub fn wav(channels: u16, rate: u32, samples: u64) -> Self {
        let unit = (0..PERIOD).flat_map(|k| pattern(k).to_le_bytes()).collect();
        Synth::new(wav_header(channels, rate, 16, samples * 2), unit, samples * 2, vec![])
    }
    pub fn len(&self) -> u64 {
        self.head.len() as u64 + self.bytes + self.tail.len() as u64
    }
    /// what lies at the cursor, up to `max` bytes
    fn piece(&self) -> &[u8] {
        let h = self.head.len() as u64;
        let p = self.pos;
        let s = if p < h {
            &self.head[p as usize..]
        } else if p < h + self.bytes {
            let at = p - h;
            let i = (at % self.unit.len() as u64) as usize;
            let s = &self.unit[i..];
            &s[..(s.len() as u64).min(self.bytes - at) as usize]
        } else {
            &self.tail[((p - h - self.bytes) as usize).min(self.tail.len())..]
        };
        &s[..s.len().min(self.max)]
    }
}
pub fn wav_header(channels: u16, rate: u32, bits: u16, data: u64) -> Vec<u8> {
    let data = data as u32;
    let mut v = b"RIFF".to_vec();
    v.extend((36 + data).to_le_bytes());
    v.extend(b"WAVE");
    v.extend(riff::fmt_chunk(16, 1, channels, rate, bits));
    v.extend(b"data");
    v.extend(data.to_le_bytes());
    v
}
impl Read for Synth {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.fails_at {
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        let s = self.piece();
        let n = s.len().min(b.len()).min((self.fails_at - self.pos).min(1 << 40) as usize);
        b[..n].copy_from_slice(&s[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Synth {
    fn seek(&mut self, to: From) -> io::Result<u64> {
        let p = match to {
            From::Start(p) => p as i128,
            From::Current(d) => self.pos as i128 + d as i128,
            From::End(d) => self.len() as i128 + d as i128,
        };
        if p < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "before the start"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// a destination that only compares what is written with what should be
pub struct Compare {
    pub want: Synth,
    /// at most this much is taken by one call
    pub max: usize,
    /// writing at or beyond this byte fails
    pub fails_at: u64,
    pub written: u64,
    pub wrong: Option<u64>,
}
impl Compare {
    pub fn new(want: Synth) -> Self {
        Compare { want, max: usize::MAX, fails_at: u64::MAX, written: 0, wrong: None }
    }
    pub fn verdict(&self) -> Result<(), String> {
        if let Some(at) = self.wrong {
            return Err(format!("byte {at} of {} is wrong", self.want.len()));
        }
        if self.written != self.want.len() {
            return Err(format!("{} bytes were written, the file has {}", self.written, self.want.len()));
        }
        Ok(())
    }
}
impl Write for Compare {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.written >= self.fails_at {
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        let n = b.len().min(self.max).min((self.fails_at - self.written).min(1 << 40) as usize);
        let mut left = &b[..n];
        while !left.is_empty() && self.wrong.is_none() {
            let s = self.want.piece();
            let k = s.len().min(left.len());
            if k == 0 || s[..k] != left[..k] {
                let i = (0..k).find(|&i| s[i] != left[i]).unwrap_or(0);
                self.wrong = Some(self.want.pos + i as u64);
                break;
            }
            self.want.pos += k as u64;
            left = &left[k..];
        }
        self.written += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// decodes the next samples and compares them with the pattern, starting at its sample `from`
pub fn expect_pattern(ctx: &mut Ctx, c: &mut WavCodec, from: u64, n: usize, what: &str) {
    let mut b = vec![0.0f32; n];
    let r = c.decode(&mut b);
    ctx.op(|| format!("decode({n}) = {r:?}"));
    ctx.ensure(r.unwrap_or(0) == n, || format!("{what}: decode of {n} samples at sample {from} reported {r:?}"));
    for i in 0..n {
        let want = pattern(from + i as u64);
        ctx.ensure(same_pcm(b[i], want), || {
            format!("{what}: sample {} is {}, expected {}", from + i as u64, b[i], want as f32 / 32767.0)
        });
    }
}
