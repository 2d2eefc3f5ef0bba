//! Reference models and signal families.

use crate::*;

/// 16-bit PCM storage of a float sample: clamp, scale by 32767, drop the fraction; NaN is 0
pub fn quant(x: f32) -> i16 {
    if x.is_nan() {
        return 0;
    }
    let c = if x > 1.0 {
        1.0
    } else if x < -1.0 {
        -1.0
    } else {
        x
    };
    (c * 32767.0f32).trunc() as i16
}

/// the 16-bit value a decoded float stands for, or None if it is not (nearly) one
pub fn as_pcm(x: f32) -> Option<i16> {
    let v = x as f64 * 32767.0;
    let r = v.round();
    ((v - r).abs() < 0.01 && r.abs() <= 32768.0).then_some(r as i32 as i16)
}

pub fn same_pcm(x: f32, want: i16) -> bool {
    as_pcm(x) == Some(want)
}

/// deterministic noise, independent of the code under test
#[derive(Clone)]
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as u32
    }
    /// in [-1, 1)
    pub fn unit(&mut self) -> f32 {
        (self.next() & 0xff_ffff) as f32 / 8388608.0 - 1.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sig {
    Silence,
    Dc,
    Ramp,
    Sine,
    Quiet,
    Loud,
    /// full-scale alternation: the largest residuals there are
    Square,
    Square3,
    Impulse,
    /// silence, then noise: parameter must change between blocks
    Burst,
    /// every step within one 16-bit step, and halfway values
    Dither,
    /// out of range, infinite, NaN, denormal values among ordinary ones
    Wild,
}
pub const SIGS: [Sig; 12] = [
    Sig::Silence,
    Sig::Dc,
    Sig::Ramp,
    Sig::Sine,
    Sig::Quiet,
    Sig::Loud,
    Sig::Square,
    Sig::Square3,
    Sig::Impulse,
    Sig::Burst,
    Sig::Dither,
    Sig::Wild,
];
/// signals within [-1, 1]
pub const TAME: [Sig; 11] = [
    Sig::Silence,
    Sig::Dc,
    Sig::Ramp,
    Sig::Sine,
    Sig::Quiet,
    Sig::Loud,
    Sig::Square,
    Sig::Square3,
    Sig::Impulse,
    Sig::Burst,
    Sig::Dither,
];

/// `n` blocks of `ch` interleaved samples; channels differ from each other
pub fn signal(s: Sig, n: usize, ch: usize) -> Vec<f32> {
    signal_from(s, 0, n, ch)
}

/// like `signal`, with another starting point in the family
pub fn signal_from(s: Sig, start: usize, n: usize, ch: usize) -> Vec<f32> {
    let mut v = Vec::with_capacity(n * ch);
    let mut rng: Vec<Lcg> = (0..ch).map(|c| Lcg(0x1234_5678 + start as u64 * 7919 + c as u64 * 104729)).collect();
    for r in rng.iter_mut() {
        r.next();
    }
    for i in 0..n {
        let k = i + start;
        for (c, rng) in rng.iter_mut().enumerate() {
            let kc = k + c;
            let x = match s {
                Sig::Silence => 0.0,
                Sig::Dc => 0.5 - 0.07 * (c % 13) as f32,
                Sig::Ramp => (((k * 37 + c * 1000) % 65000) as f32 / 32500.0) - 1.0,
                Sig::Sine => 0.8 * ((k as f32) * 0.05 + c as f32).sin(),
                Sig::Quiet => rng.unit() * 4.0 / 32767.0,
                Sig::Loud => rng.unit(),
                Sig::Square => [1.0, -1.0][kc % 2],
                Sig::Square3 => [1.0, 1.0, -1.0, -1.0, -1.0][kc % 5],
                Sig::Impulse => {
                    if kc % 97 == 5 {
                        [1.0, -1.0][(kc / 97) % 2]
                    } else {
                        0.0
                    }
                }
                Sig::Burst => {
                    if (k / 50) % 2 == 0 {
                        0.001
                    } else {
                        rng.unit()
                    }
                }
                Sig::Dither => ((k * 3 + c) as f32 * 0.37 - 40.0) / 32767.0 % 0.4,
                Sig::Wild => {
                    const W: [f32; 14] = [
                        0.0,
                        f32::NAN,
                        2.0,
                        -3.0,
                        f32::INFINITY,
                        f32::NEG_INFINITY,
                        -0.0,
                        1e-42,
                        0.25,
                        1.0,
                        -1.0,
                        f32::MAX,
                        -f32::MIN_POSITIVE,
                        0.999_999_9,
                    ];
                    W[(kc * 5 + k / 14) % 14]
                }
            };
            v.push(x);
        }
    }
    v
}

/// what a level-0 recording must decode to: the whole blocks of each call, in order
#[derive(Clone, Default)]
pub struct Rec {
    pub ch: usize,
    pub pcm: Vec<i16>,
}
impl Rec {
    pub fn new(ch: usize) -> Self {
        Rec { ch, pcm: vec![] }
    }
    pub fn encode(&mut self, x: &[f32]) -> usize {
        let n = x.len() / self.ch * self.ch;
        self.pcm.extend(x[..n].iter().map(|&s| quant(s)));
        n
    }
    pub fn hash(&self) -> u64 {
        hash_i16(&self.pcm) ^ (self.ch as u64).wrapping_mul(0x9e3779b97f4a7c15)
    }
    pub fn blocks(&self) -> usize {
        self.pcm.len() / self.ch
    }
}

/// decodes to the end; `want` bounds how much a correct codec can deliver
pub fn drain<S: Streamable>(ctx: &mut Ctx, c: &mut S, buf: usize, want: usize) -> Vec<f32> {
    let mut out = Vec::with_capacity(want);
    let mut b = vec![0.0f32; buf];
    while let Some(n) = c.decode(&mut b) {
        ctx.ensure(n > 0 && n <= buf, || format!("decode into {buf} samples reported {n}"));
        out.extend_from_slice(&b[..n]);
        ctx.ensure(out.len() <= want + 4 * buf, || {
            format!("decode delivered {} samples and goes on; {want} expected", out.len())
        });
    }
    ctx.ops((want / buf) as u64 + 1, || format!("decode to the end with buffers of {buf}: {} samples", out.len()));
    out
}

/// compares decoded samples with the 16-bit model
pub fn expect_pcm(ctx: &mut Ctx, got: &[f32], want: &[i16], what: &str) {
    if let Some(i) = (0..got.len().min(want.len())).find(|&i| !same_pcm(got[i], want[i])) {
        ctx.fail(format!(
            "{what}: sample {i} of {} decodes to {} (16-bit {:?}), expected {} (16-bit {})",
            want.len(),
            got[i],
            as_pcm(got[i]),
            want[i] as f32 / 32767.0,
            want[i]
        ));
    }
    ctx.ensure(got.len() == want.len(), || format!("{what}: {} samples decoded, {} expected", got.len(), want.len()));
}

pub fn encode(ctx: &mut Ctx, c: &mut AdhocCodec, x: &[f32], ch: usize) {
    let want = x.len() / ch * ch;
    ctx.op(|| format!("encode({} samples {})", x.len(), short(x)));
    let r = Streamable::encode(c, x);
    ctx.ensure(r == Some(want), || format!("encode of {} samples in {ch} channels reported {r:?}, expected {want}", x.len()));
}

pub fn short(x: &[f32]) -> String {
    if x.len() <= 8 {
        format!("{x:?}")
    } else {
        format!("{:?}..", &x[..6])
    }
}

pub fn adhoc(rate: u32, ch: usize, level: u32) -> AdhocCodec {
    AdhocCodec::new().with_compression_level(level).with_info(StreamInfo::new(rate, ch as u32))
}

pub fn save(c: &AdhocCodec) -> Vec<u8> {
    let mut v = Vec::new();
    c.save_to(&mut v).expect("saving into a vector");
    v
}
pub fn load(b: &[u8]) -> Option<AdhocCodec> {
    AdhocCodec::load(b)
}
pub fn save_wav(c: &WavCodec) -> Vec<u8> {
    let mut v = Vec::new();
    c.save_to(&mut v).expect("saving into a vector");
    v
}
pub fn load_wav(b: &[u8]) -> Result<WavCodec, &'static str> {
    WavCodec::load(std::io::Cursor::new(b))
}

/// size shapes around every storage threshold visible in the code
pub const SIZES: [usize; 18] = [0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097];

/// a recording to make: one encode call per entry of `sizes` (in blocks)
#[derive(Clone, Debug)]
pub struct Spec {
    pub rate: u32,
    pub ch: usize,
    pub level: u32,
    pub sig: Sig,
    pub sizes: Vec<usize>,
}
impl Spec {
    pub fn new(rate: u32, ch: usize, level: u32, sig: Sig, sizes: &[usize]) -> Self {
        Spec { rate, ch, level, sig, sizes: sizes.to_vec() }
    }
    pub fn blocks(&self) -> usize {
        self.sizes.iter().sum()
    }
    pub fn calls(&self) -> Vec<Vec<f32>> {
        let mut at = 0;
        self.sizes
            .iter()
            .map(|&n| {
                at += n;
                signal_from(self.sig, at - n, n, self.ch)
            })
            .collect()
    }
    pub fn pcm(&self) -> Vec<i16> {
        self.calls().iter().flatten().map(|&x| quant(x)).collect()
    }
    /// a codec holding the recording, as encoding left it
    pub fn codec(&self, ctx: &mut Ctx) -> AdhocCodec {
        let mut c = adhoc(self.rate, self.ch, self.level);
        for x in self.calls() {
            encode(ctx, &mut c, &x, self.ch);
        }
        c
    }
    /// every sample of the recording: a fresh codec, decoded in one call. At level 0 it must be the 16-bit model.
    pub fn reference(&self, ctx: &mut Ctx) -> Vec<f32> {
        let mut c = self.codec(ctx);
        c.init();
        let want = self.blocks() * self.ch;
        let mut b = vec![0.0f32; want + 2 * self.ch];
        let n = Streamable::decode(&mut c, &mut b);
        ctx.op(|| format!("reference: {self:?} decoded in one call of {}: {n:?}", b.len()));
        ctx.ensure(n.unwrap_or(0) == want, || format!("{self:?} decodes to {n:?} samples in one call, expected {want}"));
        b.truncate(want);
        if self.level == 0 {
            expect_pcm(ctx, &b, &self.pcm(), "one decode call");
        }
        b
    }
}

/// the rest of a stream must be exactly these samples (bit for bit)
pub fn expect_rest<S: Streamable>(ctx: &mut Ctx, c: &mut S, buf: usize, want: &[f32], what: &str) {
    let got = drain(ctx, c, buf, want.len());
    expect_same(ctx, &got, want, what);
}
pub fn expect_same(ctx: &mut Ctx, got: &[f32], want: &[f32], what: &str) {
    if let Some(i) = (0..got.len().min(want.len())).find(|&i| got[i].to_bits() != want[i].to_bits()) {
        ctx.fail(format!("{what}: sample {i} of {} is {}, expected {}", want.len(), got[i], want[i]));
    }
    ctx.ensure(got.len() == want.len(), || format!("{what}: {} samples, expected {}", got.len(), want.len()));
    ctx.outcome(hash_f32(got));
}
