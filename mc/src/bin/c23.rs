//! C23: conversion between float samples and 16-bit PCM, on every value
use mc::*;

/// the 16-bit values a wav stream stores for these floats
fn stored(ctx: &mut Ctx, x: &[f32]) -> Vec<i16> {
    let mut c = WavCodec::new(StreamInfo::new(8000, 1));
    let r = c.encode(x);
    let b = save_wav(&c);
    ctx.ops(x.len() as u64, || format!("encode {} floats from {:?} ({:#010x}) = {r:?}", x.len(), x.first(), x.first().map_or(0, |x| x.to_bits())));
    ctx.ensure(r == Some(x.len()) && b.len() >= 2 * x.len(), || format!("encode of {} samples reported {r:?}, {} bytes saved", x.len(), b.len()));
    b[b.len() - 2 * x.len()..].chunks_exact(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect()
}
fn check(ctx: &mut Ctx, x: &[f32]) {
    let got = stored(ctx, x);
    for (&x, &g) in x.iter().zip(&got) {
        let w = quant(x);
        ctx.ensure(g == w, || format!("{x:?} ({:#010x}) is stored as {g}, expected {w}", x.to_bits()));
    }
    let mut h = H::new(x.len() as u64);
    for &g in &got {
        h.add(g as u16 as u64);
    }
    ctx.outcome(h.get());
    ctx.state(H::new(x.first().map_or(0, |x| x.to_bits() as u64)).add(x.len() as u64).get());
}
/// what a wav stream with these 16-bit values decodes to
fn read(ctx: &mut Ctx, v: &[i16], buf: usize) -> Vec<f32> {
    let f = riff::file(&[riff::fmt_chunk(16, 1, 1, 8000, 16), riff::chunk(b"data", &riff::pcm16(v))]);
    let mut c = load_wav(&f).unwrap_or_else(|e| ctx.fail(format!("a legal wav is refused: {e}")));
    let got = drain(ctx, &mut c, buf, v.len());
    ctx.ensure(got.len() == v.len(), || format!("{} samples decoded, {} expected", got.len(), v.len()));
    got
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    // every 16-bit value: its float, the floats next to it, and the way back
    v.push(job("all 16-bit values", |ctx| {
        let buf = *ctx.pick(&[4096usize, 1, 777, 70_000]);
        let all: Vec<i16> = (i16::MIN..=i16::MAX).collect();
        let got = read(ctx, &all, buf);
        for (i, (&v, &x)) in all.iter().zip(&got).enumerate() {
            let exact = v as f64 / 32767.0;
            ctx.ensure((x as f64 - exact).abs() <= 1.2e-7 * exact.abs().max(1.0 / 32767.0), || format!("{v} reads as {x}, expected {exact}"));
            ctx.ensure(i == 0 || x > got[i - 1], || format!("{v} reads as {x}, not above the {} of the value before it", got[i - 1]));
            ctx.state(H::new(23).add(i as u64).get());
        }
        // symmetric
        for v in 1..=32767usize {
            ctx.ensure(got[32768 + v] == -got[32768 - v], || format!("{v} and -{v} read as {} and {}", got[32768 + v], got[32768 - v]));
        }
        ctx.ensure(got[32768] == 0.0, || format!("0 reads as {}", got[32768]));
        let back = stored(ctx, &got);
        for (&v, &b) in all.iter().zip(&back) {
            ctx.ensure((v as i32 - b as i32).abs() <= 1, || format!("{v} reads and writes back as {b}"));
        }
        check(ctx, &got);
    }));
    // both sides of every step
    v.push(job("all steps", |ctx| {
        let part = ctx.choose(64);
        let sign = [1.0f32, -1.0][ctx.choose(2)];
        let mut x = vec![];
        for v in part * 512..(part + 1) * 512 {
            let at = ((v as f64 / 32767.0) as f32).to_bits();
            for d in -40i32..=40 {
                let b = (at as i64 + d as i64).clamp(0, 0x7fff_ffff) as u32;
                x.push(f32::from_bits(b) * sign);
            }
            x.push((v as f32 + 0.5) / 32767.0 * sign);
        }
        check(ctx, &x);
    }));
    // both sides of every power of two, all specials
    v.push(job("exponents", |ctx| {
        let e = ctx.choose(512) as u32;
        let at = (e / 2) << 23;
        let sign = (e & 1) << 31;
        let x: Vec<f32> = (-300i64..300).map(|d| f32::from_bits(((at as i64 + d) & 0x7fff_ffff) as u32 | sign)).collect();
        check(ctx, &x);
        ctx.op(|| "one by one".into());
        for x in [x[0], x[299], x[300], x[301], x[599]] {
            check(ctx, &[x]);
        }
    }));
    // every bit pattern
    v.push(job("all floats", |ctx| {
        let part = ctx.choose(8192) as u64;
        let each = 1u64 << 19;
        let stride = 1u64;
        let mut from = part * each;
        let end = from + each;
        while from < end {
            let to = (from + (1 << 17) * stride).min(end);
            let x: Vec<f32> = (from..to).step_by(stride as usize).map(|b| f32::from_bits(b as u32)).collect();
            check(ctx, &x);
            from = to;
        }
    }));
    // monotone and symmetric, judged on the stored values alone
    v.push(job("monotone", |ctx| {
        let part = ctx.choose(256) as u32;
        // all magnitudes from 2^-17 up to 1.25, and infinity after it
        let (lo, hi) = (0x3700_0000u32, 0x3fa0_0000u32);
        let step = 1usize;
        let each = (hi - lo) / 256;
        let from = lo + part * each;
        let mut bits: Vec<u32> = (from..from + each).step_by(step).collect();
        bits.push(from + each);
        let x: Vec<f32> = bits.iter().map(|&b| f32::from_bits(b)).collect();
        let neg: Vec<f32> = x.iter().map(|x| -x).collect();
        let a = stored(ctx, &x);
        let b = stored(ctx, &neg);
        for i in 0..a.len() {
            ctx.ensure(i == 0 || a[i] >= a[i - 1], || format!("{:?} is stored as {}, {:?} as {}", x[i - 1], a[i - 1], x[i], a[i]));
            ctx.ensure(a[i] == -b[i], || format!("{:?} is stored as {}, {:?} as {}", x[i], a[i], neg[i], b[i]));
        }
        ctx.state(H::new(77).add(part as u64).get());
    }));
    let _ = tier;
    v
}

fn main() {
    engine::main(Check::new(
        "C23",
        "model_checking",
        "a case is a float or a 16-bit value put through a wav stream (transitions count them); a state is one value or one run of neighbouring values; each is compared with the conversion computed independently",
        jobs,
    ))
}
