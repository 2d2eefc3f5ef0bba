//! C11: a wav stream behaves as a sample array with one cursor under any operation mix
use mc::*;

struct M {
    ch: usize,
    rate: u32,
    pcm: Vec<i16>,
    cur: usize,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    /// samples
    Enc(usize),
    /// buffer length
    Dec(usize),
    Seek(SeekFrom),
}
use Op::*;

fn blocks(rate: u32, ms: i128) -> i128 {
    // truncated toward zero
    rate as i128 * ms / 1000
}

fn apply(ctx: &mut Ctx, c: &mut WavCodec, m: &mut M, op: Op, salt: usize) {
    let ch = m.ch;
    match op {
        Enc(n) => {
            let x: Vec<f32> = (0..n).map(|i| ((salt * 131 + i * 17 + 5) % 2000) as f32 / 1000.0 - 1.0).collect();
            ctx.op(|| format!("encode({n} samples) at {} of {}", m.cur, m.pcm.len()));
            let r = c.encode(&x);
            let want = n / ch * ch;
            ctx.ensure(r == Some(want), || format!("encode of {n} samples in {ch} channels reported {r:?}, expected {want}"));
            for &s in &x[..want] {
                if m.cur < m.pcm.len() {
                    m.pcm[m.cur] = quant(s);
                } else {
                    m.pcm.push(quant(s));
                }
                m.cur += 1;
            }
        }
        Dec(n) => {
            let s = [123.5f32, -77.25][n % 2];
            let mut b = vec![s; n];
            ctx.op(|| format!("decode(buffer of {n}) at {} of {}", m.cur, m.pcm.len()));
            let r = c.decode(&mut b);
            let want = (n / ch * ch).min(m.pcm.len() - m.cur);
            ctx.ensure(r == (want > 0).then_some(want), || {
                format!("decode into {n} samples at {} of {} in {ch} channels reported {r:?}, expected {want}", m.cur, m.pcm.len())
            });
            for i in 0..want {
                let e = m.pcm[m.cur + i] as f32 / 32767.0;
                ctx.ensure((b[i] - e).abs() < 1e-6, || format!("sample {} is {}, expected {e}", m.cur + i, b[i]));
            }
            for i in want..n {
                ctx.ensure(b[i].to_bits() == s.to_bits(), || format!("decode reported {want}, but element {i} of the buffer was changed to {}", b[i]));
            }
            m.cur += want;
        }
        Seek(s) => {
            ctx.op(|| format!("seek({s:?}) at {} of {}", m.cur, m.pcm.len()));
            c.seek(s);
            let n = (m.pcm.len() / ch) as i128;
            let at = match s {
                SeekFrom::Start(t) => blocks(m.rate, t as i128),
                SeekFrom::Current(t) => (m.cur / ch) as i128 + blocks(m.rate, t as i128),
                SeekFrom::End(t) => n + blocks(m.rate, t as i128),
            };
            m.cur = at.clamp(0, n) as usize * ch;
        }
    }
}

/// the rest from the cursor, the end, and the whole content
fn finish(ctx: &mut Ctx, c: &mut WavCodec, m: &mut M) {
    let from = m.cur;
    let want = m.pcm[from..].to_vec();
    let got = drain(ctx, c, 16 * m.ch, want.len());
    for i in 0..got.len().min(want.len()) {
        let e = want[i] as f32 / 32767.0;
        ctx.ensure((got[i] - e).abs() < 1e-6, || format!("sample {} after the last operation is {}, expected {e}", from + i, got[i]));
    }
    ctx.ensure(got.len() == want.len(), || format!("{} samples from the cursor to the end, expected {} ({from} of {})", got.len(), want.len(), m.pcm.len()));
    c.seek(SeekFrom::Start(0));
    let got = drain(ctx, c, 1000 * m.ch, m.pcm.len());
    ctx.ensure(got.len() == m.pcm.len(), || format!("{} samples in all, expected {}", got.len(), m.pcm.len()));
    for i in 0..got.len() {
        let e = m.pcm[i] as f32 / 32767.0;
        ctx.ensure((got[i] - e).abs() < 1e-6, || format!("sample {i} of the stream is {}, expected {e}", got[i]));
    }
    ctx.state(hash_i16(&m.pcm) ^ from as u64);
    ctx.outcome(hash_i16(&m.pcm) ^ from as u64);
}

fn start(ctx: &mut Ctx, rate: u32, ch: usize, n: usize, loaded: bool) -> (WavCodec, M) {
    let mut c = WavCodec::new(StreamInfo::new(rate, ch as u32));
    let mut m = M { ch, rate, pcm: vec![], cur: 0 };
    if n > 0 {
        apply(ctx, &mut c, &mut m, Enc(n * ch), 99);
    }
    if loaded {
        c = load_wav(&save_wav(&c)).unwrap_or_else(|e| ctx.fail(format!("a saved wav does not load: {e}")));
        ctx.op(|| "save, load".into());
        m.cur = 0;
    }
    (c, m)
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for ch in [1usize, 2, 3] {
        for n in [0usize, 1, 3, 7] {
            for loaded in [false, true] {
                // rate 1000: one block per millisecond; 1500: a block and a half
                for rate in [1000u32, 1500] {
                    let depth = tier.pick(3, 4);
                    v.push(job(format!("sequences ch={ch} blocks={n} loaded={loaded} rate={rate} depth={depth}"), move |ctx| {
                        let mut ops: Vec<Op> = vec![Enc(0), Enc(ch), Enc(2 * ch), Enc(5 * ch), Dec(0), Dec(ch), Dec(2 * ch), Dec(9 * ch)];
                        if ch > 1 {
                            ops.extend([Enc(ch - 1), Enc(3 * ch + 1), Dec(ch - 1), Dec(3 * ch + 1)]);
                        }
                        for t in [0u64, 1, 2, 3, 6, 7, 8, 1 << 40, u64::MAX] {
                            ops.push(Seek(SeekFrom::Start(t)));
                        }
                        for t in [-8i64, -7, -3, -1, 0, 1, 2, i64::MIN, i64::MAX] {
                            ops.push(Seek(SeekFrom::Current(t)));
                            ops.push(Seek(SeekFrom::End(t)));
                        }
                        let (mut c, mut m) = start(ctx, rate, ch, n, loaded);
                        for k in 0..depth {
                            let op = *ctx.pick(&ops);
                            apply(ctx, &mut c, &mut m, op, k);
                        }
                        finish(ctx, &mut c, &mut m);
                    }));
                }
            }
        }
    }
    // a smaller alphabet, deeper
    for ch in [1usize, 2] {
        for n in [0usize, 4] {
            let depth = tier.pick(5, 7);
            v.push(job(format!("deep sequences ch={ch} blocks={n} depth={depth}"), move |ctx| {
                let ops = [
                    Enc(ch),
                    Enc(3 * ch),
                    Dec(2 * ch),
                    Seek(SeekFrom::Start(1)),
                    Seek(SeekFrom::Start(9)),
                    Seek(SeekFrom::Current(-2)),
                    Seek(SeekFrom::Current(1)),
                    Seek(SeekFrom::End(0)),
                    Seek(SeekFrom::End(-1)),
                ];
                let (mut c, mut m) = start(ctx, 1000, ch, n, false);
                for k in 0..depth {
                    let op = *ctx.pick(&ops);
                    apply(ctx, &mut c, &mut m, op, k);
                }
                finish(ctx, &mut c, &mut m);
            }));
        }
    }
    // the arithmetic: every millisecond at the usual rates, from all origins
    for rate in [0u32, 1, 7, 999, 1001, 8000, 11025, 22050, 44100, 48000, 88200, 96000, 192_000, u32::MAX] {
        for ch in [1usize, 2] {
            v.push(job(format!("every millisecond rate={rate} ch={ch}"), move |ctx| {
                let n = (rate as usize).clamp(50, ctx.tier.pick(60_000, 200_000));
                let (mut c, mut m) = start(ctx, rate, ch, n, false);
                let len = if rate == 0 { 10 } else { (n as u64 * 1000 / rate as u64 + 2).min(2000) as i64 };
                let origin = ctx.choose(3);
                let mut times: Vec<i64> = (0..=len).collect();
                times.extend([1 << 24, (1 << 24) + 1, 1 << 31, 1 << 40, 1 << 53, i64::MAX / 1000, i64::MAX]);
                for t in times {
                    match origin {
                        0 => apply(ctx, &mut c, &mut m, Seek(SeekFrom::Start(t as u64)), 0),
                        1 => apply(ctx, &mut c, &mut m, Seek(SeekFrom::End(-t)), 0),
                        _ => {
                            apply(ctx, &mut c, &mut m, Seek(SeekFrom::Start(len as u64 / 2)), 0);
                            apply(ctx, &mut c, &mut m, Seek(SeekFrom::Current(if t % 2 == 0 { t / 2 } else { -t / 2 })), 0);
                        }
                    }
                    apply(ctx, &mut c, &mut m, Dec(2 * ch), 0);
                    ctx.state(m.cur as u64 ^ (rate as u64) << 32);
                }
                finish(ctx, &mut c, &mut m);
            }));
        }
    }
    // long streams: cursors beyond 16 and 24 bits
    v.push(job("long streams", |ctx| {
        let ch = 1 + ctx.choose(2);
        let (mut c, mut m) = start(ctx, 1000, ch, 140_000, false);
        let ops = [
            Seek(SeekFrom::Start(65_536)),
            Seek(SeekFrom::Start(131_073)),
            Seek(SeekFrom::End(-65_537)),
            Seek(SeekFrom::Current(-70_001)),
            Enc(66_000 * ch),
            Dec(65_537 * ch),
        ];
        for k in 0..3 {
            let op = *ctx.pick(&ops);
            apply(ctx, &mut c, &mut m, op, k);
        }
        finish(ctx, &mut c, &mut m);
    }));
    // one call larger than 2^16, 2^20 and 2^22 samples, also in channel counts that do not divide those
    for ch in [1usize, 2, 3, 5, 7] {
        v.push(job(format!("large calls ch={ch}"), move |ctx| {
            let (loaded, at) = (ctx.flag(), *ctx.pick(&[0, 7]));
            let (mut c, mut m) = start(ctx, 1000, ch, (9 << 19) / ch, loaded);
            apply(ctx, &mut c, &mut m, Seek(SeekFrom::Start(at)), 0);
            for k in 0..2 {
                let op = *ctx.pick(&[Dec((1 << 16) + 1), Dec((1 << 20) + 3), Dec(1 << 22), Dec(9 << 19), Enc((1 << 20) + ch), Enc((1 << 16) + 1), Dec(40)]);
                apply(ctx, &mut c, &mut m, op, k);
            }
            apply(ctx, &mut c, &mut m, Dec(12 * ch), 0);
            ctx.state(m.cur as u64);
        }));
    }
    v.push(job("longer than 2^24 blocks", |ctx| {
        let (mut c, mut m) = start(ctx, 48_000, 1, (1 << 24) + 100_000, false);
        for t in [349_525i64, 349_526, 350_000, 351_000, 351_111, 351_609] {
            apply(ctx, &mut c, &mut m, Seek(SeekFrom::Start(t as u64)), 0);
            apply(ctx, &mut c, &mut m, Dec(5), 0);
            apply(ctx, &mut c, &mut m, Seek(SeekFrom::End(-t)), 0);
            apply(ctx, &mut c, &mut m, Dec(5), 0);
        }
    }));
    // offsets of more than 31 and 32 bits that stay inside the stream
    v.push(job("times beyond 2^32 inside the stream", |ctx| {
        let n = 9_000_000usize;
        let (mut c, mut m) = start(ctx, 1, 1, n, false);
        for k in 0..ctx.tier.pick(1, 2) {
            let op = match (ctx.choose(5), *ctx.pick(&[(1i64 << 31) - 1, 1 << 31, (1 << 31) + 5000, (1 << 32) - 1, 1 << 32, (1 << 32) + 7500])) {
                (0, t) => Seek(SeekFrom::Start(t as u64)),
                (1, t) => Seek(SeekFrom::End(-t)),
                (2, t) => Seek(SeekFrom::Current(t)),
                (3, t) => Seek(SeekFrom::Current(-t)),
                (_, t) => {
                    apply(ctx, &mut c, &mut m, Seek(SeekFrom::Start(4_500_000_000)), k);
                    Seek(SeekFrom::Current(if t % 2 == 0 { t } else { -t }))
                }
            };
            apply(ctx, &mut c, &mut m, op, k);
            apply(ctx, &mut c, &mut m, Dec(3), k);
        }
        apply(ctx, &mut c, &mut m, Enc(2), 5);
        apply(ctx, &mut c, &mut m, Seek(SeekFrom::Current(-5000)), 0);
        apply(ctx, &mut c, &mut m, Dec(9), 0);
        ctx.state(m.cur as u64);
        ctx.outcome(m.cur as u64);
    }));
    // more than 2^30 samples, 2^31 bytes
    for ch in [1usize, 2] {
        v.push(job(format!("longer than 2^30 samples ch={ch}"), move |ctx| {
            let _one = scale::alone();
            let samples = (1u64 << 30) + 200_000;
            let blocks = samples / ch as u64;
            let mut c = match WavCodec::load(scale::Synth::wav(ch as u16, 48_000, samples)) {
                Ok(c) => c,
                Err(e) => ctx.fail(format!("a wav file of {samples} samples is refused: {e}")),
            };
            ctx.op(|| format!("load of {samples} samples"));
            let far = blocks / 48 - 1;
            for e in [1u64 << 23, 1 << 24, 1 << 27, 1 << 29, blocks - 1, blocks - 4800] {
                let ms = (e * 1000).div_ceil(48_000).min(far);
                let at = 48_000 * ms / 1000;
                c.seek(SeekFrom::Start(ms));
                scale::expect_pattern(ctx, &mut c, at * ch as u64, 8 * ch, &format!("after seek(Start({ms}))"));
                // back by the same way from the end
                let back = (far + 1 - ms) as i64;
                let from_end = blocks - 48_000 * back as u64 / 1000;
                if back > 0 {
                    c.seek(SeekFrom::End(-back));
                    scale::expect_pattern(ctx, &mut c, from_end * ch as u64, 8 * ch, &format!("after seek(End({}))", -back));
                    c.seek(SeekFrom::Start(0));
                    c.seek(SeekFrom::Current(ms as i64));
                    scale::expect_pattern(ctx, &mut c, at * ch as u64, 8 * ch, &format!("after seek(Current({ms})) from the start"));
                }
                // overwrite here, and look at both sides
                c.seek(SeekFrom::Start(ms));
                let x = vec![0.5f32; ch];
                let r = c.encode(&x);
                ctx.ensure(r == Some(ch), || format!("encode of a block at {at} reported {r:?}"));
                scale::expect_pattern(ctx, &mut c, (at + 1) * ch as u64, 4.min((blocks - at - 1) as usize) * ch, "behind an overwritten block");
                c.seek(SeekFrom::Start(ms - 1));
                scale::expect_pattern(ctx, &mut c, (at - 48) * ch as u64, 48 * ch, "before an overwritten block");
                let mut b = vec![0.0f32; ch];
                let r = c.decode(&mut b);
                ctx.ensure(r == Some(ch) && b.iter().all(|&v| same_pcm(v, 16383)), || format!("a block overwritten at {at} is {b:?} ({r:?})"));
                let undo: Vec<f32> = (0..ch as u64).map(|i| { let p = scale::pattern(at * ch as u64 + i).max(-32767); (p as f32 + 0.5 * p.signum() as f32) / 32767.0 }).collect();
                c.seek(SeekFrom::Start(ms));
                c.encode(&undo);
                ctx.state(at);
            }
            // append
            c.seek(SeekFrom::End(0));
            let r = c.decode(&mut vec![0.0; ch]);
            ctx.ensure(r.is_none(), || format!("decode at the end reported {r:?}"));
            let r = c.encode(&vec![0.25; 3 * ch]);
            let bits = c.filesize_upperbound();
            ctx.ensure(r == Some(3 * ch) && bits == (44 + 2 * (samples + 3 * ch as u64)) * 8, || format!("appending {} samples reported {r:?}, then {bits} bits", 3 * ch));
            ctx.outcome(bits);
        }));
    }
    // more than 2^31 samples, 2^32 bytes: as long as a file can be, and then longer
    v.push(job("longer than 2^31 samples", |ctx| {
        let _one = scale::alone();
        let (ch, loaded) = (2u64, (1u64 << 31) - 40);
        let mut c = match WavCodec::load(scale::Synth::wav(ch as u16, 48_000, loaded)) {
            Ok(c) => c,
            Err(e) => ctx.fail(format!("a wav file of {loaded} samples is refused: {e}")),
        };
        c.seek(SeekFrom::End(0));
        let more: Vec<f32> = (0..200_000u64).map(|k| { let p = scale::pattern(loaded + k).max(-32767); (p as f32 + 0.5 * p.signum() as f32) / 32767.0 }).collect();
        let r = c.encode(&more);
        ctx.op(|| format!("load of {loaded} samples, encode of {} at the end: {r:?}", more.len()));
        ctx.ensure(r == Some(more.len()), || format!("appending {} samples to {loaded} reported {r:?}", more.len()));
        let blocks = (loaded + more.len() as u64) / ch;
        let bits = c.filesize_upperbound();
        ctx.ensure(bits == (44 + 2 * blocks * ch) * 8, || format!("{} samples, {bits} bits", blocks * ch));
        // from -32768 on reading there are two patterns: the appended part has none below -32767
        let mut at = |ctx: &mut Ctx, to: SeekFrom, block: u64| {
            c.seek(to);
            let n = 16.min(blocks - block) as usize * ch as usize;
            let mut b = vec![0.0f32; n + 1];
            let r = c.decode(&mut b);
            ctx.op(|| format!("seek({to:?}), decode = {r:?}"));
            ctx.ensure(r.unwrap_or(0) == n, || format!("{blocks} blocks: after seek({to:?}) decode reported {r:?}, expected {n}"));
            for i in 0..n as u64 {
                let k = block * ch + i;
                let p = scale::pattern(k);
                let want = if k < loaded { p } else { p.max(-32767) };
                ctx.ensure(same_pcm(b[i as usize], want), || format!("{blocks} blocks: after seek({to:?}) sample {i} is {}, expected {}", b[i as usize], want as f32 / 32767.0));
            }
            ctx.state(block);
        };
        let last = blocks / 48;
        for ms in [0, 1, last / 2, loaded / ch / 48, loaded / ch / 48 + 1, last - 1, last] {
            at(ctx, SeekFrom::Start(ms), ms * 48);
            at(ctx, SeekFrom::End(-((last - ms) as i64)), blocks - (last - ms) * 48);
        }
        at(ctx, SeekFrom::Start(last + 1), blocks);
        at(ctx, SeekFrom::Current(-1), blocks - 48);
        at(ctx, SeekFrom::Current(i64::MIN), 0);
        at(ctx, SeekFrom::Current(i64::MAX), blocks);
        ctx.outcome(blocks);
    }));
    v.extend(cover::jobs("walks", tier.pick(2, 1), 24, &[0], |ctx, spec, k| {
        let ch = spec.ch;
        let (mut c, mut m) = start(ctx, spec.rate, ch, 0, false);
        for (i, &n) in spec.sizes.iter().enumerate() {
            apply(ctx, &mut c, &mut m, Enc(n * ch + (k + i) % ch), i);
            // a number of milliseconds that stays within the stream, and one that leaves it
            let len = (m.pcm.len() / ch) as u64 * 1000 / spec.rate as u64;
            let t = (i as u64 * 37 + k as u64 * 11) % (len + 2);
            match (i + k) % 7 {
                0 => apply(ctx, &mut c, &mut m, Seek(SeekFrom::Current(-(t as i64) / 2)), i),
                1 => apply(ctx, &mut c, &mut m, Seek(SeekFrom::Start(t)), i),
                2 => apply(ctx, &mut c, &mut m, Seek(SeekFrom::End(-(t as i64))), i),
                3 => apply(ctx, &mut c, &mut m, Seek(SeekFrom::End(0)), i),
                _ => {}
            }
            if (i + k) % 3 != 0 {
                apply(ctx, &mut c, &mut m, Dec(cover::buffer(k, i) * ch + (k + 2 * i) % ch), i);
            }
        }
        finish(ctx, &mut c, &mut m);
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C11",
        "model_checking",
        "a state is the sample array and the cursor; a transition is one encode, decode or seek; after every sequence the rest from the cursor and the whole content are compared with the model",
        jobs,
    ))
}
