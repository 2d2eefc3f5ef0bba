//! C05: seeking in an adhoc recording equals decoding from the start and discarding
use mc::{machine::*, *};

fn target(rate: u32, t: u64) -> u128 {
    rate as u128 * t as u128 / 1000
}

fn seek(ctx: &mut Ctx, c: &mut AdhocCodec, t: u64) {
    ctx.op(|| format!("seek(Start({t}))"));
    Streamable::seek(c, SeekFrom::Start(t));
}

/// decode everything after a seek and compare
fn after(ctx: &mut Ctx, c: &mut AdhocCodec, spec: &Spec, all: &[f32], t: u64, buf: usize) {
    let from = (target(spec.rate, t) * spec.ch as u128).min(all.len() as u128) as usize;
    ctx.state(hash_f32(all) ^ from as u64);
    expect_rest(ctx, c, buf, &all[from..], &format!("after seek({t}) at {} Hz, {} channels", spec.rate, spec.ch));
}

/// what happens before the seek
fn prior(ctx: &mut Ctx, spec: &Spec, all: &[f32], times: &[u64]) -> AdhocCodec {
    let mut c = spec.codec(ctx);
    match ctx.choose(7) {
        0 => {}
        1 => {
            c.init();
            ctx.op(|| "init()".into());
        }
        2 => {
            c = load(&save(&c)).unwrap_or_else(|| ctx.fail("a saved recording does not load".into()));
            ctx.op(|| "save, load".into());
        }
        3 => {
            c.init();
            expect_rest(ctx, &mut c, 2 * spec.ch + 1, all, "decoding before the seek");
        }
        4 => {
            c.init();
            let n = (1 + ctx.choose(spec.blocks().min(9) + 1)) * spec.ch;
            let mut b = vec![0.0; n];
            let r = Streamable::decode(&mut c, &mut b);
            ctx.op(|| format!("decode({n}) = {r:?}"));
        }
        5 => {
            let t = *ctx.pick(times);
            seek(ctx, &mut c, t);
        }
        _ => {
            let t = *ctx.pick(times);
            seek(ctx, &mut c, t);
            let mut b = vec![0.0; 2 * spec.ch];
            let r = Streamable::decode(&mut c, &mut b);
            ctx.op(|| format!("decode({}) = {r:?}", b.len()));
        }
    }
    c
}

const HUGE: [u64; 10] =
    [1 << 24, (1 << 24) + 1, u32::MAX as u64, 1 << 32, 1 << 40, 1 << 53, 1 << 62, u64::MAX / 1000, u64::MAX - 1, u64::MAX];

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let shapes: Vec<Vec<usize>> = vec![
        vec![],
        vec![0],
        vec![1],
        vec![2],
        vec![3],
        vec![4],
        vec![1, 1],
        vec![2, 5],
        vec![3, 3],
        vec![7, 1, 4],
        vec![1; 12],
        vec![4, 0, 4, 2],
        vec![60, 70],
    ];
    // rate 1000: one block per millisecond, so every block is a target
    for ch in [1usize, 2, 3, 5] {
        for level in [0u32, 3, 10] {
            for (i, sizes) in shapes.iter().enumerate() {
                let spec = Spec::new(1000, ch, level, [Sig::Loud, Sig::Square3, Sig::Sine, Sig::Ramp][i % 4], sizes);
                v.push(job(format!("every block {spec:?}"), move |ctx| {
                    let n = spec.blocks() as u64;
                    let mut times: Vec<u64> = (0..n + 3).collect();
                    times.extend(HUGE);
                    let few = [0, 1, 2, 3, n / 2, n.saturating_sub(1), n, n + 1, u64::MAX];
                    let all = spec.reference(ctx);
                    let mut c = prior(ctx, &spec, &all, &few);
                    let t = *ctx.pick(&times);
                    seek(ctx, &mut c, t);
                    after(ctx, &mut c, &spec, &all, t, 3 * spec.ch + 1);
                    let cnt = c.calculate_sample_count_per_channel();
                    ctx.ensure(cnt == n, || format!("sample count {cnt} after seeking, {n} recorded"));
                }));
            }
        }
    }
    // several seeks in a row, with decodes of different sizes between
    for (ch, level, sizes) in [(1usize, 0u32, vec![5usize, 2, 6]), (2, 2, vec![1, 4, 3]), (3, 0, vec![6, 6])] {
        let spec = Spec::new(1000, ch, level, Sig::Loud, &sizes);
        v.push(job(format!("seek sequences {spec:?}"), move |ctx| {
            let n = spec.blocks() as u64;
            let times = [0, 1, 2, 4, 5, 6, 7, n - 1, n, n + 5];
            let all = spec.reference(ctx);
            let mut c = spec.codec(ctx);
            let depth = ctx.tier.pick(3, 4);
            let mut t = 0;
            for d in 0..depth {
                t = *ctx.pick(&times);
                seek(ctx, &mut c, t);
                if d + 1 < depth {
                    let k = ctx.choose(4);
                    if k > 0 {
                        let from = (t.min(n) as usize) * spec.ch;
                        let mut b = vec![0.0; [0, 1, 3, 20][k] * spec.ch];
                        let r = Streamable::decode(&mut c, &mut b);
                        ctx.op(|| format!("decode({}) = {r:?}", b.len()));
                        let want = b.len().min(all.len() - from);
                        ctx.ensure(r.unwrap_or(0) == want, || format!("decode reported {r:?}, expected {want}"));
                        expect_same(ctx, &b[..want], &all[from..from + want], "between seeks");
                    }
                }
            }
            after(ctx, &mut c, &spec, &all, t, 2 * spec.ch);
        }));
    }
    // the arithmetic: every millisecond at the usual rates
    for rate in [0u32, 1, 7, 999, 1001, 4000, 8000, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000, 192000, 705600, u32::MAX] {
        for ch in [1usize, 2] {
            v.push(job(format!("every millisecond rate={rate} ch={ch}"), move |ctx| {
                let want = ctx.tier.pick(20_000, 400_000) / ch;
                let n = want.min((rate as usize).saturating_mul(2)).max(20);
                let sizes: Vec<usize> = (0..n.div_ceil(4096)).map(|i| (n - i * 4096).min(4096)).collect();
                let spec = Spec::new(rate, ch, 0, Sig::Ramp, &sizes);
                let all: Vec<f32> = spec.reference(ctx);
                let mut c = spec.codec(ctx);
                let end = if rate == 0 { 50 } else { (n as u64 * 1000 / rate as u64 + 3).min(3000) };
                let mut b = vec![0.0f32; 8 * ch];
                let mut steps = 0u64;
                let every: Vec<u64> = (0..end).chain(HUGE).collect();
                for &t in &every {
                    Streamable::seek(&mut c, SeekFrom::Start(t));
                    let r = Streamable::decode(&mut c, &mut b);
                    let from = (target(rate, t) * ch as u128).min(all.len() as u128) as usize;
                    let k = (all.len() - from).min(b.len());
                    ctx.ensure(r.unwrap_or(0) == k, || {
                        format!("seek({t}) at {rate} Hz, {ch} channels, {n} blocks: decode reported {r:?}, expected {k}")
                    });
                    ctx.ensure(b[..k] == all[from..from + k], || {
                        format!("seek({t}) at {rate} Hz, {ch} channels: decoding goes on with {:?}, expected {:?}", &b[..k], &all[from..from + k])
                    });
                    ctx.outcome(from as u64 ^ (rate as u64) << 24);
                    ctx.state(from as u64 ^ (rate as u64) << 24);
                    steps += 2;
                }
                ctx.ops(steps, || format!("seek to every millisecond below {end} and decode"));
            }));
        }
    }
    // whole histories: recordings replacing each other between seeks
    for ch in 1..=3usize {
        let ops = vec![
            Do::Seek(5),
            Do::Rec(Sig::Loud, vec![4, 4, 4]),
            Do::Init,
            Do::Rec(Sig::Square, vec![2, 7, 2]),
            Do::Dec(3 * ch),
            Do::Seek(9),
            Do::Rec(Sig::Sine, vec![1]),
            Do::SaveLoad,
            Do::Seek(u64::MAX),
            Do::Seek(2),
        ];
        v.push(histories("histories", ch, tier.pick(5, 7), ops, |ctx, m| {
            let n = m.blocks() as u64;
            if m.at != At::Encoding {
                m.finish(ctx, 4 * m.ch);
            }
            m.finish_by_seeks(ctx, (1..n + 2).rev());
        }));
    }
    // frame sizes around storage limits, targets around frame edges
    for ch in [1usize, 2] {
        for sizes in [vec![65535usize, 65535, 10], vec![65536, 5], vec![40000, 40000], vec![1, 131071, 1], vec![2, 30000]] {
            for level in [0u32, 6] {
                let spec = Spec::new(1000, ch, level, Sig::Sine, &sizes);
                v.push(job(format!("large frames {spec:?}"), move |ctx| {
                    let mut edges = vec![];
                    let mut at = 0u64;
                    for &s in &spec.sizes {
                        for d in [0i64, 1, 2, 3, 4] {
                            edges.push((at as i64 + d) as u64);
                            edges.push((at as i64 - d).max(0) as u64);
                        }
                        at += s as u64;
                    }
                    edges.extend([65534, 65535, 65536, 65537, 131070, 131071, 131072, at - 1, at, at + 1]);
                    edges.sort();
                    edges.dedup();
                    let t = *ctx.pick(&edges);
                    let all = spec.reference(ctx);
                    let mut c = spec.codec(ctx);
                    seek(ctx, &mut c, t);
                    after(ctx, &mut c, &spec, &all, t, 10_000 * spec.ch);
                }));
            }
        }
        // many frames
        for n in [63usize, 64, 65, 129, 300] {
            let spec = Spec::new(1000, ch, 0, Sig::Loud, &vec![3; n]);
            v.push(job(format!("many frames {n} ch={ch}"), move |ctx| {
                let t = ctx.choose(spec.blocks() + 2) as u64;
                let all = spec.reference(ctx);
                let mut c = spec.codec(ctx);
                seek(ctx, &mut c, t);
                after(ctx, &mut c, &spec, &all, t, 100 * spec.ch);
            }));
        }
    }
    // a file whose stream has more than 2^32 bits, and one with more than 2^32 blocks: silence, then frames at the very end
    for (what, filler, k) in [("bits", 65_528usize, 14u32), ("blocks", 65_535, 1)] {
        v.push(job(format!("file beyond 2^32 {what}"), move |ctx| {
            let _one = scale::alone();
            let n = (1usize << 32) / (filler * if k == 1 { 1 } else { 2 + k as usize }) + 2;
            let (mut c, tail) = scale::mostly_silent(ctx, n, filler, k);
            for (d, s) in [(0usize, 0), (1, 0), (299, 0), (300, 0), (301, 0), (650, 0), (899, 0), (900, 0), (0, 3), (0, filler + 7)] {
                let from = n * filler + d - s;
                Streamable::seek(&mut c, SeekFrom::Start(from as u64));
                ctx.op(|| format!("seek to block {from}"));
                let got = drain(ctx, &mut c, 4096, 900 + s);
                let mut want = vec![0i16; s];
                want.extend(&tail[d..]);
                expect_pcm(ctx, &got, &want, &format!("after a seek to block {from}"));
                ctx.state(from as u64);
            }
        }));
    }
    // many channels, many frames, and times of more than 32 bits inside the recording
    for ch in scale::WIDE {
        let spec = Spec::new(1000, ch, 0, Sig::Loud, &[2, 1, 3]);
        v.push(job(format!("wide {spec:?}"), move |ctx| {
            let t = ctx.choose(8) as u64;
            let all = spec.reference(ctx);
            let mut c = spec.codec(ctx);
            if ctx.flag() {
                c = load(&save(&c)).unwrap_or_else(|| ctx.fail("a saved recording does not load".into()));
            }
            seek(ctx, &mut c, t);
            after(ctx, &mut c, &spec, &all, t, 2 * spec.ch);
        }));
    }
    for (ch, sizes) in scale::tall(tier) {
        let spec = Spec::new(1000, ch, 0, Sig::Loud, &sizes);
        v.push(job(format!("tall ch={ch} frames={}", ch * sizes.len()), move |ctx| {
            let n = spec.blocks();
            let all = spec.reference(ctx);
            let mut c = spec.codec(ctx);
            let frame = spec.sizes[0];
            for e in [32_767usize, 32_768, 65_535, 65_536, 65_537, 131_071, 131_072] {
                for d in [0usize, 1] {
                    // around the frame, and the header, of that number
                    for t in [e * frame + d, e / ch * frame + d] {
                        if t <= n {
                            seek(ctx, &mut c, t as u64);
                            let mut b = vec![0.0; 7 * ch];
                            let r = Streamable::decode(&mut c, &mut b);
                            let want = (all.len() - t * ch).min(b.len());
                            ctx.ensure(r.unwrap_or(0) == want, || format!("decode after seek({t}) reported {r:?}, expected {want}"));
                            expect_same(ctx, &b[..want], &all[t * ch..t * ch + want], &format!("after seek({t})"));
                        }
                    }
                }
            }
            seek(ctx, &mut c, n as u64 - 2);
            after(ctx, &mut c, &spec, &all, n as u64 - 2, 100 * ch);
        }));
    }
    v.push(job("times beyond 2^32 inside the recording", |ctx| {
        let rate = 1;
        let n = 4_400_000usize;
        let all: Vec<i16> = (0..n).map(|k| ((k / 3) % 1009) as i16).collect();
        let x: Vec<f32> = all.iter().map(|&v| (v as f32 + 0.5) / 32767.0).collect();
        let mut c = adhoc(rate, 1, 0);
        encode(ctx, &mut c, &x, 1);
        for t in [1u64 << 31, (1 << 31) - 1, (1 << 31) + 1000, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, (1 << 32) + 5_000_500] {
            seek(ctx, &mut c, t);
            let from = (t / 1000) as usize;
            let mut b = vec![0.0; 4000];
            let r = Streamable::decode(&mut c, &mut b);
            ctx.ensure(r == Some(4000), || format!("decode after seek({t}) reported {r:?}"));
            expect_pcm(ctx, &b, &all[from..from + 4000], &format!("after seek({t}) at 1 Hz"));
            ctx.state(t);
        }
    }));
    // a recording of more than 2^32 bits
    if tier.thorough() {
        v.push(job("recording beyond 2^32 bits", |ctx| {
        let ch = 2;
        let frame = 65_535usize;
        let x = signal(Sig::Loud, frame, ch);
        let pcm: Vec<i16> = x.iter().map(|&x| quant(x)).collect();
        let mut c = adhoc(1000, ch, 0);
        let frames = (1usize << 32) / (frame * ch * 16) + 8;
        for _ in 0..frames {
            Streamable::encode(&mut c, &x);
        }
        ctx.ops(frames as u64, || format!("{frames} frames of {frame} blocks"));
        let bits = Streamable::filesize_upperbound(&c);
        assert!(bits > 1 << 32, "{bits} bits");
        for frame_idx in [frames - 1, 1, frames - 2, frames / 2, frames - 9, frames - 12] {
            for d in [0usize, 1, 40_000, frame - 1] {
                let t = frame_idx * frame + d;
                Streamable::seek(&mut c, SeekFrom::Start(t as u64));
                let mut b = vec![0.0f32; 2000 * ch];
                let r = Streamable::decode(&mut c, &mut b);
                let want = (2000 * ch).min(((frames - frame_idx) * frame - d) * ch);
                ctx.op(|| format!("seek to block {t}, decode = {r:?}"));
                ctx.ensure(r == Some(want), || format!("decode after a seek to block {t} reported {r:?}, expected {want}"));
                for i in 0..want {
                    let w = pcm[(d * ch + i) % pcm.len()];
                    ctx.ensure(same_pcm(b[i], w), || format!("after a seek to block {t}, sample {i} is {}, expected {}", b[i], w as f32 / 32767.0));
                }
                ctx.state(t as u64);
            }
        }
    }));
    }
    v.extend(cover::jobs("walks", tier.pick(5, 1), 24, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, k| {
        let (ch, rate) = (spec.ch, spec.rate as u64);
        let all = spec.reference(ctx);
        let mut c = spec.codec(ctx);
        let mut starts = vec![0u64];
        for &n in &spec.sizes {
            starts.push(starts.last().unwrap() + n as u64);
        }
        // to every frame's start, before and behind it, in an order that goes back and forth
        let n = starts.len();
        for i in 0..n {
            let at = starts[(i * 7 + k) % n];
            let first = (at * 1000).div_ceil(rate);
            for t in [first, first.saturating_sub(1), first + 1] {
                seek(ctx, &mut c, t);
                let from = (target(spec.rate, t) * ch as u128).min(all.len() as u128) as usize;
                let mut b = vec![0.0f32; cover::buffer(k, i).min(140) * ch];
                let r = Streamable::decode(&mut c, &mut b).unwrap_or(0);
                let want = b.len().min(all.len() - from);
                ctx.ensure(r == want, || format!("{spec:?}: decode after seek({t}) reported {r}, expected {want}"));
                expect_same(ctx, &b[..r], &all[from..from + r], &format!("{spec:?}: after seek({t})"));
            }
            ctx.state(hash_f32(&all) ^ at);
        }
        let t = starts[k % n] * 1000 / rate;
        seek(ctx, &mut c, t);
        after(ctx, &mut c, &spec, &all, t, cover::buffer(k, ch) * ch);
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C05",
        "model_checking",
        "a state is a recording and the position a seek must reach in it; a transition is a call on the codec; every execution runs one prior history and target and compares every sample decoded afterwards with the reference minus the discarded blocks",
        jobs,
    )
    .stuck(240))
}
