//! C16: every frame is coded with (a choice no worse than) its best single Rice parameter
use mc::*;

/// prediction residuals of every frame of a file, and the bits each frame takes
struct Coded {
    bits: u64,
    residuals: Vec<i32>,
    /// 16-bit values stored before the residuals
    raw: u64,
    k: u32,
}
fn coded(f: &format::File, pcm: &[i16]) -> Vec<Coded> {
    let ch = f.info.unwrap().1 as usize;
    let mut hist = vec![[0i16; 3]; ch];
    let mut at = 0;
    let mut v = vec![];
    for (g, group) in f.frames.chunks(ch).enumerate() {
        let n = group[0].size as usize;
        for (c, fr) in group.iter().enumerate() {
            let i = g * ch + c;
            let end = f.frames.get(i + 1).map_or(f.bit_cursor as u64, |n| n.bit);
            let val = |b: usize| pcm[(at + b) * ch + c];
            let mut raw = 0;
            let mut from = 0;
            if fr.init {
                raw = 3;
                for b in 0..3 {
                    hist[c] = [hist[c][1], hist[c][2], if b < n { val(b) } else { 0 }];
                }
                from = n.min(3);
            }
            let mut residuals = vec![];
            for b in from..n {
                residuals.push(format::residual(val(b), format::predict(hist[c])));
                hist[c] = [hist[c][1], hist[c][2], val(b)];
            }
            v.push(Coded { bits: end.wrapping_sub(fr.bit), residuals, raw, k: fr.k });
        }
        at += n;
    }
    v
}
fn cheapest(r: &[i32]) -> (u32, u64) {
    (1..15).map(|k| (k, r.iter().map(|&r| format::rice_len(r, k)).sum())).min_by_key(|x| x.1).unwrap()
}

/// bytes besides the payload: fixed lengths and cursors, then per frame a nibble, a bit, a size, a position, a history
const FIXED: u64 = 256;
const PER_FRAME: u64 = 20;

fn verify(ctx: &mut Ctx, c: &AdhocCodec, ch: usize, calls: &[usize], what: &str) -> u64 {
    let bytes = save(c);
    let Some((f, _)) = format::parse(&bytes) else { ctx.fail(format!("{what}: saved bytes are not the published layout")) };
    let Some(pcm) = f.decode() else { ctx.fail(format!("{what}: saved bytes do not decode by the published format")) };
    ctx.ops(calls.len() as u64, || format!("{what}: encode calls {calls:?}, saved {} bytes", bytes.len()));
    let frames = coded(&f, &pcm);
    let total: usize = calls.iter().sum();
    ctx.ensure(pcm.len() == total * ch, || format!("{what}: {} samples stored, {} recorded", pcm.len(), total * ch));
    let mut best_total = 0;
    // frames of a call are judged together, so that a call may be split into frames
    let mut i = 0;
    for &n in calls.iter().filter(|&&n| n > 0) {
        let mut left = n;
        let mut per: Vec<(u64, Vec<i32>, u64, Vec<u32>)> = vec![(0, vec![], 0, vec![]); ch];
        while left > 0 {
            for (c, p) in per.iter_mut().enumerate() {
                let Some(x) = frames.get(i * ch + c) else { ctx.fail(format!("{what}: frames end early")) };
                p.0 += x.bits;
                p.1.extend(&x.residuals);
                p.2 += x.raw;
                p.3.push(x.k);
            }
            let got = f.frames[i * ch].size as usize;
            ctx.ensure(got <= left, || format!("{what}: a frame spans two calls"));
            left -= got;
            i += 1;
        }
        for (c, (bits, res, raw, ks)) in per.iter().enumerate() {
            let (k, best) = cheapest(res);
            let limit = best + raw * 16;
            best_total += limit;
            ctx.ensure(*bits <= limit, || {
                format!("{what}: channel {c} of a call of {n} samples takes {bits} bits with parameter {ks:?}; parameter {k} would take {limit}")
            });
            ctx.state(H::new(*bits).add(k as u64).add(res.len() as u64).add(hash_res(res)).get());
            ctx.outcome(k as u64 * 100 + ks[0] as u64);
        }
    }
    let groups = calls.iter().filter(|&&n| n > 0).map(|n| n.div_ceil(65535)).sum::<usize>() as u64;
    let limit = best_total.div_ceil(128) * 16 + FIXED + PER_FRAME * groups * ch as u64;
    ctx.ensure(bytes.len() as u64 <= limit, || {
        format!("{what}: saved file of {} bytes; the best payload of {best_total} bits and {groups} frames per channel allow {limit}", bytes.len())
    });
    best_total
}
fn hash_res(r: &[i32]) -> u64 {
    let mut h = H::new(7);
    for &x in r {
        h.add(x as u32 as u64);
    }
    h.get()
}

fn run(ctx: &mut Ctx, spec: &Spec) {
    let c = spec.codec(ctx);
    verify(ctx, &c, spec.ch, &spec.sizes, &format!("{spec:?}"));
}

/// samples whose residuals have these values, given a history
fn with_residuals(mut hist: [i16; 3], res: &[i32]) -> Vec<f32> {
    let mut v = vec![];
    for &r in res {
        let x = format::apply(format::predict(hist), r);
        hist = [hist[1], hist[2], x];
        v.push(as_float(x));
    }
    v
}
/// a float stored as exactly this value
fn as_float(x: i16) -> f32 {
    let mut f = x as f32 / 32767.0;
    while quant(f) != x {
        f = f32::from_bits(f.to_bits() + 1);
    }
    f
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for ch in [1usize, 2, 3, 6] {
        for level in [0u32, 1, 3, 5, 8, 10] {
            for s in SIGS {
                v.push(job(format!("shapes {s:?} ch={ch} level={level}"), move |ctx| {
                    let sizes: &[usize] = *ctx.pick(&[&[40usize][..], &[1], &[2], &[3], &[4], &[5, 5], &[3, 1, 1], &[1, 1, 1, 1, 9], &[2, 0, 30], &[700], &[50; 30], &[1; 60], &[4096, 4096], &[9, 1000, 9]]);
                    run(ctx, &Spec::new(44100, ch, level, s, sizes));
                }));
            }
        }
    }
    // every sequence of residual magnitudes, around every power of two, in a first and in a later call
    for first in [false, true] {
        v.push(job(format!("residual sequences first={first}"), move |ctx| {
            let depth = ctx.tier.pick(2, 3);
            let mags: Vec<i32> = (0..15).map(|b| 1i32 << b).chain([0, 3, 5, 11, 100, 20000, 32767]).collect();
            let mut res = vec![];
            for _ in 0..depth {
                let m = *ctx.pick(&mags);
                let s = if ctx.flag() { -1 } else { 1 };
                res.push(m * s);
            }
            let rep = *ctx.pick(&[1usize, 20]);
            let res: Vec<i32> = res.iter().cycle().take(res.len() * rep).copied().collect();
            let mut c = adhoc(1000, 1, 0);
            let mut x = vec![0.0f32; 3];
            let calls = if first {
                x.extend(with_residuals([0; 3], &res));
                encode(ctx, &mut c, &x, 1);
                vec![x.len()]
            } else {
                encode(ctx, &mut c, &x, 1);
                let y = with_residuals([0; 3], &res);
                encode(ctx, &mut c, &y, 1);
                vec![3, y.len()]
            };
            verify(ctx, &c, 1, &calls, &format!("residuals {res:?}"));
        }));
    }
    // one value in every place, and mixtures of two magnitudes in every proportion: the best parameter moves
    v.push(job("mixtures", |ctx| {
        let a = 1i32 << ctx.choose(15);
        let b = *ctx.pick(&[0i32, 1, 6, 77, 1000, 9000, 32767]);
        let n = *ctx.pick(&[12usize, 40]);
        let k = ctx.choose(n + 1);
        let res: Vec<i32> = (0..n).map(|i| (if i * k / n != (i + 1) * k / n { b } else { a }) * [1, -1][i % 2]).collect();
        let mut c = adhoc(1000, 1, 0);
        encode(ctx, &mut c, &[0.0; 3], 1);
        let y = with_residuals([0; 3], &res);
        encode(ctx, &mut c, &y, 1);
        verify(ctx, &c, 1, &[3, n], &format!("{k} of {n} residuals {b}, others {a}"));
    }));
    // a few residuals of one magnitude among very many of another, together or apart
    v.push(job("few among many", |ctx| {
        let big = *ctx.pick(&[32767i32, 20000, 8000, 1000, 70]);
        let small = *ctx.pick(&[0i32, 1, 9, 300]);
        let n = *ctx.pick(ctx.tier.pick(&[150usize, 400, 1200, 3000, 9000, 30_000, 65_000][..], &[
            150, 250, 400, 600, 800, 1000, 1200, 1500, 2000, 3000, 4500, 6500, 9000, 13_000, 20_000, 30_000, 40_000, 65_000,
        ]));
        let k = *ctx.pick(&[1usize, 2, 3, 6, 10, 40]);
        let at = ctx.choose(3);
        let res: Vec<i32> = (0..n)
            .map(|i| {
                let hit = match at {
                    0 => i < k,
                    1 => i % (n / k) == n / k / 2,
                    _ => i >= n - k,
                };
                (if hit { big } else { small }) * [1, -1][i % 2]
            })
            .collect();
        let mut c = adhoc(1000, 1, 0);
        encode(ctx, &mut c, &[0.0; 3], 1);
        let y = with_residuals([0; 3], &res);
        encode(ctx, &mut c, &y, 1);
        verify(ctx, &c, 1, &[3, n], &format!("{k} of {n} residuals {big}, others {small}"));
    }));
    // amplitudes: noise and square waves of every power of two, in two channels of different amplitude
    v.push(job("amplitudes", |ctx| {
        let a = ctx.choose(16);
        let b = ctx.choose(16);
        let n = *ctx.pick(&[3usize, 30, 500]);
        let square = ctx.flag();
        let mut rng = Lcg(9);
        let amp = [(1u32 << a) as f32 / 32768.0, (1u32 << b) as f32 / 32768.0];
        let mut x = vec![];
        for i in 0..2 * n {
            let u = if square { [1.0, -1.0][(i / 2) % 2] } else { rng.unit() };
            x.push(u * amp[i % 2]);
        }
        let mut c = adhoc(1000, 2, 0);
        encode(ctx, &mut c, &x, 2);
        for s in x.iter_mut() {
            *s = -*s;
        }
        encode(ctx, &mut c, &x, 2);
        verify(ctx, &c, 2, &[n, n], "amplitudes");
    }));
    // a loud call, then quieter ones (and the other way): the parameter must follow at once
    v.push(job("changing loudness", |ctx| {
        let mut calls = vec![];
        let mut c = adhoc(1000, 1, 0);
        for k in 0..4 {
            let s = *ctx.pick(&[Sig::Silence, Sig::Quiet, Sig::Sine, Sig::Loud, Sig::Square]);
            let n = *ctx.pick(&[3usize, 60]);
            encode(ctx, &mut c, &signal_from(s, 100 * k, n, 1), 1);
            calls.push(n);
        }
        verify(ctx, &c, 1, &calls, "changing loudness");
    }));
    // silence costs 3 bits a sample, at every level whose dither stays below one step
    v.push(job("silence", |ctx| {
        let ch = 1 + ctx.choose(6);
        let n = *ctx.pick(&[1usize, 2, 3, 100, 4096, 65535, 100_000]);
        let m = *ctx.pick(&[1usize, 50]);
        let x = if ctx.flag() { -0.0 } else { 0.0 };
        let mut c = adhoc(44100, ch, 0);
        encode(ctx, &mut c, &vec![x; n * ch], ch);
        encode(ctx, &mut c, &vec![x; m * ch], ch);
        verify(ctx, &c, ch, &[n, m], "silence");
        let bytes = save(&c).len();
        let bits = 3 * ((n + m) * ch) as u64 + 48 * ch as u64;
        let limit = bits.div_ceil(128) * 16 + FIXED + PER_FRAME * ((n.div_ceil(65535) + 1) * ch) as u64;
        ctx.ensure(bytes as u64 <= limit, || format!("{} samples of silence take {bytes} bytes, at most {limit} allowed", (n + m) * ch));
    }));
    // a recording over a longer one
    v.push(job("recorded over", |ctx| {
        let ch = 1 + ctx.choose(2);
        let (a, b) = (*ctx.pick(&[4usize, 300, 3000]), *ctx.pick(&[1usize, 5, 200]));
        let mut c = adhoc(1000, ch, 0);
        for k in 0..3 {
            encode(ctx, &mut c, &signal_from(Sig::Loud, k * a, a, ch), ch);
        }
        match ctx.choose(3) {
            0 => c.init(),
            1 => Streamable::seek(&mut c, SeekFrom::Start(0)),
            _ => {
                c = load(&save(&c)).unwrap_or_else(|| ctx.fail("a saved recording does not load".into()));
                c.init();
            }
        }
        let s = *ctx.pick(&[Sig::Sine, Sig::Silence, Sig::Square]);
        encode(ctx, &mut c, &signal(s, b, ch), ch);
        encode(ctx, &mut c, &signal_from(s, b, b, ch), ch);
        verify(ctx, &c, ch, &[b, b], "recorded over");
    }));
    for s in [Sig::Loud, Sig::Square, Sig::Sine, Sig::Burst] {
        v.push(job(format!("long {s:?}"), move |ctx| {
            let n = *ctx.pick(&[65535usize, 65536, 131_073]);
            let ch = 1 + ctx.choose(2);
            let spec = Spec::new(44100, ch, 0, s, &[n, 30]);
            let c = spec.codec(ctx);
            // a call of more than 65535 samples is cut into frames, each with a parameter of its own
            verify(ctx, &c, ch, &[n, 30], &format!("{s:?} of {n}"));
        }));
        v.push(job(format!("every size {s:?}"), move |ctx| {
            let n = 1 + ctx.choose(ctx.tier.pick(300, 3000));
            run(ctx, &Spec::new(44100, 1, 0, s, &[n, n]));
        }));
        v.push(job(format!("many calls {s:?}"), move |ctx| {
            let ch = 1 + ctx.choose(3);
            let size = *ctx.pick(&[1usize, 3, 17]);
            let n = *ctx.pick(&[100usize, 1000, 2500]);
            run(ctx, &Spec::new(44100, ch, 0, s, &vec![size; n]));
        }));
    }
    for (ch, sizes) in scale::tall(tier) {
        v.push(job(format!("{} calls of {} ch={ch}", sizes.len(), sizes[0]), move |ctx| {
            let s = *ctx.pick(&[Sig::Loud, Sig::Square, Sig::Silence]);
            run(ctx, &Spec::new(44100, ch, 0, s, &sizes));
        }));
    }
    v.push(job("very many channels", |ctx| {
        let ch = *ctx.pick(&scale::WIDE);
        let s = *ctx.pick(&[Sig::Loud, Sig::Square, Sig::Silence]);
        let level = *ctx.pick(&[0u32, 5]);
        let sizes: &[usize] = *ctx.pick(&[&[1usize][..], &[5, 4]]);
        run(ctx, &Spec::new(44100, ch, level, s, sizes));
    }));
    // channels of different loudness, each with a parameter of its own
    v.push(job("channels of different loudness", |ctx| {
        let ch = *ctx.pick(&[5usize, 16, 17, 40, 70, 257]);
        let n = *ctx.pick(&[5usize, 60]);
        let turn = ctx.choose(15);
        let x: Vec<f32> = (0..n * ch).map(|i| [1.0, -1.0][(i / ch / 2) % 2] * (1u32 << ((i % ch * 7 + turn) % 15)) as f32 / 32767.0).collect();
        let mut c = adhoc(1000, ch, 0);
        encode(ctx, &mut c, &x, ch);
        let y: Vec<f32> = x.iter().rev().copied().collect();
        encode(ctx, &mut c, &y, ch);
        verify(ctx, &c, ch, &[n, n], "channels of different loudness");
    }));
    // one call of a million blocks and more: thousands of words
    for s in [Sig::Loud, Sig::Burst, Sig::Silence] {
        v.push(job(format!("very long call {s:?}"), move |ctx| {
            let n = *ctx.pick(ctx.tier.pick(&[1_000_003usize, 65_535 * 16][..], &[1_000_003, 65_535 * 16, 9_000_000]));
            let spec = Spec::new(44100, 1, 0, s, &[n, 30]);
            let c = spec.codec(ctx);
            verify(ctx, &c, 1, &[n, 30], &format!("{s:?} of {n}"));
        }));
    }
    v.extend(cover::jobs("walks", tier.pick(2, 1), 24, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, _| run(ctx, &spec)));
    v
}

fn main() {
    engine::main(Check::new(
        "C16",
        "model_checking",
        "a state is a coded frame: its residuals, size and cheapest parameter; a transition is a call on a codec; every frame of every saved recording is re-costed under all 14 parameters from the independently decoded samples",
        jobs,
    ))
}
