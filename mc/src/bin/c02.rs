//! C02: quantizing levels keep every sample within one quantization step plus the dither
use mc::*;

/// rounding of the arithmetic in 32-bit floats
const EPS: f64 = 2e-6;

fn bound(level: u32) -> f64 {
    let step = (1u64 << level) as f64;
    step / 32767.0 + 0.001 * (1.0 - 1.0 / step) + EPS
}

fn check(ctx: &mut Ctx, level: u32, ch: usize, calls: &[Vec<f32>], buf: usize) {
    let mut c = adhoc(44100, ch, level);
    let mut all = vec![];
    let mut h = H::new(level as u64 ^ ((ch as u64) << 8));
    for x in calls {
        encode(ctx, &mut c, x, ch);
        all.extend_from_slice(&x[..x.len() / ch * ch]);
        h.add(hash_f32(x));
        ctx.state(h.get());
    }
    c.init();
    let got = drain(ctx, &mut c, buf, all.len());
    ctx.ensure(got.len() == all.len(), || format!("level {level}: {} samples encoded, {} decoded", all.len(), got.len()));
    let b = bound(level);
    if let Some(i) = (0..all.len()).find(|&i| !((got[i] as f64 - all[i] as f64).abs() <= b)) {
        ctx.fail(format!(
            "level {level}: sample {i} was {}, decodes to {}: off by {}, bound {b}",
            all[i],
            got[i],
            (got[i] as f64 - all[i] as f64).abs()
        ));
    }
    ctx.outcome(hash_f32(&got));
    // and what is saved decodes to the very same samples
    let Some(mut c) = load(&save(&c)) else { ctx.fail(format!("level {level}: the saved recording does not load")) };
    expect_rest(ctx, &mut c, buf + ch, &got, "loaded recording");
}

fn shape(ctx: &mut Ctx, s: Sig, level: u32, ch: usize, sizes: &[usize], extra: usize, buf: usize) {
    let mut at = 0;
    let calls: Vec<Vec<f32>> = sizes
        .iter()
        .map(|&n| {
            let mut x = signal_from(s, at, n, ch);
            at += n;
            x.extend(std::iter::repeat(0.9).take(extra.min(ch - 1)));
            x
        })
        .collect();
    check(ctx, level, ch, &calls, buf * ch);
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for level in 1..=10u32 {
        // every 16-bit value and positions between them, in several orders and block sizes
        for sub in 0..tier.pick(4, 16) {
            v.push(job(format!("all values level={level} offset={sub}"), move |ctx| {
                let stride = *ctx.pick(&[1i64, 4093, 30011]);
                let block = *ctx.pick(&[65535usize, 1024, 100]);
                let off = sub as f64 / ctx.tier.pick(4.0, 16.0);
                let x: Vec<f32> = (0..65535i64)
                    .map(|k| ((((k * stride) % 65535 - 32767) as f64 + off * ((k * stride) % 65535 < 32767) as u8 as f64) / 32767.0) as f32)
                    .collect();
                let calls: Vec<Vec<f32>> = x.chunks(block).map(|c| c.to_vec()).collect();
                check(ctx, level, 1, &calls, 4096);
            }));
        }
        for s in TAME {
            for ch in [1usize, 2, 3] {
                v.push(job(format!("shapes {s:?} level={level} ch={ch}"), move |ctx| {
                    const S: [usize; 9] = [0, 1, 2, 3, 4, 5, 128, 257, 1025];
                    let a = *ctx.pick(&S);
                    let b = *ctx.pick(&S);
                    let extra = ctx.choose(ch.min(2));
                    shape(ctx, s, level, ch, &[a, b], extra, 200);
                }));
                if tier.thorough() {
                    v.push(job(format!("all shapes {s:?} level={level} ch={ch}"), move |ctx| {
                        let a = *ctx.pick(&SIZES);
                        let b = *ctx.pick(&SIZES);
                        let c = *ctx.pick(&[0usize, 1, 5, 300]);
                        shape(ctx, s, level, ch, &[a, b, c], 0, 333);
                    }));
                }
            }
            v.push(job(format!("small calls {s:?} level={level}"), move |ctx| {
                let ch = 1 + ctx.choose(2);
                let n = ctx.tier.pick(3, 5);
                let sizes: Vec<usize> = (0..n).map(|_| *ctx.pick(&[0usize, 1, 2, 3, 4, 7])).collect();
                shape(ctx, s, level, ch, &sizes, 0, 3);
            }));
        }
        for s in [Sig::Sine, Sig::Loud, Sig::Square] {
            v.push(job(format!("long {s:?} level={level}"), move |ctx| {
                let n = *ctx.pick(&[65534usize, 65535, 65536, 70000, 131073]);
                let ch = 1 + ctx.choose(2);
                shape(ctx, s, level, ch, &[n, 5], 0, 5000);
            }));
            v.push(job(format!("many calls {s:?} level={level}"), move |ctx| {
                let calls = *ctx.pick(&[8usize, 64, 65, 129, 500]);
                let size = *ctx.pick(&[1usize, 3, 40]);
                let ch = *ctx.pick(&[1usize, 2, 6]);
                shape(ctx, s, level, ch, &vec![size; calls], 0, 17);
            }));
        }
        // a constant (every level has its own dead zone) with every history of the dither
        v.push(job(format!("constants level={level}"), move |ctx| {
            let n = ctx.tier.pick(129, 1025);
            let k = ctx.choose(n);
            let x = -1.0 + 2.0 * k as f32 / (n - 1) as f32;
            check(ctx, level, 1, &[vec![x; 700], vec![x; 300]], 512);
        }));
        // the dither goes through its whole cycle
        if tier.thorough() {
            v.push(job(format!("dither cycle level={level}"), move |ctx| {
                let base = *ctx.pick(&[0.0f32, 0.5, -0.999, 1.0, 0.0312]);
                let calls: Vec<Vec<f32>> = (0..16).map(|i| (0..40000).map(|k| base * (1.0 - ((k + i) % 7) as f32 * 1e-5)).collect()).collect();
                check(ctx, level, 1, &calls, 1 << 14);
            }));
        }
    }
    // many channels, many frames, many samples
    for level in [1u32, 4, 10] {
        for ch in scale::WIDE {
            v.push(job(format!("wide ch={ch} level={level}"), move |ctx| {
                let s = *ctx.pick(&[Sig::Sine, Sig::Loud, Sig::Dc]);
                shape(ctx, s, level, ch, &[2, 3], 1, 3);
            }));
        }
        v.push(job(format!("long level={level}"), move |ctx| {
            let ch = 1 + ctx.choose(2);
            let s = *ctx.pick(&[Sig::Sine, Sig::Loud]);
            shape(ctx, s, level, ch, &[700_000 / ch, 40_000], 0, 1 << 15);
        }));
    }
    for (ch, sizes) in scale::tall(tier) {
        v.push(job(format!("tall ch={ch} frames={}", ch * sizes.len()), move |ctx| {
            let level = *ctx.pick(&[1u32, 9]);
            shape(ctx, Sig::Loud, level, ch, &sizes, 0, 900);
        }));
    }
    for level in [11u32, 12, 15, 16, 31, 32, 33, 64, 255, 256, 1 << 16, u32::MAX - 1, u32::MAX] {
        v.push(job(format!("level {level} is level 10"), move |ctx| {
            let s = *ctx.pick(&TAME);
            let ch = 1 + ctx.choose(3);
            let n = *ctx.pick(&[0usize, 1, 2, 3, 50, 3000]);
            let calls = [signal(s, n, ch), signal_from(s, n, 7, ch)];
            let mut a = adhoc(44100, ch, 10);
            let mut b = adhoc(44100, ch, level);
            for x in &calls {
                encode(ctx, &mut a, x, ch);
                encode(ctx, &mut b, x, ch);
            }
            ctx.ensure(save(&a) == save(&b), || format!("level {level} saves other bytes than level 10"));
            a.init();
            b.init();
            let want = drain(ctx, &mut a, 999, (n + 7) * ch);
            expect_rest(ctx, &mut b, 999, &want, "level above 10");
        }));
    }
    v.extend(cover::jobs("walks", tier.pick(2, 1), 24, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, k| {
        shape(ctx, spec.sig, spec.level, spec.ch, &spec.sizes, k % 3, cover::buffer(k, spec.ch));
    }));
    v
}

fn main() {
    engine::main(
        Check::new(
            "C02",
            "model_checking",
            "a state is the level, channel count and input encoded so far; a transition is a call on the codec; every execution compares each decoded sample with its input against the stated bound",
            jobs,
        )
        .assume(&["2e-6 is allowed for 32-bit float rounding"]),
    )
}
