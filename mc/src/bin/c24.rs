//! C24: dither source, predictor and filters
use adhoc_audio::mc_hooks::{compute_mse, convolve_1d, gaussian_filter, scale_signal, convolve_1d_branchless, FixedParabola, PseudoRandom};
use mc::*;
use std::panic::AssertUnwindSafe;

/// upper bound on the cycle length looked for; the modulus of the generator is 507 961
const CYCLE: usize = 507_961;

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    // one step from every state: the bounds
    v.push(job("noise from every state", |ctx| {
        let part = ctx.choose(64);
        for seed in (part * 7937..(part + 1) * 7937).map(|s| s as u64) {
            let mut p = PseudoRandom::new(seed);
            let t: Vec<f32> = p.triangle().take(2).collect();
            let mut p = PseudoRandom::new(seed);
            let u: Vec<f32> = p.uniform().take(2).collect();
            for &t in &t {
                ctx.ensure(t > -1.0 && t < 1.0, || format!("seed {seed}: triangular noise {t}"));
            }
            for &u in &u {
                ctx.ensure((-1.0..1.0).contains(&u), || format!("seed {seed}: uniform noise {u}"));
            }
            ctx.ops(4, || format!("seed {seed}: {t:?} {u:?}"));
            ctx.state(seed);
            ctx.outcome(hash_f32(&t));
        }
    }));
    // whole cycles: bounds and mean; and every phase gives the same sequence again
    for seed in [314u64, 123, 0, 1, 507_960, 1 << 40] {
        for tri in [true, false] {
            v.push(job(format!("noise cycle seed={seed} triangle={tri}"), move |ctx| {
                let mut p = PseudoRandom::new(seed);
                let n = 2 * CYCLE;
                let x: Vec<f32> = if tri { p.triangle().take(n).collect() } else { p.uniform().take(n).collect() };
                ctx.ops(n as u64, || format!("{n} values from seed {seed}: {:?}..", &x[..4]));
                let ok = |v: f32| if tri { v > -1.0 && v < 1.0 } else { (-1.0..1.0).contains(&v) };
                if let Some(i) = (0..n).find(|&i| !ok(x[i])) {
                    ctx.fail(format!("value {i} from seed {seed} is {}", x[i]));
                }
                let mean = |x: &[f32]| x.iter().map(|&x| x as f64).sum::<f64>() / x.len() as f64;
                let (a, b) = (mean(&x[..CYCLE]), mean(&x[CYCLE..]));
                for m in [a, b] {
                    ctx.ensure(m.abs() < 0.01, || format!("seed {seed}: the noise averages to {m} over its cycle"));
                }
                // the shape: a triangle has its mass in the middle, the uniform one has it everywhere
                let mid = x.iter().filter(|x| x.abs() < 0.5).count() as f64 / n as f64;
                let want = if tri { 0.75 } else { 0.5 };
                ctx.ensure((mid - want).abs() < 0.02, || format!("seed {seed}: {mid} of the noise lies within half range, expected {want}"));
                // both signs, mirrored
                let pos = x.iter().filter(|&&x| x > 0.0).count() as f64 / n as f64;
                ctx.ensure((pos - 0.5).abs() < 0.02, || format!("seed {seed}: {pos} of the noise is positive"));
                ctx.outcome(hash_f32(&x[..1000]));
                for w in x.chunks(997) {
                    ctx.state(hash_f32(w));
                }
            }));
        }
    }
    // the parabola
    let grid: Vec<f32> = {
        let mut g = vec![0.0f32];
        for k in [1.0f32, 0.5, 0.25, 0.1, 1.0 / 3.0, 0.999, 1.0 / 32767.0, 3.0 / 32767.0, 100.0 / 32767.0, 0.7, 1e-6] {
            g.extend([k, -k]);
        }
        g
    };
    let g2 = grid.clone();
    v.push(job("parabola triples", move |ctx| {
        let f = [*ctx.pick(&g2), *ctx.pick(&g2), *ctx.pick(&g2)];
        parabola(ctx, f);
    }));
    v.push(job("parabola 16-bit triples", |ctx| {
        let a = ctx.choose(256) as i32 * 257 - 32767;
        let stride = ctx.tier.pick(1021, 151);
        for b in (-32767..=32767).step_by(stride) {
            for c in (-32767..=32767).step_by(stride) {
                parabola(ctx, [a as f32 / 32767.0, b as f32 / 32767.0, c as f32 / 32767.0]);
            }
        }
    }));
    v.push(job("parabola scales", |ctx| {
        // exact on integers
        let k = ctx.choose(41) as i32 - 20;
        for b in -20..=20 {
            for c in -20..=20 {
                let mut p = FixedParabola::from_samples([k as f32, b as f32, c as f32]);
                p.compute_coefs();
                for x in -4i32..=6 {
                    // Lagrange form, exact in integers
                    let w = (k * (x - 1) * (x - 2) - 2 * b * x * (x - 2) + c * x * (x - 1)) as f32 / 2.0;
                    let g = p.eval(x as f32);
                    ctx.ensure((g - w).abs() <= 1e-3, || format!("parabola through {k} {b} {c}: {g} at {x}, expected {w}"));
                }
                ctx.ops(11, || format!("parabola through {k} {b} {c}"));
                ctx.state(H::new(9).add(k as u64).add(b as u64).add(c as u64).get());
            }
        }
    }));
    // convolutions: every shape in the bound
    let max = tier.pick(24, 48);
    v.push(job("convolution shapes", move |ctx| {
        let n = ctx.choose(max + 1);
        let k = ctx.choose(max + 1);
        let kind = ctx.choose(5);
        let val = |i: usize, salt: u64| -> f32 {
            let mut r = Lcg(salt * 1000 + i as u64);
            r.next();
            match kind {
                0 => r.unit(),
                1 => (i % 5) as f32 - 2.0,
                2 => [1.0, -1.0][i % 2],
                3 => r.unit() * [1e-30f32, 1e30, 1.0][i % 3],
                _ => [0.0f32, -0.0, 1.0, f32::MIN_POSITIVE / 4.0, -3.5][(i + salt as usize) % 5],
            }
        };
        let x: Vec<f32> = (0..n).map(|i| val(i, 1)).collect();
        let w: Vec<f32> = (0..k).map(|i| val(i, 2)).collect();
        conv(ctx, &x, &w);
    }));
    // sizes around the powers of two, far apart from each other, and large
    v.push(job("convolution sizes", |ctx| {
        const N: [usize; 14] = [1, 2, 31, 64, 127, 128, 129, 255, 256, 257, 1000, 4096, 65_537, 200_000];
        let n = *ctx.pick(&N);
        let k = *ctx.pick(&N[..12]);
        if n * k > ctx.tier.pick(20_000_000, 1_000_000_000) {
            return;
        }
        let val = |i: usize, salt: u64| -> f32 {
            let mut r = Lcg(salt << 32 | i as u64);
            r.next();
            r.unit()
        };
        let x: Vec<f32> = (0..n).map(|i| val(i, 1)).collect();
        let w: Vec<f32> = (0..k).map(|i| val(i, 2)).collect();
        let (mut a, mut b) = (vec![7.0f32; n], vec![7.0f32; n]);
        convolve_1d(&x, &w, &mut a);
        convolve_1d_branchless(&x, &w, &mut b);
        ctx.ops(2, || format!("signal of {n}, kernel of {k}"));
        for i in 0..n {
            ctx.ensure(a[i].to_bits() == b[i].to_bits(), || format!("signal of {n}, kernel of {k}: {} plain, {} branch-free at {i}", a[i], b[i]));
            // all of them near the ends and the powers of two, some in between
            if i < 600 || n - i < 600 || i % 97 == 0 || (i + 2) & (i + 1) & i < 4 {
                let want: f64 = (0..k).filter(|j| (k / 2..n + k / 2).contains(&(i + j))).map(|j| x[i + j - k / 2] as f64 * w[j] as f64).sum();
                ctx.ensure((a[i] as f64 - want).abs() <= 1e-6 * k as f64 + 1e-6, || format!("signal of {n}, kernel of {k}: {} at {i}, expected {want}", a[i]));
            }
        }
        ctx.state(H::new(77).add(n as u64).add(k as u64).get());
        ctx.outcome(hash_f32(&a));
    }));
    // every signal over a small alphabet
    v.push(job("convolution contents", |ctx| {
        const A: [f32; 5] = [0.0, 1.0, -1.0, 0.3, -0.0];
        let n = 1 + ctx.choose(ctx.tier.pick(3, 4));
        let k = 1 + ctx.choose(ctx.tier.pick(3, 4));
        let x: Vec<f32> = (0..n).map(|_| *ctx.pick(&A)).collect();
        let w: Vec<f32> = (0..k).map(|_| *ctx.pick(&A)).collect();
        conv(ctx, &x, &w);
    }));
    // an impulse shows the kernel, and zero padding
    v.push(job("convolution impulse", |ctx| {
        let n = 1 + ctx.choose(20);
        let at = ctx.choose(n);
        let k = 1 + ctx.choose(20);
        let mut x = vec![0.0; n];
        x[at] = 1.0;
        let w: Vec<f32> = (0..k).map(|i| (i + 1) as f32).collect();
        for branchless in [false, true] {
            let mut r = vec![9.0; n];
            if branchless {
                convolve_1d_branchless(&x, &w, &mut r)
            } else {
                convolve_1d(&x, &w, &mut r)
            }
            ctx.op(|| format!("impulse at {at} of {n}, kernel of {k}, branchless={branchless}"));
            for i in 0..n {
                // r[i] = sum over j of x[i + j - k/2] w[j]
                let j = at as i64 + (k / 2) as i64 - i as i64;
                let want = if (0..k as i64).contains(&j) { w[j as usize] } else { 0.0 };
                ctx.ensure(r[i] == want, || format!("impulse at {at} of {n}, kernel of {k}: {} at {i}, expected {want}", r[i]));
            }
            ctx.state(H::new(31).add(n as u64).add(at as u64).add(k as u64).get());
        }
    }));
    // resampling: every pair of lengths in the bound
    let max = tier.pick(64, 160);
    v.push(job("resampling shapes", move |ctx| {
        let src = 1 + ctx.choose(max);
        let kind = ctx.choose(4);
        for dst in 2..=max + 1 {
            resample(ctx, src, dst, kind);
        }
    }));
    v.push(job("resampling sizes", |ctx| {
        const N: [usize; 16] = [1, 2, 3, 100, 255, 256, 257, 1000, 1024, 1025, 4096, 8000, 11_025, 44_100, 48_000, 65_537];
        let src = *ctx.pick(&N);
        let dst = *ctx.pick(&N[1..]);
        let kind = ctx.choose(4);
        resample(ctx, src, dst, kind);
    }));
    // the bell: every width in the list, the usual scales and reaches
    v.push(job("gaussian kernels", |ctx| {
        let sigma = *ctx.pick(&[0.1f32, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 10.0]);
        let r = *ctx.pick(&[0.5f32, 1.0, 2.0, 3.0, 4.0, 10.0]);
        bell::<2>(ctx, sigma, r);
        bell::<3>(ctx, sigma, r);
        bell::<4>(ctx, sigma, r);
        bell::<5>(ctx, sigma, r);
        bell::<6>(ctx, sigma, r);
        bell::<7>(ctx, sigma, r);
        bell::<8>(ctx, sigma, r);
        bell::<9>(ctx, sigma, r);
        bell::<15>(ctx, sigma, r);
        bell::<16>(ctx, sigma, r);
        bell::<17>(ctx, sigma, r);
        bell::<31>(ctx, sigma, r);
        bell::<32>(ctx, sigma, r);
        bell::<33>(ctx, sigma, r);
        bell::<64>(ctx, sigma, r);
        bell::<101>(ctx, sigma, r);
        bell::<256>(ctx, sigma, r);
        bell::<1025>(ctx, sigma, r);
    }));
    // the error measure: every pair of lengths, and long ones
    v.push(job("mean squared error", |ctx| {
        const N: [usize; 14] = [1, 2, 3, 4, 5, 7, 8, 9, 31, 64, 255, 1000, 4096, 70_000];
        let n = *ctx.pick(&N);
        let m = *ctx.pick(&N);
        let kind = ctx.choose(4);
        let (a, b) = (signal(n, kind, 5), signal(m, kind, 6));
        let k = n.min(m);
        let want = (0..k).map(|i| (a[i] as f64 - b[i] as f64).powi(2)).sum::<f64>() / k as f64;
        let got = compute_mse(&a, &b);
        ctx.op(|| format!("mse of {n} and {m} samples: {got}"));
        ctx.ensure((got as f64 - want).abs() <= want * (k as f64 * 1.2e-7 + 1e-6), || format!("mse of {n} and {m} samples of kind {kind}: {got}, expected {want}"));
        ctx.ensure(compute_mse(&a, &a) == 0.0, || format!("mse of {n} samples of kind {kind} with themselves"));
        ctx.state(H::new(78).add(n as u64).add(m as u64).add(kind as u64).get());
        ctx.outcome(got.to_bits() as u64);
    }));
    let _ = tier;
    v
}

fn signal(n: usize, kind: usize, salt: u64) -> Vec<f32> {
    (0..n)
        .map(|i| match kind {
            0 => {
                let mut r = Lcg(salt << 32 | i as u64);
                r.next();
                r.unit()
            }
            1 => i as f32 / n as f32,
            2 => [1.0, -1.0, 0.25][(i + salt as usize) % 3],
            _ => (i as u64 % 7 + salt) as f32 / 16.0 - 0.5,
        })
        .collect()
}

/// linear interpolation at equidistant positions, the first sample on the first and the last on the last
fn resample(ctx: &mut Ctx, src: usize, dst: usize, kind: usize) {
    let x = signal(src, kind, 3);
    let mut out = vec![7.0f32; dst + 3];
    let got = guarded(AssertUnwindSafe(|| scale_signal(&x, dst, &mut out).to_vec()));
    ctx.op(|| format!("{src} samples of kind {kind} to {dst}"));
    let got = match got {
        Ok(g) => g,
        Err(e) => ctx.fail(format!("{src} samples to {dst}: {e}")),
    };
    ctx.ensure(got.len() == dst && got.iter().zip(&out).all(|(a, b)| a.to_bits() == b.to_bits()), || format!("{src} samples to {dst}: the result has {} samples", got.len()));
    ctx.ensure(out[dst..].iter().all(|&v| v == 7.0), || format!("{src} samples to {dst}: written past the result"));
    let step = x.windows(2).fold(0.0f64, |m, w| m.max((w[0] as f64 - w[1] as f64).abs()));
    // a position is a product of rounded floats
    let tol = step * src as f64 * 2f64.powi(-21) + 1e-6;
    for k in 0..dst {
        let (q, r) = (k * (src - 1) / (dst - 1), k * (src - 1) % (dst - 1));
        let t = r as f64 / (dst - 1) as f64;
        let want = x[q] as f64 * (1.0 - t) + if r == 0 { 0.0 } else { x[q + 1] as f64 * t };
        ctx.ensure((got[k] as f64 - want).abs() <= tol, || format!("{src} samples of kind {kind} to {dst}: {} at {k}, expected {want}", got[k]));
    }
    ctx.state(H::new(79).add(src as u64).add(dst as u64).add(kind as u64).get());
    ctx.outcome(hash_f32(&got));
}

fn bell<const N: usize>(ctx: &mut Ctx, sigma: f32, r: f32) {
    let g = gaussian_filter::<N>(sigma, r);
    ctx.op(|| format!("gaussian of {N} taps, sigma {sigma}, reach {r}"));
    let (s, r) = (sigma as f64, r as f64);
    for k in 0..N {
        let x = (2.0 * k as f64 / (N - 1) as f64 - 1.0) * r;
        let e = -0.5 * (x / s).powi(2);
        let want = e.exp() / (s * (2.0 * std::f64::consts::PI).sqrt());
        // the constant in the code is 3.141; rounding in the position is magnified by the exponent
        ctx.ensure((g[k] as f64 - want).abs() <= want * (5e-4 + 4e-6 * e.abs() + 2e-6 * r / s) + 1e-37, || format!("gaussian of {N} taps, sigma {s}, reach {r}: {} at {k}, expected {want}", g[k]));
    }
    ctx.state(H::new(80).add(N as u64).add(sigma.to_bits() as u64).add(r.to_bits()).get());
    ctx.outcome(hash_f32(&g));
}

fn parabola(ctx: &mut Ctx, f: [f32; 3]) {
    let mut p = FixedParabola::from_samples(f);
    p.compute_coefs();
    let m = f.iter().fold(1e-6f32, |a, x| a.max(x.abs()));
    for x in 0..3 {
        let g = p.eval(x as f32);
        ctx.ensure((g - f[x]).abs() <= 2e-6 * m, || format!("parabola through {f:?}: {g} at {x}"));
    }
    let want = f[0] as f64 - 3.0 * f[1] as f64 + 3.0 * f[2] as f64;
    let g = p.eval(3.0);
    ctx.ensure((g as f64 - want).abs() <= 4e-6 * m as f64, || format!("parabola through {f:?}: {g} at 3, expected {want}"));
    ctx.op(|| format!("parabola through {f:?}: {g} at 3"));
    ctx.state(hash_f32(&f));
    ctx.outcome(g.to_bits() as u64);
}

fn conv(ctx: &mut Ctx, x: &[f32], w: &[f32]) {
    let (n, k) = (x.len(), w.len());
    let mut a = vec![7.0f32; n + 3];
    let mut b = vec![7.0f32; n + 3];
    let r = guarded(AssertUnwindSafe(|| convolve_1d(x, w, &mut a)));
    let s = guarded(AssertUnwindSafe(|| convolve_1d_branchless(x, w, &mut b)));
    ctx.ops(2, || format!("signal of {n}, kernel of {k}"));
    for r in [r, s] {
        if let Err(e) = r {
            ctx.fail(format!("signal of {n}, kernel of {k}: {e}"));
        }
    }
    for i in 0..n {
        ctx.ensure(a[i].to_bits() == b[i].to_bits(), || format!("signal {x:?}, kernel {w:?}: {} plain, {} branch-free at {i}", a[i], b[i]));
        let (mut want, mut scale) = (0.0f64, 0.0f64);
        for j in 0..k {
            let idx = i as i64 + j as i64 - (k / 2) as i64;
            if (0..n as i64).contains(&idx) {
                let t = x[idx as usize] as f64 * w[j] as f64;
                want += t;
                scale = scale.max(t.abs());
            }
        }
        if scale < 1e30 {
            ctx.ensure((a[i] as f64 - want).abs() <= scale * 1e-5 + 1e-35, || format!("signal {x:?}, kernel {w:?}: {} at {i}, expected {want}", a[i]));
        }
    }
    ctx.ensure(a[n..].iter().chain(&b[n..]).all(|&v| v == 7.0), || "the result is written past the signal".into());
    ctx.state(hash_f32(x) ^ hash_f32(w).rotate_left(9));
    ctx.outcome(hash_f32(&a[..n]));
}

fn main() {
    engine::main(Check::new(
        "C24",
        "model_checking",
        "a state is a generator state, a sample triple or a signal and kernel; a transition is a value drawn, a parabola evaluated or a signal filtered",
        jobs,
    ))
}
