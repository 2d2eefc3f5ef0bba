//! C01: level-0 adhoc encoding reproduces the 16-bit signal exactly
use mc::*;

fn rewind(ctx: &mut Ctx, c: &mut AdhocCodec, how: usize) {
    match how {
        0 => c.init(),
        _ => Streamable::seek(c, SeekFrom::Start(0)),
    }
    ctx.op(|| ["init()", "seek(Start(0))"][how].into());
}

fn verify(ctx: &mut Ctx, c: &mut AdhocCodec, rec: &Rec, how: usize, buf: usize) {
    rewind(ctx, c, how);
    let got = drain(ctx, c, buf, rec.pcm.len());
    expect_pcm(ctx, &got, &rec.pcm, "level 0 round trip");
    ctx.state(rec.hash());
    ctx.outcome(hash_f32(&got));
}

/// every sequence over {end, cut, values} of at most `depth` steps
fn tiny(ch: usize, depth: usize, vals: &'static [f32]) -> Job {
    job(format!("tiny ch={ch} depth={depth} values={}", vals.len()), move |ctx| {
        let mut calls: Vec<Vec<f32>> = vec![vec![]];
        for _ in 0..depth {
            match ctx.choose(vals.len() + 2) {
                0 => break,
                1 => calls.push(vec![]),
                k => calls.last_mut().unwrap().push(vals[k - 2]),
            }
        }
        let mut c = adhoc(44100, ch, 0);
        let mut rec = Rec::new(ch);
        for x in &calls {
            encode(ctx, &mut c, x, ch);
            rec.encode(x);
            ctx.state(rec.hash());
        }
        verify(ctx, &mut c, &rec, 0, 5 * ch);
    })
}

fn shape(ctx: &mut Ctx, s: Sig, ch: usize, sizes: &[usize], extra: usize, buf: usize) {
    let mut c = adhoc(44100, ch, 0);
    let mut rec = Rec::new(ch);
    let mut at = 0;
    for &n in sizes {
        let mut x = signal_from(s, at, n, ch);
        // an incomplete block at the end of the slice belongs to no block and is not taken
        x.extend(std::iter::repeat(0.9).take(extra.min(ch - 1)));
        encode(ctx, &mut c, &x, ch);
        rec.encode(&x);
        at += n;
    }
    verify(ctx, &mut c, &rec, at % 2, buf * ch);
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    const V5: &[f32] = &[0.0, 1.0, -1.0, 0.01, -0.3];
    const VW: &[f32] = &[0.5, f32::NAN, f32::INFINITY, -2.0, -0.0];
    v.push(tiny(1, tier.pick(7, 9), V5));
    v.push(tiny(2, tier.pick(7, 8), V5));
    v.push(tiny(1, tier.pick(5, 7), VW));
    v.push(tiny(3, tier.pick(6, 8), &[0.7, -1.0, 1.0]));
    v.push(tiny(1, tier.pick(10, 13), &[1.0, -1.0]));

    // every next value after every history of a grid: all residuals
    let grid: Vec<i32> = {
        let n = tier.pick(8, 64);
        (-n..=n).map(|k| k * 32767 / n).collect()
    };
    for (gi, &h) in grid.iter().enumerate() {
        for block in [64usize, 4096] {
            if block == 64 && gi % tier.pick(4, 2) != 0 {
                continue;
            }
            v.push(job(format!("next-value history={h} block={block}"), move |ctx| {
                let x: Vec<f32> = (-32767..=32767)
                    .flat_map(|c| [h, h, h, c])
                    .map(|q| (q as f32 + 0.25 * q.signum() as f32) / 32767.0)
                    .collect();
                let mut c = adhoc(44100, 1, 0);
                let mut rec = Rec::new(1);
                for x in x.chunks(block) {
                    encode(ctx, &mut c, x, 1);
                    rec.encode(x);
                }
                verify(ctx, &mut c, &rec, 0, 1024);
            }));
        }
    }
    // every triple of a small value set, followed by every value of it
    v.push(job("value quadruples", move |ctx| {
        const Q: [f32; 11] = [0.0, 1.0, -1.0, 0.5, -0.5, 0.999, -0.999, 3.1e-5, -3.1e-5, 0.34, -0.66];
        let a = *ctx.pick(&Q);
        let b = *ctx.pick(&Q);
        let mut x = vec![];
        for c in Q {
            for d in Q {
                for e in Q {
                    x.extend([a, b, c, d, e]);
                }
            }
        }
        let mut c = adhoc(44100, 1, 0);
        let mut rec = Rec::new(1);
        for x in x.chunks(5) {
            encode(ctx, &mut c, x, 1);
            rec.encode(x);
        }
        verify(ctx, &mut c, &rec, 0, 777);
    }));
    // one spike in silence: small parameter, very long unary part
    for len in [8usize, 64, 1000, 20000, 65000] {
        let step = tier.pick(1 + len / 4, 1 + len / 40);
        v.push(job(format!("spike after {len} zeros"), move |ctx| {
            let n = 65535usize.div_ceil(step);
            let k = ctx.choose(n.min(4000));
            let q = -32767 + (k * step.max(65535 / n.min(4000))) as i32 % 65535;
            let mut x = vec![0.0f32; len];
            x.push(q as f32 / 32767.0 * 1.00001);
            x.extend([0.0; 9]);
            let mut c = adhoc(44100, 1, 0);
            let mut rec = Rec::new(1);
            encode(ctx, &mut c, &x, 1);
            rec.encode(&x);
            verify(ctx, &mut c, &rec, 0, 4096);
        }));
    }
    // call-size shapes
    for s in SIGS {
        for ch in [1usize, 2, 3, 6] {
            v.push(job(format!("shapes {s:?} ch={ch} two calls"), move |ctx| {
                let a = *ctx.pick(&SIZES);
                let b = *ctx.pick(&SIZES);
                let extra = ctx.choose(ch.min(2));
                shape(ctx, s, ch, &[a, b], extra, 500);
            }));
            if tier.thorough() || ch <= 2 {
                v.push(job(format!("shapes {s:?} ch={ch} small calls"), move |ctx| {
                    const S: [usize; 8] = [0, 1, 2, 3, 4, 5, 130, 300];
                    let n = ctx.tier.pick(4, 5);
                    let sizes: Vec<usize> = (0..n).map(|_| *ctx.pick(&S)).collect();
                    shape(ctx, s, ch, &sizes, 0, 64);
                }));
            }
            if tier.thorough() {
                v.push(job(format!("shapes {s:?} ch={ch} three calls"), move |ctx| {
                    let a = *ctx.pick(&SIZES);
                    let b = *ctx.pick(&SIZES);
                    let c = *ctx.pick(&SIZES);
                    shape(ctx, s, ch, &[a, b, c], 0, 333);
                }));
            }
            // every call size up to 300 blocks, then a short call
            v.push(job(format!("every size {s:?} ch={ch}"), move |ctx| {
                let n = ctx.choose(ctx.tier.pick(300, 2100));
                shape(ctx, s, ch, &[n, 7], 0, 101);
            }));
        }
    }
    // long calls around the 16-bit frame size
    for s in [Sig::Sine, Sig::Loud, Sig::Square, Sig::Silence, Sig::Burst] {
        for ch in [1usize, 2] {
            v.push(job(format!("long calls {s:?} ch={ch}"), move |ctx| {
                const L: [usize; 12] = [16383, 16384, 32767, 32768, 40000, 65534, 65535, 65536, 65537, 65539, 131071, 131073];
                let n = *ctx.pick(&L);
                let first = *ctx.pick(&[0usize, 1, 5]);
                shape(ctx, s, ch, &[first, n, 3], 0, 4000);
            }));
        }
    }
    if tier.thorough() {
        v.push(job("very long call", |ctx| {
            let n = *ctx.pick(&[300_000usize, 1_000_000, 3_000_000]);
            let s = *ctx.pick(&[Sig::Loud, Sig::Square]);
            shape(ctx, s, 1, &[n], 0, 1 << 16);
        }));
    }
    // many calls: frame-table storage boundaries
    for s in [Sig::Sine, Sig::Square, Sig::Loud] {
        for ch in [1usize, 2, 3, 5, 8] {
            v.push(job(format!("many calls {s:?} ch={ch}"), move |ctx| {
                const N: [usize; 22] = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 192, 255, 256, 257, 1000, 3000];
                let calls = *ctx.pick(&N);
                let size = *ctx.pick(&[1usize, 2, 3, 4, 11]);
                let mut c = adhoc(44100, ch, 0);
                let mut rec = Rec::new(ch);
                for k in 0..calls {
                    let x = signal_from(s, k * size, size, ch);
                    encode(ctx, &mut c, &x, ch);
                    rec.encode(&x);
                }
                verify(ctx, &mut c, &rec, 1, 250 * ch);
            }));
        }
    }
    v.push(job("more than 65536 calls", |ctx| {
        let calls = *ctx.pick(&[65535usize, 65536, 65537, 70000]);
        let mut c = adhoc(44100, 1, 0);
        let mut rec = Rec::new(1);
        for k in 0..calls {
            let x = signal_from(Sig::Quiet, k * 3, 3, 1);
            encode(ctx, &mut c, &x, 1);
            rec.encode(&x);
        }
        verify(ctx, &mut c, &rec, 0, 1000);
    }));
    // many empty calls between calls with audio
    v.push(job("empty calls", |ctx| {
        let empties = ctx.choose(40);
        let lead = ctx.flag();
        let ch = 1 + ctx.choose(3);
        let mut sizes = vec![];
        if lead {
            sizes.push(5);
        }
        sizes.extend(vec![0; empties]);
        sizes.push(6);
        sizes.extend(vec![0; empties]);
        sizes.push(1);
        shape(ctx, Sig::Sine, ch, &sizes, 1, 16);
    }));
    // as many channels as there can be
    for ch in [1000usize, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 100_000] {
        v.push(job(format!("{ch} channels"), move |ctx| {
            let s = *ctx.pick(&[Sig::Ramp, Sig::Loud]);
            let a = *ctx.pick(&[0usize, 1, 3]);
            let b = *ctx.pick(&[1usize, 5]);
            shape(ctx, s, ch, &[a, b], 7, 2);
        }));
    }
    // one call with very many samples
    for ch in [1usize, 2, 3, 60, 128, 5000] {
        v.push(job(format!("one huge call ch={ch}"), move |ctx| {
            let n = *ctx.pick(if ctx.tier.thorough() { &[1usize << 20, 5 << 20, (17 << 20) + 5][..] } else { &[(5usize << 20) + 5] });
            shape(ctx, Sig::Ramp, ch, &[n.div_ceil(ch)], 1, (1usize << 18).div_ceil(ch));
        }));
    }
    // channel counts
    v.push(job("channel counts", |ctx| {
        const CH: [usize; 18] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 64, 128, 255, 256, 257, 300];
        let ch = *ctx.pick(&CH);
        let s = *ctx.pick(&SIGS);
        let a = *ctx.pick(&[0usize, 1, 2, 3, 20]);
        let b = *ctx.pick(&[1usize, 4, 33]);
        let extra = *ctx.pick(&[0usize, 1, 1000]);
        shape(ctx, s, ch, &[a, b, a], extra, 6);
    }));
    v.extend(cover::jobs("walks", tier.pick(2, 1), 24, &[0], |ctx, spec, k| {
        shape(ctx, spec.sig, spec.ch, &spec.sizes, k % spec.ch, cover::buffer(k, spec.ch));
    }));
    v
}

fn main() {
    engine::main(
        Check::new(
            "C01",
            "model_checking",
            "a state is the model recording (channels and 16-bit samples) after a call; a transition is a call on the codec; every execution drives the real codec and compares every decoded sample with the 16-bit quantizer model",
            jobs,
        )
        .assume(&["sample values outside the listed alphabets and grids are covered only through their residuals", "overflow checks on, as in the repository's test build"]),
    )
}
