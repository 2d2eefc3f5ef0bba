//! C03: adhoc decoding does not depend on how the caller sizes its buffers
use mc::{machine::*, *};

const SENTINELS: [f32; 3] = [123.456, -0.0, 7.0e-3];

/// one decode call against the model: `pos` samples of `all` were delivered before
fn step(ctx: &mut Ctx, c: &mut AdhocCodec, ch: usize, all: &[f32], pos: usize, buf: usize) -> usize {
    let s = SENTINELS[buf % 3];
    let mut b = vec![s; buf];
    let want = (buf / ch * ch).min(all.len() - pos);
    ctx.op(|| format!("decode(buffer of {buf}) at sample {pos} of {}, expected {want}", all.len()));
    let r = Streamable::decode(c, &mut b);
    ctx.ensure(r == (want > 0).then_some(want), || {
        format!("decode into {buf} samples with {} left in {ch} channels reported {r:?}, expected {want}", all.len() - pos)
    });
    for i in 0..want {
        ctx.ensure(b[i].to_bits() == all[pos + i].to_bits(), || {
            format!("decode into {buf} samples: sample {} is {}, one big call gives {}", pos + i, b[i], all[pos + i])
        });
    }
    for (i, x) in b.iter().enumerate().skip(want) {
        ctx.ensure(x.to_bits() == s.to_bits(), || {
            format!("decode into {buf} samples reported {want}, but element {i} was changed from {s} to {x}")
        });
    }
    pos + want
}

fn rewind(ctx: &mut Ctx, c: &mut AdhocCodec, how: usize) {
    if how == 0 {
        c.init()
    } else {
        Streamable::seek(c, SeekFrom::Start(0))
    }
    ctx.op(|| ["init()", "seek(Start(0))"][how].into());
}

fn sequences(spec: Spec, bufs: Vec<usize>, depth: usize) -> Job {
    job(format!("sequences {spec:?} buffers={bufs:?} depth={depth}"), move |ctx| {
        let ch = spec.ch;
        let all = spec.reference(ctx);
        let mut c = spec.codec(ctx);
        rewind(ctx, &mut c, 0);
        let mut pos = 0;
        let mut h = H::new(ch as u64);
        for _ in 0..depth {
            let b = *ctx.pick(&bufs);
            pos = step(ctx, &mut c, ch, &all, pos, b);
            h.add(b as u64);
            ctx.state(hash_f32(&all) ^ pos as u64);
        }
        ctx.outcome(h.get());
        // whatever is left, then the end twice
        while pos < all.len() {
            pos = step(ctx, &mut c, ch, &all, pos, 3 * ch + 1);
        }
        step(ctx, &mut c, ch, &all, pos, 4 * ch);
        step(ctx, &mut c, ch, &all, pos, 100);
        // and once more from the start
        rewind(ctx, &mut c, 1);
        pos = step(ctx, &mut c, ch, &all, 0, ch);
        while pos < all.len() {
            pos = step(ctx, &mut c, ch, &all, pos, 5 * ch);
        }
        step(ctx, &mut c, ch, &all, pos, ch);
    })
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let shapes: [&[usize]; 9] =
        [&[], &[1], &[2], &[3], &[7], &[1, 1, 1, 1, 1, 1], &[2, 3, 4], &[5, 1, 4], &[3, 3, 3, 3]];
    for ch in 1..=4usize {
        for level in [0u32, 1, 10] {
            for (i, sizes) in shapes.iter().enumerate() {
                let sig = [Sig::Loud, Sig::Square, Sig::Sine][i % 3];
                let mut bufs = vec![0, 1, ch, ch + 1, 2 * ch, 3 * ch + ch / 2, 7 * ch];
                if ch > 1 {
                    bufs.push(ch - 1);
                }
                bufs.dedup();
                v.push(sequences(Spec::new(8000, ch, level, sig, sizes), bufs, tier.pick(4, 6)));
            }
        }
    }
    // constant buffer size, every size
    for ch in [1usize, 2, 3, 5] {
        for level in [0u32, 4] {
            for sizes in [&[40usize, 9, 1, 1, 30][..], &[100, 200], &[1; 70]] {
                let spec = Spec::new(8000, ch, level, Sig::Burst, sizes);
                v.push(job(format!("every constant buffer {spec:?}"), move |ctx| {
                    let all = spec.reference(ctx);
                    let mut c = spec.codec(ctx);
                    rewind(ctx, &mut c, 1);
                    let b = ctx.choose(all.len() + 2 * spec.ch + 2);
                    let mut pos = 0;
                    while pos < all.len() && b >= spec.ch {
                        pos = step(ctx, &mut c, spec.ch, &all, pos, b);
                    }
                    step(ctx, &mut c, spec.ch, &all, pos, b);
                    ctx.outcome(b as u64);
                    ctx.state(hash_f32(&all) ^ b as u64);
                }));
            }
        }
    }
    // two buffer sizes alternating over recordings with frames larger than the buffers
    for ch in [1usize, 2, 6] {
        for level in [0u32, 7] {
            let spec = Spec::new(44100, ch, level, Sig::Loud, &[1024, 1024, 333, 1, 2000, 4097]);
            v.push(job(format!("alternating buffers {spec:?}"), move |ctx| {
                const B: [usize; 14] = [1, 2, 5, 6, 7, 100, 128, 1023, 1024, 1025, 4096, 5000, 8191, 100_000];
                let a = *ctx.pick(&B);
                let b = *ctx.pick(&B);
                let all = spec.reference(ctx);
                let mut c = spec.codec(ctx);
                rewind(ctx, &mut c, 0);
                let mut pos = 0;
                let mut idle = 0;
                while pos < all.len() && idle < 2 {
                    let was = pos;
                    pos = step(ctx, &mut c, spec.ch, &all, pos, a);
                    pos = step(ctx, &mut c, spec.ch, &all, pos, b);
                    idle = if pos == was { idle + 1 } else { 0 };
                }
                ctx.state(hash_f32(&all) ^ (a * 1000 + b) as u64);
                ctx.outcome((a * 100_003 + b) as u64);
                step(ctx, &mut c, spec.ch, &all, pos, a);
            }));
        }
    }
    // after a partial decode and a rewind, or on a loaded copy
    for ch in 1..=3usize {
        for level in [0u32, 3] {
            let spec = Spec::new(8000, ch, level, Sig::Square3, &[4, 1, 6, 2]);
            v.push(job(format!("rewound part-way {spec:?}"), move |ctx| {
                let all = spec.reference(ctx);
                let mut c = spec.codec(ctx);
                if ctx.flag() {
                    c = load(&save(&c)).expect("loading what was saved");
                    ctx.op(|| "save, load".into());
                } else {
                    rewind(ctx, &mut c, 0);
                }
                for _ in 0..ctx.tier.pick(3, 4) {
                    let k = ctx.choose(spec.blocks() + 2);
                    let mut pos = 0;
                    if k > 0 {
                        pos = step(ctx, &mut c, spec.ch, &all, pos, k * spec.ch);
                    }
                    ctx.state(hash_f32(&all) ^ pos as u64);
                    let how = ctx.choose(2);
                    rewind(ctx, &mut c, how);
                }
                let mut pos = 0;
                while pos < all.len() {
                    pos = step(ctx, &mut c, spec.ch, &all, pos, 2 * spec.ch + 1);
                }
                step(ctx, &mut c, spec.ch, &all, pos, 2 * spec.ch + 1);
            }));
        }
    }
    // whole histories, with every decode call of them checked
    for ch in 1..=3usize {
        let ops = vec![
            Do::Dec(ch),
            Do::Rec(Sig::Loud, vec![3, 5]),
            Do::Init,
            Do::Dec(3 * ch + ch / 2),
            Do::Rec(Sig::Square, vec![1]),
            Do::Dec(0),
            Do::Dec(40),
            Do::Seek(4),
            Do::SaveLoad,
            Do::Dec(ch - 1),
        ];
        v.push(histories("histories", ch, tier.pick(5, 7), ops, |ctx, m| m.finish(ctx, 2 * m.ch + 1)));
    }
    // many channels, many frames, large buffers
    for ch in scale::WIDE {
        let spec = Spec::new(8000, ch, 0, Sig::Loud, &[2, 1, 3]);
        v.push(job(format!("wide {spec:?}"), move |ctx| {
            let bufs = [ch, ch - 1, 2 * ch + 1, 7 * ch, 3 * ch - 1];
            let all = spec.reference(ctx);
            let mut c = spec.codec(ctx);
            let how = ctx.choose(2);
            rewind(ctx, &mut c, how);
            let mut pos = 0;
            for _ in 0..2 {
                let b = *ctx.pick(&bufs);
                pos = step(ctx, &mut c, ch, &all, pos, b);
            }
            while pos < all.len() {
                pos = step(ctx, &mut c, ch, &all, pos, 2 * ch);
            }
            step(ctx, &mut c, ch, &all, pos, 4 * ch);
            ctx.state(hash_f32(&all) ^ ch as u64);
        }));
    }
    for (ch, sizes) in scale::tall(tier).into_iter().chain([
        (1, vec![3_000_000]),
        (2, vec![600_000, 70_000]),
        (3, vec![1_500_000]),
        (7, vec![700_000]),
    ]) {
        let spec = Spec::new(8000, ch, 0, Sig::Loud, &sizes);
        v.push(job(format!("large ch={ch} frames={} blocks={}", ch * sizes.len(), spec.blocks()), move |ctx| {
            let all = spec.reference(ctx);
            let mut c = spec.codec(ctx);
            rewind(ctx, &mut c, 0);
            let n = all.len();
            let bufs = [n, n + 5, n - ch, 65_536 * ch, 65_537 * ch, 1 << 20, (1 << 21) + 1, n / 2 + 1, 1000 * ch];
            let b = *ctx.pick(&bufs);
            let mut pos = 0;
            while pos < n {
                pos = step(ctx, &mut c, ch, &all, pos, b);
            }
            step(ctx, &mut c, ch, &all, pos, b);
            ctx.state(hash_f32(&all) ^ b as u64);
        }));
    }
    // long frames
    for (ch, level) in [(1usize, 0u32), (2, 2)] {
        let spec = Spec::new(44100, ch, level, Sig::Sine, &[70000, 3, 65535]);
        v.push(job(format!("long frames {spec:?}"), move |ctx| {
            let b = *ctx.pick(&[997usize, 65534, 65535, 65536, 131070, 400_000]);
            let all = spec.reference(ctx);
            let mut c = spec.codec(ctx);
            rewind(ctx, &mut c, 0);
            let mut pos = 0;
            while pos < all.len() {
                pos = step(ctx, &mut c, spec.ch, &all, pos, b);
            }
            step(ctx, &mut c, spec.ch, &all, pos, b);
        }));
    }
    v.extend(cover::jobs("walks", tier.pick(2, 1), 24, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, k| {
        let ch = spec.ch;
        let all = spec.reference(ctx);
        let mut c = spec.codec(ctx);
        rewind(ctx, &mut c, k % 2);
        let mut pos = 0;
        for i in 0.. {
            let b = cover::buffer(k, i) * ch + (k + i) % ch;
            pos = step(ctx, &mut c, ch, &all, pos, b);
            if pos == all.len() {
                break;
            }
        }
        step(ctx, &mut c, ch, &all, pos, 3 * ch);
        ctx.state(hash_f32(&all) ^ k as u64);
        ctx.outcome(hash_f32(&all));
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C03",
        "model_checking",
        "a state is a recording and the position reached in it; a transition is a call on the codec; every execution is one sequence of buffer sizes, checked call by call against the samples one big call delivers (at level 0 also against the 16-bit model), with sentinels behind the reported count",
        jobs,
    ))
}
