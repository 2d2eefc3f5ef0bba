//! C06: recording again over a rewound codec leaves nothing of the old recording
use mc::{machine::*, *};

const REWINDS: [&str; 4] = ["init()", "seek(Start(0))", "decode to the end, init()", "save, load"];

fn rewind(ctx: &mut Ctx, c: AdhocCodec, ch: usize, how: usize) -> AdhocCodec {
    let mut c = c;
    ctx.op(|| REWINDS[how].into());
    match how {
        0 => c.init(),
        1 => Streamable::seek(&mut c, SeekFrom::Start(0)),
        2 => {
            c.init();
            let mut b = vec![0.0; 64 * ch];
            while Streamable::decode(&mut c, &mut b).is_some() {}
            c.init();
        }
        _ => match load(&save(&c)) {
            Some(l) => return l,
            None => ctx.fail("a saved recording does not load".into()),
        },
    }
    c
}

/// at level 0 everything about the codec must be what a fresh codec would show
fn compare(ctx: &mut Ctx, c: &mut AdhocCodec, spec: &Spec) {
    let ch = spec.ch;
    let all = spec.reference(ctx);
    let fresh = spec.codec(ctx);
    let n = c.calculate_sample_count_per_channel();
    ctx.ensure(n == spec.blocks() as u64, || format!("sample count {n} after recording {} blocks over", spec.blocks()));
    let bytes = save(c);
    let want = save(&fresh);
    ctx.op(|| format!("save_to = {} bytes, fresh {}", bytes.len(), want.len()));
    ctx.ensure(bytes == want, || {
        let i = (0..bytes.len().min(want.len())).find(|&i| bytes[i] != want[i]);
        format!("saved file is {} bytes, a fresh codec's {}; first difference at {i:?}", bytes.len(), want.len())
    });
    let Some(mut l) = load(&bytes) else { ctx.fail("the saved file does not load".into()) };
    expect_rest(ctx, &mut l, 7 * ch, &all, "saved and loaded");
    c.init();
    expect_rest(ctx, c, 5 * ch + 1, &all, "recorded over");
    // seeking (one block per millisecond)
    let blocks = spec.blocks();
    for t in [1, 2, 3, blocks / 2, blocks.saturating_sub(1), blocks, blocks + 9] {
        Streamable::seek(c, SeekFrom::Start(t as u64));
        ctx.op(|| format!("seek(Start({t}))"));
        expect_rest(ctx, c, 11 * ch, &all[t.min(blocks) * ch..], "recorded over, after a seek");
    }
    ctx.state(hash_f32(&all) ^ ch as u64);
}

fn record(ctx: &mut Ctx, c: &mut AdhocCodec, spec: &Spec) {
    for x in spec.calls() {
        encode(ctx, c, &x, spec.ch);
    }
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let shapes: Vec<(Sig, Vec<usize>)> = vec![
        (Sig::Silence, vec![1]),
        (Sig::Silence, vec![40]),
        (Sig::Loud, vec![2]),
        (Sig::Loud, vec![3]),
        (Sig::Loud, vec![60]),
        (Sig::Square, vec![17]),
        (Sig::Square, vec![5, 5, 5, 5]),
        (Sig::Sine, vec![1, 1, 1, 1, 1]),
        (Sig::Sine, vec![200, 100]),
        (Sig::Loud, vec![1; 66]),
        (Sig::Impulse, vec![100, 2]),
        (Sig::Dc, vec![4, 0, 4]),
    ];
    for ch in [1usize, 2, 3] {
        for (i, old) in shapes.iter().enumerate() {
            let old = old.clone();
            let shapes2 = shapes.clone();
            v.push(job(format!("pairs ch={ch} old={i} {old:?}"), move |ctx| {
                let (s, sizes) = ctx.pick(&shapes2).clone();
                let how = ctx.choose(4);
                let a = Spec::new(1000, ch, 0, old.0, &old.1);
                let b = Spec::new(1000, ch, 0, s, &sizes);
                let c = a.codec(ctx);
                let mut c = rewind(ctx, c, ch, how);
                record(ctx, &mut c, &b);
                compare(ctx, &mut c, &b);
            }));
            let old = shapes[i].clone();
            let shapes2 = shapes.clone();
            v.push(job(format!("chains ch={ch} old={i} {old:?}"), move |ctx| {
                let mut c = Spec::new(1000, ch, 0, old.0, &old.1).codec(ctx);
                let n = ctx.tier.pick(2, 3);
                let mut last = None;
                for k in 0..n {
                    let how = ctx.choose(if k + 1 == n { 4 } else { 2 });
                    c = rewind(ctx, c, ch, how);
                    let (s, sizes) = ctx.pick(&shapes2).clone();
                    let spec = Spec::new(1000, ch, 0, s, &sizes);
                    record(ctx, &mut c, &spec);
                    last = Some(spec);
                }
                compare(ctx, &mut c, &last.unwrap());
            }));
        }
    }
    // every pair of lengths
    for ch in [1usize, 2] {
        for (sa, sb) in [(Sig::Square, Sig::Silence), (Sig::Loud, Sig::Loud), (Sig::Silence, Sig::Square), (Sig::Loud, Sig::Quiet)] {
            v.push(job(format!("every length {sa:?} {sb:?} ch={ch}"), move |ctx| {
                let lim = ctx.tier.pick(24, 80);
                let a = 1 + ctx.choose(lim);
                let b = 1 + ctx.choose(lim);
                let how = ctx.choose(2);
                let old = Spec::new(1000, ch, 0, sa, &[a]);
                let new = Spec::new(1000, ch, 0, sb, &[b, 1]);
                let c = old.codec(ctx);
                let mut c = rewind(ctx, c, ch, how);
                record(ctx, &mut c, &new);
                compare(ctx, &mut c, &new);
            }));
        }
    }
    // whole histories, each ending in one more recording
    for ch in 1..=3usize {
        let ops = vec![
            Do::Init,
            Do::Rec(Sig::Loud, vec![9, 4]),
            Do::Dec(5 * ch),
            Do::Rec(Sig::Silence, vec![1]),
            Do::SaveLoad,
            Do::Dec(100 * ch),
            Do::Seek(10),
            Do::Rec(Sig::Square, vec![2, 70]),
            Do::Seek(0),
        ];
        v.push(histories("histories", ch, tier.pick(4, 6), ops, |ctx, m| {
            let how = ctx.choose(2);
            let c = std::mem::replace(&mut m.c, AdhocCodec::new());
            let mut c = rewind(ctx, c, m.ch, how);
            let new = Spec::new(1000, m.ch, 0, *ctx.pick(&[Sig::Sine, Sig::Loud]), ctx.pick(&[&[6usize, 3][..], &[2], &[40; 3]]));
            record(ctx, &mut c, &new);
            compare(ctx, &mut c, &new);
        }));
    }
    // rewinding in the middle of decoding large frames
    for sizes in [&[300usize, 900][..], &[6000], &[5000, 3], &[70_000, 9000]] {
        v.push(job(format!("rewind part-way {sizes:?}"), move |ctx| {
            let ch = 1 + ctx.choose(2);
            let old = Spec::new(1000, ch, 0, Sig::Loud, sizes);
            let new = Spec::new(1000, ch, 0, Sig::Square, &[*ctx.pick(&[1usize, 5, 7000]), 3]);
            let mut c = old.codec(ctx);
            c.init();
            // leave every power of two, and what is around it, of a frame
            let n = sizes[0];
            let mut left: Vec<usize> = (0..17).flat_map(|e| [1usize << e, (1 << e) + 1, (1 << e) - 1]).filter(|&l| l < n).collect();
            left.dedup();
            let k = n - *ctx.pick(&left);
            let mut b = vec![0.0; k * ch];
            let r = Streamable::decode(&mut c, &mut b);
            ctx.op(|| format!("decode({}) = {r:?}", k * ch));
            let how = ctx.choose(2);
            let mut c = rewind(ctx, c, ch, how);
            record(ctx, &mut c, &new);
            compare(ctx, &mut c, &new);
        }));
    }
    // rewinding in the middle of decoding, and twice
    v.push(job("rewind part-way", |ctx| {
        let ch = 1 + ctx.choose(2);
        let old = Spec::new(1000, ch, 0, Sig::Loud, &[30, 8]);
        let new = Spec::new(1000, ch, 0, Sig::Square, &[1 + ctx.choose(45)]);
        let mut c = old.codec(ctx);
        c.init();
        let k = ctx.choose(40);
        if k > 0 {
            let mut b = vec![0.0; k * ch];
            let r = Streamable::decode(&mut c, &mut b);
            ctx.op(|| format!("decode({}) = {r:?}", k * ch));
        }
        let how = ctx.choose(2);
        let c = rewind(ctx, c, ch, how);
        let again = ctx.choose(2);
        let mut c = rewind(ctx, c, ch, again);
        record(ctx, &mut c, &new);
        compare(ctx, &mut c, &new);
    }));
    v.push(job("seek, then rewind", |ctx| {
        let ch = 1 + ctx.choose(2);
        let old = Spec::new(1000, ch, 0, Sig::Loud, &[10, 8]);
        let new = Spec::new(1000, ch, 0, Sig::Sine, &[6, 3]);
        let mut c = old.codec(ctx);
        let t = ctx.choose(25) as u64;
        Streamable::seek(&mut c, SeekFrom::Start(t));
        ctx.op(|| format!("seek(Start({t}))"));
        let how = ctx.choose(2);
        let mut c = rewind(ctx, c, ch, how);
        record(ctx, &mut c, &new);
        compare(ctx, &mut c, &new);
    }));
    // large ones
    v.push(job("large", |ctx| {
        let ch = 1 + ctx.choose(2);
        let a = *ctx.pick(&[10usize, 70_000]);
        let b = *ctx.pick(&[12usize, 70_001]);
        let how = ctx.choose(4);
        let old = Spec::new(1000, ch, 0, Sig::Loud, &[a, a]);
        let new = Spec::new(1000, ch, 0, Sig::Sine, &[b, 3]);
        let c = old.codec(ctx);
        let mut c = rewind(ctx, c, ch, how);
        record(ctx, &mut c, &new);
        compare(ctx, &mut c, &new);
    }));
    // many channels and many frames, before and after
    for ch in scale::WIDE {
        v.push(job(format!("wide ch={ch}"), move |ctx| {
            let a = *ctx.pick(&[&[2usize, 3][..], &[1]]);
            let b = *ctx.pick(&[&[1usize][..], &[4, 2]]);
            let how = ctx.choose(4);
            let old = Spec::new(1000, ch, 0, Sig::Loud, a);
            let new = Spec::new(1000, ch, 0, Sig::Square, b);
            let c = old.codec(ctx);
            let mut c = rewind(ctx, c, ch, how);
            record(ctx, &mut c, &new);
            compare(ctx, &mut c, &new);
        }));
    }
    for (ch, sizes) in scale::tall(tier) {
        v.push(job(format!("tall ch={ch} frames={}", ch * sizes.len()), move |ctx| {
            let old = Spec::new(1000, ch, 0, Sig::Loud, &sizes);
            let new = Spec::new(1000, ch, 0, Sig::Square, if ctx.flag() { &[3, 1] } else { &sizes[1..] });
            let how = ctx.choose(4);
            let c = old.codec(ctx);
            let mut c = rewind(ctx, c, ch, how);
            record(ctx, &mut c, &new);
            compare(ctx, &mut c, &new);
        }));
    }
    // other levels: the dither goes on, so the samples are only bounded
    for level in [1u32, 5, 10] {
        v.push(job(format!("level {level}"), move |ctx| {
            let ch = 1 + ctx.choose(2);
            let a = *ctx.pick(&[1usize, 3, 20, 90]);
            let b = *ctx.pick(&[1usize, 3, 20, 90]);
            let how = ctx.choose(4);
            let old = Spec::new(1000, ch, level, Sig::Loud, &[a, 2]);
            let new = Spec::new(1000, ch, level, Sig::Square, &[b, 1]);
            let c = old.codec(ctx);
            let mut c = rewind(ctx, c, ch, how);
            record(ctx, &mut c, &new);
            let n = c.calculate_sample_count_per_channel();
            ctx.ensure(n == new.blocks() as u64, || format!("sample count {n}, expected {}", new.blocks()));
            c.init();
            let x: Vec<f32> = new.calls().concat();
            let got = drain(ctx, &mut c, 10 * ch, x.len());
            let bound = (1 << level) as f32 / 32767.0 + 0.001 + 1e-5;
            ctx.ensure(got.len() == x.len(), || format!("{} samples decoded, {} recorded", got.len(), x.len()));
            for i in 0..x.len() {
                ctx.ensure((x[i] - got[i]).abs() <= bound, || format!("sample {i}: {} recorded, {} decoded", x[i], got[i]));
            }
        }));
    }
    let _ = tier;
    v.extend(cover::jobs("walks", tier.pick(5, 1), 24, &[0], |ctx, spec, k| {
        let old = Spec { sig: TAME[k % 11], sizes: cover::sizes(if k % 2 == 0 { &cover::SHORT } else { &cover::LONG }, k + 5, 1 + k % 2), ..spec.clone() };
        let new = Spec { rate: 1000, ..spec };
        let mut c = adhoc(1000, new.ch, 0);
        record(ctx, &mut c, &old);
        let mut c = rewind(ctx, c, new.ch, k % 4);
        record(ctx, &mut c, &new);
        compare(ctx, &mut c, &new);
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C06",
        "model_checking",
        "a state is a recording made over others; a transition is a call on the codec; every execution is one chain of recordings and rewinds, compared with a fresh codec in saved bytes, count, decoding and seeking",
        jobs,
    ))
}
