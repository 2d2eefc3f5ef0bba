//! C04: a saved adhoc recording loads back as the same recording
use mc::{machine::*, *};

/// how far a decoding went: None if the codec was left as encoding left it
struct Reached {
    c: AdhocCodec,
    pos: Option<usize>,
}

fn reach(ctx: &mut Ctx, spec: &Spec, all: &[f32]) -> Reached {
    let ch = spec.ch;
    let mut c = spec.codec(ctx);
    let kinds = if spec.blocks() > 0 { 8 } else { 5 };
    match ctx.choose(kinds) {
        0 => Reached { c, pos: None },
        1 => {
            c.init();
            ctx.op(|| "init()".into());
            Reached { c, pos: Some(0) }
        }
        2 => {
            Streamable::seek(&mut c, SeekFrom::Start(0));
            ctx.op(|| "seek(Start(0))".into());
            Reached { c, pos: Some(0) }
        }
        3 => {
            c.init();
            expect_rest(ctx, &mut c, 3 * ch, all, "decoding before saving");
            Reached { c, pos: Some(all.len()) }
        }
        4 => {
            let c = load(&save(&c));
            ctx.op(|| "save, load".into());
            let Some(c) = c else { ctx.fail("a saved recording does not load".into()) };
            Reached { c, pos: Some(0) }
        }
        5 => {
            c.init();
            let n = (1 + ctx.choose(spec.blocks().min(12))) * ch;
            let mut b = vec![0.0; n];
            let r = Streamable::decode(&mut c, &mut b);
            ctx.op(|| format!("init(), decode({n}) = {r:?}"));
            ctx.ensure(r == Some(n), || format!("decode of {n} samples reported {r:?}"));
            Reached { c, pos: Some(n) }
        }
        6 => {
            // rate 1000: one block per millisecond
            let t = ctx.choose(spec.blocks().min(12));
            Streamable::seek(&mut c, SeekFrom::Start(t as u64));
            ctx.op(|| format!("seek(Start({t}))"));
            Reached { c, pos: Some(t * ch) }
        }
        _ => {
            // recorded over a longer and louder recording
            let mut c = adhoc(spec.rate, ch, spec.level);
            encode(ctx, &mut c, &signal(Sig::Loud, spec.blocks() + 40, ch), ch);
            c.init();
            ctx.op(|| "init(), and another recording before this one".into());
            if spec.level > 0 {
                // the dither goes on, so only level 0 is comparable
                let mut c = spec.codec(ctx);
                c.init();
                return Reached { c, pos: Some(0) };
            }
            for x in spec.calls() {
                encode(ctx, &mut c, &x, ch);
            }
            Reached { c, pos: None }
        }
    }
}

fn check(ctx: &mut Ctx, spec: &Spec, buf: usize) {
    let ch = spec.ch;
    let all = spec.reference(ctx);
    let mut at = reach(ctx, spec, &all);
    ctx.state(hash_f32(&all) ^ at.pos.map_or(!0, |p| p as u64));
    let count = spec.blocks() as u64;
    let counted = |ctx: &mut Ctx, c: &AdhocCodec, what: &str| {
        let n = c.calculate_sample_count_per_channel();
        ctx.ensure(n == count, || format!("{what}: sample count {n}, but decoding delivers {count} blocks"));
        let i = c.info();
        ctx.ensure(i.channels() == ch && i.frequency() == spec.rate as usize, || {
            format!("{what}: info is {} channels at {}, expected {ch} at {}", i.channels(), i.frequency(), spec.rate)
        });
    };
    counted(ctx, &at.c, "before saving");
    let bytes = save(&at.c);
    ctx.op(|| format!("save_to = {} bytes", bytes.len()));
    let again = save(&at.c);
    ctx.ensure(bytes == again, || "saving twice gives different bytes".into());
    ctx.ensure(bytes[..4] == spec.level.to_le_bytes(), || format!("level {} saved as {:?}", spec.level, &bytes[..4]));

    let Some(mut l) = load(&bytes) else { ctx.fail(format!("loading the {} saved bytes fails", bytes.len())) };
    ctx.op(|| "load".into());
    counted(ctx, &l, "after loading");
    let second = save(&l);
    ctx.op(|| "save_to of the loaded codec".into());
    expect_rest(ctx, &mut l, buf, &all, "loaded recording");
    counted(ctx, &l, "after decoding the loaded codec");
    // decode again after a rewind of the loaded codec, and save at its end
    let third = save(&l);
    l.init();
    expect_rest(ctx, &mut l, buf + ch, &all, "loaded recording, second time");
    for (bytes, what) in [(&second, "loaded codec saved again"), (&third, "loaded codec saved at its end")] {
        let Some(mut m) = load(bytes) else { ctx.fail(format!("{what}: does not load")) };
        ctx.op(|| format!("load: {what}"));
        counted(ctx, &m, what);
        ctx.ensure(bytes[..4] == spec.level.to_le_bytes(), || format!("{what}: level changed"));
        expect_rest(ctx, &mut m, buf, &all, what);
    }
    // the saved codec goes on as if it had not been saved
    match at.pos {
        Some(p) => expect_rest(ctx, &mut at.c, buf, &all[p..], "the saved codec, continued"),
        None => {
            if spec.level == 0 {
                let more = signal_from(Sig::Sine, 77, 5, ch);
                encode(ctx, &mut at.c, &more, ch);
                let mut pcm = spec.pcm();
                pcm.extend(more.iter().map(|&x| quant(x)));
                at.c.init();
                let got = drain(ctx, &mut at.c, buf, pcm.len());
                expect_pcm(ctx, &got, &pcm, "recording continued after saving");
            } else {
                at.c.init();
                expect_rest(ctx, &mut at.c, buf, &all, "the saved codec, rewound");
            }
        }
    }
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for ch in [1usize, 2, 3, 4, 7] {
        for level in 0..=10u32 {
            v.push(job(format!("shapes ch={ch} level={level}"), move |ctx| {
                const S: [usize; 7] = [0, 1, 2, 3, 4, 6, 130];
                let s = *ctx.pick(&[Sig::Loud, Sig::Square, Sig::Silence, Sig::Sine]);
                let n = ctx.tier.pick(2, 3);
                let sizes: Vec<usize> = (0..n).map(|_| *ctx.pick(&S)).collect();
                check(ctx, &Spec::new(1000, ch, level, s, &sizes), 5 * ch);
            }));
        }
    }
    for rate in [0u32, 1, 8000, 44100, 192_000, u32::MAX] {
        v.push(job(format!("info rate={rate}"), move |ctx| {
            let ch = *ctx.pick(&[1usize, 2, 255, 256, 1000]);
            let n = ctx.choose(5);
            let spec = Spec::new(rate, ch, 0, Sig::Ramp, &[n]);
            let c = spec.codec(ctx);
            let all = spec.reference(ctx);
            let Some(mut l) = load(&save(&c)) else { ctx.fail("a saved recording does not load".into()) };
            let i = l.info();
            ctx.ensure(i.channels() == ch && i.frequency() == rate as usize, || "info changed".into());
            expect_rest(ctx, &mut l, 3 * ch, &all, "loaded");
        }));
    }
    for s in SIGS {
        for ch in [1usize, 2] {
            for level in [0u32, 5] {
                v.push(job(format!("sizes {s:?} ch={ch} level={level}"), move |ctx| {
                    let a = *ctx.pick(&SIZES);
                    let b = *ctx.pick(&[0usize, 1, 3, 1024]);
                    check(ctx, &Spec::new(1000, ch, level, s, &[a, b]), 500 * ch);
                }));
            }
        }
    }
    // frame-table storage boundaries
    for ch in [1usize, 2, 3, 5] {
        v.push(job(format!("many calls ch={ch}"), move |ctx| {
            let n = ctx.choose(ctx.tier.pick(140, 520));
            let level = *ctx.pick(&[0u32, 2]);
            check(ctx, &Spec::new(1000, ch, level, Sig::Loud, &vec![1 + n % 3; n]), 33 * ch);
        }));
    }
    // whole histories, saved and loaded anywhere
    for ch in 1..=3usize {
        let ops = vec![
            Do::SaveLoad,
            Do::Rec(Sig::Loud, vec![4]),
            Do::Rec(Sig::Square, vec![1, 2, 30]),
            Do::Init,
            Do::Dec(2 * ch),
            Do::Dec(12 * ch),
            Do::Seek(3),
            Do::Seek(20),
            Do::Dec(100 * ch),
        ];
        v.push(histories("histories", ch, tier.pick(5, 7), ops, |ctx, m| {
            let at = (m.at, m.pos);
            let bytes = save(&m.c);
            let mut l = Machine::new(1000, m.ch);
            l.pcm = m.pcm.clone();
            l.c = match load(&bytes) {
                Some(c) => c,
                None => ctx.fail(format!("loading the {} saved bytes fails", bytes.len())),
            };
            l.counted(ctx);
            l.finish(ctx, 5 * m.ch);
            // the saved codec goes on
            assert!(at == (m.at, m.pos));
            if m.at == At::Encoding {
                m.apply(ctx, &Do::Rec(Sig::Sine, vec![6]));
            }
            m.finish(ctx, 7 * m.ch);
        }));
    }
    // large files
    v.push(job("large files", |ctx| {
        // 17 bits per sample: just beyond 4 and 16 MiB (and 64 MiB)
        const N: [&[usize]; 3] = [&[65_535, 2_000_000, 3], &[7_900_000], &[1_000_000; 32]];
        let sizes = N[ctx.choose(ctx.tier.pick(2, 3))];
        let spec = Spec::new(44100, 1, 0, Sig::Loud, sizes);
        let pcm = spec.pcm();
        let c = spec.codec(ctx);
        let bytes = save(&c);
        drop(c);
        let Some(mut l) = load(&bytes) else { ctx.fail(format!("loading the {} saved bytes fails", bytes.len())) };
        ctx.op(|| format!("load of {} bytes", bytes.len()));
        let n = l.calculate_sample_count_per_channel();
        ctx.ensure(n == pcm.len() as u64, || format!("sample count {n}, {} recorded", pcm.len()));
        let got = drain(ctx, &mut l, 1 << 16, pcm.len());
        expect_pcm(ctx, &got, &pcm, "loaded");
        ctx.state(pcm.len() as u64);
        ctx.outcome(bytes.len() as u64);
    }));
    // many channels and many frames
    for ch in scale::WIDE {
        v.push(job(format!("wide ch={ch}"), move |ctx| {
            let level = *ctx.pick(&[0u32, 3]);
            check(ctx, &Spec::new(1000, ch, level, Sig::Loud, &[2, 1]), 2 * ch);
        }));
    }
    for (ch, sizes) in scale::tall(tier) {
        v.push(job(format!("tall ch={ch} frames={}", ch * sizes.len()), move |ctx| {
            let spec = Spec::new(1000, ch, 0, Sig::Loud, &sizes);
            check(ctx, &spec, 999 * ch);
        }));
    }
    // more blocks than 32 bits count
    v.push(job("more than 2^32 blocks", |ctx| {
        let _one = scale::alone();
        let filler = 65_535;
        let n = (1usize << 32) / filler + 2;
        let (c, tail) = scale::mostly_silent(ctx, n, filler, 1);
        let blocks = (n * filler + tail.len()) as u64;
        let k = c.calculate_sample_count_per_channel();
        ctx.ensure(k == blocks, || format!("sample count {k} for {blocks} blocks"));
        let mut bytes = vec![];
        c.save_to(&mut bytes).expect("saving into a vector");
        drop(c);
        let Some(mut c) = load(&bytes) else { ctx.fail(format!("loading the {} saved bytes fails", bytes.len())) };
        ctx.op(|| format!("save_to, load: {} bytes", bytes.len()));
        drop(bytes);
        let k = c.calculate_sample_count_per_channel();
        ctx.ensure(k == blocks, || format!("sample count {k} after loading {blocks} blocks"));
        Streamable::seek(&mut c, SeekFrom::Start((n * filler - 2) as u64));
        ctx.op(|| format!("seek to block {}", n * filler - 2));
        let got = drain(ctx, &mut c, 500, 902);
        let mut want = vec![0i16; 2];
        want.extend(&tail);
        expect_pcm(ctx, &got, &want, "the end of the loaded recording");
        ctx.state(blocks);
    }));
    for s in [Sig::Loud, Sig::Square] {
        v.push(job(format!("long {s:?}"), move |ctx| {
            let n = *ctx.pick(&[65535usize, 65536, 100_000]);
            let ch = 1 + ctx.choose(2);
            check(ctx, &Spec::new(1000, ch, 0, s, &[n, 2]), 9999 * ch);
        }));
    }
    let _ = tier;
    v.extend(cover::jobs("walks", tier.pick(5, 1), 24, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, k| {
        let ch = spec.ch;
        let all = spec.reference(ctx);
        let buf = cover::buffer(k, ch) * ch;
        // saved and loaded again after every so many blocks decoded
        let mut c = spec.codec(ctx);
        let mut pos = None;
        for i in 0..5 {
            let bytes = save(&c);
            ctx.op(|| format!("save_to = {} bytes at {pos:?}", bytes.len()));
            let Some(mut l) = load(&bytes) else { ctx.fail(format!("{spec:?}: saved at {pos:?}, does not load")) };
            let n = l.calculate_sample_count_per_channel();
            ctx.ensure(n == spec.blocks() as u64, || format!("sample count {n} of the loaded recording of {} blocks", spec.blocks()));
            let info = l.info();
            ctx.ensure(info.channels() == ch && info.frequency() == spec.rate as usize && bytes[..4] == spec.level.to_le_bytes(), || {
                format!("{spec:?}: loaded with {} channels at {}, level {:?}", info.channels(), info.frequency(), &bytes[..4])
            });
            expect_rest(ctx, &mut l, buf, &all, "loaded recording");
            if pos.is_none() {
                c.init();
            }
            let mut b = vec![0.0; cover::buffer(k, i) * ch];
            let r = Streamable::decode(&mut c, &mut b).unwrap_or(0);
            let at: usize = pos.unwrap_or(0);
            ctx.ensure(r == b.len().min(all.len() - at), || format!("decode of {} at {at} reported {r}", b.len()));
            expect_same(ctx, &b[..r], &all[at..at + r], "the codec that was saved");
            pos = Some(at + r);
            ctx.state(hash_f32(&all) ^ (at + r) as u64);
        }
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C04",
        "model_checking",
        "a state is a recording and what its codec was doing when saved (encoding, rewound, position in decoding); a transition is a call on the codec; every execution saves, loads, decodes, saves again and continues, and compares every sample",
        jobs,
    ))
}
