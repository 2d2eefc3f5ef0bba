//! C25: what a codec is configured to counts, not how or when it was configured
use mc::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    WithInfo(u32, u32),
    SetInfo(u32, u32),
    Level(u32),
}
use Step::*;

fn apply(c: AdhocCodec, s: Step) -> AdhocCodec {
    let mut c = c;
    match s {
        WithInfo(r, ch) => c.with_info(StreamInfo::new(r, ch)),
        SetInfo(r, ch) => {
            c.set_info(StreamInfo::new(r, ch));
            c
        }
        Level(l) => c.with_compression_level(l),
    }
}

/// the configuration after some steps: info and level
#[derive(Clone, Copy, Debug, PartialEq)]
struct Conf {
    info: Option<(u32, u32)>,
    level: u32,
}
impl Conf {
    fn step(mut self, s: Step) -> Self {
        match s {
            WithInfo(r, ch) | SetInfo(r, ch) => self.info = Some((r, ch)),
            Level(l) => self.level = l.min(10),
        }
        self
    }
    fn fresh(self) -> AdhocCodec {
        let (r, ch) = self.info.unwrap();
        adhoc(r, ch as usize, self.level)
    }
}

fn expect_info(ctx: &mut Ctx, c: &AdhocCodec, conf: Conf) {
    let Some((r, ch)) = conf.info else { return };
    for i in [c.info(), Streamable::info(c)] {
        ctx.ensure(i.frequency() == r as usize && i.channels() == ch as usize, || {
            format!("info says {} Hz, {} channels after {r} Hz, {ch} channels were set", i.frequency(), i.channels())
        });
    }
}

/// level that a saved file carries
fn level_of(bytes: &[u8]) -> u32 {
    u32::from_le_bytes(bytes[..4].try_into().unwrap())
}

/// records something and compares with what a fresh codec of this configuration makes of it. The dither of a used codec
/// has moved on, so from level 1 on its samples only keep their distance from the input.
fn record(ctx: &mut Ctx, c: &mut AdhocCodec, conf: Conf, used: bool, sig: Sig, sizes: &[usize]) {
    let (_, ch) = conf.info.unwrap();
    let ch = ch as usize;
    let mut f = conf.fresh();
    let mut at = 0;
    let mut all = vec![];
    for &n in sizes {
        let x = signal_from(sig, at, n, ch);
        at += n;
        encode(ctx, c, &x, ch);
        Streamable::encode(&mut f, &x);
        all.extend(x);
    }
    expect_info(ctx, c, conf);
    let (got, want) = (save(c), save(&f));
    ctx.ensure(level_of(&got) == conf.level, || format!("the file carries level {} instead of {}", level_of(&got), conf.level));
    if !used || conf.level == 0 {
        ctx.ensure(got == want, || format!("{conf:?}: the file is not the one a fresh codec writes"));
    }
    let n = c.calculate_sample_count_per_channel();
    ctx.ensure(n == at as u64, || format!("{conf:?}: {n} samples per channel instead of {at}"));
    c.init();
    let got = drain(ctx, c, 7 * ch, all.len());
    ctx.ensure(got.len() == all.len(), || format!("{conf:?}: {} samples decoded, {} encoded", got.len(), all.len()));
    let step = (1u64 << conf.level) as f64;
    let bound = step / 32767.0 + 0.001 * (1.0 - 1.0 / step) + 2e-6;
    if let Some(i) = (0..all.len()).find(|&i| !((got[i] as f64 - all[i] as f64).abs() <= bound)) {
        ctx.fail(format!("{conf:?}: sample {i} was {}, decodes to {}", all[i], got[i]));
    }
    ctx.state(H::new(25).add(hash_f32(&all)).add(conf.level as u64).add(ch as u64).get());
    ctx.outcome(hash_f32(&got));
}

const STEPS: [Step; 10] = [
    WithInfo(1000, 1),
    SetInfo(1000, 2),
    Level(3),
    Level(0),
    SetInfo(44100, 3),
    WithInfo(0, 2),
    Level(10),
    SetInfo(1000, 1),
    Level(4_000_000_000),
    WithInfo(u32::MAX, 1),
];

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    // every sequence of steps on a new codec
    v.push(job("new codec", |ctx| {
        let n = 1 + ctx.choose(ctx.tier.pick(4, 5));
        let steps: Vec<Step> = (0..n).map(|_| *ctx.pick(&STEPS)).collect();
        let mut conf = Conf { info: None, level: 0 };
        let mut c = AdhocCodec::new();
        for &s in &steps {
            c = apply(c, s);
            conf = conf.step(s);
            ctx.op(|| format!("{s:?}"));
            expect_info(ctx, &c, conf);
        }
        if conf.info.is_some() {
            record(ctx, &mut c, conf, false, Sig::Loud, &[5, 2]);
        }
    }));
    // every sequence of steps on a codec that was used, and rewound or loaded
    for (first, level) in [((1000u32, 2u32), 0u32), ((1000, 1), 6), ((8000, 3), 2), ((1000, 5), 0)] {
        v.push(job(format!("used codec {first:?} level={level}"), move |ctx| {
            let start = Conf { info: Some(first), level };
            let mut c = start.fresh();
            let rounds = ctx.tier.pick(1, 2);
            let mut conf = start;
            for round in 0..=rounds {
                if round == 0 {
                    let sizes: &[usize] = *ctx.pick(&[&[9usize][..], &[], &[1, 30]]);
                    let mut at = 0;
                    for &n in sizes {
                        encode(ctx, &mut c, &signal_from(Sig::Square, at, n, first.1 as usize), first.1 as usize);
                        at += n;
                    }
                }
                let how = ctx.choose(4);
                ctx.op(|| ["init()", "seek(Start(0))", "decode part, init()", "save, load"][how].into());
                match how {
                    0 => c.init(),
                    1 => Streamable::seek(&mut c, SeekFrom::Start(0)),
                    2 => {
                        c.init();
                        Streamable::decode(&mut c, &mut vec![0.0; 3 * conf.info.unwrap().1 as usize]);
                        c.init();
                    }
                    _ => match load(&save(&c)) {
                        Some(l) => c = l,
                        None => ctx.fail("a saved recording does not load".into()),
                    },
                }
                let n = 1 + if round == 0 { ctx.choose(2) } else { 0 };
                for _ in 0..n {
                    let s = *ctx.pick(&STEPS);
                    ctx.op(|| format!("{s:?}"));
                    c = apply(c, s);
                    conf = conf.step(s);
                    expect_info(ctx, &c, conf);
                }
                record(ctx, &mut c, conf, true, [Sig::Sine, Sig::Loud][round % 2], [&[6usize, 1][..], &[4]][round % 2]);
            }
        }));
    }
    // setting what is set already, or another rate, at any moment changes nothing else
    for (ch, level) in [(1u32, 0u32), (2, 0), (2, 7), (3, 1)] {
        v.push(job(format!("same again ch={ch} level={level}"), move |ctx| {
            let mut rate = 1000;
            let mut c = adhoc(rate, ch as usize, level);
            let mut plain = adhoc(rate, ch as usize, level);
            let chu = ch as usize;
            let calls = [3usize, 1, 8, 2];
            let mut at = 0;
            let mut left = ctx.tier.pick(3, 4);
            let mut set = |ctx: &mut Ctx, c: AdhocCodec, rate: &mut u32| -> AdhocCodec {
                let k = if left > 0 { ctx.choose(6) } else { 0 };
                left -= (k > 0) as usize;
                let s = match k {
                    0 => return c,
                    1 => WithInfo(*rate, ch),
                    2 => SetInfo(*rate, ch),
                    3 => Level(level),
                    4 => {
                        *rate = 48000;
                        SetInfo(48000, ch)
                    }
                    _ => {
                        *rate = 1000;
                        WithInfo(1000, ch)
                    }
                };
                ctx.op(|| format!("{s:?}"));
                apply(c, s)
            };
            for n in calls {
                c = set(ctx, c, &mut rate);
                let x = signal_from(Sig::Loud, at, n, chu);
                at += n;
                encode(ctx, &mut c, &x, chu);
                Streamable::encode(&mut plain, &x);
            }
            c = set(ctx, c, &mut rate);
            expect_info(ctx, &c, Conf { info: Some((rate, ch)), level });
            plain.set_info(StreamInfo::new(rate, ch));
            ctx.ensure(save(&c) == save(&plain), || "the file differs".into());
            c.init();
            plain.init();
            let n = ctx.choose(9);
            for _ in 0..2 {
                let mut a = vec![0.5; n * chu];
                let mut b = a.clone();
                let (x, y) = (Streamable::decode(&mut c, &mut a), Streamable::decode(&mut plain, &mut b));
                ctx.op(|| format!("decode {n} blocks: {x:?}"));
                ctx.ensure(x == y && hash_f32(&a) == hash_f32(&b), || "decoding differs".into());
                c = set(ctx, c, &mut rate);
            }
            plain.set_info(StreamInfo::new(rate, ch));
            expect_info(ctx, &c, Conf { info: Some((rate, ch)), level });
            let want = drain(ctx, &mut plain, 4 * chu, 14 * chu);
            expect_rest(ctx, &mut c, 3 * chu, &want, "after setting the same again");
            ctx.ensure(save(&c) == save(&plain), || "the file differs in the end".into());
            Streamable::seek(&mut c, SeekFrom::Start(2));
            Streamable::seek(&mut plain, SeekFrom::Start(2));
            let want = drain(ctx, &mut plain, 4 * chu, 14 * chu);
            expect_rest(ctx, &mut c, 3 * chu, &want, "after setting the same again and a seek");
            ctx.state(H::new(n as u64).add(rate as u64).add(level as u64).add(ch as u64).get());
        }));
    }
    // every channel count and level is stored and used, on a new and on a used codec
    v.push(job("very many channels", |ctx| {
        let ch = *ctx.pick(&scale::WIDE) as u32;
        let level = *ctx.pick(&[0u32, 4]);
        let rate = *ctx.pick(&[1000u32, 44100]);
        let order = ctx.choose(3);
        let mut c = AdhocCodec::new();
        let steps = match order {
            0 => vec![WithInfo(rate, ch), Level(level)],
            1 => vec![Level(level), SetInfo(rate, ch)],
            _ => vec![SetInfo(rate, 2), Level(10), SetInfo(rate, ch), Level(level)],
        };
        for &s in &steps {
            c = apply(c, s);
            ctx.op(|| format!("{s:?}"));
        }
        let conf = Conf { info: Some((rate, ch)), level };
        expect_info(ctx, &c, conf);
        record(ctx, &mut c, conf, false, Sig::Loud, &[2, 1]);
        c.init();
        let small = Conf { info: Some((rate, 3)), level };
        c = apply(c, SetInfo(rate, 3));
        record(ctx, &mut c, small, true, Sig::Sine, &[5, 40]);
        c.init();
        c = apply(c, SetInfo(rate, ch));
        record(ctx, &mut c, conf, true, Sig::Loud, &[1, 2]);
    }));
    v.push(job("every level", |ctx| {
        let levels: Vec<u32> = (0..70).chain([127, 128, 255, 256, 257, 265, 65_535, 65_536, 65_541, 1 << 31, u32::MAX - 1, u32::MAX]).collect();
        let level = *ctx.pick(&levels);
        let first = *ctx.pick(&[None, Some(0u32), Some(9), Some(u32::MAX)]);
        let mut conf = Conf { info: Some((8000, 2)), level: 0 };
        let mut c = apply(AdhocCodec::new(), SetInfo(8000, 2));
        for l in first.into_iter().chain([level]) {
            c = apply(c, Level(l));
            conf = conf.step(Level(l));
            ctx.op(|| format!("level {l}"));
        }
        record(ctx, &mut c, conf, false, *ctx.tier.pick(&Sig::Loud, &Sig::Square), &[40, 3]);
    }));
    // a long recording, reconfigured with what it has
    for (ch, sizes) in scale::tall(tier) {
        v.push(job(format!("same again after {} calls of {} ch={ch}", sizes.len(), sizes[0]), move |ctx| {
            let spec = Spec::new(1000, ch, 0, Sig::Loud, &sizes);
            let mut c = spec.codec(ctx);
            let plain = save(&c);
            let s = *ctx.pick(&[WithInfo(1000, ch as u32), SetInfo(1000, ch as u32), Level(0)]);
            ctx.op(|| format!("{s:?}"));
            c = apply(c, s);
            ctx.ensure(save(&c) == plain, || format!("{s:?} changed the file"));
            let x = signal_from(Sig::Loud, spec.blocks(), 9, ch);
            encode(ctx, &mut c, &x, ch);
            c.init();
            c = apply(c, s);
            let mut all: Vec<f32> = spec.calls().concat();
            all.extend(x);
            let got = drain(ctx, &mut c, 999 * ch, all.len());
            ctx.ensure(got.len() == all.len(), || format!("{} samples decoded, {} encoded", got.len(), all.len()));
            if let Some(i) = (0..all.len()).find(|&i| quant(got[i]) != quant(all[i]) && (got[i] - all[i]).abs() > 4e-5) {
                ctx.fail(format!("sample {i} was {}, decodes to {}", all[i], got[i]));
            }
            ctx.state(hash_f32(&got));
        }));
    }
    // the stream info itself, and a wav stream's
    v.push(job("stream info", |ctx| {
        const N: [u32; 12] = [0, 1, 2, 3, 8, 255, 256, 44100, 65535, 65536, 0x8000_0001, u32::MAX];
        let r = *ctx.pick(&N);
        let ch = *ctx.pick(&N);
        let i = StreamInfo::new(r, ch);
        let copy = i;
        let [x, y, z] = [0, 1, 2].map(|how| ctx.ok(value::through(&i, how)));
        for i in [i, copy, x, y, z, WavCodec::new(i).info(), Streamable::info(&WavCodec::new(i))] {
            ctx.op(|| format!("info of {r} Hz, {ch} channels"));
            ctx.ensure(i.frequency() == r as usize && i.channels() == ch as usize, || {
                format!("{r} Hz, {ch} channels become {} Hz, {} channels", i.frequency(), i.channels())
            });
            let b = i.as_bytes();
            let words: Vec<u32> = b.chunks(4).map(|w| u32::from_ne_bytes(w.try_into().unwrap_or([0xee; 4]))).collect();
            ctx.ensure(b.len() == 8 && (words == [r, ch] || words == [ch, r]), || format!("{r} Hz, {ch} channels as bytes: {b:?}"));
        }
        let d = StreamInfo::default();
        ctx.ensure(d.frequency() == 0 && d.channels() == 0, || "the default is not empty".into());
        ctx.state(H::new(r as u64).add(ch as u64).get());
    }));
    // from every number of channels to every other, over covering recordings
    v.extend(cover::jobs("walks", tier.pick(9, 2), 24, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, k| {
        let mut conf = Conf { info: Some((spec.rate, spec.ch as u32)), level: spec.level };
        let mut c = conf.fresh();
        record(ctx, &mut c, conf, false, spec.sig, &spec.sizes);
        for i in 0..cover::CHANNELS.len() {
            if (k + i) % 3 == 0 {
                c = load(&save(&c)).unwrap_or_else(|| ctx.fail("a saved recording does not load".into()));
            } else {
                c.init();
            }
            let other = cover::CHANNELS[(i + k) % cover::CHANNELS.len()] as u32;
            let steps = [SetInfo(cover::RATES[(k + i) % 11], other), Level((k as u32 + i as u32) % 12)];
            for j in 0..2 {
                let s = steps[(i + j) % 2];
                c = apply(c, s);
                conf = conf.step(s);
                ctx.op(|| format!("{s:?}"));
            }
            // back again, so that each count follows this one and this one each
            let len = cover::buffer(k, i).min(300);
            record(ctx, &mut c, conf, true, TAME[(k + i) % 11], &[len, 1 + i, 3]);
            c.init();
            let s = SetInfo(spec.rate, spec.ch as u32);
            c = apply(c, s);
            conf = conf.step(s);
            record(ctx, &mut c, conf, true, spec.sig, &spec.sizes[..6]);
        }
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C25",
        "model_checking",
        "a state is a configuration and what was recorded under it; a transition is a configuring or coding call on the real codec; every execution compares file, info, count and samples with a fresh codec configured directly",
        jobs,
    ))
}
