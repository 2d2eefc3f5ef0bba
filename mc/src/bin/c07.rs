//! C07: the reported file-size upper bound is one, and tight
use mc::*;

fn adhoc_ok(ctx: &mut Ctx, c: &AdhocCodec, after: &str) {
    let ub = Streamable::filesize_upperbound(c);
    let bits = save(c).len() as u64 * 8;
    ctx.op(|| format!("after {after}: bound {ub}, saved {bits} bits"));
    ctx.ensure(ub >= bits, || format!("after {after}: bound of {ub} bits, but saving writes {bits}"));
    ctx.ensure(ub <= bits + bits / 20 + 1024, || format!("after {after}: bound of {ub} bits for {bits} saved is not tight"));
    ctx.outcome(bits);
    ctx.state(bits ^ ub << 32);
}
fn wav_ok(ctx: &mut Ctx, c: &WavCodec, after: &str) {
    let ub = c.filesize_upperbound();
    let bits = save_wav(c).len() as u64 * 8;
    ctx.op(|| format!("after {after}: bound {ub}, saved {bits} bits"));
    ctx.ensure(ub == bits, || format!("after {after}: wav bound {ub} bits, saving writes {bits}"));
    ctx.outcome(!bits);
    ctx.state(!bits ^ ub << 32);
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for ch in [1usize, 2, 3, 6] {
        for level in [0u32, 5, 10] {
            for s in [Sig::Silence, Sig::Sine, Sig::Loud, Sig::Square] {
                v.push(job(format!("adhoc histories {s:?} ch={ch} level={level}"), move |ctx| {
                    let mut c = adhoc(1000, ch, level);
                    adhoc_ok(ctx, &c, "creation");
                    let mut at = 0;
                    let mut can_encode = true;
                    let depth = ctx.tier.pick(3, 5);
                    for _ in 0..depth {
                        const N: [usize; 6] = [0, 1, 3, 10, 130, 1024];
                        let k = ctx.choose(if can_encode { 11 } else { 5 });
                        let what = match k {
                            0 => {
                                c.init();
                                can_encode = true;
                                "init()".to_string()
                            }
                            1 => {
                                if can_encode && at > 0 {
                                    c.init();
                                }
                                can_encode = false;
                                let mut b = vec![0.0; 4 * ch];
                                format!("decode = {:?}", Streamable::decode(&mut c, &mut b))
                            }
                            2 => {
                                c.init();
                                can_encode = false;
                                let mut b = vec![0.0; 100 * ch];
                                while Streamable::decode(&mut c, &mut b).is_some() {}
                                "decode to the end".into()
                            }
                            3 => {
                                Streamable::seek(&mut c, SeekFrom::Start(5));
                                can_encode = false;
                                "seek(5)".into()
                            }
                            4 => {
                                c = load(&save(&c)).unwrap_or_else(|| ctx.fail("a saved recording does not load".into()));
                                can_encode = true;
                                "save, load".into()
                            }
                            k => {
                                let n = N[k - 5];
                                encode(ctx, &mut c, &signal_from(s, at, n, ch), ch);
                                at += n;
                                format!("encode({n} blocks)")
                            }
                        };
                        adhoc_ok(ctx, &c, &what);
                    }
                }));
            }
        }
    }
    // growth: checked after every call
    for ch in [1usize, 2, 5] {
        for s in [Sig::Silence, Sig::Loud, Sig::Square, Sig::Quiet] {
            for size in [1usize, 2, 3, 40, 700] {
                v.push(job(format!("adhoc growth {s:?} ch={ch} calls of {size}"), move |ctx| {
                    let mut c = adhoc(44100, ch, 0);
                    let calls = ctx.tier.pick(if size > 100 { 40 } else { 300 }, 1500);
                    for k in 0..calls {
                        encode(ctx, &mut c, &signal_from(s, k * size, size, ch), ch);
                        if k < 150 || k % 7 == 0 {
                            adhoc_ok(ctx, &c, "encode");
                        }
                    }
                    c.init();
                    adhoc_ok(ctx, &c, "init()");
                    let mut b = vec![0.0; 333 * ch];
                    let mut i = 0;
                    while Streamable::decode(&mut c, &mut b).is_some() {
                        i += 1;
                        if i < 40 {
                            adhoc_ok(ctx, &c, "decode");
                        }
                    }
                    adhoc_ok(ctx, &c, "decode to the end");
                }));
            }
        }
    }
    // recorded over a longer recording
    v.push(job("adhoc recorded over", |ctx| {
        let ch = 1 + ctx.choose(2);
        let a = *ctx.pick(&[3usize, 500, 5000]);
        let b = *ctx.pick(&[1usize, 3, 200]);
        let mut c = adhoc(1000, ch, 0);
        for k in 0..5 {
            encode(ctx, &mut c, &signal_from(Sig::Loud, k * a, a, ch), ch);
        }
        c.init();
        adhoc_ok(ctx, &c, "init()");
        encode(ctx, &mut c, &signal(Sig::Sine, b, ch), ch);
        adhoc_ok(ctx, &c, "recording over");
    }));
    // without stream info
    v.push(job("adhoc without info", |ctx| {
        let c = AdhocCodec::new();
        let bits = save(&c).len() as u64 * 8;
        let ub = Streamable::filesize_upperbound(&c);
        ctx.op(|| "new()".into());
        ctx.ensure(ub >= bits && ub <= bits + 1024, || format!("bound {ub} for an empty file of {bits} bits"));
    }));
    // many channels, many frames, many bytes
    for ch in scale::WIDE {
        v.push(job(format!("adhoc wide ch={ch}"), move |ctx| {
            let mut c = adhoc(1000, ch, 0);
            adhoc_ok(ctx, &c, "creation");
            for n in [1usize, 3, 1] {
                encode(ctx, &mut c, &signal(Sig::Loud, n, ch), ch);
                adhoc_ok(ctx, &c, "encode");
            }
        }));
    }
    for (ch, sizes) in scale::tall(tier) {
        v.push(job(format!("adhoc tall ch={ch} frames={}", ch * sizes.len()), move |ctx| {
            let mut c = adhoc(1000, ch, 0);
            let x = signal(Sig::Silence, sizes[0], ch);
            let mut frames = 0;
            for _ in &sizes {
                Streamable::encode(&mut c, &x);
                frames += ch;
                let edge = (frames + ch).next_power_of_two();
                if frames > 100 && (frames + ch >= edge || frames - frames.next_power_of_two() / 2 <= ch) {
                    adhoc_ok(ctx, &c, "encode");
                }
            }
            adhoc_ok(ctx, &c, "encode");
            c.init();
            adhoc_ok(ctx, &c, "init()");
            let mut b = vec![0.0; 100 * ch];
            while Streamable::decode(&mut c, &mut b).is_some() {}
            adhoc_ok(ctx, &c, "decode to the end");
        }));
    }
    v.push(job("adhoc beyond 2^32 bits", |ctx| {
        let _one = scale::alone();
        let (c, _) = scale::mostly_silent(ctx, (1usize << 32) / (65_528 * 16) + 2, 65_528, 14);
        adhoc_ok(ctx, &c, "load");
    }));
    // bits, bytes and samples of more than 32 bits
    for samples in [1u64 << 28, (1 << 30) + 5] {
        v.push(job(format!("wav of {samples} samples"), move |ctx| {
            let _one = scale::alone();
            let c = match WavCodec::load(scale::Synth::wav(1, 44100, samples)) {
                Ok(c) => c,
                Err(e) => ctx.fail(format!("a wav file of {samples} samples is refused: {e}")),
            };
            let want = (44 + samples * 2) * 8;
            let ub = c.filesize_upperbound();
            ctx.op(|| format!("load of {samples} samples: bound {ub}"));
            let mut to = scale::Compare::new(scale::Synth::wav(1, 44100, samples));
            let r = c.save_to(&mut to);
            let bits = to.written * 8;
            ctx.ensure(r.is_ok() && ub == bits && ub == want, || format!("wav bound {ub} bits, saving writes {bits}, the samples take {want}"));
            ctx.outcome(bits);
            ctx.state(bits);
        }));
    }
    for size in [65535usize, 65536, 200_000] {
        v.push(job(format!("adhoc long {size}"), move |ctx| {
            let s = *ctx.pick(&[Sig::Silence, Sig::Loud]);
            let mut c = adhoc(44100, 1, 0);
            encode(ctx, &mut c, &signal(s, size, 1), 1);
            adhoc_ok(ctx, &c, "encode");
        }));
    }
    for ch in [1usize, 2, 3, 255] {
        v.push(job(format!("wav histories ch={ch}"), move |ctx| {
            let mut c = WavCodec::new(StreamInfo::new(1000, ch as u32));
            wav_ok(ctx, &c, "creation");
            for _ in 0..ctx.tier.pick(4, 6) {
                let what = match ctx.choose(9) {
                    k @ 0..=4 => {
                        let n = [0usize, 1, 2, 17, 300][k];
                        let r = c.encode(&signal(Sig::Loud, n, ch));
                        format!("encode({n} blocks) = {r:?}")
                    }
                    5 => {
                        let mut b = vec![0.0; 3 * ch];
                        format!("decode = {:?}", c.decode(&mut b))
                    }
                    6 => {
                        c.seek(SeekFrom::Start(0));
                        "seek(Start(0))".into()
                    }
                    7 => {
                        c.seek(SeekFrom::End(-2));
                        "seek(End(-2))".into()
                    }
                    _ => {
                        c = load_wav(&save_wav(&c)).unwrap_or_else(|e| ctx.fail(format!("a saved wav does not load: {e}")));
                        "save, load".into()
                    }
                };
                wav_ok(ctx, &c, &what);
            }
        }));
    }
    v.push(job("wav sizes", |ctx| {
        let n = ctx.choose(2000);
        let mut c = WavCodec::new(StreamInfo::new(44100, 1));
        c.encode(&signal(Sig::Sine, n, 1));
        wav_ok(ctx, &c, "encode");
    }));
    v.push(job("wav loaded from other layouts", |ctx| {
        let bits = *ctx.pick(&[8u16, 16]);
        let n = ctx.choose(400);
        let f = riff::file(&[riff::chunk(b"LIST", &[7; 301]), riff::fmt_chunk(18, 1, 1, 8000, bits), riff::chunk(b"data", &vec![9; n * bits as usize / 8]), riff::chunk(b"junk", &[1; 21])]);
        match load_wav(&f) {
            Ok(c) => wav_ok(ctx, &c, "load"),
            Err(e) => ctx.fail(format!("a legal wav file is refused: {e}")),
        }
    }));
    v.extend(cover::jobs("walks", tier.pick(3, 1), 9, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, k| {
        let mut c = adhoc(spec.rate, spec.ch, spec.level);
        let calls = spec.calls();
        let every = 1 + calls.len() / 60;
        for (i, x) in calls.iter().enumerate() {
            encode(ctx, &mut c, x, spec.ch);
            if i % every == k % every {
                adhoc_ok(ctx, &c, "a call");
            }
        }
        c.init();
        for i in 0..20 {
            let mut b = vec![0.0; cover::buffer(k, i) * spec.ch];
            Streamable::decode(&mut c, &mut b);
            adhoc_ok(ctx, &c, "decoding");
        }
        let c = load(&save(&c)).unwrap_or_else(|| ctx.fail("a saved recording does not load".into()));
        adhoc_ok(ctx, &c, "loading");
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C07",
        "model_checking",
        "a state is the pair of reported bound and saved size after a step; a transition is a call on a codec; after every step of every history the bound is compared with the size of an actual save",
        jobs,
    ))
}
