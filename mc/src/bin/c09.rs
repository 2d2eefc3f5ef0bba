//! C09: a wav stream written by the codec is a well-formed wav and loads back unchanged
use mc::*;

fn check(ctx: &mut Ctx, c: &WavCodec, rate: u32, ch: usize, pcm: &[i16]) {
    let bytes = save_wav(c);
    ctx.op(|| format!("save_to: {} bytes for {} samples in {ch} channels at {rate}", bytes.len(), pcm.len()));
    let w = match riff::parse(&bytes) {
        Ok(w) => w,
        Err(e) => ctx.fail(format!("the saved file is not a well-formed wav: {e}")),
    };
    let block = (ch as u32) * 2;
    ctx.ensure(w.format == 1 && w.bits == 16 && w.fmt_size == 16, || format!("format {}, {} bits, fmt chunk of {}", w.format, w.bits, w.fmt_size));
    ctx.ensure(w.channels as usize == ch, || format!("{} channels in the header, {ch} in the stream", w.channels));
    ctx.ensure(w.rate == rate, || format!("rate {} in the header, {rate} in the stream", w.rate));
    if block <= u16::MAX as u32 {
        ctx.ensure(w.block_align as u32 == block, || format!("block align {} for {ch} channels", w.block_align));
    }
    if rate as u64 * block as u64 <= u32::MAX as u64 {
        ctx.ensure(w.byte_rate == rate * block, || format!("byte rate {} for {ch} channels at {rate}", w.byte_rate));
    }
    ctx.ensure(w.data == riff::pcm16(pcm), || {
        let i = (0..w.data.len().min(pcm.len() * 2)).find(|&i| w.data[i] != riff::pcm16(pcm)[i]);
        format!("data chunk of {} bytes for {} samples, first difference at {i:?}", w.data.len(), pcm.len())
    });
    ctx.ensure(bytes.len() == 44 + 2 * pcm.len(), || format!("{} bytes for {} samples", bytes.len(), pcm.len()));
    ctx.state(hash_i16(pcm) ^ rate as u64 ^ (ch as u64) << 32);
    let mut l = match load_wav(&bytes) {
        Ok(l) => l,
        Err(e) => ctx.fail(format!("the saved file of {} samples in {ch} channels does not load: {e}", pcm.len())),
    };
    ctx.op(|| "load".into());
    let i = Streamable::info(&l);
    ctx.ensure(i.channels() == ch && i.frequency() == rate as usize, || {
        format!("loaded as {} channels at {}, saved as {ch} at {rate}", i.channels(), i.frequency())
    });
    let again = save_wav(&l);
    ctx.ensure(again == bytes, || format!("saving the loaded stream gives {} bytes instead of {}, or other ones", again.len(), bytes.len()));
    let got = drain(ctx, &mut l, 64 * ch, pcm.len());
    expect_pcm(ctx, &got, pcm, "loaded stream");
    let again = save_wav(&l);
    ctx.ensure(again == bytes, || "saving after decoding gives other bytes".into());
    ctx.outcome(hash_f32(&got));
}

/// a stream of pattern samples (when encoded, of those 16-bit storage has) must be saved as exactly that
fn large(ctx: &mut Ctx, mut c: WavCodec, ch: u16, samples: u64, encoded: bool) {
    let want = || {
        if encoded {
            let unit = (0..scale::PERIOD).flat_map(|k| scale::pattern(k).max(-32767).to_le_bytes()).collect();
            scale::Synth::new(scale::wav_header(ch, 44100, 16, samples * 2), unit, samples * 2, vec![])
        } else {
            scale::Synth::wav(ch, 44100, samples)
        }
    };
    let mut to = scale::Compare::new(want());
    let r = c.save_to(&mut to);
    ctx.op(|| format!("save_to = {r:?}, {} bytes", to.written));
    ctx.ensure(r.is_ok(), || format!("saving {samples} samples fails: {r:?}"));
    if let Err(e) = to.verdict() {
        ctx.fail(format!("saving {samples} samples: {e}"));
    }
    c.seek(SeekFrom::End(-1));
    let block = 44 * ch as usize;
    let mut b = vec![0.0; block + 2 * ch as usize];
    let r = c.decode(&mut b);
    ctx.ensure(r == Some(block), || format!("the last millisecond is {r:?} samples of {block}"));
    if encoded {
        drop(c);
        let _one = scale::alone();
        match WavCodec::load(want()) {
            Ok(l) => {
                let mut to = scale::Compare::new(want());
                let r = l.save_to(&mut to).map_err(|e| e.to_string()).and(to.verdict());
                ctx.op(|| "load, save_to".into());
                ctx.ensure(r.is_ok(), || format!("saving {samples} loaded samples: {r:?}"));
            }
            Err(e) => ctx.fail(format!("a saved stream of {samples} samples does not load: {e}")),
        }
    }
    ctx.state(samples);
    ctx.outcome(samples);
}

fn make(ctx: &mut Ctx, rate: u32, ch: usize, x: &[f32], block: usize) -> (WavCodec, Vec<i16>) {
    let mut c = WavCodec::new(StreamInfo::new(rate, ch as u32));
    for x in x.chunks(block.max(1)) {
        let r = c.encode(x);
        ctx.op(|| format!("encode({} samples) = {r:?}", x.len()));
        ctx.ensure(r == Some(x.len()), || format!("encode of {} samples reported {r:?}", x.len()));
    }
    (c, x.iter().map(|&x| quant(x)).collect())
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    const RATES: [u32; 12] = [0, 1, 8000, 11025, 22050, 44100, 48000, 96000, 192_000, 1 << 24, i32::MAX as u32, u32::MAX];
    for ch in [1usize, 2, 3, 4, 5, 6, 7, 8] {
        for s in SIGS {
            v.push(job(format!("lengths ch={ch} {s:?}"), move |ctx| {
                let n = ctx.choose(ctx.tier.pick(150, 600));
                let rate = *ctx.pick(&[8000u32, 44100]);
                let (c, pcm) = make(ctx, rate, ch, &signal(s, n, ch), [7, 1000][n % 2] * ch);
                check(ctx, &c, rate, ch, &pcm);
            }));
        }
        v.push(job(format!("sizes ch={ch}"), move |ctx| {
            let n = *ctx.pick(&[1000usize, 1023, 1024, 1025, 16383, 16384, 32767, 32768, 65535, 65536, 65537]);
            let (c, pcm) = make(ctx, 44100, ch, &signal(Sig::Loud, n, ch), 4096 * ch);
            check(ctx, &c, 44100, ch, &pcm);
        }));
    }
    v.push(job("rates", |ctx| {
        let rate = *ctx.pick(&RATES);
        let ch = *ctx.pick(&[1usize, 2, 6, 100, 1000]);
        let n = ctx.choose(4);
        let (c, pcm) = make(ctx, rate, ch, &signal(Sig::Loud, n, ch), 1 << 20);
        check(ctx, &c, rate, ch, &pcm);
    }));
    v.push(job("channels", |ctx| {
        const CH: [usize; 26] = [
            9, 15, 16, 17, 100, 127, 128, 255, 256, 257, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000,
            65535,
        ];
        let ch = *ctx.pick(&CH);
        let n = ctx.choose(3);
        let rate = *ctx.pick(&[8000u32, 44100, 32767, 32768, 65535]);
        let (c, pcm) = make(ctx, rate, ch, &signal(Sig::Ramp, n, ch), 1 << 20);
        check(ctx, &c, rate, ch, &pcm);
    }));
    // every 16-bit value in the data
    v.push(job("all values", |ctx| {
        let ch = 1 + ctx.choose(3);
        let k = ctx.choose(3);
        let x: Vec<f32> = (0..65535 / ch * ch).map(|i| ((i * [1, 4093, 32771][k]) % 65535) as f32 / 32767.0 - 1.0).collect();
        let (c, pcm) = make(ctx, 44100, ch, &x, 999 * ch);
        check(ctx, &c, 44100, ch, &pcm);
    }));
    // data that looks like chunk headers
    v.push(job("data that looks like a header", |ctx| {
        let ch = 1 + ctx.choose(2);
        let lead = ctx.choose(130);
        let text = *ctx.pick(&[&b"data"[..], b"datadatadatadata", b"RIFF", b"fmt ", b"\0\0\0\0data\xff\xff\xff\x7f"]);
        let mut pcm: Vec<i16> = vec![3; lead];
        pcm.extend(text.chunks(2).map(|c| i16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])));
        while pcm.len() % ch != 0 {
            pcm.push(1);
        }
        let x: Vec<f32> = pcm.iter().map(|&p| if p == 0 { 0.0 } else { (p as f32 + 0.5 * p.signum() as f32) / 32767.0 }).collect();
        let (c, q) = make(ctx, 8000, ch, &x, 1 << 20);
        ctx.ensure(q.iter().zip(&pcm).all(|(a, b)| a == b || b.unsigned_abs() >= 32767), || "encode stores other values".into());
        check(ctx, &c, 8000, ch, &q);
    }));
    // large streams: sizes beyond 2^24 samples, 2^31 bytes and 2^31 samples
    v.push(job("encoded, more than 2^24 blocks", |ctx| {
        let ch = 1 + ctx.choose(2);
        let n = 17_000_000 * ch;
        let x: Vec<f32> = (0..scale::PERIOD).map(|k| { let p = scale::pattern(k).max(-32767); (p as f32 + 0.5 * p.signum() as f32) / 32767.0 }).collect();
        let mut c = WavCodec::new(StreamInfo::new(44100, ch as u32));
        let mut from = 0;
        let mut b = vec![0.0; 100_000 * ch];
        while from < n {
            let k = b.len().min(n - from);
            for (i, o) in b[..k].iter_mut().enumerate() {
                *o = x[(from + i) % x.len()];
            }
            let r = c.encode(&b[..k]);
            ctx.ensure(r == Some(k), || format!("encode of {k} samples at {from} reported {r:?}"));
            from += k;
        }
        ctx.ops(1, || format!("encode {n} samples"));
        large(ctx, c, ch as u16, n as u64, true);
    }));
    for (ch, samples) in [(1u16, 1u64 << 28), (2, (1 << 30) + 6), (1, (1 << 31) - 40)] {
        v.push(job(format!("loaded, {samples} samples in {ch} channels"), move |ctx| {
            let _one = scale::alone();
            match WavCodec::load(scale::Synth::wav(ch, 44100, samples)) {
                Ok(c) => large(ctx, c, ch, samples, false),
                Err(e) => ctx.fail(format!("a wav file of {samples} samples is refused: {e}")),
            }
        }));
    }
    // around the longest stream that the 32-bit sizes of the header can describe
    v.push(job("longest and too long", |ctx| {
        let _one = scale::alone();
        let loaded = (1u64 << 31) - 20;
        let mut c = match WavCodec::load(scale::Synth::wav(1, 44100, loaded)) {
            Ok(c) => c,
            Err(e) => ctx.fail(format!("a wav file of {loaded} samples is refused: {e}")),
        };
        c.seek(SeekFrom::End(0));
        let r = c.encode(&[0.5]);
        ctx.op(|| format!("load {loaded} samples, encode one at the end: {r:?}"));
        ctx.ensure(r == Some(1), || format!("encoding a sample at the end reports {r:?}"));
        let mut want = scale::Synth::wav(1, 44100, loaded);
        want.head = scale::wav_header(1, 44100, 16, (loaded + 1) * 2);
        want.tail = quant(0.5).to_le_bytes().to_vec();
        let mut to = scale::Compare::new(want);
        let r = c.save_to(&mut to);
        ctx.op(|| format!("save_to = {r:?}, {} bytes", to.written));
        ctx.ensure(r.is_ok(), || format!("saving the longest stream there can be fails: {r:?}"));
        if let Err(e) = to.verdict() {
            ctx.fail(format!("saving {} samples: {e}", loaded + 1));
        }
        for more in [1usize, 17, 1 << 20] {
            c.encode(&vec![0.5; more]);
            let r = guarded(|| c.save_to(std::io::sink()));
            ctx.op(|| format!("encode {more} more samples, save_to: {r:?}"));
            match r {
                Ok(Err(_)) => {}
                Ok(Ok(())) => ctx.fail("saving reports success for a stream too long for the header's sizes".into()),
                Err(m) => ctx.fail(format!("saving a stream too long for the header's sizes: {m}")),
            }
        }
        ctx.state(to.written);
        ctx.outcome(to.written);
    }));
    // histories: overwriting, appending, seeking between saves
    v.push(job("histories", |ctx| {
        let ch = 1 + ctx.choose(3);
        let mut c = WavCodec::new(StreamInfo::new(1000, ch as u32));
        let mut pcm: Vec<i16> = vec![];
        let mut cur = 0usize;
        for k in 0..ctx.tier.pick(4, 6) {
            match ctx.choose(5) {
                w @ 0..=2 => {
                    let n = [1usize, 4, 130][w];
                    let x = signal_from(Sig::Loud, k * 10, n, ch);
                    c.encode(&x);
                    ctx.op(|| format!("encode({n} blocks)"));
                    for &s in &x {
                        if cur < pcm.len() {
                            pcm[cur] = quant(s);
                        } else {
                            pcm.push(quant(s));
                        }
                        cur += 1;
                    }
                }
                3 => {
                    c.seek(SeekFrom::Start(0));
                    ctx.op(|| "seek(Start(0))".into());
                    cur = 0;
                }
                _ => {
                    c.seek(SeekFrom::Start(2));
                    ctx.op(|| "seek(Start(2))".into());
                    cur = (2 * ch).min(pcm.len());
                }
            }
            check(ctx, &c, 1000, ch, &pcm);
        }
    }));
    let _ = tier;
    v.extend(cover::jobs("walks", tier.pick(5, 1), 24, &[0], |ctx, spec, _| {
        let mut c = WavCodec::new(StreamInfo::new(spec.rate, spec.ch as u32));
        for x in spec.calls() {
            let r = c.encode(&x);
            ctx.ensure(r == Some(x.len()), || format!("encode of {} samples reported {r:?}", x.len()));
        }
        ctx.ops(spec.sizes.len() as u64, || format!("{spec:?}"));
        check(ctx, &c, spec.rate, spec.ch, &spec.pcm());
    }));
    v
}

fn main() {
    engine::main(
        Check::new(
            "C09",
            "model_checking",
            "a state is the sample array with its info; a transition is a call on the codec; every execution parses the saved bytes with an independent RIFF reader, compares every header field and sample, and loads and saves again",
            jobs,
        )
        .assume(&["block align and byte rate are compared only where the header field can hold them"]),
    )
}
