//! C10: the wav loader takes exactly the data chunk's samples from any legal layout
use mc::*;

#[derive(Clone, Copy, Debug)]
enum X {
    None,
    Empty,
    Odd1,
    Text,
    List,
    Big(usize),
    FakeData,
    FakeHeader,
}
use X::*;

fn extra(x: X, id: u8) -> Vec<u8> {
    let ids: [&[u8; 4]; 3] = [b"LIST", b"junk", b"fact"];
    let id = ids[id as usize % 3];
    match x {
        None => vec![],
        Empty => riff::chunk(id, &[]),
        Odd1 => riff::chunk(id, b"d"),
        Text => riff::chunk(id, b"this is the data of a data chunk: data"),
        List => riff::chunk(b"LIST", b"INFOISFT\x0e\0\0\0Lavf58.29.100\0"),
        Big(n) => riff::chunk(id, &(0..n).map(|k| (k * 7) as u8).collect::<Vec<_>>()),
        // a whole data chunk inside another chunk
        FakeData => riff::chunk(id, &riff::chunk(b"data", &[1, 2, 3, 4, 5, 6])),
        FakeHeader => riff::chunk(id, &[&riff::fmt_chunk(16, 7, 9, 1, 24)[..], b"dat", b"data\xff\xff\xff\xff"].concat()),
    }
}

struct Want {
    rate: u32,
    ch: usize,
    data: Vec<u8>,
    bits: u16,
}

fn check(ctx: &mut Ctx, bytes: &[u8], w: &Want, what: &str) {
    ctx.op(|| format!("load {what}: {} bytes", bytes.len()));
    ctx.state(H::new(w.ch as u64).bytes(bytes).get());
    let mut c = match load_wav(bytes) {
        Ok(c) => c,
        Err(e) => ctx.fail(format!("{what}: a legal file is refused: {e}")),
    };
    let i = Streamable::info(&c);
    ctx.ensure(i.channels() == w.ch && i.frequency() == w.rate as usize, || {
        format!("{what}: loaded as {} channels at {}, the fmt chunk says {} at {}", i.channels(), i.frequency(), w.ch, w.rate)
    });
    let n = w.data.len() / (w.bits as usize / 8);
    let got = drain(ctx, &mut c, 33 * w.ch, n);
    ctx.ensure(got.len() == n, || format!("{what}: {} samples loaded, the data chunk has {n}", got.len()));
    if w.bits == 16 {
        let want: Vec<i16> = w.data.chunks(2).map(|b| i16::from_le_bytes([b[0], b[1]])).collect();
        for i in 0..n {
            let e = want[i] as f64 / 32767.0;
            ctx.ensure((got[i] as f64 - e).abs() < 1e-6, || format!("{what}: sample {i} is {}, expected {e}", got[i]));
        }
    } else {
        for i in 0..n {
            let e = w.data[i] as f64 / 255.0 * 2.0 - 1.0;
            ctx.ensure((got[i] as f64 - e).abs() <= 0.001, || {
                format!("{what}: 8-bit value {} is {}, expected {e} within 0.001", w.data[i], got[i])
            });
            ctx.ensure(got[i].abs() <= 1.0, || format!("{what}: 8-bit value {} is {}", w.data[i], got[i]));
        }
    }
    ctx.outcome(hash_f32(&got));
}

fn data(bits: u16, ch: usize, blocks: usize, kind: usize) -> Vec<u8> {
    let n = blocks * ch * bits as usize / 8;
    match kind {
        0 => (0..n).map(|k| (k * 37 + k / 256 * 11) as u8).collect(),
        1 => vec![0x80; n],
        // the data itself contains chunk names
        _ => b"data\x04\0\0\0fmt RIFF".iter().copied().cycle().take(n).collect(),
    }
}

fn layout(ctx: &mut Ctx, bits: u16, ch: usize, blocks: usize, fmt: usize, before: &[X], between: &[X], after: &[X], kind: usize) {
    let rate = 8000 + blocks as u32;
    let mut chunks = vec![];
    let mut id = 0;
    let mut put = |v: &mut Vec<Vec<u8>>, xs: &[X]| {
        for &x in xs {
            v.push(extra(x, id));
            id = (id + 1) % 3;
        }
    };
    put(&mut chunks, before);
    chunks.push(riff::fmt_chunk(fmt, 1, ch as u16, rate, bits));
    put(&mut chunks, between);
    let d = data(bits, ch, blocks, kind);
    chunks.push(riff::chunk(b"data", &d));
    put(&mut chunks, after);
    let f = riff::file(&chunks);
    let some = |x: &[X]| if x.len() > 9 { format!("{} of {:?}", x.len(), x[0]) } else { format!("{x:?}") };
    let what = format!(
        "{bits} bits, {ch} channels, {blocks} blocks, fmt chunk of {fmt}, before {}, between {}, after {}, data {kind}",
        some(before),
        some(between),
        some(after)
    );
    check(ctx, &f, &Want { rate, ch, data: d, bits }, &what);
}

const ODD_IDS: [&[u8; 4]; 26] = [
    b"DATA", b"Data", b"datA", b"dat ", b"dat\0", b"xata", b"atad", b"slnt", b"wavl", b"da\0a", b"FMT ", b"Fmt ", b"fmtX", b"fmt\0", b"fmt_", b" fmt", b"xmt ", b"fm  ", b"RIFF", b"WAVE", b"JUNK",
    &[0; 4], &[0xff; 4], b"bext", b"\xe4ata", b"\xe6mt ",
];

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    const XS: [X; 11] = [None, Empty, Odd1, Text, List, Big(29), Big(200), Big(255), Big(256), FakeData, FakeHeader];
    const FMT: [usize; 4] = [16, 18, 20, 40];
    for bits in [8u16, 16] {
        for ch in [1usize, 2, 3, 6] {
            for before in XS {
                v.push(job(format!("layouts bits={bits} ch={ch} before={before:?}"), move |ctx| {
                    let fmt = *ctx.pick(&FMT);
                    let between = *ctx.pick(&XS);
                    let after = *ctx.pick(&XS);
                    let blocks = *ctx.pick(&[0usize, 1, 2, 5, 200]);
                    let kind = ctx.choose(3);
                    layout(ctx, bits, ch, blocks, fmt, &[before], &[between], &[after], kind);
                }));
            }
            v.push(job(format!("several chunks bits={bits} ch={ch}"), move |ctx| {
                const Y: [X; 5] = [Odd1, Text, Big(255), FakeData, FakeHeader];
                let fmt = *ctx.pick(&FMT);
                let (a, b, c, d) = (*ctx.pick(&Y), *ctx.pick(&Y), *ctx.pick(&Y), *ctx.pick(&Y));
                let blocks = *ctx.pick(&[0usize, 1, 7]);
                layout(ctx, bits, ch, blocks, fmt, &[a, b], &[c, d], &[b, c, a], 2);
            }));
            // every length of the data, of another chunk, and of the fmt chunk
            v.push(job(format!("every length bits={bits} ch={ch}"), move |ctx| {
                let n = ctx.choose(ctx.tier.pick(300, 1200));
                let kind = ctx.choose(3);
                layout(ctx, bits, ch, n, 16, &[], &[], &[], kind);
            }));
            v.push(job(format!("every chunk length bits={bits} ch={ch}"), move |ctx| {
                let n = ctx.choose(ctx.tier.pick(300, 1200));
                let at = ctx.choose(3);
                let x = [Big(n)];
                let e: [X; 0] = [];
                let (a, b, c) = [(&x[..], &e[..], &e[..]), (&e, &x, &e), (&e, &e, &x)][at];
                layout(ctx, bits, ch, 9, 16, a, b, c, 0);
            }));
            v.push(job(format!("every fmt length bits={bits} ch={ch}"), move |ctx| {
                let n = 16 + ctx.choose(ctx.tier.pick(80, 300));
                let blocks = *ctx.pick(&[0usize, 3, 90]);
                layout(ctx, bits, ch, blocks, n, &[], &[Odd1], &[Text], 0);
            }));
        }
    }
    // large chunks
    v.push(job("large chunks", |ctx| {
        let bits = *ctx.pick(&[8u16, 16]);
        let n = *ctx.pick(&[4095usize, 4096, 65535, 65536, 200_001]);
        let at = ctx.choose(3);
        let blocks = *ctx.pick(&[0usize, 100, 70_000]);
        let x = [Big(n)];
        let e: [X; 0] = [];
        let (a, b, c) = [(&x[..], &e[..], &e[..]), (&e, &x, &e), (&e, &e, &x)][at];
        layout(ctx, bits, 2, blocks, 16, a, b, c, 0);
    }));
    for at in 0..3 {
        v.push(job(format!("many chunks, {}", ["before", "between", "after"][at]), move |ctx| {
            let n = *ctx.pick(&[33usize, 64, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1024, 1025, 4097, 10_001, 65_535, 65_536, 65_537]);
            let x = vec![*ctx.pick(&[Empty, Odd1, Big(6)]); n];
            let bits = *ctx.pick(&[8u16, 16]);
            let e: [X; 0] = [];
            let (a, b, c) = [(&x[..], &e[..], &e[..]), (&e, &x, &e), (&e, &e, &x)][at];
            layout(ctx, bits, 2, 9, 16, a, b, c, 0);
        }));
    }
    // chunk names are compared byte for byte: other chunks named almost like the two that matter
    for id in ODD_IDS {
        v.push(job(format!("chunk named {:?}", String::from_utf8_lossy(id)), move |ctx| {
            let bits = *ctx.pick(&[8u16, 16]);
            let ch = 1 + ctx.choose(2);
            let fmt = *ctx.pick(&[16usize, 18]);
            let blocks = *ctx.pick(&[0usize, 3, 90]);
            let body = match ctx.choose(5) {
                0 => vec![],
                1 => vec![9u8; 7],
                2 => riff::fmt_chunk(16, 7, 9, 1, 24)[8..].to_vec(),
                3 => riff::fmt_chunk(16, 1, 5, 77, 8)[8..].to_vec(),
                _ => vec![0x33; 40],
            };
            let (rate, d) = (8000, data(bits, ch, blocks, 0));
            let x = riff::chunk(id, &body);
            let where_ = 1 + ctx.choose(7);
            let mut chunks = vec![];
            for (k, c) in [(1, vec![]), (2, riff::fmt_chunk(fmt, 1, ch as u16, rate, bits)), (4, riff::chunk(b"data", &d))] {
                // before the fmt chunk, between the two, after the data
                match k {
                    1 => {}
                    _ => chunks.push(c),
                }
                if where_ & k != 0 {
                    chunks.push(x.clone());
                }
            }
            let f = riff::file(&chunks);
            check(ctx, &f, &Want { rate, ch, data: d, bits }, &format!("a chunk named {id:?} of {} bytes at {where_:#b}, {bits} bits, {ch} channels, {blocks} blocks", body.len()));
        }));
    }
    // chunks and data of more than 2^31 bytes
    for size in [(1u64 << 31) - 1, 1 << 31, (1 << 31) + 7, 3_000_000_001, 4_294_966_000] {
        v.push(job(format!("another chunk of {size} bytes"), move |ctx| {
            let bits = *ctx.pick(&[16u16, 8]);
            let d = data(bits, 2, 50, 0);
            let fmt = riff::fmt_chunk(16, 1, 2, 8000, bits);
            let first = ctx.flag();
            let pad = if size % 2 == 1 { &[0u8][..] } else { &[] };
            let mut head = b"RIFF\xff\xff\xff\xffWAVE".to_vec();
            if !first {
                head.extend(&fmt);
            }
            head.extend(b"junk");
            head.extend((size as u32).to_le_bytes());
            let mut tail = pad.to_vec();
            if first {
                tail.extend(&fmt);
            }
            tail.extend(riff::chunk(b"data", &d));
            let f = scale::Synth::new(head, b"data\x04\0\0\0fmt RIFF".to_vec(), size, tail);
            ctx.op(|| format!("load with a chunk of {size} bytes, before the fmt chunk = {first}"));
            let mut c = match WavCodec::load(f) {
                Ok(c) => c,
                Err(e) => ctx.fail(format!("a chunk of {size} bytes: a legal file is refused: {e}")),
            };
            let got = drain(ctx, &mut c, 50, 100);
            ctx.ensure(got.len() == 100, || format!("a chunk of {size} bytes: {} samples loaded, the data chunk has 100", got.len()));
            for i in 0..100 {
                let e = match bits {
                    16 => i16::from_le_bytes([d[2 * i], d[2 * i + 1]]) as f64 / 32767.0,
                    _ => d[i] as f64 / 255.0 * 2.0 - 1.0,
                };
                ctx.ensure((got[i] as f64 - e).abs() <= 0.001, || format!("a chunk of {size} bytes: sample {i} is {}, expected {e}", got[i]));
            }
            ctx.state(size << 1 | first as u64);
            ctx.outcome(size << 1 | first as u64);
        }));
    }
    for (ch, samples) in [(2u16, 20_000_000u64), (1, (1 << 30) + 9)] {
        v.push(job(format!("data of {samples} samples"), move |ctx| {
            let _one = scale::alone();
            let mut f = scale::Synth::wav(ch, 44100, samples);
            f.tail = riff::chunk(b"LIST", b"data");
            let mut c = match WavCodec::load(f) {
                Ok(c) => c,
                Err(e) => ctx.fail(format!("a wav file of {samples} samples is refused: {e}")),
            };
            ctx.op(|| format!("load of {samples} samples"));
            let mut at = 0u64;
            let mut b = vec![0.0f32; 1 << 18];
            while let Some(n) = c.decode(&mut b) {
                // all of it in the first and the last, and some of every buffer between
                let step = if at < 1 << 24 || at + (1 << 24) > samples { 1 } else { 61 };
                for i in (0..n).step_by(step) {
                    let want = scale::pattern(at + i as u64);
                    ctx.ensure(same_pcm(b[i], want), || format!("sample {} of {samples} is {}, expected {want} / 32767", at + i as u64, b[i]));
                }
                at += n as u64;
                ctx.ensure(at <= samples, || format!("more than the {samples} samples of the data chunk are decoded"));
            }
            ctx.ensure(at == samples, || format!("{at} samples loaded, the data chunk has {samples}"));
            ctx.state(samples);
            ctx.outcome(samples);
        }));
    }
    v.push(job("8-bit data of 40 million samples", |ctx| {
        let n = 40_000_000u64;
        let unit: Vec<u8> = (0..251u32).map(|k| (k * 73 % 256) as u8).collect();
        let mut c = match WavCodec::load(scale::Synth::new(scale::wav_header(1, 8000, 8, n), unit.clone(), n, vec![])) {
            Ok(c) => c,
            Err(e) => ctx.fail(format!("a wav file of {n} 8-bit samples is refused: {e}")),
        };
        let got = drain(ctx, &mut c, 1 << 18, n as usize);
        ctx.ensure(got.len() as u64 == n, || format!("{} samples loaded, the data chunk has {n}", got.len()));
        for i in 0..got.len() {
            let e = unit[i % 251] as f32 / 255.0 * 2.0 - 1.0;
            ctx.ensure((got[i] - e).abs() <= 0.001, || format!("sample {i} is {}, expected {e}", got[i]));
        }
        ctx.outcome(n);
    }));
    // every 8-bit value and every 16-bit value
    v.push(job("all 8-bit values", |ctx| {
        let ch = 1 + ctx.choose(2);
        let d: Vec<u8> = (0..=255).collect();
        let f = riff::file(&[riff::fmt_chunk(16, 1, ch as u16, 8000, 8), riff::chunk(b"data", &d)]);
        check(ctx, &f, &Want { rate: 8000, ch, data: d, bits: 8 }, "all 8-bit values");
        // ends and monotony
        let mut c = load_wav(&f).unwrap();
        let x = drain(ctx, &mut c, 64 * ch, 256);
        for w in x.windows(2) {
            ctx.ensure(w[0] <= w[1], || format!("8-bit values map to {} then {}", w[0], w[1]));
        }
    }));
    v.push(job("all 16-bit values", |ctx| {
        let ch = 1 + ctx.choose(2);
        let d: Vec<u8> = (0..=65535u16).flat_map(|x| x.to_le_bytes()).collect();
        let f = riff::file(&[riff::fmt_chunk(18, 1, ch as u16, 8000, 16), riff::chunk(b"data", &d)]);
        check(ctx, &f, &Want { rate: 8000, ch, data: d, bits: 16 }, "all 16-bit values");
    }));
    // channels and rates
    v.push(job("channels and rates", |ctx| {
        let bits = *ctx.pick(&[8u16, 16]);
        let ch = *ctx.pick(&[1usize, 2, 4, 5, 8, 16, 64, 255, 256, 1000]);
        let rate = *ctx.pick(&[1u32, 8000, 44100, 192_000, 1 << 24, i32::MAX as u32, u32::MAX]);
        let n = ctx.choose(3);
        let d = data(bits, ch, n, 0);
        let f = riff::file(&[riff::fmt_chunk(16, 1, ch as u16, rate, bits), riff::chunk(b"data", &d)]);
        check(ctx, &f, &Want { rate, ch, data: d, bits }, &format!("{ch} channels at {rate}, {bits} bits, {n} blocks"));
    }));
    // other formats are refused
    for bits in [0u16, 1, 4, 7, 9, 12, 15, 17, 20, 24, 32, 64, 128, 255, 256, 264, 272, 0xffff] {
        v.push(job(format!("refused: {bits} bits"), move |ctx| {
            let format = *ctx.pick(&[1u16, 3, 2, 0xfffe]);
            let n = *ctx.pick(&[0usize, 24, 2400]);
            let fmt = *ctx.pick(&FMT);
            refused(ctx, format, bits, n, fmt);
        }));
    }
    v.push(job("refused: other formats", |ctx| {
        let format = *ctx.pick(&[0u16, 2, 3, 6, 7, 17, 80, 85, 255, 256, 257, 0x0101, 0xfffe, 0xffff]);
        let bits = *ctx.pick(&[8u16, 16]);
        let n = *ctx.pick(&[0usize, 24, 2400]);
        let fmt = *ctx.pick(&FMT);
        refused(ctx, format, bits, n, fmt);
    }));
    if tier.thorough() {
        v.push(job("refused: every format number", |ctx| {
            let hi = ctx.choose(256) as u16;
            for lo in 0..256u16 {
                let format = hi << 8 | lo;
                if format != 1 {
                    refused(ctx, format, 16, 300, 16);
                }
            }
        }));
    }
    v.push(job("refused: every bit depth", |ctx| {
        let hi = ctx.choose(256) as u16;
        for lo in 0..256u16 {
            let bits = hi << 8 | lo;
            if bits != 8 && bits != 16 {
                refused(ctx, 1, bits, 300, 16);
            }
        }
    }));
    v
}

fn refused(ctx: &mut Ctx, format: u16, bits: u16, n: usize, fmt: usize) {
    let f = riff::file(&[riff::fmt_chunk(fmt, format, 1, 8000, bits), riff::chunk(b"data", &vec![7; n])]);
    ctx.op(|| format!("load format {format}, {bits} bits, {n} bytes of data"));
    ctx.ensure(load_wav(&f).is_err(), || format!("a file with format {format} and {bits} bits per sample is accepted"));
    ctx.outcome((format as u64) << 16 | bits as u64);
}

fn main() {
    engine::main(Check::new(
        "C10",
        "model_checking",
        "a state is a file given by its chunk layout; a transition is a call on the loader or the loaded stream; every execution builds one layout with an independent RIFF writer and compares info and every sample with its data chunk",
        jobs,
    ))
}
