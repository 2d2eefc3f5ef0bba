//! C13: truncated or corrupted wav files are refused or harmless, never a crash
use mc::*;
use std::sync::Arc;

#[global_allocator]
static A: memory::Counting = memory::Counting;

struct Base {
    name: &'static str,
    bytes: Vec<u8>,
    /// the intact file's samples as decoded, and its info
    all: Vec<f32>,
    ch: usize,
    rate: usize,
    data_at: usize,
}

fn harmless(ctx: &mut Ctx, b: &[u8], what: &dyn Fn() -> String) {
    let memory = memory::Use::begin();
    ctx.op(|| format!("load {}", what()));
    ctx.state(H::new(b.len() as u64).bytes(b).get());
    let mut step = "load";
    let r = guarded(|| -> Result<u64, String> {
        let Ok(mut c) = load_wav(b) else { return Ok(0) };
        step = "info";
        let i = Streamable::info(&c);
        let ch = i.channels();
        step = "size bound";
        let _ = c.filesize_upperbound();
        let mut buf = vec![0.0f32; 64.max(ch)];
        let mut h = H::new(ch as u64);
        // an 8-bit file has one sample per byte
        let mut limit = b.len();
        let mut all = |c: &mut WavCodec, limit: usize| {
            let mut got = 0;
            while let Some(k) = c.decode(&mut buf) {
                if k == 0 || k > buf.len() {
                    return Err(format!("decode into {} samples reported {k}", buf.len()));
                }
                got += k;
                for &x in &buf[..k.min(16)] {
                    h.add(x.to_bits() as u64);
                }
                if got > limit {
                    return Err(format!("{got} samples decoded from a file of {} bytes, and more to come", b.len()));
                }
            }
            if got % ch.max(1) != 0 {
                return Err(format!("{got} samples decoded in {ch} channels"));
            }
            Ok(got)
        };
        step = "decode";
        all(&mut c, limit)?;
        for s in [
            SeekFrom::Start(0),
            SeekFrom::End(0),
            SeekFrom::Current(-1),
            SeekFrom::Start(u64::MAX),
            SeekFrom::End(i64::MIN),
            SeekFrom::Current(i64::MAX),
            SeekFrom::End(-2),
            SeekFrom::Start(1),
        ] {
            step = "seek";
            c.seek(s);
            step = "decode after seek";
            all(&mut c, limit)?;
        }
        step = "encode";
        let x = vec![0.25f32; 2 * ch + 1];
        c.seek(SeekFrom::Start(0));
        c.encode(&x);
        c.seek(SeekFrom::End(0));
        c.encode(&x);
        limit += 2 * x.len();
        step = "decode after encode";
        c.seek(SeekFrom::Start(0));
        all(&mut c, limit)?;
        step = "size bound";
        let _ = c.filesize_upperbound();
        step = "save";
        let mut out = Vec::new();
        let _ = c.save_to(&mut out);
        h.add(out.len() as u64);
        Ok(h.get() | 1)
    });
    match r {
        Ok(Ok(h)) => ctx.outcome(h),
        Ok(Err(m)) => ctx.fail(format!("{}: {m}", what())),
        Err(m) => ctx.fail(format!("{}: {step}: {m}", what())),
    }
    if let Some(peak) = memory.excess(b.len()) {
        ctx.fail(format!("{}: {peak} bytes of memory for a file of {} bytes", what(), b.len()));
    }
}

fn prefix(ctx: &mut Ctx, b: &Base, n: usize) {
    let cut = &b.bytes[..n];
    ctx.op(|| format!("load the first {n} of {} bytes", b.bytes.len()));
    let c = match guarded(|| load_wav(cut)) {
        Ok(c) => c,
        Err(m) => ctx.fail(format!("load of the first {n} of {} bytes: {m}", b.bytes.len())),
    };
    let Ok(mut c) = c else {
        ctx.ensure(n < b.bytes.len(), || "the whole file is refused".into());
        ctx.outcome(n as u64);
        return;
    };
    let i = Streamable::info(&c);
    ctx.ensure(i.channels() == b.ch && i.frequency() == b.rate, || {
        format!("the first {n} bytes load as {} channels at {}, the file has {} at {}", i.channels(), i.frequency(), b.ch, b.rate)
    });
    let got = drain(ctx, &mut c, 7 * b.ch, b.all.len());
    ctx.ensure(got.len() % b.ch == 0, || format!("the first {n} bytes load as {} samples in {} channels", got.len(), b.ch));
    ctx.ensure(got.len() <= b.all.len() && got.iter().zip(&b.all).all(|(a, b)| a.to_bits() == b.to_bits()), || {
        format!("the {} samples of the first {n} bytes are not a prefix of the file's {}", got.len(), b.all.len())
    });
    // no sample can come from bytes that are not there
    ctx.ensure(got.is_empty() || n > b.data_at, || format!("{} samples from a file cut before its data", got.len()));
    ctx.ensure(n < b.bytes.len() || got.len() == b.all.len(), || format!("the whole file loads as {} samples of {}", got.len(), b.all.len()));
}

fn bases(tier: Tier) -> Vec<Arc<Base>> {
    let mut v = vec![];
    let mut add = |name, ch: usize, rate: u32, bytes: Vec<u8>| {
        let data_at = riff::parse(&bytes).expect("well formed").data_at;
        let mut all = vec![];
        // an intact file that does not load is for C09 and C10 to report
        if let Ok(Ok(mut c)) = guarded(|| load_wav(&bytes)) {
            let mut b = vec![0.0; 50 * ch];
            while let Some(n) = c.decode(&mut b) {
                all.extend_from_slice(&b[..n]);
                if all.len() > bytes.len() {
                    break;
                }
            }
        }
        v.push(Arc::new(Base { name, bytes, all, ch, rate: rate as usize, data_at }));
    };
    let d = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 89 + 13) as u8).collect() };
    let data = |n: usize| riff::chunk(b"data", &d(n));
    let f = riff::fmt_chunk;
    add("mono 16", 1, 8000, riff::file(&[f(16, 1, 1, 8000, 16), data(40)]));
    add("stereo 16", 2, 44100, riff::file(&[f(16, 1, 2, 44100, 16), data(400)]));
    add("empty", 1, 8000, riff::file(&[f(16, 1, 1, 8000, 16), data(0)]));
    add("three channels, 8 bits", 3, 1000, riff::file(&[f(18, 1, 3, 1000, 8), data(45)]));
    add(
        "other chunks",
        2,
        22050,
        riff::file(&[
            riff::chunk(b"junk", b"data "),
            f(40, 1, 2, 22050, 16),
            riff::chunk(b"LIST", b"INFOISFT\x0e\0\0\0Lavf58.29.100\0"),
            data(32),
            riff::chunk(b"LIST", b"INFO"),
        ]),
    );
    add("six channels", 6, 96000, riff::file(&[f(16, 1, 6, 96000, 16), data(252)]));
    if tier.thorough() {
        add("long", 2, 44100, riff::file(&[f(16, 1, 2, 44100, 16), data(8000)]));
        add("long 8 bits", 1, 44100, riff::file(&[f(16, 1, 1, 44100, 8), riff::chunk(b"fact", &[0; 4]), data(4001)]));
    }
    v
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for base in bases(tier) {
        let n = base.bytes.len();
        let b = base.clone();
        v.push(job(format!("{}: every prefix", b.name), move |ctx| {
            let k = ctx.choose(n + 1);
            prefix(ctx, &b, n - k);
            harmless(ctx, &b.bytes[..n - k], &|| format!("the first {} of {n} bytes", n - k));
        }));
        let head = n.min(base.data_at + 16);
        for part in 0..head.div_ceil(16) {
            let b = base.clone();
            v.push(job(format!("{}: every value of bytes {}..", b.name, part * 16), move |ctx| {
                let at = part * 16 + ctx.choose(16.min(head - part * 16));
                let val = ctx.choose(256) as u8;
                // whole, or also cut at some point
                let cut = *ctx.pick(&[n, n - n / 4, b.data_at.min(n), b.data_at.saturating_sub(3), 20.min(n)]);
                let mut d = b.bytes.clone();
                d[at] = val;
                d.truncate(cut);
                harmless(ctx, &d, &|| format!("byte {at} of {} set to {val}, {cut} bytes of {n} left", b.name));
            }));
        }
        const MENU: [u8; 9] = [0, 1, 2, 8, 16, 0x61, 0x7f, 0x80, 0xff];
        for at in 0..head {
            let b = base.clone();
            if at + 1 >= head {
                continue;
            }
            v.push(job(format!("{}: byte {at} and a later one", b.name), move |ctx| {
                let at2 = at + 1 + ctx.choose(head - at - 1);
                let (x, y) = (*ctx.pick(&MENU), *ctx.pick(&MENU));
                let mut d = b.bytes.clone();
                d[at] = x;
                d[at2] = y;
                harmless(ctx, &d, &|| format!("bytes {at} and {at2} of {} set to {x} and {y}", b.name));
            }));
        }
        // bytes removed or inserted
        let b = base.clone();
        v.push(job(format!("{}: bytes removed or inserted", b.name), move |ctx| {
            let at = ctx.choose(head);
            let k = 1 + ctx.choose(6);
            let mut d = b.bytes.clone();
            if ctx.flag() {
                let fill = *ctx.pick(&[0u8, 0xff, b'd']);
                for _ in 0..k {
                    d.insert(at, fill);
                }
            } else {
                d.drain(at..(at + k).min(n));
            }
            harmless(ctx, &d, &|| format!("{k} bytes removed or inserted at {at} of {}", b.name));
        }));
    }
    // whole fields of the format chunk and the sizes, in all combinations
    v.push(job("fields", |ctx| {
        const SIZES: [u32; 12] = [0, 1, 2, 3, 15, 17, 18, 255, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
        const CH: [u16; 9] = [0, 1, 2, 3, 255, 256, 32767, 32768, 65535];
        const RATES: [u32; 5] = [0, 1, 44100, 0x8000_0000, 0xffff_ffff];
        let (ch, rate) = (*ctx.pick(&CH), *ctx.pick(&RATES));
        let (bits, format) = (*ctx.pick(&[16u16, 8, 0, 24]), *ctx.pick(&[1u16, 0, 0xffff]));
        let mut f = riff::file(&[riff::fmt_chunk(16, format, ch, rate, bits), riff::chunk(b"data", &[5; 48])]);
        let which = ctx.choose(4);
        let s = *ctx.pick(&SIZES);
        if which > 0 {
            let at = [4usize, 16, 40][which - 1];
            f[at..at + 4].copy_from_slice(&s.to_le_bytes());
        }
        harmless(ctx, &f, &|| format!("{ch} channels at {rate}, {bits} bits, format {format}, size field {which} set to {s}"));
    }));
    // many channels: cut around every block
    for bits in [8u16, 16] {
        for ch in [255usize, 256, 257, 300, 1000, 32_767, 32_768, 65_535] {
            v.push(job(format!("prefixes of {ch} channels, {bits} bits"), move |ctx| {
                let block = ch * bits as usize / 8;
                let d: Vec<u8> = (0..3 * block).map(|i| (i * 89 + i / 256 * 7 + 13) as u8).collect();
                let bytes = riff::file(&[riff::fmt_chunk(16, 1, ch as u16, 8000, bits), riff::chunk(b"data", &d)]);
                let mut all = vec![];
                if let Ok(mut c) = load_wav(&bytes) {
                    let mut b = vec![0.0; ch];
                    while all.len() < 4 * ch && c.decode(&mut b).is_some() {
                        all.extend_from_slice(&b);
                    }
                }
                let base = Base { name: "wide", bytes, all, ch, rate: 8000, data_at: 44 };
                let k = ctx.choose(4);
                let d = *ctx.pick(&[0i64, 1, 2, 3, -1, -2, -255, -256, 255, 256, block as i64 / 2]);
                let n = (44 + (k * block) as i64 + d).clamp(0, base.bytes.len() as i64) as usize;
                prefix(ctx, &base, n);
                harmless(ctx, &base.bytes[..n], &|| format!("the first {n} bytes of a file of {ch} channels"));
            }));
        }
    }
    v.push(job("not a wav at all", |ctx| {
        let n = ctx.choose(600);
        let fill = *ctx.pick(&[0u8, 1, 0xff, b'd']);
        let head = ctx.choose(3);
        let mut d = vec![fill; n];
        let h = [&b""[..], b"RIFF\0\0\0\0WAVE", b"RIFF\0\0\0\0WAVEfmt "][head];
        for (x, y) in d.iter_mut().zip(h) {
            *x = *y;
        }
        harmless(ctx, &d, &|| format!("{n} bytes of {fill:#x} after header {head}"));
    }));
    // many empty chunks
    v.push(job("many chunks", |ctx| {
        let n = ctx.choose(2000);
        let size = *ctx.pick(&[0usize, 1, 7]);
        let mut c = vec![riff::chunk(b"junk", &vec![0; size]); n];
        let end = ctx.choose(3);
        if end > 0 {
            c.push(riff::fmt_chunk(16, 1, 1, 8000, 16));
        }
        if end > 1 {
            c.push(riff::chunk(b"data", &[1, 2]));
        }
        harmless(ctx, &riff::file(&c), &|| format!("{n} chunks of {size} bytes, end {end}"));
    }));
    v
}

fn main() {
    let mut c = Check::new(
        "C13",
        "fault_enumeration",
        "a case is a damaged file: every prefix (whose samples must be a prefix in whole blocks), every value of every header byte with several cuts, all pairs of header bytes from a menu, removed and inserted bytes, field combinations; each is loaded and, if accepted, used in every way the property lists; cases are distinct by the outcome of that use (0 when refused)",
        jobs,
    )
    .mem(64);
    c.stuck_s = 20;
    engine::main(c)
}
