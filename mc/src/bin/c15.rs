//! C15: the published file format, in both directions
use format::{File, Frame};
use mc::*;
use std::path::PathBuf;

/// what one coded value decodes to at this level
fn sample(v: i16, level: u32) -> f32 {
    (v as f32 / 32767.0).clamp(-1.0, 1.0) * (1u32 << level) as f32
}
/// decoded samples must be these coded values; `ulp` leeway only, so that scaling may be reordered
fn expect_values(ctx: &mut Ctx, got: &[f32], want: &[i16], level: u32, what: &str) {
    let tol = (1u32 << level) as f32 * 1e-6;
    if let Some(i) = (0..got.len().min(want.len())).find(|&i| (got[i] - sample(want[i], level)).abs() > tol || got[i].is_nan()) {
        ctx.fail(format!("{what}: sample {i} of {} is {}, expected {} (coded value {})", want.len(), got[i], sample(want[i], level), want[i]));
    }
    ctx.ensure(got.len() == want.len(), || format!("{what}: {} samples, expected {}", got.len(), want.len()));
    ctx.outcome(hash_f32(got));
}

fn golden() -> Vec<PathBuf> {
    let dir = PathBuf::from(std::env::var("MC_VERIF_DIR").unwrap_or("/verif".into())).join("golden");
    let mut v: Vec<_> = std::fs::read_dir(&dir).expect("golden files").map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "adhoc")).collect();
    v.sort();
    assert_eq!(v.len(), 48, "golden files in {dir:?}");
    v
}

/// a file must load as this recording, whatever buffer it is decoded with, from the start and after seeking
fn reads_as(ctx: &mut Ctx, bytes: &[u8], rate: u32, ch: usize, level: u32, want: &[i16], what: &str, wide: bool) {
    ctx.op(|| format!("load {what} ({} bytes)", bytes.len()));
    let wide = wide || ctx.tier.thorough();
    let buf = ch * if wide { *ctx.pick(&[1usize, 1000, 3, 2, 7]) } else { 3 } + if ch > 1 && wide { ctx.choose(2) } else { 0 };
    let Some(mut c) = load(bytes) else { ctx.fail(format!("{what}: a legal file is refused")) };
    let i = Streamable::info(&c);
    ctx.ensure(i.frequency() == rate as usize && i.channels() == ch, || {
        format!("{what}: info {} Hz {} channels, expected {rate} Hz {ch}", i.frequency(), i.channels())
    });
    let n = c.calculate_sample_count_per_channel();
    ctx.ensure(n as usize == want.len() / ch, || format!("{what}: {n} samples per channel counted, expected {}", want.len() / ch));
    let got = drain(ctx, &mut c, buf, want.len());
    expect_values(ctx, &got, want, level, what);
    // a rewind, and a seek into every part of it
    let blocks = want.len() / ch;
    let to = match ctx.choose(4) {
        0 => 0,
        1 => blocks / 2,
        2 => blocks.saturating_sub(1),
        _ => blocks,
    };
    // the first whole millisecond that lies at or past that block
    let ms = (to as u64 * 1000).div_ceil(rate as u64);
    let at = ((ms as u128 * rate as u128 / 1000) as usize).min(blocks);
    Streamable::seek(&mut c, SeekFrom::Start(ms));
    ctx.op(|| format!("seek({ms} ms), block {at} of {blocks}"));
    let got = drain(ctx, &mut c, 16 * ch, want.len());
    expect_values(ctx, &got, &want[at * ch..], level, &format!("{what}, after seek({ms} ms)"));
    ctx.state(hash_i16(want) ^ (at as u64) << 40 ^ buf as u64);
}

fn pcm_calls(spec: &Spec) -> Vec<Vec<i16>> {
    spec.calls().iter().map(|c| c.iter().map(|&x| quant(x)).collect()).collect()
}

/// what the library writes must be the published format, read by the independent decoder
fn writes(ctx: &mut Ctx, spec: &Spec, state: usize) {
    let ch = spec.ch;
    let mut c = spec.codec(ctx);
    match state {
        0 => {}
        1 => c.init(),
        2 => {
            c.init();
            let mut b = vec![0.0; 5 * ch];
            Streamable::decode(&mut c, &mut b);
        }
        3 => {
            c.init();
            let mut b = vec![0.0; 64 * ch];
            while Streamable::decode(&mut c, &mut b).is_some() {}
        }
        _ => {
            // recorded over a longer recording; only comparable without dither
            let mut d = adhoc(spec.rate, ch, spec.level);
            encode(ctx, &mut d, &signal(Sig::Loud, spec.blocks() + 333, ch), ch);
            d.init();
            for x in spec.calls() {
                encode(ctx, &mut d, &x, ch);
            }
            c = d;
        }
    }
    let bytes = save(&c);
    ctx.op(|| format!("save: {} bytes", bytes.len()));
    let Some((f, l)) = format::parse(&bytes) else { ctx.fail(format!("{spec:?}: the saved bytes are not the published layout")) };
    ctx.ensure(l.end == bytes.len(), || format!("{} bytes after the end of the published layout", bytes.len() - l.end));
    ctx.ensure(f.level == spec.level, || format!("level {} stored, expected {}", f.level, spec.level));
    ctx.ensure(f.info == Some((spec.rate, ch as u32)), || format!("info {:?} stored", f.info));
    ctx.ensure(f.frames.iter().all(|f| (1..=15).contains(&f.k)), || "a frame's parameter is not 1..15".into());
    ctx.ensure(f.words.len() * 128 >= f.bit_cursor as usize && f.words.len() as u128 * 128 >= f.capacity, || {
        format!("bit position {} or length {} past the {} words", f.bit_cursor, f.capacity, f.words.len())
    });
    ctx.ensure(f.header_cursor as usize <= f.frames.len(), || format!("frame cursor {} of {}", f.header_cursor, f.frames.len()));
    ctx.ensure(f.frames.len() % ch == 0, || format!("{} frames for {ch} channels", f.frames.len()));
    let sizes: usize = f.frames.iter().step_by(ch).map(|f| f.size as usize).sum();
    ctx.ensure(sizes == spec.blocks(), || format!("the frames hold {sizes} blocks, expected {}", spec.blocks()));
    let Some((got, bits)) = f.decode_to() else { ctx.fail(format!("{spec:?}: the saved file does not decode by the published format")) };
    // the length is the most bits ever written: what the coded audio takes, unless there was a longer recording before
    ctx.ensure(if state < 4 { f.capacity == bits } else { f.capacity >= bits }, || {
        format!("{spec:?}: a length of {} bits is stored, the coded audio takes {bits}", f.capacity)
    });
    if spec.level == 0 {
        let want = spec.pcm();
        ctx.ensure(got == want, || {
            let i = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]);
            format!("an independent decoder reads {} samples, {} recorded; first difference {i:?}", got.len(), want.len())
        });
    }
    // the library reads the same out of its own file
    let mut r = spec.codec(ctx);
    if state < 4 {
        r.init();
        let own = drain(ctx, &mut r, 40 * ch, got.len());
        expect_values(ctx, &own, &got, spec.level, "the codec against an independent decoder of its file");
    }
    ctx.state(hash_i16(&got) ^ state as u64);
}

fn set_bookkeeping(f: &mut File, ctx: &mut Ctx) {
    let end = f.words.len() as u128 * 128;
    match ctx.choose(5) {
        0 => {}
        1 => {
            // as saved after init(): both cursors at the start
            f.header_cursor = 0;
            f.bit_cursor = 0;
        }
        2 => {
            // as saved while decoding
            f.header_cursor = f.frames.len() as u32 / 2;
            f.bit_cursor = f.frames.get(f.frames.len() / 2).map_or(0, |f| f.bit as u128) + 3;
            f.bit_cursor = f.bit_cursor.min(end);
        }
        3 => {
            // words left behind by a longer recording
            f.words.extend([u128::MAX, 0x5555 << 64, 1]);
            f.header_cursor = 0;
            f.bit_cursor = 0;
        }
        _ => {
            // 0.1.3 stores the number of bits allocated
            f.capacity = end;
            f.header_cursor = f.frames.len() as u32;
        }
    }
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for p in golden() {
        let name = p.file_stem().unwrap().to_string_lossy().to_string();
        v.push(job(format!("written by 0.1.3: {name}"), move |ctx| {
            let bytes = std::fs::read(&p).unwrap();
            let want: Vec<f32> = std::fs::read(p.with_extension("f32")).unwrap().chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect();
            let (f, _) = format::parse(&bytes).expect("golden file");
            let (rate, ch) = f.info.expect("golden info");
            let ch = ch as usize;
            let values = f.decode().expect("golden file decodes independently");
            ctx.ops(1, || format!("load {name}"));
            let Some(mut c) = load(&bytes) else { ctx.fail(format!("{name}, written by 0.1.3, is refused")) };
            let buf = ch * *ctx.pick(&[1usize, 2, 5, 1000]);
            let got = drain(ctx, &mut c, buf, want.len());
            let tol = (1u32 << f.level) as f32 * 1e-6;
            let bad = (0..got.len().min(want.len())).find(|&i| !((got[i] - want[i]).abs() <= tol));
            ctx.ensure(bad.is_none() && got.len() == want.len(), || {
                format!("{name}: {} samples, 0.1.3 decodes {}; first difference at {bad:?}", got.len(), want.len())
            });
            reads_as(ctx, &bytes, rate, ch, f.level, &values, &name, true);
        }));
    }
    // files of any writer of the format
    for ch in [1usize, 2, 3, 6] {
        for (name, sizes) in [("one call", &[40usize][..]), ("calls", &[3, 20, 1, 30]), ("short", &[1]), ("two", &[2, 5]), ("first frame of one", &[1, 9, 4]), ("many", &[7; 40]), ("words", &[300, 300])] {
            for s in [Sig::Silence, Sig::Sine, Sig::Loud, Sig::Square, Sig::Ramp] {
                let spec = Spec::new(1000, ch, 0, s, sizes);
                v.push(job(format!("other writers {name} {s:?} ch={ch}"), move |ctx| {
                    let calls = pcm_calls(&spec);
                    let mode = ctx.choose(18);
                    let level = *ctx.pick(&[0u32, 6]);
                    let param = |i: usize| -> u32 {
                        match mode {
                            0..=14 => mode as u32 + 1,
                            15 => 1 + (i as u32 * 5 + 3) % 14,
                            16 => 14 - i as u32 % 14,
                            _ => [1, 14][i % 2],
                        }
                    };
                    let want: Vec<i16> = calls.concat();
                    let mut f = format::write(spec.rate, ch, level, &calls, param);
                    let wide = want.len() < 150 && matches!(s, Sig::Sine | Sig::Ramp);
                    if wide || level == 0 {
                        set_bookkeeping(&mut f, ctx);
                    }
                    reads_as(ctx, &f.bytes(), spec.rate, ch, level, &want, &format!("a file with parameters of mode {mode}"), wide);
                }));
            }
        }
    }
    // every assignment of parameters to the frames of a small file
    for s in [Sig::Sine, Sig::Loud, Sig::Square] {
        for ch in [1usize, 2] {
            v.push(job(format!("all parameter choices {s:?} ch={ch}"), move |ctx| {
                let frames = ctx.tier.pick(3, 4);
                let frames = frames / ch * ch;
                let calls: Vec<Vec<i16>> = (0..frames / ch).map(|k| signal_from(s, 6 * k, 6, ch).iter().map(|&x| quant(x)).collect()).collect();
                let ks: Vec<u32> = (0..frames).map(|_| 1 + ctx.choose(14) as u32).collect();
                let f = format::write(8000, ch, 0, &calls, |i| ks[i]);
                let Some(mut c) = load(&f.bytes()) else { ctx.fail(format!("a file with parameters {ks:?} is refused")) };
                ctx.op(|| format!("load a file with parameters {ks:?}"));
                let got = drain(ctx, &mut c, 4 * ch, calls.concat().len());
                expect_values(ctx, &got, &calls.concat(), 0, &format!("parameters {ks:?}"));
                ctx.state(ks.iter().fold(s as u64 + 100, |a, &k| a * 15 + k as u64));
            }));
        }
    }
    // every bit alignment of every field width: one odd frame first, then a value of every parameter
    v.push(job("all alignments", |ctx| {
        let k = 1 + ctx.choose(15) as u32;
        let shift = ctx.choose(128);
        // silence costs 2 + k bits a sample: with k = 1 and 2 every length is reachable
        let first = vec![0i16; 4 + shift];
        let big: Vec<i16> = (0..12).map(|i| [32767i16, -32767, 100, -3][i % 4]).collect();
        let calls = [first, big];
        let f = format::write(1000, 1, 0, &calls, |i| if i == 0 { 1 + (shift % 2) as u32 } else { k });
        let Some(mut c) = load(&f.bytes()) else { ctx.fail("refused".into()) };
        ctx.op(|| format!("load a file with its second frame at bit {}, parameter {k}", f.frames[1].bit));
        let want = calls.concat();
        let got = drain(ctx, &mut c, 50, want.len());
        expect_values(ctx, &got, &want, 0, "alignment");
        ctx.state(f.frames[1].bit * 16 + k as u64);
    }));
    // every residual there is, under every parameter
    v.push(job("all residuals", |ctx| {
        let k = 1 + ctx.choose(15) as u32;
        let part = ctx.choose(16) as i32;
        let mut pcm = vec![];
        for r in (part * 4096 - 32768..part * 4096 - 32768 + 4096).filter(|&r| r > -32768) {
            // three equal values predict the same value again
            let base = if r % 2 == 0 { 0i16 } else { [12345, -20000][(r & 2) as usize / 2] };
            pcm.extend([base, base, base]);
            pcm.push(format::apply(format::predict([base; 3]), r));
        }
        let f = format::write(1000, 1, 0, &[pcm.clone()], |_| k);
        ctx.ops(4096, || format!("4096 residuals from {} with parameter {k}", part * 4096 - 32768));
        let Some(mut c) = load(&f.bytes()) else { ctx.fail("refused".into()) };
        let got = drain(ctx, &mut c, 1000, pcm.len());
        expect_values(ctx, &got, &pcm, 0, "residuals");
        ctx.state(k as u64 * 16 + part as u64);
    }));
    // empty frames, which 0.1.3 writes for empty calls (fewer than ten in a row)
    v.push(job("empty frames", |ctx| {
        let ch = 1 + ctx.choose(2);
        let n = ctx.choose(8);
        let mut f = format::write(1000, ch, 0, &[vec![500; 5 * ch], vec![-700; 4 * ch]], |_| 4);
        let at = *ctx.pick(&[ch, 2 * ch]);
        let bit = if at == ch { f.frames[ch].bit } else { f.bit_cursor as u64 };
        for i in 0..n * ch {
            let mut hist = [500i16; 3];
            if at != ch {
                hist = [-700; 3];
            }
            f.frames.insert(at + i, Frame { k: 1, init: false, size: 0, bit, hist });
        }
        f.header_cursor = f.frames.len() as u32;
        let mut want = vec![500; 5 * ch];
        want.extend(vec![-700; 4 * ch]);
        let Some(mut c) = load(&f.bytes()) else { ctx.fail("a file with empty frames is refused".into()) };
        ctx.op(|| format!("load a file with {n} empty frames per channel at frame {at}"));
        let buf = ch * *ctx.pick(&[1usize, 100]);
        let got = drain(ctx, &mut c, buf, want.len());
        expect_values(ctx, &got, &want, 0, "empty frames");
    }));
    // files written now
    for ch in [1usize, 2, 3, 6, 40] {
        for level in [0u32, 1, 4, 7, 10] {
            for s in TAME {
                v.push(job(format!("written now {s:?} ch={ch} level={level}"), move |ctx| {
                    let sizes: &[usize] = *ctx.pick(&[&[5usize][..], &[], &[1], &[2], &[3], &[3, 1, 1, 4], &[1, 2, 30], &[100, 0, 100], &[64; 20], &[1; 70], &[2000]]);
                    let rate = *ctx.pick(&[44100u32, 0, 1000, u32::MAX]);
                    let mut spec = Spec::new(rate, ch, level, s, sizes);
                    if ch == 40 {
                        spec.sizes.truncate(3);
                    }
                    let states = if level == 0 { 5 } else { 4 };
                    let state = if spec.blocks() == 0 { 0 } else { ctx.choose(states) };
                    writes(ctx, &spec, state);
                }));
            }
        }
    }
    v.push(job("written now, wild", |ctx| {
        let ch = 1 + ctx.choose(3);
        let n = *ctx.pick(&[3usize, 50, 700]);
        let st = ctx.choose(5);
        writes(ctx, &Spec::new(44100, ch, 0, Sig::Wild, &[n, n]), st);
    }));
    v.push(job("written now, every size", move |ctx| {
        let n = 1 + ctx.choose(ctx.tier.pick(400, 3000));
        writes(ctx, &Spec::new(44100, 1, 0, Sig::Burst, &[n, 3]), 0);
    }));
    v.push(job("written now, long", |ctx| {
        let n = *ctx.pick(&[65535usize, 65536, 140_000]);
        writes(ctx, &Spec::new(44100, 1, 0, Sig::Ramp, &[n, 10]), 0);
    }));
    for (ch, sizes) in scale::tall(tier) {
        let sz = sizes.clone();
        v.push(job(format!("written now, {} calls of {} ch={ch}", sizes.len(), sizes[0]), move |ctx| {
            let state = ctx.choose(2);
            writes(ctx, &Spec::new(44100, ch, 0, Sig::Loud, &sz), state);
        }));
        v.push(job(format!("other writers, {} frames of {} ch={ch}", sizes.len(), sizes[0]), move |ctx| {
            let spec = Spec::new(1000, ch, 0, Sig::Loud, &sizes);
            let calls = pcm_calls(&spec);
            let k = *ctx.pick(&[13u32, 14, 15]);
            let f = format::write(spec.rate, ch, 0, &calls, |i| if i % 3 == 0 { k } else { 12 });
            reads_as(ctx, &f.bytes(), spec.rate, ch, 0, &calls.concat(), &format!("a file of {} frames", f.frames.len()), true);
        }));
    }
    v.push(job("written now, very many channels", |ctx| {
        let ch = *ctx.pick(&scale::WIDE);
        let level = *ctx.pick(&[0u32, 3]);
        let sizes: &[usize] = *ctx.pick(&[&[1usize][..], &[4, 2]]);
        let state = ctx.choose(2);
        writes(ctx, &Spec::new(44100, ch, level, Sig::Loud, sizes), state);
    }));
    v.push(job("other writers, very many channels", |ctx| {
        let ch = *ctx.pick(&scale::WIDE);
        let sizes: &[usize] = *ctx.pick(&[&[1usize][..], &[4, 2]]);
        let mut spec = Spec::new(1000, ch, 0, Sig::Loud, sizes);
        if ch > 65_535 {
            // the loader takes no more channels than that without as many frames
            spec.sizes = vec![4, 2];
        }
        let calls = pcm_calls(&spec);
        let f = format::write(spec.rate, ch, 0, &calls, |i| 9 + (i % 6) as u32);
        reads_as(ctx, &f.bytes(), spec.rate, ch, 0, &calls.concat(), &format!("a file of {ch} channels"), true);
    }));
    // frames as large as they come
    v.push(job("other writers, large frames", |ctx| {
        let n = *ctx.pick(&[65_535usize, 65_534, 40_000]);
        let ch = *ctx.pick(&[1usize, 2, 5]);
        let k = *ctx.pick(&[1u32, 8, 14]);
        let spec = Spec::new(8000, ch, 0, Sig::Sine, &[n, n, 5, n]);
        let calls = pcm_calls(&spec);
        let f = format::write(spec.rate, ch, 0, &calls, |_| k);
        reads_as(ctx, &f.bytes(), spec.rate, ch, 0, &calls.concat(), &format!("a file of frames of {n} blocks"), true);
    }));
    // every sequence of call sizes up to a depth
    for ch in [1usize, 2] {
        v.push(job(format!("written now, call sequences ch={ch}"), move |ctx| {
            let d = ctx.tier.pick(4, 6);
            let mut sizes = vec![];
            for _ in 0..d {
                sizes.push(*ctx.pick(&[1usize, 0, 2, 3, 4, 43]));
            }
            let s = *ctx.pick(&[Sig::Burst, Sig::Loud]);
            writes(ctx, &Spec::new(1000, ch, 0, s, &sizes), 0);
        }));
    }
    v.extend(cover::jobs("walks", tier.pick(3, 1), 24, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, k| {
        writes(ctx, &spec, if spec.level == 0 { k % 5 } else { k % 4 });
    }));
    v
}

fn main() {
    engine::main(
        Check::new(
            "C15",
            "model_checking",
            "a case is a file (made by 0.1.3, by an independent writer with chosen parameters and bookkeeping, or by the library) and a way to read it; states are distinct contents and positions; decoded samples are compared with the independent decoder's",
            jobs,
        )
        .assume(&["the golden files were made by the original 0.1.3 source of this repository and contain no jump its own coder distorts"]),
    )
}
