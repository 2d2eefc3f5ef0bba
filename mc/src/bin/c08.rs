//! C08: truncated or corrupted adhoc files are refused or harmless, never a crash
use mc::*;
use std::sync::Arc;

#[global_allocator]
static A: memory::Counting = memory::Counting;

/// loads damaged bytes and uses whatever comes out
fn harmless(ctx: &mut Ctx, b: &[u8], what: &dyn Fn() -> String) {
    let memory = memory::Use::begin();
    let mut b = b.to_vec();
    b.shrink_to_fit();
    ctx.op(|| format!("load {}", what()));
    ctx.state(H::new(b.len() as u64).bytes(&b).get());
    let mut step = "load";
    // a coded sample takes at least a sign and an end of the unary part: four to a byte, and twice that for good measure
    let limit = 8 * b.len() as u64 + 64;
    let r = guarded(|| {
        let Some(mut c) = AdhocCodec::load(&b[..]) else { return Ok(0) };
        step = "info";
        let i = Streamable::info(&c);
        let ch = i.channels();
        step = "sample count";
        let n = c.calculate_sample_count_per_channel();
        step = "size bound";
        let _ = c.filesize_upperbound();
        let mut buf = vec![0.0f32; if ch <= 4096 { 256 * ch.max(1) } else { 4096 }];
        step = "decode";
        let mut h = H::new(n);
        let mut got = 0u64;
        while let Some(k) = c.decode(&mut buf) {
            if k == 0 || k > buf.len() {
                return Err(format!("decode into {} samples reported {k}", buf.len()));
            }
            got += k as u64;
            for &x in &buf[..k.min(16)] {
                h.add(x.to_bits() as u64);
            }
            if got > limit {
                return Err(format!("{got} samples decoded from a file of {} bytes, and more to come", b.len()));
            }
        }
        for t in [1, 3, 1000, 0, u32::MAX as u64, u64::MAX] {
            step = "seek";
            c.seek(SeekFrom::Start(t));
            step = "decode after seek";
            let _ = c.decode(&mut buf);
        }
        step = "seek to the middle";
        c.seek(SeekFrom::Start(n.saturating_mul(500) / (i.frequency() as u64).max(1)));
        step = "decode to the end after seek";
        let mut got = 0;
        while let Some(k) = c.decode(&mut buf) {
            got += k as u64;
            if got > limit {
                return Err(format!("{got} samples decoded after a seek, and more to come"));
            }
        }
        step = "size bound";
        let _ = c.filesize_upperbound();
        step = "save";
        let mut out = Vec::new();
        if c.save_to(&mut out).is_none() {
            return Err("saving into a vector failed".into());
        }
        h.add(out.len() as u64);
        Ok(h.get() | 1)
    });
    match r {
        Ok(Ok(h)) => ctx.outcome(h),
        Ok(Err(m)) => ctx.fail(format!("{}: {m}", what())),
        Err(m) => ctx.fail(format!("{}: {step}: {m}", what())),
    }
    if let Some(peak) = memory.excess(b.len()) {
        ctx.fail(format!("{}: {peak} bytes of memory for a file of {} bytes", what(), b.len()));
    }
}

struct Base {
    name: &'static str,
    bytes: Vec<u8>,
    layout: format::Layout,
}

fn bases(tier: Tier) -> Vec<Arc<Base>> {
    let mut v = vec![];
    let mut add = |name: &'static str, b: Vec<u8>| {
        let (_, layout) = format::parse(&b).expect("a saved file follows the format");
        v.push(Arc::new(Base { name, bytes: b, layout }));
    };
    let make = |rate, ch: usize, level, sig, sizes: &[usize]| {
        let mut c = adhoc(rate, ch, level);
        for x in Spec::new(rate, ch, level, sig, sizes).calls() {
            Streamable::encode(&mut c, &x);
        }
        save(&c)
    };
    add("empty", make(8000, 1, 0, Sig::Loud, &[]));
    add("one frame", make(8000, 1, 0, Sig::Loud, &[20]));
    add("short first frame", make(8000, 2, 0, Sig::Loud, &[2, 5]));
    add("stereo", make(44100, 2, 3, Sig::Sine, &[7, 20, 1]));
    add("long runs", make(1000, 1, 0, Sig::Impulse, &[120, 6]));
    add("six channels", make(48000, 6, 10, Sig::Burst, &[4, 9]));
    if tier.thorough() {
        add("many frames", make(8000, 1, 1, Sig::Quiet, &[3; 140]));
        add("square", make(8000, 2, 0, Sig::Square, &[40, 40, 3]));
    }
    v
}

/// bytes of the fixed-size fields and lengths
fn structural(l: &format::Layout) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let mut r = |a: usize, n: usize| v.extend(a..a + n);
    r(l.level, 4);
    r(l.nibble_len, 3);
    r(l.nibble_len + 7, 1);
    r(l.nibble_len + 8, 1);
    r(l.nibble_count, 4);
    r(l.init_len, 3);
    r(l.init_len + 7, 1);
    r(l.init_cursor, 3);
    r(l.init_cursor + 15, 1);
    r(l.size_len, 3);
    r(l.size_len + 7, 1);
    if l.sizes + 4 <= l.cursor_len {
        r(l.sizes, 4);
    }
    r(l.cursor_len, 3);
    r(l.cursor_len + 7, 1);
    if l.cursors + 16 <= l.hist_len {
        r(l.cursors, 3);
        r(l.cursors + 7, 4);
        r(l.cursors + 15, 1);
    }
    r(l.hist_len, 3);
    r(l.hist_len + 7, 1);
    r(l.header_cursor, 4);
    r(l.info_tag, 1);
    r(l.rate, 4);
    r(l.channels, 4);
    r(l.words_len, 3);
    r(l.words_len + 7, 1);
    r(l.bit_cursor, 2);
    r(l.bit_cursor + 15, 1);
    r(l.capacity, 2);
    r(l.capacity + 15, 1);
    v.sort();
    v.dedup();
    v
}

/// (offset, length) of whole fields
fn fields(l: &format::Layout) -> Vec<(&'static str, usize, usize)> {
    let mut v = vec![
        ("level", l.level, 4),
        ("nibble bytes", l.nibble_len, 8),
        ("nibble count", l.nibble_count, 4),
        ("init words", l.init_len, 8),
        ("init bits", l.init_cursor, 16),
        ("sizes", l.size_len, 8),
        ("cursors", l.cursor_len, 8),
        ("histories", l.hist_len, 8),
        ("header cursor", l.header_cursor, 4),
        ("rate", l.rate, 4),
        ("channels", l.channels, 4),
        ("words", l.words_len, 8),
        ("bit cursor", l.bit_cursor, 16),
        ("capacity", l.capacity, 16),
    ];
    if l.sizes + 2 <= l.cursor_len {
        v.push(("first size", l.sizes, 2));
        v.push(("last size", l.cursor_len - 2, 2));
        v.push(("first cursor", l.cursors, 8));
        v.push(("last cursor", l.hist_len - 8, 8));
    }
    v
}
const VALUES: [u128; 34] = [
    0,
    1,
    2,
    3,
    4,
    5,
    7,
    10,
    11,
    15,
    16,
    30,
    31,
    32,
    33,
    63,
    64,
    127,
    128,
    255,
    256,
    1000,
    65534,
    65535,
    65536,
    65537,
    (1 << 24) - 1,
    (1 << 31) - 1,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    (1 << 63) - 1,
    (1 << 64) - 1,
    u128::MAX,
];

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for base in bases(tier) {
        let n = base.bytes.len();
        let b = base.clone();
        v.push(job(format!("{}: every prefix", b.name), move |ctx| {
            let k = ctx.choose(n + 1);
            let cut = &b.bytes[..n - k];
            ctx.op(|| format!("load the first {} of {n} bytes", n - k));
            let r = guarded(|| AdhocCodec::load(cut).is_some());
            match r {
                Err(m) => ctx.fail(format!("load of the first {} of {n} bytes: {m}", n - k)),
                Ok(ok) => ctx.ensure(ok == (k == 0), || format!("load of the first {} of {n} bytes: accepted = {ok}", n - k)),
            }
            harmless(ctx, cut, &|| format!("the first {} of {n} bytes", n - k));
        }));
        let st = structural(&base.layout);
        for part in 0..n.div_ceil(32) {
            let b = base.clone();
            v.push(job(format!("{}: every value of bytes {}..", b.name, part * 32), move |ctx| {
                let at = part * 32 + ctx.choose(32.min(n - part * 32));
                let val = ctx.choose(256) as u8;
                let mut d = b.bytes.clone();
                d[at] = val;
                harmless(ctx, &d, &|| format!("byte {at} of {} set to {val}", b.name));
            }));
        }
        // two structural bytes
        const MENU: [u8; 7] = [0, 1, 2, 0x21, 0x7f, 0x80, 0xff];
        for (i, &at) in st.iter().enumerate() {
            let b = base.clone();
            let rest = st[i + 1..].to_vec();
            if rest.is_empty() {
                continue;
            }
            v.push(job(format!("{}: bytes {at} and a later one", b.name), move |ctx| {
                let at2 = *ctx.pick(&rest);
                let (x, y) = (*ctx.pick(&MENU), *ctx.pick(&MENU));
                let mut d = b.bytes.clone();
                d[at] = x;
                d[at2] = y;
                harmless(ctx, &d, &|| format!("bytes {at} and {at2} of {} set to {x} and {y}", b.name));
            }));
        }
        // two whole fields
        let fs = fields(&base.layout);
        for i in 0..fs.len() {
            let b = base.clone();
            let fs = fs.clone();
            v.push(job(format!("{}: {} and another field", b.name, fs[i].0), move |ctx| {
                let j = ctx.choose(fs.len());
                let x = *ctx.pick(&VALUES);
                let y = if i == j { x } else { *ctx.pick(&VALUES) };
                let mut d = b.bytes.clone();
                for (k, val) in [(i, x), (j, y)] {
                    let (_, at, len) = fs[k];
                    d[at..at + len].copy_from_slice(&val.to_le_bytes()[..len]);
                }
                harmless(ctx, &d, &|| format!("{}: {} set to {x}, {} set to {y}", b.name, fs[i].0, fs[j].0));
            }));
        }
        // the coded audio replaced, and cut at once
        let b = base.clone();
        v.push(job(format!("{}: coded words replaced", b.name), move |ctx| {
            let l = &b.layout;
            let words = (l.bit_cursor - l.words) / 16;
            let from = ctx.choose(words + 1);
            let to = from + ctx.choose(words + 1 - from);
            let fill = *ctx.pick(&[0xffu8, 0, 0x55, 0xfe, 0x7f]);
            let mut d = b.bytes.clone();
            for k in from..to {
                d[l.words + 16 * k..l.words + 16 * k + 16].fill(fill);
            }
            harmless(ctx, &d, &|| format!("{}: words {from}..{to} set to {fill:#x}", b.name));
        }));
        // consistent files that lie about the stream: fewer or more words, lists emptied, one frame more or less
        let b = base.clone();
        v.push(job(format!("{}: words removed or added", b.name), move |ctx| {
            let (f, _) = format::parse(&b.bytes).unwrap();
            let keep = ctx.choose(f.words.len() + 3);
            let fill = *ctx.pick(&[0u128, u128::MAX]);
            let size = ctx.choose(4);
            let frames = ctx.choose(f.frames.len() + 3);
            let ch = ctx.choose(5) as u32;
            let cursor = ctx.choose(4);
            let mut g = f.clone();
            g.words.resize(keep, fill);
            let extra = format::Frame { k: 0, init: false, size: 9, bit: 5, hist: [1, 2, 3] };
            g.frames.resize(frames, extra);
            for (i, fr) in g.frames.iter_mut().enumerate() {
                match size {
                    1 => fr.size = 65535,
                    2 => fr.size = if i % 2 == 0 { 1 } else { 65535 },
                    3 => fr.size = 0,
                    _ => {}
                }
                match cursor {
                    1 => fr.bit = keep as u64 * 128,
                    2 => fr.bit = keep as u64 * 128 + 200,
                    3 => fr.bit = u64::MAX - i as u64,
                    _ => {}
                }
            }
            if ch > 0 {
                g.info = Some((8000, ch));
            }
            let d = g.bytes();
            harmless(ctx, &d, &|| {
                format!("{}: {keep} words of {}, {frames} frames of {}, sizes {size}, cursors {cursor}, channels {ch}", b.name, f.words.len(), f.frames.len())
            });
        }));
    }
    // lists that do not agree on the number of frames, each one longer, one shorter, or empty
    for (frames, ch) in [(1usize, 1u32), (2, 2), (3, 1), (64, 1), (65, 1)] {
        for cells in 0..4usize {
            v.push(job(format!("lists of unequal length: {frames} frames, {ch} channels, parameters {cells}"), move |ctx| {
                let len = |d: usize| [frames, frames + 1, frames - 1, 0][d];
                let mut d = vec![0u8; 4];
                let list = |d: &mut Vec<u8>, n: usize, item: &[u8]| {
                    d.extend((n as u64).to_le_bytes());
                    for _ in 0..n {
                        d.extend(item);
                    }
                };
                let mut pick = |_: &str| ctx.choose(4);
                let (count, words, bits, sizes, cursors, hists) =
                    (pick("count"), pick("init words"), pick("init bits"), pick("sizes"), pick("cursors"), pick("histories"));
                list(&mut d, len(cells).div_ceil(2), &[0x11]);
                d.extend((len(count) as u32).to_le_bytes());
                list(&mut d, len(words).div_ceil(64), &[1; 8]);
                d.extend((len(bits) as u128).to_le_bytes());
                list(&mut d, len(sizes), &[4, 0]);
                list(&mut d, len(cursors), &[0; 8]);
                list(&mut d, len(hists), &[0; 6]);
                d.extend((len(count) as u32).to_le_bytes());
                d.push(1);
                d.extend(8000u32.to_le_bytes());
                d.extend(ch.to_le_bytes());
                list(&mut d, 66 * 3, &[0x5a; 16]);
                d.extend([0; 32]);
                harmless(ctx, &d, &|| {
                    format!(
                        "{frames} frames in {ch} channels, but {} parameter bytes, {} parameters, {} init words, {} init bits, {} sizes, {} cursors, {} histories",
                        len(cells).div_ceil(2), len(count), len(words).div_ceil(64), len(bits), len(sizes), len(cursors), len(hists)
                    )
                });
            }));
        }
    }
    // all ones: the longest unary codes there are
    v.push(job("unary runs", |ctx| {
        let words = *ctx.pick(&[1usize, 2, 255, 256, 257, 512, 1024, 5000, 20_000]);
        let k = ctx.choose(16) as u32;
        let size = *ctx.pick(&[1u16, 4, 20, 65535]);
        let frames = *ctx.pick(&[1usize, 2, 5]);
        let init = ctx.flag();
        let f = format::File {
            level: 0,
            frames: (0..frames).map(|i| format::Frame { k, init: init && i == 0, size, bit: i as u64 * 128, hist: [0; 3] }).collect(),
            header_cursor: frames as u32,
            info: Some((8000, 1)),
            words: vec![u128::MAX; words],
            bit_cursor: words as u128 * 128,
            capacity: words as u128 * 128,
            nibble_bytes: vec![],
        };
        harmless(ctx, &f.bytes(), &|| format!("{words} words of ones, parameter {k}, {frames} frames of {size}"));
    }));
    // frames that claim more samples than the words can hold, in sums that wrap at every width
    for ch in [1usize, 2, 3] {
        v.push(job(format!("frames that claim too much ch={ch}"), move |ctx| {
            let k = 1 + ctx.choose(15) as u32;
            let frames = ch * *ctx.pick(&[1usize, 2, 3, 4, 8, 16, 64, 85, 128, 683, 1024, 4096, 4370, 21_845]);
            let size = *ctx.pick(&[65_535u16, 65_534, 32_768, 32_767, 16_384, 4096, 4095, 255, 256]);
            let words = *ctx.pick(&[0usize, 1, 2, 40, 600]);
            let fill = *ctx.pick(&[0u128, 0x5555_5555_5555_5555_5555_5555_5555_5555]);
            let last = *ctx.pick(&[size, 1, size - 1]);
            let bits = words as u64 * 128;
            let f = format::File {
                level: 0,
                frames: (0..frames)
                    .map(|i| format::Frame {
                        k,
                        init: i < ch,
                        size: if i + ch >= frames { last } else { size },
                        bit: (i as u64 * 29).min(bits),
                        hist: [0; 3],
                    })
                    .collect(),
                header_cursor: frames as u32,
                info: Some((8000, ch as u32)),
                words: vec![fill; words],
                bit_cursor: bits as u128,
                capacity: bits as u128,
                nibble_bytes: vec![],
            };
            harmless(ctx, &f.bytes(), &|| format!("{frames} frames of {size} and {last}, parameter {k}, in {words} words"));
        }));
    }
    v.push(job("not a recording at all", |ctx| {
        let n = ctx.choose(400);
        let fill = *ctx.pick(&[0u8, 1, 2, 0x20, 0x7f, 0x80, 0xff]);
        let d = vec![fill; n];
        harmless(ctx, &d, &|| format!("{n} bytes of {fill:#x}"));
    }));
    v
}

fn main() {
    let mut c = Check::new(
        "C08",
        "fault_enumeration",
        "a case is a damaged file: every prefix, every value of every byte, pairs of structural bytes and of whole fields from menus of extreme values, coded words replaced or removed, consistent-looking files that lie about the stream; each is loaded and, if accepted, used in every way the property lists while the thread's live memory is counted; cases are distinct by the outcome of that use (0 when refused)",
        jobs,
    );
    c.stuck_s = 20;
    engine::main(c)
}
