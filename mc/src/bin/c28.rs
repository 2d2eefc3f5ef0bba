//! C28: recordings sit next to each other in one stream
use mc::*;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

#[derive(Clone, Debug)]
enum Item {
    /// something else that happens to be in the stream
    Foreign(Vec<u8>),
    Adhoc(Spec, Moment),
    Wav { rate: u32, ch: usize, pcm: Vec<i16>, at: usize },
    /// a wav file of another program, nothing behind its samples
    OtherWav { rate: u32, ch: usize, pcm: Vec<i16> },
}
/// when an adhoc recording is saved
#[derive(Clone, Copy, Debug)]
enum Moment {
    Recorded,
    Rewound,
    Half,
}

struct Made {
    item: Item,
    /// what is saved on its own
    bytes: Vec<u8>,
    /// what it decodes to
    want: Vec<f32>,
}

enum Codec {
    Adhoc(AdhocCodec),
    Wav(WavCodec),
    None,
}

fn codec(ctx: &mut Ctx, i: &Item) -> Codec {
    match i {
        Item::Foreign(_) | Item::OtherWav { .. } => Codec::None,
        Item::Adhoc(spec, m) => {
            let mut c = spec.codec(ctx);
            match m {
                Moment::Recorded => {}
                Moment::Rewound => c.init(),
                Moment::Half => {
                    c.init();
                    let mut b = vec![0.0; (spec.blocks() / 2).max(1) * spec.ch];
                    Streamable::decode(&mut c, &mut b);
                }
            }
            Codec::Adhoc(c)
        }
        Item::Wav { rate, ch, pcm, at } => {
            let mut c = WavCodec::new(StreamInfo::new(*rate, *ch as u32));
            let x: Vec<f32> = pcm.iter().map(|&v| v as f32 / 32767.0).collect();
            c.encode(&x);
            c.seek(SeekFrom::Start(*at as u64));
            Codec::Wav(c)
        }
    }
}

fn make(ctx: &mut Ctx, item: Item) -> Made {
    let c = codec(ctx, &item);
    let bytes = match &c {
        Codec::Adhoc(c) => save(c),
        Codec::Wav(c) => save_wav(c),
        Codec::None => match &item {
            Item::Foreign(b) => b.clone(),
            Item::OtherWav { rate, ch, pcm } => riff::file(&[
                riff::chunk(b"LIST", b"INFOdata RIFF and so on"),
                riff::fmt_chunk(18, 1, *ch as u16, *rate, 16),
                riff::chunk(b"fact", &[1, 2, 3, 4, 5]),
                riff::chunk(b"data", &riff::pcm16(pcm)),
            ]),
            _ => unreachable!(),
        },
    };
    let want = match (c, &item) {
        (Codec::Adhoc(_), Item::Adhoc(spec, _)) => spec.reference(ctx),
        (Codec::Wav(mut c), Item::Wav { pcm, .. }) => {
            c.seek(SeekFrom::Start(0));
            drain(ctx, &mut c, 4096, pcm.len())
        }
        (_, Item::OtherWav { pcm, .. }) => {
            let mut c = load_wav(&bytes).expect("a plain wav file loads");
            let x = drain(ctx, &mut c, 4096, pcm.len());
            expect_pcm(ctx, &x, pcm, "a plain wav file");
            x
        }
        _ => vec![],
    };
    Made { item, bytes, want }
}

/// transfers at most `n` bytes at a time
struct Slow<T>(T, usize);
impl<T: Read> Read for Slow<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}
impl<T: Write> Write for Slow<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(&b[..b.len().min(self.1)])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl<T: Seek> Seek for Slow<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}
/// cannot seek, and notes how far it was read
struct Pipe<'a>(&'a [u8], usize, usize);
impl Read for Pipe<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.2).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}

fn menu(tier: Tier) -> Vec<Item> {
    use Item::*;
    let spec = |rate, ch, level, sig, sizes: &[usize]| Spec::new(rate, ch, level, sig, sizes);
    let pcm = |n: usize, ch: usize| signal(Sig::Loud, n, ch).iter().map(|&x| quant(x)).collect::<Vec<i16>>();
    let mut v = vec![
        Foreign(b"RIFFdata\0".to_vec()),
        Adhoc(spec(8000, 1, 0, Sig::Sine, &[]), Moment::Recorded),
        Adhoc(spec(44100, 2, 5, Sig::Loud, &[1, 100, 3]), Moment::Half),
        Adhoc(spec(48000, 3, 0, Sig::Loud, &[700; 5]), Moment::Rewound),
        Adhoc(spec(22050, 1, 10, Sig::Sine, &[1024; 80]), Moment::Recorded),
        Wav { rate: 8000, ch: 1, pcm: vec![], at: 0 },
        Wav { rate: 11025, ch: 1, pcm: pcm(1, 1), at: 0 },
        Wav { rate: 44100, ch: 2, pcm: pcm(3000, 2), at: 40 },
        OtherWav { rate: 16000, ch: 3, pcm: pcm(50, 3) },
    ];
    if tier.thorough() {
        v.push(Foreign(vec![0; 4096]));
        v.push(Adhoc(spec(1000, 24, 1, Sig::Loud, &[65, 1]), Moment::Half));
        v.push(Wav { rate: 48000, ch: 5, pcm: pcm(20_001, 5), at: 1 });
    }
    v
}

/// loads the recording at the source's position, which must then be right behind it
fn take<R: Read + Seek>(ctx: &mut Ctx, src: &mut R, m: &Made, what: &str) {
    let from = src.stream_position().unwrap();
    let behind = from + m.bytes.len() as u64;
    match &m.item {
        Item::Foreign(b) => {
            let mut got = vec![0; b.len()];
            src.read_exact(&mut got).expect("the stream was read too far");
            ctx.ensure(got == *b, || format!("{what}: other bytes than were put between the recordings"));
        }
        Item::Adhoc(spec, _) => {
            // the other loader refuses it
            let r = WavCodec::load(&mut *src);
            ctx.op(|| format!("{what}: wav loader at {from}"));
            ctx.ensure(r.is_err(), || format!("{what}: the wav loader takes {spec:?}"));
            src.seek(SeekFrom::Start(from)).unwrap();
            let c = AdhocCodec::load(&mut *src);
            let at = src.stream_position().unwrap();
            ctx.op(|| format!("{what}: load at {from}, left at {at}"));
            let Some(mut c) = c else { ctx.fail(format!("{what}: {spec:?} at {from} does not load")) };
            ctx.ensure(at == behind, || format!("{what}: {spec:?} at {from} ends at {behind}, loading leaves the source at {at}"));
            let i = c.info();
            ctx.ensure(i.channels() == spec.ch && i.frequency() == spec.rate as usize, || format!("{what}: {spec:?} loads as {} channels at {}", i.channels(), i.frequency()));
            expect_rest(ctx, &mut c, 1024 * spec.ch, &m.want, &format!("{what}: {spec:?}"));
        }
        Item::Wav { rate, ch, .. } | Item::OtherWav { rate, ch, .. } => {
            let r = AdhocCodec::load(&mut *src);
            ctx.op(|| format!("{what}: adhoc loader at {from}"));
            ctx.ensure(r.is_none(), || format!("{what}: the adhoc loader takes a wav file of {ch} channels at {rate}"));
            src.seek(SeekFrom::Start(from)).unwrap();
            let c = WavCodec::load(&mut *src);
            let at = src.stream_position().unwrap();
            ctx.op(|| format!("{what}: load at {from}, left at {at}"));
            let mut c = match c {
                Ok(c) => c,
                Err(e) => ctx.fail(format!("{what}: the wav file of {ch} channels at {from} does not load: {e}")),
            };
            ctx.ensure(at == behind, || format!("{what}: the wav file of {ch} channels at {from} ends at {behind}, loading leaves the source at {at}"));
            let i = Streamable::info(&c);
            ctx.ensure(i.channels() == *ch && i.frequency() == *rate as usize, || format!("{what}: {ch} channels at {rate} load as {} at {}", i.channels(), i.frequency()));
            expect_rest(ctx, &mut c, 512 * ch, &m.want, &format!("{what}: wav file of {ch} channels"));
        }
    }
}

fn put<W: Write>(ctx: &mut Ctx, dst: &mut W, m: &Made, what: &str) {
    match codec(ctx, &m.item) {
        Codec::Adhoc(c) => {
            let r = c.save_to(&mut *dst);
            ctx.ensure(r.is_some(), || format!("{what}: saving fails"));
        }
        Codec::Wav(c) => {
            let r = c.save_to(&mut *dst);
            ctx.ensure(r.is_ok(), || format!("{what}: saving fails: {r:?}"));
        }
        Codec::None => dst.write_all(&m.bytes).unwrap(),
    }
    ctx.op(|| format!("{what}: {} bytes put", m.bytes.len()));
}

fn expect_bytes(ctx: &mut Ctx, got: &[u8], want: &[u8], what: &str) {
    ctx.ensure(got == want, || {
        let i = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]);
        format!("{what}: the stream holds {} bytes, {} expected, first difference at {i:?}", got.len(), want.len())
    });
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let n = menu(tier).len();
    // every sequence of items up to the depth
    let depth = tier.pick(3, 4);
    for first in 0..n {
        v.push(job(format!("sequences from item {first}"), move |ctx| {
            let menu = menu(ctx.tier);
            let len = 1 + ctx.choose(depth);
            let mut seq = vec![first];
            for _ in 1..len {
                seq.push(ctx.choose(n));
            }
            // the long ones by one kind of transfer only
            let how = if len > 3 { seq.iter().sum::<usize>() % 3 } else { ctx.choose(3) };
            let made: Vec<Made> = seq.iter().map(|&i| make(ctx, menu[i].clone())).collect();
            let all: Vec<u8> = made.iter().flat_map(|m| m.bytes.clone()).collect();
            let limit = [usize::MAX, 1000, 7][how];

            let mut dst = Slow(Vec::new(), limit);
            for (k, m) in made.iter().enumerate() {
                put(ctx, &mut dst, m, &format!("item {k} of {seq:?}"));
            }
            expect_bytes(ctx, &dst.0, &all, &format!("items {seq:?} after each other"));

            let mut src = Slow(Cursor::new(&all), limit);
            for (k, m) in made.iter().enumerate() {
                take(ctx, &mut src, m, &format!("item {k} of {seq:?}, transfers of {limit}"));
            }
            let at = src.stream_position().unwrap();
            ctx.ensure(at == all.len() as u64, || format!("items {seq:?}: {at} of {} bytes read", all.len()));
            ctx.state(H::new(how as u64).bytes(&all).get());
        }));
    }
    // every order of loading from a stream of all of them; the loaded ones live on while others are loaded
    v.push(job("any order", move |ctx| {
        let menu = menu(ctx.tier);
        let made: Vec<Made> = menu.iter().map(|i| make(ctx, i.clone())).collect();
        let all: Vec<u8> = made.iter().flat_map(|m| m.bytes.clone()).collect();
        let start: Vec<u64> = (0..made.len()).map(|k| made[..k].iter().map(|m| m.bytes.len() as u64).sum()).collect();
        let mut src = Slow(Cursor::new(&all), [usize::MAX, 4096, 13][ctx.choose(3)]);
        for _ in 0..ctx.tier.pick(2, 3) {
            let k = ctx.choose(made.len());
            let whence = [SeekFrom::Start(start[k]), SeekFrom::End(start[k] as i64 - all.len() as i64)][ctx.choose(2)];
            src.seek(whence).unwrap();
            take(ctx, &mut src, &made[k], &format!("item {k} of all"));
        }
        ctx.state(H::new(5).add(src.stream_position().unwrap()).get());
    }));
    // adhoc recordings through something that cannot seek
    v.push(job("pipe", move |ctx| {
        let menu: Vec<Item> = menu(ctx.tier).into_iter().filter(|i| matches!(i, Item::Adhoc(..))).collect();
        let seq: Vec<usize> = (0..3).map(|_| ctx.choose(menu.len())).collect();
        let limit = [usize::MAX, 8192, 1][ctx.choose(3)];
        let made: Vec<Made> = seq.iter().map(|&i| make(ctx, menu[i].clone())).collect();
        let all: Vec<u8> = made.iter().flat_map(|m| m.bytes.clone()).collect();
        let mut p = Pipe(&all, 0, limit);
        let mut behind = 0;
        for (k, m) in made.iter().enumerate() {
            let c = AdhocCodec::load(&mut p);
            behind += m.bytes.len();
            ctx.op(|| format!("load number {k}: read to {}", p.1));
            let Some(mut c) = c else { ctx.fail(format!("recording {k} of {seq:?} does not load")) };
            ctx.ensure(p.1 == behind, || format!("recording {k} of {seq:?} ends at {behind}, {} bytes were read", p.1));
            let ch = c.info().channels();
            expect_rest(ctx, &mut c, 100 * ch, &m.want, &format!("recording {k} of {seq:?}"));
        }
        ctx.state(H::new(limit as u64).bytes(&all).get());
    }));
    // saving into the middle of something: nothing before or behind changes
    v.push(job("into the middle", move |ctx| {
        let menu = menu(ctx.tier);
        let k = ctx.choose(menu.len());
        let before = *ctx.pick(&[0usize, 1, 2, 3, 7, 8, 44, 100, 4096]);
        let behind = *ctx.pick(&[0usize, 1, 5, 44, 4096]);
        let short = ctx.flag();
        let m = make(ctx, menu[k].clone());
        let old: Vec<u8> = (0..before + m.bytes.len() + behind).map(|i| (i * 7 + 3) as u8).collect();
        let mut want = old.clone();
        want[before..before + m.bytes.len()].copy_from_slice(&m.bytes);
        let mut dst = Slow(Cursor::new(old), if short { 9 } else { usize::MAX });
        dst.0.set_position(before as u64);
        put(ctx, &mut dst, &m, &format!("item {k} at {before}"));
        let at = dst.0.position();
        ctx.ensure(at == (before + m.bytes.len()) as u64, || format!("item {k} of {} bytes put at {before} leaves the destination at {at}", m.bytes.len()));
        expect_bytes(ctx, dst.0.get_ref(), &want, &format!("item {k} put at {before} with {behind} behind"));
        // and from there
        let mut src = Slow(Cursor::new(&want), if short { 9 } else { usize::MAX });
        src.0.set_position(before as u64);
        take(ctx, &mut src, &m, &format!("item {k} at {before} with {behind} behind"));
        ctx.state(H::new(before as u64).bytes(&want).get());
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C28",
        "model_checking",
        "a state is the content of a stream and the way it is transferred; a transition is a recording saved into it or loaded from it",
        jobs,
    ))
}
