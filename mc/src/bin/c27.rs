//! C27: memory stays in proportion, and use without end does not use it up
use mc::*;
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

/// counts what the current thread holds
struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    if n > 0 {
        let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize);
        add(-(l.size() as isize));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn live() -> isize {
    LIVE.with(|l| l.get())
}
/// most memory held while `f` runs, above what was held before, and the number of allocations
fn peak<R>(f: impl FnOnce() -> R) -> (R, isize, u64) {
    let (before, calls) = (live(), CALLS.with(|c| c.get()));
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get()) - before, CALLS.with(|c| c.get()) - calls)
}

/// what does not depend on the audio: tables made once, buffers around readers and writers
const FIXED: usize = 128 << 10;

/// tables that are made when first used, and kept, belong to no codec
fn warm_up() {
    let audio = signal(Sig::Loud, 40, 2);
    let mut buf = vec![0.0f32; 200];
    for is_adhoc in [true, false] {
        let mut c = Any::new(is_adhoc, 2, 5);
        for op in [Record(40), DecodeAll, Seek(11), Decode(7), Save, Reload, Bound, DecodeAll] {
            c.apply(op, 2, &audio, &mut buf);
        }
    }
}

/// a destination that keeps nothing
struct Sink(usize);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// rewinds, then records this many blocks
    Record(usize),
    /// rewinds, then records this many blocks one by one
    RecordSingly(usize),
    Init,
    Seek(u64),
    Decode(usize),
    DecodeAll,
    Save,
    Reload,
    Bound,
}
use Op::*;

enum Any {
    A(AdhocCodec),
    W(WavCodec),
}
impl Any {
    fn new(is_adhoc: bool, ch: usize, level: u32) -> Self {
        if is_adhoc {
            Any::A(adhoc(1000, ch, level))
        } else {
            Any::W(WavCodec::new(StreamInfo::new(1000, ch as u32)))
        }
    }
    fn rewind(&mut self) {
        match self {
            Any::A(a) => a.init(),
            Any::W(w) => w.seek(SeekFrom::Start(0)),
        }
    }
    fn encode(&mut self, x: &[f32]) {
        match self {
            Any::A(a) => Streamable::encode(a, x),
            Any::W(w) => w.encode(x),
        };
    }
    fn decode(&mut self, b: &mut [f32]) -> Option<usize> {
        match self {
            Any::A(a) => Streamable::decode(a, b),
            Any::W(w) => w.decode(b),
        }
    }
    fn size(&self) -> usize {
        let mut s = Sink(0);
        match self {
            Any::A(a) => a.save_to(&mut s).is_some(),
            Any::W(w) => w.save_to(&mut s).is_ok(),
        };
        s.0
    }
    fn apply(&mut self, op: Op, ch: usize, audio: &[f32], buf: &mut [f32]) {
        match op {
            Record(n) => {
                self.rewind();
                self.encode(&audio[..n * ch]);
            }
            RecordSingly(n) => {
                self.rewind();
                for x in audio[..n * ch].chunks(ch) {
                    self.encode(x);
                }
            }
            Init => self.rewind(),
            Seek(t) => match self {
                Any::A(a) => Streamable::seek(a, SeekFrom::Start(t)),
                Any::W(w) => w.seek(SeekFrom::Start(t)),
            },
            Decode(n) => {
                self.decode(&mut buf[..n * ch]);
            }
            DecodeAll => {
                self.rewind();
                while self.decode(buf).is_some() {}
            }
            Save => {
                self.size();
            }
            Reload => match self {
                Any::A(a) => {
                    if let Some(l) = load(&save(a)) {
                        *a = l;
                    }
                }
                Any::W(w) => {
                    if let Ok(l) = load_wav(&save_wav(w)) {
                        *w = l;
                    }
                }
            },
            Bound => {
                match self {
                    Any::A(a) => Streamable::filesize_upperbound(a),
                    Any::W(w) => w.filesize_upperbound(),
                };
            }
        }
    }
}

/// every cycle of calls, repeated: what it holds and what it saves settles
fn cycles(is_adhoc: bool, ch: usize, level: u32, len: usize) -> Job {
    job(format!("cycles adhoc={is_adhoc} ch={ch} level={level} of {len}"), move |ctx| {
        const OPS: [Op; 12] =
            [Record(40), Decode(7), Seek(11), Init, RecordSingly(9), DecodeAll, Save, Reload, Bound, Seek(1 << 40), Decode(100), Record(3)];
        let cycle: Vec<Op> = (0..len).map(|_| *ctx.pick(&OPS)).collect();
        let audio = signal(Sig::Loud, 40, ch);
        let mut buf = vec![0.0f32; 100 * ch];
        warm_up();
        let before = live();
        let mut c = Any::new(is_adhoc, ch, level);
        c.apply(Record(30), ch, &audio, &mut buf);
        let mut at = |c: &mut Any, n: usize| {
            for _ in 0..n {
                for &op in &cycle {
                    c.apply(op, ch, &audio, &mut buf);
                }
            }
            (live() - before, c.size())
        };
        // the dither makes every recording a little different
        let (l1, s1) = at(&mut c, 12);
        let (l2, s2) = at(&mut c, 12);
        let (l3, s3) = at(&mut c, 12);
        ctx.ops(36 * len as u64, || format!("{cycle:?} repeated: holds {l1}, {l2}, {l3}, saves {s1}, {s2}, {s3} bytes"));
        let slack = if level == 0 || !is_adhoc { 0 } else { 64 };
        ctx.ensure(s3 <= s2.max(s1) + slack, || format!("{cycle:?}: the saved file grows with every repetition: {s1}, {s2}, {s3} bytes"));
        let slack = if level == 0 || !is_adhoc { 0 } else { l1 / 2 };
        ctx.ensure(l3 <= l2.max(l1) + slack, || format!("{cycle:?}: the memory held grows with every repetition: {l1}, {l2}, {l3} bytes"));
        let mut h = H::new(27);
        h.add(l3 as u64).add(s3 as u64).add(ch as u64).add(level as u64);
        ctx.state(h.get());
        ctx.outcome(h.get());
        drop(c);
        let end = live() - before;
        // what remains is the buffer and the trace
        ctx.ensure(end <= 4096, || format!("{cycle:?}: {end} bytes are still held when the codec is gone"));
    })
}

/// what a codec holds, and needs on the way, in proportion to the audio
fn proportion(is_adhoc: bool) -> Job {
    job(format!("proportion adhoc={is_adhoc}"), move |ctx| {
        let ch = *ctx.pick(&[1usize, 2, 6]);
        let level = if is_adhoc { *ctx.pick(&[0u32, 5, 10]) } else { 0 };
        let n = *ctx.pick(&[0usize, 1, 10, 1000, 5000, 70_000, 200_000]);
        let call = *ctx.pick(&[1usize, 3, 100, 65536, 1 << 20]);
        if call < 100 && n > 5000 {
            return;
        }
        let s = *ctx.pick(&[Sig::Sine, Sig::Loud, Sig::Square, Sig::Silence]);
        let audio = signal(s, n, ch);
        let call = call.min(n.max(1));
        let mut buf = vec![0.0f32; 1000 * ch];
        warm_up();
        let before = live();
        let (mut c, most, allocations) = peak(|| {
            let mut c = Any::new(is_adhoc, ch, level);
            for x in audio.chunks(call * ch) {
                c.encode(x);
            }
            c
        });
        let holds = live() - before;
        let file = c.size();
        // a frame per call and channel; a vector may hold, and while it grows need, a multiple of what is in it
        let frame = if is_adhoc { call.min(65535) * 4 } else { 0 };
        let fair = (4 * file + 4 * frame * ch + 16 * 4 * call.min(n) * ch + 400 * ch + FIXED) as isize;
        ctx.ops((n / call) as u64, || format!("{n} blocks in {ch} channels, level {level}, by {call}: file {file}, holds {holds}, at most {most}"));
        ctx.ensure(holds <= fair && most <= fair, || {
            format!("{n} blocks of {s:?} in {ch} channels, {call} per call: the file takes {file} bytes, the codec holds {holds} and needed {most}")
        });
        // a few per call and channel, of what may grow by doubling, and amortised growth
        let calls = (n.div_ceil(call) + n.div_ceil(65535)) as u64;
        let log = 64 - (file as u64).leading_zeros() as u64;
        ctx.ensure(allocations <= 12 * log + 4 * ch as u64 * (calls + 1) * (call.min(65535).ilog2() as u64 + 2) + 200, || {
            format!("{n} blocks of {s:?} in {ch} channels, {call} per call: encoding allocates {allocations} times")
        });
        let work = 16 * 4 * buf.len() + FIXED;
        let decoded = if is_adhoc { 8 * frame * ch } else { 0 };
        let ((), most, _) = peak(|| {
            c.rewind();
            while c.decode(&mut buf).is_some() {}
        });
        ctx.ensure(most <= (decoded + work) as isize, || format!("decoding {n} blocks in {ch} channels, {call} per call, needs {most} bytes"));
        let ((), most, _) = peak(|| {
            c.apply(Seek(n as u64 / 2), ch, &audio, &mut buf);
            c.apply(Seek(n as u64 - (n > 0) as u64), ch, &audio, &mut buf);
            c.apply(Save, ch, &audio, &mut buf);
            c.apply(Bound, ch, &audio, &mut buf);
        });
        ctx.ensure(most <= (decoded + work + 2 * file) as isize, || format!("seeking and saving {n} blocks in {ch} channels, {call} per call, needs {most} bytes"));
        let bytes = match &c {
            Any::A(a) => save(a),
            Any::W(w) => save_wav(w),
        };
        let (loaded, most, _) = peak(|| match is_adhoc {
            true => load(&bytes).map(Any::A),
            false => load_wav(&bytes).ok().map(Any::W),
        });
        ctx.ensure(loaded.is_some(), || "what was saved does not load".into());
        ctx.ensure(most <= (4 * file + FIXED + 400 * ch) as isize, || format!("loading {file} bytes needs {most}"));
        let mut h = H::new(28);
        h.add(n as u64).add(call as u64).add(ch as u64).add(level as u64).add(s as u64);
        ctx.state(h.get());
        ctx.outcome(h.add(holds as u64).get());
    })
}

/// recordings of many blocks, made again and again
fn again(is_adhoc: bool, ch: usize, level: u32, blocks: usize, singly: bool) -> Job {
    job(format!("again and again adhoc={is_adhoc} ch={ch} level={level}, {blocks} blocks, singly={singly}"), move |ctx| {
        let how = ctx.choose(4);
        let audio = signal(Sig::Loud, blocks, ch);
        let mut buf = vec![0.0f32; 1000 * ch];
        warm_up();
        let before = live();
        let mut c = Any::new(is_adhoc, ch, level);
        let mut seen = vec![];
        for _ in 0..5 {
            c.apply(if singly { RecordSingly(blocks) } else { Record(blocks) }, ch, &audio, &mut buf);
            match how {
                0 => {}
                1 => c.apply(DecodeAll, ch, &audio, &mut buf),
                2 => c.apply(Reload, ch, &audio, &mut buf),
                _ => c.apply(Seek(blocks as u64 / 2), ch, &audio, &mut buf),
            }
            seen.push((live() - before, c.size()));
            ctx.ops(blocks as u64, || format!("recorded: {:?}", seen.last().unwrap()));
        }
        let (m, s) = (seen[0].0.max(seen[1].0), seen[0].1.max(seen[1].1));
        let slack = if level == 0 || !is_adhoc { 0 } else { blocks * ch / 16 };
        let slack_m = if level == 0 || !is_adhoc { 0 } else { m / 2 };
        ctx.ensure(seen[2..].iter().all(|x| x.0 <= m + slack_m && x.1 <= s + slack), || {
            format!("a recording of {blocks} blocks made again holds and saves {seen:?} bytes")
        });
        drop(c);
        let end = live() - before;
        ctx.ensure(end <= 4096, || format!("{end} bytes are still held when the codec is gone"));
        ctx.state(H::new(blocks as u64).add(how as u64).add(singly as u64).add(m as u64).get());
    })
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for (is_adhoc, ch, level) in [(true, 1, 0), (true, 2, 0), (true, 2, 6), (false, 1, 0), (false, 2, 0)] {
        for len in 1..=tier.pick(3, 5) {
            v.push(cycles(is_adhoc, ch, level, len));
        }
    }
    for (ch, blocks, singly) in [(1usize, 5000usize, true), (1, 70_000, true), (2, 40_000, true), (300, 3, true), (65_537, 2, true), (1, 70_000, false), (1, 3_000_000, false), (40, 70_000, false)] {
        for level in [0, 6] {
            v.push(again(true, ch, level, blocks, singly));
        }
        if ch <= 65_535 {
            v.push(again(false, ch, 0, blocks, singly));
        }
    }
    v.push(proportion(true));
    v.push(proportion(false));
    v
}

fn main() {
    engine::main(
        Check::new(
            "C27",
            "model_checking",
            "an execution is one cycle of calls repeated on the real codec, or one recording; a state is what is held and saved after it; a transition is a call",
            jobs,
        )
        .assume(&["memory is what the exploring thread holds through the global allocator; the constants allow a vector to hold four times what is in it"]),
    )
}
