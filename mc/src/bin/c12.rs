//! C12: saving and loading survive short transfers and interruptions and report errors
use mc::*;
use std::{
    cell::RefCell,
    io::{self, Read, Seek, Write},
    rc::Rc,
};

/// what the environment does with one transfer
#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Full,
    One,
    Half,
    AllButOne,
    Interrupted,
    Error,
    /// nothing accepted, no error
    Zero,
}
const WRITES: [T; 7] = [T::Full, T::One, T::Half, T::AllButOne, T::Interrupted, T::Error, T::Zero];
const READS: [T; 6] = [T::Full, T::One, T::Half, T::AllButOne, T::Interrupted, T::Error];

struct Env<'a> {
    ctx: &'a mut Ctx,
    left: usize,
    failed: bool,
    /// after a failure every transfer fails, or only that one
    sticky: bool,
    transfers: usize,
    /// what all other transfers do
    rule: [T; 2],
    log: Vec<T>,
    /// of the errors injected
    kind: io::ErrorKind,
}
type E<'a> = Rc<RefCell<Env<'a>>>;
impl Env<'_> {
    fn next(&mut self, menu: &[T]) -> T {
        self.transfers += 1;
        if self.failed && self.sticky {
            return T::Error;
        }
        let base = self.rule[self.transfers % 2];
        let t = if self.left > 0 {
            let t = *self.ctx.pick(menu);
            if t == T::Full {
                base
            } else {
                self.left -= 1;
                t
            }
        } else {
            base
        };
        if t != T::Full {
            self.log.push(t);
        }
        self.failed |= matches!(t, T::Error | T::Zero);
        t
    }
}
fn amount(t: T, n: usize) -> usize {
    match t {
        T::Full => n,
        T::One => n.min(1),
        T::Half => n.div_ceil(2),
        T::AllButOne => (n.max(2) - 1).min(n),
        _ => unreachable!(),
    }
}
fn outcome(t: T, n: usize, kind: io::ErrorKind) -> io::Result<usize> {
    match t {
        T::Interrupted => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
        T::Error => Err(injected(kind)),
        T::Zero => Ok(0),
        t => Ok(amount(t, n)),
    }
}

fn injected(kind: io::ErrorKind) -> io::Error {
    match kind {
        // as the system reports a full disk and a bad device
        io::ErrorKind::StorageFull => io::Error::from_raw_os_error(28),
        io::ErrorKind::Other => io::Error::new(kind, "injected"),
        kind => kind.into(),
    }
}
const KINDS: [io::ErrorKind; 16] = {
    use io::ErrorKind::*;
    [
        Other, UnexpectedEof, BrokenPipe, WriteZero, TimedOut, WouldBlock, PermissionDenied, Unsupported, InvalidInput, InvalidData,
        StorageFull, ConnectionReset, NotFound, OutOfMemory, AlreadyExists, AddrInUse,
    ]
};

struct Sink<'a>(E<'a>, Rc<RefCell<Vec<u8>>>);
impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let t = self.0.borrow_mut().next(&WRITES);
        let n = outcome(t, b.len(), self.0.borrow().kind)?;
        self.1.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Source<'a>(E<'a>, &'a [u8], u64);
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let at = (self.2 as usize).min(self.1.len());
        let n = b.len().min(self.1.len() - at);
        if b.is_empty() {
            return Ok(0);
        }
        let t = self.0.borrow_mut().next(&READS);
        let n = outcome(t, n, self.0.borrow().kind)?;
        b[..n].copy_from_slice(&self.1[at..at + n]);
        self.2 += n as u64;
        Ok(n)
    }
}
impl Seek for Source<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let t = self.0.borrow_mut().next(&[T::Full, T::Error]);
        if t == T::Error {
            return Err(injected(self.0.borrow().kind));
        }
        let at = match s {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(n) => self.2 as i128 + n as i128,
            SeekFrom::End(n) => self.1.len() as i128 + n as i128,
        };
        if at < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "before the start"));
        }
        self.2 = at as u64;
        Ok(self.2)
    }
}

fn env(ctx: &mut Ctx, k: usize, rule: [T; 2], sticky: bool, kind: io::ErrorKind) -> E<'_> {
    Rc::new(RefCell::new(Env { ctx, left: k, failed: false, sticky, transfers: 0, rule, log: vec![], kind }))
}

enum C {
    A(AdhocCodec),
    W(WavCodec),
}
fn adhoc_file(sig: Sig, ch: usize, level: u32, sizes: &[usize]) -> AdhocCodec {
    let mut c = adhoc(1000, ch, level);
    for x in Spec::new(1000, ch, level, sig, sizes).calls() {
        Streamable::encode(&mut c, &x);
    }
    c
}
fn wav_file(ch: usize, n: usize) -> WavCodec {
    let mut c = WavCodec::new(StreamInfo::new(1000, ch as u32));
    c.encode(&signal(Sig::Loud, n, ch));
    c
}

fn saving(ctx: &mut Ctx, c: C, k: usize, rule: [T; 2]) {
    saving_kind(ctx, c, k, rule, io::ErrorKind::Other)
}
fn saving_kind(ctx: &mut Ctx, c: C, k: usize, rule: [T; 2], kind: io::ErrorKind) {
    let whole = match &c {
        C::A(c) => save(c),
        C::W(c) => save_wav(c),
    };
    let got: Rc<RefCell<Vec<u8>>> = Default::default();
    let sticky = ctx.flag();
    let (ok, failed, transfers, log) = {
        let e = env(ctx, k, rule, sticky, kind);
        let s = Sink(e.clone(), got.clone());
        let ok = match &c {
            C::A(c) => c.save_to(s).is_some(),
            C::W(c) => c.save_to(s).is_ok(),
        };
        let e = e.borrow();
        (ok, e.failed, e.transfers, e.log.clone())
    };
    ctx.ops(transfers as u64, || format!("save_to: {transfers} transfers with {log:?}: success = {ok}"));
    let got = got.borrow();
    ctx.state(H::new(1).bytes(&got).add(ok as u64).get());
    ctx.outcome(H::new(1).bytes(&got).add(ok as u64).get());
    ctx.ensure(ok || failed, || format!("saving reports failure although the destination only split or interrupted the writes ({log:?})"));
    ctx.ensure(!(ok && failed), || format!("saving reports success although the destination failed ({log:?})"));
    if ok {
        ctx.ensure(*got == whole, || {
            let i = (0..got.len().min(whole.len())).find(|&i| got[i] != whole[i]);
            format!("saving reports success, but the destination got {} bytes of {}, first difference at {i:?} ({log:?})", got.len(), whole.len())
        });
    } else {
        ctx.ensure(whole.starts_with(&got), || format!("the {} bytes written before the failure are not a prefix of the file ({log:?})", got.len()));
    }
}

fn loading(ctx: &mut Ctx, bytes: &[u8], wav: bool, k: usize, rule: [T; 2]) {
    loading_kind(ctx, bytes, wav, k, rule, io::ErrorKind::Other)
}
fn loading_kind(ctx: &mut Ctx, bytes: &[u8], wav: bool, k: usize, rule: [T; 2], kind: io::ErrorKind) {
    let sticky = ctx.flag();
    let (c, failed, transfers, log) = {
        let e = env(ctx, k, rule, sticky, kind);
        let s = Source(e.clone(), bytes, 0);
        let c = if wav { WavCodec::load(s).ok().map(C::W) } else { AdhocCodec::load(s).map(C::A) };
        let e = e.borrow();
        (c, e.failed, e.transfers, e.log.clone())
    };
    let ok = c.is_some();
    ctx.ops(transfers as u64, || format!("load: {transfers} transfers with {log:?}: success = {ok}"));
    ctx.state(H::new(2).bytes(bytes).add(transfers as u64).get());
    ctx.ensure(ok || failed, || format!("loading fails although the source only split or interrupted the reads ({log:?})"));
    ctx.ensure(!(ok && failed), || format!("loading reports success although a read or seek failed ({log:?})"));
    let Some(c) = c else {
        ctx.outcome(1);
        return;
    };
    match c {
        C::A(mut c) => {
            let mut p = load(bytes).expect("plain load");
            same(ctx, &mut c, &mut p, &log);
            ctx.ensure(save(&c) == save(&p), || format!("the loaded codec saves differently ({log:?})"));
        }
        C::W(mut c) => {
            let mut p = load_wav(bytes).expect("plain load");
            same(ctx, &mut c, &mut p, &log);
            ctx.ensure(save_wav(&c) == save_wav(&p), || format!("the loaded stream saves differently ({log:?})"));
        }
    }
}
fn same<S: Streamable>(ctx: &mut Ctx, a: &mut S, b: &mut S, log: &[T]) {
    let (i, j) = (a.info(), b.info());
    ctx.ensure(i.channels() == j.channels() && i.frequency() == j.frequency(), || format!("info differs ({log:?})"));
    let mut x = vec![0.0f32; 60 * i.channels()];
    let mut y = x.clone();
    let mut n = 0;
    loop {
        let (p, q) = (a.decode(&mut x), b.decode(&mut y));
        ctx.ensure(p == q && x.iter().zip(&y).all(|(a, b)| a.to_bits() == b.to_bits()), || {
            format!("decodes differently from sample {n} on ({p:?} and {q:?} samples) ({log:?})")
        });
        let Some(p) = p else { break };
        n += p;
        ctx.outcome(hash_f32(&x[..p]));
    }
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let ka = tier.pick(2, 3);
    let kw = tier.pick(4, 6);
    // adhoc: (name, recording)
    const A: [(&str, Sig, usize, u32, &[usize]); 4] = [
        ("empty", Sig::Loud, 1, 0, &[]),
        ("one frame", Sig::Loud, 1, 0, &[12]),
        ("stereo", Sig::Sine, 2, 3, &[5, 9]),
        ("three calls", Sig::Square, 1, 0, &[3, 1, 20]),
    ];
    for (name, sig, ch, level, sizes) in A {
        v.push(job(format!("save adhoc {name}, {ka} deviations"), move |ctx| {
            saving(ctx, C::A(adhoc_file(sig, ch, level, sizes)), ka, [T::Full; 2]);
        }));
        v.push(job(format!("load adhoc {name}, {ka} deviations"), move |ctx| {
            let b = save(&adhoc_file(sig, ch, level, sizes));
            loading(ctx, &b, false, ka, [T::Full; 2]);
        }));
    }
    for (ch, n) in [(1usize, 0usize), (1, 1), (2, 3), (1, 100), (3, 50)] {
        v.push(job(format!("save wav ch={ch} blocks={n}, {kw} deviations"), move |ctx| {
            saving(ctx, C::W(wav_file(ch, n)), kw, [T::Full; 2]);
        }));
        v.push(job(format!("load wav ch={ch} blocks={n}, {kw} deviations"), move |ctx| {
            let b = save_wav(&wav_file(ch, n));
            loading(ctx, &b, true, kw, [T::Full; 2]);
        }));
    }
    // failures of every kind, after transfers that are whole or short
    for kind in KINDS {
        v.push(job(format!("failures: {kind}"), move |ctx| {
            let rule = *ctx.pick(&[[T::Full; 2], [T::Half; 2], [T::Interrupted, T::Full]]);
            let k = ctx.tier.pick(1, 2);
            match ctx.choose(8) {
                0 => saving_kind(ctx, C::W(wav_file(2, 3)), k, rule, kind),
                1 => saving_kind(ctx, C::W(wav_file(1, 60_000)), k, rule, kind),
                2 => saving_kind(ctx, C::A(adhoc_file(Sig::Loud, 2, 3, &[5, 9])), k, rule, kind),
                3 => saving_kind(ctx, C::A(adhoc_file(Sig::Sine, 1, 0, &[700])), k, rule, kind),
                4 => loading_kind(ctx, &save_wav(&wav_file(1, 60_000)), true, k, rule, kind),
                5 => {
                    let data = riff::chunk(b"data", &[9; 60]);
                    let b = riff::file(&[riff::chunk(b"junk", b"odd"), riff::fmt_chunk(18, 1, 2, 8000, 8), riff::chunk(b"LIST", &[7; 300]), data]);
                    loading_kind(ctx, &b, true, k, rule, kind)
                }
                6 => loading_kind(ctx, &save(&adhoc_file(Sig::Loud, 2, 3, &[5, 9])), false, k, rule, kind),
                _ => loading_kind(ctx, &save_wav(&wav_file(2, 3)), true, k, rule, kind),
            }
        }));
    }
    // other layouts: seeks over other chunks, 8 bits
    for bits in [8u16, 16] {
        v.push(job(format!("load wav with other chunks, {bits} bits, {kw} deviations"), move |ctx| {
            let d: Vec<u8> = (0..40).map(|i| (i * 29) as u8).collect();
            let b = riff::file(&[
                riff::chunk(b"junk", b"odd"),
                riff::fmt_chunk(18, 1, 2, 8000, bits),
                riff::chunk(b"LIST", &[7; 300]),
                riff::chunk(b"data", &d),
                riff::chunk(b"LIST", b"data"),
            ]);
            let k = ctx.tier.pick(3, 4);
            loading(ctx, &b, true, k, [T::Full; 2]);
        }));
    }
    // transfers that are always short or always interrupted first, plus a few deviations
    const RULES: [[T; 2]; 5] = [[T::One; 2], [T::Interrupted, T::One], [T::Half; 2], [T::Interrupted, T::Full], [T::AllButOne, T::One]];
    for rule in RULES {
        for (name, sig, ch, level, sizes) in A {
            v.push(job(format!("save adhoc {name}, always {rule:?}"), move |ctx| {
                saving(ctx, C::A(adhoc_file(sig, ch, level, sizes)), 1, rule);
            }));
            v.push(job(format!("load adhoc {name}, always {rule:?}"), move |ctx| {
                let b = save(&adhoc_file(sig, ch, level, sizes));
                loading(ctx, &b, false, 1, rule);
            }));
        }
        for (ch, n) in [(1usize, 0usize), (2, 3), (1, 100)] {
            v.push(job(format!("save wav ch={ch} blocks={n}, always {rule:?}"), move |ctx| {
                saving(ctx, C::W(wav_file(ch, n)), ctx.tier.pick(1, 2), rule);
            }));
            v.push(job(format!("load wav ch={ch} blocks={n}, always {rule:?}"), move |ctx| {
                let b = save_wav(&wav_file(ch, n));
                let k = ctx.tier.pick(1, 2);
                loading(ctx, &b, true, k, rule);
            }));
        }
    }
    // very large files: short transfers, and a failure far into the file
    for (samples, max) in [(300_000_000u64, 65_521usize), (1 << 30, usize::MAX)] {
        v.push(job(format!("{samples} samples, transfers of at most {max} bytes"), move |ctx| {
            let _one = scale::alone();
            let bytes = samples * 2;
            let fail_at = *ctx.pick(&[u64::MAX, bytes / 2 + 1, bytes + 40]);
            let saving = ctx.flag();
            let mut from = scale::Synth::wav(1, 44100, samples);
            from.max = max;
            if !saving {
                from.fails_at = fail_at;
            }
            let c = WavCodec::load(from);
            ctx.op(|| format!("load, failing at {}: {:?}", if saving { u64::MAX } else { fail_at }, c.as_ref().err()));
            let fails = fail_at < u64::MAX;
            let c = match c {
                Ok(_) if !saving && fails => ctx.fail(format!("loading reports success although the read at byte {fail_at} failed")),
                Err(_) if !saving && fails => return,
                Ok(c) => c,
                Err(e) => ctx.fail(format!("loading {bytes} bytes in reads of at most {max} fails: {e}")),
            };
            let mut to = scale::Compare::new(scale::Synth::wav(1, 44100, samples));
            to.max = max;
            to.fails_at = if saving { fail_at } else { u64::MAX };
            let r = c.save_to(&mut to);
            ctx.op(|| format!("save_to, failing at {}: {r:?}, {} bytes", to.fails_at, to.written));
            ctx.ensure(to.wrong.is_none(), || format!("what was written is not the file from byte {:?} on", to.wrong));
            ctx.ensure(r.is_ok() != (saving && fails), || format!("saving reports {r:?}, the destination fails at {}", to.fails_at));
            if r.is_ok() {
                if let Err(e) = to.verdict() {
                    ctx.fail(format!("saving reports success, but {e}"));
                }
            }
            ctx.state(to.written);
            ctx.outcome(to.written);
        }));
    }
    // large files: many transfers
    for rule in [[T::Full; 2], [T::Half; 2], [T::AllButOne; 2]] {
        v.push(job(format!("large files, always {rule:?}"), move |ctx| {
            let k = ctx.tier.pick(1, 2);
            match ctx.choose(4) {
                0 => saving(ctx, C::W(wav_file(2, 30_000)), k, rule),
                1 => loading(ctx, &save_wav(&wav_file(2, 30_000)), true, k, rule),
                2 => saving(ctx, C::A(adhoc_file(Sig::Loud, 2, 0, &[500, 3])), 1, rule),
                _ => loading(ctx, &save(&adhoc_file(Sig::Loud, 2, 0, &[500, 3])), false, 1, rule),
            }
        }));
    }
    v
}

fn main() {
    engine::main(
        Check::new(
            "C12",
            "fault_enumeration",
            "a case is one schedule of outcomes (full, short by three sizes, interrupted, failed, nothing accepted) of the transfers of one save or load: all schedules with at most the stated number of deviations from the rule; cases are distinct by what arrived and what was reported",
            jobs,
        )
        .assume(&["schedules have at most 2 (adhoc) or 4 (wav) deviations in the quick tier, 3 or 6 in the thorough one", "a writer is not asked to flush"]),
    )
}
