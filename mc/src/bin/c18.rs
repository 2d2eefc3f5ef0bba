//! C18: instances are deterministic and independent of each other
use mc::*;
use std::sync::mpsc::{channel, Receiver, Sender};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    New(bool, u32, u32, u32),
    Encode(Sig, usize),
    Init,
    Decode(usize),
    Seek(u64),
    Save,
    Load,
    Bound,
}
use Call::*;

enum Inst {
    None,
    A(AdhocCodec, usize),
    W(WavCodec, usize),
}
/// an instance, what was encoded so far, and the bytes it last saved
struct Obj {
    i: Inst,
    at: usize,
    bytes: Vec<u8>,
}
impl Obj {
    fn new() -> Self {
        Obj { i: Inst::None, at: 0, bytes: vec![] }
    }
    /// makes the call and hashes everything it shows
    fn call(&mut self, c: Call) -> u64 {
        let mut h = H::new(11);
        match c {
            New(true, rate, ch, level) => {
                self.i = Inst::A(adhoc(rate, ch as usize, level), ch as usize);
                self.at = 0;
            }
            New(false, rate, ch, _) => {
                self.i = Inst::W(WavCodec::new(StreamInfo::new(rate, ch)), ch as usize);
                self.at = 0;
            }
            _ => {}
        }
        match (&mut self.i, c) {
            (_, New(..)) | (Inst::None, _) => {}
            (Inst::A(a, ch), Encode(s, n)) => {
                h.add(Streamable::encode(a, &signal_from(s, self.at, n, *ch)).map_or(!0, |n| n as u64));
                self.at += n;
            }
            (Inst::W(w, ch), Encode(s, n)) => {
                h.add(w.encode(&signal_from(s, self.at, n, *ch)).map_or(!0, |n| n as u64));
                self.at += n;
            }
            (Inst::A(a, _), Init) => a.init(),
            (Inst::W(w, _), Init) => w.seek(SeekFrom::Start(0)),
            (Inst::A(a, ch), Decode(n)) => {
                let mut b = vec![0.25f32; n * *ch];
                h.add(Streamable::decode(a, &mut b).map_or(!0, |n| n as u64));
                h.add(hash_f32(&b));
            }
            (Inst::W(w, ch), Decode(n)) => {
                let mut b = vec![0.25f32; n * *ch];
                h.add(w.decode(&mut b).map_or(!0, |n| n as u64));
                h.add(hash_f32(&b));
            }
            (Inst::A(a, _), Seek(t)) => Streamable::seek(a, SeekFrom::Start(t)),
            (Inst::W(w, _), Seek(t)) => w.seek(SeekFrom::Start(t)),
            (Inst::A(a, _), Save) => {
                self.bytes = save(a);
                h.bytes(&self.bytes);
            }
            (Inst::W(w, _), Save) => {
                self.bytes = save_wav(w);
                h.bytes(&self.bytes);
            }
            (Inst::A(a, _), Load) => match load(&self.bytes) {
                Some(l) => *a = l,
                None => {
                    h.add(404);
                }
            },
            (Inst::W(w, _), Load) => match load_wav(&self.bytes) {
                Ok(l) => *w = l,
                Err(_) => {
                    h.add(404);
                }
            },
            (Inst::A(a, _), Bound) => {
                h.add(Streamable::filesize_upperbound(a)).add(a.calculate_sample_count_per_channel());
                let i = Streamable::info(a);
                h.add(i.frequency() as u64).add(i.channels() as u64);
            }
            (Inst::W(w, _), Bound) => {
                h.add(w.filesize_upperbound());
                let i = w.info();
                h.add(i.frequency() as u64).add(i.channels() as u64);
            }
        }
        h.get()
    }
}

fn scripts() -> Vec<(&'static str, Vec<Call>)> {
    vec![
        ("dithered stereo", vec![New(true, 1000, 2, 7), Encode(Sig::Loud, 30), Encode(Sig::Loud, 5), Save, Init, Decode(60)]),
        ("lossless", vec![New(true, 1000, 1, 0), Encode(Sig::Square, 20), Encode(Sig::Sine, 9), Bound, Init, Decode(12)]),
        ("dithered seek", vec![New(true, 1000, 1, 10), Encode(Sig::Sine, 40), Init, Seek(7), Decode(10), Save]),
        ("wav", vec![New(false, 1000, 2, 0), Encode(Sig::Loud, 9), Save, Load, Decode(4), Bound]),
        ("loaded", vec![New(true, 1000, 2, 5), Encode(Sig::Sine, 12), Save, Load, Decode(5), Decode(20)]),
        ("loaded, recorded over", vec![New(true, 1000, 1, 3), Encode(Sig::Loud, 9), Save, Load, Encode(Sig::Loud, 14), Save]),
        ("wide", vec![New(true, 48000, 5, 1), Encode(Sig::Quiet, 6), Encode(Sig::Burst, 6), Save, Init, Decode(8)]),
        ("wav seek", vec![New(false, 1000, 1, 0), Encode(Sig::Sine, 20), Seek(5), Decode(5), Seek(2), Decode(30)]),
    ]
}

/// what the calls show on an instance of its own (on a thread that has never used the library)
fn alone(script: &[Call]) -> Vec<u64> {
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut o = Obj::new();
            script.iter().map(|&c| o.call(c)).collect()
        })
        .join()
        .unwrap()
    })
}

/// a thread that makes one call at a time when told to, as a scheduler hands control around
struct Worker {
    tx: Sender<Option<Call>>,
    rx: Receiver<u64>,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Worker {
    fn start() -> Self {
        let (tx, r) = channel::<Option<Call>>();
        let (t, rx) = channel();
        let named = std::thread::Builder::new().name("a worker".into());
        let spawned = named.spawn(move || {
            let mut o = Obj::new();
            while let Ok(Some(c)) = r.recv() {
                if t.send(o.call(c)).is_err() {
                    break;
                }
            }
        });
        let h = spawned.expect("a thread");
        Worker { tx, rx, h: Some(h) }
    }
    fn call(&self, c: Call) -> Option<u64> {
        self.tx.send(Some(c)).ok()?;
        self.rx.recv().ok()
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.tx.send(None);
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}

/// explores every interleaving of the scripts' calls; the model's state is how far each script is
fn interleave(ctx: &mut Ctx, names: &[&str], scripts: &[&[Call]], want: &[Vec<u64>], threads: bool) {
    let n = scripts.len();
    let mut pos = vec![0usize; n];
    let workers: Vec<Worker> = if threads { (0..n).map(|_| Worker::start()).collect() } else { vec![] };
    let mut objs: Vec<Obj> = (0..n).map(|_| Obj::new()).collect();
    loop {
        let ready: Vec<usize> = (0..n).filter(|&i| pos[i] < scripts[i].len()).collect();
        if ready.is_empty() {
            return;
        }
        let i = if ready.len() == 1 { ready[0] } else { *ctx.pick(&ready) };
        let c = scripts[i][pos[i]];
        let got = if threads {
            match workers[i].call(c) {
                Some(h) => h,
                None => ctx.fail(format!("{}: {c:?} ends its thread", names[i])),
            }
        } else {
            objs[i].call(c)
        };
        ctx.op(|| format!("{}: {c:?}", names[i]));
        let w = want[i][pos[i]];
        ctx.ensure(got == w, || {
            format!("{} ({} calls into its script): {c:?} shows something else than it does alone", names[i], pos[i])
        });
        pos[i] += 1;
        let mut h = H::new(n as u64);
        for (k, &p) in pos.iter().enumerate() {
            h.add(p as u64).add(want[k].get(p.wrapping_sub(1)).copied().unwrap_or(0));
        }
        ctx.state(h.get());
        ctx.outcome(got);
    }
}

/// what a script shows when the call at `at` is the one under study
fn gated<'a>(s: &'a [Call], at: usize) -> impl Fn(preempt::Gate) -> Vec<u64> + Sync + 'a {
    move |gate| {
        let mut o = Obj::new();
        let mut v = vec![];
        for (i, &c) in s.iter().enumerate() {
            if i == at {
                gate(true);
            }
            let h = o.call(c);
            if i == at {
                gate(false);
            }
            v.push(h);
        }
        // and what it holds in the end
        v.push(o.call(Save));
        v.push(o.call(Init));
        v.push(o.call(Decode(70)));
        v
    }
}

/// preempts every call of every script at every access it makes to static memory, with every other call in between
fn preempted(ctx: &mut Ctx, all: &[(&'static str, Vec<Call>)], most: u32) {
    // how often each call accesses static memory; calls that never do commute with all others
    let mut touching = vec![];
    for (name, s) in all {
        for at in 0..s.len() {
            let o = preempt::run(0, 0, &gated(s, at), None);
            ctx.op(|| format!("{name}: {:?} makes {} accesses to static memory", s[at], o.seen[0]));
            if let Some(b) = &o.bad {
                ctx.fail(format!("{name}: {:?} alone on its thread: {b}", s[at]));
            }
            ctx.state(H::new(18).add(at as u64).add(o.seen[0] as u64).get());
            ctx.outcome(H::new(o.seen[0] as u64).get());
            if o.seen[0] > 0 {
                touching.push((*name, &s[..], at, o.seen[0].min(most), o.shows[0].clone()));
            }
        }
    }
    if touching.is_empty() {
        return;
    }
    let a = ctx.choose(touching.len());
    let b = ctx.choose(touching.len());
    let (na, sa, ia, ka, wa) = &touching[a];
    let (nb, sb, ib, kb, wb) = &touching[b];
    let two = ka * kb <= most;
    for k in 1..=*ka {
        for j in 0..=if two { *kb } else { 0 } {
            let o = preempt::run(k, j, &gated(sa, *ia), Some(&gated(sb, *ib)));
            let at = || {
                let till = if j == 0 { "its end".to_string() } else { format!("its access {j}") };
                format!("{na}: {:?} preempted before its access {k} to static memory by {nb}: {:?} until {till}", sa[*ia], sb[*ib])
            };
            ctx.op(at);
            if let Some(b) = &o.bad {
                ctx.fail(format!("{}: {b}", at()));
            }
            ctx.ensure(o.shows[0] == *wa, || format!("{}: the first shows something else than alone", at()));
            ctx.ensure(o.shows[1] == *wb, || format!("{}: the second shows something else than alone", at()));
            let mut h = H::new(19);
            h.add(a as u64).add(b as u64).add(k as u64).add(j as u64);
            ctx.state(h.get());
        }
    }
}

/// a reader or writer that uses another instance at its n-th operation
struct Interrupting<'a> {
    data: std::io::Cursor<Vec<u8>>,
    at: usize,
    n: usize,
    call: &'a mut dyn FnMut(),
}
impl Interrupting<'_> {
    fn tick(&mut self) {
        if self.n == self.at {
            (self.call)();
        }
        self.n += 1;
    }
}
impl std::io::Write for Interrupting<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick();
        self.data.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Read for Interrupting<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.tick();
        self.data.read(b)
    }
}
impl std::io::Seek for Interrupting<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.data.seek(p)
    }
}

/// another instance is used from inside the reader or writer an instance is given, at each of its operations
fn interrupted_io(ctx: &mut Ctx) {
    let kinds: [(bool, Sig, u32, u32); 3] = [(true, Sig::Loud, 2, 7), (true, Sig::Sine, 1, 0), (false, Sig::Loud, 2, 0)];
    let &(is_adhoc, sig, ch, level) = ctx.pick(&kinds);
    let saving = ctx.flag();
    let all = scripts();
    let other = &all[ctx.choose(all.len())];
    let want_other = alone(&other.1);
    let mut first = Obj::new();
    for c in [New(is_adhoc, 1000, ch, level), Encode(sig, 9), Encode(sig, 4), Save] {
        first.call(c);
    }
    let file = first.bytes.clone();
    let want = if saving {
        file.clone()
    } else {
        first.call(Load);
        first.call(Save);
        first.bytes.clone()
    };
    // all operations, until there are no more
    let mut at = 0;
    loop {
        let mut o = Obj::new();
        let mut got_other = vec![];
        let mut used = false;
        let mut f = Interrupting {
            data: std::io::Cursor::new(if saving { vec![] } else { file.clone() }),
            at,
            n: 0,
            call: &mut || {
                used = true;
                got_other = other.1.iter().map(|&c| o.call(c)).collect();
            },
        };
        let bytes = match (&first.i, saving) {
            (Inst::A(a, _), true) => a.save_to(&mut f).map(|_| f.data.into_inner()),
            (Inst::W(w, _), true) => w.save_to(&mut f).ok().map(|_| f.data.into_inner()),
            (Inst::A(..), false) => AdhocCodec::load(&mut f).map(|c| save(&c)),
            (Inst::W(..), false) => WavCodec::load(&mut f).ok().map(|c| save_wav(&c)),
            (Inst::None, _) => unreachable!(),
        };
        if !used {
            break;
        }
        let doing = if saving { "saving" } else { "loading" };
        ctx.op(|| format!("{doing}: at its operation {at} \"{}\" runs on another instance", other.0));
        ctx.ensure(bytes.as_deref() == Some(&want[..]), || format!("{doing} gives something else when at operation {at} another instance is used"));
        ctx.ensure(got_other == want_other, || format!("an instance used inside the reader or writer of another shows something else (operation {at}, {doing})"));
        ctx.state(H::new(20).add(at as u64).add(saving as u64).add(level as u64).add(is_adhoc as u64).get());
        at += 1;
    }
    ctx.ensure(at > 0, || "the file is never used".to_string());
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let all = scripts();
    v.push(job("another instance used inside a reader or writer", interrupted_io));
    let most = tier.pick(200, 1000);
    v.push(job("calls preempted inside", move |ctx| preempted(ctx, &scripts(), most)));
    for i in 0..all.len() {
        // determinism of one
        let (name, s) = all[i].clone();
        v.push(job(format!("repeat {name}"), move |ctx| {
            let want = alone(&s);
            for k in 0..20 {
                let again = if k % 2 == 0 { alone(&s) } else { let mut o = Obj::new(); s.iter().map(|&c| o.call(c)).collect() };
                ctx.ops(s.len() as u64, || format!("repeat {k}"));
                ctx.ensure(again == want, || format!("{name}: repeating the calls on a new instance shows something else"));
                for h in again {
                    ctx.outcome(h);
                }
            }
        }));
        for j in i..all.len() {
            for threads in [false, true] {
                let (na, a) = all[i].clone();
                let (nb, b) = all[j].clone();
                let want: std::sync::OnceLock<Vec<Vec<u64>>> = std::sync::OnceLock::new();
                v.push(job(format!("two: {na} and {nb}, threads={threads}"), move |ctx| {
                    let want = want.get_or_init(|| vec![alone(&a), alone(&b)]);
                    interleave(ctx, &[na, nb], &[&a, &b], want, threads);
                }));
            }
        }
    }
    // three instances: the first calls of each
    let len = tier.pick(3, 4);
    for (i, j, k) in [(0, 0, 0), (0, 1, 2), (0, 3, 4), (4, 5, 6), (2, 2, 7), (0, 4, 5), (1, 1, 3)] {
        for threads in [false, true] {
            let s: Vec<(&str, Vec<Call>)> = [i, j, k].iter().map(|&x| all[x].clone()).collect();
            let want: std::sync::OnceLock<Vec<Vec<u64>>> = std::sync::OnceLock::new();
            let from = if threads { 3 } else { len };
            let len = if tier.thorough() { len } else { from };
            v.push(job(format!("three: {i} {j} {k}, threads={threads}"), move |ctx| {
                let cut: Vec<&[Call]> = s.iter().map(|x| &x.1[..len.min(x.1.len())]).collect();
                let want = want.get_or_init(|| cut.iter().map(|s| alone(s)).collect());
                let names: Vec<&str> = s.iter().map(|x| x.0).collect();
                interleave(ctx, &names, &cut, want, threads);
            }));
        }
    }
    // every short history of one instance against one fixed history of another in between each call
    v.push(job("histories with another in between", move |ctx| {
        const OPS: [Call; 9] = [Encode(Sig::Loud, 5), Encode(Sig::Sine, 1), Init, Decode(3), Save, Load, Bound, Seek(2), Decode(40)];
        let start = *ctx.pick(&[New(true, 1000, 2, 6), New(true, 1000, 1, 0), New(false, 1000, 2, 0)]);
        let depth = ctx.tier.pick(3, 5);
        let mut script = vec![start, Encode(Sig::Loud, 6)];
        let mut encoding = true;
        for _ in 0..depth {
            let c = *ctx.pick(&OPS);
            // adhoc: encoding goes on only from where encoding is possible
            if let New(true, ..) = start {
                match c {
                    Init | Load => encoding = true,
                    Decode(_) | Seek(_) if encoding => {
                        script.push(Init);
                        encoding = false;
                    }
                    Encode(..) if !encoding => {
                        script.push(Init);
                        encoding = true;
                    }
                    _ => {}
                }
                if c == Load {
                    script.push(Save);
                }
            }
            if c == Load && start == New(false, 1000, 2, 0) {
                script.push(Save);
            }
            script.push(c);
        }
        let mut one = Obj::new();
        let want: Vec<u64> = script.iter().map(|&c| one.call(c)).collect();
        let mut o = Obj::new();
        let other = [New(true, 1000, 2, 6), Encode(Sig::Loud, 7), Save, Load, Decode(4), New(false, 8000, 1, 0), Encode(Sig::Sine, 3), Decode(2)];
        let mut p = Obj::new();
        for (i, &c) in script.iter().enumerate() {
            p.call(other[i % other.len()]);
            let got = o.call(c);
            ctx.op(|| format!("{c:?}, with {:?} on another instance before it", other[i % other.len()]));
            ctx.ensure(got == want[i], || format!("{c:?} shows something else when another instance is used in between"));
            ctx.outcome(got);
        }
        ctx.state(H::new(5).add(*want.last().unwrap()).get());
    }));
    v
}

fn main() {
    engine::main(
        Check::new(
            "C18",
            "model_checking",
            "an execution is one interleaving of complete calls of two or three scripts; a state is how far each script is; a transition is a call, whose results must equal those of the script run alone",
            jobs,
        )
        .assume(&[
            "calls on different instances can only affect each other through static memory or thread-local storage (safe code reaches no other shared memory); within a call the preemption points are its accesses to static memory, at most 200 per call (1000 thorough), with up to two preemptions per pair of calls when both make few",
            "a preempted pair runs under the sequential consistency of one processor at a time",
        ])
        .decides_determinism(),
    )
}
