//! C31: no history makes the crate read or write memory it must not
use mc::{builds::*, histories::*, *};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{BufRead, BufReader, Write},
    path::PathBuf,
    process::{Child, Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
};

#[derive(Clone, Copy, PartialEq)]
enum Watch {
    /// every access of an interpreter: bounds, initialisation, alignment, valid values, aliasing
    Miri,
    /// native code with checked accesses, for long histories
    Sanitizer,
}
struct Watched {
    child: Child,
    input: std::process::ChildStdin,
    output: BufReader<std::process::ChildStdout>,
    errors: PathBuf,
}
impl Drop for Watched {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.errors);
    }
}
impl Watched {
    /// (the seed decides where the interpreter puts objects, so how they are aligned)
    fn start(w: Watch, seed: u32) -> Watched {
        static N: AtomicU64 = AtomicU64::new(0);
        let v = PathBuf::from(std::env::var("MC_VERIF_DIR").unwrap());
        let errors = v.join(format!("target/memory/errors-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let mut c;
        if w == Watch::Sanitizer {
            c = Command::new(v.join("target/memory/asan/x86_64-unknown-linux-gnu/release/memory-build"));
            c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1");
        } else {
            c = Command::new("cargo");
            c.args(["miri", "run", "--release", "-q", "--offline", "--manifest-path"]).arg(v.join("builds/memory/Cargo.toml"));
            c.env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu").env("RUSTFLAGS", "-Awarnings --cfg mc_hooks");
            c.env("CARGO_TARGET_DIR", v.join("target/memory/miri")).env_remove("RUSTC_WRAPPER");
            c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={seed}"));
        }
        let file = std::fs::File::create(&errors).unwrap();
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(file).spawn().expect("the watched program runs");
        let input = child.stdin.take().unwrap();
        let output = BufReader::new(child.stdout.take().unwrap());
        let mut watched = Watched { child, input, output, errors };
        let first = watched.run("4 0\n");
        assert!(first.as_deref() == Ok("1"), "the watched program works: {first:?}");
        watched
    }
    /// what it answers, or what was said when it ended
    fn run(&mut self, line: &str) -> Result<String, String> {
        let mut answer = String::new();
        let sent = self.input.write_all(line.as_bytes()).and_then(|_| self.input.flush());
        if sent.is_ok() && self.output.read_line(&mut answer).is_ok() && answer.ends_with('\n') {
            return Ok(answer.trim().to_string());
        }
        let _ = self.child.wait();
        Err(std::fs::read_to_string(&self.errors).unwrap_or_default())
    }
}
thread_local! {
    static MIRI: RefCell<Option<Watched>> = const { RefCell::new(None) };
    static SANITIZER: RefCell<Option<Watched>> = const { RefCell::new(None) };
}

/// what was found in this process already: where things are in memory can decide what is seen
static FOUND: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());

/// what a report says about an illegal access, if that is what it is about
fn illegal(report: &str) -> Option<String> {
    let mut lines = report.lines().skip_while(|l| !l.contains("Undefined Behavior") && !l.contains("AddressSanitizer"));
    let first = lines.next()?;
    let at = lines.find(|l| l.contains("/src/") && !l.contains("rustlib") && !l.contains("builds/memory")).unwrap_or("").trim();
    // sizes are not to be had from a sanitizer
    if first.contains("out of memory") || first.contains("allocation-size-too-big") || first.contains("stack-overflow") {
        return None;
    }
    Some(format!("{} {at}", first.trim()))
}

fn watch(ctx: &mut Ctx, w: Watch, script: &[u32]) {
    if script[0] == 0 {
        for (op, a) in steps(&script[1..]) {
            ctx.op(|| format!("{} {a:?}", NAMES[op as usize]));
        }
    } else {
        ctx.op(|| format!("{} {:?}", STRUCTURES[script[0] as usize], &script[1..]));
    }
    ctx.state(script.iter().fold(H::new(31), |mut h, &x| {
        h.add(x as u64);
        h
    }).get());
    let line = script.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") + "\n";
    let found = FOUND.lock().unwrap().get(&line).cloned();
    if let Some(what) = found {
        ctx.fail(what);
    }
    let mut r = if w == Watch::Sanitizer { &SANITIZER } else { &MIRI }.with(|m| {
        let mut m = m.borrow_mut();
        let r = m.get_or_insert_with(|| Watched::start(w, 0)).run(&line);
        if r.is_err() {
            *m = None;
        }
        r
    });
    if w == Watch::Miri && std::env::args().any(|a| a == "--replay") {
        for seed in 1..12 {
            r = r.and_then(|_| Watched::start(w, seed).run(&line));
        }
    }
    match r {
        Ok(answer) => ctx.outcome(H::new(5).bytes(answer.as_bytes()).get()),
        Err(report) => {
            let Some(what) = illegal(&report) else {
                // something the watching program cannot do, or another way to end: not what this check is about
                ctx.outcome(0);
                return;
            };
            FOUND.lock().unwrap().insert(line, what.clone());
            ctx.fail(what);
        }
    }
}

const STRUCTURES: [&str; 8] = ["codecs", "linked list", "cache", "ring", "stack", "bit stream", "bit and nibble lists", "arithmetic"];

/// all sequences of `depth` from a menu
fn structure(v: &mut Vec<Job>, kind: u32, start: &'static [u32], depth: usize, menu: &'static [&'static [u32]]) {
    for (k, first) in menu.iter().enumerate() {
        v.push(job(format!("{} from {start:?}, first {k}", STRUCTURES[kind as usize]), move |ctx| {
            let mut s = vec![kind];
            s.extend(start);
            s.extend(*first);
            for _ in 1..depth {
                s.extend(*ctx.pick(menu));
            }
            watch(ctx, Watch::Miri, &s);
        }));
    }
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let deep = tier.thorough();
    let more = move |quick: usize, thorough: usize| if deep { thorough } else { quick };
    // ---------------------------------------------------------------- the structures
    const STARTS: [&[u32]; 2] = [&[0, 1, 1], &[]];
    for start in &STARTS[..more(1, 2)] {
        structure(&mut v, 1, start, more(3, 4), &[&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7], &[8], &[9], &[10], &[11], &[12]]);
    }
    structure(&mut v, 2, &[0, 1], more(3, 4), &[&[0], &[1], &[2], &[4], &[6], &[8], &[10], &[12], &[13], &[15]]);
    for capacity in [&[1][..], &[2], &[4], &[4, 1, 0, 1]] {
        structure(&mut v, 3, capacity, more(3, 4), &[&[0], &[1], &[2], &[3], &[4], &[5], &[6]]);
    }
    structure(&mut v, 4, &[0, 0, 0], 3, &[&[0], &[1], &[2], &[3]]);
    structure(&mut v, 4, &[], more(4, 6), &[&[0], &[1], &[2], &[3]]);
    structure(&mut v, 5, &[], more(3, 4), &[
        &[0, 128], &[0, 100], &[1, 128], &[1, 7], &[2, 128], &[3, 0], &[3, 1000], &[4, 0x1f400], &[5, 0], &[6, 1], &[7, 130], &[8, 0], &[10, 0],
    ]);
    structure(&mut v, 6, &[], more(3, 4), &[&[0, 1], &[0, 63], &[0, 65], &[1, 0], &[1, 64], &[1, 200], &[2, 63], &[2, 64], &[3, 0], &[4, 0], &[5, 0]]);
    v.push(job("arithmetic", move |ctx| {
        let what = ctx.choose(5) as u32;
        let n = *ctx.pick(&[0u32, 1, 2, 5, 33]);
        let m = *ctx.pick(&[1u32, 2, 7, 40]);
        watch(ctx, Watch::Miri, &[7, what, n, m]);
    }));
    // ---------------------------------------------------------------- the codecs, every access watched
    for level in [0u32, 4] {
        for ch in [1u32, 2, 3] {
            v.push(job(format!("small recordings in {ch} channels at level {level}"), move |ctx| {
                let sig = *ctx.pick(if deep { &[0u32, 1, 3, 5, 6, 7][..] } else { &[1] });
                let calls: &[u32] = ctx.pick(&[&[1][..], &[2, 1], &[3, 4], &[0, 5, 1], &[11], &[1, 1, 1, 1]]);
                let ragged = if ch > 1 { *ctx.pick(&[0, ch - 1]) } else { 0 };
                let mut s = vec![0, NEW, 8000, ch, level, RAGGED, ragged];
                for &n in calls {
                    s.extend([ENCODE, sig, n]);
                }
                match ctx.choose(4) {
                    0 => s.extend([LOOK, SAVE, LOAD, DRAIN, 3]),
                    1 => s.extend([INIT, DECODE, 2, 2, SEEK, 0, 0, DRAIN, 64, INIT, ENCODE, 1, 4, SAVE]),
                    2 => s.extend([INIT, TO_WAV, 4, WAV_SAVE, WAV_LOAD, WAV_DRAIN, 3, WAV_SEEK, 0, 0, 0, FROM_WAV, 2, 3]),
                    _ => s.extend([SEEK, 1, 0, DECODE, 1, 1, SEEK, 0, 0, DECODE, 1, 2, SEEK, u32::MAX, 0, DRAIN, 2]),
                }
                watch(ctx, Watch::Miri, &s);
            }));
        }
    }
    v.push(job("a longer recording", move |ctx| {
        let (ch, sig, n) = *ctx.pick(&[(1u32, 1u32, 200u32), (2, 0, 130), (1, 4, 257), (5, 1, 40), (1, 6, 64)]);
        watch(ctx, Watch::Miri, &[0, NEW, 8000, ch, 1, ENCODE, sig, n, SAVE, LOAD, SEEK, 5, 0, DRAIN, 100]);
    }));
    for (first, op) in [[ENCODE, 1, 3], [ENCODE, 7, 1], [SEEK, 2, 0], [LEVEL, 8, INIT]].into_iter().enumerate() {
        v.push(job(format!("all short sequences of calls, first {first}"), move |ctx| {
            let ch = *ctx.pick(&[1u32, 2]);
            let mut s = vec![0, NEW, 1000, ch, 3, RAGGED, ch - 1];
            s.extend(op);
            for _ in 0..more(2, 3) {
                let op: &[u32] = ctx.pick(&[&[ENCODE, 0, 4][..], &[DECODE, 2, 1], &[INIT], &[SEEK, 3, 0], &[SAVE, LOAD], &[LOOK], &[TO_WAV, 3, WAV_SAVE]]);
                s.extend(op);
            }
            s.extend([DRAIN, 7]);
            watch(ctx, Watch::Miri, &s);
        }));
    }
    for part in 0..8u32 {
        v.push(job(format!("damaged adhoc files, part {part}"), move |ctx| {
            let at = ctx.choose(44) as u32 * 8 + part;
            let mut s = vec![0, NEW, 8000, 1, 0, ENCODE, 1, 4, ENCODE, 0, 2, SAVE];
            match ctx.choose(more(2, 3)) {
                0 => s.extend([CHANGE, at, 255]),
                1 => s.extend([CUT, at]),
                _ => s.extend([CHANGE, at, 1]),
            }
            s.extend([LOAD, DRAIN, 3, SEEK, 0, 0, DECODE, 3, 1]);
            watch(ctx, Watch::Miri, &s);
        }));
    }
    v.push(job("small wav files of others", move |ctx| {
        let (fmt, format) = *ctx.pick(&[(16u32, 1u32), (40, 1), (18, 1), (16, 3), (14, 1)]);
        let (bits, ch) = *ctx.pick(&[(16u32, 1u32), (8, 1), (24, 2), (16, 0)]);
        let bytes = *ctx.pick(&[1u32, 5, 12]);
        let mut s = vec![0, RAGGED, ch.saturating_sub(1), RIFF, fmt, format, ch, 8000, bits, bytes, *ctx.pick(&[0u32, 3])];
        if ctx.flag() {
            s.extend([CUT, 46 + bytes / 2]);
        }
        s.extend([WAV_LOAD, WAV_DRAIN, 2, WAV_SEEK, 1, 0u32.wrapping_sub(1), u32::MAX, WAV_ENCODE, 1, 3, WAV_SAVE, WAV_SEEK, 0, 0, 0, WAV_DRAIN, 1]);
        watch(ctx, Watch::Miri, &s);
    }));
    // ---------------------------------------------------------------- the codecs at size
    let sanitized = |ctx: &mut Ctx, mut s: Vec<u32>| {
        s.insert(0, 0);
        watch(ctx, Watch::Sanitizer, &s);
    };
    for level in 0..=10 {
        v.push(job(format!("recordings at level {level}"), move |ctx| {
            let s = recordings(ctx, level);
            sanitized(ctx, s);
        }));
    }
    for ch in [1, 2] {
        v.push(job(format!("all sequences of calls, {ch} channels"), move |ctx| {
            let s = sequences(ctx, ch, more(4, 5));
            sanitized(ctx, s);
        }));
    }
    v.push(job("wav files of others", move |ctx| {
        let s = foreign(ctx);
        sanitized(ctx, s);
    }));
    v.push(job("wav streams", move |ctx| {
        let s = wav_streams(ctx);
        sanitized(ctx, s);
    }));
    v.push(job("large recordings", move |ctx| {
        let s = large(ctx);
        sanitized(ctx, s);
    }));
    v.push(job("every byte of a file changed", move |ctx| {
        let mut s = vec![NEW, 44100, 2, 3, ENCODE, 0, 9, ENCODE, 1, 3, ENCODE, 1, 2, SAVE];
        s.extend([CHANGE, ctx.choose(600) as u32, *ctx.pick(&[0u32, 1, 2, 16, 127, 128, 254, 255])]);
        s.extend([LOAD, LOOK, DRAIN, 10, SEEK, 1, 0, DECODE, 3, 2, SEEK, u32::MAX, 5, DRAIN, 5, SAVE]);
        sanitized(ctx, s);
    }));
    v
}

fn main() {
    engine::main(
        Check::new(
            "C31",
            "model_checking",
            "a state is a history of calls; a transition is a call made with every access to memory watched; an outcome is what the history computed",
            jobs,
        )
        // (a sanitizer reserves address space, not memory)
        .mem(1 << 20)
        .stuck(240),
    )
}
