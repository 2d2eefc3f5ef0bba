//! C30: recordings, audio and files are the same in every build: with checks, for release, and on 32-bit WebAssembly
use mc::{builds::*, histories::*, *};
use std::{
    cell::RefCell,
    io::{BufRead, BufReader, Write},
    path::PathBuf,
    process::{Child, Command, Stdio},
    sync::atomic::{AtomicU64, Ordering},
};

/// a program that runs histories in another build
struct Other {
    name: &'static str,
    child: Child,
    input: std::process::ChildStdin,
    output: BufReader<std::process::ChildStdout>,
}
impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn builds_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_BUILDS").expect("MC_BUILDS names the other builds"))
}
fn start(name: &'static str, mut c: Command) -> Other {
    let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("the other build runs");
    let input = child.stdin.take().unwrap();
    let output = BufReader::new(child.stdout.take().unwrap());
    Other { name, child, input, output }
}
fn others() -> Vec<Other> {
    let d = builds_dir();
    let release = Command::new(d.join("native/release/other-build"));
    let mut v = vec![start("release", release)];
    if !d.join("wasm.failed").exists() {
        let mut wasm = Command::new("node");
        wasm.arg(PathBuf::from(std::env::var("MC_VERIF_DIR").unwrap()).join("builds/wasm/serve.mjs")).arg(d.join("wasm/wasm32-unknown-unknown/release/wasm_build.wasm"));
        v.push(start("wasm32", wasm));
    }
    v
}
thread_local! {
    static OTHERS: RefCell<Vec<Other>> = RefCell::new(others());
}

/// runs a history in all builds and compares what they observe at every step
fn compare(ctx: &mut Ctx, script: &[u32]) {
    compare_with(ctx, script, false)
}
/// a 32-bit build may take a `damaged` file that a 64-bit one refuses: it ignores the upper half of numbers that could
/// only be used by longer recordings than it can hold. It must do no harm all the same.
fn compare_with(ctx: &mut Ctx, script: &[u32], damaged: bool) {
    let steps = steps(script);
    for (op, a) in &steps {
        ctx.op(|| format!("{} {a:?}", NAMES[*op as usize]));
    }
    let mut mine: Vec<u64> = vec![];
    let done = guarded(|| run(script, |x| mine.push(x)));
    let mut text: Vec<String> = mine.iter().map(|x| format!("{x:x}")).collect();
    if done.is_err() {
        text.push("panic".into());
    }
    ctx.state(script.iter().fold(H::new(30), |mut h, &x| {
        h.add(x as u64);
        h
    }).get());
    let line = script.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") + "\n";
    let wrong = OTHERS.with(|o| {
        let mut o = o.borrow_mut();
        // all of them at once
        for b in o.iter_mut() {
            b.input.write_all(line.as_bytes()).and_then(|_| b.input.flush()).expect("the other build takes a history");
        }
        let mut wrong = None;
        for b in o.iter_mut() {
            let mut answer = String::new();
            b.output.read_line(&mut answer).expect("the other build answers");
            assert!(!answer.is_empty(), "the {} build ended", b.name);
            let theirs: Vec<&str> = answer.split_whitespace().collect();
            if theirs != text && wrong.is_none() {
                let k = (0..).find(|&k| theirs.get(k).copied() != text.get(k).map(|s| s.as_str())).unwrap();
                let refused_here = steps.get(k).is_some_and(|s| s.0 == LOAD) && text.get(k).is_some_and(|s| s == "0");
                if damaged && b.name == "wasm32" && refused_here && theirs.len() == steps.len() && !theirs.contains(&"panic") {
                    continue;
                }
                let what = steps.get(k).map(|(op, a)| format!("{} {a:?}", NAMES[*op as usize])).unwrap_or_default();
                wrong = Some(format!(
                    "step {k}, {what}: {:?} in the {} build, {:?} in the build with checks{}",
                    theirs.get(k),
                    b.name,
                    text.get(k),
                    done.as_ref().err().map(|e| format!(" ({e})")).unwrap_or_default()
                ));
            }
        }
        wrong
    });
    if let Some(w) = wrong {
        ctx.fail(w);
    }
    ctx.outcome(mine.iter().fold(H::new(1), |mut h, &x| {
        h.add(x);
        h
    }).get());
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    v.push(job("all builds are there", |ctx| {
        let failed = builds_dir().join("wasm.failed");
        if let Ok(log) = std::fs::read_to_string(&failed) {
            let error = log.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; ");
            ctx.fail(format!("the crate does not compile for wasm32-unknown-unknown: {error}"));
        }
        OTHERS.with(|o| assert_eq!(o.borrow().len(), 2));
        ctx.op(|| "builds".into());
        ctx.ok(if cfg!(debug_assertions) { Ok(()) } else { Err("built without checks".into()) });
    }));
    for level in 0..=10 {
        v.push(job(format!("recordings at level {level}"), move |ctx| {
            let s = recordings(ctx, level);
            compare(ctx, &s);
        }));
    }
    let depth = tier.pick(5, 6);
    for ch in [1u32, 2] {
        v.push(job(format!("all sequences of {depth} calls, {ch} channels"), move |ctx| {
            let s = sequences(ctx, ch, depth);
            compare(ctx, &s);
        }));
    }
    // ---------------------------------------------------------------- files
    for (name, script, len) in [
        ("adhoc file", vec![NEW, 8000, 1, 0, ENCODE, 1, 6, ENCODE, 0, 4, SAVE], 420u32),
        ("stereo adhoc file", vec![NEW, 44100, 2, 3, ENCODE, 0, 9, ENCODE, 1, 3, ENCODE, 1, 2, SAVE], 600),
    ] {
        let whole = script.clone();
        v.push(job(format!("{name}, every byte changed"), move |ctx| {
            let at = ctx.choose(len as usize) as u32;
            let to = *ctx.pick(if tier.thorough() { &[0u32, 1, 2, 16, 127, 128, 254, 255][..] } else { &[0, 1, 128, 255] });
            let mut s = whole.clone();
            s.extend([CHANGE, at, to, LOAD, LOOK, DRAIN, 10, SEEK, 1, 0, DECODE, 3, 2, SEEK, u32::MAX, 5, DRAIN, 5, SAVE]);
            compare_with(ctx, &s, true);
        }));
        v.push(job(format!("{name}, cut everywhere"), move |ctx| {
            let mut s = script.clone();
            s.extend([CUT, ctx.choose(len as usize) as u32, LOAD, LOOK, DRAIN, 10]);
            compare(ctx, &s);
        }));
    }
    v.push(job("wav files of others", move |ctx| {
        let s = foreign(ctx);
        compare(ctx, &s);
    }));
    v.push(job("wav streams", move |ctx| {
        let s = wav_streams(ctx);
        compare(ctx, &s);
    }));
    // ---------------------------------------------------------------- positions and sizes
    v.push(job("seeks near every power of two", move |ctx| {
        let ch = *ctx.pick(&[1u32, 2]);
        let rate = *ctx.pick(&[1u32, 8000, 44100, 192000, u32::MAX]);
        let bit = ctx.choose(64) as u32;
        let t = (1u64 << bit).wrapping_add(*ctx.pick(&[0u64, u64::MAX, 1, 999]));
        let s = vec![NEW, rate, ch, 0, ENCODE, 0, 300, ENCODE, 1, 50, INIT, SEEK, t as u32, (t >> 32) as u32, DRAIN, 60, TO_WAV, 1, INIT, TO_WAV, 9, WAV_SEEK, 0, t as u32, (t >> 32) as u32, WAV_DRAIN, 50];
        compare(ctx, &s);
    }));
    v.push(job("large recordings", move |ctx| {
        let s = large(ctx);
        compare(ctx, &s);
    }));
    v.push(job("streams of up to 2^32 bits and more", move |ctx| {
        let words = *ctx.pick(&[(1u32 << 25) - 100, (1 << 25) - 15, (1 << 25) + 5]);
        compare(ctx, &[NEW, 44100, 2, 0, ENCODE, 1, 90, SAVE, LOAD_LONG, words, DECODE, 50, 3, SEEK, 1, 0, DRAIN, 70]);
    }));
    if tier.thorough() {
        v.push(job("a recording of more than 2^29 bits", move |ctx| {
            let sig = *ctx.pick(&[1u32, 6]);
            compare(ctx, &[NEW, 44100, 1, 0, ENCODE_LONG, sig, 1 << 20, 40, LOOK, INIT, SEEK, 900_000, 0, DECODE, 1000, 3, SEEK, 930_000, 0, DECODE, 1000, 3, SAVE, LOAD, LOOK, SEEK, 931_000, 0, DRAIN, 4096]);
        }));
    }
    // ---------------------------------------------------------------- the command line tool
    v.push(job("command line", move |ctx| {
        static SCRATCH: AtomicU64 = AtomicU64::new(0);
        let dir = std::env::temp_dir().join(format!("mc-c30-{}-{}", std::process::id(), SCRATCH.fetch_add(1, Ordering::Relaxed)));
        let level = *ctx.pick(&["0", "3", "5", "10", "77", "x"]);
        let sig = *ctx.pick(&[Sig::Loud, Sig::Sine, Sig::Wild]);
        let ch = *ctx.pick(&[1usize, 2, 1100]);
        let blocks = if ch > 2 { 40 } else { 1100 };
        let tools = [std::env::var("MC_CLI").expect("MC_CLI names the tool"), builds_dir().join("cli/release/adhoc_audio").display().to_string()];
        let mut w = WavCodec::new(StreamInfo::new(22050, ch as u32));
        w.encode(&signal(sig, blocks, ch));
        let wav = save_wav(&w);
        let mut c = adhoc(8000, ch, 6);
        Streamable::encode(&mut c, &signal(sig, blocks - 7, ch));
        let adhoc_file = save(&c);
        std::fs::create_dir_all(dir.join("in")).unwrap();
        for (name, b) in [("a.wav", &wav[..]), ("b.adhoc", &adhoc_file[..]), ("c.adhoc", &adhoc_file[..adhoc_file.len() - 9]), ("d.wav", &wav[..21]), ("e.wav", &adhoc_file[..])] {
            std::fs::write(dir.join("in").join(name), b).unwrap();
        }
        let mut results = vec![];
        for (k, tool) in tools.iter().enumerate() {
            let out = dir.join(format!("out{k}"));
            std::fs::create_dir(&out).unwrap();
            ctx.op(|| format!("{tool} -l {level}, {sig:?} in {ch} channels"));
            let mut command = Command::new(tool);
            command.args(["a.wav", "b.adhoc", "c.adhoc", "d.wav", "e.wav"].map(|n| dir.join("in").join(n))).arg("-o").arg(&out).args(["-c", level]);
            command.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            let status = command.status().expect("the tool runs").code();
            let mut files: Vec<(String, Vec<u8>)> =
                std::fs::read_dir(&out).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap())).collect();
            files.sort();
            results.push((status, files));
        }
        std::fs::remove_dir_all(&dir).unwrap();
        ctx.ensure(results[0].1.len() >= 2, || format!("{} files were written", results[0].1.len()));
        ctx.ensure(results[0] == results[1], || {
            let show = |r: &(Option<i32>, Vec<(String, Vec<u8>)>)| format!("status {:?}, {:?}", r.0, r.1.iter().map(|(n, b)| format!("{n}: {} bytes {:x}", b.len(), H::new(0).bytes(b).get())).collect::<Vec<_>>());
            format!("the tool with checks: {}; for release: {}", show(&results[0]), show(&results[1]))
        });
        ctx.outcome(H::new(3).bytes(&results[0].1[0].1).get());
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C30",
        "model_checking",
        "a state is a history of calls; a transition is a call made in every build; an outcome is the trace of all results",
        jobs,
    ).stuck(240))
}
