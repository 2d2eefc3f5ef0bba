//! C14: the command line converts each file on its own, correctly, under the right name
use mc::*;
use std::{
    collections::{BTreeMap, HashMap},
    ffi::{OsStr, OsString},
    fs,
    os::unix::ffi::{OsStrExt, OsStringExt},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Wav,
    Adhoc,
    /// nothing may come of it
    Nothing,
}
/// names in this check stand for names of bytes: a currency sign for a byte that is not UTF-8
fn os(name: &str) -> OsString {
    let mut v = vec![];
    for c in name.chars() {
        match c {
            '¤' => v.push(0xe9),
            c => v.extend(c.to_string().bytes()),
        }
    }
    OsString::from_vec(v)
}
fn shown(name: &OsStr) -> String {
    name.as_bytes().utf8_chunks().map(|c| format!("{}{}", c.valid(), "¤".repeat(c.invalid().len()))).collect()
}
/// an input of the menu
struct In {
    /// path relative to the scratch directory
    path: &'static str,
    /// name of the output, if there is one
    out: Option<&'static str>,
    kind: Kind,
    bytes: Option<Vec<u8>>,
    /// large in one direction; not combined with everything else
    large: bool,
}

fn wav(rate: u32, ch: usize, sig: Sig, n: usize) -> Vec<u8> {
    let pcm: Vec<i16> = signal(sig, n, ch).iter().map(|&x| quant(x)).collect();
    riff::file(&[riff::fmt_chunk(16, 1, ch as u16, rate, 16), riff::chunk(b"data", &riff::pcm16(&pcm))])
}
fn adhoc_bytes(rate: u32, ch: usize, level: u32, sig: Sig, sizes: &[usize]) -> Vec<u8> {
    let mut c = adhoc(rate, ch, level);
    for x in Spec::new(rate, ch, level, sig, sizes).calls() {
        Streamable::encode(&mut c, &x);
    }
    save(&c)
}

fn inputs() -> &'static Vec<In> {
    static I: OnceLock<Vec<In>> = OnceLock::new();
    I.get_or_init(|| {
        let mut v = vec![];
        let mut add = |path, out, kind, bytes| v.push(In { path, out, kind, bytes, large: false });
        use Kind::*;
        add("in/stereo.wav", Some("stereo.adhoc"), Wav, Some(wav(44100, 2, Sig::Loud, 1300)));
        add("in/voice.adhoc", Some("voice.wav"), Adhoc, Some(adhoc_bytes(44100, 2, 0, Sig::Loud, &[700, 5, 600])));
        add("in/my.song.v2.wav", Some("my.song.v2.adhoc"), Wav, Some(wav(8000, 1, Sig::Sine, 100)));
        add("in/my.song.adhoc", Some("my.song.wav"), Adhoc, Some(adhoc_bytes(8000, 1, 7, Sig::Sine, &[64, 64])));
        add("in/empty.wav", Some("empty.adhoc"), Wav, Some(wav(8000, 1, Sig::Loud, 0)));
        add("in/empty2.adhoc", Some("empty2.wav"), Adhoc, Some(adhoc_bytes(8000, 2, 3, Sig::Loud, &[])));
        add("in/six.wav", Some("six.adhoc"), Wav, Some(wav(96000, 6, Sig::Ramp, 400)));
        add("in/three.adhoc", Some("three.wav"), Adhoc, Some(adhoc_bytes(22050, 3, 10, Sig::Burst, &[350, 350])));
        add("in/broken.wav", None, Nothing, Some(b"this is no wav file, although it is called one; long enough to fill a header".repeat(5)));
        add("in/broken.adhoc", None, Nothing, Some(vec![0xff; 400]));
        add("in/cut.adhoc", None, Nothing, Some({
            let b = adhoc_bytes(44100, 2, 0, Sig::Loud, &[700]);
            b[..b.len() - 40].to_vec()
        }));
        add("in/missing.wav", None, Nothing, None);
        add("in/notes.txt", None, Nothing, Some(wav(8000, 1, Sig::Sine, 300)));
        add("in/wav", None, Nothing, Some(wav(8000, 1, Sig::Sine, 300)));
        add("in/adhoc.d/tone.1", None, Nothing, Some(adhoc_bytes(8000, 1, 0, Sig::Sine, &[300])));
        add("in/adhoc.d/same.wav", Some("same.adhoc"), Wav, Some(wav(11025, 1, Sig::Wild, 257)));
        add("in/a.adhoc.wav", Some("a.adhoc.adhoc"), Wav, Some(wav(11025, 2, Sig::Square, 65)));
        add("in/b.wav.adhoc", Some("b.wav.wav"), Adhoc, Some(adhoc_bytes(11025, 2, 5, Sig::Square, &[65])));
        add("in/two words.wav", Some("two words.adhoc"), Wav, Some(wav(8000, 1, Sig::Quiet, 1025)));
        add("in/short.wav", Some("short.adhoc"), Wav, Some(wav(8000, 2, Sig::Loud, 1)));
        add("in/float.wav", None, Nothing, Some(riff::file(&[riff::fmt_chunk(16, 3, 1, 8000, 32), riff::chunk(b"data", &[0; 400])])));
        add("in/many.wav", Some("many.adhoc"), Wav, Some(wav(8000, 1025, Sig::Ramp, 3)));
        add("in/many2.adhoc", Some("many2.wav"), Adhoc, Some(adhoc_bytes(8000, 1500, 0, Sig::Ramp, &[4])));
        add("in/bytes.wav", Some("bytes.adhoc"), Wav, Some(riff::file(&[
            riff::chunk(b"LIST", b"data"),
            riff::fmt_chunk(18, 1, 1, 8000, 8),
            riff::chunk(b"data", &(0..=255).collect::<Vec<u8>>()),
        ])));
        add("in/caf¤.wav", Some("caf¤.adhoc"), Wav, Some(wav(8000, 2, Sig::Loud, 55)));
        add("in/¤¤.adhoc", Some("¤¤.wav"), Adhoc, Some(adhoc_bytes(8000, 1, 2, Sig::Sine, &[30, 4])));
        add("in/.wav", None, Nothing, Some(wav(8000, 1, Sig::Sine, 30)));
        add("in/tone.¤wav", None, Nothing, Some(wav(8000, 1, Sig::Sine, 30)));
        add("in/¤.wav", None, Nothing, None);
        add("in/naïve 音.wav", Some("naïve 音.adhoc"), Wav, Some(wav(8000, 1, Sig::Burst, 30)));
        let mut add = |path, out, kind, bytes| v.push(In { path, out, kind, bytes: Some(bytes), large: true });
        // names with dots, repeated extensions, spaces, of the greatest length
        add("in/take.wav.old.wav", Some("take.wav.old.adhoc"), Wav, wav(8000, 1, Sig::Sine, 40));
        add("in/x.adhoc.v2.adhoc", Some("x.adhoc.v2.wav"), Adhoc, adhoc_bytes(8000, 1, 3, Sig::Sine, &[40]));
        add("in/r.wav.wav", Some("r.wav.adhoc"), Wav, wav(8000, 2, Sig::Loud, 40));
        add("in/r.adhoc.adhoc", Some("r.adhoc.wav"), Adhoc, adhoc_bytes(8000, 2, 0, Sig::Loud, &[40]));
        add("in/ends..wav", Some("ends..adhoc"), Wav, wav(8000, 1, Sig::Ramp, 40));
        add("in/.hidden.wav", Some(".hidden.adhoc"), Wav, wav(8000, 1, Sig::Ramp, 41));
        add("in/.adhoc.wav", Some(".adhoc.adhoc"), Wav, wav(8000, 1, Sig::Ramp, 42));
        add("in/..adhoc", Some("..wav"), Adhoc, adhoc_bytes(8000, 1, 0, Sig::Ramp, &[43]));
        add("in/ lead and trail .wav", Some(" lead and trail .adhoc"), Wav, wav(8000, 1, Sig::Burst, 44));
        add("in/100%d\\n*?.wav", Some("100%d\\n*?.adhoc"), Wav, wav(8000, 1, Sig::Burst, 45));
        let long: &'static str = Box::leak(format!("in/{}.wav", "n".repeat(249)).into_boxed_str());
        let name: &'static str = Box::leak(format!("{}.adhoc", "n".repeat(249)).into_boxed_str());
        add(long, Some(name), Wav, wav(8000, 1, Sig::Burst, 46));
        // an input that is a link; one whose output's name is taken by a directory
        add("in/link.wav", Some("link.adhoc"), Wav, wav(8000, 2, Sig::Wild, 47));
        add("in/link.adhoc", Some("link.wav"), Adhoc, adhoc_bytes(8000, 2, 2, Sig::Wild, &[48]));
        v.push(In { path: "in/blocked.wav", out: None, kind: Nothing, bytes: Some(wav(8000, 1, Sig::Sine, 49)), large: true });
        v.push(In { path: "in/blocked.adhoc", out: None, kind: Nothing, bytes: Some(adhoc_bytes(8000, 1, 0, Sig::Sine, &[49])), large: true });
        // inputs that are directories
        v.push(In { path: "in/folder.wav", out: None, kind: Nothing, bytes: None, large: true });
        v.push(In { path: "in/folder.adhoc", out: None, kind: Nothing, bytes: None, large: true });
        v.push(In { path: "in/stereo.wav/", out: None, kind: Nothing, bytes: None, large: true });
        let mut add = |path, out, kind, bytes| v.push(In { path, out, kind, bytes: Some(bytes), large: true });
        add("in/w40000.wav", Some("w40000.adhoc"), Wav, wav(8000, 40_000, Sig::Ramp, 2));
        add("in/w65535.wav", Some("w65535.adhoc"), Wav, wav(22050, 65_535, Sig::Loud, 3));
        add("in/w32768.adhoc", Some("w32768.wav"), Adhoc, adhoc_bytes(8000, 32_768, 0, Sig::Ramp, &[1, 2]));
        // more channels than a wav file can have
        v.push(In { path: "in/w70000.adhoc", out: None, kind: Nothing, bytes: Some(adhoc_bytes(16000, 70_000, 0, Sig::Loud, &[2])), large: true });
        let mut add = |path, out, kind, bytes| v.push(In { path, out, kind, bytes: Some(bytes), large: true });
        add("in/w65535.adhoc", Some("w65535.wav"), Adhoc, adhoc_bytes(16000, 65_535, 0, Sig::Loud, &[2]));
        add("in/minutes.wav", Some("minutes.adhoc"), Wav, wav(44100, 1, Sig::Loud, 9_000_011));
        add("in/minutes2.wav", Some("minutes2.adhoc"), Wav, wav(44100, 2, Sig::Wild, 2_500_000));
        add("in/minutes8.wav", Some("minutes8.adhoc"), Wav, riff::file(&[
            riff::fmt_chunk(16, 1, 2, 11025, 8),
            riff::chunk(b"data", &(0..3_000_002u32).map(|k| (k * 7 + k / 256) as u8).collect::<Vec<u8>>()),
        ]));
        add("in/minutes.adhoc", Some("minutes.wav"), Adhoc, adhoc_bytes(44100, 1, 4, Sig::Loud, &vec![65_535; 140]));
        add("in/frames.adhoc", Some("frames.wav"), Adhoc, adhoc_bytes(44100, 2, 4, Sig::Loud, &vec![3; 70_001]));
        add("in/fast.wav", Some("fast.adhoc"), Wav, wav(4_000_000_000, 1, Sig::Loud, 70_000));
        add("in/fast.adhoc", Some("fast.wav"), Adhoc, adhoc_bytes(2_147_483_647, 1, 4, Sig::Loud, &[60_000, 9]));
        v
    })
}

/// other files that must survive untouched
const OTHERS: [(&str, &[u8]); 10] = [
    ("out/blocked.adhoc/kept", b"in a directory named like an output"),
    ("out/blocked.wav/kept", b"in another"),
    ("in/folder.wav/kept", b"a directory named like a file"),
    ("in/folder.adhoc/stereo.wav", b"another"),
    ("bystander.wav", b"not an input"),
    ("in/bystander.adhoc", b"not an input either"),
    ("in/stereo.adhoc", b"beside the input, not in the output directory"),
    ("out/bystander.wav", b"already here"),
    ("out/stereo", b"a file named like the stem"),
    ("other/stereo.adhoc", b"elsewhere"),
];

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-c14-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        for d in ["in/adhoc.d", "in/folder.wav", "in/folder.adhoc", "out/blocked.wav", "out/blocked.adhoc", "other", "o¤t"] {
            fs::create_dir_all(p.join(os(d))).expect("scratch directory");
        }
        std::os::unix::fs::symlink("out", p.join("linked")).expect("link");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn snapshot(root: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(d: &Path, root: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in fs::read_dir(d).expect("scratch directory") {
            let p = e.expect("entry").path();
            if p.is_dir() && p.is_symlink() {
                continue;
            }
            if p.is_dir() {
                walk(&p, root, m);
            } else {
                let name = shown(p.strip_prefix(root).unwrap().as_os_str());
                m.insert(name, fs::read(&p).expect("file in scratch"));
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(root, root, &mut m);
    m
}

/// how the tool is called
struct Call<'a> {
    files: &'a [usize],
    level: &'a [&'a str],
    want_level: u32,
    out: &'a [&'a str],
    out_dir: Option<&'a str>,
    threads: &'a str,
    absolute: bool,
    stale: bool,
}

/// what one input became when it was converted alone
type Alone = Arc<Mutex<HashMap<(usize, u32), Vec<u8>>>>;

fn run(ctx: &mut Ctx, call: &Call, alone: &Alone) {
    let s = Scratch::new();
    let root = &s.0;
    for (k, i) in inputs().iter().enumerate() {
        if let (Some(b), true) = (&i.bytes, !i.large || call.files.contains(&k)) {
            if i.path.starts_with("in/link") {
                let real = root.join(i.path.replace("in/link.", "other/real"));
                fs::write(&real, b).expect("input");
                std::os::unix::fs::symlink(&real, root.join(i.path)).expect("link");
            } else {
                fs::write(root.join(os(i.path)), b).expect("input");
            }
        }
    }
    for (p, b) in OTHERS {
        fs::write(root.join(p), b).expect("bystander");
    }
    // an older output, longer than the new one, is replaced
    if let (true, Some(d)) = (call.stale, call.out_dir) {
        for &f in call.files {
            let i = &inputs()[f];
            if let Some(o) = i.out {
                fs::write(root.join(os(d)).join(os(o)), vec![0xee; 70_000]).expect("old output");
            } else {
                // and whatever is called like the output that an unusable input does not have stays
                for ext in ["wav", "adhoc"] {
                    let p = root.join(os(d)).join(Path::new(&os(i.path)).with_extension(ext).file_name().unwrap());
                    if !p.exists() && !inputs().iter().any(|i| i.out.is_some_and(|o| p.ends_with(os(o)))) {
                        fs::write(p, b"no output of this run").expect("old file");
                    }
                }
            }
        }
    }
    let before = snapshot(root);
    let cli = std::env::var("MC_CLI").expect("MC_CLI names the tool");
    let mut cmd = Command::new(&cli);
    cmd.current_dir(root).env_clear().env("RAYON_NUM_THREADS", call.threads).env("RUST_BACKTRACE", "0");
    let args: Vec<OsString> = call
        .files
        .iter()
        .map(|&f| {
            let p = os(inputs()[f].path);
            if call.absolute {
                root.join(p).into_os_string()
            } else {
                p
            }
        })
        .collect();
    cmd.args(&args).args(call.level.iter().map(|a| os(a))).args(call.out.iter().map(|a| os(a)));
    let names: Vec<String> = args.iter().map(|a| shown(a)).collect();
    ctx.op(|| format!("{} threads: adhoc_audio {} {} {}", call.threads, names.join(" "), call.level.join(" "), call.out.join(" ")));
    let mut ch = cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("the tool starts");
    let t = Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        if t.elapsed().as_secs() > 60 {
            let _ = ch.kill();
            let _ = ch.wait();
            ctx.fail("the tool does not end within 60 s".into());
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let after = snapshot(root);
    let what = || format!("{names:?} {:?} {:?} on {} threads", call.level, call.out, call.threads);
    ctx.ensure(status.success(), || format!("{}: ended with {status}", what()));
    let mut made = BTreeMap::new();
    for (name, b) in &after {
        if before.get(name) == Some(b) {
            continue;
        }
        let f = call.out_dir.and_then(|d| {
            call.files.iter().copied().find(|&f| inputs()[f].out.map(|o| if d == "." { o.to_string() } else { format!("{d}/{o}") }).as_deref() == Some(name))
        });
        match f {
            Some(f) => {
                made.insert(f, b.clone());
            }
            None => ctx.fail(format!("{}: {} '{name}'", what(), if before.contains_key(name) { "changed" } else { "unexpected file" })),
        }
    }
    for name in before.keys() {
        ctx.ensure(after.contains_key(name), || format!("{}: removed '{name}'", what()));
    }
    let mut h = H::new(call.want_level as u64);
    for &f in call.files {
        let i = &inputs()[f];
        let Some(out) = i.out else { continue };
        if call.out_dir.is_none() {
            continue;
        }
        let Some(b) = made.get(&f) else { ctx.fail(format!("{}: no output '{out}' for '{}'", what(), i.path)) };
        judge(ctx, i, call.want_level, b, &what());
        h.add(f as u64).bytes(b);
        // the same bytes however it is called
        let key = (f, if i.kind == Kind::Wav { call.want_level } else { 0 });
        let mut a = alone.lock().unwrap();
        match a.get(&key) {
            Some(x) if x == b => {}
            Some(x) => {
                let (n, m) = (x.len(), b.len());
                drop(a);
                ctx.fail(format!("{}: '{out}' has {m} bytes that differ from the {n} of another call", what()))
            }
            None => {
                a.insert(key, b.clone());
            }
        }
    }
    ctx.state(h.get());
    ctx.outcome(h.get());
}

fn judge(ctx: &mut Ctx, i: &In, level: u32, b: &[u8], what: &str) {
    let src = i.bytes.as_ref().unwrap();
    match i.kind {
        Kind::Wav => {
            let w = riff::parse(src).expect("input");
            let ch = w.channels as usize;
            let want: Vec<f64> = if w.bits == 16 {
                w.data.chunks(2).map(|b| i16::from_le_bytes([b[0], b[1]]) as f64 / 32767.0).collect()
            } else {
                w.data.iter().map(|&b| b as f64 / 255.0 * 2.0 - 1.0).collect()
            };
            ctx.ensure(b.len() > 4 && b[..4] == level.to_le_bytes(), || format!("{what}: '{}' is converted at level {:?}, expected {level}", i.path, b.get(..4)));
            let Some(mut c) = load(b) else { ctx.fail(format!("{what}: the output for '{}' does not load", i.path)) };
            let info = c.info();
            ctx.ensure(info.channels() == ch && info.frequency() == w.rate as usize, || format!("{what}: '{}' converted with other info", i.path));
            let got = drain(ctx, &mut c, 100 * ch, want.len());
            ctx.ensure(got.len() == want.len(), || format!("{what}: '{}' has {} samples, its output {}", i.path, want.len(), got.len()));
            // one 16-bit step for going through float, the quantization step, the dither, and 8-bit rounding
            let p = (1u32 << level) as f64;
            let bound = 1.0 / 32767.0 + if level == 0 { 0.0 } else { p / 32767.0 + 0.001 * (1.0 - 1.0 / p) } + if w.bits == 8 { 0.001 } else { 0.0 } + 1e-5;
            for k in 0..want.len() {
                ctx.ensure((got[k] as f64 - want[k]).abs() <= bound, || {
                    format!("{what}: sample {k} of '{}' is {}, its output decodes to {}", i.path, want[k], got[k])
                });
            }
        }
        Kind::Adhoc => {
            let mut c = load(src).expect("input");
            let ch = c.info().channels();
            let mut x = vec![0.0f32; 100 * ch];
            let mut want = vec![];
            while let Some(n) = c.decode(&mut x) {
                want.extend(x[..n].iter().map(|&x| quant(x)));
            }
            let w = match riff::parse(b) {
                Ok(w) => w,
                Err(e) => ctx.fail(format!("{what}: the output for '{}' is no wav: {e}", i.path)),
            };
            ctx.ensure(w.channels as usize == ch && w.rate as usize == c.info().frequency() && w.bits == 16 && w.format == 1, || {
                format!("{what}: '{}' converted with other info", i.path)
            });
            ctx.ensure(w.data == riff::pcm16(&want), || format!("{what}: the output for '{}' has {} bytes, expected {}, or other ones", i.path, w.data.len(), 2 * want.len()));
        }
        Kind::Nothing => unreachable!(),
    }
}

/// a large batch of files: channel counts, lengths around the tool's buffers and frames, rates, levels and names meet
fn batch(k: usize) -> Vec<In> {
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    (0..130usize)
        .map(|i| {
            let ch = cover::CHANNELS[(i + k) % cover::CHANNELS.len()];
            let rate = cover::RATES[(i * 3 + k) % cover::RATES.len()];
            let sig = TAME[(i * 5 + k * 2) % TAME.len()];
            if i % 2 == 0 {
                let per_buffer = 1024 / ch;
                let n = match i / 2 % 4 {
                    0 => per_buffer * (i % 7) + (k + i) % 3,
                    1 => (per_buffer * (1 + i % 5)).saturating_sub(1 + k % 2),
                    2 => cover::SHORT[(i + 7 * k) % cover::SHORT.len()],
                    _ => cover::LONG[(i + 7 * k) % cover::LONG.len()],
                };
                In { path: leak(format!("in/{k}-{i:03}.wav")), out: Some(leak(format!("{k}-{i:03}.adhoc"))), kind: Kind::Wav, bytes: Some(wav(rate, ch, sig, n)), large: true }
            } else {
                let sizes = cover::sizes(if i % 4 == 1 { &cover::SHORT } else { &cover::LONG }, i + k, 1);
                let frames = [0, 1, 2, 3, 5, 8, 13, 21, 29][(i / 4 + k) % 9];
                let level = ((i / 2 + k) % 11) as u32;
                In { path: leak(format!("in/{k}-{i:03}.adhoc")), out: Some(leak(format!("{k}-{i:03}.wav"))), kind: Kind::Adhoc, bytes: Some(adhoc_bytes(rate, ch, level, sig, &sizes[..frames])), large: true }
            }
        })
        .collect()
}

fn run_batch(ctx: &mut Ctx, files: &[In], level: u32, threads: &str) {
    let s = Scratch::new();
    let root = &s.0;
    for i in files {
        fs::write(root.join(i.path), i.bytes.as_ref().unwrap()).expect("input");
    }
    let before = snapshot(root);
    let cli = std::env::var("MC_CLI").expect("MC_CLI names the tool");
    let mut cmd = Command::new(&cli);
    cmd.current_dir(root).env_clear().env("RAYON_NUM_THREADS", threads).env("RUST_BACKTRACE", "0");
    cmd.args(files.iter().map(|i| i.path)).args(["-c", &level.to_string(), "-o", "out"]);
    ctx.op(|| format!("{threads} threads: adhoc_audio {} ... ({} files) -c {level} -o out", files[0].path, files.len()));
    let status = cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().expect("the tool starts");
    let what = format!("{} files in one call on {threads} threads", files.len());
    ctx.ensure(status.success(), || format!("{what}: ended with {status}"));
    let after = snapshot(root);
    let mut h = H::new(level as u64);
    for i in files {
        let name = format!("out/{}", i.out.unwrap());
        let Some(b) = after.get(&name) else { ctx.fail(format!("{what}: no output for '{}'", i.path)) };
        judge(ctx, i, level, b, &what);
        h.bytes(b);
    }
    ctx.ensure(before.iter().all(|(n, b)| after.get(n) == Some(b)), || format!("{what}: a file that was there changed"));
    ctx.ensure(after.len() == before.len() + files.len(), || format!("{what}: {} files more than before", after.len() - before.len()));
    ctx.state(h.get());
    ctx.outcome(h.get());
}

const LEVELS: [(&[&str], u32); 21] = [
    (&[], 5),
    (&["-c", "0"], 0),
    (&["-c", "1"], 1),
    (&["-c", "2"], 2),
    (&["-c", "3"], 3),
    (&["-c", "4"], 4),
    (&["-c", "5"], 5),
    (&["-c", "6"], 6),
    (&["-c", "7"], 7),
    (&["-c", "8"], 8),
    (&["-c", "9"], 9),
    (&["-c", "10"], 10),
    (&["-c", "11"], 10),
    (&["-c", "31"], 10),
    (&["-c", "32"], 10),
    (&["--comp-level", "4294967295"], 10),
    (&["--comp-level", "3"], 3),
    (&["-c", "loud"], 5),
    (&["-c", "3.5"], 5),
    (&["-c", ""], 5),
    (&["-c", "3¤"], 5),
];

const BASE: Call<'static> =
    Call { files: &[], level: &[], want_level: 5, out: &["-o", "out"], out_dir: Some("out"), threads: "1", absolute: false, stale: false };

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let n = inputs().iter().filter(|i| !i.large).count();
    let alone: Alone = Default::default();
    for f in 0..n {
        let a = alone.clone();
        v.push(job(format!("alone, every level: {}", inputs()[f].path), move |ctx| {
            let (level, want_level) = *ctx.pick(&LEVELS);
            let stale = ctx.flag();
            run(ctx, &Call { files: &[f], level, want_level, stale, ..BASE }, &a);
        }));
        let a = alone.clone();
        v.push(job(format!("output directories: {}", inputs()[f].path), move |ctx| {
            const OUTS: [(&[&str], Option<&str>); 10] = [
                (&["-o", "linked"], Some("out")),
                (&["-o", "out"], Some("out")),
                (&["--outdir", "out/"], Some("out")),
                (&["-o", "./other/../out"], Some("out")),
                (&[], Some(".")),
                (&["-o", "./"], Some(".")),
                (&["-o", "nowhere"], None),
                (&["-o", "o¤t"], Some("o¤t")),
                (&["-o", "¤"], None),
                (&["-o", "bystander.wav"], None),
            ];
            let (out, out_dir) = *ctx.pick(&OUTS);
            let absolute = ctx.flag();
            let threads = *ctx.pick(&["1", "8"]);
            run(ctx, &Call { files: &[f], level: &[], want_level: 5, out, out_dir, threads, absolute, stale: false }, &a);
        }));
        // with every other input, in both orders
        let a = alone.clone();
        v.push(job(format!("pairs: {} and another", inputs()[f].path), move |ctx| {
            let g = ctx.choose(n);
            if g == f {
                return;
            }
            let threads = *ctx.pick(ctx.tier.pick(&["1", "2"][..], &["1", "2", "8"][..]));
            let (level, want_level) = LEVELS[ctx.choose(ctx.tier.pick(1, 3))];
            run(ctx, &Call { files: &[f, g], threads, level, want_level, stale: threads == "2", ..BASE }, &a);
        }));
        if tier.thorough() {
            let a = alone.clone();
            v.push(job(format!("triples: {} and two others", inputs()[f].path), move |ctx| {
                let g = ctx.choose(n);
                let h = ctx.choose(n);
                if g == f || h == f || g == h {
                    return;
                }
                run(ctx, &Call { files: &[f, g, h], threads: "2", ..BASE }, &a);
            }));
        }
    }
    // everything at once: every rotation, both directions, several thread counts
    let a = alone.clone();
    v.push(job("all inputs", move |ctx| {
        let rot = ctx.choose(n);
        let mut files: Vec<usize> = (0..n).map(|k| (k + rot) % n).collect();
        if ctx.flag() {
            files.reverse();
        }
        let threads = *ctx.pick(&["1", "2", "3", "8"]);
        let (level, want_level) = LEVELS[*ctx.pick(&[0usize, 1])];
        run(ctx, &Call { files: &files, threads, level, want_level, ..BASE }, &a);
    }));
    for f in n..inputs().len() {
        let a = alone.clone();
        v.push(job(format!("large: {}", inputs()[f].path), move |ctx| {
            let (level, want_level) = LEVELS[*ctx.pick(ctx.tier.pick(&[0usize, 1][..], &[0, 1, 2, 8, 11]))];
            let threads = *ctx.pick(&["1", "8"]);
            // alone, or among small ones
            let files = if threads == "1" { vec![f] } else { vec![0, f, 1, 18] };
            run(ctx, &Call { files: &files, threads, level, want_level, stale: threads == "8", ..BASE }, &a);
        }));
    }
    let a = alone.clone();
    v.push(job("large: all of them", move |ctx| {
        let mut files: Vec<usize> = (n..inputs().len()).collect();
        if ctx.flag() {
            files.reverse();
        }
        let threads = *ctx.pick(&["1", "2", "8"]);
        run(ctx, &Call { files: &files, threads, ..BASE }, &a);
    }));
    for k in 0..tier.pick(11, 44usize) {
        v.push(job(format!("batch {k}"), move |ctx| {
            let threads = *ctx.pick(&["1", "3", "8"]);
            run_batch(ctx, &batch(k), (k % 11) as u32, threads);
        }));
    }
    // no input, one input missing everything
    let a = alone.clone();
    v.push(job("no inputs", move |ctx| {
        let threads = *ctx.pick(&["1", "8"]);
        run(ctx, &Call { threads, ..BASE }, &a);
    }));
    v
}

fn main() {
    let mut c = Check::new(
        "C14",
        "model_checking",
        "a state is the content of a scratch directory; a transition is one run of the real tool; every run's output names, contents, untouched files and exit are compared with the expected directory, and each output with the one of every other run of the same input and level",
        jobs,
    )
    .assume(&[
        "inputs of one call have different output names, and no input is another input's output",
        "the tool's threads are scheduled by the operating system; thread counts 1, 2, 3 and 8 and the input orders are enumerated, not the interleavings inside the tool",
    ]);
    c.stuck_s = 90;
    engine::main(c)
}
