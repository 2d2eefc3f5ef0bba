//! C29: work stays in proportion
//!
//! Built with a counter in every basic block (`check.sh`), and with memory moves counted by their size, so that the
//! number of steps a call takes is a deterministic observation.
use adhoc_audio::mc_hooks::{BitStream, BitVec, FixedRingBuffer, LinkedList, LruCache, NibbleList};
use mc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Cursor, SeekFrom};

std::arch::global_asm!(
    r#"
.section .tbss,"awT",@nobits
.align 8
MC_STEPS: .zero 8
.text
.globl __sanitizer_cov_trace_pc
__sanitizer_cov_trace_pc:
  inc qword ptr fs:[MC_STEPS@tpoff]
  ret
.globl mc_steps
mc_steps:
  mov rax, qword ptr fs:[MC_STEPS@tpoff]
  ret
.globl mc_add
mc_add:
  add qword ptr fs:[MC_STEPS@tpoff], rdi
  ret
.globl memcpy
memcpy:
  mov rax, rdi
  mov rcx, rdx
  shr rdx, 4
  add qword ptr fs:[MC_STEPS@tpoff], rdx
  rep movsb
  ret
.globl memmove
memmove:
  mov rax, rdi
  mov rcx, rdx
  mov r8, rdi
  sub r8, rsi
  cmp r8, rdx
  jb 2f
  shr rdx, 4
  add qword ptr fs:[MC_STEPS@tpoff], rdx
  rep movsb
  ret
2:
  lea rdi, [rdi+rdx-1]
  lea rsi, [rsi+rdx-1]
  shr rdx, 4
  add qword ptr fs:[MC_STEPS@tpoff], rdx
  std
  rep movsb
  cld
  ret
.globl memset
memset:
  mov r8, rdi
  mov eax, esi
  mov rcx, rdx
  shr rdx, 4
  add qword ptr fs:[MC_STEPS@tpoff], rdx
  rep stosb
  mov rax, r8
  ret
"#
);
extern "C" {
    fn mc_steps() -> u64;
    fn mc_add(n: u64);
}
/// growing a block copies it, and zeroed blocks are written
struct Counted;
unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        mc_add(l.size() as u64 / 16);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        mc_add(l.size().min(n) as u64 / 64);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOCATOR: Counted = Counted;
fn steps() -> u64 {
    unsafe { mc_steps() }
}

/// steps `f` takes
fn count<R>(f: impl FnOnce() -> R) -> (u64, R) {
    let a = steps();
    let r = f();
    (steps() - a, r)
}

/// `f` must take steps in proportion to its argument, from `base` on over `doublings` doublings
fn grows(ctx: &mut Ctx, what: &str, base: usize, doublings: u32, mut f: impl FnMut(usize) -> u64) {
    grow(ctx, what, &[""], base, doublings, |n| vec![f(n)]);
}
/// the same for several `parts`, measured together
fn grow(ctx: &mut Ctx, what: &str, parts: &[&str], base: usize, doublings: u32, mut f: impl FnMut(usize) -> Vec<u64>) {
    let mut t: Vec<Vec<u64>> = vec![];
    for d in 0..=doublings {
        let n = base << d;
        t.push(f(n));
        for (p, part) in parts.iter().enumerate() {
            let is = t[d as usize][p];
            ctx.op(|| format!("{part} {what}, n = {n}: {is} steps"));
            if d > 0 {
                let was = t[d as usize - 1][p];
                ctx.ensure(is <= was * 14 / 5 + 3000, || format!("{part} {what}: {was} steps for n = {}, {is} for n = {n}", n / 2));
            }
            ctx.state(H::new(is).bytes(what.as_bytes()).bytes(part.as_bytes()).add(n as u64).get());
        }
    }
    for (p, part) in parts.iter().enumerate() {
        // over several doublings, from where buffers no longer fit in what was reserved at first
        let from = doublings / 2;
        let (first, last) = (t[from as usize][p], t[doublings as usize][p]);
        ctx.ensure(last <= (first << (doublings - from)) * 7 / 4 + 3000, || format!("{part} {what}: {first} steps for n = {}, {last} for n = {}", base << from, base << doublings));
        ctx.outcome(last);
    }
}

const CONTENT: [Sig; 4] = [Sig::Sine, Sig::Loud, Sig::Square, Sig::Silence];

/// `n` calls of `b` blocks of one periodic signal
fn record(c: &mut AdhocCodec, sig: Sig, n: usize, b: usize, ch: usize) -> u64 {
    let x = signal(sig, b * 16, ch);
    let (t, _) = count(|| {
        for k in 0..n {
            let at = k % 16 * b * ch;
            Streamable::encode(c, &x[at..at + b * ch]);
        }
    });
    t
}
fn recorded(sig: Sig, n: usize, b: usize, ch: usize, level: u32) -> AdhocCodec {
    let mut c = adhoc(8000, ch, level);
    record(&mut c, sig, n, b, ch);
    c.init();
    c
}
/// decodes until nothing is left
fn play<S: Streamable>(c: &mut S, b: &mut [f32]) -> (u64, usize) {
    count(|| {
        let mut n = 0;
        while let Some(k) = c.decode(b) {
            n += k;
        }
        n
    })
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    let more = tier.pick(0, 2);
    v.push(job("the counter counts", |ctx| {
        let x = std::hint::black_box(vec![1u32; 1000]);
        let (t, s) = count(|| x.iter().fold(1u32, |a, &b| std::hint::black_box(a.wrapping_mul(3) ^ b)));
        assert!(t >= 100 && s != 0, "the check is built without its counter");
        let (t, _) = count(|| std::hint::black_box(&x).to_vec());
        assert!(t >= 100, "copies are not counted");
        ctx.op(|| "counter".into());
    }));
    // ---------------------------------------------------------------- adhoc
    v.push(job("encode: number of calls", move |ctx| {
        let ch = *ctx.pick(&[1usize, 2, 5]);
        let b = *ctx.pick(&[1usize, 2, 3, 17, 128]);
        let level = *ctx.pick(&[0u32, 5]);
        let sig = *ctx.pick(&CONTENT);
        grows(ctx, &format!("encode n calls of {b} blocks of {sig:?} in {ch} channels at level {level}"), 250, 5 + more, |n| {
            record(&mut adhoc(8000, ch, level), sig, n, b, ch)
        });
    }));
    v.push(job("encode: size of the call", move |ctx| {
        let ch = *ctx.pick(&[1usize, 2, 7]);
        let level = *ctx.pick(&[0u32, 10]);
        let sig = *ctx.pick(&CONTENT);
        grows(ctx, &format!("encode one call of n blocks of {sig:?} in {ch} channels at level {level}"), 4096, 5 + more, |n| {
            let x = signal(sig, n, ch);
            let mut c = adhoc(8000, ch, level);
            count(|| Streamable::encode(&mut c, &x)).0
        });
    }));
    v.push(job("encode: number of channels", move |ctx| {
        let b = *ctx.pick(&[1usize, 4, 100]);
        let sig = *ctx.pick(&CONTENT);
        grows(ctx, &format!("encode 8 calls of {b} blocks of {sig:?} in n channels"), 16, 6 + more, |n| record(&mut adhoc(8000, n, 0), sig, 8, b, n));
    }));
    v.push(job("record again", move |ctx| {
        let ch = *ctx.pick(&[1usize, 2]);
        let sig = *ctx.pick(&CONTENT);
        let saved = ctx.flag();
        grows(ctx, &format!("record {sig:?} in {ch} channels again n times, saved={saved}"), 20, 5 + more, |n| {
            let mut c = adhoc(8000, ch, 0);
            let mut t = 0;
            for _ in 0..n {
                t += record(&mut c, sig, 5, 40, ch);
                if saved {
                    t += count(|| save(&c)).0;
                }
                t += count(|| c.init()).0;
            }
            t
        });
    }));
    v.push(job("large, then small", move |ctx| {
        // what was large once does not make everything after it cost as much
        let ch = *ctx.pick(&[1usize, 2, 5]);
        let b = *ctx.pick(&[1usize, 3]);
        let again = ctx.flag();
        let sig = *ctx.pick(&CONTENT);
        const PARTS: [&str; 7] = ["encode small calls", "decode small frames", "save", "load", "seek", "count and bound", "rewind"];
        let base = 500;
        grow(ctx, &format!("(n of {b} blocks of {sig:?} in {ch} channels after one of n, again={again})"), &PARTS, base, 5 + more, |n| {
            let mut c = adhoc(8000, ch, 1);
            record(&mut c, sig, 1, n, ch);
            if again {
                c.init();
                let encoding = record(&mut c, sig, n, b, ch);
                c.init();
                let mut out = vec![0.0; ch];
                let decoding = play(&mut c, &mut out).0;
                // and n times on a short recording
                c.init();
                record(&mut c, sig, 2, b, ch);
                let times = n / 4;
                let mut t = vec![encoding, decoding];
                t.push(count(|| (0..times).map(|_| save(&c).len()).sum::<usize>()).0);
                let f = save(&c);
                t.push(count(|| (0..times).filter(|_| load(&f).is_some()).count()).0);
                t.push(count(|| (0..times).for_each(|k| c.seek(SeekFrom::Start(k as u64 % 2)))).0);
                t.push(count(|| (0..times).map(|_| c.calculate_sample_count_per_channel() + Streamable::filesize_upperbound(&c)).sum::<u64>()).0);
                t.push(count(|| (0..times).for_each(|_| c.init())).0);
                return t;
            }
            let encoding = record(&mut c, sig, n, b, ch);
            c.init();
            let mut out = vec![0.0; n * ch];
            let mut one = vec![0.0; ch];
            let first = count(|| c.decode_one(&mut out)).0;
            let decoding = first + play(&mut c, &mut one).0;
            vec![encoding, decoding, 0, 0, 0, 0, 0]
        });
    }));
    v.push(job("decode: number of frames", move |ctx| {
        let ch = *ctx.pick(&[1usize, 2, 5]);
        let b = *ctx.pick(&[1usize, 3, 64]);
        let buf = *ctx.pick(&[1usize, 7, 1000, 1 << 20]);
        let sig = *ctx.pick(&CONTENT);
        grows(ctx, &format!("decode n frames of {b} blocks of {sig:?} in {ch} channels by {buf}"), 250, 5 + more, |n| {
            let mut c = recorded(sig, n, b, ch, 3);
            let mut out = vec![0.0; buf.min(n * b) * ch];
            let (t, k) = play(&mut c, &mut out);
            assert_eq!(k, n * b * ch);
            t
        });
    }));
    v.push(job("decode: size of the frame", move |ctx| {
        let ch = *ctx.pick(&[1usize, 3]);
        let buf = *ctx.pick(&[1usize, 128, 1 << 20]);
        let sig = *ctx.pick(&CONTENT);
        grows(ctx, &format!("decode one call of n blocks of {sig:?} in {ch} channels by {buf}"), 2048, 5 + more, |n| {
            let mut c = recorded(sig, 1, n, ch, 0);
            let mut out = vec![0.0; buf.min(n) * ch];
            let (t, k) = play(&mut c, &mut out);
            assert_eq!(k, n * ch);
            t
        });
    }));
    v.push(job("decode: number of channels", move |ctx| {
        let b = *ctx.pick(&[1usize, 50]);
        let buf = *ctx.pick(&[1usize, 64]);
        let sig = *ctx.pick(&CONTENT);
        grows(ctx, &format!("decode 8 frames of {b} blocks of {sig:?} in n channels by {buf}"), 16, 6 + more, |n| {
            let mut c = recorded(sig, 8, b, n, 0);
            let mut out = vec![0.0; buf * n];
            play(&mut c, &mut out).0
        });
    }));
    v.push(job("decode twice and after a seek", move |ctx| {
        let ch = *ctx.pick(&[1usize, 2]);
        let b = *ctx.pick(&[1usize, 64]);
        let part = *ctx.pick(&[0u64, 1, 2, 3, 4, 5]);
        grows(ctx, &format!("decode n frames of {b} blocks in {ch} channels from {part} quarters on, by one block"), 256, 5 + more, |n| {
            let mut c = recorded(Sig::Sine, n, b, ch, 0);
            let mut out = vec![0.0; ch];
            play(&mut c, &mut out);
            let ms = (n * b) as u64 * part / 4 / 8;
            let (s, _) = count(|| c.seek(SeekFrom::Start(ms)));
            s + play(&mut c, &mut out).0
        });
    }));
    v.push(job("seek", move |ctx| {
        let ch = *ctx.pick(&[1usize, 2, 5]);
        let b = *ctx.pick(&[1usize, 3, 64]);
        const PARTS: [&str; 7] = ["seek to the start", "seek to 1/4", "seek to 2/4", "seek to 3/4", "seek to the end", "seek far beyond the end", "seek back to the middle"];
        grow(ctx, &format!("of n frames of {b} blocks in {ch} channels"), &PARTS, 512, 5 + more, |n| {
            let mut c = recorded(Sig::Loud, n, b, ch, 0);
            [0, 1, 2, 3, 4, 1000, 2].iter().map(|q| count(|| c.seek(SeekFrom::Start((n * b) as u64 * q / 4 / 8))).0).collect()
        });
    }));
    v.push(job("save, load, count and bound", move |ctx| {
        let ch = *ctx.pick(&[1usize, 2, 5]);
        let b = *ctx.pick(&[1usize, 3, 64, 1000]);
        let sig = *ctx.pick(&CONTENT);
        const PARTS: [&str; 6] = ["save", "load", "count", "bound", "rewind", "drop"];
        let base = if b == 1000 { 16 } else { 128 };
        grow(ctx, &format!("n calls of {b} blocks of {sig:?} in {ch} channels"), &PARTS, base, 5 + more, |n| {
            let mut c = recorded(sig, n, b, ch, 0);
            let (saving, bytes) = count(|| save(&c));
            let (loading, l) = count(|| load(&bytes));
            assert!(l.is_some(), "a saved file loads");
            let counting = count(|| c.calculate_sample_count_per_channel()).0;
            let bounding = count(|| Streamable::filesize_upperbound(&c)).0;
            let rewinding = count(|| c.init()).0;
            vec![saving, loading, counting, bounding, rewinding, count(|| drop(c)).0]
        });
    }));
    v.push(job("save and load: number of channels", move |ctx| {
        let what = *ctx.pick(&["save", "load", "seek"]);
        grows(ctx, &format!("{what} 4 calls of 10 blocks in n channels"), 16, 6 + more, |n| {
            let mut c = recorded(Sig::Loud, 4, 10, n, 0);
            match what {
                "save" => count(|| save(&c)).0,
                "load" => {
                    let bytes = save(&c);
                    count(|| load(&bytes)).0
                }
                _ => count(|| c.seek(SeekFrom::Start(3))).0,
            }
        });
    }));
    v.push(job("calls that do little", move |ctx| {
        // on a recording of any length, n such calls cost what n times one costs
        let what = *ctx.pick(&["info", "empty encode", "no block fits", "past the end", "set again"]);
        let frames = *ctx.pick(&[10usize, 5000]);
        grows(ctx, &format!("{what} n times on {frames} frames"), 100, 5 + more, |n| {
            let mut c = adhoc(8000, 2, 0);
            record(&mut c, Sig::Sine, frames, 4, 2);
            if what == "past the end" || what == "no block fits" {
                c.init();
            }
            let mut out = [0.0; 64];
            if what == "past the end" {
                play(&mut c, &mut out);
            }
            count(|| {
                for _ in 0..n {
                    match what {
                        "info" => drop(std::hint::black_box(c.info())),
                        "empty encode" => drop(Streamable::encode(&mut c, &[0.5])),
                        "no block fits" => drop(c.decode_one(&mut out[..1])),
                        "past the end" => drop(c.decode_one(&mut out)),
                        _ => c.set_info(StreamInfo::new(8000, 2)),
                    }
                }
            })
            .0
        });
    }));
    // ---------------------------------------------------------------- wav
    v.push(job("wav", move |ctx| {
        let what = *ctx.pick(&["calls", "call", "decode", "save", "load", "load 8 bit", "overwrite", "seek", "chunks"]);
        let ch = *ctx.pick(&[1usize, 2, 5]);
        let buf = *ctx.pick(&[1usize, 100]);
        grows(ctx, &format!("wav: {what}, n in {ch} channels by {buf}"), 512, 6 + more, |n| {
            let x = signal(Sig::Loud, n, ch);
            let put = |c: &mut WavCodec| {
                for y in x.chunks(buf * ch) {
                    c.encode(y);
                }
            };
            let mut c = WavCodec::new(StreamInfo::new(8000, ch as u32));
            if what == "calls" {
                return count(|| put(&mut c)).0;
            }
            if what == "call" {
                return count(|| c.encode(&x)).0;
            }
            put(&mut c);
            let bytes = save_wav(&c);
            match what {
                "decode" => {
                    c.seek(SeekFrom::Start(0));
                    let mut out = vec![0.0; buf * ch];
                    play(&mut c, &mut out).0
                }
                "save" => count(|| save_wav(&c)).0,
                "load" => count(|| load_wav(&bytes)).0,
                "load 8 bit" => {
                    let f = riff::file(&[riff::fmt_chunk(16, 1, ch as u16, 8000, 8), riff::chunk(b"data", &bytes[44..44 + n * ch])]);
                    count(|| load_wav(&f)).0
                }
                "overwrite" => {
                    c.seek(SeekFrom::Start(0));
                    count(|| put(&mut c)).0
                }
                "seek" => count(|| {
                    c.seek(SeekFrom::Start(n as u64 / 16));
                    c.seek(SeekFrom::Current(1));
                    c.seek(SeekFrom::End(-1));
                })
                .0,
                _ => {
                    let mut chunks = vec![riff::fmt_chunk(16, 1, ch as u16, 8000, 16)];
                    chunks.extend((0..n).map(|k| riff::chunk(b"note", &vec![0; k % 9])));
                    chunks.push(riff::chunk(b"data", &[0; 20]));
                    let f = riff::file(&chunks);
                    let (t, c) = count(|| WavCodec::load(Cursor::new(&f)));
                    assert!(c.is_ok());
                    t
                }
            }
        });
    }));
    v.push(job("wav: large, then small", move |ctx| {
        let ch = *ctx.pick(&[1usize, 2, 5]);
        const PARTS: [&str; 3] = ["encode small calls", "decode small calls", "seek"];
        grow(ctx, &format!("(n in {ch} channels after one of n)"), &PARTS, 500, 6 + more, |n| {
            let x = signal(Sig::Loud, n, ch);
            let mut c = WavCodec::new(StreamInfo::new(8000, ch as u32));
            c.encode(&x);
            let encoding = count(|| x.chunks(ch).for_each(|y| drop(c.encode(y)))).0;
            c.seek(SeekFrom::Start(0));
            let mut out = vec![0.0; n * ch];
            c.decode(&mut out);
            let decoding = play(&mut c, &mut out[..ch]).0;
            let seeking = count(|| (0..n).for_each(|k| c.seek(SeekFrom::Start(k as u64)))).0;
            vec![encoding, decoding, seeking]
        });
    }));
    // ---------------------------------------------------------------- the structures underneath
    v.push(job("bit stream", move |ctx| {
        let what = *ctx.pick(&["fields", "bits", "rice"]);
        let width = *ctx.pick(&[1usize, 7, 8, 64, 127, 128]);
        let reading = ctx.flag();
        grows(ctx, &format!("bit stream: {what} of {width}, reading={reading}"), 1000, 6 + more, |n| {
            let mut s = BitStream::new();
            let (w, _) = count(|| {
                for k in 0..n {
                    match what {
                        "fields" => s.write_bits(k as u128 & (!0u128 >> (128 - width)), width),
                        "bits" => s.write_bit(k as u8 & 1),
                        _ => s.write_compressed(width as i16 % 15, (k % 1000) as i16 - 500),
                    }
                }
            });
            if !reading {
                return w;
            }
            s.seek_start();
            count(|| {
                let mut x = 0;
                for _ in 0..n {
                    x ^= match what {
                        "fields" => s.read_bits(width),
                        "bits" => s.read_bit(),
                        _ => s.read_compressed(width as i16 % 15) as u128,
                    };
                }
                std::hint::black_box(x)
            })
            .0
        });
    }));
    v.push(job("lists", move |ctx| {
        let what = *ctx.pick(&["bits", "nibbles", "list ends", "list by handle", "lru small keys", "lru full", "lru get", "ring", "list emptied from the front", "list emptied from the rear", "list emptied and filled"]);
        grows(ctx, &format!("{what}: n operations on n elements"), 500, 6 + more, |n| match what {
            "bits" => {
                let mut b = BitVec::new();
                count(|| {
                    (0..n).for_each(|k| b.push(k as u64 & 1));
                    (0..n).for_each(|k| b.set(n - 1 - k, k as u64 & 1));
                    (0..n).map(|k| b.get(k)).chain(b.iter()).sum::<u64>()
                })
                .0
            }
            "nibbles" => {
                let mut b = NibbleList::new();
                count(|| {
                    (0..n).for_each(|k| b.push(k as u8 & 15));
                    (0..n).for_each(|k| b.set(n - 1 - k, k as u8 & 15));
                    (0..n).map(|k| b.get(k)).chain(b.iter()).map(|x| x as u64).sum::<u64>()
                })
                .0
            }
            "list ends" => {
                let mut l = LinkedList::new();
                count(|| {
                    for k in 0..n {
                        l.push_front(k);
                        l.push_rear(k);
                    }
                    let s = l.iter().sum::<usize>() + l.len();
                    for _ in 0..n / 2 {
                        l.pop_front();
                        l.pop_rear();
                        l.push_rear(3);
                    }
                    for x in l.iter_mut() {
                        *x += 1;
                    }
                    while l.pop_front().is_some() {}
                    s
                })
                .0
            }
            "list by handle" => {
                let mut l = LinkedList::new();
                let mut h = vec![];
                for k in 0..n {
                    l.push_rear(k);
                    h.push(l.rear());
                }
                count(|| {
                    for k in 0..n / 2 {
                        l.remove_at(h[k * 2]);
                    }
                    for k in 0..n / 2 {
                        l.insert_at(h[k * 2 + 1], adhoc_audio::mc_hooks::InsertDirection::Left, k);
                    }
                })
                .0
            }
            "lru small keys" | "lru full" => {
                let full = what == "lru full";
                let mut c = LruCache::new(if full { n / 2 } else { n * 2 });
                count(|| {
                    for k in 0..n {
                        c.put(k, k);
                    }
                    c.len()
                })
                .0
            }
            "lru get" => {
                let mut c = LruCache::new(n);
                for k in 0..n {
                    c.put(k, k);
                }
                count(|| {
                    let mut s = 0;
                    for k in 0..n {
                        s += c.get(&k).copied().unwrap_or(0);
                        s += c.lookup(&(n - 1 - k)).copied().unwrap_or(0);
                        *c.get_mut(&(k * 7 % n)).unwrap() += 1;
                    }
                    for k in 0..n {
                        s += c.remove(&k).unwrap_or(0);
                    }
                    s
                })
                .0
            }
            "list emptied from the front" | "list emptied from the rear" | "list emptied and filled" => {
                let mut l = LinkedList::new();
                (0..n).for_each(|k| l.push_rear(k));
                count(|| {
                    let mut s = 0;
                    for k in 0..n {
                        let x = match what {
                            "list emptied from the front" => l.pop_front(),
                            "list emptied from the rear" => l.pop_rear(),
                            _ if k % 2 == 0 => l.pop_front(),
                            _ => l.pop_rear(),
                        };
                        s += x.unwrap();
                    }
                    if what == "list emptied and filled" {
                        (0..n).for_each(|k| l.push_front(k));
                    }
                    s
                })
                .0
            }
            _ => {
                let cap = n.next_power_of_two();
                let mut q = FixedRingBuffer::new(vec![0usize; cap], cap as u32);
                count(|| {
                    for k in 0..n / 2 {
                        q.push_front(k);
                        q.push_rear(k);
                    }
                    let s = q.iter().sum::<usize>();
                    for _ in 0..n / 2 {
                        q.pop_front();
                        q.pop_rear();
                    }
                    q.clear();
                    s
                })
                .0
            }
        });
    }));
    v
}

trait DecodeOne {
    fn decode_one(&mut self, out: &mut [f32]) -> Option<usize>;
}
impl DecodeOne for AdhocCodec {
    fn decode_one(&mut self, out: &mut [f32]) -> Option<usize> {
        Streamable::decode(self, out)
    }
}

fn main() {
    engine::main(Check::new(
        "C29",
        "model_checking",
        "a state is a size, a call or series of calls and the steps it took; a transition is a measured series",
        jobs,
    ))
}
