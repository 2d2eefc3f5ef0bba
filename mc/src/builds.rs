//! Histories given as numbers, run through the public interface only, so that the same code can be compiled into
//! programs built in other ways (`/verif/builds`) and into this one. Uses integers for its signals: libraries of
//! other targets may round sines differently.
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
use std::io::{repeat, Cursor, Read, Write};

pub const NEW: u32 = 0; // rate, channels, level: a codec without a recording
pub const ENCODE: u32 = 1; // signal, blocks
pub const INIT: u32 = 2;
pub const SEEK: u32 = 3; // low, high word of the milliseconds
pub const DECODE: u32 = 4; // blocks in the buffer, calls
pub const DRAIN: u32 = 5; // blocks in the buffer
pub const SAVE: u32 = 6;
pub const LOAD: u32 = 7;
pub const CHANGE: u32 = 8; // position and new value of a byte of the saved file
pub const CUT: u32 = 9; // new length of the saved file
pub const TO_WAV: u32 = 10; // blocks in the buffer: decodes the rest into a new wav stream
pub const WAV_SAVE: u32 = 11;
pub const WAV_LOAD: u32 = 12;
pub const WAV_SEEK: u32 = 13; // kind, low, high word
pub const WAV_DRAIN: u32 = 14; // blocks in the buffer
pub const WAV_ENCODE: u32 = 15; // signal, blocks
pub const FROM_WAV: u32 = 16; // level, blocks in the buffer: encodes the rest into a new codec
pub const LOOK: u32 = 17;
pub const RIFF: u32 = 18; // fmt size, format, channels, rate, bits, bytes of data, extra chunk: a file made by others
pub const LEVEL: u32 = 19; // level
pub const ENCODE_LONG: u32 = 20; // signal, blocks per call, calls
pub const LOAD_LONG: u32 = 21; // words that are added to the stream of the saved file
pub const RAGGED: u32 = 22; // samples that all buffers have from here on in addition to the blocks
pub const OPS: [usize; 23] = [3, 2, 0, 2, 2, 1, 0, 0, 2, 1, 1, 0, 0, 3, 1, 2, 2, 0, 7, 1, 3, 1, 1];

pub const SIGNALS: u32 = 10;

fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x ^ (x >> 29)
}
fn hash_bytes(b: &[u8]) -> u64 {
    b.iter().fold(b.len() as u64, |h, &x| mix(h, x as u64))
}
fn hash_audio(x: &[f32]) -> u64 {
    x.iter().fold(x.len() as u64, |h, v| mix(h, v.to_bits() as u64))
}
fn sample(kind: u32, k: u32, c: u32) -> f32 {
    let r = (k ^ c.wrapping_mul(0x51ed)).wrapping_mul(0x9e37_79b1).rotate_left(15).wrapping_mul(0x85eb_ca6b);
    let noise = (r >> 8) as i32 as f32 / 8_388_608.0 - 1.0;
    let triangle = |p: u32| ((k + c * 7) % p) as f32 / p as f32 * 4.0 - 2.0;
    match kind {
        0 => (2.0 - triangle(173).abs() * 2.0) * 0.4 - 0.4,
        1 => noise * 0.9,
        2 => noise * 0.01,
        3 => 0.0,
        4 => if (k / 20 + c) % 2 == 0 { 1.0 } else { -1.0 },
        5 => if k % 97 == c % 97 { 1.0 } else { 0.0 },
        6 => noise * 3.0,
        7 => [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e-40, -0.0, f32::MAX, 0.5, f32::MIN_POSITIVE][(k as usize + c as usize) % 8],
        8 => (k % 65536) as f32 / 32768.0 - 1.0,
        _ => if k % 500 < 250 { triangle(31) * 0.3 } else { noise * 0.002 },
    }
}
/// (nothing is allocated behind the last sample)
fn signal(kind: u32, from: u32, blocks: u32, channels: u32, ragged: usize) -> Box<[f32]> {
    let blocks = (from..from + blocks).flat_map(|k| (0..channels).map(move |c| sample(kind, k, c)));
    blocks.chain((0..ragged).map(|k| k as f32 / 7.0 - 0.3)).collect()
}
fn buffer(blocks: u32, channels: usize, ragged: usize) -> Vec<f32> {
    vec![0.0; blocks as usize * channels + ragged]
}

fn drain<S: Streamable>(s: &mut S, blocks: u32, ragged: usize, mut calls: u32) -> u64 {
    let mut b = buffer(blocks, s.info().channels(), ragged);
    let mut h = 1;
    while calls > 0 {
        calls -= 1;
        match s.decode(&mut b) {
            Some(n) => h = mix(mix(h, n as u64), hash_audio(&b[..n.min(b.len())])),
            None => break,
        }
    }
    h
}
fn info(i: StreamInfo) -> u64 {
    mix(mix(3, i.channels() as u64), i.frequency() as u64)
}

/// counts and hashes what is written
struct Counter(u64, u64);
impl Write for Counter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        self.1 = mix(self.1, hash_bytes(b));
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// the trace of a history: a number per step
pub fn run(script: &[u32], mut step: impl FnMut(u64)) {
    let mut c = AdhocCodec::new().with_info(StreamInfo::new(8000, 1));
    let mut w = WavCodec::new(StreamInfo::new(8000, 1));
    let (mut at, mut wat) = (0u32, 0u32);
    let mut file = vec![];
    let mut ragged = 0usize;
    let mut s = script;
    while let Some((&op, rest)) = s.split_first() {
        let (a, rest) = rest.split_at(OPS[op as usize]);
        s = rest;
        let r = match op {
            NEW => {
                c = AdhocCodec::new().with_compression_level(a[2]).with_info(StreamInfo::new(a[0], a[1]));
                at = 0;
                info(Streamable::info(&c))
            }
            ENCODE => {
                let x = signal(a[0], at, a[1], Streamable::info(&c).channels() as u32, ragged);
                at += a[1];
                Streamable::encode(&mut c, &x).map_or(0, |n| n as u64 + 1)
            }
            ENCODE_LONG => {
                let ch = Streamable::info(&c).channels() as u32;
                let mut n = 0;
                for _ in 0..a[2] {
                    let x = signal(a[0], at, a[1], ch, ragged);
                    at += a[1];
                    n += Streamable::encode(&mut c, &x).unwrap_or(0) as u64;
                }
                n
            }
            INIT => {
                c.init();
                0
            }
            SEEK => {
                Streamable::seek(&mut c, SeekFrom::Start(a[0] as u64 | (a[1] as u64) << 32));
                0
            }
            DECODE => drain(&mut c, a[0], ragged, a[1]),
            DRAIN => drain(&mut c, a[0], ragged, u32::MAX),
            SAVE => {
                file.clear();
                let ok = c.save_to(&mut file).is_some();
                mix(hash_bytes(&file), ok as u64)
            }
            LOAD => match AdhocCodec::load(&file[..]) {
                Some(l) => {
                    c = l;
                    mix(info(Streamable::info(&c)), c.calculate_sample_count_per_channel())
                }
                None => 0,
            },
            CHANGE => {
                if let Some(b) = file.get_mut(a[0] as usize) {
                    *b = a[1] as u8;
                }
                0
            }
            CUT => {
                file.truncate(a[0] as usize);
                0
            }
            TO_WAV => {
                w = WavCodec::new(Streamable::info(&c));
                wat = 0;
                let mut b = buffer(a[0], Streamable::info(&c).channels(), ragged);
                let mut h = 0;
                while let Some(n) = Streamable::decode(&mut c, &mut b) {
                    h = mix(h, w.encode(&b[..n]).map_or(0, |n| n as u64 + 1));
                }
                h
            }
            WAV_SAVE => {
                file.clear();
                let ok = w.save_to(&mut file).is_ok();
                mix(hash_bytes(&file), ok as u64)
            }
            WAV_LOAD => match WavCodec::load(Cursor::new(&file)) {
                Ok(l) => {
                    w = l;
                    info(Streamable::info(&w))
                }
                Err(e) => hash_bytes(e.as_bytes()),
            },
            WAV_SEEK => {
                let to = a[1] as u64 | (a[2] as u64) << 32;
                w.seek(match a[0] {
                    0 => SeekFrom::Start(to),
                    1 => SeekFrom::Current(to as i64),
                    _ => SeekFrom::End(to as i64),
                });
                0
            }
            WAV_DRAIN => drain(&mut w, a[0], ragged, u32::MAX),
            WAV_ENCODE => {
                let x = signal(a[0], wat, a[1], Streamable::info(&w).channels() as u32, ragged);
                wat += a[1];
                w.encode(&x).map_or(0, |n| n as u64 + 1)
            }
            FROM_WAV => {
                c = AdhocCodec::new().with_compression_level(a[0]).with_info(Streamable::info(&w));
                let mut b = buffer(a[1], Streamable::info(&w).channels(), ragged);
                let mut h = 0;
                while let Some(n) = w.decode(&mut b) {
                    h = mix(h, Streamable::encode(&mut c, &b[..n]).map_or(0, |n| n as u64 + 1));
                }
                h
            }
            LOOK => {
                // (the bound may depend on how much memory a list reserves)
                let mut f = vec![];
                let saved = c.save_to(&mut f).is_some();
                let bounded = Streamable::filesize_upperbound(&c) >= f.len() as u64 * 8;
                mix(mix(info(Streamable::info(&c)), c.calculate_sample_count_per_channel()), mix(saved as u64, bounded as u64))
            }
            RIFF => {
                file.clear();
                file.extend_from_slice(b"RIFF\0\0\0\0WAVE");
                let extra = |f: &mut Vec<u8>, n: u32| {
                    if n > 0 {
                        f.extend_from_slice(b"LIST");
                        f.extend_from_slice(&n.to_le_bytes());
                        f.extend((0..n + n % 2).map(|k| k as u8));
                    }
                };
                extra(&mut file, a[6]);
                file.extend_from_slice(b"fmt ");
                file.extend_from_slice(&a[0].to_le_bytes());
                let mut fmt = vec![];
                fmt.extend_from_slice(&(a[1] as u16).to_le_bytes());
                fmt.extend_from_slice(&(a[2] as u16).to_le_bytes());
                fmt.extend_from_slice(&a[3].to_le_bytes());
                fmt.extend_from_slice(&(a[3].wrapping_mul(a[2] * a[4] / 8)).to_le_bytes());
                fmt.extend_from_slice(&((a[2] * a[4] / 8) as u16).to_le_bytes());
                fmt.extend_from_slice(&(a[4] as u16).to_le_bytes());
                fmt.resize((a[0] + a[0] % 2) as usize, 0);
                file.extend_from_slice(&fmt);
                extra(&mut file, a[6]);
                file.extend_from_slice(b"data");
                file.extend_from_slice(&a[5].to_le_bytes());
                file.extend((0..a[5]).map(|k| (k.wrapping_mul(0x9e37_79b1) >> 13) as u8));
                extra(&mut file, a[6]);
                hash_bytes(&file)
            }
            LEVEL => {
                c = c.with_compression_level(a[0]);
                0
            }
            LOAD_LONG => {
                // the file ends with the number of words, the words, and two numbers of 16 bytes
                let end = file.len() - 32;
                let n = (1..end / 16).find(|n| file[end - 16 * n - 8..end - 16 * n] == (*n as u64).to_le_bytes()).expect("a saved recording");
                let at = end - 16 * n;
                let words = (n as u64 + a[0] as u64).to_le_bytes();
                let long = file[..at - 8].chain(&words[..]).chain(&file[at..end]).chain(repeat(0).take(a[0] as u64 * 16)).chain(&file[end..]);
                match AdhocCodec::load(long) {
                    Some(l) => {
                        c = l;
                        let mut out = Counter(0, 0);
                        let ok = c.save_to(&mut out).is_some();
                        let bounded = Streamable::filesize_upperbound(&c) >= out.0 * 8;
                        mix(mix(mix(info(Streamable::info(&c)), c.calculate_sample_count_per_channel()), out.0), mix(ok as u64 + 2 * bounded as u64, out.1))
                    }
                    None => 0,
                }
            }
            RAGGED => {
                ragged = a[0] as usize;
                0
            }
            _ => unreachable!(),
        };
        step(r);
    }
}
