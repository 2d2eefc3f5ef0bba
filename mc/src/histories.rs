//! The histories given as numbers that C30 and C31 explore.
use crate::builds::*;
use crate::*;

pub const NAMES: [&str; 23] = [
    "new codec (rate, channels, level)",
    "encode (signal, blocks)",
    "init",
    "seek (ms)",
    "decode (blocks, calls)",
    "decode all (blocks)",
    "save",
    "load",
    "change byte",
    "cut the file",
    "decode into wav (blocks)",
    "save wav",
    "load wav",
    "seek wav",
    "decode wav (blocks)",
    "encode wav (signal, blocks)",
    "encode the wav (level, blocks)",
    "look",
    "make wav file (fmt size, format, channels, rate, bits, bytes, other chunk)",
    "set level",
    "encode (signal, blocks, calls)",
    "load with more words",
    "buffers longer than whole blocks (samples)",
];

/// the steps of a history
pub fn steps(script: &[u32]) -> Vec<(u32, &[u32])> {
    let mut steps = vec![];
    let mut s = script;
    while let Some((&op, rest)) = s.split_first() {
        let (a, rest) = rest.split_at(OPS[op as usize]);
        steps.push((op, a));
        s = rest;
    }
    steps
}

/// everything done with a finished recording
pub fn use_all(rate: u32, blocks: u32, level: u32) -> Vec<u32> {
    let ms = (blocks as u64 * 1000 / rate.max(1) as u64) as u32;
    let mut s = vec![
        LOOK,
        SAVE,
        INIT,
        DRAIN,
        64,
        INIT,
        DECODE,
        7,
        3,
        SEEK,
        ms / 2,
        0,
        DECODE,
        5,
        2,
        LOOK,
        SEEK,
        ms.saturating_sub(1),
        0,
        DRAIN,
        9,
    ];
    s.extend([
        LOAD,
        DRAIN,
        33,
        SEEK,
        ms / 3,
        0,
        TO_WAV,
        50,
        WAV_SAVE,
        WAV_LOAD,
        WAV_DRAIN,
        20,
        WAV_SEEK,
        0,
        ms / 2,
        0,
        FROM_WAV,
        10 - level,
        40,
        SAVE,
        LOAD,
        DRAIN,
        1000,
    ]);
    s
}

pub fn recordings(ctx: &mut Ctx, level: u32) -> Vec<u32> {
    let ch = *ctx.pick(&[1u32, 2, 3, 7]);
    let sig = ctx.choose(SIGNALS as usize) as u32;
    let calls: &[u32] = ctx.pick(&[
        &[1][..],
        &[2, 1, 3],
        &[4, 40],
        &[128, 128, 5],
        &[1000],
        &[3, 0, 300, 1],
        &[1, 1, 1, 1, 1, 1, 1, 1, 1],
        &[17, 64, 33, 2],
    ]);
    let rate = *ctx.pick(&[44100u32, 8000]);
    let ragged: &[u32] = if ch > 1 { &[0, ch - 1] } else { &[0] };
    let mut s = vec![NEW, rate, ch, level, RAGGED, *ctx.pick(ragged)];
    for &n in calls {
        s.extend([ENCODE, sig, n]);
    }
    s.extend(use_all(rate, calls.iter().sum(), level));
    s
}
/// all sequences of calls
pub fn sequences(ctx: &mut Ctx, ch: u32, depth: usize) -> Vec<u32> {
    let mut s = vec![NEW, 1000, ch, *ctx.pick(&[0u32, 4]), RAGGED, ch - 1];
    // decoding and encoding are not mixed without a rewind
    let (mut encoding, mut decoding) = (false, false);
    for _ in 0..depth {
        let op: &[u32] = match (encoding, decoding) {
            (true, _) => ctx.pick(&[
                &[ENCODE, 1, 5][..],
                &[ENCODE, 0, 40],
                &[ENCODE, 4, 1],
                &[INIT],
                &[SEEK, 20, 0],
                &[SAVE, LOAD],
                &[SEEK, 1 << 31, 7],
            ]),
            (_, true) => ctx.pick(&[
                &[DECODE, 3, 1][..],
                &[DECODE, 1000, 1],
                &[INIT],
                &[SEEK, 7, 0],
                &[SAVE, LOAD],
                &[TO_WAV, 10, WAV_SAVE, WAV_LOAD],
                &[SEEK, 0, 1],
            ]),
            _ => ctx.pick(&[
                &[ENCODE, 1, 5][..],
                &[ENCODE, 0, 40],
                &[ENCODE, 5, 2],
                &[DECODE, 4, 2],
                &[SEEK, 33, 0],
                &[LEVEL, 8],
                &[LEVEL, 99],
            ]),
        };
        match op[0] {
            ENCODE => (encoding, decoding) = (true, false),
            INIT | SAVE => (encoding, decoding) = (false, false),
            LEVEL => {}
            _ => (encoding, decoding) = (false, true),
        }
        s.extend(op);
    }
    s.extend([SAVE, LOAD, LOOK, DRAIN, 16]);
    s
}
/// wav files of others
pub fn foreign(ctx: &mut Ctx) -> Vec<u32> {
    let fmt = *ctx.pick(&[16u32, 18, 40, 14, 17]);
    let format = *ctx.pick(&[1u32, 3]);
    let bits = *ctx.pick(&[16u32, 8, 24, 0]);
    let ch = *ctx.pick(&[1u32, 2, 6, 0]);
    let bytes = *ctx.pick(&[0u32, 1, 2, 77, 1200]);
    let extra = *ctx.pick(&[0u32, 4, 7]);
    let cut = ctx.flag();
    let mut s = vec![RIFF, fmt, format, ch, *ctx.pick(&[22050u32, 0, u32::MAX]), bits, bytes, extra];
    if cut {
        s.extend([CUT, 50 + bytes / 2]);
    }
    s.extend([
        WAV_LOAD,
        WAV_DRAIN,
        5,
        WAV_SEEK,
        1,
        0u32.wrapping_sub(3),
        u32::MAX,
        WAV_DRAIN,
        100,
        WAV_SAVE,
        WAV_SEEK,
        0,
        0,
        0,
        FROM_WAV,
        2,
        11,
        SAVE,
        LOAD,
        DRAIN,
        50,
    ]);
    if ch == 0 {
        // (a stream without channels is refused, so this goes on with the one that was there)
        ctx.op(|| "no channels".into());
    }
    s
}
pub fn wav_streams(ctx: &mut Ctx) -> Vec<u32> {
    let sig = ctx.choose(SIGNALS as usize) as u32;
    let n = *ctx.pick(&[0u32, 1, 60]);
    let mut s = vec![NEW, 1000, 2, 0, RAGGED, n % 2, INIT, TO_WAV, 1, WAV_ENCODE, sig, n];
    for _ in 0..2 {
        s.extend(ctx.pick(&[
            [WAV_SEEK, 0, 3, 0],
            [WAV_SEEK, 0, 5, 1],
            [WAV_SEEK, 1, 0u32.wrapping_sub(4), u32::MAX],
            [WAV_SEEK, 1, 2, 0],
            [WAV_SEEK, 1, u32::MAX, u32::MAX >> 1],
            [WAV_SEEK, 1, 0, 1 << 31],
            [WAV_SEEK, 2, 0, 0],
            [WAV_SEEK, 2, 0u32.wrapping_sub(9), u32::MAX],
            [WAV_SEEK, 2, 1, 0],
            [WAV_SEEK, 0, u32::MAX, u32::MAX],
        ]));
        let more: &[u32] = ctx.pick(&[&[WAV_DRAIN, 4][..], &[WAV_ENCODE, 1, 3], &[WAV_ENCODE, 7, 70], &[WAV_SAVE, WAV_LOAD]]);
        s.extend(more);
    }
    s.extend([WAV_SAVE, WAV_SEEK, 0, 0, 0, WAV_DRAIN, 7]);
    s
}
pub fn large(ctx: &mut Ctx) -> Vec<u32> {
    let (rate, ch, level, blocks, calls) = *ctx.pick(&[
        (44100u32, 1u32, 0u32, 70_000u32, 3u32),
        (44100, 2, 5, 65_535, 3),
        (8000, 1, 3, 1, 70_000),
        (96000, 2, 1, 3, 40_000),
        (48000, 300, 0, 50, 4),
        (8000, 5000, 2, 2, 3),
        (u32::MAX, 2, 0, 1000, 20),
        (1, 3, 0, 1000, 9),
        (44100, 1, 0, 6_000_000, 1),
        (1000, 65_535, 0, 1, 2),
        (1000, 70_000, 4, 2, 1),
        (44100, 65_538, 0, 1, 2),
        (8000, 131_072, 3, 2, 1),
    ]);
    let sig = *ctx.pick(&[1u32, 0, 6, 4]);
    let total = blocks as u64 * calls as u64;
    let mut s = vec![NEW, rate, ch, level, ENCODE_LONG, sig, blocks, calls, LOOK, SAVE, LOAD];
    for q in [1, 2, 3] {
        let ms = total * q * 250 / rate.min(1 << 20) as u64;
        s.extend([SEEK, ms as u32, (ms >> 32) as u32, DECODE, 100, 2]);
    }
    s.extend([INIT, TO_WAV, (1 << 22) / ch.max(1024), WAV_SAVE, WAV_LOAD, FROM_WAV, level, 1000.min((1 << 22) / ch), SAVE]);
    s
}
