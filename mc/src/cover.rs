//! Covering recordings: frame numbers, frame sizes, channel counts, levels, rates and signals meet pairwise, so that
//! whatever goes wrong for one value of one of them, or of any two, goes wrong in one of these recordings.
use crate::*;

pub const CHANNELS: [usize; 13] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24];
pub const RATES: [u32; 11] = [1000, 8000, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000, 192000];
/// blocks in a call: everything small, and around the powers of two
pub const SHORT: [usize; 41] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 48, 63, 64, 65, 100,
    127, 128, 129,
];
pub const LONG: [usize; 29] = [
    1, 2, 3, 160, 192, 200, 255, 256, 257, 300, 320, 400, 441, 480, 500, 511, 512, 513, 700, 960, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049,
    4097,
];

/// `cycles` rounds over the lengths, starting with number `k`: every length has every number of call in some walk
pub fn sizes(lengths: &[usize], k: usize, cycles: usize) -> Vec<usize> {
    let n = lengths.len();
    // a step that is coprime to the number of lengths, another one per cycle
    let step = |c: usize| [1, 2, 3, 5, 4, 6, 8, 9, 10][c % 9];
    (0..cycles * n).map(|i| lengths[(k + i * step(i / n)) % n]).collect()
}

/// one job per channel count and kind of lengths; `stride` leaves out walks, and `most` channel counts above it
pub fn jobs(name: &str, stride: usize, most: usize, levels: &'static [u32], f: impl Fn(&mut Ctx, Spec, usize) + Send + Sync + Clone + 'static) -> Vec<Job> {
    let mut v = vec![];
    for ch in CHANNELS.into_iter().filter(|&c| c <= most) {
        for long in [false, true] {
            let f = f.clone();
            let kind = if long { "long" } else { "short" };
            v.push(job(format!("covering {name} {kind} ch={ch}"), move |ctx| {
                let lengths: &[usize] = if long { &LONG } else { &SHORT };
                // which walks are left out depends on the number of channels
                let n = (lengths.len() - ch % stride).div_ceil(stride);
                let k = ch % stride + ctx.choose(n) * stride;
                let cycles = if long { 1 } else { [1, 2, 8][k / stride % 3] };
                let spec = Spec::new(
                    RATES[(3 * k + ch) % RATES.len()],
                    ch,
                    levels[(k / stride + 3 * ch) % levels.len()],
                    TAME[(5 * k + 2 * ch + k / 11) % TAME.len()],
                    &sizes(lengths, k, cycles),
                );
                f(ctx, spec, k);
            }));
        }
    }
    v
}

/// a number of blocks for a buffer: all of them come up
pub fn buffer(k: usize, i: usize) -> usize {
    let n = SHORT.len() + LONG.len();
    let j = (k * 7 + i * 3) % n;
    if j < SHORT.len() {
        SHORT[j]
    } else {
        LONG[j - SHORT.len()]
    }
}
