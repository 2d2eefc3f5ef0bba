//! C19: bit vector, nibble list and frame table behave as plain arrays
use adhoc_audio::codec::{FrameHeader, FrameHeaders};
use adhoc_audio::mc_hooks::{BitVec, NibbleList};
use mc::*;

fn bitvec(start: usize, depth: usize) -> Job {
    job(format!("bit vector from {start} depth={depth}"), move |ctx| {
        let mut b = BitVec::new();
        let mut m: Vec<u64> = vec![];
        for i in 0..start {
            let bit = (i % 3 == 1) as u64;
            b.push(bit);
            m.push(bit);
        }
        for _ in 0..depth {
            let n = m.len();
            // indices around the ends and storage words
            let mut idx: Vec<usize> = [0usize, 1, 31, 62, 63, 64, 65, 127, 128].into_iter().chain([n.wrapping_sub(1), n.wrapping_sub(2), n / 2]).filter(|&i| i < n).collect();
            // and past the end
            let past = [n, n + 1, n | 63, (n | 63) + 1, n + 1000];
            idx.sort();
            idx.dedup();
            match ctx.choose(4 + 2 * idx.len() + past.len()) {
                0 => {
                    ctx.op(|| "push(0)".into());
                    b.push(0);
                    m.push(0);
                }
                1 => {
                    ctx.op(|| "push(1)".into());
                    b.push(1);
                    m.push(1);
                }
                2 => {
                    ctx.op(|| "clear()".into());
                    b.clear();
                    m.clear();
                }
                3 => {
                    ctx.op(|| "serialize, restore".into());
                    b = ctx.through(&b);
                }
                k if k >= 4 + 2 * idx.len() => {
                    let i = past[k - 4 - 2 * idx.len()];
                    ctx.op(|| format!("set({i}, 1), past the end"));
                    b.set(i, 1);
                }
                k => {
                    let (i, bit) = (idx[(k - 4) / 2], (k as u64) % 2);
                    ctx.op(|| format!("set({i}, {bit})"));
                    b.set(i, bit);
                    m[i] = bit;
                }
            }
            ctx.ensure(b.len() == m.len(), || format!("length {} instead of {}", b.len(), m.len()));
            ctx.ensure(b.capacity() >= m.len(), || format!("capacity {} for {} bits", b.capacity(), m.len()));
            for i in 0..m.len() + 70 {
                let want = m.get(i).copied().unwrap_or(0);
                ctx.ensure(b.get(i) == want, || format!("get({i}) of {} bits is {}, expected {want}", m.len(), b.get(i)));
            }
            ctx.ensure(b.iter().eq(m.iter().copied()), || "iteration differs".into());
            let mut h = H::new(m.len() as u64);
            m.iter().for_each(|&x| {
                h.add(x);
            });
            ctx.state(h.get());
            ctx.outcome(h.get());
        }
    })
}

fn nibbles(start: usize, depth: usize) -> Job {
    job(format!("nibble list from {start} depth={depth}"), move |ctx| {
        const V: [u8; 4] = [0, 15, 1, 10];
        let mut b = NibbleList::new();
        let mut m: Vec<u8> = vec![];
        for i in 0..start {
            let x = (i * 7 + 3) as u8 & 15;
            b.push(x);
            m.push(x);
        }
        for _ in 0..depth {
            let n = m.len();
            let mut idx: Vec<usize> = [0usize, 1, 2, 3].into_iter().chain([n.wrapping_sub(1), n.wrapping_sub(2), n / 2]).filter(|&i| i < n).collect();
            let past = [n, n + 1, n + 1000];
            idx.sort();
            idx.dedup();
            match ctx.choose(6 + 4 * idx.len() + past.len()) {
                k @ 0..=3 => {
                    ctx.op(|| format!("push({})", V[k]));
                    b.push(V[k]);
                    m.push(V[k]);
                }
                4 => {
                    ctx.op(|| "clear()".into());
                    b.clear();
                    m.clear();
                }
                5 => {
                    ctx.op(|| "serialize, restore".into());
                    b = ctx.through(&b);
                }
                k if k >= 6 + 4 * idx.len() => {
                    let i = past[k - 6 - 4 * idx.len()];
                    ctx.op(|| format!("set({i}, 15), past the end"));
                    b.set(i, 15);
                }
                k => {
                    let (i, x) = (idx[(k - 6) / 4], V[(k - 6) % 4]);
                    ctx.op(|| format!("set({i}, {x})"));
                    b.set(i, x);
                    m[i] = x;
                }
            }
            ctx.ensure(b.len() == m.len() && b.is_empty() == m.is_empty(), || format!("length {} instead of {}", b.len(), m.len()));
            for i in 0..m.len() + 6 {
                let want = m.get(i).copied().unwrap_or(0);
                ctx.ensure(b.get(i) == want, || format!("get({i}) of {} nibbles is {}, expected {want}", m.len(), b.get(i)));
            }
            ctx.ensure(b.iter().eq(m.iter().copied()), || "iteration differs".into());
            let h = H::new(3).bytes(&m).get();
            ctx.state(h);
            ctx.outcome(h);
        }
    })
}

type E = (u8, u16, u64, bool, [i16; 3]);
const ENTRIES: [E; 4] = [
    (1, 0, 0, true, [0, 0, 0]),
    (15, 65535, u64::MAX, false, [-32768, 32767, -1]),
    (14, 1024, 1 << 40, true, [1, -2, 3]),
    (2, 3, 127, false, [-32767, 0, 32767]),
];
fn header(e: E) -> FrameHeader {
    FrameHeader { exponent: e.0, size: e.1, bit_cursor: e.2 as u128, is_init: e.3, stack_history: e.4 }
}
fn entry(h: FrameHeader) -> E {
    (h.exponent, h.size, h.bit_cursor as u64, h.is_init, h.stack_history)
}

fn frames(start: usize, depth: usize) -> Job {
    job(format!("frame table from {start} depth={depth}"), move |ctx| {
        let mut t = FrameHeaders::new();
        let mut m: Vec<E> = vec![];
        let mut cur = 0usize;
        for i in 0..start {
            let e = ENTRIES[(i * i + i / 3) % 4];
            t.push(header(e));
            m.push(e);
            cur += 1;
        }
        for _ in 0..depth {
            match ctx.choose(10) {
                k @ 0..=3 => {
                    let e = ENTRIES[k];
                    ctx.op(|| format!("push({e:?}) at {cur}"));
                    t.push(header(e));
                    if cur < m.len() {
                        m[cur] = e;
                    } else {
                        m.push(e);
                    }
                    cur += 1;
                }
                4 => {
                    ctx.op(|| format!("next() at {cur}"));
                    let got = t.next().map(entry);
                    let want = m.get(cur).copied();
                    ctx.ensure(got == want, || format!("next at {cur} of {} is {got:?}, expected {want:?}", m.len()));
                    if want.is_some() {
                        cur += 1;
                    }
                }
                5 => {
                    ctx.op(|| "reset()".into());
                    t.reset();
                    cur = 0;
                }
                6 => {
                    ctx.op(|| "serialize, restore".into());
                    t = ctx.through(&t);
                }
                k => {
                    let i = [m.len(), m.len() / 2, m.len().saturating_sub(1)][k - 7];
                    ctx.op(|| format!("set_cursor({i})"));
                    t.set_cursor(i as u32);
                    cur = i;
                }
            }
            ctx.ensure(t.len() == m.len(), || format!("{} entries instead of {}", t.len(), m.len()));
            for i in 0..m.len() + 3 {
                let got = t.get(i).map(entry);
                let want = m.get(i).copied();
                ctx.ensure(got == want, || format!("entry {i} of {} is {got:?}, expected {want:?}", m.len()));
            }
            let h = H::new(cur as u64).bytes(format!("{m:?}").as_bytes()).get();
            ctx.state(h);
            ctx.outcome(h);
        }
        // iteration from the start delivers everything
        t.reset();
        let got: Vec<E> = (&mut t).map(entry).collect();
        ctx.ensure(got == m, || format!("iteration gives {got:?}, expected {m:?}"));
    })
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for s in [0usize, 1, 61, 62, 63, 64, 65, 125, 127, 128, 129, 192] {
        v.push(bitvec(s, tier.pick(3, 5)));
    }
    v.push(bitvec(0, tier.pick(6, 8)));
    for s in [0usize, 1, 2, 3, 7, 8, 15, 16, 17, 18, 31, 33, 64, 65] {
        v.push(nibbles(s, tier.pick(3, 5)));
    }
    v.push(nibbles(0, tier.pick(4, 6)));
    for s in [0usize, 1, 2, 3, 62, 63, 64, 65, 66, 127, 128] {
        v.push(frames(s, tier.pick(3, 5)));
    }
    v.push(frames(0, tier.pick(5, 7)));
    // growth through the storage boundaries with every nibble and bit pattern period
    v.push(job("growth", |ctx| {
        let period = 1 + ctx.choose(12);
        let mut b = BitVec::new();
        let mut n = NibbleList::new();
        let mut f = FrameHeaders::new();
        let total = 400;
        for i in 0..total {
            b.push((i % (period + 1) == 0) as u64);
            n.push(((i / period) * 5) as u8 & 15);
            f.push(header(((i % 15) as u8 + 1, (i * 131) as u16, i as u64 * 1_000_003, i % (period + 1) == 0, [i as i16, -(i as i16), 5])));
        }
        ctx.ops(3 * total as u64, || format!("{total} pushes with period {period}"));
        for i in 0..total {
            ctx.ensure(b.get(i) == (i % (period + 1) == 0) as u64, || format!("bit {i}"));
            ctx.ensure(n.get(i) == ((i / period) * 5) as u8 & 15, || format!("nibble {i}"));
            let want = ((i % 15) as u8 + 1, (i * 131) as u16, i as u64 * 1_000_003, i % (period + 1) == 0, [i as i16, -(i as i16), 5]);
            let got = f.get(i).map(entry);
            ctx.ensure(got == Some(want), || format!("frame {i}: {got:?}, expected {want:?}"));
        }
    }));
    // sizes beyond a 16-bit index, and beyond a 20-bit one
    v.push(job("large", |ctx| {
        let total = *ctx.pick(ctx.tier.pick(&[65_535usize, 65_536, 65_537, 200_003, 1_100_000][..], &[65_535, 65_536, 65_537, 200_003, 1_100_000, 17_000_001]));
        let seed = ctx.choose(2) as u64;
        let word = |i: usize| (i as u64 + 1 + seed).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20;
        let e = |i: usize| {
            let w = word(i);
            (1 + (w % 15) as u8, (w >> 4) as u16, w << 5, w & 8 != 0, [w as i16, (w >> 9) as i16, (w >> 22) as i16])
        };
        let mut b = BitVec::new();
        let mut n = NibbleList::new();
        let mut f = FrameHeaders::new();
        for i in 0..total {
            b.push(word(i) >> 3 & 1);
            n.push(word(i) as u8 >> 4 & 15);
            f.push(header(e(i)));
        }
        ctx.ops(3 * total as u64, || format!("{total} pushes"));
        let how = ctx.choose(4) as u64;
        if how > 0 {
            b = ctx.ok(value::through(&b, how));
            n = ctx.ok(value::through(&n, how));
            f = ctx.ok(value::through(&f, how));
            ctx.op(|| "serialize, restore".into());
        }
        ctx.ensure(b.len() == total && n.len() == total && f.len() == total, || {
            format!("{} bits, {} nibbles and {} entries of {total}", b.len(), n.len(), f.len())
        });
        for i in 0..total {
            ctx.ensure(b.get(i) == word(i) >> 3 & 1, || format!("bit {i} of {total}"));
            ctx.ensure(n.get(i) == word(i) as u8 >> 4 & 15, || format!("nibble {i} of {total}"));
            let got = f.get(i).map(entry);
            ctx.ensure(got == Some(e(i)), || format!("entry {i} of {total}: {got:?}, expected {:?}", e(i)));
        }
        ctx.ensure(f.get(total).is_none() && b.get(total) == 0 && n.get(total) == 0, || format!("an element beyond {total}"));
        ctx.ensure(b.iter().enumerate().all(|(i, x)| x == word(i) >> 3 & 1) && b.iter().count() == total, || "iteration over bits differs".into());
        ctx.ensure(n.iter().enumerate().all(|(i, x)| x == word(i) as u8 >> 4 & 15) && n.iter().count() == total, || "iteration over nibbles differs".into());
        f.reset();
        for i in 0..total {
            let got = f.next().map(entry);
            ctx.ensure(got == Some(e(i)), || format!("next at {i} of {total} is {got:?}"));
        }
        ctx.ensure(f.next().is_none(), || format!("an entry after the last of {total}"));
        // single elements change alone
        let at = [0, 1, total / 2, 65_534, 65_535.min(total - 1), total - 1];
        for &i in &at {
            b.set(i, 1 - (word(i) >> 3 & 1));
            n.set(i, 15 - (word(i) as u8 >> 4 & 15));
            f.set_cursor(i as u32);
            f.push(header(e(i + 77)));
        }
        ctx.op(|| format!("elements {at:?} replaced"));
        for i in 0..total {
            let c = at.contains(&i);
            ctx.ensure((b.get(i) != word(i) >> 3 & 1) == c, || format!("bit {i} of {total} after replacing {at:?}"));
            ctx.ensure((n.get(i) != word(i) as u8 >> 4 & 15) == c, || format!("nibble {i} of {total} after replacing {at:?}"));
            let want = if c { e(i + 77) } else { e(i) };
            let got = f.get(i).map(entry);
            ctx.ensure(got == Some(want), || format!("entry {i} of {total} after replacing {at:?}: {got:?}, expected {want:?}"));
        }
        ctx.ensure(f.len() == total && b.len() == total && n.len() == total, || "a length changed by replacing".into());
        // and from the start again
        b.clear();
        n.clear();
        f.reset();
        for i in 0..70 {
            b.push(1);
            n.push(9);
            f.push(header(e(i + 5)));
        }
        let r = (0..70).all(|i| b.get(i) == 1 && n.get(i) == 9 && f.get(i).map(entry) == Some(e(i + 5)));
        ctx.ensure(r && b.len() == 70 && n.len() == 70 && b.get(70) == 0 && n.get(70) == 0, || "after clearing".into());
        ctx.ensure(f.get(77).map(entry) == Some(e(77)), || "an entry behind the cursor changed".into());
        ctx.state(total as u64 * 2 + seed);
        ctx.outcome(total as u64);
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C19",
        "model_checking",
        "a state is the content of the model array (and cursor); a transition is one operation; after every operation of every sequence all elements, the length, elements beyond the end and the iteration are compared with the model",
        jobs,
    ))
}
