//! Runs histories (a line of numbers each) where the memory is watched: under Miri, or with an address sanitizer.
//! The first number is what the history is about: 0 is the codecs (`builds.rs`), others the structures underneath.
#[path = "../../../mc/src/builds.rs"]
#[allow(dead_code)]
mod builds;
use adhoc_audio::{mc_hooks::*, StreamInfo};
use std::io::{BufRead, Write};

fn name(k: u32) -> String {
    format!("element {k}")
}
fn again<T: serde_free::Both>(x: &mut T) {
    x.again()
}
/// writing and reading a structure
mod serde_free {
    use super::*;
    pub trait Both {
        fn again(&mut self);
    }
    macro_rules! both {
        ($($t:ty),*) => { $(impl Both for $t {
            fn again(&mut self) {
                let b = bincode::serialize(&*self).unwrap();
                *self = bincode::deserialize(&b).unwrap();
            }
        })* };
    }
    both!(LinkedList<String>, LruCache<String, String>, CircularStack<i16>, BitStream, BitVec, NibbleList, FixedRingBuffer<Vec<String>>);
}

fn list(ops: &[u32]) -> u64 {
    let mut l = LinkedList::<String>::new();
    let mut n = 0;
    let mut seen = 0;
    for &op in ops {
        n += 1;
        let second = LinkedListIterator::new(&l).nth(1);
        match op {
            0 => l.push_front(name(n)),
            1 => l.push_rear(name(n)),
            2 => seen += l.pop_front().map_or(0, |s| s.len()),
            3 => seen += l.pop_rear().map_or(0, |s| s.len()),
            4 => second.into_iter().for_each(|p| l.insert_at(p, InsertDirection::Left, name(n))),
            5 => second.into_iter().for_each(|p| l.insert_at(p, InsertDirection::Right, name(n))),
            6 => seen += second.and_then(|p| l.remove_at(p)).map_or(0, |s| s.len()),
            7 => seen += l.iter().map(|s| s.len()).sum::<usize>(),
            8 => l.iter_mut().for_each(|s| s.push('x')),
            9 => {
                // all of them held at once
                let mut all: Vec<&mut String> = l.iter_mut().collect();
                all.iter_mut().rev().for_each(|s| s.push('y'));
            }
            10 => {
                let p = l.front();
                if let Some(d) = l.get_mut(p).and_then(|n| n.data_mut()) {
                    d.push('z');
                }
                seen += l.get(p).and_then(|n| n.data()).map_or(0, |s| s.len());
            }
            11 => seen += [NULL, Ptr::from(l.len() + 90)].iter().filter(|&&p| l.get(p).is_some() || l.get_mut(p).is_some()).count(),
            _ => again(&mut l),
        }
    }
    seen as u64
}
fn cache(ops: &[u32]) -> u64 {
    let mut c = LruCache::<String, String>::new(2);
    let mut seen = 0;
    for (n, &op) in ops.iter().enumerate() {
        let k = ["first", "second", "third"][op as usize % 3].to_string();
        match op / 3 {
            0 => c.put(k, name(n as u32)),
            1 => seen += c.get(&k).map_or(0, |s| s.len()),
            2 => {
                if let Some(s) = c.get_mut(&k) {
                    s.push('x')
                }
            }
            3 => seen += c.lookup(&k).map_or(0, |s| s.len()),
            4 => seen += c.remove(&k).map_or(0, |s| s.len()),
            _ => again(&mut c),
        }
    }
    (seen + c.len()) as u64
}
fn ring(ops: &[u32]) -> u64 {
    let capacity = ops[0];
    let mut r = FixedRingBuffer::new((0..capacity).map(name).collect::<Vec<_>>(), capacity);
    let mut seen = 0;
    for (n, &op) in ops[1..].iter().enumerate() {
        match op {
            0 => r.push_front(name(n as u32)),
            1 => r.push_rear(name(n as u32)),
            2 => seen += r.pop_front().map_or(0, |s| s.len()),
            3 => seen += r.pop_rear().map_or(0, |s| s.len()),
            4 => seen += r.iter().map(|s| s.len()).sum::<usize>(),
            5 => r.clear(),
            _ => again(&mut r),
        }
    }
    (seen + r.len()) as u64
}
fn stack(ops: &[u32]) -> u64 {
    let mut s = CircularStack::<i16>::new();
    let mut seen = 0;
    for (n, &op) in ops.iter().enumerate() {
        match op {
            0 => s.push(n as i16),
            1 => seen += s.pop() as u64,
            2 => seen += (0..7).map(|k| s.prev(k) as u64).sum::<u64>(),
            _ => again(&mut s),
        }
    }
    seen + s.len() as u64
}
fn stream(ops: &[u32]) -> u64 {
    let mut s = BitStream::new();
    let mut seen = 0u128;
    for op in ops.chunks(2) {
        match (op[0], op[1]) {
            (0, n) => s.write_bits(0x0123_4567_89ab_cdef_u128 & (1u128.checked_shl(n).map_or(!0, |m| m - 1)), n as usize),
            (1, n) => seen ^= s.read_bits(n as usize),
            (2, n) => seen ^= s.peek_bits(n as usize),
            (3, n) => s.set_bit_cursor((n as u128).min(s.capacity() as u128)),
            (4, n) => s.write_compressed((n & 15) as i16, (n >> 4) as i16 - 4000),
            (5, n) => seen ^= s.read_compressed(n as i16) as u128,
            (6, n) => s.write_bit(n as u8),
            (7, n) => (0..n).for_each(|_| seen += s.read_bit()),
            (8, _) => s.clear(),
            (9, _) => s.zero(),
            _ => again(&mut s),
        }
    }
    seen as u64
}
fn bits(ops: &[u32]) -> u64 {
    let mut v = BitVec::new();
    let mut l = NibbleList::new();
    let mut seen = 0;
    for op in ops.chunks(2) {
        let n = op[1];
        match op[0] {
            0 => (0..n).for_each(|k| {
                v.push((k & 1) as u64);
                l.push((k & 15) as u8)
            }),
            1 => {
                v.set(n as usize, 1);
                l.set(n as usize, 9)
            }
            2 => seen += v.get(n as usize) + l.get(n as usize) as u64,
            3 => seen += v.iter().sum::<u64>() + l.iter().map(|x| x as u64).sum::<u64>(),
            4 => {
                v.clear();
                l.clear()
            }
            5 => {
                again(&mut v);
                again(&mut l)
            }
            _ => {}
        }
    }
    seen
}
fn arithmetic(ops: &[u32]) -> u64 {
    let n = ops[1] as usize;
    let x: Vec<f32> = (0..n).map(|k| k as f32 * 0.1).collect();
    let sum = |x: &[f32]| x.iter().map(|v| v.to_bits() as u64).sum::<u64>();
    match ops[0] {
        0 => {
            let mut y = vec![0.0; n];
            signal::convolve_1d(&x, &signal::gaussian_filter::<5>(1.0, 2.0), &mut y);
            sum(&y)
        }
        1 => {
            let mut y = vec![0.0; n];
            signal::convolve_1d_branchless(&x, &[0.5, 0.25, 0.25], &mut y);
            sum(&y)
        }
        2 => {
            let mut y = vec![0.0; ops[2] as usize + 3];
            sum(signal::scale_signal(&x, ops[2] as usize, &mut y))
        }
        3 => PseudoRandom::new(n as u64).triangle().take(9).map(|v| v.to_bits() as u64).sum(),
        _ => {
            let i = StreamInfo::new(ops[1], ops[2]);
            i.as_bytes().iter().map(|&b| b as u64).sum()
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let script: Vec<u32> = line.unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
        let ops = &script[1..];
        let done = std::panic::catch_unwind(|| {
            let mut h = 0u64;
            match script[0] {
                0 => builds::run(ops, |x| h = h.rotate_left(9) ^ x),
                1 => h = list(ops),
                2 => h = cache(ops),
                3 => h = ring(ops),
                4 => h = stack(ops),
                5 => h = stream(ops),
                6 => h = bits(ops),
                _ => h = arithmetic(ops),
            }
            h
        });
        let mut o = out.lock();
        writeln!(o, "{}", done.map_or("panic".into(), |h| format!("{h:x}"))).unwrap();
        o.flush().unwrap();
    }
}
