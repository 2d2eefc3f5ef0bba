//! C22: the ring buffer and the history stack behave as their bounded sequences
use adhoc_audio::mc_hooks::{CircularStack, FixedRingBuffer};
use mc::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use std::ops::{Index, IndexMut};

/// storage of any size that holds only what was written
#[derive(Serialize, Deserialize, Default)]
struct Sparse(HashMap<u64, u16>);
impl Index<usize> for Sparse {
    type Output = u16;
    fn index(&self, i: usize) -> &u16 {
        self.0.get(&(i as u64)).unwrap_or(&0)
    }
}
impl IndexMut<usize> for Sparse {
    fn index_mut(&mut self, i: usize) -> &mut u16 {
        self.0.entry(i as u64).or_default()
    }
}

fn ring_step<B>(ctx: &mut Ctx, r: &mut FixedRingBuffer<B>, m: &mut VecDeque<u16>, cap: usize, next: &mut u16)
where
    B: Index<usize, Output = u16> + IndexMut<usize> + Serialize + DeserializeOwned,
{
    match ctx.choose(6) {
        0 => {
            *next += 1;
            ctx.op(|| format!("push_rear({next})"));
            r.push_rear(*next);
            if m.len() < cap {
                m.push_back(*next);
            }
        }
        1 => {
            *next += 1;
            ctx.op(|| format!("push_front({next})"));
            r.push_front(*next);
            if m.len() < cap {
                m.push_front(*next);
            }
        }
        2 => {
            let got = r.pop_front().copied();
            ctx.op(|| format!("pop_front() = {got:?}"));
            let want = m.pop_front();
            ctx.ensure(got == want, || format!("pop_front gives {got:?}, expected {want:?}"));
        }
        3 => {
            let got = r.pop_rear().copied();
            ctx.op(|| format!("pop_rear() = {got:?}"));
            let want = m.pop_back();
            ctx.ensure(got == want, || format!("pop_rear gives {got:?}, expected {want:?}"));
        }
        4 => {
            ctx.op(|| "clear()".into());
            r.clear();
            m.clear();
        }
        _ => {
            ctx.op(|| "serialize, restore".into());
            *r = ctx.through(r);
        }
    }
    ctx.ensure(r.len() == m.len(), || format!("length {}, expected {}", r.len(), m.len()));
    ctx.ensure(r.is_empty() == m.is_empty() && r.is_full() == (m.len() == cap), || {
        format!("is_empty {} / is_full {} with {} of {cap} elements", r.is_empty(), r.is_full(), m.len())
    });
    let got: Vec<u16> = r.iter().copied().collect();
    ctx.ensure(got.iter().eq(m.iter()), || format!("iteration gives {got:?}, expected {m:?}"));
}

fn stack_step(ctx: &mut Ctx, s: &mut CircularStack<i16>, m: &mut Vec<i16>, next: &mut i16) {
    match ctx.choose(4) {
        0 => {
            *next = next.wrapping_mul(-3).wrapping_add(7);
            ctx.op(|| format!("push({next})"));
            s.push(*next);
            if m.len() == 4 {
                m.remove(0);
            }
            m.push(*next);
        }
        1 => {
            let got = s.pop();
            ctx.op(|| format!("pop() = {got}"));
            if let Some(want) = m.pop() {
                ctx.ensure(got == want, || format!("pop gives {got}, expected {want}"));
            }
        }
        2 => {
            ctx.op(|| "serialize, restore".into());
            *s = ctx.through(s);
        }
        _ => {
            ctx.op(|| "copy, change the copy".into());
            let mut t = *s;
            t.push(12345);
            t.push(-12345);
            t.pop();
        }
    }
    ctx.ensure(s.len() == m.len(), || format!("length {}, expected {}", s.len(), m.len()));
    ctx.ensure(s.is_empty() == m.is_empty(), || format!("is_empty is {} with {} elements", s.is_empty(), m.len()));
    for k in 1..=m.len() {
        let (got, want) = (s.prev(k as u32), m[m.len() - k]);
        ctx.ensure(got == want, || format!("prev({k}) is {got}, expected {want}"));
    }
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for cap in [1usize, 2, 4, 8] {
        let depth = tier.pick(7, 9);
        v.push(job(format!("ring buffer capacity={cap} depth={depth}"), move |ctx| {
            let mut r = FixedRingBuffer::new(vec![0u16; cap], cap as u32);
            let (mut m, mut next) = (VecDeque::new(), 0);
            for _ in 0..depth {
                ring_step(ctx, &mut r, &mut m, cap, &mut next);
            }
            ctx.outcome(H::new(cap as u64).bytes(format!("{m:?}").as_bytes()).get());
        }));
        // which elements are where depends on front, rear and length alone
        let depth = tier.pick(40, 80);
        v.push(job(format!("ring buffer states capacity={cap} depth={depth}"), move |ctx| {
            let mut r = FixedRingBuffer::new(vec![0u16; cap], cap as u32);
            let (mut m, mut next) = (VecDeque::new(), 0);
            for d in 0..depth {
                ring_step(ctx, &mut r, &mut m, cap, &mut next);
                let b = bincode::serialize(&r).unwrap();
                ctx.prune_if_seen(H::new(m.len() as u64).bytes(&b[8 + 2 * cap..]).get(), depth - d - 1);
            }
        }));
    }
    for cap in [16usize, 32, 64] {
        v.push(job(format!("ring buffer laps capacity={cap}"), move |ctx| {
            let mut r = FixedRingBuffer::new(vec![0u16; cap], cap as u32);
            let (mut m, mut next) = (VecDeque::new(), 0u16);
            let shift = ctx.choose(cap + 1);
            let front = ctx.flag();
            for _ in 0..shift {
                if front {
                    r.push_front(1);
                    r.pop_rear();
                } else {
                    r.push_rear(1);
                    r.pop_front();
                }
            }
            for _ in 0..ctx.choose(cap + 2) {
                next += 1;
                if next % 3 == 0 {
                    r.push_front(next);
                    if m.len() < cap {
                        m.push_front(next);
                    }
                } else {
                    r.push_rear(next);
                    if m.len() < cap {
                        m.push_back(next);
                    }
                }
            }
            ctx.op(|| format!("shifted by {shift}, {} elements", m.len()));
            for _ in 0..2 {
                ring_step(ctx, &mut r, &mut m, cap, &mut next);
            }
        }));
    }
    for cap in [256usize, 1024, 1 << 15, 1 << 16, 1 << 17] {
        v.push(job(format!("ring buffer capacity={cap}"), move |ctx| {
            let mut r = FixedRingBuffer::new(vec![0u16; cap], cap as u32);
            let (mut m, mut next) = (VecDeque::new(), 0u16);
            let shift = *ctx.pick(&[0, 1, cap / 2, cap - 1]);
            let fill = *ctx.pick(&[0, 1, cap / 2 + 1, cap - 1, cap, cap + 1]);
            let front = ctx.flag();
            for _ in 0..shift {
                r.push_rear(1);
                r.pop_front();
            }
            for k in 0..fill {
                next = (k * 31) as u16;
                if front {
                    r.push_front(next)
                } else {
                    r.push_rear(next)
                }
                if m.len() < cap {
                    if front {
                        m.push_front(next)
                    } else {
                        m.push_back(next)
                    }
                }
            }
            ctx.ops((2 * shift + fill) as u64, || format!("shifted by {shift}, {fill} elements at the {}", if front { "front" } else { "rear" }));
            next = 7;
            for _ in 0..if cap < 5000 { 2 } else { 1 } {
                ring_step(ctx, &mut r, &mut m, cap, &mut next);
            }
            ctx.outcome(H::new(cap as u64).bytes(format!("{shift} {fill} {}", m.len()).as_bytes()).get());
        }));
    }
    for bits in [16u32, 20, 24, 30, 31] {
        let depth = tier.pick(6, 8);
        v.push(job(format!("ring buffer capacity=2^{bits} depth={depth}"), move |ctx| {
            let cap = 1usize << bits;
            let mut r = FixedRingBuffer::new(Sparse::default(), cap as u32);
            let (mut m, mut next) = (VecDeque::new(), 0);
            for _ in 0..depth {
                ring_step(ctx, &mut r, &mut m, cap, &mut next);
            }
            ctx.outcome(H::new(cap as u64).bytes(format!("{m:?}").as_bytes()).get());
        }));
    }
    v.push(job("ring buffer of every capacity to 2^17 and around powers of two", move |ctx| {
        // a capacity that is no power of two makes no ring (its masks would lose elements), it is refused at once
        let edges: Vec<u32> = (17..32u32).flat_map(|b| [(1u32 << b) - 1, 1 << b, (1 << b) + 1, 3 << (b - 1)]).chain([u32::MAX, u32::MAX - 1]).collect();
        for cap in (0..=1 << 17).chain(edges) {
            let made = guarded(|| drop(FixedRingBuffer::new((), cap))).is_ok();
            ctx.ensure(made == cap.is_power_of_two(), || format!("a ring of capacity {cap} was made={made}"));
        }
        ctx.op(|| "all capacities".into());
        ctx.outcome(1);
    }));
    let depth = tier.pick(9, 11);
    v.push(job(format!("history stack depth={depth}"), move |ctx| {
        let mut s = CircularStack::<i16>::new();
        let (mut m, mut next) = (vec![], 1);
        ctx.ensure(s.is_empty() && s.len() == 0, || format!("a new stack has length {} and is_empty {}", s.len(), s.is_empty()));
        for _ in 0..depth {
            stack_step(ctx, &mut s, &mut m, &mut next);
            ctx.state(H::new(m.len() as u64).bytes(format!("{m:?}").as_bytes()).get());
        }
        ctx.outcome(H::new(m.len() as u64).bytes(format!("{m:?}").as_bytes()).get());
    }));
    v.push(job("history stack states", move |ctx| {
        let mut s = CircularStack::<i16>::new();
        let (mut m, mut next) = (vec![], 1);
        for d in 0..60 {
            stack_step(ctx, &mut s, &mut m, &mut next);
            let b = bincode::serialize(&s).unwrap();
            ctx.prune_if_seen(H::new(m.len() as u64).bytes(&b[8..]).get(), 60 - d);
        }
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C22",
        "model_checking",
        "a state is the position, length and content of the structure; a transition is one operation; after every operation length, emptiness, fullness, iteration and every previous element are compared with the model sequence",
        jobs,
    ))
}
