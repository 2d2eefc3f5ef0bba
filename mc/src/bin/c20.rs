//! C20: the LRU cache keeps exactly the most recently used entries with their values
use adhoc_audio::mc_hooks::LruCache;
use mc::*;

/// canonical state of the implementation: its table in key order and its list storage
fn canonical(c: &LruCache<u8, u16>, table: usize) -> u64 {
    let b = bincode::serialize(c).unwrap();
    let n = table;
    let mut pairs: Vec<&[u8]> = b[8..8 + n * 5].chunks(5).collect();
    pairs.sort();
    let mut h = H::new(n as u64);
    for p in pairs {
        h.bytes(p);
    }
    h.bytes(&b[8 + n * 5..]);
    h.get()
}

/// model: most recent first
struct M {
    cap: usize,
    e: Vec<(u8, u16)>,
}
impl M {
    fn at(&self, k: u8) -> Option<usize> {
        self.e.iter().position(|x| x.0 == k)
    }
    fn raise(&mut self, i: usize) {
        let x = self.e.remove(i);
        self.e.insert(0, x);
    }
}

fn step(ctx: &mut Ctx, c: &mut LruCache<u8, u16>, m: &mut M, keys: u8) {
    let k = ctx.choose(keys as usize * 6 + 1);
    let (what, key) = (k / keys as usize, (k % keys as usize) as u8);
    match what {
        0 | 1 => {
            let v = key as u16 * 10 + what as u16;
            ctx.op(|| format!("put({key}, {v})"));
            c.put(key, v);
            match m.at(key) {
                Some(i) => {
                    m.e[i].1 = v;
                    m.raise(i);
                }
                None => {
                    if m.e.len() == m.cap {
                        m.e.pop();
                    }
                    m.e.insert(0, (key, v));
                }
            }
        }
        2 => {
            let got = c.get(&key).copied();
            ctx.op(|| format!("get({key}) = {got:?}"));
            let i = m.at(key);
            let want = i.map(|i| m.e[i].1);
            ctx.ensure(got == want, || format!("get({key}) is {got:?}, expected {want:?}"));
            if let Some(i) = i {
                m.raise(i);
            }
        }
        3 => {
            let i = m.at(key);
            let want = i.map(|i| m.e[i].1);
            let got = c.get_mut(&key).map(|v| {
                let old = *v;
                *v = key as u16 * 10 + 2;
                old
            });
            ctx.op(|| format!("get_mut({key}) = {got:?}"));
            ctx.ensure(got == want, || format!("get_mut({key}) is {got:?}, expected {want:?}"));
            if let Some(i) = i {
                m.e[i].1 = key as u16 * 10 + 2;
                m.raise(i);
            }
        }
        4 => {
            let got = c.lookup(&key).copied();
            ctx.op(|| format!("lookup({key}) = {got:?}"));
            let want = m.at(key).map(|i| m.e[i].1);
            ctx.ensure(got == want, || format!("lookup({key}) is {got:?}, expected {want:?}"));
        }
        5 => {
            let got = c.remove(&key);
            ctx.op(|| format!("remove({key}) = {got:?}"));
            let want = m.at(key).map(|i| m.e.remove(i).1);
            ctx.ensure(got == want, || format!("remove({key}) gives {got:?}, expected {want:?}"));
        }
        _ => {
            ctx.op(|| "serialize, restore".into());
            *c = ctx.through(c);
        }
    }
    ctx.ensure(c.len() == m.e.len(), || format!("{} entries, expected {}", c.len(), m.e.len()));
    ctx.ensure(c.len() <= m.cap, || format!("{} entries in a cache of {}", c.len(), m.cap));
    for key in 0..keys {
        let got = c.lookup(&key).copied();
        let want = m.at(key).map(|i| m.e[i].1);
        ctx.ensure(got == want, || format!("key {key} holds {got:?}, expected {want:?}"));
    }
    let mut h = H::new(m.cap as u64);
    for &(k, v) in &m.e {
        h.add((k as u64) << 16 | v as u64);
    }
    ctx.outcome(h.get());
}

/// the order shows in what further puts evict
fn order(ctx: &mut Ctx, c: &mut LruCache<u8, u16>, m: &mut M) {
    let mut fresh = 100u8;
    // fill up
    while m.e.len() < m.cap {
        c.put(fresh, 1);
        m.e.insert(0, (fresh, 1));
        fresh += 1;
    }
    while let Some(i) = m.e.iter().rposition(|e| e.0 < 100 || e.0 >= fresh) {
        let (victim, _) = m.e[m.e.len() - 1];
        c.put(fresh, 2);
        m.e.pop();
        m.e.insert(0, (fresh, 2));
        fresh += 1;
        ctx.ensure(c.lookup(&victim).is_none(), || format!("a put on the full cache did not evict {victim}, the least recently used"));
        for (k, v) in &m.e {
            ctx.ensure(c.lookup(k) == Some(v), || format!("a put on the full cache lost {k}; {victim} was least recently used"));
        }
        ctx.ensure(c.len() == m.cap, || format!("{} entries in a full cache of {}", c.len(), m.cap));
        let _ = i;
        if fresh > 140 {
            break;
        }
    }
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for (cap, keys, depth) in [(1usize, 2u8, 6usize), (1, 3, 4), (2, 3, 4), (3, 4, 4), (4, 5, 3)] {
        let depth = depth + tier.pick(0, 1);
        for first in 0..keys as usize * 2 {
            v.push(job(format!("sequences capacity={cap} keys={keys} depth={depth} first={first}"), move |ctx| {
                let mut c: LruCache<u8, u16> = LruCache::new(cap);
                let mut m = M { cap, e: vec![] };
                let (k, x) = ((first % keys as usize) as u8, (first % keys as usize * 10 + first / keys as usize) as u16);
                c.put(k, x);
                m.e.push((k, x));
                ctx.op(|| format!("put({k}, {x})"));
                for _ in 0..depth - 1 {
                    step(ctx, &mut c, &mut m, keys);
                }
                order(ctx, &mut c, &mut m);
            }));
        }
    }
    // explicit-state search: a state already reached with as many operations to go is not entered again
    for (cap, keys, depth) in [(1usize, 2u8, 12usize), (2, 3, 9), (3, 4, tier.pick(7, 10)), (4, 5, tier.pick(5, 8))] {
        v.push(job(format!("states capacity={cap} keys={keys} depth={depth}"), move |ctx| {
            let mut c: LruCache<u8, u16> = LruCache::new(cap);
            let mut m = M { cap, e: vec![] };
            for d in 0..depth {
                step(ctx, &mut c, &mut m, keys);
                let mut h = H::new(canonical(&c, m.e.len()));
                for &(k, v) in &m.e {
                    h.add((k as u64) << 16 | v as u64);
                }
                ctx.prune_if_seen(h.get(), depth - d - 1);
            }
            order(ctx, &mut c, &mut m);
        }));
    }
    // larger capacities: fill, touch two, overflow
    v.push(job("larger capacities", |ctx| {
        let cap = *ctx.pick(&[5usize, 8, 16, 33]);
        let a = ctx.choose(cap) as u8;
        let b = ctx.choose(cap) as u8;
        let how = ctx.choose(4);
        let mut c: LruCache<u8, u16> = LruCache::new(cap);
        let mut m = M { cap, e: vec![] };
        for k in 0..cap as u8 {
            c.put(k, k as u16);
            m.e.insert(0, (k, k as u16));
        }
        ctx.op(|| format!("capacity {cap}, filled; touch {a}, {b} in way {how}"));
        for k in [a, b] {
            let i = m.at(k);
            match how {
                0 => {
                    c.get(&k);
                    if let Some(i) = i {
                        m.raise(i)
                    }
                }
                1 => {
                    c.put(k, 99);
                    if let Some(i) = i {
                        m.e[i].1 = 99;
                        m.raise(i)
                    } else {
                        m.e.insert(0, (k, 99));
                    }
                }
                2 => {
                    c.lookup(&k);
                }
                _ => {
                    c.remove(&k);
                    if let Some(i) = i {
                        m.e.remove(i);
                    }
                }
            }
        }
        order(ctx, &mut c, &mut m);
    }));
    // capacities beyond a byte and beyond 16 bits: every operation at every kind of place, then everything is overflowed
    v.push(job("very large capacities", |ctx| {
        use std::collections::{BTreeMap, HashMap};
        let cap = *ctx.pick(ctx.tier.pick(&[254usize, 255, 256, 257, 1000, 65_535, 65_536, 70_000][..], &[254, 255, 256, 257, 1000, 65_535, 65_536, 70_000, 1_000_003]));
        let how = ctx.choose(4) as u64;
        let mut c: LruCache<u32, u64> = LruCache::new(cap);
        // the model: when each key was last used
        let mut when: HashMap<u32, (u64, u64)> = HashMap::new();
        let mut order: BTreeMap<u64, u32> = BTreeMap::new();
        let mut now = 0u64;
        let mut put = |ctx: &mut Ctx, c: &mut LruCache<u32, u64>, when: &mut HashMap<u32, (u64, u64)>, order: &mut BTreeMap<u64, u32>, k: u32, v: u64| {
            now += 1;
            c.put(k, v);
            if let Some((t, _)) = when.insert(k, (now, v)) {
                order.remove(&t);
            } else if when.len() > cap {
                let (_, old) = order.pop_first().unwrap();
                when.remove(&old);
                ctx.ensure(c.lookup(&old).is_none(), || format!("a put on the full cache of {cap} did not evict {old}"));
            }
            order.insert(now, k);
            ctx.ensure(c.len() == when.len(), || format!("{} entries, expected {}", c.len(), when.len()));
        };
        for k in 0..cap as u32 {
            put(ctx, &mut c, &mut when, &mut order, k.wrapping_mul(2_654_435_761), k as u64);
        }
        if how > 0 {
            c = ctx.ok(value::through(&c, how));
        }
        ctx.ops(cap as u64, || format!("capacity {cap}, filled{}", ["", ", serialized and back", ", serialized with names and back", ", serialized in another order and back"][how as usize]));
        // use every seventh again, remove every eleventh, overwrite every thirteenth
        for k in 0..cap as u32 {
            let key = k.wrapping_mul(2_654_435_761);
            if k % 7 == 0 {
                let want = when.get(&key).map(|x| x.1);
                let got = c.get(&key).copied();
                ctx.ensure(got == want, || format!("get({key}) is {got:?}, expected {want:?}"));
                if let Some(v) = want {
                    put(ctx, &mut c, &mut when, &mut order, key, v);
                }
            }
            if k % 11 == 0 {
                let want = when.remove(&key);
                let got = c.remove(&key);
                ctx.ensure(got == want.map(|x| x.1), || format!("remove({key}) is {got:?}, expected {want:?}"));
                if let Some((t, _)) = want {
                    order.remove(&t);
                }
            }
            if k % 13 == 0 {
                put(ctx, &mut c, &mut when, &mut order, key, k as u64 + 5_000_000_000);
            }
        }
        ctx.ops(cap as u64 / 3, || "every 7th used, every 11th removed, every 13th written".into());
        for (k, (_, v)) in &when {
            ctx.ensure(c.lookup(k) == Some(v), || format!("key {k} holds {:?}, expected {v}", c.lookup(k)));
        }
        // overflow it once over
        for k in 0..cap as u32 + 5 {
            put(ctx, &mut c, &mut when, &mut order, k.wrapping_mul(2_654_435_761) ^ 1, k as u64);
        }
        for (k, (_, v)) in &when {
            ctx.ensure(c.lookup(k) == Some(v), || format!("key {k} holds {:?}, expected {v}", c.lookup(k)));
        }
        ctx.ensure(c.len() == cap, || format!("{} entries in a full cache of {cap}", c.len()));
        ctx.state(cap as u64 * 4 + how);
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C20",
        "model_checking",
        "a state is the implementation's table and list storage with the model's order and values; a transition is one cache operation; after every operation every key is looked up, and the order is read off by overflowing the cache",
        jobs,
    ))
}
