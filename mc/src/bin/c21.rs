//! C21: the linked list behaves as a sequence under any mix of insertions and removals
use adhoc_audio::mc_hooks::{InsertDirection, LinkedList, Ptr, NULL};
use mc::*;

struct L {
    ll: LinkedList<u8>,
    /// handle and value in order
    m: Vec<(Ptr, u8)>,
    free: Vec<usize>,
    allocated: usize,
    next: u8,
}
impl L {
    fn new() -> Self {
        L { ll: LinkedList::new(), m: vec![], free: vec![], allocated: 0, next: 1 }
    }
    fn value(&mut self) -> u8 {
        self.next = self.next.wrapping_add(1);
        self.next
    }
    /// a new element must be at position `i` of the sequence now; finds its handle by walking the iteration order
    fn added(&mut self, ctx: &mut Ctx, i: usize, v: u8, handle: Ptr) {
        let h = handle.as_usize();
        if self.free.is_empty() {
            ctx.ensure(h == self.allocated, || format!("new storage {h} taken, {} were in use", self.allocated));
            self.allocated += 1;
        } else {
            ctx.ensure(self.free.contains(&h), || format!("storage {h} taken although {:?} was free", self.free));
            self.free.retain(|&x| x != h);
        }
        self.m.insert(i, (handle, v));
    }
    fn removed(&mut self, ctx: &mut Ctx, i: usize, got: Option<u8>, what: &str) {
        let (p, v) = self.m.remove(i);
        self.free.push(p.as_usize());
        ctx.ensure(got == Some(v), || format!("{what} gives {got:?}, expected {v}"));
    }
    fn check(&mut self, ctx: &mut Ctx) {
        let want: Vec<u8> = self.m.iter().map(|x| x.1).collect();
        ctx.ensure(self.ll.len() == want.len(), || format!("length {}, expected {}", self.ll.len(), want.len()));
        let got: Vec<u8> = self.ll.iter().copied().take(want.len() + 5).collect();
        ctx.ensure(got == want, || format!("iteration gives {got:?}, expected {want:?}"));
        for (p, v) in &self.m {
            let got = self.ll.get(*p).and_then(|n| n.data()).copied();
            ctx.ensure(got == Some(*v), || format!("handle {} holds {got:?}, expected {v}", p.as_usize()));
        }
        let ends = (self.ll.front(), self.ll.rear());
        let want = (self.m.first().map_or(NULL, |x| x.0), self.m.last().map_or(NULL, |x| x.0));
        ctx.ensure(ends == want, || format!("ends are {ends:?}, expected {want:?}"));
    }
    fn mutate(&mut self, ctx: &mut Ctx) {
        for (a, b) in self.ll.iter_mut().zip(self.m.iter()) {
            let was = *a;
            ctx.ensure(was == b.1, || format!("mutable iteration gives {was}, expected {}", b.1));
            *a = was.wrapping_add(100);
        }
        ctx.op(|| "iter_mut: add 100".into());
        for x in self.m.iter_mut() {
            x.1 = x.1.wrapping_add(100);
        }
        let n = self.ll.iter_mut().count();
        ctx.ensure(n == self.m.len(), || format!("mutable iteration gives {n} elements"));
    }
    /// links, ends, free chain and length; the values are passed through untouched and do not matter
    fn canonical(&self) -> u64 {
        let b = bincode::serialize(&self.ll).unwrap();
        let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        let mut h = H::new(n as u64);
        let mut i = 8;
        for _ in 0..n {
            let some = b[i];
            h.add(some as u64);
            i += 1 + some as usize;
            h.bytes(&b[i..i + 16]);
            i += 16;
        }
        h.bytes(&b[i..]);
        for (p, _) in &self.m {
            h.add(p.as_usize() as u64);
        }
        h.get()
    }
}

fn step(ctx: &mut Ctx, l: &mut L) {
    let n = l.m.len();
    match ctx.choose(6 + 3 * n) {
        0 => {
            let v = l.value();
            ctx.op(|| format!("push_front({v})"));
            l.ll.push_front(v);
            let h = l.ll.front();
            l.added(ctx, 0, v, h);
        }
        1 => {
            let v = l.value();
            ctx.op(|| format!("push_rear({v})"));
            l.ll.push_rear(v);
            let h = l.ll.rear();
            l.added(ctx, n, v, h);
        }
        2 => {
            let got = l.ll.pop_front();
            ctx.op(|| format!("pop_front() = {got:?}"));
            if n > 0 {
                l.removed(ctx, 0, got, "pop_front")
            } else {
                ctx.ensure(got.is_none(), || format!("pop_front on an empty list gives {got:?}"))
            }
        }
        3 => {
            let got = l.ll.pop_rear();
            ctx.op(|| format!("pop_rear() = {got:?}"));
            if n > 0 {
                l.removed(ctx, n - 1, got, "pop_rear")
            } else {
                ctx.ensure(got.is_none(), || format!("pop_rear on an empty list gives {got:?}"))
            }
        }
        4 => {
            ctx.op(|| "serialize, restore".into());
            l.ll = ctx.through(&l.ll);
        }
        5 => l.mutate(ctx),
        k => {
            let (i, what) = ((k - 6) / 3, (k - 6) % 3);
            let p = l.m[i].0;
            if what == 2 {
                let got = l.ll.remove_at(p);
                ctx.op(|| format!("remove_at(element {i}) = {got:?}"));
                l.removed(ctx, i, got, "remove_at");
            } else {
                let v = l.value();
                ctx.op(|| format!("insert_at(element {i}, {}, {v})", ["Left", "Right"][what]));
                // the handle of the new node is found by looking for its value among all storage
                l.ll.insert_at(p, if what == 0 { InsertDirection::Left } else { InsertDirection::Right }, v);
                let live: Vec<usize> = l.m.iter().map(|x| x.0.as_usize()).collect();
                let found: Vec<usize> = (0..=l.allocated)
                    .filter(|h| !live.contains(h))
                    .filter(|&h| l.ll.get(Ptr::from(h)).and_then(|n| n.data()) == Some(&v))
                    .collect();
                ctx.ensure(found.len() == 1, || format!("the inserted value is in storage {found:?}"));
                l.added(ctx, i + what, v, Ptr::from(found[0]));
            }
        }
    }
    l.check(ctx);
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for start in 0..=3usize {
        let depth = tier.pick([5, 4, 4, 3][start], [7, 6, 5, 5][start]);
        v.push(job(format!("sequences from {start} elements depth={depth}"), move |ctx| {
            let mut l = L::new();
            for i in 0..start {
                let v = l.value();
                l.ll.push_rear(v);
                let h = l.ll.rear();
                l.added(ctx, i, v, h);
            }
            for _ in 0..depth {
                step(ctx, &mut l);
            }
            ctx.state(l.canonical());
            ctx.outcome(l.canonical());
        }));
    }
    let depth = tier.pick(8, 11);
    v.push(job(format!("states depth={depth}"), move |ctx| {
        let mut l = L::new();
        for d in 0..depth {
            step(ctx, &mut l);
            let h = l.canonical();
            ctx.outcome(h);
            ctx.prune_if_seen(h, depth - d - 1);
        }
    }));
    // longer lists: every pair of removals and what comes after
    v.push(job("longer lists", |ctx| {
        let n = *ctx.pick(&[5usize, 9, 16, 17]);
        let mut l = L::new();
        for i in 0..n {
            let v = l.value();
            l.ll.push_rear(v);
            let h = l.ll.rear();
            l.added(ctx, i, v, h);
        }
        for _ in 0..2 {
            let i = ctx.choose(l.m.len());
            let got = l.ll.remove_at(l.m[i].0);
            ctx.op(|| format!("remove_at(element {i}) = {got:?}"));
            l.removed(ctx, i, got, "remove_at");
            l.check(ctx);
        }
        for _ in 0..3 {
            let v = l.value();
            let front = ctx.flag();
            let at = if front { 0 } else { l.m.len() };
            if front {
                l.ll.push_front(v)
            } else {
                l.ll.push_rear(v)
            }
            ctx.op(|| format!("push {v} at the {}", if front { "front" } else { "rear" }));
            let h = if front { l.ll.front() } else { l.ll.rear() };
            l.added(ctx, at, v, h);
            l.check(ctx);
        }
        l.mutate(ctx);
        l.check(ctx);
        while !l.m.is_empty() {
            let got = l.ll.pop_front();
            l.removed(ctx, 0, got, "pop_front");
            l.check(ctx);
        }
    }));
    // lists longer than a byte or 16 bits can index
    v.push(job("very long lists", |ctx| {
        let n = *ctx.pick(ctx.tier.pick(&[254usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 200_001][..], &[254, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 200_001, 3_000_000]));
        let front = ctx.flag();
        let how = ctx.choose(4) as u64;
        let mut l: LinkedList<u32> = LinkedList::new();
        let mut m: std::collections::VecDeque<u32> = Default::default();
        let mut handle = vec![];
        for v in 0..n as u32 {
            if front {
                l.push_front(v);
                m.push_front(v);
                handle.push(l.front());
            } else {
                l.push_rear(v);
                m.push_back(v);
                handle.push(l.rear());
            }
        }
        if how > 0 {
            l = ctx.ok(value::through(&l, how));
        }
        ctx.ops(n as u64, || format!("{n} pushes{}", ["", ", serialized and back", ", serialized with names and back", ", serialized in another order and back"][how as usize]));
        let same = |ctx: &mut Ctx, l: &LinkedList<u32>, m: &std::collections::VecDeque<u32>, what: &str| {
            ctx.ensure(l.len() == m.len(), || format!("{what}: length {}, expected {}", l.len(), m.len()));
            let at = l.iter().zip(m).position(|(a, b)| a != b);
            ctx.ensure(at.is_none() && l.iter().take(m.len() + 5).count() == m.len(), || format!("{what}: iteration over {} elements differs at {at:?}", m.len()));
        };
        same(ctx, &l, &m, "pushed");
        for (v, &p) in handle.iter().enumerate() {
            let got = l.get(p).and_then(|n| n.data()).copied();
            ctx.ensure(got == Some(v as u32), || format!("the handle of element {v} holds {got:?}"));
        }
        // every third goes, by its handle
        for v in (0..n as u32).step_by(3) {
            let got = l.remove_at(handle[v as usize]);
            ctx.ensure(got == Some(v), || format!("remove_at gives {got:?}, expected {v}"));
        }
        m.retain(|v| v % 3 != 0);
        ctx.ops(n as u64 / 3, || "every third removed".into());
        same(ctx, &l, &m, "every third removed");
        // as many come back, beside what is there and at the ends
        for v in (1..n as u32).step_by(300) {
            if v % 3 != 0 {
                l.insert_at(handle[v as usize], InsertDirection::Right, v + 10_000_000);
            }
        }
        m = m.into_iter().flat_map(|v| [Some(v), ((v - 1) % 300 == 0).then_some(v + 10_000_000)]).flatten().collect();
        ctx.ops(n as u64 / 300, || "some inserted at the right of others".into());
        same(ctx, &l, &m, "some inserted");
        for v in 0..n as u32 / 2 {
            l.push_front(v + 20_000_000);
            m.push_front(v + 20_000_000);
        }
        same(ctx, &l, &m, "half as many pushed");
        for k in 0..m.len() + 1 {
            let (got, want) = if k % 2 == 0 { (l.pop_front(), m.pop_front()) } else { (l.pop_rear(), m.pop_back()) };
            ctx.ensure(got == want, || format!("pop {k} gives {got:?}, expected {want:?}"));
        }
        ctx.ensure(l.len() == 0 && l.iter().next().is_none(), || "something is left".into());
        ctx.ops(n as u64, || "all popped, from both ends".into());
        ctx.state(n as u64 * 8 + front as u64 * 4 + how);
    }));
    v
}

fn main() {
    engine::main(
        Check::new(
            "C21",
            "model_checking",
            "a state is the links, ends, free chain and handle order of the list; a transition is one list operation; after every operation length, ends, iteration and every live handle are compared with a plain sequence",
            jobs,
        )
        .assume(&["element values are passed through untouched, so states that differ only in values are one state"]),
    )
}
