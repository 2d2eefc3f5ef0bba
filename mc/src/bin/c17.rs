//! C17: the bit stream reads back exactly what was written, at any alignment
use mc::*;

#[derive(Clone, Copy, Debug)]
enum W {
    Bit(u8),
    Bits(u128, usize),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    /// parameter, value
    Rice(i16, i16),
    /// divisor exponent, value
    Capped(u32, i16),
}
use W::*;

const CAP_MAX: i16 = 8191;
const CAP_MIN: i16 = -8192;

fn bits(w: W) -> u128 {
    match w {
        Bit(_) => 1,
        Bits(_, n) => n as u128,
        U8(_) => 8,
        U16(_) => 16,
        U32(_) => 32,
        U64(_) => 64,
        U128(_) => 128,
        Rice(k, v) => 2 + k as u128 + (v.unsigned_abs() >> k) as u128,
        Capped(e, v) => {
            if v.unsigned_abs() >> e < 16 {
                1 + bits(Rice(e as i16, v))
            } else {
                1 + 14
            }
        }
    }
}

fn write(s: &mut AudioStream, w: W) {
    match w {
        Bit(b) => s.write_bit(b),
        Bits(v, n) => s.write_bits(v, n),
        U8(v) => s.write::<u8>(v),
        U16(v) => s.write::<u16>(v),
        U32(v) => s.write::<u32>(v),
        U64(v) => s.write::<u64>(v),
        U128(v) => s.write::<u128>(v),
        Rice(k, v) => s.write_compressed(k, v),
        Capped(1, v) => s.write_compressed_capped::<2>(v),
        Capped(2, v) => s.write_compressed_capped::<4>(v),
        Capped(4, v) => s.write_compressed_capped::<16>(v),
        Capped(8, v) => s.write_compressed_capped::<256>(v),
        Capped(e, _) => unreachable!("{e}"),
    }
}

fn read(s: &mut AudioStream, w: W) -> (i128, i128) {
    let mask = |v: u128, n: usize| if n >= 128 { v } else { v & ((1 << n) - 1) };
    match w {
        Bit(b) => (s.read_bit() as i128, (b & 1) as i128),
        Bits(v, n) => (s.read_bits(n) as i128, mask(v, n) as i128),
        U8(v) => (s.read::<u8>() as i128, v as i128),
        U16(v) => (s.read::<u16>() as i128, v as i128),
        U32(v) => (s.read::<u32>() as i128, v as i128),
        U64(v) => (s.read::<u64>() as i128, v as i128),
        U128(v) => (s.read::<u128>() as i128, v as i128),
        Rice(k, v) => (s.read_compressed(k) as i128, v as i128),
        Capped(e, v) => {
            let want = if v.unsigned_abs() >> e < 16 { v } else { v.clamp(CAP_MIN, CAP_MAX) };
            (s.read_compressed_capped(1 << e) as i128, want as i128)
        }
    }
}

/// previous content of the stream, then rewound
fn background(s: &mut AudioStream, kind: usize) {
    if kind > 0 {
        let w: u128 = [0, !0, 0x5555_5555_5555_5555_5555_5555_5555_5555, 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210][kind];
        for _ in 0..40 {
            s.write::<u128>(w);
        }
        match kind {
            1 => s.seek_start(),
            2 => s.set_bit_cursor(0),
            _ => s.offset_bit_cursor(-40 * 128),
        }
    }
}

fn pad(s: &mut AudioStream, n: usize, rng: &mut Lcg) -> Vec<W> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = left.min(61);
        let w = Bits(rng.next() as u128 & ((1 << k) - 1), k);
        write(s, w);
        v.push(w);
        left -= k;
    }
    v
}

/// writes `ws` after `align` bits, checks positions, rewinds and reads everything twice
fn check(ctx: &mut Ctx, kind: usize, align: usize, ws: &[W]) {
    let mut s = AudioStream::new();
    background(&mut s, kind);
    let mut all = pad(&mut s, align, &mut Lcg(align as u64 + 5));
    let mut pos = align as u128;
    for &w in ws {
        write(&mut s, w);
        ctx.op(|| format!("at bit {pos} over background {kind}: write {w:?}"));
        pos += bits(w);
        ctx.ensure(s.bit_cursor() == pos && s.len() as u128 == pos, || {
            format!("after writing {w:?} the cursor is at {}, expected {pos}", s.bit_cursor())
        });
        all.push(w);
    }
    for round in 0..2 {
        if round == 0 {
            s.seek_start()
        } else {
            s.set_bit_cursor(0)
        }
        let mut pos = 0u128;
        for &w in &all {
            let (got, want) = read(&mut s, w);
            pos += bits(w);
            ctx.ensure(got == want, || {
                format!("alignment {align}, background {kind}: {w:?} ending at bit {pos} reads back as {got}, expected {want}")
            });
            ctx.ensure(s.bit_cursor() == pos, || format!("after reading {w:?} the cursor is at {}, expected {pos}", s.bit_cursor()));
        }
    }
    let mut h = H::new(align as u64 * 8 + kind as u64);
    h.bytes(format!("{ws:?}").as_bytes());
    ctx.outcome(h.get());
    ctx.state(pos as u64 ^ (kind as u64) << 40);
}

/// the coded bits of one field, first bit first
fn coded(w: W, out: &mut format::BitW) {
    let mut field = |v: u128, n: usize| (0..n).for_each(|i| out.bit((v >> i) as u32 & 1));
    match w {
        Bit(b) => field(b as u128, 1),
        Bits(v, n) => field(v, n),
        U8(v) => field(v as u128, 8),
        U16(v) => field(v as u128, 16),
        U32(v) => field(v as u128, 32),
        U64(v) => field(v as u128, 64),
        U128(v) => field(v, 128),
        Rice(k, v) => out.rice(v as i32, k as u32),
        Capped(e, v) => {
            if v.unsigned_abs() >> e < 16 {
                field(0, 1);
                out.rice(v as i32, e);
            } else {
                field(1, 1);
                field(v.clamp(CAP_MIN, CAP_MAX) as u128, 14);
            }
        }
    }
}

/// a stream against a plain list of the fields in it
struct Model {
    s: AudioStream,
    /// fields from the start of the stream on, each with the bit it starts at
    fields: Vec<(usize, W)>,
    end: usize,
    /// the field the cursor is at
    at: usize,
    furthest: usize,
}

impl Model {
    fn pos(&self) -> usize {
        self.fields.get(self.at).map_or(self.end, |f| f.0)
    }
    fn show(&self, ctx: &mut Ctx, after: &str) {
        let pos = self.pos();
        ctx.ensure(self.s.bit_cursor() == pos as u128 && self.s.len() == pos, || {
            format!("after {after}: the position is {} and {}, expected {pos}", self.s.bit_cursor(), self.s.len())
        });
        ctx.ensure(self.s.capacity() == self.furthest, || {
            format!("after {after}: {} bits said to have been written at most, expected {}", self.s.capacity(), self.furthest)
        });
        ctx.ensure(self.s.capacity_upperbound() as u64 >= self.furthest as u64 && self.s.capacity_upperbound() as u64 == 128 * self.s.blocks_allocated() as u64, || {
            format!("after {after}: {} bits in {} blocks are allocated for {}", self.s.capacity_upperbound(), self.s.blocks_allocated(), self.furthest)
        });
    }
    fn write(&mut self, w: W) {
        write(&mut self.s, w);
        let pos = self.pos();
        // what comes after something written over is not defined
        self.fields.truncate(self.at);
        self.fields.push((pos, w));
        self.at += 1;
        self.end = pos + bits(w) as usize;
        self.furthest = self.furthest.max(self.end);
    }
    fn words(&self) -> format::BitW {
        let mut b = format::BitW::default();
        self.fields.iter().for_each(|&(_, w)| coded(w, &mut b));
        b
    }
    fn peek(&mut self, ctx: &mut Ctx, all: &format::BitW, n: usize) {
        let pos = self.pos();
        let want = (0..n).fold(0u128, |a, i| a | (all.words[(pos + i) / 128] >> ((pos + i) % 128) & 1) << i);
        for _ in 0..2 {
            let got = match n {
                8 => self.s.peek::<u8>(),
                64 => self.s.peek::<i64>(),
                _ => self.s.peek_bits(n),
            };
            ctx.ensure(got == want, || format!("peeking {n} bits at {pos} shows {got:#x}, expected {want:#x}"));
        }
    }
    fn read(&mut self, ctx: &mut Ctx) {
        let (pos, w) = self.fields[self.at];
        let (got, want) = read(&mut self.s, w);
        ctx.ensure(got == want, || format!("{w:?} at bit {pos} reads back as {got}, expected {want}"));
        self.at += 1;
    }
}

fn histories(ctx: &mut Ctx, lead: usize, first: usize, depth: usize) {
    const MENU: [W; 8] =
        [Bit(1), Bits(0b10101, 5), Bits(!0 << 127 | 9, 128), U16(0x7ffe), Rice(2, -517), Rice(7, 32767), Capped(2, 9000), Bits(0x1234_5678_9abc_def0_0fed_cba9_8765, 113)];
    let mut m = Model { s: AudioStream::new(), fields: vec![], end: 0, at: 0, furthest: 0 };
    if lead > 0 {
        m.write(Bits(0x5a5a_5a5a_a5a5_a5a5_0f0f_0f0f_3c3c_3c3c & ((1 << lead) - 1), lead));
    }
    for i in 0..depth {
        let op = if i == 0 { first } else { ctx.choose(18) };
        let what = match op {
            0..8 => {
                m.write(MENU[op]);
                format!("writing {:?}", MENU[op])
            }
            8 | 9 => {
                let n = if op == 8 { 1 } else { m.fields.len() - m.at };
                if m.at == m.fields.len() {
                    return;
                }
                for _ in 0..n {
                    m.read(ctx);
                }
                format!("reading {n} fields")
            }
            10 => {
                let all = m.words();
                for n in [0, 1, 8, 31, 64, 127, 128] {
                    if m.pos() + n <= m.end {
                        m.peek(ctx, &all, n);
                    }
                }
                "peeking".into()
            }
            11 => {
                m.s.seek_start();
                m.at = 0;
                "seeking to the start".into()
            }
            12 => {
                m.at = m.fields.len();
                m.s.set_bit_cursor(m.end as u128);
                "going to the end".into()
            }
            13 => {
                m.at = m.fields.len() / 2;
                let to = m.pos() as u128;
                m.s.set_bit_cursor(to);
                format!("going to field {}", m.at)
            }
            14 => {
                if m.at == 0 {
                    return;
                }
                let from = m.pos();
                m.at -= 1;
                let by = m.pos() as i128 - from as i128;
                m.s.offset_bit_cursor(by);
                "going back a field".into()
            }
            15 => {
                m.s.clear();
                (m.fields, m.end, m.at, m.furthest) = (vec![], 0, 0, 0);
                "clearing".into()
            }
            16 => {
                m.s = ctx.through(&m.s);
                "serializing and restoring".into()
            }
            _ => {
                m.s.zero();
                for i in 0..m.fields.len() {
                    let (pos, w) = m.fields[i];
                    let zeros = bits(w) as usize;
                    // long codes become several fields' worth of zeros
                    m.fields[i] = (pos, Bits(0, zeros.min(128)));
                    if zeros > 128 {
                        // from here on nothing is compared
                        m.fields.truncate(i + 1);
                        m.end = pos + 128;
                        if m.at > i + 1 {
                            m.at = i + 1;
                        }
                        let to = m.pos() as u128;
                m.s.set_bit_cursor(to);
                        break;
                    }
                }
                "zeroing".into()
            }
        };
        ctx.op(|| format!("{what}, now at {}", m.pos()));
        m.show(ctx, &what);
        let mut h = H::new(m.pos() as u64);
        h.add(m.end as u64).add(m.furthest as u64);
        m.fields.iter().for_each(|(p, w)| {
            h.add(*p as u64).bytes(format!("{w:?}").as_bytes());
        });
        ctx.state(h.get());
    }
    m.s.seek_start();
    m.at = 0;
    let all = m.words();
    while m.at < m.fields.len() {
        for n in [5, 128] {
            if m.pos() + n <= m.end {
                m.peek(ctx, &all, n);
            }
        }
        m.read(ctx);
    }
    m.show(ctx, "reading all of it");
    ctx.outcome(H::new(m.end as u64).add(m.furthest as u64).add(m.s.blocks_allocated() as u64).get());
}

const OPS: &[W] = &[
    Bit(0),
    Bit(1),
    Bits(!0, 0),
    Bits(0b101, 3),
    Bits(!0, 5),
    Bits(0, 64),
    Bits(0x1234_5678_9abc_def0_0fed_cba9_8765_4321, 65),
    Bits(!0, 127),
    Bits(0x8000_0000_0000_0000_0000_0000_0000_0001, 128),
    Bits(!0, 128),
    U8(0xa5),
    U16(0x8001),
    U32(0xdead_beef),
    U64(0x8000_0000_0000_0001),
    U128(0xfedc_ba98_7654_3210_0123_4567_89ab_cdef),
    Rice(0, -130),
    Rice(1, 0),
    Rice(1, -300),
    Rice(3, 1029),
    Rice(8, -32767),
    Rice(14, 32767),
    Capped(1, -31),
    Capped(1, 20000),
    Capped(4, -20000),
    Capped(8, 4095),
];

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for kind in 0..4usize {
        for (i, &first) in OPS.iter().enumerate() {
            v.push(job(format!("pairs background={kind} first={i} {first:?}"), move |ctx| {
                let align = ctx.choose(129);
                let b = *ctx.pick(OPS);
                check(ctx, kind, align, &[first, b, Bits(0b1011, 4)]);
            }));
            v.push(job(format!("sequences background={kind} first={i} {first:?}"), move |ctx| {
                let aligns = ctx.tier.pick(&[0usize, 1, 63, 127][..], &[0usize, 1, 2, 63, 64, 65, 120, 125, 126, 127, 128][..]);
                let align = *ctx.pick(aligns);
                let mut ws = vec![first];
                for _ in 0..ctx.tier.pick(2, 3) {
                    ws.push(*ctx.pick(OPS));
                }
                ws.push(U16(0x7ffe));
                check(ctx, kind, align, &ws);
            }));
        }
        // fields of every width at every alignment
        v.push(job(format!("every width background={kind}"), move |ctx| {
            let n = ctx.choose(129);
            let align = ctx.choose(128);
            let val = *ctx.pick(&[!0u128, 0, 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa, 1]);
            let m = if n == 128 { !0 } else { (1u128 << n) - 1 };
            check(ctx, kind, align, &[Bits(val & m, n), Bits(!val & m, n), Bit(1)]);
        }));
    }
    // writing again over what was written, at other alignments
    v.push(job("overwrite", |ctx| {
        let mut s = AudioStream::new();
        let a = *ctx.pick(OPS);
        let n = ctx.choose(40);
        for _ in 0..n {
            write(&mut s, a);
        }
        s.seek_start();
        let shift = ctx.choose(12);
        let mut all = pad(&mut s, shift * 11, &mut Lcg(3));
        let b = *ctx.pick(OPS);
        for _ in 0..20 {
            write(&mut s, b);
            all.push(b);
        }
        write(&mut s, U32(77));
        all.push(U32(77));
        ctx.ops(n as u64 + 21, || format!("{n} x {a:?}, rewind, {shift}*11 bits, 20 x {b:?}, U32(77)"));
        s.seek_start();
        for &w in &all {
            let (got, want) = read(&mut s, w);
            ctx.ensure(got == want, || format!("{w:?} reads back as {got}, expected {want}, after overwriting {n} x {a:?}"));
        }
        ctx.outcome(s.bit_cursor() as u64 * 41 + n as u64);
    }));
    // every residual with every parameter, one after the other: alignments go by as they come
    for k in 0..=14i16 {
        for part in 0..8i32 {
            v.push(job(format!("all residuals parameter={k} part={part}"), move |ctx| {
                let kind = ctx.choose(if ctx.tier.thorough() { 2 } else { 1 });
                let start = ctx.choose(ctx.tier.pick(1, 4));
                let step = if ctx.tier.thorough() || k >= 4 { 1 } else { [41, 23, 11, 5][k as usize] };
                let mut s = AudioStream::new();
                background(&mut s, kind);
                pad(&mut s, start * 37, &mut Lcg(9));
                let lo = -32767 + part * 8192;
                let hi = (lo + 8191).min(32767);
                let vals: Vec<i16> = (lo..=hi).step_by(step).chain([lo, hi]).map(|v| v as i16).collect();
                let mut pos = s.bit_cursor();
                for &v in &vals {
                    s.write_compressed(k, v);
                    pos += bits(Rice(k, v));
                    ctx.ensure(s.bit_cursor() == pos, || format!("residual {v} with parameter {k} ends at bit {}, expected {pos}", s.bit_cursor()));
                }
                s.set_bit_cursor(start as u128 * 37);
                for &v in &vals {
                    let got = s.read_compressed(k);
                    ctx.ensure(got == v, || format!("residual {v} with parameter {k} reads back as {got}"));
                }
                ctx.ensure(s.bit_cursor() == pos, || format!("reading ends at bit {}, writing ended at {pos}", s.bit_cursor()));
                ctx.ops(2 * vals.len() as u64, || format!("every residual in {lo}..={hi} with parameter {k}"));
                for v in vals {
                    ctx.outcome(v as u16 as u64 | (k as u64) << 16);
                }
            }));
        }
        // values at the edges of the unary part, at every alignment
        v.push(job(format!("residual edges parameter={k}"), move |ctx| {
            let align = ctx.choose(128);
            let mut e: Vec<i32> = vec![0, 1, 32767, 32766];
            for q in [1i32, 15, 16, 126, 127, 128, 129, 130, 254, 255, 256, 257, 383, 384, 385, 512] {
                for d in -1..=1 {
                    e.push((q << k) + d);
                }
            }
            e.retain(|&x| (0..=32767).contains(&x));
            let m = *ctx.pick(&e) as i16;
            let m = if ctx.flag() { -m } else { m };
            let kind = ctx.choose(2);
            check(ctx, kind, align, &[Rice(k, m), Rice(k, -m), Bit(1), Rice(k, m)]);
        }));
    }
    for e in [1u32, 2, 4, 8] {
        v.push(job(format!("all capped values divisor={}", 1 << e), move |ctx| {
            let align = *ctx.pick(&[0usize, 1, 64, 113, 120, 127]);
            let ws: Vec<W> = (-32767..=32767i32).map(|v| Capped(e, v as i16)).collect();
            let part = ctx.choose(8);
            let ws = &ws[part * 8192..((part + 1) * 8192).min(ws.len())];
            check(ctx, 0, align, ws);
        }));
    }
    // fields of all kinds, one after the other, for megabytes
    v.push(job("many small fields", |ctx| {
        let n = ctx.tier.pick(3_000_000usize, 40_000_000);
        let kind = ctx.choose(2);
        let seed = ctx.choose(3) as u64;
        let field = |i: usize| {
            let w = (i as u64 + seed * 977 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 16;
            let v = (w >> 8) as u16;
            match w % 11 {
                0 => Bit(v as u8 & 1),
                1 => U8(v as u8),
                2 => U16(v),
                3 => Bits(v as u128 & 7, 3),
                4 => Bits(v as u128, 16 + (w >> 30) as usize % 20),
                5 => Capped(4, (v as i16).max(-32767)),
                6 => Rice(13, (v as i16).max(-32767)),
                7 => Rice(3, v as i16 >> 9),
                k => Rice(k as i16, (v as i16).max(-32767) >> 3),
            }
        };
        let mut s = AudioStream::new();
        background(&mut s, kind * 3);
        let mut pos = 0;
        for i in 0..n {
            write(&mut s, field(i));
            pos += bits(field(i));
        }
        ctx.ops(n as u64, || format!("{n} fields, {pos} bits, seed {seed}"));
        ctx.ensure(s.bit_cursor() == pos, || format!("{n} fields end at bit {}, expected {pos}", s.bit_cursor()));
        // twice: reading leaves everything as it is
        for _ in 0..2 {
            s.seek_start();
            let mut pos = 0;
            for i in 0..n {
                let w = field(i);
                let (got, want) = read(&mut s, w);
                pos += bits(w);
                ctx.ensure(got == want, || format!("field {i} of {n}, {w:?} ending at bit {pos}, reads back as {got}, expected {want}"));
            }
            ctx.ensure(s.bit_cursor() == pos, || format!("reading {n} fields ends at bit {}, expected {pos}", s.bit_cursor()));
        }
        ctx.state(pos as u64 + seed);
        ctx.outcome(pos as u64 + seed);
    }));
    for lead in [0usize, 1, 57, 120] {
        for first in 0..18 {
            v.push(job(format!("histories lead={lead} first={first}"), move |ctx| {
                histories(ctx, lead, first, ctx.tier.pick(5, 6));
            }));
        }
    }
    // positions a 16-bit, 24-bit or 32-bit number cannot hold
    v.push(job("far positions", |ctx| {
        let target = *ctx.pick(ctx.tier.pick(&[1u128 << 16, 1 << 22, 1 << 24, 1 << 31, 1 << 32][..], &[1 << 16, 1 << 22, 1 << 24, 1 << 28, 1 << 31, 1 << 32, 1 << 33, 1 << 35]));
        let _alone = scale::alone();
        let word = |i: u128| (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835);
        let mut s = AudioStream::new();
        let lead = ctx.choose(2) * 5;
        s.write_bits(0b10110u128, lead);
        let n = target / 128 - 1;
        for i in 0..n {
            s.write::<u128>(word(i));
        }
        // what follows crosses the boundary
        for &w in OPS {
            write(&mut s, w);
        }
        let mut pos = lead as u128 + n * 128;
        let end = pos + OPS.iter().map(|&w| bits(w)).sum::<u128>();
        ctx.ops(n as u64, || format!("{lead} bits, {n} words, then one of every field"));
        ctx.ensure(s.bit_cursor() == end, || format!("writing ends at bit {}, expected {end}", s.bit_cursor()));
        s.set_bit_cursor(pos);
        for &w in OPS {
            let (got, want) = read(&mut s, w);
            pos += bits(w);
            ctx.ensure(got == want && s.bit_cursor() == pos, || format!("{w:?} ending at bit {pos} reads back as {got}, expected {want}"));
        }
        s.seek_start();
        let got = s.read_bits(lead);
        ctx.ensure(got == 0b10110 & ((1 << lead) - 1), || format!("the first {lead} bits read back as {got:b}"));
        for i in 0..n {
            let got = s.read::<u128>();
            ctx.ensure(got == word(i), || format!("word {i} of {n} reads back as {got:x}"));
        }
        for _ in 0..2 {
            s.set_bit_cursor(pos - OPS.iter().map(|&w| bits(w)).sum::<u128>());
            for &w in OPS {
                let (got, want) = read(&mut s, w);
                ctx.ensure(got == want, || format!("{w:?}, read again, is {got}, expected {want}"));
            }
        }
        s.set_bit_cursor(lead as u128 + n * 128);
        ctx.ensure(s.bit_cursor() == end - OPS.iter().map(|&w| bits(w)).sum::<u128>(), || format!("reading {n} words ends at bit {}", s.bit_cursor()));
        // back and forth across all of it
        for k in 0..40u128 {
            let i = if k % 2 == 0 { n - 1 - k * (n / 50) } else { k * (n / 50) };
            let at = lead as u128 + i * 128;
            let d = at as i128 - s.bit_cursor() as i128;
            if k % 3 == 0 && d.unsigned_abs() < 1 << 30 {
                s.offset_bit_cursor(d);
            } else {
                s.set_bit_cursor(at);
            }
            let got = s.read::<u128>();
            ctx.ensure(got == word(i) && s.bit_cursor() == at + 128, || format!("word {i} of {n}, visited after others, reads back as {got:x}"));
        }
        ctx.state(end as u64);
        ctx.outcome(end as u64);
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C17",
        "model_checking",
        "a state is a bit position over a background; a transition is one write on the stream; every execution writes one sequence, checks the position after each write, rewinds and reads every field twice",
        jobs,
    ))
}
