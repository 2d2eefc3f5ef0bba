//! C26: looking at a codec changes nothing
use mc::*;

/// a codec of either kind under one history of calls
enum Any {
    A(AdhocCodec),
    W(WavCodec),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Encode(usize),
    Decode(usize),
    Init,
    Seek(SeekFrom),
    SaveLoad,
}
use Op::*;

/// where an adhoc codec is: only these let their caller encode, or decode, next
#[derive(Clone, Copy, PartialEq)]
enum At {
    Rewound,
    Encoding,
    Decoding,
}

const LOOKS: [&str; 9] = [
    "info()",
    "filesize_upperbound()",
    "calculate_sample_count_per_channel()",
    "save_to",
    "decode into nothing",
    "decode into less than a block",
    "decode with nothing left",
    "encode of less than a block",
    "everything, twice",
];

struct Run {
    c: Any,
    kind: (bool, usize, u32),
    at: At,
    /// blocks encoded, for the signal to go on
    encoded: usize,
    /// blocks recorded, and how many of them were delivered
    len: usize,
    pos: usize,
    /// what the calls showed
    shows: Vec<u64>,
}
impl Run {
    fn new(kind: (bool, usize, u32)) -> Self {
        let (is_adhoc, ch, level) = kind;
        let c = if is_adhoc { Any::A(adhoc(1000, ch, level)) } else { Any::W(WavCodec::new(StreamInfo::new(1000, ch as u32))) };
        Run { c, kind, at: At::Rewound, encoded: 0, len: 0, pos: 0, shows: vec![] }
    }
    /// whether the documentation lets a caller do this now
    fn legal(&self, op: Op) -> bool {
        match (&self.c, op) {
            (Any::W(_), Init) => false,
            (Any::W(_), _) => true,
            (Any::A(_), Encode(_)) => self.at != At::Decoding,
            (Any::A(_), Decode(_)) => self.at != At::Encoding,
            (Any::A(_), Seek(s)) => matches!(s, SeekFrom::Start(_)),
            (Any::A(_), _) => true,
        }
    }
    fn decode(&mut self, n: usize) -> (Option<usize>, u64) {
        let mut b = vec![0.125f32; n];
        let r = match &mut self.c {
            Any::A(a) => Streamable::decode(a, &mut b),
            Any::W(w) => w.decode(&mut b),
        };
        let h = hash_f32(&b);
        (r, h)
    }
    fn apply(&mut self, op: Op) {
        let (_, ch, _) = self.kind;
        let mut h = H::new(26);
        match op {
            Encode(n) => {
                let x = signal_from(Sig::Loud, self.encoded, n, ch);
                self.encoded += n;
                let r = match &mut self.c {
                    Any::A(a) => {
                        if self.at == At::Rewound {
                            self.len = 0;
                        }
                        self.len += n;
                        self.pos = self.len;
                        self.at = At::Encoding;
                        Streamable::encode(a, &x)
                    }
                    Any::W(w) => {
                        self.pos += n;
                        self.len = self.len.max(self.pos);
                        w.encode(&x)
                    }
                };
                h.add(r.map_or(!0, |r| r as u64));
            }
            Decode(n) => {
                let (r, d) = self.decode(n * ch);
                self.pos = (self.pos + n).min(self.len);
                self.at = At::Decoding;
                h.add(r.map_or(!0, |r| r as u64)).add(d);
            }
            Init => {
                if let Any::A(a) = &mut self.c {
                    a.init();
                }
                self.at = At::Rewound;
                self.pos = 0;
            }
            Seek(s) => match &mut self.c {
                Any::A(a) => {
                    Streamable::seek(a, s);
                    let SeekFrom::Start(t) = s else { unreachable!() };
                    self.pos = (t as usize).min(self.len);
                    self.at = if t == 0 { At::Rewound } else { At::Decoding };
                }
                Any::W(w) => {
                    w.seek(s);
                    let p = match s {
                        SeekFrom::Start(t) => t as i64,
                        SeekFrom::Current(t) => self.pos as i64 + t,
                        SeekFrom::End(t) => self.len as i64 + t,
                    };
                    self.pos = p.clamp(0, self.len as i64) as usize;
                }
            },
            SaveLoad => {
                let bytes = self.save();
                h.bytes(&bytes);
                match &mut self.c {
                    Any::A(a) => match load(&bytes) {
                        Some(l) => *a = l,
                        None => {
                            h.add(404);
                        }
                    },
                    Any::W(w) => match load_wav(&bytes) {
                        Ok(l) => *w = l,
                        Err(_) => {
                            h.add(404);
                        }
                    },
                }
                self.at = At::Rewound;
                self.pos = 0;
            }
        }
        self.shows.push(h.get());
    }
    fn save(&self) -> Vec<u8> {
        match &self.c {
            Any::A(a) => save(a),
            Any::W(w) => save_wav(w),
        }
    }
    /// looks at the codec and says what it saw, if this look is possible now
    fn look(&mut self, k: usize) -> Option<u64> {
        let ch = self.kind.1;
        let mut h = H::new(k as u64);
        match (k, &mut self.c) {
            (0, Any::A(a)) => {
                let (i, j) = (a.info(), Streamable::info(a));
                h.add(i.frequency() as u64).add(i.channels() as u64).add(j.frequency() as u64).add(j.channels() as u64);
            }
            (0, Any::W(w)) => {
                let i = Streamable::info(w);
                h.add(i.frequency() as u64).add(i.channels() as u64);
            }
            (1, Any::A(a)) => {
                h.add(Streamable::filesize_upperbound(a));
            }
            (1, Any::W(w)) => {
                h.add(w.filesize_upperbound());
            }
            (2, Any::A(a)) => {
                h.add(a.calculate_sample_count_per_channel());
            }
            (2, Any::W(_)) => return None,
            (3, _) => {
                h.bytes(&self.save());
            }
            (4, _) => {
                let (r, d) = self.decode(0);
                h.add(r.map_or(!0, |r| r as u64)).add(d);
            }
            (5, _) if ch > 1 => {
                let (r, d) = self.decode(ch - 1);
                h.add(r.map_or(!0, |r| r as u64)).add(d);
            }
            // while encoding, an adhoc codec stands behind its last block
            (6, _) if self.pos == self.len => {
                let (r, d) = self.decode(3 * ch + 1);
                h.add(r.map_or(!0, |r| r as u64)).add(d);
            }
            // on a rewound adhoc codec that is no new recording yet
            (7, Any::A(a)) if self.at != At::Decoding => {
                h.add(Streamable::encode(a, &vec![0.3; ch - 1]).map_or(!0, |r| r as u64));
            }
            (7, Any::W(w)) => {
                h.add(w.encode(&vec![0.3; ch - 1]).map_or(!0, |r| r as u64));
            }
            (8, _) => {
                for k in 0..8 {
                    h.add(self.look(k).unwrap_or(1));
                }
            }
            _ => return None,
        }
        Some(h.get())
    }
    fn finish(&mut self) {
        let bytes = self.save();
        self.shows.push(H::new(1).bytes(&bytes).get());
        for k in 0..3 {
            let seen = self.look(k).unwrap_or(1);
            self.shows.push(seen);
        }
        // the rest from here, unless it is being encoded, and then all of it
        let rest = if self.kind.0 && self.at == At::Encoding { 0 } else { 1 };
        for round in 0..rest + 1 {
            let mut h = H::new(2);
            for _ in 0..self.len + 3 {
                let (r, d) = self.decode(5 * self.kind.1);
                h.add(r.map_or(!0, |r| r as u64)).add(d);
                if r.is_none() {
                    break;
                }
            }
            self.shows.push(h.get());
            if round == 0 {
                match &mut self.c {
                    Any::A(a) => a.init(),
                    Any::W(w) => w.seek(SeekFrom::Start(0)),
                }
            }
        }
        for _ in 0..1 {
            let (r, d) = self.decode(1000);
            self.shows.push(H::new(3).add(r.map_or(!0, |r| r as u64)).add(d).get());
        }
    }
}

fn histories(kind: (bool, usize, u32), depth: usize) -> Job {
    job(format!("adhoc={} ch={} level={} depth={depth}", kind.0, kind.1, kind.2), move |ctx| {
        const A: [Op; 8] = [Encode(4), Decode(2), Init, Seek(SeekFrom::Start(3)), SaveLoad, Encode(1), Decode(9), Seek(SeekFrom::Start(0))];
        const W: [Op; 8] = [
            Encode(4),
            Decode(2),
            Seek(SeekFrom::Start(3)),
            Seek(SeekFrom::Current(-2)),
            SaveLoad,
            Encode(1),
            Seek(SeekFrom::End(-1)),
            Decode(9),
        ];
        let ops: &[Op] = if kind.0 { &A } else { &W };
        let mut quiet = Run::new(kind);
        let mut script = vec![];
        for _ in 0..depth {
            let legal: Vec<Op> = ops.iter().copied().filter(|&o| quiet.legal(o)).collect();
            let op = *ctx.pick(&legal);
            quiet.apply(op);
            script.push(op);
        }
        quiet.finish();
        ctx.ops(depth as u64 + 4, || format!("{script:?} without looking"));
        let mut h = H::new(9);
        quiet.shows.iter().for_each(|&x| {
            h.add(x);
        });
        ctx.outcome(h.get());
        // every look before every call, and one everywhere
        for at in 0..=depth + 1 {
            for look in 0..LOOKS.len() {
                let mut r = Run::new(kind);
                let mut looked = false;
                for (i, op) in script.iter().map(Some).chain([None]).enumerate() {
                    if i == at || at == depth + 1 {
                        if let Some(seen) = r.look(look) {
                            looked = true;
                            let again = r.look(look);
                            ctx.ensure(again == Some(seen), || {
                                format!("{} before call {i} of {script:?} shows something else the second time", LOOKS[look])
                            });
                        }
                    }
                    if let Some(&op) = op {
                        r.apply(op);
                    }
                }
                if !looked {
                    continue;
                }
                r.finish();
                ctx.ops(depth as u64 + 6, || format!("{script:?} with {} before call {at}", LOOKS[look]));
                if r.shows != quiet.shows {
                    let i = (0..r.shows.len()).find(|&i| r.shows.get(i) != quiet.shows.get(i)).unwrap_or(0);
                    let what = script.get(i).map_or("what the codec holds in the end".to_string(), |o| format!("call {i}, {o:?},"));
                    let when = if at == depth + 1 { "everywhere".to_string() } else { format!("before call {at}") };
                    ctx.fail(format!("{script:?}: with {} {when}, {what} shows something else", LOOKS[look]));
                }
                ctx.state(H::new(at as u64).add(look as u64).add(h.get()).get());
            }
        }
    })
}

/// a time within what a walk recorded so far
fn quiet_time(spec: &Spec, calls: usize, j: usize) -> u64 {
    let len: usize = spec.sizes[..=calls].iter().sum();
    (len * (j % 11) / 10) as u64
}

fn jobs(tier: Tier) -> Vec<Job> {
    let mut v = vec![];
    for kind in [(true, 1, 0), (true, 2, 0), (true, 1, 6), (true, 2, 6), (true, 3, 10), (false, 1, 0), (false, 2, 0), (false, 3, 0)] {
        v.push(histories(kind, tier.pick(5, 6)));
    }
    // the same on recordings that are long or wide before anyone looks
    for (kind, calls, size) in [
        ((true, 1, 0), 70_000usize, 1usize),
        ((true, 1, 5), 70_000, 1),
        ((true, 2, 0), 33_000, 2),
        ((true, 300, 0), 2, 1),
        ((true, 65_537, 0), 2, 1),
        ((true, 1, 0), 2, 70_000),
        ((false, 1, 0), 300, 500),
        ((false, 300, 0), 2, 70),
    ] {
        v.push(job(format!("large adhoc={} ch={} level={} {calls} calls of {size}", kind.0, kind.1, kind.2), move |ctx| {
            // where in the recording to look, and what to do after
            let place = ctx.choose(4);
            let rest: &[Op] = match (place, kind.0) {
                (0, _) => &[Encode(4), Encode(1)],
                (1, true) => &[Init, Decode(9), Decode(70)],
                (1, false) => &[Seek(SeekFrom::Start(0)), Decode(9), Decode(70)],
                (2, _) => &[Seek(SeekFrom::Start(66_000)), Decode(5), Seek(SeekFrom::Start(2)), Decode(2)],
                _ => &[SaveLoad, Decode(9), Seek(SeekFrom::Start(65_535)), Decode(9)],
            };
            let at = ctx.choose(rest.len() + 1);
            let look = ctx.choose(LOOKS.len() + 1);
            let mut shows = vec![];
            for looking in [false, true] {
                let mut r = Run::new(kind);
                for _ in 0..calls {
                    r.apply(Encode(size));
                }
                for i in 0..=rest.len() {
                    if looking && i == at {
                        let (a, b) = match look.checked_sub(1) {
                            Some(k) => (r.look(k), r.look(k)),
                            // a look again and again
                            None => (Some(0), (0..300).map(|_| r.look(1).and(r.look(0)).and(r.look(2).or(Some(0))).map(|_| 0)).next_back().flatten()),
                        };
                        ctx.ensure(a == b, || format!("look {look} before {rest:?}[{i}] shows something else the second time"));
                    }
                    if let Some(&op) = rest.get(i) {
                        r.apply(op);
                    }
                }
                let bytes = r.save();
                r.shows.push(H::new(1).bytes(&bytes).get());
                if let Any::A(a) = &mut r.c {
                    a.init();
                } else {
                    r.apply(Seek(SeekFrom::Start(0)));
                }
                let mut h = H::new(2);
                loop {
                    let (n, d) = r.decode(if kind.1 > 1000 { 3 } else { 5000 } * kind.1);
                    h.add(n.map_or(!0, |n| n as u64)).add(d);
                    if n.is_none() {
                        break;
                    }
                }
                r.shows.push(h.get());
                shows.push(r.shows);
                ctx.ops(calls as u64 + 9, || format!("{calls} calls of {size}, {rest:?}{}", if looking { format!(", look {look} before {at}") } else { String::new() }));
            }
            let i = (0..shows[0].len()).find(|&i| shows[0][i] != shows[1][i]);
            ctx.ensure(i.is_none(), || format!("with look {look} before {rest:?}[{at}], call {i:?} shows something else"));
            ctx.state(H::new(look as u64).add(place as u64).add(at as u64).add(size as u64).get());
        }));
    }
    // all looks, one after the other, along long histories
    v.extend(cover::jobs("walks", tier.pick(5, 1), 24, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], |ctx, spec, k| {
        for is_adhoc in [true, false] {
            let kind = (is_adhoc, spec.ch, spec.level);
            let mut quiet = Run::new(kind);
            let mut script = vec![];
            let mut go = |r: &mut Run, op: Op| {
                if r.legal(op) {
                    r.apply(op);
                    script.push(op);
                }
            };
            for (i, &n) in spec.sizes.iter().enumerate() {
                go(&mut quiet, Encode(n));
                if i % 40 == 39 || i + 1 == spec.sizes.len() {
                    // what was recorded is read in parts, saved, and on a loaded codec recorded over
                    go(&mut quiet, [Init, SaveLoad, Seek(SeekFrom::Start(0))][(k + i / 40) % 3]);
                    for j in 0..6 {
                        go(&mut quiet, Decode(cover::buffer(k, i + j).min(300)));
                        if j % 2 == 1 {
                            go(&mut quiet, Seek(SeekFrom::Start(quiet_time(&spec, i, j + k))));
                        }
                    }
                    go(&mut quiet, [SaveLoad, Seek(SeekFrom::Start(0)), Init][(k + i / 40) % 3]);
                    go(&mut quiet, Seek(SeekFrom::Start(0)));
                }
            }
            for (j, &n) in spec.sizes.iter().enumerate().take(17) {
                go(&mut quiet, Encode(n.min(200) + j % 2));
            }
            quiet.finish();
            for every in [1usize, 7] {
                let mut r = Run::new(kind);
                for (i, &op) in script.iter().enumerate() {
                    if i % every == 0 {
                        let look = (i / every + k) % LOOKS.len();
                        // saving a long recording each time would take long
                        let look = if (look == 3 || look == 8) && i % 5 > 0 { 1 } else { look };
                        let (a, b) = (r.look(look), r.look(look));
                        ctx.ensure(a == b, || format!("{spec:?}: {} before call {i}, {op:?}, shows something else the second time", LOOKS[look]));
                    }
                    r.apply(op);
                }
                r.finish();
                ctx.ops(script.len() as u64, || format!("{spec:?}: {} calls with a look before every {every}", script.len()));
                let i = (0..r.shows.len()).find(|&i| r.shows.get(i) != quiet.shows.get(i));
                ctx.ensure(i.is_none(), || format!("{spec:?}: looking before every {every} of {} calls, call {i:?} shows something else: {:?}", script.len(), i.and_then(|i| script.get(i))));
                ctx.state(H::new(k as u64).add(every as u64).add(is_adhoc as u64).add(spec.ch as u64).get());
            }
        }
    }));
    v
}

fn main() {
    engine::main(Check::new(
        "C26",
        "model_checking",
        "an execution is one history of calls, run once without and then with each look inserted before each call; a state is a history, a look and its place; a transition is a call on the real codec, whose results must be those of the history without the look",
        jobs,
    ))
}
