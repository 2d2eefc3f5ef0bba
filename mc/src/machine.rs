//! The adhoc codec as a state machine over whole histories of calls, explored against a model recording.

use crate::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Do {
    /// encode calls of these sizes (in blocks): a new recording on a rewound codec, or more of the one being made
    Rec(Sig, Vec<usize>),
    Init,
    Seek(u64),
    /// decode into a buffer of so many samples
    Dec(usize),
    SaveLoad,
}

/// what the documentation lets a caller do next depends on this
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    Rewound,
    Encoding,
    Decoding,
}

pub struct Machine {
    pub c: AdhocCodec,
    pub rate: u32,
    pub ch: usize,
    pub at: At,
    /// the recording: 16-bit values
    pub pcm: Vec<i16>,
    /// samples delivered since the start of the recording
    pub pos: usize,
    encoded: usize,
}

impl Machine {
    pub fn new(rate: u32, ch: usize) -> Self {
        Machine { c: adhoc(rate, ch, 0), rate, ch, at: At::Rewound, pcm: vec![], pos: 0, encoded: 0 }
    }
    pub fn blocks(&self) -> usize {
        self.pcm.len() / self.ch
    }
    pub fn legal(&self, op: &Do) -> bool {
        match op {
            Do::Rec(..) => self.at != At::Decoding,
            Do::Dec(_) => self.at != At::Encoding,
            _ => true,
        }
    }
    pub fn state(&self) -> u64 {
        H::new(self.at as u64).add(hash_i16(&self.pcm)).add(self.pos as u64).add(self.ch as u64).get()
    }
    pub fn apply(&mut self, ctx: &mut Ctx, op: &Do) {
        match op {
            Do::Rec(sig, sizes) => {
                for &n in sizes {
                    if self.at == At::Rewound && n > 0 {
                        self.pcm.clear();
                        self.at = At::Encoding;
                    }
                    let x = signal_from(*sig, self.encoded, n, self.ch);
                    self.encoded += n;
                    encode(ctx, &mut self.c, &x, self.ch);
                    self.pcm.extend(x.iter().map(|&x| quant(x)));
                }
            }
            Do::Init => {
                ctx.op(|| "init()".into());
                self.c.init();
                self.at = At::Rewound;
                self.pos = 0;
            }
            Do::Seek(t) => {
                ctx.op(|| format!("seek(Start({t}))"));
                Streamable::seek(&mut self.c, SeekFrom::Start(*t));
                let to = (self.rate as u128 * *t as u128 / 1000).min(self.blocks() as u128) as usize;
                self.pos = to * self.ch;
                self.at = if *t == 0 { At::Rewound } else { At::Decoding };
            }
            Do::Dec(n) => {
                let left = self.pcm.len() - self.pos;
                let want = (n / self.ch * self.ch).min(left);
                const MARK: f32 = 77.25;
                let mut b = vec![MARK; *n];
                let r = Streamable::decode(&mut self.c, &mut b);
                ctx.op(|| format!("decode({n}) = {r:?}"));
                ctx.ensure(r == (want > 0).then_some(want), || {
                    format!("decode into {n} samples with {left} left in {} channels reported {r:?}, expected {want}", self.ch)
                });
                for i in 0..want {
                    let w = self.pcm[self.pos + i];
                    ctx.ensure(same_pcm(b[i], w), || {
                        format!("decode into {n} samples: sample {} is {}, expected {}", self.pos + i, b[i], w as f32 / 32767.0)
                    });
                }
                ctx.ensure(b[want..].iter().all(|&x| x == MARK), || format!("decode({n}) = {r:?} wrote behind what it reported"));
                self.pos += want;
                if *n >= self.ch {
                    self.at = At::Decoding;
                }
            }
            Do::SaveLoad => {
                let bytes = save(&self.c);
                ctx.op(|| format!("save_to = {} bytes, load", bytes.len()));
                match load(&bytes) {
                    Some(c) => self.c = c,
                    None => ctx.fail(format!("loading the {} saved bytes fails", bytes.len())),
                }
                self.at = At::Rewound;
                self.pos = 0;
            }
        }
        self.counted(ctx);
        ctx.state(self.state());
    }
    pub fn counted(&self, ctx: &mut Ctx) {
        let n = self.c.calculate_sample_count_per_channel();
        ctx.ensure(n == self.blocks() as u64, || format!("sample count {n}, {} blocks recorded", self.blocks()));
        let i = self.c.info();
        ctx.ensure(i.channels() == self.ch && i.frequency() == self.rate as usize, || "info changed".into());
    }
    /// everything from where it stands, then everything from the start
    pub fn finish(&mut self, ctx: &mut Ctx, buf: usize) {
        if self.at != At::Encoding {
            let got = drain(ctx, &mut self.c, buf, self.pcm.len() - self.pos);
            expect_pcm(ctx, &got, &self.pcm[self.pos..], "the rest");
            ctx.outcome(hash_f32(&got));
        }
        self.c.init();
        let got = drain(ctx, &mut self.c, buf + self.ch, self.pcm.len());
        expect_pcm(ctx, &got, &self.pcm, "rewound and decoded");
        ctx.outcome(hash_f32(&got));
    }
    pub fn finish_by_seeks(&mut self, ctx: &mut Ctx, times: impl Iterator<Item = u64>) {
        for t in times {
            self.apply(ctx, &Do::Seek(t));
            let got = drain(ctx, &mut self.c, 3 * self.ch + 40, self.pcm.len() - self.pos);
            expect_pcm(ctx, &got, &self.pcm[self.pos..], &format!("after seek({t})"));
        }
    }
}

/// every legal history of `depth` calls out of `ops`, each finished by `end`
pub fn histories(
    name: &str,
    ch: usize,
    depth: usize,
    ops: Vec<Do>,
    end: impl Fn(&mut Ctx, &mut Machine) + Send + Sync + 'static,
) -> Job {
    job(format!("{name} ch={ch} depth={depth} of {} calls", ops.len()), move |ctx| {
        // one block per millisecond, so every block is a target
        let mut m = Machine::new(1000, ch);
        for _ in 0..depth {
            let legal: Vec<&Do> = ops.iter().filter(|o| m.legal(o)).collect();
            let op = *ctx.pick(&legal);
            m.apply(ctx, op);
        }
        end(ctx, &mut m);
    })
}
