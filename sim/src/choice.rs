//! Every nondeterministic decision of a run goes through here.
//!
//! A run is a pure function of the code under test and four sequences of small integers
//! (workload, schedule, faults, randomness).  While exploring, the integers come from a PRNG and
//! are recorded; while replaying or minimising they come from the recording, and every decision
//! past its end is 0, which by convention is the simplest alternative.

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0xD1B54A32D192ED03) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum S {
    Work = 0,
    Sched = 1,
    Fault = 2,
    Rand = 3,
}
pub const NSTREAMS: usize = 4;

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Tape(pub [Vec<u32>; NSTREAMS]);

struct Stream {
    rng: Rng,
    replay: Option<Vec<u32>>,
    rec: Vec<u32>,
}

pub struct Choices {
    streams: Vec<Stream>,
}

impl Choices {
    pub fn seeded(seed: u64) -> Choices {
        Choices {
            streams: (0..NSTREAMS)
                .map(|i| Stream {
                    rng: Rng::new(mix(seed ^ (i as u64 + 1).wrapping_mul(0xA24BAED4963EE407))),
                    replay: None,
                    rec: vec![],
                })
                .collect(),
        }
    }
    pub fn replay(tape: &Tape) -> Choices {
        Choices {
            streams: (0..NSTREAMS)
                .map(|i| Stream {
                    rng: Rng::new(0),
                    replay: Some(tape.0[i].clone()),
                    rec: vec![],
                })
                .collect(),
        }
    }
    fn raw(&mut self, s: S, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let st = &mut self.streams[s as usize];
        let v = match &st.replay {
            Some(t) => {
                let v = t.get(st.rec.len()).copied().unwrap_or(0);
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
            None => gen(&mut st.rng),
        };
        st.rec.push(v);
        v
    }
    /// uniform in 0..n (0 is the simplest)
    pub fn pick(&mut self, s: S, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.raw(s, n, |r| r.below(n as u64) as u32)
    }
    /// a full 32-bit value
    pub fn word(&mut self, s: S) -> u32 {
        self.raw(s, 0, |r| r.next() as u32)
    }
    /// true with probability num/den
    pub fn chance(&mut self, s: S, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        self.raw(s, 2, |r| (r.below(den as u64) < num as u64) as u32) == 1
    }
    /// index into `weights`; 0 is the simplest
    pub fn weighted(&mut self, s: S, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|x| *x as u64).sum();
        let w = weights.to_vec();
        let i = self.raw(s, weights.len() as u32, move |r| {
            let mut x = r.below(total);
            for (i, wi) in w.iter().enumerate() {
                if x < *wi as u64 {
                    return i as u32;
                }
                x -= *wi as u64;
            }
            0
        }) as usize;
        // an altered tape may ask for what was never offered
        if weights[i] == 0 {
            return weights.iter().position(|x| *x > 0).unwrap_or(0);
        }
        i
    }
    /// inclusive range, lo is the simplest; small values favoured when the range is wide
    pub fn size(&mut self, s: S, lo: u32, hi: u32) -> u32 {
        if hi <= lo {
            return lo;
        }
        let n = hi - lo + 1;
        lo + self.raw(s, n, |r| {
            let bits = 32 - (n - 1).leading_zeros();
            match r.below(3) {
                0 => r.below(n as u64) as u32,
                _ => {
                    let b = r.below(bits as u64 + 1);
                    (r.below(1u64 << b) as u32).min(n - 1)
                }
            }
        })
    }
    pub fn tape(&self) -> Tape {
        let mut t = Tape::default();
        for i in 0..NSTREAMS {
            t.0[i] = self.streams[i].rec.clone();
        }
        t
    }
    pub fn counts(&self) -> [usize; NSTREAMS] {
        let mut c = [0; NSTREAMS];
        for i in 0..NSTREAMS {
            c[i] = self.streams[i].rec.len();
        }
        c
    }
}
