//! Choice source: every random decision of a generator is drawn from here, as one number below a bound.
//! The recorded sequence of decisions (the tape) is the test case: it replays it, and shrinking works on it.
use num_bigint::BigUint;
use num_traits::{One, Zero};

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

/// Recorded decisions, grouped by the generator's `enter`/`exit`: the values drawn directly in a group and its
/// sub-groups are two separate streams, so that one can be cut without shifting the other.
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Node {
    pub vals: Vec<u64>,
    pub kids: Vec<Node>,
}

impl Node {
    pub fn size(&self) -> usize {
        1 + self.vals.len() + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn weight(&self) -> u128 {
        self.vals.iter().map(|v| *v as u128).sum::<u128>()
            + self.kids.iter().map(|k| k.weight()).sum::<u128>()
    }
    pub fn trim(&mut self) {
        self.kids.iter_mut().for_each(|k| k.trim());
        while self.vals.last() == Some(&0) {
            self.vals.pop();
        }
        while self.kids.last().map_or(false, |k| k.vals.is_empty() && k.kids.is_empty()) {
            self.kids.pop();
        }
    }
    pub fn to_json(&self) -> serde_json::Value {
        serde_json::json!([
            self.vals,
            self.kids.iter().map(|k| k.to_json()).collect::<Vec<_>>()
        ])
    }
    pub fn from_json(v: &serde_json::Value) -> Node {
        Node {
            vals: v[0]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_u64().unwrap())
                .collect(),
            kids: v[1].as_array().unwrap().iter().map(Node::from_json).collect(),
        }
    }
    pub fn at(&mut self, path: &[usize]) -> &mut Node {
        let mut n = self;
        for i in path {
            n = &mut n.kids[*i];
        }
        n
    }
    pub fn get(&self, path: &[usize]) -> Option<&Node> {
        let mut n = self;
        for i in path {
            n = n.kids.get(*i)?;
        }
        Some(n)
    }
    pub fn paths(&self, prefix: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(prefix.clone());
        for (i, k) in self.kids.iter().enumerate() {
            prefix.push(i);
            k.paths(prefix, out);
            prefix.pop();
        }
    }
}

#[derive(Default)]
struct Frame {
    tape: Node,
    vpos: usize,
    kpos: usize,
    rec: Node,
}

pub struct Src {
    frames: Vec<Frame>,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            frames: vec![Frame::default()],
            rng: Some(Rng::new(seed)),
        }
    }
    /// replays a tape; past its end every decision is 0, the simplest
    pub fn replay(tape: Node) -> Self {
        Src {
            frames: vec![Frame {
                tape,
                ..Frame::default()
            }],
            rng: None,
        }
    }
    pub fn recorded(mut self) -> Node {
        while self.frames.len() > 1 {
            self.exit();
        }
        self.frames.pop().unwrap().rec
    }
    pub fn enter(&mut self) {
        let f = self.frames.last_mut().unwrap();
        let tape = f
            .tape
            .kids
            .get_mut(f.kpos)
            .map(std::mem::take)
            .unwrap_or_default();
        f.kpos += 1;
        self.frames.push(Frame {
            tape,
            ..Frame::default()
        });
    }
    pub fn exit(&mut self) {
        let f = self.frames.pop().unwrap();
        self.frames.last_mut().unwrap().rec.kids.push(f.rec);
    }
    pub fn group<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
        self.enter();
        let r = f(self);
        self.exit();
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let f = self.frames.last_mut().unwrap();
        let v = match &mut self.rng {
            Some(r) => {
                if n == u64::MAX {
                    r.next() % n
                } else {
                    ((r.next() as u128 * n as u128) >> 64) as u64
                }
            }
            None => f.tape.vals.get(f.vpos).copied().unwrap_or(0) % n,
        };
        f.vpos += 1;
        f.rec.vals.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    /// true with probability num/den; the simplest choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // reversed so that 0 means false
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// index chosen by weight
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn big_below(&mut self, n: &BigUint) -> BigUint {
        let bits = n.bits() as usize;
        let mut v = BigUint::zero();
        for _ in 0..(bits + 95) / 32 {
            v = (v << 32usize) | BigUint::from(self.below(1 << 32));
        }
        v % n
    }
    /// element of [0, p): biased to small values, values near p, near powers of two
    pub fn field(&mut self, p: &BigUint) -> BigUint {
        match self.weighted(&[6, 3, 3, 2, 3, 2]) {
            0 => BigUint::from(self.below(10)) % p,
            1 => p - BigUint::one() - BigUint::from(self.below(6)),
            2 => {
                let k = self.idx(p.bits() as usize);
                let v = BigUint::one() << k;
                let d = self.below(4);
                let v = if self.bool() {
                    v + BigUint::from(d)
                } else if v > BigUint::from(d) {
                    v - BigUint::from(d)
                } else {
                    v
                };
                v % p
            }
            3 => {
                let half = p >> 1usize;
                (half + BigUint::from(self.below(5))) % p
            }
            4 => {
                let k = 1 + self.idx(p.bits() as usize);
                let m = BigUint::one() << k;
                self.big_below(&m) % p
            }
            _ => self.big_below(p),
        }
    }
    /// unsigned integer of `bits` bits, biased to the edges
    pub fn uint(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        match self.weighted(&[5, 3, 3, 2, 4]) {
            0 => self.below(6).min(max),
            1 => max - self.below(4).min(max),
            2 => {
                let k = self.below(bits as u64);
                let v = 1u64 << k;
                match self.below(3) {
                    0 => v,
                    1 => v.wrapping_sub(1),
                    _ => v.wrapping_add(1) & max,
                }
            }
            3 => {
                let k = 1 + self.below(bits as u64);
                let m = if k == 64 { u64::MAX } else { (1 << k) - 1 };
                self.u64() & m
            }
            _ => self.u64() & max,
        }
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for p in parts {
        h ^= *p;
        let mut x = h;
        h = splitmix(&mut x);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
