//! Reference implementations of what the standard library provides, from the publications; constants are derived.
use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::sync::OnceLock;

pub type N = BigUint;

pub fn p() -> &'static N {
    static P: OnceLock<N> = OnceLock::new();
    P.get_or_init(zk::bn_p)
}
pub fn big(s: &str) -> N {
    s.parse().unwrap()
}
pub fn add(a: &N, b: &N) -> N {
    (a + b) % p()
}
pub fn sub(a: &N, b: &N) -> N {
    (a + p() - b) % p()
}
pub fn mul(a: &N, b: &N) -> N {
    (a * b) % p()
}
pub fn inv(a: &N) -> N {
    a.modpow(&(p() - 2u32), p())
}
pub fn bits_be(v: &N, n: usize) -> Vec<bool> {
    (0..n).rev().map(|k| ((v >> k) & N::one()).is_one()).collect()
}
pub fn from_bits(b: &[bool]) -> N {
    b.iter().fold(N::zero(), |a, b| (a << 1) + N::from(*b as u32))
}

// ---- baby jubjub, a x^2 + y^2 = 1 + d x^2 y^2

pub type Pt = (N, N);
pub fn coeff() -> (N, N) {
    (N::from(168700u32), N::from(168696u32))
}
pub fn generator() -> Pt {
    (
        big("16540640123574156134436876038791482806971768689494387082833631921987005038935"),
        big("20819045374670962167435360035096875258406992893633759881276124905556507972311"),
    )
}
/// order of the generator
pub fn order() -> N {
    big("21888242871839275222246405745257275088614511777268538073601725287587578984328") >> 3
}
pub fn on_curve(q: &Pt) -> bool {
    let (a, d) = coeff();
    let (x2, y2) = (mul(&q.0, &q.0), mul(&q.1, &q.1));
    add(&mul(&a, &x2), &y2) == add(&N::one(), &mul(&d, &mul(&x2, &y2)))
}
#[derive(Clone)]
struct Proj(N, N, N);
fn padd(s: &Proj, o: &Proj) -> Proj {
    let (a, d) = coeff();
    let aa = mul(&s.2, &o.2);
    let b = mul(&aa, &aa);
    let c = mul(&s.0, &o.0);
    let dd = mul(&s.1, &o.1);
    let e = mul(&d, &mul(&c, &dd));
    let f = sub(&b, &e);
    let g = add(&b, &e);
    let h = sub(&sub(&mul(&add(&s.0, &s.1), &add(&o.0, &o.1)), &c), &dd);
    Proj(mul(&mul(&aa, &f), &h), mul(&mul(&aa, &g), &sub(&dd, &mul(&a, &c))), mul(&f, &g))
}
fn affine(q: &Proj) -> Pt {
    let z = inv(&q.2);
    (mul(&q.0, &z), mul(&q.1, &z))
}
fn proj(q: &Pt) -> Proj {
    Proj(q.0.clone(), q.1.clone(), N::one())
}
pub fn ecadd(x: &Pt, y: &Pt) -> Pt {
    affine(&padd(&proj(x), &proj(y)))
}
pub fn neg(q: &Pt) -> Pt {
    (sub(&N::zero(), &q.0), q.1.clone())
}
pub fn ecmul(k: &N, q: &Pt) -> Pt {
    let mut acc = Proj(N::zero(), N::one(), N::one());
    let mut d = proj(q);
    for n in 0..k.bits() {
        if (k >> n).is_odd() {
            acc = padd(&acc, &d);
        }
        d = padd(&d, &d);
    }
    affine(&acc)
}
pub fn sqrt(a: &N) -> Option<N> {
    let p = p();
    if a.is_zero() {
        return Some(N::zero());
    }
    if !a.modpow(&((p - 1u32) >> 1), p).is_one() {
        return None;
    }
    let mut q: N = p - 1u32;
    let mut m = 0;
    while q.is_even() {
        q >>= 1;
        m += 1;
    }
    let mut c = N::from(5u32).modpow(&q, p);
    let mut t = a.modpow(&q, p);
    let mut r = a.modpow(&((&q + 1u32) >> 1), p);
    while !t.is_one() {
        let mut i = 0;
        let mut x = t.clone();
        while !x.is_one() {
            x = mul(&x, &x);
            i += 1;
        }
        let mut b = c.clone();
        for _ in 0..(m - i - 1) {
            b = mul(&b, &b);
        }
        m = i;
        c = mul(&b, &b);
        t = mul(&t, &c);
        r = mul(&r, &b);
    }
    Some(r)
}
/// the point with the next possible second coordinate
pub fn point(mut y: N, odd: bool) -> Pt {
    let (a, d) = coeff();
    loop {
        let y2 = mul(&y, &y);
        let den = sub(&a, &mul(&d, &y2));
        if !den.is_zero() {
            if let Some(x) = sqrt(&mul(&sub(&N::one(), &y2), &inv(&den))) {
                let x = if x.is_odd() == odd { x } else { sub(&N::zero(), &x) };
                return (x, y);
            }
        }
        y = add(&y, &N::one());
    }
}
pub fn compress(q: &Pt) -> Vec<bool> {
    let mut b = bits_be(&q.1, 256);
    b[0] = q.0.is_odd();
    b
}

// ---- pedersen

fn pedersen_generators() -> &'static Vec<Vec<Pt>> {
    static G: OnceLock<Vec<Vec<Pt>>> = OnceLock::new();
    G.get_or_init(|| {
        use sha2::{Digest, Sha256};
        let mut out = vec![];
        // zokrates_pycrypto: a base point every 62 windows, from the hash of the name and the index
        let signs = [true, false, false];
        for (i, _) in signs.iter().enumerate() {
            let h = Sha256::digest(format!("{:<28}{:04X}", "test", i).as_bytes());
            let q = point(N::from_bytes_be(&h) % p(), false);
            let q = ecmul(&N::from(8u32), &q);
            // the square root taken by the generating script
            let first = ["13418723823902222986275588345615650707197303761863176429873001977640541977977",
                "11749872627669176692285695179399857264465143297451429569602068921530882657945",
                "11201877561392804928547433284377926158320532448010089457664943460838007583898"][i];
            let mut q = if q.0 == big(first) { q } else { neg(&q) };
            assert_eq!(q.0, big(first));
            for _ in 0..62 {
                let mut w = vec![q.clone()];
                for k in 1..4 {
                    w.push(ecadd(&w[k - 1], &q));
                }
                out.push(w);
                q = ecmul(&N::from(16u32), &q);
            }
        }
        out
    })
}
pub fn pedersen(bits: &[bool]) -> Vec<bool> {
    let g = pedersen_generators();
    let mut b = bits.to_vec();
    while b.len() % 3 != 0 {
        b.push(false);
    }
    let mut acc = (N::zero(), N::one());
    for (k, w) in b.chunks(3).enumerate() {
        let q = g[k][w[0] as usize + 2 * w[1] as usize].clone();
        acc = ecadd(&acc, &if w[2] { neg(&q) } else { q });
    }
    compress(&acc)
}

// ---- poseidon

struct Poseidon {
    rc: Vec<N>,
    mds: Vec<Vec<N>>,
    rp: usize,
}
fn poseidon_params(t: usize) -> &'static Poseidon {
    static G: OnceLock<Vec<Poseidon>> = OnceLock::new();
    &G.get_or_init(|| {
        [56, 57, 56, 60, 60, 63]
            .iter()
            .enumerate()
            .map(|(k, rp)| {
                let t = k + 2;
                // the grain LFSR of the poseidon paper
                let mut st: std::collections::VecDeque<bool> = Default::default();
                for (v, n) in [(1usize, 2), (0, 4), (254, 12), (t, 12), (8, 10), (*rp, 10)] {
                    for b in (0..n).rev() {
                        st.push_back(v >> b & 1 == 1);
                    }
                }
                while st.len() < 80 {
                    st.push_back(true);
                }
                let mut clk = move || {
                    let n = st[62] ^ st[51] ^ st[38] ^ st[23] ^ st[13] ^ st[0];
                    st.pop_front();
                    st.push_back(n);
                    n
                };
                for _ in 0..160 {
                    clk();
                }
                let mut next = || {
                    let b: Vec<bool> = (0..254)
                        .map(|_| {
                            while !clk() {
                                clk();
                            }
                            clk()
                        })
                        .collect();
                    from_bits(&b)
                };
                let mut rc = vec![];
                while rc.len() < t * (8 + rp) {
                    let v = next();
                    if v < *p() {
                        rc.push(v);
                    }
                }
                let xy: Vec<N> = (0..2 * t).map(|_| next() % p()).collect();
                let mds = (0..t).map(|i| (0..t).map(|j| inv(&add(&xy[i], &xy[t + j]))).collect()).collect();
                Poseidon { rc, mds, rp: *rp }
            })
            .collect()
    })[t - 2]
}
pub fn pow5(x: &N) -> N {
    let x2 = mul(x, x);
    mul(&mul(&x2, &x2), x)
}
pub fn poseidon(ins: &[N]) -> N {
    let t = ins.len() + 1;
    let c = poseidon_params(t);
    let mut st = vec![N::zero()];
    st.extend_from_slice(ins);
    for r in 0..8 + c.rp {
        for k in 0..t {
            st[k] = add(&st[k], &c.rc[r * t + k]);
        }
        let full = r < 4 || r >= 4 + c.rp;
        for k in 0..if full { t } else { 1 } {
            st[k] = pow5(&st[k]);
        }
        st = c
            .mds
            .iter()
            .map(|row| row.iter().zip(&st).fold(N::zero(), |a, (m, s)| add(&a, &mul(m, s))))
            .collect();
    }
    st[0].clone()
}

// ---- MiMC

fn keccak256(d: &[u8]) -> Vec<u8> {
    use sha3::{Digest, Keccak256};
    Keccak256::digest(d).to_vec()
}
fn mimc_constants(seed: &str, n: usize) -> Vec<N> {
    let mut out = vec![N::zero()];
    let mut c = keccak256(seed.as_bytes());
    for _ in 1..n {
        c = keccak256(&c);
        out.push(N::from_bytes_be(&c) % p());
    }
    out
}
pub fn mimc7(x: &N, k: &N, rounds: usize) -> N {
    static C: OnceLock<Vec<N>> = OnceLock::new();
    let c = C.get_or_init(|| mimc_constants("mimc", 91));
    let mut h = x.clone();
    for c in &c[..rounds] {
        h = add(&add(&h, k), c).modpow(&N::from(7u32), p());
    }
    add(&h, k)
}
pub fn feistel(l: &N, r: &N, k: &N) -> (N, N) {
    static C: OnceLock<Vec<N>> = OnceLock::new();
    let c = C.get_or_init(|| {
        let mut c = mimc_constants("mimcsponge", 220);
        c[219] = N::zero();
        c
    });
    let (mut l, mut r) = (l.clone(), r.clone());
    for (n, c) in c.iter().enumerate() {
        let t = pow5(&add(&add(&l, k), c));
        if n < 219 {
            let nl = add(&r, &t);
            r = l;
            l = nl;
        } else {
            r = add(&r, &t);
        }
    }
    (l, r)
}
pub fn sponge(ins: &[N], k: &N, outs: usize) -> Vec<N> {
    let (mut r, mut c) = (N::zero(), N::zero());
    for x in ins {
        let s = feistel(&add(&r, x), &c, k);
        r = s.0;
        c = s.1;
    }
    let mut o = vec![r.clone()];
    while o.len() < outs {
        let s = feistel(&r, &c, k);
        r = s.0;
        c = s.1;
        o.push(r.clone());
    }
    o
}

// ---- sha256 without padding

pub fn sha256_blocks(words: &[u32]) -> Vec<u32> {
    // the first 32 bits of the fractional parts of the roots of the first primes
    static K: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    let (iv, k) = K.get_or_init(|| {
        let primes: Vec<u32> = (2..400u32).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
        let root = |v: u32, e: u32| -> u32 {
            // floor(v^(1/e) * 2^32) mod 2^32
            let t = N::from(v) << (32 * e as usize);
            let (mut lo, mut hi) = (N::zero(), N::one() << 40);
            while &lo + 1u32 < hi {
                let mid: N = (&lo + &hi) >> 1;
                if num_traits::pow(mid.clone(), e as usize) <= t {
                    lo = mid
                } else {
                    hi = mid
                }
            }
            let w = lo % (N::one() << 32);
            w.to_string().parse().unwrap()
        };
        (
            primes[..8].iter().map(|p| root(*p, 2)).collect(),
            primes.iter().map(|p| root(*p, 3)).collect(),
        )
    });
    let mut st = iv.clone();
    for block in words.chunks(16) {
        let mut w = block.to_vec();
        for t in 16..64 {
            let a: u32 = w[t - 15];
            let b: u32 = w[t - 2];
            let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
            let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
            w.push(w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1));
        }
        let mut v = st.clone();
        for t in 0..64 {
            let e = v[4];
            let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add((e & v[5]) ^ (!e & v[6]))
                .wrapping_add(k[t])
                .wrapping_add(w[t]);
            let a = v[0];
            let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
            let t2 = s0.wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v.rotate_right(1);
            v[0] = t1.wrapping_add(t2);
            v[4] = v[4].wrapping_add(t1);
        }
        for (s, v) in st.iter_mut().zip(v) {
            *s = s.wrapping_add(v);
        }
    }
    st
}
/// sha256 of any number of bits
pub fn sha256_bits(bits: &[bool]) -> Vec<u32> {
    let mut b = bits.to_vec();
    b.push(true);
    while b.len() % 512 != 448 {
        b.push(false);
    }
    b.extend((0..64).rev().map(|k| (bits.len() as u64) >> k & 1 == 1));
    let w: Vec<u32> = b.chunks(32).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u32)).collect();
    let r = sha256_blocks(&w);
    if bits.len() % 8 == 0 {
        use sha2::{Digest, Sha256};
        let d = Sha256::digest(&bits.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect::<Vec<_>>());
        assert_eq!(r.iter().flat_map(|w| w.to_be_bytes()).collect::<Vec<_>>(), d.to_vec(), "the reference is wrong");
    }
    r
}
pub fn keccak(sha3: bool, size: usize, d: &[u8]) -> Vec<u8> {
    use sha3::*;
    match (sha3, size) {
        (true, 224) => Sha3_224::digest(d).to_vec(),
        (true, 256) => Sha3_256::digest(d).to_vec(),
        (true, 384) => Sha3_384::digest(d).to_vec(),
        (true, 512) => Sha3_512::digest(d).to_vec(),
        (false, 224) => Keccak224::digest(d).to_vec(),
        (false, 256) => Keccak256::digest(d).to_vec(),
        (false, 384) => Keccak384::digest(d).to_vec(),
        (false, 512) => Keccak512::digest(d).to_vec(),
        _ => unreachable!(),
    }
}
pub fn blake2s(d: &[u8], person: &[u8]) -> Vec<u8> {
    blake2s_simd::Params::new().personal(person).hash(d).as_bytes().to_vec()
}
