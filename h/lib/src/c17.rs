//! C17: the standard library computes what its documentation says.
use crate::refs::*;
use num_traits::{One, Zero};
use pbt::{fail, Check, Info, Res, Src};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use zk::adv::System;
use zk::{Compiled, F};

struct Program(Result<Compiled<F>, zk::CErr>);
// compiled programs are only read
unsafe impl Send for Program {}
unsafe impl Sync for Program {}

fn compiled(src: &str) -> &'static Program {
    static CACHE: OnceLock<Mutex<HashMap<String, Arc<OnceLock<&'static Program>>>>> = OnceLock::new();
    let cell = CACHE.get_or_init(Default::default).lock().unwrap().entry(src.to_string()).or_default().clone();
    cell.get_or_init(|| Box::leak(Box::new(Program(zk::compile_fs(src, "main.zok")))))
}

enum Exp {
    Out(Vec<N>),
    Fail,
    /// the boolean result is not true: false, or a failure
    NotTrue,
    /// this value, or a failure
    OutOrFail(Vec<N>),
}
use Exp::*;

struct Call {
    name: String,
    src: String,
    ins: Vec<N>,
    exp: Exp,
}

/// `import` of a function under the name `g` and a call of it
fn call(name: &str, imp: &str, params: &str, ret: &str, body: &str, ins: Vec<N>, exp: Exp) -> Call {
    Call {
        name: name.to_string(),
        src: format!("{imp};\ndef main({params}) -> {ret} {{\n    return {body};\n}}\n"),
        ins,
        exp,
    }
}
fn words(s: &mut Src, n: usize) -> Vec<u32> {
    (0..n).map(|_| s.uint(32) as u32).collect()
}
fn bytes(s: &mut Src, n: usize) -> Vec<u8> {
    (0..n).map(|_| s.uint(8) as u8).collect()
}
fn bools(s: &mut Src, n: usize) -> Vec<bool> {
    match s.below(6) {
        0 => vec![s.bool(); n],
        1 => {
            let k = s.idx(n.max(1));
            let v = s.bool();
            (0..n).map(|i| (i == k) ^ v).collect()
        }
        _ => {
            let mut out = vec![];
            while out.len() < n {
                let w = s.u64();
                for k in 0..64.min(n - out.len()) {
                    out.push(w >> k & 1 == 1);
                }
            }
            out
        }
    }
}
fn n32(v: &[u32]) -> Vec<N> {
    v.iter().map(|v| N::from(*v)).collect()
}
fn n8(v: &[u8]) -> Vec<N> {
    v.iter().map(|v| N::from(*v)).collect()
}
fn nb(v: &[bool]) -> Vec<N> {
    v.iter().map(|v| N::from(*v as u32)).collect()
}
fn wbits(v: &[u32]) -> Vec<bool> {
    v.iter().flat_map(|w| (0..32).rev().map(move |k| w >> k & 1 == 1)).collect()
}
fn nn(v: usize) -> N {
    N::from(v)
}

fn sha(s: &mut Src) -> Call {
    match s.below(5) {
        0 => {
            let n = *s.pick(&[1usize, 3, 32, 55, 56, 64, 100, 119, 120]);
            let d = bytes(s, n);
            let bits: Vec<bool> = d.iter().flat_map(|w| (0..8).rev().map(move |k| w >> k & 1 == 1)).collect();
            call("sha256Padded", "import \"hashes/sha256/sha256Padded\" as g", &format!("u8[{n}] a"), "u32[8]", "g(a)", n8(&d), Out(n32(&sha256_bits(&bits))))
        }
        1 => {
            let n = *s.pick(&[1usize, 7, 446, 447, 448, 512, 958, 959, 960]);
            let d = bools(s, n);
            call("sha256Padded of bits", "from \"hashes/sha256/sha256Padded\" import sha256Padded as g", &format!("bool[{n}] a"), "u32[8]", "g(a)", nb(&d), Out(n32(&sha256_bits(&d))))
        }
        2 => {
            let k = s.urange(1, 2);
            let d = words(s, 16 * k);
            call("sha256", "import \"hashes/sha256/sha256\" as g", &format!("u32[{k}][16] a"), "u32[8]", "g(a)", n32(&d), Out(n32(&sha256_blocks(&d))))
        }
        _ => {
            let (name, k, pad) = *s.pick(&[
                ("256bitPadded", 8, true),
                ("512bit", 16, false),
                ("512bitPadded", 16, true),
                ("512bitPacked", 16, true),
                ("1024bit", 32, false),
                ("1024bitPadded", 32, true),
                ("1536bit", 48, false),
            ]);
            let embed = s.bool();
            let d = words(s, k);
            let r = if pad { sha256_bits(&wbits(&d)) } else { sha256_blocks(&d) };
            let dir = if embed { "embed/" } else { "" };
            let imp = format!("import \"hashes/sha256/{dir}{name}\" as g");
            if name == "512bitPacked" {
                let pack = |v: &[u32]| v.chunks(4).map(|c| from_bits(&wbits(c))).collect::<Vec<_>>();
                return call(&format!("{dir}{name}"), &imp, "field[4] a", "field[2]", "g(a)", pack(&d), Out(pack(&r)));
            }
            let t = if embed { "bool[256]" } else { "u32[8]" };
            let ps: Vec<String> = (0..k / 8).map(|i| format!("a{i}")).collect();
            let params: Vec<String> = ps.iter().map(|p| format!("{t} {p}")).collect();
            let (ins, out) = if embed { (nb(&wbits(&d)), nb(&wbits(&r))) } else { (n32(&d), n32(&r)) };
            call(&format!("{dir}{name}"), &imp, &params.join(", "), t, &format!("g({})", ps.join(", ")), ins, Out(out))
        }
    }
}

fn keccak_case(s: &mut Src) -> Call {
    let sha3 = s.bool();
    let size = *s.pick(&[224usize, 256, 384, 512]);
    let rate = 200 - size / 4;
    let n = match s.below(5) {
        0 => rate,
        1 => rate - 1,
        _ => *s.pick(&[1usize, 20]),
    };
    let d = bytes(s, n);
    let dir = if sha3 { "sha3" } else { "keccak" };
    call(
        &format!("{dir}/{size}"),
        &format!("import \"hashes/{dir}/{size}bit\" as g"),
        &format!("u8[{n}] a"),
        &format!("u8[{}]", size / 8),
        "g(a)",
        n8(&d),
        Out(n8(&keccak(sha3, size, &d))),
    )
}

fn blake(s: &mut Src) -> Call {
    let k = s.urange(1, 3);
    let d = words(s, 16 * k);
    let raw: Vec<u8> = d.iter().flat_map(|w| w.to_be_bytes()).collect();
    let person = s.bool();
    let pw = if person { words(s, 2) } else { vec![0, 0] };
    let pr: Vec<u8> = pw.iter().flat_map(|w| w.to_be_bytes()).collect();
    let out = blake2s(&raw, &pr).chunks(4).map(|c| N::from_bytes_be(c)).collect();
    if person {
        let ins = [n32(&d), n32(&pw)].concat();
        call("blake2s_p", "import \"hashes/blake2/blake2s_p\" as g", &format!("u32[{k}][16] a, u32[2] p"), "u32[8]", "g(a, p)", ins, Out(out))
    } else {
        call("blake2s", "import \"hashes/blake2/blake2s\" as g", &format!("u32[{k}][16] a"), "u32[8]", "g(a)", n32(&d), Out(out))
    }
}

fn pedersen_case(s: &mut Src) -> Call {
    let d = words(s, 16);
    let b = wbits(&d);
    let r = pedersen(&b);
    if s.bool() {
        call("pedersen/512bitBool", "import \"hashes/pedersen/512bitBool\" as g", "bool[512] a", "bool[256]", "g(a)", nb(&b), Out(nb(&r)))
    } else {
        let out = r.chunks(32).map(from_bits).collect();
        call("pedersen/512bit", "import \"hashes/pedersen/512bit\" as g", "u32[16] a", "u32[8]", "g(a)", n32(&d), Out(out))
    }
}

fn algebraic(s: &mut Src) -> Call {
    let mut fe = |s: &mut Src| s.field(p());
    match s.below(5) {
        0 => {
            let r = *s.pick(&[1usize, 2, 10, 20, 90, 91]);
            let (x, k) = (fe(s), fe(s));
            let o = mimc7(&x, &k, r);
            call("mimc7", "import \"hashes/mimc7/mimc7\" as g", "field a, field k", "field", &format!("g::<{r}>(a, k)"), vec![x, k], Out(vec![o]))
        }
        1 => {
            let (l, r, k) = (fe(s), fe(s), fe(s));
            let o = feistel(&l, &r, &k);
            call("mimcFeistel", "import \"hashes/mimcSponge/mimcFeistel\" as g", "field l, field r, field k", "field[2]", "g(l, r, k)", vec![l, r, k], Out(vec![o.0, o.1]))
        }
        2 => {
            let (n, m) = (s.urange(1, 3), s.urange(1, 3));
            let mut ins: Vec<N> = (0..n).map(|_| fe(s)).collect();
            let k = fe(s);
            let o = sponge(&ins, &k, m);
            ins.push(k);
            call("mimcSponge", "import \"hashes/mimcSponge/mimcSponge\" as g", &format!("field[{n}] a, field k"), &format!("field[{m}]"), "g(a, k)", ins, Out(o))
        }
        _ => {
            let n = s.urange(1, 6);
            let ins: Vec<N> = (0..n).map(|_| fe(s)).collect();
            let o = poseidon(&ins);
            call("poseidon", "import \"hashes/poseidon/poseidon\" as g", &format!("field[{n}] a"), "field", "g(a)", ins, Out(vec![o]))
        }
    }
}

const PARAMS: &str = "from \"ecc/babyjubjubParams\" import BABYJUBJUB_PARAMS as C";

fn scalar(s: &mut Src) -> N {
    match s.below(8) {
        0 => N::zero(),
        1 => N::from(s.below(9)),
        2 => order() - N::from(s.below(3)),
        3 => order() + N::from(s.below(3)),
        4 => (N::one() << 256) - 1u32 - N::from(s.below(3)),
        _ => s.big_below(&(N::one() << 256)),
    }
}
fn some_point(s: &mut Src) -> Pt {
    match s.below(8) {
        0 => (N::zero(), N::one()),
        1 => (N::zero(), p() - 1u32),
        2 => generator(),
        // small order
        3 => {
            let y = s.field(p());
            ecmul(&order(), &point(y, s.bool()))
        }
        _ => {
            let y = s.big_below(p());
            point(y, s.bool())
        }
    }
}
fn off_curve(s: &mut Src, q: &Pt) -> Pt {
    let mut q = q.clone();
    loop {
        if s.bool() {
            q.0 = s.field(p())
        } else {
            q.1 = add(&q.1, &N::one())
        }
        if !on_curve(&q) {
            return q;
        }
    }
}
fn small_order(q: &Pt) -> bool {
    ecmul(&N::from(8u32), q) == (N::zero(), N::one())
}

fn curve(s: &mut Src, light: bool) -> Call {
    let imp = |f: &str| format!("{PARAMS};\nimport \"ecc/{f}\" as g");
    match s.weighted(&if light { [3, 3, 2, 2, 2, 0, 0, 0] } else { [3, 3, 2, 2, 2, 3, 2, 2] }) {
        0 => {
            let q = some_point(s);
            let (q, exp) = if s.bool() { (q, Out(vec![N::one()])) } else { (off_curve(s, &q), NotTrue) };
            call("edwardsOnCurve", &imp("edwardsOnCurve"), "field[2] a", "bool", "g(a, C)", vec![q.0, q.1], exp)
        }
        1 => {
            let a = some_point(s);
            let b = match s.below(4) {
                0 => a.clone(),
                1 => neg(&a),
                _ => some_point(s),
            };
            let o = ecadd(&a, &b);
            call("edwardsAdd", &imp("edwardsAdd"), "field[2] a, field[2] b", "field[2]", "g(a, b, C)", vec![a.0, a.1, b.0, b.1], Out(vec![o.0, o.1]))
        }
        2 => {
            let a = some_point(s);
            let o = neg(&a);
            call("edwardsNegate", &imp("edwardsNegate"), "field[2] a", "field[2]", "g(a)", vec![a.0, a.1], Out(vec![o.0, o.1]))
        }
        3 => {
            let a = some_point(s);
            let o = compress(&a);
            call("edwardsCompress", &imp("edwardsCompress"), "field[2] a", "bool[256]", "g(a)", vec![a.0, a.1], Out(nb(&o)))
        }
        4 => {
            let a = some_point(s);
            let o = N::from(!small_order(&a) as u32);
            call("edwardsOrderCheck", &imp("edwardsOrderCheck"), "field[2] a", "bool", "g(a, C)", vec![a.0, a.1], Out(vec![o]))
        }
        5 => {
            let a = some_point(s);
            let k = scalar(s);
            let o = ecmul(&k, &a);
            let ins = [nb(&bits_be(&k, 256)), vec![a.0, a.1]].concat();
            call("edwardsScalarMult", &imp("edwardsScalarMult"), "bool[256] e, field[2] a", "field[2]", "g(e, a, C)", ins, Out(vec![o.0, o.1]))
        }
        6 => {
            let sk = s.field(p());
            let pk = ecmul(&sk, &generator());
            let (pk, exp) = match s.below(4) {
                0 | 1 => (pk, Out(vec![N::one()])),
                2 => (ecadd(&pk, &generator()), Out(vec![N::zero()])),
                _ => (neg(&pk), if pk.0.is_zero() { Out(vec![N::one()]) } else { Out(vec![N::zero()]) }),
            };
            call("proofOfOwnership", &imp("proofOfOwnership"), "field[2] pk, field sk", "bool", "g(pk, sk, C)", vec![pk.0, pk.1, sk], exp)
        }
        _ => {
            let l = order();
            let g = generator();
            let sk = s.big_below(&l);
            let mut a = ecmul(&sk, &g);
            let r = s.big_below(&(&l - 1u32)) + 1u32;
            let mut rp = ecmul(&r, &g);
            let mut m = words(s, 16);
            let w = |v: &N| bits_be(v, 256);
            let h = sha256_bits(&[w(&rp.0), w(&a.0), wbits(&m)].concat());
            let h = from_bits(&wbits(&h));
            let mut sig = (&r + h * &sk) % &l;
            let mut exp = Out(vec![N::one()]);
            match s.below(8) {
                0 => {
                    sig = (&sig + 1u32) % &l;
                    exp = NotTrue
                }
                1 => {
                    let k = s.idx(16);
                    m[k] ^= 1 << s.below(32);
                    exp = NotTrue
                }
                2 => {
                    a = ecadd(&a, &g);
                    exp = NotTrue
                }
                3 => {
                    rp = off_curve(s, &rp);
                    exp = NotTrue
                }
                // a signature with a commitment of small order, which verifies as an equation
                4 => {
                    rp = (N::zero(), N::one());
                    let h = from_bits(&wbits(&sha256_bits(&[w(&rp.0), w(&a.0), wbits(&m)].concat())));
                    sig = h * &sk % &l;
                    exp = NotTrue
                }
                // the same scalar with the order added
                5 => {
                    if &sig + &l < *p() {
                        sig += &l;
                    }
                }
                _ => {}
            }
            let ins = [vec![rp.0, rp.1, sig, a.0, a.1], n32(&m)].concat();
            call(
                "verifyEddsa",
                &format!("{PARAMS};\nimport \"signatures/verifyEddsa\" as g"),
                "field[2] r, field s, field[2] a, u32[8] m0, u32[8] m1",
                "bool",
                "g(r, s, a, m0, m1, C)",
                ins,
                exp,
            )
        }
    }
}

/// unsigned values of a width, as one number
fn chunks(v: &[bool], w: usize) -> Vec<N> {
    v.chunks(w).map(from_bits).collect()
}
fn uty(w: usize) -> &'static str {
    match w {
        1 => "bool",
        8 => "u8",
        16 => "u16",
        32 => "u32",
        _ => "u64",
    }
}

/// `unique`: only functions whose result is documented as determined by the input
fn utility(s: &mut Src, unique: bool) -> Call {
    let fe = |s: &mut Src, bits: usize| -> N {
        match s.below(4) {
            0 => s.field(p()),
            1 => N::from(s.below(3)),
            2 => ((N::one() << bits) - N::from(s.below(3)) + N::from(s.below(2))) % p(),
            _ => s.big_below(&(N::one() << bits.min(253))),
        }
    };
    match s.weighted(&[4, 3, 3, 2, if unique { 0 } else { 2 }, 3, 6]) {
        0 => {
            // bits of a field element
            let n = *s.pick(&[1usize, 2, 8, 32, 128, 253, 254, 255, 256, 300]);
            let v = fe(s, n);
            let o = nb(&bits_be(&v, n));
            let exp = if v.bits() <= n { Out(o) } else { OutOrFail(o) };
            let (name, body) = match n {
                128 => ("unpack128", "g(a)".to_string()),
                256 => ("unpack256", "g(a)".to_string()),
                _ => ("unpack", format!("g::<{n}>(a)")),
            };
            call(name, &format!("import \"utils/pack/bool/{name}\" as g"), "field a", &format!("bool[{n}]"), &body, vec![v], exp)
        }
        1 => {
            let w = *s.pick(&[8usize, 16, 32, 64]);
            let v = fe(s, w);
            let o = &v % (N::one() << w);
            let name = format!("field_to_{}", uty(w));
            call(&name, &format!("import \"utils/casts/{name}\" as g"), "field a", uty(w), "g(a)", vec![v], Out(vec![o]))
        }
        2 => {
            // packing
            let n = *s.pick(&[1usize, 7, 128, 253, 256, 260]);
            let b = bools(s, n);
            let v = from_bits(&b) % p();
            match s.below(3) {
                0 if n == 128 || n == 256 => {
                    let o = chunks(&b, 32);
                    let name = format!("pack{n}");
                    call(&format!("u32/{name}"), &format!("import \"utils/pack/u32/{name}\" as g"), &format!("u32[{}] a", n / 32), "field", "g(a)", o, Out(vec![v]))
                }
                1 if n == 128 || n == 256 => {
                    let name = format!("pack{n}");
                    call(&name, &format!("import \"utils/pack/bool/{name}\" as g"), &format!("bool[{n}] a"), "field", "g(a)", nb(&b), Out(vec![v]))
                }
                2 if n % 32 == 0 => {
                    let o = chunks(&b, 32);
                    call("u32/pack", "import \"utils/pack/u32/pack\" as g", &format!("u32[{}] a", n / 32), "field", "g(a)", o, Out(vec![v]))
                }
                _ => call("pack", "import \"utils/pack/bool/pack\" as g", &format!("bool[{n}] a"), "field", "g(a)", nb(&b), Out(vec![v])),
            }
        }
        3 => {
            // multiplexers
            let t: Vec<N> = (0..4).map(|_| s.field(p())).collect();
            let b = [s.bool(), s.bool(), s.bool()];
            match s.below(4) {
                0 => call("lookup1bit", "import \"utils/multiplexer/lookup1bit\" as g", "bool b, field[2] t", "field", "g(b, t)", [nb(&b[..1]), t[..2].to_vec()].concat(), Out(vec![t[b[0] as usize].clone()])),
                1 => call("lookup2bit", "import \"utils/multiplexer/lookup2bit\" as g", "bool[2] b, field[4] t", "field", "g(b, t)", [nb(&b[..2]), t.clone()].concat(), Out(vec![t[b[0] as usize + 2 * b[1] as usize].clone()])),
                2 => {
                    let o = t[b[0] as usize + 2 * b[1] as usize].clone();
                    let o = if b[2] { sub(&N::zero(), &o) } else { o };
                    call("lookup3bitSigned", "import \"utils/multiplexer/lookup3bitSigned\" as g", "bool[3] b, field[4] t", "field", "g(b, t)", [nb(&b), t].concat(), Out(vec![o]))
                }
                _ => {
                    let w = words(s, 16);
                    let o = if b[0] { [&w[8..], &w[..8]].concat() } else { w.clone() };
                    call("256bitsDirectionHelper", "import \"hashes/utils/256bitsDirectionHelper\" as g", "bool b, u32[8] l, u32[8] r", "u32[16]", "g(b, l, r)", [nb(&b[..1]), n32(&w)].concat(), Out(n32(&o)))
                }
            }
        }
        4 => {
            let v = fe(s, 254);
            if s.bool() {
                let o = nb(&bits_be(&v, 256));
                call("nonStrictUnpack256", "import \"utils/pack/bool/nonStrictUnpack256\" as g", "field a", "bool[256]", "g(a)", vec![v], Out(o))
            } else if s.bool() {
                let o = chunks(&bits_be(&v, 256), 32);
                call("u32/nonStrictUnpack256", "import \"utils/pack/u32/nonStrictUnpack256\" as g", "field a", "u32[8]", "g(a)", vec![v], Out(o))
            } else {
                let v = fe(s, 128);
                let o = chunks(&bits_be(&v, 128), 32);
                let exp = if v.bits() <= 128 { Out(o) } else { OutOrFail(o) };
                call("u32/unpack128", "import \"utils/pack/u32/unpack128\" as g", "field a", "u32[4]", "g(a)", vec![v], exp)
            }
        }
        5 => {
            // the single casts
            let w = *s.pick(&[8usize, 16, 32, 64]);
            let v = N::from(s.uint(w as u32));
            let b = bits_be(&v, w);
            let t = uty(w);
            match s.below(5) {
                0 => call(&format!("{t}_to_field"), &format!("import \"utils/casts/{t}_to_field\" as g"), &format!("{t} a"), "field", "g(a)", vec![v.clone()], Out(vec![v])),
                1 => call(&format!("{t}_to_bits"), &format!("import \"utils/casts/{t}_to_bits\" as g"), &format!("{t} a"), &format!("bool[{w}]"), "g(a)", vec![v], Out(nb(&b))),
                2 => call(&format!("{t}_from_bits"), &format!("import \"utils/casts/{t}_from_bits\" as g"), &format!("bool[{w}] a"), t, "g(a)", nb(&b), Out(vec![v])),
                3 => {
                    let (name, n) = *s.pick(&[("bool_128_to_u32_4", 128usize), ("bool_256_to_u32_8", 256), ("bool_array_to_u32_array", 96)]);
                    let b = bools(s, n);
                    call(name, &format!("import \"utils/casts/{name}\" as g"), &format!("bool[{n}] a"), &format!("u32[{}]", n / 32), "g(a)", nb(&b), Out(chunks(&b, 32)))
                }
                _ => {
                    let (name, n) = *s.pick(&[("u32_4_to_bool_128", 128usize), ("u32_8_to_bool_256", 256), ("u32_array_to_bool_array", 96)]);
                    let b = bools(s, n);
                    call(name, &format!("import \"utils/casts/{name}\" as g"), &format!("u32[{}] a", n / 32), &format!("bool[{n}]"), "g(a)", chunks(&b, 32), Out(nb(&b)))
                }
            }
        }
        _ => {
            // utils/casts
            let imp = "from \"utils/casts\" import cast as g";
            let ws = [1usize, 8, 16, 32, 64];
            let a = *s.pick(&ws);
            match s.below(4) {
                0 => {
                    // to a wider type
                    let a = a.max(8).min(32);
                    let b = *s.pick(&ws.iter().cloned().filter(|w| *w > a).collect::<Vec<_>>());
                    let v = N::from(s.uint(a as u32));
                    call(&format!("cast {} to {}", uty(a), uty(b)), imp, &format!("{} a", uty(a)), uty(b), "g(a)", vec![v.clone()], Out(vec![v]))
                }
                1 => {
                    let a = a.max(8);
                    let v = N::from(s.uint(a as u32));
                    if s.bool() {
                        call(&format!("cast {} to field", uty(a)), imp, &format!("{} a", uty(a)), "field", "g(a)", vec![v.clone()], Out(vec![v]))
                    } else {
                        let n = s.urange(1, 3);
                        let v: Vec<N> = (0..n).map(|_| N::from(s.uint(a as u32))).collect();
                        call(&format!("cast {}[] to field[]", uty(a)), imp, &format!("{}[{n}] a", uty(a)), &format!("field[{n}]"), "g(a)", v.clone(), Out(v))
                    }
                }
                k => {
                    // regrouping, most significant first
                    let b = *s.pick(&ws.iter().cloned().filter(|w| *w != a).collect::<Vec<_>>());
                    let m = a.max(b);
                    let n = if k == 2 { m } else { m * s.urange(1, 3) };
                    let v = bools(s, n);
                    let array = |w: usize, one: bool| if n == w && one { uty(w).to_string() } else { format!("{}[{}]", uty(w), n / w) };
                    // one value on the wide side, or an array of them
                    let (ta, tb) = (array(a, k == 2), array(b, k == 2));
                    call(&format!("cast {ta} to {tb}"), imp, &format!("{ta} a"), &tb, "g(a)", chunks(&v, a), Out(chunks(&v, b)))
                }
            }
        }
    }
}

/// casts whose arguments are not reduced and whose results take part in more arithmetic
fn cast_arithmetic(s: &mut Src) -> Call {
    let w = *s.pick(&[8usize, 16, 32, 64]);
    let t = uty(w);
    let m = N::one() << w;
    let (a, b) = (N::from(s.uint(w as u32)), N::from(s.uint(w as u32)));
    // from two values of the type, with what may exceed it in between
    let ops: [(&str, N); 12] = [
        ("x * y", &a * &b % &m),
        ("x * x * y", &a * &a * &b % &m),
        ("x + y", (&a + &b) % &m),
        ("x + x + x + y", (&a * 3u32 + &b) % &m),
        ("x - y", (&m + &a - &b) % &m),
        ("x * y - x", (&m + &a * &b % &m - &a) % &m),
        ("0 - x", (&m - &a) % &m),
        ("!x", &m - 1u32 - &a),
        ("x ^ y", &a ^ &b),
        ("x < y ? x : y", (&a).min(&b).clone()),
        ("x == y ? x * y : x + y", if a == b { &a * &b % &m } else { (&a + &b) % &m }),
        ("(x >> 3) + (x << 1)", ((&a >> 3usize) + ((&a << 1usize) % &m)) % &m),
    ];
    let (e, v) = s.pick(&ops).clone();
    let src = |imp: String, params: String, ret: &str, first: String, result: String, ins: Vec<N>, o: Vec<N>, name: String| Call {
        name,
        src: format!("{imp};\ndef main({params}) -> {ret} {{\n{first}    return {result};\n}}\n"),
        ins,
        exp: Out(o),
    };
    let to = ["bits", "field"][s.idx(2)];
    match s.below(5) {
        0 | 1 => {
            let (ret, o) = if to == "bits" { (format!("bool[{w}]"), nb(&bits_be(&v, w))) } else { ("field".to_string(), vec![v]) };
            src(
                format!("import \"utils/casts/{t}_to_{to}\" as g"),
                format!("{t} x, {t} y"),
                &ret,
                String::new(),
                format!("g({e})"),
                vec![a, b],
                o,
                format!("{t}_to_{to} of arithmetic"),
            )
        }
        2 | 3 => {
            let ins = [nb(&bits_be(&a, w)), vec![b]].concat();
            src(
                format!("import \"utils/casts/{t}_from_bits\" as g"),
                format!("bool[{w}] i, {t} y"),
                t,
                format!("    {t} x = g(i);\n"),
                e.to_string(),
                ins,
                vec![v],
                format!("arithmetic on {t}_from_bits"),
            )
        }
        _ => {
            // a field element whose low bits are kept
            let high = s.field(&(p() >> w));
            let f = (&high * &m + &a) % p();
            if &f % &m != a {
                return cast_arithmetic_of(t, w, b);
            }
            src(
                format!("import \"utils/casts/field_to_{t}\" as g"),
                format!("field i, {t} y"),
                t,
                format!("    {t} x = g(i);\n"),
                e.to_string(),
                vec![f, b],
                vec![v],
                format!("arithmetic on field_to_{t}"),
            )
        }
    }
}
fn cast_arithmetic_of(t: &str, w: usize, b: N) -> Call {
    let m = N::one() << w;
    let o = &b * &b % &m;
    call(&format!("{t}_to_field of arithmetic"), &format!("import \"utils/casts/{t}_to_field\" as g"), &format!("{t} x"), "field", "g(x * x)", vec![b], Out(vec![o]))
}

fn show(v: &[N]) -> String {
    v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}

fn run(c: Call, i: &mut Info) -> Res {
    i.label(&c.name);
    i.sample(format!("{}\n{}", c.src, show(&c.ins).chars().take(300).collect::<String>()));
    let g = match &compiled(&c.src).0 {
        Ok(g) => g,
        Err(e) => return fail("does not compile", format!("{}: {}\n{}", c.name, e.msg, c.src)),
    };
    let enc: Vec<F> = c.ins.iter().map(zk::f).collect();
    let got = zk::execute(g, &enc).map(|w| w.return_values().iter().map(|v| v.to_dec_string().parse().unwrap()).collect::<Vec<N>>());
    let d = |m: String| format!("{}: {m}\n{}inputs {}", c.name, c.src, show(&c.ins));
    match (&c.exp, got) {
        (Out(e), Ok(o)) | (OutOrFail(e), Ok(o)) if *e == o => {}
        (NotTrue, Ok(o)) if !o[0].is_one() => {}
        (Fail, Err(_)) | (NotTrue, Err(_)) | (OutOrFail(_), Err(_)) => {}
        (Out(e), Err(x)) => return fail("fails", d(format!("{x:?} instead of {}", show(e)))),
        (Out(e), Ok(o)) | (OutOrFail(e), Ok(o)) => return fail("another result", d(format!("{} instead of {}", show(&o), show(e)))),
        (Fail, Ok(o)) | (NotTrue, Ok(o)) => return fail("accepted", d(format!("returns {}", show(&o)))),
    }
    i.interesting(&format!("{} {}", c.src, show(&c.ins)));
    Ok(())
}

/// the constraints determine the result, whatever the prover does
fn strict(s: &mut Src, i: &mut Info) -> Res {
    let c = if s.chance(1, 3) { curve(s, true) } else { utility(s, true) };
    if c.name == "edwardsCompress" {
        // documented as not unique
        return Ok(());
    }
    i.label(&c.name);
    let Ok(g) = &compiled(&c.src).0 else { return Ok(()) };
    let enc: Vec<F> = c.ins.iter().map(zk::f).collect();
    let sys = System::new(g);
    let (sat, honest) = sys.honest(&enc);
    for t in 0..24 {
        let target = if sys.free.is_empty() || (!sat && t % 2 == 0) { None } else { Some(sys.free[s.idx(sys.free.len())]) };
        if sat && target.is_none() {
            break;
        }
        i.count("attempts", 1);
        let Some(vals) = s.group(|s| sys.attempt(s, &enc, &honest, target)) else { continue };
        i.count("alternative assignments", 1);
        let o: Vec<N> = sys.outputs(&vals).iter().map(|v| v.to_dec_string().parse().unwrap()).collect();
        let ok = match &c.exp {
            Out(e) | OutOrFail(e) => *e == o,
            NotTrue => !o[0].is_one(),
            Fail => false,
        };
        if !ok {
            return fail("another result is accepted", format!("{}: a prover can return {}\n{}inputs {}", c.name, show(&o), c.src, show(&c.ins)));
        }
    }
    if !sys.free.is_empty() {
        i.interesting(&format!("{} {}", c.src, show(&c.ins)));
    }
    Ok(())
}

use zk::Field;

pub fn check<'a>() -> Check<'a> {
    Check::new("C17", "a call of a library function; distinct by function and inputs")
        .part("utilities", 3000, 60000, |s, i| run(utility(s, false), i))
        .part("cast arithmetic", 1500, 20000, |s, i| run(cast_arithmetic(s), i))
        .part("algebraic", 600, 20000, |s, i| run(algebraic(s), i))
        .part("hashes", 44, 3000, |s, i| {
            let c = match s.below(10) {
                0..=4 => sha(s),
                5..=6 => keccak_case(s),
                7 => blake(s),
                _ => pedersen_case(s),
            };
            run(c, i)
        })
        .part("curve", 400, 4000, |s, i| run(curve(s, true), i))
        .part("scalars", 40, 4000, |s, i| run(curve(s, false), i))
        .part("strict", 1000, 30000, strict)
}
