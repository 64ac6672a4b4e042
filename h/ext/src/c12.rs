//! Field elements against big integers, for every curve.
use num_bigint::BigUint;
use num_traits::{CheckedDiv, One, Zero};
use pbt::run::{Info, Res};
use pbt::{fail, guard, Check, Src};
use std::convert::TryFrom;
use zokrates_field::{BellmanFieldExtensions, Field, Pow};

/// the scalar fields, as published
pub const CURVES: &[(&str, &str)] = &[
    ("bn128", "21888242871839275222246405745257275088548364400416034343698204186575808495617"),
    ("bls12_381", "52435875175126190479447740508185965837690552500527637822603658699938581184513"),
    ("bls12_377", "8444461749428370424248824938781546531375899335154063827935233455917409239041"),
    ("bw6_761", "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177"),
    ("pallas", "28948022309329048855892746252171976963363056481941647379679742748393362948097"),
    ("vesta", "28948022309329048855892746252171976963363056481941560715954676764349967630337"),
];

pub fn prime(name: &str) -> BigUint {
    CURVES.iter().find(|c| c.0 == name).unwrap().1.parse().unwrap()
}

struct Cx<'a> {
    curve: &'a str,
    what: String,
}
impl Cx<'_> {
    fn eq<A: std::fmt::Debug + PartialEq<B>, B: std::fmt::Debug>(&self, op: &str, got: A, want: B) -> Res {
        if got == want {
            Ok(())
        } else {
            fail(
                format!("field:{}", op),
                format!("{}: {} on {}: got {:?}, expected {:?}", self.curve, op, self.what, got, want),
            )
        }
    }
}

fn case<T: Field>(s: &mut Src, i: &mut Info, curve: &str) -> Res {
    let p = prime(curve);
    let bits = p.bits() as usize;
    let (a, b) = (s.field(&p), s.field(&p));
    let b = match s.weighted(&[8, 1, 1]) {
        0 => b,
        1 => a.clone(),
        _ => (&p - &a) % &p,
    };
    let e = match s.below(4) {
        0 => s.below(5) as usize,
        1 => s.u64() as usize,
        _ => s.below(400) as usize,
    };
    let what = format!("a = {}, b = {}, e = {}", a, b, e);
    i.sample(format!("{}: {}", curve, what));
    i.label(curve.to_string());
    if !a.is_zero() && !b.is_zero() {
        i.interesting(&format!("{}{}", curve, what));
    }
    let cx = Cx { curve, what };
    let r = guard(|| -> Res {
        cx.eq("modulus", T::max_value().to_biguint() + 1u32, p.clone())?;
        cx.eq("name", T::name(), curve)?;
        cx.eq("min_value", T::min_value().to_biguint(), BigUint::zero())?;
        cx.eq("get_required_bits", T::get_required_bits(), bits)?;
        cx.eq("max_unique_value", T::max_unique_value().to_biguint(), (BigUint::one() << (bits - 1)) - 1u32)?;
        let x = T::try_from(a.clone()).map_err(|_| ()).unwrap();
        let y = T::try_from(b.clone()).map_err(|_| ()).unwrap();
        cx.eq("to_biguint", x.to_biguint(), a.clone())?;
        let add = (&a + &b) % &p;
        let sub = (&a + &p - &b) % &p;
        let mul = (&a * &b) % &p;
        cx.eq("add", (x + y).to_biguint(), add.clone())?;
        cx.eq("add ref", (x + &y).to_biguint(), add.clone())?;
        cx.eq("sub", (x - y).to_biguint(), sub.clone())?;
        cx.eq("sub ref", (x - &y).to_biguint(), sub)?;
        cx.eq("mul", (x * y).to_biguint(), mul.clone())?;
        cx.eq("mul ref", (x * &y).to_biguint(), mul)?;
        let inv = b.modpow(&(&p - 2u32), &p);
        match y.inverse_mul() {
            None => cx.eq("inverse of", b.is_zero(), true)?,
            Some(v) => cx.eq("inverse", v.to_biguint(), inv.clone())?,
        }
        match x.checked_div(&y) {
            None => cx.eq("division by", b.is_zero(), true)?,
            Some(v) => cx.eq("checked_div", v.to_biguint(), (&a * &inv) % &p)?,
        }
        if !b.is_zero() {
            cx.eq("div", (x / y).to_biguint(), (&a * &inv) % &p)?;
            cx.eq("div ref", (x / &y).to_biguint(), (&a * &inv) % &p)?;
        }
        cx.eq("pow", x.pow(e).to_biguint(), a.modpow(&BigUint::from(e), &p))?;
        cx.eq("order", x.cmp(&y), a.cmp(&b))?;
        cx.eq("partial order", x.partial_cmp(&y), Some(a.cmp(&b)))?;
        cx.eq("equality", x == y, a == b)?;
        cx.eq("is_zero", x.is_zero(), a.is_zero())?;
        cx.eq("bits", x.bits() as usize, std::cmp::max(1, a.bits() as usize))?;
        let be: Vec<bool> = (0..bits).rev().map(|k| ((&a >> k) & BigUint::one()).is_one()).collect();
        cx.eq("to_bits_be", x.to_bits_be(), be)?;
        cx.eq("display", format!("{}", x), a.to_string())?;
        cx.eq("to_dec_string", x.to_dec_string(), a.to_string())?;
        let half = (&p - 1u32) >> 1usize;
        let compact = if a <= half { a.to_string() } else { format!("(-{})", &p - &a) };
        cx.eq("to_compact_dec_string", x.to_compact_dec_string(), compact)?;
        cx.eq("try_from_dec_str", T::try_from_dec_str(&a.to_string()).map(|v| v.to_biguint()).ok(), Some(a.clone()))?;
        for radix in [2u32, 10, 16] {
            cx.eq("try_from_str", T::try_from_str(&a.to_str_radix(radix), radix).map(|v| v.to_biguint()).ok(), Some(a.clone()))?;
            cx.eq("try_from_str out of range", T::try_from_str(&(&p + &a).to_str_radix(radix), radix).is_ok(), false)?;
        }
        cx.eq("try_from out of range", T::try_from(&p + &a).is_ok(), false)?;
        // bytes: little endian, on whole 64-bit limbs
        let mut le = a.to_bytes_le();
        le.resize((bits + 63) / 64 * 8, 0);
        cx.eq("to_byte_vector", x.to_byte_vector(), le.clone())?;
        cx.eq("from_byte_vector", T::from_byte_vector(le), x)?;
        let mut w = vec![];
        x.write(&mut w).unwrap();
        y.write(&mut w).unwrap();
        let mut c = &w[..];
        cx.eq("read", (T::read(&mut c).ok(), T::read(&mut c).ok()), (Some(x), Some(y)))?;
        cx.eq("bytes left by read", c.len(), 0)?;
        let ser = bincode::serialize(&(x, y), bincode::Infinite).unwrap();
        cx.eq("serde", bincode::deserialize::<(T, T)>(&ser).ok(), Some((x, y)))?;
        let js = serde_json::to_string(&x).unwrap();
        cx.eq("serde json", serde_json::from_str::<T>(&js).ok(), Some(x))?;
        // bounded arithmetic, on operands below the bound
        let bound = (BigUint::one() << (bits - 1)) - 1u32;
        let sh = s_shift(&a, &b, bits);
        let (sa, sb) = (&a >> sh.0, &b >> sh.1);
        if sa <= bound && sb <= bound {
            let (xa, xb) = (T::try_from(sa.clone()).map_err(|_| ()).unwrap(), T::try_from(sb.clone()).map_err(|_| ()).unwrap());
            let lim = |v: BigUint| if v <= bound { Some(v) } else { None };
            cx.eq("checked_add", num_traits::CheckedAdd::checked_add(&xa, &xb).map(|v| v.to_biguint()), lim(&sa + &sb))?;
            cx.eq("checked_mul", num_traits::CheckedMul::checked_mul(&xa, &xb).map(|v| v.to_biguint()), lim(&sa * &sb))?;
        }
        Ok(())
    });
    flat(curve, r)
}

fn s_shift(a: &BigUint, b: &BigUint, bits: usize) -> (usize, usize) {
    // derived from the operands, so that products fall on both sides of the bound
    let k = (a.bits() as usize * 31 + b.bits() as usize * 17) % bits;
    (k / 2, (bits - k) / 2)
}

fn flat(curve: &str, r: Result<Res, String>) -> Res {
    match r {
        Ok(r) => r,
        Err(m) => fail(pbt::panic_sig(&m), format!("{}: {}", curve, m)),
    }
}

fn native<T: Field>(s: &mut Src, i: &mut Info, curve: &str) -> Res {
    let p = prime(curve);
    let u = match s.below(4) {
        0 => s.uint(8) as u128,
        1 => s.uint(32) as u128,
        2 => s.uint(64) as u128,
        _ => ((s.uint(64) as u128) << 64) | s.uint(64) as u128,
    };
    let n = s.uint(32) as u32 as i32;
    i.sample(format!("{}: {} {}", curve, u, n));
    i.interesting(&format!("{}{}{}", curve, u, n));
    let cx = Cx { curve, what: format!("{} / {}", u, n) };
    let r = guard(|| -> Res {
        let m = |v: u128| BigUint::from(v) % &p;
        cx.eq("from u8", T::from(u as u8).to_biguint(), m(u as u8 as u128))?;
        cx.eq("from u16", T::from(u as u16).to_biguint(), m(u as u16 as u128))?;
        cx.eq("from u32", T::from(u as u32).to_biguint(), m(u as u32 as u128))?;
        cx.eq("from u64", T::from(u as u64).to_biguint(), m(u as u64 as u128))?;
        cx.eq("from usize", T::from(u as usize).to_biguint(), m(u as usize as u128))?;
        cx.eq("from u128", T::from(u).to_biguint(), m(u))?;
        cx.eq("from bool", T::from(u & 1 == 1).to_biguint(), m(u & 1))?;
        let neg = if n < 0 { &p - BigUint::from(n.unsigned_abs()) } else { BigUint::from(n as u32) };
        cx.eq("from i32", T::from(n).to_biguint(), neg)?;
        use sha2::Digest;
        let mut le = p.to_bytes_le();
        le.resize((p.bits() as usize + 63) / 64 * 8, 0);
        cx.eq("id", T::id().to_vec(), sha2::Sha256::digest(&le)[..4].to_vec())?;
        Ok(())
    });
    flat(curve, r)
}

/// strings and bytes that need not be field elements: an error or the right value, never a crash
fn text<T: Field>(s: &mut Src, i: &mut Info, curve: &str) -> Res {
    let p = prime(curve);
    let v = match s.below(3) {
        0 => s.field(&p),
        1 => &p + s.field(&p),
        _ => s.field(&p) * s.field(&p),
    };
    let radix = *s.pick(&[10u32, 16, 2]);
    let mut t = v.to_str_radix(radix);
    let mut clean = true;
    if s.chance(1, 3) {
        clean = false;
        let k = s.idx(t.len() + 1);
        t.insert(k, *s.pick(&['0', '-', '+', '_', ' ', 'x', 'g', '.', '\u{e9}', '9']));
    } else if s.chance(1, 8) {
        clean = false;
        t = s.pick(&["", "0", "00", "-1", "+", "_", " 1"]).to_string();
    }
    i.sample(format!("{} radix {}: {:?}", curve, radix, t));
    i.interesting(&format!("{}{}{}", curve, radix, t));
    let cx = Cx { curve, what: format!("{:?} in radix {}", t, radix) };
    let r = guard(|| -> Res {
        let got = T::try_from_str(&t, radix).map(|v| v.to_biguint()).ok();
        let plain = !t.is_empty() && t.chars().all(|c| c.is_digit(radix));
        let val = BigUint::parse_bytes(t.as_bytes(), radix);
        if plain {
            let val = val.unwrap();
            cx.eq("try_from_str", got, if val < p { Some(val) } else { None })?;
        } else if !t.contains(|c| c == '_' || c == '+') {
            cx.eq("try_from_str of junk", got, None)?;
        }
        if radix == 10 {
            let got = T::try_from_dec_str(&t).map(|v| v.to_biguint()).ok();
            if let (true, Some(got)) = (plain, &got) {
                // values out of range may be refused or reduced
                cx.eq("try_from_dec_str", got, &(t.parse::<BigUint>().unwrap() % &p))?;
            } else if plain {
                let val = t.parse::<BigUint>().unwrap();
                cx.eq("try_from_dec_str refuses", clean && val < p, false)?;
            } else {
                cx.eq("try_from_dec_str of junk", got, None)?;
            }
        }
        // corrupted encodings do not give a value that is not reduced
        let mut b = bincode::serialize(&T::try_from(&v % &p).map_err(|_| ()).unwrap(), bincode::Infinite).unwrap();
        let k = 8 + (v.bits() as usize * 7) % (b.len() - 8);
        b[k] ^= 1 << (v.bits() as usize % 8);
        if let Ok(w) = bincode::deserialize::<T>(&b) {
            let again = T::try_from(w.to_biguint());
            cx.eq("deserialized value is reduced", again.ok(), Some(w))?;
        }
        Ok(())
    });
    flat(curve, r)
}

fn bellman<T: Field + BellmanFieldExtensions>(s: &mut Src, i: &mut Info, curve: &str) -> Res {
    use bellman_ce::pairing::ff::Field as _;
    let p = prime(curve);
    let (a, b) = (s.field(&p), s.field(&p));
    i.sample(format!("{}: {} {}", curve, a, b));
    i.interesting(&format!("{}{}{}", curve, a, b));
    let cx = Cx { curve, what: format!("{} {}", a, b) };
    let r = guard(|| -> Res {
        let x = T::try_from(a.clone()).map_err(|_| ()).unwrap();
        let y = T::try_from(b.clone()).map_err(|_| ()).unwrap();
        cx.eq("bellman round trip", T::from_bellman(x.into_bellman()), x)?;
        let mut m = x.into_bellman();
        m.mul_assign(&y.into_bellman());
        cx.eq("bellman product", T::from_bellman(m).to_biguint(), (&a * &b) % &p)?;
        let mut m = x.into_bellman();
        m.sub_assign(&y.into_bellman());
        cx.eq("bellman difference", T::from_bellman(m).to_biguint(), (&a + &p - &b) % &p)?;
        Ok(())
    });
    flat(curve, r)
}

macro_rules! curves {
    ($f:ident, $s:expr, $i:expr) => {
        match $s.idx(6) {
            0 => $f::<zokrates_field::Bn128Field>($s, $i, "bn128"),
            1 => $f::<zokrates_field::Bls12_381Field>($s, $i, "bls12_381"),
            2 => $f::<zokrates_field::Bls12_377Field>($s, $i, "bls12_377"),
            3 => $f::<zokrates_field::Bw6_761Field>($s, $i, "bw6_761"),
            4 => $f::<zokrates_field::PallasField>($s, $i, "pallas"),
            _ => $f::<zokrates_field::VestaField>($s, $i, "vesta"),
        }
    };
}

pub fn check<'a>() -> Check<'a> {
    Check::new("C12", "operands that are both nonzero, or a distinct conversion; distinct by curve and operands")
        .part("arithmetic", 80000, 400000, |s, i| curves!(case, s, i))
        .part("native", 40000, 100000, |s, i| curves!(native, s, i))
        .part("text", 80000, 400000, |s, i| curves!(text, s, i))
        .part("bellman", 40000, 200000, |s, i| {
            if s.bool() {
                bellman::<zokrates_field::Bls12_381Field>(s, i, "bls12_381")
            } else {
                bellman::<zokrates_field::Bn128Field>(s, i, "bn128")
            }
        })
}
