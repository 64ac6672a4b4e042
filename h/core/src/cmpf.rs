//! Comparisons of two field elements neither of which is known: what is below 2^(bits of the prime - 2) can be compared; beyond that
//! the run may be refused, and a run that is accepted has the right result.
use crate::c01::reject_sig;
use num_bigint::BigUint;
use num_traits::One;
use pbt::{fail, panic_sig, Info, Res, Src};
use std::cell::RefCell;
use zk::XErr;

type N = BigUint;

type C = &'static zk::Compiled<zk::F>;
thread_local!(static ALL: RefCell<Vec<(String, C)>> = const { RefCell::new(vec![]) });

/// there are few programs: each is compiled once in a thread
fn compiled(src: &str) -> Result<C, zk::CErr> {
    if let Some(c) = ALL.with(|l| l.borrow().iter().find(|(s, _)| s == src).map(|(_, c)| *c)) {
        return Ok(c);
    }
    let c: C = Box::leak(Box::new(zk::compile(src)?));
    ALL.with(|l| l.borrow_mut().push((src.to_string(), c)));
    Ok(c)
}

/// a pair of elements, and whether they can be compared
pub fn pair(s: &mut Src) -> (N, N, bool) {
    let p = zk::bn_p();
    let limit = N::one() << (p.bits() as usize - 2);
    let a = match s.below(6) {
        0 => N::from(s.below(4)),
        1 => &p - 1u32 - s.below(4),
        2 => (&limit + s.below(5)) - 2u32,
        3 => ((&limit << 1usize) + s.below(5)) - 2u32,
        4 => ((&p >> 1usize) + s.below(5)) - 2u32,
        _ => s.field(&p),
    };
    let d = match s.below(6) {
        0 => N::from(s.below(4)),
        1 | 2 => (&limit + s.below(5)) - 2u32,
        3 => {
            let k = s.urange(0, p.bits() as usize - 1);
            N::one() << k
        }
        4 => ((&limit << 1usize) + s.below(5)) - 2u32,
        _ => s.big_below(&limit),
    } % &p;
    let near = s.below(4) > 0;
    let a = if near { a % &limit } else { a };
    let b = if s.bool() { (&a + &d) % &p } else { (&a + &p - &d) % &p };
    let b = if near && s.below(4) > 0 { b % &limit } else { b };
    let fits = a < limit && b < limit;
    (a, b, fits)
}

pub fn check(s: &mut Src, i: &mut Info) -> Res {
    let op = *s.pick(&["<", "<=", ">", ">="]);
    let src = match s.below(4) {
        0 | 1 => format!("def main(field a, field b, bool c) -> bool {{\n    return a {op} b;\n}}\n"),
        2 => format!("def main(field a, field b, bool c) -> bool {{\n    assert((a {op} b) == c);\n    return c;\n}}\n"),
        _ => format!("def main(field a, field b, bool c) -> bool {{\n    return c ? (a {op} b) : (a {op} b && c == c);\n}}\n"),
    };
    let (a, b, fits) = pair(s);
    i.sample(format!("{a} {op} {b}"));
    let want = match op {
        "<" => a < b,
        "<=" => a <= b,
        ">" => a > b,
        _ => a >= b,
    };
    let c = match compiled(&src) {
        Ok(c) => c,
        Err(e) => return fail(reject_sig(&e), e.msg),
    };
    i.label(if fits { "in range" } else { "out of range" });
    i.interesting(&format!("{src} {a} {b}"));
    let d = |m: String| format!("{m}\n{src}a = {a}\nb = {b}");
    match zk::execute(c, &[zk::f(&a), zk::f(&b), zk::F::from(want as u32)]) {
        Ok(w) if w.return_values() == vec![zk::F::from(want as u32)] => Ok(()),
        Ok(w) => fail("comparison result", d(format!("{:?} instead of {want}", w.return_values()))),
        Err(XErr::Panic(m)) => fail(panic_sig(&m), d(m)),
        Err(_) if !fits => Ok(()),
        Err(e) => fail("comparison refused", d(format!("{e:?} although both are in range"))),
    }
}
