//! Constraints written in assembly blocks: what is accepted holds exactly when the two sides are equal, whatever their shape.
use crate::c01::reject_sig;
use num_bigint::BigUint;
use num_traits::Zero;
use pbt::{fail, panic_sig, Info, Res, Src};
use zk::XErr;

type N = BigUint;

#[derive(Clone)]
enum X {
    Lit(N),
    Var(usize),
    Bin(char, Box<X>, Box<X>),
}

fn bin(op: char, a: X, b: X) -> X {
    X::Bin(op, Box::new(a), Box::new(b))
}

fn eval(x: &X, v: &[N], p: &N) -> N {
    match x {
        X::Lit(n) => n.clone(),
        X::Var(k) => v[*k].clone(),
        X::Bin(op, a, b) => {
            let (a, b) = (eval(a, v, p), eval(b, v, p));
            (match op {
                '+' => a + b,
                '-' => a + p - b,
                _ => a * b,
            }) % p
        }
    }
}

fn show(x: &X) -> String {
    match x {
        X::Lit(n) => format!("{n}f"),
        X::Var(k) => format!("v{k}"),
        X::Bin(op, a, b) => format!("({} {op} {})", show(a), show(b)),
    }
}

fn literal(s: &mut Src, p: &N) -> X {
    X::Lit(match s.below(5) {
        0 => p - 1u32 - s.below(2),
        1 => s.field(p),
        2 => N::zero(),
        _ => N::from(s.below(5)),
    })
}

/// a linear combination of the first `n` variables
fn linear(s: &mut Src, n: usize, p: &N) -> X {
    let term = |s: &mut Src| {
        let v = X::Var(s.idx(n));
        match s.below(6) {
            0 => bin('*', literal(s, p), v),
            1 => bin('*', v, literal(s, p)),
            2 => literal(s, p),
            _ => v,
        }
    };
    let mut e = term(s);
    for _ in 0..s.below(3) {
        let t = term(s);
        let op = *s.pick(&['+', '-']);
        e = if s.bool() { bin(op, e, t) } else { bin(op, t, e) };
    }
    e
}

fn any(s: &mut Src, n: usize, depth: u32, p: &N) -> X {
    if depth == 0 || s.chance(1, 6) {
        return if s.chance(1, 5) { literal(s, p) } else { X::Var(s.idx(n)) };
    }
    let op = *s.pick(&['*', '*', '*', '+', '-']);
    let a = any(s, n, depth - 1, p);
    bin(op, a, any(s, n, depth - 1, p))
}

/// e === d, with the terms of either side moved around; the value of the unknown variable is found by solving for it
pub fn check(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::bn_p();
    let n = s.urange(1, 4);
    let kind = s.below(4);
    // the unknown
    let d = X::Var(n);
    let (l, r, sure) = match kind {
        0 => {
            let e = bin('*', linear(s, n, &p), linear(s, n, &p));
            let o = linear(s, n, &p);
            let op = *s.pick(&['+', '-']);
            (e, bin(op, o, d), true)
        }
        // every product has a factor in common with the others
        1 => {
            let f = s.idx(n);
            let mut l: Option<X> = None;
            let mut r = d;
            for _ in 0..s.urange(1, 5) {
                s.enter();
                let t = match s.below(5) {
                    0 => linear(s, n, &p),
                    1 => bin('*', X::Var(f), linear(s, n, &p)),
                    2 => bin('*', linear(s, n, &p), X::Var(f)),
                    3 => bin('*', bin('*', literal(s, &p), X::Var(f)), X::Var(s.idx(n))),
                    _ => bin('*', X::Var(s.idx(n)), X::Var(f)),
                };
                s.exit();
                let op = *s.pick(&['+', '-']);
                match l {
                    Some(x) if s.bool() => l = Some(bin(op, x, t)),
                    None => l = Some(t),
                    x => {
                        l = x;
                        r = bin(op, r, t);
                    }
                }
            }
            (l.unwrap(), r, true)
        }
        _ => {
            let e = any(s, n, if kind == 2 { 2 } else { 3 }, &p);
            match s.below(3) {
                0 => (e, d, false),
                1 => (bin('+', e, d), any(s, n, 2, &p), false),
                _ => (bin('-', any(s, n, 1, &p), d), e, false),
            }
        }
    };
    let (l, r) = if s.bool() { (l, r) } else { (r, l) };
    let args = (0..=n).map(|k| format!("{}field v{k}", if k % 2 == 0 { "private " } else { "" })).collect::<Vec<_>>().join(", ");
    let src = format!("def main({args}) -> bool {{\n    asm {{\n        {} === {};\n    }}\n    return true;\n}}\n", show(&l), show(&r));
    i.sample(src.clone());
    let c = match zk::compile(&src) {
        Ok(c) => c,
        Err(e) if !sure && e.msg.contains("Non-quadratic") => {
            i.label("refused as not quadratic");
            return Ok(());
        }
        Err(e) => return fail(reject_sig(&e), format!("a quadratic constraint is rejected: {}\n{src}", e.msg)),
    };
    i.label(["product of linear combinations", "common factor", "anything, small", "anything"][kind as usize]);
    i.interesting(&src);
    let gap = |v: &[N]| (eval(&l, v, &p) + &p - eval(&r, v, &p)) % &p;
    for t in 0..4 {
        let mut v: Vec<N> = (0..=n).map(|_| if t == 3 { N::from(s.below(3)) } else { s.field(&p) }).collect();
        // the sides are linear in the unknown, with a coefficient of 1 or -1
        let wanted = t % 2 == 0;
        v[n] = N::zero();
        let g = gap(&v);
        v[n] = g.clone();
        if !gap(&v).is_zero() {
            v[n] = (&p - g) % &p;
        }
        if !gap(&v).is_zero() {
            return fail("oracle", "the unknown is not linear".to_string());
        }
        if !wanted {
            v[n] = match s.below(3) {
                0 => N::zero(),
                1 => (&v[n] + 1u32) % &p,
                _ => s.field(&p),
            };
        }
        let holds = gap(&v).is_zero();
        let inputs: Vec<zk::F> = v.iter().map(zk::f).collect();
        let m = |m: String| format!("{m}\n{src}{v:?}");
        match zk::execute(&c, &inputs) {
            Ok(_) if holds => i.count("accepted", 1),
            Ok(_) => return fail("false constraint accepted", m("the sides are not equal, and the run is accepted".into())),
            Err(XErr::Panic(e)) => return fail(panic_sig(&e), m(e)),
            Err(e) if holds => return fail("constraint refused", m(format!("the sides are equal: {e:?}"))),
            Err(_) => i.count("refused", 1),
        }
    }
    Ok(())
}
