//! Values assigned in assembly blocks, where field elements have bitwise operators and shifts and exponents may be inputs.
use crate::c01::reject_sig;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use pbt::{fail, panic_sig, Info, Res, Src};
use zk::XErr;

type N = BigUint;

enum X {
    Lit(N),
    /// a field variable
    Var(usize),
    Bin(&'static str, Box<X>, Box<X>),
    Div(Box<X>, N),
    /// operator, operand, amount
    By(&'static str, Box<X>, K),
    Tern(&'static str, Box<X>, Box<X>, Box<X>, Box<X>),
}

/// a u32
enum K {
    Lit(u64),
    /// input k, plus a constant
    In(usize, u64),
}

struct Env<'a> {
    p: &'a N,
    bits: usize,
    vals: &'a [N],
    ks: &'a [u64],
}

fn eval(x: &X, e: &Env) -> N {
    let p = e.p;
    match x {
        X::Lit(v) => v.clone(),
        X::Var(k) => e.vals[*k].clone(),
        X::Bin(op, a, b) => {
            let (a, b) = (eval(a, e), eval(b, e));
            (match *op {
                "+" => a + b,
                "-" => a + p - b,
                "*" => a * b,
                "&" => a & b,
                "|" => a | b,
                _ => a ^ b,
            }) % p
        }
        X::Div(a, d) => eval(a, e) * d.modpow(&(p - 2u32), p) % p,
        X::By(op, a, k) => {
            let a = eval(a, e);
            let k = match k {
                K::Lit(k) => *k,
                K::In(i, c) => (e.ks[*i] + c) & 0xffff_ffff,
            };
            match *op {
                "**" => a.modpow(&N::from(k), p),
                _ if k as usize >= e.bits => N::zero(),
                "<<" => ((a << k as usize) & ((N::one() << e.bits) - 1u32)) % p,
                _ => a >> k as usize,
            }
        }
        X::Tern(op, a, b, c, d) => {
            let (a, b) = (eval(a, e), eval(b, e));
            let q = match *op {
                "<" => a < b,
                "<=" => a <= b,
                ">" => a > b,
                ">=" => a >= b,
                "==" => a == b,
                _ => a != b,
            };
            eval(if q { c } else { d }, e)
        }
    }
}

fn show(x: &X, names: &[String]) -> String {
    let r = |x: &X| show(x, names);
    match x {
        X::Lit(v) => format!("{v}f"),
        X::Var(k) => names[*k].clone(),
        X::Bin(op, a, b) => format!("({} {op} {})", r(a), r(b)),
        X::Div(a, d) => format!("({} / {d}f)", r(a)),
        X::By(op, a, k) => {
            let k = match k {
                K::Lit(k) => format!("{k}"),
                K::In(i, 0) => format!("n{i}"),
                K::In(i, c) => format!("(n{i} + {c})"),
            };
            format!("({} {op} {k})", r(a))
        }
        X::Tern(op, a, b, c, d) => format!("(({} {op} {}) ? {} : {})", r(a), r(b), r(c), r(d)),
    }
}

fn element(s: &mut Src, p: &N) -> N {
    match s.below(6) {
        0 => N::from(s.below(4)),
        1 => p - 1u32 - s.below(4),
        2 => {
            let k = s.urange(0, p.bits() as usize - 1);
            ((N::one() << k) + s.below(3) + p - 1u32) % p
        }
        3 => N::from(s.u64()),
        _ => s.field(p),
    }
}

struct G<'a> {
    p: &'a N,
    vars: usize,
    /// probability (of 8) of a literal leaf
    lits: u64,
}

impl G<'_> {
    fn gen(&self, s: &mut Src, depth: u32) -> X {
        if depth == 0 || s.chance(1, 5) {
            return if s.below(8) < self.lits || self.vars == 0 { X::Lit(element(s, self.p)) } else { X::Var(s.idx(self.vars)) };
        }
        let mut sub = |s: &mut Src| Box::new(self.gen(s, depth - 1));
        match s.below(13) {
            0..=3 => {
                let (a, b) = (sub(s), sub(s));
                X::Bin(*s.pick(&["+", "-", "*"]), a, b)
            }
            4..=6 => {
                let (a, b) = (sub(s), sub(s));
                X::Bin(*s.pick(&["&", "|", "^"]), a, b)
            }
            7..=9 => {
                let op = *s.pick(&["<<", ">>", "**"]);
                let a = sub(s);
                let k = if s.bool() {
                    K::Lit(match s.below(3) {
                        0 => s.below(4),
                        1 => 250 + s.below(10),
                        _ => s.below(260),
                    })
                } else {
                    K::In(s.idx(2), s.below(3))
                };
                X::By(op, a, k)
            }
            10 => {
                let a = sub(s);
                let d = element(s, self.p);
                X::Div(a, if d.is_zero() { N::one() } else { d })
            }
            _ => {
                let (mut a, mut b, c, d) = (sub(s), sub(s), sub(s), sub(s));
                let op = *s.pick(&["<", "<=", ">", ">=", "==", "!="]);
                // any two elements can be compared when one is a literal
                if op != "==" && op != "!=" {
                    let l = Box::new(X::Lit(element(s, self.p)));
                    if s.bool() {
                        a = l;
                    } else {
                        b = l;
                    }
                }
                X::Tern(op, a, b, c, d)
            }
        }
    }
}

pub fn check(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::bn_p();
    let mut names: Vec<String> = vec!["x".into(), "y".into()];
    let lits = s.below(7);
    let mut body = String::new();
    let mut exprs: Vec<X> = vec![];
    let outs = s.urange(1, 4);
    for k in 0..outs {
        s.enter();
        let e = G { p: &p, vars: names.len(), lits }.gen(s, 3);
        s.exit();
        let name = format!("v{k}");
        body += &format!("    field mut {name} = 0;\n    asm {{\n        {name} <-- {};\n    }}\n", show(&e, &names));
        names.push(name);
        exprs.push(e);
    }
    let ret = (0..outs).map(|k| format!("v{k}")).collect::<Vec<_>>().join(", ");
    // the amounts are inputs, or known to the compiler by way of a call
    let known = s.chance(1, 3);
    let amount = |s: &mut Src| match s.below(4) {
        0 => s.below(3),
        1 => 252 + s.below(6),
        2 => s.below(255),
        _ => s.uint(32),
    };
    let pick: [u64; 2] = [amount(s), amount(s)];
    let src = if known {
        let call: [N; 2] = [element(s, &p), element(s, &p)];
        let all = s.bool();
        let (x, y) = if all { (call[0].to_string(), call[1].to_string()) } else { ("x".into(), "y".into()) };
        let text = format!("def f(field x, field y, u32 n0, u32 n1) -> field[{outs}] {{\n{body}    return [{ret}];\n}}\ndef main(field x, field y) -> field[{outs}] {{\n    return f({x}, {y}, {}, {});\n}}\n", pick[0], pick[1]);
        (text, if all { Some(call) } else { None })
    } else {
        (format!("def main(field x, field y, u32 n0, u32 n1) -> field[{outs}] {{\n{body}    return [{ret}];\n}}\n"), None)
    };
    let (src, fixed) = src;
    i.sample(src.clone());
    i.label(if fixed.is_some() { "everything known" } else if known { "amounts known" } else { "nothing known" });
    let c = match zk::compile(&src) {
        Ok(c) => c,
        Err(e) => return fail(reject_sig(&e), format!("a valid program is rejected: {}\n{src}", e.msg)),
    };
    for _ in 0..3 {
        let x: [N; 2] = [element(s, &p), element(s, &p)];
        let ks: [u64; 2] = if known { pick } else { [amount(s), amount(s)] };
        let mut vals: Vec<N> = fixed.as_ref().unwrap_or(&x).to_vec();
        for e in &exprs {
            let v = eval(e, &Env { p: &p, bits: p.bits() as usize, vals: &vals, ks: &ks });
            vals.push(v);
        }
        let mut inputs: Vec<zk::F> = x.iter().map(zk::f).collect();
        if !known {
            inputs.extend(ks.iter().map(|k| zk::F::from(*k)));
        }
        let d = |m: String| format!("{m}\n{src}x = {}, y = {}, n = {ks:?}", x[0], x[1]);
        match zk::execute(&c, &inputs) {
            Ok(w) => {
                let got = w.return_values();
                let want: Vec<zk::F> = vals[2..].iter().map(zk::f).collect();
                if got != want {
                    return fail("assembly value", d(format!("{got:?} instead of {want:?}")));
                }
            }
            Err(XErr::Panic(m)) => return fail(panic_sig(&m), d(m)),
            Err(e) => return fail("assembly refused", d(format!("{e:?}"))),
        }
        i.count("runs", 1);
    }
    i.interesting(&src);
    Ok(())
}
