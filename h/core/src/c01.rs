//! C01: outputs = reference semantics. C02: acceptance/rejection = reference semantics.
use crate::util::*;
use pbt::lang::gen::{generate, Case, Cfg};
use pbt::{fail, panic_sig, Check, Info, Res, Src};
use num_bigint::BigUint;
use zk::{CErrKind, XErr};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Outputs,
    Acceptance,
}

fn case(s: &mut Src, i: &mut Info, cfg: &Cfg, mode: Mode) -> Res {
    let (case, feats) = generate(s, cfg, &zk::bn_p());
    for f in feats {
        i.label(f);
    }
    judge(i, &case, mode)
}

pub fn judge(i: &mut Info, case: &Case, mode: Mode) -> Res {
    let p = zk::bn_p();
    let src = pbt::lang::print::program(&case.prog);
    i.sample(show_case(case));
    let refs = reference(case, &p);
    let ok = refs.iter().any(|r| !r.may_fail());
    let compiled = zk::compile(&src);
    let compiled = match compiled {
        Ok(c) => c,
        Err(e) => {
            i.label("compile error");
            if e.kind == CErrKind::Panic {
                return fail(panic_sig(&e.msg), format!("the compiler panicked: {}", e.msg));
            }
            if mode == Mode::Outputs && ok {
                return fail(
                    reject_sig(&e),
                    format!("a valid program is rejected: {}", e.msg),
                );
            }
            if !refs.iter().all(|r| r.may_fail()) {
                return fail(
                    reject_sig(&e),
                    format!("rejected although some inputs satisfy it: {}", e.msg),
                );
            }
            i.interesting(&src);
            return Ok(());
        }
    };
    i.count("constraints", compiled.prog.constraint_count() as u64);
    for (inp, r) in case.inputs.iter().zip(&refs) {
        let x = zk::execute(&compiled, &encode(inp));
        if let Err(XErr::Panic(m)) = &x {
            return fail(panic_sig(m), format!("execution panicked on {}: {}", show_inputs(inp), m));
        }
        let must = r.must_fail();
        let may = r.may_fail();
        i.count("runs", 1);
        match x {
            Ok(w) => {
                if must {
                    i.count("failing runs", 1);
                    return fail(
                        format!("accepted:{:?}", std::mem::discriminant(&r.fails[0].kind)),
                        format!(
                            "inputs {}: execution succeeds although the reference fails: {:?}",
                            show_inputs(inp),
                            r.fails
                        ),
                    );
                }
                let out: Vec<_> = w.return_values().iter().map(|v| v.to_biguint()).collect();
                let prims = r.ret.prims();
                let exp = r.ret.to_fields();
                if out.len() != exp.len() {
                    return fail(
                        "output count",
                        format!("{} outputs instead of {}", out.len(), exp.len()),
                    );
                }
                for k in 0..exp.len() {
                    if !prims[k].poison && out[k] != exp[k] {
                        return fail(
                            "output",
                            format!(
                                "inputs {}: output {} is {} instead of {}",
                                show_inputs(inp),
                                k,
                                out[k],
                                exp[k]
                            ),
                        );
                    }
                }
                i.count("succeeding runs", 1);
                if !exp.is_empty() && mode == Mode::Outputs {
                    i.interesting(&src);
                }
                if r.asserts > 0 && mode == Mode::Acceptance {
                    i.interesting(&src);
                }
            }
            Err(XErr::Failed(m)) => {
                if !may {
                    return fail(
                        "refused",
                        format!(
                            "inputs {}: execution fails although the reference succeeds: {}",
                            show_inputs(inp),
                            m
                        ),
                    );
                }
                i.count(if must { "failing runs" } else { "undetermined runs" }, 1);
                if must && mode == Mode::Acceptance {
                    i.interesting(&src);
                }
            }
            Err(XErr::Panic(_)) => unreachable!(),
        }
    }
    Ok(())
}

use zk::Field;

pub fn outputs<'a>() -> Check<'a> {
    let general = Cfg {
        asserts: 0,
        ..Cfg::default()
    };
    let total = Cfg {
        asserts: 0,
        total: true,
        ..Cfg::default()
    };
    let deep = Cfg {
        funs: 1,
        stmts: 3,
        depth: 6,
        budget: 400,
        w_comp: 1,
        asserts: 0,
        total: true,
        ..Cfg::default()
    };
    Check::new(
        "C01",
        "a generated program that compiles and yields at least one output on at least one input vector; distinct by source text",
    )
    .part("general", 10000, 200000, move |s, i| {
        case(s, i, &general, Mode::Outputs)
    })
    .part("total", 8000, 150000, move |s, i| {
        case(s, i, &total, Mode::Outputs)
    })
    .part("wide", 1500, 20000, wide)
    .part("chains", 4000, 60000, |s, i| {
        let case = crate::chains::generate(s, i);
        judge(i, &case, Mode::Outputs)
    })
    .part("constants", 2500, 40000, |s, i| {
        let case = crate::chains::constants(s, i);
        judge(i, &case, Mode::Outputs)
    })
    .part("assembly", 2500, 40000, crate::asmf::check)
    .part("deep", 8000, 150000, move |s, i| case(s, i, &deep, Mode::Outputs))
}

/// equality of long arrays: they are compared in packed form, where distinct bit strings may be congruent modulo the prime
fn wide(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::bn_p();
    let bits = p.bits() as usize;
    let n = match s.below(4) {
        0 => s.urange(1, 20),
        1 => s.urange(bits - 3, bits + 3),
        2 => s.urange(2 * bits - 5, 2 * bits + 4),
        _ => s.urange(1, 3 * bits),
    };
    let mut a: Vec<bool> = (0..n).map(|_| s.bool()).collect();
    let mut b = a.clone();
    match s.below(4) {
        0 => {}
        1 => {
            let k = s.idx(n);
            b[k] = !b[k];
        }
        2 => {
            let (j, k) = (s.idx(n), s.idx(n));
            b.swap(j, k);
        }
        _ => {
            // two windows congruent modulo the prime
            if n >= bits {
                let w = bits + s.below(2).min((n - bits) as u64) as usize;
                let start = match s.below(3) {
                    0 => 0,
                    1 => n - w,
                    _ => s.idx(n - w + 1),
                };
                let room = (BigUint::from(1u32) << w) - &p;
                let x = s.big_below(&room);
                let y = &x + &p;
                for k in 0..w {
                    let bit = |v: &BigUint| ((v >> (w - 1 - k)) & BigUint::from(1u32)) == BigUint::from(1u32);
                    a[start + k] = bit(&x);
                    b[start + k] = bit(&y);
                }
            }
        }
    }
    let shape = s.below(3);
    let (decl, eq) = match shape {
        0 => (format!("bool[{n}] a, bool[{n}] b"), "a == b".to_string()),
        1 => (format!("bool[{n}] a, bool[{n}] b"), "(a, 1f) == (b, 1f)".to_string()),
        _ => (format!("bool[1][{n}] a, bool[1][{n}] b"), "a == b".to_string()),
    };
    let neg = s.bool();
    let src = format!(
        "def main({decl}) -> bool {{ return {}{}; }}\n",
        eq.replace("==", if neg { "!=" } else { "==" }),
        ""
    );
    i.sample(src.clone());
    let c = match zk::compile(&src) {
        Ok(c) => c,
        Err(e) => return fail(reject_sig(&e), e.msg),
    };
    let inputs: Vec<zk::F> = a.iter().chain(&b).map(|b| zk::F::from(*b as u32)).collect();
    i.interesting(&format!("{n} {shape} {a:?} {b:?}"));
    match zk::execute(&c, &inputs) {
        Ok(w) => {
            let got = w.return_values()[0] == zk::F::from(1);
            if got != ((a == b) != neg) {
                return fail("wide equality", format!("length {n}: {eq} is {got}, a = {a:?}, b = {b:?}"));
            }
            Ok(())
        }
        Err(e) => fail("wide refused", format!("{e:?}")),
    }
}

pub fn acceptance<'a>() -> Check<'a> {
    let cfg = Cfg {
        asserts: 24,
        inputs: 4,
        stmts: 5,
        ..Cfg::default()
    };
    Check::new(
        "C02",
        "a generated program with an assertion, a division or an index that some run reaches",
    )
    .part("general", 10000, 200000, move |s, i| {
        case(s, i, &cfg, Mode::Acceptance)
    })
    .part("comparison", 3000, 40000, crate::cmpf::check)
    .part("constraint", 3000, 60000, crate::asmc::check)
    .part("dropped", 100, 400, dropped)
}

/// A function with an assertion, called in an operand whose value does not matter: the assertion still has to hold.
const DROPPED: &[(&str, &str)] = &[
    ("or", "bool b = f(a) == 0f || true; return b;"),
    ("and", "bool b = false && f(a) == 0f; return !b;"),
    ("index", "return [true, f(a) == 0f][0];"),
    ("tuple", "return (true, f(a)).0;"),
    ("struct", "return (S {m: true, n: f(a)}).m;"),
    ("slice", "return [true, f(a) == 0f][0..1][0];"),
    ("power", "return f(a) ** 0 == 1f;"),
    ("shift", "return (g(a) >> 32) == 0u32;"),
    ("branch", "return if true { true } else { f(a) == 0f };"),
    ("product", "return f(a) * 0f == 0f;"),
    ("condition", "field b = if f(a) == 0f { 1f } else { 1f }; return b == 1f;"),
    ("bitand", "return g(a) & 0u32 == 0u32;"),
    ("unused", "field b = f(a); return true;"),
    ("unused element", "field[2] b = [1f, f(a)]; return b[0] == 1f;"),
    ("unused branch", "field b = if a == 3f { f(a) } else { 1f }; return true;"),
];

fn dropped(s: &mut Src, i: &mut Info) -> Res {
    let (name, body) = DROPPED[s.idx(DROPPED.len())];
    let k = s.range(1, 1000);
    let src = format!(
        "struct S {{ bool m; field n; }}\ndef f(field x) -> field {{ assert(x != {k}f); return x; }}\ndef g(field x) -> u32 {{ assert(x != {k}f); return 3u32; }}\ndef main(field a) -> bool {{ {body} }}\n"
    );
    i.sample(src.clone());
    let c = zk::compile(&src).map_err(|e| pbt::Failure {
        sig: reject_sig(&e),
        msg: e.msg.clone(),
    })?;
    let ok = zk::execute(&c, &[zk::F::from(k as u128 as usize + 1)]);
    if !matches!(ok, Ok(_)) {
        return fail(format!("dropped refused:{name}"), "valid input refused");
    }
    i.interesting(&src);
    // the branch that is not taken, known at compile time, may be removed with its assertions
    if name != "branch" && matches!(zk::execute(&c, &[zk::F::from(k as usize)]), Ok(_)) {
        return fail(
            format!("dropped assertion:{name}"),
            format!("the assertion x != {k} in the called function is not enforced on a = {k}"),
        );
    }
    Ok(())
}

pub fn reject_sig(e: &zk::CErr) -> String {
    let m = e.msg.rsplit("\n\t").next().unwrap_or("");
    // names, types and numbers out
    let mut out = String::new();
    let mut tick = false;
    for c in m.chars() {
        if c == '`' {
            tick = !tick;
        } else if !tick && !c.is_ascii_digit() {
            out.push(c);
        }
    }
    format!("rejected:{:?}:{}", e.kind, out.chars().take(60).collect::<String>())
}
