use num_bigint::BigUint;
use pbt::lang::ast::*;
use pbt::lang::gen::Case;
use pbt::lang::interp::{FailKind, Interp, Outcome};
use zk::F;

pub fn encode(inputs: &[V]) -> Vec<F> {
    inputs
        .iter()
        .flat_map(|v| v.to_fields())
        .map(|b| zk::f(&b))
        .collect()
}

pub fn reference(case: &Case, p: &BigUint) -> Vec<Outcome> {
    case.inputs.iter().map(|i| reference_run(&case.prog, i, p)).collect()
}

/// one run of the reference. A read out of bounds must fail, unless nothing observable depends on the value read:
/// whatever is read then, the outputs and the other failures are the same.
pub fn reference_run(prog: &Program, inputs: &[V], p: &BigUint) -> Outcome {
    let mut r = Interp::new(prog, p).run(inputs.to_vec());
    if r.fails.iter().any(|f| f.must && f.kind == FailKind::OobRead)
        && r.fails.iter().all(|f| !f.must || f.kind == FailKind::OobRead)
    {
        let guesses: Vec<Outcome> = (1..=8u64)
            .map(|g| {
                let mut i = Interp::new(prog, p);
                i.guess = Some(g.wrapping_mul(0x9E37_79B9_7F4A_7C15));
                i.run(inputs.to_vec())
            })
            .collect();
        let ret = |o: &Outcome| -> Vec<Option<BigUint>> {
            o.ret
                .prims()
                .iter()
                .zip(o.ret.to_fields())
                .map(|(p, f)| if p.poison { None } else { Some(f) })
                .collect()
        };
        if guesses
            .iter()
            .all(|g| !g.must_fail() && ret(g) == ret(&guesses[0]))
        {
            for f in &mut r.fails {
                f.must = false;
            }
            r.ret = guesses.into_iter().next().unwrap().ret;
        }
    }
    r
}

pub fn show_v(v: &V) -> String {
    match v {
        V::P(p) => match &p.v {
            PV::F(b) => b.to_string(),
            PV::B(b) => b.to_string(),
            PV::U(_, u) => u.to_string(),
        },
        V::A(v) => format!("[{}]", v.iter().map(show_v).collect::<Vec<_>>().join(", ")),
        V::T(v) => format!("({})", v.iter().map(show_v).collect::<Vec<_>>().join(", ")),
        V::S(_, v) => format!(
            "{{{}}}",
            v.iter()
                .map(|(k, v)| format!("{}: {}", k, show_v(v)))
                .collect::<Vec<_>>()
                .join(", ")
        ),
    }
}

pub fn show_inputs(i: &[V]) -> String {
    i.iter().map(show_v).collect::<Vec<_>>().join(" ; ")
}

pub fn show_case(case: &Case) -> String {
    let mut s = pbt::lang::print::program(&case.prog);
    for i in &case.inputs {
        s.push_str(&format!("// inputs: {}\n", show_inputs(i)));
    }
    s
}
