//! C03: a prover who deviates from the solvers cannot get other results accepted.
use crate::util::*;
use pbt::lang::ast::*;
use pbt::lang::gen::{generate, Case, Cfg};
use pbt::{fail, Check, Info, Res, Src};
use zk::adv::System;
use zk::{Field, F};

fn search(
    s: &mut Src,
    i: &mut Info,
    sys: &System,
    src: &str,
    inputs: &[F],
    expected: Option<&[Option<F>]>,
    tries: usize,
    describe: &str,
) -> Res {
    let (sat, honest) = sys.honest(inputs);
    for t in 0..tries {
        let target = if sys.free.is_empty() || (!sat && t % 2 == 0) {
            None
        } else {
            Some(sys.free[s.idx(sys.free.len())])
        };
        if sat && target.is_none() {
            break;
        }
        i.count("attempts", 1);
        let found = s.group(|s| sys.attempt(s, inputs, &honest, target));
        let Some(vals) = found else { continue };
        i.count("alternative assignments", 1);
        let outs = sys.outputs(&vals);
        match expected {
            None => {
                return fail(
                    "accepted",
                    format!("{describe}: the constraints are satisfiable although the execution must fail\n{src}"),
                )
            }
            Some(e) => {
                for (k, (o, e)) in outs.iter().zip(e).enumerate() {
                    if let Some(e) = e {
                        if o != e {
                            return fail(
                                "other output",
                                format!("{describe}: output {k} can be {} instead of {}", o.to_biguint(), e.to_biguint()),
                            );
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn case(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let p = zk::bn_p();
    let (case, _) = generate(s, cfg, &p);
    explore(s, i, case)
}

fn explore(s: &mut Src, i: &mut Info, case: Case) -> Res {
    let p = zk::bn_p();
    let src = pbt::lang::print::program(&case.prog);
    i.sample(show_case(&case));
    // acceptance of valid programs is C01's and C02's business
    let Ok(c) = zk::compile(&src) else {
        i.label("does not compile");
        return Ok(());
    };
    let sys = System::new(&c);
    if sys.constraints > 1500 {
        i.label("too big");
        return Ok(());
    }
    let params: Vec<Ty> = case.prog.main().params.iter().map(|p| p.ty.clone()).collect();
    let tries = 40.min(2 * sys.free.len() + 4);
    for inp in &case.inputs {
        let r = reference_run(&case.prog, inp, &p);
        let enc = encode(inp);
        let d = format!("inputs {}", show_inputs(inp));
        if r.must_fail() {
            i.label("run that must fail");
            search(s, i, &sys, &src, &enc, None, tries, &d)?;
        } else {
            let exp: Vec<Option<F>> = r
                .ret
                .prims()
                .iter()
                .zip(r.ret.to_fields())
                .map(|(p, f)| if p.poison || r.may_fail() { None } else { Some(zk::f(&f)) })
                .collect();
            search(s, i, &sys, &src, &enc, Some(&exp), tries, &d)?;
        }
        if !sys.free.is_empty() {
            i.interesting(&src);
        }
    }
    // an input out of the range of its type
    let Some(inp) = case.inputs.first() else { return Ok(()) };
    let mut enc = encode(inp);
    let prims: Vec<P> = inp.iter().flat_map(|v| v.prims().into_iter().cloned()).collect();
    let cands: Vec<usize> = (0..prims.len()).filter(|k| !matches!(prims[*k].v, PV::F(_))).collect();
    if !cands.is_empty() {
        let k = *s.pick(&cands);
        let bits = match prims[k].v {
            PV::B(_) => 1,
            PV::U(n, _) => n,
            _ => unreachable!(),
        };
        let top = num_bigint::BigUint::from(1u32) << (bits as usize);
        let v = match s.below(4) {
            0 => top.clone(),
            1 => &top + s.below(300),
            2 => &p - 1u32 - s.below(3),
            _ => &top + s.big_below(&(&p - &top)),
        };
        enc[k] = zk::f(&v);
        i.label("input out of range");
        search(s, i, &sys, &src, &enc, None, tries / 2 + 4, &format!("raw input {k} = {v} of {bits} bits"))?;
        if zk::execute(&c, &enc).is_ok() {
            return fail("input range", format!("raw input {k} = {v} of {bits} bits is accepted ({params:?})"));
        }
    }
    Ok(())
}

pub fn check<'a>() -> Check<'a> {
    let general = Cfg {
        asserts: 6,
        stmts: 4,
        depth: 3,
        budget: 120,
        inputs: 2,
        ..Cfg::default()
    };
    let arith = Cfg {
        asserts: 6,
        funs: 0,
        stmts: 2,
        depth: 3,
        budget: 60,
        w_comp: 2,
        inputs: 2,
        widths: vec![8, 8, 16, 32, 64],
        ..Cfg::default()
    };
    Check::new(
        "C03",
        "a generated program whose constraint system has values the prover is free to choose; distinct by source text",
    )
    .part("general", 3000, 60000, move |s, i| case(s, i, &general))
    .part("arithmetic", 6000, 100000, move |s, i| case(s, i, &arith))
    .part("chains", 1200, 20000, |s, i| {
        let case = crate::chains::generate(s, i);
        explore(s, i, case)
    })
}
