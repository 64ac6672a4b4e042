//! C06: folding at compile time agrees with evaluation at run time.
use crate::c01::{judge, Mode};
use crate::util::*;
use pbt::lang::ast::*;
use pbt::lang::gen::{generate, Case, Cfg};
use pbt::{Check, Info, Res, Src};

fn literal(s: &mut Src, p: &Program, t: &Ty, v: &V, bare: bool) -> E {
    if let Ty::Struct(n, g) = t {
        if let Some(a) = p.aliases.iter().find(|a| a.name == *n) {
            let m = a.generics.iter().cloned().zip(g.iter().cloned()).collect();
            return literal(s, p, &a.ty.subst(&m), v, bare);
        }
    }
    match (t, v) {
        (_, V::P(x)) => match &x.v {
            PV::B(b) => E::Bool(*b),
            v => {
                let style = match s.below(4) {
                    0 if bare => LitStyle::Bare,
                    1 if matches!(v, PV::U(..)) => LitStyle::Hex,
                    2 => LitStyle::UnderscoreSuffix,
                    _ => LitStyle::Suffix,
                };
                let t = match v {
                    PV::U(n, _) => Ty::U(*n),
                    _ => Ty::Field,
                };
                E::Num(t, v.to_big(), style)
            }
        },
        (Ty::Arr(t, n), V::A(vs)) => {
            if vs.len() > 1 && vs.iter().all(|v| *v == vs[0]) {
                return E::ArrRep(Box::new(literal(s, p, t, &vs[0], false)), n.clone());
            }
            E::ArrLit(vs.iter().map(|v| Elem::One(literal(s, p, t, v, false))).collect())
        }
        (Ty::Tup(ts), V::T(vs)) => E::TupLit(ts.iter().zip(vs).map(|(t, v)| literal(s, p, t, v, false)).collect()),
        (Ty::Struct(n, g), V::S(_, vs)) => {
            let d = p.structs.iter().find(|d| d.name == *n).unwrap();
            let m = d.generics.iter().cloned().zip(g.iter().cloned()).collect();
            E::StructLit(
                n.clone(),
                d.fields
                    .iter()
                    .zip(vs)
                    .map(|((k, t), (_, v))| (k.clone(), literal(s, p, &t.subst(&m), v, false)))
                    .collect(),
            )
        }
        _ => unreachable!("{t:?} {v:?}"),
    }
}

/// moves some of main's inputs into the program, with the values of the first input vector
fn bake(s: &mut Src, case: &Case) -> Case {
    let mut prog = case.prog.clone();
    let n = prog.main().params.len();
    let all = s.chance(1, 4);
    let mut keep: Vec<bool> = (0..n).map(|_| !all && s.bool()).collect();
    if n > 0 && keep.iter().all(|k| *k) {
        let k = s.idx(n);
        keep[k] = false;
    }
    let style = s.below(3);
    let mut main = prog.funs.pop().unwrap();
    let mut args = vec![];
    let mut defs = vec![];
    let mut params = vec![];
    for (k, q) in main.params.iter().enumerate() {
        if keep[k] {
            params.push(q.clone());
            args.push(var(&q.name));
            continue;
        }
        let e = literal(s, &prog, &q.ty, &case.inputs[0][k], q.ty.is_prim() && style != 1);
        args.push(e.clone());
        defs.push(S::Def {
            ty: q.ty.clone(),
            mutable: q.mutable,
            name: q.name.clone(),
            e,
        });
    }
    match style {
        // the former main is called with literals
        1 => {
            let mut inner = main.clone();
            inner.name = "bakedinner".into();
            for p in &mut inner.params {
                p.vis = Vis::Default;
            }
            let ret = main.ret.clone();
            prog.funs.push(inner);
            let call = E::Call("bakedinner".into(), None, args);
            let void = ret == Ty::Tup(vec![]);
            prog.funs.push(Fun {
                name: "main".into(),
                generics: vec![],
                params,
                ret,
                body: vec![if void { S::Def { ty: Ty::Tup(vec![]), mutable: false, name: "bakedr".into(), e: call } } else { S::Return(Some(call)) }],
            });
        }
        _ => {
            main.params = params;
            main.body = defs.into_iter().chain(main.body).collect();
            prog.funs.push(main);
        }
    }
    let inputs = case
        .inputs
        .iter()
        .map(|v| v.iter().zip(&keep).filter(|(_, k)| **k).map(|(v, _)| v.clone()).collect())
        .collect();
    Case { prog, inputs }
}

fn case(s: &mut Src, i: &mut Info, cfg: &Cfg, mode: Mode) -> Res {
    let (case, _) = generate(s, cfg, &zk::bn_p());
    if case.prog.main().params.is_empty() {
        i.label("no parameter");
        return Ok(());
    }
    let b = s.group(|s| bake(s, &case));
    judge(i, &b, mode)
}

/// one operator on two values: in the program or as inputs
fn operators(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::bn_p();
    let t = match s.below(6) {
        0 | 1 => Ty::Field,
        2 => Ty::Bool,
        _ => Ty::U([8, 16, 32, 64][s.idx(4)]),
    };
    let ops: &[Op] = match t {
        Ty::Field => &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge],
        Ty::Bool => &[Op::And, Op::Or, Op::Eq, Op::Ne],
        _ => &[
            Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::BAnd, Op::BOr, Op::Xor, Op::Eq, Op::Ne, Op::Lt, Op::Le,
            Op::Gt, Op::Ge,
        ],
    };
    let op = *s.pick(ops);
    let val = |s: &mut Src| -> V {
        let v = match &t {
            Ty::Field => PV::F(s.field(&p)),
            Ty::Bool => PV::B(s.bool()),
            Ty::U(n) => PV::U(*n, s.uint(*n)),
            _ => unreachable!(),
        };
        V::P(P { v, dep: true, poison: false })
    };
    let (a, b) = (val(s), val(s));
    let b = if s.chance(1, 5) { a.clone() } else { b };
    let ret = match op {
        Op::And | Op::Or | Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => Ty::Bool,
        _ => t.clone(),
    };
    let mut e = bin(op, var("a"), var("b"));
    let mut ret_t = ret.clone();
    match (s.below(6), &t) {
        (0, Ty::U(n)) => {
            let k = s.below(*n as u64 + 3) as u32;
            e = if s.bool() { E::Shl(Box::new(var("a")), Sz::Lit(k)) } else { E::Shr(Box::new(var("a")), Sz::Lit(k)) };
            ret_t = t.clone();
        }
        (1, Ty::Field) => {
            e = E::Pow(Box::new(var("a")), Sz::Lit(s.below(300) as u32));
            ret_t = t.clone();
        }
        (2, Ty::U(_)) => {
            e = E::Un(*s.pick(&[Un::Not, Un::Neg, Un::Pos]), Box::new(var("a")));
            ret_t = t.clone();
        }
        (2, Ty::Field) => {
            e = E::Un(*s.pick(&[Un::Neg, Un::Pos]), Box::new(var("a")));
            ret_t = t.clone();
        }
        (2, Ty::Bool) => {
            e = E::Un(Un::Not, Box::new(var("a")));
            ret_t = t.clone();
        }
        _ => {}
    }
    let param = |n: &str| Param { vis: Vis::Default, mutable: false, name: n.into(), ty: t.clone() };
    let base = Case {
        prog: Program {
            structs: vec![],
            aliases: vec![],
            consts: vec![],
            funs: vec![Fun {
                name: "main".into(),
                generics: vec![],
                params: vec![param("a"), param("b")],
                ret: ret_t,
                body: vec![S::Return(Some(e))],
            }],
        },
        inputs: vec![vec![a, b]],
    };
    judge(i, &base, Mode::Outputs)?;
    let baked = s.group(|s| bake(s, &base));
    judge(i, &baked, Mode::Outputs).map_err(|f| pbt::Failure {
        msg: format!("{}\n{}", f.msg, show_case(&baked)),
        ..f
    })
}

pub fn check<'a>() -> Check<'a> {
    let general = Cfg { asserts: 8, inputs: 3, ..Cfg::default() };
    let total = Cfg { asserts: 0, total: true, inputs: 2, depth: 5, ..Cfg::default() };
    Check::new(
        "C06",
        "a generated program with at least one input replaced by its value, which compiles and yields outputs; distinct by source text",
    )
    .part("general", 8000, 150000, move |s, i| case(s, i, &general, Mode::Outputs))
    .part("total", 8000, 150000, move |s, i| case(s, i, &total, Mode::Outputs))
    .part("operators", 12000, 200000, operators)
}
