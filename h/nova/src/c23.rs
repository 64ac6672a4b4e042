//! Incremental proofs: the circuit given to Nova is the program, and what it proves is the iterated program.
use crate::irgen::{generate_with, Ir};
use bellperson::gadgets::num::AllocatedNum;
use bellperson::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable as BVar};
use ff::PrimeField;
use nova_snark::traits::circuit::StepCircuit;
use num_bigint::BigUint;
use pbt::run::{Info, Res};
use pbt::{fail, guard, Check, Src};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use zk::ir::Parameter;
use zk::{Field, LinComb, Prog, Statement, Variable};
use zokrates_bellperson::nova::{self, NovaComputation, NovaField};
use zokrates_bellperson::Computation;
use zokrates_field::{PallasField, VestaField};

/// Records what a circuit does
struct Rec<S: PrimeField> {
    inputs: Vec<Option<S>>,
    aux: Vec<Option<S>>,
    constraints: Vec<[LinearCombination<S>; 3]>,
}

impl<S: PrimeField> ConstraintSystem<S> for Rec<S> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<BVar, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.aux.push(f().ok());
        Ok(BVar(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<BVar, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.inputs.push(f().ok());
        Ok(BVar(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LB: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LC: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
    {
        let z = LinearCombination::zero;
        self.constraints.push([a(z()), b(z()), c(z())]);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

impl<S: PrimeField> Rec<S> {
    fn empty() -> Self {
        Rec { inputs: vec![Some(S::ONE)], aux: vec![], constraints: vec![] }
    }
    fn get(&self, i: Index) -> Option<S> {
        match i {
            Index::Input(k) => self.inputs[k],
            Index::Aux(k) => self.aux[k],
        }
    }
}

/// The recorded constraints are those of the program: `known` are the places of variables that are fixed
fn same<T: NovaField>(
    what: &str,
    rec: &Rec<T::BellpersonField>,
    prog: &Prog<T>,
    known: &BTreeMap<Variable, Index>,
    values: Option<&dyn Fn(&Variable) -> Option<T>>,
) -> Res {
    let key = |i: Index| match i {
        Index::Input(k) => (0, k),
        Index::Aux(k) => (1, k),
    };
    let mut fwd: HashMap<Variable, (u8, usize)> = known.iter().map(|(v, i)| (*v, key(*i))).collect();
    let mut back: HashMap<(u8, usize), Variable> = known.iter().map(|(v, i)| (key(*i), *v)).collect();
    let cs: Vec<[&LinComb<T>; 3]> = prog
        .statements
        .iter()
        .filter_map(|s| match s {
            Statement::Constraint(c) => Some([&c.quad.left, &c.quad.right, &c.lin]),
            _ => None,
        })
        .collect();
    if cs.len() != rec.constraints.len() {
        return fail(format!("{}:number of constraints", what), format!("{} instead of {}\n{}", rec.constraints.len(), cs.len(), prog));
    }
    for (n, (c, r)) in cs.iter().zip(&rec.constraints).enumerate() {
        for (l, m) in c.iter().zip(r) {
            let mine: Vec<(BVar, T)> = m.iter().map(|(v, c)| (v, T::from_bellperson(*c))).collect();
            // by coefficient and place: combinations are reduced, so one term per variable
            if l.value.len() != mine.len() {
                return fail(format!("{}:terms", what), format!("constraint {}\n{}", n, prog));
            }
            let mut mine = mine;
            for (v, c) in &l.value {
                // two new variables with one coefficient cannot be told apart
                if !fwd.contains_key(v) && mine.iter().filter(|(w, d)| d == c && !back.contains_key(&key(w.0))).count() > 1 {
                    return Ok(());
                }
                let at = match fwd.get(v) {
                    Some(k) => mine.iter().position(|(w, _)| key(w.0) == *k),
                    None => mine.iter().position(|(w, d)| d == c && !back.contains_key(&key(w.0))),
                };
                let Some(at) = at else {
                    return fail(format!("{}:variable", what), format!("{} is not where it belongs in constraint {}\n{}", v, n, prog));
                };
                let (w, d) = mine.remove(at);
                if d != *c {
                    return fail(format!("{}:coefficient", what), format!("{} {} {} in constraint {}\n{}", v, d, c, n, prog));
                }
                fwd.insert(*v, key(w.0));
                back.insert(key(w.0), *v);
                if let Some(f) = values {
                    let want = f(v);
                    let got = rec.get(w.0).map(T::from_bellperson);
                    if want != got {
                        return fail(format!("{}:values", what), format!("{} is {:?} instead of {:?}\n{}", v, got, want, prog));
                    }
                }
            }
        }
    }
    Ok(())
}

fn circuit<T: NovaField>(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::modulus::<T>();
    let ir: Ir<T> = generate_with(s, &p, true, true);
    i.label(T::name().to_string());
    i.sample(format!("{} {}", T::name(), ir.prog));
    i.interesting(&format!("{}{}{:?}", T::name(), ir.prog, ir.inputs));
    let honest = s.bool();
    let r = guard(|| -> Res {
        let mut rec = Rec::empty();
        let c = if honest {
            Computation::with_witness(&ir.prog, ir.witness.clone())
        } else {
            Computation::without_witness(&ir.prog)
        };
        if honest {
            let got: Vec<T> = c.public_inputs_values().into_iter().map(T::from_bellperson).collect();
            let mut want: Vec<T> = ir.prog.arguments.iter().zip(&ir.inputs).filter(|(a, _)| !a.private).map(|(_, v)| *v).collect();
            want.extend((0..ir.prog.return_count).map(|k| ir.witness.0[&Variable::public(k)]));
            if got != want {
                return fail("circuit:public inputs", format!("{:?} instead of {:?}\n{}", got, want, ir.prog));
            }
        }
        if let Err(e) = c.synthesize(&mut rec) {
            return fail("circuit:refused", format!("{}\n{}", e, ir.prog));
        }
        let mut known = BTreeMap::new();
        known.insert(Variable::one(), Index::Input(0));
        let publics = ir.prog.arguments.iter().filter(|a| !a.private).map(|a| a.id).chain((0..ir.prog.return_count).map(Variable::public));
        for (k, v) in publics.enumerate() {
            known.insert(v, Index::Input(k + 1));
        }
        if rec.inputs.len() != known.len() {
            return fail("circuit:number of inputs", format!("{} instead of {}\n{}", rec.inputs.len(), known.len(), ir.prog));
        }
        let get = |v: &Variable| ir.witness.0.get(v).copied();
        same("circuit", &rec, &ir.prog, &known, if honest { Some(&get) } else { None })?;

        // the same program as a step: as many public arguments as outputs, and these first
        let mut prog = ir.prog.clone();
        let (mut public, mut private): (Vec<Parameter>, Vec<Parameter>) = prog.arguments.iter().cloned().partition(|a| !a.private);
        let mut next = 1000;
        while public.len() > prog.return_count {
            let a = public.pop().unwrap();
            private.insert(0, Parameter::private(a.id));
        }
        while public.len() < prog.return_count {
            match private.is_empty() {
                true => {
                    next += 1;
                    public.push(Parameter::public(Variable::new(next)));
                }
                false => {
                    let a = private.remove(0);
                    public.push(Parameter::public(a.id));
                }
            }
        }
        prog.arguments = public.iter().chain(&private).cloned().collect();
        let values = honest && private.is_empty();
        let n = public.len();
        if n == 0 && !private.is_empty() {
            return Ok(());
        }
        let mut rec = Rec::empty();
        let val = |v: &Variable| ir.witness.0.get(v).copied().unwrap_or_else(T::zero);
        let nums: Vec<_> = public
            .iter()
            .map(|a| {
                AllocatedNum::alloc(&mut rec, || match values {
                    true => Ok(val(&a.id).into_bellperson()),
                    false => Err(SynthesisError::AssignmentMissing),
                })
                .unwrap()
            })
            .collect();
        let step = match NovaComputation::try_from(Computation::without_witness(&prog)) {
            Ok(c) => c,
            Err(e) => return fail("step:refused", format!("{}\n{}", e, prog)),
        };
        if step.arity() != n {
            return fail("step:arity", format!("{}\n{}", step.arity(), prog));
        }
        let first = rec.aux.len() - n;
        let out = match step.synthesize(&mut rec, &nums) {
            Ok(o) => o,
            Err(e) => return fail("step:refused", format!("{}\n{}", e, prog)),
        };
        let mut known = BTreeMap::new();
        known.insert(Variable::one(), Index::Input(0));
        for (k, a) in public.iter().enumerate() {
            known.insert(a.id, Index::Aux(first + k));
        }
        if out.len() != prog.return_count {
            return fail("step:outputs", format!("{}\n{}", out.len(), prog));
        }
        for (k, o) in out.iter().enumerate() {
            known.insert(Variable::public(k), o.get_variable().get_unchecked());
        }
        if rec.inputs.len() != 1 {
            return fail("step:inputs", "a step allocates public inputs");
        }
        let get = |v: &Variable| if *v == Variable::one() { Some(T::one()) } else { ir.witness.0.get(v).copied() };
        same("step", &rec, &prog, &known, if values { Some(&get) } else { None })
    });
    match r {
        Ok(r) => r,
        Err(m) => fail(pbt::panic_sig(&m), format!("{}\n{}", m, ir.prog)),
    }
}

// ---- whole proofs

enum X {
    C(BigUint),
    S(usize),
    P(usize),
    Add(Box<X>, Box<X>),
    Sub(Box<X>, Box<X>),
    Mul(Box<X>, Box<X>),
    If(Box<X>, Box<X>, Box<X>, Box<X>),
}

impl X {
    fn gen(s: &mut Src, n: usize, m: usize, d: u32) -> X {
        let k = if d == 0 { s.below(3) } else { s.below(8) };
        let mut sub = || Box::new(X::gen(s, n, m, d - 1));
        match k {
            3 | 4 => X::Mul(sub(), sub()),
            5 => X::Add(sub(), sub()),
            6 => X::Sub(sub(), sub()),
            7 => X::If(sub(), sub(), sub(), sub()),
            0 => X::C(BigUint::from(s.below(5))),
            1 if m > 0 => X::P(s.idx(m)),
            _ => X::S(s.idx(n)),
        }
    }
    fn text(&self) -> String {
        match self {
            X::C(c) => c.to_string() + "f",
            X::S(k) => format!("s[{}]", k),
            X::P(k) => format!("x[{}]", k),
            X::Add(a, b) => format!("({} + {})", a.text(), b.text()),
            X::Sub(a, b) => format!("({} - {})", a.text(), b.text()),
            X::Mul(a, b) => format!("({} * {})", a.text(), b.text()),
            X::If(a, b, c, d) => format!("(if {} == {} {{ {} }} else {{ {} }})", a.text(), b.text(), c.text(), d.text()),
        }
    }
    fn eval(&self, s: &[BigUint], x: &[BigUint], p: &BigUint) -> BigUint {
        let e = |a: &X| a.eval(s, x, p);
        match self {
            X::C(c) => c.clone(),
            X::S(k) => s[*k].clone(),
            X::P(k) => x[*k].clone(),
            X::Add(a, b) => (e(a) + e(b)) % p,
            X::Sub(a, b) => (e(a) + p - e(b)) % p,
            X::Mul(a, b) => (e(a) * e(b)) % p,
            X::If(a, b, c, d) => {
                if e(a) == e(b) {
                    e(c)
                } else {
                    e(d)
                }
            }
        }
    }
}

fn ivc<T: NovaField>(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::modulus::<T>();
    let (n, m) = (1 + s.idx(3), s.idx(3));
    let outs: Vec<X> = (0..n).map(|_| X::gen(s, n, m, 2)).collect();
    let src = format!(
        "def main(public field[{n}] s{}) -> field[{n}] {{\n{}    return [{}];\n}}\n",
        if m > 0 { format!(", private field[{}] x", m) } else { String::new() },
        (0..m).map(|k| format!("    assert(x[{k}] * x[{k}] == x[{k}] ** 2);\n")).collect::<String>(),
        outs.iter().map(|o| o.text()).collect::<Vec<_>>().join(", ")
    );
    let steps = 1 + s.idx(3);
    let init: Vec<BigUint> = (0..n).map(|_| s.field(&p)).collect();
    let privs: Vec<Vec<BigUint>> = (0..steps).map(|_| (0..m).map(|_| s.field(&p)).collect()).collect();
    let split = s.idx(steps + 1);
    let how = s.below(4);
    let (r1, r2) = (s.u64() as usize, 1 + s.below(5));
    i.sample(src.clone());
    i.label(format!("{} {} steps", T::name(), steps));
    let c = match zk::compile_at::<T>(&src, "main.zok", None, false) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    i.interesting(&format!("{}{:?}{:?}", src, init, privs));
    let el = |v: &[BigUint]| -> Vec<T> { v.iter().map(|v| crate::irgen::elem(v)).collect() };
    let r = guard(|| -> Res {
        let params = match nova::generate_public_parameters(&c.prog) {
            Ok(p) => p,
            Err(e) => return fail("nova:setup", format!("{}\n{}", e, src)),
        };
        let mut state = init.clone();
        for x in &privs {
            state = outs.iter().map(|o| o.eval(&state, x, &p)).collect();
        }
        let all: Vec<Vec<T>> = privs.iter().map(|x| el(x)).collect();
        // in one go or continued later
        let prove = |from, part: &[Vec<T>]| nova::prove(&params, &c.prog, el(&init), from, part.to_vec());
        let first = match prove(None, &all[..split]) {
            Ok(p) => p,
            Err(e) => return fail("nova:prove", format!("{}\n{}", e, src)),
        };
        let first = match first {
            None => None,
            Some(f) => serde_json::from_value(serde_json::to_value(&f).unwrap()).unwrap(),
        };
        let proof = match prove(first, &all[split..]) {
            Ok(Some(p)) => p,
            r => return fail("nova:prove", format!("{:?}\n{}", r.map(|_| ()).map_err(|e| e.to_string()), src)),
        };
        if proof.steps != steps {
            return fail("nova:steps", format!("{} instead of {}", proof.steps, steps));
        }
        match nova::verify(&params, &proof, el(&init)) {
            Ok(v) if v == el(&state) => (),
            Ok(v) => return fail("nova:final state", format!("{:?} instead of {:?}\n{}", v, state, src)),
            Err(e) => return fail("nova:honest proof", format!("{}\n{}", e, src)),
        }
        let json = serde_json::to_value(&proof).unwrap();
        match how {
            0 => {
                let mut other = init.clone();
                let k = r1 % n;
                other[k] = (&other[k] + r2) % &p;
                if guard(|| nova::verify(&params, &proof, el(&other)).is_ok()) == Ok(true) {
                    return fail("accepted:another initial state", src.clone());
                }
            }
            1 => {
                let mut j = json.clone();
                j["steps"] = Value::from(if steps > 1 && r2 % 2 == 0 { steps - 1 } else { steps + 1 });
                let q = serde_json::from_value(j).unwrap();
                if guard(|| nova::verify(&params, &q, el(&init)).is_ok()) == Ok(true) {
                    return fail("accepted:another number of steps", src.clone());
                }
            }
            _ => {
                let (proof, vk) = nova::compress(&params, proof);
                if !nova::verify_compressed(&proof, &vk, el(&init), steps) {
                    return fail("nova:compressed proof", src.clone());
                }
                let mut other = init.clone();
                let k = r1 % n;
                other[k] = (&other[k] + r2) % &p;
                let (st, v) = if how == 2 { (steps, other) } else { (steps + 1, init.clone()) };
                if guard(|| nova::verify_compressed(&proof, &vk, el(&v), st)) == Ok(true) {
                    return fail("accepted:compressed", src.clone());
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(m) => fail(pbt::panic_sig(&m), format!("{}\n{}", m, src)),
    }
}

pub fn check<'a>() -> Check<'a> {
    Check::new("C23", "a circuit built from a program; a setup, a proof of some steps, its verification and one alteration. Distinct by program and values")
        .part("circuit", 4000, 100000, |s, i| if s.bool() { circuit::<PallasField>(s, i) } else { circuit::<VestaField>(s, i) })
        .part("proofs", 4, 200, |s, i| if s.bool() { ivc::<PallasField>(s, i) } else { ivc::<VestaField>(s, i) })
}
