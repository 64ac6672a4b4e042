//! C04: the optimizer keeps the meaning of the constraint system; the witness satisfies every constraint.
use crate::util::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use pbt::lang::gen::{generate, Cfg};
use pbt::{fail, panic_sig, Check, Info, Res, Src};
use std::collections::HashMap;
use zk::adv::{Run, System};
use zk::ir::{Parameter, RuntimeError};
use zk::{Field, LinComb, Prog, QuadComb, Solver, Statement, Variable, F};

/// compares a program and its optimized form
fn compare(s: &mut Src, i: &mut Info, raw: &Prog<'static, F>, opt: &Prog<'static, F>, inputs: &[Vec<F>], special: bool) -> Res {
    let tries = if special { 24 } else { 12 };
    if raw.arguments != opt.arguments || raw.return_count != opt.return_count {
        return fail("interface", "the optimizer changed the arguments or the number of outputs");
    }
    let r = System::of(raw);
    let o = System::of(opt);
    i.count("constraints before", r.constraints as u64);
    i.count("constraints after", o.constraints as u64);
    for (k, inp) in inputs.iter().enumerate() {
        let x = r.run(inp, &Default::default());
        // the real interpreter on the optimized program
        let (y, _) = zk::execute_gen(opt, inp);
        let shown = inp.iter().map(|x| x.to_biguint().to_string()).collect::<Vec<_>>().join(" ");
        match (&x, &y) {
            (_, Err(zk::XErr::Panic(m))) => return fail(panic_sig(m), format!("execution panicked on {shown}: {m}")),
            (Run::Sat(v), Ok(w)) => {
                i.count("runs that succeed", 1);
                let get = zk::getter(w);
                if let Some((_, c)) = zk::first_unsatisfied(opt, &get) {
                    return fail("unsatisfied", format!("the witness for {shown} does not satisfy {c}"));
                }
                let outs: Vec<F> = r.outputs(v);
                if w.return_values() != outs {
                    return fail("outputs", format!("other outputs for {shown} after optimization"));
                }
                if w.0.len() < inp.len() + 1 || w.0.get(&Variable::one()) != Some(&F::one()) {
                    return fail("witness", format!("incomplete witness for {shown}"));
                }
                for (a, v) in opt.arguments.iter().zip(inp) {
                    if w.0.get(&a.id) != Some(v) {
                        return fail("witness", format!("the witness changes input {:?}", a.id));
                    }
                }
            }
            (Run::Sat(_), Err(e)) => return fail("refuses", format!("after optimization {shown} is refused: {e:?}")),
            (_, Ok(w)) => {
                // a value the solver chooses freely may be replaced by the only one the constraints allow
                let known: HashMap<Variable, F> = w.0.iter().map(|(k, v)| (*k, *v)).collect();
                match r.extend(inp, &known) {
                    Ok(full) if r.outputs(&full) == w.return_values() => i.count("completed runs", 1),
                    Ok(_) => return fail("accepts", format!("after optimization {shown} has other outputs")),
                    Err(e) => return fail("accepts", format!("after optimization {shown} is accepted: {e}")),
                }
            }
            (_, Err(_)) => i.count("runs that fail", 1),
        }
        // any assignment accepted by the optimized program comes from one accepted by the original
        if k + 1 < inputs.len() && special {
            continue;
        }
        let (sat, honest) = o.honest(inp);
        for t in 0..tries {
            let target = if o.free.is_empty() || (!sat && t % 2 == 0) {
                None
            } else {
                Some(o.free[s.idx(o.free.len())])
            };
            if sat && target.is_none() {
                break;
            }
            let Some(vals) = s.group(|s| o.attempt(s, inp, &honest, target)) else { continue };
            i.count("other assignments", 1);
            let known = o.assignment(&vals);
            match r.extend(inp, &known) {
                Ok(full) => {
                    if r.outputs(&full) != o.outputs(&vals) {
                        return fail("relation", format!("an assignment for {shown} has other outputs after optimization"));
                    }
                }
                Err(e) => {
                    let mut k: Vec<_> = known.iter().map(|(v, x)| format!("{v}={}", x.to_biguint())).collect();
                    k.sort();
                    return fail("relation", format!("the optimized constraints accept an assignment for {shown} the original ones do not: {e}; {}", k.join(" ")));
                }
            }
        }
    }
    Ok(())
}

struct G<'a> {
    s: &'a mut Src,
    vars: Vec<Variable>,
    /// values on the first input, when the run is not over
    val: HashMap<Variable, F>,
    next: usize,
    bits: Vec<Variable>,
    defs: Vec<(LinComb<F>, LinComb<F>, Variable)>,
    dirs: Vec<(Solver<'static, F>, Vec<QuadComb<F>>)>,
    out: Vec<Statement<'static, F>>,
}

fn err() -> Option<RuntimeError> {
    Some(RuntimeError::Equal)
}

impl G<'_> {
    fn fresh(&mut self) -> Variable {
        self.next += 1;
        Variable::new(self.next - 1)
    }
    fn coeff(&mut self) -> F {
        match self.s.below(8) {
            0 => F::zero() - F::one(),
            1 => F::from(2u32),
            2 => F::zero(),
            3 => zk::f(&self.s.field(&zk::bn_p())),
            _ => F::one(),
        }
    }
    fn var(&mut self) -> Variable {
        let n = self.vars.len();
        if self.s.chance(1, 8) {
            return Variable::one();
        }
        // recent ones preferably
        let k = if self.s.bool() { n - 1 - self.s.idx(n.min(4)) } else { self.s.idx(n) };
        self.vars[k]
    }
    fn lin(&mut self) -> LinComb<F> {
        let n = [1, 1, 1, 2, 2, 3, 0][self.s.idx(7)];
        let mut l = LinComb::zero();
        for _ in 0..n {
            let v = self.var();
            let c = self.coeff();
            if c == F::zero() && self.s.bool() {
                continue;
            }
            l = l + LinComb::summand(c, v);
        }
        l
    }
    fn value(&self, l: &LinComb<F>) -> F {
        zk::lin(l, &|v| self.val.get(v).copied()).unwrap()
    }
    fn quad(&mut self) -> QuadComb<F> {
        if self.s.chance(2, 5) {
            let l = self.lin();
            if self.s.chance(1, 4) {
                let c = self.coeff();
                return QuadComb::new(l, LinComb::one() * &c);
            }
            return l.into();
        }
        QuadComb::new(self.lin(), self.lin())
    }
    fn qvalue(&self, q: &QuadComb<F>) -> F {
        self.value(&q.left) * self.value(&q.right)
    }
    fn define(&mut self, q: QuadComb<F>) -> Variable {
        let v = self.fresh();
        let x = self.qvalue(&q);
        self.val.insert(v, x);
        self.defs.push((q.left.clone(), q.right.clone(), v));
        self.out.push(Statement::definition(v, q));
        self.vars.push(v);
        v
    }
    /// a condition which holds on the first input
    fn condition(&mut self) {
        let q = self.quad();
        let x = self.qvalue(&q);
        let st = match self.s.below(8) {
            // the same relation again
            0 | 1 if !self.defs.is_empty() => {
                let k = self.s.idx(self.defs.len());
                let (l, r, v) = self.defs[k].clone();
                let (l, r) = if self.s.bool() { (r, l) } else { (l, r) };
                Statement::constraint(QuadComb::new(l, r), v, err())
            }
            2 => {
                // b is a bit
                let v = self.var();
                Statement::constraint(QuadComb::new(v.into(), v.into()), v, err())
            }
            3 => {
                let l = self.lin();
                Statement::constraint(l.clone(), l, err())
            }
            4 => {
                let a = self.var();
                let l = LinComb::from(a) - LinComb::from(a);
                Statement::constraint(LinComb::zero(), l, err())
            }
            5 => {
                let l = self.lin();
                let y = self.value(&l);
                let l = l + LinComb::one() * &(x - y);
                Statement::constraint(q, l, err())
            }
            6 => {
                let v = self.var();
                let k = self.val[&v];
                let c = self.coeff();
                Statement::constraint(LinComb::one() * &(k * c), LinComb::summand(c, v), err())
            }
            _ => Statement::constraint(q, LinComb::one() * &x, err()),
        };
        self.out.push(st);
    }
    fn directive(&mut self, constrain: bool) {
        let (solver, ins) = if !self.dirs.is_empty() && self.s.chance(1, 4) {
            let k = self.s.idx(self.dirs.len());
            let (mut solver, mut ins) = self.dirs[k].clone();
            // the same inputs for another solver, or in the other order
            if self.s.chance(1, 2) {
                solver = match ins.len() {
                    2 => match self.s.below(4) {
                        0 => Solver::Div,
                        1 => Solver::EuclideanDiv,
                        2 => Solver::Or,
                        _ => Solver::Xor,
                    },
                    _ => match self.s.below(3) {
                        0 => Solver::ConditionEq,
                        1 => Solver::bits(2),
                        _ => Solver::bits(4),
                    },
                };
            }
            if self.s.chance(1, 6) {
                ins.reverse();
            }
            (solver, ins)
        } else {
            let konst = self.s.chance(1, 6);
            let mut input = |g: &mut Self| -> QuadComb<F> {
                if konst {
                    let c = g.coeff();
                    // a constant, possibly hidden
                    let mut l = LinComb::one() * &c;
                    if g.s.bool() {
                        let v = g.var();
                        l = l + LinComb::from(v) - LinComb::from(v);
                    }
                    l.into()
                } else if g.s.chance(1, 4) {
                    g.quad()
                } else {
                    g.lin().into()
                }
            };
            match self.s.below(6) {
                0 => {
                    let n = [1, 2, 3, 8, 254][self.s.idx(5)];
                    let v = if n != 254 && !self.bits.is_empty() && self.s.bool() {
                        let k = self.s.idx(self.bits.len());
                        LinComb::from(self.bits[k]).into()
                    } else {
                        input(self)
                    };
                    let n = if n == 254 && self.s.below(4) > 0 { 4 } else { n };
                    (Solver::bits(n), vec![v])
                }
                1 => (Solver::ConditionEq, vec![input(self)]),
                2 => (Solver::Div, vec![input(self), input(self)]),
                3 => (Solver::EuclideanDiv, vec![input(self), input(self)]),
                4 => (Solver::Or, vec![input(self), input(self)]),
                _ => (Solver::Xor, vec![input(self), input(self)]),
            }
        };
        self.dirs.push((solver.clone(), ins.clone()));
        let (_, n) = solver.get_signature();
        let xs: Vec<F> = ins.iter().map(|q| self.qvalue(q)).collect();
        let ys = zokrates_interpreter::Interpreter::execute_solver(&solver, &xs, &[]).unwrap();
        let outs: Vec<Variable> = (0..n).map(|_| self.fresh()).collect();
        for (v, y) in outs.iter().zip(ys) {
            self.val.insert(*v, y);
        }
        self.out.push(Statement::directive(outs.clone(), solver.clone(), ins.clone()));
        if constrain && self.s.chance(3, 4) {
            let lins: Vec<LinComb<F>> = ins
                .iter()
                .map(|q| match q.clone().try_linear() {
                    Ok(l) => l,
                    Err(q) => LinComb::from(self.define(q)),
                })
                .collect();
            match solver {
                Solver::Bits(_) => {
                    let mut sum = LinComb::zero();
                    let mut k = F::one();
                    for v in outs.iter().rev() {
                        self.out.push(Statement::constraint(QuadComb::new((*v).into(), (*v).into()), *v, Some(RuntimeError::Bitness)));
                        sum = sum + LinComb::summand(k, *v);
                        k = k + k;
                        self.bits.push(*v);
                    }
                    // may fail: the value need not fit
                    let fits = self.value(&sum) == self.value(&lins[0]);
                    if fits || self.s.chance(1, 20) {
                        self.out.push(Statement::constraint(lins[0].clone(), sum, Some(RuntimeError::Sum)));
                    }
                }
                Solver::ConditionEq => {
                    let x = lins[0].clone();
                    self.out.push(Statement::constraint(QuadComb::new(x.clone(), outs[1].into()), outs[0], err()));
                    self.out.push(Statement::constraint(QuadComb::new(LinComb::one() - LinComb::from(outs[0]), x), LinComb::zero(), err()));
                }
                Solver::Div => {
                    if self.value(&lins[1]) != F::zero() || self.s.chance(1, 20) {
                        self.out.push(Statement::constraint(QuadComb::new(outs[0].into(), lins[1].clone()), lins[0].clone(), err()));
                    }
                }
                Solver::EuclideanDiv => {
                    self.out.push(Statement::constraint(
                        QuadComb::new(outs[0].into(), lins[1].clone()),
                        lins[0].clone() - LinComb::from(outs[1]),
                        err(),
                    ));
                }
                Solver::Or => self.out.push(Statement::constraint(
                    QuadComb::new(lins[0].clone(), lins[1].clone()),
                    lins[0].clone() + lins[1].clone() - LinComb::from(outs[0]),
                    err(),
                )),
                _ => self.out.push(Statement::constraint(
                    QuadComb::new(lins[0].clone() + lins[0].clone(), lins[1].clone()),
                    lins[0].clone() + lins[1].clone() - LinComb::from(outs[0]),
                    err(),
                )),
            }
        }
        self.vars.extend(outs);
    }
    /// values chosen first, then tied to each other one after the other
    fn chain(&mut self) {
        let l = self.lin();
        if l.value.iter().all(|x| x.0 == Variable::one()) {
            return;
        }
        let x = self.value(&l);
        let mut nodes = vec![(l.clone(), F::one())];
        for _ in 0..self.s.urange(2, 4) {
            let k = if self.s.chance(1, 4) { self.coeff() } else { F::one() };
            if k == F::zero() {
                continue;
            }
            let v = self.fresh();
            self.val.insert(v, x * k);
            self.out.push(Statement::directive(vec![v], Solver::Or, vec![(l.clone() * &k).into(), LinComb::zero().into()]));
            self.vars.push(v);
            nodes.push((v.into(), k));
        }
        let mut edges: Vec<(usize, usize)> = (1..nodes.len()).map(|b| (self.s.idx(b), b)).collect();
        while !edges.is_empty() {
            let k = self.s.idx(edges.len());
            let (a, b) = edges.swap_remove(k);
            let (a, b) = if self.s.bool() { (b, a) } else { (a, b) };
            let ((a, ka), (b, kb)) = (nodes[a].clone(), nodes[b].clone());
            if self.s.chance(5, 6) {
                self.out.push(Statement::constraint(a * &kb, b * &ka, err()));
            }
        }
    }
    /// the shape of an assembly block: values chosen first, constrained afterwards
    fn block(&mut self) {
        let before = std::mem::take(&mut self.out);
        let first = self.vars.len();
        for _ in 0..self.s.urange(1, 5) {
            if self.s.chance(1, 8) {
                self.chain();
            } else if self.s.chance(1, 2) {
                let l = self.lin();
                if l.value.iter().all(|x| x.0 == Variable::one()) {
                    continue;
                }
                // an arbitrary expression with one output: x | 0
                let z: QuadComb<F> = LinComb::zero().into();
                let q: QuadComb<F> = if self.s.bool() { l.into() } else { QuadComb::new(l, self.lin()) };
                let x = self.qvalue(&q);
                let v = self.fresh();
                self.val.insert(v, x);
                self.out.push(Statement::directive(vec![v], Solver::Or, vec![q.clone(), z]));
                self.defs.push((q.left.clone(), q.right.clone(), v));
                self.vars.push(v);
                if self.s.bool() {
                    self.out.push(Statement::constraint(q, v, err()));
                }
            } else if self.vars.len() > first && self.s.bool() {
                // y === x
                let v = self.vars[self.s.urange(first, self.vars.len() - 1)];
                let x = self.val[&v];
                let others: Vec<Variable> = self.vars.iter().filter(|w| self.val[w] == x).cloned().collect();
                let w = *self.s.pick(&others);
                let (a, b) = if self.s.bool() { (v, w) } else { (w, v) };
                if a != b {
                    self.out.push(Statement::constraint(a, b, err()));
                }
            } else if self.s.chance(1, 6) {
                self.directive(false);
            } else {
                self.condition();
            }
        }
        let inner = std::mem::replace(&mut self.out, before);
        if !inner.is_empty() {
            self.out.push(Statement::block(inner));
        }
    }
}

fn random_ir(s: &mut Src) -> (Prog<'static, F>, Vec<Vec<F>>) {
    let n = s.urange(1, 4);
    let arguments: Vec<Parameter> = (0..n)
        .map(|k| {
            let v = Variable::new(k);
            if s.bool() {
                Parameter::private(v)
            } else {
                Parameter::public(v)
            }
        })
        .collect();
    let p: BigUint = zk::bn_p();
    let inputs: Vec<Vec<F>> = (0..4)
        .map(|k| {
            (0..n)
                // the last one is generic, so that equal values are equal expressions
                .map(|_| if k == 3 { zk::f(&s.big_below(&p)) } else if s.bool() { F::from(s.below(3) as u32) } else { zk::f(&s.field(&p)) })
                .collect()
        })
        .collect();
    let val = arguments.iter().map(|a| a.id).zip(inputs[0].clone()).chain(std::iter::once((Variable::one(), F::one()))).collect();
    let mut g = G {
        vars: arguments.iter().map(|a| a.id).collect(),
        val,
        next: n,
        bits: vec![],
        defs: vec![],
        dirs: vec![],
        out: vec![],
        s,
    };
    let k = g.s.urange(1, 14);
    for _ in 0..k {
        g.s.enter();
        match g.s.below(10) {
            0..=4 => {
                if !g.defs.is_empty() && g.s.chance(1, 5) {
                    let k = g.s.idx(g.defs.len());
                    let (l, r, _) = g.defs[k].clone();
                    g.define(QuadComb::new(l, r));
                } else {
                    let q = g.quad();
                    g.define(q);
                }
            }
            5 | 6 => g.condition(),
            7 => g.directive(true),
            _ => g.block(),
        }
        g.s.exit();
    }
    let outs = g.s.urange(0, 3);
    for k in 0..outs {
        let q = if g.s.chance(3, 4) { g.lin().into() } else { g.quad() };
        g.out.push(Statement::definition(Variable::public(k), q));
    }
    let statements = g.out;
    (Prog::new(arguments, statements, outs, Default::default(), vec![]), inputs)
}

fn ir(s: &mut Src, i: &mut Info) -> Res {
    let (raw, inputs) = random_ir(s);
    let text = format!("{raw}\ninputs {:?}", inputs.iter().map(|v| v.iter().map(|x| x.to_biguint().to_string()).collect::<Vec<_>>()).collect::<Vec<_>>());
    i.sample(text.clone());
    let opt = match zk::optimize(raw.clone()) {
        Ok(o) => o,
        Err(m) => return fail(panic_sig(&m), format!("the optimizer panics: {m}")),
    };
    if raw.statements.len() > 2 {
        i.interesting(&text);
    }
    compare(s, i, &raw, &opt, &inputs, true)
        .map_err(|f| pbt::Failure { msg: format!("{}\noptimized:\n{opt}", f.msg), ..f })
}

fn programs(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let p = zk::bn_p();
    let (case, _) = generate(s, cfg, &p);
    let src = pbt::lang::print::program(&case.prog);
    i.sample(show_case(&case));
    let pair = match zk::compile_pair(&src) {
        Ok(p) => p,
        Err(e) if e.starts_with("the optimizer") => return fail(panic_sig(&e), e),
        Err(_) => {
            i.label("does not compile");
            return Ok(());
        }
    };
    if pair.raw.constraint_count() > 4000 {
        i.label("too big");
        return Ok(());
    }
    if pair.opt.constraint_count() > 0 {
        i.interesting(&src);
    }
    let inputs: Vec<Vec<F>> = case.inputs.iter().map(|i| encode(i)).collect();
    compare(s, i, &pair.raw, &pair.opt, &inputs, false)
}

pub fn check<'a>() -> Check<'a> {
    let general = Cfg { asserts: 6, inputs: 3, budget: 150, ..Cfg::default() };
    Check::new(
        "C04",
        "an intermediate program of three or more statements, or a generated source program with constraints; distinct by text",
    )
    .part("ir", 20000, 400000, ir)
    .part("programs", 4000, 60000, move |s, i| programs(s, i, &general))
}
