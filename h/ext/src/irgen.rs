//! Random intermediate programs over any curve, with the values of the honest run.
use num_bigint::BigUint;
use pbt::Src;
use zk::ir::{Parameter, RuntimeError};
use zk::{Field, LinComb, Prog, QuadComb, Solver, Statement, Variable, Witness};

pub fn elem<T: Field>(v: &BigUint) -> T {
    T::try_from(v.clone()).map_err(|_| ()).unwrap()
}

pub struct Ir<T: Field> {
    pub prog: Prog<'static, T>,
    pub inputs: Vec<T>,
    pub witness: Witness<T>,
    /// variables a directive or a private input defines and no constraint mentions
    pub unconstrained: usize,
}

struct G<'a, T: Field> {
    s: &'a mut Src,
    p: BigUint,
    vars: Vec<Variable>,
    w: Witness<T>,
    next: usize,
    out: Vec<Statement<'static, T>>,
    /// one term per variable, no coefficient 0
    reduced: bool,
}

impl<T: Field> G<'_, T> {
    fn fresh(&mut self) -> Variable {
        self.next += 1 + if self.s.chance(1, 10) { self.s.idx(5) } else { 0 };
        Variable::new(self.next - 1)
    }
    fn coeff(&mut self) -> T {
        let v = match self.s.below(6) {
            0 => self.s.field(&self.p),
            1 => &self.p - 1u32,
            2 => BigUint::from(2u32),
            3 => BigUint::from(self.s.below(70000)),
            _ => BigUint::from(1u32),
        };
        elem(&v)
    }
    fn lin(&mut self) -> LinComb<T> {
        let n = [1, 1, 2, 3, 0][self.s.idx(5)];
        let mut l = LinComb::zero();
        for _ in 0..n {
            let v = if self.vars.is_empty() || self.s.chance(1, 6) { Variable::one() } else { *self.s.pick(&self.vars) };
            let c = self.coeff();
            if self.reduced && (c == T::zero() || l.value.iter().any(|(w, _)| *w == v)) {
                continue;
            }
            l = l + LinComb::summand(c, v);
        }
        l
    }
    fn val(&self, l: &LinComb<T>) -> T {
        zk::lin(l, &|v| self.w.0.get(v).copied()).unwrap()
    }
    fn set(&mut self, v: Variable, x: T) {
        self.w.insert(v, x);
    }
    fn error(&mut self) -> Option<RuntimeError> {
        let all = [
            RuntimeError::BellmanConstraint,
            RuntimeError::Bitness,
            RuntimeError::Sum,
            RuntimeError::Equal,
            RuntimeError::Euclidean,
            RuntimeError::Inverse,
            RuntimeError::ConstantLtSum,
            RuntimeError::Division,
            RuntimeError::SelectRangeCheck,
        ];
        if self.s.bool() {
            Some(self.s.pick(&all).clone())
        } else {
            None
        }
    }
    fn define(&mut self, v: Variable) {
        let (a, b) = (self.lin(), self.lin());
        let q = if self.s.bool() { QuadComb::new(a, b) } else { QuadComb::from(a) };
        let x = self.val(&q.left) * self.val(&q.right);
        let e = self.error();
        self.out.push(Statement::constraint(q, v, e));
        self.set(v, x);
    }
    fn directive(&mut self) {
        let solver = match self.s.below(5) {
            0 => Solver::ConditionEq,
            1 => Solver::Bits(T::get_required_bits()),
            2 => Solver::Div,
            3 => Solver::EuclideanDiv,
            _ => Solver::ConditionEq,
        };
        let (ni, no) = solver.get_signature();
        let ins: Vec<QuadComb<T>> = (0..ni).map(|_| QuadComb::from(self.lin())).collect();
        let iv: Vec<T> = ins.iter().map(|q| self.val(&q.left) * self.val(&q.right)).collect();
        if matches!(solver, Solver::Div | Solver::EuclideanDiv) && iv[1] == T::zero() {
            return;
        }
        let Ok(Ok(ov)) = pbt::guard(|| zokrates_interpreter::Interpreter::execute_solver(&solver, &iv, &[])) else {
            return;
        };
        let outs: Vec<Variable> = (0..no).map(|_| self.fresh()).collect();
        for (v, x) in outs.iter().zip(ov) {
            self.set(*v, x);
        }
        self.out.push(Statement::directive(outs.clone(), solver, ins));
        self.vars.extend(outs);
    }
}

pub fn generate<T: Field>(s: &mut Src, p: &BigUint, logs: bool) -> Ir<T> {
    generate_with(s, p, logs, false)
}

/// `ordered`: combinations are reduced and the outputs constrained in order, as the compiler does
pub fn generate_with<T: Field>(s: &mut Src, p: &BigUint, logs: bool, ordered: bool) -> Ir<T> {
    let mut g = G { s, p: p.clone(), vars: vec![], w: Witness::empty(), next: 0, out: vec![], reduced: ordered };
    g.set(Variable::one(), T::one());
    let mut arguments = vec![];
    let mut inputs = vec![];
    for _ in 0..g.s.below(5) {
        let v = g.fresh();
        arguments.push(if g.s.bool() { Parameter::private(v) } else { Parameter::public(v) });
        let x = elem(&g.s.field(p));
        g.set(v, x);
        inputs.push(x);
        g.vars.push(v);
    }
    for _ in 0..g.s.below(9) {
        g.s.enter();
        match g.s.weighted(&[6, 2, 2, if logs { 1 } else { 0 }]) {
            1 => g.directive(),
            2 => {
                // a condition that holds
                let (a, b) = (g.lin(), g.lin());
                let x = g.val(&a) * g.val(&b);
                let e = g.error();
                g.out.push(Statement::constraint(QuadComb::new(a, b), LinComb::summand(x, Variable::one()), e));
            }
            3 => {
                let l = g.lin();
                let c: zk::ConcreteType = serde_json::from_value(serde_json::json!({"type": "field"})).unwrap();
                let st = zk::ir::LogStatement {
                    span: None,
                    format_string: zokrates_ast::common::FormatString {
                        parts: vec!["x is ".into(), String::new()],
                    },
                    expressions: vec![(c, vec![l])],
                };
                g.out.push(Statement::Log(st));
            }
            _ => {
                let v = g.fresh();
                g.define(v);
                g.vars.push(v);
            }
        }
        g.s.exit();
    }
    let returns = g.s.below(4) as usize;
    let order: Vec<usize> = if ordered || g.s.bool() { (0..returns).collect() } else { (0..returns).rev().collect() };
    for k in order {
        g.define(Variable::public(k));
    }
    // mention what no constraint mentions, most of the time
    let keep = g.s.chance(1, 6);
    let mut un = 0;
    let mut used = std::collections::HashSet::new();
    for st in &g.out {
        if let Statement::Constraint(c) = st {
            for (v, _) in c.quad.left.value.iter().chain(&c.quad.right.value).chain(&c.lin.value) {
                used.insert(*v);
            }
        }
    }
    let mut must: Vec<Variable> = arguments.iter().filter(|a| a.private).map(|a| a.id).collect();
    for st in &g.out {
        if let Statement::Directive(d) = st {
            must.extend(d.outputs.iter());
        }
    }
    for v in must {
        if used.contains(&v) {
            continue;
        }
        if keep {
            un += 1;
        } else {
            let x = *g.w.0.get(&v).unwrap();
            g.out.push(Statement::constraint(LinComb::from(v), LinComb::summand(x, Variable::one()), None));
        }
    }
    Ir {
        prog: Prog {
            module_map: Default::default(),
            arguments,
            return_count: returns,
            statements: g.out,
            solvers: vec![],
        },
        inputs,
        witness: g.w,
        unconstrained: un,
    }
}
