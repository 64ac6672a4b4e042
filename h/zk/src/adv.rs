//! A prover that does not follow the solvers: it looks for an assignment satisfying every constraint in which the
//! values the prover is free to choose differ from the honest ones.
use crate::{Compiled, Field, Solver, Statement, Variable, F};
use pbt::guard;
use pbt::Src;
use std::collections::{BTreeMap, HashMap};
use num_traits::{One, Zero};
use zokrates_interpreter::Interpreter;

type L = Vec<(usize, F)>;

enum St {
    Con(L, L, L, String),
    Dir(Vec<(L, L)>, Vec<usize>, usize),
}

pub struct System {
    sts: Vec<St>,
    solvers: Vec<Solver<'static, F>>,
    ids: HashMap<Variable, usize>,
    args: Vec<usize>,
    outs: Vec<usize>,
    n: usize,
    /// variables chosen by the prover: (statement, position)
    pub free: Vec<(usize, usize)>,
    is_free: Vec<bool>,
    pub constraints: usize,
    extra: Vec<Solver<'static, F>>,
}

pub enum Run {
    Sat(Vec<F>),
    /// constraint, values so far
    Unsat(usize, Vec<Option<F>>),
    /// an honest solver refuses
    Stuck,
}

impl System {
    pub fn new(c: &Compiled<F>) -> Self {
        Self::of(&c.prog)
    }

    pub fn of(prog: &crate::Prog<'static, F>) -> Self {
        let mut s = System {
            sts: vec![],
            solvers: vec![],
            ids: HashMap::new(),
            args: vec![],
            outs: vec![],
            n: 0,
            free: vec![],
            is_free: vec![],
            constraints: 0,
            extra: prog.solvers.clone(),
        };
        s.id(&Variable::one());
        s.args = prog.arguments.iter().map(|a| s.id(&a.id)).collect();
        s.add(&prog.statements);
        s.outs = prog.returns().iter().map(|v| s.id(v)).collect();
        s
    }

    fn add(&mut self, sts: &[Statement<'static, F>]) {
        let s = self;
        for st in sts {
            match st {
                Statement::Constraint(c) => {
                    let a = s.lin(&c.quad.left);
                    let b = s.lin(&c.quad.right);
                    let l = s.lin(&c.lin);
                    s.constraints += 1;
                    s.sts.push(St::Con(a, b, l, st.to_string()));
                }
                Statement::Directive(d) => {
                    let i = d
                        .inputs
                        .iter()
                        .map(|q| (s.lin(&q.left), s.lin(&q.right)))
                        .collect();
                    let o: Vec<usize> = d.outputs.iter().map(|v| s.id(v)).collect();
                    for (k, v) in o.iter().enumerate() {
                        s.free.push((s.sts.len(), k));
                        s.is_free[*v] = true;
                    }
                    s.solvers.push(d.solver.clone());
                    s.sts.push(St::Dir(i, o, s.solvers.len() - 1));
                }
                Statement::Block(b) => s.add(&b.inner),
                _ => {}
            }
        }
    }

    fn id(&mut self, v: &Variable) -> usize {
        if let Some(k) = self.ids.get(v) {
            return *k;
        }
        self.ids.insert(*v, self.n);
        self.is_free.push(false);
        self.n += 1;
        self.n - 1
    }

    fn lin(&mut self, l: &crate::LinComb<F>) -> L {
        let mut m: BTreeMap<usize, F> = BTreeMap::new();
        for (v, c) in &l.value {
            let k = self.id(v);
            let e = m.entry(k).or_insert_with(F::zero);
            *e = *e + *c;
        }
        m.into_iter().filter(|(_, c)| *c != F::zero()).collect()
    }

    fn value(l: &L, vals: &[Option<F>]) -> Option<F> {
        let mut acc = F::zero();
        for (v, c) in l {
            acc = acc + vals[*v]? * c;
        }
        Some(acc)
    }

    /// follows the solvers, except where a value is imposed
    pub fn run(&self, inputs: &[F], forced: &BTreeMap<usize, F>) -> Run {
        let mut vals: Vec<Option<F>> = vec![None; self.n];
        vals[0] = Some(F::one());
        for (a, v) in self.args.iter().zip(inputs) {
            vals[*a] = Some(*v);
        }
        for (k, st) in self.sts.iter().enumerate() {
            match st {
                St::Con(a, b, l, _) => {
                    let (x, y) = match (Self::value(a, &vals), Self::value(b, &vals)) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return Run::Stuck,
                    };
                    if l.len() == 1 && l[0].1 == F::one() && vals[l[0].0].is_none() {
                        vals[l[0].0] = Some(x * y);
                        continue;
                    }
                    match Self::value(l, &vals) {
                        Some(z) if z == x * y => {}
                        Some(_) => return Run::Unsat(k, vals),
                        None => return Run::Stuck,
                    }
                }
                St::Dir(i, o, s) => {
                    if o.iter().all(|v| forced.contains_key(v)) {
                        for v in o {
                            vals[*v] = Some(forced[v]);
                        }
                        continue;
                    }
                    let mut ins = vec![];
                    for (a, b) in i {
                        match (Self::value(a, &vals), Self::value(b, &vals)) {
                            (Some(x), Some(y)) => ins.push(x * y),
                            _ => return Run::Stuck,
                        }
                    }
                    let r = match guard(|| {
                        Interpreter::execute_solver(&self.solvers[*s], &ins, &self.extra)
                    }) {
                        Ok(Ok(r)) => r,
                        _ => return Run::Stuck,
                    };
                    for (v, x) in o.iter().zip(r) {
                        vals[*v] = Some(forced.get(v).copied().unwrap_or(x));
                    }
                }
            }
        }
        Run::Sat(vals.into_iter().map(|v| v.unwrap_or_else(F::zero)).collect())
    }

    pub fn outputs(&self, vals: &[F]) -> Vec<F> {
        self.outs.iter().map(|o| vals[*o]).collect()
    }

    pub fn constraint(&self, k: usize) -> &str {
        match &self.sts[k] {
            St::Con(_, _, _, s) => s,
            _ => "",
        }
    }

    pub fn is_directive(&self, st: usize) -> bool {
        matches!(self.sts[st], St::Dir(..))
    }

    /// honest values of the outputs of a directive
    fn outs_of(&self, st: usize) -> (&[usize], &Solver<'static, F>) {
        match &self.sts[st] {
            St::Dir(_, o, s) => (o, &self.solvers[*s]),
            _ => unreachable!(),
        }
    }

    /// what v has to be for constraint k to hold, the other values being given
    fn solve(&self, k: usize, v: usize, vals: &[Option<F>]) -> Option<F> {
        let St::Con(a, b, l, _) = &self.sts[k] else { return None };
        let split = |x: &L| -> Option<(F, F)> {
            let mut c = F::zero();
            let mut r = F::zero();
            for (w, k) in x {
                if *w == v {
                    c = c + *k
                } else {
                    r = r + vals[*w]? * k
                }
            }
            Some((c, r))
        };
        let (ac, ar) = split(a)?;
        let (bc, br) = split(b)?;
        let (lc, lr) = split(l)?;
        if ac != F::zero() && bc != F::zero() {
            return None;
        }
        // (ac v + ar)(bc v + br) = lc v + lr
        let coef = ac * br + ar * bc - lc;
        if coef == F::zero() {
            return None;
        }
        let inv = coef.inverse_mul()?;
        Some((lr - ar * br) * inv)
    }

    /// one attempt at a dishonest assignment
    pub fn attempt(
        &self,
        s: &mut Src,
        inputs: &[F],
        honest: &[Option<F>],
        target: Option<(usize, usize)>,
    ) -> Option<Vec<F>> {
        let mut forced: BTreeMap<usize, F> = BTreeMap::new();
        if let Some((st, pos)) = target {
            let (outs, solver) = self.outs_of(st);
            let hv = |k: usize| honest[outs[k]].unwrap_or_else(F::zero);
            let p = F::max_value().to_biguint() + 1u32;
            match solver {
                Solver::Bits(n) if s.chance(1, 2) => {
                    // another number congruent to the same value, or one of the bits out of range
                    let mut x = num_bigint::BigUint::from(0u32);
                    for k in 0..outs.len() {
                        x = x * 2u32 + hv(k).to_biguint();
                    }
                    let kind = s.below(4);
                    let y = match kind {
                        0 => Some(x + &p),
                        1 => Some(x + (num_bigint::BigUint::from(1u32) << *n) - 1u32),
                        2 => None,
                        _ => Some(x + s.below(1 << 20)),
                    };
                    match y {
                        Some(y) => {
                            for k in 0..outs.len() {
                                let b = (&y >> (outs.len() - 1 - k)) % 2u32;
                                forced.insert(outs[k], crate::f(&b));
                            }
                        }
                        None => {
                            // carry between two neighbours
                            if pos == 0 {
                                return None;
                            }
                            forced.insert(outs[pos - 1], hv(pos - 1) - F::one());
                            forced.insert(outs[pos], hv(pos) + F::from(2u32));
                        }
                    }
                }
                _ => {
                    let v = hv(pos);
                    let w = match s.below(8) {
                        0 => F::zero(),
                        1 => F::one(),
                        2 => v + F::one(),
                        3 => v - F::one(),
                        4 => F::one() - v,
                        5 => F::from(2u32),
                        6 => F::zero() - v,
                        _ => crate::f(&s.big_below(&p)),
                    };
                    if w == v {
                        return None;
                    }
                    forced.insert(outs[pos], w);
                }
            }
        }
        for _ in 0..6 {
            match self.run(inputs, &forced) {
                Run::Sat(v) => return Some(v),
                Run::Stuck => return None,
                Run::Unsat(k, vals) => {
                    let St::Con(a, b, l, _) = &self.sts[k] else { unreachable!() };
                    // free variables that make this constraint hold
                    let mut cands: Vec<usize> = a
                        .iter()
                        .chain(b)
                        .chain(l)
                        .map(|x| x.0)
                        .filter(|v| self.is_free[*v] && !forced.contains_key(v))
                        .collect();
                    cands.sort();
                    cands.dedup();
                    if cands.is_empty() {
                        return None;
                    }
                    let v = *s.pick(&cands);
                    let x = self.solve(k, v, &vals)?;
                    forced.insert(v, x);
                }
            }
        }
        None
    }

    pub fn honest(&self, inputs: &[F]) -> (bool, Vec<Option<F>>) {
        match self.run(inputs, &BTreeMap::new()) {
            Run::Sat(v) => (true, v.into_iter().map(Some).collect()),
            Run::Unsat(_, v) => (false, v),
            Run::Stuck => (false, vec![None; self.n]),
        }
    }

    /// values by variable
    pub fn assignment(&self, vals: &[F]) -> HashMap<Variable, F> {
        self.ids.iter().map(|(v, k)| (*v, vals[*k])).collect()
    }

    /// completes an assignment of some of the variables to all of them, so that every constraint holds
    pub fn extend(&self, inputs: &[F], known: &HashMap<Variable, F>) -> Result<Vec<F>, String> {
        // calls merged by the optimizer share their outputs; which ones were merged is not known
        self.extend_with(inputs, known, !0).or_else(|e| {
            let mut m = 0u64;
            for _ in 0..64 {
                if let Ok(r) = self.extend_with(inputs, known, m) {
                    return Ok(r);
                }
                m = m.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                m ^= m >> 29;
            }
            Err(e)
        })
    }

    fn extend_with(&self, inputs: &[F], known: &HashMap<Variable, F>, merge: u64) -> Result<Vec<F>, String> {
        let mut forced: BTreeMap<usize, F> = self
            .ids
            .iter()
            .filter_map(|(v, k)| known.get(v).map(|x| (*k, *x)))
            .collect();
        let fixed = forced.clone();
        let mut todo = vec![forced.clone()];
        let mut last = String::new();
        for _ in 0..60 {
            let Some(f) = todo.pop() else { break };
            forced = f;
            // directives merged by the optimizer share their outputs
            let mut calls: HashMap<String, Vec<Vec<F>>> = HashMap::new();
            let mut vals: Vec<Option<F>> = vec![None; self.n];
            vals[0] = Some(F::one());
            for (a, v) in self.args.iter().zip(inputs) {
                vals[*a] = Some(*v);
            }
            let mut bad = None;
            for (k, st) in self.sts.iter().enumerate() {
                match st {
                    St::Con(a, b, l, _) => {
                        let (x, y) = match (Self::value(a, &vals), Self::value(b, &vals)) {
                            (Some(x), Some(y)) => (x, y),
                            _ => return Err(format!("stuck at {}", self.constraint(k))),
                        };
                        if l.len() == 1 && l[0].1 == F::one() && vals[l[0].0].is_none() {
                            vals[l[0].0] = Some(forced.get(&l[0].0).copied().unwrap_or(x * y));
                        }
                        match Self::value(l, &vals) {
                            Some(z) if z == x * y => {}
                            Some(_) => {
                                bad = Some(k);
                                break;
                            }
                            None => return Err(format!("stuck at {}", self.constraint(k))),
                        }
                    }
                    St::Dir(i, o, s) => {
                        let mut ins = vec![];
                        for (a, b) in i {
                            match (Self::value(a, &vals), Self::value(b, &vals)) {
                                (Some(x), Some(y)) => ins.push(x * y),
                                _ => return Err("stuck at a directive".into()),
                            }
                        }
                        let key = format!("{:?} {:?}", self.solvers[*s], ins.iter().map(|x| x.to_biguint()).collect::<Vec<_>>());
                        let constant = |l: &L| l.iter().all(|x| x.0 == 0);
                        let constants = i.iter().all(|(a, b)| {
                            a.is_empty() || b.is_empty() || (constant(a) && constant(b))
                        });
                        let earlier = calls.get(&key).map(|c| &c[..]).unwrap_or(&[]);
                        let choice = if merge == !0 {
                            0
                        } else {
                            pbt::src::hash64(&[merge, k as u64]) as usize % (earlier.len() + 1)
                        };
                        if let Some(c) = earlier.get(choice).filter(|_| merge != 0 && !constants) {
                            for (v, x) in o.iter().zip(c) {
                                vals[*v] = Some(forced.get(v).copied().unwrap_or(*x));
                            }
                            continue;
                        }
                        let r = if o.iter().all(|v| forced.contains_key(v)) {
                            o.iter().map(|v| forced[v]).collect()
                        } else {
                            match guard(|| Interpreter::execute_solver(&self.solvers[*s], &ins, &self.extra)) {
                                Ok(Ok(r)) => r,
                                _ => return Err("a solver fails".into()),
                            }
                        };
                        for (v, x) in o.iter().zip(r) {
                            vals[*v] = Some(forced.get(v).copied().unwrap_or(x));
                        }
                        calls.entry(key).or_default().push(o.iter().map(|v| vals[*v].unwrap()).collect());
                    }
                }
            }
            let Some(k) = bad else {
                return Ok(vals.into_iter().map(|v| v.unwrap_or_else(F::zero)).collect());
            };
            let St::Con(a, b, l, _) = &self.sts[k] else { unreachable!() };
            if last.is_empty() {
                last = format!("{} does not hold", self.constraint(k));
            }
            // the most promising choice is tried first
            let cands: Vec<usize> = a.iter().chain(b).chain(l).map(|x| x.0).collect();
            for v in cands {
                if self.is_free[v] && !fixed.contains_key(&v) && !forced.contains_key(&v) {
                    if let Some(x) = self.solve(k, v, &vals) {
                        let mut f = forced.clone();
                        f.insert(v, x);
                        todo.push(f);
                    }
                }
            }
        }
        Err(last)
    }
}
