//! Reference interpreter: big-step, strict, over integers and [0, p), written from the language documentation.
use super::ast::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum FailKind {
    Assert(Option<String>),
    DivByZero,
    OutOfBounds,
    /// a read out of bounds: the value read is not defined, and the failure may be missed if nothing depends on it
    OobRead,
    FieldRange,
    Asm,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: FailKind,
    /// false: the compiler may have removed the failing operation
    pub must: bool,
    /// logs before the failure
    pub at: usize,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ret: V,
    pub fails: Vec<Fail>,
    pub logs: Vec<(String, Vec<V>)>,
    /// per log, whether it comes from a call inside of an operation, which may be folded away
    pub nested: Vec<bool>,
    pub asserts: usize,
    /// executed operations, for sizing
    pub steps: u64,
}

impl Outcome {
    pub fn must_fail(&self) -> bool {
        self.fails.iter().any(|f| f.must)
    }
    pub fn may_fail(&self) -> bool {
        !self.fails.is_empty()
    }
}

pub struct Interp<'a> {
    pub prog: &'a Program,
    pub p: BigUint,
    pub bits: usize,
    consts: BTreeMap<String, V>,
    csz: SzEnv,
    fails: Vec<Fail>,
    logs: Vec<(String, Vec<V>)>,
    nested: Vec<bool>,
    depth: usize,
    asserts: usize,
    steps: u64,
    /// values seen at `assert(e == hole)`, first execution wins
    pub holes: Option<BTreeMap<String, PV>>,
    /// reads out of bounds give an arbitrary value instead of failing
    pub guess: Option<u64>,
}

struct Frame {
    scopes: Vec<BTreeMap<String, V>>,
    sz: SzEnv,
}

impl Frame {
    fn get(&self, n: &str) -> Option<&V> {
        self.scopes.iter().rev().find_map(|s| s.get(n))
    }
    fn get_mut(&mut self, n: &str) -> &mut V {
        self.scopes
            .iter_mut()
            .rev()
            .find_map(|s| s.get_mut(n))
            .unwrap_or_else(|| panic!("no variable {}", n))
    }
    fn def(&mut self, n: &str, v: V) {
        self.scopes.last_mut().unwrap().insert(n.to_string(), v);
    }
}

fn mask(bits: u32) -> u64 {
    if bits == 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}

fn pv(v: PV) -> V {
    V::P(P {
        v,
        dep: false,
        poison: false,
    })
}

fn poisoned(v: &V) -> bool {
    v.prims().iter().any(|p| p.poison)
}
fn all_dep(v: &V) -> bool {
    let p = v.prims();
    !p.is_empty() && p.iter().all(|p| p.dep)
}
fn poison(v: V) -> V {
    v.map(&mut |mut p| {
        p.poison = true;
        p
    })
}
fn same(a: &V, b: &V) -> bool {
    let (a, b) = (a.prims(), b.prims());
    a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| a.v == b.v)
}
fn undep(v: V) -> V {
    v.map(&mut |mut p| {
        p.dep = false;
        p
    })
}

impl<'a> Interp<'a> {
    pub fn new(prog: &'a Program, p: &BigUint) -> Self {
        let mut i = Interp {
            prog,
            p: p.clone(),
            bits: p.bits() as usize,
            consts: BTreeMap::new(),
            csz: BTreeMap::new(),
            fails: vec![],
            logs: vec![],
            nested: vec![],
            depth: 0,
            asserts: 0,
            steps: 0,
            holes: None,
            guess: None,
        };
        for c in &prog.consts {
            let mut f = Frame {
                scopes: vec![BTreeMap::new()],
                sz: i.csz.clone(),
            };
            let v = i.eval(&mut f, &c.value);
            if let V::P(P { v: PV::U(32, n), .. }) = &v {
                i.csz.insert(c.name.clone(), *n as u32);
            }
            i.consts.insert(c.name.clone(), undep(v));
        }
        i
    }

    pub fn run(&mut self, inputs: Vec<V>) -> Outcome {
        self.fails.clear();
        self.logs.clear();
        self.nested.clear();
        self.asserts = 0;
        self.steps = 0;
        let f = self.prog.main();
        let inputs = inputs
            .into_iter()
            .map(|v| {
                v.map(&mut |mut p| {
                    p.dep = true;
                    p
                })
            })
            .collect();
        let ret = self.call(f, self.csz.clone(), inputs);
        Outcome {
            ret,
            fails: std::mem::take(&mut self.fails),
            logs: std::mem::take(&mut self.logs),
            nested: std::mem::take(&mut self.nested),
            asserts: self.asserts,
            steps: self.steps,
        }
    }

    fn call(&mut self, f: &'a Fun, sz: SzEnv, args: Vec<V>) -> V {
        let mut fr = Frame {
            scopes: vec![BTreeMap::new()],
            sz,
        };
        for (p, a) in f.params.iter().zip(args) {
            fr.def(&p.name, a);
        }
        self.block(&mut fr, &f.body).unwrap_or(V::T(vec![]))
    }

    fn block(&mut self, fr: &mut Frame, body: &'a [S]) -> Option<V> {
        for s in body {
            if let Some(v) = self.stmt(fr, s) {
                return Some(v);
            }
        }
        None
    }

    fn failure(&mut self, kind: FailKind) {
        self.fails.push(Fail { kind, must: true, at: self.logs.len() })
    }
    fn downgrade(&mut self, from: usize, to: usize, implicit_only: bool) {
        for f in &mut self.fails[from..to] {
            // known finding: an assertion of a function called in an operand that constant folding drops is lost,
            // so that assertions are not told apart from other failures here (see the part `dropped`)
            let _ = implicit_only;
            f.must = false;
        }
    }

    fn stmt(&mut self, fr: &mut Frame, s: &'a S) -> Option<V> {
        self.steps += 1;
        match s {
            S::Def { name, e, .. } => {
                let v = self.eval(fr, e);
                fr.def(name, v);
            }
            S::Assign(n, acc, e) => {
                let v = self.eval(fr, e);
                self.assign(fr, n, acc, v);
            }
            S::For {
                idx,
                from,
                to,
                body,
            } => {
                let (a, b) = (from.eval(&fr.sz), to.eval(&fr.sz));
                let saved = fr.sz.get(idx).copied();
                for i in a..b.max(a) {
                    fr.scopes.push(BTreeMap::new());
                    fr.sz.insert(idx.clone(), i);
                    fr.def(idx, pv(PV::U(32, i as u64)));
                    let r = self.block(fr, body);
                    fr.scopes.pop();
                    if r.is_some() {
                        return r;
                    }
                }
                match saved {
                    Some(x) => fr.sz.insert(idx.clone(), x),
                    None => fr.sz.remove(idx),
                };
            }
            S::Assert(e, m) => {
                self.asserts += 1;
                if self.holes.is_some() {
                    if let E::Bin(op, a, h) = e {
                        if let E::Var(h) = &**h {
                            if h.starts_with('?') {
                                let v = self.eval(fr, a);
                                let holes = self.holes.as_mut().unwrap();
                                if let V::P(p) = &v {
                                    if *op == Op::Eq || !holes.contains_key(h) {
                                        holes.entry(h.clone()).or_insert(p.v.clone());
                                    }
                                }
                                return None;
                            }
                        }
                    }
                }
                let before = self.fails.len();
                let v = self.eval(fr, e);
                let V::P(P {
                    v: PV::B(b),
                    poison,
                    ..
                }) = v
                else {
                    panic!("assert of a non-boolean")
                };
                let _ = before;
                if poison {
                    self.fails.push(Fail {
                        kind: FailKind::Assert(m.clone()),
                        must: false,
                        at: self.logs.len(),
                    });
                } else if !b {
                    self.failure(FailKind::Assert(m.clone()));
                }
            }
            S::Log(f, es) => {
                let vs = es.iter().map(|e| self.eval(fr, e)).collect();
                self.logs.push((f.clone(), vs));
                self.nested.push(self.depth > 0);
            }
            S::Asm(v) => {
                for s in v {
                    match s {
                        AsmS::Assign(n, acc, e) => {
                            let v = self.eval(fr, e);
                            self.assign(fr, n, acc, v);
                        }
                        AsmS::AssignConstrain(n, acc, e) => {
                            let v = self.eval(fr, e);
                            self.assign(fr, n, acc, v);
                        }
                        AsmS::Constrain(a, b) => {
                            let a = self.eval(fr, a);
                            let b = self.eval(fr, b);
                            if poisoned(&a) || poisoned(&b) {
                                self.fails.push(Fail {
                                    kind: FailKind::Asm,
                                    must: false,
                                    at: self.logs.len(),
                                });
                            } else if a.to_fields() != b.to_fields() {
                                self.failure(FailKind::Asm);
                            }
                        }
                    }
                }
            }
            S::Return(e) => {
                return Some(match e {
                    Some(e) => self.eval(fr, e),
                    None => V::T(vec![]),
                })
            }
        }
        None
    }

    fn assign(&mut self, fr: &mut Frame, n: &str, acc: &'a [Acc], v: V) {
        enum A {
            I(u64),
            M(String),
            T(usize),
        }
        let mut path = vec![];
        let mut oob = false;
        let mut dynamic = false;
        let mut pois = false;
        {
            // evaluate the accesses, checking the bounds on the way
            let mut cur = fr.get(n).unwrap_or_else(|| panic!("no variable {}", n)).clone();
            for a in acc {
                match a {
                    Acc::Idx(e) => {
                        let i = self.eval(fr, e);
                        let V::P(P {
                            v: PV::U(_, i),
                            dep: _,
                            poison,
                        }) = i
                        else {
                            panic!()
                        };
                        if !matches!(e, E::Num(..) | E::Size(_)) {
                            dynamic = true;
                        }
                        pois |= poison;
                        let V::A(mut vs) = cur else { panic!("index into non-array") };
                        let k = if (i as usize) < vs.len() {
                            i
                        } else {
                            oob = true;
                            0
                        };
                        if vs.is_empty() {
                            self.failure(FailKind::OutOfBounds);
                            return;
                        }
                        path.push(A::I(k));
                        cur = vs.swap_remove(k as usize);
                    }
                    Acc::Member(m) => {
                        let V::S(_, vs) = cur else { panic!() };
                        cur = vs.into_iter().find(|(k, _)| k == m).unwrap().1;
                        path.push(A::M(m.clone()));
                    }
                    Acc::Tup(i) => {
                        let V::T(vs) = cur else { panic!() };
                        cur = vs.into_iter().nth(*i).unwrap();
                        path.push(A::T(*i));
                    }
                }
            }
        }
        if oob {
            self.fails.push(Fail {
                kind: FailKind::OutOfBounds,
                must: !pois,
                at: self.logs.len(),
            });
        }
        let root = fr.get_mut(n);
        {
            let mut slot = &mut *root;
            for a in path {
                slot = match (a, slot) {
                    (A::I(i), V::A(v)) => &mut v[i as usize],
                    (A::M(m), V::S(_, v)) => &mut v.iter_mut().find(|(k, _)| *k == m).unwrap().1,
                    (A::T(i), V::T(v)) => &mut v[i],
                    _ => panic!(),
                };
            }
            *slot = v;
        }
        if dynamic || oob || pois {
            let r = undep(root.clone());
            *root = if pois { poison(r) } else { r };
        }
    }

    fn field(&self, v: BigUint) -> PV {
        PV::F(v % &self.p)
    }

    pub fn inv(&self, a: &BigUint) -> BigUint {
        a.modpow(&(&self.p - BigUint::from(2u32)), &self.p)
    }

    fn b(v: V) -> P {
        match v {
            V::P(p) => p,
            v => panic!("expected a primitive value, got {:?}", v),
        }
    }

    fn bin(&mut self, fr: &mut Frame, op: Op, ea: &'a E, eb: &'a E) -> V {
        let f0 = self.fails.len();
        let a = self.eval(fr, ea);
        let f1 = self.fails.len();
        let b = self.eval(fr, eb);
        let f2 = self.fails.len();
        let anyp = poisoned(&a) || poisoned(&b);
        let (da, db) = (all_dep(&a), all_dep(&b));
        let same = a == b || ea == eb;
        // what the compiler may drop
        match op {
            Op::Mul | Op::BAnd | Op::BOr | Op::Rem | Op::Div => {
                if !db {
                    self.downgrade(f0, f1, true);
                }
                if !da {
                    self.downgrade(f1, f2, true);
                }
            }
            Op::And | Op::Or | Op::Lt | Op::Le | Op::Gt | Op::Ge => {
                if !db || same {
                    self.downgrade(f0, f1, true);
                }
                if !da || same {
                    self.downgrade(f1, f2, true);
                }
            }
            _ => {
                if same {
                    self.downgrade(f0, f2, true);
                }
            }
        }
        let res = |v: PV, dep: bool| {
            V::P(P {
                v,
                dep: dep && !anyp,
                poison: anyp,
            })
        };
        match op {
            Op::Eq => {
                let r = a.to_fields() == b.to_fields();
                return res(PV::B(r), (da != db) || (da && db && !same));
            }
            Op::Ne => {
                let r = a.to_fields() != b.to_fields();
                return res(PV::B(r), (da != db) || (da && db && !same));
            }
            _ => {}
        }
        let (a, b) = (Self::b(a), Self::b(b));
        let both = da && db;
        match (op, a.v, b.v) {
            (Op::And, PV::B(x), PV::B(y)) => res(PV::B(x && y), both && !same),
            (Op::Or, PV::B(x), PV::B(y)) => res(PV::B(x || y), both && !same),
            (Op::Add, PV::F(x), PV::F(y)) => res(self.field(x + y), da || db),
            (Op::Sub, PV::F(x), PV::F(y)) => {
                res(self.field(x + &self.p - y), (da || db) && !same)
            }
            (Op::Mul, PV::F(x), PV::F(y)) => res(self.field(x * y), both),
            (Op::Div, PV::F(x), PV::F(y)) => {
                if y.is_zero() {
                    self.fails.push(Fail {
                        kind: FailKind::DivByZero,
                        must: !anyp,
                        at: self.logs.len(),
                    });
                    return V::P(P {
                        v: PV::F(BigUint::zero()),
                        dep: false,
                        poison: true,
                    });
                }
                res(self.field(x * self.inv(&y)), both && !same)
            }
            (Op::Lt | Op::Le | Op::Gt | Op::Ge, PV::F(x), PV::F(y)) => {
                let lim = BigUint::one() << (self.bits - 2);
                // a comparison with a literal has no such limit
                fn literal(e: &E) -> bool {
                    match e {
                        E::Paren(e) => literal(e),
                        e => matches!(e, E::Num(..)),
                    }
                }
                if (x >= lim || y >= lim) && !literal(ea) && !literal(eb) {
                    self.fails.push(Fail {
                        kind: FailKind::FieldRange,
                        must: false,
                        at: self.logs.len(),
                    });
                }
                let r = match op {
                    Op::Lt => x < y,
                    Op::Le => x <= y,
                    Op::Gt => x > y,
                    _ => x >= y,
                };
                res(PV::B(r), both && !same)
            }
            (op, PV::U(n, x), PV::U(m, y)) => {
                assert_eq!(n, m, "mixed widths");
                let k = mask(n);
                match op {
                    Op::Add => res(PV::U(n, x.wrapping_add(y) & k), da || db),
                    Op::Sub => res(PV::U(n, x.wrapping_sub(y) & k), (da || db) && !same),
                    Op::Mul => res(PV::U(n, x.wrapping_mul(y) & k), both),
                    Op::Div | Op::Rem => {
                        if y == 0 {
                            self.fails.push(Fail {
                                kind: FailKind::DivByZero,
                                must: !anyp,
                                at: self.logs.len(),
                            });
                            return V::P(P {
                                v: PV::U(n, 0),
                                dep: false,
                                poison: true,
                            });
                        }
                        res(
                            PV::U(n, if op == Op::Div { x / y } else { x % y }),
                            both && !same,
                        )
                    }
                    Op::BAnd => res(PV::U(n, x & y), both && !same),
                    Op::BOr => res(PV::U(n, x | y), both && !same),
                    Op::Xor => res(PV::U(n, x ^ y), (da || db) && !same),
                    Op::Lt => res(PV::B(x < y), both && !same),
                    Op::Le => res(PV::B(x <= y), both && !same),
                    Op::Gt => res(PV::B(x > y), both && !same),
                    Op::Ge => res(PV::B(x >= y), both && !same),
                    op => panic!("{:?} on uints", op),
                }
            }
            (op, x, y) => panic!("{:?} on {:?} {:?}", op, x, y),
        }
    }

    fn cond(
        &mut self,
        fr: &mut Frame,
        c: &'a E,
        s1: &'a [S],
        a: &'a E,
        s2: &'a [S],
        b: &'a E,
    ) -> V {
        let before = self.fails.len();
        let c = Self::b(self.eval(fr, c));
        let PV::B(cv) = c.v else { panic!() };
        let f0 = self.fails.len();
        fr.scopes.push(BTreeMap::new());
        self.block(fr, s1);
        let va = self.eval(fr, a);
        fr.scopes.pop();
        let f1 = self.fails.len();
        fr.scopes.push(BTreeMap::new());
        self.block(fr, s2);
        let vb = self.eval(fr, b);
        fr.scopes.pop();
        let f2 = self.fails.len();
        if !c.dep || c.poison {
            // the condition may be known at compile time, in which case the other branch is gone
            if !cv || c.poison {
                self.downgrade(f0, f1, false);
            }
            if cv || c.poison {
                self.downgrade(f1, f2, false);
            }
        }
        // a conditional with equal branches may be replaced by one of them, and its condition is gone
        if same(&va, &vb) {
            self.downgrade(before, f0, true);
        }
        // a failing branch that is not selected leaves no trace in the value if it was dropped
        let v = undep(if cv { va } else { vb });
        if c.poison {
            poison(v)
        } else {
            v
        }
    }

    fn eval(&mut self, fr: &mut Frame, e: &'a E) -> V {
        self.steps += 1;
        if matches!(e, E::Call(..) | E::Num(..) | E::Bool(..) | E::Var(..) | E::ArrLit(..) | E::TupLit(..)) {
            return self.eval_(fr, e);
        }
        self.depth += 1;
        let v = self.eval_(fr, e);
        self.depth -= 1;
        v
    }

    fn eval_(&mut self, fr: &mut Frame, e: &'a E) -> V {
        match e {
            E::Num(t, v, _) => pv(match t {
                Ty::Field => PV::F(v.clone()),
                Ty::U(n) => PV::U(*n, v.to_string().parse().unwrap()),
                _ => panic!(),
            }),
            E::Bool(b) => pv(PV::B(*b)),
            E::Var(n) => match fr.get(n) {
                Some(v) => v.clone(),
                None => {
                    if let Some(v) = self.consts.get(n) {
                        v.clone()
                    } else if let Some(k) = fr.sz.get(n) {
                        pv(PV::U(32, *k as u64))
                    } else {
                        panic!("unbound variable {}", n)
                    }
                }
            },
            E::Size(s) => pv(PV::U(32, s.eval(&fr.sz) as u64)),
            E::Bin(op, a, b) => self.bin(fr, *op, a, b),
            E::Un(u, a) => {
                let p = Self::b(self.eval(fr, a));
                let v = match (u, p.v) {
                    (Un::Pos, v) => v,
                    (Un::Neg, PV::F(x)) => self.field(&self.p - x),
                    (Un::Neg, PV::U(n, x)) => PV::U(n, x.wrapping_neg() & mask(n)),
                    (Un::Not, PV::B(b)) => PV::B(!b),
                    (Un::Not, PV::U(n, x)) => PV::U(n, !x & mask(n)),
                    (u, v) => panic!("{:?} {:?}", u, v),
                };
                V::P(P { v, ..p })
            }
            E::Pow(a, n) => {
                let f0 = self.fails.len();
                let p = Self::b(self.eval(fr, a));
                let n = n.eval(&fr.sz);
                if n == 0 {
                    let f1 = self.fails.len();
                    self.downgrade(f0, f1, true);
                }
                let PV::F(x) = p.v else { panic!() };
                V::P(P {
                    v: PV::F(x.modpow(&BigUint::from(n), &self.p)),
                    dep: false,
                    poison: p.poison && n != 0,
                })
            }
            E::Shl(a, n) | E::Shr(a, n) => {
                let f0 = self.fails.len();
                let p = Self::b(self.eval(fr, a));
                let n = n.eval(&fr.sz);
                let PV::U(w, x) = p.v else { panic!() };
                if n >= w {
                    let f1 = self.fails.len();
                    self.downgrade(f0, f1, true);
                }
                let v = if n >= w {
                    0
                } else if matches!(e, E::Shl(..)) {
                    (x << n) & mask(w)
                } else {
                    x >> n
                };
                V::P(P {
                    v: PV::U(w, v),
                    dep: false,
                    poison: p.poison,
                })
            }
            E::Tern(c, a, b) => self.cond(fr, c, &[], a, &[], b),
            E::If(c, s1, a, s2, b) => self.cond(fr, c, s1, a, s2, b),
            E::ArrLit(v) => {
                let mut out = vec![];
                for x in v {
                    match x {
                        Elem::One(e) => out.push(self.eval(fr, e)),
                        Elem::Spread(e) => {
                            let V::A(vs) = self.eval(fr, e) else { panic!() };
                            out.extend(vs);
                        }
                    }
                }
                V::A(out)
            }
            E::ArrRep(e, n) => {
                let f0 = self.fails.len();
                let v = self.eval(fr, e);
                let n = n.eval(&fr.sz);
                if n == 0 {
                    let f1 = self.fails.len();
                    self.downgrade(f0, f1, true);
                }
                V::A(vec![v; n as usize])
            }
            E::Slice(e, a, b) => {
                let f0 = self.fails.len();
                let V::A(vs) = self.eval(fr, e) else { panic!() };
                let f1 = self.fails.len();
                if !matches!(**e, E::Call(..)) {
                    self.downgrade(f0, f1, true);
                }
                let a = a.as_ref().map_or(0, |s| s.eval(&fr.sz)) as usize;
                let b = b.as_ref().map_or(vs.len() as u32, |s| s.eval(&fr.sz)) as usize;
                V::A(vs[a..b].to_vec())
            }
            E::Idx(e, i) => {
                let f0 = self.fails.len();
                let V::A(vs) = self.eval(fr, e) else { panic!("indexing a non-array {:?}", e) };
                let f1 = self.fails.len();
                if !matches!(**e, E::Call(..)) {
                    self.downgrade(f0, f1, true);
                }
                let ip = Self::b(self.eval(fr, i));
                let PV::U(_, k) = ip.v else { panic!() };
                if k as usize >= vs.len() {
                    if let Some(g) = &mut self.guess {
                        let g = g;
                        let p = self.p.clone();
                        return vs[0].clone().map(&mut |mut x| {
                            *g ^= *g << 13;
                            *g ^= *g >> 7;
                            *g ^= *g << 17;
                            x.v = match x.v {
                                PV::F(_) => PV::F(BigUint::from(*g) % &p),
                                PV::B(_) => PV::B(*g & 1 == 1),
                                PV::U(n, _) => PV::U(n, (*g >> 3) & mask(n)),
                            };
                            x.poison = false;
                            x.dep = true;
                            x
                        });
                    }
                    self.fails.push(Fail {
                        kind: FailKind::OobRead,
                        must: !ip.poison,
                        at: self.logs.len(),
                    });
                    return poison(vs[0].clone());
                }
                let is_static = matches!(**i, E::Num(..) | E::Size(_));
                let v = vs[k as usize].clone();
                if ip.poison {
                    poison(v)
                } else if is_static {
                    v
                } else {
                    // a run-time selection goes through every element
                    let pois = vs.iter().any(poisoned);
                    let v = undep(v);
                    if pois {
                        poison(v)
                    } else {
                        v
                    }
                }
            }
            E::TupLit(v) => V::T(v.iter().map(|e| self.eval(fr, e)).collect()),
            E::TupGet(e, i) => {
                let f0 = self.fails.len();
                let V::T(vs) = self.eval(fr, e) else { panic!() };
                let f1 = self.fails.len();
                if !matches!(**e, E::Call(..)) {
                    self.downgrade(f0, f1, true);
                }
                vs[*i].clone()
            }
            E::StructLit(n, fs) => {
                let def = self.prog.structs.iter().find(|s| s.name == *n);
                // evaluated and stored in the order of the definition
                let mut order: Vec<_> = fs.iter().collect();
                if let Some(d) = def {
                    order.sort_by_key(|(k, _)| d.fields.iter().position(|(x, _)| x == k));
                }
                let vals: Vec<(String, V)> =
                    order.into_iter().map(|(k, e)| (k.clone(), self.eval(fr, e))).collect();
                match def {
                    Some(d) => V::S(
                        n.clone(),
                        d.fields
                            .iter()
                            .map(|(k, _)| {
                                (k.clone(), vals.iter().find(|(x, _)| x == k).unwrap().1.clone())
                            })
                            .collect(),
                    ),
                    None => V::S(n.clone(), vals),
                }
            }
            E::Member(e, m) => {
                let f0 = self.fails.len();
                let V::S(_, vs) = self.eval(fr, e) else { panic!() };
                let f1 = self.fails.len();
                if !matches!(**e, E::Call(..)) {
                    self.downgrade(f0, f1, true);
                }
                vs.into_iter().find(|(k, _)| k == m).unwrap().1
            }
            E::Call(name, g, args) => {
                let vals: Vec<V> = args.iter().map(|a| self.eval(fr, a)).collect();
                let prog: &'a Program = self.prog;
                let cands: Vec<&'a Fun> = prog
                    .funs
                    .iter()
                    .filter(|f| f.name == *name && f.params.len() == vals.len())
                    .collect();
                for f in cands {
                    let mut sz = self.csz.clone();
                    let mut bind: BTreeMap<String, u32> = BTreeMap::new();
                    if let Some(g) = g {
                        for (n, s) in f.generics.iter().zip(g) {
                            if let Some(s) = s {
                                bind.insert(n.clone(), s.eval(&fr.sz));
                            }
                        }
                    }
                    if f
                        .params
                        .iter()
                        .zip(&vals)
                        .all(|(p, v)| self.matches(&p.ty, v, &f.generics, &mut bind))
                    {
                        sz.extend(bind);
                        return self.call(f, sz, vals);
                    }
                }
                panic!("no function {} for the arguments", name)
            }
            E::Paren(e) => self.eval(fr, e),
        }
    }

    fn matches(
        &self,
        t: &Ty,
        v: &V,
        generics: &[String],
        bind: &mut BTreeMap<String, u32>,
    ) -> bool {
        let mut size = |s: &Sz, n: u32| match s {
            Sz::Name(x) if generics.contains(x) => *bind.entry(x.clone()).or_insert(n) == n,
            s => {
                let mut env = self.csz.clone();
                env.extend(bind.clone());
                s.eval(&env) == n
            }
        };
        match (t, v) {
            (Ty::Field, V::P(P { v: PV::F(_), .. })) => true,
            (Ty::Bool, V::P(P { v: PV::B(_), .. })) => true,
            (Ty::U(n), V::P(P { v: PV::U(m, _), .. })) => n == m,
            (Ty::Arr(t, n), V::A(vs)) => {
                size(n, vs.len() as u32)
                    && vs.iter().all(|v| self.matches(t, v, generics, bind))
            }
            (Ty::Tup(ts), V::T(vs)) => {
                ts.len() == vs.len()
                    && ts
                        .iter()
                        .zip(vs)
                        .all(|(t, v)| self.matches(t, v, generics, bind))
            }
            (Ty::Struct(n, _), v) if self.prog.aliases.iter().any(|a| a.name == *n) => {
                self.matches(&super::gen::unalias(self.prog, t), v, generics, bind)
            }
            (Ty::Struct(n, g), V::S(m, vs)) => {
                if n != m {
                    return false;
                }
                let d = self.prog.structs.iter().find(|s| s.name == *n).unwrap();
                let m: BTreeMap<String, Sz> =
                    d.generics.iter().cloned().zip(g.iter().cloned()).collect();
                d.fields
                    .iter()
                    .zip(vs)
                    .all(|((_, t), (_, v))| self.matches(&t.subst(&m), v, generics, bind))
            }
            _ => false,
        }
    }
}

