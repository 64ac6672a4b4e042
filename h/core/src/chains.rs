//! Integer arithmetic whose intermediate values grow up to the size of the field before they are reduced.
use num_bigint::BigUint;
use num_traits::One;
use pbt::lang::ast::*;
use pbt::lang::gen::Case;
use pbt::{Info, Src};

struct G<'a> {
    s: &'a mut Src,
    n: u32,
    /// variables with an upper bound of the value they stand for when nothing is reduced
    vars: Vec<(String, BigUint)>,
    body: Vec<S>,
    next: usize,
}

fn var(x: &str) -> Box<E> {
    Box::new(E::Var(x.to_string()))
}

impl G<'_> {
    fn range(&self) -> BigUint {
        (BigUint::one() << self.n as usize) - 1u32
    }
    fn def(&mut self, e: E, max: BigUint) {
        let name = format!("v{}", self.next);
        self.next += 1;
        self.body.push(S::Def { ty: Ty::U(self.n), mutable: false, name: name.clone(), e });
        self.vars.push((name, max));
    }
    fn one(&mut self) -> (String, BigUint) {
        let k = self.vars.len();
        let j = if self.s.chance(2, 3) { k - 1 - self.s.idx(k.min(3)) } else { self.s.idx(k) };
        self.vars[j].clone()
    }
    /// a variable whose bound has exactly `bits` bits
    fn grow(&mut self, bits: usize) {
        let (mut x, mut m) = self.one();
        while m.bits() + self.n as usize <= bits {
            let k = self.s.idx(3);
            let (y, my) = self.vars[k].clone();
            let z = &m * &my;
            if z.bits() > bits {
                break;
            }
            self.def(E::Bin(Op::Mul, var(&x), var(&y)), z.clone());
            x = self.vars.last().unwrap().0.clone();
            m = z;
        }
        if m.bits() < bits {
            let by = (bits - m.bits()) as u32;
            let name = format!("v{}", self.next);
            self.next += 1;
            self.body.push(S::Def { ty: Ty::U(self.n), mutable: true, name: name.clone(), e: *var(&x) });
            self.body.push(S::For {
                idx: format!("i{}", self.next),
                from: Sz::Lit(0),
                to: Sz::Lit(by),
                body: vec![S::Assign(name.clone(), vec![], E::Bin(Op::Add, var(&name), var(&name)))],
            });
            self.vars.push((name, m << by as usize));
        }
    }
    fn step(&mut self) {
        let (x, mx) = self.one();
        let (y, my) = self.one();
        let full = BigUint::one() << 254usize;
        let r = self.range();
        let lit = |n: u32, v: u64| Box::new(E::Num(Ty::U(n), BigUint::from(v), LitStyle::Bare));
        let (e, m) = match self.s.below(16) {
            0..=3 => (E::Bin(Op::Sub, var(&x), var(&y)), mx + (BigUint::one() << my.bits().max(self.n as usize))),
            4 | 5 => (E::Bin(Op::Add, var(&x), var(&y)), mx + my),
            6 | 7 => (E::Bin(Op::Mul, var(&x), var(&y)), mx * my),
            8 => (E::Bin([Op::Xor, Op::BAnd, Op::BOr][self.s.idx(3)], var(&x), var(&y)), r),
            9 => (E::Un(Un::Not, var(&x)), r),
            10 => {
                let by = self.s.urange(0, self.n as usize + 1) as u32;
                (E::Shl(var(&x), Sz::Lit(by)), r)
            }
            11 => {
                let by = self.s.urange(0, self.n as usize + 1) as u32;
                (E::Shr(var(&x), Sz::Lit(by)), r)
            }
            12 => {
                let op = [Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne][self.s.idx(6)];
                let c = E::Bin(op, var(&x), var(&y));
                let (a, ma) = self.one();
                let (b, mb) = self.one();
                (E::Tern(Box::new(c), var(&a), var(&b)), ma.max(mb))
            }
            13 => {
                let (a, ma) = self.one();
                let c = if self.s.bool() { "q" } else { "t" };
                (E::Tern(var(c), var(&x), var(&a)), mx.max(ma))
            }
            14 => {
                // divided by something odd, or by a literal
                let d = if self.s.bool() {
                    let k = 1 + 2 * self.s.below(60);
                    lit(self.n, k)
                } else {
                    Box::new(E::Bin(Op::BOr, var(&y), lit(self.n, 1)))
                };
                (E::Bin(if self.s.bool() { Op::Div } else { Op::Rem }, var(&x), d), r)
            }
            _ => {
                let k = 1 + self.s.below(255);
                let op = [Op::Mul, Op::Add, Op::Sub][self.s.idx(3)];
                let (a, b) = if self.s.bool() { (var(&x), lit(self.n, k)) } else { (lit(self.n, k), var(&x)) };
                (E::Bin(op, a, b), if op == Op::Mul { mx * k } else { mx + (BigUint::one() << (self.n as usize + 1)) })
            }
        };
        let m = if m >= full { self.range() } else { m };
        self.def(e, m);
    }
}

pub fn generate(s: &mut Src, i: &mut Info) -> Case {
    let n = *s.pick(&[8u32, 8, 16, 16, 32, 64]);
    let mut g = G { s, n, vars: vec![], body: vec![], next: 0 };
    let full = g.range();
    for k in 0..3 {
        g.vars.push((format!("p{k}"), full.clone()));
    }
    for _ in 0..g.s.urange(1, 2) {
        // the prime has 254 bits
        let bits = match g.s.below(8) {
            0 => g.s.urange(2, 200),
            1 => g.s.urange(200, 254),
            _ => g.s.urange(251, 254),
        };
        g.s.enter();
        if g.s.chance(7, 8) {
            g.grow(bits);
            i.label(if bits > 250 { "grown to the size of the field" } else { "grown" });
        }
        g.s.exit();
        for _ in 0..g.s.urange(1, 4) {
            g.s.enter();
            g.step();
            g.s.exit();
        }
    }
    let outs = g.s.urange(1, 3);
    let mut ret = vec![];
    for k in 0..outs {
        let (x, _) = if k == 0 { g.vars.last().unwrap().clone() } else { g.one() };
        ret.push(Elem::One(E::Var(x)));
    }
    let ty = Ty::Arr(Box::new(Ty::U(n)), Sz::Lit(outs as u32));
    g.body.push(S::Return(Some(E::ArrLit(ret))));
    let body = std::mem::take(&mut g.body);
    let mut params: Vec<Param> = (0..3)
        .map(|k| Param { vis: if g.s.bool() { Vis::Private } else { Vis::Public }, mutable: false, name: format!("p{k}"), ty: Ty::U(n) })
        .collect();
    for x in ["q", "t"] {
        params.push(Param { vis: Vis::Private, mutable: false, name: x.into(), ty: Ty::Bool });
    }
    let prog = Program {
        structs: vec![],
        aliases: vec![],
        consts: vec![],
        funs: vec![Fun { name: "main".into(), generics: vec![], params, ret: ty, body }],
    };
    let max = u64::MAX >> (64 - n);
    let inputs = (0..3)
        .map(|k| {
            let mut v: Vec<V> = (0..3)
                .map(|_| {
                    let x = if k == 0 {
                        max
                    } else {
                        match g.s.below(5) {
                            0 => max,
                            1 => 0,
                            2 => max - g.s.below(3),
                            _ => g.s.uint(n),
                        }
                    };
                    V::P(P { v: PV::U(n, x), dep: true, poison: false })
                })
                .collect();
            for _ in 0..2 {
                v.push(V::P(P { v: PV::B(g.s.bool()), dep: true, poison: false }));
            }
            v
        })
        .collect();
    Case { prog, inputs }
}

/// Short expressions over inputs and constants at the edges of the types, where rewriting rules apply.
pub fn constants(s: &mut Src, i: &mut Info) -> Case {
    let field = s.chance(1, 7);
    let n = *s.pick(&[8u32, 16, 32, 64]);
    let ty = if field { Ty::Field } else { Ty::U(n) };
    i.label(&if field { "field".to_string() } else { format!("u{n}") });
    let max = u64::MAX >> (64 - n);
    let mut edge: Vec<u64> = vec![0, 1, 2, 3, max, max - 1, max / 2, max / 2 + 1];
    edge.extend([8, 16, 32].iter().filter(|w| **w < n).flat_map(|w| [(1u64 << w) - 1, 1u64 << w, (1u64 << w) + 1]));
    let lit = |s: &mut Src| {
        let v = match s.below(6) {
            0 => s.uint(n),
            1 => {
                let k = s.below(n as u64);
                max - ((1u64 << k) - 1)
            }
            _ => *s.pick(&edge),
        };
        if field {
            let p = zk::bn_p();
            let v = BigUint::from(v);
            let v = if s.chance(1, 4) { &p - 1u32 - v } else { v };
            E::Num(Ty::Field, v, LitStyle::Suffix)
        } else {
            E::Num(Ty::U(n), BigUint::from(v), LitStyle::Suffix)
        }
    };
    fn node(s: &mut Src, ty: &Ty, depth: u32, lit: &dyn Fn(&mut Src) -> E) -> E {
        let arg = |s: &mut Src| {
            if depth > 0 && s.chance(2, 5) {
                node(s, ty, depth - 1, lit)
            } else {
                *var(if s.bool() { "x" } else { "y" })
            }
        };
        let pair = |s: &mut Src| {
            let a = arg(s);
            match s.below(7) {
                0..=2 => (a, lit(s)),
                3 | 4 => (lit(s), a),
                5 => (a.clone(), a),
                _ => {
                    let b = arg(s);
                    (a, b)
                }
            }
        };
        let cond = |s: &mut Src| match s.below(5) {
            0 => *var("q"),
            1 => E::Bool(s.bool()),
            2 => {
                let a = *var("q");
                let b = E::Bool(s.bool());
                let op = [Op::And, Op::Or, Op::Eq, Op::Ne][s.idx(4)];
                if s.bool() {
                    E::Bin(op, Box::new(a), Box::new(b))
                } else {
                    E::Bin(op, Box::new(b), Box::new(a))
                }
            }
            _ => {
                let (a, mut b) = pair(s);
                let op = *s.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]);
                if *ty == Ty::Field && !matches!(op, Op::Eq | Op::Ne) && !matches!(a, E::Num(..)) {
                    // any two elements can be compared when one is a literal
                    b = lit(s);
                }
                E::Bin(op, Box::new(a), Box::new(b))
            }
        };
        let paren = |e: E| Box::new(E::Paren(Box::new(e)));
        if s.chance(1, 4) {
            let c = cond(s);
            let (a, b) = pair(s);
            return E::Tern(paren(c), paren(a), paren(b));
        }
        match ty {
            Ty::Field => match s.below(5) {
                0 => {
                    let a = arg(s);
                    let k = s.below(5) as u32;
                    E::Pow(paren(a), Sz::Lit(k))
                }
                _ => {
                    let (a, b) = pair(s);
                    let op = *s.pick(&[Op::Add, Op::Sub, Op::Mul]);
                    E::Bin(op, paren(a), paren(b))
                }
            },
            _ => match s.below(10) {
                0 | 1 => {
                    let bits = if let Ty::U(n) = ty { *n } else { 0 };
                    let by = match s.below(3) {
                        0 => *s.pick(&[0, 1, bits - 1, bits, bits + 1]),
                        _ => s.below(bits as u64 + 1) as u32,
                    };
                    let a = arg(s);
                    if s.bool() {
                        E::Shl(paren(a), Sz::Lit(by))
                    } else {
                        E::Shr(paren(a), Sz::Lit(by))
                    }
                }
                2 => {
                    let a = arg(s);
                    E::Un(if s.bool() { Un::Not } else { Un::Neg }, paren(a))
                }
                3 => {
                    // never divided by zero
                    let a = arg(s);
                    let d = match lit(s) {
                        E::Num(t, v, l) if v == BigUint::default() => E::Num(t, BigUint::one(), l),
                        e => e,
                    };
                    let op = *s.pick(&[Op::Div, Op::Rem]);
                    E::Bin(op, paren(a), paren(d))
                }
                _ => {
                    let (a, b) = pair(s);
                    let op = *s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::BAnd, Op::BOr, Op::Xor, Op::BAnd, Op::BOr, Op::Xor]);
                    E::Bin(op, paren(a), paren(b))
                }
            },
        }
    }
    let outs = s.urange(6, 12);
    let mut ret = vec![];
    for _ in 0..outs {
        s.enter();
        let e = node(s, &ty, 2, &lit);
        s.exit();
        ret.push(Elem::One(e));
    }
    let params = [("x", ty.clone()), ("y", ty.clone()), ("q", Ty::Bool)]
        .into_iter()
        .map(|(name, ty)| Param { vis: Vis::Private, mutable: false, name: name.into(), ty })
        .collect();
    let rty = Ty::Arr(Box::new(ty), Sz::Lit(outs as u32));
    let prog = Program {
        structs: vec![],
        aliases: vec![],
        consts: vec![],
        funs: vec![Fun { name: "main".into(), generics: vec![], params, ret: rty, body: vec![S::Return(Some(E::ArrLit(ret)))] }],
    };
    let inputs = (0..4)
        .map(|_| {
            let mut v: Vec<V> = (0..2)
                .map(|_| {
                    let v = if field {
                        let p = zk::bn_p();
                        let e = BigUint::from(*s.pick(&edge));
                        PV::F(match s.below(4) {
                            0 => e,
                            1 => &p - 1u32 - e,
                            _ => s.field(&p),
                        })
                    } else if s.bool() {
                        PV::U(n, s.u64() & max)
                    } else {
                        PV::U(n, *s.pick(&edge))
                    };
                    V::P(P { v, dep: true, poison: false })
                })
                .collect();
            v.push(V::P(P { v: PV::B(s.bool()), dep: true, poison: false }));
            v
        })
        .collect();
    Case { prog, inputs }
}
