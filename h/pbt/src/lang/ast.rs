//! The harness's own model of the ZoKrates language: syntax tree and values. Nothing here comes from the code under test.
use num_bigint::BigUint;
use std::collections::BTreeMap;

/// a compile-time u32: a literal, a generic parameter / constant / loop index, or a sum/difference
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sz {
    Lit(u32),
    Name(String),
    Add(Box<Sz>, Box<Sz>),
    Sub(Box<Sz>, Box<Sz>),
    Mul(Box<Sz>, Box<Sz>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Field,
    Bool,
    U(u32),
    Arr(Box<Ty>, Sz),
    Tup(Vec<Ty>),
    Struct(String, Vec<Sz>),
}

impl Ty {
    pub fn is_uint(&self) -> bool {
        matches!(self, Ty::U(_))
    }
    pub fn is_prim(&self) -> bool {
        matches!(self, Ty::U(_) | Ty::Field | Ty::Bool)
    }
}

#[derive(Clone, Debug)]
pub struct StructDef {
    pub name: String,
    pub generics: Vec<String>,
    pub fields: Vec<(String, Ty)>,
}

#[derive(Clone, Debug)]
pub struct AliasDef {
    pub name: String,
    pub generics: Vec<String>,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub struct ConstDef {
    pub name: String,
    pub ty: Ty,
    pub value: E,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    BAnd,
    BOr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Un {
    Neg,
    Pos,
    Not,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum LitStyle {
    Bare,
    Suffix,
    UnderscoreSuffix,
    Hex,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Elem {
    One(E),
    Spread(E),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Num(Ty, BigUint, LitStyle),
    Bool(bool),
    Var(String),
    /// compile-time u32 expression used as a value of type u32
    Size(Sz),
    Bin(Op, Box<E>, Box<E>),
    Un(Un, Box<E>),
    Pow(Box<E>, Sz),
    Shl(Box<E>, Sz),
    Shr(Box<E>, Sz),
    Tern(Box<E>, Box<E>, Box<E>),
    If(Box<E>, Vec<S>, Box<E>, Vec<S>, Box<E>),
    ArrLit(Vec<Elem>),
    ArrRep(Box<E>, Sz),
    Slice(Box<E>, Option<Sz>, Option<Sz>),
    Idx(Box<E>, Box<E>),
    TupLit(Vec<E>),
    TupGet(Box<E>, usize),
    StructLit(String, Vec<(String, E)>),
    Member(Box<E>, String),
    Call(String, Option<Vec<Option<Sz>>>, Vec<E>),
    /// redundant parentheses
    Paren(Box<E>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Acc {
    Idx(E),
    Member(String),
    Tup(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AsmS {
    /// `lhs <-- e`
    Assign(String, Vec<Acc>, E),
    /// `lhs <== e`
    AssignConstrain(String, Vec<Acc>, E),
    /// `a === b`
    Constrain(E, E),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum S {
    Def {
        ty: Ty,
        mutable: bool,
        name: String,
        e: E,
    },
    Assign(String, Vec<Acc>, E),
    For {
        idx: String,
        from: Sz,
        to: Sz,
        body: Vec<S>,
    },
    Assert(E, Option<String>),
    Log(String, Vec<E>),
    Asm(Vec<AsmS>),
    Return(Option<E>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Vis {
    Default,
    Public,
    Private,
}

#[derive(Clone, Debug)]
pub struct Param {
    pub vis: Vis,
    pub mutable: bool,
    pub name: String,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub generics: Vec<String>,
    pub params: Vec<Param>,
    pub ret: Ty,
    pub body: Vec<S>,
}

#[derive(Clone, Debug)]
pub struct Program {
    pub structs: Vec<StructDef>,
    pub aliases: Vec<AliasDef>,
    pub consts: Vec<ConstDef>,
    /// `main` is last
    pub funs: Vec<Fun>,
}

impl Program {
    pub fn main(&self) -> &Fun {
        self.funs.last().unwrap()
    }
}

/// primitive value
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PV {
    F(BigUint),
    B(bool),
    U(u32, u64),
}

/// `dep`: certainly depends on an input in a way no constant folding removes.
/// `poison`: comes out of an operation that failed, but whose failure may legitimately have been optimised away.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct P {
    pub v: PV,
    pub dep: bool,
    pub poison: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    P(P),
    A(Vec<V>),
    T(Vec<V>),
    S(String, Vec<(String, V)>),
}

impl V {
    pub fn flat<'a>(&'a self, out: &mut Vec<&'a P>) {
        match self {
            V::P(p) => out.push(p),
            V::A(v) | V::T(v) => v.iter().for_each(|v| v.flat(out)),
            V::S(_, v) => v.iter().for_each(|(_, v)| v.flat(out)),
        }
    }
    pub fn prims(&self) -> Vec<&P> {
        let mut v = vec![];
        self.flat(&mut v);
        v
    }
    pub fn map(self, f: &mut impl FnMut(P) -> P) -> V {
        match self {
            V::P(p) => V::P(f(p)),
            V::A(v) => V::A(v.into_iter().map(|v| v.map(f)).collect()),
            V::T(v) => V::T(v.into_iter().map(|v| v.map(f)).collect()),
            V::S(n, v) => V::S(n, v.into_iter().map(|(k, v)| (k, v.map(f))).collect()),
        }
    }
    pub fn to_fields(&self) -> Vec<BigUint> {
        self.prims().into_iter().map(|p| p.v.to_big()).collect()
    }
}

impl PV {
    pub fn to_big(&self) -> BigUint {
        match self {
            PV::F(b) => b.clone(),
            PV::B(b) => BigUint::from(*b as u32),
            PV::U(_, u) => BigUint::from(*u),
        }
    }
}

pub type SzEnv = BTreeMap<String, u32>;

impl Sz {
    pub fn lit(n: usize) -> Sz {
        Sz::Lit(n as u32)
    }
    pub fn eval(&self, env: &SzEnv) -> u32 {
        match self {
            Sz::Lit(n) => *n,
            Sz::Name(n) => *env
                .get(n)
                .unwrap_or_else(|| panic!("unbound size {} in {:?}", n, env)),
            Sz::Add(a, b) => a.eval(env).wrapping_add(b.eval(env)),
            Sz::Sub(a, b) => a.eval(env).wrapping_sub(b.eval(env)),
            Sz::Mul(a, b) => a.eval(env).wrapping_mul(b.eval(env)),
        }
    }
    pub fn subst(&self, m: &BTreeMap<String, Sz>) -> Sz {
        match self {
            Sz::Lit(n) => Sz::Lit(*n),
            Sz::Name(n) => m.get(n).cloned().unwrap_or_else(|| self.clone()),
            Sz::Add(a, b) => Sz::Add(Box::new(a.subst(m)), Box::new(b.subst(m))),
            Sz::Sub(a, b) => Sz::Sub(Box::new(a.subst(m)), Box::new(b.subst(m))),
            Sz::Mul(a, b) => Sz::Mul(Box::new(a.subst(m)), Box::new(b.subst(m))),
        }
    }
}

impl Ty {
    pub fn subst(&self, m: &BTreeMap<String, Sz>) -> Ty {
        match self {
            Ty::Arr(t, n) => Ty::Arr(Box::new(t.subst(m)), n.subst(m)),
            Ty::Tup(ts) => Ty::Tup(ts.iter().map(|t| t.subst(m)).collect()),
            Ty::Struct(s, g) => Ty::Struct(s.clone(), g.iter().map(|g| g.subst(m)).collect()),
            t => t.clone(),
        }
    }
}

pub fn lit(ty: &Ty, n: u64) -> E {
    E::Num(ty.clone(), BigUint::from(n), LitStyle::Suffix)
}
pub fn var(n: &str) -> E {
    E::Var(n.to_string())
}
pub fn bin(op: Op, a: E, b: E) -> E {
    E::Bin(op, Box::new(a), Box::new(b))
}
