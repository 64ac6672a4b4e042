//! Generates well-typed programs of the documented language, with inputs.
use super::ast::*;
use super::interp::Interp;
use crate::src::Src;
use num_bigint::BigUint;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct Cfg {
    pub funs: usize,
    pub stmts: usize,
    pub depth: u32,
    pub budget: i64,
    /// weights of field, bool, uint among primitive types
    pub w_field: u64,
    pub w_bool: u64,
    pub w_uint: u64,
    pub w_comp: u64,
    pub widths: Vec<u32>,
    pub asserts: u64,
    pub logs: u64,
    /// per 100 operator choices
    pub div: bool,
    pub dynidx: bool,
    pub field_cmp: bool,
    pub generics: bool,
    pub consts: bool,
    pub aliases: bool,
    pub structs: bool,
    pub ifblocks: bool,
    pub overloads: bool,
    pub loops: bool,
    pub inputs: usize,
    /// every input vector must be able to satisfy the program: no data-dependent failures
    pub total: bool,
    pub asm: bool,
    pub max_params: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            funs: 3,
            stmts: 6,
            depth: 4,
            budget: 260,
            w_field: 5,
            w_bool: 3,
            w_uint: 5,
            w_comp: 5,
            widths: vec![8, 16, 32, 64],
            asserts: 12,
            logs: 0,
            div: true,
            dynidx: true,
            field_cmp: true,
            generics: true,
            consts: true,
            aliases: true,
            structs: true,
            ifblocks: false,
            overloads: true,
            loops: true,
            inputs: 3,
            total: false,
            asm: false,
            max_params: 4,
        }
    }
}

#[derive(Clone, Debug)]
struct Var {
    name: String,
    ty: Ty,
    mutable: bool,
    /// for a loop index: bounds
    idx: Option<(Sz, Sz)>,
    depth: usize,
}

#[derive(Clone)]
struct Sig {
    name: String,
    generics: Vec<String>,
    params: Vec<Ty>,
    ret: Ty,
    cost: i64,
    overloaded: bool,
}

pub struct Case {
    pub prog: Program,
    pub inputs: Vec<Vec<V>>,
}

pub struct G<'a> {
    pub s: &'a mut Src,
    cfg: Cfg,
    p: BigUint,
    prog: Program,
    sigs: Vec<Sig>,
    vars: Vec<Var>,
    /// generic parameters of the current function
    gens: Vec<String>,
    depth: usize,
    next: usize,
    budget: i64,
    mult: i64,
    hole: usize,
    in_main: bool,
    loop_depth: usize,
    in_if: usize,
    /// the next array expression may be a slice: their types do not compare everywhere
    slice_ok: bool,
    /// sizes are written as plain numbers: types are compared syntactically there
    plain: usize,
    /// no constants in the sizes of declared types (there are generic structs)
    no_deco: bool,
    in_const: bool,
    pub features: BTreeSet<&'static str>,
}

pub fn generate(s: &mut Src, cfg: &Cfg, p: &BigUint) -> (Case, BTreeSet<&'static str>) {
    let mut g = G {
        s,
        cfg: cfg.clone(),
        p: p.clone(),
        prog: Program {
            structs: vec![],
            aliases: vec![],
            consts: vec![],
            funs: vec![],
        },
        sigs: vec![],
        vars: vec![],
        gens: vec![],
        depth: 0,
        next: 0,
        budget: 0,
        mult: 1,
        hole: 0,
        in_main: false,
        loop_depth: 0,
        in_if: 0,
        slice_ok: false,
        plain: 0,
        no_deco: false,
        in_const: false,
        features: BTreeSet::new(),
    };
    g.program();
    let mut prog = g.prog;
    let feats = g.features;
    let params: Vec<Ty> = prog.main().params.iter().map(|p| p.ty.clone()).collect();
    let inputs: Vec<Vec<V>> = (0..cfg.inputs)
        .map(|_| s.group(|s| params.iter().map(|t| value(s, &prog, t, p)).collect()))
        .collect();
    fill(&mut prog, &inputs[0], p);
    (Case { prog, inputs }, feats)
}

/// resolves an alias
pub fn unalias(prog: &Program, t: &Ty) -> Ty {
    if let Ty::Struct(n, g) = t {
        if let Some(a) = prog.aliases.iter().find(|a| a.name == *n) {
            let m: BTreeMap<String, Sz> =
                a.generics.iter().cloned().zip(g.iter().cloned()).collect();
            return unalias(prog, &a.ty.subst(&m));
        }
    }
    t.clone()
}

pub fn const_env(prog: &Program) -> SzEnv {
    prog.consts
        .iter()
        .filter(|c| c.ty == Ty::U(32))
        .filter_map(|c| match &c.value {
            E::Num(_, v, _) => Some((c.name.clone(), v.to_string().parse().ok()?)),
            _ => None,
        })
        .collect()
}

pub fn value(s: &mut Src, prog: &Program, t: &Ty, p: &BigUint) -> V {
    let env = const_env(prog);
    value_in(s, prog, t, p, &env)
}

fn value_in(s: &mut Src, prog: &Program, t: &Ty, p: &BigUint, env: &SzEnv) -> V {
    let prim = |v| {
        V::P(P {
            v,
            dep: false,
            poison: false,
        })
    };
    match unalias(prog, t) {
        Ty::Field => prim(PV::F(s.field(p))),
        Ty::Bool => prim(PV::B(s.bool())),
        Ty::U(32) => prim(PV::U(32, if s.chance(1, 3) { s.below(4) } else { s.uint(32) })),
        Ty::U(n) => prim(PV::U(n, s.uint(n))),
        Ty::Arr(t, n) => V::A(
            (0..n.eval(env))
                .map(|_| value_in(s, prog, &t, p, env))
                .collect(),
        ),
        Ty::Tup(ts) => V::T(ts.iter().map(|t| value_in(s, prog, t, p, env)).collect()),
        Ty::Struct(n, g) => {
            let d = prog.structs.iter().find(|d| d.name == n).unwrap();
            let m: BTreeMap<String, Sz> = d
                .generics
                .iter()
                .cloned()
                .zip(g.iter().map(|g| Sz::Lit(g.eval(env))))
                .collect();
            V::S(
                n.clone(),
                d.fields
                    .iter()
                    .map(|(k, t)| (k.clone(), value_in(s, prog, &t.subst(&m), p, env)))
                    .collect(),
            )
        }
    }
}

/// replaces the holes `?k` by the values the reference sees on `inputs`
fn fill(prog: &mut Program, inputs: &[V], p: &BigUint) {
    let holes = {
        let mut i = Interp::new(prog, p);
        i.holes = Some(BTreeMap::new());
        i.run(inputs.to_vec());
        i.holes.unwrap()
    };
    fn stmts(v: &mut Vec<S>, holes: &BTreeMap<String, PV>) {
        for s in v.iter_mut() {
            match s {
                S::For { body, .. } => stmts(body, holes),
                S::Def { e, .. } | S::Assign(_, _, e) | S::Return(Some(e)) => expr(e, holes),
                S::Assert(E::Bin(_, _, h), _) => {
                    if let E::Var(n) = &**h {
                        if n.starts_with('?') {
                            **h = match holes.get(n) {
                                Some(PV::F(v)) => {
                                    E::Num(Ty::Field, v.clone(), LitStyle::Suffix)
                                }
                                Some(PV::B(b)) => E::Bool(*b),
                                Some(PV::U(n, v)) => lit(&Ty::U(*n), *v),
                                // never executed: any value of the type the name carries
                                None => match &n[1..2] {
                                    "f" => lit(&Ty::Field, 0),
                                    "b" => E::Bool(false),
                                    _ => {
                                        let w: u32 = n[2..]
                                            .split('_')
                                            .next()
                                            .unwrap()
                                            .parse()
                                            .unwrap();
                                        lit(&Ty::U(w), 0)
                                    }
                                },
                            };
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn expr(e: &mut E, holes: &BTreeMap<String, PV>) {
        if let E::If(_, a, x, b, y) = e {
            stmts(a, holes);
            stmts(b, holes);
            expr(x, holes);
            expr(y, holes);
        }
    }
    for f in &mut prog.funs {
        stmts(&mut f.body, &holes);
    }
}

impl<'a> G<'a> {
    fn fresh(&mut self, p: &str) -> String {
        self.next += 1;
        format!("{}{}", p, self.next - 1)
    }

    fn program(&mut self) {
        self.no_deco = self.s.chance(3, 4);
        if self.cfg.consts && self.s.chance(2, 5) {
            let n = self.s.urange(1, 3);
            for _ in 0..n {
                self.s.enter();
                self.constant();
                self.s.exit();
            }
        }
        if self.cfg.structs && self.no_deco {
            let n = self.s.weighted(&[4, 3, 2]);
            for _ in 0..n {
                self.s.enter();
            self.structure();
            self.s.exit();
            }
        }
        if self.cfg.aliases && self.s.chance(1, 4) {
            let t = self.ty(2, false);
            let name = self.fresh("A");
            self.prog.aliases.push(AliasDef {
                name,
                generics: vec![],
                ty: t,
            });
        }
        let n = self.s.idx(self.cfg.funs + 1);
        for _ in 0..n {
            self.s.enter();
            self.function(false);
            self.s.exit();
        }
        self.s.enter();
        self.function(true);
        self.s.exit();
    }

    fn constant(&mut self) {
        let name = self.fresh("K");
        self.in_const = true;
        let (ty, value) = match self.s.weighted(&[4, 2, 2, 1, 1]) {
            0 => (Ty::U(32), lit(&Ty::U(32), self.s.range(1, 4))),
            1 => (Ty::Field, self.expr(&Ty::Field, 1, true)),
            2 => {
                let t = self.prim();
                let e = self.expr(&t, 1, true);
                (t, e)
            }
            3 => {
                let t = Ty::Arr(Box::new(self.prim()), Sz::Lit(self.s.range(1, 3) as u32));
                let e = self.expr(&t, 1, true);
                (t, e)
            }
            _ => {
                let t = self.ty(2, false);
                let e = self.expr(&t, 1, true);
                (t, e)
            }
        };
        self.in_const = false;
        self.features.insert("const");
        self.prog.consts.push(ConstDef { name, ty, value });
    }

    fn structure(&mut self) {
        let name = self.fresh("S");
        let generics = if self.cfg.generics && self.no_deco && self.s.chance(1, 2) {
            let g = self.fresh("P");
            vec![g]
        } else {
            vec![]
        };
        let n = self.s.urange(1, 3);
        self.gens = generics.clone();
        let fields: Vec<(String, Ty)> = (0..n)
            .map(|_| {
                let f = self.fresh("m");
                let t = self.ty(1, true);
                (f, t)
            })
            .collect();
        let mut fields: Vec<(String, Ty)> = fields;
        let mut used = BTreeSet::new();
        fields.iter().for_each(|(_, t)| names(t, &mut used));
        if let Some(g) = generics.first() {
            if !used.contains(g) {
                let t = self.prim();
                fields[0].1 = Ty::Arr(Box::new(t), Sz::Name(g.clone()));
            }
        }
        self.gens.clear();
        self.features.insert("struct");
        self.prog.structs.push(StructDef {
            name,
            generics,
            fields,
        });
    }

    fn prim(&mut self) -> Ty {
        match self
            .s
            .weighted(&[self.cfg.w_field, self.cfg.w_bool, self.cfg.w_uint])
        {
            0 => Ty::Field,
            1 => Ty::Bool,
            _ => {
                let ws = self.cfg.widths.clone();
                Ty::U(*self.s.pick(&ws))
            }
        }
    }

    /// a length valid here
    fn len(&mut self, generic: bool) -> Sz {
        if generic && !self.gens.is_empty() && self.s.chance(1, 2) {
            let g = self.gens.clone();
            Sz::Name(self.s.pick(&g).clone())
        } else {
            Sz::Lit(self.s.range(1, 3) as u32)
        }
    }

    fn ty(&mut self, depth: u32, generic: bool) -> Ty {
        let w = self.cfg.w_comp;
        if depth == 0 || !self.s.chance(w, 13) {
            return self.prim();
        }
        if !self.no_deco {
            let t = self.prim();
            return Ty::Arr(Box::new(t), self.len(generic));
        }
        match self.s.weighted(&[5, 2, 3]) {
            0 => {
                let t = self.ty(depth - 1, generic);
                Ty::Arr(Box::new(t), self.len(generic))
            }
            1 => {
                let n = self.s.urange(1, 3);
                Ty::Tup((0..n).map(|_| self.ty(depth - 1, generic)).collect())
            }
            _ => {
                if self.prog.structs.is_empty() {
                    let t = self.ty(depth - 1, generic);
                    return Ty::Arr(Box::new(t), self.len(generic));
                }
                let k = self.s.idx(self.prog.structs.len());
                let (n, g) = {
                    let d = &self.prog.structs[k];
                    (d.name.clone(), d.generics.len())
                };
                Ty::Struct(n, (0..g).map(|_| self.len(generic)).collect())
            }
        }
    }

    /// number of primitive values, generics counted as 3
    fn size(&self, t: &Ty) -> i64 {
        match t {
            Ty::Arr(t, n) => {
                self.size(t)
                    * match n {
                        Sz::Lit(n) => *n as i64,
                        _ => 3,
                    }
            }
            Ty::Tup(ts) => ts.iter().map(|t| self.size(t)).sum(),
            Ty::Struct(n, g) => {
                let d = self.prog.structs.iter().find(|d| d.name == *n).unwrap();
                let m = d.generics.iter().cloned().zip(g.iter().cloned()).collect();
                d.fields.iter().map(|(_, t)| self.size(&t.subst(&m))).sum()
            }
            _ => 1,
        }
    }

    fn fields_of(&self, n: &str, g: &[Sz]) -> Vec<(String, Ty)> {
        let d = self.prog.structs.iter().find(|d| d.name == *n).unwrap();
        let m: BTreeMap<String, Sz> = d.generics.iter().cloned().zip(g.iter().cloned()).collect();
        d.fields
            .iter()
            .map(|(k, t)| (k.clone(), t.subst(&m)))
            .collect()
    }

    /// the same type, written with constants, aliases and sums where possible
    fn deco(&mut self, t: &Ty) -> Ty {
        if !self.prog.aliases.is_empty() {
            if let Some(a) = self.prog.aliases.iter().find(|a| a.ty == *t).cloned() {
                if self.s.chance(1, 2) {
                    self.features.insert("alias");
                    return Ty::Struct(a.name, vec![]);
                }
            }
        }
        match t {
            Ty::Arr(t, n) => {
                let n = if t.is_prim() { self.deco_dim(n) } else { n.clone() };
                // the element type of a multi-dimensional array is written in place
                let t = match &**t {
                    Ty::Arr(..) => (**t).clone(),
                    t if t.is_prim() => self.deco(t),
                    t => t.clone(),
                };
                Ty::Arr(Box::new(t), n)
            }
            // the sizes in composite types are compared syntactically
            t => t.clone(),
        }
    }

    /// dimensions are constants or identifiers
    fn deco_dim(&mut self, n: &Sz) -> Sz {
        match self.deco_sz(n) {
            _ if self.no_deco => n.clone(),
            Sz::Name(x) => Sz::Name(x),
            _ => n.clone(),
        }
    }

    fn deco_sz(&mut self, n: &Sz) -> Sz {
        if self.plain > 0 {
            return n.clone();
        }
        if let Sz::Lit(k) = n {
            let env = const_env(&self.prog);
            let c: Vec<String> = env
                .iter()
                .filter(|(_, v)| *v == k)
                .map(|(n, _)| n.clone())
                .collect();
            if !c.is_empty() && self.s.chance(1, 2) {
                return Sz::Name(c[0].clone());
            }
            if *k > 0 && self.s.chance(1, 12) {
                return Sz::Add(Box::new(Sz::Lit(*k - 1)), Box::new(Sz::Lit(1)));
            }
        }
        n.clone()
    }

    fn function(&mut self, main: bool) {
        self.vars.clear();
        self.depth = 0;
        self.mult = 1;
        self.in_main = main;
        self.loop_depth = 0;
        self.budget = if main {
            self.cfg.budget
        } else {
            self.cfg.budget / 4
        };
        let start = self.budget;
        self.gens = if !main && self.cfg.generics && self.s.chance(1, 3) {
            self.features.insert("generic");
            let n = self.s.urange(1, 2);
            (0..n).map(|_| self.fresh("N")).collect()
        } else {
            vec![]
        };
        // overload of an earlier function
        let mut name = if main {
            "main".to_string()
        } else {
            self.fresh("f")
        };
        let np = if main {
            self.s.urange(1, self.cfg.max_params)
        } else {
            self.s.urange(0, 3)
        };
        let mut params = vec![];
        for _ in 0..np {
            let n = self.fresh("a");
            let mut t = self.ty(2, true);
            while self.size(&t) > 12 {
                t = self.prim();
            }
            let mutable = self.s.chance(1, 4);
            params.push((n, t, mutable));
        }
        if !main && self.cfg.overloads && !self.sigs.is_empty() && self.s.chance(1, 8) {
            let k = self.s.idx(self.sigs.len());
            let tys: Vec<Ty> = params.iter().map(|p| p.1.clone()).collect();
            let same_shape = |t: &Ty, u: &Ty| std::mem::discriminant(t) == std::mem::discriminant(u) && !t.is_uint();
            let old = self.sigs[k].clone();
            if old.generics.is_empty()
                && self.gens.is_empty()
                && self
                    .sigs
                    .iter()
                    .filter(|s| s.name == old.name)
                    .all(|s| {
                        s.generics.is_empty()
                            && (s.params.len() != tys.len()
                                || s.params.iter().zip(&tys).any(|(a, b)| a != b && !same_shape(a, b)))
                    })
            {
                name = old.name.clone();
                for s in self.sigs.iter_mut().filter(|s| s.name == old.name) {
                    s.overloaded = true;
                }
                self.features.insert("overload");
            }
        }
        for (n, t, m) in &params {
            self.vars.push(Var {
                name: n.clone(),
                ty: t.clone(),
                mutable: *m,
                idx: None,
                depth: 0,
            });
        }
        let n = if main {
            self.s.urange(1, self.cfg.stmts)
        } else {
            self.s.urange(0, self.cfg.stmts / 2)
        };
        let mut body = vec![];
        for _ in 0..n {
            self.stmt(&mut body);
        }
        // what is returned: a new expression or recent variables
        let (ret, e) = match self.s.weighted(&[3, 4, if main { 1 } else { 0 }]) {
            0 => {
                let t = self.ty(2, true);
                let d = self.cfg.depth;
                let e = self.expr(&t, d, true);
                (t, Some(e))
            }
            1 => {
                let mut es = vec![];
                let mut ts = vec![];
                let k = self.s.urange(1, 3);
                for _ in 0..k {
                    let vs: Vec<Var> = self.visible();
                    if vs.is_empty() {
                        break;
                    }
                    // recent ones first
                    let back = self.s.idx(vs.len().min(4));
                    let v = vs[vs.len() - 1 - back].clone();
                    ts.push(v.ty.clone());
                    es.push(var(&v.name));
                }
                if es.is_empty() {
                    (Ty::Field, Some(lit(&Ty::Field, 1)))
                } else if es.len() == 1 {
                    (ts.pop().unwrap(), es.pop())
                } else {
                    (Ty::Tup(ts), Some(E::TupLit(es)))
                }
            }
            _ => (Ty::Tup(vec![]), None),
        };
        if let Some(e) = e {
            body.push(S::Return(Some(e)));
        } else if self.s.bool() {
            body.push(S::Return(None));
        }
        let sig = Sig {
            name: name.clone(),
            generics: self.gens.clone(),
            params: params.iter().map(|p| p.1.clone()).collect(),
            ret: ret.clone(),
            cost: (start - self.budget).max(1),
            overloaded: self.sigs.iter().any(|s| s.name == name),
        };
        let params = params
            .into_iter()
            .map(|(n, t, m)| Param {
                vis: if main {
                    *self.s.pick(&[Vis::Default, Vis::Private, Vis::Public])
                } else {
                    Vis::Default
                },
                mutable: m,
                name: n,
                ty: self.deco(&t),
            })
            .collect();
        let rdec = self.deco(&ret);
        self.prog.funs.push(Fun {
            name,
            generics: self.gens.clone(),
            params,
            ret: rdec,
            body,
        });
        self.sigs.push(sig);
        self.gens.clear();
        self.vars.clear();
    }

    /// variables not hidden by a later one
    fn visible(&self) -> Vec<Var> {
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        for v in self.vars.iter().rev() {
            if seen.insert(v.name.clone()) {
                out.push(v.clone());
            }
        }
        out.reverse();
        out
    }

    fn spend(&mut self, n: i64) {
        self.budget -= n * self.mult;
    }

    fn block(&mut self, lo: usize, hi: usize) -> Vec<S> {
        let n = self.s.urange(lo, hi);
        let keep = self.vars.len();
        self.depth += 1;
        let mut out = vec![];
        for _ in 0..n {
            self.stmt(&mut out);
        }
        self.depth -= 1;
        self.vars.truncate(keep);
        out
    }

    fn stmt(&mut self, out: &mut Vec<S>) {
        self.s.enter();
        self.stmt_in(out);
        self.s.exit();
    }

    fn stmt_in(&mut self, out: &mut Vec<S>) {
        self.spend(1);
        let muts: Vec<Var> = self
            .visible()
            .into_iter()
            .filter(|v| v.mutable && (self.in_if == 0 || v.depth >= self.depth))
            .collect();
        let poor = self.budget < 20;
        let w = [
            10,
            if muts.is_empty() { 0 } else { 8 },
            if self.cfg.loops && self.loop_depth < 2 && self.in_if == 0 && !poor {
                4
            } else {
                0
            },
            self.cfg.asserts / 3,
            self.cfg.logs,
            if self.cfg.asm && self.in_if == 0 { 6 } else { 0 },
        ];
        match self.s.weighted(&w) {
            0 => {
                let t = self.ty(2, true);
                let d = self.cfg.depth;
                self.slice_ok = true;
                let e = self.expr(&t, d, true);
                let shadow = self.s.chance(1, 10);
                let name = if shadow {
                    let c: Vec<Var> = self
                        .visible()
                        .into_iter()
                        .filter(|v| v.idx.is_none())
                        .collect();
                    if c.is_empty() {
                        self.fresh("v")
                    } else {
                        self.features.insert("shadow");
                        self.s.pick(&c).name.clone()
                    }
                } else {
                    self.fresh("v")
                };
                let mutable = self.s.chance(2, 5);
                let dt = self.deco(&t);
                out.push(S::Def {
                    ty: dt,
                    mutable,
                    name: name.clone(),
                    e,
                });
                self.vars.push(Var {
                    name,
                    ty: t,
                    mutable,
                    idx: None,
                    depth: self.depth,
                });
            }
            1 => {
                let v = self.s.pick(&muts).clone();
                let (acc, t) = self.assignee(&v.ty);
                let d = self.cfg.depth - 1;
                let e = self.expr(&t, d, true);
                out.push(S::Assign(v.name, acc, e));
            }
            2 => {
                self.features.insert("loop");
                let idx = self.fresh("i");
                let (from, to, k) = if !self.gens.is_empty() && self.s.bool() {
                    let g = self.gens.clone();
                    (Sz::Lit(0), Sz::Name(self.s.pick(&g).clone()), 3)
                } else {
                    let a = self.s.below(2) as u32;
                    let b = a + self.s.below(4) as u32;
                    // a lower bound above the upper one: no iteration
                    let a = if self.s.chance(1, 12) { b + 1 + self.s.below(3) as u32 } else { a };
                    (Sz::Lit(a), Sz::Lit(b), b as i64 - a as i64)
                };
                let dto = self.deco_sz(&to);
                let m = self.mult;
                self.mult *= k.max(1);
                self.loop_depth += 1;
                let keep = self.vars.len();
                self.depth += 1;
                self.vars.push(Var {
                    name: idx.clone(),
                    ty: Ty::U(32),
                    mutable: false,
                    idx: Some((from.clone(), to)),
                    depth: self.depth,
                });
                let body = self.block(1, 3);
                self.depth -= 1;
                self.vars.truncate(keep);
                self.loop_depth -= 1;
                self.mult = m;
                out.push(S::For {
                    idx,
                    from,
                    to: dto,
                    body,
                });
            }
            3 => {
                let s = self.assertion();
                out.push(s);
            }
            4 => {
                let n = self.s.urange(0, 2);
                let mut f = String::new();
                let mut es = vec![];
                for i in 0..n {
                    if self.s.bool() {
                        f.push_str(if i == 0 { "x=" } else { ", " });
                    }
                    f.push_str("{}");
                    let t = self.ty(2, true);
                    es.push(self.expr(&t, 2, false));
                }
                if n == 0 || self.s.bool() {
                    f.push_str(" end");
                }
                self.features.insert("log");
                out.push(S::Log(f, es));
            }
            _ => self.asm(out),
        }
    }

    /// an asm block: new field variables bound by `<==` or by `<--` and `===`
    fn asm(&mut self, out: &mut Vec<S>) {
        self.features.insert("asm");
        let n = self.s.urange(1, 2);
        for _ in 0..n {
            let name = self.fresh("s");
            out.push(S::Def {
                ty: Ty::Field,
                mutable: true,
                name: name.clone(),
                e: lit(&Ty::Field, 0),
            });
            let a = self.leaf_path(&Ty::Field).unwrap_or(lit(&Ty::Field, 2));
            let b = self.leaf_path(&Ty::Field).unwrap_or(lit(&Ty::Field, 3));
            let c = self.leaf_path(&Ty::Field).unwrap_or(lit(&Ty::Field, 5));
            let quad = bin(Op::Add, bin(Op::Mul, a.clone(), b.clone()), c.clone());
            let v = match self.s.below(4) {
                0 => vec![AsmS::AssignConstrain(name.clone(), vec![], quad)],
                1 => vec![
                    AsmS::Assign(name.clone(), vec![], quad.clone()),
                    AsmS::Constrain(var(&name), quad),
                ],
                2 => vec![
                    AsmS::Assign(name.clone(), vec![], bin(Op::Add, a.clone(), c.clone())),
                    AsmS::Constrain(bin(Op::Sub, var(&name), c), a),
                ],
                _ => vec![
                    // x * y == 1 for a non-zero x, 0 otherwise
                    AsmS::Assign(
                        name.clone(),
                        vec![],
                        E::Tern(
                            Box::new(bin(Op::Eq, a.clone(), lit(&Ty::Field, 0))),
                            Box::new(lit(&Ty::Field, 0)),
                            Box::new(bin(Op::Div, lit(&Ty::Field, 1), a.clone())),
                        ),
                    ),
                    AsmS::Constrain(
                        bin(Op::Mul, bin(Op::Mul, var(&name), a.clone()), lit(&Ty::Field, 1)),
                        var(&name),
                    ),
                ],
            };
            out.push(S::Asm(v));
            self.vars.push(Var {
                name,
                ty: Ty::Field,
                mutable: true,
                idx: None,
                depth: self.depth,
            });
        }
    }

    fn assertion(&mut self) -> S {
        self.features.insert("assert");
        let msg = if self.s.chance(1, 3) {
            Some(self.fresh("msg "))
        } else {
            None
        };
        let d = self.cfg.depth - 1;
        let holes = self.in_main && self.loop_depth == 0 && self.in_if == 0;
        match self.s.weighted(&[4, 3, 1]) {
            0 => {
                let t = self.prim();
                let e = self.expr(&t, d, false);
                let v = match &t {
                    Ty::Field => {
                        let p = self.p.clone();
                        E::Num(Ty::Field, self.s.field(&p), LitStyle::Suffix)
                    }
                    Ty::U(n) => lit(&t, self.s.uint(*n)),
                    // a boolean: a tautology instead
                    _ => {
                        let x = self.expr(&t, 1, false);
                        return S::Assert(
                            bin(
                                Op::Or,
                                bin(Op::Ne, e.clone(), x.clone()),
                                bin(Op::Eq, e, x),
                            ),
                            msg,
                        );
                    }
                };
                S::Assert(bin(Op::Ne, e, v), msg)
            }
            1 if holes => {
                let t = self.prim();
                let e = self.expr(&t, d, false);
                let k = self.hole;
                self.hole += 1;
                let h = match &t {
                    Ty::Field => format!("?f_{}", k),
                    Ty::Bool => format!("?b_{}", k),
                    Ty::U(n) => format!("?u{}_{}", n, k),
                    _ => unreachable!(),
                };
                S::Assert(bin(Op::Eq, e, E::Var(h)), msg)
            }
            _ => {
                let a = self.expr(&Ty::Bool, d, false);
                let t = self.prim();
                let b = self.expr(&t, 1, false);
                S::Assert(bin(Op::Or, a, bin(Op::Eq, b.clone(), b)), msg)
            }
        }
    }

    fn assignee(&mut self, t: &Ty) -> (Vec<Acc>, Ty) {
        let mut acc = vec![];
        let mut t = t.clone();
        while !t.is_prim() && self.s.chance(3, 4) {
            match t.clone() {
                Ty::Arr(inner, n) => {
                    let i = self.index(&n, true);
                    acc.push(Acc::Idx(i));
                    t = *inner;
                }
                Ty::Tup(ts) => {
                    if ts.is_empty() {
                        break;
                    }
                    let i = self.s.idx(ts.len());
                    acc.push(Acc::Tup(i));
                    t = ts[i].clone();
                }
                Ty::Struct(n, g) => {
                    let fs = self.fields_of(&n, &g);
                    let (k, ft) = self.s.pick(&fs).clone();
                    acc.push(Acc::Member(k));
                    t = ft;
                }
                _ => unreachable!(),
            }
        }
        (acc, t)
    }

    /// an index into an array of length n (in bounds unless it is a run-time one)
    fn index(&mut self, n: &Sz, typed: bool) -> E {
        // loop indices in range
        let lidx: Vec<String> = self
            .visible()
            .iter()
            .filter(|v| match (&v.idx, n) {
                (Some((_, to)), n) if to == n => true,
                (Some((_, Sz::Lit(to))), Sz::Lit(n)) => to <= n,
                _ => false,
            })
            .map(|v| v.name.clone())
            .collect();
        let dynw = if self.cfg.dynidx && !self.cfg.total { 3 } else { 0 };
        let sel = if self.cfg.dynidx { 2 } else { 0 };
        match self
            .s
            .weighted(&[5, if lidx.is_empty() { 0 } else { 8 }, dynw, sel])
        {
            0 => match n {
                Sz::Lit(n) => {
                    let k = self.s.below(*n as u64);
                    if typed && self.s.bool() {
                        E::Num(Ty::U(32), BigUint::from(k), LitStyle::Bare)
                    } else {
                        lit(&Ty::U(32), k)
                    }
                }
                n => {
                    if self.s.bool() {
                        lit(&Ty::U(32), 0)
                    } else {
                        E::Size(Sz::Sub(Box::new(n.clone()), Box::new(Sz::Lit(1))))
                    }
                }
            },
            1 => { let n: &String = self.s.pick(&lidx); var(n) }
            2 => {
                self.features.insert("dynamic index");
                self.spend(3);
                if let Some(e) = self.leaf_path(&Ty::U(32)) {
                    if self.s.bool() {
                        e
                    } else {
                        // u32 remainder: always in range
                        let m = match n {
                            Sz::Lit(n) => lit(&Ty::U(32), *n as u64),
                            n => E::Size(n.clone()),
                        };
                        self.spend(10);
                        bin(Op::Rem, e, m)
                    }
                } else {
                    lit(&Ty::U(32), 0)
                }
            }
            _ => {
                self.features.insert("dynamic index");
                self.spend(3);
                let c = self.expr(&Ty::Bool, 1, false);
                let hi = match n {
                    Sz::Lit(n) => lit(&Ty::U(32), *n as u64 - 1),
                    _ => lit(&Ty::U(32), 0),
                };
                E::Tern(Box::new(c), Box::new(lit(&Ty::U(32), 0)), Box::new(hi))
            }
        }
    }

    fn paths(&self, e: E, t: &Ty, want: &Ty, depth: u32, out: &mut Vec<E>) {
        if t == want {
            out.push(e.clone());
        }
        if depth == 0 {
            return;
        }
        match t {
            Ty::Arr(inner, n) => {
                let ks: Vec<E> = match n {
                    Sz::Lit(n) => (0..(*n).min(2)).map(|k| lit(&Ty::U(32), k as u64)).collect(),
                    _ => vec![lit(&Ty::U(32), 0)],
                };
                for k in ks {
                    self.paths(
                        E::Idx(Box::new(e.clone()), Box::new(k)),
                        inner,
                        want,
                        depth - 1,
                        out,
                    );
                }
            }
            Ty::Tup(ts) => {
                for (i, t) in ts.iter().enumerate() {
                    self.paths(E::TupGet(Box::new(e.clone()), i), t, want, depth - 1, out);
                }
            }
            Ty::Struct(n, g) => {
                for (k, t) in self.fields_of(n, g) {
                    self.paths(
                        E::Member(Box::new(e.clone()), k),
                        &t,
                        want,
                        depth - 1,
                        out,
                    );
                }
            }
            _ => {}
        }
    }

    /// something of this type reachable from a variable
    fn leaf_path(&mut self, t: &Ty) -> Option<E> {
        let mut out = vec![];
        for v in self.visible() {
            self.paths(var(&v.name), &v.ty, t, 2, &mut out);
        }
        if out.is_empty() || self.s.chance(1, 12) {
            for c in self.prog.consts.clone() {
                self.paths(var(&c.name), &c.ty, t, 2, &mut out);
            }
        }
        if *t == Ty::U(32) && self.s.chance(1, 10) {
            for g in self.gens.clone() {
                out.push(E::Size(Sz::Name(g)));
            }
        }
        if out.is_empty() {
            return None;
        }
        // biased to recent variables
        let n = out.len();
        let i = self.s.idx(n);
        let i = if self.s.bool() { i.max(n / 2) } else { i };
        Some(out[i].clone())
    }

    fn literal(&mut self, t: &Ty, typed: bool) -> E {
        match t {
            Ty::Bool => E::Bool(self.s.bool()),
            Ty::Field => {
                let p = self.p.clone();
                let v = if self.s.chance(1, 3) {
                    self.s.field(&p)
                } else {
                    BigUint::from(self.s.below(8))
                };
                let st = if typed && self.s.chance(1, 2) {
                    LitStyle::Bare
                } else {
                    *self.s.pick(&[LitStyle::Suffix, LitStyle::UnderscoreSuffix])
                };
                E::Num(Ty::Field, v, st)
            }
            Ty::U(n) => {
                let v = self.s.uint(*n);
                let st = if typed && self.s.chance(1, 2) {
                    LitStyle::Bare
                } else {
                    *self
                        .s
                        .pick(&[LitStyle::Suffix, LitStyle::Hex, LitStyle::UnderscoreSuffix])
                };
                E::Num(t.clone(), BigUint::from(v), st)
            }
            _ => unreachable!(),
        }
    }

    fn leaf(&mut self, t: &Ty, typed: bool) -> E {
        let plain = !simple(t) as usize;
        self.plain += plain;
        let e = self.leaf_in(t, typed);
        self.plain -= plain;
        e
    }

    fn leaf_in(&mut self, t: &Ty, typed: bool) -> E {
        if self.s.chance(5, 6) {
            if let Some(e) = self.leaf_path(t) {
                return e;
            }
        }
        match t {
            Ty::Field | Ty::Bool | Ty::U(_) => self.literal(t, typed),
            Ty::Arr(inner, n) => {
                let typed = typed && inner.is_prim();
                if let (Sz::Lit(n), true) = (n, self.s.bool() || self.in_const) {
                    E::ArrLit(
                        (0..*n)
                            .map(|_| Elem::One(self.leaf(inner, typed)))
                            .collect(),
                    )
                } else {
                    let e = self.leaf(inner, typed);
                    let n = self.deco_sz(n);
                    E::ArrRep(Box::new(e), n)
                }
            }
            Ty::Tup(ts) => E::TupLit(
                ts.iter()
                    .map(|t| self.leaf(t, typed && t.is_prim()))
                    .collect(),
            ),
            Ty::Struct(n, g) => {
                self.plain += !g.is_empty() as usize;
                let fs = self
                    .fields_of(n, g)
                    .into_iter()
                    .map(|(k, t)| (k, self.leaf(&t, typed)))
                    .collect();
                self.plain -= !g.is_empty() as usize;
                E::StructLit(n.clone(), fs)
            }
        }
    }

    fn b(&mut self, t: &Ty, d: u32, typed: bool) -> Box<E> {
        Box::new(self.expr(t, d, typed))
    }

    fn conditional(&mut self, t: &Ty, d: u32, typed: bool) -> E {
        let plain = !simple(t) as usize;
        self.plain += plain;
        let e = self.conditional_in(t, d, typed);
        self.plain -= plain;
        e
    }

    fn conditional_in(&mut self, t: &Ty, d: u32, typed: bool) -> E {
        self.features.insert("conditional");
        let c = self.b(&Ty::Bool, d - 1, false);
        let typed = typed && t.is_prim();
        if self.s.bool() {
            let a = self.b(t, d - 1, typed);
            let b = self.b(t, d - 1, typed);
            return E::Tern(c, a, b);
        }
        let branch = |g: &mut Self| {
            let keep = g.vars.len();
            g.depth += 1;
            g.in_if += 1;
            let mut ss = vec![];
            let n = if g.cfg.ifblocks { g.s.weighted(&[6, 3, 1]) } else { 0 };
            for _ in 0..n {
                g.stmt(&mut ss);
            }
            let e = g.b(t, d - 1, typed);
            g.in_if -= 1;
            g.depth -= 1;
            g.vars.truncate(keep);
            (ss, e)
        };
        let (s1, a) = branch(self);
        let (s2, b) = branch(self);
        E::If(c, s1, a, s2, b)
    }

    /// a call of an earlier function returning t
    fn call(&mut self, t: &Ty, d: u32) -> Option<E> {
        let mut cands: Vec<(usize, BTreeMap<String, Sz>)> = vec![];
        for (i, s) in self.sigs.clone().iter().enumerate() {
            if s.cost * self.mult > self.budget {
                continue;
            }
            let mut m = BTreeMap::new();
            if unify(&s.ret, t, &s.generics, &mut m) {
                cands.push((i, m));
            }
        }
        if cands.is_empty() {
            return None;
        }
        let (i, mut m) = self.s.pick(&cands).clone();
        let sig = self.sigs[i].clone();
        for g in &sig.generics {
            if !m.contains_key(g) {
                let s = if !self.gens.is_empty() && self.s.bool() {
                    let gs = self.gens.clone();
                    Sz::Name(self.s.pick(&gs).clone())
                } else {
                    Sz::Lit(self.s.range(1, 3) as u32)
                };
                m.insert(g.clone(), s);
            }
        }
        self.spend(sig.cost);
        self.features.insert("call");
        let mut inferable = BTreeSet::new();
        sig.params.iter().for_each(|t| names(t, &mut inferable));
        let all_inferable = sig.generics.iter().all(|g| inferable.contains(g));
        let g = if sig.generics.is_empty() {
            None
        } else if !all_inferable || self.s.chance(1, 3) {
            Some(
                sig.generics
                    .iter()
                    .map(|g| {
                        if inferable.contains(g) && self.s.chance(1, 3) {
                            None
                        } else {
                            Some(m[g].clone())
                        }
                    })
                    .collect(),
            )
        } else {
            None
        };
        let typed = !sig.overloaded;
        let args = sig
            .params
            .iter()
            .map(|t| self.expr(&t.subst(&m), d - 1, typed && t.is_prim()))
            .collect();
        Some(E::Call(sig.name, g, args))
    }

    /// access into a bigger expression
    fn projection(&mut self, t: &Ty, d: u32) -> Option<E> {
        // arrays of t among the variables, indexed dynamically or by loop index
        let mut cands = vec![];
        for v in self.visible() {
            if let Ty::Arr(inner, n) = &v.ty {
                if **inner == *t {
                    cands.push((var(&v.name), n.clone()));
                }
                if let Ty::Arr(inner2, m) = &**inner {
                    if **inner2 == *t {
                        let i = self.index(n, true);
                        cands.push((
                            E::Idx(Box::new(var(&v.name)), Box::new(i)),
                            m.clone(),
                        ));
                    }
                }
            }
        }
        if cands.is_empty() {
            // array literal indexed in place
            if self.s.chance(1, 4) && d >= 2 {
                let n = self.s.range(1, 3) as u32;
                let at = Ty::Arr(Box::new(t.clone()), Sz::Lit(n));
                let a = self.expr(&at, d - 1, false);
                let i = self.index(&Sz::Lit(n), true);
                // a literal array needs parentheses nowhere: `[..][i]` is a term with an access
                return Some(E::Idx(Box::new(a), Box::new(i)));
            }
            return None;
        }
        let (e, n) = self.s.pick(&cands).clone();
        let i = self.index(&n, true);
        Some(E::Idx(Box::new(e), Box::new(i)))
    }

    pub fn expr(&mut self, t: &Ty, d: u32, typed: bool) -> E {
        self.s.enter();
        let plain = !simple(t) as usize;
        self.plain += plain;
        let e = self.expr_in(t, d, typed);
        self.plain -= plain;
        self.s.exit();
        e
    }

    fn expr_in(&mut self, t: &Ty, d: u32, typed: bool) -> E {
        let slice_ok = std::mem::take(&mut self.slice_ok);
        self.spend(1);
        if d == 0 || self.budget <= 0 || !self.s.chance(7, 8) {
            return self.leaf(t, typed);
        }
        if self.s.chance(1, 25) {
            return E::Paren(self.b(t, d - 1, typed));
        }
        if self.s.chance(1, 7) {
            if let Some(e) = self.call(t, d) {
                return e;
            }
        }
        if self.s.chance(1, 8) {
            if let Some(e) = self.projection(t, d) {
                return e;
            }
        }
        if self.s.chance(1, 8) {
            return self.conditional(t, d, typed);
        }
        match t {
            Ty::Field => self.field_expr(d, typed),
            Ty::Bool => self.bool_expr(d),
            Ty::U(n) => self.uint_expr(*n, d, typed),
            Ty::Arr(inner, n) => {
                self.slice_ok = slice_ok;
                self.array_expr(inner, n, d, typed)
            }
            Ty::Tup(ts) => {
                if self.s.chance(1, 3) {
                    return self.leaf(t, typed);
                }
                E::TupLit(
                    ts.iter()
                        .map(|t| self.expr(t, d - 1, typed && t.is_prim()))
                        .collect(),
                )
            }
            Ty::Struct(n, g) => {
                if self.s.chance(1, 3) {
                    return self.leaf(t, typed);
                }
                self.features.insert("struct literal");
                self.plain += !g.is_empty() as usize;
                let mut fs: Vec<(String, E)> = self
                    .fields_of(n, g)
                    .into_iter()
                    .map(|(k, t)| {
                        let e = self.expr(&t, d - 1, typed);
                        (k, e)
                    })
                    .collect();
                self.plain -= !g.is_empty() as usize;
                if self.s.chance(1, 3) {
                    fs.reverse();
                }
                E::StructLit(n.clone(), fs)
            }
        }
    }

    fn field_expr(&mut self, d: u32, typed: bool) -> E {
        let t = Ty::Field;
        let divw = if self.cfg.div && !self.cfg.total { 2 } else { 0 };
        match self.s.weighted(&[6, 5, 6, divw, 2, 2]) {
            0 => E::Bin(Op::Add, self.b(&t, d - 1, typed), self.b(&t, d - 1, typed)),
            1 => E::Bin(Op::Sub, self.b(&t, d - 1, typed), self.b(&t, d - 1, typed)),
            2 => E::Bin(Op::Mul, self.b(&t, d - 1, typed), self.b(&t, d - 1, typed)),
            3 => {
                let a = self.b(&t, d - 1, typed);
                let b = self.b(&t, d - 1, typed);
                if self.s.chance(2, 3) {
                    // often a non-zero divisor
                    let b = E::Tern(
                        Box::new(bin(Op::Eq, (*b).clone(), lit(&t, 0))),
                        Box::new(lit(&t, 1)),
                        b,
                    );
                    return E::Bin(Op::Div, a, Box::new(b));
                }
                E::Bin(Op::Div, a, b)
            }
            4 => {
                let u = if self.s.chance(3, 4) { Un::Neg } else { Un::Pos };
                // of a literal is still a literal
                E::Un(u, self.b(&t, d - 1, typed))
            }
            _ => {
                let n = self.s.below(6) as u32;
                self.spend(n as i64);
                let n = if self.s.chance(1, 4) && !self.gens.is_empty() {
                    let g = self.gens.clone();
                    Sz::Name(self.s.pick(&g).clone())
                } else {
                    self.deco_sz(&Sz::Lit(n))
                };
                E::Pow(self.b(&t, d - 1, false), n)
            }
        }
    }

    fn bool_expr(&mut self, d: u32) -> E {
        let t = Ty::Bool;
        match self.s.weighted(&[5, 3, 3, 3, 4, 4]) {
            0 => {
                // equality of anything
                let u = if self.s.chance(1, 4) {
                    self.ty(1, true)
                } else {
                    self.prim()
                };
                let op = *self.s.pick(&[Op::Eq, Op::Ne]);
                let a = self.b(&u, d - 1, false);
                let lit_rhs = u.is_prim() && u != Ty::Bool && self.s.chance(1, 4);
                let b = if lit_rhs {
                    Box::new(self.literal(&u, true))
                } else {
                    self.b(&u, d - 1, false)
                };
                E::Bin(op, a, b)
            }
            1 => E::Bin(Op::And, self.b(&t, d - 1, true), self.b(&t, d - 1, true)),
            2 => E::Bin(Op::Or, self.b(&t, d - 1, true), self.b(&t, d - 1, true)),
            3 => E::Un(Un::Not, self.b(&t, d - 1, true)),
            4 => {
                let ws = self.cfg.widths.clone();
                let w = *self.s.pick(&ws);
                self.spend(2);
                self.compare(&Ty::U(w), d)
            }
            _ => {
                if !self.cfg.field_cmp || self.cfg.total {
                    return self.compare(&Ty::U(32), d);
                }
                self.spend(8);
                self.features.insert("field comparison");
                self.compare(&Ty::Field, d)
            }
        }
    }

    fn compare(&mut self, t: &Ty, d: u32) -> E {
        let op = *self.s.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge]);
        let mut a = self.b(t, d - 1, false);
        let mut b = if self.s.chance(1, 4) {
            Box::new(self.literal(t, true))
        } else {
            self.b(t, d - 1, false)
        };
        if self.s.chance(1, 4) {
            std::mem::swap(&mut a, &mut b);
        }
        // (two bare literals never meet: only one side is drawn as such)
        E::Bin(op, a, b)
    }

    fn uint_expr(&mut self, n: u32, d: u32, typed: bool) -> E {
        let t = Ty::U(n);
        let divw = if self.cfg.div { 2 } else { 0 };
        let k = self.s.weighted(&[6, 5, 5, divw, 3, 3, 4, 2, 1, 3, 3]);
        let op2 = |g: &mut Self, op| {
            let a = g.b(&t, d - 1, typed);
            let b = g.b(&t, d - 1, typed);
            E::Bin(op, a, b)
        };
        match k {
            0 => op2(self, Op::Add),
            1 => op2(self, Op::Sub),
            2 => {
                self.spend(2);
                op2(self, Op::Mul)
            }
            3 => {
                self.spend(10);
                self.features.insert("uint division");
                let op = *self.s.pick(&[Op::Div, Op::Rem]);
                // the remainder is not defined on two untyped literals
                let typed = typed && op == Op::Div;
                let a = self.b(&t, d - 1, typed);
                // mostly non-zero divisors
                let b = match self.s.weighted(&[
                    3,
                    if self.cfg.total { 0 } else { 2 },
                    if self.cfg.total { 3 } else { 2 },
                ]) {
                    0 => Box::new(lit(&t, self.s.uint(n).max(1))),
                    1 => self.b(&t, d - 1, typed),
                    _ => {
                        let e = self.b(&t, d - 1, false);
                        Box::new(E::Bin(Op::BOr, e, Box::new(lit(&t, 1))))
                    }
                };
                E::Bin(op, a, b)
            }
            4 => op2(self, Op::BAnd),
            5 => op2(self, Op::BOr),
            6 => op2(self, Op::Xor),
            7 => E::Un(Un::Not, self.b(&t, d - 1, false)),
            8 => E::Un(Un::Neg, self.b(&t, d - 1, false)),
            k => {
                let s = match self.s.below(4) {
                    0 => self.s.below(n as u64 + 3) as u32,
                    1 => n,
                    _ => self.s.below(n as u64) as u32,
                };
                let a = self.b(&t, d - 1, false);
                let s = self.deco_sz(&Sz::Lit(s));
                if k == 9 {
                    E::Shl(a, s)
                } else {
                    E::Shr(a, s)
                }
            }
        }
    }

    fn array_expr(&mut self, inner: &Ty, n: &Sz, d: u32, typed: bool) -> E {
        let typed = typed && inner.is_prim();
        let k = match n {
            Sz::Lit(k) => *k,
            n => {
                if self.s.bool() {
                    return self.leaf(&Ty::Arr(Box::new(inner.clone()), n.clone()), typed);
                }
                let e = self.b(inner, d - 1, typed);
                return E::ArrRep(e, n.clone());
            }
        };
        let slice = if std::mem::take(&mut self.slice_ok) { 3 } else { 0 };
        let plain = matches!(inner, Ty::Arr(..)) as usize;
        self.plain += plain;
        let e = self.array_expr_in(inner, n, k, d, typed, slice);
        self.plain -= plain;
        e
    }

    fn array_expr_in(&mut self, inner: &Ty, n: &Sz, k: u32, d: u32, typed: bool, slice: u64) -> E {
        let (rep, spread) = if self.in_const { (0, 0) } else { (2, 2) };
        match self.s.weighted(&[5, rep, 2, if self.in_const || self.plain > 0 { 0 } else { slice }, if self.plain > 0 { 0 } else { spread }]) {
            0 => E::ArrLit(
                (0..k)
                    .map(|_| Elem::One(self.expr(inner, d - 1, typed)))
                    .collect(),
            ),
            1 => {
                let e = self.b(inner, d - 1, typed);
                let n = self.deco_sz(n);
                E::ArrRep(e, n)
            }
            2 => self.leaf(&Ty::Arr(Box::new(inner.clone()), n.clone()), typed),
            3 => {
                // slice of a bigger array
                self.features.insert("slice");
                let extra = self.s.below(3) as u32;
                let from = self.s.below(extra as u64 + 1) as u32;
                let big = Ty::Arr(Box::new(inner.clone()), Sz::Lit(k + extra));
                self.plain += 1;
                let e = self.b(&big, d - 1, false);
                self.plain -= 1;
                let a = if from == 0 && self.s.bool() {
                    None
                } else {
                    Some(self.deco_sz(&Sz::Lit(from)))
                };
                let b = if from + k == k + extra && self.s.bool() {
                    None
                } else {
                    Some(self.deco_sz(&Sz::Lit(from + k)))
                };
                E::Slice(e, a, b)
            }
            _ => {
                // spread of a smaller array
                if k < 2 {
                    return self.leaf(&Ty::Arr(Box::new(inner.clone()), n.clone()), typed);
                }
                self.features.insert("spread");
                let m = self.s.range(1, k as u64) as u32;
                let at = self.s.below((k - m) as u64 + 1) as u32;
                let small = Ty::Arr(Box::new(inner.clone()), Sz::Lit(m));
                let mut out = vec![];
                for i in 0..k {
                    if i == at {
                        self.slice_ok = true;
                        out.push(Elem::Spread(self.expr(&small, d - 1, false)));
                    } else if i < at || i >= at + m {
                        out.push(Elem::One(self.expr(inner, d - 1, typed)));
                    }
                }
                E::ArrLit(out)
            }
        }
    }
}

/// types whose sizes may be written in several ways in one program
fn simple(t: &Ty) -> bool {
    t.is_prim() || matches!(t, Ty::Arr(inner, _) if inner.is_prim())
}

fn names(t: &Ty, out: &mut BTreeSet<String>) {
    match t {
        Ty::Arr(t, n) => {
            if let Sz::Name(n) = n {
                out.insert(n.clone());
            }
            names(t, out)
        }
        Ty::Tup(ts) => ts.iter().for_each(|t| names(t, out)),
        Ty::Struct(_, g) => g.iter().for_each(|g| {
            if let Sz::Name(n) = g {
                out.insert(n.clone());
            }
        }),
        _ => {}
    }
}

fn unify(pat: &Ty, t: &Ty, generics: &[String], m: &mut BTreeMap<String, Sz>) -> bool {
    fn sz(p: &Sz, s: &Sz, generics: &[String], m: &mut BTreeMap<String, Sz>) -> bool {
        match p {
            Sz::Name(n) if generics.contains(n) => match m.get(n) {
                Some(x) => x == s,
                None => {
                    m.insert(n.clone(), s.clone());
                    true
                }
            },
            p => p == s,
        }
    }
    match (pat, t) {
        (Ty::Arr(a, n), Ty::Arr(b, k)) => sz(n, k, generics, m) && unify(a, b, generics, m),
        (Ty::Tup(a), Ty::Tup(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| unify(a, b, generics, m))
        }
        (Ty::Struct(a, g), Ty::Struct(b, h)) => {
            a == b && g.iter().zip(h).all(|(a, b)| sz(a, b, generics, m))
        }
        (a, b) => a == b,
    }
}
