//! C14: the compiler accepts well-typed programs only: one statement or definition which breaks a rule of the
//! language is put into a valid program.
use num_bigint::BigUint;
use pbt::lang::ast::*;
use pbt::lang::gen::{const_env, generate, unalias, Cfg};
use pbt::lang::print;
use pbt::{fail, panic_sig, Check, Info, Res, Src};
use zk::CErrKind;

const HOLE: &str = "@hole";

#[derive(Clone)]
struct Var {
    name: String,
    ty: Ty,
    mutable: bool,
}

struct Ctx<'a> {
    prog: &'a Program,
    env: Vec<Var>,
    /// functions which can be called here
    funs: Vec<&'a Fun>,
    /// in a loop
    nested: bool,
    fun: &'a Fun,
}

impl Ctx<'_> {
    /// a parameter hidden by a variable of the same name
    fn shadowed(&self, name: &str) -> bool {
        fn any(b: &[S], n: &str) -> bool {
            b.iter().any(|st| match st {
                S::Def { name, .. } => name == n,
                S::For { idx, body, .. } => idx == n || any(body, n),
                _ => false,
            })
        }
        any(&self.fun.body, name)
    }
}

/// positions of a body: the marker is put before a statement, and what is in scope there is collected
fn plant(s: &mut Src, body: &mut Vec<S>, env: &mut Vec<Var>, nested: &mut bool) {
    let last = matches!(body.last(), Some(S::Return(_)));
    let n = body.len() - if last { 1 } else { 0 };
    let at = s.urange(0, n);
    for st in &body[..at] {
        if let S::Def { ty, mutable, name, .. } = st {
            env.retain(|v| v.name != *name);
            env.push(Var { name: name.clone(), ty: ty.clone(), mutable: *mutable });
        }
    }
    if at < body.len() {
        if let S::For { idx, body: b, .. } = &mut body[at] {
            if s.bool() {
                env.push(Var { name: idx.clone(), ty: Ty::U(32), mutable: false });
                *nested = true;
                return plant(s, b, env, nested);
            }
        }
    }
    body.insert(at, S::Log(HOLE.into(), vec![]));
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Field,
    Bool,
    U(u32),
    Arr,
    Tup,
    Struct,
}

impl<'a> Ctx<'a> {
    fn head(&self, t: &Ty) -> K {
        match unalias(self.prog, t) {
            Ty::Field => K::Field,
            Ty::Bool => K::Bool,
            Ty::U(n) => K::U(n),
            Ty::Arr(..) => K::Arr,
            Ty::Tup(_) => K::Tup,
            Ty::Struct(..) => K::Struct,
        }
    }
    fn vars(&self, f: impl Fn(&Var) -> bool) -> Vec<&Var> {
        self.env.iter().filter(|v| f(v)).collect()
    }
    /// an expression of this kind
    fn e(&self, s: &mut Src, k: K) -> String {
        let vs = self.vars(|v| self.head(&v.ty) == k);
        if !vs.is_empty() && s.chance(2, 3) {
            return s.pick(&vs).name.clone();
        }
        match k {
            K::Field => format!("{}f", s.below(9)),
            K::Bool => ["true", "false"][s.idx(2)].into(),
            K::U(n) => format!("{}u{}", s.below(9), n),
            K::Arr => ["[1f, 2f, 3f]", "[true; 2]", "[[0u8; 2]; 2]"][s.idx(3)].into(),
            K::Tup => ["(1f, true)", "(0u32,)", "()"][s.idx(3)].into(),
            K::Struct => {
                let plain: Vec<_> = self.prog.structs.iter().filter(|d| d.fields.is_empty() && d.generics.is_empty()).collect();
                match plain.first() {
                    Some(d) => format!("{} {{ }}", d.name),
                    None => match vs.first() {
                        Some(v) => v.name.clone(),
                        None => "(0f, 0f)".into(),
                    },
                }
            }
        }
    }
    fn prim(&self, s: &mut Src) -> K {
        *s.pick(&[K::Field, K::Bool, K::U(8), K::U(16), K::U(32), K::U(64)])
    }
    /// not a struct
    fn kind(&self, s: &mut Src) -> K {
        *s.pick(&[K::Field, K::Bool, K::U(8), K::U(16), K::U(32), K::U(64), K::Arr, K::Tup])
    }
    fn other(&self, s: &mut Src, k: K) -> K {
        let all = [K::Field, K::Bool, K::U(8), K::U(16), K::U(32), K::U(64), K::Arr, K::Tup];
        let others: Vec<K> = all.into_iter().filter(|o| *o != k).collect();
        *s.pick(&others)
    }
    fn ty(&self, k: K) -> &'static str {
        match k {
            K::Field => "field",
            K::Bool => "bool",
            K::U(8) => "u8",
            K::U(16) => "u16",
            K::U(32) => "u32",
            K::U(_) => "u64",
            K::Arr => "field[3]",
            K::Tup => "(field, bool)",
            K::Struct => "field",
        }
    }
}

/// a statement which breaks a rule; None if there is nothing in scope to break it with
fn broken(s: &mut Src, c: &Ctx) -> Option<(&'static str, String)> {
    let num = |s: &mut Src| *s.pick(&[K::Field, K::U(8), K::U(16), K::U(32), K::U(64)]);
    let uint = |s: &mut Src| *s.pick(&[K::U(8), K::U(16), K::U(32), K::U(64)]);
    let pickv = |s: &mut Src, f: &dyn Fn(&Var) -> bool| -> Option<Var> {
        let v = c.vars(|v| f(v));
        if v.is_empty() {
            None
        } else {
            Some((*s.pick(&v)).clone())
        }
    };
    Some(match s.below(62) {
        0 | 1 => {
            let k = c.prim(s);
            let o = c.other(s, k);
            ("definition with a value of another type", format!("{} x_ = {};", c.ty(k), c.e(s, o)))
        }
        2 => {
            let v = pickv(s, &|v| c.head(&v.ty) != K::Struct)?;
            let o = c.other(s, c.head(&v.ty));
            ("definition of a variable's type with a value of another type", format!("{} x_ = {};", print::ty(&v.ty), c.e(s, o)))
        }
        3 | 4 => {
            let v = pickv(s, &|v| !v.mutable)?;
            ("assignment to an immutable variable", format!("{0} = {0};", v.name))
        }
        5 => {
            let v = pickv(s, &|v| v.mutable && c.head(&v.ty) != K::Struct)?;
            let o = c.other(s, c.head(&v.ty));
            ("assignment of a value of another type", format!("{} = {};", v.name, c.e(s, o)))
        }
        6 => {
            let k = c.prim(s);
            ("use of an undefined variable", format!("{} x_ = {};", c.ty(k), ["y_", "-y_", "y_[0]", "y_.m", "[y_, y_][0]", "{ y_ }"][s.idx(5)]))
        }
        7 => ("assignment to an undefined variable", format!("y_ = {};", { let k = c.kind(s); c.e(s, k) })),
        8 | 9 => {
            let k = num(s);
            let o = c.other(s, k);
            let op = *s.pick(&["+", "-", "*", "/"]);
            let (a, b) = (c.e(s, k), c.e(s, o));
            let (a, b) = if s.bool() { (a, b) } else { (b, a) };
            ("arithmetic on different types", format!("{} x_ = {a} {op} {b};", c.ty(k)))
        }
        10 => {
            let k = *s.pick(&[K::Bool, K::Arr, K::Tup]);
            let op = *s.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<", ">="]);
            ("operator on a type without it", format!("{} x_ = {} {op} {};", c.ty(k), c.e(s, k), c.e(s, k)))
        }
        11 => {
            // the others are evaluated on constants
            let v: Vec<_> = c.fun.params.iter().filter(|p| p.ty == Ty::Field && !p.mutable && !c.shadowed(&p.name)).collect();
            let op = *s.pick(&["%", "&", "|", "^"]);
            if op != "%" && (c.fun.name != "main" || c.nested || v.len() < 2) {
                return None;
            }
            ("field operand of a uint operator", if op == "%" {
                format!("field x_ = {} {op} {};", c.e(s, K::Field), c.e(s, K::Field))
            } else {
                format!("field x_ = {} {op} {};", v[0].name, v[1].name)
            })
        }
        12 => {
            let k = num(s);
            let op = *s.pick(&["&&", "||"]);
            ("boolean operator on numbers", format!("bool x_ = {} {op} {};", c.e(s, k), c.e(s, k)))
        }
        13 => {
            let k = num(s);
            ("comparison of different types", {
                let o = c.other(s, k);
                let op = *s.pick(&["==", "!=", "<", "<=", ">", ">="]);
                format!("bool x_ = {} {op} {};", c.e(s, k), c.e(s, o))
            })
        }
        14 => {
            let k = c.prim(s);
            let r = if k == K::Bool { K::Field } else { k };
            ("comparison taken for its operand's type", format!("{} x_ = {} == {};", c.ty(r), c.e(s, k), c.e(s, k)))
        }
        15 => ("unary operator on a wrong type", match s.below(4) {
            0 => format!("field x_ = !{};", c.e(s, K::Field)),
            1 => format!("bool x_ = -{};", c.e(s, K::Bool)),
            2 => format!("bool x_ = !{};", { let k = num(s); c.e(s, k) }),
            _ => format!("field[3] x_ = -{};", c.e(s, K::Arr)),
        }),
        16 => {
            let k = c.other(s, K::Bool);
            ("assertion of something which is not a bool", format!("assert({});", c.e(s, k)))
        }
        17 => {
            let k = c.other(s, K::Bool);
            let r = c.prim(s);
            let (a, b) = (c.e(s, r), c.e(s, r));
            ("condition which is not a bool", if s.bool() {
                format!("{} x_ = {} ? {a} : {b};", c.ty(r), c.e(s, k))
            } else {
                format!("{} x_ = if {} {{ {a} }} else {{ {b} }};", c.ty(r), c.e(s, k))
            })
        }
        18 => {
            let k = c.prim(s);
            let o = c.other(s, k);
            let (a, b) = (c.e(s, k), c.e(s, o));
            let (a, b) = if s.bool() { (a, b) } else { (b, a) };
            ("branches of different types", if s.bool() {
                format!("{} x_ = {} ? {a} : {b};", c.ty(k), c.e(s, K::Bool))
            } else {
                format!("{} x_ = if {} {{ {a} }} else {{ {b} }};", c.ty(k), c.e(s, K::Bool))
            })
        }
        19 => {
            let k = c.prim(s);
            let o = c.other(s, k);
            let mut v = vec![c.e(s, k), c.e(s, k), c.e(s, o)];
            let j = s.idx(3);
            v.swap(2, j);
            ("array of different types", format!("{}[3] x_ = [{}];", c.ty(k), v.join(", ")))
        }
        20 => {
            let k = c.prim(s);
            let n = s.below(5);
            let m = (n + 1 + s.below(3)) % 6;
            let e: Vec<_> = (0..m).map(|_| c.e(s, k)).collect();
            // sizes are known once a function is called
            if m == 0 || c.fun.name != "main" || c.nested {
                return None;
            }
            ("array of another size", if s.bool() {
                format!("{}[{n}] x_ = [{}];", c.ty(k), e.join(", "))
            } else {
                format!("{}[{n}] x_ = [{}; {m}];", c.ty(k), e[0])
            })
        }
        21 => {
            let (n, v) = *s.pick(&[(8u32, 256u128), (16, 65536), (32, 1 << 32), (64, 1 << 64), (8, 1000), (32, 1 << 40), (8, 0x1ff)]);
            ("literal which does not fit", match s.below(3) {
                0 => format!("u{n} x_ = {v};"),
                1 => format!("u{n} x_ = {v}u{n};"),
                _ => format!("u{n} x_ = 1u{n} + {v};"),
            })
        }
        22 => {
            let f: BigUint = zk::bn_p() + s.below(3);
            ("field literal which does not fit", format!("field x_ = {f}{};", ["", "f"][s.idx(2)]))
        }
        23 => {
            let (n, m) = *s.pick(&[(8, 4), (8, 8), (8, 16), (16, 2), (32, 16), (64, 2), (16, 8)]);
            let n2 = if m == n / 4 { n * 2 } else { n };
            ("hexadecimal literal of another width", format!("u{n2} x_ = 0x{};", "1".repeat(m)))
        }
        24 => {
            let k = c.kind(s);
            let k = if k == K::Arr { K::Field } else { k };
            ("index into something which is not an array", format!("field x_ = {}[0];", c.e(s, k)))
        }
        25 => {
            let o = c.other(s, K::U(32));
            ("index which is not a u32", format!("field[3] y_ = [1f, 2f, 3f];\nfield x_ = y_[{}];", c.e(s, o)))
        }
        26 => {
            let v = pickv(s, &|v| c.head(&v.ty) != K::Struct)?;
            ("member of something which is not a struct", format!("field x_ = {}.zz;", v.name))
        }
        27 => {
            let v = pickv(s, &|v| c.head(&v.ty) == K::Struct)?;
            ("member which does not exist", format!("field x_ = {}.zz;", v.name))
        }
        28 => {
            let v = pickv(s, &|v| matches!(unalias(c.prog, &v.ty), Ty::Tup(_)))?;
            let Ty::Tup(t) = unalias(c.prog, &v.ty) else { return None };
            ("tuple element which does not exist", format!("field x_ = {}.{};", v.name, t.len() + s.idx(3)))
        }
        29 | 30 => {
            let f = *s.pick(&c.funs.iter().filter(|f| c.funs.iter().filter(|g| g.name == f.name).count() == 1).collect::<Vec<_>>().get(0..).filter(|v| !v.is_empty())?);
            let mut args: Vec<String> = vec![];
            for p in &f.params {
                let k = c.head(&p.ty);
                args.push(c.e(s, k));
            }
            // without generic parameters and structs, the arguments are right before they are broken
            if !f.generics.is_empty() || f.params.iter().any(|p| matches!(c.head(&p.ty), K::Struct | K::Arr | K::Tup)) {
                if s.bool() || f.params.is_empty() {
                    args.push("0f".into());
                    args.push("0f".into());
                } else {
                    args.pop();
                }
            } else {
                match s.below(3) {
                    0 => args.push("0f".into()),
                    1 if !args.is_empty() => {
                        args.pop();
                    }
                    _ if !args.is_empty() => {
                        let j = s.idx(args.len());
                        let o = c.other(s, c.head(&f.params[j].ty));
                        args[j] = c.e(s, o);
                    }
                    _ => args.push("true".into()),
                }
            }
            ("call with wrong arguments", format!("{} x_ = {}({});", print::ty(&f.ret.clone()).replace("()", "field"), f.name, args.join(", ")))
        }
        31 => {
            let f = *s.pick(&c.funs.iter().filter(|f| f.generics.is_empty() && c.funs.iter().filter(|g| g.name == f.name).count() == 1 && c.head(&f.ret) != K::Struct && f.params.iter().all(|p| p.ty.is_prim())).collect::<Vec<_>>().get(0..).filter(|v| !v.is_empty())?);
            let o = c.other(s, c.head(&f.ret));
            let mut args = vec![];
            for p in &f.params {
                let k = c.head(&p.ty);
                args.push(c.e(s, k));
            }
            ("call taken for another type", format!("{} x_ = {}({});", c.ty(o), f.name, args.join(", ")))
        }
        32 => ("call of an undefined function", format!("field x_ = nof_({});", { let k = c.kind(s); c.e(s, k) })),
        33 => {
            // functions are only visible after their definition
            ("call of itself", format!("field x_ = {}({});", c.fun.name, c.fun.params.iter().map(|p| p.name.clone()).collect::<Vec<_>>().join(", ")))
        }
        34 => {
            let f = *s.pick(&c.funs.iter().filter(|f| c.funs.iter().filter(|g| g.name == f.name).count() == 1).collect::<Vec<_>>().get(0..).filter(|v| !v.is_empty())?);
            let args: Vec<_> = f.params.iter().map(|p| { let k = c.head(&p.ty); c.e(s, k) }).collect();
            let g: Vec<_> = (0..f.generics.len() + 1).map(|_| "1").collect();
            ("call with too many generic arguments", format!("{} x_ = {}::<{}>({});", print::ty(&f.ret).replace("()", "field"), f.name, g.join(", "), args.join(", ")))
        }
        35 => ("undefined type", format!("Not_ x_ = {};", { let k = c.kind(s); c.e(s, k) })),
        36 => {
            let d = *s.pick(&c.prog.structs.iter().collect::<Vec<_>>().get(0..).filter(|v| !v.is_empty())?);
            let g = d.generics.len() + 1 + s.idx(2);
            let g = if d.generics.len() > 1 && s.bool() { d.generics.len() - 1 } else { g };
            let v = pickv(s, &|v| matches!(unalias(c.prog, &v.ty), Ty::Struct(n, _) if n == d.name));
            ("wrong number of generic arguments of a type", format!("{}<{}> x_ = {};", d.name, vec!["1"; g].join(", "), v.map(|v| v.name).unwrap_or("0f".into())))
        }
        37 => {
            let d = *s.pick(&c.prog.structs.iter().filter(|d| d.generics.is_empty() && !d.fields.is_empty()).collect::<Vec<_>>().get(0..).filter(|v| !v.is_empty())?);
            let mut fs: Vec<(String, String)> = d.fields.iter().map(|(n, t)| { let k = c.head(t); (n.clone(), c.e(s, k)) }).collect();
            let l = match s.below(5) {
                0 => {
                    fs.pop();
                    "struct without one of its members"
                }
                1 => {
                    fs.push(("zz".into(), "0f".into()));
                    "struct with one member too many"
                }
                2 => {
                    let f = fs[0].clone();
                    fs.push(f);
                    "struct with a member twice"
                }
                3 => {
                    let j = s.idx(fs.len());
                    let k = c.head(&d.fields[j].1);
                    if k == K::Struct {
                        return None;
                    }
                    let o = c.other(s, k);
                    fs[j].1 = c.e(s, o);
                    "struct with a member of another type"
                }
                _ => {
                    let j = s.idx(fs.len());
                    fs[j].0 = "zz".into();
                    "struct with another member"
                }
            };
            (l, format!("{} x_ = {} {{ {} }};", d.name, d.name, fs.iter().map(|(n, e)| format!("{n}: {e}")).collect::<Vec<_>>().join(", ")))
        }
        38 => {
            let o = c.other(s, K::U(32));
            if s.bool() {
                ("loop index which is not a u32", format!("for {} x_ in 0..1 {{ }}", if o == K::Tup || o == K::Arr { "field" } else { c.ty(o) }))
            } else {
                ("loop bound which is not a u32", format!("for u32 x_ in 0..{} {{ }}", c.e(s, o)))
            }
        }
        39 => {
            let k = c.prim(s);
            ("variable used outside of its loop", format!("for u32 y_ in 0..{} {{ {} z_ = {}; }}\n{} x_ = {};", s.below(3), c.ty(k), c.e(s, k),
                if s.bool() { "u32" } else { c.ty(k) }, if s.bool() { "y_" } else { "z_" }))
        }
        40 => {
            let v = pickv(s, &|v| c.head(&v.ty) == K::U(32) && c.fun.params.iter().any(|p| p.name == v.name) && c.fun.name == "main" && !c.nested && !v.mutable && !c.shadowed(&v.name))?;
            ("size which is not a constant", match s.below(5) {
                0 => format!("field[{0}] x_ = [0f; {0}];", v.name),
                1 => format!("for u32 x_ in 0..{} {{ }}", v.name),
                2 => format!("u32 x_ = 1u32 << {};", v.name),
                3 => format!("field x_ = 2f ** {};", v.name),
                _ => format!("field[2] y_ = [1f, 2f];\nfield[2] x_ = y_[0..{}];", v.name),
            })
        }
        41 => {
            let k = num(s);
            if k == K::Field {
                ("power with an exponent which is not a u32", { let o = c.other(s, K::U(32)); format!("field x_ = 2f ** ({});", c.e(s, o)) })
            } else {
                ("power of something which is not a field", format!("{} x_ = {} ** 2;", c.ty(k), c.e(s, k)))
            }
        }
        42 => {
            let k = uint(s);
            let o = c.other(s, K::U(32));
            ("shift by something which is not a u32", format!("{} x_ = {} {} {};", c.ty(k), c.e(s, k), ["<<", ">>"][s.idx(2)], c.e(s, o)))
        }
        43 => {
            let o = c.other(s, c.head(&c.fun.ret));
            if c.nested || c.head(&c.fun.ret) == K::Struct {
                return None;
            }
            ("return of another type", format!("return {};", c.e(s, o)))
        }
        44 => {
            let k = c.prim(s);
            let o = c.other(s, k);
            ("tuple with an element of another type", format!("({}, {}) x_ = ({}, {});", c.ty(k), c.ty(k), c.e(s, k), c.e(s, o)))
        }
        45 => ("tuple of another length", match s.below(3) {
            0 => "(field, field) x_ = (1f, 2f, 3f);".into(),
            1 => "(field,) x_ = (1f, 2f);".into(),
            _ => "(field, bool) x_ = (1f,);".into(),
        }),
        46 => {
            let k = c.other(s, K::Arr);
            ("spread or slice of something which is not an array", if s.bool() {
                format!("field[1] x_ = [...{}];", c.e(s, k))
            } else {
                format!("field[1] x_ = {}[0..1];", c.e(s, k))
            })
        }
        48 => {
            let o = c.other(s, K::U(32));
            ("lower loop bound which is not a u32", format!("for u32 x_ in {}..9 {{ }}", c.e(s, o)))
        }
        49 => {
            let o = c.other(s, K::U(32));
            ("bound of a slice which is not a u32", if s.bool() {
                format!("field[3] y_ = [1f, 2f, 3f];\nfield[2] x_ = y_[{}..2];", c.e(s, o))
            } else {
                format!("field[3] y_ = [1f, 2f, 3f];\nfield[2] x_ = y_[0..{}];", c.e(s, o))
            })
        }
        50 => {
            let o = c.other(s, K::U(32));
            ("assignment at an index which is not a u32", if s.bool() {
                format!("field[3] mut y_ = [1f, 2f, 3f];\ny_[{}] = 4f;", c.e(s, o))
            } else {
                format!("(bool, field[3]) mut y_ = (true, [1f, 2f, 3f]);\ny_.1[{}] = 4f;", c.e(s, o))
            })
        }
        51 => {
            let arr = pickv(s, &|v| !v.mutable && c.head(&v.ty) == K::Arr);
            let st = pickv(s, &|v| !v.mutable && c.head(&v.ty) == K::Struct);
            ("assignment to a part of an immutable variable", match (s.below(5), arr, st) {
                (0, ..) => "for u32 x_ in 0..2 { x_ = 1; }".into(),
                (1, ..) => "field[3] y_ = [1f, 2f, 3f];\ny_[0] = 4f;".into(),
                (2, ..) => "(field, bool[2]) y_ = (1f, [true, false]);\ny_.1[0] = true;".into(),
                (3, Some(v), _) => format!("{0}[0] = {0}[0];", v.name),
                (_, _, Some(v)) => {
                    let Ty::Struct(n, _) = unalias(c.prog, &v.ty) else { return None };
                    let d = c.prog.structs.iter().find(|d| d.name == n)?;
                    if d.fields.is_empty() {
                        return None;
                    }
                    let k = s.idx(d.fields.len());
                    format!("{0}.{1} = {0}.{1};", v.name, d.fields[k].0)
                }
                (_, Some(v), _) => format!("{0}[0] = {0}[0];", v.name),
                _ => return None,
            })
        }
        52 => {
            let o = c.other(s, K::Field);
            ("assignment of a value of another type to a part of a variable", match s.below(4) {
                0 => format!("field[3] mut y_ = [1f, 2f, 3f];\ny_[1] = {};", c.e(s, o)),
                1 => format!("(field, bool) mut y_ = (1f, true);\ny_.0 = {};", c.e(s, o)),
                2 => format!("field[2][2] mut y_ = [[1f, 2f], [3f, 4f]];\ny_[1][0] = {};", c.e(s, o)),
                _ => "field[2][2] mut y_ = [[1f, 2f], [3f, 4f]];\ny_[1] = 2f;".into(),
            })
        }
        53 => ("assignment to a part which does not exist", match s.below(5) {
            0 => "(field, bool) mut y_ = (1f, true);\ny_.2 = 1f;".into(),
            1 => "field[2] mut y_ = [1f, 2f];\ny_.0 = 1f;".into(),
            2 => "(field, field) mut y_ = (1f, 2f);\ny_[0] = 1f;".into(),
            3 => "field mut y_ = 1f;\ny_.zz = 1f;".into(),
            _ => "field[2] mut y_ = [1f, 2f];\ny_[0][0] = 1f;".into(),
        }),
        54 => ("assignment to a slice", format!("field[3] mut y_ = [1f, 2f, 3f];\ny_[{}] = [1f];", ["0..1", "..1", "2..", ".."][s.idx(4)])),
        55 => {
            let k = c.head(&c.fun.ret);
            if matches!(k, K::Arr | K::Tup | K::Struct) {
                return None;
            }
            ("return in a loop", format!("for u32 x_ in 0..1 {{ return {}; }}", c.e(s, k)))
        }
        56 => ("comparison of types without it", match s.below(6) {
            0 => format!("bool x_ = {} {} {};", c.e(s, K::Bool), ["<", "<=", ">", ">="][s.idx(4)], c.e(s, K::Bool)),
            1 => "bool x_ = [1f, 2f] < [1f, 3f];".into(),
            2 => "bool x_ = (1f, true) == (1f, 1f);".into(),
            3 => "bool x_ = [1f, 2f] == [1u8, 2u8];".into(),
            4 => "bool x_ = (1f, 2f) >= (1f, 3f);".into(),
            _ => "bool x_ = [1f, 2f] == (1f, 2f);".into(),
        }),
        57 => {
            let (k, l) = (c.prim(s), c.prim(s));
            ("log with another number of values", match s.below(3) {
                0 => format!("log(\"{{}} {{}}\", {});", c.e(s, k)),
                1 => format!("log(\"a\", {});", c.e(s, k)),
                _ => format!("log(\"{{}}\", {}, {});", c.e(s, k), c.e(s, l)),
            })
        }
        58 => ("assembly on a variable which cannot be assigned", match s.below(5) {
            0 => "bool mut y_ = true;\nasm { y_ <-- 1; }".into(),
            1 => "field y_ = 1;\nasm { y_ <-- 1; }".into(),
            2 => "field y_ = 1;\nasm { y_ <== 1; }".into(),
            3 => "asm { y_ <-- 1; }".into(),
            _ => "field[2] mut y_ = [1f, 2f];\nasm { y_ <== 1; }".into(),
        }),
        59 => {
            let o = c.other(s, K::U(32));
            ("number of repetitions which is not a u32", format!("field[2] x_ = [0f; {}];", c.e(s, o)))
        }
        60 => {
            let k = c.prim(s);
            ("condition or assertion with another operator", match s.below(3) {
                0 => format!("assert({} == ());", c.e(s, k)),
                1 => "assert(1f < true);".into(),
                _ => format!("assert(!{});", if k == K::Bool { "1u8".into() } else { c.e(s, k) }),
            })
        }
        _ => {
            let k = c.prim(s);
            if k == K::Field {
                return None;
            }
            ("field assembly on another type", format!("asm {{ {} === {}; }}", c.e(s, k), c.e(s, k)))
        }
    })
}

fn reject(i: &mut Info, what: &str, src: &str) -> Res {
    i.sample(src);
    i.label(what);
    match zk::compile(src) {
        Ok(_) => fail(format!("accepted: {what}"), format!("accepted: {what}")),
        Err(e) if e.kind == CErrKind::Panic => fail(format!("{}: {what}", panic_sig(&e.msg)), format!("{what}: {}", e.msg)),
        Err(e) => {
            i.label(format!("{:?}", e.kind));
            i.interesting(src);
            Ok(())
        }
    }
}

fn statements(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let (case, _) = generate(s, cfg, &zk::bn_p());
    let prog = case.prog;
    let mut changed = prog.clone();
    s.enter();
    // functions which are not called are checked, too
    let f = if s.bool() { prog.funs.len() - 1 } else { s.idx(prog.funs.len()) };
    let mut c = Ctx {
        prog: &prog,
        env: prog.consts.iter().map(|c| Var { name: c.name.clone(), ty: c.ty.clone(), mutable: false }).collect(),
        funs: prog.funs[..f].iter().collect(),
        nested: false,
        fun: &prog.funs[f],
    };
    for p in &c.fun.params {
        c.env.push(Var { name: p.name.clone(), ty: p.ty.clone(), mutable: p.mutable });
    }
    plant(s, &mut changed.funs[f].body, &mut c.env, &mut c.nested);
    let b = broken(s, &c);
    s.exit();
    let Some((what, text)) = b else {
        i.label("nothing to break");
        return Ok(());
    };
    let hole = format!("log(\"{HOLE}\", );");
    let src = print::program(&changed).replace(&hole, &text);
    // the rest of the program is valid: control
    if zk::compile(&print::program(&prog)).is_err() {
        i.label("rejected anyway");
        return Ok(());
    }
    reject(i, what, &src)
}

/// definitions
fn definitions(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let (case, _) = generate(s, cfg, &zk::bn_p());
    let prog = case.prog;
    let src = print::program(&prog);
    if zk::compile(&src).is_err() {
        i.label("rejected anyway");
        return Ok(());
    }
    let env = const_env(&prog);
    let m = prog.main();
    s.enter();
    let names: Vec<&str> = prog.consts.iter().map(|c| c.name.as_str()).chain(prog.structs.iter().map(|c| c.name.as_str())).chain(prog.aliases.iter().map(|c| c.name.as_str())).collect();
    let taken = if names.is_empty() { None } else { Some(*s.pick(&names)) };
    let funs: Vec<&Fun> = prog.funs.iter().collect();
    let f = *s.pick(&funs);
    let before = |t: &str| format!("{t}\n{src}");
    let after = |t: &str| format!("{src}\n{t}");
    let r: Option<(&str, String)> = match s.below(20) {
        0 => taken.map(|n| ("constant whose name is taken", after(&format!("const field {n} = 1;")))),
        1 => taken.map(|n| ("struct whose name is taken", after(&format!("struct {n} {{ field a; }}")))),
        2 => taken.map(|n| ("type alias whose name is taken", after(&format!("type {n} = field;")))),
        3 => taken.map(|n| ("function whose name is taken", after(&format!("def {n}() -> field {{ return 1; }}")))),
        4 => Some(("function twice", {
            let mut g = f.clone();
            g.body = vec![S::Assert(E::Bool(true), None)];
            let mut t = print::fun(f);
            if f.name == "main" {
                t = t.replace("private ", "").replace("public ", "");
            }
            after(&t)
        })),
        5 => Some(("second main function", after("def main(field z_, bool y_) -> bool { return y_; }"))),
        6 => Some(("no main function", {
            let mut p = prog.clone();
            let k = p.funs.len() - 1;
            p.funs[k].name = "main_".into();
            print::program(&p).replace("private ", "").replace("public ", "")
        })),
        7 => Some(("struct with a member twice", after("struct Z_ { field a; bool b; field a; }"))),
        8 => Some(("struct which contains itself", after("struct Z_ { field a; Z_ b; }"))),
        9 => Some(("type which is defined later", before("struct Z_ { Y_ b; }\nstruct Y_ { field a; }"))),
        10 => Some(("constant with a value of another type", after(*s.pick(&["const field Z_ = true;", "const bool Z_ = 1f;", "const u8 Z_ = 1u16;", "const u8 Z_ = 256;", "const field[2] Z_ = [1];", "const u8 Z_ = 1 + 1f;"])))),
        11 => Some(("constant defined by itself or by later ones", after(*s.pick(&["const u32 Z_ = Z_ + 1;", "const u32 Z_ = Y_;\nconst u32 Y_ = 1;"])))),
        12 => Some(("generic parameter which is not used or declared", after(*s.pick(&["struct Z_ { field[M_] a; }", "def z_(field[M_] a) -> field { return a[0]; }", "type Z_ = field[M_];"])))),
        13 => Some(("two parameters of the same name", {
            after("def z_(field a, bool a) -> field { return 1; }")
        })),
        14 => Some(("visibility of a parameter of another function", after(&format!("def z_({} field a) -> field {{ return a; }}", ["public", "private"][s.idx(2)])))),
        15 => Some(("function without return", after(*s.pick(&["def z_() -> field { }", "def z_(field a) -> bool { field b = a; }", "def z_(field a) -> field { return; }", "def z_() -> bool { for u32 i in 0..2 { return true; } }", "def z_(field a) -> field { for u32 i in 0..2 { return a; } return a; }"])))),
        16 => Some(("return of a value without a return type", after("def z_(field a) { return a; }"))),
        17 => Some(("main with a generic parameter", {
            let mut p = prog.clone();
            let k = p.funs.len() - 1;
            p.funs[k].generics = vec!["M_".into()];
            p.funs[k].params.push(Param { vis: Vis::Default, mutable: false, name: "z_".into(), ty: Ty::Arr(Box::new(Ty::Field), Sz::Name("M_".into())) });
            print::program(&p)
        })),
        18 => Some(("generic parameter twice", after("def z_<M_, M_>(field[M_] a) -> field { return a[0]; }"))),
        _ => {
            // an index which is certainly out of bounds
            let arr: Vec<_> = m.params.iter().filter_map(|q| match unalias(&prog, &q.ty) {
                Ty::Arr(_, n) => Some((q.name.clone(), n.eval(&env))),
                _ => None,
            }).collect();
            if arr.is_empty() {
                None
            } else {
                let (n, l) = s.pick(&arr).clone();
                let mut p = prog.clone();
                let k = p.funs.len() - 1;
                let t = match m.params.iter().find(|q| q.name == n).map(|q| unalias(&prog, &q.ty)) {
                    Some(Ty::Arr(t, _)) => print::ty(&t),
                    _ => unreachable!(),
                };
                p.funs[k].body.insert(0, S::Log(HOLE.into(), vec![]));
                let o = s.below(3) as u32;
                let text = match s.below(4) {
                    0 | 1 => format!("{t} x_ = {n}[{}];", l + o),
                    2 => format!("{t}[{}] x_ = {n}[0..{}];", l + o + 1, l + o + 1),
                    _ => format!("{t}[1] x_ = {n}[{}..{}];", l, l + 1),
                };
                // `T[1]` of an array type puts the dimension first
                if t.contains('[') && text.contains("] x_ = ") && !text.starts_with(&format!("{t} x_")) {
                    None
                } else {
                    Some(("constant index out of bounds", print::program(&p).replace(&format!("log(\"{HOLE}\", );"), &text)))
                }
            }
        }
    };
    s.exit();
    let Some((what, src)) = r else {
        i.label("nothing to break");
        return Ok(());
    };
    reject(i, what, &src)
}


/// an array whose size is only known after inlining, where an array of another size is expected
fn sizes(s: &mut Src, i: &mut Info) -> Res {
    s.enter();
    let (t, v) = *s.pick(&[("field", "x"), ("bool", "c"), ("u8", "k"), ("u32", "j"), ("(field, bool)", "(x, c)"), ("P", "P { p: x }")]);
    let n = 1 + s.below(4);
    let bad = *s.pick(&[n + 1, n + 1, n + 2, n.max(2) - 1, n.max(3) - 2]);
    let bad = if bad == n { n + 3 } else { bad };
    // where the size comes from, and how it is written
    let source = s.below(3);
    let (off, sz): (u64, String) = match s.below(5) {
        0 => (0, "K + 1 - 1".into()),
        1 => (0, "K * 2 - K".into()),
        _ => (0, "K".into()),
    };
    let array = |s: &mut Src| -> String {
        match s.below(6) {
            0 => format!("a[0..{sz}]"),
            1 => format!("[...[{v}; {sz}]]"),
            2 if sz == "K" => format!("mk::<K>({v})"),
            3 => format!("(c ? [{v}; {sz}] : [{v}; {sz}])"),
            4 => format!("a[1..{sz} + 1]"),
            _ => format!("[{v}; {sz}]"),
        }
    };
    let arr = array(s);
    let good = format!("[{v}; {n}]");
    let ix = *s.pick(&["0", "1", "l"]);
    let pair = |s: &mut Src| if s.bool() { (good.clone(), arr.clone()) } else { (arr.clone(), good.clone()) };
    let mut defs = String::new();
    let mut whole = None;
    let (what, code): (&str, String) = match s.below(19) {
        0 => ("definition", format!("{t}[{n}] y = {arr};")),
        1 => ("assignment", format!("{t}[{n}] mut y = {good};\n    y = {arr};")),
        2 => {
            let (p, q) = pair(s);
            ("array element", format!("{t}[2][{n}] z = [{p}, {q}];\n    {t}[{n}] y = z[1];"))
        }
        3 => ("repeated array element", format!("{t}[2][{n}] z = [{arr}; 2];\n    {t}[{n}] y = z[{ix}];")),
        4 => ("assignment of an element", format!("{t}[2][{n}] mut z = [{good}; 2];\n    z[{ix}] = {arr};\n    {t}[{n}] y = z[0];")),
        5 => {
            defs = format!("struct W {{ {t}[{n}] m; field q; }}\n");
            ("struct member", format!("W z = W {{ m: {arr}, q: x }};\n    {t}[{n}] y = z.m;"))
        }
        6 => {
            defs = format!("struct V<N> {{ {t}[N] f; {t}[N] g; }}\n");
            // the sizes of both members have to be written in the same way
            ("members of one size", format!("V<{n}> z = V {{ f: {arr}, g: {arr} }};\n    {t}[{n}] y = z.{};", ["f", "g"][s.idx(2)]))
        }
        7 => {
            defs = format!("struct W {{ {t}[{n}] m; field q; }}\n");
            ("assignment of a member", format!("W mut z = W {{ m: {good}, q: x }};\n    z.m = {arr};\n    {t}[{n}] y = z.m;"))
        }
        8 => ("tuple element", format!("({t}[{n}], bool) z = ({arr}, c);\n    {t}[{n}] y = z.0;")),
        9 => ("assignment of a tuple element", format!("(bool, {t}[{n}]) mut z = (c, {good});\n    z.1 = {arr};\n    {t}[{n}] y = z.1;")),
        10 | 11 => {
            // a function of its own, whose generic parameter is the size
            let text = arr.clone();
            defs = format!("def g<K>({t}[8] a, field x, bool c, u8 k, u32 j, u32 l) -> {t}[{n}] {{ return {text}; }}\n");
            ("return value", format!("{t}[{n}] y = g::<K>(a, x, c, k, j, l);"))
        }
        12 => {
            defs = format!("def g({t}[{n}] v) -> {t}[{n}] {{ return v; }}\n");
            ("argument", format!("{t}[{n}] y = g({arr});"))
        }
        13 => {
            defs = format!("def g<N>({t}[N] v, {t}[N] w) -> {t}[N] {{ return v; }}\n");
            let (p, q) = pair(s);
            ("arguments of one size", format!("{t}[{n}] y = g({p}, {q});"))
        }
        14 => {
            let (p, q) = pair(s);
            ("branches", if s.bool() { format!("{t}[{n}] y = c ? {p} : {q};") } else { format!("{t}[{n}] y = if x == 3 {{ {p} }} else {{ {q} }};") })
        }
        15 => {
            ("branch which is taken", if s.bool() { format!("{t}[{n}] y = K > 0 ? {arr} : {good};") } else { format!("{t}[{n}] y = if K == 0 {{ {good} }} else {{ {arr} }};") })
        }
        16 => {
            let (p, q) = pair(s);
            ("comparison", format!("bool z = {p} {} {q};\n    assert(z || !z);\n    {t}[{n}] y = {good};", ["==", "!="][s.idx(2)]))
        }
        17 => ("spread", if s.bool() { format!("{t}[{}] z = [...{arr}, {v}];\n    {t}[{n}] y = z[0..{n}];", n + 1) } else { format!("{t}[{}] z = [{v}, ...{arr}];\n    {t}[{n}] y = z[1..];", n + 1) }),
        _ => {
            whole = Some(());
            ("return value of main", String::new())
        }
    };
    let params = format!("{t}[8] a, field x, bool c, u8 k, u32 j, u32 l");
    let build = |z: u64| -> String {
        let mut o = "struct P { field p; }\n".to_string();
        o += &format!("def mk<N>({t} v) -> {t}[N] {{ return [v; N]; }}\n");
        if whole.is_some() {
            return format!("{o}const u32 K = {};\ndef main({params}) -> {t}[{n}] {{\n    return {arr};\n}}\n", z - off);
        }
        o += &defs;
        let rest = "a, x, c, k, j, l";
        match source {
            0 => o += &format!("const u32 K = {};\ndef main({params}) -> {t} {{\n    {code}\n    return y[0];\n}}\n", z - off),
            1 => o += &format!("def h<K>({params}) -> {t} {{\n    {code}\n    return y[0];\n}}\ndef main({params}) -> {t} {{\n    return h::<{}>({rest});\n}}\n", z - off),
            _ => o += &format!("def h<K>(u8[K] w, {params}) -> {t} {{\n    {code}\n    return y[0];\n}}\ndef main({params}) -> {t} {{\n    return h([k; {}], {rest});\n}}\n", z - off),
        }
        o
    };
    s.exit();
    let control = build(n);
    match pbt::guard(|| zk::compile(&control)) {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => return fail("a valid program is rejected", format!("{what}: {:?} {}\n{control}", e.kind, e.msg)),
        Err(e) => return fail("panic on a valid program", format!("{what}: {e}\n{control}")),
    }
    reject(i, &format!("size of: {what}"), &build(bad))
}

/// what has to be known at compile time, computed from an input
fn known(s: &mut Src, i: &mut Info) -> Res {
    s.enter();
    let u = *s.pick(&["u8", "u16", "u32", "u64"]);
    let (what, defs, code): (&str, String, String) = match s.below(17) {
        0 => ("amount of a shift", String::new(), format!("{u} v = b << @;")),
        1 => ("amount of a shift", String::new(), format!("{u} v = b >> @;")),
        2 => ("exponent", String::new(), "field v = x ** (@);".into()),
        3 => ("exponent", String::new(), "field v = (x + 1) ** (@ + 1);".into()),
        4 => ("upper bound of a loop", String::new(), "field mut v = x;\n    for u32 i in 0..@ {\n        v = v + 1;\n    }".into()),
        5 => ("lower bound of a loop", String::new(), "field mut v = x;\n    for u32 i in @..7 {\n        v = v + 1;\n    }".into()),
        6 => ("bound of a slice", String::new(), format!("{u}[8] v = [...a[0..@], ...a[@..8]];")),
        7 => ("bound of a slice", String::new(), format!("{u}[8] v = [...a[..@], ...a[@..]];")),
        8 => ("number of repetitions", String::new(), format!("{u}[2] v = [...[b; @], b, b][0..2];")),
        9 => ("number of repetitions", String::new(), "bool v = [x; @] == [x; @];".into()),
        10 => ("generic argument", format!("def g<N>({u} b) -> {u} {{ return [...[b; N], b][0]; }}\n"), format!("u32 z = @;\n    {u} v = g::<z>(b);")),
        11 => ("generic argument", "def g<N>(field x) -> field { return x ** N; }\n".into(), "u32 z = @;\n    field v = g::<z>(x);".into()),
        12 => ("size of an argument", format!("def g<N>({u}[N] w) -> u32 {{ return N; }}\n"), "u32 v = g(a[0..@]);".into()),
        13 => ("argument which is an exponent", "def g(field x, u32 e) -> field { return x ** e; }\n".into(), "field v = g(x, @);".into()),
        14 => ("argument which is a loop bound", "def g(field x, u32 e) -> field {\n    field mut y = x;\n    for u32 i in 0..e {\n        y = y * x;\n    }\n    return y;\n}\n".into(), "field v = g(x, @);".into()),
        15 => ("argument which is the amount of a shift", format!("def g({u} x, u32 e) -> {u} {{ return x {} e; }}\n", ["<<", ">>"][s.idx(2)]), format!("{u} v = g(b, @);")),
        _ => ("argument which is the bound of a slice", format!("def g({u}[8] w, u32 e) -> {u}[2] {{ return w[e..e + 2]; }}\n"), format!("{u}[2] v = g(a, @);")),
    };
    let one = |s: &mut Src| s.pick(&["n", "n + 1", "w[0]", "w[j]", "(c ? 1 : 2)", "id(n)", "(n & 3)", "(if c { 2 } else { n })", "(n - 1)", "p.0", "q.m"]).to_string();
    let fixed = |s: &mut Src| s.pick(&["1", "2", "K", "K + 1", "id(K)", "(K > 5 ? 1 : 2)", "[2, K][1]", "(1u32, K).1", "M { m: K }.m", "K * K", "0x00000002"]).to_string();
    let mut bad = one(s);
    let mut good = fixed(s);
    // spelled by way of a variable
    let via = s.below(3);
    if via == 0 && good == "id(K)" {
        // a call is not taken for a constant where an array gets its length from
        good = "K".into();
    }
    let how = |e: &str| match via {
        0 => (String::new(), e.to_string()),
        1 => (format!("u32 r = {e};\n    "), "r".to_string()),
        _ => (format!("u32 mut r = 1;\n    r = {e};\n    "), "r".to_string()),
    };
    let level = s.below(3);
    let mut build = |e: &mut String| -> String {
        let (pre, e) = how(e);
        let code = format!("{pre}{}", code.replace('@', &e));
        let head = format!("struct M {{ u32 m; }}\ndef id(u32 v) -> u32 {{ return v; }}\n{defs}");
        let params = format!("{u}[8] a, {u} b, field x, bool c, u32 n, u32[3] w, u32 j, (u32, bool) p, M q");
        match level {
            0 => format!("{head}const u32 K = 2;\ndef main({params}) {{\n    {code}\n    return;\n}}\n"),
            1 => format!("{head}def h<K>({params}) -> bool {{\n    {code}\n    return c;\n}}\ndef main({params}) {{\n    bool d = h::<2>(a, b, x, c, n, w, j, p, q);\n    return;\n}}\n"),
            _ => format!("{head}const u32 K = 2;\ndef main({params}) {{\n    for u32 l in 0..2 {{\n    {code}\n    }}\n    return;\n}}\n"),
        }
    };
    let (control, bad) = (build(&mut good), build(&mut bad));
    s.exit();
    match pbt::guard(|| zk::compile(&control)) {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => return fail("a valid program is rejected", format!("{what}: {:?} {}\n{control}", e.kind, e.msg)),
        Err(e) => return fail("panic on a valid program", format!("{what}: {e}\n{control}")),
    }
    reject(i, &format!("not known at compile time: {what}"), &bad)
}

/// a constraint of an assembly block has to be quadratic
fn degree(s: &mut Src, i: &mut Info) -> Res {
    s.enter();
    let atom = |s: &mut Src| s.pick(&["a", "b", "c", "w[0]", "w[1]", "m.x", "t.0"]).to_string();
    let factor = |s: &mut Src| match s.below(6) {
        0 => format!("({} + {})", atom(s), s.range(0, 9)),
        1 => format!("({} + {})", s.range(0, 9), atom(s)),
        2 => format!("({} + {})", atom(s), atom(s)),
        _ => atom(s),
    };
    // all coefficients are positive and small: nothing cancels
    let mut product = |s: &mut Src, n: usize| {
        let mut f: Vec<String> = (0..n).map(|_| factor(s)).collect();
        while f.len() > 1 {
            let k = s.idx(f.len() - 1);
            let r = f.remove(k + 1);
            f[k] = if s.bool() { format!("({} * {r})", f[k]) } else { format!("({r} * {})", f[k]) };
        }
        f.pop().unwrap()
    };
    let good = product(s, 2);
    let n = s.urange(3, 5);
    let cubic = product(s, n);
    let mut bad = match s.below(4) {
        0 => format!("{} + {cubic}", atom(s)),
        1 => format!("{cubic} + {}", atom(s)),
        2 => format!("{cubic} + {}", product(s, 2)),
        _ => cubic,
    };
    let swap = s.bool();
    let sides = |e: &str| if swap { format!("d === {e};") } else { format!("{e} === d;") };
    bad = sides(&bad);
    let level = s.below(4);
    let build = |e: &str| {
        let params = "field a, field b, field c, field[2] w, M m, (field, bool) t, field d";
        let head = "struct M { field x; }\n";
        match level {
            0 => format!("{head}def main({params}) {{\n    asm {{\n        {e}\n    }}\n}}\n"),
            1 => format!("{head}def f({params}) -> bool {{\n    asm {{\n        {e}\n    }}\n    return true;\n}}\ndef main({params}) {{\n    assert(f(a, b, c, w, m, t, d));\n}}\n"),
            2 => format!("{head}def main({params}) {{\n    for u32 i in 0..2 {{\n        asm {{\n        {e}\n        }}\n    }}\n}}\n"),
            _ => format!("{head}def main({params}) {{\n    field mut y = 0;\n    asm {{\n        y <-- a;\n        {e}\n        y === a;\n    }}\n}}\n"),
        }
    };
    let (control, bad) = (build(&sides(&good)), build(&bad));
    s.exit();
    match pbt::guard(|| zk::compile(&control)) {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => return fail("a valid program is rejected", format!("{:?} {}\n{control}", e.kind, e.msg)),
        Err(e) => return fail("panic on a valid program", format!("{e}\n{control}")),
    }
    reject(i, "constraint which is not quadratic", &bad)
}

pub fn check<'a>() -> Check<'a> {
    let cfg = Cfg { asserts: 0, stmts: 5, budget: 150, inputs: 1, ..Cfg::default() };
    let c2 = cfg.clone();
    Check::new(
        "C14",
        "a valid program with one statement or definition which breaks a rule, rejected with an error; distinct by source text",
    )
    .part("statements", 20000, 250000, move |s, i| statements(s, i, &cfg))
    .part("definitions", 5000, 60000, move |s, i| definitions(s, i, &c2))
    .part("sizes", 4000, 60000, sizes)
    .part("known", 3000, 40000, known)
    .part("degree", 2000, 20000, degree)
}
