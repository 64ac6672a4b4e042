//! Prints a program as ZoKrates source, with the parentheses the documented precedence needs and no others
//! (the generator adds redundant ones as `E::Paren`).
use super::ast::*;

pub fn sz(s: &Sz) -> String {
    match s {
        Sz::Lit(n) => n.to_string(),
        Sz::Name(n) => n.clone(),
        Sz::Add(a, b) => format!("{} + {}", sz(a), sz_r(b)),
        Sz::Sub(a, b) => format!("{} - {}", sz(a), sz_r(b)),
        Sz::Mul(a, b) => format!("{} * {}", sz_m(a), sz_r(b)),
    }
}
fn sz_m(s: &Sz) -> String {
    match s {
        Sz::Add(..) | Sz::Sub(..) => format!("({})", sz(s)),
        _ => sz(s),
    }
}
fn sz_r(s: &Sz) -> String {
    match s {
        Sz::Lit(_) | Sz::Name(_) => sz(s),
        _ => format!("({})", sz(s)),
    }
}

pub fn ty(t: &Ty) -> String {
    match t {
        Ty::Field => "field".into(),
        Ty::Bool => "bool".into(),
        Ty::U(n) => format!("u{}", n),
        Ty::Arr(..) => {
            // the first dimension is written first
            let mut dims = String::new();
            let mut cur = t;
            while let Ty::Arr(inner, n) = cur {
                dims.push_str(&format!("[{}]", sz(n)));
                cur = inner;
            }
            format!("{}{}", ty(cur), dims)
        }
        Ty::Tup(ts) => match ts.len() {
            0 => "()".into(),
            1 => format!("({},)", ty(&ts[0])),
            _ => format!("({})", ts.iter().map(ty).collect::<Vec<_>>().join(", ")),
        },
        Ty::Struct(n, g) => {
            if g.is_empty() {
                n.clone()
            } else {
                format!("{}<{}>", n, g.iter().map(sz).collect::<Vec<_>>().join(", "))
            }
        }
    }
}

// binding strength: higher binds tighter
const TERN: u8 = 1;
const OR: u8 = 2;
const AND: u8 = 3;
const EQ: u8 = 4;
const CMP: u8 = 5;
const BOR: u8 = 6;
const XOR: u8 = 7;
const BAND: u8 = 8;
const SHIFT: u8 = 9;
const ADD: u8 = 10;
const MUL: u8 = 11;
const UN: u8 = 12;
const POW: u8 = 13;
const POST: u8 = 14;

fn op_prec(op: Op) -> (u8, &'static str) {
    match op {
        Op::Add => (ADD, "+"),
        Op::Sub => (ADD, "-"),
        Op::Mul => (MUL, "*"),
        Op::Div => (MUL, "/"),
        Op::Rem => (MUL, "%"),
        Op::And => (AND, "&&"),
        Op::Or => (OR, "||"),
        Op::Xor => (XOR, "^"),
        Op::BAnd => (BAND, "&"),
        Op::BOr => (BOR, "|"),
        Op::Eq => (EQ, "=="),
        Op::Ne => (EQ, "!="),
        Op::Lt => (CMP, "<"),
        Op::Le => (CMP, "<="),
        Op::Gt => (CMP, ">"),
        Op::Ge => (CMP, ">="),
    }
}

fn prec(e: &E) -> u8 {
    match e {
        E::Bin(op, ..) => op_prec(*op).0,
        E::Un(..) => UN,
        E::Pow(..) => POW,
        E::Shl(..) | E::Shr(..) => SHIFT,
        E::Tern(..) => TERN,
        E::Size(Sz::Add(..) | Sz::Sub(..)) => ADD,
        E::Size(Sz::Mul(..)) => MUL,
        _ => POST,
    }
}

fn at(e: &E, min: u8) -> String {
    if prec(e) < min {
        format!("({})", ex(e))
    } else {
        ex(e)
    }
}

pub fn ex(e: &E) -> String {
    match e {
        E::Num(t, v, style) => {
            let suffix = match t {
                Ty::Field => "f".to_string(),
                Ty::U(n) => format!("u{}", n),
                _ => unreachable!(),
            };
            match (style, t) {
                (LitStyle::Bare, _) => v.to_string(),
                (LitStyle::Hex, Ty::U(n)) => {
                    format!("0x{:0>w$}", v.to_str_radix(16), w = *n as usize / 4)
                }
                (LitStyle::UnderscoreSuffix, _) => format!("{}_{}", v, suffix),
                _ => format!("{}{}", v, suffix),
            }
        }
        E::Bool(b) => b.to_string(),
        E::Var(n) => n.clone(),
        E::Size(s) => match s {
            Sz::Lit(n) => format!("{}u32", n),
            s => sz(s),
        },
        E::Bin(op, a, b) => {
            let (p, s) = op_prec(*op);
            // comparisons inside comparisons are always parenthesised: the documentation and the
            // implementation disagree on their relative precedence, as they do on `|` and `^`
            let inner = |e: &E| match e {
                E::Bin(o, ..) => {
                    let q = op_prec(*o).0;
                    ((p == EQ || p == CMP) && (q == EQ || q == CMP))
                        || ((p == BOR || p == XOR) && (q == BOR || q == XOR) && p != q)
                }
                _ => false,
            };
            let at = |e: &E, min: u8| {
                if inner(e) {
                    format!("({})", ex(e))
                } else {
                    at(e, min)
                }
            };
            format!("{} {} {}", at(a, p), s, at(b, p + 1))
        }
        E::Un(u, a) => {
            let s = match u {
                Un::Neg => "-",
                Un::Pos => "+",
                Un::Not => "!",
            };
            format!("{}{}", s, at(a, POW))
        }
        E::Pow(a, n) => format!(
            "{}**{}",
            at(a, POST),
            match n {
                Sz::Lit(_) | Sz::Name(_) => sz(n),
                n => format!("({})", sz(n)),
            }
        ),
        E::Shl(a, n) => format!("{} << {}", at(a, SHIFT), sz_r(n)),
        E::Shr(a, n) => format!("{} >> {}", at(a, SHIFT), sz_r(n)),
        E::Tern(c, a, b) => format!("{} ? {} : {}", at(c, OR), at(a, TERN), at(b, TERN)),
        E::If(c, s1, a, s2, b) => {
            let blk = |s: &Vec<S>, e: &E| {
                let mut out = String::from("{ ");
                for s in s {
                    out.push_str(&stmts_inline(s));
                    out.push(' ');
                }
                out.push_str(&ex(e));
                out.push_str(" }");
                out
            };
            format!("if {} {} else {}", ex(c), blk(s1, a), blk(s2, b))
        }
        E::ArrLit(v) => format!(
            "[{}]",
            v.iter()
                .map(|e| match e {
                    Elem::One(e) => ex(e),
                    Elem::Spread(e) => format!("...{}", ex(e)),
                })
                .collect::<Vec<_>>()
                .join(", ")
        ),
        E::ArrRep(e, n) => format!("[{}; {}]", ex(e), sz(n)),
        E::Slice(e, a, b) => format!(
            "{}[{}..{}]",
            at(e, POST),
            a.as_ref().map(sz).unwrap_or_default(),
            b.as_ref().map(sz).unwrap_or_default()
        ),
        E::Idx(e, i) => format!("{}[{}]", at(e, POST), ex(i)),
        E::TupLit(v) => match v.len() {
            0 => "()".into(),
            1 => format!("({},)", ex(&v[0])),
            _ => format!("({})", v.iter().map(ex).collect::<Vec<_>>().join(", ")),
        },
        E::TupGet(e, i) => format!("{}.{}", at(e, POST), i),
        E::StructLit(n, fs) => format!(
            "{} {{ {} }}",
            n,
            fs.iter()
                .map(|(k, e)| format!("{}: {}", k, ex(e)))
                .collect::<Vec<_>>()
                .join(", ")
        ),
        E::Member(e, n) => format!("{}.{}", at(e, POST), n),
        E::Call(f, g, args) => format!(
            "{}{}({})",
            f,
            match g {
                None => String::new(),
                Some(g) => format!(
                    "::<{}>",
                    g.iter()
                        .map(|g| g.as_ref().map(sz).unwrap_or_else(|| "_".into()))
                        .collect::<Vec<_>>()
                        .join(", ")
                ),
            },
            args.iter().map(ex).collect::<Vec<_>>().join(", ")
        ),
        E::Paren(e) => format!("({})", ex(e)),
    }
}

fn lhs(n: &str, acc: &[Acc]) -> String {
    let mut s = n.to_string();
    for a in acc {
        match a {
            Acc::Idx(e) => s.push_str(&format!("[{}]", ex(e))),
            Acc::Member(m) => s.push_str(&format!(".{}", m)),
            Acc::Tup(i) => s.push_str(&format!(".{}", i)),
        }
    }
    s
}

fn stmts_inline(s: &S) -> String {
    let mut out = String::new();
    stmt(s, 0, &mut out);
    out.replace('\n', " ")
}

pub fn stmt(s: &S, ind: usize, out: &mut String) {
    let pad = "    ".repeat(ind);
    match s {
        S::Def {
            ty: t,
            mutable,
            name,
            e,
        } => out.push_str(&format!(
            "{}{} {}{} = {};\n",
            pad,
            ty(t),
            if *mutable { "mut " } else { "" },
            name,
            ex(e)
        )),
        S::Assign(n, acc, e) => out.push_str(&format!("{}{} = {};\n", pad, lhs(n, acc), ex(e))),
        S::For {
            idx,
            from,
            to,
            body,
        } => {
            out.push_str(&format!(
                "{}for u32 {} in {}..{} {{\n",
                pad,
                idx,
                sz(from),
                sz(to)
            ));
            for s in body {
                stmt(s, ind + 1, out);
            }
            out.push_str(&format!("{}}}\n", pad));
        }
        S::Assert(e, m) => out.push_str(&format!(
            "{}assert({}{});\n",
            pad,
            ex(e),
            m.as_ref()
                .map(|m| format!(", \"{}\"", m))
                .unwrap_or_default()
        )),
        S::Log(f, es) => out.push_str(&format!(
            "{}log(\"{}\"{});\n",
            pad,
            f,
            if es.is_empty() {
                ", ".to_string()
            } else {
                es.iter().map(|e| format!(", {}", ex(e))).collect::<String>()
            }
        )),
        S::Asm(v) => {
            out.push_str(&format!("{}asm {{\n", pad));
            for s in v {
                let l = match s {
                    AsmS::Assign(n, a, e) => format!("{} <-- {}", lhs(n, a), ex(e)),
                    AsmS::AssignConstrain(n, a, e) => format!("{} <== {}", lhs(n, a), ex(e)),
                    AsmS::Constrain(a, b) => format!("{} === {}", ex(a), ex(b)),
                };
                out.push_str(&format!("{}    {};\n", pad, l));
            }
            out.push_str(&format!("{}}}\n", pad));
        }
        S::Return(e) => out.push_str(&match e {
            Some(e) => format!("{}return {};\n", pad, ex(e)),
            None => format!("{}return;\n", pad),
        }),
    }
}

fn gens(g: &[String]) -> String {
    if g.is_empty() {
        String::new()
    } else {
        format!("<{}>", g.join(", "))
    }
}

pub fn struct_def(s: &StructDef) -> String {
    let mut out = format!("struct {}{} {{\n", s.name, gens(&s.generics));
    for (n, t) in &s.fields {
        out.push_str(&format!("    {} {};\n", ty(t), n));
    }
    out.push_str("}\n");
    out
}
pub fn alias_def(a: &AliasDef) -> String {
    format!("type {}{} = {};\n", a.name, gens(&a.generics), ty(&a.ty))
}
pub fn const_def(c: &ConstDef) -> String {
    format!("const {} {} = {};\n", ty(&c.ty), c.name, ex(&c.value))
}
pub fn fun(f: &Fun) -> String {
    let ps: Vec<_> = f
        .params
        .iter()
        .map(|p| {
            format!(
                "{}{} {}{}",
                match p.vis {
                    Vis::Default => "",
                    Vis::Public => "public ",
                    Vis::Private => "private ",
                },
                ty(&p.ty),
                if p.mutable { "mut " } else { "" },
                p.name
            )
        })
        .collect();
    let mut out = format!(
        "def {}{}({}){} {{\n",
        f.name,
        gens(&f.generics),
        ps.join(", "),
        if f.ret == Ty::Tup(vec![]) {
            String::new()
        } else {
            format!(" -> {}", ty(&f.ret))
        }
    );
    for s in &f.body {
        stmt(s, 1, &mut out);
    }
    out.push_str("}\n");
    out
}

pub fn program(p: &Program) -> String {
    let mut out = String::new();
    for s in &p.consts {
        out.push_str(&const_def(s));
    }
    for s in &p.structs {
        out.push_str(&struct_def(s));
    }
    for s in &p.aliases {
        out.push_str(&alias_def(s));
    }
    for f in &p.funs {
        out.push_str(&fun(f));
    }
    out
}
