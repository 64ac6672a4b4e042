//! The ABI: JSON values, their encoding as field elements, and the specification written by the compiler.
use num_bigint::BigUint;
use pbt::run::{Info, Res};
use pbt::{fail, guard, Check, Src};
use serde_json::{json, Value as J};
use zk::zokrates_abi::{parse_strict, Decode, Encode, Value, Values};
use zk::{Abi, ConcreteType, F};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    F,
    B,
    U(u32),
    A(Box<T>, u32),
    /// name, generic arguments, members
    S(String, Vec<u32>, Vec<(String, T)>),
    Tup(Vec<T>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    F(BigUint),
    B(bool),
    U(u32, u64),
    A(Vec<M>),
    S(Vec<(String, M)>),
    Tup(Vec<M>),
}

pub struct World {
    /// name, generic parameters, members written with the generics
    pub decls: Vec<String>,
    pub structs: Vec<T>,
}

const NAMES: &[&str] = &["a", "b", "foo", "z", "m0", "Bar", "x_1", "aa"];

impl T {
    pub fn text(&self) -> String {
        match self {
            T::F => "field".into(),
            T::B => "bool".into(),
            T::U(n) => format!("u{}", n),
            T::A(..) => {
                let mut dims = String::new();
                let mut t = self;
                while let T::A(e, n) = t {
                    dims.push_str(&format!("[{}]", n));
                    t = e;
                }
                t.text() + &dims
            }
            T::S(n, g, _) if g.is_empty() => n.clone(),
            T::S(n, g, _) => format!("{}<{}>", n, g.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
            T::Tup(ts) => format!(
                "({}{})",
                ts.iter().map(|t| t.text()).collect::<Vec<_>>().join(", "),
                if ts.len() == 1 { "," } else { "" }
            ),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            T::A(t, n) => t.count() * *n as usize,
            T::S(_, _, ms) => ms.iter().map(|m| m.1.count()).sum(),
            T::Tup(ts) => ts.iter().map(|t| t.count()).sum(),
            _ => 1,
        }
    }
    /// the documented JSON of a type
    pub fn spec(&self) -> J {
        match self {
            T::F => json!({"type": "field"}),
            T::B => json!({"type": "bool"}),
            T::U(n) => json!({ "type": format!("u{}", n) }),
            T::A(t, n) => {
                let mut c = t.spec();
                c["size"] = json!(n);
                json!({"type": "array", "components": c})
            }
            T::S(n, g, ms) => {
                let members: Vec<J> = ms
                    .iter()
                    .map(|(k, t)| {
                        let mut c = t.spec();
                        c["name"] = json!(k);
                        c
                    })
                    .collect();
                json!({"type": "struct", "components": {"name": n, "generics": g, "members": members}})
            }
            T::Tup(ts) => {
                json!({"type": "tuple", "components": {"elements": ts.iter().map(|t| t.spec()).collect::<Vec<_>>()}})
            }
        }
    }
    pub fn concrete(&self) -> ConcreteType {
        serde_json::from_value(self.spec()).expect("type")
    }
}

impl M {
    pub fn flat(&self, out: &mut Vec<BigUint>) {
        match self {
            M::F(b) => out.push(b.clone()),
            M::B(b) => out.push(BigUint::from(*b as u32)),
            M::U(_, v) => out.push(BigUint::from(*v)),
            M::A(v) | M::Tup(v) => v.iter().for_each(|m| m.flat(out)),
            M::S(v) => v.iter().for_each(|m| m.1.flat(out)),
        }
    }
    pub fn value(&self) -> Value<F> {
        match self {
            M::F(b) => Value::Field(zk::f(b)),
            M::B(b) => Value::Boolean(*b),
            M::U(8, v) => Value::U8(*v as u8),
            M::U(16, v) => Value::U16(*v as u16),
            M::U(32, v) => Value::U32(*v as u32),
            M::U(_, v) => Value::U64(*v),
            M::A(v) => Value::Array(v.iter().map(|m| m.value()).collect()),
            M::Tup(v) => Value::Tuple(v.iter().map(|m| m.value()).collect()),
            M::S(v) => Value::Struct(v.iter().map(|(k, m)| (k.clone(), m.value())).collect()),
        }
    }
    /// as the toolchain prints it
    pub fn canonical(&self) -> J {
        match self {
            M::F(b) => json!(b.to_string()),
            M::B(b) => json!(b),
            M::U(n, v) => json!(format!("0x{:0w$x}", v, w = *n as usize / 4)),
            M::A(v) | M::Tup(v) => J::Array(v.iter().map(|m| m.canonical()).collect()),
            M::S(v) => J::Object(v.iter().map(|(k, m)| (k.clone(), m.canonical())).collect()),
        }
    }
    /// any accepted way of writing it
    pub fn json(&self, s: &mut Src) -> J {
        let num = |s: &mut Src, v: &BigUint| -> J {
            json!(match s.below(5) {
                0 | 1 => v.to_string(),
                2 => format!("0x{}", v.to_str_radix(16)),
                3 => format!("0x{}{}", "0".repeat(s.idx(4)), v.to_str_radix(16)),
                _ => format!("0x{}", v.to_str_radix(16).to_uppercase()),
            })
        };
        match self {
            M::F(b) => num(s, b),
            M::U(_, v) => num(s, &BigUint::from(*v)),
            M::B(b) => json!(b),
            M::A(v) | M::Tup(v) => J::Array(v.iter().map(|m| m.json(s)).collect()),
            M::S(v) => {
                let mut e: Vec<(String, J)> = v.iter().map(|(k, m)| (k.clone(), m.json(s))).collect();
                // members by name, in any order
                for k in (1..e.len()).rev() {
                    let j = s.idx(k + 1);
                    e.swap(k, j);
                }
                J::Object(e.into_iter().collect())
            }
        }
    }
}

fn prim(s: &mut Src) -> T {
    match s.below(6) {
        0 | 1 => T::F,
        2 => T::B,
        _ => T::U(*s.pick(&[8, 16, 32, 64])),
    }
}

pub fn ty(s: &mut Src, w: &World, depth: usize, empty: bool) -> T {
    let k = if depth == 0 { 0 } else { s.weighted(&[4, 3, 3, 2]) };
    match k {
        1 => {
            let lo = if empty && s.chance(1, 8) { 0 } else { 1 };
            let n = s.range(lo, 4) as u32;
            T::A(Box::new(ty(s, w, depth - 1, empty)), if lo == 0 { 0 } else { n })
        }
        2 if !w.structs.is_empty() => s.pick(&w.structs).clone(),
        3 => {
            let n = if empty && s.chance(1, 10) { 0 } else { s.range(1, 3) };
            T::Tup((0..n).map(|_| ty(s, w, depth - 1, empty)).collect())
        }
        _ => prim(s),
    }
}

pub fn world(s: &mut Src, empty: bool) -> World {
    let mut w = World { decls: vec![], structs: vec![] };
    for k in 0..s.below(4) {
        s.enter();
        let name = format!("S{}", k);
        let n = if empty && s.chance(1, 8) { 0 } else { s.range(1, 4) };
        let mut names: Vec<&str> = NAMES.to_vec();
        // a generic size in one of the members
        let generic = s.chance(1, 3);
        let sizes: Vec<u32> = if generic { (0..1 + s.below(2)).map(|_| s.range(1, 4) as u32).collect() } else { vec![] };
        let members: Vec<(String, T)> = (0..n)
            .map(|_| {
                let j = s.idx(names.len());
                (names.remove(j).to_string(), ty(s, &w, 2, empty))
            })
            .collect();
        let gm = if generic { Some((names.remove(0).to_string(), prim(s))) } else { None };
        let mut decl = format!("struct {}{} {{", name, if generic { "<N>" } else { "" });
        for (m, t) in &members {
            decl.push_str(&format!(" {} {};", t.text(), m));
        }
        if let Some((m, t)) = &gm {
            decl.push_str(&format!(" {}[N] {};", t.text(), m));
        }
        decl.push_str(" }\n");
        w.decls.push(decl);
        if let Some((m, t)) = gm {
            for k in sizes {
                let mut ms = members.clone();
                ms.push((m.clone(), T::A(Box::new(t.clone()), k)));
                w.structs.push(T::S(name.clone(), vec![k], ms));
            }
        } else {
            w.structs.push(T::S(name, vec![], members));
        }
        s.exit();
    }
    w
}

pub fn val(s: &mut Src, t: &T, p: &BigUint) -> M {
    match t {
        T::F => M::F(s.field(p)),
        T::B => M::B(s.bool()),
        T::U(n) => M::U(*n, s.uint(*n)),
        T::A(t, n) => M::A((0..*n).map(|_| val(s, t, p)).collect()),
        T::S(_, _, ms) => M::S(ms.iter().map(|(k, t)| (k.clone(), val(s, t, p))).collect()),
        T::Tup(ts) => M::Tup(ts.iter().map(|t| val(s, t, p)).collect()),
    }
}

fn flat(r: Result<Res, String>) -> Res {
    match r {
        Ok(r) => r,
        Err(m) => fail(pbt::panic_sig(&m), m),
    }
}

fn same<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A, cx: &str) -> Res {
    if got == want {
        Ok(())
    } else {
        fail(format!("abi:{}", what), format!("{}\n got  {:?}\n want {:?}", cx, got, want))
    }
}

fn fields(ms: &[M]) -> Vec<F> {
    let mut out = vec![];
    ms.iter().for_each(|m| m.flat(&mut out));
    out.iter().map(zk::f).collect()
}

/// values in and out, against types given by their specification
fn values(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::bn_p();
    let w = world(s, true);
    let ts: Vec<T> = (0..s.below(4)).map(|_| s.group(|s| ty(s, &w, 3, true))).collect();
    if ts.iter().map(|t| t.count()).sum::<usize>() > 300 {
        return Ok(());
    }
    let ms: Vec<M> = ts.iter().map(|t| val(s, t, &p)).collect();
    let j = J::Array(ms.iter().map(|m| m.json(s)).collect());
    let text = if s.bool() { j.to_string() } else { serde_json::to_string_pretty(&j).unwrap() };
    let cx = format!("types {}\nvalues {}", ts.iter().map(|t| t.text()).collect::<Vec<_>>().join(", "), j);
    i.sample(cx.clone());
    i.label(format!("{} values", ts.len()));
    if ts.iter().any(|t| !matches!(t, T::F | T::B | T::U(_))) {
        i.interesting(&cx);
    }
    flat(guard(|| -> Res {
        let cts: Vec<ConcreteType> = ts.iter().map(|t| t.concrete()).collect();
        for (t, c) in ts.iter().zip(&cts) {
            same("type specification", serde_json::to_value(c).unwrap(), t.spec(), &cx)?;
            same("primitive count", c.get_primitive_count(), t.count(), &cx)?;
        }
        let want = Values(ms.iter().map(|m| m.value()).collect());
        let got = parse_strict::<F>(&text, cts.clone());
        match &got {
            Ok(v) if *v == want => {}
            _ => return fail("abi:parse", format!("{}\n got {:?}", cx, got)),
        }
        let enc = got.unwrap().encode();
        same("encode", enc.clone(), fields(&ms), &cx)?;
        same("decode", Values::decode(enc, cts.clone()), want, &cx)?;
        let canon = J::Array(ms.iter().map(|m| m.canonical()).collect());
        let out = Values(ms.iter().map(|m| m.value()).collect()).into_serde_json();
        same("print", out.to_string(), canon.to_string(), &cx)?;
        let back = parse_strict::<F>(&out.to_string(), cts);
        if back != Ok(Values(ms.iter().map(|m| m.value()).collect())) {
            return fail("abi:parse of printed values", cx.clone());
        }
        Ok(())
    }))
}

/// one damaged value: refused, without a crash
fn mutant(s: &mut Src, t: &T, j: &mut J, p: &BigUint) -> Option<String> {
    // descend, or damage here
    let inner = s.chance(2, 3);
    match (t, j) {
        (T::A(t, n), J::Array(v)) => {
            if inner && *n > 0 {
                let k = s.idx(v.len());
                return mutant(s, t, &mut v[k], p);
            }
            match s.below(3) {
                0 if !v.is_empty() => {
                    v.pop();
                    Some("array too short".into())
                }
                _ => {
                    let e = v.last().cloned().unwrap_or(json!("1"));
                    v.push(e);
                    Some("array too long".into())
                }
            }
        }
        (T::Tup(ts), J::Array(v)) => {
            if inner && !v.is_empty() {
                let k = s.idx(v.len());
                return mutant(s, &ts[k], &mut v[k], p);
            }
            if s.bool() && !v.is_empty() {
                v.pop();
                Some("tuple too short".into())
            } else {
                v.push(json!("1"));
                Some("tuple too long".into())
            }
        }
        (T::S(_, _, ms), J::Object(o)) => {
            if inner && !ms.is_empty() {
                let (k, t) = &ms[s.idx(ms.len())];
                return mutant(s, t, o.get_mut(k).unwrap(), p);
            }
            match s.below(3) {
                0 if !ms.is_empty() => {
                    o.remove(&ms[s.idx(ms.len())].0);
                    Some("member missing".into())
                }
                1 if !ms.is_empty() => {
                    let v = o.remove(&ms[s.idx(ms.len())].0).unwrap();
                    o.insert("other".into(), v);
                    Some("member renamed".into())
                }
                _ => {
                    o.insert("other".into(), json!("1"));
                    Some("member added".into())
                }
            }
        }
        (t, j) => {
            let bad: Vec<(&str, J)> = match t {
                T::B => vec![("string for bool", json!("true")), ("number for bool", json!(1)), ("null", J::Null), ("hex for bool", json!("0x1"))],
                T::F => vec![
                    ("number for field", json!(1)),
                    ("bool for field", json!(true)),
                    ("empty string", json!("")),
                    ("negative", json!("-1")),
                    ("hex out of range", json!(format!("0x{}", (p + s.field(p)).to_str_radix(16)))),
                    ("junk", json!("1g")),
                    ("space", json!(" 1")),
                    ("array for field", json!(["1"])),
                    ("fraction", json!("1.5")),
                    ("null", J::Null),
                ],
                T::U(n) => {
                    let over = (BigUint::from(1u32) << *n as usize) + BigUint::from(s.below(1000));
                    vec![
                        ("decimal out of range", json!(over.to_string())),
                        ("hex out of range", json!(format!("0x{}", over.to_str_radix(16)))),
                        ("number for uint", json!(7)),
                        ("negative", json!("-1")),
                        ("bool for uint", json!(false)),
                        ("junk", json!("0xz")),
                        ("empty string", json!("")),
                        ("object for uint", json!({"a": "1"})),
                    ]
                }
                _ => unreachable!(),
            };
            let (w, v) = s.pick(&bad).clone();
            *j = v;
            Some(w.into())
        }
    }
}

fn refusals(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::bn_p();
    let w = world(s, true);
    let n = s.range(1, 3);
    let ts: Vec<T> = (0..n).map(|_| s.group(|s| ty(s, &w, 3, true))).collect();
    if ts.iter().map(|t| t.count()).sum::<usize>() > 300 {
        return Ok(());
    }
    let ms: Vec<M> = ts.iter().map(|t| val(s, t, &p)).collect();
    let mut js: Vec<J> = ms.iter().map(|m| m.json(s)).collect();
    let mut what = None;
    if s.chance(1, 8) {
        if s.bool() {
            js.pop();
            what = Some("value missing".to_string());
        } else {
            js.push(json!("1"));
            what = Some("value added".to_string());
        }
    } else {
        let k = s.idx(ts.len());
        what = mutant(s, &ts[k], &mut js[k], &p).or(what);
    }
    let mut text = J::Array(js).to_string();
    if s.chance(1, 10) && text.len() > 2 {
        // not even JSON, or not an array
        match s.below(3) {
            0 => {
                text.pop();
            }
            1 => text = format!("{{\"a\": {}}}", text),
            _ => text.push(']'),
        }
        what = Some("not an array of values".into());
    }
    let what = what.unwrap();
    let cx = format!("{}: types {} values {}", what, ts.iter().map(|t| t.text()).collect::<Vec<_>>().join(", "), text);
    i.sample(cx.clone());
    i.label(what.clone());
    i.interesting(&cx);
    flat(guard(|| -> Res {
        let cts: Vec<ConcreteType> = ts.iter().map(|t| t.concrete()).collect();
        match parse_strict::<F>(&text, cts) {
            Err(e) => {
                let _ = e.to_string();
                Ok(())
            }
            Ok(v) => fail(format!("abi:accepted {}", what), format!("{}\naccepted as {:?}", cx, v)),
        }
    }))
}

/// strings for numbers: whatever is accepted has the value it is written with
fn numbers(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::bn_p();
    let t = prim(s);
    let v = match t {
        T::F => match s.below(4) {
            0 => &p + s.field(&p),
            _ => s.field(&p),
        },
        _ => {
            let k = *s.pick(&[8u32, 16, 32, 64]);
            BigUint::from(s.uint(k)) + BigUint::from(s.below(3)) * BigUint::from(s.uint(64))
        }
    };
    let hex = s.bool();
    let mut text = if hex { format!("0x{}", v.to_str_radix(16)) } else { v.to_string() };
    if s.chance(1, 3) {
        let k = if hex { 2 } else { 0 };
        text.insert_str(k, &"0".repeat(1 + s.idx(3)));
    }
    i.sample(format!("{} {}", t.text(), text));
    i.interesting(&format!("{} {}", t.text(), text));
    flat(guard(|| -> Res {
        let r = parse_strict::<F>(&json!([text]).to_string(), vec![t.concrete()]);
        let bound = match &t {
            T::F => p.clone(),
            T::U(n) => BigUint::from(1u32) << *n as usize,
            _ => BigUint::from(0u32),
        };
        match r {
            Ok(x) => {
                let e = x.encode();
                if bound == BigUint::from(0u32) {
                    return fail("abi:number accepted for bool", text.clone());
                }
                let got: BigUint = zokrates_field::Field::to_biguint(&e[0]);
                // a field element out of range may be reduced
                let want = if t == T::F { &v % &p } else { v.clone() };
                if got != want {
                    return fail("abi:number misread", format!("{} as {}: {} instead of {}", text, t.text(), got, want));
                }
                Ok(())
            }
            Err(e) => {
                let plain = text == v.to_string() || text == format!("0x{}", v.to_str_radix(16));
                if v < bound && plain {
                    return fail("abi:number refused", format!("{} as {}: {:?}", text, t.text(), e));
                }
                Ok(())
            }
        }
    }))
}

/// the specification the compiler writes, and values through a compiled program
fn programs(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::bn_p();
    let w = world(s, false);
    let n = s.range(1, 4);
    let params: Vec<(String, u8, T)> = (0..n)
        .map(|k| {
            let vis = s.below(3) as u8;
            (format!("p{}", k), vis, s.group(|s| ty(s, &w, 2, false)))
        })
        .collect();
    if params.iter().map(|t| t.2.count()).sum::<usize>() > 120 {
        return Ok(());
    }
    let mut src = String::new();
    let order: Vec<usize> = {
        // every declared struct must be declared before use, in the order of generation
        (0..w.decls.len()).collect()
    };
    for k in order {
        src.push_str(&w.decls[k]);
    }
    // what is returned: a tuple of parameters, or one, or an array of one
    let picks: Vec<usize> = (0..s.range(1, 3)).map(|_| s.idx(params.len())).collect();
    let single = picks.len() == 1 && s.bool();
    let rep = if single && s.chance(1, 3) { s.range(1, 3) as u32 } else { 0 };
    let ret = if rep > 0 {
        T::A(Box::new(params[picks[0]].2.clone()), rep)
    } else if single {
        params[picks[0]].2.clone()
    } else {
        T::Tup(picks.iter().map(|k| params[*k].2.clone()).collect())
    };
    let expr = if rep > 0 {
        format!("[{}; {}]", params[picks[0]].0, rep)
    } else if single {
        params[picks[0]].0.clone()
    } else {
        format!("({}{})", picks.iter().map(|k| params[*k].0.clone()).collect::<Vec<_>>().join(", "), if picks.len() == 1 { "," } else { "" })
    };
    src.push_str(&format!(
        "def main({}) -> {} {{ return {}; }}\n",
        params
            .iter()
            .map(|(n, v, t)| format!("{}{} {}", ["", "public ", "private "][*v as usize], t.text(), n))
            .collect::<Vec<_>>()
            .join(", "),
        ret.text(),
        expr
    ));
    let ms: Vec<M> = params.iter().map(|t| val(s, &t.2, &p)).collect();
    let js = J::Array(ms.iter().map(|m| m.json(s)).collect());
    let out = {
        let one = ms[picks[0]].clone();
        if rep > 0 {
            M::A(vec![one; rep as usize])
        } else if single {
            one
        } else {
            M::Tup(picks.iter().map(|k| ms[*k].clone()).collect())
        }
    };
    let cx = format!("{}// {}", src, js);
    i.sample(cx.clone());
    i.label(format!("{} structs", w.structs.len()));
    let c = match zk::compile(&src) {
        Ok(c) => c,
        // generic structs that are not used, conflicting declarations
        Err(e) => return fail(format!("abi:program refused {:?}", e.kind), format!("{}\n{}", cx, e.msg)),
    };
    i.interesting(&cx);
    flat(guard(|| -> Res {
        let spec = json!({
            "inputs": params.iter().map(|(n, v, t)| {
                let mut c = t.spec();
                c["name"] = json!(n);
                c["public"] = json!(*v != 2);
                c
            }).collect::<Vec<_>>(),
            "output": ret.spec(),
        });
        let abi = serde_json::to_value(&c.abi).unwrap();
        same("specification", abi.clone(), spec, &cx)?;
        let back: Abi = serde_json::from_str(&serde_json::to_string_pretty(&abi).unwrap()).unwrap();
        // struct names and locations are not part of the comparison of types: compare what is written
        same("specification read back", serde_json::to_value(&back).unwrap(), abi, &cx)?;
        let sig = back.signature();
        let vals = match parse_strict::<F>(&js.to_string(), sig.inputs) {
            Ok(v) => v,
            Err(e) => return fail("abi:parse", format!("{}\n{}", cx, e)),
        };
        let inputs = vals.encode();
        same("arguments", c.prog.arguments.len(), inputs.len(), &cx)?;
        let private: Vec<bool> = params.iter().flat_map(|(_, v, t)| vec![*v == 2; t.count()]).collect();
        same("visibility", c.prog.arguments.iter().map(|a| a.private).collect::<Vec<_>>(), private, &cx)?;
        let wit = match zk::execute(&c, &inputs) {
            Ok(w) => w,
            Err(e) => return fail("abi:execution", format!("{}\n{:?}", cx, e)),
        };
        let got = Value::decode(wit.return_values(), *sig.output);
        same("outputs", got, out.value(), &cx)
    }))
}

pub fn check<'a>() -> Check<'a> {
    Check::new("C09", "values with an array, struct or tuple; a damaged value; a number; a compiled program. Distinct by types and values")
        .part("values", 60000, 300000, values)
        .part("refusals", 60000, 300000, refusals)
        .part("numbers", 40000, 200000, numbers)
        .part("programs", 6000, 30000, programs)
}
