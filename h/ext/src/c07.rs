//! Files written for a compiled program and a witness: read back, or by an independent reader.
use crate::c12::prime;
use crate::irgen::{elem, generate, Ir};
use num_bigint::BigUint;
use num_traits::Zero;
use pbt::lang::gen::Cfg;
use pbt::run::{Info, Res};
use pbt::{fail, guard, Check, Src};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Cursor;
use zk::ir::{ProgEnum, RuntimeError};
use zk::{Field, Prog, Solver, Statement, Variable, Witness, F};
use zokrates_field::*;

fn flat(r: Result<Res, String>) -> Res {
    match r {
        Ok(r) => r,
        Err(m) => fail(pbt::panic_sig(&m), m),
    }
}

macro_rules! curves {
    ($f:ident, $s:expr, $i:expr) => {
        match $s.idx(6) {
            0 => $f::<Bn128Field>($s, $i, "bn128", &|p| match p { ProgEnum::Bn128Program(p) => Some(p.collect()), _ => None }),
            1 => $f::<Bls12_381Field>($s, $i, "bls12_381", &|p| match p { ProgEnum::Bls12_381Program(p) => Some(p.collect()), _ => None }),
            2 => $f::<Bls12_377Field>($s, $i, "bls12_377", &|p| match p { ProgEnum::Bls12_377Program(p) => Some(p.collect()), _ => None }),
            3 => $f::<Bw6_761Field>($s, $i, "bw6_761", &|p| match p { ProgEnum::Bw6_761Program(p) => Some(p.collect()), _ => None }),
            4 => $f::<PallasField>($s, $i, "pallas", &|p| match p { ProgEnum::PallasProgram(p) => Some(p.collect()), _ => None }),
            _ => $f::<VestaField>($s, $i, "vesta", &|p| match p { ProgEnum::VestaProgram(p) => Some(p.collect()), _ => None }),
        }
    };
}
macro_rules! plain {
    ($f:ident, $s:expr, $i:expr) => {
        match $s.idx(6) {
            0 => $f::<Bn128Field>($s, $i, "bn128"),
            1 => $f::<Bls12_381Field>($s, $i, "bls12_381"),
            2 => $f::<Bls12_377Field>($s, $i, "bls12_377"),
            3 => $f::<Bw6_761Field>($s, $i, "bw6_761"),
            4 => $f::<PallasField>($s, $i, "pallas"),
            _ => $f::<VestaField>($s, $i, "vesta"),
        }
    };
}

type Vs<'a, T> = Vec<Statement<'a, T>>;
type Mem<'a> = ProgEnum<
    'a,
    Vs<'a, Bls12_381Field>,
    Vs<'a, Bn128Field>,
    Vs<'a, Bls12_377Field>,
    Vs<'a, Bw6_761Field>,
    Vs<'a, PallasField>,
    Vs<'a, VestaField>,
>;

fn read(bytes: &[u8]) -> Result<(Mem<'static>, &'static str), String> {
    let p = ProgEnum::deserialize(Cursor::new(bytes.to_vec()))?;
    let c = p.curve();
    Ok((p.collect(), c))
}

fn errors<T>(p: &Prog<T>) -> Vec<(Option<RuntimeError>, Option<zokrates_ast::common::Span>)> {
    p.statements
        .iter()
        .map(|s| match s {
            Statement::Constraint(c) => (c.error.clone(), c.span),
            Statement::Directive(d) => (None, d.span),
            Statement::Log(d) => (None, d.span),
            Statement::Block(d) => (None, d.span),
        })
        .collect()
}

/// the program as it must be read back: solvers written as functions are numbered
fn same<T: Field>(orig: &Prog<'static, T>, got: &Prog<'static, T>) -> Res {
    if orig.arguments != got.arguments || orig.return_count != got.return_count {
        return fail("serialization:interface", "arguments or number of outputs changed");
    }
    if orig.module_map != got.module_map {
        return fail("serialization:module map", format!("{:?} instead of {:?}", got.module_map, orig.module_map));
    }
    if orig.statements.len() != got.statements.len() {
        return fail("serialization:length", format!("{} statements instead of {}", got.statements.len(), orig.statements.len()));
    }
    for (a, b) in orig.statements.iter().zip(&got.statements) {
        let b = match b {
            Statement::Directive(d) => {
                let mut d = d.clone();
                if let Solver::Ref(r) = &d.solver {
                    match got.solvers.get(r.index) {
                        Some(s) if s.get_signature() == r.signature => d.solver = s.clone(),
                        _ => return fail("serialization:solver", "a numbered solver is missing"),
                    }
                }
                Statement::Directive(d)
            }
            b => b.clone(),
        };
        if *a != b {
            return fail("serialization:statement", format!("`{}` instead of `{}`", b, a));
        }
    }
    if errors(orig) != errors(got) {
        return fail("serialization:errors", "error messages or locations changed");
    }
    Ok(())
}

type Get<'a, T> = &'a dyn Fn(Mem<'static>) -> Option<Prog<'static, T>>;

fn random<T: Field>(s: &mut Src, i: &mut Info, curve: &str, get: Get<T>) -> Res {
    let ir: Ir<T> = generate(s, &prime(curve), true);
    i.label(curve.to_string());
    i.sample(format!("{} {}", curve, ir.prog));
    flat(guard(|| {
        let mut buf = Cursor::new(vec![]);
        let r = ir.prog.clone().serialize(&mut buf);
        let constraints = ir.prog.statements.iter().filter(|s| matches!(s, Statement::Constraint(_))).count();
        match (r, ir.unconstrained) {
            (Ok(n), 0) if n == constraints => {}
            (Ok(n), 0) => return fail("serialization:count", format!("{} constraints reported, there are {}", n, constraints)),
            (Err(e), k) if k > 0 && e.to_string().contains(&format!(" {} unconstrained", k)) => {
                i.label("unconstrained");
                return Ok(());
            }
            (r, k) => return fail("serialization:unconstrained", format!("{:?} with {} unconstrained variables\n{}", r.map_err(|e| e.to_string()), k, ir.prog)),
        }
        i.interesting(&format!("{}{}", curve, ir.prog));
        let bytes = buf.into_inner();
        let (p, name) = match read(&bytes) {
            Ok(p) => p,
            Err(e) => return fail("serialization:refused", e),
        };
        if name != curve {
            return fail("serialization:curve", format!("a program over {} says it is over {}", curve, name));
        }
        let Some(p) = get(p) else {
            return fail("serialization:field", format!("a program over {} is read as one over another curve", curve));
        };
        same(&ir.prog, &p)?;
        // written again, it is the same file
        let mut buf = Cursor::new(vec![]);
        if p.solvers.is_empty() {
            p.clone().serialize(&mut buf).unwrap();
            if buf.into_inner() != bytes {
                return fail("serialization:second time", "writing the program that was read gives other bytes");
            }
        }
        match zk::execute_gen(&p, &ir.inputs).0 {
            Ok(w) if ir.witness.0.iter().all(|(k, v)| w.0.get(k) == Some(v)) => Ok(()),
            r => fail("serialization:execution", format!("{:?} after reading back", r)),
        }
    }))
}

fn damaged<T: Field>(s: &mut Src, i: &mut Info, curve: &str, _: Get<T>) -> Res {
    let ir: Ir<T> = generate(s, &prime(curve), true);
    if ir.unconstrained > 0 {
        return Ok(());
    }
    let mut buf = Cursor::new(vec![]);
    if let Err(e) = ir.prog.clone().serialize(&mut buf) {
        return fail("serialization:unconstrained", e.to_string());
    }
    let mut b = buf.into_inner();
    let kind = s.weighted(&[3, 2, 3, 2, 1]);
    let head = 20 + 4 * 20;
    let what = match kind {
        0 => {
            let k = s.idx(b.len());
            b.truncate(k);
            "cut short"
        }
        1 => {
            let k = s.idx(12);
            b[k] ^= 1 << s.idx(8);
            "magic number, version or curve"
        }
        2 => {
            let k = head + s.idx(b.len() - head);
            b[k] ^= 1 << s.idx(8);
            "contents"
        }
        3 => {
            let k = 20 + s.idx(head - 20);
            b[k] ^= 1 << s.idx(8);
            "section table"
        }
        _ => {
            let n = s.idx(200);
            b = (0..n).map(|_| s.below(256) as u8).collect();
            if s.bool() && n > 12 {
                b[..8].copy_from_slice(&[0x5a, 0x4f, 0x4b, 0, 3, 0, 0, 0]);
                b[8..12].copy_from_slice(&T::id());
            }
            "random bytes"
        }
    };
    i.label(what);
    i.sample(format!("{} {} {}", what, curve, ir.prog));
    i.interesting(&format!("{:?}", b));
    match guard(|| read(&b)) {
        Err(m) => fail(format!("damaged file:{}", pbt::panic_sig(&m)), format!("{}: reading crashes: {}", what, m)),
        Ok(Ok(_)) if kind < 2 => fail(format!("damaged file:accepted:{}", what), "the file is accepted"),
        Ok(Ok((p, _))) => {
            if kind == 2 && b.len() >= 20 {
                let n = u32::from_le_bytes(b[12..16].try_into().unwrap()) as usize;
                let got = count(&p);
                if got != n {
                    return fail("damaged file:shortened", format!("a file with {} constraints is read as a program with {}", n, got));
                }
            }
            Ok(())
        }
        Ok(Err(_)) => Ok(()),
    }
}

fn count(p: &Mem) -> usize {
    fn n<T>(p: &Prog<T>) -> usize {
        p.statements.iter().filter(|s| matches!(s, Statement::Constraint(_))).count()
    }
    match p {
        ProgEnum::Bls12_381Program(p) => n(p),
        ProgEnum::Bn128Program(p) => n(p),
        ProgEnum::Bls12_377Program(p) => n(p),
        ProgEnum::Bw6_761Program(p) => n(p),
        ProgEnum::PallasProgram(p) => n(p),
        ProgEnum::VestaProgram(p) => n(p),
    }
}

/// a compiled program with inputs it accepts
pub fn compiled(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Option<(zk::Compiled<F>, Vec<Vec<F>>, String)> {
    let (case, _) = pbt::lang::gen::generate(s, cfg, &zk::bn_p());
    let src = pbt::lang::print::program(&case.prog);
    i.sample(src.clone());
    let c = zk::compile(&src).ok()?;
    let ins = case
        .inputs
        .iter()
        .map(|v| v.iter().flat_map(|v| v.to_fields()).map(|b| zk::f(&b)).collect())
        .collect();
    Some((c, ins, src))
}

fn programs(s: &mut Src, i: &mut Info) -> Res {
    let cfg = Cfg { asm: s.bool(), inputs: 2, ..Cfg::default() };
    let Some((c, ins, src)) = compiled(s, i, &cfg) else { return Ok(()) };
    flat(guard(|| {
        let mut buf = Cursor::new(vec![]);
        if let Err(e) = c.prog.clone().serialize(&mut buf) {
            if !e.to_string().contains("unconstrained") {
                return fail("serialization:refused", e.to_string());
            }
            i.label("unconstrained");
            return Ok(());
        }
        i.interesting(&src);
        if c.prog.statements.iter().any(|s| matches!(s, Statement::Directive(d) if matches!(d.solver, Solver::Zir(_)))) {
            i.label("functions as solvers");
        }
        let p = match read(&buf.into_inner()) {
            Ok((ProgEnum::Bn128Program(p), _)) => p,
            Ok(_) => return fail("serialization:field", "another curve"),
            Err(e) => return fail("serialization:refused", e),
        };
        same(&c.prog, &p)?;
        for inp in ins {
            let a = zk::execute_gen(&c.prog, &inp);
            let b = zk::execute_gen(&p, &inp);
            if a != b {
                return fail("serialization:execution", format!("{:?} before and {:?} after", a.0, b.0));
            }
        }
        Ok(())
    }))
}

pub fn check<'a>() -> Check<'a> {
    Check::new("C07", "a program that can be written; a damaged file. Distinct by program or bytes")
        .part("random", 15000, 150000, |s, i| curves!(random, s, i))
        .part("damaged", 20000, 200000, |s, i| curves!(damaged, s, i))
        .part("programs", 3000, 30000, programs)
}

// ---- C08: witnesses

fn random_witness<T: Field>(s: &mut Src, p: &BigUint) -> (Witness<T>, usize) {
    let mut w = Witness::empty();
    if s.chance(9, 10) {
        w.insert(Variable::one(), T::one());
    }
    let outs = s.below(14) as usize;
    for k in 0..outs {
        w.insert(Variable::public(k), elem(&s.field(p)));
    }
    for _ in 0..s.below(20) {
        let sh = s.below(40); let k = s.below(1 << sh) as usize;
        w.insert(Variable::new(k), elem(&s.field(p)));
    }
    (w, outs)
}

fn witness<T: Field>(s: &mut Src, i: &mut Info, curve: &str) -> Res {
    let p = prime(curve);
    let (w, outs) = random_witness::<T>(s, &p);
    let cut = s.u64();
    let flip = s.u64();
    i.label(curve.to_string());
    i.sample(format!("{} {}", curve, w));
    if w.0.len() > 1 {
        i.interesting(&format!("{} {}", curve, w));
    }
    flat(guard(|| {
        let mut buf = vec![];
        w.write(&mut buf).unwrap();
        let mut two = buf.clone();
        two.extend_from_slice(&[1, 2, 3]);
        let mut c = Cursor::new(&two);
        match Witness::<T>::read(&mut c) {
            Ok(r) if r == w && c.position() as usize == buf.len() => {}
            r => return fail("witness:round trip", format!("{:?} instead of {:?}", r.map(|r| r.0), w.0)),
        }
        let mut again = vec![];
        Witness::<T>::read(&buf[..]).unwrap().write(&mut again).unwrap();
        if again != buf {
            return fail("witness:second time", "other bytes");
        }
        let ret: Vec<T> = (0..outs).map(|k| w.0[&Variable::public(k)]).collect();
        if w.return_values() != ret {
            return fail("witness:return values", format!("{:?} instead of {:?}", w.return_values(), ret));
        }
        // text and JSON
        let name = |v: &Variable| match v.id {
            0 => "~one".to_string(),
            k if k > 0 => format!("_{}", k - 1),
            k => format!("~out_{}", -k - 1),
        };
        let lines: BTreeSet<String> = w.0.iter().map(|(k, v)| format!("{} {}", name(k), v.to_biguint())).collect();
        let shown = w.to_string();
        let got: BTreeSet<String> = shown.lines().map(|l| l.to_string()).collect();
        if got != lines || shown.lines().count() != w.0.len() {
            return fail("witness:text", shown);
        }
        let mut js = vec![];
        w.write_json(&mut js).unwrap();
        let j: BTreeMap<String, String> = serde_json::from_slice(&js).unwrap();
        let want: BTreeMap<String, String> = w.0.iter().map(|(k, v)| (name(k), v.to_biguint().to_string())).collect();
        if j != want {
            return fail("witness:json", String::from_utf8_lossy(&js).to_string());
        }
        let o: BTreeSet<String> = w.format_outputs().lines().map(|l| l.to_string()).collect();
        let want: BTreeSet<String> = lines.iter().filter(|l| l.starts_with("~out_")).cloned().collect();
        if o != want {
            return fail("witness:outputs", w.format_outputs());
        }
        // damage
        let k = cut as usize % buf.len();
        if Witness::<T>::read(&buf[..k]).is_ok() {
            return fail("witness:cut short", format!("{} of {} bytes are accepted", k, buf.len()));
        }
        let mut d = buf.clone();
        let k = 8 + flip as usize % (buf.len() - 8).max(1);
        if k < d.len() {
            d[k] ^= 1 << (flip >> 61);
            if let Ok(r) = Witness::<T>::read(&d[..]) {
                for v in r.0.values() {
                    if v.to_biguint() >= p || elem::<T>(&v.to_biguint()) != *v {
                        return fail("witness:not reduced", "a value out of range is accepted");
                    }
                }
            }
        }
        // a value that is not reduced
        if !w.0.is_empty() {
            let mut d = buf.clone();
            let size = (buf.len() - 8) / w.0.len() - 8;
            let at = 8 + 8;
            let mut v = (&p + (BigUint::from(flip) % 5u32)).to_bytes_le();
            v.resize(size, 0);
            d[at..at + size].copy_from_slice(&v);
            if Witness::<T>::read(&d[..]).is_ok() {
                return fail("witness:not reduced", "a value equal to the modulus or more is accepted");
            }
        }
        Ok(())
    }))
}

/// the witness of an execution survives being written
fn executions(s: &mut Src, i: &mut Info) -> Res {
    let cfg = Cfg { inputs: 2, total: true, asserts: 0, ..Cfg::default() };
    let Some((c, ins, src)) = compiled(s, i, &cfg) else { return Ok(()) };
    flat(guard(|| {
        for inp in ins {
            let Ok(w) = zk::execute(&c, &inp) else { continue };
            i.interesting(&format!("{}{:?}", src, inp));
            let mut b = vec![];
            w.write(&mut b).unwrap();
            let r = Witness::<F>::read(&b[..]).unwrap();
            if let Some((_, st)) = zk::first_unsatisfied(&c.prog, &zk::getter(&r)) {
                return fail("witness:unsatisfied", st);
            }
            let vals: Vec<F> = c.prog.arguments.iter().zip(&inp).filter(|(a, _)| !a.private).map(|(_, v)| *v).chain(w.return_values()).collect();
            if c.prog.public_inputs_values(&r) != vals {
                return fail("witness:public inputs", "public inputs are not the public arguments and the outputs");
            }
        }
        Ok(())
    }))
}

pub fn witnesses<'a>() -> Check<'a> {
    Check::new("C08", "a witness with two values or more; an execution that succeeds. Distinct by values")
        .part("random", 40000, 200000, |s, i| plain!(witness, s, i))
        .part("executions", 5000, 30000, executions)
}

// ---- C10: circom files

struct R<'a>(&'a [u8]);
impl R<'_> {
    fn take(&mut self, n: usize) -> Result<Vec<u8>, String> {
        if self.0.len() < n {
            return Err("file too short".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a.to_vec())
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn big(&mut self, n: usize) -> Result<BigUint, String> {
        Ok(BigUint::from_bytes_le(&self.take(n)?))
    }
}

fn sections(b: &[u8], magic: &[u8; 4], version: u32) -> Result<HashMap<u32, Vec<u8>>, String> {
    let mut r = R(b);
    if r.take(4)? != magic {
        return Err("magic number".into());
    }
    if r.u32()? != version {
        return Err("version".into());
    }
    let n = r.u32()?;
    let mut out = HashMap::new();
    for _ in 0..n {
        let ty = r.u32()?;
        let len = r.u64()? as usize;
        if out.insert(ty, r.take(len)?).is_some() {
            return Err("two sections of the same type".into());
        }
    }
    if !r.0.is_empty() {
        return Err(format!("{} bytes after the last section", r.0.len()));
    }
    Ok(out)
}

type Lc = Vec<(u32, BigUint)>;
pub struct R1cs {
    n_wires: u32,
    n_out: u32,
    n_pub: u32,
    n_prv: u32,
    constraints: Vec<[Lc; 3]>,
}

fn read_r1cs(b: &[u8], p: &BigUint) -> Result<R1cs, String> {
    let s = sections(b, b"r1cs", 1)?;
    let mut h = R(s.get(&1).ok_or("no header")?);
    let n8 = h.u32()? as usize;
    if n8 % 8 != 0 || BigUint::from(1u32) << (8 * n8) <= *p {
        return Err("field size".into());
    }
    if h.big(n8)? != *p {
        return Err("prime".into());
    }
    let n_wires = h.u32()?;
    let n_out = h.u32()?;
    let n_pub = h.u32()?;
    let n_prv = h.u32()?;
    let labels = h.u64()?;
    let n_constraints = h.u32()?;
    if !h.0.is_empty() {
        return Err("size of the header".into());
    }
    let mut m = R(s.get(&3).ok_or("no map")?);
    let mut seen = BTreeSet::new();
    for _ in 0..n_wires {
        let l = m.u64()?;
        if l >= labels || !seen.insert(l) {
            return Err("label".into());
        }
    }
    if !m.0.is_empty() {
        return Err("size of the map".into());
    }
    let mut c = R(s.get(&2).ok_or("no constraints")?);
    let mut constraints = vec![];
    for _ in 0..n_constraints {
        let mut lcs: [Lc; 3] = Default::default();
        for lc in &mut lcs {
            for _ in 0..c.u32()? {
                let w = c.u32()?;
                let v = c.big(n8)?;
                if w >= n_wires {
                    return Err(format!("wire {} of {}", w, n_wires));
                }
                if v >= *p {
                    return Err("coefficient out of range".into());
                }
                lc.push((w, v));
            }
        }
        constraints.push(lcs);
    }
    if !c.0.is_empty() {
        return Err("size of the constraints".into());
    }
    if 1 + n_out + n_pub > n_wires {
        return Err("fewer wires than outputs and public inputs".into());
    }
    Ok(R1cs { n_wires, n_out, n_pub, n_prv, constraints })
}

fn read_wtns(b: &[u8], p: &BigUint) -> Result<Vec<BigUint>, String> {
    let s = sections(b, b"wtns", 2)?;
    let mut h = R(s.get(&1).ok_or("no header")?);
    let n8 = h.u32()? as usize;
    if h.big(n8)? != *p {
        return Err("prime".into());
    }
    let n = h.u32()?;
    if !h.0.is_empty() {
        return Err("size of the header".into());
    }
    let mut v = R(s.get(&2).ok_or("no values")?);
    let out: Vec<BigUint> = (0..n).map(|_| v.big(n8)).collect::<Result<_, _>>()?;
    if !v.0.is_empty() {
        return Err("size of the values".into());
    }
    if out.iter().any(|v| v >= p) {
        return Err("value out of range".into());
    }
    Ok(out)
}

fn circom<T: Field>(prog: &Prog<'static, T>, inputs: &[T], w: &Witness<T>, p: &BigUint, curve: &str) -> Res {
    let mut a = vec![];
    zokrates_circom::write_r1cs(&mut a, prog.clone()).unwrap();
    let mut b = vec![];
    zokrates_circom::write_witness(&mut b, w.clone(), prog.public_inputs()).unwrap();
    let r = match read_r1cs(&a, p) {
        Ok(r) => r,
        Err(e) => return fail(format!("r1cs:{}", e.chars().filter(|c| !c.is_ascii_digit()).collect::<String>()), format!("{}: {}", curve, e)),
    };
    let v = match read_wtns(&b, p) {
        Ok(r) => r,
        Err(e) => return fail(format!("wtns:{}", e), format!("{}: {}", curve, e)),
    };
    let public: Vec<BigUint> = prog.arguments.iter().zip(inputs).filter(|(a, _)| !a.private).map(|(_, v)| v.to_biguint()).collect();
    let n_prv = prog.arguments.iter().filter(|a| a.private).count();
    if (r.n_out as usize, r.n_pub as usize, r.n_prv as usize) != (prog.return_count, public.len(), n_prv) {
        return fail("r1cs:counts", format!("{} outputs, {} public and {} private inputs", r.n_out, r.n_pub, r.n_prv));
    }
    if v.len() != r.n_wires as usize {
        return fail("circom:wires", format!("{} wires and {} values\n{}", r.n_wires, v.len(), prog));
    }
    // 1, outputs, public inputs
    let mut first = vec![BigUint::from(1u32)];
    first.extend(w.return_values().iter().map(|x| x.to_biguint()));
    first.extend(public);
    if v[..first.len()] != first[..] {
        return fail("circom:public wires", format!("{:?} instead of {:?}", &v[..first.len()], first));
    }
    // the same constraints, in order, on the values of the wires
    let eval = |l: &Lc| l.iter().fold(BigUint::zero(), |acc, (k, c)| (acc + &v[*k as usize] * c) % p);
    let get = zk::getter(w);
    let mine: Vec<[BigUint; 3]> = prog
        .statements
        .iter()
        .filter_map(|s| match s {
            Statement::Constraint(c) => {
                let f = |l| zk::lin(l, &get).unwrap().to_biguint();
                Some([f(&c.quad.left), f(&c.quad.right), f(&c.lin)])
            }
            _ => None,
        })
        .collect();
    if mine.len() != r.constraints.len() {
        return fail("r1cs:number of constraints", format!("{} instead of {}", r.constraints.len(), mine.len()));
    }
    for (k, (m, c)) in mine.iter().zip(&r.constraints).enumerate() {
        let got = [eval(&c[0]), eval(&c[1]), eval(&c[2])];
        if got != *m {
            return fail("circom:constraint", format!("constraint {}: {:?} instead of {:?}\n{}", k, got, m, prog));
        }
        if (&got[0] * &got[1]) % p != got[2] {
            return fail("circom:unsatisfied", format!("constraint {}", k));
        }
    }
    // wires are distinct variables: as many terms on the same wires as in the program
    let shape = |c: &[Lc; 3]| c.iter().map(|l| l.len()).collect::<Vec<_>>();
    let mut names: HashMap<u32, Variable> = HashMap::new();
    let mut back: HashMap<Variable, u32> = HashMap::new();
    let mut k = 0;
    for s in &prog.statements {
        if let Statement::Constraint(c) = s {
            let ls = [&c.quad.left.value, &c.quad.right.value, &c.lin.value];
            if shape(&r.constraints[k]) != ls.iter().map(|l| l.len()).collect::<Vec<_>>() {
                return fail("r1cs:terms", format!("constraint {}", k));
            }
            for (l, m) in ls.iter().zip(&r.constraints[k]) {
                for ((v, _), (w, _)) in l.iter().zip(m) {
                    if *names.entry(*w).or_insert(*v) != *v || *back.entry(*v).or_insert(*w) != *w {
                        return fail("r1cs:wires", format!("wire {} is not one variable", w));
                    }
                }
            }
            k += 1;
        }
    }
    Ok(())
}

fn circom_random<T: Field>(s: &mut Src, i: &mut Info, curve: &str) -> Res {
    let p = prime(curve);
    let ir: Ir<T> = generate(s, &p, true);
    i.label(curve.to_string());
    i.sample(format!("{} {}", curve, ir.prog));
    if ir.unconstrained > 0 || ir.prog.statements.is_empty() {
        return Ok(());
    }
    i.interesting(&format!("{}{}", curve, ir.prog));
    flat(guard(|| match zk::execute_gen(&ir.prog, &ir.inputs).0 {
        Ok(w) => circom(&ir.prog, &ir.inputs, &w, &p, curve),
        Err(e) => fail("circom:execution", format!("{:?}", e)),
    }))
}

fn circom_programs(s: &mut Src, i: &mut Info) -> Res {
    let cfg = Cfg { asm: s.bool(), inputs: 2, ..Cfg::default() };
    let Some((c, ins, src)) = compiled(s, i, &cfg) else { return Ok(()) };
    // programs with unconstrained variables are refused earlier
    if c.prog.clone().serialize(Cursor::new(vec![])).is_err() {
        return Ok(());
    }
    flat(guard(|| {
        for inp in &ins {
            if let Ok(w) = zk::execute(&c, inp) {
                i.interesting(&format!("{}{:?}", src, inp));
                circom(&c.prog, inp, &w, &zk::bn_p(), "bn128")?;
            }
        }
        Ok(())
    }))
}

pub fn circom_check<'a>() -> Check<'a> {
    Check::new("C10", "a program with constraints and an execution that succeeds. Distinct by program and inputs")
        .part("random", 25000, 200000, |s, i| plain!(circom_random, s, i))
        .part("programs", 6000, 40000, circom_programs)
}

// ---- C11: SMT-LIB2

#[derive(Debug, Clone)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}

fn parse_sx(t: &str) -> Result<Vec<Sx>, String> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            ';' => {
                while let Some(c) = it.next() {
                    if c == '\n' {
                        break;
                    }
                }
            }
            '(' => stack.push(vec![]),
            ')' => {
                let l = stack.pop().unwrap();
                stack.last_mut().ok_or("parenthesis")?.push(Sx::L(l));
            }
            '|' => {
                let mut a = String::new();
                loop {
                    match it.next() {
                        Some('|') => break,
                        Some(c) => a.push(c),
                        None => return Err("symbol".into()),
                    }
                }
                stack.last_mut().unwrap().push(Sx::A(a));
            }
            c if c.is_whitespace() => {}
            c => {
                let mut a = c.to_string();
                while let Some(c) = it.peek() {
                    if c.is_whitespace() || *c == '(' || *c == ')' {
                        break;
                    }
                    a.push(it.next().unwrap());
                }
                stack.last_mut().unwrap().push(Sx::A(a));
            }
        }
    }
    if stack.len() != 1 {
        return Err("parenthesis".into());
    }
    Ok(stack.pop().unwrap())
}

fn int(e: &Sx, env: &HashMap<String, BigUint>) -> Result<BigUint, String> {
    match e {
        Sx::A(a) if a.chars().all(|c| c.is_ascii_digit()) => Ok(a.parse().unwrap()),
        Sx::A(a) => env.get(a).cloned().ok_or(format!("undeclared {}", a)),
        Sx::L(l) => match &l[..] {
            [Sx::A(o), r @ ..] if o == "+" && r.len() >= 2 => r.iter().try_fold(BigUint::zero(), |a, e| Ok(a + int(e, env)?)),
            [Sx::A(o), a, b] if o == "*" => Ok(int(a, env)? * int(b, env)?),
            [Sx::A(o), a, b] if o == "mod" => Ok(int(a, env)? % int(b, env)?),
            _ => Err(format!("term {:?}", e)),
        },
    }
}

fn boolean(e: &Sx, env: &HashMap<String, BigUint>) -> Result<bool, String> {
    match e {
        Sx::L(l) => match &l[..] {
            [Sx::A(o), r @ ..] if o == "and" => {
                let mut ok = true;
                for e in r {
                    ok &= boolean(e, env)?;
                }
                Ok(ok)
            }
            [Sx::A(o), a, b] if o == "=" => Ok(int(a, env)? == int(b, env)?),
            _ => Err(format!("formula {:?}", e)),
        },
        _ => Err(format!("formula {:?}", e)),
    }
}

fn smt<T: Field>(s: &mut Src, i: &mut Info, prog: &Prog<'static, T>, w: &Witness<T>, p: &BigUint) -> Res {
    let text = zk::ir::smtlib2::SMTLib2Display(prog).to_string();
    let bad = |e: String| fail(format!("smt:{}", e.chars().take(20).collect::<String>()), format!("{}\n{}", e, text));
    let cmds = match parse_sx(&text) {
        Ok(c) => c,
        Err(e) => return bad(e),
    };
    let mut declared = BTreeSet::new();
    let mut asserts = vec![];
    for c in &cmds {
        match c {
            Sx::L(l) => match &l[..] {
                [Sx::A(d), Sx::A(n), Sx::A(t)] if d == "declare-const" && t == "Int" => {
                    if !declared.insert(n.clone()) {
                        return bad("declared twice".into());
                    }
                }
                [Sx::A(d), f] if d == "assert" => asserts.push(f),
                _ => return bad("unknown command".into()),
            },
            _ => return bad("not a command".into()),
        }
    }
    for t in 0..6 {
        // the witness, then with some values changed
        let mut w = w.clone();
        if t > 0 && !w.0.is_empty() {
            let keys: Vec<Variable> = w.0.keys().cloned().collect();
            for _ in 0..s.range(1, 2) {
                let k = *s.pick(&keys);
                if k != Variable::one() {
                    let d = match s.below(3) {
                        0 => T::one(),
                        1 => T::zero() - *w.0.get(&k).unwrap(),
                        _ => elem(&s.field(p)),
                    };
                    let v = *w.0.get(&k).unwrap() + d;
                    w.insert(k, v);
                }
            }
        }
        let want = zk::first_unsatisfied(prog, &zk::getter(&w)).is_none();
        i.label(if want { "satisfied" } else { "violated" });
        let mut env: HashMap<String, BigUint> = w.0.iter().map(|(k, v)| (k.to_string(), v.to_biguint())).collect();
        env.insert("~prime".into(), p.clone());
        // any representatives of the values will do
        if s.chance(1, 4) {
            for (k, v) in env.iter_mut() {
                if k.starts_with('_') && s.bool() {
                    *v += p;
                }
            }
        }
        env.retain(|k, _| declared.contains(k));
        if let Some(d) = declared.iter().find(|d| !env.contains_key(*d)) {
            return bad(format!("declared without a value: {}", d));
        }
        let mut got = true;
        for a in &asserts {
            match boolean(a, &env) {
                Ok(b) => got &= b,
                Err(e) => return bad(e),
            }
        }
        if got != want {
            return fail(format!("smt:{}", if want { "too strong" } else { "too weak" }), format!("{}\n{}", prog, text));
        }
    }
    Ok(())
}

fn smt_random<T: Field>(s: &mut Src, i: &mut Info, curve: &str) -> Res {
    let p = prime(curve);
    let ir: Ir<T> = generate(s, &p, true);
    i.sample(format!("{} {}", curve, ir.prog));
    i.interesting(&format!("{}{}", curve, ir.prog));
    let Ok(w) = zk::execute_gen(&ir.prog, &ir.inputs).0 else { return Ok(()) };
    s.enter();
    let r = guard(|| smt(s, i, &ir.prog, &w, &p));
    s.exit();
    flat(r)
}

fn smt_programs(s: &mut Src, i: &mut Info) -> Res {
    let cfg = Cfg { asm: s.bool(), inputs: 1, stmts: 5, ..Cfg::default() };
    let Some((c, ins, src)) = compiled(s, i, &cfg) else { return Ok(()) };
    if c.prog.statements.len() > 400 {
        i.label("large");
        return Ok(());
    }
    for inp in &ins {
        if let Ok(w) = zk::execute(&c, inp) {
            i.interesting(&format!("{}{:?}", src, inp));
            let r = guard(|| smt(s, i, &c.prog, &w, &zk::bn_p()));
            flat(r)?;
        }
    }
    Ok(())
}

pub fn smt_check<'a>() -> Check<'a> {
    Check::new("C11", "a program and an execution that succeeds, with changed values. Distinct by program and inputs")
        .part("random", 20000, 150000, |s, i| plain!(smt_random, s, i))
        .part("programs", 6000, 30000, smt_programs)
}
