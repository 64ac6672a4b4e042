//! Proof systems: honest proofs verify, anything else does not, the files say what they should.
use crate::irgen::{elem, generate_with, Ir};
use num_bigint::BigUint;
use pbt::lang::gen::Cfg;
use pbt::run::{Info, Res};
use pbt::{fail, guard, Check, Src};
use rand_0_8::rngs::StdRng;
use rand_0_8::SeedableRng;
use serde_json::Value;
use zk::{Field, Prog, Statement, Variable, Witness};
use zokrates_ark::Ark;
use zokrates_bellman::Bellman;
use zokrates_field::*;
use zokrates_proof_systems::*;

/// A scheme and a backend, with the setup of its kind
trait System<T: Field>: 'static {
    type S: Scheme<T>;
    type B: Backend<T, Self::S>;
    const NAME: &'static str;
    fn setup(p: Prog<'static, T>, rng: &mut StdRng) -> Result<SetupKeypair<T, Self::S>, String>;
    fn least() -> usize {
        0
    }
}

struct BellmanG16;
impl<T: Field + BellmanFieldExtensions> System<T> for BellmanG16 {
    type S = G16;
    type B = Bellman;
    const NAME: &'static str = "bellman g16";
    fn setup(p: Prog<'static, T>, rng: &mut StdRng) -> Result<SetupKeypair<T, G16>, String> {
        Ok(<Bellman as NonUniversalBackend<T, G16>>::setup(p, rng))
    }
}
struct ArkGm17;
impl<T: Field + ArkFieldExtensions> System<T> for ArkGm17 {
    type S = GM17;
    type B = Ark;
    const NAME: &'static str = "ark gm17";
    fn setup(p: Prog<'static, T>, rng: &mut StdRng) -> Result<SetupKeypair<T, GM17>, String> {
        Ok(<Ark as NonUniversalBackend<T, GM17>>::setup(p, rng))
    }
}
fn hex(s: &str) -> Option<BigUint> {
    BigUint::parse_bytes(s.strip_prefix("0x")?.as_bytes(), 16)
}

/// number of bytes of an element
fn width(p: &BigUint) -> usize {
    ((p.bits() + 63) / 64) * 8
}

fn hexed(v: &BigUint, w: usize) -> String {
    format!("0x{:0>n$}", v.to_str_radix(16), n = 2 * w)
}

fn leaves<'a>(v: &'a mut Value, out: &mut Vec<&'a mut String>) {
    match v {
        Value::String(s) => out.push(s),
        Value::Array(l) => l.iter_mut().for_each(|v| leaves(v, out)),
        Value::Object(m) => m.iter_mut().for_each(|(_, v)| leaves(v, out)),
        _ => (),
    }
}

fn session<T: Field, Y: System<T>>(s: &mut Src, i: &mut Info, prog: &Prog<'static, T>, inputs: &[T], w: &Witness<T>, text: &str) -> Res
{
    let p = zk::modulus::<T>();
    let name = format!("{} {}", Y::NAME, T::name());
    i.label(name.clone());
    let seed = s.u64();
    let how = s.below(9);
    let (r1, r2, r3) = (s.u64(), s.u64(), s.u64());
    let r = guard(|| -> Res {
        let rng = &mut StdRng::seed_from_u64(seed);
        let kp = match Y::setup(prog.clone(), rng) {
            Ok(kp) => kp,
            Err(e) => return fail("setup:refused", format!("{}: {}", name, e)),
        };
        let proof = Y::B::generate_proof(prog.clone(), w.clone(), kp.pk.as_slice(), rng);
        // the files
        let vk = serde_json::to_string(&TaggedVerificationKey::<T, Y::S>::new(kp.vk)).unwrap();
        let proof = serde_json::to_string(&TaggedProof::<T, Y::S>::new(proof.proof, proof.inputs)).unwrap();
        let vk: Value = serde_json::from_str(&vk).unwrap();
        let proof: Value = serde_json::from_str(&proof).unwrap();
        for v in [&vk, &proof] {
            let scheme = name.split(' ').nth(1).unwrap();
            if v["scheme"] != scheme || v["curve"] != T::name() {
                return fail("file:scheme or curve", format!("{}: {} {}", name, v["scheme"], v["curve"]));
            }
        }
        let check = |vk: &Value, proof: &Value| -> Result<bool, String> {
            let vk = serde_json::from_value(vk.clone()).map_err(|e| e.to_string())?;
            let proof = serde_json::from_value(proof.clone()).map_err(|e| e.to_string())?;
            guard(|| Y::B::verify(vk, proof))
        };
        // inputs: the public arguments, then the outputs
        let mut want: Vec<BigUint> = prog.arguments.iter().zip(inputs).filter(|(a, _)| !a.private).map(|(_, v)| v.to_biguint()).collect();
        want.extend((0..prog.return_count).map(|k| w.0[&Variable::public(k)].to_biguint()));
        let got: Vec<Option<BigUint>> = proof["inputs"].as_array().unwrap().iter().map(|v| hex(v.as_str().unwrap())).collect();
        if got != want.iter().cloned().map(Some).collect::<Vec<_>>() {
            return fail("proof:inputs", format!("{}: {:?} instead of {:?}\n{}", name, got, want, text));
        }
        if proof["inputs"].as_array().unwrap().iter().any(|v| v.as_str().unwrap().len() != 2 + 2 * width(&p)) {
            return fail("proof:format of the inputs", proof["inputs"].to_string());
        }
        match check(&vk, &proof) {
            Ok(true) => (),
            r => return fail("verify:honest proof", format!("{}: {:?}\n{}", name, r, text)),
        }
        // what must be refused
        let n = want.len();
        let refuse = |what: &str, vk: &Value, p: &Value| match check(vk, p) {
            Ok(true) => fail(format!("accepted:{}", what), format!("{}\n{} {}\n{}", name, vk, p, text)),
            _ => Ok(()),
        };
        let w8 = width(&p);
        let mut bad = proof.clone();
        match how {
            0 | 1 if n > 0 => {
                let k = r1 as usize % n;
                let x = match r2 % 4 {
                    0 => (&want[k] + 1u32) % &p,
                    1 => (&p - &want[k]) % &p,
                    2 => BigUint::from(0u32),
                    _ => (&want[k] + r3) % &p,
                };
                if x == want[k] {
                    return Ok(());
                }
                bad["inputs"][k] = hexed(&x, w8).into();
                refuse("another public input", &vk, &bad)
            }
            2 if n > 0 => {
                let k = r1 as usize % n;
                bad["inputs"][k] = hexed(&(&want[k] + &p), w8).into();
                refuse("public input out of range", &vk, &bad)
            }
            3 if n > 0 => {
                let l = bad["inputs"].as_array_mut().unwrap();
                let k = r1 as usize % n;
                match r2 % 3 {
                    0 => {
                        l.remove(k);
                    }
                    1 => l.push(hexed(&BigUint::from(0u32), w8).into()),
                    _ => {
                        let j = r3 as usize % n;
                        l.swap(k, j);
                        if want[k] == want[j] {
                            return Ok(());
                        }
                    }
                }
                refuse("other public inputs", &vk, &bad)
            }
            4 | 5 => {
                let mut l = vec![];
                leaves(&mut bad["proof"], &mut l);
                let k = r1 as usize % l.len();
                let before = l[k].clone();
                let len = l[k].len();
                let v = hex(l[k]).unwrap();
                let same: Vec<String> = l.iter().filter(|x| x.len() == len && ***x != before).map(|x| x.to_string()).collect();
                *l[k] = match r2 % 3 {
                    0 if !same.is_empty() => same[r3 as usize % same.len()].clone(),
                    1 => hexed(&(v + 1u32), len / 2 - 1),
                    _ => hexed(&BigUint::from(r3), len / 2 - 1),
                };
                refuse("another proof", &vk, &bad)
            }
            6 => {
                let rng = &mut StdRng::seed_from_u64(seed ^ 1);
                let Ok(kp) = Y::setup(prog.clone(), rng) else { return Ok(()) };
                let other = serde_json::to_value(TaggedVerificationKey::<T, Y::S>::new(kp.vk)).unwrap();
                if other == vk {
                    return Ok(());
                }
                refuse("verification key of another setup", &other, &proof)
            }
            _ => {
                // a witness that does not satisfy the program
                let mut bw = w.clone();
                let keys: Vec<Variable> = bw.0.keys().cloned().filter(|v| *v != Variable::one()).collect();
                if keys.is_empty() {
                    return Ok(());
                }
                let k = keys[r1 as usize % keys.len()];
                let x = bw.0[&k] + T::from(1 + (r2 % 3) as u32);
                bw.insert(k, x);
                if zk::first_unsatisfied(prog, &zk::getter(&bw)).is_none() {
                    return Ok(());
                }
                match guard(|| Y::B::generate_proof(prog.clone(), bw, kp.pk.as_slice(), rng)) {
                    Err(_) => Ok(()),
                    Ok(pr) => {
                        let pr = serde_json::to_value(TaggedProof::<T, Y::S>::new(pr.proof, pr.inputs)).unwrap();
                        refuse("proof of an execution that does not satisfy the program", &vk, &pr)
                    }
                }
            }
        }
    });
    match r {
        Ok(r) => r,
        Err(m) => fail(pbt::panic_sig(&m), format!("{}: {}\n{}", name, m, text)),
    }
}

fn constraints<T: Field>(p: &Prog<T>) -> usize {
    p.statements.iter().filter(|s| matches!(s, Statement::Constraint(_))).count()
}

/// the compiler leaves no term with coefficient 0
fn zero_terms<T: Field>(p: &Prog<T>) -> bool {
    p.statements.iter().any(|s| match s {
        Statement::Constraint(c) => [&c.quad.left, &c.quad.right, &c.lin].iter().any(|l| l.value.iter().any(|(_, c)| *c == T::zero())),
        _ => false,
    })
}

fn random<T: Field, Y: System<T>>(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::modulus::<T>();
    let ir: Ir<T> = generate_with(s, &p, true, true);
    i.sample(format!("{} {}", T::name(), ir.prog));
    if constraints(&ir.prog) < Y::least() || ir.unconstrained > 0 || zero_terms(&ir.prog) {
        return Ok(());
    }
    i.interesting(&format!("{}{}{}{:?}", Y::NAME, T::name(), ir.prog, ir.inputs));
    let text = ir.prog.to_string();
    session::<T, Y>(s, i, &ir.prog, &ir.inputs, &ir.witness, &text)
}

fn programs<T: Field, Y: System<T>>(s: &mut Src, i: &mut Info) -> Res {
    let p = zk::modulus::<T>();
    let cfg = Cfg { inputs: 1, ..Cfg::default() };
    let (case, _) = pbt::lang::gen::generate(s, &cfg, &p);
    let src = pbt::lang::print::program(&case.prog);
    i.sample(format!("{}\n{}", T::name(), src));
    let Ok(c) = zk::compile_at::<T>(&src, "main.zok", None, false) else { return Ok(()) };
    // programs with unconstrained variables are refused
    if c.prog.clone().serialize(std::io::Cursor::new(vec![])).is_err() {
        return Ok(());
    }
    let n = constraints(&c.prog);
    if n < Y::least() || n > 250 {
        return Ok(());
    }
    let Some(inp) = case.inputs.first() else { return Ok(()) };
    let inp: Vec<T> = inp.iter().flat_map(|v| v.to_fields()).map(|b| elem(&b)).collect();
    let Ok(w) = zk::execute_gen(&c.prog, &inp).0 else { return Ok(()) };
    i.interesting(&format!("{}{}{:?}", Y::NAME, src, inp));
    session::<T, Y>(s, i, &c.prog, &inp, &w, &src)
}

macro_rules! systems {
    ($f:ident, $s:expr, $i:expr) => {
        match $s.weighted(&[3, 2, 2, 2, 1]) {
            0 => $f::<Bn128Field, BellmanG16>($s, $i),
            1 => $f::<Bls12_381Field, BellmanG16>($s, $i),
            2 => $f::<Bn128Field, ArkGm17>($s, $i),
            3 => $f::<Bls12_377Field, ArkGm17>($s, $i),
            _ => $f::<Bw6_761Field, ArkGm17>($s, $i),
        }
    };
}

pub fn check<'a>() -> Check<'a> {
    Check::new("C22", "a setup, a proof and its verification, then one alteration. Distinct by system, curve, program and inputs")
        .part("random", 1500, 30000, |s, i| systems!(random, s, i))
        .part("programs", 500, 10000, |s, i| systems!(programs, s, i))
}
