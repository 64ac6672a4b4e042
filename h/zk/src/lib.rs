//! Drives the code under test: compile, execute, look at the constraint system.
use num_bigint::BigUint;
use pbt::guard;
use std::collections::{BTreeMap, HashMap};
use std::io;
use std::path::PathBuf;
use typed_arena::Arena;
pub use zokrates_abi;
pub use zokrates_ast::ir;
pub use zokrates_ast::ir::{LinComb, Prog, QuadComb, Solver, Statement, Variable, Witness};
pub use zokrates_ast::typed::abi::Abi;
pub use zokrates_ast::typed::ConcreteType;
pub use zokrates_common::{CompileConfig, Resolver};
use zokrates_core::compile::{compile as zk_compile, CompileErrorInner, CompileErrors};
pub use zokrates_field::{Bn128Field, Field};

pub mod adv;
pub type F = Bn128Field;

pub fn modulus<T: Field>() -> BigUint {
    T::max_value().to_biguint() + BigUint::from(1u32)
}

/// the curve's modulus as published, not as the code computes it
pub const BN128_P: &str =
    "21888242871839275222246405745257275088548364400416034343698204186575808495617";

pub fn bn_p() -> BigUint {
    BN128_P.parse().unwrap()
}

pub fn f(v: &BigUint) -> F {
    F::try_from(v.clone()).expect("reduced value")
}

/// modules by path; a relative import is resolved against the importing file
pub struct Modules(pub BTreeMap<String, String>);

impl Resolver<io::Error> for Modules {
    fn resolve(&self, cur: PathBuf, imp: PathBuf) -> Result<(String, PathBuf), io::Error> {
        let mut parts: Vec<String> = cur
            .parent()
            .map(|p| {
                p.components()
                    .map(|c| c.as_os_str().to_string_lossy().into_owned())
                    .collect()
            })
            .unwrap_or_default();
        for c in imp.components() {
            match c {
                std::path::Component::CurDir => {}
                std::path::Component::ParentDir => {
                    parts.pop();
                }
                c => parts.push(c.as_os_str().to_string_lossy().into_owned()),
            }
        }
        let mut path = parts.join("/");
        if !path.ends_with(".zok") {
            path.push_str(".zok");
        }
        match self.0.get(&path) {
            Some(s) => Ok((s.clone(), path.into())),
            None => Err(io::Error::new(io::ErrorKind::Other, "no such module")),
        }
    }
}

pub fn stdlib_root() -> &'static str {
    "/repo/zokrates_stdlib/stdlib"
}

/// the program borrows from the arena: it is dropped first
pub struct Compiled<T: Field> {
    pub prog: Prog<'static, T>,
    pub abi: Abi,
    _arena: ArenaBox,
}

struct ArenaBox(*mut Arena<String>);
unsafe impl Send for ArenaBox {}
impl Drop for ArenaBox {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0)) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CErrKind {
    Panic,
    Parse,
    Import,
    Macro,
    Semantic,
    Read,
    Analysis,
}

#[derive(Clone, Debug)]
pub struct CErr {
    pub kind: CErrKind,
    pub msg: String,
    pub file: String,
}

fn err(e: CompileErrors) -> CErr {
    let e = &e.0[0];
    CErr {
        kind: match e.value() {
            CompileErrorInner::ParserError(_) => CErrKind::Parse,
            CompileErrorInner::ImportError(_) => CErrKind::Import,
            CompileErrorInner::MacroError(_) => CErrKind::Macro,
            CompileErrorInner::SemanticError(_) => CErrKind::Semantic,
            CompileErrorInner::ReadError(_) => CErrKind::Read,
            CompileErrorInner::AnalysisError(_) => CErrKind::Analysis,
        },
        msg: e.value().to_string(),
        file: e.file().display().to_string(),
    }
}

pub fn compile_at<T: Field>(
    src: &str,
    main: &str,
    resolver: Option<&dyn Resolver<io::Error>>,
    debug: bool,
) -> Result<Compiled<T>, CErr> {
    let arena = ArenaBox(Box::into_raw(Box::new(Arena::new())));
    let a: &'static Arena<String> = unsafe { &*arena.0 };
    let r = guard(|| {
        zk_compile::<T, io::Error>(
            src.to_string(),
            PathBuf::from(main),
            resolver,
            CompileConfig::default().debug(debug),
            a,
        )
        .map_err(err)
        .map(|x| {
            let (p, abi) = x.into_inner();
            (p.collect(), abi)
        })
    });
    match r {
        Err(p) => Err(CErr {
            kind: CErrKind::Panic,
            msg: p,
            file: main.into(),
        }),
        Ok(Err(e)) => Err(e),
        Ok(Ok((prog, abi))) => Ok(Compiled {
            prog,
            abi,
            _arena: arena,
        }),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum XErr {
    /// the execution was refused, with the message shown to the user
    Failed(String),
    Panic(String),
}

pub fn execute_gen<T: Field>(
    prog: &Prog<'static, T>,
    inputs: &[T],
) -> (Result<Witness<T>, XErr>, Vec<u8>) {
    let mut log = vec![];
    let r = guard(|| {
        zokrates_interpreter::Interpreter::default()
            .execute_with_log_stream(
                inputs,
                prog.statements.iter(),
                &prog.arguments,
                &prog.solvers,
                &mut log,
            )
            .map_err(|e| e.to_string())
    });
    (
        match r {
            Err(p) => Err(XErr::Panic(p)),
            Ok(Err(e)) => Err(XErr::Failed(e)),
            Ok(Ok(w)) => Ok(w),
        },
        log,
    )
}

/// the program before and after optimization
pub struct Pair {
    pub raw: Prog<'static, F>,
    pub opt: Prog<'static, F>,
    _arena: ArenaBox,
}

pub fn optimize(p: Prog<'static, F>) -> Result<Prog<'static, F>, String> {
    guard(|| zokrates_core::optimizer::optimize(p).clean().collect())
}

#[inline(never)]
pub fn compile_pair(src: &str) -> Result<Pair, String> {
    let arena = ArenaBox(Box::into_raw(Box::new(Arena::new())));
    let a: &'static Arena<String> = unsafe { &*arena.0 };
    let raw = guard(|| {
        zokrates_core::compile::compile_unoptimized::<F, io::Error>(
            src.to_string(),
            PathBuf::from("main.zok"),
            None,
            CompileConfig::default(),
            a,
        )
        .map(|x| x.into_inner().0.collect())
        .map_err(|e| err(e).msg)
    })
    .and_then(|r| r)?;
    let opt = optimize(raw.clone()).map_err(|e| format!("the optimizer panics: {e}"))?;
    Ok(Pair { raw, opt, _arena: arena })
}

#[inline(never)]
pub fn compile(src: &str) -> Result<Compiled<F>, CErr> {
    compile_at::<F>(src, "main.zok", None, false)
}
#[inline(never)]
pub fn compile_debug(src: &str) -> Result<Compiled<F>, CErr> {
    compile_at::<F>(src, "main.zok", None, true)
}
#[inline(never)]
pub fn compile_modules(mods: &Modules, main: &str) -> Result<Compiled<F>, CErr> {
    compile_at::<F>(&mods.0[main], main, Some(mods), false)
}
/// with the standard library; relative imports are resolved from the file system
#[inline(never)]
pub fn compile_fs(src: &str, main: &str) -> Result<Compiled<F>, CErr> {
    let r = zokrates_fs_resolver::FileSystemResolver::with_stdlib_root(stdlib_root());
    compile_at::<F>(src, main, Some(&r), false)
}
#[inline(never)]
pub fn execute(c: &Compiled<F>, inputs: &[F]) -> Result<Witness<F>, XErr> {
    execute_gen(&c.prog, inputs).0
}
#[inline(never)]
pub fn execute_log(c: &Compiled<F>, inputs: &[F]) -> (Result<Witness<F>, XErr>, Vec<u8>) {
    execute_gen(&c.prog, inputs)
}

/// value of a linear combination, None if a variable has no value
pub fn lin<T: Field>(l: &LinComb<T>, get: &impl Fn(&Variable) -> Option<T>) -> Option<T> {
    let mut acc = T::zero();
    for (v, c) in &l.value {
        acc = acc + get(v)? * c;
    }
    Some(acc)
}
pub fn quad<T: Field>(q: &QuadComb<T>, get: &impl Fn(&Variable) -> Option<T>) -> Option<T> {
    Some(lin(&q.left, get)? * lin(&q.right, get)?)
}

/// index of the first constraint the assignment does not satisfy
pub fn first_unsatisfied<T: Field>(
    prog: &Prog<'static, T>,
    get: &impl Fn(&Variable) -> Option<T>,
) -> Option<(usize, String)> {
    for (i, s) in prog.statements.iter().enumerate() {
        if let Statement::Constraint(c) = s {
            let l = quad(&c.quad, get);
            let r = lin(&c.lin, get);
            if l.is_none() || r.is_none() {
                return Some((i, format!("a variable of `{}` has no value", s)));
            }
            if l != r {
                return Some((i, s.to_string()));
            }
        }
    }
    None
}

pub fn getter<T: Field>(w: &Witness<T>) -> impl Fn(&Variable) -> Option<T> + '_ {
    move |v| w.0.get(v).copied()
}

pub type Assignment<T> = HashMap<Variable, T>;
