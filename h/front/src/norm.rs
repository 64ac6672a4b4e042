//! A compiled program, without positions in the source.
use zk::{Compiled, Field, Statement};
use zokrates_ast::common::RuntimeError;

pub fn statement<T: Field>(s: &Statement<'static, T>) -> String {
    match s {
        Statement::Constraint(c) => {
            let e = match &c.error {
                None => "none".to_string(),
                Some(RuntimeError::SourceAssertion(m)) => format!("assertion {:?}", m.message),
                Some(RuntimeError::SourceAssemblyConstraint(m)) => format!("asm {:?}", m.message),
                Some(e) => format!("{:?}", e),
            };
            format!("{} == {} [{}]", c.quad, c.lin, e)
        }
        s => s.to_string(),
    }
}

pub fn prog<T: Field>(c: &Compiled<T>) -> Vec<String> {
    let p = &c.prog;
    let mut out = vec![
        format!("arguments {:?}", p.arguments.iter().map(|a| (a.id.to_string(), a.private)).collect::<Vec<_>>()),
        format!("returns {}", p.return_count),
    ];
    out.extend(p.solvers.iter().map(|s| format!("solver {:?}", s)));
    out.extend(p.statements.iter().map(statement));
    out
}

pub fn abi<T: Field>(c: &Compiled<T>) -> String {
    serde_json::to_string(&c.abi).unwrap()
}

/// first difference
pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    for k in 0..a.len().max(b.len()) {
        let x = a.get(k).map(|s| s.as_str()).unwrap_or("(nothing)");
        let y = b.get(k).map(|s| s.as_str()).unwrap_or("(nothing)");
        if x != y {
            return Some(format!("line {} is `{}` and `{}`", k, x, y));
        }
    }
    None
}
