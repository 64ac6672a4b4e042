//! C18: what is logged, and which failure is reported.
use crate::util::*;
use pbt::lang::ast::*;
use pbt::lang::gen::{generate, Case, Cfg};
use pbt::lang::interp::{FailKind, Outcome};
use pbt::{fail, panic_sig, Check, Info, Res, Src};
use zk::{CErrKind, XErr};

/// a value as it is printed; objects with their members in order or sorted
fn render(v: &V, sorted: bool) -> String {
    let all = |v: &Vec<V>| format!("[{}]", v.iter().map(|v| render(v, sorted)).collect::<Vec<_>>().join(","));
    match v {
        V::P(p) => match &p.v {
            PV::F(b) => format!("\"{b}\""),
            PV::B(b) => b.to_string(),
            PV::U(n, u) => format!("\"0x{:01$x}\"", u, *n as usize / 4),
        },
        V::A(v) | V::T(v) => all(v),
        V::S(_, m) => {
            let mut m: Vec<_> = m.iter().collect();
            if sorted {
                m.sort_by(|a, b| a.0.cmp(&b.0));
            }
            format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{k}\":{}", render(v, sorted))).collect::<Vec<_>>().join(","))
        }
    }
}

/// the lines of a run, up to the first value which is not defined
fn expected(o: &Outcome, sorted: bool) -> (String, bool) {
    let mut out = String::new();
    for (f, vs) in &o.logs {
        let mut parts = f.split("{}");
        out.push_str(parts.next().unwrap());
        for (v, p) in vs.iter().zip(parts) {
            if v.prims().iter().any(|p| p.poison) {
                return (out, false);
            }
            out.push_str(&render(v, sorted));
            out.push_str(p);
        }
        out.push('\n');
    }
    (out, true)
}

/// the lines are some of the expected ones, and the first `upto` of these are all there, once at least. Those which are
/// not from calls inside of an operation are in order.
fn explained(got: &[&str], want: &[&str], nested: &[bool], upto: usize) -> Option<String> {
    let may: Vec<&str> = want.iter().zip(nested).filter(|x| *x.1).map(|x| *x.0).collect();
    let mut at = 0;
    for g in got {
        match want[at..].iter().position(|w| w == g) {
            _ if may.contains(g) => {}
            Some(k) => at += k + 1,
            None => return Some(format!("`{g}` is not expected there")),
        }
    }
    (0..upto).find(|k| !nested[*k] && !got.contains(&want[*k])).map(|k| format!("`{}` is missing", want[k]))
}

/// every assertion gets a message of its own, or none
fn number(s: &mut Src, prog: &mut Program) {
    fn walk(s: &mut Src, b: &mut [S], n: &mut usize) {
        for st in b {
            match st {
                S::Assert(_, m) => {
                    *n += 1;
                    *m = if s.chance(3, 4) {
                        Some(format!("{}{}", *s.pick(&["no. ", "a {} b", "value: ", "é ", "x, y ("]), n))
                    } else {
                        None
                    };
                }
                S::For { body, .. } => walk(s, body, n),
                _ => {}
            }
        }
    }
    let mut n = 0;
    s.group(|s| {
        for f in &mut prog.funs {
            walk(s, &mut f.body, &mut n)
        }
    });
}

/// the failures a message can stand for
fn matching(msg: &str, src: &str, i: &mut Info) -> Result<Box<dyn Fn(&FailKind) -> bool>, String> {
    let place = |at: &str| -> Result<String, String> {
        let mut p = at.split(':');
        let file = p.next().unwrap_or("");
        let l: usize = p.next().and_then(|l| l.parse().ok()).ok_or("no line")?;
        let c: String = p.next().unwrap_or("").chars().take_while(|c| c.is_ascii_digit()).collect();
        let c: usize = c.parse().map_err(|_| "no column")?;
        if file != "main.zok" {
            return Err(format!("the file is `{file}`"));
        }
        let line = src.lines().nth(l - 1).ok_or("there is no such line")?;
        Ok(line.chars().skip(c - 1).collect())
    };
    if let Some(at) = msg.strip_prefix("Assertion failed at ") {
        let text = place(at)?;
        if !text.starts_with("assert(") {
            return Err(format!("there is no assertion there, but `{text}`"));
        }
        i.count("assertions reported", 1);
        return match at.split_once(": \"") {
            Some((_, m)) => {
                let m = m.strip_suffix('"').ok_or("no closing quote")?.to_string();
                if !text.ends_with(&format!(", \"{m}\");")) {
                    return Err(format!("the assertion there has another message: `{text}`"));
                }
                i.count("with a message", 1);
                Ok(Box::new(move |k| *k == FailKind::Assert(Some(m.clone()))))
            }
            None if text.ends_with("\");") => Err(format!("the message is missing: `{text}`")),
            None => Ok(Box::new(|k| *k == FailKind::Assert(None))),
        };
    }
    if let Some(at) = msg.strip_prefix("Unsatisfied constraint at ") {
        let text = place(at)?;
        if !text.contains("==") {
            return Err(format!("there is no constraint there, but `{text}`"));
        }
        return Ok(Box::new(|k| *k == FailKind::Asm));
    }
    match msg {
        "Division by zero" => Ok(Box::new(|k| *k == FailKind::DivByZero)),
        "Out of bounds array access" => Ok(Box::new(|k| matches!(k, FailKind::OutOfBounds | FailKind::OobRead))),
        "Failed to compare field elements because dynamic comparison is incomplete" => {
            Ok(Box::new(|k| *k == FailKind::FieldRange))
        }
        m => Err(format!("not a failure of the program: {m}")),
    }
}

fn run(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let (mut case, _): (Case, _) = generate(s, cfg, &zk::bn_p());
    number(s, &mut case.prog);
    let src = pbt::lang::print::program(&case.prog);
    i.sample(show_case(&case));
    let c = match zk::compile_debug(&src) {
        Ok(c) => c,
        Err(e) if e.kind == CErrKind::Panic => return fail(panic_sig(&e.msg), e.msg),
        Err(_) => {
            i.label("rejected");
            return Ok(());
        }
    };
    let quiet = zk::compile(&src);
    let mut seen = (false, false);
    for (k, input) in case.inputs.iter().enumerate() {
        let o = reference_run(&case.prog, input, &zk::bn_p());
        let ins = encode(input);
        let (r, log) = zk::execute_log(&c, &ins);
        let log = String::from_utf8_lossy(&log).to_string();
        let place = format!("inputs {k}: {}", show_inputs(input));
        if let Ok(q) = &quiet {
            let (r2, log2) = zk::execute_log(q, &ins);
            if !log2.is_empty() {
                return fail("logs without debugging", format!("{place}: {}", String::from_utf8_lossy(&log2)));
            }
            match (&r, &r2) {
                (Ok(a), Ok(b)) if a.return_values() != b.return_values() => {
                    return fail("outputs with and without logs", place)
                }
                _ => {}
            }
        }
        let (want, whole) = expected(&o, true);
        let (want2, _) = expected(&o, false);
        if !whole {
            i.label("an undefined value is logged");
            continue;
        }
        // a call with the arguments of an earlier one may be taken from there, and is not logged again
        let got: Vec<&str> = log.lines().collect();
        let want: Vec<&str> = want.lines().collect();
        let want2: Vec<&str> = want2.lines().collect();
        let differs = |upto: usize| explained(&got, &want, &o.nested, upto).and_then(|_| explained(&got, &want2, &o.nested, upto));
        match r {
            Err(XErr::Panic(m)) => return fail(panic_sig(&m), m),
            Ok(_) => {
                if let Some(e) = differs(want.len()) {
                    return fail("logged", format!("{place}: {e}; logged\n{log}instead of\n{}", want.join("\n")));
                }
                seen.0 |= !o.logs.is_empty();
                i.count("lines logged", o.logs.len() as u64);
            }
            Err(XErr::Failed(m)) => {
                let m2 = m.clone();
                let f = match matching(&m, &src, i) {
                    Ok(f) => f,
                    Err(e) => return fail("report", format!("{place}: {m}: {e}")),
                };
                // something after a failing assertion is not executed
                let last = o.fails.iter().position(|f| f.must && matches!(f.kind, FailKind::Assert(_)));
                let upto = last.map_or(o.fails.len(), |l| l + 1);
                let Some(at) = o.fails[..upto].iter().position(|x| f(&x.kind)) else {
                    return fail(
                        "another failure",
                        format!("{place}: reported `{m2}`, but what fails is {:?}", o.fails),
                    );
                };
                let least = o.fails[0].at;
                let most = o.fails[upto - 1].at;
                let _ = at;
                let most = if last.is_some() { most } else { want.len() };
                if let Some(e) = differs(least.min(want.len())) {
                    return fail("logged before a failure", format!("{place}: {e}; logged\n{log}instead of\n{}\n{m2}", want.join("\n")));
                }
                if let Some(l) = got.iter().find(|l| !want[..most.min(want.len())].contains(l) && !want2[..most.min(want2.len())].contains(l)) {
                    return fail("logged after a failure", format!("{place}: `{l}` was logged before the failure `{m2}`"));
                }
                seen.1 = true;
                i.count("failures reported", 1);
            }
        }
    }
    if seen.0 && seen.1 {
        i.label("logs and a failure");
    }
    if seen.0 || seen.1 {
        i.interesting(&src);
    }
    Ok(())
}

pub fn check<'a>() -> Check<'a> {
    let logs = Cfg { logs: 30, asserts: 8, ..Cfg::default() };
    let failing = Cfg { logs: 15, asserts: 40, ..Cfg::default() };
    Check::new(
        "C18",
        "a program which logs something or fails with a report, on some input; distinct by the program",
    )
    .part("logs", 8000, 60000, move |s, i| run(s, i, &logs))
    .part("failures", 8000, 60000, move |s, i| run(s, i, &failing))
}
