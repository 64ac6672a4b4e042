//! C13: the result of a compilation depends on nothing but the program.
use crate::{norm, tok};
use pbt::lang::gen::{generate, Cfg};
use pbt::lang::print;
use pbt::{fail, panic_sig, Check, Info, Res, Src};
use std::collections::BTreeMap;
use zk::{CErrKind, Compiled, F};

fn bytes(c: Compiled<F>) -> Result<Vec<u8>, String> {
    let mut out = std::io::Cursor::new(vec![]);
    c.prog.clone().serialize(&mut out).map_err(|e| format!("{e:?}"))?;
    Ok(out.into_inner())
}

/// everything a compilation gives
fn outcome(src: &str, debug: bool) -> (String, Result<Vec<u8>, String>) {
    match zk::compile_at::<F>(src, "main.zok", None, debug) {
        Err(e) => (format!("error {:?} {} {}", e.kind, e.msg, e.file), Ok(vec![])),
        Ok(c) => (norm::abi(&c), bytes(c)),
    }
}

fn repeat(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let (case, _) = generate(s, cfg, &zk::bn_p());
    let src = print::program(&case.prog);
    let debug = cfg.logs > 0 && s.bool();
    let noise = s.u64();
    i.sample(src.clone());
    let a = outcome(&src, debug);
    let mut others = vec![("again", outcome(&src, debug))];
    let t = src.clone();
    let work = move || {
        // something else first
        let mut n = Src::random(noise);
        let (c, _) = generate(&mut n, &Cfg { budget: 60, ..Cfg::default() }, &zk::bn_p());
        let _ = zk::compile(&print::program(&c.prog));
        outcome(&t, debug)
    };
    others.push((
        "in another thread",
        std::thread::Builder::new().stack_size(64 << 20).spawn(work).unwrap().join().unwrap(),
    ));
    for (what, o) in others {
        if a.0 != o.0 {
            return fail("different ABI or error", format!("compiled {what}: {} and {}", a.0, o.0));
        }
        if a.1 != o.1 {
            return fail("different program", format!("compiled {what}, the program differs"));
        }
    }
    if matches!(&a.1, Ok(b) if !b.is_empty()) {
        i.interesting(&src);
    }
    Ok(())
}

fn gap(s: &mut Src) -> String {
    let mut out = String::new();
    loop {
        out.push_str(match s.below(9) {
            0 | 1 => " ",
            2 => "\n",
            3 => "\t",
            4 => "\r\n",
            5 => "/* a * comment; return 1 */",
            6 => "// assert(false) \"\n",
            7 => "/**/",
            _ => "//\n",
        });
        if s.chance(1, 2) {
            return out;
        }
    }
}

/// other white space and comments
fn layout(s: &mut Src, src: &str) -> String {
    let t = tok::tokens(src);
    let loose = |t: &tok::Tok| t.kind == tok::Kind::Punct && ",;()[]{}".contains(&t.text[..]);
    let mut out = String::new();
    for (k, x) in t.iter().enumerate() {
        if x.kind == tok::Kind::Gap {
            let removable = k == 0 || k + 1 == t.len() || loose(&t[k - 1]) || loose(&t[k + 1]);
            match s.below(6) {
                0 if removable => {}
                0 | 1 => {
                    if out.ends_with('/') {
                        out.push(' ');
                    }
                    out.push_str(&gap(s))
                }
                2 => out.push(' '),
                _ => out.push_str(&x.text),
            }
            continue;
        }
        if k > 0 && t[k - 1].kind != tok::Kind::Gap && s.chance(1, 8) {
            if out.ends_with('/') {
                out.push(' ');
            }
            out.push_str(&gap(s));
        }
        out.push_str(&x.text);
    }
    out
}

/// `m`: the ABI differs by these names
fn same(i: &mut Info, a: &str, b: &str, what: &str, m: Option<&BTreeMap<String, String>>) -> Res {
    i.sample(format!("{a}\n// ---- {what}\n{b}"));
    let x = zk::compile(a);
    let y = zk::compile(b);
    match (x, y) {
        (Err(e), Err(f)) => {
            i.label("both rejected");
            for e in [e, f] {
                if e.kind == CErrKind::Panic {
                    return fail(panic_sig(&e.msg), e.msg);
                }
            }
            Ok(())
        }
        (Ok(_), Err(f)) => fail(format!("rejected: {what}"), format!("only the rewritten program is rejected: {:?} {}", f.kind, f.msg)),
        (Err(f), Ok(_)) => fail(format!("accepted: {what}"), format!("only the original is rejected: {:?} {}", f.kind, f.msg)),
        (Ok(x), Ok(y)) => {
            let mut abi = norm::abi(&x);
            if let Some(m) = m {
                abi = abi
                    .split('"')
                    .enumerate()
                    .map(|(k, w)| if k % 2 == 1 { m.get(w).cloned().unwrap_or(w.into()) } else { w.into() })
                    .collect::<Vec<String>>()
                    .join("\"");
            }
            if abi != norm::abi(&y) {
                return fail(format!("ABI: {what}"), format!("{} instead of {abi}", norm::abi(&y)));
            }
            if let Some(d) = norm::diff(&norm::prog(&x), &norm::prog(&y)) {
                return fail(format!("program: {what}"), d);
            }
            i.count("statements compared", x.prog.statements.len() as u64);
            i.interesting(b);
            Ok(())
        }
    }
}

fn layouts(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let (case, _) = generate(s, cfg, &zk::bn_p());
    let src = print::program(&case.prog);
    let other = layout(s, &src);
    same(i, &src, &other, "layout", None)
}

/// other names
fn names(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let (case, _) = generate(s, cfg, &zk::bn_p());
    let src = print::program(&case.prog);
    let letter = |w: &str| {
        let mut c = w.chars();
        matches!(c.next(), Some('A' | 'K' | 'S' | 'P' | 'm' | 'N' | 'f' | 'a' | 'v' | 'i' | 's'))
            && w.len() > 1
            && c.all(|c| c.is_ascii_digit())
    };
    let old: Vec<String> = tok::words(&src).into_iter().filter(|w| letter(w)).collect();
    let style = s.below(3);
    let mut new: Vec<String> = (0..old.len())
        .map(|k| match style {
            // the same names, permuted
            0 => old[k].clone(),
            1 => format!("{}{}", ["x", "Y", "z_", "unpack_", "mainly"][k % 5], k),
            _ => format!("{}_{}", ["field", "u8", "if_", "public", "log", "for_", "mut", "as", "true", "private", "bool_", "in"][k % 12], k),
        })
        .collect();
    for k in (1..new.len()).rev() {
        let j = s.idx(k + 1);
        new.swap(k, j);
    }
    let m: BTreeMap<String, String> = old.into_iter().zip(new).collect();
    let other = tok::rename(&src, &m);
    same(i, &src, &other, "names", Some(&m))
}

pub fn check<'a>() -> Check<'a> {
    let general = Cfg { asserts: 10, ..Cfg::default() };
    let asm = Cfg { asm: true, logs: 10, funs: 4, budget: 400, ..Cfg::default() };
    let g2 = general.clone();
    let g3 = general.clone();
    Check::new(
        "C13",
        "a program which compiles, compared with itself compiled again in other circumstances, or with a rewritten text of the same program; distinct by source text",
    )
    .part("repeat", 2500, 60000, move |s, i| repeat(s, i, &general))
    .part("repeat: asm, logs", 2000, 40000, move |s, i| repeat(s, i, &asm))
    .part("layout", 4000, 100000, move |s, i| layouts(s, i, &g2))
    .part("names", 4000, 100000, move |s, i| names(s, i, &g3))
}
