//! C16: a program spread over files means what it means in one file.
use crate::{norm, tok};
use crate::split::{self, Split};
use pbt::lang::gen::{generate, Cfg};
use pbt::lang::print;
use pbt::{fail, panic_sig, Check, Info, Res, Src};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use zk::{CErr, CErrKind, Compiled, Modules, F};

static COUNT: AtomicU64 = AtomicU64::new(0);

struct Dir(PathBuf);
impl Dir {
    fn new(files: &BTreeMap<String, String>) -> Dir {
        let d = std::env::temp_dir().join(format!("pbt-c16-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
        for (p, t) in files {
            let f = d.join(p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, t).unwrap();
        }
        Dir(d)
    }
    fn compile(&self, files: &BTreeMap<String, String>) -> Result<Compiled<F>, CErr> {
        let main = self.0.join("src/main.zok");
        zk::compile_fs(&files["src/main.zok"], main.to_str().unwrap())
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn valid(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let (case, _) = generate(s, cfg, &zk::bn_p());
    let one = print::program(&case.prog);
    let Some(sp) = s.group(|s| Split::new(s, &case.prog)) else {
        i.label("groups of overloads need each other");
        return Ok(());
    };
    let files = sp.files();
    i.sample(split::show(&files));
    let a = match zk::compile(&one) {
        Ok(a) => Some(a),
        Err(e) if e.kind == CErrKind::Panic => return fail(panic_sig(&e.msg), e.msg),
        Err(_) => None,
    };
    let dir = Dir::new(&files);
    let outcomes = [
        ("in memory", zk::compile_modules(&Modules(files.clone()), "src/main.zok")),
        ("on disk", dir.compile(&files)),
    ];
    for (what, o) in outcomes {
        match (&a, o) {
            (_, Err(e)) if e.kind == CErrKind::Panic => return fail(panic_sig(&e.msg), e.msg),
            (Some(_), Err(e)) => {
                return fail(
                    format!("rejected {what}: {:?}", e.kind),
                    format!("{what}: valid in one file, rejected in several: {} {}", e.file, e.msg),
                )
            }
            (None, Ok(_)) => return fail(format!("accepted {what}"), "rejected in one file, accepted in several"),
            (None, Err(_)) => i.label("rejected"),
            (Some(a), Ok(b)) => {
                if norm::abi(a) != norm::abi(&b) {
                    return fail("ABI", format!("{what}: {} instead of {}", norm::abi(&b), norm::abi(a)));
                }
                if let Some(d) = norm::diff(&norm::prog(a), &norm::prog(&b)) {
                    return fail("program", format!("{what}: {d}"));
                }
            }
        }
    }
    if a.is_some() && sp.paths.len() > 1 && sp.imports.iter().any(|i| !i.is_empty()) {
        i.interesting(&split::show(&files));
        i.count("imports", sp.imports.iter().map(|i| i.len() as u64).sum());
    }
    for f in sp.features {
        i.label(f);
    }
    Ok(())
}

/// one mistake in the imports: rejected with an error
fn broken(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let (case, _) = generate(s, cfg, &zk::bn_p());
    let Some(mut sp) = s.group(|s| Split::new(s, &case.prog)) else {
        return Ok(());
    };
    let seen: Vec<usize> = sp.reachable().into_iter().collect();
    let with: Vec<usize> = seen.iter().copied().filter(|f| !sp.lines[*f].is_empty()).collect();
    if with.is_empty() {
        i.label("nothing imported");
        return Ok(());
    }
    let f = *s.pick(&with);
    let l = s.idx(sp.lines[f].len());
    let mut files = sp.files();
    let what = match s.below(6) {
        0 => {
            let k = 1 + s.idx(seen.len() - 1);
            files.remove(&format!("{}.zok", sp.paths[seen[k]]));
            "missing file"
        }
        1 => {
            // the first name of the line is spelled differently
            let line = sp.lines[f][l].clone();
            match line.split_once("import ") {
                Some((a, b)) if !a.is_empty() => sp.lines[f][l] = format!("{a}import no_{b}"),
                _ => return Ok(()),
            }
            files = sp.files();
            "missing symbol"
        }
        2 => {
            // a name which is used is no longer imported
            let line = sp.lines[f].remove(l);
            files = sp.files();
            let text = &files[&format!("{}.zok", sp.paths[f])];
            let locals: Vec<String> = line
                .trim_end_matches(';')
                .rsplit("import")
                .next()
                .unwrap()
                .split(',')
                .map(|x| x.rsplit([' ', '/']).next().unwrap().trim_matches('"').trim_end_matches(".zok").to_string())
                .collect();
            let body: String = text.lines().filter(|l| !l.starts_with("import") && !l.starts_with("from")).collect::<Vec<_>>().join("\n");
            let used = tok::words(&body);
            if !locals.iter().any(|n| used.contains(n)) {
                i.label("not used");
                return Ok(());
            }
            "dropped import"
        }
        3 => {
            // the importing file is imported by what it imports
            let k = sp.imports[f][s.idx(sp.imports[f].len())].file;
            let path = split::relative(&sp.paths[k], &sp.paths[f]);
            let name = sp.names[f].values().next().unwrap().clone();
            sp.lines[k].push(format!("from \"{path}\" import {name} as QCYCLE;"));
            files = sp.files();
            "cyclic import"
        }
        4 => {
            let k = seen[s.idx(seen.len())];
            let path = sp.paths[k].rsplit('/').next().unwrap().to_string();
            sp.lines[k].push(format!("from \"./{path}\" import main as QSELF;"));
            files = sp.files();
            "import of itself"
        }
        _ => {
            let line = sp.lines[f][l].clone();
            let Some(p) = line.split('"').nth(1) else { return Ok(()) };
            let (d, n) = p.rsplit_once('/').unwrap();
            sp.lines[f][l] = line.replace(p, &format!("{d}/{}{n}", *s.pick(&["x", "../", "no/", "."])));
            files = sp.files();
            let d = sp.paths[f].rsplit_once("/").map_or("", |x| x.0);
            let target = sp.lines[f][l].split('"').nth(1).unwrap().trim_end_matches(".zok").to_string();
            let mut v: Vec<&str> = d.split("/").filter(|x| !x.is_empty()).collect();
            for part in target.split('/') {
                match part {
                    "." => {}
                    ".." => {
                        v.pop();
                    }
                    x => v.push(x),
                }
            }
            if sp.paths.contains(&v.join("/")) {
                return Ok(());
            }
            "wrong path"
        }
    };
    i.sample(format!("// {what}\n{}", split::show(&files)));
    let dir = Dir::new(&files);
    let outcomes = [
        ("in memory", zk::compile_modules(&Modules(files.clone()), "src/main.zok")),
        ("on disk", dir.compile(&files)),
    ];
    for (how, o) in outcomes {
        match o {
            Err(e) if e.kind == CErrKind::Panic => return fail(format!("{what}: {}", panic_sig(&e.msg)), e.msg),
            Err(_) => {}
            Ok(_) => return fail(format!("accepted: {what}"), format!("{how}: a program with a {what} is accepted")),
        }
    }
    i.label(what);
    i.interesting(&split::show(&files));
    Ok(())
}

pub fn check<'a>() -> Check<'a> {
    let general = Cfg { asserts: 10, funs: 5, ..Cfg::default() };
    let small = Cfg { asserts: 0, funs: 4, stmts: 2, depth: 1, ..Cfg::default() };
    Check::new(
        "C16",
        "a program in at least two files with at least one import; distinct by the files; or one with a mistake in its imports",
    )
    .part("valid", 4000, 100000, move |s, i| valid(s, i, &general))
    .part("one mistake", 5000, 40000, move |s, i| broken(s, i, &small))
}
