//! C15: whatever the text, the compiler answers with a program or with an error, and the interpreter with a witness
//! or with an error. The text is compiled by a worker process, so that a stack overflow or an endless compilation
//! is an observation like any other.
use crate::tok::{join, tokens, Kind, Tok};
use num_traits::{One, Zero};
use pbt::lang::gen::{generate, Cfg};
use pbt::lang::print;
use pbt::{fail, panic_sig, Check, Info, Res, Src};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;
use zk::CErrKind;

/// how long a case may take, in seconds
const PATIENCE: u64 = 5;

// ---- the worker

fn answer(src: &str) -> String {
    match zk::compile_fs(src, "main.zok") {
        Err(e) if e.kind == CErrKind::Panic => format!("panic compile {}", e.msg),
        Err(e) => format!("rejected {:?} {}", e.kind, e.msg),
        Ok(c) => {
            let n = c.prog.arguments.len();
            let mut failed = 0;
            for inputs in [vec![zk::F::zero(); n], vec![zk::F::one(); n], (0..n).map(|i| if i % 2 == 0 { zk::F::one() } else { zk::F::zero() }).collect()] {
                match zk::execute(&c, &inputs) {
                    Err(zk::XErr::Panic(p)) => return format!("panic execute {p}"),
                    Err(_) => failed += 1,
                    Ok(_) => {}
                }
            }
            format!("accepted, {failed} of 3 executions fail")
        }
    }
}

pub fn worker() -> i32 {
    pbt::run::install_hook();
    let t = std::thread::Builder::new().stack_size(8388608).spawn(|| {
        let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
        loop {
            let mut n = [0; 4];
            if i.read_exact(&mut n).is_err() {
                return;
            }
            let mut b = vec![0; u32::from_le_bytes(n) as usize];
            i.read_exact(&mut b).unwrap();
            let r = answer(&String::from_utf8(b).unwrap());
            o.write_all(format!("@@{}\n", r.replace('\n', "\u{1}")).as_bytes()).unwrap();
            o.flush().unwrap();
        }
    });
    t.unwrap().join().map(|_| 0).unwrap_or(1)
}

struct Worker {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
    err: Receiver<String>,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn lines(r: impl Read + Send + 'static) -> Receiver<String> {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        use std::io::BufRead;
        let mut r = std::io::BufReader::new(r);
        let mut l = vec![];
        while matches!(r.read_until(b'\n', &mut l), Ok(n) if n > 0) {
            if tx.send(String::from_utf8_lossy(&l).trim_end().to_string()).is_err() {
                return;
            }
            l.clear();
        }
    });
    rx
}

fn start() -> Worker {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new("bash")
        .args(["-c", "ulimit -v 3000000; ulimit -c 0; exec \"$0\" worker"])
        .arg(exe)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    Worker {
        to: child.stdin.take().unwrap(),
        from: lines(child.stdout.take().unwrap()),
        err: lines(child.stderr.take().unwrap()),
        child,
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = RefCell::new(None);
}

enum Ans {
    Said(String),
    Slow,
    Died(String),
}

fn ask(src: &str) -> Ans {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        let k = w.get_or_insert_with(start);
        while k.err.try_recv().is_ok() {}
        let mut m = (src.len() as u32).to_le_bytes().to_vec();
        m.extend_from_slice(src.as_bytes());
        let sent = k.to.write_all(&m).and_then(|_| k.to.flush()).is_ok();
        let end = std::time::Instant::now() + Duration::from_secs(PATIENCE);
        let r = loop {
            if !sent {
                break Ans::Died(String::new());
            }
            match k.from.recv_timeout(end.saturating_duration_since(std::time::Instant::now())) {
                Ok(l) if l.starts_with("@@") => return Ans::Said(l[2..].replace('\u{1}', "\n")),
                Ok(_) => {}
                Err(RecvTimeoutError::Timeout) => break Ans::Slow,
                Err(RecvTimeoutError::Disconnected) => {
                    let mut e = vec![];
                    while let Ok(l) = k.err.recv_timeout(Duration::from_millis(300)) {
                        e.push(l);
                    }
                    break Ans::Died(e.join("\n"));
                }
            }
        };
        *w = None;
        r
    })
}

fn judge(i: &mut Info, src: &str) -> Res {
    match ask(src) {
        Ans::Said(m) if m.starts_with("panic ") => {
            let m = m["panic ".len()..].to_string();
            let (what, m) = m.split_once(' ').unwrap();
            let did = if what == "compile" { "the compiler" } else { "the execution" };
            fail(panic_sig(m), format!("{did} panics: {m}\n{src}"))
        }
        Ans::Said(m) => {
            let kind = m.split(&[',', ' '][..]).take(2).collect::<Vec<_>>().join(" ");
            let kind = if m.starts_with("accepted") { "accepted".into() } else { kind };
            if kind != "rejected Parse" {
                i.interesting(src);
            }
            i.label(kind);
            i.sample(format!("{src}\n=> {}", m.chars().take(200).collect::<String>()));
            Ok(())
        }
        Ans::Slow => {
            i.label("no answer in time");
            Ok(())
        }
        Ans::Died(e) if e.contains("memory allocation") => {
            i.label("out of memory");
            Ok(())
        }
        Ans::Died(e) if e.contains("overflowed its stack") => fail("stack overflow", format!("the compiler overflows its stack\n{src}")),
        Ans::Died(e) => fail("died", format!("the compiler dies: {}\n{src}", e.chars().take(400).collect::<String>())),
    }
}

// ---- texts

const WORDS: &[&str] = &[
    "field", "bool", "u8", "u16", "u32", "u64", "def", "struct", "type", "const", "import", "from", "as", "for", "in", "return", "assert",
    "if", "else", "true", "false", "mut", "private", "public", "log", "asm", "main", "x", "a", "N", "_", "{", "}", "(", ")", "[", "]", "<", ">",
    "::<", "::", "..", "...", ",", ";", ".", "->", "=", "==", "!=", "<=", ">=", "&&", "||", "!", "+", "-", "*", "**", "/", "%", "&", "|", "^",
    "<<", ">>", "?", ":", "<--", "===", "<==", "\"\"", "\"{}\"", "\"utils/casts/u32_to_bits\"", "#pragma curve bn128",
];

const NUMS: &[&str] = &[
    "0", "1", "2", "3", "5", "7", "8", "9", "16", "31", "32", "33", "64", "65", "255", "256", "0x00", "0xff", "0x0001", "0x00000001",
    "0x0000000000000003", "1f", "0f", "1u8", "2u16", "3u32", "4u64", "256u8", "300u16", "0x", "1field", "007",
    "21888242871839275222246405745257275088548364400416034343698204186575808495616",
    "21888242871839275222246405745257275088548364400416034343698204186575808495617",
    "21888242871839275222246405745257275088548364400416034343698204186575808495618f",
];

const BIG: &[&str] = &["65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"];

const EXPRS: &[&str] = &[
    "1 - 2", "1 / 0", "1 % 0", "2 ** 40", "1 << 40", "0 - 1", "-1", "+1", "!true", "(1, 2)", "(1,)", "[1, 2]", "[true; 2]", "[[1; 2]; 2]", "[...[1]]",
    "[0; 0]", "x[0]", "x[1..]", "x[..1]", "x[..]", "x[2..1]", "x.a", "x.0", "x.1.0", "x(1)", "x::<1>(1)", "x::<_>(1)", "if true { 1 } else { 2 }",
    "true ? 1 : 2", "S { a: 1 }", "S::<2> { a: 1 }", "1f / 0f", "1f ** 2", "1f ** -1", "2 ** 3u32", "1 < 2", "1f < 2f", "1u8 + 1u8", "1u8 / 0u8", "255u8 + 1u8",
    "[1][0]", "[1][1]", "[1, 2][0..1]", "(1, true).1", "x == x", "x != x", "x && x", "x | x", "x ^ 1", "x >> 1", "x << x", "-x", "!x", "N", "N - 1", "N * 2",
    "[x; N]", "[N; 2]", "u32_to_bits(1)", "...x", "1 + true", "x as u8", "main(x)", "0x00000001 - 0x00000002",
];

const STMTS: &[&str] = &[
    "log(\"{}\", x);", "log(\"{} {}\", 1u8);", "log(\"\");", "log(\"{\", x);", "log(\"}\");", "assert(true);", "assert(false);", "assert(false, \"m\");", "assert(1 == 1);", "assert(x);",
    "for u32 k in 0..2 { }", "for u32 k in 2..0 { log(\"{}\", k); }", "for u32 k in 0..N { x = x + 1; }", "for field k in 0..2 { }", "u32 mut q = 0;", "u32 q = 1 - 2;", "u8[2] q = [1, 2];",
    "field mut q = 0; q = q + 1;", "(u8, bool) q = (1, true);", "u8[0] q = [];", "u8[1][2] q = [[1], [2]];", "bool[2] q = [true; 2];", "q[0] = 1;", "q[3] = 1;", "q.a = 1;", "q.0 = 1;", "q = q;",
    "asm { x === x; }", "asm { x <-- 1; }", "asm { x <== x * x; }", "field mut y = 0; asm { y <-- 1 / 0; y * 0 === 0; }", "asm { }", "return;", "return 1;", "return (1, 2);", "S q = S { a: 1 };", "S<1> q = S { a: [1] };",
    "field y = x / 0;", "field y = 1 / x;", "u8 y = x / 0;", "u32 y = x % 3;", "return x;", "q[0..1] = [1];", "x[0..1] = x;", "for u32 k in 0..1 { return x; }", "field q = [1, 2][0];", "bool q = (1, true).1;", "field y = (0 - x) | 1;",
    "field mut y = 0; asm { y <-- 0 - 1 | x; y === y; }", "field mut y = 0; asm { y <== y * x << 3; }", "field mut y = 0; asm { y <-- x > 3 ? 1 : 0; y * y === y; }", "field mut y = 0; asm { y <-- x \\ 3; y === y; }",
];

const DEFS: &[&str] = &[
    "struct S { field a; }", "struct S<N> { u8[N] a; }", "struct S<N> { S<N> a; }", "struct S { }", "struct S<N> { field a; }", "type T = field;", "type T<N> = u8[N];", "type T<N> = S<N>;", "type T = T;",
    "const u32 N = 1;", "const u32 N = N;", "const u32 N = 1 - 2;", "const field N = 1f / 0f;", "const u8[2] N = [1, 2];", "const u32 N = f(1);", "const u32 N = 2 ** 31;", "const S N = S { a: 1 };",
    "def f<N>(field[N] a) -> field { return a[0]; }", "def f<N>(field[N] a) -> field { return a[N]; }", "def f<N>(field[N] a) -> field[N - 1] { return a[1..]; }", "def f(u32 a) -> u32 { return f(a); }", "def f<N>() -> u32 { return f::<N + 1>(); }",
    "def f(field a) -> bool { return a; }", "def f() { return; }", "def f<N>(u32 a) -> u32[N] { return [a; N]; }", "def f() -> (u32, bool) { return (1, true); }",
    "import \"utils/casts/u32_to_bits\";", "import \"utils/casts/u32_to_bits\" as f;", "from \"utils/casts/u32_to_bits\" import main as f;", "from \"hashes/sha256/512bit\" import nope;", "import \"nope\";", "import \"EMBED\";", "from \"EMBED\" import u32_to_bits;", "from \"EMBED\" import unpack, FIELD_SIZE_IN_BITS;", "from \"field\" import FIELD_MAX;",
    "#pragma curve bn128", "#pragma curve pallas", "#pragma curve nope", "def main(field a) -> field { return a; }", "def main() { return; }",
];

fn one(s: &mut Src, xs: &[&'static str]) -> &'static str {
    xs[s.idx(xs.len())]
}

fn number(s: &mut Src) -> &'static str {
    if s.chance(1, 60) {
        one(s, BIG)
    } else {
        one(s, NUMS)
    }
}

fn mutate(s: &mut Src, t: &mut Vec<Tok>) {
    let solid: Vec<usize> = (0..t.len()).filter(|k| t[*k].kind != Kind::Gap).collect();
    if solid.is_empty() {
        return;
    }
    let of = |t: &Vec<Tok>, k: Kind| -> Vec<usize> { (0..t.len()).filter(|i| t[*i].kind == k).collect() };
    let at = *s.pick(&solid);
    let tok = |x: &str| Tok { kind: Kind::Gap, text: format!(" {x} ") };
    match s.weighted(&[2, 1, 2, 2, 2, 6, 6, 5, 3, 4, 3, 3, 3]) {
        0 => {
            t.remove(at);
        }
        1 => {
            let x = t[at].clone();
            t.insert(at, x);
        }
        2 => {
            let b = *s.pick(&solid);
            t.swap(at, b);
        }
        3 => t[at] = tok(one(s, WORDS)),
        4 => t.insert(at, tok(one(s, WORDS))),
        // a name by another name
        5 => {
            let w = of(t, Kind::Word);
            if !w.is_empty() {
                let (a, b) = (*s.pick(&w), *s.pick(&w));
                t[a].text = t[b].text.clone();
            }
        }
        // a number by another number, by a name or by an expression
        6 => {
            let w = of(t, Kind::Num);
            let n = of(t, Kind::Word);
            if !w.is_empty() {
                let a = *s.pick(&w);
                match s.below(4) {
                    0 | 1 => t[a] = Tok { kind: Kind::Num, text: number(s).to_string() },
                    2 if !n.is_empty() => t[a] = t[*s.pick(&n)].clone(),
                    _ => t[a] = tok(one(s, EXPRS)),
                }
            }
        }
        // a name by an expression
        7 => {
            let w = of(t, Kind::Word);
            if !w.is_empty() {
                let a = *s.pick(&w);
                let own = t[a].text.clone();
                let e = if s.bool() { one(s, EXPRS).replace('x', &own) } else { one(s, EXPRS).to_string() };
                t[a] = tok(&e);
            }
        }
        // a piece of the text moved or copied
        8 => {
            let l = s.urange(1, 9).min(t.len() - at);
            let piece: Vec<Tok> = t[at..at + l].to_vec();
            if s.bool() {
                t.drain(at..at + l);
            }
            let to = s.idx(t.len() + 1);
            t.splice(to..to, piece);
        }
        // a statement
        9 => {
            let ends: Vec<usize> = (0..t.len()).filter(|k| t[*k].text == ";" || t[*k].text == "{").collect();
            if !ends.is_empty() {
                let a = *s.pick(&ends);
                let w = of(t, Kind::Word);
                let own = t[*s.pick(&w)].text.clone();
                let e = if s.bool() { one(s, STMTS).replace('x', &own) } else { one(s, STMTS).to_string() };
                t.insert(a + 1, tok(&e));
            }
        }
        // a definition
        10 => {
            let d = format!("{}\n", one(s, DEFS));
            let at = if s.bool() { 0 } else { t.iter().position(|k| k.text == "def").unwrap_or(0) };
            t.insert(at, Tok { kind: Kind::Gap, text: d });
        }
        // an operator or a type by another one
        11 => {
            let ops: Vec<usize> = (0..t.len()).filter(|k| "+ - * ** / % & | ^ << >> < <= > >= == != && || ! ? . .. ...".split(' ').any(|o| o == t[*k].text)).collect();
            if !ops.is_empty() {
                let a = *s.pick(&ops);
                t[a].text = (one(s, &["+", "-", "*", "**", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&&", "||"])).into();
            }
        }
        _ => {
            let ty: Vec<usize> = (0..t.len()).filter(|k| "field bool u8 u16 u32 u64".split(' ').any(|o| o == t[*k].text)).collect();
            if !ty.is_empty() {
                let a = *s.pick(&ty);
                t[a].text = (*s.pick(&["field", "bool", "u8", "u16", "u32", "u64", "field[2]", "(u8, bool)", "u32[N]", "S", "T<2>", "field[0]", "u32[2][1]"])).into();
            }
        }
    }
}

fn mutants(s: &mut Src, i: &mut Info, cfg: &Cfg) -> Res {
    let p = zk::bn_p();
    let (c, _) = generate(s, cfg, &p);
    let mut t = tokens(&print::program(&c.prog));
    let n = 1 + s.weighted(&[5, 3, 2, 1]);
    for _ in 0..n {
        s.enter();
        mutate(s, &mut t);
        s.exit();
    }
    judge(i, &join(&t))
}

/// small programs put together from pieces which are each well-formed
fn pieces(s: &mut Src, i: &mut Info) -> Res {
    let mut src = String::new();
    for _ in 0..s.below(4) {
        src += one(s, DEFS);
        src += "\n";
    }
    let ty = |s: &mut Src| *s.pick(&["field", "bool", "u8", "u32", "u64", "field[2]", "u32[3]", "(field, bool)", "S", "S<2>", "T", "T<1>", "u8[N]", "field[1][2]", "u32[0]"]);
    let par: Vec<String> = ["x", "a", "b"][..s.idx(4)].iter().map(|n| format!("{}{} {n}", one(s, &["", "", "private ", "public ", "mut "]), ty(s))).collect();
    let ret = if s.bool() { format!(" -> {}", ty(s)) } else { String::new() };
    src += &format!("def main({}){ret} {{\n", par.join(", "));
    fn ex(s: &mut Src, d: u32) -> String {
        match s.below(if d == 0 { 3 } else { 9 }) {
            0 => one(s, EXPRS).to_string(),
            1 => one(s, &["x", "a", "b", "q", "N", "k"]).to_string(),
            2 => number(s).to_string(),
            3 | 4 => format!("({} {} {})", ex(s, d - 1), one(s, &["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "<", "<=", "==", "!=", "&&", "||"]), ex(s, d - 1)),
            5 => format!("(if {} {{ {} }} else {{ {} }})", ex(s, d - 1), ex(s, d - 1), ex(s, d - 1)),
            6 => format!("{}[{}]", ex(s, d - 1), ex(s, d - 1)),
            7 => format!("[{}, {}]", ex(s, d - 1), ex(s, d - 1)),
            _ => format!("f({})", ex(s, d - 1)),
        }
    }
    for _ in 0..s.below(4) {
        s.enter();
        let l = match s.below(4) {
            0 => one(s, STMTS).to_string(),
            1 => format!("{} q = {};", ty(s), ex(s, 2)),
            2 => format!("assert({});", ex(s, 2)),
            _ => format!("log(\"{{}}\", {});", ex(s, 2)),
        };
        s.exit();
        src += &format!("  {l}\n");
    }
    src += &if ret.is_empty() { "}\n".into() } else { format!("  return {};\n}}\n", ex(s, 2)) };
    judge(i, &src)
}

/// tokens without any structure
fn soup(s: &mut Src, i: &mut Info) -> Res {
    let mut src = String::new();
    for _ in 0..s.urange(0, 40) {
        let t: String = match s.below(8) {
            0 => number(s).into(),
            1 => one(s, EXPRS).to_string(),
            2 => one(s, STMTS).to_string(),
            3 => one(s, DEFS).to_string(),
            4 => char::from_u32(*s.pick(&[0u32, 9, 10, 13, 32, 34, 35, 39, 47, 92, 96, 127, 0xa0, 0xe9, 0x2028, 0xfeff, 0x1f600])).unwrap().to_string(),
            _ => one(s, WORDS).to_string(),
        };
        src += &t;
        src += one(s, &["", " ", "\n"]);
    }
    judge(i, &src)
}

pub fn check<'a>() -> Check<'a> {
    let cfg = Cfg { stmts: 5, budget: 120, inputs: 1, asm: true, ..Cfg::default() };
    Check::new(
        "C15",
        "a text which the compiler and the interpreter answer with a result or an error; non-trivial when the parser accepts it; distinct by text",
    )
    .part("mutants", 60000, 400000, move |s, i| mutants(s, i, &cfg))
    .part("pieces", 50000, 400000, pieces)
    .part("soup", 5000, 100000, soup)
}
