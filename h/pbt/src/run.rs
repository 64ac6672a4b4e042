//! Runs a property: generated cases over all cores, shrinking, replay files, evidence, known findings.
use crate::src::{hash64, hash_str, Node, Src};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Failure {
    /// names the kind of failure; the shrinker keeps it, and known findings are listed by it
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Failure>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure {
        sig: sig.into(),
        msg: msg.into(),
    })
}

/// What a case says about itself
#[derive(Default)]
pub struct Info {
    pub labels: Vec<String>,
    pub nontrivial: Option<u64>,
    pub sample: Option<String>,
    pub counts: BTreeMap<String, u64>,
}

impl Info {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into())
    }
    pub fn count(&mut self, l: &str, n: u64) {
        *self.counts.entry(l.to_string()).or_default() += n;
    }
    /// marks the case as non-trivial; cases with the same key count once
    pub fn interesting(&mut self, key: &str) {
        self.nontrivial = Some(hash_str(key));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        self.sample = Some(s.into());
    }
}

type CaseFn<'a> = Box<dyn Fn(&mut Src, &mut Info) -> Res + Sync + 'a>;

struct Part<'a> {
    name: String,
    quick: u64,
    thorough: u64,
    f: CaseFn<'a>,
}

pub struct Check<'a> {
    id: String,
    rule: String,
    assumptions: Vec<String>,
    parts: Vec<Part<'a>>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static GUARDED: RefCell<bool> = RefCell::new(false);
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if GUARDED.with(|g| *g.borrow()) {
            let loc = i
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit("/repo/").next().unwrap_or(f);
                    let f = f.rsplit("/registry/src/").next().unwrap_or(f);
                    format!("{}:{}", f, l.line())
                })
                .unwrap_or_default();
            let msg = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{} @ {}", msg, loc)));
        } else {
            default(i)
        }
    }));
}

/// Runs code of the system under test; a panic becomes `Err(message @ file:line)`
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = GUARDED.with(|g| std::mem::replace(&mut *g.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() = before);
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

/// panic text without line numbers and quoted values, for signatures
pub fn panic_sig(m: &str) -> String {
    let (msg, loc) = m.rsplit_once(" @ ").unwrap_or((m, ""));
    let file = loc.split(':').next().unwrap_or("");
    let mut s: String = msg
        .chars()
        .take(60)
        .map(|c| if c.is_ascii_digit() { '#' } else { c })
        .collect();
    while s.contains("##") {
        s = s.replace("##", "#");
    }
    format!("panic:{}:{}", file, s.replace('\n', " "))
}

struct Found {
    part: usize,
    index: u64,
    tape: Node,
    failure: Failure,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: BTreeMap<u64, String>,
    known: BTreeMap<String, u64>,
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl<'a> Check<'a> {
    pub fn new(id: &str, rule: &str) -> Self {
        install_hook();
        Check {
            id: id.into(),
            rule: rule.into(),
            assumptions: vec![],
            parts: vec![],
        }
    }
    pub fn assume(mut self, s: &str) -> Self {
        self.assumptions.push(s.into());
        self
    }
    pub fn part(
        mut self,
        name: &str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Src, &mut Info) -> Res + Sync + 'a,
    ) -> Self {
        self.parts.push(Part {
            name: name.into(),
            quick,
            thorough,
            f: Box::new(f),
        });
        self
    }

    fn known(&self) -> Vec<(String, String)> {
        let path = format!("{}/known_findings.json", verif_dir());
        let Ok(text) = std::fs::read_to_string(&path) else {
            return vec![];
        };
        let v: Value = serde_json::from_str(&text).expect("known_findings.json must be JSON");
        v["findings"]
            .as_array()
            .map(|a| {
                a.iter()
                    .filter(|f| f["property"] == json!(self.id))
                    .map(|f| {
                        (
                            f["sig"].as_str().unwrap().to_string(),
                            f["what"].as_str().unwrap().to_string(),
                        )
                    })
                    .collect()
            })
            .unwrap_or_default()
    }

    fn run_case(&self, part: usize, src: &mut Src) -> (Info, Res) {
        let mut info = Info::default();
        let r = (self.parts[part].f)(src, &mut info);
        (info, r)
    }

    fn case_seed(&self, seed: u64, part: usize, index: u64) -> u64 {
        let base = hash64(&[seed, hash_str(&self.id), hash_str(&self.parts[part].name)]);
        hash64(&[base, index])
    }

    fn replay_file(&self, path: &str) -> i32 {
        let v: Value =
            serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
        let part = self
            .parts
            .iter()
            .position(|p| json!(p.name) == v["part"])
            .expect("part");
        let mut src = match &v["tape"] {
            // a case which ended the process has no recording, and is generated again
            Value::Null => Src::random(self.case_seed(v["seed"].as_u64().unwrap(), part, v["case"].as_u64().unwrap())),
            tape => Src::replay(Node::from_json(tape)),
        };
        let (info, r) = self.run_case(part, &mut src);
        if let Some(s) = &info.sample {
            println!("--- case\n{}", s);
        }
        println!("--- labels {:?}", info.labels);
        match r {
            Ok(()) => {
                println!("the property held on this case");
                0
            }
            Err(f) => {
                println!("--- {}\n{}", f.sig, f.msg);
                println!("VIOLATION property={} replay={}", self.id, path);
                1
            }
        }
    }

    /// runs everything and returns the exit code. The cases run in a process of their own, which is watched: a case
    /// that aborts it, or that takes too much memory or time, is found again by running it alone
    pub fn main(self) -> i32 {
        let args: Vec<String> = std::env::args().collect();
        if std::env::var("PBT_STATE").is_ok() {
            return self.run_here(&args);
        }
        let state = std::env::temp_dir().join(format!("pbt-{}-{}", self.id, std::process::id()));
        let code = self.supervise(&args, &state);
        std::fs::remove_file(&state).ok();
        code
    }

    fn run_here(&self, args: &[String]) -> i32 {
        let mut out = 2;
        std::thread::scope(|s| {
            let h = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, || self.main_inner(args))
                .unwrap();
            if let Ok(c) = h.join() {
                out = c;
            }
        });
        out
    }

    fn supervise(&self, args: &[String], state: &std::path::Path) -> i32 {
        std::fs::write(state, "").ok();
        let end = run_limited(&args[1..], state, if thorough() { 7000 } else { 830 }, 24 << 30);
        let why = match end {
            Ok(code) => return code,
            Err(why) => why,
        };
        println!("the process running the cases ended: {why}");
        if let Some(k) = args.iter().position(|a| a == "--replay") {
            println!("--- {why}\nVIOLATION property={} replay={}", self.id, args[k + 1]);
            return 1;
        }
        let text = std::fs::read(state).unwrap_or_default();
        let text = String::from_utf8_lossy(&text);
        // it ended while a failing case was being made smaller
        if let Some(path) = text.lines().find_map(|l| l.trim_matches('\0').strip_prefix("found ").map(|p| p.trim().to_string())) {
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        let mut running: Vec<(u64, usize, u64)> = text
            .lines()
            .filter_map(|l| {
                let mut w = l.trim_matches('\0').split_whitespace();
                (w.next()? == "case").then_some(())?;
                Some((w.next()?.parse().ok()?, w.next()?.parse().ok()?, w.next()?.parse().ok()?))
            })
            .collect();
        running.sort();
        for (_, part, index) in running {
            let a = ["--case".to_string(), self.id.clone(), part.to_string(), index.to_string()];
            let own: Vec<String> = args[1..].iter().filter(|x| !x.starts_with("--")).cloned().chain(a).collect();
            if let Err(why) = run_limited(&own, state, 100, 6 << 30) {
                let dir = format!("{}/replays", verif_dir());
                std::fs::create_dir_all(&dir).ok();
                let path = format!("{}/{}-{}-{}.json", dir, self.id, self.parts[part].name, seed());
                let v = json!({
                    "property": self.id, "part": self.parts[part].name, "seed": seed(), "case": index,
                    "sig": "the process ended", "message": why,
                });
                std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                println!("--- case {index} of part {}: {why}", self.parts[part].name);
                println!("VIOLATION property={} replay={}", self.id, path);
                return 1;
            }
        }
        2
    }

    fn main_inner(&self, args: &[String]) -> i32 {
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            return self.replay_file(&args[i + 1]);
        }
        if let Some(i) = args.iter().position(|a| a == "--case") {
            let (part, index) = (args[i + 2].parse().unwrap(), args[i + 3].parse().unwrap());
            self.run_case(part, &mut Src::random(self.case_seed(seed(), part, index))).1.ok();
            return 0;
        }
        let state = State::open();
        let state = &state;
        let only_part = args
            .iter()
            .position(|a| a == "--part")
            .map(|i| args[i + 1].clone());
        let scale: f64 = std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        let show = args.iter().any(|a| a == "--show");
        let only_sig = std::env::var("VERIF_ONLY_SIG").ok();
        let only_sig = &only_sig;
        let keep_going = args.iter().any(|a| a == "--all");
        let t0 = Instant::now();
        let cap = Duration::from_secs(if thorough() { 5400 } else { 540 });
        let threads = std::env::var("VERIF_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
            })
            .clamp(1, 16);
        let known = self.known();
        let known_sigs: HashSet<&str> = known.iter().map(|k| k.0.as_str()).collect();
        let mut all = Stats::default();
        let mut part_json = vec![];
        let mut found: Option<Found> = None;
        let mut capped = false;
        let mut all_sigs: BTreeMap<String, u64> = BTreeMap::new();
        for (pi, part) in self.parts.iter().enumerate() {
            if only_part.as_ref().map_or(false, |p| *p != part.name) {
                continue;
            }
            let n = if thorough() { part.thorough } else { part.quick };
            let n = ((n as f64) * scale).ceil() as u64;
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let first: Mutex<Option<Found>> = Mutex::new(None);
            let sigs: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
            let stats: Mutex<Stats> = Mutex::new(Stats::default());
            let tp = Instant::now();
            let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
            let live = AtomicU64::new(threads as u64);
            let died = AtomicBool::new(false);
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (next, stop, first, stats, beat, live, known_sigs, sigs, died) = (
                        &next, &stop, &first, &stats, &beat, &live, &known_sigs, &sigs, &died,
                    );
                    std::thread::Builder::new()
                        .stack_size(1 << 30)
                        .spawn_scoped(s, move || {
                            let body = || {
                            let mut st = Stats::default();
                            loop {
                                if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                                    break;
                                }
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= n {
                                    break;
                                }
                                beat[t].store(
                                    t0.elapsed().as_millis() as u64 + 1,
                                    Ordering::Relaxed,
                                );
                                state.case(t, t0.elapsed().as_millis() as u64, pi, i);
                                let mut src = Src::random(self.case_seed(seed(), pi, i));
                                let (info, r) = self.run_case(pi, &mut src);
                                st.evaluations += 1;
                                for l in info.labels {
                                    *st.labels.entry(l).or_default() += 1;
                                }
                                for (l, c) in info.counts {
                                    *st.counts.entry(l).or_default() += c;
                                }
                                if let Some(k) = info.nontrivial {
                                    st.nontrivial.insert(k);
                                    if let Some(s) = info.sample {
                                        if show {
                                            println!("=== {} #{}\n{}", part.name, i, s);
                                        }
                                        if i < 64 {
                                            st.samples.insert(i, s);
                                        }
                                    }
                                }
                                if let Err(f) = r {
                                    if only_sig.as_ref().map_or(false, |o| !f.sig.contains(o.as_str())) {
                                        continue;
                                    }
                                    if known_sigs.contains(f.sig.as_str()) {
                                        *st.known.entry(f.sig).or_default() += 1;
                                        continue;
                                    }
                                    {
                                        let mut g = sigs.lock().unwrap();
                                        let e = g.entry(f.sig.clone()).or_default();
                                        *e += 1;
                                        if keep_going && *e <= 1 {
                                            println!(
                                                "--- case {} {}\n{}",
                                                i,
                                                f.sig,
                                                f.msg.chars().take(3000).collect::<String>()
                                            );
                                        }
                                    }
                                    let mut g = first.lock().unwrap();
                                    if g.as_ref().map_or(true, |x| x.index > i) {
                                        *g = Some(Found {
                                            part: pi,
                                            index: i,
                                            tape: src.recorded(),
                                            failure: f,
                                        });
                                    }
                                    if !keep_going {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            beat[t].store(0, Ordering::Relaxed);
                            state.idle(t);
                            let mut g = stats.lock().unwrap();
                            g.evaluations += st.evaluations;
                            g.nontrivial.extend(st.nontrivial);
                            for (l, c) in st.labels {
                                *g.labels.entry(l).or_default() += c;
                            }
                            for (l, c) in st.counts {
                                *g.counts.entry(l).or_default() += c;
                            }
                            for (l, c) in st.known {
                                *g.known.entry(l).or_default() += c;
                            }
                            g.samples.extend(st.samples);
                            };
                            if catch_unwind(AssertUnwindSafe(body)).is_err() {
                                died.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                                beat[t].store(0, Ordering::Relaxed);
                            }
                            live.fetch_sub(1, Ordering::Relaxed);
                        })
                        .unwrap();
                }
                // watchdog: a case that does not end is looked at by the supervisor
                let (beat, live) = (&beat, &live);
                s.spawn(move || {
                    while live.load(Ordering::Relaxed) > 0 {
                        std::thread::sleep(Duration::from_millis(50));
                        let now = t0.elapsed().as_millis() as u64;
                        for b in beat {
                            let v = b.load(Ordering::Relaxed);
                            if v != 0 && now > v + 150_000 {
                                eprintln!("a case did not end within 150 s: giving up");
                                std::process::exit(STUCK);
                            }
                        }
                    }
                });
            });
            if died.load(Ordering::Relaxed) {
                eprintln!("the harness itself failed in part {}", part.name);
                return 2;
            }
            let st = stats.into_inner().unwrap();
            let done = st.evaluations;
            if done < n && first.lock().unwrap().is_none() {
                capped = true;
            }
            println!(
                "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
                self.id,
                part.name,
                done,
                st.nontrivial.len(),
                tp.elapsed().as_secs_f64()
            );
            part_json.push(json!({
                "name": part.name, "cases": done, "distinct_nontrivial": st.nontrivial.len(),
                "labels": st.labels, "counts": st.counts, "wall_s": tp.elapsed().as_secs_f64(),
                "excluded_as_known": st.known,
            }));
            if !st.labels.is_empty() && (show || args.iter().any(|a| a == "--stats")) {
                println!("   {:?}\n   {:?}", st.labels, st.counts);
            }
            all.evaluations += st.evaluations;
            all.nontrivial
                .extend(st.nontrivial.iter().map(|h| hash64(&[*h, pi as u64])));
            for (k, c) in st.known {
                *all.known.entry(k).or_default() += c;
            }
            let per = 2usize;
            for (i, s) in st.samples.into_iter().take(per) {
                all.samples
                    .insert(pi as u64 * 1000 + i, format!("[{}] {}", part.name, s));
            }
            for (k, c) in sigs.into_inner().unwrap() {
                *all_sigs.entry(k).or_default() += c;
            }
            if let Some(f) = first.into_inner().unwrap() {
                if found.is_none() {
                    found = Some(f);
                }
                if !keep_going {
                    break;
                }
            }
        }
        if keep_going && !all_sigs.is_empty() {
            println!("signatures: {:#?}", all_sigs);
        }
        for (sig, what) in &known {
            if all.known.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {}", self.id, what);
            }
        }
        let mut violations = 0;
        let mut code = 0;
        let mut replay = None;
        if let Some(f) = &found {
            violations = 1;
            code = 1;
            let dir = format!("{}/replays", verif_dir());
            std::fs::create_dir_all(&dir).ok();
            let path = format!(
                "{}/{}-{}-{}.json",
                dir,
                self.id,
                self.parts[f.part].name,
                seed()
            );
            let v = json!({
                "property": self.id, "part": self.parts[f.part].name, "seed": seed(), "case": f.index,
                "sig": f.failure.sig, "message": f.failure.msg, "tape": f.tape.to_json(),
            });
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            state.found(&path);
            let (tape, failure, runs) = self.shrink(f);
            let (info, _) = self.run_case(f.part, &mut Src::replay(tape.clone()));
            let v = json!({
                "property": self.id, "part": self.parts[f.part].name, "seed": seed(), "case": f.index,
                "sig": failure.sig, "message": failure.msg, "input": info.sample, "tape": tape.to_json(), "shrink_runs": runs,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            println!(
                "--- shrunk failing case ({} runs)\n{}\n--- {}\n{}",
                runs,
                info.sample.unwrap_or_default(),
                failure.sig,
                failure.msg
            );
            replay = Some(path);
        }
        if only_part.is_none() {
            let samples: Vec<String> = all
                .samples
                .values()
                .map(|s| s.chars().take(1500).collect())
                .take(14)
                .collect();
            let ev = json!({
                "property": self.id,
                "tier": if thorough() { "thorough" } else { "quick" },
                "seed": seed(),
                "level": "exploration",
                "coverage": {
                    "evaluations": all.evaluations,
                    "distinct_nontrivial": all.nontrivial.len(),
                    "rule": self.rule,
                    "samples": samples,
                    "parts": part_json,
                    "known_findings_hit": all.known,
                    "stopped_at_time_cap": capped,
                },
                "assumptions": self.assumptions,
                "wall_s": t0.elapsed().as_secs_f64(),
                "violations": violations,
            });
            let dir = format!("{}/evidence", verif_dir());
            std::fs::create_dir_all(&dir).ok();
            let mut f = std::fs::File::create(format!("{}/{}.json", dir, self.id)).unwrap();
            f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes())
                .unwrap();
        }
        if let Some(path) = replay {
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        code
    }

    fn shrink(&self, f: &Found) -> (Node, Failure, u64) {
        let t0 = Instant::now();
        let max_runs = 40_000u64;
        let max_time = Duration::from_secs(
            std::env::var("VERIF_SHRINK_S")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(40),
        );
        struct St {
            best: Node,
            failure: Failure,
            runs: u64,
            seen: HashSet<Node>,
        }
        let mut st = St {
            best: f.tape.clone(),
            failure: f.failure.clone(),
            runs: 0,
            seen: HashSet::new(),
        };
        let over = |st: &St| st.runs >= max_runs || t0.elapsed() > max_time;
        let attempt = |st: &mut St, cand: Node| -> bool {
            if over(st) || st.seen.contains(&cand) {
                return false;
            }
            st.seen.insert(cand.clone());
            st.runs += 1;
            let mut src = Src::replay(cand);
            let r = catch_unwind(AssertUnwindSafe(|| self.run_case(f.part, &mut src)));
            let Ok((_, Err(e))) = r else { return false };
            if e.sig != st.failure.sig {
                return false;
            }
            let mut rec = src.recorded();
            rec.trim();
            if (rec.size(), rec.weight()) < (st.best.size(), st.best.weight()) {
                st.best = rec;
                st.failure = e;
                return true;
            }
            false
        };
        let first = st.best.clone();
        attempt(&mut st, first);
        loop {
            let before = st.best.clone();
            // whole groups, the biggest first
            let mut restart = true;
            while restart && !over(&st) {
                restart = false;
                let mut paths = vec![];
                st.best.paths(&mut vec![], &mut paths);
                paths.sort_by_key(|p| std::cmp::Reverse(st.best.get(p).unwrap().size()));
                for p in paths {
                    let Some(n) = st.best.get(&p).cloned() else {
                        continue;
                    };
                    let mut changed = false;
                    // empty it
                    if !n.vals.is_empty() || !n.kids.is_empty() {
                        let mut c = st.best.clone();
                        *c.at(&p) = Node::default();
                        changed |= attempt(&mut st, c);
                    }
                    // delete it
                    if let (false, Some((last, up))) = (changed, p.split_last()) {
                        let mut c = st.best.clone();
                        c.at(up).kids.remove(*last);
                        changed |= attempt(&mut st, c);
                        // delete it and lower a count of its parent
                        for i in 0..n_vals(&st.best, up).min(6) {
                            if changed {
                                break;
                            }
                            let mut c = st.best.clone();
                            let parent = c.at(up);
                            if parent.vals[i] == 0 || parent.vals[i] > 64 {
                                continue;
                            }
                            parent.vals[i] -= 1;
                            parent.kids.remove(*last);
                            changed |= attempt(&mut st, c);
                        }
                    }
                    // put one of its parts in its place
                    for k in &n.kids {
                        if changed {
                            break;
                        }
                        let mut c = st.best.clone();
                        *c.at(&p) = k.clone();
                        changed |= attempt(&mut st, c);
                    }
                    if changed {
                        restart = true;
                        break;
                    }
                }
            }
            // single values
            let mut paths = vec![];
            st.best.paths(&mut vec![], &mut paths);
            for p in paths {
                let mut i = 0;
                loop {
                    let Some(n) = st.best.get(&p) else { break };
                    if i >= n.vals.len() {
                        break;
                    }
                    // cut it out
                    let mut c = st.best.clone();
                    c.at(&p).vals.remove(i);
                    if attempt(&mut st, c) {
                        continue;
                    }
                    let v = st.best.get(&p).unwrap().vals[i];
                    let mut lo = 0u64;
                    let mut hi = v;
                    while lo < hi && !over(&st) {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = st.best.clone();
                        c.at(&p).vals[i] = mid;
                        if attempt(&mut st, c) {
                            match st.best.get(&p).and_then(|n| n.vals.get(i)) {
                                Some(v) => hi = *v,
                                None => break,
                            }
                        } else {
                            lo = mid + 1;
                        }
                    }
                    i += 1;
                }
            }
            if st.best == before || over(&st) {
                break;
            }
        }
        (st.best, st.failure, st.runs)
    }
}

fn n_vals(n: &Node, p: &[usize]) -> usize {
    n.get(p).map_or(0, |n| n.vals.len())
}

/// exit code of a process in which a case does not end
const STUCK: i32 = 97;

/// which case each thread is running, for the supervisor
struct State(Option<std::fs::File>);

impl State {
    fn open() -> Self {
        State(std::env::var("PBT_STATE").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()))
    }
    fn line(&self, slot: usize, text: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = [b' '; 256];
            b[255] = b'\n';
            let t = text.as_bytes();
            let n = t.len().min(255);
            b[..n].copy_from_slice(&t[..n]);
            f.write_all_at(&b, slot as u64 * 256).ok();
        }
    }
    fn case(&self, thread: usize, ms: u64, part: usize, index: u64) {
        self.line(thread + 1, &format!("case {ms} {part} {index}"));
    }
    fn idle(&self, thread: usize) {
        self.line(thread + 1, "");
    }
    fn found(&self, path: &str) {
        self.line(0, &format!("found {path}"));
    }
}

/// runs this program in a process with limits; an error says how it ended when it did not end by itself
fn run_limited(args: &[String], state: &std::path::Path, seconds: u64, memory: u64) -> Result<i32, String> {
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("PBT_STATE", state)
        .spawn()
        .expect("the program can be started");
    let t0 = Instant::now();
    let end = |c: &mut std::process::Child, why: String| {
        c.kill().ok();
        c.wait().ok();
        Err(why)
    };
    loop {
        if let Some(st) = c.try_wait().expect("the process can be waited for") {
            return match (st.code(), st.signal()) {
                (Some(STUCK), _) => Err("a case does not end".into()),
                (Some(c), _) => Ok(c),
                (None, Some(s)) => Err(format!("killed by signal {s} (stack overflow, abort or out of memory)")),
                _ => Err("ended without a status".into()),
            };
        }
        if t0.elapsed() > Duration::from_secs(seconds) {
            return end(&mut c, format!("did not end within {seconds} s"));
        }
        // resident memory, in pages
        let pages = std::fs::read_to_string(format!("/proc/{}/statm", c.id()))
            .ok()
            .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
            .unwrap_or(0);
        if pages * 4096 > memory {
            return end(&mut c, format!("used more than {} GiB of memory", memory >> 30));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
