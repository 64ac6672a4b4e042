//! Spreads a program over files: every file has its own names for what it defines and imports.
use crate::tok;
use pbt::lang::ast::*;
use pbt::lang::print;
use pbt::Src;
use std::collections::{BTreeMap, BTreeSet};

pub struct Item {
    pub name: String,
    pub text: String,
    pub deps: Vec<usize>,
    fun: bool,
    renamable: bool,
}

pub fn items(p: &Program) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    let mut add = |name: &str, text: String, fun: bool, renamable: bool| {
        if let Some(i) = v.iter_mut().find(|i| fun && i.fun && i.name == name) {
            // overloads stay together
            i.text.push_str(&text);
        } else {
            v.push(Item { name: name.into(), text, deps: vec![], fun, renamable });
        }
    };
    for c in &p.consts {
        add(&c.name, print::const_def(c), false, true);
    }
    for s in &p.structs {
        // the name of a struct is part of the ABI
        add(&s.name, print::struct_def(s), false, false);
    }
    for a in &p.aliases {
        add(&a.name, print::alias_def(a), false, true);
    }
    for f in &p.funs {
        add(&f.name, print::fun(f), true, f.name != "main");
    }
    for k in 0..v.len() {
        let w = tok::words(&v[k].text);
        v[k].deps = (0..v.len()).filter(|j| *j != k && w.contains(&v[*j].name)).collect();
    }
    v
}

#[derive(Clone, Debug)]
pub struct Import {
    pub file: usize,
    pub item: usize,
}

pub struct Split {
    pub items: Vec<Item>,
    /// paths; the first is the main file
    pub paths: Vec<String>,
    /// defining file per item
    pub home: Vec<usize>,
    /// local names, per file
    pub names: Vec<BTreeMap<usize, String>>,
    /// imports per file
    pub imports: Vec<Vec<Import>>,
    /// import lines per file
    pub lines: Vec<Vec<String>>,
    pub features: BTreeSet<&'static str>,
    order: Vec<usize>,
}

fn dirs(p: &str) -> Vec<&str> {
    let mut v: Vec<_> = p.split('/').collect();
    v.pop();
    v
}

/// the path of `to` as written in `from`
pub fn relative(from: &str, to: &str) -> String {
    let (a, b) = (dirs(from), dirs(to));
    let c = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut s = "../".repeat(a.len() - c);
    if s.is_empty() {
        s = "./".into();
    }
    for d in &b[c..] {
        s.push_str(d);
        s.push('/');
    }
    s.push_str(to.rsplit('/').next().unwrap());
    s
}

impl Split {
    /// none if two groups of overloads need each other
    pub fn new(s: &mut Src, p: &Program) -> Option<Split> {
        let items = items(p);
        let n = s.urange(1, 5);
        let mut features = BTreeSet::new();
        let ds = ["", "", "lib/", "lib/deep/", "other/", "other/lib/"];
        let stems = ["util", "types", "gadget", "a", "b2", "k_x", "main", "a_b", "types.v2"];
        let mut paths: Vec<String> = vec!["src/main".into()];
        while paths.len() < n {
            let d = *s.pick(&ds);
            let mut t = s.pick(&stems).to_string();
            let base = if s.chance(1, 6) { "" } else { "src/" };
            if paths.contains(&format!("{base}{d}{t}")) {
                t = format!("z{}", paths.len());
            }
            paths.push(format!("{base}{d}{t}"));
        }
        let mut home = vec![0; items.len()];
        let mut order = vec![];
        let mut done = vec![false; items.len()];
        while order.len() < items.len() {
            let before = order.len();
            for k in 0..items.len() {
                if !done[k] && items[k].deps.iter().all(|d| done[*d]) {
                    done[k] = true;
                    order.push(k);
                }
            }
            if order.len() == before {
                return None;
            }
        }
        for &k in &order {
            let max = items[k].deps.iter().map(|d| home[*d]).min().unwrap_or(n - 1);
            home[k] = if items[k].name == "main" { 0 } else { max - s.idx(max + 1) };
        }
        // what each file needs from elsewhere, and from which file it imports it
        let mut imports: Vec<Vec<Import>> = vec![vec![]; n];
        for f in 0..n {
            let mut need: BTreeSet<usize> = (0..items.len())
                .filter(|k| home[*k] == f)
                .flat_map(|k| items[k].deps.clone())
                .filter(|d| home[*d] != f)
                .collect();
            // imported earlier for the files before
            need.extend(imports[f].iter().map(|i| i.item));
            if s.chance(1, 5) {
                // something it does not use
                let later: Vec<usize> = (0..items.len()).filter(|k| home[*k] > f && !need.contains(k)).collect();
                if !later.is_empty() {
                    need.insert(*s.pick(&later));
                    features.insert("unused import");
                }
            }
            imports[f].clear();
            for d in need {
                let via = if home[d] > f + 1 && s.chance(1, 3) {
                    let h = s.urange(f + 1, home[d] - 1);
                    if !imports[h].iter().any(|i| i.item == d) {
                        imports[h].push(Import { file: 0, item: d });
                    }
                    features.insert("re-exported");
                    h
                } else {
                    home[d]
                };
                imports[f].push(Import { file: via, item: d });
            }
        }
        // names
        let pool: Vec<String> = items
            .iter()
            .filter(|i| i.renamable)
            .map(|i| i.name.clone())
            .chain((0..6).map(|k| format!("Q{}_{}", k, ["x", "main", "field_t"][k % 3])))
            .collect();
        let mut names: Vec<BTreeMap<usize, String>> = vec![BTreeMap::new(); n];
        for f in 0..n {
            let here: Vec<usize> = (0..items.len())
                .filter(|k| home[*k] == f || imports[f].iter().any(|i| i.item == *k))
                .collect();
            let mut used: BTreeSet<String> = here
                .iter()
                .filter(|k| !items[**k].renamable && home[**k] == f)
                .map(|k| items[*k].name.clone())
                .collect();
            for &k in &here {
                let it = &items[k];
                let fixed = !it.renamable && home[k] == f;
                let mut name = if fixed || s.chance(1, 2) { it.name.clone() } else { s.pick(&pool).clone() };
                if f > 0 && home[k] == f && it.fun && s.chance(1, 4) {
                    name = "main".into();
                }
                while !fixed && used.contains(&name) {
                    name.push('_');
                }
                if name != it.name {
                    features.insert("renamed");
                    if items.iter().any(|i| i.name == name) {
                        features.insert("name reused for something else");
                    }
                }
                used.insert(name.clone());
                names[f].insert(k, name);
            }
        }
        let mut me = Split { items, paths, home, names, imports, lines: vec![vec![]; n], features, order };
        // a file imports from later ones
        for f in (0..n).rev() {
            me.lines[f] = me.import_lines(s, f);
        }
        Some(me)
    }

    fn import_lines(&mut self, s: &mut Src, f: usize) -> Vec<String> {
        let mut groups: Vec<(String, Vec<String>)> = vec![];
        let mut lines = vec![];
        for k in 0..self.imports[f].len() {
            let Import { file, item } = self.imports[f][k].clone();
            let there = &self.names[file][&item];
            let stem = self.paths[file].rsplit('/').next().unwrap().to_string();
            let mut path = relative(&self.paths[f], &self.paths[file]);
            if s.chance(1, 4) {
                path.push_str(".zok");
                self.features.insert("path with extension");
            }
            // a legacy import without a name takes the name of the file
            let free = |n: &str| !self.names[f].values().any(|v| v == n);
            let plain = stem.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && free(&stem) && stem != "main";
            if there == "main" && s.chance(2, 3) {
                self.features.insert("legacy import");
                if plain && s.bool() {
                    self.names[f].insert(item, stem);
                    lines.push(format!("import \"{path}\";"));
                } else {
                    lines.push(format!("import \"{path}\" as {};", self.names[f][&item]));
                }
                continue;
            }
            let here = &self.names[f][&item];
            let sym = if here == there && s.chance(4, 5) { there.clone() } else { format!("{there} as {here}") };
            match groups.iter_mut().find(|g| g.0 == path) {
                Some(g) if s.chance(2, 3) => g.1.push(sym),
                _ => groups.push((path, vec![sym])),
            }
        }
        lines.extend(groups.into_iter().map(|(p, v)| format!("from \"{p}\" import {};", v.join(", "))));
        let mut out = vec![];
        while !lines.is_empty() {
            out.push(lines.swap_remove(s.idx(lines.len())));
        }
        out
    }

    /// the files which are read when the main file is compiled
    pub fn reachable(&self) -> BTreeSet<usize> {
        let mut v = BTreeSet::from([0]);
        let mut todo = vec![0];
        while let Some(f) = todo.pop() {
            for i in &self.imports[f] {
                if v.insert(i.file) {
                    todo.push(i.file);
                }
            }
        }
        v
    }

    /// path (with extension) and text of every file
    pub fn files(&self) -> BTreeMap<String, String> {
        (0..self.paths.len())
            .map(|f| {
                let m: BTreeMap<String, String> =
                    self.names[f].iter().map(|(k, n)| (self.items[*k].name.clone(), n.clone())).collect();
                let mut t = String::new();
                for l in &self.lines[f] {
                    t.push_str(l);
                    t.push('\n');
                }
                for &k in &self.order {
                    if self.home[k] == f {
                        t.push_str(&tok::rename(&self.items[k].text, &m));
                    }
                }
                (format!("{}.zok", self.paths[f]), t)
            })
            .collect()
    }
}

pub fn show(files: &BTreeMap<String, String>) -> String {
    files.iter().map(|(p, t)| format!("// ---- {p}\n{t}")).collect()
}
