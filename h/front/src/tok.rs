//! Source text as tokens; only what is needed to rewrite the text without changing its meaning.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Word,
    Num,
    Str,
    Punct,
    Gap,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: Kind,
    pub text: String,
}

const PUNCT: &[&str] = &[
    "<--", "<==", "===", "...", "..", "::", "**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "->",
];

pub fn tokens(src: &str) -> Vec<Tok> {
    let c: Vec<char> = src.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let mut line = true;
    while i < c.len() {
        let s = i;
        let kind = if c[i].is_whitespace() {
            while i < c.len() && c[i].is_whitespace() {
                line |= c[i] == '\n';
                i += 1;
            }
            Kind::Gap
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            Kind::Gap
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                i += 1;
            }
            i = (i + 2).min(c.len());
            Kind::Gap
        } else if c[i] == '"' {
            i += 1;
            while i < c.len() && c[i] != '"' {
                i += 1;
            }
            i = (i + 1).min(c.len());
            Kind::Str
        } else if c[i] == '#' && line {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            Kind::Str
        } else if c[i].is_ascii_digit() {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            Kind::Num
        } else if c[i].is_ascii_alphabetic() || c[i] == '_' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            Kind::Word
        } else {
            let rest: String = c[i..(i + 3).min(c.len())].iter().collect();
            i += PUNCT.iter().find(|p| rest.starts_with(**p)).map(|p| p.len()).unwrap_or(1);
            Kind::Punct
        };
        if kind != Kind::Gap {
            line = false;
        }
        out.push(Tok { kind, text: c[s..i].iter().collect() });
    }
    out
}

pub fn join(t: &[Tok]) -> String {
    t.iter().map(|t| t.text.as_str()).collect()
}

pub fn words(src: &str) -> BTreeSet<String> {
    tokens(src).into_iter().filter(|t| t.kind == Kind::Word).map(|t| t.text).collect()
}

pub fn rename(src: &str, m: &BTreeMap<String, String>) -> String {
    let mut t = tokens(src);
    for t in &mut t {
        if t.kind == Kind::Word {
            if let Some(n) = m.get(&t.text) {
                t.text = n.clone();
            }
        }
    }
    join(&t)
}
