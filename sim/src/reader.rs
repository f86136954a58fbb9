//! Independent readers of the documented text formats.
use crate::model::*;
use std::collections::BTreeMap;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Debug, Clone, PartialEq)]
pub enum Read<T> {
    Good(T),
    Bad(String),
    /// the documentation does not say (odd white space and the like): only absence of crashes is demanded
    Unclear(&'static str),
}

fn reserved(t: &str) -> bool {
    ["ε", "eps", "→", "->", "*"].contains(&t)
}

/// Reads a DFA or NFA table.
pub fn table(text: &str, dfa: bool) -> Read<Aut> {
    match table_inner(text, dfa) {
        Ok(a) => Read::Good(a),
        Err(e) => {
            let odd = text.chars().any(|c| c.is_whitespace() && !" \t\n\r".contains(c)) || text.replace("\r\n", "\n").contains('\r');
            if odd {
                Read::Unclear("white space other than space, tab and line ends")
            } else {
                Read::Bad(e)
            }
        }
    }
}

/// A table by its rows, not yet checked for sense.
pub struct Raw {
    /// None: ε
    pub head: Vec<Option<String>>,
    pub rows: Vec<Row>,
    /// the alphabet line is ended
    pub ended: bool,
}
pub struct Row {
    pub name: String,
    pub init: bool,
    pub acc: bool,
    pub sets: Vec<Vec<String>>,
}

/// What is wrong with a table whose rows can be read.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Flaw {
    SymbolTwice(String),
    StateTwice(String),
    /// state, columns it has, columns it should have
    Columns(String, usize, usize),
    /// state, target
    Unknown(String, String),
    NoInitial,
    ManyInitial,
}
impl Raw {
    pub fn flaws(&self) -> Vec<Flaw> {
        let mut v = vec![];
        for (i, x) in self.head.iter().enumerate() {
            if self.head[..i].contains(x) {
                v.push(Flaw::SymbolTwice(x.clone().unwrap_or_else(|| "ε".into())));
            }
        }
        for (i, r) in self.rows.iter().enumerate() {
            if self.rows[..i].iter().any(|x| x.name == r.name) {
                v.push(Flaw::StateTwice(r.name.clone()));
            }
            if r.sets.len() != self.head.len() {
                v.push(Flaw::Columns(r.name.clone(), r.sets.len(), self.head.len()));
            }
            for x in r.sets.iter().flatten() {
                if !self.rows.iter().any(|y| y.name == *x) {
                    v.push(Flaw::Unknown(r.name.clone(), x.clone()));
                }
            }
        }
        match self.rows.iter().filter(|r| r.init).count() {
            0 => v.push(Flaw::NoInitial),
            1 => {}
            _ => v.push(Flaw::ManyInitial),
        }
        v
    }
}

fn table_inner(text: &str, dfa: bool) -> Result<Aut, String> {
    let raw = rows(text, dfa)?;
    if let Some(f) = raw.flaws().first() {
        return Err(format!("{f:?}"));
    }
    if !raw.ended {
        return Err("the alphabet line is not ended".into());
    }
    let idx: BTreeMap<&str, usize> = raw.rows.iter().enumerate().map(|(i, r)| (r.name.as_str(), i)).collect();
    let eps_at = raw.head.iter().position(|x| x.is_none());
    let st = raw
        .rows
        .iter()
        .map(|r| {
            let mut t: Vec<Vec<usize>> = r.sets.iter().map(|s| s.iter().map(|x| idx[x.as_str()]).collect()).collect();
            let e = match eps_at {
                Some(k) => t.remove(k),
                None => vec![],
            };
            St { n: r.name.clone(), a: r.acc, t, e }
        })
        .collect();
    Ok(Aut { alpha: raw.head.iter().flatten().cloned().collect(), st, init: raw.rows.iter().position(|r| r.init).unwrap() })
}

/// Reads the rows of a table.
pub fn rows(text: &str, dfa: bool) -> Result<Raw, String> {
    let mut lines = vec![];
    let norm = text.replace("\r\n", "\n");
    if norm.chars().any(|c| c.is_whitespace() && !" \t\n".contains(c)) {
        // may be harmless within a comment, but that is not documented either
        return Err("odd white space".into());
    }
    let mut ended = vec![];
    let parts: Vec<&str> = norm.split('\n').collect();
    for (i, l) in parts.iter().enumerate() {
        let l = l.split('#').next().unwrap().trim_matches([' ', '\t']);
        if !l.is_empty() {
            lines.push(l);
            ended.push(i + 1 < parts.len());
        }
    }
    let mut it = lines.into_iter();
    let Some(line) = it.next() else { return Err("no alphabet line".into()) };
    let mut head: Vec<Option<String>> = vec![];
    for t in line.split([' ', '\t']).filter(|t| !t.is_empty()) {
        if t.contains(['{', '}']) {
            return Err("brace in the alphabet".into());
        }
        if !dfa && (t == "ε" || t == "eps") {
            head.push(None);
        } else if reserved(t) {
            return Err(format!("reserved symbol {t} in the alphabet"));
        } else {
            head.push(Some(t.to_string()));
        }
    }
    let mut out = vec![];
    for line in it {
        let mut toks: Vec<&str> = vec![];
        let mut rest = line;
        let mut sets: Vec<Vec<String>> = vec![];
        // leading tokens up to the first '{' (nfa) or all (dfa)
        while !rest.is_empty() && !rest.starts_with('{') {
            let end = rest.find([' ', '\t', '{', '}']).unwrap_or(rest.len());
            if end == 0 || rest[end..].starts_with(['{', '}']) {
                return Err(format!("stray brace in '{line}'"));
            }
            toks.push(&rest[..end]);
            rest = rest[end..].trim_start_matches([' ', '\t']);
        }
        if dfa && !rest.is_empty() {
            return Err("brace in a DFA row".into());
        }
        while !rest.is_empty() {
            let Some(r) = rest.strip_prefix('{') else { return Err(format!("expected a set in '{line}'")) };
            let Some(end) = r.find('}') else { return Err(format!("unterminated set in '{line}'")) };
            let inner = &r[..end];
            if inner.contains('{') {
                return Err(format!("nested set in '{line}'"));
            }
            sets.push(inner.split([' ', '\t']).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect());
            let r = &r[end + 1..];
            rest = r.trim_start_matches([' ', '\t']);
            if !r.is_empty() && rest.len() == r.len() {
                return Err(format!("missing space after a set in '{line}'"));
            }
        }
        let mut k = 0;
        let init = toks.first().is_some_and(|t| ["->", "→"].contains(t));
        k += init as usize;
        let acc = toks.get(k) == Some(&"*");
        k += acc as usize;
        let Some(name) = toks.get(k) else { return Err(format!("no state name in '{line}'")) };
        let more = &toks[k + 1..];
        if dfa {
            sets = more.iter().map(|t| vec![t.to_string()]).collect();
        } else if !more.is_empty() {
            return Err(format!("target outside a set in '{line}'"));
        }
        if reserved(name) || sets.iter().flatten().any(|t| reserved(t)) {
            return Err(format!("reserved name in '{line}'"));
        }
        if sets.is_empty() {
            return Err(format!("no columns in '{line}'"));
        }
        out.push(Row { name: name.to_string(), init, acc, sets });
    }
    if out.is_empty() {
        return Err("no states".into());
    }
    Ok(Raw { head, rows: out, ended: ended.first().copied().unwrap_or(false) })
}

/// Reads a regular expression.
pub fn regex(text: &str) -> Read<Rx> {
    let text = text.trim();
    let g: Vec<&str> = text.graphemes(true).collect();
    let res = |t: &str| RESERVED.contains(&t.chars().next().unwrap());
    let mut i = 0;
    while i < g.len() {
        if res(g[i]) && g[i].chars().count() > 1 {
            return Read::Unclear("a combining mark after a reserved character");
        }
        if g[i] == "\\" {
            i += 1;
        }
        i += 1;
    }
    let mut p = Px { g: &g, i: 0, double: false, depth: 0 };
    let r = p.alt();
    if p.double {
        return Read::Unclear("two postfix operators in a row");
    }
    match r {
        Ok(x) if p.i == g.len() => Read::Good(x),
        Ok(_) => Read::Bad(format!("unexpected '{}'", g[p.i])),
        Err(e) => Read::Bad(e),
    }
}

struct Px<'a> {
    g: &'a [&'a str],
    i: usize,
    double: bool,
    depth: usize,
}
impl<'a> Px<'a> {
    fn peek(&self) -> Option<&'a str> {
        self.g.get(self.i).copied()
    }
    fn alt(&mut self) -> Result<Rx, String> {
        self.depth += 1;
        let mut v = vec![self.seq()?];
        while self.peek() == Some("|") {
            self.i += 1;
            v.push(self.seq()?);
        }
        self.depth -= 1;
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Rx::Alt(v) })
    }
    fn seq(&mut self) -> Result<Rx, String> {
        let mut v = vec![];
        loop {
            match self.peek() {
                None | Some("|") | Some(")") => break,
                Some(_) => v.push(self.item()?),
            }
        }
        if v.is_empty() {
            return Err("empty sequence".into());
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Rx::Seq(v) })
    }
    fn item(&mut self) -> Result<Rx, String> {
        let c = self.peek().unwrap();
        self.i += 1;
        let x = match c {
            "(" => {
                let x = self.alt()?;
                if self.peek() != Some(")") {
                    return Err("missing )".into());
                }
                self.i += 1;
                x
            }
            "ε" => Rx::Eps,
            "∅" => Rx::Empty,
            "\\" => {
                let Some(n) = self.peek() else { return Err("nothing after \\".into()) };
                self.i += 1;
                Rx::Ch(n.to_string())
            }
            "*" | "+" => return Err(format!("nothing before {c}")),
            c => Rx::Ch(c.to_string()),
        };
        let x = match self.peek() {
            Some("*") => {
                self.i += 1;
                Rx::Star(Box::new(x))
            }
            Some("+") => {
                self.i += 1;
                Rx::Plus(Box::new(x))
            }
            _ => return Ok(x),
        };
        if matches!(self.peek(), Some("*") | Some("+")) {
            self.double = true;
        }
        Ok(x)
    }
}
