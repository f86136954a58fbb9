//! The command line program as a user sees it: invocations, their files, and what they must print.
use crate::core::*;
use crate::gen;
use crate::model::*;
use crate::os::{Fs, VFile};
use crate::reader::{self, Read};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Dfa,
    Nfa,
    Regex,
}
impl Ty {
    fn arg(self) -> String {
        match self {
            Ty::Dfa => "dfa",
            Ty::Nfa => "nfa",
            Ty::Regex => "regex",
        }
        .into()
    }
    fn many(self) -> &'static str {
        match self {
            Ty::Dfa => "DFAs",
            Ty::Nfa => "NFAs",
            Ty::Regex => "Regexes",
        }
    }
    fn one(self) -> &'static str {
        match self {
            Ty::Dfa => "DFA",
            Ty::Nfa => "NFA",
            Ty::Regex => "Regex",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Content {
    Dfa(Aut, u64),
    Nfa(Aut, u64),
    Regex(Rx, u64),
    Text(String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FileSpec {
    pub path: String,
    pub content: Content,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Cmd {
    Eq { in_type: Option<Ty>, ty: Ty, minimized: bool, boolean: bool, path_length: Option<usize>, main: usize, files: Vec<usize> },
    Bin { op: usize, ty: Ty, second: Option<Ty>, compared: Ty, minimized: bool, enumerate: Option<usize>, a: usize, b: usize, c: Option<usize> },
    EnumRegex { n: Option<usize>, rx: Rx, style: u64 },
    EnumFile { ty: Ty, n: Option<usize>, file: usize },
    Test { ty: Ty, files_mode: bool, main: usize, files: Vec<usize> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Inv {
    pub files: Vec<FileSpec>,
    pub cmd: Cmd,
    pub less_logs: bool,
    pub out: Option<String>,
    /// decides on long and short options, their order, explicit defaults
    pub spelling: u64,
}

const OPS: [&str; 4] = ["union", "intersection", "difference", "symmetric-difference"];
const OP_NAMES: [(&str, &str); 4] = [
    ("Union", "union"),
    ("Intersection", "intersection"),
    ("Difference", "difference"),
    ("Symmetric difference", "symmetric difference"),
];

fn text_of(c: &Content) -> R<String> {
    Ok(match c {
        Content::Dfa(a, s) => gen::print_table(&a.fix(true)?, true, *s),
        Content::Nfa(a, s) => gen::print_table(&a.fix(false)?, false, *s),
        Content::Regex(x, s) => gen::print_regex(&x.fix(), *s),
        Content::Text(t) => t.clone(),
    })
}

fn regex_arg(rx: &Rx, style: u64) -> String {
    let t = gen::print_regex(&rx.fix(), style);
    // an argument that looks like an option is the shell user's problem
    if t.starts_with('-') {
        format!("({t})")
    } else {
        t
    }
}

impl Inv {
    pub fn check(&self) -> R {
        let n = self.files.len();
        let ok = |i: &usize| *i < n;
        let fine = match &self.cmd {
            Cmd::Eq { main, files, .. } | Cmd::Test { main, files, .. } => ok(main) && files.iter().all(ok) && !files.is_empty(),
            Cmd::Bin { a, b, c, op, .. } => ok(a) && ok(b) && c.iter().all(ok) && *op < 4,
            Cmd::EnumFile { file, .. } => ok(file),
            Cmd::EnumRegex { .. } => true,
        };
        let paths: BTreeSet<String> = self.files.iter().map(|f| crate::os::normal(&f.path)).chain(self.out.iter().map(|p| crate::os::normal(p))).collect();
        let bad = |p: &str| p.is_empty() || p.starts_with('-') || p.contains('\0') || p.ends_with('/') || crate::os::normal(p) == "/" || crate::os::normal(p) == "/sim";
        if !fine || paths.len() != n + self.out.is_some() as usize || self.files.iter().any(|f| bad(&f.path)) || self.out.iter().any(|p| bad(p)) {
            return invalid("not an invocation");
        }
        // no file inside another
        for a in &paths {
            if paths.iter().any(|b| b.starts_with(&format!("{a}/"))) {
                return invalid("file within a file");
            }
        }
        Ok(())
    }
    pub fn fs(&self) -> R<Fs> {
        let mut fs = Fs::new();
        for f in &self.files {
            fs.insert(crate::os::normal(&f.path), VFile::new(text_of(&f.content)?.into_bytes()));
        }
        // the output file's directory exists
        if let Some(p) = self.out_norm() {
            if let Some(i) = p.rfind('/').filter(|i| *i > 0) {
                fs.insert(p[..i].to_string(), VFile::dir());
            }
        }
        Ok(fs)
    }
    pub fn out_norm(&self) -> Option<String> {
        self.out.as_ref().map(|p| crate::os::normal(p))
    }
    pub fn args(&self) -> Vec<String> {
        let mut r = Rng::new(self.spelling);
        let plain = self.spelling == 0;
        let mut v = vec![];
        let mut opt = |r: &mut Rng, short: Option<&str>, long: &str, val: Option<String>| -> Vec<String> {
            let use_short = short.is_some() && (plain || r.chance(1, 2));
            match val {
                None => vec![if use_short { short.unwrap().into() } else { long.to_string() }],
                Some(x) if use_short => {
                    if !plain && r.chance(1, 4) {
                        vec![format!("{}{x}", short.unwrap())]
                    } else {
                        vec![short.unwrap().into(), x]
                    }
                }
                Some(x) => {
                    if !plain && r.chance(1, 2) {
                        vec![format!("{long}={x}")]
                    } else {
                        vec![long.into(), x]
                    }
                }
            }
        };
        if let Some(o) = &self.out {
            v.push(opt(&mut r, Some("-o"), "--out", Some(o.clone())));
        }
        if self.less_logs {
            v.push(opt(&mut r, None, "--less-logs", None));
        }
        if !plain {
            r.shuffle(&mut v);
        }
        let mut all: Vec<String> = v.into_iter().flatten().collect();
        let mut o: Vec<Vec<String>> = vec![];
        let ty = |r: &mut Rng, t: Ty| t != Ty::Dfa || (!plain && r.chance(1, 2));
        let p = |i: &usize| self.files[*i].path.clone();
        let (name, pos): (&str, Vec<String>) = match &self.cmd {
            Cmd::Eq { in_type, ty: t, minimized, boolean, path_length, main, files } => {
                if let Some(t) = in_type {
                    o.push(opt(&mut r, Some("-i"), "--in-type", Some(t.arg())));
                }
                if ty(&mut r, *t) {
                    o.push(opt(&mut r, Some("-t"), "--type", Some(t.arg())));
                }
                if *minimized {
                    o.push(opt(&mut r, Some("-m"), "--minimized", None));
                }
                if *boolean {
                    o.push(opt(&mut r, Some("-b"), "--bool", None));
                }
                if let Some(n) = path_length {
                    o.push(opt(&mut r, Some("-p"), "--path-length", Some(n.to_string())));
                }
                ("equivalence", std::iter::once(p(main)).chain(files.iter().map(p)).collect())
            }
            Cmd::Bin { op, ty: t, second, compared, minimized, enumerate, a, b, c } => {
                if ty(&mut r, *t) {
                    o.push(opt(&mut r, Some("-t"), "--type", Some(t.arg())));
                }
                if let Some(t) = second {
                    o.push(opt(&mut r, Some("-s"), "--second-type", Some(t.arg())));
                }
                if ty(&mut r, *compared) {
                    o.push(opt(&mut r, None, "--compared-type", Some(compared.arg())));
                }
                if *minimized {
                    o.push(opt(&mut r, Some("-m"), "--minimized", None));
                }
                if let Some(n) = enumerate {
                    o.push(opt(&mut r, Some("-e"), "--enumerate", Some(n.to_string())));
                }
                (OPS[*op], [a, b].into_iter().chain(c).map(p).collect())
            }
            Cmd::EnumRegex { n, rx, style } => {
                if let Some(n) = n {
                    o.push(opt(&mut r, Some("-n"), "--amount", Some(n.to_string())));
                }
                ("enumerate-regex", vec![regex_arg(rx, *style)])
            }
            Cmd::EnumFile { ty: t, n, file } => {
                if ty(&mut r, *t) {
                    o.push(opt(&mut r, None, "--type", Some(t.arg())));
                }
                if let Some(n) = n {
                    o.push(opt(&mut r, Some("-a"), "--amount", Some(n.to_string())));
                }
                ("enumerate", vec![p(file)])
            }
            Cmd::Test { ty: t, files_mode, main, files } => {
                if ty(&mut r, *t) {
                    o.push(opt(&mut r, None, "--type", Some(t.arg())));
                }
                if *files_mode {
                    o.push(opt(&mut r, Some("-t"), "--test-type", Some("files".into())));
                }
                ("test-file", std::iter::once(p(main)).chain(files.iter().map(p)).collect())
            }
        };
        if !plain {
            r.shuffle(&mut o);
        }
        all.push(name.into());
        let o: Vec<String> = o.into_iter().flatten().collect();
        if !plain && r.chance(1, 4) {
            all.extend(pos);
            all.extend(o);
        } else {
            all.extend(o);
            all.extend(pos);
        }
        all
    }
}

// ---- what must be printed

#[derive(Clone, Debug)]
pub enum Item {
    Line(String),
    /// a line with this beginning
    Starts(String),
    /// a table of a DFA with this language; minimal or not asked for
    Table(Aut, bool),
    /// the first words of the language, by the alphabet order of the last table or of the automaton itself; the flag:
    /// any order of the alphabet
    Words(Aut, usize, bool),
}

#[derive(Clone, Debug)]
pub struct Expect {
    /// any of these sequences
    pub any: Vec<Vec<Item>>,
    /// the program must complain
    pub complain: bool,
    /// a line that must be printed when logs are on
    pub log: Option<String>,
    /// the words are said to be fewer when logs are on
    pub fewer: Option<usize>,
    /// the loaded automaton: its table is shown when logs are on
    pub shown: Option<Aut>,
    /// which of the two inputs are said to have been converted to DFAs when logs are on
    pub converted: Option<[bool; 2]>,
    /// the file the complaint has to be about, what has to be said about it, and its number among two inputs
    pub blame: Option<(usize, String, Option<usize>)>,
}

pub enum Seen {
    Text(String),
    Unreadable,
}

enum Src {
    Good(Aut, bool, usize),
    Bad,
    Unreadable,
    Unclear,
}

fn load(s: &Seen, ty: Ty) -> R<Src> {
    if matches!(s, Seen::Text(t) if ty == Ty::Regex && t.len() > LONGEST) {
        return invalid("a table, read as an expression of thousands of characters");
    }
    let l = load_inner(s, ty);
    if let Src::Good(a, ..) = &l {
        // (the program determinises eagerly, also what it then refuses)
        if ty != Ty::Dfa && !gen::tame(a) {
            return invalid("too many subsets");
        }
    }
    Ok(l)
}

/// (in bytes, of an expression)
const LONGEST: usize = 3000;
fn load_inner(s: &Seen, ty: Ty) -> Src {
    let Seen::Text(t) = s else { return Src::Unreadable };
    if ty == Ty::Regex && t.len() > LONGEST {
        return Src::Unclear;
    }
    match ty {
        Ty::Dfa | Ty::Nfa => match reader::table(t, ty == Ty::Dfa) {
            Read::Good(a) => {
                let n = a.len();
                Src::Good(a, false, n)
            }
            Read::Bad(_) => Src::Bad,
            Read::Unclear(_) => Src::Unclear,
        },
        Ty::Regex => match reader::regex(t) {
            Read::Good(x) => Src::Good(x.to_aut(&x.alphabet()), true, 0),
            Read::Bad(_) => Src::Bad,
            Read::Unclear(_) => Src::Unclear,
        },
    }
}

fn equal(a: &Aut, b: &Aut) -> R<bool> {
    Ok(a.alpha_set() == b.alpha_set() && lang_diff(a, b)?.is_none())
}

/// the last `n` components
pub fn tail(path: &str, n: Option<usize>) -> Option<String> {
    let Some(n) = n else { return Some(path.to_string()) };
    if n == 0 {
        return None;
    }
    let mut c: Vec<&str> = vec![];
    for (i, x) in path.split('/').enumerate() {
        match x {
            "" if i == 0 => c.push("/"),
            "" => {}
            "." if i > 0 => {}
            x => c.push(x),
        }
    }
    let k = c.len().saturating_sub(n);
    let c = &c[k..];
    Some(if c[0] == "/" { format!("/{}", c[1..].join("/")) } else { c.join("/") })
}

pub fn lines_of(t: &str) -> Vec<&str> {
    let mut v: Vec<&str> = t.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    // a carriage return belongs to the line end only before a line feed
    let ended = t.matches('\n').count();
    v.iter().enumerate().map(|(i, l)| if i < ended { l.strip_suffix('\r').unwrap_or(l) } else { l }).collect()
}

fn none(complain: bool) -> Expect {
    Expect { any: vec![vec![]], complain, log: None, fewer: None, shown: None, converted: None, blame: None }
}

/// What the library says is wrong with a text whose rows can be read.
fn flaw(s: &Seen, ty: Ty) -> String {
    let Seen::Text(t) = s else { return String::new() };
    let told = match ty {
        Ty::Dfa => dandy::parser::dfa(t).ok().and_then(|p| dandy::dfa::Dfa::try_from(p).err().map(|e| e.to_string())),
        Ty::Nfa => dandy::parser::nfa(t).ok().and_then(|p| dandy::nfa::Nfa::try_from(p).err().map(|e| e.to_string())),
        Ty::Regex => None,
    };
    told.unwrap_or_default()
}

/// `None`: the documentation leaves the meaning of an input open.
pub fn expect(inv: &Inv, see: &dyn Fn(usize) -> Seen) -> R<Option<Expect>> {
    macro_rules! main {
        ($i:expr, $t:expr) => {
            main!($i, $t, None)
        };
        ($i:expr, $t:expr, $k:expr) => {
            match load(&see($i), $t)? {
                Src::Good(a, rx, n) => (a, rx, n),
                Src::Bad => return Ok(Some(Expect { blame: Some(($i, flaw(&see($i), $t), $k)), ..none(true) })),
                Src::Unreadable => return Ok(Some(Expect { blame: Some(($i, String::new(), $k)), ..none(true) })),
                Src::Unclear => return Ok(None),
            }
        };
    }
    match &inv.cmd {
        Cmd::Eq { in_type, ty, minimized, boolean, path_length, main, files } => {
            let (reference, _, _) = main!(*main, in_type.unwrap_or(*ty));
            if *minimized && *ty != Ty::Dfa {
                return Ok(Some(none(true)));
            }
            let least = if *minimized { reference.det_self()?.min_count() } else { 0 };
            let mut items = vec![];
            let mut passed = 0;
            for i in files {
                let told;
                let (text, start) = match load(&see(*i), *ty)? {
                    Src::Unclear => return Ok(None),
                    Src::Unreadable => ("Failed to read (", true),
                    Src::Bad => match flaw(&see(*i), *ty) {
                        f if f.is_empty() => ("Failed to parse (", true),
                        f => {
                            told = format!("Failed to validate ({f})");
                            (told.as_str(), false)
                        }
                    },
                    Src::Good(a, _, n) => {
                        if !equal(&a, &reference)? {
                            ("Not Equivalent", false)
                        } else if *minimized && n != least {
                            ("Equivalent but not minimized", false)
                        } else {
                            passed += 1;
                            ("Equivalent", false)
                        }
                    }
                };
                let (text, start) = match boolean {
                    true => (if text == "Equivalent" { "true" } else { "false" }, false),
                    false => (text, start),
                };
                let l = match tail(&inv.files[*i].path, *path_length).map(|p| crate::os::shown(&p)) {
                    Some(p) => format!("{p}: {text}"),
                    None => text.to_string(),
                };
                items.push(if start { Item::Starts(l) } else { Item::Line(l) });
            }
            let log = Some(format!("{passed}/{} files passed", files.len()));
            Ok(Some(Expect { any: vec![items], complain: false, log, fewer: None, shown: Some(reference), converted: None, blame: None }))
        }
        Cmd::Bin { op, ty, second, compared, minimized, enumerate, a, b, c } => {
            let (x, _, _) = main!(*a, *ty, Some(1));
            let (y, _, _) = main!(*b, second.unwrap_or(*ty), Some(2));
            if x.alpha_set() != y.alpha_set() {
                return Ok(Some(none(true)));
            }
            let f: fn(bool, bool) -> bool = match op {
                0 => |p, q| p | q,
                1 => |p, q| p & q,
                2 => |p, q| p & !q,
                _ => |p, q| p ^ q,
            };
            let lang = x.det(&x.alpha, CAP)?.combine(&y.det(&x.alpha, CAP)?, f).to_aut();
            let mut items = vec![Item::Table(lang.clone(), *minimized)];
            let (big, small) = OP_NAMES[*op];
            if let Some(n) = enumerate {
                items.push(Item::Line(format!("First {n} words in the language of the {small}:")));
                items.push(Item::Words(lang.clone(), *n, false));
                let w = first(&lang.det_self()?, *n)?;
                if w.len() < *n {
                    items.push(Item::Line(format!("(only {} words exists in the {small})", w.len())));
                }
            }
            if let Some(i) = c {
                let verdict = match load(&see(*i), *compared)? {
                    Src::Unclear => return Ok(None),
                    Src::Bad | Src::Unreadable => return Ok(Some(Expect { any: vec![items, vec![]], complain: true, log: None, fewer: None, shown: None, converted: None, blame: None })),
                    Src::Good(z, _, _) => equal(&lang, &z)?,
                };
                let v = if verdict { "EQUIVALENT" } else { "NOT EQUIVALENT" };
                items.push(Item::Line(format!("{big} of the two provided {} is {v} to the third {}", ty.many(), compared.one())));
            }
            Ok(Some(Expect { any: vec![items], complain: false, log: None, fewer: None, shown: None, converted: Some([*ty != Ty::Dfa, second.unwrap_or(*ty) != Ty::Dfa]), blame: None }))
        }
        Cmd::EnumRegex { n, rx, style } => words(Seen::Text(regex_arg(rx, *style)), Ty::Regex, n.unwrap_or(20)),
        Cmd::EnumFile { ty, n, file } => {
            main!(*file, *ty);
            words(see(*file), *ty, n.unwrap_or(30))
        }
        Cmd::Test { ty, files_mode, main, files } => {
            let (a, _, _) = main!(*main, *ty);
            let mut items = vec![];
            let mut complain = false;
            let mut stopped: Option<Vec<Item>> = None;
            for i in files {
                let path = &crate::os::shown(&inv.files[*i].path);
                let Seen::Text(t) = see(*i) else {
                    complain = true;
                    stopped.get_or_insert(items.clone());
                    continue;
                };
                let ok = |l: &str| a.accepts(&l.graphemes(true).collect::<Vec<_>>());
                let lines = lines_of(&t);
                if *files_mode {
                    items.push(Item::Line(match lines.iter().find(|l| !ok(l)) {
                        None => format!("[ OK ] {path}"),
                        Some(l) => format!("[FAIL] {path} failed on {l}"),
                    }));
                } else {
                    items.push(Item::Line(format!("Testing file {path}:")));
                    let mut good = 0;
                    for l in &lines {
                        let k = ok(l);
                        good += k as usize;
                        items.push(Item::Line(format!("{} {l}", if k { "[ OK ]" } else { "[FAIL]" })));
                    }
                    items.push(Item::Line(format!("{good}/{} lines passed in file {path}:", lines.len())));
                }
            }
            let mut any = vec![items];
            any.extend(stopped);
            Ok(Some(Expect { any, complain, log: None, fewer: None, shown: Some(a), converted: None, blame: None }))
        }
    }
}
const CAP: usize = 4000;

/// More words than this are asked for only where there are fewer.
const MOST: usize = 6000;
fn first(d: &Det, n: usize) -> R<Vec<Vec<usize>>> {
    let Some((w, _)) = d.words(n.min(MOST)) else { return invalid("words too long") };
    if w.len() == MOST {
        return invalid("too many words");
    }
    Ok(w)
}

fn words(s: Seen, ty: Ty, n: usize) -> R<Option<Expect>> {
    let (a, any_order) = match load(&s, ty)? {
        Src::Good(a, rx, _) => (a, rx),
        Src::Bad | Src::Unreadable => return Ok(Some(none(true))),
        Src::Unclear => return Ok(None),
    };
    let w = first(&a.det_self()?, n)?;
    // (the program looks at every step from every state again for every word and length)
    let effort = match &s {
        Seen::Text(t) if any_order => match reader::regex(t) {
            Read::Good(x) => x.spelt_out().to_aut(&x.alphabet()).effort(),
            _ => 0.0,
        },
        _ => a.effort(),
    };
    let l = w.last().map_or(0, |w| w.len()) as f64;
    if effort * l * l * w.len() as f64 > 3e11 {
        return invalid("too many steps for the words");
    }
    let fewer = (w.len() < n).then_some(w.len());
    Ok(Some(Expect { any: vec![vec![Item::Words(a, n, any_order)]], complain: false, log: None, fewer, shown: None, converted: None, blame: None }))
}

fn word_lines(a: &Aut, order: &[String], n: usize) -> R<Vec<String>> {
    let d = a.det(order, CAP)?;
    Ok(first(&d, n)?
        .into_iter()
        .map(|w| if w.is_empty() { "(empty word)".into() } else { w.iter().map(|&k| order[k].as_str()).collect::<String>() })
        .collect())
}

fn orders(alpha: &[String]) -> Vec<Vec<String>> {
    if alpha.len() > 4 {
        return vec![alpha.to_vec()];
    }
    let mut out = vec![vec![]];
    for _ in 0..alpha.len() {
        out = out
            .into_iter()
            .flat_map(|p: Vec<String>| {
                alpha.iter().filter(|x| !p.contains(x)).map(|x| { let mut q = p.clone(); q.push(x.clone()); q }).collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

/// a table printed by the program: its automaton, if the file format can express it
fn parse_table(lines: &[&str], want: &Aut) -> Result<Option<Aut>, String> {
    if want.alpha.is_empty() || !want.alpha.iter().all(|s| token_ok(s)) {
        return Ok(None);
    }
    match reader::table(&(lines.join("\n") + "\n"), true) {
        Read::Good(a) => Ok(Some(a)),
        Read::Bad(e) => Err(e),
        Read::Unclear(e) => Err(e.into()),
    }
}

fn check_table(lines: &[&str], want: &Aut, minimal: bool) -> R<Option<Aut>> {
    let shown = lines.join("\n");
    match parse_table(lines, want) {
        Err(e) => viol("table", format!("this is not the table of a DFA ({e}):\n{shown}")),
        Ok(None) => Ok(None),
        Ok(Some(a)) => {
            ensure_same_lang("wrong-language", "the printed table", &a, want)?;
            if minimal {
                let n = want.det_self()?.min_count();
                ensure(a.len() == n, "not-minimal", || format!("the printed table has {} states instead of {n}\n{shown}", a.len()))?;
            }
            Ok(Some(a))
        }
    }
}

/// Exactly these results, nothing else. Returns the offset of the end of each result in the text.
pub fn check_strict(text: &str, items: &[Item]) -> R<Vec<usize>> {
    ensure(text.is_empty() || text.ends_with('\n'), "line-end", || format!("the results do not end with a line end: {text:?}"))?;
    let lines: Vec<&str> = if text.is_empty() { vec![] } else { text[..text.len() - 1].split('\n').collect() };
    let mut ends = vec![];
    let mut at = 0;
    let mut pos = 0;
    let mut order: Option<Vec<String>> = None;
    let mut take = |k: usize, pos: &mut usize| {
        for _ in 0..k {
            at += lines[*pos].len() + 1;
            *pos += 1;
        }
        ends.push(at);
    };
    for (k, it) in items.iter().enumerate() {
        let cur = lines.get(pos).copied();
        match it {
            Item::Line(l) => {
                ensure(cur == Some(l), "wrong-line", || format!("expected the line {l:?}, got {cur:?}\nall of it:\n{text}"))?;
                take(1, &mut pos);
            }
            Item::Starts(l) => {
                ensure(cur.is_some_and(|c| c.starts_with(l.as_str())), "wrong-line", || format!("expected a line like {l:?}, got {cur:?}\nall of it:\n{text}"))?;
                // the message may quote the file, over several lines
                let next = |x: &&str| match items.get(k + 1) {
                    Some(Item::Line(l)) => x == l,
                    Some(Item::Starts(l)) => x.starts_with(l.as_str()),
                    _ => false,
                };
                let n = lines[pos + 1..].iter().position(next).unwrap_or(lines.len() - pos - 1);
                take(n + 1, &mut pos);
            }
            Item::Table(want, minimal) => {
                let rest = &lines[pos..];
                let n = match items.get(k + 1) {
                    Some(Item::Line(l)) => match rest.iter().position(|x| x == l) {
                        Some(n) => n,
                        None => return viol("wrong-line", format!("the line {l:?} is missing\nall of it:\n{text}")),
                    },
                    _ => rest.len(),
                };
                let t = check_table(&rest[..n], want, *minimal)?;
                order = Some(t.map_or(want.alpha.clone(), |t| t.alpha));
                take(n, &mut pos);
            }
            Item::Words(a, n, any_order) => {
                let cands = if *any_order { orders(&a.alpha) } else { vec![order.clone().unwrap_or(a.alpha.clone())] };
                let mut hit = None;
                let mut first = None;
                for o in cands {
                    let w = word_lines(a, &o, *n)?;
                    // a word may contain a line end
                    let sizes: Vec<usize> = w.iter().map(|x| x.split('\n').count()).collect();
                    let flat: Vec<&str> = w.iter().flat_map(|x| x.split('\n')).collect();
                    let got: Vec<&str> = lines[pos..].iter().copied().take(flat.len()).collect();
                    if got == flat {
                        hit = Some(sizes);
                        break;
                    }
                    first.get_or_insert(w);
                }
                let Some(sizes) = hit else {
                    return viol("wrong-words", format!("expected the words {:?}, got {:?}", first.unwrap_or_default(), &lines[pos..]));
                };
                for n in sizes {
                    take(n, &mut pos);
                }
            }
        }
    }
    ensure(pos == lines.len(), "extra-lines", || format!("unexpected lines {:?}", &lines[pos..]))?;
    Ok(ends)
}

/// These results in this order, among other lines.
pub fn check_loose(text: &str, items: &[Item]) -> R {
    let lines: Vec<&str> = text.split('\n').collect();
    let mut pos = 0;
    let mut order: Option<Vec<String>> = None;
    for it in items {
        match it {
            Item::Line(l) => match lines[pos..].iter().position(|x| x == l) {
                Some(i) => pos += i + 1,
                None => return viol("wrong-line", format!("the line {l:?} is missing or out of order in\n{text}")),
            },
            Item::Starts(l) => match lines[pos..].iter().position(|x| x.starts_with(l.as_str())) {
                Some(i) => pos += i + 1,
                None => return viol("wrong-line", format!("a line like {l:?} is missing or out of order in\n{text}")),
            },
            Item::Table(want, minimal) => {
                let mut found = None;
                'o: for i in pos..lines.len() {
                    for j in (i + 2..=lines.len()).rev() {
                        if parse_table(&lines[i..j], want).is_ok() {
                            if let Ok(t) = check_table(&lines[i..j], want, *minimal) {
                                found = Some((j, t));
                                break 'o;
                            }
                        }
                    }
                }
                let Some((j, t)) = found else { return viol("wrong-language", format!("the right table is missing in\n{text}")) };
                if let Some(t) = t {
                    pos = j;
                    order = Some(t.alpha);
                } else {
                    order = Some(want.alpha.clone());
                }
            }
            Item::Words(a, n, any_order) => {
                let cands = if *any_order { orders(&a.alpha) } else { vec![order.clone().unwrap_or(a.alpha.clone())] };
                let mut ok = false;
                for o in cands {
                    let w = word_lines(a, &o, *n)?;
                    let mut p = pos;
                    if w.iter().flat_map(|x| x.split('\n')).all(|x| match lines[p..].iter().position(|y| *y == x) {
                        Some(i) => {
                            p += i + 1;
                            true
                        }
                        None => false,
                    }) {
                        ok = true;
                        pos = p;
                        break;
                    }
                }
                ensure(ok, "wrong-words", || format!("the right words are missing or out of order in\n{text}"))?;
            }
        }
    }
    Ok(())
}

/// Somewhere in the text is a table of this automaton, and it means the same.
fn check_shown(text: &str, want: &Aut) -> R {
    if want.alpha.is_empty() || !want.alpha.iter().all(|s| token_ok(s)) {
        return Ok(());
    }
    let lines: Vec<&str> = text.split('\n').collect();
    let row = |l: &str| l.starts_with([' ', '→', '*']);
    let mut i = 0;
    let mut why = "there is none".to_string();
    // word lists and verdicts come later
    while i < lines.len().min(12) {
        let n = lines[i..].iter().take_while(|l| row(l)).count();
        if n >= 2 {
            let t = lines[i..i + n].join("\n") + "\n";
            for dfa in [true, false] {
                match reader::table(&t, dfa) {
                    Read::Good(a) => {
                        if equal(&a, want)? {
                            return Ok(());
                        }
                        why = format!("it shows another language:\n{t}");
                    }
                    Read::Bad(e) if !dfa && why.starts_with("there") => why = e,
                    _ => {}
                }
            }
        }
        i += n.max(1);
    }
    viol("shown", format!("the loaded automaton is not shown as a table: {why}\n{text}"))
}

pub fn utf8(b: &[u8]) -> R<&str> {
    std::str::from_utf8(b).or_else(|_| viol("output", "the output is not text"))
}

/// Checks what a run that ended by itself printed.
pub fn check_output(inv: &Inv, e: &Expect, stdout: &[u8], stderr: &[u8]) -> R {
    let t = utf8(stdout)?;
    let mut res: R = Ok(());
    for items in &e.any {
        res = if inv.less_logs { check_strict(t, items).map(|_| ()) } else { check_loose(t, items) };
        if res.is_ok() {
            break;
        }
    }
    res?;
    if e.complain {
        ensure(!stderr.is_empty(), "silent", || "a failure was not reported".into())?;
        if let Some((_, what, number)) = &e.blame {
            let said = String::from_utf8_lossy(stderr);
            ensure(said.contains(what.as_str()), "blame", || format!("the complaint does not tell {what:?}:\n{said}"))?;
            if let (Some(k), Some(i)) = (number, said.find("Error in ")) {
                let first = said[i..].chars().find(|c| c.is_ascii_digit());
                ensure(first == char::from_digit(*k as u32, 10), "blame", || format!("the complaint is about the wrong input, not number {k}:\n{said}"))?;
            }
        }
    }
    if !inv.less_logs && !e.complain {
        if let Some(l) = &e.log {
            ensure(t.lines().any(|x| x == l), "summary", || format!("the summary line {l:?} is missing in\n{t}"))?;
        }
        if let Some(a) = &e.shown {
            check_shown(t, a)?;
        }
        for (k, c) in e.converted.iter().flatten().enumerate() {
            let said = t.lines().any(|x| x.contains(&format!("file {} was converted", k + 1)));
            ensure(said == *c, "conversion", || format!("whether input {} was converted is told wrongly\n{t}", k + 1))?;
        }
        let only = |x: &str| x.starts_with("(only ");
        match e.fewer {
            Some(n) => ensure(t.lines().any(|x| only(x) && x.contains(&format!(" {n} words"))), "count", || format!("it is not said that there are only {n} words\n{t}"))?,
            None => {
                if matches!(inv.cmd, Cmd::EnumFile { .. } | Cmd::EnumRegex { .. }) && !e.any[0].is_empty() {
                    ensure(!t.lines().any(|x| x.starts_with("(only ") && x.contains(" words exists in the language of")), "count", || format!("the words are said to be fewer than they are\n{t}"))?
                }
            }
        }
    }
    Ok(())
}

// ---- generators

/// A language in the shapes the program takes.
pub struct Family {
    alpha: Vec<String>,
    rx: Option<Rx>,
    nfa: Aut,
    dfa: Aut,
    min: Aut,
}

pub fn minimal(d: &Det) -> Aut {
    let c = moore(&d.tr, &d.acc);
    let n = c.iter().max().unwrap() + 1;
    // the initial state first
    let mut map = vec![usize::MAX; n];
    let mut k = 0;
    let mut rep = vec![];
    for (s, &x) in c.iter().enumerate() {
        if map[x] == usize::MAX {
            map[x] = k;
            rep.push(s);
            k += 1;
        }
    }
    Aut {
        alpha: d.alpha.clone(),
        init: 0,
        st: rep
            .iter()
            .enumerate()
            .map(|(i, &s)| St { n: format!("m{i}"), a: d.acc[s], t: d.tr[s].iter().map(|&t| vec![map[c[t]]]).collect(), e: vec![] })
            .collect(),
    }
}

fn pad(x: Rx, alpha: &[String]) -> Rx {
    if alpha.iter().all(|a| x.alphabet().contains(a)) {
        return x;
    }
    let mut v = vec![Rx::Empty];
    v.extend(alpha.iter().map(|a| Rx::Ch(a.clone())));
    Rx::Alt(vec![x, Rx::Seq(v)])
}

fn over(r: &mut Rng, x: &Rx, alpha: &[String]) -> Rx {
    match x {
        Rx::Ch(_) => Rx::Ch(r.pick(alpha).clone()),
        Rx::Seq(v) => Rx::Seq(v.iter().map(|x| over(r, x, alpha)).collect()),
        Rx::Alt(v) => Rx::Alt(v.iter().map(|x| over(r, x, alpha)).collect()),
        Rx::Star(x) => Rx::Star(Box::new(over(r, x, alpha))),
        Rx::Plus(x) => Rx::Plus(Box::new(over(r, x, alpha))),
        x => x.clone(),
    }
}

/// the same language written differently, mostly
fn rewrite(r: &mut Rng, x: &Rx) -> Rx {
    let y = match x {
        Rx::Seq(v) => Rx::Seq(v.iter().map(|x| rewrite(r, x)).collect()),
        Rx::Alt(v) => {
            let mut v: Vec<Rx> = v.iter().map(|x| rewrite(r, x)).collect();
            if r.chance(1, 2) {
                r.shuffle(&mut v);
            }
            Rx::Alt(v)
        }
        Rx::Star(x) => Rx::Star(Box::new(rewrite(r, x))),
        Rx::Plus(x) => Rx::Plus(Box::new(rewrite(r, x))),
        x => x.clone(),
    };
    let b = Box::new;
    match r.below(12) {
        0 => Rx::Alt(vec![y.clone(), y]),
        1 => Rx::Seq(vec![y, Rx::Eps]),
        2 => Rx::Alt(vec![y, Rx::Empty]),
        3 => match y {
            Rx::Star(x) => Rx::Alt(vec![Rx::Eps, Rx::Plus(x)]),
            Rx::Plus(x) => Rx::Seq(vec![(*x).clone(), Rx::Star(x)]),
            y => y,
        },
        4 => match y {
            Rx::Star(x) => Rx::Star(b(Rx::Star(x))),
            Rx::Plus(x) => Rx::Star(x), // not the same
            y => y,
        },
        _ => y,
    }
}

pub fn family(r: &mut Rng) -> Family {
    if r.chance(1, 2) {
        let k = r.range(1, 3);
        let pool: &[&str] = *r.pick(&[&["a", "b", "c"][..], &["0", "1", "2"], &["b", "a", "é"], &["a", "😀", "x"]]);
        let alpha: Vec<String> = pool[..k].iter().map(|s| s.to_string()).collect();
        let x = gen::regex(r, 7, true);
        let x = bounded(over(r, &x, &alpha));
        let rx = pad(x, &alpha);
        let nfa = rx.to_aut(&alpha);
        if let Ok(d) = nfa.det_self() {
            let min = minimal(&d);
            return Family { dfa: d.to_aut(), min, nfa, rx: Some(rx), alpha };
        }
    }
    let size = gen::Size { max_states: 5, max_syms: gen::syms(r, 3), big: false, mid: true };
    let graph = r.chance(2, 3);
    let k = r.range(1, 3);
    let alpha = gen::symbols(r, k, graph);
    let e = r.chance(1, 2);
    let nfa = gen::nfa(r, &size, Some(alpha.clone()), e);
    let nfa = nfa.fix(false).unwrap_or_else(|_| Aut { alpha: alpha.clone(), st: vec![St { n: "s".into(), a: true, t: vec![vec![]; alpha.len()], e: vec![] }], init: 0 });
    let d = nfa.det_self().expect("a small automaton");
    Family { dfa: d.to_aut(), min: minimal(&d), nfa, rx: None, alpha }
}

/// the size of an expression once every x+ is written xx*
fn expanded(x: &Rx) -> usize {
    match x {
        Rx::Seq(v) | Rx::Alt(v) => 1 + v.iter().map(expanded).sum::<usize>(),
        Rx::Star(x) => 1 + expanded(x),
        Rx::Plus(x) => 2 + 2 * expanded(x),
        _ => 1,
    }
}
/// (the program's effort grows with the fourth power of it)
const WIDEST: usize = 60;
fn bounded(x: Rx) -> Rx {
    if expanded(&x) <= WIDEST {
        return x;
    }
    match x {
        Rx::Plus(x) | Rx::Star(x) => bounded(*x),
        Rx::Seq(mut v) => {
            v.truncate(v.len() - 1);
            bounded(Rx::Seq(v).fix())
        }
        Rx::Alt(mut v) => {
            v.truncate(v.len() - 1);
            bounded(Rx::Alt(v).fix())
        }
        x => x,
    }
}

pub fn content(r: &mut Rng, f: &Family, ty: Ty) -> Content {
    let size = gen::Size { max_states: 6, max_syms: gen::syms(r, 3), big: false, mid: true };
    let style = r.seed() * (r.below(3).min(1) as u64);
    if r.chance(1, 25) {
        return Content::Text(r.pick(&["", "\n", "a b\n-> s s\n", "(a", "a a\n-> s s s\n", "a\ns s\n", "a\n-> s t\n", "x y z", "{", "a\n-> s {t}\n", "# nothing\n", "a eps\n-> s s s\n", "a\n-> s s\n-> t t\n"]).to_string());
    }
    match ty {
        Ty::Dfa => {
            if r.chance(1, 3) {
                let mut a = f.min.clone();
                let nm = gen::names(r, a.len());
                for (s, n) in a.st.iter_mut().zip(nm) {
                    s.n = n;
                }
                return Content::Dfa(a, style);
            }
            let base = if r.chance(1, 2) && f.dfa.len() < 12 { &f.dfa } else { &f.min };
            Content::Dfa(gen::related(r, base, true, &size), style)
        }
        Ty::Nfa => {
            let base = if r.chance(1, 3) { &f.min } else { &f.nfa };
            let mut a = if base.len() < 14 { gen::related(r, base, false, &size) } else { base.clone() };
            if r.chance(1, 3) {
                a.st.iter_mut().for_each(|s| s.e.clear());
            }
            Content::Nfa(a, style)
        }
        Ty::Regex => match &f.rx {
            Some(x) if r.chance(5, 6) => {
                let y = rewrite(r, x);
                Content::Regex(if expanded(&y) <= WIDEST { y } else { x.clone() }, style)
            }
            _ => {
                let x = gen::regex(r, 8, true);
                let singles: Vec<String> = f.alpha.iter().filter(|s| s.graphemes(true).count() == 1).cloned().collect();
                let x = bounded(if singles.is_empty() { x } else { over(r, &x, &singles) });
                Content::Regex(if r.chance(9, 10) { pad(x, &singles) } else { x }, style)
            }
        },
    }
}

pub fn ty(r: &mut Rng) -> Ty {
    *r.pick(&[Ty::Dfa, Ty::Dfa, Ty::Nfa, Ty::Nfa, Ty::Regex])
}

const DIRS: &[&str] = &["", "", "", "./", "sub/", "deep/er/est/", "/data/", "/data/x y/", "../", "dir//", "a/./b/", "héé/", "../../top/", "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/", "/1/2/3/4/5/6/7/8/9/10/", "a directory whose name is long enough to be cut off by anything that would like its lines to fit into the width of a terminal/"];

pub fn path(r: &mut Rng, used: &mut BTreeSet<String>) -> String {
    let stems = ["one", "two", "a", "file name", "é", "x.tar", "..hidden", "0", "😀"];
    let exts = [".dfa", ".nfa", ".txt", "", ".regex"];
    loop {
        let mut p = format!("{}{}{}", r.pick(DIRS), r.pick(&stems), r.pick(&exts));
        if r.chance(1, 12) {
            // (a name that is not text)
            let mut c: Vec<char> = p.chars().collect();
            c.insert(r.below(c.len() + 1), crate::os::RAW);
            p = c.into_iter().collect();
        }
        if used.insert(crate::os::normal(&p)) {
            return p;
        }
        let p = format!("f{}", used.len());
        if used.insert(crate::os::normal(&p)) {
            return p;
        }
    }
}

pub fn options(r: &mut Rng, files: Vec<FileSpec>, cmd: Cmd, used: &mut BTreeSet<String>) -> Inv {
    Inv { files, cmd, less_logs: r.chance(3, 4), out: if r.chance(1, 3) { Some(path(r, used)) } else { None }, spelling: r.seed() * (r.below(3).min(1) as u64) }
}

/// how many files are listed
fn many_files(r: &mut Rng, usual: usize) -> usize {
    match r.below(600) {
        0..=8 => r.range(9, 40),
        9 => *r.pick(&[63, 64, 65, 99, 100, 101, 127, 128, 129, 200]),
        _ => r.range(1, usual),
    }
}

pub fn gen_eq(r: &mut Rng) -> Inv {
    let f = family(r);
    let mut used = BTreeSet::new();
    let t = ty(r);
    let in_type = if r.chance(1, 2) { Some(ty(r)) } else { None };
    let mut files = vec![FileSpec { path: path(r, &mut used), content: content(r, &f, in_type.unwrap_or(t)) }];
    let n = many_files(r, 5);
    for _ in 0..n {
        let tt = if r.chance(1, 20) { ty(r) } else { t };
        let c = content(r, &f, tt);
        files.push(FileSpec { path: path(r, &mut used), content: c });
    }
    if r.chance(1, 6) {
        let (i, j) = (r.range(0, n), r.range(1, n));
        if let Ok(s) = text_of(&files[i].content) {
            files[j].content = Content::Text(gen::touch(&s, r.seed()));
        }
    }
    let mut list: Vec<usize> = (1..=n).collect();
    if r.chance(1, 8) {
        list.push(r.range(0, n));
    }
    let cmd = Cmd::Eq {
        in_type,
        ty: t,
        minimized: r.chance(1, if t == Ty::Dfa { 2 } else { 12 }),
        boolean: r.chance(1, 4),
        path_length: if r.chance(1, 2) { Some(if r.chance(1, 20) { *r.pick(&[7, 10, 16, 20, 64, 255, 256, 1 << 16, 1 << 32, usize::MAX]) } else { r.below(6) }) } else { None },
        main: 0,
        files: list,
    };
    options(r, files, cmd, &mut used)
}

/// at most `n` words whose enumeration is not too much work
fn affordable(a: &Aut, n: usize) -> usize {
    let Ok(d) = a.det_self() else { return 0 };
    let mut work = 0;
    let Some((w, _)) = d.words(n) else { return 0 };
    for (i, x) in w.iter().enumerate() {
        work += x.len() * x.len() * 40;
        if work > 1_000_000 {
            return i;
        }
    }
    // the search past the last word costs as well
    n
}

pub fn gen_bin(r: &mut Rng) -> Inv {
    let f = family(r);
    let mut used = BTreeSet::new();
    let t = ty(r);
    let second = if r.chance(1, 2) { Some(ty(r)) } else { None };
    let compared = ty(r);
    let mut files = vec![];
    let n = if r.chance(1, 2) { 3 } else { 2 };
    let a = content(r, &f, t);
    let b = content(r, &f, second.unwrap_or(t));
    files.push(FileSpec { path: path(r, &mut used), content: a.clone() });
    files.push(FileSpec { path: path(r, &mut used), content: b.clone() });
    let op = r.below(4);
    let mut cap = 8;
    let lang = |c: &Content, t: Ty| -> Option<Aut> {
        match load_inner(&Seen::Text(text_of(c).ok()?), t) {
            Src::Good(a, ..) => Some(a),
            _ => None,
        }
    };
    let both = lang(&a, t).zip(lang(&b, second.unwrap_or(t))).filter(|(x, y)| x.alpha_set() == y.alpha_set());
    let mut res = None;
    let mut more = None;
    if let Some((x, y)) = &both {
        if let (Ok(p), Ok(q)) = (x.det(&x.alpha, CAP), y.det(&x.alpha, CAP)) {
            let g: fn(bool, bool) -> bool = match op {
                0 => |p, q| p | q,
                1 => |p, q| p & q,
                2 => |p, q| p & !q,
                _ => |p, q| p ^ q,
            };
            let d = p.combine(&q, g);
            // (the effort grows with the fourth power of the number of states)
            cap = if d.tr.len() > 120 { 0 } else { affordable(&d.to_aut(), 1100) };
            if cap >= 1100 {
                more = all_and_more(r, &d.to_aut());
            }
            res = Some(d);
        }
    }
    if n == 3 {
        let c = match &res {
            // often the very language that comes out
            Some(d) if r.chance(2, 3) && compared != Ty::Regex => {
                let m = minimal(d);
                let g = Family { alpha: m.alpha.clone(), rx: None, nfa: m.clone(), dfa: m.clone(), min: m };
                content(r, &g, compared)
            }
            _ => content(r, &f, compared),
        };
        files.push(FileSpec { path: path(r, &mut used), content: c });
    }
    let cmd = Cmd::Bin {
        op,
        ty: t,
        second,
        compared,
        minimized: r.chance(1, 2),
        enumerate: if r.chance(1, 2) { Some(more.unwrap_or(if r.chance(1, 60) { *r.pick(&[64, 99, 100, 101, 128, 200, 255, 256, 257, 300, 1000, 1001, 1024, 1025]) } else { r.below(31) }.min(cap))) } else { None },
        a: 0,
        b: if r.chance(1, 12) { 0 } else { 1 },
        c: (n == 3).then_some(2),
    };
    let cmd = match cmd {
        // the same file twice: the types must fit, or it is a failure like any other
        Cmd::Bin { op, ty, second, compared, minimized, a, b: 0, c, .. } => Cmd::Bin { op, ty, second, compared, minimized, enumerate: None, a, b: 0, c },
        x => x,
    };
    options(r, files, cmd, &mut used)
}

/// Now and then, far more words than there are.
fn all_and_more(r: &mut Rng, a: &Aut) -> Option<usize> {
    if !r.chance(1, 25) {
        return None;
    }
    let (w, done) = a.det_self().ok()?.words(300)?;
    (done && w.len() < 300).then(|| *r.pick(&[10_000, 65_536, 1 << 31, 1 << 32, usize::MAX - 1, usize::MAX]))
}

/// how many words are asked for
fn amount(r: &mut Rng) -> Option<usize> {
    match r.below(60) {
        0..=9 => None,
        10 => Some(*r.pick(&[99, 100, 101, 127, 128, 255, 256, 257, 500, 999, 1000, 1001, 1023, 1024, 1025, 2000])),
        _ => Some(r.below(41)),
    }
}

pub fn gen_enum(r: &mut Rng) -> Inv {
    let mut used = BTreeSet::new();
    if r.chance(1, 3) {
        let rx = bounded(gen::regex(r, 9, r.clone().chance(2, 3)).fix());
        let a = rx.to_aut(&rx.alphabet());
        let n = amount(r);
        let n = match affordable(&a, n.unwrap_or(20)) {
            k if k < n.unwrap_or(20) => Some(k),
            _ => all_and_more(r, &a).or(n),
        };
        let style = r.seed() * (r.below(2) as u64);
        let cmd = Cmd::EnumRegex { n, rx, style };
        return options(r, vec![], cmd, &mut used);
    }
    let f = family(r);
    let t = ty(r);
    let c = content(r, &f, t);
    let n = amount(r);
    let want = n.unwrap_or(30);
    let mut more = None;
    let k = match text_of(&c).map(|x| load_inner(&Seen::Text(x), t)) {
        Ok(Src::Good(a, ..)) => {
            more = all_and_more(r, &a);
            affordable(&a, want)
        }
        _ => want,
    };
    let cmd = Cmd::EnumFile { ty: t, n: if k < want { Some(k) } else { more.or(n) }, file: 0 };
    let p = path(r, &mut used);
    options(r, vec![FileSpec { path: p, content: c }], cmd, &mut used)
}

pub fn gen_test(r: &mut Rng) -> Inv {
    let f = family(r);
    let mut used = BTreeSet::new();
    let t = ty(r);
    let c = content(r, &f, t);
    let mut files = vec![FileSpec { path: path(r, &mut used), content: c }];
    let n = many_files(r, 3);
    // each run has its own kind of word file
    let mostly = r.chance(1, 2);
    for _ in 0..n {
        let k = match r.below(600) {
            0..=8 => r.range(30, 400),
            9 if n < 4 => *r.pick(&[999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5000]),
            _ => r.below(8),
        };
        let mut text = String::new();
        let nl = *r.pick(&["\n", "\n", "\n", "\r\n"]);
        let d = f.dfa.det_self();
        let good = d.ok().and_then(|d| d.words(12)).map(|w| w.0).unwrap_or_default();
        for i in 0..k {
            let w: String = if mostly && !good.is_empty() && r.chance(9, 10) {
                r.pick(&good).iter().map(|&k| f.alpha[k].as_str()).collect()
            } else {
                let l = match r.below(4000) {
                    0..=38 => r.range(30, 600),
                    39 if n < 4 => *r.pick(&[1000, 4095, 4096, 4097, 8191, 8192, 8193, 20_000, 65_535, 65_536, 70_000]),
                    _ => r.below(6),
                };
                (0..l).map(|_| if r.chance(1, 20) { r.pick(&["é", " ", "\u{301}", "?", "\t", "\r", "ε"]).to_string() } else { r.pick(&f.alpha).clone() }).collect()
            };
            text += &w;
            if i + 1 < k || r.chance(2, 3) {
                text += nl;
            }
        }
        if r.chance(1, 12) {
            text += "\n\n";
        }
        files.push(FileSpec { path: path(r, &mut used), content: Content::Text(text) });
    }
    let mut list: Vec<usize> = (1..=n).collect();
    if r.chance(1, 10) {
        list.push(r.range(0, n));
    }
    let cmd = Cmd::Test { ty: t, files_mode: r.chance(1, 2), main: 0, files: list };
    options(r, files, cmd, &mut used)
}

pub fn gen_any(r: &mut Rng) -> Inv {
    match r.below(7) {
        0 | 1 => gen_eq(r),
        2 | 3 => gen_bin(r),
        4 => gen_enum(r),
        _ => gen_test(r),
    }
}

pub fn name(c: &Cmd) -> &'static str {
    match c {
        Cmd::Eq { .. } => "op:equivalence",
        Cmd::Bin { op, .. } => ["op:union", "op:intersection", "op:difference", "op:symmetric-difference"][*op % 4],
        Cmd::EnumRegex { .. } => "op:enumerate-regex",
        Cmd::EnumFile { .. } => "op:enumerate",
        Cmd::Test { .. } => "op:test-file",
    }
}
