//! Independent executable reference models: automata, languages, minimality, word order, regular expressions.
use crate::core::*;
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
type Map<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fnv>>;
#[derive(Default, Clone)]
pub struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct St {
    /// name
    pub n: String,
    /// accepting
    pub a: bool,
    /// targets per symbol
    pub t: Vec<Vec<usize>>,
    /// epsilon targets
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub e: Vec<usize>,
}

/// An automaton as data: every DFA is the special case with exactly one target per symbol and no epsilon moves.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Aut {
    pub alpha: Vec<String>,
    pub st: Vec<St>,
    pub init: usize,
}

pub fn token_ok(s: &str) -> bool {
    !s.is_empty()
        && !s.chars().any(|c| c.is_whitespace() || c == '#' || c == '{' || c == '}')
        && !["ε", "eps", "→", "->", "*"].contains(&s)
}

impl Aut {
    /// Makes any data a valid automaton (so that every shrunk case is one): targets are taken modulo the number of
    /// states, missing rows are filled in, bad or repeated names and symbols are replaced.
    pub fn fix(&self, dfa: bool) -> R<Aut> {
        let n = self.st.len();
        if n == 0 {
            return invalid("no states");
        }
        let mut alpha = vec![];
        let mut seen = BTreeSet::new();
        for (i, s) in self.alpha.iter().enumerate() {
            let s = if token_ok(s) && !seen.contains(s) { s.clone() } else { format!("x{i}") };
            if seen.insert(s.clone()) {
                alpha.push(s);
            }
        }
        if dfa && alpha.is_empty() {
            return invalid("no alphabet");
        }
        let mut seen = BTreeSet::new();
        let mut st = vec![];
        for (i, s) in self.st.iter().enumerate() {
            let mut name = s.n.clone();
            let mut k = i;
            while !token_ok(&name) || seen.contains(&name) {
                name = format!("q{k}");
                k += n;
            }
            seen.insert(name.clone());
            let t = (0..alpha.len())
                .map(|k| {
                    let v = s.t.get(k).cloned().unwrap_or_default();
                    if dfa {
                        vec![v.first().copied().unwrap_or(0) % n]
                    } else {
                        v.iter().map(|x| x % n).collect()
                    }
                })
                .collect();
            let e = if dfa { vec![] } else { s.e.iter().map(|x| x % n).collect() };
            st.push(St { n: name, a: s.a, t, e });
        }
        Ok(Aut { alpha, st, init: self.init % n })
    }

    pub fn len(&self) -> usize {
        self.st.len()
    }
    pub fn has_eps(&self) -> bool {
        self.st.iter().any(|s| !s.e.is_empty())
    }
    pub fn sym(&self, s: &str) -> Option<usize> {
        self.alpha.iter().position(|x| x == s)
    }
    pub fn alpha_set(&self) -> BTreeSet<&str> {
        self.alpha.iter().map(|s| s.as_str()).collect()
    }
    /// the same automaton with every target set sorted
    pub fn sorted(&self) -> Aut {
        let mut a = self.clone();
        for s in &mut a.st {
            s.e.sort();
            s.t.iter_mut().for_each(|v| v.sort());
        }
        a
    }
    pub fn close(&self, set: &mut Bits) {
        let mut todo: Vec<usize> = set.iter().collect();
        while let Some(x) = todo.pop() {
            for &y in &self.st[x].e {
                if set.insert(y) {
                    todo.push(y);
                }
            }
        }
    }
    pub fn start(&self) -> Bits {
        let mut b = Bits::new(self.len());
        b.insert(self.init);
        self.close(&mut b);
        b
    }
    pub fn step(&self, set: &Bits, sym: usize) -> Bits {
        let mut b = Bits::new(self.len());
        for x in set.iter() {
            for &y in &self.st[x].t[sym] {
                b.insert(y);
            }
        }
        self.close(&mut b);
        b
    }
    pub fn acc(&self, set: &Bits) -> bool {
        set.iter().any(|x| self.st[x].a)
    }
    /// The steps of the automaton without its epsilon moves (the targets' moves included), times those from one set of states in it.
    pub fn effort(&self) -> f64 {
        let (mut all, mut most, mut det) = (0usize, 0usize, true);
        for i in 0..self.len() {
            let mut from = Bits::new(self.st.len());
            from.insert(i);
            self.close(&mut from);
            let mut mine = 0;
            for k in 0..self.alpha.len() {
                let mut to = Bits::new(self.st.len());
                from.iter().flat_map(|j| &self.st[j].t[k]).for_each(|&j| {
                    to.insert(j);
                });
                self.close(&mut to);
                let to = to.iter().count();
                det &= to < 2;
                mine += to;
            }
            all += mine;
            most = most.max(mine);
        }
        all as f64 * (most * if det { 1 } else { most.min(self.len()) }) as f64
    }
    pub fn accepts(&self, word: &[&str]) -> bool {
        let mut s = self.start();
        for w in word {
            match self.sym(w) {
                None => return false,
                Some(k) => s = self.step(&s, k),
            }
        }
        self.acc(&s)
    }
    /// states reachable by some input
    pub fn reachable(&self) -> BTreeSet<usize> {
        let mut seen = BTreeSet::from([self.init]);
        let mut todo = vec![self.init];
        while let Some(x) = todo.pop() {
            for &y in self.st[x].t.iter().flatten().chain(&self.st[x].e) {
                if seen.insert(y) {
                    todo.push(y);
                }
            }
        }
        seen
    }
    /// keeps the given states only (which must be closed under transitions)
    pub fn restrict(&self, keep: &BTreeSet<usize>) -> Aut {
        let map: BTreeMap<usize, usize> = keep.iter().enumerate().map(|(i, &x)| (x, i)).collect();
        Aut {
            alpha: self.alpha.clone(),
            init: map[&self.init],
            st: keep
                .iter()
                .map(|&x| {
                    let s = &self.st[x];
                    St {
                        n: s.n.clone(),
                        a: s.a,
                        t: s.t.iter().map(|v| v.iter().map(|y| map[y]).collect()).collect(),
                        e: s.e.iter().map(|y| map[y]).collect(),
                    }
                })
                .collect(),
        }
    }
    /// subset construction over the alphabet `order` (symbols of this automaton, in any order)
    pub fn det(&self, order: &[String], cap: usize) -> R<Det> {
        let idx: Vec<usize> = order.iter().map(|s| self.sym(s).expect("symbol")).collect();
        let mut ids: Map<Bits, usize> = Map::default();
        let s0 = self.start();
        let mut sets = vec![s0.clone()];
        ids.insert(s0, 0);
        let mut tr = vec![];
        let mut i = 0;
        while i < sets.len() {
            if sets.len() > cap {
                return invalid("reference subset construction too large");
            }
            let mut row = vec![];
            for &k in &idx {
                let t = self.step(&sets[i], k);
                let id = match ids.get(&t) {
                    Some(&x) => x,
                    None => {
                        let x = sets.len();
                        sets.push(t.clone());
                        ids.insert(t, x);
                        x
                    }
                };
                row.push(id);
            }
            tr.push(row);
            i += 1;
        }
        let acc = sets.iter().map(|s| self.acc(s)).collect();
        Ok(Det { alpha: order.to_vec(), tr, acc, sets })
    }
    pub fn det_self(&self) -> R<Det> {
        self.det(&self.alpha.clone(), DET_CAP)
    }
    /// the language seen from state `x`
    pub fn from_state(&self, x: usize) -> Aut {
        Aut { init: x, ..self.clone() }
    }
    pub fn describe(&self) -> String {
        let mut s = format!("alphabet [{}]", self.alpha.join(" "));
        for (i, q) in self.st.iter().enumerate() {
            s += &format!(
                "; {}{}{}",
                if i == self.init { "->" } else { "" },
                if q.a { "*" } else { "" },
                q.n
            );
            for t in &q.t {
                s += &format!(" {:?}", t);
            }
            if !q.e.is_empty() {
                s += &format!(" ε{:?}", q.e);
            }
        }
        s
    }
}

pub const DET_CAP: usize = 6000;

/// A set of states.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Bits(Vec<u64>);
impl Bits {
    pub fn new(n: usize) -> Self {
        Bits(vec![0; n.div_ceil(64)])
    }
    pub fn insert(&mut self, x: usize) -> bool {
        let w = &mut self.0[x / 64];
        let m = 1u64 << (x % 64);
        let new = *w & m == 0;
        *w |= m;
        new
    }
    pub fn has(&self, x: usize) -> bool {
        self.0[x / 64] >> (x % 64) & 1 == 1
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        self.0.iter().enumerate().flat_map(|(i, &w)| (0..64).filter(move |b| w >> b & 1 == 1).map(move |b| i * 64 + b))
    }
    pub fn to_set(&self) -> BTreeSet<usize> {
        self.iter().collect()
    }
}

/// A complete deterministic reference automaton, all states reachable, state 0 initial.
#[derive(Clone, Debug)]
pub struct Det {
    pub alpha: Vec<String>,
    pub tr: Vec<Vec<usize>>,
    pub acc: Vec<bool>,
    pub sets: Vec<Bits>,
}

impl Det {
    /// number of states of the minimal complete DFA (Moore's partition refinement)
    pub fn min_count(&self) -> usize {
        let c = moore(&self.tr, &self.acc);
        c.iter().collect::<BTreeSet<_>>().len()
    }
    pub fn is_empty(&self) -> bool {
        !self.acc.iter().any(|x| *x)
    }
    /// Combines two languages over the same alphabet pointwise.
    pub fn combine(&self, other: &Det, f: impl Fn(bool, bool) -> bool) -> Det {
        assert_eq!(self.alpha, other.alpha);
        let mut ids: BTreeMap<(usize, usize), usize> = BTreeMap::from([((0, 0), 0)]);
        let mut list = vec![(0, 0)];
        let mut tr = vec![];
        let mut i = 0;
        while i < list.len() {
            let (a, b) = list[i];
            let mut row = vec![];
            for k in 0..self.alpha.len() {
                let p = (self.tr[a][k], other.tr[b][k]);
                let n = list.len();
                let id = *ids.entry(p).or_insert(n);
                if id == n {
                    list.push(p);
                }
                row.push(id);
            }
            tr.push(row);
            i += 1;
        }
        let acc = list.iter().map(|&(a, b)| f(self.acc[a], other.acc[b])).collect();
        Det { alpha: self.alpha.clone(), tr, acc, sets: vec![] }
    }
    pub fn to_aut(&self) -> Aut {
        Aut {
            alpha: self.alpha.clone(),
            init: 0,
            st: (0..self.tr.len())
                .map(|i| St {
                    n: format!("d{i}"),
                    a: self.acc[i],
                    t: self.tr[i].iter().map(|&x| vec![x]).collect(),
                    e: vec![],
                })
                .collect(),
        }
    }
    /// A shortest word on which the two differ, if any.
    pub fn diff(&self, other: &Det) -> Option<Vec<String>> {
        assert_eq!(self.alpha, other.alpha);
        let mut par: BTreeMap<(usize, usize), Option<((usize, usize), usize)>> = BTreeMap::from([((0, 0), None)]);
        let mut q = VecDeque::from([(0, 0)]);
        while let Some(p) = q.pop_front() {
            if self.acc[p.0] != other.acc[p.1] {
                let mut w = vec![];
                let mut cur = p;
                while let Some((prev, k)) = par[&cur] {
                    w.push(self.alpha[k].clone());
                    cur = prev;
                }
                w.reverse();
                return Some(w);
            }
            for k in 0..self.alpha.len() {
                let n = (self.tr[p.0][k], other.tr[p.1][k]);
                if !par.contains_key(&n) {
                    par.insert(n, Some((p, k)));
                    q.push_back(n);
                }
            }
        }
        None
    }
    /// The first `n` words in length-then-alphabet order, as symbol indices; and whether there are no more.
    /// None when they are too long together.
    pub fn words(&self, n: usize) -> Option<(Vec<Vec<usize>>, bool)> {
        let m = self.tr.len();
        // can[l][s]: is an accepting state reachable from s in exactly l steps
        let mut can: Vec<Vec<bool>> = vec![self.acc.clone()];
        let mut out = vec![];
        let mut letters = 0;
        let mut gap = 0;
        let mut len = 0;
        loop {
            while can.len() <= len {
                let last = can.last().unwrap();
                let row = (0..m).map(|s| self.tr[s].iter().any(|&t| last[t])).collect();
                can.push(row);
            }
            if can[len][0] {
                gap = 0;
                // the words of this length: where each step starts, and the symbol to try next there
                let mut at = vec![(0, 0)];
                let mut w = vec![];
                while let Some(&(s, k)) = at.last() {
                    if k == 0 && out.len() == n {
                        return Some((out, false));
                    }
                    let left = len - w.len();
                    if left == 0 {
                        letters += len + 1;
                        if letters > 4_000_000 {
                            return None;
                        }
                        out.push(w.clone());
                    } else if k < self.alpha.len() {
                        at.last_mut().unwrap().1 += 1;
                        let t = self.tr[s][k];
                        if can[left - 1][t] {
                            w.push(k);
                            at.push((t, 0));
                        }
                        continue;
                    }
                    at.pop();
                    w.pop();
                }
            } else {
                gap += 1;
                if gap > m {
                    return Some((out, true));
                }
            }
            len += 1;
        }
    }
}

/// Moore's partition refinement over all given states: class number per state.
pub fn moore(tr: &[Vec<usize>], acc: &[bool]) -> Vec<usize> {
    let mut c: Vec<usize> = acc.iter().map(|&a| a as usize).collect();
    loop {
        let mut ids: BTreeMap<(usize, Vec<usize>), usize> = BTreeMap::new();
        let mut nc = vec![];
        for (s, row) in tr.iter().enumerate() {
            let key = (c[s], row.iter().map(|&t| c[t]).collect::<Vec<_>>());
            let k = ids.len();
            nc.push(*ids.entry(key).or_insert(k));
        }
        let before = c.iter().collect::<BTreeSet<_>>().len();
        if ids.len() == before {
            return nc;
        }
        c = nc;
    }
}

/// Compares two automata as languages over the union alphabet; both must have the same alphabet set.
pub fn lang_diff(a: &Aut, b: &Aut) -> R<Option<Vec<String>>> {
    if a.alpha_set() != b.alpha_set() {
        return viol("alphabet", format!("alphabets differ: {:?} and {:?}", a.alpha, b.alpha));
    }
    let da = a.det(&a.alpha.clone(), DET_CAP)?;
    let db = b.det(&a.alpha.clone(), DET_CAP)?;
    Ok(da.diff(&db))
}

pub fn ensure_same_lang(class: &str, what: &str, got: &Aut, want: &Aut) -> R {
    if let Some(w) = lang_diff(got, want)? {
        return viol(
            class,
            format!(
                "{what}: language differs on word {:?}: expected {}, got {}",
                w,
                if want.accepts(&w.iter().map(|s| s.as_str()).collect::<Vec<_>>()) { "accepted" } else { "rejected" },
                if got.accepts(&w.iter().map(|s| s.as_str()).collect::<Vec<_>>()) { "accepted" } else { "rejected" },
            ),
        );
    }
    Ok(())
}

// ---- reading library objects through their public accessors, checking that they are well-formed

fn wf_common(what: &str, alpha: &[String], names: &[String], flags: &[bool], init: usize) -> R {
    ensure(!names.is_empty(), "malformed", || format!("{what} has no states"))?;
    ensure(alpha.iter().collect::<BTreeSet<_>>().len() == alpha.len(), "malformed", || {
        format!("{what} repeats a symbol in its alphabet {alpha:?}")
    })?;
    ensure(names.iter().collect::<BTreeSet<_>>().len() == names.len(), "duplicate-names", || {
        format!("{what} has two states with the same name: {names:?}")
    })?;
    ensure(init < names.len(), "malformed", || format!("{what}: initial state index {init} out of range"))?;
    let inits: Vec<_> = flags.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
    ensure(inits == [init], "initial-state", || {
        format!("{what}: initial state index is {init} but the states flagged initial are {inits:?}")
    })
}

pub fn of_dfa(what: &str, d: &Dfa) -> R<Aut> {
    let alpha: Vec<String> = d.alphabet().iter().map(|s| s.to_string()).collect();
    let n = d.states().len();
    let names: Vec<String> = d.states().iter().map(|s| s.name().to_string()).collect();
    let flags: Vec<bool> = d.states().iter().map(|s| s.is_initial()).collect();
    wf_common(what, &alpha, &names, &flags, d.initial_state_index())?;
    ensure(d.initial_state().name() == names[d.initial_state_index()], "initial-state", || {
        format!("{what}: initial_state() is not the state at initial_state_index()")
    })?;
    for s in d.states() {
        ensure(s.transitions().len() == alpha.len() && s.transitions().iter().all(|&t| t < n), "malformed", || {
            format!("{what}: state {} has transitions {:?} ({} symbols, {n} states)", s.name(), s.transitions(), alpha.len())
        })?;
    }
    Ok(Aut {
        init: d.initial_state_index(),
        st: d
            .states()
            .iter()
            .map(|s| St {
                n: s.name().to_string(),
                a: s.is_accepting(),
                t: s.transitions().iter().map(|&x| vec![x]).collect(),
                e: vec![],
            })
            .collect(),
        alpha,
    })
}

pub fn of_nfa(what: &str, d: &Nfa) -> R<Aut> {
    let alpha: Vec<String> = d.alphabet().iter().map(|s| s.to_string()).collect();
    let n = d.states().len();
    let names: Vec<String> = d.states().iter().map(|s| s.name().to_string()).collect();
    let flags: Vec<bool> = d.states().iter().map(|s| s.is_initial()).collect();
    wf_common(what, &alpha, &names, &flags, d.initial_state_index())?;
    ensure(d.initial_state().name() == names[d.initial_state_index()], "initial-state", || {
        format!("{what}: initial_state() is not the state at initial_state_index()")
    })?;
    for s in d.states() {
        ensure(
            s.transitions().len() == alpha.len()
                && s.transitions().iter().flatten().all(|&t| t < n)
                && s.epsilon_transitions().iter().all(|&t| t < n),
            "malformed",
            || format!("{what}: state {} has transitions {:?} and ε {:?} ({} symbols, {n} states)", s.name(), s.transitions(), s.epsilon_transitions(), alpha.len()),
        )?;
    }
    Ok(Aut {
        init: d.initial_state_index(),
        st: d
            .states()
            .iter()
            .map(|s| St {
                n: s.name().to_string(),
                a: s.is_accepting(),
                t: s.transitions().to_vec(),
                e: s.epsilon_transitions().to_vec(),
            })
            .collect(),
        alpha,
    })
}

// ---- regular expressions

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum Rx {
    Seq(Vec<Rx>),
    Alt(Vec<Rx>),
    Star(Box<Rx>),
    Plus(Box<Rx>),
    Ch(String),
    Eps,
    Empty,
}

pub const RESERVED: [char; 8] = ['(', ')', '∅', 'ε', '|', '*', '+', '\\'];

/// characters that merge with what stands before them unless escaped
fn odd_start(c: char) -> bool {
    ('\u{300}'..='\u{36f}').contains(&c) || ('\u{1f1e6}'..='\u{1f1ff}').contains(&c) || c == '\u{200d}' || c == '\u{fe0f}'
        // spacing marks
        || matches!(c, '\u{903}' | '\u{93f}' | '\u{e33}' | '\u{eb3}')
        // Hangul syllables and their parts
        || ('\u{1100}'..='\u{11ff}').contains(&c) || ('\u{ac00}'..='\u{d7a3}').contains(&c)
        // pictures, which a joiner binds together
        || ('\u{1f300}'..='\u{1faff}').contains(&c)
}

impl Rx {
    /// removes empty sequences and alternations, so that every shrunk tree is printable
    pub fn fix(&self) -> Rx {
        match self {
            Rx::Seq(v) | Rx::Alt(v) if v.is_empty() => Rx::Eps,
            Rx::Seq(v) => Rx::Seq(v.iter().map(|x| x.fix()).collect()),
            Rx::Alt(v) => Rx::Alt(v.iter().map(|x| x.fix()).collect()),
            Rx::Star(x) => Rx::Star(Box::new(x.fix())),
            Rx::Plus(x) => Rx::Plus(Box::new(x.fix())),
            Rx::Ch(s) if s.is_empty() => Rx::Eps,
            x => x.clone(),
        }
    }
    /// distinct characters in order of first appearance
    pub fn chars(&self, out: &mut Vec<String>) {
        match self {
            Rx::Seq(v) | Rx::Alt(v) => v.iter().for_each(|x| x.chars(out)),
            Rx::Star(x) | Rx::Plus(x) => x.chars(out),
            Rx::Ch(s) => {
                if !out.contains(s) {
                    out.push(s.clone())
                }
            }
            Rx::Eps | Rx::Empty => {}
        }
    }
    pub fn alphabet(&self) -> Vec<String> {
        let mut v = vec![];
        self.chars(&mut v);
        v
    }
    /// without `+`
    pub fn spelt_out(&self) -> Rx {
        match self {
            Rx::Seq(v) => Rx::Seq(v.iter().map(|x| x.spelt_out()).collect()),
            Rx::Alt(v) => Rx::Alt(v.iter().map(|x| x.spelt_out()).collect()),
            Rx::Star(x) => Rx::Star(Box::new(x.spelt_out())),
            Rx::Plus(x) => {
                let x = x.spelt_out();
                Rx::Seq(vec![x.clone(), Rx::Star(Box::new(x))])
            }
            x => x.clone(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Rx::Seq(v) | Rx::Alt(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            Rx::Star(x) => 1 + x.size(),
            Rx::Plus(x) => 1 + 2 * x.size(),
            _ => 1,
        }
    }
    /// Prints the expression; `style` bits decide on redundant parentheses and escapes.
    pub fn print(&self, style: u64) -> String {
        let mut s = style;
        self.pr(0, &mut s)
    }
    fn coin(style: &mut u64) -> bool {
        if *style == 0 {
            return false;
        }
        splitmix(style) % 6 == 0
    }
    // level: 0 alternation allowed, 1 sequence allowed, 2 a single item that takes a postfix operator
    fn pr(&self, level: u8, style: &mut u64) -> String {
        let extra = Self::coin(style);
        let lvl = if extra { 0 } else { level };
        let (own, s) = match self {
            Rx::Alt(v) if v.len() == 1 => return v[0].pr(level, style),
            Rx::Seq(v) if v.len() == 1 => return v[0].pr(level, style),
            Rx::Alt(v) => (0, v.iter().map(|x| x.pr(1, style)).collect::<Vec<_>>().join("|")),
            Rx::Seq(v) => (1, v.iter().map(|x| x.pr(1, style)).collect::<Vec<_>>().join("")),
            Rx::Star(x) => (1, format!("{}*", x.pr(2, style))),
            Rx::Plus(x) => (1, format!("{}+", x.pr(2, style))),
            Rx::Eps => (2, "ε".to_string()),
            Rx::Empty => (2, "∅".to_string()),
            Rx::Ch(c) => {
                let first = c.chars().next().unwrap();
                if RESERVED.contains(&first) || odd_start(first) || (Self::coin(style) && c.chars().count() == 1 && first.is_ascii_alphanumeric()) {
                    (2, format!("\\{c}"))
                } else {
                    (2, c.clone())
                }
            }
        };
        if extra || own < lvl {
            format!("({s})")
        } else {
            s
        }
    }
    /// Thompson-style reference automaton over the given alphabet.
    pub fn to_aut(&self, alpha: &[String]) -> Aut {
        let mut a = Aut { alpha: alpha.to_vec(), st: vec![], init: 0 };
        fn new(a: &mut Aut) -> usize {
            let n = a.st.len();
            a.st.push(St { n: format!("r{n}"), a: false, t: vec![vec![]; a.alpha.len()], e: vec![] });
            n
        }
        fn go(x: &Rx, a: &mut Aut) -> (usize, usize) {
            let (s, f) = (new(a), new(a));
            match x {
                Rx::Eps => a.st[s].e.push(f),
                Rx::Empty => {}
                Rx::Ch(c) => {
                    let k = a.sym(c).expect("regex character in alphabet");
                    a.st[s].t[k].push(f);
                }
                Rx::Alt(v) => {
                    for y in v {
                        let (p, q) = go(y, a);
                        a.st[s].e.push(p);
                        a.st[q].e.push(f);
                    }
                }
                Rx::Seq(v) => {
                    let mut cur = s;
                    for y in v {
                        let (p, q) = go(y, a);
                        a.st[cur].e.push(p);
                        cur = q;
                    }
                    a.st[cur].e.push(f);
                }
                Rx::Star(y) | Rx::Plus(y) => {
                    let (p, q) = go(y, a);
                    a.st[s].e.push(p);
                    a.st[q].e.push(p);
                    a.st[q].e.push(f);
                    if matches!(x, Rx::Star(_)) {
                        a.st[s].e.push(f);
                    }
                }
            }
            (s, f)
        }
        let (s, f) = go(self, &mut a);
        a.init = s;
        a.st[f].a = true;
        a
    }
}
