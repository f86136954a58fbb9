//! C08: regular expressions through parser, NFA and printer, under several hash seeds.
use super::*;
use crate::reader::{self, Read};
use dandy::regex::{Regex, RegexChar, RegexTree};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    rx: Rx,
    style: u64,
    /// damage done to the text before it is read
    damage: Vec<Damage>,
    entropy: Vec<u64>,
    words: Vec<Vec<String>>,
    /// the expression is also put together by hand, in this shape
    #[serde(default)]
    built: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Damage {
    Drop(usize),
    Double(usize),
    Swap(usize, usize),
    Insert(usize, String),
    Cut(usize),
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let rx = gen::regex(r, if thorough { 24 } else { 14 }, false);
    let damage = if r.chance(1, 2) {
        vec![]
    } else {
        (0..r.range(1, 3))
            .map(|_| {
                let i = r.below(40);
                match r.below(8) {
                    0 | 1 => Damage::Drop(i),
                    2 => Damage::Double(i),
                    3 => Damage::Swap(i, r.below(40)),
                    4..=6 => Damage::Insert(i, r.pick(&["(", ")", "|", "*", "+", "\\", "ε", "∅", "a", " ", "()", "||", "\\\\", "\t"]).to_string()),
                    _ => Damage::Cut(i),
                }
            })
            .collect()
    };
    let mut alpha = rx.alphabet();
    alpha.push("q".into());
    let words = (0..r.range(1, 6)).map(|_| (0..r.below(7)).map(|_| r.pick(&alpha).clone()).collect()).collect();
    let style = r.seed() * (r.below(2) as u64);
    let entropy = (0..r.range(2, 3)).map(|_| r.seed()).collect();
    let built = r.chance(1, 3).then(|| r.seed());
    Case { rx, style, damage, entropy, words, built }
}

/// The tree as a program would put it together from the library's public types: with empty and single-element
/// sequences and alternatives, and sequences in sequences.
pub fn tree(x: &Rx, r: &mut Rng) -> RegexTree {
    let t = match x {
        Rx::Seq(v) => {
            let mut l: Vec<RegexTree> = v.iter().map(|x| tree(x, r)).collect();
            if l.len() > 2 && r.chance(1, 4) {
                let k = r.range(1, l.len() - 1);
                let tail = l.split_off(k);
                l.push(RegexTree::Sequence(tail));
            }
            if r.chance(1, 12) {
                let k = r.below(l.len() + 1);
                l.insert(k, RegexTree::Sequence(vec![]));
            }
            RegexTree::Sequence(l)
        }
        Rx::Alt(v) => {
            let mut l: Vec<RegexTree> = v.iter().map(|x| tree(x, r)).collect();
            if l.len() > 2 && r.chance(1, 4) {
                let k = r.range(1, l.len() - 1);
                let tail = l.split_off(k);
                l.push(RegexTree::Alt(tail));
            }
            if r.chance(1, 12) {
                let k = r.below(l.len() + 1);
                l.insert(k, RegexTree::Alt(vec![]));
            }
            RegexTree::Alt(l)
        }
        Rx::Star(x) => RegexTree::Repeat(Box::new(tree(x, r))),
        Rx::Plus(x) => {
            let t = tree(x, r);
            RegexTree::Sequence(vec![t.clone(), RegexTree::Repeat(Box::new(t))])
        }
        Rx::Ch(c) => RegexTree::Char(RegexChar::Grapheme(c.as_str().into())),
        Rx::Eps if r.chance(1, 3) => RegexTree::Sequence(vec![]),
        Rx::Eps => RegexTree::Char(RegexChar::Epsilon),
        Rx::Empty if r.chance(1, 3) => RegexTree::Alt(vec![]),
        Rx::Empty => RegexTree::Char(RegexChar::Empty),
    };
    match r.below(16) {
        0 => RegexTree::Sequence(vec![t]),
        1 => RegexTree::Alt(vec![t]),
        _ => t,
    }
}

fn damaged(text: &str, d: &[Damage]) -> String {
    let mut v: Vec<char> = text.chars().collect();
    for x in d {
        let n = v.len();
        match x {
            Damage::Drop(i) if n > 0 => {
                v.remove(i % n);
            }
            Damage::Double(i) if n > 0 => {
                let c = v[i % n];
                v.insert(i % n, c);
            }
            Damage::Swap(i, j) if n > 0 => v.swap(i % n, j % n),
            Damage::Insert(i, s) => {
                let mut at = i % (n + 1);
                for c in s.chars() {
                    v.insert(at, c);
                    at += 1;
                }
            }
            Damage::Cut(i) => v.truncate(i % (n + 1)),
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// breadth-first renumbering in alphabet order
fn canonical(a: &Aut) -> Vec<(bool, Vec<usize>)> {
    let mut id = BTreeMap::from([(a.init, 0)]);
    let mut list = vec![a.init];
    let mut out = vec![];
    let mut i = 0;
    while i < list.len() {
        let s = &a.st[list[i]];
        let mut row = vec![];
        for t in &s.t {
            let n = id.len();
            let k = *id.entry(t[0]).or_insert(n);
            if k == n {
                list.push(t[0]);
            }
            row.push(k);
        }
        out.push((s.a, row));
        i += 1;
    }
    out
}

struct Seen {
    table: String,
    printed: String,
    det: Option<Vec<(bool, Vec<usize>)>>,
}

/// the same expression, but not read from a text
fn by_hand(rx: &Rx, shape: u64, ctx: &mut Ctx) -> R<String> {
    ctx.hit("op:to_nfa of a tree built by hand");
    let t = Regex { tree: tree(rx, &mut Rng::new(shape)) };
    let printed = t.to_string();
    let alpha = rx.alphabet();
    let nfa = t.clone().to_nfa();
    let got = of_nfa("NFA of the built expression", &nfa)?;
    ensure(got.alpha == alpha, "alphabet", || format!("the NFA of {t:?} is over {:?}, the expression's characters are {alpha:?}", got.alpha))?;
    if let Some(w) = lang_diff(&got, &rx.to_aut(&alpha))? {
        return viol("language", format!("the NFA of {t:?} is wrong on {w:?}"));
    }
    ctx.ev(format!("{t:?} -> {} states", got.len()));
    Ok(format!("{printed}\n{}", nfa.to_table()))
}

fn drive(c: &Case, text: &str, want: &Read<Rx>, ctx: &mut Ctx) -> R<Option<Seen>> {
    ctx.hit("op:parse");
    let got = dandy::parser::regex(text);
    let rx = match (got, want) {
        (Err(_), Read::Good(_)) => return viol("rejected", format!("the valid expression {text:?} was rejected")),
        (Ok(x), Read::Bad(why)) => {
            return viol("accepted", format!("the malformed expression {text:?} ({why}) was read as {}", x.to_string()))
        }
        (Err(_), _) => {
            ctx.ev(format!("{text:?} rejected"));
            ctx.hit("rejected as malformed");
            return Ok(None);
        }
        (Ok(_), Read::Unclear(_)) => {
            ctx.ev("undocumented, accepted");
            return Ok(None);
        }
        (Ok(x), Read::Good(_)) => x,
    };
    let Read::Good(rx0) = want else { unreachable!() };
    let printed = rx.to_string();
    ctx.hit("op:to_nfa");
    let nfa = rx.clone().to_nfa();
    let got = of_nfa("NFA of the expression", &nfa)?;
    let alpha = rx0.alphabet();
    ensure(got.alpha == alpha, "alphabet", || format!("the NFA of {text:?} is over {:?}, the expression's characters are {alpha:?}", got.alpha))?;
    let want = rx0.to_aut(&alpha);
    if let Some(w) = lang_diff(&got, &want)? {
        let yes = want.accepts(&strs(&w));
        return viol("language", format!("the NFA of {text:?} must {}accept {w:?}", if yes { "" } else { "not " }));
    }
    for w in &c.words {
        let yes = want.accepts(&strs(w));
        let s = nfa.accepts(&strs(w));
        ensure(s == yes, "verdict", || format!("{text:?} on {w:?}: {s}, expected {yes}"))?;
    }
    let size = want.det(&alpha, 200).map(|d| d.tr.len()).unwrap_or(usize::MAX);
    let det = if size <= 200 {
        ctx.hit("op:to_dfa");
        let d = of_dfa("determinised NFA", &nfa.to_dfa())?;
        if let Some(w) = lang_diff(&d, &want)? {
            return viol("language", format!("the DFA of {text:?} is wrong on {w:?}"));
        }
        Some(canonical(&d))
    } else {
        None
    };
    ctx.nontrivial |= rx0.size() > 2;
    ctx.ev(format!("{text:?} -> {} states", got.len()));
    Ok(Some(Seen { table: nfa.to_table(), printed, det }))
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let rx = c.rx.fix();
    let clean = gen::print_regex(&rx, c.style);
    let text = damaged(&clean, &c.damage);
    if !c.damage.is_empty() {
        ctx.add("fault:characters lost, doubled, swapped, inserted or cut off", c.damage.len() as u64);
    }
    let want = reader::regex(&text);
    if c.damage.is_empty() {
        // the reader must agree with the tree the text was printed from
        match &want {
            Read::Good(x) if x.alphabet() == rx.alphabet() && lang_diff(&x.to_aut(&x.alphabet()), &rx.to_aut(&rx.alphabet()))?.is_none() => {}
            w => return invalid(format!("the generator's text {text:?} is read as {w:?}")),
        }
    }
    if let Some(shape) = c.built {
        let mut first: Option<String> = None;
        for &e in &c.entropy {
            let t = ctx.thread(e, |ctx| by_hand(&rx, shape, ctx))?;
            match &first {
                None => first = Some(t),
                Some(f) => ensure(*f == t, "seed-dependent", || format!("a built expression's NFA or text depends on the hash seed\n{f}\n{t}"))?,
            }
        }
    }
    let mut first: Option<Option<Seen>> = None;
    for &e in &c.entropy {
        let seen = ctx.thread(e, |ctx| drive(c, &text, &want, ctx))?;
        match (&first, &seen) {
            (None, _) => first = Some(seen),
            (Some(Some(a)), Some(b)) => {
                ensure(a.table == b.table, "seed-dependent", || format!("the NFA of {text:?} depends on the hash seed\n{}\n{}", a.table, b.table))?;
                ensure(a.printed == b.printed, "seed-dependent", || format!("{text:?} is printed as {:?} and {:?}", a.printed, b.printed))?;
                ensure(a.det == b.det, "seed-dependent", || format!("the DFA of {text:?} depends on the hash seed"))?;
            }
            (Some(a), b) => ensure(a.is_some() == b.is_some(), "seed-dependent", || format!("whether {text:?} is accepted depends on the hash seed"))?,
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C08",
        gen,
        run,
        quick: 250_000,
        thorough: 8_000_000,
        level: "exploration",
        rule: "a seeded expression tree printed with seeded redundant parentheses, escapes and surrounding white space, half of the time damaged by lost, doubled, swapped, inserted or cut-off characters, read under 2 to 3 hash seeds, a third of them also put together by hand from the public types; language, alphabet order, determinised and printed forms compared with an independent reader and Thompson construction; non-trivial: an expression with an operator was accepted",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: ENTROPY_STUB,
    }
}
