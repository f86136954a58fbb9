//! C13: automaton files damaged in storage or transfer.
use super::*;
use crate::reader::{self, Read};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    pub(super) base: Vec<(bool, Aut)>,
    pub(super) style: u64,
    pub(super) damage: Vec<Damage>,
    /// read the text as a DFA
    pub(super) as_dfa: bool,
    pub(super) entropy: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub(super) enum Damage {
    /// the write was cut short
    Torn(u16),
    /// a block of characters (start, length in 1/1000 of the text) was lost / written twice / exchanged
    LoseBlock(u16, u16),
    RepeatBlock(u16, u16),
    SwapBlocks(u16, u16, u16),
    /// one character replaced, lost, doubled, inserted
    Char(u16, String),
    LoseChar(u16),
    DoubleChar(u16),
    Insert(u16, String),
    /// whole lines
    LoseLine(u16),
    RepeatLine(u16),
    SwapLines(u16, u16),
    /// fields of a line
    LoseField(u16, u16),
    RepeatField(u16, u16),
    SwapFields(u16, u16, u16),
    ReplaceField(u16, u16, String),
    /// a block of another file in the middle
    Foreign(u16, u16, u16),
    /// all line ends replaced
    LineEnds(String),
}

pub(super) fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: if thorough { 8 } else { 6 }, max_syms: gen::syms(r, 4), big: false, mid: true };
    let d = r.chance(1, 2);
    let mut base = vec![];
    for _ in 0..r.range(1, 2) {
        let a = if let Some(a) = gen::vast(r, d) {
            a
        } else if d {
            gen::dfa(r, &size, None)
        } else {
            let e = r.chance(1, 2);
            gen::nfa(r, &size, None, e)
        };
        base.push((d, a));
    }
    let k = *r.pick(&[0, 1, 1, 1, 1, 2, 2, 3, 4]);
    let p = |r: &mut Rng| r.below(1000) as u16;
    let damage = (0..k)
        .map(|_| match r.below(20) {
            0 | 1 => Damage::Torn(p(r)),
            2 => Damage::LoseBlock(p(r), r.below(200) as u16),
            3 => Damage::RepeatBlock(p(r), r.below(200) as u16),
            4 => Damage::SwapBlocks(p(r), p(r), r.below(100) as u16),
            5 | 6 => Damage::Char(p(r), r.pick(&[" ", "\n", "{", "}", "#", "*", "-", ">", "a", "s", "ε", "→", "\t", "0", "\u{301}", "\u{a0}", "\r"]).to_string()),
            7 => Damage::LoseChar(p(r)),
            8 => Damage::DoubleChar(p(r)),
            9 | 10 => Damage::Insert(p(r), r.pick(&[" ", "\n", "{", "}", "#", "* ", "-> ", "→ ", " a", "{}", "\t", " eps ", " ε ", "\r\n", " # x", "\u{feff}", "\u{2003}"]).to_string()),
            11 => Damage::LoseLine(p(r)),
            12 => Damage::RepeatLine(p(r)),
            13 => Damage::SwapLines(p(r), p(r)),
            14 => Damage::LoseField(p(r), p(r)),
            15 => Damage::RepeatField(p(r), p(r)),
            16 => Damage::SwapFields(p(r), p(r), p(r)),
            17 => Damage::ReplaceField(p(r), p(r), r.pick(&["*", "->", "→", "ε", "eps", "a", "s0", "s1", "0", "{}", "{s0}", "{s1 s0}", "x", "{", "}", "#"]).to_string()),
            18 => Damage::Foreign(p(r), p(r), r.below(300) as u16),
            _ => Damage::LineEnds(r.pick(&["\r\n", "\r", "\n\n", " \n", "\n "]).to_string()),
        })
        .collect();
    Case { base, style: r.seed() * (r.below(3).min(1) as u64), damage, as_dfa: if r.chance(1, 12) { !d } else { d }, entropy: r.seed() }
}

pub(super) fn apply(text: String, other: &str, d: &Damage) -> String {
    let v: Vec<char> = text.chars().collect();
    let n = v.len();
    let at = |p: u16| p as usize * n / 1000;
    let s = |x: &[char]| x.iter().collect::<String>();
    let lines: Vec<&str> = text.split('\n').collect();
    let line = |p: u16| p as usize * lines.len() / 1000;
    let relines = |l: Vec<String>| l.join("\n");
    let own = || lines.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    // fields of one line, separators kept
    let fields = |l: usize, f: &dyn Fn(&mut Vec<String>)| {
        let mut out = own();
        let cur = out[l].clone();
        let lead: String = cur.chars().take_while(|c| c.is_whitespace()).collect();
        let mut fs: Vec<String> = cur.split_whitespace().map(|x| x.to_string()).collect();
        if !fs.is_empty() {
            f(&mut fs);
        }
        out[l] = format!("{lead}{}", fs.join(" "));
        relines(out)
    };
    match d {
        Damage::Torn(p) => s(&v[..at(*p)]),
        Damage::LoseBlock(p, l) => {
            let (i, j) = (at(*p), (at(*p) + at(*l)).min(n));
            s(&v[..i]) + &s(&v[j..])
        }
        Damage::RepeatBlock(p, l) => {
            let (i, j) = (at(*p), (at(*p) + at(*l)).min(n));
            s(&v[..j]) + &s(&v[i..])
        }
        Damage::SwapBlocks(p, q, l) => {
            let mut w = v.clone();
            let (i, j) = (at(*p), at(*q));
            for k in 0..at(*l) {
                if i + k < n && j + k < n {
                    w.swap(i + k, j + k);
                }
            }
            s(&w)
        }
        Damage::Char(p, c) if n > 0 => s(&v[..at(*p)]) + c + &s(&v[at(*p) + 1..]),
        Damage::LoseChar(p) if n > 0 => s(&v[..at(*p)]) + &s(&v[at(*p) + 1..]),
        Damage::DoubleChar(p) if n > 0 => s(&v[..at(*p) + 1]) + &s(&v[at(*p)..]),
        Damage::Insert(p, c) => s(&v[..at(*p)]) + c + &s(&v[at(*p)..]),
        Damage::LoseLine(p) => {
            let mut l = own();
            l.remove(line(*p));
            relines(l)
        }
        Damage::RepeatLine(p) => {
            let mut l = own();
            let x = l[line(*p)].clone();
            l.insert(line(*p), x);
            relines(l)
        }
        Damage::SwapLines(p, q) => {
            let mut l = own();
            l.swap(line(*p), line(*q));
            relines(l)
        }
        Damage::LoseField(p, f) => fields(line(*p), &|v| {
            let k = *f as usize * v.len() / 1000;
            v.remove(k);
        }),
        Damage::RepeatField(p, f) => fields(line(*p), &|v| {
            let k = *f as usize * v.len() / 1000;
            let x = v[k].clone();
            v.insert(k, x);
        }),
        Damage::SwapFields(p, f, g) => fields(line(*p), &|v| {
            let n = v.len();
            v.swap(*f as usize * n / 1000, *g as usize * n / 1000);
        }),
        Damage::ReplaceField(p, f, x) => fields(line(*p), &|v| {
            let k = *f as usize * v.len() / 1000;
            v[k] = x.clone();
        }),
        Damage::Foreign(p, q, l) => {
            let o: Vec<char> = other.chars().collect();
            let m = o.len();
            let (i, j) = (*q as usize * m / 1000, ((*q + *l) as usize * m / 1000).min(m));
            s(&v[..at(*p)]) + &s(&o[i..j]) + &s(&v[at(*p)..])
        }
        Damage::LineEnds(e) => lines.join(e),
        _ => text,
    }
}

pub(super) fn kind(d: &Damage) -> &'static str {
    match d {
        Damage::Torn(_) => "fault:torn write",
        Damage::LoseBlock(..) => "fault:block lost",
        Damage::RepeatBlock(..) => "fault:block repeated",
        Damage::SwapBlocks(..) => "fault:blocks swapped",
        Damage::Char(..) => "fault:character altered",
        Damage::LoseChar(_) => "fault:character lost",
        Damage::DoubleChar(_) => "fault:character doubled",
        Damage::Insert(..) => "fault:characters inserted",
        Damage::LoseLine(_) => "fault:line lost",
        Damage::RepeatLine(_) => "fault:line repeated",
        Damage::SwapLines(..) => "fault:lines swapped",
        Damage::LoseField(..) => "fault:field lost",
        Damage::RepeatField(..) => "fault:field repeated",
        Damage::SwapFields(..) => "fault:fields swapped",
        Damage::ReplaceField(..) => "fault:field altered",
        Damage::Foreign(..) => "fault:foreign block",
        Damage::LineEnds(_) => "fault:line ends changed",
    }
}

/// the text as it is after the damage
pub(super) fn damaged(c: &Case, ctx: &mut Ctx) -> R<String> {
    if c.base.is_empty() {
        return invalid("no file");
    }
    let mut texts = vec![];
    for (i, (d, a)) in c.base.iter().enumerate() {
        texts.push(gen::print_table(&a.fix(*d)?, *d, if c.style == 0 { 0 } else { c.style + i as u64 }));
    }
    let mut text = texts[0].clone();
    for d in &c.damage {
        if let Damage::Char(p, _) | Damage::LoseChar(p) | Damage::DoubleChar(p) | Damage::Torn(p) | Damage::Insert(p, _) = d {
            if *p > 999 {
                return invalid("position");
            }
        }
        let t = apply(text.clone(), texts.last().unwrap(), d);
        if t != text {
            ctx.hit(kind(d));
        }
        text = t;
    }
    Ok(text)
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let text = damaged(c, ctx)?;
    let want = reader::table(&text, c.as_dfa);
    let t = &text;
    let got: Option<Aut> = ctx.thread(c.entropy, |_| {
        if c.as_dfa {
            let d: Result<Dfa, String> =
                dandy::parser::dfa(t).map_err(|e| format!("{e:?}")).and_then(|p| p.try_into().map_err(|e: dandy::dfa::parse::DfaParseError| e.to_string()));
            Ok(match d {
                Ok(d) => Some(of_dfa("DFA", &d)?),
                Err(_) => None,
            })
        } else {
            let d: Result<Nfa, String> =
                dandy::parser::nfa(t).map_err(|e| format!("{e:?}")).and_then(|p| p.try_into().map_err(|e: dandy::nfa::parse::NfaParseError| e.to_string()));
            Ok(match d {
                Ok(d) => Some(of_nfa("NFA", &d)?),
                Err(_) => None,
            })
        }
    })?;
    ctx.ev(format!("{text:?} -> {}", got.as_ref().map_or("rejected".into(), |a| a.describe())));
    ctx.hit(if c.as_dfa { "op:read as DFA" } else { "op:read as NFA" });
    match (&want, &got) {
        (Read::Good(w), Some(g)) => {
            ctx.hit("outcome: still a valid description");
            ctx.nontrivial |= !c.damage.is_empty();
            ensure(same_sets(g, w), "misread", || format!("read as {}\nbut the rows describe {}\ntext:\n{t}", g.describe(), w.describe()))
        }
        (Read::Good(_), None) => viol("rejected", format!("a valid description was rejected:\n{t}")),
        (Read::Bad(why), Some(g)) => viol("accepted", format!("a damaged description ({why}) was read as {}\ntext:\n{t}", g.describe())),
        (Read::Bad(_), None) => {
            ctx.nontrivial = true;
            ctx.hit("outcome: rejected");
            Ok(())
        }
        (Read::Unclear(_), _) => {
            ctx.hit("outcome: not judged (undocumented white space)");
            Ok(())
        }
    }
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C13",
        gen,
        run,
        quick: 500_000,
        thorough: 20_000_000,
        level: "exploration",
        rule: "a seeded DFA or NFA file in a seeded layout, damaged up to four times (torn, blocks/lines/fields/characters lost, repeated, swapped, altered, foreign blocks, other line ends), read by the library and by an independent reader of the documented format; non-trivial: the damaged text was rejected, or was still valid and was read",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: &["the storage medium that damages the files: seeded damage applied in memory", "operating-system entropy: seeded"],
    }
}
