//! C02: interleaved enumeration sessions against the reference order of words.
use super::*;
use dandy::nfa::words::{WordComponentIndices, WordComponents, Words};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    aut: Aut,
    style: u64,
    entropy: u64,
    /// remove ε-moves with the library first
    strip: bool,
    /// kind (0 strings, 1 components, 2 indices) of each session
    kinds: Vec<u8>,
    /// session, how many words to ask for
    plan: Vec<(usize, usize)>,
    /// how each request is made: 0 word by word, 1 nth, 2 take and collect, 3 skip, 4 take and count, 5 take and last,
    /// 6 word by word, asking how many are left before each
    #[serde(default)]
    how: Vec<u8>,
    /// how each session of a finite language is used up at the end: 0 not at all, 1 count, 2 last, 3 collect, 4 fold
    #[serde(default)]
    finale: Vec<u8>,
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: if thorough { 12 } else { 9 }, max_syms: gen::syms(r, 4), big: true, mid: true };
    let strip = r.chance(1, 6);
    let aut = match r.below(10) {
        0 | 1 => gen::dfa(r, &size, None),
        2 | 3 => sparse(r),
        _ => gen::nfa(r, &size, None, strip),
    };
    // the library's effort grows with the fourth power of the number of states
    let k = if aut.st.len() > 60 { 1 } else { r.range(1, 4) };
    let kinds: Vec<u8> = (0..k).map(|_| r.below(6) as u8).collect();
    let n = r.range(1, 12);
    let burst = *r.pick(&[1, 2, 3, 8, 30]);
    let mut plan: Vec<(usize, usize)> = (0..n).map(|_| (r.below(k), r.range(1, burst))).collect();
    if r.chance(1, 8) {
        plan.push((r.below(k), if r.chance(1, 8) { *r.pick(&[129, 255, 256, 257, 300, 500, 1000, 1025, 1500]) } else { 80 }));
    }
    let style = r.seed() * (r.below(2) as u64);
    let entropy = r.seed();
    let how = if r.chance(1, 3) { (0..plan.len()).map(|_| r.below(7) as u8).collect() } else { vec![] };
    let finale = if r.chance(1, 3) { (0..k).map(|_| r.below(5) as u8).collect() } else { vec![] };
    Case { aut, style, entropy, strip, kinds, plan, how, finale }
}

/// languages whose word lengths are far apart
fn sparse(r: &mut Rng) -> Aut {
    let far = if r.chance(1, 12) { r.range(8, 45) } else { 7 };
    let a = r.range(1, far);
    let b = r.range(1, far);
    let m = r.range(1, 2);
    let alpha = gen::symbols(r, m, false);
    let n = a + b;
    let mut st: Vec<St> =
        gen::names(r, n).into_iter().map(|n| St { n, a: false, t: vec![vec![]; m], e: vec![] }).collect();
    for i in 0..a {
        let k = r.below(m);
        st[i].t[k].push(if i + 1 == a { 0 } else { i + 1 });
    }
    for j in 0..b {
        let k = r.below(m);
        st[a + j].t[k].push(if j + 1 == b { a } else { a + j + 1 });
    }
    if r.chance(2, 3) {
        let k = r.below(m);
        let i = r.below(a);
        st[i].t[k].push(a + r.below(b));
    }
    for _ in 0..r.range(1, 2) {
        let i = r.below(n);
        st[i].a = true;
    }
    Aut { alpha, st, init: r.below(a) }
}

const EFFORT: usize = 1_500_000;

enum It<'a> {
    S(Words<'a>),
    C(WordComponents<'a>),
    I(WordComponentIndices<'a>),
}

/// asks an iterator for its next `n` items in one of several ways; gives what comes out
fn ask<I: Iterator>(i: &mut I, how: u8, n: usize, show: impl Fn(I::Item) -> String) -> Vec<String> {
    match how {
        1 => i.nth(n - 1).map(show).into_iter().collect(),
        2 => i.take(n).map(show).collect(),
        3 => i.skip(n - 1).next().map(show).into_iter().collect(),
        4 => vec![i.take(n).count().to_string()],
        _ => i.take(n).last().map(show).into_iter().collect(),
    }
}

/// what should come out of `ask`, given the words that are left
fn asked(left: &[String], how: u8, n: usize) -> Vec<String> {
    let part = &left[..n.min(left.len())];
    match how {
        1 | 3 => left.get(n - 1).cloned().into_iter().collect(),
        2 => part.to_vec(),
        4 => vec![part.len().to_string()],
        _ => part.last().cloned().into_iter().collect(),
    }
}

/// uses an iterator up; gives what comes out
fn use_up<I: Iterator>(i: I, how: u8, show: impl Fn(I::Item) -> String) -> Vec<String> {
    match how {
        1 => vec![i.count().to_string()],
        2 => i.last().map(show).into_iter().collect(),
        3 => i.collect::<Vec<_>>().into_iter().map(show).collect(),
        _ => i.fold(vec![], |mut all, w| {
            all.push(show(w));
            all
        }),
    }
}

fn used_up(left: &[String], how: u8) -> Vec<String> {
    match how {
        1 => vec![left.len().to_string()],
        2 => left.last().cloned().into_iter().collect(),
        _ => left.to_vec(),
    }
}

fn components(v: Vec<std::rc::Rc<str>>) -> String {
    format!("{:?}", v.iter().map(|s| s.to_string()).collect::<Vec<_>>())
}

fn drive(c: &Case, a0: &Aut, ctx: &mut Ctx) -> R {
    let mut nfa = mk_nfa(a0, c.style)?;
    if c.strip {
        nfa.remove_epsilon_moves();
    } else if a0.has_eps() {
        return invalid("ε-moves");
    }
    let a = of_nfa("NFA", &nfa)?;
    if a.has_eps() {
        return viol("epsilon-left", "ε-moves are left after removing them");
    }
    let most: usize = {
        let mut per = vec![0; c.kinds.len().max(1)];
        for (s, n) in &c.plan {
            let l = per.len();
            per[s % l] += n;
        }
        per.into_iter().max().unwrap()
    };
    if most > 2500 {
        return invalid("too many words");
    }
    let Some((want, ended)) = a.det_self()?.words(most + 1) else { return invalid("words too long") };
    ctx.nontrivial |= want.len() > 1;
    let text = |w: &Vec<usize>| w.iter().map(|&k| a.alpha[k].as_str()).collect::<String>();
    if c.kinds.is_empty() {
        return invalid("no sessions");
    }
    let mut its: Vec<(It, usize)> = c
        .kinds
        .iter()
        .map(|k| {
            (
                match k % 6 {
                    0 => It::S(nfa.words()),
                    1 => It::C(nfa.word_components()),
                    2 => It::I(nfa.word_component_indices()),
                    3 => It::S(Words::new(&nfa)),
                    4 => It::C(WordComponents::new(&nfa)),
                    _ => It::I(WordComponentIndices::from(&nfa)),
                },
                0,
            )
        })
        .collect();
    // the library's effort grows with the square of the word's length: long words get fewer requests
    let mut effort = 0;
    let cost = |words: &[Vec<usize>]| words.iter().map(|w| w.len() * w.len() * a.len() * a.len()).sum::<usize>();
    let render = |kind: &It, words: &[Vec<usize>]| -> Vec<String> {
        words
            .iter()
            .map(|w| match kind {
                It::S(_) => text(w),
                It::C(_) => format!("{:?}", w.iter().map(|&k| a.alpha[k].clone()).collect::<Vec<_>>()),
                It::I(_) => format!("{w:?}"),
            })
            .collect()
    };
    for (at, (s, n)) in c.plan.iter().enumerate() {
        let l = its.len();
        let (it, pos) = &mut its[s % l];
        let how = c.how.get(at).map_or(0, |h| h % 7);
        if (1..=5).contains(&how) && *n > 0 {
            let from = (*pos).min(want.len());
            let to = (*pos + n).min(want.len());
            if to < *pos + n && !ended {
                return invalid("model ran out");
            }
            effort += cost(&want[from..to]);
            if effort > EFFORT {
                ctx.hit("sessions cut short by the effort bound");
                break;
            }
            let exp = asked(&render(it, &want[from..to]), how, *n);
            let got = match it {
                It::S(i) => ask(i, how, *n, |w| w),
                It::C(i) => ask(i, how, *n, components),
                It::I(i) => ask(i, how, *n, |w| format!("{w:?}")),
            };
            ctx.hit(["", "op:nth", "op:take, collect", "op:skip", "op:take, count", "op:take, last"][how as usize]);
            ctx.ev(format!("{s}: {n} words from #{pos} in way {how} -> {got:?}"));
            if got != exp {
                return viol("wrong-words", format!("session {s}: asked for {n} words from number {pos} on (way {how}), got {got:?}, expected {exp:?} for {}", a.describe()));
            }
            *pos += n;
            continue;
        }
        for _ in 0..*n {
            if how == 6 {
                let (low, high) = match it {
                    It::S(i) => i.size_hint(),
                    It::C(i) => i.size_hint(),
                    It::I(i) => i.size_hint(),
                };
                let left = want.len().saturating_sub(*pos);
                ctx.hit("op:size_hint");
                if (ended && low > left) || high.is_some_and(|h| h < left) {
                    return viol("size-hint", format!("session {s}: between {low} and {high:?} words are said to follow number {pos}, but {left} {} for {}", if ended { "do" } else { "or more do" }, a.describe()));
                }
            }
            let exp = want.get(*pos);
            effort += exp.map_or(0, |w| w.len() * w.len() * a.len() * a.len());
            if effort > EFFORT {
                ctx.hit("sessions cut short by the effort bound");
                break;
            }
            if exp.is_none() && !ended {
                return invalid("model ran out");
            }
            ctx.hit(match it {
                It::S(_) => "op:words",
                It::C(_) => "op:word_components",
                It::I(_) => "op:word_component_indices",
            });
            let (got, exp) = match it {
                It::S(i) => (i.next(), exp.map(text)),
                It::C(i) => (
                    i.next().map(|v| format!("{:?}", v.iter().map(|s| s.to_string()).collect::<Vec<_>>())),
                    exp.map(|w| format!("{:?}", w.iter().map(|&k| a.alpha[k].clone()).collect::<Vec<_>>())),
                ),
                It::I(i) => (i.next().map(|v| format!("{v:?}")), exp.map(|w| format!("{w:?}"))),
            };
            ctx.ev(format!("next {s} #{pos} -> {got:?}"));
            if got != exp {
                let kind = match (&got, &exp) {
                    (None, Some(_)) => "ended-early",
                    (Some(_), None) => "word-after-end",
                    _ => "wrong-word",
                };
                return viol(kind, format!("session {s}: word number {pos} is {got:?}, expected {exp:?} for {}", a.describe()));
            }
            if got.is_none() {
                ctx.hit("asked after the end");
            }
            *pos += 1;
        }
    }
    for (s, (it, pos)) in its.into_iter().enumerate() {
        let how = c.finale.get(s).map_or(0, |h| h % 5);
        let from = pos.min(want.len());
        effort += cost(&want[from..]);
        if how == 0 || !ended || effort > EFFORT {
            continue;
        }
        let exp = used_up(&render(&it, &want[from..]), how);
        let got = match it {
            It::S(i) => use_up(i, how, |w| w),
            It::C(i) => use_up(i, how, components),
            It::I(i) => use_up(i, how, |w| format!("{w:?}")),
        };
        ctx.hit("sessions used up");
        ctx.ev(format!("{s}: used up from #{pos} in way {how} -> {got:?}"));
        if got != exp {
            return viol("wrong-rest", format!("session {s}: used up from word number {pos} on (way {how}), got {got:?}, expected {exp:?} for {}", a.describe()));
        }
    }
    let after = of_nfa("NFA after enumeration", &nfa)?;
    ensure(after == a, "mutated", || "enumerating changed the automaton".into())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let a = c.aut.fix(false)?;
    ctx.thread(c.entropy, |ctx| drive(c, &a, ctx))
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C02",
        gen,
        run,
        quick: 100_000,
        thorough: 4_000_000,
        level: "exploration",
        rule: "a seeded ε-free automaton (random, cyclic with coprime periods, acyclic, empty) and a seeded interleaving of up to 4 enumeration sessions in three output forms, paused and resumed, asked for words one by one, in bulk and by skipping, asked again after the end; compared word by word with the reference order; non-trivial: the language has at least two words",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: ENTROPY_STUB,
    }
}
