//! C23: what is said about automaton files that were damaged in storage or transfer.
use super::c13::{self, Case, Damage};
use super::*;
use crate::reader::{self, Flaw};
use dandy::dfa::parse::DfaParseError;
use dandy::nfa::parse::NfaParseError;

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let mut c = c13::gen(r, thorough);
    if c.base.is_empty() {
        return c;
    }
    // mostly damage that leaves rows behind, in names, markers and columns
    let names: Vec<String> = c.base.iter().flat_map(|b| b.1.st.iter().map(|s| s.n.clone()).chain(b.1.alpha.iter().cloned())).collect();
    let k = *r.pick(&[1, 1, 1, 2, 2, 3]);
    let p = |r: &mut Rng| r.below(1000) as u16;
    let first = |r: &mut Rng| r.below(r.clone().below(500) + 1) as u16;
    for d in c.damage.iter_mut() {
        if r.chance(1, 4) {
            *d = Damage::LoseLine(p(r));
        }
    }
    c.damage.truncate(if r.chance(1, 4) { 1 } else { 0 });
    for _ in 0..k {
        let mut name = r.pick(&names).clone();
        if r.chance(1, 5) {
            name = r.pick(&["x", "zz", "S0", "s", "q_", "none", "ε\u{301}"]).to_string();
        }
        if r.chance(1, 4) {
            name = format!("{{{name}}}");
        }
        let d = match r.below(14) {
            0 | 1 => Damage::LoseField(p(r), first(r)),
            2 => Damage::LoseField(p(r), p(r)),
            3 => Damage::RepeatField(p(r), p(r)),
            4 => Damage::RepeatLine(p(r)),
            5 => Damage::LoseLine(p(r)),
            6 => Damage::ReplaceField(p(r), first(r), name),
            7 => Damage::ReplaceField(p(r), first(r), format!("{} {name}", r.pick(&["->", "→", "-> *"]))),
            8 | 9 => Damage::ReplaceField(p(r), p(r), name),
            10 => Damage::ReplaceField(0, p(r), name),
            11 => Damage::Insert(p(r), r.pick(&["\n-> ", " -> ", "\n→ ", " a", " {}", " ε"]).to_string()),
            12 => Damage::SwapFields(p(r), p(r), p(r)),
            _ => Damage::LoseChar(p(r)),
        };
        c.damage.push(d);
    }
    c
}

/// the flaw an error speaks of, and its message
fn dfa_flaw(e: &DfaParseError) -> Flaw {
    match e {
        DfaParseError::WrongNumberOfTransitions(s, has, want) => Flaw::Columns(s.to_string(), *has, *want),
        DfaParseError::TransitionDoesNotExist(s, t) => Flaw::Unknown(s.to_string(), t.to_string()),
        DfaParseError::MissingInitialState => Flaw::NoInitial,
        DfaParseError::MultipleInitialStates => Flaw::ManyInitial,
        DfaParseError::DuplicateAlphabetSymbol(s) => Flaw::SymbolTwice(s.to_string()),
        DfaParseError::DuplicateStateDefinition(s) => Flaw::StateTwice(s.to_string()),
    }
}
fn nfa_flaw(e: &NfaParseError) -> Flaw {
    match e {
        NfaParseError::WrongNumberOfTransitions(s, has, want) => Flaw::Columns(s.to_string(), *has, *want),
        NfaParseError::TransitionDoesNotExist(s, t) => Flaw::Unknown(s.to_string(), t.to_string()),
        NfaParseError::MissingInitialState => Flaw::NoInitial,
        NfaParseError::MultipleInitialStates => Flaw::ManyInitial,
        NfaParseError::DuplicateAlphabetSymbol(s) => Flaw::SymbolTwice(s.to_string()),
        NfaParseError::DuplicateStateDefinition(s) => Flaw::StateTwice(s.to_string()),
    }
}
fn named(f: &Flaw) -> Vec<String> {
    match f {
        Flaw::SymbolTwice(s) | Flaw::StateTwice(s) => vec![s.clone()],
        Flaw::Columns(s, a, b) => vec![s.clone(), a.to_string(), b.to_string()],
        Flaw::Unknown(s, t) => vec![s.clone(), t.clone()],
        Flaw::NoInitial | Flaw::ManyInitial => vec!["initial".into()],
    }
}

enum Got {
    Fine,
    /// not even rows
    Syntax(String),
    Flaw(Flaw, String),
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let text = c13::damaged(c, ctx)?;
    let t = &text;
    let got = ctx.thread(c.entropy, |_| {
        Ok(if c.as_dfa {
            match dandy::parser::dfa(t) {
                Err(e) => Got::Syntax(format!("{e:?}")),
                Ok(p) => match Dfa::try_from(p) {
                    Ok(_) => Got::Fine,
                    Err(e) => Got::Flaw(dfa_flaw(&e), e.to_string()),
                },
            }
        } else {
            match dandy::parser::nfa(t) {
                Err(e) => Got::Syntax(format!("{e:?}")),
                Ok(p) => match Nfa::try_from(p) {
                    Ok(_) => Got::Fine,
                    Err(e) => Got::Flaw(nfa_flaw(&e), e.to_string()),
                },
            }
        })
    })?;
    let Ok(raw) = reader::rows(t, c.as_dfa) else {
        ctx.hit("outcome: no rows to speak about");
        ctx.ev(format!("{text:?}: no rows"));
        return match got {
            Got::Flaw(f, m) if !t.chars().any(|c| c.is_whitespace() && !" \t\n".contains(c)) => {
                viol("diagnosis", format!("a text that is no table is said to have {f:?} ({m})\ntext:\n{t}"))
            }
            _ => Ok(()),
        };
    };
    let flaws = raw.flaws();
    ctx.ev(format!("{text:?}: {flaws:?}"));
    match got {
        Got::Fine => {
            ctx.hit("outcome: accepted");
            ensure(flaws.is_empty(), "accepted", || format!("a text with the flaws {flaws:?} was accepted\ntext:\n{t}"))
        }
        Got::Syntax(m) => {
            ctx.hit("outcome: not readable");
            ensure(!raw.ended, "syntax", || format!("a text with readable rows and the flaws {flaws:?} was not read: {m}\ntext:\n{t}"))
        }
        Got::Flaw(f, m) => {
            ctx.hit(match f {
                Flaw::SymbolTwice(_) => "diagnosis: symbol listed twice",
                Flaw::StateTwice(_) => "diagnosis: state defined twice",
                Flaw::Columns(..) => "diagnosis: wrong number of columns",
                Flaw::Unknown(..) => "diagnosis: unknown target",
                Flaw::NoInitial => "diagnosis: no initial state",
                Flaw::ManyInitial => "diagnosis: several initial states",
            });
            ctx.nontrivial = true;
            ensure(flaws.contains(&f), "diagnosis", || format!("the text is said to have {f:?} ({m}), but its flaws are {flaws:?}\ntext:\n{t}"))?;
            for x in named(&f) {
                ensure(m.contains(&x), "message", || format!("the message {m:?} for {f:?} does not name {x:?}"))?;
            }
            // the words of a message, where it uses these
            let number_after = |w: &str| -> Option<usize> {
                let rest = m.rsplit_once(w)?.1;
                let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse().ok()
            };
            let wrong = match &f {
                Flaw::Columns(_, has, want) => number_after("has ").is_some_and(|n| n != *has) || number_after("expected ").is_some_and(|n| n != *want),
                Flaw::Unknown(s, t) => s != t && m.starts_with(&format!("State '{s}' does not exist")),
                _ => false,
            };
            ensure(!wrong, "message", || format!("the message {m:?} says something else than {f:?}"))
        }
    }
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C23",
        gen,
        run,
        quick: 600_000,
        thorough: 20_000_000,
        level: "exploration",
        rule: "a seeded DFA or NFA file in a seeded layout, damaged up to four times, mostly in markers, names and columns; the error the library reports is compared with the complete list of flaws an independent reader finds in the damaged text; non-trivial: the library reported a flaw",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: &["the storage medium that damages the files: seeded damage applied in memory", "operating-system entropy: seeded"],
    }
}
