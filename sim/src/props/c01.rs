//! C01: interleaved evaluation sessions against the transition table.
use super::*;
use dandy::dfa::DfaEvaluator;
use dandy::nfa::eval::NfaEvaluator;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    dfa: bool,
    aut: Aut,
    style: u64,
    entropy: Vec<u64>,
    ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    New,
    Step(usize, String),
    Multi(usize, Vec<String>),
    Fork(usize),
    All(usize),
    Drop(usize),
    Word(Vec<String>),
    Text(String),
    Closure(usize),
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let dfa = r.chance(2, 5);
    let size = gen::Size { max_states: if thorough { 14 } else { 9 }, max_syms: gen::syms(r, 4), big: true, mid: true };
    let e = r.chance(1, 2);
    let vast = if dfa { gen::vast(r, true) } else { None };
    let aut = if let Some(a) = vast { a } else if dfa { gen::dfa(r, &size, None) } else { gen::nfa(r, &size, None, e) };
    // now and then, many sessions at once
    let crowd = r.chance(1, 200) && aut.len() < 20 && aut.alpha.iter().map(|s| s.len()).sum::<usize>() < 2000;
    let most = if crowd { 300 } else { 6 };
    let n = if crowd { r.range(300, 900) } else { r.range(4, if thorough { 90 } else { 40 }) };
    let alien_rate = *r.pick(&[0, 0, 1, 3]);
    let mut ops = vec![];
    let el = |r: &mut Rng| -> String {
        if aut.alpha.is_empty() || r.chance(alien_rate, 20) {
            gen::alien(r, &aut.alpha)
        } else {
            r.pick(&aut.alpha).clone()
        }
    };
    let length = |r: &mut Rng, usual: usize| match r.below(4000) {
        0 if aut.len() < 20 && aut.alpha.iter().all(|s| s.len() < 40) => *r.pick(&[1000, 1024, 4096, 10_000, 65_535, 65_536, 66_000]),
        0..=60 => r.range(60, if aut.alpha.iter().all(|s| s.len() < 40) { 700 } else { 90 }),
        _ => r.below(usual),
    };
    let mut live = 0usize;
    for _ in 0..n {
        let s = r.below(live.max(1));
        let k = if crowd && live < most && r.chance(1, 2) { r.below(2) } else { r.below(20) };
        ops.push(match k {
            _ if live == 0 => {
                live += 1;
                Op::New
            }
            0 if live < most => {
                live += 1;
                Op::New
            }
            1 if live < most => {
                live += 1;
                Op::Fork(s)
            }
            2 => Op::All(s),
            3 if live > 1 => {
                live -= 1;
                Op::Drop(s)
            }
            4 => Op::Closure(r.below(aut.len() + 2)),
            5 | 6 => {
                let l = length(r, 12);
                Op::Word((0..l).map(|_| el(r)).collect())
            }
            7 | 8 => {
                let l = length(r, 12);
                Op::Text((0..l).map(|_| el(r)).collect())
            }
            9 | 10 => {
                let l = length(r, 7);
                Op::Multi(s, (0..l).map(|_| el(r)).collect())
            }
            _ => Op::Step(s, el(r)),
        });
    }
    Case { dfa, aut, style: r.seed() * (r.below(2) as u64), entropy: vec![r.seed(), r.seed()], ops }
}

#[derive(Clone)]
struct M {
    set: Bits,
    dead: bool,
}
impl M {
    fn step(&mut self, a: &Aut, s: &str) -> bool {
        match a.sym(s) {
            None => {
                self.dead = true;
                false
            }
            Some(k) => {
                if !self.dead {
                    self.set = a.step(&self.set, k);
                }
                true
            }
        }
    }
}

enum Ev<'a> {
    D(DfaEvaluator<'a>),
    N(NfaEvaluator<'a>),
}
impl<'a> Ev<'a> {
    fn fork(&self) -> Ev<'a> {
        match self {
            Ev::D(e) => Ev::D(e.clone()),
            Ev::N(e) => Ev::N(e.clone()),
        }
    }
}

fn verify(a: &Aut, ev: &Ev, m: &M, what: &str) -> R {
    let acc = match ev {
        Ev::D(e) => e.is_accepting(),
        Ev::N(e) => e.is_accepting(),
    };
    let want = !m.dead && a.acc(&m.set);
    ensure(acc == want, "acceptance", || format!("{what}: is_accepting is {acc}, the table says {want} ({})", if m.dead { "poisoned session".into() } else { format!("states {:?}", m.set.to_set()) }))?;
    match ev {
        Ev::D(e) => {
            let s = e.current_state();
            if m.dead {
                ensure(s.is_none(), "position", || format!("{what}: a session that saw an unknown element still has a current state"))?;
            } else {
                let x = m.set.iter().next().unwrap();
                ensure(e.current_state_idx() == x && s.is_some_and(|s| s.name() == a.st[x].n), "position", || {
                    format!("{what}: at state {} but the table leads to {x} ({})", e.current_state_idx(), a.st[x].n)
                })?;
            }
        }
        Ev::N(e) => {
            if !m.dead {
                let got: BTreeSet<usize> = e.current_states_idx().iter().copied().collect();
                ensure(got == m.set.to_set(), "position", || format!("{what}: in states {got:?} but the table leads to {:?}", m.set.to_set()))?;
                let mut names: Vec<&str> = e.current_states().iter().map(|s| s.name()).collect();
                names.sort();
                let mut want: Vec<&str> = m.set.iter().map(|i| a.st[i].n.as_str()).collect();
                want.sort();
                ensure(names == want, "position", || format!("{what}: current_states names {names:?}, expected {want:?}"))?;
            }
        }
    }
    Ok(())
}

fn drive(c: &Case, a: &Aut, ctx: &mut Ctx) -> R {
    let (d, n);
    let (mut dd, mut nn) = (None, None);
    if c.dfa {
        d = mk_dfa(a, c.style)?;
        dd = Some(&d);
    } else {
        n = mk_nfa(a, c.style)?;
        nn = Some(&n);
    }
    let fresh = || -> Ev { if let Some(d) = dd { Ev::D(d.evaluator()) } else { Ev::N(nn.unwrap().evaluator()) } };
    let mut live: Vec<(Ev, M)> = vec![];
    let mut steps_of = BTreeSet::new();
    for op in &c.ops {
        let pick = |s: usize| if live.is_empty() { None } else { Some(s % live.len()) };
        match op {
            Op::New => {
                ctx.hit("op:new");
                live.push((fresh(), M { set: a.start(), dead: false }));
                ctx.ev("new");
            }
            Op::Step(s, w) => {
                let Some(i) = pick(*s) else { continue };
                ctx.hit("op:step");
                steps_of.insert(i);
                let (e, m) = &mut live[i];
                let was_dead = m.dead;
                let known = m.step(a, w);
                if !known {
                    ctx.hit("fault:unknown element");
                }
                let got = match e {
                    Ev::D(e) => e.step(w).map(|s| s.name().to_string()),
                    Ev::N(e) => e.step(w).map(|_| String::new()),
                };
                ctx.ev(format!("step {i} {w} -> {got:?}"));
                if !was_dead || c.dfa {
                    ensure(got.is_some() == (known && !was_dead), "step-result", || format!("step({w:?}) returned {got:?}, element known: {known}, session poisoned before: {was_dead}"))?;
                    if let (Ev::D(_), Some(g)) = (&*e, &got) {
                        let x = m.set.iter().next().unwrap();
                        ensure(*g == a.st[x].n, "step-result", || format!("step({w:?}) returned state {g}, the table leads to {}", a.st[x].n))?;
                    }
                }
            }
            Op::Multi(s, ws) => {
                let Some(i) = pick(*s) else { continue };
                ctx.hit("op:step_multiple");
                let (e, m) = &mut live[i];
                let was_dead = m.dead;
                let known = ws.iter().all(|w| m.step(a, w));
                if !known {
                    ctx.hit("fault:unknown element");
                }
                let v = strs(ws);
                let got = match e {
                    Ev::D(e) => e.step_multiple(&v).map(|s| s.name().to_string()),
                    Ev::N(e) => e.step_multiple(&v).map(|_| String::new()),
                };
                ctx.ev(format!("multi {i} {ws:?} -> {got:?}"));
                if !was_dead {
                    ensure(got.is_some() == known, "step-result", || format!("step_multiple({ws:?}) returned {got:?}, elements known: {known}"))?;
                    if let (Ev::D(_), Some(g)) = (&*e, &got) {
                        let x = m.set.iter().next().unwrap();
                        ensure(*g == a.st[x].n, "step-result", || format!("step_multiple({ws:?}) returned state {g}, the table leads to {}", a.st[x].n))?;
                    }
                }
            }
            Op::Fork(s) => {
                let Some(i) = pick(*s) else { continue };
                ctx.hit("op:clone");
                let f = (live[i].0.fork(), live[i].1.clone());
                live.push(f);
                ctx.ev(format!("fork {i}"));
            }
            Op::All(s) => {
                let Some(i) = pick(*s) else { continue };
                ctx.hit("op:step_all");
                let outs: Vec<Ev> = match &live[i].0 {
                    Ev::D(e) => e.step_all().into_iter().map(Ev::D).collect(),
                    Ev::N(e) => e.step_all().into_iter().map(Ev::N).collect(),
                };
                ctx.ev(format!("all {i} -> {}", outs.len()));
                ensure(outs.len() == a.alpha.len(), "step-all", || format!("step_all gave {} evaluators for {} symbols", outs.len(), a.alpha.len()))?;
                for (k, o) in outs.iter().enumerate() {
                    let mut m = live[i].1.clone();
                    m.step(a, &a.alpha[k]);
                    verify(a, o, &m, &format!("evaluator {k} of step_all"))?;
                }
                // continue one of them as a session of its own
                if let Some((k, o)) = outs.into_iter().enumerate().last() {
                    let mut m = live[i].1.clone();
                    m.step(a, &a.alpha[k]);
                    if live.len() < 8 {
                        live.push((o, m));
                    }
                }
            }
            Op::Drop(s) => {
                let Some(i) = pick(*s) else { continue };
                live.remove(i);
                ctx.ev(format!("drop {i}"));
            }
            Op::Word(w) => {
                ctx.hit("op:accepts");
                let v = strs(w);
                let got = if let Some(d) = dd { d.accepts(&v) } else { nn.unwrap().accepts(&v) };
                let want = a.accepts(&v);
                ctx.ev(format!("accepts {w:?} -> {got}"));
                ensure(got == want, "accepts", || format!("accepts({w:?}) is {got}, the table says {want}"))?;
            }
            Op::Text(t) => {
                ctx.hit("op:accepts_graphemes");
                let v: Vec<&str> = t.graphemes(true).collect();
                let got = if let Some(d) = dd { d.accepts_graphemes(t) } else { nn.unwrap().accepts_graphemes(t) };
                let want = a.accepts(&v);
                ctx.ev(format!("graphemes {t:?} -> {got}"));
                ensure(got == want, "accepts", || format!("accepts_graphemes({t:?}) is {got}, the table says {want}"))?;
            }
            Op::Closure(x) => {
                if let Some(n) = nn {
                    ctx.hit("op:closure");
                    let got = n.closure(*x).map(|s| s.into_iter().collect::<BTreeSet<_>>());
                    let want = (*x < a.len()).then(|| {
                        let mut b = Bits::new(a.len());
                        b.insert(*x);
                        a.close(&mut b);
                        b.to_set()
                    });
                    ctx.ev(format!("closure {x} -> {got:?}"));
                    ensure(got == want, "closure", || format!("closure({x}) is {got:?}, the table says {want:?}"))?;
                }
            }
        }
        // every live session, not only the one that moved
        for (i, (e, m)) in live.iter().enumerate() {
            verify(a, e, m, &format!("session {i} after {op:?}"))?;
        }
    }
    let go = if let Some(d) = dd { d.graphemes_only() } else { nn.unwrap().graphemes_only() };
    let want = a.alpha.iter().all(|s| s.graphemes(true).count() == 1);
    ensure(go == want, "graphemes-only", || format!("graphemes_only is {go} for alphabet {:?}", a.alpha))?;
    ctx.nontrivial |= steps_of.len() > 1;
    drop(live);
    // evaluation left the automaton as it was
    let after = if let Some(d) = dd { of_dfa("DFA after evaluation", d)? } else { of_nfa("NFA after evaluation", nn.unwrap())? };
    ensure(same_sets(&after, a), "mutated", || "evaluating changed the automaton".into())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let a = c.aut.fix(c.dfa)?;
    for &e in &c.entropy {
        ctx.thread(e, |ctx| drive(c, &a, ctx))?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C01",
        gen,
        run,
        quick: 150_000,
        thorough: 8_000_000,
        level: "exploration",
        rule: "a seeded automaton (DFA, NFA, NFA with ε) and a seeded schedule of new/step/step_multiple/clone/step_all/drop/accepts/closure over up to 8 live evaluator sessions, run under two hash seeds; every live session is compared with the table after every operation; non-trivial: at least two sessions were stepped",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: ENTROPY_STUB,
    }
}
