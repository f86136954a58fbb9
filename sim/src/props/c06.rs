//! C06: histories of NFA simplifications.
use super::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    aut: Aut,
    style: u64,
    entropy: Vec<u64>,
    ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    RemoveEps,
    Trim,
    Optimize,
    Reach,
    Closure,
    Reload(u64),
    /// union with a copy of itself, which brings new ε-moves and clashing names
    Double,
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: if thorough { 14 } else { 10 }, max_syms: gen::syms(r, 4), big: true, mid: true };
    let eps = r.chance(9, 10);
    let mut aut = gen::nfa(r, &size, None, eps);
    let n = aut.len();
    // dead ends and chains of ε-moves around the initial state
    if r.chance(1, 2) {
        for s in &mut aut.st {
            if r.chance(1, 3) {
                s.t.iter_mut().for_each(|v| v.clear());
                if r.chance(1, 2) {
                    s.e.clear();
                }
                if r.chance(2, 3) {
                    s.a = false;
                }
            }
        }
    }
    if r.chance(1, 3) {
        let i = aut.init;
        for _ in 0..r.range(1, 3) {
            let x = r.below(n);
            aut.st[i].e.push(x);
        }
        if r.chance(1, 2) {
            aut.st[i].t.iter_mut().for_each(|v| v.clear());
        }
    }
    let k = r.range(1, 5);
    let ops = (0..k)
        .map(|_| match r.below(12) {
            0..=3 => Op::RemoveEps,
            4 | 5 => Op::Trim,
            6 | 7 => Op::Optimize,
            8 => Op::Reach,
            9 => Op::Closure,
            10 => Op::Reload(r.seed()),
            _ => Op::Double,
        })
        .collect();
    Case { aut, style: r.seed() * (r.below(2) as u64), entropy: (0..r.range(2, 3)).map(|_| r.seed()).collect(), ops }
}

/// states that are neither initial nor accepting and whose transitions all lead to such states
fn dead(a: &Aut) -> BTreeSet<usize> {
    let mut d = BTreeSet::new();
    loop {
        let n = d.len();
        for (i, s) in a.st.iter().enumerate() {
            if i != a.init && !s.a && s.t.iter().flatten().all(|x| d.contains(x)) {
                d.insert(i);
            }
        }
        if d.len() == n {
            return d;
        }
    }
}

fn after_eps(before: &Aut, after: &Aut, what: &str) -> R {
    ensure(!after.has_eps(), "epsilon-left", || format!("{what} left ε-moves: {}", after.describe()))?;
    ensure(after.len() <= before.len() + 1, "grew", || format!("{what} turned {} states into {}", before.len(), after.len()))?;
    if before.has_eps() {
        let d = dead(after);
        ensure(d.is_empty(), "dead-ends", || {
            format!("{what} left dead ends {d:?}\nbefore: {}\nafter: {}", before.describe(), after.describe())
        })?;
    } else {
        ensure(same_sets(before, after), "changed", || format!("{what} changed an automaton without ε-moves"))?;
    }
    Ok(())
}

fn trimmed(before: &Aut, after: &Aut, what: &str) -> R {
    let want = before.restrict(&before.reachable());
    ensure(same_sets(&want, after), "trim", || {
        format!("{what} must leave exactly the reachable states unchanged\nbefore: {}\nafter: {}\nexpected: {}", before.describe(), after.describe(), want.describe())
    })
}

fn drive(c: &Case, a0: &Aut, ctx: &mut Ctx) -> R<Vec<Aut>> {
    let mut d = mk_nfa(a0, c.style)?;
    let mut cur = of_nfa("loaded NFA", &d)?;
    let mut log = vec![];
    for op in &c.ops {
        let before = cur.clone();
        match op {
            Op::RemoveEps => {
                ctx.hit("op:remove_epsilon_moves");
                d.remove_epsilon_moves();
                cur = of_nfa("NFA without ε-moves", &d)?;
                ensure_same_lang("language", "remove_epsilon_moves", &cur, &before)?;
                ensure(d.has_epsilon_moves() == cur.has_eps(), "has-epsilon", || "has_epsilon_moves is wrong".into())?;
                after_eps(&before, &cur, "remove_epsilon_moves")?;
                ctx.nontrivial |= before.has_eps();
            }
            Op::Trim => {
                ctx.hit("op:remove_unreachable_states");
                d.remove_unreachable_states();
                cur = of_nfa("trimmed NFA", &d)?;
                ensure_same_lang("language", "remove_unreachable_states", &cur, &before)?;
                trimmed(&before, &cur, "remove_unreachable_states")?;
                ctx.nontrivial |= before.len() != cur.len();
            }
            Op::Optimize => {
                ctx.hit("op:optimize");
                d.optimize();
                cur = of_nfa("optimised NFA", &d)?;
                ensure_same_lang("language", "optimize", &cur, &before)?;
                after_eps(&before.restrict(&before.reachable()), &cur, "optimize")?;
                ctx.nontrivial |= before.has_eps();
            }
            Op::Reach => {
                ctx.hit("op:reachable_states");
                let reach = before.reachable();
                let un: BTreeSet<usize> = (0..before.len()).filter(|i| !reach.contains(i)).collect();
                let got: BTreeSet<usize> = d.reachable_state_idx().into_iter().collect();
                ensure(got == reach, "reachable", || format!("reachable states {got:?}, expected {reach:?} for {}", before.describe()))?;
                let got: BTreeSet<usize> = d.unreachable_state_idx().into_iter().collect();
                ensure(got == un, "reachable", || format!("unreachable states {got:?}, expected {un:?}"))?;
                let names = |v: Vec<&dandy::nfa::NfaState>| {
                    let mut v: Vec<String> = v.iter().map(|s| s.name().to_string()).collect();
                    v.sort();
                    v
                };
                let want = |s: &BTreeSet<usize>| {
                    let mut v: Vec<String> = s.iter().map(|&i| before.st[i].n.clone()).collect();
                    v.sort();
                    v
                };
                ensure(names(d.reachable_states()) == want(&reach), "reachable", || "reachable_states is wrong".into())?;
                ensure(names(d.unreachable_states()) == want(&un), "reachable", || "unreachable_states is wrong".into())?;
                let acc = reach.iter().any(|&i| before.st[i].a);
                ensure(d.has_reachable_accepting_state() == acc, "reachable", || format!("has_reachable_accepting_state is not {acc}"))?;
            }
            Op::Closure => {
                ctx.hit("op:closure");
                for i in 0..before.len() {
                    let mut b = Bits::new(before.len());
                    b.insert(i);
                    before.close(&mut b);
                    let got = d.closure(i).map(|s| s.into_iter().collect::<BTreeSet<_>>());
                    ensure(got == Some(b.to_set()), "closure", || format!("ε-closure of state {i} is {got:?}, expected {:?}", b.to_set()))?;
                }
                ensure(d.closure(before.len()).is_none(), "closure", || "closure of a state that does not exist".into())?;
            }
            Op::Reload(s) => {
                d = mk_nfa(&cur, *s)?;
                cur = of_nfa("reloaded NFA", &d)?;
            }
            Op::Double => {
                if cur.len() > 12 {
                    continue;
                }
                d = match d.clone().union(d) {
                    Ok(n) => n,
                    Err(_) => return viol("refusal", "the union of an NFA with itself was refused"),
                };
                cur = of_nfa("union", &d)?;
                ensure_same_lang("language", "union with itself", &cur, &before)?;
            }
        }
        ctx.ev(format!("{op:?} -> {}", cur.sorted().describe()));
        log.push(cur.clone());
    }
    Ok(log)
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let a = c.aut.fix(false)?;
    let mut first: Option<Vec<Aut>> = None;
    for &e in &c.entropy {
        let log = ctx.thread(e, |ctx| drive(c, &a, ctx))?;
        match &first {
            None => first = Some(log),
            Some(f) => {
                for (k, (x, y)) in f.iter().zip(&log).enumerate() {
                    ensure(same_sets(x, y), "seed-dependent", || {
                        format!("after operation {k} the result depends on the hash seed\n{}\n{}", x.describe(), y.describe())
                    })?;
                }
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C06",
        gen,
        run,
        quick: 400_000,
        thorough: 10_000_000,
        level: "exploration",
        rule: "a seeded NFA rich in ε-moves, dead ends and unreachable states and a seeded history of simplifications, queries, reloads and self-unions, executed under 2 to 3 hash seeds; language, shape and equality across hash seeds checked after every operation; non-trivial: an operation had something to remove",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: ENTROPY_STUB,
    }
}
