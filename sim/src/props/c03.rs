//! C03: histories of DFA reductions.
use super::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    aut: Aut,
    style: u64,
    entropy: Vec<u64>,
    ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Minimize,
    Merge,
    Trim,
    Classes,
    Reach,
    Invert,
    Reload(u64),
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: if thorough { 20 } else { 12 }, max_syms: gen::syms(r, 4), big: true, mid: true };
    let mut aut = gen::dfa(r, &size, None);
    if r.chance(1, 2) {
        aut = gen::related(r, &aut, true, &size);
    }
    let n = r.range(1, 6);
    let ops = (0..n)
        .map(|_| match r.below(9) {
            0 | 1 => Op::Minimize,
            2 | 3 => Op::Merge,
            4 => Op::Trim,
            5 => Op::Classes,
            6 => Op::Reach,
            7 => Op::Invert,
            _ => Op::Reload(r.seed()),
        })
        .collect();
    Case { aut, style: r.seed() * (r.below(2) as u64), entropy: (0..r.range(1, 3)).map(|_| r.seed()).collect(), ops }
}

fn tr(a: &Aut) -> (Vec<Vec<usize>>, Vec<bool>) {
    (a.st.iter().map(|s| s.t.iter().map(|v| v[0]).collect()).collect(), a.st.iter().map(|s| s.a).collect())
}

/// Future-equivalence classes of the states of both automata together (same alphabet in the same order).
fn joint(a: &Aut, b: &Aut) -> (Vec<usize>, Vec<usize>) {
    let (mut t, mut acc) = tr(a);
    let (t2, acc2) = tr(b);
    let n = t.len();
    t.extend(t2.into_iter().map(|r| r.into_iter().map(|x| x + n).collect::<Vec<_>>()));
    acc.extend(acc2);
    let c = moore(&t, &acc);
    (c[..n].to_vec(), c[n..].to_vec())
}

fn survivors(before: &Aut, after: &Aut, op: &str) -> R {
    ensure(before.alpha == after.alpha, "alphabet", || format!("{op} changed the alphabet from {:?} to {:?}", before.alpha, after.alpha))?;
    let (cb, ca) = joint(before, after);
    ensure(cb[before.init] == ca[after.init], "language", || {
        let w = lang_diff(before, after).ok().flatten();
        format!("{op} changed the language; shortest difference {w:?}\nbefore: {}\nafter: {}", before.describe(), after.describe())
    })?;
    let by: BTreeMap<&str, usize> = before.st.iter().enumerate().map(|(i, s)| (s.n.as_str(), i)).collect();
    for (i, s) in after.st.iter().enumerate() {
        let Some(&o) = by.get(s.n.as_str()) else {
            return viol("names", format!("{op} left a state {} that did not exist before", s.n));
        };
        ensure(cb[o] == ca[i], "names", || format!("{op}: the state called {} no longer accepts the same continuations", s.n))?;
    }
    Ok(())
}

fn drive(c: &Case, a0: &Aut, ctx: &mut Ctx) -> R {
    let mut d = mk_dfa(a0, c.style)?;
    let mut cur = a0.clone();
    for op in &c.ops {
        let before = cur.clone();
        let reach = before.reachable();
        match op {
            Op::Minimize => {
                ctx.hit("op:minimize");
                d.minimize();
                let after = of_dfa("minimised DFA", &d)?;
                survivors(&before, &after, "minimize")?;
                let want = before.det_self()?.min_count();
                ensure(after.len() == want, "not-minimal", || {
                    format!("minimize left {} states, the minimum is {want}\nbefore: {}\nafter: {}", after.len(), before.describe(), after.describe())
                })?;
                ctx.nontrivial |= want < before.len() && want > 1;
                cur = after;
            }
            Op::Merge => {
                ctx.hit("op:merge");
                d.merge_nondistinguishable_states();
                let after = of_dfa("merged DFA", &d)?;
                survivors(&before, &after, "merge_nondistinguishable_states")?;
                let (t, acc) = tr(&before);
                let cls = moore(&t, &acc);
                let want = cls.iter().collect::<BTreeSet<_>>().len();
                ensure(after.len() == want, "not-merged", || format!("merging left {} states for {want} classes\nbefore: {}", after.len(), before.describe()))?;
                ctx.nontrivial |= want < before.len() && want > 1;
                cur = after;
            }
            Op::Trim => {
                ctx.hit("op:remove_unreachable_states");
                d.remove_unreachable_states();
                let after = of_dfa("trimmed DFA", &d)?;
                survivors(&before, &after, "remove_unreachable_states")?;
                let got: BTreeSet<&str> = after.st.iter().map(|s| s.n.as_str()).collect();
                let want: BTreeSet<&str> = reach.iter().map(|&i| before.st[i].n.as_str()).collect();
                ensure(got == want, "trim", || format!("removing unreachable states left {got:?}, the reachable ones are {want:?}\nbefore: {}", before.describe()))?;
                // structure kept
                for s in &after.st {
                    let o = before.st.iter().find(|x| x.n == s.n).unwrap();
                    let names = |a: &Aut, s: &St| s.t.iter().map(|v| a.st[v[0]].n.clone()).collect::<Vec<_>>();
                    ensure(o.a == s.a && names(&before, o) == names(&after, s), "trim", || format!("removing unreachable states changed state {}", s.n))?;
                }
                cur = after;
            }
            Op::Classes => {
                ctx.hit("op:state_equivalence_classes");
                let (t, acc) = tr(&before);
                let cls = moore(&t, &acc);
                let mut want: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
                cls.iter().enumerate().for_each(|(i, k)| {
                    want.entry(*k).or_default().insert(i);
                });
                let want: BTreeSet<BTreeSet<usize>> = want.into_values().collect();
                let raw = d.state_equivalence_classes_idx();
                let got: BTreeSet<BTreeSet<usize>> = raw.iter().map(|s| s.iter().copied().collect()).collect();
                ensure(got == want && raw.len() == want.len(), "classes", || format!("equivalence classes {got:?}, expected {want:?} for {}", before.describe()))?;
                let named = d.state_equivalence_classes();
                let got: BTreeSet<BTreeSet<String>> =
                    named.iter().map(|v| v.iter().map(|s| s.name().to_string()).collect()).collect();
                let want: BTreeSet<BTreeSet<String>> =
                    want.iter().map(|s| s.iter().map(|&i| before.st[i].n.clone()).collect()).collect();
                let count: usize = named.iter().map(|v| v.len()).sum();
                ensure(got == want && count == before.len(), "classes", || format!("equivalence classes by name {got:?}, expected {want:?}"))?;
            }
            Op::Reach => {
                ctx.hit("op:reachable_states");
                let got: BTreeSet<usize> = d.reachable_state_idx().into_iter().collect();
                ensure(got == reach, "reachable", || format!("reachable states {got:?}, expected {reach:?} for {}", before.describe()))?;
                let un: BTreeSet<usize> = (0..before.len()).filter(|i| !reach.contains(i)).collect();
                let got: BTreeSet<usize> = d.unreachable_state_idx().into_iter().collect();
                ensure(got == un, "reachable", || format!("unreachable states {got:?}, expected {un:?}"))?;
                let mut got: Vec<&str> = d.reachable_states().iter().map(|s| s.name()).collect();
                got.extend(d.unreachable_states().iter().map(|s| s.name()));
                let mut split: Vec<&str> = reach.iter().chain(&un).map(|&i| before.st[i].n.as_str()).collect();
                got[..].sort();
                split.sort();
                ensure(got == split, "reachable", || format!("reachable and unreachable states by name {got:?}, expected {split:?}"))?;
                let names: BTreeSet<&str> = d.reachable_states().iter().map(|s| s.name()).collect();
                ensure(names == reach.iter().map(|&i| before.st[i].n.as_str()).collect(), "reachable", || format!("reachable_states by name {names:?}"))?;
                let want = reach.iter().any(|&i| before.st[i].a);
                ensure(d.has_reachable_accepting_state() == want, "reachable", || format!("has_reachable_accepting_state is not {want} for {}", before.describe()))?;
            }
            Op::Invert => {
                d.invert();
                let after = of_dfa("inverted DFA", &d)?;
                let mut want = before.clone();
                want.st.iter_mut().for_each(|s| s.a = !s.a);
                ensure(after == want, "invert", || "invert did more or less than flip the accepting marks".into())?;
                cur = after;
            }
            Op::Reload(s) => {
                d = mk_dfa(&cur, *s)?;
            }
        }
        ctx.ev(format!("{op:?} -> {}", if matches!(op, Op::Merge | Op::Minimize) { format!("{} states", cur.len()) } else { cur.describe() }));
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let a = c.aut.fix(true)?;
    for &e in &c.entropy {
        ctx.thread(e, |ctx| drive(c, &a, ctx))?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C03",
        gen,
        run,
        quick: 400_000,
        thorough: 10_000_000,
        level: "exploration",
        rule: "a seeded DFA (random, split copies of a small DFA, chains, permutations, unreachable tails, any initial index) and a seeded history of minimise/merge/trim/classes/reachability/invert/save+reload under 1 to 3 hash seeds; language, minimality, names, partitions checked after every operation; non-trivial: a reduction removed states and left more than one",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: ENTROPY_STUB,
    }
}
