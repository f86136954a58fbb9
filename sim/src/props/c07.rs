//! C07: histories of conversions and equivalence questions.
use super::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    /// (is a DFA, automaton)
    base: Vec<(bool, Aut)>,
    style: u64,
    entropy: Vec<u64>,
    ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    ToDfa(usize),
    ToNfa(usize),
    Minimize(usize),
    RemoveEps(usize),
    Eq(usize, usize),
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: if thorough { 9 } else { 7 }, max_syms: gen::syms(r, 3), big: true, mid: true };
    let d = r.chance(1, 2);
    let a = if d {
        gen::dfa(r, &size, None)
    } else {
        let e = r.chance(1, 2);
        gen::nfa(r, &size, None, e)
    };
    let mut base = vec![(d, a.clone())];
    for _ in 0..r.range(1, 3) {
        let mut b = gen::related(r, &a, d, &size);
        let mut bd = d;
        // a DFA is an NFA with singleton sets
        if d && r.chance(1, 4) {
            bd = false;
            if r.chance(1, 2) {
                let n = b.len();
                for _ in 0..r.range(1, 2) {
                    let (i, j) = (r.below(n), r.below(n));
                    b.st[i].e.push(j);
                }
            }
        }
        base.push((bd, b));
    }
    // (what takes long is dull here)
    let brief = |a: &Aut| a.det(&a.alpha, 4000 / a.alpha.len().max(5)).is_ok();
    base.retain(|(d, a)| *d || a.alpha.len() < 5 || brief(a));
    if base.is_empty() {
        return gen(r, thorough);
    }
    let n = r.range(2, if thorough { 10 } else { 7 });
    let mut k = base.len();
    let ops = (0..n)
        .map(|_| {
            let i = r.below(k);
            let j = r.below(k);
            k += 1;
            match r.below(10) {
                0 | 1 => Op::ToDfa(i),
                2 | 3 => Op::ToNfa(i),
                4 => Op::Minimize(i),
                5 => Op::RemoveEps(i),
                _ => Op::Eq(i, if j == i { (i + 1) % (k - 1) } else { j }),
            }
        })
        .collect();
    Case { base, style: r.seed() * (r.below(2) as u64), entropy: (0..r.range(1, 3)).map(|_| r.seed()).collect(), ops }
}

enum Au {
    D(Dfa, Aut),
    N(Nfa, Aut),
}
impl Au {
    fn a(&self) -> &Aut {
        match self {
            Au::D(_, a) | Au::N(_, a) => a,
        }
    }
}

fn drive(c: &Case, base: &[(bool, Aut)], ctx: &mut Ctx) -> R<Vec<String>> {
    let mut pool: Vec<Au> = vec![];
    let mut log = vec![];
    for (i, (d, a)) in base.iter().enumerate() {
        let s = if c.style == 0 { 0 } else { c.style + i as u64 };
        pool.push(if *d {
            Au::D(mk_dfa(a, s)?, a.clone())
        } else {
            let n = mk_nfa(a, s)?;
            let a = of_nfa("loaded NFA", &n)?;
            Au::N(n, a)
        });
    }
    for op in &c.ops {
        let l = pool.len();
        let obs;
        let mut new = None;
        match op {
            Op::ToDfa(i) => {
                let Au::N(n, a) = &pool[i % l] else { continue };
                let want = match a.det(&a.alpha, 300) {
                    Ok(x) => x,
                    Err(_) => continue,
                };
                ctx.hit("op:to_dfa");
                let d = n.to_dfa();
                let got = of_dfa("determinised NFA", &d)?;
                ensure(got.alpha == a.alpha, "alphabet", || format!("to_dfa changed the alphabet from {:?} to {:?}", a.alpha, got.alpha))?;
                ensure_same_lang("language", "to_dfa", &got, a)?;
                ensure(got.reachable().len() == got.len(), "unreachable", || format!("to_dfa made unreachable states: {}", got.describe()))?;
                let names: BTreeSet<String> = got.st.iter().map(|s| s.n.clone()).collect();
                ensure(names == (0..got.len()).map(|i| i.to_string()).collect() && got.st[got.init].n == "0", "names", || {
                    format!("to_dfa must name its states from 0, the initial one 0: {}", got.describe())
                })?;
                ctx.nontrivial |= want.tr.len() > 2;
                obs = format!("{} states", got.len());
                new = Some(Au::D(d, got));
            }
            Op::ToNfa(i) => {
                let Au::D(d, a) = &pool[i % l] else { continue };
                ctx.hit("op:to_nfa");
                let n = if i % 2 == 0 { d.clone().to_nfa() } else { Nfa::from(d.clone()) };
                let got = of_nfa("DFA as NFA", &n)?;
                ensure(got.alpha == a.alpha, "alphabet", || format!("to_nfa changed the alphabet from {:?} to {:?}", a.alpha, got.alpha))?;
                ensure_same_lang("language", "to_nfa", &got, a)?;
                obs = format!("{} states", got.len());
                new = Some(Au::N(n, got));
            }
            Op::Minimize(i) => {
                let Au::D(d, a) = &pool[i % l] else { continue };
                let mut d = d.clone();
                d.minimize();
                let got = of_dfa("minimised DFA", &d)?;
                ensure_same_lang("language", "minimize", &got, a)?;
                obs = format!("{} states", got.len());
                new = Some(Au::D(d, got));
            }
            Op::RemoveEps(i) => {
                let Au::N(n, a) = &pool[i % l] else { continue };
                let mut n = n.clone();
                n.remove_epsilon_moves();
                let got = of_nfa("NFA without ε-moves", &n)?;
                ensure_same_lang("language", "remove_epsilon_moves", &got, a)?;
                obs = format!("{} states", got.len());
                new = Some(Au::N(n, got));
            }
            Op::Eq(i, j) => {
                let (x, y) = (&pool[i % l], &pool[j % l]);
                let (ax, ay) = (x.a(), y.a());
                let want = ax.alpha_set() == ay.alpha_set() && {
                    let (dx, dy) = (ax.det(&ax.alpha, DET_CAP)?, ay.det(&ax.alpha, DET_CAP)?);
                    dx.diff(&dy).is_none()
                };
                let (got, back) = match (x, y) {
                    (Au::D(d, _), Au::D(e, _)) => {
                        ctx.hit("op:equivalent_to (DFA)");
                        (d.equivalent_to(e), e.equivalent_to(d))
                    }
                    (Au::N(d, _), Au::N(e, _)) => {
                        ctx.hit("op:equivalent_to (NFA)");
                        (d.equivalent_to(e), e.equivalent_to(d))
                    }
                    _ => continue,
                };
                ctx.hit(if want { "answers: equivalent" } else { "answers: not equivalent" });
                ctx.nontrivial |= i % l != j % l;
                for (g, d) in [(got, "first asked about second"), (back, "second asked about first")] {
                    ensure(g == want, "verdict", || {
                        format!(
                            "equivalent_to ({d}) says {g}, but they are {}equivalent\nfirst: {}\nsecond: {}",
                            if want { "" } else { "not " },
                            ax.describe(),
                            ay.describe()
                        )
                    })?;
                }
                obs = format!("{got}");
            }
        }
        ctx.ev(format!("{op:?} -> {obs}"));
        log.push(obs);
        if let Some(x) = new {
            if x.a().len() <= 80 {
                pool.push(x);
            }
        }
        for (k, p) in pool.iter().enumerate() {
            let same = match p {
                Au::D(d, a) => of_dfa("automaton", d)? == *a,
                Au::N(d, a) => of_nfa("automaton", d)? == *a,
            };
            ensure(same, "operand-changed", || format!("automaton {k} changed during {op:?}"))?;
        }
    }
    Ok(log)
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    if c.base.is_empty() {
        return invalid("no automata");
    }
    let base = c.base.iter().map(|(d, a)| Ok((*d, a.fix(*d)?))).collect::<R<Vec<_>>>()?;
    let mut first: Option<Vec<String>> = None;
    for &e in &c.entropy {
        let log = ctx.thread(e, |ctx| drive(c, &base, ctx))?;
        match &first {
            None => first = Some(log),
            Some(f) => ensure(*f == log, "seed-dependent", || format!("verdicts or numbers of states depend on the hash seed\n{f:?}\n{log:?}"))?,
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C07",
        gen,
        run,
        quick: 350_000,
        thorough: 10_000_000,
        level: "exploration",
        rule: "two to four seeded related automata (equal language in another shape, one difference, other alphabet, other kind) and a seeded history of conversions, reductions and equivalence questions in both directions under 1 to 3 hash seeds; answers compared with the reference subset construction; non-trivial: two different automata were compared or a determinisation gave more than two states",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: ENTROPY_STUB,
    }
}
