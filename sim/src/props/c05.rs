//! C05: programs of NFA union, intersection and product.
use super::*;
use dandy::nfa::NfaState;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    base: Vec<Aut>,
    style: u64,
    entropy: u64,
    ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Union(usize, usize),
    Inter(usize, usize),
    /// product with a predicate over pairs of states given by a truth table and a salt over the names
    Prod(usize, usize, u64, u64),
    /// the documented way of forming the union by a product
    ProdUnion(usize, usize),
    /// the caller's predicate panics at its n-th call
    PredicateCrash(usize, usize, u64),
    RemoveEps(usize),
    Reload(usize, u64),
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: if thorough { 6 } else { 5 }, max_syms: gen::syms(r, 3), big: false, mid: r.chance(1, 2) };
    let e = r.chance(2, 3);
    let wide = gen::wide(r);
    let a = gen::nfa(r, &size, wide, e);
    let mut base = vec![a.clone()];
    for _ in 0..r.range(1, 2) {
        let b = if r.chance(1, 2) {
            let mut alpha = a.alpha.clone();
            gen::order(r, &mut alpha);
            let e = r.chance(1, 2);
            gen::nfa(r, &size, Some(alpha), e)
        } else {
            gen::related(r, &a, false, &size)
        };
        base.push(b);
    }
    gen::clashing(r, &mut base);
    let n = r.range(1, if thorough { 6 } else { 4 });
    let mut k = base.len();
    let ops = (0..n)
        .map(|_| {
            let i = r.below(k);
            let j = r.below(k);
            k += 1;
            match r.below(14) {
                0..=3 => Op::Union(i, j),
                4..=6 => Op::Inter(i, j),
                7..=8 => Op::Prod(i, j, r.below(16) as u64, if r.chance(1, 2) { 0 } else { r.seed() }),
                9..=10 => Op::ProdUnion(i, j),
                11 => Op::PredicateCrash(i, j, r.below(6) as u64),
                12 => Op::RemoveEps(i),
                _ => Op::Reload(i, r.seed()),
            }
        })
        .collect();
    Case { base, style: r.seed() * (r.below(2) as u64), entropy: r.seed(), ops }
}

fn pred(tt: u64, salt: u64, an: &str, aa: bool, bn: &str, ba: bool) -> bool {
    let x = tt >> (aa as u64 * 2 + ba as u64) & 1 == 1;
    if salt == 0 {
        x
    } else {
        x ^ (mix(mix(salt, hash_str(an)), hash_str(bn)) & 3 == 0)
    }
}

/// Words leading to a pair of states (one of each automaton) that satisfies `f`.
fn pairs(a: &Aut, b: &Aut, f: &dyn Fn(&St, &St) -> bool) -> R<Det> {
    let da = a.det(&a.alpha, 400)?;
    let db = b.det(&a.alpha, 400)?;
    let mut ids: BTreeMap<(usize, usize), usize> = BTreeMap::from([((0, 0), 0)]);
    let mut list = vec![(0, 0)];
    let mut tr = vec![];
    let mut i = 0;
    while i < list.len() {
        if i > 3000 {
            return invalid("too large");
        }
        let (p, q) = list[i];
        let mut row = vec![];
        for k in 0..a.alpha.len() {
            let n = (da.tr[p][k], db.tr[q][k]);
            let m = list.len();
            let id = *ids.entry(n).or_insert(m);
            if id == m {
                list.push(n);
            }
            row.push(id);
        }
        tr.push(row);
        i += 1;
    }
    let acc = list
        .iter()
        .map(|&(p, q)| da.sets[p].iter().any(|x| db.sets[q].iter().any(|y| f(&a.st[x], &b.st[y]))))
        .collect();
    Ok(Det { alpha: a.alpha.clone(), tr, acc, sets: vec![] })
}

fn drive(c: &Case, base: &[Aut], ctx: &mut Ctx) -> R {
    let mut pool: Vec<(Nfa, Aut)> = vec![];
    for (i, a) in base.iter().enumerate() {
        let s = if c.style == 0 { 0 } else { c.style + i as u64 };
        let n = mk_nfa(a, s)?;
        let a = of_nfa("loaded NFA", &n)?;
        pool.push((n, a));
    }
    for op in &c.ops {
        let l = pool.len();
        let at = |i: &usize| i % l;
        let mut res: Option<(Nfa, Aut)> = None;
        match op {
            Op::RemoveEps(i) => {
                ctx.hit("op:remove_epsilon_moves");
                let (d, a) = &pool[at(i)];
                let mut n = d.clone();
                n.remove_epsilon_moves();
                let got = of_nfa("NFA without ε-moves", &n)?;
                ensure_same_lang("language", "remove_epsilon_moves", &got, a)?;
                res = Some((n, got));
            }
            Op::Reload(i, s) => {
                let a = pool[at(i)].1.clone();
                if a.alpha.is_empty() && !a.has_eps() && a.st.iter().all(|s| s.t.is_empty()) && s % 2 == 0 {
                    continue;
                }
                let n = mk_nfa(&a, *s)?;
                let a = of_nfa("reloaded NFA", &n)?;
                res = Some((n, a));
            }
            Op::PredicateCrash(i, j, at_call) => {
                let ((d1, _), (d2, _)) = (&pool[at(i)], &pool[at(j)]);
                let mut left = *at_call;
                let r = guarded(|| {
                    d1.product_construction(d2, |_, _| {
                        if left == 0 {
                            panic!("predicate crashed");
                        }
                        left -= 1;
                        true
                    })
                });
                if let Err(m) = r {
                    ensure(m.contains("predicate crashed"), "panic", || format!("product_construction panicked: {m}"))?;
                    ctx.hit("fault:caller's predicate panicked");
                }
            }
            Op::Union(i, j) | Op::Inter(i, j) | Op::Prod(i, j, _, _) | Op::ProdUnion(i, j) => {
                let ((d1, a1), (d2, a2)) = (&pool[at(i)], &pool[at(j)]);
                if !matches!(op, Op::Union(..)) && a1.len() * a2.len() > 160 {
                    ctx.hit("operations skipped: too large");
                    continue;
                }
                let same = a1.alpha_set() == a2.alpha_set();
                let want = if same {
                    let w = pairs(a1, a2, &|s, t| match op {
                        Op::Inter(..) => s.a && t.a,
                        Op::Prod(_, _, tt, salt) => pred(*tt, *salt, &s.n, s.a, &t.n, t.a),
                        _ => false,
                    });
                    let w = match (op, w) {
                        (_, Err(Stop::Invalid(_))) => {
                            ctx.hit("operations skipped: too large");
                            continue;
                        }
                        (Op::Union(..) | Op::ProdUnion(..), _) => {
                            let (da, db) = (a1.det(&a1.alpha, 400)?, a2.det(&a1.alpha, 400)?);
                            Ok(da.combine(&db, |x, y| x || y))
                        }
                        (_, w) => w,
                    };
                    Some(w?)
                } else {
                    None
                };
                let name;
                let got: Option<Nfa> = match op {
                    Op::Union(..) => {
                        name = "op:union";
                        match d1.clone().union(d2.clone()) {
                            Ok(n) => Some(n),
                            Err((x, y)) => {
                                let (x, y) = (of_nfa("first operand", &x)?, of_nfa("second operand", &y)?);
                                ensure(x == *a1 && y == *a2, "refusal", || "a refused union handed back other automata than it was given".into())?;
                                None
                            }
                        }
                    }
                    Op::Inter(..) => {
                        name = "op:intersection";
                        d1.intersection(d2)
                    }
                    Op::ProdUnion(..) => {
                        name = "op:product_construction as union";
                        d1.product_construction(d2, |s: Option<&NfaState>, t: Option<&NfaState>| {
                            s.is_some_and(|s| s.is_accepting()) || t.is_some_and(|t| t.is_accepting())
                        })
                    }
                    Op::Prod(_, _, tt, salt) => {
                        name = "op:product_construction";
                        d1.product_construction(d2, |s: Option<&NfaState>, t: Option<&NfaState>| match (s, t) {
                            (Some(s), Some(t)) => pred(*tt, *salt, s.name(), s.is_accepting(), t.name(), t.is_accepting()),
                            _ => false,
                        })
                    }
                    _ => unreachable!(),
                };
                ctx.hit(name);
                ensure(got.is_some() == same, "refusal", || {
                    format!("{op:?} of NFAs over {:?} and {:?} {}", a1.alpha, a2.alpha, if same { "was refused" } else { "was not refused" })
                })?;
                match (got, want) {
                    (Some(n), Some(want)) => {
                        let got = of_nfa("result", &n)?;
                        if got.alpha_set() != a1.alpha_set() {
                            return viol("alphabet", format!("{op:?} gives an NFA over {:?} from {:?}", got.alpha, a1.alpha));
                        }
                        let dg = match got.det(&want.alpha, 4000) {
                            Ok(x) => x,
                            Err(_) => {
                                ctx.hit("operations skipped: too large");
                                continue;
                            }
                        };
                        if let Some(w) = dg.diff(&want) {
                            let should = want.to_aut().accepts(&strs(&w));
                            return viol(
                                "language",
                                format!(
                                    "{op:?}: word {w:?} must {}be accepted\nfirst: {}\nsecond: {}\nresult: {}",
                                    if should { "" } else { "not " },
                                    a1.describe(),
                                    a2.describe(),
                                    got.describe()
                                ),
                            );
                        }
                        ctx.nontrivial |= at(i) != at(j) && a1.len() > 1;
                        res = Some((n, got));
                    }
                    _ => ctx.hit("refused: different alphabets"),
                }
            }
        };
        // (names and state order of a product may depend on the hash seed, the language may not)
        let min = match &res {
            Some((_, a)) => a.det_self().map(|d| d.min_count()).unwrap_or(0),
            None => 0,
        };
        ctx.ev(format!("{op:?} -> language with {min} residuals"));
        if let Some(x) = res {
            if x.1.len() <= 40 {
                pool.push(x);
            }
        }
        for (k, (d, a)) in pool.iter().enumerate() {
            ensure(of_nfa("operand", d)? == *a, "operand-changed", || format!("automaton {k} changed during {op:?}"))?;
        }
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    if c.base.is_empty() {
        return invalid("no automata");
    }
    let base = c.base.iter().map(|a| a.fix(false)).collect::<R<Vec<_>>>()?;
    ctx.thread(c.entropy, |ctx| drive(c, &base, ctx))
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C05",
        gen,
        run,
        quick: 400_000,
        thorough: 10_000_000,
        level: "exploration",
        rule: "two or three seeded NFAs (with or without ε-moves, permuted, equal, near-equal or different alphabets, clashing and confusing names) and a seeded program of unions, intersections, products and ε-removals on them and on earlier results, with panicking predicates as faults; each result's language compared with the reference sets of reachable pairs, every operand re-read afterwards; non-trivial: two different automata were combined",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: ENTROPY_STUB,
    }
}
