//! C04: programs of DFA set operations.
use super::*;
use dandy::dfa::DfaState;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    base: Vec<Aut>,
    style: u64,
    entropy: u64,
    ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Union(usize, usize),
    Inter(usize, usize),
    Diff(usize, usize),
    Sym(usize, usize),
    /// product with the predicate given by a truth table over (accepting, accepting) and a salt over the names
    Prod(usize, usize, u64, u64),
    Invert(usize),
    Minimize(usize),
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: if thorough { 8 } else { 6 }, max_syms: gen::syms(r, 3), big: true, mid: true };
    let a = gen::dfa(r, &size, None);
    let mut base = vec![a.clone()];
    for _ in 0..r.range(1, 2) {
        let b = if r.chance(1, 3) {
            let mut alpha = a.alpha.clone();
            gen::order(r, &mut alpha);
            gen::dfa(r, &size, Some(alpha))
        } else {
            gen::related(r, &a, true, &size)
        };
        base.push(b);
    }
    gen::clashing(r, &mut base);
    let n = r.range(1, if thorough { 8 } else { 5 });
    let mut k = base.len();
    let ops = (0..n)
        .map(|_| {
            let i = r.below(k);
            let j = r.below(k);
            k += 1;
            match r.below(12) {
                0 | 1 => Op::Union(i, j),
                2 | 3 => Op::Inter(i, j),
                4 | 5 => Op::Diff(i, j),
                6 | 7 => Op::Sym(i, j),
                8 | 9 => Op::Prod(i, j, r.below(16) as u64, if r.chance(1, 2) { 0 } else { r.seed() }),
                10 => Op::Invert(i),
                _ => Op::Minimize(i),
            }
        })
        .collect();
    Case { base, style: r.seed() * (r.below(2) as u64), entropy: r.seed(), ops }
}

fn pred(tt: u64, salt: u64, an: &str, aa: bool, bn: &str, ba: bool) -> bool {
    let x = tt >> (aa as u64 * 2 + ba as u64) & 1 == 1;
    if salt == 0 {
        x
    } else {
        x ^ (mix(mix(salt, hash_str(an)), hash_str(bn)) & 3 == 0)
    }
}

/// reference: the reachable pairs with their transitions, over `a`'s alphabet
fn pairs(a: &Aut, b: &Aut, f: &dyn Fn(&St, &St) -> bool) -> Aut {
    let map: Vec<usize> = a.alpha.iter().map(|s| b.sym(s).unwrap()).collect();
    let mut list = vec![(a.init, b.init)];
    let mut ids = std::collections::BTreeMap::from([((a.init, b.init), 0)]);
    let mut st = vec![];
    let mut i = 0;
    while i < list.len() {
        let (p, q) = list[i];
        let mut t = vec![];
        for k in 0..a.alpha.len() {
            let n = (a.st[p].t[k][0], b.st[q].t[map[k]][0]);
            let id = *ids.entry(n).or_insert(list.len());
            if id == list.len() {
                list.push(n);
            }
            t.push(vec![id]);
        }
        st.push(St { n: format!("p{i}"), a: f(&a.st[p], &b.st[q]), t, e: vec![] });
        i += 1;
    }
    Aut { alpha: a.alpha.clone(), st, init: 0 }
}

fn drive(c: &Case, base: &[Aut], ctx: &mut Ctx) -> R {
    let mut pool: Vec<(Dfa, Aut)> = vec![];
    for (i, a) in base.iter().enumerate() {
        let s = if c.style == 0 { 0 } else { c.style + i as u64 };
        pool.push((mk_dfa(a, s)?, a.clone()));
    }
    for op in &c.ops {
        let l = pool.len();
        let at = |i: &usize| i % l;
        let res: Option<(Dfa, Aut)> = match op {
            Op::Invert(i) => {
                ctx.hit("op:invert");
                let (d, a) = &pool[at(i)];
                let mut n = d.clone();
                n.invert();
                let got = of_dfa("inverted DFA", &n)?;
                let da = a.det_self()?;
                let all = da.combine(&da, |x, _| !x);
                ensure_same_lang("invert", "invert", &got, &all.to_aut())?;
                let mut back = n.clone();
                back.invert();
                ensure(of_dfa("twice inverted DFA", &back)? == *a, "invert", || "inverting twice is not the identity".into())?;
                Some((n, got))
            }
            Op::Minimize(i) => {
                let (d, _) = &pool[at(i)];
                let mut n = d.clone();
                n.minimize();
                let got = of_dfa("minimised DFA", &n)?;
                Some((n, got))
            }
            Op::Union(i, j) | Op::Inter(i, j) | Op::Diff(i, j) | Op::Sym(i, j) | Op::Prod(i, j, _, _) => {
                let ((d1, a1), (d2, a2)) = (&pool[at(i)], &pool[at(j)]);
                if a1.len() * a2.len() > 900 && c.ops.len() > 3 || a1.len() * a2.len() > 22_000 {
                    ctx.hit("operations skipped: too large");
                    continue;
                }
                let got = match op {
                    Op::Union(..) => d1.union(d2),
                    Op::Inter(..) => d1.intersection(d2),
                    Op::Diff(..) => d1.difference(d2),
                    Op::Sym(..) => d1.symmetric_difference(d2),
                    Op::Prod(_, _, tt, salt) => d1.product_construction(d2, |s: &DfaState, t: &DfaState| {
                        pred(*tt, *salt, s.name(), s.is_accepting(), t.name(), t.is_accepting())
                    }),
                    _ => unreachable!(),
                };
                let name = match op {
                    Op::Union(..) => "op:union",
                    Op::Inter(..) => "op:intersection",
                    Op::Diff(..) => "op:difference",
                    Op::Sym(..) => "op:symmetric_difference",
                    _ => "op:product_construction",
                };
                ctx.hit(name);
                let same = a1.alpha_set() == a2.alpha_set();
                ensure(got.is_some() == same, "refusal", || {
                    format!("{op:?} of DFAs over {:?} and {:?} {}", a1.alpha, a2.alpha, if same { "was refused" } else { "was not refused" })
                })?;
                match got {
                    None => {
                        ctx.hit("refused: different alphabets");
                        None
                    }
                    Some(n) => {
                        let got = of_dfa("result", &n)?;
                        let want = pairs(a1, a2, &|s, t| match op {
                            Op::Union(..) => s.a || t.a,
                            Op::Inter(..) => s.a && t.a,
                            Op::Diff(..) => s.a && !t.a,
                            Op::Sym(..) => s.a != t.a,
                            Op::Prod(_, _, tt, salt) => pred(*tt, *salt, &s.n, s.a, &t.n, t.a),
                            _ => unreachable!(),
                        });
                        ensure(got.alpha == a1.alpha, "alphabet", || format!("the result lists {:?} instead of the first operand's {:?}", got.alpha, a1.alpha))?;
                        ensure_same_lang("language", &format!("{op:?}"), &got, &want)?;
                        ensure(got.reachable().len() == got.len(), "unreachable", || format!("{op:?} contains unreachable states: {}", got.describe()))?;
                        ctx.nontrivial |= a1.alpha != a2.alpha || !matches!(op, Op::Union(x, y) if x == y);
                        Some((n, got))
                    }
                }
            }
        };
        ctx.ev(format!("{op:?} -> {}", res.as_ref().map(|x| x.1.len().to_string()).unwrap_or_default()));
        if let Some(x) = res {
            if x.1.len() <= 60 {
                pool.push(x);
            }
        }
        for (k, (d, a)) in pool.iter().enumerate() {
            ensure(of_dfa("operand", d)? == *a, "operand-changed", || format!("automaton {k} changed during {op:?}"))?;
        }
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    if c.base.is_empty() {
        return invalid("no automata");
    }
    let base = c.base.iter().map(|a| a.fix(true)).collect::<R<Vec<_>>>()?;
    ctx.thread(c.entropy, |ctx| drive(c, &base, ctx))
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C04",
        gen,
        run,
        quick: 400_000,
        thorough: 10_000_000,
        level: "exploration",
        rule: "two or three related seeded DFAs (permuted, equal, near-equal or different alphabets, confusing names) and a seeded program of set operations on them and on earlier results; each result compared with the reference pair automaton and every operand re-read afterwards; non-trivial: a product of two automata was formed",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: ENTROPY_STUB,
    }
}
