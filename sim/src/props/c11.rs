//! C11: ASCII art.
use super::pic::*;
use super::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    base: Vec<(bool, Aut)>,
    style: u64,
    order: Vec<usize>,
    entropy: Vec<u64>,
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let mut base: Vec<(bool, Aut)> = (0..r.range(1, 3)).map(|_| gen_aut(r, if thorough { 12 } else { 8 })).collect();
    if r.chance(1, 4) {
        // long labels in little room
        let (d, a) = &mut base[0];
        let k = a.alpha.len();
        for i in 0..r.range(1, 8) {
            a.alpha.push(if r.chance(1, 2) { format!("{}{}", r.pick(&["s", "é", "→x", "long_symbol", "😀"]), i + k) } else { format!("w{i}") });
            let n = a.len();
            for s in 0..n {
                let x = r.below(n);
                a.st[s].t.push(if *d || r.chance(1, 2) { vec![x] } else { vec![] });
            }
        }
    }
    let n = r.range(2, 6);
    let order = (0..n).map(|_| r.below(base.len())).collect();
    Case { base, style: r.seed() * (r.below(2) as u64), order, entropy: (0..r.range(2, 3)).map(|_| r.seed()).collect() }
}

fn check(a: &Aut, art: &str) -> R {
    let lines: Vec<&str> = art.split('\n').collect();
    let last = lines.last().unwrap();
    let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
    let mut want = vec![];
    for (i, s) in a.st.iter().enumerate() {
        let arrow = match i == a.init {
            true if i == 0 => "-> ",
            true => "> ",
            false => "",
        };
        want.push(format!("{arrow}{}", if s.a { format!("(( {} ))", s.n) } else { format!("( {} )", s.n) }));
    }
    // between two states there is room for the arrow's head alone
    let spaced = |s: &str| squeeze(&s.replace(")>(", ") > ("));
    ensure(spaced(last) == spaced(&want.join(" ")), "last-line", || format!("the last line is '{last}', expected '{}'", want.join(" ")))?;
    // positions of the states: the columns follow from the widest name
    let w = a.st.iter().map(|s| s.n.chars().count()).max().unwrap();
    let left = |i: usize| 5 + (7 + w) * i;
    let right = |i: usize| 6 + w + (7 + w) * i;
    let cells: Vec<char> = last.chars().collect();
    for (i, s) in a.st.iter().enumerate() {
        let at: String = cells.iter().skip(left(i) + 1).take(s.n.chars().count()).collect();
        ensure(at == s.n, "columns", || format!("state {} is not in its column: '{last}'", s.n))?;
    }
    // above it, pairs of rows, one pair per level: the lines with their heads, and the labels
    let rows: Vec<Vec<char>> = lines[..lines.len() - 1].iter().map(|l| l.chars().collect()).collect();
    let at = |row: &[char], col: usize| row.get(col).copied().unwrap_or(' ');
    let mut todo = groups(a);
    let heads: usize = rows.iter().step_by(2).flatten().filter(|c| "<>".contains(**c)).count();
    ensure(rows.len() % 2 == 0 && heads == todo.len(), "arrows", || format!("{heads} arrows for {} connections\n{art}", todo.len()))?;
    // which columns of a level's row of labels the arrows on that level run over
    let mut spans: Vec<Vec<(usize, usize)>> = vec![vec![]; rows.len() / 2];
    let mut placed = vec![];
    while let Some(((l, r, d), syms)) = todo.pop_first() {
        let (x0, x1) = if d == Dir::Spot { (left(l), right(r)) } else { (right(l), left(r)) };
        let head = match d {
            Dir::Left => (x1 - 1, '<'),
            Dir::Right => (x0 + 2, '>'),
            Dir::Spot => (x0 + 1, '>'),
        };
        let level = (0..rows.len() / 2).find(|k| {
            let row = &rows[2 * k];
            (x0..=x1).all(|x| at(row, x) == if x == head.0 { head.1 } else { '-' }) && at(row, x1 + 1) != '-' && (d == Dir::Spot || at(row, x0 - 1) != '-')
        });
        let Some(k) = level else {
            return viol("missing-arrow", format!("no line with its head from state {l} to state {r} ({d:?})\n{art}"));
        };
        if d != Dir::Spot {
            let from = x0 + 1;
            let width = syms.iter().map(|x| x.chars().count()).sum::<usize>() + 2 * (syms.len() - 1);
            // a label that fits under its arrow is never touched by others
            if from + width <= x1 {
                let t: String = (from..from + width).map(|x| at(&rows[2 * k + 1], x)).collect();
                let mut v: Vec<String> = t.split(", ").map(|x| x.to_string()).collect();
                v.sort();
                ensure(v == syms.iter().cloned().collect::<Vec<_>>(), "label", || format!("the label {syms:?} of the arrow {l}-{r} ({d:?}) reads '{t}'\n{art}"))?;
            }
            spans[k].push((x0, x0.max(from + width).max(x1)));
        }
        placed.push((k, x0, x1));
    }
    // both ends stand on bars that reach down to the states
    for (k, x0, x1) in placed {
        for x in [x0, x1] {
            for j in k..spans.len() {
                ensure(j == k || "|-<>".contains(at(&rows[2 * j], x)), "bars", || format!("the bar at column {x} has a gap\n{art}"))?;
                let covered = spans[j].iter().any(|(a, b)| *a < x && x <= *b);
                ensure(covered || at(&rows[2 * j + 1], x) == '|', "bars", || format!("the bar at column {x} has a gap\n{art}"))?;
            }
        }
    }
    Ok(())
}

fn drive(c: &Case, base: &[(bool, Aut)], ctx: &mut Ctx) -> R<Vec<Option<String>>> {
    let mut objs = vec![];
    for (i, (d, a)) in base.iter().enumerate() {
        let s = if c.style == 0 { 0 } else { c.style + i as u64 };
        objs.push(Obj::make(*d, a, s)?);
    }
    let mut shown: Vec<Option<String>> = vec![None; objs.len()];
    for i in &c.order {
        let i = i % objs.len();
        let art = match &objs[i] {
            Obj::D(d, _) => dandy_draw::dfa_ascii_art(d),
            Obj::N(d, _) => dandy_draw::nfa_ascii_art(d),
        };
        ctx.hit("op:ascii_art");
        match &shown[i] {
            Some(x) => ensure(*x == art, "redraw", || format!("automaton {i} is drawn differently the second time\n{x}\n{art}"))?,
            None => check(objs[i].aut(), &art)?,
        }
        objs[i].unchanged()?;
        ctx.ev(&art);
        ctx.nontrivial |= objs[i].aut().len() > 1;
        shown[i] = Some(art);
    }
    Ok(shown)
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    if c.base.is_empty() {
        return invalid("nothing to draw");
    }
    let base = c.base.iter().map(|(d, a)| Ok((*d, plain(a, *d)?))).collect::<R<Vec<_>>>()?;
    let mut first: Option<Vec<Option<String>>> = None;
    for &e in &c.entropy {
        let s = ctx.thread(e, |ctx| drive(c, &base, ctx))?;
        match &first {
            None => first = Some(s),
            Some(f) => ensure(*f == s, "seed-dependent", || format!("the ASCII art depends on the hash seed\n{f:?}\n{s:?}"))?,
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C11",
        gen,
        run,
        quick: 200_000,
        thorough: 6_000_000,
        level: "exploration",
        rule: "seeded automata with short and long names and labels, turned into ASCII art in a seeded order and repeatedly under 2 to 3 hash seeds; the last line, the columns, the lines with their heads, the bars and the labels are checked, the text compared with earlier ones; non-trivial: an automaton with more than one state",
        assumptions: BASE_ASSUME,
        real: &["dandy-draw (ascii art)", "dandy"],
        stub: ENTROPY_STUB,
    }
}
