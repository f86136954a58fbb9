//! C09: sessions that save, crash and recover.
use super::*;
use dandy::regex::Regex;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    base: Vec<(bool, Aut)>,
    rx: Vec<Rx>,
    style: u64,
    ops: Vec<Op>,
    /// positions in `ops` after which the process crashes, losing everything unsaved
    crashes: Vec<usize>,
    /// hash seeds of the successive processes
    entropy: Vec<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    /// write every object's table to the durable store (plain or ASCII) and commit
    Save(bool),
    Minimize(usize),
    Merge(usize),
    Trim(usize),
    Invert(usize),
    RemoveEps(usize),
    Optimize(usize),
    ToDfa(usize),
    ToNfa(usize),
    UnionN(usize, usize),
    ProdD(usize, usize, u8),
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: if thorough { 9 } else { 7 }, max_syms: gen::syms(r, 4), big: true, mid: true };
    let mut base = vec![];
    for _ in 0..r.range(1, 3) {
        if let Some((d, a)) = base.last().filter(|_| r.chance(1, 2)).cloned() {
            let a: Aut = gen::related(r, &a, d, &size);
            base.push((d, a));
        } else if r.chance(1, 2) {
            base.push((true, gen::dfa(r, &size, None)));
        } else {
            let e = r.chance(1, 2);
            base.push((false, gen::nfa(r, &size, None, e)));
        }
    }
    let rx = (0..r.below(3)).map(|_| if r.chance(1, 3) { gen::regex_odd(r, 8) } else { gen::regex(r, 10, false) }).collect::<Vec<_>>();
    let n = r.range(1, if thorough { 16 } else { 10 });
    let ops: Vec<Op> = (0..n)
        .map(|_| {
            let i = r.below(6);
            let j = r.below(6);
            match r.below(14) {
                0..=3 => Op::Save(r.chance(1, 2)),
                4 => Op::Minimize(i),
                5 => Op::Merge(i),
                6 => Op::Trim(i),
                7 => Op::Invert(i),
                8 => Op::RemoveEps(i),
                9 => Op::Optimize(i),
                10 => Op::ToDfa(i),
                11 => Op::ToNfa(i),
                12 => Op::UnionN(i, j),
                _ => Op::ProdD(i, j, r.below(4) as u8),
            }
        })
        .collect();
    let vast = gen::vast(r, true).map(|a| (true, a)).or_else(|| gen::vast(r, false).map(|a| (false, a)));
    if let Some(v) = vast {
        let crashes = vec![1; r.below(2)];
        let ops = vec![Op::Save(r.chance(1, 2)), if r.chance(1, 2) { Op::Invert(0) } else { Op::ToNfa(0) }, Op::Save(r.chance(1, 2))];
        return Case { base: vec![v], rx: vec![], style: r.seed() * (r.below(2) as u64), ops, crashes, entropy: vec![r.seed(), r.seed()] };
    }
    let crashes = (0..r.below(4)).map(|_| r.below(n)).collect();
    Case { base, rx, style: r.seed() * (r.below(2) as u64), ops, crashes, entropy: (0..r.range(2, 5)).map(|_| r.seed()).collect() }
}

#[derive(Clone)]
enum Au {
    D(Dfa),
    N(Nfa),
}
impl Au {
    fn aut(&self) -> R<Aut> {
        match self {
            Au::D(d) => of_dfa("DFA", d),
            Au::N(d) => of_nfa("NFA", d),
        }
    }
}

fn storable(a: &Aut, dfa: bool) -> bool {
    (!dfa || !a.alpha.is_empty()) && a.alpha.iter().all(|s| token_ok(s)) && a.st.iter().all(|s| token_ok(&s.n))
}

fn load(dfa: bool, t: &str) -> R<Au> {
    let r: Result<Au, String> = if dfa {
        dandy::parser::dfa(t).map_err(|e| format!("{e:?}")).and_then(|p| p.try_into().map(Au::D).map_err(|e: dandy::dfa::parse::DfaParseError| e.to_string()))
    } else {
        dandy::parser::nfa(t).map_err(|e| format!("{e:?}")).and_then(|p| p.try_into().map(Au::N).map_err(|e: dandy::nfa::parse::NfaParseError| e.to_string()))
    };
    match r {
        Ok(x) => Ok(x),
        Err(e) => viol("unreadable", format!("a saved table cannot be read back: {e}\n{t}")),
    }
}

/// Where the cells of a line of a table begin; what stands in braces is one cell.
fn cells(line: &str) -> Vec<usize> {
    let (mut v, mut inside, mut blank) = (vec![], false, true);
    for (i, c) in line.chars().enumerate() {
        if blank && !inside && c != ' ' {
            v.push(i);
        }
        match c {
            '{' => inside = true,
            '}' => inside = false,
            _ => {}
        }
        blank = c == ' ';
    }
    v
}

/// The names, and the columns of each symbol, stand below one another.
fn lined_up(t: &str) -> R {
    let rows: Vec<Vec<usize>> = t.split('\n').filter(|l| !l.trim().is_empty()).map(cells).collect();
    let Some((head, rest)) = rows.split_first() else { return Ok(()) };
    let k = head.len();
    let shown = |what: String| move || format!("{what} do not stand below one another in\n{t}");
    let name = rest.first().and_then(|r| r.len().checked_sub(k + 1).map(|i| r[i]));
    for r in rest {
        let Some(i) = r.len().checked_sub(k + 1) else { return viol("columns", shown("the cells".into())()) };
        ensure(Some(r[i]) == name, "columns", shown("the names of the states".into()))?;
        for j in 0..k {
            ensure(r[i + 1 + j] == head[j], "columns", shown(format!("the cells of column {}", j + 1)))?;
        }
    }
    Ok(())
}

/// Prints both tables of an object, reads them back and compares.
fn roundtrip(x: &Au, ascii: bool, ctx: &mut Ctx) -> R<String> {
    let a = x.aut()?;
    let mut text = String::new();
    let both = match x {
        Au::D(d) => [d.to_table(), d.ascii_table()],
        Au::N(d) => [d.to_table(), d.ascii_table()],
    };
    for (k, t) in both.iter().enumerate() {
        ctx.hit(if k == 0 { "op:to_table and back" } else { "op:ascii_table and back" });
        let dfa = matches!(x, Au::D(_));
        if storable(&a, dfa) {
            let back = load(dfa, t)?.aut()?;
            ensure(same_sets(&back, &a), "roundtrip", || {
                format!("a saved automaton is read back differently\nsaved: {}\nread: {}\ntext:\n{t}", a.describe(), back.describe())
            })?;
            lined_up(t)?;
            if k == 1 {
                ensure(a.alpha.iter().chain(a.st.iter().map(|s| &s.n)).any(|s| !s.is_ascii()) || t.is_ascii(), "not-ascii", || {
                    format!("the ASCII table of an automaton with ASCII names is not ASCII:\n{t}")
                })?;
            }
        } else {
            ctx.hit("tables not re-read: names outside the file format");
        }
        if (k == 1) == ascii {
            text = t.clone();
        }
    }
    Ok(text)
}

fn apply(op: &Op, pool: &mut [Au], ctx: &mut Ctx) -> R {
    let l = pool.len();
    let upd = |pool: &mut [Au], i: &usize, f: &dyn Fn(&Au) -> Option<Au>| {
        if let Some(n) = f(&pool[i % l]) {
            pool[i % l] = n;
        }
    };
    match op {
        Op::Save(_) => {}
        Op::Minimize(i) | Op::Merge(i) | Op::Trim(i) | Op::Invert(i) | Op::RemoveEps(i) | Op::Optimize(i) => {
            ctx.hit("op:transform");
            match (op, &mut pool[i % l]) {
                (Op::Minimize(_), Au::D(d)) => d.minimize(),
                (Op::Merge(_), Au::D(d)) => d.merge_nondistinguishable_states(),
                (Op::Trim(_), Au::D(d)) => d.remove_unreachable_states(),
                (Op::Invert(_), Au::D(d)) => d.invert(),
                (Op::Trim(_), Au::N(d)) => d.remove_unreachable_states(),
                (Op::RemoveEps(_), Au::N(d)) => d.remove_epsilon_moves(),
                (Op::Optimize(_), Au::N(d)) => d.optimize(),
                _ => {}
            }
        }
        Op::ToDfa(i) => upd(pool, i, &|x| match x {
            Au::N(n) => {
                let a = x.aut().ok()?;
                a.det(&a.alpha, 60).ok()?;
                Some(Au::D(n.to_dfa()))
            }
            _ => None,
        }),
        Op::ToNfa(i) => upd(pool, i, &|x| match x {
            Au::D(d) => Some(Au::N(d.clone().to_nfa())),
            _ => None,
        }),
        Op::UnionN(i, j) => {
            if let (Au::N(a), Au::N(b)) = (&pool[i % l], &pool[j % l]) {
                if a.states().len() + b.states().len() <= 30 {
                    if let Ok(n) = a.clone().union(b.clone()) {
                        pool[i % l] = Au::N(n);
                    }
                }
            }
        }
        Op::ProdD(i, j, k) => {
            if let (Au::D(a), Au::D(b)) = (&pool[i % l], &pool[j % l]) {
                if a.states().len() * b.states().len() <= 100 {
                    let n = match k % 4 {
                        0 => a.union(b),
                        1 => a.intersection(b),
                        2 => a.difference(b),
                        _ => a.symmetric_difference(b),
                    };
                    if let Some(n) = n {
                        pool[i % l] = Au::D(n);
                    }
                }
            }
        }
    }
    Ok(())
}

/// One process: starts from `disk` (position in the history, tables), runs up to `until`; returns the last committed
/// save and what is in memory.
type Disk = (usize, Vec<(bool, String)>);
fn process(c: &Case, disk: Disk, until: usize, ctx: &mut Ctx) -> R<(Disk, Vec<(bool, Aut)>)> {
    let mut pool = vec![];
    for (d, t) in &disk.1 {
        pool.push(load(*d, t)?);
    }
    let mut disk = disk;
    for (k, op) in c.ops.iter().enumerate().take(until).skip(disk.0) {
        apply(op, &mut pool, ctx)?;
        let mut texts = vec![];
        for x in &pool {
            let ascii = matches!(op, Op::Save(true));
            let t = if matches!(op, Op::Save(_)) { roundtrip(x, ascii, ctx)? } else { String::new() };
            texts.push((matches!(x, Au::D(_)), t));
        }
        if matches!(op, Op::Save(_)) {
            let mut ok = true;
            for x in &pool {
                ok &= storable(&x.aut()?, matches!(x, Au::D(_)));
            }
            if ok {
                ctx.hit("op:save");
                disk = (k + 1, texts);
            }
        }
        ctx.ev(format!("{k} {op:?}"));
    }
    let mut mem = vec![];
    for x in &pool {
        roundtrip(x, false, ctx)?;
        mem.push((matches!(x, Au::D(_)), x.aut()?));
    }
    Ok((disk, mem))
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    if c.base.is_empty() || c.entropy.is_empty() {
        return invalid("nothing to do");
    }
    for (i, rx) in c.rx.iter().enumerate() {
        let rx = rx.fix();
        let text = gen::print_regex(&rx, mix(c.style, i as u64));
        ctx.thread(mix(c.entropy[0], i as u64), |ctx| {
            let Ok(x) = dandy::parser::regex(&text) else { return invalid("not read") };
            let built = Regex { tree: super::c08::tree(&rx, &mut Rng::new(mix(c.entropy[0], i as u64))) };
            for x in [x, built] {
                let p = x.to_string();
                ctx.hit("op:regex to_string and back");
                let back = match dandy::parser::regex(&p) {
                    Ok(b) => b,
                    Err(e) => return viol("regex-unreadable", format!("{text:?}, read or built, is printed as {p:?}, which cannot be read: {e:?}")),
                };
                let (a, b) = (of_nfa("NFA", &x.to_nfa())?, of_nfa("NFA", &back.to_nfa())?);
                ensure(a.alpha == b.alpha, "regex-roundtrip", || format!("{text:?}, read or built, is printed as {p:?}, whose characters are {:?} instead of {:?}", b.alpha, a.alpha))?;
                if let Some(w) = lang_diff(&a, &b)? {
                    return viol("regex-roundtrip", format!("{text:?}, read or built, is printed as {p:?}, which differs on {w:?}"));
                }
                ctx.ev(p);
            }
            Ok(())
        })?;
    }
    let mut disk0 = vec![];
    for (i, (d, a)) in c.base.iter().enumerate() {
        let a = a.fix(*d)?;
        let s = if c.style == 0 { 0 } else { c.style + i as u64 };
        disk0.push((*d, gen::print_table(&a, *d, s)));
    }
    let n = c.ops.len();
    // the undisturbed session
    let (_, want) = ctx.thread(c.entropy[0], |ctx| process(c, (0, disk0.clone()), n, ctx))?;
    // the same session with crashes, each restart in a new process
    let mut crashes: Vec<usize> = c.crashes.iter().map(|x| x % n.max(1)).collect();
    crashes.sort();
    let mut disk: Disk = (0, disk0);
    for (k, at) in crashes.iter().enumerate() {
        let e = c.entropy[(k + 1) % c.entropy.len()];
        let d = disk.clone();
        disk = ctx.thread(e, |ctx| process(c, d, at + 1, ctx))?.0;
        ctx.hit("fault:crash and restart from the last save");
    }
    let e = mix(c.entropy[c.entropy.len() - 1], 77);
    let (_, got) = ctx.thread(e, |ctx| process(c, disk, n, ctx))?;
    ensure(got.len() == want.len(), "recovery", || "objects were lost".into())?;
    for (i, ((d1, g), (d2, w))) in got.iter().zip(&want).enumerate() {
        // names and order of states may depend on hash seeds (reductions choose among equivalent states)
        ensure(d1 == d2 && g.alpha == w.alpha && g.len() == w.len(), "recovery", || {
            format!("object {i} after crashes and recovery: {}\nwithout crashes: {}", g.describe(), w.describe())
        })?;
        match (g.det_self(), w.det_self()) {
            (Ok(x), Ok(y)) => ensure(x.diff(&y).is_none(), "recovery", || {
                format!("object {i} accepts another language after crashes and recovery: {}\nwithout crashes: {}", g.describe(), w.describe())
            })?,
            _ => ctx.hit("languages not compared: too large"),
        }
    }
    ctx.nontrivial |= n > 1 && c.base.iter().any(|(_, a)| a.len() > 1);
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C09",
        gen,
        run,
        quick: 60_000,
        thorough: 800_000,
        level: "exploration",
        rule: "a seeded session of loads, transformations and saves over one to three automata, executed once undisturbed and once with seeded crashes after which a new process (new hash seeds) recovers from the last committed tables and re-does the rest; every object's plain and ASCII table is read back at every save; printed regular expressions are read back; non-trivial: at least two operations on an automaton with more than one state",
        assumptions: BASE_ASSUME,
        real: LIB,
        stub: &["operating-system entropy: seeded per simulated process", "the disk holding saved tables: in memory, saves atomic"],
    }
}
