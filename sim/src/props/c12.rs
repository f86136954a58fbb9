//! C12: the handle registry of the JavaScript bindings, as seen by several workers.
use super::*;
use crate::reader::{self, Read};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::mpsc;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    workers: usize,
    entropy: Vec<u64>,
    /// worker, operation
    steps: Vec<(usize, Op)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    LoadDfa(Aut, u64),
    LoadNfa(Aut, u64),
    LoadRegex(Rx, u64),
    /// a damaged or foreign text: 0 DFA, 1 NFA, 2 regex
    LoadText(u8, String),
    /// a text that this worker loaded before, once more or slightly changed
    LoadLike(usize, u64),
    RegexToNfa(H),
    DfaToNfa(H),
    NfaToDfa(H),
    Minimize(H),
    EqDfa(H, H),
    EqNfa(H, H),
    TableDfa(H),
    TableNfa(H),
    DelDfa(H),
    DelNfa(H),
    DelRegex(H),
    /// and the state of the page: see `perform`
    DrawDfa(H, u8),
    DrawNfa(H, u8),
    /// the worker is killed; a new one takes its place
    Crash(u64),
}
/// which handle a call is given
#[derive(Serialize, Deserialize, Clone, Debug)]
enum H {
    /// a live object of this worker of the kind the call wants
    Live(usize),
    /// any number ever issued to any worker
    Issued(usize),
    Raw(u64),
}

fn handle(r: &mut Rng) -> H {
    match r.below(12) {
        0 | 1 => H::Issued(r.below(64)),
        2 => H::Raw(*r.pick(&[0, 0, 1, 2, 3, 5, 1000, u32::MAX as u64, u64::MAX])),
        _ => H::Live(r.below(16)),
    }
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let long = r.chance(1, 250);
    let size = gen::Size { max_states: if long { 2 } else { 6 }, max_syms: if long { 1 } else { gen::syms(r, 3) }, big: false, mid: !long };
    let workers = if r.chance(1, 60) { r.range(4, 12) } else { r.range(1, 3) };
    let mut pool: Vec<(bool, Aut)> = vec![];
    for _ in 0..r.range(1, 3) {
        let d = r.chance(1, 2);
        let a = if d { gen::dfa(r, &size, None) } else { gen::nfa(r, &size, None, true) };
        pool.push((d, a));
    }
    let n = if long { r.range(300, 1200) } else { r.range(4, if thorough { 120 } else { 40 }) };
    let mut steps = vec![];
    // each run prefers some operations
    let load = r.range(3, 9);
    let (del, draw, crash) = (r.below(4), r.below(4), r.chance(1, 2));
    for i in 0..n {
        let w = r.below(workers);
        let total = 16 + load + del + draw;
        let x = r.below(total);
        let op = if x < load || i < 2 {
            match r.below(9) {
                8 => Op::LoadLike(if r.chance(2, 3) { 0 } else { r.below(4) }, r.seed()),
                0 => {
                    let t = match r.below(4) {
                        0 => String::new(),
                        1 => r.pick(&["a b\n-> x x y\n", "(a|b", "a\n-> s {s} {s}\n", "a a\n-> s s s\n", "a\ns s\n", "**", "a\n-> q {r}\n"]).to_string(),
                        2 => {
                            let (d, a) = r.pick(&pool).clone();
                            let t = a.fix(d).map(|a| gen::print_table(&a, d, 0)).unwrap_or_default();
                            let k = r.below(t.chars().count() + 1);
                            t.chars().take(k).collect()
                        }
                        _ => {
                            let (d, a) = r.pick(&pool).clone();
                            a.fix(d).map(|a| gen::print_table(&a, d, 0)).unwrap_or_default()
                        }
                    };
                    let k = r.below(3) as u8;
                    // (a wide table, read as an expression, makes an automaton of hundreds of states and symbols)
                    let t = if k == 2 { t.chars().take(120).collect() } else { t };
                    Op::LoadText(k, t)
                }
                1 | 2 => Op::LoadRegex(gen::regex(r, if long { 2 } else { 8 }, r.clone().chance(2, 3)), r.seed() * r.below(2) as u64),
                _ => {
                    let (d, a) = r.pick(&pool).clone();
                    let b = if r.chance(1, 2) { gen::related(r, &a, d, &size) } else { a.clone() };
                    let a = if gen::tame(&b) { b } else { a };
                    let s = r.seed() * r.below(2) as u64;
                    if d {
                        Op::LoadDfa(a, s)
                    } else {
                        Op::LoadNfa(a, s)
                    }
                }
            }
        } else if x < load + del {
            let h = handle(r);
            match r.below(3) {
                0 => Op::DelDfa(h),
                1 => Op::DelNfa(h),
                _ => Op::DelRegex(h),
            }
        } else if x < load + del + draw {
            let h = handle(r);
            let pg = *r.pick(&[0, 1, 2, 3, 4, 4, 4]);
            if r.chance(1, 2) {
                Op::DrawDfa(h, pg)
            } else {
                Op::DrawNfa(h, pg)
            }
        } else {
            let h = handle(r);
            match r.below(16) {
                0 | 1 => Op::RegexToNfa(h),
                2 | 3 => Op::DfaToNfa(h),
                4 | 5 => Op::NfaToDfa(h),
                6 | 7 => Op::Minimize(h),
                8 | 9 => Op::EqDfa(h, handle(r)),
                10 | 11 => Op::EqNfa(h, handle(r)),
                12 if crash && r.chance(1, 3) => Op::Crash(r.seed()),
                12 | 13 => Op::TableDfa(h),
                _ => Op::TableNfa(h),
            }
        };
        steps.push((w, op));
    }
    Case { workers, entropy: (0..workers).map(|_| r.seed()).collect(), steps }
}

#[derive(Clone, Debug)]
pub(super) enum Call {
    LoadDfa(String),
    LoadNfa(String),
    LoadRegex(String),
    RegexToNfa(usize),
    DfaToNfa(usize),
    NfaToDfa(usize),
    Minimize(usize),
    EqDfa(usize, usize),
    EqNfa(usize, usize),
    TableDfa(usize),
    TableNfa(usize),
    DelDfa(usize),
    DelNfa(usize),
    DelRegex(usize),
    DrawDfa(usize, u8),
    DrawNfa(usize, u8),
}
#[derive(Clone, Debug, PartialEq)]
pub(super) enum Reply {
    Loaded(Result<usize, String>),
    Key(Option<usize>),
    Yes(bool),
    Maybe(Option<bool>),
    Text(Option<String>),
    /// the result of a drawing call, the texts it drew
    Drawn(bool, Vec<String>),
    Panic(String),
}

/// a page 0: without a window, 1: without the canvas, 2: with something else of that name,
/// 3: with a canvas whose context is lost while drawing, otherwise: with the canvas
fn on_page(pg: u8, f: impl FnOnce() -> bool) -> Reply {
    use web_sys::sim::{page, Call, Ctx as C2d, El};
    page(|p| {
        p.window = pg != 0;
        p.document = pg != 0;
        p.elements = match pg {
            1 => vec![("other".into(), El::Canvas(C2d::Good))],
            2 => vec![("canvas".into(), El::Other)],
            _ => vec![("canvas".into(), El::Canvas(C2d::Good))],
        };
        p.fallible = 0;
        p.fail_at = (pg == 3).then_some(2);
        p.calls.clear();
    });
    let r = f();
    let t = page(|p| std::mem::take(&mut p.calls));
    Reply::Drawn(
        r,
        t.into_iter()
            .filter_map(|c| match c.1 {
                Call::FillText(t, ..) => Some(t),
                _ => None,
            })
            .collect(),
    )
}

pub(super) fn perform(c: Call) -> Reply {
    use dandy_wasm as w;
    let r = guarded(|| match c {
        Call::LoadDfa(t) => Reply::Loaded(w::load_dfa(&t)),
        Call::LoadNfa(t) => Reply::Loaded(w::load_nfa(&t)),
        Call::LoadRegex(t) => Reply::Loaded(w::load_regex(&t)),
        Call::RegexToNfa(h) => Reply::Key(w::regex_to_nfa(h)),
        Call::DfaToNfa(h) => Reply::Key(w::dfa_to_nfa(h)),
        Call::NfaToDfa(h) => Reply::Key(w::nfa_to_dfa(h)),
        Call::Minimize(h) => Reply::Yes(w::minimize_dfa(h)),
        Call::EqDfa(a, b) => Reply::Maybe(w::check_dfa_eq(a, b)),
        Call::EqNfa(a, b) => Reply::Maybe(w::check_nfa_eq(a, b)),
        Call::TableDfa(h) => Reply::Text(w::dfa_to_table(h)),
        Call::TableNfa(h) => Reply::Text(w::nfa_to_table(h)),
        Call::DelDfa(h) => Reply::Yes(w::delete_dfa(h)),
        Call::DelNfa(h) => Reply::Yes(w::delete_nfa(h)),
        Call::DelRegex(h) => Reply::Yes(w::delete_regex(h)),
        Call::DrawDfa(h, pg) => on_page(pg, || w::draw_dfa(h, "canvas")),
        Call::DrawNfa(h, pg) => on_page(pg, || w::draw_nfa(h, "canvas")),
    });
    r.unwrap_or_else(Reply::Panic)
}

/// A worker: a thread of its own (the bindings keep their registry per thread) that runs one call when told to.
struct Worker {
    tx: Option<mpsc::Sender<Call>>,
    rx: mpsc::Receiver<Reply>,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Worker {
    fn start(entropy: u64) -> Worker {
        let (tx, r) = mpsc::channel::<Call>();
        let (t, rx) = mpsc::channel();
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                set_entropy(entropy);
                while let Ok(c) = r.recv() {
                    if t.send(perform(c)).is_err() {
                        break;
                    }
                }
            })
            .expect("spawning a worker");
        Worker { tx: Some(tx), rx, h: Some(h) }
    }
    fn call(&self, c: Call) -> Reply {
        let _ = self.tx.as_ref().unwrap().send(c);
        self.rx.recv().unwrap_or_else(|_| Reply::Panic("the worker died".into()))
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        self.tx = None;
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}

#[derive(Clone, Debug)]
struct Obj {
    /// the language; for an object as loaded also its states
    aut: Aut,
    exact: bool,
    minimal: bool,
    /// its table once it was shown
    table: Option<String>,
}
#[derive(Default)]
struct Model {
    dfa: BTreeMap<usize, Obj>,
    nfa: BTreeMap<usize, Obj>,
    regex: BTreeMap<usize, Rx>,
    issued: BTreeSet<usize>,
    texts: Vec<(u8, String)>,
}

impl Model {
    fn new_key(&mut self, k: usize, what: &str) -> R {
        ensure(self.issued.insert(k), "handle-reuse", || format!("{what} returned handle {k}, which this worker was given before"))
    }
    fn shown(o: &mut Obj, t: &str, dfa: bool, what: &str) -> R {
        if let Some(x) = &o.table {
            return ensure(x == t, "table-changed", || format!("{what} is shown as\n{t}\nbut was shown as\n{x}"));
        }
        o.table = Some(t.to_string());
        if o.aut.alpha.is_empty() || !o.aut.alpha.iter().all(|s| token_ok(s)) {
            return Ok(()); // not expressible in the file format
        }
        let a = match reader::table(t, dfa) {
            Read::Good(a) => a,
            Read::Bad(e) => return viol("table", format!("the table of {what} is not readable ({e}):\n{t}")),
            Read::Unclear(_) => return Ok(()),
        };
        if o.exact {
            return ensure(same_sets(&a, &o.aut), "table", || format!("{what} is shown as\n{t}\nbut is {}", o.aut.describe()));
        }
        ensure_same_lang("wrong-object", what, &a, &o.aut)?;
        if o.minimal {
            let n = o.aut.det_self()?.min_count();
            ensure(a.len() == n, "not-minimal", || format!("{what} was minimised but has {} states instead of {n}:\n{t}", a.len()))?;
        }
        Ok(())
    }
}

fn same(a: &Aut, b: &Aut) -> R<bool> {
    Ok(a.alpha_set() == b.alpha_set() && lang_diff(a, b)?.is_none())
}

fn bad<T>(what: &str, got: &Reply) -> R<T> {
    match got {
        Reply::Panic(m) => viol("panic", format!("{what} panicked: {m}")),
        _ => viol("reply", format!("{what} replied {got:?}")),
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let n = c.workers;
    if n == 0 || n > 8 || c.entropy.len() < n {
        return invalid("workers");
    }
    for (_, op) in &c.steps {
        if let Op::LoadNfa(a, _) = op {
            if !gen::tame(&a.fix(false)?) {
                return invalid("determinising it is too much work");
            }
        }
    }
    let mut workers: Vec<Worker> = (0..n).map(|i| Worker::start(c.entropy[i])).collect();
    let mut models: Vec<Model> = (0..n).map(|_| Model::default()).collect();
    let mut all: Vec<usize> = vec![];
    let mut last = usize::MAX;
    for (w, op) in &c.steps {
        let w = w % n;
        if last != w && last != usize::MAX {
            ctx.hit("worker switches");
        }
        last = w;
        step(w, op, &mut workers, &mut models, &mut all, ctx)?;
    }
    // finally every live object is still what it was, and everything else is absent
    for (w, m) in models.iter_mut().enumerate() {
        let keys: Vec<usize> = m.issued.iter().copied().chain([0]).collect();
        for k in keys {
            for dfa in [true, false] {
                let r = workers[w].call(if dfa { Call::TableDfa(k) } else { Call::TableNfa(k) });
                let Reply::Text(t) = &r else { return bad("the final look at a table", &r) };
                let o = if dfa { m.dfa.get_mut(&k) } else { m.nfa.get_mut(&k) };
                match (o, t) {
                    (None, None) => {}
                    (Some(o), Some(t)) => Model::shown(o, t, dfa, &format!("object {k} of worker {w}"))?,
                    (None, Some(t)) => return viol("ghost", format!("handle {k} of worker {w} is not live but shows\n{t}")),
                    (Some(_), None) => return viol("lost", format!("the live object {k} of worker {w} is gone")),
                }
            }
        }
        ctx.nontrivial |= !m.issued.is_empty();
    }
    Ok(())
}

fn step(w: usize, op: &Op, workers: &mut [Worker], models: &mut [Model], all: &mut Vec<usize>, ctx: &mut Ctx) -> R {
    let issued: Vec<usize> = all.clone();
    let live = |m: &Model, kind: u8| -> Vec<usize> {
        match kind {
            0 => m.dfa.keys().copied().collect(),
            1 => m.nfa.keys().copied().collect(),
            _ => m.regex.keys().copied().collect(),
        }
    };
    let pick = |h: &H, kind: u8, m: &Model| -> usize {
        match h {
            H::Live(i) => {
                let v = live(m, kind);
                if v.is_empty() {
                    0
                } else {
                    v[i % v.len()]
                }
            }
            H::Issued(i) => {
                if issued.is_empty() {
                    0
                } else {
                    issued[i % issued.len()]
                }
            }
            H::Raw(x) => *x as usize,
        }
    };
    if let Op::LoadLike(i, seed) = op {
        let texts = &models[w].texts;
        if texts.is_empty() {
            return Ok(());
        }
        let (k, t) = texts[texts.len() - 1 - i % texts.len()].clone();
        let t = gen::touch(&t, *seed);
        if let (1, Read::Good(a)) = (k, reader::table(&t, false)) {
            if !gen::tame(&a) {
                return invalid("determinising it is too much work");
            }
        }
        ctx.hit("op:load a similar text");
        return step(w, &Op::LoadText(k, t), workers, models, all, ctx);
    }
    let m = &mut models[w];
    let what = format!("worker {w}: {}", short(op));
    macro_rules! key {
        ($r:expr) => {{
            let k = $r;
            m.new_key(k, &what)?;
            all.push(k);
            k
        }};
    }
    let stale = |present: bool, ctx: &mut Ctx| {
        if !present {
            ctx.hit("fault:stale, foreign or invalid handle")
        }
    };
    ctx.hit(&format!("op:{}", name(op)));
    let reply = match op {
        Op::Crash(e) => {
            workers[w] = Worker::start(*e);
            *m = Model::default();
            ctx.hit("fault:worker killed and restarted");
            ctx.ev(&what);
            return Ok(());
        }
        Op::LoadLike(..) => unreachable!(),
        Op::LoadDfa(a, s) | Op::LoadNfa(a, s) => {
            let dfa = matches!(op, Op::LoadDfa(..));
            let a = a.fix(dfa)?;
            let t = gen::print_table(&a, dfa, *s);
            m.texts.push((!dfa as u8, t.clone()));
            let r = workers[w].call(if dfa { Call::LoadDfa(t) } else { Call::LoadNfa(t) });
            let Reply::Loaded(Ok(k)) = r else { return bad(&what, &r) };
            key!(k);
            let o = Obj { aut: a, exact: true, minimal: false, table: None };
            if dfa {
                m.dfa.insert(k, o)
            } else {
                m.nfa.insert(k, o)
            };
            r
        }
        Op::LoadRegex(x, s) => {
            let x = x.fix();
            let t = gen::print_regex(&x, *s);
            m.texts.push((2, t.clone()));
            let want = reader::regex(&t);
            let r = workers[w].call(Call::LoadRegex(t.clone()));
            match (&r, want) {
                (Reply::Loaded(Ok(k)), Read::Good(x)) => {
                    key!(*k);
                    m.regex.insert(*k, x);
                }
                (Reply::Loaded(Ok(_)), Read::Unclear(_)) => return invalid("unclear expression"),
                (Reply::Loaded(Err(_)), Read::Unclear(_) | Read::Bad(_)) => {}
                _ => return bad(&format!("{what} {t:?}"), &r),
            }
            r
        }
        Op::LoadText(kind, t) => {
            m.texts.push((*kind, t.clone()));
            let (r, want) = match kind {
                0 | 1 => {
                    let dfa = *kind == 0;
                    let r = workers[w].call(if dfa { Call::LoadDfa(t.clone()) } else { Call::LoadNfa(t.clone()) });
                    (r, reader::table(t, dfa))
                }
                _ => {
                    let r = workers[w].call(Call::LoadRegex(t.clone()));
                    match (&r, reader::regex(t)) {
                        (Reply::Loaded(Ok(k)), Read::Good(x)) => {
                            key!(*k);
                            m.regex.insert(*k, x);
                        }
                        (Reply::Loaded(Ok(_)), Read::Unclear(_)) => return invalid("unclear expression"),
                        (Reply::Loaded(Err(_)), Read::Unclear(_) | Read::Bad(_)) => ctx.hit("fault:malformed input"),
                        _ => return bad(&format!("{what} {t:?}"), &r),
                    }
                    ctx.ev(format!("{what} -> {r:?}"));
                    return Ok(());
                }
            };
            match (&r, want) {
                (Reply::Loaded(Ok(k)), Read::Good(a)) => {
                    key!(*k);
                    let o = Obj { aut: a, exact: true, minimal: false, table: None };
                    if *kind == 0 {
                        m.dfa.insert(*k, o)
                    } else {
                        m.nfa.insert(*k, o)
                    };
                }
                (Reply::Loaded(Ok(_)), Read::Unclear(_)) => return invalid("unclear text"),
                (Reply::Loaded(Err(_)), Read::Unclear(_) | Read::Bad(_)) => ctx.hit("fault:malformed input"),
                _ => return bad(&format!("{what} {t:?}"), &r),
            }
            r
        }
        Op::RegexToNfa(h) => {
            let h = pick(h, 2, m);
            let r = workers[w].call(Call::RegexToNfa(h));
            let x = m.regex.remove(&h);
            stale(x.is_some(), ctx);
            match (&r, x) {
                (Reply::Key(None), None) => {}
                (Reply::Key(Some(k)), Some(x)) => {
                    key!(*k);
                    let aut = x.to_aut(&x.alphabet());
                    m.nfa.insert(*k, Obj { aut, exact: false, minimal: false, table: None });
                }
                _ => return bad(&format!("{what} ({h})"), &r),
            }
            r
        }
        Op::DfaToNfa(h) | Op::NfaToDfa(h) => {
            let from_dfa = matches!(op, Op::DfaToNfa(_));
            let h = pick(h, !from_dfa as u8, m);
            let r = workers[w].call(if from_dfa { Call::DfaToNfa(h) } else { Call::NfaToDfa(h) });
            let o = if from_dfa { m.dfa.get(&h).cloned() } else { m.nfa.get(&h).cloned() };
            stale(o.is_some(), ctx);
            match (&r, o) {
                (Reply::Key(None), None) => {}
                (Reply::Key(Some(k)), Some(o)) => {
                    key!(*k);
                    let o = Obj { aut: o.aut, exact: false, minimal: false, table: None };
                    if from_dfa {
                        m.nfa.insert(*k, o)
                    } else {
                        m.dfa.insert(*k, o)
                    };
                }
                _ => return bad(&format!("{what} ({h})"), &r),
            }
            r
        }
        Op::Minimize(h) => {
            let h = pick(h, 0, m);
            let r = workers[w].call(Call::Minimize(h));
            let o = m.dfa.get_mut(&h);
            stale(o.is_some(), ctx);
            if r != Reply::Yes(o.is_some()) {
                return bad(&format!("{what} ({h})"), &r);
            }
            if let Some(o) = o {
                o.table = None;
                o.exact = false;
                o.minimal = true;
            }
            r
        }
        Op::EqDfa(a, b) | Op::EqNfa(a, b) => {
            let dfa = matches!(op, Op::EqDfa(..));
            let (a, b) = (pick(a, !dfa as u8, m), pick(b, !dfa as u8, m));
            let r = workers[w].call(if dfa { Call::EqDfa(a, b) } else { Call::EqNfa(a, b) });
            let map = if dfa { &m.dfa } else { &m.nfa };
            let want = match (map.get(&a), map.get(&b)) {
                (Some(x), Some(y)) => Some(same(&x.aut, &y.aut)?),
                _ => None,
            };
            stale(want.is_some(), ctx);
            ensure(r == Reply::Maybe(want), "comparison", || format!("{what} ({a}, {b}) replied {r:?}, expected {want:?}"))?;
            r
        }
        Op::TableDfa(h) | Op::TableNfa(h) => {
            let dfa = matches!(op, Op::TableDfa(_));
            let h = pick(h, !dfa as u8, m);
            let r = workers[w].call(if dfa { Call::TableDfa(h) } else { Call::TableNfa(h) });
            let o = if dfa { m.dfa.get_mut(&h) } else { m.nfa.get_mut(&h) };
            stale(o.is_some(), ctx);
            match (&r, o) {
                (Reply::Text(None), None) => {}
                (Reply::Text(Some(t)), Some(o)) => Model::shown(o, t, dfa, &format!("object {h} of worker {w}"))?,
                _ => return bad(&format!("{what} ({h})"), &r),
            }
            r
        }
        Op::DelDfa(h) | Op::DelNfa(h) | Op::DelRegex(h) => {
            let kind = match op {
                Op::DelDfa(_) => 0,
                Op::DelNfa(_) => 1,
                _ => 2,
            };
            let h = pick(h, kind, m);
            let (r, had) = match kind {
                0 => (workers[w].call(Call::DelDfa(h)), m.dfa.remove(&h).is_some()),
                1 => (workers[w].call(Call::DelNfa(h)), m.nfa.remove(&h).is_some()),
                _ => (workers[w].call(Call::DelRegex(h)), m.regex.remove(&h).is_some()),
            };
            stale(had, ctx);
            if r != Reply::Yes(had) {
                return bad(&format!("{what} ({h})"), &r);
            }
            r
        }
        Op::DrawDfa(h, pg) | Op::DrawNfa(h, pg) => {
            let dfa = matches!(op, Op::DrawDfa(..));
            let h = pick(h, !dfa as u8, m);
            let r = workers[w].call(if dfa { Call::DrawDfa(h, *pg) } else { Call::DrawNfa(h, *pg) });
            let o = if dfa { m.dfa.get(&h) } else { m.nfa.get(&h) };
            stale(o.is_some(), ctx);
            match (&r, o) {
                (Reply::Drawn(false, t), None) if t.is_empty() => r,
                (Reply::Panic(_), None) if *pg == 0 => Reply::Yes(false),
                // the call fails one way or another, and that is all
                (Reply::Panic(_) | Reply::Drawn(false, _), Some(_)) if *pg < 4 => {
                    ctx.hit("fault:drawing call failed (no page, no canvas, or the context was lost)");
                    Reply::Yes(false)
                }
                (Reply::Drawn(true, t), Some(o)) if *pg > 3 => {
                    ctx.hit("op:drawn");
                    if o.exact {
                        if let Some(s) = o.aut.st.iter().find(|s| !t.contains(&s.n)) {
                            return viol("drawn", format!("{what} ({h}) drew no state {}", s.n));
                        }
                    }
                    r
                }
                _ => return bad(&format!("{what} ({h}) on page {pg}"), &r),
            }
        }
    };
    let shown = match &reply {
        Reply::Text(Some(t)) => format!("table {:x}", hash_str(t)),
        x => format!("{x:?}"),
    };
    ctx.ev(format!("{what} -> {shown}"));
    Ok(())
}

fn name(op: &Op) -> &'static str {
    match op {
        Op::LoadDfa(..) => "load_dfa",
        Op::LoadNfa(..) => "load_nfa",
        Op::LoadRegex(..) => "load_regex",
        Op::LoadText(0, _) => "load_dfa (text)",
        Op::LoadText(1, _) => "load_nfa (text)",
        Op::LoadText(..) => "load_regex (text)",
        Op::LoadLike(..) => "load a similar text",
        Op::RegexToNfa(_) => "regex_to_nfa",
        Op::DfaToNfa(_) => "dfa_to_nfa",
        Op::NfaToDfa(_) => "nfa_to_dfa",
        Op::Minimize(_) => "minimize_dfa",
        Op::EqDfa(..) => "check_dfa_eq",
        Op::EqNfa(..) => "check_nfa_eq",
        Op::TableDfa(_) => "dfa_to_table",
        Op::TableNfa(_) => "nfa_to_table",
        Op::DelDfa(_) => "delete_dfa",
        Op::DelNfa(_) => "delete_nfa",
        Op::DelRegex(_) => "delete_regex",
        Op::DrawDfa(..) => "draw_dfa",
        Op::DrawNfa(..) => "draw_nfa",
        Op::Crash(_) => "crash",
    }
}
fn short(op: &Op) -> String {
    name(op).into()
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C12",
        gen,
        run,
        quick: 60_000,
        thorough: 1_500_000,
        level: "exploration",
        rule: "a seeded interleaving of calls by 1 to 3 workers (one thread each, run one call at a time) over all exported functions, with live, stale, foreign and never-issued handles, malformed texts, drawing with and without a page, a canvas and its context, and killed workers; every reply is compared with a sequential store per worker, and all live objects are looked at once more at the end; non-trivial: at least one object was stored",
        assumptions: BASE_ASSUME,
        real: &["dandy-wasm (all exported functions, compiled for the host)", "dandy-draw", "dandy"],
        stub: &["the JavaScript engine, its workers, the page and its canvas: threads and stand-in crates for wasm-bindgen, js-sys and web-sys", "operating-system entropy: seeded"],
    }
}
