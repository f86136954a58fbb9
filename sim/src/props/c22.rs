//! C22: the web page, its own script run by a simulated browser (sim/page/page.js) on top of the real bindings.
use super::c12::{perform, Call, Reply};
use super::*;
use crate::reader::{self, Read as Rd};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
    DfaEq,
    NfaEq,
    ToDfa,
    Minimize,
    Regex,
    Draw,
}
use Kind::*;
const KINDS: [Kind; 6] = [DfaEq, NfaEq, ToDfa, Minimize, Regex, Draw];
impl Kind {
    /// what the heading of its section says
    fn heading(self) -> &'static str {
        match self {
            DfaEq => "equivalence of DFA",
            NfaEq => "equivalence of NFA",
            ToDfa => "Convert NFA to DFA",
            Minimize => "Minimize DFA",
            Regex => "Convert Regex to NFA",
            Draw => "Visualize NFA",
        }
    }
    fn fields(self) -> usize {
        1 + matches!(self, DfaEq | NfaEq) as usize
    }
    /// 0 DFA, 1 NFA, 2 regular expression
    fn lang(self) -> u8 {
        match self {
            DfaEq | Minimize => 0,
            NfaEq | ToDfa | Draw => 1,
            Regex => 2,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Text {
    /// (as a DFA, automaton, layout)
    Table(bool, Aut, u64),
    Expr(Rx, u64),
    Raw(String),
    /// the beginning of a table, so many characters
    Cut(bool, Aut, usize),
    /// what is in another field
    Field(Kind, usize),
    /// what is in another field, slightly changed
    Like(Kind, usize, u64),
    /// what another section shows as its result
    Result(Kind),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Set(Kind, usize, Text),
    /// and whether the page then gets the time to finish
    Click(Kind, bool),
    Wait(u32),
    /// the bindings arrive, or fail to
    Init(bool),
    /// a new page instead of this one, with new hash seeds
    Reload(u64),
    /// call number n of the bindings during the next click traps
    Trap(usize),
    /// the context of the canvas is lost at the nth drawing call of the next click
    Lose(usize),
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    entropy: u64,
    steps: Vec<Op>,
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let size = gen::Size { max_states: 6, max_syms: gen::syms(r, 3), big: false, mid: true };
    let mut pool: Vec<(bool, Aut)> = vec![];
    for _ in 0..r.range(1, 3) {
        let d = r.chance(1, 2);
        let a = if d { gen::dfa(r, &size, None) } else { gen::nfa(r, &size, None, true) };
        pool.push((d, a));
    }
    let favourite = *r.pick(&KINDS);
    let focus = r.chance(1, 2);
    let faults = r.chance(1, 2);
    let odd = r.chance(1, 4);
    let mut steps = vec![];
    if r.chance(1, 8) {
        for _ in 0..r.range(1, 3) {
            steps.push(Op::Click(*r.pick(&KINDS), r.chance(2, 3)));
        }
    }
    if r.chance(1, 20) {
        steps.push(Op::Init(false));
        steps.push(Op::Click(*r.pick(&KINDS), true));
        steps.push(Op::Reload(r.seed()));
    }
    steps.push(Op::Init(true));
    let clicks = r.range(2, if thorough { 24 } else { 9 });
    for _ in 0..clicks {
        let k = if focus && r.chance(2, 3) { favourite } else { *r.pick(&KINDS) };
        for f in 0..k.fields() {
            if r.chance(1, 5) {
                continue;
            }
            let t = text(r, k, &pool, &size, odd);
            steps.push(Op::Set(k, f, t));
        }
        if r.chance(1, 10) {
            let k = *r.pick(&KINDS);
            let t = text(r, k, &pool, &size, odd);
            steps.push(Op::Set(k, r.below(k.fields()), t));
        }
        if faults && r.chance(1, 6) {
            steps.push(if k == Draw && r.chance(2, 3) { Op::Lose(r.range(1, 12)) } else { Op::Trap(r.range(1, 5)) });
        }
        steps.push(Op::Click(k, r.chance(4, 5)));
        if r.chance(1, 12) {
            steps.push(Op::Click(k, r.chance(1, 2)));
        }
        if r.chance(1, 10) {
            steps.push(Op::Wait(r.range(1, 3000) as u32));
        }
        if faults && r.chance(1, 14) {
            steps.push(Op::Reload(r.seed()));
            if r.chance(1, 6) {
                steps.push(Op::Click(*r.pick(&KINDS), true));
            }
            steps.push(Op::Init(r.chance(15, 16)));
        }
    }
    Case { entropy: r.seed(), steps }
}

fn text(r: &mut Rng, k: Kind, pool: &[(bool, Aut)], size: &gen::Size, odd: bool) -> Text {
    match r.below(if odd { 12 } else { 40 }) {
        0 => return Text::Raw(r.pick(&["", " ", "\n", "#", "a\n-> x x", "a\r\n-> x x\r\n", "<b>", "&amp;\n→ x x", "a b\n-> x x y\n", "(a|b", "a*", "**", "a a\n-> s s s\n", "a\n-> q {r}\n", "a\n-> * q {q}\n"]).to_string()),
        1 => {
            let (d, a) = r.pick(pool).clone();
            return Text::Cut(d, a, r.below(60));
        }
        2 => {
            let k = *r.pick(&KINDS);
            return Text::Field(k, r.below(k.fields()));
        }
        9..=12 => {
            let k = if r.chance(1, 2) { k } else { *r.pick(&KINDS) };
            return Text::Like(k, r.below(k.fields()), r.seed());
        }
        3 | 4 => return Text::Result(*r.pick(&KINDS)),
        5 => {
            let (d, a) = r.pick(pool).clone();
            return Text::Table(d, a, 0);
        }
        6 => return Text::Expr(gen::regex_odd(r, 6), r.seed()),
        _ => {}
    }
    if k.lang() == 2 {
        let plain = r.chance(2, 3);
        return Text::Expr(gen::regex(r, 8, plain), r.seed() * r.below(2) as u64);
    }
    let dfa = k.lang() == 0;
    let like: Vec<&(bool, Aut)> = pool.iter().filter(|p| p.0 == dfa || !dfa).collect();
    let a = if like.is_empty() {
        gen::dfa(r, size, None)
    } else {
        let (d, a) = (*r.pick(&like)).clone();
        if r.chance(2, 3) {
            gen::related(r, &a, d, size)
        } else {
            a
        }
    };
    Text::Table(dfa, a, r.seed() * r.below(2) as u64)
}

// ---- the bindings: a thread per page

type Job = Box<dyn FnOnce() -> Reply + Send>;
struct Bindings {
    tx: Option<mpsc::Sender<Job>>,
    rx: mpsc::Receiver<Reply>,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Bindings {
    fn start(entropy: u64) -> Bindings {
        let (tx, r) = mpsc::channel::<Job>();
        let (t, rx) = mpsc::channel();
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                set_entropy(entropy);
                while let Ok(c) = r.recv() {
                    if t.send(guarded(c).unwrap_or_else(Reply::Panic)).is_err() {
                        break;
                    }
                }
            })
            .expect("spawning the bindings' thread");
        Bindings { tx: Some(tx), rx, h: Some(h) }
    }
    fn with(&self, f: impl FnOnce() -> Reply + Send + 'static) -> Reply {
        let _ = self.tx.as_ref().unwrap().send(Box::new(f));
        self.rx.recv().unwrap_or_else(|_| Reply::Panic("the bindings' thread died".into()))
    }
    fn call(&self, c: Call) -> Reply {
        self.with(move || perform(c))
    }
    fn page(&self, ids: Vec<String>) {
        use web_sys::sim::{page, Ctx as C2d, El};
        self.with(move || {
            page(|p| {
                p.window = true;
                p.document = true;
                p.elements = ids.into_iter().map(|i| (i, El::Canvas(C2d::Good))).collect();
                p.calls.clear();
                p.fail_at = None;
                p.fallible = 0;
            });
            Reply::Yes(true)
        });
    }
    /// the texts that can be seen on each canvas
    fn visible(&self, size: (f64, f64)) -> Vec<Vec<String>> {
        let r = self.with(move || {
            let v = web_sys::sim::page(|p| (0..p.elements.len()).map(|k| visible(&p.calls, k, size)).collect::<Vec<_>>());
            Reply::Text(Some(serde_json::to_string(&v).unwrap()))
        });
        match r {
            Reply::Text(Some(t)) => serde_json::from_str(&t).unwrap(),
            _ => vec![],
        }
    }
}
impl Drop for Bindings {
    fn drop(&mut self) {
        self.tx = None;
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}

fn visible(calls: &[(usize, web_sys::sim::Call)], canvas: usize, size: (f64, f64)) -> Vec<String> {
    use web_sys::sim::Call as C;
    let mut v: Vec<(f64, f64, String)> = vec![];
    for (k, c) in calls {
        if *k != canvas {
            continue;
        }
        match c {
            C::FillText(t, x, y) => {
                let t = (*x, *y, t.clone());
                let inside = *x >= 0.0 && *y >= 0.0 && *x <= size.0 && *y <= size.1;
                if inside && !v.contains(&t) {
                    v.push(t);
                }
            }
            C::ClearRect(x, y, w, h) => v.retain(|t| t.0 < *x || t.1 < *y || t.0 > x + w || t.1 > y + h),
            C::Other("set_width" | "set_height") => v.clear(),
            _ => {}
        }
    }
    let mut v: Vec<String> = v.into_iter().map(|t| t.2).collect();
    v.sort();
    v
}

// ---- the browser: one process, told what to do line by line

struct Browser {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    pages: usize,
}
thread_local! {
    static BROWSER: RefCell<Option<Browser>> = const { RefCell::new(None) };
}
impl Browser {
    fn start() -> Browser {
        use std::os::unix::process::CommandExt;
        let mut c = Command::new("node");
        c.arg("--experimental-vm-modules")
            .arg("--no-warnings")
            .arg(crate::engine::verif_dir().join("sim/page/page.js"))
            .env_clear()
            .env("PATH", std::env::var_os("PATH").unwrap_or_default())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var_os("DANDY_SIM_SHOW_PANICS").is_some() { Stdio::inherit() } else { Stdio::null() });
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("starting node");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Browser { child, to, from, pages: 0 }
    }
    fn send(&mut self, v: Value) {
        let mut s = v.to_string();
        s.push('\n');
        let _ = self.to.write_all(s.as_bytes());
    }
    fn recv(&mut self) -> Value {
        let mut s = String::new();
        match self.from.read_line(&mut s) {
            Ok(n) if n > 0 => serde_json::from_str(&s).unwrap_or(Value::Null),
            _ => Value::Null,
        }
    }
}
impl Drop for Browser {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Deserialize, Clone, Debug, PartialEq)]
struct Section {
    heading: String,
    fields: Vec<String>,
    button: String,
    disabled: bool,
    outs: Vec<(String, String)>,
}
#[derive(Deserialize, Clone, Debug)]
struct Seen {
    sections: Vec<Section>,
    errors: Vec<String>,
    /// width and height of the canvas
    canvas: (f64, f64),
}

/// A page as it is shown, and what is known about it.
struct Page {
    bindings: Bindings,
    seen: Seen,
    initial: Vec<Section>,
    /// where the section of each kind is
    at: Vec<usize>,
    canvas: Vec<String>,
    ready: bool,
    /// handles given to the page in clicks without a fault
    issued: Vec<usize>,
    /// texts visible on the canvas; None: a drawing failed halfway
    drawn: Option<Vec<String>>,
    /// results as they were when the section was last judged
    shown_before: std::collections::BTreeMap<Kind, String>,
    /// clicks not judged yet, with what was in the fields then
    pending: Vec<(Kind, Vec<String>, bool)>,
}

#[derive(Default)]
struct Faults {
    trap: Option<usize>,
    lose: Option<usize>,
    calls: usize,
    struck: bool,
}

/// Answers the page's calls until it has done what it was told.
fn attend(b: &mut Browser, bind: &Bindings, canvas: &[String], fl: &mut Faults, issued: &mut Vec<usize>, ctx: &mut Ctx) -> R<Seen> {
    let mut n = 0;
    loop {
        let m = b.recv();
        n += 1;
        if n > 20_000 {
            return viol("runaway", "the page does not come to rest: 20000 calls of the bindings".to_string());
        }
        match m["t"].as_str() {
            Some("state") => {
                let s: Seen = serde_json::from_value(m).expect("a state");
                return Ok(s);
            }
            Some("canvas") => {
                let id = m["id"].as_str().unwrap_or("").to_string();
                let a: Vec<f64> = m["a"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(0.0)).collect()).unwrap_or_default();
                let op = m["op"].as_str().unwrap_or("").to_string();
                let text = m["s"].as_str().unwrap_or("").to_string();
                if let Some(k) = canvas.iter().position(|c| *c == id) {
                    bind.with(move || {
                        use web_sys::sim::{page, Call as C};
                        let g = |i: usize| a.get(i).copied().unwrap_or(0.0);
                        let c = match op.as_str() {
                            "reset" => C::Other("set_width"),
                            "text" => C::FillText(text, g(0), g(1)),
                            // what is painted over cannot be seen any more
                            _ => C::ClearRect(g(0), g(1), g(2), g(3)),
                        };
                        page(|p| p.calls.push((k, c)));
                        Reply::Yes(true)
                    });
                }
                b.send(json!({}));
            }
            Some("call") => {
                fl.calls += 1;
                let f = m["f"].as_str().unwrap_or("").to_string();
                ctx.hit(&format!("binding:{f}"));
                let num = |i: usize| m["a"][i].as_u64().unwrap_or(0) as usize;
                let s = |i: usize| m["a"][i].as_str().unwrap_or("").to_string();
                if fl.trap == Some(fl.calls) {
                    fl.struck = true;
                    ctx.hit("fault:a call of the bindings traps");
                    b.send(json!({"trap": "unreachable"}));
                    continue;
                }
                let c = match f.as_str() {
                    "load_dfa" => Call::LoadDfa(s(0)),
                    "load_nfa" => Call::LoadNfa(s(0)),
                    "load_regex" => Call::LoadRegex(s(0)),
                    "regex_to_nfa" => Call::RegexToNfa(num(0)),
                    "dfa_to_nfa" => Call::DfaToNfa(num(0)),
                    "nfa_to_dfa" => Call::NfaToDfa(num(0)),
                    "minimize_dfa" => Call::Minimize(num(0)),
                    "check_dfa_eq" => Call::EqDfa(num(0), num(1)),
                    "check_nfa_eq" => Call::EqNfa(num(0), num(1)),
                    "dfa_to_table" => Call::TableDfa(num(0)),
                    "nfa_to_table" => Call::TableNfa(num(0)),
                    "delete_dfa" => Call::DelDfa(num(0)),
                    "delete_nfa" => Call::DelNfa(num(0)),
                    "delete_regex" => Call::DelRegex(num(0)),
                    _ => {
                        let (dfa, h, id, lose) = (f == "draw_dfa", num(0), s(1), fl.lose);
                        let r = bind.with(move || {
                            web_sys::sim::page(|p| {
                                p.fallible = 0;
                                p.fail_at = lose;
                            });
                            let r = guarded(|| if dfa { dandy_wasm::draw_dfa(h, &id) } else { dandy_wasm::draw_nfa(h, &id) });
                            web_sys::sim::page(|p| p.fail_at = None);
                            match r {
                                Ok(x) => Reply::Yes(x),
                                Err(m) => Reply::Panic(m),
                            }
                        });
                        if lose.is_some() && matches!(r, Reply::Panic(_)) {
                            fl.struck = true;
                            ctx.hit("fault:the context of the canvas is lost");
                        }
                        b.send(match r {
                            Reply::Yes(x) => json!({"ok": x}),
                            x => json!({"trap": format!("{x:?}")}),
                        });
                        continue;
                    }
                };
                let r = bind.call(c);
                ctx.ev(format!("{f} {} -> {}", m["a"], hash_str(&format!("{r:?}"))));
                b.send(match r {
                    Reply::Loaded(Ok(k)) => {
                        issued.push(k);
                        json!({"ok": k})
                    }
                    Reply::Loaded(Err(e)) => json!({"err": e}),
                    Reply::Key(k) => {
                        issued.extend(k);
                        json!({"ok": k})
                    }
                    Reply::Yes(x) => json!({"ok": x}),
                    Reply::Maybe(x) => json!({"ok": x}),
                    Reply::Text(x) => json!({"ok": x}),
                    x => json!({"trap": format!("{x:?}")}),
                });
            }
            _ => return viol("browser", format!("the simulated browser stopped: {m}")),
        }
    }
}

impl Page {
    fn load(b: &mut Browser, html: &str, entropy: u64, ctx: &mut Ctx) -> R<Page> {
        let bindings = Bindings::start(entropy);
        b.pages += 1;
        b.send(json!({"t": "load", "html": html}));
        let mut issued = vec![];
        let seen = attend(b, &bindings, &[], &mut Faults::default(), &mut issued, ctx)?;
        ensure(seen.errors.is_empty(), "script-error", || format!("the page's script failed: {:?}", seen.errors))?;
        let mut at = vec![];
        for k in KINDS {
            match seen.sections.iter().position(|s| s.heading.contains(k.heading())) {
                Some(i) if seen.sections[i].fields.len() == k.fields() => at.push(i),
                _ => return viol("section", format!("the page has no section {:?} with its fields", k.heading())),
            }
        }
        let canvas: Vec<String> =
            seen.sections.iter().flat_map(|s| s.outs.iter()).filter(|o| o.0 == "canvas").map(|o| o.1.clone()).collect();
        bindings.page(canvas.clone());
        let initial = seen.sections.clone();
        Ok(Page { bindings, seen, initial, at, canvas, ready: false, issued, drawn: Some(vec![]), shown_before: Default::default(), pending: vec![] })
    }
    fn sec(&self, k: Kind) -> &Section {
        &self.seen.sections[self.at[k as usize]]
    }
    /// Tells the browser something; nothing but the sections in `may` may look different afterwards.
    fn tell(&mut self, b: &mut Browser, m: Value, fl: &mut Faults, may: &[Kind], what: &str, ctx: &mut Ctx) -> R {
        let mut issued = vec![];
        b.send(m);
        let mut now = attend(b, &self.bindings, &self.canvas, fl, &mut issued, ctx)?;
        if !fl.struck {
            self.issued.extend(issued);
        }
        for (i, s) in now.sections.iter().enumerate() {
            let old = &self.seen.sections[i];
            let allowed = may.iter().any(|k| self.at[*k as usize] == i);
            ensure(s.fields == old.fields, "field-changed", || format!("{what} changed what the user wrote in a field of {:?} from {:?} to {:?}", s.heading, old.fields, s.fields))?;
            ensure(allowed || s == old, "other-section", || format!("{what} changed the section {:?} from {old:?} to {s:?}", s.heading))?;
        }
        self.seen.canvas = now.canvas;
        std::mem::swap(&mut self.seen.sections, &mut now.sections);
        self.seen.errors.extend(now.errors);
        Ok(())
    }
    fn settle(&mut self, b: &mut Browser, helper: &Bindings, ctx: &mut Ctx) -> R {
        let may: Vec<Kind> = self.pending.iter().map(|p| p.0).collect();
        self.tell(b, json!({"t": "wait", "ms": 60_000}), &mut Faults::default(), &may, "waiting", ctx)?;
        let errors = std::mem::take(&mut self.seen.errors);
        let pending = std::mem::take(&mut self.pending);
        let faulted = pending.iter().any(|p| p.2);
        for (i, (k, texts, struck)) in pending.iter().enumerate() {
            // the last click of a section decides what it shows
            if pending[i + 1..].iter().any(|p| p.0 == *k) {
                self.shown_before.remove(k);
                if *k == Draw {
                    self.drawn = None;
                }
                continue;
            }
            if *struck {
                self.shown_before.remove(k);
                if *k == Draw {
                    self.drawn = None;
                }
                continue;
            }
            self.judge(*k, texts, helper, ctx).map_err(|e| match e {
                Stop::Viol(v) => Stop::Viol(Viol { class: v.class, msg: format!("{}\nthe fields of {:?} were {texts:#?}\nerrors of the script: {errors:?}", v.msg, k.heading()) }),
                x => x,
            })?;
        }
        if !faulted {
            ensure(errors.is_empty() || !self.ready, "script-error", || format!("after {pending:?} the page's script failed: {errors:?}"))?;
        }
        if self.ready {
            for h in std::mem::take(&mut self.issued) {
                let kept = [Call::TableDfa(h), Call::TableNfa(h)].into_iter().find_map(|c| match self.bindings.call(c) {
                    Reply::Text(Some(t)) => Some(t),
                    _ => None,
                });
                let kept = kept.or_else(|| (self.bindings.call(Call::DelRegex(h)) == Reply::Yes(true)).then(|| "a regular expression".into()));
                if let Some(t) = kept {
                    return viol("leak", format!("after the clicks {pending:?} nothing needs the automaton with the handle {h}, but it stays loaded:\n{t}"));
                }
            }
        }
        Ok(())
    }
    fn judge(&mut self, k: Kind, texts: &[String], helper: &Bindings, ctx: &mut Ctx) -> R {
        let s = self.sec(k).clone();
        let initial = self.initial[self.at[k as usize]].clone();
        let shown = |tag: &str| s.outs.iter().filter(|o| o.0 == tag).map(|o| o.1.clone()).collect::<Vec<_>>().join("\n");
        if !self.ready {
            return ensure((&s.button, &s.outs) == (&initial.button, &initial.outs), "not-ready", || format!("the bindings are not loaded, but a click changed the section to {s:?}"));
        }
        // does the parser take it?
        let load = |t: &String| -> R<std::result::Result<usize, String>> {
            let c = match k.lang() {
                0 => Call::LoadDfa(t.clone()),
                1 => Call::LoadNfa(t.clone()),
                _ => Call::LoadRegex(t.clone()),
            };
            match helper.call(c) {
                Reply::Loaded(x) => Ok(x),
                r => viol("load", format!("loading {t:?} replied {r:?}")),
            }
        };
        let loaded = texts.iter().map(load).collect::<R<Vec<_>>>()?;
        let errors: Vec<&String> = loaded.iter().filter_map(|l| l.as_ref().err()).collect();
        let free = || {
            for h in loaded.iter().flatten() {
                for c in [Call::DelDfa(*h), Call::DelNfa(*h), Call::DelRegex(*h)] {
                    helper.call(c);
                }
            }
        };
        let reads: Vec<Option<Aut>> = texts
            .iter()
            .map(|t| match k.lang() {
                2 => match reader::regex(t) {
                    Rd::Good(x) => Some(x.to_aut(&x.alphabet())),
                    _ => None,
                },
                l => match reader::table(t, l == 0) {
                    Rd::Good(a) => Some(a),
                    _ => None,
                },
            })
            .collect();
        let text = format!("{}\n{}\n{}", s.button, shown("span"), shown("textarea"));
        // the bindings escape nothing, and a text on a page has its line ends normalised
        let norm = |s: &str| s.replace("\r\n", "\n").replace('\r', "\n");
        ctx.hit(if errors.is_empty() { "answers: result" } else { "answers: error" });
        ctx.hit(&format!("op:{}", k.heading()));
        for e in &errors {
            ensure(norm(&text).contains(&norm(e)), "error-hidden", || format!("a field is not readable ({e}), but the page says\n{text}"))?;
        }
        let verdict = {
            let b = s.button.to_lowercase();
            if b.contains("not equivalent") {
                Some(false)
            } else if b.contains("equivalent") {
                Some(true)
            } else {
                None
            }
        };
        match k {
            DfaEq | NfaEq => {
                let name = if k == DfaEq { "DFA" } else { "NFA" };
                for (i, l) in loaded.iter().enumerate() {
                    let named = shown("span").contains(&format!("{name} {}", i + 1));
                    ensure(named == l.is_err() || !errors.is_empty() && l.is_ok(), "error-name", || {
                        format!("{name} {} is {}readable, but the page says {:?}", i + 1, if l.is_err() { "not " } else { "" }, shown("span"))
                    })?;
                }
                if errors.is_empty() {
                    ensure(shown("span").trim().is_empty(), "stale-error", || format!("both fields are readable, but the page says {:?}", shown("span")))?;
                    let Some(v) = verdict else { return viol("no-verdict", format!("the page gives no verdict but {:?}", s.button)) };
                    if let [Some(x), Some(y)] = &reads[..] {
                        let want = x.alpha_set() == y.alpha_set() && lang_diff(x, y)?.is_none();
                        ctx.hit(if want { "answers: equivalent" } else { "answers: not equivalent" });
                        ctx.nontrivial = true;
                        ensure(v == want, "verdict", || format!("the page says {:?}, but the two are {}equivalent", s.button, if want { "" } else { "not " }))?;
                    }
                } else {
                    ensure(verdict.is_none(), "verdict", || format!("a field is not readable ({errors:?}), but the page says {:?}", s.button))?;
                }
            }
            ToDfa | Minimize | Regex => {
                let out = shown("textarea");
                if let (Some(e), Some(old)) = (errors.first(), self.shown_before.get(&k)) {
                    ensure(out == *old || norm(&out).contains(&norm(e)), "stale-result", || {
                        format!("the field is not readable ({e}), but the result changed from\n{old}\nto\n{out}")
                    })?;
                }
                self.shown_before.insert(k, out.clone());
                if errors.is_empty() {
                    ensure(s.button == initial.button, "stale-error", || format!("the field is readable, but the button says {:?}", s.button))?;
                    if let Some(want) = &reads[0] {
                        if !want.alpha.is_empty() && want.alpha.iter().all(|x| token_ok(x)) {
                            let a = match reader::table(&out, k != Regex) {
                                Rd::Good(a) => a,
                                Rd::Bad(e) => return viol("result", format!("the result is no table ({e}):\n{out}")),
                                Rd::Unclear(_) => return Ok(free()),
                            };
                            ctx.nontrivial = true;
                            ensure_same_lang("result", "the result on the page", &a, want)?;
                            if k == Minimize {
                                let n = want.det_self()?.min_count();
                                ensure(a.len() == n, "not-minimal", || format!("the result has {} states instead of {n}:\n{out}", a.len()))?;
                            }
                        }
                    }
                }
            }
            Draw => {
                let now = self.bindings.visible(self.seen.canvas);
                ensure(now.len() == 1, "canvas", || "the page has no canvas".into())?;
                let now = now.into_iter().next().unwrap();
                if errors.is_empty() {
                    ensure(s.button == initial.button, "stale-error", || format!("the field is readable, but the button says {:?}", s.button))?;
                    helper.page(vec!["fresh".into()]);
                    let h = *loaded[0].as_ref().unwrap();
                    let r = helper.with(move || Reply::Yes(dandy_wasm::draw_nfa(h, "fresh")));
                    if r != Reply::Yes(true) {
                        free();
                        return invalid("the NFA cannot be drawn at all");
                    }
                    let want = helper.visible(self.seen.canvas).into_iter().next().unwrap();
                    ctx.nontrivial |= want.len() > 1;
                    ensure(now == want, "picture", || format!("the canvas shows the texts {now:?}, but a drawing of the NFA in the field has {want:?}"))?;
                    self.drawn = Some(now);
                } else if let Some(old) = &self.drawn {
                    ensure(now == *old || now.is_empty(), "picture", || format!("the field is not readable, but the canvas now shows {now:?} instead of {old:?}"))?;
                    self.drawn = Some(now);
                }
            }
        }
        free();
        Ok(())
    }
}

fn go(c: &Case, b: &mut Browser, ctx: &mut Ctx) -> R {
    let html = match std::fs::read_to_string("/repo/website/index.html") {
        Ok(t) => t,
        Err(e) => return viol("page", format!("website/index.html: {e}")),
    };
    for op in &c.steps {
        if let Op::Set(_, _, Text::Table(false, a, _)) = op {
            if !gen::tame(&a.fix(false)?) {
                return invalid("determinising it is too much work");
            }
        }
    }
    let helper = Bindings::start(c.entropy ^ 0x9e37);
    let mut p = Page::load(b, &html, c.entropy, ctx)?;
    let mut fl = Faults::default();
    for op in &c.steps {
        match op {
            Op::Set(k, f, t) => {
                let t = match t {
                    Text::Table(d, a, s) => gen::print_table(&a.fix(*d)?, *d, *s),
                    Text::Expr(x, s) => gen::print_regex(&x.fix(), *s),
                    Text::Raw(s) => s.clone(),
                    Text::Cut(d, a, n) => gen::print_table(&a.fix(*d)?, *d, 0).chars().take(*n).collect(),
                    Text::Field(k, f) => p.sec(*k).fields[f % k.fields()].clone(),
                    Text::Like(k, f, s) => {
                        let t = gen::touch(&p.sec(*k).fields[f % k.fields()], *s);
                        if matches!(reader::table(&t, false), Rd::Good(a) if !gen::tame(&a)) {
                            return invalid("determinising it is too much work");
                        }
                        t
                    }
                    Text::Result(k) => p.sec(*k).outs.iter().find(|o| o.0 == "textarea").map(|o| o.1.clone()).unwrap_or_default(),
                };
                // a table read as an expression makes a table many times its length, so that a few rounds would fill the memory
                let t = if k.lang() == 2 { t.chars().take(300).collect() } else { t };
                let f = f % k.fields();
                let i = p.at[*k as usize];
                p.seen.sections[i].fields[f] = t.replace("\r\n", "\n").replace('\r', "\n");
                let may: Vec<Kind> = p.pending.iter().map(|p| p.0).collect();
                p.tell(b, json!({"t": "set", "s": i, "f": f, "text": t}), &mut Faults::default(), &may, "writing into a field", ctx)?;
                ctx.hit("op:write into a field");
                ctx.ev(format!("set {k:?} {f} {:x}", hash_str(&t)));
            }
            Op::Click(k, settle) => {
                let texts = p.sec(*k).fields.clone();
                p.pending.push((*k, texts, false));
                let may: Vec<Kind> = p.pending.iter().map(|p| p.0).collect();
                let mut f = std::mem::take(&mut fl);
                if !p.ready {
                    ctx.hit("fault:click before the bindings are loaded");
                }
                let i = p.at[*k as usize];
                p.tell(b, json!({"t": "click", "s": i}), &mut f, &may, "a click", ctx)?;
                if f.struck {
                    p.pending.last_mut().unwrap().2 = true;
                }
                ctx.ev(format!("click {k:?} -> {:?}", hash_str(&format!("{:?}", p.sec(*k)))));
                if *settle {
                    p.settle(b, &helper, ctx)?;
                } else {
                    ctx.hit("fault:no time to finish after a click");
                }
            }
            Op::Wait(ms) => {
                let may: Vec<Kind> = p.pending.iter().map(|p| p.0).collect();
                p.tell(b, json!({"t": "wait", "ms": ms}), &mut Faults::default(), &may, "waiting", ctx)?;
            }
            Op::Init(ok) => {
                // before, clicks have no effect
                p.settle(b, &helper, ctx)?;
                p.tell(b, json!({"t": "init", "ok": ok}), &mut Faults::default(), &[], "loading the bindings", ctx)?;
                if *ok {
                    ensure(p.seen.errors.is_empty(), "script-error", || format!("the page's script failed: {:?}", p.seen.errors))?;
                    p.ready = true;
                } else {
                    ctx.hit("fault:the bindings cannot be loaded");
                }
                p.seen.errors.clear();
                ctx.ev(format!("init {ok}"));
                if !ok {
                    // nothing will work on this page
                    continue;
                }
            }
            Op::Reload(e) => {
                p = Page::load(b, &html, *e, ctx)?;
                ctx.hit("fault:page reloaded");
                ctx.ev("reload");
            }
            Op::Trap(n) => fl = Faults { trap: Some(*n), ..Default::default() },
            Op::Lose(n) => fl = Faults { lose: Some(*n), ..Default::default() },
        }
    }
    p.settle(b, &helper, ctx)
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    let mut inits = 0;
    for op in &c.steps {
        match op {
            Op::Init(_) => inits += 1,
            Op::Reload(_) => inits = 0,
            _ => {}
        }
        if inits > 1 {
            return invalid("the bindings are loaded twice");
        }
    }
    let mut b = BROWSER.with(|b| b.borrow_mut().take()).unwrap_or_else(Browser::start);
    let r = go(c, &mut b, ctx);
    if matches!(r, Ok(())) && b.pages < 3000 {
        BROWSER.with(|s| *s.borrow_mut() = Some(b));
    }
    r
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C22",
        gen,
        run,
        quick: 20_000,
        thorough: 400_000,
        level: "exploration",
        rule: "a seeded user of the page website/index.html who writes valid, damaged, foreign and copied texts into its fields and clicks its buttons in a seeded order, also before the bindings are loaded, without waiting, after failing calls, lost canvas contexts and reloads; after each click at rest every section is compared with what its fields said when it was clicked; non-trivial: a verdict, a resulting table or a picture with more than one text was compared",
        assumptions: BASE_ASSUME,
        real: &["website/index.html: its text, its elements and its script, run by node's JavaScript engine", "dandy-wasm (compiled for the host)", "dandy-draw", "dandy"],
        stub: &["the browser around the script: a small document, events, timers and canvas in sim/page/page.js", "wasm-bindgen's glue between JavaScript and Rust (argument and result conversion)", "js-sys and web-sys: stand-in crates", "operating-system entropy: seeded"],
    }
}
