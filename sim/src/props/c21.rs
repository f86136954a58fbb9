//! C21: drawings on the canvases of a simulated page.
use super::c10::{self, bag_diff, draw, gen_opt, q, Opt, Prim, Rec};
use super::pic::*;
use super::*;
use dandy_draw::canvas::CanvasDrawer;
use serde::{Deserialize, Serialize};
use web_sys::sim::{page, Call, Ctx as El2d, El};
use web_sys::wasm_bindgen::JsCast;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    base: Vec<(bool, Aut)>,
    style: u64,
    opts: Vec<Opt>,
    /// identifier, what it is: 0 canvas, 1 canvas without a context, 2 one whose context throws,
    /// 3 one with a foreign context, 4 not a canvas
    elements: Vec<(u8, u8)>,
    steps: Vec<Step>,
    entropy: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// automaton, identifier, whether the page's window and document are there, the number of the
    /// failing call (0: none)
    Draw(usize, u8, u8, usize),
    /// automaton, element, options, by `from_element`, the number of the failing call
    Own(usize, usize, usize, bool, usize),
    /// single requests, element, by `from_element`, the number of the failing call
    Sketch(Vec<Ink>, usize, bool, usize),
    /// the page's own scripts use the context of this element
    Script(usize, Vec<Pen>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Pen {
    Align(u8),
    Baseline(u8),
    Width(u8),
    Stroke(u8),
    Fill(u8),
    Begin,
    Move(i16, i16),
    Line(i16, i16),
    Arc(i16, i16, u8),
}
const ALIGN: [&str; 5] = ["start", "end", "left", "right", "center"];
const BASE: [&str; 6] = ["alphabetic", "top", "hanging", "middle", "ideographic", "bottom"];

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let base = (0..r.range(1, 3)).map(|_| gen_aut(r, if thorough { 8 } else { 5 })).collect::<Vec<_>>();
    // a canvas has no circles of negative radius
    let opts = (0..r.range(1, 3))
        .map(|_| {
            let mut o = gen_opt(r);
            o.scale = (o.scale.0.abs(), o.scale.1.abs());
            o
        })
        .collect::<Vec<_>>();
    let elements: Vec<(u8, u8)> =
        (0..r.range(1, 4)).map(|i| (if r.chance(1, 8) { 0 } else { i as u8 }, if r.chance(2, 3) { 0 } else { r.below(5) as u8 })).collect();
    let n = r.range(2, if thorough { 14 } else { 7 });
    let faulty = r.chance(1, 2);
    let steps = (0..n)
        .map(|_| {
            let fail = if faulty && r.chance(1, 4) { r.range(1, 30) } else { 0 };
            match r.below(7) {
                6 => Step::Sketch(gen_ink(r), r.below(elements.len()), r.chance(1, 2), fail),
                0 | 1 | 2 => Step::Draw(
                    r.below(base.len()),
                    if r.chance(1, 10) { 9 } else { elements[r.below(elements.len())].0 },
                    if faulty && r.chance(1, 8) { r.below(3) as u8 } else { 3 },
                    fail,
                ),
                3 => Step::Own(r.below(base.len()), r.below(elements.len()), r.below(opts.len()), r.chance(1, 2), fail),
                _ => {
                    let p = |r: &mut Rng| (r.below(400) as i16, r.below(300) as i16);
                    Step::Script(
                        r.below(elements.len()),
                        (0..r.range(1, 5))
                            .map(|_| match r.below(10) {
                                0 | 1 => Pen::Align(r.below(5) as u8),
                                2 | 3 => Pen::Baseline(r.below(6) as u8),
                                4 => Pen::Width(r.below(9) as u8),
                                5 => Pen::Stroke(r.below(255) as u8),
                                6 => Pen::Fill(r.below(255) as u8),
                                7 => Pen::Begin,
                                8 => {
                                    let (x, y) = p(r);
                                    if r.chance(1, 2) {
                                        Pen::Move(x, y)
                                    } else {
                                        Pen::Line(x, y)
                                    }
                                }
                                _ => {
                                    let (x, y) = p(r);
                                    Pen::Arc(x, y, r.below(50) as u8)
                                }
                            })
                            .collect(),
                    )
                }
            }
        })
        .collect();
    Case { base, style: r.seed() * (r.below(2) as u64), opts, elements, steps, entropy: r.seed() }
}

#[derive(Clone, Debug, PartialEq)]
enum Sub {
    Line((f64, f64), (f64, f64)),
    Circle((f64, f64), f64),
    Box((f64, f64), (f64, f64)),
}
/// the drawing state of a canvas, and what was painted on it
#[derive(Clone)]
struct Paint {
    width: f64,
    stroke: [u8; 3],
    fill: [u8; 3],
    align: String,
    baseline: String,
    path: Vec<Sub>,
    /// start of the current subpath and its last point
    at: Option<((f64, f64), (f64, f64))>,
    stack: Vec<(f64, [u8; 3], [u8; 3], String, String)>,
    prims: Vec<Prim>,
    askew: Option<String>,
    unmodelled: Option<String>,
}
impl Paint {
    fn new() -> Self {
        Paint {
            width: 1.0,
            stroke: [0; 3],
            fill: [0; 3],
            align: "start".into(),
            baseline: "alphabetic".into(),
            path: vec![],
            at: None,
            stack: vec![],
            prims: vec![],
            askew: None,
            unmodelled: None,
        }
    }
    fn style(&mut self, s: &str, stroke: bool) {
        let Some(c) = colour(s) else {
            // a canvas ignores a style it cannot read
            return;
        };
        if stroke {
            self.stroke = c
        } else {
            self.fill = c
        }
    }
    /// a later paint of the same thing covers the earlier one
    fn put(&mut self, p: Prim) {
        self.prims.retain(|x| !covers(&p, x));
        self.prims.push(p);
    }
    fn call(&mut self, c: &Call) {
        match c {
            Call::BeginPath => {
                self.path.clear();
                self.at = None;
            }
            Call::ClosePath => {
                if let Some((s, e)) = self.at {
                    if s != e {
                        self.path.push(Sub::Line(e, s));
                    }
                    self.at = Some((s, s));
                }
            }
            Call::MoveTo(x, y) => self.at = Some(((*x, *y), (*x, *y))),
            Call::LineTo(x, y) => match self.at {
                None => self.at = Some(((*x, *y), (*x, *y))),
                Some((s, e)) => {
                    self.path.push(Sub::Line(e, (*x, *y)));
                    self.at = Some((s, (*x, *y)));
                }
            },
            Call::Arc(x, y, r, a, b) => {
                if (b - a).abs() < 2.0 * std::f64::consts::PI - 1e-6 {
                    self.unmodelled = Some("an arc that is not a circle".into());
                    return;
                }
                let p = (x + r * a.cos(), y + r * a.sin());
                match self.at {
                    Some((s, e)) => {
                        if e != p {
                            self.path.push(Sub::Line(e, p));
                        }
                        self.at = Some((s, p));
                    }
                    None => self.at = Some((p, p)),
                }
                self.path.push(Sub::Circle((*x, *y), *r));
            }
            Call::Stroke => {
                let (w, c) = (self.width, self.stroke);
                for s in self.path.clone() {
                    self.put(match s {
                        Sub::Line(a, b) => c10::line(a, b, w, c),
                        Sub::Box(..) => {
                            self.unmodelled = Some("the outline of a rectangle".into());
                            return;
                        }
                        Sub::Circle(p, r) => Prim::Circle { at: (q(p.0), q(p.1)), radius: q(r), width: q(w), rgb: c },
                    });
                }
            }
            Call::Fill => match self.path[..] {
                [] | [Sub::Line(..)] => (),
                [Sub::Box(at, size)] => {
                    let rgb = self.fill;
                    self.put(Prim::Rect { at: (q(at.0), q(at.1)), size: (q(size.0), q(size.1)), rgb })
                }
                _ => self.unmodelled = Some("a filled path".into()),
            },
            Call::FillText(t, x, y) => {
                if (self.align != "center" || self.baseline != "middle") && self.askew.is_none() {
                    self.askew = Some(format!("the text '{t}' is aligned {} {}", self.align, self.baseline));
                }
                let rgb = self.fill;
                self.put(Prim::Text { at: (q(*x), q(*y)), text: t.clone(), rgb });
            }
            Call::FillRect(x, y, w, h) => self.put(Prim::Rect { at: (q(*x), q(*y)), size: (q(*w), q(*h)), rgb: self.fill }),
            Call::ClearRect(..) => {
                self.prims.clear();
                self.unmodelled.get_or_insert("a cleared part of the canvas".into());
            }
            Call::LineWidth(w) => {
                if *w > 0.0 && w.is_finite() {
                    self.width = *w
                }
            }
            Call::StrokeStyle(s) => self.style(s, true),
            Call::FillStyle(s) => self.style(s, false),
            Call::TextAlign(s) => {
                if ALIGN.contains(&&s[..]) {
                    self.align = s.clone()
                }
            }
            Call::TextBaseline(s) => {
                if BASE.contains(&&s[..]) {
                    self.baseline = s.clone()
                }
            }
            Call::Font(_) => {}
            Call::Save => self.stack.push((self.width, self.stroke, self.fill, self.align.clone(), self.baseline.clone())),
            Call::Restore => {
                if let Some((w, s, f, a, b)) = self.stack.pop() {
                    (self.width, self.stroke, self.fill, self.align, self.baseline) = (w, s, f, a, b);
                }
            }
            Call::Rect(x, y, w, h) => {
                self.path.push(Sub::Box((*x, *y), (*w, *h)));
                self.at = Some(((*x, *y), (*x, *y)));
            }
            Call::StrokeRect(..) => self.unmodelled = Some("a rectangle".into()),
            Call::Other(s) => self.unmodelled = Some(s.to_string()),
        }
    }
}
fn covers(new: &Prim, old: &Prim) -> bool {
    match (new, old) {
        (Prim::Circle { at, radius, width, .. }, Prim::Circle { at: a, radius: r, width: w, .. }) => at == a && radius == r && width >= w,
        (Prim::Text { at, text, .. }, Prim::Text { at: a, text: t, .. }) => at == a && text == t,
        (Prim::Line { a, b, width, .. }, Prim::Line { a: c, b: d, width: w, .. }) => a == c && b == d && width >= w,
        (Prim::Rect { at, size, .. }, Prim::Rect { at: a, size: s, .. }) => at == a && size == s,
        _ => false,
    }
}
/// the notations of a colour a canvas understands (those this program could use)
fn colour(s: &str) -> Option<[u8; 3]> {
    let s = s.trim().to_ascii_lowercase();
    if let Some(h) = s.strip_prefix('#') {
        if h.len() != 6 || !h.is_ascii() {
            return None;
        }
        let x = u32::from_str_radix(h, 16).ok()?;
        return Some([(x >> 16) as u8, (x >> 8) as u8, x as u8]);
    }
    let (s, alpha) = match s.strip_prefix("rgba(") {
        Some(t) => (t, true),
        None => (s.strip_prefix("rgb(")?, false),
    };
    let s = s.strip_suffix(')')?;
    let mut v: Vec<&str> = if s.contains(',') { s.split(',').map(|x| x.trim()).collect() } else { s.split_whitespace().collect() };
    if v.len() == 5 && v[3] == "/" {
        v.remove(3);
    }
    if v.len() == 4 || alpha {
        let a = v.pop()?;
        if a != "1" && a != "1.0" && a != "100%" {
            return None;
        }
    }
    let v: Vec<u8> = v.iter().map(|x| x.parse::<f64>().ok().map(|x| x.round().clamp(0.0, 255.0) as u8)).collect::<Option<_>>()?;
    v.try_into().ok()
}

fn drive(c: &Case, base: &[(bool, Aut)], ctx: &mut Ctx) -> R {
    let mut objs = vec![];
    let mut handles = vec![];
    for (i, (d, a)) in base.iter().enumerate() {
        let s = if c.style == 0 { 0 } else { c.style + i as u64 };
        let o = Obj::make(*d, a, s)?;
        let text = gen::print_table(a, *d, s);
        let h = if *d { dandy_wasm::load_dfa(&text) } else { dandy_wasm::load_nfa(&text) };
        let Ok(h) = h else { return viol("load", format!("the bindings do not read\n{text}")) };
        objs.push(o);
        handles.push(h);
    }
    let name = |k: u8| format!("c{k}");
    page(|p| {
        p.elements = c
            .elements
            .iter()
            .map(|(k, e)| {
                (
                    name(*k),
                    match e {
                        0 => El::Canvas(El2d::Good),
                        1 => El::Canvas(El2d::None),
                        2 => El::Canvas(El2d::Throws),
                        3 => El::Canvas(El2d::Other),
                        _ => El::Other,
                    },
                )
            })
            .collect();
    });
    let mut canvases: Vec<Paint> = c.elements.iter().map(|_| Paint::new()).collect();
    for step in &c.steps {
        for p in &mut canvases {
            p.prims.clear();
            p.askew = None;
            p.unmodelled = None;
        }
        let up = |present: u8, fail: usize| {
            page(|p| {
                p.window = present > 0;
                p.document = present > 1;
                p.calls.clear();
                p.fail_at = (fail > 0).then_some(fail);
                p.fallible = 0;
            })
        };
        // which automaton, where, with what, and whether that can succeed
        let (i, target, opt, res, possible, fail) = match step {
            Step::Script(e, pens) => {
                ctx.hit("fault:the page's scripts left the context in another state");
                let p = &mut canvases[e % c.elements.len()];
                for pen in pens {
                    match pen {
                        Pen::Align(x) => p.call(&Call::TextAlign(ALIGN[*x as usize % 5].into())),
                        Pen::Baseline(x) => p.call(&Call::TextBaseline(BASE[*x as usize % 6].into())),
                        Pen::Width(x) => p.call(&Call::LineWidth(*x as f64 + 1.0)),
                        Pen::Stroke(x) => p.call(&Call::StrokeStyle(format!("rgb({x}, 7, 8)"))),
                        Pen::Fill(x) => p.call(&Call::FillStyle(format!("rgb({x}, 9, 10)"))),
                        Pen::Begin => p.call(&Call::BeginPath),
                        Pen::Move(x, y) => p.call(&Call::MoveTo(*x as f64, *y as f64)),
                        Pen::Line(x, y) => p.call(&Call::LineTo(*x as f64, *y as f64)),
                        Pen::Arc(x, y, r) => p.call(&Call::Arc(*x as f64, *y as f64, *r as f64, 0.0, 7.0)),
                    }
                }
                ctx.ev(format!("script {e} {}", pens.len()));
                continue;
            }
            Step::Draw(i, id, present, fail) => {
                let i = i % objs.len();
                up(*present, *fail);
                let target = c.elements.iter().position(|e| e.0 == *id);
                let d = c.base[i].0;
                let res = guarded(|| if d { dandy_wasm::draw_dfa(handles[i], &name(*id)) } else { dandy_wasm::draw_nfa(handles[i], &name(*id)) });
                let possible = *present > 1 && target.is_some_and(|t| c.elements[t].1 == 0);
                ctx.hit(match (present, target.map(|t| c.elements[t].1)) {
                    (0, _) => "fault:no window",
                    (1, _) => "fault:no document",
                    (_, None) => "fault:no such element",
                    (_, Some(0)) => "op:draw by identifier",
                    (_, Some(1)) => "fault:canvas without a context",
                    (_, Some(2)) => "fault:asking for the context throws",
                    (_, Some(3)) => "fault:a context of another kind",
                    _ => "fault:element is not a canvas",
                });
                (i, target, None, res, possible, *fail)
            }
            Step::Own(..) | Step::Sketch(..) => {
                let (i, e, o, from, fail, ink) = match step {
                    Step::Own(i, e, o, from, fail) => (*i, *e, *o, from, fail, None),
                    Step::Sketch(ink, e, from, fail) => (0, *e, 0, from, fail, Some(ink)),
                    _ => unreachable!(),
                };
                let (i, e, o) = (i % objs.len(), e % c.elements.len(), o % c.opts.len());
                up(2, *fail);
                let doc = web_sys::window().and_then(|w| w.document()).expect("the page");
                // an element hidden by another of its name cannot be had
                let first = c.elements.iter().position(|x| x.0 == c.elements[e].0).unwrap();
                let el = doc.get_element_by_id(&name(c.elements[e].0)).expect("an element");
                let Ok(el) = el.dyn_into::<web_sys::HtmlCanvasElement>() else { continue };
                let kind = c.elements[first].1;
                let x = &objs[i];
                let opt = &c.opts[o];
                if !*from && kind != 0 {
                    continue;
                }
                let res = guarded(|| {
                    let drawer = if *from {
                        CanvasDrawer::from_element(el)
                    } else {
                        Some(CanvasDrawer::new(el.get_context("2d").unwrap().unwrap().unchecked_into()))
                    };
                    match drawer {
                        None => false,
                        Some(mut d) => {
                            match ink {
                                Some(ink) => sketch(ink, &mut d),
                                None => draw(x, opt, false, &mut d),
                            }
                            true
                        }
                    }
                });
                ctx.hit(if *from { "op:CanvasDrawer::from_element" } else { "op:CanvasDrawer::new" });
                if kind != 0 {
                    ctx.hit("fault:canvas without a usable context");
                    ensure(res == Ok(false), "from-element", || format!("from_element of a canvas without a 2d context: {res:?}"))?;
                }
                (i, Some(first), Some(opt), res, kind == 0, *fail)
            }
        };
        let (calls, failed) = page(|p| (std::mem::take(&mut p.calls), p.fail_at.is_some_and(|n| p.fallible >= n)));
        for (k, call) in &calls {
            canvases[*k].call(call);
        }
        ctx.ev(format!("{step:?}: {res:?} {} calls", calls.len()));
        let what = || format!("{} {i}", if c.base[i].0 { "DFA" } else { "NFA" });
        if failed {
            ctx.hit("fault:the context is lost while drawing");
        }
        ensure(res == Ok(true) || !(possible && !failed && fail == 0), "not-drawn", || format!("drawing {} on a good canvas: {res:?}", what()))?;
        ensure(res != Ok(true) || possible, "false-success", || format!("drawing {} reported success where there is no canvas to draw on", what()))?;
        for (k, p) in canvases.iter().enumerate() {
            ensure(Some(k) == target || p.prims.is_empty(), "wrong-canvas", || format!("drawing {} painted on element {k} instead of {target:?}", what()))?;
        }
        if res != Ok(true) {
            objs[i].unchanged()?;
            continue;
        }
        if failed {
            return viol("false-success", format!("drawing {} reported success although the context was lost", what()));
        }
        let p = &canvases[target.unwrap()];
        if let Some(u) = &p.unmodelled {
            ctx.hit("outcome: not judged (a canvas operation the simulated page does not model)");
            ctx.ev(u);
            continue;
        }
        if let Some(a) = &p.askew {
            return viol("not-centred", format!("drawing {}: {a}", what()));
        }
        let mut rec = Rec::new(0);
        match step {
            Step::Sketch(ink, ..) => sketch(ink, &mut rec),
            _ => draw(&objs[i], opt.unwrap_or(&Opt::plain()), false, &mut rec),
        }
        let mut want = Paint::new();
        rec.prims.iter().for_each(|x| want.put(x.clone()));
        if let Some(d) = bag_diff(&p.prims, &want.prims) {
            return viol("canvas", format!("what {} looks like on the canvas is not what was requested: {d}", what()));
        }
        ctx.hit("pictures compared");
        ctx.nontrivial |= objs[i].aut().len() > 1;
        objs[i].unchanged()?;
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    if c.base.is_empty() || c.opts.is_empty() || c.elements.is_empty() || !c.opts.iter().all(Opt::sane) {
        return invalid("nothing to draw");
    }
    let base = c.base.iter().map(|(d, a)| Ok((*d, plain(a, *d)?))).collect::<R<Vec<_>>>()?;
    ctx.thread(c.entropy, |ctx| drive(c, &base, ctx))
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C21",
        gen,
        run,
        quick: 150_000,
        thorough: 5_000_000,
        level: "exploration",
        rule: "a simulated page with one to four elements on which seeded automata are drawn in a seeded order through the bindings and through CanvasDrawer, while the page's scripts change the contexts and windows, elements and contexts are missing or lost; the calls are painted by a model of a canvas and compared with what a recording Drawer receives; non-trivial: an automaton with more than one state was drawn and compared",
        assumptions: BASE_ASSUME,
        real: &["dandy-draw (layout, drawing, CanvasDrawer)", "dandy-wasm (draw_dfa, draw_nfa, load_*)", "dandy"],
        stub: &["the JavaScript engine, the page and its canvases: stand-in crates for wasm-bindgen, js-sys and web-sys", "operating-system entropy: seeded"],
    }
}
