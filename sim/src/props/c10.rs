//! C10: frames requested of a recording drawer.
use super::pic::*;
use super::*;
use dandy_draw::pos2::Pos2;
use dandy_draw::{DrawOptions, Drawer};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    base: Vec<(bool, Aut)>,
    style: u64,
    /// drawing options in half units: see `Opt`
    opts: Vec<Opt>,
    /// automaton, options, and the number of drawing calls after which the canvas is lost (0: never)
    frames: Vec<(usize, usize, usize)>,
    entropy: Vec<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Opt {
    /// use the library's defaults and its plain entry points
    default: bool,
    pub scale: (i32, i32),
    offset: (i32, i32),
    padding: u32,
    radius: u32,
    floor: u32,
    from_to: (u32, u32),
    arms: u32,
    margin: u32,
    text_margin: u32,
    init_len: u32,
    end_arrow: bool,
    middle_arrow: bool,
    rgb: u8,
}

pub fn gen_opt(r: &mut Rng) -> Opt {
    Opt {
        default: r.chance(1, 4),
        scale: if r.chance(1, 6) {
            let extreme = [17, 24, 40, -16, 100, 1000, 1001, -1000];
            (*r.pick(&extreme), *r.pick(&extreme))
        } else {
            (*r.pick(&[2, 2, 1, 4, 3, 6, -2]), *r.pick(&[2, 2, 1, 4, 3, 5, -2]))
        },
        offset: if r.chance(1, 10) {
            (r.below(20_000) as i32 - 10_000, r.below(20_000) as i32 - 10_000)
        } else {
            (r.below(200) as i32 - 100, r.below(200) as i32 - 100)
        },
        padding: r.range(10, 60) as u32,
        radius: r.range(30, 80) as u32,
        floor: r.range(30, 80) as u32,
        from_to: (r.below(29) as u32, r.below(29) as u32),
        arms: r.range(1, 15) as u32,
        margin: r.below(30) as u32,
        text_margin: r.range(2, 29) as u32,
        init_len: r.range(20, 120) as u32,
        end_arrow: r.chance(3, 4),
        middle_arrow: r.chance(3, 4),
        rgb: r.below(250) as u8,
    }
}

impl Opt {
    pub fn plain() -> Self {
        let mut o = gen_opt(&mut Rng::new(0));
        o.default = true;
        o
    }
    pub fn sane(&self) -> bool {
        self.default || !(self.radius < 10 || self.padding < 2 || self.floor < 4 || self.arms == 0 || self.text_margin == 0)
    }
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let base = (0..r.range(1, 3)).map(|_| gen_aut(r, if thorough { 10 } else { 7 })).collect::<Vec<_>>();
    let opts = (0..r.range(1, 3))
        .map(|_| gen_opt(r))
        .collect::<Vec<_>>();
    let n = r.range(2, if thorough { 12 } else { 6 });
    let frames = (0..n)
        .map(|_| (r.below(base.len()), r.below(opts.len()), if r.chance(1, 6) { r.range(1, 40) } else { 0 }))
        .collect();
    Case { base, style: r.seed() * (r.below(2) as u64), opts, frames, entropy: (0..r.range(2, 3)).map(|_| r.seed()).collect() }
}

/// A drawing request, coordinates in 1/64 units; lines with their ends in ascending order.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Prim {
    Circle { at: (i64, i64), radius: i64, width: i64, rgb: [u8; 3] },
    Text { at: (i64, i64), text: String, rgb: [u8; 3] },
    Line { a: (i64, i64), b: (i64, i64), width: i64, rgb: [u8; 3] },
    Rect { at: (i64, i64), size: (i64, i64), rgb: [u8; 3] },
}
const U: f64 = 64.0;
pub fn q(x: f64) -> i64 {
    (x * U).round() as i64
}
fn qp(p: Pos2) -> (i64, i64) {
    (q(p.x as f64), q(p.y as f64))
}
pub fn line(a: (f64, f64), b: (f64, f64), width: f64, rgb: [u8; 3]) -> Prim {
    let (a, b) = ((q(a.0), q(a.1)), (q(b.0), q(b.1)));
    Prim::Line { a: a.min(b), b: a.max(b), width: q(width), rgb }
}

pub struct Rec {
    pub prims: Vec<Prim>,
    rgb: [u8; 3],
    started: u32,
    finished: u32,
    outside: bool,
    lost_after: usize,
    calls: usize,
}
impl Rec {
    pub fn new(lost_after: usize) -> Self {
        Rec { prims: vec![], rgb: [0; 3], started: 0, finished: 0, outside: false, lost_after, calls: 0 }
    }
    fn call(&mut self) {
        self.calls += 1;
        if self.lost_after > 0 && self.calls > self.lost_after {
            panic!("canvas lost");
        }
        if self.started != 1 || self.finished != 0 {
            self.outside = true;
        }
    }
}
impl Drawer for Rec {
    fn start_drawing(&mut self) {
        self.started += 1;
    }
    fn finish_drawing(&mut self) {
        self.finished += 1;
    }
    fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
        self.call();
        self.prims.push(Prim::Circle { at: qp(pos), radius: q(radius as f64), width: q(thickness as f64), rgb: self.rgb });
    }
    fn draw_centered_text(&mut self, pos: Pos2, text: &str) {
        self.call();
        self.prims.push(Prim::Text { at: qp(pos), text: text.into(), rgb: self.rgb });
    }
    fn draw_rect(&mut self, ul: Pos2, size: Pos2) {
        self.call();
        self.prims.push(Prim::Rect { at: qp(ul), size: qp(size), rgb: self.rgb });
    }
    fn draw_line(&mut self, from: Pos2, to: Pos2, thickness: f32) {
        self.call();
        let f = |p: Pos2| (p.x as f64, p.y as f64);
        self.prims.push(line(f(from), f(to), thickness as f64, self.rgb));
    }
    fn set_color(&mut self, rgb: [u8; 3]) {
        self.rgb = rgb;
    }
}

#[derive(Clone)]
struct Geo {
    sx: f64,
    sy: f64,
    ox: f64,
    oy: f64,
    pad: f64,
    r: f64,
    rw: f64,
    ar: f64,
    arw: f64,
    il: f64,
    ia: f64,
    iw: f64,
    ta: f64,
    tw: f64,
    from: f64,
    to: f64,
    floor: f64,
    tm: f64,
    lcm: f64,
    end: bool,
    mid: bool,
    text: [u8; 3],
    circle: [u8; 3],
    line: [u8; 3],
}

fn geo(o: &Opt, unscaled: bool) -> Geo {
    let mut g = Geo {
        sx: 1.0, sy: 1.0, ox: 0.0, oy: 0.0, pad: 20.0, r: 30.0, rw: 2.0, ar: 25.0, arw: 2.0, il: 50.0, ia: 15.0, iw: 3.0,
        ta: 5.0, tw: 3.0, from: 15.0, to: 15.0, floor: 25.0, tm: 15.0, lcm: 10.0, end: true, mid: true,
        text: [255, 255, 255], circle: [150, 255, 255], line: [0, 255, 255],
    };
    if !o.default {
        let h = |x: u32| x as f64 / 2.0;
        g.pad = h(o.padding);
        g.r = h(o.radius);
        g.ar = h(o.radius) - 2.5;
        g.il = h(o.init_len);
        g.ta = h(o.arms);
        g.ia = h(o.arms) + 3.0;
        g.iw = h(1 + o.init_len % 6);
        g.rw = h(1 + o.radius % 6);
        g.arw = h(1 + o.padding % 5);
        g.tw = h(1 + o.arms % 7);
        g.from = h(o.from_to.0).min(g.r / 2.0);
        g.to = h(o.from_to.1).min(g.r / 2.0);
        g.floor = h(o.floor);
        g.tm = h(o.text_margin).min(g.floor);
        g.lcm = h(o.margin);
        g.end = o.end_arrow;
        g.mid = o.middle_arrow;
        g.text = [o.rgb, 1, 2];
        g.circle = [o.rgb, 3, 4];
        g.line = [o.rgb, 5, 6];
        if !unscaled {
            // from 1000 on: 1/4, 1/8
            let s = |x: i32| match x.abs() {
                0 => 1.0,
                n if n >= 1000 => x.signum() as f64 / f64::from(4 << (n - 1000).min(1)),
                _ => x as f64 / 2.0,
            };
            g.sx = s(o.scale.0);
            g.sy = s(o.scale.1);
            g.ox = o.offset.0 as f64 / 2.0;
            g.oy = o.offset.1 as f64 / 2.0;
        }
    }
    g
}

pub fn draw<T: Drawer>(x: &Obj, o: &Opt, unscaled: bool, c: &mut T) {
    if o.default {
        match x {
            Obj::D(d, _) => dandy_draw::draw_dfa(d, c),
            Obj::N(d, _) => dandy_draw::draw_nfa(d, c),
        }
        return;
    }
    let g = geo(o, unscaled);
    let f = |x: f64| x as f32;
    let opts = DrawOptions::default()
        .with_x_scale(f(g.sx))
        .with_y_scale(f(g.sy))
        .with_x_offset(f(g.ox))
        .with_y_offset(f(g.oy))
        .with_center_line_padding(f(g.pad))
        .with_circle_radius(f(g.r))
        .with_circle_width(f(g.rw))
        .with_accepting_circle_radius(f(g.ar))
        .with_accepting_circle_width(f(g.arw))
        .with_init_arrow_length(f(g.il))
        .with_init_arrow_arms_length(f(g.ia))
        .with_init_arrow_width(f(g.iw))
        .with_trans_arrow_arms_length(f(g.ta))
        .with_trans_line_width(f(g.tw))
        .with_from_line_offset(f(g.from))
        .with_to_line_offset(f(g.to))
        .with_floor_height(f(g.floor))
        .with_text_margin(f(g.tm))
        .with_line_circle_margin(f(g.lcm))
        .with_end_arrow(g.end)
        .with_middle_arrow(g.mid)
        .with_text_color(g.text)
        .with_circle_color(g.circle)
        .with_line_color(g.line);
    match x {
        Obj::D(d, _) => dandy_draw::draw_dfa_with_opts(d, c, opts),
        Obj::N(d, _) => dandy_draw::draw_nfa_with_opts(d, c, opts),
    }
}

fn bag(v: &[Prim]) -> BTreeMap<Prim, usize> {
    let mut m = BTreeMap::new();
    for p in v {
        *m.entry(p.clone()).or_insert(0) += 1;
    }
    m
}

/// equal up to rounding in the last place of the library's f32 arithmetic
pub fn bag_diff(got: &[Prim], want: &[Prim]) -> Option<String> {
    let (g, w) = (bag(got), bag(want));
    for (p, n) in &w {
        let m = g.get(p).copied().unwrap_or(0);
        if m < *n {
            return Some(format!("missing ({m} instead of {n}): {p:?}"));
        }
    }
    for (p, n) in &g {
        let m = w.get(p).copied().unwrap_or(0);
        if m < *n {
            return Some(format!("superfluous ({n} instead of {m}): {p:?}"));
        }
    }
    None
}

/// Reads the picture (drawn without scale and offset) as an automaton and checks it.
fn check_picture(a: &Aut, g: &Geo, prims: &[Prim]) -> R {
    let mut want = vec![];
    // states: by their names
    let n = a.len();
    let mut pos: Vec<(f64, f64)> = vec![];
    let big: Vec<(i64, i64)> = prims
        .iter()
        .filter_map(|p| match p {
            Prim::Circle { at, radius, width, .. } if *radius == q(g.r) && *width == q(g.rw) => Some(*at),
            _ => None,
        })
        .collect();
    ensure(big.len() == n, "states", || format!("{} circles for {n} states", big.len()))?;
    for s in &a.st {
        let c: Vec<(i64, i64)> = prims
            .iter()
            .filter_map(|p| match p {
                Prim::Text { at, text, .. } if *text == s.n && big.contains(at) => Some(*at),
                _ => None,
            })
            .collect();
        ensure(c.len() == 1, "states", || format!("state {} is shown {} times", s.n, c.len()))?;
        pos.push((c[0].0 as f64 / U, c[0].1 as f64 / U));
    }
    let cy = pos[0].1;
    for i in 0..n {
        for j in 0..i {
            let d = ((pos[i].0 - pos[j].0).powi(2) + (pos[i].1 - pos[j].1).powi(2)).sqrt();
            ensure(d >= 2.0 * g.r - 0.1, "states-overlap", || format!("states {} and {} overlap", a.st[j].n, a.st[i].n))?;
        }
        ensure((pos[i].1 - cy).abs() < 0.1 && (i == 0 || pos[i].0 > pos[i - 1].0), "states", || {
            "the states are not drawn in a row in their order".into()
        })?;
    }
    for (i, s) in a.st.iter().enumerate() {
        let at = (q(pos[i].0), q(pos[i].1));
        want.push(Prim::Circle { at, radius: q(g.r), width: q(g.rw), rgb: g.circle });
        if s.a {
            want.push(Prim::Circle { at, radius: q(g.ar), width: q(g.arw), rgb: g.circle });
        }
        want.push(Prim::Text { at, text: s.n.clone(), rgb: g.text });
    }
    // the initial state's mark below it
    let (ix, iy) = (pos[a.init].0, cy + g.r + g.pad);
    want.push(line((ix, iy), (ix, iy + g.il), g.iw, g.line));
    want.push(line((ix, iy), (ix + g.ia, iy + g.ia), g.iw, g.line));
    want.push(line((ix, iy), (ix - g.ia, iy + g.ia), g.iw, g.line));
    // the arrow at the left margin, which points at the first state
    if a.init == 0 {
        want.push(line((0.0, cy), (g.il, cy), g.iw, g.line));
        want.push(line((g.il, cy), (g.il - g.ia, cy - g.ia), g.iw, g.line));
        want.push(line((g.il, cy), (g.il - g.ia, cy + g.ia), g.iw, g.line));
    }
    // transitions: one arrow per pair of states and direction, found by its label
    let base = cy - g.r - g.lcm;
    let have = bag(prims);
    let span = |l: usize, r: usize| (pos[l].0 + g.from, pos[r].0 - g.to);
    let head = |l: usize, r: usize, d: Dir, h: f64| {
        let (x0, x1) = span(l, r);
        let m = if d == Dir::Left { 1.0 } else { -1.0 };
        let x = (x0 + x1) / 2.0 - g.ta * m * 0.5;
        [
            line((x, h), (x + m * g.ta, h + g.ta), g.tw, g.line),
            line((x, h), (x + m * g.ta, h - g.ta), g.tw, g.line),
        ]
    };
    let mut todo = groups(a);
    let mut levels: BTreeMap<i64, Vec<(f64, f64, String)>> = BTreeMap::new();
    for p in prims {
        let Prim::Text { at, text, .. } = p else { continue };
        if big.contains(at) {
            continue;
        }
        let (lx, h) = (at.0 as f64 / U, at.1 as f64 / U + g.tm);
        let syms: std::collections::BTreeSet<String> = text.split(", ").map(|s| s.to_string()).collect();
        let count = text.split(", ").count();
        let found = todo
            .iter()
            .find(|((l, r, d), s)| {
                let (x0, x1) = span(*l, *r);
                **s == syms
                    && count == s.len()
                    && ((x0 + x1) / 2.0 - lx).abs() < 0.1
                    && have.contains_key(&line((x0, h), (x1, h), g.tw, g.line))
                    && (!g.mid || head(*l, *r, *d, h).iter().all(|p| have.contains_key(p)))
            })
            .map(|(k, _)| *k);
        let Some((l, r, d)) = found else {
            return viol("label", format!("the label '{text}' at height {h} belongs to no transition that is still to be shown; open: {todo:?}"));
        };
        todo.remove(&(l, r, d));
        let (x0, x1) = span(l, r);
        want.push(p.clone());
        want.push(line((x0, base), (x0, h), g.tw, g.line));
        want.push(line((x1, base), (x1, h), g.tw, g.line));
        want.push(line((x0, h), (x1, h), g.tw, g.line));
        if g.mid {
            want.extend(head(l, r, d, h));
        }
        if g.end {
            let x = if d == Dir::Right { x1 } else { x0 };
            want.push(line((x, base), (x - g.ta, base - g.ta), g.tw, g.line));
            want.push(line((x, base), (x + g.ta, base - g.ta), g.tw, g.line));
        }
        ensure(h > 0.0 && h < base, "height", || format!("the arrow '{text}' from {l} to {r} runs at height {h} (states below {base})"))?;
        levels.entry(q(h)).or_default().push((x0.min(x1), x0.max(x1), format!("{}-{}", a.st[l].n, a.st[r].n)));
    }
    if let Some(((l, r, d), s)) = todo.first_key_value() {
        return viol("missing-arrow", format!("the transitions {s:?} between {} and {} ({d:?}) are not shown", a.st[*l].n, a.st[*r].n));
    }
    for (_, mut v) in levels {
        v.sort_by(|a, b| (a.0, a.1).partial_cmp(&(b.0, b.1)).unwrap());
        for w in v.windows(2) {
            ensure(w[0].1 <= w[1].0 + 0.1, "arrows-overlap", || format!("the arrows {} and {} overlap on one level", w[0].2, w[1].2))?;
        }
    }
    // texts of the label rows must have the label's colour
    for p in &want {
        if let Prim::Text { rgb, text, .. } = p {
            ensure(*rgb == g.text, "colour", || format!("the text '{text}' is not drawn in the text colour"))?;
        }
    }
    match bag_diff(prims, &want) {
        None => Ok(()),
        Some(d) => viol("picture", format!("{d}\nautomaton: {}", a.describe())),
    }
}

fn transform(p: &Prim, g: &Geo) -> Prim {
    let t = |a: (i64, i64)| {
        (
            ((a.0 as f64 + g.ox * U) * g.sx).round() as i64,
            ((a.1 as f64 + g.oy * U) * g.sy).round() as i64,
        )
    };
    match p {
        Prim::Circle { at, radius, width, rgb } => {
            Prim::Circle { at: t(*at), radius: (*radius as f64 * g.sx).round() as i64, width: *width, rgb: *rgb }
        }
        Prim::Text { at, text, rgb } => Prim::Text { at: t(*at), text: text.clone(), rgb: *rgb },
        Prim::Line { a, b, width, rgb } => {
            let (a, b) = (t(*a), t(*b));
            Prim::Line { a: a.min(b), b: a.max(b), width: *width, rgb: *rgb }
        }
        Prim::Rect { at, size, rgb } => Prim::Rect { at: t(*at), size: *size, rgb: *rgb },
    }
}

fn frame(x: &Obj, o: &Opt, unscaled: bool, lost: usize, ctx: &mut Ctx) -> R<Option<Vec<Prim>>> {
    let mut c = Rec::new(lost);
    let r = guarded(|| draw(x, o, unscaled, &mut c));
    if let Err(m) = r {
        if lost > 0 && m.contains("canvas lost") {
            ctx.hit("fault:canvas lost while drawing");
            return Ok(None);
        }
        return viol("panic", format!("drawing panicked: {m}"));
    }
    ctx.hit("op:frame");
    ensure(c.started == 1 && c.finished == 1 && !c.outside, "frame", || {
        format!("a frame must be started once, drawn, and finished once; started {}, finished {}", c.started, c.finished)
    })?;
    c.prims.sort();
    Ok(Some(c.prims))
}

type Shown = BTreeMap<(usize, usize), Vec<Prim>>;

fn drive(c: &Case, base: &[(bool, Aut)], ctx: &mut Ctx) -> R<Shown> {
    let mut objs = vec![];
    for (i, (d, a)) in base.iter().enumerate() {
        let s = if c.style == 0 { 0 } else { c.style + i as u64 };
        objs.push(Obj::make(*d, a, s)?);
    }
    let mut shown: Shown = BTreeMap::new();
    for (i, o, lost) in &c.frames {
        let (i, o) = (i % objs.len(), o % c.opts.len());
        let (x, opt) = (&objs[i], &c.opts[o]);
        let Some(prims) = frame(x, opt, false, *lost, ctx)? else {
            ctx.ev("frame lost");
            continue;
        };
        let old = shown.get(&(i, o));
        match old {
            Some(p) => {
                ctx.hit("redrawn frames compared");
                if let Some(d) = bag_diff(&prims, p) {
                    return viol("redraw", format!("automaton {i} is drawn differently the second time: {d}"));
                }
            }
            None => {
                let g = geo(opt, true);
                let Some(plain) = frame(x, opt, true, 0, ctx)? else { return invalid("no frame") };
                check_picture(x.aut(), &g, &plain)?;
                let gs = geo(opt, false);
                let mut moved: Vec<Prim> = plain.iter().map(|p| transform(p, &gs)).collect();
                moved.sort();
                if let Some(d) = bag_diff(&prims, &moved) {
                    return viol("offset-scale", format!("offset and scale are not applied to everything alike: {d}"));
                }
            }
        }
        ctx.ev(format!("frame of {i} with {o}: {} requests {:x}", prims.len(), hash_str(&format!("{prims:?}"))));
        shown.insert((i, o), prims);
        x.unchanged()?;
        ctx.nontrivial |= x.aut().len() > 1;
    }
    Ok(shown)
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    if c.base.is_empty() || c.opts.is_empty() {
        return invalid("nothing to draw");
    }
    for o in &c.opts {
        if !o.sane() {
            return invalid("options out of range");
        }
    }
    let base = c.base.iter().map(|(d, a)| Ok((*d, plain(a, *d)?))).collect::<R<Vec<_>>>()?;
    let mut first: Option<Shown> = None;
    for &e in &c.entropy {
        let s = ctx.thread(e, |ctx| drive(c, &base, ctx))?;
        match &first {
            None => first = Some(s),
            Some(f) => {
                for (k, p) in &s {
                    if let Some(d) = f.get(k).and_then(|x| bag_diff(p, x)) {
                        return viol("seed-dependent", format!("automaton {} is drawn differently under another hash seed: {d}", k.0));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C10",
        gen,
        run,
        quick: 60_000,
        thorough: 1_000_000,
        level: "exploration",
        rule: "seeded automata and drawing options, drawn in a seeded frame order under 2 to 3 hash seeds on a recording canvas that is lost at seeded points; each picture is read back as an automaton and compared element by element, with itself when redrawn, with its unscaled form, and across hash seeds; non-trivial: an automaton with more than one state was drawn",
        assumptions: BASE_ASSUME,
        real: &["dandy-draw (layout and drawing)", "dandy"],
        stub: &["the canvas: a recording Drawer that can be lost mid-frame", "operating-system entropy: seeded"],
    }
}
