//! C20: the graphical program, its window and its user simulated.
use super::c10::{bag_diff, draw, gen_opt, line, q, Opt, Prim, Rec};
use super::pic::*;
use super::*;
use dandy_draw::egui::EguiDrawer;
use dandy_draw::DrawOptions;
use egui::{pos2, vec2, Event, Key, Modifiers, PointerButton, Pos2, RawInput, Rect, Shape};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

/// dandy-egui's own main.rs, compiled from /repo's current working tree
#[allow(unused_imports, dead_code, clippy::all)]
mod app {
    // what it prints before the window opens stays inside the simulation
    macro_rules! println {
        ($($t:tt)*) => {{
            let _ = format!($($t)*);
        }};
    }
    include!("/repo/dandy-egui/src/main.rs");
    pub fn launch() -> Result<(), String> {
        main().map_err(|e| e.to_string())
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    /// None: the program itself; otherwise a window that shows these through EguiDrawer
    shown: Option<(Vec<(bool, Aut)>, Vec<Opt>)>,
    screen: (u16, u16),
    steps: Vec<Step>,
    entropy: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// everything in the text field is replaced by this
    Replace(String),
    /// the Render button is clicked
    Render,
    /// the text field is clicked at that part of it
    Into(u16, u16),
    Type(String),
    Paste(String),
    /// key, number of times, with the command key
    Press(u8, u8, bool),
    /// raw pointer events, several in one frame: what (0 move, 1 press, 2 release, 3 gone), where
    Pointer(Vec<(u8, Spot)>),
    Idle(u8),
    /// the clock moves by that many milliseconds before the next frame
    Clock(i32),
    Resize(u16, u16),
    Focus(bool),
    /// (own window only) another automaton, other options
    Show(usize, usize),
    /// (own window only) single requests instead of an automaton
    Sketch(Vec<Ink>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Spot {
    Button,
    Text,
    At(u16, u16),
}
const KEYS: [Key; 30] = [
    Key::Enter, Key::Space, Key::Tab, Key::Escape, Key::Backspace, Key::Delete, Key::ArrowLeft, Key::ArrowRight, Key::ArrowUp,
    Key::ArrowDown, Key::Home, Key::End, Key::A, Key::Z, Key::PageUp, Key::PageDown, Key::Insert, Key::F1, Key::F2, Key::F3,
    Key::F5, Key::F11, Key::F12, Key::S, Key::R, Key::D, Key::V, Key::Y, Key::B, Key::U,
];

fn text(r: &mut Rng, n: usize) -> String {
    let n = n.min(5);
    let size = gen::Size { max_states: n, max_syms: gen::syms(r, 3), big: false, mid: true };
    let a = gen::dfa(r, &size, None);
    let style = r.seed() * r.below(2) as u64;
    let Ok(a) = a.fix(true) else { return String::new() };
    let t = gen::print_table(&a, true, style);
    match r.below(8) {
        0 => {
            let k = r.below(t.chars().count() + 1);
            t.chars().take(k).collect()
        }
        1 => {
            let k = r.below(t.chars().count() + 1);
            let mut v: Vec<char> = t.chars().collect();
            v.insert(k, *r.pick(&['{', 'x', ' ', '\n', '#', 'é', '*']));
            v.into_iter().collect()
        }
        2 => r.pick(&["x", "a\n-> s {s}", "   ", "a b\n-> s s\n", "😀", "-> \n"]).to_string(),
        _ => t,
    }
}

/// the same, with comments and empty lines of thousands of characters
fn long_text(r: &mut Rng, n: usize) -> String {
    let mut t = text(r, n);
    let chars = *r.pick(&[1100, 2100, 4200, 5100, 8300, 10_100, 16_500]);
    let mut more = String::new();
    while more.chars().count() < chars {
        if r.chance(1, 4) {
            more.push_str(&"\n".repeat(r.range(1, 20)));
        }
        more.push_str("# ");
        for _ in 0..r.range(1, 60) {
            more.push_str(*r.pick(&["state", "of", "é", "{x}", "-> q", "  ", "#", "consectetur "]));
            more.push(' ');
        }
        more.push('\n');
    }
    if r.chance(1, 2) {
        t = format!("{more}{t}");
    } else {
        t = format!("{t}\n{more}");
    }
    t
}

fn gen(r: &mut Rng, thorough: bool) -> Case {
    let n = r.range(3, if thorough { 24 } else { 12 });
    let max = if thorough { 7 } else { 5 };
    let shown = r.chance(1, 3).then(|| {
        (
            (0..r.range(1, 3)).map(|_| gen_aut(r, max)).collect::<Vec<_>>(),
            (0..r.range(1, 3))
                .map(|_| {
                    let mut o = gen_opt(r);
                    o.scale = (o.scale.0.abs(), o.scale.1.abs());
                    o
                })
                .collect::<Vec<_>>(),
        )
    });
    let calm = r.chance(1, 3);
    let spot = |r: &mut Rng| match r.below(4) {
        0 | 1 => Spot::Button,
        2 => Spot::Text,
        _ => Spot::At(r.below(800) as u16, r.below(800) as u16),
    };
    let long = shown.is_none() && r.chance(1, 40);
    let mut steps: Vec<Step> = (0..n)
        .map(|_| {
            if shown.is_some() {
                return match r.below(9) {
                    6 | 7 | 8 => Step::Sketch(gen_ink(r)),
                    0 => Step::Resize(r.range(1, 900) as u16, r.range(1, 900) as u16),
                    1 => Step::Idle(r.range(1, 3) as u8),
                    2 => Step::Clock(r.below(4000) as i32 - 1000),
                    _ => Step::Show(r.below(9), r.below(9)),
                };
            }
            match r.below(if calm { 10 } else { 20 }) {
                0 | 1 | 2 => Step::Replace(text(r, max)),
                3 | 4 | 5 => Step::Render,
                6 => Step::Into(r.below(1000) as u16, r.below(1000) as u16),
                7 => Step::Type(r.pick(&["x", " ", "s1", "*", "->", "é", "\u{301}", "# "]).to_string()),
                8 => Step::Press(*r.pick(&[4, 5, 6, 7, 8, 9, 10, 11]), r.range(1, 6) as u8, false),
                9 => Step::Idle(r.range(1, 4) as u8),
                10 => Step::Paste(text(r, max)),
                11 | 12 => Step::Press(r.below(KEYS.len()) as u8, r.range(1, 3) as u8, r.chance(1, 3)),
                13 | 14 | 15 => Step::Pointer(
                    (0..r.range(1, 4)).map(|_| (r.pick(&[0, 1, 1, 1, 2, 2, 2, 3]).to_owned(), spot(r))).collect(),
                ),
                16 => Step::Clock(*r.pick(&[0, 400, 599, 650, 5000, 86_400_000, -300, -5000])),
                17 => Step::Resize(r.range(1, 1200) as u16, r.range(1, 1200) as u16),
                18 => Step::Focus(r.chance(1, 2)),
                _ => Step::Idle(1),
            }
        })
        .collect();
    if long {
        let at = r.below(steps.len() + 1);
        let tail = steps.split_off(at);
        steps.extend([Step::Focus(true), Step::Resize(1000, 16_000), Step::Replace(long_text(r, max)), Step::Render]);
        steps.extend(tail);
    }
    Case { shown, screen: (r.range(300, 1200) as u16, r.range(500, 1400) as u16), steps, entropy: r.seed() }
}

/// what a frame shows
struct Seen {
    field: Option<String>,
    field_at: Option<Rect>,
    button: Option<Rect>,
    /// shapes painted after the button
    picture: Vec<Prim>,
    odd: Option<String>,
    clipped: Option<String>,
}

fn flatten(clip: Rect, s: &Shape, out: &mut Vec<(Rect, Shape)>) {
    match s {
        Shape::Noop => {}
        Shape::Vec(v) => v.iter().for_each(|s| flatten(clip, s, out)),
        s => out.push((clip, s.clone())),
    }
}

fn look(shapes: &[egui::epaint::ClippedShape], screen: Rect, whole: bool) -> Seen {
    let mut flat = vec![];
    shapes.iter().for_each(|s| flatten(s.clip_rect, &s.shape, &mut flat));
    let rect_of = |t: &egui::epaint::TextShape| Rect::from_min_size(t.pos, t.galley.size());
    let button = flat.iter().position(|(_, s)| matches!(s, Shape::Text(t) if t.galley.text() == "Render"));
    let mut seen = Seen { field: None, field_at: None, button: None, picture: vec![], odd: None, clipped: None };
    let start = match button {
        _ if whole => 0,
        None => return seen,
        Some(b) => {
            let Shape::Text(t) = &flat[b].1 else { unreachable!() };
            seen.button = Some(rect_of(t));
            for (_, s) in &flat[..b] {
                if let Shape::Text(t) = s {
                    seen.field = Some(t.galley.text().to_string());
                    seen.field_at = Some(rect_of(t));
                }
            }
            b + 1
        }
    };
    let mut background = false;
    for (clip, s) in &flat[start..] {
        let rgb = |c: egui::Color32| [c.r(), c.g(), c.b()];
        let p = match s {
            Shape::Circle(c) => {
                if c.fill.a() != 0 {
                    seen.odd.get_or_insert("a filled circle".into());
                }
                Prim::Circle { at: (q(c.center.x as f64), q(c.center.y as f64)), radius: q(c.radius as f64), width: q(c.stroke.width as f64), rgb: rgb(c.stroke.color) }
            }
            Shape::LineSegment { points: [a, b], stroke } => {
                line((a.x as f64, a.y as f64), (b.x as f64, b.y as f64), stroke.width as f64, rgb(stroke.color))
            }
            Shape::Text(t) => {
                let c = rect_of(t).center();
                let col = t.override_text_color.or(t.galley.job.sections.first().map(|s| s.format.color));
                let col = col.map(|c| if c == egui::Color32::PLACEHOLDER { t.fallback_color } else { c });
                if t.angle != 0.0 {
                    seen.odd.get_or_insert("a slanted text".into());
                }
                Prim::Text { at: (q(c.x as f64), q(c.y as f64)), text: t.galley.text().into(), rgb: col.map(rgb).unwrap_or_default() }
            }
            // the background of the window comes first
            Shape::Rect(_) if whole && !std::mem::replace(&mut background, true) => continue,
            Shape::Rect(s) if whole => {
                if s.rounding != egui::Rounding::ZERO || s.stroke.width > 0.0 && s.stroke.color.a() != 0 {
                    seen.odd.get_or_insert("a rectangle that is not just filled".into());
                }
                let (at, size) = (s.rect.min, s.rect.size());
                Prim::Rect { at: (q(at.x as f64), q(at.y as f64)), size: (q(size.x as f64), q(size.y as f64)), rgb: rgb(s.fill) }
            }
            s => {
                seen.odd.get_or_insert(format!("something else is painted: {s:?}").chars().take(200).collect());
                continue;
            }
        };
        let bounds = s.visual_bounding_rect().intersect(screen);
        if bounds.is_positive() && !clip.expand(1.0).contains_rect(bounds) {
            seen.clipped.get_or_insert(format!("{p:?} is clipped to {clip:?}"));
        }
        seen.picture.push(p);
    }
    seen
}

/// like `bag_diff`; the centre of a text may be off by a pixel, since texts are laid out in whole pixels
fn differs(got: &[Prim], want: &[Prim]) -> Option<String> {
    let snap: Vec<Prim> = got
        .iter()
        .map(|p| match p {
            Prim::Text { at, text, rgb } => {
                let near = want.iter().find_map(|w| match w {
                    Prim::Text { at: a, text: t, rgb: c } if t == text && c == rgb && (a.0 - at.0).abs() <= 64 && (a.1 - at.1).abs() <= 64 => Some(*a),
                    _ => None,
                });
                Prim::Text { at: near.unwrap_or(*at), text: text.clone(), rgb: *rgb }
            }
            p => p.clone(),
        })
        .collect();
    bag_diff(&snap, want)
}

struct World {
    update: *mut dyn FnMut(&egui::Context, &mut eframe::Frame),
    ctx: egui::Context,
    clock: f64,
    screen: Rect,
    focused: bool,
    frames: usize,
}
impl World {
    fn frame(&mut self, events: Vec<Event>, modifiers: Modifiers, whole: bool) -> Seen {
        self.clock += 0.016;
        self.frames += 1;
        let input = RawInput {
            screen_rect: Some(self.screen),
            time: Some(self.clock),
            events,
            modifiers,
            focused: self.focused,
            ..Default::default()
        };
        let mut fr = eframe::sim::frame();
        let update = self.update;
        // the program's closure outlives the driver's call
        let out = self.ctx.clone().run(input, |c| unsafe { (*update)(c, &mut fr) });
        look(&out.shapes, self.screen, whole)
    }
}

fn wanted(text: &str) -> Vec<Prim> {
    let Some(Ok(d)) = dandy::parser::dfa(text).ok().map(|p| -> Result<Dfa, dandy::dfa::parse::DfaParseError> { p.try_into() }) else {
        return vec![];
    };
    let mut rec = Rec::new(0);
    dandy_draw::draw_dfa_with_opts(&d, &mut rec, DrawOptions::default().with_x_offset(20.0).with_y_offset(150.0));
    rec.prims
}

/// The user of the program.
struct User<'a> {
    w: World,
    ctx: &'a mut Ctx,
    seen: Option<Seen>,
    /// the texts the picture may show
    cands: Vec<String>,
    /// those it might still show in this frame
    old: Vec<String>,
}
impl User<'_> {
    fn button(&self) -> Option<Pos2> {
        let b = self.seen.as_ref()?.button?.center();
        self.w.screen.shrink(8.0).contains(b).then_some(b)
    }
    fn field(&self) -> Option<Pos2> {
        // a point of the field, whatever it contains (its corner is covered by the picture's area)
        let p = pos2(100.0, 40.0);
        let s = self.seen.as_ref()?;
        s.button?;
        self.w.screen.shrink(32.0).contains(p).then_some(p)
    }
    fn text(&self) -> String {
        self.seen.as_ref().and_then(|s| s.field.clone()).unwrap_or_default()
    }
    /// `sure`: the button is certainly clicked; `maybe`: it might be; `quiet`: the text cannot change
    fn step(&mut self, events: Vec<Event>, m: Modifiers, sure: bool, maybe: bool, quiet: bool) -> R {
        let before = self.text();
        let had = self.seen.as_ref().is_some_and(|s| s.button.is_some());
        let n = events.len();
        let seen = self.w.frame(events, m, false);
        let shows = seen.button.is_some();
        self.ctx.ev(format!(
            "frame {} ({n} events): field {:?}, {} shapes {:x}",
            self.w.frames,
            seen.field.as_ref().map(|s| hash_str(s)),
            seen.picture.len(),
            hash_str(&format!("{:?}", seen.picture))
        ));
        self.seen = Some(seen);
        if !shows {
            // the window is too small to show its contents, or this is its first frame
            self.ctx.hit("frames without a button");
            if sure || maybe {
                return invalid("a click without a button");
            }
            return Ok(());
        }
        let now = self.text();
        if self.w.frames == 1 {
            self.cands = vec![now.clone()];
        } else if quiet && had {
            ensure(before == now, "text-lost", || format!("the text field shows\n{now}\nbut nothing changed it from\n{before}"))?;
        }
        self.old.clear();
        if sure {
            self.old = std::mem::replace(&mut self.cands, vec![now.clone()]);
        } else if maybe && !self.cands.contains(&now) {
            self.cands.push(now.clone());
        }
        let s = self.seen.as_ref().unwrap();
        if self.w.frames < 3 {
            return Ok(());
        }
        if let Some(o) = &s.odd {
            return viol("picture", o.clone());
        }
        if let Some(o) = &s.clipped {
            return viol("clipped", o.clone());
        }
        let mut why = None;
        let mut fit = vec![];
        for t in self.cands.iter().chain(&self.old) {
            match differs(&s.picture, &wanted(t)) {
                None => fit.push(t.clone()),
                Some(d) => {
                    why.get_or_insert(d);
                }
            }
        }
        if fit.is_empty() {
            return viol("picture", format!("the window does not show the automaton last rendered: {}\nthe text rendered last: {:?}", why.unwrap(), self.cands));
        }
        self.ctx.hit("frames compared");
        self.ctx.nontrivial |= sure && !s.picture.is_empty();
        if !sure && !maybe {
            self.cands.retain(|t| fit.contains(t));
        }
        Ok(())
    }
    fn quiet(&mut self, events: Vec<Event>) -> R {
        self.step(events, Modifiers::NONE, false, false, true)
    }
    fn pointer(pos: Pos2, pressed: bool) -> Event {
        Event::PointerButton { pos, button: PointerButton::Primary, pressed, modifiers: Modifiers::NONE }
    }
    /// whatever was going on with the pointer ends; the last release could still be a click
    fn rest(&mut self) -> R {
        let away = pos2(self.w.screen.max.x - 1.0, self.w.screen.max.y - 1.0);
        let maybe = self.button().is_some();
        self.step(vec![Event::PointerMoved(away), Self::pointer(away, false)], Modifiers::NONE, false, maybe, true)?;
        self.quiet(vec![])
    }
    /// a click, certain to be one
    fn click(&mut self, at: Pos2, render: bool) -> R {
        self.quiet(vec![Event::PointerMoved(at)])?;
        self.quiet(vec![Self::pointer(at, true)])?;
        self.step(vec![Self::pointer(at, false)], Modifiers::NONE, render, false, true)?;
        self.quiet(vec![])
    }
    fn key(key: Key, modifiers: Modifiers) -> Vec<Event> {
        [true, false].into_iter().map(|pressed| Event::Key { key, physical_key: None, pressed, repeat: false, modifiers }).collect()
    }
    fn act(&mut self, s: &Step) -> R {
        let cmd = Modifiers { ctrl: true, command: true, ..Modifiers::NONE };
        let free = |u: &mut Self, ev: Vec<Event>, m: Modifiers| {
            // anything may happen to the text, and the button may be activated: by a release of the pointer, or, when it has
            // the focus, by the space bar or the enter key
            let click = ev.iter().any(|e| match e {
                Event::Key { key, .. } => matches!(key, Key::Space | Key::Enter),
                Event::PointerButton { .. } => true,
                _ => false,
            });
            let b = click && u.seen.as_ref().is_some_and(|s| s.button.is_some());
            u.step(ev, m, false, b, false)
        };
        match s {
            Step::Replace(t) => {
                let Some(p) = self.field() else { return Ok(()) };
                self.rest()?;
                self.click(p, false)?;
                free(self, Self::key(Key::A, cmd), cmd)?;
                if self.button().is_none() && t.is_empty() {
                    return Ok(());
                }
                if t.is_empty() {
                    free(self, Self::key(Key::Backspace, Modifiers::NONE), Modifiers::NONE)?;
                } else {
                    free(self, vec![Event::Paste(t.clone())], Modifiers::NONE)?;
                }
                self.quiet(vec![])?;
                self.ctx.hit("op:text replaced");
                // (egui takes no lone line ends)
                if self.w.focused && !t.trim().is_empty() && self.seen.as_ref().unwrap().button.is_some() {
                    let now = self.text();
                    ensure(now == *t, "text-lost", || format!("the text field shows\n{now}\nafter this was pasted over everything:\n{t}"))?;
                }
                Ok(())
            }
            Step::Render => {
                if self.button().is_none() {
                    return Ok(());
                }
                self.rest()?;
                let Some(b) = self.button() else { return Ok(()) };
                self.ctx.hit("op:Render clicked");
                self.click(b, true)
            }
            Step::Into(x, y) => {
                let Some(r) = self.seen.as_ref().and_then(|s| s.field_at) else { return Ok(()) };
                let p = r.min + vec2(r.width() * *x as f32 / 1000.0, r.height() * *y as f32 / 1000.0);
                if !self.w.screen.shrink(8.0).contains(p) {
                    return Ok(());
                }
                self.rest()?;
                self.click(p, false)
            }
            Step::Type(t) => {
                self.ctx.hit("op:typed");
                self.step(vec![Event::Text(t.clone())], Modifiers::NONE, false, false, false)
            }
            Step::Paste(t) => free(self, vec![Event::Paste(t.clone())], Modifiers::NONE),
            Step::Press(k, n, c) => {
                for _ in 0..*n {
                    let m = if *c { cmd } else { Modifiers::NONE };
                    free(self, Self::key(KEYS[*k as usize % KEYS.len()], m), m)?;
                }
                Ok(())
            }
            Step::Pointer(v) => {
                let mut ev = vec![];
                for (what, spot) in v {
                    let p = match spot {
                        Spot::Button => self.seen.as_ref().and_then(|s| s.button).map_or(pos2(50.0, 50.0), |r| r.center()),
                        Spot::Text => self.seen.as_ref().and_then(|s| s.field_at).map_or(pos2(10.0, 10.0), |r| r.center()),
                        Spot::At(x, y) => pos2(*x as f32, *y as f32),
                    };
                    match what {
                        0 => ev.push(Event::PointerMoved(p)),
                        1 => ev.extend([Event::PointerMoved(p), Self::pointer(p, true)]),
                        2 => ev.extend([Event::PointerMoved(p), Self::pointer(p, false)]),
                        _ => ev.push(Event::PointerGone),
                    }
                }
                self.ctx.hit("fault:pointer events out of order, lost or together in one frame");
                free(self, ev, Modifiers::NONE)
            }
            Step::Idle(n) => {
                for _ in 0..*n {
                    self.quiet(vec![])?;
                }
                Ok(())
            }
            Step::Clock(ms) => {
                self.w.clock += *ms as f64 / 1000.0;
                self.ctx.hit(if *ms < 0 { "fault:clock goes back" } else { "fault:clock jumps or a frame is late" });
                self.quiet(vec![])
            }
            Step::Resize(x, y) => {
                self.w.screen = Rect::from_min_size(Pos2::ZERO, vec2(*x as f32, *y as f32));
                self.ctx.hit("fault:window resized");
                self.quiet(vec![])?;
                self.quiet(vec![])
            }
            Step::Focus(f) => {
                self.w.focused = *f;
                self.ctx.hit("fault:window focus changed");
                self.quiet(vec![Event::WindowFocused(*f)])
            }
            Step::Show(..) | Step::Sketch(_) => Ok(()),
        }
    }
}

fn program(c: &Case, w: World, ctx: &mut Ctx) -> R {
    let mut u = User { w, ctx, seen: None, cands: vec![], old: vec![] };
    for _ in 0..3 {
        u.quiet(vec![])?;
    }
    // the example is what it starts with
    let example = std::fs::read_to_string("/repo/dandy-cli/tests/example.dfa").unwrap_or_default();
    if let (Read::Good(a), Read::Good(b)) = (reader::table(&example, true), reader::table(&u.text(), true)) {
        ensure(same_sets(&a, &b), "example", || format!("the program starts with\n{}\nwhich is not the example", u.text()))?;
    } else if u.seen.as_ref().is_some_and(|s| s.button.is_some()) {
        return viol("example", format!("the program starts with {:?}", u.text()));
    }
    for s in &c.steps {
        u.ctx.ev(format!("{s:?}"));
        u.act(s)?;
    }
    u.w.screen = Rect::from_min_size(Pos2::ZERO, vec2(1200.0, 16000.0));
    u.quiet(vec![])?;
    u.quiet(vec![])?;
    u.rest()?;
    // once the troubles are over, a click shows the text
    u.act(&Step::Render)?;
    let ms = (u.w.frames * 16) as u64;
    u.ctx.add("simulated_ms", ms);
    Ok(())
}
use crate::reader::{self, Read};

fn own(c: &Case, base: &[(bool, Aut)], opts: &[Opt], ctx: &mut Ctx) -> R {
    let mut objs = vec![];
    for (d, a) in base {
        objs.push(Obj::make(*d, a, 0)?);
    }
    let sel = RefCell::new((0usize, 0usize));
    let ink: RefCell<Option<Vec<Ink>>> = RefCell::new(None);
    let mut paint = |ctx: &egui::Context, _: &mut eframe::Frame| {
        egui::CentralPanel::default().show(ctx, |ui| {
            let (i, o) = *sel.borrow();
            let mut d = EguiDrawer::new(ui.painter());
            if let Some(ink) = &*ink.borrow() {
                return sketch(ink, &mut d);
            }
            draw(&objs[i % objs.len()], &opts[o % opts.len()], false, &mut d);
        });
    };
    let paint: &mut dyn FnMut(&egui::Context, &mut eframe::Frame) = &mut paint;
    let paint: *mut (dyn FnMut(&egui::Context, &mut eframe::Frame) + '_) = paint;
    // only used while `paint` lives
    let paint: *mut dyn FnMut(&egui::Context, &mut eframe::Frame) = unsafe { std::mem::transmute(paint) };
    let mut w = World { update: paint, ctx: egui::Context::default(), clock: 0.0, screen: screen(c), focused: true, frames: 0 };
    for s in &c.steps {
        match s {
            Step::Show(i, o) => {
                *sel.borrow_mut() = (*i, *o);
                *ink.borrow_mut() = None;
            }
            Step::Sketch(v) => *ink.borrow_mut() = Some(v.clone()),
            Step::Resize(x, y) => {
                w.screen = Rect::from_min_size(Pos2::ZERO, vec2(*x as f32, *y as f32));
                ctx.hit("fault:window resized");
            }
            Step::Clock(ms) => {
                w.clock += *ms as f64 / 1000.0;
                ctx.hit("fault:clock jumps");
            }
            _ => {}
        }
        let (i, o) = *sel.borrow();
        let (i, o) = (i % objs.len(), o % opts.len());
        let seen = w.frame(vec![], Modifiers::NONE, true);
        ctx.ev(format!("{s:?}: {i} {o} {} shapes", seen.picture.len()));
        let mut rec = Rec::new(0);
        match &*ink.borrow() {
            Some(ink) => sketch(ink, &mut rec),
            None => draw(&objs[i], &opts[o], false, &mut rec),
        }
        if let Some(x) = &seen.odd {
            return viol("drawer", x.clone());
        }
        if let Some(d) = differs(&seen.picture, &rec.prims) {
            return viol("drawer", format!("what EguiDrawer painted is not what was requested: {d}"));
        }
        ctx.hit("frames of EguiDrawer compared");
        ctx.nontrivial |= objs[i].aut().len() > 1;
        objs[i].unchanged()?;
    }
    Ok(())
}

fn screen(c: &Case) -> Rect {
    Rect::from_min_size(Pos2::ZERO, vec2(c.screen.0.max(1) as f32, c.screen.1.max(1) as f32))
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    if let Some((base, opts)) = &c.shown {
        if base.is_empty() || opts.is_empty() || !opts.iter().all(Opt::sane) {
            return invalid("nothing to draw");
        }
        let base = base.iter().map(|(d, a)| Ok((*d, plain(a, *d)?))).collect::<R<Vec<_>>>()?;
        return ctx.thread(c.entropy, |ctx| own(c, &base, opts, ctx));
    }
    ctx.thread(c.entropy, |ctx| {
        let case = c.clone();
        let sub = Rc::new(RefCell::new((std::mem::take(ctx), Ok(()))));
        let keep = sub.clone();
        eframe::sim::install(Box::new(move |egui_ctx, update| {
            let update: *mut (dyn FnMut(&egui::Context, &mut eframe::Frame) + '_) = update;
            let update: *mut dyn FnMut(&egui::Context, &mut eframe::Frame) = unsafe { std::mem::transmute(update) };
            let w = World { update, ctx: egui_ctx, clock: 0.0, screen: screen(&case), focused: true, frames: 0 };
            let s = &mut *sub.borrow_mut();
            s.1 = program(&case, w, &mut s.0);
        }));
        let started = guarded(app::launch);
        let (mut c2, res) = std::mem::replace(&mut *keep.borrow_mut(), (Ctx::default(), Ok(())));
        std::mem::swap(ctx, &mut c2);
        match started {
            Err(p) => viol("panic", format!("the program panicked: {p}")),
            Ok(Err(e)) => viol("start", format!("the program did not start: {e}")),
            Ok(Ok(())) => res,
        }
    })
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C20",
        gen,
        run,
        quick: 30_000,
        thorough: 1_000_000,
        level: "exploration",
        rule: "the program's own update function under a simulated window: a seeded user types, pastes, selects, clicks and presses keys, while pointer events come out of order, the clock jumps and the window is resized and loses focus; every frame's shapes are compared with what a recording Drawer receives for the text shown at the last certain click; in a third of the runs EguiDrawer is driven directly with seeded options; non-trivial: a clicked text was an automaton and was shown, or an automaton with more than one state was drawn",
        assumptions: BASE_ASSUME,
        real: &["dandy-egui (main.rs)", "dandy-draw (layout, drawing, EguiDrawer)", "egui 0.25 (widgets, input, painting up to shapes)", "dandy"],
        stub: &["eframe (the native window, its events and its clock): stand-in crate", "operating-system entropy: seeded"],
    }
}
