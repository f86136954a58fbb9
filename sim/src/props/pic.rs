//! Shared by C10 and C11: the arrows an automaton has.
use super::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Dir {
    Left,
    Right,
    Spot,
}
/// (left state, right state, direction) -> symbols
pub type Groups = BTreeMap<(usize, usize, Dir), BTreeSet<String>>;

pub fn groups(a: &Aut) -> Groups {
    let mut g: Groups = BTreeMap::new();
    let mut put = |p: usize, q: usize, s: &str| {
        let k = match p.cmp(&q) {
            std::cmp::Ordering::Less => (p, q, Dir::Right),
            std::cmp::Ordering::Equal => (p, q, Dir::Spot),
            std::cmp::Ordering::Greater => (q, p, Dir::Left),
        };
        g.entry(k).or_default().insert(s.to_string());
    };
    for (p, s) in a.st.iter().enumerate() {
        for (k, v) in s.t.iter().enumerate() {
            v.iter().for_each(|&q| put(p, q, &a.alpha[k]));
        }
        s.e.iter().for_each(|&q| put(p, q, "ε"));
    }
    g
}

/// removes targets written twice and symbols that could be confused with a list of symbols
pub fn plain(a: &Aut, dfa: bool) -> R<Aut> {
    let mut a = a.clone();
    for (i, s) in a.alpha.iter_mut().enumerate() {
        if s.contains(',') {
            *s = format!("y{i}");
        }
    }
    let mut a = a.fix(dfa)?;
    for s in &mut a.st {
        for v in s.t.iter_mut().chain(std::iter::once(&mut s.e)) {
            let mut seen = BTreeSet::new();
            v.retain(|x| seen.insert(*x));
        }
    }
    Ok(a)
}

pub enum Obj {
    D(Dfa, Aut),
    N(Nfa, Aut),
}
impl Obj {
    pub fn make(dfa: bool, a: &Aut, style: u64) -> R<Obj> {
        Ok(if dfa {
            Obj::D(mk_dfa(a, style)?, a.clone())
        } else {
            let n = mk_nfa(a, style)?;
            let a = of_nfa("loaded NFA", &n)?;
            Obj::N(n, a)
        })
    }
    pub fn aut(&self) -> &Aut {
        match self {
            Obj::D(_, a) | Obj::N(_, a) => a,
        }
    }
    pub fn unchanged(&self) -> R {
        match self {
            Obj::D(d, a) => ensure(of_dfa("automaton", d)? == *a, "mutated", || "drawing changed the automaton".into()),
            Obj::N(d, a) => ensure(of_nfa("automaton", d)? == *a, "mutated", || "drawing changed the automaton".into()),
        }
    }
}

pub fn gen_aut(r: &mut Rng, max_states: usize) -> (bool, Aut) {
    let size = gen::Size { max_states, max_syms: gen::syms(r, 4), big: false, mid: true };
    let d = r.chance(1, 2);
    let a = if d {
        gen::dfa(r, &size, None)
    } else {
        let e = r.chance(2, 3);
        gen::nfa(r, &size, None, e)
    };
    (d, a)
}

/// Requests made of a drawer one by one; lengths in quarter units.
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub enum Ink {
    Color(u8, u8, u8),
    Circle(i16, i16, u16, u16),
    Line(i16, i16, i16, i16, u16),
    Text(i16, i16, u8),
    Rect(i16, i16, u16, u16),
}
const TEXTS: [&str; 8] = ["a", "state", "→", "a, b", "é", "ε", "x y", "-"];

pub fn gen_ink(r: &mut Rng) -> Vec<Ink> {
    let hues: [[u8; 3]; 9] =
        [[0, 0, 0], [255, 255, 255], [0, 255, 0], [255, 0, 0], [0, 0, 255], [1, 2, 3], [128, 128, 128], [0, 255, 255], [150, 255, 255]];
    let color = |r: &mut Rng| {
        let [x, y, z] = if r.chance(1, 3) { [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8] } else { *r.pick(&hues) };
        Ink::Color(x, y, z)
    };
    let at = |r: &mut Rng| (r.below(4000) as i16 - 400, r.below(4000) as i16 - 400);
    let width = |r: &mut Rng| if r.chance(1, 2) { r.range(1, 8) as u16 } else { r.range(1, 60) as u16 };
    let mut v = vec![color(r)];
    let old = at(r);
    for _ in 0..r.range(1, 12) {
        let p = if r.chance(1, 5) { old } else { at(r) };
        v.push(match r.below(8) {
            0 | 1 => color(r),
            7 => Ink::Rect(p.0, p.1, r.range(1, 900) as u16, r.range(1, 900) as u16),
            2 | 3 => Ink::Circle(p.0, p.1, if r.chance(1, 6) { r.range(1, 8) } else { r.range(1, 900) } as u16, width(r)),
            4 => Ink::Text(p.0, p.1, r.below(TEXTS.len()) as u8),
            _ => {
                let o = at(r);
                let o = match r.below(5) {
                    0 => (p.0, o.1),
                    1 => (o.0, p.1),
                    _ => o,
                };
                Ink::Line(p.0, p.1, o.0, o.1, width(r))
            }
        });
    }
    v
}

/// (a drawer is told a colour before anything else)
pub fn sketch<T: dandy_draw::Drawer>(ink: &[Ink], d: &mut T) {
    use dandy_draw::pos2::Pos2;
    let p = |x: i16, y: i16| Pos2 { x: x as f32 / 4.0, y: y as f32 / 4.0 };
    d.start_drawing();
    if !matches!(ink.first(), Some(Ink::Color(..))) {
        d.set_color([9, 9, 9]);
    }
    for i in ink {
        match i {
            Ink::Color(r, g, b) => d.set_color([*r, *g, *b]),
            Ink::Circle(x, y, r, w) => d.draw_circle(p(*x, *y), (*r).max(1) as f32 / 4.0, (*w).max(1) as f32 / 4.0),
            Ink::Line(x, y, a, b, w) => {
                if (x, y) != (a, b) {
                    d.draw_line(p(*x, *y), p(*a, *b), (*w).max(1) as f32 / 4.0)
                }
            }
            Ink::Rect(x, y, w, h) => d.draw_rect(p(*x, *y), Pos2 { x: (*w).max(1) as f32 / 4.0, y: (*h).max(1) as f32 / 4.0 }),
            Ink::Text(x, y, t) => d.draw_centered_text(p(*x, *y), TEXTS[*t as usize % TEXTS.len()]),
        }
    }
    d.finish_drawing();
}
