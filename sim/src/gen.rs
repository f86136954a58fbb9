//! Swarm-style generators: every run draws its own sizes, shapes, names, symbols and layout.
use crate::core::*;
use crate::model::*;

const NAME_POOLS: &[&[&str]] = &[
    &["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9"],
    &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10"],
    &["s_new", "0", "1", "none", "s_new0", "2", "3", "new", "i", "(s_new,0)"],
    &["a", "b", "c", "a,b", "b,c", "a,b,c", "(a,b)", "(b,c)", "none", "c,c"],
    &["*x", "->x", "→x", "x*", "x->", "**", "epsilon", "eps1", "ε1", "**x"],
    &["s₀", "s₁", "å", "e\u{301}", "é", "😀", "👨\u{200d}👩\u{200d}👧", "ß", "ｗ", "א"],
    &["q", "qq", "qqq", "q_q", "Q", "[x]", "<y>", "(z)", "\"", "\\"],
    &["x", "\u{200b}x", "x\u{200b}", "\u{feff}x", "\u{202e}x", "\u{ad}", "\u{7f}", "\u{1}x", "\u{2060}", "\u{301}x"],
    &["__proto__", "constructor", "<b>", "&lt;", "%s", "null", "true", "-0", "NaN", "\\n"],
    &["averyveryverylongstatename", "x", "long_name_number_2", "|", "||", "-", "--", ">", "<", "=>"],
];

const SYM_POOLS: &[&[&str]] = &[
    &["a", "b", "c", "d", "e", "f"],
    &["0", "1", "2", "3", "4", "5"],
    &["b", "a", "d", "c", "z", "y"],
    &["a", "aa", "ab", "abc", "aaa", "b"],
    &["å", "ä", "e\u{301}", "é", "😀", "👨\u{200d}👩\u{200d}👧"],
    &["*a", "->b", "→c", "(", ")", "|"],
    &["epsilon", "eps1", "ε1", "1", "+", "\\"],
    &["a,b", "c", "b,c", "a", "b", "a,b,c"],
    &["A", "a", "B", "b", "aB", "Ab"],
    &["x", "\u{200b}x", "x\u{ad}", "\u{feff}", "\u{202e}x", "\u{1}"],
    &["__proto__", "<b>", "&amp;", "%d", "undefined", "'"],
    &["☎", "☎\u{fe0f}", "❤", "❤\u{fe0f}", "🇸🇪", "🇸"],
];
/// pools whose symbols are one grapheme cluster each
const GRAPHEME_POOLS: &[usize] = &[0, 1, 2, 4, 11];

/// Now and then, an alphabet of many symbols.
pub fn wide(r: &mut Rng) -> Option<Vec<String>> {
    r.chance(1, MID * 2).then(|| {
        let k = many(r);
        wide_symbols(r, k)
    })
}

/// the most symbols of an alphabet: that many, now and then some more
pub fn syms(r: &mut Rng, usual: usize) -> usize {
    usual + if r.chance(1, 6) { r.range(1, 4) } else { 0 }
}

/// Another order: any, or one that resembles the old one.
pub fn order<T>(r: &mut Rng, v: &mut [T]) {
    let n = v.len();
    if n < 2 {
        return;
    }
    match r.below(10) {
        0 => {
            let i = r.below(n - 1);
            v.swap(i, i + 1)
        }
        1 => {
            let (i, j) = (r.below(n), r.below(n));
            v.swap(i, j)
        }
        2 => v.reverse(),
        3 => v.rotate_left(r.below(n)),
        4 => r.shuffle(&mut v[1..n - 1]),
        5 => r.shuffle(&mut v[1..]),
        6 => r.shuffle(&mut v[..n - 1]),
        _ => r.shuffle(v),
    }
}

/// an alphabet of many symbols
fn wide_symbols(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = match r.below(4) {
        0 | 1 if n <= 70 => ('a'..='z').chain('A'..='Z').chain('0'..='9').chain('α'..='δ').chain('ζ'..='ρ').map(|c| c.to_string()).collect(),
        2 => (0..300).map(|i| format!("x{i}")).collect(),
        _ => (0..300u32).map(|i| char::from_u32(0x4e00 + i).unwrap().to_string()).collect(),
    };
    if r.chance(1, 2) {
        r.shuffle(&mut v);
    }
    v.truncate(n);
    v
}

/// a text of about `n` characters whose relatives differ from it at the end only, or at the front only
fn long_texts(r: &mut Rng, n: usize) -> Vec<String> {
    let len = if n <= 4 && r.chance(1, 40) {
        *r.pick(&[32_768, 65_535, 65_536, 66_000])
    } else if r.chance(1, 8) {
        *r.pick(&[300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4096])
    } else {
        *r.pick(&[12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 80, 100, 127, 128, 129, 255, 256, 257])
    };
    let unit = *r.pick(&["s", "a", "é", "long", "0"]);
    let mut stem: String = unit.repeat(len);
    stem = stem.chars().take(len).collect();
    let front = r.chance(1, 3);
    (0..n).map(|i| if front { format!("{i}{stem}") } else { format!("{stem}{i}") }).collect()
}

pub fn symbols(r: &mut Rng, n: usize, graphemes_only: bool) -> Vec<String> {
    if !graphemes_only && r.chance(1, 150) {
        return long_texts(r, n);
    }
    let pool = if graphemes_only {
        SYM_POOLS[*r.pick(GRAPHEME_POOLS)]
    } else if r.chance(1, 2) {
        SYM_POOLS[0]
    } else {
        *r.pick(SYM_POOLS)
    };
    let mut v: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut v);
    }
    v.truncate(n);
    v
}

pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    // names a program might make up itself: a stem and that stem with every small number
    if r.chance(1, 15) {
        let stem = *r.pick(&["s_new", "s_new", "s_new_", "s_new'", "s", "q", "new", "init", "start", "n", "s_", "", "S"]);
        let mut v: Vec<String> = (0..n + 3).map(|i| format!("{stem}{i}")).collect();
        r.shuffle(&mut v);
        v.truncate(n);
        if r.chance(3, 4) {
            let i = r.below(n);
            v[i] = if stem.is_empty() || r.chance(1, 3) { "s_new".into() } else { stem.into() };
        }
        return v;
    }
    if r.chance(1, 60) {
        return long_texts(r, n);
    }
    let pool = if r.chance(2, 5) { NAME_POOLS[0] } else { *r.pick(NAME_POOLS) };
    let mut v: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut v);
    }
    let mut i = 0;
    while v.len() < n {
        v.push(format!("n{i}"));
        i += 1;
    }
    v.truncate(n);
    v
}

/// Now and then, names whose pairs, written "(left,right)", are the same text for different states.
pub fn clashing(r: &mut Rng, auts: &mut [Aut]) {
    if !r.chance(1, 20) || auts.iter().any(|a| a.st.len() > 12) {
        return;
    }
    let stem = *r.pick(&["x", "x", "none", "0", "(x", ""]);
    for a in auts {
        let mut v: Vec<String> = (1..=a.st.len() + 1).map(|k| vec![stem; k + stem.is_empty() as usize].join(",")).collect();
        if r.chance(2, 3) {
            r.shuffle(&mut v);
        }
        for (s, n) in a.st.iter_mut().zip(v) {
            s.n = n;
        }
    }
}

pub struct Size {
    pub max_states: usize,
    pub max_syms: usize,
    /// now and then many more states
    pub big: bool,
    /// now and then some more states, or many symbols
    pub mid: bool,
}
/// One automaton in this many has a dozen or more states, or symbols.
const MID: usize = 70;

/// One automaton in this many has more states than a machine word has bits.
const BIG: usize = 400;
fn big_states(r: &mut Rng) -> usize {
    if r.chance(1, 4) {
        return huge(r);
    }
    *r.pick(&[63, 64, 65, 66, 70, 90, 128, 129, 130, 140])
}

/// more than a byte can count
fn huge(r: &mut Rng) -> usize {
    *r.pick(&[255, 256, 257, 258, 260, 280])
}
fn mid_states(r: &mut Rng) -> usize {
    if r.chance(1, 20) {
        huge(r)
    } else {
        r.range(10, 40)
    }
}

/// how many symbols a wide alphabet has
fn many(r: &mut Rng) -> usize {
    if r.chance(1, 20) {
        return huge(r);
    }
    if r.chance(1, 2) {
        return r.range(5, 40);
    }
    *r.pick(&[8, 9, 10, 11, 16, 17, 20, 26, 27, 31, 32, 33, 36, 40, 52, 53, 62, 63, 64, 65, 66, 70])
}

fn n_states(r: &mut Rng, max: usize) -> usize {
    match r.below(10) {
        0 => 1,
        1..=5 => r.range(1, max.min(4)),
        6..=8 => r.range(1, max.min(7)),
        _ => r.range(1, max),
    }
}

fn accepting(r: &mut Rng, n: usize) -> Vec<bool> {
    let (p, q) = *r.pick(&[(0, 1), (1, 1), (1, 2), (1, 2), (1, 3), (1, 5), (4, 5)]);
    let mut v: Vec<bool> = (0..n).map(|_| r.chance(p, q)).collect();
    if r.chance(2, 3) && !v.iter().any(|x| *x) {
        let i = r.below(n);
        v[i] = true;
    }
    v
}

pub fn dfa(r: &mut Rng, size: &Size, alpha: Option<Vec<String>>) -> Aut {
    let wide = alpha.is_none() && size.mid && r.chance(1, MID * 2);
    let alpha = alpha.unwrap_or_else(|| {
        if wide {
            let k = many(r);
            return wide_symbols(r, k);
        }
        let k = r.range(1, size.max_syms);
        symbols(r, k, false)
    });
    let m = alpha.len();
    let big = !wide && m < 8 && size.big && r.chance(1, BIG);
    let mut n = if big {
        big_states(r)
    } else if !wide && m < 8 && size.mid && r.chance(1, MID * 2) {
        mid_states(r)
    } else {
        let more = if size.mid && r.chance(1, 8) { 8 } else { 0 };
        n_states(r, size.max_states + more)
    };
    let mut acc = accepting(r, n);
    // a shortest accepted word as long as can be
    if n > 4 && r.chance(1, 8) {
        acc = (0..n).map(|i| i + 1 == n).collect();
    }
    let mut tr: Vec<Vec<usize>>;
    match r.below(9) {
        // only the length of a word matters
        8 => {
            let back = r.below(n);
            tr = (0..n).map(|i| vec![if i + 1 < n { i + 1 } else { back }; m]).collect();
        }
        // counting modulo n
        0 => tr = (0..n).map(|i| (0..m).map(|k| if k == 0 { (i + 1) % n } else { i }).collect()).collect(),
        // a chain falling into the last state, or back to the first
        1 => {
            let fall = if r.chance(1, 3) { 0 } else { n - 1 };
            tr = (0..n)
                .map(|i| (0..m).map(|_| if r.chance(3, 4) { (i + 1).min(n - 1) } else { fall }).collect())
                .collect();
            if r.chance(1, 2) {
                acc[n - 1] = false;
            }
        }
        // permutations
        2 => {
            tr = vec![vec![0; m]; n];
            for k in 0..m {
                let mut p: Vec<usize> = (0..n).collect();
                r.shuffle(&mut p);
                for i in 0..n {
                    tr[i][k] = p[i];
                }
            }
        }
        // a small DFA with every state split into equivalent copies
        3 | 4 => {
            let base = n.min(r.range(1, 4));
            let btr: Vec<Vec<usize>> = (0..base).map(|_| (0..m).map(|_| r.below(base)).collect()).collect();
            let bacc = accepting(r, base);
            n = n.max(base).max(r.range(base, size.max_states.max(base)));
            let cls: Vec<usize> = (0..n).map(|i| if i < base { i } else { r.below(base) }).collect();
            tr = (0..n)
                .map(|i| {
                    (0..m)
                        .map(|k| {
                            let want = btr[cls[i]][k];
                            let c: Vec<usize> = (0..n).filter(|&j| cls[j] == want).collect();
                            *r.pick(&c)
                        })
                        .collect()
                })
                .collect();
            acc = cls.iter().map(|&c| bacc[c]).collect();
        }
        _ => tr = (0..n).map(|_| (0..m).map(|_| r.below(n)).collect()).collect(),
    }
    // near-equivalent states: one late difference
    if r.chance(1, 6) && n > 1 {
        let (i, j) = (r.below(n), r.below(n));
        tr[i] = tr[j].clone();
        if r.chance(1, 2) {
            let k = r.below(m);
            tr[i][k] = r.below(n);
        }
    }
    let mut a = Aut {
        alpha,
        init: if r.chance(1, 2) { 0 } else { r.below(n) },
        st: names(r, n)
            .into_iter()
            .enumerate()
            .map(|(i, nm)| St { n: nm, a: acc[i], t: tr[i].iter().map(|&x| vec![x]).collect(), e: vec![] })
            .collect(),
    };
    // unreachable tail
    if r.chance(1, 5) && n > 2 {
        let cut = r.range(1, n - 1);
        for i in 0..cut {
            for t in &mut a.st[i].t {
                t[0] %= cut;
            }
        }
        a.init %= cut;
    }
    a
}

/// Now and then an automaton of hundreds or thousands of states, for what takes them one by one.
pub fn vast(r: &mut Rng, dfa: bool) -> Option<Aut> {
    if !r.chance(1, 3000) {
        return None;
    }
    let n = *r.pick(&[500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 2048, 3000]);
    let m = r.range(1, 3);
    let alpha = symbols(r, m, true);
    let acc = accepting(r, n);
    let near = r.chance(1, 2);
    let to = |r: &mut Rng, i: usize| if near { (i + r.range(1, 3)) % n } else { r.below(n) };
    let st = names(r, n)
        .into_iter()
        .enumerate()
        .map(|(i, nm)| St { n: nm, a: acc[i], t: (0..m).map(|_| if dfa || r.chance(2, 3) { vec![to(r, i)] } else { vec![] }).collect(), e: vec![] })
        .collect();
    Some(Aut { alpha, st, init: r.below(n) })
}

pub fn nfa(r: &mut Rng, size: &Size, alpha: Option<Vec<String>>, eps: bool) -> Aut {
    let wide = alpha.is_none() && size.mid && r.chance(1, MID * 2);
    let alpha = alpha.unwrap_or_else(|| {
        if wide {
            let k = many(r);
            wide_symbols(r, k)
        } else if eps && r.chance(1, 40) {
            vec![]
        } else {
            let k = r.range(1, size.max_syms);
            symbols(r, k, false)
        }
    });
    let m = alpha.len();
    if m > 0 && m < 8 && size.big && r.chance(1, BIG) {
        let n = big_states(r);
        return big_nfa(r, alpha, eps, n);
    }
    if m > 0 && m < 8 && size.mid && r.chance(1, MID * 2) {
        let n = mid_states(r);
        return big_nfa(r, alpha, eps, n);
    }
    if m > 0 && size.max_states >= 6 && r.chance(1, 25) {
        return twins(r, alpha, eps);
    }
    let n = n_states(r, size.max_states);
    let acc = accepting(r, n);
    let mut st: Vec<St> = names(r, n)
        .into_iter()
        .enumerate()
        .map(|(i, nm)| St { n: nm, a: acc[i], t: vec![vec![]; m], e: vec![] })
        .collect();
    let shape = r.below(8);
    let (p, q) = *r.pick(&[(1, 8), (1, 4), (1, 3), (1, 2), (1, 5)]);
    match shape {
        // cycles of different lengths, entered by epsilon or by the first symbol
        0 if m > 0 && n > 2 => {
            let cut = r.range(1, n - 1);
            for i in 0..n {
                let next = if i + 1 == cut { 0 } else if i + 1 == n { cut } else { i + 1 };
                let k = r.below(m.min(2));
                st[i].t[k].push(next);
            }
            let k = r.below(m);
            st[0].t[k].push(cut);
        }
        // a chain with guesses
        1 if m > 0 => {
            for i in 0..n {
                for k in 0..m {
                    if i + 1 < n && r.chance(2, 3) {
                        st[i].t[k].push(i + 1);
                    }
                    if r.chance(1, 4) {
                        st[i].t[k].push(i);
                    }
                    if r.chance(1, 8) {
                        st[i].t[k].push(0);
                    }
                }
            }
        }
        // acyclic
        2 => {
            for i in 0..n {
                for k in 0..m {
                    for j in i + 1..n {
                        if r.chance(p, q) {
                            st[i].t[k].push(j);
                        }
                    }
                }
            }
        }
        // no choices: complete, partial, or one where only the length of a word matters
        3 if m > 0 => {
            let (p, q) = *r.pick(&[(1, 1), (3, 4), (1, 2)]);
            let lengths = r.chance(1, 3);
            let back = r.below(n);
            for i in 0..n {
                for k in 0..m {
                    if lengths {
                        st[i].t[k].push(if i + 1 < n { i + 1 } else { back });
                    } else if r.chance(p, q) {
                        st[i].t[k].push(r.below(n));
                    }
                }
            }
        }
        _ => {
            for i in 0..n {
                for k in 0..m {
                    for j in 0..n {
                        if r.chance(p, q) {
                            st[i].t[k].push(j);
                        }
                    }
                }
            }
        }
    }
    if eps {
        let (p, q) = *r.pick(&[(1, 10), (1, 5), (1, 3), (1, 15), (2, 3)]);
        for i in 0..n {
            for j in 0..n {
                if r.chance(p, q) && (i != j || r.chance(1, 4)) {
                    st[i].e.push(j);
                }
            }
        }
    }
    for s in &mut st {
        for t in s.t.iter_mut().chain(std::iter::once(&mut s.e)) {
            if r.chance(1, 3) {
                r.shuffle(t);
            }
            if !t.is_empty() && r.chance(1, 25) {
                let x = *r.pick(t);
                t.push(x); // the same target written twice
            }
        }
    }
    Aut { alpha, st, init: if r.chance(1, 2) { 0 } else { r.below(n) } }
}

/// Two sets of states that are easily taken for one another (same number, sum, extremes, ...), each reached by a word
/// of its own.
fn twins(r: &mut Rng, alpha: Vec<String>, eps: bool) -> Aut {
    let m = alpha.len();
    let n = r.range(6, 10);
    let mut acc = vec![false; n];
    for _ in 0..r.range(1, 3) {
        let i = r.below(n);
        acc[i] = true;
    }
    let mut st: Vec<St> =
        names(r, n).into_iter().zip(acc).map(|(nm, a)| St { n: nm, a, t: vec![vec![]; m], e: vec![] }).collect();
    let kind = r.below(6);
    let key = |v: &[usize]| -> Vec<usize> {
        let (min, max) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
        let sum: usize = v.iter().sum();
        match kind {
            0 => vec![v.len(), sum],
            1 | 2 => vec![v.len(), sum, v.iter().map(|x| x * x).sum()],
            3 => vec![v.len(), v.iter().fold(0, |a, b| a ^ b)],
            4 => vec![min, max],
            _ => vec![v.len(), min],
        }
    };
    let set = |r: &mut Rng| {
        let mut v: Vec<usize> = (0..n).collect();
        r.shuffle(&mut v);
        v.truncate(if kind == 1 || kind == 2 { 3 } else { 2 + v[0] % 3 });
        v.sort();
        v
    };
    let (mut a, mut b) = (set(r), set(r));
    let mut tries = 0;
    while tries < 400 && (a == b || key(&a) != key(&b)) {
        b = set(r);
        tries += 1;
        if tries % 40 == 0 {
            a = set(r);
        }
    }
    let init = r.below(n);
    for _ in 0..r.below(4) {
        let (i, j, k) = (r.below(n), r.below(n), r.below(m));
        st[i].t[k].push(j);
    }
    if eps && r.chance(1, 3) {
        let (i, j) = (r.below(n), r.below(n));
        st[i].e.push(j);
    }
    let k = r.below(m);
    st[init].t[k] = a.clone();
    if m > 1 && r.chance(3, 4) {
        st[init].t[(k + 1) % m] = b;
    } else {
        // the second set one step later
        let i = *r.pick(&a);
        let k = r.below(m);
        st[i].t[k] = b;
    }
    Aut { alpha, st, init }
}

/// Many states, few choices: its determinisation stays small.
fn big_nfa(r: &mut Rng, alpha: Vec<String>, eps: bool, n: usize) -> Aut {
    let m = alpha.len();
    let (ep, eq) = *r.pick(&[(1, 6), (1, 6), (19, 20)]);
    let mut a;
    loop {
        let mut acc = vec![false; n];
        for _ in 0..r.range(1, 4) {
            let i = if r.chance(1, 2) { n - 1 - r.below(6) } else { r.below(n) };
            acc[i] = true;
        }
        let mut st: Vec<St> =
            names(r, n).into_iter().zip(acc).map(|(nm, a)| St { n: nm, a, t: vec![vec![]; m], e: vec![] }).collect();
        for i in 0..n {
            let k = r.below(m);
            let far = if r.chance(1, 20) { r.below(n) } else { (i + 1) % n };
            if i + 1 < n || r.chance(1, 2) {
                if eps && r.chance(ep, eq) {
                    st[i].e.push(far);
                } else {
                    st[i].t[k].push(far);
                }
            }
            if r.chance(1, 25) {
                let (k, j) = (r.below(m), r.below(n));
                st[i].t[k].push(j);
            }
        }
        a = Aut { alpha: alpha.clone(), st, init: if r.chance(3, 4) { 0 } else { r.below(n) } };
        if a.det(&alpha, 400).is_ok() {
            return a;
        }
    }
}

/// Can it be determinised in reasonable time?
pub fn tame(a: &Aut) -> bool {
    a.len() <= 8 || a.det(&a.alpha, 400).is_ok()
}

/// A different set of symbols that is easily taken for `alpha`; as many symbols unless one is added or dropped.
pub fn near_alphabet(r: &mut Rng, alpha: &[String]) -> Option<Vec<String>> {
    let m = alpha.len();
    let mut b = alpha.to_vec();
    match r.below(6) {
        // one symbol exchanged for one that looks like it
        0 | 1 if m > 0 => {
            let k = r.below(m);
            b[k] = near(r, alpha);
        }
        // the same text cut in other places
        2 | 3 if m > 1 => {
            b.sort();
            let t: Vec<char> = b.concat().chars().collect();
            let mut cut: Vec<usize> = (1..t.len()).collect();
            r.shuffle(&mut cut);
            cut.truncate(m - 1);
            cut.sort();
            cut.push(t.len());
            let mut at = 0;
            b = cut
                .into_iter()
                .map(|c| {
                    let s: String = t[at..c].iter().collect();
                    at = c;
                    s
                })
                .collect();
        }
        4 if m > 1 => {
            let k = r.below(m);
            b.remove(k);
        }
        _ => {
            let x = near(r, alpha);
            let k = r.below(m + 1);
            b.insert(k, x);
        }
    }
    let set: std::collections::BTreeSet<&String> = b.iter().collect();
    let old: std::collections::BTreeSet<&String> = alpha.iter().collect();
    (set.len() == b.len() && set != old && b.iter().all(|s| token_ok(s))).then_some(b)
}

/// text that is no symbol but looks like one
fn near(r: &mut Rng, alpha: &[String]) -> String {
    let mut c: Vec<String> = ["zz", "extra", "a", "A", "b", "0", "none", "s0"].iter().map(|s| s.to_string()).collect();
    for x in alpha {
        for suffix in ["\u{fe0f}", "\u{fe0e}", "\u{301}", "\u{200d}", "\u{200b}", "'", "_", "0"] {
            c.push(format!("{x}{suffix}"));
        }
        c.push(format!("\u{feff}{x}"));
        c.push(format!("{x}{x}"));
        c.push(x.to_uppercase());
        c.push(x.to_lowercase());
        c.push(x.replace("e\u{301}", "é"));
        c.push(x.replace("é", "e\u{301}"));
        c.push(x.replace('\u{fe0f}', ""));
        c.push(x.chars().rev().collect());
        c.push(x.chars().skip(1).collect());
        c.push(x.chars().take(1).collect());
        c.push(format!("{x}{}", alpha[0]));
        c.push(format!("{}{x}", alpha[0]));
    }
    c.retain(|x| !x.is_empty() && !alpha.contains(x));
    r.pick(&c).clone()
}

/// A second automaton related to `a`: the same language in another shape, nearly the same, or unrelated.
pub fn related(r: &mut Rng, a: &Aut, dfa_wanted: bool, size: &Size) -> Aut {
    let mut b = match r.below(6) {
        0 => {
            if dfa_wanted {
                dfa(r, size, Some(a.alpha.clone()))
            } else {
                let e = r.chance(1, 2);
                nfa(r, size, Some(a.alpha.clone()), e)
            }
        }
        _ => a.clone(),
    };
    // the very same but for one mark, arrow or name
    if r.chance(1, 16) && b.st.len() > 1 {
        let n = b.st.len();
        let i = r.below(n);
        match r.below(4) {
            0 => b.init = i,
            1 => b.st[i].a = !b.st[i].a,
            2 if !b.alpha.is_empty() => {
                let k = r.below(b.alpha.len());
                b.st[i].t[k] = vec![r.below(n)];
            }
            3 => {
                let nm = names(r, 1).remove(0);
                if b.st.iter().all(|s| s.n != nm) {
                    b.st[i].n = nm;
                }
            }
            _ => {}
        }
        return b;
    }
    // split states into copies
    let copies = r.below(4);
    for _ in 0..copies {
        let n = b.st.len();
        let x = r.below(n);
        let mut s = b.st[x].clone();
        s.n = format!("{}'", s.n);
        b.st.push(s);
        for i in 0..=n {
            for v in b.st[i].t.iter_mut() {
                for y in v.iter_mut() {
                    if *y == x && r.chance(1, 2) {
                        *y = n;
                    }
                }
            }
        }
        if r.chance(1, 8) {
            b.init = if b.init == x { n } else { b.init };
        }
    }
    // one small difference
    if r.chance(1, 2) {
        let i = r.below(b.st.len());
        let n = b.st.len();
        match r.below(4) {
            // the same table under symbols in another order
            3 => order(r, &mut b.alpha),
            0 => b.st[i].a = !b.st[i].a,
            1 if !b.alpha.is_empty() => {
                let k = r.below(b.alpha.len());
                let y = r.below(n);
                if dfa_wanted {
                    b.st[i].t[k] = vec![y];
                } else if r.chance(1, 2) {
                    b.st[i].t[k].push(y);
                } else {
                    b.st[i].t[k].pop();
                }
            }
            _ => b.init = if r.chance(1, 3) { i } else { b.init },
        }
    }
    // permute states
    let n = b.st.len();
    if r.chance(1, 2) {
        let mut p: Vec<usize> = (0..n).collect();
        order(r, &mut p);
        let mut st = b.st.clone();
        for i in 0..n {
            let mut s = b.st[i].clone();
            for v in s.t.iter_mut().chain(std::iter::once(&mut s.e)) {
                v.iter_mut().for_each(|y| *y = p[*y]);
            }
            st[p[i]] = s;
        }
        b.st = st;
        b.init = p[b.init];
    }
    // permute the alphabet
    if r.chance(1, 2) {
        let m = b.alpha.len();
        let mut p: Vec<usize> = (0..m).collect();
        order(r, &mut p);
        b.alpha = p.iter().map(|&k| b.alpha[k].clone()).collect();
        for s in &mut b.st {
            s.t = p.iter().map(|&k| s.t[k].clone()).collect();
        }
    }
    if r.chance(1, 2) {
        for (s, nm) in b.st.iter_mut().zip(names(r, n)) {
            s.n = nm;
        }
    }
    // a different alphabet
    if r.chance(1, 10) {
        if let Some(alpha) = near_alphabet(r, &b.alpha) {
            for i in 0..n {
                while b.st[i].t.len() < alpha.len() {
                    b.st[i].t.push(vec![r.below(n)]);
                }
                b.st[i].t.truncate(alpha.len());
            }
            b.alpha = alpha;
        }
    }
    b
}

pub fn words(r: &mut Rng, alpha: &[String], n: usize, maxlen: usize) -> Vec<Vec<String>> {
    (0..n)
        .map(|_| {
            let l = r.range(0, maxlen);
            (0..l).map(|_| if alpha.is_empty() { "?".to_string() } else { r.pick(alpha).clone() }).collect()
        })
        .collect()
}

/// elements that are not in the alphabet but look like it
pub fn alien(r: &mut Rng, alpha: &[String]) -> String {
    if r.chance(1, 2) {
        return near(r, alpha);
    }
    let mut c: Vec<String> =
        ["", " ", "ε", "eps", "?", "a", "A", "*", "\u{301}", "->", "→", "{}", "#", "\n", "\0"].iter().map(|s| s.to_string()).collect();
    for x in alpha {
        c.push(format!("{x} "));
        c.push(format!(" {x}"));
        c.push(format!("{x}\n"));
        c.push(x.chars().take(x.chars().count() - 1).collect());
    }
    c.retain(|x| !alpha.contains(x));
    r.pick(&c).clone()
}

pub const RX_CHARS: &[&[&str]] = &[
    &["a", "b", "c"],
    &["0", "1"],
    &["a", "(", ")", "*", "+"],
    &["|", "\\", "x", "∅", "ε"],
    &["e\u{301}", "é", "å", "😀", "👨\u{200d}👩\u{200d}👧"],
    &["ε\u{301}", "*\u{301}", "a\u{301}", "a"],
    &["{", "}", "#", "a", "-", ">"],
    &["\u{200b}", "\u{feff}", "a", "\u{1}", "\u{ad}", "\u{2028}"],
    &["\u{e01}", "\u{e33}", "a"],
    &["\u{1100}", "\u{1161}", "\u{ac00}", "\u{ac01}"],
];

/// Now and then a long, wide or deep expression.
fn long_rx(r: &mut Rng, pool: &[String]) -> Rx {
    let ch = |r: &mut Rng| Rx::Ch(r.pick(pool).clone());
    // now and then longer, wider or deeper than anyone would write by hand
    let vast = r.chance(1, 8);
    match r.below(5) {
        0 if vast => {
            let n = *r.pick(&[100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 1500]);
            Rx::Seq((0..n).map(|_| ch(r)).collect())
        }
        1 if vast => {
            let n = *r.pick(&[64, 65, 100, 128, 129, 200, 256, 257]);
            Rx::Alt((0..n).map(|_| if r.chance(1, 6) { Rx::Seq(vec![ch(r), ch(r)]) } else { ch(r) }).collect())
        }
        2 if vast => {
            let n = huge(r);
            let v = wide_symbols(&mut Rng::new(r.seed() | 1), n).into_iter().map(|x| if x.chars().count() == 1 { Rx::Ch(x) } else { ch(r) }).collect();
            Rx::Alt(v)
        }
        3 if vast => {
            let mut x = ch(r);
            for _ in 0..*r.pick(&[50, 64, 65, 100, 128, 129, 150]) {
                x = match r.below(4) {
                    0 => Rx::Alt(vec![x, ch(r)]),
                    1 => Rx::Alt(vec![ch(r), x]),
                    2 => Rx::Seq(vec![x, ch(r)]),
                    _ => Rx::Seq(vec![ch(r), x]),
                };
            }
            x
        }
        0 => {
            let n = r.range(9, 80);
            Rx::Seq((0..n).map(|_| ch(r)).collect())
        }
        1 => {
            let n = r.range(9, 40);
            Rx::Alt((0..n).map(|_| if r.chance(1, 6) { Rx::Seq(vec![ch(r), ch(r)]) } else { ch(r) }).collect())
        }
        2 => {
            let n = r.range(9, 60);
            let v = wide_symbols(&mut Rng::new(r.seed() | 1), n).into_iter().filter(|x| x.chars().count() == 1).map(Rx::Ch).collect::<Vec<_>>();
            let v = if v.is_empty() { vec![ch(r)] } else { v };
            if r.chance(1, 2) {
                Rx::Seq(v)
            } else {
                Rx::Alt(v)
            }
        }
        // nested
        _ => {
            let mut x = ch(r);
            let mut plus = 0;
            let depth = if r.chance(1, 3) { r.range(16, 45) } else { r.range(5, 16) };
            for _ in 0..depth {
                x = match r.below(6) {
                    0 => Rx::Star(Box::new(x)),
                    // (each one doubles what is below it)
                    1 if plus < 2 => {
                        plus += 1;
                        Rx::Plus(Box::new(x))
                    }
                    2 => Rx::Alt(vec![x, ch(r)]),
                    3 => Rx::Alt(vec![ch(r), x]),
                    4 => Rx::Seq(vec![x, ch(r)]),
                    _ => Rx::Seq(vec![ch(r), x]),
                };
            }
            x
        }
    }
}

pub fn regex(r: &mut Rng, max: usize, plain: bool) -> Rx {
    let pool: Vec<String> = if plain {
        RX_CHARS[r.below(2)].iter().map(|s| s.to_string()).collect()
    } else {
        RX_CHARS[*r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9])].iter().map(|s| s.to_string()).collect()
    };
    let mut budget = r.range(1, max);
    let special = r.chance(1, 2);
    if max >= 10 && r.chance(1, 80) {
        return long_rx(r, &pool);
    }
    rx(r, &pool, &mut budget, 0, special)
}

/// Symbols whose printed forms run into their neighbours or into the surrounding white space.
pub fn regex_odd(r: &mut Rng, max: usize) -> Rx {
    let pools: [&[&str]; 10] = [
        &["\u{e01}", "\u{e33}", "a"],
        &["\u{915}", "\u{903}", "\u{93f}", "*"],
        &["\u{1100}", "\u{1161}", "\u{11a8}", "\u{ac00}", "\u{ac01}"],
        &["😀\u{200d}", "😀", "👩", "\u{200d}"],
        &[" ", "a"],
        &["\t", " ", "\n", "b"],
        &["e", "\u{301}", "e\u{301}"],
        &["\u{1f1f8}", "\u{1f1ea}", "a"],
        &["\r", "\n", "\r\n", "a"],
        &["\u{301}", "*", "\\", "(", "ε", "\u{fe0f}"],
    ];
    let pool: Vec<String> = r.pick(&pools).iter().map(|s| s.to_string()).collect();
    let mut budget = r.range(1, max);
    rx(r, &pool, &mut budget, 0, r.clone().chance(1, 3))
}

fn rx(r: &mut Rng, pool: &[String], budget: &mut usize, depth: usize, special: bool) -> Rx {
    *budget = budget.saturating_sub(1);
    if *budget == 0 || depth > 6 || r.chance(1, 5) {
        return match r.below(12) {
            0 if special => Rx::Eps,
            1 if special => Rx::Empty,
            _ => Rx::Ch(r.pick(pool).clone()),
        };
    }
    match r.below(8) {
        0 | 1 => Rx::Star(Box::new(rx(r, pool, budget, depth + 1, special))),
        2 => Rx::Plus(Box::new(rx(r, pool, budget, depth + 1, special))),
        3 | 4 => {
            let n = r.range(2, 3);
            Rx::Alt((0..n).map(|_| rx(r, pool, budget, depth + 1, special)).collect())
        }
        _ => {
            let n = r.range(2, 4);
            Rx::Seq((0..n).map(|_| rx(r, pool, budget, depth + 1, special)).collect())
        }
    }
}

/// Prints an automaton in the documented file format, the layout decided by `style` (0: plain).
pub fn print_table(a: &Aut, dfa: bool, style: u64) -> String {
    let mut r = Rng::new(style);
    let plain = style == 0;
    let nl = if !plain && r.chance(1, 6) { "\r\n" } else { "\n" };
    let wide = !plain && r.chance(1, 3);
    let tabs = !plain && r.chance(1, 6);
    let comments = !plain && r.chance(1, 4);
    let blanks = !plain && r.chance(1, 4);
    let indent = !plain && r.chance(1, 2);
    let arrow_ascii = plain || r.chance(1, 2);
    let eps_ascii = plain || r.chance(1, 2);
    let tight_comment = r.chance(1, 2);
    // now and then, far more layout than table
    let long = !plain && r.chance(1, 50);
    // and, more rarely, a remark of more than any buffer
    let vast = if long && r.chance(1, 6) { *r.pick(&[4_090, 8_185, 16_380, 32_760, 65_530, 66_000, 131_100, 600_000, 1_050_000]) } else { 0 };
    let comments = comments || long && r.chance(1, 2);
    let blanks = blanks || long && r.chance(1, 3);
    let mixed = !plain && r.chance(1, 20);
    let line_end = |r: &mut Rng| if mixed { *r.pick(&["\n", "\r\n"]) } else { nl };
    let remark = |r: &mut Rng, x: &str| -> String {
        if long && r.chance(1, 2) {
            format!("{x}{}", " é{}#->*".repeat(r.range(1, 400)))
        } else {
            x.to_string()
        }
    };
    let mut sp = |r: &mut Rng| -> String {
        if tabs && r.chance(1, 2) {
            "\t".into()
        } else if long && r.chance(1, 8) {
            r.pick(&[" ", "\t", " \t"]).repeat(r.range(1, 300))
        } else if wide {
            " ".repeat(r.range(1, 4))
        } else {
            " ".into()
        }
    };
    let with_eps = !dfa && (a.has_eps() || a.alpha.is_empty() || (!plain && r.chance(1, 3)));
    let eps_at = if plain || a.alpha.is_empty() { 0 } else { r.below(a.alpha.len() + 1) };
    let mut rows: Vec<Vec<String>> = vec![];
    let mut head: Vec<String> = a.alpha.clone();
    if with_eps {
        head.insert(eps_at, if eps_ascii { "eps".into() } else { "ε".into() });
    }
    rows.push(head);
    for (i, s) in a.st.iter().enumerate() {
        let mut row = vec![];
        if i == a.init {
            row.push(if arrow_ascii { "->".to_string() } else { "→".to_string() });
        }
        if s.a {
            row.push("*".into());
        }
        row.push(s.n.clone());
        let set = |v: &[usize], r: &mut Rng| -> String {
            let names: Vec<&str> = v.iter().map(|&x| a.st[x].n.as_str()).collect();
            if wide && r.chance(1, 2) {
                format!("{{ {} }}", names.join("  "))
            } else if (wide || tabs || long) && r.chance(1, 2) {
                let mut b = |r: &mut Rng| {
                    let n = if long { r.below(90) } else { r.below(4) };
                    r.pick(&[" ", "\t", "\t "]).repeat(n)
                };
                let mut t = format!("{{{}", b(r));
                for (i, n) in names.iter().enumerate() {
                    if i > 0 {
                        t += &b(r);
                        t.push(' ');
                    }
                    t += n;
                }
                t + &b(r) + "}"
            } else {
                format!("{{{}}}", names.join(" "))
            }
        };
        let mut cols: Vec<String> =
            s.t.iter().map(|v| if dfa { a.st[v[0]].n.clone() } else { set(v, &mut r) }).collect();
        if with_eps {
            cols.insert(eps_at, set(&s.e, &mut r));
        }
        row.extend(cols);
        rows.push(row);
    }
    let mut out = String::new();
    let noise = |out: &mut String, r: &mut Rng| {
        while blanks && (r.chance(1, 3) || long && r.chance(19, 20)) {
            *out += " ".repeat(r.below(3)).as_str();
            *out += line_end(r);
        }
        if comments && r.chance(1, 3) {
            let x = *r.pick(&["# comment", "#", "  # -> * a {b}", "#ε é"]);
            *out += &remark(r, x);
            *out += line_end(r);
        }
    };
    noise(&mut out, &mut r);
    let n = rows.len();
    let at = if vast > 0 { r.below(n + 1) } else { n + 1 };
    for (i, row) in rows.into_iter().enumerate() {
        if i == at {
            // (characters of several bytes fall on every kind of border)
            let unit = *r.pick(&["#", "é", " {x}€", "-> * a 😀 "]);
            out += "#";
            out += &unit.repeat((vast + r.below(20)) / unit.len());
            out += line_end(&mut r);
        }
        if indent {
            out += &" ".repeat(r.range(0, 5));
        }
        for (j, c) in row.iter().enumerate() {
            if j > 0 {
                out += &sp(&mut r);
            }
            out += c;
        }
        if comments && r.chance(1, 3) {
            out += &remark(&mut r, if tight_comment { "# end" } else { "  # {x} -> y" });
        } else if wide && r.chance(1, 3) {
            out += "  ";
        }
        let last = i + 1 == n;
        if !last || plain || r.chance(2, 3) {
            out += line_end(&mut r);
            noise(&mut out, &mut r);
        }
    }
    out
}

/// The printed form of a regular expression, wrapped where surrounding whitespace would matter.
/// Almost the same text, or the very same.
pub fn touch(t: &str, seed: u64) -> String {
    let r = &mut Rng::new(seed);
    let mut c: Vec<char> = t.chars().collect();
    let times = if r.chance(1, 4) { 2 } else { 1 };
    for _ in 0..times {
        let n = c.len();
        if n < 2 {
            return c.into_iter().collect();
        }
        let find = |r: &mut Rng, f: &dyn Fn(char) -> bool| {
            let v: Vec<usize> = (0..n).filter(|&i| f(c[i])).collect();
            (!v.is_empty()).then(|| *r.pick(&v))
        };
        let i = r.below(n - 1);
        match r.below(14) {
            0 => {}
            // a blank somewhere else between the same tokens
            1..=3 => {
                if let Some(i) = find(r, &|c| c == ' ') {
                    let j = if r.chance(1, 2) { i.saturating_sub(1) } else { (i + 1).min(n - 1) };
                    if c[j] != '\n' {
                        c.swap(i, j)
                    }
                }
            }
            4 => {
                if let Some(i) = find(r, &|c| c == ' ') {
                    c.remove(i);
                }
            }
            5 => c.insert(i, ' '),
            6 | 7 => {
                if let Some(i) = find(r, &|c| c.is_ascii_alphabetic()) {
                    c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
                }
            }
            8 => c.swap(i, i + 1),
            9 => {
                c.remove(i);
            }
            10 => {
                let mut l: Vec<String> = c.iter().collect::<String>().split('\n').map(|l| l.to_string()).collect();
                let (i, j) = (r.below(l.len()), r.below(l.len()));
                l.swap(i, j);
                c = l.join("\n").chars().collect();
            }
            // one token in place of another
            11 | 12 => {
                let s: String = c.iter().collect();
                let tokens: Vec<&str> = s.split_whitespace().collect();
                if tokens.is_empty() {
                    continue;
                }
                let (x, y) = (r.pick(&tokens).to_string(), r.pick(&tokens).to_string());
                let at: Vec<usize> = s.match_indices(&x).map(|m| m.0).collect();
                let k = *r.pick(&at);
                c = format!("{}{y}{}", &s[..k], &s[k + x.len()..]).chars().collect();
            }
            // or at the very end
            _ => c[n - 1] = *r.pick(&['\n', ' ', '#', 'x', '\t']),
        }
    }
    c.into_iter().collect()
}

pub fn print_regex(x: &Rx, style: u64) -> String {
    let mut s = x.print(style);
    if style % 97 == 3 {
        let k = *[1, 2, 10, 32, 64, 100, 128, 256, 300].get((style / 97 % 9) as usize).unwrap();
        s = format!("{}{s}{}", "(".repeat(k), ")".repeat(k));
    }
    let s = if s.trim() != s { format!("({s})") } else { s };
    match style % 5 {
        1 => format!("  {s}\n"),
        2 => format!("\n{s} "),
        _ => s,
    }
}
