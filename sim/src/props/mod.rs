use crate::core::*;
use crate::engine::Prop;
use crate::gen;
use crate::model::*;
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
#[cfg(feature = "gui")]
mod c20;
mod c21;
mod c22;
mod c23;
mod cli;
mod pic;

#[macro_export]
macro_rules! typed {
    ($gen:path, $run:path, $case:ty) => {{
        fn g(r: &mut $crate::core::Rng, thorough: bool) -> serde_json::Value {
            let c: $case = $gen(r, thorough);
            serde_json::to_value(&c).unwrap()
        }
        fn x(v: &serde_json::Value, ctx: &mut $crate::core::Ctx) -> $crate::core::R {
            let c: $case = match serde_json::from_value(v.clone()) {
                Ok(c) => c,
                Err(e) => return $crate::core::invalid(e.to_string()),
            };
            $run(&c, ctx)
        }
        (g, x)
    }};
}

pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c21::prop(), c22::prop(), c23::prop()];
    #[cfg(feature = "gui")]
    v.insert(v.len() - 3, c20::prop());
    v
}

pub const LIB: &[&str] = &["dandy (parser, dfa, nfa, regex, table) compiled from /repo's working tree"];
pub const ENTROPY_STUB: &[&str] = &["operating-system entropy behind std's hash maps (getrandom): seeded per simulated thread"];
pub const BASE_ASSUME: &[&str] = &[
    "the reference model in sim/src/model.rs and sim/src/reader.rs states the intended semantics",
    "hash-map iteration order is the library's only internal nondeterminism; it is driven through std's RandomState keys",
    "cases are sampled, not enumerated: absence of a violation is evidence for the sampled runs only",
];

/// Loads a reference automaton into the library through its text format.
pub fn mk_dfa(a: &Aut, style: u64) -> R<Dfa> {
    let t = gen::print_table(a, true, style);
    let d: Dfa = match dandy::parser::dfa(&t) {
        Ok(p) => match p.try_into() {
            Ok(d) => d,
            Err(e) => return viol("load", format!("a valid DFA was rejected: {e}\n{t}")),
        },
        Err(e) => return viol("load", format!("a valid DFA was rejected: {e:?}\n{t}")),
    };
    let got = of_dfa("loaded DFA", &d)?;
    ensure(got == *a, "load", || format!("loaded DFA differs from its text\n{t}\ngot {}", got.describe()))?;
    Ok(d)
}

pub fn mk_nfa(a: &Aut, style: u64) -> R<Nfa> {
    let t = gen::print_table(a, false, style);
    let d: Nfa = match dandy::parser::nfa(&t) {
        Ok(p) => match p.try_into() {
            Ok(d) => d,
            Err(e) => return viol("load", format!("a valid NFA was rejected: {e}\n{t}")),
        },
        Err(e) => return viol("load", format!("a valid NFA was rejected: {e:?}\n{t}")),
    };
    let got = of_nfa("loaded NFA", &d)?;
    ensure(same_sets(&got, a), "load", || format!("loaded NFA differs from its text\n{t}\ngot {}", got.describe()))?;
    Ok(d)
}

/// equal up to order and repetition inside target sets
pub fn same_sets(a: &Aut, b: &Aut) -> bool {
    let n = |a: &Aut| {
        let mut a = a.sorted();
        for s in &mut a.st {
            s.e.dedup();
            s.t.iter_mut().for_each(|v| v.dedup());
        }
        a
    };
    n(a) == n(b)
}

pub fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
