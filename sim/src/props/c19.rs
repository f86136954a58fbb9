use super::cli::{self, Case};
use super::*;
#[allow(unused_imports)]
use crate::cmd::*;

fn gen(r: &mut Rng, _: bool) -> Case {
    let inv = if r.chance(1, 2) { gen_enum(r) } else { gen_test(r) };
    cli::case(r, inv)
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, cli::run, Case);
    Prop {
        id: "C19",
        gen,
        run,
        quick: 40_000,
        thorough: 400_000,
        level: "exploration",
        rule: "a seeded expression or automaton file and count, or automaton and word files with seeded lines and line ends, under seeded options, hash seeds and in a third of the runs transient system-call faults; non-trivial: results were due and compared with the reference words or verdicts",
        assumptions: cli::CLI_ASSUME,
        real: cli::CLI,
        stub: cli::OS_STUB,
    }
}
