use super::cli::{self, Case};
use super::*;
#[allow(unused_imports)]
use crate::cmd::*;

fn gen(r: &mut Rng, _: bool) -> Case {
    let inv = gen_eq(r);
    cli::case(r, inv)
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, cli::run, Case);
    Prop {
        id: "C17",
        gen,
        run,
        quick: 40_000,
        thorough: 400_000,
        level: "exploration",
        rule: "a seeded reference and one to five (sometimes repeated) files of seeded types, written from one family of languages so that equivalent, near-equivalent, non-minimal and broken ones all occur, under seeded options, hash seeds and in a third of the runs transient system-call faults; non-trivial: verdicts were due and all were compared with an independent decision by reference automata",
        assumptions: cli::CLI_ASSUME,
        real: cli::CLI,
        stub: cli::OS_STUB,
    }
}
