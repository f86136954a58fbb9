use super::cli::{self, Case};
use super::*;
#[allow(unused_imports)]
use crate::cmd::*;

fn gen(r: &mut Rng, _: bool) -> Case {
    let inv = gen_bin(r);
    cli::case(r, inv)
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, cli::run, Case);
    Prop {
        id: "C18",
        gen,
        run,
        quick: 40_000,
        thorough: 400_000,
        level: "exploration",
        rule: "a seeded pair of DFA, NFA or regex files, one of the four operations, seeded options, hash seeds and in a third of the runs transient system-call faults; the printed table is read back by an independent reader and compared with the reference combination (language, state count when minimal), the words and the comparison too; non-trivial: results were due",
        assumptions: cli::CLI_ASSUME,
        real: cli::CLI,
        stub: cli::OS_STUB,
    }
}
