//! C14: transient trouble does not show in what the command line prints.
use super::cli::{self, Trouble};
use super::*;
use crate::cmd::*;
use crate::os;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    inv: Inv,
    entropy: u64,
    /// further runs of the same command: with the same hash seed or another one
    runs: Vec<(Option<u64>, Vec<Trouble>)>,
    clock_ms: u64,
}

fn gen(r: &mut Rng, _: bool) -> Case {
    let mut inv = gen_any(r);
    if inv.out.is_none() && r.chance(1, 2) {
        inv.out = Some(path(r, &mut inv.files.iter().map(|f| os::normal(&f.path)).collect()));
    }
    let runs = (0..r.range(1, 4)).map(|_| (r.chance(1, 3).then(|| r.seed()), cli::troubles(r))).collect();
    Case { inv, entropy: r.seed(), runs, clock_ms: if r.chance(1, 4) { r.below(3) as u64 } else { r.seed() % 4_000_000_000_000 } }
}

/// the one line that tells the time
fn timeless(t: &[u8]) -> Vec<u8> {
    let t = String::from_utf8_lossy(t);
    let mut o = String::new();
    for l in t.split_inclusive('\n') {
        match (l.starts_with("Testing of "), l.find(" done in "), l.find("ms. Results:")) {
            (true, Some(i), Some(j)) if i < j && l[i + 9..j].bytes().all(|b| b.is_ascii_digit()) => {
                o += &l[..i + 9];
                o += &l[j..];
            }
            _ => o += l,
        }
    }
    o.into_bytes()
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    c.inv.check()?;
    let fs = c.inv.fs()?;
    let e = expect(&c.inv, &cli::seen(&c.inv, &fs))?;
    ctx.hit(name(&c.inv.cmd));
    let mut p = cli::plan(&c.inv, fs, c.entropy, vec![]);
    p.clock_ns = c.clock_ms as i64 * 1_000_000;
    let base = os::run_logged(&p, ctx)?;
    cli::ended(&base, e.as_ref().is_none_or(|e| e.complain))?;
    let out = |o: &os::Outcome| c.inv.out_norm().and_then(|p| o.fs.get(&p).map(|f| f.data.clone()));
    let mut felt = false;
    for (seed, t) in &c.runs {
        let mut p = p.clone();
        p.faults = cli::check_troubles(t)?;
        p.entropy = seed.unwrap_or(c.entropy);
        let o = os::run_logged(&p, ctx)?;
        felt |= !o.injected.is_empty() || seed.is_some();
        let shown = |o: &os::Outcome| format!("{:?} / {:?} / {:?}", String::from_utf8_lossy(&o.stdout), out(o).map(|x| String::from_utf8_lossy(&x).to_string()), String::from_utf8_lossy(&o.stderr));
        if seed.is_none() {
            ctx.hit("op:run again under faults, same hash seed");
            ensure(o.end == base.end, "different-end", || format!("ended with {:?} instead of {:?} under {:?}\n{}", o.end, base.end, t, shown(&o)))?;
            ensure(timeless(&o.stdout) == timeless(&base.stdout), "different-output", || format!("standard output changed under {:?}\nwas {}\nis {}", t, shown(&base), shown(&o)))?;
            ensure(out(&o) == out(&base), "different-file", || format!("the output file changed under {:?}\nwas {}\nis {}", t, shown(&base), shown(&o)))?;
        } else {
            ctx.hit("op:run again under faults, another hash seed");
            cli::ended(&o, e.as_ref().is_none_or(|e| e.complain))?;
        }
        if let Some(e) = &e {
            cli::judge(&c.inv, e, &o, true)?;
        }
    }
    ctx.nontrivial = felt && e.as_ref().is_some_and(|e| !e.complain && !e.any[0].is_empty());
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C14",
        gen,
        run,
        quick: 12_000,
        thorough: 400_000,
        level: "exploration",
        rule: "a seeded command of any kind run once undisturbed and one to four times under seeded transient faults (interrupted and short system calls singly and in storms, misleading sizes, failing seeks, clock jumps) with the same or another hash seed: the same bytes must come out, and under another hash seed the same results; non-trivial: faults took effect in a command with results",
        assumptions: cli::CLI_ASSUME,
        real: cli::CLI,
        stub: cli::OS_STUB,
    }
}
