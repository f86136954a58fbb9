//! What the command-line properties share: troubles, plans, and the judgement of a finished run.
use super::*;
use crate::cmd::*;
use crate::os::{self, Act, End, Fault, Fs, Outcome, Plan};
use serde::{Deserialize, Serialize};

pub const CLI: &[&str] = &["dandy-cli, its whole program compiled from /repo's working tree, with dandy below it", "Rust's standard library down to its system calls"];
pub const OS_STUB: &[&str] = &[
    "the operating system below dandy-cli (files, standard streams, clock, entropy, memory): sim/shim/simos.c, in memory, driven by a plan",
    "the terminal and the shell: arguments are passed, outputs recorded",
];
pub const CLI_ASSUME: &[&str] = &[
    "the reference model in sim/src/cmd.rs, model.rs and reader.rs states the intended semantics",
    "the simulated operating system behaves like Linux for the calls the program makes; calls it does not know would reach the real one",
    "a killed process loses nothing that its write calls have returned for",
    "cases are sampled, not enumerated: absence of a violation is evidence for the sampled runs only",
];

/// Transient trouble: it must not show.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Trouble {
    One(Fault),
    /// every call of a class from the `from`th to the `to`th
    Storm { class: u32, from: u32, to: u32, act: Act },
}

pub fn faults(t: &[Trouble]) -> Vec<Fault> {
    let mut v = vec![];
    for t in t {
        match t {
            Trouble::One(f) => v.push(f.clone()),
            Trouble::Storm { class, from, to, act } => {
                // interruptions pass
                let to = if matches!(act, Act::Errno(_)) { (*to).min(from + 40) } else { (*to).min(from + 400) };
                v.extend((*from..=to).map(|nth| Fault { class: *class, nth, act: act.clone() }))
            }
        }
    }
    v
}

/// only what passes by itself
pub fn transient(f: &Fault) -> bool {
    match (f.class, &f.act) {
        (os::OPEN | os::READ | os::WRITE | os::STDOUT | os::STDERR | os::RANDOM, Act::Errno(e)) => *e == libc::EINTR,
        (os::READ | os::WRITE | os::STDOUT | os::STDERR, Act::Short(_)) => true,
        (os::STAT, Act::Size(n)) => *n <= 1 << 20,
        (os::STAT, Act::Errno(e)) => *e == libc::EIO,
        (os::SEEK, Act::Errno(e)) => *e == libc::ESPIPE,
        (os::CLOCK, Act::Jump(_)) => true,
        _ => false,
    }
}

pub fn trouble(r: &mut Rng) -> Trouble {
    let (class, act) = match r.below(12) {
        0 => (os::OPEN, Act::Errno(libc::EINTR)),
        1 => (os::READ, Act::Errno(libc::EINTR)),
        2 => (os::WRITE, Act::Errno(libc::EINTR)),
        3 => (os::STDOUT, Act::Errno(libc::EINTR)),
        4 => (os::RANDOM, Act::Errno(libc::EINTR)),
        5 | 6 => (os::READ, Act::Short(r.range(1, 40) as u32)),
        7 => (os::WRITE, Act::Short(r.range(1, 40) as u32)),
        8 => (os::STDOUT, Act::Short(r.range(1, 40) as u32)),
        9 => (os::STAT, if r.chance(1, 3) { Act::Errno(libc::EIO) } else { Act::Size(*r.pick(&[0, 0, 1, 7, 31, 32, 33, 8192, 1 << 20])) }),
        10 => (os::SEEK, Act::Errno(libc::ESPIPE)),
        _ => {
            let n = r.below(4_000_000_000_000) as i64;
            (os::CLOCK, Act::Jump(if r.chance(1, 2) { n } else { -n }))
        }
    };
    if r.chance(1, 2) {
        let hi = if r.chance(1, 3) { 40 } else { 5 };
        Trouble::One(Fault { class, nth: r.range(1, hi) as u32, act })
    } else {
        let from = if r.chance(2, 3) { 1 } else { r.range(1, 6) as u32 };
        Trouble::Storm { class, from, to: from + r.range(0, 60) as u32, act }
    }
}

pub fn troubles(r: &mut Rng) -> Vec<Trouble> {
    (0..r.range(1, 4)).map(|_| trouble(r)).collect()
}

pub fn check_troubles(t: &[Trouble]) -> R<Vec<Fault>> {
    let f = faults(t);
    if f.len() > 2000 || !f.iter().all(transient) {
        return invalid("not transient");
    }
    Ok(f)
}

pub fn plan(inv: &Inv, fs: Fs, entropy: u64, faults: Vec<Fault>) -> Plan {
    Plan { args: inv.args(), fs, faults, entropy, clock_ns: 1_700_000_000_000_000_000, stdout_cap: -1, stdout_errno: 0 }
}

pub fn ended(o: &Outcome, complain: bool) -> R {
    let err = || String::from_utf8_lossy(&o.stderr).to_string();
    match o.end {
        End::Exit(101) => viol("crash", format!("the program panicked: {}", err())),
        End::Signal(s) => viol("crash", format!("the program died of signal {s}: {}", err())),
        End::Exit(c) if c != 0 && !complain => viol("exit", format!("the program failed with status {c}: {}", err())),
        _ => Ok(()),
    }
}

/// The whole judgement of a run that met no hard fault.
pub fn judge(inv: &Inv, e: &Expect, o: &Outcome, created: bool) -> R {
    ended(o, e.complain)?;
    check_output(inv, e, &o.stdout, &o.stderr)?;
    if let Some(p) = inv.out_norm() {
        match o.fs.get(&p).filter(|f| f.kind == 0) {
            Some(f) if created => {
                check_any(e, utf8(&f.data)?)?;
                if inv.less_logs {
                    ensure(f.data == o.stdout, "mirror", || format!("the output file differs from standard output: {:?}", String::from_utf8_lossy(&f.data)))?;
                }
            }
            None if created => return viol("mirror", "there is no output file"),
            _ => {}
        }
    }
    Ok(())
}

pub fn check_any(e: &Expect, t: &str) -> R<Vec<usize>> {
    let mut res = check_strict(t, &e.any[0]);
    for items in &e.any[1..] {
        if res.is_ok() {
            break;
        }
        res = check_strict(t, items);
    }
    res.map_err(|x| match x {
        Stop::Viol(v) => Stop::Viol(Viol { class: v.class, msg: format!("(output file) {}", v.msg) }),
        x => x,
    })
}

/// what an undisturbed reader of the files sees
pub fn seen(inv: &Inv, fs: &Fs) -> impl Fn(usize) -> Seen {
    let v: Vec<Option<String>> = inv.files.iter().map(|f| fs.get(&os::normal(&f.path)).filter(|f| f.kind == 0).and_then(|f| String::from_utf8(f.data.clone()).ok())).collect();
    move |i| match &v[i] {
        Some(t) => Seen::Text(t.clone()),
        None => Seen::Unreadable,
    }
}

// ---- C17, C18, C19: one invocation, with or without transient trouble

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    inv: Inv,
    entropy: u64,
    troubles: Vec<Trouble>,
}

pub fn case(r: &mut Rng, inv: Inv) -> Case {
    let entropy = r.seed();
    let troubles = if r.chance(1, 3) { troubles(r) } else { vec![] };
    Case { inv, entropy, troubles }
}

pub fn run(c: &Case, ctx: &mut Ctx) -> R {
    c.inv.check()?;
    let f = check_troubles(&c.troubles)?;
    let fs = c.inv.fs()?;
    let e = expect(&c.inv, &seen(&c.inv, &fs))?;
    ctx.hit(name(&c.inv.cmd));
    let o = os::run_logged(&plan(&c.inv, fs, c.entropy, f), ctx)?;
    let Some(e) = e else {
        ctx.hit("outcome: not judged (undocumented input)");
        return ended(&o, true);
    };
    ctx.hit(if e.complain { "outcome: refused" } else { "outcome: results" });
    for it in e.any[0].iter().take(40) {
        if let Item::Line(l) | Item::Starts(l) = it {
            for (end, k) in [
                (": Equivalent", "verdict: equivalent"),
                (": Not Equivalent", "verdict: not equivalent"),
                (": Equivalent but not minimized", "verdict: not minimized"),
                (": true", "verdict: true"),
                (": false", "verdict: false"),
                (": Failed to ", "verdict: not an automaton"),
            ] {
                if l.ends_with(end) {
                    ctx.hit(k)
                }
            }
            for (start, k) in [("[ OK ]", "word test: accepted"), ("[FAIL]", "word test: rejected")] {
                if l.starts_with(start) {
                    ctx.hit(k)
                }
            }
            for (part, k) in [(" is EQUIVALENT to ", "comparison: equivalent"), (" is NOT EQUIVALENT to ", "comparison: not equivalent")] {
                if l.contains(part) {
                    ctx.hit(k)
                }
            }
        }
    }
    if e.fewer.is_some() {
        ctx.hit("outcome: fewer words than asked for");
    }
    ctx.nontrivial = !e.complain && !e.any[0].is_empty();
    judge(&c.inv, &e, &o, true)
}
