//! C16: the output file mirrors the results, also across crashes.
use super::cli::{self, Trouble};
use super::*;
use crate::cmd::*;
use crate::os::{self, Act, Event, Fault, VFile};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Crash {
    /// killed around that call (in 1/1000 of all)
    Kill { at: u16, after: bool },
    /// killed in the middle of that call
    Torn { at: u16, bytes: u32 },
    /// the nth write to the output file or to standard output is torn by a kill
    TornWrite { stdout: bool, nth: u32, bytes: u32 },
    /// the disk takes only that part of the complete file
    Disk { at: u16, errno: i32 },
    /// the reader of standard output goes away
    Reader { at: u16, errno: i32 },
    /// that allocation fails
    Memory { at: u16 },
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    inv: Inv,
    entropy: u64,
    old: Option<String>,
    troubles: Vec<Trouble>,
    crashes: Vec<Crash>,
}

fn gen(r: &mut Rng, _: bool) -> Case {
    let mut inv = gen_any(r);
    if inv.out.is_none() {
        inv.out = Some(path(r, &mut inv.files.iter().map(|f| os::normal(&f.path)).collect()));
    }
    let k = |r: &mut Rng| r.below(1001) as u16;
    let crashes = (0..r.range(0, 5))
        .map(|_| match r.below(10) {
            0 | 1 | 2 => Crash::Kill { at: k(r), after: r.chance(1, 2) },
            3 => Crash::Torn { at: k(r), bytes: r.below(60) as u32 },
            4 | 5 => Crash::TornWrite { stdout: r.chance(1, 2), nth: r.range(1, 12) as u32, bytes: r.below(40) as u32 },
            6 | 7 => Crash::Disk { at: k(r), errno: *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]) },
            8 => Crash::Reader { at: k(r), errno: *r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC]) },
            _ => Crash::Memory { at: k(r) },
        })
        .collect();
    let old = match r.below(4) {
        0 => None,
        1 => Some("x\n".into()),
        _ => Some("older results that are longer\n".repeat(r.range(1, 60))),
    };
    let troubles = if r.chance(1, 4) { cli::troubles(r) } else { vec![] };
    Case { inv, entropy: r.seed(), old, troubles, crashes }
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(b))
}

/// Follows the output file and standard output through the events of a run.
fn follow(events: &[Event], files: &[String], path: &str, old: &Option<Vec<u8>>, mut f: impl FnMut(&Option<Vec<u8>>, &[u8], bool) -> R) -> R {
    let mut names: Vec<String> = files.to_vec();
    let mut cur = old.clone();
    let mut stdout: Vec<u8> = vec![];
    let mut touched = false;
    for e in events {
        let text = || String::from_utf8_lossy(&e.data).to_string();
        let mine = |names: &Vec<String>| names.get(e.a as usize).is_some_and(|n| n == path);
        match e.kind {
            'C' => {
                while names.len() <= e.a as usize {
                    names.push(String::new())
                }
                names[e.a as usize] = text();
                if text() == path {
                    cur = Some(vec![]);
                    touched = true;
                }
            }
            'T' if e.a >= 0 && mine(&names) => {
                let mut d = cur.take().unwrap_or_default();
                d.resize(e.b as usize, 0);
                cur = Some(d);
                touched = true;
            }
            'W' if mine(&names) => {
                let d = cur.get_or_insert_with(Vec::new);
                let end = e.b as usize + e.data.len();
                if d.len() < end {
                    d.resize(end, 0)
                }
                d[e.b as usize..end].copy_from_slice(&e.data);
                touched = true;
            }
            // replaced or removed: judged by what the run leaves behind
            'M' | 'U' => return Ok(()),
            'S' => stdout.extend(&e.data),
            _ => continue,
        }
        f(&cur, &stdout, touched)?;
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    c.inv.check()?;
    let mut faults = cli::check_troubles(&c.troubles)?;
    // the log tells the time
    faults.retain(|f| f.class != os::CLOCK);
    let Some(path) = c.inv.out_norm() else { return invalid("no output file") };
    let mut fs = c.inv.fs()?;
    let e = expect(&c.inv, &cli::seen(&c.inv, &fs))?;
    if let Some(t) = &c.old {
        fs.insert(path.clone(), VFile::new(t.clone().into_bytes()));
    }
    ctx.hit(name(&c.inv.cmd));
    let files: Vec<String> = fs.keys().cloned().collect();
    let old = c.old.clone().map(|t| t.into_bytes());
    let plain = cli::plan(&c.inv, fs.clone(), c.entropy, vec![]);
    let base = os::run_logged(&plain, ctx)?;
    cli::ended(&base, e.as_ref().is_none_or(|e| e.complain))?;
    let Some(whole) = base.fs.get(&path).filter(|f| f.kind == 0).map(|f| f.data.clone()) else { return viol("mirror", "there is no output file") };
    let printed = base.stdout.clone();
    let mut ends = None;
    match &e {
        Some(e) => {
            cli::judge(&c.inv, e, &base, true)?;
            ends = Some(cli::check_any(e, utf8(&whole)?)?);
        }
        None => ctx.hit("outcome: results not judged (undocumented input)"),
    }
    if c.inv.less_logs {
        ensure(whole == printed, "mirror", || format!("the output file holds {} but {} was printed", show(&whole), show(&printed)))?;
    } else {
        // every result line also went to standard output, in order
        let p = String::from_utf8_lossy(&printed).to_string();
        let lines: Vec<&str> = p.split('\n').collect();
        let mut at = 0;
        for l in String::from_utf8_lossy(&whole).split_terminator('\n') {
            match lines[at..].iter().position(|x| *x == l) {
                Some(i) => at += i + 1,
                None => return viol("mirror", format!("the output file holds the line {l:?}, but {} was printed", show(&printed))),
            }
        }
    }
    let judge_prefix = |o: &os::Outcome| -> R {
        follow(&o.events, &files, &path, &old, |cur, so, touched| {
            ensure(printed.starts_with(so), "stdout-prefix", || format!("{} was printed, but an undisturbed run prints {}", show(so), show(&printed)))?;
            let d: &[u8] = match cur {
                Some(d) => d,
                None => b"",
            };
            if !touched {
                return ensure(cur == &old, "mirror", || "the output file changed".into());
            }
            ensure(whole.starts_with(d), "file-prefix", || format!("the output file holds {}, but an undisturbed run writes {}", show(d), show(&whole)))?;
            if let (true, Some(ends)) = (c.inv.less_logs, &ends) {
                let (a, b) = (d.len().min(so.len()), d.len().max(so.len()));
                let i = ends.partition_point(|x| *x <= a);
                let next = ends.get(i).copied().unwrap_or(whole.len());
                ensure(b <= next, "apart", || format!("the output file holds {} while {} was printed: more than one result apart", show(d), show(so)))?;
            }
            Ok(())
        })?;
        // what is left in the end
        if let Some(f) = o.fs.get(&path).filter(|f| f.kind == 0) {
            ensure(whole.starts_with(&f.data) || Some(&f.data) == old.as_ref(), "file-prefix", || format!("the output file holds {}, but an undisturbed run writes {}", show(&f.data), show(&whole)))?;
        }
        Ok(())
    };
    judge_prefix(&base)?;
    let calls = base.calls.max(1);
    let part = |at: u16, n: u64| (at.min(1000) as u64 * n / 1000).max(1) as u32;
    for k in &c.crashes {
        let mut p = plain.clone();
        p.faults = faults.clone();
        match k {
            Crash::Kill { at, after } => p.faults.push(Fault { class: os::ANY, nth: part(*at, calls), act: if *after { Act::KillAfter } else { Act::KillBefore } }),
            Crash::Torn { at, bytes } => p.faults.push(Fault { class: os::ANY, nth: part(*at, calls), act: Act::TornKill(*bytes) }),
            Crash::TornWrite { stdout, nth, bytes } => p.faults.push(Fault { class: if *stdout { os::STDOUT } else { os::WRITE }, nth: *nth, act: Act::TornKill(*bytes) }),
            Crash::Disk { at, errno } => {
                if *errno <= 0 || *errno == libc::EINTR {
                    return invalid("errno");
                }
                let f = p.fs.entry(path.clone()).or_insert_with(|| VFile { kind: 2, ..VFile::new(vec![]) });
                f.cap = (*at.min(&1000) as u64 * whole.len() as u64 / 1000) as i64;
                f.write_errno = *errno;
            }
            Crash::Reader { at, errno } => {
                if *errno <= 0 || *errno == libc::EINTR || *errno == libc::EBADF {
                    return invalid("errno");
                }
                p.stdout_cap = (*at.min(&1000) as u64 * printed.len() as u64 / 1000) as i64;
                p.stdout_errno = *errno;
            }
            Crash::Memory { at } => p.faults.push(Fault { class: os::ALLOC, nth: part(*at, base.allocs), act: Act::Errno(libc::ENOMEM) }),
        }
        let o = os::run_logged(&p, ctx)?;
        ctx.hit(if o.killed { "outcome: killed" } else if o.end == os::End::Exit(0) { "outcome: ended by itself" } else { "outcome: failed" });
        // memory that runs out while a file is read makes this file unreadable, which is reported as a result
        let other = matches!(k, Crash::Memory { .. }) && matches!(o.end, os::End::Exit(_));
        if other {
            cli::ended(&o, true)?;
            let left = o.fs.get(&path).map(|f| f.data.clone()).unwrap_or_default();
            ensure(!c.inv.less_logs || left == o.stdout, "mirror", || format!("the output file holds {} but {} was printed", show(&left), show(&o.stdout)))?;
        } else {
            judge_prefix(&o)?;
        }
        let left = o.fs.get(&path).filter(|f| f.kind == 0).map(|f| f.data.clone());
        if !other && o.end == os::End::Exit(0) && o.stderr == base.stderr {
            ensure(left.as_ref() == Some(&whole) && o.stdout == printed, "silent-loss", || {
                format!("the program reported no trouble after {k:?}, but left {:?} in the file and printed {}", left.as_ref().map(|x| show(x)), show(&o.stdout))
            })?;
        }
        ctx.nontrivial |= !whole.is_empty() && !o.injected.is_empty();
        // what survives is there when the command is run again
        let mut again = plain.clone();
        if let Some(d) = left {
            again.fs.insert(path.clone(), VFile::new(d));
        } else {
            again.fs.remove(&path);
        }
        ctx.hit("op:run again after the crash");
        let o2 = os::run_logged(&again, ctx)?;
        cli::ended(&o2, true)?;
        let got = o2.fs.get(&path).map(|f| f.data.clone());
        ensure(got.as_ref() == Some(&whole), "rerun", || format!("running again after {k:?} left {:?} instead of {}", got.as_ref().map(|x| show(x)), show(&whole)))?;
        ensure(o2.stdout == printed, "rerun", || format!("running again after {k:?} printed {} instead of {}", show(&o2.stdout), show(&printed)))?;
    }
    ctx.nontrivial |= c.crashes.is_empty() && c.old.is_some() && !whole.is_empty();
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C16",
        gen,
        run,
        quick: 12_000,
        thorough: 300_000,
        level: "exploration",
        rule: "a seeded command with an output file (absent, or holding older and often longer contents) run undisturbed, then up to five times with a seeded crash: killed before, after or within any call, the disk full or failing at any byte, the reader of standard output gone at any byte, an allocation failing; after every event the file and standard output are compared with the undisturbed ones, and the command is run again on what survived; non-trivial: there were results, and a crash took place or older contents were replaced",
        assumptions: cli::CLI_ASSUME,
        real: cli::CLI,
        stub: cli::OS_STUB,
    }
}
