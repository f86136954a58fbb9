//! C15: hard I/O errors are contained and reported.
use super::cli::{self, Trouble};
use super::*;
use crate::cmd::*;
use crate::os::{self, VFile};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Hard {
    Missing,
    Directory,
    /// opening fails
    Open(i32),
    /// reading fails at that part (in 1/1000) of the file
    Read(u16, i32),
    /// a byte there is not text
    Encoding(u16, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum OutHard {
    NoDirectory,
    Directory,
    Open(i32),
    /// it exists but may not be written
    Denied(i32),
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    inv: Inv,
    entropy: u64,
    hard: Vec<(usize, Hard)>,
    out: Option<OutHard>,
    troubles: Vec<Trouble>,
}

fn gen(r: &mut Rng, _: bool) -> Case {
    let inv = loop {
        let mut i = gen_any(r);
        if i.files.is_empty() && !r.chance(1, 4) {
            continue;
        }
        if i.out.is_none() && (i.files.is_empty() || r.chance(1, 3)) {
            i.out = Some(path(r, &mut i.files.iter().map(|f| os::normal(&f.path)).collect()));
        }
        break i;
    };
    let n = inv.files.len();
    let mut hard = vec![];
    if n > 0 {
        for _ in 0..r.range(if inv.out.is_some() { 0 } else { 1 }, 3) {
            // the first file matters to all, so spare it often
            let i = if n > 1 && r.chance(2, 3) { r.range(1, n - 1) } else { r.below(n) };
            let h = match r.below(6) {
                0 => Hard::Missing,
                1 => Hard::Directory,
                2 => Hard::Open(*r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ELOOP, libc::ENOMEM, libc::ENAMETOOLONG])),
                3 | 4 => Hard::Read(r.below(1000) as u16, *r.pick(&[libc::EIO, libc::ENOMEM, libc::ESTALE])),
                _ => Hard::Encoding(r.below(1000) as u16, *r.pick(&[0xff, 0xfe, 0xc0, 0x80])),
            };
            hard.push((i, h));
        }
    }
    let out = if inv.out.is_some() && (hard.is_empty() || r.chance(1, 2)) {
        Some(match r.below(4) {
            0 => OutHard::NoDirectory,
            1 => OutHard::Directory,
            2 => OutHard::Open(*r.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EMFILE, libc::EDQUOT])),
            _ => OutHard::Denied(*r.pick(&[libc::EACCES, libc::EROFS, libc::ETXTBSY])),
        })
    } else {
        None
    };
    let troubles = if r.chance(1, 4) { cli::troubles(r) } else { vec![] };
    Case { inv, entropy: r.seed(), hard, out, troubles }
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    c.inv.check()?;
    let faults = cli::check_troubles(&c.troubles)?;
    let n = c.inv.files.len();
    let mut fs = c.inv.fs()?;
    let mut broken = vec![false; n];
    let mut reason = vec![None; n];
    for (i, h) in &c.hard {
        if *i >= n || broken[*i] {
            continue;
        }
        broken[*i] = true;
        let p = os::normal(&c.inv.files[*i].path);
        let Some(f) = fs.get_mut(&p) else { return invalid("no file") };
        let at = |f: &VFile, k: &u16| *k.min(&999) as usize * f.data.len() / 1000;
        match h {
            Hard::Missing => {
                // something else keeps its directory there, sometimes
                if let (Some(j), true) = (p.rfind('/').filter(|j| *j > 0), c.entropy % 2 == 0) {
                    fs.insert(p[..j].to_string(), VFile::dir());
                }
                fs.remove(&p);
                ctx.hit("fault:file missing");
            }
            Hard::Directory => {
                *f = VFile::dir();
                ctx.hit("fault:directory in place of a file");
            }
            Hard::Open(e) => {
                if *e <= 0 || *e == libc::EINTR {
                    return invalid("errno");
                }
                f.open_errno = *e;
                reason[*i] = Some(*e);
            }
            Hard::Read(k, e) => {
                if *e <= 0 || *e == libc::EINTR || *e == libc::EAGAIN {
                    return invalid("errno");
                }
                f.read_fail_at = at(f, k) as i64;
                f.read_errno = *e;
                reason[*i] = Some(*e);
            }
            Hard::Encoding(k, b) => {
                if !matches!(b, 0xff | 0xfe | 0xc0 | 0x80) {
                    return invalid("byte");
                }
                let i = at(f, k);
                f.data.insert(i, *b);
                // 0x80 would continue a character in front of it
                if std::str::from_utf8(&f.data).is_ok() {
                    return invalid("still text");
                }
                ctx.hit("fault:file is not text");
            }
        }
    }
    if let Some(o) = &c.out {
        let Some(p) = c.inv.out_norm() else { return invalid("no output file") };
        match o {
            OutHard::NoDirectory => {
                let Some(j) = p.rfind('/').filter(|j| *j > 0 && &p[..*j] != "/sim" && &p[..*j] != "/tmp") else { return invalid("directory exists") };
                fs.remove(&p[..j]);
                let up = format!("{}/", &p[..j]);
                if fs.keys().any(|k| k.starts_with(&up)) {
                    return invalid("directory exists");
                }
            }
            OutHard::Directory => {
                fs.insert(p.clone(), VFile::dir());
            }
            OutHard::Open(e) => {
                if *e <= 0 || *e == libc::EINTR {
                    return invalid("errno");
                }
                fs.insert(p.clone(), VFile::absent(*e));
            }
            OutHard::Denied(e) => {
                if *e <= 0 || *e == libc::EINTR {
                    return invalid("errno");
                }
                let mut f = VFile::new(b"older results\n".to_vec());
                f.open_errno = *e;
                fs.insert(p.clone(), f);
            }
        }
        ctx.hit("fault:output file cannot be created");
    }
    let mut see_fs = fs.clone();
    for (i, b) in broken.iter().enumerate() {
        if *b {
            see_fs.remove(&os::normal(&c.inv.files[i].path));
        }
    }
    let e = expect(&c.inv, &cli::seen(&c.inv, &see_fs))?;
    ctx.hit(name(&c.inv.cmd));
    let before = c.inv.out_norm().and_then(|p| fs.get(&p).cloned());
    let o = os::run_logged(&cli::plan(&c.inv, fs, c.entropy, faults), ctx)?;
    let Some(e) = e else {
        ctx.hit("outcome: not judged (undocumented input)");
        return cli::ended(&o, true);
    };
    ctx.hit(match (e.complain, e.any[0].is_empty()) {
        (true, true) => "outcome: refused with a message",
        (true, false) => "outcome: partial results and a message",
        _ => "outcome: results",
    });
    ctx.nontrivial = c.out.is_some() || broken.iter().any(|b| *b);
    cli::judge(&c.inv, &e, &o, c.out.is_none())?;
    if let Some(errno) = e.blame.as_ref().and_then(|(i, _, _)| reason[*i]) {
        let said = String::from_utf8_lossy(&o.stderr);
        ensure(said.contains(&format!("(os error {errno})")), "reason", || format!("the reason is error {errno}, but the program says:\n{said}"))?;
    }
    if let (Cmd::Eq { boolean: false, files, .. }, false) = (&c.inv.cmd, e.complain) {
        for errno in files.iter().filter_map(|i| reason[*i]) {
            let said = String::from_utf8_lossy(&o.stdout);
            ensure(said.contains(&format!("(os error {errno})")), "reason", || format!("a file fails with error {errno}, but the program says:\n{said}"))?;
        }
    }
    if c.out.is_some() {
        ensure(!o.stderr.is_empty(), "silent", || "it is not reported that the output file cannot be created".into())?;
        let p = c.inv.out_norm().unwrap();
        ensure(
            match (before.filter(|f| f.kind != 2), o.fs.get(&p).filter(|f| f.kind != 2)) {
                (None, None) => true,
                (Some(a), Some(b)) => a.data == b.data && a.kind == b.kind,
                _ => false,
            },
            "out-file",
            || "what is at the path of the output file has changed".into(),
        )?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    let (gen, run) = crate::typed!(gen, run, Case);
    Prop {
        id: "C15",
        gen,
        run,
        quick: 40_000,
        thorough: 1_000_000,
        level: "exploration",
        rule: "a seeded command of any kind with seeded hard faults on its input files (missing, a directory, refused on opening, failing while being read, not text) and on its output file (no directory, a directory, refused), sometimes with transient faults besides; what is printed is compared with what the reference expects when exactly these files are unreadable; non-trivial: a file was broken or the output refused",
        assumptions: cli::CLI_ASSUME,
        real: cli::CLI,
        stub: cli::OS_STUB,
    }
}
