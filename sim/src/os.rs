//! Runs the command line program under the simulated operating system of shim/simos.c, one process per run:
//! its files, standard streams, clock, entropy and memory live in a region shared with the simulator.
use crate::core::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

const REGION: usize = 24 << 20;
const PLAN_OFF: usize = 4096;
const LOG_OFF: usize = 8 << 20;

pub const OPEN: u32 = 0;
pub const READ: u32 = 1;
pub const WRITE: u32 = 2;
pub const STDOUT: u32 = 3;
pub const STDERR: u32 = 4;
pub const STAT: u32 = 5;
pub const SEEK: u32 = 6;
pub const CLOCK: u32 = 7;
pub const RANDOM: u32 = 8;
pub const ALLOC: u32 = 9;
pub const ANY: u32 = 11;
pub const CLASSES: [&str; 12] = ["open", "read", "file write", "stdout write", "stderr write", "stat", "seek", "clock", "getrandom", "allocation", "close/sync", "any call"];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    Errno(i32),
    Short(u32),
    KillBefore,
    KillAfter,
    /// the size reported instead of the real one
    Size(u64),
    /// the clock jumps by that many nanoseconds
    Jump(i64),
    /// the call takes that many bytes, then the process is killed
    TornKill(u32),
}
/// What happens at the `nth` call (from 1) of a class.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub class: u32,
    pub nth: u32,
    pub act: Act,
}

#[derive(Clone, Debug, PartialEq)]
pub struct VFile {
    /// 0 file, 1 directory, 2 absent (but its creation may be refused)
    pub kind: u32,
    pub open_errno: i32,
    pub read_errno: i32,
    pub read_fail_at: i64,
    pub cap: i64,
    pub write_errno: i32,
    pub data: Vec<u8>,
}
impl VFile {
    pub fn new(data: Vec<u8>) -> Self {
        VFile { kind: 0, open_errno: 0, read_errno: 0, read_fail_at: -1, cap: -1, write_errno: 0, data }
    }
    pub fn dir() -> Self {
        VFile { kind: 1, ..VFile::new(vec![]) }
    }
    pub fn absent(open_errno: i32) -> Self {
        VFile { kind: 2, open_errno, ..VFile::new(vec![]) }
    }
}

pub type Fs = BTreeMap<String, VFile>;

#[derive(Clone, Debug)]
pub struct Plan {
    pub args: Vec<String>,
    pub fs: Fs,
    pub faults: Vec<Fault>,
    pub entropy: u64,
    pub clock_ns: i64,
    pub stdout_cap: i64,
    pub stdout_errno: i32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: char,
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub data: Vec<u8>,
}

pub struct Outcome {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub events: Vec<Event>,
    /// the files afterwards
    pub fs: Fs,
    pub killed: bool,
    /// planned faults that took effect, by kind
    pub injected: BTreeMap<String, u64>,
    pub simulated_ns: i64,
    /// how many calls and allocations a plan can address
    pub calls: u64,
    pub allocs: u64,
}

struct Region {
    fd: i32,
    mem: *mut u8,
}
thread_local! {
    static REGIONS: std::cell::OnceCell<Region> = const { std::cell::OnceCell::new() };
}

fn region<T>(f: impl FnOnce(&Region) -> T) -> T {
    REGIONS.with(|c| {
        f(c.get_or_init(|| unsafe {
            let fd = libc::memfd_create(c"simos".as_ptr(), 0);
            assert!(fd >= 0);
            assert_eq!(libc::ftruncate(fd, REGION as i64), 0);
            let mem = libc::mmap(std::ptr::null_mut(), REGION, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(mem != libc::MAP_FAILED);
            Region { fd, mem: mem as *mut u8 }
        }))
    })
}

/// In the paths of a case, this character stands for the byte 0xff, which no text contains.
pub const RAW: char = '\u{e0ff}';

fn bytes(p: &str) -> Vec<u8> {
    let mut v = vec![];
    for (i, s) in p.split(RAW).enumerate() {
        if i > 0 {
            v.push(0xff)
        }
        v.extend(s.as_bytes());
    }
    v
}
fn text_of(b: &[u8]) -> String {
    b.split(|&b| b == 0xff).map(String::from_utf8_lossy).collect::<Vec<_>>().join(&RAW.to_string())
}
/// a path as it is shown
pub fn shown(p: &str) -> String {
    p.replace(RAW, "\u{fffd}")
}

/// the simulated working directory is /sim
pub fn normal(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/sim/{p}") };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

fn encode(p: &Plan) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let u = |o: &mut Vec<u8>, x: u32| o.extend(x.to_le_bytes());
    let q = |o: &mut Vec<u8>, x: i64| o.extend(x.to_le_bytes());
    q(&mut o, p.entropy as i64);
    q(&mut o, p.clock_ns);
    q(&mut o, p.stdout_cap);
    q(&mut o, p.stdout_errno as i64);
    u(&mut o, p.fs.len() as u32);
    for (path, f) in &p.fs {
        let path = bytes(path);
        u(&mut o, path.len() as u32);
        o.extend(&path);
        u(&mut o, f.kind);
        u(&mut o, f.open_errno as u32);
        u(&mut o, f.read_errno as u32);
        u(&mut o, f.write_errno as u32);
        q(&mut o, f.read_fail_at);
        q(&mut o, f.cap);
        u(&mut o, f.data.len() as u32);
        o.extend(&f.data);
    }
    u(&mut o, p.faults.len() as u32);
    for f in &p.faults {
        u(&mut o, f.class);
        u(&mut o, f.nth);
        let (a, arg) = match &f.act {
            Act::Errno(e) => (0, *e as i64),
            Act::Short(n) => (1, *n as i64),
            Act::KillBefore => (2, 0),
            Act::KillAfter => (3, 0),
            Act::Size(n) => (4, *n as i64),
            Act::Jump(n) => (5, *n),
            Act::TornKill(n) => (6, *n as i64),
        };
        u(&mut o, a);
        q(&mut o, arg);
    }
    o
}

pub fn run(p: &Plan) -> R<Outcome> {
    let plan = encode(p);
    if plan.len() + PLAN_OFF > LOG_OFF || p.fs.len() > 240 || p.args.iter().any(|a| a.contains('\0')) {
        return invalid("plan too large");
    }
    let base = crate::engine::verif_dir().join("target");
    let exe: PathBuf = base.join("release/dandy-cli-sut");
    let shim: PathBuf = base.join("simos.so");
    let (status, log, overflow, calls, allocs) = region(|r| -> R<_> {
        let fd = unsafe {
            std::ptr::write_bytes(r.mem, 0, 32);
            std::ptr::copy_nonoverlapping(plan.as_ptr(), r.mem.add(PLAN_OFF), plan.len());
            r.fd
        };
        let mut c = Command::new(&exe);
        c.arg0("dandy-cli")
            .args(p.args.iter().map(|a| std::ffi::OsString::from_vec(bytes(a))))
            .env_clear()
            .env("LD_PRELOAD", std::ffi::OsStr::from_bytes(shim.as_os_str().as_bytes()))
            .env("SIMOS_FD", fd.to_string())
            .env("RUST_BACKTRACE", "0")
            .current_dir("/")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        let st = match c.status() {
            Ok(s) => s,
            Err(e) => panic!("cannot start the program under test: {e}"),
        };
        let (log, overflow, calls, allocs) = unsafe {
            let len = std::ptr::read_volatile(r.mem as *const u64) as usize;
            let ov = std::ptr::read_volatile((r.mem as *const u64).add(1));
            (std::slice::from_raw_parts(r.mem.add(LOG_OFF), len.min(REGION - LOG_OFF)).to_vec(), ov, std::ptr::read_volatile((r.mem as *const u64).add(2)), std::ptr::read_volatile((r.mem as *const u64).add(3)))
        };
        Ok((st, log, overflow, calls, allocs))
    })?;
    if status.code() == Some(96) {
        panic!("the simulated operating system could not start");
    }
    let end = match (status.code(), status.signal()) {
        (Some(c), _) => End::Exit(c),
        (_, s) => End::Signal(s.unwrap_or(0)),
    };
    if overflow != 0 || end == End::Signal(libc::SIGXCPU) {
        return viol("no-progress", format!("the program did not end within its bounds (runs on or prints without end): {:?}", p.args));
    }
    let mut events = vec![];
    let mut i = 0;
    let rd = |i: usize| i64::from_le_bytes(log[i..i + 8].try_into().unwrap());
    while i < log.len() {
        let len = u32::from_le_bytes(log[i + 25..i + 29].try_into().unwrap()) as usize;
        events.push(Event { kind: log[i] as char, a: rd(i + 1), b: rd(i + 9), c: rd(i + 17), data: log[i + 29..i + 29 + len].to_vec() });
        i += 29 + len;
    }
    let mut o = Outcome {
        end,
        stdout: vec![],
        stderr: vec![],
        events: vec![],
        fs: p.fs.clone(),
        killed: false,
        injected: BTreeMap::new(),
        simulated_ns: 0,
        calls,
        allocs,
    };
    let mut names: Vec<Option<String>> = p.fs.keys().map(|k| Some(k.clone())).collect();
    let mut t: Vec<i64> = vec![];
    for e in &events {
        let name = |names: &Vec<Option<String>>, i: i64| names.get(i as usize).cloned().flatten();
        let text = || text_of(&e.data);
        match e.kind {
            'S' => o.stdout.extend(&e.data),
            'E' => o.stderr.extend(&e.data),
            'C' => {
                while names.len() <= e.a as usize {
                    names.push(None)
                }
                names[e.a as usize] = Some(text());
                let f = o.fs.entry(text()).or_insert_with(|| VFile::new(vec![]));
                f.kind = 0;
                f.data.clear();
            }
            'T' => {
                if let Some(n) = name(&names, e.a) {
                    o.fs.get_mut(&n).unwrap().data.resize(e.b as usize, 0)
                }
            }
            'W' => {
                if let Some(n) = name(&names, e.a) {
                    let d = &mut o.fs.get_mut(&n).unwrap().data;
                    let end = e.b as usize + e.data.len();
                    if d.len() < end {
                        d.resize(end, 0)
                    }
                    d[e.b as usize..end].copy_from_slice(&e.data);
                }
            }
            'U' => {
                o.fs.remove(&text());
                names[e.a as usize] = None;
            }
            'M' => {
                if let Some(n) = name(&names, e.a) {
                    let f = o.fs.remove(&n).unwrap();
                    if e.b >= 0 {
                        names[e.b as usize] = None;
                    }
                    o.fs.insert(text(), f);
                    names[e.a as usize] = Some(text());
                }
            }
            'K' => o.killed = true,
            'k' => t.push(e.b),
            'A' => *o.injected.entry("fault:allocation fails".into()).or_insert(0) += 1,
            'F' => {
                let what = match e.b {
                    0 => match e.c as i32 {
                        libc::EINTR => "interrupted (EINTR)".to_string(),
                        x => format!("fails (errno {x})"),
                    },
                    1 => "is short".into(),
                    4 => "reports a wrong size".into(),
                    5 => "jumps".into(),
                    _ => "is torn by a kill".into(),
                };
                *o.injected.entry(format!("fault:{} {what}", CLASSES[e.a as usize])).or_insert(0) += 1;
            }
            'o' if p.fs.get(&text()).is_some_and(|f| f.open_errno != 0 && f.open_errno as i64 == e.b) => {
                *o.injected.entry(format!("fault:file cannot be opened (errno {})", e.b)).or_insert(0) += 1;
            }
            'r' if name(&names, e.a).and_then(|n| p.fs.get(&n).map(|f| f.read_errno != 0 && f.read_errno as i64 == e.b)).unwrap_or(false) => {
                *o.injected.entry(format!("fault:file cannot be read (errno {})", e.b)).or_insert(0) += 1;
            }
            'w' if e.a >= 0 && name(&names, e.a).and_then(|n| p.fs.get(&n).map(|f| f.cap >= 0 && e.b != libc::EINTR as i64)).unwrap_or(false) => {
                *o.injected.entry(format!("fault:disk full or failing (errno {})", e.b)).or_insert(0) += 1;
            }
            'w' if e.a == -1 && p.stdout_cap >= 0 && e.b == p.stdout_errno as i64 => {
                *o.injected.entry(format!("fault:reader of standard output gone (errno {})", e.b)).or_insert(0) += 1;
            }
            _ => {}
        }
    }
    if o.killed {
        *o.injected.entry("fault:killed".into()).or_insert(0) += 1;
    }
    if t.len() > 1 {
        o.simulated_ns = t.iter().max().unwrap() - t.iter().min().unwrap();
    }
    o.events = events;
    Ok(o)
}

/// Runs and records: the calls made become the run's event log.
pub fn run_logged(p: &Plan, ctx: &mut Ctx) -> R<Outcome> {
    ctx.ev(format!("$ dandy-cli {}   (entropy {}, faults {:?})", p.args.join(" "), p.entropy, p.faults));
    let o = run(p)?;
    for e in &o.events {
        ctx.ev(format!("{} {} {} {} {}", e.kind, e.a, e.b, e.c, String::from_utf8_lossy(&e.data)));
    }
    ctx.ev(format!("=> {:?}", o.end));
    for (k, n) in &o.injected {
        ctx.add(k, *n);
    }
    ctx.add("simulated_ms", (o.simulated_ns / 1_000_000).max(1) as u64);
    ctx.hit("program runs");
    Ok(o)
}
