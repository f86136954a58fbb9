//! Runs seeded cases over worker processes, minimises and replays failures, and writes the evidence.
use crate::core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// makes case number `i`
    pub gen: fn(&mut Rng, bool) -> Value,
    pub run: fn(&Value, &mut Ctx) -> R,
    /// cases in the quick and in the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("DANDY_VERIF").unwrap_or_else(|| "/verif".into()))
}

pub fn case_of(p: &Prop, seed: u64, i: u64, thorough: bool) -> Value {
    let mut r = Rng::new(mix(mix(seed, hash_str(p.id)), i));
    let mut case = (p.gen)(&mut r, thorough);
    if SIBLINGS.contains(&p.id) && r.chance(1, 3) && small(&case) && case.to_string().len() < 20_000 {
        let before = sibling(&case, &mut r);
        if let Some(o) = case.as_object_mut() {
            o.insert(BEFORE.into(), before);
        }
    }
    case
}

/// The properties of library code that runs in simulated threads: before a third of their runs, another run much like
/// it takes place in the same threads, so that nothing the library may keep between two calls goes unnoticed.
const SIBLINGS: &[&str] =
    &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C20", "C21", "C23"];
const BEFORE: &str = "__before";

fn small(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.len() <= 40 && a.iter().all(small),
        Value::Object(o) => o.iter().all(|(k, v)| v.as_array().is_none_or(|a| k != "st" || a.len() <= 10) && small(v)),
        _ => true,
    }
}

/// The case with a flag, a small number, a string or the order of two things changed, at one or two places.
fn sibling(case: &Value, r: &mut Rng) -> Value {
    let mut v = case.clone();
    if r.chance(1, 4) {
        return v;
    }
    let mut ps = vec![];
    paths(&v, &mut vec![], &mut ps);
    let texts: Vec<String> = ps.iter().filter_map(|p| at(&v, p)?.as_str().map(Into::into)).collect();
    for _ in 0..r.range(1, 2) {
        for _ in 0..50 {
            let q = r.pick(&ps).clone();
            let Some(x) = at_mut(&mut v, &q) else { continue };
            match x {
                Value::Bool(b) => *x = json!(!*b),
                Value::Number(n) => match n.as_u64() {
                    Some(n) if n < 1000 => *x = json!(r.below(n.max(3) as usize + 1)),
                    _ => continue,
                },
                Value::String(_) => *x = json!(r.pick(&texts)),
                Value::Array(a) if a.len() > 1 => {
                    let (i, j) = (r.below(a.len()), r.below(a.len()));
                    a.swap(i, j);
                }
                _ => continue,
            }
            break;
        }
    }
    v
}

/// Runs one case in this process; a panic outside the simulated threads counts too.
pub fn run_case(p: &Prop, case: &Value, ctx: &mut Ctx) -> R {
    let Some(before) = case.get(BEFORE).filter(|b| b.is_object()) else { return run_one(p, case, ctx) };
    let mut first = Ctx::new(ctx.trace.is_some());
    let mut alone = case.clone();
    alone.as_object_mut().unwrap().remove(BEFORE);
    let r = in_same_threads(
        || {
            // (what it found is not the point: it may not even be a case that the generator would make)
            let r = run_one(p, before, &mut first);
            first.ev(format!("the run before: {}", stop_json(&r)));
        },
        || run_one(p, &alone, ctx),
    );
    ctx.hit("fault:a-similar-run-before-in-the-same-threads");
    ctx.h1 = mix(first.h1, ctx.h1);
    ctx.events += first.events;
    if let (Some(t), Some(s)) = (&mut ctx.trace, first.trace) {
        t.splice(0..0, s);
    }
    r
}

fn run_one(p: &Prop, case: &Value, ctx: &mut Ctx) -> R {
    match guarded(|| (p.run)(case, &mut *ctx)) {
        Ok(r) => r,
        Err(m) => viol("panic", format!("panicked: {m}")),
    }
}

// ---- limits

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static STATUS_FD: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_now() -> f64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

/// Processor time of this process and of the programs it ran that have ended.
fn cpu_all() -> f64 {
    let mut u: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_CHILDREN, &mut u) };
    let s = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 * 1e-6;
    cpu_now() + s(u.ru_utime) + s(u.ru_stime)
}

/// Ends the process with 97 when one case uses more than `cpu` seconds of processor time, or (for a
/// case that waits rather than computes) `wall` seconds of real time.
fn watchdog(cpu: f64, wall: f64) {
    std::thread::spawn(move || {
        let mut last = CURRENT.load(Ordering::Relaxed);
        let mut c0 = cpu_now();
        let mut w0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let cur = CURRENT.load(Ordering::Relaxed);
            if cur != last {
                last = cur;
                c0 = cpu_now();
                w0 = Instant::now();
            } else if cur != u64::MAX && (cpu_now() - c0 > cpu || w0.elapsed().as_secs_f64() > wall) {
                unsafe { libc::_exit(97) }
            }
        }
    });
}

fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &z) };
}

fn begin(i: u64) {
    CURRENT.store(i, Ordering::Relaxed);
    let fd = STATUS_FD.load(Ordering::Relaxed);
    if fd != u64::MAX {
        unsafe { libc::pwrite(fd as i32, &i as *const u64 as *const _, 8, 0) };
    }
}

const CASE_CPU: f64 = 60.0;
const CASE_WALL: f64 = 240.0;

fn stop_json(r: &R) -> Value {
    match r {
        Ok(()) => json!({"ok": true}),
        Err(Stop::Invalid(m)) => json!({"invalid": m}),
        Err(Stop::Viol(v)) => json!({"class": v.class, "message": v.msg}),
    }
}

// ---- worker

pub fn worker(p: &Prop, a: &[String]) -> i32 {
    let [seed, start, stride, end, wall, thorough, dir] = a else { return 2 };
    let n = |s: &String| s.parse::<u64>().unwrap();
    let (seed, start, stride, end, wall) = (n(seed), n(start), n(stride), n(end), n(wall));
    let thorough = thorough == "1";
    let dir = PathBuf::from(dir);
    limit_memory();
    use std::os::fd::IntoRawFd;
    let f = std::fs::File::create(dir.join(format!("status.{start}"))).unwrap();
    STATUS_FD.store(f.into_raw_fd() as u64, Ordering::Relaxed);
    watchdog(CASE_CPU, CASE_WALL);
    let t0 = Instant::now();
    let mut done = 0u64;
    let mut invalid = 0u64;
    let mut nontrivial = BTreeSet::new();
    let mut logs: Vec<u64> = vec![];
    let mut events = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sampled: Vec<(u64, u64)> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut violation = Value::Null;
    let mut slowest = (0.0, 0);
    let mut i = start;
    while i < end {
        if done % 16 == 0 && t0.elapsed().as_secs() >= wall {
            break;
        }
        begin(i);
        let case = case_of(p, seed, i, thorough);
        let mut ctx = Ctx::new(false);
        let c0 = cpu_all();
        let r = run_case(p, &case, &mut ctx);
        let used = cpu_all() - c0;
        if used > slowest.0 {
            slowest = (used, i);
        }
        done += 1;
        for (k, v) in &ctx.counters {
            if let Some(c) = counters.get_mut(k) {
                *c += v
            } else {
                counters.insert(k.clone(), *v);
            }
        }
        events += ctx.events;
        match r {
            Err(Stop::Viol(v)) => {
                violation = json!({"index": i, "class": v.class, "message": v.msg});
                break;
            }
            Err(Stop::Invalid(_)) => invalid += 1,
            Ok(()) => {
                if ctx.nontrivial {
                    nontrivial.insert(hash_str(&case.to_string()));
                    if samples.len() < 2 && start < 2 && case.to_string().len() < 3000 {
                        samples.push(json!({"index": i, "case": case}));
                    }
                }
                logs.push(ctx.h1);
                if i % 61 == 0 && sampled.len() < 40 {
                    sampled.push((i, ctx.h1));
                }
            }
        }
        i += stride;
    }
    CURRENT.store(u64::MAX, Ordering::Relaxed);
    logs.sort();
    logs.dedup();
    let bin = |v: &mut dyn Iterator<Item = u64>| v.flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    std::fs::write(dir.join(format!("logs.{start}")), bin(&mut logs.into_iter())).unwrap();
    std::fs::write(dir.join(format!("cases.{start}")), bin(&mut nontrivial.into_iter())).unwrap();
    println!(
        "{}",
        json!({"done": done, "invalid": invalid, "events": events, "counters": counters, "sampled": sampled,
               "samples": samples, "violation": violation, "slowest": [(slowest.0 * 1000.0) as u64, slowest.1]})
    );
    0
}

/// `exec PROP CASEFILE [trace]`: runs one case, prints the outcome.
pub fn exec(p: &Prop, file: &str, trace: bool) -> i32 {
    limit_memory();
    watchdog(CASE_CPU, CASE_WALL);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let case = if v.get("case").is_some() && v.get("property").is_some() { v["case"].clone() } else { v.clone() };
    // (a failure that needs what earlier runs left behind in the process)
    let earlier = v["earlier_runs"].as_array().cloned().unwrap_or_default();
    for (i, c) in earlier.iter().enumerate() {
        begin(i as u64 + 1);
        let mut ctx = Ctx::new(false);
        let _ = run_case(p, c, &mut ctx);
    }
    begin(0);
    let mut ctx = Ctx::new(trace);
    let r = run_case(p, &case, &mut ctx);
    let mut o = stop_json(&r);
    o["event_hash"] = json!(format!("{:016x}", ctx.h1));
    o["events"] = json!(ctx.events);
    if let Some(t) = ctx.trace {
        o["trace"] = json!(t);
    }
    println!("{o}");
    0
}

/// `hashes PROP SEED THOROUGH i…`: event-log hashes of the given cases, for the determinism self-test.
pub fn hashes(p: &Prop, a: &[String]) -> i32 {
    limit_memory();
    watchdog(CASE_CPU, CASE_WALL);
    let seed: u64 = a[0].parse().unwrap();
    let mut out = vec![];
    for s in a[2..].iter().rev() {
        let i: u64 = s.parse().unwrap();
        begin(i);
        let case = case_of(p, seed, i, a[1] == "1");
        let mut ctx = Ctx::new(false);
        let _ = run_case(p, &case, &mut ctx);
        out.push((i, ctx.h1));
    }
    println!("{}", json!(out));
    0
}

fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.stdin(Stdio::null());
    c
}

fn exec_child(p: &Prop, file: &Path, trace: bool) -> Value {
    let out = me().arg("exec").arg(p.id).arg(file).arg(if trace { "trace" } else { "-" }).stderr(Stdio::null()).output().unwrap();
    use std::os::unix::process::ExitStatusExt;
    if out.status.code() == Some(0) {
        if let Ok(v) = serde_json::from_slice::<Value>(&out.stdout) {
            return v;
        }
    }
    death(out.status.code(), out.status.signal())
}

fn death(code: Option<i32>, sig: Option<i32>) -> Value {
    if code == Some(97) {
        json!({"class": "no-progress", "message": format!("the run did not finish within {CASE_CPU} s of processor time")})
    } else {
        json!({"class": "abort", "message": format!("the process died (signal {sig:?}, code {code:?}): stack overflow, memory exhaustion or abort")})
    }
}

// ---- shrinking

/// set for a shrinker that runs every candidate in a process of its own
const EACH_ALONE: &str = "DANDY_SIM_EACH_ALONE";

pub fn shrink(p: &Prop, a: &[String]) -> i32 {
    let [file, class, secs, out] = a else { return 2 };
    limit_memory();
    let t0 = Instant::now();
    let budget = secs.parse::<f64>().unwrap();
    let by_child = class == "abort" || class == "no-progress" || std::env::var_os(EACH_ALONE).is_some();
    if !by_child {
        watchdog(CASE_CPU, CASE_WALL);
    }
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let tmp = PathBuf::from(format!("{out}.try"));
    let mut tries = 0u64;
    let mut fails = |c: &Value| -> bool {
        tries += 1;
        if by_child {
            std::fs::write(&tmp, c.to_string()).unwrap();
            return exec_child(p, &tmp, false)["class"] == json!(class);
        }
        begin(tries);
        let mut ctx = Ctx::new(false);
        matches!(run_case(p, c, &mut ctx), Err(Stop::Viol(v)) if v.class == *class)
    };
    let mut cur = v;
    let save = |c: &Value| {
        let t = format!("{out}.new");
        std::fs::write(&t, c.to_string()).unwrap();
        std::fs::rename(&t, out).unwrap();
    };
    save(&cur);
    let mut improved = true;
    while improved && t0.elapsed().as_secs_f64() < budget {
        improved = false;
        let mut ps = vec![];
        paths(&cur, &mut vec![], &mut ps);
        'outer: for path in ps {
            // the tree may have changed below this path
            loop {
                if t0.elapsed().as_secs_f64() > budget {
                    break 'outer;
                }
                let Some(node) = at(&cur, &path) else { break };
                let mut any = false;
                for cand in reductions(node) {
                    if t0.elapsed().as_secs_f64() > budget {
                        break 'outer;
                    }
                    let mut c = cur.clone();
                    *at_mut(&mut c, &path).unwrap() = cand;
                    if c != cur && fails(&c) {
                        cur = c;
                        save(&cur);
                        any = true;
                        improved = true;
                        break;
                    }
                }
                if !any {
                    break;
                }
            }
        }
    }
    0
}

#[derive(Clone, Debug)]
enum Step {
    K(String),
    I(usize),
}

fn paths(v: &Value, cur: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().rev() {
                cur.push(Step::I(i));
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(Step::K(k.clone()));
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a Value, p: &[Step]) -> Option<&'a Value> {
    p.iter().try_fold(v, |v, s| match s {
        Step::K(k) => v.get(k),
        Step::I(i) => v.get(i),
    })
}
fn at_mut<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    p.iter().try_fold(v, |v, s| match s {
        Step::K(k) => v.get_mut(k),
        Step::I(i) => v.get_mut(i),
    })
}

fn reductions(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut size = n;
            while size > 0 {
                let mut i = 0;
                while i < n {
                    let mut b = a[..i].to_vec();
                    b.extend_from_slice(&a[(i + size).min(n)..]);
                    out.push(Value::Array(b));
                    i += size;
                }
                size /= 2;
            }
        }
        Value::Number(x) => {
            if let Some(u) = x.as_u64() {
                for c in [0, 1, u / 2, u.saturating_sub(1)] {
                    if c < u {
                        out.push(json!(c));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::String(s) if !s.is_empty() => {
            let c: Vec<char> = s.chars().collect();
            let n = c.len();
            let mut size = n;
            while size > 0 {
                let mut i = 0;
                while i < n {
                    let t: String = c[..i].iter().chain(&c[(i + size).min(n)..]).collect();
                    out.push(json!(t));
                    i += size;
                }
                size /= 2;
            }
        }
        Value::Object(o) if o.len() == 1 => {
            // an enum value: try any value below it in its place
            let inner = o.values().next().unwrap();
            let mut ps = vec![];
            paths(inner, &mut vec![], &mut ps);
            for p in ps.into_iter().take(12) {
                let x = at(inner, &p).unwrap();
                if x.is_object() || x.is_string() {
                    out.push(x.clone());
                }
            }
        }
        _ => {}
    }
    if !v.is_null() && !v.is_array() && !v.is_boolean() {
        out.push(Value::Null);
    }
    out
}

// ---- check

struct Work {
    start: u64,
    child: Child,
    out: Option<std::thread::JoinHandle<Vec<u8>>>,
}

pub fn check(p: &Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let total = env("DANDY_SIM_RUNS").unwrap_or(if thorough { p.thorough } else { p.quick });
    let wall = env("DANDY_SIM_SECONDS").unwrap_or(if thorough { 600 } else { 45 });
    let n = env("DANDY_SIM_WORKERS").unwrap_or(8).min(total.max(1));
    let dir = verif_dir().join("target").join(format!("run-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut works: Vec<Work> = (0..n)
        .map(|w| {
            let mut child = me()
                .arg("worker")
                .arg(p.id)
                .args([seed, w, n, total, wall].map(|x| x.to_string()))
                .arg(if thorough { "1" } else { "0" })
                .arg(&dir)
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            let mut so = child.stdout.take().unwrap();
            let out = std::thread::spawn(move || {
                let mut v = vec![];
                let _ = std::io::Read::read_to_end(&mut so, &mut v);
                v
            });
            Work { start: w, child, out: Some(out) }
        })
        .collect();
    let mut found: Vec<(u64, String, String)> = vec![];
    let mut done = 0u64;
    let mut invalid = 0u64;
    let mut events = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sampled: Vec<(u64, u64)> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut broken = None;
    let mut slowest = (0u64, 0u64);
    while !works.is_empty() {
        std::thread::sleep(Duration::from_millis(5));
        let mut i = 0;
        while i < works.len() {
            let Some(st) = works[i].child.try_wait().unwrap() else {
                i += 1;
                continue;
            };
            let mut w = works.remove(i);
            let text = w.out.take().unwrap().join().unwrap();
            match serde_json::from_slice::<Value>(&text) {
                Ok(v) if st.success() => {
                    done += v["done"].as_u64().unwrap();
                    invalid += v["invalid"].as_u64().unwrap();
                    events += v["events"].as_u64().unwrap();
                    for (k, c) in v["counters"].as_object().unwrap() {
                        *counters.entry(k.clone()).or_default() += c.as_u64().unwrap();
                    }
                    sampled.extend(serde_json::from_value::<Vec<(u64, u64)>>(v["sampled"].clone()).unwrap());
                    slowest = slowest.max(serde_json::from_value(v["slowest"].clone()).unwrap());
                    samples.extend(v["samples"].as_array().unwrap().iter().cloned());
                    if let Some(i) = v["violation"]["index"].as_u64() {
                        let s = |k: &str| v["violation"][k].as_str().unwrap().to_string();
                        found.push((i, s("class"), s("message")));
                    }
                }
                _ => {
                    use std::os::unix::process::ExitStatusExt;
                    let idx = std::fs::read(dir.join(format!("status.{}", w.start)))
                        .ok()
                        .and_then(|b| b.try_into().ok())
                        .map(u64::from_le_bytes);
                    match idx {
                        Some(i) => {
                            let d = death(st.code(), st.signal());
                            found.push((i, d["class"].as_str().unwrap().into(), d["message"].as_str().unwrap().into()));
                        }
                        None => broken = Some(format!("worker {} failed: {st}", w.start)),
                    }
                }
            }
            if !found.is_empty() {
                for w in &mut works {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                }
                works.clear();
            }
        }
    }
    if let Some(b) = broken {
        eprintln!("check failed: {b}");
        return 2;
    }
    // a death is believed only if the case dies again in a process of its own
    found.sort();
    let mut verdict = None;
    let mut earlier = vec![];
    for (i, class, msg) in found {
        let case = case_of(p, seed, i, thorough);
        let f = dir.join("found.json");
        std::fs::write(&f, case.to_string()).unwrap();
        let again = exec_child(p, &f, false);
        match again["class"].as_str() {
            Some(c) => {
                verdict = Some((i, c.to_string(), case));
                break;
            }
            None => {
                eprintln!("case {i} of {} failed once ({class}: {msg}) but not when run again alone", p.id);
                // it may depend on what the runs before it left behind in the process
                if let Some(h) = history(p, seed, i, n as u64, thorough, &dir) {
                    eprintln!("case {i} of {} fails after {} earlier runs in the same process", p.id, h.len());
                    earlier = h;
                    verdict = Some((i, class, case));
                    break;
                }
                // the failure depends on something the harness does not control: report the run as it was
                if class != "no-progress" && class != "abort" {
                    verdict = Some((i, class, case));
                    break;
                }
            }
        }
    }
    let mut violations = 0;
    if let Some((i, class, case)) = &verdict {
        violations = 1;
        let rp = report(p, seed, *i, class, case, &earlier, &dir, tier);
        println!("VIOLATION property={} replay={}", p.id, rp.display());
    }
    // determinism self-test
    sampled.sort();
    let mut st_total = 0;
    let mut st_same = 0;
    if verdict.is_none() {
        let want: BTreeMap<u64, u64> = sampled.iter().take(40).copied().collect();
        let out = me()
            .arg("hashes")
            .arg(p.id)
            .arg(seed.to_string())
            .arg(if thorough { "1" } else { "0" })
            .args(want.keys().map(|x| x.to_string()))
            .stderr(Stdio::null())
            .output()
            .unwrap();
        if let Ok(v) = serde_json::from_slice::<Vec<(u64, u64)>>(&out.stdout) {
            for (i, h) in v {
                st_total += 1;
                if want[&i] == h {
                    st_same += 1
                } else {
                    eprintln!("note: case {i} of {} gave another event log when run again", p.id);
                }
            }
        }
    }
    let merge = |prefix: &str| -> u64 {
        let mut v: Vec<u64> = vec![];
        for w in 0..n {
            if let Ok(b) = std::fs::read(dir.join(format!("{prefix}.{w}"))) {
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
        v.sort();
        v.dedup();
        v.len() as u64
    };
    let distinct = merge("cases");
    let logs = merge("logs");
    let wall_s = t0.elapsed().as_secs_f64();
    let split = |pre: &str| -> BTreeMap<String, u64> {
        counters.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|k| (k.to_string(), *v))).collect()
    };
    let faults = split("fault:");
    let ops = split("op:");
    let other: BTreeMap<&String, &u64> =
        counters.iter().filter(|(k, _)| !k.starts_with("fault:") && !k.starts_with("op:")).collect();
    samples.truncate(4);
    if samples.is_empty() {
        samples.push(json!({"index": 0, "case": case_of(p, seed, 0, thorough)}));
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "planned_runs": total,
            "discarded_invalid": invalid,
            "slowest_run": {"cpu_ms": slowest.0, "index": slowest.1},
            "seeds": format!("case i = generator(mix(seed {seed}, property, i)), i < {total}"),
            "runs_per_hour": (done as f64 / wall_s * 3600.0) as u64,
            "simulated_steps": events,
            "simulated_ms": counters.get("simulated_ms").copied().unwrap_or(0),
            "distinct_event_logs": logs,
            "distinctness_measure": "64-bit hash of the complete event log of a run (every scheduling decision, operation, injected fault and observed result)",
            "faults_injected": faults,
            "operations": ops,
            "counters": other,
            "determinism_self_test": {"reruns_in_another_process": st_total, "same_event_log": st_same},
            "real_code": p.real,
            "stubbed": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall_s,
        "violations": violations,
    });
    let edir = verif_dir().join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    let tmp = edir.join(format!(".{}.{}", p.id, std::process::id()));
    std::fs::write(&tmp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    std::fs::rename(&tmp, edir.join(format!("{}.json", p.id))).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    if verdict.is_some() {
        return 1;
    }
    println!("{}: held on {done} simulated runs ({distinct} distinct non-trivial, {logs} distinct event logs, {events} steps, {} faults) in {wall_s:.1} s; slowest {} ms (run {})", p.id, faults.values().sum::<u64>(), slowest.0, slowest.1);
    if done < total {
        println!("{}: stopped by the time cap before the planned {total} runs", p.id);
    }
    0
}

/// A short list of the cases that the same worker ran before case `i` after which this one fails in a fresh process.
fn history(p: &Prop, seed: u64, i: u64, stride: u64, thorough: bool, dir: &Path) -> Option<Vec<Value>> {
    let f = dir.join("found.json");
    let t0 = Instant::now();
    let last = case_of(p, seed, i, thorough);
    let fails = |before: &[u64]| {
        let h: Vec<Value> = before.iter().map(|&j| case_of(p, seed, j, thorough)).collect();
        std::fs::write(&f, json!({"property": p.id, "case": last, "earlier_runs": h}).to_string()).unwrap();
        exec_child(p, &f, false)["class"].is_string()
    };
    let all: Vec<u64> = (0..i).filter(|j| j % stride == i % stride).collect();
    if all.is_empty() || !fails(&all) {
        return None;
    }
    let mut keep = all.clone();
    let mut k = 1;
    while k < all.len() && t0.elapsed().as_secs() < 60 {
        if fails(&all[all.len() - k..]) {
            keep = all[all.len() - k..].to_vec();
            break;
        }
        k *= 2;
    }
    let mut part = keep.len() / 2;
    while part > 0 && t0.elapsed().as_secs() < 120 {
        let mut at = 0;
        while at < keep.len() && t0.elapsed().as_secs() < 120 {
            let mut less = keep.clone();
            less.drain(at..(at + part).min(keep.len()));
            if fails(&less) {
                keep = less;
            } else {
                at += part;
            }
        }
        part /= 2;
    }
    Some(keep.into_iter().map(|j| case_of(p, seed, j, thorough)).collect())
}

fn report(p: &Prop, seed: u64, i: u64, class: &str, case: &Value, earlier: &[Value], dir: &Path, tier: &str) -> PathBuf {
    let small = dir.join("small.json");
    let f = dir.join("found.json");
    if !earlier.is_empty() {
        let all = json!({"property": p.id, "case": case, "earlier_runs": earlier});
        std::fs::write(&f, all.to_string()).unwrap();
        let o = exec_child(p, &f, true);
        return write_replay(p, seed, i, class, case, case, earlier, &o, tier);
    }
    std::fs::write(&f, case.to_string()).unwrap();
    std::fs::write(&small, case.to_string()).unwrap();
    let secs = if tier == "thorough" { "60" } else { "15" };
    let mut min = case.clone();
    let mut o = Value::Null;
    for alone in [false, true] {
        let mut ch = me();
        if alone {
            ch.env(EACH_ALONE, "1");
        }
        let mut ch = ch
            .arg("shrink")
            .arg(p.id)
            .arg(&f)
            .arg(class)
            .arg(secs)
            .arg(&small)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let t0 = Instant::now();
        while ch.try_wait().unwrap().is_none() {
            if t0.elapsed().as_secs() > 150 {
                let _ = ch.kill();
                let _ = ch.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        min = serde_json::from_str(&std::fs::read_to_string(&small).unwrap()).unwrap();
        o = exec_child(p, &small, true);
        // (what fails in the process of the shrinker may need the candidates tried before it there)
        if o["class"] == json!(class) {
            break;
        }
        min = case.clone();
        o = exec_child(p, &f, true);
    }
    write_replay(p, seed, i, class, case, &min, &[], &o, tier)
}

#[allow(clippy::too_many_arguments)]
fn write_replay(p: &Prop, seed: u64, i: u64, class: &str, case: &Value, min: &Value, earlier: &[Value], o: &Value, tier: &str) -> PathBuf {
    let rdir = verif_dir().join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    let path = rdir.join(format!("{}-{}-{}.json", p.id, seed, i));
    let mut v = json!({
        "property": p.id, "seed": seed, "index": i, "tier": tier,
        "class": o["class"].as_str().unwrap_or(class), "message": o["message"],
        "event_hash": o["event_hash"], "case": min,
        "original_size": case.to_string().len(), "minimised_size": min.to_string().len(),
        "trace": o["trace"],
        "how_to_replay": format!("bash /verif/replay.sh {}", path.display()),
    });
    if !earlier.is_empty() {
        v["earlier_runs"] = json!(earlier);
    }
    let mut fh = std::fs::File::create(&path).unwrap();
    fh.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes()).unwrap();
    println!("{}: {} ({class}) in run {i}: {}", p.id, "violated", o["message"].as_str().unwrap_or("").chars().take(600).collect::<String>().replace('\n', "\\n"));
    path
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let Some(p) = props.iter().find(|p| p.id == id) else { return 2 };
    let o = exec_child(p, Path::new(file), true);
    if let Some(t) = o["trace"].as_array() {
        for l in t {
            println!("  {}", l.as_str().unwrap_or("").replace('\n', "\\n"));
        }
    }
    if o["class"].is_string() {
        println!("class: {}  message: {}", o["class"].as_str().unwrap(), o["message"].as_str().unwrap_or(""));
        println!("event log {} the recorded one", if o["event_hash"] == v["event_hash"] { "is identical to" } else { "differs from" });
        println!("VIOLATION property={id} replay={file}");
        1
    } else {
        println!("{id}: the recorded case does not violate the property on this tree");
        0
    }
}
