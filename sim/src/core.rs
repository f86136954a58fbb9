//! Seeded randomness, the entropy seam, simulated threads and the event log.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// xoshiro256** seeded by splitmix64: the only source of randomness in the simulator.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b + 1 - a)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// a seed small enough to survive JSON and easy to read
    pub fn seed(&mut self) -> u64 {
        self.next() >> 16
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut s)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

// ---- entropy seam: std's RandomState keys come from getrandom, which std declares weak so that it can be
// interposed; in this process it is this deterministic stream, one per simulated thread.
thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x5EED) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub static ENTROPY_DRAWS: AtomicU64 = AtomicU64::new(0);

#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    ENTROPY_DRAWS.fetch_add(1, Ordering::Relaxed);
    let mut st = ENTROPY.try_with(|e| e.get()).unwrap_or(0x5EED);
    for i in 0..len {
        let b = (splitmix(&mut st) >> 24) as u8;
        unsafe { *buf.add(i) = b }
    }
    let _ = ENTROPY.try_with(|e| e.set(st));
    len as isize
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("DANDY_SIM_SHOW_PANICS").is_some() {
            eprintln!("panic: {msg}{loc}");
        }
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

pub fn set_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed));
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

// ---- threads that serve two runs, one after the other

type Job = Box<dyn FnOnce() + Send + 'static>;
struct Served {
    jobs: Option<std::sync::mpsc::Sender<Job>>,
    done: std::sync::mpsc::Receiver<()>,
    thread: Option<std::thread::JoinHandle<()>>,
}
impl Drop for Served {
    fn drop(&mut self) {
        self.jobs = None;
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}
#[derive(Default)]
struct Pool {
    threads: Vec<Served>,
    next: usize,
}
thread_local! {
    static POOL: RefCell<Option<Pool>> = const { RefCell::new(None) };
}
const STACK: usize = 2 << 20;

/// Runs `first` and then `second`; the k-th simulated thread of the one is the k-th of the other, so whatever the
/// code keeps per thread during the first run is there in the second.
pub fn in_same_threads<T>(first: impl FnOnce(), second: impl FnOnce() -> T) -> T {
    POOL.with(|p| *p.borrow_mut() = Some(Pool::default()));
    first();
    POOL.with(|p| {
        if let Some(p) = p.borrow_mut().as_mut() {
            p.next = 0
        }
    });
    let r = second();
    let pool = POOL.with(|p| p.borrow_mut().take());
    drop(pool);
    r
}

/// Runs `job` in the next thread of the pool; false when there is no pool here.
fn in_pool(job: Box<dyn FnOnce() + Send + '_>) -> Result<(), Box<dyn FnOnce() + Send + '_>> {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        let Some(p) = p.as_mut() else { return Err(job) };
        if p.next == p.threads.len() {
            let (jobs, todo) = std::sync::mpsc::channel::<Job>();
            let (tell, done) = std::sync::mpsc::channel();
            let thread = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    for j in todo {
                        j();
                        let _ = tell.send(());
                    }
                })
                .expect("spawning a simulated thread");
            p.threads.push(Served { jobs: Some(jobs), done, thread: Some(thread) });
        }
        let t = &p.threads[p.next];
        p.next += 1;
        // SAFETY: this function returns only after the job has run and was dropped (or its thread is gone)
        let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Job>(job) };
        t.jobs.as_ref().unwrap().send(job).expect("a simulated thread ended");
        let _ = t.done.recv();
        Ok(())
    })
}

/// Runs `f` in a fresh simulated thread whose hash-map keys derive from `entropy` alone.
/// A panic becomes Err(message).
pub fn sim_thread<T: Send>(entropy: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let mut res = Err("the simulated thread ended early".to_string());
    let out = &mut res;
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
        set_entropy(entropy);
        *out = guarded(f);
    });
    if let Err(job) = in_pool(job) {
        std::thread::scope(|s| {
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, job)
                .expect("spawning a simulated thread");
            let _ = h.join();
        });
    }
    res
}

// ---- outcomes

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
#[derive(Debug, Clone)]
pub enum Stop {
    Viol(Viol),
    Invalid(String),
}
pub type R<T = ()> = Result<T, Stop>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Stop::Viol(Viol { class: class.into(), msg: msg.into() }))
}
pub fn invalid<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Invalid(msg.into()))
}
pub fn ensure(cond: bool, class: &str, msg: impl FnOnce() -> String) -> R {
    if cond {
        Ok(())
    } else {
        viol(class, msg())
    }
}

/// What one run records: its events (hashed; kept only when tracing) and its counters.
#[derive(Default)]
pub struct Ctx {
    pub trace: Option<Vec<String>>,
    pub h1: u64,
    pub events: u64,
    pub counters: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new(trace: bool) -> Self {
        Ctx { trace: trace.then(Vec::new), h1: 0xcbf29ce484222325, ..Default::default() }
    }
    pub fn ev(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        for b in s.bytes() {
            self.h1 = (self.h1 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.h1 = (self.h1 ^ 0x1f).wrapping_mul(0x100000001b3).rotate_left(5);
        self.events += 1;
        if let Some(t) = &mut self.trace {
            t.push(s.to_string());
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    /// Runs `f` in a simulated thread with its own recorder and merges what it recorded; a panic is a violation.
    pub fn thread<T: Send>(&mut self, entropy: u64, f: impl FnOnce(&mut Ctx) -> R<T> + Send) -> R<T> {
        let trace = self.trace.is_some();
        let mut sub = Ctx::new(trace);
        let subp = &mut sub;
        let res = sim_thread(entropy, move || f(subp));
        self.h1 = mix(self.h1, sub.h1);
        self.events += sub.events;
        self.nontrivial |= sub.nontrivial;
        for (k, v) in sub.counters {
            self.add(&k, v);
        }
        if let (Some(t), Some(s)) = (&mut self.trace, sub.trace) {
            t.push(format!("-- simulated thread, entropy seed {entropy}"));
            t.extend(s);
        }
        self.hit("simulated_threads");
        match res {
            Ok(r) => r,
            Err(p) => viol("panic", format!("panicked: {p} (entropy seed {entropy})")),
        }
    }
}
