//! Runner: deterministic randomness, current case, panic / hang / allocation guards, replay file.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
}

#[derive(Default, Clone)]
pub struct Mined {
    /// integers / strings of the current source that the reviewed source did not have
    pub new_ints: Vec<u64>,
    pub new_strs: Vec<Vec<u8>>,
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

#[derive(Clone, Default)]
struct Case {
    desc: String,
    inputs: Vec<(String, Vec<u8>)>,
}

static CUR: Mutex<Option<Case>> = Mutex::new(None);
static BUSY_SINCE_MS: AtomicU64 = AtomicU64::new(0);
static OUT: Mutex<Option<(String, PathBuf)>> = Mutex::new(None);
static TRACK_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static REPORTING: AtomicBool = AtomicBool::new(false);
thread_local! { static TRACKING: Cell<bool> = const { Cell::new(false) }; }

pub struct Alloc;
fn too_big(size: usize) {
    if size > TRACK_LIMIT.load(Ordering::Relaxed) && TRACKING.try_with(|t| t.get()).unwrap_or(false) && !REPORTING.swap(true, Ordering::SeqCst) {
        TRACKING.with(|t| t.set(false));
        let lim = TRACK_LIMIT.load(Ordering::Relaxed);
        if std::env::var("CONF_BT").is_ok() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        die(&format!("a single allocation of {size} bytes was requested while decoding (limit for this input: {lim})"));
    }
}
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        too_big(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        too_big(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        too_big(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Alloc = Alloc;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Write the replay file for the current case and stop with exit code 1.
pub fn die(msg: &str) -> ! {
    REPORTING.store(true, Ordering::SeqCst);
    let case = CUR.try_lock().ok().and_then(|c| c.clone()).unwrap_or_default();
    let (prop, out) = OUT.try_lock().ok().and_then(|c| c.clone()).unwrap_or_default();
    let mut t = String::new();
    t += &format!("property: {prop}\nviolation: {msg}\ncase: {}\n", case.desc);
    for (n, b) in &case.inputs {
        if b.len() <= 1 << 20 {
            t += &format!("input {n} ({} bytes, hex): {}\n", b.len(), hex(b));
        } else {
            let p = out.with_extension(format!("{n}.bin"));
            let _ = std::fs::write(&p, b);
            t += &format!("input {n} ({} bytes): {}\n", b.len(), p.display());
        }
    }
    t += &format!("reproduce: python3 /verif/check.py {prop} (seed {})\n", std::env::var("VERIF_SEED").unwrap_or_default());
    let _ = std::fs::write(&out, &t);
    println!("FAIL {prop}: {msg} [{}]", case.desc);
    std::process::exit(1)
}

static START: Mutex<Option<Instant>> = Mutex::new(None);
fn now_ms() -> u64 {
    START.lock().map(|s| s.map_or(0, |s| s.elapsed().as_millis() as u64)).unwrap_or(0) + 1
}

pub struct Ctx {
    pub rng: Rng,
    pub mined: Mined,
    pub thorough: bool,
    pub deadline: Instant,
    pub cases: u64,
    pub groups: Vec<(String, u64)>,
    pub scratch: PathBuf,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, secs: u64, out: PathBuf, scratch: PathBuf, mined: Mined) -> Self {
        *OUT.lock().unwrap() = Some((prop.to_string(), out));
        *START.lock().unwrap() = Some(Instant::now());
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BUSY_SINCE_MS.load(Ordering::Relaxed);
            if b != 0 && now_ms() > b + 60_000 {
                die("the call does not come back within 60 s");
            }
        });
        if std::env::var("CONF_BT").is_err() {
            std::panic::set_hook(Box::new(|i| {
                LAST_PANIC.lock().map(|mut l| *l = i.to_string()).ok();
            }));
        }
        Self {
            rng: Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))),
            mined,
            thorough,
            deadline: Instant::now() + Duration::from_secs(secs),
            cases: 0,
            groups: vec![],
            scratch,
        }
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    pub fn group(&mut self, name: &str) {
        self.groups.push((name.to_string(), self.cases));
        if std::env::var("CONF_V").is_ok() {
            eprintln!("[{:?}] {name} (after {} cases)", START.lock().unwrap().unwrap().elapsed(), self.cases);
        }
    }
    /// number of random rounds: quick / thorough
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough { quick * 8 } else { quick }
    }
    pub fn case(&mut self, desc: impl Into<String>, inputs: &[(&str, &[u8])]) {
        self.cases += 1;
        *CUR.lock().unwrap() = Some(Case {
            desc: desc.into(),
            inputs: inputs.iter().map(|(n, b)| (n.to_string(), b.to_vec())).collect(),
        });
    }
    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            die(&msg());
        }
    }
    /// Call the code under test: a panic or a hang is a violation.
    pub fn run<T>(&self, what: &str, f: impl FnOnce() -> T) -> T {
        BUSY_SINCE_MS.store(now_ms(), Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        BUSY_SINCE_MS.store(0, Ordering::Relaxed);
        match r {
            Ok(v) => v,
            Err(_) => die(&format!("{what} panics: {}", LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default())),
        }
    }
    /// As `run`, with a bound on any single allocation.
    pub fn run_limited<T>(&self, what: &str, limit: usize, f: impl FnOnce() -> T) -> T {
        TRACK_LIMIT.store(limit, Ordering::Relaxed);
        TRACKING.with(|t| t.set(true));
        let r = self.run(what, f);
        TRACKING.with(|t| t.set(false));
        r
    }
}
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
