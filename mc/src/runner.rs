//! Exploration engine: runs a check on every point of an enumerated space, on all cores, with
//! panic capture, a crash journal, a watchdog and exact counters.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation accounting
pub struct CountingAlloc;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
#[inline]
fn account(d: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        account(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        // while reallocating, both blocks may be live
        account(n as isize);
        if n.max(l.size()) <= 1 << 16 {
            // (small blocks stay in the per-thread cache this way)
            let nl = std::alloc::Layout::from_size_align_unchecked(n, l.align());
            let r = std::alloc::System.alloc(nl);
            if !r.is_null() {
                std::ptr::copy_nonoverlapping(p, r, n.min(l.size()));
                std::alloc::System.dealloc(p, l);
            }
            account(-(l.size() as isize));
            return r;
        }
        let r = std::alloc::System.realloc(p, l, n);
        account(-(l.size() as isize));
        r
    }
}
/// Peak number of bytes allocated on this thread while `f` ran, above the level at its start.
pub fn alloc_peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

// ---------------------------------------------------------------- crash journal
// One shared-memory slot per worker holding the case in progress: if the process dies (stack
// overflow, abort), the driver reads the slots from the file.
pub const SLOT: usize = 8192;
#[cfg(unix)]
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
pub struct Journal {
    base: usize,
}
impl Journal {
    #[cfg(not(unix))]
    fn open(_: &str, _: usize) -> Journal {
        unimplemented!()
    }
    #[cfg(unix)]
    fn open(path: &str, slots: usize) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("journal");
        f.set_len((slots * SLOT) as u64).unwrap();
        let p = unsafe {
            mmap(
                std::ptr::null_mut(),
                slots * SLOT,
                3, /*RW*/
                1, /*SHARED*/
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p as isize != -1);
        Journal { base: p as usize }
    }
    #[inline]
    fn put(&self, slot: usize, space: &str, input: &[u8], extra: &str) {
        unsafe {
            let p = (self.base + slot * SLOT) as *mut u8;
            let n = input.len().min(6000);
            let s = space.len().min(200);
            let e = extra.len().min(1500);
            (p as *mut u32).write_unaligned(0);
            (p.add(4) as *mut u32).write_unaligned(s as u32);
            (p.add(8) as *mut u32).write_unaligned(e as u32);
            (p.add(12) as *mut u32).write_unaligned(n as u32);
            (p.add(16) as *mut u64).write_unaligned(input.len() as u64);
            let q = p.add(24);
            std::ptr::copy_nonoverlapping(space.as_ptr(), q, s);
            std::ptr::copy_nonoverlapping(extra.as_ptr(), q.add(s), e);
            std::ptr::copy_nonoverlapping(input.as_ptr(), q.add(s + e), n);
            (p as *mut u32).write_unaligned(1);
        }
    }
    #[inline]
    fn clear(&self, slot: usize) {
        unsafe { (((self.base + slot * SLOT) as *mut u8) as *mut u32).write_unaligned(0) }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
fn short_hex(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex(b)
    } else {
        format!("{}..({} octets)", hex(&b[..64]), b.len())
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The violating case of a run.
#[derive(Clone)]
pub struct Violation {
    pub space: String,
    pub input: Vec<u8>,
    pub extra: String,
    pub msg: String,
}

pub struct Known {
    pub prop: String,
    pub input: Vec<u8>,
    pub space: String,
    pub what: String,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub stop: AtomicBool,
    pub violation: Mutex<Option<Violation>>,
    pub known: Vec<Known>,
    pub known_hit: Mutex<BTreeMap<String, u64>>,
    pub states: AtomicU64,
    pub calls: AtomicU64,
    pub compared: AtomicU64,
    pub skipped: AtomicU64,
    pub accepted: AtomicU64,
    pub refused: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub spaces: Mutex<Vec<(String, u64, f64)>>,
    pub notes: Mutex<Vec<String>>,
    pub replay: Option<(String, Vec<u8>, String)>,
    /// the replayed input is known by its first octets and its length
    pub replay_len: Option<usize>,
    pub journal: Journal,
    pub start: Instant,
    pub slots: Vec<(AtomicU64, AtomicU64)>, // (case sequence, octets of the case + 1, or 0)
    pub case_limit: Duration,
}

pub struct Worker<'c> {
    pub ctx: &'c Ctx,
    pub slot: usize,
    pub space: &'c str,
    n: u64,
    pub calls: u64,
    pub compared: u64,
    pub skipped: u64,
    pub accepted: u64,
    pub refused: u64,
}

impl<'c> Worker<'c> {
    /// Run one case. Returns false when the exploration has to stop.
    #[inline]
    pub fn case<F>(&mut self, input: &[u8], extra: &str, f: F) -> bool
    where
        F: FnOnce(&mut Worker<'c>) -> Result<(), String>,
    {
        let ctx = self.ctx;
        if let Some((s, i, e)) = &ctx.replay {
            let same = match ctx.replay_len {
                None => i == input,
                Some(n) => input.len() == n && input.starts_with(i),
            };
            if s != self.space || !same || e != extra {
                return true;
            }
        }
        self.n += 1;
        ctx.journal.put(self.slot, self.space, input, extra);
        let sl = &ctx.slots[self.slot];
        sl.0.fetch_add(1, Relaxed);
        if self.n & 63 == 1 {
            if ctx.stop.load(Relaxed) {
                return false;
            }
        }
        sl.1.store(1 + input.len() as u64, Relaxed);
        let me: *mut Worker<'c> = self;
        let r = catch_unwind(AssertUnwindSafe(|| f(unsafe { &mut *me })));
        sl.1.store(0, Relaxed);
        ctx.journal.clear(self.slot);
        let msg = match r {
            Ok(Ok(())) => {
                // (prime stride) keep a few concrete cases for the evidence
                if self.n % 20011 == 1 && self.n < 70000 {
                    let mut s = ctx.samples.lock().unwrap();
                    if s.len() < 40 {
                        s.push(format!(
                            "{}: {}{}",
                            self.space,
                            short_hex(input),
                            if extra.is_empty() {
                                String::new()
                            } else {
                                format!(" [{}]", extra)
                            }
                        ));
                    }
                }
                return true;
            }
            Ok(Err(m)) => m,
            Err(_) => format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone())),
        };
        for k in &ctx.known {
            if k.input == input && (k.space.is_empty() || k.space == self.space) {
                *ctx.known_hit
                    .lock()
                    .unwrap()
                    .entry(k.what.clone())
                    .or_insert(0) += 1;
                return true;
            }
        }
        let mut v = ctx.violation.lock().unwrap();
        let nv = Violation {
            space: self.space.to_string(),
            input: input.to_vec(),
            extra: extra.to_string(),
            msg,
        };
        // prefer the shortest witness found before all workers stop
        let better = match &*v {
            None => true,
            Some(o) => nv.input.len() < o.input.len(),
        };
        if better {
            *v = Some(nv);
        }
        ctx.stop.store(true, Relaxed);
        false
    }
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, journal: &str, known: Vec<Known>) -> Ctx {
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(16);
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            PANIC_MSG.with(|m| *m.borrow_mut() = s.replace('\n', " "));
        }));
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            threads,
            stop: AtomicBool::new(false),
            violation: Mutex::new(None),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            states: AtomicU64::new(0),
            calls: AtomicU64::new(0),
            compared: AtomicU64::new(0),
            skipped: AtomicU64::new(0),
            accepted: AtomicU64::new(0),
            refused: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            spaces: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            replay: None,
            replay_len: None,
            journal: Journal::open(journal, 32),
            start: Instant::now(),
            slots: (0..32)
                .map(|_| (AtomicU64::new(0), AtomicU64::new(0)))
                .collect(),
            case_limit: Duration::from_secs(40),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// Explore `shards` shards of a space; `run` enumerates one shard, calling `Worker::case`.
    pub fn par<F>(&self, space: &str, shards: usize, run: F)
    where
        F: Fn(usize, &mut Worker) + Sync,
    {
        if self.stopped() {
            return;
        }
        if let Some((s, _, _)) = &self.replay {
            if s != space {
                return;
            }
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let total = AtomicU64::new(0);
        let done = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..self.threads.min(shards.max(1)))
                .map(|slot| {
                    let (next, total, run) = (&next, &total, &run);
                    std::thread::Builder::new()
                        // the default stack size of a Rust thread: the code under test has to
                        // live with it
                        .stack_size(2 << 20)
                        .spawn_scoped(sc, move || {
                            let mut w = Worker {
                                ctx: self,
                                slot,
                                space,
                                n: 0,
                                calls: 0,
                                compared: 0,
                                skipped: 0,
                                accepted: 0,
                                refused: 0,
                            };
                            loop {
                                let s = next.fetch_add(1, Relaxed);
                                if s >= shards || self.stopped() {
                                    break;
                                }
                                run(s, &mut w);
                            }
                            total.fetch_add(w.n, Relaxed);
                            self.states.fetch_add(w.n, Relaxed);
                            self.calls.fetch_add(w.calls, Relaxed);
                            self.compared.fetch_add(w.compared, Relaxed);
                            self.skipped.fetch_add(w.skipped, Relaxed);
                            self.accepted.fetch_add(w.accepted, Relaxed);
                            self.refused.fetch_add(w.refused, Relaxed);
                        })
                        .unwrap()
                })
                .collect();
            // watchdog
            let done_r = &done;
            sc.spawn(move || {
                let mut last: Vec<(u64, Instant)> =
                    (0..32).map(|_| (u64::MAX, Instant::now())).collect();
                while !done_r.load(Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(50));
                    for (i, s) in self.slots.iter().enumerate() {
                        let seq = s.0.load(Relaxed);
                        if s.1.load(Relaxed) == 0 || seq != last[i].0 {
                            last[i] = (seq, Instant::now());
                        } else if last[i].1.elapsed() > self.case_limit + Duration::from_micros(20 * s.1.load(Relaxed)) {
                            // the case is in the journal: the driver turns this into a verdict
                            eprintln!("HANG slot={}", i);
                            std::process::exit(97);
                        }
                    }
                }
            });
            for h in hs {
                h.join().expect("worker died outside a case");
            }
            done.store(true, Relaxed);
        });
        let n = total.load(Relaxed);
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("{} {} {:.1}s", space, n, t0.elapsed().as_secs_f64());
        }
        self.spaces
            .lock()
            .unwrap()
            .push((space.to_string(), n, t0.elapsed().as_secs_f64()));
    }
}

impl Ctx {
    /// JSON report of what this run covered
    pub fn report(&self, v: Option<&Violation>) -> String {
        let l = |a: &AtomicU64| a.load(Relaxed);
        let mut s = String::new();
        let spaces: Vec<String> = self
            .spaces
            .lock()
            .unwrap()
            .iter()
            .map(|(n, c, t)| format!("{{\"space\":{},\"cases\":{},\"seconds\":{:.3}}}", jstr(n), c, t))
            .collect();
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|x| jstr(x)).collect();
        let notes: Vec<String> = self.notes.lock().unwrap().iter().map(|x| jstr(x)).collect();
        let _ = write!(
            s,
            "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"cases_accepted\":{},\"cases_refused\":{},\"cases_outside_model\":{},\"violations\":{},\"wall_s\":{:.3},\"spaces\":[{}],\"samples\":[{}],\"notes\":[{}]",
            l(&self.states),
            l(&self.calls),
            l(&self.compared),
            l(&self.accepted),
            l(&self.refused),
            l(&self.skipped),
            v.is_some() as u32,
            self.start.elapsed().as_secs_f64(),
            spaces.join(","),
            samples.join(","),
            notes.join(",")
        );
        s.push('}');
        s
    }
}
