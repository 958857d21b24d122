//! Running workloads and recording what the monitors saw.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::BuildHasherDefault;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Default)]
pub struct Identity(u64);
impl std::hash::Hasher for Identity {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type Hashes = HashSet<u64, BuildHasherDefault<Identity>>;

/// Distinct cases are counted up to this many per thread and stage set.
const DISTINCT_CAP: usize = 1 << 21;
const SLOTS: usize = 64;
/// An operation normally takes well under 0.1 s; one that burns this much CPU is not terminating.
const HANG_SECONDS: f64 = 30.0;
/// An operation whose thread gets no CPU time at all for this many watchdog seconds is blocked.
const BLOCKED_TICKS: u32 = 150;

/// What each worker is doing, readable by the watchdog and, through a shared file mapping, after
/// the process has died: [stage hash, block, operation number, busy].
struct Journal {
    slots: *const AtomicU64,
}
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
}

pub struct Shared {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub trace: bool,
    pub out: Option<String>,
    pub prop: String,
    stop: AtomicBool,
    journal: Option<Journal>,
    total: Mutex<Totals>,
    stages: Mutex<Vec<String>>,
    started: std::time::Instant,
}

#[derive(Default)]
struct Totals {
    evals: u64,
    distinct: Hashes,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<String>,
}

pub struct Mon<'a> {
    pub sh: &'a Shared,
    slot: usize,
    stage: String,
    block: u64,
    op: u64,
    t: Totals,
    sample_every: u64,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: RefCell<bool> = const { RefCell::new(false) };
}

/// Remember what panicked while a library call is guarded; anything else is a harness error.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| *g.borrow()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "(no message)".into());
            let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
            let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg}{at}")));
        } else {
            old(info);
        }
    }));
}

/// Run library code; a panic in it comes back as its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() = before);
    r.map_err(|_| PANIC.try_with(|p| p.borrow_mut().take()).ok().flatten().unwrap_or_else(|| "(unknown panic)".into()))
}

impl Shared {
    pub fn from_args(args: &[String]) -> Shared {
        let get = |k: &str| {
            args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
        };
        let journal = get("--journal").map(|path| {
            use std::os::fd::AsRawFd;
            let f = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)
                .expect("journal");
            f.set_len(SLOTS as u64 * 32).expect("journal size");
            let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * 32, 3, 1, f.as_raw_fd(), 0) };
            assert!(p as isize != -1, "mmap");
            Journal { slots: p.cast() }
        });
        let only = get("--only").map(|s| {
            let (a, b) = s.rsplit_once(':').expect("--only STAGE:BLOCK");
            (a.to_string(), b.parse().expect("block"))
        });
        Shared {
            seed: get("--seed").map_or(1, |s| s.parse().expect("seed")),
            thorough: get("--tier").as_deref() == Some("thorough"),
            threads: get("--threads").map_or(8, |s| s.parse().expect("threads")),
            trace: only.is_some() && args.iter().any(|a| a == "--trace"),
            only,
            out: get("--out"),
            prop: args.get(1).cloned().unwrap_or_default(),
            stop: AtomicBool::new(false),
            journal,
            total: Mutex::default(),
            stages: Mutex::default(),
            started: std::time::Instant::now(),
        }
    }

    /// `quick` or `thorough` amount of work.
    pub fn amount(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Run `f` for every block in `0..blocks` on all threads. Each block's randomness depends only
    /// on the seed, the stage and the block.
    pub fn par<F>(&self, stage: &str, blocks: u64, f: F)
    where
        F: Fn(&mut Mon<'_>, u64, &mut Rng) + Sync,
    {
        if self.stop.load(Relaxed) {
            return;
        }
        let only = match &self.only {
            Some((s, b)) if s == stage => Some(*b),
            Some(_) => return,
            None => None,
        };
        self.stages.lock().unwrap().push(format!("{stage}:{blocks}"));
        let stage_hash = stage.bytes().fold(7, |h, b| mix(h ^ u64::from(b)));
        let next = AtomicU64::new(0);
        let n = if only.is_some() { 1 } else { self.threads.min(blocks.max(1) as usize) };
        let clocks: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
        let done = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for slot in 0..n {
                let (f, next, clocks, done) = (&f, &next, &clocks, &done);
                s.spawn(move || {
                    struct Leave<'a>(&'a AtomicUsize);
                    impl Drop for Leave<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_add(1, Relaxed);
                        }
                    }
                    let _leave = Leave(done);
                    if self.journal.is_some() {
                        let mut id = 0;
                        unsafe { pthread_getcpuclockid(pthread_self(), &mut id) };
                        clocks[slot].store(id as u32 as u64 | 1 << 40, Relaxed);
                    }
                    let mut m = Mon {
                        sh: self,
                        slot,
                        stage: stage.to_string(),
                        block: 0,
                        op: 0,
                        t: Totals::default(),
                        sample_every: 1,
                    };
                    loop {
                        let b = match only {
                            Some(b) if next.fetch_add(1, Relaxed) == 0 => b,
                            Some(_) => break,
                            None => next.fetch_add(1, Relaxed),
                        };
                        if (only.is_none() && b >= blocks) || self.stop.load(Relaxed) {
                            break;
                        }
                        m.block = b;
                        m.op = 0;
                        m.journal(0, stage_hash);
                        m.journal(1, b);
                        f(&mut m, b, &mut Rng::new(self.seed, stage_hash, b));
                    }
                    self.merge(m.t);
                });
            }
            if let Some(j) = &self.journal {
                self.watch(j, n, &clocks, &done, stage);
            }
        });
    }

    fn watch(&self, j: &Journal, n: usize, clocks: &[AtomicU64], done: &AtomicUsize, stage: &str) {
        // Per worker: operation, CPU seconds at its first sight, CPU seconds last seen, idle ticks.
        let mut last = vec![(0u64, 0f64, 0f64, 0u32); n];
        let mut ticks = 0u32;
        while done.load(Relaxed) < n {
            std::thread::sleep(std::time::Duration::from_millis(10));
            ticks += 1;
            if ticks % 100 != 0 {
                continue;
            }
            for (slot, seen) in last.iter_mut().enumerate() {
                let c = clocks[slot].load(Relaxed);
                let at = |i: usize| unsafe { (*j.slots.add(slot * 4 + i)).load(Relaxed) };
                let (op, busy) = (at(2) ^ mix(at(1)), at(3));
                let mut t = [0i64; 2];
                if c == 0 || unsafe { clock_gettime(c as u32 as i32, &mut t) } != 0 {
                    continue;
                }
                let now = t[0] as f64 + t[1] as f64 / 1e9;
                if busy == 0 || op != seen.0 {
                    *seen = (op, now, now, 0);
                    continue;
                }
                seen.3 = if now > seen.2 { 0 } else { seen.3 + 1 };
                seen.2 = now;
                let stuck = now - seen.1 > HANG_SECONDS;
                if stuck || seen.3 > BLOCKED_TICKS {
                    let why = if stuck {
                        format!("used more than {HANG_SECONDS} s of CPU time without returning")
                    } else {
                        format!("was blocked for {BLOCKED_TICKS} s")
                    };
                    let msg = format!("one operation {why} (stage {stage}, block {}, operation {})", at(1), at(2));
                    self.total.lock().unwrap().violations.push(msg);
                    self.write();
                    std::process::exit(1);
                }
            }
        }
    }

    fn merge(&self, t: Totals) {
        let mut a = self.total.lock().unwrap();
        a.evals += t.evals;
        a.distinct.extend(t.distinct);
        for (k, v) in t.classes {
            *a.classes.entry(k).or_default() += v;
        }
        a.violations.extend(t.violations);
        let room = 24usize.saturating_sub(a.samples.len());
        let mut s = t.samples;
        s.truncate(room.min(3));
        a.samples.extend(s);
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    /// Write the result and return the exit code.
    pub fn finish(&self) -> i32 {
        self.write();
        i32::from(!self.total.lock().unwrap().violations.is_empty())
    }

    fn write(&self) {
        let a = self.total.lock().unwrap();
        let mut s = String::from("{");
        let _ = write!(
            s,
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"harness_s\":{:.3},\"classes\":{{",
            a.evals,
            a.distinct.len(),
            self.started.elapsed().as_secs_f64()
        );
        for (i, (k, v)) in a.classes.iter().enumerate() {
            let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, json(k), v);
        }
        s.push('}');
        for (name, list) in [
            ("samples", &a.samples),
            ("violations", &a.violations),
            ("stages", &self.stages.lock().unwrap()),
        ] {
            let _ = write!(s, ",\"{name}\":[");
            for (i, x) in list.iter().enumerate() {
                let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, json(x));
            }
            s.push(']');
        }
        s.push_str("}\n");
        match &self.out {
            Some(p) => std::fs::write(p, s).expect("write result"),
            None => print!("{s}"),
        }
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c if (c as u32) < 0x7f => o.push(c),
            c => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{u:04x}");
                }
            }
        }
    }
    o.push('"');
    o
}

impl Mon<'_> {
    fn journal(&self, i: usize, x: u64) {
        if let Some(j) = &self.sh.journal {
            unsafe { (*j.slots.add(self.slot * 4 + i)).store(x, Relaxed) };
        }
    }

    /// Run library code under the monitors; a panic in it is a violation.
    pub fn call<R>(&mut self, what: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        self.op += 1;
        self.journal(2, self.op);
        self.journal(3, 1);
        if self.sh.trace {
            eprintln!("{} {}: {}", self.block, self.op, what());
        }
        let r = guard(f);
        self.journal(3, 0);
        match r {
            Ok(r) => Some(r),
            Err(msg) => {
                self.fail(format!("panicked: {msg}: {}", what()));
                None
            }
        }
    }

    /// One execution observed; `key` identifies the case if it is non-trivial.
    pub fn seen(&mut self, key: Option<u64>) {
        self.t.evals += 1;
        if let Some(k) = key {
            if self.t.distinct.len() < DISTINCT_CAP {
                self.t.distinct.insert(k);
            }
        }
    }

    pub fn seen_many(&mut self, n: u64) {
        self.t.evals += n;
    }

    pub fn class(&mut self, name: &str) {
        self.count(name, 1);
    }

    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.t.classes.get_mut(name) {
            *c += n;
        } else {
            self.t.classes.insert(name.to_string(), n);
        }
    }

    /// Keep a few cases, ever more rarely.
    pub fn sample(&mut self, text: impl FnOnce() -> String) {
        if self.t.evals >= self.sample_every && self.t.samples.len() < 8 {
            self.sample_every = self.t.evals * 7 + 1;
            let t = text();
            self.t.samples.push(format!("[{}:{}] {t}", self.stage, self.block));
        }
    }

    pub fn fail(&mut self, msg: String) {
        self.sh.stop.store(true, Relaxed);
        if self.t.violations.len() < 3 {
            self.t.violations.push(format!("[{}:{}:{}] {msg}", self.stage, self.block, self.op));
        }
    }

    pub fn failed(&self) -> bool {
        !self.t.violations.is_empty()
    }

    /// Someone found a violation: wrap up.
    pub fn stopping(&self) -> bool {
        self.sh.stop.load(Relaxed)
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = crate::spec::Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    mix(h.finish())
}
