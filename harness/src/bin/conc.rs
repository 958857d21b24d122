//! C05: the same operations alone and from many threads at once.
use harness::mon::{guard, hash_of, install_hook, Mon, Shared};
use harness::names::{MAX, VERSIONS};
use harness::rng::Rng;
use harness::simple::{self, operation, point, Digest};
use harness::spec::Spec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::marker::PhantomData;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use unicode_intervals::{Error, IntervalQuery, IntervalSet, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

/// Gives way now and then in the middle of whatever is allocating.
struct Jitter;
thread_local! {
    static RATE: Cell<u32> = const { Cell::new(0) };
    static STATE: Cell<u32> = const { Cell::new(1) };
}
static YIELDS: AtomicU64 = AtomicU64::new(0);
fn jitter() {
    let rate = RATE.try_with(Cell::get).unwrap_or(0);
    if rate == 0 {
        return;
    }
    let x = STATE
        .try_with(|s| {
            let mut x = s.get();
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            s.set(x);
            x
        })
        .unwrap_or(1);
    if x % rate == 0 {
        YIELDS.fetch_add(1, Relaxed);
        if x & 0x7000 == 0 {
            std::thread::sleep(std::time::Duration::from_micros(u64::from(x >> 25)));
        } else {
            std::thread::yield_now();
        }
    }
}
unsafe impl GlobalAlloc for Jitter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        jitter();
        System.alloc(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        jitter();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        jitter();
        System.dealloc(p, l);
    }
}
#[global_allocator]
static A: Jitter = Jitter;

/// Everyone leaves at once, spinning so that nobody is late by a wake-up.
struct Gate {
    waiting: AtomicUsize,
    n: usize,
}
impl Gate {
    fn new(n: usize) -> Gate {
        Gate { waiting: AtomicUsize::new(0), n }
    }
    fn pass(&self) {
        let turn = self.waiting.fetch_add(1, SeqCst) / self.n;
        while self.waiting.load(SeqCst) < (turn + 1) * self.n {
            if cfg!(miri) || self.n > 6 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

/// Carries a value to other threads whatever the compiler thinks of it; `markers` says what it thinks.
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

struct Probe<T>(PhantomData<T>);
trait Not {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> Not for &Probe<T> {}
trait YesSend {
    fn send(&self) -> bool {
        true
    }
}
trait YesSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Send> YesSend for Probe<T> {}
impl<T: Sync> YesSync for Probe<T> {}
macro_rules! marks {
    ($m:ident, $($t:ty),*) => {$(
        let p = Probe::<$t>(PhantomData);
        for (ok, what) in [((&p).send(), "Send"), ((&p).sync(), "Sync")] {
            $m.seen(Some(hash_of(&(stringify!($t), what))));
            $m.class("thread-safety markers looked at");
            if !ok {
                $m.fail(format!("{} is not {what}", stringify!($t)));
            }
        }
    )*};
}

/// Operation `i` of a block: the digest of all it returned, or what went wrong.
fn run_op(seed: u64, b: u64, i: u64, max_text: usize) -> Result<(u64, String), String> {
    let mut d = Digest(i);
    let mut label = String::new();
    operation(&mut Rng::new(seed, 77, b * 4096 + i), &mut d, max_text, &mut label)
        .map_err(|e| format!("panicked: {e}: {label}"))?;
    Ok((d.0, label))
}

fn first_bad(bad: &Mutex<Vec<String>>) -> Option<String> {
    bad.lock().unwrap().first().cloned()
}

/// Threads run the block's operations in different orders, compared with the same operations alone,
/// before or after.
fn mixed(m: &mut Mon<'_>, b: u64, r: &mut Rng, threads: usize, ops: u64, max_text: usize) {
    let seed = m.sh.seed;
    let alone = || -> Vec<Result<(u64, String), String>> { (0..ops).map(|i| run_op(seed, b, i, max_text)).collect() };
    let before = if r.chance(50) { m.call(|| "sequential pass".into(), alone) } else { None };
    let gate = Gate::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| r.next()).collect();
    // Half of the blocks: everyone does the same operation at the same time.
    let lockstep = r.chance(50);
    let rate = *r.pick(&[0, 3, 17, 97]);
    let got = m.call(
        || format!("concurrent pass with {threads} threads"),
        || {
            std::thread::scope(|s| {
                let handles: Vec<_> = seeds
                    .iter()
                    .map(|&mine| {
                        let gate = &gate;
                        s.spawn(move || {
                            let mut rr = Rng::new(mine, 1, 1);
                            STATE.with(|s| s.set(rr.next() as u32 | 1));
                            RATE.with(|x| x.set(rate));
                            let mut order: Vec<u64> = (0..ops).collect();
                            if !lockstep {
                                rr.shuffle(&mut order);
                            }
                            let mut out = Vec::with_capacity(order.len());
                            gate.pass();
                            for i in order {
                                if lockstep {
                                    gate.pass();
                                }
                                out.push((i, run_op(seed, b, i, max_text)));
                            }
                            RATE.with(|x| x.set(0));
                            out
                        })
                    })
                    .collect();
                handles.into_iter().map(|h| h.join().expect("worker")).collect::<Vec<_>>()
            })
        },
    );
    let Some(got) = got else { return };
    let Some(want) = before.or_else(|| m.call(|| "sequential pass".into(), alone)) else { return };
    for (t, list) in got.iter().enumerate() {
        for (i, res) in list {
            m.seen(Some(hash_of(&(b, *i, lockstep))));
            match (&want[*i as usize], res) {
                (Ok(w), Ok(g)) if w.0 == g.0 => {}
                (Err(e), _) => return m.fail(format!("alone: {e}")),
                (_, Err(e)) => return m.fail(format!("thread {t} of {threads}: {e}")),
                (Ok(w), Ok(_)) => return m.fail(format!("thread {t} of {threads} got another result than alone: {}", w.1)),
            }
        }
    }
    m.count("concurrent operations", threads as u64 * ops);
    m.class(if lockstep { "rounds in lockstep" } else { "rounds in different orders" });
    m.sample(|| format!("{threads} threads, lockstep {lockstep}, giving way 1/{rate}: {}", want[0].as_ref().map_or("", |w| &w.1)));
}

/// One set, one query and one iterator, shared by all threads.
fn shared(m: &mut Mon<'_>, b: u64, r: &mut Rng, threads: usize, lookups: u64) {
    let mut spec = simple::spec(r, 60);
    while !spec.valid() {
        spec = simple::spec(r, 60);
    }
    let what = |s: &Spec| format!("the set of {s}, shared by {threads} threads");
    let Some(Ok(set)) = m.call(|| what(&spec), || spec.run_set()) else { return };
    let Some(Ok(list)) = m.call(|| what(&spec), || spec.run()) else { return };
    let mut base = Vec::with_capacity(list.len());
    let mut n = 0u32;
    for (a, z) in &list {
        base.push(n);
        n += z - a + 1;
    }
    // Expectations from the interval list, which the monitors of C01 and C06 judge.
    let below = |c: u32| -> u32 {
        let i = list.partition_point(|(a, _)| *a <= c);
        match i.checked_sub(1) {
            None => 0,
            Some(i) => base[i] + (c - list[i].0).min(list[i].1 - list[i].0 + 1),
        }
    };
    let holds = |c: u32| {
        let i = list.partition_point(|(a, _)| *a <= c);
        i > 0 && c <= list[i - 1].1
    };
    let at = |x: u32| -> Option<u32> {
        (x < n).then(|| {
            let i = base.partition_point(|b| *b <= x) - 1;
            list[i].0 + (x - base[i])
        })
    };
    let query = Force(spec.query());
    let set = Force(set);
    let skip = r.below(3) as usize;
    let shared_iter = Force(set.0.iter());
    let gate = Gate::new(threads);
    let bad = Mutex::new(Vec::new());
    let done = AtomicBool::new(false);
    let seeds: Vec<u64> = (0..threads).map(|_| r.next()).collect();
    // Few distinct arguments make threads meet; many make them differ.
    let hot: Vec<u32> = (0..4).map(|_| point(r)).collect();
    let narrow = r.chance(40);
    let res = m.call(|| what(&spec), || {
        std::thread::scope(|s| {
            for &mine in &seeds {
                let (set, query, shared_iter, gate, bad, done, list, hot, below, holds, at, spec) =
                    (&set, &query, &shared_iter, &gate, &bad, &done, &list, &hot, &below, &holds, &at, &spec);
                s.spawn(move || {
                    let mut rr = Rng::new(mine, 2, 2);
                    STATE.with(|s| s.set(rr.next() as u32 | 1));
                    RATE.with(|x| x.set(7));
                    let fail = |e: String| {
                        bad.lock().unwrap().push(e);
                        done.store(true, Relaxed);
                    };
                    gate.pass();
                    let set = &set.0;
                    let mut own = shared_iter.0.clone();
                    let mut own_at = 0u32;
                    for k in 0..lookups {
                        if done.load(Relaxed) {
                            break;
                        }
                        let c = if narrow { *rr.pick(hot) } else { rr.range(0, MAX + 3) };
                        let x = if narrow { n / 2 + c % 3 } else { rr.range(0, n + 1) };
                        let which = rr.below(64);
                        let got = guard(|| match which {
                            0..=15 => (set.codepoint_at(x), at(x)),
                            16..=31 => (set.index_of(c), holds(c).then(|| below(c))),
                            32..=47 => (Some(set.index_above(c)), Some(below(c))),
                            48..=55 => (Some(u32::from(set.contains(c))), Some(u32::from(holds(c)))),
                            56 => (Some(set.len() as u32), Some(n)),
                            57 => (Some(u32::from(set.is_empty())), Some(u32::from(n == 0))),
                            58 => (set.iter().nth(skip * 3), at(skip as u32 * 3)),
                            59 => (set.iter().next_back(), n.checked_sub(1).and_then(at)),
                            60 if k % 32 == 0 => {
                                let same = query.0.intervals().map_or(false, |l| &l == list);
                                (Some(u32::from(same)), Some(1))
                            }
                            61 if k % 32 == 0 => {
                                let same = query.0.clone() == spec.query() && set.clone().len() == n as usize;
                                (Some(u32::from(same)), Some(1))
                            }
                            _ => {
                                own_at += 1;
                                let got = own.next();
                                if got.is_none() {
                                    own = shared_iter.0.clone();
                                }
                                let want = at(own_at - 1);
                                if want.is_none() {
                                    own_at = 0;
                                }
                                (got, want)
                            }
                        });
                        match got {
                            Ok((g, w)) if g == w => {}
                            Ok((g, w)) => fail(format!("operation {which} with codepoint {c:#x}, index {x}: {g:?}, alone {w:?}")),
                            Err(e) => fail(format!("operation {which} with codepoint {c:#x}, index {x} panicked: {e}")),
                        }
                    }
                    RATE.with(|x| x.set(0));
                });
            }
        });
    });
    if res.is_none() {
        return;
    }
    m.seen(Some(spec.hash64()));
    m.seen_many(lookups * threads as u64 - 1);
    m.count("lookups in shared sets", lookups * threads as u64);
    m.count("intervals in shared sets", list.len() as u64);
    if let Some(e) = first_bad(&bad) {
        m.fail(format!("{}: {e}", what(&spec)));
        return;
    }
    m.sample(|| what(&spec));
    let _ = b;
}

/// A few queries, related to each other, evaluated over and over by everyone at once.
fn storm(m: &mut Mon<'_>, r: &mut Rng, threads: usize, times: u64) {
    let light = simple::LIGHT.load(Relaxed);
    let long = !light && r.chance(35);
    let text = if long { *r.pick(&[90, 300, 700]) } else if light { 6 } else { 30 };
    let mut specs: Vec<Spec> = Vec::new();
    let n = 2 + r.idx(3);
    while specs.len() < n {
        let mut s = simple::spec(r, text);
        if let (Some(last), true) = (specs.last(), r.chance(70)) {
            // Another version, the texts exchanged, or one setting of a neighbour.
            let last: &Spec = last;
            s = match r.below(6) {
                0 => Spec { v: s.v, ..last.clone() },
                1 => Spec { inc_chars: last.exc_chars.clone(), exc_chars: last.inc_chars.clone(), ..last.clone() },
                2 => Spec { inc: s.inc, ..last.clone() },
                3 => Spec { min: s.min, max: s.max, ..last.clone() },
                4 => Spec { exc: s.exc, exc_chars: s.exc_chars, ..last.clone() },
                _ => Spec { inc_chars: s.inc_chars, exc_chars: s.exc_chars, ..last.clone() },
            };
        }
        if long && specs.is_empty() {
            s.inc_chars = Some(simple::text(r, false, text, true));
            s.exc_chars = Some(simple::text(r, false, text, true));
        }
        if !s.valid() {
            continue;
        }
        // Cheap ones meet more often.
        if !light && r.chance(70) {
            s.inc = Some(1 << r.below(30));
        }
        specs.push(s);
    }
    let what = |specs: &[Spec]| {
        format!("{threads} threads evaluating: {}", specs.iter().map(ToString::to_string).collect::<Vec<_>>().join("; "))
    };
    let alone = || specs.iter().map(|s| s.run().expect("valid")).collect::<Vec<_>>();
    let before = r.chance(50);
    let mut want = if before { m.call(|| what(&specs), alone) } else { None };
    let queries: Vec<_> = specs.iter().map(|s| Force(s.query())).collect();
    let gate = Gate::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| r.next()).collect();
    let rate = *r.pick(&[0, 0, 5, 61]);
    let got = m.call(|| what(&specs), || {
        std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .enumerate()
                .map(|(t, &mine)| {
                    let (queries, gate) = (&queries, &gate);
                    s.spawn(move || {
                        let mut rr = Rng::new(mine, 3, 3);
                        STATE.with(|s| s.set(rr.next() as u32 | 1));
                        RATE.with(|x| x.set(rate));
                        // What was seen first for each, and anything that differed from it later.
                        let mut first: Vec<Option<Vec<(u32, u32)>>> = vec![None; queries.len()];
                        let mut bad = None;
                        // Some threads stay with one query.
                        let own = (t % 3 == 0).then(|| t / 3 % queries.len());
                        gate.pass();
                        for _ in 0..times {
                            let i = own.unwrap_or_else(|| rr.idx(queries.len()));
                            match guard(|| queries[i].0.intervals()) {
                                Ok(Ok(l)) => match &first[i] {
                                    None => first[i] = Some(l),
                                    Some(f) if *f == l => {}
                                    _ => bad = Some((i, "two results".to_string())),
                                },
                                Ok(Err(e)) => bad = Some((i, format!("error {e}"))),
                                Err(e) => bad = Some((i, format!("panic {e}"))),
                            }
                            if bad.is_some() {
                                break;
                            }
                        }
                        RATE.with(|x| x.set(0));
                        (first, bad)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect::<Vec<_>>()
        })
    });
    let Some(got) = got else { return };
    if want.is_none() {
        want = m.call(|| what(&specs), alone);
    }
    let Some(want) = want else { return };
    m.seen(Some(hash_of(&specs.iter().map(Spec::hash64).collect::<Vec<_>>())));
    m.seen_many(times * threads as u64 - 1);
    m.count("evaluations of hot queries", times * threads as u64);
    for (t, (first, bad)) in got.iter().enumerate() {
        if let Some((i, e)) = bad {
            return m.fail(format!("thread {t} of {threads} got {e} from {}", specs[*i]));
        }
        for (i, f) in first.iter().enumerate() {
            if let Some(f) = f {
                if want[i] != *f {
                    return m.fail(format!(
                        "thread {t} of {threads} got {} intervals, alone {}: {}", f.len(), want[i].len(), specs[i]));
                }
            }
        }
    }
}

/// An iterator handed from thread to thread.
fn relay(m: &mut Mon<'_>, r: &mut Rng, hops: u32) {
    let mut spec = simple::spec(r, 30);
    while !spec.valid() {
        spec = simple::spec(r, 30);
    }
    let steps: Vec<(bool, usize)> = (0..hops).map(|_| (r.chance(50), r.idx(40))).collect();
    let got = m.call(|| format!("relaying an iterator over {spec}"), || {
        let set = spec.run_set().ok()?;
        let walk = |threads: bool| -> Vec<Option<u32>> {
            let mut it = Force(set.iter());
            let mut out = Vec::new();
            for (front, n) in &steps {
                let step = |it: &mut Force<_>| step(&mut it.0, *front, *n);
                let x = if threads {
                    std::thread::scope(|s| {
                        let it = &mut it;
                        s.spawn(move || step(it)).join().expect("relay")
                    })
                } else {
                    step(&mut it)
                };
                out.push(x);
            }
            out
        };
        Some((walk(true), walk(false)))
    });
    m.seen(Some(spec.hash64()));
    m.count("iterator hand-overs", u64::from(hops));
    if let Some(Some((a, b))) = got {
        if a != b {
            m.fail(format!("an iterator over {spec} handed between threads gave {a:?}, on one thread {b:?}"));
        }
    }
}

fn step<I: DoubleEndedIterator<Item = u32>>(it: &mut I, front: bool, n: usize) -> Option<u32> {
    if front {
        it.nth(n)
    } else {
        it.nth_back(n)
    }
}

/// A fresh process whose first calls come from all threads at once; prints what each thread got.
fn child(seed: u64, b: u64, threads: usize, ops: u64) {
    install_hook();
    let gate = Gate::new(threads);
    let lockstep = b % 2 == 0;
    let out: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let gate = &gate;
                s.spawn(move || {
                    let mut list = vec![None; ops as usize];
                    gate.pass();
                    for k in 0..ops {
                        // In odd processes every thread starts somewhere else.
                        let i = if lockstep { k } else { (k + t as u64) % ops };
                        list[i as usize] = Some(run_op(seed, b, i, 40).map(|x| x.0));
                    }
                    list.into_iter()
                        .map(|x| match x.expect("ran") {
                            Ok(d) => format!("{d:016x}"),
                            Err(e) => format!("panic:{}", e.replace(char::is_whitespace, "_")),
                        })
                        .collect::<Vec<_>>()
                        .join(" ")
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("child worker")).collect()
    });
    println!("{}", out.join("\n"));
}

fn fresh(m: &mut Mon<'_>, b: u64, threads: usize, ops: u64) {
    let seed = m.sh.seed;
    let exe = std::env::current_exe().expect("exe");
    let Some(output) = m.call(
        || format!("a fresh process with {threads} threads"),
        || {
            Command::new(&exe)
                .args(["--child", &seed.to_string(), &b.to_string(), &threads.to_string(), &ops.to_string()])
                .stderr(Stdio::inherit())
                .output()
                .expect("child")
        },
    ) else {
        return;
    };
    let text = String::from_utf8_lossy(&output.stdout);
    let want: Option<Vec<_>> = m.call(|| "sequential pass".into(), || (0..ops).map(|i| run_op(seed, b, i, 40)).collect());
    let Some(want) = want else { return };
    let lines: Vec<&str> = text.lines().collect();
    if lines.len() != threads {
        use std::os::unix::process::ExitStatusExt;
        if output.status.signal().map_or(false, |s| [4, 5, 6, 7, 8, 11].contains(&s)) {
            return m.fail(format!("a fresh process died: {}", output.status));
        }
        panic!("child of block {b} gave {} lines: {}", lines.len(), output.status);
    }
    for (t, line) in lines.iter().enumerate() {
        for (i, (g, w)) in line.split(' ').zip(&want).enumerate() {
            m.seen(Some(hash_of(&("fresh", b, i))));
            match w {
                Err(e) => return m.fail(format!("alone: {e}")),
                Ok((w, label)) => {
                    if *g != format!("{w:016x}") {
                        return m.fail(format!(
                            "thread {t} of {threads} in a fresh process got another result ({g}) than alone: {label}"
                        ));
                    }
                }
            }
        }
    }
    m.class("fresh processes");
    m.count("operations in fresh processes", threads as u64 * ops);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--child") {
        let n = |i: usize| args[i].parse::<u64>().expect("number");
        return child(n(2), n(3), n(4) as usize, n(5));
    }
    let get = |k: &str, d: u64| {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map_or(d, |x| x.parse().expect("number"))
    };
    if args.iter().any(|a| a == "--light") {
        simple::light();
    }
    let sh = Shared::from_args(&args);
    install_hook();
    let (rounds, threads, ops, text) = (get("--rounds", 50), get("--inner", 8) as usize, get("--ops", 24), get("--max-text", 60) as usize);
    // The probe itself must tell the difference.
    assert!(!(&Probe::<std::rc::Rc<u8>>(PhantomData)).send() && !(&Probe::<Cell<u8>>(PhantomData)).sync());
    sh.par("markers", 1, |m, _, _| {
        marks!(
            m,
            IntervalSet,
            IntervalQuery<'static>,
            UnicodeVersion,
            UnicodeCategory,
            UnicodeCategorySet,
            Error
        );
    });
    sh.par("mixed", rounds, |m, b, r| {
        let t = if threads < 4 { threads } else { 2 + r.idx(threads * 2 - 3) };
        // Some rounds work on long texts only, so that everyone is in the middle of one.
        let text = if text > 20 && r.chance(12) { *r.pick(&[400, 900, 1500]) } else { text };
        mixed(m, b, r, t, ops, text);
    });
    // More threads than anything could have thought of.
    sh.par("crowd", get("--crowds", 0), |m, b, r| {
        let t = 300 + r.idx(60);
        mixed(m, b, r, t, 6, 20);
    });
    sh.par("shared", rounds, |m, b, r| shared(m, b, r, threads, get("--lookups", 4000)));
    sh.par("storm", rounds, |m, _, r| {
        let t = if threads < 4 { threads } else { 2 + r.idx(threads) };
        storm(m, r, t, get("--times", 1200));
    });
    sh.par("relay", rounds.min(200), |m, _, r| relay(m, r, 12));
    sh.par("fresh", get("--fresh", 0), |m, b, _| fresh(m, b, 2 + (b as usize * 5) % 13, 6));
    sh.par("tally", 1, |m, _, _| m.count("yields injected inside operations", YIELDS.load(Relaxed)));
    let _ = VERSIONS;
    std::process::exit(sh.finish());
}
