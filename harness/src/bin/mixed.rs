//! C15: one deterministic stream of operations over the whole API. The same stream is run in several
//! builds; digests must agree. Counts live bytes around every operation, and can fill memory with a byte of
//! the build's own when it is given out and when it is given back, so that reading either shows in the digests.
use harness::gen::{pattern, PATTERNS};
use harness::mon::{install_hook, Mon, Shared};
use harness::names::VERSIONS;
use harness::rng::Rng;
use harness::simple::{operation, Digest};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU16, Ordering::Relaxed};
use std::sync::Mutex;
use unicode_intervals::{as_general_categories, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn note(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
/// 256 and above: nothing is filled.
static FILL: AtomicU16 = AtomicU16::new(256);
/// Fills `n` bytes.
unsafe fn fill(p: *mut u8, n: usize, flip: u8) {
    let f = FILL.load(Relaxed);
    if f < 256 && !p.is_null() {
        std::ptr::write_bytes(p, f as u8 ^ flip, n);
        // Or the compiler drops what it takes for dead stores.
        std::hint::black_box(p);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        let p = System.alloc(l);
        fill(p, l.size(), 0);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        if FILL.load(Relaxed) >= 256 {
            return System.realloc(p, l, n);
        }
        // It always moves, so that what still points at the old place shows.
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        fill(q, n, 0);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            fill(p, l.size(), 0xFF);
            System.dealloc(p, l);
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        fill(p, l.size(), 0xFF);
        System.dealloc(p, l);
    }
}
#[global_allocator]
static A: Counting = Counting;

/// One operation with an argument of `n` characters or names.
fn long(m: &mut Mon, b: usize, n: usize, r: &mut Rng) -> Digest {
    let mut d = Digest(b as u64);
    let p = PATTERNS[b % PATTERNS.len()];
    match b / PATTERNS.len() {
        0 => {
            let text = pattern(p, n, 0);
            let other = pattern(PATTERNS[r.idx(PATTERNS.len())], n / 2, 1);
            let q = UnicodeVersion::latest().query().include_categories(UnicodeCategorySet::new());
            let q = q.include_characters(&text).exclude_characters(&other);
            let what = || format!("a set of {n} characters, {p}, others excluded");
            m.call(what, || {
                let set = q.clone().interval_set().expect("valid");
                for (i, c) in set.iter().enumerate() {
                    if i % 1000 == 0 {
                        d.add(u64::from(c));
                        assert_eq!(set.index_of(c), Some(i as u32));
                    }
                }
                d.add(set.iter().rev().map(u64::from).sum());
                let copy = set.clone();
                d.add(u64::from(copy.iter().nth_back(copy.len() / 2).unwrap_or(0)));
                d.add(u64::from(q == q.clone()));
                // What is printed is nobody's promise, and how std escapes text not the crate's doing.
                std::hint::black_box((format!("{set:?}"), format!("{q:?}")));
            });
        }
        1 => {
            let text = pattern(p, n, 0);
            let q = UnicodeVersion::V12_0_0.query().exclude_characters(&text);
            let what = || format!("a query with {n} characters excluded, {p}, with and without categories");
            m.call(what, || {
                for q in [q.clone(), q.clone().include_categories(UnicodeCategory::L), q.max_codepoint(0xFFFF)] {
                    for (a, z) in q.intervals().expect("valid") {
                        d.add(u64::from(a) << 32 | u64::from(z));
                    }
                }
            });
        }
        _ => {
            let names: Vec<&str> = (0..n).map(|i| ["L", "Zs", "Cn", "M", "Lu", "Nd"][r.idx(1 + i % 6)]).collect();
            let text = pattern("shuffled", n, 0);
            let errors = [
                m.call(|| format!("expanding {n} names"), || {
                    let list = as_general_categories(&names, UnicodeVersion::V15_0_0);
                    d.add(list.map_or(0, |l| l.len() as u64));
                    as_general_categories(names.iter().copied().chain([&*text]), UnicodeVersion::V15_0_0).err()
                }),
                m.call(|| format!("a category name of {n} characters"), || text.parse::<UnicodeCategory>().err()),
                m.call(|| format!("a version name of {n} characters"), || text.parse::<UnicodeVersion>().err()),
            ];
            for e in errors {
                let Some(Some(e)) = e else {
                    if !m.failed() {
                        m.fail(format!("{n} characters are taken for a name"));
                    }
                    continue;
                };
                m.call(|| format!("printing an error with {n} characters"), || {
                    d.text(&e.to_string());
                    std::hint::black_box(format!("{e:?}"));
                });
            }
        }
    }
    d
}

/// Operations with arguments of exactly `n` characters, or bytes; repeated, they must keep nothing.
fn sized(m: &mut Mon, d: &mut Digest, p: &str, n: usize, bytes: bool, r: &mut Rng) {
    let mut text = pattern(p, n, 0);
    if bytes {
        while text.len() > n {
            text.pop();
        }
        text.extend(std::iter::repeat_n('!', n - text.len()));
    }
    let other: String = text.chars().filter(|c| u32::from(*c) % 3 == 0).collect();
    let names: Vec<&str> = (0..n).map(|i| ["L", "Zs", "Cn", "M", "Lu", "Nd"][r.idx(1 + i % 6)]).collect();
    let version = r.pick(&VERSIONS).1;
    let all = version.query().include_characters(&text).max_codepoint(0x7FF);
    let some = all.clone().include_categories(UnicodeCategorySet::new()).exclude_characters(&other);
    let what = || format!("{n} {}, {p}, version {version}", if bytes { "bytes" } else { "characters" });
    for again in [false, true] {
        let kept = m.call(what, || {
            let before = LIVE.with(Cell::get);
            for q in [&all, &some] {
                let set = q.interval_set().expect("valid");
                for (a, z) in q.intervals().expect("valid") {
                    d.add(u64::from(a) << 32 | u64::from(z));
                    d.add(u64::from(set.index_above(z)));
                }
                d.add(set.iter().map(u64::from).sum());
                d.add(set.clone().iter().rev().step_by(7).map(u64::from).sum());
            }
            d.add(as_general_categories(&names, version).map_or(0, |l| l.len() as u64));
            match as_general_categories(names.iter().copied().chain([&*text]), version) {
                Ok(_) => panic!("{text:?} was taken for a name"),
                Err(e) => d.text(&e.to_string()),
            }
            LIVE.with(Cell::get) - before
        });
        m.seen(Some(harness::mon::hash_of(&(p, n, bytes, again))));
        m.count("operations with arguments of round sizes", 6);
        if again && kept.is_some_and(|k| k != 0) {
            m.fail(format!("{} bytes still allocated after {}", kept.unwrap_or(0), what()));
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let blocks: u64 = get("--blocks").map_or(100, |b| b.parse().expect("blocks"));
    let per: u64 = get("--per").map_or(64, |b| b.parse().expect("per"));
    let max_text: usize = get("--max-text").map_or(300, |b| b.parse().expect("max-text"));
    if let Some(f) = get("--fill") {
        FILL.store(f.parse().expect("fill"), Relaxed);
    }
    let windows = args.iter().any(|a| a == "--windows");
    // Under Miri, which finds leaks itself.
    let light = args.iter().any(|a| a == "--light");
    if light {
        harness::simple::light();
    }
    let digests = get("--digests");
    let mut fake = vec![args[0].clone(), "C15".into()];
    fake.extend(args[1..].iter().cloned());
    let sh = Shared::from_args(&fake);
    install_hook();
    let out: Mutex<Vec<(String, u64, u64)>> = Mutex::new(Vec::new());
    // The first pass lets anything that is set up once be set up; the second must balance exactly.
    for (pass, n) in [("warm-up", blocks.min(48)), ("stream", blocks)] {
        sh.par(pass, n, |m, b, r| {
            let mut d = Digest(b);
            let mut label = String::with_capacity(1 << 20);
            for _ in 0..per {
                if m.stopping() {
                    return;
                }
                // Arguments are made inside too, so everything an operation allocates must be gone.
                let mut rr = r.clone();
                let before = LIVE.with(Cell::get);
                let calls = CALLS.with(Cell::get);
                let cap = label.capacity();
                let res = operation(r, &mut d, max_text, &mut label);
                let grown = label.capacity() as i64 - cap as i64;
                let after = LIVE.with(Cell::get);
                m.seen(Some(if label.is_empty() { d.0 } else { harness::mon::hash_of(&label) }));
                m.count("allocator calls watched", CALLS.with(Cell::get) - calls);
                m.sample(|| label.chars().take(300).collect());
                if let Err(e) = res {
                    // Once more outside the label's borrow, to name it.
                    let mut text = String::new();
                    let _ = operation(&mut rr, &mut d, max_text, &mut text);
                    m.fail(format!("panicked: {e}: {text}"));
                    return;
                }
                if pass == "stream" && !light && after - before != grown {
                    m.fail(format!("{} bytes still allocated after: {label}", after - before - grown));
                    return;
                }
            }
            m.count("operations", per);
            out.lock().unwrap().push((pass.into(), b, d.0));
        });
    }
    if windows {
        sh.par("windows", 11 * 30, |m, b, _| {
            let (v, c) = ((b / 30) as usize, (b % 30) as usize);
            let base = VERSIONS[v].1.query().include_categories(harness::names::CATS[c].2);
            let mut d = Digest(b);
            for lo in 0..=256u32 {
                for hi in lo..=256 {
                    let Some(res) = m.call(|| format!("{} category {c} in {lo}..={hi}", VERSIONS[v].0), || {
                        base.clone().min_codepoint(lo).max_codepoint(hi).intervals()
                    }) else {
                        return;
                    };
                    for (a, z) in res.unwrap_or_default() {
                        d.add(u64::from(a) << 32 | u64::from(z));
                    }
                }
            }
            m.seen_many(257 * 258 / 2);
            m.count("windows below 257", 257 * 258 / 2);
            out.lock().unwrap().push(("windows".into(), b, d.0));
        });
    }
    // Arguments of round sizes, and one off, in characters and in bytes.
    if !light {
        let most = get("--round").map_or(13, |n| n.parse::<u32>().expect("round"));
        sh.par("sizes", PATTERNS.len() as u64 * u64::from(most), |m, b, r| {
            let p = PATTERNS[b as usize % PATTERNS.len()];
            let power = 1usize << (4 + b as usize / PATTERNS.len());
            let mut d = Digest(b);
            for n in [power - 1, power, power + 1, power + power / 2, 5 * power / 4] {
                for bytes in [false, true] {
                    if m.stopping() {
                        return;
                    }
                    sized(m, &mut d, p, n, bytes, r);
                }
            }
            out.lock().unwrap().push(("sizes".into(), b, d.0));
        });
    }
    // Very long arguments, on threads with as much stack as threads have.
    if let Some(n) = get("--long").map(|n| n.parse::<usize>().expect("long")) {
        sh.par("long", 2 * PATTERNS.len() as u64 + 4, |m, b, r| {
            let before = LIVE.with(Cell::get);
            let d = long(m, b as usize, n, r);
            let kept = LIVE.with(Cell::get) - before;
            m.seen(Some(b));
            m.count("operations with very long arguments", 1);
            if kept > 1 << 16 && !m.failed() {
                m.fail(format!("{kept} bytes still allocated after long arguments"));
            }
            out.lock().unwrap().push(("long".into(), b, d.0));
        });
    }
    if let Some(path) = digests {
        let mut out = out.into_inner().unwrap();
        out.sort();
        let text: String = out.iter().map(|(s, b, d)| format!("{s}:{b} {d:016x}\n")).collect();
        std::fs::write(path, text).expect("digests");
    }
    std::process::exit(sh.finish());
}
