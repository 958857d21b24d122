//! C18: how much memory operations take and results keep, as counted by the allocator. One worker only: what
//! threads of the code's own take counts too.
use harness::gen::{self, pattern, PATTERNS};
use harness::mon::{hash_of, install_hook, Mon, Shared};
use harness::names::{set_of, ALL, CATS, MAX, VERSIONS};
use harness::rng::Rng;
use harness::spec::Spec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::hint::black_box;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::sync::Mutex;
use unicode_intervals::{as_general_categories, IntervalSet, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn note(n: i64) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Both may exist while it moves.
        note(n as i64);
        let q = System.realloc(p, l, n);
        note(-(l.size() as i64));
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l);
    }
}
#[global_allocator]
static A: Counting = Counting;

/// What `f` returns, the most it had allocated at a time, and what is still allocated.
fn measure<R>(f: impl FnOnce() -> R) -> (R, i64, i64) {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let x = f();
    (x, PEAK.load(Relaxed) - before, LIVE.load(Relaxed) - before)
}

/// The most of what may be taken, in hundredths, by kind of operation.
static MOST: Mutex<BTreeMap<&str, (i64, i64)>> = Mutex::new(BTreeMap::new());

/// Judge one figure against what it may be.
fn within(m: &mut Mon, what: &dyn Fn() -> String, kind: &'static str, used: i64, units: usize, each: i64, base: i64) -> bool {
    let may = base + each * units as i64;
    {
        let mut most = MOST.lock().unwrap();
        let e = most.entry(kind).or_default();
        *e = (e.0.max(100 * used / may), e.1.max(used));
    }
    m.class(kind);
    if used > may {
        m.fail(format!("{kind}: {used} bytes for {units} units, where {may} would do: {}", what()));
        return false;
    }
    true
}

// Per unit of argument, table and result, and for a start. The code now needs some 20 and a few hundred.
const EACH: i64 = 96;
const BASE: i64 = 256 << 10;

fn table(v: usize) -> usize {
    VERSIONS[v].1.table().iter().map(|t| t.len()).sum()
}

fn units(s: &Spec) -> usize {
    let text = |t: &Option<String>| t.as_ref().map_or(0, String::len);
    text(&s.inc_chars) + text(&s.exc_chars) + table(s.v)
}

/// Evaluate a query both ways, and watch what the results keep and their use takes.
fn one(m: &mut Mon, s: &Spec, r: &mut Rng, full: bool) -> Option<()> {
    let what = || s.to_string();
    let n = units(s);
    let (list, peak, kept) = m.call(what, || measure(|| s.run()))?;
    let Ok(list) = list else {
        within(m, &what, "rejected queries", peak, n, EACH, BASE);
        return Some(());
    };
    let n = n + list.len();
    let codepoints: u64 = list.iter().map(|(a, b)| u64::from(b - a) + 1).sum();
    let what = || format!("{s}, with {} intervals of {codepoints} codepoints", list.len());
    if !within(m, &what, "intervals: most in use", peak, n, EACH, BASE) || !within(m, &what, "intervals: kept", kept, n, EACH, BASE) {
        return None;
    }
    let (set, peak, kept) = m.call(what, || measure(|| s.run_set()))?;
    let Ok(set) = set else {
        m.fail(format!("only the interval set fails: {}", what()));
        return None;
    };
    if !within(m, &what, "interval set: most in use", peak, n, EACH, BASE)
        || !within(m, &what, "interval set: kept", kept, n, EACH, BASE)
    {
        return None;
    }
    m.seen(Some(s.hash64()));
    m.class(match codepoints {
        0..=999 => "results below 1000 codepoints",
        1000..=99_999 => "results of 1000 to 99999 codepoints",
        _ => "results of 100000 codepoints and more",
    });
    m.sample(|| what());
    used(m, &what, &set, &list, r, full)
}

/// Lookups, iteration and clones.
fn used(m: &mut Mon, what: &dyn Fn() -> String, set: &IntervalSet, list: &[(u32, u32)], r: &mut Rng, full: bool) -> Option<()> {
    let n = list.len();
    let probes: Vec<u32> = (0..20)
        .map(|i| match i % 3 {
            0 => r.range(0, MAX),
            1 if n > 0 => list[r.idx(n)].1.wrapping_add(r.range(0, 2)),
            _ => r.next() as u32,
        })
        .collect();
    let (_, peak, kept) = m.call(what, || {
        measure(|| {
            for p in &probes {
                black_box((set.index_of(*p), set.contains(*p), set.index_above(*p), set.codepoint_at(*p), set.len(), set.is_empty()));
                black_box(set.codepoint_at(*p % (set.len() as u32).max(1)));
            }
        })
    })?;
    let here = || format!("lookups of {probes:?} in {}", what());
    if !within(m, &here, "lookups: most in use", peak, 0, 0, 4096) || !within(m, &here, "lookups: kept", kept, 0, 0, 4096) {
        return None;
    }
    let k = r.idx(set.len() + 1);
    let ((it, copy), peak, _) = m.call(what, || {
        measure(|| {
            let mut it = set.iter();
            black_box((it.next(), it.next_back(), it.nth(k / 100), it.nth_back(k / 70), it.size_hint()));
            let mut copy = it.clone();
            black_box((copy.next(), copy.by_ref().take(300).count(), copy.rev().take(300).count()));
            if full {
                black_box(it.clone().fold(0u64, |a, c| a + u64::from(c)));
                black_box(it.clone().rfold(0u64, |a, c| a + u64::from(c)));
                black_box((it.clone().count(), it.clone().last(), it.clone().max(), it.clone().step_by(7).count()));
                black_box(it.clone().rev().map(u64::from).sum::<u64>());
                let mut front = it.clone();
                while let (Some(_), Some(_)) = (front.next(), front.next_back()) {}
                black_box(front);
            }
            (it.clone(), it)
        })
    })?;
    black_box((it, copy));
    let here = || format!("iterating from {k} on over {}", what());
    if !within(m, &here, "iteration: most in use", peak, n, EACH, 16 << 10) {
        return None;
    }
    let (copy, peak, kept) = m.call(what, || measure(|| set.clone()))?;
    drop(copy);
    let here = || format!("a clone of {}", what());
    if !within(m, &here, "clones: most in use", peak, n, EACH, BASE) || !within(m, &here, "clones: kept", kept, n, EACH, BASE) {
        return None;
    }
    Some(())
}

/// Expansion and parsing.
fn names(m: &mut Mon, b: usize, most: usize, r: &mut Rng) -> Option<()> {
    let n = 1 + r.idx(most);
    let v = r.idx(11);
    let length = if b % 3 == 0 { n } else { r.idx(40) };
    let odd = pattern(PATTERNS[b % PATTERNS.len()], length, 0);
    let list: Vec<&str> = (0..n)
        .map(|i| match b % 4 {
            0 => "Lu",
            1 => ["L", "Zs", "Cn", "M"][i % 4],
            _ => CATS[r.idx(30)].0,
        })
        .collect();
    let bad = r.chance(50).then_some(&*odd);
    let bytes: usize = 16 * n + odd.len();
    let what = || format!("expanding {n} names, then {:?}", bad.map(|b| b.chars().take(40).collect::<String>()));
    let (got, peak, kept) = m.call(what, || measure(|| as_general_categories(list.iter().copied().chain(bad), VERSIONS[v].1)))?;
    drop(got);
    if !within(m, &what, "expansion: most in use", peak, bytes, EACH, BASE)
        || !within(m, &what, "expansion: kept", kept, odd.len(), EACH, BASE)
    {
        return None;
    }
    let what = || format!("parsing a name of {} bytes", odd.len());
    let (_, peak, kept) = m.call(what, || {
        measure(|| {
            black_box((odd.parse::<UnicodeCategory>().is_err(), odd.parse::<UnicodeVersion>().is_err()));
            let e = odd.parse::<UnicodeVersion>();
            black_box(e.err().map(|e| e.to_string()));
        })
    })?;
    let ok = within(m, &what, "parsing: most in use", peak, odd.len(), EACH, BASE) && within(m, &what, "parsing: kept", kept, 0, 0, 4096);
    let mask = r.next() as u32 & ALL;
    let what = || format!("operations on {:?}", mask);
    let (_, peak, kept) = m.call(what, || {
        measure(|| {
            let mut s: UnicodeCategorySet = set_of(mask);
            s |= CATS[b % 30].2;
            s.remove(CATS[b % 29].2);
            black_box((s.iter().count(), s.to_string(), s.len(), CATS[b % 30].2.to_string(), VERSIONS[v].1.normalized_categories()));
        })
    })?;
    m.seen(Some(hash_of(&(b, n, v, mask))));
    m.sample(|| what());
    (ok && within(m, &what, "category sets: most in use", peak, 0, 0, 16 << 10) && within(m, &what, "category sets: kept", kept, 0, 0, 4096))
        .then_some(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut args: Vec<String> = [&args[0], "C18"].iter().map(|s| s.to_string()).chain(args[1..].iter().cloned()).collect();
    args.extend(["--threads".into(), "1".into()]);
    let sh = Shared::from_args(&args);
    install_hook();
    // What is set up once per version or category is set up before anything is measured.
    sh.par("warm-up", 11, |m, v, r| {
        for c in 0..=30 {
            let mut s = Spec::new(v as usize);
            s.inc = (c < 30).then(|| 1 << c);
            s.max = [None, Some(200), Some(70_000)][r.idx(3)];
            let _ = m.call(|| s.to_string(), || {
                if let Ok(set) = s.run_set() {
                    black_box((s.run().is_ok(), set.index_of(70u32), set.codepoint_at(3), set.iter().count()));
                }
                black_box(as_general_categories(["L", "Zs"], VERSIONS[s.v].1).is_ok());
            });
        }
    });
    sh.par("queries", sh.amount(60, 1500), |m, _, r| {
        let mut last = None;
        for i in 0..40 {
            if m.stopping() {
                return;
            }
            let s = gen::next(r, &last);
            if one(m, &s, r, i % 20 == 0).is_none() {
                return;
            }
            last = Some(s);
        }
    });
    // Much or little of the codespace in few intervals: memory must not tell.
    sh.par("wide", sh.amount(40, 600), |m, b, r| {
        for i in 0..6 {
            if m.stopping() {
                return;
            }
            let mut s = Spec::new(r.idx(11));
            match (b + i) % 6 {
                0 => {}
                1 => s.inc = Some(1 << r.below(30)),
                2 => s.exc = Some(1 << r.below(30)),
                3 => s.inc = Some(ALL),
                4 => (s.min, s.max) = (Some(r.range(0, 300)), Some(MAX - r.range(0, 300))),
                _ => s.inc = Some(r.next() as u32 & ALL),
            }
            if r.chance(30) {
                s.exc_chars = Some(gen::string(r, s.v, false, &[]));
            }
            if one(m, &s, r, true).is_none() {
                return;
            }
        }
    });
    let sizes: Vec<usize> = vec![100, 5000, 70_000, 250_000];
    sh.par("long", sh.amount(PATTERNS.len() as u64, 3 * (PATTERNS.len() * sizes.len()) as u64), |m, b, r| {
        let p = PATTERNS[b as usize % PATTERNS.len()];
        let n = if sh.amount(0, 1) == 0 { sizes[r.idx(sizes.len())] } else { sizes[b as usize / PATTERNS.len() % sizes.len()] + r.idx(500_000) };
        let v = r.idx(11);
        let text = pattern(p, n, 0);
        let other = pattern(r.pick(&PATTERNS), n / (1 + r.idx(8)), r.range(0, 1));
        let mut s = Spec::new(v);
        for how in 0..3 {
            match how {
                0 => s.inc_chars = Some(text.clone()),
                1 => s.exc_chars = Some(other.clone()),
                _ => s.inc_chars = None,
            }
            s.inc = [None, Some(0), Some(1 << r.below(30)), Some(r.next() as u32 & ALL)][r.idx(4)];
            let (lo, hi) = if r.chance(50) { gen::bounds(r, v) } else { (None, None) };
            (s.min, s.max) = (lo, hi);
            if m.stopping() || one(m, &s, r, n < 6000).is_none() {
                return;
            }
        }
    });
    sh.par("counted", sh.amount(20, 300), |m, b, r| {
        let counts = gen::counts();
        let n = counts[(b as usize * 7 + r.idx(7)) % counts.len()];
        let text = gen::counted(r, n);
        let mut s = Spec::new(r.idx(11));
        s.inc = Some(0);
        s.inc_chars = Some(text);
        let _ = one(m, &s, r, false);
    });
    sh.par("names", sh.amount(100, 1500), |m, b, r| {
        for i in 0..4 {
            if m.stopping() || names(m, b as usize * 4 + i, if i == 0 { 200_000 } else { 2000 }, r).is_none() {
                return;
            }
        }
    });
    // After many operations nothing more is in use than after some, but for what the monitors keep.
    sh.par("history", sh.amount(4, 40), |m, b, r| {
        let (_, _, kept) = measure(|| {
            for i in 0..4000u32 {
                let mut s = Spec::new(r.idx(11));
                s.min = Some(r.range(0, MAX / 2));
                s.max = Some(MAX - r.range(0, MAX / 2));
                s.inc_chars = Some(format!("{}{}", char::from_u32(r.range(0, 0xD7FF)).unwrap_or('a'), i));
                s.inc = r.chance(50).then(|| r.next() as u32 & ALL);
                let name = format!("{}-{}", r.next(), i);
                let done = m.call(|| s.to_string(), || {
                    if let Ok(set) = s.run_set() {
                        black_box((set.index_of(r.range(0, MAX)), set.iter().next_back()));
                    }
                    black_box(as_general_categories([&*name], VERSIONS[s.v].1).is_err());
                    black_box((name.parse::<UnicodeVersion>().is_err(), name.parse::<UnicodeCategory>().is_err()));
                });
                if done.is_none() || m.stopping() {
                    return;
                }
            }
        });
        m.seen_many(4000);
        let what = || format!("4000 different queries and names, block {b}");
        within(m, &what, "kept after histories", kept, 0, 0, 64 << 10);
    });
    for (kind, (share, used)) in MOST.lock().unwrap().iter() {
        eprintln!("most {share} {used} {kind}");
    }
    std::process::exit(sh.finish());
}
