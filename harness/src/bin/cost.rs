//! C17: what lookups and queries cost. Under callgrind, every call of `measured` is one measurement, and
//! `--labels FILE` names them in order; without it (`--native`), huge inputs only have to come back.
use harness::gen::{pattern as text, PATTERNS};
use harness::mon::{hash_of, install_hook, Shared};
use harness::names::{ALL, MAX};
use harness::rng::Rng;
use harness::spec::Spec;
use std::hint::black_box;
use unicode_intervals::{as_general_categories, IntervalSet, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

#[no_mangle]
#[inline(never)]
pub extern "C" fn measured(f: &mut &mut dyn FnMut()) {
    f();
    black_box(());
}

struct Log(String);
impl Log {
    fn run(&mut self, name: &str, n: usize, mut f: impl FnMut()) {
        self.0.push_str(&format!("{name} {n}\n"));
        let mut g: &mut dyn FnMut() = &mut f;
        measured(&mut g);
    }
}

/// How the strings of a query are placed.
pub const PLACES: [&str; 7] =
    ["include", "exclude", "both, equal", "both, interleaved", "include with tables", "around a window", "opposite"];

fn query(place: &str, pattern: &str, n: usize) -> Spec {
    let mut s = Spec::new(10);
    let latin = pattern.starts_with("Latin");
    if latin {
        s.max = Some(255);
    }
    match place {
        "include" => {
            s.inc = Some(0);
            s.inc_chars = Some(text(pattern, n, 0));
        }
        "exclude" => s.exc_chars = Some(text(pattern, n, 0)),
        "both, equal" => {
            s.inc_chars = Some(text(pattern, n, 0));
            s.exc_chars = Some(text(pattern, n, 0));
        }
        "both, interleaved" => {
            s.inc = Some(0);
            s.inc_chars = Some(text(pattern, n, 0));
            s.exc_chars = Some(text(pattern, n, u32::from(!latin)));
        }
        // The strings lie mostly outside the window.
        "around a window" => {
            s.inc = Some(ALL & !3);
            s.inc_chars = Some(text(pattern, n, 0));
            s.exc_chars = Some(text(pattern, n, u32::from(!latin) * 7));
            s.min = Some(if latin { 60 } else { 0x5000 });
            s.max = Some(if latin { 80 } else { 0x5100 });
        }
        // One string in order, the other by the pattern.
        "opposite" => {
            s.inc_chars = Some(text("descending", n, 0));
            s.exc_chars = Some(text(pattern, n, 1));
        }
        _ => {
            // All categories but one, one by one, and most of the codespace.
            s.exc = Some(1);
            s.inc_chars = Some(text(pattern, n, 0));
            s.exc_chars = Some(text("shuffled", n / 4, 3));
            s.min = Some(1);
        }
    }
    s
}

fn evaluate(s: &Spec) {
    black_box(black_box(s).run().expect("valid").len());
    black_box(black_box(s).run_set().expect("valid").len());
}

/// A set of `n` one-codepoint intervals.
fn sparse(n: usize) -> IntervalSet {
    let mut s = Spec::new(10);
    s.inc = Some(0);
    s.inc_chars = Some(text("ascending", n, 0));
    let set = s.run_set().expect("valid");
    assert_eq!(set.len(), n);
    set
}

/// Walking over a set: all of it, and only its ends.
fn walks(log: &mut Log, set: &IntervalSet, label: &str, n: usize) {
    log.run(&format!("all forwards, {label}"), n, || {
        black_box(black_box(set).iter().fold(0u32, |a, c| a ^ black_box(c)));
    });
    log.run(&format!("all backwards, {label}"), n, || {
        let mut i = set.iter();
        while let Some(c) = i.next_back() {
            black_box(c);
        }
    });
    log.run(&format!("all from both ends, {label}"), n, || {
        let mut i = set.into_iter();
        while let (Some(a), b) = (i.next(), i.next_back()) {
            black_box((a, b));
        }
        for _ in 0..1000 {
            black_box((i.next(), i.next_back()));
        }
    });
    // Up from the bottom, then down to there.
    log.run(&format!("half and half, {label}"), n, || {
        let mut i = set.iter();
        for _ in 0..set.len() / 2 {
            black_box(i.next());
        }
        while let Some(c) = i.next_back() {
            black_box(c);
        }
    });
    log.run(&format!("count and last, {label}"), n, || {
        black_box((set.iter().count(), set.iter().last(), set.iter().max(), set.iter().step_by(7).count()));
    });
    log.run(&format!("copied and shown, {label}"), n, || {
        let copy = black_box(set.clone());
        black_box(format!("{copy:?}").len());
    });
}

fn ends(log: &mut Log, set: &IntervalSet, n: usize) {
    log.run("the first codepoints", n, || {
        for _ in 0..REPEAT {
            black_box(set.iter().next());
            black_box(set.iter().take(3).count());
        }
    });
    log.run("the last codepoints", n, || {
        for _ in 0..REPEAT {
            black_box(set.iter().next_back());
            black_box(set.iter().rev().take(3).count());
        }
    });
}

/// Many category names, good and bad, and long ones.
fn lists(log: &mut Log, n: usize) {
    use std::str::FromStr;
    let abbreviations = ["Lu", "Nd", "Cc", "Cs", "Zs", "Pe", "So", "Mn", "Cn", "Co"];
    let classes = ["L", "M", "N", "P", "S", "Z", "C"];
    let many: [(&str, Vec<String>); 5] = [
        ("one name", vec!["Lu".into(); n]),
        ("names", (0..n).map(|i| abbreviations[i % 10].into()).collect()),
        ("classes", (0..n).map(|i| classes[i % 7].into()).collect()),
        ("unknown names", (0..n).map(|i| format!("X{i}")).collect()),
        ("the last unknown", (0..n).map(|i| if i + 1 == n { "Xx" } else { abbreviations[i * 3 % 10] }.into()).collect()),
    ];
    for (what, list) in &many {
        for v in [UnicodeVersion::V9_0_0, UnicodeVersion::latest()] {
            log.run(&format!("{what}, {v}"), n, || {
                let _ = black_box(as_general_categories(black_box(list), v));
            });
        }
        log.run(&format!("{what} one by one"), n, || {
            let mut set = UnicodeCategorySet::new();
            for x in list {
                if let Ok(c) = UnicodeCategory::from_str(black_box(x)) {
                    set.add(c);
                    set |= c;
                }
            }
            black_box(set);
        });
    }
    for (what, text) in [("x", "x".repeat(n)), ("Lu", "Lu".repeat(n)), ("blanks", " ".repeat(n) + "Lu"), ("zeros", "16.0.0".to_string() +
        &"0".repeat(n)), ("parts", "16.0.0".to_string() + &".0".repeat(n)), ("dots", ".".repeat(n)), ("wide", "\u{4e00}".repeat(n))]
    {
        log.run(&format!("a long text of {what}"), n, || {
            black_box(UnicodeCategory::from_str(black_box(&text)).is_ok());
            black_box(UnicodeVersion::from_str(black_box(&text)).is_ok());
            black_box(as_general_categories([black_box(&text)], UnicodeVersion::latest()).map_err(|e| e.to_string()).is_ok());
        });
    }
}

/// The same small operations after more and more different ones.
fn history(log: &mut Log, sizes: &[usize]) {
    use std::str::FromStr;
    let mut r = Rng::new(3, 3, 3);
    let version = |i: usize| UnicodeVersion::ALL[i % UnicodeVersion::ALL.len()];
    let mut done = 0;
    let set = unicode_intervals::query().include_categories(UnicodeCategory::Zs).interval_set().expect("valid");
    for n in sizes {
        while done < *n {
            done += 1;
            let x = r.below(0x1_0000) as u32;
            let c = char::from_u32(0x2_0000 + x).expect("a character");
            let s = format!("{c}{}", char::from_u32(0x5_0000 + done as u32).expect("a character"));
            let mut q = version(done).query();
            // Windows from one codepoint to most of them, and whether a category reaches into them.
            let wide = if r.chance(3) { 0x8000 } else { r.pick(&[0, 1, 5, 50, 300]) + r.below(9) as u32 };
            let category = |r: &mut Rng| *r.pick(&[UnicodeCategory::Zl, UnicodeCategory::Cs, UnicodeCategory::Lt, UnicodeCategory::Lu, UnicodeCategory::Cn]);
            if r.chance(60) {
                q = q.min_codepoint(x).max_codepoint(x + wide);
            } else if r.chance(60) {
                q = q.max_codepoint(wide + x % 900);
            } else {
                q = q.include_categories(UnicodeCategorySet::new());
            }
            if r.chance(40) {
                q = q.include_categories(category(&mut r));
            } else if r.chance(30) {
                q = q.exclude_categories(category(&mut r) | UnicodeCategory::L);
            }
            match done % 7 {
                0 => black_box(q.intervals().is_ok()),
                1 => black_box(q.include_characters(&s).intervals().is_ok()),
                2 => black_box(q.exclude_characters(&s).interval_set().is_ok()),
                3 => black_box(as_general_categories(["N", "Zs", &format!("Q{done}")], version(done)).is_ok()),
                4 => black_box(UnicodeVersion::from_str(&format!("{done}.0.0")).is_ok()),
                5 => black_box(q.include_characters(&s).exclude_characters(&s[..s.len() - 4]).interval_set().is_ok()),
                _ => black_box(q.min_codepoint(x + 1).max_codepoint(x).intervals().is_ok()),
            };
            black_box((set.contains(x), set.index_of(x * 3), set.index_above(x), set.codepoint_at(x % 30), version(done).normalized_categories().len()));
        }
        let v = UnicodeVersion::V12_0_0;
        // Of the same shape each time, but never the same: what is remembered of the last time does not help.
        let k = log.0.lines().count() as u32 / 10;
        let (first, second) = (char::from_u32(0xE100 + k).expect("private"), char::from_u32(0xE200 + 2 * k).expect("private"));
        let text: String = [first, second].iter().collect();
        let mut probe = |name: &str, f: &mut dyn FnMut()| {
            // The first call may do what later ones need not.
            f();
            f();
            log.run(name, *n, || (0..4).for_each(|_| f()));
        };
        probe("a small query", &mut || {
            black_box(v.query().include_categories(UnicodeCategory::Zl).max_codepoint(0x100 + k).intervals().is_ok());
        });
        probe("a query of nothing", &mut || {
            black_box(v.query().include_categories(UnicodeCategory::Cs).min_codepoint(0x3000 + k).max_codepoint(0x3010 + k).intervals().is_ok());
        });
        probe("a query by characters", &mut || {
            black_box(v.query().include_categories(UnicodeCategorySet::new()).include_characters(&text).intervals().is_ok());
        });
        probe("a query with excluded characters", &mut || {
            black_box(unicode_intervals::query().min_codepoint(0xE080 + k).max_codepoint(0xE300 + k).exclude_characters(&text).interval_set().is_ok());
        });
        probe("a reversed window", &mut || {
            black_box(v.query().min_codepoint(9 + k).max_codepoint(5 + k).intervals().is_ok());
        });
        probe("general categories", &mut || {
            black_box(as_general_categories(["N", ["Zs", "Zp", "Zl", "Cs", "Cc", "Co"][k as usize % 6]], v).is_ok());
        });
        let unknown = format!("Q{k:05}");
        probe("an unknown name", &mut || {
            black_box(as_general_categories([&unknown], v).map_err(|e| e.to_string()).is_ok());
        });
        let unknown = format!("15.2.{k}");
        probe("versions from text", &mut || {
            black_box((UnicodeVersion::from_str("15.1.0").is_ok(), UnicodeVersion::from_str(&unknown).is_ok()));
        });
        probe("normalised categories", &mut || {
            black_box((v.normalized_categories().len(), v.table().len()));
        });
        probe("lookups", &mut || {
            black_box((set.contains(0x3000 - k), set.index_of(0xA0u32), set.index_above(0x2003 + k), set.codepoint_at(9), set.iter().last()));
        });
    }
}

const REPEAT: u32 = 64;

fn lookups(log: &mut Log, set: &IntervalSet, label: usize) {
    let len = set.len() as u32;
    let at = |i: u32| set.iter().nth(i as usize).expect("in the set");
    // Where in the set: a linear scan is cheap at one end.
    for (place, i) in [("start", 0), ("quarter", len / 4), ("middle", len / 2), ("end", len - REPEAT - 1)] {
        let c = at(i);
        log.run(&format!("codepoint_at, {place}"), label, || {
            for k in 0..REPEAT {
                black_box(set.codepoint_at(black_box(i + k)));
            }
        });
        log.run(&format!("index_of, {place}"), label, || {
            for k in 0..REPEAT {
                black_box(set.index_of(black_box(c + k)));
            }
        });
        log.run(&format!("index_above, {place}"), label, || {
            for k in 0..REPEAT {
                black_box(set.index_above(black_box(c + k)));
            }
        });
        log.run(&format!("contains, {place}"), label, || {
            for k in 0..REPEAT {
                black_box(set.contains(black_box(c + k)));
            }
        });
    }
    for (place, c) in [("below", 0), ("above", MAX - REPEAT), ("outside", u32::MAX - REPEAT)] {
        log.run(&format!("all lookups {place}"), label, || {
            for k in 0..REPEAT {
                black_box(set.index_of(black_box(c + k)));
                black_box(set.index_above(black_box(c + k)));
                black_box(set.contains(black_box(c + k)));
                black_box(set.codepoint_at(black_box(len + c / 2 + k)));
            }
        });
    }
    log.run("len", label, || {
        for _ in 0..REPEAT {
            black_box(black_box(set).len());
            black_box(black_box(set).is_empty());
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1));
    let Some(labels) = get("--labels") else {
        let sh = Shared::from_args(&args);
        install_hook();
        let n = sh.amount(1_000_000, 8_000_000) as usize;
        sh.par("huge", (PATTERNS.len() * PLACES.len()) as u64, |m, b, _| {
            let (p, q) = (PATTERNS[b as usize % PATTERNS.len()], PLACES[b as usize / PATTERNS.len()]);
            let what = || format!("a query with {n} characters, {p}, in {q}");
            let s = query(q, p, n);
            let Some(Ok(list)) = m.call(&what, || s.run()) else { return };
            m.seen(Some(hash_of(&(p, q, n))));
            m.count("characters", (n + n) as u64);
            m.count("intervals returned", list.len() as u64);
            let Some(Ok(set)) = m.call(&what, || s.run_set()) else { return };
            let total = list.iter().map(|i| i.1 - i.0 + 1).sum::<u32>() as usize;
            if set.len() != total {
                m.fail(format!("{}: a set of {} codepoints, intervals of {total}", what(), set.len()));
            }
            m.sample(what);
        });
        std::process::exit(sh.finish());
    };
    let mut log = Log(String::new());
    let sizes: Vec<usize> = get("--sizes").expect("sizes").split(',').map(|x| x.parse().expect("size")).collect();
    match get("--scenario").expect("scenario").as_str() {
        "lookups" => {
            for n in sizes {
                lookups(&mut log, &sparse(n), n);
            }
        }
        // Few intervals, many codepoints.
        "dense" => {
            for n in sizes {
                let mut s = Spec::new(10);
                s.max = Some(n as u32 - 1);
                s.exc_chars = Some("\u{300}\u{310}\u{320}\u{330}".into());
                lookups(&mut log, &s.run_set().expect("valid"), n);
            }
        }
        "walks" => {
            for n in sizes {
                let set = sparse(n);
                walks(&mut log, &set, "many intervals", n);
                let mut s = Spec::new(10);
                s.max = Some(n as u32 - 1);
                s.exc_chars = Some("\u{300}\u{310}\u{320}\u{330}".into());
                walks(&mut log, &s.run_set().expect("valid"), "few intervals", n);
            }
        }
        "ends" => {
            for n in sizes {
                ends(&mut log, &sparse(n), n);
            }
        }
        "lists" => {
            for n in sizes {
                lists(&mut log, n);
            }
        }
        "history" => history(&mut log, &sizes),
        "tables alone" => {
            let mut s = Spec::new(10);
            s.exc = Some(1);
            s.min = Some(1);
            log.run("tables alone", 0, || evaluate(&s));
        }
        place => {
            let place = PLACES.iter().find(|p| **p == place).expect("place");
            for p in PATTERNS {
                for n in &sizes {
                    let s = query(place, p, *n);
                    log.run(&format!("{place}: {p}"), *n, || evaluate(&s));
                }
            }
        }
    }
    std::fs::write(labels, log.0).expect("labels");
}
