//! Operations over the whole public API as values, with results folded to digests. Nothing here
//! touches golden data, so it also runs under Miri.
use crate::gen::EDGES;
use crate::mon::guard;
use crate::names::{set_of, ALL, CATS, MAX, VERSIONS};
use crate::rng::{mix, Rng};
use crate::spec::Spec;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::Relaxed};
use unicode_intervals::{as_general_categories, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

pub fn point(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 | 1 => *r.pick(&EDGES),
        2 => r.range(0, 400),
        3 => (*r.pick(&EDGES)).saturating_sub(2) + r.range(0, 4),
        4 => r.range(0, MAX) >> r.below(12),
        _ => r.range(0, MAX),
    }
    .min(MAX)
}

fn character(r: &mut Rng) -> char {
    char::from_u32(point(r)).unwrap_or('\u{D7FF}')
}

pub fn text(r: &mut Rng, latin: bool, max: usize, long: bool) -> String {
    let most = (max << r.below(6)).min(4000);
    let n = match r.below(4) {
        _ if long => max / 2 + r.idx(most),
        0 => 0,
        1 => r.idx(3),
        2 => r.idx(12),
        _ => r.idx(max),
    };
    let base = character(r) as u32;
    let style = r.below(4);
    (0..n as u32)
        .map(|i| match (latin, style) {
            (true, _) => char::from_u32(r.range(0, 255)).unwrap(),
            (_, 0) => char::from_u32(base.saturating_add(i) % (MAX + 1)).unwrap_or('\u{E000}'),
            (_, 1) => char::from_u32(base.saturating_sub(2 * i)).unwrap_or('\u{D7FF}'),
            _ => character(r),
        })
        .collect()
}

/// Stay with categories of few intervals and low bounds, for slow interpreters.
pub static LIGHT: AtomicBool = AtomicBool::new(false);
static FEW: AtomicU32 = AtomicU32::new(0);

pub fn light() {
    let few = ["Zl", "Zp", "Zs", "Cc", "Cs", "Co", "Pc", "Pi", "Pf"];
    FEW.store((0..30).filter(|i| few.contains(&CATS[*i].0)).fold(0, |m, i| m | 1 << i), Relaxed);
    LIGHT.store(true, Relaxed);
}

fn mask(r: &mut Rng) -> u32 {
    if LIGHT.load(Relaxed) {
        return (r.next() & r.next()) as u32 & FEW.load(Relaxed);
    }
    match r.below(6) {
        0 => 0,
        1 => ALL,
        2 | 3 => 1 << r.below(30),
        4 => ALL & !(1 << r.below(30)),
        _ => r.next() as u32 & ALL,
    }
}

/// Any specification, valid or (rarely) not.
pub fn spec(r: &mut Rng, max_text: usize) -> Spec {
    let mut s = Spec::new(r.idx(11));
    if r.chance(70) || LIGHT.load(Relaxed) {
        s.inc = Some(mask(r));
    }
    if r.chance(40) {
        s.exc = Some(mask(r));
    }
    let latin = r.chance(35);
    let light = LIGHT.load(Relaxed);
    // Now and then both texts are long.
    let long = !light && r.chance(5);
    if long || r.chance(50) {
        s.inc_chars = Some(text(r, latin, max_text, long));
    }
    if long || r.chance(50) {
        s.exc_chars = Some(text(r, latin, max_text, long));
    }
    if latin || r.chance(60) {
        let (a, b) = if latin { (r.range(0, 255), r.range(0, 255)) } else { (point(r), point(r)) };
        if r.chance(80) {
            s.min = Some(a.min(b));
        }
        if latin || light || r.chance(80) {
            s.max = Some(a.max(b));
        }
    }
    if r.chance(4) {
        s.min = Some(*r.pick(&[MAX + 1, u32::MAX, 0x8000_0000, 7]));
    }
    if r.chance(4) {
        s.max = Some(*r.pick(&[MAX + 1, u32::MAX, 0x8000_0000, 3]));
    }
    s
}

#[derive(Clone, Copy)]
pub struct Digest(pub u64);
impl Digest {
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x).rotate_left(17);
    }
    pub fn text(&mut self, s: &str) {
        self.add(s.len() as u64);
        for b in s.bytes() {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
    }
}

/// A writer that takes so much and then fails, as a full pipe does.
struct Few(usize);
impl std::fmt::Write for Few {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

/// Print for debugging, both ways. Only that it can be done matters.
/// The digest so far, the same in every build, picks one in so many.
fn show(d: &Digest, one_in: u64, x: &impl std::fmt::Debug) {
    use std::fmt::Write;
    let light = LIGHT.load(Relaxed);
    let one_in = if light { one_in * 4 } else { one_in };
    if d.0 % one_in != 0 {
        return;
    }
    let room = if light { 100 } else { 500 };
    let _ = write!(Few(room), "{x:?}");
    if d.0 % 4 == 0 {
        let _ = write!(Few(room), "{x:#?}");
        let _ = write!(Few(9), "{x:?}");
    }
}

/// Print with what formats allow; padding is the formatter's affair.
fn display(d: &Digest, x: &impl std::fmt::Display) {
    use std::fmt::Write;
    if d.0 % if LIGHT.load(Relaxed) { 30 } else { 7 } != 0 {
        return;
    }
    let _ = write!(Few(500), "{x:>40}{x:<3}{x:^9.2}{x:+}{x:#}{x:05}");
    let _ = write!(Few(1), "{x}");
}

fn failure(d: &mut Digest, e: &unicode_intervals::Error) {
    // How std escapes text is not the crate's doing.
    show(d, 1, e);
    display(d, e);
    let e: &dyn std::error::Error = e;
    d.add(u64::from(e.source().is_some()));
    d.text(&e.to_string());
}

/// One operation, chosen and parameterised by `r`; everything it returns goes into the digest.
/// `Err` carries the panic message.
pub fn operation(r: &mut Rng, d: &mut Digest, max_text: usize, label: &mut String) -> Result<(), String> {
    let kind = r.below(16);
    let light = LIGHT.load(Relaxed);
    let mut run = |what: &dyn Fn() -> String, f: &mut dyn FnMut(&mut Digest)| {
        label.clear();
        if !light {
            label.push_str(&what());
        }
        let result = guard(|| f(d));
        if light && result.is_err() {
            label.push_str(&what());
        }
        result
    };
    match kind {
        0..=5 => {
            let s = spec(r, max_text);
            run(&|| s.to_string(), &mut |d| match s.run() {
                Ok(list) => {
                    d.add(list.len() as u64);
                    for (a, b) in list {
                        d.add(u64::from(a) << 32 | u64::from(b));
                    }
                }
                Err(e) => failure(d, &e),
            })
        }
        6..=9 => {
            let s = spec(r, max_text);
            let probes: Vec<u32> = (0..24)
                .map(|i| match i % 4 {
                    0 => point(r),
                    1 => r.next() as u32,
                    2 => *r.pick(&[0, 1, MAX, MAX + 1, u32::MAX, u32::MAX - 1, 0x8000_0000]),
                    _ => r.range(0, 2000),
                })
                .collect();
            let jumps: Vec<usize> = (0..12).map(|_| r.idx(9) * r.idx(9)).collect();
            run(&|| format!("lookups and iteration over the set of {s}"), &mut |d| {
                let Ok(set) = s.run_set() else { return };
                let set = if probes[0] % 2 == 0 {
                    let other = unicode_intervals::query().max_codepoint(probes[1] % 300).interval_set();
                    let mut place = other.unwrap_or_else(|_| set.clone());
                    place.clone_from(&set);
                    place
                } else {
                    set.clone()
                };
                show(d, 5, &set);
                d.add(set.len() as u64 * 2 + u64::from(set.is_empty()));
                for p in &probes {
                    d.add(u64::from(set.index_above(*p)));
                    d.add(set.index_of(*p).map_or(u64::MAX, u64::from));
                    d.add(set.codepoint_at(*p).map_or(u64::MAX, u64::from));
                    d.add(u64::from(set.contains(*p)));
                    d.add(u64::from(set.contains((*p & 0xff) as u8)));
                    if let Some(c) = char::from_u32(*p) {
                        d.add(u64::from(set.index_above(c)));
                    }
                }
                let mut it = set.iter();
                for (i, j) in jumps.iter().enumerate() {
                    let x = match i % 4 {
                        0 => it.next(),
                        1 => it.next_back(),
                        2 => it.nth(*j),
                        _ => it.nth_back(*j),
                    };
                    d.add(x.map_or(u64::MAX, u64::from));
                    // A hint may be any true bound; only calling it matters.
                    let _ = it.size_hint();
                    show(d, 25, &it);
                }
                let n = it.clone().take(200).fold(0u64, |a, c| a.wrapping_mul(31) + u64::from(c));
                d.add(n);
                d.add(it.rev().take(200).fold(0u64, |a, c| a.wrapping_mul(31).wrapping_add(u64::from(c))));
                // Small ones to the end, by every way to end.
                if set.len() <= 300 {
                    let all = set.iter();
                    let ends = [all.clone().last(), all.clone().min(), all.clone().max(), all.clone().next_back()];
                    ends.iter().for_each(|e| d.add(e.map_or(u64::MAX, u64::from)));
                    d.add(all.clone().count() as u64);
                    let (mut front, mut back) = (all.clone(), all);
                    front.by_ref().for_each(|c| d.add(u64::from(c)));
                    while let Some(c) = back.next_back() {
                        d.add(u64::from(c));
                    }
                    for mut it in [front, back] {
                        show(d, 2, &it);
                        let rest = (it.next(), it.next_back(), it.nth(3), it.nth_back(usize::MAX), it.clone().count(), it.size_hint().0);
                        d.add(u64::from(rest == (None, None, None, None, 0, 0)));
                    }
                }
                // Skips far beyond the end.
                if set.len() <= if light { 300 } else { 5000 } {
                    let mut far = set.iter();
                    d.add(far.nth(usize::MAX).map_or(u64::MAX, u64::from));
                    show(d, 3, &far);
                }
            })
        }
        10 => {
            let s = spec(r, max_text);
            let t = spec(r, max_text);
            run(&|| format!("comparing and printing {s} and {t}"), &mut |d| {
                let (a, b) = (s.query(), t.query());
                d.add(u64::from(a == b) + 2 * u64::from(a == a.clone()));
                show(d, 1, &a);
                show(d, 2, &b);
            })
        }
        11 => {
            let ver = VERSIONS[r.idx(11)].1;
            let bad = text(r, false, 20, false);
            let names: Vec<String> = (0..r.idx(12))
                .map(|_| match r.below(12) {
                    0 => bad.clone(),
                    1..=3 => ["L", "M", "N", "P", "S", "Z", "C"][r.idx(7)].to_string(),
                    _ => CATS[r.idx(30)].0.to_string(),
                })
                .collect();
            run(&|| format!("as_general_categories({names:?}, {ver})"), &mut |d| {
                match as_general_categories(&names, ver) {
                    Ok(l) => l.iter().for_each(|c| d.text(c.as_str())),
                    Err(e) => failure(d, &e),
                }
            })
        }
        12 => {
            let s = if r.chance(50) { CATS[r.idx(30)].0.to_string() } else { text(r, false, 12, false) };
            let v = if r.chance(50) { VERSIONS[r.idx(11)].0.to_string() } else { text(r, false, 12, false) };
            run(&|| format!("parsing {s:?} and {v:?}"), &mut |d| {
                match s.parse::<UnicodeCategory>() {
                    Ok(c) => d.text(&c.to_string()),
                    Err(e) => failure(d, &e),
                }
                match v.parse::<UnicodeVersion>() {
                    Ok(c) => d.text(&c.to_string()),
                    Err(e) => failure(d, &e),
                }
            })
        }
        13 | 14 => {
            let ops: Vec<(u64, usize, u32)> = (0..10).map(|_| (r.below(6), r.idx(30), mask(r))).collect();
            run(&|| format!("category set operations {ops:?}"), &mut |d| {
                let mut s = set_of(ops[0].2);
                for (op, i, m) in &ops {
                    let c = CATS[*i].2;
                    match op {
                        0 => s.add(c),
                        1 => s.remove(c),
                        2 => s = s | c,
                        3 => s = c | s,
                        4 => s |= set_of(*m),
                        _ => s |= c,
                    }
                    d.add(s.len() as u64 * 4 + u64::from(s.is_empty()) * 2 + u64::from(s.contains(c)));
                    d.text(&s.to_string());
                    show(d, 9, &s);
                    display(d, &s);
                    d.add(u64::from(s == set_of(*m)) + 2 * u64::from(UnicodeCategorySet::default() == s));
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    std::hash::Hash::hash(&s, &mut h);
                    let mut it = s.iter();
                    while let Some(c) = it.next() {
                        show(d, 40, &it);
                        d.text(c.as_str());
                        d.add(it.len() as u64);
                        d.add(it.size_hint().0 as u64);
                    }
                    d.add(u64::from(it.next().is_some()));
                    show(d, 6, &it);
                    d.add(s.iter().peekable().len() as u64);
                    d.add(s.iter().count() as u64);
                    d.add(s.iter().skip(*i).step_by(3).map(|c| c as u64).sum::<u64>());
                    let (a, b, n) = (s.iter().last(), s.iter().nth(*i), s.iter().nth(usize::MAX));
                    [a, b, n].iter().for_each(|c| d.text(c.map_or("none", UnicodeCategory::as_str)));
                }
            })
        }
        _ => {
            let (v, c) = (VERSIONS[r.idx(11)].1, CATS[r.idx(30)].2);
            run(&|| format!("table of {v}, {c}"), &mut |d| {
                d.add(v.table().len() as u64);
                let l = v.intervals_for(c);
                d.add(l.len() as u64);
                if let (Some(a), Some(b)) = (l.first(), l.last()) {
                    d.add(u64::from(a.0) << 32 | u64::from(b.1));
                }
                for c in v.normalized_categories() {
                    d.text(c.as_str());
                }
                d.text(v.as_str());
                show(d, 2, &v);
                show(d, 2, &c);
                display(d, &v);
                display(d, &c);
                let mut h = std::collections::hash_map::DefaultHasher::new();
                std::hash::Hash::hash(&(v, c), &mut h);
            })
        }
    }
}
