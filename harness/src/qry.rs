//! C01-C04: queries.
use crate::bitmap::Bits;
use crate::gen;
use crate::golden;
use crate::mon::{hash_of, Mon, Shared};
use crate::names::{set_of, ALL, CATS, MAX, VERSIONS};
use crate::rng::Rng;
use crate::spec::{short, Spec};
use std::collections::HashMap;
use unicode_intervals::{Error, Interval, IntervalQuery, UnicodeCategorySet};

pub struct Scratch {
    pub want: Bits,
    pub got: Bits,
}

impl Default for Scratch {
    fn default() -> Self {
        Scratch { want: Bits::new(), got: Bits::new() }
    }
}

/// Fill `b` with what the intervals cover; an interval that leaves the codespace is reported.
pub fn cover(b: &mut Bits, list: &[Interval]) -> Option<Interval> {
    b.clear();
    for (l, r) in list {
        if *r > MAX || *l > MAX {
            return Some((*l, *r));
        }
        if l <= r {
            b.fill(*l, *r);
        }
    }
    None
}

/// First way in which the list is not canonical.
pub fn not_canonical(list: &[Interval]) -> Option<String> {
    for (i, (l, r)) in list.iter().enumerate() {
        if l > r {
            return Some(format!("interval {i} ({l}, {r}) is inverted"));
        }
        if *r > MAX {
            return Some(format!("interval {i} ({l}, {r}) leaves the codespace"));
        }
        if i > 0 {
            let p = list[i - 1];
            if u64::from(*l) <= u64::from(p.1) + 1 {
                return Some(format!("interval {i} ({l}, {r}) overlaps, touches or precedes {p:?}"));
            }
        }
    }
    None
}

/// Membership of one result against the model.
fn check_membership(m: &mut Mon, s: &Spec, res: Result<Vec<Interval>, Error>, x: &mut Scratch) -> u32 {
    s.model(&mut x.want);
    match res {
        Err(e) => {
            m.fail(format!("valid query failed with {e:?}: {s}"));
            0
        }
        Ok(list) => {
            if let Some(bad) = cover(&mut x.got, &list) {
                m.fail(format!("interval {bad:?} covers values that are not codepoints: {s}"));
            } else if let Some(c) = x.want.first_difference(&x.got) {
                m.fail(format!(
                    "codepoint U+{c:04X} is {}covered but should {}be: {s}; result {}",
                    if x.got.get(c) { "" } else { "not " },
                    if x.got.get(c) { "not " } else { "" },
                    short(&list)
                ));
            }
            x.want.count()
        }
    }
}

fn clip(list: &[Interval], lo: u32, hi: u32) -> Vec<Interval> {
    list.iter().filter(|i| i.1 >= lo && i.0 <= hi).map(|i| (i.0.max(lo), i.1.min(hi))).collect()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Membership,
    Form,
}

/// Judge one result given the expected canonical list.
fn judge(m: &mut Mon, s: &Spec, want: &[Interval], res: &Result<Vec<Interval>, Error>, w: Want) {
    match res {
        Ok(list) if w == Want::Membership && list == want => {}
        Ok(list) if w == Want::Membership => {
            let (mut a, mut b) = (Bits::new(), Bits::new());
            cover(&mut a, want);
            if let Some(bad) = cover(&mut b, list) {
                m.fail(format!("interval {bad:?} covers values that are not codepoints: {s}"));
            } else if let Some(c) = a.first_difference(&b) {
                m.fail(format!(
                    "codepoint U+{c:04X} is {}covered but should {}be: {s}; result {}",
                    if b.get(c) { "" } else { "not " },
                    if b.get(c) { "not " } else { "" },
                    short(list)
                ));
            }
        }
        Ok(list) => {
            if let Some(why) = not_canonical(list) {
                m.fail(format!("{why}: {s}; result {}", short(list)));
            }
        }
        Err(e) => {
            // Whether a valid query may fail is C01's and C03's business.
            if w == Want::Membership {
                m.fail(format!("valid query failed with {e:?}: {s}"));
            }
        }
    }
}

fn latin_mask(b: &[Interval]) -> [u64; 4] {
    let mut m = [0u64; 4];
    for (l, r) in b {
        let mut c = *l;
        while c <= *r && c < 256 {
            m[(c / 64) as usize] |= 1 << (c % 64);
            c += 1;
        }
    }
    m
}

/// Everything about small ranges: all windows below 256 for every version and category, included,
/// excluded, and with a far character that rules out any small-range shortcut.
fn small_ranges(sh: &Shared, w: Want) {
    sh.par("small-ranges", 11 * 30, |m, b, _| {
        let (v, c) = ((b / 30) as usize, (b % 30) as usize);
        let g = &golden::all()[v];
        let inside = latin_mask(&g.by_cat[c]);
        let (set, other) = (set_of(1 << c), set_of(ALL & !(1 << c)));
        let q0 = VERSIONS[v].1.query();
        for variant in 0..5 {
            let base = match variant {
                0 => q0.clone().include_categories(set),
                1 => q0.clone().exclude_categories(set),
                2 => q0.clone().include_categories(set).exclude_characters("\u{2603}"),
                3 => q0.clone().exclude_categories(set).exclude_characters("\u{2603}"),
                _ => q0.clone().include_categories(set).exclude_categories(other).include_characters(""),
            };
            for hi in 0..256u32 {
                let q1 = base.clone().max_codepoint(hi);
                for lo in 0..=hi {
                    let q = q1.clone().min_codepoint(lo);
                    let desc = || {
                        format!("query {} variant {variant} category {} min={lo} max={hi}", VERSIONS[v].0, CATS[c].0)
                    };
                    let Some(r) = m.call(desc, || q.intervals()) else { return };
                    let list = match r {
                        Ok(l) => l,
                        Err(e) => {
                            if w == Want::Membership {
                                m.fail(format!("valid query failed with {e:?}: {}", desc()));
                            }
                            return;
                        }
                    };
                    if w == Want::Form {
                        if let Some(why) = not_canonical(&list) {
                            m.fail(format!("{why}: {}; result {}", desc(), short(&list)));
                            return;
                        }
                        continue;
                    }
                    let mut got = [0u64; 4];
                    for (l, r) in &list {
                        if *r > 255 {
                            m.fail(format!("{}: result {list:?} leaves the range", desc()));
                            return;
                        }
                        for cp in *l..=*r {
                            got[(cp / 64) as usize] |= 1 << (cp % 64);
                        }
                    }
                    for word in 0..4u32 {
                        let mut x = if variant == 1 || variant == 3 {
                            !inside[word as usize]
                        } else {
                            inside[word as usize]
                        };
                        let base = word * 64;
                        if lo > base {
                            x &= if lo - base > 63 { 0 } else { !0 << (lo - base) };
                        }
                        if hi < base + 63 {
                            x &= if hi < base { 0 } else { !0 >> (63 - (hi - base)) };
                        }
                        if x != got[word as usize] {
                            m.fail(format!("wrong membership below 256: {}: result {list:?}", desc()));
                            return;
                        }
                    }
                }
            }
            m.seen_many(256 * 257 / 2);
            m.count("windows below 256", 256 * 257 / 2);
            m.seen(Some(hash_of(&("small", b, variant))));
        }
    });
    // One Latin-1 character at a time, in and out of the window and category.
    sh.par("small-chars", 11 * 30, |m, b, r| {
        let (v, c) = ((b / 30) as usize, (b % 30) as usize);
        for cp in 0..256u32 {
            let mut s = Spec::new(v);
            let ch = char::from_u32(cp).unwrap().to_string();
            s.inc = Some(1 << c);
            let (a, z) = (r.range(0, 255), r.range(0, 255));
            s.min = Some(a.min(z));
            s.max = Some(a.max(z));
            match r.below(4) {
                0 => s.exc = Some(r.next() as u32 & ALL),
                1 => s.inc = None,
                _ => {}
            }
            for k in 0..3 {
                let mut t = s.clone();
                if k != 1 {
                    t.inc_chars = Some(ch.clone());
                }
                if k != 0 {
                    t.exc_chars = Some(ch.clone());
                }
                one(m, &t, w, &mut Scratch256);
            }
        }
    });
}

/// Marker: compare below 256 only (cheap).
struct Scratch256;

fn one(m: &mut Mon, s: &Spec, w: Want, _x: &mut Scratch256) {
    let Some(res) = m.call(|| s.to_string(), || s.run()) else { return };
    m.seen(Some(s.hash64()));
    let g = &golden::all()[s.v];
    let sel = s.selected();
    let mut bits = [false; 256];
    for run in &g.runs {
        if run.lo > s.hi() {
            break;
        }
        if sel >> run.cat & 1 != 0 {
            for cp in run.lo.max(s.lo())..=run.hi.min(s.hi()).min(255) {
                bits[cp as usize] = true;
            }
        }
    }
    for c in s.inc_chars.iter().flat_map(|s| s.chars()) {
        bits[c as usize] = true;
    }
    for c in s.exc_chars.iter().flat_map(|s| s.chars()) {
        bits[c as usize] = false;
    }
    let mut want: Vec<Interval> = Vec::new();
    for cp in 0..256u32 {
        if bits[cp as usize] {
            match want.last_mut() {
                Some(l) if l.1 + 1 == cp => l.1 = cp,
                _ => want.push((cp, cp)),
            }
        }
    }
    judge(m, s, &want, &res, w);
}

/// Windows around every edge of every category of every version.
fn edges(sh: &Shared, w: Want) {
    sh.par("edges", 11 * 30, |m, b, r| {
        let (v, c) = ((b / 30) as usize, (b % 30) as usize);
        let g = &golden::all()[v];
        let own = &g.by_cat[c];
        let mut points: Vec<u32> = gen::EDGES.to_vec();
        for (l, h) in own {
            for p in [l.wrapping_sub(1), *l, *h, h + 1] {
                if p <= MAX {
                    points.push(p);
                }
            }
        }
        points.sort_unstable();
        points.dedup();
        let cat = CATS[c].2;
        for (i, p) in points.iter().enumerate() {
            if m.stopping() {
                return;
            }
            let mut windows = vec![(*p, *p), (0, *p), (*p, MAX)];
            for k in [1, 2, 3, 5, 9] {
                if let Some(q) = points.get(i + k) {
                    windows.push((*p, *q));
                }
            }
            windows.push((*p, r.range(*p, MAX)));
            for (lo, hi) in windows {
                let mut s = Spec::new(v);
                s.inc = Some(1 << c);
                s.min = Some(lo);
                s.max = Some(hi);
                let Some(res) = m.call(|| s.to_string(), || {
                    VERSIONS[v].1.query().include_categories(cat).min_codepoint(lo).max_codepoint(hi).intervals()
                }) else {
                    return;
                };
                m.seen(Some(s.hash64()));
                judge(m, &s, &clip(own, lo, hi), &res, w);
            }
        }
        m.count("edge windows", points.len() as u64 * 8);
        m.sample(|| format!("query {} category {} around {} edges", VERSIONS[v].0, CATS[c].0, points.len()));
    });
}

/// Every combination of one, two and three categories over the whole codespace, included and as the
/// complement of what is excluded.
fn combinations(sh: &Shared, w: Want) {
    sh.par("combinations", 11 * 30, |m, b, r| {
        let (v, a) = ((b / 30) as usize, (b % 30) as u32);
        let mut x = Scratch::default();
        for c in a..30 {
            for d in c..30 {
                if m.stopping() {
                    return;
                }
                // All singles and pairs; every triple in the thorough tier and a third otherwise.
                if a != c && c != d && !sh.thorough && r.below(3) != 0 {
                    continue;
                }
                let mask = 1 << a | 1 << c | 1 << d;
                for variant in 0..2 {
                    let mut s = Spec::new(v);
                    if variant == 0 {
                        s.inc = Some(mask);
                    } else {
                        s.exc = Some(mask);
                    }
                    run_one(m, &s, w, &mut x);
                }
            }
        }
    });
}

fn run_one(m: &mut Mon, s: &Spec, w: Want, x: &mut Scratch) -> Option<Vec<Interval>> {
    let res = m.call(|| s.to_string(), || s.run())?;
    m.seen(Some(s.hash64()));
    match w {
        Want::Membership => {
            let keep = res.as_ref().ok().cloned();
            let n = check_membership(m, s, res, x);
            m.class(match n {
                0 => "empty results",
                1 => "single codepoint results",
                2..=255 => "results of 2-255 codepoints",
                256..=0x10_FFFF => "results of 256-1114111 codepoints",
                _ => "whole codespace results",
            });
            m.sample(|| format!("{s} -> {n} codepoints"));
            keep
        }
        Want::Form => {
            judge(m, s, &[], &res, w);
            m.sample(|| format!("{s} -> {}", res.as_ref().map_or("error".into(), |l| short(l))));
            res.ok()
        }
    }
}

/// Every character alone, included and excluded.
fn every_character(sh: &Shared, w: Want) {
    let step = 0x1000;
    sh.par("every-character", u64::from(0x11_0000 / step), |m, b, r| {
        for cp in b as u32 * step..(b as u32 + 1) * step {
            let Some(c) = char::from_u32(cp) else { continue };
            if m.stopping() {
                return;
            }
            let v = r.idx(11);
            let text = c.to_string();
            let mut s = Spec::new(v);
            s.inc = Some(0);
            s.inc_chars = Some(text.clone());
            let Some(res) = m.call(|| s.to_string(), || s.run()) else { return };
            m.seen(None);
            judge(m, &s, &[(cp, cp)], &res, w);
            let mut s = Spec::new(v);
            s.exc_chars = Some(text);
            let lo = cp.saturating_sub(r.range(0, 40));
            let hi = (cp + r.range(0, 40)).min(MAX);
            let (mut wl, mut wh) = (0, MAX);
            if r.chance(50) {
                s.min = Some(lo);
                s.max = Some(hi);
                (wl, wh) = (lo, hi);
            }
            let mut want = Vec::new();
            if cp > wl {
                want.push((wl, cp - 1));
            }
            if cp < wh {
                want.push((cp + 1, wh));
            }
            let Some(res) = m.call(|| s.to_string(), || s.run()) else { return };
            m.seen(None);
            judge(m, &s, &want, &res, w);
        }
        m.seen(Some(hash_of(&("char", b))));
        m.count("characters tried alone", u64::from(step));
    });
}

/// Results with chosen numbers of intervals, around those at which implementations count or divide.
fn counted(sh: &Shared, w: Want) {
    let counts = gen::counts();
    sh.par("counted", counts.len() as u64 * sh.amount(1, 10), |m, b, r| {
        let mut x = Scratch::default();
        let n = counts[b as usize % counts.len()];
        for way in 0..5 {
            if m.stopping() {
                return;
            }
            let mut s = Spec::new(r.idx(11));
            let text = gen::counted(r, n);
            match way {
                // Included, alone and among what categories give.
                0 => s.inc = Some(0),
                1 => s.inc = Some(gen::mask(r, s.v)),
                // Excluded from everything, and from a part.
                2 | 3 => {
                    if way == 3 {
                        s.inc = Some(gen::mask(r, s.v));
                        s.max = Some(r.range(0x1_0000, MAX));
                    }
                    s.exc_chars = Some(text);
                    if !judged(m, &s, w, &mut x) {
                        return;
                    }
                    continue;
                }
                // Excluded from included ones.
                _ => {
                    s.inc = Some(0);
                    s.exc_chars = Some(gen::counted(r, 1 + n / 2));
                }
            }
            s.inc_chars = Some(text);
            if !judged(m, &s, w, &mut x) {
                return;
            }
        }
    });
}

fn judged(m: &mut Mon, s: &Spec, w: Want, x: &mut Scratch) -> bool {
    m.class("queries with a chosen number of intervals");
    run_one(m, s, w, x).is_some()
}

/// Very long strings.
fn huge_strings(sh: &Shared, w: Want) {
    sh.par("huge-strings", sh.amount(20, 100), |m, b, r| {
        let mut x = Scratch::default();
        let mut s = gen::spec(r);
        let n = [20_000, 65_536, 70_000, 300_000][r.idx(4)];
        let step = r.range(1, 3);
        let start = r.range(0, 0x4_0000);
        let mut cs: Vec<char> =
            (0..n).filter_map(|i| char::from_u32((start + i * step) % (MAX + 1))).collect();
        match b % 4 {
            0 => {}
            1 => cs.reverse(),
            2 => r.shuffle(&mut cs),
            _ => cs.extend(cs.clone()),
        }
        if b % 5 == 4 {
            // One character, very often, and another once.
            let (c, d) = (cs[0], cs[1]);
            cs.fill(c);
            let at = r.idx(cs.len());
            cs[at] = d;
        }
        let text: String = cs.into_iter().collect();
        if b % 5 == 3 {
            // Both strings are huge, and nearly the same.
            let k = r.idx(text.chars().count());
            let other: String = text.chars().skip(k).chain(text.chars().take(k / 2)).collect();
            s.inc_chars = Some(text);
            s.exc_chars = Some(other);
        } else if b % 2 == 0 {
            s.inc_chars = Some(text);
        } else {
            s.exc_chars = Some(text);
        }
        m.class("strings of 20000 and more characters");
        run_one(m, &s, w, &mut x);
    });
}

fn random(sh: &Shared, w: Want, blocks: u64, f: impl Fn(&mut Mon, &Spec, Vec<Interval>, &mut Rng, &mut Scratch) + Sync) {
    sh.par("random", blocks, |m, _, r| {
        let mut x = Scratch::default();
        let mut last = None;
        for _ in 0..128 {
            if m.stopping() {
                return;
            }
            let s = gen::next(r, &last);
            describe(m, &s);
            if let Some(list) = run_one(m, &s, w, &mut x) {
                f(m, &s, list, r, &mut x);
            }
            last = Some(s);
        }
    });
}

fn describe(m: &mut Mon, s: &Spec) {
    let latin = |t: &Option<String>| t.as_ref().is_none_or(|t| t.chars().all(|c| (c as u32) < 256));
    let full = s.lo() == 0 && s.hi() == MAX;
    m.class(if s.hi() < 256 && latin(&s.inc_chars) && latin(&s.exc_chars) {
        "queries below 256 with Latin-1 characters"
    } else if s.hi() < 256 {
        "queries below 256 with other characters"
    } else if full {
        "queries over the whole codespace"
    } else {
        "queries over part of the codespace"
    });
    m.class(match s.selected().count_ones() {
        0 => "no category selected",
        1 => "one category selected",
        30 => "all categories selected",
        _ => "2-29 categories selected",
    });
    for t in [&s.inc_chars, &s.exc_chars].into_iter().flatten() {
        m.class(match t.chars().take(65).count() {
            0 => "empty strings",
            1..=8 => "strings of 1-8 characters",
            9..=64 => "strings of 9-64 characters",
            _ => "strings of 65 and more characters",
        });
    }
}

pub fn c01(sh: &Shared) {
    let w = Want::Membership;
    small_ranges(sh, w);
    edges(sh, w);
    combinations(sh, w);
    every_character(sh, w);
    counted(sh, w);
    huge_strings(sh, w);
    random(sh, w, sh.amount(4000, 160_000), |_, _, _, _, _| {});
}

/// Another way to write the same query.
pub fn equivalent(r: &mut Rng, s: &Spec, model: &Bits) -> Spec {
    let mut t = s.clone();
    let sel = s.selected();
    match r.below(5) {
        0 => {
            t.inc = Some(sel);
            t.exc = None;
        }
        1 => {
            t.inc = None;
            t.exc = Some(ALL & !sel);
        }
        2 => {
            // Exclude what was not included anyway; include what is excluded anyway.
            t.inc = Some(s.inc.unwrap_or(ALL) | (s.exc.unwrap_or(0) & r.next() as u32));
            t.exc = Some(s.exc.unwrap_or(0) | (ALL & !s.inc.unwrap_or(ALL) & r.next() as u32));
        }
        3 => {
            t.inc = Some(s.inc.unwrap_or(ALL));
            t.exc = Some(s.exc.unwrap_or(0));
        }
        _ => {}
    }
    for which in 0..2 {
        let text = if which == 0 { &s.inc_chars } else { &s.exc_chars };
        let mut cs: Vec<char> = text.iter().flat_map(|t| t.chars()).collect();
        match r.below(7) {
            0 => r.shuffle(&mut cs),
            1 => cs.sort_unstable(),
            2 => {
                cs.sort_unstable();
                cs.reverse();
            }
            3 => {
                let n = cs.len().min(300);
                for i in 0..n {
                    cs.push(cs[i]);
                }
            }
            4 => {
                cs.sort_unstable();
                cs.dedup();
            }
            _ => {}
        }
        // Characters that change nothing: already covered ones included, uncovered ones excluded.
        if r.chance(40) {
            for _ in 0..1 + r.idx(4) {
                let latin = r.chance(30);
                let c = gen::character(r, s.v, latin);
                if model.get(c as u32) == (which == 0) {
                    cs.insert(r.idx(cs.len() + 1), c);
                }
            }
        }
        let u: String = cs.into_iter().collect();
        let u = if u.is_empty() && r.chance(50) { None } else { Some(u) };
        if which == 0 {
            t.inc_chars = u;
        } else {
            t.exc_chars = u;
        }
    }
    if s.min.is_none() && r.chance(50) {
        t.min = Some(0);
    }
    if s.max.is_none() && r.chance(50) {
        t.max = Some(MAX);
    }
    // Widen bounds through codepoints of categories that are not selected.
    if sel != ALL && r.chance(50) {
        let g = &golden::all()[s.v];
        let run = |cp: u32| g.runs[g.runs.partition_point(|x| x.hi < cp)];
        let (mut lo, mut hi) = (s.lo(), s.hi());
        for _ in 0..r.below(4) {
            if lo > 0 && sel >> run(lo - 1).cat & 1 == 0 {
                lo = run(lo - 1).lo;
            }
            if hi < MAX && sel >> run(hi + 1).cat & 1 == 0 {
                hi = run(hi + 1).hi;
            }
        }
        t.min = Some(lo);
        t.max = Some(hi);
    }
    t
}

pub fn c02(sh: &Shared) {
    let w = Want::Form;
    small_ranges(sh, w);
    edges(sh, w);
    combinations(sh, w);
    every_character(sh, w);
    counted(sh, w);
    huge_strings(sh, w);
    random(sh, w, sh.amount(2500, 90_000), |m, s, list, r, x| {
        s.model(&mut x.want);
        for _ in 0..2 {
            let t = equivalent(r, s, &x.want);
            debug_assert!({
                t.model(&mut x.got);
                x.got.first_difference(&x.want).is_none()
            });
            if t == *s {
                continue;
            }
            m.class("pairs of equivalent queries");
            if let Some(other) = run_one(m, &t, w, x) {
                if other != list {
                    m.fail(format!(
                        "equivalent queries differ: {s} gives {}, {t} gives {}",
                        short(&list),
                        short(&other)
                    ));
                }
            }
        }
    });
}

pub fn c03(sh: &Shared) {
    const B: [u32; 46] = [
        0, 1, 2, 63, 64, 127, 128, 254, 255, 256, 257, 1000, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x1_0000,
        0xF_FFFF, 0x10_0000, 0x10_FFFD, 0x10_FFFE, MAX, MAX + 1, MAX + 2, MAX + 256, 0x11_FFFF, 0x1F_FFFF,
        0x20_0000, 0x100_0000, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_0000, 0xFFFF_00FF,
        0xFFFF_FFFE, u32::MAX, 0x10_0041, 0xAAAA_AAAA, 0x1_0000_00, 0x0110_FFFF, 0x8010_FFFF, 0x4000_0000, 65, 90,
    ];
    let check = |m: &mut Mon, s: &Spec| {
        let (lo, hi) = (s.lo(), s.hi());
        let Some(a) = m.call(|| s.to_string(), || s.run()) else { return };
        let Some(b) = m.call(|| s.to_string(), || s.run_set()) else { return };
        let b = b.map(|set| set.len());
        m.seen(Some(s.hash64()));
        m.sample(|| format!("{s} -> {:?}", a.as_ref().map(|l| short(l))));
        let want = if lo > MAX || hi > MAX {
            m.class("out of range");
            Some(Error::CodepointNotInRange(lo, hi))
        } else if lo > hi {
            m.class("inverted");
            Some(Error::InvalidCodepoints(lo, hi))
        } else {
            m.class("valid");
            None
        };
        let (ea, eb) = (a.err(), b.err());
        if ea != want || eb != want {
            m.fail(format!("expected {want:?}, got {ea:?} from intervals and {eb:?} from interval_set: {s}"));
        }
        for e in [ea, eb].into_iter().flatten() {
            let Some(text) = m.call(|| format!("display of {e:?}"), || e.to_string()) else { return };
            let numbers: Vec<&str> = text.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
            let at = numbers.iter().position(|x| *x == lo.to_string());
            let named = at.is_some_and(|i| {
                numbers.iter().enumerate().any(|(j, x)| j != i && *x == hi.to_string())
                    || (lo == hi && numbers.contains(&hi.to_string().as_str()))
            });
            if !named {
                m.fail(format!("message {text:?} does not name both bounds: {s}"));
            }
        }
    };
    // Every pair of interesting bounds in every version, with plain and with busy filters.
    sh.par("grid", 46 * 11, |m, b, r| {
        let lo = B[(b % 46) as usize];
        for hi in B {
            for k in 0..3 {
                if m.stopping() {
                    return;
                }
                let mut s = if k == 0 { Spec::new(0) } else { gen::spec(r) };
                s.v = (b / 46) as usize;
                s.min = Some(lo);
                s.max = Some(hi);
                if k == 2 {
                    s.inc = Some(0);
                }
                check(m, &s);
            }
            for (min, max) in [(Some(lo), None), (None, Some(hi))] {
                let mut s = Spec::new((b / 46) as usize);
                (s.min, s.max) = (min, max);
                check(m, &s);
            }
        }
    });
    sh.par("random", sh.amount(16_000, 300_000), |m, _, r| {
        let mut last = None;
        for _ in 0..64 {
            if m.stopping() {
                return;
            }
            let mut s = gen::next(r, &last);
            let any = |r: &mut Rng| match r.below(6) {
                0 => r.next() as u32,
                1 => *r.pick(&B),
                2 => MAX - 40 + r.range(0, 80),
                3 => r.range(0, 300),
                _ => r.range(0, MAX),
            };
            match r.below(8) {
                0 => s.min = Some(any(r)),
                1 => s.max = Some(any(r)),
                2 => {
                    let x = any(r);
                    s.min = Some(x);
                    s.max = Some(x.wrapping_add(r.range(0, 4)).wrapping_sub(2));
                }
                3 | 4 => {
                    s.min = Some(any(r));
                    s.max = Some(any(r));
                }
                _ => {}
            }
            check(m, &s);
            last = if s.valid() { Some(s) } else { None };
        }
    });
}

/// Queries under construction, with the settings the model says they have.
struct Live<'a> {
    q: IntervalQuery<'a>,
    s: Spec,
}

pub fn c04(sh: &Shared) {
    sh.par("histories", sh.amount(30_000, 400_000), |m, block, r| {
        // Two copies of every text, so equal contents sit at different addresses.
        let mut texts: Vec<String> = (0..4)
            .flat_map(|_| {
                let v = r.idx(11);
                let t = gen::string(r, v, false, &[]);
                [t.clone(), t]
            })
            .collect();
        for _ in 0..6 {
            let v = r.idx(11);
            let latin = r.chance(60);
            texts.push(gen::string(r, v, latin, &[]));
        }
        texts.push(String::new());
        let texts = &texts;
        let mut live: Vec<Live> = Vec::new();
        let mut known: HashMap<Spec, Vec<Interval>> = HashMap::new();
        let mut x = Scratch::default();
        let mut log: Vec<String> = Vec::new();
        let events = 24 + r.below(40);
        for _ in 0..events {
            if m.stopping() {
                return;
            }
            let op = if live.is_empty() { 0 } else { r.below(20) };
            match op {
                0 | 1 => {
                    let made = if r.chance(30) {
                        log.push(format!("#{} = query()", live.len()));
                        Live { q: unicode_intervals::query(), s: Spec::new(10) }
                    } else {
                        let v = r.idx(11);
                        log.push(format!("#{} = {}.query()", live.len(), VERSIONS[v].0));
                        Live { q: VERSIONS[v].1.query(), s: Spec::new(v) }
                    };
                    live.push(made);
                }
                2 => {
                    let (i, j) = (r.idx(live.len()), r.idx(live.len()));
                    if i != j && r.chance(50) {
                        // A clone into what was another query, or nearly the same.
                        log.push(format!("#{j} = clone of #{i}, in place"));
                        let (q, s) = (live[i].q.clone(), live[i].s.clone());
                        live[j].q.clone_from(&q);
                        live[j].s = s;
                        continue;
                    }
                    log.push(format!("#{} = clone of #{i}", live.len()));
                    let c = Live { q: live[i].q.clone(), s: live[i].s.clone() };
                    live.push(c);
                }
                3..=11 => {
                    let i = r.idx(live.len());
                    let Live { q, mut s } = live.swap_remove(i);
                    let v = s.v;
                    let set = r.below(7);
                    let q = match set {
                        0 | 1 => {
                            let how = r.below(4);
                            let mask = if how == 0 { 1 << r.below(30) } else { gen::mask(r, v) };
                            let value = if how == 3 { None } else { Some(mask) };
                            log.push(format!(
                                "#{i}: {} categories = {value:?}",
                                if set == 0 { "include" } else { "exclude" }
                            ));
                            let one = CATS[mask.trailing_zeros().min(29) as usize].2;
                            if set == 0 {
                                s.inc = value;
                                match how {
                                    0 => q.include_categories(one),
                                    1 => q.include_categories(set_of(mask)),
                                    2 => q.include_categories(Some(set_of(mask))),
                                    _ => q.include_categories(None::<UnicodeCategorySet>),
                                }
                            } else {
                                s.exc = value;
                                match how {
                                    0 => q.exclude_categories(one),
                                    1 => q.exclude_categories(set_of(mask)),
                                    2 => q.exclude_categories(Some(set_of(mask))),
                                    _ => q.exclude_categories(None::<UnicodeCategorySet>),
                                }
                            }
                        }
                        2 => {
                            let t = r.pick(texts);
                            log.push(format!("#{i}: include characters {t:?}"));
                            s.inc_chars = Some(t.clone());
                            q.include_characters(t)
                        }
                        3 => {
                            let t = r.pick(texts);
                            log.push(format!("#{i}: exclude characters {t:?}"));
                            s.exc_chars = Some(t.clone());
                            q.exclude_characters(t)
                        }
                        4 | 5 => {
                            let p = if r.chance(10) { r.next() as u32 } else { gen::point(r, v) };
                            log.push(format!("#{i}: {} = {p}", if set == 4 { "min" } else { "max" }));
                            if set == 4 {
                                s.min = Some(p);
                                q.min_codepoint(p)
                            } else {
                                s.max = Some(p);
                                q.max_codepoint(p)
                            }
                        }
                        _ => {
                            let (lo, hi) = gen::bounds(r, v);
                            let (lo, hi) = (lo.unwrap_or(0), hi.unwrap_or(MAX));
                            log.push(format!("#{i}: max = {hi}, min = {lo}"));
                            s.min = Some(lo);
                            s.max = Some(hi);
                            q.max_codepoint(hi).min_codepoint(lo)
                        }
                    };
                    m.class("setter calls");
                    live.push(Live { q, s });
                    let last = live.len() - 1;
                    live.swap(i, last);
                }
                12..=17 => {
                    let i = r.idx(live.len());
                    let Live { q, s } = &live[i];
                    let before = q.clone();
                    let times = 1 + r.below(3);
                    for t in 0..times {
                        log.push(format!("#{i}: evaluate"));
                        let Some(res) = m.call(|| format!("{s} after {log:?}"), || q.intervals()) else { return };
                        m.seen(Some(s.hash64()));
                        m.class("evaluations");
                        if !s.valid() {
                            m.class("evaluations of invalid queries");
                            if res.is_ok() {
                                m.fail(format!("{s}: invalid query succeeded after {log:?}"));
                            }
                            continue;
                        }
                        let Ok(list) = res else {
                            m.fail(format!("{s}: valid query failed with {res:?} after {log:?}"));
                            return;
                        };
                        s.model(&mut x.want);
                        let bad = cover(&mut x.got, &list);
                        if bad.is_some() || x.want.first_difference(&x.got).is_some() {
                            m.fail(format!("{s} (evaluation {t}) gives {} after {log:?}", short(&list)));
                            return;
                        }
                        if let Some(old) = known.get(s) {
                            m.class("re-evaluations of the same settings");
                            if *old != list {
                                m.fail(format!("{s} gave {} and now {} after {log:?}", short(old), short(&list)));
                                return;
                            }
                        } else if known.len() < 40 {
                            known.insert(s.clone(), list.clone());
                        }
                        if r.chance(35) {
                            m.class("interval sets compared with intervals");
                            let Some(set) = m.call(|| format!("interval_set of {s}"), || q.interval_set()) else { return };
                            let Ok(set) = set else {
                                m.fail(format!("interval_set failed where intervals succeeded: {s}"));
                                return;
                            };
                            let n: u64 = list.iter().map(|(a, b)| u64::from(b - a) + 1).sum();
                            let Some(same) = m.call(
                                || format!("iterate the set of {s}"),
                                || {
                                    set.len() as u64 == n
                                        && if n < 5000 {
                                            set.iter().eq(list.iter().flat_map(|(a, b)| *a..=*b))
                                        } else {
                                            let mut at = 0u64;
                                            list.iter().all(|(a, b)| {
                                                let ok = set.codepoint_at(at as u32) == Some(*a)
                                                    && set.codepoint_at((at + u64::from(b - a)) as u32) == Some(*b);
                                                at += u64::from(b - a) + 1;
                                                ok
                                            })
                                        }
                                },
                            ) else {
                                return;
                            };
                            if !same {
                                m.fail(format!("the set of {s} does not hold its intervals {}", short(&list)));
                                return;
                            }
                        }
                    }
                    if *q != before {
                        m.fail(format!("evaluating changed a query: {s} after {log:?}"));
                        return;
                    }
                }
                18 => {
                    let (i, j) = (r.idx(live.len()), r.idx(live.len()));
                    let (a, b) = (&live[i], &live[j]);
                    let equal = a.q == b.q;
                    m.class("comparisons");
                    if a.s == b.s && !equal {
                        m.fail(format!("queries with equal settings differ: {} after {log:?}", a.s));
                        return;
                    }
                    if equal && i != j {
                        m.class("comparisons of equal queries");
                        let valid = (a.s.valid(), b.s.valid());
                        if valid == (true, true) {
                            a.s.model(&mut x.want);
                            b.s.model(&mut x.got);
                        }
                        if valid.0 != valid.1 || (valid.0 && x.want.first_difference(&x.got).is_some())
                        {
                            m.fail(format!("queries compare equal but differ: {} and {}", a.s, b.s));
                            return;
                        }
                    }
                    // A second query brought to the same settings another way.
                    if a.s.query() != a.q {
                        m.fail(format!("a fresh query with equal settings differs: {} after {log:?}", a.s));
                        return;
                    }
                }
                _ => {
                    let i = r.idx(live.len());
                    log.push(format!("drop #{i}"));
                    live.swap_remove(i);
                }
            }
        }
        m.count("events", events);
        m.sample(|| format!("{} events: {}", log.len(), log.iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
        let _ = block;
    });
    // Settings made in every order give equal queries and the same result.
    sh.par("orders", sh.amount(6000, 80_000), |m, _, r| {
        for _ in 0..16 {
            if m.stopping() {
                return;
            }
            let s = gen::spec(r);
            let base = s.query();
            let Some(first) = m.call(|| s.to_string(), || base.intervals()) else { return };
            let mut order: Vec<u32> = (0..6).collect();
            for _ in 0..3 {
                r.shuffle(&mut order);
                let noise = gen::spec(r);
                let mut q = VERSIONS[s.v].1.query();
                // Values that get overwritten, and evaluations of the half-built query.
                for k in order.iter().chain(&order) {
                    let last = q.clone();
                    let over = r.chance(25);
                    let src = if over { &noise } else { &s };
                    match k {
                        0 if src.inc.is_some() || over => q = q.include_categories(src.inc.map(set_of)),
                        1 if src.exc.is_some() || over => q = q.exclude_categories(src.exc.map(set_of)),
                        2 => {
                            if let (Some(t), true) = (&src.inc_chars, s.inc_chars.is_some()) {
                                q = q.include_characters(t);
                            }
                        }
                        3 => {
                            if let (Some(t), true) = (&src.exc_chars, s.exc_chars.is_some()) {
                                q = q.exclude_characters(t);
                            }
                        }
                        4 => q = q.min_codepoint(src.lo()),
                        5 => q = q.max_codepoint(src.hi()),
                        _ => {}
                    }
                    if r.chance(10) {
                        let _ = m.call(|| s.to_string(), || last.intervals());
                    }
                }
                // Final values.
                q = q.include_categories(s.inc.map(set_of)).exclude_categories(s.exc.map(set_of));
                if let Some(t) = &s.inc_chars {
                    q = q.include_characters(t);
                }
                if let Some(t) = &s.exc_chars {
                    q = q.exclude_characters(t);
                }
                q = q.max_codepoint(s.hi()).min_codepoint(s.lo());
                let Some(res) = m.call(|| s.to_string(), || q.intervals()) else { return };
                m.seen(Some(hash_of(&(s.hash64(), &order))));
                m.class("setter orders");
                if q != base {
                    m.fail(format!("queries with equal settings differ: {q:?} and {base:?}"));
                }
                if res != first {
                    m.fail(format!("{s}: setters in another order give another result"));
                }
            }
        }
    });
    // One query evaluated very often, now and then with another one in between.
    sh.par("often", sh.amount(48, 600), |m, b, r| {
        let s = loop {
            let mut s = gen::spec(r);
            if b % 2 == 0 {
                s.max = Some(r.range(0, 255));
                s.min = s.min.filter(|lo| *lo <= s.hi());
            }
            // Cheap enough for so many rounds.
            let small = |t: &Option<String>| t.as_ref().map_or(true, |t| t.len() < 40);
            if s.valid() && small(&s.inc_chars) && small(&s.exc_chars) {
                break s;
            }
        };
        let q = s.query();
        let Some(Ok(first)) = m.call(|| s.to_string(), || q.intervals()) else {
            m.fail(format!("{s}: valid query failed"));
            return;
        };
        let other = gen::mutate(r, &s);
        let mut x = Scratch::default();
        check_membership(m, &s, Ok(first.clone()), &mut x);
        let times = if first.len() < 40 { 70_000 } else { 1500 };
        for i in 0..times {
            if m.stopping() {
                return;
            }
            if i % 997 == 0 {
                let _ = m.call(|| other.to_string(), || other.query().intervals());
            }
            let Some(res) = m.call(|| s.to_string(), || q.intervals()) else { return };
            if res.as_ref() != Ok(&first) {
                m.fail(format!("evaluation {i} of {s} gave {res:?}, the first {}", short(&first)));
                return;
            }
        }
        m.seen_many(times);
        m.count("evaluations of one query object", times);
    });
    // Queries that differ in one small thing: who takes them for equal must answer the same.
    sh.par("alike", sh.amount(2500, 50_000), |m, _, r| {
        let mut x = Scratch::default();
        for k in 0..64 {
            if m.stopping() {
                return;
            }
            let mut s = gen::spec(r);
            if k % 4 == 0 {
                // Long texts too, alike but for one character.
                let n = [64, 100, 129, 257, 300, 1025, 3000][r.idx(7)] + r.idx(40);
                let from = gen::point(r, s.v);
                let step = r.range(0, 40);
                let text: String = (0..n as u32).filter_map(|i| char::from_u32((from + i * step) % 0x11_0000)).collect();
                *(if r.chance(50) { &mut s.inc_chars } else { &mut s.exc_chars }) = Some(text);
            }
            let mut t = s.clone();
            match r.below(8) {
                0 => t = gen::mutate(r, &s),
                1 => t.min = Some(s.lo() ^ 1 << r.below(21)),
                2 => t.max = Some(s.hi() ^ 1 << r.below(21)),
                _ => {
                    let both = s.inc_chars.is_some() && s.exc_chars.is_some();
                    let text = if both && r.chance(50) || s.exc_chars.is_none() { &mut t.inc_chars } else { &mut t.exc_chars };
                    let mut cs: Vec<char> = text.iter().flat_map(|t| t.chars()).collect();
                    let n = cs.len();
                    let i = r.idx(n.max(1));
                    match r.below(6) {
                        _ if n == 0 => cs.push('a'),
                        0 => cs.swap(i, n / 2),
                        1 => {
                            cs.remove(i);
                        }
                        2 => cs.insert(i, cs[n / 2]),
                        3 => cs[i] = char::from_u32(cs[i] as u32 ^ 64).unwrap_or('a'),
                        4 => cs[i] = char::from_u32(cs[i] as u32 ^ 1).unwrap_or('a'),
                        _ => cs[i] = char::from_u32(cs[i] as u32 ^ 1 << r.below(21)).unwrap_or('a'),
                    }
                    *text = Some(cs.into_iter().collect());
                }
            }
            let (a, b, again) = (s.query(), t.query(), s.clone());
            let Some(equal) = m.call(|| format!("{s} == {t}"), || (a == b, b == a, a != b, a == again.query())) else { return };
            m.seen(Some(hash_of(&(s.hash64(), t.hash64()))));
            m.class("pairs of queries alike");
            if equal.0 != equal.1 || equal.0 == equal.2 || !equal.3 {
                m.fail(format!("comparing {s} and {t}: {equal:?} for a == b, b == a, a != b, a == a"));
                return;
            }
            if equal.0 && s != t {
                m.class("pairs of other settings that compare equal");
                s.model(&mut x.want);
                t.model(&mut x.got);
                if s.valid() != t.valid() || s.valid() && x.want.first_difference(&x.got).is_some() {
                    m.fail(format!("queries compare equal but differ: {s} and {t}"));
                    return;
                }
            }
        }
    });
    // Many related queries, and all of them again in another order.
    sh.par("again", sh.amount(64, 1200), |m, _, r| {
        let mut x = Scratch::default();
        let mut s = gen::spec(r);
        let mut asked: Vec<(Spec, u64)> = Vec::new();
        for _ in 0..1500 {
            if m.stopping() {
                return;
            }
            s = if r.chance(97) { gen::mutate(r, &s) } else { gen::spec(r) };
            if !s.valid() || s.inc_chars.as_ref().map_or(0, String::len) + s.exc_chars.as_ref().map_or(0, String::len) > 4000 {
                s = gen::spec(r);
            }
            if !s.valid() {
                continue;
            }
            let Some(res) = m.call(|| s.to_string(), || s.query().intervals()) else { return };
            let digest = res.as_ref().map_or(0, |l| hash_of(l));
            if r.chance(6) {
                check_membership(m, &s, res, &mut x);
            }
            m.seen(Some(s.hash64()));
            asked.push((s.clone(), digest));
        }
        r.shuffle(&mut asked);
        for (i, (s, digest)) in asked.iter().enumerate() {
            if m.stopping() {
                return;
            }
            let Some(res) = m.call(|| s.to_string(), || s.query().intervals()) else { return };
            if res.as_ref().map_or(0, |l| hash_of(l)) != *digest {
                m.fail(format!("{s} gave another result when asked again as number {i} of {}", asked.len()));
                return;
            }
        }
        m.seen_many(asked.len() as u64);
        m.count("queries asked again in another order", asked.len() as u64);
    });
    // Two text buffers, rewritten in place between queries whose other settings mostly stay.
    sh.par("buffers", sh.amount(10_000, 150_000), |m, _, r| {
        let mut x = Scratch::default();
        let mut bufs = [String::with_capacity(4096), String::with_capacity(4096)];
        let mut specs = [gen::spec(r), gen::spec(r)];
        // Bytes a character takes stay the same, so that addresses and lengths do as well.
        let lanes = [(33, 126), (0xA1, 0x24F), (0x4E00, 0x5200), (0x1F300, 0x1F6FF), (0x30, 0x39), (0x300, 0x36F)];
        let lane = *r.pick(&lanes);
        let mut n = [0; 2];
        for k in 0..32 {
            if m.stopping() {
                return;
            }
            if k % 8 == 0 {
                let far = if r.chance(10) { 900 } else { 40 };
                n = [1 + r.idx(6), 1 + r.idx(far)];
                if r.chance(50) {
                    n.swap(0, 1);
                }
                specs[0] = gen::mutate(r, &specs[0]);
                if !specs[0].valid() {
                    specs[0] = gen::spec(r);
                }
                specs[1] = if r.chance(50) { gen::mutate(r, &specs[0]) } else { gen::spec(r) };
                if r.chance(30) {
                    specs[1] = specs[0].clone();
                }
            }
            let which = r.idx(2);
            for (b, n) in bufs.iter_mut().zip(n) {
                if k % 8 == 0 || r.chance(60) {
                    b.clear();
                    for _ in 0..n {
                        b.push(char::from_u32(r.range(lane.0, lane.1)).unwrap());
                    }
                } else if r.chance(50) {
                    // Two neighbours trade places, or one character changes.
                    let mut cs: Vec<char> = b.chars().collect();
                    let i = r.idx(n);
                    if r.chance(40) {
                        cs.swap(i, n / 2);
                    } else {
                        cs[i] = char::from_u32(r.range(lane.0, lane.1)).unwrap();
                    }
                    b.clear();
                    b.extend(cs);
                }
            }
            let mut s = specs[which].clone();
            if !s.valid() {
                continue;
            }
            let (inc, exc) = if r.chance(90) { (0, 1) } else { (r.idx(2), r.idx(2)) };
            s.inc_chars = r.chance(85).then(|| bufs[inc].clone());
            s.exc_chars = r.chance(85).then(|| bufs[exc].clone());
            let q = VERSIONS[s.v].1.query();
            let q = q.include_categories(s.inc.map(set_of)).exclude_categories(s.exc.map(set_of));
            let mut q = q.min_codepoint(s.lo()).max_codepoint(s.hi());
            if s.inc_chars.is_some() {
                q = q.include_characters(&bufs[inc]);
            }
            if s.exc_chars.is_some() {
                q = q.exclude_characters(&bufs[exc]);
            }
            let Some(res) = m.call(|| s.to_string(), || q.intervals()) else { return };
            m.seen(Some(s.hash64()));
            m.class("queries over rewritten buffers");
            check_membership(m, &s, res, &mut x);
        }
    });
}
