//! C12-C14: names and category sets.
use crate::gen;
use crate::golden;
use crate::iters;
use crate::mon::{hash_of, Mon, Shared};
use crate::names::{index_of, major_mask, mask_str, set_of, ALL, CATS, MAJORS, VERSIONS};
use crate::rng::Rng;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use unicode_intervals::{as_general_categories, Error, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

/// What a name stands for.
fn meaning(name: &str) -> Option<u32> {
    CATS.iter()
        .position(|c| c.0 == name)
        .map(|i| 1 << i)
        .or_else(|| MAJORS.iter().find(|m| m.0 == name).map(|m| major_mask(m.0)))
}

/// An iterator with a size hint that is true but tells little.
struct Hinted<'a>(std::slice::Iter<'a, String>, usize, Option<usize>);
impl<'a> Iterator for Hinted<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        self.1 = self.1.saturating_sub(1);
        self.0.next().map(String::as_str)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}

fn expand(m: &mut Mon, v: usize, names: &[String], how: u64) -> bool {
    let (vname, ver) = VERSIONS[v];
    let what = || {
        let few = &names[..names.len().min(500)];
        format!("as_general_categories({few:?}{}, {vname})", if names.len() > 500 { format!(" and {} more", names.len() - 500) } else { String::new() })
    };
    let Some(got) = m.call(what, || match how % 10 {
        0 => as_general_categories(names, ver),
        1 => as_general_categories(names.iter().map(String::as_str), ver),
        2 => as_general_categories(names.to_vec(), ver),
        3 => as_general_categories(names.iter().map(|s| s.clone().into_boxed_str()), ver),
        4 => as_general_categories(Hinted(names.iter(), 0, Some(usize::MAX)), ver),
        5 => as_general_categories(Hinted(names.iter(), names.len(), None), ver),
        // Bounds that say something, but not the length.
        6 => as_general_categories(Hinted(names.iter(), names.len().div_ceil(2), Some(names.len() * 2 + 1)), ver),
        7 => {
            let (sure, perhaps) = names.split_at(names.len() / 2);
            as_general_categories(sure.iter().chain(perhaps.iter().filter(|_| true)), ver)
        }
        8 => {
            // An iterator that expands names itself between two of the list's.
            let names = names.iter().inspect(|n| {
                let other = VERSIONS[(v + 1 + n.len()) % 11].1;
                let inner = as_general_categories([n.as_str(), "Lu"], other);
                assert_eq!(inner.is_ok(), meaning(n).is_some(), "an expansion inside another");
            });
            as_general_categories(names, ver)
        }
        _ => {
            // An iterator with a useless size hint.
            let mut i = 0;
            as_general_categories(
                std::iter::from_fn(|| {
                    i += 1;
                    names.get(i - 1)
                }),
                ver,
            )
        }
    }) else {
        return false;
    };
    let first_bad = names.iter().find(|n| meaning(n).is_none());
    m.seen(Some(hash_of(&(v, names))));
    let ok = match (&got, first_bad) {
        (Err(Error::InvalidCategory(n)), Some(b)) => **n == **b,
        (Ok(list), None) => {
            let want: u32 = names.iter().filter_map(|n| meaning(n)).fold(0, |a, b| a | b);
            let order: Vec<usize> = golden::all()[v].order.iter().copied().filter(|i| want >> i & 1 != 0).collect();
            list.iter().map(|c| index_of(*c)).eq(order)
        }
        _ => false,
    };
    m.class(if first_bad.is_some() { "lists with a bad name" } else { "lists of names" });
    m.sample(|| format!("{} -> {got:?}", what()));
    if !ok {
        m.fail(format!("{} = {got:?} (first bad name: {first_bad:?})", what()));
    }
    ok
}

fn valid_names() -> Vec<String> {
    CATS.iter().map(|c| c.0.to_string()).chain(MAJORS.iter().map(|m| m.0.to_string())).collect()
}

/// A string that is close to a name but is not one (or, rarely, happens to be one).
pub fn near_name(r: &mut Rng) -> String {
    let names = valid_names();
    let base = r.pick(&names).clone();
    let odd = ['\0', ' ', '\n', '\t', '\u{A0}', '\u{FEFF}', '\u{200B}', '\u{301}', '_', '.', ',', '&', '*', '\'', '"', '\u{1F600}'];
    let mut c: Vec<char> = base.chars().collect();
    match r.below(20) {
        0 => return String::new(),
        1 => return CATS[r.idx(30)].1.into(),
        2 => return CATS[r.idx(30)].1.replace('_', " "),
        3 => return CATS[r.idx(30)].1.to_lowercase(),
        4 => return base.to_uppercase(),
        5 => return base.to_lowercase(),
        6 => return base.chars().rev().collect(),
        7 => return format!("{base}{base}"),
        8 => return format!("{} {}", base, r.pick(&names)),
        9 => return format!("{},{}", base, r.pick(&names)),
        10 => return format!("{base}{}", r.pick(&odd)),
        11 => return format!("{}{base}", r.pick(&odd)),
        12 => {
            // Full-width and other look-alikes.
            let i = r.idx(c.len());
            c[i] = char::from_u32(c[i] as u32 + [0xFEE0, 0x1D400 - 65, 0x2480 + 28, 0x80][r.idx(4)]).unwrap_or('x');
        }
        13 => c.insert(r.idx(3).min(base.len()), char::from_u32(r.range(32, 126)).unwrap()),
        14 => {
            c.truncate(r.idx(c.len() + 1));
        }
        15 => return ["Any", "LC", "L&", "Assigned", "ASCII", "Xx", "Cn ", "Lı", "ℓ", "K", "\u{212A}", "None", "*", "gc=Lu"][r.idx(14)].into(),
        16 => {
            let i = r.idx(c.len());
            c[i] = char::from_u32(c[i] as u32 ^ 1 << r.below(7)).unwrap_or('x');
        }
        17 => return "x".repeat(r.idx(300)),
        18 => return VERSIONS[r.idx(11)].0.into(),
        _ => {
            let i = r.idx(c.len());
            c[i] = char::from_u32(r.range(1, 0x3000)).unwrap_or('x');
        }
    }
    c.into_iter().collect()
}

pub fn c12(sh: &Shared) {
    let names = valid_names();
    // All short strings, alone and after a good name.
    sh.par("short-names", 129, |m, b, r| {
        let first: String = if b == 128 { String::new() } else { (b as u8 as char).to_string() };
        for c in 0..129u8 {
            let mut s = first.clone();
            if c < 128 {
                s.push(c as char);
            }
            for _ in 0..2 {
                if m.stopping() || !expand(m, r.idx(11), &[s.clone()], r.next()) {
                    return;
                }
            }
            if !expand(m, r.idx(11), &[r.pick(&names).clone(), s.clone(), r.pick(&names).clone()], r.next()) {
                return;
            }
        }
    });
    // All pairs, and all triples of one version.
    sh.par("pairs", 37 * 11, |m, b, r| {
        let (v, i) = ((b / 37) as usize, (b % 37) as usize);
        if !expand(m, v, &[names[i].clone()], 0) {
            return;
        }
        for a in &names {
            if m.stopping() || !expand(m, v, &[names[i].clone(), a.clone()], r.next()) {
                return;
            }
            if v == 10 || sh.thorough {
                for c in &names {
                    if !expand(m, v, &[names[i].clone(), a.clone(), c.clone()], r.next()) {
                        return;
                    }
                }
            }
        }
    });
    sh.par("random", sh.amount(15_000, 300_000), |m, _, r| {
        let (mut last, mut v) = (Vec::new(), 0);
        for _ in 0..32 {
            if m.stopping() {
                return;
            }
            if r.chance(40) {
                // A list like the last: what is remembered of that one must not show.
                match r.below(7) {
                    0 | 1 => v = r.idx(11),
                    2 => r.shuffle(&mut last),
                    3 if !last.is_empty() => drop(last.remove(r.idx(last.len()))),
                    4 if !last.is_empty() => {
                        let at = r.idx(last.len());
                        last[at] = if r.chance(20) { near_name(r) } else { r.pick(&names).clone() };
                    }
                    5 => last.push(r.pick(&names).clone()),
                    _ => last.reverse(),
                }
                m.class("lists like the one before");
                let how = r.next();
                if !expand(m, v, &last, how) {
                    return;
                }
                continue;
            }
            v = r.idx(11);
            let n = match r.below(6) {
                0 => r.idx(3),
                1 => 37 + r.idx(40),
                2 => 200 + r.idx(200),
                _ => r.idx(14),
            };
            let mut list: Vec<String> = (0..n).map(|_| r.pick(&names).clone()).collect();
            match r.below(6) {
                0 => {
                    list = names.clone();
                    r.shuffle(&mut list);
                    list.truncate(r.idx(38));
                }
                1 if n > 0 => list = vec![list[0].clone(); n],
                _ => {}
            }
            if r.chance(35) {
                for _ in 0..1 + r.below(3) {
                    let at = r.idx(list.len() + 1);
                    list.insert(at, near_name(r));
                }
            }
            let how = r.next();
            if !expand(m, v, &list, how) {
                return;
            }
            last = list;
        }
    });
    // More names than sixteen bits count.
    sh.par("long", sh.amount(88, 880), |m, b, r| {
        let n = [40_000, 66_000, 131_100, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 131_072][r.idx(11)];
        let few = 1 + r.idx(37);
        let mut list: Vec<String> = (0..n).map(|_| names[r.idx(few)].clone()).collect();
        if b % 3 == 0 {
            let at = n - 1 - r.idx(n / 8);
            list[at] = near_name(r);
        } else if b % 3 == 1 {
            // A category that occurs once, late.
            list.push(r.pick(&names).clone());
        }
        let how = r.next();
        expand(m, r.idx(11), &list, how);
    });
    sh.par("empty", 11, |m, b, _| {
        for how in 0..10 {
            expand(m, b as usize, &[], how);
        }
        let (name, ver) = VERSIONS[b as usize];
        let none: Option<&str> = None;
        if m.call(|| name.into(), || as_general_categories(none, ver)) != Some(Ok(vec![])) {
            m.fail(format!("{name}: expanding nothing gives something"));
        }
    });
}

fn text_of(mask: u32) -> String {
    (0..30).filter(|i| mask >> i & 1 != 0).map(|i| CATS[i].0).collect::<Vec<_>>().join(", ")
}

fn hashes(s: UnicodeCategorySet) -> (u64, u64) {
    let mut a = DefaultHasher::new();
    s.hash(&mut a);
    (a.finish(), hash_of(&s))
}

/// Compare a set with the content it must have; `Some` describes a difference.
fn differs(s: UnicodeCategorySet, mask: u32, deep: bool, r: &mut Rng) -> Option<String> {
    let n = mask.count_ones() as usize;
    if s.len() != n || s.is_empty() != (n == 0) {
        return Some(format!("len {} is_empty {}", s.len(), s.is_empty()));
    }
    for (i, c) in CATS.iter().enumerate() {
        if s.contains(c.2) != (mask >> i & 1 != 0) {
            return Some(format!("contains({}) = {}", c.0, s.contains(c.2)));
        }
    }
    // Iteration, with the remaining length asked for at each step.
    let mut it = s.iter();
    let mut left = n;
    for (i, c) in CATS.iter().enumerate() {
        if mask >> i & 1 == 0 {
            continue;
        }
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            return Some(format!("len {} size_hint {:?} with {left} left", it.len(), it.size_hint()));
        }
        let x = it.next();
        if x != Some(c.2) {
            return Some(format!("iteration yields {x:?} instead of {}", c.0));
        }
        left -= 1;
    }
    for _ in 0..3 {
        if it.len() != 0 || it.size_hint() != (0, Some(0)) || it.next().is_some() {
            return Some("the iterator goes on after its end".into());
        }
    }
    if !deep {
        return None;
    }
    let twin = set_of(mask);
    if s != twin || twin != s || !s.eq(&twin) {
        return Some("unequal to an equal set".into());
    }
    if hashes(s) != hashes(twin) {
        return Some("hashes unlike an equal set".into());
    }
    if s.into_value() != twin.into_value() {
        return Some("has another value than an equal set".into());
    }
    let other = mask ^ 1 << r.below(30);
    if s == set_of(other) {
        return Some(format!("equal to {}", mask_str(other)));
    }
    if s.to_string() != text_of(mask) {
        return Some(format!("text {:?}", s.to_string()));
    }
    // The same through adaptors and by other ways to count.
    let k = r.idx(n + 2);
    let rest = n.saturating_sub(k);
    let mut part = s.iter();
    let taken: Vec<usize> = part.by_ref().take(k).map(index_of).collect();
    let want: Vec<usize> = (0..30).filter(|i| mask >> i & 1 != 0).collect();
    if taken[..] != want[..k.min(n)] {
        return Some(format!("take({k}) gives {taken:?}"));
    }
    let fresh = || {
        let mut it = s.iter();
        for _ in 0..k {
            it.next();
        }
        it
    };
    let lens = [
        ("len", part.len()),
        ("size_hint", part.size_hint().0),
        ("size_hint upper", part.size_hint().1.unwrap_or(usize::MAX)),
        ("enumerate", fresh().enumerate().len()),
        ("peekable", fresh().peekable().len()),
        ("map", fresh().map(index_of).len()),
        ("zip", fresh().zip(0..100).len()),
        ("fuse", fresh().fuse().len()),
        ("inspect", fresh().inspect(|_| ()).len()),
        ("skip", s.iter().skip(k).len()),
        ("take", fresh().take(40).len()),
        ("step_by", fresh().step_by(1).len()),
        ("count", fresh().count()),
        ("collect", fresh().collect::<Vec<_>>().len()),
        ("fold", fresh().fold(0, |a, _| a + 1)),
        ("filter upper", fresh().filter(|_| true).size_hint().1.unwrap_or(usize::MAX)),
        ("chain", fresh().chain(None).size_hint().0),
        ("boxed", {
            let b: Box<dyn ExactSizeIterator<Item = UnicodeCategory>> = Box::new(fresh());
            b.len()
        }),
        ("by reference", {
            let mut it = fresh();
            let by = &mut it;
            ExactSizeIterator::len(&by)
        }),
    ];
    for (how, len) in lens {
        if len != rest {
            return Some(format!("{how} says {len} with {rest} left"));
        }
    }
    // The adaptor's length also holds after a peek.
    let mut p = fresh().peekable();
    let seen = p.peek().copied().map(index_of);
    if seen != want.get(k).copied() || p.len() != rest {
        return Some(format!("peeking gives {seen:?} and len {}", p.len()));
    }
    let mut jump = s.iter();
    let hop = r.idx(4);
    let got = jump.nth(hop).map(index_of);
    if got != want.get(hop).copied() || jump.len() != n.saturating_sub(hop + 1) {
        return Some(format!("nth({hop}) gives {got:?} and leaves {}", jump.len()));
    }
    if s.iter().last().map(index_of) != want.last().copied() {
        return Some("last".into());
    }
    if !s.iter().map(index_of).eq(want.iter().copied()) {
        return Some("iterating twice differs".into());
    }
    let numbers: Vec<u32> = want[k.min(n)..].iter().map(|i| *i as u32).collect();
    iters::differs(fresh, |c| index_of(*c) as u32, &numbers, r.idx(n + 3))
}

pub fn c13(sh: &Shared) {
    sh.par("histories", sh.amount(60_000, 1_000_000), |m, _, r| {
        let mut regs: Vec<(UnicodeCategorySet, u32)> = vec![(UnicodeCategorySet::new(), 0); 4];
        let mut log: Vec<String> = Vec::new();
        for _ in 0..30 {
            if m.stopping() {
                return;
            }
            let (a, b, d) = (r.idx(4), r.idx(4), r.idx(4));
            let (i, j) = (r.idx(30), r.idx(30));
            let (ci, cj) = (CATS[i].2, CATS[j].2);
            let op = r.below(18);
            let (x, y) = (regs[a], regs[b]);
            let major = MAJORS[r.idx(7)];
            let name;
            let before = x;
            let res = m.call(
                || format!("set operation {op} on {} {} {} {} after {log:?}", mask_str(x.1), mask_str(y.1), CATS[i].0, CATS[j].0),
                || match op {
                    0..=2 => {
                        let mut s = x.0;
                        s.add(ci);
                        ("add", s, x.1 | 1 << i)
                    }
                    3..=5 => {
                        let mut s = x.0;
                        s.remove(ci);
                        ("remove", s, x.1 & !(1 << i))
                    }
                    6 => ("cat|cat", ci | cj, 1 << i | 1 << j),
                    7 => ("cat|set", ci | x.0, 1 << i | x.1),
                    8 => ("set|cat", x.0 | ci, 1 << i | x.1),
                    9 => ("set|set", x.0 | y.0, x.1 | y.1),
                    10 => {
                        let mut s = x.0;
                        s |= y.0;
                        ("set|=set", s, x.1 | y.1)
                    }
                    11 => {
                        let mut s = x.0;
                        s |= ci;
                        ("set|=cat", s, x.1 | 1 << i)
                    }
                    12 => ("from", UnicodeCategorySet::from(ci), 1 << i),
                    13 => ("option from", Option::<UnicodeCategorySet>::from(ci).unwrap_or_default(), 1 << i),
                    14 => match r.below(3) {
                        0 => ("new", UnicodeCategorySet::new(), 0),
                        1 => ("default", UnicodeCategorySet::default(), 0),
                        _ => ("all", UnicodeCategorySet::all(), ALL),
                    },
                    15 => ("major", major.1, major_mask(major.0)),
                    16 => ("copy", x.0, x.1),
                    _ => {
                        // Remove and put back, through a fold of single categories.
                        let s = x.0.iter().fold(UnicodeCategorySet::new(), |s, c| s | c);
                        ("rebuild", s, x.1)
                    }
                },
            );
            let Some((n, s, mask)) = res else { return };
            name = n;
            log.push(format!("r{d} = {name}({} {} {} {})", mask_str(x.1), mask_str(y.1), CATS[i].0, CATS[j].0));
            regs[d] = (s, mask);
            if r.chance(20) {
                if r.chance(50) {
                    regs[d].0 = y.0;
                    regs[d].0.clone_from(&s);
                } else {
                    regs[d].0 = s.clone_it();
                }
            }
            let Some(diff) = m.call(|| format!("observing {} after {log:?}", mask_str(mask)), || differs(s, mask, true, r)) else {
                return;
            };
            m.seen(Some(hash_of(&(op, before.1, mask))));
            m.class(name);
            if let Some(why) = diff {
                m.fail(format!("{}: {why} after {log:?}", mask_str(mask)));
                return;
            }
        }
        // The registers not written last are still what they were.
        for (s, mask) in regs {
            let Some(diff) = m.call(|| mask_str(mask), || differs(s, mask, false, r)) else { return };
            if let Some(why) = diff {
                m.fail(format!("{}: {why} at the end of {log:?}", mask_str(mask)));
                return;
            }
        }
        m.sample(|| log.iter().take(8).cloned().collect::<Vec<_>>().join("; "));
    });
    // Every subset reached by single additions and removals (all 2^30 in the thorough tier).
    let bits = sh.amount(25, 30);
    let mut lut = [0usize; 64];
    for (i, c) in CATS.iter().enumerate() {
        lut[c.2 as usize % 64] = i;
    }
    sh.par("walk", 1 << (bits - 16), |m, b, r| {
        let top: u32 = if bits == 30 {
            (b as u32) << 16
        } else {
            // Low 16 members exhaustively, under random others.
            (r.next() as u32 & ALL) & !0xFFFF
        };
        // The exhaustive 16 are rotated so that any members can be the low ones.
        let rot = if bits == 30 { 0 } else { r.below(30) as u32 };
        let place = |g: u32| if rot == 0 { g } else { ((g << rot) | (g >> (30 - rot))) & ALL };
        let mut mask = place(top);
        let mut s = set_of(mask);
        let Some(bad) = m.call(
            || format!("walk {b}"),
            || {
                for k in 1..=0x1_0000u32 {
                    let g = top | ((k ^ k >> 1) & 0xFFFF);
                    let next = place(g);
                    let flip = (next ^ mask).trailing_zeros() as usize;
                    if flip < 30 {
                        if next >> flip & 1 != 0 {
                            s.add(CATS[flip].2);
                        } else {
                            s.remove(CATS[flip].2);
                        }
                    }
                    mask = next;
                    let n = mask.count_ones() as usize;
                    let it = s.iter();
                    let mut got = 0u32;
                    let mut count = 0;
                    let hint = it.size_hint();
                    let mut last = -1i32;
                    for c in it {
                        let c = lut[c as usize % 64] as i32;
                        got |= 1 << c;
                        count += 1;
                        if c <= last {
                            return Some(mask);
                        }
                        last = c;
                    }
                    if got != mask || count != n || s.len() != n || s.is_empty() != (n == 0) || hint != (n, Some(n)) {
                        return Some(mask);
                    }
                }
                None
            },
        ) else {
            return;
        };
        m.seen_many(0x1_0000);
        m.seen(Some(hash_of(&("walk", b))));
        m.count("subsets walked", 0x1_0000);
        if let Some(mask) = bad {
            let why = m.call(|| mask_str(mask), || differs(s, mask, true, r)).flatten();
            m.fail(format!("walking to {}: wrong ({why:?})", mask_str(mask)));
        }
    });
}

trait CloneIt {
    fn clone_it(&self) -> Self;
}
impl<T: Clone> CloneIt for T {
    fn clone_it(&self) -> T {
        self.clone()
    }
}

fn quoted(msg: &str, s: &str) -> bool {
    ["'", "\"", "`"].iter().any(|q| msg.contains(&format!("{q}{s}{q}")))
}

/// Parse `s` both ways and judge the outcomes.
fn parse(m: &mut Mon, s: &str, deep: bool) -> bool {
    let Some((c, v)) = m.call(|| format!("parsing {s:?}"), || (s.parse::<UnicodeCategory>(), s.parse::<UnicodeVersion>())) else {
        return false;
    };
    m.seen(None);
    let want_c = CATS.iter().find(|x| x.0 == s).map(|x| x.2);
    let want_v = VERSIONS.iter().find(|x| x.0 == s).map(|x| x.1);
    let ok_c = match (&c, want_c) {
        (Ok(x), Some(w)) => *x == w,
        (Err(Error::InvalidCategory(t)), None) => **t == *s,
        _ => false,
    };
    let ok_v = match (&v, want_v) {
        (Ok(x), Some(w)) => *x == w,
        (Err(Error::InvalidVersion(t)), None) => **t == *s,
        _ => false,
    };
    if !ok_c || !ok_v {
        m.fail(format!("parsing {s:?} gives {c:?} as a category and {v:?} as a version"));
        return false;
    }
    if deep {
        for e in [c.err(), v.err()].into_iter().flatten() {
            let Some(msg) = m.call(|| format!("message for {s:?}"), || e.to_string()) else { return false };
            m.class("messages read");
            if !quoted(&msg, s) {
                m.fail(format!("{msg:?} does not quote {s:?}"));
                return false;
            }
        }
    }
    true
}

pub fn c14(sh: &Shared) {
    // Names out and back; constants.
    sh.par("names", 1, |m, _, _| {
        let mut before: Vec<UnicodeCategory> = Vec::new();
        for (abbr, full, cat, alias) in CATS {
            m.seen(Some(hash_of(&abbr)));
            let Some((a, b, p)) = m.call(|| abbr.into(), || (cat.as_str(), cat.to_string(), abbr.parse::<UnicodeCategory>())) else {
                return;
            };
            if a != abbr || b != abbr || p != Ok(cat) || format!("{cat}") != abbr {
                m.fail(format!("{abbr}: prints as {a} and {b}, parses as {p:?}"));
            }
            if alias != cat || alias.as_str() != abbr {
                m.fail(format!("the constant for {full} is {alias:?}"));
            }
            if before.contains(&cat) {
                m.fail(format!("{abbr} occurs twice"));
            }
            before.push(cat);
            m.sample(|| format!("{abbr} {full}"));
        }
        for (letter, set) in MAJORS {
            m.seen(Some(hash_of(&letter)));
            for (i, c) in CATS.iter().enumerate() {
                let want = major_mask(letter) >> i & 1 != 0;
                if set.contains(c.2) != want {
                    m.fail(format!("{letter} {} {}", if want { "lacks" } else { "contains" }, c.0));
                }
            }
            if set.len() != major_mask(letter).count_ones() as usize {
                m.fail(format!("{letter} has {} members", set.len()));
            }
        }
        for (name, v) in VERSIONS {
            m.seen(Some(hash_of(&name)));
            let Some((a, b, p)) = m.call(|| name.into(), || (v.as_str(), v.to_string(), name.parse::<UnicodeVersion>())) else {
                return;
            };
            if a != name || b != name || p != Ok(v) || format!("{v}") != name {
                m.fail(format!("{name}: prints as {a} and {b}, parses as {p:?}"));
            }
        }
        for v in UnicodeVersion::ALL {
            if v.to_string().parse() != Ok(v) {
                m.fail(format!("{v:?} does not parse back"));
            }
        }
    });
    // All ASCII strings of up to three characters.
    sh.par("ascii", 128, |m, b, _| {
        let mut s = String::with_capacity(4);
        for x in 0..128u8 {
            for y in 0..129u8 {
                if m.stopping() {
                    return;
                }
                s.clear();
                s.push(b as u8 as char);
                s.push(x as char);
                if y < 128 {
                    s.push(y as char);
                }
                if !parse(m, &s, y > 125) {
                    return;
                }
            }
        }
        parse(m, &(b as u8 as char).to_string(), true);
        m.seen(Some(hash_of(&("ascii", b))));
        m.count("ASCII strings of up to three characters", 128 * 129 + 1);
    });
    // Numbers.
    sh.par("numbers", 100, |m, b, _| {
        for y in 0..100 {
            for z in 0..100 {
                if m.stopping() || !parse(m, &format!("{b}.{y}.{z}"), z < 2) {
                    return;
                }
            }
            parse(m, &format!("{b}.{y}"), true);
            parse(m, &format!("{b:02}.{y:02}.00"), true);
            parse(m, &format!("{b}.{y}.0.0"), true);
        }
        for s in [format!("{b}"), format!("{b}.0."), format!(".{b}.0.0"), format!("{b}.0.-0"), format!("+{b}.0.0"), format!("{b},0,0"), format!("{b}_0_0"), format!("V{b}_0_0"), format!("v{b}.0.0"), format!("{b}.0.0-beta"), format!("0{b}.0.0"), format!("{b}.00.0"), format!("{b}.0.00"), format!("{b}. 0.0")] {
            parse(m, &s, true);
        }
        m.seen(Some(hash_of(&("numbers", b))));
        m.count("dotted numbers", 10_000);
    });
    // Every string one edit away from a name.
    let names: Vec<String> =
        CATS.iter().map(|c| c.0.to_string()).chain(VERSIONS.iter().map(|v| v.0.to_string())).chain(MAJORS.iter().map(|x| x.0.to_string())).collect();
    let top = if sh.thorough { 0x11_0000 } else { 0x1_0000 };
    sh.par("edits", names.len() as u64, |m, b, _| {
        let name: Vec<char> = names[b as usize].chars().collect();
        let mut s = String::new();
        for at in 0..=name.len() {
            let chars = (0..top).chain(if top < 0x11_0000 { 0x1_D400..0x1_D800 } else { 0..0 });
            for c in chars.filter_map(char::from_u32) {
                if m.stopping() {
                    return;
                }
                // Replaced, then inserted.
                for insert in [false, true] {
                    if at == name.len() && !insert {
                        continue;
                    }
                    s.clear();
                    s.extend(&name[..at]);
                    s.push(c);
                    s.extend(&name[at + usize::from(!insert)..]);
                    if !parse(m, &s, (c as u32) < 0x180) {
                        return;
                    }
                }
                m.count("strings one edit from a name", 2);
            }
            if at < name.len() {
                let mut cut = name.clone();
                cut.remove(at);
                parse(m, &cut.iter().collect::<String>(), true);
                let mut swap = name.clone();
                swap.swap(at, (at + 1) % name.len());
                parse(m, &swap.iter().collect::<String>(), true);
            }
        }
        m.seen(Some(hash_of(&("edits", b))));
    });
    // Names whose length or characters agree with a valid one's in the low bits only.
    sh.par("low-bits", names.len() as u64, |m, b, _| {
        let name = &names[b as usize];
        for more in [254, 256, 510, 512, 65_534, 65_536, 131_072, 1 << 20] {
            for pad in ["\0", " ", "x", "\u{e9}", &name[..1], &**name] {
                let fill = pad.repeat(more / pad.len() + 1);
                if !fill.is_char_boundary(more) {
                    continue;
                }
                for s in [format!("{name}{}", &fill[..more]), format!("{}{name}", &fill[..more])] {
                    if !parse(m, &s, false) {
                        return;
                    }
                }
            }
        }
        for bits in [6, 7, 8, 9, 10, 12, 16] {
            for k in 1..0x11_0000u32 >> bits {
                let s: Option<String> = name.chars().map(|c| char::from_u32(c as u32 + (k << bits))).collect();
                if s.is_some_and(|s| !parse(m, &s, false)) {
                    return;
                }
                m.count("strings that agree with a name in their low bits", 1);
            }
        }
        m.seen(Some(hash_of(&("low-bits", b))));
    });
    sh.par("random", sh.amount(20_000, 400_000), |m, _, r| {
        for _ in 0..64 {
            if m.stopping() {
                return;
            }
            let s = match r.below(4) {
                0 => {
                    let v = r.idx(11);
                    gen::string(r, v, false, &[])
                }
                1 => {
                    let (a, b) = (near_name(r), near_name(r));
                    if r.chance(70) { a } else { a + &b }
                }
                2 => {
                    let v = r.pick(&VERSIONS).0.to_string();
                    let pad = r.pick(&[" ", "\n", "\0", "0", ".", "\u{2024}", "\u{660}", "v", "'", "{}"]);
                    match r.below(4) {
                        0 => v + pad,
                        1 => format!("{pad}{v}"),
                        2 => v.replacen('.', pad, 1),
                        _ => v.replacen('0', pad, 1),
                    }
                }
                _ => near_name(r),
            };
            m.seen(Some(hash_of(&s)));
            m.class("random strings");
            m.sample(|| format!("{s:?}"));
            parse(m, &s, true);
        }
    });
}
