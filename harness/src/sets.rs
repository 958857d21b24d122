//! C06 and C07: interval sets.
use crate::bitmap::Bits;
use crate::gen;
use crate::iters;
use crate::mon::{hash_of, Mon, Shared};
use crate::names::MAX;
use crate::qry::cover;
use crate::rng::Rng;
use crate::spec::{short, Spec};
use unicode_intervals::{Codepoints, IntervalSet};

/// The set of a query, and the explicit list of what the query's intervals cover.
pub struct Flat {
    pub s: Spec,
    pub set: IntervalSet,
    pub list: Vec<(u32, u32)>,
    pub flat: Vec<u32>,
    pub bits: Bits,
}

/// A query whose set is another, often of as many intervals and codepoints.
fn other_shape(s: &Spec, list: &[(u32, u32)]) -> Spec {
    let mut r = Rng::new(hash_of(&(list, "shape")), 0, 0);
    let size: u32 = list.iter().map(|(a, b)| b - a + 1).sum();
    let mut t = Spec::new(s.v);
    if size > 4000 || r.chance(25) {
        t.min = Some(r.range(0, 0x1000));
        t.exc_chars = s.inc_chars.clone();
        t.inc = s.exc;
        return t;
    }
    let mut lengths: Vec<u32> = list.iter().map(|(a, b)| b - a + 1).collect();
    for i in (1..lengths.len()).rev() {
        lengths.swap(i, r.idx(i + 1));
    }
    let mut at = *r.pick(&[0, 60, 0x10000]) + r.range(0, 9);
    let mut text = String::new();
    for n in lengths {
        if at < 0xE000 && at + n > 0xD7F0 {
            at = 0xE000;
        }
        text.extend((at..at + n).filter_map(char::from_u32));
        at += n + r.range(1, 40);
    }
    t.inc = Some(0);
    t.inc_chars = Some(text);
    t
}

pub fn build(m: &mut Mon, s: Spec) -> Option<Flat> {
    let list = m.call(|| s.to_string(), || s.run())?.ok()?;
    let set = m.call(|| s.to_string(), || s.run_set())?.ok()?;
    // Most of them are copies, which outlive what they were made from, some in the place of another set.
    let set = match hash_of(&list) % 4 {
        0 => m.call(|| s.to_string(), || set.clone())?,
        1 => {
            let other = other_shape(&s, &list);
            m.call(
                || format!("a clone of {s} in the place of {other}"),
                || other.run_set().map(|mut place| {
                    place.clone_from(&set);
                    place
                }),
            )?
            .unwrap_or(set)
        }
        _ => set,
    };
    let mut bits = Bits::new();
    if let Some(bad) = cover(&mut bits, &list) {
        m.fail(format!("{s}: interval {bad:?} leaves the codespace"));
        return None;
    }
    let flat = bits.flat();
    m.class(match flat.len() {
        0 => "empty sets",
        1 => "sets of 1",
        2..=255 => "sets of 2-255",
        256..=65535 => "sets of 256-65535",
        _ => "sets of 65536 and more",
    });
    m.class(match list.len() {
        0..=1 => "sets of 0-1 intervals",
        2..=31 => "sets of 2-31 intervals",
        32..=999 => "sets of 32-999 intervals",
        _ => "sets of 1000 and more intervals",
    });
    Some(Flat { s, set, list, flat, bits })
}

impl Flat {
    fn what(&self, call: &str) -> String {
        format!("{call} on the set {} of {}", short(&self.list), self.s)
    }

    /// Check every lookup for codepoint value `c`.
    fn value(&self, m: &mut Mon, c: u32) -> bool {
        let pos = self.flat.partition_point(|x| *x < c) as u32;
        let member = c <= MAX && self.bits.get(c);
        let set = &self.set;
        let Some(got) = m.call(
            || self.what(&format!("lookup of {c}")),
            || {
                let mut ok = [set.index_of(c) == member.then_some(pos), set.contains(c) == member, set.index_above(c) == pos];
                if let Some(ch) = char::from_u32(c) {
                    ok[0] &= set.index_of(ch) == member.then_some(pos);
                    ok[1] &= set.contains(ch) == member;
                    ok[2] &= set.index_above(ch) == pos;
                }
                if let Ok(b) = u8::try_from(c) {
                    ok[0] &= set.index_of(b) == member.then_some(pos);
                    ok[1] &= set.contains(b) == member;
                    ok[2] &= set.index_above(b) == pos;
                }
                if let Ok(b) = u16::try_from(c) {
                    ok[0] &= set.index_of(b) == member.then_some(pos);
                    ok[1] &= set.contains(b) == member;
                    ok[2] &= set.index_above(b) == pos;
                }
                if c < 2 {
                    ok[0] &= set.index_of(c == 1) == member.then_some(pos);
                    ok[1] &= set.contains(c == 1) == member;
                    ok[2] &= set.index_above(c == 1) == pos;
                }
                ok
            },
        ) else {
            return false;
        };
        m.seen(None);
        for (name, ok) in ["index_of", "contains", "index_above"].iter().zip(got) {
            if !ok {
                m.fail(self.what(&format!(
                    "{name}({c}) is wrong (member: {member}, smaller elements: {pos}; index_of {:?}, contains {}, index_above {})",
                    set.index_of(c),
                    set.contains(c),
                    set.index_above(c)
                )));
                return false;
            }
        }
        true
    }

    fn index(&self, m: &mut Mon, i: u32) -> bool {
        let want = self.flat.get(i as usize).copied();
        let Some(got) = m.call(|| self.what(&format!("codepoint_at({i})")), || self.set.codepoint_at(i)) else {
            return false;
        };
        m.seen(None);
        if got != want {
            m.fail(self.what(&format!("codepoint_at({i}) = {got:?} instead of {want:?}")));
            return false;
        }
        true
    }

    fn size(&self, m: &mut Mon) {
        let Some((n, e)) = m.call(|| self.what("len"), || (self.set.len(), self.set.is_empty())) else { return };
        m.seen(Some(hash_of(&self.list)));
        if n != self.flat.len() || e != self.flat.is_empty() {
            m.fail(self.what(&format!("len {n}, is_empty {e} for {} codepoints", self.flat.len())));
        }
    }

    fn lookups(&self, m: &mut Mon, r: &mut Rng, budget: usize) {
        self.size(m);
        let mut offset = 0u32;
        let n = self.list.len();
        let every = n > budget;
        for (k, (lo, hi)) in self.list.iter().enumerate() {
            let len = hi - lo + 1;
            // All intervals if there are few, else the ends and a sample.
            if !every || k < 8 || k + 8 >= n || r.idx(n) < budget {
                let mid = r.range(*lo, *hi);
                for c in [lo.wrapping_sub(1), *lo, lo + 1, mid, hi.wrapping_sub(1), *hi, hi + 1] {
                    if !self.value(m, c) {
                        return;
                    }
                }
                for i in [offset.wrapping_sub(1), offset, offset + (mid - lo), offset + len - 1, offset + len] {
                    if !self.index(m, i) {
                        return;
                    }
                }
            }
            offset += len;
        }
        let size = self.flat.len() as u32;
        for k in 0..32 {
            for d in [-1i64, 0, 1] {
                let x = ((1i64 << k) + d) as u32;
                if !self.value(m, x) || !self.index(m, x) {
                    return;
                }
            }
        }
        for x in [
            size.wrapping_sub(1), size, size + 1, MAX - 1, MAX, MAX + 1, MAX + 2, u32::MAX - 1, u32::MAX,
            u32::MAX - size, (u32::MAX - size).wrapping_add(1), 0x8000_0000 - size, 0xD7FF, 0xD800, 0xDFFF, 0xE000,
        ] {
            if !self.value(m, x) || !self.index(m, x) {
                return;
            }
        }
        for _ in 0..24 {
            let (a, b) = (r.range(0, MAX), r.next() as u32);
            if !(self.value(m, a) && self.value(m, b) && self.index(m, a % (size + 1)) && self.index(m, b)) {
                return;
            }
        }
    }
}

/// Sets with hundreds of thousands of intervals.
pub fn comb(v: usize, lo: u32, step: u32, count: u32, gap_every: u32) -> Spec {
    let mut s = Spec::new(v);
    s.inc = Some(0);
    s.inc_chars = Some(
        (0..count)
            .filter(|i| gap_every == 0 || i % gap_every != 0)
            .filter_map(|i| char::from_u32(lo + i * step))
            .collect(),
    );
    s
}

/// A set of exactly `n` intervals.
fn counted(r: &mut Rng, n: usize) -> Spec {
    let mut s = Spec::new(r.idx(11));
    s.inc = Some(0);
    s.inc_chars = Some(gen::counted(r, n));
    s
}

fn shaped(r: &mut Rng) -> Spec {
    match r.below(6) {
        0 => {
            // A handful of short intervals.
            let mut s = Spec::new(r.idx(11));
            s.inc = Some(0);
            let mut at = gen::point(r, s.v).min(0x10_0000);
            let mut t = String::new();
            for _ in 0..r.below(7) {
                for _ in 0..1 + r.below(4) {
                    if let Some(c) = char::from_u32(at) {
                        t.push(c);
                    }
                    at += 1;
                }
                at += 1 + r.below(4) as u32;
            }
            s.inc_chars = Some(t);
            s
        }
        _ => gen::spec(r),
    }
}

pub fn c06(sh: &Shared) {
    // Every value and every index of whole sets.
    sh.par("exhaustive", sh.amount(66, 660), |m, b, r| {
        let v = (b % 11) as usize;
        let mut s = match b / 11 {
            0 => Spec::new(v),
            1 => {
                let mut s = Spec::new(v);
                s.inc = Some(gen::mask(r, v) | 1 << r.below(30));
                s
            }
            2 => {
                let mut s = comb(v, 0x10 + r.range(0, 64), 2, 3000, 7);
                s.max = Some(r.range(0, 0x3000));
                s
            }
            _ => shaped(r),
        };
        s.v = v;
        let Some(f) = build(m, s) else { return };
        f.size(m);
        let dense = b % 22 == 0;
        let mut c = 0;
        while c <= MAX + 300 {
            if !f.value(m, c) || m.stopping() {
                return;
            }
            c += if dense || sh.thorough { 1 } else { 1 + r.below(6) as u32 };
        }
        for i in 0..f.flat.len() as u32 + 300 {
            if !f.index(m, i) {
                return;
            }
        }
        m.class("sets looked up exhaustively");
        m.sample(|| f.what("every lookup"));
    });
    sh.par("many-intervals", sh.amount(12, 48), |m, b, r| {
        let s = match b % 6 {
            0 => comb(0, 0, 2, 0x8_8000, 0),
            1 => comb(3, 1, 2, 0x8_8000, 0),
            2 => comb(10, 5, 3, 0x5_0000, 0),
            3 => comb(7, 0, 1, 0x10_0000, 9),
            4 => comb(7, 0, 1, 70_000, 2),
            _ => comb(7, 0, 2, 33_000, 0),
        };
        let Some(f) = build(m, s) else { return };
        f.lookups(m, r, 2000);
        for _ in 0..sh.amount(60_000, 1_000_000) {
            let (c, i) = (r.range(0, MAX + 2), r.idx(f.flat.len() + 2) as u32);
            if !f.value(m, c) || !f.index(m, i) || m.stopping() {
                return;
            }
        }
        m.sample(|| f.what("random lookups"));
    });
    let counts = gen::counts();
    sh.par("counted", counts.len() as u64 * sh.amount(1, 12), |m, b, r| {
        for _ in 0..if b % 7 == 0 { 4 } else { 2 } {
            let Some(f) = build(m, counted(r, counts[b as usize % counts.len()])) else { return };
            f.lookups(m, r, 500);
            for _ in 0..3000 {
                let (c, i) = (r.range(0, MAX + 2), r.idx(f.flat.len() + 2) as u32);
                if !f.value(m, c) || !f.index(m, i) || m.stopping() {
                    return;
                }
            }
            m.class("sets with a chosen number of intervals");
        }
    });
    sh.par("random", sh.amount(20_000, 400_000), |m, _, r| {
        for _ in 0..8 {
            if m.stopping() {
                return;
            }
            let Some(f) = build(m, shaped(r)) else { continue };
            f.lookups(m, r, 24);
            m.sample(|| f.what("lookups"));
        }
    });
}

/// A live iterator and what the model says it still has to yield: `flat[lo..hi]`.
struct It<'a> {
    it: Codepoints<'a>,
    lo: usize,
    hi: usize,
}

const OPS: [&str; 23] = [
    "next", "next_back", "nth", "nth_back", "take", "rev().take", "fold", "rfold", "count", "last", "clone", "drop",
    "find", "rfind", "skip", "step_by", "min/max", "try_fold", "size_hint", "for_each", "rev().skip", "zip with itself",
    "every method",
];

fn amount(r: &mut Rng, f: &Flat, left: usize) -> usize {
    match r.below(9) {
        0 => 0,
        1 => 1,
        2 => r.idx(4),
        3 if !f.list.is_empty() => {
            let (a, b) = *r.pick(&f.list);
            ((b - a) as usize + r.idx(3)).saturating_sub(r.idx(2))
        }
        4 => left,
        5 => left.saturating_sub(1),
        6 => left + 1,
        7 => r.idx(left + 1),
        _ => r.idx(70),
    }
}

pub fn c07(sh: &Shared) {
    sh.par("histories", sh.amount(80_000, 1_500_000), |m, b, r| {
        let s = loop {
            let s = shaped(r);
            if b % 64 == 0 || s.selected() == 0 || s.hi() - s.lo() < 5000 || r.chance(3) {
                break s;
            }
        };
        let Some(f) = build(m, s) else { return };
        history(m, r, &f);
    });
    let counts = gen::counts();
    sh.par("large", sh.amount(60, 600), |m, b, r| {
        let s = match b % 6 {
            3 | 4 => {
                let n = *r.pick(&counts);
                counted(r, n)
            }
            0 => Spec::new(r.idx(11)),
            1 => comb(0, r.range(0, 3), 2, 0x8_0000, 0),
            2 => comb(4, 0, 1, 70_000, 5),
            _ => gen::spec(r),
        };
        let Some(f) = build(m, s) else { return };
        // Everything, from both ends, however the set is iterated.
        let set = &f.set;
        let Some(ok) = m.call(
            || f.what("iteration"),
            || {
                let mut k = 0;
                let mut fine = true;
                for c in set {
                    fine &= f.flat.get(k) == Some(&c);
                    k += 1;
                }
                fine && k == f.flat.len()
                    && set.iter().eq(f.flat.iter().copied())
                    && set.iter().rev().eq(f.flat.iter().rev().copied())
                    && set.iter().collect::<Vec<_>>() == f.flat
                    && set.iter().fold(0u64, |a, c| a.wrapping_mul(31).wrapping_add(u64::from(c)))
                        == f.flat.iter().fold(0u64, |a, c| a.wrapping_mul(31).wrapping_add(u64::from(*c)))
            },
        ) else {
            return;
        };
        m.seen(Some(hash_of(&f.list)));
        m.count("codepoints iterated", f.flat.len() as u64 * 5);
        if !ok {
            m.fail(f.what("wrong iteration"));
            return;
        }
        history(m, r, &f);
    });
}

fn history(m: &mut Mon, r: &mut Rng, f: &Flat) {
    let flat = &f.flat;
    let start = m.call(|| f.what("iter"), || if r.chance(30) { (&f.set).into_iter() } else { f.set.iter() });
    let Some(it) = start else { return };
    let mut live = vec![It { it, lo: 0, hi: flat.len() }];
    let mut log: Vec<String> = Vec::new();
    let events = 10 + r.below(60);
    // Some histories favour single steps, some big jumps.
    let style = r.below(4);
    for _ in 0..events {
        if m.stopping() || live.is_empty() {
            break;
        }
        let at = r.idx(live.len());
        let op = match style {
            0 if r.chance(80) => r.idx(2),
            1 if r.chance(70) => r.idx(4),
            2 if r.chance(60) => 10 + 8 * r.idx(2),
            _ => r.idx(OPS.len()),
        };
        let left = live[at].hi - live[at].lo;
        // Walking a huge remainder is worth it only now and then.
        let walks = matches!(op, 6..=9 | 12..=17 | 19..=22);
        if walks && left > 20_000 && !r.chance(4) || op == 22 && left > 3000 && !r.chance(1) {
            continue;
        }
        let k = amount(r, f, left);
        let k = if k > 50_000 && !r.chance(10) { k % 1000 } else { k };
        log.push(format!("{}({k})@{at}", OPS[op]));
        let (lo, hi) = (live[at].lo, live[at].hi);
        let rest = &flat[lo..hi];
        let one = &mut live[at];
        let what = || format!("{} after {}", f.what(OPS[op]), log.join(" "));
        let it = &mut one.it;
        macro_rules! run {
            ($e:expr) => {{
                let Some(x) = m.call(what, || $e) else { return };
                x
            }};
        }
        let mut wrong = None;
        macro_rules! expect {
            ($got:expr, $want:expr) => {{
                let (got, want) = ($got, $want);
                if got != want {
                    wrong = Some(format!("{got:?} instead of {want:?}"));
                }
            }};
        }
        match op {
            0 => {
                expect!(run!(it.next()), rest.first().copied());
                one.lo = (lo + 1).min(hi);
            }
            1 => {
                expect!(run!(it.next_back()), rest.last().copied());
                one.hi = if hi > lo { hi - 1 } else { hi };
            }
            2 => {
                expect!(run!(it.nth(k)), rest.get(k).copied());
                one.lo = (lo + k + 1).min(hi);
            }
            3 => {
                expect!(run!(it.nth_back(k)), if k < left { Some(rest[left - 1 - k]) } else { None });
                one.hi = hi.saturating_sub(k + 1).max(lo);
            }
            4 => {
                expect!(run!(it.by_ref().take(k).collect::<Vec<_>>()), rest[..k.min(left)].to_vec());
                one.lo = (lo + k).min(hi);
            }
            5 => {
                let got = run!(it.by_ref().rev().take(k).collect::<Vec<_>>());
                expect!(got, rest.iter().rev().take(k).copied().collect::<Vec<_>>());
                one.hi = hi - k.min(left);
            }
            6 => {
                let got = run!(it.clone().fold(Vec::new(), |mut a, c| {
                    a.push(c);
                    a
                }));
                if got != rest {
                    wrong = Some(format!("folded {} items of {left}", got.len()));
                }
            }
            7 => {
                let got = run!(it.clone().rfold(Vec::new(), |mut a, c| {
                    a.push(c);
                    a
                }));
                if !got.iter().eq(rest.iter().rev()) {
                    wrong = Some(format!("folded {} items of {left}", got.len()));
                }
            }
            8 => expect!(run!(it.clone().count()), left),
            9 => expect!(run!(it.clone().last()), rest.last().copied()),
            10 => {
                let c = run!(it.clone());
                let to = r.idx(live.len());
                if to != at && r.chance(40) {
                    // In the place of another, which may have as much left.
                    log.push(format!("(in place of {to})"));
                    let place = &mut live[to];
                    let Some(()) = m.call(|| f.what("clone_from"), || place.it.clone_from(&c)) else { return };
                    (place.lo, place.hi) = (lo, hi);
                } else if live.len() < 6 {
                    live.push(It { it: c, lo, hi });
                }
            }
            11 => {
                if live.len() > 1 {
                    live.swap_remove(at);
                }
            }
            12 => {
                let target = rest.get(k).copied().unwrap_or(u32::MAX);
                expect!(run!(it.find(|c| *c >= target)), rest.get(k).copied());
                one.lo = if k < left { lo + k + 1 } else { hi };
            }
            13 => {
                let target = if k < left { i64::from(rest[left - 1 - k]) } else { -1 };
                expect!(run!(it.rfind(|c| i64::from(*c) <= target)), if k < left { Some(rest[left - 1 - k]) } else { None });
                one.hi = if k < left { hi - k - 1 } else { lo };
            }
            14 => {
                let got = run!(it.clone().skip(k).collect::<Vec<_>>());
                if got != rest[k.min(left)..] {
                    wrong = Some(format!("{} items", got.len()));
                }
            }
            15 => {
                let step = 1 + k % 97;
                let got = run!(it.clone().step_by(step).collect::<Vec<_>>());
                if !got.iter().eq(rest.iter().step_by(step)) {
                    wrong = Some(format!("{} items", got.len()));
                }
            }
            16 => expect!(run!((it.clone().min(), it.clone().max())), (rest.first().copied(), rest.last().copied())),
            17 => {
                // Stop early, then go on.
                let target = rest.get(k).copied().unwrap_or(u32::MAX);
                let got = run!(it.try_fold(0u64, |a, c| if c >= target { Err(a) } else { Ok(a + u64::from(c)) }));
                let sum: u64 = rest[..k.min(left)].iter().map(|c| u64::from(*c)).sum();
                expect!(got, if k < left { Err(sum) } else { Ok(sum) });
                one.lo = if k < left { lo + k + 1 } else { hi };
            }
            18 => {
                let (a, b) = run!(it.size_hint());
                if a > left || b.is_some_and(|b| b < left) {
                    wrong = Some(format!("({a}, {b:?}) for {left} items"));
                }
            }
            19 => {
                let got = run!({
                    let mut got = Vec::new();
                    it.clone().for_each(|c| got.push(c));
                    got
                });
                if got != rest {
                    wrong = Some(format!("{} items of {left}", got.len()));
                }
            }
            20 => {
                let got = run!(it.clone().rev().skip(k).collect::<Vec<_>>());
                if !got.iter().eq(rest.iter().rev().skip(k)) {
                    wrong = Some(format!("{} items", got.len()));
                }
            }
            21 => {
                let got = run!(it.clone().zip(it.clone().rev()).count());
                expect!(got, left);
            }
            _ => {
                wrong = run!({
                    let number = |x: &u32| *x;
                    iters::differs(|| it.clone(), number, rest, k)
                        .or_else(|| iters::differs_backwards(|| it.clone(), number, rest, k))
                        .or_else(|| iters::differs_ordered(it, rest, k))
                });
            }
        }
        m.seen(Some(hash_of(&(&f.list, lo, hi, op, k))));
        m.class(OPS[op]);
        if let Some(w) = wrong {
            m.fail(format!("{w}: {} after {}", f.what(OPS[op]), log.join(" ")));
            return;
        }
        let last = live.len() - 1;
        let one = &mut live[at.min(last)];
        let n = one.hi - one.lo;
        // The hint brackets the remaining number at every step.
        let Some((a, b)) = m.call(|| f.what("size_hint"), || one.it.size_hint()) else { return };
        if a > n || b.is_some_and(|b| b < n) {
            m.fail(format!("size hint ({a}, {b:?}) for {n} items: {} after {}", f.what(""), log.join(" ")));
            return;
        }
    }
    // Drain what is left in small alternating steps, then ask again and again.
    for (i, mut one) in live.into_iter().enumerate() {
        if m.stopping() {
            return;
        }
        let n = one.hi - one.lo;
        if n > 3000 {
            continue;
        }
        let what = || format!("{} draining {i} after {}", f.what(""), log.join(" "));
        let pattern = r.next();
        let Some(ok) = m.call(what, || {
            let mut ok = true;
            let mut step = 0u32;
            while one.lo < one.hi {
                if pattern >> (step % 61) & 1 == 0 {
                    ok &= one.it.next() == Some(flat[one.lo]);
                    one.lo += 1;
                } else {
                    ok &= one.it.next_back() == Some(flat[one.hi - 1]);
                    one.hi -= 1;
                }
                step += 1;
            }
            for _ in 0..3 {
                ok &= one.it.next().is_none() && one.it.next_back().is_none();
                ok &= one.it.nth(0).is_none() && one.it.nth_back(1).is_none();
                ok &= one.it.size_hint().0 == 0 && one.it.clone().next().is_none() && one.it.clone().count() == 0;
            }
            ok
        }) else {
            return;
        };
        m.class("iterators drained to the end");
        if !ok {
            m.fail(what());
            return;
        }
    }
    // Iterating left the set alone.
    if flat.len() < 20_000 {
        let Some(ok) = m.call(|| f.what("iter again"), || f.set.iter().eq(flat.iter().copied()) && f.set.len() == flat.len())
        else {
            return;
        };
        if !ok {
            m.fail(format!("the set changed: {} after {}", f.what(""), log.join(" ")));
        }
    }
    m.sample(|| format!("{}: {}", f.what("history"), log.iter().take(14).cloned().collect::<Vec<_>>().join(" ")));
}
