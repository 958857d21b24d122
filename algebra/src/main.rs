//! C16: the interval algebra exposed for benchmarking, against bitmaps.
use harness::bitmap::Bits;
use harness::gen;
use harness::golden;
use harness::mon::{hash_of, install_hook, Mon, Shared};
use harness::names::{mask_str, set_of, ALL, CATS, MAX, VERSIONS};
use harness::rng::Rng;
use harness::simple;
use harness::spec::{chars_str, short};
use unicode_intervals::internals::{categories, intervals, query};
use unicode_intervals::{Interval, UnicodeCategorySet};

/// Canonical list of a small set of bits, shifted.
fn of_bits(bits: u32, at: u32) -> Vec<Interval> {
    let mut out: Vec<Interval> = Vec::new();
    for i in 0..32 {
        if bits >> i & 1 != 0 {
            match out.last_mut() {
                Some(l) if l.1 + 1 == at + i => l.1 = at + i,
                _ => out.push((at + i, at + i)),
            }
        }
    }
    out
}

/// Where small universes are laid; the last three lie beyond Unicode, whose ends the algebra knows nothing of.
const SPOTS: [u32; 9] = [0, 60, 124, 251, 0xD7FD, MAX - 9, MAX + 1, 0x7FFF_FFFA, u32::MAX - 13];

fn check_merge(m: &mut Mon<'_>, list: &[Interval], want: &[Interval]) -> bool {
    let Some(got) = m.call(|| format!("merge({})", long(list)), || {
        let mut l = list.to_vec();
        intervals::merge(&mut l);
        l
    }) else {
        return false;
    };
    if got != want {
        m.fail(format!("merge({}) gave {}, should be {}", long(list), long(&got), long(want)));
        return false;
    }
    true
}

fn long(l: &[Interval]) -> String {
    if l.len() <= 40 {
        format!("{l:?}")
    } else {
        short(l)
    }
}

fn check_subtract(m: &mut Mon<'_>, a: &[Interval], b: &[Interval], want: &[Interval]) -> bool {
    let Some(got) = m.call(|| format!("subtract({}, {})", long(a), long(b)), || intervals::subtract(a.to_vec(), b)) else {
        return false;
    };
    if got != want {
        m.fail(format!("subtract({}, {}) gave {}, should be {}", long(a), long(b), long(&got), long(want)));
        return false;
    }
    true
}

/// All lists of up to `len` intervals over a universe of `u` points.
fn merge_small(sh: &Shared, u: u32, len: u32) {
    let mut all: Vec<(u32, u32)> = Vec::new();
    for a in 0..u {
        for b in a..u {
            all.push((a, b));
        }
    }
    let n = all.len() as u64;
    sh.par(&format!("merge lists of up to {len} over {u}"), n * n, |m, b, _| {
        let (i, j) = ((b / n) as usize, (b % n) as usize);
        let mut list: Vec<Interval> = Vec::new();
        for at in SPOTS {
            for k in 2..=len {
                for code in 0..n.pow(k - 2) {
                    list.clear();
                    let mut bits = 0u32;
                    let mut c = code;
                    for p in 0..k {
                        let (x, y) = match p {
                            0 => all[i],
                            1 => all[j],
                            _ => {
                                let v = all[(c % n) as usize];
                                c /= n;
                                v
                            }
                        };
                        bits |= ((1 << (y - x + 1)) - 1) << x;
                        list.push((at + x, at + y));
                    }
                    if !check_merge(m, &list, &of_bits(bits, at)) {
                        return;
                    }
                    m.seen(if code < 64 && at == 0 { Some(hash_of(&list)) } else { None });
                }
            }
            for one in [&all[i..=i], &[]] {
                let l: Vec<Interval> = one.iter().map(|(a, z)| (at + a, at + z)).collect();
                if !check_merge(m, &l, &l) {
                    return;
                }
                m.seen(None);
            }
        }
        m.sample(|| format!("merge of {list:?}"));
    });
}

/// Every pair of subsets of a universe of `u` points.
fn subtract_small(sh: &Shared, u: u32) {
    sh.par(&format!("subtract subsets of {u}"), 1 << u, |m, a, _| {
        for at in SPOTS {
            let at = if at > MAX { at } else { at.min(MAX + 1 - u) };
            let left = of_bits(a as u32, at);
            for b in 0..1u32 << u {
                if !check_subtract(m, &left, &of_bits(b, at), &of_bits(a as u32 & !b, at)) {
                    return;
                }
                m.seen(if at == 0 && b % 7 == 0 { Some(hash_of(&("subtract", a, b))) } else { None });
            }
        }
    });
}

fn random_list(r: &mut Rng) -> Vec<Interval> {
    let n = match r.below(8) {
        0 => 0,
        1..=3 => r.idx(8),
        4 | 5 => r.idx(70),
        6 => r.idx(600),
        _ => r.idx(5000),
    };
    let style = r.below(8);
    let span = [4u32, 40, 300, 5000, MAX][r.idx(5)];
    let base = r.range(0, MAX - span);
    let mut list: Vec<Interval> = (0..n as u32)
        .map(|i| {
            let (a, b) = match style {
                // A chain of touching or nearly touching pieces.
                0 => {
                    let w = 2 + r.range(0, 1);
                    ((i * w) % (span + 1), (i * w + 1 + r.range(0, 1)) % (span + 1))
                }
                // Nested around a centre.
                1 => (i.min(span / 2), span - i.min(span / 2)),
                // Points.
                2 => {
                    let x = r.range(0, span);
                    (x, x)
                }
                // One big one and crumbs.
                3 if i == n as u32 / 2 => (0, span),
                4 => {
                    let x = r.range(0, span);
                    (x, x + r.range(0, (span - x).min(3)))
                }
                _ => (r.range(0, span), r.range(0, span)),
            };
            (base + a.min(b), base + a.max(b))
        })
        .collect();
    match r.below(5) {
        0 => list.sort_unstable(),
        1 => {
            list.sort_unstable();
            list.reverse();
        }
        2 => list.sort_by_key(|x| (x.1, x.0)),
        3 => r.shuffle(&mut list),
        _ => {}
    }
    if r.chance(20) {
        let again: Vec<_> = list.iter().take(9).copied().collect();
        list.extend(again);
    }
    list
}

fn fill(b: &mut Bits, list: &[Interval]) {
    b.clear();
    for (a, z) in list {
        b.fill(*a, *z);
    }
}

fn random(sh: &Shared, rounds: u64) {
    sh.par("random lists", rounds, |m, _, r| {
        let (mut x, mut y) = (Bits::new(), Bits::new());
        for _ in 0..40 {
            let (a, b) = (random_list(r), random_list(r));
            fill(&mut x, &a);
            fill(&mut y, &b);
            let (ca, cb) = (x.intervals(), y.intervals());
            let mut both = a.clone();
            both.extend_from_slice(&b);
            let mut diff = Bits::new();
            fill(&mut diff, &ca);
            for (p, q) in &cb {
                for c in *p..=*q {
                    diff.unset(c);
                }
            }
            let want = diff.intervals();
            for (p, q) in &cb {
                x.fill(*p, *q);
            }
            let union = x.intervals();
            if !check_merge(m, &a, &ca)
                || !check_merge(m, &b, &cb)
                || !check_merge(m, &ca, &ca)
                || !check_merge(m, &both, &union)
                || !check_subtract(m, &ca, &cb, &want)
                || !check_subtract(m, &union, &cb, &want)
                || !check_subtract(m, &ca, &ca, &[])
                || !check_subtract(m, &ca, &[], &ca)
                || !check_subtract(m, &[], &ca, &[])
            {
                return;
            }
            m.seen(Some(hash_of(&(&a, &b))));
            m.seen_many(8);
            m.count("intervals merged", (a.len() + b.len()) as u64);
            m.sample(|| format!("{} and {}", short(&a), short(&b)));
        }
    });
}

/// Lists and strings beyond every 16-bit count.
fn long_lists(sh: &Shared, rounds: u64) {
    sh.par("long lists", rounds, |m, b, r| {
        let n = [66_000u32, 140_000, 300_000][r.idx(3)];
        let (mut x, mut y) = (Bits::new(), Bits::new());
        let mut make = |bits: &mut Bits| {
            let w = r.range(1, 3);
            let span = if r.chance(30) { 0xFFFF } else { MAX };
            let mut l: Vec<Interval> = (0..n)
                .map(|i| {
                    let a = if b % 3 == 0 { r.range(0, span) } else { i * (w + 1) % span };
                    (a, (a + r.range(0, w) * u32::from(b % 2 == 0)).min(span))
                })
                .collect();
            match r.below(4) {
                0 => l.sort_unstable(),
                1 => l.reverse(),
                2 => r.shuffle(&mut l),
                _ => {}
            }
            fill(bits, &l);
            l
        };
        let (p, q) = (make(&mut x), make(&mut y));
        let (cp, cq) = (x.intervals(), y.intervals());
        for (s, e) in &cq {
            for c in *s..=*e {
                x.unset(c);
            }
        }
        let diff = x.intervals();
        fill(&mut x, &cp);
        for (s, e) in &cq {
            x.fill(*s, *e);
        }
        let union = x.intervals();
        let mut both = cp.clone();
        both.extend_from_slice(&cq);
        if !check_merge(m, &p, &cp)
            || !check_merge(m, &q, &cq)
            || !check_merge(m, &both, &union)
            || !check_subtract(m, &cp, &cq, &diff)
            || !check_subtract(m, &union, &cq, &diff)
            || !check_subtract(m, &[(0, MAX)], &cq, &complement(&cq))
        {
            return;
        }
        m.seen(Some(hash_of(&(&p, &q))));
        m.seen_many(5);
        m.count("intervals merged", u64::from(n) * 2);
        let text: String = p.iter().filter_map(|i| char::from_u32(i.0)).collect();
        x.clear();
        text.chars().for_each(|c| x.set(c as u32));
        let Some(got) = m.call(|| "from_str of a long string".into(), || intervals::from_str(&text)) else { return };
        if got != x.intervals() {
            m.fail(format!("from_str of {} characters gave {}", text.chars().count(), long(&got)));
        }
        m.count("characters turned into intervals", u64::from(n));
    });
}

/// Lists with chosen numbers of intervals, around those at which implementations count or divide.
fn counted(sh: &Shared, rounds: u64) {
    let counts = gen::counts();
    sh.par("counted lists", counts.len() as u64 * rounds, |m, b, r| {
        let n = counts[b as usize % counts.len()];
        let mut x = Bits::new();
        let mut make = |n: usize, bits: &mut Bits| {
            let text = gen::counted(r, n);
            bits.clear();
            text.chars().for_each(|c| bits.set(c as u32));
            (text, bits.intervals())
        };
        let (text, a) = make(n, &mut x);
        let other = [n, n / 2 + 1, 3, 70_000][(b % 4) as usize];
        let (_, c) = make(other, &mut x);
        let Some(got) = m.call(|| format!("from_str of {n} intervals"), || intervals::from_str(&text)) else { return };
        if got != a {
            return m.fail(format!("from_str of characters of {n} intervals gave {}, should be {}", long(&got), long(&a)));
        }
        fill(&mut x, &a);
        for (s, e) in &c {
            for cp in *s..=*e {
                x.unset(cp);
            }
        }
        let diff = x.intervals();
        fill(&mut x, &a);
        for (s, e) in &c {
            x.fill(*s, *e);
        }
        let union = x.intervals();
        let mut both = a.clone();
        both.extend_from_slice(&c);
        if check_merge(m, &a, &a)
            && check_merge(m, &both, &union)
            && check_subtract(m, &a, &c, &diff)
            && check_subtract(m, &union, &c, &diff)
            && check_subtract(m, &[(0, MAX)], &a, &complement(&a))
            && check_subtract(m, &complement(&a), &a, &complement(&a))
        {
            r.shuffle(&mut both);
            check_merge(m, &both, &union);
        }
        m.seen(Some(hash_of(&(&a, &c))));
        m.seen_many(7);
        m.class("lists with a chosen number of intervals");
    });
}

fn complement(l: &[Interval]) -> Vec<Interval> {
    let mut out = Vec::new();
    let mut at = 0;
    for (a, b) in l {
        if *a > at {
            out.push((at, a - 1));
        }
        at = b + 1;
    }
    if at <= MAX {
        out.push((at, MAX));
    }
    out
}

fn strings(sh: &Shared, rounds: u64) {
    sh.par("single characters", 0x11, |m, b, _| {
        for cp in (b as u32) << 16..(b as u32 + 1) << 16 {
            let Some(c) = char::from_u32(cp) else { continue };
            let mut buf = [0; 8];
            let s: &str = c.encode_utf8(&mut buf);
            let Some(got) = m.call(|| format!("from_str({s:?})"), || intervals::from_str(s)) else { return };
            if got != [(cp, cp)] {
                return m.fail(format!("from_str of U+{cp:04X} gave {got:?}"));
            }
            m.seen(None);
        }
        m.seen(Some(hash_of(&("plane", b))));
    });
    sh.par("strings", rounds, |m, _, r| {
        let mut x = Bits::new();
        for _ in 0..60 {
            let n = [10, 60, 300, 3000][r.idx(4)];
            let latin = r.chance(30);
            let mut s = simple::text(r, latin, n, false);
            if r.chance(30) {
                let t = s.clone();
                s.push_str(&t);
            }
            x.clear();
            s.chars().for_each(|c| x.set(c as u32));
            let want = x.intervals();
            let text = Some(s);
            let s = text.as_ref().unwrap();
            let Some(got) = m.call(|| format!("from_str({})", chars_str(&text)), || intervals::from_str(s)) else { return };
            if got != want {
                return m.fail(format!("from_str({}) gave {}, should be {}", chars_str(&text), long(&got), long(&want)));
            }
            m.seen(Some(hash_of(s)));
            m.count("characters turned into intervals", s.chars().count() as u64);
        }
    });
}

fn some_mask(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => ALL,
        2 => 1 << r.below(30),
        3 => ALL & !(1 << r.below(30)),
        4 => (r.next() & r.next()) as u32 & ALL,
        _ => r.next() as u32 & ALL,
    }
}

fn same_set(set: UnicodeCategorySet, mask: u32) -> bool {
    (0..30).all(|i| set.contains(CATS[i].2) == (mask >> i & 1 != 0)) && set == set_of(mask)
}

fn sets(sh: &Shared, rounds: u64) {
    sh.par("category sets", rounds, |m, b, r| {
        for k in 0..1000u32 {
            // All pairs of single categories, with and without the full set, then random ones.
            let (inc, exc) = if b == 0 && k < 900 {
                (Some(1 << (k / 30)), 1 << (k % 30))
            } else {
                (if r.chance(20) { None } else { Some(some_mask(r)) }, some_mask(r))
            };
            let what = || format!("categories::merge({}, {})", inc.map_or("None".into(), mask_str), mask_str(exc));
            let Some(got) = m.call(what, || categories::merge(inc.map(set_of), set_of(exc))) else { return };
            let want = inc.unwrap_or(ALL) & !exc;
            if !same_set(got, want) {
                return m.fail(format!("{} gave {{{got}}}, should be {}", what(), mask_str(want)));
            }
            m.seen(Some(hash_of(&(inc, exc))));
        }
    });
    sh.par("intervals of category sets", rounds * 2, |m, b, r| {
        let v = (b % 11) as usize;
        let (mut x, mut y) = (Bits::new(), Bits::new());
        for k in 0..32u32 {
            let mask = if b < 11 && k < 30 { 1 << k } else { some_mask(r) };
            let what = || format!("intervals_for_set({}, {})", VERSIONS[v].0, mask_str(mask));
            let Some(got) = m.call(what, || query::intervals_for_set(VERSIONS[v].1, set_of(mask)).into_owned()) else { return };
            x.clear();
            y.clear();
            for (lo, hi) in &got {
                if lo > hi || *hi > MAX {
                    return m.fail(format!("{} has the interval ({lo:#x}, {hi:#x})", what()));
                }
                x.fill(*lo, *hi);
            }
            for (i, l) in golden::all()[v].by_cat.iter().enumerate() {
                if mask >> i & 1 != 0 {
                    l.iter().for_each(|(lo, hi)| y.fill(*lo, *hi));
                }
            }
            if let Some(cp) = x.first_difference(&y) {
                return m.fail(format!("{} is wrong about U+{cp:04X} (covered: {})", what(), x.get(cp)));
            }
            m.seen(Some(hash_of(&(v, mask))));
            m.count("intervals of category sets", got.len() as u64);
        }
    });
    sh.par("queries", rounds * 2, |m, _, r| {
        let mut x = Bits::new();
        for _ in 0..24 {
            let s = simple::spec(r, 60);
            if !s.valid() {
                continue;
            }
            let got = m.call(|| format!("internal {s}"), || {
                query::query(
                    VERSIONS[s.v].1,
                    s.inc.map(set_of),
                    set_of(s.exc.unwrap_or(0)),
                    s.inc_chars.as_deref().unwrap_or(""),
                    s.exc_chars.as_deref().unwrap_or(""),
                    s.lo(),
                    s.hi(),
                )
            });
            let Some(got) = got else { return };
            s.model(&mut x);
            let want = x.intervals();
            if got != want {
                return m.fail(format!("internal {s} gave {}, should be {}", long(&got), long(&want)));
            }
            m.seen(Some(s.hash64()));
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let sh = Shared::from_args(&args);
    install_hook();
    merge_small(&sh, 6, 4);
    merge_small(&sh, 4, sh.amount(6, 7) as u32);
    subtract_small(&sh, sh.amount(10, 13) as u32);
    random(&sh, sh.amount(2500, 80_000));
    counted(&sh, sh.amount(2, 30));
    long_lists(&sh, sh.amount(24, 400));
    strings(&sh, sh.amount(2500, 80_000));
    sets(&sh, sh.amount(2500, 80_000));
    std::process::exit(sh.finish());
}
