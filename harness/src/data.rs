//! C08-C11: the bundled data.
use crate::gen;
use crate::golden;
use crate::mon::{hash_of, Mon, Shared};
use crate::names::{index_of, set_of, ALL, CATS, MAX, VERSIONS};
use crate::qry::not_canonical;
use crate::rng::Rng;
use crate::spec::short;
use unicode_intervals::{as_general_categories, Interval, UnicodeVersion};

const N: usize = MAX as usize + 1;
const NONE: u8 = 255;
const MANY: u8 = 254;

/// A codepoint of each category (in the order of `CATS`) that has been in it since Unicode 1.x-3.0.
const ANCHORS: [u32; 30] = [
    0x29, 0x5F, 0x00, 0x24, 0x2D, 0x30, 0x488, 0xBB, 0xAD, 0xAB, 0x2160, 0x2028, 0x61, 0x2B, 0x2B0, 0x5E, 0x300, 0x28,
    0x5D0, 0xB2, 0x21, 0xA9, 0x2029, 0xE000, 0x20, 0x903, 0xD800, 0x1C5, 0xFFFF, 0x41,
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Route {
    Table,
    PerCategory,
    Query,
    BoundedQuery,
}
const ROUTES: [Route; 4] = [Route::Table, Route::PerCategory, Route::Query, Route::BoundedQuery];

/// One category's intervals, by each of the ways to ask for them.
fn fetch(m: &mut Mon, v: usize, c: usize, route: Route) -> Option<Vec<Interval>> {
    let what = || format!("{} category {} through {route:?}", VERSIONS[v].0, CATS[c].0);
    let (ver, cat) = (VERSIONS[v].1, CATS[c].2);
    match route {
        Route::Table => {
            let t = m.call(what, || ver.table())?;
            if t.len() != 30 {
                m.fail(format!("{} has a table of {} entries", VERSIONS[v].0, t.len()));
                return None;
            }
            Some(t[c].to_vec())
        }
        Route::PerCategory => m.call(what, || ver.intervals_for(cat).to_vec()),
        Route::Query => m.call(what, || ver.query().include_categories(cat).intervals())?.ok(),
        Route::BoundedQuery => m
            .call(what, || {
                let q = ver.query().exclude_categories(set_of(ALL & !(1 << c)));
                let mut all = Vec::new();
                // In two halves, glued together.
                for (lo, hi) in [(0, 0x7FFF), (0x8000, MAX)] {
                    for (l, r) in q.clone().min_codepoint(lo).max_codepoint(hi).intervals()? {
                        match all.last_mut() {
                            Some((_, e)) if l == 0x8000 && *e == 0x7FFF => *e = r,
                            _ => all.push((l, r)),
                        }
                    }
                }
                Ok::<_, unicode_intervals::Error>(all)
            })?
            .ok(),
    }
}

/// Category of every codepoint as the crate has it.
fn own_array(m: &mut Mon, v: usize, route: Route) -> Option<Vec<u8>> {
    let mut a = vec![NONE; N];
    for c in 0..30 {
        for (l, r) in fetch(m, v, c, route)? {
            for cp in l..=r.min(MAX) {
                let x = &mut a[cp as usize];
                *x = if *x == NONE { c as u8 } else { MANY };
            }
        }
    }
    Some(a)
}

pub fn c08(sh: &Shared) {
    sh.par("partition", 11, |m, b, _| {
        let v = b as usize;
        let name = VERSIONS[v].0;
        let Some(a) = own_array(m, v, Route::Table) else { return };
        m.count("codepoints counted", N as u64);
        for (cp, x) in a.iter().enumerate() {
            if *x == NONE || *x == MANY {
                m.fail(format!("{name}: U+{cp:04X} is in {} category", if *x == NONE { "no" } else { "more than one" }));
                return;
            }
        }
        let mut previous = String::new();
        for c in 0..30 {
            let (abbr, full, cat, alias) = CATS[c];
            if cat != alias || full.to_string() <= previous {
                m.fail(format!("{name}: {full} is out of order"));
            }
            previous = full.into();
            if a[ANCHORS[c] as usize] as usize != c {
                m.fail(format!("{name}: entry {c} does not hold {full}: U+{:04X} is elsewhere", ANCHORS[c]));
            }
            let Some(entry) = fetch(m, v, c, Route::Table) else { return };
            if let Some(why) = not_canonical(&entry) {
                m.fail(format!("{name} {abbr}: {why}"));
            }
            for route in &ROUTES[1..] {
                for _ in 0..2 {
                    let Some(x) = fetch(m, v, c, *route) else {
                        m.fail(format!("{name} {abbr}: no answer through {route:?}"));
                        return;
                    };
                    m.seen(Some(hash_of(&(v, c, *route as u8))));
                    if x != entry {
                        m.fail(format!(
                            "{name} {abbr}: {route:?} gives {} but the table has {}",
                            short(&x),
                            short(&entry)
                        ));
                        return;
                    }
                }
            }
            m.count("entries compared", 3);
            m.sample(|| format!("{name} {abbr}: {}", short(&entry)));
        }
    });
    // A category asked for through queries in every way that names only that category.
    sh.par("single-category", 11 * 30, |m, b, r| {
        let (v, c) = ((b / 30) as usize, (b % 30) as usize);
        let ver = VERSIONS[v].1;
        let cat = CATS[c].2;
        let Some(entry) = fetch(m, v, c, Route::Table) else { return };
        for k in 0..8 {
            let what = || format!("{} {} way {k}", VERSIONS[v].0, CATS[c].0);
            let extra = set_of(gen::mask(r, v) & !(1 << c));
            let q = ver.query();
            let Some(res) = m.call(what, || match k {
                0 => q.include_categories(cat).intervals(),
                1 => q.include_categories(Some(set_of(1 << c))).intervals(),
                2 => q.exclude_categories(set_of(ALL & !(1 << c))).intervals(),
                3 => q.include_categories(cat).exclude_categories(extra).intervals(),
                4 => q.include_categories(extra | cat).exclude_categories(extra).intervals(),
                5 => q.include_categories(cat | cat).include_characters("").exclude_characters("").intervals(),
                6 => q.include_categories(cat).min_codepoint(0).max_codepoint(MAX).intervals(),
                _ => q.include_categories(cat).interval_set().map(|s| {
                    let mut out: Vec<Interval> = Vec::new();
                    for cp in &s {
                        match out.last_mut() {
                            Some((_, e)) if *e + 1 == cp => *e = cp,
                            _ => out.push((cp, cp)),
                        }
                    }
                    out
                }),
            }) else {
                return;
            };
            m.seen(Some(hash_of(&(v, c, k, "way"))));
            if res.as_deref() != Ok(&entry[..]) {
                m.fail(format!("{}: {res:?} but the table has {}", what(), short(&entry)));
                return;
            }
        }
    });
}

fn compare(m: &mut Mon, v: usize, c: usize, how: &str, got: &[Interval]) {
    let want = &golden::all()[v].by_cat[c];
    m.seen(Some(hash_of(&(v, c, how))));
    if got == want.as_slice() {
        return;
    }
    // Judge by codepoints; the shape of the list is C08's business.
    let gold = golden::array(v);
    let mut own = vec![false; N];
    for (l, r) in got {
        if *r > MAX {
            m.fail(format!("{} {}: {how} has ({l}, {r})", VERSIONS[v].0, CATS[c].0));
            return;
        }
        for cp in *l..=*r {
            own[cp as usize] = true;
        }
    }
    for cp in 0..N {
        if own[cp] != (gold[cp] as usize == c) {
            m.fail(format!(
                "{}: U+{cp:04X} is {} in {how} but {} in the Unicode Character Database",
                VERSIONS[v].0,
                if own[cp] { CATS[c].0.to_string() } else { format!("not {}", CATS[c].0) },
                CATS[gold[cp] as usize].0
            ));
            return;
        }
    }
}

pub fn c09(sh: &Shared) {
    sh.par("tables", 11 * 30, |m, b, _| {
        let (v, c) = ((b / 30) as usize, (b % 30) as usize);
        for route in ROUTES {
            let Some(x) = fetch(m, v, c, route) else {
                m.fail(format!("{} {}: no answer through {route:?}", VERSIONS[v].0, CATS[c].0));
                return;
            };
            compare(m, v, c, &format!("{route:?}"), &x);
        }
        m.class("categories compared with the database");
        m.count("codepoints compared", N as u64 * 4);
        m.sample(|| format!("{} {}: {} golden intervals", VERSIONS[v].0, CATS[c].0, golden::all()[v].by_cat[c].len()));
    });
    // One codepoint at a time: the category that answers is the database's, and another one does not.
    let one = |m: &mut Mon, v: usize, cp: u32, r: &mut Rng| -> bool {
        let c = golden::all()[v].cat_of(cp);
        let ver = VERSIONS[v].1;
        let q = ver.query().min_codepoint(cp).max_codepoint(cp);
        let other = {
            let o = r.idx(29);
            if o >= c { o + 1 } else { o }
        };
        let far = r.chance(20);
        let Some((a, b)) = m.call(
            || format!("{}: U+{cp:04X} alone", VERSIONS[v].0),
            || {
                let (mut a, mut b) =
                    (q.clone().include_categories(CATS[c].2), q.include_categories(CATS[other].2));
                if far {
                    (a, b) = (a.exclude_characters("\u{10FFFD}"), b.exclude_characters("\u{10FFFD}"));
                }
                (a.intervals(), b.intervals())
            },
        ) else {
            return false;
        };
        m.seen(None);
        let want: &[Interval] = if far && cp == 0x10_FFFD { &[] } else { &[(cp, cp)] };
        let covers = |l: &[Interval]| l.iter().any(|(x, y)| *x <= cp && cp <= *y);
        let (Ok(a), Ok(b)) = (&a, &b) else {
            m.fail(format!("{}: U+{cp:04X}: a valid query failed", VERSIONS[v].0));
            return false;
        };
        if covers(a) == want.is_empty() || covers(b) {
            m.fail(format!(
                "{}: U+{cp:04X} is {} in the database; asked for it gives {a:?}, asked for {} gives {b:?}",
                VERSIONS[v].0, CATS[c].0, CATS[other].0
            ));
            return false;
        }
        true
    };
    let step = 0x1000u32;
    sh.par("every-codepoint", 11 * u64::from(0x11_0000 / step), |m, b, r| {
        let v = (b % 11) as usize;
        let start = (b / 11) as u32 * step;
        for cp in start..start + step {
            if m.stopping() || !one(m, v, cp, r) {
                return;
            }
        }
        m.count("codepoints asked for alone", u64::from(step));
        m.seen(Some(hash_of(&("block", b))));
    });
    sh.par("edges", 11 * 8, |m, b, r| {
        let v = (b % 11) as usize;
        let part = (b / 11) as usize;
        for cp in gen::points(v).iter().skip(part).step_by(8) {
            if m.stopping() || !one(m, v, *cp, r) {
                return;
            }
        }
    });
    sh.par("windows", sh.amount(20_000, 300_000), |m, _, r| {
        for _ in 0..64 {
            let (v, c) = (r.idx(11), r.idx(30));
            let (lo, hi) = gen::bounds(r, v);
            let (lo, hi) = (lo.unwrap_or(0), hi.unwrap_or(MAX));
            let ver = VERSIONS[v].1;
            let want: Vec<Interval> = golden::all()[v].by_cat[c]
                .iter()
                .filter(|i| i.1 >= lo && i.0 <= hi)
                .map(|i| (i.0.max(lo), i.1.min(hi)))
                .collect();
            let what = || format!("{} {} in [{lo}, {hi}]", VERSIONS[v].0, CATS[c].0);
            let Some(res) = m.call(what, || {
                ver.query().include_categories(CATS[c].2).min_codepoint(lo).max_codepoint(hi).intervals()
            }) else {
                return;
            };
            m.seen(Some(hash_of(&(v, c, lo, hi))));
            m.class("windows compared with the database");
            let Ok(got) = res else {
                m.fail(format!("{} failed", what()));
                return;
            };
            let cover = |l: &[Interval]| l.iter().map(|(a, b)| u64::from(b.saturating_sub(*a)) + 1).sum::<u64>();
            let inside = |l: &[Interval], x: u32| l.iter().any(|(a, b)| *a <= x && x <= *b);
            if got != want
                && (cover(&got) != cover(&want)
                    || want.iter().any(|(a, b)| !inside(&got, *a) || !inside(&got, *b))
                    || got.iter().any(|(a, b)| !inside(&want, *a) || !inside(&want, *b)))
            {
                m.fail(format!("{}: {} but the database has {}", what(), short(&got), short(&want)));
                return;
            }
        }
    });
}

/// Codepoints that changed category while assigned: (version index of the change, first, last, from, to).
const REASSIGNED: [(usize, u32, u32, &str, &str); 11] = [
    (2, 0x10D0, 0x10FA, "Lo", "Ll"),
    (2, 0x10FD, 0x10FF, "Lo", "Ll"),
    (2, 0x111C9, 0x111C9, "Po", "Mn"),
    (2, 0x11A07, 0x11A08, "Mc", "Mn"),
    (3, 0x166D, 0x166D, "Po", "So"),
    (3, 0x1CF2, 0x1CF3, "Mc", "Lo"),
    (3, 0xA9BD, 0xA9BD, "Mc", "Mn"),
    (6, 0x1734, 0x1734, "Mn", "Mc"),
    (9, 0x1171E, 0x1171E, "Mn", "Mc"),
    (10, 0x295, 0x295, "Ll", "Lo"),
    // No other change is documented; this one only documents that the list ends.
    (99, 0, 0, "", ""),
];

pub fn c10(sh: &Shared) {
    let idx = |s: &str| CATS.iter().position(|c| c.0 == s).unwrap();
    sh.par("history", 4, |m, b, _| {
        let route = ROUTES[b as usize];
        let mut old: Option<Vec<u8>> = None;
        for v in 0..11 {
            let name = VERSIONS[v].0;
            let Some(a) = own_array(m, v, route) else {
                m.fail(format!("{name}: no data through {route:?}"));
                return;
            };
            m.count("codepoints examined", N as u64);
            m.seen(Some(hash_of(&(v, b))));
            // What never changes.
            for (cat, ranges) in [
                ("Cc", &[(0u32, 0x1F), (0x7F, 0x9F)][..]),
                ("Cs", &[(0xD800, 0xDFFF)]),
                ("Co", &[(0xE000, 0xF8FF), (0xF_0000, 0xF_FFFD), (0x10_0000, 0x10_FFFD)]),
                ("Zl", &[(0x2028, 0x2028)]),
                ("Zp", &[(0x2029, 0x2029)]),
            ] {
                let c = idx(cat) as u8;
                for (cp, x) in a.iter().enumerate() {
                    let should = ranges.iter().any(|(l, r)| *l <= cp as u32 && cp as u32 <= *r);
                    if should != (*x == c) {
                        m.fail(format!("{name}: U+{cp:04X} is {}in {cat} ({route:?})", if should { "not " } else { "" }));
                        return;
                    }
                }
                m.seen(Some(hash_of(&(v, b, cat))));
            }
            let cn = idx("Cn") as u8;
            let non = (0xFDD0..=0xFDEFu32).chain((0..17).flat_map(|p| [p * 0x1_0000 + 0xFFFE, p * 0x1_0000 + 0xFFFF]));
            let mut count = 0;
            for cp in non {
                count += 1;
                if a[cp as usize] != cn {
                    m.fail(format!("{name}: noncharacter U+{cp:04X} is assigned ({route:?})"));
                    return;
                }
            }
            assert_eq!(count, 66);
            if let Some(old) = &old {
                let mut moved = 0;
                for cp in 0..N {
                    if old[cp] == a[cp] || old[cp] == cn {
                        continue;
                    }
                    let (from, to) = (old[cp], a[cp]);
                    let show = |x: u8| CATS.get(x as usize).map_or("none", |c| c.0);
                    if to == cn {
                        m.fail(format!("{name}: U+{cp:04X} became unassigned ({route:?})"));
                        return;
                    }
                    if !REASSIGNED.iter().any(|(w, l, h, f, t)| {
                        *w == v && *l <= cp as u32 && cp as u32 <= *h && show(from) == *f && show(to) == *t
                    }) {
                        m.fail(format!(
                            "{name}: U+{cp:04X} moved from {} to {} ({route:?}), which is not documented",
                            show(from),
                            show(to)
                        ));
                        return;
                    }
                    moved += 1;
                }
                let listed: u32 = REASSIGNED.iter().filter(|x| x.0 == v).map(|x| x.2 - x.1 + 1).sum();
                m.count("documented moves seen", moved);
                if moved != u64::from(listed) {
                    m.fail(format!("{name}: {moved} codepoints moved category where {listed} moves are documented"));
                }
                m.sample(|| format!("{} -> {name}: {moved} moved, {route:?}", VERSIONS[v - 1].0));
            }
            old = Some(a);
        }
    });
    sh.par("versions", 1, |m, _, _| {
        let list: Vec<UnicodeVersion> = UnicodeVersion::ALL.to_vec();
        let number = |v: &UnicodeVersion| -> Vec<u32> {
            v.as_str().split('.').map(|p| p.parse().unwrap_or(u32::MAX)).collect()
        };
        let numbers: Vec<Vec<u32>> = list.iter().map(number).collect();
        m.seen(Some(1));
        m.sample(|| format!("{list:?}"));
        if !numbers.windows(2).all(|w| w[0] < w[1]) {
            m.fail(format!("the bundled versions are not strictly ascending: {list:?}"));
        }
        if list.last() != Some(&UnicodeVersion::latest()) {
            m.fail(format!("{list:?} does not end with {:?}", UnicodeVersion::latest()));
        }
        if numbers.iter().any(|n| n.len() != 3 || n.contains(&u32::MAX)) {
            m.fail(format!("odd version numbers {numbers:?}"));
        }
        for (name, v) in VERSIONS {
            m.seen(None);
            if list.iter().filter(|x| **x == v).count() != 1 {
                m.fail(format!("{name} is not listed once in {list:?}"));
            }
            if v.as_str() != name {
                m.fail(format!("{v:?} is called {}", v.as_str()));
            }
        }
        for (i, v) in list.iter().enumerate() {
            // Whatever parses as a version is on the list.
            for a in 0..30 {
                for b in 0..4 {
                    for c in 0..4 {
                        if let Ok(x) = format!("{a}.{b}.{c}").parse::<UnicodeVersion>() {
                            if !list.contains(&x) {
                                m.fail(format!("{x:?} exists but is not listed"));
                            }
                        }
                    }
                }
            }
            if i == 0 && *v != VERSIONS[0].1 {
                m.fail(format!("the list starts with {v:?}"));
            }
        }
    });
}

pub fn c11(sh: &Shared) {
    sh.par("order", 11 * 16, |m, b, r| {
        let v = (b % 11) as usize;
        let (name, ver) = VERSIONS[v];
        let gold = &golden::all()[v].order;
        // From the crate's own interval counts, too.
        let Some(counts) = m.call(|| name.into(), || CATS.map(|c| ver.intervals_for(c.2).len())) else { return };
        let mut own: Vec<usize> = (0..30).filter(|i| CATS[*i].0 != "Cc" && CATS[*i].0 != "Cs").collect();
        own.sort_by_key(|i| (counts[*i], CATS[*i].0));
        own.push(2);
        own.push(26);
        for k in 0..sh.amount(40, 2000) {
            if m.stopping() {
                return;
            }
            let Some(got) = m.call(|| format!("{name}.normalized_categories()"), || ver.normalized_categories()) else {
                return;
            };
            let got: Vec<usize> = got.into_iter().map(index_of).collect();
            m.seen(Some(hash_of(&(v, k % 40))));
            let text = |o: &[usize]| o.iter().map(|i| CATS[*i].0).collect::<Vec<_>>().join(" ");
            if got != own || got != *gold {
                m.fail(format!("{name}: order {} instead of {} (by its tables {})", text(&got), text(gold), text(&own)));
                return;
            }
            m.sample(|| format!("{name}: {}", text(&got)));
            // Expanded names come in this order.
            let mut names: Vec<&str> = match k % 3 {
                0 => vec!["L", "M", "N", "P", "S", "Z", "C"],
                _ => CATS.iter().map(|c| c.0).collect(),
            };
            r.shuffle(&mut names);
            let Some(all) = m.call(|| format!("{name} {names:?}"), || as_general_categories(&names, ver)) else { return };
            let all: Vec<usize> = all.unwrap_or_default().into_iter().map(index_of).collect();
            if all != *gold {
                m.fail(format!("{name}: expanding {names:?} gives {} instead of {}", text(&all), text(gold)));
                return;
            }
            let some = gen::mask(r, v);
            let mut part: Vec<&str> = (0..30).filter(|i| some >> i & 1 != 0).map(|i| CATS[i].0).collect();
            r.shuffle(&mut part);
            let want: Vec<usize> = gold.iter().copied().filter(|i| some >> i & 1 != 0).collect();
            let Some(out) = m.call(|| format!("{name} {part:?}"), || as_general_categories(&part, ver)) else { return };
            let out: Vec<usize> = out.unwrap_or_default().into_iter().map(index_of).collect();
            m.seen(Some(hash_of(&(v, some))));
            if out != want {
                m.fail(format!("{name}: expanding {part:?} gives {} instead of {}", text(&out), text(&want)));
                return;
            }
            m.class("orders compared");
        }
    });
}
