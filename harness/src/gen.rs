//! Query specifications: varied, hostile, and close to where implementations switch behaviour.
use crate::golden;
use crate::names::{major_mask, ALL, CATS, MAJORS, MAX, VERSIONS};
use crate::rng::Rng;
use crate::spec::Spec;
use std::sync::OnceLock;

/// Codepoints at which something changes.
pub const EDGES: [u32; 48] = [
    0, 1, 31, 32, 47, 48, 57, 63, 64, 65, 90, 97, 122, 126, 127, 128, 159, 160, 191, 192, 193, 223,
    254, 255, 256, 257, 319, 320, 511, 512, 0x7FF, 0x800, 0x2603, 0x2FFF, 0xD7FF, 0xD800, 0xDBFF,
    0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x1_0000, 0x2_0000, 0xF_FFFF, 0x10_FFFE, MAX,
];

const LENGTHS: [usize; 31] = [
    1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128,
    129, 255, 256, 257,
];
const LONG: [usize; 8] = [300, 511, 512, 513, 1000, 1025, 2048, 4097];

/// Run ends of a version and their neighbours.
pub fn points(v: usize) -> &'static [u32] {
    static P: OnceLock<Vec<Vec<u32>>> = OnceLock::new();
    &P.get_or_init(|| {
        golden::all()
            .iter()
            .map(|g| {
                let mut p: Vec<u32> = EDGES.to_vec();
                for r in &g.runs {
                    for d in [r.lo.wrapping_sub(1), r.lo, r.hi, r.hi + 1] {
                        if d <= MAX {
                            p.push(d);
                        }
                    }
                }
                p.sort_unstable();
                p.dedup();
                p
            })
            .collect()
    })[v]
}

pub fn point(r: &mut Rng, v: usize) -> u32 {
    let p = points(v);
    match r.below(10) {
        0..=4 => *r.pick(p),
        5 => *r.pick(&EDGES),
        6 => (r.pick(p) / 64) * 64 + if r.chance(50) { 63 } else { 0 },
        7 => r.range(0, 0x2FF),
        8 => r.range(0, MAX) >> r.below(14),
        _ => r.range(0, MAX),
    }
}

pub fn mask(r: &mut Rng, v: usize) -> u32 {
    match r.below(14) {
        0 => 0,
        12 => popular(r),
        1 => ALL,
        2 | 3 => 1 << r.below(30),
        4 | 5 => 1 << r.below(30) | 1 << r.below(30),
        6 => 1 << r.below(30) | 1 << r.below(30) | 1 << r.below(30),
        7 => {
            let mut m = major_mask(r.pick(&MAJORS).0);
            if r.chance(40) {
                m |= major_mask(r.pick(&MAJORS).0);
            }
            if r.chance(30) {
                m ^= 1 << r.below(30);
            }
            m
        }
        8 => ALL & !(1 << r.below(30)),
        9 => ALL & !(1 << r.below(30) | 1 << r.below(30)),
        10 => {
            // Prefix or suffix of the normalised order.
            let o = &golden::all()[v].order;
            let n = r.idx(31);
            let m: u32 = o[..n].iter().map(|i| 1 << i).sum();
            if r.chance(50) {
                m
            } else {
                ALL & !m
            }
        }
        11 => (r.next() & r.next()) as u32 & ALL,
        _ => r.next() as u32 & ALL,
    }
}

/// Selections that programs ask for, and their neighbours.
fn popular(r: &mut Rng) -> u32 {
    const NAMED: [&str; 22] = [
        "Lu Ll Lt", "Lu Ll", "Lu Lt", "L Nl", "L Nl Mn Mc Nd Pc", "L Nd Pc", "L N", "L M", "L M N", "P S", "L M N P S", "L M N P S Zs",
        "L M N P S Z", "Mn Me", "Z Cc", "C Z", "Cc Cs", "Cs Co", "Co Cn", "Cs Cn", "Cc Cf Cs Co Cn", "Cc Cf",
    ];
    let mut m = r.pick(&NAMED).split(' ').fold(0, |m, n| m | of_name(n));
    if r.chance(35) {
        m = ALL & !m;
    }
    if r.chance(25) {
        m ^= 1 << r.below(30);
    }
    m
}

fn of_name(n: &str) -> u32 {
    if n.len() == 1 {
        major_mask(n)
    } else {
        CATS.iter().position(|c| c.0 == n).map_or(0, |i| 1 << i)
    }
}

pub fn include(r: &mut Rng, v: usize) -> Option<u32> {
    if r.chance(25) {
        None
    } else {
        Some(mask(r, v))
    }
}

pub fn exclude(r: &mut Rng, v: usize, inc: Option<u32>) -> Option<u32> {
    match r.below(20) {
        0..=8 => None,
        9 => Some(0),
        10 => Some(inc.unwrap_or(ALL)),
        11 => Some(ALL & !inc.unwrap_or(0)),
        12 => Some(inc.unwrap_or(ALL) & r.next() as u32),
        13 => {
            // Leave a single category.
            let m = inc.unwrap_or(ALL);
            let keep = (0..30).cycle().skip(r.idx(30)).take(30).find(|i| m >> i & 1 != 0);
            Some(ALL & !keep.map_or(0, |i| 1 << i))
        }
        _ => Some(mask(r, v)),
    }
}

pub fn bounds(r: &mut Rng, v: usize) -> (Option<u32>, Option<u32>) {
    let (mut a, mut b) = match r.below(14) {
        0..=2 => return (None, None),
        3 => return (Some(point(r, v)), None),
        4 => return (None, Some(point(r, v))),
        5 => (r.range(0, 255), r.range(0, 255)),
        6 => (r.range(0, 255), r.range(250, 320)),
        7 => {
            let p = point(r, v);
            (p, p)
        }
        8 | 9 => {
            let p = point(r, v);
            let w = 1u32 << r.below(12);
            (p.saturating_sub(r.range(0, w)), (p + r.range(0, w)).min(MAX))
        }
        10 => (r.range(0, 3), MAX - r.range(0, 3)),
        11 => (0, point(r, v)),
        12 => (point(r, v), MAX),
        _ => (point(r, v), point(r, v)),
    };
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    (Some(a), Some(b))
}

fn to_char(cp: u32) -> char {
    char::from_u32(cp).unwrap_or(if cp & 1 == 0 { '\u{D7FF}' } else { '\u{E000}' })
}

pub fn character(r: &mut Rng, v: usize, latin: bool) -> char {
    if latin {
        return to_char(match r.below(4) {
            0 => r.range(0, 127),
            1 => *r.pick(&EDGES[..24]),
            _ => r.range(0, 255),
        });
    }
    to_char(match r.below(8) {
        0 => r.range(0, 127),
        1 => r.range(0, 255),
        2 | 3 => *r.pick(points(v)),
        4 => *r.pick(&EDGES),
        5 => r.range(0, 0x3FFF),
        6 => r.range(0, MAX),
        _ => point(r, v),
    })
}

/// A string; `near` are codepoints worth hitting or brushing past.
pub fn string(r: &mut Rng, v: usize, latin: bool, near: &[u32]) -> String {
    sized(r, v, latin, near, false)
}

fn sized(r: &mut Rng, v: usize, latin: bool, near: &[u32], long: bool) -> String {
    let top = if latin { 255 } else { MAX };
    let n = match r.below(60) {
        _ if long => *r.pick(&LONG) + r.idx(100),
        0..=3 => 0,
        4..=30 => 1 + r.idx(5),
        31 if !latin => *r.pick(&LONG),
        _ => *r.pick(&LENGTHS),
    };
    let mut cs: Vec<char> = Vec::with_capacity(n);
    let style = r.below(9);
    let start = character(r, v, latin) as u32;
    for i in 0..n as u32 {
        let c = match style {
            // A solid block, and one with holes.
            0 => to_char((start + i).min(top)),
            1 => to_char((start + 2 * i).min(top)),
            // Walk around.
            2 => {
                let last = cs.last().map_or(start, |c| *c as u32);
                to_char((last + r.range(0, 3)).saturating_sub(1).min(top))
            }
            3 => to_char(start),
            4 | 5 if !near.is_empty() => {
                let p = *r.pick(near);
                to_char((p + r.range(0, 2)).saturating_sub(1).min(top))
            }
            _ => character(r, v, latin),
        };
        cs.push(c);
    }
    if cs.len() > 1 {
        match r.below(6) {
            0 => cs.sort_unstable(),
            1 => {
                cs.sort_unstable();
                cs.reverse();
            }
            2 => r.shuffle(&mut cs),
            3 => {
                // Sorted but for one element.
                cs.sort_unstable();
                let (i, j) = (r.idx(cs.len()), r.idx(cs.len()));
                cs.swap(i, j);
            }
            4 => {
                let k = cs.len() / 2;
                let c = cs[0];
                cs.truncate(k.max(1));
                cs.extend(cs.clone());
                cs.push(c);
            }
            _ => {}
        }
    }
    cs.into_iter().collect()
}

/// Codepoints at the edges of what `s` selects.
fn hot(r: &mut Rng, s: &Spec) -> Vec<u32> {
    let mut near = Vec::new();
    let g = &golden::all()[s.v];
    let sel = s.selected();
    for _ in 0..6 {
        let lo = s.lo().min(MAX);
        let hi = s.hi().min(MAX);
        if lo <= hi {
            let first = g.runs.partition_point(|x| x.hi < lo);
            let last = g.runs.partition_point(|x| x.lo <= hi);
            if first < last {
                let run = g.runs[first + r.idx(last - first)];
                if sel >> run.cat & 1 != 0 || r.chance(30) {
                    near.push(run.lo.max(lo));
                    near.push(run.hi.min(hi));
                }
            }
            near.push(lo);
            near.push(hi);
        }
    }
    if let Some(cs) = &s.inc_chars {
        for c in cs.chars().take(40) {
            near.push(c as u32);
        }
    }
    near
}

/// A valid specification.
pub fn spec(r: &mut Rng) -> Spec {
    let v = r.idx(VERSIONS.len());
    let mut s = Spec::new(v);
    s.inc = include(r, v);
    s.exc = exclude(r, v, s.inc);
    let latin = r.chance(20);
    let long = r.chance(2);
    (s.min, s.max) = bounds(r, v);
    if latin {
        let (a, b) = (r.range(0, 255), r.range(0, 255));
        s.max = Some(a.max(b));
        s.min = if r.chance(25) { None } else { Some(a.min(b)) };
    }
    if long || r.chance(55) {
        let near = hot(r, &s);
        let latin = latin && r.chance(90);
        s.inc_chars = Some(sized(r, v, latin, &near, long));
    }
    if long || r.chance(50) {
        let near = hot(r, &s);
        let latin = latin && r.chance(90);
        s.exc_chars = Some(sized(r, v, latin, &near, long));
    }
    s
}

/// Change one thing.
pub fn mutate(r: &mut Rng, s: &Spec) -> Spec {
    let mut s = s.clone();
    match r.below(12) {
        0 => s.v = r.idx(VERSIONS.len()),
        1 => s.inc = include(r, s.v),
        2 => s.exc = exclude(r, s.v, s.inc),
        3 => {
            let b = 1 << r.below(30);
            match r.below(2) {
                0 => s.inc = Some(s.inc.unwrap_or(ALL) ^ b),
                _ => s.exc = Some(s.exc.unwrap_or(0) ^ b),
            }
        }
        4 => {
            let near = hot(r, &s);
            s.inc_chars = Some(string(r, s.v, false, &near));
        }
        5 => {
            let near = hot(r, &s);
            s.exc_chars = Some(string(r, s.v, false, &near));
        }
        6 => (s.min, s.max) = bounds(r, s.v),
        7 => s.min = Some(r.range(0, s.hi())),
        8 => s.max = Some(r.range(s.lo(), MAX)),
        9 => std::mem::swap(&mut s.inc_chars, &mut s.exc_chars),
        10 => {
            if r.chance(50) {
                s.inc_chars = None;
            } else {
                s.exc_chars = None;
            }
        }
        _ => {
            // One character replaced by another, same length in bytes where possible.
            let f = if r.chance(50) { &mut s.inc_chars } else { &mut s.exc_chars };
            if let Some(t) = f {
                let mut cs: Vec<char> = t.chars().collect();
                if !cs.is_empty() {
                    let i = r.idx(cs.len());
                    let c = cs[i] as u32;
                    cs[i] = char::from_u32(c ^ 1).unwrap_or(cs[i]);
                    *t = cs.into_iter().collect();
                }
            }
        }
    }
    s
}

/// Independent specifications interleaved with chains of small changes.
pub fn next(r: &mut Rng, last: &Option<Spec>) -> Spec {
    match last {
        Some(s) if r.chance(35) => mutate(r, s),
        _ => spec(r),
    }
}

/// How many intervals a list may have where implementations count or divide.
pub fn counts() -> Vec<usize> {
    let mut n: Vec<usize> = (4..=18).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    n.extend([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 99, 100, 101, 999, 1000, 1001, 9999, 10_000, 10_001, 99_999, 100_000, 100_001, 400_000]);
    n
}

/// Characters that make exactly `n` intervals, at most of them long, which lie before, between or after the short.
pub fn counted(r: &mut Rng, n: usize) -> String {
    // What is left over once every interval and gap has its one codepoint.
    let mut left = 0x10_F7FE_usize.saturating_sub(2 * n + 2);
    let mut length = vec![1usize; n];
    let mut gap = vec![1usize; n];
    let style = r.below(7);
    for k in 0..n.min(if style == 6 { 0 } else { 1 + r.idx(40) }) {
        let at = match style {
            0 => k,
            1 => n - 1 - k,
            2 => (n / 2 + k) % n,
            3 => k * n / 40 % n,
            _ => r.idx(n),
        };
        let more = (1usize << r.below(19)).min(left);
        if r.chance(60) {
            length[at] += more;
        } else {
            gap[at] += more;
        }
        left -= more;
    }
    if style == 5 {
        // Lengths and gaps that vary a little, all along.
        for x in length.iter_mut().chain(gap.iter_mut()) {
            let more = r.idx(4).min(left);
            *x += more;
            left -= more;
        }
    }
    let mut at = if r.chance(30) { 0 } else { r.idx(left + 1) };
    let mut out = String::new();
    // Counted without the surrogates, which are stepped over inside a gap.
    let real = |x: usize| if x < 0xD800 { x } else { x + 0x800 } as u32;
    for (l, g) in length.iter().zip(&gap) {
        if at < 0xD800 && at + l > 0xD800 {
            at = 0xD800;
        }
        out.extend((at..at + l).filter_map(|x| char::from_u32(real(x))));
        at += l + g;
    }
    out
}

/// The `i`-th character of a sequence without neighbours.
fn spaced(i: usize) -> char {
    let c = 0x100 + 2 * (i as u32 % 500_000);
    char::from_u32(if c < 0xD800 { c } else { c + 0x800 }).unwrap()
}

pub const PATTERNS: [&str; 14] = [
    "ascending", "descending", "shuffled", "one character", "two characters", "organ pipe", "sawtooth", "contiguous",
    "Latin-1", "Latin-1 descending", "far then Latin-1", "runs", "doubled", "sorted but the last",
];

/// `n` characters in a certain order, moved by `offset`.
pub fn pattern(pattern: &str, n: usize, offset: u32) -> String {
    let shift = |c: char| char::from_u32(c as u32 + offset).unwrap_or(c);
    let mut v: Vec<char> = match pattern {
        "one character" => vec!['\u{1234}'; n],
        "two characters" => (0..n).map(|i| spaced(i % 2 * 77)).collect(),
        "organ pipe" => (0..n).map(|i| spaced(i.min(n - i))).collect(),
        "sawtooth" => (0..n).map(|i| spaced(i % 97 * 31 + i / 97)).collect(),
        "contiguous" => (0..n as u32).map(|i| char::from_u32(0x1_0000 + i % 0xF_FFFF).unwrap()).collect(),
        "Latin-1" => (0..n as u32).map(|i| char::from_u32(i * 3 % 256).unwrap()).collect(),
        "Latin-1 descending" => (0..n as u32).map(|i| char::from_u32(255 - i % 256).unwrap()).collect(),
        "far then Latin-1" => {
            (0..n as u32).map(|i| char::from_u32(if i == 0 { MAX } else { i % 200 }).unwrap()).collect()
        }
        "runs" => (0..n as u32).map(|i| char::from_u32(0x1_0000 + i + i / 5).unwrap_or('\u{1}')).collect(),
        "doubled" => (0..n).map(|i| spaced(i / 2)).collect(),
        "sorted but the last" => (0..n).map(|i| spaced(if i + 1 == n { 0 } else { i + 1 })).collect(),
        _ => (0..n).map(spaced).collect(),
    };
    match pattern {
        "descending" => v.reverse(),
        "shuffled" => Rng::new(5, 5, 5).shuffle(&mut v),
        _ => {}
    }
    if offset == 0 {
        v.into_iter().collect()
    } else {
        v.into_iter().map(shift).collect()
    }
}
