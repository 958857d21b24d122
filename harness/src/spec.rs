//! A query as data: how to run it on the crate, and what it must select.
use crate::bitmap::Bits;
use crate::golden;
use crate::names::{mask_str, set_of, ALL, MAX, VERSIONS};
use std::fmt;
use unicode_intervals::{Error, Interval, IntervalQuery, IntervalSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub v: usize,
    pub inc: Option<u32>,
    pub exc: Option<u32>,
    pub inc_chars: Option<String>,
    pub exc_chars: Option<String>,
    pub min: Option<u32>,
    pub max: Option<u32>,
}

impl Spec {
    pub fn new(v: usize) -> Spec {
        Spec { v, inc: None, exc: None, inc_chars: None, exc_chars: None, min: None, max: None }
    }
    pub fn lo(&self) -> u32 {
        self.min.unwrap_or(0)
    }
    pub fn hi(&self) -> u32 {
        self.max.unwrap_or(MAX)
    }
    pub fn selected(&self) -> u32 {
        self.inc.unwrap_or(ALL) & !self.exc.unwrap_or(0)
    }
    pub fn query(&self) -> IntervalQuery<'_> {
        let mut q = VERSIONS[self.v].1.query();
        if let Some(m) = self.inc {
            q = q.include_categories(set_of(m));
        }
        if let Some(m) = self.exc {
            q = q.exclude_categories(set_of(m));
        }
        if let Some(s) = &self.inc_chars {
            q = q.include_characters(s);
        }
        if let Some(s) = &self.exc_chars {
            q = q.exclude_characters(s);
        }
        if let Some(m) = self.min {
            q = q.min_codepoint(m);
        }
        if let Some(m) = self.max {
            q = q.max_codepoint(m);
        }
        q
    }
    pub fn run(&self) -> Result<Vec<Interval>, Error> {
        self.query().intervals()
    }
    pub fn run_set(&self) -> Result<IntervalSet, Error> {
        self.query().interval_set()
    }
    /// The codepoints a valid query must select.
    pub fn model(&self, b: &mut Bits) {
        b.clear();
        let g = &golden::all()[self.v];
        let sel = self.selected();
        let (lo, hi) = (self.lo(), self.hi());
        let first = g.runs.partition_point(|r| r.hi < lo);
        for r in &g.runs[first..] {
            if r.lo > hi {
                break;
            }
            if sel >> r.cat & 1 != 0 {
                b.fill(r.lo.max(lo), r.hi.min(hi));
            }
        }
        for c in self.inc_chars.iter().flat_map(|s| s.chars()) {
            b.set(c as u32);
        }
        for c in self.exc_chars.iter().flat_map(|s| s.chars()) {
            b.unset(c as u32);
        }
    }
    pub fn valid(&self) -> bool {
        self.lo() <= self.hi() && self.hi() <= MAX
    }
    pub fn hash64(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = Fnv(0xcbf2_9ce4_8422_2325);
        self.hash(&mut h);
        crate::rng::mix(h.finish())
    }
}

pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
        }
    }
}

pub fn chars_str(s: &Option<String>) -> String {
    match s {
        None => "unset".into(),
        Some(s) => {
            let n = s.chars().count();
            let mut v: Vec<String> =
                s.chars().take(24).map(|c| format!("U+{:04X}", c as u32)).collect();
            if n > 24 {
                v.push(format!("... {n} characters, fnv {:x}", {
                    use std::hash::Hasher;
                    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
                    h.write(s.as_bytes());
                    h.0
                }));
            }
            format!("[{}]", v.join(" "))
        }
    }
}

impl fmt::Display for Spec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "query {} include={} exclude={} include_chars={} exclude_chars={} min={} max={}",
            VERSIONS[self.v].0,
            self.inc.map_or("unset".into(), mask_str),
            self.exc.map_or("unset".into(), mask_str),
            chars_str(&self.inc_chars),
            chars_str(&self.exc_chars),
            self.min.map_or("unset".into(), |m| format!("{m:#x}")),
            self.max.map_or("unset".into(), |m| format!("{m:#x}")),
        )
    }
}

pub fn short(i: &[Interval]) -> String {
    if i.len() <= 12 {
        format!("{i:?}")
    } else {
        format!("[{} intervals: {:?} ... {:?}]", i.len(), &i[..4], &i[i.len() - 3..])
    }
}
