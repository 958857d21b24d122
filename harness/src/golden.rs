//! The general category of every codepoint in every bundled version (see tools/build_golden.py).
use crate::names::{cat_index, CATS, MAX, VERSIONS};
use std::sync::OnceLock;

static TEXT: &str = include_str!("../golden/gc.txt");

#[derive(Clone, Copy, Debug)]
pub struct Run {
    pub lo: u32,
    pub hi: u32,
    pub cat: u8,
}

pub struct Version {
    /// Maximal runs of one category, partitioning `0..=MAX`.
    pub runs: Vec<Run>,
    /// Intervals of each category.
    pub by_cat: Vec<Vec<(u32, u32)>>,
    /// Category indices in normalised order.
    pub order: Vec<usize>,
}

impl Version {
    pub fn cat_of(&self, cp: u32) -> usize {
        let i = self.runs.partition_point(|r| r.hi < cp);
        self.runs[i].cat as usize
    }
}

pub fn all() -> &'static [Version] {
    static G: OnceLock<Vec<Version>> = OnceLock::new();
    G.get_or_init(|| {
        let mut out: Vec<Vec<(u32, u8)>> = Vec::new();
        for line in TEXT.lines() {
            let (a, b) = line.split_once(' ').expect("golden line");
            if a == "V" {
                assert_eq!(VERSIONS[out.len()].0, b);
                out.push(Vec::new());
            } else {
                let cat = cat_index(b).expect("golden category") as u8;
                let start = u32::from_str_radix(a, 16).expect("golden start");
                out.last_mut().expect("golden version").push((start, cat));
            }
        }
        assert_eq!(out.len(), VERSIONS.len());
        out.into_iter()
            .map(|starts| {
                assert_eq!(starts[0].0, 0);
                let mut runs = Vec::new();
                for (i, (lo, cat)) in starts.iter().enumerate() {
                    let hi = starts.get(i + 1).map_or(MAX, |n| n.0 - 1);
                    assert!(*lo <= hi);
                    runs.push(Run { lo: *lo, hi, cat: *cat });
                }
                let mut by_cat = vec![Vec::new(); 30];
                for r in &runs {
                    by_cat[r.cat as usize].push((r.lo, r.hi));
                }
                let mut order: Vec<usize> =
                    (0..30).filter(|i| CATS[*i].0 != "Cc" && CATS[*i].0 != "Cs").collect();
                order.sort_by_key(|i| (by_cat[*i].len(), CATS[*i].0));
                order.push(cat_index("Cc").unwrap());
                order.push(cat_index("Cs").unwrap());
                Version { runs, by_cat, order }
            })
            .collect()
    })
}

/// Category of every codepoint of version `v`.
pub fn array(v: usize) -> Vec<u8> {
    let mut a = vec![0; MAX as usize + 1];
    for r in &all()[v].runs {
        a[r.lo as usize..=r.hi as usize].fill(r.cat);
    }
    a
}
