//! Cases for the Python monitors: `pygen SEED FROM COUNT [--full]`, one JSON array per line: version,
//! categories, excluded categories, included and excluded characters, minimum, maximum, and either an
//! error kind or the expected intervals (a count and CRC when there are many).
use harness::bitmap::Bits;
use harness::gen;
use harness::mon::json;
use harness::names::{CATS, MAX, VERSIONS};
use harness::rng::Rng;
use harness::spec::Spec;
use std::io::Write;

fn crc(list: &[(u32, u32)]) -> u32 {
    let mut table = [0u32; 256];
    for (i, t) in table.iter_mut().enumerate() {
        let mut x = i as u32;
        for _ in 0..8 {
            x = if x & 1 != 0 { x >> 1 ^ 0xEDB8_8320 } else { x >> 1 };
        }
        *t = x;
    }
    let mut c = !0u32;
    for (a, b) in list {
        for byte in a.to_le_bytes().into_iter().chain(b.to_le_bytes()) {
            c = table[((c ^ u32::from(byte)) & 0xff) as usize] ^ c >> 8;
        }
    }
    !c
}

fn names(mask: Option<u32>) -> String {
    mask.map_or("null".into(), |m| {
        let l: Vec<String> = (0..30).filter(|i| m >> i & 1 != 0).map(|i| json(CATS[i].0)).collect();
        format!("[{}]", l.join(","))
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let full = a.iter().any(|x| x == "--full");
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    let mut bits = Bits::new();
    for block in n(2)..n(2) + n(3).div_ceil(20) {
        let mut r = Rng::new(n(1), 31, block);
        let mut last: Option<Spec> = None;
        for _ in 0..20 {
            let mut s = gen::next(&mut r, &last);
            last = Some(s.clone());
            match r.below(40) {
                0 => s.min = Some(*r.pick(&[MAX + 1, u32::MAX, 1 << 31, MAX])),
                1 => s.max = Some(*r.pick(&[MAX + 1, u32::MAX, 1 << 31, 0])),
                2 => std::mem::swap(&mut s.min, &mut s.max),
                _ => {}
            }
            let result = if s.lo() > MAX || s.hi() > MAX {
                "\"range\"".to_string()
            } else if s.lo() > s.hi() {
                "\"inverted\"".to_string()
            } else {
                s.model(&mut bits);
                let list = bits.intervals();
                if full || list.len() <= 4 {
                    let l: Vec<String> = list.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
                    format!("[{}]", l.join(","))
                } else {
                    format!("[{},{}]", list.len(), crc(&list))
                }
            };
            let num = |x: Option<u32>| x.map_or("null".into(), |x| x.to_string());
            let text = |x: &Option<String>| x.as_deref().map_or("null".into(), json);
            writeln!(
                out,
                "[{},{},{},{},{},{},{},{}]",
                json(VERSIONS[s.v].0),
                names(s.inc),
                names(s.exc),
                text(&s.inc_chars),
                text(&s.exc_chars),
                num(s.min),
                num(s.max),
                result
            )
            .expect("write");
        }
    }
}
