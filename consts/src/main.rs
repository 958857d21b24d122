//! The normalised order evaluated by the compiler, compared with the golden order and with run time.
use harness::golden;
use harness::mon::{hash_of, install_hook, Shared};
use harness::names::{index_of, CATS, VERSIONS};
use unicode_intervals::{UnicodeCategory, UnicodeVersion as V};

macro_rules! orders {
    ($($v:ident),*) => {
        const CONSTS: [[UnicodeCategory; 30]; 11] = [$(V::$v.normalized_categories()),*];
        static STATICS: [[UnicodeCategory; 30]; 11] = [$(V::$v.normalized_categories()),*];
        const LENGTHS: [usize; 11] = [$(V::$v.intervals_for(UnicodeCategory::Lu).len()),*];
    };
}
orders!(V9_0_0, V10_0_0, V11_0_0, V12_0_0, V12_1_0, V13_0_0, V14_0_0, V15_0_0, V15_1_0, V16_0_0, V17_0_0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut fake = vec![args[0].clone(), "C11".into()];
    fake.extend(args[1..].iter().cloned());
    let sh = Shared::from_args(&fake);
    install_hook();
    sh.par("compile-time", 11, |m, b, _| {
        let v = b as usize;
        let (name, ver) = VERSIONS[v];
        let gold = &golden::all()[v].order;
        let text = |o: &[usize]| o.iter().map(|i| CATS[*i].0).collect::<Vec<_>>().join(" ");
        let Some(now) = m.call(|| name.into(), || ver.normalized_categories()) else { return };
        for (how, list) in [("const", CONSTS[v]), ("static", STATICS[v]), ("run time", now)] {
            let got: Vec<usize> = list.into_iter().map(index_of).collect();
            m.seen(Some(hash_of(&(how, v))));
            if got != *gold {
                m.fail(format!("{name} ({how}): {} instead of {}", text(&got), text(gold)));
            }
        }
        if LENGTHS[v] != ver.intervals_for(UnicodeCategory::Lu).len() {
            m.fail(format!("{name}: interval counts differ between compile time and run time"));
        }
        m.sample(|| format!("const {name}: {:?}", CONSTS[v]));
    });
    std::process::exit(sh.finish());
}
