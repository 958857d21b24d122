//! What every method an iterator has by default must give, whichever of them a type overrides.
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;

/// Items are compared by the numbers they stand for; `k` varies where methods stop.
/// The iterators `make` gives must yield `want`; the answer names the first method that does not.
pub fn differs<T: Debug, I: Iterator<Item = T>>(make: impl Fn() -> I, number: impl Fn(&T) -> u32 + Copy, want: &[u32], k: usize) -> Option<String> {
    let n = want.len();
    let at = k % (n + 1);
    let stop = want.get(at).copied();
    let of = |x: Option<T>| x.map(|x| number(&x));
    let all = |v: Vec<T>| v.iter().map(number).collect::<Vec<_>>();
    let hit = |x: &T| Some(number(x)) == stop;
    macro_rules! same {
        ($($what:literal: $got:expr => $want:expr;)*) => {
            $(
                let (got, right) = ($got, $want);
                if got != right {
                    let both: String = format!("{got:?} instead of {right:?}").chars().take(300).collect();
                    return Some(format!("{} gives {both} (k = {k})", $what));
                }
            )*
        };
    }
    let odd = |x: u32| x % 3 == 0;
    let key = |x: u32| x.wrapping_mul(0x9E37_79B1) >> 7;
    same! {
        "position": make().position(|x| hit(&x)) => (at < n).then_some(at);
        "any": make().any(|x| hit(&x)) => at < n;
        "all": make().all(|x| !hit(&x)) => at >= n;
        "find_map": make().find_map(|x| hit(&x).then(|| number(&x) ^ 5)) => stop.map(|x| x ^ 5);
        "find": of(make().find(hit)) => stop;
        "nth": of(make().nth(at)) => stop;
        "last": of(make().last()) => want.last().copied();
        "count": make().count() => n;
        "skip_while": all(make().skip_while(|x| !hit(x)).collect()) => want[at..].to_vec();
        "take_while": all(make().take_while(|x| !hit(x)).collect()) => want[..at].to_vec();
        "map_while": make().map_while(|x| (!hit(&x)).then(|| number(&x))).collect::<Vec<_>>() => want[..at].to_vec();
        "scan": make().scan(0, |s, x| { *s = number(&x) ^ *s; Some(*s) }).last() => want.iter().copied().reduce(|a, b| a ^ b);
        "flat_map": make().flat_map(|x| [number(&x), 1]).count() => 2 * n;
        "inspect": { let mut v = vec![]; make().inspect(|x| v.push(number(x))).for_each(drop); v } => want.to_vec();
        "filter_map": make().filter_map(|x| odd(number(&x)).then(|| number(&x))).collect::<Vec<_>>()
            => want.iter().copied().filter(|x| odd(*x)).collect::<Vec<_>>();
        "partition": { let (a, b): (Vec<T>, Vec<T>) = make().partition(|x| odd(number(x))); (all(a), all(b)) }
            => want.iter().copied().partition(|x| odd(*x));
        "reduce": of(make().reduce(|a, b| if key(number(&a)) >= key(number(&b)) { a } else { b }))
            => want.iter().copied().reduce(|a, b| if key(a) >= key(b) { a } else { b });
        "min_by_key": of(make().min_by_key(|x| key(number(x)) % 16)) => want.iter().copied().min_by_key(|x| key(*x) % 16);
        "max_by_key": of(make().max_by_key(|x| key(number(x)) % 16)) => want.iter().copied().max_by_key(|x| key(*x) % 16);
        "min_by": of(make().min_by(|a, b| key(number(a)).cmp(&key(number(b))))) => want.iter().copied().min_by_key(|x| key(*x));
        "max_by": of(make().max_by(|a, b| key(number(a)).cmp(&key(number(b))))) => want.iter().copied().max_by_key(|x| key(*x));
        "unzip": { let (a, b): (Vec<u32>, Vec<u32>) = make().map(|x| (number(&x), !number(&x))).unzip(); (a, b.len()) } => (want.to_vec(), n);
        "sum": make().map(|x| u64::from(number(&x))).sum::<u64>() => want.iter().map(|x| u64::from(*x)).sum();
        "is_sorted_by": make().is_sorted_by(|a, b| number(a) <= number(b)) => want.is_sorted();
        "is_sorted_by_key": make().is_sorted_by_key(|x| key(number(&x))) => want.is_sorted_by_key(|x| key(*x));
        "step_by": all(make().step_by(1 + k % 7).collect()) => want.iter().copied().step_by(1 + k % 7).collect::<Vec<_>>();
        "chain": all(make().chain(make()).collect()) => want.repeat(2);
        "zip": make().zip(make()).filter(|(a, b)| number(a) == number(b)).count() => n;
        "enumerate": make().enumerate().filter(|(i, x)| want[*i] == number(x)).count() => n;
        "skip": all(make().skip(at).collect()) => want[at..].to_vec();
        "take": all(make().take(at).collect()) => want[..at].to_vec();
        "fuse": { let mut it = make().fuse(); let v = all(it.by_ref().collect()); (v, it.next().is_none()) } => (want.to_vec(), true);
        "peekable": {
            let mut it = make().peekable();
            let mut v = vec![];
            while it.peek().is_some() {
                v.extend(it.next_if(|x| !hit(x)).map(|x| number(&x)));
                if it.peek().is_some_and(hit) {
                    break;
                }
            }
            v
        } => want[..at].to_vec();
        "fold": make().fold(7u32, |a, x| a.wrapping_mul(31) ^ number(&x)) => want.iter().fold(7u32, |a, x| a.wrapping_mul(31) ^ x);
        "try_for_each": { let mut v = vec![]; let _ = make().try_for_each(|x| if hit(&x) { Err(()) } else { v.push(number(&x)); Ok(()) }); v }
            => want[..at].to_vec();
        "collect": all(make().collect()) => want.to_vec();
        "collect (deque)": make().map(|x| number(&x)).collect::<VecDeque<_>>() => want.iter().copied().collect::<VecDeque<_>>();
        "collect (list)": make().collect::<LinkedList<_>>().len() => n;
        "collect (set)": make().map(|x| number(&x)).collect::<HashSet<_>>().len() => n;
        "collect (tree)": make().map(|x| number(&x)).collect::<BTreeSet<_>>().into_iter().last() => want.iter().copied().max();
        "collect (result)": make().map(|x| if hit(&x) { Err(number(&x)) } else { Ok(x) }).collect::<Result<Vec<_>, _>>().map(all)
            => stop.map_or(Ok(want.to_vec()), Err);
        "extend": { let mut v = vec![]; v.extend(make()); all(v) } => want.to_vec();
        "boxed": { let mut b: Box<dyn Iterator<Item = T>> = Box::new(make()); (of(b.nth(at)), b.count()) } => (stop, (n - at).saturating_sub(1));
        "by reference": { let mut it = make(); let some = it.by_ref().take(at).count(); (some, it.count()) } => (at, n - at);
    }
    None
}

/// Also from the back.
pub fn differs_backwards<T: Debug, I: DoubleEndedIterator<Item = T>>(make: impl Fn() -> I, number: impl Fn(&T) -> u32 + Copy, want: &[u32], k: usize) -> Option<String> {
    let back: Vec<u32> = want.iter().rev().copied().collect();
    if let Some(why) = differs(|| make().rev(), number, &back, k) {
        return Some(format!("backwards, {why}"));
    }
    let at = k % (want.len() + 1);
    let stop = back.get(at).copied();
    let of = |x: Option<T>| x.map(|x| number(&x));
    let got = [of(make().rfind(|x| Some(number(x)) == stop)), of(make().nth_back(at))];
    if got != [stop; 2] {
        return Some(format!("rfind and nth_back give {got:?} instead of {stop:?} (k = {k})"));
    }
    let mut v = vec![];
    let _ = make().try_rfold((), |(), x| if Some(number(&x)) == stop { Err(()) } else { v.push(number(&x)); Ok(()) });
    if v != back[..at] {
        return Some(format!("try_rfold passes {} items instead of {at}", v.len()));
    }
    let v = make().rfold(vec![], |mut v, x| {
        v.push(number(&x));
        v
    });
    (v != back).then(|| format!("rfold passes {} items of {}", v.len(), back.len()))
}

/// Comparisons of whole sequences of numbers, and what needs an order.
pub fn differs_ordered<I: Iterator<Item = u32> + Clone>(it: &I, want: &[u32], k: usize) -> Option<String> {
    let mut other = want.to_vec();
    match k % 5 {
        0 => {}
        1 => other.truncate(k / 5 % (want.len() + 1)),
        2 => other.push(k as u32),
        _ if want.is_empty() => {}
        _ => other[k / 5 % want.len()] ^= 1 << (k % 21),
    }
    let it = || it.clone();
    let o = || other.iter().copied();
    let order = want.cmp(&other[..]);
    let got = [
        ("eq", it().eq(o()), order == Ordering::Equal),
        ("ne", it().ne(o()), order != Ordering::Equal),
        ("lt", it().lt(o()), order == Ordering::Less),
        ("le", it().le(o()), order != Ordering::Greater),
        ("gt", it().gt(o()), order == Ordering::Greater),
        ("ge", it().ge(o()), order != Ordering::Less),
        ("cmp", it().cmp(o()) == order, true),
        ("partial_cmp", it().partial_cmp(o()) == Some(order), true),
        ("the other's cmp", o().cmp(it()) == order.reverse(), true),
        ("is_sorted", it().is_sorted(), want.is_sorted()),
        ("min", it().min() == want.iter().copied().min(), true),
        ("max", it().max() == want.iter().copied().max(), true),
        ("cycle", it().cycle().take(2 * want.len()).eq(want.iter().chain(want).copied()), true),
        ("min and max by order", it().min_by(Ord::cmp) == want.iter().copied().min() && it().max_by(Ord::cmp) == want.iter().copied().max(), true),
    ];
    got.iter().find(|g| g.1 != g.2).map(|g| format!("{} (k = {k})", g.0))
}
