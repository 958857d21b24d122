//! C19: calls from everywhere in a program's life. Each process makes the same operations in places of its own
//! and prints their digests, a line each; the parent compares them with the same operations made plainly.
use harness::mon::{hash_of, Mon, Shared};
use harness::names::{set_of, VERSIONS};
use harness::rng::Rng;
use harness::simple::{operation, Digest};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use unicode_intervals::{as_general_categories, UnicodeCategorySet, UnicodeVersion};

struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn note(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l);
    }
}
#[global_allocator]
static A: Counting = Counting;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, signal: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn atexit(f: extern "C" fn()) -> i32;
    fn alarm(seconds: u32) -> u32;
}

static SEED: AtomicU64 = AtomicU64::new(0);
static BLOCK: AtomicU64 = AtomicU64::new(0);
const KINDS: [&str; 7] = ["unwinding", "thread's end", "exit", "fork", "caller's code", "start", "caller's panic"];
const PATIENCE: u64 = 60;

/// Nothing of Rust's standard streams: they may be locked, or gone.
fn put(line: &str) {
    let line = format!("{line}\n");
    unsafe { write(1, line.as_ptr().cast(), line.len()) };
}

fn run_op(seed: u64, b: u64, i: u64) -> String {
    let mut d = Digest(i);
    let mut label = String::new();
    match operation(&mut Rng::new(seed, 91, b * 4096 + i), &mut d, 30, &mut label) {
        Ok(()) => format!("{:016x}", d.0),
        Err(e) => format!("panic: {} in {label:.200}", e.replace('\n', " ")),
    }
}

/// Some operations of this process' block, and where.
fn calls(place: &str, from: u64, n: u64) {
    let (seed, b) = (SEED.load(Relaxed), BLOCK.load(Relaxed));
    for i in from..from + n {
        put(&format!("{place}\t{i}\t{}", run_op(seed, b, i)));
    }
}

struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)();
    }
}

/// What callers' code panics with.
struct Boom;
fn boom() -> ! {
    // Without the hook, which would print.
    resume_unwind(Box::new(Boom))
}

fn unwinding() {
    for i in 0..6 {
        if i % 2 == 1 {
            calls("plain", i * 4, 2);
        }
        let r = catch_unwind(|| {
            let _outer = OnDrop(|| {
                calls("while a panic unwinds", i * 4, 4);
                let again = catch_unwind(|| {
                    let _inner = OnDrop(|| calls("while a second panic unwinds", i * 4, 2));
                    boom()
                });
                if again.is_ok() {
                    put("status\tsecond panic\tlost");
                }
            });
            boom()
        });
        put(if r.is_err() { "status\tpanic\t0" } else { "status\tpanic\tlost" });
        calls("after a panic", i * 4, 4);
    }
    let t = std::thread::spawn(|| {
        let _x = OnDrop(|| calls("in a thread that dies of a panic", 30, 6));
        boom()
    });
    put(if t.join().is_err() { "status\tthread\t0" } else { "status\tthread\tlost" });
    calls("after a thread died", 30, 6);
}

struct Late(&'static str, u64, u64);
impl Drop for Late {
    fn drop(&mut self) {
        calls(self.0, self.1, self.2);
    }
}
thread_local! {
    static FIRST: RefCell<Option<Late>> = const { RefCell::new(None) };
    static SECOND: RefCell<Option<Late>> = const { RefCell::new(None) };
    static THIRD: RefCell<Option<Again>> = const { RefCell::new(None) };
}
/// Comes to life again while the thread's variables go.
struct Again;
impl Drop for Again {
    fn drop(&mut self) {
        calls("last variable of a thread", 20, 3);
        let _ = SECOND.try_with(|s| *s.borrow_mut() = Some(Late("variable made while others went", 23, 3)));
    }
}

fn threads_end() {
    for round in 0..4 {
        for style in 0..4u64 {
            let body = move || {
                // What is registered first may go first or last; both are tried.
                FIRST.with(|f| *f.borrow_mut() = Some(Late("variable of a thread, from before its calls", 0, 8)));
                if style != 0 {
                    calls("thread", style * 3, 9);
                }
                if style == 3 {
                    THIRD.with(|s| *s.borrow_mut() = Some(Again));
                } else {
                    SECOND.with(|s| *s.borrow_mut() = Some(Late("variable of a thread, from after its calls", 8, 8)));
                }
                if style == 2 {
                    boom()
                }
            };
            let t = std::thread::spawn(body);
            let died = t.join().is_err();
            put(if died == (style == 2) { "status\tthread\t0" } else { "status\tthread\tdied" });
        }
        calls("after threads", round * 8, 8);
    }
    FIRST.with(|f| *f.borrow_mut() = Some(Late("variable of the main thread", 0, 8)));
}

extern "C" fn at_exit_early() {
    calls("exit handler from before the first call", 0, 12);
}
extern "C" fn at_exit_late() {
    calls("exit handler", 12, 12);
    std::thread::spawn(|| calls("thread started in an exit handler", 6, 12)).join().expect("joined");
}
fn exit() {
    unsafe { atexit(at_exit_early) };
    if BLOCK.load(Relaxed) % 3 > 0 {
        calls("plain", 4, 12);
    }
    unsafe { atexit(at_exit_late) };
    if BLOCK.load(Relaxed) % 2 > 0 {
        FIRST.with(|f| *f.borrow_mut() = Some(Late("variable of the main thread", 0, 8)));
    }
    put("status\tmain\t0");
    std::process::exit(0);
}

fn forked(place: &str, from: u64, n: u64, deeper: bool) {
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { alarm(PATIENCE as u32) };
        calls(place, from, n);
        if deeper {
            forked("child of a child", from, n, false);
        }
        unsafe { _exit(0) };
    }
    // No clock: it may be odd.
    let mut polls = 0;
    loop {
        let mut status = 0;
        if unsafe { waitpid(pid, &mut status, 1) } == pid {
            return put(&format!("status\t{place}\t{status}"));
        }
        polls += 1;
        if polls > PATIENCE * 2000 {
            unsafe { kill(pid, 9) };
            unsafe { waitpid(pid, &mut status, 0) };
            return put(&format!("status\t{place}\tdid not end"));
        }
        std::thread::sleep(std::time::Duration::from_micros(500));
    }
}

fn forks() {
    forked("child forked before the first call", 0, 10, true);
    calls("parent", 0, 3);
    forked("child forked after the first call", 0, 10, true);
    let stop = AtomicBool::new(false);
    let (seed, b) = (SEED.load(Relaxed), BLOCK.load(Relaxed));
    std::thread::scope(|s| {
        for t in 0..3u64 {
            let stop = &stop;
            s.spawn(move || {
                let mut i = t * 5;
                while !stop.load(Relaxed) {
                    std::hint::black_box(run_op(seed, b, i % 40));
                    i += 1;
                }
            });
        }
        for i in 0..12 {
            forked("child forked while threads call", i * 3, 6, i % 4 == 0);
        }
        stop.store(true, Relaxed);
    });
    calls("parent", 0, 20);
}

/// Where the caller's code does something of its own.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Spot {
    Into,
    Next,
    Hint,
    AsRef,
    DropItem,
    DropIterator,
    Never,
}
const SPOTS: [Spot; 7] = [Spot::Into, Spot::Next, Spot::Hint, Spot::AsRef, Spot::DropItem, Spot::DropIterator, Spot::Never];

/// An action for one spot, done once, at the `k`-th time the spot is come by.
struct Trap<'a> {
    spot: Spot,
    left: Cell<usize>,
    done: Cell<bool>,
    act: &'a dyn Fn(),
}
impl Trap<'_> {
    fn pass(&self, spot: Spot) {
        if spot == self.spot && !self.done.get() {
            if self.left.get() == 0 {
                self.done.set(true);
                (self.act)();
            } else {
                self.left.set(self.left.get() - 1);
            }
        }
    }
}
struct Names<'a>(&'a [String], &'a Trap<'a>);
struct Items<'a>(std::slice::Iter<'a, String>, &'a Trap<'a>);
struct Item<'a>(String, &'a Trap<'a>);
impl<'a> IntoIterator for Names<'a> {
    type Item = Item<'a>;
    type IntoIter = Items<'a>;
    fn into_iter(self) -> Items<'a> {
        self.1.pass(Spot::Into);
        Items(self.0.iter(), self.1)
    }
}
impl<'a> Iterator for Items<'a> {
    type Item = Item<'a>;
    fn next(&mut self) -> Option<Item<'a>> {
        self.1.pass(Spot::Next);
        self.0.next().map(|n| Item(n.clone(), self.1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1.pass(Spot::Hint);
        self.0.size_hint()
    }
}
impl Drop for Items<'_> {
    fn drop(&mut self) {
        self.1.pass(Spot::DropIterator);
    }
}
impl AsRef<str> for Item<'_> {
    fn as_ref(&self) -> &str {
        self.1.pass(Spot::AsRef);
        &self.0
    }
}
impl Drop for Item<'_> {
    fn drop(&mut self) {
        self.1.pass(Spot::DropItem);
    }
}
/// A conversion with something in it.
struct Point<'a>(u32, &'a dyn Fn());
impl From<Point<'_>> for u32 {
    fn from(p: Point<'_>) -> u32 {
        (p.1)();
        p.0
    }
}
struct Chosen<'a>(Option<UnicodeCategorySet>, &'a dyn Fn());
impl From<Chosen<'_>> for Option<UnicodeCategorySet> {
    fn from(c: Chosen<'_>) -> Self {
        (c.1)();
        c.0
    }
}

fn names(r: &mut Rng) -> Vec<String> {
    const SOME: [&str; 12] = ["L", "Lu", "Nd", "C", "Zs", "N", "Sm", "Co", "P", "Mn", "Lt", "Z"];
    let n = r.idx(9);
    let mut out: Vec<String> = (0..n).map(|_| (*r.pick(&SOME)).to_string()).collect();
    if r.chance(6) {
        out.push("a name that does not exist".into());
    }
    out
}

fn expanded(x: Result<Vec<unicode_intervals::UnicodeCategory>, unicode_intervals::Error>) -> String {
    match x {
        Ok(v) => v.iter().fold(String::new(), |mut s, c| {
            let _ = write!(s, "{c} ");
            s
        }),
        Err(e) => e.to_string(),
    }
}

/// Calls whose arguments run code of the caller's: library calls there, or panics.
fn callers(panics: bool) {
    let (seed, b) = (SEED.load(Relaxed), BLOCK.load(Relaxed));
    let mut r = Rng::new(seed, 92, b);
    let place = if panics { "after a panic of the caller's" } else { "within a call" };
    for round in 0..60u64 {
        let version = VERSIONS[r.idx(VERSIONS.len())].1;
        let list = names(&mut r);
        let want = expanded(as_general_categories(&list, version));
        let (spot, k, seed_op) = (*r.pick(&SPOTS), r.idx(4), r.below(30));
        let act: &dyn Fn() = if panics { &|| boom() } else { &|| calls("within a call", seed_op, 2) };
        let set = set_of(r.next() as u32 & 0x3FFF_FFFF);
        let spaces = version.query().include_categories(UnicodeCategorySet::from(unicode_intervals::UnicodeCategory::Zs));
        let s = spaces.interval_set().expect("valid");
        let point = r.range(0, 0x3100);
        // Once to warm up, then nothing more may stay.
        let mut live = 0;
        for again in 0..4 {
            if again == 1 {
                live = LIVE.with(Cell::get);
            }
            let trap = Trap { spot, left: Cell::new(k), done: Cell::new(false), act };
            let got = catch_unwind(AssertUnwindSafe(|| expanded(as_general_categories(Names(&list, &trap), version))));
            let armed = panics && trap.done.get();
            match got {
                Ok(x) if !armed && x == want => {}
                Err(p) if armed && p.is::<Boom>() => {}
                Ok(x) => put(&format!("status\texpanding {list:?} for {version}, {spot:?}\tgave {x} instead of {want}, panicked {armed}")),
                Err(_) => put(&format!("status\texpanding {list:?} for {version}, {spot:?}\tanother panic")),
            }
            // Lookups and settings convert too.
            let what: [(&str, String, Box<dyn Fn(&dyn Fn()) -> String + '_>); 5] = [
                ("contains", s.contains(point).to_string(), Box::new(|f| s.contains(Point(point, f)).to_string())),
                ("index_of", format!("{:?}", s.index_of(point)), Box::new(|f| format!("{:?}", s.index_of(Point(point, f))))),
                ("index_above", s.index_above(point).to_string(), Box::new(|f| s.index_above(Point(point, f)).to_string())),
                (
                    "include_categories",
                    format!("{:?}", version.query().max_codepoint(300).include_categories(set).intervals()),
                    Box::new(|f| format!("{:?}", version.query().max_codepoint(300).include_categories(Chosen(Some(set), f)).intervals())),
                ),
                (
                    "exclude_categories",
                    format!("{:?}", version.query().max_codepoint(300).exclude_categories(set).intervals()),
                    Box::new(|f| format!("{:?}", version.query().max_codepoint(300).exclude_categories(Chosen(Some(set), f)).intervals())),
                ),
            ];
            let (name, plain, call) = &what[(round as usize + again) % what.len()];
            match catch_unwind(AssertUnwindSafe(|| call(act))) {
                Ok(x) if !panics && x == *plain => {}
                Err(p) if panics && p.is::<Boom>() => {}
                Ok(x) => put(&format!("status\t{name} with {point}\tgave {x:.300} instead of {plain:.300}")),
                Err(_) => put(&format!("status\t{name}\tanother panic")),
            }
        }
        let grown = LIVE.with(Cell::get) - live;
        // Nothing of the arguments and results lives any more; but rustc itself drops no return value when a
        // destructor panics (issue 47949).
        let grown = if panics && matches!(spot, Spot::DropItem | Spot::DropIterator) { 0 } else { grown };
        put(&format!("status\tmemory kept by calls, {spot:?}\t{grown}"));
        calls(place, round % 30, 2);
    }
}

/// Runs before `main`.
extern "C" fn before_main(argc: i32, argv: *const *const std::ffi::c_char, _: *const *const std::ffi::c_char) {
    let arg = |i: i32| (i < argc).then(|| unsafe { std::ffi::CStr::from_ptr(*argv.offset(i as isize)) }.to_str().unwrap_or(""));
    if arg(1) == Some("--child") && arg(4).and_then(|x| x.parse::<usize>().ok()).map(|x| KINDS[x]) == Some("start") {
        setup(&[arg(2), arg(3)].map(|x| x.unwrap_or("0").parse().expect("number")));
        calls("before main", 0, 16);
    }
}
#[used]
#[link_section = ".init_array"]
static BEFORE_MAIN: extern "C" fn(i32, *const *const std::ffi::c_char, *const *const std::ffi::c_char) = before_main;

fn setup(n: &[u64; 2]) {
    // Ends a process that is stuck.
    unsafe { alarm(90) };
    SEED.store(n[0], Relaxed);
    BLOCK.store(n[1], Relaxed);
}

fn child(args: &[String]) {
    let n = |i: usize| args[i].parse::<u64>().expect("number");
    harness::mon::install_hook();
    setup(&[n(2), n(3)]);
    let kind = KINDS[n(4) as usize];
    match kind {
        "unwinding" => unwinding(),
        "thread's end" => threads_end(),
        "exit" => exit(),
        "fork" => forks(),
        "caller's code" => callers(false),
        "caller's panic" => callers(true),
        _ => calls("main, after calls before it", 8, 16),
    }
    put("status\tmain\t0");
}

/// Places that every process of a kind must report from.
fn places(kind: &str) -> &'static [&'static str] {
    match kind {
        "unwinding" => &["while a panic unwinds", "while a second panic unwinds", "in a thread that dies of a panic", "after a panic"],
        "thread's end" => &[
            "variable of a thread, from before its calls",
            "variable of a thread, from after its calls",
            "last variable of a thread",
            "variable of the main thread",
        ],
        "exit" => &["exit handler from before the first call", "exit handler", "thread started in an exit handler"],
        "fork" => &["child forked before the first call", "child forked after the first call", "child forked while threads call", "child of a child"],
        "caller's code" => &["within a call"],
        "caller's panic" => &["after a panic of the caller's"],
        _ => &["before main", "main, after calls before it"],
    }
}

fn process(m: &mut Mon<'_>, b: u64, odd: Option<&str>) {
    let seed = m.sh.seed;
    let k = (b % KINDS.len() as u64) as usize;
    let kind = KINDS[k];
    let exe = std::env::current_exe().expect("exe");
    let mut command = Command::new(&exe);
    command.args(["--child", &seed.to_string(), &b.to_string(), &k.to_string()]).stdin(Stdio::null());
    let odd = odd.filter(|_| b / KINDS.len() as u64 % 2 == 1);
    if let Some(library) = odd {
        command.env("LD_PRELOAD", library).env("SURROUNDINGS_SEED", b.to_string()).env("SURROUNDINGS_NAME", "life");
    }
    let who = format!("a process ({kind}{})", if odd.is_some() { ", odd surroundings" } else { "" });
    let output = command.stdout(Stdio::piped()).stderr(Stdio::piped()).output().expect("child");
    let (text, errors) = (String::from_utf8_lossy(&output.stdout), String::from_utf8_lossy(&output.stderr));
    let want: Vec<String> = (0..64).map(|i| run_op(seed, b, i)).collect();
    let mut seen = std::collections::BTreeMap::<&str, u64>::new();
    for line in text.lines() {
        let parts: Vec<&str> = line.split('\t').collect();
        match parts[..] {
            ["status", what, value] => {
                m.seen(Some(hash_of(&(k, what))));
                if value != "0" {
                    return m.fail(format!("{who}: {what}: {value}"));
                }
            }
            [place, i, got] => {
                let i: usize = i.parse().expect("index");
                m.seen(Some(hash_of(&(b, place, i))));
                *seen.entry(place).or_default() += 1;
                if got != want[i] {
                    return m.fail(format!("{who}: {place}: operation {i} gave {got:.600}, plainly {:.600}", want[i]));
                }
            }
            _ => return m.fail(format!("{who} printed {line:?}")),
        }
    }
    if !output.status.success() {
        return m.fail(format!("{who} ended with {}: {errors:.1500}", output.status));
    }
    if !errors.is_empty() {
        return m.fail(format!("{who} printed {errors:.1500}"));
    }
    for p in places(kind) {
        if !seen.contains_key(p) {
            return m.fail(format!("{who}: no call came back from: {p}"));
        }
    }
    for (p, n) in seen {
        m.count(&format!("operations: {p}"), n);
    }
    m.class(&format!("processes: {kind}"));
    if odd.is_some() {
        m.class("processes with odd surroundings");
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--child") {
        return child(&args);
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1));
    let sh = Shared::from_args(&args);
    harness::mon::install_hook();
    let odd = get("--surroundings").cloned();
    let n = get("--processes").map_or(140, |x| x.parse().expect("number"));
    sh.par("processes", n, |m, b, _| process(m, b, odd.as_deref()));
    let _ = UnicodeVersion::latest();
    std::process::exit(sh.finish());
}
