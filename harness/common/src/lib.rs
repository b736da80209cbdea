//! A small deterministic property-based testing engine.
//!
//! Every random decision of a case is drawn from a `G` and recorded on a tape
//! of bounded integers (0 is always the simplest choice).  A case is a pure
//! function of its tape, so a failing tape is shrunk generically (delete
//! blocks, zero, minimise) and the shrunk tape *is* the replay file.
//!
//! Case `i` of section `s` under `VERIF_SEED` has its own generator seed, so
//! the cases run on all cores and the outcome does not depend on scheduling.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

mod alloc;
pub use alloc::{alloc_reset, alloc_peak, Tracking};

/// Why a case failed.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable identification of what failed, for the known-findings file.
    pub sig: String,
    pub msg: String,
    pub discard: bool,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into(), discard: false }
    }
    pub fn discard() -> Self {
        Fail { sig: String::new(), msg: String::new(), discard: true }
    }
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail { sig: "unlisted".into(), msg: s, discard: false }
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        s.to_string().into()
    }
}

pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail::from(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Fail::from(format!($($t)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::from(format!("{}\n  left:  {}\n  right: {}",
                format!($($t)*), $crate::clip(format!("{:?}", a)), $crate::clip(format!("{:?}", b)))));
        }
    }};
}

/// Shortens very long debug output.
pub fn clip(s: String) -> String {
    let s: String = s.chars().map(|c| if c.is_control() && c != '\n' { '·' } else { c }).collect();
    if s.len() <= 4000 {
        return s;
    }
    let mut e = 4000;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn mix(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut r = Rng(h);
    r.next()
}

/// Source of all random choices of one case.
pub struct G {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    explain: bool,
    labels: Vec<&'static str>,
    nontrivial: bool,
    notes: Vec<String>,
}

const MAX_TAPE: usize = 400_000;

impl G {
    fn fresh(seed: u64) -> Self {
        G { rng: Some(Rng(seed)), tape: vec![], pos: 0, explain: false, labels: vec![], nontrivial: false, notes: vec![] }
    }
    fn replay(tape: Vec<u64>, explain: bool) -> Self {
        G { rng: None, tape, pos: 0, explain, labels: vec![], nontrivial: false, notes: vec![] }
    }
    /// A generator fed from raw choices (used by embedding code and tests).
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Self::replay(tape, true)
    }

    /// Uniform in `0..n` (`n >= 1`); 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &mut self.rng {
            Some(r) => {
                if self.tape.len() >= MAX_TAPE {
                    0
                } else {
                    let v = ((r.next() as u128 * n as u128) >> 64) as u64;
                    self.tape.push(v);
                    v
                }
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
        };
        self.pos += 1;
        v
    }
    /// Any 64-bit value, uniformly.
    pub fn raw64(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// Skewed towards `lo`, occasionally up to `hi`.
    pub fn skewed(&mut self, lo: usize, hi: usize) -> usize {
        let span = (hi - lo) as u64;
        match self.below(4) {
            0 => lo + self.below(span.min(2) + 1) as usize,
            1 => lo + self.below(span.min(6) + 1) as usize,
            2 => lo + self.below(span / 4 + 1) as usize,
            _ => lo + self.below(span + 1) as usize,
        }
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability `num/den`; the simplest choice is `false`.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index chosen by weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// A list whose elements can be deleted by shrinking.
    pub fn list<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let target = self.size(lo, hi);
        let mut out = Vec::new();
        while out.len() < target {
            out.push(f(self));
        }
        out
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.size(lo, hi);
        (0..n).map(|_| self.byte()).collect()
    }
    /// `n` pseudo-random bytes from one choice: bulk payload that needs no shrinking.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let s = self.below(1 << 32);
        if s == 0 {
            return vec![0; n];
        }
        let mut r = Rng(s);
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&r.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn hash32(&mut self) -> [u8; 32] {
        self.blob(32).try_into().unwrap()
    }
    /// u64 biased to small values and boundaries of every width.
    pub fn u64b(&mut self) -> u64 {
        match self.below(5) {
            0 => self.below(4),
            1 => self.below(300),
            2 => {
                let k = self.below(64);
                let b = 1u64 << k;
                match self.below(3) {
                    0 => b,
                    1 => b - 1,
                    _ => b.wrapping_add(1),
                }
            }
            3 => u64::MAX - self.below(3),
            _ => {
                let k = self.range(1, 64);
                let v = self.raw64();
                v >> (64 - k)
            }
        }
    }
    pub fn i64b(&mut self) -> i64 {
        match self.below(6) {
            0 => self.below(4) as i64,
            1 => self.below(600) as i64 - 300,
            2 => i64::MAX - self.below(3) as i64,
            3 => i64::MIN + self.below(3) as i64,
            _ => {
                let k = self.range(1, 64);
                (self.raw64() as i64) >> (64 - k)
            }
        }
    }
    pub fn i128b(&mut self) -> i128 {
        match self.below(5) {
            0 | 1 => self.i64b() as i128,
            2 => i128::MAX - self.below(3) as i128,
            3 => i128::MIN + self.below(3) as i128,
            _ => {
                let k = self.range(1, 128);
                (((self.raw64() as i128) << 64) | self.raw64() as i128) >> (128 - k)
            }
        }
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Marks the case as non-trivial by the section's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Human-readable trace of the case, only rendered for samples and failures.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.explain {
            let s = f();
            LIVE_NOTES.with(|n| n.borrow_mut().push(s.clone()));
            self.notes.push(s);
        }
    }
    pub fn explaining(&self) -> bool {
        self.explain
    }
}

type CaseFn = Box<dyn Fn(&mut G) -> R + Send + Sync>;

pub struct Section {
    pub name: &'static str,
    /// What a case is and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

/// The sections with `k` times as many cases in the quick tier.
pub fn times(k: u64, mut v: Vec<Section>) -> Vec<Section> {
    for s in &mut v {
        s.quick *= k;
        s.thorough = s.thorough.max(s.quick);
    }
    v
}

pub fn section(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    f: impl Fn(&mut G) -> R + Send + Sync + 'static,
) -> Section {
    Section { name, rule, quick, thorough, f: Box::new(f) }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static LIVE_NOTES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !IN_CASE.with(|c| c.get()) {
            old(info);
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}")));
    }));
}

/// Runs `f`, turning a panic into an `Err` holding its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// What a thread is running, for the watchdog.
struct Slot {
    task: PathBuf,
    /// Number of the case on this thread; odd while it runs.
    turn: AtomicU64,
    index: AtomicU64,
}
static SLOTS: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: std::sync::Arc<Slot> = {
        let task = std::fs::read_link("/proc/thread-self").map(|p| Path::new("/proc").join(p).join("stat")).unwrap_or_default();
        let s = std::sync::Arc::new(Slot { task, turn: AtomicU64::new(0), index: AtomicU64::new(u64::MAX) });
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
/// Processor time of one case after which it counts as one that never ends, and the time it may wait.
const HANG_CPU_S: f64 = 40.0;
const HANG_WALL_S: u64 = 400;

fn cpu_seconds(stat: &Path) -> Option<f64> {
    let t = std::fs::read_to_string(stat).ok()?;
    let w: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
    Some((w.get(11)?.parse::<u64>().ok()? + w.get(12)?.parse::<u64>().ok()?) as f64 / 100.0)
}
/// Calls `hung` with the index of a case that does not end.
fn watch(hung: impl Fn(u64) + Send + 'static) {
    std::thread::spawn(move || {
        let mut since: BTreeMap<usize, (u64, Instant, Option<f64>)> = BTreeMap::new();
        loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let slots: Vec<_> = SLOTS.lock().unwrap().clone();
            for (i, s) in slots.iter().enumerate() {
                let turn = s.turn.load(Ordering::SeqCst);
                if turn % 2 == 0 {
                    since.remove(&i);
                    continue;
                }
                match since.get(&i) {
                    Some((t, at, cpu)) if *t == turn => {
                        let busy = cpu.zip(cpu_seconds(&s.task)).is_some_and(|(a, b)| b - a > HANG_CPU_S);
                        if busy || at.elapsed().as_secs() > HANG_WALL_S {
                            hung(s.index.load(Ordering::SeqCst));
                        }
                    }
                    _ => {
                        since.insert(i, (turn, Instant::now(), cpu_seconds(&s.task)));
                    }
                }
            }
        }
    });
}

fn exec(f: &CaseFn, g: &mut G) -> R {
    struct Running(std::sync::Arc<Slot>);
    impl Drop for Running {
        fn drop(&mut self) {
            self.0.turn.fetch_add(1, Ordering::SeqCst);
        }
    }
    let slot = SLOT.with(|s| s.clone());
    slot.turn.fetch_add(1, Ordering::SeqCst);
    let _running = Running(slot);
    LIVE_NOTES.with(|n| n.borrow_mut().clear());
    match no_panic(|| f(g)) {
        Ok(r) => r,
        Err(m) => {
            // The panic location (not its line) keys known findings.
            let mut at = m.strip_prefix("panic at ").unwrap_or("").split(": ").next().unwrap_or("");
            if let Some(p) = at.find("/repo/") {
                at = &at[p + 6..];
            }
            let at = at.rsplit_once(':').map(|x| x.0).unwrap_or(at);
            Err(Fail::new(format!("panic@{at}"), m))
        }
    }
}

fn case_seed(seed: u64, prop: &str, sec: &str, idx: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    h = mix(h, prop.as_bytes());
    h = mix(h, sec.as_bytes());
    mix(h, &idx.to_le_bytes())
}

struct Known {
    sigs: BTreeMap<String, String>,
}

fn load_known(root: &Path, prop: &str) -> Known {
    let mut sigs = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut p = None;
                let mut s = None;
                let mut it = rest.splitn(3, ' ');
                for w in it.by_ref().take(2) {
                    if let Some(x) = w.strip_prefix("property=") {
                        p = Some(x.to_string())
                    }
                    if let Some(x) = w.strip_prefix("sig=") {
                        s = Some(x.to_string())
                    }
                }
                if p.as_deref() == Some(prop) {
                    if let Some(s) = s {
                        sigs.insert(s, it.next().unwrap_or("").to_string());
                    }
                }
            }
        }
    }
    Known { sigs }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Failure {
    tape: Vec<u64>,
    fail: Fail,
    index: u64,
}

fn shrink(f: &CaseFn, start: Vec<u64>, fail: Fail, known: &Known) -> (Vec<u64>, Fail) {
    let mut best = start;
    let mut bfail = fail;
    let deadline = Instant::now() + std::time::Duration::from_secs(60);
    let mut budget = 6000u32;
    // A candidate is accepted when it still fails with something not listed as known.
    let try_it = |cand: &Vec<u64>, budget: &mut u32| -> Option<(Vec<u64>, Fail)> {
        if *budget == 0 || Instant::now() > deadline {
            *budget = 0;
            return None;
        }
        *budget -= 1;
        let mut g = G::replay(cand.clone(), false);
        match exec(f, &mut g) {
            Err(e) if !e.discard && !known.sigs.contains_key(&e.sig) => {
                let mut t = cand.clone();
                t.truncate(g.pos.min(t.len()));
                Some((t, e))
            }
            _ => None,
        }
    };
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 && budget > 0 {
            let mut i = 0;
            while i + k <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + k);
                if let Some((t, e)) = try_it(&c, &mut budget) {
                    best = t;
                    bfail = e;
                    improved = true;
                } else {
                    // a list length that goes with the deleted block
                    let mut done = false;
                    for back in 1..=3usize {
                        if i >= back && best[i - back] > 0 && k <= 64 {
                            let mut c2 = c.clone();
                            c2[i - back] -= 1;
                            if let Some((t, e)) = try_it(&c2, &mut budget) {
                                best = t;
                                bfail = e;
                                improved = true;
                                done = true;
                                break;
                            }
                        }
                    }
                    if !done {
                        i += if k > 8 { k / 2 } else { 1 };
                    }
                }
            }
            k = if k > 16 { k / 2 } else { k - 1 };
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() && budget > 0 {
            if best[i] > 0 {
                let orig = best[i];
                let mut c = best.clone();
                c[i] = 0;
                if let Some((t, e)) = try_it(&c, &mut budget) {
                    best = t;
                    bfail = e;
                    improved = true;
                } else {
                    let (mut lo, mut hi) = (0u64, orig);
                    while hi - lo > 1 && budget > 0 {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if let Some((t, e)) = try_it(&c, &mut budget) {
                            best = t;
                            bfail = e;
                            hi = mid;
                            improved = true;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, bfail)
}

#[derive(Clone)]
struct Cfg {
    prop: String,
    root: PathBuf,
    seed: u64,
    thorough: bool,
    only: Option<String>,
    scale: f64,
    threads: usize,
    journal: Option<PathBuf>,
}

#[derive(Default)]
struct SecStats {
    evals: u64,
    discards: u64,
    distinct: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, u64>,
}

struct Outcome {
    stats: Vec<(&'static str, &'static str, SecStats)>,
    samples: Vec<String>,
    failures: Vec<(&'static str, Failure)>,
}

fn run_section(cfg: &Cfg, known: &Known, s: &Section, slot: usize) -> (SecStats, Option<Failure>) {
    let n = ((if cfg.thorough { s.thorough } else { s.quick }) as f64 * cfg.scale).ceil().max(1.0) as u64;
    let next = AtomicU64::new(0);
    let lowest = AtomicU64::new(u64::MAX);
    let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let total: Mutex<(SecStats, HashSet<u64>)> = Mutex::new((SecStats::default(), HashSet::new()));
    let _ = slot;
    std::thread::scope(|sc| {
        for t in 0..cfg.threads {
            let (next, lowest, fails, total) = (&next, &lowest, &fails, &total);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let journal = cfg.journal.as_ref().map(|d| {
                        std::fs::File::create(d.join(format!("t{t}"))).expect("journal")
                    });
                    let mut st = SecStats::default();
                    let mut seen: HashSet<u64> = HashSet::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > lowest.load(Ordering::SeqCst) {
                            break;
                        }
                        if let Some(j) = &journal {
                            use std::os::unix::fs::FileExt;
                            let _ = j.write_all_at(format!("{} {:>20}\n", s.name, i).as_bytes(), 0);
                        }
                        let mut g = G::fresh(case_seed(cfg.seed, &cfg.prop, s.name, i));
                        SLOT.with(|t| t.index.store(i, Ordering::SeqCst));
                        let r = exec(&s.f, &mut g);
                        match r {
                            Err(e) if e.discard => {
                                st.discards += 1;
                                continue;
                            }
                            Err(e) if known.sigs.contains_key(&e.sig) => {
                                *st.known.entry(e.sig.clone()).or_default() += 1;
                            }
                            Err(e) => {
                                lowest.fetch_min(i, Ordering::SeqCst);
                                fails.lock().unwrap().push(Failure { tape: g.tape.clone(), fail: e, index: i });
                            }
                            Ok(()) => {}
                        }
                        st.evals += 1;
                        for l in &g.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        if g.nontrivial {
                            let mut h = 7u64;
                            for v in &g.tape {
                                h = (h ^ *v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
                            }
                            st.nontrivial += 1;
                            seen.insert(h);
                        }
                    }
                    if let Some(j) = &journal {
                        let _ = j.set_len(0);
                    }
                    let mut tot = total.lock().unwrap();
                    tot.0.evals += st.evals;
                    tot.0.discards += st.discards;
                    tot.0.nontrivial += st.nontrivial;
                    for (k, v) in st.labels {
                        *tot.0.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in st.known {
                        *tot.0.known.entry(k).or_default() += v;
                    }
                    tot.1.extend(seen);
                })
                .expect("spawn");
        }
    });
    let (mut st, seen) = total.into_inner().unwrap();
    st.distinct = seen.len() as u64;
    let mut fs = fails.into_inner().unwrap();
    fs.sort_by_key(|f| f.index);
    (st, fs.into_iter().next())
}

/// Runs `f` on a thread with the same stack as the workers.
fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, f)
            .expect("spawn")
            .join()
            .expect("join")
    })
}

/// Reports a case that does not end, and ends the process.
fn report_hang(cfg: &Cfg, sec: &str, failed: Option<(u64, Vec<u64>, Fail)>, index: u64) -> ! {
    let p = match failed {
        // found while shrinking another failure
        Some((i, tape, fail)) => {
            println!("section {sec} case {i} (not shrunk): [{}] {}", fail.sig, clip(fail.msg.clone()));
            write_replay(cfg, sec, &tape, &fail, &[], None)
        }
        None => {
            let fail = Fail::new("hang", format!("section {sec} case {index} does not end"));
            println!("{}", clip(fail.msg.clone()));
            write_replay(cfg, sec, &[], &fail, &[], Some(index))
        }
    };
    println!("VIOLATION property={} replay={}", cfg.prop, p.display());
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

fn write_replay(cfg: &Cfg, sec: &str, tape: &[u64], fail: &Fail, notes: &[String], index: Option<u64>) -> PathBuf {
    let dir = cfg.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", cfg.prop, sec));
    let mut o = String::from("{\n");
    let _ = writeln!(o, "  \"property\": {},", json_str(&cfg.prop));
    let _ = writeln!(o, "  \"section\": {},", json_str(sec));
    let _ = writeln!(o, "  \"seed\": {},", cfg.seed);
    let _ = writeln!(o, "  \"replay_cmd\": {},", json_str(&format!("./check {} --replay {}", cfg.prop, path.display())));
    if let Some(i) = index {
        let _ = writeln!(o, "  \"index\": {i},");
    }
    let _ = writeln!(o, "  \"signature\": {},", json_str(&fail.sig));
    let _ = writeln!(o, "  \"message\": {},", json_str(&clip(fail.msg.clone())));
    let _ = writeln!(o, "  \"case\": [{}],", notes.iter().map(|n| json_str(&clip(n.clone()))).collect::<Vec<_>>().join(",\n    "));
    let _ = writeln!(o, "  \"tape\": [{}]", tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
    o.push_str("}\n");
    let _ = std::fs::write(&path, o);
    path
}

fn read_tape(p: &Path) -> (String, Vec<u64>, Option<(u64, u64)>) {
    let t = std::fs::read_to_string(p).expect("replay file");
    let sec = t.split("\"section\": \"").nth(1).and_then(|x| x.split('"').next()).expect("section").to_string();
    let tp = t.rsplit("\"tape\": [").next().and_then(|x| x.split(']').next()).expect("tape");
    let tape = tp.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let number = |name: &str| t.split(&format!("  \"{name}\": ")).nth(1).and_then(|x| x.split(',').next()).and_then(|x| x.trim().parse().ok());
    let case = number("index").zip(number("seed"));
    (sec, tape, case)
}

fn child(cfg: Cfg, sections: Vec<Section>, t0: Instant) -> i32 {
    install_hook();
    let known = load_known(&cfg.root, &cfg.prop);
    let mut out = Outcome { stats: vec![], samples: vec![], failures: vec![] };
    let now: std::sync::Arc<Mutex<(&'static str, Option<(u64, Vec<u64>, Fail)>)>> = Default::default();
    let (cfg2, now2) = (cfg.clone(), now.clone());
    watch(move |i| {
        let (sec, failed) = now2.lock().unwrap().clone();
        report_hang(&cfg2, sec, failed, i)
    });
    for (si, s) in sections.iter().enumerate() {
        if let Some(o) = &cfg.only {
            if o != s.name {
                continue;
            }
        }
        let ts = Instant::now();
        *now.lock().unwrap() = (s.name, None);
        let (st, f) = run_section(&cfg, &known, s, si);
        println!(
            "[{}] {}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s{}",
            cfg.prop,
            s.name,
            st.evals,
            st.distinct,
            st.discards,
            ts.elapsed().as_secs_f64(),
            if f.is_some() { "  FAILED" } else { "" }
        );
        if std::env::var_os("VP_LABELS").is_some() {
            for (l, c) in &st.labels {
                println!("      {:>8}  {}", c, l);
            }
        }
        // one non-trivial sample, rendered
        let sample = on_thread(|| {
            for i in 0..40 {
                let mut g = G::fresh(case_seed(cfg.seed, &cfg.prop, s.name, i));
                let _ = exec(&s.f, &mut g);
                if g.nontrivial {
                    let mut g2 = G::replay(g.tape, true);
                    let _ = exec(&s.f, &mut g2);
                    return Some(format!("{}#{}: {}", s.name, i, clip(g2.notes.join("; "))));
                }
            }
            None
        });
        out.samples.extend(sample);
        out.stats.push((s.name, s.rule, st));
        if let Some(f) = f {
            out.failures.push((s.name, f));
            break;
        }
    }
    let mut code = 0;
    let mut printed: HashSet<String> = HashSet::new();
    for (_, _, st) in &out.stats {
        for sig in st.known.keys() {
            if printed.insert(sig.clone()) {
                println!("KNOWN-FINDING: property={} {} ({})", cfg.prop, known.sigs[sig], sig);
            }
        }
    }
    for (sec, f) in &out.failures {
        let s = sections.iter().find(|x| x.name == *sec).unwrap();
        *now.lock().unwrap() = (s.name, Some((f.index, f.tape.clone(), f.fail.clone())));
        let (tape, fail, notes) = on_thread(|| {
            let (tape, fail) = shrink(&s.f, f.tape.clone(), f.fail.clone(), &known);
            let mut g = G::replay(tape.clone(), true);
            let _ = exec(&s.f, &mut g);
            let notes = LIVE_NOTES.with(|n| n.borrow().clone());
            (tape, fail, notes)
        });
        let path = write_replay(&cfg, sec, &tape, &fail, &notes, None);
        println!("section {} case {} (shrunk to {} choices): [{}] {}", sec, f.index, tape.len(), fail.sig, clip(fail.msg.clone()));
        for n in &notes {
            println!("    {}", clip(n.clone()));
        }
        println!("VIOLATION property={} replay={}", cfg.prop, path.display());
        code = 1;
    }
    if cfg.only.is_none() {
        write_evidence(&cfg, &out, t0);
    }
    let _ = std::io::stdout().flush();
    code
}

fn write_evidence(cfg: &Cfg, out: &Outcome, t0: Instant) {
    let evals: u64 = out.stats.iter().map(|x| x.2.evals).sum();
    let distinct: u64 = out.stats.iter().map(|x| x.2.distinct).sum();
    let rule = out.stats.iter().map(|x| format!("{}: {}", x.0, x.1)).collect::<Vec<_>>().join(" | ");
    let mut o = String::from("{\n");
    let _ = writeln!(o, "  \"property\": {},", json_str(&cfg.prop));
    let _ = writeln!(o, "  \"tier\": \"{}\",", if cfg.thorough { "thorough" } else { "quick" });
    let _ = writeln!(o, "  \"seed\": {},", cfg.seed);
    let _ = writeln!(o, "  \"level\": \"exploration\",");
    let _ = writeln!(o, "  \"coverage\": {{");
    let _ = writeln!(o, "    \"evaluations\": {evals},");
    let _ = writeln!(o, "    \"distinct_nontrivial\": {distinct},");
    let _ = writeln!(o, "    \"rule\": {},", json_str(&rule));
    let _ = writeln!(o, "    \"samples\": [{}],", out.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n      "));
    let secs = out
        .stats
        .iter()
        .map(|(n, _, s)| {
            format!(
                "{{\"section\": {}, \"cases\": {}, \"nontrivial_distinct\": {}, \"discarded\": {}, \"labels\": {{{}}}, \"known_findings_hit\": {{{}}}}}",
                json_str(n),
                s.evals,
                s.distinct,
                s.discards,
                s.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "),
                s.known.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
            )
        })
        .collect::<Vec<_>>()
        .join(",\n      ");
    let _ = writeln!(o, "    \"sections\": [{secs}]");
    let _ = writeln!(o, "  }},");
    let _ = writeln!(o, "  \"violations\": {},", out.failures.len());
    let _ = writeln!(o, "  \"wall_s\": {:.2}", t0.elapsed().as_secs_f64());
    o.push_str("}\n");
    let dir = cfg.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", cfg.prop)), o).expect("evidence");
}


/// Entry point of a check binary.
///
/// `PROG ID [--section S] [--scale X] [--replay FILE]`
pub fn main_with(lookup: impl Fn(&str) -> Option<Vec<Section>>) -> ! {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let Some(sections) = lookup(&prop) else {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2)
    };
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let cfg = Cfg {
        prop: prop.clone(),
        root,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        only: opt("--section"),
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        threads: std::env::var("VP_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        journal: std::env::var_os("VP_JOURNAL").map(PathBuf::from),
    };
    if let Some(p) = opt("--replay") {
        install_hook();
        let (sec, tape, case) = read_tape(Path::new(&p));
        let s = sections.iter().find(|s| s.name == sec).expect("section of the replay file");
        let shown = p.clone();
        let name = prop.clone();
        watch(move |_| {
            println!("the case does not end\nVIOLATION property={name} replay={shown}");
            let _ = std::io::stdout().flush();
            std::process::exit(1)
        });
        let r = on_thread(|| {
            let mut g = match case {
                Some((i, seed)) => G::fresh(case_seed(seed, &prop, s.name, i)),
                None => G::replay(tape, true),
            };
            let r = exec(&s.f, &mut g);
            for n in LIVE_NOTES.with(|n| n.borrow().clone()) {
                println!("    {}", clip(n));
            }
            r
        });
        match r {
            Err(e) if !e.discard => {
                println!("[{}] {}", e.sig, clip(e.msg));
                println!("VIOLATION property={prop} replay={p}");
                std::process::exit(1)
            }
            _ => {
                println!("replay passes");
                std::process::exit(0)
            }
        }
    }
    if let Some(i) = opt("--case") {
        // One generated case in this process (used to confirm a crash of the whole process).
        install_hook();
        let s = sections.iter().find(|s| Some(s.name.to_string()) == cfg.only).expect("section");
        let idx: u64 = i.parse().expect("case index");
        let explain = args.iter().any(|a| a == "--explain");
        let r = on_thread(|| {
            let mut g = G::fresh(case_seed(cfg.seed, &cfg.prop, s.name, idx));
            g.explain = explain;
            let r = exec(&s.f, &mut g);
            for n in &g.notes {
                println!("    {}", clip(n.clone()));
            }
            r
        });
        println!("{:?}", r);
        std::process::exit(if matches!(&r, Err(e) if !e.discard) { 1 } else { 0 });
    }
    if std::env::var_os("VP_CHILD").is_some() {
        let code = child(cfg, sections, t0);
        std::process::exit(code)
    }
    // Parent: the cases run in a child, so that an abort or a stack overflow of
    // the code under test can be told from an error of the check.
    let jdir = std::env::temp_dir().join(format!("vp-journal-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&jdir).expect("journal dir");
    let exe = std::env::current_exe().expect("exe");
    let mut st = std::process::Command::new(&exe)
        .args(&args[1..])
        .env("VP_CHILD", "1")
        .env("VP_JOURNAL", &jdir)
        .spawn()
        .expect("child");
    let limit = std::env::var("VP_WATCHDOG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if cfg.thorough { 6 * 3600 } else { 700 });
    let st = loop {
        if let Some(st) = st.try_wait().expect("wait") {
            break st;
        }
        if t0.elapsed().as_secs() > limit {
            let _ = st.kill();
            let _ = st.wait();
            eprintln!("watchdog: no answer after {limit} s (inconclusive)");
            let _ = std::fs::remove_dir_all(&jdir);
            std::process::exit(2)
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    let mut code = 2;
    if let Some(c) = st.code() {
        code = if c == 0 || c == 1 { c } else { 2 };
    } else {
        use std::os::unix::process::ExitStatusExt;
        let sig = st.signal().unwrap_or(0);
        eprintln!("the check process died with signal {sig}");
        if matches!(sig, 6 | 11 | 7 | 4) {
            let mut cases = vec![];
            for t in 0..cfg.threads {
                if let Ok(t) = std::fs::read_to_string(jdir.join(format!("t{t}"))) {
                    let mut w = t.split_whitespace();
                    if let (Some(s), Some(i)) = (w.next(), w.next()) {
                        cases.push((s.to_string(), i.to_string()));
                    }
                }
            }
            for (s, i) in cases {
                let o = std::process::Command::new(&exe)
                    .args([&prop, "--section", &s, "--case", &i])
                    .env_remove("VP_CHILD")
                    .output()
                    .expect("child");
                if matches!(o.status.signal(), Some(6 | 11 | 7 | 4)) {
                    let fail = Fail::new("abort", format!("section {s} case {i}: process died: {}", String::from_utf8_lossy(&o.stderr)));
                    let p = write_replay(&cfg, &s, &[], &fail, &[format!("rerun: {} {} --section {} --case {}", exe.display(), prop, s, i)], i.parse().ok());
                    println!("{}", clip(fail.msg));
                    println!("VIOLATION property={prop} replay={}", p.display());
                    code = 1;
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&jdir);
    std::process::exit(code)
}
