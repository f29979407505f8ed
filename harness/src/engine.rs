//! A small property-based testing engine.
//!
//! A case is a sequence of bounded choices. `Src` draws them from a PRNG seeded by
//! (VERIF_SEED, property, sub-check, case index) and records them, or replays a recorded sequence.
//! A failing case is shrunk by deleting, zeroing and lowering choices while the check still fails,
//! and the shrunk sequence is written to a replay file. Zero is the simplest value of every choice.
//!
//! The process that is started is a supervisor. It runs the cases in a worker process, so that a
//! stack overflow, an abort, exhausted memory or an endless loop in the code under test is
//! attributed to one case: every suspect case is run again alone, and counts as a violation only if
//! it dies by a signal again (endless loops: by using 20 s of CPU time for one case).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x1234_5678_9abc_def0u64;
    for &p in parts {
        s ^= p.wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(31);
        splitmix(&mut s);
        s = s.rotate_left(17) ^ splitmix(&mut s.clone());
    }
    s
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3)
    })
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>),
}

/// The source of every choice a case makes.
pub struct Src {
    mode: Mode,
    pos: usize,
    log: Vec<u64>,
    trace: Option<std::fs::File>,
    /// If not zero, generated polynomials are long: up to about so many coefficients.
    pub long: usize,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src {
            mode: Mode::Random(seed),
            pos: 0,
            log: vec![],
            trace: None,
            long: 0,
        }
    }

    pub fn replay(choices: Vec<u64>) -> Src {
        Src {
            mode: Mode::Replay(choices),
            pos: 0,
            log: vec![],
            trace: None,
            long: 0,
        }
    }

    fn push(&mut self, v: u64) -> u64 {
        self.pos += 1;
        self.log.push(v);
        if let Some(f) = &mut self.trace {
            let _ = write!(f, "{v},");
        }
        v
    }

    /// As `below`, without regard to the constants of the code under test.
    fn raw(&mut self, bound: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(s) => {
                let r = splitmix(s);
                if bound == 0 {
                    r
                } else {
                    ((r as u128 * bound as u128) >> 64) as u64
                }
            }
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                if bound == 0 {
                    v
                } else {
                    v % bound
                }
            }
        };
        self.push(v)
    }

    /// A choice in 0..bound (any u64 if bound is 0) which stands for the number `lo` more. One in
    /// twelve of them is such that this is a constant of the code under test, or close to one.
    fn near(&mut self, lo: i64, bound: u64) -> u64 {
        if let Mode::Random(s) = &mut self.mode {
            if (bound == 0 || bound >= 24) && splitmix(s) % 12 == 0 {
                let ints = &crate::dict::dict().ints;
                let neg = lo < 0 && splitmix(s) % 2 == 0;
                // The numbers from..=to (without sign).
                let (from, to) = match bound {
                    0 => (0, u64::MAX),
                    _ if neg => (0, lo.unsigned_abs()),
                    _ => {
                        let to = lo as i128 + bound as i128 - 1;
                        (lo.max(0) as u64, to.clamp(0, u64::MAX as i128) as u64)
                    }
                };
                let a = ints.partition_point(|v| *v < from);
                let b = ints.partition_point(|v| *v <= to);
                if a < b {
                    let v = ints[a + (splitmix(s) % (b - a) as u64) as usize] as i128;
                    let v = if neg { -v } else { v } - lo as i128;
                    if v >= 0 && (bound == 0 || v < bound as i128) {
                        return self.push(v as u64);
                    }
                }
            }
        }
        self.raw(bound)
    }

    /// A choice in 0..bound (any u64 if bound is 0). Smaller is simpler.
    pub fn below(&mut self, bound: u64) -> u64 {
        self.near(0, bound)
    }

    pub fn usize(&mut self, bound: usize) -> usize {
        self.near(0, bound as u64) as usize
    }

    /// A choice in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.near(lo, (hi - lo + 1) as u64) as i64
    }

    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.near(lo as i64, (hi - lo + 1) as u64) as usize
    }

    /// A number in lo..=hi which the code under test names, or close to one, if there is one.
    pub fn named(&mut self, lo: usize, hi: usize) -> usize {
        if let Mode::Random(s) = &mut self.mode {
            let ints = &crate::dict::dict().ints;
            let a = ints.partition_point(|v| *v < lo as u64);
            let b = ints.partition_point(|v| *v <= hi as u64);
            if a < b {
                let v = ints[a + (splitmix(s) % (b - a) as u64) as usize];
                return lo + self.push(v - lo as u64) as usize;
            }
        }
        lo + self.raw((hi - lo + 1) as u64) as usize
    }

    /// A float which the code under test names.
    pub fn named_float(&mut self) -> f64 {
        let v = match &mut self.mode {
            Mode::Random(s) => {
                let floats = &crate::dict::dict().floats;
                let r = splitmix(s);
                if floats.is_empty() {
                    1.0
                } else {
                    floats[(r % floats.len() as u64) as usize]
                }
            }
            Mode::Replay(c) => f64::from_bits(c.get(self.pos).copied().unwrap_or(0)),
        };
        self.push(v.to_bits());
        if v.is_finite() {
            v
        } else {
            1.0
        }
    }

    /// A character which the code under test names.
    pub fn named_char(&mut self) -> char {
        let v = match &mut self.mode {
            Mode::Random(s) => {
                let chars = &crate::dict::dict().chars;
                let r = splitmix(s);
                if chars.is_empty() {
                    'x'
                } else {
                    chars[(r % chars.len() as u64) as usize]
                }
            }
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                u32::try_from(v).ok().and_then(char::from_u32).unwrap_or('x')
            }
        };
        self.push(v as u64);
        v
    }

    /// True with probability num/den; false is simpler.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.raw(items.len() as u64) as usize]
    }

    /// An index, chosen in proportion to the weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.raw(total);
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
}

/// What a case was, beyond passing or failing.
#[derive(Default)]
pub struct Ctx {
    pub desc: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub want_desc: bool,
    trace: Option<std::fs::File>,
}

impl Ctx {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }

    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }

    /// Appends to the description of the case. Only evaluated when someone will read it.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            let text = f();
            if let Some(out) = &mut self.trace {
                let _ = writeln!(out, "{text}");
            }
            self.desc.push_str(&text);
        }
    }
}

pub enum Bad {
    /// The case is outside of the domain of the property.
    Discard,
    /// The property does not hold.
    Fail(String),
}

pub type Res = Result<(), Bad>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Fail(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::engine::Bad::Fail(format!($($arg)+)));
        }
    };
}

pub type Check = fn(&mut Src, &mut Ctx) -> Res;

pub struct Sub {
    pub name: &'static str,
    pub check: Check,
    /// Cases of the quick tier. The thorough tier runs `thorough_factor` times as many.
    pub quick: u64,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub thorough_factor: u64,
    pub subs: Vec<Sub>,
    /// Known findings: (exact description, probe which returns true if the defect is still there).
    pub known: Vec<(&'static str, fn() -> bool)>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs `f`, and returns the message if it panics.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

enum Verdict {
    Pass,
    Discard,
    Fail(String),
}

fn run_case(check: Check, src: &mut Src, ctx: &mut Ctx) -> Verdict {
    match catch(|| check(src, ctx)) {
        Ok(Ok(())) => Verdict::Pass,
        Ok(Err(Bad::Discard)) => Verdict::Discard,
        Ok(Err(Bad::Fail(m))) => Verdict::Fail(m),
        Err(p) => Verdict::Fail(format!("panicked: {p}")),
    }
}

/// Shrinks `choices`, for which `fails` is true.
fn shrink(mut best: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut left = budget;
    let try_it = |cand: &[u64], left: &mut usize, fails: &mut dyn FnMut(&[u64]) -> bool| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        fails(cand)
    };
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if try_it(&cand, &mut left, fails) {
                    best = cand;
                } else {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|&v| v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].iter_mut().for_each(|v| *v = 0);
                    if try_it(&cand, &mut left, fails) {
                        best = cand;
                    }
                }
                i += size;
            }
        }
        // Lower single choices by bisection.
        for i in 0..best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if try_it(&cand, &mut left, fails) {
                    best = cand;
                } else {
                    lo = mid + 1;
                }
            }
        }
        // Lower a choice that counts things and delete one element somewhere after it.
        for i in 0..best.len().min(40) {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            for width in 1..=4usize {
                let mut j = i + 1;
                while j + width <= best.len() && j < i + 40 && best[i] > 0 {
                    let mut cand = best.clone();
                    cand[i] -= 1;
                    cand.drain(j..j + width);
                    if try_it(&cand, &mut left, fails) {
                        best = cand;
                    } else {
                        j += width;
                    }
                }
            }
        }
        if best == before || left == 0 {
            break;
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    best
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64
}

fn write_replay(
    prop: &Property,
    sub: &str,
    choices: &[u64],
    seed: u64,
    index: u64,
    desc: &str,
    msg: &str,
) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", prop.id));
    let choices: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"seed\": {},\n \"index\": {},\n \"case\": {},\n \"failure\": {},\n \"rerun\": {},\n \"choices\": [{}]\n}}\n",
        jstr(prop.id),
        jstr(sub),
        seed as i64,
        index,
        jstr(desc),
        jstr(msg),
        jstr(&format!("/verif/run.sh {} replay {}", prop.id, path.display())),
        choices.join(",")
    );
    if let Err(e) = std::fs::write(&path, body) {
        eprintln!("could not write {}: {e}", path.display());
    }
    path
}

fn report_text(prop: &Property, sub: &str, path: &Path, desc: &str, msg: &str) -> String {
    format!(
        "sub-check: {sub}\ncase: {desc}\nfailure: {msg}\nVIOLATION property={} replay={}",
        prop.id,
        path.display()
    )
}

fn report(prop: &Property, sub: &str, path: &Path, desc: &str, msg: &str) {
    println!("{}", report_text(prop, sub, path, desc, msg));
    let _ = std::io::stdout().flush();
}

/// Where the worker leaves a failure which it goes on to shrink.
fn pending(beat: &Path) -> PathBuf {
    PathBuf::from(format!("{}.fail", beat.display()))
}

fn parse_replay(path: &Path) -> (String, Vec<u64>) {
    let text = std::fs::read_to_string(path).expect("replay file");
    let sub = text
        .split("\"sub\": \"")
        .nth(1)
        .and_then(|s| s.split('"').next())
        .expect("sub")
        .to_string();
    let body = text
        .rsplit("\"choices\": [")
        .next()
        .and_then(|s| s.split(']').next())
        .expect("choices");
    let choices = body
        .split(',')
        .filter_map(|s| s.trim().parse().ok())
        .collect();
    (sub, choices)
}

fn case_seed(seed: u64, prop: &Property, sub: &Sub, index: u64) -> u64 {
    mix(&[seed, hash_str(prop.id), hash_str(sub.name), index])
}

const CHUNK: u64 = 16;
const CPU_LIMIT_S: u64 = 20;
const STALL_S: u64 = 30;
const SHRINK_S: u64 = 60;
const PENDING_EXIT: i32 = 42;
const MEM_KB: u64 = 12_000_000;

fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(8)
        .clamp(1, 8)
}

struct Plan {
    /// (sub index, first case, past-last case) for every sub.
    counts: Vec<u64>,
    total: u64,
}

impl Plan {
    fn new(prop: &Property, thorough: bool) -> Plan {
        let scale: f64 = std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        let only = std::env::var("VERIF_SUB").ok();
        let counts: Vec<u64> = prop
            .subs
            .iter()
            .map(|s| {
                if only.as_deref().map_or(false, |o| o != s.name) {
                    return 0;
                }
                let n = s.quick * if thorough { prop.thorough_factor } else { 1 };
                ((n as f64 * scale) as u64).max(1)
            })
            .collect();
        let total = counts.iter().sum();
        Plan { counts, total }
    }

    /// The sub and the index within it of the global case number. Subs are interleaved in blocks
    /// so that all of them advance together.
    fn locate(&self, g: u64) -> (usize, u64) {
        let mut g = g;
        for (i, &c) in self.counts.iter().enumerate() {
            if g < c {
                return (i, g);
            }
            g -= c;
        }
        unreachable!()
    }
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    discarded: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    per_sub: Vec<(u64, u64, u64)>,
}

struct Failure {
    sub: usize,
    index: u64,
    choices: Vec<u64>,
}

/// Runs all cases; exit code of the worker process.
fn worker(prop: &Property, thorough: bool, beat: &Path) -> i32 {
    let start = Instant::now();
    let seed = env_seed();
    let plan = Plan::new(prop, thorough);
    let n = threads();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let tally: Mutex<Tally> = Mutex::new(Tally {
        per_sub: vec![(0, 0, 0); prop.subs.len()],
        ..Tally::default()
    });
    let file = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(beat)
        .expect("heartbeat file");
    let progress: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(u64::MAX)).collect();
    let live = AtomicUsize::new(n);
    let hung: Mutex<Option<u64>> = Mutex::new(None);

    std::thread::scope(|scope| {
        for t in 0..n {
            let (plan, next, stop, failure, tally, file, progress, current, live) = (
                &plan, &next, &stop, &failure, &tally, &file, &progress, &current, &live,
            );
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    let mut local = Tally {
                        per_sub: vec![(0, 0, 0); prop.subs.len()],
                        ..Tally::default()
                    };
                    'outer: loop {
                        let first = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if first >= plan.total {
                            break;
                        }
                        for g in first..(first + CHUNK).min(plan.total) {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            let (si, index) = plan.locate(g);
                            let sub = &prop.subs[si];
                            current[t].store(g, Ordering::Relaxed);
                            progress[t].fetch_add(1, Ordering::Relaxed);
                            let _ = file.write_at(&(g + 1).to_le_bytes(), 8 * t as u64);
                            let mut src = Src::random(case_seed(seed, prop, sub, index));
                            let mut ctx = Ctx::default();
                            let verdict = run_case(sub.check, &mut src, &mut ctx);
                            local.evaluations += 1;
                            local.per_sub[si].0 += 1;
                            match verdict {
                                Verdict::Pass => {
                                    for l in ctx.labels {
                                        *local.labels.entry(l).or_insert(0) += 1;
                                    }
                                    if ctx.nontrivial {
                                        local.nontrivial += 1;
                                        local.per_sub[si].1 += 1;
                                        let mut h = hash_str(sub.name);
                                        for &c in &src.log {
                                            h = mix(&[h, c]);
                                        }
                                        local.hashes.insert(h);
                                    }
                                }
                                Verdict::Discard => {
                                    local.discarded += 1;
                                    local.per_sub[si].2 += 1;
                                }
                                Verdict::Fail(_) => {
                                    let mut f = failure.lock().unwrap();
                                    // The failing case with the smallest number, as far as known.
                                    if f.as_ref().map_or(true, |f| (si, index) < (f.sub, f.index)) {
                                        *f = Some(Failure {
                                            sub: si,
                                            index,
                                            choices: src.log.clone(),
                                        });
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    current[t].store(u64::MAX, Ordering::Relaxed);
                    let _ = file.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                    let mut g = tally.lock().unwrap();
                    g.evaluations += local.evaluations;
                    g.discarded += local.discarded;
                    g.nontrivial += local.nontrivial;
                    g.hashes.extend(local.hashes);
                    for (k, v) in local.labels {
                        *g.labels.entry(k).or_insert(0) += v;
                    }
                    for (a, b) in g.per_sub.iter_mut().zip(local.per_sub) {
                        a.0 += b.0;
                        a.1 += b.1;
                        a.2 += b.2;
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        // The monitor: looks for a thread that stays on one case.
        let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
        let mut cleared: HashSet<u64> = HashSet::new();
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for t in 0..n {
                let p = progress[t].load(Ordering::Relaxed);
                if p != seen[t].0 {
                    seen[t] = (p, Instant::now());
                    continue;
                }
                let g = current[t].load(Ordering::Relaxed);
                if g == u64::MAX || seen[t].1.elapsed().as_secs() < STALL_S || cleared.contains(&g)
                {
                    continue;
                }
                let (si, index) = plan.locate(g);
                let out = run_child(&["--case", prop.subs[si].name, &index.to_string()], CPU_LIMIT_S);
                if out == Child::CpuLimit {
                    *hung.lock().unwrap() = Some(g);
                    // The stuck thread can not be joined: finish from here.
                    finish_abnormal(prop, &plan, seed, g, "does not finish: it used 20 s of CPU time");
                    write_evidence(prop, thorough, seed, &tally.lock().unwrap(), start, 1, &plan);
                    std::process::exit(1);
                }
                cleared.insert(g);
            }
        }
    });

    let f = failure.lock().unwrap().take();
    let tally = tally.into_inner().unwrap();
    let mut code = 0;
    if let Some(f) = f {
        let sub = &prop.subs[f.sub];
        let mut fails = |c: &[u64]| {
            let mut src = Src::replay(c.to_vec());
            matches!(
                run_case(sub.check, &mut src, &mut Ctx::default()),
                Verdict::Fail(_)
            )
        };
        // A failure that does not come back from its own choices would be a flaky check.
        if !fails(&f.choices) {
            eprintln!(
                "error: case {} of {} failed once and passed when repeated",
                f.index, sub.name
            );
            return 3;
        }
        let describe = |choices: &[u64]| {
            let mut src = Src::replay(choices.to_vec());
            let mut ctx = Ctx {
                want_desc: true,
                ..Ctx::default()
            };
            let msg = match run_case(sub.check, &mut src, &mut ctx) {
                Verdict::Fail(m) => m,
                _ => "?".into(),
            };
            (ctx.desc, msg)
        };
        // Smaller cases might kill this process or never end: the supervisor then reports this one.
        let (desc, msg) = describe(&f.choices);
        let path = write_replay(prop, sub.name, &f.choices, seed, f.index, &desc, &msg);
        let _ = std::fs::write(pending(beat), report_text(prop, sub.name, &path, &desc, &msg));
        write_evidence(prop, thorough, seed, &tally, start, 1, &plan);
        std::thread::spawn(|| {
            std::thread::sleep(Duration::from_secs(SHRINK_S));
            std::process::exit(PENDING_EXIT);
        });
        let small = catch(|| shrink(f.choices.clone(), 6000, &mut fails)).unwrap_or(f.choices);
        let (desc, msg) = describe(&small);
        let path = write_replay(prop, sub.name, &small, seed, f.index, &desc, &msg);
        report(prop, sub.name, &path, &desc, &msg);
        code = 1;
    }
    write_evidence(prop, thorough, seed, &tally, start, (code == 1) as i32, &plan);
    if code == 0 {
        println!(
            "property={} held: {} cases, {} non-trivial, {} discarded, {:.1} s",
            prop.id,
            tally.evaluations,
            tally.nontrivial,
            tally.discarded,
            start.elapsed().as_secs_f64()
        );
        if std::env::var("VERIF_STATS").is_ok() {
            for (s, (n, nt, d)) in prop.subs.iter().zip(&tally.per_sub) {
                println!("  {:32} cases {n:8} nontrivial {nt:8} discarded {d:8}", s.name);
            }
            for (l, c) in &tally.labels {
                println!("  label {l}: {c}");
            }
        }
    }
    code
}

fn finish_abnormal(prop: &Property, plan: &Plan, seed: u64, g: u64, what: &str) {
    let (si, index) = plan.locate(g);
    let sub = &prop.subs[si];
    let (choices, desc) = describe_by_child(sub.name, index);
    let path = write_replay(prop, sub.name, &choices, seed, index, &desc, what);
    report(prop, sub.name, &path, &desc, what);
}

#[derive(PartialEq, Debug)]
enum Child {
    Ok,
    Failed,
    CpuLimit,
    Signal(i32),
    Error,
}

/// Runs one case alone in a process of its own, with limits.
fn run_child(args: &[&str], cpu: u64) -> Child {
    let exe = std::env::current_exe().expect("exe");
    let st = Command::new("bash")
        .arg("-c")
        .arg(format!(
            "ulimit -c 0; ulimit -S -t {cpu}; ulimit -v {MEM_KB}; exec \"$0\" \"$@\""
        ))
        .arg(exe)
        .args(args)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    match st {
        Ok(s) => match (s.code(), s.signal()) {
            (Some(0), _) => Child::Ok,
            (Some(1), _) => Child::Failed,
            (_, Some(24)) => Child::CpuLimit,
            (_, Some(n)) => Child::Signal(n),
            _ => Child::Error,
        },
        Err(_) => Child::Error,
    }
}

/// The choices and the description of a case, as far as it got before it stopped responding.
fn describe_by_child(sub: &str, index: u64) -> (Vec<u64>, String) {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".trace.{}", std::process::id()));
    let exe = std::env::current_exe().expect("exe");
    let _ = Command::new("bash")
        .arg("-c")
        .arg(format!(
            "ulimit -c 0; ulimit -S -t 5; ulimit -v {MEM_KB}; exec \"$0\" \"$@\""
        ))
        .arg(exe)
        .args(["--trace", sub, &index.to_string(), tmp.to_str().unwrap()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let text = std::fs::read_to_string(&tmp).unwrap_or_default();
    let desc_file = format!("{}.desc", tmp.display());
    let desc = std::fs::read_to_string(&desc_file).unwrap_or_default();
    let _ = std::fs::remove_file(&tmp);
    let _ = std::fs::remove_file(&desc_file);
    let choices = text.split(',').filter_map(|s| s.parse().ok()).collect();
    (choices, desc.trim().replace('\n', "; "))
}

fn write_evidence(
    prop: &Property,
    thorough: bool,
    seed: u64,
    tally: &Tally,
    start: Instant,
    violations: i32,
    plan: &Plan,
) {
    // Written-out samples: the first non-trivial cases of each sub.
    let mut samples = vec![];
    if violations == 0 {
        for (si, sub) in prop.subs.iter().enumerate() {
            let mut got = 0;
            for index in 0..plan.counts[si].min(60) {
                let mut src = Src::random(case_seed(seed, prop, sub, index));
                let mut ctx = Ctx {
                    want_desc: true,
                    ..Ctx::default()
                };
                if matches!(run_case(sub.check, &mut src, &mut ctx), Verdict::Pass)
                    && ctx.nontrivial
                    && !ctx.desc.is_empty()
                {
                    let mut d = ctx.desc;
                    if d.len() > 600 {
                        let mut cut = 600;
                        while !d.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        d.truncate(cut);
                        d.push_str("...");
                    }
                    samples.push(jstr(&format!("{}: {}", sub.name, d)));
                    got += 1;
                    if got == 2 {
                        break;
                    }
                }
            }
        }
    }
    let labels: Vec<String> = tally
        .labels
        .iter()
        .map(|(k, v)| format!("{}: {}", jstr(k), v))
        .collect();
    let per_sub: Vec<String> = prop
        .subs
        .iter()
        .zip(&tally.per_sub)
        .map(|(s, (n, nt, d))| {
            format!(
                "{}: {{\"cases\": {n}, \"nontrivial\": {nt}, \"discarded\": {d}}}",
                jstr(s.name)
            )
        })
        .collect();
    let assumptions: Vec<String> = prop.assumptions.iter().map(|a| jstr(a)).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"rule\": {},\n  \"sub_checks\": {{{}}},\n  \"labels\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(prop.id),
        jstr(if thorough { "thorough" } else { "quick" }),
        seed as i64,
        tally.evaluations,
        tally.hashes.len(),
        tally.discarded,
        jstr(prop.rule),
        per_sub.join(", "),
        labels.join(", "),
        samples.join(",\n   "),
        assumptions.join(", "),
        start.elapsed().as_secs_f64(),
        violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), body) {
        eprintln!("could not write evidence: {e}");
    }
}

fn find_sub<'a>(prop: &'a Property, name: &str) -> &'a Sub {
    prop.subs
        .iter()
        .find(|s| s.name == name)
        .expect("no such sub-check")
}

/// The supervisor: exit code of the check.
fn supervise(prop: &Property, thorough: bool) -> i32 {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let beat = dir.join(format!(".beat.{}.{}", prop.id, std::process::id()));
    let exe = std::env::current_exe().expect("exe");
    let tier = if thorough { "thorough" } else { "quick" };
    let st = Command::new("bash")
        .arg("-c")
        .arg(format!(
            "ulimit -c 0; ulimit -v {}; exec \"$0\" \"$@\"",
            MEM_KB * 2
        ))
        .arg(&exe)
        .args(["--worker", tier, beat.to_str().unwrap()])
        .status();
    let bytes = std::fs::read(&beat).unwrap_or_default();
    let _ = std::fs::remove_file(&beat);
    let failed = std::fs::read_to_string(pending(&beat)).ok();
    let _ = std::fs::remove_file(pending(&beat));
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("error: {e}");
            return 2;
        }
    };
    let code = match st.code() {
        Some(c @ (0 | 1)) => c,
        Some(PENDING_EXIT) | None if failed.is_some() => {
            println!("{}", failed.unwrap());
            return 1;
        }
        Some(c) => {
            eprintln!("error: the worker ended with exit code {c}");
            return 2;
        }
        None => {
            // Died by a signal. Which of the cases that were running does it alone?
            let seed = env_seed();
            let plan = Plan::new(prop, thorough);
            let mut running: Vec<u64> = bytes
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                .filter(|&g| g > 0)
                .map(|g| g - 1)
                .collect();
            running.sort_unstable();
            for g in running {
                let (si, index) = plan.locate(g);
                let name = prop.subs[si].name;
                if let Child::Signal(n) =
                    run_child(&["--case", name, &index.to_string()], CPU_LIMIT_S * 3)
                {
                    let what = format!("the process dies by signal {n}");
                    finish_abnormal(prop, &plan, seed, g, &what);
                    return 1;
                }
            }
            eprintln!(
                "error: the worker died by signal {:?}, and no single case does",
                st.signal()
            );
            return 2;
        }
    };
    if code == 0 {
        // Defects which are recorded rather than repaired. Only what the file lists is excused.
        let listed = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
        for (what, probe) in &prop.known {
            let line = format!("KNOWN-FINDING: property={} {}", prop.id, what);
            match catch(probe) {
                Ok(false) => {}
                _ if listed.lines().any(|l| l == line) => println!("{line}"),
                _ => {
                    let path = verif_dir().join("replays").join(format!("{}.txt", prop.id));
                    let _ = std::fs::write(&path, format!("{what}\n"));
                    println!("failure: {what}\nVIOLATION property={} replay={}", prop.id, path.display());
                    return 1;
                }
            }
        }
    }
    code
}

pub fn main(prop: Property) {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["--worker", tier, beat] => worker(&prop, *tier == "thorough", Path::new(beat)),
        ["--case", sub, index] => {
            let sub = find_sub(&prop, sub);
            let index: u64 = index.parse().unwrap();
            let mut src = Src::random(case_seed(env_seed(), &prop, sub, index));
            match run_case(sub.check, &mut src, &mut Ctx::default()) {
                Verdict::Fail(_) => 1,
                _ => 0,
            }
        }
        ["--trace", sub, index, out] => {
            let sub = find_sub(&prop, sub);
            let index: u64 = index.parse().unwrap();
            // Everything is written out as it happens, because the case will not end well.
            let mut src = Src::random(case_seed(env_seed(), &prop, sub, index));
            src.trace = std::fs::File::create(out).ok();
            let mut ctx = Ctx {
                want_desc: true,
                trace: std::fs::File::create(format!("{out}.desc")).ok(),
                ..Ctx::default()
            };
            let _ = run_case(sub.check, &mut src, &mut ctx);
            0
        }
        ["replay", path] => {
            let (sub, choices) = parse_replay(Path::new(path));
            let sub = find_sub(&prop, &sub);
            let mut src = Src::replay(choices);
            let mut ctx = Ctx {
                want_desc: true,
                ..Ctx::default()
            };
            let v = run_case(sub.check, &mut src, &mut ctx);
            println!("sub-check: {}\ncase: {}", sub.name, ctx.desc);
            match v {
                Verdict::Fail(m) => {
                    println!("failure: {m}");
                    println!("VIOLATION property={} replay={}", prop.id, path);
                    1
                }
                Verdict::Pass => {
                    println!("passes");
                    0
                }
                Verdict::Discard => {
                    println!("outside of the domain");
                    0
                }
            }
        }
        ["thorough"] => supervise(&prop, true),
        ["quick"] => supervise(&prop, false),
        [] => supervise(
            &prop,
            std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        ),
        other => {
            eprintln!("unknown arguments {other:?}");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
