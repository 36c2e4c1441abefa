//! Case generation, execution, shrinking, statistics and replay.
//!
//! A case is a vector of u64 "choices" drawn by proptest. Every check decodes the choices
//! into structured arguments through `Src`, so one decoder serves random generation,
//! shrinking (each choice shrinks towards 0, and 0 always decodes to the simplest
//! alternative), enumeration and replay.

use proptest::collection::vec as pvec;
use proptest::prelude::any;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;

pub const CHOICES: usize = 160;

pub struct Src<'a> {
    c: &'a [u64],
    i: usize,
}

impl<'a> Src<'a> {
    pub fn new(c: &'a [u64]) -> Self {
        Src { c, i: 0 }
    }

    pub fn raw(&mut self) -> u64 {
        let v = self.c.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }

    /// Uniform in 0..n, monotone in the underlying choice
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.raw()) * u128::from(n)) >> 64) as u64
    }

    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    /// Index picked with the given weights; index 0 is the simplest alternative
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|&w| u64::from(w)).sum();
        let mut v = self.below(total);
        for (i, &w) in weights.iter().enumerate() {
            if v < u64::from(w) {
                return i;
            }
            v -= u64::from(w);
        }
        unreachable!()
    }

    pub fn pick<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.below(items.len() as u64) as usize]
    }

    /// True with probability num/den; false is the simplest alternative
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
}

/// What a check reports about the case it has just executed
#[derive(Default)]
pub struct Ctx {
    pub desc: String,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// Individual evaluations performed by the case when it is a batch of them
    pub inner: u64,
}

thread_local! {
    /// Where a forked child publishes the description of the case it is about to execute
    static DESC_SINK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl Ctx {
    /// To be called before the library is
    pub fn set_desc(&mut self, s: String) {
        let p = DESC_SINK.with(std::cell::Cell::get);
        if p != 0 {
            Channel { ptr: p as *mut u8 }.put(&format!("D{s}"));
        }
        self.desc = s;
    }

    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
}

#[derive(Debug)]
pub struct Fail {
    /// Exact identity of the defect, matched against known findings
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Fail {
            sig: String::new(),
            msg: msg.into(),
        }
    }
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::new(format!($($t)*))) };
}

pub type Res = Result<(), Fail>;
pub type Check = fn(&mut Src, &mut Ctx) -> Res;

pub enum Kind {
    /// Number of random cases (quick, thorough)
    Random(u64, u64),
    /// Number of enumerated cases (quick, thorough); the case is its index
    Enum(u64, u64),
}

pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub f: Check,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

thread_local! {
    pub static TIER: std::cell::Cell<Tier> = const { std::cell::Cell::new(Tier::Quick) };
}

pub fn hash64(data: &[u8]) -> u64 {
    // FNV-1a, then a finaliser
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for &b in data {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8_feb8_6659_fd93);
    h ^ (h >> 32)
}

fn seed_bytes(seed: u64, worker: u64, sub: &str) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (k, chunk) in out.chunks_mut(8).enumerate() {
        let s = format!("{seed}/{worker}/{sub}/{k}");
        chunk.copy_from_slice(&hash64(s.as_bytes()).to_le_bytes());
    }
    out
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub inner: u64,
    pub keys: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// Least and greatest of the measures taken, per name
    pub measures: BTreeMap<String, (f64, f64)>,
}

thread_local! {
    static MEASURES: RefCell<BTreeMap<&'static str, (f64, f64)>> = const { RefCell::new(BTreeMap::new()) };
}

/// Records the extremes of a measure
pub fn measure(name: &'static str, lo: f64, hi: f64) {
    MEASURES.with(|m| {
        let mut m = m.borrow_mut();
        let e = m.entry(name).or_insert((lo, hi));
        *e = (e.0.min(lo), e.1.max(hi));
    });
}

pub fn measures() -> BTreeMap<String, (f64, f64)> {
    MEASURES.with(|m| m.borrow().iter().map(|(k, v)| ((*k).to_string(), *v)).collect())
}

#[derive(Clone)]
pub struct Violation {
    pub sub: String,
    pub choices: Vec<u64>,
    pub sig: String,
    pub msg: String,
    pub desc: String,
}

/// The harness itself cannot continue: neither "holds" nor "violated"
pub fn harness_error(msg: &str) -> ! {
    eprintln!("harness error: {msg}");
    unsafe { libc::_exit(2) }
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Remember where panics come from, silently
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let mut at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if !at.starts_with("/repo/") && !at.starts_with("src/") {
            // In the standard library, called by whom?
            let b = std::backtrace::Backtrace::force_capture().to_string();
            if let Some(f) = b.lines().find(|l| l.contains(" dcv_color_primitives::")) {
                at = format!("/repo/ {} (in the standard library)", f.trim());
            }
        }
        let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = at);
    }));
}

/// The last panic of this thread was raised in the library
pub fn library_panic() -> (bool, String) {
    let at = PANIC_AT.with(|p| p.borrow().clone());
    (at.starts_with("/repo/"), at)
}

/// Run one case. A panic raised by the library is a failure, one raised by the harness
/// is an error of the check
pub fn run_case(f: Check, choices: &[u64], ctx: &mut Ctx) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        f(&mut Src::new(choices), ctx)
    }));
    match r {
        Ok(r) => r,
        Err(p) => {
            let (lib, at) = library_panic();
            if !lib {
                harness_error(&format!("panic at {at}: {} (case: {})", panic_msg(&p), ctx.desc));
            }
            Err(Fail::new(format!("the library panicked at {at}: {}", panic_msg(&p))))
        }
    }
}

/// A process that executes a single case for so many seconds does not return. Cases take
/// milliseconds, a few of them seconds, the largest ones of C21 half a minute
const STALL: u32 = 200;
const STALL_ALONE: u32 = 150;

/// Outcome of a process, as far as the library is concerned
fn fatal_signal(sig: i32) -> Option<&'static str> {
    match sig {
        libc::SIGSEGV => Some("SIGSEGV: access outside of the provided buffers, or write to a read-only one"),
        libc::SIGABRT => Some("SIGABRT"),
        libc::SIGILL => Some("SIGILL"),
        libc::SIGFPE => Some("SIGFPE"),
        libc::SIGTRAP => Some("SIGTRAP"),
        libc::SIGALRM => Some("SIGALRM: a call did not return in 150 seconds"),
        _ => None,
    }
}

/// What `helper NAME CHOICES` prints in a fresh process
pub fn helper(name: &str, choices: &[u64]) -> Result<String, Fail> {
    use std::os::unix::process::ExitStatusExt;
    let list: Vec<String> = choices.iter().map(u64::to_string).collect();
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&e.to_string()));
    let o = std::process::Command::new(exe)
        .args(["helper", name, &list.join(",")])
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap_or_else(|e| harness_error(&format!("cannot start a process: {e}")));
    if let Some(sig) = o.status.signal() {
        return match fatal_signal(sig) {
            Some(n) => Err(Fail::new(format!("a fresh process was killed by {n}"))),
            None => harness_error(&format!("helper {name} was killed by signal {sig}")),
        };
    }
    match o.status.code() {
        Some(0) => Ok(String::from_utf8_lossy(&o.stdout).into_owned()),
        Some(3) => Err(Fail::new(format!(
            "the library panicked in a fresh process: {}",
            String::from_utf8_lossy(&o.stderr).trim()
        ))),
        c => harness_error(&format!(
            "helper {name} {}: exit code {c:?}: {}",
            list.join(","),
            String::from_utf8_lossy(&o.stderr)
        )),
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// Shared page through which a forked child reports its result
struct Channel {
    ptr: *mut u8,
}

const CHANNEL_SIZE: usize = 1 << 16;

impl Channel {
    fn new() -> Self {
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                CHANNEL_SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Channel { ptr: ptr.cast() }
    }

    fn put(&self, s: &str) {
        let b = &s.as_bytes()[..s.len().min(CHANNEL_SIZE - 16)];
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.ptr.add(8), b.len());
            self.ptr.cast::<u64>().write(b.len() as u64);
        }
    }

    fn get(&self) -> String {
        unsafe {
            let n = self.ptr.cast::<u64>().read() as usize;
            String::from_utf8_lossy(std::slice::from_raw_parts(self.ptr.add(8), n)).into_owned()
        }
    }
}

/// Run one case in a forked child, so that a fatal signal is observed as a failure.
/// The description survives a crash: it is published before the library is called.
pub fn run_isolated(f: Check, choices: &[u64], ctx: &mut Ctx) -> Res {
    thread_local! {
        static CH: Channel = Channel::new();
    }
    CH.with(|ch| {
        ch.put("");
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            DESC_SINK.with(|s| s.set(ch.ptr as usize));
            unsafe { libc::alarm(STALL_ALONE) };
            let mut c = Ctx::default();
            let r = run_case(f, choices, &mut c);
            let code = match r {
                Ok(()) => {
                    ch.put(&format!("K{}", c.desc));
                    0
                }
                Err(e) => {
                    ch.put(&format!("F{}\u{1}{}\u{1}{}", e.sig, e.msg, c.desc));
                    1
                }
            };
            unsafe { libc::_exit(code) };
        }
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        let text = ch.get();
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            ctx.desc = text.trim_start_matches('D').to_string();
            ctx.nontrivial = true;
            let Some(n) = fatal_signal(sig) else {
                harness_error(&format!("a case was killed by signal {sig}: {}", ctx.desc));
            };
            return Err(Fail::new(format!("the process was killed by {n}")));
        }
        if libc::WEXITSTATUS(status) > 1 {
            harness_error("an isolated case could not be executed");
        }
        if libc::WEXITSTATUS(status) == 0 {
            ctx.desc = text.trim_start_matches('K').to_string();
            return Ok(());
        }
        let body = text.trim_start_matches('F');
        let mut it = body.splitn(3, '\u{1}');
        let sig = it.next().unwrap_or("").to_string();
        let msg = it.next().unwrap_or("").to_string();
        ctx.desc = it.next().unwrap_or("").to_string();
        Err(Fail { sig, msg })
    })
}

pub struct WorkerResult {
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
}

pub struct WorkerArgs<'a> {
    pub tier: Tier,
    pub seed: u64,
    pub worker: u64,
    pub workers: u64,
    pub isolate: bool,
    pub known: &'a [String],
    pub scale: f64,
    /// Stop generating at this time
    pub deadline: std::time::Instant,
    /// Position of the case being executed: survives a crash
    pub progress: Progress,
    /// Cases before this one are not executed
    pub skip: (u64, u64),
}

/// (index of the sub-check, index of the case), in a file that is mapped
#[derive(Clone, Copy)]
pub struct Progress(*mut u64);

impl Progress {
    pub fn create(path: &str) -> Progress {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
        f.set_len(4096).unwrap_or_else(|e| harness_error(&e.to_string()));
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            harness_error("cannot map the progress file");
        }
        Progress(p.cast())
    }

    fn set(self, sub: u64, case: u64) {
        unsafe {
            self.0.write_volatile(sub);
            self.0.add(1).write_volatile(case);
        }
    }

    pub fn read(path: &str) -> (u64, u64) {
        let b = std::fs::read(path).unwrap_or_default();
        let at = |k: usize| b.get(k..k + 8).map_or(0, |c| u64::from_le_bytes(c.try_into().unwrap()));
        (at(0), at(8))
    }
}

pub fn run_worker(prop: &Prop, a: &WorkerArgs) -> WorkerResult {
    let mut out = WorkerResult {
        stats: Stats::default(),
        violations: Vec::new(),
        known: BTreeMap::new(),
    };
    TIER.with(|t| t.set(a.tier));

    for (si, sub) in prop.subs.iter().enumerate() {
        let si = si as u64;
        if si < a.skip.0 {
            continue;
        }
        let count = std::cell::Cell::new(0u64);
        let exec = |choices: &[u64], ctx: &mut Ctx| -> Res {
            if a.isolate {
                run_isolated(sub.f, choices, ctx)
            } else {
                unsafe { libc::alarm(STALL) };
                let r = run_case(sub.f, choices, ctx);
                unsafe { libc::alarm(0) };
                r
            }
        };
        let known = RefCell::new(BTreeMap::<String, u64>::new());
        let stats = RefCell::new(std::mem::take(&mut out.stats));
        let failed = std::cell::Cell::new(false);
        let out_of_time = std::cell::Cell::new(false);
        // The failure is a call that does not return: there is no time to reduce it
        let stalled = RefCell::new(None::<Fail>);
        let one = |choices: &[u64]| -> Res {
            let mut ctx = Ctx::default();
            if !failed.get() {
                let n = count.get();
                count.set(n + 1);
                if (si, n) < a.skip {
                    return Ok(());
                }
                if std::time::Instant::now() > a.deadline {
                    out_of_time.set(true);
                    return Ok(());
                }
                a.progress.set(si, n);
            }
            if stalled.borrow().is_some() {
                return Ok(());
            }
            let r = exec(choices, &mut ctx);
            if let Err(e) = &r {
                if e.msg.contains("SIGALRM") {
                    *stalled.borrow_mut() = Some(Fail::new(format!("{} ({})", e.msg, ctx.desc)));
                }
            }
            if !failed.get() {
                let mut st = stats.borrow_mut();
                st.evals += 1;
                st.inner += ctx.inner;
                for l in ctx.labels.drain(..) {
                    *st.labels.entry(l).or_default() += 1;
                }
                if ctx.nontrivial {
                    let key = hash64(format!("{}|{}", sub.name, ctx.desc).as_bytes());
                    let fresh = st.keys.insert(key);
                    if fresh && (st.samples.len() < 2 || (st.keys.len() % 997 == 0 && st.samples.len() < 6)) {
                        let s = format!("[{}] {}", sub.name, ctx.desc);
                        st.samples.push(s);
                    }
                }
            }
            match r {
                Err(e) if !e.sig.is_empty() && a.known.contains(&e.sig) => {
                    *known.borrow_mut().entry(e.sig).or_default() += 1;
                    Ok(())
                }
                Err(e) => {
                    failed.set(true);
                    Err(e)
                }
                Ok(()) => Ok(()),
            }
        };

        let mut bad: Option<Vec<u64>> = None;
        match sub.kind {
            Kind::Random(q, t) => {
                let total = if a.tier == Tier::Quick { q } else { t };
                let total = ((total as f64) * a.scale) as u64;
                let n = total / a.workers + u64::from(a.worker < total % a.workers);
                let config = Config {
                    cases: n as u32,
                    failure_persistence: None,
                    max_shrink_iters: if a.isolate { 3000 } else { 6000 },
                    max_shrink_time: 40_000,
                    max_local_rejects: 1,
                    max_global_rejects: 1,
                    ..Config::default()
                };
                let rng = TestRng::from_seed(
                    RngAlgorithm::ChaCha,
                    &seed_bytes(a.seed, a.worker, sub.name),
                );
                let mut runner = TestRunner::new_with_rng(config, rng);
                if n > 0 {
                    let r = runner.run(&pvec(any::<u64>(), CHOICES), |choices| {
                        one(&choices).map_err(|e| TestCaseError::fail(e.msg))
                    });
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(_, v)) => bad = Some(v),
                        Err(TestError::Abort(e)) => harness_error(&format!("proptest aborted: {e}")),
                    }
                }
            }
            Kind::Enum(q, t) => {
                let total = if a.tier == Tier::Quick { q } else { t };
                let mut i = a.worker;
                while i < total {
                    if one(&[i]).is_err() {
                        bad = Some(vec![i]);
                        break;
                    }
                    i += a.workers;
                }
            }
        }

        for (k, v) in known.into_inner() {
            *out.known.entry(k).or_default() += v;
        }
        out.stats = stats.into_inner();
        if out_of_time.get() {
            *out.stats.labels.entry(format!("stopped at the time limit: {}", sub.name)).or_default() += 1;
        }
        if let Some(choices) = bad {
            let mut ctx = Ctx::default();
            // A failure that depends on timing may need several attempts
            let mut e = Fail::new("failed when generated, but not when re-executed on its own");
            let stall = stalled.into_inner();
            let attempts = if stall.is_some() { 0 } else { 20 };
            if let Some(x) = stall {
                e = x;
            }
            for _ in 0..attempts {
                if let Err(x) = exec(&choices, &mut ctx) {
                    e = x;
                    break;
                }
            }
            let mut trimmed = choices;
            while trimmed.len() > 1 && trimmed.last() == Some(&0) {
                trimmed.pop();
            }
            out.violations.push(Violation {
                sub: sub.name.to_string(),
                choices: trimmed,
                sig: e.sig,
                msg: e.msg,
                desc: ctx.desc,
            });
            break;
        }
    }

    out
}

fn esc1(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

fn unesc1(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Worker result files: tab separated records, then the key set in a binary side file
pub fn save_worker(path: &str, r: &WorkerResult) -> std::io::Result<()> {
    let mut s = String::new();
    let _ = writeln!(s, "evals\t{}\t{}", r.stats.evals, r.stats.inner);
    for (k, v) in &r.stats.labels {
        let _ = writeln!(s, "label\t{}\t{}", esc1(k), v);
    }
    for x in &r.stats.samples {
        let _ = writeln!(s, "sample\t{}", esc1(x));
    }
    for (k, (lo, hi)) in measures() {
        let _ = writeln!(s, "measure\t{}\t{lo}\t{hi}", esc1(&k));
    }
    for (k, v) in &r.known {
        let _ = writeln!(s, "known\t{}\t{}", esc1(k), v);
    }
    for v in &r.violations {
        let c: Vec<String> = v.choices.iter().map(u64::to_string).collect();
        let _ = writeln!(
            s,
            "violation\t{}\t{}\t{}\t{}\t{}",
            v.sub,
            c.join(","),
            esc1(&v.sig),
            esc1(&v.msg),
            esc1(&v.desc)
        );
    }
    s.push_str("end\n");
    let mut keys = Vec::with_capacity(r.stats.keys.len() * 8);
    for k in &r.stats.keys {
        keys.extend_from_slice(&k.to_le_bytes());
    }
    std::fs::write(format!("{path}.keys"), keys)?;
    let mut f = std::fs::File::create(path)?;
    f.write_all(s.as_bytes())
}

pub fn load_worker(path: &str) -> Option<WorkerResult> {
    let text = std::fs::read_to_string(path).ok()?;
    if !text.ends_with("end\n") {
        return None;
    }
    let mut r = WorkerResult {
        stats: Stats::default(),
        violations: Vec::new(),
        known: BTreeMap::new(),
    };
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "evals" => {
                r.stats.evals = f[1].parse().ok()?;
                r.stats.inner = f[2].parse().ok()?;
            }
            "label" => {
                r.stats.labels.insert(unesc1(f[1]), f[2].parse().ok()?);
            }
            "sample" => r.stats.samples.push(unesc1(f[1])),
            "measure" => {
                let v = (f[2].parse().ok()?, f[3].parse().ok()?);
                r.stats.measures.insert(unesc1(f[1]), v);
            }
            "known" => {
                r.known.insert(unesc1(f[1]), f[2].parse().ok()?);
            }
            "violation" => r.violations.push(Violation {
                sub: f[1].to_string(),
                choices: f[2].split(',').map(|x| x.parse().unwrap()).collect(),
                sig: unesc1(f[3]),
                msg: unesc1(f[4]),
                desc: unesc1(f[5]),
            }),
            _ => {}
        }
    }
    for c in std::fs::read(format!("{path}.keys")).ok()?.chunks(8) {
        r.stats.keys.insert(u64::from_le_bytes(c.try_into().ok()?));
    }
    Some(r)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
