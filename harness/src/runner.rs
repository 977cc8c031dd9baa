//! Exhaustive exploration runner.
//!
//! A check is a set of finite "spaces"; every index of every space is executed (never
//! sampled).  Violations are keyed so that listed findings can be told apart from new ones.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::io::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    ModelChecking,
    FaultEnumeration,
}

pub struct Viol {
    pub key: String,
    pub text: String,
    pub space: String,
    pub idx: usize,
}

#[derive(Default)]
pub struct Agg {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub spaces: BTreeMap<String, (u64, bool)>,
    pub notes: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    pub viol_total: u64,
}

pub struct Shard<'c> {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub notes: BTreeMap<&'static str, u64>,
    space: String,
    idx: usize,
    slot: usize,
    samples: Vec<String>,
    viols: Vec<Viol>,
    viol_total: u64,
    seen: HashSet<u64>,
    ctx: &'c Ctx,
}

impl<'c> Shard<'c> {
    /// Count a distinct model state (by hash of its description); returns true if new.
    pub fn state<T: Hash>(&mut self, t: &T) -> bool {
        let h = hash64(t);
        if self.seen.insert(h) {
            self.states += 1;
            true
        } else {
            false
        }
    }
    pub fn add_states(&mut self, n: u64) {
        self.states += n;
    }
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn note(&mut self, k: &'static str, n: u64) {
        *self.notes.entry(k).or_insert(0) += n;
    }
    /// Keep a few written-out cases.
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn index(&self) -> usize {
        self.idx
    }
    pub fn thorough(&self) -> bool {
        self.ctx.thorough
    }
    /// Tell the watchdog that progress is being made inside one index.
    pub fn tick(&self) {
        beats().at[self.slot].store(self.ctx.start.elapsed().as_millis() as u64, Ordering::Relaxed);
    }
    /// The same, as something that can be called while the shard is in use.
    /// False when the time is up: then the case must be left unfinished.
    pub fn slot_ticker(&self) -> impl Fn() -> bool + 'c {
        let (slot, ctx) = (self.slot, self.ctx);
        move || {
            beats().at[slot].store(ctx.start.elapsed().as_millis() as u64, Ordering::Relaxed);
            let late = ctx.over();
            if late {
                ctx.truncated.store(true, Ordering::SeqCst);
            }
            !late
        }
    }
    /// Report a violated case. `key` identifies the failing input/site for the findings list.
    pub fn violation<K: Into<String>, T: Into<String>>(&mut self, key: K, text: T) {
        self.viol_total += 1;
        let key = key.into();
        if !self.ctx.known.iter().any(|(k, _)| *k == key) {
            beats().first.fetch_min(self.ctx.start.elapsed().as_millis() as u64, Ordering::SeqCst);
        }
        if self.viols.iter().filter(|v| v.key == key).count() >= 1 || self.viols.len() >= 40 {
            return;
        }
        self.viols.push(Viol { key, text: text.into(), space: self.space.clone(), idx: self.idx });
    }
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

const MAXSLOT: usize = 64;
/// Memory shared with forked workers: their heartbeats and the next index to take.
struct Beats {
    at: [AtomicU64; MAXSLOT],
    idx: [AtomicUsize; MAXSLOT],
    next: AtomicUsize,
    /// when the first unlisted violation was seen (ms)
    first: AtomicU64,
}
/// How long to go on looking for more after that.
const LINGER_MS: u64 = 60_000;
fn beats() -> &'static Beats {
    static B: std::sync::OnceLock<&'static Beats> = std::sync::OnceLock::new();
    B.get_or_init(|| unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Beats>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let b = &*(p as *const Beats);
        for a in &b.at {
            a.store(u64::MAX, Ordering::SeqCst);
        }
        b.first.store(u64::MAX, Ordering::SeqCst);
        b
    })
}
static CUR_SPACE: Mutex<String> = Mutex::new(String::new());
static HANG_MS: AtomicU64 = AtomicU64::new(60_000);

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub deadline: Duration,
    pub agg: Mutex<Agg>,
    only: Option<(String, usize)>,
    truncated: AtomicBool,
    assumptions: Mutex<Vec<String>>,
    workers: usize,
    known: Vec<(String, String)>,
}

impl Ctx {
    /// Out of time, or a violation is known well enough.
    fn over(&self) -> bool {
        let now = self.start.elapsed();
        now > self.deadline || now.as_millis() as u64 > beats().first.load(Ordering::SeqCst).saturating_add(LINGER_MS)
    }
    pub fn assume<S: Into<String>>(&self, s: S) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn hang_limit(&self, ms: u64) {
        HANG_MS.store(ms, Ordering::Relaxed);
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Execute every index 0..n of a space, on all cores.
    pub fn par<F: Fn(usize, &mut Shard) + Sync>(&self, space: &str, n: usize, f: F) {
        self.run_space(space, n, self.workers, f)
    }
    /// Execute every index 0..n of a space on one thread.
    pub fn seq<F: Fn(usize, &mut Shard) + Sync>(&self, space: &str, n: usize, f: F) {
        self.run_space(space, n, 1, f)
    }
    fn run_space<F: Fn(usize, &mut Shard) + Sync>(&self, space: &str, n: usize, workers: usize, f: F) {
        let range = match self.only {
            Some((ref s, i)) => {
                if s == space {
                    i..i + 1
                } else {
                    return;
                }
            }
            None => 0..n,
        };
        *CUR_SPACE.lock().unwrap() = space.to_string();
        let t0 = Instant::now();
        let next = AtomicUsize::new(range.start);
        let done = AtomicU64::new(0);
        let chunk = std::cmp::max(1, std::cmp::min(256, (range.end - range.start) / (workers * 16).max(1)));
        let shards: Vec<Shard> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..workers)
                .map(|slot| {
                    let (next, done, f, range) = (&next, &done, &f, range.clone());
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let mut sh = self.shard(space, slot);
                            SLOT.with(|s| s.set(slot));
                            'outer: loop {
                                let a = next.fetch_add(chunk, Ordering::SeqCst);
                                if a >= range.end {
                                    break;
                                }
                                for i in a..std::cmp::min(a + chunk, range.end) {
                                    if self.over() {
                                        self.truncated.store(true, Ordering::SeqCst);
                                        break 'outer;
                                    }
                                    sh.idx = i;
                                    beats().idx[slot].store(i, Ordering::Relaxed);
                                    sh.tick();
                                    let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut sh)));
                                    if let Err(e) = r {
                                        let m = panic_text(e);
                                        sh.violation(
                                            format!("panic:{}", norm(&m)),
                                            format!("panic outside a guarded call: {}", m),
                                        );
                                    }
                                    done.fetch_add(1, Ordering::Relaxed);
                                }
                            }
                            beats().at[slot].store(u64::MAX, Ordering::Relaxed);
                            sh
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let d = done.load(Ordering::Relaxed);
        self.merge(space, shards, d, d as usize == range.end - range.start, t0);
    }
    fn merge(&self, space: &str, shards: Vec<Shard>, d: u64, complete: bool, t0: Instant) {
        let mut agg = self.agg.lock().unwrap();
        let mut all: HashSet<u64> = HashSet::new();
        let mut st = 0;
        for sh in shards {
            // states recorded through `state` may repeat between shards: count the union
            st += sh.states - sh.seen.len() as u64;
            all.extend(sh.seen.iter());
            agg.transitions += sh.transitions;
            agg.traces += sh.traces;
            for (k, v) in sh.notes {
                *agg.notes.entry(format!("{}: {}", space, k)).or_insert(0) += v;
            }
            for s in sh.samples {
                if agg.samples.iter().filter(|x| x.starts_with(&format!("[{}]", space))).count() < 2 {
                    agg.samples.push(format!("[{}] {}", space, s));
                }
            }
            agg.viol_total += sh.viol_total;
            agg.viols.extend(sh.viols);
        }
        agg.states += st + all.len() as u64;
        agg.spaces.insert(space.to_string(), (d, complete));
        eprintln!("  {}: {} cases in {:.2}s", space, d, t0.elapsed().as_secs_f64());
    }
    /// Execute every index 0..n of a space in forked processes, each bound to a core (for cases
    /// that play with memory protection or need a process of their own).
    pub fn fork<F: Fn(usize, &mut Shard) + Sync>(&self, space: &str, n: usize, f: F) {
        let range = match self.only {
            Some((ref s, i)) => {
                if s == space {
                    i..i + 1
                } else {
                    return;
                }
            }
            None => 0..n,
        };
        *CUR_SPACE.lock().unwrap() = space.to_string();
        let t0 = Instant::now();
        let sh_mem = beats();
        sh_mem.next.store(range.start, Ordering::SeqCst);
        let mut kids = vec![];
        for slot in 0..self.workers {
            let mut fds = [0; 2];
            unsafe {
                assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            }
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                let mut sh = self.shard(space, slot);
                let mut done = 0u64;
                let mut cut = 0u64;
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(fds[0]);
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
                        if !cpus.is_empty() {
                            let mut one: libc::cpu_set_t = std::mem::zeroed();
                            libc::CPU_SET(cpus[slot % cpus.len()], &mut one);
                            libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
                        }
                    }
                }
                SLOT.with(|s| s.set(slot));
                loop {
                    let i = sh_mem.next.fetch_add(1, Ordering::SeqCst);
                    if i >= range.end {
                        break;
                    }
                    if self.over() {
                        cut = 1;
                        break;
                    }
                    sh.idx = i;
                    sh_mem.idx[slot].store(i, Ordering::Relaxed);
                    sh.tick();
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(i, &mut sh))) {
                        let m = panic_text(e);
                        sh.violation(format!("panic:{}", norm(&m)), format!("panic outside a guarded call: {}", m));
                    }
                    done += 1;
                }
                sh_mem.at[slot].store(u64::MAX, Ordering::Relaxed);
                let mut o = unsafe { fs::File::from_raw_fd(fds[1]) };
                let mut b = vec![];
                let num = |b: &mut Vec<u8>, v: u64| b.extend_from_slice(&v.to_le_bytes());
                let text = |b: &mut Vec<u8>, s: &str| {
                    b.extend_from_slice(&(s.len() as u64).to_le_bytes());
                    b.extend_from_slice(s.as_bytes());
                };
                cut |= self.truncated() as u64;
                for v in [done, cut, sh.states - sh.seen.len() as u64, sh.transitions, sh.traces, sh.viol_total] {
                    num(&mut b, v);
                }
                num(&mut b, sh.seen.len() as u64);
                for v in &sh.seen {
                    num(&mut b, *v);
                }
                num(&mut b, sh.notes.len() as u64);
                for (k, v) in &sh.notes {
                    text(&mut b, k);
                    num(&mut b, *v);
                }
                num(&mut b, sh.samples.len() as u64);
                for s in &sh.samples {
                    text(&mut b, s);
                }
                num(&mut b, sh.viols.len() as u64);
                for v in &sh.viols {
                    text(&mut b, &v.key);
                    text(&mut b, &v.text);
                    num(&mut b, v.idx as u64);
                }
                let _ = o.write_all(&b);
                unsafe { libc::_exit(0) }
            }
            unsafe {
                libc::close(fds[1]);
            }
            kids.push((pid, fds[0]));
        }
        let mut shards = vec![];
        let mut done = 0;
        for (slot, (pid, fd)) in kids.into_iter().enumerate() {
            let mut b = vec![];
            let mut r = unsafe { fs::File::from_raw_fd(fd) };
            let _ = std::io::Read::read_to_end(&mut r, &mut b);
            let mut st = 0;
            unsafe {
                libc::waitpid(pid, &mut st, 0);
            }
            let mut sh = self.shard(space, slot);
            if b.is_empty() || st != 0 {
                sh_mem.at[slot].store(u64::MAX, Ordering::Relaxed);
                sh.idx = sh_mem.idx[slot].load(Ordering::Relaxed);
                sh.violation(
                    "crash".to_string(),
                    format!("the process that ran the code under test died (wait status {:#x}): memory unsafety, stack overflow or abort", st),
                );
                shards.push(sh);
                continue;
            }
            let mut at = 0;
            let mut num = || {
                let v = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
                at += 8;
                v
            };
            done += num();
            if num() > 0 {
                self.truncated.store(true, Ordering::SeqCst);
            }
            sh.states = num();
            sh.transitions = num();
            sh.traces = num();
            sh.viol_total = num();
            for _ in 0..num() {
                let v = num();
                if sh.seen.insert(v) {
                    sh.states += 1;
                }
            }
            let notes = num();
            let text = |at: &mut usize| {
                let n = u64::from_le_bytes(b[*at..*at + 8].try_into().unwrap()) as usize;
                *at += 8 + n;
                String::from_utf8_lossy(&b[*at - n..*at]).into_owned()
            };
            let num = |at: &mut usize| {
                *at += 8;
                u64::from_le_bytes(b[*at - 8..*at].try_into().unwrap())
            };
            for _ in 0..notes {
                let k: &'static str = Box::leak(text(&mut at).into_boxed_str());
                let v = num(&mut at);
                sh.notes.insert(k, v);
            }
            for _ in 0..num(&mut at) {
                sh.samples.push(text(&mut at));
            }
            for _ in 0..num(&mut at) {
                let (key, t, idx) = (text(&mut at), text(&mut at), num(&mut at) as usize);
                sh.viols.push(Viol { key, text: t, space: space.to_string(), idx });
            }
            shards.push(sh);
        }
        self.merge(space, shards, done, done as usize == range.end - range.start, t0);
    }
    fn shard(&self, space: &str, slot: usize) -> Shard<'_> {
        Shard {
            states: 0,
            transitions: 0,
            traces: 0,
            notes: BTreeMap::new(),
            space: space.to_string(),
            idx: 0,
            slot,
            samples: vec![],
            viols: vec![],
            viol_total: 0,
            seen: HashSet::new(),
            ctx: self,
        }
    }
    pub fn truncated(&self) -> bool {
        self.truncated.load(Ordering::SeqCst)
    }
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn panic_text(e: Box<dyn Any + Send>) -> String {
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    };
    format!("{} at {}", m, loc)
}

/// Run guarded; a panic becomes Err(message at location).
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

/// Digits folded so that a key is stable.
pub fn norm(s: &str) -> String {
    let mut out = String::new();
    let mut last = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() {
            if !last {
                out.push('N');
            }
            last = true;
        } else {
            out.push(if c == '\n' { ' ' } else { c });
            last = false;
        }
    }
    out
}

fn install_crash_handler() {
    unsafe extern "C" fn h(sig: libc::c_int) {
        let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
        let idx = if slot < MAXSLOT { beats().idx[slot].load(Ordering::Relaxed) } else { usize::MAX };
        let mut buf = [0u8; 128];
        let mut w = &mut buf[..];
        let total = w.len();
        let _ = write!(w, "CRASH signal {} at case index {}\n", sig, idx);
        let n = total - w.len();
        libc::write(2, buf.as_ptr() as *const _, n);
        libc::_exit(128 + sig);
    }
    unsafe {
        // own stack for stack overflows
        for s in [libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = h as usize;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.txt", verif_dir());
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                // finding: property=C01 key=<key> | <text>
                let pre = format!("property={} key=", id);
                if let Some(r) = rest.strip_prefix(&pre) {
                    let (k, t) = match r.find(" | ") {
                        Some(i) => (&r[..i], &r[i + 3..]),
                        None => (r, ""),
                    };
                    v.push((k.trim().to_string(), t.trim().to_string()));
                }
            }
        }
    }
    v
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check_main<F: Fn(&Ctx)>(id: &'static str, level: Level, rule: &str, f: F) {
    // The code under test prints to stdout; keep that apart from the verdict lines.
    let mut out = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        if null >= 0 {
            libc::dup2(null, 1);
        }
        fs::File::from_raw_fd(fd)
    };
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
    install_crash_handler();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = std::env::var("MC_ONLY").ok().and_then(|s| {
        let i = s.rfind('#')?;
        Some((s[..i].to_string(), s[i + 1..].parse().ok()?))
    });
    let deadline = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 820 } else { 600 });
    let ctx = Ctx {
        id,
        thorough,
        seed,
        start: Instant::now(),
        deadline: Duration::from_secs(deadline),
        agg: Mutex::new(Agg::default()),
        only,
        truncated: AtomicBool::new(false),
        assumptions: Mutex::new(vec![]),
        known: known_findings(id),
        workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
    };
    beats();
    // watchdog: a case that never ends is a violation too
    let st = ctx.start;
    let mut out2 = out.try_clone().unwrap();
    // it counts its own rounds, so that a machine that stood still isn't taken for a hanging case
    std::thread::spawn(move || {
      let mut stuck = vec![(u64::MAX, 0u64); MAXSLOT];
      loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = st.elapsed().as_millis() as u64;
        let lim = HANG_MS.load(Ordering::Relaxed);
        for s in 0..MAXSLOT {
            let b = beats().at[s].load(Ordering::Relaxed);
            stuck[s] = if b != u64::MAX && stuck[s].0 == b { (b, stuck[s].1 + 1) } else { (b, 0) };
            if b != u64::MAX && now > b + lim && stuck[s].1 * 500 > lim {
                let idx = beats().idx[s].load(Ordering::Relaxed);
                let sp = CUR_SPACE.lock().unwrap().clone();
                let path = write_replay(id, 0, &sp, idx, "hang", "the case did not finish: endless loop or deadlock");
                let _ = writeln!(out2, "VIOLATION property={} replay={}", id, path);
                let _ = writeln!(out2, "  hang in {}#{}", sp, idx);
                let _ = out2.flush();
                std::process::exit(1);
            }
        }
      }
    });
    f(&ctx);
    let wall = ctx.start.elapsed().as_secs_f64();
    let agg = ctx.agg.lock().unwrap();
    let known = &ctx.known;
    let mut shown: HashSet<String> = HashSet::new();
    let mut new = 0;
    let mut reported_known: HashSet<String> = HashSet::new();
    for v in agg.viols.iter() {
        if let Some((k, t)) = known.iter().find(|(k, _)| *k == v.key) {
            if reported_known.insert(k.clone()) {
                let _ = writeln!(out, "KNOWN-FINDING: property={} {} [{}]", id, t, k);
            }
            continue;
        }
        if !shown.insert(v.key.clone()) {
            continue;
        }
        new += 1;
        if new > 8 {
            continue;
        }
        let path = write_replay(id, new, &v.space, v.idx, &v.key, &v.text);
        let _ = writeln!(out, "VIOLATION property={} replay={}", id, path);
        let _ = writeln!(out, "  key={} case={}#{}", v.key, v.space, v.idx);
        for l in v.text.lines().take(12) {
            let _ = writeln!(out, "  {}", l);
        }
    }
    let exhaustive = !ctx.truncated() && agg.spaces.values().all(|s| s.1) && ctx.only.is_none();
    // evidence
    let mut cov = String::new();
    match level {
        Level::ModelChecking => cov.push_str(&format!(
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},",
            agg.states, agg.transitions, agg.traces
        )),
        Level::FaultEnumeration => cov.push_str(&format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"fault_points\": {},",
            agg.traces, agg.states, agg.transitions
        )),
    }
    cov.push_str(&format!(" \"rule\": {}, \"exhaustive\": {},", jstr(rule), exhaustive));
    cov.push_str(" \"spaces\": {");
    cov.push_str(&agg.spaces.iter().map(|(k, v)| format!("{}: {}", jstr(k), v.0)).collect::<Vec<_>>().join(", "));
    cov.push_str("}, \"notes\": {");
    cov.push_str(&agg.notes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    cov.push_str("}, \"samples\": [");
    cov.push_str(&agg.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    cov.push_str("]");
    let ass = ctx.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{ {} }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        jstr(id),
        jstr(if thorough { "thorough" } else { "quick" }),
        seed,
        jstr(match level {
            Level::ModelChecking => "model_checking",
            Level::FaultEnumeration => "fault_enumeration",
        }),
        cov,
        ass,
        wall,
        new
    );
    if ctx.only.is_none() {
        let dir = format!("{}/evidence", verif_dir());
        let _ = fs::create_dir_all(&dir);
        let _ = fs::write(format!("{}/{}.json", dir, id), ev);
    }
    let _ = writeln!(
        out,
        "{} {}: {} states, {} transitions, {} traces, exhaustive={}, {} new violation(s), {:.1}s",
        id,
        if thorough { "thorough" } else { "quick" },
        agg.states,
        agg.transitions,
        agg.traces,
        exhaustive,
        new,
        wall
    );
    let _ = out.flush();
    // never run destructors of leaked servers/threads
    unsafe { libc::_exit(if new > 0 { 1 } else { 0 }) }
}

fn write_replay(id: &str, n: usize, space: &str, idx: usize, key: &str, text: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.txt", dir, id, n);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let _ = fs::write(
        &path,
        format!(
            "property: {}\nkey: {}\ncase: {}#{}\nreplay: cd /verif && VERIF_TIER={} MC_ONLY='{}#{}' ./check.sh {}\n\n{}\n",
            id, key, space, idx, tier, space, idx, id, text
        ),
    );
    path
}
