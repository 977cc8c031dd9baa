//! Controlled scheduling of real threads over memory that they share.
//!
//! The memory of the object under test is allocated in an arena of its own pages.  While threads
//! run, words of it that are ever written are made inaccessible, so that every access traps
//! (SIGSEGV); the trapped thread is parked as "about to access word w", the scheduler picks who
//! goes on, and the picked instruction is executed alone (single step, SIGTRAP).  Together with
//! scheduling points in the harness's callbacks, this gives control over every interleaving of
//! shared memory accesses of the unmodified code, whatever way it is written.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub const PAGE: usize = 4096;
const MAXT: usize = 4;
const MAXW: usize = 256;

// ------------------------------------------------------------------------------------- arena

pub struct Arena {
    base: usize,
    len: usize,
    used: Cell<usize>,
    isolate: Cell<usize>,
}

thread_local! {
    static IN: Cell<*const Arena> = const { Cell::new(std::ptr::null()) };
    // a page that was opened for a thread that isn't scheduled
    static LENT: Cell<usize> = const { Cell::new(0) };
    static ME: Cell<*const Me> = const { Cell::new(std::ptr::null()) };
}
// all arenas lie in one range, so that `dealloc` and the fault handler know them
const SPACE: usize = 64 << 20;
const ARENA: usize = 1 << 20;

// What the fault handler needs, on pages of its own: the pages of statics are protected too.
#[repr(C, align(4096))]
struct Own {
    base: AtomicUsize,
    used: AtomicUsize,
    /// where the statics of the crate under test are
    image: AtomicUsize,
    stats: [AtomicUsize; 2 * MAXS],
    nstats: AtomicUsize,
    pages: [AtomicUsize; MAXS],
    npages: AtomicUsize,
    /// the execution that's going on, while they are protected
    cur: AtomicUsize,
}
const MAXS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicUsize = AtomicUsize::new(0);
static OWN: Own = Own { base: ZERO, used: ZERO, image: ZERO, stats: [ZERO; 2 * MAXS], nstats: ZERO, pages: [ZERO; MAXS], npages: ZERO, cur: ZERO };
/// Offsets from here on are in the image, not the arena.
const STATIC: usize = 1 << 40;

fn in_space(p: usize) -> bool {
    let b = OWN.base.load(SeqCst);
    b != 0 && p >= b && p < b + SPACE
}
fn static_page(p: usize) -> bool {
    let page = p & !(PAGE - 1);
    (0..OWN.npages.load(SeqCst)).any(|i| OWN.pages[i].load(SeqCst) == page)
}
fn is_static(p: usize) -> bool {
    let w = p & !7;
    (0..OWN.nstats.load(SeqCst)).any(|i| w + 8 > OWN.stats[2 * i].load(SeqCst) && w < OWN.stats[2 * i + 1].load(SeqCst))
}

/// The writable statics of the crate under test, found in the symbol table.
fn find_statics() {
    fn inner() -> Option<()> {
        let b = std::fs::read("/proc/self/exe").ok()?;
        let n = |at: usize, len: usize| -> Option<usize> { Some(b.get(at..at + len)?.iter().rev().fold(0, |n, &x| n << 8 | x as usize)) };
        let (shoff, shsize, shnum) = (n(0x28, 8)?, n(0x3a, 2)?, n(0x3c, 2)?);
        let sect = |i: usize| -> Option<[usize; 6]> {
            let h = shoff + i * shsize;
            // type, flags, address, offset, size, link
            Some([n(h + 4, 4)?, n(h + 8, 8)?, n(h + 0x10, 8)?, n(h + 0x18, 8)?, n(h + 0x20, 8)?, n(h + 0x28, 4)?])
        };
        let names = sect(n(0x3e, 2)?)?[3];
        let name = |at: usize| -> Option<&[u8]> { b[at..].split(|&c| c == 0).next() };
        let mut data = vec![];
        for i in 0..shnum {
            let h = shoff + i * shsize;
            data.push(matches!(name(names + n(h, 4)?)?, b".data" | b".bss"));
        }
        let image = unsafe {
            extern "C" fn first(i: *mut libc::dl_phdr_info, _: usize, d: *mut libc::c_void) -> libc::c_int {
                unsafe { *(d as *mut usize) = (*i).dlpi_addr as usize };
                1
            }
            let mut base = 0usize;
            libc::dl_iterate_phdr(Some(std::mem::transmute(first as *const ())), &mut base as *mut usize as *mut _);
            base
        };
        OWN.image.store(image, SeqCst);
        for i in 0..shnum {
            let s = sect(i)?;
            if s[0] != 2 {
                continue;
            }
            let strs = sect(s[5])?[3];
            for at in (s[3]..s[3] + s[4]).step_by(24) {
                let (info, shndx, value, size) = (n(at + 4, 1)?, n(at + 6, 2)?, n(at + 8, 8)?, n(at + 16, 8)?);
                if info & 15 != 1 || size == 0 || !data.get(shndx).cloned().unwrap_or(false) {
                    continue;
                }
                if !name(strs + n(at, 4)?)?.windows(8).any(|w| w == b"7rustful") {
                    continue;
                }
                let k = OWN.nstats.load(SeqCst);
                if k == MAXS {
                    return None;
                }
                OWN.stats[2 * k].store(image + value, SeqCst);
                OWN.stats[2 * k + 1].store(image + value + size, SeqCst);
                OWN.nstats.store(k + 1, SeqCst);
                let mut page = (image + value) & !(PAGE - 1);
                while page < image + value + size {
                    let k = OWN.npages.load(SeqCst);
                    if !static_page(page) && k < MAXS {
                        OWN.pages[k].store(page, SeqCst);
                        OWN.npages.store(k + 1, SeqCst);
                    }
                    page += PAGE;
                }
            }
        }
        Some(())
    }
    inner();
}
fn protect_statics(hot: &[usize]) {
    for i in 0..OWN.npages.load(SeqCst) {
        let page = OWN.pages[i].load(SeqCst);
        let off = page.wrapping_sub(OWN.image.load(SeqCst)).wrapping_add(STATIC);
        let any = hot.iter().any(|h| h & !(PAGE - 1) == off);
        unsafe {
            libc::mprotect(page as *mut _, PAGE, if any { libc::PROT_NONE } else { libc::PROT_READ });
        }
    }
}
fn release_statics() {
    OWN.cur.store(0, SeqCst);
    for i in 0..OWN.npages.load(SeqCst) {
        unsafe {
            libc::mprotect(OWN.pages[i].load(SeqCst) as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE);
        }
    }
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = IN.with(|i| i.get());
        if a.is_null() {
            return System.alloc(l);
        }
        let a = &*a;
        let alone = l.size() == a.isolate.get();
        let mut at = (a.used.get() + l.align() - 1) & !(l.align() - 1);
        if alone {
            at = (at + PAGE - 1) & !(PAGE - 1);
        }
        let mut end = at + l.size();
        if alone {
            end = (end + PAGE - 1) & !(PAGE - 1);
        }
        if end > a.len {
            return std::ptr::null_mut();
        }
        a.used.set(end);
        (a.base + at) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !in_space(p as usize) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !in_space(p as usize) && IN.with(|i| i.get()).is_null() {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            self.dealloc(p, l);
        }
        q
    }
}

impl Arena {
    /// Everything that `f` allocates lies in a new arena; allocations of `isolate` bytes get
    /// pages of their own.
    pub fn build<T, F: FnOnce() -> T>(isolate: usize, f: F) -> (Arena, T) {
        install();
        let at = OWN.used.fetch_add(ARENA, SeqCst);
        assert!(at + ARENA <= SPACE, "out of arenas");
        let a = Arena { base: OWN.base.load(SeqCst) + at, len: ARENA, used: Cell::new(0), isolate: Cell::new(isolate) };
        unsafe {
            assert_eq!(libc::mprotect(a.base as *mut _, a.len, libc::PROT_READ | libc::PROT_WRITE), 0);
        }
        let t = a.enter(f);
        (a, t)
    }
    fn enter<T, F: FnOnce() -> T>(&self, f: F) -> T {
        IN.with(|i| i.set(self));
        let t = f();
        IN.with(|i| i.set(std::ptr::null()));
        t
    }
    /// Use the same memory for something else.
    pub fn rebuild<T, F: FnOnce() -> T>(&self, isolate: usize, f: F) -> T {
        self.protect(0, self.len, libc::PROT_READ | libc::PROT_WRITE);
        self.used.set(0);
        self.isolate.set(isolate);
        self.enter(f)
    }
    fn pages(&self) -> usize {
        (self.used.get() + PAGE - 1) / PAGE
    }
    fn protect(&self, off: usize, len: usize, prot: libc::c_int) {
        unsafe {
            assert_eq!(libc::mprotect((self.base + off) as *mut _, len, prot), 0);
        }
    }
    fn bytes(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base as *mut u8, self.pages() * PAGE) }
    }
}

// ------------------------------------------------------------------------------------- traps

struct Me {
    id: usize,
    exec: *const Exec,
    open: Cell<[usize; 4]>,
    nopen: Cell<usize>,
    word: Cell<usize>,
    write: Cell<bool>,
    before: Cell<[i64; 23]>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Begin,
    Point(u32),
    Mem { off: usize, write: bool },
}

const RUN: u32 = 0;
const PARKED: u32 = 1;
const DONE: u32 = 2;

struct Slot {
    status: AtomicU32,
    kind: AtomicU32,
    arg: AtomicUsize,
    go: AtomicU32,
    effect: AtomicU64,
}

pub struct Exec {
    base: usize,
    len: usize,
    ctrl: AtomicU32,
    slots: [Slot; MAXT],
    hot: [AtomicUsize; MAXW], // offsets of words, 0-terminated (offset + 8)
    val: [AtomicU64; MAXW],
    fresh: [AtomicUsize; MAXW],
    nfresh: AtomicUsize,
    traps: AtomicU64,
    out: AtomicU32, // threads that still know about this
    free: AtomicU32, // nobody is scheduled any more: let everything run
    log: Mutex<Vec<(u8, u32, u64)>>,
}

fn futex_wait(a: &AtomicU32, v: u32, ms: i64) {
    let ts = libc::timespec { tv_sec: ms / 1000, tv_nsec: (ms % 1000) * 1_000_000 };
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, v, &ts as *const _ as usize);
    }
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
    }
}

impl Exec {
    fn addr(&self, off: usize) -> usize {
        if off >= STATIC {
            OWN.image.load(SeqCst).wrapping_add(off - STATIC)
        } else {
            self.base + off
        }
    }
    fn off(&self, addr: usize) -> usize {
        if in_space(addr) {
            addr - self.base
        } else {
            addr.wrapping_sub(OWN.image.load(SeqCst)).wrapping_add(STATIC)
        }
    }
    /// Take note of the values of a page, and close it again.
    unsafe fn close(&self, page: usize) {
        let poff = self.off(page);
        let mut hot = false;
        for i in 0..MAXW {
            let h = self.hot[i].load(SeqCst);
            if h == 0 {
                break;
            }
            if (h - 8) & !(PAGE - 1) == poff {
                hot = true;
                self.val[i].store(*(self.addr(h - 8) as *const u64), SeqCst);
            }
        }
        libc::mprotect(page as *mut _, PAGE, if hot { libc::PROT_NONE } else { libc::PROT_READ });
    }
    fn index(&self, off: usize) -> Option<usize> {
        (0..MAXW).take_while(|&i| self.hot[i].load(SeqCst) != 0).find(|&i| self.hot[i].load(SeqCst) == off + 8)
    }
    fn park(&self, id: usize, kind: u32, arg: usize) {
        if self.free.load(SeqCst) != 0 {
            return;
        }
        let s = &self.slots[id];
        s.kind.store(kind, SeqCst);
        s.arg.store(arg, SeqCst);
        s.status.store(PARKED, SeqCst);
        self.ctrl.fetch_add(1, SeqCst);
        futex_wake(&self.ctrl);
        while s.go.load(SeqCst) == 0 {
            futex_wait(&s.go, 0, 1000);
        }
        s.go.store(0, SeqCst);
    }
}

unsafe extern "C" fn on_segv(sig: libc::c_int, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let addr = (*info).si_addr() as usize;
    let cur = OWN.cur.load(SeqCst);
    let stat = cur != 0 && static_page(addr);
    if !stat && (!in_space(addr) || addr >= OWN.base.load(SeqCst) + OWN.used.load(SeqCst)) {
        if static_page(addr) {
            // protected until just now
            return;
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = libc::SIG_DFL;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
        return;
    }
    let errno = *libc::__errno_location();
    let uc = uc as *mut libc::ucontext_t;
    let write = (*uc).uc_mcontext.gregs[libc::REG_ERR as usize] & 2 != 0;
    let me = ME.with(|m| m.get());
    if !me.is_null() {
        let me = &*me;
        let ex = &*me.exec;
        if if stat { is_static(addr) } else { addr >= ex.base && addr < ex.base + ex.len } {
            ex.traps.fetch_add(1, SeqCst);
            let off = ex.off(addr) & !7;
            let known = ex.index(off);
            if known.is_none() && write {
                let n = ex.nfresh.load(SeqCst);
                if n < MAXW && !(0..n).any(|i| ex.fresh[i].load(SeqCst) == off) {
                    ex.fresh[n].store(off, SeqCst);
                    ex.nfresh.store(n + 1, SeqCst);
                }
            }
            if (known.is_some() || write) && me.nopen.get() == 0 {
                ex.park(me.id, 2 + write as u32, off);
            }
            if me.nopen.get() == 0 {
                me.word.set(off);
                me.write.set(write);
                me.before.set((*uc).uc_mcontext.gregs);
                ex.slots[me.id].effect.store(0, SeqCst);
            }
        } else if me.nopen.get() == 0 {
            me.write.set(false);
        }
        let page = addr & !(PAGE - 1);
        let mut o = me.open.get();
        o[me.nopen.get() & 3] = page;
        me.open.set(o);
        me.nopen.set(me.nopen.get() + 1);
        libc::mprotect(page as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE);
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
    } else {
        // not one of the scheduled threads: just let it
        if stat {
            LENT.with(|l| l.set(addr & !(PAGE - 1)));
            (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
        }
        let page = addr & !(PAGE - 1);
        libc::mprotect(page as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE);
    }
    *libc::__errno_location() = errno;
}

unsafe extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let errno = *libc::__errno_location();
    let uc = uc as *mut libc::ucontext_t;
    (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    let me = ME.with(|m| m.get());
    if !me.is_null() {
        let me = &*me;
        let ex = &*me.exec;
        // what the page's words hold now
        for k in 0..me.nopen.get().min(4) {
            let page = me.open.get()[k];
            ex.close(page);
        }
        if me.write.get() {
            // all that a writing instruction tells its thread is in registers and flags
            let (b, a) = (me.before.get(), (*uc).uc_mcontext.gregs);
            let mut h = (a[libc::REG_EFL as usize] & 0x8c1) as u64;
            for r in 0..16 {
                if a[r] != b[r] {
                    h = mix(mix(h, r as u64), a[r] as u64);
                }
            }
            ex.slots[me.id].effect.store(h | 1 << 63, SeqCst);
        }
        me.nopen.set(0);
    } else {
        let (page, cur) = (LENT.with(|l| l.replace(0)), OWN.cur.load(SeqCst));
        if page != 0 && cur != 0 {
            (*(cur as *const Exec)).close(page);
        }
    }
    *libc::__errno_location() = errno;
}

fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let b = libc::mmap(std::ptr::null_mut(), SPACE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(b != libc::MAP_FAILED);
        OWN.base.store(b as usize, SeqCst);
        find_statics();
        for (s, h) in [(libc::SIGSEGV, on_segv as usize), (libc::SIGTRAP, on_trap as usize)] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = h;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    });
}

// ----------------------------------------------------------------------- what threads can say

/// A scheduling point (no-op outside of an exploration).
pub fn point(tag: u32) {
    let me = ME.with(|m| m.get());
    if !me.is_null() {
        let me = unsafe { &*me };
        unsafe { &*me.exec }.park(me.id, 1, tag as usize);
    }
}
/// Note something that happened.
pub fn log(tag: u32, val: u64) {
    let me = ME.with(|m| m.get());
    if !me.is_null() {
        let me = unsafe { &*me };
        unsafe { &*me.exec }.log.lock().unwrap().push((me.id as u8, tag, val));
    }
}
pub fn me() -> usize {
    let me = ME.with(|m| m.get());
    if me.is_null() {
        0
    } else {
        unsafe { (*me).id }
    }
}

// ------------------------------------------------------------------------------- exploration

pub type Body<'a> = Box<dyn FnOnce() + Send + 'a>;
pub type Log = Vec<(u8, u32, u64)>;

#[derive(Clone, Debug)]
pub struct Step {
    pub enabled: u8,
    pub chosen: u8,
    pub last: u8,
    pub state: u64,
    pub op: Op,
}
pub struct Run {
    pub steps: Vec<Step>,
    pub log: Log,
    pub deadlock: bool,
    pub diverged: bool,
    pub traps: u64,
    fresh: Vec<usize>,
}
impl Run {
    pub fn schedule(&self) -> String {
        self.steps
            .iter()
            .map(|s| match s.op {
                Op::Begin => format!("{}:begin", s.chosen),
                Op::Point(p) => format!("{}:point{}", s.chosen, p),
                Op::Mem { off, write } => format!("{}:{}@{:x}", s.chosen, if write { "W" } else { "R" }, off),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
}

fn hash_op(o: Op) -> u64 {
    match o {
        Op::Begin => 1,
        Op::Point(p) => mix(2, p as u64),
        Op::Mem { off, write } => mix(3 + write as u64, off as u64),
    }
}

struct ExecPtr(*const Exec);
unsafe impl Send for ExecPtr {}

/// Threads that are used again for every execution.
struct Worker {
    job: Mutex<Option<Body<'static>>>,
    flag: AtomicU32,
}
thread_local!(static POOL: std::cell::RefCell<Vec<&'static Worker>> = const { std::cell::RefCell::new(vec![]) });
fn give(i: usize, job: Body<'static>) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= i {
            let w: &'static Worker = Box::leak(Box::new(Worker { job: Mutex::new(None), flag: AtomicU32::new(0) }));
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || loop {
                    while w.flag.swap(0, SeqCst) == 0 {
                        futex_wait(&w.flag, 0, 1000);
                    }
                    let j = w.job.lock().unwrap().take();
                    if let Some(j) = j {
                        j()
                    }
                })
                .unwrap();
            p.push(w);
        }
        *p[i].job.lock().unwrap() = Some(job);
        p[i].flag.store(1, SeqCst);
        futex_wake(&p[i].flag);
    })
}

fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}

pub struct Explorer<'a> {
    pub arena: &'a Arena,
    snapshot: Vec<u8>,
    words: Vec<usize>,
    pub executions: u64,
    pub traps: u64,
    pub stuck: bool,
}

impl<'a> Explorer<'a> {
    /// The arena's contents as they are now are what every execution starts from.
    pub fn new(arena: &'a Arena) -> Explorer<'a> {
        let snapshot = arena.bytes().to_vec();
        Explorer { arena, snapshot, words: vec![], executions: 0, traps: 0, stuck: false }
    }
    pub fn shared_words(&self) -> usize {
        self.words.len()
    }

    pub fn execute(&mut self, prefix: &[u8], bodies: Vec<Body<'static>>, summary: &dyn Fn(&Log) -> u64) -> Run {
        let a = self.arena;
        let n = bodies.len();
        assert!(n <= MAXT);
        a.protect(0, a.pages() * PAGE, libc::PROT_READ | libc::PROT_WRITE);
        a.bytes().copy_from_slice(&self.snapshot);
        let ex = Exec {
            base: a.base,
            len: a.len,
            ctrl: AtomicU32::new(0),
            slots: std::array::from_fn(|_| Slot { status: AtomicU32::new(RUN), kind: AtomicU32::new(0), arg: AtomicUsize::new(0), go: AtomicU32::new(0), effect: AtomicU64::new(0) }),
            hot: std::array::from_fn(|i| AtomicUsize::new(self.words.get(i).map_or(0, |w| w + 8))),
            val: std::array::from_fn(|i| AtomicU64::new(self.words.get(i).map_or(0, |&w| if w >= STATIC { unsafe { *(OWN.image.load(SeqCst).wrapping_add(w - STATIC) as *const u64) } } else { u64::from_le_bytes(self.snapshot[w..w + 8].try_into().unwrap()) }))),
            fresh: std::array::from_fn(|_| AtomicUsize::new(0)),
            nfresh: AtomicUsize::new(0),
            traps: AtomicU64::new(0),
            out: AtomicU32::new(0),
            free: AtomicU32::new(0),
            log: Mutex::new(vec![]),
        };
        a.protect(0, a.pages() * PAGE, libc::PROT_READ);
        let hot: HashSet<usize> = self.words.iter().map(|w| w & !(PAGE - 1)).collect();
        for &p in &hot {
            if p < STATIC {
                a.protect(p, PAGE, libc::PROT_NONE);
            }
        }
        let mut run = Run { steps: vec![], log: vec![], deadlock: false, diverged: false, traps: 0, fresh: vec![] };
        ex.out.store(n as u32, SeqCst);
        if OWN.npages.load(SeqCst) > 0 {
            OWN.cur.store(&ex as *const Exec as usize, SeqCst);
            protect_statics(&self.words);
        }
        {
            let exr: *const Exec = &ex;
            for (id, body) in bodies.into_iter().enumerate() {
                let p = ExecPtr(exr);
                give(
                    id,
                    Box::new(move || {
                        let p = p;
                        let me = Me { id, exec: p.0, open: Cell::new([0; 4]), nopen: Cell::new(0), word: Cell::new(0), write: Cell::new(false), before: Cell::new([0; 23]) };
                        ME.with(|m| m.set(&me));
                        let ex = unsafe { &*p.0 };
                        ex.park(id, 0, 0);
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                        ME.with(|m| m.set(std::ptr::null()));
                        let ctrl = &ex.ctrl;
                        ex.slots[id].status.store(DONE, SeqCst);
                        ctrl.fetch_add(1, SeqCst);
                        futex_wake(ctrl);
                        ex.out.fetch_sub(1, SeqCst);
                    }),
                );
            }
            let op = |t: usize| {
                let s = &ex.slots[t];
                match s.kind.load(SeqCst) {
                    0 => Op::Begin,
                    1 => Op::Point(s.arg.load(SeqCst) as u32),
                    k => Op::Mem { off: s.arg.load(SeqCst), write: k == 3 },
                }
            };
            let value = |off: usize| ex.index(off).map_or(0, |i| ex.val[i].load(SeqCst));
            let wait = |t: usize| -> bool {
                let t0 = std::time::Instant::now();
                loop {
                    let c = ex.ctrl.load(SeqCst);
                    if ex.slots[t].status.load(SeqCst) != RUN {
                        return true;
                    }
                    if t0.elapsed().as_secs() >= 8 {
                        return false;
                    }
                    futex_wait(&ex.ctrl, c, 500);
                }
            };
            for t in 0..n {
                wait(t);
            }
            let mut hist = [0u64; MAXT];
            let mut last_mem: [Option<(usize, u64)>; MAXT] = [None; MAXT];
            let mut rep = [0usize; MAXT];
            let mut last = 255u8;
            let mut blocked = [false; MAXT];
            let mut forced = 0;
            loop {
                let status = |t: usize| ex.slots[t].status.load(SeqCst);
                let mut enabled = 0u8;
                let mut waiting = 0u8;
                for t in 0..n {
                    if status(t) == PARKED {
                        blocked[t] = false;
                        let spinning = rep[t] >= 2
                            && match (op(t), last_mem[t]) {
                                (Op::Mem { off, .. }, Some((o, v))) => o == off && v == value(off),
                                _ => false,
                            };
                        if spinning {
                            waiting |= 1 << t;
                        } else {
                            enabled |= 1 << t;
                        }
                    }
                }
                if enabled == 0 {
                    if waiting != 0 && forced < 3000 {
                        forced += 1;
                        enabled = 1 << waiting.trailing_zeros();
                    } else if (0..n).all(|t| status(t) == DONE) {
                        break;
                    } else if let Some(t) = (0..n).find(|&t| status(t) == RUN) {
                        // blocked outside of what is controlled; nobody else can go on
                        if wait(t) {
                            continue;
                        }
                        run.deadlock = true;
                        break;
                    } else {
                        run.deadlock = true;
                        break;
                    }
                }
                let k = run.steps.len();
                let mut st = 7u64;
                for t in 0..n {
                    st = mix(st, hist[t]);
                    st = mix(st, status(t) as u64);
                    st = mix(st, rep[t].min(2) as u64);
                    if status(t) == PARKED {
                        st = mix(st, hash_op(op(t)));
                    }
                }
                for i in 0..self.words.len() {
                    st = mix(st, ex.val[i].load(SeqCst));
                }
                st = mix(st, summary(&ex.log.lock().unwrap()));
                let chosen = if k < prefix.len() {
                    if enabled & (1 << prefix[k]) == 0 {
                        run.diverged = true;
                        if last != 255 && enabled & (1 << last) != 0 { last } else { enabled.trailing_zeros() as u8 }
                    } else {
                        prefix[k]
                    }
                } else if last != 255 && enabled & (1 << last) != 0 {
                    last
                } else {
                    enabled.trailing_zeros() as u8
                };
                let t = chosen as usize;
                let o = op(t);
                run.steps.push(Step { enabled, chosen, last, state: st, op: o });
                let before = match o {
                    Op::Mem { off, .. } => value(off),
                    _ => 0,
                };
                last = chosen;
                ex.slots[t].status.store(RUN, SeqCst);
                ex.slots[t].go.store(1, SeqCst);
                futex_wake(&ex.slots[t].go);
                if !wait(t) {
                    blocked[t] = true;
                }
                match o {
                    Op::Begin => hist[t] = mix(hist[t], 1),
                    Op::Point(p) => hist[t] = mix(mix(hist[t], 2), p as u64),
                    Op::Mem { off, write } => {
                        let effect = ex.slots[t].effect.swap(0, SeqCst);
                        let after = value(off);
                        if last_mem[t] == Some((off, after)) && before == after {
                            // again the same: spinning is not progress
                            rep[t] += 1;
                        } else {
                            hist[t] = mix(mix(hist[t], 3 + write as u64), off as u64);
                            hist[t] = mix(hist[t], if write { effect } else { before });
                            rep[t] = 0;
                        }
                        last_mem[t] = Some((off, after));
                    }
                }
                if !matches!(o, Op::Mem { .. }) {
                    last_mem[t] = None;
                    rep[t] = 0;
                }
                if k > 20_000 {
                    run.deadlock = true;
                    break;
                }
            }
            run.log = ex.log.lock().unwrap().clone();
            if run.deadlock {
                // let go of the threads, as far as they can
                ex.free.store(1, SeqCst);
                for t in 0..n {
                    ex.slots[t].go.store(1, SeqCst);
                    futex_wake(&ex.slots[t].go);
                }
                let t0 = std::time::Instant::now();
                while (0..n).any(|t| ex.slots[t].status.load(SeqCst) != DONE) {
                    if t0.elapsed().as_secs() > 5 {
                        // they never come back: the runner's watchdog reports it
                        loop {
                            std::thread::sleep(std::time::Duration::from_secs(1));
                        }
                    }
                    std::thread::sleep(std::time::Duration::from_millis(2));
                }
            }
            release_statics();
            // nobody looks at `ex` any more
            while ex.out.load(SeqCst) != 0 {
                std::thread::yield_now();
            }
        }
        self.executions += 1;
        run.traps = ex.traps.load(SeqCst);
        self.traps += run.traps;
        run.fresh = (0..ex.nfresh.load(SeqCst)).map(|i| ex.fresh[i].load(SeqCst)).collect();
        a.protect(0, a.pages() * PAGE, libc::PROT_READ | libc::PROT_WRITE);
        let now = a.bytes();
        for w in (0..self.snapshot.len()).step_by(8) {
            if now[w..w + 8] != self.snapshot[w..w + 8] && !self.words.contains(&w) && !run.fresh.contains(&w) {
                run.fresh.push(w);
            }
        }
        run
    }

    /// Every interleaving (states that are equal in everything threads have seen, in shared
    /// memory and in the summary are only continued once).  Returns (states, transitions).
    pub fn all(&mut self, mk: &dyn Fn() -> Vec<Body<'static>>, summary: &dyn Fn(&Log) -> u64, judge: &mut dyn FnMut(&Run) -> bool, tick: &dyn Fn() -> bool) -> (u64, u64) {
        self.search(mk, summary, judge, tick, None)
    }
    /// Every interleaving with at most `bound` preemptions, none left out.
    pub fn bounded(&mut self, bound: usize, mk: &dyn Fn() -> Vec<Body<'static>>, judge: &mut dyn FnMut(&Run) -> bool, tick: &dyn Fn() -> bool) -> (u64, u64) {
        self.search(mk, &|_| 0, judge, tick, Some(bound))
    }
    fn search(&mut self, mk: &dyn Fn() -> Vec<Body<'static>>, summary: &dyn Fn(&Log) -> u64, judge: &mut dyn FnMut(&Run) -> bool, tick: &dyn Fn() -> bool, bound: Option<usize>) -> (u64, u64) {
        'again: loop {
            let mut seen: HashSet<u64> = HashSet::new();
            let mut todo: Vec<Vec<u8>> = vec![vec![]];
            let (mut states, mut trans) = (0u64, 0u64);
            let mut diverged = 0;
            while let Some(prefix) = todo.pop() {
                if !tick() {
                    return (states, trans);
                }
                let run = self.execute(&prefix, mk(), summary);
                if !run.fresh.is_empty() && self.words.len() + run.fresh.len() <= MAXW - 1 {
                    self.words.extend(run.fresh.iter().cloned());
                    self.words.sort();
                    self.words.dedup();
                    continue 'again;
                }
                if !judge(&run) {
                    return (states, trans);
                }
                if run.diverged {
                    diverged += 1;
                    if diverged > 50 {
                        self.stuck = true;
                        return (states, trans);
                    }
                    continue;
                }
                let mut preempt = 0;
                let sched: Vec<u8> = run.steps.iter().map(|s| s.chosen).collect();
                for (k, s) in run.steps.iter().enumerate() {
                    let cost = |t: u8| (s.last != 255 && s.last != t && s.enabled & (1 << s.last) != 0) as usize;
                    if k >= prefix.len() {
                        trans += 1;
                        if bound.is_none() {
                            if !seen.insert(s.state) {
                                break;
                            }
                        }
                        states += 1;
                        for t in 0..MAXT as u8 {
                            if t != s.chosen && s.enabled & (1 << t) != 0 && bound.map_or(true, |b| preempt + cost(t) <= b) {
                                let mut p = sched[..k].to_vec();
                                p.push(t);
                                todo.push(p);
                            }
                        }
                    } else if bound.is_none() && k + 1 == prefix.len() {
                        trans += 1;
                    }
                    preempt += cost(s.chosen);
                }
            }
            return (states, trans);
        }
    }
}
