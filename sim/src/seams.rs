//! The seams through which every source of nondeterminism reaches the code under test:
//!
//! * wall and monotonic clock, sleeps    - `clock_gettime`, `gettimeofday`, `time`, `nanosleep`, `clock_nanosleep`
//! * randomness (hash seeds)             - `getrandom`
//! * blocking synchronisation (std::sync, parking_lot, Once/lazy_static) - `syscall(SYS_futex, ..)`
//! * process surroundings               - `getenv`, `getpid`, `getcwd`, `sched_getaffinity`
//! * files                               - `open`, `stat`, `statx`, `mkdir`, `rename`, `unlink`, ...: what is written lives and dies with the run
//! * memory allocation                   - the global allocator (preemption points, step budget)
//! * control flow                        - sanitizer-coverage callbacks at every edge of the crate under test (`rustc-sim`)
//! * network                             - the patched `reqwest` crate (see net.rs)
//!
//! The libc symbols above are defined in this executable, so the statically linked Rust
//! standard library and every dependency resolve to them.  While `SIM_ON` is false they
//! forward to the kernel.  /repo needs no hook for any of this.
//!
//! Scheduling: simulated threads are real threads of which exactly one runs at a time; the
//! running one hands the token over only at a seam crossing, and a seeded PRNG (or an explicit
//! list, on replay) decides when and to whom.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering::*};

pub const MAXT: usize = 8;
pub static SIM_ON: AtomicBool = AtomicBool::new(false);
static TURN: AtomicI32 = AtomicI32::new(-1);

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static IN_SIM: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Point { Alloc, Edge, Send, Read, Hook, Futex, Sleep, OpStart, OpEnd, Exit }

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct Switch { pub at: u64, pub thread: i32, pub to: i32 }

pub enum Mode {
    /// never preempt voluntarily
    Sequential,
    /// preempt at allocations with mean gap `gap`, at other seam crossings with probability 1/2
    Random { gap: u64 },
    /// the same at edges of the control flow of the crate under test, with mean gap `gap`
    Edges { gap: u64 },
    /// at edges, the likelier the more rarely the edge has been passed
    Rare { rate: u64 },
    /// a handful of preemptions at chosen thread-local points
    Explicit(std::collections::BTreeMap<(i32, u64), i32>),
}

pub struct Sched {
    pub n: usize,
    pub mode: Mode,
    pub rng: Rng,
    pub alive: [bool; MAXT],
    pub blocked: [Option<(usize, u32)>; MAXT],
    pub points: [u64; MAXT],
    pub countdown: [u64; MAXT],
    /// no preemption at edges and allocations for this long: the threads left behind are stalled
    pub hold: u64,
    /// edges passed since anything else happened
    pub spin: u64,
    pub switches: Vec<Switch>,
    /// which thread the main thread let run, at the start and after every thread's end
    pub started: Vec<Switch>,
    // clock
    pub wall_ns: i128,
    pub mono_ns: i128,
    pub tick_ns: i64,
    pub clock_reads: u64,
    pub sleeps: u64,
    // randomness
    pub hash_rng: Rng,
    pub random_draws: u64,
    // budgets of the current operation, per thread
    pub allocs: [u64; MAXT],
    pub bytes: [u64; MAXT],
    /// heap bytes the code under test holds, per thread
    pub live: [i64; MAXT],
    pub alloc_budget: u64,
    pub byte_budget: u64,
    pub cur_op: [i32; MAXT],
    pub futex_waits: u64,
    pub pipe_fd: i32,
    pub total_points: u64,
    pub max_allocs: u64,
}

static mut SCHED: Option<Sched> = None;

/// Only the token holder (or the main thread while no simulated thread runs) calls this.
#[allow(static_mut_refs)]
pub fn sched() -> &'static mut Sched {
    unsafe { SCHED.as_mut().expect("no simulation") }
}
#[allow(static_mut_refs)]
pub fn install(s: Sched) {
    unsafe { SCHED = Some(s) }
}

pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
fn futex_wait_raw(w: &AtomicI32, v: i32) {
    unsafe { raw(202, w as *const _ as usize, 128, v as u32 as usize, 0, 0, 0) };
}
fn futex_wake_raw(w: &AtomicI32) {
    unsafe { raw(202, w as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0) };
}

pub fn on() { SIM_ON.store(true, SeqCst) }
pub fn off() { SIM_ON.store(false, SeqCst) }
/// Sets the harness nesting level (0 = code under test runs); returns the old one.
pub fn set_level(l: u32) -> u32 { IN_SIM.with(|c| c.replace(l)) }
pub fn tid() -> i32 { TID.with(|t| t.get()) }
/// Runs harness code on a simulated thread without it counting as a step of the system.
pub struct Quiet;
pub fn quiet() -> Quiet { IN_SIM.with(|c| c.set(c.get() + 1)); Quiet }
impl Drop for Quiet { fn drop(&mut self) { IN_SIM.with(|c| c.set(c.get() - 1)); } }
fn simulated() -> Option<i32> {
    if !SIM_ON.load(Relaxed) { return None; }
    let t = tid();
    if t >= 0 { Some(t) } else { None }
}

fn wait_turn(me: i32) {
    loop {
        let t = TURN.load(Acquire);
        if t == me { return; }
        futex_wait_raw(&TURN, t);
    }
}
fn hand_to(to: i32) {
    TURN.store(to, Release);
    futex_wake_raw(&TURN);
}

/// Called first by every simulated thread; returns once the scheduler picks it.
pub fn thread_enter(id: i32, ready: &AtomicI32) {
    TID.with(|t| t.set(id));
    IN_SIM.with(|t| t.set(1));
    ready.store(1, Release);
    futex_wake_raw(ready);
    wait_turn(id);
}
pub fn wait_ready(ready: &AtomicI32) {
    while ready.load(Acquire) == 0 { futex_wait_raw(ready, 0); }
}
/// Called last by every simulated thread: the main thread joins it and picks the next one.
pub fn thread_exit() {
    let me = tid() as usize;
    sched().alive[me] = false;
    TID.with(|t| t.set(-1));
    hand_to(-1);
}
/// Main thread: let simulated threads run until one of them finishes.
pub fn run_from_main(to: i32) {
    hand_to(to);
    wait_turn(-1);
}

impl Sched {
    fn runnable(&self, t: usize) -> bool {
        self.alive[t] && match self.blocked[t] {
            None => true,
            Some((addr, v)) => unsafe { (*(addr as *const AtomicI32)).load(Acquire) as u32 != v },
        }
    }
    /// Picks the next thread to run (never `me` unless it is the only choice and allowed).
    pub fn choose(&mut self, me: i32, at: u64) -> Option<i32> {
        let mut c = [0i32; MAXT];
        let mut k = 0;
        for t in 0..self.n { if t as i32 != me && self.runnable(t) { c[k] = t as i32; k += 1; } }
        if k == 0 { return None; }
        if let Mode::Explicit(list) = &self.mode {
            if let Some(to) = list.get(&(me, at)) {
                if c[..k].contains(to) { return Some(*to); }
            }
            return Some(c[0]);
        }
        if let Mode::Sequential = self.mode { return Some(c[0]); }
        let i = self.rng.idx(k);
        Some(c[i])
    }
    fn refill(&mut self, t: usize) {
        if let Mode::Random { gap } | Mode::Edges { gap } = self.mode {
            // mostly around the mean, now and then much sooner or much later
            self.countdown[t] = 1 + match self.rng.below(4) { 0 => self.rng.below(1 + gap / 16), 1 => self.rng.below(8 * gap), _ => self.rng.below(2 * gap) };
        }
    }
    pub fn start_gaps(&mut self) { for t in 0..self.n { self.refill(t); } }
}

fn switch(me: usize, at: u64, to: i32) {
    let s = sched();
    s.switches.push(Switch { thread: me as i32, at, to });
    hand_to(to);
    wait_turn(me as i32);
}

/// A seam crossing by simulated code.
pub fn point(kind: Point) { point_at(kind, 0) }
fn point_at(kind: Point, hits: u32) {
    let Some(t) = simulated() else { return };
    if IN_SIM.with(|c| c.get()) > 0 && matches!(kind, Point::Alloc | Point::Edge) { return; }
    let _q = quiet();
    let me = t as usize;
    let s = sched();
    s.points[me] += 1;
    s.total_points += 1;
    if s.n < 2 { return; }
    let at = s.points[me];
    if kind == Point::Edge { s.spin += 1 } else { s.spin = 0 }
    let held = s.hold > 0 && matches!(kind, Point::Alloc | Point::Edge);
    if held { s.hold -= 1; }
    let want = match &s.mode {
        // busy waiting: only another thread can end it
        _ if s.spin > 3_000_000 => { s.spin = 0; true }
        _ if held => false,
        Mode::Sequential => false,
        Mode::Explicit(list) => list.contains_key(&(t, at)),
        Mode::Random { .. } => {
            match kind {
                Point::Edge => false,
                Point::Alloc => {
                    s.countdown[me] -= 1;
                    if s.countdown[me] == 0 { s.refill(me); true } else { false }
                }
                _ => s.rng.chance(1, 2),
            }
        }
        Mode::Edges { .. } => match kind {
            Point::Edge => {
                s.countdown[me] -= 1;
                if s.countdown[me] == 0 { s.refill(me); true } else { false }
            }
            Point::Alloc => s.rng.chance(1, 4096),
            _ => s.rng.chance(1, 2),
        },
        Mode::Rare { rate } => {
            let rate = *rate;
            match kind {
                Point::Edge => { let n = 64 * hits as u64; s.rng.below(n.max(1)) < rate },
                Point::Alloc => s.rng.chance(1, 4096),
                _ => s.rng.chance(1, 2),
            }
        }
    };
    if want {
        if matches!(s.mode, Mode::Edges { .. } | Mode::Rare { .. }) { s.hold = match s.rng.below(3) { 0 => 0, 1 => s.rng.below(200), _ => s.rng.below(20_000) }; }
        if let Some(to) = s.choose(t, at) { switch(me, at, to); }
    }
}

const EDGES: usize = 1 << 17;
static mut HITS: [u32; EDGES] = [0; EDGES];
/// Number of edges in the crate under test.
pub static EDGE_COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// One byte per edge, shared with the processes of all runs: has any run passed it?
pub static SEEN: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn share_seen() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), EDGES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p != libc::MAP_FAILED { SEEN.store(p as *mut u8, SeqCst); }
    }
}
pub fn edges_seen() -> usize {
    let p = SEEN.load(SeqCst);
    if p.is_null() { return 0; }
    (0..EDGES).filter(|i| unsafe { *p.add(*i) } != 0).count()
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 { return; }
    while p < stop {
        *p = (EDGE_COUNT.fetch_add(1, SeqCst) as u32 + 1).min(EDGES as u32 - 1);
        p = p.add(1);
    }
}
/// Every edge of the control flow of the crate under test.
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !SIM_ON.load(Relaxed) { return; }
    let g = *guard as usize;
    let p = SEEN.load(Relaxed);
    if !p.is_null() { *p.add(g) = 1; }
    let Some(s) = SCHED.as_mut() else { return };
    if s.n < 2 || tid() < 0 || IN_SIM.with(|c| c.get()) > 0 { return; }
    HITS[g] = HITS[g].saturating_add(1);
    point_at(Point::Edge, HITS[g]);
}

/// Stops the run at once: the text is the whole result of the run.
pub fn die(prefix: &str, detail: &str) -> ! {
    let fd = sched().pipe_fd;
    let me = tid();
    let op = if me >= 0 { sched().cur_op[me as usize] } else { -1 };
    let mut buf = [0u8; 256];
    let mut n = 0;
    let mut put = |b: &[u8]| { for x in b { if n < buf.len() { buf[n] = *x; n += 1; } } };
    put(prefix.as_bytes());
    put(b" ");
    put(detail.as_bytes());
    put(b" thread=");
    put(&[b'0' + me.max(0) as u8]);
    put(b" op=");
    let mut d = [0u8; 6];
    let mut v = op.max(0);
    for i in (0..6).rev() { d[i] = b'0' + (v % 10) as u8; v /= 10; }
    put(&d);
    put(b"\n");
    unsafe {
        raw(1, fd as usize, buf.as_ptr() as usize, n, 0, 0, 0);
        // the schedule so far
        for v in [&sched().started, &sched().switches] {
            let (mut p, mut left) = (v.as_ptr() as usize, std::mem::size_of_val(v.as_slice()));
            while left > 0 {
                let k = raw(1, fd as usize, p, left, 0, 0, 0);
                if k <= 0 { break; }
                p += k as usize;
                left -= k as usize;
            }
        }
        raw(231, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub struct SimAlloc;
/// Books an allocation of the code under test to its thread; 0 if it is the harness's own.
#[inline]
fn on_alloc(size: usize) -> u64 {
    if !SIM_ON.load(Relaxed) { return 0; }
    let t = tid();
    if t < 0 || IN_SIM.with(|c| c.get()) > 0 { return 0; }
    let s = sched();
    let me = t as usize;
    s.allocs[me] += 1;
    s.bytes[me] += size as u64;
    s.live[me] += size as i64;
    if s.allocs[me] > s.alloc_budget { die("HANG", "step budget exhausted (allocations)"); }
    if s.bytes[me] > s.byte_budget { die("HANG", "memory budget exhausted"); }
    point(Point::Alloc);
    me as u64 + 1
}
/// `owner` is what `on_alloc` said: a block leaves the books of the thread that allocated it,
/// whoever frees it.
#[inline]
fn on_free(owner: u64, size: usize) {
    if owner != 0 && SIM_ON.load(Relaxed) { sched().live[owner as usize - 1] -= size as i64; }
}
// Every block is preceded by one alignment unit that holds its owner.
#[inline]
fn head(l: &Layout) -> usize { l.align().max(16) }
#[inline]
unsafe fn padded(l: &Layout, size: usize) -> Layout { Layout::from_size_align_unchecked(size + head(l), head(l)) }
unsafe fn grab(l: Layout, zero: bool) -> *mut u8 {
    let owner = on_alloc(l.size());
    let p = if zero { System.alloc_zeroed(padded(&l, l.size())) } else { System.alloc(padded(&l, l.size())) };
    if p.is_null() { return p; }
    *(p as *mut u64) = owner;
    p.add(head(&l))
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { grab(l, false) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { grab(l, true) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let q = p.sub(head(&l));
        on_free(*(q as *mut u64), l.size());
        System.dealloc(q, padded(&l, l.size()))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = p.sub(head(&l));
        on_free(*(q as *mut u64), l.size());
        let owner = on_alloc(n);
        let q = System.realloc(q, padded(&l, l.size()), n + head(&l));
        if q.is_null() { return q; }
        *(q as *mut u64) = owner;
        q.add(head(&l))
    }
}

fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e } }

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 202 {
        if let Some(t) = simulated() {
            let op = b as i32 & 0x7f;
            if op == 0 || op == 9 { return sim_futex_wait(t, a, c as u32, d != 0); }
            if op == 1 || op == 10 {
                let s = sched();
                for i in 0..s.n { if matches!(s.blocked[i], Some((x, _)) if x == a) { s.blocked[i] = None; } }
            }
        }
    }
    if n == 318 && SIM_ON.load(Relaxed) {
        return getrandom(a as *mut u8, b, 0) as i64;
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r }
}

fn sim_futex_wait(t: i32, addr: usize, val: u32, timed: bool) -> i64 {
    let _q = quiet();
    let me = t as usize;
    unsafe {
        if (*(addr as *const AtomicI32)).load(Acquire) as u32 != val { set_errno(libc::EAGAIN); return -1; }
    }
    let s = sched();
    s.futex_waits += 1;
    s.points[me] += 1;
    let at = s.points[me];
    s.blocked[me] = Some((addr, val));
    match s.choose(t, at) {
        Some(to) => {
            switch(me, at, to);
            sched().blocked[me] = None;
            0
        }
        None if timed => {
            s.blocked[me] = None;
            s.mono_ns += 1_000_000_000;
            s.wall_ns += 1_000_000_000;
            set_errno(libc::ETIMEDOUT);
            -1
        }
        None if foreign_threads() => {
            // the code under test started threads of its own: only they can wake this one
            s.blocked[me] = None;
            unsafe { raw(202, addr, 128, val as usize, 0, 0, 0) };
            0
        }
        None => die("DEADLOCK", "every simulated thread is blocked"),
    }
}
fn foreign_threads() -> bool {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0) > sched().alive.iter().filter(|a| **a).count() + 1
}

/// The environment the simulated process sees: named variables, and what any other name reads as.
pub struct EnvTable { pub vars: Vec<(std::ffi::CString, std::ffi::CString)>, pub chaos: u64, pub files: u64, pub pid: i32 }
static mut ENV: Option<EnvTable> = None;
#[allow(static_mut_refs)]
pub fn install_env(e: EnvTable) { unsafe { ENV = Some(e) } }
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = std::ffi::CStr::from_ptr(name);
    if SIM_ON.load(Relaxed) {
        let Some(t) = ENV.as_ref() else { return std::ptr::null_mut() };
        if let Some((_, v)) = t.vars.iter().find(|(k, _)| k.as_c_str() == n) { return v.as_ptr() as *mut _; }
        let b = n.to_bytes();
        if t.chaos == 0 || b.starts_with(b"RUST_") || b.starts_with(b"LD_") || b.starts_with(b"MALLOC_") || b.starts_with(b"GLIBC") { return std::ptr::null_mut(); }
        const VALUES: [&std::ffi::CStr; 16] = [c"2", c"no", c"false", c"yes", c"/tmp", c"debug", c"html", c"de_DE.UTF-8", c"1", c"0", c"", c"tr_TR.UTF-8", c"/nonexistent", c"true", c"production", c"Asia/Kathmandu"];
        let h = crate::rng::splitmix(crate::rng::fnv(b) ^ t.chaos);
        if h % 4 == 0 { return std::ptr::null_mut(); }
        return VALUES[(h >> 8) as usize % 16].as_ptr() as *mut _;
    }
    extern "C" { static environ: *const *const libc::c_char; }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        let b = n.to_bytes();
        if e.len() > b.len() && e[b.len()] == b'=' && &e[..b.len()] == b { return (*p).add(b.len() + 1) as *mut _; }
        p = p.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn getpid() -> i32 {
    if SIM_ON.load(Relaxed) { if let Some(t) = ENV.as_ref() { return t.pid; } }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}

// ---------------------------------------------------------------- files

/// Files written during the run (path hash, memory file); -1 = removed.
static mut FILES: [(u64, i32); 512] = [(0, -1); 512];
static mut NFILES: usize = 0;
#[allow(static_mut_refs)]
unsafe fn file_slot(h: u64) -> Option<usize> { (0..NFILES).find(|&i| FILES[i].0 == h) }
#[allow(static_mut_refs)]
unsafe fn file_set(h: u64, fd: i32) {
    match file_slot(h) {
        Some(i) => FILES[i].1 = fd,
        None if NFILES < 512 => { FILES[NFILES] = (h, fd); NFILES += 1; }
        None => {}
    }
}
unsafe fn memfile() -> i32 { raw(319, c"sim".as_ptr() as usize, 1, 0, 0, 0, 0) as i32 }
unsafe fn proc_fd(fd: i32, buf: &mut [u8; 32]) {
    let head = b"/proc/self/fd/";
    buf[..head.len()].copy_from_slice(head);
    let mut d = [0u8; 10];
    let (mut n, mut x) = (0, fd.max(0) as u32);
    loop { d[n] = b'0' + (x % 10) as u8; n += 1; x /= 10; if x == 0 { break; } }
    for i in 0..n { buf[head.len() + i] = d[n - 1 - i]; }
    buf[head.len() + n] = 0;
}
/// What the simulated process finds under a path: Ok(Some(fd)) a file of the run, Ok(None) whatever is really there, Err(errno).
#[allow(static_mut_refs)]
unsafe fn file_at(path: *const libc::c_char) -> Result<Option<i32>, i32> {
    if simulated().is_none() { return Ok(None); }
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    let h = crate::rng::fnv(p);
    if let Some(i) = file_slot(h) { return if FILES[i].1 < 0 { Err(libc::ENOENT) } else { Ok(Some(FILES[i].1)) }; }
    let seed = ENV.as_ref().map_or(0, |e| e.files);
    let system = [&b"/proc"[..], b"/sys", b"/dev", b"/etc", b"/usr", b"/lib", b"/root"].iter().any(|s| p.starts_with(s));
    if seed == 0 || system || p.is_empty() { return Ok(None); }
    let mut st: libc::stat = std::mem::zeroed();
    if raw(4, path as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) != -(libc::ENOENT as i64) { return Ok(None); }
    // a place where almost every file exists
    let x = crate::rng::splitmix(h ^ seed);
    if x % 8 == 0 { return Ok(None); }
    let fd = memfile();
    if fd < 0 { return Ok(None); }
    let text = [&b".txt"[..], b".toml", b".json", b".conf", b".cfg", b".yml", b".yaml", b".ini", b".css", b".html", b".textile"].iter().any(|e| p.ends_with(e));
    let mut b = *b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR\0\0\0\0\0\0\0\0\x08\x06\0\0\0\0\0\0\0\0\0\0\0\0\0\0";
    b[18..20].copy_from_slice(&(x as u16 | 1).to_be_bytes());
    b[22..24].copy_from_slice(&((x >> 16) as u16 | 1).to_be_bytes());
    let t = b"restricted = true\nlite = true\nlang = de\n";
    let (src, n) = if text { (t.as_ptr(), t.len()) } else { (b.as_ptr(), b.len()) };
    raw(1, fd as usize, src as usize, n, 0, 0, 0);
    file_set(h, fd);
    Ok(Some(fd))
}
unsafe fn ret(r: i64) -> i32 { if r < 0 { set_errno(-r as i32); -1 } else { r as i32 } }
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    let writes = flags & (libc::O_ACCMODE | libc::O_CREAT) != 0;
    let device = p.starts_with(b"/dev/") || p.starts_with(b"/proc/");
    if simulated().is_none() || (writes && device) { return ret(raw(2, path as usize, flags as usize, mode as usize, 0, 0, 0)); }
    let fd = match file_at(path) {
        Ok(Some(_)) if flags & (libc::O_CREAT | libc::O_EXCL) == libc::O_CREAT | libc::O_EXCL => { set_errno(libc::EEXIST); return -1; }
        Ok(Some(fd)) => fd,
        Err(e) if flags & libc::O_CREAT == 0 => { set_errno(e); return -1; }
        Ok(None) if !writes => return ret(raw(2, path as usize, flags as usize, mode as usize, 0, 0, 0)),
        _ => {
            // nothing leaves the simulation
            let fd = memfile();
            if fd < 0 { return ret(fd as i64); }
            file_set(crate::rng::fnv(p), fd);
            fd
        }
    };
    let mut b = [0u8; 32];
    proc_fd(fd, &mut b);
    ret(raw(2, b.as_ptr() as usize, (flags & !(libc::O_CREAT | libc::O_EXCL | libc::O_NOFOLLOW)) as usize, 0, 0, 0, 0))
}
unsafe fn stat_call(nr: i64, path: *const libc::c_char, st: usize) -> i32 {
    match file_at(path) {
        Ok(Some(fd)) => ret(raw(5, fd as usize, st, 0, 0, 0, 0)),
        Ok(None) => ret(raw(nr, path as usize, st, 0, 0, 0, 0)),
        Err(e) => { set_errno(e); -1 }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const libc::c_char, st: usize) -> i32 { stat_call(4, path, st) }
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const libc::c_char, st: usize) -> i32 { stat_call(6, path, st) }
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, flags: i32, mask: u32, st: usize) -> i32 {
    if *path != 0 {
        match file_at(path) {
            Ok(Some(fd)) => return ret(raw(332, fd as usize, c"".as_ptr() as usize, libc::AT_EMPTY_PATH as usize, mask as usize, st, 0)),
            Ok(None) => {}
            Err(e) => { set_errno(e); return -1; }
        }
    }
    ret(raw(332, dir as usize, path as usize, flags as usize, mask as usize, st, 0))
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const libc::c_char, mode: i32) -> i32 {
    match file_at(path) {
        Ok(Some(_)) => 0,
        Ok(None) => ret(raw(21, path as usize, mode as usize, 0, 0, 0, 0)),
        Err(e) => { set_errno(e); -1 }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const libc::c_char, mode: u32) -> i32 {
    if simulated().is_some() { return 0; }
    ret(raw(83, path as usize, mode as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const libc::c_char, to: *const libc::c_char) -> i32 {
    if simulated().is_none() { return ret(raw(82, from as usize, to as usize, 0, 0, 0, 0)); }
    match file_at(from) {
        Ok(Some(fd)) => { file_set(crate::rng::fnv(std::ffi::CStr::from_ptr(to).to_bytes()), fd); file_set(crate::rng::fnv(std::ffi::CStr::from_ptr(from).to_bytes()), -1); 0 }
        _ => { set_errno(libc::ENOENT); -1 }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> i32 {
    if simulated().is_none() { return ret(raw(87, path as usize, 0, 0, 0, 0, 0)); }
    match file_at(path) {
        Ok(Some(_)) => { file_set(crate::rng::fnv(std::ffi::CStr::from_ptr(path).to_bytes()), -1); 0 }
        _ => { set_errno(libc::ENOENT); -1 }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const libc::c_char) -> i32 {
    if simulated().is_some() { return 0; }
    ret(raw(84, path as usize, 0, 0, 0, 0, 0))
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn getcwd(buf: *mut libc::c_char, size: usize) -> *mut libc::c_char {
    if simulated().is_some() && !buf.is_null() {
        let c = match ENV.as_ref().map_or(0, |e| e.chaos) { 0 => c"/home/sim", x => [c"/", c"/srv/www", c"/home/de", c"/tmp/x y"][x as usize % 4] };
        let b = c.to_bytes_with_nul();
        if b.len() > size { set_errno(libc::ERANGE); return std::ptr::null_mut(); }
        std::ptr::copy_nonoverlapping(b.as_ptr() as *const libc::c_char, buf, b.len());
        return buf;
    }
    if buf.is_null() { set_errno(libc::EINVAL); return std::ptr::null_mut(); }
    if ret(raw(79, buf as usize, size, 0, 0, 0, 0)) < 0 { std::ptr::null_mut() } else { buf }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, set: *mut u8) -> i32 {
    if simulated().is_some() {
        let cpus = match ENV.as_ref().map_or(0, |e| e.chaos) { 0 => 4, x => [1, 2, 3, 16, 64][(x >> 5) as usize % 5] };
        for i in 0..size { *set.add(i) = if i * 8 + 8 <= cpus { 0xff } else if i * 8 < cpus { (1u8 << (cpus - i * 8)) - 1 } else { 0 }; }
        return 0;
    }
    let r = raw(204, pid as usize, size, set as usize, 0, 0, 0);
    if r < 0 { set_errno(-r as i32); return -1; }
    for i in r as usize..size { *set.add(i) = 0; }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if SIM_ON.load(Relaxed) && id != libc::CLOCK_PROCESS_CPUTIME_ID && id != libc::CLOCK_THREAD_CPUTIME_ID {
        let s = sched();
        s.clock_reads += 1;
        let wall = id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE;
        let v = if wall { s.wall_ns } else { s.mono_ns };
        s.mono_ns += 1;
        s.wall_ns += s.tick_ns as i128;
        (*ts).tv_sec = v.div_euclid(1_000_000_000) as i64;
        (*ts).tv_nsec = v.rem_euclid(1_000_000_000) as i64;
        return 0;
    }
    let r = raw(228, id as usize, ts as usize, 0, 0, 0, 0);
    if r < 0 { set_errno(-r as i32); -1 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: usize) -> i32 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() { *out = ts.tv_sec; }
    ts.tv_sec
}
unsafe fn sim_sleep(req: *const libc::timespec) -> bool {
    if simulated().is_none() { return false; }
    let s = sched();
    s.sleeps += 1;
    advance((*req).tv_sec as i128 * 1_000_000_000 + (*req).tv_nsec as i128);
    point(Point::Sleep);
    true
}
pub fn advance(ns: i128) {
    let s = sched();
    s.mono_ns += ns;
    s.wall_ns += ns;
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if sim_sleep(req) { return 0; }
    let r = raw(35, req as usize, rem as usize, 0, 0, 0, 0);
    if r < 0 { set_errno(-r as i32); -1 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if flags == 0 && sim_sleep(req) { return 0; }
    -raw(230, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(t) = simulated() {
        let _q = quiet();
        let me = t as usize;
        let s = sched();
        s.points[me] += 1;
        let at = s.points[me];
        if let Some(to) = s.choose(t, at) { switch(me, at, to); }
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if SIM_ON.load(Relaxed) {
        let s = sched();
        s.random_draws += 1;
        for i in 0..n { *p.add(i) = s.hash_rng.next() as u8; }
        return n as isize;
    }
    let r = raw(318, p as usize, n, flags as usize, 0, 0, 0);
    if r < 0 { set_errno(-r as i32); -1 } else { r as isize }
}
