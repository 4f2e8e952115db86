//! Yield points.  The instrumented build makes the compiler call these functions at every basic
//! block, load and store of the library; here the scheduler decides whether the running thread
//! goes on.  In the plain build nothing calls them.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub struct Ctx {
    /// points until the next switch (switching) or stop (tracing)
    left: u64,
    pub points: u64,
    /// last code location, and memory accesses since
    loc: u32,
    acc: u32,
    /// which points this quantum counts, whether the location is rarely visited, how many more
    /// points belong to an access to state that callers share, and how many points of any kind
    /// the quantum may take at most
    counts: Counts,
    rare: bool,
    heat: u32,
    cap: u64,
    /// memory that callers share but may only read: address, length
    watch: [(u64, u64); 3],
    hot: u64,
    mode: Mode,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Counts {
    All,
    /// only those at locations the callers alone rarely visit
    Rare,
    /// only those at, and just after, accesses to the program's writable static memory, and
    /// stores to what callers share but may only read
    Hot,
}

/// How many points after such an access still belong to it.
const WARM: u32 = 16;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

enum Mode {
    /// by location: visits, points
    Count(Vec<(u32, u32)>),
    Switch { me: usize, sched: *const Sched },
    Trace(Box<Trace>),
}

/// What an observer learns of a traced thread.
pub struct Trace {
    pub code: u64,
    pub mem: u64,
    pub points: u64,
    quanta: Vec<u64>,
    next: usize,
    /// where the thread was stopped: code location and accesses since
    pub stops: Vec<(u32, u32)>,
    /// the first code locations, kept for reports
    pub path: Vec<u32>,
    pub keep: usize,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    /// the scheduler's own code runs
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

/// A simulated thread that is running the code under test, if this is one.
fn simulated() -> Option<(&'static mut Ctx, usize, &'static Sched)> {
    let c = CTX.with(|c| c.get());
    if c.is_null() || INSIDE.with(|x| x.get()) {
        return None;
    }
    let c = unsafe { &mut *c };
    match c.mode {
        Mode::Switch { me, sched } => Some((c, me, unsafe { &*sched })),
        _ => None,
    }
}

fn counting() -> bool {
    let c = CTX.with(|c| c.get());
    !c.is_null() && unsafe { matches!((*c).mode, Mode::Count(_)) }
}

/// Exit code of a process whose only caller can never finish its call.
pub const NEVER: i32 = 77;
/// More yield points than any caller's program passes alone.
const ENDLESS: u64 = 600_000_000;

/// In the log, the place of a thread that starts to wait on a futex, or gives way.
pub const WAITS: u32 = u32::MAX - 1;
pub const YIELDS: u32 = u32::MAX - 2;

/// The standard library's locks, condition variables, one-time initialisers and parking all wait
/// through this function; for simulated threads the scheduler does it.
#[no_mangle]
#[allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == 202 {
        if let Some((ctx, me, s)) = simulated() {
            match b & 0x7f {
                0 | 9 => {
                    if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                        *__errno_location() = 11;
                        return -1;
                    }
                    INSIDE.with(|x| x.set(true));
                    let (woken, q) = s.futex_wait(me, a, d != 0, ctx.points);
                    INSIDE.with(|x| x.set(false));
                    ctx.start(q);
                    if !woken {
                        *__errno_location() = 110;
                        return -1;
                    }
                    return 0;
                }
                1 | 10 => {
                    INSIDE.with(|x| x.set(true));
                    let k = s.futex_wake(a, c as i32 as usize);
                    INSIDE.with(|x| x.set(false));
                    if k > 0 {
                        return k as isize;
                    }
                }
                _ => {}
            }
        }
    }
    if n == 202 && matches!(b & 0x7f, 0 | 9) && d == 0 && counting() {
        // alone, so nobody will ever wake it
        if (*(a as *const AtomicU32)).load(SeqCst) == c as u32 {
            _exit(NEVER);
        }
    }
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// A thread that gives way, as spin locks do, makes room for the next one.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some((ctx, me, s)) = simulated() {
        INSIDE.with(|x| x.set(true));
        let q = s.switch(me, YIELDS, 0, ctx.points, false);
        INSIDE.with(|x| x.set(false));
        ctx.start(q);
        return 0;
    }
    if counting() {
        let c = &mut *CTX.with(|c| c.get());
        c.left = c.left.saturating_sub(1000).max(1);
    }
    syscall(24, 0, 0, 0, 0, 0, 0) as i32
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn _exit(c: i32) -> !;
}
static GUARDS: AtomicU32 = AtomicU32::new(1);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            *p = GUARDS.fetch_add(1, SeqCst);
            p = p.add(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = CTX.with(|c| c.get());
    if !c.is_null() {
        unsafe { edge(&mut *c, *g) }
    }
}
macro_rules! access {
    ($($n:ident $k:expr),*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(a: *const u8) {
            let c = CTX.with(|c| c.get());
            if !c.is_null() {
                unsafe { touch(&mut *c, a as u64, $k) }
            }
        }
    )* };
}
access!(
    __sanitizer_cov_load1 1, __sanitizer_cov_load2 2, __sanitizer_cov_load4 4, __sanitizer_cov_load8 8, __sanitizer_cov_load16 16,
    __sanitizer_cov_store1 101, __sanitizer_cov_store2 102, __sanitizer_cov_store4 104, __sanitizer_cov_store8 108, __sanitizer_cov_store16 116
);

// Copies of memory are not one step: another thread may run in the middle of one.
const CHUNK: usize = 16;

fn touched(a: *const u8, k: u64) {
    let c = CTX.with(|c| c.get());
    if !c.is_null() {
        unsafe { touch(&mut *c, a as u64, k) }
    }
}

unsafe fn moved(d: *mut u8, s: *const u8, n: usize) {
    let c = CTX.with(|c| c.get());
    if c.is_null() || n == 0 {
        std::ptr::copy(s, d, n);
        return;
    }
    if let Mode::Trace(t) = &mut (*c).mode {
        t.mem = step(t.mem, n as u64);
    }
    let back = (d as usize).wrapping_sub(s as usize) < n;
    let parts = (n + CHUNK - 1) / CHUNK;
    for i in 0..parts {
        let at = if back { parts - 1 - i } else { i } * CHUNK;
        let len = CHUNK.min(n - at);
        touched(s.add(at), 16);
        let mut b = [0u8; CHUNK];
        std::ptr::copy_nonoverlapping(s.add(at), b.as_mut_ptr(), len);
        touched(d.add(at), 116);
        std::ptr::copy_nonoverlapping(b.as_ptr(), d.add(at), len);
    }
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(d, s, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(d, s, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    let mut at = 0;
    while at < n {
        touched(d.add(at), 116);
        let len = CHUNK.min(n - at);
        std::ptr::write_bytes(d.add(at), v as u8, len);
        at += len;
    }
    d
}
macro_rules! atomics {
    ($($t:ty, $a:ident, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $nand:ident $or:ident $xor:ident $cas:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            touched(p.cast(), 9);
            (*p.cast::<std::sync::atomic::$a>()).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            touched(p.cast(), 109);
            (*p.cast::<std::sync::atomic::$a>()).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _: i32, _: i32) -> $t {
            touched(p.cast(), 109);
            match (*p.cast::<std::sync::atomic::$a>()).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        atomics!(@rmw $t, $a, $swap swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $nand fetch_nand, $or fetch_or, $xor fetch_xor);
    )* };
    (@rmw $t:ty, $a:ident, $($n:ident $m:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *mut $t, v: $t, _: i32) -> $t {
            touched(p.cast(), 109);
            (*p.cast::<std::sync::atomic::$a>()).$m(v, SeqCst)
        }
    )* };
}
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub
        __tsan_atomic8_fetch_and __tsan_atomic8_fetch_nand __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub
        __tsan_atomic16_fetch_and __tsan_atomic16_fetch_nand __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub
        __tsan_atomic32_fetch_and __tsan_atomic32_fetch_nand __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub
        __tsan_atomic64_fetch_and __tsan_atomic64_fetch_nand __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

/// how many locations the build instrumented
pub fn instrumented() -> u32 {
    GUARDS.load(SeqCst) - 1
}

#[inline(always)]
fn step(h: u64, x: u64) -> u64 {
    (h.rotate_left(5) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15)
}

unsafe fn edge(c: &mut Ctx, id: u32) {
    c.loc = id;
    c.acc = 0;
    match &mut c.mode {
        Mode::Trace(t) => {
            t.code = step(t.code, id as u64);
            if t.path.len() < t.keep {
                t.path.push(id);
            }
        }
        Mode::Count(n) => {
            if let Some(n) = n.get_mut(id as usize) {
                n.0 = n.0.saturating_add(1);
            }
        }
        Mode::Switch { sched, .. } => c.rare = *(&(**sched).rare).get(id as usize).unwrap_or(&true),
    }
    point(c)
}
unsafe fn touch(c: &mut Ctx, a: u64, k: u64) {
    c.acc += 1;
    if a.wrapping_sub(&raw const __data_start as u64) < (&raw const _end as u64).wrapping_sub(&raw const __data_start as u64)
        || (k > 100 && c.watch.iter().any(|w| a.wrapping_sub(w.0) < w.1))
    {
        c.heat = WARM;
    }
    if let Mode::Trace(t) = &mut c.mode {
        t.mem = step(t.mem, a ^ (k << 56));
    }
    point(c)
}
#[inline(always)]
unsafe fn point(c: &mut Ctx) {
    c.points += 1;
    if let Mode::Count(n) = &mut c.mode {
        if let Some(n) = n.get_mut(c.loc as usize) {
            n.1 = n.1.saturating_add(1);
        }
    }
    let hot = c.heat > 0;
    if hot {
        c.heat -= 1;
        c.hot += 1;
    }
    if c.counts == Counts::All {
        c.left -= 1;
    } else {
        c.left -= if c.counts == Counts::Rare { c.rare } else { hot } as u64;
        c.cap -= 1;
        if c.cap == 0 {
            c.left = 0;
        }
    }
    if let Mode::Switch { me, sched } = c.mode {
        let s = &*sched;
        // woken up by the kernel while another thread has the baton
        if s.turn.load(std::sync::atomic::Ordering::Relaxed) != me {
            INSIDE.with(|x| x.set(true));
            let q = s.rejoin(me);
            INSIDE.with(|x| x.set(false));
            c.start(q);
        } else if c.left == 0 {
            INSIDE.with(|x| x.set(true));
            let q = s.switch(me, c.loc, c.acc, c.points, true);
            INSIDE.with(|x| x.set(false));
            c.start(q);
        }
    } else if c.left == 0 {
        match &mut c.mode {
            Mode::Trace(t) => {
                t.stops.push((c.loc, c.acc));
                c.left = *t.quanta.get(t.next).unwrap_or(&u64::MAX);
                t.next += 1;
            }
            _ => _exit(NEVER),
        }
    }
}

impl Ctx {
    fn new(left: u64, mode: Mode) -> Ctx {
        Ctx { left, points: 0, loc: 0, acc: 0, counts: Counts::All, rare: true, heat: 0, cap: 0, watch: [(0, 0); 3], hot: 0, mode }
    }
    fn start(&mut self, q: (u64, Counts)) {
        self.left = q.0;
        self.counts = q.1;
        self.cap = FAIR;
    }
}

/// How often f visits each location and how many points it passes there; how many points it
/// passes in all, and how many at accesses to shared state.
pub fn counted<T>(watch: [(u64, u64); 3], f: impl FnOnce() -> T) -> (T, Vec<(u32, u32)>, u64, u64) {
    let mut c = Ctx::new(ENDLESS, Mode::Count(vec![(0, 0); instrumented() as usize + 1]));
    c.watch = watch;
    CTX.with(|x| x.set(&mut c));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CTX.with(|x| x.set(std::ptr::null_mut()));
    let (points, hot) = (c.points, c.hot);
    match (r, c.mode) {
        (Ok(r), Mode::Count(n)) => (r, n, points, hot),
        (Err(e), _) => std::panic::resume_unwind(e),
        _ => unreachable!(),
    }
}

/// A yield point of the simulator's own, inside an entropy source or an output sink.
pub fn here(id: u32) {
    let c = CTX.with(|c| c.get());
    if !c.is_null() {
        unsafe { edge(&mut *c, 0x4000_0000 + id) }
    }
}

impl Trace {
    pub fn put(&self, o: &mut Vec<u8>) {
        let w = |o: &mut Vec<u8>, x: u64| o.extend(x.to_le_bytes());
        w(o, self.code);
        w(o, self.mem);
        w(o, self.points);
        w(o, self.stops.len() as u64);
        self.stops.iter().for_each(|q| w(o, (q.0 as u64) << 32 | q.1 as u64));
        w(o, self.path.len() as u64);
        self.path.iter().for_each(|q| w(o, *q as u64));
    }
    pub fn get(r: &mut crate::proc::Rd) -> Option<Trace> {
        let (code, mem, points) = (r.u64()?, r.u64()?, r.u64()?);
        let mut t = Trace { code, mem, points, quanta: Vec::new(), next: 0, stops: Vec::new(), path: Vec::new(), keep: 0 };
        for _ in 0..r.u64()? {
            let q = r.u64()?;
            t.stops.push(((q >> 32) as u32, q as u32));
        }
        for _ in 0..r.u64()? {
            t.path.push(r.u64()? as u32);
        }
        Some(t)
    }
}

/// Trace f: what an observer that stops it after these quanta of points would see.
pub fn traced<T>(quanta: &[u64], keep: usize, f: impl FnOnce() -> T) -> (T, Trace) {
    let t = Trace {
        code: 0,
        mem: 0,
        points: 0,
        quanta: quanta.to_vec(),
        next: 1,
        stops: Vec::with_capacity(quanta.len() + 1),
        path: Vec::with_capacity(keep),
        keep,
    };
    let mut c = Ctx::new(quanta.first().copied().unwrap_or(u64::MAX).max(1), Mode::Trace(Box::new(t)));
    CTX.with(|x| x.set(&mut c));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CTX.with(|x| x.set(std::ptr::null_mut()));
    let n = c.points;
    match (r, c.mode) {
        (Ok(r), Mode::Trace(mut t)) => {
            t.points = n;
            (r, *t)
        }
        (Err(e), _) => std::panic::resume_unwind(e),
        _ => unreachable!(),
    }
}

pub const NOBODY: usize = usize::MAX;
/// the longest a thread may run once the schedule is used up
const FAIR: u64 = 250_000;

struct Inner {
    alive: Vec<bool>,
    /// waits for something outside the simulator
    blocked: Vec<bool>,
    /// waits on a futex: its address, whether the wait can time out
    waiting: Vec<Option<(usize, bool)>>,
    timed_out: Vec<bool>,
    /// how many more turns there may be once the schedule is used up, in fiftieths
    patience: u64,
    /// (points, the thread that runs after them, which points count)
    schedule: Vec<(u64, usize, Counts)>,
    pos: usize,
    /// (thread stopped, location, accesses, its points, thread resumed)
    log: Vec<(usize, u32, u32, u64, usize)>,
}

/// Real threads of which exactly one, the holder of the baton, runs at any time.
pub struct Sched {
    turn: AtomicUsize,
    moves: AtomicU64,
    over: AtomicBool,
    dead: AtomicBool,
    stuck: AtomicBool,
    handing: AtomicBool,
    tids: Vec<AtomicU32>,
    threads: Mutex<Vec<Option<std::thread::Thread>>>,
    /// by location: is it rarely visited
    rare: Vec<bool>,
    watch: [(u64, u64); 3],
    inner: Mutex<Inner>,
    done: Condvar,
    left: Condvar,
}

#[derive(Debug, PartialEq)]
pub enum End {
    Done,
    /// every caller left waits for another
    Deadlock,
    /// long after the last planned preemption some caller still runs
    Stuck,
}

impl Sched {
    /// `work`: how many points the callers pass when alone, together
    pub fn new(n: usize, schedule: Vec<(u64, usize, Counts)>, rare: Vec<bool>, watch: [(u64, u64); 3], work: u64) -> Sched {
        let patience = 50 * (60 * n as u64 + 4 * (work / FAIR));
        Sched {
            turn: AtomicUsize::new(NOBODY),
            moves: AtomicU64::new(0),
            over: AtomicBool::new(false),
            dead: AtomicBool::new(false),
            stuck: AtomicBool::new(false),
            handing: AtomicBool::new(false),
            tids: (0..n).map(|_| AtomicU32::new(0)).collect(),
            threads: Mutex::new(vec![None; n]),
            rare,
            watch,
            inner: Mutex::new(Inner { alive: vec![true; n], blocked: vec![false; n], waiting: vec![None; n], timed_out: vec![false; n], patience, schedule, pos: 0, log: Vec::with_capacity(4096) }),
            done: Condvar::new(),
            left: Condvar::new(),
        }
    }
    pub fn log(&self) -> Vec<(usize, u32, u32, u64, usize)> {
        self.inner.lock().unwrap().log.clone()
    }
    fn give(&self, to: usize) {
        // until it is awake, a thread that sleeps is not waiting for another
        self.handing.store(true, SeqCst);
        self.turn.store(to, SeqCst);
        self.moves.fetch_add(1, SeqCst);
        if to != NOBODY {
            if let Some(t) = &self.threads.lock().unwrap()[to] {
                t.unpark();
            }
        }
        self.handing.store(false, SeqCst);
    }
    fn wait(&self, me: usize) {
        while self.turn.load(SeqCst) != me {
            std::thread::park();
        }
    }
    /// the next runnable thread at or after `want`
    fn pick(g: &Inner, want: usize) -> usize {
        let n = g.alive.len();
        (0..n).map(|k| (want + k) % n).find(|t| g.alive[*t] && !g.blocked[*t] && g.waiting[*t].is_none()).unwrap_or(NOBODY)
    }
    /// The same; if there is none, time passes until some wait ends.
    fn pick_or_time(&self, g: &mut Inner, want: usize) -> usize {
        let n = g.alive.len();
        let to = Self::pick(g, want);
        if to != NOBODY || g.alive.iter().all(|x| !*x) {
            return to;
        }
        for t in (0..n).map(|k| (want + k) % n) {
            if g.alive[t] && g.waiting[t].map_or(false, |w| w.1) {
                g.waiting[t] = None;
                g.timed_out[t] = true;
                return t;
            }
        }
        if (0..n).all(|t| !g.alive[t] || g.waiting[t].is_some()) {
            self.dead.store(true, SeqCst);
            self.done.notify_all();
        }
        NOBODY
    }
    fn note(g: &mut Inner, e: (usize, u32, u32, u64, usize)) {
        if g.log.len() < 4096 {
            g.log.push(e);
        }
    }
    /// The running thread's quantum is over, or it gives way.  Everything that moves the baton
    /// holds `inner`.
    fn switch(&self, me: usize, loc: u32, acc: u32, points: u64, planned: bool) -> (u64, Counts) {
        let mut g = self.inner.lock().unwrap();
        let mut want = me + 1;
        if planned {
            want = g.schedule.get(g.pos).map_or(want, |x| x.1);
            g.pos += 1;
        }
        let mut to = Self::pick(&g, want);
        if g.pos >= g.schedule.len() {
            if g.patience < 50 {
                self.stuck.store(true, SeqCst);
                self.done.notify_all();
                to = NOBODY;
            } else {
                g.patience -= if planned { 50 } else { 1 };
            }
        }
        Self::note(&mut g, (me, loc, acc, points, to));
        if to != me {
            self.give(to);
        }
        drop(g);
        self.wait(me);
        self.quantum()
    }
    /// The running thread waits on a futex; true when woken, false when its time ran out.
    fn futex_wait(&self, me: usize, addr: usize, timed: bool, points: u64) -> (bool, (u64, Counts)) {
        let mut g = self.inner.lock().unwrap();
        g.waiting[me] = Some((addr, timed));
        let to = self.pick_or_time(&mut g, me + 1);
        Self::note(&mut g, (me, WAITS, 0, points, to));
        if to != me {
            self.give(to);
        }
        drop(g);
        self.wait(me);
        let woken = !std::mem::replace(&mut self.inner.lock().unwrap().timed_out[me], false);
        (woken, self.quantum())
    }
    fn futex_wake(&self, addr: usize, most: usize) -> usize {
        let mut g = self.inner.lock().unwrap();
        let mut n = 0;
        for w in g.waiting.iter_mut() {
            if n < most && w.map_or(false, |w| w.0 == addr) {
                *w = None;
                n += 1;
            }
        }
        n
    }
    /// how long whoever has just got the baton may run
    fn quantum(&self) -> (u64, Counts) {
        let g = self.inner.lock().unwrap();
        g.schedule.get(g.pos).map_or((FAIR, Counts::All), |x| (x.0.max(1), x.2))
    }
    fn rejoin(&self, me: usize) -> (u64, Counts) {
        let mut g = self.inner.lock().unwrap();
        g.blocked[me] = false;
        if self.turn.load(SeqCst) == NOBODY {
            self.give(me);
        }
        drop(g);
        self.wait(me);
        self.quantum()
    }
    fn finish(&self, me: usize) {
        self.finished(me);
        // a thread that went away now would free memory while another runs
        let mut g = self.inner.lock().unwrap();
        while !self.over.load(SeqCst) {
            g = self.left.wait(g).unwrap();
        }
    }
    fn finished(&self, me: usize) {
        let mut g = self.inner.lock().unwrap();
        g.alive[me] = false;
        g.blocked[me] = false;
        let t = self.turn.load(SeqCst);
        if t == me || t == NOBODY {
            let to = self.pick_or_time(&mut g, me + 1);
            self.give(to);
        }
        if g.alive.iter().all(|x| !*x) {
            self.over.store(true, SeqCst);
            self.left.notify_all();
        }
        self.done.notify_all();
    }
    /// Returns when simulated thread `me` waits to be started: threads start one after the
    /// other, so that every run allocates in the same order.
    pub fn ready(&self, me: usize) {
        let mut g = self.inner.lock().unwrap();
        while self.threads.lock().unwrap()[me].is_none() {
            g = self.done.wait_timeout(g, Duration::from_millis(1)).unwrap().0;
        }
    }
    /// Body of simulated thread `me`.
    pub fn run(&self, me: usize, f: impl FnOnce()) {
        self.tids[me].store(unsafe { gettid() } as u32, SeqCst);
        let t = std::thread::current();
        let mut c = Ctx::new(1, Mode::Switch { me, sched: self });
        c.watch = self.watch;
        self.threads.lock().unwrap()[me] = Some(t);
        self.done.notify_all();
        self.wait(me);
        c.start(self.quantum());
        CTX.with(|x| x.set(&mut c));
        f();
        CTX.with(|x| x.set(std::ptr::null_mut()));
        self.finish(me);
    }
    /// The coordinator: starts the threads with `first` and watches for a thread that holds the
    /// baton but waits for something only another thread can provide.
    pub fn drive(&self, first: usize) -> End {
        let n = self.tids.len();
        (0..n).for_each(|i| self.ready(i));
        self.give(first % n);
        let mut still = 0;
        let mut idle = 0;
        let mut seen = u64::MAX;
        loop {
            let g = self.inner.lock().unwrap();
            if let Some(e) = self.ended() {
                return e;
            }
            let (g, _) = self.done.wait_timeout(g, Duration::from_millis(2)).unwrap();
            drop(g);
            if let Some(e) = self.ended() {
                return e;
            }
            let t = self.turn.load(SeqCst);
            let m = self.moves.load(SeqCst);
            if t == NOBODY {
                // everyone left is blocked; a wake-up may still be on its way
                idle += 1;
                if idle > 500 && self.all_sleep() {
                    return End::Deadlock;
                }
                continue;
            }
            idle = 0;
            if m == seen && !self.handing.load(SeqCst) && sleeping(self.tids[t].load(SeqCst)) {
                still += 1;
            } else {
                still = 0;
            }
            seen = m;
            if still >= 3 {
                still = 0;
                let mut g = self.inner.lock().unwrap();
                if self.turn.load(SeqCst) == t && g.alive[t] && !self.handing.load(SeqCst) {
                    g.blocked[t] = true;
                    let to = self.pick_or_time(&mut g, t + 1);
                    Self::note(&mut g, (t, u32::MAX, 0, 0, to));
                    self.give(to);
                }
            }
        }
    }
    fn ended(&self) -> Option<End> {
        if self.over.load(SeqCst) {
            Some(End::Done)
        } else if self.dead.load(SeqCst) {
            Some(End::Deadlock)
        } else if self.stuck.load(SeqCst) {
            Some(End::Stuck)
        } else {
            None
        }
    }
    fn all_sleep(&self) -> bool {
        let g = self.inner.lock().unwrap();
        (0..self.tids.len()).all(|i| !g.alive[i] || sleeping(self.tids[i].load(SeqCst)))
    }
}

extern "C" {
    fn gettid() -> i32;
    fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}
/// Does this thread sleep?  Allocates nothing: the allocator is the simulated threads' own.
fn sleeping(tid: u32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut digits = [0u8; 10];
    let (mut t, mut n) = (tid, 0);
    while t > 0 {
        digits[n] = b'0' + (t % 10) as u8;
        t /= 10;
        n += 1;
    }
    for k in 0..n {
        path[16 + k] = digits[n - 1 - k];
    }
    path[16 + n..16 + n + 6].copy_from_slice(b"/stat\0");
    let mut b = [0u8; 512];
    let len = unsafe {
        let fd = open(path.as_ptr().cast(), 0x80000);
        if fd < 0 {
            return false;
        }
        let r = read(fd, b.as_mut_ptr().cast(), b.len());
        close(fd);
        r.max(0) as usize
    };
    let b = &b[..len.min(512)];
    // the state follows the command, which is in parentheses
    b.iter().rposition(|x| *x == b')').map_or(false, |i| b.get(i + 2) == Some(&b'S'))
}
