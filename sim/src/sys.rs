//! The seams the simulator owns below the engine: the allocator, the process's random
//! source, clocks, sleeps, futexes and standard output are interposed here, and threads
//! of the engine's callers run one at a time, chosen by the seeded scheduler.
//!
//! Only threads that called `enter` are under control; the harness's own threads and
//! processes go straight to the kernel.

use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicU32, AtomicU64, Ordering::*};

thread_local! {
    static ME: Cell<u32> = const { Cell::new(0) };
    static PAUSE: Cell<u32> = const { Cell::new(0) };
    /// single instructions left until this caller is preempted
    static ARMED: Cell<u32> = const { Cell::new(0) };
    /// the point that armed it, and the caller to run then (0: the schedule's choice)
    static ARMED_AT: Cell<(u64, u32)> = const { Cell::new((0, 0)) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

pub const MAX_THREADS: usize = 6;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum StdoutFault {
    None,
    /// every write fails with this errno, after the first `n` bytes
    Errno(i32, u32),
    /// every second write is interrupted
    Eintr,
    /// one byte at a time
    Short,
}

pub struct World {
    active: bool,
    alive: [bool; MAX_THREADS + 1],
    waiting: [Option<(usize, u32)>; MAX_THREADS + 1],
    n: u64,
    explicit: Option<Vec<(u64, u32)>>,
    rng: Rng,
    p_cb: usize,
    d_alloc: usize,
    d_edge: usize,
    p_static: usize,
    pub statics: u64,
    hot: usize,
    hot_seed: u64,
    /// how often each basic block of the engine was entered, at most 255
    hits: Vec<u8>,
    trace: Vec<(u64, u32)>,
    pub stdout: StdoutFault,
    pub hash_seed: u64,
    pub clock_ns: u64,
    pub clock_step: u64,
    pub stdout_writes: u64,
    pub stdout_bytes: u64,
    pub stdout_faults: u64,
    pub hash_calls: u64,
    pub clock_reads: u64,
    pub futex_waits: u64,
    pub deadlock: bool,
}

static mut WORLD: Option<World> = None;
static TURN: AtomicU32 = AtomicU32::new(0);
static CONTROLLED: AtomicU32 = AtomicU32::new(0);

#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

fn controlled() -> u32 {
    if CONTROLLED.load(Relaxed) == 0 {
        return 0;
    }
    if PAUSE.with(|p| p.get()) > 0 {
        return 0;
    }
    ME.with(|m| m.get())
}

unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

fn futex_wait_raw(a: &AtomicU32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex as usize, a as *const _ as usize, (libc::FUTEX_WAIT | 128) as usize, v as usize, 0, 0, 0);
    }
}
fn futex_wake_raw(a: &AtomicU32) {
    unsafe {
        raw6(libc::SYS_futex as usize, a as *const _ as usize, (libc::FUTEX_WAKE | 128) as usize, i32::MAX as usize, 0, 0, 0);
    }
}

/// Real time, for budgets and reports only.
pub fn real_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        raw6(libc::SYS_clock_gettime as usize, libc::CLOCK_MONOTONIC as usize, ts.as_mut_ptr() as usize, 0, 0, 0, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

pub struct SchedSpec {
    pub seed: u64,
    /// percent of callbacks after which another caller runs
    pub p_cb: usize,
    /// one allocation in this many switches (0: never)
    pub d_alloc: usize,
    /// a basic block entered for the n-th time switches once in n times this many (0: never)
    pub d_edge: usize,
    /// one place in this many is preempted every other time (0: none)
    pub hot: usize,
    /// percent of accesses to static variables where another caller runs
    pub p_static: usize,
    pub explicit: Option<Vec<(u64, u32)>>,
}

pub fn set_world(threads: usize, s: &SchedSpec, stdout: StdoutFault, hash_seed: u64, clock_ns: u64, clock_step: u64) {
    let mut alive = [false; MAX_THREADS + 1];
    for t in 1..=threads {
        alive[t] = true;
    }
    unsafe {
        WORLD = Some(World {
            active: true,
            alive,
            waiting: [None; MAX_THREADS + 1],
            n: 0,
            explicit: s.explicit.clone(),
            rng: Rng::new(s.seed),
            p_cb: s.p_cb,
            d_alloc: s.d_alloc,
            d_edge: s.d_edge,
            hot: s.hot,
            p_static: s.p_static,
            statics: 0,
            hot_seed: crate::rng::mix(s.seed, 77),
            hits: vec![0; EDGES],
            trace: Vec::with_capacity(200_000),
            stdout,
            hash_seed,
            clock_ns,
            clock_step,
            stdout_writes: 0,
            stdout_bytes: 0,
            stdout_faults: 0,
            hash_calls: 0,
            clock_reads: 0,
            futex_waits: 0,
            deadlock: false,
        });
    }
    // the first caller to run is the schedule's choice as well
    let first = world().forced(0).unwrap_or(1);
    TURN.store(first, SeqCst);
    CONTROLLED.store(1, SeqCst);
    EDGE_ON.store((threads > 1) as u32, SeqCst);
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Alloc,
    Callback,
    Edge(usize),
    Static,
}

impl World {
    fn runnable(&self, t: u32) -> bool {
        self.alive[t as usize]
            && match self.waiting[t as usize] {
                None => true,
                Some((addr, v)) => unsafe { (*(addr as *const AtomicU32)).load(SeqCst) != v },
            }
    }

    /// Another caller than `me` has to run.
    fn forced(&mut self, me: u32) -> Option<u32> {
        self.n += 1;
        let mut list = [0u32; MAX_THREADS];
        let mut k = 0;
        for t in 1..=MAX_THREADS as u32 {
            if t != me && self.runnable(t) {
                list[k] = t;
                k += 1;
            }
        }
        if k == 0 {
            return None;
        }
        let next = match &self.explicit {
            Some(e) => match e.binary_search_by_key(&self.n, |s| s.0) {
                Ok(i) if list[..k].contains(&(e[i].1 & 255)) => e[i].1 & 255,
                _ => list[0],
            },
            None => {
                let i = self.rng.below(k);
                list[i]
            }
        };
        ARMED.with(|a| a.set(0));
        self.note(self.n, next);
        Some(next)
    }

    fn note(&mut self, n: u64, t: u32) {
        if self.trace.len() < self.trace.capacity() {
            self.trace.push((n, t));
        }
    }

    /// Another caller than `me` that can run, if the schedule has one.
    fn choose(&mut self, me: u32, planned: u32) -> Option<u32> {
        let mut list = [0u32; MAX_THREADS];
        let mut k = 0;
        for t in 1..=MAX_THREADS as u32 {
            if t != me && self.runnable(t) {
                list[k] = t;
                k += 1;
            }
        }
        match planned {
            _ if k == 0 => None,
            0 => Some(list[self.rng.below(k)]),
            t if list[..k].contains(&t) => Some(t),
            _ => None,
        }
    }

    /// Whether to switch here, after how many instructions, and to whom (0: any).
    fn point(&mut self, kind: Kind) -> Option<(u32, u32)> {
        self.n += 1;
        if let Some(e) = &self.explicit {
            let t = e[e.binary_search_by_key(&self.n, |s| s.0).ok()?].1;
            return Some((t >> 8, t & 255));
        }
        let go = match kind {
            Kind::Callback => self.rng.chance(self.p_cb, 100),
            Kind::Static => self.p_static > 0 && {
                self.statics += 1;
                self.rng.chance(self.p_static, 100)
            },
            Kind::Alloc => self.d_alloc > 0 && self.rng.chance(1, self.d_alloc),
            // every place has its share, however often it runs
            Kind::Edge(at) => {
                let h = &mut self.hits[at];
                if *h == 255 {
                    return None;
                }
                *h += 1;
                let hot = self.hot > 0 && crate::rng::mix(self.hot_seed, at as u64) % self.hot as u64 == 0;
                if hot {
                    self.rng.chance(1, 2)
                } else {
                    let n = self.d_edge * *h as usize;
                    n > 0 && self.rng.chance(1, n)
                }
            }
        };
        if !go {
            return None;
        }
        let step = match kind {
            Kind::Edge(_) if self.rng.chance(1, 2) => self.rng.range(1, 24) as u32,
            Kind::Static if self.rng.chance(3, 4) => self.rng.range(1, 60) as u32,
            _ => 0,
        };
        Some((step, 0))
    }
}

fn wait_turn(me: u32) {
    loop {
        let t = TURN.load(SeqCst);
        if t == me {
            return;
        }
        futex_wait_raw(&TURN, t);
    }
}

fn switch_to(next: u32, me: u32) {
    TURN.store(next, SeqCst);
    futex_wake_raw(&TURN);
    wait_turn(me);
}

fn yield_now(kind: Kind) {
    let me = controlled();
    if me == 0 {
        return;
    }
    ARMED.with(|a| a.set(0));
    let w = world();
    if let Some((_, to)) = w.point(kind) {
        if let Some(next) = w.choose(me, to) {
            w.note(w.n, next);
            switch_to(next, me);
        }
    }
}

/// A basic block of the engine begins. A switch may come some instructions later.
fn block(kind: Kind) {
    let me = controlled();
    if me == 0 {
        return;
    }
    let w = world();
    if ARMED.with(|a| a.get()) > 0 {
        w.n += 1;
        return;
    }
    match w.point(kind) {
        Some((0, to)) => {
            if let Some(next) = w.choose(me, to) {
                w.note(w.n, next);
                switch_to(next, me);
            }
        }
        Some((step, to)) => {
            ARMED_AT.with(|a| a.set((w.n, step << 8 | to)));
            ARMED.with(|a| a.set(step));
            unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        }
        None => {}
    }
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static __data_start: u8;
    static _end: u8;
}

/// The engine reads or writes memory. What callers can share begins in static variables.
unsafe extern "C" fn accessed(addr: usize) {
    if EDGE_ON.load(Relaxed) == 0 || addr < (&raw const __data_start) as usize || addr >= (&raw const _end) as usize {
        return;
    }
    INSIDE.with(|i| i.set(true));
    block(Kind::Static);
    INSIDE.with(|i| i.set(false));
}

macro_rules! access {
    ($($name:ident)*) => {$(
        #[unsafe(naked)]
        #[no_mangle]
        pub unsafe extern "C" fn $name() {
            std::arch::naked_asm!("jmp {}", sym accessed)
        }
    )*};
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// One instruction was executed.
unsafe extern "C" fn stepped(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let regs = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let pc = regs[libc::REG_RIP as usize] as usize;
    let left = ARMED.with(|a| a.get());
    if left > 0 && INSIDE.with(|i| i.get()) {
        return;
    }
    // the C library may hold locks the scheduler does not see
    let ours = pc >= (&raw const __executable_start) as usize && pc < (&raw const etext) as usize;
    let me = controlled();
    if left > 1 && ours && me != 0 {
        ARMED.with(|a| a.set(left - 1));
        return;
    }
    ARMED.with(|a| a.set(0));
    regs[libc::REG_EFL as usize] &= !0x100;
    if left == 1 && ours && me != 0 {
        let w = world();
        let (n, plan) = ARMED_AT.with(|a| a.get());
        if let Some(next) = w.choose(me, plan & 255) {
            w.note(n, (plan & !255) | next);
            switch_to(next, me);
        }
    }
}

/// Be told of single instructions.
pub fn catch_steps() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = stepped as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    }
}

/// The engine called back into the simulated device.
pub fn callback_point() {
    yield_now(Kind::Callback);
}

pub fn enter(me: u32) {
    wait_turn(me);
    ME.with(|m| m.set(me));
}

pub fn leave() {
    let me = ME.with(|m| m.replace(0));
    let w = world();
    w.alive[me as usize] = false;
    let next = w.forced(me);
    let next = match next {
        Some(n) => n,
        None => {
            if (1..=MAX_THREADS).any(|t| w.alive[t]) {
                w.deadlock = true;
                deadlocked();
            }
            0
        }
    };
    TURN.store(next, SeqCst);
    futex_wake_raw(&TURN);
}

pub fn finish_world() -> (u64, Vec<(u64, u32)>) {
    CONTROLLED.store(0, SeqCst);
    EDGE_ON.store(0, SeqCst);
    let w = world();
    (w.n, std::mem::take(&mut w.trace))
}

fn deadlocked() -> ! {
    unsafe { libc::_exit(77) }
}

/// Harness code inside a controlled thread: not scheduled, not metered.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            PAUSE.with(|p| p.set(p.get() - 1));
        }
    }
    PAUSE.with(|p| p.set(p.get() + 1));
    ARMED.with(|a| a.set(0));
    let _g = G;
    f()
}

// ---------------------------------------------------------------- basic blocks

/// Places in the engine's code that are told apart.
pub const EDGES: usize = 1 << 20;

static EDGE_ON: AtomicU32 = AtomicU32::new(0);
static COVERED: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

/// From here on, and in processes forked from here on, note which basic blocks are entered.
pub fn cover() -> &'static [u8] {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            EDGES,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        COVERED.store(p as *mut u8, SeqCst);
        std::slice::from_raw_parts(p as *const u8, EDGES)
    }
}

/// The compiler calls this where a basic block of the engine begins.
#[unsafe(naked)]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    std::arch::naked_asm!("mov rdi, [rsp]", "jmp {}", sym entered)
}

unsafe extern "C" fn entered(pc: usize) {
    let at = pc.wrapping_sub(entered as *const () as usize) & (EDGES - 1);
    let map = COVERED.load(Relaxed);
    if !map.is_null() {
        *map.add(at) = 1;
    }
    if EDGE_ON.load(Relaxed) != 0 {
        INSIDE.with(|i| i.set(true));
        block(Kind::Edge(at));
        INSIDE.with(|i| i.set(false));
    }
}

static FLAGS: [AtomicPtr<u8>; 2] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 2];

/// The other build sets a flag in every basic block it enters; these are all of them.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_bool_flag_init(from: *mut u8, to: *mut u8) {
    FLAGS[0].store(from, SeqCst);
    FLAGS[1].store(to, SeqCst);
}

/// At the end of an execution: note the flags that are set.
pub fn note_flags() {
    let (mut p, to, map) = (FLAGS[0].load(SeqCst), FLAGS[1].load(SeqCst), COVERED.load(SeqCst));
    if map.is_null() {
        return;
    }
    unsafe {
        let mut i = 0;
        while p < to && i < EDGES {
            if *p != 0 {
                *map.add(i) = 1;
            }
            p = p.add(1);
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- allocator

static METER_ON: AtomicU32 = AtomicU32::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static LARGEST: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

pub struct Alloc;

#[global_allocator]
static ALLOC: Alloc = Alloc;

fn metered() -> bool {
    METER_ON.load(Relaxed) != 0 && controlled() != 0
}

fn grow(n: usize) {
    let live = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(live, Relaxed);
    TOTAL.fetch_add(n as u64, Relaxed);
    LARGEST.fetch_max(n as u64, Relaxed);
    COUNT.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if CONTROLLED.load(Relaxed) != 0 {
            yield_now(Kind::Alloc);
            if metered() {
                grow(l.size());
            }
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if CONTROLLED.load(Relaxed) != 0 {
            yield_now(Kind::Alloc);
            if metered() {
                grow(l.size());
            }
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if metered() {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if CONTROLLED.load(Relaxed) != 0 {
            yield_now(Kind::Alloc);
            if metered() {
                // a move needs both for a moment
                grow(n);
                LIVE.fetch_sub(l.size() as i64, Relaxed);
            }
        }
        System.realloc(p, l, n)
    }
}

pub fn meter_start() {
    LIVE.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    TOTAL.store(0, SeqCst);
    LARGEST.store(0, SeqCst);
    COUNT.store(0, SeqCst);
    METER_ON.store(1, SeqCst);
}

pub fn meter_stop() -> crate::types::Meter {
    METER_ON.store(0, SeqCst);
    crate::types::Meter {
        peak: PEAK.load(SeqCst).max(0) as u64,
        total: TOTAL.load(SeqCst),
        largest: LARGEST.load(SeqCst),
        count: COUNT.load(SeqCst),
    }
}

// ---------------------------------------------------------------- interposed symbols

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd == 1 && CONTROLLED.load(Relaxed) != 0 && ME.with(|m| m.get()) != 0 {
        callback_point();
        let w = world();
        w.stdout_writes += 1;
        match w.stdout {
            StdoutFault::None => {}
            StdoutFault::Errno(e, after) => {
                if w.stdout_bytes >= after as u64 {
                    w.stdout_faults += 1;
                    set_errno(e);
                    return -1;
                }
            }
            StdoutFault::Eintr => {
                if w.stdout_writes % 2 == 1 {
                    w.stdout_faults += 1;
                    set_errno(libc::EINTR);
                    return -1;
                }
            }
            StdoutFault::Short => {
                if n > 1 {
                    w.stdout_faults += 1;
                    w.stdout_bytes += 1;
                    return 1;
                }
            }
        }
        w.stdout_bytes += n as u64;
        return n as isize;
    }
    ret(raw6(libc::SYS_write as usize, fd as usize, buf as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if CONTROLLED.load(Relaxed) != 0 && ME.with(|m| m.get()) != 0 {
        let w = world();
        w.hash_calls += 1;
        let mut r = Rng::new(w.hash_seed.wrapping_add(w.hash_calls));
        for i in 0..n {
            *buf.add(i) = r.byte();
        }
        return n as isize;
    }
    ret(raw6(libc::SYS_getrandom as usize, buf as usize, n, flags as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if CONTROLLED.load(Relaxed) != 0 && ME.with(|m| m.get()) != 0 {
        let w = world();
        w.clock_reads += 1;
        w.clock_ns = w.clock_ns.wrapping_add(w.clock_step);
        (*ts).tv_sec = (w.clock_ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (w.clock_ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime as usize, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}

fn sleep_until_virtual(req: *const libc::timespec) {
    let w = world();
    unsafe {
        w.clock_ns = w
            .clock_ns
            .wrapping_add((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
    }
    let me = controlled();
    if me != 0 {
        if let Some(n) = w.forced(me) {
            switch_to(n, me);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if CONTROLLED.load(Relaxed) != 0 && ME.with(|m| m.get()) != 0 {
        sleep_until_virtual(req);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep as usize, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: i32,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if CONTROLLED.load(Relaxed) != 0 && ME.with(|m| m.get()) != 0 {
        sleep_until_virtual(req);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep as usize, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let me = controlled();
    if me != 0 {
        if let Some(n) = world().forced(me) {
            switch_to(n, me);
        }
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if CONTROLLED.load(Relaxed) != 0 && ME.with(|m| m.get()) != 0 {
        if n == libc::SYS_futex {
            let op = b as i32 & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let me = ME.with(|m| m.get());
                let w = world();
                w.futex_waits += 1;
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                w.waiting[me as usize] = Some((a, c as u32));
                let next = w.forced(me);
                match next {
                    Some(t) => {
                        switch_to(t, me);
                        world().waiting[me as usize] = None;
                    }
                    None if d != 0 => {
                        // nobody else can run: the timeout passes
                        w.waiting[me as usize] = None;
                        w.clock_ns = w.clock_ns.wrapping_add(1_000_000_000);
                        set_errno(libc::ETIMEDOUT);
                        return -1;
                    }
                    None => {
                        w.deadlock = true;
                        deadlocked();
                    }
                }
                return 0;
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                return 1;
            }
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut u8, b, c as u32) as i64;
        }
    }
    ret(raw6(n as usize, a, b, c, d, e, f)) as i64
}
