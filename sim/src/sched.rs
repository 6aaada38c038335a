//! The simulated machine: threads, futexes, clocks, randomness and the schedule.
//!
//! Real OS threads run the real code, one at a time. Whoever holds the baton runs; everybody
//! else is parked on a private futex word. The baton changes hands only here: at compiler
//! inserted edge callbacks of crate `reveaal`, and at interposed libc calls (futex waits and
//! wakes, sched_yield, sleeps, thread start, exit and join, simulated file calls).
use crate::raw;
use crate::rng::{mix2, Rng};
use std::cell::Cell;
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicU32, Ordering};

pub const NS_PER_STEP: u64 = 100;
const MONO_BASE: u64 = 1_000_000_000_000;
const REAL_BASE: u64 = 1_700_000_000_000_000_000;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    /// The thread's own frames end here.
    static STACK_TOP: Cell<usize> = const { Cell::new(0) };
    static EXIT_ROUND: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Sleep { deadline: u64 },
    Join { tid: usize },
    Cond { deadline: u64 },
    Finished,
    Dead,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Woke {
    Normal,
    Timeout,
    Irq,
    Idle,
    Budget,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    /// Run this thread from here on.
    Switch(u32),
    /// Take the running thread off the processor for so many simulated nanoseconds.
    Stall(u64),
    /// Interrupt the controller (used for crashes at arbitrary points).
    Irq,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Entry {
    pub step: u64,
    pub act: Act,
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// Switch only when the running thread blocks; next thread round robin.
    Run,
    /// Preempt after exponentially distributed numbers of steps.
    Geo(u64),
    /// Priorities with `n` priority changes within the first `len` steps.
    Pct(u32, u64),
    /// Preempt whenever one of these edges is executed (with probability 1/2).
    /// At (or shortly after) accesses to memory that several threads use.
    Near,
    /// Follow a recorded schedule.
    Replay(Vec<Entry>),
}

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub seed: u64,
    pub hash_seed: u64,
    pub policy: Policy,
    pub max_steps: u64,
    /// Probability (per 1000 preemptions) of stalling the preempted thread.
    pub stall_permille: u32,
    /// Probability (per 1000 futex waits) of a spurious wake-up.
    pub spurious_permille: u32,
    /// Stalls and spurious wake-ups happen only this long after the schedule begins.
    pub fault_ns: u64,
    /// Steps at which the controller is interrupted.
    pub irqs: Vec<u64>,
}

pub struct Th {
    st: St,
    park: Box<AtomicU32>,
    pub group: u32,
    hook: bool,
    woke: Woke,
    prio: u64,
    real: u64,
    idx: u64,
    rand_ctr: u64,
    entry: Option<(extern "C" fn(*mut c_void) -> *mut c_void, usize)>,
    pub name: &'static str,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub switches: u64,
    pub preempts: u64,
    pub stalls: u64,
    pub spurious: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub yields: u64,
    pub irqs: u64,
    pub time_jumps: u64,
    pub killed_threads: u64,
}

pub struct Sched {
    th: Vec<Th>,
    cur: usize,
    offset: u64,
    rng: Rng,
    cfg: SimCfg,
    rec: Vec<Entry>,
    replay_pos: usize,
    changes: Vec<u64>,
    next_prio: u64,
    irq_pos: usize,
    spawn_group: u32,
    spawn_name: &'static str,
    pub stats: Stats,
    pub trace_hash: u64,
    budget_hit: bool,
    sched_on: bool,
    phase_end: u64,
    fault_until: u64,
}

static mut SCHED: *mut Sched = std::ptr::null_mut();
static mut ON: bool = false;
/// True while the running thread executes code under test.
static mut HOOK: bool = false;
static mut STEP: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut COV: *mut u32 = std::ptr::null_mut();
static mut NGUARDS: usize = 0;
static mut EXIT_KEY: u32 = 0;

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

pub fn active() -> bool {
    unsafe { ON && TID.with(|t| t.get()) != usize::MAX }
}

// ---------------------------------------------------------------- coverage callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS as u32;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !HOOK {
        return;
    }
    let id = *guard as usize;
    if !COV.is_null() {
        *COV.add(id) = (*COV.add(id)).wrapping_add(1);
    }
    STEP += 1;
    if STEP >= NEXT {
        slow();
    }
}

// Memory accesses are preemption points too: code without branches can race as well.
const SITES: usize = 1 << 22;
const GRANULES: usize = 1 << 18;
/// 1 for each access site seen (in calibration runs) to touch memory that another thread touched too.
static mut SHARED_SITE: *mut u8 = std::ptr::null_mut();
/// The same, but only the sites this run preempts at; null unless the policy says so.
static mut NEAR: *const u8 = std::ptr::null();
static mut NEAR_KEY: u64 = 0;
static mut NEAR_DENSITY: u64 = 1;
static mut CALIBRATING: bool = false;
/// Calibration: what touched a granule of memory last: (granule, site, thread, was a store)
static mut LAST: *mut (usize, usize, u32, bool) = std::ptr::null_mut();

#[inline(always)]
unsafe fn access(p: usize, ret: usize, store: bool) {
    if !HOOK {
        return;
    }
    // not the thread's own stack
    let sp = &p as *const usize as usize;
    if p > sp && p < STACK_TOP.with(|t| t.get()) {
        return;
    }
    STEP += 1;
    if !NEAR.is_null() && *NEAR.add(site(ret)) != 0 {
        near(site(ret));
    }
    if CALIBRATING {
        calibrate(p, site(ret), store);
    }
    if STEP >= NEXT {
        slow();
    }
}

#[inline(always)]
fn site(ret: usize) -> usize {
    ret.wrapping_sub(site_base as fn() as usize) & (SITES - 1)
}
#[inline(never)]
fn site_base() {}

unsafe fn calibrate(p: usize, site: usize, store: bool) {
    let g = p >> 3;
    let e = &mut *LAST.add((g ^ (g >> 18)) & (GRANULES - 1));
    let me = TID.with(|t| t.get()) as u32;
    if e.0 == g && e.2 != me && (store || e.3) {
        *SHARED_SITE.add(site) = 1;
        *SHARED_SITE.add(e.1) = 1;
    }
    if e.0 == g && e.2 == me && e.3 && !store {
        e.1 = site;
        return;
    }
    *e = (g, site, me, store);
}

/// At an access to shared memory: now, or a few steps later, is a good time to switch.
unsafe fn near(site: usize) {
    HOOK = false;
    let sc = s();
    if sc.sched_on && mix2(NEAR_KEY, site as u64) % NEAR_DENSITY == 0 {
        match sc.rng.below(6) {
            0 | 1 => NEXT = STEP,
            2 => NEXT = NEXT.min(STEP + 1 + sc.rng.next() % 25),
            _ => {}
        }
    }
    HOOK = sc.th[me()].hook;
}

std::arch::global_asm!(
    ".irp n,1,2,4,8,16",
    ".globl __sanitizer_cov_load\\n",
    "__sanitizer_cov_load\\n:",
    "mov rsi, [rsp]",
    "jmp {load}",
    ".globl __sanitizer_cov_store\\n",
    "__sanitizer_cov_store\\n:",
    "mov rsi, [rsp]",
    "jmp {store}",
    ".endr",
    load = sym on_load,
    store = sym on_store,
);
unsafe extern "C" fn on_load(p: usize, ret: usize) {
    access(p, ret, false)
}
unsafe extern "C" fn on_store(p: usize, ret: usize) {
    access(p, ret, true)
}

fn map_shared(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

/// From here on (in forked runs) accesses are watched for sharing between threads.
pub fn calibration(on: bool) {
    unsafe {
        if SHARED_SITE.is_null() {
            SHARED_SITE = map_shared(SITES);
            LAST = libc::calloc(GRANULES, std::mem::size_of::<(usize, usize, u32, bool)>()) as *mut _;
        }
        CALIBRATING = on;
    }
}

/// The sites found by calibration.
pub fn shared_sites() -> Vec<u32> {
    unsafe {
        if SHARED_SITE.is_null() {
            return vec![];
        }
        (0..SITES).filter(|&i| *SHARED_SITE.add(i) != 0).map(|i| i as u32).collect()
    }
}

pub fn guards() -> usize {
    unsafe { NGUARDS }
}

/// Shared between the parent and all runs it forks.
pub fn map_coverage() {
    unsafe {
        let len = (NGUARDS + 1) * 4;
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        COV = p as *mut u32;
    }
}

pub fn coverage() -> Vec<u32> {
    unsafe {
        if COV.is_null() {
            return vec![];
        }
        (0..=NGUARDS).map(|i| *COV.add(i)).collect()
    }
}

// ---------------------------------------------------------------- life cycle

extern "C" fn exit_dtor(_: *mut c_void) {
    unsafe {
        let round = EXIT_ROUND.with(|r| {
            r.set(r.get() + 1);
            r.get()
        });
        if round < 3 {
            libc::pthread_setspecific(EXIT_KEY, 1 as *const c_void);
            return;
        }
        if !active() {
            return;
        }
        HOOK = false;
        let me = TID.with(|t| t.get());
        s().th[me].st = St::Finished;
        for t in s().th.iter_mut() {
            if t.st == (St::Join { tid: me }) {
                t.st = St::Ready;
                t.woke = Woke::Normal;
            }
        }
        let next = choose(true);
        note_switch(next);
        release(next);
        // The thread is over, but must not free its stack and memory at a moment of its own choosing.
        let never = AtomicU32::new(0);
        loop {
            raw::futex_wait(&never as *const AtomicU32 as *const u32, 0);
        }
    }
}

/// Turns the calling thread into simulated thread 0, the controller.
pub fn start(cfg: SimCfg) {
    unsafe {
        libc::pthread_key_create(&raw mut EXIT_KEY as *mut u32, Some(std::mem::transmute::<extern "C" fn(*mut c_void), unsafe extern "C" fn(*mut c_void)>(exit_dtor)));
        let rng = Rng::new(mix2(cfg.seed, 0x5CED));
        let b = Box::new(Sched {
            th: Vec::with_capacity(64),
            cur: 0,
            offset: 0,
            rng,
            cfg,
            rec: vec![],
            replay_pos: 0,
            changes: vec![],
            next_prio: 1 << 40,
            irq_pos: 0,
            spawn_group: 0,
            spawn_name: "thread",
            stats: Stats::default(),
            trace_hash: 0,
            budget_hit: false,
            sched_on: false,
            phase_end: u64::MAX,
            fault_until: u64::MAX,
        });
        SCHED = Box::into_raw(b);
        let th = new_thread();
        s().th.push(th);
        s().th[0].hook = false;
        s().th[0].name = "controller";
        TID.with(|t| t.set(0));
        HOOK = false;
        ON = true;
        }
}

fn new_thread() -> Th {
    let sc = s();
    let idx = sc.th.len() as u64;
    let prio = (1 << 41) + (sc.rng.next() >> 32);
    Th {
        st: St::Ready,
        park: Box::new(AtomicU32::new(0)),
        group: sc.spawn_group,
        hook: true,
        woke: Woke::Normal,
        prio,
        real: 0,
        idx,
        rand_ctr: 0,
        entry: None,
        name: sc.spawn_name,
    }
}

/// Starts adversarial scheduling (before this, threads switch only when they block).
pub fn begin_schedule() {
    let sc = s();
    sc.sched_on = true;
    sc.fault_until = now().saturating_add(sc.cfg.fault_ns);
    unsafe {
        match sc.cfg.policy.clone() {
            Policy::Pct(n, len) => {
                let mut v: Vec<u64> = (0..n).map(|_| STEP + 1 + sc.rng.next() % len.max(1)).collect();
                v.sort();
                sc.changes = v;
            }
            Policy::Near => {
                NEAR = SHARED_SITE;
                NEAR_KEY = sc.rng.next();
                NEAR_DENSITY = *sc.rng.pick(&[1, 4, 16, 64]);
            }
            _ => {}
        }
        let base = STEP;
        for i in sc.cfg.irqs.iter_mut() {
            *i += base;
        }
    }
    rearm();
}

/// Ends adversarial scheduling and all schedule-borne faults.
pub fn end_schedule() {
    s().sched_on = false;
    unsafe { NEAR = std::ptr::null() };
    rearm();
}

/// Sets the step budget relative to now; `wait` reports Woke::Budget when it runs out.
pub fn budget(steps: u64) {
    unsafe {
        s().phase_end = STEP.saturating_add(steps);
        s().budget_hit = false;
    }
    rearm();
}

pub fn steps() -> u64 {
    unsafe { STEP }
}

pub fn now() -> u64 {
    unsafe { MONO_BASE + STEP * NS_PER_STEP + s().offset }
}

pub fn stats() -> Stats {
    s().stats.clone()
}

pub fn recorded() -> Vec<Entry> {
    s().rec.clone()
}

pub fn trace_hash() -> u64 {
    s().trace_hash
}

pub fn note(v: u64) {
    s().trace_hash = mix2(s().trace_hash, v);
}

pub fn me() -> usize {
    TID.with(|t| t.get())
}


// ---------------------------------------------------------------- the schedule

fn rearm() {
    let sc = s();
    unsafe {
        let mut n = sc.phase_end;
        if sc.sched_on {
            match &sc.cfg.policy {
                Policy::Geo(mean) => {
                    let mean = *mean;
                    n = n.min(STEP + sc.rng.geo(mean));
                }
                Policy::Pct(..) => {
                    if let Some(c) = sc.changes.iter().find(|c| **c > STEP) {
                        n = n.min(*c);
                    }
                }
                Policy::Replay(v) => {
                    while sc.replay_pos < v.len() && v[sc.replay_pos].step <= STEP {
                        sc.replay_pos += 1;
                    }
                    if sc.replay_pos < v.len() {
                        n = n.min(v[sc.replay_pos].step);
                    }
                }
                _ => {}
            }
            if !matches!(sc.cfg.policy, Policy::Replay(_)) && sc.irq_pos < sc.cfg.irqs.len() {
                n = n.min(sc.cfg.irqs[sc.irq_pos].max(STEP + 1));
            }
        }
        NEXT = n.max(STEP + 1);
    }
}

fn runnable(sc: &Sched) -> Vec<usize> {
    (0..sc.th.len()).filter(|&i| sc.th[i].st == St::Ready).collect()
}

/// When nobody can run: jump the clock to the earliest deadline. False if there is none.
fn jump_time(sc: &mut Sched) -> bool {
    let mut best: Option<(u64, usize)> = None;
    for (i, t) in sc.th.iter().enumerate() {
        let d = match t.st {
            St::Futex { deadline, .. } | St::Sleep { deadline } | St::Cond { deadline } => deadline,
            _ => u64::MAX,
        };
        if d != u64::MAX && best.map_or(true, |(b, _)| d < b) {
            best = Some((d, i));
        }
    }
    if let Some((d, i)) = best {
        if d > now() {
            sc.offset += d - now();
            sc.stats.time_jumps += 1;
        }
        let t = &mut sc.th[i];
        t.woke = Woke::Timeout;
        t.st = St::Ready;
        true
    } else {
        false
    }
}

/// Wakes every thread whose deadline has passed in simulated time.
fn expire(sc: &mut Sched) {
    let n = now();
    for t in sc.th.iter_mut() {
        let d = match t.st {
            St::Futex { deadline, .. } | St::Sleep { deadline } | St::Cond { deadline } => deadline,
            _ => u64::MAX,
        };
        if d <= n {
            t.woke = Woke::Timeout;
            t.st = St::Ready;
        }
    }
}

fn round_robin(r: &[usize], cur: usize) -> usize {
    *r.iter().find(|&&i| i > cur).unwrap_or(&r[0])
}

/// Picks the thread to run next. `forced`: the current one cannot go on.
fn choose(forced: bool) -> usize {
    let sc = s();
    unsafe { STEP += 1 };
    expire(sc);
    let mut r = runnable(sc);
    if r.is_empty() {
        if jump_time(sc) {
            r = runnable(sc);
        } else {
            // The controller is told that nothing else will ever happen.
            if matches!(sc.th[0].st, St::Cond { .. } | St::Join { .. }) {
                sc.th[0].st = St::Ready;
                sc.th[0].woke = Woke::Idle;
                return 0;
            }
            crate::runner::die("deadlock", "no simulated thread can run and none waits for a time");
        }
    }
    let cur = sc.cur;
    let step = unsafe { STEP };
    let default = if !forced && sc.th[cur].st == St::Ready { cur } else { round_robin(&r, cur) };
    if !sc.sched_on {
        return default;
    }
    let pick = match &sc.cfg.policy {
        Policy::Run => default,
        Policy::Geo(_) | Policy::Near => {
            let k = sc.rng.below(r.len());
            r[k]
        }
        Policy::Pct(..) => *r.iter().max_by_key(|&&i| sc.th[i].prio).unwrap(),
        Policy::Replay(v) => {
            let mut p = default;
            // entries between the last position and now that were not reached are skipped
            let mut k = sc.replay_pos;
            while k < v.len() && v[k].step < step {
                k += 1;
            }
            if k < v.len() && v[k].step == step {
                if let Act::Switch(t) = v[k].act {
                    if r.contains(&(t as usize)) {
                        p = t as usize;
                    }
                }
                k += 1;
            }
            sc.replay_pos = k;
            return {
                if p != default {
                    sc.rec.push(Entry { step, act: Act::Switch(p as u32) });
                }
                rearm();
                p
            };
        }
    };
    if pick != default {
        sc.rec.push(Entry { step, act: Act::Switch(pick as u32) });
    }
    pick
}

fn note_switch(next: usize) {
    let sc = s();
    sc.stats.switches += 1;
    sc.trace_hash = mix2(sc.trace_hash, unsafe { STEP } ^ ((next as u64) << 48));
}

fn release(next: usize) {
    let sc = s();
    sc.cur = next;
    unsafe {
        HOOK = sc.th[next].hook && sc.th[next].woke != Woke::Budget;
        let p: *const AtomicU32 = &*sc.th[next].park;
        (*p).store(1, Ordering::Release);
        raw::futex_wake(p as *const u32);
    }
}

fn switch_to(next: usize) {
    let sc = s();
    let me = me();
    if next == me {
        return;
    }
    note_switch(next);
    let mine: *const AtomicU32 = &*sc.th[me].park;
    release(next);
    unsafe {
        while (*mine).swap(0, Ordering::Acquire) == 0 {
            raw::futex_wait(mine as *const u32, 0);
        }
        HOOK = false;
    }
}

/// Called with HOOK set, on the running thread, when an edge asks for a decision.
#[cold]
#[inline(never)]
unsafe fn slow() {
    HOOK = false;
    decide();
    HOOK = s().th[me()].hook;
}

fn decide() {
    let sc = s();
    let me = me();
    let step = unsafe { STEP };
    if step >= sc.phase_end {
        // Out of budget: freeze everyone else and let the controller report.
        sc.budget_hit = true;
        if me != 0 {
            for t in sc.th.iter_mut().skip(1) {
                if !matches!(t.st, St::Finished) {
                    t.st = St::Dead;
                }
            }
            sc.th[0].st = St::Ready;
            sc.th[0].woke = Woke::Budget;
            switch_to(0);
            unreachable!("a frozen thread ran");
        }
        rearm();
        return;
    }
    if !sc.sched_on {
        rearm();
        return;
    }
    let replaying = matches!(sc.cfg.policy, Policy::Replay(_));
    if !replaying && sc.irq_pos < sc.cfg.irqs.len() && step >= sc.cfg.irqs[sc.irq_pos] {
        sc.irq_pos += 1;
        sc.rec.push(Entry { step, act: Act::Irq });
        do_irq();
        rearm();
        return;
    }
    match sc.cfg.policy.clone() {
        Policy::Geo(_) => preempt(),
        Policy::Near => preempt(),
        Policy::Pct(..) => {
            sc.next_prio -= 1;
            sc.th[me].prio = sc.next_prio;
            preempt();
        }
        Policy::Replay(_) => replay_here(),
        Policy::Run => {}
    }
    rearm();
}

/// Performs the recorded action for exactly this step, if there is one.
fn replay_here() {
    let sc = s();
    let me = me();
    let step = unsafe { STEP };
    let act = match &sc.cfg.policy {
        Policy::Replay(v) => {
            while sc.replay_pos < v.len() && v[sc.replay_pos].step < step {
                sc.replay_pos += 1;
            }
            if sc.replay_pos < v.len() && v[sc.replay_pos].step == step {
                v[sc.replay_pos].act
            } else {
                return;
            }
        }
        _ => return,
    };
    sc.replay_pos += 1;
    match act {
        Act::Irq => {
            sc.rec.push(Entry { step, act });
            do_irq();
        }
        Act::Stall(d) => stall(d),
        Act::Switch(t) => {
            let t = t as usize;
            expire(sc);
            if t < sc.th.len() && sc.th[t].st == St::Ready && t != me {
                sc.rec.push(Entry { step, act });
                sc.stats.preempts += 1;
                switch_to(t);
            }
        }
    }
    rearm();
}

fn do_irq() {
    let sc = s();
    sc.stats.irqs += 1;
    if me() != 0 && matches!(sc.th[0].st, St::Cond { .. } | St::Ready) {
        sc.th[0].st = St::Ready;
        sc.th[0].woke = Woke::Irq;
        switch_to(0);
    }
}

fn stall(d: u64) {
    let sc = s();
    let me = me();
    if me == 0 {
        return;
    }
    sc.rec.push(Entry { step: unsafe { STEP }, act: Act::Stall(d) });
    sc.stats.stalls += 1;
    block(St::Sleep { deadline: now() + d });
}

fn preempt() {
    let sc = s();
    let me = me();
    if sc.cfg.stall_permille > 0 && sc.stats.stalls < 60 && now() < sc.fault_until && sc.rng.below(1000) < sc.cfg.stall_permille as usize && me != 0 {
        let d = 1_000_000 * (1 + sc.rng.next() % 4000);
        stall(d);
        return;
    }
    expire(sc);
    let r = runnable(sc);
    let step = unsafe { STEP };
    let pick = match &sc.cfg.policy {
        Policy::Pct(..) => *r.iter().max_by_key(|&&i| sc.th[i].prio).unwrap(),
        _ => r[sc.rng.below(r.len())],
    };
    if pick != me {
        sc.rec.push(Entry { step, act: Act::Switch(pick as u32) });
        sc.stats.preempts += 1;
        switch_to(pick);
    }
}

/// Blocks the current thread in state `st` until something wakes it.
fn block(st: St) -> Woke {
    let sc = s();
    let me = me();
    sc.th[me].st = st;
    sc.th[me].woke = Woke::Normal;
    let next = choose(true);
    if next != me {
        switch_to(next);
    }
    s().th[me].woke
}

/// A voluntary scheduling point (yield, or just before/after an interposed call).
pub fn point() {
    let sc = s();
    if sc.th[me()].st != St::Ready {
        return;
    }
    // A yield lets the others go first.
    let me = me();
    if let Policy::Pct(..) = sc.cfg.policy {
        sc.next_prio -= 1;
        sc.th[me].prio = sc.next_prio;
    }
    expire(sc);
    let r = runnable(sc);
    if r.len() < 2 {
        unsafe { STEP += 1 };
        if unsafe { STEP } >= sc.phase_end {
            decide();
        }
        // Nobody else is ready: let time pass so that sleepers come due.
        return;
    }
    let next = choose(true);
    if next != me {
        switch_to(next);
    }
}

// ---------------------------------------------------------------- harness interface

struct HookGuard(bool);
impl Drop for HookGuard {
    fn drop(&mut self) {
        set_hook(self.0);
    }
}

fn set_hook(v: bool) {
    if active() {
        let me = me();
        s().th[me].hook = v;
        unsafe { HOOK = v };
    }
}

/// Runs code under test: preemptible and instrumented.
pub fn real<R>(f: impl FnOnce() -> R) -> R {
    let prev = if active() { s().th[me()].hook } else { false };
    let _g = HookGuard(prev);
    set_hook(true);
    f()
}

/// Runs harness code: never preempted, not counted.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let prev = if active() { s().th[me()].hook } else { false };
    let _g = HookGuard(prev);
    set_hook(false);
    f()
}

/// Threads created from here on belong to this group.
pub fn spawn_group(g: u32, name: &'static str) {
    s().spawn_group = g;
    s().spawn_name = name;
}

/// Spawns a harness thread in `group`; returns its simulated id.
pub fn spawn<F: FnOnce() + Send + 'static>(name: &'static str, group: u32, stack: usize, f: F) -> usize {
    let (g0, n0) = (s().spawn_group, s().spawn_name);
    spawn_group(group, name);
    let tid = s().th.len();
    std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            set_hook(false);
            f()
        })
        .expect("spawn");
    spawn_group(g0, n0);
    tid
}

/// Kills every thread of a group where it stands.
pub fn kill_group(g: u32) {
    for t in s().th.iter_mut() {
        if t.group == g && !matches!(t.st, St::Finished | St::Dead) {
            t.st = St::Dead;
            s().stats.killed_threads += 1;
        }
    }
}

/// The controller (or a harness thread) waits until notified or until `deadline`.
pub fn wait(deadline: u64) -> Woke {
    block(St::Cond { deadline })
}

pub fn notify(tid: usize) {
    let t = &mut s().th[tid];
    if matches!(t.st, St::Cond { .. }) {
        t.st = St::Ready;
        t.woke = Woke::Normal;
    }
}

/// The running thread's process dies here: tell the controller, never return.
pub fn die_here() -> ! {
    let me = me();
    if me == 0 {
        crate::runner::die("harness", "the controller was killed by a disk fault");
    }
    let sc = s();
    sc.stats.irqs += 1;
    if matches!(sc.th[0].st, St::Cond { .. } | St::Ready) {
        sc.th[0].st = St::Ready;
        sc.th[0].woke = Woke::Irq;
    } else if let St::Join { .. } = sc.th[0].st {
        sc.th[0].st = St::Ready;
        sc.th[0].woke = Woke::Irq;
    }
    sc.th[me].st = St::Dead;
    switch_to(0);
    unreachable!("a dead thread ran")
}

pub fn sleep_ns(ns: u64) {
    block(St::Sleep { deadline: now().saturating_add(ns) });
}

/// Every simulated I/O call is a step and a possible switch.
pub fn io_point() {
    unsafe { STEP += 1 };
    let sc = s();
    if !sc.sched_on {
        return;
    }
    match sc.cfg.policy {
        Policy::Geo(_) | Policy::Near => {
            if sc.rng.chance(1, 8) {
                preempt();
            }
        }
        Policy::Replay(_) => replay_here(),
        _ => {}
    }
}

pub fn finished(tid: usize) -> bool {
    matches!(s().th[tid].st, St::Finished | St::Dead)
}

pub fn join(tid: usize) -> Woke {
    // controller-side join that respects budgets: poll on Cond is not possible, use Join state
    if finished(tid) {
        return Woke::Normal;
    }
    block(St::Join { tid })
}

pub fn describe_threads() -> String {
    s().th
        .iter()
        .enumerate()
        .map(|(i, t)| format!("{}:{}:{:?}", i, t.name, t.st))
        .collect::<Vec<_>>()
        .join(", ")
}

// ---------------------------------------------------------------- interposed libc

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;

unsafe fn real_sym(name: &[u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
    assert!(!p.is_null());
    p
}

extern "C" fn trampoline(arg: *mut c_void) -> *mut c_void {
    let id = arg as usize;
    TID.with(|t| t.set(id));
    STACK_TOP.with(|t| t.set(&id as *const usize as usize));
    let (f, a) = {
        // `th` may be growing under another thread only while that thread holds the baton, so
        // wait for the baton before looking at anything but our own park word.
        let p = unsafe { PARKS[id] };
        unsafe {
            while (*p).swap(0, Ordering::Acquire) == 0 {
                raw::futex_wait(p as *const u32, 0);
            }
            libc::pthread_setspecific(EXIT_KEY, 1 as *const c_void);
        }
        s().th[id].entry.unwrap()
    };
    unsafe { HOOK = s().th[id].hook };
    f(a as *mut c_void)
}

const MAX_THREADS: usize = 4096;
static mut PARKS: [*const AtomicU32; MAX_THREADS] = [std::ptr::null(); MAX_THREADS];

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    let real: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int =
        std::mem::transmute(real_sym(b"pthread_create\0"));
    if !active() {
        return real(out, attr, f, arg);
    }
    let h = HOOK;
    HOOK = false;
    let id = s().th.len();
    assert!(id < MAX_THREADS);
    let mut th = new_thread();
    th.entry = Some((f, arg as usize));
    // group and name are inherited from a non-zero-group creator
    let me = me();
    if s().th[me].group != 0 && s().spawn_group == 0 {
        th.group = s().th[me].group;
    }
    PARKS[id] = &*th.park;
    s().th.push(th);
    let r = real(out, attr, trampoline, id as *mut c_void);
    if r != 0 {
        s().th[id].st = St::Dead;
    } else {
        s().th[id].real = *out as u64;
    }
    HOOK = h;
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(real_sym(b"pthread_join\0"));
    if active() {
        let h = HOOK;
        HOOK = false;
        // most recent thread with that handle
        if let Some(tid) = (0..s().th.len()).rev().find(|&i| s().th[i].real == t as u64) {
            while !matches!(s().th[tid].st, St::Finished) {
                if matches!(s().th[tid].st, St::Dead) {
                    block(St::Sleep { deadline: u64::MAX });
                }
                block(St::Join { tid });
            }
            HOOK = h;
            return 0;
        }
        HOOK = h;
    }
    real(t, ret)
}

unsafe fn timespec_ns(p: *const libc::timespec) -> u64 {
    (*p).tv_sec as u64 * 1_000_000_000 + (*p).tv_nsec as u64
}

unsafe fn futex(addr: *mut u32, op: i64, val: u32, timeout: *const libc::timespec, bits: u32) -> c_long {
    let cmd = (op as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let h = HOOK;
    HOOK = false;
    let r = match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            s().stats.futex_waits += 1;
            if std::ptr::read_volatile(addr) != val {
                raw::set_errno(libc::EAGAIN);
                -1
            } else {
                let deadline = if timeout.is_null() {
                    u64::MAX
                } else if cmd == libc::FUTEX_WAIT {
                    now().saturating_add(timespec_ns(timeout))
                } else if op as i32 & libc::FUTEX_CLOCK_REALTIME != 0 {
                    timespec_ns(timeout).saturating_sub(REAL_BASE).saturating_add(MONO_BASE)
                } else {
                    timespec_ns(timeout)
                };
                let bits = if cmd == libc::FUTEX_WAIT { u32::MAX } else { bits };
                let sc = s();
                let spurious = sc.sched_on
                    && sc.cfg.spurious_permille > 0
                    && now() < sc.fault_until
                    && mix2(mix2(sc.cfg.seed, STEP), 77) % 1000 < sc.cfg.spurious_permille as u64;
                if spurious {
                    sc.stats.spurious += 1;
                    // returns as if interrupted; the caller has to re-check its condition
                    point();
                    raw::set_errno(libc::EINTR);
                    -1
                } else {
                    match block(St::Futex { addr: addr as usize, bits, deadline }) {
                        Woke::Timeout => {
                            raw::set_errno(libc::ETIMEDOUT);
                            -1
                        }
                        _ => 0,
                    }
                }
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let bits = if cmd == libc::FUTEX_WAKE { u32::MAX } else { bits };
            let sc = s();
            sc.stats.futex_wakes += 1;
            let mut n = 0;
            for t in sc.th.iter_mut() {
                if n >= val {
                    break;
                }
                if let St::Futex { addr: a, bits: b, .. } = t.st {
                    if a == addr as usize && b & bits != 0 {
                        t.st = St::Ready;
                        t.woke = Woke::Normal;
                        n += 1;
                    }
                }
            }
            if sc.sched_on {
                // a wake is a natural preemption point
                if let Policy::Pct(..) = sc.cfg.policy {
                    STEP += 1;
                    expire(sc);
                    let r = runnable(sc);
                    let pick = *r.iter().max_by_key(|&&i| sc.th[i].prio).unwrap();
                    if pick != me() {
                        sc.rec.push(Entry { step: STEP, act: Act::Switch(pick as u32) });
                        switch_to(pick);
                    }
                } else if let Policy::Geo(_) | Policy::Near = sc.cfg.policy {
                    STEP += 1;
                    if sc.rng.chance(1, 2) {
                        preempt();
                    }
                } else if let Policy::Replay(_) = sc.cfg.policy {
                    STEP += 1;
                    replay_here();
                }
            }
            n as c_long
        }
        _ => {
            HOOK = h;
            return raw::libc6(libc::SYS_futex, addr as i64, op, val as i64, timeout as i64, 0, bits as i64) as c_long;
        }
    };
    if active() && r >= -1 {
        HOOK = h;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if active() {
        if n == libc::SYS_futex {
            return futex(a as *mut u32, b, c as u32, d as *const libc::timespec, f as u32);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
        }
        if let Some(r) = crate::disk::syscall_hook(n, a, b, c, d, e, f) {
            return r;
        }
    }
    raw::libc6(n, a, b, c, d, e, f)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if !active() {
        return raw::libc6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize;
    }
    let sc = s();
    let t = &mut sc.th[me()];
    let p = buf as *mut u8;
    let mut i = 0;
    while i < len {
        t.rand_ctr += 1;
        let v = mix2(mix2(sc.cfg.hash_seed, t.idx), t.rand_ctr).to_le_bytes();
        for b in v {
            if i < len {
                *p.add(i) = b;
                i += 1;
            }
        }
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        let h = HOOK;
        HOOK = false;
        s().stats.yields += 1;
        point();
        HOOK = h;
    } else {
        raw::sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}

unsafe fn sim_sleep(ns: u64, abs: bool) {
    let h = HOOK;
    HOOK = false;
    let deadline = if abs { ns } else { now().saturating_add(ns) };
    block(St::Sleep { deadline });
    HOOK = h;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        sim_sleep(timespec_ns(req), false);
        return 0;
    }
    raw::libc6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        sim_sleep(timespec_ns(req), flags & 1 != 0);
        return 0;
    }
    let r = raw::sys6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0);
    (-r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if active() {
        let n = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => now() - MONO_BASE + REAL_BASE,
            _ => now(),
        };
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    raw::libc6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0) as c_int
}

/// True if a live thread waits for a lock that lives in this program's static data: after a simulated crash
/// such a lock may be held by a thread that no longer exists, which no real restart could bring about.
pub fn stuck_on_static() -> bool {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    let (lo, hi) = unsafe { (&raw const __data_start as usize, &raw const _end as usize) };
    s().th.iter().any(|t| matches!(t.st, St::Futex { addr, .. } if lo <= addr && addr < hi))
}
