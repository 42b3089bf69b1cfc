//! The scheduler: real OS threads of the simulated process, exactly one of which runs at any
//! time.  Who runs, for how many steps, who is stalled, abandoned or woken spuriously and what the
//! clock says is decided here, from one seed or from an explicit trace.

use crate::raw;
use crate::rng::{mix, Rng};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 192;
pub const MAXEV: usize = 150_000;
pub const NSTAT: usize = 96;
pub const NCOV: usize = 1 << 17;
pub const NOTE: usize = 16 << 10;
/// one scheduler step stands for this much simulated time
pub const NS_PER_STEP: u64 = 10;
/// a thread that ran this many steps without a switch yields to another runnable thread
const FAIR: u64 = 150_000;

#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EvKind {
    /// voluntary preemption: arg = thread that runs next
    Preempt = 1,
    /// the thread blocked, finished or yielded: arg = thread that runs next
    Next = 2,
    /// futex wake chose waiter arg
    Wake = 3,
    /// stalled for arg ticks
    Stall = 4,
    /// never scheduled again
    Abandon = 5,
    /// this wait ends spuriously arg>>1 ticks later; arg&1: with EINTR
    Spurious = 6,
    /// the clock jumped by arg (as i64) ns at this read
    Clock = 7,
}

impl EvKind {
    pub fn letter(self) -> char {
        match self {
            EvKind::Preempt => 'P',
            EvKind::Next => 'N',
            EvKind::Wake => 'W',
            EvKind::Stall => 'S',
            EvKind::Abandon => 'A',
            EvKind::Spurious => 'U',
            EvKind::Clock => 'C',
        }
    }
    pub fn from_letter(c: char) -> Option<EvKind> {
        Some(match c {
            'P' => EvKind::Preempt,
            'N' => EvKind::Next,
            'W' => EvKind::Wake,
            'S' => EvKind::Stall,
            'A' => EvKind::Abandon,
            'U' => EvKind::Spurious,
            'C' => EvKind::Clock,
            _ => return None,
        })
    }
}

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ev {
    pub kind: EvKind,
    pub tid: u8,
    pub step: u64,
    pub arg: u64,
}

/// What the scheduler is told about one run.
#[derive(Clone, Debug, PartialEq)]
pub enum Strategy {
    /// no voluntary preemption
    Seq,
    /// random thread, random slice: log-uniform up to 2^bits steps
    Random { bits: u32 },
    /// lock step: next thread every q steps
    Rr { q: u64 },
    /// priorities with d change points over an estimated run length
    Pct { d: u32, est: u64 },
    /// exactly these events
    Explicit(Vec<Ev>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct SchedSpec {
    pub seed: u64,
    pub strategy: Strategy,
    /// chance (of 1024) to preempt at an access that conflicts with another thread's access
    pub p_conflict: u32,
    /// chance (of 65536) to preempt at a store to memory outside the own stack
    pub p_store: u32,
    /// chance (of 256) that a blocking wait is woken spuriously
    pub p_spurious: u32,
    /// chance (of 256) that a clock read jumps
    pub p_clock: u32,
}

impl SchedSpec {
    pub fn seq() -> Self {
        SchedSpec { seed: 0, strategy: Strategy::Seq, p_conflict: 0, p_store: 0, p_spurious: 0, p_clock: 0 }
    }
    /// a random schedule family member
    pub fn draw(rng: &mut Rng, est: u64, spurious: bool) -> Self {
        let strategy = match rng.below(10) {
            0..=4 => Strategy::Random { bits: rng.range(2, 17) as u32 },
            5 => Strategy::Rr { q: rng.log(9) },
            6 | 7 => Strategy::Pct { d: rng.range(1, 6) as u32, est: est.max(64) },
            8 => Strategy::Seq,
            _ => Strategy::Random { bits: 20 },
        };
        SchedSpec {
            seed: rng.next(),
            strategy,
            p_conflict: *rng.pick(&[0, 32, 256, 512]),
            p_store: *rng.pick(&[0, 0, 16, 256, 4096]),
            p_spurious: if spurious { *rng.pick(&[0, 64, 200]) } else { 0 },
            p_clock: 0,
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let st = match &self.strategy {
            Strategy::Seq => "seq 0 0".to_string(),
            Strategy::Random { bits } => format!("random {bits} 0"),
            Strategy::Rr { q } => format!("rr {q} 0"),
            Strategy::Pct { d, est } => format!("pct {d} {est}"),
            Strategy::Explicit(_) => "explicit 0 0".to_string(),
        };
        s.push_str(&format!(
            "schedule {st} seed {} conflict {} store {} spurious {} clock {}\n",
            self.seed, self.p_conflict, self.p_store, self.p_spurious, self.p_clock
        ));
        if let Strategy::Explicit(ev) = &self.strategy {
            for e in ev {
                s.push_str(&format!("ev {} {} {} {}\n", e.kind.letter(), e.tid, e.step, e.arg));
            }
        }
        s
    }
    pub fn from_text(text: &str) -> Option<Self> {
        let mut out: Option<SchedSpec> = None;
        let mut evs = vec![];
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first() {
                Some(&"schedule") => {
                    let a: u64 = w[2].parse().ok()?;
                    let b: u64 = w[3].parse().ok()?;
                    let strategy = match w[1] {
                        "seq" => Strategy::Seq,
                        "random" => Strategy::Random { bits: a as u32 },
                        "rr" => Strategy::Rr { q: a },
                        "pct" => Strategy::Pct { d: a as u32, est: b },
                        _ => Strategy::Explicit(vec![]),
                    };
                    out = Some(SchedSpec {
                        seed: w[5].parse().ok()?,
                        strategy,
                        p_conflict: w[7].parse().ok()?,
                        p_store: w[9].parse().ok()?,
                        p_spurious: w[11].parse().ok()?,
                        p_clock: w[13].parse().ok()?,
                    });
                }
                Some(&"ev") => evs.push(Ev {
                    kind: EvKind::from_letter(w[1].chars().next()?)?,
                    tid: w[2].parse().ok()?,
                    step: w[3].parse().ok()?,
                    arg: w[4].parse().ok()?,
                }),
                _ => {}
            }
        }
        let mut o = out?;
        if let Strategy::Explicit(v) = &mut o.strategy {
            *v = evs;
        }
        Some(o)
    }
}

/// A stall or a permanent stop placed inside an operation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    Stall(u64),
    Abandon,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    /// after this many steps of the operation
    Step(u64),
    /// at the n-th store outside the own stack, conflicting access or futex operation
    Hot(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct OpFault {
    pub kind: FaultKind,
    pub at: At,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Unused,
    Runnable,
    Futex,
    Sleep,
    Join(usize),
    WaitAll,
    Stalled,
    Abandoned,
    Finished,
}

#[repr(C)]
pub struct Thr {
    pub steps: u64,
    next_stop: u64,
    watch: bool,
    stack_lo: usize,
    stack_hi: usize,
    pub tid: usize,
    st: St,
    gate: AtomicU32,
    acc: u64,        // steps already accounted to the global tick
    slice_end: u64,  // preempt when reached
    fair_end: u64,   // forced yield when reached
    budget_end: u64, // violation when reached
    fault: Option<OpFault>,
    fault_at: u64,
    hot: u64,
    faddr: usize,
    fbits: u32,
    deadline: u64, // tick, u64::MAX = none (futex timeout, sleep or stall end)
    spur: u64,     // tick of a spurious wake-up
    spur_ret: i64,
    ret: i64,
    prio: u64,
    pub op: i64,
    pub op_start: u64,
    pthread: libc::pthread_t,
    pub quiet: u32,
    yield_at: u64, // own steps at the last yield
}

pub struct Sim {
    pub thr: [Thr; MAXT],
    n: usize,
    ticks: u64,
    rng: Rng,
    frng: Rng,
    spec: SchedSpec,
    replay: bool,
    pevs: Vec<Vec<Ev>>, // per tid: P, S, A events
    pcur: Vec<usize>,
    fevs: Vec<Vec<Ev>>, // per tid: N, W, U, C events
    pct_points: Vec<u64>,
    pct_low: u64,
    pub clock_off: i64,
    mono: u64,
    pub shm: *mut Shm,
    key: libc::pthread_key_t,
    sig: u64,
    pub cpus: i64,       // simulated cpu count; <=0: unknown
    pub cpu_alt: i64,    // second answer, used when cpu_flip
    pub cpu_queries: u64,
    pub cpu_flip: bool,
    pub entropy: Rng,
    run_deadline_ticks: u64,
    idle_yields: u64, // since anybody last did anything but spin
    pub spawn_ok: bool,
}

#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub code: u32,
    pub msg_len: u32,
    pub nev: u32,
    pub trunc: u32,
    pub sig: u64,
    pub loghash: u64,
    pub ticks: u64,
    pub preempts: u64,
    pub note_len: u32,
    pub stats: [u64; NSTAT],
    pub msg: [u8; 4096],
    pub note: [u8; NOTE],
    pub ev: [Ev; MAXEV],
    pub cov: [u8; NCOV],
}

pub const ST_NONE: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

/// violation classes decided by the scheduler itself
pub const V_DEADLOCK: u32 = 1;
pub const V_BLOCKED_BEHIND: u32 = 2;
pub const V_BUDGET: u32 = 3;
pub const V_CRASH: u32 = 4;
pub const V_HANG: u32 = 5;
pub const V_USER: u32 = 16;

// scheduler-level counters (index into Shm::stats); harnesses use USER_STAT and up
pub const S_STEPS: usize = 0;
pub const S_SWITCH: usize = 1;
pub const S_PREEMPT: usize = 2;
pub const S_PREEMPT_HOT: usize = 3;
pub const S_STALL: usize = 4;
pub const S_ABANDON: usize = 5;
pub const S_SPURIOUS: usize = 6;
pub const S_EINTR: usize = 7;
pub const S_CLOCKJUMP: usize = 8;
pub const S_FUTEXWAIT: usize = 9;
pub const S_FUTEXWAKE: usize = 10;
pub const S_THREADS: usize = 11;
pub const S_CONFLICT: usize = 12;
pub const S_CPUQ: usize = 13;
pub const S_GETRANDOM: usize = 14;
pub const S_SLEEP: usize = 15;
pub const S_FAIR: usize = 16;
pub const USER_STAT: usize = 24;

static mut SIM: *mut Sim = std::ptr::null_mut();
#[thread_local]
static mut CUR: *mut Thr = std::ptr::null_mut();
static mut COV: *mut u8 = std::ptr::null_mut();

/// preemptions after which slices get longer
const BUSY: u64 = 8_000;

// shadow memory for conflict-directed preemption: (address / 8, last thread, written)
#[derive(Clone, Copy)]
struct Sh {
    tag: usize,
    tid: u8,
    written: bool,
}
const SHN: usize = 1 << 13;
static mut SHADOW: [Sh; SHN] = [Sh { tag: 0, tid: 0, written: false }; SHN];

#[inline(always)]
pub fn cur() -> *mut Thr {
    unsafe { CUR }
}
pub fn sim() -> *mut Sim {
    unsafe { SIM }
}
/// whether the calling thread is under the simulator's control
pub fn active() -> bool {
    unsafe { !CUR.is_null() && !SIM.is_null() }
}

// ------------------------------------------------------------------ step callbacks

#[inline(always)]
unsafe fn tick(t: *mut Thr) {
    (*t).steps += 1;
    if (*t).steps >= (*t).next_stop {
        slow(t);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let t = CUR;
    if t.is_null() {
        return;
    }
    *COV.add(*g as usize & (NCOV - 1)) = 1;
    tick(t);
}

static mut NGUARDS: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            NGUARDS += 1;
            *p = NGUARDS;
        }
        p = p.add(1);
    }
}
pub fn guards() -> u32 {
    unsafe { NGUARDS }
}

#[inline(always)]
unsafe fn mem(addr: usize, store: bool) {
    let t = CUR;
    if t.is_null() {
        return;
    }
    if (*t).watch && !(addr >= (*t).stack_lo && addr < (*t).stack_hi) {
        access(t, addr, store);
    }
    tick(t);
}

#[cold]
unsafe fn access(t: *mut Thr, addr: usize, store: bool) {
    let k = addr >> 3;
    let s = &mut SHADOW[(k ^ (k >> 13)) & (SHN - 1)];
    let tid = (*t).tid as u8;
    let sim = SIM;
    let mut conflict = false;
    if s.tag == k {
        if s.tid != tid && (store || s.written) {
            conflict = true;
        }
        s.tid = tid;
        s.written |= store;
    } else if store {
        *s = Sh { tag: k, tid, written: true };
    } else if s.tag == 0 {
        *s = Sh { tag: k, tid, written: false };
    }
    if conflict {
        stat(S_CONFLICT, 1);
    }
    if !(*sim).replay {
        if conflict || store {
            hot(t);
        }
        let sp = &(*sim).spec;
        let (pc, ps) = (sp.p_conflict as u64, sp.p_store as u64);
        let busy = (*(*sim).shm).preempts > 4 * BUSY;
        let hit = !busy && (conflict && pc > 0 && (*sim).rng.chance(pc, 1024) || store && ps > 0 && (*sim).rng.chance(ps, 65536));
        if hit {
            stat(S_PREEMPT_HOT, 1);
            // right before the access, or a few steps after it
            let d = if (*sim).rng.chance(1, 2) { (*sim).rng.below(3) } else { (*sim).rng.below(32) };
            (*t).slice_end = (*t).steps + 1 + d;
            set_stop(t);
        }
    }
}

/// a point where a directed fault may strike
unsafe fn hot(t: *mut Thr) {
    (*t).hot += 1;
    if let Some(OpFault { at: At::Hot(n), .. }) = (*t).fault {
        // low half: which access; high half: how many steps after it
        if (*t).hot > (n & 0xffff_ffff) && (*t).fault_at == u64::MAX {
            (*t).fault_at = (*t).steps + 1 + (n >> 32);
            set_stop(t);
        }
    }
}

macro_rules! memcb {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $l(a: usize) { mem(a, false) }
        #[no_mangle] pub unsafe extern "C" fn $s(a: usize) { mem(a, true) }
    )*};
}
memcb!(__sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2,
       __sanitizer_cov_load4 __sanitizer_cov_store4, __sanitizer_cov_load8 __sanitizer_cov_store8,
       __sanitizer_cov_load16 __sanitizer_cov_store16);

/// An explicit scheduling point (used by simulated components).
pub fn point() {
    unsafe {
        let t = CUR;
        if !t.is_null() {
            tick(t);
        }
    }
}

// ------------------------------------------------------------------ core

pub fn stat(i: usize, n: u64) {
    unsafe {
        if !SIM.is_null() {
            (*(*SIM).shm).stats[i] += n;
        }
    }
}

unsafe fn set_stop(t: *mut Thr) {
    let s = (*t).slice_end.min((*t).fair_end).min((*t).budget_end).min((*t).fault_at);
    (*t).next_stop = s;
}

unsafe fn record(kind: EvKind, tid: usize, step: u64, arg: u64) {
    let shm = &mut *(*SIM).shm;
    (*SIM).sig = mix((*SIM).sig ^ mix((kind as u64) << 56 | (tid as u64) << 48 ^ step) ^ arg.wrapping_mul(0x9e37));
    if (shm.nev as usize) < MAXEV {
        shm.ev[shm.nev as usize] = Ev { kind, tid: tid as u8, step, arg };
        shm.nev += 1;
    } else {
        shm.trunc = 1;
    }
}

unsafe fn account(t: *mut Thr) {
    let d = (*t).steps - (*t).acc;
    (*t).acc = (*t).steps;
    (*SIM).ticks += d;
    stat(S_STEPS, d);
}

pub fn ticks() -> u64 {
    unsafe {
        if SIM.is_null() {
            return 0;
        }
        let t = CUR;
        if t.is_null() {
            (*SIM).ticks
        } else {
            (*SIM).ticks + ((*t).steps - (*t).acc)
        }
    }
}

#[cold]
unsafe fn slow(t: *mut Thr) {
    let sim = SIM;
    if (*t).quiet > 0 {
        (*t).next_stop = (*t).steps + 1;
        return;
    }
    let now = (*t).steps;
    if now >= (*t).budget_end {
        fail(
            V_BUDGET,
            &format!(
                "thread {} used {} of its own steps in operation {} without finishing it",
                (*t).tid,
                now - (*t).op_start,
                (*t).op
            ),
        );
    }
    if (*sim).replay {
        let tid = (*t).tid;
        loop {
            let c = (*sim).pcur[tid];
            let Some(e) = (*sim).pevs[tid].get(c).copied() else { break };
            if e.step > (*t).steps {
                break;
            }
            (*sim).pcur[tid] = c + 1;
            if e.step < (*t).steps {
                continue;
            }
            replay_slice(t);
            match e.kind {
                EvKind::Preempt => switch(t, true, EvKind::Preempt, Some(e.arg as usize)),
                EvKind::Stall => do_stall(t, e.arg),
                EvKind::Abandon => do_abandon(t),
                _ => {}
            }
        }
        replay_slice(t);
    } else if now >= (*t).fault_at {
        (*t).fault_at = u64::MAX;
        if let Some(f) = (*t).fault.take() {
            match f.kind {
                FaultKind::Stall(k) => do_stall(t, k),
                FaultKind::Abandon => do_abandon(t),
            }
        }
        set_stop(t);
    } else if now >= (*t).slice_end {
        switch(t, true, EvKind::Preempt, None);
    }
    if (*t).steps >= (*t).fair_end {
        (*t).prio = (*sim).pct_low;
        (*sim).pct_low = (*sim).pct_low.saturating_sub(1);
        stat(S_FAIR, 1);
        switch(t, true, EvKind::Next, None);
        (*t).fair_end = (*t).steps + FAIR;
    }
    set_stop(t);
}

unsafe fn replay_slice(t: *mut Thr) {
    let sim = SIM;
    let tid = (*t).tid;
    while let Some(e) = (*sim).pevs[tid].get((*sim).pcur[tid]) {
        if e.step >= (*t).steps {
            break;
        }
        (*sim).pcur[tid] += 1;
    }
    (*t).slice_end = (*sim).pevs[tid].get((*sim).pcur[tid]).map_or(u64::MAX, |e| e.step);
    set_stop(t);
}

unsafe fn do_stall(t: *mut Thr, k: u64) {
    record(EvKind::Stall, (*t).tid, (*t).steps, k);
    stat(S_STALL, 1);
    account(t);
    (*t).st = St::Stalled;
    (*t).deadline = (*SIM).ticks + k;
    // the stalled thread's step counter moves on, so that its next event has a fresh key
    (*t).steps += 1;
    (*t).acc += 1;
    switch(t, false, EvKind::Next, None);
}

unsafe fn do_abandon(t: *mut Thr) {
    record(EvKind::Abandon, (*t).tid, (*t).steps, 0);
    stat(S_ABANDON, 1);
    (*t).st = St::Abandoned;
    (*t).steps += 1;
    switch(t, false, EvKind::Next, None);
    // never reached: an abandoned thread is not scheduled again
    raw::exit_group(98);
}

/// wake everything whose time has come
unsafe fn expire() {
    let sim = SIM;
    let now = (*sim).ticks;
    for i in 0..(*sim).n {
        let t = &mut (*sim).thr[i];
        match t.st {
            St::Stalled | St::Sleep if t.deadline <= now => {
                t.st = St::Runnable;
                t.deadline = u64::MAX;
            }
            St::Futex if t.spur <= now => {
                t.st = St::Runnable;
                t.ret = t.spur_ret;
                stat(if t.spur_ret == 0 { S_SPURIOUS } else { S_EINTR }, 1);
            }
            St::Futex if t.deadline <= now => {
                t.st = St::Runnable;
                t.ret = -(libc::ETIMEDOUT as i64);
            }
            St::Join(o) if matches!((*sim).thr[o].st, St::Finished) => t.st = St::Runnable,
            St::WaitAll => {
                let done = (0..(*sim).n)
                    .all(|j| j == i || matches!((*sim).thr[j].st, St::Finished | St::Abandoned | St::Unused));
                if done {
                    t.st = St::Runnable;
                }
            }
            _ => {}
        }
    }
}

unsafe fn describe() -> String {
    let sim = SIM;
    let mut s = String::new();
    for i in 0..(*sim).n {
        let t = &(*sim).thr[i];
        if t.st != St::Finished {
            s.push_str(&format!(" [thread {i}: {:?}, operation {}]", t.st, t.op));
        }
    }
    s
}

unsafe fn choose(t: *mut Thr, runnable: bool, kind: EvKind, want: Option<usize>) -> usize {
    let sim = SIM;
    loop {
        expire();
        let mut run = [0usize; MAXT];
        let mut n = 0;
        for i in 0..(*sim).n {
            if (*sim).thr[i].st == St::Runnable {
                run[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            // nobody can run: let time pass until the next timed event
            let mut next = u64::MAX;
            for i in 0..(*sim).n {
                let x = &(*sim).thr[i];
                match x.st {
                    St::Stalled | St::Sleep => next = next.min(x.deadline),
                    St::Futex => next = next.min(x.deadline).min(x.spur),
                    _ => {}
                }
            }
            if next == u64::MAX {
                let ab = (0..(*sim).n).any(|i| (*sim).thr[i].st == St::Abandoned);
                if ab {
                    fail(V_BLOCKED_BEHIND, &format!("callers wait for ever for a stopped caller:{}", describe()));
                }
                fail(V_DEADLOCK, &format!("no thread can ever run again:{}", describe()));
            }
            (*sim).ticks = (*sim).ticks.max(next);
            continue;
        }
        let run = &run[..n];
        let me = (*t).tid;
        if let Some(w) = want {
            if run.contains(&w) {
                return w;
            }
        }
        let cyc = |from: usize| *run.iter().find(|&&x| x > from).unwrap_or(&run[0]);
        if (*sim).replay {
            if kind == EvKind::Next {
                if let Some(e) = find_forced(me, (*t).steps, EvKind::Next) {
                    if run.contains(&(e.arg as usize)) {
                        return e.arg as usize;
                    }
                }
                return cyc(me);
            }
            return if runnable { me } else { cyc(me) };
        }
        let others: Vec<usize> = run.iter().copied().filter(|&x| x != me).collect();
        return match (*sim).spec.strategy {
            Strategy::Seq => {
                if kind == EvKind::Preempt && runnable {
                    // only reached through directed preemption
                    *(*sim).rng.pick(run)
                } else {
                    cyc(me)
                }
            }
            Strategy::Random { .. } => {
                if kind == EvKind::Preempt && !others.is_empty() && (*sim).rng.chance(7, 8) {
                    *(*sim).rng.pick(&others)
                } else {
                    *(*sim).rng.pick(run)
                }
            }
            Strategy::Rr { .. } => cyc(me),
            Strategy::Pct { .. } => {
                let mut best = run[0];
                for &x in run {
                    if (*sim).thr[x].prio > (*sim).thr[best].prio {
                        best = x;
                    }
                }
                best
            }
            Strategy::Explicit(_) => unreachable!(),
        };
    }
}

unsafe fn find_forced(tid: usize, step: u64, kind: EvKind) -> Option<Ev> {
    let v = &(*SIM).fevs[tid];
    let i = v.partition_point(|e| e.step < step);
    v[i..].iter().take_while(|e| e.step == step).find(|e| e.kind == kind).copied()
}

unsafe fn new_slice(t: *mut Thr) {
    let sim = SIM;
    if (*sim).replay {
        replay_slice(t);
        return;
    }
    let now = (*t).steps;
    (*t).slice_end = match (*sim).spec.strategy {
        Strategy::Seq => u64::MAX,
        Strategy::Random { bits } => now + (*sim).rng.log(bits),
        Strategy::Rr { q } => now + q,
        Strategy::Pct { .. } => {
            // next change point, in global ticks
            while let Some(&p) = (*sim).pct_points.last() {
                if p > (*sim).ticks {
                    break;
                }
                (*sim).pct_points.pop();
            }
            match (*sim).pct_points.last() {
                Some(&p) => now + (p - (*sim).ticks),
                None => u64::MAX,
            }
        }
        Strategy::Explicit(_) => u64::MAX,
    };
    // very many switches already: the rest of the run goes on more coarsely
    if (*(*sim).shm).preempts > BUSY && (*t).slice_end != u64::MAX {
        (*t).slice_end = now + ((*t).slice_end - now).saturating_mul(1 + (*(*sim).shm).preempts / 64);
    }
    set_stop(t);
}

/// Give up the token. `runnable`: the thread could go on.
unsafe fn switch(t: *mut Thr, runnable: bool, kind: EvKind, want: Option<usize>) {
    let sim = SIM;
    account(t);
    if (*sim).ticks > (*sim).run_deadline_ticks {
        fail(V_BUDGET, &format!("the run exceeded its step budget:{}", describe()));
    }
    if !(*sim).replay && kind == EvKind::Preempt {
        if let Strategy::Pct { .. } = (*sim).spec.strategy {
            // at a change point the running thread drops to the lowest priority
            (*t).prio = (*sim).pct_low;
            (*sim).pct_low = (*sim).pct_low.saturating_sub(1);
        }
    }
    let next = choose(t, runnable, kind, want);
    let same = next == (*t).tid;
    if !same || kind == EvKind::Next {
        record(kind, (*t).tid, (*t).steps, next as u64);
    }
    let nt: *mut Thr = &mut (*sim).thr[next];
    if !same {
        stat(S_SWITCH, 1);
        if kind == EvKind::Preempt {
            stat(S_PREEMPT, 1);
            (*(*sim).shm).preempts += 1;
        }
        (*nt).fair_end = (*nt).steps + FAIR;
    }
    new_slice(nt);
    if same {
        return;
    }
    (*nt).gate.store(1, Ordering::SeqCst);
    raw::futex_wake((*nt).gate.as_ptr(), 1);
    if (*t).st == St::Finished {
        return;
    }
    park(t);
}

unsafe fn park(t: *mut Thr) {
    while (*t).gate.load(Ordering::SeqCst) == 0 {
        raw::futex_wait((*t).gate.as_ptr(), 0);
    }
    (*t).gate.store(0, Ordering::SeqCst);
}

/// Report a violation found inside the run and end the process.
pub fn fail(code: u32, msg: &str) -> ! {
    unsafe {
        let sim = SIM;
        if !sim.is_null() {
            finish_shm(ST_VIOLATION, code, msg);
        }
        raw::exit_group(3)
    }
}

pub fn harness_error(msg: &str) -> ! {
    unsafe {
        if !SIM.is_null() {
            finish_shm(ST_HARNESS, 0, msg);
        }
        raw::exit_group(4)
    }
}

unsafe fn finish_shm(status: u32, code: u32, msg: &str) {
    let sim = SIM;
    let t = CUR;
    if !t.is_null() {
        account(t);
    }
    let shm = &mut *(*sim).shm;
    shm.sig = (*sim).sig;
    let mut h = shm.loghash ^ (*sim).sig;
    for i in 0..(*sim).n {
        h = mix(h ^ (*sim).thr[i].steps);
    }
    shm.loghash = h;
    shm.ticks = (*sim).ticks;
    shm.code = code;
    let b = msg.as_bytes();
    let n = b.len().min(shm.msg.len());
    shm.msg[..n].copy_from_slice(&b[..n]);
    shm.msg_len = n as u32;
    shm.status = status;
}

/// mix a value into the run's observable-history hash
pub fn log(v: u64) {
    unsafe {
        if !SIM.is_null() {
            let shm = &mut *(*SIM).shm;
            shm.loghash = mix(shm.loghash ^ v);
        }
    }
}

/// free text kept with the run (samples, histories)
pub fn note(s: &str) {
    unsafe {
        if !SIM.is_null() {
            let shm = &mut *(*SIM).shm;
            let at = shm.note_len as usize;
            let n = s.len().min(NOTE - at);
            shm.note[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
            shm.note_len += n as u32;
        }
    }
}

// ------------------------------------------------------------------ operations

/// Run `f` as operation `idx` of the calling simulated thread.
pub fn op_begin(idx: i64, budget: u64, fault: Option<OpFault>) {
    unsafe {
        let t = CUR;
        if t.is_null() {
            return;
        }
        (*SIM).idle_yields = 0;
        (*t).op = idx;
        (*t).op_start = (*t).steps;
        (*t).budget_end = (*t).steps.saturating_add(budget);
        (*t).hot = 0;
        (*t).fault = None;
        (*t).fault_at = u64::MAX;
        if !(*SIM).replay {
            (*t).fault = fault;
            if let Some(OpFault { at: At::Step(n), .. }) = fault {
                (*t).fault_at = (*t).steps + 1 + n;
            }
        }
        let f = (*t).fault.is_some();
        (*t).watch = f || (*SIM).spec.p_conflict > 0 || (*SIM).spec.p_store > 0;
        set_stop(t);
        tick(t);
    }
}

/// returns the steps the operation took
pub fn op_end() -> u64 {
    unsafe {
        let t = CUR;
        if t.is_null() {
            return 0;
        }
        tick(t);
        let n = (*t).steps - (*t).op_start;
        (*t).budget_end = u64::MAX;
        (*t).fault = None;
        (*t).fault_at = u64::MAX;
        (*t).op = -1;
        set_stop(t);
        n
    }
}

/// steps of the calling thread so far
pub fn my_steps() -> u64 {
    unsafe {
        if CUR.is_null() {
            0
        } else {
            (*CUR).steps
        }
    }
}

pub fn my_tid() -> usize {
    unsafe {
        if CUR.is_null() {
            usize::MAX
        } else {
            (*CUR).tid
        }
    }
}

/// run harness code without scheduling points
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let t = CUR;
        CUR = std::ptr::null_mut();
        let r = f();
        CUR = t;
        r
    }
}

pub fn run_budget(ticks: u64) {
    unsafe {
        (*SIM).run_deadline_ticks = (*SIM).ticks.saturating_add(ticks);
    }
}

/// Block until every other thread has finished or was abandoned.
pub fn wait_all() {
    unsafe {
        let t = CUR;
        (*t).steps += 1;
        (*t).st = St::WaitAll;
        switch(t, false, EvKind::Next, None);
    }
}

pub fn abandoned(tid: usize) -> bool {
    unsafe { (*SIM).thr[tid].st == St::Abandoned }
}
pub fn thread_count() -> usize {
    unsafe { (*SIM).n }
}

// ------------------------------------------------------------------ blocking primitives

/// a scheduling point at which a switch is likely (after a wake-up, a spawn, ...)
unsafe fn sync_point(t: *mut Thr) {
    (*t).steps += 1;
    if (*SIM).replay {
        if (*t).steps >= (*t).next_stop {
            slow(t);
        }
        return;
    }
    hot(t);
    if matches!((*SIM).spec.strategy, Strategy::Random { .. }) && (*SIM).rng.chance(1, 3) {
        (*t).slice_end = (*t).steps;
        set_stop(t);
    }
    if (*t).steps >= (*t).next_stop {
        slow(t);
    }
}

pub(crate) unsafe fn futex(op: i32, addr: usize, val: u32, timeout: *const libc::timespec, bits: u32) -> i64 {
    let t = CUR;
    let sim = SIM;
    sync_point(t);
    let base = op & libc::FUTEX_CMD_MASK;
    match base {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            stat(S_FUTEXWAIT, 1);
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return -(libc::EAGAIN as i64);
            }
            account(t);
            (*t).deadline = u64::MAX;
            if !timeout.is_null() {
                let ns = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                let abs = base == libc::FUTEX_WAIT_BITSET;
                let rel = if abs {
                    let clk = if op & libc::FUTEX_CLOCK_REALTIME != 0 { libc::CLOCK_REALTIME } else { libc::CLOCK_MONOTONIC };
                    ns.saturating_sub(now_ns(clk))
                } else {
                    ns
                };
                (*t).deadline = (*sim).ticks.saturating_add(rel / NS_PER_STEP);
            }
            (*t).steps += 1;
            (*t).acc += 1;
            (*t).faddr = addr;
            (*t).fbits = if base == libc::FUTEX_WAIT_BITSET { bits } else { u32::MAX };
            (*t).spur = u64::MAX;
            if (*sim).replay {
                if let Some(e) = find_forced((*t).tid, (*t).steps, EvKind::Spurious) {
                    (*t).spur = (*sim).ticks + (e.arg >> 1);
                    (*t).spur_ret = if e.arg & 1 == 1 { -(libc::EINTR as i64) } else { 0 };
                    record(EvKind::Spurious, (*t).tid, (*t).steps, e.arg);
                }
            } else if (*sim).spec.p_spurious > 0 && (*sim).frng.chance((*sim).spec.p_spurious as u64, 256) {
                let d = (*sim).frng.log(14);
                let e = (*sim).frng.below(2);
                (*t).spur = (*sim).ticks + d;
                (*t).spur_ret = if e == 1 { -(libc::EINTR as i64) } else { 0 };
                record(EvKind::Spurious, (*t).tid, (*t).steps, d << 1 | e);
            }
            (*t).st = St::Futex;
            (*t).ret = 0;
            switch(t, false, EvKind::Next, None);
            (*t).spur = u64::MAX;
            (*t).deadline = u64::MAX;
            (*t).ret
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            stat(S_FUTEXWAKE, 1);
            let mask = if base == libc::FUTEX_WAKE_BITSET { bits } else { u32::MAX };
            let mut woken = 0i64;
            loop {
                if woken >= val as i64 {
                    break;
                }
                let w: Vec<usize> = (0..(*sim).n)
                    .filter(|&i| {
                        let x = &(*sim).thr[i];
                        x.st == St::Futex && x.faddr == addr && x.fbits & mask != 0
                    })
                    .collect();
                if w.is_empty() {
                    break;
                }
                let pick = if (*sim).replay {
                    match find_forced((*t).tid, (*t).steps, EvKind::Wake) {
                        Some(e) if w.contains(&(e.arg as usize)) => e.arg as usize,
                        _ => w[0],
                    }
                } else if w.len() > 1 && (val as usize) < w.len() {
                    *(*sim).rng.pick(&w)
                } else {
                    w[0]
                };
                if w.len() > 1 {
                    record(EvKind::Wake, (*t).tid, (*t).steps, pick as u64);
                }
                (*sim).thr[pick].st = St::Runnable;
                (*sim).thr[pick].ret = 0;
                woken += 1;
            }
            sync_point(t);
            woken
        }
        _ => -(libc::ENOSYS as i64),
    }
}

pub(crate) unsafe fn sleep_ns(ns: u64) {
    let t = CUR;
    stat(S_SLEEP, 1);
    (*t).steps += 1;
    account(t);
    (*t).st = St::Sleep;
    (*t).deadline = (*SIM).ticks + 1 + ns / NS_PER_STEP;
    switch(t, false, EvKind::Next, None);
}

pub(crate) unsafe fn yield_now() {
    let t = CUR;
    (*t).steps += 1;
    idle(t);
    if let Strategy::Pct { .. } = (*SIM).spec.strategy {
        (*t).prio = (*SIM).pct_low;
        (*SIM).pct_low = (*SIM).pct_low.saturating_sub(1);
    }
    switch(t, true, EvKind::Next, None);
    set_stop(t);
}

/// Everybody only ever looks again and yields: nobody will get anywhere. Time that passes while
/// somebody is stalled, asleep or at work of more than a few steps does not count.
unsafe fn idle(t: *mut Thr) {
    let sim = SIM;
    let d = (*t).steps - (*t).yield_at;
    (*t).yield_at = (*t).steps;
    if d > SPIN {
        (*sim).idle_yields = 0;
        return;
    }
    (*sim).idle_yields += 1;
    if (*sim).idle_yields & 0x3fff == 0 {
        let waiting = |x: &Thr| matches!(x.st, St::Stalled | St::Sleep) || x.st == St::Futex && x.deadline != u64::MAX;
        let working = |x: &Thr| x.st == St::Runnable && x.steps - x.yield_at > SPIN;
        if (0..(*sim).n).any(|i| waiting(&(*sim).thr[i]) || working(&(*sim).thr[i])) {
            (*sim).idle_yields = 0;
        } else if (*sim).idle_yields >= IDLE {
            fail(V_BUDGET, &format!("callers only yield to each other, and none ever goes on:{}", describe()));
        }
    }
}
/// between two yields, a thread that takes more steps than this does something
const SPIN: u64 = 4_000;
const IDLE: u64 = 1 << 20;

/// the simulated clock
pub(crate) unsafe fn now_ns(clk: i32) -> u64 {
    const BASE: u64 = 1_700_000_000_000_000_000;
    let sim = SIM;
    let t = ticks() * NS_PER_STEP;
    if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        (BASE as i64).wrapping_add(t as i64).wrapping_add((*sim).clock_off) as u64
    } else {
        // monotonic: forward jumps only
        let v = 1_000_000_000 + t + (*sim).clock_off.max(0) as u64;
        (*sim).mono = (*sim).mono.max(v);
        (*sim).mono
    }
}

pub(crate) unsafe fn clock_read(clk: i32) -> u64 {
    let t = CUR;
    let sim = SIM;
    (*t).steps += 1;
    if (*sim).replay {
        if let Some(e) = find_forced((*t).tid, (*t).steps, EvKind::Clock) {
            (*sim).clock_off = (*sim).clock_off.wrapping_add(e.arg as i64);
            stat(S_CLOCKJUMP, 1);
            record(EvKind::Clock, (*t).tid, (*t).steps, e.arg);
        }
    } else if (*sim).spec.p_clock > 0 && (*sim).frng.chance((*sim).spec.p_clock as u64, 256) {
        let mag = (*sim).frng.log(52) as i64;
        let d = if (*sim).frng.chance(1, 2) { mag } else { -mag };
        (*sim).clock_off = (*sim).clock_off.wrapping_add(d);
        stat(S_CLOCKJUMP, 1);
        record(EvKind::Clock, (*t).tid, (*t).steps, d as u64);
    }
    now_ns(clk)
}

// ------------------------------------------------------------------ threads

struct Boot {
    tid: usize,
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
}

unsafe fn init_thr(t: *mut Thr, tid: usize, stack_size: usize) {
    let here = &t as *const _ as usize;
    std::ptr::write(
        t,
        Thr {
            steps: 0,
            next_stop: u64::MAX,
            watch: false,
            stack_lo: here.saturating_sub(stack_size),
            stack_hi: here + (64 << 10),
            tid,
            st: St::Runnable,
            gate: AtomicU32::new(0),
            acc: 0,
            slice_end: u64::MAX,
            fair_end: FAIR,
            budget_end: u64::MAX,
            fault: None,
            fault_at: u64::MAX,
            hot: 0,
            faddr: 0,
            fbits: 0,
            deadline: u64::MAX,
            spur: u64::MAX,
            spur_ret: 0,
            ret: 0,
            prio: 0,
            op: -1,
            op_start: 0,
            pthread: 0,
            quiet: 0,
            yield_at: 0,
        },
    );
}

extern "C" fn boot(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        let t: *mut Thr = &mut (*SIM).thr[b.tid];
        let here = &b as *const _ as usize;
        (*t).stack_lo = here.saturating_sub(2 << 20);
        (*t).stack_hi = here + (64 << 10);
        libc::pthread_setspecific((*SIM).key, 3 as *const libc::c_void);
        park(t);
        CUR = t;
        set_stop(t);
        let (start, arg) = (b.start, b.arg);
        drop(b);
        start(arg)
    }
}

/// runs after all Rust thread-local destructors
unsafe extern "C" fn key_dtor(v: *mut libc::c_void) {
    let n = v as usize;
    if n > 1 {
        libc::pthread_setspecific((*SIM).key, (n - 1) as *const libc::c_void);
        return;
    }
    let t = CUR;
    if t.is_null() {
        return;
    }
    CUR = std::ptr::null_mut();
    (*t).steps += 1;
    (*t).st = St::Finished;
    switch(t, false, EvKind::Next, None);
}

extern "C" {
    fn pthread_attr_getdetachstate(a: *const libc::pthread_attr_t, s: *mut i32) -> i32;
}
type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
pub(crate) unsafe fn create(
    real: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut libc::c_void) -> i32,
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: StartFn,
    arg: *mut libc::c_void,
) -> i32 {
    let sim = SIM;
    let me = CUR;
    if (*sim).n >= MAXT || !(*sim).spawn_ok {
        return libc::EAGAIN;
    }
    let tid = (*sim).n;
    let t: *mut Thr = &mut (*sim).thr[tid];
    init_thr(t, tid, 2 << 20);
    (*t).prio = (*sim).rng.next() >> 1 | 1 << 62;
    (*sim).n += 1;
    if (*sim).replay {
        replay_slice(t);
    }
    let b = Box::into_raw(Box::new(Boot { tid, start, arg }));
    let mut own: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut own);
    let mut det = 0;
    if !attr.is_null() && pthread_attr_getdetachstate(attr, &mut det) == 0 {
        libc::pthread_attr_setdetachstate(&mut own, det);
    }
    let (lo, size) = crate::arena::stack(tid);
    libc::pthread_attr_setstack(&mut own, lo as *mut _, size);
    let r = real(th, &own, boot, b as *mut libc::c_void);
    libc::pthread_attr_destroy(&mut own);
    if r != 0 {
        (*sim).n -= 1;
        drop(Box::from_raw(b));
        return r;
    }
    stat(S_THREADS, 1);
    (*t).pthread = *th;
    sync_point(me);
    0
}

/// simulated part of pthread_join: wait until the thread has finished
pub(crate) unsafe fn join(th: libc::pthread_t) {
    let sim = SIM;
    let me = CUR;
    for i in (0..(*sim).n).rev() {
        if (*sim).thr[i].pthread == th && i != (*me).tid && i != 0 {
            if (*sim).thr[i].st != St::Finished {
                (*me).steps += 1;
                (*me).st = St::Join(i);
                switch(me, false, EvKind::Next, None);
            }
            return;
        }
    }
}

// ------------------------------------------------------------------ run

pub struct RunCfg {
    pub spec: SchedSpec,
    pub cpus: i64,
    pub cpu_alt: i64,
    pub cpu_flip: bool,
}

impl Default for RunCfg {
    fn default() -> Self {
        RunCfg { spec: SchedSpec::seq(), cpus: 8, cpu_alt: 8, cpu_flip: false }
    }
}

/// Become the main thread (thread 0) of a simulated process. Only in a freshly forked child.
pub unsafe fn enter(shm: *mut Shm, cfg: RunCfg) {
    let mut sim: Box<Sim> = {
        let layout = std::alloc::Layout::new::<Sim>();
        let p = std::alloc::alloc_zeroed(layout) as *mut Sim;
        let mut rng = Rng::new(cfg.spec.seed);
        let frng = rng.fork(7);
        let entropy = rng.fork(11);
        let replay = matches!(cfg.spec.strategy, Strategy::Explicit(_));
        let mut pevs = vec![vec![]; MAXT];
        let mut fevs = vec![vec![]; MAXT];
        if let Strategy::Explicit(evs) = &cfg.spec.strategy {
            for e in evs {
                let v = match e.kind {
                    EvKind::Preempt | EvKind::Stall | EvKind::Abandon => &mut pevs,
                    _ => &mut fevs,
                };
                v[e.tid as usize % MAXT].push(*e);
            }
            for v in pevs.iter_mut().chain(fevs.iter_mut()) {
                v.sort_by_key(|e| e.step);
            }
        }
        let mut pct_points = vec![];
        if let Strategy::Pct { d, est } = cfg.spec.strategy {
            for _ in 0..d {
                pct_points.push(1 + rng.below(est));
            }
            pct_points.sort_unstable_by(|a, b| b.cmp(a));
        }
        std::ptr::addr_of_mut!((*p).rng).write(rng);
        std::ptr::addr_of_mut!((*p).frng).write(frng);
        std::ptr::addr_of_mut!((*p).entropy).write(entropy);
        std::ptr::addr_of_mut!((*p).spec).write(cfg.spec);
        std::ptr::addr_of_mut!((*p).replay).write(replay);
        std::ptr::addr_of_mut!((*p).pevs).write(pevs);
        std::ptr::addr_of_mut!((*p).fevs).write(fevs);
        std::ptr::addr_of_mut!((*p).pcur).write(vec![0; MAXT]);
        std::ptr::addr_of_mut!((*p).pct_points).write(pct_points);
        Box::from_raw(p)
    };
    sim.pct_low = 1 << 40;
    sim.shm = shm;
    sim.cpus = cfg.cpus;
    sim.cpu_alt = cfg.cpu_alt;
    sim.cpu_flip = cfg.cpu_flip;
    sim.run_deadline_ticks = u64::MAX;
    sim.idle_yields = 0;
    sim.spawn_ok = true;
    sim.sig = 0x51;
    for t in sim.thr.iter_mut() {
        t.st = St::Unused;
    }
    libc::pthread_key_create(&mut sim.key, Some(key_dtor));
    let sim = Box::leak(sim);
    let t: *mut Thr = &mut sim.thr[0];
    init_thr(t, 0, 8 << 20);
    (*t).prio = u64::MAX >> 1;
    sim.n = 1;
    COV = (*shm).cov.as_mut_ptr();
    SIM = sim;
    new_slice(t);
    CUR = t;
}

/// Leave the simulation (main thread only): later code runs uncontrolled, other threads stay parked.
pub unsafe fn leave() {
    let t = CUR;
    if !t.is_null() {
        account(t);
    }
    CUR = std::ptr::null_mut();
}

pub unsafe fn finish_ok() -> ! {
    finish_shm(ST_OK, 0, "");
    raw::exit_group(0)
}
