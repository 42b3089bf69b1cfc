//! Fork-per-run execution, exploration over seeds on all cores, confirmation, minimisation, replay.

use crate::raw;
use crate::rng::{mix, Rng};
use crate::sched::*;
use std::collections::HashSet;
use std::time::Instant;

pub trait Target {
    type Scn: Clone;
    fn to_text(&self, s: &Self::Scn) -> String;
    fn from_text(&self, t: &str) -> Option<Self::Scn>;
    /// simulated environment (CPU counts)
    fn env(&self, s: &Self::Scn) -> (i64, i64, bool);
    /// whether the run starts in a process where `prewarm` has been done
    fn warm(&self, _: &Self::Scn) -> bool {
        false
    }
    /// done once, outside the simulation, in the process that warm runs are forked from
    fn prewarm(&self) {}
    /// the run itself, as thread 0 of a fresh simulated process; reports through `fail`
    fn body(&self, s: &Self::Scn);
    /// simpler scenarios, most drastic first
    fn shrink(&self, s: &Self::Scn) -> Vec<Self::Scn>;
}

#[derive(Clone, Debug)]
pub struct Case<S> {
    pub scn: S,
    pub spec: SchedSpec,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub status: u32,
    pub code: u32,
    pub msg: String,
    pub events: Vec<Ev>,
    pub trunc: bool,
    pub sig: u64,
    pub loghash: u64,
    pub ticks: u64,
    pub preempts: u64,
    pub note: String,
}

pub unsafe fn map_shared<T>() -> *mut T {
    let p = libc::mmap(
        std::ptr::null_mut(),
        std::mem::size_of::<T>(),
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED);
    p as *mut T
}

pub fn new_shm() -> *mut Shm {
    unsafe { map_shared() }
}

/// Re-execute with address-space randomisation off, so that runs do not even differ in addresses.
pub fn no_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && (cur as u64 & ADDR_NO_RANDOMIZE) == 0 && std::env::var_os("SIMRT_ASLR").is_none() {
            if libc::personality(cur as u64 | ADDR_NO_RANDOMIZE) >= 0 {
                std::env::set_var("SIMRT_ASLR", "off");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
}

fn cpu_limit() -> u64 {
    std::env::var("SIMRT_CPU_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60)
}

/// One run in a freshly forked process.
pub fn run_case<T: Target>(t: &T, case: &Case<T::Scn>, shm: *mut Shm) -> Outcome {
    run_case_limit(t, case, shm, cpu_limit())
}

pub fn run_case_limit<T: Target>(t: &T, case: &Case<T::Scn>, shm: *mut Shm, cpu_s: u64) -> Outcome {
    unsafe {
        if t.warm(&case.scn) {
            ensure_warm(t);
        } else {
            assert!(!WARM, "a cold run in a warm process");
        }
        crate::arena::setup();
        let s = &mut *shm;
        s.status = ST_NONE;
        s.code = 0;
        s.msg_len = 0;
        s.nev = 0;
        s.trunc = 0;
        s.sig = 0;
        s.loghash = 0;
        s.ticks = 0;
        s.preempts = 0;
        s.note_len = 0;
        s.stats = [0; NSTAT];
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm((cpu_s * 4) as u32);
            on_fixed_stack(t, case, shm);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = &*shm;
        let mut o = Outcome {
            status: s.status,
            code: s.code,
            msg: String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned(),
            events: s.ev[..s.nev as usize].to_vec(),
            trunc: s.trunc != 0,
            sig: s.sig,
            loghash: s.loghash,
            ticks: s.ticks,
            preempts: s.preempts,
            note: String::from_utf8_lossy(&s.note[..s.note_len as usize]).into_owned(),
        };
        if o.status == ST_NONE {
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGXCPU || sig == libc::SIGALRM {
                    o.status = ST_VIOLATION;
                    o.code = V_HANG;
                    o.msg = format!("the process hung (signal {sig})");
                } else if sig == libc::SIGKILL {
                    o.status = ST_HARNESS;
                    o.msg = "the simulated process was killed from outside".into();
                } else {
                    o.status = ST_VIOLATION;
                    o.code = V_CRASH;
                    o.msg = format!("the process died on signal {sig}");
                }
            } else {
                o.status = ST_VIOLATION;
                o.code = V_CRASH;
                o.msg = format!("the process ended by itself with status {}", libc::WEXITSTATUS(st));
            }
        }
        o
    }
}

struct First<'a, T: Target> {
    t: &'a T,
    case: &'a Case<T::Scn>,
    shm: *mut Shm,
}
extern "C" fn first_thread<T: Target>(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let f = &*(p as *const First<T>);
        let (cpus, cpu_alt, cpu_flip) = f.t.env(&f.case.scn);
        enter(f.shm, RunCfg { spec: f.case.spec.clone(), cpus, cpu_alt, cpu_flip });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.t.body(&f.case.scn)));
        leave();
        if let Err(e) = r {
            harness_error(&format!("harness panic: {}", panic_text(&e)));
        }
        finish_ok();
    }
}
unsafe fn on_fixed_stack<T: Target>(t: &T, case: &Case<T::Scn>, shm: *mut Shm) -> ! {
    crate::arena::setup();
    let f = First { t, case, shm };
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    let (lo, size) = crate::arena::stack(0);
    libc::pthread_attr_setstack(&mut attr, lo as *mut _, size);
    let mut th: libc::pthread_t = std::mem::zeroed();
    let r = crate::interpose::real_create()(&mut th, &attr, first_thread::<T>, &f as *const First<T> as *mut libc::c_void);
    if r != 0 {
        raw::exit_group(99);
    }
    loop {
        libc::pause();
    }
}

static mut WARM: bool = false;
/// Bring this process to the state warm runs start from. False: the code under test does not even
/// get there, and warm runs start cold.
pub fn ensure_warm<T: Target>(t: &T) {
    unsafe {
        if WARM {
            return;
        }
        WARM = true;
        crate::arena::setup();
        let go = || {
            crate::arena::warming(true);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.prewarm()));
            crate::arena::warming(false);
            r.is_ok()
        };
        let pid = libc::fork();
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            libc::alarm(60);
            raw::exit_group(!go() as i32);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if st == 0 {
            go();
        }
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(no text)".into()
    }
}

const MAXSIG: usize = 400_000;
const NSAMPLE: usize = 4;
#[repr(C)]
struct WShm {
    runs: u64,
    ticks: u64,
    stats: [u64; NSTAT],
    runs_with: [u64; NSTAT],
    nsig: u64,
    sigs: [u64; MAXSIG],
    nontrivial: u64,
    redo: u64,
    redo_diff: u64,
    harness: u64,
    hmsg: [u8; 512],
    viol: u64, // index + 1
    sample_len: [u64; NSAMPLE],
    sample: [[u8; 6000]; NSAMPLE],
}
#[repr(C)]
struct Ctl {
    viol_min: std::sync::atomic::AtomicU64,
}

#[derive(Default, Debug)]
pub struct Summary {
    pub runs: u64,
    pub ticks: u64,
    pub stats: Vec<u64>,
    pub runs_with: Vec<u64>,
    pub distinct: u64,
    pub distinct_nontrivial: u64,
    pub redo: u64,
    pub redo_diff: u64,
    pub harness: u64,
    pub harness_msg: String,
    pub first_violation: Option<u64>,
    pub samples: Vec<String>,
    pub edges_hit: u64,
    pub edges_total: u64,
    pub wall_s: f64,
    pub workers: usize,
    pub timed_out: bool,
}

pub fn workers() -> usize {
    if let Some(n) = std::env::var("SIMRT_WORKERS").ok().and_then(|s| s.parse().ok()) {
        return n;
    }
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        crate::interpose::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        (libc::CPU_COUNT(&set) as usize).clamp(1, 16)
    }
}

fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if crate::interpose::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

pub fn run_seed(base: u64, index: u64) -> u64 {
    mix(mix(base) ^ index.wrapping_mul(0x2545_f491_4f6c_dd1d))
}

/// Explore `nruns` seeds (or until `cap_s` seconds have passed) on all cores.
pub fn explore<T: Target>(
    t: &T,
    gen: &dyn Fn(u64, u64) -> Case<T::Scn>,
    base: u64,
    nruns: u64,
    cap_s: f64,
) -> Summary {
    let t0 = Instant::now();
    let w = workers();
    unsafe {
        let ctl: *mut Ctl = map_shared();
        (*ctl).viol_min.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
        let ws: Vec<*mut WShm> = (0..w).map(|_| map_shared()).collect();
        let shms: Vec<*mut Shm> = (0..w).map(|_| new_shm()).collect();
        let mut pids = vec![];
        for k in 0..w {
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(k);
                worker(t, gen, base, nruns, cap_s, k as u64, w as u64, ws[k], shms[k], &*ctl, t0);
                raw::exit_group(0);
            }
            pids.push(pid);
        }
        let mut sum = Summary { stats: vec![0; NSTAT], runs_with: vec![0; NSTAT], workers: w, ..Default::default() };
        for pid in pids {
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            if st != 0 {
                sum.harness += 1;
                sum.harness_msg = format!("a worker process ended with status {st}");
            }
        }
        let mut all: HashSet<u64> = HashSet::new();
        let mut cov = vec![0u8; NCOV];
        for k in 0..w {
            let x = &*ws[k];
            sum.runs += x.runs;
            sum.ticks += x.ticks;
            for i in 0..NSTAT {
                sum.stats[i] += x.stats[i];
                sum.runs_with[i] += x.runs_with[i];
            }
            all.extend(&x.sigs[..(x.nsig as usize).min(MAXSIG)]);
            sum.redo += x.redo;
            sum.redo_diff += x.redo_diff;
            if x.harness > 0 {
                sum.harness += x.harness;
                let n = x.hmsg.iter().position(|&b| b == 0).unwrap_or(0);
                sum.harness_msg = String::from_utf8_lossy(&x.hmsg[..n]).into_owned();
            }
            for j in 0..NSAMPLE {
                if x.sample_len[j] > 0 && sum.samples.len() < 3 {
                    sum.samples.push(String::from_utf8_lossy(&x.sample[j][..x.sample_len[j] as usize]).into_owned());
                }
            }
            for (a, b) in cov.iter_mut().zip((*shms[k]).cov.iter()) {
                *a |= *b;
            }
            libc::munmap(ws[k] as *mut _, std::mem::size_of::<WShm>());
            libc::munmap(shms[k] as *mut _, std::mem::size_of::<Shm>());
        }
        sum.distinct = all.len() as u64;
        sum.distinct_nontrivial = all.iter().filter(|&&s| s & 1 == 1).count() as u64;
        sum.edges_hit = cov.iter().filter(|&&b| b != 0).count() as u64;
        sum.edges_total = guards() as u64;
        let v = (*ctl).viol_min.load(std::sync::atomic::Ordering::SeqCst);
        if v != u64::MAX {
            sum.first_violation = Some(v);
        }
        sum.timed_out = sum.first_violation.is_none() && sum.runs < nruns;
        sum.wall_s = t0.elapsed().as_secs_f64();
        sum
    }
}

#[allow(clippy::too_many_arguments)]
unsafe fn worker<T: Target>(
    t: &T,
    gen: &dyn Fn(u64, u64) -> Case<T::Scn>,
    base: u64,
    nruns: u64,
    cap_s: f64,
    k: u64,
    w: u64,
    x: *mut WShm,
    shm: *mut Shm,
    ctl: &Ctl,
    t0: Instant,
) {
    use std::sync::atomic::Ordering::SeqCst;
    let x = &mut *x;
    // cold runs first: a process cannot become cold again
    let mut i = k;
    let mut warm_pass = false;
    let mut warm_left = false;
    loop {
        let cap = if warm_pass || !warm_left { cap_s } else { cap_s * 0.6 };
        if i >= nruns || ctl.viol_min.load(SeqCst) < i || t0.elapsed().as_secs_f64() > cap {
            if warm_pass || !(warm_left || i < nruns) {
                break;
            }
            warm_pass = true;
            i = k;
            continue;
        }
        let case = gen(run_seed(base, i), i);
        let warm = t.warm(&case.scn);
        if warm != warm_pass {
            warm_left |= warm;
            i += w;
            continue;
        }
        let mut o = run_case(t, &case, shm);
        if o.status == ST_HARNESS {
            o = run_case(t, &case, shm); // once more: a kill from outside, say
        }
        if o.status == ST_VIOLATION && o.code == V_HANG {
            o = run_case_limit(t, &case, shm, cpu_limit() * 2);
        }
        x.runs += 1;
        x.ticks += o.ticks;
        for j in 0..NSTAT {
            let v = (*shm).stats[j];
            x.stats[j] += v;
            x.runs_with[j] += (v > 0) as u64;
        }
        let faults: u64 = (*shm).stats[S_STALL..=S_CLOCKJUMP].iter().sum::<u64>()
            + (*shm).stats[USER_STAT..USER_STAT + 16].iter().sum::<u64>();
        let non = o.preempts > 0 || faults > 0;
        let sig = (mix(o.sig ^ case_hash(t, &case)) << 1) | non as u64;
        if (x.nsig as usize) < MAXSIG {
            x.sigs[x.nsig as usize] = sig;
            x.nsig += 1;
        }
        x.nontrivial += non as u64;
        let si = (i / w) as usize;
        if (si == 0 || si == 7 || si == 20) && non {
            let slot = x.sample_len.iter().position(|&l| l == 0);
            if let Some(sl) = slot {
                let mut txt = format!(
                    "run {i} seed {}: {}\n{}{}",
                    run_seed(base, i),
                    if o.status == ST_OK { "held" } else { "VIOLATION" },
                    t.to_text(&case.scn),
                    case.spec.to_text()
                );
                txt.push_str(&format!("decisions {} preemptions {} ticks {}", o.events.len(), o.preempts, o.ticks));
                let b = txt.as_bytes();
                let n = b.len().min(6000);
                x.sample[sl][..n].copy_from_slice(&b[..n]);
                x.sample_len[sl] = n as u64;
            }
        }
        match o.status {
            ST_OK => {
                if si % 37 == 5 {
                    let o2 = run_case(t, &case, shm);
                    x.redo += 1;
                    if o2.loghash != o.loghash || o2.status != o.status {
                        x.redo_diff += 1;
                        eprintln!("run {i} differs when repeated: ticks {} / {}, decisions {} / {}, preemptions {} / {}", o.ticks, o2.ticks, o.events.len(), o2.events.len(), o.preempts, o2.preempts);
                    }
                }
            }
            ST_VIOLATION => {
                // believed only if it happens again
                let mut again = 0;
                for _ in 0..3 {
                    let o2 = run_case(t, &case, shm);
                    if o2.status == ST_VIOLATION {
                        again += 1;
                    }
                }
                if again > 0 {
                    ctl.viol_min.fetch_min(i, SeqCst);
                    x.viol = i + 1;
                    break;
                } else {
                    x.redo_diff += 1;
                    eprintln!("run {i} reported a violation that did not repeat: {}", o.msg);
                }
            }
            _ => {
                x.harness += 1;
                let b = o.msg.as_bytes();
                let n = b.len().min(500);
                x.hmsg[..n].copy_from_slice(&b[..n]);
            }
        }
        i += w;
    }
}

fn case_hash<T: Target>(t: &T, c: &Case<T::Scn>) -> u64 {
    let mut h = 1u64;
    for b in t.to_text(&c.scn).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

/// Simplest failing case found within the budget, for the same violation class.
pub fn minimise<T: Target>(t: &T, case: &Case<T::Scn>, first: &Outcome, budget_s: f64) -> (Case<T::Scn>, Outcome) {
    let t0 = Instant::now();
    let shm = new_shm();
    let class = first.code;
    let fails = |c: &Case<T::Scn>| -> Option<Outcome> {
        let o = run_case_limit(t, c, shm, cpu_limit().min(20));
        (o.status == ST_VIOLATION && o.code == class).then_some(o)
    };
    let mut best = case.clone();
    let mut bo = match fails(&best) {
        Some(o) => o,
        None => first.clone(),
    };
    // no schedule at all?
    let seq = Case { scn: best.scn.clone(), spec: SchedSpec::seq() };
    if let Some(o) = fails(&seq) {
        best = seq;
        bo = o;
    }
    // scenario
    let mut rng = Rng::new(case.spec.seed ^ 0x5eed);
    'outer: loop {
        if t0.elapsed().as_secs_f64() > budget_s * 0.6 {
            break;
        }
        for cand in t.shrink(&best.scn) {
            if t0.elapsed().as_secs_f64() > budget_s * 0.6 {
                break 'outer;
            }
            let tries = if best.spec.strategy == Strategy::Seq { 1 } else { 24 };
            for k in 0..tries {
                let spec = match k {
                    0 => best.spec.clone(),
                    1 => SchedSpec::seq(),
                    _ => {
                        let mut s = best.spec.clone();
                        if k > 12 {
                            s = SchedSpec::draw(&mut rng, 100_000, s.p_spurious > 0);
                        }
                        s.seed = rng.next();
                        s
                    }
                };
                let c = Case { scn: cand.clone(), spec };
                if let Some(o) = fails(&c) {
                    best = c;
                    bo = o;
                    continue 'outer;
                }
            }
        }
        break;
    }
    // schedule: to an explicit trace, then delta debugging over its events
    if !bo.trunc && !bo.events.is_empty() && best.spec.strategy != Strategy::Seq || best.spec.p_spurious > 0 {
        let ex = |evs: Vec<Ev>| Case {
            scn: best.scn.clone(),
            spec: SchedSpec { strategy: Strategy::Explicit(evs), ..best.spec.clone() },
        };
        let mut evs = bo.events.clone();
        if let Some(o) = fails(&ex(evs.clone())) {
            let mut cur = o;
            let mut n = 2usize;
            while evs.len() >= 1 && t0.elapsed().as_secs_f64() < budget_s {
                let size = (evs.len() + n - 1) / n;
                let mut reduced = false;
                let mut at = 0;
                while at < evs.len() && t0.elapsed().as_secs_f64() < budget_s {
                    let mut c = evs.clone();
                    let end = (at + size).min(c.len());
                    c.drain(at..end);
                    if let Some(o) = fails(&ex(c.clone())) {
                        evs = c;
                        cur = o;
                        reduced = true;
                    } else {
                        at += size;
                    }
                }
                if !reduced {
                    if size <= 1 {
                        break;
                    }
                    n = (n * 2).min(evs.len().max(1));
                } else {
                    n = n.max(2).min(evs.len().max(1));
                }
            }
            best = ex(evs);
            bo = cur;
        }
    }
    unsafe {
        libc::munmap(shm as *mut _, std::mem::size_of::<Shm>());
    }
    (best, bo)
}

pub fn replay_text<T: Target>(t: &T, property: &str, case: &Case<T::Scn>, o: &Outcome) -> String {
    let mut s = format!("property {property}\nclass {}\n", o.code);
    for l in o.msg.lines() {
        s.push_str(&format!("# {l}\n"));
    }
    s.push_str("scenario\n");
    s.push_str(&t.to_text(&case.scn));
    s.push_str("end-scenario\n");
    s.push_str(&case.spec.to_text());
    s
}

pub fn parse_replay<T: Target>(t: &T, text: &str) -> Option<(String, u32, Case<T::Scn>)> {
    let prop = text.lines().find_map(|l| l.strip_prefix("property "))?.to_string();
    let class = text.lines().find_map(|l| l.strip_prefix("class "))?.parse().ok()?;
    let a = text.find("scenario\n")? + "scenario\n".len();
    let b = text.find("end-scenario\n")?;
    let scn = t.from_text(&text[a..b])?;
    let spec = SchedSpec::from_text(&text[b..])?;
    Some((prop, class, Case { scn, spec }))
}
