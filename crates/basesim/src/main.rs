//! Deterministic simulation of poseidon-base under concurrent callers (properties C01-C05).
mod ops;
mod scn;

use ops::*;
use scn::{Cal, Scn};
use simrt::json::Obj;
use simrt::runner::*;
use simrt::*;
use std::io::Write;

const V_WRONG: u32 = V_USER;
const V_PANIC: u32 = V_USER + 1;
const V_PARAMS: u32 = V_USER + 2;
const V_TRAITS: u32 = V_USER + 3;

const U_OPS: usize = USER_STAT + 16;
const U_INJ_PANIC: usize = USER_STAT;
const U_REFUSED: usize = USER_STAT + 1;
const U_REENTER: usize = USER_STAT + 2;
const U_YIELD: usize = USER_STAT + 3;
const U_EXIT: usize = USER_STAT + 4;
const U_WAVE: usize = USER_STAT + 5;
const U_COLD: usize = USER_STAT + 17;
const U_KIND: usize = USER_STAT + 20;

struct Base {
    cal: Cal,
}

fn reenter() {
    let x = refmodel::vals::val(3);
    let y = refmodel::vals::val(4);
    let d = refmodel::vals::val(5);
    let got = basework::hash_dom(x, y, d);
    if got != refmodel::fr::hash2([x, y], d) {
        fail(V_WRONG, &format!("a nested hash_with_domain call returned {got:?}"));
    }
}

impl Base {
    fn budget(&self, o: &Op, cold: bool, stalls: u64) -> u64 {
        40 * self.cal.op(o) + 3_000_000 + if cold || matches!(o.k, K::Gt | K::Ps | K::Wd | K::Pc | K::Pp | K::S2 | K::Sm | K::Sc | K::Sp) { 40 * self.cal.first + 2 * stalls } else { 0 }
    }

    fn one(&self, o: &Op, idx: i64, w: &World, budget: u64) {
        let p = prepare(o);
        let mut shape = None;
        if let Some((n, a)) = o.hook {
            basework::simtypes::arm(n, a);
        }
        stat(U_OPS, 1);
        stat(U_KIND + o.k as usize, 1);
        op_begin(idx, budget, o.fault);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(o, &p, w, &mut shape)));
        let steps = op_end();
        let fired = basework::simtypes::disarm();
        let armed_panic = matches!(o.hook, Some((_, basework::simtypes::Action::Panic)));
        if fired > 0 {
            match o.hook.unwrap().1 {
                basework::simtypes::Action::Panic => stat(U_INJ_PANIC, 1),
                basework::simtypes::Action::Reenter => stat(U_REENTER, 1),
                basework::simtypes::Action::Yield => stat(U_YIELD, 1),
                _ => {}
            }
        }
        log(steps);
        let who = || format!("thread {} operation {idx} [{}] {}", my_tid(), o.to_text(), o.k.name());
        match r {
            Err(e) => {
                if o.k == K::Bad {
                    stat(U_REFUSED, 1);
                } else if !(armed_panic && fired > 0) {
                    fail(V_PANIC, &format!("{} panicked: {}", who(), panic_text(&e)));
                }
            }
            Ok(out) => {
                log_out(&out);
                if let Out::Seen(k, s) = &out {
                    if let Err(m) = judge_seen(*k, s, w) {
                        fail(V_PARAMS, &format!("{}: {m}", who()));
                    }
                }
                if armed_panic && fired > 0 {
                    return;
                }
                if let Some(want) = expect(o, shape) {
                    if let Some(m) = differ(&out, &want) {
                        fail(V_WRONG, &format!("{} {m}", who()));
                    }
                }
            }
        }
    }
}

/// what a caller does when its thread ends
struct AtExit(std::cell::RefCell<Option<Box<dyn FnOnce()>>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
thread_local! {
    static FIRST: AtExit = const { AtExit(std::cell::RefCell::new(None)) };
    static LAST: AtExit = const { AtExit(std::cell::RefCell::new(None)) };
}

impl Target for Base {
    type Scn = Scn;
    fn to_text(&self, s: &Scn) -> String {
        if s.threads.iter().map(|t| t.len()).sum::<usize>() > 400 {
            // kept short for samples; soak scenarios replay from their seed
            let mut t = Scn { threads: s.threads.iter().map(|v| v[..v.len().min(3)].to_vec()).collect(), ..s.clone() }.to_text();
            t.push_str(&format!("# ... {} operations in all\n", s.threads.iter().map(|t| t.len()).sum::<usize>()));
            return t;
        }
        s.to_text()
    }
    fn from_text(&self, t: &str) -> Option<Scn> {
        Scn::from_text(t)
    }
    fn env(&self, s: &Scn) -> (i64, i64, bool) {
        (s.cpus, s.cpus, false)
    }
    fn warm(&self, s: &Scn) -> bool {
        s.profile.contains("warm")
    }
    fn prewarm(&self) {
        let w = World::new();
        for o in scn::standard_warm_up() {
            let p = prepare(&o);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&o, &p, &w, &mut None)));
        }
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        s.shrink()
    }
    fn body(&self, s: &Scn) {
        let world: &'static World = Box::leak(Box::new(World::new()));
        let scn: &'static Scn = Box::leak(Box::new(s.clone()));
        let this: &'static Base = unsafe { &*(self as *const Base) };
        let stalls: u64 = s
            .threads
            .iter()
            .flatten()
            .map(|o| match o.fault {
                Some(OpFault { kind: FaultKind::Stall(k), .. }) => k,
                _ => 0,
            })
            .sum::<u64>()
            + (1 << 22);
        let warm = s.profile.contains("warm");
        stat(U_COLD, (!warm) as u64);
        let total: u64 = s.threads.iter().flatten().chain(&s.warm).chain(&s.post).map(|o| self.cal.op(o)).sum();
        run_budget(200 * total + 400 * self.cal.first + 4 * stalls + 400_000_000);
        if s.profile.starts_with("C05") {
            let (send, sync) = basework::handle_traits();
            if !send || !sync {
                fail(V_TRAITS, &format!("hasher handles can no longer be {}", if send { "shared between threads (Sync)" } else { "sent to another thread (Send)" }));
            }
        }
        for (i, o) in s.warm.iter().enumerate() {
            self.one(o, 100_000 + i as i64, world, self.budget(o, true, stalls));
        }
        let n = scn.threads.len();
        for wave in (0..n).step_by(if s.wave == 0 { n.max(1) } else { s.wave }) {
            let mut hs = vec![];
            let mut at = vec![];
            stat(U_WAVE, (wave > 0) as u64);
            for (t, ops) in scn.threads.iter().enumerate().skip(wave).take(if s.wave == 0 { n } else { s.wave }) {
                at.push(thread_count());
                let h = std::thread::Builder::new().spawn(move || {
                    let run = move |exit: u8| {
                        for (j, o) in ops.iter().enumerate().filter(|(_, o)| o.exit == exit) {
                            stat(U_EXIT, (exit > 0) as u64);
                            this.one(o, (t * 1000 + j) as i64, world, this.budget(o, !warm, stalls));
                        }
                    };
                    if ops.iter().any(|o| o.exit == 1) {
                        FIRST.with(|g| g.0.replace(Some(Box::new(move || run(1)))));
                    }
                    run(0);
                    if ops.iter().any(|o| o.exit == 2) {
                        LAST.with(|g| g.0.replace(Some(Box::new(move || run(2)))));
                    }
                });
                hs.push(h.expect("thread"));
            }
            wait_all();
            for (h, t) in hs.into_iter().zip(at) {
                if abandoned(t) {
                    std::mem::forget(h);
                } else {
                    if let Err(e) = h.join() {
                        harness_error(&format!("a caller thread of the harness panicked: {}", panic_text(&e)));
                    }
                }
            }
        }
        for (i, o) in s.post.iter().enumerate() {
            self.one(o, 200_000 + i as i64, world, self.budget(o, !warm, stalls));
        }
    }
}

/// Steps of every operation kind, alone, on the current tree.
struct Calibrate;
impl Target for Calibrate {
    type Scn = ();
    fn to_text(&self, _: &()) -> String {
        String::new()
    }
    fn from_text(&self, _: &str) -> Option<()> {
        Some(())
    }
    fn env(&self, _: &()) -> (i64, i64, bool) {
        (8, 8, false)
    }
    fn shrink(&self, _: &()) -> Vec<()> {
        vec![]
    }
    fn body(&self, _: &()) {
        let w = World::new();
        let sample: Vec<Op> = [
            "gt 0", "gt 10", "gt 13", "h2 3 4", "hd 3 4 5", "hm 0 0 0 3 4 5 6", "hl 64 9 0 0 0", "cl 3 4 5", "ci 0 3 4 5", "vl 0 1 3 4 5",
            "pf 0 3 4 5", "ps 0 3 4 5", "wd 5 0 1 3 4 5", "s2 3 4 5", "sm 0 0 0 3 4 5", "sc 3 4 5", "sp 3 4 5", "pc 3 4 5", "pp 1 3 4 5", "bs",
            "bad 2 4", "ob 0 0", "cp 0 1", "up 0 3 4 5", "uh 0 0 0 3 4 5 6 7", "db 0", "mv 0 0 0 3 4 5 6 7", "dr 0",
        ]
        .iter()
        .map(|t| Op::from_words(&t.split_whitespace().collect::<Vec<_>>()).unwrap())
        .collect();
        let mut first = 0;
        let mut block = vec![0u64; KINDS.len()];
        for round in 0..2 {
            for o in &sample {
                let p = prepare(o);
                op_begin(0, u64::MAX / 2, None);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(o, &p, &w, &mut None)));
                let n = op_end();
                if round == 0 {
                    first += n;
                } else {
                    let b = &mut block[o.k as usize];
                    *b = (*b).max(n / o.blocks() + 1);
                }
            }
        }
        let mut s = format!("{first}");
        for b in block {
            s.push_str(&format!(" {b}"));
        }
        note(&s);
    }
}

fn calibrate() -> (Cal, Outcome) {
    let shm = new_shm();
    let o = run_case(&Calibrate, &Case { scn: (), spec: SchedSpec::seq() }, shm);
    let v: Vec<u64> = o.note.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    unsafe {
        libc_unmap(shm);
    }
    if o.status == ST_OK && v.len() == KINDS.len() + 1 {
        (Cal { first: v[0], block: v[1..].to_vec() }, o)
    } else {
        (Cal { first: 3_000_000, block: vec![50_000; KINDS.len()] }, o)
    }
}
unsafe fn libc_unmap(_: *mut Shm) {}

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}

fn main() {
    no_aslr();
    if std::env::var_os("SIMRT_LOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let r = std::panic::catch_unwind(real_main);
    match r {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("harness error: {}", panic_text(&e));
            std::process::exit(2);
        }
    }
}

fn real_main() -> i32 {
    simrt::interpose::anchor();
    if let Err(e) = refmodel::self_check() {
        eprintln!("harness error: {e}");
        return 2;
    }
    warm_reference();
    basework::simtypes::set_reenter(reenter);
    let (cal, cal_out) = calibrate();
    let t = Base { cal };
    if let Some(f) = arg("--replay") {
        return replay(&t, &f);
    }
    let property = arg("--property").expect("--property");
    let tier = arg("--tier").unwrap_or("quick".into());
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let (runs, cap) = match arg("--runs").and_then(|s| s.parse().ok()) {
        Some(n) => (n, 100_000.0),
        None if thorough => (2_000_000, 780.0),
        None => (quick_runs(&property), 240.0),
    };
    let cap = arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(cap);
    let replays = arg("--replays").unwrap_or("/verif/replays".into());
    println!("{property}: seed {seed}, {runs} runs, calibration: cold start {} steps, hash_with_domain {} steps", t.cal.first, 2 * t.cal.block[K::Hd as usize]);
    if cal_out.status != ST_OK {
        println!("calibration run did not finish: {}", cal_out.msg);
    }
    let gen = |s: u64, i: u64| {
        let (scn, spec) = scn::generate(&property, s, i, thorough, &t.cal);
        Case { scn, spec }
    };
    let base = rng::mix(seed) ^ rng::mix(property.bytes().fold(0u64, |h, b| h * 257 + b as u64));
    let sum = explore(&t, &gen, base, runs, cap);
    let mut code = 0;
    if let Some(i) = sum.first_violation {
        code = 1;
        let case = gen(run_seed(base, i), i);
        let shm = new_shm();
        let mut o = Outcome::default();
        for _ in 0..4 {
            o = run_case(&t, &case, shm);
            if o.status == ST_VIOLATION {
                break;
            }
        }
        println!("run {i} (seed {}): {}", run_seed(base, i), o.msg);
        let big = case.scn.threads.iter().map(|t| t.len()).sum::<usize>() > 400;
        let (mc, mo) = minimise(&t, &case, &o, if big { 240.0 } else { 60.0 });
        std::fs::create_dir_all(&replays).ok();
        let path = format!("{replays}/{property}-{}-{i}.replay", seed);
        let mut text = replay_text(&t, &property, &mc, &mo);
        if mc.scn.threads.iter().map(|t| t.len()).sum::<usize>() > 400 {
            text = format!("property {property}\nclass {}\n# {}\nseeded {} {} {}\n", mo.code, mo.msg, run_seed(base, i), i, thorough as u8);
        }
        std::fs::write(&path, text).expect("replay file");
        // the file itself must fail in a fresh process
        let st = std::process::Command::new("/proc/self/exe").args(["--replay", &path]).env_remove("SIMRT_ASLR").stdout(std::process::Stdio::null()).status();
        println!("minimised: {} (replayed in a fresh process: {})", mo.msg, if st.map_or(false, |s| s.code() == Some(1)) { "fails the same way" } else { "DID NOT FAIL" });
        println!("VIOLATION property={property} replay={path}");
    }
    evidence(&property, &tier, seed, &t, &sum, code);
    println!(
        "{property}: {} runs in {:.1} s ({:.0} runs/hour), {} distinct interleavings, {} non-trivial, edges {}/{}, determinism re-runs {} differing {}, harness trouble {}",
        sum.runs, sum.wall_s, sum.runs as f64 * 3600.0 / sum.wall_s, sum.distinct, sum.distinct_nontrivial, sum.edges_hit, sum.edges_total, sum.redo, sum.redo_diff, sum.harness
    );
    std::io::stdout().flush().ok();
    if code == 0 && sum.harness > 0 && sum.harness * 50 > sum.runs {
        eprintln!("harness error: {}", sum.harness_msg);
        return 2;
    }
    code
}

fn quick_runs(p: &str) -> u64 {
    match p {
        "C01" => 8_000,
        "C02" => 7_000,
        "C03" => 15_000,
        "C04" => 18_000,
        _ => 15_000,
    }
}

fn replay(t: &Base, f: &str) -> i32 {
    let text = std::fs::read_to_string(f).expect("replay file");
    let prop = text.lines().find_map(|l| l.strip_prefix("property ")).expect("property").to_string();
    let case = if let Some(l) = text.lines().find_map(|l| l.strip_prefix("seeded ")) {
        let w: Vec<u64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let (scn, spec) = scn::generate(&prop, w[0], w[1], w[2] == 1, &t.cal);
        Case { scn, spec }
    } else {
        parse_replay(t, &text).expect("replay format").2
    };
    let shm = new_shm();
    let o = run_case(t, &case, shm);
    if o.status == ST_VIOLATION {
        println!("{}", o.msg);
        println!("VIOLATION property={prop} replay={f}");
        1
    } else {
        println!("the replayed run holds: {}", o.msg);
        if o.status == ST_OK { 0 } else { 2 }
    }
}

fn evidence(property: &str, tier: &str, seed: u64, t: &Base, s: &Summary, viol: i32) {
    let out = arg("--evidence").unwrap_or(format!("/verif/evidence/{property}.json"));
    let mut faults = Obj::new();
    for (n, i) in [
        ("thread stalled inside a call", S_STALL),
        ("thread stopped for ever inside a call", S_ABANDON),
        ("spurious futex wake-up", S_SPURIOUS),
        ("interrupted futex wait (EINTR)", S_EINTR),
        ("panic injected in caller code inside a call", U_INJ_PANIC),
        ("refused call (bad arguments)", U_REFUSED),
        ("nested call from caller code inside a call", U_REENTER),
        ("yield from caller code inside a call", U_YIELD),
        ("call made while the thread ends", U_EXIT),
        ("threads started after others have ended", U_WAVE),
    ] {
        faults.push(n, format!("{{\"injected\": {}, \"runs\": {}}}", s.stats[i], s.runs_with[i]));
    }
    let mut kinds = Obj::new();
    for (k, _, n) in KINDS {
        kinds.push(n, s.stats[U_KIND + *k as usize].to_string());
    }
    let cov = Obj::new()
        .num("evaluations", s.runs)
        .num("distinct_nontrivial", s.distinct_nontrivial)
        .str("rule", "one evaluation = one simulated process (fork of an untouched zygote) executing one generated scenario of library calls under one seeded schedule; distinct = different scenario or different sequence of scheduling and fault decisions (hash); non-trivial = at least one preemption in the middle of a thread's work or at least one injected fault")
        .list("samples", &s.samples)
        .num("distinct_interleavings", s.distinct)
        .raw("faults_injected", faults.render())
        .raw("operations", kinds.render())
        .num("operations_total", s.stats[U_OPS])
        .num("cold_process_runs", s.runs_with[U_COLD])
        .num("scheduler_steps", s.stats[S_STEPS])
        .num("context_switches", s.stats[S_SWITCH])
        .num("preemptions", s.stats[S_PREEMPT])
        .num("preemptions_directed_at_conflicting_accesses", s.stats[S_PREEMPT_HOT])
        .num("conflicting_accesses_seen", s.stats[S_CONFLICT])
        .num("futex_waits", s.stats[S_FUTEXWAIT])
        .num("threads_simulated", s.stats[S_THREADS])
        .float("simulated_seconds", s.ticks as f64 * NS_PER_STEP as f64 / 1e9)
        .float("runs_per_hour", s.runs as f64 * 3600.0 / s.wall_s)
        .float("seeds_per_hour", s.runs as f64 * 3600.0 / s.wall_s)
        .num("basic_block_edges_reached", s.edges_hit)
        .num("basic_block_edges_instrumented", s.edges_total)
        .num("determinism_rechecks", s.redo)
        .num("determinism_differences", s.redo_diff)
        .num("harness_troubles", s.harness)
        .num("worker_processes", s.workers as u64)
        .raw("stopped_by_time_cap", s.timed_out.to_string())
        .num("calibrated_cold_start_steps", t.cal.first)
        .list("real_components", &["poseidon-base (all of it, built from /repo's working tree)", "once_cell, lazy_static, std synchronisation", "OS threads, thread-local storage, unwinding", "halo2curves field arithmetic"].map(String::from))
        .list("simulated_components", &["thread scheduling", "futex blocking and wake-up", "sleep, clock, entropy, CPU count", "caller-side field, specification and domain types"].map(String::from))
        .render();
    let o = Obj::new()
        .str("property", property)
        .str("tier", tier)
        .num("seed", seed)
        .str("level", "exploration")
        .raw("coverage", cov)
        .list("assumptions", &["sequentially consistent interleaving at basic-block, load and store granularity (no weak-memory reordering)", "the reference model (checked against a published vector) and halo2curves arithmetic are right"].map(String::from))
        .float("wall_s", s.wall_s)
        .num("violations", viol as u64)
        .render();
    if let Some(d) = std::path::Path::new(&out).parent() {
        std::fs::create_dir_all(d).ok();
    }
    std::fs::write(&out, o + "\n").expect("evidence file");
}
