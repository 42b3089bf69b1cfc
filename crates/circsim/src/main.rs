//! Deterministic simulation of poseidon-circuit over a simulated backend (properties C06-C13).
mod byz;
mod model;
mod poly;
mod props;
mod scn;
mod variant;

use props::*;
use scn::Scn;
use simrt::json::Obj;
use simrt::runner::*;
use simrt::*;
use std::io::Write;

struct Circ {
    sz: Sizes,
}

impl Target for Circ {
    type Scn = Scn;
    fn to_text(&self, s: &Scn) -> String {
        s.to_text()
    }
    fn from_text(&self, t: &str) -> Option<Scn> {
        Scn::from_text(t)
    }
    fn env(&self, s: &Scn) -> (i64, i64, bool) {
        (s.cpus, s.alt, s.flip)
    }
    fn warm(&self, s: &Scn) -> bool {
        s.warm
    }
    fn prewarm(&self) {
        props::prewarm()
    }
    fn shrink(&self, s: &Scn) -> Vec<Scn> {
        s.shrink()
    }
    fn body(&self, s: &Scn) {
        let s: &'static Scn = Box::leak(Box::new(s.clone()));
        let loads = s.loads.len() as u64 * 3 + 1;
        let perms = s.calcs + s.words.len();
        let cost = loads * (self.sz.cost(false, s.chip, perms) + self.sz.cost(true, s.chip, perms));
        run_budget(100 * cost + (1 << 30));
        props::run(&Ctx { s, sz: &self.sz });
    }
}

struct Measure;
impl Target for Measure {
    type Scn = ();
    fn to_text(&self, _: &()) -> String {
        String::new()
    }
    fn from_text(&self, _: &str) -> Option<()> {
        Some(())
    }
    fn env(&self, _: &()) -> (i64, i64, bool) {
        (8, 8, false)
    }
    fn shrink(&self, _: &()) -> Vec<()> {
        vec![]
    }
    fn body(&self, _: &()) {
        note(&measure());
    }
}

fn calibrate() -> Sizes {
    let o = run_case(&Measure, &Case { scn: (), spec: SchedSpec::seq() }, new_shm());
    let v: Vec<u64> = o.note.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let mut z = Sizes::default_sizes();
    if o.status == ST_OK && v.len() == 16 {
        for (i, c) in v.chunks(4).enumerate() {
            let (p, ch) = (i / 2, i % 2);
            if c[1] > 0 {
                z.rows[p][ch] = (c[0] as usize, c[1] as usize);
                z.steps[p][ch] = (c[2], c[3]);
            }
        }
    } else {
        println!("calibration run did not finish: {}", o.msg);
    }
    z
}

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}

fn main() {
    no_aslr();
    if std::env::var_os("SIMRT_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match std::panic::catch_unwind(real_main) {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("harness error: {}", panic_text(&e));
            std::process::exit(2);
        }
    }
}

fn real_main() -> i32 {
    simrt::interpose::anchor();
    if let Err(e) = refmodel::self_check() {
        eprintln!("harness error: {e}");
        return 2;
    }
    warm_reference();
    let t = Circ { sz: calibrate() };
    if let Some(f) = arg("--replay") {
        return replay(&t, &f);
    }
    let property = arg("--property").expect("--property");
    let tier = arg("--tier").unwrap_or("quick".into());
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let (runs, cap) = match arg("--runs").and_then(|s| s.parse().ok()) {
        Some(n) => (n, 100_000.0),
        None if thorough => (20_000_000, 780.0),
        None => (quick_runs(&property), 240.0),
    };
    let cap = arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(cap);
    let replays = arg("--replays").unwrap_or("/verif/replays".into());
    println!("{property}: seed {seed}, {runs} runs, calibration: {:?}", t.sz);
    let gen = |s: u64, i: u64| {
        let (scn, spec) = scn::generate(&property, s, i, thorough);
        Case { scn, spec }
    };
    let base = rng::mix(seed) ^ rng::mix(property.bytes().fold(0u64, |h, b| h * 257 + b as u64));
    if let Some(i) = arg("--show").and_then(|s| s.parse().ok()) {
        let c = gen(run_seed(base, i), i);
        println!("{}{}", c.scn.to_text(), c.spec.to_text());
        return 0;
    }
    let sum = explore(&t, &gen, base, runs, cap);
    let mut code = 0;
    if let Some(i) = sum.first_violation {
        code = 1;
        let case = gen(run_seed(base, i), i);
        let shm = new_shm();
        let mut o = Outcome::default();
        for _ in 0..4 {
            o = run_case(&t, &case, shm);
            if o.status == ST_VIOLATION {
                break;
            }
        }
        println!("run {i} (seed {}): {}", run_seed(base, i), o.msg);
        let (mc, mo) = minimise(&t, &case, &o, 60.0);
        std::fs::create_dir_all(&replays).ok();
        let path = format!("{replays}/{property}-{seed}-{i}.replay");
        std::fs::write(&path, replay_text(&t, &property, &mc, &mo)).expect("replay file");
        let st = std::process::Command::new("/proc/self/exe").args(["--replay", &path]).env_remove("SIMRT_ASLR").stdout(std::process::Stdio::null()).status();
        println!("minimised: {} (replayed in a fresh process: {})", mo.msg, if st.map_or(false, |s| s.code() == Some(1)) { "fails the same way" } else { "DID NOT FAIL" });
        println!("VIOLATION property={property} replay={path}");
    }
    evidence(&property, &tier, seed, &t, &sum, code);
    println!(
        "{property}: {} runs in {:.1} s ({:.0} runs/hour), {} distinct interleavings, {} non-trivial, edges {}/{}, determinism re-runs {} differing {}, harness trouble {} {}",
        sum.runs, sum.wall_s, sum.runs as f64 * 3600.0 / sum.wall_s, sum.distinct, sum.distinct_nontrivial, sum.edges_hit, sum.edges_total, sum.redo, sum.redo_diff, sum.harness, sum.harness_msg
    );
    std::io::stdout().flush().ok();
    if code == 0 && sum.harness > 0 && sum.harness * 50 > sum.runs {
        eprintln!("harness error: {}", sum.harness_msg);
        return 2;
    }
    code
}

fn quick_runs(p: &str) -> u64 {
    match p {
        "C06" => 20_000,
        "C12" => 200_000,
        "C09" => 7_000,
        "C10" => 16_000,
        _ => 10_000,
    }
}

fn replay(t: &Circ, f: &str) -> i32 {
    let text = std::fs::read_to_string(f).expect("replay file");
    let prop = text.lines().find_map(|l| l.strip_prefix("property ")).expect("property").to_string();
    let case = parse_replay(t, &text).expect("replay format").2;
    let o = run_case(t, &case, new_shm());
    if o.status == ST_VIOLATION {
        println!("{}", o.msg);
        println!("VIOLATION property={prop} replay={f}");
        1
    } else {
        println!("the replayed run holds: {}", o.msg);
        if o.status == ST_OK { 0 } else { 2 }
    }
}

fn evidence(property: &str, tier: &str, seed: u64, t: &Circ, s: &Summary, viol: i32) {
    let out = arg("--evidence").unwrap_or(format!("/verif/evidence/{property}.json"));
    let mut faults = Obj::new();
    for (n, i) in [
        ("worker thread stalled", S_STALL),
        ("spurious futex wake-up", S_SPURIOUS),
        ("interrupted futex wait (EINTR)", S_EINTR),
        ("clock jump", S_CLOCKJUMP),
        ("backend operation failed", U_BACKEND),
        ("too few rows", U_SHORT),
        ("caller's iterator panicked", U_SRC),
        ("stored table entry altered", U_ALTER),
        ("exposed witness cell forged", U_FORGE),
        ("CPU count unknown or changing", U_FLIP),
        ("odd value of the mode variable", U_ENV),
        ("table or call refused", U_REFUSED),
    ] {
        faults.push(n, format!("{{\"injected\": {}, \"runs\": {}}}", s.stats[i], s.runs_with[i]));
    }
    let mut kinds = Obj::new();
    for (i, n) in ["region", "regions", "table", "fork", "merge", "advice", "fixed", "selector", "copy", "fill", "any"].iter().enumerate() {
        kinds.push(n, s.stats[U_KIND + i].to_string());
    }
    let mut gadgets = Obj::new();
    for (i, n) in [(0, "Septidon"), (1, "Pow5"), (2, "Pow5 width 2"), (3, "Pow5 width 4"), (4, "Pow5 width 5"), (9, "Pow5 over Pallas")] {
        gadgets.push(n, s.stats[U_GADGET + i].to_string());
    }
    let cov = Obj::new()
        .num("evaluations", s.runs)
        .num("distinct_nontrivial", s.distinct_nontrivial)
        .str("rule", "one evaluation = one simulated process (fork) executing one generated scenario (table, configuration, loads or builder calls or gadget uses, faults) under one seeded schedule; distinct = different scenario or different sequence of scheduling and fault decisions (hash); non-trivial = at least one preemption in the middle of a thread's work or at least one injected fault")
        .list("samples", &s.samples)
        .num("distinct_interleavings", s.distinct)
        .raw("faults_injected", faults.render())
        .raw("backend_faults_by_operation", kinds.render())
        .raw("gadget_runs", gadgets.render())
        .num("loads", s.stats[U_LOADS])
        .num("parallel_loads", s.stats[U_PAR])
        .num("concurrent_loads", s.stats[U_CONC])
        .num("retries_after_failure", s.stats[U_RETRY])
        .raw("loads_by_backend_mode", Obj::new().num("check", s.stats[U_MODE]).num("key generation", s.stats[U_MODE + 1]).num("prover", s.stats[U_MODE + 2]).render())
        .num("backend_workers_started", s.stats[U_WORKERS])
        .num("backend_operations", s.stats[U_OPS])
        .num("builder_calls", s.stats[U_CALLS])
        .num("forgery_attempts", s.stats[U_ATTACK])
        .num("forgery_attempts_accepted_by_the_circuit", s.stats[U_ACCEPT])
        .num("accepted_with_altered_inputs", s.stats[U_ACCEPT_ALT])
        .num("guessed_cells", s.stats[U_GUESS])
        .num("cells_left_free_in_honest_derivations", s.stats[U_FREE])
        .num("witness_variables_under_attack", s.stats[U_VARS])
        .num("scheduler_steps", s.stats[S_STEPS])
        .num("context_switches", s.stats[S_SWITCH])
        .num("preemptions", s.stats[S_PREEMPT])
        .num("preemptions_directed_at_conflicting_accesses", s.stats[S_PREEMPT_HOT])
        .num("conflicting_accesses_seen", s.stats[S_CONFLICT])
        .num("cpu_count_queries", s.stats[S_CPUQ])
        .num("threads_simulated", s.stats[S_THREADS])
        .float("simulated_seconds", s.ticks as f64 * NS_PER_STEP as f64 / 1e9)
        .float("runs_per_hour", s.runs as f64 * 3600.0 / s.wall_s)
        .float("seeds_per_hour", s.runs as f64 * 3600.0 / s.wall_s)
        .num("basic_block_edges_reached", s.edges_hit)
        .num("basic_block_edges_instrumented", s.edges_total)
        .num("determinism_rechecks", s.redo)
        .num("determinism_differences", s.redo_diff)
        .num("harness_troubles", s.harness)
        .num("worker_processes", s.workers as u64)
        .raw("stopped_by_time_cap", s.timed_out.to_string())
        .str("calibration", &format!("{:?}", t.sz))
        .list("real_components", &["poseidon-circuit and poseidon-base (all of both, built from /repo's working tree, once with and once without parallel synthesis)", "std threads, scoped threads, synchronisation, environment variables", "halo2curves field arithmetic"].map(String::from))
        .list("simulated_components", &["the proof system's backend: constraint system, layouter, regions, fork/merge workers, key-generation and prover views (crates/halo2_shim; halo2_proofs itself is not available offline)", "thread scheduling, futex blocking, clock, CPU count", "the byzantine prover"].map(String::from))
        .render();
    let o = Obj::new()
        .str("property", property)
        .str("tier", tier)
        .num("seed", seed)
        .str("level", "exploration")
        .raw("coverage", cov)
        .list("assumptions", &["the simulated backend behaves as halo2_proofs does at the API the library uses", "a witness that satisfies every gate, lookup and equality constraint is what a proof proves (soundness of the proof system)", "sequentially consistent interleaving at basic-block, load and store granularity", "the reference model (checked against a published vector) and halo2curves arithmetic are right"].map(String::from))
        .float("wall_s", s.wall_s)
        .num("violations", viol as u64)
        .render();
    if let Some(d) = std::path::Path::new(&out).parent() {
        std::fs::create_dir_all(d).ok();
    }
    std::fs::write(&out, o + "\n").expect("evidence file");
}
