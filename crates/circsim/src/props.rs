//! Running a scenario and judging it, one function per property.
use crate::byz::{self, End, Prover};
use crate::model::{self, Checks, Entry, Row};
use crate::poly::{Cells, Prog};
use crate::scn::*;
use crate::variant::{self, conf, gad, lib, Cached, Io, Load as LoadFn, Raw};
use ff::{Field, FromUniformBytes, PrimeField};
use halo2_proofs::circuit::Cell;
use halo2_proofs::plonk::{Any, ConstraintSystem, Error};
use halo2_proofs::sim::*;
use halo2curves::bn256::Fr;
use halo2curves::pasta::Fp;
use refmodel::vals::val;
use simrt::runner::panic_text;
use simrt::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const V_LOAD: u32 = V_USER;
pub const V_DIFF: u32 = V_USER + 1;
pub const V_CIRCUIT: u32 = V_USER + 2;
pub const V_ROWS: u32 = V_USER + 3;
pub const V_FORGED: u32 = V_USER + 4;
pub const V_SILENT: u32 = V_USER + 5;
pub const V_TABLE: u32 = V_USER + 6;
pub const V_CONFIG: u32 = V_USER + 7;
pub const V_PANIC: u32 = V_USER + 8;

pub const U_BACKEND: usize = USER_STAT;
pub const U_SHORT: usize = USER_STAT + 1;
pub const U_SRC: usize = USER_STAT + 2;
pub const U_ALTER: usize = USER_STAT + 3;
pub const U_FORGE: usize = USER_STAT + 4;
pub const U_FLIP: usize = USER_STAT + 5;
pub const U_ENV: usize = USER_STAT + 6;
pub const U_REFUSED: usize = USER_STAT + 7;
pub const U_LOADS: usize = USER_STAT + 16;
pub const U_PAR: usize = USER_STAT + 17;
pub const U_CONC: usize = USER_STAT + 18;
pub const U_MODE: usize = USER_STAT + 19; // ..21
pub const U_WORKERS: usize = USER_STAT + 22;
pub const U_OPS: usize = USER_STAT + 23;
pub const U_ROWS: usize = USER_STAT + 24;
pub const U_ATTACK: usize = USER_STAT + 25;
pub const U_ACCEPT: usize = USER_STAT + 26;
pub const U_ACCEPT_ALT: usize = USER_STAT + 27;
pub const U_GUESS: usize = USER_STAT + 28;
pub const U_FREE: usize = USER_STAT + 63;
pub const U_VARS: usize = USER_STAT + 29;
pub const U_CALLS: usize = USER_STAT + 30;
pub const U_RETRY: usize = USER_STAT + 31;
pub const U_KIND: usize = USER_STAT + 32; // backend faults by kind, ..42
pub const U_GADGET: usize = USER_STAT + 44; // ..54
pub const U_LAST: usize = USER_STAT + 56;

/// rows a circuit needs: base + per permutation, for [plain][chip]; scheduler steps per row
#[derive(Clone, Debug)]
pub struct Sizes {
    pub rows: [[(usize, usize); 2]; 2],
    pub steps: [[(u64, u64); 2]; 2],
}
impl Sizes {
    pub fn default_sizes() -> Sizes {
        Sizes { rows: [[(1, 8), (1, 38)]; 2], steps: [[(500_000, 200_000), (500_000, 400_000)]; 2] }
    }
    pub fn need(&self, plain: bool, chip: u64, calcs: usize, step: usize) -> usize {
        let (b, p) = self.rows[plain as usize][chip as usize];
        (b + p * calcs).max(1 + calcs).max(step + 1)
    }
    pub fn cost(&self, plain: bool, chip: u64, calcs: usize) -> u64 {
        let (b, p) = self.steps[plain as usize][chip as usize];
        b + p * calcs as u64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Err(String),
    Panic(String),
}
impl Res {
    pub fn ok(&self) -> bool {
        *self == Res::Ok
    }
    pub fn text(&self) -> String {
        match self {
            Res::Ok => "success".into(),
            Res::Err(e) => format!("error {e}"),
            Res::Panic(p) => format!("panic '{p}'"),
        }
    }
}

pub struct Out<F: Field> {
    pub res: Res,
    pub grid: Grid<F>,
    pub counts: [u64; 10],
    pub total: u64,
    pub fired: u64,
    pub io: Vec<(Vec<At>, Vec<At>)>,
}

type At = halo2_proofs::sim::At;

// worker stalls are announced here, because workers are the library's (or backend's) own threads
static mut STALL: Option<(usize, OpFault)> = None;
fn worker_before(i: usize) {
    let f = unsafe { STALL };
    op_begin(i as i64, u64::MAX / 4, f.filter(|(k, _)| *k == i).map(|x| x.1));
}
fn worker_after(_: usize) {
    op_end();
}

pub fn set_env(e: usize) {
    use std::os::unix::ffi::OsStrExt;
    const NAME: &str = "CIRCUIT_ASSIGNMENT_TYPE";
    match e {
        0 => std::env::remove_var(NAME),
        6 => std::env::set_var(NAME, std::ffi::OsStr::from_bytes(b"serial\xff")),
        i => std::env::set_var(NAME, ENVS[i]),
    }
}

pub fn mode(m: u64) -> Mode {
    match m {
        0 => Mode::Check,
        1 => Mode::Keygen,
        _ => Mode::Prove,
    }
}

pub fn opts(l: &Load, k: u32, used: usize) -> Opts {
    Opts {
        k,
        mode: mode(l.mode),
        pool: l.pool,
        inline: l.inline,
        order: l.order,
        annotate: l.annotate,
        fault: None,
        used,
        point: Some(simrt::sched::point),
        worker: Some((worker_before, worker_after)),
    }
}
fn quiet_opts(m: u64, k: u32) -> Opts {
    let mut o = Opts::new(k);
    o.mode = mode(m);
    o.inline = true;
    o
}

pub fn synth<F: Field>(f: &dyn Fn(&mut SimLayouter<F>) -> Result<Io, Error>, cs: &ConstraintSystem<F>, o: Opts) -> Out<F> {
    let mut l = SimLayouter::new(cs, o);
    let n = l.counters();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut l)));
    let mut io = vec![];
    let res = match r {
        Ok(Ok(x)) => {
            let place = |v: &Vec<Cell>| v.iter().map(|c| l.place(c)).collect::<Vec<_>>();
            io = x.iter().map(|(a, b)| (place(a), place(b))).collect();
            Res::Ok
        }
        Ok(Err(e)) => Res::Err(format!("{e:?}")),
        Err(p) => Res::Panic(panic_text(&p)),
    };
    use std::sync::atomic::Ordering::SeqCst;
    let counts = std::array::from_fn(|i| n.by_kind[i].load(SeqCst));
    stat(U_WORKERS, n.workers.load(SeqCst));
    stat(U_OPS, n.total.load(SeqCst));
    Out { res, counts, total: n.total.load(SeqCst), fired: n.fired.load(SeqCst), grid: l.into_grid(), io }
}
fn load_once(f: LoadFn, cs: &ConstraintSystem<Fr>, o: Opts) -> Out<Fr> {
    synth(&|l| f(l).map(|_| vec![]), cs, o)
}

fn note_load(l: &Load) {
    stat(U_LOADS, 1);
    stat(U_MODE + l.mode as usize, 1);
    stat(U_PAR, !l.serial() as u64);
    stat(U_ENV, (!matches!(l.env, 0..=2)) as u64);
}

pub fn k_for(cs: &ConstraintSystem<Fr>, need: usize) -> u32 {
    let over = cs.blinding_factors() + 1;
    (3..24).find(|k| (1usize << k) >= need + over).unwrap_or(23)
}

pub struct Ctx<'a> {
    pub s: &'a Scn,
    pub sz: &'a Sizes,
}
impl Ctx<'_> {
    fn conf(&self, plain: bool) -> &'static Cached {
        conf(plain, self.s.chip, self.s.step, self.s.shared)
    }
    fn k(&self, plain: bool) -> u32 {
        let c = self.conf(plain);
        k_for(c.conf.cs(), self.sz.need(plain, self.s.chip, self.s.calcs, self.s.step)) + self.s.kx
    }
    fn who(&self, i: usize) -> String {
        let l = &self.s.loads[i];
        format!("load {i} ({}{})", if l.serial() { "serial" } else { "parallel" }, ["", ", key generation", ", prover"][l.mode as usize])
    }

    /// all loads of the scenario, in order, on one chip per build of the library
    fn run_loads(&self, raw: &Raw, used: &dyn Fn(&Load) -> usize) -> Vec<Out<Fr>> {
        let s = self.s;
        let mut out: Vec<Option<Out<Fr>>> = s.loads.iter().map(|_| None).collect();
        for plain in [false, true] {
            let idx: Vec<usize> = (0..s.loads.len()).filter(|i| s.loads[*i].plain == plain).collect();
            if idx.is_empty() {
                continue;
            }
            let c = self.conf(plain);
            let k = self.k(plain);
            c.conf.with(raw, s.calcs, &mut |f| {
                let mut at = 0;
                while at < idx.len() {
                    let i = idx[at];
                    let l = &s.loads[i];
                    set_env(l.env);
                    unsafe { STALL = l.stall };
                    note_load(l);
                    if l.conc && at + 1 < idx.len() {
                        let j = idx[at + 1];
                        note_load(&s.loads[j]);
                        stat(U_CONC, 1);
                        let (oi, oj) = (opts(l, k, used(l)), opts(&s.loads[j], k, used(l)));
                        let cs = c.conf.cs();
                        let (a, b) = together(|| load_once(f, cs, oi), || load_once(f, cs, oj));
                        out[i] = Some(a);
                        out[j] = Some(b);
                        at += 2;
                    } else {
                        out[i] = Some(load_once(f, c.conf.cs(), opts(l, k, used(l))));
                        at += 1;
                    }
                }
            });
        }
        set_env(0);
        out.into_iter().map(|o| o.unwrap()).collect()
    }

    /// the serial build of the same circuit, outside of the simulation
    fn reference(&self, raw: &Raw, m: u64, k: u32) -> Out<Fr> {
        quietly(|| {
            set_env(1);
            let c = self.conf(false);
            let mut o = None;
            c.conf.with(raw, self.s.calcs, &mut |f| o = Some(load_once(f, c.conf.cs(), quiet_opts(m, k))));
            set_env(0);
            o.unwrap()
        })
    }
}

fn together<A: Send, B>(a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B) -> (A, B) {
    std::thread::scope(|s| {
        let h = s.spawn(a);
        let y = b();
        match h.join() {
            Ok(x) => (x, y),
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

// ---------------------------------------------------------------- comparing circuits

fn col_name(kind: &str, c: usize, r: usize) -> String {
    format!("{kind} column {c} row {r}")
}
fn values_differ(kind: &str, a: &[Vec<Option<Fr>>], b: &[Vec<Option<Fr>>]) -> Option<String> {
    for (c, (x, y)) in a.iter().zip(b).enumerate() {
        for (r, (p, q)) in x.iter().zip(y).enumerate() {
            if p.unwrap_or(Fr::ZERO) != q.unwrap_or(Fr::ZERO) {
                return Some(format!("{}: {:?} instead of {:?}", col_name(kind, c, r), p.unwrap_or(Fr::ZERO), q.unwrap_or(Fr::ZERO)));
            }
        }
    }
    None
}
fn key(at: &At) -> (u8, usize, usize) {
    let t = match at.0.column_type {
        Any::Advice(_) => 0,
        Any::Fixed => 1,
        _ => 2,
    };
    (t, at.0.index, at.1)
}
/// every linked cell with the smallest cell of its class
pub fn classes<F: Field>(g: &Grid<F>) -> Vec<((u8, usize, usize), (u8, usize, usize))> {
    let mut cells: Vec<_> = g.copies.iter().flat_map(|(a, b)| [key(a), key(b)]).collect();
    cells.sort();
    cells.dedup();
    let mut par: Vec<usize> = (0..cells.len()).collect();
    let id = |c: &At| cells.binary_search(&key(c)).unwrap();
    fn find(p: &mut Vec<usize>, mut i: usize) -> usize {
        while p[i] != i {
            p[i] = p[p[i]];
            i = p[i];
        }
        i
    }
    for (a, b) in &g.copies {
        let (x, y) = (find(&mut par, id(a)), find(&mut par, id(b)));
        if x != y {
            par[x.max(y)] = x.min(y);
        }
    }
    let mut out = vec![];
    for i in 0..cells.len() {
        let r = find(&mut par, i);
        out.push((cells[i], cells[r]));
    }
    // a cell linked with nothing but itself says nothing
    let alone: std::collections::HashSet<_> = {
        let mut n = std::collections::HashMap::new();
        for (_, r) in &out {
            *n.entry(*r).or_insert(0) += 1;
        }
        n.into_iter().filter(|x| x.1 == 1).map(|x| x.0).collect()
    };
    out.retain(|(_, r)| !alone.contains(r));
    out
}
fn wiring_differs(a: &Grid<Fr>, b: &Grid<Fr>) -> Option<String> {
    let (x, y) = (classes(a), classes(b));
    if x == y {
        return None;
    }
    let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
    Some(format!("equality constraints differ near {:?} / {:?}", x.get(i), y.get(i)))
}
fn selectors_differ(a: &Grid<Fr>, b: &Grid<Fr>) -> Option<String> {
    for (c, (x, y)) in a.selectors.iter().zip(&b.selectors).enumerate() {
        for (r, (p, q)) in x.iter().zip(y).enumerate() {
            if p != q {
                return Some(format!("selector {c} is {} at row {r}", if *p { "on" } else { "off" }));
            }
        }
    }
    None
}
/// how a circuit differs from another one built for the same backend mode
pub fn differ(a: &Grid<Fr>, b: &Grid<Fr>, m: u64) -> Option<String> {
    if (a.n, a.usable) != (b.n, b.usable) {
        return Some("another number of rows".into());
    }
    if m != 1 {
        if let Some(d) = values_differ("advice", &a.advice, &b.advice) {
            return Some(d);
        }
    }
    if m != 2 {
        if let Some(d) = values_differ("fixed", &a.fixed, &b.fixed) {
            return Some(d);
        }
    }
    selectors_differ(a, b).or_else(|| wiring_differs(a, b))
}
/// everything but the witness
fn fixed_differ(a: &Grid<Fr>, b: &Grid<Fr>, m: u64) -> Option<String> {
    if (a.n, a.usable) != (b.n, b.usable) {
        return Some("another number of rows".into());
    }
    if m != 2 {
        if let Some(d) = values_differ("fixed", &a.fixed, &b.fixed) {
            return Some(d);
        }
    }
    selectors_differ(a, b).or_else(|| wiring_differs(a, b))
}

// ---------------------------------------------------------------- C06

pub fn c06(x: &Ctx) {
    let raw = x.s.altered(x.s.build());
    let outs = x.run_loads(&raw, &|_| 0);
    quietly(|| {
        let mut refs: [Option<Out<Fr>>; 3] = [None, None, None];
        for (i, o) in outs.iter().enumerate() {
            let l = &x.s.loads[i];
            // both builds configure alike: the same row budget applies
            let k = x.k(l.plain);
            let r = &mut refs[l.mode as usize];
            if r.is_none() || r.as_ref().unwrap().grid.n != 1 << k {
                *r = Some(x.reference(&raw, l.mode, k));
            }
            let r = r.as_ref().unwrap();
            log(o.res.ok() as u64);
            if o.res.ok() != r.res.ok() {
                fail(V_LOAD, &format!("{} ended with {}, serial loading of the same table with {}", x.who(i), o.res.text(), r.res.text()));
            }
            if !o.res.ok() {
                stat(U_REFUSED, 1);
                continue;
            }
            if let Some(d) = differ(&o.grid, &r.grid, l.mode) {
                fail(V_DIFF, &format!("{} assigns a different circuit than serial loading: {d}", x.who(i)));
            }
        }
    });
}

// ---------------------------------------------------------------- C07

/// the table as the builder calls produce it
fn by_calls(s: &Scn) -> Option<Raw> {
    let b = std::cell::RefCell::new(lib(false).builder(&Raw::default()));
    let plain = Scn { alters: vec![], ..s.clone() }.build();
    let mut at = 0;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = b.borrow_mut();
        for g in &s.groups {
            match g {
                Group::Two { .. } => {
                    let item: &'static ([Fr; 2], Fr, Option<Fr>) = Box::leak(Box::new((plain.inputs[at], plain.domain[at].unwrap_or(Fr::ZERO), plain.checks[at])));
                    b.fixed(&mut std::iter::once(item));
                    at += 1;
                }
                Group::Msg { words, ctrl, .. } => {
                    let n = (words.len() + 1) / 2;
                    let v: &'static [[Fr; 2]] = Box::leak(plain.inputs[at..at + n].to_vec().into_boxed_slice());
                    b.stream(&mut v.iter(), Some(plain.checks[at + n - 1]), *ctrl, s.step);
                    at += n;
                }
            }
        }
    }));
    if r.is_err() {
        return None;
    }
    let raw = b.borrow().raw();
    Some(raw)
}

fn table(s: &Scn) -> Raw {
    let direct = s.build();
    let raw = if s.by_calls { by_calls(s).filter(|r| r.entries() == direct.entries()).unwrap_or(direct) } else { direct };
    s.altered(raw)
}

/// rows of the exposed table: those with q_enable on
fn shown(c: &Cached, cells: &Cells<Fr>) -> Vec<usize> {
    (0..cells.usable).filter(|r| cells.fixed[c.conf.q_enable().index()][*r] == Fr::ONE).collect()
}

pub fn c07(x: &Ctx) {
    let s = x.s;
    let raw = table(s);
    let entries = raw.entries();
    let rows = model::trace(&entries, s.calcs, s.step);
    if entries.len() >= s.calcs || !model::complete(&rows) || model::checks(&rows) != Checks::Match {
        return;
    }
    stat(U_ROWS, entries.len() as u64);
    // how much room each way of loading takes, for tight row budgets
    let used = |l: &Load| -> usize {
        if s.spare < 0 {
            return 0;
        }
        quietly(|| {
            let c = x.conf(l.plain);
            let k = x.k(l.plain);
            set_env(l.env);
            let mut o = None;
            c.conf.with(&raw, s.calcs, &mut |f| o = Some(load_once(f, c.conf.cs(), quiet_opts(0, k))));
            let g = o.unwrap().grid;
            let top = |v: &Vec<Option<Fr>>| v.iter().rposition(|x| x.is_some()).map_or(0, |r| r + 1);
            let need = g.advice.iter().map(top).max().unwrap_or(0);
            g.usable.saturating_sub(need + s.spare as usize)
        })
    };
    let outs = x.run_loads(&raw, &used);
    quietly(|| {
        for (i, o) in outs.iter().enumerate() {
            let l = &s.loads[i];
            if !o.res.ok() {
                fail(V_LOAD, &format!("{}: a well-formed table of {} entries is refused with {}", x.who(i), entries.len(), o.res.text()));
            }
            let c = x.conf(l.plain);
            let mut cells = Cells::of(&o.grid);
            // a real prover blinds the last rows
            let mut r = Rng::new(i as u64 ^ 0x77);
            for col in cells.adv.iter_mut() {
                for v in col[cells.usable..].iter_mut() {
                    *v = byz::random(&mut r);
                }
            }
            if let Some(m) = c.prog.verify(&cells) {
                fail(V_CIRCUIT, &format!("{}: the circuit is not satisfied: {m}", x.who(i)));
            }
            for (a, b) in &o.grid.copies {
                if o.grid.cell(*a) != o.grid.cell(*b) {
                    fail(V_CIRCUIT, &format!("{}: an equality constraint is not satisfied: {a:?} and {b:?}", x.who(i)));
                }
            }
            if let Some(m) = exposed_differ(c, &cells, &rows) {
                fail(V_ROWS, &format!("{}: {m}", x.who(i)));
            }
        }
        // the same digests from the hash library
        if let Some(m) = library_differs(s, &entries, &rows) {
            fail(V_ROWS, &m);
        }
    });
}

fn exposed_differ(c: &Cached, cells: &Cells<Fr>, rows: &[Row]) -> Option<String> {
    let at = shown(c, cells);
    if at.len() != rows.len() {
        return Some(format!("{} rows are exposed, the capacity is {}", at.len(), rows.len()));
    }
    let cols = c.conf.exposed();
    for (j, (r, w)) in at.iter().zip(rows).enumerate() {
        let got = cols.map(|c| cells.adv[c.index()][*r]);
        let want = [w.digest.unwrap(), w.e.inp[0], w.e.inp[1], model::flag(w.e.ctrl), w.e.dom, if w.head { Fr::ONE } else { Fr::ZERO }];
        for k in 0..6 {
            if got[k] != want[k] {
                let n = ["digest", "first input", "second input", "control", "domain", "head flag"][k];
                return Some(format!("row {j} shows {n} {:?} instead of {:?}", got[k], want[k]));
            }
        }
    }
    None
}

fn library_differs(s: &Scn, entries: &[Entry], rows: &[Row]) -> Option<String> {
    let mut i = 0;
    while i < entries.len() {
        let e = &entries[i];
        let plain = i % 2 == 1;
        if rows[i].end {
            let d = if e.ctrl == 0 { lib(plain).two(e.inp, e.dom) } else if e.dom == Fr::ZERO { lib(plain).msg(&e.inp, e.ctrl as u128 * model::DOMAIN) } else { rows[i].digest.unwrap() };
            if rows[i].digest != Some(d) {
                return Some(format!("the hash library gives {d:?} for entry {i}, the circuit {:?}", rows[i].digest));
            }
            i += 1;
        } else {
            let mut j = i;
            while !rows[j].end {
                j += 1;
            }
            let w: Vec<Fr> = entries[i..=j.min(entries.len() - 1)].iter().flat_map(|e| e.inp).collect();
            if entries[i..=j.min(entries.len() - 1)].iter().all(|e| e.dom == Fr::ZERO) && j < entries.len() {
                let d = lib(plain).msg(&w, e.ctrl as u128 * model::DOMAIN);
                if rows[i].digest != Some(d) {
                    return Some(format!("the hash library gives {d:?} for the message at entry {i}, the circuit {:?}", rows[i].digest));
                }
            }
            i = j + 1;
        }
    }
    let _ = s;
    None
}

// ---------------------------------------------------------------- C08

pub fn c08(x: &Ctx) {
    let s = x.s;
    let raw = s.altered(s.build());
    let empty = Raw::default();
    for l in &s.loads {
        // configuring is part of key generation: it has to come out the same every time
        let c = x.conf(l.plain);
        if c.conf.reported() != (c.conf.exposed().map(|c| c.index()), c.conf.exposed()) {
            fail(V_CONFIG, "the configuration reports other table columns than it was given");
        }
    }
    let outs = x.run_loads(&raw, &|_| 0);
    quietly(|| {
        let mut key: Option<(u32, Out<Fr>)> = None;
        for (i, o) in outs.iter().enumerate() {
            let l = &s.loads[i];
            let k = x.k(l.plain);
            if key.as_ref().map_or(true, |x| x.0 != k) {
                let r = x.reference(&empty, 1, k);
                if !r.res.ok() {
                    fail(V_LOAD, &format!("key generation from an empty table ended with {}", r.res.text()));
                }
                key = Some((k, r));
            }
            log(o.res.ok() as u64);
            if !o.res.ok() {
                // a table that is refused proves nothing
                stat(U_REFUSED, 1);
                continue;
            }
            if let Some(d) = fixed_differ(&o.grid, &key.as_ref().unwrap().1.grid, l.mode) {
                fail(V_DIFF, &format!("{} does not fit a key generated from the empty table: {d}", x.who(i)));
            }
        }
        let l = &s.loads[0];
        let c = x.conf(l.plain);
        let again = lib(l.plain).configure(s.chip, s.step, s.shared);
        if let Some(d) = same_config(again.cs(), &c.prog, c.conf.cs()) {
            fail(V_CONFIG, &format!("configuring twice gives different circuits: {d}"));
        }
    });
}

fn same_config(a: &ConstraintSystem<Fr>, p: &Prog<Fr>, b: &ConstraintSystem<Fr>) -> Option<String> {
    let q = crate::poly::compile(a);
    if (a.num_advice_columns, a.num_fixed_columns, a.num_selectors) != (b.num_advice_columns, b.num_fixed_columns, b.num_selectors) {
        return Some("column counts".into());
    }
    if a.blinding_factors() != b.blinding_factors() || a.equality != b.equality {
        return Some("blinding or equality columns".into());
    }
    if q.nodes != p.nodes || q.consts != p.consts || q.polys.len() != p.polys.len() || q.polys.iter().zip(&p.polys).any(|(x, y)| x.root != y.root) {
        return Some("gates".into());
    }
    None
}

// ---------------------------------------------------------------- C11

pub fn c11(x: &Ctx) {
    let s = x.s;
    let raw = s.build();
    for plain in [false, true] {
        let idx: Vec<usize> = (0..s.loads.len()).filter(|i| s.loads[*i].plain == plain).collect();
        if idx.is_empty() {
            continue;
        }
        let c = x.conf(plain);
        let k = x.k(plain);
        c.conf.with(&raw, s.calcs, &mut |f| {
            let cs = c.conf.cs();
            let mut at = 0;
            while at < idx.len() {
                let i = idx[at];
                let l = &s.loads[i];
                set_env(l.env);
                unsafe { STALL = None };
                note_load(l);
                let healthy = quietly(|| {
                    let mut o = opts(l, k, 0);
                    o.point = None;
                    o.worker = None;
                    o.inline = true;
                    load_once(f, cs, o)
                });
                if !healthy.res.ok() {
                    fail(V_LOAD, &format!("{}: a healthy backend gets {}", x.who(i), healthy.res.text()));
                }
                let mut o = opts(l, k, 0);
                if l.short > 0 {
                    let top = |v: &Vec<Option<Fr>>| v.iter().rposition(|x| x.is_some()).map_or(0, |r| r + 1);
                    let g = quietly(|| load_once(f, cs, quiet_opts(0, k)).grid);
                    let need = g.advice.iter().map(top).max().unwrap_or(0);
                    o.used = g.usable + (l.short - 1) % need.max(1) + 1 - need;
                    stat(U_SHORT, 1);
                } else if let Some((kind, nth, sticky, error)) = l.fault {
                    let n = if kind >= 10 { healthy.total } else { healthy.counts[kind] };
                    let (kind, n) = if n == 0 { (10, healthy.total) } else { (kind, n) };
                    o.fault = Some(Plan { kind: OPS.get(kind).copied(), nth: nth % n, sticky, error });
                    stat(U_KIND + kind, 1);
                }
                unsafe { STALL = l.stall };
                let side = l.conc.then(|| opts(l, k, 0));
                let (out, other) = match side {
                    Some(so) => {
                        stat(U_CONC, 1);
                        let (a, b) = together(|| load_once(f, cs, so), || load_once(f, cs, o.clone()));
                        (b, Some(a))
                    }
                    None => (load_once(f, cs, o.clone()), None),
                };
                unsafe { STALL = None };
                let hit = l.short > 0 || out.fired > 0;
                stat(U_BACKEND, out.fired.min(1));
                log(hit as u64);
                let what = || match o.fault {
                    Some(p) => format!("{} operation {} failing", p.kind.map_or("any".into(), |k| format!("{k:?}")), p.nth),
                    None => "too few rows".to_string(),
                };
                match (&out.res, hit) {
                    (Res::Ok, true) => fail(V_SILENT, &format!("{} reports success although the backend failed ({})", x.who(i), what())),
                    (Res::Panic(p), true) => fail(V_PANIC, &format!("{} panics on a backend failure ({}): {p}", x.who(i), what())),
                    (Res::Err(_), true) => {}
                    (Res::Ok, false) => {}
                    (r, false) => fail(V_LOAD, &format!("{}: a healthy backend gets {}", x.who(i), r.text())),
                }
                if let Some(b) = other {
                    if !b.res.ok() {
                        fail(V_LOAD, &format!("{}: a load on a healthy backend, next to the failing one, ends with {}", x.who(i), b.res.text()));
                    }
                    quietly(|| {
                        if let Some(d) = differ(&b.grid, &healthy.grid, l.mode) {
                            fail(V_DIFF, &format!("{}: a load next to the failing one gives another circuit: {d}", x.who(i)));
                        }
                    });
                }
                // again, on a healthy backend
                unsafe { STALL = l.stall };
                let again = load_once(f, cs, opts(l, k, 0));
                unsafe { STALL = None };
                stat(U_RETRY, 1);
                if !again.res.ok() {
                    fail(V_LOAD, &format!("{}: the retry on a healthy backend ends with {} ({})", x.who(i), again.res.text(), what()));
                }
                quietly(|| {
                    if let Some(d) = differ(&again.grid, &healthy.grid, l.mode) {
                        fail(V_DIFF, &format!("{}: the retry does not give the circuit of a first load ({}): {d}", x.who(i), what()));
                    }
                });
                at += 1;
            }
        });
    }
    set_env(0);
}

// ---------------------------------------------------------------- C12

struct Boom;
struct Src<T: 'static> {
    items: &'static [T],
    at: usize,
    boom: Option<usize>,
}
impl<T> Iterator for Src<T> {
    type Item = &'static T;
    fn next(&mut self) -> Option<&'static T> {
        if self.boom == Some(self.at) {
            self.boom = None;
            std::panic::panic_any(Boom);
        }
        self.at += 1;
        self.items.get(self.at - 1)
    }
}
fn src<T: 'static>(v: Vec<T>, boom: &Option<usize>) -> Src<T> {
    Src { items: Box::leak(v.into_boxed_slice()), at: 0, boom: *boom }
}

pub fn c12(x: &Ctx) {
    let s = x.s;
    let mut now = (lib(false).builder(&Raw::default()), Vec::<Entry>::new());
    let mut others: Vec<(Box<dyn variant::Builder>, Vec<Entry>)> = vec![];
    let e = |a: u64, b: u64, ctrl: u64, d: Option<u64>, c: Option<u64>| Entry { inp: [val(a), val(b)], ctrl, dom: d.map_or(Fr::ZERO, val), check: c.map(val) };
    let bs = lib(false).block_size();
    for (i, call) in s.calls.iter().enumerate() {
        stat(U_CALLS, 1);
        let b = &mut now.0;
        // what the call should add, and whether it has to succeed
        let (add, must): (Vec<Entry>, bool) = match call {
            Call::Fixed(v, k) => (v.iter().map(|(a, b, d, c)| e(*a, *b, 0, Some(*d), *c)).collect(), k.map_or(true, |k| k > v.len())),
            Call::Bulk(v, k) => (v.iter().map(|(a, b)| e(*a, *b, 0, None, None)).collect(), k.map_or(true, |k| k > v.len())),
            Call::BulkCheck(v, k) => (v.iter().map(|(a, b, c)| e(*a, *b, 0, None, Some(*c))).collect(), k.map_or(true, |k| k > v.len())),
            Call::Bare(v) => (v.iter().map(|(a, b)| e(*a, *b, 0, None, None)).collect(), true),
            Call::Copy => (vec![], true),
            Call::Stream(v, ctrl, step, check, k) => {
                let st = *step as u64;
                let mut c = *ctrl;
                let mut w = vec![];
                let mut fits = !v.is_empty();
                for (j, (a, b)) in v.iter().enumerate() {
                    w.push(e(*a, *b, c, None, if j + 1 == v.len() { check.unwrap_or(None) } else { None }));
                    if j + 1 < v.len() {
                        // another row only while more than a step is left
                        fits &= c > st;
                        c = c.saturating_sub(st);
                    }
                }
                // a control that promises more rows than given is not this property's concern
                let exact = fits && c <= st;
                (w, k.map_or(true, |k| k > v.len()) && exact)
            }
        };
        let r = catch_unwind(AssertUnwindSafe(|| match call {
            Call::Fixed(v, k) => b.fixed(&mut src(v.iter().map(|(a, b, d, c)| ([val(*a), val(*b)], val(*d), c.map(val))).collect(), k)),
            Call::Bulk(v, k) => b.bulk(&mut src(v.iter().map(|(a, b)| [val(*a), val(*b)]).collect(), k)),
            Call::BulkCheck(v, k) => b.bulk_check(&mut src(v.iter().map(|(a, b, c)| (val(*a), val(*b), val(*c))).collect(), k)),
            Call::Stream(v, ctrl, step, check, k) => b.stream(&mut src(v.iter().map(|(a, b)| [val(*a), val(*b)]).collect(), k), check.map(|c| c.map(val)), *ctrl, *step),
            Call::Bare(v) => b.bare(&v.iter().map(|(a, b)| [val(*a), val(*b)]).collect::<Vec<_>>()),
            Call::Copy => others.push((b.copy(), now.1.clone())),
        }));
        let got = now.0.raw().entries();
        let n = now.1.len();
        let whole = |m: &str| fail(V_TABLE, &format!("call {i} ({}): {m}", name(call)));
        if got.len() < n || got[..n] != now.1[..] {
            let j = (0..n).find(|j| got.get(*j) != Some(&now.1[*j])).unwrap_or(n);
            whole(&format!("entry {j}, added earlier, changed from {} to {}", show(now.1.get(j)), show(got.get(j))));
        }
        let extra = &got[n..];
        match &r {
            Ok(()) => {
                if let Call::Stream(v, ctrl, step, ..) = call {
                    // accepted although the message is longer than its control says
                    if !must && v.len() as u64 > 1 && (v.len() as u64 - 1) * *step as u64 >= (*ctrl).max(1) {
                        whole(&format!("a message of {} rows with control {ctrl} and step {step} was accepted", v.len()));
                    }
                }
                if extra != &add[..] {
                    let j = (0..add.len().max(extra.len())).find(|j| extra.get(*j) != add.get(*j)).unwrap_or(0);
                    whole(&format!("entry {} is {} instead of {}", n + j, show(extra.get(j)), show(add.get(j))));
                }
            }
            Err(p) => {
                let boom = p.downcast_ref::<Boom>().is_some();
                stat(if boom { U_SRC } else { U_REFUSED }, 1);
                if must {
                    whole(&format!("panicked: {}", panic_text(p)));
                }
                // nothing, or complete entries of the items that came before the failure
                let cmp = |j: usize| {
                    let (a, b) = (&extra[j], &add[j]);
                    a == b || (matches!(call, Call::Stream(..)) && Entry { check: None, ..*b } == *a)
                };
                if extra.len() > add.len() || !(0..extra.len()).all(cmp) {
                    let j = (0..extra.len()).find(|j| *j >= add.len() || !cmp(*j)).unwrap();
                    whole(&format!("failed half-way and left entry {} as {} (fed: {})", n + j, show(extra.get(j)), show(add.get(j))));
                }
            }
        }
        now.1 = got;
        let (size, rows) = now.0.sizes();
        if size != now.1.len() || rows != now.1.len() * bs {
            whole(&format!("the table reports {size} entries and {rows} rows, it has {} of {bs} rows each", now.1.len()));
        }
        for (k, (o, m)) in others.iter().enumerate() {
            if o.raw().entries() != *m {
                whole(&format!("changed copy {k} of the table"));
            }
        }
        // go on with a copy now and then
        if matches!(call, Call::Copy) && i % 2 == 1 {
            let (b, m) = others.pop().unwrap();
            others.push(std::mem::replace(&mut now, (b, m)));
        }
    }
}
fn name(c: &Call) -> &'static str {
    match c {
        Call::Fixed(..) => "fixed_inputs",
        Call::Stream(_, _, _, None, _) => "stream_inputs",
        Call::Stream(..) => "stream_inputs_with_check",
        Call::Bulk(..) => "constant_inputs",
        Call::BulkCheck(..) => "constant_inputs_with_check",
        Call::Bare(_) => "extending the inputs",
        Call::Copy => "clone",
    }
}
fn show(e: Option<&Entry>) -> String {
    match e {
        None => "nothing".into(),
        Some(e) => format!("({:?}, {:?}, control {}, domain {:?}, check {:?})", e.inp[0], e.inp[1], e.ctrl, e.dom, e.check),
    }
}

// ---------------------------------------------------------------- C13

pub fn c13(x: &Ctx) {
    let s = x.s;
    let raw = {
        let direct = s.build();
        let r = if s.by_calls { by_calls(s).filter(|r| r.entries() == direct.entries()).unwrap_or(direct) } else { direct };
        stat(U_ALTER, s.alters.len() as u64);
        s.altered(r)
    };
    let size = raw.inputs.len().max(raw.controls.len());
    let entries = raw.entries();
    let outs = x.run_loads(&raw, &|_| 0);
    quietly(|| {
        let rows = model::trace(&entries, s.calcs, s.step);
        let verdict = model::checks(&rows[..s.calcs.min(rows.len())]);
        for (i, o) in outs.iter().enumerate() {
            log(o.res.ok() as u64);
            if size > s.calcs {
                if o.res.ok() {
                    fail(V_SILENT, &format!("{}: a table of {size} entries is loaded into a circuit with a capacity of {}", x.who(i), s.calcs));
                }
                stat(U_REFUSED, 1);
            } else if verdict == Checks::Mismatch {
                if o.res.ok() {
                    let j = rows.iter().position(|r| r.e.check.map_or(false, |c| c != r.here && r.digest.map_or(true, |d| d != c))).unwrap_or(0);
                    fail(V_SILENT, &format!("{}: the expected digest of entry {j} does not match and the table is loaded", x.who(i)));
                }
                stat(U_REFUSED, 1);
            } else if verdict == Checks::Match && size < s.calcs && entries.len() <= s.calcs {
                if !o.res.ok() {
                    fail(V_LOAD, &format!("{}: all expected digests match and loading ends with {}", x.who(i), o.res.text()));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C09

pub fn c09(x: &Ctx) {
    let s = x.s;
    let raw = s.build();
    let outs = x.run_loads(&raw, &|_| 0);
    let l = &s.loads[0];
    let o = &outs[0];
    if !o.res.ok() {
        fail(V_LOAD, &format!("{}: {}", x.who(0), o.res.text()));
    }
    let c = x.conf(l.plain);
    quietly(|| {
        let cells = Cells::of(&o.grid);
        let at = shown(c, &cells);
        let cols = c.conf.exposed().map(|c| c.index());
        let mut public = vec![];
        for r in &at {
            for col in cols {
                public.push((col, *r));
            }
        }
        let mut p = Prover::new(&c.prog, &o.grid, &public);
        stat(U_VARS, p.vars() as u64);
        let (seed, n) = s.byz.unwrap_or((0, 0));
        let mut plan = None;
        for a in 0..n {
            let id = seed.wrapping_add(a);
            let mut r = Rng::new(id);
            let policy = *r.pick(&[0, 1, 2, 3, 3, 3, 4]);
            let bold = *r.pick(&[20, 60, 90]);
            let mut guesses = 0;
            stat(U_ATTACK, 1);
            let (end, forged) = if id % 6 == 0 {
                let start = forge(&mut r, &cells, &at, cols, s.step);
                let policy = if r.chance(1, 3) { 5 } else { policy };
                (p.attack(&start.0, policy, bold, &mut r, &mut guesses), start.1)
            } else {
                if plan.as_ref().map_or(true, |(k, _)| *k != id / 12) {
                    let mut r = Rng::new(id / 12);
                    let policy = *r.pick(&[0, 1, 2, 3, 3, 4, 4, 4]);
                    let skip = if r.chance(1, 3) { r.range(1, 4) as usize } else { 0 };
                    let start: Vec<(usize, usize)> = at.iter().flat_map(|row| (1..5).filter(|k| *k != skip).map(|k| (cols[k], *row))).collect();
                    let made = p.plan(&start, policy, &mut r);
                    stat(U_FREE, made.free.len() as u64);
                    plan = Some((id / 12, made));
                }
                let plan = &plan.as_ref().unwrap().1;
                if r.chance(1, 4) {
                    let keep: Vec<(usize, usize)> = if r.chance(3, 4) { at.iter().flat_map(|row| [(cols[3], *row), (cols[5], *row)]).collect() } else { vec![] };
                    let policy = *r.pick(&[5, 5, 5, 0, 3, 2]);
                    (p.middle(plan, &keep, policy, bold, &mut r, &mut guesses), 1)
                } else {
                    (p.focus(plan, policy, bold, &mut r, &mut guesses), 1)
                }
            };
            stat(U_FORGE, forged);
            stat(U_GUESS, guesses);
            if end != End::Accepted {
                continue;
            }
            stat(U_ACCEPT, 1);
            stat(U_ACCEPT_ALT, (forged > 0) as u64);
            log(a);
            if let Some(m) = false_row(p.cells(), &at, cols, s.step) {
                let g = p.grid(&o.grid);
                if let Some(e) = g.verify(c.conf.cs()) {
                    harness_error(&format!("attack {a} is not accepted by the independent check: {e}"));
                }
                fail(V_FORGED, &format!("a forged witness is accepted (attack {a}): {m}"));
            }
        }
    });
}

/// values for the input side of the exposed rows, honest but for some forgeries
fn forge(r: &mut Rng, c: &Cells<Fr>, at: &[usize], cols: [usize; 6], step: usize) -> (Vec<((usize, usize), Fr)>, u64) {
    let mut v: Vec<((usize, usize), Fr)> = vec![];
    for row in at {
        for k in 1..5 {
            v.push(((cols[k], *row), c.adv[cols[k]][*row]));
        }
    }
    let n = *r.pick(&[0, 1, 1, 1, 2, 2, 3]);
    let mut done = 0;
    for _ in 0..n {
        let i = r.below(at.len() as u64) as usize;
        let k = *r.pick(&[0, 1, 2, 2, 2, 3]);
        let st = model::flag(step as u64);
        let old = v[4 * i + k].1;
        let x = match r.below(12) {
            0 => byz::random(r),
            1 => Fr::ZERO,
            2 => old + Fr::ONE,
            3 => old - Fr::ONE,
            4 => model::flag(r.below(3 * step as u64 + 2)),
            5 => model::flag(step as u64 + 1),
            6 => old + st,
            7 => old - st,
            8 => st,
            9 => {
                // swap with another row
                let j = r.below(at.len() as u64) as usize;
                let t = v[4 * j + k].1;
                v[4 * j + k].1 = old;
                t
            }
            10 => -old,
            _ => model::flag(1) * Fr::from(r.below(5)) + Fr::from(r.below(2)),
        };
        // sometimes shift a whole run of controls, as a forged message length would
        if k == 2 && r.chance(1, 2) {
            let mut y = x;
            for j in i..at.len().min(i + 1 + r.below(4) as usize) {
                v[4 * j + 2].1 = y;
                y -= st;
            }
        } else {
            v[4 * i + k].1 = x;
        }
        done += 1;
    }
    // a row that is neither a start nor a continuation, and the one before it, at the prover's will
    if at.len() > 2 && r.chance(1, 5) {
        // followed by the start of a message, if there is such a row
        let mut i = r.range(1, at.len() as u64 - 2) as usize;
        while i > 1 && c.adv[cols[5]][at[i + 1]] != Fr::ONE {
            i -= 1;
        }
        let open = [at[i - 1], at[i]];
        v.retain(|(c, _)| !open.contains(&c.1));
        let mut head = byz::random(r);
        if r.chance(3, 4) {
            // a flag that makes the control before it look small enough
            let t = r.range(1, step as u64);
            let last = r.range(1, step as u64);
            head = Fr::from(t) * Fr::from(step as u64 + last).invert().unwrap();
            v.push(((cols[3], at[i]), model::flag(last)));
            v.push(((cols[3], at[i - 1]), model::flag(step as u64 + last)));
        }
        for (j, row) in at.iter().enumerate() {
            v.push(((cols[5], *row), if j == i { head } else { c.adv[cols[5]][*row] }));
        }
        done += 1;
    } else if r.chance(1, 3) {
        // leave some of them to the solver
        let p = r.range(1, 6);
        v.retain(|_| !r.chance(p, 12));
    }
    let mut i = v.len();
    if r.chance(1, 3) {
        while i > 1 {
            i -= 1;
            let j = r.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    (v, done)
}

/// the first exposed row that does not tell the truth
pub fn false_row(c: &Cells<Fr>, at: &[usize], cols: [usize; 6], step: usize) -> Option<String> {
    let p = refmodel::fr::params();
    let get = |i: usize, k: usize| c.adv[cols[k]][at[i]];
    let m = at.len().saturating_sub(1);
    let st = model::flag(step as u64);
    let range: Vec<Fr> = (0..=step as u64).map(model::flag).collect();
    let mut i = 0;
    while i < m {
        if get(i, 5) != Fr::ONE {
            return Some(format!("row {i} begins a message but its head flag is {:?}", get(i, 5)));
        }
        let mut j = i;
        let mut state = [get(i, 3) + get(i, 4), get(i, 1), get(i, 2)];
        p.permute(&mut state);
        while j + 1 < m && get(j + 1, 5) != Fr::ONE {
            j += 1;
            if get(j, 5) != Fr::ZERO {
                return Some(format!("row {j} has head flag {:?}", get(j, 5)));
            }
            if get(j, 3) != get(j - 1, 3) - st {
                return Some(format!("row {j} continues a message but its control {:?} is not one step below {:?}", get(j, 3), get(j - 1, 3)));
            }
            if get(j, 3) == Fr::ZERO {
                return Some(format!("row {j} continues a message with control 0"));
            }
            state[0] += get(j, 4);
            state[1] += get(j, 1);
            state[2] += get(j, 2);
            p.permute(&mut state);
        }
        if !range.contains(&get(j, 3)) {
            return Some(format!("the message of rows {i} to {j} ends with control {:?}, more than a step", get(j, 3)));
        }
        for r in i..=j {
            if get(r, 0) != state[0] {
                return Some(format!("row {r} shows the digest {:?}, its message (rows {i} to {j}) hashes to {:?}", get(r, 0), state[0]));
            }
        }
        i = j + 1;
    }
    // nothing binds the reserved row's digest, so it must not show anything but the zero entry
    if m < at.len() && (1..4).any(|k| get(m, k) != Fr::ZERO) {
        return Some(format!("the reserved row {m} shows inputs {:?}, {:?} and control {:?}", get(m, 1), get(m, 2), get(m, 3)));
    }
    None
}

// ---------------------------------------------------------------- C10

fn w_params(t: usize) -> &'static refmodel::Params<Fr> {
    static P: [std::sync::OnceLock<refmodel::Params<Fr>>; 6] = [const { std::sync::OnceLock::new() }; 6];
    P[t].get_or_init(|| refmodel::Params::new(t, 8, circwork::par::w_rp(t), 0))
}
fn fp_params() -> &'static refmodel::Params<Fp> {
    static P: std::sync::OnceLock<refmodel::Params<Fp>> = std::sync::OnceLock::new();
    P.get_or_init(|| refmodel::Params::new(3, 8, 56, 0))
}
pub fn warm_reference() {
    refmodel::fr::params();
    fp_params();
    for t in [2, 4, 5] {
        w_params(t);
    }
}

fn sponge<F: PrimeField + FromUniformBytes<64> + Ord>(p: &refmodel::Params<F>, cap: F, words: &[F], squeeze: usize) -> Vec<F> {
    let rate = p.t - 1;
    let mut s = vec![F::ZERO; p.t];
    s[rate] = cap;
    for b in words.chunks(rate) {
        for (i, w) in b.iter().enumerate() {
            s[i] += w;
        }
        p.permute(&mut s);
    }
    let mut out = vec![];
    while out.len() < squeeze {
        if !out.is_empty() && out.len() % rate == 0 {
            p.permute(&mut s);
        }
        out.push(s[out.len() % rate]);
    }
    out
}

/// what the gadget has to output for given inputs; `all`: the words asked for, padding among them
fn outputs<F: PrimeField + FromUniformBytes<64> + Ord>(p: &refmodel::Params<F>, what: u64, n: u64, words: &[F], all: &[F]) -> Vec<F> {
    let dom = |k: u64| F::from_u128((k as u128) << 64);
    match what {
        0 | 1 => {
            let mut s = words.to_vec();
            p.permute(&mut s);
            s
        }
        2 => sponge(p, dom(words.len() as u64), words, 1),
        _ => {
            let mut w = words.iter();
            let full: Vec<F> = all.iter().enumerate().map(|(i, x)| if n >> (8 + i) & 1 == 1 { *x } else { *w.next().unwrap() }).collect();
            sponge(p, dom(4), &full, (n & 255) as usize)
        }
    }
}

fn gadget_judge<F: PrimeField + FromUniformBytes<64> + Ord>(
    x: &Ctx,
    p: &'static refmodel::Params<F>,
    cs: &ConstraintSystem<F>,
    prog: &Prog<F>,
    words: &[F],
    run: &dyn Fn(&mut SimLayouter<F>) -> Result<Io, Error>,
) {
    let s = x.s;
    let (kind, what, n) = s.gadget.unwrap();
    let l = &s.loads[0];
    stat(U_GADGET + kind as usize, 1);
    note_load(l);
    unsafe { STALL = l.stall };
    let k = 13 + s.kx;
    let out = synth(run, cs, opts(l, if s.words.len() < 24 { 10 } else { k }, 0));
    let name = || format!("{} {}", ["Septidon", "Pow5", "Pow5 of width 2", "Pow5 of width 4", "Pow5 of width 5", "", "", "", "", "Pallas Pow5"][kind as usize], ["permutation", "permutation batch", "hash gadget", "sponge gadget"][what as usize]);
    let mode_name = ["checking", "key generation", "proving"][l.mode as usize];
    if !out.res.ok() {
        fail(V_LOAD, &format!("{} of {} words: {mode_name} ends with {}", name(), words.len(), out.res.text()));
    }
    quietly(|| {
        let per = match what {
            0 | 1 => p.t,
            2 => words.len() / n as usize,
            _ => words.len(),
        };
        let uses = if words.is_empty() { 0 } else { words.len() / per };
        if out.io.len() != uses {
            fail(V_ROWS, &format!("{}: {} results for {uses} uses", name(), out.io.len()));
        }
        if l.mode != 1 {
            for (u, (a, b)) in out.io.iter().enumerate() {
                let ins = &words[u * per..(u + 1) * per];
                let shown: Vec<F> = ins.iter().enumerate().filter(|(i, _)| what < 3 || n >> (8 + i) & 1 == 0).map(|(_, w)| *w).collect();
                let want = outputs(p, what, n, &shown, ins);
                let got: Vec<F> = b.iter().map(|c| out.grid.cell(*c)).collect();
                if got != want {
                    fail(V_ROWS, &format!("{} use {u}: output {:?} instead of {:?} ({mode_name})", name(), got, want));
                }
                for (c, w) in a.iter().zip(&shown) {
                    if out.grid.cell(*c) != *w {
                        fail(V_ROWS, &format!("{} use {u}: an input cell shows {:?} instead of {w:?}", name(), out.grid.cell(*c)));
                    }
                }
            }
        }
        if l.mode != 0 {
            return;
        }
        let mut cells = Cells::of(&out.grid);
        let mut r = Rng::new(0x78);
        for col in cells.adv.iter_mut() {
            for v in col[cells.usable..].iter_mut() {
                *v = byz::random(&mut r);
            }
        }
        if let Some(m) = prog.verify(&cells) {
            fail(V_CIRCUIT, &format!("{}: the circuit is not satisfied: {m}", name()));
        }
        for (a, b) in &out.grid.copies {
            if out.grid.cell(*a) != out.grid.cell(*b) {
                fail(V_CIRCUIT, &format!("{}: an equality constraint is not satisfied: {a:?} and {b:?}", name()));
            }
        }
        let Some((seed, attacks)) = s.byz else { return };
        let pos = |v: &Vec<At>| v.iter().map(|c| (c.0.index, c.1)).collect::<Vec<_>>();
        let io: Vec<(Vec<(usize, usize)>, Vec<(usize, usize)>)> = out.io.iter().map(|(a, b)| (pos(a), pos(b))).collect();
        let public: Vec<(usize, usize)> = io.iter().flat_map(|(a, b)| a.iter().chain(b).copied()).collect();
        let mut pr = Prover::new(prog, &out.grid, &public);
        stat(U_VARS, pr.vars() as u64);
        if let Some(m) = pr.broken() {
            harness_error(&format!("an accepted gadget circuit is broken: {m}"));
        }
        let mut plan = None;
        for a in 0..attacks {
            let id = seed.wrapping_add(a);
            let mut r = Rng::new(id);
            let policy = *r.pick(&[0, 1, 2, 3, 3, 3, 4]);
            let bold = *r.pick(&[20, 60, 90]);
            let mut guesses = 0;
            stat(U_ATTACK, 1);
            let (end, forged) = if id % 6 != 0 {
                if plan.as_ref().map_or(true, |(k, _)| *k != id / 12) {
                    let mut r = Rng::new(id / 12);
                    let policy = *r.pick(&[0, 1, 2, 3, 3, 4, 4, 4]);
                    let start: Vec<(usize, usize)> = io.iter().flat_map(|(a, _)| a.iter().copied()).collect();
                    let made = pr.plan(&start, policy, &mut r);
                    if !made.whole {
                        harness_error("the honest witness could not be derived again");
                    }
                    stat(U_FREE, made.free.len() as u64);
                    plan = Some((id / 12, made));
                }
                let plan = &plan.as_ref().unwrap().1;
                if r.chance(1, 4) {
                    let policy = *r.pick(&[5, 5, 5, 0, 3, 2]);
                    (pr.middle(plan, &[], policy, bold, &mut r, &mut guesses), 1)
                } else {
                    (pr.focus(plan, policy, bold, &mut r, &mut guesses), 1)
                }
            } else {
                let mut start: Vec<((usize, usize), F)> = io.iter().flat_map(|(a, _)| a.iter().map(|c| (*c, out.grid.advice[c.0][c.1].unwrap_or(F::ZERO)))).collect();
                let forged = r.below(3).min(start.len() as u64);
                for _ in 0..forged {
                    let i = r.below(start.len() as u64) as usize;
                    start[i].1 = match r.below(4) {
                        0 => F::ZERO,
                        1 => start[i].1 + F::ONE,
                        _ => byz::random(&mut r),
                    };
                }
                if r.chance(1, 4) {
                    start.retain(|_| !r.chance(1, 4));
                }
                (pr.attack(&start, policy, bold, &mut r, &mut guesses), forged)
            };
            stat(U_FORGE, forged);
            stat(U_GUESS, guesses);
            if end != End::Accepted {
                continue;
            }
            stat(U_ACCEPT, 1);
            stat(U_ACCEPT_ALT, (forged > 0) as u64);
            for (u, (ia, ob)) in io.iter().enumerate() {
                let ins: Vec<F> = ia.iter().map(|c| pr.get(*c)).collect();
                let got: Vec<F> = ob.iter().map(|c| pr.get(*c)).collect();
                if got != outputs(p, what, n, &ins, words) {
                    let g = pr.grid(&out.grid);
                    if let Some(e) = g.verify(cs) {
                        harness_error(&format!("attack {a} is not accepted by the independent check: {e}"));
                    }
                    fail(V_FORGED, &format!("{} use {u}: a forged witness is accepted (attack {a}): inputs {ins:?} give outputs {got:?}", name()));
                }
            }
        }
    });
}

static mut FP: Option<(circwork::par::FpGadget, Prog<Fp>)> = None;
#[allow(static_mut_refs)]
fn fp() -> &'static (circwork::par::FpGadget, Prog<Fp>) {
    unsafe {
        if FP.is_none() {
            let g = circwork::par::fp_gadget();
            let p = crate::poly::compile(&g.cs);
            FP = Some((g, p));
        }
        FP.as_ref().unwrap()
    }
}

pub fn c10(x: &Ctx) {
    let s = x.s;
    let (kind, what, n) = s.gadget.unwrap();
    if kind == 9 {
        let words: Vec<Fp> = s
            .words
            .iter()
            .map(|w| {
                // the same names, in the other field
                let v = val(*w).to_repr();
                let mut b = [0u8; 64];
                b[..32].copy_from_slice(v.as_ref());
                if *w < 16 {
                    [Fp::ZERO, Fp::ONE, -Fp::ONE, Fp::from(2)][*w as usize % 4]
                } else {
                    Fp::from_uniform_bytes(&b)
                }
            })
            .collect();
        let (g, prog) = fp();
        let run = |l: &mut SimLayouter<Fp>| match what {
            0 | 1 => g.permute(&words.chunks(3).map(|c| [c[0], c[1], c[2]]).collect::<Vec<_>>(), what == 1, l),
            2 => g.hash(&words.chunks(words.len() / n as usize).map(|c| c.to_vec()).collect::<Vec<_>>(), l),
            _ => g.sponge(&words, n >> 8, (n & 255) as usize, l),
        };
        gadget_judge(x, fp_params(), &g.cs, prog, &words, &run);
        return;
    }
    let c = gad(s.loads[0].plain, kind);
    let words: Vec<Fr> = s.words.iter().map(|w| val(*w)).collect();
    let p = match kind {
        0 | 1 => refmodel::fr::params(),
        k => w_params([0, 0, 2, 4, 5][k as usize]),
    };
    let t = c.g.width();
    let run = |l: &mut SimLayouter<Fr>| match what {
        0 | 1 => c.g.permute(&words.chunks(t).map(|c| c.to_vec()).collect::<Vec<_>>(), what == 1, l),
        2 => c.g.hash(&words.chunks(words.len() / n as usize).map(|c| c.to_vec()).collect::<Vec<_>>(), l),
        _ => c.g.sponge(&words, n >> 8, (n & 255) as usize, l),
    };
    gadget_judge(x, p, c.g.cs(), &c.prog, &words, &run);
}

/// everything a warm run finds already configured
pub fn prewarm() {
    warm_reference();
    for plain in [false, true] {
        for chip in 0..2 {
            for step in circwork::par::STEPS {
                for shared in [0, 2] {
                    conf(plain, chip, step, shared);
                }
            }
            // one load, so that every lazy constant exists
            let c = conf(plain, chip, 32, 0);
            set_env(1);
            c.conf.with(&Raw::default(), 2, &mut |f| {
                load_once(f, c.conf.cs(), quiet_opts(0, 10));
            });
            set_env(0);
        }
        for kind in 0..5 {
            gad(plain, kind);
        }
    }
    let _ = lib(false).two([Fr::ONE; 2], Fr::ZERO);
    let _ = lib(false).msg(&[Fr::ONE; 2], 5);
    let _ = lib(true).two([Fr::ONE; 2], Fr::ZERO);
    let _ = lib(true).msg(&[Fr::ONE; 2], 5);
    fp();
}

pub fn run(x: &Ctx) {
    stat(U_FLIP, x.s.flip as u64 + (x.s.cpus == 0) as u64);
    match x.s.prop.as_str() {
        "C06" => c06(x),
        "C07" => c07(x),
        "C08" => c08(x),
        "C09" => c09(x),
        "C10" => c10(x),
        "C11" => c11(x),
        "C12" => c12(x),
        _ => c13(x),
    }
}

/// rows and steps of small serial loads on the current tree
pub fn measure() -> String {
    let mut out = String::new();
    for plain in [false, true] {
        for chip in 0..2 {
            let c = conf(plain, chip, 1, 0);
            let mut r = vec![];
            for calcs in [2usize, 2, 6] {
                set_env(1);
                let mut got = (0usize, 0u64);
                c.conf.with(&Raw::default(), calcs, &mut |f| {
                    op_begin(0, u64::MAX / 4, None);
                    let o = load_once(f, c.conf.cs(), quiet_opts(0, 10));
                    let steps = op_end();
                    let top = |v: &Vec<Option<Fr>>| v.iter().rposition(|x| x.is_some()).map_or(0, |r| r + 1);
                    if o.res.ok() {
                        got = (o.grid.advice.iter().map(top).max().unwrap_or(0), steps);
                    }
                });
                r.push(got);
            }
            let (a, b) = (r[1], r[2]);
            let per = b.0.saturating_sub(a.0).div_ceil(4);
            let base = a.0.saturating_sub(2 * per);
            let sp = b.1.saturating_sub(a.1) / 4;
            out.push_str(&format!("{base} {per} {} {sp} ", a.1.saturating_sub(2 * sp)));
        }
    }
    set_env(0);
    out
}
