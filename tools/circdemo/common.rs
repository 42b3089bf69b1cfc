//! What the demonstrations share: synthesise a table with the stand-in backend and look at the result.
#![allow(dead_code)]
pub use ff::{Field, PrimeField};
pub use halo2_proofs::circuit::{Layouter, SimLayouter, Value};
pub use halo2_proofs::plonk::*;
pub use halo2_proofs::sim::{Grid, Mode, Op, Opts, Plan};
pub use halo2curves::bn256::Fr;
pub use poseidon_base::hash::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod body {
    use poseidon_circuit as pc;
    include!("body.rs");
}
pub use body::*;

pub fn flag(n: u64) -> Fr {
    Fr::from_u128(n as u128 * HASHABLE_DOMAIN_SPEC)
}
pub fn opts() -> Opts {
    Opts::new(14)
}
/// load a table once; the error or panic text if it does not end well
pub fn load(hc: &Hc, t: &Table, calcs: usize, serial: bool, o: Opts) -> (Result<(), String>, Grid<Fr>) {
    let r = many(hc, t, calcs, serial, vec![o]);
    r.into_iter().next().unwrap()
}
/// load a table several times through one chip
pub fn many(hc: &Hc, t: &Table, calcs: usize, serial: bool, o: Vec<Opts>) -> Vec<(Result<(), String>, Grid<Fr>)> {
    std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", if serial { "serial" } else { "parallel" });
    let mut out = vec![];
    loader(hc, t, calcs, &mut |f| {
        for o in &o {
            let mut l = SimLayouter::new(&hc.cs, o.clone());
            let r = match catch_unwind(AssertUnwindSafe(|| f(&mut l))) {
                Ok(r) => r.map_err(|e| format!("{e:?}")),
                Err(p) => Err(match p.downcast_ref::<String>() {
                    Some(s) => s.clone(),
                    None => p.downcast_ref::<&str>().unwrap_or(&"panic").to_string(),
                }),
            };
            out.push((r, l.into_grid()));
        }
    });
    out
}
pub struct Row {
    pub at: usize,
    pub v: [Fr; 6],
}
/// the exposed rows: those with q_enable set
pub fn rows(hc: &Hc, g: &Grid<Fr>) -> Vec<Row> {
    (0..g.usable)
        .filter(|r| g.fixed[hc.q_enable.index()][*r] == Some(Fr::ONE))
        .map(|at| Row { at, v: hc.exposed.map(|c| g.advice[c.index()][at].unwrap_or(Fr::ZERO)) })
        .collect()
}
pub fn permute(s: &mut [Fr; 3]) {
    Fr::hasher().permute(s)
}
/// digest of a message whose first control is `ctrl`
pub fn digest(blocks: &[[Fr; 2]], ctrl: u64) -> Fr {
    let mut s = [flag(ctrl), Fr::ZERO, Fr::ZERO];
    for b in blocks {
        s[1] += b[0];
        s[2] += b[1];
        permute(&mut s);
    }
    s[0]
}
pub fn val(n: u64) -> Fr {
    Fr::from(n * 0x9e37_79b9 + 7).square() + Fr::from(n)
}
pub fn blocks(n: usize, seed: u64) -> Vec<[Fr; 2]> {
    (0..n as u64).map(|i| [val(seed + 2 * i), val(seed + 2 * i + 1)]).collect()
}
pub fn say(bad: Vec<String>) {
    for b in &bad {
        println!("{b}");
    }
    std::process::exit(!bad.is_empty() as i32)
}
