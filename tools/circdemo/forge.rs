//! Try to find a witness for false table rows, or for a false permutation, that the circuit accepts.
#![allow(dead_code)]
use crate::byz::{Prover, End};
use crate::common::*;
use crate::poly::compile;
use crate::rng::Rng;

/// Attack an honestly loaded table; the false row found, if any.
pub fn table(hc: &Hc, g: &Grid<Fr>, tries: u64, seed: u64) -> Option<String> {
    let prog = compile(&hc.cs);
    let at: Vec<usize> = rows(hc, g).iter().map(|r| r.at).collect();
    let cols = hc.exposed.map(|c| c.index());
    let public: Vec<(usize, usize)> = at.iter().flat_map(|r| cols.iter().map(move |c| (*c, *r))).collect();
    let start: Vec<(usize, usize)> = at.iter().flat_map(|r| (1..5).map(move |k| (cols[k], *r))).collect();
    let mut p = Prover::new(&prog, g, &public);
    let mut plan = None;
    for a in 0..tries {
        let mut r = Rng::new(seed + a);
        if a % 12 == 0 {
            plan = Some(p.plan(&start, *r.pick(&[0, 1, 2, 3, 4, 4]), &mut r));
        }
        let policy = *r.pick(&[0, 1, 2, 3, 4]);
        if p.focus(plan.as_ref().unwrap(), policy, 60, &mut r, &mut 0) != End::Accepted {
            continue;
        }
        let f = p.grid(g);
        if let Some(m) = false_row(hc, &f) {
            if f.verify(&hc.cs).is_none() {
                return Some(m);
            }
        }
    }
    None
}

/// the first row below the reserved one that is not true
pub fn false_row(hc: &Hc, g: &Grid<Fr>) -> Option<String> {
    let rows = rows(hc, g);
    let m = rows.len() - 1;
    let mut i = 0;
    while i < m {
        let mut s = [rows[i].v[3] + rows[i].v[4], rows[i].v[1], rows[i].v[2]];
        permute(&mut s);
        let mut j = i;
        while j + 1 < m && rows[j + 1].v[5] != Fr::ONE {
            j += 1;
            s[0] += rows[j].v[4];
            s[1] += rows[j].v[1];
            s[2] += rows[j].v[2];
            permute(&mut s);
        }
        if let Some(k) = (i..=j).find(|k| rows[*k].v[0] != s[0]) {
            return Some(format!("row {k} shows {:?} instead of {:?}", rows[k].v[0], s[0]));
        }
        i = j + 1;
    }
    None
}

/// Attack a gadget's grid: `io` are the inputs and the outputs, `truth` the outputs that belong to inputs.
pub fn gadget(cs: &ConstraintSystem<Fr>, g: &Grid<Fr>, ins: &[(usize, usize)], outs: &[(usize, usize)], truth: &dyn Fn(&[Fr]) -> Vec<Fr>, tries: u64, seed: u64) -> Option<String> {
    let prog = compile(cs);
    let public: Vec<(usize, usize)> = ins.iter().chain(outs).copied().collect();
    let mut p = Prover::new(&prog, g, &public);
    let mut plan = None;
    for a in 0..tries {
        let mut r = Rng::new(seed + a);
        if a % 12 == 0 {
            plan = Some(p.plan(ins, *r.pick(&[0, 1, 2, 3, 4, 4]), &mut r));
        }
        let policy = *r.pick(&[0, 1, 2, 3, 4]);
        if p.focus(plan.as_ref().unwrap(), policy, 60, &mut r, &mut 0) != End::Accepted {
            continue;
        }
        let want = truth(&ins.iter().map(|c| p.get(*c)).collect::<Vec<_>>());
        let got: Vec<Fr> = outs.iter().map(|c| p.get(*c)).collect();
        if got != want && p.grid(g).verify(cs).is_none() {
            return Some(format!("accepted outputs {got:?} instead of {want:?}"));
        }
    }
    None
}
