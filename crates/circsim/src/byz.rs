//! A byzantine prover: rewrites an accepted witness by seeded search. It fixes the cells the outside
//! world can see (honest, altered or forged), lets every active constraint that has one unknown left
//! determine that unknown (picking among several roots at random), solves small linear groups jointly,
//! and guesses where nothing is determined. What comes out complete satisfies the circuit.
use crate::poly::*;
use ff::PrimeField;
use halo2_proofs::plonk::Any;
use halo2_proofs::sim::{At, Grid};
use simrt::Rng;
use std::collections::{BTreeMap, HashMap, HashSet};

type V = u32;
struct Inst {
    /// index into polys, or lookup
    poly: Result<u32, u32>,
    row: u32,
    vars: Vec<V>,
    spec: u32,
}

pub struct Prover<'a, F: PrimeField> {
    prog: &'a Prog<F>,
    cells: Cells<F>,
    honest: Cells<F>,
    members: Vec<Vec<(usize, usize)>>,
    pinned: Vec<Option<F>>,
    var_of: HashMap<(usize, usize), V>,
    insts: Vec<Inst>,
    specs: Vec<Spec>,
    of_var: Vec<Vec<u32>>,
    tables: Vec<(HashSet<Vec<u8>>, Vec<Vec<F>>)>,
    /// constraints that relate nothing but fixed cells and fail already
    broken: Option<String>,
    /// cells the outside sees, guessed last: what they show should follow
    public: Vec<bool>,
    /// 1/k!
    inv_fact: [F; 8],
}

fn find(p: &mut Vec<usize>, mut i: usize) -> usize {
    while p[i] != i {
        p[i] = p[p[i]];
        i = p[i];
    }
    i
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Accepted,
    Contradiction,
}

impl<'a, F: PrimeField> Prover<'a, F> {
    /// `public`: cells somebody outside relies on
    pub fn new(prog: &'a Prog<F>, g: &Grid<F>, public: &[(usize, usize)]) -> Self {
        let cells = Cells::of(g);
        // equality classes over advice and fixed cells
        let na = cells.adv.len();
        let id = |at: &At| match at.0.column_type {
            Any::Advice(_) => Some(at.0.index * g.n + at.1),
            Any::Fixed => Some((na + at.0.index) * g.n + at.1),
            _ => None,
        };
        let mut parent: Vec<usize> = (0..(na + cells.fixed.len()) * g.n).collect();
        let mut linked = vec![];
        for (a, b) in &g.copies {
            if let (Some(a), Some(b)) = (id(a), id(b)) {
                let (x, y) = (find(&mut parent, a), find(&mut parent, b));
                if x != y {
                    parent[x.max(y)] = x.min(y);
                }
                linked.push(a);
                linked.push(b);
            }
        }
        linked.sort();
        linked.dedup();
        let mut groups: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for c in linked {
            let r = find(&mut parent, c);
            groups.entry(r).or_default().push(c);
        }
        let mut group_of: HashMap<usize, usize> = HashMap::new();
        for (r, cs) in &groups {
            for c in cs {
                group_of.insert(*c, *r);
            }
        }
        let mut p = Prover {
            prog,
            honest: cells.clone(),
            cells,
            members: vec![],
            pinned: vec![],
            var_of: HashMap::new(),
            insts: vec![],
            specs: vec![],
            of_var: vec![],
            tables: vec![],
            broken: None,
            public: vec![],
            inv_fact: std::array::from_fn(|k| F::from((1..=k as u64).product::<u64>()).invert().unwrap()),
        };
        let n = g.n;
        let mut var = |p: &mut Self, col: usize, row: usize| -> V {
            if let Some(v) = p.var_of.get(&(col, row)) {
                return *v;
            }
            let v = p.members.len() as V;
            let mut mem = vec![];
            let mut pin = None;
            match group_of.get(&(col * n + row)) {
                Some(r) => {
                    for c in &groups[r] {
                        let (cc, rr) = (c / n, c % n);
                        if cc < na {
                            mem.push((cc, rr));
                        } else {
                            pin = Some(p.cells.fixed[cc - na][rr]);
                        }
                    }
                }
                None => mem.push((col, row)),
            }
            for m in &mem {
                p.var_of.insert(*m, v);
            }
            p.members.push(mem);
            p.pinned.push(pin);
            v
        };
        let mut tmp = vec![];
        for (i, poly) in prog.polys.iter().enumerate() {
            // rows with the same fixed cells have the same constraint
            let mut same: HashMap<Vec<u8>, u32> = HashMap::new();
            for row in 0..n {
                if !prog.active(poly, row, &p.cells, &mut tmp) {
                    continue;
                }
                let key = prog.fixed(poly, row, &p.cells);
                let spec = *same.entry(bytes(&key)).or_insert_with(|| {
                    p.specs.push(prog.specialise(poly, row, &p.cells, &mut tmp));
                    p.specs.len() as u32 - 1
                });
                let adv = p.specs[spec as usize].adv.clone();
                let mut vars: Vec<V> = adv.iter().map(|(c, r)| var(&mut p, *c as usize, wrap(row, *r, n))).collect();
                vars.sort();
                vars.dedup();
                if vars.is_empty() {
                    if prog.run(&poly.order, poly.root, row, &p.cells, &mut tmp) != F::ZERO {
                        p.broken = Some(format!("gate '{}' cannot be satisfied at row {row}", prog.names[poly.gate]));
                    }
                    continue;
                }
                p.insts.push(Inst { poly: Ok(i as u32), row: row as u32, vars, spec });
            }
        }
        for &(c, r) in public {
            var(&mut p, c, r);
        }
        for (i, l) in prog.looks.iter().enumerate() {
            p.tables.push(prog.table(l, &p.cells));
            for row in 0..p.cells.usable {
                let cs: Vec<(usize, usize)> = l.inputs.iter().flat_map(|q| q.adv.iter().map(|(c, r)| (*c as usize, wrap(row, *r, n)))).collect();
                if !cs.iter().any(|c| p.var_of.contains_key(c)) {
                    continue;
                }
                let mut vars: Vec<V> = cs.iter().map(|(c, r)| var(&mut p, *c, *r)).collect();
                vars.sort();
                vars.dedup();
                p.insts.push(Inst { poly: Err(i as u32), row: row as u32, vars, spec: 0 });
            }
        }
        p.public = vec![false; p.members.len()];
        for at in public {
            let v = p.var_of[at] as usize;
            p.public[v] = true;
        }
        p.of_var = vec![vec![]; p.members.len()];
        for (i, x) in p.insts.iter().enumerate() {
            for v in &x.vars {
                p.of_var[*v as usize].push(i as u32);
            }
        }
        p
    }

    pub fn vars(&self) -> usize {
        self.members.len()
    }
    pub fn broken(&self) -> Option<&str> {
        self.broken.as_deref()
    }
    pub fn get(&self, at: (usize, usize)) -> F {
        self.cells.adv[at.0][at.1]
    }
    pub fn cells(&self) -> &Cells<F> {
        &self.cells
    }

    fn set(&mut self, v: V, x: F) {
        for &(c, r) in &self.members[v as usize] {
            self.cells.adv[c][r] = x;
        }
    }
    fn honest_of(&self, v: V) -> F {
        match self.members[v as usize].first() {
            Some(&(c, r)) => self.honest.adv[c][r],
            None => F::ZERO,
        }
    }
    fn eval(&self, i: u32, tmp: &mut Vec<F>) -> F {
        let x = &self.insts[i as usize];
        match x.poly {
            Ok(_) => self.prog.run_spec(&self.specs[x.spec as usize], x.row as usize, &self.cells, tmp),
            Err(l) => {
                let v: Vec<F> = self.prog.looks[l as usize].inputs.iter().map(|q| self.prog.run(&q.order, q.root, x.row as usize, &self.cells, tmp)).collect();
                if self.tables[l as usize].0.contains(&bytes(&v)) {
                    F::ZERO
                } else {
                    F::ONE
                }
            }
        }
    }
    fn at(&mut self, i: u32, v: V, x: F, tmp: &mut Vec<F>) -> F {
        self.set(v, x);
        self.eval(i, tmp)
    }

    /// the values of `v` that satisfy constraint `i`; None: any value does
    fn roots(&mut self, i: u32, v: V, r: &mut Rng, tmp: &mut Vec<F>) -> Option<Vec<F>> {
        if let Err(l) = self.insts[i as usize].poly {
            return Some(self.look_roots(i, l, v, r, tmp));
        }
        let f: Vec<F> = (0..4).map(|k| self.at(i, v, F::from(k), tmp)).collect();
        let d1: Vec<F> = f.windows(2).map(|w| w[1] - w[0]).collect();
        let d2: Vec<F> = d1.windows(2).map(|w| w[1] - w[0]).collect();
        let zero = F::ZERO;
        if d2.iter().all(|d| *d == zero) {
            if d1[0] == zero {
                return if f[0] == zero { None } else { Some(vec![]) };
            }
            return Some(vec![-f[0] * d1[0].invert().unwrap()]);
        }
        if d2[0] == d2[1] {
            // quadratic: f0 + d1 x + d2 x(x-1)/2
            let a = d2[0] * F::TWO_INV;
            let b = d1[0] - a;
            let c = f[0];
            let disc = b.square() - F::from(4) * a * c;
            let s = disc.sqrt();
            if bool::from(s.is_none()) {
                return Some(vec![]);
            }
            let s = s.unwrap();
            let inv = a.double().invert().unwrap();
            let mut v = vec![(s - b) * inv, (-s - b) * inv];
            v.dedup();
            return Some(v);
        }
        // higher degree: try a shifted fifth power, then likely values
        let mut out = vec![];
        let g: Vec<F> = (0..8).map(|k| self.at(i, v, F::from(k), tmp)).collect();
        let mut co = interpolate(&g, &self.inv_fact);
        while co.last() == Some(&zero) {
            co.pop();
        }
        if co.len() == 6 {
            let a = co[5];
            let c = co[4] * (F::from(5) * a).invert().unwrap();
            let full = [a, a * F::from(5) * c, a * F::from(10) * c.square(), a * F::from(10) * c.square() * c, a * F::from(5) * c.square().square()];
            if (1..5).all(|k| co[k] == full[5 - k]) {
                let rest = co[0] - a * c.square().square() * c;
                out.push(fifth_root(-rest * a.invert().unwrap()) - c);
            }
        }
        let h = self.honest_of(v);
        for x in [zero, F::ONE, h] {
            if self.at(i, v, x, tmp) == zero && !out.contains(&x) {
                out.push(x);
            }
        }
        Some(out)
    }

    fn look_roots(&mut self, i: u32, l: u32, v: V, r: &mut Rng, tmp: &mut Vec<F>) -> Vec<F> {
        let look = &self.prog.looks[l as usize];
        let row = self.insts[i as usize].row as usize;
        let mut out = vec![];
        let h = self.honest_of(v);
        for x in [h, F::ZERO, F::ONE] {
            if self.at(i, v, x, tmp) == F::ZERO && !out.contains(&x) {
                out.push(x);
            }
        }
        if look.inputs.len() == 1 {
            let q = &look.inputs[0];
            let mut f = |p: &mut Self, x: F| {
                p.set(v, x);
                p.prog.run(&q.order, q.root, row, &p.cells, tmp)
            };
            let (a, b, c) = (f(self, F::ZERO), f(self, F::ONE), f(self, F::from(2)));
            if c - b == b - a && b != a {
                let t = r.pick(&self.tables[l as usize].1)[0];
                out.push((t - a) * (b - a).invert().unwrap());
            }
        }
        out
    }

    /// One attack: `start` are values for public cells; everything else follows or is guessed.
    pub fn attack(&mut self, start: &[((usize, usize), F)], policy: u64, bold: u64, r: &mut Rng, guesses: &mut u64) -> End {
        let vals: Vec<(V, F)> = start.iter().filter_map(|(at, x)| self.var_of.get(at).map(|v| (*v, *x))).collect();
        self.search(None, &vals, policy, bold, None, r, guesses)
    }

    /// Derive the honest witness from `start`, noting what follows from what and what nothing determines.
    pub fn plan(&mut self, start: &[(usize, usize)], policy: u64, r: &mut Rng) -> Plan {
        let vals: Vec<(V, F)> = start.iter().filter_map(|at| self.var_of.get(at).map(|v| (*v, self.honest_of(*v)))).collect();
        let mut p = Plan { free: vec![], given: vals.iter().map(|v| v.0).collect(), children: vec![vec![]; self.members.len()], parents: vec![vec![]; self.members.len()], whole: false };
        p.whole = self.search(None, &vals, policy, 0, Some(&mut p), r, &mut 0) == End::Accepted;
        for (v, cs) in p.children.iter().enumerate() {
            for c in cs {
                p.parents[*c as usize].push(v as V);
            }
        }
        p
    }

    /// Change some of what the plan left free or was given; only what follows from it is derived anew.
    pub fn focus(&mut self, plan: &Plan, policy: u64, bold: u64, r: &mut Rng, guesses: &mut u64) -> End {
        let nv = self.members.len();
        let mut open = vec![false; nv];
        let mut start: Vec<(V, F)> = vec![];
        let mut stack = vec![];
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            let l = if plan.given.is_empty() || !plan.free.is_empty() && r.chance(3, 4) { &plan.free } else { &plan.given };
            if l.is_empty() {
                break;
            }
            let v = *r.pick(l);
            let x = self.bold(v, r);
            if self.pinned[v as usize].is_none() && !start.iter().any(|s| s.0 == v) {
                start.push((v, x));
                stack.push(v);
            }
        }
        while let Some(v) = stack.pop() {
            for c in &plan.children[v as usize] {
                if !open[*c as usize] {
                    open[*c as usize] = true;
                    stack.push(*c);
                }
            }
        }
        // sometimes what else is free may move along
        let also = *r.pick(&[0, 0, 0, 30, 100]);
        for v in &plan.free {
            if r.below(100) < also {
                open[*v as usize] = true;
            }
        }
        for (v, _) in &start {
            open[*v as usize] = true;
        }
        self.search(Some(&open), &start, policy, bold, None, r, guesses)
    }

    /// Give one cell in the middle a chosen value: what it follows from and what follows from that is
    /// derived anew, from there outwards; `keep` stays as it is.
    pub fn middle(&mut self, plan: &Plan, keep: &[(usize, usize)], policy: u64, bold: u64, r: &mut Rng, guesses: &mut u64) -> End {
        let nv = self.members.len();
        let mut held = vec![false; nv];
        for at in keep {
            if let Some(v) = self.var_of.get(at) {
                held[*v as usize] = true;
            }
        }
        let mut open = vec![false; nv];
        let mut start: Vec<(V, F)> = vec![];
        let at = r.below(nv as u64) as usize;
        for k in 0..nv {
            let v = (at + k) % nv;
            if !held[v] && !self.public[v] && self.pinned[v].is_none() {
                let x = self.bold(v as V, r);
                start.push((v as V, x));
                open[v] = true;
                break;
            }
        }
        let mut stack: Vec<V> = start.iter().map(|s| s.0).collect();
        while let Some(v) = stack.pop() {
            for u in &plan.parents[v as usize] {
                if !open[*u as usize] && !held[*u as usize] {
                    open[*u as usize] = true;
                    stack.push(*u);
                }
            }
        }
        let mut stack: Vec<V> = (0..nv as V).filter(|v| open[*v as usize]).collect();
        while let Some(v) = stack.pop() {
            for u in &plan.children[v as usize] {
                if !open[*u as usize] && !held[*u as usize] {
                    open[*u as usize] = true;
                    stack.push(*u);
                }
            }
        }
        self.search(Some(&open), &start, policy, bold, None, r, guesses)
    }

    fn bold(&self, v: V, r: &mut Rng) -> F {
        let h = self.honest_of(v);
        match r.below(8) {
            0 => F::ZERO,
            1 => F::ONE,
            2 => h + F::ONE,
            3 => self.honest_of(r.below(self.members.len() as u64) as V),
            _ => random(r),
        }
    }

    /// `open`: the cells that are not fixed to their honest values beforehand
    #[allow(clippy::too_many_arguments)]
    fn search(&mut self, open: Option<&[bool]>, start: &[(V, F)], policy: u64, bold: u64, mut plan: Option<&mut Plan>, r: &mut Rng, guesses: &mut u64) -> End {
        let nv = self.members.len();
        let mut tmp = vec![];
        let honest = plan.is_some();
        let mut known = vec![false; nv];
        let mut left: Vec<u32> = self.insts.iter().map(|i| i.vars.len() as u32).collect();
        let mut queue: Vec<u32> = vec![];
        // honest cells follow forwards, from few cells at a time
        let widest = if honest { 4 } else { *r.pick(&[4, 9]) };
        let late = r.chance(3, 4);
        let mut gr = Groups { widest, touched: vec![], cand: vec![], flag: vec![false; self.insts.len()], tried: HashMap::new() };
        macro_rules! assign {
            ($v:expr, $x:expr) => {{
                let (v, x) = ($v, $x);
                self.set(v, x);
                known[v as usize] = true;
                let mut ok = true;
                for k in 0..self.of_var[v as usize].len() {
                    let i = self.of_var[v as usize][k];
                    left[i as usize] -= 1;
                    if left[i as usize] == 0 && self.eval(i, &mut tmp) != F::ZERO {
                        ok = false;
                    }
                    if left[i as usize] == 1 {
                        queue.push(i);
                    } else if left[i as usize] > 1 {
                        gr.touched.push(i);
                    }
                }
                if !ok {
                    return End::Contradiction;
                }
            }};
        }
        if let Some(open) = open {
            for v in 0..nv {
                if !open[v] {
                    let h = self.honest_of(v as V);
                    self.set(v as V, h);
                    known[v] = true;
                    for i in &self.of_var[v] {
                        left[*i as usize] -= 1;
                    }
                }
            }
        }
        for v in 0..nv {
            if let Some(x) = self.pinned[v] {
                if !known[v] {
                    assign!(v as V, x);
                }
            }
        }
        for (v, x) in start {
            if !known[*v as usize] {
                assign!(*v, *x);
            }
        }
        queue.clear();
        gr.touched.clear();
        for i in 0..self.insts.len() {
            if left[i] == 1 {
                queue.push(i as u32);
            } else if left[i] > 1 {
                gr.cand.push(i as u32);
                gr.flag[i] = true;
            }
        }
        let mut closed: V = 0;
        loop {
            // forced values
            let mut later: Vec<u32> = vec![];
            while let Some(i) = queue.pop() {
                if left[i as usize] != 1 {
                    continue;
                }
                if self.insts[i as usize].poly.is_err() {
                    later.push(i);
                    continue;
                }
                let v = *self.insts[i as usize].vars.iter().find(|v| !known[**v as usize]).unwrap();
                match self.pick(i, v, &left, honest, r, &mut tmp) {
                    Pick::Any => {}
                    Pick::None => return End::Contradiction,
                    Pick::One(x) => {
                        if let Some(p) = plan.as_deref_mut() {
                            for u in self.insts[i as usize].vars.iter().filter(|u| **u != v) {
                                p.children[*u as usize].push(v);
                            }
                        }
                        assign!(v, x)
                    }
                }
            }
            // lookups with one unknown cell
            let mut moved = false;
            for i in later {
                if left[i as usize] != 1 {
                    continue;
                }
                let v = *self.insts[i as usize].vars.iter().find(|v| !known[**v as usize]).unwrap();
                if self.of_var[v as usize].iter().any(|j| self.insts[*j as usize].poly.is_ok() && left[*j as usize] > 1) && r.chance(1, 2) {
                    // something else may still determine it
                    continue;
                }
                match self.pick(i, v, &left, honest, r, &mut tmp) {
                    Pick::Any => {}
                    Pick::None => return End::Contradiction,
                    Pick::One(x) => {
                        if let Some(p) = plan.as_deref_mut() {
                            // a lookup allows several values
                            p.free.push(v);
                            for u in self.insts[i as usize].vars.iter().filter(|u| **u != v) {
                                p.children[*u as usize].push(v);
                            }
                        }
                        assign!(v, x);
                        moved = true;
                        break;
                    }
                }
            }
            if moved {
                for i in 0..self.insts.len() {
                    if left[i] == 1 && self.insts[i].poly.is_err() {
                        queue.push(i as u32);
                    }
                }
                continue;
            }
            // small groups
            if let Some(sol) = self.group(&mut gr, &known, &left, r, &mut tmp) {
                match sol {
                    Ok((vals, from)) => {
                        for (v, x) in vals {
                            if let Some(p) = plan.as_deref_mut() {
                                for u in from.iter().filter(|u| **u != v) {
                                    p.children[*u as usize].push(v);
                                }
                            }
                            assign!(v, x);
                        }
                        continue;
                    }
                    Err(()) => return End::Contradiction,
                }
            }
            // a guess
            while (closed as usize) < nv && known[closed as usize] {
                closed += 1;
            }
            if closed as usize == nv {
                return End::Accepted;
            }
            let mut open: Vec<V> = (closed..nv as V).filter(|v| !known[*v as usize]).collect();
            if late && open.iter().any(|v| !self.public[*v as usize]) {
                open.retain(|v| !self.public[*v as usize]);
            }
            *guesses += 1;
            let lowest = |s: &Self| *open.iter().min_by_key(|v| s.members[**v as usize].iter().map(|m| m.1).min().unwrap_or(0)).unwrap();
            let v = match policy {
                0 | 5 => {
                    // what the outside sees can still settle a constraint by itself
                    let loose = |s: &Self, i: usize| s.insts[i].vars.iter().any(|v| !known[*v as usize] && s.public[*v as usize]);
                    let mut l: Vec<usize> = (0..left.len()).filter(|i| left[*i] > 0).collect();
                    if policy == 5 && late && l.iter().any(|i| !loose(self, *i)) {
                        l.retain(|i| !loose(self, *i));
                    }
                    let best = l.iter().map(|i| left[*i]).min();
                    match best {
                        Some(b) => {
                            let c: Vec<usize> = l.into_iter().filter(|i| left[*i] == b).collect();
                            let i = *r.pick(&c);
                            let u: Vec<V> = self.insts[i].vars.iter().copied().filter(|v| !known[*v as usize]).collect();
                            let w: Vec<V> = u.iter().copied().filter(|v| !late || !self.public[*v as usize]).collect();
                            *r.pick(if w.is_empty() { &u } else { &w })
                        }
                        None => *r.pick(&open),
                    }
                }
                3 => {
                    // cells that other regions are tied to come first: what follows from them is then computed, not guessed
                    let l: Vec<V> = open.iter().copied().filter(|v| self.members[*v as usize].len() > 1).collect();
                    if l.is_empty() {
                        lowest(self)
                    } else {
                        *r.pick(&l)
                    }
                }
                4 => {
                    // cells nothing else is tied to come first: what other regions see then follows from them
                    match open.iter().copied().filter(|v| self.members[*v as usize].len() == 1).min_by_key(|v| self.members[*v as usize][0].1) {
                        Some(v) => v,
                        None => lowest(self),
                    }
                }
                1 => lowest(self),
                _ => *r.pick(&open),
            };
            let mut val = None;
            for _ in 0..6 {
                let x = if honest || r.below(100) >= bold { self.honest_of(v) } else { self.bold(v, r) };
                let fits = (0..self.of_var[v as usize].len()).all(|k| {
                    let i = self.of_var[v as usize][k];
                    left[i as usize] != 1 || self.at(i, v, x, &mut tmp) == F::ZERO
                });
                if fits {
                    val = Some(x);
                    break;
                }
            }
            match val {
                Some(x) => {
                    if let Some(p) = plan.as_deref_mut() {
                        p.free.push(v);
                    }
                    assign!(v, x)
                }
                None => return End::Contradiction,
            }
        }
    }

    fn pick(&mut self, i: u32, v: V, left: &[u32], honest: bool, r: &mut Rng, tmp: &mut Vec<F>) -> Pick<F> {
        let Some(c) = self.roots(i, v, r, tmp) else { return Pick::Any };
        let mut good = vec![];
        for x in c {
            let ok = (0..self.of_var[v as usize].len()).all(|k| {
                let j = self.of_var[v as usize][k];
                left[j as usize] != 1 || self.at(j, v, x, tmp) == F::ZERO
            });
            if ok {
                good.push(x);
            }
        }
        if good.is_empty() {
            return Pick::None;
        }
        let h = self.honest_of(v);
        if honest && good.contains(&h) {
            return Pick::One(h);
        }
        Pick::One(*r.pick(&good))
    }

    /// Constraints over a few unknowns that are jointly linear, possibly after replacing an unknown by
    /// its (shifted) fifth power or taking the fifth root of a constraint: solve them, or find those of
    /// the unknowns that they determine.
    #[allow(clippy::type_complexity)]
    fn group(&mut self, gr: &mut Groups, known: &[bool], left: &[u32], r: &mut Rng, tmp: &mut Vec<F>) -> Option<Result<(Vec<(V, F)>, Vec<V>), ()>> {
        // what has changed since the last time
        let mut seen: HashSet<V> = HashSet::new();
        for i in std::mem::take(&mut gr.touched) {
            for u in &self.insts[i as usize].vars {
                if !known[*u as usize] && seen.insert(*u) {
                    for j in &self.of_var[*u as usize] {
                        if !gr.flag[*j as usize] {
                            gr.flag[*j as usize] = true;
                            gr.cand.push(*j);
                        }
                    }
                }
            }
        }
        let mut cand = std::mem::take(&mut gr.cand);
        cand.retain(|i| {
            let keep = (2..=gr.widest).contains(&left[*i as usize]) && self.insts[*i as usize].poly.is_ok();
            if !keep {
                gr.flag[*i as usize] = false;
            }
            keep
        });
        cand.sort_by_key(|i| (left[*i as usize], *i));
        for at in 0..cand.len() {
            {
                let i = cand[at] as usize;
                gr.flag[i] = false;
                let us: Vec<V> = self.insts[i].vars.iter().copied().filter(|v| !known[*v as usize]).collect();
                // everything that talks about these unknowns only
                let mut js: Vec<u32> = us.iter().flat_map(|u| self.of_var[*u as usize].iter().copied()).collect();
                js.sort();
                js.dedup();
                js.retain(|j| left[*j as usize] > 0 && self.insts[*j as usize].poly.is_ok() && self.insts[*j as usize].vars.iter().all(|v| known[*v as usize] || us.contains(v)));
                if js.len() < us.len().min(2) || gr.tried.insert(us.clone(), js.len()) == Some(js.len()) {
                    continue;
                }
                let Some(rows) = self.linearise(&js, &us, r, tmp) else { continue };
                // unknowns first, then their fifth powers
                let n = us.len();
                let shift = rows.1;
                match gauss(rows.0, 2 * n) {
                    Sol::None => return Some(Err(())),
                    Sol::Some(x) => {
                        let mut out: Vec<(V, F)> = vec![];
                        for (k, u) in us.iter().enumerate() {
                            let lin = x[k];
                            let pow = x[n + k].map(|y| fifth_root(y) - shift[k].unwrap_or(F::ZERO));
                            match (lin, pow) {
                                (Some(a), Some(b)) if a != b => return Some(Err(())),
                                (Some(a), _) => out.push((*u, a)),
                                (None, Some(b)) => out.push((*u, b)),
                                _ => {}
                            }
                        }
                        if !out.is_empty() {
                            gr.cand = cand[at + 1..].to_vec();
                            let mut from: Vec<V> = js.iter().flat_map(|j| self.insts[*j as usize].vars.iter().copied()).filter(|v| known[*v as usize]).collect();
                            from.sort();
                            from.dedup();
                            return Some(Ok((out, from)));
                        }
                    }
                }
            }
        }
        None
    }

    /// rows over (unknowns, their fifth powers), and the shift of each fifth power
    #[allow(clippy::type_complexity)]
    fn linearise(&mut self, js: &[u32], us: &[V], r: &mut Rng, tmp: &mut Vec<F>) -> Option<(Vec<(Vec<F>, F)>, Vec<Option<F>>)> {
        let n = us.len();
        let zero = F::ZERO;
        let five = F::from(5);
        let mut shift: Vec<Option<F>> = vec![None; n];
        let mut rows = vec![];
        for j in js {
            let j = *j;
            for u in us {
                self.set(*u, zero);
            }
            let c = self.eval(j, tmp);
            // per unknown: coefficient of x, coefficient of (x + shift)^5, shift
            let mut lin = vec![zero; n];
            let mut fifth: Vec<Option<(F, F)>> = vec![None; n];
            for (k, u) in us.iter().enumerate() {
                if !self.insts[j as usize].vars.contains(u) {
                    continue;
                }
                let f: Vec<F> = (0..4).map(|t| self.at(j, *u, F::from(t), tmp)).collect();
                if f[3] - f[2] == f[1] - f[0] && f[2] - f[1] == f[1] - f[0] {
                    lin[k] = f[1] - f[0];
                    self.set(*u, zero);
                    continue;
                }
                let mut g = f;
                g.extend((4..8).map(|t| self.at(j, *u, F::from(t), tmp)));
                self.set(*u, zero);
                let mut co = interpolate(&g, &self.inv_fact);
                while co.last() == Some(&zero) {
                    co.pop();
                }
                if co.len() != 6 {
                    return None;
                }
                let a = co[5];
                let s = co[4] * (five * a).invert().unwrap();
                let (s2, s3, s4) = (s.square(), s.square() * s, s.square().square());
                let full = [a * five * s4, a * F::from(10) * s3, a * F::from(10) * s2];
                // what is left of the linear term is linear
                if co[2] != full[1] || co[3] != full[2] {
                    return None;
                }
                lin[k] = co[1] - full[0];
                fifth[k] = Some((a, s));
            }
            let pt: Vec<F> = us.iter().map(|_| random(r)).collect();
            for (u, x) in us.iter().zip(&pt) {
                self.set(*u, *x);
            }
            let got = self.eval(j, tmp);
            let pow5 = |x: F| x.square().square() * x;
            // a sum of separate terms?
            let base = c - fifth.iter().flatten().fold(zero, |t, (a, s)| t + *a * pow5(*s));
            let sum = (0..n).fold(base, |t, k| t + lin[k] * pt[k] + fifth[k].map_or(zero, |(a, s)| a * pow5(pt[k] + s)));
            if sum == got {
                let mut row = lin.clone();
                row.extend(fifth.iter().map(|f| f.map_or(zero, |f| f.0)));
                for k in 0..n {
                    if let Some((_, s)) = fifth[k] {
                        if *shift[k].get_or_insert(s) != s {
                            return None;
                        }
                    }
                }
                rows.push((row, -base));
                continue;
            }
            // the fifth power of one affine form?
            let b: Vec<F> = fifth.iter().map(|f| f.map_or(zero, |f| fifth_root(f.0))).collect();
            let Some(k0) = (0..n).find(|k| fifth[*k].is_some()) else { return None };
            let l0 = b[k0] * fifth[k0].unwrap().1;
            let d = c - pow5(l0);
            let at = (0..n).fold(l0, |t, k| t + b[k] * pt[k]);
            if lin.iter().any(|x| *x != zero) || pow5(at) + d != got {
                return None;
            }
            let mut row = b;
            row.extend(vec![zero; n]);
            rows.push((row, fifth_root(-d) - l0));
        }
        Some((rows, shift))
    }

    /// write the witness back for an independent check
    pub fn grid(&self, g: &Grid<F>) -> Grid<F> {
        let mut o = g.clone();
        for m in self.members.iter().flatten() {
            o.advice[m.0][m.1] = Some(self.cells.adv[m.0][m.1]);
        }
        o
    }
}

/// What an honest witness follows from.
pub struct Plan {
    pub free: Vec<V>,
    given: Vec<V>,
    children: Vec<Vec<V>>,
    parents: Vec<Vec<V>>,
    /// the derivation reached the end
    pub whole: bool,
}
/// constraints whose neighbourhood has changed since they were last looked at
struct Groups {
    widest: u32,
    touched: Vec<u32>,
    cand: Vec<u32>,
    flag: Vec<bool>,
    tried: HashMap<Vec<V>, usize>,
}
enum Pick<F> {
    Any,
    None,
    One(F),
}
enum Sol<F> {
    None,
    /// the determined ones
    Some(Vec<Option<F>>),
}

fn gauss<F: PrimeField>(mut m: Vec<(Vec<F>, F)>, n: usize) -> Sol<F> {
    let mut at = 0;
    let mut piv = vec![];
    for c in 0..n {
        let Some(p) = (at..m.len()).find(|i| m[*i].0[c] != F::ZERO) else { continue };
        m.swap(at, p);
        let inv = m[at].0[c].invert().unwrap();
        for x in m[at].0.iter_mut() {
            *x *= inv;
        }
        m[at].1 *= inv;
        let (row, rhs) = m[at].clone();
        for (i, (r, b)) in m.iter_mut().enumerate() {
            if i != at && r[c] != F::ZERO {
                let k = r[c];
                for (x, y) in r.iter_mut().zip(&row) {
                    *x -= k * y;
                }
                *b -= k * rhs;
            }
        }
        piv.push(c);
        at += 1;
    }
    if m[at..].iter().any(|(_, b)| *b != F::ZERO) {
        return Sol::None;
    }
    let mut out = vec![None; n];
    for (i, c) in piv.iter().enumerate() {
        if m[i].0.iter().enumerate().all(|(k, x)| k == *c || *x == F::ZERO) {
            out[*c] = Some(m[i].1);
        }
    }
    Sol::Some(out)
}

/// coefficients, lowest first, of the polynomial through (0, g0), (1, g1), ...
fn interpolate<F: PrimeField>(g: &[F], inv_fact: &[F; 8]) -> Vec<F> {
    // Newton's forward differences
    let n = g.len();
    let mut d = g.to_vec();
    let mut newton = vec![d[0]];
    for k in 1..n {
        for j in 0..n - k {
            d[j] = d[j + 1] - d[j];
        }
        newton.push(d[0] * inv_fact[k]);
    }
    let mut co = vec![F::ZERO; n];
    let mut basis = vec![F::ONE];
    for k in 0..n {
        for (j, b) in basis.iter().enumerate() {
            co[j] += newton[k] * b;
        }
        // basis *= (x - k)
        let mut nb = vec![F::ZERO; basis.len() + 1];
        for (j, b) in basis.iter().enumerate() {
            nb[j + 1] += b;
            nb[j] -= F::from(k as u64) * b;
        }
        basis = nb;
    }
    co
}

pub fn random<F: PrimeField>(r: &mut Rng) -> F {
    let mut x = F::ZERO;
    let b = F::from(1 << 32).square();
    for _ in 0..4 {
        x = x * b + F::from(r.next());
    }
    x
}

/// x -> x^(1/5): the fifth power is a permutation of both fields in use
pub fn fifth_root<F: PrimeField>(x: F) -> F {
    // p - 1 from -1
    let mut e: Vec<u64> = vec![];
    let repr = (-F::ONE).to_repr();
    for c in repr.as_ref().chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        e.push(u64::from_le_bytes(b));
    }
    // 1/5 mod (p-1) = (k (p-1) + 1) / 5 for the k that makes it whole
    let m5 = e.iter().rev().fold(0u64, |a, w| ((a as u128 * (1u128 << 64) + *w as u128) % 5) as u64);
    let k = (1..5).find(|k| (k * m5 + 1) % 5 == 0).unwrap_or(0);
    let mut carry = 1u128;
    let mut n = vec![];
    for w in &e {
        let t = *w as u128 * k as u128 + carry;
        n.push(t as u64);
        carry = t >> 64;
    }
    n.push(carry as u64);
    let mut rem = 0u128;
    for w in n.iter_mut().rev() {
        let t = (rem << 64) | *w as u128;
        *w = (t / 5) as u64;
        rem = t % 5;
    }
    x.pow_vartime(&n)
}
