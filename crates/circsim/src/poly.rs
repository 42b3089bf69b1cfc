//! Gates and lookups compiled to shared straight-line programs.
use ff::PrimeField;
use halo2_proofs::plonk::{ConstraintSystem, Expression};
use halo2_proofs::sim::Grid;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u32),
    Fixed(u32, i32),
    Sel(u32),
    Adv(u32, i32),
    Add(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    Scale(u32, u32),
}

#[derive(Clone, Debug)]
pub struct Poly {
    pub gate: usize,
    pub idx: usize,
    pub guards: Vec<(u32, Vec<u32>)>,
    pub root: u32,
    pub order: Vec<u32>,
    /// the advice cells it reads
    pub adv: Vec<(u32, i32)>,
    /// the fixed cells and selectors it reads
    pub fixed: Vec<u32>,
}
#[derive(Clone, Debug)]
pub struct Look {
    pub inputs: Vec<Poly>,
    pub tables: Vec<Poly>,
}
#[derive(Clone, Debug)]
pub struct Prog<F> {
    pub nodes: Vec<Node>,
    pub consts: Vec<F>,
    pub polys: Vec<Poly>,
    pub looks: Vec<Look>,
    pub names: Vec<String>,
}

/// A constraint at a row whose fixed cells are known.
#[derive(Clone, Debug)]
pub struct Spec {
    order: Vec<u32>,
    root: u32,
    pub adv: Vec<(u32, i32)>,
}
impl Spec {
    const ZERO: u32 = 1 << 31;
}

/// A circuit's cells, unassigned ones being zero.
#[derive(Clone, Debug)]
pub struct Cells<F> {
    pub n: usize,
    pub usable: usize,
    pub adv: Vec<Vec<F>>,
    pub fixed: Vec<Vec<F>>,
    pub sel: Vec<Vec<bool>>,
}
impl<F: PrimeField> Cells<F> {
    pub fn of(g: &Grid<F>) -> Self {
        let z = |c: &Vec<Option<F>>| c.iter().map(|v| v.unwrap_or(F::ZERO)).collect::<Vec<F>>();
        Cells { n: g.n, usable: g.usable, adv: g.advice.iter().map(z).collect(), fixed: g.fixed.iter().map(z).collect(), sel: g.selectors.clone() }
    }
}

struct Build<F> {
    nodes: Vec<Node>,
    ids: HashMap<Node, u32>,
    consts: Vec<F>,
    cids: HashMap<Vec<u8>, u32>,
}
impl<F: PrimeField> Build<F> {
    fn put(&mut self, n: Node) -> u32 {
        if let Some(i) = self.ids.get(&n) {
            return *i;
        }
        self.nodes.push(n);
        let i = self.nodes.len() as u32 - 1;
        self.ids.insert(n, i);
        i
    }
    fn konst(&mut self, f: F) -> u32 {
        let k = f.to_repr().as_ref().to_vec();
        if let Some(i) = self.cids.get(&k) {
            return *i;
        }
        self.consts.push(f);
        let i = self.consts.len() as u32 - 1;
        self.cids.insert(k, i);
        i
    }
    fn expr(&mut self, e: &Expression<F>) -> u32 {
        let n = match e {
            Expression::Constant(c) => Node::Const(self.konst(*c)),
            Expression::Selector(s) => Node::Sel(s.0 as u32),
            Expression::Fixed(q) => Node::Fixed(q.column_index as u32, q.rotation.0),
            Expression::Advice(q) => Node::Adv(q.column_index as u32, q.rotation.0),
            Expression::Instance(_) | Expression::Challenge(_) => Node::Const(self.konst(F::ZERO)),
            Expression::Negated(a) => Node::Neg(self.expr(a)),
            Expression::Sum(a, b) => {
                let (a, b) = (self.expr(a), self.expr(b));
                Node::Add(a, b)
            }
            Expression::Product(a, b) => {
                let (a, b) = (self.expr(a), self.expr(b));
                Node::Mul(a, b)
            }
            Expression::Scaled(a, f) => {
                let a = self.expr(a);
                Node::Scale(a, self.konst(*f))
            }
        };
        self.put(n)
    }
    fn order(&self, root: u32) -> Vec<u32> {
        let mut seen = HashSet::new();
        let mut out = vec![];
        // children always have smaller ids than their parent
        let mut stack = vec![root];
        while let Some(i) = stack.pop() {
            if !seen.insert(i) {
                continue;
            }
            out.push(i);
            match self.nodes[i as usize] {
                Node::Add(a, b) | Node::Mul(a, b) => stack.extend([a, b]),
                Node::Neg(a) | Node::Scale(a, _) => stack.push(a),
                _ => {}
            }
        }
        out.sort();
        out
    }
    fn fixed_only(&self, root: u32) -> bool {
        self.order(root).iter().all(|i| !matches!(self.nodes[*i as usize], Node::Adv(..)))
    }
    fn guards(&self, root: u32, out: &mut Vec<u32>) {
        if self.fixed_only(root) {
            out.push(root);
        } else if let Node::Mul(a, b) = self.nodes[root as usize] {
            self.guards(a, out);
            self.guards(b, out);
        } else if let Node::Neg(a) | Node::Scale(a, _) = self.nodes[root as usize] {
            self.guards(a, out);
        }
    }
    fn poly(&self, gate: usize, idx: usize, root: u32) -> Poly {
        let mut g = vec![];
        self.guards(root, &mut g);
        let order = self.order(root);
        let adv = order
            .iter()
            .filter_map(|i| match self.nodes[*i as usize] {
                Node::Adv(c, r) => Some((c, r)),
                _ => None,
            })
            .collect();
        let fixed = order.iter().copied().filter(|i| matches!(self.nodes[*i as usize], Node::Fixed(..) | Node::Sel(_))).collect();
        Poly { gate, idx, guards: g.into_iter().map(|r| (r, self.order(r))).collect(), root, order, adv, fixed }
    }
}

pub fn compile<F: PrimeField>(cs: &ConstraintSystem<F>) -> Prog<F> {
    let mut b = Build { nodes: vec![], ids: HashMap::new(), consts: vec![], cids: HashMap::new() };
    let mut polys = vec![];
    for (g, gate) in cs.gates.iter().enumerate() {
        for (i, p) in gate.polys.iter().enumerate() {
            let r = b.expr(p);
            polys.push(b.poly(g, i, r));
        }
    }
    let mut looks = vec![];
    for l in &cs.lookups {
        let mut f = |es: &Vec<Expression<F>>| {
            es.iter()
                .map(|e| {
                    let r = b.expr(e);
                    b.poly(0, 0, r)
                })
                .collect::<Vec<_>>()
        };
        let inputs = f(&l.inputs);
        let tables = f(&l.tables);
        looks.push(Look { inputs, tables });
    }
    Prog { nodes: b.nodes, consts: b.consts, polys, looks, names: cs.gates.iter().map(|g| g.name.to_string()).collect() }
}

pub fn wrap(row: usize, rot: i32, n: usize) -> usize {
    (row as i64 + rot as i64).rem_euclid(n as i64) as usize
}

impl<F: PrimeField> Prog<F> {
    pub fn run(&self, order: &[u32], root: u32, row: usize, c: &Cells<F>, tmp: &mut Vec<F>) -> F {
        if tmp.len() < self.nodes.len() {
            tmp.resize(self.nodes.len(), F::ZERO);
        }
        for &i in order {
            let v = match self.nodes[i as usize] {
                Node::Const(k) => self.consts[k as usize],
                Node::Fixed(col, rot) => c.fixed[col as usize][wrap(row, rot, c.n)],
                Node::Adv(col, rot) => c.adv[col as usize][wrap(row, rot, c.n)],
                Node::Sel(s) => {
                    if c.sel[s as usize][row] {
                        F::ONE
                    } else {
                        F::ZERO
                    }
                }
                Node::Add(a, b) => tmp[a as usize] + tmp[b as usize],
                Node::Mul(a, b) => tmp[a as usize] * tmp[b as usize],
                Node::Neg(a) => -tmp[a as usize],
                Node::Scale(a, k) => tmp[a as usize] * self.consts[k as usize],
            };
            tmp[i as usize] = v;
        }
        tmp[root as usize]
    }
    /// the fixed cells and selectors a constraint sees at a row
    pub fn fixed(&self, p: &Poly, row: usize, c: &Cells<F>) -> Vec<F> {
        p.fixed
            .iter()
            .map(|i| match self.nodes[*i as usize] {
                Node::Fixed(col, rot) => c.fixed[col as usize][wrap(row, rot, c.n)],
                Node::Sel(s) if c.sel[s as usize][row] => F::ONE,
                _ => F::ZERO,
            })
            .collect()
    }
    /// What is left of a constraint at a row once its fixed cells are known: products with a zero go,
    /// and with them the advice cells that do not matter there.
    pub fn specialise(&self, p: &Poly, row: usize, c: &Cells<F>, tmp: &mut Vec<F>) -> Spec {
        if tmp.len() < self.nodes.len() {
            tmp.resize(self.nodes.len(), F::ZERO);
        }
        // 0: depends on advice cells, 1: constant, 2: zero
        let mut kind: HashMap<u32, u8> = HashMap::new();
        for &i in &p.order {
            let k = |j: u32| kind[&j];
            let (v, k) = match self.nodes[i as usize] {
                Node::Adv(..) => (F::ZERO, 0),
                Node::Const(k) => (self.consts[k as usize], 1),
                Node::Fixed(col, rot) => (c.fixed[col as usize][wrap(row, rot, c.n)], 1),
                Node::Sel(s) => (if c.sel[s as usize][row] { F::ONE } else { F::ZERO }, 1),
                Node::Add(a, b) => (tmp[a as usize] + tmp[b as usize], (k(a) != 0 && k(b) != 0) as u8),
                Node::Mul(a, b) => (tmp[a as usize] * tmp[b as usize], (k(a) == 2 || k(b) == 2 || k(a) == 1 && k(b) == 1) as u8),
                Node::Neg(a) => (-tmp[a as usize], (k(a) != 0) as u8),
                Node::Scale(a, f) => (tmp[a as usize] * self.consts[f as usize], (k(a) != 0) as u8),
            };
            tmp[i as usize] = v;
            kind.insert(i, if k == 1 && v == F::ZERO { 2 } else { k });
        }
        let mut adv = vec![];
        let mut order = vec![];
        let mut seen = HashSet::new();
        let mut stack = vec![p.root];
        while let Some(i) = stack.pop() {
            if !seen.insert(i) {
                continue;
            }
            if kind[&i] == 2 {
                order.push(i | Spec::ZERO);
                continue;
            }
            order.push(i);
            match self.nodes[i as usize] {
                Node::Add(a, b) | Node::Mul(a, b) => stack.extend([a, b]),
                Node::Neg(a) | Node::Scale(a, _) => stack.push(a),
                Node::Adv(c, r) => adv.push((c, r)),
                _ => {}
            }
        }
        order.sort_by_key(|i| i & !Spec::ZERO);
        adv.sort();
        Spec { order, root: p.root, adv }
    }
    pub fn run_spec(&self, s: &Spec, row: usize, c: &Cells<F>, tmp: &mut Vec<F>) -> F {
        if tmp.len() < self.nodes.len() {
            tmp.resize(self.nodes.len(), F::ZERO);
        }
        for &i in &s.order {
            let v = match self.nodes.get(i as usize) {
                None => {
                    tmp[(i & !Spec::ZERO) as usize] = F::ZERO;
                    continue;
                }
                Some(Node::Const(k)) => self.consts[*k as usize],
                Some(Node::Fixed(col, rot)) => c.fixed[*col as usize][wrap(row, *rot, c.n)],
                Some(Node::Adv(col, rot)) => c.adv[*col as usize][wrap(row, *rot, c.n)],
                Some(Node::Sel(s)) => {
                    if c.sel[*s as usize][row] {
                        F::ONE
                    } else {
                        F::ZERO
                    }
                }
                Some(Node::Add(a, b)) => tmp[*a as usize] + tmp[*b as usize],
                Some(Node::Mul(a, b)) => tmp[*a as usize] * tmp[*b as usize],
                Some(Node::Neg(a)) => -tmp[*a as usize],
                Some(Node::Scale(a, k)) => tmp[*a as usize] * self.consts[*k as usize],
            };
            tmp[i as usize] = v;
        }
        tmp[s.root as usize]
    }
    pub fn active(&self, p: &Poly, row: usize, c: &Cells<F>, tmp: &mut Vec<F>) -> bool {
        p.guards.iter().all(|(r, o)| self.run(o, *r, row, c, tmp) != F::ZERO)
    }
    pub fn table(&self, l: &Look, c: &Cells<F>) -> (HashSet<Vec<u8>>, Vec<Vec<F>>) {
        let mut tmp = vec![];
        let mut set = HashSet::new();
        let mut vals = vec![];
        for row in 0..c.usable {
            let v: Vec<F> = l.tables.iter().map(|p| self.run(&p.order, p.root, row, c, &mut tmp)).collect();
            if set.insert(bytes(&v)) {
                vals.push(v);
            }
        }
        (set, vals)
    }
    /// the first violated gate or lookup
    pub fn verify(&self, c: &Cells<F>) -> Option<String> {
        let mut tmp = vec![];
        for p in &self.polys {
            for row in 0..c.n {
                if self.active(p, row, c, &mut tmp) && self.run(&p.order, p.root, row, c, &mut tmp) != F::ZERO {
                    return Some(format!("gate '{}' constraint {} at row {row}", self.names[p.gate], p.idx));
                }
            }
        }
        for (i, l) in self.looks.iter().enumerate() {
            let (t, _) = self.table(l, c);
            for row in 0..c.usable {
                let v: Vec<F> = l.inputs.iter().map(|p| self.run(&p.order, p.root, row, c, &mut tmp)).collect();
                if !t.contains(&bytes(&v)) {
                    return Some(format!("lookup {i} at row {row}"));
                }
            }
        }
        None
    }
}

pub fn bytes<F: PrimeField>(v: &[F]) -> Vec<u8> {
    v.iter().flat_map(|f| f.to_repr().as_ref().to_vec()).collect()
}
