//! The backend: what a prover, a key generator or a checker sees of synthesis.
use crate::circuit::*;
use crate::plonk::*;
use ff::Field;
use std::collections::HashMap;
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

/// Which values a backend asks for. `Check` records everything; `Keygen` has no witness and never
/// calls advice closures; `Prove` only wants the witness and never calls fixed closures.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Check,
    Keygen,
    Prove,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Op {
    Region,
    Regions,
    Table,
    Fork,
    Merge,
    Advice,
    Fixed,
    Selector,
    Copy,
    Fill,
}
pub const OPS: [Op; 10] = [Op::Region, Op::Regions, Op::Table, Op::Fork, Op::Merge, Op::Advice, Op::Fixed, Op::Selector, Op::Copy, Op::Fill];

/// Fail the n-th operation (of one kind, or of any kind).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Plan {
    pub kind: Option<Op>,
    pub nth: u64,
    /// that operation and all after it
    pub sticky: bool,
    pub error: u8,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub k: u32,
    pub mode: Mode,
    /// worker threads for `assign_regions`: 0 = one per sub-region, 1.. = a pool of that many
    pub pool: usize,
    /// run sub-regions on the calling thread (a backend whose pool has no spare worker)
    pub inline: bool,
    /// order in which sub-regions are handed to workers
    pub order: u64,
    pub annotate: bool,
    pub fault: Option<Plan>,
    /// rows of every column taken by something else before the chip is loaded
    pub used: usize,
    /// called at every backend operation
    pub point: Option<fn()>,
    /// called by the worker before and after sub-region i
    pub worker: Option<(fn(usize), fn(usize))>,
}
impl Opts {
    pub fn new(k: u32) -> Self {
        Opts { k, mode: Mode::Check, pool: 0, inline: false, order: 0, annotate: false, fault: None, used: 0, point: None, worker: None }
    }
}

pub type At = (Column<Any>, usize);

#[derive(Debug, Default)]
pub struct Counters {
    pub by_kind: [AtomicU64; 10],
    pub total: AtomicU64,
    pub fired: AtomicU64,
    pub workers: AtomicU64,
}

/// What synthesis left behind.
#[derive(Clone, Debug, PartialEq)]
pub struct Grid<F> {
    pub n: usize,
    pub usable: usize,
    pub advice: Vec<Vec<Option<F>>>,
    pub fixed: Vec<Vec<Option<F>>>,
    pub selectors: Vec<Vec<bool>>,
    pub instance: Vec<Vec<F>>,
    pub copies: Vec<(At, At)>,
}

#[derive(Clone)]
struct Ctx<F: Field> {
    cs: Arc<ConstraintSystem<F>>,
    opts: Arc<Opts>,
    count: Arc<Counters>,
    usable: usize,
}
impl<F: Field> Ctx<F> {
    fn op(&self, kind: Op) -> Result<(), Error> {
        if let Some(p) = self.opts.point {
            p();
        }
        let a = self.count.total.fetch_add(1, SeqCst);
        let b = self.count.by_kind[kind as usize].fetch_add(1, SeqCst);
        if let Some(f) = self.opts.fault {
            let at = match f.kind {
                None => Some(a),
                Some(k) if k == kind => Some(b),
                _ => None,
            };
            if let Some(i) = at {
                if i == f.nth || (f.sticky && i > f.nth) {
                    self.count.fired.fetch_add(1, SeqCst);
                    return Err(match f.error {
                        0 => Error::not_enough_rows_available(self.opts.k),
                        1 => Error::Synthesis,
                        2 => Error::BoundsFailure,
                        _ => Error::ConstraintSystemFailure,
                    });
                }
            }
        }
        Ok(())
    }
    fn row(&self, r: usize) -> Result<(), Error> {
        if r < self.usable {
            Ok(())
        } else {
            Err(Error::not_enough_rows_available(self.opts.k))
        }
    }
}

enum W<F> {
    Adv(usize, usize, F),
    Fix(usize, usize, F),
    Sel(usize, usize),
    Copy(At, At),
}

/// The rows one worker (or the main thread) may write, and what it wrote.
struct Part<F: Field> {
    ctx: Ctx<F>,
    rows: Range<usize>,
    log: Vec<W<F>>,
}
impl<F: Field> Part<F> {
    fn own(&self, row: usize) -> Result<(), Error> {
        self.ctx.row(row)?;
        if self.rows.contains(&row) {
            Ok(())
        } else {
            // outside of the rows this fork was given
            Err(Error::Synthesis)
        }
    }
    fn advice(&mut self, c: Column<Advice>, row: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<(), Error> {
        self.ctx.op(Op::Advice)?;
        self.own(row)?;
        if self.ctx.opts.mode != Mode::Keygen {
            let v = to().evaluate().assign()?;
            self.log.push(W::Adv(c.index, row, v));
        }
        Ok(())
    }
    fn fixed(&mut self, c: Column<Fixed>, row: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<(), Error> {
        self.ctx.op(Op::Fixed)?;
        self.own(row)?;
        if self.ctx.opts.mode != Mode::Prove {
            let v = to().evaluate().assign()?;
            self.log.push(W::Fix(c.index, row, v));
        }
        Ok(())
    }
    fn selector(&mut self, s: &Selector, row: usize) -> Result<(), Error> {
        self.ctx.op(Op::Selector)?;
        self.own(row)?;
        self.log.push(W::Sel(s.0, row));
        Ok(())
    }
    fn copy(&mut self, a: At, b: At) -> Result<(), Error> {
        self.ctx.op(Op::Copy)?;
        self.ctx.row(a.1)?;
        self.ctx.row(b.1)?;
        for c in [a.0, b.0] {
            if !self.ctx.cs.equality.contains(&c) {
                return Err(Error::ColumnNotInPermutation(c));
            }
        }
        self.log.push(W::Copy(a, b));
        Ok(())
    }
}

struct Shape {
    index: RegionIndex,
    columns: Vec<RegionColumn>,
    rows: usize,
    annotate: bool,
}
impl Shape {
    fn new(index: usize, annotate: bool) -> Self {
        Shape { index: RegionIndex(index), columns: vec![], rows: 0, annotate }
    }
    fn touch(&mut self, c: RegionColumn, offset: usize) {
        if !self.columns.contains(&c) {
            self.columns.push(c);
        }
        self.rows = self.rows.max(offset + 1);
    }
    fn cell(&self, c: Column<Any>, offset: usize) -> Cell {
        Cell { region_index: self.index, row_offset: offset, column: c }
    }
}
impl<F: Field> RegionLayouter<F> for Shape {
    fn annotate(&self) -> bool {
        self.annotate
    }
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error> {
        self.touch(RegionColumn::Selector(s.0), offset);
        Ok(())
    }
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, _: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        self.touch(RegionColumn::Column(c.into()), offset);
        Ok(self.cell(c.into(), offset))
    }
    fn assign_advice_from_constant(&mut self, c: Column<Advice>, offset: usize, _: Assigned<F>) -> Result<Cell, Error> {
        self.touch(RegionColumn::Column(c.into()), offset);
        Ok(self.cell(c.into(), offset))
    }
    fn assign_advice_from_instance(&mut self, _: Column<Instance>, _: usize, c: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error> {
        self.touch(RegionColumn::Column(c.into()), offset);
        Ok((self.cell(c.into(), offset), Value::unknown()))
    }
    fn instance_value(&mut self, _: Column<Instance>, _: usize) -> Result<Value<F>, Error> {
        Ok(Value::unknown())
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, _: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        self.touch(RegionColumn::Column(c.into()), offset);
        Ok(self.cell(c.into(), offset))
    }
    fn constrain_constant(&mut self, _: Cell, _: Assigned<F>) -> Result<(), Error> {
        Ok(())
    }
    fn constrain_equal(&mut self, _: Cell, _: Cell) -> Result<(), Error> {
        Ok(())
    }
    fn global_offset(&self, _: usize) -> usize {
        0
    }
    fn query_advice(&self, _: Column<Advice>, _: usize) -> Result<F, Error> {
        Ok(F::ZERO)
    }
    fn query_fixed(&self, _: Column<Fixed>, _: usize) -> Result<F, Error> {
        Ok(F::ZERO)
    }
}

struct Live<'a, F: Field> {
    part: &'a mut Part<F>,
    grid: Option<&'a Grid<F>>,
    index: RegionIndex,
    starts: &'a [usize],
    constants: Vec<(Assigned<F>, Cell)>,
}
impl<F: Field> Live<'_, F> {
    fn row(&self, offset: usize) -> usize {
        self.starts[self.index.0] + offset
    }
    fn cell(&self, c: Column<Any>, offset: usize) -> Cell {
        Cell { region_index: self.index, row_offset: offset, column: c }
    }
    fn at(&self, c: &Cell) -> At {
        (c.column, self.starts[c.region_index.0] + c.row_offset)
    }
}
impl<F: Field> RegionLayouter<F> for Live<'_, F> {
    fn annotate(&self) -> bool {
        self.part.ctx.opts.annotate
    }
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error> {
        let r = self.row(offset);
        self.part.selector(s, r)
    }
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        let r = self.row(offset);
        self.part.advice(c, r, to)?;
        Ok(self.cell(c.into(), offset))
    }
    fn assign_advice_from_constant(&mut self, c: Column<Advice>, offset: usize, constant: Assigned<F>) -> Result<Cell, Error> {
        let cell = self.assign_advice(c, offset, &mut || Value::known(constant))?;
        self.constrain_constant(cell, constant)?;
        Ok(cell)
    }
    fn assign_advice_from_instance(&mut self, inst: Column<Instance>, row: usize, c: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error> {
        let v = self.instance_value(inst, row)?;
        let cell = self.assign_advice(c, offset, &mut || v.to_field())?;
        let at = self.at(&cell);
        self.part.copy(at, (inst.into(), row))?;
        Ok((cell, v))
    }
    fn instance_value(&mut self, inst: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.part.ctx.row(row)?;
        Ok(match self.grid {
            Some(g) if self.part.ctx.opts.mode != Mode::Keygen => Value::known(g.instance[inst.index].get(row).copied().unwrap_or(F::ZERO)),
            _ => Value::unknown(),
        })
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error> {
        let r = self.row(offset);
        self.part.fixed(c, r, to)?;
        Ok(self.cell(c.into(), offset))
    }
    fn constrain_constant(&mut self, cell: Cell, constant: Assigned<F>) -> Result<(), Error> {
        self.constants.push((constant, cell));
        Ok(())
    }
    fn constrain_equal(&mut self, a: Cell, b: Cell) -> Result<(), Error> {
        let (a, b) = (self.at(&a), self.at(&b));
        self.part.copy(a, b)
    }
    fn global_offset(&self, offset: usize) -> usize {
        self.row(offset)
    }
    fn query_advice(&self, c: Column<Advice>, offset: usize) -> Result<F, Error> {
        let r = self.row(offset);
        self.part.ctx.row(r)?;
        for w in self.part.log.iter().rev() {
            if let W::Adv(i, row, v) = w {
                if (*i, *row) == (c.index, r) {
                    return Ok(*v);
                }
            }
        }
        Ok(self.grid.and_then(|g| g.advice[c.index][r]).unwrap_or(F::ZERO))
    }
    fn query_fixed(&self, c: Column<Fixed>, offset: usize) -> Result<F, Error> {
        let r = self.row(offset);
        self.part.ctx.row(r)?;
        for w in self.part.log.iter().rev() {
            if let W::Fix(i, row, v) = w {
                if (*i, *row) == (c.index, r) {
                    return Ok(*v);
                }
            }
        }
        Ok(self.grid.and_then(|g| g.fixed[c.index][r]).unwrap_or(F::ZERO))
    }
}

struct LiveTable<'a, F: Field> {
    part: &'a mut Part<F>,
    used: &'a [TableColumn],
    default_and_len: Vec<(TableColumn, Value<Assigned<F>>, Vec<bool>)>,
}
impl<F: Field> TableLayouter<F> for LiveTable<'_, F> {
    fn annotate(&self) -> bool {
        self.part.ctx.opts.annotate
    }
    fn assign_cell(&mut self, c: TableColumn, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<(), Error> {
        if self.used.contains(&c) {
            return Err(Error::Synthesis);
        }
        let i = self.default_and_len.iter().position(|e| e.0 == c).unwrap_or_else(|| {
            self.default_and_len.push((c, Value::unknown(), vec![]));
            self.default_and_len.len() - 1
        });
        let mut value = Value::unknown();
        self.part.fixed(c.inner, offset, &mut || {
            let v = to();
            value = v;
            v
        })?;
        let e = &mut self.default_and_len[i];
        if offset == 0 {
            assert!(e.2.is_empty() || !e.2[0], "attempted to overwrite the default value of a table column");
            e.1 = value;
        }
        if e.2.len() <= offset {
            e.2.resize(offset + 1, false);
        }
        e.2[offset] = true;
        Ok(())
    }
}

/// A single-chip layouter over a recorded constraint-system backend.
pub struct SimLayouter<F: Field> {
    part: Part<F>,
    grid: Grid<F>,
    starts: Vec<usize>,
    used: HashMap<RegionColumn, usize>,
    tables: Vec<TableColumn>,
}
impl<F: Field> std::fmt::Debug for SimLayouter<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SimLayouter")
    }
}

impl<F: Field> SimLayouter<F> {
    pub fn new(cs: &ConstraintSystem<F>, opts: Opts) -> Self {
        let n = 1usize << opts.k;
        let usable = n.saturating_sub(cs.blinding_factors() + 1);
        let ctx = Ctx { cs: Arc::new(cs.clone()), opts: Arc::new(opts), count: Default::default(), usable };
        SimLayouter {
            grid: Grid {
                n,
                usable,
                advice: vec![vec![None; n]; cs.num_advice_columns],
                fixed: vec![vec![None; n]; cs.num_fixed_columns],
                selectors: vec![vec![false; n]; cs.num_selectors],
                instance: vec![vec![]; cs.num_instance_columns],
                copies: vec![],
            },
            part: Part { ctx, rows: 0..usable, log: vec![] },
            starts: vec![],
            used: HashMap::new(),
            tables: vec![],
        }
    }
    pub fn counters(&self) -> Arc<Counters> {
        self.part.ctx.count.clone()
    }
    pub fn grid(&self) -> &Grid<F> {
        &self.grid
    }
    pub fn into_grid(self) -> Grid<F> {
        self.grid
    }
    pub fn region_starts(&self) -> &[usize] {
        &self.starts
    }
    /// where a cell ended up
    pub fn place(&self, c: &Cell) -> At {
        (c.column, self.starts[c.region_index.0] + c.row_offset)
    }
    fn settle(&mut self) {
        apply(&mut self.grid, &mut self.part.log);
    }
    fn start_of(&mut self, shape: &Shape) -> usize {
        let floor = self.part.ctx.opts.used;
        let at = shape.columns.iter().map(|c| self.used.get(c).copied().unwrap_or(floor)).max().unwrap_or(0);
        for c in &shape.columns {
            self.used.insert(*c, at + shape.rows);
        }
        at
    }
    fn constants(&mut self, list: Vec<(Assigned<F>, Cell)>) -> Result<(), Error> {
        if list.is_empty() {
            return Ok(());
        }
        let cs = self.part.ctx.cs.clone();
        let Some(col) = cs.constants.first() else { return Err(Error::NotEnoughColumnsForConstants) };
        let key = RegionColumn::Column((*col).into());
        for (v, cell) in list {
            let row = *self.used.entry(key).or_insert(self.part.ctx.opts.used);
            self.part.fixed(*col, row, &mut || Value::known(v))?;
            let at = self.place(&cell);
            self.part.copy(((*col).into(), row), at)?;
            *self.used.get_mut(&key).unwrap() += 1;
        }
        Ok(())
    }
}

fn apply<F: Field>(g: &mut Grid<F>, log: &mut Vec<W<F>>) {
    for w in log.drain(..) {
        match w {
            W::Adv(c, r, v) => g.advice[c][r] = Some(v),
            W::Fix(c, r, v) => g.fixed[c][r] = Some(v),
            W::Sel(s, r) => g.selectors[s][r] = true,
            W::Copy(a, b) => g.copies.push((a, b)),
        }
    }
}

impl<F: Field> Layouter<F> for SimLayouter<F> {
    type Root = Self;

    fn assign_region<A, AR, N, NR>(&mut self, name: N, mut assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let annotate = self.part.ctx.opts.annotate;
        if annotate {
            let _: String = name().into();
        }
        self.part.ctx.op(Op::Region)?;
        let index = self.starts.len();
        let mut shape = Shape::new(index, annotate);
        {
            let r: &mut dyn RegionLayouter<F> = &mut shape;
            assignment(r.into())?;
        }
        let at = self.start_of(&shape);
        self.starts.push(at);
        let (result, constants) = {
            let mut live = Live { part: &mut self.part, grid: Some(&self.grid), index: RegionIndex(index), starts: &self.starts, constants: vec![] };
            let r: &mut dyn RegionLayouter<F> = &mut live;
            (assignment(r.into()), live.constants)
        };
        self.settle();
        let result = result?;
        self.constants(constants)?;
        self.settle();
        Ok(result)
    }

    fn assign_regions<A, AR, N, NR>(&mut self, name: N, mut assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let opts = self.part.ctx.opts.clone();
        if opts.annotate {
            let _: String = name().into();
        }
        self.part.ctx.op(Op::Regions)?;
        let first = self.starts.len();
        let mut ranges = vec![];
        for (i, a) in assignments.iter_mut().enumerate() {
            let mut shape = Shape::new(first + i, opts.annotate);
            {
                let r: &mut dyn RegionLayouter<F> = &mut shape;
                a(r.into())?;
            }
            let at = self.start_of(&shape);
            self.starts.push(at);
            ranges.push(at..at + shape.rows);
        }
        // fork
        self.part.ctx.op(Op::Fork)?;
        let mut low = 0;
        for r in &ranges {
            if r.start < low || r.end > self.part.ctx.usable {
                return Err(Error::Synthesis);
            }
            low = r.end;
        }
        let starts = &self.starts;
        let mut jobs: Vec<(usize, A, Part<F>)> = assignments
            .into_iter()
            .zip(&ranges)
            .enumerate()
            .map(|(i, (a, r))| (i, a, Part { ctx: self.part.ctx.clone(), rows: r.clone(), log: vec![] }))
            .collect();
        // the order workers pick jobs up in
        let mut z = opts.order;
        if z != 0 {
            for i in (1..jobs.len()).rev() {
                z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                jobs.swap(i, ((z >> 33) % (i as u64 + 1)) as usize);
            }
        }
        let total = jobs.len();
        let run = |(i, mut a, mut part): (usize, A, Part<F>)| {
            if let Some(w) = opts.worker {
                w.0(i);
            }
            let (res, consts) = {
                let mut live = Live { part: &mut part, grid: None, index: RegionIndex(first + i), starts, constants: vec![] };
                let r: &mut dyn RegionLayouter<F> = &mut live;
                (a(r.into()), live.constants)
            };
            if let Some(w) = opts.worker {
                w.1(i);
            }
            (i, res, consts, part.log)
        };
        let mut done: Vec<Option<(Result<AR, Error>, Vec<(Assigned<F>, Cell)>, Vec<W<F>>)>> = (0..total).map(|_| None).collect();
        if opts.inline {
            for j in jobs {
                let (i, r, c, l) = run(j);
                done[i] = Some((r, c, l));
            }
        } else if total > 0 {
            let w = if opts.pool == 0 { total } else { opts.pool.min(total) };
            self.part.ctx.count.workers.fetch_add(w as u64, SeqCst);
            let mut lanes: Vec<Vec<(usize, A, Part<F>)>> = (0..w).map(|_| vec![]).collect();
            for (k, j) in jobs.into_iter().enumerate() {
                lanes[k % w].push(j);
            }
            let run = &run;
            let out: Vec<_> = std::thread::scope(|s| {
                let hs: Vec<_> = lanes.into_iter().map(|lane| s.spawn(move || lane.into_iter().map(run).collect::<Vec<_>>())).collect();
                hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
            });
            for lane in out {
                match lane {
                    Ok(v) => {
                        for (i, r, c, l) in v {
                            done[i] = Some((r, c, l));
                        }
                    }
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
        }
        // merge
        self.part.ctx.op(Op::Merge)?;
        let mut results = vec![];
        let mut constants = vec![];
        for d in done {
            let (r, c, mut l) = d.unwrap();
            apply(&mut self.grid, &mut l);
            results.push(r);
            constants.extend(c);
        }
        let results = results.into_iter().collect::<Result<Vec<_>, _>>()?;
        self.constants(constants)?;
        self.settle();
        Ok(results)
    }

    fn assign_table<A, N, NR>(&mut self, name: N, mut assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        if self.part.ctx.opts.annotate {
            let _: String = name().into();
        }
        self.part.ctx.op(Op::Table)?;
        let r = {
            let mut t = LiveTable { part: &mut self.part, used: &self.tables, default_and_len: vec![] };
            let d: &mut dyn TableLayouter<F> = &mut t;
            let r = assignment(d.into());
            r.map(|_| t.default_and_len)
        };
        self.settle();
        let cols = r?;
        let len = match cols.first() {
            Some((_, _, l)) => l.len(),
            None => return Ok(()),
        };
        for (_, _, l) in &cols {
            assert!(l.len() == len && l.iter().all(|x| *x), "table columns of unequal length or with gaps");
        }
        for (c, d, _) in cols {
            self.part.ctx.op(Op::Fill)?;
            self.tables.push(c);
            if self.part.ctx.opts.mode != Mode::Prove {
                let v = d.evaluate().assign()?;
                for r in len..self.grid.usable {
                    self.grid.fixed[c.inner.index][r] = Some(v);
                }
            }
        }
        Ok(())
    }

    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        let at = self.place(&cell);
        self.part.copy(at, (column.into(), row))?;
        self.settle();
        Ok(())
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        if self.part.ctx.opts.annotate {
            let _: String = name_fn().into();
        }
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}

// ---------------------------------------------------------------- checking a recorded circuit

impl<F: Field> Grid<F> {
    pub fn cell(&self, at: At) -> F {
        match at.0.column_type {
            Any::Advice(_) => self.advice[at.0.index][at.1].unwrap_or(F::ZERO),
            Any::Fixed => self.fixed[at.0.index][at.1].unwrap_or(F::ZERO),
            Any::Instance => self.instance[at.0.index].get(at.1).copied().unwrap_or(F::ZERO),
        }
    }
    pub fn eval(&self, e: &Expression<F>, row: usize) -> F {
        let n = self.n as i64;
        let at = |rot: crate::poly::Rotation| ((row as i64 + rot.0 as i64).rem_euclid(n)) as usize;
        match e {
            Expression::Constant(c) => *c,
            Expression::Selector(s) => {
                if self.selectors[s.0][row] {
                    F::ONE
                } else {
                    F::ZERO
                }
            }
            Expression::Fixed(q) => self.fixed[q.column_index][at(q.rotation)].unwrap_or(F::ZERO),
            Expression::Advice(q) => self.advice[q.column_index][at(q.rotation)].unwrap_or(F::ZERO),
            Expression::Instance(q) => self.instance[q.column_index].get(at(q.rotation)).copied().unwrap_or(F::ZERO),
            Expression::Challenge(_) => F::ONE,
            Expression::Negated(a) => -self.eval(a, row),
            Expression::Sum(a, b) => self.eval(a, row) + self.eval(b, row),
            Expression::Product(a, b) => {
                let x = self.eval(a, row);
                if x == F::ZERO {
                    return x;
                }
                x * self.eval(b, row)
            }
            Expression::Scaled(a, f) => self.eval(a, row) * f,
        }
    }
    /// The first violated gate, lookup or equality, if any.
    pub fn verify(&self, cs: &ConstraintSystem<F>) -> Option<String> {
        for g in &cs.gates {
            for (i, p) in g.polys.iter().enumerate() {
                for row in 0..self.n {
                    if self.eval(p, row) != F::ZERO {
                        return Some(format!("gate '{}' constraint {i} at row {row}", g.name));
                    }
                }
            }
        }
        for l in &cs.lookups {
            let tab: std::collections::HashSet<Vec<u8>> = (0..self.usable).map(|r| l.tables.iter().flat_map(|e| format!("{:?}|", self.eval(e, r)).into_bytes()).collect()).collect();
            for row in 0..self.usable {
                let v: Vec<u8> = l.inputs.iter().flat_map(|e| format!("{:?}|", self.eval(e, row)).into_bytes()).collect();
                if !tab.contains(&v) {
                    return Some(format!("lookup '{}' at row {row}", l.name));
                }
            }
        }
        for (a, b) in &self.copies {
            if self.cell(*a) != self.cell(*b) {
                return Some(format!("equality between {a:?} and {b:?}"));
            }
        }
        None
    }
}
