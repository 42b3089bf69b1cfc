//! Columns, expressions, gates, lookups.
use crate::poly::Rotation;
use ff::Field;
use std::cmp::max;
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub use crate::circuit::FloorPlanner;

// ---------------------------------------------------------------- columns

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Advice {
    pub phase: u8,
}
impl Advice {
    pub fn new(phase: impl Phase) -> Self {
        Advice { phase: phase.to_u8() }
    }
    pub fn phase(&self) -> u8 {
        self.phase
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fixed;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Instance;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Any {
    Advice(Advice),
    Fixed,
    Instance,
}
impl Any {
    pub fn advice() -> Any {
        Any::Advice(Advice::default())
    }
}
pub trait ColumnType: 'static + Sized + Copy + Debug + PartialEq + Eq + Into<Any> + Send + Sync {}
impl ColumnType for Advice {}
impl ColumnType for Fixed {}
impl ColumnType for Instance {}
impl ColumnType for Any {}
impl From<Advice> for Any {
    fn from(a: Advice) -> Any {
        Any::Advice(a)
    }
}
impl From<Fixed> for Any {
    fn from(_: Fixed) -> Any {
        Any::Fixed
    }
}
impl From<Instance> for Any {
    fn from(_: Instance) -> Any {
        Any::Instance
    }
}

pub trait Phase {
    fn to_u8(&self) -> u8;
}
#[derive(Debug, Clone, Copy)]
pub struct FirstPhase;
#[derive(Debug, Clone, Copy)]
pub struct SecondPhase;
#[derive(Debug, Clone, Copy)]
pub struct ThirdPhase;
impl Phase for FirstPhase {
    fn to_u8(&self) -> u8 {
        0
    }
}
impl Phase for SecondPhase {
    fn to_u8(&self) -> u8 {
        1
    }
}
impl Phase for ThirdPhase {
    fn to_u8(&self) -> u8 {
        2
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Column<C: ColumnType> {
    pub index: usize,
    pub column_type: C,
}
impl<C: ColumnType> Column<C> {
    pub fn new(index: usize, column_type: C) -> Self {
        Column { index, column_type }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn column_type(&self) -> &C {
        &self.column_type
    }
}
macro_rules! to_any {
    ($($t:ty),*) => {$(
        impl From<Column<$t>> for Column<Any> {
            fn from(c: Column<$t>) -> Column<Any> {
                Column { index: c.index, column_type: c.column_type.into() }
            }
        }
    )*};
}
to_any!(Advice, Fixed, Instance);
impl TryFrom<Column<Any>> for Column<Advice> {
    type Error = &'static str;
    fn try_from(c: Column<Any>) -> Result<Self, &'static str> {
        match c.column_type {
            Any::Advice(a) => Ok(Column { index: c.index, column_type: a }),
            _ => Err("Cannot convert into Column<Advice>"),
        }
    }
}
impl TryFrom<Column<Any>> for Column<Fixed> {
    type Error = &'static str;
    fn try_from(c: Column<Any>) -> Result<Self, &'static str> {
        match c.column_type {
            Any::Fixed => Ok(Column { index: c.index, column_type: Fixed }),
            _ => Err("Cannot convert into Column<Fixed>"),
        }
    }
}
impl TryFrom<Column<Any>> for Column<Instance> {
    type Error = &'static str;
    fn try_from(c: Column<Any>) -> Result<Self, &'static str> {
        match c.column_type {
            Any::Instance => Ok(Column { index: c.index, column_type: Instance }),
            _ => Err("Cannot convert into Column<Instance>"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Selector(pub usize, pub bool);
impl Selector {
    pub fn enable<F: Field>(&self, region: &mut crate::circuit::Region<F>, offset: usize) -> Result<(), Error> {
        region.enable_selector(|| "", self, offset)
    }
    pub fn is_simple(&self) -> bool {
        self.1
    }
    pub fn index(&self) -> usize {
        self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct TableColumn {
    pub inner: Column<Fixed>,
}
impl TableColumn {
    pub fn inner(&self) -> Column<Fixed> {
        self.inner
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Challenge {
    pub index: usize,
    pub phase: u8,
}

// ---------------------------------------------------------------- errors

#[derive(Debug)]
pub enum Error {
    Synthesis,
    InvalidInstances,
    ConstraintSystemFailure,
    BoundsFailure,
    Opening,
    Transcript(std::io::Error),
    NotEnoughRowsAvailable { current_k: u32 },
    InstanceTooLarge,
    NotEnoughColumnsForConstants,
    ColumnNotInPermutation(Column<Any>),
}
impl Error {
    pub fn not_enough_rows_available(current_k: u32) -> Self {
        Error::NotEnoughRowsAvailable { current_k }
    }
}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Transcript(e)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

// ---------------------------------------------------------------- assigned values

#[derive(Clone, Copy, Debug)]
pub enum Assigned<F> {
    Zero,
    Trivial(F),
    Rational(F, F),
}
impl<F: Field> Assigned<F> {
    pub fn evaluate(self) -> F {
        match self {
            Assigned::Zero => F::ZERO,
            Assigned::Trivial(x) => x,
            Assigned::Rational(a, b) => a * b.invert().unwrap_or(F::ZERO),
        }
    }
    pub fn invert(self) -> Self {
        match self {
            Assigned::Zero => Assigned::Zero,
            Assigned::Trivial(x) => Assigned::Rational(F::ONE, x),
            Assigned::Rational(a, b) => Assigned::Rational(b, a),
        }
    }
    pub fn is_zero_vartime(&self) -> bool {
        self.evaluate() == F::ZERO
    }
    pub fn square(self) -> Self {
        Assigned::Trivial(self.evaluate().square())
    }
    pub fn double(self) -> Self {
        Assigned::Trivial(self.evaluate().double())
    }
}
impl<F: Field> From<F> for Assigned<F> {
    fn from(f: F) -> Self {
        Assigned::Trivial(f)
    }
}
impl<F: Field> From<&F> for Assigned<F> {
    fn from(f: &F) -> Self {
        Assigned::Trivial(*f)
    }
}
impl<F: Field> From<&Assigned<F>> for Assigned<F> {
    fn from(f: &Assigned<F>) -> Self {
        *f
    }
}
impl<F: Field> From<(F, F)> for Assigned<F> {
    fn from((a, b): (F, F)) -> Self {
        Assigned::Rational(a, b)
    }
}
impl<F: Field> PartialEq for Assigned<F> {
    fn eq(&self, o: &Self) -> bool {
        self.evaluate() == o.evaluate()
    }
}
impl<F: Field> Eq for Assigned<F> {}
macro_rules! assigned_op {
    ($tr:ident, $m:ident) => {
        impl<F: Field> $tr for Assigned<F> {
            type Output = Assigned<F>;
            fn $m(self, o: Self) -> Self {
                Assigned::Trivial(self.evaluate().$m(o.evaluate()))
            }
        }
        impl<F: Field> $tr<F> for Assigned<F> {
            type Output = Assigned<F>;
            fn $m(self, o: F) -> Self {
                Assigned::Trivial(self.evaluate().$m(o))
            }
        }
        impl<F: Field> $tr<&Assigned<F>> for Assigned<F> {
            type Output = Assigned<F>;
            fn $m(self, o: &Self) -> Self {
                Assigned::Trivial(self.evaluate().$m(o.evaluate()))
            }
        }
    };
}
assigned_op!(Add, add);
assigned_op!(Sub, sub);
assigned_op!(Mul, mul);
impl<F: Field> Neg for Assigned<F> {
    type Output = Assigned<F>;
    fn neg(self) -> Self {
        Assigned::Trivial(-self.evaluate())
    }
}

// ---------------------------------------------------------------- expressions

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FixedQuery {
    pub index: Option<usize>,
    pub column_index: usize,
    pub rotation: Rotation,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AdviceQuery {
    pub index: Option<usize>,
    pub column_index: usize,
    pub rotation: Rotation,
    pub phase: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct InstanceQuery {
    pub index: Option<usize>,
    pub column_index: usize,
    pub rotation: Rotation,
}
macro_rules! query_access {
    ($($t:ty),*) => {$(
        impl $t {
            pub fn column_index(&self) -> usize {
                self.column_index
            }
            pub fn rotation(&self) -> Rotation {
                self.rotation
            }
        }
    )*};
}
query_access!(FixedQuery, AdviceQuery, InstanceQuery);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expression<F> {
    Constant(F),
    Selector(Selector),
    Fixed(FixedQuery),
    Advice(AdviceQuery),
    Instance(InstanceQuery),
    Challenge(Challenge),
    Negated(Box<Expression<F>>),
    Sum(Box<Expression<F>>, Box<Expression<F>>),
    Product(Box<Expression<F>>, Box<Expression<F>>),
    Scaled(Box<Expression<F>>, F),
}
impl<F: Field> Expression<F> {
    #[allow(clippy::too_many_arguments)]
    pub fn evaluate<T>(
        &self,
        constant: &impl Fn(F) -> T,
        selector: &impl Fn(Selector) -> T,
        fixed: &impl Fn(FixedQuery) -> T,
        advice: &impl Fn(AdviceQuery) -> T,
        instance: &impl Fn(InstanceQuery) -> T,
        challenge: &impl Fn(Challenge) -> T,
        negated: &impl Fn(T) -> T,
        sum: &impl Fn(T, T) -> T,
        product: &impl Fn(T, T) -> T,
        scaled: &impl Fn(T, F) -> T,
    ) -> T {
        let go = |e: &Expression<F>| e.evaluate(constant, selector, fixed, advice, instance, challenge, negated, sum, product, scaled);
        match self {
            Expression::Constant(c) => constant(*c),
            Expression::Selector(s) => selector(*s),
            Expression::Fixed(q) => fixed(*q),
            Expression::Advice(q) => advice(*q),
            Expression::Instance(q) => instance(*q),
            Expression::Challenge(c) => challenge(*c),
            Expression::Negated(a) => negated(go(a)),
            Expression::Sum(a, b) => sum(go(a), go(b)),
            Expression::Product(a, b) => product(go(a), go(b)),
            Expression::Scaled(a, f) => scaled(go(a), *f),
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Expression::Constant(_) => 0,
            Expression::Selector(_) | Expression::Fixed(_) | Expression::Advice(_) | Expression::Instance(_) => 1,
            Expression::Challenge(_) => 0,
            Expression::Negated(a) => a.degree(),
            Expression::Sum(a, b) => max(a.degree(), b.degree()),
            Expression::Product(a, b) => a.degree() + b.degree(),
            Expression::Scaled(a, _) => a.degree(),
        }
    }
    pub fn square(self) -> Self {
        self.clone() * self
    }
    pub fn contains_simple_selector(&self) -> bool {
        match self {
            Expression::Selector(s) => s.is_simple(),
            Expression::Negated(a) | Expression::Scaled(a, _) => a.contains_simple_selector(),
            Expression::Sum(a, b) | Expression::Product(a, b) => a.contains_simple_selector() || b.contains_simple_selector(),
            _ => false,
        }
    }
}
impl<F: Field> Neg for Expression<F> {
    type Output = Expression<F>;
    fn neg(self) -> Self {
        Expression::Negated(Box::new(self))
    }
}
impl<F: Field> Add for Expression<F> {
    type Output = Expression<F>;
    fn add(self, o: Self) -> Self {
        if self.contains_simple_selector() || o.contains_simple_selector() {
            panic!("attempted to use a simple selector in an addition");
        }
        Expression::Sum(Box::new(self), Box::new(o))
    }
}
impl<F: Field> Sub for Expression<F> {
    type Output = Expression<F>;
    fn sub(self, o: Self) -> Self {
        if self.contains_simple_selector() || o.contains_simple_selector() {
            panic!("attempted to use a simple selector in a subtraction");
        }
        Expression::Sum(Box::new(self), Box::new(-o))
    }
}
impl<F: Field> Mul for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, o: Self) -> Self {
        if self.contains_simple_selector() && o.contains_simple_selector() {
            panic!("attempted to multiply two expressions containing simple selectors");
        }
        Expression::Product(Box::new(self), Box::new(o))
    }
}
impl<F: Field> Mul<F> for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, o: F) -> Self {
        Expression::Scaled(Box::new(self), o)
    }
}
impl<F: Field> AddAssign for Expression<F> {
    fn add_assign(&mut self, o: Self) {
        *self = self.clone() + o
    }
}
impl<F: Field> SubAssign for Expression<F> {
    fn sub_assign(&mut self, o: Self) {
        *self = self.clone() - o
    }
}
impl<F: Field> MulAssign for Expression<F> {
    fn mul_assign(&mut self, o: Self) {
        *self = self.clone() * o
    }
}
impl<F: Field> std::iter::Sum<Self> for Expression<F> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.reduce(|a, b| a + b).unwrap_or(Expression::Constant(F::ZERO))
    }
}
impl<F: Field> std::iter::Product<Self> for Expression<F> {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.reduce(|a, b| a * b).unwrap_or(Expression::Constant(F::ONE))
    }
}

// ---------------------------------------------------------------- gates

#[derive(Clone, Debug)]
pub struct Constraint<F: Field> {
    pub name: &'static str,
    pub poly: Expression<F>,
}
impl<F: Field> From<Expression<F>> for Constraint<F> {
    fn from(poly: Expression<F>) -> Self {
        Constraint { name: "", poly }
    }
}
impl<F: Field> From<(&'static str, Expression<F>)> for Constraint<F> {
    fn from((name, poly): (&'static str, Expression<F>)) -> Self {
        Constraint { name, poly }
    }
}
impl<F: Field> From<Expression<F>> for Vec<Constraint<F>> {
    fn from(poly: Expression<F>) -> Self {
        vec![poly.into()]
    }
}
#[derive(Debug)]
pub struct Constraints<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> {
    selector: Expression<F>,
    constraints: Iter,
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> Constraints<F, C, Iter> {
    pub fn with_selector(selector: Expression<F>, constraints: Iter) -> Self {
        Constraints { selector, constraints }
    }
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> IntoIterator for Constraints<F, C, Iter> {
    type Item = Constraint<F>;
    type IntoIter = std::vec::IntoIter<Constraint<F>>;
    fn into_iter(self) -> Self::IntoIter {
        let s = self.selector;
        self.constraints
            .into_iter()
            .map(|c| {
                let c: Constraint<F> = c.into();
                Constraint { name: c.name, poly: s.clone() * c.poly }
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

#[derive(Clone, Debug)]
pub struct Gate<F: Field> {
    pub name: &'static str,
    pub constraint_names: Vec<&'static str>,
    pub polys: Vec<Expression<F>>,
}
impl<F: Field> Gate<F> {
    pub fn name(&self) -> &'static str {
        self.name
    }
    pub fn polynomials(&self) -> &[Expression<F>] {
        &self.polys
    }
}
#[derive(Clone, Debug)]
pub struct Lookup<F: Field> {
    pub name: &'static str,
    pub inputs: Vec<Expression<F>>,
    pub tables: Vec<Expression<F>>,
}

#[derive(Debug)]
pub struct VirtualCells<'a, F: Field> {
    meta: &'a mut ConstraintSystem<F>,
}
impl<'a, F: Field> VirtualCells<'a, F> {
    pub fn query_selector(&mut self, s: Selector) -> Expression<F> {
        Expression::Selector(s)
    }
    pub fn query_fixed(&mut self, column: Column<Fixed>, at: Rotation) -> Expression<F> {
        let i = self.meta.fixed_query(column, at);
        Expression::Fixed(FixedQuery { index: Some(i), column_index: column.index, rotation: at })
    }
    pub fn query_advice(&mut self, column: Column<Advice>, at: Rotation) -> Expression<F> {
        let i = self.meta.advice_query(column, at);
        Expression::Advice(AdviceQuery { index: Some(i), column_index: column.index, rotation: at, phase: column.column_type.phase })
    }
    pub fn query_instance(&mut self, column: Column<Instance>, at: Rotation) -> Expression<F> {
        Expression::Instance(InstanceQuery { index: None, column_index: column.index, rotation: at })
    }
    pub fn query_any<C: Into<Column<Any>>>(&mut self, column: C, at: Rotation) -> Expression<F> {
        let c: Column<Any> = column.into();
        match c.column_type {
            Any::Advice(a) => self.query_advice(Column { index: c.index, column_type: a }, at),
            Any::Fixed => self.query_fixed(Column { index: c.index, column_type: Fixed }, at),
            Any::Instance => self.query_instance(Column { index: c.index, column_type: Instance }, at),
        }
    }
    pub fn query_challenge(&mut self, c: Challenge) -> Expression<F> {
        Expression::Challenge(c)
    }
}

#[derive(Clone, Debug)]
pub struct ConstraintSystem<F: Field> {
    pub num_fixed_columns: usize,
    pub num_advice_columns: usize,
    pub num_instance_columns: usize,
    pub num_selectors: usize,
    pub num_challenges: usize,
    pub gates: Vec<Gate<F>>,
    pub lookups: Vec<Lookup<F>>,
    pub equality: Vec<Column<Any>>,
    pub constants: Vec<Column<Fixed>>,
    pub table_columns: Vec<TableColumn>,
    pub advice_queries: Vec<(Column<Advice>, Rotation)>,
    pub fixed_queries: Vec<(Column<Fixed>, Rotation)>,
    pub minimum_degree: Option<usize>,
}
impl<F: Field> Default for ConstraintSystem<F> {
    fn default() -> Self {
        ConstraintSystem {
            num_fixed_columns: 0,
            num_advice_columns: 0,
            num_instance_columns: 0,
            num_selectors: 0,
            num_challenges: 0,
            gates: vec![],
            lookups: vec![],
            equality: vec![],
            constants: vec![],
            table_columns: vec![],
            advice_queries: vec![],
            fixed_queries: vec![],
            minimum_degree: None,
        }
    }
}
impl<F: Field> ConstraintSystem<F> {
    fn fixed_query(&mut self, c: Column<Fixed>, at: Rotation) -> usize {
        self.fixed_queries.iter().position(|q| *q == (c, at)).unwrap_or_else(|| {
            self.fixed_queries.push((c, at));
            self.fixed_queries.len() - 1
        })
    }
    fn advice_query(&mut self, c: Column<Advice>, at: Rotation) -> usize {
        self.advice_queries.iter().position(|q| *q == (c, at)).unwrap_or_else(|| {
            self.advice_queries.push((c, at));
            self.advice_queries.len() - 1
        })
    }
    pub fn enable_constant(&mut self, column: Column<Fixed>) {
        if !self.constants.contains(&column) {
            self.constants.push(column);
            self.enable_equality(column);
        }
    }
    pub fn enable_equality<C: Into<Column<Any>>>(&mut self, column: C) {
        let c: Column<Any> = column.into();
        match c.column_type {
            Any::Advice(a) => {
                self.advice_query(Column { index: c.index, column_type: a }, Rotation::cur());
            }
            Any::Fixed => {
                self.fixed_query(Column { index: c.index, column_type: Fixed }, Rotation::cur());
            }
            Any::Instance => {}
        }
        if !self.equality.contains(&c) {
            self.equality.push(c);
        }
    }
    pub fn lookup(&mut self, name: &'static str, map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, TableColumn)>) -> usize {
        let pairs = map(&mut VirtualCells { meta: self });
        let mut l = Lookup { name, inputs: vec![], tables: vec![] };
        for (input, table) in pairs {
            if input.contains_simple_selector() {
                panic!("expression containing simple selector supplied to lookup argument");
            }
            let i = self.fixed_query(table.inner, Rotation::cur());
            l.inputs.push(input);
            l.tables.push(Expression::Fixed(FixedQuery { index: Some(i), column_index: table.inner.index, rotation: Rotation::cur() }));
        }
        self.lookups.push(l);
        self.lookups.len() - 1
    }
    pub fn lookup_any(&mut self, name: &'static str, map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, Expression<F>)>) -> usize {
        let pairs = map(&mut VirtualCells { meta: self });
        let (inputs, tables) = pairs.into_iter().unzip();
        self.lookups.push(Lookup { name, inputs, tables });
        self.lookups.len() - 1
    }
    pub fn set_minimum_degree(&mut self, degree: usize) {
        self.minimum_degree = Some(degree);
    }
    pub fn create_gate<C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>>(&mut self, name: &'static str, f: impl FnOnce(&mut VirtualCells<'_, F>) -> Iter) {
        let (constraint_names, polys): (Vec<_>, Vec<_>) = f(&mut VirtualCells { meta: self })
            .into_iter()
            .map(|c| {
                let c: Constraint<F> = c.into();
                (c.name, c.poly)
            })
            .unzip();
        assert!(!polys.is_empty(), "Gates must contain at least one constraint.");
        self.gates.push(Gate { name, constraint_names, polys });
    }
    pub fn selector(&mut self) -> Selector {
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, true)
    }
    pub fn complex_selector(&mut self) -> Selector {
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, false)
    }
    pub fn lookup_table_column(&mut self) -> TableColumn {
        let t = TableColumn { inner: self.fixed_column() };
        self.table_columns.push(t);
        t
    }
    pub fn fixed_column(&mut self) -> Column<Fixed> {
        self.num_fixed_columns += 1;
        Column { index: self.num_fixed_columns - 1, column_type: Fixed }
    }
    pub fn advice_column(&mut self) -> Column<Advice> {
        self.advice_column_in(FirstPhase)
    }
    pub fn advice_column_in<P: Phase>(&mut self, phase: P) -> Column<Advice> {
        self.num_advice_columns += 1;
        Column { index: self.num_advice_columns - 1, column_type: Advice::new(phase) }
    }
    pub fn instance_column(&mut self) -> Column<Instance> {
        self.num_instance_columns += 1;
        Column { index: self.num_instance_columns - 1, column_type: Instance }
    }
    pub fn challenge_usable_after<P: Phase>(&mut self, phase: P) -> Challenge {
        self.num_challenges += 1;
        Challenge { index: self.num_challenges - 1, phase: phase.to_u8() }
    }
    pub fn degree(&self) -> usize {
        let g = self.gates.iter().flat_map(|g| g.polys.iter().map(|p| p.degree())).max().unwrap_or(0);
        let l = self.lookups.iter().map(|l| 2 + l.inputs.iter().map(|e| e.degree()).max().unwrap_or(1).max(1) + l.tables.iter().map(|e| e.degree()).max().unwrap_or(1).max(1)).max().unwrap_or(0);
        g.max(l).max(3).max(self.minimum_degree.unwrap_or(1))
    }
    pub fn blinding_factors(&self) -> usize {
        let mut per = vec![0usize; self.num_advice_columns];
        for (c, _) in &self.advice_queries {
            per[c.index] += 1;
        }
        per.iter().copied().max().unwrap_or(1).max(3) + 2
    }
    pub fn minimum_rows(&self) -> usize {
        self.blinding_factors() + 3
    }
    pub fn gates(&self) -> &Vec<Gate<F>> {
        &self.gates
    }
    pub fn num_advice_columns(&self) -> usize {
        self.num_advice_columns
    }
    pub fn num_fixed_columns(&self) -> usize {
        self.num_fixed_columns
    }
    pub fn num_selectors(&self) -> usize {
        self.num_selectors
    }
}

/// A circuit, as chips' users write it.
pub trait Circuit<F: Field> {
    type Config: Clone;
    type FloorPlanner;
    fn without_witnesses(&self) -> Self;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config;
    fn synthesize(&self, config: Self::Config, layouter: impl crate::circuit::Layouter<F>) -> Result<(), Error>;
}
