//! Layouters, regions, cells, values.
use crate::plonk::*;
use ff::Field;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Add, Deref, Mul, Neg, Sub};

pub use crate::sim::SimLayouter;

pub mod layouter {
    pub use super::{RegionColumn, RegionLayouter, TableLayouter};
}

// ---------------------------------------------------------------- values

#[derive(Clone, Copy, Debug)]
pub struct Value<V> {
    pub(crate) inner: Option<V>,
}
impl<V> Default for Value<V> {
    fn default() -> Self {
        Self::unknown()
    }
}
impl<V> Value<V> {
    pub const fn unknown() -> Self {
        Value { inner: None }
    }
    pub const fn known(v: V) -> Self {
        Value { inner: Some(v) }
    }
    /// for backends
    pub fn assign(self) -> Result<V, Error> {
        self.inner.ok_or(Error::Synthesis)
    }
    /// for backends
    pub fn into_option(self) -> Option<V> {
        self.inner
    }
    pub fn as_ref(&self) -> Value<&V> {
        Value { inner: self.inner.as_ref() }
    }
    pub fn as_mut(&mut self) -> Value<&mut V> {
        Value { inner: self.inner.as_mut() }
    }
    pub fn is_none(&self) -> bool {
        self.inner.is_none()
    }
    pub fn assert_if_known<G: FnOnce(&V) -> bool>(&self, f: G) {
        if let Some(v) = self.inner.as_ref() {
            assert!(f(v));
        }
    }
    pub fn error_if_known_and<G: FnOnce(&V) -> bool>(&self, f: G) -> Result<(), Error> {
        match self.inner.as_ref() {
            Some(v) if f(v) => Err(Error::Synthesis),
            _ => Ok(()),
        }
    }
    pub fn map<W, G: FnOnce(V) -> W>(self, f: G) -> Value<W> {
        Value { inner: self.inner.map(f) }
    }
    pub fn and_then<W, G: FnOnce(V) -> Value<W>>(self, f: G) -> Value<W> {
        match self.inner {
            Some(v) => f(v),
            None => Value::unknown(),
        }
    }
    pub fn zip<W>(self, o: Value<W>) -> Value<(V, W)> {
        Value { inner: self.inner.zip(o.inner) }
    }
    pub fn to_field<F: Field>(&self) -> Value<Assigned<F>>
    where
        for<'v> Assigned<F>: From<&'v V>,
    {
        Value { inner: self.inner.as_ref().map(|v| v.into()) }
    }
    pub fn into_field<F: Field>(self) -> Value<Assigned<F>>
    where
        V: Into<Assigned<F>>,
    {
        Value { inner: self.inner.map(|v| v.into()) }
    }
}
impl<V, W> Value<(V, W)> {
    pub fn unzip(self) -> (Value<V>, Value<W>) {
        match self.inner {
            Some((a, b)) => (Value::known(a), Value::known(b)),
            None => (Value::unknown(), Value::unknown()),
        }
    }
}
impl<V: Copy> Value<&V> {
    pub fn copied(self) -> Value<V> {
        Value { inner: self.inner.copied() }
    }
}
impl<V: Clone> Value<&V> {
    pub fn cloned(self) -> Value<V> {
        Value { inner: self.inner.cloned() }
    }
}
impl<V: Clone> Value<&mut V> {
    pub fn cloned(self) -> Value<V> {
        Value { inner: self.inner.cloned() }
    }
}
impl<V, const LEN: usize> Value<[V; LEN]> {
    pub fn transpose_array(self) -> [Value<V>; LEN] {
        let mut r: [Value<V>; LEN] = std::array::from_fn(|_| Value::unknown());
        if let Some(v) = self.inner {
            for (e, v) in r.iter_mut().zip(v) {
                *e = Value::known(v);
            }
        }
        r
    }
}
impl<V, I> Value<I>
where
    I: IntoIterator<Item = V>,
{
    pub fn transpose_vec(self, len: usize) -> Vec<Value<V>> {
        match self.inner {
            Some(v) => {
                let r: Vec<_> = v.into_iter().map(Value::known).collect();
                assert_eq!(r.len(), len);
                r
            }
            None => (0..len).map(|_| Value::unknown()).collect(),
        }
    }
}
impl<A, V: FromIterator<A>> FromIterator<Value<A>> for Value<V> {
    fn from_iter<I: IntoIterator<Item = Value<A>>>(iter: I) -> Self {
        Value { inner: iter.into_iter().map(|v| v.inner).collect() }
    }
}
impl<V: Neg> Neg for Value<V> {
    type Output = Value<V::Output>;
    fn neg(self) -> Self::Output {
        Value { inner: self.inner.map(|v| -v) }
    }
}
macro_rules! value_op {
    ($tr:ident, $m:ident) => {
        impl<V, O> $tr for Value<V>
        where
            V: $tr<Output = O>,
        {
            type Output = Value<O>;
            fn $m(self, o: Self) -> Value<O> {
                Value { inner: self.inner.zip(o.inner).map(|(a, b)| a.$m(b)) }
            }
        }
        impl<V, O> $tr for &Value<V>
        where
            for<'v> &'v V: $tr<Output = O>,
        {
            type Output = Value<O>;
            fn $m(self, o: Self) -> Value<O> {
                Value { inner: self.inner.as_ref().zip(o.inner.as_ref()).map(|(a, b)| a.$m(b)) }
            }
        }
        impl<V, O> $tr<Value<V>> for &Value<V>
        where
            for<'v> &'v V: $tr<V, Output = O>,
        {
            type Output = Value<O>;
            fn $m(self, o: Value<V>) -> Value<O> {
                Value { inner: self.inner.as_ref().zip(o.inner).map(|(a, b)| a.$m(b)) }
            }
        }
        impl<V, O> $tr<&Value<V>> for Value<V>
        where
            for<'v> V: $tr<&'v V, Output = O>,
        {
            type Output = Value<O>;
            fn $m(self, o: &Value<V>) -> Value<O> {
                Value { inner: self.inner.zip(o.inner.as_ref()).map(|(a, b)| a.$m(b)) }
            }
        }
    };
}
value_op!(Add, add);
value_op!(Sub, sub);
value_op!(Mul, mul);
impl<F: Field> Value<F> {
    pub fn double(&self) -> Value<F> {
        Value { inner: self.inner.map(|v| v.double()) }
    }
    pub fn square(&self) -> Value<F> {
        Value { inner: self.inner.map(|v| v.square()) }
    }
    pub fn invert(&self) -> Value<Assigned<F>> {
        Value { inner: self.inner.map(|v| Assigned::Rational(F::ONE, v)) }
    }
}
impl<F: Field> Value<Assigned<F>> {
    pub fn evaluate(self) -> Value<F> {
        Value { inner: self.inner.map(|v| v.evaluate()) }
    }
}

// ---------------------------------------------------------------- cells

pub trait Chip<F: Field>: Sized {
    type Config: fmt::Debug + Clone;
    type Loaded: fmt::Debug + Clone;
    fn config(&self) -> &Self::Config;
    fn loaded(&self) -> &Self::Loaded;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RegionIndex(pub usize);
impl From<usize> for RegionIndex {
    fn from(i: usize) -> Self {
        RegionIndex(i)
    }
}
impl Deref for RegionIndex {
    type Target = usize;
    fn deref(&self) -> &usize {
        &self.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RegionStart(pub usize);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cell {
    pub region_index: RegionIndex,
    pub row_offset: usize,
    pub column: Column<Any>,
}

#[derive(Clone, Debug)]
pub struct AssignedCell<V, F: Field> {
    value: Value<V>,
    cell: Cell,
    _marker: PhantomData<F>,
}
impl<V, F: Field> AssignedCell<V, F> {
    pub fn value(&self) -> Value<&V> {
        self.value.as_ref()
    }
    pub fn cell(&self) -> Cell {
        self.cell
    }
}
impl<V, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn value_field(&self) -> Value<Assigned<F>> {
        self.value.to_field()
    }
}
impl<F: Field> AssignedCell<Assigned<F>, F> {
    pub fn evaluate(self) -> AssignedCell<F, F> {
        AssignedCell { value: self.value.evaluate(), cell: self.cell, _marker: PhantomData }
    }
}
impl<V: Clone, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn copy_advice<A, AR>(&self, annotation: A, region: &mut Region<'_, F>, column: Column<Advice>, offset: usize) -> Result<Self, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let c = region.assign_advice(annotation, column, offset, || self.value.clone())?;
        region.constrain_equal(c.cell(), self.cell())?;
        Ok(c)
    }
}

// ---------------------------------------------------------------- regions

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RegionColumn {
    Column(Column<Any>),
    Selector(usize),
}

/// What a backend offers while a region is assigned.
pub trait RegionLayouter<F: Field> {
    /// whether this backend evaluates annotations
    fn annotate(&self) -> bool;
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error>;
    fn assign_advice(&mut self, column: Column<Advice>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error>;
    fn assign_advice_from_constant(&mut self, column: Column<Advice>, offset: usize, constant: Assigned<F>) -> Result<Cell, Error>;
    fn assign_advice_from_instance(&mut self, instance: Column<Instance>, row: usize, advice: Column<Advice>, offset: usize) -> Result<(Cell, Value<F>), Error>;
    fn instance_value(&mut self, instance: Column<Instance>, row: usize) -> Result<Value<F>, Error>;
    fn assign_fixed(&mut self, column: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<Cell, Error>;
    fn constrain_constant(&mut self, cell: Cell, constant: Assigned<F>) -> Result<(), Error>;
    fn constrain_equal(&mut self, a: Cell, b: Cell) -> Result<(), Error>;
    fn global_offset(&self, offset: usize) -> usize;
    fn query_advice(&self, column: Column<Advice>, offset: usize) -> Result<F, Error>;
    fn query_fixed(&self, column: Column<Fixed>, offset: usize) -> Result<F, Error>;
}

pub struct Region<'r, F: Field> {
    region: &'r mut dyn RegionLayouter<F>,
}
impl<F: Field> fmt::Debug for Region<'_, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Region")
    }
}
impl<'r, F: Field> From<&'r mut dyn RegionLayouter<F>> for Region<'r, F> {
    fn from(region: &'r mut dyn RegionLayouter<F>) -> Self {
        Region { region }
    }
}
impl<F: Field> Region<'_, F> {
    pub fn enable_selector<A, AR>(&mut self, annotation: A, s: &Selector, offset: usize) -> Result<(), Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        if self.region.annotate() {
            let _: String = annotation().into();
        }
        self.region.enable_selector(s, offset)
    }
    pub fn name_column<A, AR, T>(&mut self, _annotation: A, _column: T)
    where
        A: Fn() -> AR,
        AR: Into<String>,
        T: Into<Column<Any>>,
    {
    }
    pub fn assign_advice<'v, V, VR, A, AR>(&'v mut self, annotation: A, column: Column<Advice>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        if self.region.annotate() {
            let _: String = annotation().into();
        }
        let mut value = Value::unknown();
        let cell = self.region.assign_advice(column, offset, &mut || {
            let v = to();
            let f = v.to_field();
            value = v;
            f
        })?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn assign_advice_from_constant<VR, A, AR>(&mut self, annotation: A, column: Column<Advice>, offset: usize, constant: VR) -> Result<AssignedCell<VR, F>, Error>
    where
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        if self.region.annotate() {
            let _: String = annotation().into();
        }
        let cell = self.region.assign_advice_from_constant(column, offset, (&constant).into())?;
        Ok(AssignedCell { value: Value::known(constant), cell, _marker: PhantomData })
    }
    pub fn assign_advice_from_instance<A, AR>(&mut self, annotation: A, instance: Column<Instance>, row: usize, advice: Column<Advice>, offset: usize) -> Result<AssignedCell<F, F>, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        if self.region.annotate() {
            let _: String = annotation().into();
        }
        let (cell, value) = self.region.assign_advice_from_instance(instance, row, advice, offset)?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn instance_value(&mut self, instance: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.region.instance_value(instance, row)
    }
    pub fn assign_fixed<'v, V, VR, A, AR>(&'v mut self, annotation: A, column: Column<Fixed>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        if self.region.annotate() {
            let _: String = annotation().into();
        }
        let mut value = Value::unknown();
        let cell = self.region.assign_fixed(column, offset, &mut || {
            let v = to();
            let f = v.to_field();
            value = v;
            f
        })?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn constrain_constant<VR>(&mut self, cell: Cell, constant: VR) -> Result<(), Error>
    where
        VR: Into<Assigned<F>>,
    {
        self.region.constrain_constant(cell, constant.into())
    }
    pub fn constrain_equal(&mut self, left: Cell, right: Cell) -> Result<(), Error> {
        self.region.constrain_equal(left, right)
    }
    pub fn global_offset(&self, offset: usize) -> usize {
        self.region.global_offset(offset)
    }
    pub fn query_advice(&self, column: Column<Advice>, offset: usize) -> Result<F, Error> {
        self.region.query_advice(column, offset)
    }
    pub fn query_fixed(&self, column: Column<Fixed>, offset: usize) -> Result<F, Error> {
        self.region.query_fixed(column, offset)
    }
}

pub trait TableLayouter<F: Field> {
    fn annotate(&self) -> bool;
    fn assign_cell(&mut self, column: TableColumn, offset: usize, to: &mut dyn FnMut() -> Value<Assigned<F>>) -> Result<(), Error>;
}
pub struct Table<'r, F: Field> {
    table: &'r mut dyn TableLayouter<F>,
}
impl<F: Field> fmt::Debug for Table<'_, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Table")
    }
}
impl<'r, F: Field> From<&'r mut dyn TableLayouter<F>> for Table<'r, F> {
    fn from(table: &'r mut dyn TableLayouter<F>) -> Self {
        Table { table }
    }
}
impl<F: Field> Table<'_, F> {
    pub fn assign_cell<'v, V, VR, A, AR>(&'v mut self, annotation: A, column: TableColumn, offset: usize, mut to: V) -> Result<(), Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        VR: Into<Assigned<F>>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        if self.table.annotate() {
            let _: String = annotation().into();
        }
        self.table.assign_cell(column, offset, &mut || to().into_field())
    }
}

// ---------------------------------------------------------------- layouters

pub trait Layouter<F: Field> {
    type Root: Layouter<F>;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>;
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>;
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>;
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error>;
    fn get_challenge(&self, _challenge: Challenge) -> Value<F> {
        Value::unknown()
    }
    fn get_root(&mut self) -> &mut Self::Root;
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR;
    fn pop_namespace(&mut self, gadget_name: Option<String>);
    fn namespace<NR, N>(&mut self, name_fn: N) -> NamespacedLayouter<'_, F, Self::Root>
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.get_root().push_namespace(name_fn);
        NamespacedLayouter(self.get_root(), PhantomData)
    }
}

#[derive(Debug)]
pub struct NamespacedLayouter<'a, F: Field, L: Layouter<F> + 'a>(&'a mut L, PhantomData<F>);
impl<'a, F: Field, L: Layouter<F> + 'a> Layouter<F> for NamespacedLayouter<'a, F, L> {
    type Root = L::Root;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_region(name, assignment)
    }
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_regions(name, assignments)
    }
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_table(name, assignment)
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        self.0.constrain_instance(cell, column, row)
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self.0.get_root()
    }
    fn push_namespace<NR, N>(&mut self, _name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        panic!("Only the root's push_namespace should be called");
    }
    fn pop_namespace(&mut self, _gadget_name: Option<String>) {
        panic!("Only the root's pop_namespace should be called");
    }
}
impl<'a, F: Field, L: Layouter<F> + 'a> Drop for NamespacedLayouter<'a, F, L> {
    fn drop(&mut self) {
        self.get_root().pop_namespace(None);
    }
}

/// Nominal floor planner; the simulated layouter is a simple one.
pub trait FloorPlanner {}
#[derive(Debug)]
pub struct SimpleFloorPlanner;
impl FloorPlanner for SimpleFloorPlanner {}
