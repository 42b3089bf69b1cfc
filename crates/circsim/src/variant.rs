//! The two builds of the library behind one interface.
use crate::poly::Prog;
use crate::model::Entry;
use ff::Field;
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Error, Fixed};
use halo2_proofs::sim::SimLayouter;
use halo2curves::bn256::Fr;

/// A hash table's fields.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Raw {
    pub inputs: Vec<[Fr; 2]>,
    pub controls: Vec<u64>,
    pub domain: Vec<Option<Fr>>,
    pub checks: Vec<Option<Fr>>,
}
impl Raw {
    /// the entries these fields stand for
    pub fn entries(&self) -> Vec<Entry> {
        (0..self.inputs.len().max(self.controls.len()).max(self.domain.len()).max(self.checks.len()))
            .map(|i| Entry {
                inp: self.inputs.get(i).copied().unwrap_or([Fr::ZERO; 2]),
                ctrl: self.controls.get(i).copied().unwrap_or(0),
                dom: self.domain.get(i).copied().flatten().unwrap_or(Fr::ZERO),
                check: self.checks.get(i).copied().flatten(),
            })
            .collect()
    }
}

pub type Load<'a> = &'a (dyn Fn(&mut SimLayouter<Fr>) -> Result<(), Error> + Sync);

/// Calls into one build of the library.
pub trait Lib {
    fn configure(&self, chip: u64, step: usize, shared: usize) -> Box<dyn Conf>;
    fn gadget(&self, kind: u64) -> Box<dyn Gad>;
    fn builder(&self, init: &Raw) -> Box<dyn Builder>;
    fn block_size(&self) -> usize;
    fn two(&self, x: [Fr; 2], dom: Fr) -> Fr;
    fn msg(&self, w: &[Fr], cap: u128) -> Fr;
}
pub trait Conf {
    fn cs(&self) -> &ConstraintSystem<Fr>;
    fn q_enable(&self) -> Column<Fixed>;
    fn exposed(&self) -> [Column<Advice>; 6];
    fn reported(&self) -> ([usize; 6], [Column<Advice>; 6]);
    fn step(&self) -> usize;
    fn with(&self, t: &Raw, calcs: usize, f: &mut dyn FnMut(Load));
}
pub trait Builder {
    fn raw(&self) -> Raw;
    fn fixed(&mut self, src: &mut dyn Iterator<Item = &'static ([Fr; 2], Fr, Option<Fr>)>);
    fn stream(&mut self, src: &mut dyn Iterator<Item = &'static [Fr; 2]>, check: Option<Option<Fr>>, ctrl: u64, step: usize);
    fn bulk(&mut self, src: &mut dyn Iterator<Item = &'static [Fr; 2]>);
    fn bulk_check(&mut self, src: &mut dyn Iterator<Item = &'static (Fr, Fr, Fr)>);
    fn bare(&mut self, v: &[[Fr; 2]]);
    fn sizes(&self) -> (usize, usize);
    fn copy(&self) -> Box<dyn Builder>;
}
/// (input cells, output cells) of each use of a gadget
pub type Io = Vec<(Vec<halo2_proofs::circuit::Cell>, Vec<halo2_proofs::circuit::Cell>)>;
pub trait Gad: Sync {
    fn cs(&self) -> &ConstraintSystem<Fr>;
    fn width(&self) -> usize;
    fn permute(&self, states: &[Vec<Fr>], batch: bool, l: &mut SimLayouter<Fr>) -> Result<Io, Error>;
    fn hash(&self, w: &[Vec<Fr>], l: &mut SimLayouter<Fr>) -> Result<Io, Error>;
    fn sponge(&self, w: &[Fr], pads: u64, squeeze: usize, l: &mut SimLayouter<Fr>) -> Result<Io, Error>;
}

macro_rules! lib {
    ($m:ident, $t:ident) => {
        pub mod $m {
            use super::*;
            use circwork::$m as w;
            pub struct $t;
            struct C(w::Hc);
            struct B(w::Table);
            struct G(w::Gadget);
            fn table(r: &Raw) -> w::Table {
                let mut t = w::Table::default();
                t.inputs = r.inputs.clone();
                t.controls = r.controls.clone();
                t.domain = r.domain.clone();
                t.checks = r.checks.clone();
                t
            }
            impl Lib for $t {
                fn configure(&self, chip: u64, step: usize, shared: usize) -> Box<dyn Conf> {
                    Box::new(C(w::configure(if chip == 0 { w::ChipKind::Septidon } else { w::ChipKind::Pow5 }, step, shared)))
                }
                fn gadget(&self, kind: u64) -> Box<dyn Gad> {
                    Box::new(G(w::gadget(kind)))
                }
                fn builder(&self, init: &Raw) -> Box<dyn Builder> {
                    Box::new(B(table(init)))
                }
                fn block_size(&self) -> usize {
                    w::block_size()
                }
                fn two(&self, x: [Fr; 2], dom: Fr) -> Fr {
                    w::lib_two(x, dom)
                }
                fn msg(&self, x: &[Fr], cap: u128) -> Fr {
                    w::lib_msg(x, cap)
                }
            }
            impl Conf for C {
                fn cs(&self) -> &ConstraintSystem<Fr> {
                    &self.0.cs
                }
                fn q_enable(&self) -> Column<Fixed> {
                    self.0.q_enable
                }
                fn exposed(&self) -> [Column<Advice>; 6] {
                    self.0.exposed
                }
                fn reported(&self) -> ([usize; 6], [Column<Advice>; 6]) {
                    self.0.reported()
                }
                fn step(&self) -> usize {
                    self.0.step
                }
                fn with(&self, t: &Raw, calcs: usize, f: &mut dyn FnMut(Load)) {
                    let t = table(t);
                    w::loader(&self.0, &t, calcs, f)
                }
            }
            impl Builder for B {
                fn raw(&self) -> Raw {
                    Raw { inputs: self.0.inputs.clone(), controls: self.0.controls.clone(), domain: self.0.domain.clone(), checks: self.0.checks.clone() }
                }
                fn fixed(&mut self, src: &mut dyn Iterator<Item = &'static ([Fr; 2], Fr, Option<Fr>)>) {
                    w::fixed(&mut self.0, src)
                }
                fn stream(&mut self, src: &mut dyn Iterator<Item = &'static [Fr; 2]>, check: Option<Option<Fr>>, ctrl: u64, step: usize) {
                    match check {
                        None => w::stream(&mut self.0, src, ctrl, step),
                        Some(c) => w::stream_check(&mut self.0, src, c, ctrl, step),
                    }
                }
                fn bulk(&mut self, src: &mut dyn Iterator<Item = &'static [Fr; 2]>) {
                    w::bulk(&mut self.0, src)
                }
                fn bulk_check(&mut self, src: &mut dyn Iterator<Item = &'static (Fr, Fr, Fr)>) {
                    w::bulk_check(&mut self.0, src)
                }
                fn bare(&mut self, v: &[[Fr; 2]]) {
                    self.0.inputs.extend(v)
                }
                fn sizes(&self) -> (usize, usize) {
                    w::sizes(&self.0)
                }
                fn copy(&self) -> Box<dyn Builder> {
                    Box::new(B(self.0.clone()))
                }
            }
            impl Gad for G {
                fn cs(&self) -> &ConstraintSystem<Fr> {
                    self.0.cs()
                }
                fn width(&self) -> usize {
                    self.0.width()
                }
                fn permute(&self, states: &[Vec<Fr>], batch: bool, l: &mut SimLayouter<Fr>) -> Result<Io, Error> {
                    self.0.permute(states, batch, l)
                }
                fn hash(&self, x: &[Vec<Fr>], l: &mut SimLayouter<Fr>) -> Result<Io, Error> {
                    self.0.hash(x, l)
                }
                fn sponge(&self, x: &[Fr], pads: u64, squeeze: usize, l: &mut SimLayouter<Fr>) -> Result<Io, Error> {
                    self.0.sponge(x, pads, squeeze, l)
                }
            }
        }
    };
}
lib!(par, Par);
lib!(plain, Plain);

pub fn lib(plain: bool) -> &'static dyn Lib {
    if plain {
        &plain::Plain
    } else {
        &par::Par
    }
}

pub struct Cached {
    pub conf: Box<dyn Conf>,
    pub prog: Prog<Fr>,
}
static mut CACHE: Vec<((bool, u64, usize, usize), &'static Cached)> = vec![];

/// A configured circuit (main thread only), configured once per process.
#[allow(static_mut_refs)]
pub fn conf(plain: bool, chip: u64, step: usize, shared: usize) -> &'static Cached {
    unsafe {
        let k = (plain, chip, step, shared);
        if let Some((_, c)) = CACHE.iter().find(|(x, _)| *x == k) {
            return c;
        }
        let conf = lib(plain).configure(chip, step, shared);
        let prog = crate::poly::compile(conf.cs());
        let c: &'static Cached = Box::leak(Box::new(Cached { conf, prog }));
        CACHE.push((k, c));
        c
    }
}
pub struct CachedGad {
    pub g: Box<dyn Gad>,
    pub prog: Prog<Fr>,
}
static mut GADS: Vec<((bool, u64), &'static CachedGad)> = vec![];
#[allow(static_mut_refs)]
pub fn gad(plain: bool, kind: u64) -> &'static CachedGad {
    unsafe {
        let k = (plain, kind);
        if let Some((_, c)) = GADS.iter().find(|(x, _)| *x == k) {
            return c;
        }
        let g = lib(plain).gadget(kind);
        let prog = crate::poly::compile(g.cs());
        let c: &'static CachedGad = Box::leak(Box::new(CachedGad { g, prog }));
        GADS.push((k, c));
        c
    }
}
