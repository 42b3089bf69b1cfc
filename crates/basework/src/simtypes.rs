//! Caller-side types that run inside the library's hash: a field whose every operation can panic,
//! yield or re-enter the library. Not instrumented.
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};
use rand::RngCore;
use std::cell::Cell;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Action {
    None,
    Panic,
    Reenter,
    Yield,
}

thread_local! {
    static HOOK: Cell<(u64, Action)> = const { Cell::new((0, Action::None)) };
    static FIRED: Cell<u32> = const { Cell::new(0) };
}
static mut REENTER: Option<fn()> = None;

pub fn set_reenter(f: fn()) {
    unsafe { REENTER = Some(f) }
}

/// arm: the n-th caller-side operation from now does `a` (yield: every n-th)
pub fn arm(n: u64, a: Action) {
    HOOK.with(|h| h.set((n.max(1), a)));
    FIRED.with(|f| f.set(0));
}
/// disarm; returns how often it fired
pub fn disarm() -> u32 {
    HOOK.with(|h| h.set((0, Action::None)));
    FIRED.with(|f| f.replace(0))
}

pub fn hook() {
    let (n, a) = HOOK.with(|h| h.get());
    if n == 0 {
        return;
    }
    if n > 1 {
        HOOK.with(|h| h.set((n - 1, a)));
        return;
    }
    HOOK.with(|h| h.set((0, Action::None)));
    FIRED.with(|f| f.set(f.get() + 1));
    match a {
        Action::None => {}
        Action::Panic => panic!("injected: caller code panics inside the hash"),
        Action::Yield => {
            HOOK.with(|h| h.set((17, a)));
            std::thread::yield_now();
        }
        Action::Reenter => {
            if let Some(f) = unsafe { REENTER } {
                f()
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct SimFr(pub Fr);

impl std::fmt::Debug for SimFr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

impl ConditionallySelectable for SimFr {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        SimFr(Fr::conditional_select(&a.0, &b.0, c))
    }
}
impl ConstantTimeEq for SimFr {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl From<u64> for SimFr {
    fn from(v: u64) -> Self {
        SimFr(Fr::from(v))
    }
}
impl Neg for SimFr {
    type Output = SimFr;
    fn neg(self) -> SimFr {
        hook();
        SimFr(-self.0)
    }
}
macro_rules! bin {
    ($tr:ident $f:ident $tra:ident $fa:ident $op:tt) => {
        impl $tr<SimFr> for SimFr { type Output = SimFr; fn $f(self, o: SimFr) -> SimFr { hook(); SimFr(self.0 $op o.0) } }
        impl<'a> $tr<&'a SimFr> for SimFr { type Output = SimFr; fn $f(self, o: &'a SimFr) -> SimFr { hook(); SimFr(self.0 $op o.0) } }
        impl $tra<SimFr> for SimFr { fn $fa(&mut self, o: SimFr) { hook(); self.0 = self.0 $op o.0; } }
        impl<'a> $tra<&'a SimFr> for SimFr { fn $fa(&mut self, o: &'a SimFr) { hook(); self.0 = self.0 $op o.0; } }
    };
}
bin!(Add add AddAssign add_assign +);
bin!(Sub sub SubAssign sub_assign -);
bin!(Mul mul MulAssign mul_assign *);
impl Sum for SimFr {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(SimFr::ZERO, |a, b| a + b)
    }
}
impl<'a> Sum<&'a SimFr> for SimFr {
    fn sum<I: Iterator<Item = &'a SimFr>>(i: I) -> Self {
        i.fold(SimFr::ZERO, |a, b| a + b)
    }
}
impl Product for SimFr {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(SimFr::ONE, |a, b| a * b)
    }
}
impl<'a> Product<&'a SimFr> for SimFr {
    fn product<I: Iterator<Item = &'a SimFr>>(i: I) -> Self {
        i.fold(SimFr::ONE, |a, b| a * b)
    }
}
impl Field for SimFr {
    const ZERO: Self = SimFr(Fr::ZERO);
    const ONE: Self = SimFr(Fr::ONE);
    fn random(r: impl RngCore) -> Self {
        SimFr(Fr::random(r))
    }
    fn square(&self) -> Self {
        hook();
        SimFr(self.0.square())
    }
    fn double(&self) -> Self {
        hook();
        SimFr(self.0.double())
    }
    fn invert(&self) -> CtOption<Self> {
        hook();
        self.0.invert().map(SimFr)
    }
    fn sqrt_ratio(a: &Self, b: &Self) -> (Choice, Self) {
        let (c, v) = Fr::sqrt_ratio(&a.0, &b.0);
        (c, SimFr(v))
    }
}
impl PrimeField for SimFr {
    type Repr = <Fr as PrimeField>::Repr;
    const MODULUS: &'static str = Fr::MODULUS;
    const NUM_BITS: u32 = Fr::NUM_BITS;
    const CAPACITY: u32 = Fr::CAPACITY;
    const TWO_INV: Self = SimFr(Fr::TWO_INV);
    const MULTIPLICATIVE_GENERATOR: Self = SimFr(Fr::MULTIPLICATIVE_GENERATOR);
    const S: u32 = Fr::S;
    const ROOT_OF_UNITY: Self = SimFr(Fr::ROOT_OF_UNITY);
    const ROOT_OF_UNITY_INV: Self = SimFr(Fr::ROOT_OF_UNITY_INV);
    const DELTA: Self = SimFr(Fr::DELTA);
    fn from_repr(r: Self::Repr) -> CtOption<Self> {
        Fr::from_repr(r).map(SimFr)
    }
    fn to_repr(&self) -> Self::Repr {
        self.0.to_repr()
    }
    fn is_odd(&self) -> Choice {
        self.0.is_odd()
    }
    fn from_u128(v: u128) -> Self {
        SimFr(Fr::from_u128(v))
    }
}
impl FromUniformBytes<64> for SimFr {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        SimFr(Fr::from_uniform_bytes(b))
    }
}
