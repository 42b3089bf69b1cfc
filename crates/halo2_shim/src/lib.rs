//! A simulated halo2 constraint-system backend: the part of the `halo2_proofs` API a chip is written
//! against (scroll-tech's v1.0 branch with `parallel_syn`), recording what synthesis does instead of
//! proving it. Worker scheduling, backend errors and running out of rows are decided by the caller.
pub mod circuit;
pub mod plonk;
pub mod sim;

pub use halo2curves;

pub mod arithmetic {
    pub use ff::{self, Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
    pub use group::{self, Curve, Group};
}

pub mod poly {
    /// Rotation of a query relative to the current row.
    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Rotation(pub i32);
    impl Rotation {
        pub fn cur() -> Rotation {
            Rotation(0)
        }
        pub fn prev() -> Rotation {
            Rotation(-1)
        }
        pub fn next() -> Rotation {
            Rotation(1)
        }
    }
}

pub mod dev {
    use crate::circuit::Value;
    pub fn unwrap_value<T: std::fmt::Debug>(v: Value<T>) -> T {
        v.inner.expect("unknown value")
    }
}
