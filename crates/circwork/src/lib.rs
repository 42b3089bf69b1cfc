//! The calls the workload makes into poseidon-circuit. Instrumented like the library itself, because
//! the library's generic code is instantiated here.
#![allow(deprecated)]

pub use poseidon_base::hash::HASHABLE_DOMAIN_SPEC;

/// the library as zkevm-circuits builds it: short chip, parallel synthesis compiled in
pub mod par {
    use poseidon_circuit as pc;
    include!("body.rs");
}
/// the library built without features
pub mod plain {
    use poseidon_circuit_plain as pc;
    include!("body.rs");
}
