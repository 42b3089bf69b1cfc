//! The calls the workload makes into poseidon-base. Instrumented like the library itself, because
//! the library's generic code is instantiated here.
#![allow(deprecated)]
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes};
use halo2curves::pasta::Fp;
use poseidon_base::hash::{HashSpec, Hashable, Hashablebase, MessageHashable};
use poseidon_base::params::{self, CachedConstants};
use poseidon_base::primitives::{
    permute, CachedSpec, ConstantLength, ConstantLengthIden3, Domain, Hash, Mds, P128Pow5T3, P128Pow5T3Compact,
    P128Pow5T3Constants, Spec, VariableLengthIden3,
};
pub mod simtypes;
use simtypes::{hook, SimFr};
use std::sync::{Arc, OnceLock};

// ---------------------------------------------------------------- caller-side parameter tables

/// A specification of the caller's own: any width, x^5, default (generated) constants.
#[derive(Clone, Copy, Debug)]
pub struct WSpec;

pub const W_RF: usize = 8;
pub fn w_rp(t: usize) -> usize {
    [0, 0, 4, 9, 3, 5, 7][t]
}

impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize> Spec<F, T, RATE> for WSpec {
    fn full_rounds() -> usize {
        W_RF
    }
    fn partial_rounds() -> usize {
        w_rp(T)
    }
    fn sbox(v: F) -> F {
        hook();
        let s = v.square();
        s.square() * v
    }
    fn secure_mds() -> usize {
        0
    }
}

pub struct Cached<const T: usize>(Vec<[Fr; T]>, Mds<Fr, T>, Mds<Fr, T>);

macro_rules! wcached {
    ($($t:literal $r:literal),*) => {$(
        impl WCell<$t> for [(); $r] {
            fn cell() -> &'static OnceLock<Cached<$t>> { static C: OnceLock<Cached<$t>> = OnceLock::new(); &C }
        }
        impl CachedSpec<Fr, $t, $r> for WSpec {
            fn cached_round_constants() -> &'static [[Fr; $t]] { hook(); &w_cell_get::<$t, $r>().0 }
            fn cached_mds() -> &'static Mds<Fr, $t> { hook(); &w_cell_get::<$t, $r>().1 }
            fn cached_mds_inv() -> &'static Mds<Fr, $t> { hook(); &w_cell_get::<$t, $r>().2 }
        }
    )*};
}
trait WCell<const T: usize> {
    fn cell() -> &'static OnceLock<Cached<T>>;
}
fn w_cell_get<const T: usize, const R: usize>() -> &'static Cached<T>
where
    WSpec: Spec<Fr, T, R>,
    [(); R]: WCell<T>,
{
    <[(); R] as WCell<T>>::cell().get_or_init(|| {
        let (a, b, d) = <WSpec as Spec<Fr, T, R>>::constants();
        Cached(a, b, d)
    })
}
wcached!(2 1, 3 2, 4 3, 4 2, 5 4, 5 3);

impl P128Pow5T3Constants for SimFr {
    fn partial_rounds() -> usize {
        57
    }
    fn round_constants() -> Vec<[Self; 3]> {
        Fr::round_constants().into_iter().map(|r| r.map(SimFr)).collect()
    }
    fn mds() -> Mds<Self, 3> {
        <Fr as P128Pow5T3Constants>::mds().map(|r| r.map(SimFr))
    }
    fn mds_inv() -> Mds<Self, 3> {
        <Fr as P128Pow5T3Constants>::mds_inv().map(|r| r.map(SimFr))
    }
}
type SimCache = (Vec<[SimFr; 3]>, Mds<SimFr, 3>, Mds<SimFr, 3>);
fn sim_cache() -> &'static SimCache {
    static C: OnceLock<SimCache> = OnceLock::new();
    C.get_or_init(<HashSpec<SimFr> as Spec<SimFr, 3, 2>>::constants)
}
impl CachedSpec<SimFr, 3, 2> for HashSpec<SimFr> {
    fn cached_round_constants() -> &'static [[SimFr; 3]] {
        hook();
        &sim_cache().0
    }
    fn cached_mds() -> &'static Mds<SimFr, 3> {
        hook();
        &sim_cache().1
    }
    fn cached_mds_inv() -> &'static Mds<SimFr, 3> {
        hook();
        &sim_cache().2
    }
}
impl CachedConstants for SimFr {
    fn cached_round_constants() -> &'static [[Self; 3]] {
        hook();
        &sim_cache().0
    }
    fn cached_mds() -> &'static Mds<Self, 3> {
        hook();
        &sim_cache().1
    }
    fn cached_mds_inv() -> &'static Mds<Self, 3> {
        hook();
        &sim_cache().2
    }
}
impl Hashablebase for SimFr {}
impl Hashable for SimFr {
    type SpecType = HashSpec<Self>;
    type DomainType = ConstantLengthIden3<2>;
    fn hash_with_domain(inp: [Self; 2], domain: Self) -> Self {
        Self::hasher().hash(inp, domain)
    }
}
impl MessageHashable for SimFr {
    type DomainType = VariableLengthIden3;
    fn hash_msg(msg: &[Self], cap: Option<u128>) -> Self {
        Self::msg_hasher().hash_with_cap(msg, cap.unwrap_or(msg.len() as u128 * poseidon_base::HASHABLE_DOMAIN_SPEC))
    }
}

/// a domain whose layout the sponge has to refuse
#[derive(Clone, Copy, Debug)]
pub struct OddDomain;
impl Domain<Fr, 2> for OddDomain {
    type Padding = std::iter::Empty<Fr>;
    fn name() -> String {
        hook();
        "odd".into()
    }
    fn initial_capacity_element() -> Fr {
        hook();
        Fr::from(7)
    }
    fn padding(_: usize) -> Self::Padding {
        std::iter::empty()
    }
    fn layout(_: usize) -> usize {
        hook();
        2
    }
}

// ---------------------------------------------------------------- handles

type H2 = Hash<Fr, HashSpec<Fr>, ConstantLengthIden3<2>, 3, 2>;
type HM = Hash<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>;
type HK<const L: usize> = Hash<Fr, HashSpec<Fr>, ConstantLength<L>, 3, 2>;

#[derive(Clone)]
pub enum Handle {
    Two(H2),
    Msg(HM),
    K3(HK<3>),
    K4(HK<4>),
}
// Handles are shared between simulated threads whatever their auto traits say; whether the library
// still allows it is checked by `handle_traits`.
#[derive(Clone)]
pub struct Slot(pub Arc<Handle>);
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

impl Handle {
    pub fn obtain(kind: u64) -> Handle {
        match kind % 8 {
            0 => Handle::Two(Fr::hasher()),
            1 => Handle::Two(H2::init()),
            2 => Handle::Msg(Fr::msg_hasher()),
            3 => Handle::Msg(HM::init()),
            4 | 5 => Handle::K3(HK::<3>::init()),
            _ => Handle::K4(HK::<4>::init()),
        }
    }
    pub fn permute(&self, s: &mut [Fr; 3]) {
        match self {
            Handle::Two(h) => h.permute(s),
            Handle::Msg(h) => h.permute(s),
            Handle::K3(h) => h.permute(s),
            Handle::K4(h) => h.permute(s),
        }
    }
    /// 0: two-to-one (words 0,1; capacity field), 1: message, 3/4: constant length
    pub fn shape(&self) -> u64 {
        match self {
            Handle::Two(_) => 0,
            Handle::Msg(_) => 1,
            Handle::K3(_) => 3,
            Handle::K4(_) => 4,
        }
    }
    pub fn hash(self, w: &[Fr], dom: Fr, cap: u128) -> Fr {
        match self {
            Handle::Two(h) => h.hash([w[0], w[1]], dom),
            Handle::Msg(h) => h.hash_with_cap(w, cap),
            Handle::K3(h) => h.hash([w[0], w[1], w[2]]),
            Handle::K4(h) => h.hash([w[0], w[1], w[2], w[3]]),
        }
    }
    pub fn debug(&self) -> String {
        match self {
            Handle::Two(h) => format!("{h:?}"),
            Handle::Msg(h) => format!("{h:?}"),
            Handle::K3(h) => format!("{h:?}"),
            Handle::K4(h) => format!("{h:?}"),
        }
    }
}

/// (Send, Sync) of the hasher handles, found at run time so that losing one is a finding and not a
/// build failure
pub fn handle_traits() -> (bool, bool) {
    struct S1<T>(std::marker::PhantomData<T>);
    struct S2<T>(std::marker::PhantomData<T>);
    trait No {
        fn q(&self) -> bool {
            false
        }
    }
    impl<T> No for S1<T> {}
    impl<T> No for S2<T> {}
    impl<T: Send> S1<T> {
        fn q(&self) -> bool {
            true
        }
    }
    impl<T: Sync> S2<T> {
        fn q(&self) -> bool {
            true
        }
    }
    fn p<T>() -> std::marker::PhantomData<T> {
        std::marker::PhantomData
    }
    let send = S1::<H2>(p()).q() && S1::<HM>(p()).q() && S1::<HK<3>>(p()).q();
    let sync = S2::<H2>(p()).q() && S2::<HM>(p()).q() && S2::<HK<3>>(p()).q();
    (send, sync)
}

// ---------------------------------------------------------------- calls

pub fn hash2(x: Fr, y: Fr) -> Fr {
    Fr::hash([x, y])
}
pub fn hash_dom(x: Fr, y: Fr, d: Fr) -> Fr {
    Fr::hash_with_domain([x, y], d)
}
pub fn hash_msg(w: &[Fr], cap: Option<u128>) -> Fr {
    Fr::hash_msg(w, cap)
}
fn arr<const L: usize, F: Copy>(w: &[F]) -> [F; L] {
    std::array::from_fn(|i| w[i])
}
macro_rules! by_len {
    ($n:expr, $L:ident, $e:expr, $($l:literal)*) => { match $n { $($l => { const $L: usize = $l; $e })* _ => panic!("length") } };
}
pub fn const_len(w: &[Fr]) -> Fr {
    by_len!(w.len(), L, Hash::<Fr, HashSpec<Fr>, ConstantLength<L>, 3, 2>::init().hash(arr::<L, _>(w)), 1 2 3 4 5 6 7 8 16 17)
}
pub fn const_iden3(w: &[Fr], d: Fr) -> Fr {
    by_len!(w.len(), L, Hash::<Fr, HashSpec<Fr>, ConstantLengthIden3<L>, 3, 2>::init().hash(arr::<L, _>(w), d), 1 2 3 4 5 6 7 8 16 17)
}
pub fn var_len(w: &[Fr], cap: u128) -> Fr {
    Hash::<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>::init().hash_with_cap(w, cap)
}
pub fn perm_fresh(s: &mut [Fr; 3], which: u64) {
    match which % 4 {
        0 => Fr::hasher().permute(s),
        1 => Fr::msg_hasher().permute(s),
        2 => Hash::<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 2>::init().permute(s),
        _ => permute::<Fr, HashSpec<Fr>, 3, 2>(
            s,
            <HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds(),
            <HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_round_constants(),
        ),
    }
}
/// permutation with constants generated or copied at the call
pub fn perm_spec(s: &mut [Fr; 3], which: u64) {
    if which % 2 == 0 {
        let (rc, m, _) = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
        permute::<Fr, P128Pow5T3<Fr>, 3, 2>(s, &m, &rc);
    } else {
        let (rc, m, _) = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
        permute::<Fr, P128Pow5T3Compact<Fr>, 3, 2>(s, &m, &rc);
    }
}
/// other widths, caller's own specification; words.len() is the constant length
pub fn wide(t: u64, w: &[Fr], iden3: bool, d: Fr) -> Fr {
    macro_rules! go {
        ($t:literal $r:literal) => {
            if iden3 {
                by_len!(w.len(), L, Hash::<Fr, WSpec, ConstantLengthIden3<L>, $t, $r>::init().hash(arr::<L, _>(w), d), 1 2 3 4 5 6 7)
            } else {
                by_len!(w.len(), L, Hash::<Fr, WSpec, ConstantLength<L>, $t, $r>::init().hash(arr::<L, _>(w)), 1 2 3 4 5 6 7)
            }
        };
    }
    match t % 6 {
        0 => go!(2 1),
        1 => go!(3 2),
        2 => go!(4 3),
        3 => go!(4 2),
        4 => go!(5 4),
        _ => go!(5 3),
    }
}
/// (width, rate) of `wide`
pub fn wide_dims(t: u64) -> (usize, usize) {
    [(2, 1), (3, 2), (4, 3), (4, 2), (5, 4), (5, 3)][(t % 6) as usize]
}

pub fn sim_hash2(x: SimFr, y: SimFr, d: SimFr) -> SimFr {
    SimFr::hash_with_domain([x, y], d)
}
pub fn sim_msg(w: &[SimFr], cap: Option<u128>) -> SimFr {
    SimFr::hash_msg(w, cap)
}
pub fn sim_const(w: &[SimFr]) -> SimFr {
    by_len!(w.len(), L, Hash::<SimFr, HashSpec<SimFr>, ConstantLength<L>, 3, 2>::init().hash(arr::<L, _>(w)), 1 2 3 4 5 6 7)
}
pub fn sim_perm(s: &mut [SimFr; 3]) {
    Hash::<SimFr, HashSpec<SimFr>, ConstantLength<2>, 3, 2>::init().permute(s)
}

pub fn pasta_const(w: &[Fp]) -> Fp {
    by_len!(w.len(), L, Hash::<Fp, HashSpec<Fp>, ConstantLength<L>, 3, 2>::init().hash(arr::<L, _>(w)), 1 2 3 4 5 6 7)
}
pub fn pasta_perm(s: &mut [Fp; 3], which: u64) {
    match which % 3 {
        0 => Hash::<Fp, HashSpec<Fp>, ConstantLength<2>, 3, 2>::init().permute(s),
        1 => {
            let (rc, m, _) = <P128Pow5T3<Fp> as Spec<Fp, 3, 2>>::constants();
            permute::<Fp, P128Pow5T3<Fp>, 3, 2>(s, &m, &rc);
        }
        _ => {
            let (rc, m, _) = <P128Pow5T3Compact<Fp> as Spec<Fp, 3, 2>>::constants();
            permute::<Fp, P128Pow5T3Compact<Fp>, 3, 2>(s, &m, &rc);
        }
    }
}

/// A full set of width-3 parameters as some entry point shows it; None: that part is not shown.
pub struct Seen {
    pub rc: Option<Vec<[Fr; 3]>>,
    pub mds: Option<Mds<Fr, 3>>,
    pub inv: Option<Mds<Fr, 3>>,
}
pub const GETTERS: u64 = 14;
pub fn get(which: u64) -> Seen {
    let (mut rc, mut mds, mut inv) = (None, None, None);
    match which % GETTERS {
        0 => rc = Some((0..65).map(params::round_constant::<Fr>).collect()),
        1 => mds = Some(*params::mds::<Fr>()),
        2 => inv = Some(*<Fr as CachedConstants>::cached_mds_inv()),
        3 => rc = Some(<Fr as CachedConstants>::cached_round_constants().to_vec()),
        4 => rc = Some(<HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_round_constants().to_vec()),
        5 => mds = Some(*<HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds()),
        6 => inv = Some(*<HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds_inv()),
        7 => rc = Some(<Fr as P128Pow5T3Constants>::round_constants()),
        8 => mds = Some(<Fr as P128Pow5T3Constants>::mds()),
        9 => inv = Some(<Fr as P128Pow5T3Constants>::mds_inv()),
        10 => {
            let c = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
            rc = Some(c.0);
            mds = Some(c.1);
            inv = Some(c.2);
        }
        11 => {
            let c = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
            rc = Some(c.0);
            mds = Some(c.1);
            inv = Some(c.2);
        }
        12 => {
            let c = <WSpec as Spec<Fr, 3, 2>>::constants();
            mds = Some(c.1);
            inv = Some(c.2);
        }
        _ => {
            rc = Some(poseidon_base::primitives::bn256::fp::ROUND_CONSTANTS.to_vec());
            mds = Some(*poseidon_base::primitives::bn256::fp::MDS);
            inv = Some(*poseidon_base::primitives::bn256::fp::MDS_INV);
        }
    }
    Seen { rc, mds, inv }
}
pub fn block_size() -> usize {
    Fr::hash_block_size()
}

pub const BADS: u64 = 7;
/// calls the library refuses (or that the caller's code breaks)
pub fn bad(which: u64, w: &[Fr]) -> usize {
    match which % BADS {
        0 => Fr::hash_msg(&[], None).is_zero_vartime() as usize,
        1 => Fr::hash_msg(&[], Some(5)).is_zero_vartime() as usize,
        2 => params::round_constant::<Fr>(65 + w.len())[0].is_zero_vartime() as usize,
        3 => <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::secure_mds(),
        4 => <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::secure_mds(),
        5 => {
            // the padding of a constant-length domain refuses another length
            <ConstantLength<3> as Domain<Fr, 2>>::padding(w.len() + 4).count()
        }
        _ => {
            let h = Hash::<Fr, HashSpec<Fr>, OddDomain, 3, 2>::init();
            let mut s = arr::<3, _>(w);
            h.permute(&mut s);
            format!("{h:?}").len()
        }
    }
}
