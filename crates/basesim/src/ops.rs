//! Operations of the workload: text form, execution against the real library, expectation from the
//! reference model.
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};
use halo2curves::pasta::Fp;
use refmodel::vals::val;
use refmodel::{fr, permute_with, Params};
use simrt::{At, FaultKind, OpFault};
use basework::simtypes::{Action, SimFr};
use std::sync::OnceLock;

macro_rules! kinds {
    ($($id:ident $txt:literal $name:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        #[repr(usize)]
        pub enum K { $($id),* }
        pub const KINDS: &[(K, &str, &str)] = &[$((K::$id, $txt, $name)),*];
    };
}
kinds! {
    H2 "h2" "Hashable::hash",
    Hd "hd" "Hashable::hash_with_domain",
    Hm "hm" "MessageHashable::hash_msg",
    Hl "hl" "MessageHashable::hash_msg (long)",
    Cl "cl" "Hash<ConstantLength>::hash",
    Ci "ci" "Hash<ConstantLengthIden3>::hash",
    Vl "vl" "Hash<VariableLengthIden3>::hash_with_cap",
    Pf "pf" "permute (cached parameters)",
    Ps "ps" "permute (Spec::constants)",
    Wd "wd" "Hash over a caller-side specification",
    S2 "s2" "hash_with_domain over a caller-side field",
    Sm "sm" "hash_msg over a caller-side field",
    Sc "sc" "Hash<ConstantLength> over a caller-side field",
    Sp "sp" "permute over a caller-side field",
    Pc "pc" "Hash<ConstantLength> over Pallas",
    Pp "pp" "permute over Pallas",
    Gt "gt" "parameter getter",
    Bs "bs" "hash_block_size",
    Bad "bad" "refused call",
    Ob "ob" "obtain handle",
    Cp "cp" "clone handle",
    Dr "dr" "drop handle",
    Up "up" "permute through shared handle",
    Uh "uh" "hash with clone of shared handle",
    Mv "mv" "hash with moved handle",
    Db "db" "debug-format handle",
}
impl K {
    pub fn txt(self) -> &'static str {
        KINDS[self as usize].1
    }
    pub fn name(self) -> &'static str {
        KINDS[self as usize].2
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub a: Vec<u64>,
    pub hook: Option<(u64, Action)>,
    pub fault: Option<OpFault>,
    /// made while the thread ends, from the destructor of a thread-local of the caller's that is older (1)
    /// or younger (2) than any of the library's own
    pub exit: u8,
}

impl Op {
    pub fn new(k: K, a: Vec<u64>) -> Op {
        Op { k, a, hook: None, fault: None, exit: 0 }
    }
    pub fn to_text(&self) -> String {
        let mut s = self.k.txt().to_string();
        for x in &self.a {
            s.push_str(&format!(" {x}"));
        }
        if let Some((n, a)) = self.hook {
            s.push_str(&format!(
                " ! {} {n}",
                match a {
                    Action::Panic => "panic",
                    Action::Reenter => "reenter",
                    Action::Yield => "yield",
                    Action::None => "none",
                }
            ));
        }
        if let Some(f) = self.fault {
            let (k, t) = match f.kind {
                FaultKind::Stall(t) => ("stall", t),
                FaultKind::Abandon => ("abandon", 0),
            };
            let (w, n) = match f.at {
                At::Step(n) => ("step", n),
                At::Hot(n) => ("hot", n),
            };
            s.push_str(&format!(" @ {k} {t} {w} {n}"));
        }
        if self.exit > 0 {
            s.push_str(&format!(" % {}", self.exit));
        }
        s
    }
    pub fn from_words(w: &[&str]) -> Option<Op> {
        let k = KINDS.iter().find(|x| x.1 == w[0])?.0;
        let mut op = Op::new(k, vec![]);
        let mut i = 1;
        while i < w.len() {
            match w[i] {
                "!" => {
                    let a = match w[i + 1] {
                        "panic" => Action::Panic,
                        "reenter" => Action::Reenter,
                        "yield" => Action::Yield,
                        _ => Action::None,
                    };
                    op.hook = Some((w[i + 2].parse().ok()?, a));
                    i += 3;
                }
                "@" => {
                    let t: u64 = w[i + 2].parse().ok()?;
                    let n: u64 = w[i + 4].parse().ok()?;
                    op.fault = Some(OpFault {
                        kind: if w[i + 1] == "stall" { FaultKind::Stall(t) } else { FaultKind::Abandon },
                        at: if w[i + 3] == "step" { At::Step(n) } else { At::Hot(n) },
                    });
                    i += 5;
                }
                "%" => {
                    op.exit = w[i + 1].parse().ok()?;
                    i += 2;
                }
                x => {
                    op.a.push(x.parse().ok()?);
                    i += 1;
                }
            }
        }
        Some(op)
    }
    /// number of permutations the operation needs, roughly
    pub fn blocks(&self) -> u64 {
        match self.k {
            K::Hl => self.a[0] / 2 + 1,
            K::Hm | K::Vl | K::Cl | K::Ci | K::Wd | K::Sm | K::Sc | K::Pc => self.a.len() as u64 / 2 + 2,
            _ => 2,
        }
    }
}

pub fn cap_of(flag: u64, hi: u64, lo: u64) -> Option<u128> {
    (flag != 0).then_some((hi as u128) << 64 | lo as u128)
}

pub enum Out {
    None,
    F(Vec<Fr>),
    P(Vec<Fp>),
    Seen(u64, basework::Seen),
    N(usize),
}

pub const SLOTS: usize = 6;
pub struct World {
    pub slots: Vec<std::cell::UnsafeCell<Option<basework::Slot>>>,
    /// parameters as first seen through each entry point
    pub seen: std::cell::UnsafeCell<std::collections::BTreeMap<u64, [u64; 3]>>,
}
// touched only between scheduling points
unsafe impl Sync for World {}
impl World {
    pub fn new() -> World {
        World {
            slots: (0..SLOTS).map(|_| std::cell::UnsafeCell::new(None)).collect(),
            seen: Default::default(),
        }
    }
}

fn vals(a: &[u64]) -> Vec<Fr> {
    a.iter().map(|&x| val(x)).collect()
}
fn svals(a: &[u64]) -> Vec<SimFr> {
    a.iter().map(|&x| SimFr(val(x))).collect()
}
pub fn pval(x: u64) -> Fp {
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(val(x).to_repr().as_ref());
    if x % 3 == 1 {
        b[32] = x as u8;
    }
    Fp::from_uniform_bytes(&b)
}
fn pvals(a: &[u64]) -> Vec<Fp> {
    a.iter().map(|&x| pval(x)).collect()
}
pub fn long_words(n: u64, seed: u64) -> Vec<Fr> {
    // cheap distinct words; zero runs at both ends for some seeds
    let base = val(seed);
    let mut x = base;
    (0..n)
        .map(|i| {
            x = x * base + Fr::from(i + 1);
            if seed % 5 == 0 && i + 3 > n {
                Fr::ZERO
            } else {
                x
            }
        })
        .collect()
}

/// everything that needs no library code, prepared before the operation starts
pub struct Prep {
    f: Vec<Fr>,
    s: Vec<SimFr>,
    p: Vec<Fp>,
}
pub fn prepare(op: &Op) -> Prep {
    let a = &op.a;
    let mut r = Prep { f: vec![], s: vec![], p: vec![] };
    match op.k {
        K::H2 | K::Hd | K::Cl | K::Ci => r.f = vals(a),
        K::Hm => r.f = vals(&a[3..]),
        K::Hl => r.f = long_words(a[0], a[1]),
        K::Vl => r.f = vals(&a[2..]),
        K::Pf | K::Ps | K::Up => r.f = vals(&a[1..]),
        K::Wd => r.f = vals(&a[2..]),
        K::S2 | K::Sc | K::Sp => r.s = svals(a),
        K::Sm => r.s = svals(&a[3..]),
        K::Pc => r.p = pvals(a),
        K::Pp => r.p = pvals(&a[1..]),
        K::Uh | K::Mv => r.f = vals(&a[3..]),
        K::Bad => r.f = vec![val(a[1]); 3 + (a[1] % 7) as usize],
        _ => {}
    }
    r
}

fn a3<F: Copy>(v: &[F]) -> [F; 3] {
    [v[0], v[1], v[2]]
}

fn slot(w: &World, i: u64) -> &mut Option<basework::Slot> {
    unsafe { &mut *w.slots[i as usize % SLOTS].get() }
}

/// the shape of the handle used, remembered for the expectation
pub type Shape = Option<u64>;

pub fn exec(op: &Op, p: &Prep, w: &World, shape: &mut Shape) -> Out {
    use basework as b;
    let a = &op.a;
    match op.k {
        K::H2 => Out::F(vec![b::hash2(p.f[0], p.f[1])]),
        K::Hd => Out::F(vec![b::hash_dom(p.f[0], p.f[1], p.f[2])]),
        K::Hm => Out::F(vec![b::hash_msg(&p.f, cap_of(a[0], a[1], a[2]))]),
        K::Hl => Out::F(vec![b::hash_msg(&p.f, cap_of(a[2], a[3], a[4]))]),
        K::Cl => Out::F(vec![b::const_len(&p.f)]),
        K::Ci => Out::F(vec![b::const_iden3(&p.f[1..], p.f[0])]),
        K::Vl => Out::F(vec![b::var_len(&p.f, (a[0] as u128) << 64 | a[1] as u128)]),
        K::Pf => {
            let mut s = a3(&p.f);
            b::perm_fresh(&mut s, a[0]);
            Out::F(s.to_vec())
        }
        K::Ps => {
            let mut s = a3(&p.f);
            b::perm_spec(&mut s, a[0]);
            Out::F(s.to_vec())
        }
        K::Wd => Out::F(vec![b::wide(a[0], &p.f[1..], a[1] != 0, p.f[0])]),
        K::S2 => Out::F(vec![b::sim_hash2(p.s[0], p.s[1], p.s[2]).0]),
        K::Sm => Out::F(vec![b::sim_msg(&p.s, cap_of(a[0], a[1], a[2])).0]),
        K::Sc => Out::F(vec![b::sim_const(&p.s).0]),
        K::Sp => {
            let mut s = a3(&p.s);
            b::sim_perm(&mut s);
            Out::F(s.iter().map(|x| x.0).collect())
        }
        K::Pc => Out::P(vec![b::pasta_const(&p.p)]),
        K::Pp => {
            let mut s = a3(&p.p);
            b::pasta_perm(&mut s, a[0]);
            Out::P(s.to_vec())
        }
        K::Gt => Out::Seen(a[0] % b::GETTERS, b::get(a[0])),
        K::Bs => Out::N(b::block_size()),
        K::Bad => {
            b::bad(a[0], &p.f);
            Out::None
        }
        K::Ob => {
            let h = b::Handle::obtain(a[1]);
            *slot(w, a[0]) = Some(b::Slot(std::sync::Arc::new(h)));
            Out::None
        }
        K::Cp => {
            if let Some(h) = slot(w, a[0]).clone() {
                let c = (*h.0).clone();
                drop(h);
                *slot(w, a[1]) = Some(b::Slot(std::sync::Arc::new(c)));
            }
            Out::None
        }
        K::Dr => {
            let h = slot(w, a[0]).take();
            drop(h);
            Out::None
        }
        K::Up => {
            let Some(h) = slot(w, a[0]).clone() else { return Out::None };
            let mut s = a3(&p.f);
            h.0.permute(&mut s);
            Out::F(s.to_vec())
        }
        K::Uh | K::Mv => {
            let h = if op.k == K::Uh { slot(w, a[0]).clone() } else { slot(w, a[0]).take() };
            let Some(h) = h else { return Out::None };
            *shape = Some(h.0.shape());
            let v = match std::sync::Arc::try_unwrap(h.0) {
                Ok(v) => v,
                Err(r) => (*r).clone(),
            };
            Out::F(vec![v.hash(&p.f[1..], p.f[0], (a[1] as u128) << 64 | a[2] as u128)])
        }
        K::Db => {
            let Some(h) = slot(w, a[0]).clone() else { return Out::None };
            Out::N(h.0.debug().len())
        }
    }
}

pub fn fp_params() -> &'static Params<Fp> {
    static P: OnceLock<Params<Fp>> = OnceLock::new();
    P.get_or_init(|| Params::new(3, 8, 56, 0))
}
pub fn wide_params(t: usize) -> &'static Params<Fr> {
    static P: OnceLock<Vec<Params<Fr>>> = OnceLock::new();
    &P.get_or_init(|| (2..=5).map(|t| Params::new(t, basework::W_RF, basework::w_rp(t), 0)).collect())[t - 2]
}
pub fn warm_reference() {
    fr::params();
    fp_params();
    wide_params(2);
}

const DOMAIN_STEP: u128 = 1 << 64;

fn perm3(v: &[Fr]) -> Vec<Fr> {
    let mut s = v[..3].to_vec();
    fr::params().permute(&mut s);
    s
}

/// What the specification assigns to the operation; None: any outcome.
pub fn expect(op: &Op, shape: Shape) -> Option<Out> {
    let a = &op.a;
    let f = |x: Fr| Some(Out::F(vec![x]));
    match op.k {
        K::H2 => f(fr::hash2([val(a[0]), val(a[1])], Fr::ZERO)),
        K::Hd => f(fr::hash2([val(a[0]), val(a[1])], val(a[2]))),
        K::S2 => f(fr::hash2([val(a[0]), val(a[1])], val(a[2]))),
        K::Hm | K::Sm => {
            let w = vals(&a[3..]);
            f(fr::msg(&w, cap_of(a[0], a[1], a[2]).unwrap_or(w.len() as u128 * DOMAIN_STEP)))
        }
        K::Hl => {
            let w = long_words(a[0], a[1]);
            f(fr::msg(&w, cap_of(a[2], a[3], a[4]).unwrap_or(w.len() as u128 * DOMAIN_STEP)))
        }
        K::Cl | K::Sc => f(fr::const_len(&vals(a))),
        K::Ci => f(fr::const_len_iden3(&vals(&a[1..]), val(a[0]))),
        K::Vl => f(fr::msg(&vals(&a[2..]), (a[0] as u128) << 64 | a[1] as u128)),
        K::Pf | K::Ps | K::Up => Some(Out::F(perm3(&vals(&a[1..])))),
        K::Sp => Some(Out::F(perm3(&vals(a)))),
        K::Wd => {
            let (t, r) = basework::wide_dims(a[0]);
            let w = vals(&a[3..]);
            let p = wide_params(t);
            // the constant-length domains pad with zeroes to a multiple of the rate
            if a[1] != 0 {
                f(p.sponge(r, t - r, val(a[2]), &w))
            } else {
                f(p.sponge(r, 0, Fr::from_u128((w.len() as u128) << 64), &w))
            }
        }
        K::Pc => {
            let w = pvals(a);
            Some(Out::P(vec![fp_params().sponge(2, 0, Fp::from_u128((w.len() as u128) << 64), &w)]))
        }
        K::Pp => {
            let mut s = pvals(&a[1..]);
            s.truncate(3);
            fp_params().permute(&mut s);
            Some(Out::P(s))
        }
        K::Uh | K::Mv => {
            let w = vals(&a[3..]);
            match shape? {
                0 => f(fr::hash2([w[1], w[2]], w[0])),
                1 => f(fr::msg(&w[1..], (a[1] as u128) << 64 | a[2] as u128)),
                3 => f(fr::const_len(&w[1..4])),
                _ => f(fr::const_len(&w[1..5])),
            }
        }
        K::Bs => Some(Out::N(9)),
        _ => None,
    }
}

fn hash3(v: &[[Fr; 3]]) -> u64 {
    let mut h = 7u64;
    for r in v {
        for x in r {
            for b in x.to_repr().as_ref().chunks(8) {
                h = simrt::rng::mix(h ^ u64::from_le_bytes(b.try_into().unwrap()));
            }
        }
    }
    h
}

/// Judge a parameter set seen through an entry point.
pub fn judge_seen(which: u64, s: &basework::Seen, w: &World) -> Result<(), String> {
    let p = if which % basework::GETTERS == 12 { wide_params(3) } else { fr::params() };
    let who = format!("entry point {which}");
    let key = [
        s.rc.as_ref().map_or(0, |v| hash3(v)),
        s.mds.as_ref().map_or(0, |v| hash3(v)),
        s.inv.as_ref().map_or(0, |v| hash3(v)),
    ];
    let seen = unsafe { &mut *w.seen.get() };
    if let Some(old) = seen.get(&which) {
        if *old != key {
            return Err(format!("{who}: two observers saw different parameters"));
        }
        return Ok(()); // judged before
    }
    seen.insert(which, key);
    if let Some(m) = &s.mds {
        for i in 0..3 {
            for j in 0..3 {
                if m[i][j] != p.mds[i][j] {
                    return Err(format!("{who}: MDS entry ({i},{j}) is {:?}, the specification gives {:?}", m[i][j], p.mds[i][j]));
                }
            }
        }
    }
    if let Some(v) = &s.inv {
        for i in 0..3 {
            for j in 0..3 {
                let x: Fr = (0..3).map(|k| p.mds[i][k] * v[k][j]).sum();
                if x != Fr::from((i == j) as u64) {
                    return Err(format!("{who}: the inverse MDS matrix is wrong at ({i},{j})"));
                }
            }
        }
    }
    if let Some(rc) = &s.rc {
        if rc.len() < 65 {
            return Err(format!("{who}: {} rows of round constants instead of 65", rc.len()));
        }
        let rows: Vec<Vec<Fr>> = rc.iter().map(|r| r.to_vec()).collect();
        for k in 0..2u64 {
            let s0 = vec![val(k), val(k + 17), val(k + 300)];
            let mut x = s0.clone();
            permute_with(&rows, &p.mds, 8, 57, &mut x);
            if x != perm3(&s0) {
                return Err(format!("{who}: the round constants do not give the Poseidon permutation"));
            }
        }
    }
    Ok(())
}

pub fn log_out(o: &Out) {
    match o {
        Out::F(v) => {
            for x in v {
                simrt::log(u64::from_le_bytes(x.to_repr().as_ref()[..8].try_into().unwrap()));
            }
        }
        Out::P(v) => {
            for x in v {
                simrt::log(u64::from_le_bytes(x.to_repr().as_ref()[..8].try_into().unwrap()));
            }
        }
        Out::N(n) => simrt::log(*n as u64),
        Out::Seen(w, _) => simrt::log(*w),
        Out::None => simrt::log(3),
    }
}

pub fn differ(got: &Out, want: &Out) -> Option<String> {
    match (got, want) {
        (Out::F(a), Out::F(b)) if a != b => Some(format!("returned {a:?}, the specification gives {b:?}")),
        (Out::P(a), Out::P(b)) if a != b => Some(format!("returned {a:?}, the specification gives {b:?}")),
        (Out::N(a), Out::N(b)) if a != b => Some(format!("returned {a}, expected {b}")),
        _ => None,
    }
}
