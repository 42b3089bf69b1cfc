use ff::{Field, FromUniformBytes, PrimeField};
use halo2_proofs::circuit::{Cell, Layouter, SimLayouter, Value};
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Error, Fixed};
use halo2curves::bn256::Fr;
use halo2curves::pasta::Fp;
use pc::hash::{Hashable, MessageHashable, PoseidonHashTable, SpongeChip, SpongeConfig};
use pc::poseidon::{Hash, PaddedWord, PermuteChip, PoseidonInstructions, Pow5Chip, Pow5Config, SeptidonChip, Sponge};
use poseidon_base::primitives::{ConstantLength, P128Pow5T3, Spec};

// ---------------------------------------------------------------- hash table

pub type Table = PoseidonHashTable<Fr>;

pub fn fixed<'d>(t: &mut Table, src: impl IntoIterator<Item = &'d ([Fr; 2], Fr, Option<Fr>)>) {
    t.fixed_inputs(src)
}
pub fn stream<'d>(t: &mut Table, src: impl IntoIterator<Item = &'d [Fr; 2]>, ctrl: u64, step: usize) {
    t.stream_inputs(src, ctrl, step)
}
pub fn stream_check<'d>(t: &mut Table, src: impl IntoIterator<Item = &'d [Fr; 2]>, check: Option<Fr>, ctrl: u64, step: usize) {
    t.stream_inputs_with_check(src, check, ctrl, step)
}
pub fn bulk<'d>(t: &mut Table, src: impl IntoIterator<Item = &'d [Fr; 2]>) {
    t.constant_inputs(src)
}
pub fn bulk_check<'d>(t: &mut Table, src: impl IntoIterator<Item = &'d (Fr, Fr, Fr)>) {
    t.constant_inputs_with_check(src)
}
pub fn sizes(t: &Table) -> (usize, usize) {
    (t.table_size(), t.minimum_row_require())
}
/// the hash library outside of the circuit
pub fn lib_two(x: [Fr; 2], dom: Fr) -> Fr {
    <Fr as Hashable>::hash_with_domain(x, dom)
}
pub fn lib_msg(w: &[Fr], cap: u128) -> Fr {
    <Fr as MessageHashable>::hash_msg(w, Some(cap))
}
pub fn block_size() -> usize {
    <Fr as Hashable>::hash_block_size()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ChipKind {
    Septidon,
    Pow5,
}
type P5 = Pow5Chip<Fr, 3, 2>;
#[derive(Clone)]
enum Cfg {
    S(SpongeConfig<Fr, SeptidonChip>),
    P(SpongeConfig<Fr, P5>),
}

/// A configured hash circuit.
#[derive(Clone)]
pub struct Hc {
    pub cs: ConstraintSystem<Fr>,
    pub q_enable: Column<Fixed>,
    pub exposed: [Column<Advice>; 6],
    pub step: usize,
    cfg: Cfg,
}

pub const STEPS: [usize; 6] = [1, 2, 3, 31, 32, 62];

/// `shared`: other advice columns the caller already had; `early`: the exposed columns come first
pub fn configure(chip: ChipKind, step: usize, shared: usize) -> Hc {
    let mut cs = ConstraintSystem::<Fr>::default();
    for _ in 0..shared {
        cs.advice_column();
        cs.fixed_column();
    }
    let exposed = [0; 6].map(|_| cs.advice_column());
    let q_enable = cs.fixed_column();
    let cfg = match chip {
        ChipKind::Septidon => Cfg::S(SpongeConfig::configure_sub(&mut cs, (q_enable, exposed), step)),
        ChipKind::Pow5 => Cfg::P(SpongeConfig::configure_sub(&mut cs, (q_enable, exposed), step)),
    };
    Hc { cs, q_enable, exposed, step, cfg }
}

impl Hc {
    /// what the configuration itself says about its exposed columns
    pub fn reported(&self) -> ([usize; 6], [Column<Advice>; 6]) {
        match &self.cfg {
            Cfg::S(c) => (c.commitment_index(), c.hash_tbl_cols()),
            Cfg::P(c) => (c.commitment_index(), c.hash_tbl_cols()),
        }
    }
}

/// A chip over a table, loaded as often as `with` asks for.
pub fn loader(hc: &Hc, t: &Table, calcs: usize, with: &mut dyn FnMut(&(dyn Fn(&mut SimLayouter<Fr>) -> Result<(), Error> + Sync))) {
    fn go<PC: PermuteChip<Fr, <Fr as Hashable>::SpecType, 3, 2>, const STEP: usize>(
        cfg: &SpongeConfig<Fr, PC>,
        t: &Table,
        calcs: usize,
        with: &mut dyn FnMut(&(dyn Fn(&mut SimLayouter<Fr>) -> Result<(), Error> + Sync)),
    ) where
        PC::Config: Sync,
    {
        let chip = SpongeChip::<Fr, STEP, PC>::construct(cfg.clone(), t, calcs);
        with(&|l| chip.load(l))
    }
    macro_rules! pick {
        ($($n:literal),*) => {
            match (&hc.cfg, hc.step) {
                $((Cfg::S(c), $n) => go::<SeptidonChip, $n>(c, t, calcs, with),
                  (Cfg::P(c), $n) => go::<P5, $n>(c, t, calcs, with),)*
                _ => panic!("no such step"),
            }
        };
    }
    pick!(1, 2, 3, 31, 32, 62)
}

// ---------------------------------------------------------------- gadgets

/// A caller's own specification: any width, x^5, generated constants.
#[derive(Clone, Copy, Debug)]
pub struct WSpec;
pub const W_RF: usize = 8;
pub fn w_rp(t: usize) -> usize {
    [0, 0, 4, 9, 3, 6][t]
}
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize> Spec<F, T, RATE> for WSpec {
    fn full_rounds() -> usize {
        W_RF
    }
    fn partial_rounds() -> usize {
        w_rp(T)
    }
    fn sbox(v: F) -> F {
        let s = v.square();
        s.square() * v
    }
    fn secure_mds() -> usize {
        0
    }
}

/// Where a gadget's inputs and outputs ended up.
pub type Io = Vec<(Vec<Cell>, Vec<Cell>)>;

pub fn pow5_configure<F: FromUniformBytes<64> + Ord, S: Spec<F, W, R>, const W: usize, const R: usize>(cs: &mut ConstraintSystem<F>) -> (Pow5Config<F, W, R>, Column<Advice>) {
    let io = cs.advice_column();
    cs.enable_equality(io);
    let state = [0; W].map(|_| cs.advice_column());
    let sbox = cs.advice_column();
    let rc_a = [0; W].map(|_| cs.fixed_column());
    let rc_b = [0; W].map(|_| cs.fixed_column());
    cs.enable_constant(rc_b[0]);
    (Pow5Chip::configure::<S>(cs, state, sbox, rc_a, rc_b), io)
}
pub fn septidon_configure(cs: &mut ConstraintSystem<Fr>) -> (SeptidonChip, Column<Advice>) {
    let io = cs.advice_column();
    cs.enable_equality(io);
    let c = <SeptidonChip as PermuteChip<Fr, <Fr as Hashable>::SpecType, 3, 2>>::configure(cs);
    (c, io)
}

fn inputs<F: PrimeField>(l: &mut SimLayouter<F>, io: Column<Advice>, w: &[F]) -> Result<Vec<halo2_proofs::circuit::AssignedCell<F, F>>, Error> {
    l.assign_region(
        || "inputs",
        |mut r| {
            w.iter().enumerate().map(|(i, v)| r.assign_advice(|| "input", io, i, || Value::known(*v))).collect()
        },
    )
}

pub fn permute_gadget<F, S, PC, const W: usize, const R: usize>(chip: &PC, io: Column<Advice>, states: &[[F; W]], batch: bool, l: &mut SimLayouter<F>) -> Result<Io, Error>
where
    F: FromUniformBytes<64> + Ord,
    S: Spec<F, W, R>,
    PC: PoseidonInstructions<F, S, W, R>,
{
    let mut words: Vec<[PC::Word; W]> = vec![];
    let mut out: Io = vec![];
    for s in states {
        let cells = inputs(l, io, s)?;
        out.push((cells.iter().map(|c| c.cell()).collect(), vec![]));
        words.push(cells.into_iter().map(PC::Word::from).collect::<Vec<_>>().try_into().map_err(|_| Error::Synthesis)?);
    }
    let finals = if batch {
        chip.permute_batch(l, &words)?
    } else {
        let mut v = vec![];
        for w in &words {
            v.push(chip.permute(l, w)?);
        }
        v
    };
    if finals.len() != states.len() {
        return Ok(vec![]);
    }
    for (o, f) in out.iter_mut().zip(finals) {
        o.1 = f
            .into_iter()
            .map(|w| {
                let a: halo2_proofs::circuit::AssignedCell<F, F> = w.into();
                a.cell()
            })
            .collect();
    }
    Ok(out)
}

fn hash_one<F: FromUniformBytes<64> + Ord, S: Spec<F, W, R>, const W: usize, const R: usize, const L: usize>(cfg: &Pow5Config<F, W, R>, io: Column<Advice>, w: &[F], l: &mut SimLayouter<F>) -> Result<(Vec<Cell>, Vec<Cell>), Error> {
    let cells = inputs(l, io, w)?;
    let ins = cells.iter().map(|c| c.cell()).collect();
    let h = Hash::<F, Pow5Chip<F, W, R>, S, ConstantLength<L>, W, R>::init(Pow5Chip::construct(cfg.clone()), l.namespace(|| "init"))?;
    let msg: [_; L] = cells.try_into().map_err(|_| Error::Synthesis)?;
    let out = h.hash(l.namespace(|| "hash"), msg)?;
    Ok((ins, vec![out.cell()]))
}
/// the constant-length hash gadget, used several times in one circuit
pub fn hash_gadget<F: FromUniformBytes<64> + Ord, S: Spec<F, W, R>, const W: usize, const R: usize>(cfg: &Pow5Config<F, W, R>, io: Column<Advice>, ws: &[Vec<F>], l: &mut SimLayouter<F>) -> Result<Io, Error> {
    ws.iter()
        .map(|w| match w.len() {
            1 => hash_one::<F, S, W, R, 1>(cfg, io, w, l),
            2 => hash_one::<F, S, W, R, 2>(cfg, io, w, l),
            3 => hash_one::<F, S, W, R, 3>(cfg, io, w, l),
            4 => hash_one::<F, S, W, R, 4>(cfg, io, w, l),
            5 => hash_one::<F, S, W, R, 5>(cfg, io, w, l),
            6 => hash_one::<F, S, W, R, 6>(cfg, io, w, l),
            7 => hash_one::<F, S, W, R, 7>(cfg, io, w, l),
            10 => hash_one::<F, S, W, R, 10>(cfg, io, w, l),
            _ => panic!("no such length"),
        })
        .collect()
}
/// the sponge gadget itself: whole blocks absorbed, word i as padding if bit i of `pads` is set, `squeeze` words squeezed
pub fn sponge_gadget<F: FromUniformBytes<64> + Ord, S: Spec<F, W, R>, const W: usize, const R: usize>(cfg: &Pow5Config<F, W, R>, io: Column<Advice>, w: &[F], pads: u64, squeeze: usize, l: &mut SimLayouter<F>) -> Result<Io, Error> {
    let pad = |i: usize| pads >> i & 1 == 1;
    let words: Vec<F> = w.iter().enumerate().filter(|(i, _)| !pad(*i)).map(|(_, x)| *x).collect();
    let cells = inputs(l, io, &words)?;
    let ins = cells.iter().map(|c| c.cell()).collect();
    let mut cells = cells.into_iter();
    let mut s = Sponge::<F, Pow5Chip<F, W, R>, S, _, ConstantLength<4>, W, R>::new(Pow5Chip::construct(cfg.clone()), l.namespace(|| "init"))?;
    for (i, x) in w.iter().enumerate() {
        let word = if pad(i) { PaddedWord::Padding(*x) } else { PaddedWord::Message(cells.next().unwrap()) };
        s.absorb(l.namespace(|| "absorb"), word)?;
    }
    let mut s = s.finish_absorbing(l.namespace(|| "finish"))?;
    let mut out = vec![];
    for _ in 0..squeeze {
        out.push(s.squeeze(l.namespace(|| "squeeze"))?.cell());
    }
    Ok(vec![(ins, out)])
}

/// One gadget instance of any kind, configured.
pub enum Gadget {
    Septidon(SeptidonChip, Column<Advice>, ConstraintSystem<Fr>),
    Pow5(Pow5Config<Fr, 3, 2>, Column<Advice>, ConstraintSystem<Fr>),
    W2(Pow5Config<Fr, 2, 1>, Column<Advice>, ConstraintSystem<Fr>),
    W4(Pow5Config<Fr, 4, 3>, Column<Advice>, ConstraintSystem<Fr>),
    W5(Pow5Config<Fr, 5, 4>, Column<Advice>, ConstraintSystem<Fr>),
}
pub fn gadget(kind: u64) -> Gadget {
    let mut cs = ConstraintSystem::default();
    match kind {
        0 => {
            let (c, io) = septidon_configure(&mut cs);
            Gadget::Septidon(c, io, cs)
        }
        1 => {
            let (c, io) = pow5_configure::<Fr, <Fr as Hashable>::SpecType, 3, 2>(&mut cs);
            Gadget::Pow5(c, io, cs)
        }
        2 => {
            let (c, io) = pow5_configure::<Fr, WSpec, 2, 1>(&mut cs);
            Gadget::W2(c, io, cs)
        }
        3 => {
            let (c, io) = pow5_configure::<Fr, WSpec, 4, 3>(&mut cs);
            Gadget::W4(c, io, cs)
        }
        _ => {
            let (c, io) = pow5_configure::<Fr, WSpec, 5, 4>(&mut cs);
            Gadget::W5(c, io, cs)
        }
    }
}
impl Gadget {
    pub fn cs(&self) -> &ConstraintSystem<Fr> {
        match self {
            Gadget::Septidon(_, _, cs) | Gadget::Pow5(_, _, cs) | Gadget::W2(_, _, cs) | Gadget::W4(_, _, cs) | Gadget::W5(_, _, cs) => cs,
        }
    }
    pub fn width(&self) -> usize {
        match self {
            Gadget::Septidon(..) | Gadget::Pow5(..) => 3,
            Gadget::W2(..) => 2,
            Gadget::W4(..) => 4,
            Gadget::W5(..) => 5,
        }
    }
    pub fn permute(&self, states: &[Vec<Fr>], batch: bool, l: &mut SimLayouter<Fr>) -> Result<Io, Error> {
        fn arr<const W: usize>(s: &[Vec<Fr>]) -> Vec<[Fr; W]> {
            s.iter().map(|v| std::array::from_fn(|i| v[i])).collect()
        }
        type HS = <Fr as Hashable>::SpecType;
        match self {
            Gadget::Septidon(c, io, _) => permute_gadget::<Fr, HS, _, 3, 2>(c, *io, &arr(states), batch, l),
            Gadget::Pow5(c, io, _) => permute_gadget::<Fr, HS, _, 3, 2>(&Pow5Chip::construct(c.clone()), *io, &arr(states), batch, l),
            Gadget::W2(c, io, _) => permute_gadget::<Fr, WSpec, _, 2, 1>(&Pow5Chip::construct(c.clone()), *io, &arr(states), batch, l),
            Gadget::W4(c, io, _) => permute_gadget::<Fr, WSpec, _, 4, 3>(&Pow5Chip::construct(c.clone()), *io, &arr(states), batch, l),
            Gadget::W5(c, io, _) => permute_gadget::<Fr, WSpec, _, 5, 4>(&Pow5Chip::construct(c.clone()), *io, &arr(states), batch, l),
        }
    }
    pub fn hash(&self, w: &[Vec<Fr>], l: &mut SimLayouter<Fr>) -> Result<Io, Error> {
        match self {
            Gadget::Pow5(c, io, _) => hash_gadget::<Fr, <Fr as Hashable>::SpecType, 3, 2>(c, *io, w, l),
            Gadget::W2(c, io, _) => hash_gadget::<Fr, WSpec, 2, 1>(c, *io, w, l),
            Gadget::W4(c, io, _) => hash_gadget::<Fr, WSpec, 4, 3>(c, *io, w, l),
            Gadget::W5(c, io, _) => hash_gadget::<Fr, WSpec, 5, 4>(c, *io, w, l),
            _ => panic!("no hash gadget"),
        }
    }
    pub fn sponge(&self, w: &[Fr], pads: u64, squeeze: usize, l: &mut SimLayouter<Fr>) -> Result<Io, Error> {
        match self {
            Gadget::Pow5(c, io, _) => sponge_gadget::<Fr, <Fr as Hashable>::SpecType, 3, 2>(c, *io, w, pads, squeeze, l),
            Gadget::W2(c, io, _) => sponge_gadget::<Fr, WSpec, 2, 1>(c, *io, w, pads, squeeze, l),
            Gadget::W4(c, io, _) => sponge_gadget::<Fr, WSpec, 4, 3>(c, *io, w, pads, squeeze, l),
            Gadget::W5(c, io, _) => sponge_gadget::<Fr, WSpec, 5, 4>(c, *io, w, pads, squeeze, l),
            _ => panic!("no sponge gadget"),
        }
    }
}

/// the same chip over the Pallas base field (an even number of partial rounds)
pub struct FpGadget {
    cfg: Pow5Config<Fp, 3, 2>,
    io: Column<Advice>,
    pub cs: ConstraintSystem<Fp>,
}
pub fn fp_gadget() -> FpGadget {
    let mut cs = ConstraintSystem::default();
    let (cfg, io) = pow5_configure::<Fp, P128Pow5T3<Fp>, 3, 2>(&mut cs);
    FpGadget { cfg, io, cs }
}
impl FpGadget {
    pub fn permute(&self, states: &[[Fp; 3]], batch: bool, l: &mut SimLayouter<Fp>) -> Result<Io, Error> {
        permute_gadget::<Fp, P128Pow5T3<Fp>, _, 3, 2>(&Pow5Chip::construct(self.cfg.clone()), self.io, states, batch, l)
    }
    pub fn hash(&self, w: &[Vec<Fp>], l: &mut SimLayouter<Fp>) -> Result<Io, Error> {
        hash_gadget::<Fp, P128Pow5T3<Fp>, 3, 2>(&self.cfg, self.io, w, l)
    }
    pub fn sponge(&self, w: &[Fp], pads: u64, squeeze: usize, l: &mut SimLayouter<Fp>) -> Result<Io, Error> {
        sponge_gadget::<Fp, P128Pow5T3<Fp>, 3, 2>(&self.cfg, self.io, w, pads, squeeze, l)
    }
}
