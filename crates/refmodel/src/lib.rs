//! The reference model: Poseidon written from the specification (Grain LFSR, Cauchy matrix, round
//! structure, sponge), sharing no code with the library under test. Only the field arithmetic is
//! taken from halo2curves.
use halo2curves::ff::{FromUniformBytes, PrimeField};

pub mod vals;

pub struct Params<F> {
    pub t: usize,
    pub rf: usize,
    pub rp: usize,
    pub rc: Vec<Vec<F>>,
    pub mds: Vec<Vec<F>>,
}

struct Lfsr(Vec<u8>);

impl Lfsr {
    fn step(&mut self) -> u8 {
        let s = &self.0;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.0.remove(0);
        self.0.push(b);
        b
    }
    /// the next bit that survives self-shrinking
    fn bit(&mut self) -> u8 {
        loop {
            let a = self.step();
            let b = self.step();
            if a == 1 {
                return b;
            }
        }
    }
    fn bits_be(&mut self, n: usize) -> Vec<u8> {
        // big-endian bit string to little-endian bytes
        let mut out = vec![0u8; 64];
        for i in 0..n {
            let pos = n - 1 - i;
            out[pos / 8] |= self.bit() << (pos % 8);
        }
        out
    }
}

impl<F: PrimeField + FromUniformBytes<64> + Ord> Params<F> {
    pub fn new(t: usize, rf: usize, rp: usize, skip: usize) -> Self {
        let n = F::NUM_BITS as usize;
        let mut bits: Vec<u8> = vec![];
        let mut put = |v: usize, len: usize| {
            for i in (0..len).rev() {
                bits.push(((v >> i) & 1) as u8);
            }
        };
        put(1, 2); // prime field
        put(0, 4); // power S-box
        put(n, 12);
        put(t, 12);
        put(rf, 10);
        put(rp, 10);
        for _ in 0..30 {
            bits.push(1);
        }
        let mut l = Lfsr(bits);
        for _ in 0..160 {
            l.step();
        }
        let mut rc = vec![];
        for _ in 0..rf + rp {
            let mut row = vec![];
            while row.len() < t {
                let by = l.bits_be(n);
                let mut repr = F::Repr::default();
                let m = repr.as_mut().len();
                repr.as_mut().copy_from_slice(&by[..m]);
                let f = F::from_repr(repr);
                if bool::from(f.is_some()) {
                    row.push(f.unwrap());
                }
            }
            rc.push(row);
        }
        let mut left = skip;
        let mds = loop {
            let v: Vec<F> = (0..2 * t)
                .map(|_| {
                    let by = l.bits_be(n);
                    let mut a = [0u8; 64];
                    a.copy_from_slice(&by);
                    F::from_uniform_bytes(&a)
                })
                .collect();
            let distinct = (0..v.len()).all(|i| (0..i).all(|j| v[i] != v[j]));
            if !distinct {
                continue;
            }
            if left > 0 {
                left -= 1;
                continue;
            }
            break (0..t)
                .map(|i| (0..t).map(|j| (v[i] + v[t + j]).invert().unwrap()).collect::<Vec<F>>())
                .collect::<Vec<_>>();
        };
        Params { t, rf, rp, rc, mds }
    }

    pub fn permute(&self, s: &mut [F]) {
        permute_with(&self.rc, &self.mds, self.rf, self.rp, s)
    }

    /// Sponge with `rate` words at offset `layout`, capacity word at (rate + layout) mod t.
    pub fn sponge(&self, rate: usize, layout: usize, cap: F, words: &[F]) -> F {
        let mut s = vec![F::ZERO; self.t];
        s[(rate + layout) % self.t] = cap;
        if words.is_empty() {
            self.permute(&mut s);
        }
        for block in words.chunks(rate) {
            for (i, w) in block.iter().enumerate() {
                s[layout + i] += w;
            }
            self.permute(&mut s);
        }
        s[0]
    }
}

fn pow5<F: PrimeField>(x: F) -> F {
    let y = x * x;
    y * y * x
}

/// The permutation for given constants (rows of full width, one per round).
pub fn permute_with<F: PrimeField>(rc: &[Vec<F>], mds: &[Vec<F>], rf: usize, rp: usize, s: &mut [F]) {
    let t = s.len();
    for r in 0..rf + rp {
        for i in 0..t {
            s[i] += rc[r][i];
        }
        if r < rf / 2 || r >= rf / 2 + rp {
            for x in s.iter_mut() {
                *x = pow5(*x);
            }
        } else {
            s[0] = pow5(s[0]);
        }
        let old = s.to_vec();
        for i in 0..t {
            s[i] = F::ZERO;
            for j in 0..t {
                s[i] += mds[i][j] * old[j];
            }
        }
    }
}

pub mod fr {
    //! the BN254 instance used by the library
    use super::*;
    use halo2curves::bn256::Fr;
    use std::sync::OnceLock;

    pub fn params() -> &'static Params<Fr> {
        static P: OnceLock<Params<Fr>> = OnceLock::new();
        P.get_or_init(|| Params::new(3, 8, 57, 0))
    }
    /// two-to-one hash with a domain
    pub fn hash2(x: [Fr; 2], domain: Fr) -> Fr {
        params().sponge(2, 1, domain, &x)
    }
    /// message hash with a capacity
    pub fn msg(words: &[Fr], cap: u128) -> Fr {
        params().sponge(2, 1, Fr::from_u128(cap), words)
    }
    /// constant-length hash, words at the left, 2^64 * length as capacity
    pub fn const_len(words: &[Fr]) -> Fr {
        params().sponge(2, 0, Fr::from_u128((words.len() as u128) << 64), words)
    }
    /// constant-length hash in iden3's layout
    pub fn const_len_iden3(words: &[Fr], domain: Fr) -> Fr {
        params().sponge(2, 1, domain, words)
    }
}

/// published test vectors: the model itself is checked against them before it judges anything
pub fn self_check() -> Result<(), String> {
    use halo2curves::bn256::Fr;
    let d = fr::hash2([Fr::from(1), Fr::from(2)], Fr::from(0));
    let want = "0x115cc0f5e7d690413df64c6b9662e9cf2a3617f2743245519e19607a4417189a";
    if format!("{d:?}") != want {
        return Err(format!("reference model: H(1,2) = {d:?}, published {want}"));
    }
    Ok(())
}
