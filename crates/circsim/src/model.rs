//! What a hash table means: the entries, the sponge trace and the rows a circuit has to show.
use ff::{Field, PrimeField};
use halo2curves::bn256::Fr;

pub const DOMAIN: u128 = 1 << 64;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Entry {
    pub inp: [Fr; 2],
    pub ctrl: u64,
    pub dom: Fr,
    pub check: Option<Fr>,
}
impl Entry {
    pub fn zero() -> Entry {
        Entry { inp: [Fr::ZERO; 2], ctrl: 0, dom: Fr::ZERO, check: None }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Row {
    pub e: Entry,
    pub head: bool,
    /// lane 0 after this row's permutation
    pub here: Fr,
    /// whether a message ends here
    pub end: bool,
    /// digest of the whole message (None: the table ends in the middle of it)
    pub digest: Option<Fr>,
}

pub fn flag(ctrl: u64) -> Fr {
    Fr::from_u128(ctrl as u128 * DOMAIN)
}

/// The rows for `entries` padded with zero entries to `calcs`.
pub fn trace(entries: &[Entry], calcs: usize, step: usize) -> Vec<Row> {
    let p = refmodel::fr::params();
    let mut rows: Vec<Row> = vec![];
    let mut state = [Fr::ZERO; 3];
    let mut head = true;
    let mut start = 0;
    for i in 0..calcs.max(entries.len()) {
        let e = entries.get(i).copied().unwrap_or(Entry::zero());
        if head {
            state = [flag(e.ctrl) + e.dom, e.inp[0], e.inp[1]];
            start = i;
        } else {
            state[1] += e.inp[0];
            state[2] += e.inp[1];
        }
        p.permute(&mut state);
        let end = e.ctrl <= step as u64;
        rows.push(Row { e, head, here: state[0], end, digest: None });
        if end {
            for r in &mut rows[start..=i] {
                r.digest = Some(state[0]);
            }
        }
        head = end;
    }
    rows
}

/// what the model says about expected digests
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Checks {
    /// all of them match the digest of their entry's message
    Match,
    /// one of them is neither its message's digest nor any intermediate state
    Mismatch,
    /// something in between (an expected digest given in the middle of a message)
    Unclear,
}
pub fn checks(rows: &[Row]) -> Checks {
    let mut unclear = false;
    for r in rows {
        if let Some(c) = r.e.check {
            let here = c == r.here;
            let fin = r.digest.map(|d| d == c);
            match (here, fin) {
                (true, Some(true)) => {}
                (false, Some(false)) | (false, None) => return Checks::Mismatch,
                _ => unclear = true,
            }
        }
    }
    if unclear {
        Checks::Unclear
    } else {
        Checks::Match
    }
}

pub fn complete(rows: &[Row]) -> bool {
    rows.iter().all(|r| r.digest.is_some())
}
