//! Field elements named by small integers: boundary values, random values and near misses of them
//! (same low limb, same high limb, negated, ...), so that replay files stay short.
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn random(n: u64) -> Fr {
    let mut b = [0u8; 64];
    for i in 0..8 {
        b[i * 8..i * 8 + 8].copy_from_slice(&mix(n.wrapping_mul(8).wrapping_add(i as u64) ^ 0xabcd).to_le_bytes());
    }
    Fr::from_uniform_bytes(&b)
}

pub fn pow2(k: u64) -> Fr {
    Fr::from(2).pow_vartime([k])
}

pub const SPECIAL: u64 = 16;

pub fn val(id: u64) -> Fr {
    match id {
        0 => Fr::ZERO,
        1 => Fr::ONE,
        2 => -Fr::ONE,
        3 => Fr::from(2),
        4 => -Fr::from(2),
        5 => pow2(64),
        6 => pow2(64) - Fr::ONE,
        7 => pow2(128),
        8 => Fr::TWO_INV,
        9 => pow2(253),
        10 => Fr::from(1 << 63),
        11 => pow2(128) - Fr::ONE,
        12 => -pow2(64),
        13 => pow2(65),
        14 => Fr::from(255),
        15 => Fr::from(65537),
        _ => {
            let base = random(id >> 8);
            match id & 0xff {
                0 => base,
                1 => base + Fr::ONE,
                2 => base + pow2(192),
                3 => -base,
                4 => base + pow2(64),
                5 => Fr::from(mix(id >> 8)),
                6 => Fr::from(mix(id >> 8)) + pow2(64) * Fr::from(mix(id) | 1),
                7 => base + pow2(128),
                8 => Fr::from(mix(id >> 8) & 0xffff),
                9 => base.double(),
                k => base + Fr::from(k) * pow2(k),
            }
        }
    }
}
