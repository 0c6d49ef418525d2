//! Slow and simple reference implementations: the oracles.

use crate::fw::Rng;
use ff::{Field, PrimeField};

pub fn add<F: Field>(a: F, b: F) -> F {
    let mut r = a;
    r.add_assign(&b);
    r
}
pub fn sub<F: Field>(a: F, b: F) -> F {
    let mut r = a;
    r.sub_assign(&b);
    r
}
pub fn mul<F: Field>(a: F, b: F) -> F {
    let mut r = a;
    r.mul_assign(&b);
    r
}
pub fn neg<F: Field>(a: F) -> F {
    let mut r = a;
    r.negate();
    r
}
pub fn inv<F: Field>(a: F) -> F {
    a.inverse().expect("reference inverse of a non-zero element")
}
/// Square and multiply from the lowest bit, independently of the crate's `pow`.
pub fn pow<F: Field>(a: F, mut e: u64) -> F {
    let mut r = F::one();
    let mut b = a;
    while e > 0 {
        if e & 1 == 1 {
            r.mul_assign(&b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    r
}
pub fn int<F: PrimeField>(n: u64) -> F {
    let mut r = F::zero();
    let mut b = F::one();
    let mut n = n;
    while n > 0 {
        if n & 1 == 1 {
            r.add_assign(&b);
        }
        b.double();
        n >>= 1;
    }
    r
}
pub fn rf<F: PrimeField>(rng: &mut Rng) -> F {
    let bits = F::NUM_BITS as usize;
    loop {
        let mut l: Vec<u64> = (0..(bits + 63) / 64 + 1).map(|_| rng.u64()).collect();
        for bit in bits..l.len() * 64 {
            l[bit / 64] &= !(1u64 << (bit % 64));
        }
        if let Some(x) = from_limbs(&l) {
            return x;
        }
    }
}
pub fn rf_nonzero<F: PrimeField>(rng: &mut Rng) -> F {
    loop {
        let x: F = rf(rng);
        if !x.is_zero() {
            return x;
        }
    }
}
/// Random elements, with the special ones more often than chance would have them.
pub fn rf_edge<F: PrimeField>(rng: &mut Rng) -> F {
    match rng.below(8) {
        0 => F::zero(),
        1 => F::one(),
        2 => neg(F::one()),
        3 => int(rng.below(5) as u64),
        _ => rf(rng),
    }
}
pub fn rvec<F: PrimeField>(rng: &mut Rng, n: usize) -> Vec<F> {
    (0..n).map(|_| rf(rng)).collect()
}

pub fn horner<F: Field>(c: &[F], x: F) -> F {
    let mut r = F::zero();
    for v in c.iter().rev() {
        r = add(mul(r, x), *v);
    }
    r
}

pub fn poly_mul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j].add_assign(&mul(*x, *y));
        }
    }
    r
}

/// Primitive root of unity of order `n` (a power of two), checked for its order.
pub fn root<F: PrimeField>(n: usize) -> F {
    let mut g = F::root_of_unity();
    let mut k = F::S;
    let mut size = n;
    let mut l = 0;
    while size > 1 {
        size /= 2;
        l += 1;
    }
    assert!(l <= k);
    while k > l {
        g.square();
        k -= 1;
    }
    if n > 1 {
        let mut h = g;
        for _ in 0..l - 1 {
            h.square();
        }
        assert!(h != F::one());
        h.square();
        assert!(h == F::one());
    } else {
        assert!(g == F::one());
    }
    g
}

/// From here on, splitting by parity stands in for Horner.
const LARGE_WORK: usize = 1 << 17;

/// Values at w^i for i in 0..n: the even coefficients at the squares, and the odd ones.
fn by_parity<F: PrimeField>(c: &[F], n: usize, w: F) -> Vec<F> {
    if c.is_empty() {
        return vec![F::zero(); n];
    }
    if c.len() == 1 {
        return vec![c[0]; n];
    }
    if n == 1 {
        return vec![c.iter().fold(F::zero(), |s, x| add(s, *x))];
    }
    let half = |k: usize| by_parity(&c.iter().skip(k).step_by(2).cloned().collect::<Vec<F>>(), n / 2, mul(w, w));
    let (e, o) = (half(0), half(1));
    let mut x = F::one();
    let mut r = Vec::with_capacity(n);
    for i in 0..n {
        r.push(add(e[i % (n / 2)], mul(x, o[i % (n / 2)])));
        x.mul_assign(&w);
    }
    r
}

/// Values at shift * w^i for i in 0..n, by Horner.
pub fn eval_domain<F: PrimeField>(c: &[F], n: usize, shift: F) -> Vec<F> {
    let w = root::<F>(n);
    if n * c.len() > LARGE_WORK {
        let mut x = F::one();
        let mut shifted = Vec::with_capacity(c.len());
        for a in c {
            shifted.push(mul(*a, x));
            x.mul_assign(&shift);
        }
        let r = by_parity(&shifted, n, w);
        for k in [0, 1, n / 3, n - 1].iter() {
            assert!(r[*k] == horner(c, mul(shift, pow(w, *k as u64))), "HARNESS: own transform");
        }
        return r;
    }
    let mut x = shift;
    let mut r = Vec::with_capacity(n);
    for _ in 0..n {
        r.push(horner(c, x));
        x.mul_assign(&w);
    }
    r
}

/// Quadratic-time inverse transform over the subgroup of order v.len().
pub fn interpolate_domain<F: PrimeField>(v: &[F]) -> Vec<F> {
    let n = v.len();
    let winv = inv(root::<F>(n));
    let ninv = inv(int::<F>(n as u64));
    if n * n > LARGE_WORK {
        let mut r = by_parity(v, n, winv);
        r.iter_mut().for_each(|x| x.mul_assign(&ninv));
        return r;
    }
    let mut r = Vec::with_capacity(n);
    let mut p = F::one();
    for _ in 0..n {
        r.push(mul(horner(v, p), ninv));
        p.mul_assign(&winv);
    }
    r
}

pub fn degree<F: Field>(c: &[F]) -> Option<usize> {
    c.iter().rposition(|x| !x.is_zero())
}

pub fn log2(n: usize) -> usize {
    assert!(n.is_power_of_two());
    n.trailing_zeros() as usize
}

pub fn show<F: PrimeField>(x: &F) -> String {
    let s = format!("{}", x.into_repr());
    let t = s.trim_start_matches("0x").trim_start_matches('0');
    format!("0x{}", if t.is_empty() { "0" } else { t })
}

pub fn to_limbs<F: PrimeField>(x: &F) -> Vec<u64> {
    x.into_repr().as_ref().to_vec()
}

pub fn from_limbs<F: PrimeField>(l: &[u64]) -> Option<F> {
    let mut r = F::Repr::default();
    for (a, b) in r.as_mut().iter_mut().zip(l.iter()) {
        *a = *b;
    }
    F::from_repr(r).ok()
}

/// What the documented encoding of a digest into a field gives: the first bytes as a big endian
/// integer, of which the CAPACITY lowest bits are kept.
pub fn digest_to_field<F: PrimeField>(d: &[u8]) -> F {
    let size = std::mem::size_of::<F::Repr>();
    assert!(size % 8 == 0 && size <= d.len());
    let mut limbs = vec![0u64; size / 8];
    for (i, b) in d[..size].iter().enumerate() {
        let pos = size - 1 - i;
        limbs[pos / 8] |= (*b as u64) << (8 * (pos % 8));
    }
    for bit in F::CAPACITY as usize..size * 8 {
        limbs[bit / 64] &= !(1u64 << (bit % 64));
    }
    from_limbs(&limbs).expect("fewer bits than the modulus has")
}

// ------------------------------------------------------------------ Blake2s (RFC 7693)

const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn compress(h: &mut [u32; 8], block: &[u8], t: u64, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last {
        v[14] = !v[14];
    }
    fn g(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(12);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(8);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(7);
    }
    for s in SIGMA.iter() {
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

/// The keyed and personalised hash that trees and transcripts of this system are built on.
pub fn system_hash(data: &[u8]) -> [u8; 32] {
    let key = b"Squeamish Ossifrage";
    let personal = b"Shaftoe";
    let mut p = [0u8; 32];
    p[0] = 32;
    p[1] = key.len() as u8;
    p[2] = 1;
    p[3] = 1;
    p[24..24 + personal.len()].copy_from_slice(personal);
    let mut h = IV;
    for i in 0..8 {
        h[i] ^= u32::from_le_bytes([p[4 * i], p[4 * i + 1], p[4 * i + 2], p[4 * i + 3]]);
    }
    let mut all = key.to_vec();
    all.resize(64, 0);
    all.extend_from_slice(data);
    let n = (all.len() + 63) / 64;
    let total = all.len();
    all.resize(n * 64, 0);
    for b in 0..n {
        let last = b == n - 1;
        let t = if last { total } else { (b + 1) * 64 };
        compress(&mut h, &all[b * 64..b * 64 + 64], t as u64, last);
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}

pub fn leaf_hash<F: PrimeField>(v: &F) -> [u8; 32] {
    let raw = v.into_raw_repr();
    let mut b = vec![];
    for l in raw.as_ref() {
        b.extend_from_slice(&l.to_le_bytes());
    }
    b.resize(32, 0);
    system_hash(&b)
}

pub fn node_hash(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    let mut b = l.to_vec();
    b.extend_from_slice(r);
    system_hash(&b)
}

/// All levels, from the leaf hashes to the root.
pub fn merkle_levels<F: PrimeField>(leafs: &[F]) -> Vec<Vec<[u8; 32]>> {
    let mut levels = vec![leafs.iter().map(leaf_hash).collect::<Vec<_>>()];
    while levels.last().unwrap().len() > 1 {
        let prev = levels.last().unwrap();
        let next = prev.chunks(2).map(|p| node_hash(&p[0], &p[1])).collect();
        levels.push(next);
    }
    levels
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
