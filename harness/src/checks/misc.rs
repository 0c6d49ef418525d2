//! C27 hash functions, C28 tensor decompositions, C29 printed constraints.

use crate::fields::*;
use crate::fw::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::air::*;
use hodor::utils::{Hasher, Keccak256Hasher, Sha256Hasher};
use hodor::verif_hooks::tensor;

// ------------------------------------------------------------------ references (FIPS 180-4, and Keccak with its original padding)

fn fraction_of_root(p: u64, cube: bool) -> u32 {
    // the first 32 bits of the fractional part of the square or cube root of p: floor(p^(1/k) * 2^32) mod 2^32
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        // compares m^k with p * 2^(32 k)
        let less = if cube {
            // m^3 may need 120 bits, p * 2^96 needs 105
            m * m * m <= (p as u128) << 96
        } else {
            m * m <= (p as u128) << 64
        };
        if less {
            lo = m
        } else {
            hi = m
        }
    }
    lo as u32
}

pub fn sha256(data: &[u8]) -> Vec<u8> {
    let primes: Vec<u64> = (2u64..312).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
    let k: Vec<u32> = primes.iter().map(|p| fraction_of_root(*p, true)).collect();
    let mut h: Vec<u32> = primes.iter().take(8).map(|p| fraction_of_root(*p, false)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend_from_slice(&(8 * data.len() as u64).to_be_bytes());
    for block in m.chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])).collect();
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w.push(w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for t in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(t2);
        }
        for (a, b) in h.iter_mut().zip(v.iter()) {
            *a = a.wrapping_add(*b);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}

pub fn keccak256(data: &[u8]) -> Vec<u8> {
    let rate = 136;
    let mut m = data.to_vec();
    m.push(1);
    while m.len() % rate != 0 {
        m.push(0)
    }
    let last = m.len() - 1;
    m[last] |= 0x80;
    let mut a = [[0u64; 5]; 5]; // a[x][y]
    let mut bits: u16 = 1; // the generator of round constants, an LFSR
    let mut constants = vec![];
    for _ in 0..24 {
        let mut rc = 0u64;
        for j in 0..7 {
            if bits & 1 == 1 {
                rc |= 1 << ((1u32 << j) - 1);
            }
            bits <<= 1;
            if bits & 0x100 != 0 {
                bits ^= 0x171;
            }
        }
        constants.push(rc);
    }
    for block in m.chunks(rate) {
        for (i, lane) in block.chunks(8).enumerate() {
            let mut b = [0u8; 8];
            b.copy_from_slice(lane);
            a[i % 5][i / 5] ^= u64::from_le_bytes(b);
        }
        for rc in constants.iter() {
            let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |s, y| s ^ a[x][y])).collect();
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] ^= c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                }
            }
            let mut b = [[0u64; 5]; 5];
            let (mut x, mut y) = (1, 0);
            b[0][0] = a[0][0];
            for t in 0..24u32 {
                let r = ((t + 1) * (t + 2) / 2) % 64;
                b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(r);
                let z = (2 * x + 3 * y) % 5;
                x = y;
                y = z;
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
                }
            }
            a[0][0] ^= rc;
        }
    }
    (0..4).flat_map(|i| a[i % 5][i / 5].to_le_bytes().to_vec()).collect()
}

/// The published digests of the empty string and of "abc", so that the references cannot both be wrong.
fn references() -> Result<(), String> {
    for (got, want) in [
        (sha256(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
        (sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        (keccak256(b""), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"),
        (keccak256(b"abc"), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"),
    ] {
        let got: String = got.iter().map(|b| format!("{:02x}", b)).collect();
        assert_eq!(got, want, "the harness's own hash functions are wrong");
    }
    Ok(())
}

fn size(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 0,
        1 => r.range(1, 4),
        // around the blocks of either function
        2 => *r.pick(&[55usize, 56, 63, 64, 65, 119, 120, 127, 128, 135, 136, 137, 271, 272]),
        3 => r.range(1, 64),
        4 => r.range(1, 300),
        _ => r.range(1, 1500),
    }
}

/// Several hashers at once, fed, copied and finalised in a random order, each against all the bytes that went into it.
fn hashing<H: Hasher>(c: &mut Case, name: &str, reference: fn(&[u8]) -> Vec<u8>) -> Result<(), String> {
    references()?;
    let r = &mut c.rng;
    let n = size(r);
    let p = r.bytes(n);
    let mut all: Vec<(H, Vec<u8>)> = vec![(H::new(&p), p)];
    let mut log = String::new();
    let ops = r.range(2, 14);
    let (mut digests, mut copies, mut again) = (0, 0, 0);
    for op in 0..=ops {
        let k = c.rng.below(all.len());
        match if op == ops { 9 } else { c.rng.below(10) } {
            0..=5 => {
                let n = size(&mut c.rng);
                let d = c.rng.bytes(n);
                log += &format!(" {}+{}", k, n);
                all[k].0.update(&d);
                all[k].1.extend_from_slice(&d);
            }
            6 => {
                let copy = (all[k].0.clone(), all[k].1.clone());
                log += &format!(" copy {}", k);
                all.push(copy);
                copies += 1;
            }
            7 => {
                let n = size(&mut c.rng);
                let p = c.rng.bytes(n);
                log += &format!(" new {}", n);
                all.push((H::new(&p), p));
            }
            _ => {
                log += &format!(" {}=", k);
                let got = all[k].0.finalize();
                if got != reference(&all[k].1) {
                    return Err(format!("{}: the digest of {} bytes is {} ({})", name, all[k].1.len(), hex(&got), log));
                }
                if all[k].1.is_empty() {
                    again += 1;
                }
                // and starts anew, with nothing absorbed
                all[k].1.clear();
                digests += 1;
            }
        }
    }
    c.desc(format!("{} {}", name, log));
    c.sig(&log);
    c.count("digests compared", digests);
    c.count("copies", copies);
    c.count("digests of nothing", again);
    Ok(())
}

pub fn run_hashers(ctx: &mut Ctx) {
    for k in ["digests compared", "copies", "digests of nothing"] {
        ctx.require(k);
    }
    let n = ctx.n(4000, 60000);
    ctx.section("sha256", n, |c| hashing::<Sha256Hasher>(c, "SHA-256", sha256));
    ctx.section("keccak256", n, |c| hashing::<Keccak256Hasher>(c, "Keccak-256", keccak256));
}

// ------------------------------------------------------------------ tensors

fn kronecker<F: PrimeField>(a: &[F], (ar, ac): (usize, usize), b: &[F], (br, bc): (usize, usize)) -> Vec<Vec<F>> {
    (0..ar * br).map(|i| (0..ac * bc).map(|j| mul(b[(i / ar) * bc + j / ac], a[(i % ar) * ac + j % ac])).collect()).collect()
}

fn distinct<F: PrimeField>(r: &mut Rng, n: usize) -> Vec<F> {
    (0..n).map(|_| if r.chance(1, 8) { rf_edge(r) } else { rf_nonzero(r) }).collect()
}

fn matrices<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let dim = (r.range(1, 6), r.range(1, 6));
    let n = r.range(1, 6);
    let a: Vec<F> = distinct(r, dim.0 * dim.1);
    let d: Vec<F> = distinct(r, n);
    c.desc(format!("{} {}x{} over a diagonal of {}", name, dim.0, dim.1, n));
    let diagonal: Vec<F> = (0..n * n).map(|k| if k / n == k % n { d[k / n] } else { F::zero() }).collect();
    let unit: Vec<F> = (0..n * n).map(|k| if k / n == k % n { F::one() } else { F::zero() }).collect();
    let want_diagonal = kronecker(&a, dim, &diagonal, (n, n));
    let want_unit = kronecker(&a, dim, &unit, (n, n));
    let sub = (a, dim);
    let diag = (d, n);
    for i in 0..dim.0 * n {
        for j in 0..dim.1 * n {
            let got = observe(|| tensor::matrix_over_identity(&sub, (i, j))).map_err(|m| format!("over the identity, at ({}, {}): panic: {}", i, j, m))?;
            if got != want_unit[i][j] {
                return Err(format!("over the identity, the element at ({}, {}) is {} and not {}", i, j, show(&got), show(&want_unit[i][j])));
            }
            let got = observe(|| tensor::matrix_over_diagonal(&sub, &diag, (i, j))).map_err(|m| format!("over a diagonal, at ({}, {}): panic: {}", i, j, m))?;
            if got != want_diagonal[i][j] {
                return Err(format!("over a diagonal, the element at ({}, {}) is {} and not {}", i, j, show(&got), show(&want_diagonal[i][j])));
            }
            c.count("elements of matrices", 2);
        }
    }
    Ok(())
}

fn vectors<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let (n, m) = (r.range(1, 20), r.range(1, 20));
    let a: Vec<F> = distinct(r, n);
    let b: Vec<F> = distinct(r, m);
    c.desc(format!("{} {} over {}", name, n, m));
    let want: Vec<F> = b.iter().flat_map(|y| a.iter().map(|x| mul(*x, *y)).collect::<Vec<_>>()).collect();
    let (a, b) = ((a, n), (b, m));
    for k in 0..n * m {
        let got = observe(|| tensor::vector_over_vector(&a, &b, k)).map_err(|e| format!("at {}: panic: {}", k, e))?;
        if got != want[k] {
            return Err(format!("the element at {} is {} and not {}", k, show(&got), show(&want[k])));
        }
        c.count("elements of vectors", 1);
    }
    for k in [n * m, n * m + 1, n * m + n, usize::max_value()] {
        if let Ok(x) = observe(|| tensor::vector_over_vector(&a, &b, k)) {
            return Err(format!("the element at {} of {} is {}", k, n * m, show(&x)));
        }
        c.count("positions outside refused", 1);
    }
    Ok(())
}

fn generators<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let most = (F::S as usize).min(12);
    let log_l = r.range(0, 4.min(most - 1));
    let log_n = r.range(1, most - log_l);
    let log_1 = r.range(0, log_n);
    let (l, n, n_1, n_2) = (1usize << log_l, 1usize << log_n, 1usize << log_1, 1usize << (log_n - log_1));
    c.desc(format!("{} {} = {} x {}, rate {}", name, n, n_1, n_2, l));
    // any generators will do, not only the canonical ones
    let odd = 2 * c.rng.below(1 << 10) as u64 + 1;
    let v: F = pow(root::<F>(l * n), odd);
    let omega = pow(v, l as u64);
    let ((v_1, w_1, l_1), (v_2, w_2, l_2)) = observe(|| tensor::decompose_generator(l, n, (n_1, n_2), &omega, &v)).map_err(|m| format!("panic: {}", m))?;
    let want = ((v, pow(omega, n_2 as u64), l), (omega, pow(omega, n_1 as u64), n_1));
    if ((v_1, w_1, l_1), (v_2, w_2, l_2)) != want {
        return Err(format!("decomposed into ({}, {}, {}) and ({}, {}, {})", show(&v_1), show(&w_1), l_1, show(&v_2), show(&w_2), l_2));
    }
    c.count("generators decomposed", 1);
    for (a, b) in [(n_1 * 2, n_2), (n_1, n_2 * 2), (n, n)] {
        if a * b != n {
            if observe(|| tensor::decompose_generator(l, n, (a, b), &omega, &v)).is_ok() {
                return Err(format!("{} x {} passes for {}", a, b, n));
            }
            c.count("wrong factors refused", 1);
        }
    }
    Ok(())
}

pub fn run_tensors(ctx: &mut Ctx) {
    for k in ["elements of matrices", "elements of vectors", "positions outside refused", "generators decomposed", "wrong factors refused"] {
        ctx.require(k);
    }
    let n = ctx.n(1800, 18000);
    ctx.section("matrices", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, matrices, c, f)
    });
    ctx.section("vectors", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, vectors, c, f)
    });
    ctx.section("generators", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, generators, c, f)
    });
}

// ------------------------------------------------------------------ printed constraints

const ROWS: usize = 9;

/// Reads a printed formula: a sum of products of numbers and powers of registers.
struct Reader<'a, F: PrimeField> {
    s: &'a [u8],
    at: usize,
    cells: &'a [Vec<F>],
    seen: usize,
}

impl<'a, F: PrimeField> Reader<'a, F> {
    fn peek(&mut self) -> u8 {
        while self.at < self.s.len() && self.s[self.at] == b' ' {
            self.at += 1;
        }
        self.s.get(self.at).cloned().unwrap_or(0)
    }
    fn eat(&mut self, what: &str) -> Result<(), String> {
        self.peek();
        if self.s[self.at..].starts_with(what.as_bytes()) {
            self.at += what.len();
            Ok(())
        } else {
            Err(format!("no {:?} at character {}", what, self.at))
        }
    }
    fn number(&mut self) -> Result<u64, String> {
        self.peek();
        let from = self.at;
        while self.at < self.s.len() && self.s[self.at].is_ascii_digit() {
            self.at += 1;
        }
        std::str::from_utf8(&self.s[from..self.at]).unwrap().parse().map_err(|_| format!("no number at character {}", from))
    }
    fn factor(&mut self) -> Result<F, String> {
        if self.peek() == b'(' {
            self.eat("(R_")?;
            let r = self.number()? as usize;
            self.eat("(t+")?;
            let t = self.number()? as usize;
            self.eat("))^")?;
            let e = self.number()?;
            self.seen += 1;
            let x = self.cells.get(r).and_then(|c| c.get(t)).ok_or(format!("no cell ({}, {})", r, t))?;
            return Ok(pow(*x, e));
        }
        // an element, as the field prints it: Name(0x...)
        while self.at < self.s.len() && (self.s[self.at].is_ascii_alphanumeric() || self.s[self.at] == b'_') {
            self.at += 1;
        }
        self.eat("(0x")?;
        let from = self.at;
        while self.at < self.s.len() && self.s[self.at].is_ascii_hexdigit() {
            self.at += 1;
        }
        let digits = &self.s[from..self.at];
        self.eat(")")?;
        let mut x = F::zero();
        let sixteen = int::<F>(16);
        for d in digits {
            x = add(mul(x, sixteen), int::<F>((*d as char).to_digit(16).unwrap() as u64));
        }
        Ok(x)
    }
    fn product(&mut self) -> Result<F, String> {
        let mut p = self.factor()?;
        while self.peek() == b'*' {
            self.at += 1;
            p = mul(p, self.factor()?);
        }
        Ok(p)
    }
    fn sum(&mut self) -> Result<F, String> {
        let mut s = F::zero();
        let mut first = true;
        loop {
            match self.peek() {
                b'+' => {
                    self.at += 1;
                    s = add(s, self.product()?);
                }
                b'-' => {
                    self.at += 1;
                    s = sub(s, self.product()?);
                }
                b';' | 0 if !first => return Ok(s),
                _ if first => s = self.product()?,
                x => return Err(format!("unexpected {:?} at character {}", x as char, self.at)),
            }
            first = false;
        }
    }
}

fn printed_factor<F: PrimeField>(r: &mut Rng) -> UnivariateTerm<F> {
    UnivariateTerm {
        coeff: coefficient(r),
        register: Register::Register(r.below(12)),
        steps_difference: StepDifference::Steps(r.below(ROWS)),
        power: match r.below(4) {
            0 => 1,
            1 => r.range(2, 12) as u64,
            2 => r.below(3) as u64,
            _ => r.u64() >> r.below(60),
        },
    }
}

fn coefficient<F: PrimeField>(r: &mut Rng) -> F {
    match r.below(6) {
        0 | 1 => F::one(),
        2 => neg(F::one()),
        3 => F::zero(),
        4 => int::<F>(r.range(2, 20) as u64),
        _ => rf(r),
    }
}

fn value<F: PrimeField>(t: &UnivariateTerm<F>, cells: &[Vec<F>]) -> F {
    let (r, s) = match (t.register, t.steps_difference) {
        (Register::Register(r), StepDifference::Steps(s)) => (r, s),
        _ => unreachable!(),
    };
    mul(t.coeff, pow(cells[r][s], t.power))
}

fn printed<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let mut con = Constraint::<F>::default();
    con.constant_term = coefficient(r);
    con.degree = r.u64() >> r.below(64);
    for _ in 0..r.below(5) {
        con.terms.push(if r.chance(1, 2) {
            ConstraintTerm::Univariate(printed_factor(r))
        } else {
            let n = r.range(1, 4);
            ConstraintTerm::Polyvariate(PolyvariateTerm { coeff: coefficient(r), terms: (0..n).map(|_| printed_factor(r)).collect(), total_degree: 0 })
        });
    }
    let text = observe(|| format!("{}", con)).map_err(|m| format!("printing panics: {}", m))?;
    c.desc(format!("{} {}", name, text.replace('\n', " | ").chars().take(400).collect::<String>()));
    c.sig(&text);
    let mut lines = text.lines();
    let head = lines.next().unwrap_or("");
    if head.split_whitespace().last() != Some(&con.degree.to_string()[..]) {
        return Err(format!("a constraint of degree {} is headed {:?}", con.degree, head));
    }
    let formula: String = lines.collect::<Vec<_>>().join(" ");
    let body = formula.trim().strip_prefix("0 = ").ok_or(format!("not an equation: {}", formula))?.to_string();
    if !body.trim_end().ends_with(';') {
        return Err(format!("the formula does not end: {}", formula));
    }
    for _ in 0..3 {
        let cells: Vec<Vec<F>> = (0..12).map(|_| (0..ROWS).map(|_| rf(&mut c.rng)).collect()).collect();
        let want = con.terms.iter().fold(con.constant_term, |s, t| match t {
            ConstraintTerm::Univariate(u) => add(s, value(u, &cells)),
            ConstraintTerm::Polyvariate(p) => add(s, p.terms.iter().fold(p.coeff, |x, u| mul(x, value(u, &cells)))),
        });
        let mut rd = Reader { s: body.as_bytes(), at: 0, cells: &cells, seen: 0 };
        let got = rd.sum().map_err(|m| format!("{}: {}", m, body))?;
        if rd.peek() != b';' || rd.at + 1 != body.trim_end().len() {
            return Err(format!("something follows the formula: {}", body));
        }
        if got != want {
            return Err(format!("reads as another polynomial than the one printed: {} for {:?}", body, con.terms));
        }
        let factors = rd.seen as u64;
        c.count("formulas read back", 1);
        c.count("powers of registers read", factors);
    }
    // the pieces on their own
    for t in &con.terms {
        let cells: Vec<Vec<F>> = (0..12).map(|_| (0..ROWS).map(|_| rf(&mut c.rng)).collect()).collect();
        let (text, want) = match t {
            ConstraintTerm::Univariate(u) => (format!("{}", u), value(u, &cells)),
            ConstraintTerm::Polyvariate(p) => (format!("{}", t), p.terms.iter().fold(p.coeff, |x, u| mul(x, value(u, &cells)))),
        };
        let mut rd = Reader { s: text.as_bytes(), at: 0, cells: &cells, seen: 0 };
        if rd.sum().map_err(|m| format!("{}: {}", m, text))? != want {
            return Err(format!("reads as another term than the one printed: {} for {:?}", text, t));
        }
        c.count("terms read back", 1);
    }
    Ok(())
}

pub fn run_printed(ctx: &mut Ctx) {
    for k in ["formulas read back", "powers of registers read", "terms read back"] {
        ctx.require(k);
    }
    let n = ctx.n(9000, 180000);
    ctx.section("formulas", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, printed, c, f)
    });
}
