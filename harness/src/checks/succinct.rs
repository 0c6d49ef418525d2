//! C31: verification is succinct, proving is quasi-linear. Work is counted as operations of a field that counts them.

use crate::fw::*;
use crate::inst::*;
use crate::meter::cost;
use crate::proto::*;
use crate::refmath::*;
use ff::*;
use std::sync::atomic::{AtomicU64, Ordering};

type Inner = crate::fields::Goldilocks;
type InnerRepr = crate::fields::goldilocks::FeRepr;

static OPS: AtomicU64 = AtomicU64::new(0);

fn tick(n: u64) {
    OPS.fetch_add(n, Ordering::Relaxed);
}

/// The Goldilocks field, counting what is asked of it, by whatever thread.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Counted(Inner);

impl std::fmt::Debug for Counted {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::fmt::Display for Counted {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl rand::Rand for Counted {
    fn rand<R: rand::Rng>(rng: &mut R) -> Self {
        Counted(Inner::rand(rng))
    }
}
impl Field for Counted {
    fn zero() -> Self {
        Counted(Inner::zero())
    }
    fn one() -> Self {
        Counted(Inner::one())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    fn square(&mut self) {
        tick(1);
        self.0.square()
    }
    fn double(&mut self) {
        tick(1);
        self.0.double()
    }
    fn negate(&mut self) {
        tick(1);
        self.0.negate()
    }
    fn add_assign(&mut self, o: &Self) {
        tick(1);
        self.0.add_assign(&o.0)
    }
    fn sub_assign(&mut self, o: &Self) {
        tick(1);
        self.0.sub_assign(&o.0)
    }
    fn mul_assign(&mut self, o: &Self) {
        tick(1);
        self.0.mul_assign(&o.0)
    }
    fn inverse(&self) -> Option<Self> {
        tick(64);
        self.0.inverse().map(Counted)
    }
    fn frobenius_map(&mut self, power: usize) {
        self.0.frobenius_map(power)
    }
}
impl From<Counted> for InnerRepr {
    fn from(e: Counted) -> InnerRepr {
        e.0.into_repr()
    }
}
impl PrimeField for Counted {
    type Repr = InnerRepr;
    fn from_repr(r: InnerRepr) -> Result<Self, PrimeFieldDecodingError> {
        tick(1);
        Inner::from_repr(r).map(Counted)
    }
    fn from_raw_repr(r: InnerRepr) -> Result<Self, PrimeFieldDecodingError> {
        Inner::from_raw_repr(r).map(Counted)
    }
    fn into_repr(&self) -> InnerRepr {
        tick(1);
        self.0.into_repr()
    }
    fn into_raw_repr(&self) -> InnerRepr {
        self.0.into_raw_repr()
    }
    fn char() -> InnerRepr {
        Inner::char()
    }
    const NUM_BITS: u32 = Inner::NUM_BITS;
    const CAPACITY: u32 = Inner::CAPACITY;
    const S: u32 = Inner::S;
    fn multiplicative_generator() -> Self {
        Counted(Inner::multiplicative_generator())
    }
    fn root_of_unity() -> Self {
        Counted(Inner::root_of_unity())
    }
}

type C = Counted;

/// Every register is a product of powers of cells of the rows before, plus a constant.
#[derive(Clone, Debug)]
struct Rule {
    k: C,
    // register, row in the window, power
    factors: Vec<(usize, usize, u64)>,
    constant: C,
    span: usize,
    start_at: usize,
}

/// The same rules for traces of any length.
#[derive(Clone, Debug)]
struct Family {
    rules: Vec<Rule>,
    start: Vec<Vec<C>>,
    missing: usize,
    bounds: usize,
}

fn family(r: &mut Rng) -> Family {
    let regs = r.range(1, 3);
    let rules: Vec<Rule> = (0..regs)
        .map(|_| {
            let span = if r.chance(1, 2) { 1 } else { r.range(1, 4) };
            let factors = (0..r.range(1, 2)).map(|_| (r.below(regs), r.below(span), r.range(1, 3) as u64)).collect();
            Rule { k: rf_nonzero(r), factors, constant: rf(r), span, start_at: if r.chance(1, 2) { 0 } else { r.below(4) } }
        })
        .collect();
    Family { start: (0..regs).map(|_| rvec(r, 8)).collect(), rules, missing: if r.chance(1, 3) { 0 } else { r.below(4) }, bounds: r.range(1, 4) }
}

fn member(f: &Family, log: usize) -> Inst<C> {
    let rows = (1 << log) - f.missing;
    let regs = f.rules.len();
    let mut w: Vec<Vec<C>> = vec![vec![]; regs];
    for r in 0..rows {
        for (g, u) in f.rules.iter().enumerate() {
            let x = if r < u.span + u.start_at {
                f.start[g][r]
            } else {
                let p = u.factors.iter().fold(u.k, |p, (reg, step, power)| mul(p, pow(w[*reg][r - u.span + step], *power)));
                add(p, u.constant)
            };
            w[g].push(x);
        }
    }
    let cons = f
        .rules
        .iter()
        .enumerate()
        .map(|(g, u)| {
            let fac = |reg, step, power| Factor { coeff: C::one(), reg, step, power };
            let product = if u.factors.len() == 1 {
                let (reg, step, power) = u.factors[0];
                let mut x = fac(reg, step, power);
                x.coeff = neg(u.k);
                Term::Uni(x)
            } else {
                Term::Poly(neg(u.k), u.factors.iter().map(|(a, b, p)| fac(*a, *b, *p)).collect())
            };
            Con { constant: neg(u.constant), terms: vec![Term::Uni(fac(g, u.span, 1)), product], start: u.start_at, span: u.span, style: 7 }
        })
        .collect();
    let places = [0, rows - 1, rows / 2, rows / 3];
    let bounds = (0..regs).flat_map(|g| places[..f.bounds].iter().map(|r| (g, *r, w[g][*r])).collect::<Vec<_>>()).collect();
    Inst { rows, regs, cons, bounds, witness: w }
}

fn counted<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let before = OPS.load(Ordering::Relaxed);
    let (r, bytes, _) = cost(f);
    (r, OPS.load(Ordering::Relaxed) - before, bytes)
}

struct Seen {
    log: u64,
    ops: u64,
    bytes: u64,
    size: u64,
    prover_ops: u64,
    prover_bytes: u64,
}

fn growth(c: &mut Case) -> Result<(), String> {
    let f = family(&mut c.rng);
    let lde = *c.rng.pick(&[2usize, 4, 8]);
    let out = *c.rng.pick(&[1usize, 1, 2, 4]);
    let top = if c.thorough { 14 } else { 12 };
    c.desc(format!("{:?} lde {} out {}", f, lde, out));
    c.sig(&format!("{:?} {} {}", f, lde, out));
    let mut seen: Vec<Seen> = vec![];
    for log in 4..=top {
        let i = member(&f, log);
        let cfg = Cfg { cpus: 1, lde, out };
        let (proof, prover_ops, prover_bytes) = counted(|| prove::<C, B2s<C>>(&i, &i.witness, &cfg));
        let proof = match proof {
            Ok(p) => p,
            // a point that falls into the domain, which is the business of others
            Err(_) => return Ok(c.trivial()),
        };
        let (v, ops, bytes) = counted(|| verify(&i, &cfg, &proof));
        if v != Verdict::Accept || !i.satisfied(&i.witness) {
            return Ok(c.trivial());
        }
        let size = proof_bytes(&proof).len() as u64;
        // paths of all openings, two per layer of the two FRI proofs
        let n = (log + log2(lde) + log2(i.max_degree().next_power_of_two() as usize)) as u64;
        let regs = i.regs as u64;
        let openings = regs + 1 + 4 * n;
        let bound = 48 * ((regs + 1) * n + 2 * n * n + 2 * n) + 64 * openings + 512 + 64 * out as u64;
        if size > bound {
            return Err(format!("a proof for 2^{} rows has {} bytes, more than {}", log, size, bound));
        }
        seen.push(Seen { log: log as u64, ops, bytes, size, prover_ops, prover_bytes });
        c.count("proofs measured", 1);
        c.count("field operations of verifiers", ops);
        c.count("field operations of provers", prover_ops);
    }
    let base = &seen[0];
    for s in &seen {
        let more = s.log - base.log;
        if 2 * s.ops > 3 * base.ops + 400 * more {
            return Err(format!("verifying 2^{} rows takes {} operations, and 2^{} rows {}", s.log, s.ops, base.log, base.ops));
        }
        if 2 * s.bytes > 3 * base.bytes + 2048 * more {
            return Err(format!("verifying 2^{} rows takes {} bytes, and 2^{} rows {}", s.log, s.bytes, base.log, base.bytes));
        }
    }
    c.count("verifiers compared over lengths", seen.len() as u64);
    // quasi-linear from where constants do not matter
    let mid = &seen[4];
    let per = |s: &Seen| (s.prover_ops as f64 / ((s.log << s.log) as f64), s.prover_bytes as f64 / ((1u64 << s.log) as f64));
    for s in &seen[5..] {
        let ((a, b), (x, y)) = (per(s), per(mid));
        if a > 1.3 * x {
            return Err(format!("proving 2^{} rows takes {} operations, and 2^{} rows {}", s.log, s.prover_ops, mid.log, mid.prover_ops));
        }
        if b > 1.3 * y {
            return Err(format!("proving 2^{} rows takes {} bytes, and 2^{} rows {}", s.log, s.prover_bytes, mid.log, mid.prover_bytes));
        }
    }
    c.count("provers compared over lengths", seen.len() as u64 - 5);
    if seen.last().map_or(0, |s| s.size) < base.size {
        return Err("proofs shrink".to_string());
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    for k in ["proofs measured", "verifiers compared over lengths", "provers compared over lengths"] {
        ctx.require(k);
    }
    let n = ctx.n(48, 600);
    ctx.section("growth", n, growth);
}
