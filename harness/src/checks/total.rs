//! C05: the verifier ends, and does not accept, whatever it is given.

use crate::checks::complete::small;
use crate::checks::tamper;
use crate::fields::*;
use crate::forge::*;
use crate::fw::*;
use crate::inst::*;
use crate::meter::cost;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::fri::*;
use hodor::iop::*;
use hodor::transcript::Transcript;
use hodor::verif_hooks::{force_cpus, forge_query};

/// Far above what the verification of the proofs here needs, and far below what the sizes that
/// the proofs declare would take.
const MAX_BYTES: u64 = 64 << 20;
const MAX_CPU_US: u64 = 3_000_000;

fn judge<F: PrimeField, T: Transcript<F>>(c: &mut Case, i: &Inst<F>, cfg: &Cfg, p: &ProofOf<F, T>, original: &[u8], what: &str) -> Result<(), String> {
    let (v, bytes, us) = cost(|| verify(i, cfg, p));
    match v {
        Verdict::Panic(m) => return Err(format!("the verifier panicked: {}: {}", what, m)),
        Verdict::Accept => {
            if !small::<F>() && proof_bytes(p) != original {
                return Err(format!("accepted: {}", what));
            }
            c.count("accepted in a small field, or as it was", 1);
        }
        Verdict::Reject => c.count("rejected", 1),
        Verdict::Error(_) => c.count("errors", 1),
    }
    if bytes > MAX_BYTES {
        return Err(format!("{} bytes were allocated to verify: {}", bytes, what));
    }
    if us > MAX_CPU_US {
        return Err(format!("{} ms were spent to verify: {}", us / 1000, what));
    }
    c.count("malformed proofs judged", 1);
    Ok(())
}

fn edge(r: &mut Rng, v: usize) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => v.wrapping_add(1),
        3 => v.wrapping_sub(1),
        4 => v.wrapping_mul(2),
        5 => v / 2,
        6 => usize::max_value(),
        7 => 1 << r.below(64),
        8 => (1usize << r.below(64)).wrapping_sub(1),
        9 => r.below(40),
        10 => v ^ (1 << r.below(64)),
        _ => r.u64() as usize,
    }
}

fn digest(r: &mut Rng) -> [u8; 32] {
    let mut d = [0; 32];
    if r.chance(3, 4) {
        d.copy_from_slice(&r.bytes(32));
    } else if r.chance(1, 2) {
        d = [0xff; 32];
    }
    d
}

fn some<F: PrimeField>(r: &mut Rng) -> F {
    if r.chance(1, 2) {
        rf_edge(r)
    } else {
        rf(r)
    }
}

fn query<F: PrimeField>(r: &mut Rng, q: &Query<F>) -> Query<F> {
    let len = q.path().len();
    let mut path = q.path().to_vec();
    let mut index = q.natural_index();
    let mut value = q.value();
    for _ in 0..r.range(1, 2) {
        match r.below(4) {
            0 => index = edge(r, index),
            1 => value = some(r),
            2 => {
                let n = match r.below(6) {
                    0 => 0,
                    1 => len + 1,
                    2 => len.saturating_sub(1),
                    3 => r.below(70),
                    4 => 64 + r.below(3),
                    _ => 2000,
                };
                while path.len() < n {
                    path.push(digest(r));
                }
                path.truncate(n);
            }
            _ => {
                if !path.is_empty() {
                    let k = r.below(path.len());
                    path[k] = digest(r);
                }
            }
        }
    }
    forge_query(index, value, path)
}

/// Lengthens, shortens, empties, permutes or overwrites.
fn list<X: Clone>(r: &mut Rng, v: &mut Vec<X>, new: &dyn Fn(&mut Rng, Option<&X>) -> X) {
    match r.below(8) {
        0 => v.clear(),
        1 => {
            if !v.is_empty() {
                let k = r.below(v.len());
                v.remove(k);
            }
        }
        2 => {
            let k = r.below(v.len() + 1);
            let x = new(r, v.get(k));
            v.insert(k, x);
        }
        3 => {
            if !v.is_empty() {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
            }
        }
        4 => {
            let n = *r.pick(&[1usize, 2, 3, 5, 16, 64, 300]);
            while v.len() < n {
                let x = new(r, v.last());
                v.push(x);
            }
            v.truncate(n);
        }
        5 => {
            let w = v.clone();
            v.extend(w);
        }
        6 => v.reverse(),
        _ => {
            if !v.is_empty() {
                let k = r.below(v.len());
                v[k] = new(r, Some(&v[k]));
            }
        }
    }
}

fn any_query<F: PrimeField>(r: &mut Rng, q: Option<&Query<F>>) -> Query<F> {
    match q {
        Some(q) => query(r, q),
        None => {
            let n = r.below(8);
            forge_query(edge(r, 3), some(r), (0..n).map(|_| digest(r)).collect())
        }
    }
}

fn fri<F: PrimeField>(r: &mut Rng, f: &mut FriPr<F>) {
    match r.below(9) {
        0 => list(r, &mut f.roots, &|r, _| digest(r)),
        1 => list(r, &mut f.queries, &|r, q| any_query(r, q)),
        2 => list(r, &mut f.final_coefficients, &|r, _| some(r)),
        3 => f.initial_degree_plus_one = edge(r, f.initial_degree_plus_one),
        4 => f.output_coeffs_at_degree_plus_one = edge(r, f.output_coeffs_at_degree_plus_one),
        5 => f.lde_factor = edge(r, f.lde_factor),
        6 => {
            // sizes that go with one another, and say what they should not
            f.initial_degree_plus_one = 1 << r.below(64);
            f.lde_factor = 1 << r.below(64);
            f.output_coeffs_at_degree_plus_one = 1 << r.below(20);
            shape(r, f);
        }
        7 => {
            f.output_coeffs_at_degree_plus_one = 1 << r.below(12);
            shape(r, f);
        }
        _ => shape(r, f),
    }
}

/// As many roots, queries and coefficients as the numbers ask for, if they are few.
fn shape<F: PrimeField>(r: &mut Rng, f: &mut FriPr<F>) {
    let (d, o) = (f.initial_degree_plus_one, f.output_coeffs_at_degree_plus_one);
    if !d.is_power_of_two() || !o.is_power_of_two() || o > d || o > 1 << 12 {
        return;
    }
    let rounds = (d / o).trailing_zeros() as usize + 1;
    while f.roots.len() < rounds {
        f.roots.push(digest(r));
    }
    f.roots.truncate(rounds);
    while f.queries.len() < 2 * rounds {
        let q = any_query(r, f.queries.last());
        f.queries.push(q);
    }
    f.queries.truncate(2 * rounds);
    while f.final_coefficients.len() < o {
        f.final_coefficients.push(some(r));
    }
    f.final_coefficients.truncate(o);
}

pub fn mutate<F: PrimeField, T: Transcript<F>>(r: &mut Rng, p: &mut ProofOf<F, T>) {
    match r.below(10) {
        0 => list(r, &mut p.f_at_z_m, &|r, _| some(r)),
        1 => list(r, &mut p.f_iop_roots, &|r, _| digest(r)),
        2 => list(r, &mut p.f_queries, &|r, q| any_query(r, q)),
        3 => p.g_query = query(r, &p.g_query),
        4 => {
            list(r, &mut p.h1_iop_roots, &|r, _| digest(r));
            if r.chance(1, 2) {
                p.fri_proof_h1.roots = p.h1_iop_roots.clone();
            }
        }
        5 => {
            list(r, &mut p.h2_iop_roots, &|r, _| digest(r));
            if r.chance(1, 2) {
                p.fri_proof_h2.roots = p.h2_iop_roots.clone();
            }
        }
        6 | 7 => {
            fri(r, &mut p.fri_proof_h1);
            if r.chance(3, 4) {
                p.h1_iop_roots = p.fri_proof_h1.roots.clone();
            }
        }
        _ => {
            fri(r, &mut p.fri_proof_h2);
            if r.chance(3, 4) {
                p.h2_iop_roots = p.fri_proof_h2.roots.clone();
            }
        }
    }
}

fn base<F: PrimeField>(c: &mut Case, name: &str) -> Option<(Inst<F>, Cfg, ProofOf<F, B2s<F>>)> {
    let s = Shape { max_regs: 3, min_rows: 2, max_rows: 17, max_degree: 3, max_domain: 256, max_cons: 3 };
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(s));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    match observe(|| prove::<F, B2s<F>>(&i, &i.witness, &cfg)) {
        Ok(Ok(p)) => Some((i, cfg, p)),
        _ => {
            // not for this check to judge
            c.trivial();
            None
        }
    }
}

fn changes<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let (i, cfg, proof) = match base::<F>(c, name) {
        Some(x) => x,
        None => return Ok(()),
    };
    let original = proof_bytes(&proof);
    let mut rng = Rng::new(c.rng.u64());
    for (what, p) in tamper::changes(&proof, None, &mut rng) {
        judge(c, &i, &cfg, &p, &original, &what)?;
    }
    Ok(())
}

fn stacked<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let (i, cfg, proof) = match base::<F>(c, name) {
        Some(x) => x,
        None => return Ok(()),
    };
    let original = proof_bytes(&proof);
    for k in 0..400 {
        let mut r = Rng::new(c.rng.u64());
        let mut p: ProofOf<F, B2s<F>> = clone_proof(&proof);
        let n = if r.chance(1, 3) { 1 } else { r.range(2, 9) };
        for _ in 0..n {
            mutate(&mut r, &mut p);
        }
        judge(c, &i, &cfg, &p, &original, &format!("mutation {} of {} changes", k, n))?;
    }
    Ok(())
}

/// Nothing but FRI is wrong: under a script, all that comes before it has no reason to stop.
fn deep<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let s = Shape { max_regs: 2, min_rows: 2, max_rows: 9, max_degree: 3, max_domain: 64, max_cons: 2 };
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(s));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    let (nf, ng) = (size_h1(&i, &cfg), size_h2(&i, &cfg));
    let pairs: Vec<(F, F)> = (0..i.cons.len() + i.bounds.len()).map(|_| (rf(&mut c.rng), rf(&mut c.rng))).collect();
    let z: F = rf(&mut c.rng);
    let alphas: Vec<F> = (0..i.masks()).map(|_| rf(&mut c.rng)).collect();
    let bytes = vec![c.rng.bytes(32), c.rng.bytes(32)];
    let x1 = Index::<F>::bytes_to_challenge_index(&bytes[0], nf, cfg.lde);
    let x2 = Index::<F>::bytes_to_challenge_index(&bytes[1], ng, cfg.lde);
    let mut all: Vec<F> = pairs.iter().flat_map(|(a, b)| vec![*a, *b]).collect();
    all.push(z);
    all.extend(&alphas);
    set_script(Script { challenges: all.iter().map(|e| to_limbs(e)).collect(), bytes });
    let f: Vec<Vec<F>> = (0..i.regs).map(|_| rvec(&mut c.rng, nf)).collect();
    let g = rvec(&mut c.rng, ng);
    let y: Vec<F> = rvec(&mut c.rng, i.masks());
    if pow(z, ng as u64) == F::one() {
        c.trivial();
        return Ok(());
    }
    let gz = match g_of_claims(&i, &y, z, &pairs) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let v1 = h1_word(&i, &f, &y, z, &alphas)[x1];
    let v2 = h2_word(&g, gz, z)[x2];
    let parts = Parts {
        f,
        g,
        y,
        h1: constant_layers(v1, nf, cfg.lde, cfg.out),
        h2: constant_layers(v2, ng, cfg.lde, cfg.out),
        h1_roots: None,
        h2_roots: None,
    };
    let proof: ProofOf<F, Scripted<F>> = parts.assemble(x1, x2);
    if verify(&i, &cfg, &proof) == Verdict::Accept {
        c.count("bases that get as far as FRI", 1);
    }
    for k in 0..200 {
        let mut r = Rng::new(c.rng.u64());
        let mut p: ProofOf<F, Scripted<F>> = clone_proof(&proof);
        for _ in 0..r.range(1, 4) {
            if r.chance(1, 2) {
                fri(&mut r, &mut p.fri_proof_h1);
            } else {
                fri(&mut r, &mut p.fri_proof_h2);
            }
        }
        p.h1_iop_roots = p.fri_proof_h1.roots.clone();
        p.h2_iop_roots = p.fri_proof_h2.roots.clone();
        // without a transcript the final polynomial is not bound to anything: it may be another
        // one that fits, so what is accepted is not judged here
        let bytes = proof_bytes(&p);
        judge(c, &i, &cfg, &p, &bytes, &format!("mutation {} of the FRI proofs", k))?;
    }
    Ok(())
}

/// FRI on its own, at positions and with parameters that no honest caller has.
fn direct<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let lde = 1usize << c.rng.below(4);
    let cap = (F::S as usize - log2(lde)).min(6);
    let d = 1usize << c.rng.below(cap + 1);
    let out = 1usize << c.rng.below(log2(d) + 1);
    let n = d * lde;
    c.desc(format!("{} {} coefficients at rate 1/{} to {}", name, d, lde, out));
    force_cpus(1);
    if n < 2 {
        c.trivial();
        return Ok(());
    }
    let word = eval_domain(&rvec::<F>(&mut c.rng, d), n, F::one());
    // (a tree of one leaf cannot be opened)
    let lay = fri_layers(&word, lde, out, false);
    if lay.layers.last().unwrap().len() < 2 || lay.layers.len() != log2(d / out) + 1 {
        c.trivial();
        return Ok(());
    }
    for k in 0..300 {
        let mut r = Rng::new(c.rng.u64());
        let at = r.below(n);
        let mut p = lay.open(at);
        for _ in 0..r.range(0, 4) {
            fri(&mut r, &mut p);
        }
        let x = if r.chance(1, 2) { at } else { edge(&mut r, at) };
        let e: F = if r.chance(2, 3) { word[at] } else { some(&mut r) };
        let (v, bytes, us) = cost(|| observe(|| Fri::<F>::verify_proof_queries(&p, x, 2, e)));
        match v {
            Err(m) => return Err(format!("FRI verification panicked: number {} at position {} of {}: {}", k, x, n, m)),
            Ok(Ok(true)) => c.count("FRI proofs accepted", 1),
            Ok(Ok(false)) => c.count("FRI proofs rejected", 1),
            Ok(Err(_)) => c.count("FRI errors", 1),
        }
        if bytes > MAX_BYTES || us > MAX_CPU_US {
            return Err(format!("FRI verification took {} bytes and {} ms", bytes, us / 1000));
        }
    }
    Ok(())
}

/// Every combination of sizes that are powers of two, in the shape that they ask for.
fn sizes<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let d = 1usize << (c.idx / 9 % 64);
    c.desc(format!("{} degree 2^{}", name, c.idx / 9 % 64));
    for l in 0..64 {
        for o in 0..13 {
            let mut p: FriPr<F> = FRIProof {
                queries: vec![],
                roots: vec![],
                final_coefficients: vec![],
                initial_degree_plus_one: d,
                output_coeffs_at_degree_plus_one: 1 << o,
                lde_factor: 1 << l,
            };
            shape(&mut c.rng, &mut p);
            let r = &mut c.rng;
            // openings where they are looked for, as far as that goes
            let x = edge(r, 7);
            let mut n = d.wrapping_mul(1 << l);
            let mut idx = x;
            for k in 0..p.roots.len() {
                if n < 2 || 2 * k + 1 >= p.queries.len() {
                    break;
                }
                idx %= n;
                let mut pair = [idx, (idx + n / 2) % n];
                pair.sort();
                for (s, at) in pair.iter().enumerate() {
                    let path: Vec<[u8; 32]> = (0..log2(n)).map(|_| digest(r)).collect();
                    let q: Query<F> = forge_query(*at, some(r), path);
                    p.queries[2 * k + s] = q;
                }
                idx %= n / 2;
                n /= 2;
            }
            let (v, bytes, us) = cost(|| observe(|| Fri::<F>::verify_proof_queries(&p, x, 2, F::one())));
            match v {
                Err(m) => return Err(format!("FRI verification panicked: degree 2^{}, rate 2^{}, final degree 2^{} at {}: {}", c.idx / 9 % 64, l, o, x, m)),
                Ok(Ok(true)) => return Err(format!("accepted random openings of degree 2^{}, rate 2^{}, final degree 2^{}", c.idx / 9 % 64, l, o)),
                _ => c.count("sizes refused", 1),
            }
            if bytes > MAX_BYTES || us > MAX_CPU_US {
                return Err(format!("FRI verification took {} bytes and {} ms", bytes, us / 1000));
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    for k in ["malformed proofs judged", "rejected", "errors", "bases that get as far as FRI", "FRI proofs rejected", "FRI errors", "sizes refused"] {
        ctx.require(k);
    }
    let n = ctx.n(54, 1800);
    ctx.section("changes", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, changes, c, f)
    });
    let n = ctx.n(108, 3600);
    ctx.section("stacked", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, stacked, c, f)
    });
    let n = ctx.n(180, 5400);
    ctx.section("deep", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, deep, c, f)
    });
    let n = ctx.n(270, 10800);
    ctx.section("direct", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, direct, c, f)
    });
    let n = ctx.n(576, 1152);
    ctx.section("sizes", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, sizes, c, f)
    });
}
