//! C04: provers that do not follow the protocol.

use crate::fields::*;
use crate::forge::*;
use crate::fw::*;
use crate::inst::*;
use crate::model;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;

fn no<F: PrimeField>(c: &mut Case, i: &Inst<F>, cfg: &Cfg, p: &ProofOf<F, B2s<F>>, what: &str) -> Result<(), String> {
    c.count(&format!("forged proofs judged: {}", what), 1);
    match verify(i, cfg, p) {
        Verdict::Accept => Err(format!("a forged proof of a false statement was accepted: {}", what)),
        Verdict::Panic(m) => Err(format!("the verifier panicked on a forged proof: {}: {}", what, m)),
        _ => Ok(()),
    }
}

fn small_cfg<F: PrimeField>(r: &mut Rng, i: &Inst<F>) -> Cfg {
    let lde = *r.pick(&[4usize, 8, 16]);
    let cap = log2(i.rows_sup());
    Cfg { cpus: 1, lde, out: 1 << r.below(cap) }
}

fn setup<F: PrimeField>(c: &mut Case) -> (Inst<F>, Cfg, Vec<Vec<F>>) {
    let i: Inst<F> = linear_instance(&mut c.rng);
    let cfg = small_cfg(&mut c.rng, &i);
    c.desc(format!("{} {:?} {} bits", i.desc(), cfg, F::NUM_BITS));
    let cols = false_columns(&mut c.rng, &i);
    (i, cfg, cols)
}

/// Columns that do not satisfy the statement.
fn false_columns<F: PrimeField>(r: &mut Rng, i: &Inst<F>) -> Vec<Vec<F>> {
    loop {
        let w: Vec<Vec<F>> = (0..i.regs).map(|_| rvec(r, i.rows)).collect();
        if !i.satisfied(&w) {
            return model::columns(i, &w);
        }
    }
}

fn control<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, _) = setup::<F>(c);
    let cols = model::columns(&i, &i.witness);
    let (p, a, b) = match honest_parts(&i, &cfg, &cols) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let proof: ProofOf<F, B2s<F>> = p.assemble(a, b);
    if verify(&i, &cfg, &proof) == Verdict::Accept {
        c.count("control: the harness's own prover accepted when it is honest", 1);
    } else {
        c.trivial();
    }
    // the same prover, honest about everything but the witness
    let (i2, cfg2, cols2) = setup::<F>(c);
    if let Some((p, a, b)) = honest_parts(&i2, &cfg2, &cols2) {
        let proof: ProofOf<F, B2s<F>> = p.assemble(a, b);
        no(c, &i2, &cfg2, &proof, "own prover on a false witness")?;
    }
    Ok(())
}

/// Finishes a draft in which G and the claims fit each other: real H1 and H2 words, real FRI.
fn finish<F: PrimeField>(i: &Inst<F>, cfg: &Cfg, p: &mut Parts<F>) -> Option<(usize, usize)> {
    let s = probe(i, cfg, p)?;
    let g = g_of_claims(i, &p.y, s.z, &s.pairs)?;
    p.h1 = fri_layers(&h1_word(i, &p.f, &p.y, s.z, &s.alphas), cfg.lde, cfg.out, false);
    p.h2 = fri_layers(&h2_word(&p.g, g, s.z), cfg.lde, cfg.out, false);
    let s = probe(i, cfg, p)?;
    positions(i, cfg, &s)
}

/// Claims that make the constraint equation hold, picked after the challenges, in a way that H1 stays
/// what it was: two registers under one mask compensate each other.
fn claims_after_challenges<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, cols) = setup::<F>(c);
    let mut p = draft(&i, &cfg, &cols, &[F::zero()]);
    let go = |p: &mut Parts<F>| -> Option<(usize, usize)> {
        let s = probe(&i, &cfg, p)?;
        p.y = claims(&i, &cols, s.z);
        let s = probe(&i, &cfg, p)?;
        let m = model::masks(&i);
        let mut best = None;
        for a in 0..m.len() {
            for b in 0..m.len() {
                if a == b || m[a].1 != m[b].1 || best.is_some() {
                    continue;
                }
                let y = p.y.clone();
                let at = |t: F| {
                    let mut y = y.clone();
                    y[a] = add(y[a], mul(t, s.alphas[a].inverse()?));
                    y[b] = sub(y[b], mul(t, s.alphas[b].inverse()?));
                    g_of_claims(&i, &y, s.z, &s.pairs)
                };
                if let Some(t) = solve(&at) {
                    let mut y = p.y.clone();
                    y[a] = add(y[a], mul(t, s.alphas[a].inverse()?));
                    y[b] = sub(y[b], mul(t, s.alphas[b].inverse()?));
                    best = Some(y);
                }
            }
        }
        p.y = best?;
        finish(&i, &cfg, p)
    };
    match go(&mut p) {
        None => {
            c.trivial();
            Ok(())
        }
        Some((a, b)) => no(c, &i, &cfg, &p.assemble(a, b), "claimed values picked after the challenges that combine them"),
    }
}

/// G picked after z.
fn g_after_z<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, cols) = setup::<F>(c);
    let mut p = draft(&i, &cfg, &cols, &[F::zero()]);
    let go = |p: &mut Parts<F>| -> Option<(usize, usize)> {
        let s = probe(&i, &cfg, p)?;
        p.y = claims(&i, &cols, s.z);
        let s = probe(&i, &cfg, p)?;
        let g = g_of_claims(&i, &p.y, s.z, &s.pairs)?;
        p.g = values_on(&[g], size_h2(&i, &cfg));
        finish(&i, &cfg, p)
    };
    match go(&mut p) {
        None => {
            c.trivial();
            Ok(())
        }
        Some((a, b)) => no(c, &i, &cfg, &p.assemble(a, b), "G picked after the out-of-domain point"),
    }
}

/// Columns picked after the challenges: constants that satisfy the equation at z.
fn columns_after_challenges<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, cols) = setup::<F>(c);
    let consts: Vec<F> = rvec(&mut c.rng, i.regs);
    // all columns are exchanged for constants, or one of them is shifted and the others stay
    let alone = c.rng.chance(1, 2);
    let first = c.rng.below(i.regs);
    let base: Vec<Vec<F>> = if alone { cols.clone() } else { consts.iter().map(|k| vec![*k]).collect() };
    let mut p = draft(&i, &cfg, &cols, &[F::zero()]);
    let go = |p: &mut Parts<F>| -> Option<(usize, usize)> {
        let s = probe(&i, &cfg, p)?;
        for reg in (0..i.regs).map(|k| (k + first) % i.regs) {
            let with = |t: F| {
                let mut k = base.clone();
                k[reg][0] = add(k[reg][0], t);
                k
            };
            let at = |t: F| g_of_claims(&i, &claims(&i, &with(t), s.z), s.z, &s.pairs);
            if let Some(t) = solve(&at) {
                let k = with(t);
                if i.satisfied(&values_of(&i, &k)) {
                    return None;
                }
                for r in 0..i.regs {
                    if !alone || r == reg {
                        p.f[r] = values_on(&k[r], size_h1(&i, &cfg));
                    }
                }
                p.y = claims(&i, &k, s.z);
                return finish(&i, &cfg, p);
            }
        }
        None
    };
    match go(&mut p) {
        None => {
            c.trivial();
            Ok(())
        }
        Some((a, b)) => no(c, &i, &cfg, &p.assemble(a, b), "register columns picked after the challenges"),
    }
}

/// The columns on the trace.
fn values_of<F: PrimeField>(i: &Inst<F>, cols: &[Vec<F>]) -> Vec<Vec<F>> {
    let n = root::<F>(i.rows_sup());
    cols.iter().map(|k| (0..i.rows).map(|t| horner(k, pow(n, t as u64))).collect()).collect()
}

/// Any solution of m x = v.
fn solution<F: PrimeField>(r: &mut Rng, mut m: Vec<Vec<F>>, mut v: Vec<F>) -> Option<Vec<F>> {
    let cols = m[0].len();
    let mut pivots = vec![];
    let mut row = 0;
    for k in 0..cols {
        let found = match (row..m.len()).find(|q| !m[*q][k].is_zero()) {
            Some(q) => q,
            None => continue,
        };
        m.swap(row, found);
        v.swap(row, found);
        let s = inv(m[row][k]);
        for x in m[row].iter_mut() {
            x.mul_assign(&s);
        }
        v[row].mul_assign(&s);
        for q in 0..m.len() {
            if q != row && !m[q][k].is_zero() {
                let t = m[q][k];
                for j in 0..cols {
                    let d = mul(t, m[row][j]);
                    m[q][j].sub_assign(&d);
                }
                let d = mul(t, v[row]);
                v[q].sub_assign(&d);
            }
        }
        pivots.push(k);
        row += 1;
        if row == m.len() {
            break;
        }
    }
    if v[row..].iter().any(|x| !x.is_zero()) {
        return None;
    }
    let mut x: Vec<F> = rvec(r, cols);
    for (q, k) in pivots.iter().enumerate() {
        let mut t = v[q];
        for j in 0..cols {
            if j != *k && !pivots.contains(&j) {
                t.sub_assign(&mul(m[q][j], x[j]));
            }
        }
        x[*k] = t;
    }
    Some(x)
}

/// A witness picked after the challenges of the constraints, so that its violations cancel at every row.
fn witness_after_challenges<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, cols) = setup::<F>(c);
    let mut p = draft(&i, &cfg, &cols, &[F::zero()]);
    let n = i.rows_sup();
    // which columns are still open
    let which = c.rng.below(i.regs + 1);
    let open: Vec<usize> = (0..i.regs).filter(|r| which == i.regs || *r == which).collect();
    let fixed: Vec<Vec<F>> = cols.iter().map(|k| eval_domain(k, n, F::one())).collect();
    let s = match probe(&i, &cfg, &p) {
        Some(s) => s,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    // the residue of G at a row, as a function of the open values
    let w = root::<F>(n);
    let residues = |v: &[Vec<F>]| -> Vec<F> {
        let mut out = vec![F::zero(); n];
        for (k, q) in model::batched(&i).into_iter().enumerate() {
            let con = &i.cons[q];
            for row in con.enforced(i.rows) {
                let mut d = F::one();
                for other in con.enforced(i.rows) {
                    if other != row {
                        d.mul_assign(&sub(pow(w, row as u64), pow(w, other as u64)));
                    }
                }
                let val = |r: usize, step: usize| v[r][(row + step) % n];
                let t = mul(mul(model::con_at(con, &val), inv(d)), s.pairs[k].0);
                out[row].add_assign(&t);
            }
        }
        for (k, (reg, row, x)) in i.bounds.iter().enumerate() {
            let t = mul(sub(v[*reg][*row], *x), s.pairs[i.cons.len() + k].0);
            out[*row].add_assign(&t);
        }
        out
    };
    let mut base = fixed.clone();
    for r in &open {
        base[*r] = vec![F::zero(); n];
    }
    let zero = residues(&base);
    let mut m = vec![vec![F::zero(); open.len() * n]; n];
    for (a, r) in open.iter().enumerate() {
        for k in 0..n {
            let mut v = base.clone();
            v[*r][k] = F::one();
            for (row, x) in residues(&v).iter().enumerate() {
                m[row][a * n + k] = sub(*x, zero[row]);
            }
        }
    }
    let x = match solution(&mut c.rng, m, zero.iter().map(|x| neg(*x)).collect()) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let mut v = fixed;
    for (a, r) in open.iter().enumerate() {
        v[*r] = x[a * n..(a + 1) * n].to_vec();
    }
    let cut: Vec<Vec<F>> = v.iter().map(|k| k[..i.rows].to_vec()).collect();
    if residues(&v).iter().any(|x| !x.is_zero()) {
        return Err("HARNESS: the violations do not cancel".into());
    }
    if i.satisfied(&cut) {
        c.trivial();
        return Ok(());
    }
    let new: Vec<Vec<F>> = v.iter().map(|k| interpolate_domain(k)).collect();
    let go = |p: &mut Parts<F>| -> Option<(usize, usize)> {
        for r in &open {
            p.f[*r] = values_on(&new[*r], size_h1(&i, &cfg));
        }
        p.g = values_on(&model::g_poly(&i, &new, &s.pairs, n), size_h2(&i, &cfg));
        let s = probe(&i, &cfg, p)?;
        p.y = claims(&i, &new, s.z);
        finish(&i, &cfg, p)
    };
    match go(&mut p) {
        None => {
            c.trivial();
            Ok(())
        }
        Some((a, b)) => no(c, &i, &cfg, &p.assemble(a, b), "a witness whose violations cancel under challenges known beforehand"),
    }
}

/// The first layer of FRI is made after the challenge that folds it, so that it folds to zero: one
/// half of it is the word that the verifier expects, the other half is what the challenge needs.
fn folded_to_order<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, cols) = setup::<F>(c);
    let mode = c.rng.range(1, 2);
    let (mut p, s, h1, h2) = match unfit(&i, &cfg, &cols, &mut c.rng, mode) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let bad = if mode == 1 { h1.clone() } else { h2.clone() };
    let size = bad.len();
    if size / cfg.lde <= cfg.out {
        c.trivial();
        return Ok(());
    }
    p.h1 = fri_layers(&h1, cfg.lde, cfg.out, false);
    p.h2 = fri_layers(&h2, cfg.lde, cfg.out, false);
    let honest = if mode == 1 { p.h1.clone() } else { p.h2.clone() };
    let mut guesses: Vec<F> = vec![F::zero(), F::one(), s.z, *s.alphas.last().unwrap(), s.alphas[0], digest_to_field(&[0; 32]), F::multiplicative_generator()];
    for l in constant_layers(F::zero(), size / 2, cfg.lde, cfg.out).layers {
        guesses.push(digest_to_field(&merkle_root(&l)));
    }
    guesses.push(digest_to_field(&merkle_root(&p.g)));
    guesses.push(digest_to_field(&merkle_root(&p.f[0])));
    guesses.push(digest_to_field(&merkle_root(p.f.last().unwrap())));
    for l in &honest.layers {
        guesses.push(digest_to_field(&merkle_root(l)));
    }
    let q = c.rng.below(guesses.len());
    for ch in guesses.iter().cycle().skip(q).take(6) {
        for keep_low in [true, false] {
            let mut w = bad.clone();
            let step = root::<F>(size);
            for k in 0..size / 2 {
                // a + b + (a - b) ch / x = 0
                let t = mul(*ch, inv(pow(step, k as u64)));
                let (pa, pb) = (add(F::one(), t), sub(F::one(), t));
                if pa.is_zero() || pb.is_zero() {
                    w[k] = F::zero();
                    w[k + size / 2] = F::zero();
                    continue;
                }
                if keep_low {
                    w[k + size / 2] = neg(mul(mul(w[k], pa), inv(pb)));
                } else {
                    w[k] = neg(mul(mul(w[k + size / 2], pb), inv(pa)));
                }
            }
            if model::fold(&w, *ch).iter().any(|x| !x.is_zero()) {
                return Err("HARNESS: the layer does not fold to zero".into());
            }
            let mut l = constant_layers(F::zero(), size / 2, cfg.lde, cfg.out);
            l.layers.insert(0, w);
            l.initial *= 2;
            let mut q = p.clone();
            if mode == 1 {
                q.h1 = l;
            } else {
                q.h2 = l;
            }
            let s = match probe(&i, &cfg, &q) {
                Some(s) => s,
                None => continue,
            };
            if let Some((a, b)) = positions(&i, &cfg, &s) {
                no(c, &i, &cfg, &q.assemble(a, b), "a first layer of FRI made for a challenge known beforehand")?;
            }
        }
    }
    Ok(())
}

/// A proof in the making of which H1, or H2, or both (mode 1, 2, 0) are words far from low degree.
fn unfit<F: PrimeField>(i: &Inst<F>, cfg: &Cfg, cols: &[Vec<F>], r: &mut Rng, mode: usize) -> Option<(Parts<F>, Seen<F>, Vec<F>, Vec<F>)> {
    let mut p = draft(i, cfg, cols, &[F::zero()]);
    let s = probe(i, cfg, &p)?;
    p.y = rvec(r, i.masks());
    if mode == 1 {
        // claims that fit G, and not the columns
        let k = r.below(p.y.len());
        let y = p.y.clone();
        let with = |t: F| {
            let mut y = y.clone();
            y[k] = add(y[k], t);
            y
        };
        let t = solve(&|t| g_of_claims(i, &with(t), s.z, &s.pairs))?;
        p.y = with(t);
    }
    if mode == 2 {
        p.y = claims(i, cols, s.z);
    }
    let s = probe(i, cfg, &p)?;
    let h1 = h1_word(i, &p.f, &p.y, s.z, &s.alphas);
    let h2 = h2_word(&p.g, g_of_claims(i, &p.y, s.z, &s.pairs)?, s.z);
    Some((p, s, h1, h2))
}

/// A constant word instead of what is unfit, right at the queried position only.
fn detached_oracles<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, cols) = setup::<F>(c);
    let mode = c.rng.below(3);
    let (mut p, _, h1, h2) = match unfit(&i, &cfg, &cols, &mut c.rng, mode) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let (one, two) = (mode != 2, mode != 1);
    p.h1 = fri_layers(&h1, cfg.lde, cfg.out, false);
    p.h2 = fri_layers(&h2, cfg.lde, cfg.out, false);
    let r1 = p.h1.roots();
    let r2 = p.h2.roots();
    let (k1, k2) = (p.h1.coeffs.clone(), p.h2.coeffs.clone());
    let s = match probe(&i, &cfg, &p) {
        Some(s) => s,
        None => return Err("HARNESS: no challenges".into()),
    };
    let (a, b) = positions(&i, &cfg, &s).ok_or("HARNESS: no positions")?;
    let n1 = size_h1(&i, &cfg);
    let n2 = size_h2(&i, &cfg);
    let fake1 = if one { constant_layers(h1[a], n1, cfg.lde, cfg.out) } else { p.h1.clone() };
    let fake2 = if two { constant_layers(h2[b], n2, cfg.lde, cfg.out) } else { p.h2.clone() };
    // what was picked after the positions were known moves them, but once in a while not
    let p0 = p.clone();
    let moves = |c: &mut Case, q: &Parts<F>| {
        let m = positions_by_protocol(&i, &cfg, &p0, q) != (a, b);
        if !m {
            c.count("positions that did not move by chance", 1);
        }
        m
    };
    // claimed roots stay, the FRI proofs are about other oracles
    let mut q = p.clone();
    q.h1_roots = Some(r1.clone());
    q.h2_roots = Some(r2.clone());
    q.h1 = fake1.clone();
    q.h2 = fake2.clone();
    let own = q.clone();
    q.h1.coeffs = k1.clone();
    q.h2.coeffs = k2.clone();
    no(c, &i, &cfg, &q.assemble(a, b), "FRI proof for other oracles, final coefficients kept")?;
    // ... with final coefficients that fit the other oracles, which matters if they are not bound
    no(c, &i, &cfg, &own.assemble(a, b), "FRI proof for other oracles with their final coefficients")?;
    // other oracles, roots and coefficients altogether, picked after the positions were known
    let mut q = p.clone();
    q.h1 = fake1.clone();
    q.h2 = fake2.clone();
    if moves(c, &q) {
        no(c, &i, &cfg, &q.assemble(a, b), "other oracles picked after the positions")?;
    }
    // ... with the old final coefficients
    q.h1.coeffs = k1.clone();
    q.h2.coeffs = k2.clone();
    if moves(c, &q) {
        no(c, &i, &cfg, &q.assemble(a, b), "other oracles picked after the positions, final coefficients kept")?;
    }
    // ... and only the last root is kept
    if r1.len() > 1 && r2.len() > 1 {
        for keep in [true, false] {
            let mut q = p.clone();
            let mut l1 = fake1.roots();
            *l1.last_mut().unwrap() = *r1.last().unwrap();
            let mut l2 = fake2.roots();
            *l2.last_mut().unwrap() = *r2.last().unwrap();
            q.h1 = fake1.clone();
            q.h2 = fake2.clone();
            q.h1_roots = Some(l1);
            q.h2_roots = Some(l2);
            if keep {
                q.h1.coeffs = k1.clone();
                q.h2.coeffs = k2.clone();
            }
            no(c, &i, &cfg, &q.assemble(a, b), "FRI proof for other oracles, only the last root is kept")?;
        }
    }
    // final coefficients picked after the positions: constant, right at the position that was drawn
    let mut q = p.clone();
    let last = |l: &Layers<F>, k: usize| {
        let v = l.layers.last().unwrap();
        let mut coeffs = vec![F::zero(); l.coeffs.len()];
        coeffs[0] = v[k % v.len()];
        coeffs
    };
    if one {
        q.h1.coeffs = last(&p.h1, a);
    }
    if two {
        q.h2.coeffs = last(&p.h2, b);
    }
    if moves(c, &q) {
        no(c, &i, &cfg, &q.assemble(a, b), "final coefficients picked after the positions")?;
    }
    // oracles replaced consistently, the final coefficients stay
    let mut q = p.clone();
    q.h1 = fake1.clone();
    q.h2 = fake2.clone();
    q.h1.coeffs = k1.clone();
    q.h2.coeffs = k2.clone();
    let s = probe(&i, &cfg, &q).ok_or("HARNESS: no challenges")?;
    let (a, b) = positions(&i, &cfg, &s).ok_or("HARNESS: no positions")?;
    if one {
        q.h1.layers = constant_layers(h1[a], n1, cfg.lde, cfg.out).layers;
    }
    if two {
        q.h2.layers = constant_layers(h2[b], n2, cfg.lde, cfg.out).layers;
    }
    no(c, &i, &cfg, &q.assemble(a, b), "constant oracles with unrelated final coefficients")?;
    // zero oracles, zero coefficients: nothing to complain about inside of FRI
    let mut q = p.clone();
    if one {
        q.h1 = constant_layers(F::zero(), n1, cfg.lde, cfg.out);
    }
    if two {
        q.h2 = constant_layers(F::zero(), n2, cfg.lde, cfg.out);
    }
    let s = probe(&i, &cfg, &q).ok_or("HARNESS: no challenges")?;
    let (a, b) = positions(&i, &cfg, &s).ok_or("HARNESS: no positions")?;
    no(c, &i, &cfg, &q.assemble(a, b), "FRI about the zero word")
}

/// Words of any degree, with a FRI proof that says that this is fine.
fn degree_lies<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, cols) = setup::<F>(c);
    // both are unfit, or H1 alone, or H2 alone
    let mode = c.rng.below(3);
    let (p, _, h1, h2) = match unfit(&i, &cfg, &cols, &mut c.rng, mode) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let n1 = size_h1(&i, &cfg);
    let n2 = size_h2(&i, &cfg);
    let mut list: Vec<(&str, Layers<F>, Layers<F>)> = vec![];
    for k in [cfg.lde, 2, cfg.lde / 2].iter() {
        if *k < 2 {
            continue;
        }
        // the degree is multiplied by k and the rate is divided by it
        list.push(("a higher degree at a higher rate", fri_layers(&h1, cfg.lde / k, cfg.out, false), fri_layers(&h2, cfg.lde / k, cfg.out, false)));
    }
    list.push(("too many final coefficients", fri_layers(&h1, cfg.lde, cfg.out, true), fri_layers(&h2, cfg.lde, cfg.out, true)));
    let whole = |w: &[F], declared: usize| {
        let mut l = fri_layers(w, cfg.lde, w.len() / cfg.lde, true);
        l.out = declared;
        l
    };
    for d in [1, cfg.out, n1 / cfg.lde, n1].iter() {
        list.push(("no folding, the whole word as final coefficients", whole(&h1, *d), whole(&h2, (*d).max(1) * (n2 / n1))));
    }
    // fewer rounds than declared, all of the coefficients of the layer reached
    if log2(n1 / cfg.lde) >= 1 {
        let cut = |w: &[F]| {
            let mut l = fri_layers(w, cfg.lde, 1, true);
            let k = l.layers.len() - 1;
            l.layers.truncate(k.max(1));
            l.coeffs = interpolate_domain(l.layers.last().unwrap());
            l.out = cfg.out;
            l
        };
        list.push(("fewer rounds", cut(&h1), cut(&h2)));
    }
    // fewer rounds, and a declared output size that fits them and all of the coefficients
    let odd = |w: &[F]| {
        let mut l = fri_layers(w, cfg.lde, w.len() / cfg.lde, true);
        l.out = l.coeffs.len();
        l.initial = l.coeffs.len();
        l.lde = 1;
        l
    };
    list.push(("declared as the full degree at rate one", odd(&h1), odd(&h2)));
    for (what, a1, a2) in list {
        let mut q = p.clone();
        q.h1 = fri_layers(&h1, cfg.lde, cfg.out, false);
        q.h2 = fri_layers(&h2, cfg.lde, cfg.out, false);
        if mode != 2 {
            q.h1 = a1;
        }
        if mode != 1 {
            q.h2 = a2;
        }
        let s = match probe(&i, &cfg, &q) {
            Some(s) => s,
            None => continue,
        };
        // a verifier that stops before it draws positions has rejected; any position will do then
        let (a, b) = positions(&i, &cfg, &s).unwrap_or((1, 1));
        no(c, &i, &cfg, &q.assemble(a, b), what)?;
    }
    Ok(())
}

/// The statement is picked after the proof: a boundary value or a constant that fits the challenges.
fn statement_after_challenges<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let (i, cfg, cols) = setup::<F>(c);
    let kind = c.rng.below(4);
    let bk = c.rng.below(i.bounds.len());
    let ck = c.rng.below(i.cons.len());
    let other = |t: F| {
        let mut j = i.clone();
        match kind {
            0 => j.bounds[bk].2 = add(j.bounds[bk].2, t),
            1 => j.cons[ck].constant = add(j.cons[ck].constant, t),
            3 => match &mut j.cons[ck].terms[0] {
                Term::Uni(f) => f.coeff = add(f.coeff, t),
                Term::Poly(k, _) => *k = add(*k, t),
            },
            _ => {
                for b in j.bounds.iter_mut() {
                    b.2 = add(b.2, t);
                }
            }
        }
        j
    };
    let mut p = draft(&i, &cfg, &cols, &[F::zero()]);
    let go = |p: &mut Parts<F>| -> Option<(Inst<F>, usize, usize)> {
        let s = probe(&i, &cfg, p)?;
        p.y = claims(&i, &cols, s.z);
        let s = probe(&i, &cfg, p)?;
        let at = |t: F| g_of_claims(&other(t), &p.y, s.z, &s.pairs);
        let j = other(solve(&at)?);
        let (a, b) = finish(&j, &cfg, p)?;
        Some((j, a, b))
    };
    match go(&mut p) {
        None => {
            c.trivial();
            Ok(())
        }
        Some((j, a, b)) => {
            let w = values_of(&j, &cols);
            if j.satisfied(&w) {
                c.trivial();
                return Ok(());
            }
            no(c, &j, &cfg, &p.assemble(a, b), ["boundary value", "constant of a constraint", "boundary values", "coefficient of a constraint"][kind])
                .map_err(|e| format!("{}: the statement was picked after the challenges were known", e))
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let fs = ["P62", "Goldilocks", "Fr252", "P129", "Fr255"];
    macro_rules! sec {
        ($name:expr, $f:ident, $q:expr, $t:expr) => {
            let n = ctx.n($q, $t);
            ctx.section($name, n, |c| {
                let f = fs[c.idx as usize % fs.len()];
                with_field!(f, $f, c)
            });
        };
    }
    ctx.require("control: the harness's own prover accepted when it is honest");
    sec!("control", control, 80, 1000);
    sec!("claims", claims_after_challenges, 150, 3000);
    sec!("g", g_after_z, 100, 2000);
    sec!("columns", columns_after_challenges, 100, 2000);
    sec!("witness", witness_after_challenges, 150, 3000);
    sec!("folded", folded_to_order, 60, 1500);
    sec!("detached", detached_oracles, 100, 2000);
    sec!("degree", degree_lies, 100, 2000);
    sec!("statement", statement_after_challenges, 150, 3000);
}
