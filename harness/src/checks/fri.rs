//! C13 and C14: FRI, position by position, against a reference prover and a reference verifier.

use crate::checks::fftc::CPUS;
use crate::checks::poly::same;
use crate::fields::*;
use crate::forge::Layers;
use crate::fw::*;
use crate::model;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::fri::*;
use hodor::iop::*;
use hodor::polynomials::*;
use hodor::verif_hooks::{force_cpus, forge_query, worker_with_cpus};

fn es(e: hodor::SynthesisError) -> String {
    format!("error: {}", e)
}

fn ob<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    observe(f).map_err(|m| format!("{}: panic: {}", what, m))
}

/// Oracles with the roots of the reference tree.
struct Ref<F: PrimeField> {
    layers: Vec<Vec<F>>,
    trees: Vec<Vec<Vec<[u8; 32]>>>,
    challenges: Vec<F>,
    coeffs: Vec<F>,
}

impl<F: PrimeField> Ref<F> {
    fn root(&self, k: usize) -> [u8; 32] {
        self.trees[k].last().unwrap()[0]
    }
    fn path(&self, k: usize, at: usize) -> Vec<[u8; 32]> {
        let t = &self.trees[k];
        (0..t.len() - 1).map(|l| t[l][(at >> l) ^ 1]).collect()
    }
}

impl<F: PrimeField> Ref<F> {
    fn open(&self, index: usize, s: &Size) -> FriPr<F> {
        let mut queries = vec![];
        for (k, l) in self.layers.iter().enumerate() {
            let m = l.len();
            for x in [index % (m / 2), index % (m / 2) + m / 2] {
                queries.push(forge_query(x, l[x], self.path(k, x)));
            }
        }
        FRIProof {
            queries,
            roots: (0..self.layers.len()).map(|k| self.root(k)).collect(),
            final_coefficients: self.coeffs.clone(),
            initial_degree_plus_one: s.d,
            output_coeffs_at_degree_plus_one: s.out,
            lde_factor: s.lde,
        }
    }
}

/// Honest proof of a polynomial: the values are folded here, the coefficients are folded separately,
/// and both have to agree with each other.
fn reference<F: PrimeField>(poly: &[F], word: &[F], out: usize) -> Result<Ref<F>, String> {
    let mut r = Ref { layers: vec![word.to_vec()], trees: vec![merkle_levels(word)], challenges: vec![], coeffs: poly.to_vec() };
    while r.coeffs.len() > out {
        let c: F = digest_to_field(&r.root(r.layers.len() - 1));
        let next = model::fold(r.layers.last().unwrap(), c);
        r.coeffs = r.coeffs.chunks(2).map(|p| add(p[0], mul(p[1], c))).collect();
        let at = [0, 1, next.len() - 1];
        let w = root::<F>(next.len());
        for k in at.iter() {
            if horner(&r.coeffs, pow(w, *k as u64)) != next[*k] {
                return Err("HARNESS: reference foldings disagree".to_string());
            }
        }
        r.trees.push(merkle_levels(&next));
        r.layers.push(next);
        r.challenges.push(c);
    }
    Ok(r)
}

fn polynomial<F: PrimeField>(r: &mut Rng, d: usize) -> (Vec<F>, &'static str) {
    let mut p = vec![F::zero(); d];
    match r.below(9) {
        0 => (p, "zero"),
        1 => {
            p[0] = rf_nonzero(r);
            (p, "constant")
        }
        2 => {
            p[d - 1] = rf_nonzero(r);
            (p, "top coefficient only")
        }
        3 => {
            for k in (0..d).step_by(2) {
                p[k] = rf(r);
            }
            (p, "even")
        }
        4 => {
            for k in (1..d).step_by(2) {
                p[k] = rf(r);
            }
            (p, "odd")
        }
        5 => {
            let n = r.range(1, d);
            for k in 0..n {
                p[k] = rf(r);
            }
            (p, "of lower degree")
        }
        6 => {
            for k in 0..d {
                p[k] = rf_edge(r);
            }
            (p, "of special elements")
        }
        _ => (rvec(r, d), "random"),
    }
}

fn clone_proto<F: PrimeField>(p: &Proto<F>, word: &[F]) -> Proto<F> {
    FRIProofPrototype {
        l0_commitment: Iop::<F>::create(word),
        intermediate_commitments: p.intermediate_values.iter().map(|v| Iop::<F>::create(v.as_ref())).collect(),
        intermediate_values: p.intermediate_values.clone(),
        challenges: p.challenges.clone(),
        final_root: p.final_root,
        final_coefficients: p.final_coefficients.clone(),
        initial_degree_plus_one: p.initial_degree_plus_one,
        output_coeffs_at_degree_plus_one: p.output_coeffs_at_degree_plus_one,
        lde_factor: p.lde_factor,
    }
}

struct Size {
    d: usize,
    lde: usize,
    out: usize,
}

fn size<F: PrimeField>(r: &mut Rng, max: usize) -> Size {
    loop {
        let top = log2(max).min(F::S as usize);
        let d = 1usize << r.below(top);
        let lde = 1usize << r.range(1, 5);
        if d * lde > max || log2(d * lde) > F::S as usize {
            continue;
        }
        let out = match r.below(3) {
            0 => 1,
            1 => d,
            _ => 1 << r.below(log2(d) + 1),
        };
        return Size { d, lde, out };
    }
}

fn compare<F: PrimeField>(what: &str, p: &Proto<F>, want: &Ref<F>, s: &Size) -> Result<(), String> {
    let steps = want.challenges.len();
    if p.l0_commitment.get_root() != want.root(0) {
        return Err(format!("{}: commits to another word", what));
    }
    if p.intermediate_commitments.len() != steps || p.intermediate_values.len() != steps || p.challenges.len() != steps {
        return Err(format!("{}: {} foldings and not {}", what, p.intermediate_values.len(), steps));
    }
    same(&format!("{}: challenges", what), &p.challenges, &want.challenges)?;
    for k in 0..steps {
        same(&format!("{}: folding {}", what, k + 1), p.intermediate_values[k].as_ref(), &want.layers[k + 1])?;
        if p.intermediate_commitments[k].get_root() != want.root(k + 1) {
            return Err(format!("{}: the commitment to folding {} is another one", what, k + 1));
        }
    }
    same(&format!("{}: final coefficients", what), &p.final_coefficients, &want.coeffs)?;
    same(&format!("{}: reported final coefficients", what), &p.get_final_coefficients(), &want.coeffs)?;
    let roots: Vec<[u8; 32]> = (0..steps + 1).map(|k| want.root(k)).collect();
    if p.get_roots() != roots || p.get_final_root() != roots[steps] || p.final_root != roots[steps] {
        return Err(format!("{}: the reported roots are not those of the foldings", what));
    }
    if (p.initial_degree_plus_one, p.output_coeffs_at_degree_plus_one, p.lde_factor) != (s.d, s.out, s.lde) {
        return Err(format!("{}: declares degree {} and final degree {} at rate {}", what, p.initial_degree_plus_one, p.output_coeffs_at_degree_plus_one, p.lde_factor));
    }
    Ok(())
}

fn complete<F: PrimeField>(c: &mut Case, name: &str, max: usize) -> Result<(), String> {
    let r = &mut c.rng;
    let s = size::<F>(r, max);
    let n = s.d * s.lde;
    let cpus = *r.pick(&CPUS);
    let (poly, kind) = polynomial::<F>(r, s.d);
    c.desc(format!("{} polynomial {} of {} coefficients at rate 1/{} to {} coefficients, cpus={}", name, kind, s.d, s.lde, s.out, cpus));
    force_cpus(cpus);
    let w = worker_with_cpus(cpus);
    let word = eval_domain(&poly, n, F::one());
    let want = reference(&poly, &word, s.out)?;
    let lde = Polynomial::<F, Values>::from_values(word.clone()).map_err(es)?;
    let proto: Proto<F> = ob("by values", || Fri::<F>::proof_from_lde_by_values(&lde, s.lde, s.out, &w))?.map_err(es)?;
    compare("by values", &proto, &want, &s)?;
    c.count("prototypes by values", 1);
    let by_trait: Proto<F> = ob("proof_from_lde", || <Fri<F> as FriIop<F>>::proof_from_lde(&lde, s.lde, s.out, &w))?.map_err(es)?;
    compare("proof_from_lde", &by_trait, &want, &s)?;
    if !lde_defective(cpus, s.lde) {
        let other: Proto<F> = ob("through coefficients", || Fri::<F>::proof_from_lde_through_coefficients(lde.clone(), s.lde, s.out, &w))?.map_err(es)?;
        compare("through coefficients", &other, &want, &s)?;
        c.count("prototypes through coefficients", 1);
    }
    c.count("foldings compared", want.challenges.len() as u64);
    if want.challenges.is_empty() {
        c.count("proofs without a folding", 1);
    }

    let at: Vec<usize> = if n <= 128 { (0..n).collect() } else { (0..40).map(|_| c.rng.below(n)).chain(vec![0, 1, n / 2 - 1, n / 2 + 1, n - 1]).collect() };
    for k in at {
        let proto_verdict = ob("verify_prototype", || Fri::<F>::verify_prototype(&proto, &lde, k))?;
        // openings by the library at some positions, by the reference tree at all others
        let own = n <= 16 || c.rng.chance(8, n.min(64));
        let proof: FriPr<F> = if own {
            c.count("proofs extracted", 1);
            ob("produce_proof", || clone_proto(&proto, &word).produce_proof(&lde, k))?.map_err(es)?
        } else {
            want.open(k, &s)
        };
        for (j, q) in proof.queries.iter().enumerate() {
            let x = q.natural_index();
            let layer = &want.layers[j / 2];
            let m = layer.len();
            if x >= m || x % (m / 2) != k % (m / 2) || q.value() != layer[x] || q.path() != &want.path(j / 2, x)[..] {
                return Err(format!("query {} of the proof at {} is not an opening of the folding there", j, k));
            }
        }
        if proof.roots != proto.get_roots() || proof.queries.len() != 2 * proof.roots.len() || proof.get_final_coefficients() != &want.coeffs[..] || proof.get_roots() != &proto.get_roots()[..] || (proof.get_initial_degree_plus_one(), proof.get_lde_factor()) != (s.d, s.lde) {
            return Err(format!("the proof at {} says something else than its prototype", k));
        }
        let verdict = ob("verify_proof_queries", || Fri::<F>::verify_proof_queries(&proof, k, 2, word[k]))?;
        let verdict2 = ob("verify_proof", || <Fri<F> as FriIop<F>>::verify_proof(&proof, k, word[k]))?;
        if own && fri_bytes(&proof) != fri_bytes(&ob("prototype_into_proof", || <Fri<F> as FriIop<F>>::prototype_into_proof(clone_proto(&proto, &word), &lde, k))?.map_err(es)?) {
            return Err(format!("prototype_into_proof makes another proof at {}", k));
        }
        for (what, v) in [("the prototype", proto_verdict), ("the proof", verdict), ("the proof (verify_proof)", verdict2)] {
            match v {
                Ok(true) => c.count("positions accepted", 1),
                // positions that verifiers do not draw
                Err(_) if k % 2 == 0 => c.count("even positions refused", 1),
                Ok(false) => return Err(format!("position {} of {}: {} is not accepted", k, n, what)),
                Err(e) => return Err(format!("position {} of {}: {} is an error: {}", k, n, what, e)),
            }
        }
    }
    Ok(())
}

pub fn run_complete(ctx: &mut Ctx) {
    for k in ["proofs extracted", "prototypes by values", "prototypes through coefficients", "positions accepted", "foldings compared", "proofs without a folding"] {
        ctx.require(k);
    }
    let n = ctx.n(540, 9000);
    ctx.section("small", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, complete, c, f, 64)
    });
    let n = ctx.n(90, 1800);
    ctx.section("large", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, complete, c, f, 1024)
    });
    let n = ctx.n(14, 280);
    ctx.section("huge", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, complete, c, f, 1 << 17)
    });
}

// ------------------------------------------------------------------ soundness, position by position

/// What a prover that need not be honest commits to and opens.
#[derive(Clone)]
struct Claim<F: PrimeField> {
    layers: Vec<Vec<F>>,
    coeffs: Vec<F>,
    s: (usize, usize, usize),
}

/// Verdict from the definition.
fn accepts<F: PrimeField>(p: &Claim<F>, ch: &[F], at: usize, expected: F) -> bool {
    if p.layers[0][at] != expected {
        return false;
    }
    let mut idx = at;
    for k in 0..p.layers.len() {
        let l = &p.layers[k];
        let m = l.len();
        let (a, b) = (idx % (m / 2), idx % (m / 2) + m / 2);
        if k + 1 == p.layers.len() {
            let w = root::<F>(m);
            return [a, b].iter().all(|x| horner(&p.coeffs, pow(w, *x as u64)) == l[*x]);
        }
        let x = inv(pow(root::<F>(m), a as u64));
        let odd = mul(mul(sub(l[a], l[b]), x), ch[k]);
        let half = inv(int::<F>(2));
        let f = mul(add(add(l[a], l[b]), odd), half);
        idx %= m / 2;
        if p.layers[k + 1][idx] != f {
            return false;
        }
    }
    unreachable!()
}

fn as_layers<F: PrimeField>(p: &Claim<F>) -> Layers<F> {
    Layers { layers: p.layers.clone(), coeffs: p.coeffs.clone(), initial: p.s.0, out: p.s.2, lde: p.s.1 }
}

fn claim<F: PrimeField>(r: &mut Rng, s: &Size) -> (Claim<F>, String) {
    let n = s.d * s.lde;
    let (poly, kind) = polynomial::<F>(r, s.d);
    let mut word = eval_domain(&poly, n, F::one());
    let mut what = format!("polynomial {}", kind);
    let steps = log2(s.d / s.out);
    let corrupt = |r: &mut Rng, v: &mut Vec<F>| -> String {
        let n = v.len();
        match r.below(6) {
            0 => {
                let k = r.below(n);
                v[k] = add(v[k], rf_nonzero(r));
                format!("entry {}", k)
            }
            1 => {
                let m = r.range(1, n);
                for _ in 0..m {
                    let k = r.below(n);
                    v[k] = rf(r);
                }
                format!("{} entries", m)
            }
            2 => {
                // a pair with an unchanged sum, which a zero challenge would not see
                let k = r.below(n / 2);
                let x = rf_nonzero(r);
                v[k] = add(v[k], x);
                v[k + n / 2] = sub(v[k + n / 2], x);
                format!("pair {}", k)
            }
            3 => {
                *v = rvec(r, n);
                "all".to_string()
            }
            4 => {
                v.rotate_left(1);
                "rotation".to_string()
            }
            _ => {
                let x = rf_nonzero(r);
                for y in v.iter_mut() {
                    y.add_assign(&x);
                }
                "constant added".to_string()
            }
        }
    };
    if r.chance(1, 3) {
        what += &format!("; word changed: {}", corrupt(r, &mut word));
    }
    // the word of a polynomial of too high degree
    if r.chance(1, 5) {
        let mut high = rvec(r, n);
        let m = if r.chance(1, 2) { s.d + 1 } else { n };
        high.truncate(m);
        if m <= n {
            word = eval_domain(&high, n, F::one());
            what += &format!("; word of {} coefficients", m);
        }
    }
    let bad = if r.chance(2, 3) { Some(r.below(steps + 1)) } else { None };
    let unlinked = r.chance(1, 4);
    let mut layers = vec![word];
    for k in 0..steps {
        let ch: F = digest_to_field(&merkle_levels(&layers[k]).last().unwrap()[0]);
        let ch = if unlinked && r.chance(1, 2) {
            what += &format!("; folding {} with another challenge", k + 1);
            rf(r)
        } else {
            ch
        };
        let mut next = model::fold(&layers[k], ch);
        if bad == Some(k + 1) {
            what += &format!("; folding {} changed: {}", k + 1, corrupt(r, &mut next));
        }
        layers.push(next);
    }
    let mut coeffs = interpolate_domain(layers.last().unwrap());
    coeffs.truncate(s.out);
    match r.below(6) {
        0 => {
            let k = r.below(coeffs.len());
            coeffs[k] = add(coeffs[k], rf_nonzero(r));
            what += "; final coefficient changed";
        }
        1 => {
            // agrees with the last oracle at one chosen position only
            let m = layers.last().unwrap().len();
            let x = r.below(m);
            let at = pow(root::<F>(m), x as u64);
            let mut p = rvec(r, coeffs.len());
            p[0] = add(p[0], sub(layers.last().unwrap()[x], horner(&p, at)));
            coeffs = p;
            what += "; final coefficients made for one position";
        }
        2 => {
            // agrees at both positions of one pair, with two coefficients at hand
            let l = layers.last().unwrap();
            let m = l.len();
            if coeffs.len() >= 2 {
                let x = r.below(m / 2);
                let at = pow(root::<F>(m), x as u64);
                let half = inv(int::<F>(2));
                coeffs = vec![F::zero(); coeffs.len()];
                coeffs[0] = mul(add(l[x], l[x + m / 2]), half);
                coeffs[1] = mul(mul(sub(l[x], l[x + m / 2]), half), inv(at));
                what += "; final coefficients made for one pair";
            }
        }
        _ => {}
    }
    (Claim { layers, coeffs, s: (s.d, s.lde, s.out) }, what)
}

fn sound<F: PrimeField>(c: &mut Case, name: &str, max: usize) -> Result<(), String> {
    let s = size::<F>(&mut c.rng, max);
    let n = s.d * s.lde;
    let (p, what) = claim::<F>(&mut c.rng, &s);
    c.desc(format!("{} {} coefficients at rate 1/{} to {}: {}", name, s.d, s.lde, s.out, what));
    force_cpus(1);
    let ch: Vec<F> = p.layers.iter().map(|l| digest_to_field(&merkle_levels(l).last().unwrap()[0])).collect();
    let low = {
        // is the committed word of the claimed degree
        degree(&interpolate_domain(&p.layers[0])).map(|d| d < s.d).unwrap_or(true)
    };
    let mut accepted = 0;
    let mut judged = 0;
    let lay = as_layers(&p);
    let at: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..64).map(|_| c.rng.below(n)).collect() };
    for k in at {
        let proof = lay.open(k);
        let mut expectations = vec![p.layers[0][k]];
        if c.rng.chance(1, 4) {
            expectations.push(add(p.layers[0][k], F::one()));
            expectations.push(p.layers[0][(k + n / 2) % n]);
            expectations.push(F::zero());
        }
        for e in expectations {
            let want = accepts(&p, &ch, k, e);
            let got = ob("verify_proof_queries", || Fri::<F>::verify_proof_queries(&proof, k, 2, e))?;
            let yes = matches!(got, Ok(true));
            if yes && !want {
                return Err(format!("position {} of {}: accepted, and must not be", k, n));
            }
            if !yes && want && k % 2 == 1 {
                return Err(format!("position {} of {}: not accepted, but the openings agree: {:?}", k, n, got.map_err(es)));
            }
            if k % 2 == 1 {
                judged += 1;
                if want {
                    accepted += 1;
                }
                c.count(if want { "positions that agree" } else { "positions that do not agree" }, 1);
            }
            c.count("verdicts", 1);
        }
        // at another position the same openings are not it
        for x in [k ^ 1, (k + 2) % n, (k + n / 2) % n, k + n, n] {
            let y = x % n;
            let e = p.layers[0][y];
            let pair = y % (n / 2) == k % (n / 2) && x < n;
            let want = pair && accepts(&p, &ch, y, e);
            let got = ob("verify_proof_queries", || Fri::<F>::verify_proof_queries(&proof, x, 2, e))?;
            if matches!(got, Ok(true)) && !want {
                return Err(format!("the openings at {} of {} are accepted at {}", k, n, x));
            }
            c.count("openings shown at other positions", 1);
        }
    }
    c.count(if low { "words of the claimed degree" } else { "words that are not of the claimed degree" }, 1);
    if judged > 0 && accepted > 0 && accepted < judged {
        c.count("words accepted at some positions only", 1);
    }
    Ok(())
}

/// Honest proofs in which one opening, path, root or number is changed.
fn changed<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let s = size::<F>(&mut c.rng, 64);
    let n = s.d * s.lde;
    let (poly, kind) = polynomial::<F>(&mut c.rng, s.d);
    c.desc(format!("{} changes to the proof of a polynomial {} of {} at rate 1/{} to {}", name, kind, s.d, s.lde, s.out));
    force_cpus(1);
    let w = worker_with_cpus(1);
    let word = eval_domain(&poly, n, F::one());
    let lde = Polynomial::<F, Values>::from_values(word.clone()).map_err(es)?;
    let proto: Proto<F> = ob("by values", || Fri::<F>::proof_from_lde_by_values(&lde, s.lde, s.out, &w))?.map_err(es)?;
    let k = c.rng.below(n / 2) * 2 + 1;
    let proof: FriPr<F> = clone_proto(&proto, &word).produce_proof(&lde, k).map_err(es)?;
    if !matches!(Fri::<F>::verify_proof_queries(&proof, k, 2, word[k]), Ok(true)) {
        c.trivial();
        return Ok(());
    }
    let base = fri_bytes(&proof);
    let mut rng = Rng::new(c.rng.u64());
    for (what, p) in crate::checks::tamper::fri_changes(&proof, &mut rng) {
        if fri_bytes(&p) == base {
            continue;
        }
        let got = ob(&what, || Fri::<F>::verify_proof_queries(&p, k, 2, word[k]))?;
        if matches!(got, Ok(true)) {
            return Err(format!("accepted after a change: {}", what));
        }
        c.count("changed FRI proofs", 1);
    }
    Ok(())
}

/// The check of a prototype: values that do not fold into each other.
fn prototypes<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let s = size::<F>(&mut c.rng, 64);
    let n = s.d * s.lde;
    let steps = log2(s.d / s.out);
    let (poly, kind) = polynomial::<F>(&mut c.rng, s.d);
    c.desc(format!("{} prototype of a polynomial {} of {} at rate 1/{} to {}", name, kind, s.d, s.lde, s.out));
    if steps == 0 {
        c.trivial();
        return Ok(());
    }
    force_cpus(1);
    let w = worker_with_cpus(1);
    let word = eval_domain(&poly, n, F::one());
    let lde = Polynomial::<F, Values>::from_values(word.clone()).map_err(es)?;
    let proto: Proto<F> = ob("by values", || Fri::<F>::proof_from_lde_by_values(&lde, s.lde, s.out, &w))?.map_err(es)?;
    // which one of the oracles is changed, where, and the positions that see it
    for _ in 0..8 {
        let k = c.rng.below(steps);
        let m = n >> k;
        let x = c.rng.below(m);
        let d = rf_nonzero::<F>(&mut c.rng);
        let mut p = clone_proto(&proto, &word);
        let mut leafs = lde.clone();
        if k == 0 {
            leafs.as_mut()[x].add_assign(&d);
        } else {
            p.intermediate_values[k - 1].as_mut()[x].add_assign(&d);
        }
        for at in (1..n).step_by(2) {
            let sees = at % (m / 2) == x % (m / 2);
            let got = ob("verify_prototype", || Fri::<F>::verify_prototype(&p, &leafs, at))?;
            // a changed value in one half of a pair may go unnoticed only where its effect on the
            // folding cancels out, which it cannot: (1 + c/x)/2 = 0 is a single challenge
            let ch = proto.challenges[k];
            let wx = pow(root::<F>(m), x as u64);
            let cancels = add(F::one(), mul(ch, inv(wx))).is_zero();
            let direct = k > 0 && at % m == x;
            let want = !(sees && (direct || !cancels));
            if matches!(got, Ok(true)) != want {
                return Err(format!("value {} of oracle {} changed: position {} of the prototype gives {:?}", x, k, at, got.map_err(es)));
            }
            c.count("verdicts on prototypes", 1);
        }
    }
    for k in 0..s.out {
        let mut p = clone_proto(&proto, &word);
        p.final_coefficients[k].add_assign(&rf_nonzero(&mut c.rng));
        for at in (1..n).step_by(2) {
            if matches!(ob("verify_prototype", || Fri::<F>::verify_prototype(&p, &lde, at))?, Ok(true)) {
                return Err(format!("final coefficient {} changed: position {} of the prototype accepts", k, at));
            }
            c.count("verdicts on prototypes", 1);
        }
    }
    Ok(())
}

pub fn run_sound(ctx: &mut Ctx) {
    for k in ["positions that agree", "positions that do not agree", "words that are not of the claimed degree", "words accepted at some positions only", "changed FRI proofs", "verdicts on prototypes", "openings shown at other positions"] {
        ctx.require(k);
    }
    let n = ctx.n(720, 14000);
    ctx.section("words", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, sound, c, f, 64)
    });
    let n = ctx.n(90, 1800);
    ctx.section("large-words", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, sound, c, f, 512)
    });
    let n = ctx.n(14, 280);
    ctx.section("huge-words", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, sound, c, f, 1 << 15)
    });
    let n = ctx.n(180, 3600);
    ctx.section("changes", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, changed, c, f)
    });
    let n = ctx.n(270, 3600);
    ctx.section("prototypes", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, prototypes, c, f)
    });
}
