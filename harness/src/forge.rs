//! A prover of our own, that can follow the protocol or not.

use crate::fw::*;
use crate::inst::*;
use crate::model;
use crate::proto::*;
use crate::refmath::*;
use ff::PrimeField;
use hodor::fri::*;
use hodor::iop::*;
use hodor::transcript::Transcript;
use hodor::verifier::InstanceProof;

/// A FRI proof in the making: oracles as plain values.
#[derive(Clone)]
pub struct Layers<F: PrimeField> {
    pub layers: Vec<Vec<F>>,
    pub coeffs: Vec<F>,
    pub initial: usize,
    pub out: usize,
    pub lde: usize,
}

pub fn tree<F: PrimeField>(v: &[F]) -> Iop<F> {
    Iop::<F>::create(v)
}

/// Honest folding of any word; the final polynomial is cut to `out` coefficients unless `keep`.
pub fn fri_layers<F: PrimeField>(word: &[F], lde: usize, out: usize, keep: bool) -> Layers<F> {
    let initial = word.len() / lde;
    let mut layers = vec![word.to_vec()];
    let mut d = initial;
    while d > out && layers.last().unwrap().len() > 2 {
        let last = layers.last().unwrap();
        let c = digest_to_field::<F>(&merkle_root(last));
        layers.push(model::fold(last, c));
        d /= 2;
    }
    let mut coeffs = interpolate_domain(layers.last().unwrap());
    if !keep {
        coeffs.truncate(out);
    }
    Layers { layers, coeffs, initial, out, lde }
}

pub fn merkle_root<F: PrimeField>(v: &[F]) -> [u8; 32] {
    tree(v).get_root()
}

pub fn constant_layers<F: PrimeField>(c: F, size: usize, lde: usize, out: usize) -> Layers<F> {
    fri_layers(&vec![c; size], lde, out, false)
}

impl<F: PrimeField> Layers<F> {
    pub fn roots(&self) -> Vec<[u8; 32]> {
        self.layers.iter().map(|l| merkle_root(l)).collect()
    }
    pub fn open(&self, index: usize) -> FriPr<F> {
        let mut queries = vec![];
        let mut idx = index;
        for l in &self.layers {
            let n = l.len();
            let t = tree(l);
            idx %= n;
            let mut pair = [idx, (idx + n / 2) % n];
            pair.sort();
            for k in pair.iter() {
                queries.push(t.query(*k, l));
            }
            idx %= (n / 2).max(1);
        }
        FRIProof {
            queries,
            roots: self.roots(),
            final_coefficients: self.coeffs.clone(),
            initial_degree_plus_one: self.initial,
            output_coeffs_at_degree_plus_one: self.out,
            lde_factor: self.lde,
        }
    }
}

/// Everything that a proof is made of, before it is opened.
#[derive(Clone)]
pub struct Parts<F: PrimeField> {
    pub f: Vec<Vec<F>>,
    pub g: Vec<F>,
    pub y: Vec<F>,
    pub h1: Layers<F>,
    pub h2: Layers<F>,
    /// what is claimed to be the roots, when it is not what the FRI proof has
    pub h1_roots: Option<Vec<[u8; 32]>>,
    pub h2_roots: Option<Vec<[u8; 32]>>,
}

impl<F: PrimeField> Parts<F> {
    pub fn assemble<T: Transcript<F>>(&self, x1: usize, x2: usize) -> ProofOf<F, T> {
        let fri1 = self.h1.open(x1);
        let fri2 = self.h2.open(x2);
        InstanceProof {
            f_at_z_m: self.y.clone(),
            f_iop_roots: self.f.iter().map(|v| merkle_root(v)).collect(),
            g_iop_root: merkle_root(&self.g),
            f_queries: self.f.iter().map(|v| tree(v).query(x1, v)).collect(),
            g_query: tree(&self.g).query(x2, &self.g),
            h1_iop_roots: self.h1_roots.clone().unwrap_or(fri1.roots.clone()),
            h2_iop_roots: self.h2_roots.clone().unwrap_or(fri2.roots.clone()),
            fri_proof_h1: fri1,
            fri_proof_h2: fri2,
            _marker_a: std::marker::PhantomData,
            _marker_t: std::marker::PhantomData,
            _marker_p: std::marker::PhantomData,
            _marker_fri: std::marker::PhantomData,
        }
    }
}

/// The challenges that the verifier draws when it looks at a proof.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen<F: PrimeField> {
    pub pairs: Vec<(F, F)>,
    pub z: F,
    pub alphas: Vec<F>,
    pub bytes: Vec<Vec<u8>>,
}

pub fn seen_from_log<F: PrimeField>(i: &Inst<F>, log: &[Ev]) -> Option<Seen<F>> {
    let ch: Vec<F> = log
        .iter()
        .filter_map(|e| match e {
            Ev::Challenge(l) => from_limbs(l),
            _ => None,
        })
        .collect();
    let bytes: Vec<Vec<u8>> = log
        .iter()
        .filter_map(|e| match e {
            Ev::ChallengeBytes(b) => Some(b.clone()),
            _ => None,
        })
        .collect();
    let pairs = i.cons.len() + i.bounds.len();
    let m = i.masks();
    if ch.len() != 2 * pairs + 1 + m {
        return None;
    }
    Some(Seen {
        pairs: (0..pairs).map(|k| (ch[2 * k], ch[2 * k + 1])).collect(),
        z: ch[2 * pairs],
        alphas: ch[2 * pairs + 1..].to_vec(),
        bytes,
    })
}

pub fn probe<F: PrimeField>(i: &Inst<F>, cfg: &Cfg, parts: &Parts<F>) -> Option<Seen<F>> {
    let p: ProofOf<F, Recording<F>> = parts.assemble(1, 1);
    take_log();
    let _ = verify(i, cfg, &p);
    seen_from_log(i, &take_log())
}

pub type Index<F> = VerifierOf<F, B2s<F>>;

/// The positions that the transcript of the protocol gives for `q`, which differs from `p` in nothing
/// that comes before the two FRI proofs; nothing that the verifier itself does with these is relied on.
pub fn positions_by_protocol<F: PrimeField>(i: &Inst<F>, cfg: &Cfg, p: &Parts<F>, q: &Parts<F>) -> (usize, usize) {
    let proof: ProofOf<F, Recording<F>> = p.assemble(1, 1);
    take_log();
    let _ = verify(i, cfg, &proof);
    let log = take_log();
    let end = log.iter().rposition(|e| matches!(e, Ev::Challenge(_))).map_or(0, |k| k + 1);
    let mut t = B2s::<F>::new();
    for e in &log[..end] {
        match e {
            Ev::Bytes(b) => t.commit_bytes(b),
            Ev::Element(l) => t.commit_field_element(&from_limbs(l).expect("an element")),
            Ev::Challenge(_) => {
                t.get_challenge();
            }
            Ev::ChallengeBytes(_) => {
                t.get_challenge_bytes();
            }
        }
    }
    for (l, roots) in [(&q.h1, &q.h1_roots), (&q.h2, &q.h2_roots)] {
        let roots = roots.clone().unwrap_or(l.roots());
        t.commit_bytes(roots.last().expect("a root"));
        for x in &l.coeffs {
            t.commit_field_element(x);
        }
    }
    let s: Vec<Vec<u8>> = (0..2).map(|_| t.get_challenge_bytes()).collect();
    (Index::<F>::bytes_to_challenge_index(&s[0], size_h1(i, cfg), cfg.lde), Index::<F>::bytes_to_challenge_index(&s[1], size_h2(i, cfg), cfg.lde))
}

pub fn positions<F: PrimeField>(i: &Inst<F>, cfg: &Cfg, s: &Seen<F>) -> Option<(usize, usize)> {
    if s.bytes.len() != 2 {
        return None;
    }
    let (a, b) = (size_h1(i, cfg), size_h2(i, cfg));
    Some((Index::<F>::bytes_to_challenge_index(&s.bytes[0], a, cfg.lde), Index::<F>::bytes_to_challenge_index(&s.bytes[1], b, cfg.lde)))
}

pub fn size_h1<F: PrimeField>(i: &Inst<F>, cfg: &Cfg) -> usize {
    i.rows_sup() * cfg.lde
}
pub fn size_h2<F: PrimeField>(i: &Inst<F>, cfg: &Cfg) -> usize {
    i.rows_sup() * i.max_degree().next_power_of_two() as usize * cfg.lde
}

pub fn values_on<F: PrimeField>(c: &[F], n: usize) -> Vec<F> {
    let c: Vec<F> = c.to_vec();
    eval_domain(&c, n, F::one())
}

/// Claimed values of the given columns at z.
pub fn claims<F: PrimeField>(i: &Inst<F>, cols: &[Vec<F>], z: F) -> Vec<F> {
    let w = root::<F>(i.rows_sup());
    model::masks(i).iter().map(|(r, s)| horner(&cols[*r], mul(z, pow(w, *s as u64)))).collect()
}

pub fn h1_word<F: PrimeField>(i: &Inst<F>, f: &[Vec<F>], y: &[F], z: F, alphas: &[F]) -> Vec<F> {
    let n = f[0].len();
    let step = root::<F>(n);
    let w = root::<F>(i.rows_sup());
    let m = model::masks(i);
    let mut x = F::one();
    let mut out = vec![];
    for k in 0..n {
        let mut v = F::zero();
        for (j, (r, s)) in m.iter().enumerate() {
            let d = sub(x, mul(z, pow(w, *s as u64)));
            v = add(v, mul(alphas[j], mul(sub(f[*r][k], y[j]), d.inverse().unwrap_or(F::zero()))));
        }
        out.push(v);
        x.mul_assign(&step);
    }
    out
}

pub fn h2_word<F: PrimeField>(g: &[F], g_at_z: F, z: F) -> Vec<F> {
    let step = root::<F>(g.len());
    let mut x = F::one();
    g.iter()
        .map(|v| {
            let r = mul(sub(*v, g_at_z), sub(x, z).inverse().unwrap_or(F::zero()));
            x.mul_assign(&step);
            r
        })
        .collect()
}

pub fn g_of_claims<F: PrimeField>(i: &Inst<F>, y: &[F], z: F, pairs: &[(F, F)]) -> Option<F> {
    let m = model::masks(i);
    let val = |r: usize, s: usize| y[m.iter().position(|k| *k == (r, s)).expect("a mask")];
    model::g_at(i, z, &val, pairs)
}

/// A first draft: given columns and G, claims and FRI oracles are zero.
pub fn draft<F: PrimeField>(i: &Inst<F>, cfg: &Cfg, cols: &[Vec<F>], g: &[F]) -> Parts<F> {
    let f = cols.iter().map(|c| values_on(c, size_h1(i, cfg))).collect();
    Parts {
        f,
        g: values_on(g, size_h2(i, cfg)),
        y: vec![F::zero(); i.masks()],
        h1: constant_layers(F::zero(), size_h1(i, cfg), cfg.lde, cfg.out),
        h2: constant_layers(F::zero(), size_h2(i, cfg), cfg.lde, cfg.out),
        h1_roots: None,
        h2_roots: None,
    }
}

/// Follows the protocol with the given columns; the control of every attack.
pub fn honest_parts<F: PrimeField>(i: &Inst<F>, cfg: &Cfg, cols: &[Vec<F>]) -> Option<(Parts<F>, usize, usize)> {
    let mut p = draft(i, cfg, cols, &[F::zero()]);
    let s = probe(i, cfg, &p)?;
    let gsize = i.rows_sup() * i.max_degree().next_power_of_two() as usize;
    let g = model::g_poly(i, cols, &s.pairs, gsize);
    p.g = values_on(&g, size_h2(i, cfg));
    let s = probe(i, cfg, &p)?;
    p.y = claims(i, cols, s.z);
    for _ in 0..p.y.len() {
        // every claim is bound before the challenge that follows it
        let s = probe(i, cfg, &p)?;
        p.h1 = fri_layers(&h1_word(i, &p.f, &p.y, s.z, &s.alphas), cfg.lde, cfg.out, false);
        break;
    }
    let s = probe(i, cfg, &p)?;
    p.h2 = fri_layers(&h2_word(&p.g, horner(&g, s.z), s.z), cfg.lde, cfg.out, false);
    let s = probe(i, cfg, &p)?;
    let (a, b) = positions(i, cfg, &s)?;
    Some((p, a, b))
}

/// Random instance with linear constraints, at least two registers and a boundary: what follows from
/// changing one value is affine then, so that attacks can solve for what they need.
pub fn linear_instance<F: PrimeField>(r: &mut Rng) -> Inst<F> {
    loop {
        let s = shape_for::<F>(Shape { max_regs: 3, min_rows: 3, max_rows: 9, max_degree: 1, max_domain: 64, max_cons: 4 });
        let mut i: Inst<F> = generate(r, &s);
        if i.regs < 2 {
            continue;
        }
        for g in 0..i.regs {
            if r.chance(2, 3) || i.bounds.is_empty() {
                let row = r.below(i.rows);
                let v = i.witness[g][row];
                i.bounds.push((g, row, v));
            }
        }
        let m = model::masks(&i);
        if m.iter().filter(|(_, s)| *s == 0).count() >= 2 {
            return i;
        }
    }
}

/// t with a + t * b = 0, when `at` is affine.
pub fn solve<F: PrimeField>(at: &dyn Fn(F) -> Option<F>) -> Option<F> {
    let a = at(F::zero())?;
    let b = sub(at(F::one())?, a);
    let t = neg(mul(a, b.inverse()?));
    if at(t)?.is_zero() {
        Some(t)
    } else {
        None
    }
}
