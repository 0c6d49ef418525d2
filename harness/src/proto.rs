//! The pipeline under observation, and transcripts that record or dictate what happens on it.

use crate::fw::*;
use crate::inst::*;
use ff::PrimeField;
use hodor::arp::PerRegisterARP;
use hodor::fri::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::*;
use hodor::prover::Prover;
use hodor::transcript::*;
use hodor::verifier::*;
use hodor::SynthesisError;
use std::cell::RefCell;

pub type Iop<F> = TrivialBlake2sIOP<F>;
pub type Proto<F> = FRIProofPrototype<F, Iop<F>>;
pub type FriPr<F> = FRIProof<F, Iop<F>>;
pub type Fri<F> = NaiveFriIop<F, Iop<F>>;
pub type ProverOf<F, T> = Prover<F, T, Iop<F>, Proto<F>, FriPr<F>, Fri<F>, PerRegisterARP>;
pub type VerifierOf<F, T> = Verifier<F, T, Iop<F>, Proto<F>, FriPr<F>, Fri<F>, PerRegisterARP>;
pub type ProofOf<F, T> = InstanceProof<F, T, Iop<F>, Proto<F>, FriPr<F>, Fri<F>, PerRegisterARP>;
pub type B2s<F> = Blake2sTranscript<F>;
pub type Query<F> = TrivialBlake2sIopQuery<F>;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub cpus: usize,
    pub lde: usize,
    pub out: usize,
}

/// The recorded defect of the multi-coset extension (known finding of C10) shows exactly when one
/// thread is given several cosets while there are several threads.
pub fn lde_defective(cpus: usize, factor: usize) -> bool {
    cpus > 1 && factor > 1 && factor / cpus.min(factor) > 1
}

pub fn pick_cfg<F: PrimeField>(r: &mut Rng, i: &Inst<F>) -> Cfg {
    let size = i.rows_sup() * (i.max_degree().next_power_of_two() as usize);
    let cofactor = i.max_degree().next_power_of_two() as usize;
    loop {
        let cpus = *r.pick(&[1usize, 1, 2, 3, 4, 5, 7, 8]);
        let cpus = if r.chance(1, 12) { r.range(9, 40) } else { cpus };
        let lde = *r.pick(&[2usize, 4, 4, 8, 16]);
        let lde = if size <= 64 && r.chance(1, 10) { *r.pick(&[32usize, 64]) } else { lde };
        if crate::refmath::log2(lde * size) > F::S as usize {
            continue;
        }
        if lde_defective(cpus, lde) || lde_defective(cpus, cofactor) {
            continue;
        }
        let mut out = 1;
        if r.chance(1, 2) {
            out = 1 << r.below(crate::refmath::log2(i.rows_sup()) + 1);
        }
        return Cfg { cpus, lde, out };
    }
}

/// The shape that fits the two-adicity of the field at a rate of 1/2 at least.
pub fn shape_for<F: PrimeField>(base: Shape) -> Shape {
    let mut s = base;
    let cap = if F::S > 20 { 1 << 20 } else { 1usize << (F::S - 1) };
    s.max_domain = s.max_domain.min(cap);
    s
}

pub fn err_str(e: SynthesisError) -> String {
    format!("{}", e)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept,
    Reject,
    Error(String),
    Panic(String),
}

pub fn prove<F: PrimeField, T: Transcript<F>>(i: &Inst<F>, w: &[Vec<F>], cfg: &Cfg) -> Result<ProofOf<F, T>, String> {
    hodor::verif_hooks::force_cpus(cfg.cpus);
    let p = ProverOf::<F, T>::new(i.props(), cfg.lde, cfg.out).map_err(|e| format!("Prover::new: {}", err_str(e)))?;
    p.prove(w.to_vec()).map_err(|e| format!("prove: {}", err_str(e)))
}

pub fn verify<F: PrimeField, T: Transcript<F>>(i: &Inst<F>, cfg: &Cfg, p: &ProofOf<F, T>) -> Verdict {
    hodor::verif_hooks::force_cpus(cfg.cpus);
    match observe(|| {
        let v = VerifierOf::<F, T>::new(i.props(), cfg.lde)?;
        v.verify(p)
    }) {
        Ok(Ok(true)) => Verdict::Accept,
        Ok(Ok(false)) => Verdict::Reject,
        Ok(Err(e)) => Verdict::Error(err_str(e)),
        Err(p) => Verdict::Panic(p),
    }
}

pub fn clone_fri<F: PrimeField>(p: &FriPr<F>) -> FriPr<F> {
    FRIProof {
        queries: p.queries.clone(),
        roots: p.roots.clone(),
        final_coefficients: p.final_coefficients.clone(),
        initial_degree_plus_one: p.initial_degree_plus_one,
        output_coeffs_at_degree_plus_one: p.output_coeffs_at_degree_plus_one,
        lde_factor: p.lde_factor,
    }
}

pub fn clone_proof<F: PrimeField, T: Transcript<F>, U: Transcript<F>>(p: &ProofOf<F, T>) -> ProofOf<F, U> {
    InstanceProof {
        f_at_z_m: p.f_at_z_m.clone(),
        f_iop_roots: p.f_iop_roots.clone(),
        g_iop_root: p.g_iop_root,
        f_queries: p.f_queries.clone(),
        g_query: p.g_query.clone(),
        h1_iop_roots: p.h1_iop_roots.clone(),
        h2_iop_roots: p.h2_iop_roots.clone(),
        fri_proof_h1: clone_fri(&p.fri_proof_h1),
        fri_proof_h2: clone_fri(&p.fri_proof_h2),
        _marker_a: std::marker::PhantomData,
        _marker_t: std::marker::PhantomData,
        _marker_p: std::marker::PhantomData,
        _marker_fri: std::marker::PhantomData,
    }
}

fn put_query<F: PrimeField>(o: &mut Vec<u8>, q: &Query<F>) {
    o.extend_from_slice(&(q.natural_index() as u64).to_le_bytes());
    o.extend_from_slice(&(q.tree_index() as u64).to_le_bytes());
    put_el(o, &q.value());
    o.extend_from_slice(&(q.path().len() as u64).to_le_bytes());
    for p in q.path() {
        o.extend_from_slice(p);
    }
}
fn put_el<F: PrimeField>(o: &mut Vec<u8>, e: &F) {
    for l in e.into_repr().as_ref() {
        o.extend_from_slice(&l.to_le_bytes());
    }
}
fn put_roots(o: &mut Vec<u8>, r: &[[u8; 32]]) {
    o.extend_from_slice(&(r.len() as u64).to_le_bytes());
    for x in r {
        o.extend_from_slice(x);
    }
}
pub fn fri_bytes<F: PrimeField>(p: &FriPr<F>) -> Vec<u8> {
    let mut o = vec![];
    put_roots(&mut o, &p.roots);
    for q in &p.queries {
        put_query(&mut o, q);
    }
    for c in &p.final_coefficients {
        put_el(&mut o, c);
    }
    for n in [p.initial_degree_plus_one, p.output_coeffs_at_degree_plus_one, p.lde_factor] {
        o.extend_from_slice(&(n as u64).to_le_bytes());
    }
    o
}

/// Everything that a proof says, to compare two of them.
pub fn proof_bytes<F: PrimeField, T: Transcript<F>>(p: &ProofOf<F, T>) -> Vec<u8> {
    let mut o = vec![];
    for e in &p.f_at_z_m {
        put_el(&mut o, e);
    }
    put_roots(&mut o, &p.f_iop_roots);
    put_roots(&mut o, &[p.g_iop_root]);
    for q in &p.f_queries {
        put_query(&mut o, q);
    }
    put_query(&mut o, &p.g_query);
    put_roots(&mut o, &p.h1_iop_roots);
    put_roots(&mut o, &p.h2_iop_roots);
    o.extend(fri_bytes(&p.fri_proof_h1));
    o.extend(fri_bytes(&p.fri_proof_h2));
    o
}

// ------------------------------------------------------------------ recording transcript

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Bytes(Vec<u8>),
    Element(Vec<u64>),
    /// a challenge that was handed out
    ChallengeBytes(Vec<u8>),
    Challenge(Vec<u64>),
}

thread_local! {
    static LOG: RefCell<Vec<Ev>> = RefCell::new(vec![]);
}

pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}

/// The real transcript, with every event on it recorded by the thread that uses it.
#[derive(Clone)]
pub struct Recording<F: PrimeField> {
    inner: Blake2sTranscript<F>,
}

impl<F: PrimeField> Transcript<F> for Recording<F> {
    fn new() -> Self {
        Recording { inner: Blake2sTranscript::new() }
    }
    fn commit_bytes(&mut self, bytes: &[u8]) {
        log(Ev::Bytes(bytes.to_vec()));
        self.inner.commit_bytes(bytes)
    }
    fn commit_field_element(&mut self, e: &F) {
        log(Ev::Element(crate::refmath::to_limbs(e)));
        self.inner.commit_field_element(e)
    }
    fn get_challenge_bytes(&mut self) -> Vec<u8> {
        let b = self.inner.get_challenge_bytes();
        log(Ev::ChallengeBytes(b.clone()));
        b
    }
    fn get_challenge(&mut self) -> F {
        let c: F = self.inner.get_challenge();
        log(Ev::Challenge(crate::refmath::to_limbs(&c)));
        c
    }
}

// ------------------------------------------------------------------ scripted transcript

#[derive(Clone, Default)]
pub struct Script {
    /// field challenges in the order in which they are drawn; drawn from a generator when they run out
    pub challenges: Vec<Vec<u64>>,
    pub bytes: Vec<Vec<u8>>,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
}

pub fn set_script(s: Script) {
    SCRIPT.with(|x| *x.borrow_mut() = s);
}

/// Challenges do not depend on what is committed: the harness is the verifier's coins.
#[derive(Clone)]
pub struct Scripted<F: PrimeField> {
    at: usize,
    at_bytes: usize,
    _m: std::marker::PhantomData<F>,
}

impl<F: PrimeField> Transcript<F> for Scripted<F> {
    fn new() -> Self {
        Scripted { at: 0, at_bytes: 0, _m: std::marker::PhantomData }
    }
    fn commit_bytes(&mut self, bytes: &[u8]) {
        log(Ev::Bytes(bytes.to_vec()));
    }
    fn commit_field_element(&mut self, e: &F) {
        log(Ev::Element(crate::refmath::to_limbs(e)));
    }
    fn get_challenge_bytes(&mut self) -> Vec<u8> {
        let k = self.at_bytes;
        self.at_bytes += 1;
        let b = SCRIPT.with(|s| s.borrow().bytes.get(k).cloned());
        let b = b.unwrap_or_else(|| Rng::new(0xb0 + k as u64).bytes(32));
        log(Ev::ChallengeBytes(b.clone()));
        b
    }
    fn get_challenge(&mut self) -> F {
        let k = self.at;
        self.at += 1;
        let c = SCRIPT.with(|s| s.borrow().challenges.get(k).cloned());
        let c: F = match c {
            Some(l) => crate::refmath::from_limbs(&l).expect("a scripted element"),
            None => crate::refmath::rf(&mut Rng::new(0xc0 + k as u64)),
        };
        log(Ev::Challenge(crate::refmath::to_limbs(&c)));
        c
    }
}
