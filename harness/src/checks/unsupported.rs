//! C30: statements outside of what the library supports are refused and never taken for weaker ones.

use crate::fields::*;
use crate::fw::*;
use crate::inst::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::air::*;
use hodor::arp::InstanceProperties;
use hodor::transcript::*;
use std::cell::RefCell;

// ------------------------------------------------------------------ a transcript that stands for another statement's

#[derive(Clone, Debug)]
enum Put {
    Bytes(Vec<u8>),
    Element(Vec<u64>),
}

thread_local! {
    /// what is absorbed at the start, and how many of the first events are dropped
    static DISGUISE: RefCell<(Vec<Put>, usize)> = RefCell::new((vec![], 0));
}

/// Writes down what a statement commits to.
#[derive(Clone)]
struct Notes<F: PrimeField> {
    put: Vec<Put>,
    _m: std::marker::PhantomData<F>,
}
impl<F: PrimeField> Transcript<F> for Notes<F> {
    fn new() -> Self {
        Notes { put: vec![], _m: std::marker::PhantomData }
    }
    fn commit_bytes(&mut self, b: &[u8]) {
        self.put.push(Put::Bytes(b.to_vec()))
    }
    fn commit_field_element(&mut self, e: &F) {
        self.put.push(Put::Element(to_limbs(e)))
    }
    fn get_challenge_bytes(&mut self) -> Vec<u8> {
        vec![]
    }
    fn get_challenge(&mut self) -> F {
        F::zero()
    }
}

/// What a statement commits to, with its steps as they are or (as prover and verifier have them) as shifts of the argument.
fn notes<F: PrimeField>(p: &InstanceProperties<F>, shifts: bool) -> Vec<Put> {
    let mut t = Notes::<F>::new();
    let mut p = p.clone();
    let omega: F = root(p.num_rows.next_power_of_two());
    for c in p.constraints.iter_mut().filter(|_| shifts) {
        for x in c.terms.iter_mut() {
            let fs: Vec<&mut UnivariateTerm<F>> = match x {
                ConstraintTerm::Univariate(f) => vec![f],
                ConstraintTerm::Polyvariate(q) => q.terms.iter_mut().collect(),
            };
            for f in fs {
                if let StepDifference::Steps(n) = f.steps_difference {
                    f.steps_difference = StepDifference::Mask(pow(omega, n as u64))
                }
            }
        }
    }
    p.commit_to_transcript(&mut t);
    t.put
}

/// The real transcript, except that the statement it starts with is the one that the proof is for.
#[derive(Clone)]
struct Disguised<F: PrimeField> {
    inner: B2s<F>,
    drop: usize,
}
impl<F: PrimeField> Transcript<F> for Disguised<F> {
    fn new() -> Self {
        let (put, drop) = DISGUISE.with(|d| d.borrow().clone());
        let mut inner = B2s::<F>::new();
        for p in &put {
            match p {
                Put::Bytes(b) => inner.commit_bytes(b),
                Put::Element(e) => inner.commit_field_element(&from_limbs(e).expect("an element")),
            }
        }
        Disguised { inner, drop }
    }
    fn commit_bytes(&mut self, b: &[u8]) {
        if self.drop > 0 {
            self.drop -= 1
        } else {
            self.inner.commit_bytes(b)
        }
    }
    fn commit_field_element(&mut self, e: &F) {
        if self.drop > 0 {
            self.drop -= 1
        } else {
            self.inner.commit_field_element(e)
        }
    }
    fn get_challenge_bytes(&mut self) -> Vec<u8> {
        self.inner.get_challenge_bytes()
    }
    fn get_challenge(&mut self) -> F {
        self.inner.get_challenge()
    }
}

// ------------------------------------------------------------------ statements that are not supported

const KINDS: [&str; 13] = [
    "repeated density",
    "sparse density",
    "kind of register in a term",
    "kind of register in a product",
    "kind of register in a boundary",
    "boundary without a value",
    "register of a term that is not there",
    "register of a boundary that is not there",
    "boundary beyond the domain",
    "boundary beyond the trace",
    "step beyond the trace",
    "step beyond the span",
    "fewer registers than used",
];

fn other_kind(r: &mut Rng, n: usize) -> Register {
    match r.below(3) {
        0 => Register::ProgramCounter(n),
        1 => Register::Constant(n),
        _ => Register::Aux(n),
    }
}

fn number(g: &Register) -> usize {
    match g {
        Register::ProgramCounter(n) | Register::Register(n) | Register::Constant(n) | Register::Aux(n) => *n,
    }
}

/// The statement that is not supported, and one that is and that it could be mistaken for (with a witness that
/// satisfies it): `weak` is `i.props()` unless the edit needs something else.
fn unsupported<F: PrimeField>(r: &mut Rng, kind: usize, i: &mut Inst<F>) -> Option<InstanceProperties<F>> {
    let rows = i.rows;
    let sup = i.rows_sup();
    match kind {
        11 => {
            // true of every row if the rows go round in a circle, and a value outside of the trace is needed to say it
            let (g, s) = (r.below(i.regs), 2);
            if rows != sup || rows < 4 {
                return None;
            }
            let v = rf::<F>(r);
            let w = &mut i.witness[g];
            w.iter_mut().for_each(|x| *x = v);
            i.cons.retain(|c| c.terms.iter().all(|t| t.factors().iter().all(|f| f.reg != g)));
            i.bounds.retain(|b| b.0 != g);
            let f = |step, coeff| Term::Uni(Factor { coeff, reg: g, step, power: 1 });
            i.cons.push(Con { constant: F::zero(), terms: vec![f(s, F::one()), f(0, neg(F::one()))], start: 0, span: s, style: r.u64() });
        }
        8 => {
            // wraps around to a row that has this value
            let (g, row) = (r.below(i.regs), r.below(rows));
            let v = i.witness[g][row];
            i.bounds.push((g, row, v));
        }
        9 => {
            if rows == sup {
                return None;
            }
        }
        4 | 5 | 7 => {
            if i.bounds.is_empty() {
                let (g, row) = (r.below(i.regs), r.below(rows));
                let v = i.witness[g][row];
                i.bounds.push((g, row, v));
            }
        }
        _ => {}
    }
    let mut p = i.props();
    let nc = p.constraints.len();
    let nb = p.boundary_constraints.len();
    let mut k = if nc > 0 { r.below(nc) } else { 0 };
    match kind {
        0 => {
            let con = &i.cons[k];
            let (a, b) = (con.start, con.span);
            p.constraints[k].density = ConstraintDensity::Repeated(RepeatedConstraint::new(a, b, r.range(2, 4)));
        }
        1 => {
            let rows: Vec<usize> = i.cons[k].enforced(rows).collect();
            p.constraints[k].density = ConstraintDensity::Sparse(SparseConstraint::new(rows));
        }
        2 | 3 | 6 => {
            // the factors of the wanted form
            let mut at = vec![];
            for (x, c) in p.constraints.iter().enumerate() {
                for (y, t) in c.terms.iter().enumerate() {
                    match t {
                        ConstraintTerm::Univariate(_) if kind != 3 => at.push((x, y, 0)),
                        ConstraintTerm::Polyvariate(q) if kind != 2 => (0..q.terms.len()).for_each(|z| at.push((x, y, z))),
                        _ => {}
                    }
                }
            }
            if at.is_empty() {
                return None;
            }
            let (x, y, z) = *r.pick(&at);
            k = x;
            let beyond = i.regs + r.below(3);
            let f = match &mut p.constraints[k].terms[y] {
                ConstraintTerm::Univariate(f) => f,
                ConstraintTerm::Polyvariate(q) => &mut q.terms[z],
            };
            f.register = if kind == 6 { Register::Register(beyond) } else { other_kind(r, number(&f.register)) };
        }
        4 => {
            let b = &mut p.boundary_constraints[r.below(nb)];
            b.register = other_kind(r, number(&b.register));
        }
        5 => p.boundary_constraints[r.below(nb)].value = None,
        7 => p.boundary_constraints[r.below(nb)].register = Register::Register(i.regs + r.below(3)),
        8 => p.boundary_constraints.last_mut()?.at_row += sup * r.range(1, 3),
        9 => {
            let row = r.range(rows, sup - 1);
            p.boundary_constraints.push(BoundaryConstraint { register: Register::Register(r.below(i.regs)), at_row: row, value: Some(F::zero()) });
        }
        11 => match &mut p.constraints.last_mut()?.density {
            ConstraintDensity::Dense(d) => d.span -= 1,
            _ => return None,
        },
        12 => {
            let last = i.regs - 1;
            if last == 0 || !i.cons.iter().any(|c| c.terms.iter().any(|t| t.factors().iter().any(|f| f.reg == last))) {
                return None;
            }
            p.num_registers = r.range(1, last);
        }
        _ => {
            let f = p.constraints.iter_mut().flat_map(|c| c.terms.iter_mut()).next()?;
            let f = match f {
                ConstraintTerm::Univariate(f) => f,
                ConstraintTerm::Polyvariate(q) => &mut q.terms[0],
            };
            if let StepDifference::Steps(s) = &mut f.steps_difference {
                *s += sup
            }
        }
    }
    Some(p)
}

fn tag(v: &Result<Result<bool, hodor::SynthesisError>, String>) -> &'static str {
    match v {
        Ok(Ok(true)) => "accepted",
        Ok(Ok(false)) => "rejected",
        Ok(Err(_)) => "refused",
        Err(_) => "panicked",
    }
}

fn one<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let kind = c.rng.below(KINDS.len());
    let mut i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(Shape { max_rows: 12, max_domain: 1 << 8, ..Shape::default() }));
    let r = &mut c.rng;
    let p = match unsupported(r, kind, &mut i) {
        Some(p) => p,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let cfg = pick_cfg::<F>(r, &i);
    c.desc(format!("{} {} {:?}", name, KINDS[kind], cfg));
    c.sig(&format!("{} {} {:?}", name, kind, p));

    hodor::verif_hooks::force_cpus(cfg.cpus);
    // with a prover of its own
    let own = observe(|| ProverOf::<F, B2s<F>>::new(p.clone(), cfg.lde, cfg.out)?.prove(i.witness.clone()));
    let own = match own {
        Ok(Ok(proof)) => {
            let v = observe(|| VerifierOf::<F, B2s<F>>::new(p.clone(), cfg.lde)?.verify(&proof));
            tag(&v)
        }
        Ok(Err(_)) => "prover refused",
        Err(_) => "prover panicked",
    };
    c.count("proofs asked for", 1);
    if own == "accepted" {
        return Err(format!("proven and accepted: {}", KINDS[kind]));
    }
    c.count(if own.starts_with("prover") { "refused by the prover" } else { "refused by the verifier only" }, 1);

    // with the proof of the supported statement, on a transcript that starts with that statement
    let proof = match observe(|| prove::<F, B2s<F>>(&i, &i.witness, &cfg)) {
        Ok(Ok(proof)) => proof,
        _ => return Ok(()),
    };
    let q = clone_proof::<F, B2s<F>, Disguised<F>>(&proof);
    let with = |p: &InstanceProperties<F>, shifts: bool| {
        let base = notes(&i.props(), shifts);
        let dropped = notes(p, shifts).len();
        DISGUISE.with(|d| *d.borrow_mut() = (base, dropped));
        observe(|| VerifierOf::<F, Disguised<F>>::new(p.clone(), cfg.lde)?.verify(&q))
    };
    let shifts = match [true, false].iter().find(|s| tag(&with(&i.props(), **s)) == "accepted") {
        Some(s) => *s,
        None => {
            // the stand-in does not hold for this verifier: nothing to see
            c.count("stand-ins that do not hold", 1);
            return Ok(());
        }
    };
    let v = with(&p, shifts);
    c.count("proofs of supported statements", 1);
    c.count(&format!("verifier: {}", tag(&v)), 1);
    c.count(&format!("kind: {}", KINDS[kind]), 1);
    if tag(&v) == "accepted" {
        return Err(format!("taken for a supported statement: {}", KINDS[kind]));
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    for k in ["proofs asked for", "refused by the prover", "proofs of supported statements"] {
        ctx.require(k);
    }
    for k in KINDS.iter() {
        ctx.require(&format!("kind: {}", k));
    }
    let n = ctx.n(1440, 28800);
    ctx.section("refused", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, one, c, f)
    });
}
