//! C06: one transcript for prover and verifier, and challenges that depend on what comes before them.

use crate::checks::complete::small;
use crate::fields::*;
use crate::fw::*;
use crate::inst::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::air::*;
use hodor::arp::InstanceProperties;
use hodor::transcript::Transcript;

type R<F> = Recording<F>;
type Pr<F> = ProofOf<F, R<F>>;

/// Challenges in the order in which they are drawn, field elements and bytes alike.
fn drawn(log: &[Ev]) -> Vec<Ev> {
    log.iter().filter(|e| matches!(e, Ev::Challenge(_) | Ev::ChallengeBytes(_))).cloned().collect()
}

fn seen<F: PrimeField>(i: &Inst<F>, cfg: &Cfg, p: &Pr<F>) -> (Verdict, Vec<Ev>) {
    take_log();
    let v = verify(i, cfg, p);
    (v, take_log())
}

fn flip(d: &mut [u8; 32], r: &mut Rng) {
    let b = r.below(256);
    d[b / 8] ^= 1 << (b % 8);
}

fn bump<F: PrimeField>(r: &mut Rng, v: &mut F) {
    let old = *v;
    while *v == old {
        match r.below(3) {
            0 => v.add_assign(&F::one()),
            1 => v.negate(),
            _ => *v = rf(r),
        }
    }
}

/// From `at` on every challenge differs from the one of the original.
fn differ(base: &[Ev], got: &[Ev], at: usize, what: &str, c: &mut Case) -> Result<(), String> {
    if got.len() <= at {
        // the verifier had seen enough
        c.count("stopped before the challenge in question", 1);
        return Ok(());
    }
    for k in at..got.len().min(base.len()) {
        if got[k] == base[k] {
            return Err(format!("challenge {} of {} does not depend on {}", k, base.len(), what));
        }
        c.count("challenges that changed", 1);
    }
    Ok(())
}

fn one<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let s = Shape { max_regs: 4, min_rows: 2, max_rows: 20, max_degree: 4, max_domain: 256, max_cons: 5 };
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(s));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));

    // of a true statement, and of a false one
    for honest in [true, false] {
        let w = if honest {
            i.witness.clone()
        } else {
            match break_witness(&mut c.rng, &i) {
                Some((w, _)) => w,
                None => continue,
            }
        };
        take_log();
        let proof: Pr<F> = match observe(|| prove::<F, R<F>>(&i, &w, &cfg)) {
            Ok(Ok(p)) => p,
            _ => {
                if honest {
                    c.trivial();
                    return Ok(());
                }
                continue;
            }
        };
        let prover = take_log();
        let (v, verifier) = seen(&i, &cfg, &proof);
        if honest && v != Verdict::Accept {
            // not for this check to judge
            c.count("honest proofs that were not accepted", 1);
        }
        if verifier.len() > prover.len() || prover[..verifier.len()] != verifier[..] {
            let k = (0..verifier.len()).find(|k| prover.get(*k) != verifier.get(*k)).unwrap();
            return Err(format!("event {} of the transcript is {:?} to the prover and {:?} to the verifier", k, prover.get(k), verifier[k]));
        }
        if verifier.len() != prover.len() {
            return Err(format!("the verifier saw {} of {} events", verifier.len(), prover.len()));
        }
        c.count("transcripts compared", 1);
        c.count("events compared", prover.len() as u64);
        if !honest {
            continue;
        }

        let base = drawn(&prover);
        let pairs = i.cons.len() + i.bounds.len();
        let z = 2 * pairs;
        let m = proof.f_at_z_m.len();
        if base.len() != z + 1 + m + 2 || m != i.masks() {
            return Err(format!("{} challenges are drawn for {} constraints and boundaries and {} claims", base.len(), pairs, i.masks()));
        }
        if !small::<F>() {
            for a in 0..base.len() {
                for b in 0..a {
                    if base[a] == base[b] {
                        return Err(format!("challenges {} and {} are the same", b, a));
                    }
                }
            }
        }
        // in a small field equal challenges come about by chance: there nothing can be said
        if small::<F>() {
            return Ok(());
        }

        let last = z + 1 + m;
        let mut rng = Rng::new(c.rng.u64());
        let r = &mut rng;
        macro_rules! change {
            ($what:expr, $at:expr, |$p:ident| $b:block) => {{
                let mut $p: Pr<F> = clone_proof(&proof);
                $b;
                let (_, log) = seen(&i, &cfg, &$p);
                differ(&base, &drawn(&log), $at, &$what, c)?;
            }};
        }
        for k in 0..proof.f_iop_roots.len() {
            change!(format!("the root of register {}", k), 0, |p| { flip(&mut p.f_iop_roots[k], r) });
            if k > 0 && proof.f_iop_roots[k] != proof.f_iop_roots[k - 1] {
                change!(format!("the order of the roots of registers {} and {}", k - 1, k), 0, |p| { p.f_iop_roots.swap(k - 1, k) });
            }
        }
        change!("the root of G", z, |p| { flip(&mut p.g_iop_root, r) });
        for k in 0..m {
            change!(format!("claim {}", k), z + 1 + k, |p| { bump(r, &mut p.f_at_z_m[k]) });
            if k > 0 && proof.f_at_z_m[k] != proof.f_at_z_m[k - 1] {
                change!(format!("the order of claims {} and {}", k - 1, k), z + k, |p| { p.f_at_z_m.swap(k - 1, k) });
            }
        }
        change!("the last root of H1", last, |p| {
            let k = p.h1_iop_roots.len() - 1;
            flip(&mut p.h1_iop_roots[k], r);
            p.fri_proof_h1.roots = p.h1_iop_roots.clone()
        });
        change!("the last root of H2", last, |p| {
            let k = p.h2_iop_roots.len() - 1;
            flip(&mut p.h2_iop_roots[k], r);
            p.fri_proof_h2.roots = p.h2_iop_roots.clone()
        });
        for k in 0..proof.fri_proof_h1.final_coefficients.len() {
            change!(format!("final coefficient {} of H1", k), last, |p| { bump(r, &mut p.fri_proof_h1.final_coefficients[k]) });
        }
        for k in 0..proof.fri_proof_h2.final_coefficients.len() {
            change!(format!("final coefficient {} of H2", k), last, |p| { bump(r, &mut p.fri_proof_h2.final_coefficients[k]) });
        }
        // the statement
        for _ in 0..6 {
            if let Some((j, what)) = break_statement(r, &i) {
                let same_shape = j.cons.len() == i.cons.len() && j.bounds.len() == i.bounds.len();
                let (_, log) = seen(&j, &cfg, &proof);
                let got = drawn(&log);
                let n = if same_shape { got.len() } else { got.len().min(2 * pairs) };
                differ(&base, &got[..n], 0, &format!("the statement ({})", what), c)?;
                c.count("statements exchanged", 1);
            }
        }
        statement(c, &i, &cfg, &proof, &base)?;
    }
    Ok(())
}

/// Every single number in a statement.
fn statement<F: PrimeField>(c: &mut Case, i: &Inst<F>, cfg: &Cfg, proof: &Pr<F>, base: &[Ev]) -> Result<(), String> {
    let mut list: Vec<(String, Inst<F>)> = vec![];
    macro_rules! st {
        ($what:expr, |$j:ident| $b:block) => {{
            let mut $j = i.clone();
            $b;
            list.push(($what, $j));
        }};
    }
    let r = &mut c.rng;
    if (i.rows + 1).next_power_of_two() == i.rows_sup() {
        st!("number of rows".to_string(), |j| { j.rows += 1 });
    }
    for k in 0..i.bounds.len() {
        st!(format!("value of boundary {}", k), |j| { bump(r, &mut j.bounds[k].2) });
        if i.bounds[k].1 + 1 < i.rows {
            st!(format!("row of boundary {}", k), |j| { j.bounds[k].1 += 1 });
        }
        if i.regs > 1 {
            st!(format!("register of boundary {}", k), |j| { j.bounds[k].0 = (j.bounds[k].0 + 1) % j.regs });
        }
    }
    for k in 0..i.cons.len() {
        st!(format!("constant of constraint {}", k), |j| { bump(r, &mut j.cons[k].constant) });
        if i.cons[k].start + i.cons[k].span + 1 < i.rows {
            st!(format!("start of constraint {}", k), |j| { j.cons[k].start += 1 });
            st!(format!("span of constraint {}", k), |j| { j.cons[k].span += 1 });
        }
        for t in 0..i.cons[k].terms.len() {
            st!(format!("coefficient of term {} of constraint {}", t, k), |j| {
                match &mut j.cons[k].terms[t] {
                    Term::Uni(f) => bump(r, &mut f.coeff),
                    Term::Poly(x, _) => bump(r, x),
                }
            });
            st!(format!("coefficient, in term {} of constraint {}, of its last factor", t, k), |j| {
                match &mut j.cons[k].terms[t] {
                    Term::Uni(f) => bump(r, &mut f.coeff),
                    Term::Poly(_, fs) => {
                        let l = fs.len() - 1;
                        bump(r, &mut fs[l].coeff)
                    }
                }
            });
            if i.regs > 1 {
                st!(format!("register in term {} of constraint {}", t, k), |j| {
                    let n = j.regs;
                    match &mut j.cons[k].terms[t] {
                        Term::Uni(f) => f.reg = (f.reg + 1) % n,
                        Term::Poly(_, fs) => {
                            let l = r.below(fs.len());
                            fs[l].reg = (fs[l].reg + 1) % n
                        }
                    }
                });
            }
            st!(format!("step in term {} of constraint {}", t, k), |j| {
                let span = j.cons[k].span;
                match &mut j.cons[k].terms[t] {
                    Term::Uni(f) => f.step = (f.step + 1) % (span + 1),
                    Term::Poly(_, fs) => {
                        let l = r.below(fs.len());
                        fs[l].step = (fs[l].step + 1) % (span + 1)
                    }
                }
            });
        }
    }
    for (what, j) in list {
        // a change may have been none: literally the same, or the same sum in another order
        if same_statement(i, &j) {
            continue;
        }
        let (_, log) = seen(&j, cfg, proof);
        let got = drawn(&log);
        differ(base, &got, 0, &format!("the statement: {}", what), c)?;
        c.count("numbers of statements changed", 1);
    }
    Ok(())
}

fn same_statement<F: PrimeField>(a: &Inst<F>, b: &Inst<F>) -> bool {
    let (p, q) = (a.props(), b.props());
    p.num_rows == q.num_rows
        && p.num_registers == q.num_registers
        && p.constraints == q.constraints
        && p.boundary_constraints.len() == q.boundary_constraints.len()
        && a.bounds == b.bounds
}

fn some_factor<F: PrimeField>(r: &mut Rng) -> UnivariateTerm<F> {
    let n = r.below(3);
    UnivariateTerm {
        coeff: int::<F>(r.below(3) as u64),
        register: match r.below(6) {
            0 => Register::ProgramCounter(n),
            1 => Register::Constant(n),
            2 => Register::Aux(n),
            _ => Register::Register(n),
        },
        steps_difference: if r.chance(1, 4) { StepDifference::Mask(int::<F>(r.below(3) as u64)) } else { StepDifference::Steps(r.below(3)) },
        power: r.below(3) as u64,
    }
}

fn some_term<F: PrimeField>(r: &mut Rng) -> ConstraintTerm<F> {
    if r.chance(1, 2) {
        return ConstraintTerm::Univariate(some_factor(r));
    }
    let n = r.below(3);
    ConstraintTerm::Polyvariate(PolyvariateTerm { coeff: int::<F>(r.below(3) as u64), terms: (0..n).map(|_| some_factor(r)).collect(), total_degree: 0 })
}

fn some_density(r: &mut Rng) -> ConstraintDensity {
    let (a, b) = (r.below(3), r.range(1, 3));
    match r.below(4) {
        0 => ConstraintDensity::Repeated(RepeatedConstraint::new(a, b, r.range(2, 4))),
        1 => ConstraintDensity::Sparse(SparseConstraint::new((0..r.range(1, 4)).map(|_| r.below(3)).collect())),
        _ => ConstraintDensity::Dense(DenseConstraint::new(a, b)),
    }
}

fn some_constraint<F: PrimeField>(r: &mut Rng) -> Constraint<F> {
    let mut c = Constraint::<F>::default();
    c.constant_term = int::<F>(r.below(3) as u64);
    c.degree = r.below(3) as u64;
    c.density = some_density(r);
    c.terms = (0..r.below(3)).map(|_| some_term(r)).collect();
    c
}

fn some_boundary<F: PrimeField>(r: &mut Rng) -> BoundaryConstraint<F> {
    BoundaryConstraint {
        register: some_factor::<F>(r).register,
        at_row: r.below(3),
        value: if r.chance(1, 4) { None } else { Some(int::<F>(r.below(3) as u64)) },
    }
}

fn some_statement<F: PrimeField>(r: &mut Rng) -> InstanceProperties<F> {
    InstanceProperties {
        num_rows: r.range(2, 4),
        num_registers: r.range(1, 3),
        constraints: (0..r.below(3)).map(|_| some_constraint(r)).collect(),
        boundary_constraints: (0..r.below(3)).map(|_| some_boundary(r)).collect(),
    }
}

/// One thing in a statement becomes another, or moves to another place.
fn edit<F: PrimeField>(r: &mut Rng, s: &mut InstanceProperties<F>) {
    let fresh = some_constraint::<F>(r);
    let (nc, nb) = (s.constraints.len(), s.boundary_constraints.len());
    match r.below(14) {
        0 => s.num_rows = r.range(2, 4),
        1 => s.num_registers = r.range(1, 3),
        2 => s.constraints.push(fresh),
        3 => {
            s.constraints.pop();
        }
        4 if nc > 0 => s.constraints[r.below(nc)].density = fresh.density,
        5 if nc > 0 => s.constraints[r.below(nc)].constant_term = fresh.constant_term,
        6 if nc > 0 => s.constraints[r.below(nc)].degree = fresh.degree,
        7 if nc > 1 => {
            // a term moves on to the next constraint
            if let Some(t) = s.constraints[0].terms.pop() {
                s.constraints[1].terms.insert(0, t)
            }
        }
        8 if nb > 0 => s.boundary_constraints[r.below(nb)] = some_boundary(r),
        9 => s.boundary_constraints.push(some_boundary(r)),
        10 if nb > 1 => s.boundary_constraints.swap(0, 1),
        11 if nc > 1 => s.constraints.swap(0, 1),
        _ if nc > 0 => {
            let k = r.below(nc);
            let terms = &mut s.constraints[k].terms;
            if terms.is_empty() {
                terms.push(some_term(r));
                return;
            }
            let t = r.below(terms.len());
            let f = some_factor::<F>(r);
            let change = |u: &mut UnivariateTerm<F>, r: &mut Rng| match r.below(4) {
                0 => u.coeff = f.coeff,
                1 => u.register = f.register,
                2 => u.steps_difference = f.steps_difference,
                _ => u.power = f.power,
            };
            match (&mut terms[t], r.below(5)) {
                (_, 0) => terms[t] = some_term(r),
                (ConstraintTerm::Univariate(u), _) => change(u, r),
                (ConstraintTerm::Polyvariate(p), 1) => p.coeff = f.coeff,
                (ConstraintTerm::Polyvariate(p), 2) => p.terms.push(f),
                (ConstraintTerm::Polyvariate(p), _) => {
                    let n = p.terms.len();
                    if n > 0 {
                        change(&mut p.terms[r.below(n)], r)
                    }
                }
            }
        }
        _ => {}
    }
}

/// Statements of every form that can be written down, and others that differ from them in one place: a transcript that
/// absorbed one draws the same challenges as one that absorbed the other only if they are the same statement.
fn statements<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let draw = |s: &InstanceProperties<F>| {
        let mut t = B2s::<F>::new();
        s.commit_to_transcript(&mut t);
        let b = t.get_challenge_bytes();
        let b: &[u8] = b.as_ref();
        (t.get_challenge(), b.to_vec())
    };
    let a: InstanceProperties<F> = some_statement(&mut c.rng);
    c.desc(format!("{} {:?}", name, a).chars().take(600).collect());
    c.sig(&format!("{} {:?}", name, a));
    let base = draw(&a);
    for _ in 0..12 {
        let mut b = a.clone();
        edit(&mut c.rng, &mut b);
        // the total degree of a polyvariate term is a note of the builder's and the same for all of these
        let same = a.num_rows == b.num_rows && a.num_registers == b.num_registers && a.constraints == b.constraints && a.boundary_constraints == b.boundary_constraints;
        let got = draw(&b);
        if same && got != base {
            return Err("the same statement gives other challenges".to_string());
        }
        if !same && (got.1 == base.1 || (got.0 == base.0 && F::NUM_BITS > 60)) {
            return Err(format!("two statements give the same challenges: {:?} and {:?}", a, b));
        }
        c.count(if same { "statements repeated" } else { "statements told apart" }, 1);
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    for k in ["transcripts compared", "challenges that changed", "statements exchanged", "numbers of statements changed", "statements repeated", "statements told apart"] {
        ctx.require(k);
    }
    let n = ctx.n(2700, 54000);
    ctx.section("statements", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, statements, c, f)
    });
    let n = ctx.n(1440, 28800);
    ctx.section("random", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, one, c, f)
    });
}
