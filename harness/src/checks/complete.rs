//! C01: every true statement is provable and the proof is accepted.

use crate::fields::*;
use crate::fw::*;
use crate::inst::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::fri::FriProof;

pub fn small<F: PrimeField>() -> bool {
    F::NUM_BITS < 40
}

fn one_case<F: PrimeField>(c: &mut Case, shape: Shape) -> Result<(), String> {
    let shape = shape_for::<F>(shape);
    let i: Inst<F> = generate(&mut c.rng, &shape);
    if !i.satisfied(&i.witness) {
        return Err("HARNESS: generated an unsatisfied instance".into());
    }
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {:?} {} bits", i.desc(), cfg, F::NUM_BITS));
    honest(c, &i, &cfg)
}

/// More than 2^16 rows of x' = a x^2 + b (of which few are padding, which is slow to divide out).
fn giant<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let rows = (1 << 17) - c.rng.below(4);
    let (a, b): (F, F) = (rf_nonzero(&mut c.rng), rf(&mut c.rng));
    let mut x = vec![rf::<F>(&mut c.rng)];
    for r in 1..rows {
        x.push(add(mul(a, mul(x[r - 1], x[r - 1])), b));
    }
    let f = |coeff, step, power| Term::Uni(Factor { coeff, reg: 0, step, power });
    let start = c.rng.below(3);
    let cons = vec![Con { constant: neg(b), terms: vec![f(F::one(), 1, 1), f(neg(a), 0, 2)], start, span: 1, style: 7 }];
    let at = c.rng.range(1 << 16, rows - 2);
    let bounds = [0, at, rows - 1].iter().map(|r| (0, *r, x[*r])).collect();
    let i = Inst { rows, regs: 1, cons, bounds, witness: vec![x] };
    let cfg = Cfg { cpus: *c.rng.pick(&[1, 4, 8]), lde: 2, out: 1 };
    c.desc(format!("{} rows from {} on, boundary at {}, {:?} {} bits", rows, start, at, cfg, F::NUM_BITS));
    c.sig(&at.to_le_bytes());
    honest(c, &i, &cfg)
}

pub fn honest<F: PrimeField>(c: &mut Case, i: &Inst<F>, cfg: &Cfg) -> Result<(), String> {
    let proof = match prove::<F, B2s<F>>(i, &i.witness, cfg) {
        Ok(p) => p,
        Err(e) => {
            if small::<F>() {
                // the out-of-domain point fell into the domain, which only a small field makes likely
                c.count("point fell into the domain (small field)", 1);
                c.trivial();
                return Ok(());
            }
            return Err(format!("an honest prover failed: {}", e));
        }
    };
    match verify(i, cfg, &proof) {
        Verdict::Accept => {}
        v => return Err(format!("an honest proof was not accepted: {:?}", v)),
    }
    c.count("accepted honest proofs", 1);
    c.count("FRI folding rounds verified", (proof.fri_proof_h1.get_roots().len() + proof.fri_proof_h2.get_roots().len() - 2) as u64);
    if !i.rows.is_power_of_two() {
        c.count("statements with a trace length that is not a power of two", 1);
    }
    if !i.max_degree().is_power_of_two() {
        c.count("statements with a degree that is not a power of two", 1);
    }
    if i.densities() > 1 {
        c.count("statements with several densities", 1);
    }
    if i.cons.iter().any(|k| k.start > 0) {
        c.count("statements with a late start", 1);
    }
    if cfg.out > 1 {
        c.count("proofs with a final polynomial of several coefficients", 1);
    }
    if i.bounds.is_empty() {
        c.count("statements without boundary constraints", 1);
    }
    c.count(&format!("worker threads = {}", cfg.cpus), 1);
    c.count(&format!("rate = 1/{}", cfg.lde), 1);
    c.count(&format!("field of {} bits", F::NUM_BITS), 1);
    Ok(())
}

/// Fibonacci through the tracer, on the configurations in which the known defect of the extension shows.
fn known_config(c: &mut Case) -> Result<(), String> {
    let (cpus, lde) = [(4usize, 16usize), (8, 16), (4, 32), (2, 8)][c.idx as usize % 4];
    let (w, props) = hodor::verif_hooks::trace_fibonacci::<Fr252>(5, 3, 3);
    let w = w.ok_or("no witness")?;
    hodor::verif_hooks::force_cpus(cpus);
    c.desc(format!("Fibonacci 3 steps cpus={} lde={}", cpus, lde));
    let p = ProverOf::<Fr252, B2s<Fr252>>::new(props.clone(), lde, 1).map_err(err_str)?;
    let proof = p.prove(w).map_err(err_str)?;
    let v = VerifierOf::<Fr252, B2s<Fr252>>::new(props, lde).map_err(err_str)?;
    match observe(|| v.verify(&proof)) {
        Ok(Ok(true)) => c.count("pinned configurations accepted", 1),
        Ok(Ok(false)) => c.known(
            "fibonacci-rejected-with-several-cosets-per-thread",
            "an honest Fibonacci proof is rejected when one of several threads extends several cosets",
        ),
        Ok(Err(e)) => return Err(format!("verifier error {}", err_str(e))),
        Err(p) => return Err(format!("verifier panicked {}", p)),
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.require("accepted honest proofs");
    for f in FIELDS.iter() {
        let n = if *f == "F257" { ctx.n(60, 1500) } else { ctx.n(90, 3000) };
        ctx.section(f, n, |c| {
            let s = Shape::default();
            with_field!(*f, one_case, c, s)
        });
    }
    let n = ctx.n(24, 600);
    ctx.section("long", n, |c| {
        let s = Shape { max_regs: 2, min_rows: 33, max_rows: 260, max_degree: 4, max_domain: 2048, max_cons: 3 };
        let f = *c.rng.pick(&["Goldilocks", "Fr252", "BabyBear", "P129"]);
        with_field!(f, one_case, c, s)
    });
    let n = ctx.n(10, 240);
    ctx.section("huge", n, |c| {
        let s = Shape { max_regs: 2, min_rows: 900, max_rows: 9000, max_degree: 3, max_domain: 1 << 15, max_cons: 3 };
        let f = *c.rng.pick(&["Goldilocks", "Fr252", "P62", "P65"]);
        with_field!(f, one_case, c, s)
    });
    let n = ctx.n(2, 24);
    ctx.section("giant", n, |c| {
        let f = *c.rng.pick(&["Goldilocks", "P62"]);
        with_field!(f, giant, c)
    });
    let n = ctx.n(24, 600);
    ctx.section("wide", n, |c| {
        let s = Shape { max_regs: 24, min_rows: 4, max_rows: 16, max_degree: 9, max_domain: 2048, max_cons: 30 };
        let f = *c.rng.pick(&["Goldilocks", "Fr255", "P65"]);
        with_field!(f, one_case, c, s)
    });
    let n = ctx.n(24, 400);
    ctx.section("tiny", n, |c| {
        let s = Shape { max_regs: 2, min_rows: 2, max_rows: 3, max_degree: 3, max_domain: 64, max_cons: 3 };
        let f = *c.rng.pick(&["Goldilocks", "Fr255", "P192"]);
        with_field!(f, one_case, c, s)
    });
    ctx.section("pinned", 4, known_config);
}
