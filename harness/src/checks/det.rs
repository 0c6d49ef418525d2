//! C20: proofs and verdicts depend on statement and witness only.

use crate::fields::*;
use crate::fw::*;
use crate::inst::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::verif_hooks::force_cpus;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

type T<F> = B2s<F>;

fn es(e: hodor::SynthesisError) -> String {
    format!("error: {}", e)
}

fn prover<F: PrimeField>(i: &Inst<F>, cfg: &Cfg) -> Result<ProverOf<F, T<F>>, String> {
    force_cpus(cfg.cpus);
    observe(|| ProverOf::<F, T<F>>::new(i.props(), cfg.lde, cfg.out)).map_err(|m| format!("panic: {}", m))?.map_err(es)
}

/// Other numbers of threads for the same rate.
fn threads<F: PrimeField>(i: &Inst<F>, cfg: &Cfg) -> Vec<usize> {
    let cofactor = i.max_degree().next_power_of_two() as usize;
    [1usize, 2, 3, 4, 5, 6, 7, 8, 11, 16, 33].iter().cloned().filter(|k| !lde_defective(*k, cfg.lde) && !lde_defective(*k, cofactor)).collect()
}

fn outcome<F: PrimeField>(p: &ProverOf<F, T<F>>, w: &[Vec<F>]) -> (Result<Vec<u8>, String>, Option<ProofOf<F, T<F>>>) {
    match observe(|| p.prove(w.to_vec())) {
        Ok(Ok(p)) => (Ok(proof_bytes(&p)), Some(p)),
        Ok(Err(e)) => (Err(es(e)), None),
        Err(m) => (Err(format!("panic: {}", m)), None),
    }
}

fn shape() -> Shape {
    Shape { max_regs: 4, min_rows: 2, max_rows: 24, max_degree: 4, max_domain: 256, max_cons: 4 }
}

fn workers<F: PrimeField>(c: &mut Case, name: &str, s: Shape) -> Result<(), String> {
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(s));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    let (base, p) = outcome(&prover(&i, &cfg)?, &i.witness);
    let p = match p {
        Some(p) => p,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let verdict = verify(&i, &cfg, &p);
    for k in threads(&i, &cfg) {
        let other = Cfg { cpus: k, ..cfg };
        let (got, q) = outcome(&prover(&i, &other)?, &i.witness);
        if got != base {
            return Err(format!("another proof on {} threads than on {}", k, cfg.cpus));
        }
        if verify(&i, &other, &q.unwrap()) != verdict || verify(&i, &other, &p) != verdict {
            return Err(format!("another verdict on {} threads than on {}", k, cfg.cpus));
        }
        c.count("proofs compared", 1);
        c.count(&format!("proofs on {} threads", k), 1);
    }
    Ok(())
}

/// One prover and one verifier, and all sorts of things happening to them in between.
fn history<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(shape()));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    let p = prover(&i, &cfg)?;
    // what each witness gives on a prover of its own
    let mut ws: Vec<Vec<Vec<F>>> = vec![i.witness.clone()];
    for _ in 0..2 {
        if let Some((w, _)) = break_witness(&mut c.rng, &i) {
            ws.push(w);
        }
    }
    ws.push(vec![vec![F::zero(); i.rows]; i.regs]);
    ws.push((0..i.regs).map(|_| rvec(&mut c.rng, i.rows)).collect());
    ws.push(vec![]);
    ws.push(vec![vec![F::one(); i.rows + 1]; i.regs]);
    let mut alone = vec![];
    for w in &ws {
        alone.push(outcome(&prover(&i, &cfg)?, w));
    }
    force_cpus(cfg.cpus);
    let v = observe(|| VerifierOf::<F, T<F>>::new(i.props(), cfg.lde)).map_err(|m| format!("panic: {}", m))?.map_err(es)?;
    let judge = |v: &VerifierOf<F, T<F>>, q: &ProofOf<F, T<F>>| match observe(|| v.verify(q)) {
        Ok(Ok(true)) => Verdict::Accept,
        Ok(Ok(false)) => Verdict::Reject,
        Ok(Err(e)) => Verdict::Error(es(e)),
        Err(p) => Verdict::Panic(p),
    };
    let fresh: Vec<Option<Verdict>> = alone
        .iter()
        .map(|(_, q)| {
            q.as_ref().map(|q| {
                let v = VerifierOf::<F, T<F>>::new(i.props(), cfg.lde).expect("a verifier");
                judge(&v, q)
            })
        })
        .collect();
    let mut order = vec![];
    for _ in 0..14 {
        order.push(c.rng.below(ws.len()));
    }
    for k in &order {
        let (got, q) = outcome(&p, &ws[*k]);
        if got != alone[*k].0 {
            return Err(format!("witness {} after {:?}: a used prover gives another proof", k, order));
        }
        if let Some(q) = q {
            let got = judge(&v, &q);
            if Some(&got) != fresh[*k].as_ref() {
                return Err(format!("proof of witness {} in {:?}: a used verifier says {:?} and not {:?}", k, order, got, fresh[*k]));
            }
            c.count("verdicts compared", 1);
            // a changed one in between
            let mut x: ProofOf<F, T<F>> = clone_proof(&q);
            let m = x.f_at_z_m.len();
            x.f_at_z_m[c.rng.below(m)].add_assign(&F::one());
            let a = judge(&v, &x);
            let b = judge(&VerifierOf::<F, T<F>>::new(i.props(), cfg.lde).expect("a verifier"), &x);
            if a != b {
                return Err(format!("a changed proof: a used verifier says {:?} and a fresh one {:?}", a, b));
            }
        }
        c.count("proofs of a used prover compared", 1);
    }
    Ok(())
}

/// Several provers and verifiers of different statements, some shared, all at once.
fn at_once<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let n = c.rng.range(2, 4);
    let mut jobs = vec![];
    for _ in 0..n {
        let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(shape()));
        let cfg = pick_cfg(&mut c.rng, &i);
        c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
        let p = prover(&i, &cfg)?;
        let (base, q) = outcome(&p, &i.witness);
        let verdict = q.as_ref().map(|q| verify(&i, &cfg, q));
        let v = VerifierOf::<F, T<F>>::new(i.props(), cfg.lde).map_err(es)?;
        jobs.push((i, p, v, base, q, verdict));
    }
    let rounds = 3;
    let per = 2;
    let barrier = Barrier::new(n * per);
    let running = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    let mut bad: Vec<String> = vec![];
    let mut jitter: Vec<u64> = (0..n * per).map(|_| c.rng.below(400) as u64).collect();
    std::thread::scope(|s| {
        let mut hs = vec![];
        for (k, job) in jobs.iter().enumerate() {
            for t in 0..per {
                let (barrier, running, most) = (&barrier, &running, &most);
                let pause = jitter.pop().unwrap();
                hs.push(s.spawn(move || -> Result<(), String> {
                    let (i, p, v, base, q, verdict) = job;
                    for round in 0..rounds {
                        barrier.wait();
                        std::thread::sleep(std::time::Duration::from_micros(pause));
                        let now = running.fetch_add(1, Ordering::SeqCst) + 1;
                        most.fetch_max(now, Ordering::SeqCst);
                        let (got, _) = outcome(p, &i.witness);
                        let said = q.as_ref().map(|q| match observe(|| v.verify(q)) {
                            Ok(Ok(true)) => Verdict::Accept,
                            Ok(Ok(false)) => Verdict::Reject,
                            Ok(Err(e)) => Verdict::Error(format!("{}", e)),
                            Err(p) => Verdict::Panic(p),
                        });
                        running.fetch_sub(1, Ordering::SeqCst);
                        if got != *base {
                            return Err(format!("job {} thread {} round {}: another proof when several run at once", k, t, round));
                        }
                        if said != *verdict {
                            return Err(format!("job {} thread {} round {}: {:?} and not {:?} when several run at once", k, t, round, said, verdict));
                        }
                    }
                    Ok(())
                }));
            }
        }
        for h in hs {
            match h.join() {
                Ok(Ok(())) => {}
                Ok(Err(m)) => bad.push(m),
                Err(_) => bad.push("a thread panicked".to_string()),
            }
        }
    });
    if let Some(m) = bad.pop() {
        return Err(m);
    }
    c.count("proofs made while others were", (n * per * rounds) as u64);
    if most.load(Ordering::SeqCst) > 1 {
        c.count("cases in which several ran at the same time", 1);
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    for k in ["proofs compared", "proofs of a used prover compared", "verdicts compared", "cases in which several ran at the same time"] {
        ctx.require(k);
    }
    let n = ctx.n(117, 5400);
    ctx.section("threads", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, workers, c, f, shape())
    });
    let n = ctx.n(14, 210);
    ctx.section("long", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        let s = Shape { max_regs: 3, min_rows: 100, max_rows: 700, max_degree: 3, max_domain: 1 << 12, max_cons: 3 };
        with_field!(f, workers, c, f, s)
    });
    let n = ctx.n(4, 70);
    ctx.section("huge", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        let s = Shape { max_regs: 2, min_rows: 1500, max_rows: 6000, max_degree: 3, max_domain: 1 << 14, max_cons: 3 };
        with_field!(f, workers, c, f, s)
    });
    let n = ctx.n(81, 3600);
    ctx.section("history", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, history, c, f)
    });
    let n = ctx.n(63, 2520);
    ctx.section("at-once", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, at_once, c, f)
    });
}
