//! C17 and C18: the combined quotient G, the DEEP quotients H1 and H2, and what the verifier makes of
//! claimed values, all under challenges that the harness chooses.

use crate::fields::*;
use crate::forge::*;
use crate::fw::*;
use crate::inst::*;
use crate::model;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::ali::per_register::ALIInstance;
use hodor::arp::*;
use hodor::polynomials::*;
use hodor::transcript::Transcript;
use hodor::verif_hooks::{force_cpus, worker_with_cpus, Worker};

type Arp<F> = ARPInstance<F, PerRegisterARP>;
type Ali<F> = ALIInstance<F, PerRegisterARP>;

fn es(e: hodor::SynthesisError) -> String {
    format!("error: {}", e)
}

fn ob<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    observe(f).map_err(|m| format!("{}: panic: {}", what, m))
}

fn script<F: PrimeField>(ch: &[F], bytes: Vec<Vec<u8>>) {
    set_script(Script { challenges: ch.iter().map(|c| to_limbs(c)).collect(), bytes });
}

fn flat<F: PrimeField>(pairs: &[(F, F)]) -> Vec<F> {
    pairs.iter().flat_map(|(a, b)| vec![*a, *b]).collect()
}

fn pairs<F: PrimeField>(r: &mut Rng, i: &Inst<F>, edges: bool) -> Vec<(F, F)> {
    (0..i.cons.len() + i.bounds.len()).map(|_| if edges { (rf_edge(r), rf_edge(r)) } else { (rf_nonzero(r), rf_nonzero(r)) }).collect()
}

fn ali<F: PrimeField>(i: &Inst<F>, worker: &Worker) -> Result<Ali<F>, String> {
    let arp = ob("from_instance", || Arp::<F>::from_instance(i.props(), worker))?.map_err(es)?;
    ob("from_arp", || Ali::<F>::from_arp(arp, worker))?.map_err(es)
}

fn polys<F: PrimeField>(cols: &[Vec<F>]) -> Vec<Polynomial<F, Coefficients>> {
    cols.iter().map(|c| Polynomial::from_coeffs(c.clone()).expect("a column")).collect()
}

fn gsize<F: PrimeField>(i: &Inst<F>) -> usize {
    i.rows_sup() * i.max_degree().next_power_of_two() as usize
}

/// The library's G under the given challenges.
fn g_of<F: PrimeField>(a: &Ali<F>, cols: &[Vec<F>], ch: &[(F, F)], worker: &Worker) -> Result<Vec<F>, String> {
    script(&flat(ch), vec![]);
    let mut t = Scripted::<F>::new();
    take_log();
    let g = ob("calculate_g", || a.calculate_g(&mut t, polys(cols), worker))?.map_err(es)?;
    let drawn = take_log().iter().filter(|e| matches!(e, Ev::Challenge(_))).count();
    if drawn != 2 * ch.len() {
        return Err(format!("{} challenges were drawn for {} constraints and boundaries", drawn, ch.len()));
    }
    Ok(g.as_ref().to_vec())
}

/// Columns that fit the witness on the trace and are anything beyond it.
fn beyond<F: PrimeField>(r: &mut Rng, i: &Inst<F>) -> Vec<Vec<F>> {
    i.witness
        .iter()
        .map(|c| {
            let mut c = c.clone();
            while c.len() < i.rows_sup() {
                c.push(rf_edge(r));
            }
            interpolate_domain(&c)
        })
        .collect()
}

fn quotient<F: PrimeField>(c: &mut Case, name: &str, shape: Shape, full: bool) -> Result<(), String> {
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(shape));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    force_cpus(cfg.cpus);
    let worker = worker_with_cpus(cfg.cpus);
    let a = ali(&i, &worker)?;
    let size = gsize(&i);
    for round in 0..if full { 3 } else { 1 } {
        // the same instance of the library serves several witnesses and challenges
        let cols = if round == 1 { beyond(&mut c.rng, &i) } else { model::columns(&i, &i.witness) };
        let ch = pairs(&mut c.rng, &i, round == 2);
        let got = g_of(&a, &cols, &ch, &worker)?;
        if got.len() != size {
            return Err(format!("G has {} coefficients over a domain of {}", got.len(), size));
        }
        if full {
            // (in the smallest field a coset of twice the size would be all there is)
            let twice = if log2(2 * size) < F::S as usize || F::NUM_BITS > 20 { 2 * size } else { size };
            let want = model::g_poly(&i, &cols, &ch, twice);
            if degree(&want).map(|d| d >= size).unwrap_or(false) {
                return Err("HARNESS: the reference G of a true statement is of high degree".to_string());
            }
            if let Some(k) = (0..size).find(|k| got[*k] != want[*k]) {
                return Err(format!("round {}: coefficient {} of G is {} and not {}", round, k, show(&got[k]), show(&want[k])));
            }
            c.count("coefficients of G compared", size as u64);
        }
        for _ in 0..3 {
            let x: F = rf(&mut c.rng);
            let w = root::<F>(i.rows_sup());
            let val = |r: usize, s: usize| horner(&cols[r], mul(x, pow(w, s as u64)));
            if let Some(want) = model::g_at(&i, x, &val, &ch) {
                if horner(&got, x) != want {
                    return Err(format!("G is {} at {} and not {}", show(&horner(&got, x)), show(&x), show(&want)));
                }
                c.count("points of G compared", 1);
            }
        }
        if i.cons.iter().any(|k| k.degree() < i.max_degree()) {
            c.count("statements with adjusted degrees", 1);
        }
        if i.densities() > 1 {
            c.count("statements of several domains", 1);
        }
        if i.rows != i.rows_sup() {
            c.count("traces of a length that is not a power of two", 1);
        }
    }
    Ok(())
}

/// One constraint or boundary at a time: all other challenges are zero.
fn separate<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(Shape { max_rows: 12, max_cons: 4, ..Shape::default() }));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    force_cpus(cfg.cpus);
    let worker = worker_with_cpus(cfg.cpus);
    let a = ali(&i, &worker)?;
    let size = gsize(&i);
    let n = i.cons.len() + i.bounds.len();
    let cols = model::columns(&i, &i.witness);
    for k in 0..n {
        for (x, y) in [(F::one(), F::zero()), (F::zero(), F::one())] {
            let mut ch = vec![(F::zero(), F::zero()); n];
            ch[k] = (x, y);
            let got = g_of(&a, &cols, &ch, &worker)?;
            let want = model::g_poly(&i, &cols, &ch, size);
            if got != want {
                return Err(format!("with challenges of number {} only, G is another polynomial", k));
            }
            c.count("single terms of G compared", 1);
        }
    }
    Ok(())
}

fn violated<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(Shape::default()));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    force_cpus(cfg.cpus);
    let worker = worker_with_cpus(cfg.cpus);
    let a = ali(&i, &worker)?;
    for _ in 0..3 {
        let (s, cols, what) = match break_witness(&mut c.rng, &i) {
            Some((w, what)) => (&i, model::columns(&i, &w), what),
            None => {
                c.trivial();
                return Ok(());
            }
        };
        let ch = pairs(&mut c.rng, s, false);
        script(&flat(&ch), vec![]);
        let mut t = Scripted::<F>::new();
        match observe(|| a.calculate_g(&mut t, polys(&cols), &worker)) {
            Ok(Ok(g)) => {
                let g: &[F] = g.as_ref();
                let x: F = rf(&mut c.rng);
                let w = root::<F>(s.rows_sup());
                let val = |r: usize, st: usize| horner(&cols[r], mul(x, pow(w, st as u64)));
                if let Some(want) = model::g_at(s, x, &val, &ch) {
                    if g.len() > gsize(s) {
                        return Err(format!("G has {} coefficients over a domain of {}", g.len(), gsize(s)));
                    }
                    if horner(g, x) == want {
                        return Err(format!("a low degree G fits a violated statement: {}", what));
                    }
                }
                c.count("violations that no G fits", 1);
            }
            _ => c.count("violations refused", 1),
        }
    }
    Ok(())
}

pub fn run_quotient(ctx: &mut Ctx) {
    for k in ["coefficients of G compared", "single terms of G compared", "violations that no G fits", "statements with adjusted degrees", "statements of several domains", "traces of a length that is not a power of two"] {
        ctx.require(k);
    }
    let n = ctx.n(900, 18000);
    ctx.section("small", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, quotient, c, f, Shape::default(), true)
    });
    let n = ctx.n(36, 540);
    ctx.section("long", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        let s = Shape { max_regs: 3, min_rows: 40, max_rows: 300, max_degree: 4, max_domain: 1 << 11, max_cons: 3 };
        with_field!(f, quotient, c, f, s, false)
    });
    let n = ctx.n(14, 280);
    ctx.section("huge", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        let s = Shape { max_regs: 2, min_rows: 500, max_rows: 5000, max_degree: 4, max_domain: 1 << 14, max_cons: 3 };
        with_field!(f, quotient, c, f, s, false)
    });
    let n = ctx.n(90, 1800);
    ctx.section("steep", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        let s = Shape { max_regs: 2, min_rows: 2, max_rows: 8, max_degree: 33, max_domain: 1 << 9, max_cons: 3 };
        with_field!(f, quotient, c, f, s, true)
    });
    let n = ctx.n(180, 3600);
    ctx.section("separate", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, separate, c, f)
    });
    let n = ctx.n(450, 9000);
    ctx.section("violated", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, violated, c, f)
    });
}

// ------------------------------------------------------------------ H1 and H2

fn in_domain<F: PrimeField>(z: F, n: usize) -> bool {
    pow(z, n as u64) == F::one()
}

fn deep<F: PrimeField>(c: &mut Case, name: &str, shape: Shape) -> Result<(), String> {
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(shape));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    force_cpus(cfg.cpus);
    let worker = worker_with_cpus(cfg.cpus);
    let a = ali(&i, &worker)?;
    let (nf, ng) = (size_h1(&i, &cfg), size_h2(&i, &cfg));
    for round in 0..3 {
        // any polynomials will do
        let cols: Vec<Vec<F>> = match round {
            0 => model::columns(&i, &i.witness),
            1 => (0..i.regs).map(|_| rvec(&mut c.rng, i.rows_sup())).collect(),
            _ => (0..i.regs).map(|_| vec![rf_edge(&mut c.rng); i.rows_sup()]).collect(),
        };
        let g: Vec<F> = if round == 2 && c.rng.chance(1, 2) { vec![rf_edge(&mut c.rng); gsize(&i)] } else { rvec(&mut c.rng, gsize(&i)) };
        let z: F = if c.rng.chance(1, 4) { rf_edge(&mut c.rng) } else { rf(&mut c.rng) };
        let alphas: Vec<F> = (0..i.masks()).map(|_| if round == 2 { rf_edge(&mut c.rng) } else { rf(&mut c.rng) }).collect();
        let mut ch = vec![z];
        ch.extend(&alphas);
        let f_words: Vec<Vec<F>> = cols.iter().map(|p| values_on(p, nf)).collect();
        let g_word = values_on(&g, ng);
        let f_polys = polys(&cols);
        let f_ldes: Vec<Polynomial<F, Values>> = f_words.iter().map(|v| Polynomial::from_values(v.clone()).expect("a word")).collect();
        let g_poly = Polynomial::from_coeffs(g.clone()).expect("g");
        let g_lde = Polynomial::from_values(g_word.clone()).expect("g");
        script(&ch, vec![]);
        let mut t = Scripted::<F>::new();
        take_log();
        let got = observe(|| a.calculate_deep(&f_polys, &f_ldes, &g_poly, &g_lde, &mut t, &worker));
        let log = take_log();
        if in_domain(z, ng) {
            // there is nothing to divide by; it has to be refused
            if let Ok(Ok(_)) = got {
                return Err(format!("quotients at the point {} of the domain", show(&z)));
            }
            c.count("points of the domain refused", 1);
            continue;
        }
        let (h1, h2, y, gz) = match got {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return Err(format!("calculate_deep: {}", es(e))),
            Err(p) => return Err(format!("calculate_deep: panic: {}", p)),
        };
        let want = claims(&i, &cols, z);
        if y != want {
            return Err(format!("round {}: other values are claimed at z = {}", round, show(&z)));
        }
        if gz != horner(&g, z) {
            return Err(format!("round {}: G is {} at z", round, show(&gz)));
        }
        let drawn: Vec<F> = log
            .iter()
            .filter_map(|e| match e {
                Ev::Challenge(l) => from_limbs(l),
                _ => None,
            })
            .collect();
        if drawn != ch {
            return Err(format!("{} challenges were drawn for {} claims", drawn.len(), want.len()));
        }
        let (h1, h2): (&[F], &[F]) = (h1.as_ref(), h2.as_ref());
        let w1 = h1_word(&i, &f_words, &want, z, &alphas);
        if h1 != &w1[..] {
            let k = (0..nf).find(|k| h1.get(*k) != w1.get(*k));
            return Err(format!("round {}: H1 differs at {:?} of {} ({})", round, k, nf, h1.len()));
        }
        let w2 = h2_word(&g_word, gz, z);
        if h2 != &w2[..] {
            let k = (0..ng).find(|k| h2.get(*k) != w2.get(*k));
            return Err(format!("round {}: H2 differs at {:?} of {} ({})", round, k, ng, h2.len()));
        }
        if degree(&interpolate_domain(h1)).map(|d| d + 1 >= i.rows_sup()).unwrap_or(false) {
            return Err("H1 has a degree that is too high".to_string());
        }
        if degree(&interpolate_domain(h2)).map(|d| d + 1 >= gsize(&i)).unwrap_or(false) {
            return Err("H2 has a degree that is too high".to_string());
        }
        c.count("values of H1 compared", nf as u64);
        c.count("values of H2 compared", ng as u64);
        c.count("claimed values compared", y.len() as u64);
    }
    Ok(())
}

/// Arbitrary oracles and claims, and FRI proofs of the constants that H1 and H2 would have to be where
/// they are asked: the verifier's arithmetic decides alone, and the reference knows what it has to say.
fn recomputed<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let shape = Shape { max_regs: 4, min_rows: 2, max_rows: 12, max_degree: 4, max_domain: 64, max_cons: 4 };
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(shape));
    let cfg = loop {
        let k = pick_cfg(&mut c.rng, &i);
        if k.out <= i.rows_sup() {
            break k;
        }
    };
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    let (nf, ng) = (size_h1(&i, &cfg), size_h2(&i, &cfg));
    let edges = c.rng.chance(1, 4);
    let ch = pairs(&mut c.rng, &i, edges);
    let z: F = if edges { rf_edge(&mut c.rng) } else { rf(&mut c.rng) };
    let alphas: Vec<F> = (0..i.masks()).map(|_| if edges { rf_edge(&mut c.rng) } else { rf(&mut c.rng) }).collect();
    let bytes = vec![c.rng.bytes(32), c.rng.bytes(32)];
    let x1 = Index::<F>::bytes_to_challenge_index(&bytes[0], nf, cfg.lde);
    let x2 = Index::<F>::bytes_to_challenge_index(&bytes[1], ng, cfg.lde);
    let mut all = flat(&ch);
    all.push(z);
    all.extend(&alphas);
    script(&all, bytes);
    let f: Vec<Vec<F>> = (0..i.regs).map(|_| rvec(&mut c.rng, nf)).collect();
    let g = rvec(&mut c.rng, ng);
    let y: Vec<F> = (0..i.masks()).map(|_| if edges { rf_edge(&mut c.rng) } else { rf(&mut c.rng) }).collect();
    if in_domain(z, ng) {
        c.trivial();
        return Ok(());
    }
    let expect = |f: &[Vec<F>], g: &[F], y: &[F]| -> Option<(F, F)> {
        let gz = g_of_claims(&i, y, z, &ch)?;
        Some((h1_word(&i, f, y, z, &alphas)[x1], h2_word(g, gz, z)[x2]))
    };
    let (v1, v2) = match expect(&f, &g, &y) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let parts = Parts {
        f: f.clone(),
        g: g.clone(),
        y: y.clone(),
        h1: constant_layers(v1, nf, cfg.lde, cfg.out),
        h2: constant_layers(v2, ng, cfg.lde, cfg.out),
        h1_roots: None,
        h2_roots: None,
    };
    let judge = |c: &mut Case, p: &Parts<F>, what: &str| -> Result<(), String> {
        let h1 = p.h1.layers[0][x1];
        let h2 = p.h2.layers[0][x2];
        let good = expect(&p.f, &p.g, &p.y) == Some((h1, h2));
        let proof: ProofOf<F, Scripted<F>> = p.assemble(x1, x2);
        let v = verify(&i, &cfg, &proof);
        match (good, &v) {
            (true, Verdict::Accept) => c.count("claims that fit, accepted", 1),
            (false, Verdict::Reject) | (false, Verdict::Error(_)) => c.count("claims that do not fit, not accepted", 1),
            _ => return Err(format!("{}: the claims {} and the verifier says {:?}", what, if good { "fit" } else { "do not fit" }, v)),
        }
        Ok(())
    };
    judge(c, &parts, "as computed")?;
    let bump = |r: &mut Rng, v: F| match r.below(3) {
        0 => add(v, F::one()),
        1 => sub(v, F::one()),
        _ => rf(r),
    };
    for k in 0..y.len() {
        let mut p = parts.clone();
        p.y[k] = bump(&mut c.rng, p.y[k]);
        judge(c, &p, &format!("claim {} changed", k))?;
        // and the quotients follow it
        if let Some((a, b)) = expect(&p.f, &p.g, &p.y) {
            p.h1 = constant_layers(a, nf, cfg.lde, cfg.out);
            judge(c, &p, &format!("claim {} changed, H1 follows", k))?;
            p.h2 = constant_layers(b, ng, cfg.lde, cfg.out);
            judge(c, &p, &format!("claim {} changed, H1 and H2 follow", k))?;
        }
    }
    for k in 0..i.regs {
        let mut p = parts.clone();
        p.f[k][x1] = bump(&mut c.rng, p.f[k][x1]);
        judge(c, &p, &format!("oracle {} changed", k))?;
    }
    let mut p = parts.clone();
    p.g[x2] = bump(&mut c.rng, p.g[x2]);
    judge(c, &p, "G changed")?;
    let mut p = parts.clone();
    p.h1 = constant_layers(bump(&mut c.rng, v1), nf, cfg.lde, cfg.out);
    judge(c, &p, "H1 changed")?;
    let mut p = parts.clone();
    p.h2 = constant_layers(bump(&mut c.rng, v2), ng, cfg.lde, cfg.out);
    judge(c, &p, "H2 changed")?;
    if y.len() > 1 {
        let mut p = parts.clone();
        let (a, b) = (c.rng.below(y.len()), c.rng.below(y.len()));
        p.y.swap(a, b);
        judge(c, &p, "claims swapped")?;
    }
    Ok(())
}

pub fn run_deep(ctx: &mut Ctx) {
    for k in ["values of H1 compared", "values of H2 compared", "claims that fit, accepted", "claims that do not fit, not accepted", "points of the domain refused"] {
        ctx.require(k);
    }
    let n = ctx.n(180, 5400);
    ctx.section("quotients", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        let s = Shape { max_domain: 256, ..Shape::default() };
        with_field!(f, deep, c, f, s)
    });
    let n = ctx.n(18, 270);
    ctx.section("long", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        let s = Shape { max_regs: 2, min_rows: 33, max_rows: 64, max_degree: 2, max_domain: 128, max_cons: 3 };
        with_field!(f, deep, c, f, s)
    });
    let n = ctx.n(14, 200);
    ctx.section("huge", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        let s = Shape { max_regs: 2, min_rows: 200, max_rows: 2000, max_degree: 2, max_domain: 1 << 12, max_cons: 3 };
        with_field!(f, deep, c, f, s)
    });
    let n = ctx.n(360, 10800);
    ctx.section("recomputed", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, recomputed, c, f)
    });
}
