//! C02: nothing false gets proved, neither through the library's prover nor through our own.

use crate::fields::*;
use crate::forge::*;
use crate::fw::*;
use crate::inst::*;
use crate::model;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;

/// Gives a statement and a witness that does not satisfy it to prover and verifier.
fn judge<F: PrimeField>(c: &mut Case, i: &Inst<F>, w: &[Vec<F>], cfg: &Cfg, what: &str) -> Result<(), String> {
    if i.satisfied(w) {
        return Err("HARNESS: the statement holds".into());
    }
    match observe(|| prove::<F, B2s<F>>(i, w, cfg)) {
        Ok(Ok(p)) => match verify(i, cfg, &p) {
            Verdict::Accept => return Err(format!("a proof of a false statement was accepted: {}", what)),
            _ => c.count("proofs of false statements that were made and not accepted", 1),
        },
        Ok(Err(_)) => c.count("provers that returned an error on a false statement", 1),
        Err(_) => c.count("provers that panicked on a false statement", 1),
    }
    Ok(())
}

/// One cell, more often in the rows where a domain begins or ends.
fn break_cell<F: PrimeField>(r: &mut Rng, i: &Inst<F>) -> Option<(Vec<Vec<F>>, String)> {
    for _ in 0..60 {
        let g = r.below(i.regs);
        let k = r.pick(&i.cons).clone();
        let rows = match r.below(6) {
            0 => i.rows - 1,
            1 => 0,
            2 => k.start + k.max_step(),
            3 => i.rows - k.span - 1 + k.max_step(),
            4 => i.rows - k.span - 1,
            _ => r.below(i.rows),
        };
        if rows >= i.rows {
            continue;
        }
        let mut w = i.witness.clone();
        w[g][rows] = match r.below(3) {
            0 => add(w[g][rows], F::one()),
            1 => neg(w[g][rows]),
            _ => rf(r),
        };
        if !i.satisfied(&w) {
            return Some((w, format!("register {} row {} changed", g, rows)));
        }
    }
    break_witness(r, i)
}

fn violations<F: PrimeField>(i: &Inst<F>, w: &[Vec<F>]) -> usize {
    let mut n = 0;
    for c in &i.cons {
        for r in c.enforced(i.rows) {
            if !c.eval(w, r).is_zero() {
                n += 1;
            }
        }
    }
    n + i.bounds.iter().filter(|(g, r, v)| w[*g][*r] != *v).count()
}

fn shape() -> Shape {
    Shape { max_regs: 3, min_rows: 2, max_rows: 17, max_degree: 4, max_domain: 1 << 10, max_cons: 4 }
}

fn witness<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    wrong_cell::<F>(c, shape())
}

fn huge<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    wrong_cell::<F>(c, Shape { max_regs: 2, min_rows: 200, max_rows: 3000, max_degree: 3, max_domain: 1 << 13, max_cons: 3 })
}

fn wrong_cell<F: PrimeField>(c: &mut Case, shape: Shape) -> Result<(), String> {
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(shape));
    let cfg = pick_cfg(&mut c.rng, &i);
    let (w, what) = match break_cell(&mut c.rng, &i) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    c.desc(format!("{} {:?} {} bits; {}", i.desc(), cfg, F::NUM_BITS, what));
    let n = violations(&i, &w);
    c.count(if n == 1 { "statements violated at a single place" } else { "statements violated at several places" }, 1);
    judge(c, &i, &w, &cfg, &what)
}

fn statement<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(shape()));
    let (s, what) = match break_statement(&mut c.rng, &i) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let cfg = pick_cfg(&mut c.rng, &s);
    c.desc(format!("{} {:?} {} bits; {}", s.desc(), cfg, F::NUM_BITS, what));
    let w = i.witness.clone();
    judge(c, &s, &w, &cfg, &what)?;
    // a proof of the true statement, shown to a verifier of the false one
    if i.max_degree() == s.max_degree() {
        if let Ok(Ok(p)) = observe(|| prove::<F, B2s<F>>(&i, &w, &cfg)) {
            c.count("proofs of a statement shown to the verifier of another", 1);
            if verify(&s, &cfg, &p) == Verdict::Accept {
                return Err(format!("the proof of a true statement was accepted for a false one: {}", what));
            }
        }
    }
    Ok(())
}

/// Violations that cancel each other out unless every one of them has an independent challenge.
fn cancelling<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let mut i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(shape()));
    let kind = c.rng.below(5);
    let mut w = i.witness.clone();
    let what;
    match kind {
        0 => {
            // C and -C, both violated
            let k = c.rng.below(i.cons.len());
            let mut n = i.cons[k].clone();
            let f = neg(F::one());
            n.constant = mul(n.constant, f);
            n.terms = n.terms.iter().map(|t| t.scaled(f)).collect();
            n.style = c.rng.u64();
            let at = if c.rng.chance(1, 2) { i.cons.len() } else { c.rng.below(i.cons.len() + 1) };
            i.cons.insert(at, n);
            let rows: Vec<usize> = i.cons[if at <= k { k + 1 } else { k }].enforced(i.rows).collect();
            let row = *c.rng.pick(&rows);
            // touch a cell of the constraint
            let t = c.rng.pick(&i.cons[at].terms).clone();
            let fs: Vec<(usize, usize)> = t.factors().iter().map(|f| (f.reg, f.step)).collect();
            let (g, s) = *c.rng.pick(&fs);
            w[g][row + s] = rf(&mut c.rng);
            // keep the rest of the statement out of it
            let keep = (i.cons[at].clone(), i.cons[if at <= k { k + 1 } else { k }].clone());
            let all = std::mem::take(&mut i.cons);
            i.cons = vec![];
            for x in all {
                let mut only = i.clone();
                only.cons = vec![x.clone()];
                only.bounds = vec![];
                if only.satisfied(&w) || x.style == keep.0.style || x.style == keep.1.style {
                    i.cons.push(x);
                }
            }
            i.bounds.retain(|(g, r, v)| w[*g][*r] == *v);
            what = "a violated constraint and its negation";
        }
        1 => {
            let (g, row) = (c.rng.below(i.regs), c.rng.below(i.rows));
            let e: F = rf_nonzero(&mut c.rng);
            let at = c.rng.below(i.bounds.len() + 1);
            i.bounds.insert(at, (g, row, add(w[g][row], e)));
            let at = c.rng.below(i.bounds.len() + 1);
            i.bounds.insert(at, (g, row, sub(w[g][row], e)));
            what = "two boundary values at one cell, off by e and -e";
        }
        2 => {
            if i.regs < 2 {
                c.trivial();
                return Ok(());
            }
            let row = c.rng.below(i.rows);
            let a = c.rng.below(i.regs);
            let b = (a + 1) % i.regs;
            let e: F = rf_nonzero(&mut c.rng);
            i.bounds.push((a, row, add(w[a][row], e)));
            i.bounds.push((b, row, sub(w[b][row], e)));
            what = "boundary values of two registers at one row, off by e and -e";
        }
        3 => {
            // a boundary written as a constraint on one row, against a boundary
            let row = c.rng.below(i.rows - 1);
            let g = c.rng.below(i.regs);
            let e: F = rf_nonzero(&mut c.rng);
            i.cons.push(Con {
                constant: neg(add(w[g][row], e)),
                terms: vec![Term::Uni(Factor { coeff: F::one(), reg: g, step: 0, power: 1 })],
                start: row,
                span: i.rows - row - 1,
                style: c.rng.u64(),
            });
            i.bounds.push((g, row, sub(w[g][row], e)));
            what = "a constraint on one row against a boundary value at it";
        }
        _ => {
            // two violated constraints of different rows that add up to a satisfied one
            let (g, h) = (c.rng.below(i.regs), c.rng.below(i.regs));
            let span = c.rng.range(1, i.rows - 1);
            for (r, sign) in [(g, F::one()), (h, neg(F::one()))].iter() {
                i.cons.push(Con {
                    constant: F::zero(),
                    terms: vec![Term::Uni(Factor { coeff: *sign, reg: *r, step: 0, power: 1 })],
                    start: 0,
                    span,
                    style: c.rng.u64(),
                });
            }
            for row in 0..i.rows - span {
                if w[g][row].is_zero() {
                    c.trivial();
                    return Ok(());
                }
                if g != h {
                    w[h][row] = w[g][row];
                }
            }
            // only these two, so that nothing else can raise the alarm
            let n = i.cons.len();
            i.cons = i.cons.split_off(n - 2);
            i.bounds.retain(|(g, r, v)| w[*g][*r] == *v);
            what = "two violated constraints whose sum holds";
        }
    }
    if i.satisfied(&w) || i.cons.is_empty() {
        c.trivial();
        return Ok(());
    }
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {:?} {} bits; {}", i.desc(), cfg, F::NUM_BITS, what));
    c.count(&format!("false statements whose violations cancel: {}", what), 1);
    judge(c, &i, &w, &cfg, what)
}

/// Our own prover does everything right, but the witness is wrong.
fn own_prover<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let s = Shape { max_regs: 3, min_rows: 3, max_rows: 9, max_degree: 3, max_domain: 64, max_cons: 3 };
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(s));
    let (w, what) = match break_cell(&mut c.rng, &i) {
        Some(x) => x,
        None => {
            c.trivial();
            return Ok(());
        }
    };
    let cfg = Cfg { cpus: 1, lde: 8, out: 1 };
    c.desc(format!("{} {:?} {} bits; {}", i.desc(), cfg, F::NUM_BITS, what));
    let cols = model::columns(&i, &w);
    match honest_parts(&i, &cfg, &cols) {
        Some((p, a, b)) => {
            let proof: ProofOf<F, B2s<F>> = p.assemble(a, b);
            c.count("proofs of false statements by the harness's own prover", 1);
            if verify(&i, &cfg, &proof) == Verdict::Accept {
                return Err(format!("a false statement was accepted from the harness's own prover: {}", what));
            }
        }
        None => c.trivial(),
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.require("proofs of false statements that were made and not accepted");
    ctx.require("statements violated at a single place");
    for f in LARGE.iter() {
        let n = ctx.n(110, 4000);
        ctx.section(&format!("witness-{}", f), n, |c| with_field!(*f, witness, c));
    }
    macro_rules! sec {
        ($name:expr, $f:ident, $q:expr, $t:expr) => {
            let n = ctx.n($q, $t);
            ctx.section($name, n, |c| {
                let f = LARGE[c.idx as usize % LARGE.len()];
                with_field!(f, $f, c)
            });
        };
    }
    sec!("statement", statement, 500, 15000);
    sec!("cancelling", cancelling, 600, 15000);
    sec!("huge", huge, 21, 600);
    sec!("own", own_prover, 120, 3000);
}
