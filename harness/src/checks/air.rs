//! C15, C16 and C19: witness polynomials, the satisfaction check, and how constraints are built.

use crate::checks::fftc::CPUS;
use crate::fields::*;
use crate::fw::*;
use crate::inst::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::air::*;
use hodor::arp::*;
use hodor::verif_hooks::{force_cpus, worker_with_cpus};
use std::collections::BTreeMap;

type Arp<F> = ARPInstance<F, PerRegisterARP>;

fn es(e: hodor::SynthesisError) -> String {
    format!("error: {}", e)
}

fn ob<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    observe(f).map_err(|m| format!("{}: panic: {}", what, m))
}

// ------------------------------------------------------------------ witness polynomials

fn column<F: PrimeField>(r: &mut Rng, rows: usize) -> Vec<F> {
    match r.below(6) {
        0 => vec![rf_edge(r); rows],
        1 => {
            let mut v = vec![F::zero(); rows];
            let k = r.below(rows);
            v[k] = rf_nonzero(r);
            v
        }
        2 => (0..rows).map(|_| rf_edge(r)).collect(),
        3 => (0..rows).map(|k| int(k as u64 % 200)).collect(),
        _ => rvec(r, rows),
    }
}

/// A statement of the wanted shape; what it says does not matter here.
fn plain<F: PrimeField>(rows: usize, regs: usize) -> InstanceProperties<F> {
    let mut c = Constraint::<F>::default();
    let mut u = UnivariateTerm::<F>::from(Register::Register(0));
    c -= u;
    u.set_step_difference(1);
    c += u;
    InstanceProperties { num_rows: rows, num_registers: regs, constraints: vec![c], boundary_constraints: vec![] }
}

fn faithful<F: PrimeField>(c: &mut Case, name: &str, max_rows: usize, max_regs: usize) -> Result<(), String> {
    let r = &mut c.rng;
    let max_rows = max_rows.min(1 << (F::S as usize).min(20));
    let rows = if r.chance(1, 3) { 1 << r.range(1, log2(max_rows.next_power_of_two() / 2)) } else { r.range(2, max_rows) };
    let regs = r.range(1, max_regs);
    let cpus = *r.pick(&CPUS);
    c.desc(format!("{} {} rows, {} registers, cpus={}", name, rows, regs, cpus));
    let w: Vec<Vec<F>> = (0..regs).map(|_| column(&mut c.rng, rows)).collect();
    c.sig(&w[0][0].into_repr().as_ref());
    force_cpus(cpus);
    let worker = worker_with_cpus(cpus);
    let arp = ob("from_instance", || Arp::<F>::from_instance(plain(rows, regs), &worker))?.map_err(es)?;
    let polys = ob("calculate_witness_polys", || arp.calculate_witness_polys(w.clone(), &worker))?.map_err(es)?;
    if polys.len() != regs {
        return Err(format!("{} polynomials for {} registers", polys.len(), regs));
    }
    let n = rows.next_power_of_two();
    let x = root::<F>(n);
    for (g, p) in polys.iter().enumerate() {
        let p: &[F] = p.as_ref();
        if degree(p).map(|d| d >= n).unwrap_or(false) {
            return Err(format!("the polynomial of register {} has degree {:?} for {} rows", g, degree(p), rows));
        }
        for (row, y) in eval_domain(p, n, F::one()).into_iter().take(rows).enumerate() {
            if y != w[g][row] {
                return Err(format!("the polynomial of register {} gives {} at row {} of {} and not {}", g, show(&y), row, rows, show(&w[g][row])));
            }
        }
        c.count("rows compared", rows as u64);
    }
    if rows != n {
        c.count("traces of a length that is not a power of two", 1);
    }
    // and again, on another number of threads
    let worker2 = worker_with_cpus(*c.rng.pick(&CPUS));
    let again = ob("calculate_witness_polys", || arp.calculate_witness_polys(w.clone(), &worker2))?.map_err(es)?;
    if again.iter().zip(polys.iter()).any(|(a, b)| a.as_ref() != b.as_ref()) {
        return Err("another run gives other polynomials".to_string());
    }
    Ok(())
}

fn shapes<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let rows = r.range(2, 17);
    let regs = r.range(1, 5);
    c.desc(format!("{} malformed witnesses for {} rows, {} registers", name, rows, regs));
    let r = &mut c.rng;
    let w: Vec<Vec<F>> = (0..regs).map(|_| column(r, rows)).collect();
    let mut bad: Vec<(String, Vec<Vec<F>>)> = vec![("no registers".to_string(), vec![]), ("one empty register".to_string(), vec![vec![]]), ("all registers empty".to_string(), vec![vec![]; regs])];
    let mut x = w.clone();
    x.push(column(r, rows));
    bad.push(("a register more".to_string(), x));
    let mut x = w.clone();
    x.push(vec![]);
    bad.push(("an empty register more".to_string(), x));
    let mut x = w.clone();
    x.pop();
    bad.push(("a register less".to_string(), x));
    for g in 0..regs {
        for len in [0usize, 1, rows - 1, rows + 1, rows * 2, rows.next_power_of_two(), rows.next_power_of_two() * 2] {
            if len != rows {
                let mut x = w.clone();
                x[g].resize(len, F::one());
                bad.push((format!("{} rows in register {}", len, g), x));
            }
        }
        let mut x = w.clone();
        x.remove(g);
        bad.push((format!("register {} missing", g), x));
    }
    for len in [0usize, 1, rows - 1, rows + 1, rows.next_power_of_two(), 2 * rows] {
        if len != rows {
            let mut x = w.clone();
            for y in x.iter_mut() {
                y.resize(len, F::one());
            }
            bad.push((format!("{} rows in all registers", len), x));
        }
    }
    let cpus = *r.pick(&CPUS);
    force_cpus(cpus);
    let worker = worker_with_cpus(cpus);
    let props = plain::<F>(rows, regs);
    let arp = ob("from_instance", || Arp::<F>::from_instance(props.clone(), &worker))?.map_err(es)?;
    let prover = ob("Prover::new", || ProverOf::<F, B2s<F>>::new(props.clone(), 2, 1))?.map_err(es)?;
    for (what, x) in bad {
        if ob(&what, || arp.calculate_witness_polys(x.clone(), &worker))?.is_ok() {
            return Err(format!("interpolated for {} rows and {} registers: {}", rows, regs, what));
        }
        if ob(&what, || prover.prove(x.clone()))?.is_ok() {
            return Err(format!("proved for {} rows and {} registers: {}", rows, regs, what));
        }
        if ob(&what, || Arp::<F>::is_satisfied(&props, &x, &worker))?.is_ok() {
            return Err(format!("taken for satisfying with {} rows and {} registers: {}", rows, regs, what));
        }
        c.count("malformed witnesses refused", 1);
    }
    // the prover is none the worse for it
    let good: Vec<Vec<F>> = vec![vec![rf(&mut c.rng); rows]; regs];
    if ob("after malformed witnesses", || prover.prove(good))?.is_err() && F::NUM_BITS > 40 {
        return Err("a good witness is refused after malformed ones".to_string());
    }
    Ok(())
}

pub fn run_witness(ctx: &mut Ctx) {
    for k in ["rows compared", "traces of a length that is not a power of two", "malformed witnesses refused"] {
        ctx.require(k);
    }
    let n = ctx.n(4500, 90000);
    ctx.section("small", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, faithful, c, f, 64, 9)
    });
    let n = ctx.n(450, 4500);
    ctx.section("long", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, faithful, c, f, 600, 3)
    });
    let n = ctx.n(28, 560);
    ctx.section("huge", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, faithful, c, f, 40000, 2)
    });
    let n = ctx.n(450, 4500);
    ctx.section("wide", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, faithful, c, f, 9, 60)
    });
    let n = ctx.n(270, 5400);
    ctx.section("shapes", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, shapes, c, f)
    });
}

// ------------------------------------------------------------------ the satisfaction check

fn agree<F: PrimeField>(c: &mut Case, i: &Inst<F>, w: &Vec<Vec<F>>, props: &InstanceProperties<F>, what: &str) -> Result<bool, String> {
    let worker = worker_with_cpus(*c.rng.pick(&[1usize, 2, 8]));
    let got = ob(what, || Arp::<F>::is_satisfied(props, w, &worker))?.is_ok();
    let want = i.satisfied(w);
    if got != want {
        return Err(format!("{}: taken for {} and is {}", what, if got { "satisfying" } else { "violating" }, if want { "satisfying" } else { "violating" }));
    }
    c.count(if want { "satisfying witnesses" } else { "violating witnesses" }, 1);
    Ok(want)
}

fn decides<F: PrimeField>(c: &mut Case, name: &str, shape: Shape) -> Result<(), String> {
    let mut i: Inst<F> = generate(&mut c.rng, &shape);
    // some statements without constraints or boundaries
    if c.rng.chance(1, 12) {
        i.cons.clear();
    } else if c.rng.chance(1, 8) {
        i.bounds.clear();
    }
    c.desc(format!("{} {}", name, i.desc()));
    let props = i.props();
    let w = i.witness.clone();
    agree(c, &i, &w, &props, "the witness")?;
    let mut kept = 0;
    for g in 0..i.regs {
        let rows: Vec<usize> = if i.rows <= 200 { (0..i.rows).collect() } else { (0..40).map(|_| c.rng.below(i.rows)).chain(vec![0, 1, 2, i.rows - 3, i.rows - 2, i.rows - 1]).collect() };
        for row in rows {
            let mut x = w.clone();
            x[g][row] = match c.rng.below(4) {
                0 => add(x[g][row], F::one()),
                1 => sub(x[g][row], F::one()),
                2 => neg(x[g][row]),
                _ => rf(&mut c.rng),
            };
            if x == w {
                continue;
            }
            if agree(c, &i, &x, &props, &format!("register {} row {} changed", g, row))? {
                kept += 1;
            }
        }
    }
    c.count("cells that do not matter", kept);
    for _ in 0..if i.cons.is_empty() || i.bounds.is_empty() { 0 } else { 6 } {
        if let Some((s, what)) = break_statement(&mut c.rng, &i) {
            agree(c, &s, &w, &s.props(), &what)?;
        }
    }
    let x: Vec<Vec<F>> = (0..i.regs).map(|_| column(&mut c.rng, i.rows)).collect();
    agree(c, &i, &x, &props, "another witness")?;
    // boundary constraints without a value ask for nothing
    let mut p = props.clone();
    let mut k = i.clone();
    let dropped: Vec<usize> = (0..k.bounds.len()).filter(|_| c.rng.chance(1, 2)).collect();
    for d in dropped.iter().rev() {
        p.boundary_constraints[*d].value = None;
        k.bounds.remove(*d);
    }
    for _ in 0..4 {
        let mut x = w.clone();
        let (g, row) = (c.rng.below(i.regs), c.rng.below(i.rows));
        x[g][row] = rf(&mut c.rng);
        agree(c, &k, &x, &p, "boundary values left open")?;
    }
    Ok(())
}

/// Statements and witnesses that have nothing to do with each other, and a constant that fits one row.
fn arbitrary<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let s = Shape { max_regs: 3, min_rows: 2, max_rows: 8, max_degree: 6, max_domain: 256, max_cons: 1 };
    let mut i: Inst<F> = generate(&mut c.rng, &s);
    i.bounds.clear();
    c.desc(format!("{} {}", name, i.desc()));
    for k in 0..6 {
        let x: Vec<Vec<F>> = (0..i.regs).map(|_| column(&mut c.rng, i.rows)).collect();
        i.cons[0].constant = F::zero();
        if k > 0 {
            let e = i.cons[0].enforced(i.rows);
            let row = c.rng.range(e.start, e.end - 1);
            i.cons[0].constant = neg(i.cons[0].eval(&x, row));
        }
        let mut j = i.clone();
        if k > 3 {
            // in force at one row only
            let span = i.cons[0].max_step().max(1).max(c.rng.range(1, i.rows - 1));
            j.cons[0].span = span;
            j.cons[0].start = i.rows - span - 1;
            j.cons[0].constant = F::zero();
            j.cons[0].constant = neg(j.cons[0].eval(&x, j.cons[0].start));
            if c.rng.chance(1, 3) {
                j.cons[0].constant = add(j.cons[0].constant, F::one());
            }
        }
        agree(c, &j, &x, &j.props(), "an arbitrary statement")?;
    }
    Ok(())
}

pub fn run_satisfied(ctx: &mut Ctx) {
    for k in ["satisfying witnesses", "violating witnesses", "cells that do not matter"] {
        ctx.require(k);
    }
    let n = ctx.n(2700, 36000);
    ctx.section("cells", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        let s = Shape { max_regs: 4, min_rows: 2, max_rows: 18, max_degree: 6, max_domain: 1 << 20, max_cons: 5 };
        with_field!(f, decides, c, f, s)
    });
    let n = ctx.n(18, 180);
    ctx.section("long", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        let s = Shape { max_regs: 3, min_rows: 60, max_rows: 130, max_degree: 4, max_domain: 1 << 20, max_cons: 4 };
        with_field!(f, decides, c, f, s)
    });
    let n = ctx.n(18, 180);
    ctx.section("huge", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        let s = Shape { max_regs: 3, min_rows: 500, max_rows: 5000, max_degree: 4, max_domain: 1 << 20, max_cons: 4 };
        with_field!(f, decides, c, f, s)
    });
    let n = ctx.n(2700, 36000);
    ctx.section("arbitrary", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, arbitrary, c, f)
    });
}

// ------------------------------------------------------------------ building of constraints

type Mono = Vec<((usize, usize), u64)>;

/// Polynomials in the cells (register, step), expanded.
#[derive(Clone, Debug, PartialEq)]
struct Sym<F: PrimeField>(BTreeMap<Mono, F>);

impl<F: PrimeField> Sym<F> {
    fn constant(c: F) -> Self {
        let mut m = BTreeMap::new();
        if !c.is_zero() {
            m.insert(vec![], c);
        }
        Sym(m)
    }
    fn cell(reg: usize, step: usize) -> Self {
        let mut m = BTreeMap::new();
        m.insert(vec![((reg, step), 1)], F::one());
        Sym(m)
    }
    fn plus(&self, o: &Self, sign: F) -> Self {
        let mut m = self.0.clone();
        for (k, v) in &o.0 {
            let e = m.entry(k.clone()).or_insert(F::zero());
            *e = add(*e, mul(*v, sign));
        }
        m.retain(|_, v| !v.is_zero());
        Sym(m)
    }
    fn times(&self, o: &Self) -> Self {
        let mut out = Sym(BTreeMap::new());
        for (a, x) in &self.0 {
            for (b, y) in &o.0 {
                let mut e: BTreeMap<(usize, usize), u64> = a.iter().cloned().collect();
                for (k, p) in b {
                    *e.entry(*k).or_insert(0) += p;
                }
                let mut m = BTreeMap::new();
                m.insert(e.into_iter().collect::<Mono>(), mul(*x, *y));
                out = out.plus(&Sym(m), F::one());
            }
        }
        out
    }
    fn power(&self, n: u64) -> Self {
        // only of single terms
        let (k, v) = match self.0.iter().next() {
            Some(x) => x,
            None => return if n == 0 { Sym::constant(F::one()) } else { self.clone() },
        };
        let mut m = BTreeMap::new();
        m.insert(k.iter().map(|(c, p)| (*c, p * n)).collect::<Mono>(), pow(*v, n));
        m.retain(|_: &Mono, v: &mut F| !v.is_zero());
        Sym(m)
    }
    fn eval(&self, w: &[Vec<F>], row: usize) -> F {
        self.0.iter().fold(F::zero(), |a, (k, v)| add(a, k.iter().fold(*v, |p, ((g, s), e)| mul(p, pow(w[*g][row + s], *e)))))
    }
}

/// What a structure of the library says.
fn read_uni<F: PrimeField>(u: &UnivariateTerm<F>) -> Result<Sym<F>, String> {
    let g = match u.register {
        Register::Register(g) => g,
        _ => return Err("another kind of register".to_string()),
    };
    let s = match u.steps_difference {
        StepDifference::Steps(s) => s,
        _ => return Err("a mask".to_string()),
    };
    Ok(Sym::cell(g, s).power(u.power).times(&Sym::constant(u.coeff)))
}

fn read_poly<F: PrimeField>(p: &PolyvariateTerm<F>) -> Result<Sym<F>, String> {
    let mut s = Sym::constant(p.coeff);
    for u in &p.terms {
        s = s.times(&read_uni(u)?);
    }
    Ok(s)
}

fn read_con<F: PrimeField>(c: &Constraint<F>) -> Result<Sym<F>, String> {
    let mut s = Sym::constant(c.constant_term);
    for t in &c.terms {
        s = s.plus(
            &match t {
                ConstraintTerm::Univariate(u) => read_uni(u)?,
                ConstraintTerm::Polyvariate(p) => read_poly(p)?,
            },
            F::one(),
        );
    }
    Ok(s)
}

fn scalar<F: PrimeField>(r: &mut Rng) -> F {
    match r.below(6) {
        0 => F::one(),
        1 => neg(F::one()),
        2 => F::zero(),
        3 => int(2),
        _ => rf(r),
    }
}

const STEPS: usize = 4;
const REGS: usize = 3;

/// A term built by random operations, with what it has to mean and its degree.
fn build_uni<F: PrimeField>(r: &mut Rng) -> (UnivariateTerm<F>, Sym<F>, u64, String) {
    let g = r.below(REGS);
    let mut u = UnivariateTerm::<F>::from(Register::Register(g));
    let (mut step, mut power, mut coeff) = (0usize, 1u64, F::one());
    let mut how = format!("R{}", g);
    for _ in 0..r.below(6) {
        match r.below(5) {
            0 => {
                step = r.below(STEPS);
                u.set_step_difference(step);
                how += &format!(".step({})", step);
            }
            1 => {
                let n = r.below(4) as u64;
                if power * n > 12 {
                    continue;
                }
                u = u.pow(n);
                power *= n;
                coeff = pow(coeff, n);
                how += &format!(".pow({})", n);
            }
            2 => {
                let s: F = scalar(r);
                u *= s;
                coeff.mul_assign(&s);
                how += &format!("*{}", show(&s));
            }
            3 => {
                let s: F = scalar(r);
                u *= &s;
                coeff.mul_assign(&s);
                how += &format!("*&{}", show(&s));
            }
            _ => {
                let copy = u;
                let mut other = copy;
                other *= int::<F>(7);
                other.set_step_difference(3);
                let _ = other.pow(2);
                // a copy that goes its own way
            }
        }
    }
    let s = Sym::cell(g, step).power(power).times(&Sym::constant(coeff));
    (u, s, power, how)
}

fn build_poly<F: PrimeField>(r: &mut Rng, depth: usize) -> (PolyvariateTerm<F>, Sym<F>, u64, String) {
    let (mut p, mut s, mut d, mut how) = if r.chance(1, 2) {
        (PolyvariateTerm::<F>::default(), Sym::constant(F::one()), 0, "1".to_string())
    } else {
        let k: F = scalar(r);
        let (u, s, d, h) = build_uni::<F>(r);
        (PolyvariateTerm::from((k, u)), s.times(&Sym::constant(k)), d, format!("({}, {})", show(&k), h))
    };
    for _ in 0..r.below(5) {
        match r.below(4) {
            0 => {
                let (u, x, e, h) = build_uni::<F>(r);
                p *= u;
                s = s.times(&x);
                d += e;
                how += &format!(" * {}", h);
            }
            1 => {
                let k: F = scalar(r);
                p *= k;
                s = s.times(&Sym::constant(k));
                how += &format!(" * {}", show(&k));
            }
            2 => {
                let k: F = scalar(r);
                p *= &k;
                s = s.times(&Sym::constant(k));
                how += &format!(" * &{}", show(&k));
            }
            _ if depth > 0 => {
                let (q, x, e, h) = build_poly::<F>(r, depth - 1);
                p *= q;
                s = s.times(&x);
                d += e;
                how += &format!(" * ({})", h);
            }
            _ => {}
        }
    }
    (p, s, d, how)
}

fn building<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let mut con = Constraint::<F>::default();
    let mut want = Sym::constant(F::zero());
    let mut degree = 0u64;
    let mut how = String::new();
    let mut ops = 0;
    for _ in 0..r.range(1, 7) {
        ops += 1;
        let minus = r.chance(1, 2);
        let sign = if minus { neg(F::one()) } else { F::one() };
        how += if minus { " - " } else { " + " };
        match r.below(3) {
            0 => {
                let (u, s, d, h) = build_uni::<F>(r);
                if read_uni(&u)? != s || u.power != d {
                    return Err(format!("{} is {:?} and not {:?} of degree {}", h, u, s, d));
                }
                if minus {
                    con -= u
                } else {
                    con += u
                }
                want = want.plus(&s, sign);
                degree = degree.max(d);
                how += &h;
            }
            1 => {
                let (p, s, d, h) = build_poly::<F>(r, 2);
                if read_poly(&p)? != s || p.total_degree != d {
                    return Err(format!("{} is {:?} and not {:?} of degree {}", h, p, s, d));
                }
                if minus {
                    con -= p
                } else {
                    con += p
                }
                want = want.plus(&s, sign);
                degree = degree.max(d);
                how += &h;
            }
            _ => {
                let k: F = scalar(r);
                if minus {
                    con -= &k
                } else {
                    con += &k
                }
                want = want.plus(&Sym::constant(k), sign);
                how += &show(&k);
            }
        }
        let got = read_con(&con)?;
        if got != want {
            return Err(format!("{} is {:?} and not {:?}", how, got, want));
        }
        if con.degree != degree {
            return Err(format!("{} has degree {} and not {}", how, con.degree, degree));
        }
    }
    c.desc(format!("{} {}", name, how.chars().take(300).collect::<String>()));
    c.sig(&how);
    c.count("operations on constraints", ops);
    c.count(&format!("constraints of degree {}", degree.min(9)), 1);
    if con.clone() != con {
        return Err("a copy of a constraint differs".to_string());
    }

    // the library's own evaluation agrees: in force at one row, it fits one constant only
    let rows = STEPS + c.rng.range(1, 4);
    let w: Vec<Vec<F>> = (0..REGS).map(|_| column(&mut c.rng, rows)).collect();
    let start = rows - STEPS;
    con.density = ConstraintDensity::Dense(DenseConstraint::new(start - 1, STEPS));
    let v = want.eval(&w, start - 1);
    let worker = worker_with_cpus(1);
    for k in [F::zero(), F::one(), scalar::<F>(&mut c.rng)] {
        let mut x = con.clone();
        x -= &v;
        x += &k;
        let p = InstanceProperties { num_rows: rows, num_registers: REGS, constraints: vec![x], boundary_constraints: vec![] };
        let got = ob("is_satisfied", || Arp::<F>::is_satisfied(&p, &w, &worker))?.is_ok();
        if got != k.is_zero() {
            return Err(format!("{} does not evaluate to {} at row {}", how, show(&v), start - 1));
        }
        c.count("evaluations", 1);
    }
    Ok(())
}

/// Steps and registers keep their identity, defaults are what they say.
fn pieces<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    c.desc(format!("{} pieces {}", name, c.idx));
    let d = DenseConstraint::default();
    if (d.start_at, d.span) != (0, 1) {
        return Err(format!("a default constraint starts at {} with span {}", d.start_at, d.span));
    }
    let z = Constraint::<F>::default();
    if !z.constant_term.is_zero() || !z.terms.is_empty() || z.degree != 0 || z.density != ConstraintDensity::Dense(DenseConstraint::default()) {
        return Err("a default constraint is not empty".to_string());
    }
    let (a, b) = (c.rng.below(100), c.rng.range(1, 100));
    let d = DenseConstraint::new(a, b);
    if (d.start_at, d.span) != (a, b) {
        return Err("a constraint density is another one".to_string());
    }
    let (a, b, i) = (c.rng.below(100), c.rng.range(1, 100), c.rng.range(2, 50));
    let d = RepeatedConstraint::new(a, b, i);
    if (d.start_at, d.span, d.interval) != (a, b, i) {
        return Err("a repeated density is another one".to_string());
    }
    let rows: Vec<usize> = (0..c.rng.range(1, 9)).map(|_| c.rng.below(50)).collect();
    if SparseConstraint::new(rows.clone()).rows != rows {
        return Err("a sparse density is another one".to_string());
    }
    // powers beyond 64 bits are refused and not wrapped
    let mut u = UnivariateTerm::<F>::from(Register::Register(0));
    u.power = 1 << 40;
    match observe(|| u.pow(1 << 40)) {
        Err(_) => c.count("powers beyond the limit refused", 1),
        Ok(t) => return Err(format!("2^40 * 2^40 is {}", t.power)),
    }
    c.count("pieces", 1);
    Ok(())
}

pub fn run_building(ctx: &mut Ctx) {
    for k in ["operations on constraints", "evaluations", "pieces"] {
        ctx.require(k);
    }
    let n = ctx.n(90000, 900000);
    ctx.section("building", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, building, c, f)
    });
    let n = ctx.n(450, 4500);
    ctx.section("pieces", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, pieces, c, f)
    });
}
