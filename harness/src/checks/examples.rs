//! C22: the example computations, and the quadratic extension.

use crate::fields::*;
use crate::fw::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::{Field, LegendreSymbol, PrimeField, SqrtField};
use hodor::air::*;
use hodor::arp::{ARPInstance, InstanceProperties, IntoARP, PerRegisterARP, ARP};
use hodor::verif_hooks::{force_cpus, trace_fibonacci, worker_with_cpus, CubicVDF, Fq2, VDF};

type T<F> = B2s<F>;
type Trace<F> = Vec<Vec<F>>;

fn col(r: &Register) -> usize {
    match r {
        Register::Register(i) => *i,
        _ => panic!("a register of a kind that a statement cannot have"),
    }
}

fn uni<F: PrimeField>(t: &UnivariateTerm<F>, w: &[Vec<F>], row: usize) -> F {
    let s = match &t.steps_difference {
        StepDifference::Steps(s) => *s,
        _ => panic!("a step that is not a number"),
    };
    mul(t.coeff, pow(w[col(&t.register)][row + s], t.power))
}

/// The value of a constraint, from the definition.
pub fn value<F: PrimeField>(c: &Constraint<F>, w: &[Vec<F>], row: usize) -> F {
    c.terms.iter().fold(c.constant_term, |a, t| {
        add(
            a,
            match t {
                ConstraintTerm::Univariate(t) => uni(t, w, row),
                ConstraintTerm::Polyvariate(p) => p.terms.iter().fold(p.coeff, |a, t| mul(a, uni(t, w, row))),
            },
        )
    })
}

pub fn rows_of<F: PrimeField>(c: &Constraint<F>, rows: usize) -> std::ops::Range<usize> {
    match &c.density {
        ConstraintDensity::Dense(d) => d.start_at..rows.saturating_sub(d.span),
        _ => panic!("another density"),
    }
}

pub fn holds<F: PrimeField>(p: &InstanceProperties<F>, w: &[Vec<F>]) -> Result<(), String> {
    for (k, c) in p.constraints.iter().enumerate() {
        for row in rows_of(c, p.num_rows) {
            if !value(c, w, row).is_zero() {
                return Err(format!("constraint {} at row {}", k, row));
            }
        }
    }
    for b in &p.boundary_constraints {
        if Some(w[col(&b.register)][b.at_row]) != b.value {
            return Err(format!("boundary of {:?} at row {}", b.register, b.at_row));
        }
    }
    Ok(())
}

fn own_check<F: PrimeField>(p: &InstanceProperties<F>, w: &Trace<F>, cpus: usize) -> Result<bool, String> {
    let worker = worker_with_cpus(cpus);
    observe(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(p, w, &worker).is_ok())
}

fn through<F: PrimeField>(p: &InstanceProperties<F>, w: &Trace<F>, cfg: &Cfg) -> Result<Verdict, String> {
    force_cpus(cfg.cpus);
    let proof = match observe(|| ProverOf::<F, T<F>>::new(p.clone(), cfg.lde, cfg.out).and_then(|x| x.prove(w.clone()))) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return Err(format!("{}", e)),
        Err(m) => return Err(format!("panic: {}", m)),
    };
    Ok(match observe(|| VerifierOf::<F, T<F>>::new(p.clone(), cfg.lde).and_then(|v| v.verify(&proof))) {
        Ok(Ok(true)) => Verdict::Accept,
        Ok(Ok(false)) => Verdict::Reject,
        Ok(Err(e)) => Verdict::Error(err_str(e)),
        Err(m) => Verdict::Panic(m),
    })
}

fn config(r: &mut Rng, rows: usize, degree: usize) -> Cfg {
    loop {
        let cpus = *r.pick(&[1usize, 2, 3, 4, 7, 8]);
        let lde = *r.pick(&[2usize, 4, 8, 16]);
        if lde_defective(cpus, lde) || lde_defective(cpus, degree) {
            continue;
        }
        let out = if r.chance(1, 2) { 1 } else { 1 << r.below(log2(rows.next_power_of_two()) + 1) };
        return Cfg { cpus, lde, out };
    }
}

struct Expected<F: PrimeField> {
    what: &'static str,
    trace: Trace<F>,
    bounds: Vec<(usize, usize, F)>,
    degree: usize,
    /// the cells that nothing determines
    free: Vec<(usize, usize)>,
}

fn judge<F: PrimeField>(c: &mut Case, got: (Option<Trace<F>>, InstanceProperties<F>), e: &Expected<F>, prove: bool) -> Result<(), String> {
    let (w, p) = got;
    let w = w.ok_or("no trace at all")?;
    let rows = e.trace[0].len();
    if w != e.trace {
        return Err(format!("{}: another trace than the computation has", e.what));
    }
    if p.num_rows != rows || p.num_registers != e.trace.len() {
        return Err(format!("{}: {} rows and {} registers for a trace of {} and {}", e.what, p.num_rows, p.num_registers, rows, e.trace.len()));
    }
    let mut have: Vec<String> = p.boundary_constraints.iter().map(|b| format!("{} {} {}", col(&b.register), b.at_row, b.value.map(|v| show(&v)).unwrap_or_default())).collect();
    let mut want: Vec<String> = e.bounds.iter().map(|b| format!("{} {} {}", b.0, b.1, show(&b.2))).collect();
    have.sort();
    want.sort();
    if have != want {
        return Err(format!("{}: boundary values {:?} and not {:?}", e.what, have, want));
    }
    holds(&p, &w).map_err(|m| format!("{}: the trace does not satisfy its own {}", e.what, m))?;
    let cfg = config(&mut c.rng, rows, e.degree);
    if !own_check(&p, &w, cfg.cpus)? {
        return Err(format!("{}: the library's check refuses the trace", e.what));
    }
    c.count("traces satisfied", 1);
    c.sig(&p.num_rows);
    c.sig(&w.iter().map(|r| show(&r[0])).collect::<Vec<_>>());
    // wrong cells
    for _ in 0..6 {
        let mut bad = w.clone();
        let k = c.rng.below(bad.len());
        let edge = [0, rows - 1, rows / 2];
        let row = if c.rng.chance(1, 2) { edge[c.rng.below(3)] } else { c.rng.below(rows) };
        if e.free.contains(&(k, row)) {
            continue;
        }
        let old = bad[k][row];
        while bad[k][row] == old {
            bad[k][row] = match c.rng.below(4) {
                0 => neg(old),
                1 => add(old, F::one()),
                2 => sub(old, F::one()),
                _ => rf(&mut c.rng),
            };
        }
        if holds(&p, &bad).is_ok() {
            // a square root has two values: with one row and no value it may be the other
            c.count("other traces of the same statement", 1);
            if !own_check(&p, &bad, cfg.cpus)? {
                return Err(format!("{}: the library's check refuses another good trace", e.what));
            }
            continue;
        }
        if own_check(&p, &bad, cfg.cpus)? {
            return Err(format!("{}: the library's check passes a wrong cell in column {} row {}", e.what, k, row));
        }
        c.count("wrong cells refused", 1);
    }
    if !prove {
        return Ok(());
    }
    match through(&p, &w, &cfg) {
        Ok(Verdict::Accept) => c.count("traces proved", 1),
        other => return Err(format!("{} with {:?}: {:?}", e.what, cfg, other)),
    }
    // wrong cells, and a statement with another result
    for turn in 0..3 {
        let mut bad = w.clone();
        let mut q = p.clone();
        if turn == 0 {
            let k = q.boundary_constraints.len() - 1 - c.rng.below(2.min(q.boundary_constraints.len() - 1));
            let v = q.boundary_constraints[k].value.unwrap();
            q.boundary_constraints[k].value = Some(add(v, rf_nonzero(&mut c.rng)));
        } else {
            let k = c.rng.below(bad.len());
            let row = c.rng.below(rows);
            bad[k][row] = add(bad[k][row], rf_nonzero(&mut c.rng));
        }
        if holds(&q, &bad).is_ok() {
            continue;
        }
        if through(&q, &bad, &cfg) == Ok(Verdict::Accept) {
            return Err(format!("{} with {:?}: accepted although wrong (turn {})", e.what, cfg, turn));
        }
        c.count("wrong traces not accepted", 1);
    }
    Ok(())
}

fn mul2<F: PrimeField>(x: (F, F), y: (F, F)) -> (F, F) {
    (sub(mul(x.0, y.0), mul(x.1, y.1)), add(mul(x.0, y.1), mul(x.1, y.0)))
}

fn start<F: PrimeField>(r: &mut Rng) -> (F, F) {
    match r.below(8) {
        0 => (F::zero(), F::zero()),
        1 => (F::one(), F::one()),
        2 => (rf(r), F::zero()),
        3 => (F::zero(), rf(r)),
        4 => (rf_edge(r), rf_edge(r)),
        _ => (rf(r), rf(r)),
    }
}

fn steps(c: &mut Case) -> usize {
    match c.rng.below(6) {
        0 => 1,
        1 => (1 << c.rng.range(1, 6)) - 1,
        2 => 1 << c.rng.range(1, 5),
        3 => c.rng.range(60, 200),
        _ => c.rng.range(1, 40),
    }
}

fn square_vdf<F: PrimeField>(s: (F, F), n: usize) -> Expected<F> {
    let mut t = vec![vec![], vec![]];
    let mut x = s;
    for k in 0..n + 1 {
        t[0].push(x.0);
        t[1].push(x.1);
        if k < n {
            x = mul2(x, x);
        }
    }
    let bounds = vec![(0, 0, s.0), (1, 0, s.1), (0, n, x.0), (1, n, x.1)];
    Expected { what: "VDF", trace: t, bounds, degree: 2, free: vec![] }
}

fn cubic_vdf<F: PrimeField>(s: (F, F), n: usize) -> Expected<F> {
    let mut t = vec![vec![]; 4];
    let mut x = s;
    for k in 0..n + 1 {
        let q = mul2(x, x);
        for (k, v) in [x.0, x.1, q.0, q.1].iter().enumerate() {
            t[k].push(*v);
        }
        if k < n {
            x = mul2(x, mul2(x, x));
        }
    }
    let bounds = vec![(0, 0, s.0), (1, 0, s.1), (0, n, x.0), (1, n, x.1)];
    // the square at the last row is not the start of anything
    Expected { what: "cubic VDF", trace: t, bounds, degree: 2, free: vec![(2, n), (3, n)] }
}

fn vdfs<F: PrimeField>(c: &mut Case, name: &str, prove: bool) -> Result<(), String> {
    let n = steps(c);
    let s: (F, F) = start(&mut c.rng);
    c.desc(format!("{} {} steps from ({}, {})", name, n, show(&s.0), show(&s.1)));
    let v = VDF::<F> { start_c0: s.0, start_c1: s.1, num_operations: n };
    judge(c, v.into_arp(), &square_vdf(s, n), prove)?;
    c.count("square VDFs", 1);
    let v = CubicVDF::<F> { start_c0: s.0, start_c1: s.1, num_operations: n };
    judge(c, v.into_arp(), &cubic_vdf(s, n), prove)?;
    c.count("cubic VDFs", 1);
    Ok(())
}

fn fibonacci<F: PrimeField>(c: &mut Case, name: &str, prove: bool) -> Result<(), String> {
    // the result is given as a u64
    let n = if c.rng.chance(1, 6) { c.rng.range(60, 90) } else { steps(c).min(90) };
    let at = if c.rng.chance(1, 2) { n } else { c.rng.range(1, n) };
    let mut ints = vec![1u64, 1];
    for k in 2..n + 3 {
        let v = ints[k - 1] + ints[k - 2];
        ints.push(v);
    }
    c.desc(format!("{} fibonacci, {} steps, value at {}", name, n, at));
    let a: Vec<F> = (0..n + 1).map(|k| int(ints[k])).collect();
    let b: Vec<F> = (0..n + 1).map(|k| int(ints[k + 1])).collect();
    let bounds = vec![(0, 0, F::one()), (1, 0, F::one()), (1, at, int(ints[at + 1]))];
    let e = Expected { what: "Fibonacci", trace: vec![a, b], bounds, degree: 1, free: vec![] };
    judge(c, trace_fibonacci::<F>(ints[at + 1], at, n), &e, prove)?;
    c.count("Fibonacci traces", 1);
    Ok(())
}

/// The constraints hold between two states exactly when one is the successor of the other.
fn relation<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    c.desc(format!("{} relations", name));
    let zero = |p: &InstanceProperties<F>, w: &Trace<F>| p.constraints.iter().all(|k| value(k, w, 0).is_zero());
    let (_, sq) = VDF::<F> { start_c0: F::one(), start_c1: F::one(), num_operations: 3 }.into_arp();
    let (_, cu) = CubicVDF::<F> { start_c0: F::one(), start_c1: F::one(), num_operations: 3 }.into_arp();
    for p in [&sq, &cu] {
        if p.constraints.iter().any(|k| rows_of(k, 4) != (0..3)) {
            return Err("a constraint that is not enforced between every two rows".to_string());
        }
        if p.constraints.iter().any(|k| k.degree != 2) {
            return Err("a constraint of another degree than 2".to_string());
        }
    }
    for _ in 0..40 {
        let x: (F, F) = start(&mut c.rng);
        let mut y = mul2(x, x);
        let wrong = c.rng.chance(1, 2);
        if wrong {
            let d = rf_nonzero(&mut c.rng);
            match c.rng.below(4) {
                0 => y.0 = add(y.0, d),
                1 => y.1 = add(y.1, d),
                2 => y.1 = neg(y.1),
                _ => y = (y.1, y.0),
            }
        }
        let w = vec![vec![x.0, y.0], vec![x.1, y.1]];
        if zero(&sq, &w) != (y == mul2(x, x)) {
            return Err("VDF: the constraints are not the squaring".to_string());
        }
        let mut s = mul2(x, x);
        let mut y = mul2(s, x);
        if c.rng.chance(1, 2) {
            let d = rf_nonzero(&mut c.rng);
            match c.rng.below(6) {
                0 => y.0 = add(y.0, d),
                1 => y.1 = add(y.1, d),
                2 => s.0 = add(s.0, d),
                3 => s.1 = add(s.1, d),
                4 => {
                    s = (add(s.0, d), s.1);
                    y = mul2(s, x)
                }
                _ => {
                    s = (s.0, add(s.1, d));
                    y = mul2(s, x)
                }
            }
        }
        let w = vec![vec![x.0, y.0], vec![x.1, y.1], vec![s.0, F::zero()], vec![s.1, F::zero()]];
        let good = s == mul2(x, x) && y == mul2(mul2(x, x), x);
        if zero(&cu, &w) != good {
            return Err("cubic VDF: the constraints are not the cubing".to_string());
        }
        c.count("pairs of states", 2);
    }
    Ok(())
}

// ------------------------------------------------------------------ the quadratic extension

fn el(r: &mut Rng) -> Fq2 {
    match r.below(8) {
        0 => Fq2 { c0: rf(r), c1: Fr252::zero() },
        1 => Fq2 { c0: Fr252::zero(), c1: rf(r) },
        2 => Fq2 { c0: rf_edge(r), c1: rf_edge(r) },
        3 => *r.pick(&[Fq2::zero(), Fq2::one(), Fq2 { c0: Fr252::zero(), c1: Fr252::one() }]),
        4 => {
            let x: Fr252 = rf(r);
            Fq2 { c0: x, c1: if r.chance(1, 2) { x } else { neg(x) } }
        }
        _ => Fq2 { c0: rf(r), c1: rf(r) },
    }
}

fn euler(x: Fr252) -> LegendreSymbol {
    // (q - 1) / 2, from the limbs of -1
    let mut l = to_limbs(&neg(Fr252::one()));
    for k in 0..l.len() {
        l[k] >>= 1;
        if k + 1 < l.len() {
            l[k] |= l[k + 1] << 63;
        }
    }
    let mut r = Fr252::one();
    for k in (0..l.len() * 64).rev() {
        r = mul(r, r);
        if l[k / 64] >> (k % 64) & 1 == 1 {
            r = mul(r, x);
        }
    }
    if r.is_zero() {
        LegendreSymbol::Zero
    } else if r == Fr252::one() {
        LegendreSymbol::QuadraticResidue
    } else {
        LegendreSymbol::QuadraticNonResidue
    }
}

fn ok(b: bool, m: &str) -> Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(m.to_string())
    }
}

fn extension(c: &mut Case) -> Result<(), String> {
    let r = &mut c.rng;
    let u = Fq2 { c0: Fr252::zero(), c1: Fr252::one() };
    // what u squares to
    let mut beta2 = u;
    beta2.mul_assign(&u);
    ok(beta2.c1.is_zero() && euler(beta2.c0) == LegendreSymbol::QuadraticNonResidue, "u does not square to a non-residue")?;
    let beta = beta2.c0;
    let times = |a: &Fq2, b: &Fq2| Fq2 { c0: add(mul(a.c0, b.c0), mul(beta, mul(a.c1, b.c1))), c1: add(mul(a.c0, b.c1), mul(a.c1, b.c0)) };
    let mut residues = 0;
    let mut non = 0;
    for _ in 0..6 {
        let (a, b) = (el(r), el(r));
        let m = format!("a = {}, b = {}", a, b);
        let e = |x: Fq2, y: Fq2, what: &str| ok(x == y, &format!("{}: {}, {} and not {}", m, what, x, y));
        e(mul(a, b), times(&a, &b), "product")?;
        e(add(a, b), Fq2 { c0: add(a.c0, b.c0), c1: add(a.c1, b.c1) }, "sum")?;
        e(sub(a, b), Fq2 { c0: sub(a.c0, b.c0), c1: sub(a.c1, b.c1) }, "difference")?;
        e(neg(a), Fq2 { c0: neg(a.c0), c1: neg(a.c1) }, "negation")?;
        let mut x = a;
        x.square();
        e(x, times(&a, &a), "square")?;
        let mut x = a;
        x.double();
        e(x, add(a, a), "double")?;
        let mut x = a;
        x.mul_by_0(&b.c0);
        e(x, times(&a, &Fq2 { c0: b.c0, c1: Fr252::zero() }), "product with a base element")?;
        let mut x = a;
        x.mul_by_1(&b.c1);
        e(x, times(&a, &Fq2 { c0: Fr252::zero(), c1: b.c1 }), "product with a multiple of u")?;
        let k = r.below(70) as u64;
        e(a.pow(&[k]), (0..k).fold(Fq2::one(), |x, _| times(&x, &a)), "power")?;
        ok(a.is_zero() == (a.c0.is_zero() && a.c1.is_zero()), "is_zero")?;
        let order = (to_limbs(&a.c1).iter().rev().cloned().collect::<Vec<_>>(), to_limbs(&a.c0).iter().rev().cloned().collect::<Vec<_>>())
            .cmp(&(to_limbs(&b.c1).iter().rev().cloned().collect(), to_limbs(&b.c0).iter().rev().cloned().collect()));
        ok(a.cmp(&b) == order && a.partial_cmp(&b) == Some(order), "the order")?;
        match a.inverse() {
            None => ok(a.is_zero(), "no inverse")?,
            Some(i) => e(times(&a, &i), Fq2::one(), "a times its inverse")?,
        }
        let norm = sub(mul(a.c0, a.c0), mul(beta, mul(a.c1, a.c1)));
        ok(a.norm() == norm, &format!("{}: the norm of a is {} and not {}", m, a.norm(), norm))?;
        let nb = sub(mul(b.c0, b.c0), mul(beta, mul(b.c1, b.c1)));
        ok(times(&a, &b).norm() == mul(norm, nb), &format!("{}: the norm is not multiplicative", m))?;
        let sign = euler(norm);
        ok(same(&a.legendre(), &sign), &format!("{}: legendre of a is {:?} and not {:?}", m, a.legendre(), sign))?;
        match (a.sqrt(), &sign) {
            (Some(s), LegendreSymbol::Zero) => ok(s.is_zero(), "root of zero")?,
            (Some(s), LegendreSymbol::QuadraticResidue) => {
                e(times(&s, &s), a, "root of a, squared")?;
                residues += 1
            }
            (None, LegendreSymbol::QuadraticNonResidue) => non += 1,
            (s, _) => return Err(format!("{}: the square root of a {:?} is {:?}", m, sign, s)),
        }
        let s = times(&a, &a);
        match s.sqrt() {
            Some(x) => ok(x == a || x == neg(a), &format!("{}: the root of a squared is {}", m, x))?,
            None => return Err(format!("{}: a squared has no root", m)),
        }
    }
    c.count("square roots", residues + 6);
    c.count("elements without a root", non);
    c.count("pairs of elements", 6);
    c.desc(format!("elements {}", c.idx));
    Ok(())
}

fn same(a: &LegendreSymbol, b: &LegendreSymbol) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}

pub fn run(ctx: &mut Ctx) {
    for k in ["square VDFs", "cubic VDFs", "Fibonacci traces", "traces proved", "wrong cells refused", "wrong traces not accepted", "pairs of states", "square roots", "elements without a root"] {
        ctx.require(k);
    }
    let n = ctx.n(280, 5600);
    ctx.section("proved", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        if c.rng.chance(1, 3) {
            with_field!(f, fibonacci, c, f, true)
        } else {
            with_field!(f, vdfs, c, f, true)
        }
    });
    let n = ctx.n(810, 16200);
    ctx.section("checked", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, vdfs, c, f, false)?;
        with_field!(f, fibonacci, c, f, false)
    });
    let n = ctx.n(180, 1800);
    ctx.section("relation", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, relation, c, f)
    });
    let n = ctx.n(1600, 64000);
    ctx.section("extension", n, extension);
}
