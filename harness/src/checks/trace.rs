//! C23: a traced computation becomes the instance that it describes.

use crate::checks::examples::{holds, rows_of};
use crate::fields::*;
use crate::fw::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::air::*;
use hodor::arp::{ARPInstance, IntoARP, PerRegisterARP, ARP};
use hodor::verif_hooks::{new_tracer, run_tracer, worker_with_cpus};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Pc,
    Ordinary,
    Aux,
    Constant,
}

fn reg(k: Kind, i: usize) -> Register {
    match k {
        Kind::Pc => Register::ProgramCounter(i),
        Kind::Ordinary => Register::Register(i),
        Kind::Aux => Register::Aux(i),
        Kind::Constant => Register::Constant(i),
    }
}

#[derive(Clone)]
struct Factor<F: PrimeField> {
    coeff: F,
    kind: Kind,
    num: usize,
    step: usize,
    power: u64,
}

#[derive(Clone)]
enum Term<F: PrimeField> {
    Uni(Factor<F>),
    Poly(F, Vec<Factor<F>>),
}

struct Con<F: PrimeField> {
    constant: F,
    terms: Vec<Term<F>>,
    start: usize,
    span: usize,
}

/// The values of every register, by kind.
struct Values<F: PrimeField> {
    pc: Vec<Vec<F>>,
    ordinary: Vec<Vec<F>>,
    aux: Vec<Vec<F>>,
    constant: Vec<Vec<F>>,
}

impl<F: PrimeField> Values<F> {
    fn of(&self, k: Kind) -> &Vec<Vec<F>> {
        match k {
            Kind::Pc => &self.pc,
            Kind::Ordinary => &self.ordinary,
            Kind::Aux => &self.aux,
            Kind::Constant => &self.constant,
        }
    }
    fn all(&self) -> Vec<Vec<F>> {
        [Kind::Pc, Kind::Ordinary, Kind::Aux, Kind::Constant].iter().flat_map(|k| self.of(*k).clone()).collect()
    }
}

fn factor<F: PrimeField>(f: &Factor<F>) -> UnivariateTerm<F> {
    UnivariateTerm { coeff: f.coeff, register: reg(f.kind, f.num), steps_difference: StepDifference::Steps(f.step), power: f.power }
}

fn lib<F: PrimeField>(c: &Con<F>) -> Constraint<F> {
    let mut k = Constraint::<F>::default();
    k.density = ConstraintDensity::Dense(DenseConstraint::new(c.start, c.span));
    k += &c.constant;
    for t in &c.terms {
        match t {
            Term::Uni(f) => k += factor(f),
            Term::Poly(x, fs) => {
                let mut p = PolyvariateTerm::<F>::default();
                p *= x;
                for f in fs {
                    p *= factor(f);
                }
                k += p;
            }
        }
    }
    k
}

fn eval<F: PrimeField>(c: &Con<F>, v: &Values<F>, row: usize) -> F {
    let one = |f: &Factor<F>| mul(f.coeff, pow(v.of(f.kind)[f.num][row + f.step], f.power));
    c.terms.iter().fold(c.constant, |a, t| {
        add(
            a,
            match t {
                Term::Uni(f) => one(f),
                Term::Poly(x, fs) => fs.iter().fold(*x, |a, f| mul(a, one(f))),
            },
        )
    })
}

fn nonzero_power(r: &mut Rng) -> u64 {
    r.range(1, 3) as u64
}

fn columns<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let rows = r.range(2, 20);
    let counts = loop {
        let x = [if r.chance(1, 2) { 0 } else { r.range(1, 2) }, r.range(0, 3), if r.chance(1, 2) { 0 } else { r.range(1, 2) }, if r.chance(1, 2) { 0 } else { r.range(1, 2) }];
        if x.iter().sum::<usize>() > 0 {
            break x;
        }
    };
    let kinds = [Kind::Pc, Kind::Ordinary, Kind::Aux, Kind::Constant];
    let mut col = |n: usize, r: &mut Rng, con: bool| -> Vec<Vec<F>> {
        (0..n)
            .map(|_| {
                if con {
                    let v: F = rf(r);
                    vec![v; rows]
                } else {
                    rvec(r, rows)
                }
            })
            .collect()
    };
    let mut v = Values { pc: col(counts[0], r, false), ordinary: col(counts[1], r, false), aux: col(counts[2], r, false), constant: col(counts[3], r, true) };
    // allocation in any order
    let mut t = new_tracer::<F>();
    let mut order: Vec<Kind> = vec![];
    for (k, n) in kinds.iter().zip(counts.iter()) {
        for _ in 0..*n {
            order.insert(r.below(order.len() + 1), *k);
        }
    }
    let mut seen = [0usize; 4];
    for k in &order {
        let at = kinds.iter().position(|x| x == k).unwrap();
        let got = match k {
            Kind::Pc => {
                t.pc_registers.push(format!("pc{}", seen[at]));
                reg(*k, seen[at])
            }
            Kind::Ordinary => t.allocate_register(format!("r{}", seen[at])).map_err(|e| format!("{}", e))?,
            Kind::Aux => t.allocate_aux_register().map_err(|e| format!("{}", e))?,
            Kind::Constant => {
                let x = v.constant[seen[at]][0];
                t.allocate_constant_register(format!("c{}", seen[at]), move |_| Ok((x, true))).map_err(|e| format!("{}", e))?
            }
        };
        if got != reg(*k, seen[at]) {
            return Err(format!("register {} of a kind is handed out as {:?}", seen[at], got));
        }
        seen[at] += 1;
    }
    // constraints that the values satisfy, then perhaps not
    let ncons = r.range(1, 4);
    let mut cons = vec![];
    for _ in 0..ncons {
        let span = r.range(1, (rows - 1).min(3));
        let start = r.below(rows - span);
        let pick = |r: &mut Rng| -> Factor<F> {
            loop {
                let at = r.below(4);
                if counts[at] > 0 {
                    return Factor { coeff: rf_nonzero(r), kind: kinds[at], num: r.below(counts[at]), step: r.below(span + 1), power: nonzero_power(r) };
                }
            }
        };
        let nt = r.range(1, 4);
        let terms = (0..nt)
            .map(|_| {
                if r.chance(1, 2) {
                    Term::Uni(pick(r))
                } else {
                    let n = r.range(1, 3);
                    Term::Poly(rf_nonzero(r), (0..n).map(|_| pick(r)).collect())
                }
            })
            .collect::<Vec<_>>();
        cons.push(Con { constant: if r.chance(1, 2) { F::zero() } else { rf(r) }, terms, start, span });
    }
    let satisfied = r.chance(1, 2);
    if satisfied {
        // values that do not change, and a constant that makes up the rest
        for list in [&mut v.pc, &mut v.ordinary, &mut v.aux] {
            for x in list.iter_mut() {
                let y = x[0];
                x.iter_mut().for_each(|z| *z = y);
            }
        }
        for k in cons.iter_mut() {
            k.constant = sub(k.constant, eval(k, &v, k.start));
        }
    }
    for k in &cons {
        if r.chance(1, 2) {
            t.add_constraint(lib(k), |x| Ok(x)).map_err(|e| format!("{}", e))?;
        } else {
            t.add_constraint_with_witness(lib(k), |_| Ok(vec![])).map_err(|e| format!("{}", e))?;
        }
    }
    let nb = r.below(4);
    let mut bounds = vec![];
    while bounds.len() < nb {
        let at = r.below(4);
        if counts[at] == 0 {
            continue;
        }
        let (num, row) = (r.below(counts[at]), r.below(rows));
        let mut value = v.of(kinds[at])[num][row];
        if !satisfied && r.chance(1, 4) {
            value = rf(r);
        }
        t.add_boundary_constraint(format!("b{}", bounds.len()), reg(kinds[at], num), row, Some(value)).map_err(|e| format!("{}", e))?;
        bounds.push((kinds[at], num, row, value));
    }
    // the steps of the trace, in portions
    let mut left = rows - 1;
    while left > 0 {
        if t.get_step_number().map_err(|e| format!("{}", e))? != rows - 1 - left {
            return Err("a step number that is not the sum of the steps".to_string());
        }
        let k = r.range(1, left);
        t.step(k).map_err(|e| format!("{}", e))?;
        left -= k;
    }
    if t.step(0).is_ok() {
        return Err("no step at all is taken for a step".to_string());
    }
    t.pc_registers_witness = v.pc.clone();
    t.registers_witness = v.ordinary.clone();
    t.aux_registers_witness = v.aux.clone();
    t.constant_registers_witness = v.constant.clone();
    for k in 0..counts[1] {
        for row in 0..rows {
            if t.get_register(row, Register::Register(k)).map_err(|e| format!("{}", e))? != v.ordinary[k][row] {
                return Err("another value than the register has at that step".to_string());
            }
        }
        if t.get_register(rows, Register::Register(k)).is_ok() {
            return Err("a value of a step that has not been taken".to_string());
        }
    }
    if t.get_register(0, Register::Register(counts[1])).is_ok() {
        return Err("a value of a register that is not there".to_string());
    }
    c.desc(format!("{} {} rows, registers {:?}, {} constraints, {} boundaries, satisfied {}", name, rows, counts, cons.len(), bounds.len(), satisfied));

    let (w, p) = match observe(move || t.into_arp()) {
        Ok(x) => x,
        Err(m) => return Err(format!("the conversion panics: {}", m)),
    };
    let w = w.ok_or("the witness is lost")?;
    if w != v.all() {
        return Err("the columns of the witness are not those of the registers in order".to_string());
    }
    if p.num_rows != rows || p.num_registers != w.len() {
        return Err(format!("{} rows and {} registers for {} and {}", p.num_rows, p.num_registers, rows, w.len()));
    }
    if p.constraints.len() != cons.len() || p.boundary_constraints.len() != bounds.len() {
        return Err("constraints or boundary values are lost".to_string());
    }
    let first = |k: Kind| kinds.iter().take_while(|x| **x != k).enumerate().map(|(i, _)| counts[i]).sum::<usize>();
    for (a, b) in bounds.iter().zip(p.boundary_constraints.iter()) {
        if b.register != Register::Register(first(a.0) + a.1) || b.at_row != a.2 || b.value != Some(a.3) {
            return Err(format!("the boundary value of {:?} {} is now one of {:?}", a.0, a.1, b.register));
        }
    }
    // the same function of the registers
    for turn in 0..4 {
        let x = if turn == 0 {
            Values { pc: v.pc.clone(), ordinary: v.ordinary.clone(), aux: v.aux.clone(), constant: v.constant.clone() }
        } else {
            let mut y = |n: usize| -> Vec<Vec<F>> { (0..n).map(|_| rvec(&mut c.rng, rows)).collect() };
            Values { pc: y(counts[0]), ordinary: y(counts[1]), aux: y(counts[2]), constant: y(counts[3]) }
        };
        let flat = x.all();
        for (a, b) in cons.iter().zip(p.constraints.iter()) {
            if rows_of(b, rows) != (a.start..rows - a.span) {
                return Err("a constraint at other rows".to_string());
            }
            for row in a.start..rows - a.span {
                if crate::checks::examples::value(b, &flat, row) != eval(a, &x, row) {
                    return Err("a constraint that denotes another function of the registers".to_string());
                }
                c.count("values of constraints compared", 1);
            }
        }
    }
    let good = holds(&p, &w).is_ok();
    if satisfied && !good {
        return Err("a satisfied statement is one no longer".to_string());
    }
    let worker = worker_with_cpus(c.rng.range(1, 8));
    let own = observe(|| ARPInstance::<F, PerRegisterARP>::is_satisfied(&p, &w, &worker).is_ok());
    if own != Ok(good) {
        return Err(format!("the library's check says {:?} and the definition {}", own, good));
    }
    c.count(if good { "instances satisfied" } else { "instances not satisfied" }, 1);
    if counts[0] + counts[2] + counts[3] > 0 {
        c.count("instances with registers of several kinds", 1);
    }
    Ok(())
}

/// Two registers that start at one, and what the tracer makes of their generators.
fn generated<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let steps = c.rng.range(1, 40);
    // next = x0 + x1 a + x2 b + x3 a b + x4 a^2
    let coeffs: Vec<Vec<F>> = (0..2).map(|_| (0..5).map(|_| if c.rng.chance(1, 3) { F::zero() } else { rf(&mut c.rng) }).collect()).collect();
    let next = |k: &Vec<F>, a: F, b: F| -> F { add(add(add(k[0], mul(k[1], a)), add(mul(k[2], b), mul(k[3], mul(a, b)))), mul(k[4], mul(a, a))) };
    c.desc(format!("{} {} generated steps, {}", name, steps, show(&coeffs[0][1])));
    let mut t = new_tracer::<F>();
    let ra = t.allocate_register("A".to_string()).map_err(|e| format!("{}", e))?;
    let rb = t.allocate_register("B".to_string()).map_err(|e| format!("{}", e))?;
    for k in 0..2 {
        let target = [ra, rb][k];
        let q = coeffs[k].clone();
        let f = move |s: &TestTraceSystem<F>| {
            let at = s.get_step_number()?;
            let (a, b) = (s.get_register(at, ra)?, s.get_register(at, rb)?);
            let v = add(add(add(q[0], mul(q[1], a)), add(mul(q[2], b), mul(q[3], mul(a, b)))), mul(q[4], mul(a, a)));
            Ok(vec![(v, target, 1)])
        };
        let x = &coeffs[k];
        let u = |r: Register, s: usize, p: u64, c: F| UnivariateTerm { coeff: c, register: r, steps_difference: StepDifference::Steps(s), power: p };
        let mut con = Constraint::<F>::default();
        con += u(target, 1, 1, F::one());
        con -= &x[0];
        con -= u(ra, 0, 1, x[1]);
        con -= u(rb, 0, 1, x[2]);
        let mut m = PolyvariateTerm::<F>::default();
        m *= &x[3];
        m *= u(ra, 0, 1, F::one());
        m *= u(rb, 0, 1, F::one());
        con -= m;
        con -= u(ra, 0, 2, x[4]);
        t.add_constraint_with_witness(con, f).map_err(|e| format!("{}", e))?;
    }
    let (mut a, mut b) = (vec![F::one()], vec![F::one()]);
    for k in 0..steps {
        let (x, y) = (a[k], b[k]);
        a.push(next(&coeffs[0], x, y));
        b.push(next(&coeffs[1], x, y));
    }
    for (k, r) in [ra, rb].iter().enumerate() {
        t.add_boundary_constraint("end".to_string(), *r, steps, Some([&a, &b][k][steps])).map_err(|e| format!("{}", e))?;
    }
    let (w, p) = match observe(move || {
        run_tracer(&mut t, steps);
        t.into_arp()
    }) {
        Ok(x) => x,
        Err(m) => return Err(format!("the tracer panics: {}", m)),
    };
    let w = w.ok_or("the witness is lost")?;
    if w != vec![a, b] {
        return Err("another trace than the generators describe".to_string());
    }
    if p.num_rows != steps + 1 || p.num_registers != 2 {
        return Err(format!("{} rows and {} registers after {} steps of two", p.num_rows, p.num_registers, steps));
    }
    holds(&p, &w).map_err(|m| format!("the trace does not satisfy {}", m))?;
    c.count("generated traces", 1);
    Ok(())
}

/// The verifier's side: the statement alone.
fn bare<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let regs = c.rng.range(1, 4);
    let rows = c.rng.range(2, 30);
    c.desc(format!("{} {} registers and {} rows without values", name, regs, rows));
    let mut t = new_tracer::<F>();
    let mut last = None;
    for k in 0..regs {
        last = Some(t.allocate_register(format!("r{}", k)).map_err(|e| format!("{}", e))?);
    }
    t.step(rows - 1).map_err(|e| format!("{}", e))?;
    let v: F = rf(&mut c.rng);
    t.add_boundary_constraint("b".to_string(), last.unwrap(), 0, Some(v)).map_err(|e| format!("{}", e))?;
    match observe(move || t.into_arp()) {
        Err(m) => Err(format!("the conversion panics: {}", m)),
        Ok((w, p)) => {
            if w.is_some() || p.num_rows != rows || p.num_registers != regs || p.boundary_constraints.len() != 1 {
                return Err("another statement than the one traced".to_string());
            }
            c.count("statements without values", 1);
            Ok(())
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    for k in ["instances satisfied", "instances not satisfied", "instances with registers of several kinds", "values of constraints compared", "generated traces", "statements without values"] {
        ctx.require(k);
    }
    let n = ctx.n(18000, 360000);
    ctx.section("columns", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, columns, c, f)
    });
    let n = ctx.n(4500, 90000);
    ctx.section("generated", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, generated, c, f)
    });
    let n = ctx.n(90, 900);
    ctx.section("bare", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, bare, c, f)
    });
}
