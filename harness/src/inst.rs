//! Random statements together with satisfying witnesses, in a representation of their own, and an
//! evaluator that decides from the definition whether a witness satisfies a statement.

use crate::fw::Rng;
use crate::refmath::*;
use ff::PrimeField;
use hodor::air::*;
use hodor::arp::InstanceProperties;

#[derive(Clone, Debug)]
pub struct Factor<F: PrimeField> {
    pub coeff: F,
    pub reg: usize,
    pub step: usize,
    pub power: u64,
}

#[derive(Clone, Debug)]
pub enum Term<F: PrimeField> {
    Uni(Factor<F>),
    Poly(F, Vec<Factor<F>>),
}

#[derive(Clone, Debug)]
pub struct Con<F: PrimeField> {
    pub constant: F,
    pub terms: Vec<Term<F>>,
    pub start: usize,
    pub span: usize,
    /// selects how the library's constraint is put together; the meaning is the same
    pub style: u64,
}

#[derive(Clone, Debug)]
pub struct Inst<F: PrimeField> {
    pub rows: usize,
    pub regs: usize,
    pub cons: Vec<Con<F>>,
    pub bounds: Vec<(usize, usize, F)>,
    pub witness: Vec<Vec<F>>,
}

impl<F: PrimeField> Factor<F> {
    pub fn eval(&self, w: &[Vec<F>], row: usize) -> F {
        mul(pow(w[self.reg][row + self.step], self.power), self.coeff)
    }
    pub fn lib(&self) -> UnivariateTerm<F> {
        UnivariateTerm {
            coeff: self.coeff,
            register: Register::Register(self.reg),
            steps_difference: StepDifference::Steps(self.step),
            power: self.power,
        }
    }
}

impl<F: PrimeField> Term<F> {
    pub fn eval(&self, w: &[Vec<F>], row: usize) -> F {
        match self {
            Term::Uni(f) => f.eval(w, row),
            Term::Poly(c, fs) => fs.iter().fold(*c, |a, f| mul(a, f.eval(w, row))),
        }
    }
    pub fn degree(&self) -> u64 {
        match self {
            Term::Uni(f) => f.power,
            Term::Poly(_, fs) => fs.iter().map(|f| f.power).sum(),
        }
    }
    pub fn factors(&self) -> Vec<&Factor<F>> {
        match self {
            Term::Uni(f) => vec![f],
            Term::Poly(_, fs) => fs.iter().collect(),
        }
    }
    fn negated(&self) -> Term<F> {
        let mut t = self.clone();
        match &mut t {
            Term::Uni(f) => f.coeff.negate(),
            Term::Poly(c, _) => c.negate(),
        }
        t
    }
    pub fn scaled(&self, s: F) -> Term<F> {
        let mut t = self.clone();
        match &mut t {
            Term::Uni(f) => f.coeff.mul_assign(&s),
            Term::Poly(c, _) => c.mul_assign(&s),
        }
        t
    }
}

impl<F: PrimeField> Con<F> {
    pub fn eval(&self, w: &[Vec<F>], row: usize) -> F {
        self.terms.iter().fold(self.constant, |a, t| add(a, t.eval(w, row)))
    }
    pub fn degree(&self) -> u64 {
        self.terms.iter().map(|t| t.degree()).max().unwrap_or(0)
    }
    pub fn max_step(&self) -> usize {
        self.terms.iter().flat_map(|t| t.factors().into_iter().map(|f| f.step).collect::<Vec<_>>()).max().unwrap_or(0)
    }
    pub fn enforced(&self, rows: usize) -> std::ops::Range<usize> {
        self.start..rows - self.span
    }

    /// Through the library's own operators, or as a literal.
    pub fn lib(&self) -> Constraint<F> {
        let mut r = Rng::new(self.style);
        let mut c = Constraint::<F>::default();
        c.density = ConstraintDensity::Dense(DenseConstraint::new(self.start, self.span));
        if r.chance(1, 4) {
            c.constant_term = self.constant;
            c.degree = self.degree();
            for t in &self.terms {
                c.terms.push(match t {
                    Term::Uni(f) => ConstraintTerm::Univariate(f.lib()),
                    Term::Poly(k, fs) => ConstraintTerm::Polyvariate(PolyvariateTerm {
                        coeff: *k,
                        terms: fs.iter().map(|f| f.lib()).collect(),
                        total_degree: t.degree(),
                    }),
                });
            }
            return c;
        }
        if r.chance(1, 2) {
            c += &self.constant;
        } else {
            c -= &neg(self.constant);
        }
        for t in &self.terms {
            let minus = r.chance(1, 2);
            let t = if minus { t.negated() } else { t.clone() };
            match &t {
                Term::Uni(f) => {
                    let mut u = UnivariateTerm::<F>::from(Register::Register(f.reg));
                    u.set_step_difference(f.step);
                    let mut u = u.pow(f.power);
                    u *= f.coeff;
                    if minus {
                        c -= u
                    } else {
                        c += u
                    }
                }
                Term::Poly(k, fs) => {
                    let mut p = PolyvariateTerm::<F>::default();
                    let mut fs = &fs[..];
                    if r.chance(1, 3) && !fs.is_empty() {
                        p = PolyvariateTerm::from((F::one(), fs[0].lib()));
                        fs = &fs[1..];
                    }
                    for f in fs {
                        p *= f.lib();
                    }
                    p *= k;
                    if minus {
                        c -= p
                    } else {
                        c += p
                    }
                }
            }
        }
        c
    }
}

impl<F: PrimeField> Inst<F> {
    pub fn props(&self) -> InstanceProperties<F> {
        InstanceProperties {
            num_rows: self.rows,
            num_registers: self.regs,
            constraints: self.cons.iter().map(|c| c.lib()).collect(),
            boundary_constraints: self
                .bounds
                .iter()
                .map(|(g, r, v)| BoundaryConstraint { register: Register::Register(*g), at_row: *r, value: Some(*v) })
                .collect(),
        }
    }

    /// By definition: every constraint at each row of its domain, and every boundary value.
    pub fn satisfied(&self, w: &[Vec<F>]) -> bool {
        for c in &self.cons {
            for r in c.enforced(self.rows) {
                if !c.eval(w, r).is_zero() {
                    return false;
                }
            }
        }
        self.bounds.iter().all(|(g, r, v)| w[*g][*r] == *v)
    }

    pub fn max_degree(&self) -> u64 {
        self.cons.iter().map(|c| c.degree()).max().unwrap_or(0)
    }
    pub fn rows_sup(&self) -> usize {
        self.rows.next_power_of_two()
    }
    pub fn densities(&self) -> usize {
        let mut s: Vec<(usize, usize)> = self.cons.iter().map(|c| (c.start, c.span)).collect();
        s.sort();
        s.dedup();
        s.len()
    }
    /// (register, step) pairs that openings are claimed for.
    pub fn masks(&self) -> usize {
        let mut v: Vec<(usize, usize)> = vec![];
        for c in &self.cons {
            for t in &c.terms {
                for f in t.factors() {
                    v.push((f.reg, f.step));
                }
            }
        }
        for (g, _, _) in &self.bounds {
            v.push((*g, 0));
        }
        v.sort();
        v.dedup();
        v.len()
    }
    pub fn desc(&self) -> String {
        format!(
            "rows={} regs={} cons={} densities={:?} degrees={:?} bounds={:?} masks={}",
            self.rows,
            self.regs,
            self.cons.len(),
            self.cons.iter().map(|c| (c.start, c.span)).collect::<Vec<_>>(),
            self.cons.iter().map(|c| c.degree()).collect::<Vec<_>>(),
            self.bounds.iter().map(|(g, r, _)| (*g, *r)).collect::<Vec<_>>(),
            self.masks()
        )
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub max_regs: usize,
    pub min_rows: usize,
    pub max_rows: usize,
    pub max_degree: u64,
    /// a power of two that rows * degree has to stay under (two-adicity of the field over the rate)
    pub max_domain: usize,
    pub max_cons: usize,
}

impl Default for Shape {
    fn default() -> Self {
        Shape { max_regs: 4, min_rows: 3, max_rows: 20, max_degree: 5, max_domain: 1 << 12, max_cons: 5 }
    }
}

fn rcoeff<F: PrimeField>(r: &mut Rng) -> F {
    match r.below(5) {
        0 => F::one(),
        1 => neg(F::one()),
        2 => int(r.range(2, 9) as u64),
        _ => rf_nonzero(r),
    }
}

fn rterm<F: PrimeField>(r: &mut Rng, allowed: &[(usize, usize)], max_degree: u64) -> Term<F> {
    let d = r.range(1, max_degree as usize) as u64;
    if r.chance(1, 3) {
        let (reg, step) = *r.pick(allowed);
        return Term::Uni(Factor { coeff: rcoeff(r), reg, step, power: d });
    }
    let mut left = d;
    let mut fs = vec![];
    while left > 0 {
        let p = r.range(1, left as usize) as u64;
        left -= p;
        let (reg, step) = *r.pick(allowed);
        let coeff = if r.chance(1, 2) { F::one() } else { rcoeff(r) };
        fs.push(Factor { coeff, reg, step, power: p });
    }
    Term::Poly(rcoeff(r), fs)
}

enum Kind<F: PrimeField> {
    Free,
    Bool { start: usize, span: usize },
    /// the value at row t + step is given by the terms at row t
    Def { step: usize, start: usize, span: usize, constant: F, terms: Vec<Term<F>> },
}

fn rdensity(r: &mut Rng, rows: usize, min_span: usize) -> Option<(usize, usize)> {
    let min_span = min_span.max(1);
    if min_span + 1 > rows {
        return None;
    }
    let more = if r.chance(1, 12) { 30 } else { 2 };
    let max_span = (rows - 1).min(min_span + more);
    let span = if r.chance(2, 3) { min_span } else { r.range(min_span, max_span) };
    let max_start = rows - span - 1;
    let late = if r.chance(1, 6) { 100 } else { 4 };
    let start = if r.chance(2, 3) { 0 } else { r.below(max_start.min(late) + 1) };
    Some((start, span))
}

/// A random statement and a witness that satisfies it. Cells that the statement does not determine are random.
pub fn generate<F: PrimeField>(r: &mut Rng, s: &Shape) -> Inst<F> {
    loop {
        if let Some(i) = attempt(r, s) {
            debug_assert!(i.satisfied(&i.witness));
            return i;
        }
    }
}

fn attempt<F: PrimeField>(r: &mut Rng, s: &Shape) -> Option<Inst<F>> {
    // once in a while many registers, constraints and terms
    let many = s.max_regs > 2 && s.max_rows <= 24 && r.chance(1, 30);
    let wider = Shape { max_regs: s.max_regs.max(12), max_cons: s.max_cons.max(20), ..*s };
    let s = if many { &wider } else { s };
    let most = if r.chance(1, 30) { 16 } else { 3 };
    let rows = r.range(s.min_rows, s.max_rows);
    let rows = if r.chance(1, 2) && rows.next_power_of_two() <= s.max_rows { rows.next_power_of_two() } else { rows };
    let sup = rows.next_power_of_two();
    if sup > s.max_domain {
        return None;
    }
    let mut max_degree = 1;
    while max_degree < s.max_degree && ((max_degree + 1).next_power_of_two() as usize) * sup <= s.max_domain {
        max_degree += 1;
    }
    let max_degree = r.range(1, max_degree as usize) as u64;
    let regs = r.range(1, s.max_regs);
    let mut kinds: Vec<Kind<F>> = vec![];
    for i in 0..regs {
        let k = match r.below(10) {
            0 => Kind::Free,
            1 if max_degree >= 2 => {
                let (start, span) = rdensity(r, rows, 1)?;
                Kind::Bool { start, span }
            }
            2 => {
                let (start, span) = rdensity(r, rows, 1)?;
                let t = Term::Uni(Factor { coeff: F::one(), reg: i, step: 0, power: 1 });
                Kind::Def { step: 1, start, span, constant: F::zero(), terms: vec![t] }
            }
            _ => {
                let far = if r.chance(1, 8) { 24 } else { 3 };
                let step = r.range(if i == 0 { 1 } else { 0 }, far.min(rows - 1));
                let mut allowed = vec![];
                for j in 0..regs {
                    for st in 0..step {
                        allowed.push((j, st));
                    }
                }
                for j in 0..i {
                    allowed.push((j, step));
                }
                if allowed.is_empty() {
                    return None;
                }
                let (start, span) = rdensity(r, rows, step)?;
                let n = r.range(1, most);
                let terms = (0..n).map(|_| rterm(r, &allowed, max_degree)).collect();
                Kind::Def { step, start, span, constant: if r.chance(1, 2) { F::zero() } else { rf_edge(r) }, terms }
            }
        };
        kinds.push(k);
    }

    // witness, row by row
    let mut w: Vec<Vec<F>> = vec![vec![F::zero(); rows]; regs];
    for row in 0..rows {
        for i in 0..regs {
            let v = match &kinds[i] {
                Kind::Free => rf_edge(r),
                Kind::Bool { start, span } => {
                    if row >= *start && row < rows - span {
                        if r.chance(1, 2) { F::one() } else { F::zero() }
                    } else {
                        rf_edge(r)
                    }
                }
                Kind::Def { step, start, span, constant, terms } => {
                    if row >= *step && row - step >= *start && row - step < rows - span {
                        terms.iter().fold(*constant, |a, t| add(a, t.eval(&w, row - step)))
                    } else {
                        rf_edge(r)
                    }
                }
            };
            w[i][row] = v;
        }
    }

    // statement
    let mut cons: Vec<Con<F>> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        match k {
            Kind::Free => {}
            Kind::Bool { start, span } => {
                let c: F = rcoeff(r);
                let sq = Factor { coeff: F::one(), reg: i, step: 0, power: 2 };
                let one = Factor { coeff: F::one(), reg: i, step: 0, power: 1 };
                let terms = if r.chance(1, 2) {
                    vec![Term::Uni(sq).scaled(c), Term::Uni(one).scaled(neg(c))]
                } else {
                    vec![Term::Poly(c, vec![one.clone(), one.clone()]), Term::Poly(neg(c), vec![one])]
                };
                cons.push(Con { constant: F::zero(), terms, start: *start, span: *span, style: r.u64() });
            }
            Kind::Def { step, start, span, constant, terms } => {
                let c: F = rcoeff(r);
                let target = Factor { coeff: c, reg: i, step: *step, power: 1 };
                let mut ts = vec![if r.chance(2, 3) { Term::Uni(target) } else { Term::Poly(F::one(), vec![target]) }];
                for t in terms {
                    ts.push(t.scaled(neg(c)));
                }
                if r.chance(1, 2) {
                    ts.reverse();
                }
                cons.push(Con { constant: neg(mul(c, *constant)), terms: ts, start: *start, span: *span, style: r.u64() });
            }
        }
    }
    if cons.is_empty() {
        return None;
    }
    // redundant copies: the same relation scaled, on part of its rows, or times a register
    while cons.len() < s.max_cons && if many { r.chance(9, 10) } else { r.chance(1, 4) } {
        let mut c = r.pick(&cons).clone();
        let k: F = rf_nonzero(r);
        c.constant.mul_assign(&k);
        c.terms = c.terms.iter().map(|t| t.scaled(k)).collect();
        if r.chance(1, 2) && c.start + c.span + 1 < rows {
            if r.chance(1, 2) {
                c.start += 1;
            } else {
                c.span += 1;
            }
        }
        if r.chance(1, 3) && c.degree() < max_degree {
            let f = Factor { coeff: F::one(), reg: r.below(regs), step: r.below(c.max_step() + 1), power: 1 };
            let mut ts: Vec<Term<F>> = c
                .terms
                .iter()
                .map(|t| match t {
                    Term::Uni(u) => Term::Poly(F::one(), vec![u.clone(), f.clone()]),
                    Term::Poly(k, fs) => {
                        let mut fs = fs.clone();
                        fs.push(f.clone());
                        Term::Poly(*k, fs)
                    }
                })
                .collect();
            if !c.constant.is_zero() {
                ts.push(Term::Uni(f).scaled(c.constant));
                c.constant = F::zero();
            }
            c.terms = ts;
        }
        c.style = r.u64();
        let at = r.below(cons.len() + 1);
        cons.insert(at, c);
    }
    if r.chance(1, 3) {
        let n = cons.len();
        for i in 0..n {
            let j = r.range(i, n - 1);
            cons.swap(i, j);
        }
    }

    let mut bounds = vec![];
    for _ in 0..if r.chance(1, 16) { r.below(40) } else { r.below(5) } {
        let (g, row) = match r.below(4) {
            0 => (r.below(regs), 0),
            1 => (r.below(regs), rows - 1),
            _ => (r.below(regs), r.below(rows)),
        };
        bounds.push((g, row, w[g][row]));
    }
    if r.chance(1, 4) && !bounds.is_empty() {
        // several registers fixed at one row share a divisor
        let row = bounds[0].1;
        for g in 0..regs {
            bounds.push((g, row, w[g][row]));
        }
    }
    Some(Inst { rows, regs, cons, bounds, witness: w })
}

/// Changes a cell so that the statement does not hold any more; None when no try breaks it.
pub fn break_witness<F: PrimeField>(r: &mut Rng, i: &Inst<F>) -> Option<(Vec<Vec<F>>, String)> {
    for _ in 0..40 {
        let g = r.below(i.regs);
        let row = r.below(i.rows);
        let mut w = i.witness.clone();
        w[g][row] = match r.below(3) {
            0 => add(w[g][row], F::one()),
            1 => neg(w[g][row]),
            _ => rf(r),
        };
        if !i.satisfied(&w) {
            return Some((w, format!("register {} row {} changed", g, row)));
        }
    }
    None
}

/// Changes the statement so that the witness does not satisfy it.
pub fn break_statement<F: PrimeField>(r: &mut Rng, i: &Inst<F>) -> Option<(Inst<F>, String)> {
    for _ in 0..40 {
        let mut s = i.clone();
        let what = match r.below(7) {
            0 if !s.bounds.is_empty() => {
                let k = r.below(s.bounds.len());
                s.bounds[k].2 = rf(r);
                format!("boundary value {}", k)
            }
            1 if !s.bounds.is_empty() => {
                let k = r.below(s.bounds.len());
                s.bounds[k].1 = r.below(s.rows);
                format!("boundary row {}", k)
            }
            2 => {
                let (g, row) = (r.below(s.regs), r.below(s.rows));
                s.bounds.push((g, row, rf(r)));
                "boundary constraint more".to_string()
            }
            3 => {
                let k = r.below(s.cons.len());
                s.cons[k].constant = add(s.cons[k].constant, rf_nonzero(r));
                format!("constant of constraint {}", k)
            }
            4 => {
                let k = r.below(s.cons.len());
                let t = r.below(s.cons[k].terms.len());
                let f: F = rf_nonzero(r);
                s.cons[k].terms[t] = s.cons[k].terms[t].scaled(f);
                format!("coefficient of term {} of constraint {}", t, k)
            }
            5 => {
                let k = r.below(s.cons.len());
                if s.cons[k].start > 0 {
                    s.cons[k].start -= 1;
                    format!("start of constraint {}", k)
                } else {
                    continue;
                }
            }
            6 => {
                let k = r.below(s.cons.len());
                if s.cons[k].span > s.cons[k].max_step().max(1) {
                    s.cons[k].span -= 1;
                    format!("span of constraint {}", k)
                } else {
                    continue;
                }
            }
            _ => continue,
        };
        if !s.satisfied(&s.witness) {
            return Some((s, what));
        }
    }
    None
}
