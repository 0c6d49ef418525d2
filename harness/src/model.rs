//! The protocol from its definition: what the claimed values, G, H1 and H2 of a statement are.

use crate::inst::*;
use crate::refmath::*;
use ff::PrimeField;

/// (register, step) pairs in order of first appearance: constraints, then boundaries.
pub fn masks<F: PrimeField>(i: &Inst<F>) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut put = |m: (usize, usize)| {
        if !v.contains(&m) {
            v.push(m)
        }
    };
    for c in &i.cons {
        for t in &c.terms {
            for f in t.factors() {
                put((f.reg, f.step));
            }
        }
    }
    for (g, _, _) in &i.bounds {
        put((*g, 0));
    }
    v
}

/// Constraints in the order in which their challenges are drawn: grouped by domain, in order of appearance.
pub fn batched<F: PrimeField>(i: &Inst<F>) -> Vec<usize> {
    let mut keys: Vec<(usize, usize)> = vec![];
    for c in &i.cons {
        if !keys.contains(&(c.start, c.span)) {
            keys.push((c.start, c.span));
        }
    }
    let mut out = vec![];
    for k in keys {
        for (n, c) in i.cons.iter().enumerate() {
            if (c.start, c.span) == k {
                out.push(n);
            }
        }
    }
    out
}

pub fn con_at<F: PrimeField>(c: &Con<F>, val: &dyn Fn(usize, usize) -> F) -> F {
    let fac = |f: &Factor<F>| mul(pow(val(f.reg, f.step), f.power), f.coeff);
    c.terms.iter().fold(c.constant, |a, t| {
        add(
            a,
            match t {
                Term::Uni(f) => fac(f),
                Term::Poly(k, fs) => fs.iter().fold(*k, |p, f| mul(p, fac(f))),
            },
        )
    })
}

/// G at `x`, which is outside of the trace domain, from the values of the registers at x * w^step.
/// `ch` holds (alpha, beta) for every constraint in batched order, then for every boundary.
pub fn g_at<F: PrimeField>(i: &Inst<F>, x: F, val: &dyn Fn(usize, usize) -> F, ch: &[(F, F)]) -> Option<F> {
    let w = root::<F>(i.rows_sup());
    let maxd = i.max_degree();
    let adj = |d: u64, (a, b): (F, F)| if d == 0 { a } else { add(mul(a, pow(x, d)), b) };
    let mut g = F::zero();
    let mut k = 0;
    for n in batched(i) {
        let c = &i.cons[n];
        let mut d = F::one();
        let mut p = pow(w, c.start as u64);
        for _ in c.enforced(i.rows) {
            d.mul_assign(&sub(x, p));
            p.mul_assign(&w);
        }
        let v = mul(con_at(c, val), d.inverse()?);
        g = add(g, mul(v, adj(maxd - c.degree(), ch[k])));
        k += 1;
    }
    for (reg, row, v) in &i.bounds {
        let d = sub(x, pow(w, *row as u64)).inverse()?;
        let v = mul(sub(val(*reg, 0), *v), d);
        g = add(g, mul(v, adj(maxd - 1, ch[k])));
        k += 1;
    }
    Some(g)
}

/// Coefficients of the polynomials that interpolate the columns, zero beyond the trace.
pub fn columns<F: PrimeField>(i: &Inst<F>, w: &[Vec<F>]) -> Vec<Vec<F>> {
    w.iter()
        .map(|c| {
            let mut c = c.clone();
            c.resize(i.rows_sup(), F::zero());
            interpolate_domain(&c)
        })
        .collect()
}

/// G of the statement as coefficients, interpolated over a coset of twice the needed size, so that a
/// degree that is too high can be seen.
pub fn g_poly<F: PrimeField>(i: &Inst<F>, cols: &[Vec<F>], ch: &[(F, F)], size: usize) -> Vec<F> {
    let shift = F::multiplicative_generator();
    let step = root::<F>(size);
    let w = root::<F>(i.rows_sup());
    let mut x = shift;
    let mut v = vec![];
    for _ in 0..size {
        let val = |r: usize, s: usize| horner(&cols[r], mul(x, pow(w, s as u64)));
        v.push(g_at(i, x, &val, ch).expect("the coset is off the trace domain"));
        x.mul_assign(&step);
    }
    let mut c = interpolate_domain(&v);
    let mut s = F::one();
    let si = inv(shift);
    for k in c.iter_mut() {
        k.mul_assign(&s);
        s.mul_assign(&si);
    }
    c
}

/// One FRI folding of the values over the subgroup of order v.len().
pub fn fold<F: PrimeField>(v: &[F], challenge: F) -> Vec<F> {
    let n = v.len();
    let winv = inv(root::<F>(n));
    let half = inv(int::<F>(2));
    let mut p = F::one();
    let mut out = vec![];
    for k in 0..n / 2 {
        let (a, b) = (v[k], v[k + n / 2]);
        let odd = mul(mul(sub(a, b), p), challenge);
        out.push(mul(add(add(a, b), odd), half));
        p.mul_assign(&winv);
    }
    out
}
