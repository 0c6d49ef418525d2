//! C11, C21 and C24: polynomial arithmetic, domains and tables, and the splitting of work.

use crate::checks::fftc::{defective_lde, input, log_floor, CPUS};
use crate::fields::*;
use crate::fw::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::domains::Domain;
use hodor::polynomials::*;
use hodor::precomputations::PrecomputedOmegas;
use hodor::utils::poly as up;
use hodor::verif_hooks::{force_cpus, worker_with_cpus, Worker};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

type Co<F> = Polynomial<F, Coefficients>;
type Va<F> = Polynomial<F, Values>;

pub fn same<F: PrimeField>(what: &str, got: &[F], want: &[F]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} entries instead of {}", what, got.len(), want.len()));
    }
    for k in 0..want.len() {
        if got[k] != want[k] {
            return Err(format!("{}: entry {} of {} is {} and not {}", what, k, want.len(), show(&got[k]), show(&want[k])));
        }
    }
    Ok(())
}

fn es(e: hodor::SynthesisError) -> String {
    format!("error: {}", e)
}

fn ob<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    observe(f).map_err(|m| format!("{}: panic: {}", what, m))
}

fn len_of<F: PrimeField>(r: &mut Rng, max: usize) -> usize {
    let max = max.min(1 << (F::S as usize).min(30));
    if r.chance(1, 2) {
        1 << r.below(log2(max) + 1)
    } else {
        r.range(1, max)
    }
}

fn common<F: PrimeField>(c: &mut Case, name: &str, max: usize) -> Result<(), String> {
    let r = &mut c.rng;
    let len = len_of::<F>(r, max);
    let n = len.next_power_of_two();
    let cpus = *r.pick(&CPUS);
    let kind = r.below(7);
    let mut a: Vec<F> = input(r, len, kind);
    c.desc(format!("{} {} entries, cpus={} kind={}", name, len, cpus, kind));
    let w = worker_with_cpus(cpus);
    let p = Co::<F>::from_coeffs(a.clone()).map_err(es)?;
    let v = Va::<F>::from_values(a.clone()).map_err(es)?;
    a.resize(n, F::zero());
    same("from_coeffs", p.as_ref(), &a)?;
    same("from_values", v.as_ref(), &a)?;
    same("new_for_size", Co::<F>::new_for_size(len).map_err(es)?.as_ref(), &vec![F::zero(); n])?;
    same("new_for_size of values", Va::<F>::new_for_size(len).map_err(es)?.as_ref(), &vec![F::zero(); n])?;
    let g: F = rf_edge(&mut c.rng);

    let m: Vec<F> = a.iter().map(|x| mul(*x, g)).collect();
    let mut q = p.clone();
    ob("scale", || q.scale(&w, g))?;
    same("scale", q.as_ref(), &m)?;
    let mut q = v.clone();
    ob("scale", || q.scale(&w, g))?;
    same("scale of values", q.as_ref(), &m)?;
    let mut q = p.clone();
    ob("negate", || q.negate(&w))?;
    same("negate", q.as_ref(), &a.iter().map(|x| neg(*x)).collect::<Vec<_>>())?;
    let mut q = p.clone();
    ob("distribute_powers", || q.distribute_powers(&w, g))?;
    let want: Vec<F> = a.iter().enumerate().map(|(k, x)| mul(*x, pow(g, k as u64))).collect();
    same("distribute_powers", q.as_ref(), &want)?;
    let mut s = a[..len].to_vec();
    ob("distribute_powers of a slice", || hodor::fft::distribute_powers(&mut s, &w, g))?;
    same("distribute_powers of a slice", &s, &want[..len])?;
    let mut s = a[..len].to_vec();
    force_cpus(cpus);
    ob("mul_polynomial_by_scalar", || up::mul_polynomial_by_scalar(&mut s, g))?;
    same("mul_polynomial_by_scalar", &s, &m[..len])?;
    c.count("scalings", 6);

    for d in [0, 1, c.rng.below(n + 3), n - 1, n] {
        let mut q = p.clone();
        ob("trim_to_degree", || q.trim_to_degree(d))?.map_err(es)?;
        let want: Vec<F> = a.iter().enumerate().map(|(k, x)| if k <= d { *x } else { F::zero() }).collect();
        same(&format!("trim_to_degree {}", d), q.as_ref(), &want)?;
    }
    c.count("trims", 5);

    // padding: of the same polynomial, over the larger domain
    let room = F::S as usize - log2(n);
    let by = 1usize << c.rng.below(room.min(4) + 1);
    let mut padded = a.clone();
    padded.resize(n * by, F::zero());
    for k in 0..2 {
        let mut q = p.clone();
        ob("padding", || if k == 0 { q.pad_by_factor(by) } else { q.pad_to_size(n * by) })?.map_err(es)?;
        same("padding", q.as_ref(), &padded)?;
        if q.omega != root::<F>(n * by) || q.exp as usize != log2(n * by) || q.omegainv != inv(q.omega) || q.minv != inv(int(n as u64 * by as u64)) {
            return Err(format!("padding by {} ({}) keeps the constants of the old domain", by, k));
        }
        let f = ob("fft after padding", || q.clone().fft(&w))?;
        same("fft after padding", f.as_ref(), &eval_domain(&a, n * by, F::one()))?;
        let back = ob("ifft after padding", || f.ifft(&w))?;
        same("ifft after padding", back.as_ref(), &padded)?;
    }
    for bad in [3usize, 5, 6, 7, 9, 12] {
        let mut q = p.clone();
        if ob("pad_by_factor", || q.pad_by_factor(bad))?.is_ok() {
            return Err(format!("pad_by_factor({}) is not refused", bad));
        }
        let mut q = p.clone();
        if bad > n && ob("pad_to_size", || q.pad_to_size(bad))?.is_ok() {
            return Err(format!("pad_to_size({}) is not refused", bad));
        }
    }
    if n > 1 {
        let mut q = p.clone();
        if ob("pad_to_size", || q.pad_to_size(n / 2))?.is_ok() {
            return Err("pad_to_size to a smaller size is not refused".to_string());
        }
    }
    c.count("paddings", 2);
    Ok(())
}

fn coefficients<F: PrimeField>(c: &mut Case, name: &str, max: usize) -> Result<(), String> {
    let r = &mut c.rng;
    let (la, lb) = (len_of::<F>(r, max), len_of::<F>(r, max));
    let (la, lb) = (la.max(lb), la.min(lb));
    let (na, nb) = (la.next_power_of_two(), lb.next_power_of_two());
    let cpus = *r.pick(&CPUS);
    let (ka, kb) = (r.below(7), r.below(7));
    let mut a: Vec<F> = input(r, la, ka);
    let mut b: Vec<F> = input(r, lb, kb);
    let g: F = rf_edge(r);
    c.desc(format!("{} {} and {} coefficients, cpus={} kinds={},{}", name, la, lb, cpus, ka, kb));
    let w = worker_with_cpus(cpus);
    let pa = Co::<F>::from_coeffs(a.clone()).map_err(es)?;
    let pb = Co::<F>::from_coeffs(b.clone()).map_err(es)?;
    a.resize(na, F::zero());
    b.resize(nb, F::zero());
    let at = |v: &[F], k: usize| v.get(k).cloned().unwrap_or(F::zero());
    let zip = |f: &dyn Fn(F, F) -> F| (0..na).map(|k| f(a[k], at(&b, k))).collect::<Vec<F>>();
    let mut q = pa.clone();
    ob("add_assign", || q.add_assign(&w, &pb))?;
    same("add_assign", q.as_ref(), &zip(&|x, y| add(x, y)))?;
    let mut q = pa.clone();
    ob("sub_assign", || q.sub_assign(&w, &pb))?;
    same("sub_assign", q.as_ref(), &zip(&|x, y| sub(x, y)))?;
    let mut q = pa.clone();
    ob("add_assign_scaled", || q.add_assign_scaled(&w, &pb, &g))?;
    same("add_assign_scaled", q.as_ref(), &zip(&|x, y| add(x, mul(y, g))))?;
    c.count("sums of coefficients", 3);

    force_cpus(cpus);
    let mut s = a[..la].to_vec();
    let t: Vec<F> = rvec(&mut c.rng, la);
    ob("mul_add_polynomials", || up::mul_add_polynomials(&mut s, &t, g))?;
    same("mul_add_polynomials", &s, &(0..la).map(|k| add(a[k], mul(t[k], g))).collect::<Vec<_>>())?;
    for _ in 0..3 {
        let x: F = rf_edge(&mut c.rng);
        let first: F = rf_edge(&mut c.rng);
        let got = ob("evaluate_at", || pa.evaluate_at(&w, x))?;
        if got != horner(&a, x) {
            return Err(format!("evaluate_at {} gives {} and not {}", show(&x), show(&got), show(&horner(&a, x))));
        }
        let got = ob("evaluate_at_consequitive_powers", || up::evaluate_at_consequitive_powers(&a[..la], first, x))?;
        let want = mul(first, horner(&a, x));
        if got != want {
            return Err(format!("evaluate_at_consequitive_powers from {} by {} gives {} and not {}", show(&first), show(&x), show(&got), show(&want)));
        }
        c.count("evaluations", 2);
    }

    // degree one over a domain
    let size = len_of::<F>(&mut c.rng, 2 * max);
    let ns = size.next_power_of_two();
    let l: Vec<F> = vec![rf_edge(&mut c.rng), rf_edge(&mut c.rng)];
    let p = Co::<F>::from_coeffs(l.clone()).map_err(es)?;
    let got = ob("evaluate_at_domain_for_degree_one", || p.evaluate_at_domain_for_degree_one(&w, size as u64))?.map_err(es)?;
    same("evaluate_at_domain_for_degree_one", got.as_ref(), &eval_domain(&l, ns, F::one()))?;
    let got = ob("coset_evaluate_at_domain_for_degree_one", || p.coset_evaluate_at_domain_for_degree_one(&w, size as u64))?.map_err(es)?;
    same("coset_evaluate_at_domain_for_degree_one", got.as_ref(), &eval_domain(&l, ns, F::multiplicative_generator()))?;
    c.count("degree one over a domain", 2);
    Ok(())
}

fn values<F: PrimeField>(c: &mut Case, name: &str, max: usize) -> Result<(), String> {
    let r = &mut c.rng;
    let n = len_of::<F>(r, max).next_power_of_two();
    let cpus = *r.pick(&CPUS);
    let (ka, kb) = (r.below(7), r.below(7));
    let a: Vec<F> = input(r, n, ka);
    let b: Vec<F> = input(r, n, kb);
    let g: F = rf_edge(r);
    c.desc(format!("{} {} values, cpus={} kinds={},{}", name, n, cpus, ka, kb));
    let w = worker_with_cpus(cpus);
    let pa = Va::<F>::from_values(a.clone()).map_err(es)?;
    let pb = Va::<F>::from_values(b.clone()).map_err(es)?;
    let zip = |f: &dyn Fn(F, F) -> F| (0..n).map(|k| f(a[k], b[k])).collect::<Vec<F>>();
    macro_rules! op {
        ($n:expr, |$q:ident| $b:expr, $want:expr) => {{
            let mut $q = pa.clone();
            ob($n, || $b)?;
            same($n, $q.as_ref(), &$want)?;
            c.count($n, 1);
        }};
    }
    op!("values add_assign", |q| q.add_assign(&w, &pb), zip(&|x, y| add(x, y)));
    op!("values sub_assign", |q| q.sub_assign(&w, &pb), zip(&|x, y| sub(x, y)));
    op!("values mul_assign", |q| q.mul_assign(&w, &pb), zip(&|x, y| mul(x, y)));
    op!("values add_assign_scaled", |q| q.add_assign_scaled(&w, &pb, &g), zip(&|x, y| add(x, mul(y, g))));
    op!("values add_constant", |q| q.add_constant(&w, &g), zip(&|x, _| add(x, g)));
    op!("values square", |q| q.square(&w), zip(&|x, _| mul(x, x)));
    for e in [0u64, 1, 2, 3, 4, 7, 64, c.rng.u64() >> 40, c.rng.u64()] {
        op!("values pow", |q| q.pow(&w, e), zip(&|x, _| pow(x, e)));
    }

    let zeros = a.iter().filter(|x| x.is_zero()).count();
    let mut q = pa.clone();
    let res = ob("batch_inversion", || q.batch_inversion(&w))?;
    if zeros > 0 {
        if res.is_ok() {
            return Err(format!("batch_inversion of {} zeros among {} values succeeds", zeros, n));
        }
        c.count("batch inversions with zeros refused", 1);
    } else {
        res.map_err(es)?;
        same("batch_inversion", q.as_ref(), &a.iter().map(|x| inv(*x)).collect::<Vec<_>>())?;
        c.count("batch inversions", 1);
    }
    let a: Vec<F> = a.iter().map(|x| if x.is_zero() { rf_nonzero(&mut c.rng) } else { *x }).collect();
    let mut q = Va::<F>::from_values(a.clone()).map_err(es)?;
    ob("batch_inversion", || q.batch_inversion(&w))?.map_err(es)?;
    same("batch_inversion", q.as_ref(), &a.iter().map(|x| inv(*x)).collect::<Vec<_>>())?;
    c.count("batch inversions", 1);
    // a single zero anywhere
    let mut z = a.clone();
    let k = c.rng.below(n);
    z[k] = F::zero();
    let mut q = Va::<F>::from_values(z).map_err(es)?;
    if ob("batch_inversion", || q.batch_inversion(&w))?.is_ok() {
        return Err(format!("batch_inversion with a zero at {} succeeds", k));
    }
    Ok(())
}

fn roots<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let max = if F::S < 10 { 40 } else { 70 };
    let k = r.range(1, max);
    let cpus = *r.pick(&CPUS);
    let mut z: Vec<F> = (0..k).map(|_| rf_edge(r)).collect();
    if r.chance(1, 3) {
        let g = root::<F>((k + 1).next_power_of_two());
        z = (0..k).map(|i| pow(g, i as u64)).collect();
    }
    c.desc(format!("{} {} roots, cpus={}", name, k, cpus));
    let w = worker_with_cpus(cpus);
    let n = (k + 1).next_power_of_two();
    let mut want = vec![F::one()];
    for x in &z {
        want = poly_mul(&want, &[neg(*x), F::one()]);
    }
    want.resize(n, F::zero());
    let got = ob("from_roots", || Co::<F>::from_roots(z.clone(), &w))?.map_err(es)?;
    let verdict = same("from_roots", got.as_ref(), &want);
    if verdict.is_err() {
        // the extension of the factors suffers from the recorded defect of C10 in some configurations
        let chunk = if k < cpus { 1 } else { k / cpus };
        let mut prod = vec![F::one(); n];
        let mut hit = false;
        for part in z.chunks(chunk) {
            let mut f = vec![F::one()];
            for x in part {
                f = poly_mul(&f, &[neg(*x), F::one()]);
            }
            f.resize(f.len().next_power_of_two(), F::zero());
            let factor = n / f.len();
            let v = if crate::proto::lde_defective(cpus, factor) {
                hit = true;
                defective_lde(&f, factor, cpus, F::one())
            } else {
                eval_domain(&f, n, F::one())
            };
            for (p, x) in prod.iter_mut().zip(v) {
                p.mul_assign(&x);
            }
        }
        if hit && got.as_ref() == &interpolate_domain(&prod)[..] {
            c.known("from-roots-multi-coset", "from_roots over several cosets per thread");
            return Ok(());
        }
    }
    verdict?;
    c.count("polynomials from roots", 1);
    Ok(())
}

fn interpolation<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let k = r.range(2, 24);
    let mut pts: Vec<(F, F)> = vec![];
    while pts.len() < k {
        let x: F = rf_edge(r);
        if pts.iter().all(|p| p.0 != x) {
            pts.push((x, rf_edge(r)));
        }
    }
    c.desc(format!("{} {} points", name, k));
    let got = ob("interpolate", || up::interpolate(&pts[..]))?.ok_or("interpolate gives nothing")?;
    if got.len() != k {
        return Err(format!("interpolation of {} points has {} coefficients", k, got.len()));
    }
    for (x, y) in &pts {
        if horner(&got, *x) != *y {
            return Err(format!("the interpolation of {} points is {} and not {} at {}", k, show(&horner(&got, *x)), show(y), show(x)));
        }
    }
    c.count("interpolations", 1);
    Ok(())
}

pub fn run_poly(ctx: &mut Ctx) {
    for k in ["scalings", "trims", "paddings", "sums of coefficients", "evaluations", "degree one over a domain", "values pow", "batch inversions", "batch inversions with zeros refused", "polynomials from roots", "interpolations"] {
        ctx.require(k);
    }
    let n = ctx.n(900, 12000);
    ctx.section("common", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, common, c, f, 128)
    });
    ctx.section("coefficients", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, coefficients, c, f, 128)
    });
    ctx.section("values", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, values, c, f, 128)
    });
    let long = ctx.n(66, 660);
    let max = ctx.n(1 << 14, 1 << 17) as usize;
    ctx.section("long", long, |c| {
        let f = FIELDS[1 + c.idx as usize % (FIELDS.len() - 1)];
        match c.idx % 3 {
            0 => with_field!(f, common, c, f, max),
            1 => with_field!(f, coefficients, c, f, max),
            _ => with_field!(f, values, c, f, max),
        }
    });
    ctx.section("roots", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, roots, c, f)
    });
    ctx.section("interpolation", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, interpolation, c, f)
    });
}

// ------------------------------------------------------------------ domains and tables

fn domain_of<F: PrimeField>(c: &mut Case, name: &str, sizes: &[u64]) -> Result<(), String> {
    c.desc(format!("{} {} sizes from {}", name, sizes.len(), sizes[0]));
    for s in sizes {
        let fits = s.checked_next_power_of_two().map(|n| n.trailing_zeros() <= F::S).unwrap_or(false);
        match ob(&format!("domain for {}", s), || Domain::<F>::new_for_size(*s))? {
            Err(_) if !fits => c.count("sizes beyond the field refused", 1),
            Err(e) => return Err(format!("no domain for {}: {}", s, e)),
            Ok(_) if !fits => return Err(format!("a domain for {} in a field of two-adicity {}", s, F::S)),
            Ok(d) => {
                let want = (*s).max(1).next_power_of_two();
                if d.size != want || d.power_of_two > 63 || 1u64 << d.power_of_two != want {
                    return Err(format!("the domain for {} has size {} = 2^{}", s, d.size, d.power_of_two));
                }
                let mut g = d.generator;
                for _ in 1..d.power_of_two {
                    g.square();
                }
                if d.power_of_two == 0 {
                    if g != F::one() {
                        return Err("the generator of the domain of size 1 is not 1".to_string());
                    }
                } else if g != neg(F::one()) {
                    return Err(format!("the generator of the domain for {} does not have order {}", s, want));
                }
                if d.generator != root::<F>(want as usize) {
                    return Err(format!("the generator of the domain for {} does not belong to the tower of domains", s));
                }
                c.count("domains", 1);
            }
        }
    }
    Ok(())
}

fn halving<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let log_n = 1 + c.rng.below(8.min(F::S as usize));
    let n = 1usize << log_n;
    c.desc(format!("{} all indices of 2^{}", name, log_n));
    let d = Domain::<F>::new_for_size(n as u64).map_err(es)?;
    let half = Domain::<F>::new_for_size(n as u64 / 2).map_err(es)?;
    for i in 0..n {
        let mut pair = ob("coset", || Domain::<F>::coset_for_natural_index_and_size(i, n))?;
        let mut want = vec![i, (i + n / 2) % n];
        want.sort();
        let sorted = pair.windows(2).all(|p| p[0] < p[1]);
        pair.sort();
        if pair != want || !sorted {
            return Err(format!("the coset of {} in 2^{} is {:?}", i, log_n, pair));
        }
        let (k, m) = ob("next index", || Domain::<F>::index_and_size_for_next_domain(i, n))?;
        let x = pow(d.generator, i as u64);
        if m != n / 2 || k >= m || mul(x, x) != pow(half.generator, k as u64) {
            return Err(format!("index {} of 2^{} leads to {} of {}", i, log_n, k, m));
        }
        for p in pair {
            if Domain::<F>::index_and_size_for_next_domain(p, n).0 != k {
                return Err(format!("the coset of {} in 2^{} does not lead to one index", i, log_n));
            }
        }
        c.count("indices", 1);
    }
    Ok(())
}

fn tables<F: PrimeField>(c: &mut Case, name: &str, top: usize) -> Result<(), String> {
    let log_n = c.rng.below(top.min(F::S as usize + 1));
    let n = 1usize << log_n;
    let cpus = *c.rng.pick(&CPUS);
    c.desc(format!("{} 2^{} cpus={}", name, log_n, cpus));
    let d = Domain::<F>::new_for_size(n as u64).map_err(es)?;
    let w = worker_with_cpus(cpus);
    let t = ob("tables", || PrecomputedOmegas::<F>::new_for_domain(&d, &w))?;
    let g = root::<F>(n);
    let powers = |n: usize, g: F, s: F| {
        let mut x = s;
        (0..n)
            .map(|_| {
                let y = x;
                x.mul_assign(&g);
                y
            })
            .collect::<Vec<F>>()
    };
    same("powers", &t.omegas, &powers(n, g, F::one()))?;
    same("coset", &t.coset, &powers(n, g, F::multiplicative_generator()))?;
    same("inverse powers", &t.omegas_inv, &powers(n / 2, inv(g), F::one()))?;
    c.count("table entries", (n * 2 + n / 2) as u64);
    Ok(())
}

pub fn run_domains(ctx: &mut Ctx) {
    for k in ["domains", "sizes beyond the field refused", "indices", "table entries"] {
        ctx.require(k);
    }
    // every small size, and sizes around every power of two, of every field
    let nf = FIELDS.len() as u64;
    let blocks = ctx.n(16, 128);
    ctx.section("small-sizes", nf * blocks, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        let b = c.idx / nf;
        let sizes: Vec<u64> = (b * 128..(b + 1) * 128).collect();
        with_field!(f, domain_of, c, f, &sizes)
    });
    ctx.section("around-powers-of-two", nf * 64, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        let p = 1u64 << (c.idx / nf);
        let mut sizes = vec![p - 1, p, p.wrapping_add(1), p.saturating_add(p / 2), p | c.rng.u64() % p];
        if p == 1 << 63 {
            sizes.push(u64::max_value());
            sizes.push(u64::max_value() - 1);
        }
        with_field!(f, domain_of, c, f, &sizes)
    });
    let n = ctx.n(200, 2000);
    ctx.section("halving", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, halving, c, f)
    });
    let n = ctx.n(400, 6000);
    ctx.section("tables", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, tables, c, f, 11)
    });
    let n = ctx.n(36, 600);
    ctx.section("large-tables", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, tables, c, f, 18)
    });
}

// ------------------------------------------------------------------ splitting of work

fn arithmetic(c: &mut Case, cpus: usize, elements: &[usize]) -> Result<(), String> {
    c.desc(format!("cpus={} {} element counts from {}", cpus, elements.len(), elements[0]));
    let w = worker_with_cpus(cpus);
    if w.num_cpus() as usize != cpus || w.log_num_cpus() != log_floor(cpus) {
        return Err(format!("a worker of {} threads says {} and 2^{}", cpus, w.num_cpus(), w.log_num_cpus()));
    }
    for n in elements {
        let chunk = ob("get_chunk_size", || w.get_chunk_size(*n))?;
        if chunk == 0 {
            return Err(format!("chunks of {} elements over {} threads are empty", n, cpus));
        }
        let chunks = (n + chunk - 1) / chunk;
        let said = ob("get_num_spawned_threads", || w.get_num_spawned_threads(*n))?;
        if said < chunks {
            return Err(format!("{} elements over {} threads come in {} chunks, but {} were predicted", n, cpus, chunks, said));
        }
        let given = ob("scope", || w.scope(*n, |_, c| c))?;
        if given != chunk {
            return Err(format!("scope hands out chunks of {} where get_chunk_size says {} ({} elements, {} threads)", given, chunk, n, cpus));
        }
        c.count("splits", 1);
    }
    Ok(())
}

/// Runs work the way the library does, slows some of it down, and looks at what was done when scope returns.
fn coverage(c: &mut Case) -> Result<(), String> {
    let r = &mut c.rng;
    let cpus = r.range(1, 20);
    let n = r.below(200);
    let delays: Vec<u64> = (0..64).map(|_| if r.chance(1, 4) { r.below(300) as u64 } else { 0 }).collect();
    let nested = r.chance(1, 3);
    c.desc(format!("cpus={} elements={} nested={}", cpus, n, nested));
    let w = worker_with_cpus(cpus);
    let touched: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
    let mut data: Vec<usize> = vec![usize::max_value(); n];
    let order = Mutex::new(vec![]);
    ob("scope", || {
        w.scope(n, |scope, chunk| {
            for (i, part) in data.chunks_mut(chunk).enumerate() {
                let (touched, order, delays, w) = (&touched, &order, &delays, &w);
                scope.spawn(move |_| {
                    std::thread::sleep(std::time::Duration::from_micros(delays[i % 64]));
                    for (j, x) in part.iter_mut().enumerate() {
                        *x = i * chunk + j;
                        touched[i * chunk + j].fetch_add(1, Ordering::SeqCst);
                    }
                    if nested {
                        let inner = AtomicUsize::new(0);
                        let m = part.len() * 3;
                        w.scope(m, |scope, chunk| {
                            for k in (0..m).step_by(chunk) {
                                let inner = &inner;
                                scope.spawn(move |_| inner.fetch_add(chunk.min(m - k), Ordering::SeqCst));
                            }
                        });
                        assert_eq!(inner.load(Ordering::SeqCst), m, "work of a nested scope");
                    }
                    order.lock().unwrap().push(i);
                });
            }
        })
    })?;
    for (k, x) in data.iter().enumerate() {
        if *x != k || touched[k].load(Ordering::SeqCst) != 1 {
            return Err(format!("element {} was done {} times, as {}", k, touched[k].load(Ordering::SeqCst), x));
        }
    }
    let o = order.into_inner().unwrap();
    c.sig(&o);
    c.count("elements done once", n as u64);
    if o.windows(2).any(|p| p[0] > p[1]) {
        c.count("schedules out of order", 1);
    }
    Ok(())
}

fn failure(c: &mut Case) -> Result<(), String> {
    let r = &mut c.rng;
    let cpus = r.range(1, 12);
    let n = r.range(1, 60);
    c.desc(format!("cpus={} elements={}", cpus, n));
    let w: Worker = worker_with_cpus(cpus);
    let at = c.rng.below(n);
    let res = observe(|| {
        w.scope(n, |scope, chunk| {
            for k in (0..n).step_by(chunk) {
                scope.spawn(move |_| {
                    if (k..k + chunk).contains(&at) {
                        panic!("a worker fails")
                    }
                });
            }
        })
    });
    if res.is_ok() {
        return Err(format!("the failure of a worker at element {} of {} goes unnoticed", at, n));
    }
    c.count("failures noticed", 1);
    Ok(())
}

/// Computations handed to the pool: each runs once, and its own value, error or panic comes back, whatever the order.
fn computed(c: &mut Case) -> Result<(), String> {
    use futures::Future;
    let r = &mut c.rng;
    let cpus = r.range(1, 9);
    let n = r.range(1, 40);
    let kinds: Vec<usize> = (0..n).map(|_| r.below(8)).collect();
    let delays: Vec<u64> = (0..n).map(|_| if r.chance(1, 4) { r.below(400) as u64 } else { 0 }).collect();
    let mut order: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        order.swap(k, r.below(k + 1));
    }
    let w: Worker = worker_with_cpus(cpus);
    let runs: Arc<Vec<AtomicUsize>> = Arc::new((0..n).map(|_| AtomicUsize::new(0)).collect());
    let done: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
    let mut futures: Vec<Option<Box<dyn Future<Item = usize, Error = usize>>>> = vec![];
    for k in 0..n {
        let (runs, done, delay, kind) = (runs.clone(), done.clone(), delays[k], kinds[k]);
        let work = move || -> Result<usize, usize> {
            std::thread::sleep(std::time::Duration::from_micros(delay));
            runs[k].fetch_add(1, Ordering::SeqCst);
            done.lock().unwrap().push(k);
            match kind {
                0 => panic!("a computation fails"),
                1 => Err(k + 1000),
                _ => Ok(k),
            }
        };
        // a computation that hands over another one corrupts the heap inside futures-cpupool (see DESIGN.md), so none does
        futures.push(Some(Box::new(w.compute(work))));
    }
    for k in order {
        let f = futures[k].take().unwrap();
        let got = observe(move || f.wait());
        let right = match kinds[k] {
            0 => got.is_err(),
            1 => matches!(got, Ok(Err(e)) if e == k + 1000),
            _ => matches!(got, Ok(Ok(v)) if v == k),
        };
        if !right {
            return Err(format!("computation {} of kind {} came back as {:?} ({} threads)", k, kinds[k], got, cpus));
        }
        c.count("computations come back", 1);
    }
    for k in 0..n {
        let m = runs[k].load(Ordering::SeqCst);
        if m != 1 {
            return Err(format!("computation {} ran {} times", k, m));
        }
    }
    let o = done.lock().unwrap().clone();
    c.desc(format!("cpus={} computations={}", cpus, n));
    c.sig(&o);
    Ok(())
}

pub fn run_workers(ctx: &mut Ctx) {
    for k in ["splits", "elements done once", "schedules out of order", "failures noticed", "computations come back"] {
        ctx.require(k);
    }
    let n = ctx.n(72, 300);
    ctx.section("exhaustive", n, |c| {
        let all: Vec<usize> = (0..400).collect();
        let cpus = c.idx as usize + 1;
        arithmetic(c, cpus, &all)
    });
    let n = ctx.n(200, 2000);
    ctx.section("large", n, |c| {
        let cpus = c.rng.range(1, 256);
        let all: Vec<usize> = (0..50)
            .map(|_| {
                let s = c.rng.below(40);
                (c.rng.u64() & 0xff_ffff_ffff) as usize >> s
            })
            .collect();
        arithmetic(c, cpus, &all)
    });
    let n = ctx.n(500, 6000);
    ctx.section("coverage", n, coverage);
    ctx.section("failure", 40, failure);
    let n = ctx.n(300, 4000);
    ctx.section("computed", n, computed);
}
