//! C09 and C10: every transform and extension strategy against evaluation by Horner.

use crate::fields::*;
use crate::fw::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::polynomials::*;
use hodor::verif_hooks::transforms as tr;
use hodor::verif_hooks::{worker_with_cpus, Worker};

pub const CPUS: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 33];

pub fn log_floor(n: usize) -> u32 {
    let mut k = 0;
    while n >> (k + 1) > 0 {
        k += 1
    }
    k
}

/// Inputs of very different kinds: a strategy that skips work must not skip what it needs.
pub fn input<F: PrimeField>(r: &mut Rng, n: usize, kind: usize) -> Vec<F> {
    match kind {
        0 => rvec(r, n),
        1 => (0..n).map(|_| rf_edge(r)).collect(),
        2 => {
            let mut v = vec![F::zero(); n];
            v[r.below(n)] = rf_nonzero(r);
            v
        }
        3 => vec![rf(r); n],
        4 => {
            let mut v: Vec<F> = vec![F::zero(); n];
            for x in v.iter_mut().skip(n - (n + 3) / 4) {
                *x = rf(r)
            }
            v
        }
        5 => (0..n).map(|k| if k % 2 == 1 { rf(r) } else { F::zero() }).collect(),
        _ => {
            let c: F = rf_nonzero(r);
            (0..n).map(|k| pow(c, k as u64)).collect()
        }
    }
}

fn dft<F: PrimeField>(a: &[F], omega: F) -> Vec<F> {
    let mut x = F::one();
    let mut out = vec![];
    for _ in 0..a.len() {
        out.push(horner(a, x));
        x.mul_assign(&omega);
    }
    out
}

fn same<F: PrimeField>(what: &str, got: &[F], want: &[F]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} values instead of {}", what, got.len(), want.len()));
    }
    for k in 0..want.len() {
        if got[k] != want[k] {
            return Err(format!("{}: entry {} of {} is {} and not {}", what, k, want.len(), show(&got[k]), show(&want[k])));
        }
    }
    Ok(())
}

fn run_one(what: &str, f: impl FnOnce()) -> Result<(), String> {
    observe(f).map_err(|p| format!("{}: panic: {}", what, p))
}

/// All strategies that may be asked to transform `a`, judged by `judge`.
fn strategies<F: PrimeField>(
    c: &mut Case,
    a: &[F],
    omega: F,
    cpus: usize,
    w: &Worker,
    nonzero: usize,
    judge: &mut dyn FnMut(&str, &[F]) -> Result<(), String>,
) -> Result<(), String> {
    let log_n = log2(a.len()) as u32;
    let lc = log_floor(cpus);
    macro_rules! go {
        ($n:expr, |$v:ident| $b:expr) => {{
            let name: String = $n;
            let mut $v = a.to_vec();
            run_one(&name, || $b)?;
            judge(&name, &$v)?;
            c.count(name.split('(').next().unwrap(), 1);
        }};
    }
    go!(format!("best_fft({} cpus)", cpus), |v| tr::best_fft(&mut v, w, &omega, log_n, None));
    let hint = c.rng.range(1, cpus);
    go!(format!("best_fft hinted({} of {} cpus)", hint, cpus), |v| tr::best_fft(&mut v, w, &omega, log_n, Some(hint)));
    go!("serial_fft()".to_string(), |v| tr::serial_fft(&mut v, &omega, log_n));
    for k in 0..=log_n.min(4) {
        go!(format!("parallel_fft(2^{} parts, {} cpus)", k, cpus), |v| tr::parallel_fft(&mut v, w, &omega, log_n, k));
        go!(format!("dit_parallel(2^{} parts, {} cpus, {} nonzero)", k, cpus, nonzero), |v| tr::dit_parallel(&mut v, w, &omega, log_n, k, nonzero));
        if log_n % 2 == 0 && k % 2 == 0 {
            go!(format!("radix_4_parallel(2^{} parts, {} cpus)", k, cpus), |v| tr::radix_4_parallel(&mut v, w, &omega, log_n, k));
        }
    }
    if log_n % 2 == 0 {
        go!("radix_4_serial()".to_string(), |v| tr::radix_4_serial(&mut v, &omega, log_n));
        if lc % 2 == 0 || lc > 0 {
            go!(format!("radix_4_best({} cpus)", cpus), |v| tr::radix_4_best(&mut v, w, &omega, log_n));
        }
    }
    go!(format!("dit_serial({} nonzero)", nonzero), |v| tr::dit_serial(&mut v, &omega, log_n, nonzero));
    go!(format!("dit_best({} cpus, {} nonzero)", cpus, nonzero), |v| tr::dit_best(&mut v, w, &omega, log_n, nonzero));
    Ok(())
}

fn small<F: PrimeField>(c: &mut Case, name: &str, max_log: usize) -> Result<(), String> {
    let r = &mut c.rng;
    let log_n = r.below(max_log.min(F::S as usize) + 1);
    let n = 1usize << log_n;
    let cpus = *r.pick(&CPUS);
    let kind = r.below(7);
    let mut a: Vec<F> = input(r, n, kind);
    let nonzero = if r.chance(1, 2) { n } else { r.range(1, n) };
    for x in a.iter_mut().skip(nonzero) {
        *x = F::zero();
    }
    // any generator of the domain, the inverse of the usual one among them
    let g = root::<F>(n);
    let omega = match r.below(3) {
        0 => g,
        1 => inv(g),
        _ => pow(g, 2 * r.below(n) as u64 + 1),
    };
    c.desc(format!("{} n=2^{} cpus={} kind={} nonzero={}", name, log_n, cpus, kind, nonzero));
    let want = dft(&a, omega);
    let w = worker_with_cpus(cpus);
    c.count("transform points compared", n as u64);
    strategies(c, &a, omega, cpus, &w, nonzero, &mut |what, got| same(what, got, &want))
}

fn large<F: PrimeField>(c: &mut Case, name: &str, logs: &[usize]) -> Result<(), String> {
    let r = &mut c.rng;
    let log_n = (*r.pick(logs)).min(F::S as usize);
    let n = 1usize << log_n;
    let cpus = *r.pick(&CPUS);
    let nonzero = if r.chance(1, 2) { n } else { r.range(1, n) };
    let mut a: Vec<F> = rvec(r, nonzero);
    a.resize(n, F::zero());
    let omega = root::<F>(n);
    let mut at = vec![0, 1 % n, n / 2, n - 1];
    for _ in 0..6 {
        at.push(r.below(n));
    }
    let want: Vec<F> = at.iter().map(|k| horner(&a, pow(omega, *k as u64))).collect();
    c.desc(format!("{} n=2^{} cpus={} nonzero={}", name, log_n, cpus, nonzero));
    let w = worker_with_cpus(cpus);
    // the first result is judged pointwise, and by its inverse; the others have to be equal to it
    let mut first: Option<Vec<F>> = None;
    strategies(c, &a, omega, cpus, &w, nonzero, &mut |what, got| {
        for (k, x) in at.iter().zip(want.iter()) {
            if got[*k] != *x {
                return Err(format!("{}: entry {} is {} and not {}", what, k, show(&got[*k]), show(x)));
            }
        }
        match &first {
            None => first = Some(got.to_vec()),
            Some(f) => same(what, got, f)?,
        }
        Ok(())
    })?;
    let back = Polynomial::<F, Values>::from_values(first.unwrap()).map_err(|e| format!("from_values: {}", e))?.ifft(&w);
    c.count("large transforms inverted", 1);
    same("inverse of the transform", back.as_ref(), &a)
}

fn polynomial_level<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let top = 1usize << 8.min(F::S as usize);
    let len = if r.chance(1, 2) { 1 << r.below(log2(top) + 1) } else { r.range(1, top) };
    let n = len.next_power_of_two();
    let cpus = *r.pick(&CPUS);
    let kind = r.below(7);
    let a: Vec<F> = input(r, len, kind);
    let gen: F = rf_nonzero(r);
    let mg = F::multiplicative_generator();
    c.desc(format!("{} {} coefficients cpus={} kind={}", name, len, cpus, kind));
    let w = worker_with_cpus(cpus);
    let e = |e: hodor::SynthesisError| format!("constructor: {}", e);
    let p = Polynomial::<F, Coefficients>::from_coeffs(a.clone()).map_err(e)?;
    let mut padded = a.clone();
    padded.resize(n, F::zero());
    same("from_coeffs", p.as_ref(), &padded)?;
    if p.omega != root::<F>(n) || p.exp as usize != log2(n) {
        return Err("from_coeffs: wrong domain".to_string());
    }
    let one = F::one();
    let cases = [("fft", one), ("coset_fft", mg), ("coset_fft_for_generator", gen)];
    for (what, shift) in cases.iter() {
        let want = eval_domain(&padded, n, *shift);
        let v = observe(|| match *what {
            "fft" => p.clone().fft(&w),
            "coset_fft" => p.clone().coset_fft(&w),
            _ => p.clone().coset_fft_for_generator(&w, *shift),
        })
        .map_err(|m| format!("{}: panic: {}", what, m))?;
        same(what, v.as_ref(), &want)?;
        // values made on their own, to see the inverse independently of the transform
        let v = Polynomial::<F, Values>::from_values(want).map_err(e)?;
        let back = observe(|| match *what {
            "fft" => v.ifft(&w),
            "coset_fft" => v.icoset_fft(&w),
            _ => v.icoset_fft_for_generator(&w, inv(*shift)),
        })
        .map_err(|m| format!("inverse of {}: panic: {}", what, m))?;
        same(&format!("inverse of {}", what), back.as_ref(), &padded)?;
        c.count(&format!("polynomial {} and its inverse", what), 1);
    }
    Ok(())
}

pub fn run_fft(ctx: &mut Ctx) {
    for k in ["best_fft", "best_fft hinted", "serial_fft", "parallel_fft", "radix_4_serial", "radix_4_parallel", "radix_4_best", "dit_serial", "dit_parallel", "dit_best", "large transforms inverted", "polynomial coset_fft and its inverse"] {
        ctx.require(k);
    }
    let n = ctx.n(700, 8000);
    let top = ctx.n(8, 10) as usize;
    ctx.section("naive", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, small, c, f, top)
    });
    let n = ctx.n(700, 8000);
    ctx.section("polynomials", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, polynomial_level, c, f)
    });
    let n = ctx.n(40, 300);
    let logs: &[usize] = if ctx.thorough { &[10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20] } else { &[10, 11, 12, 13, 14, 15, 16, 17, 18] };
    ctx.section("large", n, |c| {
        let f = FIELDS[1 + c.idx as usize % (FIELDS.len() - 1)];
        with_field!(f, large, c, f, logs)
    });
}

// ------------------------------------------------------------------ low degree extension

/// What the recorded defect makes of an extension: every worker but the first starts at the wrong coset.
pub fn defective_lde<F: PrimeField>(a: &[F], factor: usize, cpus: usize, shift: F) -> Vec<F> {
    let n = a.len();
    let w = root::<F>(n * factor);
    let chunk = if factor < cpus { 1 } else { factor / cpus };
    let mut out = vec![F::zero(); n * factor];
    for k in 0..factor {
        let (i, off) = (k / chunk, k % chunk);
        let g = mul(shift, pow(w, (i + off) as u64));
        let v = eval_domain(a, n, g);
        for (j, x) in v.into_iter().enumerate() {
            out[j * factor + k] = x;
        }
    }
    out
}

fn lde<F: PrimeField>(c: &mut Case, name: &str, top: usize) -> Result<(), String> {
    let r = &mut c.rng;
    let top = top.min(F::S as usize);
    let log_total = r.below(top + 1);
    let log_factor = r.below(log_total.min(7) + 1);
    let factor = 1usize << log_factor;
    let n = 1usize << (log_total - log_factor);
    let len = if r.chance(1, 3) { r.range(n / 2 + 1, n) } else { n };
    let cpus = *r.pick(&CPUS);
    let kind = r.below(7);
    let mut a: Vec<F> = input(r, len, kind);
    c.desc(format!("{} {} coefficients factor={} cpus={} kind={}", name, len, factor, cpus, kind));
    a.resize(n, F::zero());
    let w = worker_with_cpus(cpus);
    let total = n * factor;
    let mg = F::multiplicative_generator();
    let want = eval_domain(&a, total, F::one());
    let want_coset = eval_domain(&a, total, mg);
    c.count("extension points compared", total as u64);

    type P<F> = Polynomial<F, Coefficients>;
    type R<F> = Result<Polynomial<F, Values>, hodor::SynthesisError>;
    let all: Vec<(&str, bool, Box<dyn Fn(P<F>, &Worker) -> R<F>>)> = vec![
        ("lde", false, Box::new(move |p, w| p.lde(w, factor))),
        ("filtering_lde", false, Box::new(move |p, w| p.filtering_lde(w, factor))),
        ("lde_using_multiple_cosets", false, Box::new(move |p, w| p.lde_using_multiple_cosets(w, factor))),
        ("lde_using_multiple_cosets_naive", false, Box::new(move |p, w| p.lde_using_multiple_cosets_naive(w, factor))),
        ("coset_lde", true, Box::new(move |p, w| p.coset_lde(w, factor))),
        ("coset_filtering_lde", true, Box::new(move |p, w| p.coset_filtering_lde(w, factor))),
        ("coset_lde_using_multiple_cosets", true, Box::new(move |p, w| p.coset_lde_using_multiple_cosets(w, factor))),
        ("coset_lde_using_multiple_cosets_naive", true, Box::new(move |p, w| p.coset_lde_using_multiple_cosets_naive(w, factor))),
    ];
    for (what, coset, f) in all.iter() {
        let p = P::<F>::from_coeffs(a.clone()).map_err(|e| format!("from_coeffs: {}", e))?;
        let v = observe(|| f(p, &w)).map_err(|m| format!("{}: panic: {}", what, m))?.map_err(|e| format!("{}: error: {}", what, e))?;
        let right = if *coset { &want_coset } else { &want };
        let verdict = same(what, v.as_ref(), right);
        if verdict.is_err() && !what.contains("filtering") && !what.contains("naive") && crate::proto::lde_defective(cpus, factor) {
            let model = defective_lde(&a, factor, cpus, if *coset { mg } else { F::one() });
            if v.as_ref() == &model[..] {
                c.known("lde-multi-coset", "extension over several cosets per thread");
                continue;
            }
        }
        verdict?;
        c.count(what, 1);
        if v.omega != root::<F>(total) || v.exp as usize != log2(total) {
            return Err(format!("{}: the result is not over the larger domain", what));
        }
    }

    let mut z = a.clone();
    z.resize(total, F::zero());
    let omega = root::<F>(total);
    let log_t = log2(total) as u32;
    for k in 0..=log_t.min(4) {
        let mut v = z.clone();
        run_one("parallel_lde", || tr::parallel_lde(&mut v, &w, &omega, log_t, k, factor))?;
        same(&format!("parallel_lde in 2^{} parts", k), &v, &want)?;
        c.count("parallel_lde", 1);
    }
    let mut v = z.clone();
    run_one("serial_lde", || tr::serial_lde(&mut v, &omega, log_t, factor))?;
    same("serial_lde", &v, &want)?;
    let mut v = z.clone();
    run_one("best_lde", || tr::best_lde(&mut v, &w, &omega, log_t, factor))?;
    same("best_lde", &v, &want)?;
    c.count("serial_lde and best_lde", 1);
    Ok(())
}

fn lde_too_large<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    if F::S > 20 {
        c.trivial();
        return Ok(());
    }
    let log_n = r.range((F::S as usize).saturating_sub(5), F::S as usize);
    let n = 1usize << log_n;
    let factor = 1usize << (F::S as usize - log_n + 1 + r.below(3));
    let cpus = *r.pick(&CPUS);
    c.desc(format!("{} 2^{} coefficients factor={} cpus={}", name, log_n, factor, cpus));
    let w = worker_with_cpus(cpus);
    let p = Polynomial::<F, Coefficients>::from_coeffs(rvec(&mut c.rng, n)).map_err(|e| format!("from_coeffs: {}", e))?;
    for k in 0..4 {
        let p = p.clone();
        let v = observe(|| match k {
            0 => p.lde(&w, factor),
            1 => p.coset_lde(&w, factor),
            2 => p.filtering_lde(&w, factor),
            _ => p.coset_filtering_lde(&w, factor),
        });
        match v {
            Ok(Err(_)) => c.count("extensions beyond the two-adicity refused", 1),
            Ok(Ok(_)) => return Err(format!("an extension beyond the two-adicity of the field came out ({})", k)),
            Err(m) => return Err(format!("an extension beyond the two-adicity of the field panics ({}): {}", k, m)),
        }
    }
    Ok(())
}

pub fn run_lde(ctx: &mut Ctx) {
    for k in ["lde", "coset_lde", "filtering_lde", "coset_filtering_lde", "lde_using_multiple_cosets_naive", "coset_lde_using_multiple_cosets_naive", "parallel_lde", "serial_lde and best_lde", "extensions beyond the two-adicity refused"] {
        ctx.require(k);
    }
    let n = ctx.n(900, 9000);
    let top = ctx.n(9, 11) as usize;
    ctx.section("naive", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, lde, c, f, top)
    });
    let n = ctx.n(30, 300);
    let top = ctx.n(17, 19) as usize;
    ctx.section("large", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, lde, c, f, top)
    });
    ctx.section("too-large", 64, |c| {
        let f = "F257";
        with_field!(f, lde_too_large, c, f)
    });
}
