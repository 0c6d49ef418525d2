//! C25: the build with prefetching. C26: no undefined behaviour and no data race, as sanitizers and
//! an interpreter see it.
//!
//! Both run cases of other checks in differently built copies of this program, one case per process.

use crate::checks::fftc::input;
use crate::fields::*;
use crate::fw::*;
use crate::inst::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::domains::Domain;
use hodor::polynomials::*;
use hodor::precomputations::PrecomputedOmegas;
use hodor::verif_hooks::transforms as tr;
use hodor::verif_hooks::{force_cpus, worker_with_cpus};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn place(what: &str) -> String {
    let base = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    format!("{}/.build/{}", base, what)
}

fn address_build() -> String {
    place("target-asan/x86_64-unknown-linux-gnu/release/mon")
}
fn thread_build() -> String {
    place("target-tsan/x86_64-unknown-linux-gnu/release/mon")
}

struct Ran {
    status: Option<std::process::ExitStatus>,
    stdout: String,
    stderr: String,
    late: bool,
}

fn run_in(c: &mut Command, limit: Duration) -> Result<Ran, String> {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // the limit of this process does not suit shadow memory
            let mut lim: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_AS, &mut lim);
            lim.rlim_cur = lim.rlim_max;
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        });
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut k = c.spawn().map_err(|e| format!("HARNESS: spawn: {}", e))?;
    let (mut o, mut e) = (k.stdout.take().unwrap(), k.stderr.take().unwrap());
    let to = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = o.read_to_end(&mut v);
        v
    });
    let te = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let at = Instant::now();
    let mut late = false;
    let status = loop {
        match k.try_wait().map_err(|e| format!("HARNESS: wait: {}", e))? {
            Some(s) => break Some(s),
            None if at.elapsed() > limit => {
                late = true;
                let _ = k.kill();
                let _ = k.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let s = |v: Vec<u8>| String::from_utf8_lossy(&v).to_string();
    Ok(Ran { status, stdout: s(to.join().unwrap_or_default()), stderr: s(te.join().unwrap_or_default()), late })
}

/// evaluations, trivial ones, violations, first message, description
fn bare_line(r: &Ran) -> Option<(u64, u64, u64, String, String)> {
    let l = r.stderr.lines().find_map(|l| l.strip_prefix("BARE\t"))?;
    let p: Vec<&str> = l.split('\t').collect();
    Some((p.get(0)?.parse().ok()?, p.get(1)?.parse().ok()?, p.get(2)?.parse().ok()?, p.get(3)?.to_string(), p.get(4)?.to_string()))
}

// ------------------------------------------------------------------ C25

/// Everything below is a function of the case alone: other builds have to say the same.
fn outcome<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let mut out: Vec<(String, u64)> = vec![];
    let mut put = |what: String, b: Vec<u8>| out.push((what, hash_bytes(&b)));
    let bytes = |v: &[F]| -> Vec<u8> {
        let mut o = vec![];
        for x in v {
            for l in to_limbs(x) {
                o.extend_from_slice(&l.to_le_bytes());
            }
        }
        o
    };
    macro_rules! val {
        ($what:expr, $e:expr) => {
            match observe(|| $e) {
                Ok(v) => put($what.to_string(), bytes(&v)),
                Err(_) => put(format!("{} panics", $what), vec![]),
            }
        };
    }
    let r = &mut c.rng;
    let cpus = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 16]);
    let w = worker_with_cpus(cpus);
    force_cpus(cpus);
    let log = r.below(9.min(F::S as usize));
    let n = 1usize << log;
    let kind = r.below(7);
    let len = if r.chance(1, 2) { n } else { r.range(1, n) };
    let a: Vec<F> = input(r, len, kind);
    let factor = 1usize << r.below(5.min(F::S as usize - log + 1));
    let shift: F = rf_nonzero(r);
    c.desc(format!("{} {} values, rate 1/{}, cpus={}, kind={}", name, len, factor, cpus, kind));
    let p = || Polynomial::<F, Coefficients>::from_coeffs(a.clone()).map_err(|_| ()).expect("polynomial");
    let v = || Polynomial::<F, Values>::from_values(a.clone()).map_err(|_| ()).expect("values");
    val!("fft", p().fft(&w).into_coeffs());
    val!("coset_fft", p().coset_fft(&w).into_coeffs());
    val!("coset_fft_for_generator", p().coset_fft_for_generator(&w, shift).into_coeffs());
    val!("ifft", v().ifft(&w).into_coeffs());
    val!("icoset_fft", v().icoset_fft(&w).into_coeffs());
    if !lde_defective(cpus, factor) {
        val!("lde", p().lde(&w, factor).map_err(|_| ()).expect("lde").into_coeffs());
        val!("coset_lde", p().coset_lde(&w, factor).map_err(|_| ()).expect("lde").into_coeffs());
    }
    val!("lde_using_multiple_cosets_naive", p().lde_using_multiple_cosets_naive(&w, factor).map_err(|_| ()).expect("lde").into_coeffs());
    val!("filtering_lde", p().filtering_lde(&w, factor).map_err(|_| ()).expect("lde").into_coeffs());
    val!("coset_filtering_lde", p().coset_filtering_lde(&w, factor).map_err(|_| ()).expect("lde").into_coeffs());
    let mut full = a.clone();
    full.resize(n, F::zero());
    let omega: F = root(n);
    val!("best_fft", {
        let mut q = full.clone();
        tr::best_fft(&mut q, &w, &omega, log as u32, None);
        q
    });
    val!("best_fft hinted", {
        let mut q = full.clone();
        tr::best_fft(&mut q, &w, &omega, log as u32, Some(1));
        q
    });
    val!("best_lde", {
        let mut q = full.clone();
        q.resize(n * factor, F::zero());
        tr::best_lde(&mut q, &w, &root(n * factor), log2(n * factor) as u32, factor);
        q
    });
    val!("omegas", {
        let d = Domain::<F>::new_for_size(n as u64).map_err(|_| ()).expect("domain");
        PrecomputedOmegas::<F>::new_for_domain(&d, &w).omegas
    });

    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(Shape { max_regs: 3, min_rows: 2, max_rows: 20, max_degree: 3, max_domain: 128, max_cons: 3 }));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {:?}", i.desc(), cfg));
    match observe(|| prove::<F, B2s<F>>(&i, &i.witness, &cfg)) {
        Ok(Ok(p)) => {
            put("proof".into(), proof_bytes(&p));
            put(format!("verdict {:?}", verify(&i, &cfg, &p)), vec![]);
        }
        Ok(Err(_)) => put("no proof".into(), vec![]),
        Err(_) => put("prover panics".into(), vec![]),
    }
    let all: Vec<String> = out.iter().map(|(k, h)| format!("{}={:016x}", k, h)).collect();
    eprintln!("OUTCOME\t{}", all.join("\t"));
    c.count("outcomes", all.len() as u64);
    Ok(())
}

/// Fewer transforms, of sizes up to 2^18.
fn large_outcome<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let r = &mut c.rng;
    let cpus = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 16]);
    let w = worker_with_cpus(cpus);
    force_cpus(cpus);
    let log = r.range(9, 18).min(F::S as usize);
    let n = 1usize << log;
    let len = if r.chance(1, 2) { n } else { r.range(1, n) };
    let a: Vec<F> = rvec(r, len);
    let factor = 1usize << r.below((19 - log).min(F::S as usize - log + 1).min(5));
    c.desc(format!("{} {} values, rate 1/{}, cpus={}", name, len, factor, cpus));
    let mut all: Vec<String> = vec![];
    let mut put = |what: &str, v: Result<Vec<F>, String>| {
        let b: Vec<u8> = v.map(|v| v.iter().flat_map(|x| to_limbs(x)).flat_map(|l| l.to_le_bytes().to_vec()).collect()).unwrap_or(vec![]);
        all.push(format!("{}={:016x}", what, hash_bytes(&b)));
    };
    let mut full = a.clone();
    full.resize(n, F::zero());
    let mut q = full.clone();
    put("best_fft", observe(|| tr::best_fft(&mut q, &w, &root(n), log as u32, None)).map(|_| q));
    let p = || Polynomial::<F, Coefficients>::from_coeffs(a.clone()).map_err(|_| ()).expect("polynomial");
    put("coset_fft", observe(|| p().coset_fft(&w).into_coeffs()));
    put("ifft", observe(|| Polynomial::<F, Values>::from_values(full.clone()).map_err(|_| ()).expect("values").ifft(&w).into_coeffs()));
    if !lde_defective(cpus, factor) {
        put("lde", observe(|| p().lde(&w, factor).map_err(|_| ()).expect("lde").into_coeffs()));
    }
    put("coset_filtering_lde", observe(|| p().coset_filtering_lde(&w, factor).map_err(|_| ()).expect("lde").into_coeffs()));
    eprintln!("OUTCOME\t{}", all.join("\t"));
    c.count("outcomes", all.len() as u64);
    Ok(())
}

/// Not a property: what C25 compares between builds.
pub fn run_outcomes(ctx: &mut Ctx) {
    ctx.section("all", 100_000, |c| {
        // the fields that every build has
        let f = ["Goldilocks", "F257"][c.idx as usize % 2];
        with_field!(f, outcome, c, f)
    });
    ctx.section("large", 100_000, |c| {
        let f = ["Goldilocks", "Goldilocks", "Goldilocks", "F257"][c.idx as usize % 4];
        with_field!(f, large_outcome, c, f)
    });
}

fn outcomes_of(exe: &str, section: &str, idx: u64) -> Result<Option<(Vec<String>, String)>, String> {
    let r = run_in(Command::new(exe).args(&["--bare", "outcomes", section, &idx.to_string()]).env("ASAN_OPTIONS", ASAN), Duration::from_secs(100))?;
    if r.late {
        return Ok(None);
    }
    let l = r.stderr.lines().find_map(|l| l.strip_prefix("OUTCOME\t"));
    match (l, bare_line(&r)) {
        (Some(l), Some(b)) => Ok(Some((l.split('\t').map(|s| s.to_string()).collect(), b.4))),
        _ => Err(format!("no outcome from {}: {:?} {}", exe, r.status, head(&r.stderr))),
    }
}

fn head(s: &str) -> String {
    s.chars().take(1500).collect()
}

fn same_outcome(c: &mut Case, section: &str) -> Result<(), String> {
    let own = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let a = outcomes_of(&own, section, c.idx).map_err(|m| format!("HARNESS: {}", m))?;
    let b = outcomes_of(&address_build(), section, c.idx).map_err(|m| format!("with prefetching: {}", m))?;
    match (a, b) {
        (Some((a, d)), Some((b, _))) => {
            c.desc(d);
            for (x, y) in a.iter().zip(b.iter()) {
                if x != y {
                    return Err(format!("{} with prefetching is {}", x, y));
                }
                c.count("results equal in both builds", 1);
                if x.starts_with("proof=") {
                    c.count("proofs equal in both builds", 1);
                }
                if section == "large" {
                    c.count("large results equal in both builds", 1);
                }
                if x.starts_with("lde=") {
                    c.count("extensions equal in both builds", 1);
                }
            }
            if a.len() != b.len() {
                return Err(format!("{} results, and {} with prefetching", a.len(), b.len()));
            }
        }
        _ => c.trivial(),
    }
    Ok(())
}

/// A case of another check, with its own oracle, in the other build.
fn elsewhere(c: &mut Case, id: &str, section: &str) -> Result<(), String> {
    let r = run_in(Command::new(address_build()).args(&["--bare", id, section, &c.idx.to_string()]).env("ASAN_OPTIONS", ASAN), Duration::from_secs(100))?;
    if r.late {
        c.trivial();
        return Ok(());
    }
    match bare_line(&r) {
        Some((1, t, 0, _, d)) => {
            c.desc(d);
            if t > 0 {
                c.trivial();
            } else {
                c.count(&format!("cases of {} with prefetching", id), 1);
            }
            Ok(())
        }
        Some((0, ..)) => {
            c.trivial();
            Ok(())
        }
        Some((_, _, _, m, d)) => Err(format!("with prefetching, {} {}#{}: {} [{}]", id, section, c.idx, m, d)),
        None => Err(format!("with prefetching, {} {}#{} ended with {:?}: {}", id, section, c.idx, r.status, head(&r.stderr))),
    }
}

pub fn run_prefetch(ctx: &mut Ctx) {
    for k in ["results equal in both builds", "large results equal in both builds", "proofs equal in both builds", "extensions equal in both builds", "cases of C09 with prefetching", "cases of C10 with prefetching"] {
        ctx.require(k);
    }
    let n = ctx.n(240, 6000);
    ctx.section("outcomes", n, |c| same_outcome(c, "all"));
    let n = ctx.n(60, 1200);
    ctx.section("large-outcomes", n, |c| same_outcome(c, "large"));
    let n = ctx.n(240, 6000);
    ctx.section("transforms", n, |c| elsewhere(c, "C09", "naive"));
    let n = ctx.n(60, 600);
    ctx.section("large", n, |c| elsewhere(c, "C09", "large"));
    let n = ctx.n(60, 2000);
    ctx.section("polynomials", n, |c| elsewhere(c, "C09", "polynomials"));
    let n = ctx.n(240, 6000);
    ctx.section("extensions", n, |c| elsewhere(c, "C10", "naive"));
}

// ------------------------------------------------------------------ C26

const ASAN: &str = "detect_leaks=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:max_allocation_size_mb=4000";
const TSAN: &str = "halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0:history_size=3:allocator_may_return_null=1";
const MIRI: &str = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows";

/// What is a report about memory, races or undefined behaviour, in what a process left behind.
/// Panics, wrong results and exhausted memory are the business of other checks.
fn report(r: &Ran) -> Option<String> {
    let e = &r.stderr;
    let from = |k: usize| Some(head(&e[k..]));
    for pat in ["WARNING: ThreadSanitizer: ", "ERROR: AddressSanitizer: ", "ERROR: ThreadSanitizer: "] {
        let mut at = 0;
        while let Some(k) = e[at..].find(pat) {
            let k = at + k;
            let what = &e[k + pat.len()..];
            let harmless = ["out of memory", "requested allocation size", "allocator is out of memory", "stack-overflow", "failed to ", "calloc-overflow"];
            if !harmless.iter().any(|h| what.starts_with(h)) {
                return from(k);
            }
            at = k + pat.len();
        }
    }
    for pat in ["unsafe precondition(s) violated", "error: Undefined Behavior", "null pointer dereference occurred", "misaligned pointer dereference"] {
        if let Some(k) = e.find(pat) {
            return from(k);
        }
    }
    if let Some(s) = r.status {
        use std::os::unix::process::ExitStatusExt;
        if let Some(n) = s.signal() {
            if [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&n) && !e.contains("overflowed its stack") {
                return Some(format!("signal {}: {}", n, head(e)));
            }
        }
    }
    None
}

/// Sections in which threads meet, or memory is indexed by numbers that come from outside.
const WORK: [(&str, &str); 34] = [
    ("C20", "at-once"),
    ("C20", "at-once"),
    ("C20", "history"),
    ("C20", "threads"),
    ("C09", "naive"),
    ("C09", "large"),
    ("C09", "polynomials"),
    ("C10", "naive"),
    ("C11", "common"),
    ("C11", "coefficients"),
    ("C11", "values"),
    ("C11", "roots"),
    ("C11", "interpolation"),
    ("C12", "trees"),
    ("C12", "determinism"),
    ("C12", "cosets"),
    ("C13", "small"),
    ("C14", "words"),
    ("C14", "changes"),
    ("C14", "prototypes"),
    ("C01", "Goldilocks"),
    ("C01", "wide"),
    ("C01", "long"),
    ("C05", "changes"),
    ("C05", "stacked"),
    ("C05", "direct"),
    ("C07", "history"),
    ("C15", "small"),
    ("C16", "cells"),
    ("C17", "small"),
    ("C18", "quotients"),
    ("C22", "checked"),
    ("C23", "columns"),
    ("C24", "coverage"),
];

fn under(c: &mut Case, what: &str) -> Result<(), String> {
    let (id, section) = WORK[c.idx as usize % WORK.len()];
    let idx = c.rng.below(100);
    let mut cmd = if what == "address" { Command::new(address_build()) } else { Command::new(thread_build()) };
    cmd.args(&["--bare", id, section, &idx.to_string()]).env("ASAN_OPTIONS", ASAN).env("TSAN_OPTIONS", TSAN);
    let r = run_in(&mut cmd, Duration::from_secs(60))?;
    c.desc(format!("{}: {} {}#{}", what, id, section, idx));
    if let Some(m) = report(&r) {
        return Err(format!("{} {}#{}: {}", id, section, idx, m));
    }
    judge(c, &r, what, id)
}

fn judge(c: &mut Case, r: &Ran, what: &str, id: &str) -> Result<(), String> {
    if r.late {
        c.count(&format!("cases too long for the {} monitor", what), 1);
        c.trivial();
        return Ok(());
    }
    match bare_line(r) {
        Some((0, ..)) => c.trivial(),
        Some((_, t, _, _, d)) => {
            c.desc(d);
            c.count(&format!("cases under the {} monitor", what), 1);
            c.count(&format!("{} cases of {}", what, id), 1);
            if t > 0 {
                c.count(&format!("cases under the {} monitor that came to no verdict of their own", what), 1);
            }
        }
        None => {
            c.count(&format!("cases that ended early under the {} monitor", what), 1);
            if c.idx < 40 {
                c.desc(head(&r.stderr).chars().take(300).collect());
            }
            c.trivial();
        }
    }
    Ok(())
}

fn interpreted(c: &mut Case) -> Result<(), String> {
    let sections = ["transforms", "extensions", "polynomials", "trees", "folding", "transcript", "proof", "hostile"];
    // not all of one kind in one shard
    let section = sections[(c.idx as usize + c.idx as usize / sections.len()) % sections.len()];
    let idx = c.idx / sections.len() as u64;
    let mut cmd = Command::new("cargo-miri");
    let bin = place("target-miri/miri/x86_64-unknown-linux-gnu/debug/mon");
    let toolchain = std::env::var("MIRI_TOOLCHAIN").unwrap_or("nightly".into());
    cmd.args(&["runner", &bin, "--bare", "tiny", section, &idx.to_string()]);
    cmd.env("MIRIFLAGS", MIRI).env("MIRI_SYSROOT", place("miri-sysroot")).env("RUSTUP_TOOLCHAIN", toolchain).env("CARGO_MANIFEST_DIR", format!("{}/../harness", place("")));
    let r = run_in(&mut cmd, Duration::from_secs(if c.thorough { 600 } else { 150 }))?;
    c.desc(format!("interpreter: {}#{}", section, idx));
    if let Some(m) = report(&r) {
        return Err(format!("{}#{}: {}", section, idx, m));
    }
    if r.stderr.contains("unsupported operation") {
        c.count("cases that the interpreter does not support", 1);
    }
    judge(c, &r, "interpreter", section)
}

pub fn run_sanitized(ctx: &mut Ctx) {
    for k in ["cases under the thread monitor", "cases under the address monitor", "cases under the interpreter monitor"] {
        ctx.require(k);
    }
    let n = ctx.n(16, 400);
    ctx.section("interpreter", n, interpreted);
    let n = ctx.n(34 * 5, 34 * 120);
    ctx.section("thread", n, |c| under(c, "thread"));
    let n = ctx.n(34 * 5, 34 * 120);
    ctx.section("address", n, |c| under(c, "address"));
}

// ------------------------------------------------------------------ cases for the interpreter

/// Not a property: very small uses of everything, for an interpreter that is a thousand times slower.
pub fn run_tiny(ctx: &mut Ctx) {
    use hodor::iop::*;
    use hodor::transcript::Transcript;
    type G = Goldilocks;
    fn worker(c: &mut Case) -> (usize, hodor::verif_hooks::Worker) {
        let k = *c.rng.pick(&[1usize, 2, 3, 4]);
        force_cpus(k);
        (k, worker_with_cpus(k))
    }
    fn inst(c: &mut Case) -> (Inst<G>, Cfg) {
        let i: Inst<G> = generate(&mut c.rng, &Shape { max_regs: 2, min_rows: 2, max_rows: 4, max_degree: 2, max_domain: 8, max_cons: 2 });
        let mut cfg = pick_cfg(&mut c.rng, &i);
        cfg.lde = 2;
        cfg.cpus = c.rng.range(1, 2);
        c.desc(format!("{} {:?}", i.desc(), cfg));
        (i, cfg)
    }
    ctx.section("transforms", 10_000, |c| {
        let (k, w) = worker(c);
        let log = c.rng.range(0, 2) * 2;
        let mut a: Vec<G> = rvec(&mut c.rng, 1 << log);
        let omega: G = root(1 << log);
        c.desc(format!("{} values, cpus={}", a.len(), k));
        let parts = (c.rng.below(2) * 2).min(log);
        tr::best_fft(&mut a, &w, &omega, log as u32, None);
        tr::parallel_fft(&mut a, &w, &omega, log as u32, parts as u32);
        tr::dit_best(&mut a, &w, &omega, log as u32, 1 << log);
        tr::dit_parallel(&mut a, &w, &omega, log as u32, parts as u32, 1 << log);
        tr::radix_4_serial(&mut a, &omega, log as u32);
        tr::radix_4_parallel(&mut a, &w, &omega, log as u32, parts as u32);
        Ok(())
    });
    ctx.section("extensions", 10_000, |c| {
        let (k, w) = worker(c);
        let n = 1usize << c.rng.below(3);
        let f = 1usize << c.rng.below(3);
        let a: Vec<G> = rvec(&mut c.rng, n);
        c.desc(format!("{} coefficients at rate 1/{}, cpus={}", n, f, k));
        let p = Polynomial::<G, Coefficients>::from_coeffs(a).map_err(|e| e.to_string())?;
        let _ = observe(|| p.clone().lde(&w, f));
        let _ = observe(|| p.clone().coset_lde(&w, f));
        let _ = observe(|| p.clone().lde_using_multiple_cosets_naive(&w, f));
        let _ = observe(|| p.clone().filtering_lde(&w, f));
        let _ = observe(|| p.clone().coset_filtering_lde(&w, f));
        Ok(())
    });
    ctx.section("polynomials", 10_000, |c| {
        let (k, w) = worker(c);
        let n = 1usize << c.rng.below(4);
        let a: Vec<G> = rvec(&mut c.rng, n);
        let b: Vec<G> = rvec(&mut c.rng, n);
        c.desc(format!("{} values, cpus={}", n, k));
        let mut p = Polynomial::<G, Coefficients>::from_coeffs(a.clone()).map_err(|e| e.to_string())?;
        let q = Polynomial::<G, Coefficients>::from_coeffs(b.clone()).map_err(|e| e.to_string())?;
        let _ = p.evaluate_at(&w, b[0]);
        p.add_assign(&w, &q);
        p.sub_assign(&w, &q);
        p.add_assign_scaled(&w, &q, &b[0]);
        p.scale(&w, a[0]);
        p.negate(&w);
        p.distribute_powers(&w, b[0]);
        let mut v = Polynomial::<G, Values>::from_values(a.clone()).map_err(|e| e.to_string())?;
        let u = Polynomial::<G, Values>::from_values(b).map_err(|e| e.to_string())?;
        v.batch_inversion(&w).map_err(|e| e.to_string())?;
        v.mul_assign(&w, &u);
        v.pow(&w, 3);
        v.add_constant(&w, &a[0]);
        v.square(&w);
        Ok(())
    });
    ctx.section("trees", 10_000, |c| {
        let (k, _) = worker(c);
        let n = 1usize << c.rng.range(1, 3);
        let v: Vec<G> = rvec(&mut c.rng, n);
        c.desc(format!("{} leaves, cpus={}", n, k));
        let t = Iop::<G>::create(&v);
        let root = t.get_root();
        for k in 0..n {
            if !Iop::<G>::verify_query(&t.query(k, &v), &root) {
                return Err("an opening does not verify".into());
            }
        }
        Ok(())
    });
    ctx.section("folding", 10_000, |c| {
        use hodor::fri::*;
        let (k, w) = worker(c);
        let d = 1usize << c.rng.below(3);
        let a: Vec<G> = rvec(&mut c.rng, d);
        c.desc(format!("{} coefficients, cpus={}", d, k));
        let word = eval_domain(&a, d * 2, G::from_str("1").unwrap());
        let lde = Polynomial::<G, Values>::from_values(word.clone()).map_err(|e| e.to_string())?;
        let p: Proto<G> = Fri::<G>::proof_from_lde_by_values(&lde, 2, 1, &w).map_err(|e| e.to_string())?;
        let at = 2 * d - 1;
        let _ = Fri::<G>::verify_prototype(&p, &lde, at);
        let p: FriPr<G> = p.produce_proof(&lde, at).map_err(|e| e.to_string())?;
        match Fri::<G>::verify_proof_queries(&p, at, 2, word[at]) {
            Ok(true) => Ok(()),
            _ => Err("not accepted".into()),
        }
    });
    ctx.section("transcript", 10_000, |c| {
        let mut t = B2s::<G>::new();
        for _ in 0..3 {
            let n = c.rng.below(70);
            t.commit_bytes(&c.rng.bytes(n));
            t.commit_field_element(&rf(&mut c.rng));
            let _ = t.get_challenge();
            let _ = t.get_challenge_bytes();
        }
        c.desc("transcript".into());
        Ok(())
    });
    ctx.section("proof", 10_000, |c| {
        let (i, cfg) = inst(c);
        match prove::<G, B2s<G>>(&i, &i.witness, &cfg) {
            Ok(p) => match verify(&i, &cfg, &p) {
                Verdict::Accept => Ok(()),
                v => Err(format!("{:?}", v)),
            },
            Err(e) => Err(e),
        }
    });
    ctx.section("hostile", 10_000, |c| {
        let (i, cfg) = inst(c);
        let mut p = prove::<G, B2s<G>>(&i, &i.witness, &cfg)?;
        for _ in 0..3 {
            crate::checks::total::mutate(&mut c.rng, &mut p);
        }
        let v = verify(&i, &cfg, &p);
        c.desc(format!("{:?}", v));
        Ok(())
    });
}
