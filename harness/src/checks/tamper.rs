//! C03: no component of an accepted proof can be changed.

use crate::fields::*;
use crate::fw::*;
use crate::inst::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::iop::*;
use hodor::verif_hooks::forge_query;

type P<F> = ProofOf<F, B2s<F>>;

fn flip(h: &mut [u8; 32], r: &mut Rng) {
    let b = r.below(256);
    h[b / 8] ^= 1 << (b % 8);
}

/// All sorts of changes to one opening.
pub fn query_changes<F: PrimeField>(q: &Query<F>, size: usize, r: &mut Rng) -> Vec<(String, Query<F>)> {
    let (i, v, p) = (q.natural_index(), q.value(), q.path().to_vec());
    let mut out = vec![];
    let mut put = |n: &str, i: usize, v: F, p: Vec<[u8; 32]>| out.push((n.to_string(), forge_query(i, v, p)));
    put("value + 1", i, add(v, F::one()), p.clone());
    put("negated value", i, neg(v), p.clone());
    put("random value", i, rf(r), p.clone());
    put("zero value", i, F::zero(), p.clone());
    put("index ^ 1", i ^ 1, v, p.clone());
    put("index of the pair", (i + size / 2) % size, v, p.clone());
    put("index + size", i + size, v, p.clone());
    put("index + 2^40", i + (1 << 40), v, p.clone());
    put("index 0", 0, v, p.clone());
    for k in 0..p.len() {
        let mut x = p.clone();
        flip(&mut x[k], r);
        put(&format!("bit flip in path element {}", k), i, v, x);
    }
    put("empty path", i, v, vec![]);
    if !p.is_empty() {
        put("path cut", i, v, p[..p.len() - 1].to_vec());
        put("path without its first element", i, v, p[1..].to_vec());
        let mut x = p.clone();
        x.push([0; 32]);
        put("path extended", i, v, x);
        let mut x = p.clone();
        x.reverse();
        put("path reversed", i, v, x);
    }
    out
}

/// Changes to a FRI proof alone.
pub fn fri_changes<F: PrimeField>(f: &FriPr<F>, r: &mut Rng) -> Vec<(String, FriPr<F>)> {
    let mut out: Vec<(String, FriPr<F>)> = vec![];
    macro_rules! ch {
        ($n:expr, |$x:ident| $b:block) => {{
            let mut $x: FriPr<F> = clone_fri(f);
            $b;
            out.push(($n.to_string(), $x));
        }};
    }
    for k in 0..f.roots.len() {
        ch!(format!("root {} flipped", k), |x| { flip(&mut x.roots[k], r) });
        ch!(format!("root {} removed", k), |x| { x.roots.remove(k) });
        ch!(format!("root {} doubled", k), |x| {
            let y = x.roots[k];
            x.roots.insert(k, y)
        });
        ch!(format!("round {} removed", k), |x| {
            x.roots.remove(k);
            x.queries.drain(2 * k..2 * k + 2)
        });
        ch!(format!("round {} doubled", k), |x| {
            x.roots.insert(k, f.roots[k]);
            let (a, b) = (f.queries[2 * k].clone(), f.queries[2 * k + 1].clone());
            x.queries.insert(2 * k, b);
            x.queries.insert(2 * k, a)
        });
        ch!(format!("cut to {} rounds", k), |x| {
            x.roots.truncate(k);
            x.queries.truncate(2 * k)
        });
        if k > 0 {
            ch!(format!("roots {} and {} exchanged", k - 1, k), |x| { x.roots.swap(k - 1, k) });
        }
    }
    ch!("no roots", |x| { x.roots.clear() });
    ch!("no queries", |x| { x.queries.clear() });
    ch!("no roots and no queries", |x| {
        x.roots.clear();
        x.queries.clear()
    });
    ch!("nothing at all", |x| {
        x.roots.clear();
        x.queries.clear();
        x.final_coefficients.clear()
    });
    for k in 0..f.queries.len() {
        let size = (f.initial_degree_plus_one * f.lde_factor) >> (k / 2);
        for (n, q) in query_changes(&f.queries[k], size, r) {
            ch!(format!("query {}: {}", k, n), |x| { x.queries[k] = q });
        }
        ch!(format!("query {} removed", k), |x| { x.queries.remove(k) });
        ch!(format!("query {} doubled", k), |x| {
            let q = f.queries[k].clone();
            x.queries.insert(k, q)
        });
        if k > 0 {
            ch!(format!("queries {} and {} exchanged", k - 1, k), |x| { x.queries.swap(k - 1, k) });
            ch!(format!("query {} copied from {}", k, k - 1), |x| { x.queries[k] = f.queries[k - 1].clone() });
        }
    }
    for k in 0..f.final_coefficients.len() {
        ch!(format!("final coefficient {} + 1", k), |x| { x.final_coefficients[k].add_assign(&F::one()) });
        ch!(format!("final coefficient {} random", k), |x| { x.final_coefficients[k] = rf(r) });
        ch!(format!("final coefficient {} removed", k), |x| { x.final_coefficients.remove(k) });
    }
    ch!("zero coefficient more", |x| { x.final_coefficients.push(F::zero()) });
    ch!("no final coefficients", |x| { x.final_coefficients.clear() });
    macro_rules! num {
        ($field:ident) => {
            let v = f.$field;
            for y in [v * 2, v / 2, v + 1, v - 1, 0, 1, 3, v << 4, v << 30, 1 << 62, 1 << 63, (1 << 63) + 1, usize::max_value()].iter() {
                ch!(format!("{} = {}", stringify!($field), y), |x| { x.$field = *y });
            }
        };
    }
    num!(initial_degree_plus_one);
    num!(output_coeffs_at_degree_plus_one);
    num!(lde_factor);
    let big = [1usize, 2, 1 << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63];
    for a in big.iter() {
        for b in big.iter() {
            ch!(format!("degree {} at rate {}", a, b), |x| {
                x.initial_degree_plus_one = *a;
                x.lde_factor = *b
            });
            ch!(format!("degrees {} at rate {}", a, b), |x| {
                x.initial_degree_plus_one = *a;
                x.output_coeffs_at_degree_plus_one = *a;
                x.lde_factor = *b
            });
            // as few rounds as declared
            ch!(format!("degrees {} at rate {} in one round", a, b), |x| {
                x.initial_degree_plus_one = *a;
                x.output_coeffs_at_degree_plus_one = *a;
                x.lde_factor = *b;
                x.roots.truncate(1);
                x.queries.truncate(2)
            });
        }
    }
    ch!("degree doubled, rate halved", |x| {
        x.initial_degree_plus_one *= 2;
        x.lde_factor /= 2
    });
    ch!("degree halved, rate doubled", |x| {
        x.initial_degree_plus_one /= 2;
        x.lde_factor *= 2
    });
    ch!("all degrees doubled", |x| {
        x.initial_degree_plus_one *= 2;
        x.output_coeffs_at_degree_plus_one *= 2
    });
    out
}

pub fn changes<F: PrimeField>(p: &P<F>, other: Option<&P<F>>, r: &mut Rng) -> Vec<(String, P<F>)> {
    let mut out: Vec<(String, P<F>)> = vec![];
    macro_rules! ch {
        ($n:expr, |$x:ident| $b:block) => {{
            let mut $x: P<F> = clone_proof(p);
            $b;
            out.push(($n.to_string(), $x));
        }};
    }
    let lde1 = p.fri_proof_h1.initial_degree_plus_one * p.fri_proof_h1.lde_factor;
    let lde2 = p.fri_proof_h2.initial_degree_plus_one * p.fri_proof_h2.lde_factor;

    for k in 0..p.f_at_z_m.len() {
        ch!(format!("claimed value {} + 1", k), |x| { x.f_at_z_m[k].add_assign(&F::one()) });
        ch!(format!("claimed value {} random", k), |x| { x.f_at_z_m[k] = rf(r) });
        ch!(format!("claimed value {} zero", k), |x| { x.f_at_z_m[k] = F::zero() });
        ch!(format!("claimed value {} removed", k), |x| { x.f_at_z_m.remove(k) });
        ch!(format!("claimed value {} doubled", k), |x| {
            let v = x.f_at_z_m[k];
            x.f_at_z_m.insert(k, v)
        });
        if k > 0 {
            ch!(format!("claimed values {} and {} exchanged", k - 1, k), |x| { x.f_at_z_m.swap(k - 1, k) });
        }
    }
    ch!("claimed value more", |x| { x.f_at_z_m.push(F::zero()) });
    ch!("no claimed values", |x| { x.f_at_z_m.clear() });

    for k in 0..p.f_iop_roots.len() {
        ch!(format!("register root {} flipped", k), |x| { flip(&mut x.f_iop_roots[k], r) });
        ch!(format!("register root {} is the root of G", k), |x| { x.f_iop_roots[k] = x.g_iop_root });
        ch!(format!("register root and query {} removed", k), |x| {
            x.f_iop_roots.remove(k);
            x.f_queries.remove(k)
        });
        ch!(format!("register root and query {} doubled", k), |x| {
            let (a, b) = (x.f_iop_roots[k], x.f_queries[k].clone());
            x.f_iop_roots.push(a);
            x.f_queries.push(b)
        });
        ch!(format!("register query {} removed", k), |x| { x.f_queries.remove(k) });
        ch!(format!("register query {} doubled", k), |x| {
            let q = x.f_queries[k].clone();
            x.f_queries.push(q)
        });
        ch!(format!("register root {} removed", k), |x| { x.f_iop_roots.remove(k) });
        if k > 0 {
            ch!(format!("register roots {} and {} exchanged", k - 1, k), |x| { x.f_iop_roots.swap(k - 1, k) });
            ch!(format!("register queries {} and {} exchanged", k - 1, k), |x| { x.f_queries.swap(k - 1, k) });
            ch!(format!("register roots and queries {} and {} exchanged", k - 1, k), |x| {
                x.f_iop_roots.swap(k - 1, k);
                x.f_queries.swap(k - 1, k)
            });
            ch!(format!("register root and query {} copied from {}", k, k - 1), |x| {
                x.f_iop_roots[k] = x.f_iop_roots[k - 1];
                x.f_queries[k] = x.f_queries[k - 1].clone()
            });
        }
        for (n, q) in query_changes(&p.f_queries[k], lde1, r) {
            ch!(format!("register query {}: {}", k, n), |x| { x.f_queries[k] = q });
        }
    }
    ch!("root of G flipped", |x| { flip(&mut x.g_iop_root, r) });
    for (n, q) in query_changes(&p.g_query, lde2, r) {
        ch!(format!("query of G: {}", n), |x| { x.g_query = q });
    }
    ch!("query of G taken from register 0", |x| { x.g_query = x.f_queries[0].clone() });
    ch!("query of register 0 taken from G", |x| { x.f_queries[0] = x.g_query.clone() });

    for which in 0..2 {
        let name = ["H1", "H2"][which];
        macro_rules! fri {
            ($x:ident) => {
                if which == 0 { &mut $x.fri_proof_h1 } else { &mut $x.fri_proof_h2 }
            };
        }
        macro_rules! roots {
            ($x:ident) => {
                if which == 0 { &mut $x.h1_iop_roots } else { &mut $x.h2_iop_roots }
            };
        }
        let f = if which == 0 { &p.fri_proof_h1 } else { &p.fri_proof_h2 };
        for k in 0..f.roots.len() {
            let mut to = f.roots[k];
            flip(&mut to, r);
            ch!(format!("{} claimed root {} flipped", name, k), |x| { roots!(x)[k] = to });
            ch!(format!("{} FRI root {} flipped", name, k), |x| { fri!(x).roots[k] = to });
            ch!(format!("{} both roots {} flipped", name, k), |x| {
                roots!(x)[k] = to;
                fri!(x).roots[k] = to
            });
            ch!(format!("{} claimed root {} removed", name, k), |x| { roots!(x).remove(k) });
            ch!(format!("{} both roots {} removed", name, k), |x| {
                roots!(x).remove(k);
                fri!(x).roots.remove(k)
            });
            ch!(format!("{} round {} removed", name, k), |x| {
                roots!(x).remove(k);
                fri!(x).roots.remove(k);
                fri!(x).queries.drain(2 * k..2 * k + 2)
            });
            ch!(format!("{} round {} doubled", name, k), |x| {
                roots!(x).insert(k, f.roots[k]);
                fri!(x).roots.insert(k, f.roots[k]);
                let (a, b) = (f.queries[2 * k].clone(), f.queries[2 * k + 1].clone());
                fri!(x).queries.insert(2 * k, b);
                fri!(x).queries.insert(2 * k, a)
            });
            if k > 0 {
                ch!(format!("{} both roots {} and {} exchanged", name, k - 1, k), |x| {
                    roots!(x).swap(k - 1, k);
                    fri!(x).roots.swap(k - 1, k)
                });
            }
            ch!(format!("{} claimed roots cut to {}", name, k), |x| { roots!(x).truncate(k) });
        }
        for k in 0..f.queries.len() {
            let size = (f.initial_degree_plus_one * f.lde_factor) >> (k / 2);
            for (n, q) in query_changes(&f.queries[k], size, r) {
                ch!(format!("{} query {}: {}", name, k, n), |x| { fri!(x).queries[k] = q });
            }
            ch!(format!("{} query {} removed", name, k), |x| { fri!(x).queries.remove(k) });
            ch!(format!("{} query {} doubled", name, k), |x| {
                let q = f.queries[k].clone();
                fri!(x).queries.insert(k, q)
            });
            if k > 0 {
                ch!(format!("{} queries {} and {} exchanged", name, k - 1, k), |x| { fri!(x).queries.swap(k - 1, k) });
                ch!(format!("{} query {} copied from {}", name, k, k - 1), |x| { fri!(x).queries[k] = f.queries[k - 1].clone() });
            }
        }
        for k in 0..f.final_coefficients.len() {
            ch!(format!("{} final coefficient {} + 1", name, k), |x| { fri!(x).final_coefficients[k].add_assign(&F::one()) });
            ch!(format!("{} final coefficient {} random", name, k), |x| { fri!(x).final_coefficients[k] = rf(r) });
            ch!(format!("{} final coefficient {} removed", name, k), |x| { fri!(x).final_coefficients.remove(k) });
        }
        ch!(format!("{} zero coefficient more", name), |x| { fri!(x).final_coefficients.push(F::zero()) });
        ch!(format!("{} no final coefficients", name), |x| { fri!(x).final_coefficients.clear() });
        macro_rules! num {
            ($field:ident) => {
                for v in [f.$field * 2, f.$field / 2, f.$field + 1, 0, 1, f.$field << 4, usize::max_value()].iter() {
                    ch!(format!("{} {} = {}", name, stringify!($field), v), |x| { fri!(x).$field = *v });
                }
            };
        }
        num!(initial_degree_plus_one);
        num!(output_coeffs_at_degree_plus_one);
        num!(lde_factor);
        ch!(format!("{} degree doubled, rate halved", name), |x| {
            fri!(x).initial_degree_plus_one *= 2;
            fri!(x).lde_factor /= 2
        });
        ch!(format!("{} all degrees doubled", name), |x| {
            fri!(x).initial_degree_plus_one *= 2;
            fri!(x).output_coeffs_at_degree_plus_one *= 2
        });
    }
    ch!("H1 and H2 exchanged", |x| {
        std::mem::swap(&mut x.fri_proof_h1, &mut x.fri_proof_h2);
        std::mem::swap(&mut x.h1_iop_roots, &mut x.h2_iop_roots)
    });
    ch!("H2 replaced by H1", |x| {
        x.fri_proof_h2 = clone_fri(&x.fri_proof_h1);
        x.h2_iop_roots = x.h1_iop_roots.clone()
    });
    ch!("FRI proofs exchanged", |x| { std::mem::swap(&mut x.fri_proof_h1, &mut x.fri_proof_h2) });

    if let Some(o) = other {
        ch!("splice: claimed values", |x| { x.f_at_z_m = o.f_at_z_m.clone() });
        ch!("splice: register roots", |x| { x.f_iop_roots = o.f_iop_roots.clone() });
        ch!("splice: register queries", |x| { x.f_queries = o.f_queries.clone() });
        ch!("splice: registers", |x| {
            x.f_iop_roots = o.f_iop_roots.clone();
            x.f_queries = o.f_queries.clone()
        });
        ch!("splice: G", |x| {
            x.g_iop_root = o.g_iop_root;
            x.g_query = o.g_query.clone()
        });
        ch!("splice: root of G", |x| { x.g_iop_root = o.g_iop_root });
        ch!("splice: query of G", |x| { x.g_query = o.g_query.clone() });
        ch!("splice: H1", |x| {
            x.fri_proof_h1 = clone_fri(&o.fri_proof_h1);
            x.h1_iop_roots = o.h1_iop_roots.clone()
        });
        ch!("splice: H2", |x| {
            x.fri_proof_h2 = clone_fri(&o.fri_proof_h2);
            x.h2_iop_roots = o.h2_iop_roots.clone()
        });
        ch!("splice: H1 and H2", |x| {
            x.fri_proof_h1 = clone_fri(&o.fri_proof_h1);
            x.h1_iop_roots = o.h1_iop_roots.clone();
            x.fri_proof_h2 = clone_fri(&o.fri_proof_h2);
            x.h2_iop_roots = o.h2_iop_roots.clone()
        });
        ch!("splice: FRI proof of H1 without the claimed roots", |x| { x.fri_proof_h1 = clone_fri(&o.fri_proof_h1) });
        ch!("splice: FRI proof of H2 without the claimed roots", |x| { x.fri_proof_h2 = clone_fri(&o.fri_proof_h2) });
        ch!("splice: final coefficients of H1", |x| { x.fri_proof_h1.final_coefficients = o.fri_proof_h1.final_coefficients.clone() });
    }
    out
}

fn one<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let s = Shape { max_regs: 3, min_rows: 2, max_rows: 17, max_degree: 3, max_domain: 256, max_cons: 3 };
    let i: Inst<F> = generate(&mut c.rng, &shape_for::<F>(s));
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {:?} {} bits", i.desc(), cfg, F::NUM_BITS));
    tamper(c, &i, &cfg)
}

/// All columns constant: openings at other positions are as good as the right ones, apart from the index.
fn constant<F: PrimeField>(c: &mut Case) -> Result<(), String> {
    let rows = *c.rng.pick(&[2usize, 4, 8]);
    let regs = c.rng.range(1, 2);
    let witness: Vec<Vec<F>> = (0..regs).map(|_| vec![rf_edge(&mut c.rng); rows]).collect();
    let mut cons = vec![];
    for g in 0..regs {
        cons.push(Con {
            constant: F::zero(),
            terms: vec![
                Term::Uni(Factor { coeff: F::one(), reg: g, step: 1, power: 1 }),
                Term::Uni(Factor { coeff: neg(F::one()), reg: g, step: 0, power: 1 }),
            ],
            start: 0,
            span: 1,
            style: c.rng.u64(),
        });
    }
    let bounds = vec![(0, rows - 1, witness[0][rows - 1])];
    let i = Inst { rows, regs, cons, bounds, witness };
    let cfg = Cfg { cpus: 1, lde: *c.rng.pick(&[2usize, 4, 8]), out: 1 };
    c.desc(format!("constant columns {} {:?} {} bits", i.desc(), cfg, F::NUM_BITS));
    tamper(c, &i, &cfg)
}

fn tamper<F: PrimeField>(c: &mut Case, i: &Inst<F>, cfg: &Cfg) -> Result<(), String> {
    let proof = match observe(|| prove::<F, B2s<F>>(i, &i.witness, cfg)) {
        Ok(Ok(p)) => p,
        _ => {
            // completeness is judged elsewhere
            c.trivial();
            return Ok(());
        }
    };
    if verify(i, cfg, &proof) != Verdict::Accept {
        c.trivial();
        return Ok(());
    }
    c.count("accepted proofs that were tampered with", 1);
    let other = break_witness(&mut c.rng, i).and_then(|(w, _)| observe(|| prove::<F, B2s<F>>(i, &w, cfg)).ok()).and_then(|r| r.ok());
    let base = proof_bytes(&proof);
    let mut rng = Rng::new(c.rng.u64());
    let mut list = changes(&proof, other.as_ref(), &mut rng);
    // openings that are right, but somewhere else
    let size = i.rows_sup() * cfg.lde;
    let cols = crate::model::columns(i, &i.witness);
    for (r, col) in cols.iter().enumerate() {
        let v = eval_domain(col, size, F::one());
        let t = Iop::<F>::create(&v);
        if t.get_root() != proof.f_iop_roots[r] {
            continue;
        }
        let at = proof.f_queries[r].natural_index();
        for k in [at ^ 1, (at + size / 2) % size, (at + 2) % size, 0].iter() {
            let mut x: P<F> = clone_proof(&proof);
            x.f_queries[r] = t.query(*k, &v);
            list.push((format!("register query {} right, but opened at {} and not {}", r, k, at), x));
        }
        // all registers at once
    }
    for (what, p) in list {
        if proof_bytes(&p) == base {
            c.count("changes without effect (skipped)", 1);
            continue;
        }
        let kind: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
        let kind = kind.split(':').next().unwrap_or("").to_string();
        c.count("changed proofs judged", 1);
        let _ = kind;
        if verify(i, cfg, &p) == Verdict::Accept {
            return Err(format!("accepted after a change: {}", what));
        }
    }
    // the same proof at another rate
    for lde in [cfg.lde * 2, cfg.lde / 2].iter() {
        if *lde >= 2 {
            let k = Cfg { lde: *lde, ..*cfg };
            c.count("proofs shown to a verifier of another rate", 1);
            if verify(i, &k, &proof) == Verdict::Accept {
                return Err("accepted by a verifier of another rate".to_string());
            }
        }
    }
    // and the original is still fine
    if verify(i, cfg, &proof) != Verdict::Accept {
        return Err("the original was not accepted the second time".into());
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.require("changed proofs judged");
    for f in LARGE.iter() {
        let n = ctx.n(20, 500);
        ctx.section(&format!("random-{}", f), n, |c| with_field!(*f, one, c));
    }
    let n = ctx.n(35, 700);
    ctx.section("constant", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, constant, c)
    });
}
