//! C07, C08 and C12: the transcript, the query positions and the Merkle trees.

use crate::checks::fftc::CPUS;
use crate::fields::*;
use crate::fw::*;
use crate::inst::*;
use crate::proto::*;
use crate::refmath::*;
use crate::with_field;
use ff::PrimeField;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::iop::*;
use hodor::transcript::*;
use hodor::verif_hooks::{force_cpus, forge_query};
use std::collections::BTreeMap;

// ------------------------------------------------------------------ transcript

#[derive(Clone, Debug, PartialEq)]
enum Op<F: PrimeField> {
    Bytes(Vec<u8>),
    Element(F),
    Draw,
    DrawBytes,
}

fn ops<F: PrimeField>(r: &mut Rng, max: usize) -> Vec<Op<F>> {
    (0..r.range(1, max))
        .map(|_| match r.below(5) {
            0 => {
                let n = *r.pick(&[0usize, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200]);
                Op::Bytes(r.bytes(n))
            }
            1 => Op::Bytes(r.bytes(32)),
            2 => Op::Element(rf_edge(r)),
            3 => Op::Draw,
            _ => Op::DrawBytes,
        })
        .collect()
}

fn element_bytes<F: PrimeField>(e: &F) -> Vec<u8> {
    let repr = e.into_repr();
    let mut v = vec![];
    for l in repr.as_ref().iter().rev() {
        v.extend_from_slice(&l.to_be_bytes());
    }
    v
}

/// What the transcript is by definition: the hash of everything absorbed and drawn so far.
#[derive(Clone, Default)]
struct Model {
    absorbed: Vec<u8>,
}

impl Model {
    fn apply<F: PrimeField>(&mut self, op: &Op<F>) -> Option<[u8; 32]> {
        match op {
            Op::Bytes(b) => {
                self.absorbed.extend_from_slice(b);
                None
            }
            Op::Element(e) => {
                self.absorbed.extend(element_bytes(e));
                None
            }
            Op::Draw | Op::DrawBytes => {
                let d = system_hash(&self.absorbed);
                self.absorbed.extend_from_slice(&d);
                Some(d)
            }
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Out<F: PrimeField> {
    None,
    El(F),
    By(Vec<u8>),
}

fn step<F: PrimeField, T: Transcript<F>>(t: &mut T, op: &Op<F>) -> Out<F> {
    match op {
        Op::Bytes(b) => {
            t.commit_bytes(b);
            Out::None
        }
        Op::Element(e) => {
            t.commit_field_element(e);
            Out::None
        }
        Op::Draw => Out::El(t.get_challenge()),
        Op::DrawBytes => Out::By(t.get_challenge_bytes()),
    }
}

fn canonical<F: PrimeField>(e: &F) -> bool {
    let l = to_limbs(e);
    let c = F::char();
    let c = c.as_ref();
    for k in (0..l.len()).rev() {
        if l[k] != c[k] {
            return l[k] < c[k];
        }
    }
    false
}

fn history<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let most = if c.rng.chance(1, 60) { 900 } else { 24 };
    let mut h: Vec<Op<F>> = ops(&mut c.rng, most);
    if c.rng.chance(1, 40) {
        let n = c.rng.range(1000, 70000);
        let at = c.rng.below(h.len() + 1);
        h.insert(at, Op::Bytes(c.rng.bytes(n)));
    }
    c.desc(format!("{} history of {} operations, {} draws", name, h.len(), h.iter().filter(|o| matches!(o, Op::Draw | Op::DrawBytes)).count()));
    c.sig(&h);
    let fork = c.rng.below(h.len() + 1);
    let other: Vec<Op<F>> = ops(&mut c.rng, 6);
    let mut t = B2s::<F>::new();
    let mut m = Model::default();
    let mut forked = None;
    for (k, op) in h.iter().enumerate() {
        if k == fork {
            forked = Some((t.clone(), m.clone()));
        }
        let got = step(&mut t, op);
        let want = m.apply(op);
        judge(&got, want, k)?;
        c.count("operations", 1);
    }
    // a copy goes its own way
    if let Some((mut t2, mut m2)) = forked {
        for (k, op) in other.iter().enumerate() {
            judge(&step(&mut t2, op), m2.apply(op), 1000 + k)?;
        }
        c.count("copies that diverge", 1);
    }
    judge(&step(&mut t, &Op::Draw), m.apply::<F>(&Op::Draw), 2000)?;
    judge(&step(&mut t, &Op::DrawBytes), m.apply::<F>(&Op::DrawBytes), 2001)?;
    c.count("challenges", 2);

    // and the same history again, elsewhere at the same time
    let again = h.clone();
    let runs: Vec<Vec<Out<F>>> = {
        let hs: Vec<_> = (0..3)
            .map(|_| {
                let again = again.clone();
                std::thread::spawn(move || {
                    let mut t = B2s::<F>::new();
                    again.iter().map(|o| step(&mut t, o)).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("a thread")).collect()
    };
    if runs[0] != runs[1] || runs[0] != runs[2] {
        return Err("equal histories in three threads give different challenges".to_string());
    }
    c.count("repetitions in other threads", 3);
    Ok(())
}

fn judge<F: PrimeField>(got: &Out<F>, want: Option<[u8; 32]>, k: usize) -> Result<(), String> {
    match (got, want) {
        (Out::None, None) => Ok(()),
        (Out::El(e), Some(d)) => {
            if !canonical(e) {
                return Err(format!("challenge {} of the history is not a canonical element", k));
            }
            if *e != digest_to_field(&d) {
                return Err(format!("operation {} of the history draws {} and not {}", k, show(e), show(&digest_to_field::<F>(&d))));
            }
            Ok(())
        }
        (Out::By(b), Some(d)) => {
            if b[..] != d[..] {
                return Err(format!("operation {} of the history draws {} and not {}", k, hex(b), hex(&d)));
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn sensitivity<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let h: Vec<Op<F>> = ops(&mut c.rng, 12);
    let r = &mut c.rng;
    let mut variants: Vec<(String, Vec<Op<F>>)> = vec![];
    for k in 0..h.len() {
        let mut v = h.clone();
        match &mut v[k] {
            Op::Bytes(b) if !b.is_empty() => {
                let at = r.below(b.len() * 8);
                b[at / 8] ^= 1 << (at % 8);
                variants.push((format!("bit {} of operation {} flipped", at, k), v));
                let mut v = h.clone();
                if let Op::Bytes(b) = &mut v[k] {
                    b.pop();
                }
                variants.push((format!("operation {} one byte shorter", k), v));
                let mut v = h.clone();
                if let Op::Bytes(b) = &mut v[k] {
                    b.push(0);
                }
                variants.push((format!("operation {} a zero byte longer", k), v));
            }
            Op::Bytes(_) => {}
            Op::Element(e) => {
                e.add_assign(&F::one());
                variants.push((format!("element {} plus one", k), v));
                let mut v = h.clone();
                v[k] = Op::Element(rf(r));
                if v != h {
                    variants.push((format!("element {} replaced", k), v));
                }
            }
            Op::Draw | Op::DrawBytes => {
                v.remove(k);
                variants.push((format!("draw {} left out", k), v));
            }
        }
        let mut v = h.clone();
        v.insert(k, Op::Draw);
        variants.push((format!("a draw more before {}", k), v));
        let mut v = h.clone();
        if !matches!(&v[k], Op::Bytes(b) if b.is_empty()) {
            v.remove(k);
            variants.push((format!("operation {} left out", k), v));
        }
        if k > 0 {
            let mut v = h.clone();
            v.swap(k - 1, k);
            let stream = |h: &[Op<F>]| {
                let mut m = Model::default();
                for o in h {
                    m.apply(o);
                }
                m.absorbed
            };
            if stream(&v) != stream(&h) {
                variants.push((format!("operations {} and {} exchanged", k - 1, k), v));
            }
        }
    }
    c.desc(format!("{} history of {} operations, {} variants", name, h.len(), variants.len()));
    c.sig(&h);
    let end = |h: &[Op<F>]| {
        let mut t = B2s::<F>::new();
        for o in h {
            step(&mut t, o);
        }
        let a: F = t.get_challenge();
        (a, t.get_challenge_bytes())
    };
    let (a, b) = end(&h);
    let large = F::NUM_BITS > 55;
    for (what, v) in variants {
        let (x, y) = end(&v);
        if y == b || (large && x == a) {
            return Err(format!("the challenges do not notice: {}", what));
        }
        c.count("variants noticed", 1);
    }
    Ok(())
}

/// Challenges fill the range of CAPACITY bits: every bit of them is free.
fn spread<F: PrimeField>(c: &mut Case, name: &str, n: usize) -> Result<(), String> {
    let mut t = B2s::<F>::new();
    t.commit_bytes(&c.rng.bytes(16));
    c.desc(format!("{} {} draws in a row", name, n));
    let bits = F::CAPACITY as usize;
    let mut ones = vec![0usize; bits];
    let mut seen = std::collections::BTreeSet::new();
    for k in 0..n {
        if k % 7 == 0 {
            t.commit_field_element(&int::<F>(k as u64 % 200));
        }
        let x = t.get_challenge();
        if !canonical(&x) {
            return Err("a challenge is not canonical".to_string());
        }
        let l = to_limbs(&x);
        for (b, o) in ones.iter_mut().enumerate() {
            *o += (l[b / 64] >> (b % 64) & 1) as usize;
        }
        seen.insert(l);
    }
    let slack = 7.0 * (n as f64).sqrt() / 2.0;
    for (b, o) in ones.iter().enumerate() {
        if (*o as f64 - n as f64 / 2.0).abs() > slack {
            return Err(format!("bit {} of {} challenges is set {} times", b, n, o));
        }
        c.count("bits of challenges", 1);
    }
    if bits > 55 && seen.len() != n {
        return Err(format!("{} draws give {} different challenges", n, seen.len()));
    }
    if bits < 10 && n > 40 << bits && seen.len() != 1 << bits {
        return Err(format!("{} draws give only {} of {} possible challenges", n, seen.len(), 1 << bits));
    }
    c.count("draws in a row", n as u64);
    Ok(())
}

pub fn run_transcript(ctx: &mut Ctx) {
    for k in ["operations", "challenges", "copies that diverge", "variants noticed", "draws in a row"] {
        ctx.require(k);
    }
    let n = ctx.n(12000, 200000);
    ctx.section("history", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, history, c, f)
    });
    let n = ctx.n(8000, 120000);
    ctx.section("sensitivity", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, sensitivity, c, f)
    });
    let (n, m) = (ctx.n(72, 720), ctx.n(16000, 60000) as usize);
    ctx.section("spread", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, spread, c, f, m)
    });
}

// ------------------------------------------------------------------ query positions

fn position(bytes: &[u8], size: usize, factor: usize) -> Result<usize, String> {
    type V = VerifierOf<Goldilocks, B2s<Goldilocks>>;
    observe(|| V::bytes_to_challenge_index(bytes, size, factor)).map_err(|p| format!("position for {} in {}: panic: {}", hex(bytes), size, p))
}

fn positions_of(c: &mut Case) -> Result<(), String> {
    let log = 1 + c.rng.below(24);
    let size = 1usize << log;
    let factor = 1usize << (1 + c.rng.below(log.min(7)));
    let draws = if size <= 512 { 120 * size } else { 60_000 };
    c.desc(format!("2^{} positions, factor {}, {} draws", log, factor, draws));
    let mut count: BTreeMap<usize, usize> = BTreeMap::new();
    let mut by_bit = vec![0usize; log];
    for k in 0..draws {
        let b = c.rng.bytes(32);
        let p = position(&b, size, factor)?;
        if p >= size {
            return Err(format!("position {} in a tree of {}", p, size));
        }
        if p % factor == 0 {
            return Err(format!("position {} is in the trace domain (rate {})", p, factor));
        }
        if p % 2 == 0 {
            return Err(format!("position {} is in the half of the domain that FRI cannot fold from", p));
        }
        if k % 16 == 0 && position(&b, size, factor)? != p {
            return Err("equal challenges give different positions".to_string());
        }
        *count.entry(p).or_insert(0) += 1;
        for (j, o) in by_bit.iter_mut().enumerate() {
            *o += p >> j & 1;
        }
    }
    c.count("draws", draws as u64);
    let slack = 7.0 * (draws as f64).sqrt() / 2.0;
    for (j, o) in by_bit.iter().enumerate().skip(1) {
        if (*o as f64 - draws as f64 / 2.0).abs() > slack {
            return Err(format!("bit {} of {} positions is set {} times", j, draws, o));
        }
    }
    if size <= 512 {
        let want = draws as f64 / (size as f64 / 2.0);
        for p in (1..size).step_by(2) {
            let got = count.get(&p).cloned().unwrap_or(0) as f64;
            if (got - want).abs() > 8.0 * want.sqrt() {
                return Err(format!("position {} of {} comes up {} times in {} draws", p, size, got, draws));
            }
            c.count("positions reached", 1);
        }
    } else {
        // about as many different ones as there should be
        let adm = size as f64 / 2.0;
        let expect = adm * (1.0 - (-(draws as f64) / adm).exp());
        if (count.len() as f64) < 0.9 * expect {
            return Err(format!("{} draws reach only {} of {} positions", draws, count.len(), adm));
        }
    }
    Ok(())
}

/// Special challenges: the ends of the range and the values around multiples.
fn edges(c: &mut Case) -> Result<(), String> {
    let log = 1 + c.rng.below(40);
    let size = 1usize << log;
    let factor = 1usize << (1 + c.rng.below(log.min(10)));
    c.desc(format!("2^{} positions, factor {}", log, factor));
    let mut specials = vec![0u64, 1, 2, u64::max_value(), u64::max_value() - 1, 1 << 63, size as u64 - 1, size as u64, size as u64 - factor as u64, size as u64 - 2];
    for _ in 0..20 {
        let k = c.rng.u64();
        specials.push(k & !(factor as u64 - 1));
        specials.push((k & !(size as u64 - 1)).wrapping_sub(1));
        specials.push(k & !1);
    }
    for s in specials {
        for len in [8usize, 9, 32, 64] {
            let mut b = c.rng.bytes(len);
            b[len - 8..].copy_from_slice(&s.to_be_bytes());
            for bytes in [b.clone(), vec![0; len], vec![255; len]] {
                let p = position(&bytes, size, factor)?;
                if p >= size || p % factor == 0 || p % 2 == 0 {
                    return Err(format!("challenge {} gives position {} of {} at rate {}", hex(&bytes), p, size, factor));
                }
                c.count("special challenges", 1);
            }
        }
    }
    Ok(())
}

/// The positions that provers use and verifiers demand, under dictated challenge bytes.
fn in_proofs<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    let shape = Shape { max_rows: 8, ..shape_for::<F>(Shape::default()) };
    let i: Inst<F> = generate(&mut c.rng, &shape);
    let cfg = pick_cfg(&mut c.rng, &i);
    c.desc(format!("{} {} {:?}", name, i.desc(), cfg));
    let (s1, s2) = (i.rows_sup() * cfg.lde, i.rows_sup() * i.max_degree().next_power_of_two() as usize * cfg.lde);
    let mut seen = [std::collections::BTreeSet::new(), std::collections::BTreeSet::new()];
    let n = 16;
    for _ in 0..n {
        set_script(Script { challenges: vec![], bytes: vec![c.rng.bytes(32), c.rng.bytes(32)] });
        let p: ProofOf<F, Scripted<F>> = match prove(&i, &i.witness, &cfg) {
            Ok(p) => p,
            Err(_) => {
                c.trivial();
                return Ok(());
            }
        };
        for q in &p.f_queries {
            if q.natural_index() != p.f_queries[0].natural_index() {
                return Err("register oracles are opened at different positions".to_string());
            }
        }
        for (k, (x, size)) in [(p.f_queries[0].natural_index(), s1), (p.g_query.natural_index(), s2)].iter().enumerate() {
            if x >= size || x % 2 == 0 || x % cfg.lde == 0 {
                return Err(format!("a proof opens position {} of {} at rate {}", x, size, cfg.lde));
            }
            seen[k].insert(*x);
        }
        match verify(&i, &cfg, &p) {
            Verdict::Accept => {}
            v => return Err(format!("an honest proof at position {} is not accepted: {:?}", p.f_queries[0].natural_index(), v)),
        }
        c.count("positions of proofs", 2);
    }
    for (k, s) in [s1, s2].iter().enumerate() {
        // n uniform draws out of s/2 positions
        let adm = *s as f64 / 2.0;
        let expect = adm * (1.0 - (1.0 - 1.0 / adm).powi(n));
        if (seen[k].len() as f64) < expect - 6.0 {
            return Err(format!("{} proofs open only {} of {} positions of H{}", n, seen[k].len(), adm, k + 1));
        }
    }
    Ok(())
}

pub fn run_positions(ctx: &mut Ctx) {
    for k in ["draws", "positions reached", "special challenges", "positions of proofs"] {
        ctx.require(k);
    }
    let n = ctx.n(160, 1200);
    ctx.section("distribution", n, positions_of);
    let n = ctx.n(300, 3000);
    ctx.section("edges", n, edges);
    let n = ctx.n(40, 600);
    ctx.section("proofs", n, |c| {
        let f = LARGE[c.idx as usize % LARGE.len()];
        with_field!(f, in_proofs, c, f)
    });
}

// ------------------------------------------------------------------ Merkle trees

type Tree<F> = Blake2sIopTree<F>;

fn leaves<F: PrimeField>(r: &mut Rng, n: usize) -> Vec<F> {
    match r.below(4) {
        0 => vec![rf(r); n],
        1 => (0..n).map(|_| rf_edge(r)).collect(),
        _ => rvec(r, n),
    }
}

fn tree<F: PrimeField>(c: &mut Case, name: &str, max_log: usize) -> Result<(), String> {
    let n = 1usize << c.rng.range(1, max_log);
    let v: Vec<F> = leaves(&mut c.rng, n);
    let cpus = *c.rng.pick(&CPUS);
    c.desc(format!("{} {} leaves, cpus={}", name, n, cpus));
    force_cpus(cpus);
    let iop = observe(|| Iop::<F>::create(&v)).map_err(|p| format!("create: panic: {}", p))?;
    let levels = merkle_levels(&v);
    let root = levels.last().unwrap()[0];
    if iop.get_root() != root {
        return Err(format!("the root of {} leaves on {} threads is {} and not {}", n, cpus, hex(&iop.get_root()), hex(&root)));
    }
    let ch: F = digest_to_field(&root);
    if Iop::<F>::encode_root_into_challenge(&root) != ch || iop.get_challenge_scalar_from_root() != ch {
        return Err("the challenge of the root is not the encoding of the root".to_string());
    }
    c.count("trees", 1);

    let all: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..48).map(|_| c.rng.below(n)).chain(vec![0, 1, n / 2 - 1, n / 2, n - 2, n - 1]).collect() };
    for k in all {
        let q = observe(|| iop.query(k, &v)).map_err(|p| format!("query {}: panic: {}", k, p))?;
        let path: Vec<[u8; 32]> = (0..log2(n)).map(|l| levels[l][(k >> l) ^ 1]).collect();
        if q.value() != v[k] || q.natural_index() != k || q.tree_index() != k || q.path() != &path[..] {
            return Err(format!("the opening at {} of {} leaves is not the committed value with its path", k, n));
        }
        if !Iop::<F>::verify_query(&q, &root) || !Tree::<F>::verify(&root, &v[k], &path, k) {
            return Err(format!("the opening at {} of {} leaves does not verify", k, n));
        }
        if *Iop::<F>::get_for_natural_index(&v, k) != v[k] || *Iop::<F>::get_for_tree_index(&v, k) != v[k] {
            return Err(format!("the value at {} is another one", k));
        }
        c.count("openings", 1);

        // everything that must not open
        let r = &mut c.rng;
        let mut forged: Vec<(String, usize, F, Vec<[u8; 32]>)> = vec![];
        for x in vec![add(v[k], F::one()), neg(v[k]), rf(r), v[r.below(n)]] {
            if x != v[k] {
                forged.push((format!("value {} at {}", show(&x), k), k, x, path.clone()));
            }
        }
        for b in 0..log2(n) {
            let j = k ^ (1 << b);
            // symmetric trees open everywhere
            if levels[b][k >> b] != levels[b][(k >> b) ^ 1] {
                forged.push((format!("index {} for {}", j, k), j, v[k], path.clone()));
            }
        }
        for j in [k + n, k + 2 * n, k | 1 << 40, k | 1 << 63] {
            forged.push((format!("index {} for {} beyond the tree", j, k), j, v[k], path.clone()));
        }
        for b in 0..path.len() {
            let mut p = path.clone();
            let at = r.below(256);
            p[b][at / 8] ^= 1 << (at % 8);
            forged.push((format!("flip in element {} of the path of {}", b, k), k, v[k], p));
            let mut p = path.clone();
            p.remove(b);
            forged.push((format!("path of {} without element {}", k, b), k, v[k], p));
            let mut p = path.clone();
            let x = p[b];
            p.insert(b, x);
            forged.push((format!("path of {} with element {} twice", k, b), k, v[k], p));
            if b > 0 && path[b] != path[b - 1] {
                let mut p = path.clone();
                p.swap(b - 1, b);
                forged.push((format!("path of {} with elements {} and {} exchanged", k, b - 1, b), k, v[k], p));
            }
        }
        for (x, what) in [(root, "root"), ([0; 32], "zero"), (levels[0][k], "leaf")] {
            let mut p = path.clone();
            p.push(x);
            forged.push((format!("path of {} extended by the {}", k, what), k, v[k], p));
        }
        forged.push((format!("no path for {}", k), k, v[k], vec![]));
        for (what, j, x, p) in forged {
            if observe(|| Tree::<F>::verify(&root, &x, &p, j)).map_err(|m| format!("{}: panic: {}", what, m))? {
                return Err(format!("accepted in a tree of {} leaves: {}", n, what));
            }
            if observe(|| Iop::<F>::verify_query(&forge_query(j, x, p), &root)).map_err(|m| format!("{}: panic: {}", what, m))? {
                return Err(format!("accepted as a query in a tree of {} leaves: {}", n, what));
            }
            c.count("forged openings refused", 1);
        }
        let mut bad = root;
        let at = c.rng.below(256);
        bad[at / 8] ^= 1 << (at % 8);
        for other in vec![bad, [0; 32], levels[0][k], path[0]] {
            if Iop::<F>::verify_query(&q, &other) {
                return Err(format!("the opening at {} verifies against another root", k));
            }
        }
    }
    Ok(())
}

fn determinism<F: PrimeField>(c: &mut Case, name: &str, max_log: usize) -> Result<(), String> {
    let n = 1usize << c.rng.range(1, max_log);
    let v: Vec<F> = leaves(&mut c.rng, n);
    c.desc(format!("{} {} leaves at all thread counts", name, n));
    let mut roots = vec![];
    for cpus in CPUS.iter() {
        force_cpus(*cpus);
        roots.push(Iop::<F>::create(&v).get_root());
        c.count("roots compared", 1);
    }
    if roots.iter().any(|r| *r != roots[0]) {
        return Err(format!("roots of {} leaves depend on the number of threads", n));
    }
    for _ in 0..8 {
        let mut u = v.clone();
        let k = c.rng.below(n);
        match c.rng.below(3) {
            0 => u[k].add_assign(&F::one()),
            1 => u[k] = rf(&mut c.rng),
            _ => {
                let j = c.rng.below(n);
                u.swap(k, j)
            }
        }
        if u != v {
            if Iop::<F>::create(&u).get_root() == roots[0] {
                return Err(format!("another vector of {} leaves has the same root", n));
            }
            if Iop::<F>::create(&u) == Iop::<F>::create(&v) {
                return Err(format!("commitments to different vectors of {} leaves are equal", n));
            }
            c.count("different vectors", 1);
        }
    }
    if Iop::<F>::create(&v) != Iop::<F>::create(&v) {
        return Err(format!("commitments to the same {} leaves differ", n));
    }
    // two halves exchanged, a shorter and a longer vector
    let mut u = v.clone();
    u.rotate_left(n / 2);
    if u != v && Iop::<F>::create(&u).get_root() == roots[0] {
        return Err("exchanging the halves keeps the root".to_string());
    }
    let mut u = v.clone();
    u.extend_from_slice(&v);
    if Iop::<F>::create(&u).get_root() == roots[0] {
        return Err("doubling the vector keeps the root".to_string());
    }
    Ok(())
}

fn pairs<F: PrimeField>(c: &mut Case, name: &str) -> Result<(), String> {
    type Co<F> = <Iop<F> as IOP<F>>::Combiner;
    let log_n = c.idx as usize % 9 + 1;
    let n = 1usize << log_n;
    c.desc(format!("{} cosets of 2^{}", name, log_n));
    for k in 0..n {
        let t = Co::<F>::natural_index_into_tree_index(k);
        if t >= n || Co::<F>::tree_index_into_natural_index(t) != k {
            return Err(format!("the index {} does not survive the tree", k));
        }
        let p = Co::<F>::get_coset_for_natural_index(k, n);
        let mut want = vec![k, (k + n / 2) % n];
        want.sort();
        if p != want {
            return Err(format!("the coset of {} in {} is {:?}", k, n, p));
        }
        c.count("cosets", 1);
    }
    if Co::<F>::COSET_SIZE != 2 {
        return Err("cosets are not pairs".to_string());
    }
    Ok(())
}

pub fn run_merkle(ctx: &mut Ctx) {
    for k in ["trees", "openings", "forged openings refused", "roots compared", "different vectors", "cosets"] {
        ctx.require(k);
    }
    let n = ctx.n(360, 5000);
    let top = ctx.n(8, 11) as usize;
    ctx.section("trees", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, tree, c, f, top)
    });
    let n = ctx.n(24, 240);
    let tall = ctx.n(16, 18) as usize;
    ctx.section("tall", n, |c| {
        let f = FIELDS[1 + c.idx as usize % (FIELDS.len() - 1)];
        with_field!(f, tree, c, f, tall)
    });
    let n = ctx.n(180, 1800);
    ctx.section("determinism", n, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, determinism, c, f, top)
    });
    ctx.section("cosets", 36, |c| {
        let f = FIELDS[c.idx as usize % FIELDS.len()];
        with_field!(f, pairs, c, f)
    });
}
