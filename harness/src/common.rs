// Everything that the programs of this crate have in common. There is one program per check, so that it is built
// quickly against a changed library, and one (`mon`) with all of them, for the sanitizers.

use fw::*;
use std::path::PathBuf;

#[global_allocator]
static ALLOCATOR: meter::Counting = meter::Counting;

const BIG: &[&str] = &[
    "the reference evaluator, generator and field arithmetic of the harness (ff_ce) are right",
    "LDE configurations in which one of several threads gets several cosets are excluded here: known finding of C10",
];

const REF: &[&str] = &["field arithmetic (ff_ce) and the quadratic reference algorithms of the harness are right"];

fn c01() -> Check {
    Check {
        id: "C01",
        rule: "A case is a random AIR statement with a witness that satisfies it by construction and by an independent evaluator, over one of nine fields, proved and verified by the real code under a random number of worker threads, rate and final degree. Distinct by the shape and configuration of the case; non-trivial when an end-to-end proof was made and judged.",
        assumptions: BIG,
        shards: 8,
        run: checks::complete::run,
    }
}

fn c02() -> Check {
    Check {
        id: "C02",
        rule: "A case is a statement with a witness that violates it (by an independent evaluator), proved by the library's prover, which does not look, or by the harness's own prover, and judged by the verifier; also violations that cancel unless every one has its own challenge, and proofs of one statement shown to the verifier of another. Distinct by shape, configuration and violation; non-trivial when a violated statement came to a verdict.",
        assumptions: BIG,
        shards: 8,
        run: checks::sound::run,
    }
}

fn c03() -> Check {
    Check {
        id: "C03",
        rule: "A case is an accepted proof of a random statement of which every component is changed, removed, doubled, exchanged or replaced in turn; every changed proof is judged. Distinct by statement and configuration; non-trivial when the original was accepted.",
        assumptions: BIG,
        shards: 8,
        run: checks::tamper::run,
    }
}

fn c04() -> Check {
    Check {
        id: "C04",
        rule: "A case is a random false statement (or a statement picked by the attacker) together with one strategy of a cheating prover that adapts to the challenges that the real verifier draws. Distinct by statement, configuration and strategy; non-trivial when the strategy could be carried out and the verifier judged its proof.",
        assumptions: BIG,
        shards: 8,
        run: checks::forged::run,
    }
}

fn c09() -> Check {
    Check {
        id: "C09",
        rule: "A case is an input vector (dense, sparse, constant, truncated, with special elements) of one size over one of nine fields, transformed by every strategy that applies, at a random thread count, and compared with evaluation by Horner at all points (small sizes) or at ten points and among strategies (large sizes). Distinct by field, size, thread count, kind of input and number of non-zero entries.",
        assumptions: REF,
        shards: 8,
        run: checks::fftc::run_fft,
    }
}

fn c10() -> Check {
    Check {
        id: "C10",
        rule: "A case is a polynomial, a rate, a thread count and a field; every extension strategy is compared with evaluation by Horner at every point of the larger domain. Distinct by field, number of coefficients, rate, thread count and kind of input.",
        assumptions: REF,
        shards: 8,
        run: checks::fftc::run_lde,
    }
}

fn c11() -> Check {
    Check {
        id: "C11",
        rule: "A case is a set of operands over one of nine fields at a random thread count, on which every operation is compared with a schoolbook computation. Distinct by operation group, field, sizes, thread count and kinds of operands.",
        assumptions: REF,
        shards: 8,
        run: checks::poly::run_poly,
    }
}

fn c21() -> Check {
    Check {
        id: "C21",
        rule: "A case is a block of domain sizes, a whole domain halved at every index, or a set of tables, of one field; all entries are compared with reference powers. Distinct by field, sizes and thread count.",
        assumptions: REF,
        shards: 4,
        run: checks::poly::run_domains,
    }
}

fn c24() -> Check {
    Check {
        id: "C24",
        rule: "A case is a thread count with a set of element counts, of which the split is checked by arithmetic, or a run of real workers with random delays, of which the marks on every element and the order of completion are recorded. Distinct by thread count, element counts and, for runs, by the order in which chunks were completed.",
        assumptions: &["chunks are formed by chunks()/chunks_mut() of the size handed out, as everywhere in the library"],
        shards: 4,
        run: checks::poly::run_workers,
    }
}

fn c07() -> Check {
    Check {
        id: "C07",
        rule: "A case is a history of commitments and draws on the transcript of one field, compared draw by draw with a reference construction, repeated in other threads, or changed in one place with the challenges behind it compared. Distinct by field and history.",
        assumptions: REF,
        shards: 8,
        run: checks::hash::run_transcript,
    }
}

fn c08() -> Check {
    Check {
        id: "C08",
        rule: "A case is a tree size and a rate with many random or special challenges, of which every position is judged and counted, or a statement proved and verified under dictated challenge bytes, of which every opened position is judged. Distinct by size, rate, number of draws, statement.",
        assumptions: REF,
        shards: 8,
        run: checks::hash::run_positions,
    }
}

fn c12() -> Check {
    Check {
        id: "C12",
        rule: "A case is a vector of leaves over one of nine fields, committed to at a random thread count, of which openings and their forgeries at all (or, above 64 leaves, many) indices are judged. Distinct by field, number of leaves and thread count.",
        assumptions: REF,
        shards: 8,
        run: checks::hash::run_merkle,
    }
}

fn c13() -> Check {
    Check {
        id: "C13",
        rule: "A case is a polynomial over one of nine fields with a rate, a final degree and a thread count, proved by both provers, compared with reference foldings, and verified at every position (up to 128) or many of them. Distinct by field, kind of polynomial, sizes and thread count.",
        assumptions: REF,
        shards: 8,
        run: checks::fri::run_complete,
    }
}

fn c14() -> Check {
    Check {
        id: "C14",
        rule: "A case is a sequence of committed oracles with final coefficients, in which words, foldings, challenges or coefficients are wrong in some way, whose openings at all (up to 64) or many positions are judged and compared with the verdict by definition; or an honest FRI proof or prototype with one change. Distinct by field, sizes and kind of wrong.",
        assumptions: REF,
        shards: 8,
        run: checks::fri::run_sound,
    }
}

fn c15() -> Check {
    Check {
        id: "C15",
        rule: "A case is a witness of some shape over one of nine fields at a random thread count, whose polynomials are compared with every cell, or a family of malformed witnesses. Distinct by field, sizes and thread count.",
        assumptions: REF,
        shards: 8,
        run: checks::air::run_witness,
    }
}

fn c16() -> Check {
    Check {
        id: "C16",
        rule: "A case is a generated statement over one of nine fields with its witness, every cell of which is changed in turn, and some changes of the statement, each judged by the library and by definition. Distinct by the statement.",
        assumptions: REF,
        shards: 8,
        run: checks::air::run_satisfied,
    }
}

fn c19() -> Check {
    Check {
        id: "C19",
        rule: "A case is a sequence of up to some dozens of operations that build a constraint, followed by an expanded polynomial and compared with it after every step, and evaluated by the library. Distinct by the operations.",
        assumptions: REF,
        shards: 8,
        run: checks::air::run_building,
    }
}

fn c17() -> Check {
    Check {
        id: "C17",
        rule: "A case is a generated true statement whose G is computed by the library for several columns under scripted challenges and compared with the reference, or a violated one whose G may not fit. Distinct by field, statement and thread count.",
        assumptions: REF,
        shards: 8,
        run: checks::ali::run_quotient,
    }
}

fn c18() -> Check {
    Check {
        id: "C18",
        rule: "A case is a generated statement with several sets of columns whose DEEP quotients are compared with the reference under scripted challenges, or a set of arbitrary oracles and claims that the verifier judges, with its variations. Distinct by field, statement, rate and thread count.",
        assumptions: REF,
        shards: 8,
        run: checks::ali::run_deep,
    }
}

fn c05() -> Check {
    Check {
        id: "C05",
        rule: "A case is a proof (or a FRI proof, or a choice of its sizes) with some hundreds of changes or stacks of changes, each shown to the verifier under a watch on panics, allocated bytes and CPU time. Distinct by field, statement and configuration.",
        assumptions: REF,
        shards: 8,
        run: checks::total::run,
    }
}

fn c06() -> Check {
    Check {
        id: "C06",
        rule: "A case is a proof of a generated statement, true or not, whose transcript is recorded on both sides and compared, after which every message and every number of the statement is changed in turn and the challenges that follow it are compared. Distinct by field, statement and configuration.",
        assumptions: BIG,
        shards: 8,
        run: checks::fs::run,
    }
}

fn c20() -> Check {
    Check {
        id: "C20",
        rule: "A case is a statement proved on up to eleven numbers of threads, or a history of proofs on one prover and verifier, or several provers and verifiers at work at once; proofs are compared bit by bit. Distinct by field, statement and configuration.",
        assumptions: BIG,
        shards: 8,
        run: checks::det::run,
    }
}

fn c22() -> Check {
    Check {
        id: "C22",
        rule: "A case is one of the example computations with a start value and a number of steps, recomputed, checked, proved and spoilt; or random states against the constraints; or a handful of elements of the quadratic extension against its definition. Distinct by field, example, start value and number of steps, or by element.",
        assumptions: REF,
        shards: 8,
        run: checks::examples::run,
    }
}

fn c23() -> Check {
    Check {
        id: "C23",
        rule: "A case is a trace system with registers of several kinds, constraints and boundary values in random order, or generators run for a number of steps, converted to an instance and compared with what was put in. Distinct by field, sizes and coefficients.",
        assumptions: REF,
        shards: 8,
        run: checks::trace::run,
    }
}

fn c25() -> Check {
    Check {
        id: "C25",
        rule: "A case is a set of transforms, extensions and a proof with random sizes, rates, thread counts and statements, made by the build with prefetching and by the one without, and compared; or a case of C09 or C10 with its own oracle in the build with prefetching. Distinct by the description of the case; non-trivial when both builds came to a result.",
        assumptions: REF,
        shards: 8,
        run: checks::san::run_prefetch,
    }
}

fn c26() -> Check {
    Check {
        id: "C26",
        rule: "A case is a case of another check, picked at random, in a process of its own built with ThreadSanitizer or AddressSanitizer and debug assertions (standard library included for the former), or a very small use of one part of the library in Miri. Its verdict is whether there is a report about memory, races or undefined behaviour. Distinct by monitor and case; non-trivial when the case ran to its end under the monitor.",
        assumptions: &["ThreadSanitizer, AddressSanitizer and Miri report what happens in the executions that they see"],
        shards: 8,
        run: checks::san::run_sanitized,
    }
}

fn c27() -> Check {
    Check {
        id: "C27",
        rule: "A case is a history of up to fifteen operations (feeding, copying, creating, finalising) on several hashers at once, every digest of which is compared with an own implementation over all the bytes absorbed. Distinct by hash function and history with its lengths.",
        assumptions: &["the reference implementations, checked against published digests, are right"],
        shards: 4,
        run: checks::misc::run_hashers,
    }
}

fn c28() -> Check {
    Check {
        id: "C28",
        rule: "A case is a pair of factors (matrix and diagonal, vectors, subdomains) over one of nine fields, of which every element of the product is queried and compared with the product written out. Distinct by field and dimensions.",
        assumptions: REF,
        shards: 4,
        run: checks::misc::run_tensors,
    }
}

fn c29() -> Check {
    Check {
        id: "C29",
        rule: "A case is a constraint with any coefficients, powers, steps and registers, printed, read back by an own reader and compared as a polynomial at random points. Distinct by the text.",
        assumptions: REF,
        shards: 8,
        run: checks::misc::run_printed,
    }
}

fn c30() -> Check {
    Check {
        id: "C30",
        rule: "A case is a true supported statement with one thing in it changed to what the library does not support or to what is not in the trace, given to the prover, and to the verifier together with a proof of the supported one. Distinct by field and statement.",
        assumptions: REF,
        shards: 8,
        run: checks::unsupported::run,
    }
}

fn c31() -> Check {
    Check {
        id: "C31",
        rule: "A case is a family of statements (the same rules for traces of 2^4 to 2^12 rows, or 2^14), each of which is proved and verified over a field that counts its operations. Distinct by rules and rate.",
        assumptions: &["field operations, bytes allocated and bytes of the proof stand for the work done"],
        shards: 8,
        run: checks::succinct::run,
    }
}

fn outcomes() -> Check {
    Check { id: "outcomes", rule: "", assumptions: &[], shards: 1, run: checks::san::run_outcomes }
}

fn tiny() -> Check {
    Check { id: "tiny", rule: "", assumptions: &[], shards: 1, run: checks::san::run_tiny }
}

fn run(all: Vec<Check>) {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()));
    let mut set = Settings { verif, seed, thorough };
    let find = |id: &str| all.iter().find(|c| c.id == id);
    if args.len() >= 7 && args[1] == "--child" {
        let c = find(&args[2]).expect("a check");
        let only = if args.len() >= 9 { Some((args[7].clone(), args[8].parse().unwrap())) } else { None };
        child(c, &set, args[3].parse().unwrap(), args[4].parse().unwrap(), &PathBuf::from(&args[5]), only, args[6].parse().unwrap());
        return;
    }
    if args.len() == 5 && args[1] == "--bare" {
        bare(find(&args[2]).expect("a check"), &set, &args[3], args[4].parse().unwrap());
        return;
    }
    if args.len() == 3 && args[1] == "--replay" {
        let text = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}\t", k))).unwrap_or("").to_string();
        set.seed = get("seed").parse().expect("seed");
        set.thorough = get("tier") == "thorough";
        std::env::set_var("VERIF_SEED", set.seed.to_string());
        std::env::set_var("VERIF_TIER", get("tier"));
        let c = find(&get("property")).expect("a check");
        std::process::exit(parent(c, &set, Some((get("section"), get("index").parse().unwrap()))));
    }
    if args.len() == 2 {
        if let Some(c) = find(&args[1]) {
            std::process::exit(parent(c, &set, None));
        }
    }
    if args.len() == 4 {
        if let Some(c) = find(&args[1]) {
            std::process::exit(parent(c, &set, Some((args[2].clone(), args[3].parse().unwrap()))));
        }
    }
    eprintln!("usage: check <property> | mon --replay FILE | mon <property> <section> <index>");
    std::process::exit(2);
}
