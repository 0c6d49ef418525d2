#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, C, H, S, P = "inputs", "configurations", "histories", "schedules", "programs"
PROPS = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None, technique="", note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                       why_tests_cant=why, anchors=a), technique, note))

prop("C01", "Completeness: every true statement is provable and its proof is accepted",
     "For every AIR statement and every witness that satisfies it, the prover returns a proof and the verifier of the same statement accepts it. "
     "This holds for every trace length of at least two rows, every number of registers, degree, step difference, density and set of boundary values, every rate, every final polynomial size up to the trace length, every number of worker threads, and every field with enough two-adicity.",
     [I, C], "all satisfiable statements with dense constraints x witnesses x fields x rates x final degrees x thread counts",
     "The end-to-end tests prove three hand-written statements over two fields at one rate and on the machine's thread count; trace lengths and degrees that are not powers of two, several densities, late starts and other fields are never tried.",
     ["src/prover/mod.rs", "src/verifier/mod.rs", "src/ali/per_register/mod.rs", "src/ali/per_register/deep.rs", "src/arp/per_register/mod.rs", "src/fri/mod.rs"],
     [("prover pipeline", "src/prover/mod.rs"), ("verifier equations", "src/verifier/mod.rs")],
     ["Prover::prove result", "Verifier::verify verdict"],
     technique="runtime monitoring: independent statement evaluator as oracle over randomised end-to-end proofs",
     note="random satisfiable statements over nine fields, proved and verified by the real code; sampled, not exhaustive")

prop("C02", "Soundness: a proof from a violated statement is never accepted",
     "When the witness given to the prover violates an enforced constraint at some row, or a boundary value, no accepted proof comes out. "
     "Neither is a proof made for one statement accepted by the verifier of another statement that its witness does not satisfy. This holds in every field large enough for the error of the protocol to be negligible.",
     [I, C], "all statements x single-cell and multi-cell violations x rows, including the first, the last enforced one and the boundary rows",
     "Tests only run the prover on satisfying witnesses; no test feeds a violated statement to the verifier.",
     ["src/verifier/mod.rs", "src/ali/per_register/mod.rs", "src/ali/per_register/deep.rs", "src/prover/mod.rs"],
     [("quotients by the divisors of constraints and boundaries", "src/ali/per_register/mod.rs"), ("DEEP consistency at z", "src/verifier/mod.rs")],
     ["Prover::prove result", "Verifier::verify verdict"],
     technique="runtime monitoring: cheating provers driven by mutated witnesses and statements, judged by an independent evaluator",
     note="minimal violations at every kind of row through the real prover; also a statement the verifier disagrees on")

prop("C03", "Tamper evidence: every component of a proof is bound",
     "Changing any component of an accepted proof - a claimed register value, a root, an opened value, a path, an index, a FRI root, query, coefficient or parameter - or dropping, duplicating or exchanging components makes the verifier not accept it. "
     "The same holds for a component taken from another proof of the same statement.",
     [I, C], "all proofs x all components x bit flips, replacements, removals, duplications, exchanges and splices",
     "Tests never alter a proof.",
     ["src/verifier/mod.rs", "src/fri/verifier.rs", "src/iop/blake2s_trivial_iop.rs"],
     [("Merkle paths", "src/iop/blake2s_trivial_iop.rs"), ("Fiat-Shamir transcript", "src/transcript/mod.rs"), ("consistency equations", "src/verifier/mod.rs")],
     ["Verifier::verify verdict"],
     technique="runtime monitoring: exhaustive per-component mutation of real proofs with the verdict as the oracle",
     note="every component of every generated proof is mutated in several ways")

prop("C04", "Forged proofs built without an honest prover are rejected",
     "A prover that does not follow the protocol - choosing messages after seeing the challenges that should depend on them, lying about degrees, rates, tree sizes or indices, or presenting oracles that are far from low degree - does not get a false statement accepted, beyond the chance that a single query position misses the inconsistency. "
     "In particular nothing the verifier's decision depends on may be chosen after the challenge it is tested against.",
     [I, P], "adversarial prover strategies x statements",
     "Tests contain no adversary at all.",
     ["src/verifier/mod.rs", "src/fri/verifier.rs", "src/prover/mod.rs", "src/transcript/mod.rs"],
     [("commit before challenge", "src/verifier/mod.rs"), ("degree and rate fixed by the statement", "src/verifier/mod.rs"), ("query positions from the transcript", "src/verifier/mod.rs")],
     ["Verifier::verify verdict"], hook="hodor_verif: forging an opening from its parts",
     technique="runtime monitoring: a library of executable attack provers against the real verifier",
     note="each forger's control run (same code, honest behaviour) has to be accepted, so a rejection is not vacuous")

prop("C05", "The verifier is total: malformed proofs are rejected, never a crash",
     "Whatever a proof contains - empty, short, long or inconsistent vectors, absurd sizes, indices out of range, paths of the wrong length - verification terminates within bounded work and does not accept. It never panics, overflows, aborts, hangs or allocates without bound.",
     [I], "all structurally malformed proofs",
     "Tests never give the verifier a malformed proof.",
     ["src/verifier/mod.rs", "src/fri/verifier.rs", "src/iop/blake2s_trivial_iop.rs", "src/iop/trivial_coset_combiner.rs"],
     [("shape checks", "src/fri/verifier.rs"), ("shape checks", "src/verifier/mod.rs")],
     ["Verifier::verify result", "NaiveFriIop::verify_prototype", "panics, signals, CPU time, address space"],
     technique="runtime monitoring: structure-aware fuzzing with panic, signal, overflow, CPU and memory monitors",
     note="overflow checks and debug assertions of the library are on")

prop("C06", "Fiat-Shamir: prover and verifier run one and the same transcript",
     "On every proof the verifier replays exactly the sequence of commitments and challenges of the prover. "
     "Every message of the prover is committed before any challenge that tests it: roots of the register oracles before the constraint challenges, the root of G before the out-of-domain point, each claimed value before its combination challenge, the last root and the final coefficients of both FRI proofs before the query positions. Changing any of them, or any number in the statement, changes every challenge that comes after it.",
     [I, C, H], "all proofs; the trace specification is over the events of the transcript",
     "Tests see only the verdict; a message that both sides forget to commit passes every one of them.",
     ["src/prover/mod.rs", "src/verifier/mod.rs", "src/ali/per_register/deep.rs", "src/fri/verifier.rs", "src/transcript/mod.rs"],
     [("Transcript trait", "src/transcript/mod.rs")],
     ["Transcript::commit_bytes", "Transcript::commit_field_element", "Transcript::get_challenge", "Transcript::get_challenge_bytes"],
     technique="runtime monitoring: recording transcript and a checker of the trace specification",
     note="the specification is over dependence (what must be committed before which challenge), not over the exact call sequence")

prop("C07", "Transcript challenges depend on everything absorbed, and on nothing else",
     "Equal histories of commitments and draws give equal challenges, in every process; two histories that differ in any absorbed byte, element, order or earlier draw give unrelated ones. "
     "A field challenge is always a canonical element of the field, for every field, and is not confined to a small part of it.",
     [H, I], "all histories of operations on a transcript x fields",
     "One test draws a challenge from one history over one field.",
     ["src/transcript/mod.rs"], [("keyed Blake2s", "src/transcript/mod.rs")],
     ["Transcript trait"],
     technique="runtime monitoring: model-based history checking against an independent Blake2s",
     note="the state update is compared with a reference construction as well as through sensitivity laws")

prop("C08", "Query positions are well distributed and in range",
     "For every challenge and every tree size, the query position is inside the tree and, where it must be, off the trace domain, and for uniformly distributed challenges every admissible position is drawn with about the same probability. Equal challenges give equal positions.",
     [I], "all challenge bytes x tree sizes x rates",
     "Tests look at no position but the one a proof happens to use.",
     ["src/fri/query_producer.rs", "src/utils/mod.rs", "src/verifier/mod.rs", "src/prover/mod.rs"],
     [("bytes to challenge index", "src/utils/mod.rs"), ("avoidance of the trace domain", "src/fri/query_producer.rs")],
     ["bytes_to_challenge_index", "FRI query producer"],
     technique="runtime monitoring: range, exclusion and coverage statistics over drawn positions",
     note="uniformity is judged by counts over many draws with generous bounds")

prop("C09", "All FFT strategies compute the same transform, and inverses undo it",
     "Every transform strategy - serial, parallel, radix 4, decimation in time, best-of, at any thread count - returns the values of the polynomial over the domain in natural order. Inverse transforms, on subgroups and cosets, return the coefficients that the values came from.",
     [I, C], "all sizes x thread counts x fields x inputs x numbers of non-zero coefficients",
     "Tests compare two strategies on one random input of one size, at the machine's thread count.",
     ["src/fft/fft.rs", "src/fft/radix4_fft/mod.rs", "src/fft/dit_fft/mod.rs", "src/fft/mod.rs", "src/polynomials/mod.rs"],
     [("butterflies", "src/fft")], ["transform outputs"], hook="hodor_verif: re-export of the strategies, forced number of threads",
     technique="runtime monitoring: differential testing of every strategy against a naive DFT",
     note="all sizes up to 2^10 by the naive DFT, above by spot evaluation and linearity")

prop("C10", "Low degree extension is evaluation of the same polynomial on the larger domain",
     "Every extension strategy, at every rate and thread count, and on the subgroup or on a coset, returns exactly the values of the given polynomial on the larger domain in natural order.",
     [I, C], "all sizes x rates x thread counts x fields x inputs",
     "Tests compare two strategies at one size on the machine's thread count.",
     ["src/fft/lde.rs", "src/fft/mod.rs", "src/polynomials/mod.rs"],
     [("multi-coset extension", "src/polynomials/mod.rs"), ("lde over zero-padded input", "src/fft/lde.rs")], ["extension outputs"],
     hook="hodor_verif: re-export of the strategies, forced number of threads",
     technique="runtime monitoring: differential testing against naive evaluation",
     note="the multi-coset strategy with several cosets per thread is a known finding; its output has to match the exact defect model or be right")

prop("C11", "Polynomial and field-vector arithmetic agrees with its definition",
     "Evaluation, addition, subtraction, multiplication, scaling, division helpers, padding, batch inversion, interpolation and the conversions between coefficients and values give the mathematical result for all operands, including zero entries, operands of different size and every thread count.",
     [I, C], "all operands x sizes x thread counts x fields",
     "Tests cover a few operations on one random operand.",
     ["src/polynomials/mod.rs", "src/utils/mod.rs", "src/utils/poly.rs"],
     [("parallel chunked loops", "src/polynomials/mod.rs")], ["operation outputs"],
     technique="runtime monitoring: algebraic-law and reference-model checking",
     note="naive schoolbook reference")

prop("C12", "Merkle commitments open exactly the committed values",
     "For every vector of a power-of-two length of at least two, the opening at every index returns the committed value and verifies against the root; no opening verifies with another value, index, path or root, nor with a path of another length. Equal vectors give equal roots (and equal commitments) at every thread count, different vectors different ones.",
     [I, C], "all vectors x indices x openings x thread counts",
     "One test opens one tree at its own indices with honest paths.",
     ["src/iop/blake2s_trivial_iop.rs", "src/iop/mod.rs", "src/iop/trivial_coset_combiner.rs"],
     [("keyed Blake2s tree", "src/iop/blake2s_trivial_iop.rs")], ["IOP::create, query, verify_query, get_root"],
     hook="hodor_verif: forging an opening from its parts",
     technique="runtime monitoring: reference tree, all-index openings and forged openings",
     note="reference root computed by an independent Blake2s and an independent tree")

prop("C13", "FRI is complete: a low degree word is accepted at every query position",
     "For every polynomial below the claimed degree, every rate, final size up to the degree and thread count, the FRI proof accepts at every (odd) position that a verifier can draw, both from the prototype and from extracted queries, and commits to the word it was given; the final coefficients are those of the folded polynomial.",
     [I, C], "all polynomials x degrees x rates x final sizes x positions",
     "One test queries one position of one polynomial.",
     ["src/fri/mod.rs", "src/fri/verifier.rs", "src/fri/fri_on_values.rs", "src/fri/query_producer.rs"],
     [("folding", "src/fri/mod.rs"), ("round consistency", "src/fri/verifier.rs")], ["FRI prover and verifier verdicts"],
     technique="runtime monitoring: all query positions of real FRI instances against a reference folding",
     note="scripted challenges make the reference folding exact")

prop("C14", "FRI rejects inconsistent words",
     "The FRI verifier accepts a query only if the opened values at every layer are the folding of the previous layer by the round's challenge and the last layer agrees with the final coefficients. A word that is not of low degree is accepted at no more positions than the ones where its foldings agree.",
     [I, P], "all words x layers x positions of an inconsistency",
     "Tests never present an inconsistent word.",
     ["src/fri/verifier.rs", "src/fri/mod.rs"], [("round consistency", "src/fri/verifier.rs")], ["FRI verifier verdicts"],
     technique="runtime monitoring: adversarial oracles at every layer against a reference verifier",
     note="accept/reject is compared with an independent reference verifier position by position")

prop("C15", "Witness interpolation is faithful, and malformed witnesses are errors",
     "Every register polynomial takes exactly the witness values on the trace domain and stays below the degree bound, for every number of rows. A witness that is empty, ragged or of the wrong shape is reported as an error, not a crash or a silent truncation.",
     [I], "all witnesses x shapes", "Tests interpolate one Fibonacci trace.",
     ["src/arp/per_register/mod.rs", "src/arp/mod.rs"], [("per register interpolation", "src/arp/per_register/mod.rs")],
     ["ARP construction and witness polynomials"],
     technique="runtime monitoring: reference interpolation and hostile shapes", note="values compared at every row")

prop("C16", "The satisfaction check decides the statement",
     "For a witness of the shape that the instance declares, the library's own check of an instance succeeds exactly when every constraint holds at every row of its domain and every boundary value is met.",
     [I], "all statements x witnesses, satisfying and not", "Tests check one satisfying trace.",
     ["src/arp/per_register/mod.rs", "src/arp/density_query.rs", "src/air/constraint.rs"],
     [("density query and evaluation by steps", "src/arp/per_register/mod.rs")], ["is_satisfied result"],
     technique="runtime monitoring: differential oracle on satisfying and minimally violating witnesses", note="")

prop("C17", "The combined quotient G is the specified one, low degree on true statements",
     "For every satisfied statement, G equals, at any point, the sum over constraints and boundaries of (alpha x^adjustment + beta) times the constraint polynomial divided by its divisor, and its degree is below the number of rows (rounded up to a power of two) times the highest constraint degree (rounded up likewise). For a violated statement no polynomial of that degree satisfies the identity, and the computed one fails it at a random point.",
     [I, C], "all statements x witnesses x challenges", "Tests compute G for Fibonacci and never evaluate it.",
     ["src/ali/per_register/mod.rs"], [("calculate_g", "src/ali/per_register/mod.rs")], ["G polynomial"],
     technique="runtime monitoring: pointwise identity against an independent evaluator with scripted challenges", note="")

prop("C18", "DEEP quotients are the specified ones",
     "For every satisfied statement and out-of-domain point z, the claimed values are the register polynomials at the shifted points, H1 is the challenge-weighted sum of (f(x) - f(zm)) / (x - zm) and H2 is (G(x) - G(z)) / (x - z), both polynomials of the specified degree, and the verifier derives G(z) from the claimed values alone.",
     [I, C], "all statements x points z x challenges", "Tests compute one pair of quotients and do not evaluate them.",
     ["src/ali/per_register/deep.rs", "src/verifier/mod.rs"], [("calculate_deep", "src/ali/per_register/deep.rs")], ["H1, H2, f(zm)"],
     technique="runtime monitoring: pointwise identity against an independent evaluator", note="")

prop("C19", "Constraint-building operators mean what they say",
     "Terms and constraints composed by addition, subtraction, scaling, multiplication, powers and step changes denote the same function as the expression that built them, for every composition and order, and the degree recorded is the true one.",
     [P, I], "all expressions over the building operators", "Tests build three fixed expressions.",
     ["src/air/constraint.rs", "src/air/mod.rs"], [("operator implementations", "src/air/constraint.rs")], ["constraint structure"],
     technique="runtime monitoring: random expression trees against a reference semantics", note="")

prop("C20", "Proofs do not depend on threads, history or concurrency",
     "For the same statement and witness the proof is bit for bit the same at every number of worker threads, on every repetition, whatever was proved or verified before on the same prover or verifier, and when several provers and verifiers run at once. Verification verdicts likewise.",
     [S, H, C], "thread counts x interleavings x histories of use", "Tests run one prover once.",
     ["src/prover/mod.rs", "src/verifier/mod.rs", "src/fft/multicore.rs", "src/polynomials/mod.rs"],
     [("scoped workers over disjoint chunks", "src/fft/multicore.rs")], ["proof bytes", "verdicts"],
     hook="hodor_verif: forced number of threads",
     technique="runtime monitoring: replay and concurrency stress with bit-exact comparison of event logs", note="")

prop("C21", "Domains and precomputations are exact",
     "For every size, the domain has the next power of two as its size and a generator of exactly that order, sizes that the field does not support are an error, and precomputed tables hold exactly the powers that they stand for.",
     [I, C], "all sizes x fields", "Tests use one size.",
     ["src/domains/mod.rs", "src/precomputations/mod.rs"], [("Domain::new_for_size", "src/domains/mod.rs")], ["Domain", "Precomputations"],
     technique="runtime monitoring: reference tables", note="")

prop("C22", "The example computations prove themselves: Fibonacci, VDF, cubic VDF",
     "For every start value and number of steps, the traces of the examples are those of the computations that they are named after, satisfy their own constraints and boundary values, are proved and accepted, and a trace with any wrong cell that matters is not. The quadratic extension used for computing square roots is a field: its operations are those of polynomials modulo u^2 minus a non-residue, inverses undo multiplication, and an element has a square root, which squares to it, exactly when it is a square, as its Legendre symbol says.",
     [I], "start values x numbers of steps; field elements", "Tests run each example on one input.",
     ["src/experiments/vdf.rs", "src/experiments/cubic_vdf.rs", "src/experiments/square_root_calculator/fp2.rs", "src/air/test_trace_system.rs", "src/air/mod.rs"],
     [("into_arp conversions", "src/experiments")], ["is_satisfied", "verdicts"], hook="hodor_verif: re-export of the examples",
     technique="runtime monitoring: independent recomputation of the traces", note="")

prop("C23", "A traced computation becomes the instance that it describes",
     "Every ordinary, program-counter, auxiliary and constant register allocated in a trace system becomes one column of the instance, all of one kind together and in the order of allocation. "
     "Constraints and boundary values refer to the columns of the registers that they named and denote the same functions, at the same rows. The numbers of rows and registers are the traced ones, the witness handed out holds the traced values (those that the generators compute, where there are generators), and without values only the statement comes out.",
     [P, I], "all sets of registers x orders of allocation x constraints x boundaries x numbers of steps",
     "Tests trace Fibonacci, with two ordinary registers.",
     ["src/arp/mod.rs", "src/air/test_trace_system.rs", "src/air/mod.rs"], [("into_arp and its remapping of registers", "src/arp/mod.rs"), ("TestTraceSystem", "src/air/test_trace_system.rs")],
     ["InstanceProperties and witness returned by into_arp"], hook="hodor_verif: construction of a trace system",
     technique="runtime monitoring: differential oracle, traced programs against the instances they become", note="")

prop("C24", "Parallel work is partitioned exactly",
     "For every number of elements and of threads, the chunks handed to workers cover every element exactly once with the right offset, chunk sizes are never zero, the predicted number of chunks (get_num_spawned_threads) covers all chunks that come out, and a computation handed to a worker runs exactly once and hands back its result, its error or its panic.",
     [C, S], "element counts x thread counts", "Tests run at one thread count.",
     ["src/fft/multicore.rs", "src/polynomials/mod.rs"], [("Worker::scope, get_chunk_size", "src/fft/multicore.rs")], ["scope callbacks"],
     hook="hodor_verif: forced number of threads", technique="runtime monitoring: recording of every chunk handed out", note="")

prop("C25", "The prefetching build computes the same",
     "Built with the nightly feature, which replaces the default transforms by ones that prefetch, the library computes exactly what it computes without: every transform and extension, at every size, rate, thread count and hint, is the right one and prefetches nothing outside of its input, and proofs and verdicts are bit for bit the same.",
     [I, C], "all inputs x sizes x rates x thread counts x builds", "Tests are not built with the feature.",
     ["src/fft/prefetch_fft.rs", "src/fft/prefetch_lde.rs", "src/fft/prefetch.rs", "src/fft/mod.rs"],
     [("best_fft, best_lde with prefetching", "src/fft/prefetch_fft.rs"), ("prefetch_index", "src/fft/prefetch.rs")], ["transform results", "proof bytes"],
     hook="hodor_verif: forced number of threads, re-export of the transforms",
     technique="runtime monitoring: differential oracle between two builds, reference transforms, AddressSanitizer", note="")

prop("C26", "No undefined behaviour and no data race, whatever the input",
     "Whatever the statements, witnesses, proofs (hostile ones among them), sizes and numbers of threads, and however many provers and verifiers run at once, no execution of the library reads or writes memory outside of what it allocated, reads uninitialised memory, uses memory after it was freed, or accesses memory from two threads without synchronisation when one of them writes.",
     [I, S, C], "all inputs x thread counts x interleavings", "Tests run without sanitizers, on one input and at one thread count each.",
     ["src/fft/multicore.rs", "src/fft/mod.rs", "src/polynomials/mod.rs", "src/iop/blake2s_trivial_iop.rs", "src/prover/mod.rs", "src/verifier/mod.rs"],
     [("scoped workers over disjoint chunks", "src/fft/multicore.rs"), ("query by index from a proof", "src/iop/blake2s_trivial_iop.rs")], ["every memory access"],
     hook="hodor_verif: forced number of threads",
     technique="runtime monitoring: ThreadSanitizer, AddressSanitizer and Miri over the workloads of the other checks", note="")

prop("C27", "Hash functions are the standard ones, whatever the history",
     "For every sequence of absorbed pieces, copies, and digests taken, each of the library's hashers returns exactly the SHA-256 (or original-padding Keccak-256) digest of all the bytes absorbed since it was created or last gave a digest, by itself or by those it was copied from, and copies do not influence each other.",
     [I, H], "byte strings x splittings x histories of copies", "No test uses the hashers.",
     ["src/utils/mod.rs"], [("Hasher for SHA-256 and Keccak-256", "src/utils/mod.rs")], ["Hasher::new, update, finalize"],
     technique="runtime monitoring: reference hash functions over recorded histories", note="")

prop("C28", "Tensor decompositions give the elements of the product",
     "For every matrix, diagonal, pair of vectors and pair of subdomains, each element that the lazy tensor product hands out by index is the element of the product written out in full, indices outside of it are refused, and the decomposition of a subgroup's generator reassembles to every element of the subgroup.",
     [I], "fields x dimensions x indices", "The tests print one product.",
     ["src/experiments/tensor_lde.rs"], [("tensor products by index", "src/experiments/tensor_lde.rs")], ["elements by index"],
     hook="hodor_verif: re-exports of the private tensor products",
     technique="runtime monitoring: reference products written out, every index queried", note="")

prop("C29", "A printed constraint says the polynomial that it is",
     "For every constraint and term, the formula that it prints as, read back by the usual rules of precedence, is the same polynomial in the same registers and steps: no coefficient, power, factor, step or constant is lost or changed.",
     [I], "constraints x terms x fields", "The tests print and do not look.",
     ["src/air/constraint.rs"], [("Display of constraints and terms", "src/air/constraint.rs")], ["fmt::Display"],
     technique="runtime monitoring: an independent reader of the printed formulas, compared at random points", note="")

prop("C30", "What is not supported or not in the trace is refused, not weakened",
     "A statement that uses what the protocol does not support (repeated or sparse densities, registers that are not mapped to columns, boundary conditions without a value) or that refers to what is not there (registers beyond the trace, rows beyond its end, steps beyond the span of their constraint) never ends in an accepted proof: neither one that the prover makes for it, nor one that was made for the supported statement it resembles.",
     [I], "statements x kinds of unsupported parts x witnesses", "Tests use supported statements only.",
     ["src/arp/mod.rs", "src/arp/per_register/mod.rs", "src/prover/mod.rs", "src/verifier/mod.rs", "src/ali/per_register/mod.rs"],
     [("refusal of other densities", "src/ali/per_register/mod.rs"), ("rows inside of the trace", "src/arp/mod.rs")], ["verdicts of prover and verifier"],
     technique="runtime monitoring: mutated statements against the pipeline, and substituted transcripts against the verifier", note="")

prop("C31", "Verification is succinct and proving is quasi-linear",
     "For one set of rules over traces of n rows, where n is a power of two less a fixed number (every row of padding costs the verifier, by design) and everything else is fixed, proofs have O(log^2 n) bytes, the verifier does work and allocates memory that grows with log n and not with n, and the prover does O(n log n) field operations in memory that grows linearly with n.",
     [I, C], "rules x rates x lengths of traces", "Tests prove one or two small traces and measure nothing.",
     ["src/prover/mod.rs", "src/verifier/mod.rs", "src/fri/mod.rs", "src/fri/verifier.rs", "src/arp/mappings.rs", "src/ali/per_register/mod.rs", "src/iop/blake2s_trivial_iop.rs", "src/polynomials/mod.rs"],
     [("succinct verifier", "src/verifier/mod.rs"), ("size of FRI proofs", "src/fri/mod.rs")], ["operations of a counting field", "bytes allocated"],
     technique="runtime monitoring: a field that counts its operations, a counting allocator, sizes of proofs, over families of lengths", note="")

BUILT = [l.strip() for l in open(os.path.join(HERE, "tools", "built.txt")) if l.strip()]
NA = {}

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif:")]
    m = {
        "version": 1,
        "setup_cmd": "./check.sh --build-only",
        "hooks": {"guard": "--cfg hodor_verif", "enable": "RUSTFLAGS='--cfg hodor_verif' for the harness crate in /verif/harness, which depends on /repo by path (see env.sh)", "source_commits": hooks},
        "checks": [], "not_applicable": [],
    }
    for p, t, n in PROPS:
        i = p["id"]
        if i in BUILT:
            m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                                "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n or "sampled executions of the real code; nothing is proved for executions that were not observed"})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

main()
