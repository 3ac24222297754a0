#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
HASH="poseidon377/src/hash.rs"; LIB="poseidon377/src/lib.rs"; PERM="poseidon-permutation/src/permutation.rs"
PR1="poseidon-permutation/src/r1cs.rs"; HR1="poseidon377/src/r1cs.rs"; MAT="poseidon-parameters/src/matrix.rs"
MOP="poseidon-parameters/src/matrix_ops.rs"; MDS="poseidon-parameters/src/mds_matrix.rs"; ARC="poseidon-parameters/src/arc_matrix.rs"
RATES=["poseidon377/src/params/rate_%d.rs"%i for i in range(1,8)]
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every native fixed-width hash equals the Poseidon specification",
 "For every domain separator and every tuple of 1 to 7 field elements, the native hash function of that arity returns word 1 of the Poseidon permutation (x^17 S-box, 4+31+4 rounds, Cauchy MDS, transcript-derived round constants over the BLS12-377 scalar field) applied to the state (domain separator, inputs in order). It never panics. No input value, however special (zero, one, -1, small, equal, unusual internal representation, or one that drives an intermediate state to a special value), is treated differently.",
 ["inputs"],"all domain separators and all input tuples of arity 1..7",
 "One fixed vector per arity 1..6 is asserted, arity 7 has no native vector at all; the space is 2^253 per word and special values are never exercised.",
 [HASH,LIB,PERM]+RATES,[("hash_1..hash_7",HASH),("Instance::n_to_1_fixed_hash",PERM)],observe=["poseidon377::hash_1..hash_7"])
p("C02","Optimised and textbook permutations agree on the whole state",
 "With each of the seven shipped parameter sets and for every initial state, the optimised permutation and the unoptimised (textbook) permutation leave exactly the same full state, return word 1 of it, and expose that state through the instance's output accessor. Neither panics.",
 ["inputs"],"all initial states for the seven shipped parameter sets",
 "Agreement is sampled by one property test on width 5 with uniformly random inputs, output word only; six of seven widths are only covered by a single vector or not at all.",
 [PERM]+RATES,[("permute / sparse_mat_mul / mix_layer_mi",PERM),("unoptimized_permute",PERM)],
 state=[("state_words","permutation state",PERM)],observe=["Instance::n_to_1_fixed_hash","Instance::unoptimized_n_to_1_fixed_hash","Instance::output_words"])
p("C03","The generic permutation is right for any well-formed parameter set",
 "For any well-formed Poseidon parameter set (any state width, any even number of full rounds and any positive number of partial rounds, any positive exponent or the inverse S-box, any matrix and round constants together with optimised forms derived from them by the documented procedure), both permutation entry points compute the Poseidon permutation those parameters define, on every input for which the S-box is defined.",
 ["configurations","inputs"],"all well-formed parameter sets x all initial states (no zero S-box input when the S-box is 1/x)",
 "Only the shipped parameters (widths 2..8, x^17, 8+31 rounds) are ever run; the permutation is exported as generic over width, rounds and S-box.",
 [PERM,"poseidon-parameters/src/v1.rs",MDS,ARC],[("Instance",PERM),("PoseidonParameters","poseidon-parameters/src/v1.rs")],observe=["Instance::n_to_1_fixed_hash","Instance::unoptimized_n_to_1_fixed_hash","Instance::output_words"])
p("C04","The shipped permutations are bijections of the state space",
 "For each shipped parameter set, the permutation can be undone using only the published parameters: running the inverse rounds (inverse matrix, 17th root, subtracting constants) on the final state gives back the initial state for every initial state, and for every target state the state so obtained permutes to the target. Hence no two distinct states collide on the full output state.",
 ["inputs"],"all initial states and all target states, for the seven shipped parameter sets",
 "No test looks at more than one output word of a sampled forward evaluation; bijectivity is a claim over the whole state space.",
 [PERM]+RATES,[("S-box / mix layers",PERM),("parameter constants","poseidon377/src/params")],observe=["Instance::output_words"])
p("C05","Hashing is stateless: history, sharing and threads never matter",
 "The result of any hash or permutation call depends only on its arguments and parameter set. It is the same whatever calls came before (on the same instance, on other instances, at other arities, with related inputs), however often it is repeated, however entry points are interleaved on one reused instance, and whichever threads run concurrently; the exposed state is always that of the most recent call on that instance.",
 ["histories","schedules"],"all call histories over instances, arities and entry points, including long ones and concurrent ones",
 "Every test makes one or two calls on a fresh instance; no test reuses an instance with a different input, repeats long histories, or hashes from several threads.",
 [PERM,HASH,LIB],[("state_words overwritten on entry",PERM),("fresh Instance per hash",HASH)],state=[("state_words","carried-over state of an instance",PERM)],observe=["hash_n results","Instance::output_words"])
p("C06","The circuit gadgets compute the native hash (completeness)",
 "For every arity 1..7, every assignment of domain separator and inputs, and every way of presenting them to the circuit (constants, witnesses, public inputs, linear expressions of these, the same variable used twice, outputs of earlier hashes), the circuit hash gadget succeeds, the value of its result equals the native hash, and the constraint system is satisfied under every optimisation goal.",
 ["inputs","programs"],"all input values x all presentations x all circuits composed of hash gadgets",
 "The tests use one circuit shape only (constant domain separator, witness inputs) with uniformly random values.",
 [HR1,PR1],[("r1cs::hash_1..hash_7",HR1),("InstanceVar::permute",PR1)],observe=["FqVar::value","ConstraintSystem::is_satisfied"])
p("C07","The circuit gadgets force the native hash (soundness)",
 "In a circuit produced by the hash gadgets, once the values of the domain separator and inputs are fixed, no assignment of the remaining variables satisfies all constraints while the gadget's output differs from the native hash of those inputs. In particular the output cannot be changed, and no witness can be substituted so as to change it, for any presentation of the inputs.",
 ["inputs","fault_sequences"],"all input values and presentations x all adversarial witness assignments",
 "The one negative test only changes claimed public outputs and keeps the honest witness; an under-constrained gadget (a value supplied as advice and not constrained) passes every test.",
 [HR1,PR1],[("constraints emitted by pow_by_constant and linear mixing",PR1)],observe=["constraint matrices","satisfying assignments"])
p("C08","Circuit structure does not depend on the witness values",
 "For a given arity and presentation of the inputs, the gadgets produce exactly the same constraints (same variables, same matrices) for all witness and public-input values, and also in setup mode where no values are available, in which they never fail. So keys generated once are usable for every later proof.",
 ["inputs","configurations"],"all values, all presentations, proving and setup synthesis modes",
 "Only one circuit with random values is synthesised; a value-dependent constraint (for instance for zero or equal inputs) would never show.",
 [HR1,PR1],[("InstanceVar::permute",PR1)],observe=["ConstraintSystem::to_matrices"])
p("C09","The generic circuit permutation is right for any well-formed parameter set",
 "For any well-formed parameter set with a positive exponent, the in-circuit permutation (through its hash entry point and when driven directly on a state) yields a satisfied constraint system whose full resulting state equals that of the native permutation with the same parameters.",
 ["configurations","inputs"],"all well-formed parameter sets with positive exponent x all states and presentations",
 "Only shipped parameters and only the single output word are exercised in circuits.",
 [PR1],[("InstanceVar::permute",PR1),("InstanceVar::n_to_1_fixed_hash",PR1)],state=[("state_words","circuit state",PR1)],observe=["InstanceVar::state_words"])
p("C10","Shipped parameters are exactly those of the documented generation procedure",
 "For each rate 1..7 every published parameter (security level, exponent 17, round numbers 8 and 31, MDS matrix, round constants, and every optimised matrix, vector and constant derived from them) equals what the documented deterministic procedure yields: Cauchy matrix 1/(x_i+y_j), transcript-derived constants bound to (t, M, p, rounds, exponent), and the equivalent-constants/equivalent-matrices derivation; every square submatrix of the MDS matrix is invertible.",
 ["configurations"],"every element of all seven shipped parameter sets",
 "The tests touch parameters only through a handful of hash outputs; unused or rarely used published fields are never compared to anything.",
 [LIB]+RATES,[("RATE_1_PARAMS..RATE_7_PARAMS",LIB)],observe=["poseidon377::RATE_n_PARAMS"])
p("C11","Matrix operations obey matrix algebra at every shape",
 "For every matrix shape and content, construction, element access and update, row iteration, row extraction, transposition, scalar, element-wise, rectangular and square products, and identity behave as the mathematical operations, on plain, square, MDS and round-constant matrices alike; operations other than element update never modify their operands, and sequences of operations compose accordingly.",
 ["inputs","programs"],"all shapes and contents, all sequences of operations",
 "The tests check a few 2x2/3x3 examples with small entries; non-square shapes, wrappers, row extraction and update sequences are not covered.",
 [MAT,MOP,MDS,ARC],[("Matrix / SquareMatrix",MAT),("MatrixOperations",MOP),("ArcMatrix / OptimizedArcMatrix",ARC)],observe=["returned matrices"])
p("C12","Determinant, minors, cofactors and inverse are correct up to 8x8",
 "For every square matrix of size 1 to 8, the determinant, the cofactor sign matrix and (from size 2) the matrix of minors equal their mathematical definitions; inversion returns the unique two-sided inverse exactly when the determinant is non-zero, and reports an error, without panicking, for every singular matrix.",
 ["inputs"],"all square matrices of size 1..8, singular and regular, sparse and dense",
 "The tests use single small examples of size 2..4; singular matrices and sizes 5..8 are never inverted.",
 [MAT],[("determinant / minors / inverse",MAT)],observe=["SquareMatrixOperations"])
p("C13","Ill-shaped matrices and products are rejected, never silently accepted",
 "Constructing a matrix from a number of elements that does not match its shape, declaring an element count that does not equal rows times columns, declaring inconsistent MDS dimensions, or multiplying matrices whose inner dimensions or declared result size do not match is always rejected (error or panic) and never yields a value; well-shaped calls are never rejected.",
 ["inputs"],"all shapes, element counts and pairs of shapes, matching and mismatching",
 "No test constructs an ill-shaped matrix or product.",
 [MAT,MDS,ARC,MOP],[("length checks in constructors",MAT),("dot_product length check",MOP),("MdsMatrix::new assertions",MDS)],observe=["panic / result of constructors and products"])
p("C14","MDS decomposition accessors return the documented parts",
 "For every MDS-typed matrix of width 2 and up, the accessors return exactly the first row without its first element, the first column without its first element, the matrix without first row and column, the transpose, and (for invertible matrices up to 8x8) the true inverse, however the matrix was constructed; together with the top-left element the parts reassemble to the original.",
 ["inputs"],"all widths and contents",
 "None of these accessors is exercised by any test.",
 [MDS],[("v / w / hat / inverse / transpose",MDS)],observe=["MdsMatrix accessors"])
p("C15","Every build configuration computes the same functions",
 "All supported feature combinations (with and without arkworks, alloc, std, r1cs, parallel, the 32-bit backend) and build profiles (optimised, or with debug assertions and overflow checks) build and give bit-identical results for every hash, permutation and parameter, and none panics where another does not.",
 ["configurations","inputs"],"all feature sets and profiles x all inputs",
 "The suite runs in exactly one configuration: all features, debug profile.",
 [HASH,LIB,PERM,"poseidon377/Cargo.toml","poseidon-permutation/Cargo.toml","poseidon-parameters/Cargo.toml"],[("cfg(feature) gates",LIB)],observe=["outputs of identically driven builds"])
p("C16","Parameter generation selects the documented S-box exponent",
 "For every prime field (modulus above the largest table entry, 128), exponent selection returns the first odd exponent, in order of shortest-addition-chain length and then of the published chain table, that is coprime to p-1; only if there is none does it return the inverse S-box when allowed, and otherwise refuse.",
 ["inputs"],"all prime moduli of supported sizes, with and without inverse allowed",
 "The crate is outside the workspace, so nothing runs it; its own tests try three fields.",
 ["poseidon-paramgen/src/alpha.rs"],[("alpha::generate","poseidon-paramgen/src/alpha.rs")],observe=["alpha::generate"])
p("C17","Generated round numbers are secure, margin-adjusted and of minimal cost",
 "For every security level up to 256 bits, width, field size and supported S-box, the generated round numbers (both Poseidon versions) are the security margin (+2 full, +7.5% partial) applied to a choice with an even number of full rounds satisfying every published attack bound evaluated at the true binary logarithm of p, of minimal S-box count among all such choices, ties going to fewer full rounds; unsupported requests are refused.",
 ["inputs"],"all (M, t, p, alpha) in the supported range",
 "The crate is outside the workspace, so nothing runs it; its own tests cover the published tables only.",
 ["poseidon-paramgen/src/rounds.rs","poseidon-paramgen/src/utils.rs","poseidon-paramgen/src/input.rs"],[("v1_generate / v2_generate","poseidon-paramgen/src/rounds.rs"),("log2","poseidon-paramgen/src/utils.rs")],observe=["rounds::v1_generate","rounds::v2_generate","utils::log2"])
p("C18","Generated round constants are transcript-bound and optimise equivalently",
 "For every instance description, the generated round constants (both versions) are the documented transcript outputs in order and of the right count, reproducible and bound to every input (field, width, security level, rounds, exponent); and the generated optimised constants define, with the optimised matrices, the same permutation as the plain constants.",
 ["inputs"],"all (M, t, p, rounds up to 255 of each kind, alpha) and all constants/MDS matrices",
 "The crate is outside the workspace, so nothing runs it; it has a single conversion test.",
 ["poseidon-paramgen/src/round_constants.rs","poseidon-paramgen/src/transcript.rs"],[("v1_generate / v2_generate / generate_optimized","poseidon-paramgen/src/round_constants.rs"),("TranscriptProtocol","poseidon-paramgen/src/transcript.rs")],observe=["round_constants::*"])
p("C19","The library agrees with the committed Sage reference",
 "For every width-3 state, the native optimised and textbook permutations and the 2-to-1 hash agree word for word with both permutations of the Sage reference implementation committed in the repository.",
 ["inputs"],"all width-3 states",
 "Two tests compare one fixed state (0,1,2) to numbers copied from a Sage run.",
 ["poseidonperm_x17.sage",PERM,"poseidon377/src/params/rate_2.rs"],[("perm / perm_original","poseidonperm_x17.sage"),("Instance::permute",PERM)],observe=["Instance::output_words"])
p("C20","Proofs of hash preimages verify exactly for the right public outputs",
 "With the committed Groth16 keys, and with freshly generated ones, a proof that seven public outputs are the seven hashes of secret preimages can be produced and verifies for every choice of preimages, and does not verify if any single public output is altered.",
 ["inputs","fault_sequences"],"all preimage tuples, all alterations of any subset of public outputs",
 "Random preimages with all-random alterations are tried; special values, single-position alterations and swaps are not.",
 [HR1,PR1,"poseidon-tests/test_vectors"],[("r1cs::hash_1..hash_7",HR1)],observe=["Groth16 prove / verify"])
p("C21","Every input, its position, the domain and the arity influence the hash",
 "Changing any single input word or the domain separator, permuting distinct inputs (including exchanging the domain separator with an input), or changing the arity (including appending or removing zero words) always changes the hash, whatever the other inputs are; the same holds in circuits' values.",
 ["inputs"],"all pairs of related but different calls across arities 1..7",
 "No test compares the hashes of two related inputs, so an ignored word, swapped words or a shared arity would only be visible to the few fixed vectors.",
 [HASH,HR1],[("argument order in hash_1..hash_7",HASH)],observe=["pairs of hash results"])
p("C22","Hash outputs resist collision and preimage search",
 "No efficient adversary finds two inputs with equal hash or an input for a given hash.",
 ["inputs"],"all efficient adversaries",
 "A computational-hardness claim: neither tests nor generated inputs can decide it.",
 [PERM],[("Poseidon permutation",PERM)])
p("C23","Parameter generation end to end emits the documented parameters and source code",
 "For every security level, width, prime field and inverse-S-box permission, the parameter generators (both Poseidon versions) return exactly the security level asked for, the exponent, round numbers and round constants that their stages give for that request, the deterministic Cauchy MDS matrix 1/(x_i+y_j), and optimised matrices and constants equal to the documented derivation and defining the same permutation; for the BLS12-377 scalar field at 128 bits these are the published parameters. Poseidon2 parameters carry the documented internal matrix (widths 2 and 3, used externally too), and the external matrix of width 4k is circ(2*M4, M4, ..., M4) (M4 itself at width 4). Requests outside this (fields below 128 bits for the MDS matrix, other widths, fields refused by a stage) are refused. The emitted source code is valid Rust that defines one function per requested width, in order, whose value is exactly those parameters.",
 ["inputs","configurations"],"all instance descriptions and lists of widths",
 "The generator crate is excluded from the workspace and does not compile at this commit; none of its tests runs.",
 ["poseidon-paramgen/src/mds.rs","poseidon-paramgen/src/v1.rs","poseidon-paramgen/src/v2.rs","poseidon-paramgen/src/v2/external.rs","poseidon-paramgen/src/v2/internal.rs","poseidon-paramgen/src/poseidon_build.rs"],[("v1::generate, v2::generate","poseidon-paramgen/src/v1.rs"),("fixed_cauchy_matrix, generate_optimized, calc_equivalent_matrices","poseidon-paramgen/src/mds.rs"),("v1_compile","poseidon-paramgen/src/poseidon_build.rs")])
p("C24","S-box and round-number descriptions are faithful",
 "An S-box description (any 32-bit exponent, or the inverse) yields its exponent as four little-endian bytes (minus one for the inverse) and as a float without loss; two descriptions are equal, or have equal bytes, only if they describe the same S-box (the exponent 2^32-1, whose bytes are those of the inverse, excepted). A pair of round numbers reports exactly the full, partial and total counts that were stored or assigned last through its accessors, and copies are independent.",
 ["inputs","histories"],"all exponents, all pairs of round numbers and all sequences of updates",
 "No test calls these accessors with more than the shipped values 17, 8 and 31.",
 ["poseidon-parameters/src/alpha.rs","poseidon-parameters/src/round_numbers.rs"],[("Alpha::to_bytes_le / f64::from","poseidon-parameters/src/alpha.rs"),("RoundNumbers accessors","poseidon-parameters/src/round_numbers.rs")],observe=["Alpha::to_bytes_le","RoundNumbers::full / partial / total"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
