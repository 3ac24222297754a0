"""Technique and assurance note per property, for MANIFEST.json."""
COMMON = " Search over generated inputs; never a proof of absence. Trusted: the harness's own field arithmetic and Poseidon model, written independently of the library."
NOTES = {
    "C01": ("property-based differential testing against an independent reference model", "Hash of each arity compared with an independent Poseidon model on tens of thousands of structured and random inputs, including states built backwards from special intermediate values and every constant in the library source, in two build configurations." + COMMON),
    "C02": ("property-based differential testing (optimised vs textbook vs model)", "Full states of the two entry points compared with each other and the model, all rates." + COMMON),
    "C03": ("property-based differential testing over generated parameter sets", "Parameter sets of many widths, round numbers, exponents, the inverse S-box and arbitrary matrices and constants; the permutation compared with an independent textbook evaluation." + COMMON),
    "C04": ("property-based round-trip testing", "Permute then undo with inverse rounds built from the published parameters, and the reverse." + COMMON),
    "C05": ("stateful property-based testing of call histories against a pure model", "Call histories on shared and fresh instances, short, long and very long, and concurrent histories on threads; every result compared with the model. Thread schedules are sampled, not controlled." + COMMON),
    "C06": ("property-based differential testing of generated circuits against the native hash", "Circuits of one to four gadgets with every kind of presentation, all optimisation goals; values and satisfaction checked with an independent evaluator." + COMMON),
    "C07": ("generated circuits with a search for alternative satisfying witnesses", "With the words fixed, all other variables are re-derived from the constraints; any freedom is explored by branching. When everything is forced, uniqueness is established for that input. A violation always comes with a complete satisfying assignment." + COMMON),
    "C08": ("metamorphic property-based testing of circuit structure", "The same circuit synthesized for different values, in setup mode and without matrices must have identical matrices." + COMMON),
    "C09": ("property-based differential testing over generated parameter sets", "In-circuit permutation with generated parameters against the native one and the model, whole state and hash entry." + COMMON),
    "C10": ("differential testing of every published element, plus generated linear-algebra relations", "Every element of every published parameter compared with the model's derivation; every square submatrix of every MDS matrix inverted. The element comparison is exhaustive over the published data." + COMMON),
    "C11": ("stateful property-based testing of matrix programs against a model; metamorphic algebra laws", "Random programs of matrix operations over many shapes, all four matrix types." + COMMON),
    "C12": ("property-based testing against definitions (Leibniz/Gauss) with structured singular matrices", "Determinants, minors, cofactors and inverses for sizes 1 to 8 with sparse, low-rank, permutation-like and random content." + COMMON),
    "C13": ("property-based testing of rejection, with exhaustive small shapes", "All small shapes and lengths, plus random larger ones." + COMMON),
    "C14": ("property-based testing against definitions", "MDS accessors at widths 2 to 10, 12 and 16, matrices built by every public constructor." + COMMON),
    "C15": ("property-based differential testing of one request stream across build configurations", "Twenty feature and profile combinations built from the current tree answer the same generated requests; every answer compared with the model. A configuration that no longer builds while the default one does is a violation. Only this machine's target is covered." + COMMON),
    "C16": ("property-based testing against an independent oracle over generated prime fields", "148 prime fields built so that selection ends at every possible candidate and at none, 8 to 767 bits, both settings; the chain table is recomputed by search. The fields are fixed when the harness is compiled." + COMMON),
    "C17": ("property-based differential testing against an independent evaluation of the attack bounds", "Security levels, widths, exponents and moduli of 20 to 780 bits, also chosen to sit close to a bound; the oracle reproduces the 50 published rows of the paper. Values within 1e-9 of a rounding boundary may go either way." + COMMON),
    "C18": ("property-based differential testing against the documented transcript; metamorphic binding and equivalence checks", "Constants of both versions over 148 fields compared with the transcript; changing one input changes all constants; optimised constants give the same permutation for arbitrary matrices and constants." + COMMON + " The modules are compiled against a stand-in for the older parameters interface they are written for."),
    "C19": ("property-based differential testing against the committed Sage reference", "Both permutations of the committed Sage file, run by a small interpreter of the Sage features it uses, against the native permutations and hash on generated width-3 states." + COMMON + " Trusted: that interpreter."),
    "C20": ("property-based end-to-end testing of proofs, with altered public outputs", "Groth16 proofs with the committed keys and keys made in the run, for generated preimages and circuits; altered outputs must be rejected. Trusted: ark-groth16." + COMMON),
    "C21": ("metamorphic property-based testing", "Related calls (changed word, swap, rotation, arity change, domain exchange) must give different hashes." + COMMON),
    "C23": ("property-based testing of the whole generator against an independent derivation over generated requests", "Requests (field of 8 to 767 bits, security level, width, S-box permission) to both generators; every generated parameter compared with an independent big-integer derivation, both forms run on a state, refusals checked, the emitted source parsed and evaluated." + COMMON + " The crate does not compile as committed: its sources are compiled with the const arguments of their types erased, against a stand-in for the older parameters interface their bodies use."),
    "C24": ("property-based testing against plain values; stateful testing of updates", "Bytes, float value and equality of generated S-box descriptions; accessors of round numbers along generated update sequences." + COMMON),
}
NOT_APPLICABLE = {
    "C22": "Collision and preimage resistance quantify over efficient adversaries; generated-input search can neither establish nor meaningfully attack them. The structural part (bijection, sensitivity to every input) is decided under C04 and C21.",
}
