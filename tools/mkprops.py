#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Every valid proof is accepted, for every supported circuit configuration",
 "For every circuit description the verifier admits and every proof that the Plonky2 verification algorithm accepts for it, the verifier circuit is satisfiable by honest witness generation. This holds for any number of public inputs, wires, routed wires, challenges, partial products, quotient chunks, gates, selector groups, query rounds, reduction rounds, degree, blow-up rate and proof-of-work bits within the admitted ranges, not only for the two bundled circuits.",
 ["inputs","configurations"],"all admitted circuit configurations x all valid proofs for them",
 "The tests verify two fixed proofs of two fixed shapes; arithmetic carry cases, unequal selector groups, other degrees, numbers of challenges or reductions never occur in them.",
 ["verifier/verifier.go","plonk/plonk.go","fri/fri.go","challenger/challenger.go"],
 [("whole-proof verification","verifier/verifier.go Verify"),("vanishing identity","plonk/plonk.go Verify"),("opening proof","fri/fri.go VerifyFriProof")])
prop("C02","A proof, public input or verifying key altered anywhere is rejected",
 "Starting from a valid proof, changing any single field element or hash of the proof, any public input, the circuit digest or the preprocessed commitment to a different value (or exchanging two different elements) makes the verifier circuit unsatisfiable. No part of the proof is left unconstrained.",
 ["inputs","fault_sequences"],"all proof positions x all altered values x all circuit configurations",
 "The tests only feed valid proofs; a dropped check makes them pass more easily, never fail.",
 ["verifier/verifier.go","plonk/plonk.go","fri/fri.go","challenger/challenger.go"],
 [("transcript binding","verifier/verifier.go GetChallenges"),("opening checks","fri/fri.go verifyQueryRound"),("identity check","plonk/plonk.go Verify")])
prop("C03","Non-canonical field encodings in a proof are rejected at every position",
 "If any Goldilocks element of a proof (openings, query leaves, reduction evaluations, final polynomial, proof-of-work witness) is supplied as a value not below the Goldilocks modulus, including one congruent to the valid element, the verifier circuit is unsatisfiable for every choice of prover-supplied auxiliary values.",
 ["inputs","fault_sequences"],"all proof positions x all non-canonical representatives x all auxiliary witness values",
 "The tests contain only canonical proofs and honest witness generation, which itself panics on non-canonical values and so hides a missing constraint.",
 ["verifier/verifier.go","goldilocks/base.go"],
 [("proof range checks","verifier/verifier.go rangeCheckProof"),("element range check","goldilocks/base.go RangeCheck")])
prop("C04","Prover-supplied hints can never change the result of a field operation",
 "For every field operation the circuit offers (multiply-add, add, subtract, multiply, reduce, inverse, their extension-field forms, and the hash permutations built from them) and all inputs within its documented domain, every assignment of the prover-supplied auxiliary values that satisfies the emitted constraints yields the one mathematically correct canonical result. In particular no reduction can be satisfied by exploiting wrap-around of the native field.",
 ["inputs","fault_sequences"],"all operand values x all auxiliary witness assignments (malicious prover)",
 "Tests run only the honest hint functions; constraints that are too weak are invisible to them.",
 ["goldilocks/base.go","goldilocks/quadratic_extension.go","poseidon/goldilocks.go"],
 [("multiply-add relation","goldilocks/base.go MulAdd"),("reduction relation","goldilocks/base.go ReduceWithMaxBits"),("inverse relation","goldilocks/base.go Inverse"),("s-box reductions","poseidon/goldilocks.go sBoxMonomial")])
prop("C05","Goldilocks base-field arithmetic is exact for all operands",
 "For all canonical operands, add, subtract, multiply, multiply-add and inverse return exactly the canonical residue modulo 2^64-2^32+1 and are satisfiable; the non-reducing variants followed by a reduction give the same residue for every accumulated value within the documented bit bound; the inverse of zero is reported as having no inverse. Roots of unity and two-adic subgroups have exactly the announced order and ordering, for every exponent up to the two-adicity.",
 ["inputs","programs"],"all operand values and all straight-line programs of field operations within the documented bit bounds",
 "Tests check a handful of fixed operands; carries at 0, p-1, 2^32 and 2^64 boundaries and chains of unreduced operations are not sampled.",
 ["goldilocks/base.go"],
 [("arithmetic","goldilocks/base.go"),("roots of unity","goldilocks/base.go PrimitiveRootOfUnity, TwoAdicSubgroup")])
prop("C06","Extension-field and extension-algebra arithmetic is exact",
 "Every operation on the quadratic extension (X^2 = 7) and on its two-dimensional algebra - add, subtract, multiply, multiply-add, subtract-multiply, scalar multiply, inner product, inverse, divide, exponentiate, power-weighted reduction, zero test, selection, partial interpolation - returns the mathematically defined canonical value for all canonical operands, all lengths and all exponents. Inverting zero is unsatisfiable.",
 ["inputs","programs"],"all operand values, vector lengths, exponents and compositions of operations",
 "Tests cover one or two operand pairs for a few of the operations and none for the algebra.",
 ["goldilocks/quadratic_extension.go","goldilocks/quadratic_extension_algebra.go"],
 [("extension ops","goldilocks/quadratic_extension.go"),("algebra ops","goldilocks/quadratic_extension_algebra.go")])
prop("C07","Range checks admit exactly the stated range in every range-check mode",
 "With each way of enforcing ranges (builder-native, commitment-based, bit decomposition), asserting that a value is a field element accepts exactly the values below the modulus and asserting a bit bound accepts exactly the values below that power of two, whatever auxiliary values the prover supplies. In the deferred, commitment-based mode every requested check is enforced by the end of compilation, or compilation fails loudly when widths would be enforced imprecisely; none is ever dropped, weakened or attributed to another circuit.",
 ["inputs","configurations","histories"],"all values x all bit widths x all three modes x all sequences of requests",
 "Tests run one or two modes on a few in-range values; dropped or weakened checks only show on out-of-range values with adversarial witnesses.",
 ["goldilocks/base.go","goldilocks/range_checker_utils.go","goldilocks/utils.go"],
 [("mode selection","goldilocks/range_checker_utils.go gnarkRangeCheckerSelector"),("collection and flush","goldilocks/base.go rangeCheckerCheck, checkCollected")])
prop("C08","Goldilocks Poseidon equals its textbook definition on all inputs and lengths",
 "The circuit's Goldilocks Poseidon permutation equals the textbook permutation (width 12, 8 full and 22 partial rounds, x^7) on every state, hashing equals the overwrite-mode sponge of rate 8 for every input length and output length (inputs being reduced first where documented), and the extension-field layers used by the Poseidon gates compute the same linear and non-linear maps.",
 ["inputs"],"all states, all input lengths, all output lengths",
 "Tests use a few known-answer vectors of one or two lengths.",
 ["poseidon/goldilocks.go","poseidon/goldilocks_constants.go"],
 [("permutation","poseidon/goldilocks.go Poseidon"),("sponge","poseidon/goldilocks.go HashNToMNoPad, HashNoPad")])
prop("C09","BN254 Poseidon hashing, packing and splitting equal their definitions",
 "The circuit's BN254 Poseidon permutation equals the textbook permutation (width 4, 8 full and 56 partial rounds, x^5) on every state; leaf hashing packs three Goldilocks elements per BN254 element and nine per permutation for every length, short inputs are packed without hashing, two-to-one compression is order-sensitive, and a hash is split into 56-bit chunks of its unique canonical representative that determine it uniquely.",
 ["inputs"],"all states, all input lengths, all hash values",
 "Tests use four known-answer vectors and one length.",
 ["poseidon/bn254.go","poseidon/bn254_constants.go"],
 [("permutation","poseidon/bn254.go Poseidon"),("packing","poseidon/bn254.go HashNoPad, HashOrNoop"),("splitting","poseidon/bn254.go ToVec")])
prop("C10","The challenger is a faithful duplex sponge for every observe/squeeze history",
 "For every interleaving of absorbing elements, extension elements, hashes, caps and openings and squeezing base, multiple, extension, hash and FRI challenges, each challenge equals the one of the Plonky2 duplex challenger after the same history. No challenge is repeated, skipped or derived from outdated state, and every absorbed element influences all later challenges.",
 ["histories","inputs"],"all finite sequences of absorb and squeeze operations and all absorbed values",
 "Tests run the one fixed sequence that a proof produces; buffer boundary cases (squeeze on empty, absorb exactly the rate, absorb after a partial squeeze) are mostly not reached.",
 ["challenger/challenger.go"],
 [("absorb","challenger/challenger.go ObserveElement"),("squeeze","challenger/challenger.go GetChallenge"),("duplex","challenger/challenger.go duplexing")])
prop("C11","Challenges are drawn in protocol order from everything committed before",
 "For every proof and configuration, the verifier derives public-input hash, betas, gammas, alphas, zeta, opening-combination alpha, folding betas, proof-of-work response and query indices from exactly the transcript prescribed by Plonky2: circuit digest, public-input hash, wires commitment, permutation commitment, quotient commitment, all openings, each folding commitment, final polynomial and proof-of-work witness, in that order. Changing any of these items changes every challenge drawn after it and none drawn before.",
 ["inputs","configurations"],"all proofs x all configurations x all transcript positions",
 "Tests compare the challenges of the bundled proofs only through acceptance of that one proof and cannot show which items each challenge depends on for other shapes.",
 ["verifier/verifier.go","challenger/challenger.go","fri/fri.go"],
 [("transcript","verifier/verifier.go GetChallenges"),("FRI transcript","challenger/challenger.go GetFriChallenges"),("opening order","fri/fri.go ToOpenings")])
prop("C12","Merkle openings bind leaf, position, path and cap entry",
 "A leaf opening is accepted exactly when hashing the leaf with its siblings along the bits of the queried index reproduces the cap entry selected by the index's top bits. For every index, a different leaf, sibling, cap entry or a proof taken from another index or another tree is rejected, for initial oracles and for every folding layer.",
 ["inputs"],"all indices x all leaves x all trees x all single alterations",
 "Tests open only the indices of the bundled proofs, honestly.",
 ["fri/fri.go","poseidon/bn254.go"],
 [("path check","fri/fri.go verifyMerkleProofToCapWithCapIndex"),("index bits","fri/fri.go verifyQueryRound")])
prop("C13","The FRI check accepts exactly consistent low-degree openings with valid work",
 "Given the challenges, the opening check is satisfied exactly when the claimed openings combine consistently with the queried leaves, every folding step interpolates consistently to the next layer at every query and the last layer matches the final polynomial, and the proof-of-work response has the configured number of leading zero bits. This holds for every query index, every number of folding rounds, degree and rate admitted.",
 ["inputs","configurations"],"all query indices x all openings x all folding depths, degrees, rates, work bits",
 "Tests check two fixed valid proofs; no rejecting case, no other index or parameter is exercised.",
 ["fri/fri.go","fri/fri_utils.go"],
 [("query round","fri/fri.go verifyQueryRound"),("folding","fri/fri.go computeEvaluation"),("work","fri/fri.go assertLeadingZeros"),("instance","fri/fri.go GetInstance")])
prop("C14","Each gate evaluates exactly its Plonky2 constraints for all parameters",
 "For each supported gate type with every parameterisation in its identifier, the constraint values computed in circuit equal the Plonky2 definition of that gate at every assignment of wires, constants and public-input hash, in number and order. In particular a constraint polynomial is zero on a row exactly when the row satisfies the gate's relation.",
 ["inputs","configurations"],"14 gate types x all parameters x all wire and constant values",
 "Tests evaluate one parameterisation per gate on one fixed assignment.",
 ["plonk/gates"],
 [("gate evaluation","plonk/gates/*_gate.go EvalUnfiltered")])
prop("C15","Selector filtering and the vanishing identity follow Plonky2 for every layout",
 "For every number of gates, selector groups, challenges, routed wires, partial products and quotient chunks, the combined constraint, permutation and boundary terms equal the Plonky2 vanishing polynomial at the evaluation point, and the identity is enforced for every challenge against the reassembled quotient. Each gate contributes with exactly its own selector filter; no term is dropped, duplicated or misordered.",
 ["inputs","configurations"],"all selector layouts and dimensions x all opening values x all challenges",
 "Tests exercise the layouts of two circuits, on values for which the identity holds.",
 ["plonk/plonk.go","plonk/gates/evaluate_gates.go"],
 [("filters","plonk/gates/evaluate_gates.go"),("vanishing terms","plonk/plonk.go evalVanishingPoly"),("quotient identity","plonk/plonk.go Verify")])
prop("C16","A gate identifier is interpreted as exactly the gate it names or refused",
 "Every gate identifier that Plonky2 emits for a supported gate yields that gate with exactly the parameters written in it. Every identifier that names any other gate, is malformed or carries extra text is refused instead of being interpreted as some gate.",
 ["inputs","configurations"],"all identifier strings",
 "Tests contain only the identifiers of two circuits plus a few single instances.",
 ["plonk/gates/gates.go","plonk/gates"],
 [("identifier dispatch","plonk/gates/gates.go GateInstanceFromId")])
prop("C17","Loading circuit, key and proof files is faithful and refuses the unsupported",
 "Every value in a well-formed common-data, verifier-data or proof file (full 64-bit integers, 254-bit hashes, nested arrays of any length) reaches the verifier unchanged and in place. Files describing features the verifier does not implement (such as hiding) and files with malformed hashes are refused rather than loaded with altered content.",
 ["inputs","configurations"],"all well-formed files and all single malformations",
 "Tests load the bundled files and assert little about the loaded content.",
 ["types/common_data.go","types/deserialize.go","types/types.go","variables/deserialize.go"],
 [("common data","types/common_data.go ReadCommonCircuitData"),("proof","variables/deserialize.go DeserializeProofWithPublicInputs"),("key","variables/deserialize.go DeserializeVerifierOnlyCircuitData")])
prop("C18","A proof whose shape disagrees with the circuit description is refused",
 "A proof with a missing or surplus query round, tree opening, leaf element, sibling, folding step, evaluation, cap entry or final coefficient relative to the circuit description is never accepted: building the verifier for it fails or its constraints are unsatisfiable. Parameter combinations the verifier does not implement (other cap heights or folding arities) are refused as well.",
 ["inputs","configurations"],"all structural deviations x all configurations",
 "Tests contain only well-shaped proofs.",
 ["fri/fri_utils.go","fri/fri.go"],
 [("shape validation","fri/fri_utils.go validateFriProofShape"),("arity and cap guards","fri/fri.go verifyQueryRound, verifyMerkleProofToCapWithCapIndex")])
prop("C19","Trusted-setup download yields only a fully verified contribution chain",
 "Reference-string parameters are written to disk only if every contribution from the requested starting point to the last one follows from its predecessor and the final parameters pass the pairing sanity check. A ceremony history in which any single link is broken, missing or reordered, or a download that fails at any point, ends in failure without producing the output file.",
 ["fault_sequences","histories"],"all ceremony histories, starting points, and fault positions",
 "There are no tests for this package.",
 ["trusted_setup/trusted_setup.go"],
 [("chain check","trusted_setup/trusted_setup.go DownloadAndSaveAztecIgnitionSrs"),("sanity check","trusted_setup/trusted_setup.go sanityCheck")])
prop("C20","Circuit construction is isolated and deterministic under any schedule",
 "Building verifier circuits for several constraint builders in any order or concurrently gives each builder exactly the constraints it gets when built alone: shared per-builder state is created once, is free of data races and never crosses builders. Repeated construction yields the same constraint system, which accepts every valid proof and rejects every invalid proof of the same shape, identically in the R1CS, sparse and interpreting back ends.",
 ["schedules","histories","programs"],"all interleavings of constructions over several builders; all back ends",
 "Tests build one circuit at a time, sequentially, and mostly in the interpreting engine.",
 ["goldilocks/base.go","poseidon/goldilocks.go","verifier/util.go"],
 [("per-builder registry","goldilocks/base.go New"),("copy before accumulate","goldilocks/base.go MulAdd, MulAddNoReduce")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
