#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

BP = ["bulletproofs/bp.go", "bulletproofs/bip.go", "bulletproofs/util.go", "bulletproofs/vector.go", "crypto/p256/p256.go", "crypto/p256/mycurve.go", "util/util.go"]
CC = ["ccs08/ccs08.go", "crypto/bbsignatures/bb.go", "crypto/bn256/bn256.go", "util/util.go"]

prop("C01", "Honest range proofs are accepted by every verifier that receives them",
 "For every supported range [0, 2^n) (n a power of two up to 32) and every secret in it, a proof made by the range prover is accepted by every verifier that receives its JSON encoding intact, whatever randomness was drawn. This stays true when the message is delayed, duplicated, reordered, re-encoded, retransmitted after losses, or re-read from storage after the prover restarted. Once faults stop, every such proof is accepted within a bounded number of retransmissions.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "all range sizes, all in-range secrets (bounds included), all values the entropy source can return, all delivery histories (drop, duplicate, reorder, delay, partition) and prover restarts",
 "Tests prove secrets 0, 3 and 18 for one range size only, once each, in one process, under uncontrolled randomness; the statement is about every size, secret, coin outcome and delivery history.",
 BP, [("range prover and verifier", "bulletproofs/bp.go Prove, Verify"), ("recursive inner-product argument", "bulletproofs/bip.go"), ("challenge derivation", "bulletproofs/util.go HashBP")],
 [("proof message", "the JSON document that travels from prover to verifier", "bulletproofs/bp.go BulletProof")], ["return value of Verify at each verifier node"])

prop("C02", "A secret outside the range never yields an accepted range proof",
 "When a prover runs the range prover on a secret outside [0, 2^n) (negative, equal to or above the upper bound, congruent to an in-range value modulo a power of two or the group order, or arbitrarily large), it either gets an error or a proof that every verifier rejects. Neither the randomness drawn, nor the delivery history, nor the number of attempts changes this.",
 ["inputs", "histories", "fault_sequences"],
 "all range sizes, all out-of-range secrets, all entropy outcomes, all delivery histories and repeated attempts",
 "Tests try -1, 2^32 and 2^32+1 for a single size, one attempt each; secrets that alias in-range values modulo the group order or 2^n, other sizes and other coin outcomes are never tried.",
 BP, [("bit decomposition of the secret and polynomial identity check", "bulletproofs/bp.go Prove, Verify, delta"), ("base-u decomposition", "util/util.go Decompose")], None, ["return value of Verify"])

prop("C03", "A proof altered in transit is never accepted",
 "If the bytes of range-proof messages are corrupted, truncated, mixed with other proofs, or algebraically re-randomised between prover and verifier, the verifier accepts what it decodes only if its statement and all its commitments and responses are (modulo the group order) exactly those of one honestly produced proof. This covers altering any single element, exchanging elements inside a proof, splicing parts of different valid proofs, and jointly shifting several elements using public data.",
 ["inputs", "histories", "fault_sequences"],
 "all corruption, splice, replay and mauling faults the network can apply to any set of in-flight proofs",
 "No test ever verifies an altered proof.",
 BP, [("verification equations", "bulletproofs/bp.go Verify"), ("link between the outer proof and its inner-product argument", "bulletproofs/bp.go Verify, bulletproofs/bip.go Verify"), ("what the challenges cover", "bulletproofs/util.go HashBP")], None, ["return value of Verify on delivered bytes"])

prop("C04", "No received message can crash a verifier",
 "Whatever JSON document a verifier decodes into a range proof, a generic interval proof or an inner-product proof (missing or null elements, wrong lengths or sizes, negative or oversized numbers, points that are not on the curve), verification terminates with a verdict of false, an error, or true for a valid proof, and never panics or exhausts memory. A verifier that received such a message still handles the next messages correctly.",
 ["inputs", "histories", "fault_sequences"],
 "all decodable documents produced by truncating, nulling, resizing, retyping or corrupting messages, in any order with valid traffic",
 "Tests only verify freshly built, well-formed proofs.",
 ["bulletproofs/bp.go", "bulletproofs/bip.go", "bulletproofs/bprp.go", "crypto/p256/p256.go"], [("structural validation before verification", "bulletproofs/bp.go Verify; bulletproofs/bip.go Verify; bulletproofs/bprp.go Verify")], None, ["panics, errors and verdicts of Verify"])

prop("C05", "Verifying a proof is repeatable and leaves the proof unchanged",
 "Verifying a proof any number of times, from any number of threads and in any interleaving, always gives the same verdict. Verification changes neither the proof, nor its JSON encoding, nor any parameters or group elements it shares with its owner, so a verified proof can be forwarded and is accepted by the next verifier.",
 ["schedules", "histories"],
 "all sequences and interleavings of verify, encode, forward and re-verify on one shared proof object",
 "Every test verifies a proof object exactly once and never looks at it again.",
 ["bulletproofs/bip.go", "bulletproofs/bp.go", "bulletproofs/bprp.go", "ccs08/ccs08.go", "crypto/p256/p256.go"], [("verifier works on its own copies of points", "bulletproofs/bip.go Verify; bulletproofs/bp.go Verify")],
 [("proof object", "the decoded or freshly made proof shared by several callers", "bulletproofs/bip.go InnerProductProof")], ["verdicts and encodings before and after each verification"])

prop("C06", "Range provers and verifiers sharing parameters do not disturb each other",
 "When several threads set up, prove, encode and verify range or generic interval proofs at the same time, sharing setup parameters, secrets and proof objects, every operation returns what it would have returned alone, without data races. The shared parameters and secrets are left exactly as they were.",
 ["schedules"],
 "all interleavings of concurrent setup, prove, encode, decode and verify operations that share parameters, secrets and proofs",
 "All tests are sequential; no schedule is ever explored.",
 BP + ["bulletproofs/bprp.go"], [("operations own their intermediate values and only read shared inputs", "bulletproofs/bp.go, bulletproofs/bip.go, crypto/p256/p256.go")],
 [("setup parameters", "generators shared by all callers", "bulletproofs/bp.go BulletProofSetupParams")], ["verdicts, returned proofs, parameter fingerprints, unsynchronised accesses"])

prop("C07", "Every operation fails closed when the entropy source fails",
 "If the system's random source reports an error or end of input at any read during key generation, setup or proof generation (range, generic interval, set membership, base-u range, interval), the operation returns an error instead of a proof or key, and does not panic. Reads that merely return fewer bytes than asked change nothing in the result, and after the source recovers the same operation succeeds with the same shared parameters.",
 ["fault_sequences", "histories"],
 "all positions in the sequence of random reads at which the source can fail, all short-read patterns, recovery afterwards",
 "No test can make the random source fail; a prover that ignores a failed read passes every test.",
 ["bulletproofs/bp.go", "bulletproofs/bprp.go", "ccs08/ccs08.go", "crypto/bbsignatures/bb.go", "crypto/bn256/bn256.go"], [("propagation of random-source errors", "bulletproofs/bp.go Prove, sampleRandomVector; ccs08/ccs08.go SetupSet, SetupUL, ProveSet, ProveUL, Prove; crypto/bbsignatures/bb.go Keygen")], None, ["returned errors, returned proofs, panics"])

prop("C08", "Proofs are freshly randomised and carry no secret",
 "Two proofs made with independent randomness share no commitment and no response even for the same secret, and every random scalar drawn while proving influences the proof, with at least as many drawn as the protocol has independent blinding values. No element of a finished proof equals the secret, a random scalar drawn to blind it, or lets the secret be computed from one proof element and public data.",
 ["inputs", "fault_sequences", "histories"],
 "all secrets and all entropy sequences, compared pairwise and draw by draw",
 "No test compares two proofs or looks inside one; leaking a nonce or reusing a blinding value passes all tests.",
 ["bulletproofs/bp.go", "bulletproofs/bprp.go", "ccs08/ccs08.go"], [("sampling of blinding values", "bulletproofs/bp.go Prove, sampleRandomVector; ccs08/ccs08.go ProveSet, ProveUL")], None, ["contents of the proof versus the random scalars handed out by the simulated entropy source"])

prop("C09", "Generic interval proofs are accepted exactly for secrets in [A, B)",
 "For all bounds A < B (negative ones included) at most 2^32 apart, a generic proof made by the interval prover for a secret is accepted by every verifier that receives it if A <= secret < B. For every other secret it is rejected or not produced.",
 ["inputs", "histories", "fault_sequences"],
 "all interval bounds and secrets, all entropy outcomes and delivery histories",
 "Tests use the single interval [18, 200) and five secrets.",
 ["bulletproofs/bprp.go", "bulletproofs/bp.go"], [("reduction of [A,B) to two power-of-two range proofs", "bulletproofs/bprp.go SetupGeneric, ProveGeneric, Verify")], None, ["return value of Verify"])

prop("C10", "A generic interval proof needs two valid halves about one secret",
 "A generic interval proof is accepted only if both of its halves are valid proofs of the full 32-bit range, and only if they are about the same secret. Replacing, swapping out or corrupting either half, or combining halves of proofs for different secrets, is rejected.",
 ["histories", "fault_sequences", "inputs"],
 "all ways of recombining, replaying and corrupting halves of any set of generic proofs in flight",
 "No test ever combines or alters halves.",
 ["bulletproofs/bprp.go"], [("conjunction of the two verifications", "bulletproofs/bprp.go Verify")], None, ["return value of Verify"])

prop("C11", "A dishonest prover cannot get a false range statement accepted",
 "A prover that deviates from the protocol (chooses its own generators, adapts commitments after seeing challenges, replaces the inner argument by an unrelated valid one, exploits related challenges, uses identity elements, or lies about the bits of its secret) never gets a message accepted whose value commitment opens to a number outside the claimed range.",
 ["programs", "inputs", "histories"],
 "the simulator's library of dishonest-prover strategies, with all their random choices, range sizes and target values",
 "Tests contain no dishonest prover.",
 BP, [("canonical generators are recomputed by the verifier", "bulletproofs/bp.go Verify"), ("challenges cover the value commitment and are independent", "bulletproofs/util.go HashBP"), ("inner argument is tied to the outer proof", "bulletproofs/bp.go Verify")], None, ["return value of Verify on messages of dishonest nodes"])

prop("C12", "Set membership: members are accepted, non-members refused",
 "For every published set of 64-bit integers, every member (negative, zero and repeated ones included) and every commitment randomness, the membership prover's proof is accepted by every verifier holding the parameters. For any integer that is not in the set the prover returns an error, and a proof is never accepted under parameters of another issuer.",
 ["inputs", "histories", "fault_sequences"],
 "all sets, members and non-members, issuers, commitment randomness and entropy outcomes, and delivery histories",
 "One test uses one four-element set and one member.",
 CC, [("signature per member and proof of knowledge of a signature", "ccs08/ccs08.go SetupSet, ProveSet, VerifySet"), ("signatures", "crypto/bbsignatures/bb.go")], None, ["errors of the prover and return value of the verifier"])

prop("C13", "Forged or altered membership and base-u range proofs are rejected",
 "A set-membership or base-u range message that was altered, spliced, re-randomised with public data, or fabricated without knowing a signature (freely chosen challenge, identity elements, elements chosen after the challenge) is never accepted, unless its elements are exactly those of one honest proof.",
 ["inputs", "programs", "fault_sequences", "histories"],
 "all element-level corruptions, splices and maulings of in-flight proofs and the simulator's forging strategies",
 "No test verifies anything but an untouched honest proof.",
 CC, [("verifier recomputes the challenge and rejects degenerate elements", "ccs08/ccs08.go VerifySet, VerifyUL"), ("challenge coverage", "util/util.go Hash, HashSet")], None, ["return value of VerifySet and VerifyUL"])

prop("C14", "Pairing-based range and interval proofs are accepted exactly in range",
 "For all bases u > 1 and lengths l, a base-u proof for x is accepted if 0 <= x < u^l and is otherwise refused or rejected; for all intervals 0 <= a <= b with b > 1, an interval proof for x is accepted if a <= x < b and is otherwise refused or rejected. An interval proof whose two halves commit to different secrets is rejected.",
 ["inputs", "histories", "fault_sequences"],
 "all bases, lengths, intervals, secrets (boundaries and carries included), commitment randomness and entropy outcomes, delivery histories and recombined halves",
 "Tests use one secret in one base/length and one secret in one interval, and never an out-of-range secret.",
 CC, [("digit-wise membership proofs", "ccs08/ccs08.go SetupUL, ProveUL, VerifyUL"), ("reduction of [a,b) to two base-u proofs", "ccs08/ccs08.go Setup, Prove, Verify")], None, ["return value of VerifyUL and Verify"])

prop("C15", "Membership and range provers sharing issuer parameters are independent",
 "When several threads prove and verify set-membership, base-u or interval proofs at the same time with the same issuer parameters and commitment randomness, or verify the same proof object, every operation returns what it would have returned alone, without data races. The shared parameters and the package's shared constants keep their values.",
 ["schedules"],
 "all interleavings of concurrent prove and verify operations that share parameters and proofs",
 "All tests are sequential.",
 CC + ["crypto/bn256/curve.go", "crypto/bn256/twist.go", "crypto/bn256/optate.go"], [("operations own their intermediate values and only read shared inputs", "ccs08/ccs08.go; crypto/bn256")], [("shared constants", "generators and their pairing computed once", "util/util.go G1, G2, E")], ["verdicts, parameter fingerprints, unsynchronised accesses"])

prop("C16", "Issued signatures verify, and only for their message and key",
 "Every key pair the generator returns without error produces, for every message it can sign, a signature that verifies under that public key, and no key generation that succeeded reports an error. A signature is rejected for any other message, any other key, or after any alteration on the wire, and signing a message for which no signature exists returns an error.",
 ["inputs", "fault_sequences", "histories"],
 "all entropy outcomes of key generation (zero and boundary keys included), messages, and wire corruptions",
 "One test signs one message with one random key and discards every error.",
 ["crypto/bbsignatures/bb.go", "crypto/bn256/bn256.go"], [("key generation, signing and verification", "crypto/bbsignatures/bb.go Keygen, Sign, verify")], None, ["errors and verdicts"])

prop("C17", "Pairing-group elements keep their value under any use, alone or shared",
 "Through any history of group operations (with results overwriting operands, identities, equal and opposite operands, negative and boundary scalars), every G1, G2 and GT element equals the power of the generator that a simple exponent model predicts, and the pairing is bilinear and non-degenerate on all of them. Reading an element (encoding, printing, comparing, pairing, using it as an operand) never changes its value, and threads may read a shared element in any interleaving without disturbing each other.",
 ["histories", "schedules"],
 "all histories of operations over aliased registers and all interleavings of readers of shared elements",
 "Tests check a handful of fixed identities on fresh elements; no histories, aliasing, or concurrent readers.",
 ["crypto/bn256/bn256.go", "crypto/bn256/curve.go", "crypto/bn256/twist.go", "crypto/bn256/gfp2.go", "crypto/bn256/gfp6.go", "crypto/bn256/gfp12.go", "crypto/bn256/optate.go"], [("Jacobian group law, lazy affine normalisation, temporary pools", "crypto/bn256/curve.go, twist.go"), ("optimal ate pairing", "crypto/bn256/optate.go")], [("projective representation", "elements hold non-normalised coordinates that readers normalise", "crypto/bn256/curve.go curvePoint; crypto/bn256/twist.go twistPoint")], ["encodings of all registers against the model after every step"])

prop("C18", "Commitment-curve points keep their value under any history of operations",
 "Through any history of add, double, negate, scalar and base multiplications on secp256k1 points (results overwriting operands, shared coordinates, the point at infinity, negative, zero and oversized scalars), every point equals what a simple exponent model predicts. No operation changes a point other than its receiver or changes a scalar, including when other threads read the same points.",
 ["histories", "schedules"],
 "all histories of operations over aliased points and all interleavings of threads sharing operands",
 "Tests cover five single operations on fresh points, never the identity on the right, negation into another variable, or aliasing.",
 ["crypto/p256/p256.go", "crypto/p256/mycurve.go"], [("group operations on shared coordinate objects", "crypto/p256/p256.go")], [("coordinate sharing", "results may share coordinate objects with operands", "crypto/p256/p256.go Add, Multiply")], ["coordinates of all registers against the model after every step"])

prop("C19", "A crash in mid-operation never damages shared or stored state",
 "If an operation (setup, prove, verify, encode) dies at an arbitrary point, the parameters, secrets and proofs it shared with others are as usable as before. A prover that restarts from storage whose last writes were lost, torn or corrupted either serves proofs identical to ones it had finished or data that fails to decode or is rejected, and everything it had durably stored is still accepted.",
 ["crash_points", "fault_sequences", "histories"],
 "all points at which an operation can be abandoned, all crash points of the store relative to writes and syncs, and all torn, lost or flipped writes",
 "No test abandons an operation or goes through storage.",
 BP + ["ccs08/ccs08.go"], [("inputs are read-only during operations; proofs are self-contained documents", "bulletproofs/bp.go, ccs08/ccs08.go")], None, ["verdicts after recovery, fingerprints of shared state"])

prop("C20", "Decoding pairing-group bytes yields a valid group element or fails",
 "For every byte string received from the wire, decoding a G1 or G2 element either reports failure or yields an element of the prime-order group, never a point off the curve or outside the subgroup, and never panics. Encoding and decoding any element, identities included, returns an equal element, however the element was computed or delivered (truncated, extended, corrupted, duplicated).",
 ["inputs", "fault_sequences", "histories"],
 "all wire corruptions of encoded elements and all elements reachable by group operations",
 "Tests round-trip the generator and infinity only and never decode a corrupted string.",
 ["crypto/bn256/bn256.go", "crypto/bn256/curve.go", "crypto/bn256/twist.go"], [("curve and subgroup check on decode", "crypto/bn256/bn256.go Unmarshal; IsOnCurve in curve.go and twist.go")], None, ["result of Unmarshal"])

prop("C21", "Only true inner-product arguments are accepted",
 "Verify accepts an inner-product argument for a commitment P and a number c only if its prover knows vectors a and b with P = g^a h^b u^c and <a,b> = c: whatever a dishonest prover chooses, and in whatever order (the commitment, c or messages of the rounds after it knows challenges, vectors whose product is another number, a commitment or parameters of its own), and however messages are altered, duplicated, reordered or mixed, no argument for a false statement is accepted. Arguments of honest provers for any vectors are accepted wherever and however often they arrive.",
 ["inputs", "histories", "fault_sequences"],
 "all vectors of supported lengths, all mixtures and alterations of honest messages, and all messages a prover without an opening can compute after seeing any challenges",
 "Tests prove and verify two fixed vectors; no test verifies a false statement.",
 ["bulletproofs/bip.go"], [("challenge binds statement and rounds", "bulletproofs/bip.go hashIP, hashRound"), ("final relation of the folded commitment", "bulletproofs/bip.go verifyRounds")], [("round challenges", "each round's challenge depends on everything sent before", "bulletproofs/bip.go verifyRounds, computeBipRecursive")], ["verdict of Verify against the simulator's record of the prover's openings"])

# --- properties this technique cannot decide: pure functions of their input
prop("C30", "Two's-complement byte conversion round-trips every integer",
 "Converting any integer to its two's-complement byte form and back gives the same integer.",
 ["inputs"], "all integers", "Tests convert eight sample values.",
 ["util/byteconversion/conversion.go"], [("conversion", "util/byteconversion/conversion.go ToByteArray, FromByteArray")])
prop("C31", "The comma-separated integer parser accepts exactly its grammar",
 "A byte string parses if and only if it is a comma-separated list of decimal integers, and the parsed values are those integers in order.",
 ["inputs"], "all byte strings", "Tests parse about fifteen strings.",
 ["util/byteconversion/parse.go"], [("parser", "util/byteconversion/parse.go ParseInput, ConvertToBigInt")])
prop("C32", "Base-u decomposition recomposes to the input",
 "For every base u > 1 and length l, the digits of every x in [0, u^l) lie in [0, u) and recompose to x.",
 ["inputs"], "all x, u, l", "One test decomposes 925.",
 ["util/util.go"], [("decomposition", "util/util.go Decompose")])
prop("C33", "Hash-to-curve is deterministic, on the curve and collision free in use",
 "Hashing a label to the curve always gives the same point on the curve, and the labels used for generators give pairwise distinct points.",
 ["inputs"], "all labels", "One test hashes one label and checks nothing about the result.",
 ["crypto/p256/p256.go", "bulletproofs/bp.go"], [("hash to curve", "crypto/p256/p256.go MapToGroup")])
prop("C34", "Setup accepts exactly the documented ranges",
 "Range setup succeeds for range ends 2^n with n a power of two up to 32 and returns an error, without panicking, for every other value; interval setup rejects reversed bounds.",
 ["inputs"], "all range ends and bounds", "Tests try 2^32 and one reversed interval.",
 ["bulletproofs/bp.go", "bulletproofs/util.go", "ccs08/ccs08.go"], [("argument validation", "bulletproofs/bp.go Setup, IsPowerOfTwo; ccs08/ccs08.go Setup")])
prop("C35", "Vector and modular helpers compute the stated algebra",
 "Vector addition, subtraction, products, powers and modular inverse and power agree with their mathematical definition modulo the group order, and report length mismatches as errors.",
 ["inputs"], "all vectors and operands", "Tests use one small example per helper.",
 ["bulletproofs/vector.go", "bulletproofs/util.go", "util/bn/bn.go"], [("helpers", "bulletproofs/vector.go, bulletproofs/util.go, util/bn/bn.go")])
prop("C36", "Proving time does not depend on the secret",
 "The time and memory-access pattern of proof generation is independent of the secret and of blinding values.",
 ["inputs"], "all secrets", "No test measures time.",
 ["crypto/bn256/curve.go", "crypto/p256/p256.go"], [("scalar multiplication", "crypto/bn256/curve.go Mul")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
