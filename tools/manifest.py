#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
T = {
 "C01": ("differential + metamorphic PBT: generated configurations, honest prover, whole verifier", "An independent plonky2 prover/verifier (from the published algorithm, cross-checked against the repository's real proofs) is the oracle; acceptance is decided on a direct-evaluation gnark engine in three range-check modes."),
 "C02": ("adversarial PBT: generated forgeries x generated malicious hints against a reference verifier", "Forgeries come from cheating provers, tampering and malicious hint outputs; the oracle is the reference verifier. Cryptographic assumptions (hash collisions) are trusted."),
 "C03": ("differential PBT against big-integer arithmetic", "Boundary-biased operands in all range-check modes; the oracle is math/big."),
 "C04": ("adversarial PBT: generated malicious hint outputs, uniqueness oracle", "Hint outputs are replaced by solutions of the gadget's own equations over BN254 and by perturbations; any accepted run must give the canonical result."),
 "C05": ("PBT with boundary generators and malicious decompositions", "Accept exactly x<2^n in native, commit and bit-decomposition modes, also on the compiled systems."),
 "C06": ("differential PBT against a reference extension field, plus malicious hints", "Reference extension/algebra arithmetic over uint64/big.Int."),
 "C07": ("differential PBT against reference Poseidon, plus malicious hints", "Reference permutation from the published constants, cross-checked with known vectors."),
 "C08": ("differential PBT against reference BN254 Poseidon", "Reference permutation and packing, cross-checked with the repository's vectors."),
 "C09": ("model-based stateful PBT: generated call histories against a sponge model", "The model is plonky2's duplex challenger over the reference permutation."),
 "C10": ("differential PBT over gate parameters and evaluation points against reference gates", "Reference constraint formulas written from plonky2's definitions."),
 "C11": ("generative grammar fuzzing of gate identifiers against a reference parser", "Identifier strings: exact, mutated, nested, unknown."),
 "C12": ("differential PBT of selector filtering against a reference evaluation", "Generated selector layouts, groups and openings."),
 "C13": ("PBT: generated identities, single-component perturbation, reference vanishing check", "Openings satisfying the identity are constructed algebraically; perturbations break it."),
 "C14": ("PBT of FRI claims: honest prover, generated cheats and tampering, reference FRI verifier", "Generated reduction strategies, codewords, queries; oracle is the reference FRI verifier."),
 "C15": ("round-trip and differential fuzzing of the JSON loaders", "Generated documents in many JSON styles; expected variables derived independently of the loader; malformed documents must be refused."),
 "C16": ("structured fuzzing of proof shapes against the circuit description", "Every list of a proof lengthened, shortened, swapped; oracle: the shape the description implies."),
 "C17": ("stateful PBT: histories of builds, drawn interleavings, race-detected goroutine schedules, aliasing monitors", "Constraint-system bytes and operation traces compared with a solo build; argument memory compared before and after; goroutine schedules are sampled, not enumerated."),
 "C18": ("PBT: one proof element replaced by a non-canonical encoding, malicious hints allowed", "Every position of the proof is drawn; every non-canonical representative class."),
 "C19": ("differential PBT of the transcript against a reference challenger, plus forged challenges", "Reference Fiat-Shamir transcript; binding by perturbing each component."),
 "C20": ("model-based PBT with fault injection: generated ceremonies run through the download in a child process", "The oracle is the generator's own knowledge of the ceremony; the HTTP transport is a stand-in that serves generated files; gnark-ignition-verifier and gnark-crypto are trusted."),
 "C21": ("PBT of Merkle paths: generated trees, tampered leaves, siblings, indices, caps", "Reference Merkle tree over BN254 Poseidon; collisions trusted away."),
 "C23": ("PBT with fault injection: the command-line program run on generated circuit files and options", "Setup and proving are replaced by stand-ins (real keys and proofs of a tiny circuit, made only if the real witness solves the real system); gnark's verification, key types and exports are trusted."),
 "C22": ("differential PBT: random operation programs compiled to R1CS and Plonk vs direct evaluation", "gnark's solver decides satisfaction of the compiled system; gnark itself is trusted."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                 "technique": T[i][0], "level": "exploration", "level_note": T[i][1] + " Assurance is that of the cases generated (counts in the evidence)."} for i in ids if i not in NA],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
