#!/usr/bin/env python3
"""Write MANIFEST.json. Usage: mkmanifest.py [LAST_DONE_PROPERTIES...]"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": "stateful model-based testing of protocol histories over generated parameters, keys, numbers and formats",
 "C02": "property-based testing: mutation of presentations, algebraic forgers and misbehaving provers against a reference verifier",
 "C03": "property-based testing: mixed, mutated and adversarially proven memberships against a reference verifier",
 "C04": "stateful property-based testing with misbehaving issuers against a model of what the user may store",
 "C05": "property-based testing of MACs against their defining equation, with algebraic forgeries",
 "C06": "property-based testing of the number encoding against a reference model and its inverse",
 "C07": "property-based testing of commitments against their defining equation, with near-miss openings",
 "C08": "property-based testing of encryption: round trips, homomorphic and metamorphic relations",
 "C09": "property-based testing of each proof: differential against a reference sigma protocol, mutation and cheating provers",
 "C10": "property-based testing of histories of presentations: searches for repeated, short, related or derivable values with known trapdoors",
 "C11": "property-based round-trip testing of every type in three formats, compared with independently constructed encodings",
 "C12": "structure-aware fuzzing of every decoder against independent grammars of the accepted encodings",
 "C13": "differential fuzzing of the C library, loaded at run time, against the Rust libraries",
 "C14": "fuzzing of the C library with guard pages, read-only inputs and poisoned memory over generated call histories",
 "C15": "differential testing against an independent implementation in both roles, and recorded data",
 "C16": "differential fuzzing of three builds of the C library against each other",
 "C17": "differential stateful fuzzing of the JavaScript functions against the Rust libraries",
 "C18": "property-based testing of generation with scripted generators against a reference model",
 "C19": "property-based testing with an inspecting allocator and inspected storage",
}
N = {
 "default": "Exploration: holds for all generated cases, which are counted and sampled in the evidence. Trusts curve25519-dalek, merlin, sha2, serde and bincode, and the reference implementation in harness/pbt/src/refimpl.rs.",
 "C10": "Exploration. Finds derivable, repeated or short randomness and values repeated between presentations; it cannot establish zero knowledge as such.",
 "C17": "Exploration. wasm/src/js.rs is compiled natively against a stand-in for wasm_bindgen whose JsValue holds JSON; the wasm code generator is not exercised.",
 "C19": "Exploration. Inspects the value's own storage and the heap blocks freed; copies left in registers or dead stack slots are out of its sight, as they are out of the property.",
}
done = sys.argv[1:] or [p["id"] for p in props]
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "hooks": {"guard": "none", "enable": "no hooks: the checks use public items only", "source_commits": []},
 "checks": [
  {"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
   "evidence_file": "evidence/%s.json" % p["id"], "technique": T[p["id"]], "level": "exploration",
   "level_note": N.get(p["id"], N["default"])} for p in props if p["id"] in done],
 "not_applicable": [{"property": p["id"], "reason": "not yet claimed: its check is being built"} for p in props if p["id"] not in done],
 "notes": "VERIF_SEED selects the seed of all cases. ./check replay FILE runs a recorded case again.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
