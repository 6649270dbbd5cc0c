#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept in step with properties.jsonl)."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = {
 "C01": ("model-based property testing of policies, keys and ciphertexts against a boolean access model (pairing group and a transparent group)", ""),
 "C02": ("property testing of span programs against truth tables and an independent linear solver", ""),
 "C03": ("property testing of axis levels (all position pairs) against the level model", ""),
 "C04": ("stateful model-based testing of rotation histories", ""),
 "C05": ("property testing of delegation chains against the narrowed formula", "One recorded open finding: OR turned into AND."),
 "C06": ("property testing of widening delegation requests (metamorphic: parent cannot open => child cannot)", "Attacks tried are those expressible through the delegation API."),
 "C07": ("property testing with generated attacks on pooled key components", "Explores a family of recombinations; it is not a proof of collusion resistance."),
 "C08": ("property testing of pairs and batches of executions (calls, threads, processes) for repeated randomness", "Detects reuse, constants and equality, not statistical bias."),
 "C09": ("property testing with an independent GPSW implementation as the oracle (equations and cross decryption)", ""),
 "C10": ("property testing at the capacity boundary of policies", ""),
 "C11": ("property testing with spoiled requests (must be refused, state unaffected)", ""),
 "C12": ("round-trip property testing of every serializable type", ""),
 "C13": ("structured mutation fuzzing of every deserializer, with use of accepted objects, under an allocation meter", "Allocation bound is on single allocations."),
 "C14": ("differential testing against an independent codec, plus stored golden vectors", ""),
 "C15": ("property testing of encapsulation against a reference derivation from the master secret", ""),
 "C16": ("property testing of hybrid headers against the access model", ""),
 "C17": ("tamper fuzzing of hybrid headers", ""),
 "C18": ("round-trip property testing of blocks over sizes and maxima", ""),
 "C19": ("tamper fuzzing and metamorphic testing of blocks", ""),
 "C20": ("differential testing of the C interface against the native API", ""),
 "C21": ("property testing of output buffers with canaries and the retry protocol", ""),
 "C22": ("stateful and multi-threaded testing of cache handle histories against a model", "Schedules: generated ones with switches at every access to a static of the library, and those of the OS under generated thread programs."),
 "C23": ("stateful testing of the error channel against a per-thread model", ""),
 "C24": ("fuzzing of the C interface with malformed contents in crash-isolated workers", ""),
 "C25": ("property testing of the compiled Python module against the access model", ""),
 "C26": ("property testing of the compiled WebAssembly module under node against the access model", ""),
 "C27": ("property testing of the formula parser against a reference grammar", ""),
 "C28": ("property testing of group laws against exponent arithmetic", ""),
 "C29": ("metamorphic testing of sequences of similar operations (order, repetition, threads, fresh processes)", ""),
 "C31": ("property testing of the hybrid layer over six symmetric schemes (independent codec, recorded and failing schemes)", ""),
 "C32": ("property testing of failing and succeeding calls whose errors, captured output and buffers are searched for secret bytes in several notations", "Looks for runs of secret bytes in raw, hexadecimal, decimal, base64 and text notation."),
 "C30": ("property testing of repeated call histories under a counting allocator", "Growth that stops or that needs more than 32 repetitions to show is not seen."),
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
assert sorted(T) == sorted(props)
skip = os.environ.get("SKIP", "").split()
m = {"version": 1, "setup_cmd": "bash ./setup.sh",
     "checks": [{"property": p, "quick_cmd": f"bash ./check.sh {p}", "thorough_cmd": f"bash ./check.sh {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "exploration",
                 "level_note": ("Generated-input search with an explicit oracle; holds on everything explored, counts in the evidence. " + T[p][1]).strip()}
                for p in props if p not in skip],
     "not_applicable": [],
     "notes": "Replay a violation: bash ./check.sh --replay FILE. Known findings: known_findings.txt. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
