"""Writes MANIFEST.json from checks.py and properties.jsonl (run by hand when checks change)."""
import json
from checks import CHECKS
T = {
 "C01": "PBT + fuzzing against an independent AES-CTR model", "C02": "stateful PBT + fuzzing of sessions against a keystream-position model",
 "C03": "PBT + fuzzing against an independent CFB-128 model", "C04": "stateful PBT + fuzzing of sender/receiver sessions with loss and damage against a feedback-register model",
 "C05": "differential PBT + fuzzing: one call history on every build", "C06": "PBT + fuzzing against an independent AEGIS-128 model and round trips",
 "C07": "PBT + fuzzing with generated damage to packets (fault injection), acceptance oracle", "C08": "PBT + fuzzing against an independent RFC 8439 model",
 "C09": "stateful PBT + fuzzing of call histories against a pure model", "C10": "PBT + fuzzing against an independent HC-128 model",
 "C11": "PBT + fuzzing against an independent RFC 4503 model, with carry-edge generators", "C12": "PBT + fuzzing against an independent Sosemanuk model",
 "C13": "stateful PBT + fuzzing of sessions against keystream-position models", "C14": "PBT + fuzzing against an independent table-driven Serpent model",
 "C15": "PBT + fuzzing against an independent SHA-256 model", "C16": "PBT + fuzzing against an independent HMAC model, stateful histories",
 "C17": "PBT + fuzzing with mutated tags, messages and keys, iff oracle", "C18": "stateful PBT + fuzzing over message splits against an independent MD5 model",
 "C19": "PBT + fuzzing against an independent FIPS 46-3 model", "C20": "PBT + fuzzing: metamorphic relations on the keystream",
 "C21": "PBT + fuzzing: canonical form and round trip", "C22": "PBT over keys, messages and homomorphic programs, algebraic oracle",
 "C23": "PBT over sizes and seeds, algebraic invariants of keys", "C24": "model-based PBT of homomorphic programs", "C25": "metamorphic PBT over contexts, messages and leftover memory",
 "C26": "PBT + fuzzing on exact-size guarded buffers under AddressSanitizer and small stacks", "C27": "stateful PBT + fuzzing of a channel with an attacker",
 "C28": "stateful PBT of interleaved, copied and concurrent contexts, with ThreadSanitizer", "C29": "differential PBT + fuzzing over leftovers, placements, compilers and optimisation levels",
 "C31": "model-based PBT of multi-user homomorphic programs",
 "C33": "stateful PBT: generated call histories repeated under an allocation count that must stop growing", "C34": "stateful PBT + fuzzing of call histories with the standard streams and descriptors watched",
 "C35": "metamorphic stateful PBT + fuzzing: in-place calls against two-buffer calls",
 "C36": "metamorphic and model-based PBT of homomorphic programs: results over their operands against results apart",
}
NOTE = "Randomised search, not proof: says nothing about inputs outside the generators described in DESIGN.md. Trusts the reference models (validated against published vectors by setup_cmd), the compilers and qemu. "
X = {"C23": "Key sizes up to about 700 bits in the thorough tier. One listed finding: the generator is never seeded.", "C25": "One listed finding: the mask also depends on the position in the session.",
 "C28": "Schedules are those the scheduler happens to produce; ThreadSanitizer adds the races it can see in them.", "C07": "Forgeries are generated changes of real packets; it does not measure the strength of the tag.",
 "C26": "AddressSanitizer and canaries see only accesses that leave the buffers; lengths up to 600 MB."}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
NA = {"C30": "Constant-time behaviour is a property of machine-level traces, not of outputs: no generated-input oracle over the library's results can decide it, and timing measurements in a shared sandbox would raise false alarms. (The table implementations are known not to have it.)",
      "C32": "The code is an unfinished stub that does not compile and has no caller; there is no behaviour to generate inputs for."}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in CHECKS],
     "notes": "No hooks in /repo: every check compiles the library's own sources. KNOWN_FINDINGS.txt lists findings and repairs. check.py ID --replay FILE re-runs a replay file."}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}", "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "exploration", "level_note": (NOTE + X.get(p, "")).strip()})
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
