"""Writes MANIFEST.json: one check per mon/checks/cNN.py, the other properties under not_applicable."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
TECH = {
    "C01": "runtime monitoring: round-trip monitor over random message histories, transport and lifecycle workloads",
    "C02": "runtime monitoring: soundness monitor (never accepts) over semantic mutations of genuine signed messages",
    "C03": "runtime monitoring: round-trip monitor over random MAC message histories",
    "C04": "runtime monitoring: soundness monitor over semantic mutations of genuine MACed messages",
    "C05": "runtime monitoring: plaintext-equality monitor over random encryption histories",
    "C06": "runtime monitoring: soundness monitor over semantic mutations of genuine encrypted messages",
    "C07": "runtime monitoring: differential monitor against an independent RFC 8152 reference, both directions",
    "C08": "runtime monitoring: completeness/secrecy monitor over random recipient sets",
    "C09": "runtime monitoring: derived-key conformance against an independent KDF-context reference",
    "C10": "runtime monitoring: byte-exactness monitor over decode/edit/encode histories with independent CBOR",
    "C11": "runtime monitoring: header round-trip and validation monitor with a typed oracle",
    "C12": "runtime monitoring: reference-model monitor of header lookup over random bucket states",
    "C13": "runtime monitoring: policy monitor over the whole operation x key restriction matrix",
    "C14": "runtime monitoring: differential monitor of keys against an independent CBOR view",
    "C15": "runtime monitoring: state invariant monitor over random key edit histories",
    "C16": "runtime monitoring: import/generation monitor with parameters recomputed independently",
    "C17": "runtime monitoring: curve arithmetic oracle over invalid keys, also under python -O/-OO",
    "C18": "runtime monitoring: registry monitor against transcribed IANA tables before, during and after use",
    "C19": "runtime monitoring: structure-aware fuzzing with a well-formedness monitor",
    "C20": "runtime monitoring: snapshots of caller data, repeat runs, and recorded concurrent histories against isolated runs",
    "C21": "runtime monitoring: nonce recorded at the AEAD boundary against an independent rule",
    "C22": "runtime monitoring: signed-byte and verdict monitor over attach/detach histories",
    "C23": "runtime monitoring: rule oracle over generated recipient structures, building and decoding",
    "C24": "runtime monitoring: digests and encodings against independently computed ones",
    "C25": "runtime monitoring: verdict monitor over generated certificate hierarchies with known ground truth",
    "C26": "runtime monitoring: output scanner for secrets over objects in every state",
}
NOTE = ("Held on the executions run, in which the monitors saw the events counted in the evidence file; nothing is said "
        "about inputs not generated. Trusts CPython, hashlib/hmac, OpenSSL via cryptography and the oracle code in "
        "/verif/mon (written from RFC 8152/9053 and the IANA registries, not from the code under test). ")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(ROOT, "mon/checks/%s.py" % pid.lower())):
        na.append({"property": pid, "reason": "no check written yet (runtime monitoring applies; work in progress)"})
        continue
    mod = importlib.import_module("mon.checks." + pid.lower())
    checks.append({"property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": TECH[pid], "level": "exploration",
                   "level_note": NOTE + "A case: " + " ".join(mod.RULE.split())})
out = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
       "notes": "Pure Python and a single process: no compiled code of pycose to instrument, so no compiler sanitizer "
                "applies; no hooks in /repo are needed. All /repo commits are fix: commits (known_findings.txt)."}
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
