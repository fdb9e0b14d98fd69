#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing against a brute-force framing model", "C02": "property-based testing: reference model + metamorphic relation over all extractors",
 "C03": "property-based testing: reference tapers + differential over window descriptions", "C04": "property-based round-trip, monotonicity and formula checks",
 "C05": "property-based testing against a reference bank", "C06": "property-based testing against a reference bank and the mirrored mel bank",
 "C07": "property-based testing against a reference bank", "C08": "property-based testing against an analytic reference response",
 "C09": "property-based metamorphic testing (scaled vs. constant bank)", "C10": "fuzzing of valid/invalid parameter combinations against an acceptance oracle",
 "C11": "property-based testing against a reference pipeline with error bounds", "C12": "property-based testing against a reference pipeline with error bounds",
 "C13": "property-based testing against a reference pipeline with error bounds", "C14": "property-based metamorphic testing of option composition",
 "C15": "property-based metamorphic testing (bank passed vs. built, arbitrary banks)", "C16": "property-based metamorphic testing (gain)",
 "C17": "property-based metamorphic testing (cut, shift, garble)", "C18": "fuzzing with injected silence against a finiteness invariant",
 "C19": "stateful (history-based) property testing of purity", "C20": "differential property testing over sample types and containers",
 "C21": "property-based testing against a reference model of every stage", "C22": "property-based testing against normal equations and optimality",
 "C23": "property-based testing against an independent cepstrum", "C24": "property-based testing against a reference pipeline",
 "C25": "property-based testing against direct inner products", "C26": "property-based testing against a reference pipeline",
 "C27": "property-based testing against reference helpers", "C28": "property-based testing against the spectrum and known tones",
 "C29": "property-based testing against brute-force YIN and known tones", "C30": "property-based testing against reference statistics",
 "C31": "property-based metamorphic testing (time-axis rescaling)", "C32": "property-based testing: bin alignment invariant and tone response",
 "C33": "property-based testing of figure contents", "C34": "property-based testing of shapes, types and finiteness"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
                   "level_note": "Random generated-input search with Hypothesis (seeded by VERIF_SEED) of the real code in /repo's working tree against an explicit oracle; failures are shrunk and replayed in a fresh process. "
                                 "It can miss a violation outside the generated inputs. Trusts numpy/scipy, the reference computations in vp/ref.py and vp/pipe.py, and the comparison tolerances stated in DESIGN.md."})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed: the library is pure Python and is imported from /repo's working tree. The fix: commits in /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
