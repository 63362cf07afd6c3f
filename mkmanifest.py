#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "property-based testing against an independent reference key generation",
 "C02": "property-based differential testing against an independent reference signer, length sweep and digest-position steering",
 "C03": "property-based testing with signatures crafted by a reference model (valid by construction)",
 "C04": "mutation-based property testing with a reference verifier as oracle",
 "C05": "stateful property-based testing of request sequences against a byte-string model",
 "C06": "stateful property-based testing of piece sequences against a verdict model (metamorphic)",
 "C07": "model-based stateful testing of histories, randomised basic-block schedules, threads",
 "C08": "model-based stateful testing with misplaced calls",
 "C09": "fuzzing of API histories under AddressSanitizer/UBSan and guard pages",
 "C10": "property-based testing on a painted stack with allocator and static-data monitors",
 "C11": "exhaustive configuration enumeration with differential property-based testing under AddressSanitizer",
 "C12": "property-based differential testing against an independent SHA-2",
 "C13": "property-based differential testing against an independent SHAKE-256, three variants",
 "C14": "property-based testing with injected random-source failures and repetition (metamorphic)",
 "C15": "property-based testing against the specification's size table with canaries",
 "C16": "stateful property-based testing: invariant over the history of signatures of one key, messages steered to meet",
 "C17": "property-based testing of the measuring tool against an independent painted-stack measurement",
 "C18": "property-based testing with a deterministic work counter (metamorphic: the same work divided differently)",
 "C20": "property-based testing: twin runs that differ in secrets only must report the same execution and address trace (non-interference)",
 "C21": "property-based differential testing of cross-compiled builds (i386, big-endian MIPS in an interpreter) against the reference model",
 "C19": "property-based testing: generated programs linked against the package, symbols and output compared",
}
N = {
 "C10": "RAM is measured in the 12 minimal configurations with the pinned compiler; exploration over messages and streaming patterns, not a static bound.",
 "C11": "All 144 configurations are enumerated; within each, operations are sampled.",
}
T = dict(sorted(T.items()))
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none", "enable": "no hooks: the checks compile the unmodified sources of /repo", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}", "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration",
                 "level_note": N.get(p, "Generated cases against an explicit oracle; a finite sample, see the evidence file for counts and configurations.")} for p, t in T.items()],
     "not_applicable": []}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
