#!/usr/bin/env python3
# Source of /verif/MANIFEST.json: run to regenerate it.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MB = "property-based testing: generated operation histories against an independent reference simulator, shrunk to a replay file"
CLAIMED = {
 "C01": (MB, "random circuits up to 8 qubits over every gate and lazily/eagerly normalised engines; whole state compared up to one global phase"),
 "C02": (MB, "random histories up to 7 touched qubits (registers up to 100 qubits wide) over the whole operation table on QUnit over dense and paged engines"),
 "C03": (MB, "random Clifford circuits (and arbitrary gates, exact or refused) up to 7 touched qubits in registers up to 126 qubits wide"),
 "C04": (MB, "random histories up to 6 touched qubits on stabilizer-hybrid stacks (QUnit over it up to 100 qubits wide) and near-Clifford circuits with up to 7 (9) magic gates in registers up to 100 qubits"),
    "C06": (MB, "random histories up to 7 qubits and page sizes of 1..3 qubits and the default, with pages smaller than every multi-qubit operation"),
 "C08": (MB + "; frequency tests with Chernoff bounds", "measurements in every form among random gates; projections compared exactly, frequencies statistically"),
 "C09": (MB + "; frequency tests with Chernoff bounds", "sampling calls in both forms among random gates"),
 "C10": (MB, "up to four registers allocated, composed, split, disposed and cloned"),
 "C11": (MB, "every arithmetic operation on superposed and entangled registers against its basis-state map"),
 "C12": (MB, "every query against its definition on the reference amplitudes, and non-disturbance"),
 "C13": ("property-based testing: generated circuit-building histories against gate-by-gate application on an independent simulator, shrunk to a replay file", "up to three circuits of up to 5 qubits, up to 24 building steps, collapsing and not, near-Clifford and not"),
 "C19": ("property-based testing: generated operands against schoolbook arithmetic on digit vectors", "built-in 64/128-bit and big-integer 128..1024-bit configurations with 64- and 128-bit words; every operation and helper"),
 "C20": (MB + "; trajectories matched against all outcome records, with a z-score on the outcomes", "noise strengths 0..1 over a wrapped dense or separating simulator, up to 6 qubits and 250 gates"),
 "C21": (MB, "up to 5 inputs, all activation functions, permutation, superposed and entangled inputs; learning judged against a greedy oracle"),
 "C15": (MB, "call histories over up to five simulators (dense and separating stacks) with arbitrary caller ids, unknown and duplicate ids and handles injected"),
 "C14": ("property-based testing: generated states saved and reloaded, the reloaded simulator compared with an independent simulator over a generated future (near-Clifford streams: with the simulator saved from), shrunk to a replay file", "stabilizer, near-Clifford, dense, paged and separating simulators up to 126 (streams) or 8 (amplitudes) qubits"),
 "C16": (MB + "; one invalid argument injected per call", "110 operations, each argument position, on eight stacks of 4 to 7 qubits; TrySeparate on stacks that ignore it, and the state after a refused composite operation, are outside"),
 "C17": (MB, "Boolean logic, shifts, rotations and Fourier transforms on superposed registers"),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
man = {
 "version": 1,
 "setup_cmd": "make -s -C harness -j8 REPO=/repo OUT=/verif/build/rel",
 "checks": [],
 "not_applicable": [],
}
for p in props:
    if p in CLAIMED:
        t, n = CLAIMED[p]
        man["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        man["not_applicable"].append({"property": p, "reason": NA.get(p, "the technique applies; its check is still being built, so the property is not claimed yet")})
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
