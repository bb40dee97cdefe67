#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NOTE = {
 "C01": "Sampled histories; the ledger of the simulated heap sees every allocation and release of the C interface and the library below it, checks size, alignment, canaries and poison, and counts what remains. Trusts the simulator's heap and the rule that only growth over repetitions is a leak.",
 "C02": "Sampled histories and fault placements (null, out of range, unknown codes, degenerate geometry, n-th allocation failing). Allocation failure is simulated as an unwinding panic; places where the standard library itself aborts are left out and counted.",
 "C03": "Sampled histories judged call by call against a small sequential model; computed results are compared with direct calls of the underlying library on the model's values.",
 "C04": "Sampled histories; each result is compared bit for bit with the same computation alone in a fresh process. Interleavings are sequentially consistent, at instrumented edges, allocations and callbacks.",
 "C05": "Sampled histories with injected allocation, storage and visitor failures; memory judged by the simulated heap's ledger, results by a fresh process.",
 "C06": "Sampled inputs, stop positions, nested computations and failures; complete enumeration taken from a fresh process, local/global composition and plain line crossings judged independently.",
 "C07": "Sampled inputs and storage kinds; user storage is a checked simulated component, the reference is the library's own polyline in a fresh process.",
 "C08": "Sampled selections and boolean results written, crashed, restored in a fresh process and compared with an independent model of the selected vertex sequence.",
 "C09": "Sampled values and I/O fault sequences (short, interrupted, torn, full, truncated) through simulated writers and readers.",
 "C10": "Sampled shape histories with failures and rebuilds; indexes judged against independently computed boxes, rebuilt twins compared bit for bit.",
 "C11": "Sampled event histories on the real application, headless; frames must complete and the application must come to rest.",
 "C12": "Sampled pointer histories with lost, duplicated, batched and delayed events; scene geometry compared frame by frame with a model of dragging.",
 "C13": "Sampled histories; what is drawn is compared with an application started in a pristine process from the same polylines, settings and persisted user interface memory. egui_plot is built with its serde feature for that.",
 "C14": "Sampled damage of stored values and parameters; work is counted in executed control-flow edges and bounded by a polynomial of the vertex count.",
}
CLAIMED = [c for c in os.environ.get("CLAIMED", "").split() if c] or json.load(open(f"{here}/tools/claimed.json"))
checks = []
for p in props:
    if p["id"] in CLAIMED:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']}",
            "thorough_cmd": f"./run.sh {p['id']} thorough",
            "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and histories)",
            "level": "exploration",
            "level_note": NOTE[p["id"]],
        })
PURE = "a pure function of its arguments: no schedule, time, I/O, failure or history for it to depend on, so simulation with fault injection would only be input sampling; whether results are stable under schedules and faults is C04-C07."
na = []
for p in props:
    if p["id"] not in CLAIMED:
        n = int(p["id"][1:])
        na.append({"property": p["id"], "reason": f"{PURE}" if n >= 15 else "not decided yet"})
hooks = json.load(open(f"{here}/tools/hooks.json")) if os.path.exists(f"{here}/tools/hooks.json") else None
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
if hooks:
    m["hooks"] = hooks
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
