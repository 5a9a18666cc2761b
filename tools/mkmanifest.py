"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = ("a pure function of its input: no schedule, clock, I/O, fault or "
        "history can change the outcome, so there is nothing for a simulator "
        "to decide; sampling inputs would be property testing, not simulation")
NOTE = {
 "N01": PURE + " (C03 uses this mathematics as the reference model for what history must not change)",
 "N02": PURE, "N03": PURE, "N04": PURE, "N05": PURE,
 "N06": PURE + "; the polygon module additionally cannot be imported as part of the package",
 "N07": PURE + " (C07 covers writes to the shipped constants)",
 "N08": PURE,
}
LEVEL_NOTE = {
 "C13": "Seeded stages of small models (at most 5 spins or 8 single-particle states) divided among threads, worker interpreters and checkpoints; oracle is direct construction and exact diagonalisation of the model; evidence, not proof.",
 "C07": "Seeded histories of calls and writes over a catalogue of ~65 recipes (~1100 questions); oracle is the same question asked of fresh objects in a process where nobody wrote; evidence, not proof.",
 "C08": "Seeded histories over a fixed pool of ~90 identities at 4 precisions with two real peer interpreters on a simulated network; oracle is the relation in an undisturbed process plus exact/far coordinate rules; evidence, not proof.",
 "C01": "Samples histories, interleavings and faults against an exhaustive-enumeration model; a clean batch is evidence, not proof. Trusts numpy/scipy, the point set of preemptions (only where CPython can switch) and the generated lattice family.",
 "C02": "Samples interleavings and faults; history checked for linearizability against a one-value register and every matrix against an independent construction.",
}
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "sim", "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "bin/check %s" % p["id"],
            "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "deterministic simulation with fault injection (seeded schedules and faults over the real code, reference-model oracle)",
            "level": "exploration",
            "level_note": LEVEL_NOTE.get(p["id"], "Seeded sampling of schedules, histories and faults against an independent reference model; evidence, not proof. Trusts numpy/scipy/numba and CPython."),
        })
    else:
        na.append({"property": p["id"], "reason": NOTE.get(p["id"], "check not built yet")})
m = {
 "version": 1,
 "setup_cmd": "bin/setup",
 "hooks": {"guard": "HAMILTONIANPY_SIM (no hook was needed: the seams are PEP 669 events, the time module, open() and the callers' own objects, all taken from outside /repo)",
           "enable": "nothing to enable; checks import /repo's working tree unmodified", "source_commits": []},
 "checks": checks,
 "not_applicable": na,
 "notes": "All checks share sim/engine.py (scheduler, fault points) and sim/runner.py (seeds, minimisation, replay, evidence). Replay: bin/check <ID> --replay <file>.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
