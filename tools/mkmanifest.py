#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
# property: (technique, level, note)
T = {
 "C01": ("TLA+ ray state machine (Photon) model-checked by TLC; TLC-enumerated behaviours of the Line model replayed into photon_tracer; recorded histories of both tracers judged by PhotonTrace", MC,
         "Exhaustive on the model up to 3-5 steps in four worlds; every Line behaviour up to 6-9 events (sampled when many) replayed; thousands of random histories of both tracers judged by TLC. Trusts TLC, the recorder in harness/record.py and numpy's legacy generator (scripted draws)."),
 "C02": ("TLA+ Line reference model enumerated by TLC and replayed; PhotonTrace judges container, adjacent volume and segment geometry of recorded histories of both tracers", MC,
         "Line behaviours are exact integers; general poses and shapes judged in fixed point (1e-6 cm) with a 2e-4 cm margin, up to the first grazing surface event (|cos|<0.01)."),
 "C03": ("PhotonTrace kinematic clauses judged by TLC on recorded histories; Line behaviours replayed with exact path and time", MC,
         "Fixed point 1e-6 cm; scripted draws for the Python tracer, seeded random draws for the engine."),
 "C04": ("PhotonTrace optics clauses (Fresnel, Snell, TIR in fixed-point TLA+) judged by TLC on recorded histories; Stats judges engine reflection frequencies", MC,
         "With scripted draws the reflect/transmit decision of the Python tracer is decided exactly (band 3e-5); the engine's by frequency over 36 angle/index cases (5.5 sigma)."),
 "C05": ("PhotonTrace volume clauses (Beer-Lambert depth and component share in fixed-point TLA+) on scripted draws; Stats judges engine depth distribution and shares", MC,
         "Python outcome decided per draw; engine by frequency (5.5 sigma)."),
 "C06": ("Photon outcome rules and PhotonTrace fate clauses on scripted draws; Stats judges engine yields and lifetimes", MC, "As C05."),
 "C07": ("PhotonTrace emission clauses (inverse CDF, method floor, cone) on scripted draws; Stats judges engine spectra and phase functions in rotated containers", MC, "As C05."),
 "C08": ("TLA+ budgets in Photon/Line model-checked and replayed; PhotonTrace judges kill events of both tracers under step, path and event budgets", MC,
         "All Line behaviours under small budgets; random histories with budgets from 0/2 upwards."),
 "C09": ("PhotonTrace contract on engine histories; Pair spec compares certain rays event by event; Stats compares outcome frequencies", MC,
         "Equality where nothing is random; elsewhere two-sample frequencies (5.5 sigma)."),
}
try:
    from manifest_more import MORE
    T.update(MORE)
except ImportError:
    pass
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in T:
        tech, level, note = T[i]
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction; not claimed yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. No hooks in /repo: the checks import the working tree and build the kernel from it into a cache outside /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
