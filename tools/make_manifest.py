#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in props/."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: random tensors, dense numpy contraction before/after each move", "open boundary segments are compared numerically on random networks"),
 "C02": ("property-based testing: Eckart-Young optimality against a dense SVD", "random systems; rsvd judged against a probabilistic factor with failure odds below 1e-6 per case"),
 "C03": ("property-based testing: differential against exactly solvable networks", "exact reference values of generated solvable networks"),
 "C04": ("stateful property-based testing: invariants after every step of generated histories", "histories of bounded length on small cells"),
 "C05": ("property-based testing: dense numpy contraction as the reference for measured density matrices", "random networks; density matrices are reconstructed from measure()"),
 "C06": ("property-based testing: metamorphic relations and reference averages of measure()", "random networks and operators"),
 "C07": ("metamorphic property-based testing: gauge and basis changes", "exact relation where no truncation happens, converged gapped states otherwise"),
 "C08": ("metamorphic property-based testing: lattice symmetries", "gapped random states at convergence"),
 "C09": ("stateful property-based testing against a coordinate model of the lattice", "cells up to 6x6"),
 "C10": ("property-based testing: gates against matrix exponentials and a term-counting model", "random models"),
 "C11": ("property-based testing: exactly representable updates against the dense product", "random tensors, environments and options"),
 "C12": ("property-based testing: optimality against numpy ALS and SVD references in the environment's metric", "random positive environments"),
 "C13": ("property-based testing with a CPU-time watchdog: spectral oracle", "random Hermitian tensors of all scales, ranks and data types"),
 "C14": ("model-based property testing: numpy Gamma-lambda reference of the simple update", "states compared as contracted torus vectors"),
 "C15": ("property-based testing: differential against exactly solvable time evolutions", "solvable Hamiltonians; rigorous bounds otherwise"),
 "C16": ("property-based testing: SVD invariants and differential fused/explicit", "random and ill-conditioned matrices"),
 "C17": ("grammar-based property testing: random operator expressions against complex matrices", "random expression trees"),
 "C18": ("stateful property-based testing: save/load round trips", "real files in a temporary directory"),
 "C19": ("stateful property-based testing: several objects against an isolated model each", "bounded histories"),
 "C20": ("differential property-based testing: process pools on loopback against the serial run", "2 to 8 gloo processes, deadlock watchdog"),
 "C21": ("differential fuzzing of the compiled solver against the Python solver", "CPU stand-ins of cuTENSOR/cuSOLVER execute the descriptors the C++ code builds"),
 "C22": ("property-based testing over option combinations on an exactly solvable problem", "every documented option; rejection of unknown ones"),
 "C23": ("metamorphic property-based testing: repetition, zero steps, seeds", "bit-level comparison of repeated runs"),
 "C24": ("property-based testing: requested product states against the first evolve", "random product states"),
 "C25": ("metamorphic property-based testing: continued and split evolutions", "exact cases are compared exactly"),
 "C26": ("metamorphic property-based testing: equivalent evolutions that truncate", "tolerance 1e-5 (single precision 1e-2); ill-conditioned cases are recognised by perturbing the input and not decided"),
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i.lower() + ".py")):
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration",
                       "level_note": "Generated-input search, no proof: " + note + "; assumptions are listed in the evidence file."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import torch, sys; sys.path.append(\"/opt/veriftools/pyvenv/lib/python3.12/site-packages\"); import hypothesis'",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all checks use the importable API. run.py starts 8 worker processes per check."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
