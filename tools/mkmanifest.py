#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("Recorded executions of the working tree are validated by TLC against the specification (BossTrace): exact "
         "comparison with the value the specification defines, total verdicts, rejected canaries. ")
LAW = ("All random choices of the code are enumerated symbolically, so the compared law is exact for every explored "
       "configuration; where a use of randomness cannot be followed the law is tested statistically (error below 1e-10, "
       "confirmed twice). ")
TRUST = "Trusts TLC, the exact-matrix menu (Gaussian rationals), the driver and double-precision rounding below 1e-9."
NOTE = {
    "C01": "Calculators on all states of small spaces and on random larger ones, six sequence types.",
    "C02": "Histories generated from the specification (GenCalc), replayed on real objects.",
    "C03": "Both submatrix methods on every small input/output pair and along histories.",
    "C04": "Scattering matrices with pairwise distinct entries, histories included.",
    "C05": "Enumerations and dimensions, huge arguments by residues modulo eight primes.",
    "C06": "Round trips of all small states and random larger ones.",
    "C07": "All inputs of small spaces, every number left.",
    "C08": "Types, partitions and multiplicities, huge values by residues.",
    "C09": "Whole distributions and chosen outcome lists.",
    "C10": "Whole lossy distributions, weight switches.",
    "C11": LAW, "C12": LAW, "C13": LAW, "C14": LAW, "C15": LAW + "One known finding (column shuffle). ", "C16": LAW,
    "C17": "Concrete calls with every strategy, sample and thread numbers.",
    "C18": LAW + "Histories generated from the specification (GenStrat). ",
    "C19": "Dilation, singular values and linear evolution of exact sub-unitary matrices.",
    "C20": LAW + "Factory histories generated from the specification (GenFactory). ",
    "C21": "Scripted strategies with known samples; one known finding (separable calculator). ",
    "C22": "Exact rationals, logarithms to 1e-6, factorisations by residues.",
    "C23": "Runs with seeded generators; termination within the processor-time limit. ",
    "C24": "Genuine process pools; replayed blocks and laws. ",
    "C25": LAW + "Joint law of two to four samples of one call. ",
    "C26": "Fourier matrices entry by entry; joint law of consecutive random phases. ",
    "C27": "Stand-in for rpy2/R with R's conventions. ",
    "C28": "All small combinations of sizes, fresh and re-assigned calculators. ",
}
checks = []
for i in range(1, 29):
    p = "C%02d" % i
    checks.append({
        "property": p, "quick_cmd": "bin/check %s" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
        "technique": "TLA+ specification checked with TLC; conformance by trace validation of the real code"
                     + (" on specification-generated histories" if p in ("C02", "C03", "C04", "C18", "C20") else ""),
        "level": "model_checking",
        "level_note": TRACE + NOTE[p] + TRUST,
    })
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
           "notes": "TLA+/TLC. bin/check ID [--tier quick|thorough] [--seed N] [--only CASE]; see DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
