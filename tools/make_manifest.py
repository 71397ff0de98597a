#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
from pathlib import Path

T = {  # property: (deciding method, what it assures and trusts)
    "C01": ("property-based testing against a reference filter", "Oracle: plain row-by-row filter. Boundary ties, labels, missing values generated on purpose."),
    "C02": ("property-based testing against a reference binning", "Points within 1e-6 bin widths of an inner edge are not generated; both ends are."),
    "C03": ("property-based testing against reference formulas", "Every estimate is made the largest in many generated bins."),
    "C04": ("differential property-based testing: written file against table", "Round trip through generated text, PDH and NeXus files, values and fit input compared."),
    "C05": ("property-based testing against a reference pixel mask", "Images up to 130 x 130, fits of images up to 12 x 12; finite pixels."),
    "C06": ("stateful property-based testing: history against fresh object", "Histories up to 14 operations."),
    "C07": ("model-based stateful testing of the key-value storage", "Reference model is a dictionary; values of all supported types."),
    "C08": ("stateful property-based testing: store/restore histories", "Each restored state compared with the original object, and with a fresh one after changing settings."),
    "C09": ("stateful property-based testing: exact diff of the file outside the touched result", "Complete dump of values, types and attributes before and after each operation."),
    "C10": ("round-trip property-based testing with continuation", "Loaded objects compared with the originals and continued."),
    "C11": ("property-based testing against an exact bounded least-squares solution", "Independent closed-form optimum over the active sets of bounds, and random competing pairs."),
    "C12": ("stateful property-based testing: recomputation invariant", "After each batch of steps everything is recomputed from the contributions."),
    "C13": ("stateful property-based testing: every step judged by an independent optimum", "Differences below 1e-8 are not judged, except exact ties."),
    "C14": ("differential stateful testing: optimize() against a twin stepped one by one", "Criteria generated at exact and neighbouring values of reachable goodness of fit."),
    "C15": ("property-based testing with limits, KS distance and rank correlation", "Statistical thresholds with false alarm probability below 1e-8 per case."),
    "C16": ("metamorphic property-based testing: repeated, reseeded and parallel runs", "Equality bit by bit; no value in common."),
    "C17": ("differential property-based testing against analytic forms and the library", "Trusts sasmodels' own kernels as reference for library models."),
    "C18": ("property-based testing against the interpolation/extrapolation formula", "All three regions and their ends, repeated evaluation."),
    "C19": ("property-based testing of complete runs with perturbed process schedules", "Schedules are sampled with random delays at every file access, not enumerated."),
    "C20": ("property-based testing against a reference histogram", "Contributions placed at edges and range ends on purpose."),
    "C21": ("property-based testing against moments in extended precision", "Skew and kurtosis only for spreads above 1e-5 of the mean."),
    "C22": ("property-based testing against recomputed averages, metamorphic in storage order", "Averages recomputed from what is stored for each repetition."),
    "C23": ("stateful differential testing: repeated analyses against an untouched copy", "Up to 5 analyses in a row."),
    "C24": ("differential property-based testing: command line against library, with histories of sessions", "Unseeded runs: repetitions checked for completeness and consistency, data state and histograms exactly."),
    "C25": ("property-based testing with generated path spellings and failing configurations", "Runs in scratch folders only; the data file is dumped before and after."),
    "C26": ("property-based testing: parsed reports and inspected figures against stored averages", "Numbers compared to the printed precision."),
    "C27": ("stateful differential testing: shared process against one process per use", "Every object use is repeated alone in a forked process that ran nothing else."),
    "C28": ("metamorphic property-based testing of complete runs with rescaled units", "Powers of two, so rounding is identical."),
    "C29": ("property-based testing with invalidating changes of valid configurations", "The valid form must be accepted, the changed one raise and leave the result file as it was; the kind of error is not judged."),
    "C30": ("fault injection at generated points of stateful histories, against the uninterrupted history", "Faults between and within accesses of the file by exceptions, ends of the process only between accesses."),
    "C31": ("property-based testing by simulation: known truth against the result of the whole pipeline", "Tolerances of at least 1.5 times the largest deviation in 1120 cases; small errors are decided by the other properties."),
}
checks = []
for pid, (tech, note) in T.items():
    checks.append(dict(property=pid, quick_cmd=f"./check {pid}", thorough_cmd=f"./check {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json", technique=tech, level="exploration",
                       level_note=note + " Random exploration, no proof: what it found nothing in is counted in the evidence."))
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=[],
         notes="All checks import McSAS3 from /repo/src (pure Python, nothing to build) and need no hooks.")
out = Path(__file__).resolve().parent.parent / "MANIFEST.json"
out.write_text(json.dumps(m, indent=1) + "\n")
