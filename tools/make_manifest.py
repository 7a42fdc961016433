#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("process-level monitoring of imports and runs in every dependency configuration", "All 16 dependency subsets from the source tree and from an installed copy are executed each time; dependencies are hidden by an import hook, so versions other than the installed ones are not covered."),
 "C02": ("endpoint and grid monitor over stored flows of random problems", "Random problems in every option combination; every entry of every stored flow is compared; exact at the end points."),
 "C03": ("per-step runtime oracle: implied score against an independent closed-form estimator", "Every forward step of every run judged; bounds are multiples of the estimator's own inducing-point variability, so errors much smaller than it (a few per cent of the score) pass per step and are caught only in the pooled statistics. Four documented forms of g that the code never supported are listed as known findings."),
 "C04": ("per-step runtime oracle: implied score difference against an independent closed-form estimator", "Every backward step of every run judged, as for C03."),
 "C05": ("trace monitor over recorded callback events", "The complete call history of the user callbacks is matched exactly with the stored flows and the grid."),
 "C06": ("statistical monitor over all increments of stochastic runs", "All increments; distributional tests at p below 1e-10 per case and pooled, so deviations of the noise scale below about 2 % (quick) pass."),
 "C07": ("event monitor of every reweighting: conservation, hull, displacement against an exact transport oracle", "Mean conservation to rounding, displacement against the optimum of a linear program."),
 "C08": ("output monitor with optimality certificates (dual of the transport problem)", "Marginals to rounding; optimality certified by an independent linear program."),
 "C09": ("query monitor: returned controls against score differences recomputed from the stored flows", "Exact near the ends; elsewhere in units of the estimator's inducing-point variability."),
 "C10": ("end-to-end monitor: controlled simulations against the target and the exact linear bridge", "Random problems of moderate difficulty (targets up to three free spreads away, up to 3 dimensions); the bounds are about twice the last noise step, and fractions of the bridge's spread."),
 "C11": ("differential runtime oracle: estimators against an independent closed form", "Rounding-level agreement over random inputs."),
 "C12": ("differential runtime oracle over all argument forms", "Rounding-level agreement over random inputs and argument forms."),
 "C13": ("statistical accuracy monitor and metamorphic monitors of estimates", "Known densities (Gaussians, mixtures) and exact symmetries."),
 "C14": ("history monitor: interleaved kernel and gradient calls against the formula", "Every call of random histories compared with the closed form."),
 "C15": ("guard pages, canaries, bounds-checked twin and thread-count stress of the compiled loops", "Out-of-bounds reads and writes next to the arrays fault on protected pages; interpreted and bounds-checked runs of the same inputs are compared."),
 "C16": ("checksum and write-protection monitors around every operation; interleaved controller histories", "Random interleavings; caller data checksummed before and after."),
 "C17": ("differential monitor over repeated runs, processes and logging levels", "Bitwise comparison of flows and controls."),
 "C18": ("differential statistical monitor of the two backends", "Moments of replicated runs up to sampling error and a systematic allowance; state forms bitwise."),
 "C19": ("metamorphic monitor over pairs of whole runs", "Powers of two must agree to 1e-7; other changes are judged against what rounding-size errors do to that very run."),
 "C20": ("exhaustive boundary-value monitor of the coverage query against its definition", "Exact."),
 "C21": ("process memory monitor over runs of different length", "Growth per time step and per query, resolution of about one cloud-sized array per step."),
 "C22": ("thread stress with forced switching, results compared with sequential ones", "Interleavings are those the interpreter produces at a 1 microsecond switch interval; no claim about all schedules."),
 "C23": ("dispatch-level tensor monitor under foreign default devices and precisions", "Every tensor operation of the observed runs; the GPU itself is simulated by the meta device and by patched availability."),
 "C24": ("process-state monitor: snapshots of every setting around and inside each operation", "About sixty settings of the interpreter, numpy, PyTorch, numba, matplotlib and the operating system; compiled-library state that Python cannot read is not covered. The default handler that the logging module itself adds to an unconfigured root logger is not counted."),
 "C25": ("fault injection into user callbacks, with monitors of the exception, the settings and later runs", "Six or fewer failure points per callback and problem, random exception types out of twenty-five; asynchronous exceptions between callbacks are not injected."),
 "C26": ("monitor of flow moments and controls against closed-form linear-quadratic solutions", "Errors are judged as medians over groups of four random problems (bounds several times the largest seen) and, more loosely, per problem; stochastic sampling is judged to about a third of the spread."),
 "C27": ("monitor of flow distributions and controls against laws computed on a grid", "Problems of one or two coordinates that do not act on each other, so that the exact laws can be computed; errors judged as medians over groups of four random problems and, more loosely, per problem."),
 "C28": ("differential monitor over argument forms of whole runs", "Bitwise or 1e-9 agreement of flows, grids and controls for about forty forms per problem."),
 "C29": ("intervention monitor over pairs of whole runs", "Futures and unrelated inputs: agreement to 1e-9; undone pasts: up to what rounding-size errors do to that very run."),
 "C30": ("runtime oracle over calls of the force functions, and monitored integrations", "Scores judged in units of the estimator's own inducing-point variability; integrated variances to 3 %, means to 1 % of the spread."),
 "C31": ("floating point traps and a tensor finiteness monitor over whole runs and queries", "Extreme problems of twelve kinds; traps for division by zero, overflow and invalid operations in numpy, every tensor of every PyTorch operation. Underflow and loss of precision are not judged; costs so strong that the whole cloud collapses onto one particle are not claimed to work."),
}
out = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, torch, numba, ot\"", "checks": [], "not_applicable": [],
       "notes": "harness/check <id> [--tier quick|thorough] [--replay FILE]; see DESIGN.md. No hooks in /repo: everything is observed through the public interface, the user callbacks and the stored flows."}
for k, (t, n) in T.items():
    if os.path.exists(os.path.join(V, "harness", "checks", k.lower() + ".py")):
        out["checks"].append({"property": k, "quick_cmd": "harness/check %s --tier quick" % k, "thorough_cmd": "harness/check %s --tier thorough" % k,
                              "technique": t, "level": "exploration", "level_note": n})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]))
