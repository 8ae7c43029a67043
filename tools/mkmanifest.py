#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
T = {
 "C01": ("TLA+ Market, TLC exhaustive + replay of TLC histories and validation of recorded traces", "Market.tla: every history over small tickers/values; code: TLC-generated and random histories executed through the public API, every recorded read and exception accepted by the spec or reported"),
 "C02": ("TLA+ Market, TLC exhaustive + trace validation", "as C01, with handles taken at any earlier point and several holders of the instance"),
 "C03": ("TLA+ Market, TLC exhaustive + trace validation", "as C01, with observers recording every call they receive and what they read during it"),
 "C04": ("TLA+ Market (re-entrant notifications), TLC exhaustive + trace validation under ASan/UBSan", "nested operations inside notifications; lifetime violations also surface as sanitizer reports"),
 "C05": ("TLA+ Once, TLC over all interleavings of the first-use protocol + trace validation under TSan", "the protocol is explored for all interleavings of the spec; the code is run with barriers and delays under ThreadSanitizer, so races on the explored paths are reported even if they did not bite"),
 "C06": ("TLA+ Contract, TLC exhaustive + conformance of factory calls", "every factory with every parameter present/absent/mistyped/invalid; exact valuation of the result"),
 "C07": ("TLA+ Payoffs/Contract, TLC exhaustive laws + conformance on exact rationals", "payoff values compared with exact rational arithmetic"),
 "C08": ("TLA+ Contract, TLC exhaustive laws + conformance", "equality/clone relation over the product of kinds, types and strikes"),
 "C09": ("TLA+ MonteCarlo, TLC laws + validation of recorded pricings with scripted paths", "price recomputed by TLC from the very paths the (scripted) stock model produced; relative tolerance 1e-9"),
 "C10": ("TLA+ MonteCarlo, TLC laws + validation of recorded pricings with scripted paths", "as C09"),
 "C11": ("TLA+ MonteCarlo, TLC laws + validation of recorded pricings with scripted paths", "as C09"),
 "C12": ("TLA+ MonteCarlo, TLC laws + validation of recorded pricings with scripted paths", "as C09; prices exactly on the barrier included"),
 "C13": ("TLA+ MonteCarlo (Longstaff-Schwartz induction), TLC laws + validation of recorded pricings", "exact regression in TLC; exercise decisions closer than 1e-7 to a tie are left open"),
 "C14": ("TLA+ MonteCarlo (builders, pricers, solvers as a state machine), TLC-generated histories replayed", "histories of builder/solver calls generated by TLC and at random"),
 "C15": ("TLA+ Models, TLC laws + validation of simulated paths with scripted draws", "paths recomputed by TLC from the draws the scripted generator delivered; tolerance 1e-9"),
 "C16": ("TLA+ Models, TLC laws + validation of simulated paths with scripted draws", "as C15; the distributions requested are identified by probing them"),
 "C17": ("TLA+ Models, TLC laws + validation of simulated paths with scripted draws", "as C15"),
 "C18": ("TLA+ Models + Market histories, trace validation", "live market histories between simulations"),
 "C19": ("TLA+ Models (martingale law model-checked on discrete draws) + statistical conformance, fixed seeds", "expectation within 6 standard errors: a statistical judgement on fixed seeds"),
 "C20": ("TLA+ Random, TLC + trace validation against the Sobol/Faure sequences", "Sobol (64 dimensions) and Faure points computed in TLA+ from first principles, beyond that from Boost's engines; order, copies and transformation from the spec"),
 "C21": ("TLA+ Random, exact normal distribution function in TLC", "bounds certified through Phi to 2^-180 at each tested p"),
 "C22": ("TLA+ Random, statistical conformance, fixed seeds", "moments within 6 standard errors, support exact"),
 "C23": ("TLA+ FDM, exact theta-scheme recomputed in TLC", "whole grid compared with the exactly solved scheme"),
 "C24": ("TLA+ FDM, exact coefficients and Black-Scholes formula in TLC", "coefficients exact; convergence within a bound proportional to the mesh"),
 "C25": ("TLA+ FDM solver state machine, TLC histories replayed", "histories of solve/price/update calls"),
 "C26": ("TLA+ Numerics, residuals in exact arithmetic in TLC", "exact residual against a backward-error bound"),
 "C27": ("TLA+ Numerics, exact interpolation in TLC", "exact rational interpolants"),
 "C28": ("TLA+ Numerics, optimality conditions in exact arithmetic in TLC", "normal equations / minimum norm / soft threshold"),
 "C29": ("TLA+ Numerics, polynomial recurrences model-checked, conformance exact", "values against exact recurrences"),
 "C30": ("TLA+ System + Terms, TLC histories and trace validation of sessions", "printed lines parsed and judged exactly, to the digits shown"),
 "C31": ("TLA+ System + Terms, TLC histories and trace validation of sessions", "equality checked as an equivalence relation in the model; every pair compared in the sessions"),
 "C32": ("TLA+ System (parameter objects), TLC histories and trace validation", "exhaustive small histories in the model, long ones replayed"),
 "C33": ("TLA+ System: answers as an unknown function of the data in force, trace validation", "prices and paths compared bit for bit within each session"),
 "C34": ("TLA+ System: questions are stuttering steps, trace validation", "market, contracts and notifications observed after every operation"),
 "C35": ("TLA+ ClosedForm (laws model-checked), lognormal formulas evaluated in TLC", "within 6 standard errors (quasi-random: a calibrated discrepancy bound) on fixed seeds"),
 "C37": ("TLA+ System: memory as a function of what is alive, trace validation of repeated rounds", "heap in use compared between repetition 100 and 300 (500/1500), slack 4 KB"),
 "C36": ("TLA+ System, trace validation of parallel sessions, ThreadSanitizer", "schedules as the OS delivers them; data races through happens-before"),
}
sys.path.insert(0, os.path.join(V, "lib"))
import importlib, run
claimed, na = [], []
for p in sorted(T):
    mod = next(m for m, ids in run.MAP.items() if p in ids)
    try: ok = hasattr(importlib.import_module("checks_" + mod), p)
    except ModuleNotFoundError: ok = False
    if ok:
        claimed.append({"property": p, "quick_cmd": "python3 run.py check " + p,
                        "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p,
                        "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "model_checking",
                        "level_note": T[p][1] + ". The specification is checked exhaustively on small constants; the implementation is judged on the finite set of executed behaviours, not proved."})
    else: na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": claimed, "not_applicable": na,
           "notes": "No hooks in /repo are needed: all checks use the public API. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed;", [n["property"] for n in na])
