#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after a change of the list of checks)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V + "/lib")
from checks import CHECKS
SEARCH = "The whole branch and bound (real code, NDEBUG release flags) is run on every instance of finite families of layered models x options (local bound, dominance, partial merging) x widths; the oracle enumerates every label sequence of the model without library code. Within those bounds the answer is complete. Trusted: the reference models, the compiler, the table/queue size hook."
DIAG = "Every diagram (every subproblem of every instance of the families, every width, option and given primal value listed) is compiled by the real code and compared arc by arc with the complete list of solutions of the subproblem. Trusted: the reference enumeration, the compiler, the table size hook."
CONT = "Every operation sequence up to the stated depth (and every input up to the stated size) is run on the real container against a plain reference after every step; once more, to a smaller depth, under AddressSanitizer and UBSan. Trusted: the reference, the compiler, the sanitizers."
T_S = "bounded exhaustive exploration of the real code (stateless model checking): all instances of finite model families x options x widths"
T_D = "bounded exhaustive exploration of the real code (stateless model checking): all subproblem diagrams of finite model families"
T_C = "bounded exhaustive exploration of the real code (stateless model checking): all operation sequences up to a depth"
tech = {}
for p in ("C01", "C02", "C08", "C21"): tech[p] = (T_S, SEARCH)
tech["C03"] = ("exhaustive stop-point enumeration on the real search (stateless model checking): every consultation of the limit of every instance", SEARCH + " The limit strikes at each of its consultations in turn, and the search is resumed from each.")
for p in ("C04", "C05", "C06", "C07", "C20"): tech[p] = (T_D, DIAG)
for p in ("C09", "C10", "C12", "C13", "C14", "C15", "C16", "C18"): tech[p] = (T_C, CONT)
for p in ("C11", "C17"): tech[p] = ("bounded exhaustive exploration of the real code (stateless model checking): all inputs up to a size", CONT)
tech["C19"] = ("bounded exhaustive exploration of the real code (stateless model checking): all sequences of uses of two models' objects up to a depth", "Every sequence of uses up to the stated length over a regular subset of two model families, each use compared with the same use on fresh objects; once plain and once under AddressSanitizer/UBSan with states that own heap memory and check themselves. Trusted: the sanitizers, the per-use summary that is compared.")
tech["C22"] = ("exhaustive fault enumeration on the real code (stateless model checking): every availability of the launched programs x all small diagrams", "Every diagram of the families is drawn and printed with both launched programs missing, working, failing, not executable or killed; the file, the output and the number of returns are compared with the diagram. Trusted: the stand-in programs, the intercepted mkstemp.")
from extra import EXTRA
tech.update(EXTRA)
full = lambda h: subprocess.run(["git", "-C", "/repo", "rev-parse", h], stdout=subprocess.PIPE, text=True).stdout.strip()
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "CODD_VERIF", "enable": "-DCODD_VERIF on the compiler command line of the harnesses (run.py)", "source_commits": [full("7363bb4")]},
     "checks": [{"property": p, "quick_cmd": "python3 run.py check " + p, "thorough_cmd": "python3 run.py check %s --thorough" % p,
                 "technique": tech[p][0], "level": CHECKS[p]["level"], "level_note": tech[p][1]} for p in sorted(CHECKS)],
     "not_applicable": []}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
