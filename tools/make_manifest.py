#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys, importlib, pkgutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import qsa.checks as pk
for m in pkgutil.iter_modules(pk.__path__):
    importlib.import_module("qsa.checks." + m.name)
NA = {
 "C27": "Convergence as the grid spacing goes to zero is a statement about limits of eigenvalues of ever larger matrices; no dataflow, type or effect argument over the source bounds the discretisation error (it needs functional analysis of the discretised operator). That the discretisation formulas themselves are the intended ones is decided by C15 and C29.",
 "C28": "Rounding error, overflow and cancellation of sums of exponentials of log-factorials depend on run-time magnitudes of unbounded quantum numbers; a static floating-point range analysis gives no useful bound for the alternating sums here. That the formula is the right one over exact arithmetic is decided by C26 and C16.",
}
TECH = {
 "C10": "alias/reachability analysis on an abstract heap plus value-flow terms",
 "C11": "interprocedural effect (write-set) and alias analysis",
 "C13": "path-condition analysis of setters and constructors against size predicates",
 "C18": "symbolic value-flow terms and their formal derivative",
 "C19": "abstract file-system effects and typestate of the cache file",
 "C20": "value-flow terms of the loop nest and loop-carried dependence (race) analysis",
 "C23": "effect and event-trace analysis of the collector with abstract samplers",
 "C24": "name/member resolution, call-signature and override-compatibility lint over the syntax tree",
 "C25": "loop summarisation to a closed form, compared with the numbering's specification",
}
DEFT = "abstract interpretation with algebraic value-flow terms (symbolic shapes and contents)"
NOTE = ("Static: parses /repo's current source on every run and never imports or executes it. Obligations reported 'proved' hold for all sizes and contents by equality of normal forms "
        "in exact arithmetic; 'held' ones were compared by random interpretation of the extracted terms, or only for the stated small sizes when the general analysis was undecided. "
        "Undecided obligations raise no alarm and are listed in the evidence. Trusted: the analyser's models of numpy/scipy/sympy/pandas/pyscf calls and the specification terms; floating-point rounding is outside the model.")
EXTRA = {
 "C24": "Static: parses /repo's current source on every run. Dynamic attribute creation or unknown base classes make the lint stay quiet rather than guess.",
}
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in pk.CHECKS and i not in NA:
        f, rule, level = pk.CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 /verif/check.py {i} --tier quick", thorough_cmd=f"python3 /verif/check.py {i} --tier thorough",
                           technique=TECH.get(i, DEFT), level=level, level_note=EXTRA.get(i, NOTE) ))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not finished")))
assert not set(pk.CHECKS) - set(ids), set(pk.CHECKS) - set(ids)
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; assert sys.version_info >= (3, 9)'", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
