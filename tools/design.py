#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then one section per property
(from tools/props.py, checks.py and the notes below), then defects and limits
(tools/design_tail.md) and the planted bugs (tools/seeded.txt)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from props import PROPS
from checks import CHECKS

# seconds: quick (build included), thorough
COST = json.load(open(os.path.join(V, "tools", "cost.json")))

ORACLE = {
"C01": "set algebra written with plain loops over sorted vectors of (key, value); the supplied functions count their calls",
"C02": "brute force: every subset of the edges, which span, which are acyclic, least and greatest weight",
"C03": "the original bytes; libzstd called directly for whether a damaged frame decodes; guard bytes on both sides of the output",
"C04": "cosines and sines in long double, the three-term recurrence, composition identities",
"C05": "series and continued fraction (Lentz) in long double, quadrature for the density, definition of the KS distance over all points",
"C06": "plain loops; the numeric limits",
"C07": "plain loops; every element carries its own identity; refusals are observed in a forked child",
"C08": "index lists worked out by hand from the keys",
"C09": "a list of rows (feature, mean, variance) which the same history is applied to",
"C10": "plain loops over A m and A S A'",
"C11": "a std::map of names to parameters, and an interpreter of the expression shape",
"C12": "densities from the literature in long double, quadrature, pairwise comparison of the (kind, hyper-parameters)",
"C13": "an interpreter of expression trees over a table of leaf values, smallest eigenvalue by Eigen in double with a bound",
"C14": "the bilinear form over the terms, an interpreter for the trees",
"C15": "published formulas in long double; metric axioms; eigenvalues",
"C16": "the serial evaluation and the record of calls; a vector clock race detector and deadlock detection in the scheduler",
"C17": "the serial evaluation of the same problem; a vector clock race detector",
"C18": "long double Gaussian conditional (gp_oracle.h) from covariances written by hand",
"C19": "as C18, over all the data",
"C20": "the FITC/PITC closed form in long double, written from the documentation's formulas with dense matrices",
"C21": "dense algebra in long double (own Gauss elimination)",
"C22": "folds from the group labels; conditional laws in long double; recording models",
"C23": "definitions in long double; integrals by quadrature",
"C24": "a monitor which replays the search from the recorded answers of the environment; long double conditionals for Gaussian processes",
"C25": "long double conditional of the prior",
"C26": "normal equations and orthogonality in long double",
"C27": "a monitor of the recorded evaluations of the objective (what was asked, what was answered)",
"C28": "exact enumeration of outcomes: counts, moments and the law of the stretch move worked out from the draws",
"C29": "bit by bit comparison and what the objects compute",
"C30": "an independent CSV reader and the strings of the original numbers",
"C31": "an independent evaluation of the tree and a parser of the printed trace",
"C32": "the digits a value was built from: equal exactly when the relevant ones are",
}

WHY = {p["id"]: p["why_tests_cant"] for p in PROPS}
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## The properties, one by one", ""]
for p in PROPS:
    i = p["id"]
    c = CHECKS[i]
    q, t = COST[i]
    out += ["### %s %s" % (i, p["title"]), "",
            "*Decided by* %s. Sources: %s." % (c["technique"], ", ".join("`harness/%s`" % s for s in (c["srcs"] if len(c["srcs"]) < 7 else [c["srcs"][0], "…", c["srcs"][-1]]))), "",
            "*Enumerated.* " + c["rule"], "",
            "*Oracle.* " + ORACLE[i][0].upper() + ORACLE[i][1:] + ".", "",
            "*Limits.* " + c["level_note"], "",
            "*Why the tests cannot.* " + WHY[i], "",
            "*Cost.* quick about %s s (compilation included), thorough %s." % (q, t), ""]
out += [open(os.path.join(V, "tools", "design_tail.md")).read().rstrip(), "", "## Planted bugs", "",
        open(os.path.join(V, "tools", "seeded_head.md")).read().rstrip(), "",
        "| bug | property | needs | what the check did |", "|---|---|---|---|"]
for l in open(os.path.join(V, "tools", "seeded.txt")):
    if not l.strip():
        continue
    n, how = l.strip().split(" ", 1)
    m = json.load(open(os.path.join(V, "seeded", n, "meta.json"))) if os.path.exists(os.path.join(V, "seeded", n, "meta.json")) else {"property": "?", "needs": "?"}
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), how))
have = set(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else set()
listed = {l.split()[0] for l in open(os.path.join(V, "tools", "seeded.txt")) if l.strip()}
if have - listed:
    print("not listed:", sorted(have - listed))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
