#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below plus a table per property from the manifest, the metadata and the last evidence (run sa/check.py all first)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + "/MANIFEST.json"))
props = {r["id"]: r for r in map(json.loads, open(V + "/properties.jsonl"))}
kf = json.load(open(V + "/known_findings.json"))
ev = {}
for c in man["checks"]:
    f = V + "/evidence/%s.json" % c["property"]
    if os.path.exists(f):
        ev[c["property"]] = json.load(open(f))


def specs(pid):
    """the reference files the analysed functions come from"""
    out = set()
    for f in ev.get(pid, {}).get("coverage", {}).get("functions_analysed", []):
        out |= set(re.findall(r"verif_spec::(\w+)::|::verif_(?!spec)(\w+)::|^verif_(?!spec)(\w+)::", f))
    have = {os.path.basename(x)[:-3] for x in glob.glob(V + "/spec/*.rs")}
    return sorted({x for t in out for x in t if x} & have)


def line(c):
    pid = c["property"]
    e = ev.get(pid, {})
    cov = e.get("coverage", {})
    if c["technique"].startswith("abstract interpretation"):
        how, orac, bnd = "day sets of the closed-day predicate, per market", "`sa/calref.py` rules, `spec/holidays.json`", "every day 1901–2199"
    elif c["technique"].startswith("constant evaluation"):
        how, orac, bnd = "evaluation of the table look-ups", "computus in `sa/calref.py`", "every year 1901–2199"
    elif pid == "X01":
        how, orac, bnd = "effect rule over callees, statics, local types; dataflow from hash iteration", "list of effects in `sa/props/effects.py`", "every body of the crate"
    elif pid == "X02":
        how, orac, bnd = "names written per field = names read per field; tags unique and registered", "the two directions against each other", "every derived type"
    elif "self-composition" in c["technique"]:
        how, orac, bnd = "extracted graphs composed with themselves", "the relation in the statement", "none (all inputs)"
    else:
        sp = specs(pid)
        how, orac, bnd = "value graph = reference graph", ", ".join("`spec/%s.rs`" % s for s in sp) or "reference in `spec/`", "none (all inputs)"
    n = "%d" % cov.get("obligations", 0) + ("" if not cov.get("undecided") else " (%d open)" % cov["undecided"])
    return "| %s | %s | %s | %s | %s | %s | %d | %.0f s |" % (pid, props[pid]["title"], how, orac, bnd, n, len([f for f in cov.get("functions_analysed", []) if "verif_" not in f]), e.get("wall_s", 0))


res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
seeds = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    seeds.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), res.get(i, "not recorded")))

out = open(V + "/tools/design.md").read()
out = out.replace("@@TABLE@@", "\n".join(line(c) for c in man["checks"]))
out = out.replace("@@NA@@", "\n".join("- **%s %s** — %s" % (n["property"], props[n["property"]]["title"], n["reason"]) for n in man["not_applicable"]))
out = out.replace("@@KNOWN@@", "\n".join("- **%s** `%s`: %s." % (f["property"], f["key"], f["what"]) for f in kf["findings"]))
out = out.replace("@@FIXED@@", "\n".join("- " + re.sub(r"^fixed: property=", "", f) for f in kf["fixed"]))
out = out.replace("@@SEEDS@@", "\n".join(seeds))
out = out.replace("@@N@@", str(len(man["checks"]))).replace("@@OBS@@", str(sum(e["coverage"]["obligations"] for e in ev.values())))
out = out.replace("@@OPEN@@", str(sum(e["coverage"]["undecided"] for e in ev.values())))
out = out.replace("@@FNS@@", str(len(set().union(*[set(f for f in e["coverage"]["functions_analysed"] if "verif_" not in f) for k, e in ev.items() if k not in ("X01", "X02")]))))
open(V + "/DESIGN.md", "w").write(out)
