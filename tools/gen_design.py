#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below plus, per property, its scenarios (bounds from the harness
sources, counts from the evidence of the last quick run) and the planted bugs (seeded/*/meta.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
PRE = open(V + "/tools/design_head.md").read()
POST = open(V + "/tools/design_tail.md").read()
N = {}
for b in re.split(r"^## ", open(V + "/tools/design_props.md").read(), flags=re.M)[1:]:
    h, _, t = b.partition("\n"); N[h.strip()] = t.strip()
out = [PRE.rstrip(), ""]
for p in P:
    i = p["id"]; src = glob.glob(V + "/harness/%s_*.cpp" % i.lower())[0]
    ev = {}
    try: ev = {s["name"]: s for s in json.load(open(V + "/evidence/%s.json" % i))["coverage"]["scenarios"]}
    except (OSError, KeyError): pass
    out += ["### %s %s" % (i, p["title"]), "", N[i], "", "Explored (harness/%s; counts of the quick run: executions / states):" % os.path.basename(src), ""]
    for n, b in re.findall(r'MC_SCENARIO\(P\d+, (\w+),\s*"((?:[^"\\]|\\.)*)"\)', open(src).read()):
        s = ev.get(n); out.append("- `%s`: %s%s" % (n, b, " (%d / %d)" % (s["executions"], s["states"]) if s else ""))
    out.append("")
out += [POST.rstrip(), "", "| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); c = lambda s: str(s).replace("|", "/").replace("\n", " ")
    out.append("| %s | %s | %s | %s |" % (f.split("/")[-2], d["property"], c(d["what_it_breaks"]), c(d["needs"])))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "lines")
