#!/usr/bin/env python3
"""Rewrite the generated table of DESIGN.md: the families and their bounds from
the harness sources, counts and times from the evidence of quick runs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["| id | families (bounds) | cases | comparisons | s |", "|---|---|---|---|---|"]
for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
    i = c["property"]
    s = open(f"{V}/harness/{i}.cpp").read()
    s = s[s.index("int main("):]
    rule = re.search(r'\*rule = "([^"]*)"', s)
    fam = re.findall(r'\{"([\w-]+)", [\w<>]+, [\d.]+, (?:"([^"]*)"|(rule))\}', s)
    same = [n for n, t, r in fam if r]
    txt = [f"*{n}*: {t}" for n, t, r in fam if not r]
    if same:
        txt.insert(0, f"*{', '.join(same)}*: {rule.group(1)}")
    try:
        e = json.load(open(f"{V}/evidence/{i}.json"))
        assert e["tier"] == "quick" and e["coverage"]["exhaustive"], i
        k = e["coverage"]
        n = (k["traces_validated_against_impl"], k["transitions"], round(e["wall_s"]) or "<1")
    except OSError:
        n = ("", "", "")
    cell = '; '.join(txt).replace('|', '\\|')
    out.append(f"| {i} | {cell} | {n[0]} | {n[1]} | {n[2]} |")
d = open(V + "/DESIGN.md").read()
a, b = "<!-- bounds -->\n", "<!-- end of bounds -->"
d = d[:d.index(a) + len(a)] + "\n".join(out) + "\n" + d[d.index(b):]
open(V + "/DESIGN.md", "w").write(d)
