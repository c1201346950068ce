#!/usr/bin/env python3
"""Assembles DESIGN.md from the property texts, the harness sources, the findings and the planted bugs."""
import glob, json, os, re, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = runpy.run_path(os.path.join(ROOT, "tools", "gen_meta.py"))["P"]
rules = {}
for f in sorted(glob.glob(ROOT + "/harness/src/props/*.rs")):
    s = open(f).read()
    for m in re.finditer(r'Prop \{ id: "(C\d+)", rule: "((?:[^"\\]|\\.)*)",\s*assumptions: &\[(.*?)\],\s*suites: vec!\[(.*?)\]\s*\}', s, re.S):
        su = re.findall(r'name: "(\w+)", quick: ([\d_]+), thorough: ([\d_]+)', m[4])
        rules[m[1]] = (m[2].replace('\\"', '"'), re.findall(r'"((?:[^"\\]|\\.)*)"', m[3]), su, os.path.basename(f))
out = [open(ROOT + "/tools/design_head.md").read(), "\n## Properties\n"]
for d, tech, note in P:
    r, a, su, f = rules[d["id"]]
    out.append(f"### {d['id']} {d['title']}\n")
    out.append(d["statement"] + "\n")
    out.append(f"* Method: {tech} (`{f}`).")
    out.append(f"* Generated and compared: {r}")
    out.append("* Bounds (quick / thorough cases): " + "; ".join(f"{n} {q} / {t}" for n, q, t in su) + ".")
    if a: out.append("* Assumptions: " + "; ".join(a) + ".")
    out.append(f"* Beyond the tests: {d['why_tests_cant']} Quantified over {d['quantifier']['text']}.\n")
out.append("## Genuine defects found\n\nFixed (one `fix:` commit each):\n")
for l in open(ROOT + "/known_findings.jsonl"):
    k = json.loads(l)
    if "fixed" in k: out.append("* " + k["what"].replace("fixed: property=", ""))
out.append("\nRecorded as known findings:\n")
for l in open(ROOT + "/known_findings.jsonl"):
    k = json.loads(l)
    if "fixed" not in k: out.append(f"* {k['property']} ({k['suite']}): {k['what']}")
out.append("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
res = json.load(open(ROOT + "/tools/seed_results.json")) if os.path.exists(ROOT + "/tools/seed_results.json") else {}
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} ({m['needs']}) | {res.get(i, 'not yet run')} |".replace("\n", " "))
out.append("\n" + open(ROOT + "/tools/design_tail.md").read())
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
