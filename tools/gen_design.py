#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, the properties, the rules stated in the checks, and the planted changes."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(root, "tools")
levels = json.load(open(f"{T}/levels.json"))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
res = json.load(open(f"{T}/seedresults.json")) if os.path.exists(f"{T}/seedresults.json") else {}
def lit(s): return json.loads(s)
out = [open(f"{T}/design_head.md").read().rstrip(), "", "## Properties, one by one", ""]
seeds = {}
for sid in sorted(os.listdir(f"{root}/seeded")) if os.path.isdir(f"{root}/seeded") else []:
    m = json.load(open(f"{root}/seeded/{sid}/meta.json"))
    seeds.setdefault(m["property"], []).append((sid, m))
for p in props:
    pid = p["id"]; d = f"{root}/harness/checks/{pid.lower()}"
    src = "".join(open(f"{d}/{f}").read() for f in sorted(os.listdir(d)) if f.endswith(".go"))
    m = re.search(r'hx\.New\(t, "C\d+", ((?:"(?:[^"\\]|\\.)*"(?:,\s*)?)+)\)', src)
    strs = re.findall(r'"(?:[^"\\]|\\.)*"', m.group(1))
    rule, assume = lit(strs[0]), [lit(x) for x in strs[1:]]
    subs = re.findall(r's\.Prop\("([^"]+)", (\d+)', src)
    direct = re.findall(r's\.Direct\("([^"]+)"', src)
    lv = levels[pid]
    out += [f"### {pid} {p['title']}", "", f"*Technique.* {lv['technique']}. {lv['note']}", "",
            f"*Generated and judged.* {rule[0].upper() + rule[1:]}", "",
            "*Bounds (quick; thorough runs 15 times as many).* " + (", ".join(f"{n}: {c} cases" for n, c in subs) or "fixed rounds") + ("; enumerated or sampled parts: " + ", ".join(direct) if direct else "") + (". Built with the race detector." if os.path.exists(f"{d}/RACE") else "."), ""]
    if assume: out += ["*Left open.* " + "; ".join(assume) + ".", ""]
    out += [f"*Beyond the tests.* {p['why_tests_cant']}", ""]
    if pid in seeds:
        out += ["*Planted changes.* " + "; ".join(f"`{sid}` ({s['needs']}) — {res.get(sid, 'not run')}" for sid, s in seeds[pid]) + ".", ""]
out += [open(f"{T}/design_tail.md").read().rstrip(), ""]
open(f"{root}/DESIGN.md", "w").write("\n".join(out))
