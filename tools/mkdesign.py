#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with the tables of harnesses, bounds,
fixed defects and planted bugs taken from the files they live in. The costs
are those in evidence/ when this is run (a machine with 8 cores)."""
import glob, json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
suite = json.load(open(top + "/harness/suite.json"))
props = [json.loads(l) for l in open(top + "/properties.jsonl")]
findings = [l.rstrip("\n") for l in open(top + "/known-findings.txt") if l.strip() and not l.startswith("#")]

HEAD = open(top + "/tools/design-head.md").read()
TAIL = open(top + "/tools/design-tail.md").read()
text = {}
cur = None
for l in open(top + "/tools/design-props.md"):
    if l.startswith("## "):
        cur = l[3:].strip()
        text[cur] = ""
    elif cur:
        text[cur] += l

def cell(s):
    return str(s).replace("|", "\\|").replace("\n", " ")

def envs(h):
    e = h.get("envs") or [h.get("env") or {}]
    names = ["WT" if x else "plain" for x in e]
    return "+".join(names)

out = [HEAD]
for p in props:
    i = p["id"]
    out.append("### %s %s\n\n" % (i, p["title"]))
    out.append(text[i].strip() + "\n\n")
    cost = ""
    f = top + "/evidence/%s.json" % i
    if os.path.exists(f):
        d = json.load(open(f))
        if d.get("tier", "quick") == "quick":
            old = d.get("wall_s") or d.get("duration_s")
            cost = old
    out.append("| harness | what | quick bounds | thorough bounds | terminal |\n|---|---|---|---|---|\n")
    for h in suite["harnesses"]:
        if h["property"] == i:
            q, t = h["bounds"]["quick"], h["bounds"]["thorough"]
            out.append("| %s | %s | %s | %s | %s |\n" % (h["func"], cell(h["what"]), cell(q), "same" if q == t else cell(t), envs(h)))
    out.append("\n")
out.append(TAIL.replace("@FIXED@", "\n".join("- %s" % cell(l[len("fixed: "):]) for l in findings if l.startswith("fixed: ")))
    .replace("@KNOWN@", "\n".join("- %s" % l for l in findings if not l.startswith("fixed: ")) or "None: every defect found was small enough to repair."))
if "@BUGS@" in out[-1]:
    res = dict(l.split(None, 1) for l in open(top + "/tools/bugs-result.txt") if l.strip())
    rows = ["| bug | property | what it needs | what it breaks | check |", "|---|---|---|---|---|"]
    for m in sorted(glob.glob(top + "/seeded/*/meta.json")):
        d = json.load(open(m))
        rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], cell(d["needs"]), cell(d["what_it_breaks"]), res.get(os.path.basename(os.path.dirname(m)), "not run").strip()))
    out[-1] = out[-1].replace("@BUGS@", "\n".join(rows))
open(top + "/DESIGN.md", "w").write("".join(out))
