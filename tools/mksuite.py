#!/usr/bin/env python3
"""Fills the texts "what" and "bounds" of harness/suite.json from the harness
sources: the doc comment, and the values of all parameters it reads."""
import glob, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
docs, bodies, lists = {}, {}, {}
for f in sorted(glob.glob(top + "/harness/*.go")):
    src = open(f).read()
    for m in re.finditer(r"((?://[^\n]*\n)*)func (?:\([^)]*\) )?(\w+)\([^\n]*\{([^\n]*\}\n|\n.*?\n\}\n)", src, re.S):
        doc = " ".join(l.strip("/ ") for l in m.group(1).splitlines())
        docs.setdefault(m.group(2), re.sub(r"^%s:? ?" % m.group(2), "", doc))
        bodies.setdefault(m.group(2), m.group(3))

def params(func, seen=None):
    """parameters read by a function and by what it calls, in order"""
    seen = seen if seen is not None else set()
    if func in seen or func not in bodies:
        return {}
    seen.add(func)
    out = {}
    body = bodies[func]
    for m in re.finditer(r'symParam\("(\w+)", (-?\w+)\)|\b(\w+)\(', body):
        if m.group(1):
            out.setdefault(m.group(1), m.group(2))
        elif m.group(3) != "symParam":
            for k, v in params(m.group(3), seen).items():
                out.setdefault(k, v)
    return out

path = top + "/harness/suite.json"
suite = json.load(open(path))
for h in suite["harnesses"]:
    f = h["func"]
    delegated = re.search(r"^\s*(H\w+)\(\)[\s}]*$", bodies.get(f, ""), re.S)
    h["what"] = docs.get(f, "") + (" (as %s: %s)" % (delegated.group(1), docs.get(delegated.group(1), "")) if delegated else "")
    ps = params(f)
    def text(over):
        vals = dict(ps)
        vals.update({k: str(v) for k, v in over.items()})
        vals.pop("prop", None)
        return ", ".join("%s=%s" % kv for kv in vals.items()) or "as in the harness"
    q = dict(h.get("params") or {})
    t = dict(q); t.update(h.get("thorough_params") or {})
    h["bounds"] = {"quick": text(q), "thorough": text(t)}
json.dump(suite, open(path, "w"), indent=1, ensure_ascii=False)
open(path, "a").write("\n")
