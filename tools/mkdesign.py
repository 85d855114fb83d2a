#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between the marks) from the current models, walks and planted bugs.
Usage: mkdesign.py [TRIALS_LOG]   (the output of tools/trials.py, to record what catches what)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import models

def table_models():
    out = ["| model | decides for | what it is | quick constants | thorough constants |", "|---|---|---|---|---|"]
    for name, m in models.MODELS.items():
        text = open(os.path.join(V, "spec/mc", name + ".tla")).read()
        c = re.search(r"\(\*{20,}\)\n(.*?)\(\*{20,}\)", text, re.S)
        body = c.group(1) if c else "\n".join(l for l in text.splitlines()[1:4] if l.startswith("(*"))
        words = " / ".join(" ".join(re.sub(r"^\(\*|\*\)$", "", l.strip()).strip() for l in body.splitlines()).split("|"))
        f = lambda cs: "; ".join(x.replace("\n", ", ") for x in cs)
        out.append(f"| {name} | {' '.join(m['props'])} | {words} Checked: {m['inv']} {m['temporal']} | {f(m['quick'])} | {f(m['thorough'])} |")
    return out

def table_walks():
    out = ["| property | instance | operations | quick | thorough |", "|---|---|---|---|---|"]
    f = lambda c: "every transition" if c is None else "-" if c == 0 else f"at most {c} library steps"
    for w in models.WALKS:
        out.append(f"| {' '.join(w['props'])} | {w['kind']}, N = {w['n']} | {w['ops'] or 'all'} | {f(w['quick'])} | {f(w['thorough'])} |")
    return out

def table_seeds(log):
    seen = {}
    for l in open(log) if log else ():
        w = l.split()
        if len(w) >= 2 and w[0] in ("caught", "MISSED"):
            seen[w[1]] = w[0]
    out = ["| planted bug | needs | caught by the quick check of |", "|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(V, "seeded"))):
        d = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        out.append(f"| {i} | {d['needs']} | {d['property'] if seen.get(i, 'caught') == 'caught' else 'not caught'} |")
    return out

p = os.path.join(V, "DESIGN.md")
s = open(p).read()
for mark, rows in (("models", table_models()), ("walks", table_walks()), ("seeds", table_seeds(sys.argv[1] if len(sys.argv) > 1 else None))):
    s = re.sub(rf"(<!-- {mark} -->\n).*?(<!-- /{mark} -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
