"""python3-vt tools/mkdesign.py : rewrites the generated part of DESIGN.md (per property tables) from props/spec.py, props/k_*.py, props/bounded.py and seeded/"""
import importlib, json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import bounded, spec

out = []
for pid, p in spec.PROPS.items():
    out.append(f"### {pid} {p['title']}\n")
    out.append("Under contract, proved for all inputs (function: what is ensured):\n")
    for c in p["contracts"]:
        m, n = c.split(".")
        k = getattr(importlib.import_module("props." + m), n)
        pre = "; ".join(a for a, _ in k.requires if not a.startswith("pre"))
        out.append(f"* `{k.fn}`{' (' + k.key.split(':')[-1] + ')' if getattr(k, 'key', None) and k.key != k.fn else ''}: " + "; ".join(a for a, _ in k.ensures) + (f" — requires: {pre}" if pre else ""))
    if p["lemmas"]:
        out.append("\nLemmas (induction, discharged like the functions): " + ", ".join(x.split(".")[1] for x in p["lemmas"]))
    if p["bounded"]:
        out.append("\nBounded stand-ins (seeded inputs on the compiled code, never counted as proved):\n")
        for b in p["bounded"]:
            q = getattr(bounded, b.split(".")[1])
            out.append(f"* `{q.name}` for `{q.fn}`: {q.bound}; {q.n_quick} inputs at most (quick), {q.n_thorough} (thorough)")
        if p["bounded_note"]:
            out.append("  Left to them: " + "; ".join(p["bounded_note"]) + ".")
    if p["assumptions"]:
        out.append("\nAssumptions: " + "; ".join(p["assumptions"]) + ".")
    if p["note"]:
        out.append("\n" + p["note"])
    out.append("")
out.append("## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|")
caught = json.load(open(os.path.join(HERE, "tools", "caught.json"))) if os.path.exists(os.path.join(HERE, "tools", "caught.json")) else {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '')} |")
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
A, B = "<!-- generated: tools/mkdesign.py -->", "<!-- end generated -->"
i, j = t.index(A) + len(A), t.index(B)
open(p, "w").write(t[:i] + "\n" + "\n".join(out) + "\n" + t[j:])
