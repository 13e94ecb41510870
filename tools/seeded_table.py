"""Rewrites the table of planted changes in DESIGN.md (between its two marks) from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set((open(os.path.join(V, "tools", "missed_first.txt")).read()).split())
rows = ["| change | property, whose quick check reports it | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    c = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "/").strip()
    rows.append(f"| {i}{' †' if i in MISSED else ''} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
s = s[: s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(d, "w").write(s)
print(len(rows) - 2, "planted changes")
