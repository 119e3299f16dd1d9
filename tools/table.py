"""Development tool: writes section 6 of DESIGN.md from the output of tools/catch.py.

python3 tools/table.py CATCH.json [...]
"""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for path in sys.argv[1:]:
    res.update(json.load(open(path)))
names = [n for n in os.listdir(f"{VERIF}/seeded") if n in res]
out = [
    "## 6. Seeded changes and the facets which report them\n",
    "",
    "Every change compiles, passes the stable tests, and has a demonstration.  Facets are those of the quick tier with seed 1 which",
    "reported a violation on a tree with the change (of the check of the property of the change; other checks often report it as",
    "well).\n",
    "",
    "| property | change | needs | reported by |",
    "|----------|--------|-------|-------------|",
]
clean = lambda s: " ".join(str(s).split()).replace("|", "/")  # noqa: E731
for n in sorted(names, key=lambda n: (res[n]["property"], n)):
    r = res[n]
    out.append(f"| {r['property']} | {n} | {clean(r['needs'])} | {', '.join(r.get('facets', [])) if r['result'] == 'caught' else 'missed'} |")
p = f"{VERIF}/DESIGN.md"
text = open(p).read()
i = text.find("## 6. ")
text = (text if i < 0 else text[:i]).rstrip("\n") + "\n\n" + "\n".join(v.rstrip("\n") for v in out) + "\n"
open(p, "w").write(text)
