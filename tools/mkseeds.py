"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(here + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
rows.sort()
t = f"""## 6. Planted bugs

{len(rows)} changes are kept in `seeded/`; each builds, passes the 30 stable tests, and has a demonstration that fails only
with it. The check of the property in the first column catches each of them with the quick tier.

| Property | Change | What it breaks |
|---|---|---|
""" + "".join(f"| {p} | {i} | {w} |\n" for p, i, w in rows)
p = here + "/DESIGN.md"
s = open(p).read()
i = s.find("## 6. Planted bugs")
j = s.find("\n### 6.1", i) if i >= 0 else -1
tail = s[j:] if j >= 0 else ""
s = (s[:i] if i >= 0 else s.rstrip() + "\n\n") + t + tail
open(p, "w").write(s)
