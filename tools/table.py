"""Writes the table of planted bugs in DESIGN.md: table.py RESULTS (output of seeds.sh)."""
import json, re, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
res = {}
for line in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) exit=(\d+)", line)
    if m:
        res.setdefault(m[1], []).append(m[2] + (" caught" if m[3] == "1" and "VIOLATION" in line else " MISSED"))
rows = ["| bug | needs | check |", "|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    rows.append(f"| `{d.name}` | {m['needs']} | {', '.join(res.get(d.name, [m['property'] + ' not run']))} |")
p = V / "DESIGN.md"
s = p.read_text()
start = s.index("result of that.\n") + len("result of that.\n")
end = s.find("\n\n## ", start)
p.write_text(s[:start] + "\n" + "\n".join(rows) + ("\n" if end < 0 else s[end:]))
