"""rewrite the table of planted bugs in DESIGN.md from /verif/seeded and tools/detected.json"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(root + "/tools/detected.json")) if os.path.exists(root + "/tools/detected.json") else {}
rows = ["| bug | property | breaks | reported by |", "|-----|----------|--------|-------------|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {', '.join(det.get(d, [])) or 'not yet run'} |")
s = open(root + "/DESIGN.md").read()
a = s.index("## 5. Planted bugs") + len("## 5. Planted bugs"); b = s.index("## 6. Not applicable")
note = open(root + "/tools/seednotes.txt").read() if os.path.exists(root + "/tools/seednotes.txt") else ""
s = s[:a] + "\n\n" + "\n".join(rows) + "\n\n" + note + "\n" + s[b:]
open(root + "/DESIGN.md", "w").write(s)
