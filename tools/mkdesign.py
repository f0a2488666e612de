"""Fills the generated tables of DESIGN.md: fixed defects (from known_findings.txt) and planted bugs (from seeded/)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(f"{root}/DESIGN.md").read()


def put(name, rows):
    global text
    text = re.sub(f"<!-- {name} -->.*?<!-- /{name} -->", lambda _: f"<!-- {name} -->\n" + "\n".join(rows) + f"\n<!-- /{name} -->", text, flags=re.S)


rows = ["| property | commit | what failed |", "|---|---|---|"]
for line in open(f"{root}/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        rows.append("| " + " | ".join(m.groups()) + " |")
put("fixes", rows)

caught = json.load(open(f"{root}/tools/caught.json"))
rows = ["| bug | property | needs | quick checks that catch it |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(caught.get(d, [])) or 'missed'} |")
put("seeded", rows)
open(f"{root}/DESIGN.md", "w").write(text)
