"""Writes DESIGN.md."""
import glob, json, os, re
from props import PROPS, NA

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")


def write():
    rules = {}
    for f in glob.glob(root + "/checker/rules_*.go"):
        for m in re.finditer(r'register\("(\w+)", "((?:[^"\\]|\\.)*)"', open(f).read()):
            rules[m.group(1)] = m.group(2).replace('\\"', '"')
    out = [open(root + "/tools/design.head.md").read(), "\n## Property by property\n"]
    for p in PROPS:
        if p["id"] in NA:
            continue
        out.append(f"\n### {p['id']} {p['title']}\n\n")
        out.append(p["statement"] + "\n\n")
        out.append("* **Decided by:** " + p["technique"] + ". " + rules.get(p["id"], "") + "\n")
        out.append("* **Quantifies over:** " + p["quant"] + ". " + "**Beyond the tests:** " + p["why"] + "\n")
        out.append("* **Anchored in:** " + "; ".join(f"{n} ({w})" for n, w in p["mech"]) + "\n")
    out.append("\n" + open(root + "/tools/design.tail.md").read())
    out.append("\n## Planted bugs and the checks that catch them\n\nEvery one is reported by the check of its own property (validated with tools/seed.py).\n\n")
    for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
        m = json.load(open(d))
        out.append(f"* {os.path.basename(os.path.dirname(d))}: {m['property']}. {m['what_it_breaks']}\n")
    open(root + "/DESIGN.md", "w").write("".join(out))
