"""Writes DESIGN.md from design_head.md, properties.jsonl, MANIFEST.json, the checks' own constants, design_notes.md, design_tail.md."""
import ast
import json
import re
from pathlib import Path

T = Path(__file__).resolve().parent
ROOT = T.parent


def constants(path):
    out = {}
    tree = ast.parse(path.read_text())
    out["doc"] = ast.get_docstring(tree)
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


notes = {}
for part in re.split(r"^## ", (T / "design_notes.md").read_text(), flags=re.M)[1:]:
    k, _, v = part.partition("\n")
    notes[k.strip()] = v.strip()

checks = {c["property"]: c for c in json.load(open(ROOT / "MANIFEST.json"))["checks"]}
res = [(T / "design_head.md").read_text()]
for line in open(ROOT / "properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    c = checks.get(pid)
    k = constants(ROOT / "checks" / f"{pid}.py")
    b = k.get("BOUNDS", {})
    res.append(f"### {pid} {p['title']}\n")
    res.append(f"* **Specified**: {p['statement']}")
    res.append(f"* **Anchored in**: {', '.join('`' + f + '`' for f in p['anchors']['files'])}")
    res.append(f"* **Enumerated** ({c['technique']}): {k.get('RULE', '')}")
    res.append(f"* **Bounds**: quick: {b.get('quick')}; thorough: {b.get('thorough')}")
    if k.get("ASSUMPTIONS"):
        a = k["ASSUMPTIONS"]
        res.append("* **Assumes**: " + (a if isinstance(a, str) else "; ".join(a)))
    if c.get("level_note"):
        res.append(f"* **Note**: {c['level_note']}")
    res.append(f"* **Why tests cannot**: {p['why_tests_cant']}")
    if pid in notes:
        res.append("* " + notes[pid].replace("\n", "\n  "))
    res.append("")
res.append((T / "design_tail.md").read_text())
(ROOT / "DESIGN.md").write_text("\n".join(res))
