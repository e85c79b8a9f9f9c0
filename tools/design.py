"""Fills the generated parts of DESIGN.md: the coverage table (from evidence/, after a clean run of all checks) and the
planted-bug table (from seeded/*/meta.json and the results of tools/plant.py in tools/caught.json)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| check | level | cases | executions on real code | model states | transitions | wall s |", "|---|---|---|---|---|---|---|"]
for i in range(1, 28):
    e = json.load(open(f"{ROOT}/evidence/C{i:02}.json"))
    c = e["coverage"]
    assert e["tier"] == "quick" and not e["violations"], i
    rows.append("| C%02d | %s | %d | %s | %s | %s | %.0f |" % (
        i, e["level"], c["evaluations"], c.get("executions") or c.get("traces_validated_against_impl") or c["evaluations"],
        c.get("states", "") or "", c.get("transitions", "") or "", e["wall_s"]))
caught = json.load(open(f"{ROOT}/tools/caught.json"))
bugs = ["| bug | what it breaks | check |", "|---|---|---|"]
for b in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
    bugs.append(f"| {b} | {m['what_it_breaks']} | {caught.get(b, m['property'] + ' MISSED')} |")
s = open(f"{ROOT}/DESIGN.md").read()
for name, lines in (("table", rows), ("bugs", bugs)):
    s = re.sub(f"<!-- {name} -->.*<!-- /{name} -->", lambda _: f"<!-- {name} -->\n" + "\n".join(lines) + f"\n<!-- /{name} -->", s, flags=re.S)
open(f"{ROOT}/DESIGN.md", "w").write(s)
