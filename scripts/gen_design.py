"""Fill the tables of DESIGN.md between their markers from the check modules, seeds and catches."""
import ast, glob, json, pathlib, re
R = pathlib.Path(__file__).parent.parent
props = {d["id"]: d for d in map(json.loads, open(R / "properties.jsonl"))}
rows = ["| id | property | decided by | limits and tolerances | quick: states / comparisons / s |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(str(R / "mc/checks/h*.py"))):
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    i = d["id"]
    e = R / "evidence" / f"{i}.json"
    if not e.exists():
        e = pathlib.Path("/verif/evidence") / f"{i}.json"
    num = ""
    if e.exists():
        e = json.load(open(e)); c = e["coverage"]
        num = f"{c.get('states')} / {c.get('transitions')} / {e['wall_s']:.0f}"
    rows.append(f"| {i} | {props[i]['title']} | {d['technique']} | {d.get('level_note','')} | {num} |")
catch = json.load(open(R / "scripts/catches.json"))
srows = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for p in sorted((pathlib.Path("/verif/seeded")).glob("*/meta.json")):
    m = json.load(open(p)); n = p.parent.name
    srows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {catch.get(n, '?')} |")
s = (R / "DESIGN.md").read_text()
def put(s, tag, lines):
    b, e = f"<!-- {tag} -->", f"<!-- /{tag} -->"
    body = f"{b}\n" + "\n".join(lines) + f"\n{e}"
    if f"@@{tag}@@" in s:
        return s.replace(f"@@{tag}@@", body)
    return re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: body, s, flags=re.S)
(R / "DESIGN.md").write_text(put(put(s, "TABLE", rows), "SEEDS", srows))
