"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py`."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "rad-sim/"
P = []


def prop(id, title, statement, over, text, why, files, mech, check=None, technique=None, note=None, na=None,
         observe=None, state=None):
    a = {"files": [R + f for f in files],
         "mechanism": [{"name": m.split(" @ ")[0], "where": R + m.split(" @ ")[1]} for m in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": s[0], "meaning": s[1], "where": R + s[2]} for s in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a, _check=check, _tech=technique, _note=note, _na=na))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]

checks, na = [], []
for p in P:
    if p["_check"]:
        checks.append(dict(property=p["id"], quick_cmd="python3 checks/%s quick" % p["_check"],
                           thorough_cmd="python3 checks/%s thorough" % p["_check"], technique=p["_tech"],
                           level="model_checking", level_note=p["_note"]))
    else:
        na.append(dict(property=p["id"], reason=p["_na"] or "no check built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Model checking of the implementation: real code run under an exhaustive fork-based explorer or "
               "explicit-state search; see DESIGN.md. No hooks in /repo are needed.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
