"""Writes properties.jsonl and MANIFEST.json from the list of properties below and the drivers present"""
import os, json, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None), _note=note)
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
exec(open(os.path.join(HERE, "props.py")).read())
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, p["id"].lower()+".py")):
        checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="TLA+ specification checked with TLC; behaviours generated from it are replayed into the real code and the recorded trace is validated against it by TLC",
            level="model_checking", level_note=p["_note"] or "bounded: the model exhaustively within the cfg bounds, the code on the generated behaviours and cases of the run"))
    else:
        na.append(dict(property=p["id"], reason="no check built for it yet"))
man = dict(version=1, setup_cmd="bash /opt/vp/build.sh ext", checks=checks, not_applicable=na,
    notes="TLA+ with TLC. ./check PNN [quick|thorough], ./check PNN --replay FILE")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
print(len(checks), "claimed,", len(na), "not")
