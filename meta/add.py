"""helper to add or replace properties in meta/props/<file>.json"""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
RT = " The contract is compiled from source and runs in a small SCORE runtime written for these checks (no score-api jar is installed), so behaviour of the real execution environment such as step limits is not covered."


def P(id, title, st, over, qt, why, files, mech, obs, tech, note):
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None),
                check=dict(technique=tech, note=note))


def put(name, props):
    f = os.path.join(D, name + ".json")
    old = json.load(open(f)) if os.path.exists(f) else []
    ids = {p["id"] for p in props}
    json.dump([p for p in old if p["id"] not in ids] + props, open(f, "w"), indent=1)
