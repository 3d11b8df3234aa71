#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties whose check exists)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CB, BEM, AF, AP, CS, OM = (
    "ccblade/ccblade.py", "ccblade/src/bem.f90", "ccblade/airfoilprep.py", "ccblade/Polar.py", "ccblade/csystem.py", "ccblade/ccblade_component.py",
)
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


exec(open(os.path.join(V, "tools", "table.py")).read())

have = [p for p in P if os.path.exists(os.path.join(V, "props", p["id"].lower() + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in have:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None),
        )) + "\n")
man = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[
        dict(
            property=p["id"],
            quick_cmd="./check %s --tier quick" % p["id"],
            thorough_cmd="./check %s --tier thorough" % p["id"],
            technique=p["technique"],
            level="exploration",
            level_note=p["note"],
        )
        for p in have
    ],
    not_applicable=[],
    notes="No hooks were needed in /repo: every monitor observes the public interface, so the checks judge behaviour, not how the code is written.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(have), "properties")
