"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique,
                  note=note, observe=observe))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        anch = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]:
            anch["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=anch)) + "\n")
m = dict(
    version=1,
    setup_cmd="bash run.sh --setup",
    checks=[dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick bash run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p['id']}",
                 technique=p["technique"], level="exploration", level_note=p["note"], evidence_file=f"evidence/{p['id']}.json") for p in P],
    hooks=dict(guard="none", enable="none: all monitors observe the public API from outside, no hook is compiled into /repo", source_commits=[]),
    not_applicable=[],
    notes="All checks import obp from /repo's working tree in place (nothing is cached); see DESIGN.md.",
)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
