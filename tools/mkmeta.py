"""Regenerates properties.jsonl, MANIFEST.json and vf/rules.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, rule, technique, note="",
         assumptions=(), observe=(), claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, rule=rule, technique=technique, note=note,
                  assumptions=list(assumptions), observe=list(observe), claimed=claimed))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(
                files=p["files"],
                mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                observe_at=p["observe"] or ["public API: return values of diffrax calls"],
                hook_needed=None),
        )) + "\n")
man = dict(
    version=1,
    setup_cmd="python3 vf/boot.py",
    checks=[dict(
        property=p["id"],
        quick_cmd=f"python3 run.py {p['id']} --tier quick",
        thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique="property-based testing: " + p["technique"],
        level="exploration",
        level_note=("Generated-input search, no proof: holds on everything explored. "
                    + p["note"]).strip(),
    ) for p in P if p["claimed"]],
    not_applicable=[dict(property=p["id"], reason="not built yet")
                    for p in P if not p["claimed"]],
    notes="No hooks in /repo; every check drives the public API of the working tree in "
          "/repo in fresh worker processes. `python3 run.py <ID> --replay FILE` re-runs "
          "one shrunk case.",
)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump({p["id"]: dict(rule=p["rule"], assumptions=p["assumptions"]) for p in P},
          open(os.path.join(ROOT, "vf", "rules.json"), "w"), indent=1)
