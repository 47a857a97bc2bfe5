#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

MIR = "path-sensitive value-provenance dataflow over type-checked, instance-level MIR (own rustc_private driver + abstract interpreter); obligations at every call site/path"


def prop(id, title, statement, over, text, why, files, mech, observe, na=None, technique=MIR, note=""):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=text), why_tests_cant=" ".join(why.split()),
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe), _na=na, _tech=technique, _note=" ".join(note.split())))


for f in ("p_ls.py", "p_std.py", "p_core.py", "p_vfs.py", "p_pkg.py", "p_project.py", "p_world.py", "p_task.py", "p_entry.py", "p_cli.py", "p_font.py", "p_diag.py"):
    p = os.path.join(HERE, "gen", f)
    if os.path.exists(p):
        exec(compile(open(p).read(), p, "exec"))


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids), "duplicate id"
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"] + " title"
        assert set(p["quantifier"]["over"]) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}, p["id"]
        n = len(re.findall(r"\.(?= [A-Z]|$)", p["statement"]))
        if n > 3:
            print(p["id"], n, "sentences")
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                   technique=p["_tech"], level="other", level_note=p["_note"] or "all abstract paths of the anchored functions of the current tree, sound up to the assumptions listed in DESIGN.md")
              for p in PROPS if not p["_na"]]
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
             hooks=dict(guard="none: nothing is instrumented, the analysis reads the sources as they are", enable="", source_commits=[]),
             not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in PROPS if p["_na"]],
             notes="Every check analyses the sources of /repo as they are at the time of the run; nothing of /repo is executed. See DESIGN.md.")
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")


main()
