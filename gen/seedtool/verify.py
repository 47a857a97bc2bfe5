#!/usr/bin/env python3
"""verify.py [id...]: each planted bug applies, builds, passes the stable tests, its demo tells it apart, and which check catches it."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


ids = sys.argv[1:] or sorted(os.listdir(f"{V}/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert not sh("git -C /repo status --porcelain").stdout
for i in ids:
    d = f"{V}/seeded/{i}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    out = []
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    out.append(f"clean demo {r.returncode}" + ("" if r.returncode == 0 else " XXXX " + r.stdout[-1500:] + r.stderr[-300:]))
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode:
            print(i, "does not apply", r.stderr); continue
        r = sh("bash /opt/vp/build.sh")
        out.append("build " + ("ok" if r.returncode == 0 else "XXXX " + r.stderr[-1500:]))
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        t = json.load(open("/tmp/seedtest.json"))
        bad = [x for x in stable if x not in json.dumps(t.get("passed", t)) or x in json.dumps(t.get("failed", []))]
        out.append("tests " + ("ok" if not bad else f"XXXX {bad}"))
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        out.append(f"patched demo {r.returncode}" + ("" if r.returncode == 1 else " XXXX " + r.stdout[-1500:]))
        r = sh(f"python3 {V}/check.py {prop}", cwd=V)
        m = re.findall(r"^  \[.*", r.stdout, re.M)
        out.append(f"{prop} " + ("caught " + (m[0].strip()[:110] if m else "") if r.returncode == 1 else f"MISSED rc={r.returncode}"))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, "|", " | ".join(out), flush=True)
sh("bash /opt/vp/build.sh")
