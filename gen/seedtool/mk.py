#!/usr/bin/env python3
"""mk.py SPEC.py [id...]: writes the planted bugs a spec lists to /verif/seeded and confirms each in a scratch copy.

A spec calls bug(id, property, crate, [(file, old, new), ...], needs, breaks, demo, inside="")."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
W = "/tmp/seedwork"
BUGS = []


def bug(id, property, crate, edits, needs, breaks, demo, inside=""):
    BUGS.append((id, property, crate, edits, needs, breaks, demo, inside))


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), dict(bug=bug))
    only = set(sys.argv[2:])
    if not os.path.isdir(W):
        sh(["cp", "-a", "/repo", W])
    for id, prop, crate, edits, needs, breaks, demo, inside in BUGS:
        if only and id not in only:
            continue
        sh(["git", "-C", W, "checkout", "-q", "--", "."])
        for f, old, new in edits:
            s = open(f"{W}/{f}").read()
            if s.count(old) < 1:
                print(id, "NOT FOUND", old[:80]); break
            open(f"{W}/{f}", "w").write(s.replace(old, new, 1))
        else:
            d = f"{SEEDED}/{id}"
            os.makedirs(d, exist_ok=True)
            open(f"{d}/patch.diff", "w").write(sh(["git", "-C", W, "diff"]).stdout)
            t = open(HERE + "/demo.sh").read()
            name = {"sync-lsp": "sync-ls"}.get(crate, crate)
            t = t.replace("@CRATE@", crate).replace("@INSIDE@", inside).replace("@SELECT@", f"-p {name} " + {"sync-lsp": "--features lsp,dap,server ", "tinymist-std": "--features system "}.get(crate, "") + ("--bin tinymist-l10n" if inside.endswith("main.rs") else "--lib" if inside else "--test planted_demo"))
            open(f"{d}/demo.sh", "w").write(t); os.chmod(f"{d}/demo.sh", 0o755)
            open(f"{d}/demo.rs", "w").write(demo.strip() + "\n")
            json.dump(dict(property=prop, needs=" ".join(needs.split()), what_it_breaks=" ".join(breaks.split())), open(f"{d}/meta.json", "w"), indent=1)
            print(id, "written", flush=True)
        sh(["git", "-C", W, "checkout", "-q", "--", "."])


main()
