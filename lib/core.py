"""Registry, reporting and the shared analysed program."""
import glob, json, os, re, sys, time, traceback
import build

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REGISTRY = {}
_prog = {}


def program(which=1):
    """1: the crates that build offline; 2: those that build against the interface stubs"""
    if which not in _prog:
        import build, mir

        d = build.dumps(which)
        _prog[which] = mir.Program(sorted(glob.glob(d + "/*.json")))
    return _prog[which]


def check(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f

    return deco


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = []  # (rule, site, ok, message, key, span)
        self.rules = {}
        self.fns = set()
        self.paths = 0
        self.states = 0
        self.notes = []
        self.floors = []
        self.which = 1

    # -- recording
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, site, ok, msg="", key=None, span=""):
        """one obligation: `rule` at `site` holds (ok) or not (message says what)"""
        self.obl.append((rule, site, bool(ok), msg, key or f"{rule}|{site}", span))
        return ok

    def floor(self, what, have, want):
        self.floors.append((what, have, want))
        if have < want:
            self.obl.append(("coverage", what, False, f"analysed only {have} {what}, expected at least {want}: the rule would pass vacuously", f"coverage|{what}", ""))

    def anchor(self, what, x):
        """an entity the rule is about has to exist"""
        if not x:
            self.obl.append(("anchor", what, False, f"{what} not found: the property's subject is gone", f"anchor|{what}", ""))
        return x

    # -- analysis helper
    def paths_of(self, body, **kw):
        import mir

        if kw.get("cut"):
            kw.setdefault("iters", True)
        ps, it = mir.analyze(program(self.which), body, **kw)
        ps = [p for p in ps if not impossible(p)]
        self.fns |= it.visited_fns
        self.paths += len(ps)
        self.states += it.nstates
        return ps

    def note(self, s):
        self.notes.append(s)


INTO_STRING = re.compile(r"(EcoString|String) as std::fmt::Write>::write_(fmt|str|char)$")


def impossible(p):
    """a path on which formatting into a string fails: it cannot"""
    return any(f == ("eq", "Err") and v.op in ("call", "pure") and isinstance(v.a[0], str) and INTO_STRING.search(v.a[0]) for v, f in p.facts.items())


def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def run(pid, tier="quick", quiet=False):
    c = Check(pid, tier)
    try:
        REGISTRY[pid](c)
    except build.BuildError as e:  # nothing can be said about sources that do not compile
        print(f"{pid}: not decided: {e}")
        return 2
    except Exception as e:  # fail closed: the property could not be established
        tb = traceback.format_exc()
        c.obl.append(("engine", type(e).__name__, False, f"the analysis could not complete: {e}", "engine|" + type(e).__name__, ""))
        c.notes.append(tb)
    wall = time.time() - c.t0
    bad = [o for o in c.obl if not o[2]]
    known = {k["key"]: k for k in known_findings() if k["property"] == pid}
    seen_known, viol = {}, {}
    for o in bad:
        if o[4] in known:
            seen_known[o[4]] = o
        else:
            viol.setdefault(o[4], o)
    rules = {}
    for r, site, ok, *_ in c.obl:
        e = rules.setdefault(r, {"rule": c.rules.get(r, ""), "obligations": 0, "discharged": 0, "sites": []})
        e["obligations"] += 1
        e["discharged"] += ok
        if site not in e["sites"] and len(e["sites"]) < 60:
            e["sites"].append(site)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "static analysis of the current source of /repo: every obligation is a rule instance at a named construct, decided on all abstract paths of the functions listed; nothing of /repo is executed",
            "obligations": len(c.obl),
            "discharged": len(c.obl) - len(bad),
            "functions_analysed": len(c.fns),
            "paths": c.paths,
            "abstract_states": c.states,
            "rules": rules,
            "functions": sorted(c.fns)[:400],
            "floors": [{"what": w, "have": h, "want": n} for w, h, n in c.floors],
            "notes": c.notes,
        },
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(c.obl)} obligations, {len(c.obl) - len(bad)} discharged, {len(c.fns)} functions, {c.paths} paths, {c.states} states, {wall:.1f}s")
    for k, o in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {o[1]}: {o[3]}")
    rp = f"{HERE}/evidence/{pid}.replay.txt"
    if os.path.exists(rp):
        os.unlink(rp)
    if viol:
        with open(rp, "w") as f:
            for k, o in sorted(viol.items()):
                f.write(f"[{o[0]}] {o[1]}\n  rule: {c.rules.get(o[0], '')}\n  violation: {o[3]}\n  at: {o[5]}\n  key: {k}\n\n")
            for n in c.notes:
                f.write(n + "\n")
        for k, o in sorted(viol.items())[:12]:
            print(f"  [{o[0]}] {o[1]} {o[5]}\n      {o[3][:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0
