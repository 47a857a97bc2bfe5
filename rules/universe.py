"""U: the compiler's universe, its snapshots and what is computed on them (crate tinymist-world, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
import vfs
from vfs import SELF, call_name, field, fpath, nexts, payload
from pkg import closure_runs, unwrap
from project import sp, cells, subvalues, cmp_eq, is_default, root_of, under, strip_get, beval, assignments, table

W = "tinymist_world"
VERSE = ("entry", "inputs", "features", "font_resolver", "registry", "vfs")


def anchored(c, rx, sig=None):
    return vfs.anchored(c, rx, sig, crate=W)


def all3(*xs):
    return False if False in xs else None if None in xs else True


def any3(*xs):
    return True if True in xs else None if None in xs else False


def not3(x):
    return None if x is None else not x


def flag(p, v):
    """truth of a value on a path"""
    b = beval(v, {})
    return b if b is not None else p.truth(v)


def equal(p, x, y):
    """whether the path knows that two values, each told by a predicate, are equal"""
    for v, f in p.facts.items():
        if f not in (("eq", "0"), ("eq", "1")):
            continue
        if v.op == "bin" and v.a[0] in ("Eq", "Ne"):
            a, b, neg = v.a[1], v.a[2], v.a[0] == "Ne"
        elif re.search(r"PartialEq(<.*>)?>?::(eq|ne)$", call_name(v)):
            a, b, neg = v.a[1][0], v.a[1][1], call_name(v).endswith("::ne")
        else:
            continue
        if (x(a) and y(b)) or (x(b) and y(a)):
            return (f[1] == "1") != neg
    return None


# ---------------------------------------------------------------------- U01
SETTERS = {
    "entry": ("view_changed",),
    "inputs": ("view_changed",),
    "features": ("view_changed",),
    "font_resolver": ("font_changed", "view_changed"),
    "registry": ("registry_changed", "view_changed"),
}
OPV = r"^log::|tinymist_vfs::|EntryState::(workspace_root|try_select|select|new_)|create_library|error_once|CompilerWorld::task$|increment_revision$"
CLEAN = r"Vfs(<.*>)?::(reset_all|reset_access_model|evict|revise|take_source_cache|clone_source_cache)$|RevisingVfs(<.*>)?::reset_cache$"


def mutators(c, holder):
    """functions that may change a universe, by what they are given"""
    P = program(c.which)
    out = []
    for f in P.fns:
        if f["crate"] == W and f["in"] and re.search(r"^&('?\w+ )?mut .*\b" + holder + r"\b|^[\w:]*\b" + holder + r"\b", f["in"][0]):
            b = P.bodies.get((W, f["id"]))
            if b is not None:
                out.append(b)
    return out


@check("U01")
def u01(c):
    c.which = 2
    c.rule("mark", "a change of the entry, inputs, fonts or packages of a universe is marked for the revision being made, on every path that makes it")
    c.rule("through", "the state of a universe changes only while a revision is made; everything else that is done to its file system drops caches")
    c.rule("revision", "when the making of a revision ends, the revision is one more exactly if a change was marked or the files changed, and the view on the disk and, if the packages changed, the caches are dropped")
    c.rule("make", "making a revision notes the revisions of files, fonts and packages, runs the changes once on the universe, and ends")
    c.rule("set", "each change takes the value given; a change of the workspace root drops the caches; a file out of the workspace changes nothing")
    c.rule("shadow", "shadowing and unshadowing of files make a revision of the same change of the file system")
    n = defaultdict(int)
    marks(c, n)
    drops(c, n)
    makes(c, n)
    sets(c, n)
    shadows(c, n)
    for k in ("entry", "inputs", "font_resolver", "registry", "bumped", "kept", "make", "root kept", "root changed", "selected", "refused", "universe fns", "universe", "world"):
        c.floor("cases: " + k, n[k], 1)


def state_stores(p, below):
    """[(index, field, value)] of the universe's state written, `below` being where the universe is below self"""
    out = []
    for i, e in enumerate(p.events):
        if e.kind != "store" or not isinstance(e.extra, tuple) or e.extra[0].op != "H":
            continue
        r, fs = fpath(e.extra[0].a[0])
        fs = fs + tuple(x[1] for x in e.extra[1] if x[0] == "f")
        if r is SELF and fs[:len(below)] == below:
            out.append((i, fs[len(below):], e.res))
    return out


def marks(c, n):
    for b in mutators(c, "RevisingUniverse"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=OPV, hof=False, drops=None):
            if p.end == "diverge":
                continue
            st = cells(p, SELF)
            for i, fs, v in state_stores(p, ("inner",)):
                if not fs:
                    c.ob("mark", b.name, False, "the universe is replaced", span=b.span)
                elif fs[0] in SETTERS:
                    n[fs[0]] += 1
                    c.ob("mark", b.name, any(flag(p, st.get((m,), F(SELF, m))) is True for m in SETTERS[fs[0]]), f"the {fs[0]} of a universe changes without a new revision", span=b.span)
                elif fs[0] != "revision" or not b.name.endswith("::drop"):
                    c.ob("mark", b.name, False, f"the {fs[0]} of a universe is changed directly", span=b.span)
            for m in ("vfs_revision", "font_revision", "registry_revision"):
                c.ob("mark", b.name, (m,) not in st, "the revision to compare to changes while a revision is made", span=b.span)
    # the rest of the crate
    inner = set()
    for b in mutators(c, "CompilerUniverse"):
        if b.name.endswith("::increment_revision"):
            continue
        n["universe fns"] += 1
        for p in c.paths_of(b, events=r".", stores=True, opaque=OPV, hof=False):
            if p.end == "diverge":
                continue
            ch = [fs[0] if fs else "all" for _, fs, _ in state_stores(p, ())]
            ch += ["vfs: " + e.name.rsplit("::", 1)[1] for e in p.events if e.kind == "call" and e.name.startswith("tinymist_vfs::") and e.args and sp(e.args[0]) and sp(e.args[0])[:1] == ("vfs",)
                   and not re.search(CLEAN, e.name) and re.search(r"RevisingVfs", e.name)]
            ch += ["vfs: revise" for e in p.events if e.kind == "call" and re.search(r"RevisingVfs(<.*>)?::(?!reset_cache)\w+$", e.name) and any(sp(x) == ("vfs",) for x in subvalues(e.args[0]))]
            if not ch:
                c.ob("through", b.name, True, "", span=b.span)
                continue
            inner.add((b, tuple(sorted(set(ch)))))
    for b, ch in inner:
        # a helper of the changes: it is only used while a revision is made
        users = callers(c, b)
        ok = bool(users) and all(re.search(r"RevisingUniverse(<.*>)?::|CompilerUniverse::increment_revision", u) or any(u == x.name for x, _ in inner) for u in users)
        c.ob("through", b.name, ok, f"changes {', '.join(ch)} of a universe without a new revision", span=b.span)


def callers(c, b):
    out = set()
    for (k, i), u in program(c.which).bodies.items():
        if u.name == b.name:
            continue
        for bl in u.blocks:
            t = bl and bl["t"]
            if t and t["t"] == "call" and t["f"].get("k") == "fn":
                x = t["f"]["c"]
                if x.get("p", "").endswith(b.name) and x.get("krate", "") == W:
                    out.add(u.name)
    return out


def drops(c, n):
    VER, FONT, REG = [(lambda v, f=f: sp(v) == (f,)) for f in ("vfs_revision", "font_revision", "registry_revision")]
    now = lambda what: lambda v: bool(re.search(r"::revision$", call_name(v))) and (sp(unwrap(root_of(v.a[1][0]))) or ())[-1:] == (what,)
    for b in anchored(c, r"RevisingUniverse as .*Drop>::drop$"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=OPV, hof=False):
            if p.end != "return":
                continue

            def changed(mark, old, what):
                # a revision that is not there, or not compared, counts as changed
                return all3(flag(p, F(SELF, mark)), equal(p, lambda v: sp(v) == (old,), now(what)) is not True)

            reg = changed("registry_changed", "registry_revision", "registry")
            want = any3(flag(p, F(SELF, "view_changed")), changed("font_changed", "font_revision", "font_resolver"), reg, not3(equal(p, VER, now("vfs"))))
            st = cells(p, F(SELF, "inner"))
            rev = st.get(("revision",))
            calls = [e for e in p.events if e.kind == "call"]
            disk = [e for e in calls if re.search(r"Vfs(<.*>)?::reset_access_model$", e.name) and sp(e.args[0]) == ("inner", "vfs")]
            cache = [e for e in calls if re.search(r"RevisingVfs(<.*>)?::reset_cache$", e.name) and any(sp(x) == ("inner", "vfs") for x in subvalues(e.args[0]))]
            if rev is None:
                n["kept"] += 1
                c.ob("revision", b.name, want is False, "a change makes no new revision", span=b.span)
            else:
                n["bumped"] += 1
                c.ob("revision", b.name, want is not False, "a new revision without a change", span=b.span)
                c.ob("revision", b.name, one_more(rev, ("inner", "revision")), "the revision is not the next one", span=b.span)
                c.ob("revision", b.name, len(disk) > 0, "the new revision sees files as they were on the disk before", span=b.span)
            # the flag decides; when it is not looked at, something else must have decided already
            if reg is True:
                c.ob("revision", b.name, len(cache) == 1, "files of the former packages stay cached", span=b.span)
            elif reg is None:
                c.ob("revision", b.name, False, "it is not looked at whether the packages changed", span=b.span)


def one_more(v, fs):
    """the value is one more than a field of self"""
    w = v
    while True:
        if w.op == "proj" and w.a[1] in (("f", "0"), ("d", "Some")):
            w = w.a[0]
        elif re.search(r"::(unwrap|expect|get|new)$", call_name(w)) and w.a[1]:
            w = w.a[1][0]
        elif w.op == "bin" and w.a[0].startswith("Add"):
            return (sp(strip_get(w.a[1])) == fs and const_of(w.a[2]) == 1) or (sp(strip_get(w.a[2])) == fs and const_of(w.a[1]) == 1)
        elif re.search(r"::(checked_add|saturating_add)$", call_name(w)):
            return sp(strip_get(w.a[1][0])) == fs and const_of(w.a[1][1]) == 1
        else:
            return False


def makes(c, n):
    for b in anchored(c, r"CompilerUniverse::increment_revision$"):
        f = mk("arg", "f")
        for p in c.paths_of(b, events=r".", stores=True, opaque=OPV.replace("|increment_revision$", ""), hof=False, drops=r"RevisingUniverse"):
            if p.end != "return":
                continue
            n["make"] += 1
            run = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and re.search(r"Fn(Once|Mut)?(<.*>)?>?::call(_once|_mut)?$", e.name) and e.args[0] is f]
            end = [i for i, e in enumerate(p.events) if e.kind == "drop"]
            ok = len(run) == 1 and p.ret is run[0][1].res and any(i > run[0][0] for i in end)
            c.ob("make", b.name, ok, "the changes are not made once, or no revision is made after them", span=b.span)
            if not ok:
                continue
            r = run[0][1].args[1]
            r = r.a[4] if r.op == "agg" and r.a[0] == "tuple" else r
            if r.op == "ref":
                r = p.interp.resolve(run[0][1], p.interp.read(run[0][1], r.a))
            r0 = root_of(r)
            ok = field(r0, "inner") is SELF
            for fs, what in (("vfs_revision", "vfs"), ("font_revision", "font_resolver"), ("registry_revision", "registry")):
                v = field(r0, fs)
                if what != "vfs" and p.variant(v) == "None":
                    continue  # counts as changed
                ok = ok and bool(re.search(r"::revision$", call_name(v))) and sp(unwrap(root_of(v.a[1][0]))) == (what,) and [j for j, e in enumerate(p.events) if e.res is v][:1] < [run[0][0]]
            c.ob("make", b.name, ok, "the revisions before the changes are not those compared to", span=b.span)
            c.ob("make", b.name, all(const_of(field(r0, m)) in (0, False) or is_default(field(r0, m)) for m in ("view_changed", "font_changed", "registry_changed")), "something is marked as changed before any change", span=b.span)


def sets(c, n):
    for name, fs, arg in (("set_fonts", "font_resolver", "fonts"), ("set_package", "registry", "packages"), ("set_inputs", "inputs", "inputs")):
        for b in anchored(c, rf"RevisingUniverse::{name}$"):
            for p in c.paths_of(b, events=r".", stores=True, opaque=OPV, hof=False):
                if p.end == "return":
                    st = state_stores(p, ("inner",))
                    c.ob("set", b.name, len(st) == 1 and st[0][1] == (fs,) and st[0][2] is mk("arg", arg), f"the {fs} given is not taken", span=b.span)
    ROOT = lambda w: lambda v: bool(re.search(r"EntryState::workspace_root$", call_name(v))) and w(v.a[1][0])
    old, new = (lambda v: sp(v) == ("inner", "entry")), (lambda v: v is mk("arg", "state"))
    for b in anchored(c, r"RevisingUniverse::mutate_entry$"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=OPV, hof=False):
            if p.end != "return":
                continue
            st = state_stores(p, ("inner",))
            same = equal(p, ROOT(old), ROOT(new))
            n["root kept" if same else "root changed"] += 1
            cache = [i for i, e in enumerate(p.events) if e.kind == "call" and re.search(r"RevisingVfs(<.*>)?::reset_cache$", e.name) and any(sp(x) == ("inner", "vfs") for x in subvalues(e.args[0]))]
            c.ob("set", b.name, same is True or bool(cache), "files of the former workspace stay cached", span=b.span)
            # the roots are compared before the entry is replaced
            c.ob("set", b.name, len(st) == 1 and st[0][1] == ("entry",) and st[0][2] is mk("arg", "state") and p.variant(p.ret) == "Ok" and sp(payload(p.ret, "Ok")) == ("inner", "entry"), "the entry given is not taken, or the former one not given back", span=b.span)
    for b in anchored(c, r"RevisingUniverse::set_entry_file$"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=OPV, hof=False):
            if p.end != "return":
                continue
            if impossible(p):
                continue
            st = state_stores(p, ("inner",))
            sel = [e for e in p.events if e.kind == "call" and re.search(r"EntryState::try_select_path_in_workspace$", e.name)]
            ok = len(sel) == 1 and sp(unwrap(sel[0].args[0])) == ("inner", "entry") and unwrap(sel[0].args[1]) is mk("arg", "entry_file")
            c.ob("set", b.name, ok, "the entry is not looked for in the workspace", span=b.span)
            if not ok:
                continue
            if p.variant(p.ret) == "Ok":
                n["selected"] += 1
                v = st[0][2] if st else None
                c.ob("set", b.name, len(st) == 1 and st[0][1] == ("entry",) and located(v), "the file selected does not become the entry", span=b.span)
            else:
                n["refused"] += 1
                c.ob("set", b.name, not st, "the entry changes though the file is refused", span=b.span)


def located(v):
    """a value taken out of results and options only, which errors are given a place in"""
    while True:
        if v.op == "proj" and (v.a[1] == ("f", "0") or v.a[1][0] == "d"):
            v = v.a[0]
        elif v.op == "agg" and v.a[0] == "adt" and v.a[2] in ("Ok", "Some") and len(v.a) == 5:
            v = v.a[4]
        elif re.search(r"At(<.*>)?>?::at$", call_name(v)):
            v = v.a[1][0]
        else:
            return bool(re.search(r"EntryState::try_select_path_in_workspace$", call_name(v)))


def impossible(p):
    """paths on which giving an error a place makes it a success, or the other way around"""
    return any(re.search(r"At(<.*>)?>?::at$", call_name(v)) and {p.variant(v.a[1][0]), p.variant(v)} == {"Ok", "Err"} for v in p.facts)


SHADOW = {
    "reset_shadow": ("reset_shadow", ()),
    "map_shadow": ("map_shadow", ("path", "content")),
    "unmap_shadow": ("unmap_shadow", ("path",)),
    "map_shadow_by_id": ("map_shadow_by_id", ("file_id", "content")),
    "unmap_shadow_by_id": ("remove_shadow_by_id", ("file_id",)),
}


def shadows(c, n):
    for m, (op, want) in SHADOW.items():
        for who in ("CompilerUniverse", "CompilerWorld"):
            for b in anchored(c, rf"{who} as ShadowApi>::{m}$"):
                # what is done while a revision is made is followed on the universe itself
                for p in c.paths_of(b, events=r".", opaque=OPV, hof=False):
                    if p.end != "return":
                        continue
                    n["universe" if who == "CompilerUniverse" else "world"] += 1
                    inc = [e for e in p.events if e.kind == "call" and e.name.endswith("increment_revision")]
                    if who == "CompilerUniverse":
                        ok = len(inc) == 1 and unwrap(inc[0].args[0]) is SELF and p.ret is inc[0].res
                        c.ob("shadow", b.name, ok, "files are shadowed without a new revision", span=b.span)
                        if not ok:
                            continue
                        ru = mk("arg", "revising")
                        runs = closure_runs(c, p, inc[0].args[1], {2: ru}, at=inc[0], events=r".", opaque=OPV, stores=True) or []
                        c.ob("shadow", b.name, bool(runs), "what is changed cannot be told", span=b.span)
                    else:
                        ru, runs = SELF, [p]
                    for q in runs:
                        if q.end != "return":
                            continue
                        ops = [e for e in q.events if e.kind == "call" and re.search(r"RevisingVfs(<.*>)?::\w+$", e.name)]
                        ok = len(ops) == 1 and ops[0].name.endswith("::" + op)
                        if ok:
                            h = [x for x in subvalues(ops[0].args[0]) if x.op == "proj" and x.a[1] == ("f", "vfs")]
                            ok = any(fpath(x)[0] is ru for x in h) and shadowed(ops[0].args[1:], want)
                            ok = ok and (q.ret is ops[0].res or m in ("unmap_shadow_by_id", "reset_shadow") and (p.variant(q.ret) == "Ok" or m == "reset_shadow"))
                        c.ob("shadow", b.name, ok, f"{m} of a {who[8:].lower()} changes the file system otherwise", span=b.span)


def shadowed(args, want):
    if len(args) != len(want):
        return False
    for a, w in zip(args, want):
        a = unwrap(a)
        if w == "content":
            # a content that was read
            a = unwrap(a)
            if not (a.op == "agg" and a.a[2] == "Ok"):
                return False
            a = unwrap(a.a[4])
        if not named(a, w):
            return False
    return True


def named(v, w):
    return v is mk("arg", w) or v.op == "proj" and v.a[1][0] == "f" and re.sub(r"^_ref__", "", v.a[1][1]) == w


# ---------------------------------------------------------------------- U02
OPS = r"^log::|EntryState::(workspace_root|try_select|select|new_)|tinymist_vfs::|create_library|CompilerWorld::task$|increment_revision$|World>::(today|main)$|snapshot_with$|CompileSnapshot::(task|from_world)$|ShadowApi|SourceDb::(file|source)$"
ROOTOF = lambda w: lambda v: bool(re.search(r"EntryState::workspace_root$", call_name(v))) and w(v.a[1][0])


def less(rx):
    """the opaque functions without one"""
    return OPS.replace(rx, "|zzz")


def fresh(v):
    return is_default(v) or bool(re.search(r"(OnceLock|Mutex|HashMap)(<.*>)?::(new|default)$", call_name(v)))


def some_of(p, v, holder):
    """the value of an option: what is in it, None when it is none, or False"""
    x = F(holder, *v)
    if p.variant(x) == "Some":
        return payload(x, "Some")
    return None if p.variant(x) == "None" else False


def library_of(v, inputs, features):
    v = unwrap(v)
    return bool(re.search(r"create_library$", call_name(v))) and unwrap(v.a[1][0]) is inputs and features(unwrap(v.a[1][1]))


def same_snap(c, v, snap):
    return unwrap(v) is snap


@check("U02")
def u02(c):
    c.which = 2
    c.rule("snapshot", "a snapshot is of the universe's own entry, inputs, features, library, fonts, packages, files and revision, with nothing computed yet; the changes asked for are made to it")
    c.rule("fork", "a world made of another differs by the entry and inputs given, and the library made of these; it has the files, fonts, packages, features, revision, sources and day of the other, but no file read under another root")
    c.rule("content", "a snapshot with a content given compiles that content as its main file")
    c.rule("same", "a compile snapshot stays what it is when the entry and inputs asked for are its own, and is of a world made of its own otherwise")
    c.rule("graph", "a computation graph starts with nothing computed, unless it is a snapshot of one with the same world")
    c.rule("world", "typst sees the library, main file, fonts, files and sources of the world; only the detached file needs no file")
    c.rule("today", "the clock is read at most once by a world, and what typst is told is the date of that moment, in the offset asked for, or nothing when there is none")
    c.rule("library", "html is compiled with a library with html, pages with one that has html only if the project enables it")
    n = defaultdict(int)
    snapshots(c, n)
    forks(c, n)
    contents(c, n)
    compile_snapshots(c, n)
    graphs(c, n)
    world_is(c, n)
    days(c, n)
    libraries(c, n)
    for k in ("snapshot", "snapshot changed", "fork", "fork root", "content", "content detached", "same", "other", "graph", "graph kept", "detached", "world", "local day", "day at offset", "html", "html made", "paged", "paged made"):
        c.floor("cases: " + k, n[k], 1)


def snapshots(c, n):
    mu = mk("arg", "mutant")
    for b in anchored(c, r"CompilerUniverse::snapshot_with$"):
        for p in c.paths_of(b, events=r".", opaque=less("|snapshot_with$"), hof=False):
            if p.end != "return":
                continue
            w = p.ret
            if p.variant(mu) == "Some" or p.variant(mu) != "None":
                n["snapshot changed"] += 1
                ok = bool(re.search(r"CompilerWorld::task$", call_name(w))) and unwrap(w.a[1][1]) is payload(mu, "Some")
                c.ob("snapshot", b.name, ok, "the entry or inputs asked for are not taken", span=b.span)
                if not ok:
                    continue
                w = unwrap(w.a[1][0])
            n["snapshot"] += 1
            for f in ("entry", "inputs", "features", "font_resolver", "registry", "revision"):
                c.ob("snapshot", b.name, unwrap(field(w, f)) is F(SELF, f), f"a snapshot has another {f} than its universe", span=b.span)
            lib = library_of(field(w, "library"), F(SELF, "inputs"), lambda v: v is F(SELF, "features"))
            c.ob("snapshot", b.name, lib, "the library of a snapshot is not that of its inputs and features", span=b.span)
            v = field(w, "vfs")
            c.ob("snapshot", b.name, bool(re.search(r"Vfs(<.*>)?::snapshot$", call_name(v))) and v.a[1][0] is F(SELF, "vfs"), "the files of a snapshot are not those of its universe", span=b.span)
            db = field(w, "source_db")
            c.ob("snapshot", b.name, fresh(field(db, "slots")) and fresh(field(w, "now")), "something is computed before it is asked for", span=b.span)
            c.ob("snapshot", b.name, const_of(field(db, "is_compiling")) in (1, True), "files read by a compile are not noted as its dependencies", span=b.span)
    for b in anchored(c, r"CompilerUniverse::snapshot$"):
        for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
            if p.end == "return":
                ok = bool(re.search(r"snapshot_with$", call_name(p.ret))) and p.ret.a[1][0] is SELF and p.variant(p.ret.a[1][1]) == "None"
                c.ob("snapshot", b.name, ok, "a snapshot is not of the universe as it is", span=b.span)
    for b in anchored(c, r"CompilerWorld as .*Clone>::clone$"):
        for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
            if p.end == "return":
                ok = bool(re.search(r"CompilerWorld::task$", call_name(p.ret))) and p.ret.a[1][0] is SELF and (is_default(p.ret.a[1][1]) or all(none_like(p, field(p.ret.a[1][1], f)) for f in ("entry", "inputs")))
                c.ob("fork", b.name, ok, "a clone of a world is not of the same entry and inputs", span=b.span)


def none_like(p, v):
    return is_default(v) or p.variant(v) == "None"


def forks(c, n):
    mu = mk("arg", "mutant")
    for b in anchored(c, r"CompilerWorld::task$"):
        for p in c.paths_of(b, events=r".", opaque=less("|CompilerWorld::task$"), hof=False):
            if p.end != "return":
                continue
            n["fork"] += 1
            w = p.ret
            for f in ("features", "font_resolver", "registry", "revision"):
                c.ob("fork", b.name, unwrap(field(w, f)) is F(SELF, f), f"a fork has another {f} than its world", span=b.span)
            ent, inp = some_of(p, ("entry",), mu), some_of(p, ("inputs",), mu)
            for f, given in (("entry", ent), ("inputs", inp)):
                want = F(SELF, f) if given is None else given
                c.ob("fork", b.name, given is not False and unwrap(field(w, f)) is want, f"a fork has another {f} than asked for", span=b.span)
            lib = unwrap(field(w, "library"))
            made = library_of(lib, F(SELF, "inputs") if inp is None else inp, lambda v: v is F(SELF, "features"))
            c.ob("fork", b.name, made if inp is not None else lib is F(SELF, "library"), "the library of a fork is not that of its inputs and features", span=b.span)
            # the day: it is fixed before the fork, so that both are of the same
            day = [e for e in p.events if e.kind == "call" and re.search(r"World>::today$", e.name) and e.args[0] is SELF]
            c.ob("fork", b.name, len(day) > 0 and unwrap(field(w, "now")) is F(SELF, "now"), "a fork and its world may be of different days", span=b.span)
            v = field(w, "vfs")
            snap = [x for x in subvalues(v) if re.search(r"Vfs(<.*>)?::snapshot$", call_name(x))]
            ok = len({id(x) for x in snap}) == 1 and snap[0].a[1][0] is F(SELF, "vfs")
            c.ob("fork", b.name, ok, "the files of a fork are not those of its world", span=b.span)
            calls = [e for e in p.events if e.kind == "call" and re.search(r"RevisingVfs(<.*>)?::\w+$", e.name)]
            reset = [e for e in calls if e.name.endswith("::reset_cache") and any(x is snap[0] for x in subvalues(e.args[0]))] if snap else []
            c.ob("fork", b.name, len(reset) == len(calls), "the files of a fork are changed", span=b.span)
            db = unwrap(field(w, "source_db"))
            c.ob("fork", b.name, db is F(SELF, "source_db") or fresh(field(db, "slots")), "the sources of a fork are not those of its world", span=b.span)
            if ent is not None and ent is not False:
                kept = equal(p, ROOTOF(lambda v: v is F(SELF, "entry")), ROOTOF(lambda v: v is ent)) is True
                n["fork"] += 1
                if not kept:
                    n["fork root"] += 1
                    c.ob("fork", b.name, len(reset) > 0, "files read under the former root stay", span=b.span)


def contents(c, n):
    inp = mk("arg", "inputs")
    for b in anchored(c, r"CompilerUniverse::snapshot_with_entry_content$"):
        for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
            if p.end != "return":
                continue
            snaps = [e for e in p.events if e.kind == "call" and e.name.endswith("::snapshot_with") and e.args[0] is SELF]
            maps = [e for e in p.events if e.kind == "call" and re.search(r"ShadowApi>::map_shadow(_by_id)?$", e.name)]
            ok = len(snaps) == 1 and len(maps) == 1 and maps[0].name.endswith("by_id")
            c.ob("content", b.name, ok, "the content is not given to one snapshot", span=b.span)
            if not ok:
                continue
            w, m = snaps[0].res, maps[0]
            ok = root_of(m.args[0]) is w and unwrap(m.args[2]) is mk("arg", "content")
            ok = ok and bool(re.search(r"World>::main$", call_name(m.args[1]))) and root_of(m.args[1].a[1][0]) is w
            c.ob("content", b.name, ok, "the content is not that of the main file", span=b.span)
            snap = unwrap(field(unwrap(p.ret), "snap"))
            used = [x for x in subvalues(snap) if x is w]
            c.ob("content", b.name, bool(re.search(r"CompileSnapshot::from_world$", call_name(snap))) and bool(used) and (m.res in subvalues(snap) or any(x.op == "mut" and x.a[0] is m.res for x in subvalues(snap))), "the graph is not of the snapshot with the content", span=b.span)
            main = p.variant(F(SELF, "entry", "main"))
            mut = snaps[0].args[1]
            if main == "Some":
                n["content"] += 1
                c.ob("content", b.name, mut is inp, "the entry or inputs asked for are not taken", span=b.span)
            else:
                n["content detached"] += 1
                t = payload(mut, "Some")
                e, i = field(t, "entry"), unwrap(field(t, "inputs"))
                e = payload(e, "Some")
                ok = bool(re.search(r"EntryState::select_in_workspace$", call_name(e))) and unwrap(e.a[1][0]) is F(SELF, "entry") and any(isinstance(const_of(x), dict) and "MEMORY_MAIN_ENTRY" in str(const_of(x)) for x in subvalues(e))
                c.ob("content", b.name, ok, "a detached content is not the file in the memory", span=b.span)
                want = payload(inp, "Some")
                ok = i is F(want, "inputs") or p.variant(inp) == "None" and none_like(p, i)
                c.ob("content", b.name, ok, "the inputs asked for are not taken", span=b.span)


def compile_snapshots(c, n):
    inp = mk("arg", "inputs")
    for b in anchored(c, r"CompileSnapshot::task$"):
        for p in c.paths_of(b, events=r".", opaque=less("|CompileSnapshot::(task|from_world)$"), hof=False):
            if p.end != "return":
                continue
            w = field(p.ret, "world")
            for f in ("id", "signal"):
                c.ob("same", b.name, unwrap(field(p.ret, f)) is F(SELF, f), f"the {f} of a compile changes", span=b.span)
            if w is F(SELF, "world"):
                n["same"] += 1
                for f in ("entry", "inputs"):
                    g = some_of(p, (f,), inp)
                    ok = g is None or g is not False and equal(p, lambda v: unwrap(v) is g, lambda v: unwrap(v) is F(SELF, "world", f)) is True
                    c.ob("same", b.name, ok, f"another {f} is asked for, and not taken", span=b.span)
            else:
                n["other"] += 1
                ok = bool(re.search(r"CompilerWorld::task$", call_name(w))) and w.a[1][0] is F(SELF, "world") and unwrap(w.a[1][1]) is inp
                c.ob("same", b.name, ok, "the world of a compile is not its own with the changes asked for", span=b.span)
    for b in anchored(c, r"CompileSnapshot as .*Clone>::clone$"):
        for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
            if p.end == "return":
                for f in ("id", "signal", "world", "success_doc"):
                    c.ob("same", b.name, unwrap(field(p.ret, f)) is F(SELF, f), f"a clone of a compile has another {f}", span=b.span)
    for b in anchored(c, r"CompileSnapshot::from_world$"):
        for p in c.paths_of(b, events=r".", opaque=less("|CompileSnapshot::(task|from_world)$"), hof=False):
            if p.end == "return":
                sg = field(p.ret, "signal")
                no = all(is_default(field(sg, k)) or const_of(field(sg, k)) in (0, False) for k in ("by_mem_events", "by_fs_events", "by_entry_update")) or is_default(sg)
                c.ob("same", b.name, unwrap(field(p.ret, "world")) is mk("arg", "world") and p.variant(field(p.ret, "success_doc")) == "None" and no, "a compile is not of the world given", span=b.span)


def graphs(c, n):
    G = ("from_world", "new", "task", "snapshot")
    for m in G:
        for b in anchored(c, rf"WorldComputeGraph::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
                if p.end != "return":
                    continue
                g = unwrap(p.ret)
                s, e = unwrap(field(g, "snap")), unwrap(field(g, "entries"))
                if m == "snapshot":
                    n["graph kept"] += 1
                    ok = s is F(SELF, "snap") and (is_fresh_table(e) or any(x is F(SELF, "entries") for x in subvalues(e)))
                else:
                    n["graph"] += 1
                    if m == "new":
                        ok = s is mk("arg", "snap")
                    elif m == "from_world":
                        ok = bool(re.search(r"from_world$", call_name(s))) and unwrap(s.a[1][0]) is mk("arg", "world")
                    else:
                        ok = bool(re.search(r"CompileSnapshot::task$", call_name(s))) and unwrap(s.a[1][0]) is F(SELF, "snap") and unwrap(s.a[1][1]) is mk("arg", "inputs")
                    c.ob("graph", b.name, is_fresh_table(e), "what was computed on another world is used", span=b.span)
                c.ob("graph", b.name, ok, "a graph is of another snapshot", span=b.span)
    for m, want in (("computation", "None"), ("computation_with", "Some")):
        for b in anchored(c, rf"CompilerUniverse::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
                if p.end != "return":
                    continue
                g = unwrap(p.ret)
                s = unwrap(field(g, "snap"))
                w = s.a[1][0] if re.search(r"from_world$", call_name(s)) else None
                ok = w is not None and bool(re.search(r"snapshot_with$", call_name(w))) and w.a[1][0] is SELF and p.variant(w.a[1][1]) == want and (want == "None" or payload(w.a[1][1], "Some") is mk("arg", "mutant"))
                c.ob("graph", b.name, ok and is_fresh_table(unwrap(field(g, "entries"))), "what is computed is not of the universe as it is", span=b.span)


def is_fresh_table(v):
    return is_default(v) or fresh(v) and not any(x.op == "proj" for x in subvalues(v))


def world_is(c, n):
    for m, want in (("library", ("library",)), ("book", ("font_resolver", "font_book", None)), ("font", ("font_resolver", "font", "id"))):
        for b in anchored(c, rf"CompilerWorld as .*World>::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
                if p.end != "return":
                    continue
                v = unwrap(p.ret)
                if len(want) == 1:
                    ok = v is F(SELF, *want)
                else:
                    ok = call_name(v).endswith("::" + want[1]) and unwrap(v.a[1][0]) is F(SELF, want[0]) and (want[2] is None or v.a[1][1] is mk("arg", want[2]))
                n["world"] += 1
                c.ob("world", b.name, ok, f"the {m} is not that of the world", span=b.span)
    DET = lambda v: isinstance(const_of(v), dict) and "DETACHED_ENTRY" in str(const_of(v))
    main = F(SELF, "entry", "main")
    for b in anchored(c, r"CompilerWorld as .*World>::main$"):
        for p in c.paths_of(b, events=r".", opaque=less("|World>::(today|main)$")):
            if p.end != "return":
                continue
            if p.variant(main) == "Some":
                c.ob("world", b.name, unwrap(p.ret) is payload(main, "Some"), "the main file is not that of the entry", span=b.span)
            else:
                n["detached"] += 1
                c.ob("world", b.name, DET(unwrap(p.ret)), "the main file of no entry is not the detached one", span=b.span)
    for m in ("source", "file"):
        for b in anchored(c, rf"CompilerWorld as .*World>::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
                if p.end != "return":
                    continue
                v, i = unwrap(p.ret), mk("arg", "id")
                det = equal(p, lambda x: x is i, DET) is True
                if det and m == "source" and not re.search(r"SourceDb::", call_name(v)):
                    n["detached"] += 1
                    c.ob("world", b.name, p.variant(p.ret) == "Ok" and "DETACH_SOURCE" in show(p.ret), "the detached file has another source", span=b.span)
                else:
                    n["world"] += 1
                    ok = re.search(rf"SourceDb::{m}$", call_name(v)) and v.a[1][0] is F(SELF, "source_db") and v.a[1][1] is i and unwrap(v.a[1][2]) is SELF
                    c.ob("world", b.name, bool(ok), f"a {m} is not that of the world", span=b.span)
    for k, b in program(2).bodies.items():
        if k[0] == W and "DETACH_SOURCE" in b.name and "closure" in b.name:
            for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
                if p.end == "return":
                    ok = bool(re.search(r"Source::new$", call_name(p.ret))) and DET(unwrap(p.ret.a[1][0])) and (is_const_str(unwrap(p.ret.a[1][1]), "") or re.search(r"String::new$", call_name(p.ret.a[1][1])) or is_default(p.ret.a[1][1]))
                    c.ob("world", b.name, bool(ok), "the detached file is not empty", span=b.span)
    for m, op, args in (("file_path", "file_path", ("file_id",)), ("read", "read", ("file_id",)), ("read_source", "source", ("file_id",))):
        for b in anchored(c, rf"CompilerWorld as .*FsProvider>::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
                if p.end == "return":
                    ok = re.search(rf"Vfs(<.*>)?::{op}$", call_name(p.ret)) and p.ret.a[1][0] is F(SELF, "vfs") and p.ret.a[1][1] is mk("arg", "file_id")
                    c.ob("world", b.name, bool(ok), "files are not those of the file system of the world", span=b.span)
    for b in anchored(c, r"CompilerWorld as .*EntryReader>::entry_state$"):
        for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
            if p.end == "return":
                c.ob("world", b.name, unwrap(p.ret) is F(SELF, "entry"), "the entry is not that of the world", span=b.span)


def days(c, n):
    off = mk("arg", "offset")
    for b in anchored(c, r"CompilerWorld as .*World>::today$"):
        for p in c.paths_of(b, events=r".", opaque=r"^log::", hof=False):
            calls = [e for e in p.events if e.kind == "call"]
            clock = [e for e in calls if re.search(r"::now$", e.name)]
            c.ob("today", b.name, not clock, "the clock is read again", span=b.span)
            # what cannot be told must not end the compiler
            arith = [e for e in calls if re.search(r"chrono::.* as std::ops::(Add|Sub)(<.*>)?>::|TimeDelta::(hours|minutes|seconds|days|weeks)$", e.name)]
            c.ob("today", b.name, not arith, "an offset no date has ends the compiler", span=b.span)
            if p.end != "return":
                c.ob("today", b.name, p.end == "diverge" and not calls, "the compiler ends when it asks for the day", span=b.span)
                continue
            got = [e for e in calls if re.search(r"OnceLock(<.*>)?::get_or_(try_)?init$", e.name)]
            ok = len(got) == 1 and got[0].args[0] is F(SELF, "now")
            c.ob("today", b.name, ok, "the moment is not the one of this world", span=b.span)
            if not ok:
                continue
            now = lambda v: root_of(v) is got[0].res or any(x is got[0].res for x in subvalues(v))
            if re.search(r"from_ymd$", call_name(p.ret)):
                parts = [date_part(x) for x in p.ret.a[1]]
                ok = [x and x[0] for x in parts] == ["year", "month", "day"] and len({x[1] for x in parts if x}) == 1
                c.ob("today", b.name, ok, "the day told is not a day", span=b.span)
                if not ok:
                    continue
                v = unwrap(parts[0][1])
                if p.variant(off) == "None":
                    n["local day"] += 1
                    c.ob("today", b.name, bool(re.search(r"DateTime(<.*>)?::naive_local$", call_name(v))) and now(v), "the day is not the local one", span=b.span)
                else:
                    n["day at offset"] += 1
                    v = bare(v)
                    ok = bool(re.search(r"::checked_add_signed$", call_name(v)))
                    if ok:
                        u, d = unwrap(v.a[1][0]), bare(v.a[1][1])
                        ok = bool(re.search(r"DateTime(<.*>)?::naive_utc$", call_name(u))) and now(u) and bool(re.search(r"TimeDelta::try_hours$", call_name(d))) and unwrap(d.a[1][0]) is payload(off, "Some")
                    c.ob("today", b.name, ok, "the day is not the one at the offset", span=b.span)
            else:
                failed = any(f in (("eq", "None"), ("eq", "Err")) and v is not off for v, f in p.facts.items())
                c.ob("today", b.name, p.variant(p.ret) == "None" and failed, "no day is told though there is one", span=b.span)


def bare(v):
    """the value in a result or an option that is there"""
    v = unwrap(v)
    while v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1] in (("d", "Ok"), ("d", "Some")):
        v = unwrap(v.a[0].a[0])
    return v


def date_part(v):
    v = bare(v)
    while re.search(r"TryInto(<.*>)?>::try_into$", call_name(v)):
        v = bare(v.a[1][0])
    m = re.search(r"::(year|month|day)$", call_name(v))
    return (m.group(1), v.a[1][0]) if m else None


def libraries(c, n):
    HTML = lambda v: agg_named(v, "Feature", "Html")

    def enabled(p, feats):
        for v, f in p.facts.items():
            if re.search(r"Features::is_enabled$", call_name(v)) and HTML(unwrap(v.a[1][1])) and unwrap(v.a[1][0]) is feats:
                return f == ("eq", "1")
        return None

    for m in ("paged_task", "html_task"):
        for b in anchored(c, rf"CompilerWorld::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPS, hof=False):
                if p.end != "return":
                    continue
                own = p.variant(p.ret) == "Owned"
                has, asked = enabled(p, F(SELF, "library", "features")), enabled(p, F(SELF, "features"))
                if not own:
                    n[m[:-5]] += 1
                    ok = p.variant(p.ret) == "Borrowed" and unwrap(payload(p.ret, "Borrowed")) is SELF
                    c.ob("library", b.name, ok and (has is True if m == "html_task" else has is False or asked is True), "a document is compiled with the library of the other kind", span=b.span)
                    continue
                n[m[:-5] + " made"] += 1
                w = payload(p.ret, "Owned")
                feats = (lambda v: v is F(SELF, "features")) if m == "paged_task" else (lambda v: bool(re.search(r"FromIterator(<.*>)?>?::from_iter$|Features::\w+$", call_name(v))) and any(HTML(x) for x in subvalues(v)))
                c.ob("library", b.name, library_of(field(w, "library"), F(SELF, "inputs"), feats), "the library is not that of the inputs and the kind of the document", span=b.span)
                rest = w.op == "upd" and w.a[0] is SELF and all(k == (("f", "library"),) for k, _ in w.a[1])
                c.ob("library", b.name, rest, "more of the world than its library is changed", span=b.span)


# ---------------------------------------------------------------------- U03
OPG0 = [r"^log::", r"tinymist_vfs::", r"World>::(today|main)$", r"CompilerWorld::(task|paged_task|html_task)$", r"typst::compile$", r"EntryReader>::"] + [rf"WorldComputeGraph::{x}$" for x in ("computed", "compute", "provide", "get", "must_get")] + [rf"CompilationTask::{x}$" for x in ("execute", "ensure_main")]
OPG = "|".join(OPG0)
DOCS = {"paged": "TypstPagedDocument", "html": "TypstHtmlDocument"}


def wo(*names):
    """the opaque functions of the graph without some"""
    return "|".join(x for x in OPG0 if not any(x.endswith(f"::{n}$") for n in names))


def gas(e):
    return e.extra.get("ga", []) if isinstance(e.extra, dict) else []


def locked_entries(v):
    return bool(re.search(r"Mutex(<.*>)?::lock$", call_name(v))) and sp(v.a[1][0]) == ("entries",)


def cell_of(p, v, ty):
    """the one-time cell of a task in this graph"""
    v = unwrap(v)
    if not (v.op == "proj" and v.a[1] == ("f", "computed")):
        return False
    g = v.a[0]
    ok = bool(re.search(r"WorldComputeGraph::computed$", call_name(g))) and unwrap(g.a[1][0]) is SELF
    t = ok and g.a[1][1]
    return ok and bool(re.search(r"TypeId::of$", call_name(t))) and [const_of(x) for x in t.a[1]] == [{"type": ty}]


@check("U03")
def u03(c):
    c.which = 2
    c.rule("cell", "a graph has one cell for each task, taken under the lock of the table: the one there, or a new one that is put there")
    c.rule("once", "computing a task runs it at most once in its cell and gives what is there; what is provided goes to the same cell, unless something is there; asking does not compute")
    c.rule("config", "a task that is configured is never computed, and it is an error to compile before it is said whether to")
    c.rule("compile", "a document is compiled if it is enabled and there is a main file, from the world of the graph as it is for its kind; errors and warnings are those of typst, without the one that html is experimental")
    c.rule("document", "a document is the one compiled, if that had no errors")
    c.rule("diagnostics", "the diagnostics are the errors and warnings of both kinds of documents, all of them, each once, and counted so")
    c.rule("ask", "what is asked of a graph is computed on it, of the kind asked for")
    n = defaultdict(int)
    one_cell(c, n)
    once_computed(c, n)
    configured(c, n)
    executes(c, n)
    document(c, n)
    diagnosed(c, n)
    asked(c, n)
    for k in ("new cell", "cell there", "compute", "get", "provide", "configured", "enabled", "disabled", "no main", "compiled", "compiled as html", "document", "errors", "shared"):
        c.floor("cases: " + k, n[k], 1)


def one_cell(c, n):
    i = mk("arg", "id")
    for b in anchored(c, r"WorldComputeGraph::computed$"):
        for p in c.paths_of(b, events=r".", opaque=wo("computed"), hof=False, drops=r"MutexGuard"):
            if p.end != "return":
                continue
            ev = list(enumerate(p.events))
            lk = [e for _, e in ev if e.kind == "call" and locked_entries(e.res)]
            put = [(k, e) for k, e in ev if e.kind == "call" and re.search(r"RedBlackTreeMap(<.*>)?::insert(_mut)?$", e.name)]
            v = unwrap(p.ret)
            got = [x for x in subvalues(v) if re.search(r"RedBlackTreeMap(<.*>)?::(get|get_mut)$", call_name(x)) and locked_entries(root_of(x.a[1][0])) and unwrap(x.a[1][1]) is i]
            c.ob("cell", b.name, len(lk) == 1, "the cell is looked for and put under different locks", span=b.span)
            if got:
                n["cell there"] += 1
                c.ob("cell", b.name, v is payload(got[0], "Some") and not put, "the cell there is not given", span=b.span)
            else:
                n["new cell"] += 1
                miss = any(re.search(r"RedBlackTreeMap(<.*>)?::(get|get_mut|contains_key)$", call_name(x)) and unwrap(x.a[1][1]) is i and f in (("eq", "None"), ("eq", "0")) for x, f in p.facts.items())
                ok = len(put) == 1 and put[0][1].name.endswith("_mut") and locked_entries(root_of(put[0][1].args[0])) and unwrap(put[0][1].args[1]) is i
                ok = ok and unwrap(put[0][1].args[2]) is v and (fresh(field(v, "computed")) or is_default(v))
                c.ob("cell", b.name, miss and ok, "a new cell is not the one later tasks find", span=b.span)
            # the lock is held between looking and putting
            gd = [k for k, e in ev if e.kind == "drop"]
            if put:
                c.ob("cell", b.name, all(k > put[0][0] for k in gd), "the lock is released before the cell is put", span=b.span)
    for u in program(2).bodies.values():
        if u.crate == W and "WorldComputeGraph" in u.name and "entries" in str(u.blocks):
            ok = helper_of(program(2), u, r"WorldComputeGraph::(computed|new|snapshot(_unsafe)?|task|from_world)$") or "closure" in u.name
            c.ob("cell", u.name, bool(ok), "the table of the cells is used", span=u.span)


def casted(p, v, src):
    """a value is a result of a cell, as one of its type"""
    if p.variant(src) == "Err":
        return p.variant(v) == "Err" and unwrap(payload(v, "Err")) is payload(src, "Err")
    d = payload(v, "Ok")
    return p.variant(v) == "Ok" and any(x is payload(src, "Ok") for x in subvalues(d)) and any(re.search(r"Arc(<.*>)?::downcast$", call_name(x)) for x in subvalues(d))


def once_computed(c, n):
    for b in anchored(c, r"WorldComputeGraph::compute$"):
        for p in c.paths_of(b, events=r".", opaque=wo("compute"), hof=False):
            if p.end != "return":
                continue
            got = [e for e in p.events if e.kind == "call" and re.search(r"OnceLock(<.*>)?::get_or_(try_)?init$", e.name)]
            ok = len(got) == 1 and cell_of(p, got[0].args[0], "T")
            c.ob("once", b.name, ok, "the cell is not that of the task", span=b.span)
            if not ok:
                continue
            n["compute"] += 1
            e = got[0]
            r = payload(e.res, "Ok") if e.name.endswith("try_init") else e.res
            c.ob("once", b.name, casted(p, p.ret, unwrap(r)), "what is given is not what is in the cell", span=b.span)
            runs = vfs.once_runs(c, p, e, events=r".", opaque=OPG, hof=False) or []
            c.ob("once", b.name, bool(runs), "what is computed cannot be told", span=b.span)
            for q in runs:
                if q.end != "return":
                    continue
                t = [x for x in q.events if x.kind == "call" and re.search(r"WorldComputable(<.*>)?>?::compute$", x.name)]
                ok = len(t) == 1 and unwrap(t[0].args[0]) is SELF and gas(t[0])[:1] == ["T"]
                v = payload(q.ret, "Ok") if e.name.endswith("try_init") else q.ret
                if ok:
                    if q.variant(t[0].res) == "Err":
                        ok = q.variant(v) == "Err" and unwrap(payload(v, "Err")) is payload(t[0].res, "Err")
                    else:
                        ok = q.variant(v) == "Ok" and any(x is payload(t[0].res, "Ok") for x in subvalues(v))
                c.ob("once", b.name, ok, "what is put in the cell is not what the task gives", span=b.span)
    for b in anchored(c, r"WorldComputeGraph::get$"):
        for p in c.paths_of(b, events=r".", opaque=wo("get"), hof=False):
            if p.end != "return":
                continue
            n["get"] += 1
            got = [e for e in p.events if e.kind == "call" and re.search(r"OnceLock(<.*>)?::\w+$", e.name)]
            ok = len(got) == 1 and got[0].name.endswith("::get") and cell_of(p, got[0].args[0], "T")
            if ok:
                r = got[0].res
                ok = p.variant(r) == p.variant(p.ret) and (p.variant(r) == "None" or casted(p, payload(p.ret, "Some"), unwrap(payload(r, "Some"))))
            c.ob("once", b.name, ok, "what is asked for is not what is in the cell of the task", span=b.span)
    ins = mk("arg", "ins")
    for b in anchored(c, r"WorldComputeGraph::provide$"):
        for p in c.paths_of(b, events=r".", opaque=wo("provide"), hof=False):
            if p.end != "return":
                continue
            n["provide"] += 1
            put = [e for e in p.events if e.kind == "call" and re.search(r"OnceLock(<.*>)?::\w+$", e.name)]
            ok = len(put) == 1 and put[0].name.endswith("::set") and cell_of(p, put[0].args[0], "T")
            if ok:
                v, k = put[0].args[1], p.variant(ins)
                ok = k in ("Ok", "Err") and p.variant(v) == k and unwrap(payload(v, k)) is payload(ins, k) or v is ins
                r = put[0].res
                ok = ok and p.variant(p.ret) == p.variant(r) and (p.variant(r) == "Ok" or casted(p, payload(p.ret, "Err"), payload(r, "Err")))
            c.ob("once", b.name, ok, "what is provided does not go to the cell of the task, or what is there is lost", span=b.span)
    for b in anchored(c, r"WorldComputeGraph::must_get$"):
        for p in c.paths_of(b, events=r".", opaque=wo("must_get"), hof=False):
            if p.end != "return":
                continue
            got = [e for e in p.events if e.kind == "call" and re.search(r"WorldComputeGraph::get$", e.name)]
            ok = len(got) == 1 and got[0].args[0] is SELF and gas(got[0])[-1:] == ["T"]
            if ok:
                r = got[0].res
                x = payload(r, "Some")
                if p.variant(r) == "Some":
                    k = p.variant(x)
                    ok = k is not None and (p.variant(p.ret) == k and unwrap(payload(p.ret, k)) is payload(x, k) or k == "Ok" and re.search(r"WithContext(<.*>)?>?::with_context$", call_name(p.ret)) and p.variant(p.ret.a[1][0]) == "Some" and payload(p.ret.a[1][0], "Some") is payload(x, "Ok"))
                else:
                    ok = p.variant(p.ret) == "Err" or bool(re.search(r"WithContext(<.*>)?>?::with_context$", call_name(p.ret))) and p.variant(p.ret.a[1][0]) == "None"
            c.ob("once", b.name, bool(ok), "what must be there is not what is in the cell of the task", span=b.span)


def configured(c, n):
    for b in anchored(c, r"ConfigTask as .*WorldComputable>::compute$"):
        for p in c.paths_of(b, events=r".", opaque=OPG, hof=False):
            n["configured"] += 1
            c.ob("config", b.name, p.end == "diverge", "a configuration is made up", span=b.span)
    for b in anchored(c, r"WorldComputeGraph::exact_provide$"):
        for p in c.paths_of(b, events=r".", opaque=OPG, hof=False):
            pr = [e for e in p.events if e.kind == "call" and re.search(r"WorldComputeGraph::provide$", e.name)]
            ok = len(pr) == 1 and pr[0].args[0] is SELF and pr[0].args[1] is mk("arg", "ins") and gas(pr[0])[-1:] == ["T"]
            c.ob("config", b.name, ok and (p.end == "return") == (p.variant(pr[0].res) == "Ok"), "a configuration is lost without notice", span=b.span)


def flag_of(task):
    return rf"^compute::ConfigTask<compute::TaskFlagBase<{task}>>$"


def executes(c, n):
    g = mk("arg", "graph")
    for b in anchored(c, r"CompilationTask as .*WorldComputable>::compute$"):
        for p in c.paths_of(b, events=r".", opaque=OPG):
            if p.end != "return":
                continue
            fl = [e for e in p.events if e.kind == "call" and re.search(r"WorldComputeGraph::(must_get|get|compute)$", e.name)]
            ok = len(fl) == 1 and fl[0].name.endswith("must_get") and unwrap(fl[0].args[0]) is g and bool(re.match(flag_of(r"compute::CompilationTask<D>"), gas(fl[0])[-1]))
            c.ob("config", b.name, ok, "it is not looked at whether this kind is enabled", span=b.span)
            if not ok:
                continue
            r = fl[0].res
            ex = [e for e in p.events if e.kind == "call" and re.search(r"CompilationTask::execute$", e.name)]
            if p.variant(r) != "Ok":
                c.ob("config", b.name, p.variant(p.ret) == "Err" and not ex, "a document is compiled though it is not said whether to", span=b.span)
                continue
            on = flag(p, F(unwrap(payload(r, "Ok")), "enabled"))
            v = payload(p.ret, "Ok")
            if on:
                n["enabled"] += 1
                ok = len(ex) == 1 and sp2(ex[0].args[0], g) == ("snap", "world") and gas(ex[0])[:1] == ["D"] and p.variant(v) == "Some" and payload(v, "Some") is ex[0].res
                c.ob("compile", b.name, ok, "the document enabled is not compiled from the world of the graph", span=b.span)
            else:
                n["disabled"] += 1
                c.ob("compile", b.name, on is False and not ex and p.variant(p.ret) == "Ok" and p.variant(v) == "None", "a document that is not enabled is compiled", span=b.span)
    w = mk("arg", "world")
    TY = lambda v: const_of(v.a[1][0])["type"].rsplit("::", 1)[-1] if re.search(r"TypeId::of$", call_name(v)) and v.a[1] else None
    for b in anchored(c, r"CompilationTask::execute$"):
        for p in c.paths_of(b, events=r".", opaque=wo("execute"), hof=False, stores=True):
            if p.end != "return":
                c.ob("compile", b.name, p.end == "diverge" and any(v.op == "bin" and "len(" in show(v) for v in p.facts), "a compile does not end", span=b.span)
                continue
            main = [e for e in p.events if e.kind == "call" and re.search(r"ensure_main$", e.name) and unwrap(e.args[0]) is w]
            comp = [e for e in p.events if e.kind == "call" and re.search(r"typst::compile$", e.name)]
            out, warn = field(p.ret, "output"), field(p.ret, "warnings")
            if len(main) != 1:
                c.ob("compile", b.name, False, "it is not looked at whether there is a main file", span=b.span)
                continue
            if p.variant(main[0].res) != "Ok":
                n["no main"] += 1
                ok = not comp and p.variant(out) == "Err" and unwrap(payload(out, "Err")) is payload(main[0].res, "Err") and empty_list(warn)
                c.ob("compile", b.name, ok, "without a main file, something else is told", span=b.span)
                continue
            kinds = kinds_of(p, TY)
            if kinds is None:
                continue  # no type is two types
            ok = len(comp) == 1 and gas(comp[0])[:1] == ["D"]
            c.ob("compile", b.name, ok, "the document is not compiled once", span=b.span)
            if not ok:
                continue
            cw = comp[0].args[0]
            base = cw
            while base.op == "upd":
                c.ob("compile", b.name, all(k == (("f", "source_db"), ("f", "is_compiling")) for k, _ in base.a[1]), "the world compiled is another one", span=b.span)
                base = base.a[0]
            base = unwrap(base)
            if base.op == "agg" and base.a[2] == "Borrowed":
                base = unwrap(base.a[4])
            via = {"paged": r"CompilerWorld::paged_task$", "html": r"CompilerWorld::html_task$"}
            k = next((k for k, v in kinds.items() if v is True), None)
            if k:
                ok = bool(re.search(via[k], call_name(base))) and unwrap(base.a[1][0]) is w
            else:
                ok = all(v is False for v in kinds.values()) and unwrap(base) is w
            n["compiled as html" if k == "html" else "compiled"] += 1
            c.ob("compile", b.name, ok, "a document is compiled in the world of the other kind", span=b.span)
            dep = field(field(cw, "source_db"), "is_compiling")
            c.ob("compile", b.name, const_of(dep) in (1, True), "the files a compile reads are not noted", span=b.span)
            r = comp[0].res
            o = F(r, "output")
            kk = p.variant(o)
            ok = (kk in ("Ok", "Err") and p.variant(out) == kk and unwrap(payload(out, kk)) is payload(o, kk)) or out is o
            c.ob("compile", b.name, ok, "the outcome of a compile is not that of typst", span=b.span)
            if warn is F(r, "warnings"):
                continue
            # left out: one warning, about html
            one = equal(p, lambda v: is_len(v, F(r, "warnings")), lambda v: const_of(v) == 1) is True or any(is_len(v, F(r, "warnings")) and f == ("eq", "1") for v, f in p.facts.items())
            about = any(f == ("eq", "1") and re.search(r"::(starts_with|contains)$", call_name(v)) and "html export is under active development" in str([const_of(x) for x in v.a[1]]) and root_of2(v.a[1][0]) is F(r, "warnings") for v, f in p.facts.items())
            c.ob("compile", b.name, k == "html" and one and about and empty_list(warn), "a warning of typst is left out", span=b.span)
    for b in anchored(c, r"CompilationTask::ensure_main$"):
        for p in c.paths_of(b, events=r".", opaque=wo("ensure_main"), hof=False):
            if p.end == "return" and not impossible(p):
                mi = [e for e in p.events if e.kind == "call" and re.search(r"EntryReader>?::main_id$", e.name)]
                ok = len(mi) == 1 and unwrap(mi[0].args[0]) is w and (p.variant(mi[0].res) == "Some") == (p.variant(p.ret) == "Ok")
                c.ob("compile", b.name, ok, "a main file is found where there is none", span=b.span)


def sp2(v, root):
    r, fs = fpath(unwrap(v))
    return fs if unwrap(r) is root else None


def root_of2(v):
    """the list a value is an element, or a part of an element, of"""
    while True:
        if v.op == "proj":
            if v.a[1] == ("f", "warnings"):
                return v
            v = v.a[0]
        elif v.op in ("call", "pure") and v.a[1]:
            v = v.a[1][0]
        else:
            return v


def is_len(v, of):
    return v.op in ("call", "pure") and re.search(r"(^|::)len$", v.a[0]) and v.a[1] and v.a[1][0] is of


def empty_list(v):
    return is_default(v) or bool(re.search(r"(EcoVec|Vec)(<.*>)?::new$", call_name(v)))


def kinds_of(p, TY):
    """whether D is each kind of document, or None when it is both"""
    out = {}
    for v, f in p.facts.items():
        if v.op == "bin" and v.a[0] in ("Eq", "Ne") and TY(v.a[1]) and TY(v.a[2]) and f in (("eq", "0"), ("eq", "1")):
            tys, yes = {TY(v.a[1]), TY(v.a[2])}, (f[1] == "1") == (v.a[0] == "Eq")
            if "D" in tys:
                for k, t in DOCS.items():
                    if t in tys:
                        out[k] = yes
            elif yes:
                return None
    return None if all(out.get(k) for k in DOCS) else out


def document(c, n):
    g = mk("arg", "graph")
    for b in anchored(c, r"OptionDocumentTask as .*WorldComputable>::compute$"):
        for p in c.paths_of(b, events=r".", opaque=OPG, hof=False):
            if p.end != "return":
                continue
            n["document"] += 1
            e = [e for e in p.events if e.kind == "call" and re.search(r"WorldComputeGraph::compute$", e.name)]
            ok = len(e) == 1 and unwrap(e[0].args[0]) is g and gas(e[0])[-1] == "compute::CompilationTask<D>"
            if ok:
                r = e[0].res
                if p.variant(r) != "Ok":
                    ok = p.variant(p.ret) == "Err"
                else:
                    o, v = unwrap(payload(r, "Ok")), payload(p.ret, "Ok")
                    out = F(payload(o, "Some"), "output")
                    if p.variant(o) == "Some" and p.variant(out) == "Ok":
                        ok = p.variant(v) == "Some" and unwrap(payload(v, "Some")) is payload(out, "Ok")
                    else:
                        ok = p.variant(v) == "None" and (p.variant(o) == "None" or p.variant(out) == "Err")
            c.ob("document", b.name, ok, "the document is not the one compiled", span=b.span)


def diagnosed(c, n):
    r = mk("arg", "result")
    for b in anchored(c, r"CompilationDiagnostics::from_result$"):
        for p in c.paths_of(b, events=r".", opaque=OPG):
            if p.end != "return":
                continue
            w = payload(r, "Some")
            out = F(w, "output")
            e, m = field(p.ret, "errors"), field(p.ret, "warnings")
            if p.variant(r) == "Some":
                bad = p.variant(out)
                n["errors"] += bad == "Err"
                ok = bad is not None and p.variant(e) == ("Some" if bad == "Err" else "None") and (bad == "Ok" or unwrap(payload(e, "Some")) is payload(out, "Err"))
                c.ob("diagnostics", b.name, ok, "errors of a compile are not told", span=b.span)
                c.ob("diagnostics", b.name, p.variant(m) == "Some" and unwrap(payload(m, "Some")) is F(w, "warnings"), "warnings of a compile are not told", span=b.span)
            else:
                c.ob("diagnostics", b.name, all(none_like(p, x) for x in (e, m)), "diagnostics of no compile", span=b.span)
    g = mk("arg", "graph")
    for b in anchored(c, r"DiagnosticsTask as .*WorldComputable>::compute$"):
        for p in c.paths_of(b, events=r".", opaque=OPG + r"|CompilationDiagnostics::from_result$", hof=False):
            if p.end != "return" or p.variant(p.ret) != "Ok":
                continue
            d = payload(p.ret, "Ok")
            for k, t in DOCS.items():
                x = field(d, k)
                e = [e for e in p.events if e.kind == "call" and re.search(r"WorldComputeGraph::compute$", e.name) and t in gas(e)[-1] and "compute::CompilationTask<" in gas(e)[-1]]
                ok = len(e) == 1 and unwrap(e[0].args[0]) is g and bool(re.search(r"from_result$", call_name(x))) and unwrap(x.a[1][0]) is payload(e[0].res, "Ok")
                c.ob("diagnostics", b.name, ok, f"the {k} diagnostics are not those of the {k} document", span=b.span)
    for m, kind in (("error_cnt", "errors"), ("warning_cnt", "warnings")):
        for b in anchored(c, rf"DiagnosticsTask::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPG):
                if p.end != "return":
                    continue
                got = sorted(show(x) for x in summands(p.ret) if const_of(x) != 0)
                want, known = [], True
                for k in DOCS:
                    o = F(SELF, k, kind)
                    known = known and p.variant(o) in ("Some", "None")
                    if p.variant(o) == "Some":
                        want.append(payload(o, "Some"))
                ok = known and len(got) == len(want) and all(any(is_len(x, w) for x in summands(p.ret)) for w in want)
                c.ob("diagnostics", b.name, ok, f"not all {kind} are counted, or some twice", span=b.span)
    for b in anchored(c, r"DiagnosticsTask::diagnostics$"):
        for p in c.paths_of(b, events=r".", opaque=OPG, hof=False):
            if p.end != "return":
                continue
            got = leaves(p, p.ret)
            want = [payload(F(SELF, k, f), "Some") for k in DOCS for f in ("errors", "warnings") if p.variant(F(SELF, k, f)) != "None"]
            ok = got is not None and sorted(x.id for x in got) == sorted(x.id for x in want)
            c.ob("diagnostics", b.name, ok, "not all diagnostics are told, or some twice", span=b.span)


def summands(v):
    if v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "bin":
        v = v.a[0]
    if v.op == "bin" and v.a[0].startswith("Add"):
        return summands(v.a[1]) + summands(v.a[2])
    return [v]


def leaves(p, v):
    """the lists an iterator goes through, one after the other"""
    nm = call_name(v)
    if re.search(r"Iterator>?::flatten$", nm):
        return leaves(p, v.a[1][0])
    if re.search(r"Iterator>?::chain$", nm):
        a, b = (leaves(p, x) for x in v.a[1])
        return None if a is None or b is None else a + b
    if p.variant(v) == "Some":
        return [unwrap(payload(v, "Some"))]
    if p.variant(v) == "None":
        return []
    return leaves(p, v.a[4]) if v.op == "agg" and v.a[0] == "adt" and v.a[4:] else None


def asked(c, n):
    W0 = lambda v: sp(unwrap(v)) == ("snap", "world")
    for m, fn, ty in (("pure_compile", "execute", "D"), ("compile", "execute", "TypstPagedDocument"), ("compile_html", "execute", "TypstHtmlDocument"), ("ensure_main", "ensure_main", None)):
        for b in anchored(c, rf"WorldComputeGraph::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPG, hof=False):
                if p.end != "return":
                    continue
                e = [e for e in p.events if e.kind == "call" and re.search(rf"CompilationTask::{fn}$", e.name)]
                ok = len(e) == 1 and W0(e[0].args[0]) and p.ret is e[0].res and (ty is None or gas(e[0])[0].endswith(ty))
                c.ob("ask", b.name, ok, "something else is compiled than asked for", span=b.span)
    for m, ty in (("shared_compile", "compute::OptionDocumentTask<.*TypstPagedDocument>"), ("shared_compile_html", "compute::OptionDocumentTask<.*TypstHtmlDocument>"), ("shared_diagnostics", "compute::DiagnosticsTask")):
        for b in anchored(c, rf"WorldComputeGraph::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPG, hof=False):
                if p.end != "return":
                    continue
                n["shared"] += 1
                e = [e for e in p.events if e.kind == "call" and re.search(r"WorldComputeGraph::compute$", e.name)]
                ok = len(e) == 1 and unwrap(e[0].args[0]) is SELF and bool(re.match(ty + "$", gas(e[0])[-1]))
                if ok and p.ret is not e[0].res:
                    k = p.variant(e[0].res)
                    ok = k is not None and p.variant(p.ret) == k and unwrap(payload(p.ret, k)) is payload(e[0].res, k)
                c.ob("ask", b.name, ok, "something else is given than what is computed on the graph", span=b.span)
    for m, want in (("world", ("snap", "world")), ("registry", ("snap", "world", "registry")), ("library", ("snap", "world", "library"))):
        for b in anchored(c, rf"WorldComputeGraph::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPG, hof=False):
                if p.end == "return":
                    c.ob("ask", b.name, sp(unwrap(p.ret)) == want, f"the {m} is not that of the graph", span=b.span)


# ---------------------------------------------------------------------- U04
OPD = r"^log::|tinymist_vfs::|QueryRef(<.*>)?::compute$"


def slot_table(v):
    """the locked table of files of a source database"""
    v = unwrap(v)
    return bool(re.search(r"Mutex(<.*>)?::lock$", call_name(v))) and sp(v.a[1][0]) == ("slots",)


def slot_entry(v, fid):
    v = unwrap(v)
    return bool(re.search(r"HashMap(<.*>)?::entry$", call_name(v))) and slot_table(root_of(v.a[1][0])) and unwrap(v.a[1][1]) is fid


def slot_of(v, fid):
    """how a value is the slot of a file: the call that finds or makes it, or None"""
    v = unwrap(v)
    if re.search(r"Entry(<.*>)?::or_insert(_with)?$", call_name(v)) and slot_entry(v.a[1][0], fid):
        return v
    if re.search(r"OccupiedEntry(<.*>)?::(into_mut|get|get_mut)$|VacantEntry(<.*>)?::insert$", call_name(v)):
        x = v.a[1][0]
        while x.op == "proj":
            x = x.a[0]
        return v if slot_entry(x, fid) else None
    return None


def new_slot(p, v, fid, compiling, whole=False):
    """whether a value is the slot of a file of which nothing was read (and not noted, unless compiling); `whole`: noted when compiling"""
    t = field(v, "touched_by_compile")
    if unwrap(field(v, "fid")) is not fid or not all(is_default(field(v, f)) for f in ("source", "buffer")):
        return False
    return all(beval(t, env) is env[compiling] if whole or not env[compiling] else True for env in assignments(p, [compiling]))


@check("U04")
def u04(c):
    c.which = 2
    c.rule("once", "a file or source of a world is read at most once, from the provider it is asked of, under its own id, and every reader gets what was read")
    c.rule("noted", "a file read while compiling is noted as read by the compile, before it is read and whether it can be read or not; others are not")
    c.rule("deps", "the dependencies of a compile are the files noted, each once")
    c.rule("state", "the files of a database are taken as a whole, and the flag of compiling is the one set")
    n = defaultdict(int)
    fid, prov = mk("arg", "fid"), mk("arg", "p")
    comp = F(SELF, "is_compiling")
    for m, cell, op in (("file", "buffer", "read"), ("source", "source", "read_source")):
        for b in anchored(c, rf"SourceDb::{m}$"):
            for p in c.paths_of(b, events=r".", opaque=OPD, hof=False, stores=True, drops=r"MutexGuard"):
                if p.end != "return":
                    c.ob("once", b.name, p.end == "diverge", "a file is looked for without end", span=b.span)
                    continue
                q = [(k, e) for k, e in enumerate(p.events) if e.kind == "call" and re.search(r"QueryRef(<.*>)?::compute$", e.name)]
                ok = len(q) == 1
                s = None
                if ok:
                    k, e = q[0]
                    x = unwrap(e.args[0])
                    ok = x.op == "proj" and x.a[1] == ("f", cell)
                    s = slot_of(root_of3(x.a[0]), fid) if ok else None
                c.ob("once", b.name, ok and s is not None, f"the {m} is not that of the slot of the file", span=b.span)
                if s is None:
                    continue
                n[m] += 1
                kind = p.variant(e.res)
                c.ob("once", b.name, p.ret is e.res or kind is not None and p.variant(p.ret) == kind and unwrap(payload(p.ret, kind)) is payload(e.res, kind), "another reader gets something else", span=b.span)
                runs = vfs.once_runs(c, p, e, events=r".", opaque=OPD, hof=False) or []
                c.ob("once", b.name, bool(runs), "what is read cannot be told", span=b.span)
                for r in runs:
                    if r.end == "return":
                        rd = [x for x in r.events if x.kind == "call"]
                        ok = len(rd) == 1 and rd[0].name.endswith(f"FsProvider::{op}") and unwrap(rd[0].args[0]) is prov and rd[0].args[1] is fid and r.ret is rd[0].res
                        c.ob("once", b.name, ok, f"the {m} of the file is not what is read", span=b.span)
                # noted
                flagged = F(s, "touched_by_compile")
                st = [(j, x) for j, x in enumerate(p.events) if x.kind == "store" and "touched_by_compile" in str(x.extra)]
                before = [x.res for j, x in st if j < k]
                fresh_only = bool(re.search(r"VacantEntry(<.*>)?::insert$", call_name(s)))
                if re.search(r"or_insert_with$", call_name(s)):
                    ev = [x for x in p.events if x.res is s]
                    mr = closure_runs(c, p, s.a[1][1], at=ev[0] if ev else None, events=r".", opaque=OPD) or []
                    made = [r for r in mr if r.end == "return"]
                    c.ob("noted", b.name, bool(made) and all(new_slot(r, r.ret, fid, comp) for r in made), "a new file has another id, content or note", span=b.span)
                elif re.search(r"::(or_insert|insert)$", call_name(s)):
                    c.ob("noted", b.name, new_slot(p, s.a[1][1], fid, comp, whole=fresh_only and not before), "a new file has another id, content or note", span=b.span)
                v = before[-1] if before else flagged
                for env in assignments(p, [comp, flagged]):
                    n["noted" if env[comp] else "not noted"] += 1
                    for x in [v] + [x.res for j, x in st if j > k]:
                        if fresh_only:
                            ok = x is flagged or beval(x, env) is env[comp]
                        else:
                            ok = beval(x, env) is (env[comp] or env[flagged])
                        c.ob("noted", b.name, ok, "a file read by a compile is not noted as its dependency" if env[comp] else "a file read after a compile changes what the compile read", span=b.span)
                gone = [j for j, x in enumerate(p.events) if x.kind == "drop"]
                c.ob("noted", b.name, all(j > st[-1][0] for j in gone) if st else True, "the note is made without the lock", span=b.span)
    for b in anchored(c, r"SourceDb::iter_dependencies_dyn$"):
        for p in c.paths_of(b, events=r".", opaque=OPD, cut=".", hof=False):
            nx = [e for e in p.events if e.kind == "call" and re.search(r"Iterator>::next$", e.name)]
            calls = [e for e in p.events if e.kind == "call" and re.search(r"FnMut(<.*>)?>?::call_mut$", e.name)]
            if not nx:
                c.ob("deps", b.name, False, "the files are not gone through", span=b.span)
                continue
            src = [x for x in subvalues(nx[-1].args[0]) if re.search(r"HashMap(<.*>)?::(values|iter)$", call_name(x))]
            ok = bool(src) and all(slot_table(root_of(x.a[1][0])) for x in src)
            c.ob("deps", b.name, ok, "the files gone through are not those of the database", span=b.span)
            some = p.variant(nx[-1].res) == "Some"
            if not some:
                n["deps end"] += 1
                c.ob("deps", b.name, p.end == "return" and not calls, "not all files are gone through", span=b.span)
                continue
            item = payload(nx[-1].res, "Some")
            slots = [item, F(item, "1")]
            t = next((flag(p, F(s, "touched_by_compile")) for s in slots if flag(p, F(s, "touched_by_compile")) is not None), None)
            c.ob("deps", b.name, p.end == "loop", "not all files are gone through", span=b.span)
            if t is False:
                n["not a dep"] += 1
                c.ob("deps", b.name, not calls, "a file not read by the compile is a dependency", span=b.span)
            else:
                n["dep"] += 1
                ok = len(calls) == 1 and any(args_tuple(calls[0])[:1] == [x] for s in slots for x in (F(s, "fid"),)) and "$f" in show(calls[0].args[0])
                c.ob("deps", b.name, t is True and ok, "a file read by the compile is not a dependency", span=b.span)
    for b in anchored(c, r"SourceDb::take_state$"):
        for p in c.paths_of(b, events=r".", opaque=OPD, hof=False, stores=True):
            if p.end == "return":
                n["taken"] += 1
                ok = unwrap(field(p.ret, "slots")) is F(SELF, "slots") and field(p.ret, "is_compiling") is comp
                st = cells(p, SELF)
                ok = ok and set(st) == {("slots",)} and fresh(st[("slots",)])
                c.ob("state", b.name, ok, "the database taken is not the one that was", span=b.span)
    for b in anchored(c, r"SourceDb::set_is_compiling$"):
        for p in c.paths_of(b, events=r".", opaque=OPD, hof=False, stores=True):
            if p.end == "return":
                st = cells(p, SELF)
                c.ob("state", b.name, set(st) == {("is_compiling",)} and st[("is_compiling",)] is mk("arg", "is_compiling"), "the flag is not the one given", span=b.span)
    for b in anchored(c, r"CompilerWorld as .*WorldDeps>::iter_dependencies$"):
        for p in c.paths_of(b, events=r".", opaque=OPD + r"|iter_dependencies_dyn$", hof=False):
            if p.end == "return":
                e = [e for e in p.events if e.kind == "call" and re.search(r"iter_dependencies_dyn$", e.name)]
                c.ob("deps", b.name, len(e) == 1 and sp(unwrap(e[0].args[0])) == ("source_db",) and unwrap(e[0].args[1]) is mk("arg", "f"), "the dependencies of a world are not those of its files", span=b.span)
    for b in vfs.anchored(c, r"CompiledArtifact(<.*>)?::depended_files$", crate="tinymist_project"):
        for p in c.paths_of(b, events=r"get_or_init$", opaque=r"get_or_init$", hof=False, cut="."):
            e = evs(p, r"get_or_init$", "call")
            if p.end != "return":
                continue
            ok = len(e) == 1 and sp(unwrap(e[0].args[0])) == ("deps",) and unwrap(p.ret) is e[0].res
            c.ob("deps", b.name, ok, "the depended files are not those told once", "deps|artifact", span=b.span)
            for q in closure_runs(c, p, e[0].args[1], at=e[0], events=r".", opaque=r"iter_dependencies$", hof=False, cut=".") or [] if ok else []:
                i = evs(q, r"iter_dependencies$", "call")
                n["artifact"] += 1
                if q.end != "return" or len(i) != 1 or sp(unwrap(i[0].args[0]))[-3:] != ("graph", "snap", "world"):
                    c.ob("deps", b.name, False, "the depended files are not those of the compiled world", "deps|world", span=b.span)
                    continue
                r = q.ret
                ok = r.op == "mut" and r.a[0] is i[0].res and re.search(r"(default|new)$", call_name(r.a[2]) or "")
                c.ob("deps", b.name, bool(ok), "the depended files are not all the dependencies of the compiled world", "deps|all", span=b.span)
                f = mk("arg", "dependency")
                rs = closure_runs(c, q, i[0].args[1], {2: f}, at=i[0], events=r".") or []
                for r in rs:
                    put = [e for e in r.events if e.kind == "call" and re.search(r"(EcoVec|Vec)(<.*>)?::push$", e.name)]
                    c.ob("deps", b.name, r.end == "return" and len(put) == 1 and unwrap(put[0].args[1]) is f, "a dependency of the compiled world is no depended file", "deps|push", span=b.span)
                c.ob("deps", b.name, bool(rs), "what becomes of a dependency cannot be told", "deps|told", span=b.span)
    for b in anchored(c, r"CompilerWorld::take_db$"):
        for p in c.paths_of(b, events=r".", opaque=OPD + r"|SourceDb::take_state$", hof=False):
            if p.end == "return":
                c.ob("state", b.name, bool(re.search(r"take_state$", call_name(p.ret))) and sp(unwrap(p.ret.a[1][0])) == ("source_db",), "the database taken is not that of the world", span=b.span)
    for k in ("artifact", "file", "source", "noted", "not noted", "deps end", "not a dep", "dep", "taken"):
        c.floor("cases: " + k, n[k], 1)


def args_tuple(e):
    t = e.args[1]
    return [unwrap(x) for x in (t.a[4] if t.op == "agg" and t.a[0] == "tuple" and isinstance(t.a[4], tuple) else t.a[4:] if t.op == "agg" else [t])]


def root_of3(v):
    while v.op in ("mut", "upd") and v.op != "call":
        v = v.a[2] if v.op == "mut" else v.a[0]
    return v
