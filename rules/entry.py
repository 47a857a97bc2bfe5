"""E01, E02: entries of projects (crates tinymist-world and tinymist-project, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check
from mir import *
from q import *
import vfs
from vfs import SELF, call_name, payload
from pkg import unwrap
from project import sp, subvalues
from universe import flag
from task import called, ctx, ok_of, over, loops_of, told_twice, result
from lock import opt_of, rel_of, calls

W = "tinymist_world"
J = "tinymist_project"
OPW = r"WorkspaceResolver::|VirtualPath::|FileId::"


def option(p, v):
    """('Some', value) or ('None', None) of an optional value, told by the path"""
    v = v if v is None else unwrap(v)
    if v.op == "agg" and agg_variant(v) in ("None", "Some"):
        return opt_of(p, v)
    if re.search(r"Option(<.*>)?>?::(map|copied|cloned|as_deref)$", call_name(v)) and len(v.a[1]) == 1:
        return option(p, v.a[1][0])
    k = p.variant(v)
    return (k, unwrap(payload(v, "Some")) if k == "Some" else None)


def entry_of(p, v):
    """what an entry is: (root, file) each None or a value; or how it is made, by name"""
    v = unwrap(v)
    if v.op == "agg" and str(v.a[1]).endswith("EntryState"):
        rk, r = option(p, agg_field(v, "root"))
        mk_, m = option(p, agg_field(v, "main"))
        return None if rk is None or mk_ is None else (r, m)
    return None


def file_in(p, m, root, path):
    """whether a file is the one of a path in a workspace (or in none)"""
    def same_root(x):
        k, r = option(p, x)
        return k == "Some" and root is not None and r is unwrap(root) or k == "None" and root is None
    return m is not None and called(m, r"WorkspaceResolver::workspace_file$", same_root, path)


def vpath(x):
    return lambda v: called(v, r"VirtualPath::new$", x) or v is x


def by_parent(c, p, path):
    """the root and file of a path that stands for itself: whether the path knows it, and a test of an entry"""
    par = [v for v in p.facts if called(v, r"Path::parent$", path)]
    nm = [v for v in p.facts if called(v, r"Path::file_name$", path)]
    if not nm or p.variant(nm[0]) not in ("Some", "None"):
        return None, None
    if p.variant(nm[0]) == "None":
        return "None", None
    root = unwrap(payload(par[0], "Some")) if par and p.variant(par[0]) == "Some" else None
    if not par:
        return "Some", lambda e: False
    return "Some", lambda e: e is not None and e[0] is root and file_in(p, e[1], root, lambda v: called(v, r"VirtualPath::new$", payload(nm[0], "Some")))


def paths(c, b, **kw):
    for p in c.paths_of(b, events=r".", opaque=OPW, **kw):
        if told_twice(p):
            continue
        if p.end != "return":
            c.ob("ends", b.name, False, "making or asking an entry ends the program", span=b.span)
            continue
        yield p


def states(c, n):
    """how entries are made"""
    def each(name, rule, sig=None):
        for b in vfs.anchored(c, r"^entry::EntryState::%s$" % name, crate=W):
            for p in paths(c, b):
                yield b, p
    for b, p in each("new_detached", "made"):
        n["detached"] += 1
        c.ob("made", b.name, entry_of(p, p.ret) == (None, None), "a detached entry has a root or a file", span=b.span)
    root, main = mk("arg", "root"), mk("arg", "main")
    for b, p in each("new_workspace", "made"):
        n["workspace"] += 1
        c.ob("made", b.name, entry_of(p, p.ret) == (root, None), "the entry of a workspace has another root, or a file", span=b.span)
    for b, p in each("new_rootless", "made"):
        e = entry_of(p, p.ret)
        n["rootless"] += 1
        c.ob("made", b.name, e is not None and e[0] is None and e[1] is not None and (called(e[1], r"FileId::new$", lambda x: option(p, x)[0] == "None", main) or called(e[1], r"rootless_file$", main) or file_in(p, e[1], None, main)), "an entry without a root has one, or another file", span=b.span)
    for b, p in each("new_rooted_by_id", "made"):
        e = entry_of(p, p.ret)
        n["by id"] += 1
        c.ob("made", b.name, e is not None and e[0] is root and file_in(p, e[1], root, lambda v: called(v, r"FileId::vpath$", main)), "the entry of a file has another root, or another file", span=b.span)
    for b, p in each("new_rooted", "made"):
        e = entry_of(p, p.ret)
        k, m = option(p, main)
        n["rooted " + str(k)] += 1
        c.ob("made", b.name, k is not None and e is not None and e[0] is root and (e[1] is None if k == "None" else file_in(p, e[1], root, m)), "an entry has another root than the one given, or another file", span=b.span)
    for b, p in each("new_rooted_by_parent", "made"):
        want, test = by_parent(c, p, mk("arg", "entry"))
        k, v = option(p, p.ret)
        n["by parent " + str(want)] += 1
        c.ob("made", b.name, want is not None and k == want and (want == "None" or test(entry_of(p, v))), "the entry of a single file is not that file in its directory", span=b.span)
    for b, p in each("main", "asked"):
        n["main"] += 1
        c.ob("asked", b.name, sp(unwrap(p.ret)) == ("main",), "the main file is another", span=b.span)
    for b, p in each("root", "asked"):
        n["root"] += 1
        c.ob("asked", b.name, sp(unwrap(p.ret)) == ("root",), "the root is another", span=b.span)
    own, file = F(SELF, "root"), F(SELF, "main")
    for b, p in each("workspace_root", "asked"):
        n["root of workspace"] += 1
        c.ob("asked", b.name, asked_root(p, p.ret, n), "the root of a workspace is not the one of its main file, or without one its own", span=b.span)
    for b, p in each("select_in_workspace", "made"):
        e = entry_of(p, p.ret)
        v = unwrap(p.ret)
        r = agg_field(v, "root") if v.op == "agg" else None
        m = option(p, agg_field(v, "main")) if v.op == "agg" else (None, None)
        k, x = option(p, own)
        n["selected"] += 1
        ok = r is not None and m[0] == "Some" and (unwrap(r) is own or k is not None and option(p, r) == (k, x))
        ok = ok and called(m[1], r"WorkspaceResolver::workspace_file$", lambda y: unwrap(y) is own or k is not None and option(p, y) == (k, x), lambda y: called(y, r"VirtualPath::new$", mk("arg", "path")))
        c.ob("made", b.name, bool(ok), "the file selected is in another root, or is another file", span=b.span)
    for b in vfs.anchored(c, r"^entry::EntryState::try_select_path_in_workspace$", crate=W):
        path = mk("arg", "path")
        for p in c.paths_of(b, events=r".", opaque=OPW + r"|EntryState::workspace_root$"):
            if told_twice(p):
                continue
            k, v = result(p)
            wr = [f for f in p.facts if called(f, r"EntryState::workspace_root$", SELF)]
            if p.end != "return" or not wr:
                c.ob("made", b.name, False, "the workspace is not looked at", span=b.span)
                continue
            if p.variant(wr[0]) == "Some":
                r = unwrap(payload(wr[0], "Some"))
                pre = [f for f in p.facts if called(ctx(f), r"Path::strip_prefix$", path, r)]
                inside = {p.variant(f) for f in pre} & {"Ok", "Err"}
                if inside == {"Err"}:
                    n["select outside"] += 1
                    c.ob("made", b.name, k == "Err", "a file outside of the workspace is taken for one in it", span=b.span)
                    continue
                n["select inside"] += 1
                kk, e = option(p, v) if v is not None else (None, None)
                e = entry_of(p, e) if e is not None else None
                ok = inside == {"Ok"} and k == "Ok" and kk == "Some" and e is not None and e[0] is r and file_in(p, e[1], r, lambda y: called(y, r"VirtualPath::new$", lambda z: ok_of(z) is not None and ok_of(z) in [ctx(f) for f in pre]))
                c.ob("made", b.name, bool(ok), "a file selected in the workspace is another", span=b.span)
                continue
            n["select single"] += 1
            want, test = by_parent(c, p, path)
            kk, e = option(p, v) if v is not None else (None, None)
            ok = p.variant(wr[0]) == "None" and k == "Ok" and want is not None and kk == want and (want == "None" or test(entry_of(p, e)))
            c.ob("made", b.name, bool(ok), "a file without a workspace is not the one in its directory", span=b.span)
    for nm in ("is_detached", "is_inactive"):
        for b, p in each(nm, "asked"):
            n[nm] += 1
            for o, f in [(o, f) for o in ("None", "Some") for f in ("None", "Some") if p.variant(own) in (None, o) and p.variant(file) in (None, f)]:
                got = truth_of(p, p.ret, {own: o, file: f})
                c.ob("asked", b.name, got == (f == "None" and (nm == "is_inactive" or o == "None")), "an entry is taken for one without a file, or the other way around", span=b.span)
    for b, p in each("is_in_package", "asked"):
        k, m = option(p, file)
        n["in package"] += 1
        ok = k == "None" and flag(p, p.ret) is False or k == "Some" and (called(p.ret, r"WorkspaceResolver::is_package_file$", m))
        if k == "Some" and not ok:
            q = [f for f in p.facts if called(f, r"WorkspaceResolver::is_package_file$", m)]
            ok = bool(q) and flag(p, p.ret) is not None and flag(p, p.ret) == flag(p, q[0])
        c.ob("asked", b.name, bool(ok), "a file is taken for one of a package, or the other way around", span=b.span)


def truth_of(p, v, env):
    """truth of a value, with the presence of the fields given"""
    v = unwrap(v)
    t = flag(p, v)
    if t is not None:
        return t
    if v.op == "not":
        t = truth_of(p, v.a[0], env)
        return None if t is None else not t
    if v.op == "bin" and v.a[0] in ("And", "BitAnd", "Or", "BitOr"):
        a, b = truth_of(p, v.a[1], env), truth_of(p, v.a[2], env)
        if a is None or b is None:
            return None
        return a and b if "And" in v.a[0] else a or b
    m = re.search(r"Option(<.*>)?>?::is_(none|some)$", call_name(v))
    if m and unwrap(v.a[1][0]) in env and env[unwrap(v.a[1][0])]:
        return (env[unwrap(v.a[1][0])] == "None") == (m.group(2) == "none")
    if v.op == "isvar" and env.get(unwrap(v.a[0])):
        return env[unwrap(v.a[0])] == v.a[1]
    return None


def asked_root(p, v, n):
    own, file = F(SELF, "root"), F(SELF, "main")
    mine = unwrap(v) is own or p.variant(own) is not None and option(p, v) == option(p, own)
    if p.variant(file) == "None":
        return mine
    if p.variant(file) != "Some":
        return False
    rs = [f for f in p.facts if called(ctx(f), r"WorkspaceResolver::resolve$", payload(file, "Some")) and p.variant(f) in ("Ok", "Err", "Some", "None")]
    if not rs:
        return False
    if p.variant(rs[0]) in ("Err", "None"):
        return option(p, v)[0] == "None"
    res = unwrap(payload(rs[0], p.variant(rs[0])))
    k = p.variant(res)
    n["root of " + str(k)] += 1
    if k == "Package":
        return mine
    if k == "Rootless":
        return option(p, v)[0] == "None"
    o, x = option(p, v)
    return k in ("Workspace", "UntitledRooted") and o == "Some" and called(x, r"WorkspaceId::path$", payload(res, k))


def options(c, n):
    """entries as they are stored"""
    def each(name):
        for b in vfs.anchored(c, r"^entry::EntryOpts::%s$" % name, crate=W):
            for p in paths(c, b):
                yield b, p
    for b in vfs.anchored(c, r"EntryOpts as .*Default>::default$", crate=W) + vfs.anchored(c, r"^entry::EntryOpts::new_detached$", crate=W):
        for p in paths(c, b):
            n["stored detached"] += 1
            c.ob("stored", b.name, p.variant(p.ret) == "Detached", "an entry that is not given is one", span=b.span)
    root, main = mk("arg", "root"), mk("arg", "main")
    for nm in ("new_workspace", "new_rooted"):
        for b, p in each(nm):
            v = unwrap(p.ret)
            n["stored workspace"] += 1
            ok = v.op == "agg" and agg_variant(v) == "Workspace" and unwrap(agg_field(v, "root")) is root
            ok = ok and (option(p, agg_field(v, "main"))[0] == "None" if nm == "new_workspace" else unwrap(agg_field(v, "main")) is main)
            c.ob("stored", b.name, bool(ok), "an entry is stored with another root or file", span=b.span)
    for b, p in each("new_rootless"):
        e = mk("arg", "entry")
        rel = rel_of(p, e)
        k, v = option(p, p.ret)
        n["stored file"] += 1
        ok = rel is not None and (k == "None" if rel else k == "Some" and agg_variant(v) == "RootByParent" and unwrap(agg_field(v, "entry")) is e)
        c.ob("stored", b.name, bool(ok), "a single file is stored as another, or a relative one is taken", span=b.span)
    val = mk("arg", "value")
    for b in vfs.anchored(c, r"EntryState as .*TryFrom(<.*>)?>::try_from$", crate=W):
        for p in paths(c, b):
            k, v = result(p)
            kind = p.variant(val)
            n["read " + str(kind)] += 1
            if kind == "Detached":
                ok = k == "Ok" and entry_of(p, v) == (None, None)
            elif kind == "Workspace":
                r = unwrap(F(val, "+Workspace", "root"))
                o, m = option(p, F(val, "+Workspace", "main"))
                e = entry_of(p, v) if v is not None else None
                ok = k == "Ok" and e is not None and o is not None and e[0] is not None and e[0] is r and (e[1] is None if o == "None" else file_in(p, e[1], r, lambda y: called(y, r"VirtualPath::new$", m)))
            elif kind == "RootByParent":
                path = unwrap(F(val, "+RootByParent", "entry"))
                rel = rel_of(p, path)
                if rel is not False:
                    n["read relative"] += 1
                    ok = rel is True and k == "Err"
                else:
                    want, test = by_parent(c, p, path)
                    ok = want is not None and (k == "Err" if want == "None" else k == "Ok" and test(entry_of(p, v)))
            else:
                ok = False
            c.ob("stored", b.name, bool(ok), "a stored entry is read as another", span=b.span)


@check("E01")
def e01(c):
    c.which = 2
    n = defaultdict(int)
    c.rule("made", "Each constructor of an EntryState gives the root and the main file it is given: a file given by its path is that file of the workspace of the root, a single file is its name in the workspace of its directory, and there is none for a path without a name. A file is selected only if its path is below the root of the workspace, as the rest of the path.")
    c.rule("asked", "main and root give what the entry has; the workspace root is the one of the main file, the entry's own for a file of a package or when there is no file, and none for a file without a root. An entry is detached without root and file, inactive without a file, and in a package exactly if its file is.")
    c.rule("stored", "Stored entries are made and read as such: a workspace with its root and optional file, a single file only by its absolute path, anything else is an error; the default is no entry.")
    c.rule("ends", "Making or asking an entry does not end the program.")
    states(c, n)
    options(c, n)
    for k in CASES1:
        c.floor("cases: " + k, n[k], 1)


CASES1 = "detached;workspace;rootless;by id;rooted None;rooted Some;by parent None;by parent Some;main;root;root of workspace;root of Package;root of Rootless;root of Workspace;root of UntitledRooted;selected;select outside;select inside;select single;is_detached;is_inactive;in package;stored detached;stored workspace;stored file;read Detached;read Workspace;read RootByParent;read relative".split(";")


# ---------------------------------------------------------------------- E02
ROOTS, CACHE, FIXED = F(SELF, "roots"), F(SELF, "typst_toml_cache"), F(SELF, "root_path")
MARK = "typst.toml"


def first_root(p):
    """(Some, how to know it) or (None, None) of the first of the roots"""
    def is_first(v):
        v = unwrap(v)
        if re.search(r"Index(<.*>)?>::index$", call_name(v)):
            return unwrap(v.a[1][0]) is ROOTS and const_of(v.a[1][1]) == 0
        if v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Some"):
            o = v.a[0].a[0]
            return called(o, r"::first$", lambda x: over(x, ROOTS)) or called(o, r"::get$", lambda x: over(x, ROOTS), lambda i: const_of(i) == 0) or re.search(r"Iterator>?::next$", call_name(o)) and unwrap(o.a[1][0]).op not in ("mut", "loop") and over(o.a[1][0], ROOTS)
        if v.op == "proj" and v.a[1] == ("ci", 0, False) and over(v.a[0], ROOTS):
            return True
        return False
    got = set()
    for v, f in p.facts.items():
        if v.op == "discr" or any(x.op == "loop" for x in subvalues(v)):
            continue
        if called(v, r"::is_empty$", lambda x: over(x, ROOTS)):
            t = flag(p, v)
            if t is not None:
                got.add(("None" if t else "Some"))
        if called(v, r"::(first|get)$", lambda x: over(x, ROOTS)) or re.search(r"Iterator>?::next$", call_name(v)) and unwrap(v.a[1][0]).op not in ("mut", "loop") and over(v.a[1][0], ROOTS):
            if p.variant(v) in ("Some", "None"):
                got.add(p.variant(v))
        if v.op == "bin" and v.a[0] in ("Eq", "Ne") and f in (("eq", "0"), ("eq", "1")) and any(called(x, r"len$", lambda z: over(z, ROOTS)) for x in v.a[1:3]) and any(const_of(x) == 0 for x in v.a[1:3]):
            got.add(("None" if (f[1] == "1") == (v.a[0] == "Eq") else "Some"))
        if v.op in ("pure", "call") and re.search(r"len$", call_name(v)) and over(v.a[1][0], ROOTS):
            if f == ("eq", "0"):
                got.add("None")
            elif f[0] == "ne" and "0" in f[1] or f[0] == "eq":
                got.add("Some")
    return (got.pop() if len(got) == 1 else "both" if got else None), is_first


def steps(p, place):
    """the optional elements an iteration over something gave"""
    return [v for v in p.facts if re.search(r"Iterator>?::next$", call_name(v)) and over(v.a[1][0], place)]


def marked(p, d):
    """whether the path knows if a directory is that of a package"""
    for v in p.facts:
        if called(v, r"(Path::|fs::)(exists|is_file)$", lambda x: called(x, r"Path::join$", d, lambda s: const_of(s) == MARK)):
            t = flag(p, v)
            if t is not None:
                return t
    return None


def roots(c, n):
    e = mk("arg", "entry")
    for b in vfs.anchored(c, r"^entry::EntryResolver::root$", crate=J):
        def ob(ok, msg):
            c.ob("root", b.name, bool(ok), msg, span=b.span)
        for p in c.paths_of(b, events=r".", cut="."):
            if p.end not in ("return", "loop"):
                ob(False, "asking for the root ends the program")
                continue
            fk, is_first = first_root(p)
            if fk == "both":
                continue
            got = option(p, p.ret) if p.end == "return" else (None, None)
            if p.variant(FIXED) != "None":
                n["fixed"] += 1
                ob(p.variant(FIXED) == "Some" and got == ("Some", unwrap(payload(FIXED, "Some"))), "the configured root is not taken")
                continue
            k = p.variant(e)
            if k == "None":
                n["no entry"] += 1
                ob(got[0] is not None and fk == got[0] and (fk == "None" or is_first(got[1])), "without an entry the root is not the first of the workspace")
                continue
            E = unwrap(payload(e, "Some"))
            # caches hold what was found
            for ev in calls(p, r"::insert$"):
                if unwrap(ev.args[0]) is not CACHE:
                    continue
                vk, vv = option(p, ev.args[2])
                anc = steps(p, lambda x: called(x, r"Path::ancestors$", E))
                last = [a for a in anc if p.variant(a) == "None"]
                hit = [a for a in anc if p.variant(a) == "Some" and unwrap(payload(a, "Some")) is vv and marked(p, vv) is True]
                n["cached " + str(vk)] += 1
                ob(unwrap(ev.args[1]) is E and (vk == "None" and last or vk == "Some" and hit), "a root is remembered that was not found, or for another file")
            ws = steps(p, ROOTS)
            found = None
            for w in ws:
                if p.variant(w) == "Some":
                    r = unwrap(payload(w, "Some"))
                    inn = [flag(p, f) for f in p.facts if called(f, r"Path::starts_with$", E, r)]
                    if True in inn:
                        found = r
                    elif False not in inn:
                        ob(False, "a root of the workspace is passed over")
            if found is not None:
                n["in workspace"] += 1
                ob(got == ("Some", found), "the root of a file is not the one of the workspace it is in")
                continue
            if p.end == "loop" and ws and not any(p.variant(w) == "None" for w in ws):
                n["not in a root"] += 1
                continue
            if not any(p.variant(w) == "None" for w in ws) and fk != "None":
                ob(False, "the roots of the workspace are not asked first")
                continue
            cg = [f for f in p.facts if called(f, r"::get$", CACHE, E)]
            known = p.variant(cg[0]) if cg else "None"
            if known == "Some":
                y = payload(cg[0], "Some")
                dk, d = option(p, y)
                if dk == "None":
                    n["known none"] += 1
                    ob(got[0] == "None", "a file known to have no root has one")
                    continue
                m = marked(p, d) if d is not None else None
                if m is not False:
                    n["known"] += 1
                    ob(m is True and got == ("Some", d), "the root remembered is not the one that is still there")
                    continue
            anc = steps(p, lambda x: called(x, r"Path::ancestors$", E))
            found = None
            for a in anc:
                if p.variant(a) == "Some":
                    d = unwrap(payload(a, "Some"))
                    m = marked(p, d)
                    if m is True:
                        found = d
                    elif m is None:
                        ob(False, "a directory above the file is passed over")
            if found is not None:
                n["package"] += 1
                ob(got == ("Some", found), "the root of a file is not the nearest package it is in")
                continue
            if p.end == "loop":
                n["no package"] += 1
                ob(bool(anc), "the search for the root does not look at the directories")
                continue
            par = [f for f in p.facts if called(f, r"Path::parent$", E)]
            ob(any(p.variant(a) == "None" for a in anc), "the directories above the file are not looked at to the end")
            if par and p.variant(par[0]) == "Some":
                n["parent"] += 1
                ob(got == ("Some", unwrap(payload(par[0], "Some"))), "the root of a single file is not its directory")
                continue
            n["no parent"] += 1
            ob(par and p.variant(par[0]) == "None" and got[0] is not None and fk == got[0] and (fk == "None" or is_first(got[1])), "the root of a single file is not its directory")


def state(p, v):
    """how an entry is made, by the constructors of E01"""
    v = unwrap(v)
    nm = call_name(v)
    if nm.endswith("EntryState::new_detached") or re.search(r"EntryState as .*Default>::default$", nm):
        return ("detached",)
    if nm.endswith("EntryState::new_workspace"):
        return ("workspace", unwrap(v.a[1][0]))
    if nm.endswith("EntryState::new_rooted"):
        k, m = option(p, v.a[1][1])
        if k == "None":
            return ("workspace", unwrap(v.a[1][0]))
        if k == "Some" and called(m, r"VirtualPath::new$"):
            return ("file", unwrap(v.a[1][0]), unwrap(unwrap(m).a[1][0]))
    if v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Some") and call_name(v.a[0].a[0]).endswith("EntryState::new_rooted_by_parent"):
        return ("single", unwrap(v.a[0].a[0].a[1][0]))
    return None


def placed(c, b, p, e, root, n):
    """None if an entry is placed in its root, or what is wrong"""
    E, R = option(p, e), option(p, root)
    got = state(p, p.ret)
    if E[0] is None or p.end != "return":
        return "it is not asked whether there is an entry"
    if E[0] == "Some":
        if R[0] == "Some":
            pre = [f for f in p.facts if called(ctx(f), r"Path::strip_prefix$", E[1], R[1])]
            k = p.variant(pre[0]) if pre else None
            if k == "Ok" or k == "Some":
                n["placed inside"] += 1
                return None if got is not None and got[0] == "file" and got[1] is R[1] and got[2] is unwrap(payload(pre[0], k)) else "a file in its root is another"
            if k is None:
                return "it is not looked whether the file is in its root"
            n["placed outside"] += 1
        elif R[0] is None:
            return "it is not asked whether there is a root"
        else:
            n["placed without"] += 1
        one = [f for f in p.facts if called(f, r"EntryState::new_rooted_by_parent$", E[1])]
        if one and p.variant(one[0]) == "Some":
            return None if got == ("single", E[1]) else "a file outside of its root is not the one in its directory"
        if not one or p.variant(one[0]) != "None":
            return "a file outside of its root is not looked for in its directory"
    elif R[0] == "Some":
        n["placed root"] += 1
        return None if got == ("workspace", R[1]) else "a root without a file is another"
    elif R[0] is None:
        return "it is not asked whether there is a root"
    back = [f for f in p.facts if called(f, r"EntryResolver::root$", SELF, lambda x: option(p, x)[0] == "None")]
    k = p.variant(back[-1]) if back else None
    n["placed back " + str(k)] += 1
    if k == "Some":
        return None if got == ("workspace", unwrap(payload(back[-1], "Some"))) else "what is no file is in another root"
    return None if k == "None" and got == ("detached",) else "what is no file has a root"


def resolves(c, n):
    e = mk("arg", "entry")
    for b in vfs.anchored(c, r"^entry::EntryResolver::resolve_with_root$", crate=J):
        for p in c.paths_of(b, events=r".", opaque=r"EntryResolver::root$"):
            m = placed(c, b, p, e, mk("arg", "root_dir"), n)
            c.ob("placed", b.name, m is None, m or "", span=b.span)
    for b in vfs.anchored(c, r"^entry::EntryResolver::resolve$", crate=J):
        for p in c.paths_of(b, events=r".", opaque=r"EntryResolver::root$"):
            rs = [f for f in p.facts if called(f, r"EntryResolver::root$", SELF, lambda x: unwrap(x) is e or called(x, r"as_ref$", e) or option(p, x)[0] is not None and option(p, x) == option(p, e))]
            n["resolved"] += 1
            m = placed(c, b, p, e, rs[0], n) if rs else "the root of the entry is not asked for"
            c.ob("placed", b.name, m is None, m or "", span=b.span)
    ent = mk("arg", "entry")
    for b in vfs.anchored(c, r"^entry::EntryResolver::resolve_lock$", crate=J):
        kind = F(SELF, "project_resolution")
        for p in c.paths_of(b, events=r"."):
            k = p.variant(kind)
            if k == "SingleFile":
                n["lock single"] += 1
                ok = option(p, p.ret)[0] == "None"
            else:
                pk = [f for f in p.facts if called(f, r"EntryState::is_in_package$", ent)]
                t = flag(p, pk[0]) if pk else None
                n["lock package" if t else "lock"] += 1
                ok = k == "LockDatabase" and (t is True and option(p, p.ret)[0] == "None" or t is False and (called(p.ret, r"EntryState::workspace_root$", ent) or option(p, p.ret)[0] is not None and any(called(f, r"EntryState::workspace_root$", ent) and option(p, f) == option(p, p.ret) for f in p.facts)))
            c.ob("lock", b.name, p.end == "return" and bool(ok), "a lock file is used where there is none, or another one", span=b.span)
    own = F(SELF, "entry")
    for b in vfs.anchored(c, r"^entry::EntryResolver::resolve_default$", crate=J):
        for p in c.paths_of(b, events=r".", opaque=r"EntryResolver::root$"):
            k, d = option(p, own)
            got = option(p, p.ret)
            same = unwrap(p.ret) is own
            if k == "Some":
                rel = rel_of(p, d)
                if rel:
                    rt = [f for f in p.facts if called(ctx(f), r"EntryResolver::root$", SELF, lambda x: option(p, x)[0] == "None")]
                    rk = {"Ok": "Some", "Err": "None"}.get(p.variant(rt[0]), p.variant(rt[0])) if rt else None
                    n["default relative " + str(rk)] += 1
                    ok = rk == "None" and got[0] == "None" or rk == "Some" and got[0] == "Some" and called(got[1], r"Path::join$", payload(rt[0], p.variant(rt[0])), d)
                else:
                    n["default absolute"] += 1
                    ok = rel is False and (same or got == ("Some", d))
            else:
                n["default none"] += 1
                ok = k == "None" and (same or got[0] == "None")
            c.ob("default", b.name, p.end == "return" and bool(ok), "the default entry is another file", span=b.span)
    for b in vfs.anchored(c, r"^entry::EntryResolver::validate$", crate=J):
        for p in c.paths_of(b, events=r"."):
            if vfs.fmt_fails(p):
                continue
            k, d = option(p, FIXED)
            bad = k == "Some" and rel_of(p, d) is True
            n["refused" if bad else "accepted"] += 1
            c.ob("default", b.name, p.end == "return" and (result(p)[0] == "Err" if bad else result(p)[0] == "Ok" and (k == "None" or rel_of(p, d) is False)), "a relative root is accepted, or an absolute one is refused", span=b.span)


@check("E02")
def e02(c):
    c.which = 2
    n = defaultdict(int)
    c.rule("root", "The root of an entry is the configured one if there is one, otherwise the first root of the workspace the entry is below, otherwise the nearest directory above it with a typst.toml, otherwise its directory. Roots and directories are passed over only if the entry is not below them, or they have no typst.toml. A remembered directory is taken only while it has its typst.toml, and only what was found is remembered, for that file. Without an entry the root is the first of the workspace, or none.")
    c.rule("placed", "An entry below its root is the rest of its path in that root, any other is its name in its directory; without an entry it is the workspace of the root, without a root either that of the workspace or a detached one.")
    c.rule("lock", "Lock files are used only if projects are resolved by them, never for a package, and only the one in the workspace root of the entry.")
    c.rule("default", "The default entry is as configured, a relative one below the root, and none if there is no root; a configured root is accepted exactly if it is absolute.")
    roots(c, n)
    resolves(c, n)
    for k in CASES2:
        c.floor("cases: " + k, n[k], 1)


CASES2 = "fixed;no entry;in workspace;not in a root;known none;known;package;no package;parent;no parent;cached Some;cached None;placed inside;placed outside;placed without;placed root;placed back Some;placed back None;resolved;lock single;lock package;lock;default relative None;default relative Some;default absolute;default none;refused;accepted".split(";")
