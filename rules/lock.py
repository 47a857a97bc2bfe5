"""J06, J07: the lock file of a project (crates tinymist-project and tinymist-task, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
import vfs
from vfs import SELF, call_name, field, fpath, payload
from pkg import closure_runs, unwrap
from project import sp, subvalues, cmp_eq, is_default, root_of
from universe import flag
import task
from misc import written
from task import called, ctx, ok_of, result, told_twice, over, given, makers, possible, text_form, loops_of

J = "tinymist_project"
T = "tinymist_task"
NAME = "tinymist.lock"
OPQ = r"serialize_resolve$|LockFile::sort$|LockFileCompat::(migrate|version)$|Version as .*(PartialOrd|PartialEq)|Path(Buf)?::to_owned|path::diff$|unix_slash$|ResourcePath::from_|Id::from_world$|path_for_id$|font_paths$|package_(cache_)?path$|flock::|paths::write_atomic$|hash128|Introspector|PathPattern|cache_dir$"


def anchored(c, rx, sig=None, crate=J):
    return vfs.anchored(c, rx, sig, crate=crate)


def has(xs, ev, rx):
    return [e for e in xs if e.kind == "call" and re.search(rx, e.name)]


def calls(p, rx):
    return [e for e in p.events if e.kind == "call" and re.search(rx, e.name)]


def outcome(p, v):
    """Ok or Err of a fallible call, as the path knows it, also through the context given to its error"""
    k = p.variant(v)
    if k in ("Ok", "Err"):
        return k
    for f in p.facts:
        if ctx(f) is v and p.variant(f) in ("Ok", "Err"):
            return p.variant(f)
    return None


def is_list(v):
    v = unwrap(v)
    return bool(re.search(r"(Vec|EcoVec)(<.*>)?::(new|with_capacity)$|::default$", call_name(v))) or v.op == "const" and const_of(v) in ([], {}) or "promoted" in show(v)[:40]


def empty_file(v):
    v = unwrap(v)
    if re.search(r"LockFile as .*Default>::default$", call_name(v)):
        return True
    return v.op == "agg" and str(v.a[1]).endswith("LockFile") and all(is_list(agg_field(v, k)) for k in ("document", "task", "route"))


WRITE = r"set_len$|io::Write>?::(write|write_all|write_fmt|write_vectored)$|fs::write$|rename$|remove_file$|write_atomic$|truncate$"


def locking(c, n):
    """how the lock file is read, changed and written"""
    for b in anchored(c, r"LockFile::update$"):
        f = mk("arg", "f")
        for p in c.paths_of(b, events=r".", opaque=OPQ, hof=False):
            if told_twice(p):
                continue
            if p.end != "return":
                c.ob("update", b.name, False, "updating the lock file ends the program", span=b.span)
                continue
            k, _ = result(p)
            ws = calls(p, WRITE)
            fs = [e for e in p.events if e.kind == "call" and re.search(r"FnOnce(<.*>)?>?::call_once$", e.name) and unwrap(e.args[0]) is f]
            op = calls(p, r"flock::Filesystem::open_rw_exclusive_create$")
            good = len(op) == 1 and called(op[0].args[0], r"Filesystem::new$", mk("arg", "cwd")) and const_of(op[0].args[1]) == NAME
            c.ob("update", b.name, good, "the lock file of the directory is not opened for itself alone", span=b.span)
            if not good:
                continue
            first = p.events.index(op[0])
            early = [e for e in ws + fs + calls(p, r"read_to_(end|string)$|fs::read") if p.events.index(e) < first]
            c.ob("update", b.name, not early, "the lock file is used before it is locked", span=b.span)
            if outcome(p, op[0].res) != "Ok":
                n["no lock"] += 1
                c.ob("update", b.name, k == "Err" and not fs and not ws, "a lock that is not got is not an error", span=b.span)
                continue
            state, text, stop = stored(c, "update", b, p, op[0])
            if stop:
                n[stop] += 1
                c.ob("update", b.name, k == "Err" and not fs and not ws, "a lock file that cannot be read is not an error, or is written over", span=b.span)
                continue
            if state is None:
                c.ob("update", b.name, False, "what is changed is not what the lock file has", span=b.span)
                continue
            ok = len(fs) == 1
            if ok:
                a = unwrap(fs[0].args[1])
                a = unwrap(a.a[4]) if a.op == "agg" and a.a[0] == "tuple" else a
                ok = root_of(a) is state or empty_file(a) and empty_file(state)
            c.ob("update", b.name, bool(ok), "what is changed is not what the lock file has", span=b.span)
            if not ok:
                continue
            n["new" if empty_file(state) else "old"] += 1
            if outcome(p, fs[0].res) != "Ok":
                n["refused"] += 1
                c.ob("update", b.name, k == "Err" and not ws, "a change that fails is written", span=b.span)
                continue
            ser = calls(p, r"serialize_resolve$")
            srt = calls(p, r"LockFile::sort$")
            at = p.events.index
            ok = len(ser) == 1 and len(srt) == 1 and at(fs[0]) < at(srt[0]) < at(ser[0]) and all(root_of(x.args[0]) is state or empty_file(root_of(x.args[0])) and empty_file(state) for x in (ser[0], srt[0]))
            c.ob("update", b.name, bool(ok), "what is written is not what the lock file has after the change, in order", span=b.span)
            if not ok:
                continue
            new = ser[0].res
            same = [t for v, t in p.facts.items() for x, y in cmp_eq(v) if {unwrap(x), unwrap(y)} == {text, unwrap(new)}]
            if any(t == ("eq", "1") for t in same):
                n["unchanged"] += 1
                c.ob("update", b.name, k == "Ok" and not ws, "an unchanged lock file is written", span=b.span)
                continue
            lock = payload_ok(op[0].res)
            seq = [e for e in p.events if e.kind == "call" and re.search(WRITE + r"|Seek>?::(seek|rewind|seek_relative)$", e.name)]
            want = []
            bad = None
            for e in seq:
                r = root_of(e.args[0])
                if called(r, r"FileLock::file$"):
                    r = root_of(unwrap(r).a[1][0])
                if r is not lock and not given(r, op[0].res):
                    bad = "another file than the lock file is written"
                if e.name.endswith("set_len"):
                    want.append("cut" if const_of(e.args[1]) == 0 else "other")
                elif re.search(r"seek$", e.name):
                    s = unwrap(e.args[1])
                    z = const_of(s)
                    want.append("start" if s.op == "agg" and agg_variant(s) == "Start" and const_of(agg_field(s, "0")) == 0 or isinstance(z, dict) and z.get("variant") == "Start" and not any(x for x in z.get("o", [1])) else "other")
                elif re.search(r"rewind$", e.name):
                    want.append("start")
                elif re.search(r"write_all$", e.name):
                    want.append("text" if text_bytes(e.args[1]) is unwrap(new) else "other")
                else:
                    want.append("other")
            failed = [i for i, e in enumerate(seq) if outcome(p, e.res) != "Ok" and p.ret is not e.res and ctx(p.ret) is not e.res]
            last = [e for e in seq if p.ret is e.res or ctx(p.ret) is e.res]
            if failed:
                n["failed"] += 1
                ok = failed == [len(seq) - 1] and outcome(p, seq[-1].res) == "Err" and k == "Err" and "other" not in want
                c.ob("update", b.name, ok and not bad, bad or "a failed write of the lock file is no error, or others follow it", span=b.span)
                continue
            n["written"] += 1
            ok = "other" not in want and want.count("text") == 1 and "cut" in want and "start" in want and want.index("cut") < want.index("text") and want.index("start") < want.index("text") and want[-1] == "text" and (k == "Ok" or last == [seq[-1]])
            c.ob("update", b.name, ok and not bad, bad or "the lock file is not exactly the new text afterwards", span=b.span)
    for b in anchored(c, r"LockFile::read$"):
        for p in c.paths_of(b, events=r".", opaque=OPQ, hof=False):
            if told_twice(p):
                continue
            k, val = result(p)
            op = calls(p, r"flock::Filesystem::open_")
            ok = p.end == "return" and len(op) == 1 and re.search(r"open_ro_shared$", op[0].name) and called(op[0].args[0], r"Filesystem::new$", mk("arg", "dir")) and const_of(op[0].args[1]) == NAME and not calls(p, WRITE)
            c.ob("read", b.name, bool(ok), "the lock file of the directory is not read under a shared lock", span=b.span)
            if not ok:
                continue
            if outcome(p, op[0].res) != "Ok":
                c.ob("read", b.name, k == "Err", "a lock that is not got is not an error", span=b.span)
                continue
            state, text, stop = stored(c, "read", b, p, op[0], tail=True)
            if stop:
                n["read " + stop] += 1
                c.ob("read", b.name, k == "Err", "a lock file that cannot be read is not an error", span=b.span)
                continue
            n["read"] += 1
            c.ob("read", b.name, state is not None and (k == "Ok" and val is state or ctx(p.ret) is state), "what is read is not what the lock file has", span=b.span)


def payload_ok(v):
    return payload(v, "Ok")


def text_bytes(v):
    v = unwrap(v)
    while re.search(r"::(as_bytes|as_ref|as_str|deref|borrow)$", call_name(v)):
        v = unwrap(v.a[1][0])
    return v


def stored(c, rule, b, p, op, tail=False):
    """(what the lock file has, its text, which step failed); with tail, the last step may be the answer itself"""
    lock = op.res
    rd = [e for e in p.events if e.kind == "call" and re.search(r"Read>?::read_to_(end|string)$|io::read_to_string$", e.name)]
    if len(rd) != 1 or not given(root_of(rd[0].args[0]), lock):
        return None, None, None
    if outcome(p, rd[0].res) != "Ok":
        return None, None, "no read"
    buf = rd[0].args[1] if len(rd[0].args) > 1 else None
    if buf is None or not is_list(root_of(buf)) and not re.search(r"String::(new|with_capacity)$", call_name(root_of(buf))):
        return None, None, None
    after = lambda x: x.op == "mut" and x.a[0] is rd[0].res and x.a[1] == 1
    if rd[0].name.endswith("_end"):
        u = [e for e in p.events if e.kind == "call" and re.search(r"(str::(converts::)?|String::)from_utf8(_lossy|_unchecked)?$", e.name)]
        if len(u) != 1 or not u[0].name.endswith("from_utf8") or not after(unwrap(u[0].args[0])):
            return None, None, None
        if outcome(p, u[0].res) != "Ok":
            return None, None, "no text"
        text = next((unwrap(v) for v in values(p) if ok_of(v) is u[0].res), None)
    else:
        text = next((v for v in values(p) if after(unwrap(v))), None)
    if text is None:
        return None, None, None
    for v in p.facts:
        if re.search(r"str>?::is_empty$", call_name(v)) and (unwrap(v.a[1][0]) is text or re.search(r"str>?::trim(_start|_end)?$", call_name(unwrap(v.a[1][0]))) and unwrap(unwrap(v.a[1][0]).a[1][0]) is text) and flag(p, v):
            st = [x for e in p.events for x in e.args for x in subvalues(x) if isinstance(x, V) and empty_file(x)]
            return (st[0] if st else None), text, None
    ts = [e for e in p.events if e.kind == "call" and re.search(r"toml::(de::)?from_str$", e.name) and unwrap(e.args[0]) is text]
    if len(ts) != 1 or "LockFileCompat" not in " ".join([e_ty(ts[0])]):
        return None, text, None
    if outcome(p, ts[0].res) != "Ok":
        return None, text, "no toml"
    vs = [e for e in p.events if e.kind == "call" and re.search(r"LockFileCompat::version$", e.name)]
    for v in vs:
        if given(root_of(v.args[0]), ts[0].res) and outcome(p, v.res) == "Err":
            return None, text, "no version"
    for v in p.facts:
        if re.search(r"Version as .*PartialOrd(<.*>)?>::partial_cmp$", call_name(v)):
            if p.variant(v) == "None" or p.variant(v) == "Some" and p.variant(payload(v, "Some")) == "Greater":
                return None, text, "other version"
    mg = [e for e in p.events if e.kind == "call" and re.search(r"LockFileCompat::migrate$", e.name)]
    if len(mg) != 1 or not given(root_of(mg[0].args[0]), ts[0].res):
        return None, text, None
    if tail and ctx(p.ret) is mg[0].res and outcome(p, mg[0].res) is None:
        return mg[0].res, text, None
    if outcome(p, mg[0].res) != "Ok":
        return None, text, "no migration"
    return payload(mg[0].res, "Ok"), text, None


def e_ty(e):
    return str(e.ty or "") + " " + " ".join(str(x) for x in (e.extra or ()))


def values(p):
    seen = {}
    for v in list(p.facts) + [x for e in p.events for x in list(e.args) + [e.res]]:
        if isinstance(v, V):
            for x in subvalues(v):
                seen[x] = 1
    return seen


def versions(c, n):
    for b in anchored(c, r"LockFileCompat::version$"):
        for p in c.paths_of(b, events="zz"):
            for k in possible(p, SELF, ("Version010Beta0", "Other")):
                kk, val = result(p)
                if k == "Other":
                    n["version other"] += 1
                    v = val
                    s = [x for x in p.facts if called(ctx(x), r"Value::as_str$") or called(ctx(x), r"Value::get(<.*>)?$")]
                    if kk == "Ok" or kk is None:
                        got = [x for x in subvalues(p.ret) if called(x, r"Value::get(<.*>)?$", payload(SELF, "Other")) and const_of(unwrap(x).a[1][1]) == "version"]
                        c.ob("version", b.name, bool(got), "the version is not the one stored", span=b.span)
                else:
                    n["version own"] += 1
                    c.ob("version", b.name, kk == "Ok" and isinstance(const_of(val), str) and const_of(val) == lock_version(), "the version is not that of the format", span=b.span)
    for b in anchored(c, r"LockFileCompat::migrate$"):
        for p in c.paths_of(b, events="zz", opaque=r"LockFileCompat::version$"):
            if vfs.fmt_fails(p):
                continue
            for k in possible(p, SELF, ("Version010Beta0", "Other")):
                kk, val = result(p)
                n["migrate " + k] += 1
                c.ob("version", b.name, kk == "Err" if k == "Other" else kk == "Ok" and val is payload(SELF, k), "a lock file of an unknown version is taken, or one of this version is not", span=b.span)
    for b in anchored(c, r"Version as .*PartialOrd(<.*>)?>::partial_cmp$"):
        o = mk("arg", "other")
        for p in c.paths_of(b, events="zz"):
            ps = [v for v in p.facts if re.search(r"semver::Version::parse$", call_name(ctx(v)))]
            r = p.ret
            k = p.variant(r)
            if k == "Some" and r.op == "agg":
                x = unwrap(agg_field(r, "0"))
                ok = re.search(r"Ord(<.*>)?>?::cmp$", call_name(x)) and all(parsed(y, w) for y, w in zip(x.a[1], (F(SELF, "0"), F(o, "0"))))
                n["compared"] += 1
            else:
                ok = k == "None" and any(outcome(p, ctx(v)) == "Err" for v in ps) or re.search(r"PartialOrd(<.*>)?>?::partial_cmp$", call_name(r)) and all(parsed(y, w) for y, w in zip(r.a[1], (F(SELF, "0"), F(o, "0"))))
            c.ob("version", b.name, bool(ok), "versions are not compared as such", span=b.span)


def parsed(v, text):
    r = ok_of(v)
    if r is None:
        r = ctx(v)
    return called(r, r"semver::Version::parse$", text)


def lock_version():
    for (k, i), u in program(2).bodies.items():
        if k == J and u.name.endswith("LockFileCompat::version"):
            for bl in u.blocks:
                if bl:
                    import json
                    m = re.search(r'"(\d+\.\d+\.\d+[-\w.]*)"', json.dumps(bl))
                    if m:
                        return m.group(1)
    return None


def lists(c, n):
    """how documents, tasks and routes are put into the lock file"""
    ids = {"document": lambda x: F(x, "id"), "task": lambda x: mk("none"), "route": lambda x: F(x, "id")}

    def same_id(q, item, new):
        """truth, on the path, of the item having the id of the new one"""
        for v, t in list(q.facts.items()) + [(q.ret, None)]:
            for x, y in cmp_eq(v.a[0] if v.op == "not" else v):
                a = {id_of(x), id_of(y)}
                if a == {item, new}:
                    return True, v, t
        return False, None, None

    for what, arg in (("document", "input"), ("task", "task")):
        lst, new = F(SELF, what), mk("arg", arg)
        for b in anchored(c, r"LockFile::replace_%s$" % what):
            for p in c.paths_of(b, events=r".", hof=False, stores=True, cut=".", iters=False):
                if p.end != "return":
                    c.ob("apply", b.name, p.end == "diverge" and not calls(p, r"push$"), "putting in a %s ends the program" % what, span=b.span)
                    continue
                fd = [e for e in p.events if e.kind == "call" and re.search(r"Iterator>?::(position|find)$", e.name) and over(e.args[0], lst)]
                ps = [e for e in p.events if e.kind == "call" and re.search(r"(Vec|EcoVec)(<.*>)?::(push|insert|remove|retain|clear|truncate|swap_remove|pop|extend\w*)$", e.name)]
                st = [e for e in p.events if e.kind == "store" and root_of(e.args[-1] if e.args else mk("none")) is new] + calls(p, r"mem::replace$")
                if len(fd) != 1:
                    c.ob("apply", b.name, False, "it is not looked for a %s of the same id" % what, span=b.span)
                    continue
                item = mk("arg", "listed")
                for q in closure_runs(c, p, fd[0].args[1], {2: item}, at=fd[0], events=r".") or []:
                    n["id " + what] += 1
                    known, v, t = same_id(q, item, new)
                    ok = q.end == "return" and known and (q.ret is v or flag(q, q.ret) is not None and t is not None and flag(q, q.ret) == (t == ("eq", "1")))
                    c.ob("apply", b.name, bool(ok), "a %s is taken for another" % what, span=b.span)
                k = p.variant(fd[0].res)
                if k == "None":
                    n["added " + what] += 1
                    ok = len(ps) == 1 and ps[0].name.endswith("push") and sp(root_of(ps[0].args[0])) == (what,) and unwrap(ps[0].args[1]) is new
                    c.ob("apply", b.name, ok, "a new %s is not put in, or not once" % what, span=b.span)
                elif k == "Some":
                    n["replaced " + what] += 1
                    at = payload(fd[0].res, "Some")
                    ok = not ps and any(hit(e, at, lst, new) for e in p.events)
                    c.ob("apply", b.name, ok, "a %s is not put in the place of the one of its id" % what, span=b.span)
                else:
                    c.ob("apply", b.name, False, "a %s is put in without looking" % what, span=b.span)
        for b in anchored(c, r"LockFile::get_%s$" % what):
            for p in c.paths_of(b, events=r".", hof=False, cut=".", iters=False):
                v = unwrap(p.ret)
                ok = p.end == "return" and re.search(r"Iterator>?::find$", call_name(v)) and over(v.a[1][0], lst)
                c.ob("apply", b.name, bool(ok), "a %s is not looked for among all" % what, span=b.span)
                if not ok:
                    continue
                item, wid = mk("arg", "listed"), mk("arg", "id")
                ev = [e for e in p.events if e.res is p.ret or e.res is v]
                for q in closure_runs(c, p, v.a[1][1], {2: item}, at=ev[0] if ev else None, events=r".") or []:
                    n["get " + what] += 1
                    good = any({id_of(x), y2(y)} == {item, wid} or {id_of(y), y2(x)} == {item, wid} for x, y in cmp_eq(q.ret))
                    c.ob("apply", b.name, q.end == "return" and good, "a %s of another id is given" % what, span=b.span)
    new = mk("arg", "route")
    for b in anchored(c, r"LockFile::replace_route$"):
        for p in c.paths_of(b, events=r".", hof=False, cut=".", iters=False):
            if p.end != "return":
                continue
            rt = calls(p, r"(Vec|EcoVec)(<.*>)?::retain(_mut)?$")
            ps = calls(p, r"(Vec|EcoVec)(<.*>)?::push$")
            ot = calls(p, r"(Vec|EcoVec)(<.*>)?::(insert|remove|clear|truncate|pop|swap_remove|extend\w*|sort\w*)$")
            ok = len(rt) == 1 and len(ps) == 1 and not ot and p.events.index(rt[0]) < p.events.index(ps[0]) and all(sp(root_of(e.args[0])) == ("route",) for e in rt + ps) and unwrap(ps[0].args[1]) is new
            c.ob("apply", b.name, ok, "a route is not put behind all others", span=b.span)
            if not ok:
                continue
            item = mk("arg", "listed")
            for q in closure_runs(c, p, rt[0].args[1], {2: item}, at=rt[0], events=r".") or []:
                n["route"] += 1
                known, v, t = same_id(q, item, new)
                v2 = q.ret
                neg = v2.op == "not" or re.search(r"PartialEq(<.*>)?>?::ne$", call_name(v2)) or v2.op == "bin" and v2.a[0] == "Ne"
                ok = q.end == "return" and known and (neg or t is not None and flag(q, v2) is not None and flag(q, v2) != (t == ("eq", "1")))
                c.ob("apply", b.name, bool(ok), "a route of another document is dropped, or one of the same kept", span=b.span)
    for b in anchored(c, r"model::LockFile::sort$|LockFile::sort$"):
        for p in c.paths_of(b, events=r".", hof=False, cut=".", iters=False):
            ss = calls(p, r"::sort(_by|_by_key|_by_cached_key|_unstable\w*)?$")
            got = sorted(str(sp(root_of(e.args[0]))) for e in ss)
            c.ob("apply", b.name, p.end == "return" and got == ["('document',)", "('task',)"] and len(p.events) >= 2, "not exactly documents and tasks are sorted", span=b.span)
            for e in ss:
                n["sorted"] += 1


def y2(v):
    return unwrap(v)


def id_of(v):
    """the thing whose id a value is"""
    v = unwrap(v)
    if v.op == "proj" and v.a[1] == ("f", "id"):
        return unwrap(v.a[0])
    if re.search(r"::id$", call_name(v)):
        return unwrap(v.a[1][0])
    return None


def hit(e, at, lst, new):
    """whether an event puts the new one at the place found"""
    if e.kind == "store":
        w = e.args[-1] if e.args else None
        if w is None or unwrap(w) is not new:
            return False
        t = e.extra[0].a[0]
        return not e.extra[1] and any(re.search(r"index_mut$|get_mut$|get_unchecked_mut$", call_name(x)) and sp(root_of(x.a[1][0])) == sp(lst) and unwrap(x.a[1][1]) is at for x in subvalues(t))
    if e.kind == "call" and re.search(r"mem::replace$", e.name):
        return unwrap(e.args[1]) is new and at in list(subvalues(e.args[0]))
    return False


def pushed(c, n):
    """what an update of the lock file collects, and how it is carried out"""
    O = OPQ + r"|LockFile::(update|replace_\w+)$|from_deps$"
    for b in anchored(c, r"lock::update_lock$"):
        for p in c.paths_of(b, events="zz"):
            v = unwrap(p.ret)
            ok = v.op == "agg" and str(v.a[1]).endswith("LockFileUpdate") and unwrap(agg_field(v, "root")) is mk("arg", "root") and is_list(agg_field(v, "updates"))
            c.ob("commit", b.name, ok, "an update does not start empty, for the directory given", span=b.span)
    for fn, variant in (("task", "Task"), ("route", "Route"), ("update_materials", "Material"), ("compiled", "Input")):
        for b in anchored(c, r"LockFileUpdate::%s$" % fn):
            for p in c.paths_of(b, events=r".", opaque=O, hof=False):
                if p.end != "return":
                    c.ob("commit", b.name, False, "collecting ends the program", span=b.span)
                    continue
                ch = [e for e in p.events if e.kind == "call" and e.args and sp(root_of(e.args[0])) == ("updates",) and not re.search(r"::(iter|len|is_empty|deref|as_slice|reserve)$", e.name)]
                if fn == "compiled" and (p.variant(p.ret) == "None" or p.ret.op == "agg" and agg_variant(p.ret) == "None"):
                    n["not collected"] += 1
                    c.ob("commit", b.name, not ch and any(outcome(p, v) == "Err" or p.variant(v) == "None" for v in p.facts), "a document without an id or a place is collected", span=b.span)
                    continue
                ok = len(ch) == 1 and re.search(r"Vec(<.*>)?::push$", ch[0].name)
                x = unwrap(ch[0].args[1]) if ok else None
                ok = ok and x.op == "agg" and agg_variant(x) == variant
                n["collect " + fn] += 1
                if ok:
                    y = unwrap(agg_field(x, "0"))
                    if fn == "task":
                        ok = y is mk("arg", "task")
                    elif fn == "route":
                        ok = y.op == "agg" and unwrap(agg_field(y, "id")) is mk("arg", "doc_id") and unwrap(agg_field(y, "priority")) is mk("arg", "priority")
                    elif fn == "update_materials":
                        ok = called(y, r"ProjectPathMaterial::from_deps$", mk("arg", "doc_id"), mk("arg", "files"))
                    else:
                        ok = y.op == "agg" and document(c, p, y, n)
                c.ob("commit", b.name, bool(ok), "what is collected is not what was given", span=b.span)
    for b in anchored(c, r"LockFileUpdate::commit$"):
        for p in c.paths_of(b, events=r".", opaque=O, hof=False):
            us = calls(p, r"LockFile::update$")
            ok = p.end == "return" and len(us) == 1 and root_place(us[0].args[0]) == ("root",)
            c.ob("commit", b.name, ok, "not exactly the lock file of the directory is updated", span=b.span)
            if not ok:
                continue
            L = mk("arg", "l")
            for q in closure_runs(c, p, us[0].args[1], {2: L}, at=us[0], events=r".", opaque=O, cut=".", stores=True) or []:
                carried(c, b, q, L, n)


def root_place(v):
    return sp(root_of(unwrap(v))) or ()


def under_l(v, L):
    for _ in range(12):
        v = unwrap(v)
        if v is L:
            return True
        if v.op in ("proj", "ref", "H"):
            v = v.a[0]
        elif v.op == "loop":
            v = v.a[3]
        elif v.op == "mut":
            v = v.a[2]
        else:
            return False
        if not isinstance(v, V):
            return False
    return False


def carried(c, b, q, L, n):
    """one collected update, put into the lock file"""
    rep = calls(q, r"LockFile::replace_")
    wr = calls(q, WRITE)
    other = [e for e in q.events if e not in rep and (e.kind == "call" and any(isinstance(x, V) and under_l(x, L) for x in e.args) or e.kind == "store" and under_l(e.extra[0].a[0], L))]
    if q.end == "diverge":
        c.ob("commit", b.name, bool(calls(q, r"serde_json::")) and not rep, "carrying out an update ends the program", span=b.span)
        return
    if q.end == "return":
        n["carried out"] += 1
        done = any(re.search(r"Iterator>?::next$", call_name(v)) and q.variant(v) == "None" and over(v.a[1][0], lambda x: sp(x) == ("updates",)) for v in q.facts)
        c.ob("commit", b.name, done and not rep and not wr and not other and result(q)[0] == "Ok", "updates are left out", span=b.span)
        return
    item = [v for v in q.facts if re.search(r"Iterator>?::next$", call_name(v)) and q.variant(v) == "Some" and over(v.a[1][0], lambda x: sp(x) == ("updates",))]
    if q.end != "loop" or len(item) != 1:
        c.ob("commit", b.name, False, "the updates are not carried out one by one, in order", span=b.span)
        return
    u = payload(item[0], "Some")
    k = q.variant(u)
    v = payload(u, k) if k else None
    n["carried " + str(k)] += 1
    want = {"Input": "replace_document", "Task": "replace_task", "Route": "replace_route"}.get(k)
    if want:
        ok = len(rep) == 1 and rep[0].name.endswith("::" + want) and under_l(rep[0].args[0], L) and unwrap(rep[0].args[1]) is v and not wr and not other
        c.ob("commit", b.name, ok, "an update is carried out as another", span=b.span)
        return
    ok = k == "Material" and not rep and not other
    cd = [x for x in q.facts if re.search(r"dirs::cache_dir$", call_name(x))]
    if ok and cd and q.variant(cd[0]) == "None":
        ok = not wr
    elif ok:
        ok = len(wr) == 1 and wr[0].name.endswith("paths::write_atomic")
        if ok:
            path, data = wr[0].args[0], ok_of(wr[0].args[1])
            ps = list(subvalues(path))
            ok = data is not None and re.search(r"serde_json::to_(string|vec)(_pretty)?$", call_name(data)) and cd and payload(cd[0], "Some") in ps and any(x.op == "proj" and x.a[1] == ("f", "id") and unwrap(x.a[0]) is v for x in ps) and any(root_place(x)[-1:] == ("root",) for x in ps)
            m = data.a[1][0] if ok else None
            m = unwrap(m) if ok else None
            ch = vfs.upd_fields(m) if ok and m.op == "upd" else {}
            ok = ok and m.op == "upd" and unwrap(m.a[0]) is v and len(m.a[1]) == 1 and called(list(m.a[1])[0][1], r"unix_slash$") and root_place(unwrap(list(m.a[1])[0][1]).a[1][0])[-1:] == ("root",) and str(list(m.a[1])[0][0]).find("root") >= 0
    c.ob("commit", b.name, bool(ok), "the files of a document are not stored for it, whole, in its own place", span=b.span)


def document(c, p, y, n):
    """the document stored for a compiled world"""
    w = mk("arg", "world")
    ids = agg_field(y, "id")
    ok = given_some(p, ids, r"Id::from_world$", w)
    r = unwrap(agg_field(y, "root"))
    r = unwrap(agg_field(r, "0")) if r.op == "agg" and agg_variant(r) == "Some" else r
    ok = ok and called(r, r"ResourcePath::from_user_sys$", lambda x: const_of(x) == ".")
    m = agg_field(y, "main")
    src = lambda x: any(call_name(z) and re.search(r"path_for_id$", call_name(z)) and called(z, r"path_for_id$", w, lambda i: called(i, r"World>?::main$", w)) for z in subvalues(x))
    ok = ok and relative(c, p, m, src)
    fp = unwrap(agg_field(y, "font_paths"))
    ms = [x for x in subvalues(fp) if re.search(r"Iterator>?::map$", call_name(x))]
    if ok and len(ms) == 1 and re.search(r"collect$", call_name(fp)) and over(ms[0].a[1][0], lambda x: bool(re.search(r"font_paths$", call_name(x)))):
        ev = [e for e in p.events if e.res is ms[0]]
        item = mk("arg", "font-path")
        for q in closure_runs(c, p, ms[0].a[1][1], {2: item}, at=ev[0] if ev else None, events=r".", opaque=OPQ) or []:
            n["font paths"] += 1
            ok = ok and q.end == "return" and relative(c, q, q.ret, lambda x: unwrap(x) is item)
    elif ok:
        ok = False
    inp = agg_field(y, "inputs")
    return ok and is_list(inp)


def given_some(p, v, rx, *args):
    v = unwrap(v)
    if v.op == "proj" and v.a[1][0] == "f":
        b = v.a[0]
        if b.op == "proj" and b.a[1] == ("v", "Some") or b.op == "proj":
            return called(unwrap(b.a[0]), rx, *args)
    return False


def relative(c, p, v, src):
    """from_user_sys of the way from the directory of the lock file, or of the place itself where there is none"""
    v = unwrap(v)
    if not re.search(r"ResourcePath::from_user_sys$", call_name(v)):
        return False
    x = unwrap(v.a[1][0])
    ds = [d for d in p.facts if re.search(r"path::diff$", call_name(d)) and src(d.a[1][0]) and root_place(d.a[1][1])[-1:] == ("root",)]
    for d in ds:
        if p.variant(d) == "Some" and x is payload(d, "Some"):
            return True
        if p.variant(d) == "None" and src(x) and not re.search(r"path::diff$", show(x)):
            return True
    return False


def text_list(p, v):
    """the text of a value, characters included"""
    out = []
    for x in content(v):
        if not isinstance(x, str):
            k = const_of(x[1])
            if isinstance(k, int):
                x = chr(k)
            elif isinstance(k, str) and x[2] == "debug":
                x = '"%s"' % k
            elif isinstance(k, str):
                x = k
        if out and isinstance(x, str) and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def table_text(c, b, p, n):
    """the text of a lock file"""
    made = [v for v in p.facts if re.search(r"toml::.*(try_from|Serialize.*serialize)$|Map(<.*>)?::try_from$", call_name(v))]
    if len(made) != 1 or unwrap(made[0].a[1][0]) is not SELF:
        return "what is written is not all of the lock file"
    get = {}
    for v in p.facts:
        if re.search(r"::get$", call_name(v)) and given(unwrap(v.a[1][0]), made[0]) and const_of(v.a[1][1]) in ("document", "route", "task"):
            get[const_of(v.a[1][1])] = v
    arr = {}
    for v in p.facts:
        if re.search(r"Value::as_array$", call_name(v)):
            for k, g in get.items():
                if p.variant(g) == "Some" and unwrap(v.a[1][0]) is payload(g, "Some"):
                    arr[k] = v

    def key_of(lst):
        return next((k for k, a in arr.items() if over(lst, lambda x, a=a: x is payload(a, "Some"))), None)
    nexts = [v for v in p.facts if re.search(r"Iterator>?::next$", call_name(v))]
    if p.end == "diverge":
        n["no text: gone"] += 1
        it = [v for v in p.facts if re.search(r"Value::as_table(_mut)?$", call_name(v)) and p.variant(v) == "None"]
        return None if p.variant(made[0]) == "Err" or it or any(p.variant(a) == "None" for a in arr.values()) else "writing the lock file ends the program"

    def header(v):
        ls = text_list(p, v)
        if len(ls) > 1 or ls and not isinstance(ls[0], str):
            return False
        lines = (ls[0] if ls else "").split("\n")
        vs = [x for x in lines if x.strip() and not x.startswith("#")]
        return lines[-1] == "" and len(vs) == 1 and re.sub(r"\s", "", vs[0]) == 'version="%s"' % lock_version()

    def before(v, d=0):
        """the keys whose entries the text has, and whether it starts as it should"""
        if d > 6:
            return None
        ls = text_list(p, v)
        if ls and not isinstance(ls[0], str) and ls[0][1].op == "loop":
            return before(ls[0][1].a[3], d + 1) if len(ls) == 1 else None
        return header(v)
    if p.end == "loop":
        for lv in p.loop_vars():
            nx = p.loop_next(lv)
            if nx is None:
                continue
            ls = text_list(p, nx)
            if len(ls) == 3 and not isinstance(ls[0], str) and ls[0][1] is lv:
                n["text entry"] += 1
                it = [v for v in nexts if p.variant(v) == "Some"]
                if len(it) != 1:
                    return "an entry is not written by itself"
                k = key_of(it[0].a[1][0])
                item = payload(it[0], "Some")
                if k is None or ls[1].strip() != "[[%s]]" % k or ls[1][0] != "\n" or ls[1][-1] != "\n":
                    return "an entry is written as one of another list"
                if not before(lv.a[3]):
                    return "the text does not start with the version"
                t = unwrap(ls[2][1])
                rm = [v for v in p.facts if re.search(r"::remove$", call_name(v))]
                n["text " + k] += 1
                if k != "task":
                    good = ok_of_some(t, r"Value::as_table$", lambda x: unwrap(x) is item) or unwrap(t) is item
                    return None if good and not rm else "an entry is not written whole"
                if len(rm) != 1 or const_of(rm[0].a[1][1]) != "transform":
                    return "a task is not written whole"
                base = unwrap(rm[0].a[1][0])
                if not ok_of_some(base, r"Value::as_table_mut$", lambda x: unwrap(root_of(x)) is item or unwrap(x) is item):
                    return "a task is not written whole"
                after = t
                if p.variant(rm[0]) == "Some":
                    if not (after.op == "mut" and re.search(r"::insert$", call_name(after.a[0]))):
                        return "what a task does to its output is not written"
                    ins = after.a[0]
                    sub = [x for x in subvalues(ins.a[1][2])]
                    tr = [x for x in sub if re.search(r"::insert$", call_name(x)) and const_of(x.a[1][1]) == "transform" and unwrap(x.a[1][2]) is payload(rm[0], "Some") and re.search(r"::new$", call_name(root_of(x.a[1][0])))]
                    if const_of(ins.a[1][1]) != "task" or not tr:
                        return "what a task does to its output is not written"
                    after = after.a[2]
                n["task with" if p.variant(rm[0]) == "Some" else "task without"] += 1
                return None if after.op == "mut" and after.a[0] is rm[0] and unwrap(after.a[2]) is base else "a task is not written whole"
        return "an entry is left out"
    if p.end != "return":
        return "writing the lock file ends the program"
    n["text whole"] += 1
    for k in ("document", "route", "task"):
        g = get.get(k)
        if g is None:
            return "a list of the lock file is not written"
        if p.variant(g) == "Some" and not any(p.variant(v) == "None" and key_of(v.a[1][0]) == k for v in nexts):
            return "a list of the lock file is not written to its end"
    return None if before(p.ret) else "the text does not start with the version, or has other parts"


def ok_of_some(v, rx, pred):
    v = unwrap(v)
    while v.op == "proj" or v.op == "ref":
        v = unwrap(v.a[0])
    return re.search(rx, call_name(v)) and pred(v.a[1][0])


def texts(c, n):
    for b in anchored(c, r"LockFile::serialize_resolve$"):
        for p in c.paths_of(b, events=r".", hof=False, cut=".", iters=False):
            m = table_text(c, b, p, n)
            c.ob("text", b.name, m is None, m or "", span=b.span)


def opt_of(p, v):
    """('Some', value) or ('None', None) of an optional value"""
    if v.op == "agg" and agg_variant(v) == "None":
        return "None", None
    if v.op == "agg" and agg_variant(v) == "Some":
        return "Some", unwrap(agg_field(v, "0"))
    k = p.variant(v)
    return (k, payload(v, "Some") if k == "Some" else None)


def schemes(c, n):
    """paths as they are stored"""
    P2 = dict(crate=T)
    known = set()
    for crate in (T, J):
        for b in makers(crate, "primitives::ResourcePath"):
            if re.search(r"as .*(Clone|Default)>::", b.name):
                continue
            for p in c.paths_of(b, events=r".", opaque=OPQ.replace("|ResourcePath::from_", ""), hof=False):
                vals = [p.ret] if p.ret is not None else []
                for v in dict.fromkeys(x for r in vals if isinstance(r, V) for x in subvalues(r) if x.op == "agg" and x.a[1] == "primitives::ResourcePath"):
                    s = unwrap(agg_field(v, "0"))
                    k = const_of(s)
                    if re.search(r"FromStr>::from_str$", b.name):
                        n["path read"] += 1
                        x, y = split_at(s), split_at(unwrap(agg_field(v, "1")))
                        c.ob("paths", b.name, x == ("0", mk("arg", "value")) and y == ("1", mk("arg", "value")), "a stored path is not taken apart at its first colon", span=b.span)
                        continue
                    n["path made"] += 1
                    c.ob("paths", b.name, isinstance(k, str) and k != "" and ":" not in k, "a path is made whose kind has a colon, or is not fixed", span=b.span)
                    known.add(k)
                    if k == "file_id":
                        t = content(agg_field(v, "1"))
                        pk = [f for f in p.facts if call_name(f).endswith("::package")]
                        want = payload(pk[0], "Some") if pk and p.variant(pk[0]) == "Some" else None
                        ok = len(t) == 2 and not isinstance(t[1], str) and called(t[1][1], r"unix_slash$", lambda x: called(x, r"as_rooted_path$", lambda y: called(y, r"::vpath$", mk("arg", "id"))))
                        ok = ok and (t[0] == "$root" if want is None else not isinstance(t[0], str) and unwrap(t[0][1]) is want and t[0][2] == "display")
                        c.ob("paths", b.name, bool(ok), "a file is stored as another", span=b.span)
    c.ob("paths", "ResourcePath", known == {"file", "file_id"}, "there are other kinds of stored paths than those of files, and of files in the project")
    for b in anchored(c, r"ResourcePath as .*Display>::fmt$", **P2):
        for p in c.paths_of(b, events=r".", hof=False):
            got, ok, failed = written(p, mk("arg", "f"))
            if failed:
                continue
            n["path shown"] += 1
            ok = ok and [x if isinstance(x, str) else (sp(unwrap(x[1])), x[2]) for x in got] == [(("0",), "display"), ":", (("1",), "display")]
            c.ob("paths", b.name, ok, "a path is not shown as its kind, a colon and the rest", span=b.span)
    text_form(c, "ResourcePath", "paths", "a path")
    for b in anchored(c, r"ResourcePath::from_user_sys$", **P2):
        inp = mk("arg", "inp")
        for p in c.paths_of(b, events="zz", opaque=r"unix_slash$|path::diff$|current_dir$", hof=False):
            cwd = [v for v in p.facts if re.search(r"env::current_dir$", call_name(v))]
            df = [v for v in p.facts if re.search(r"path::diff$", call_name(v))]
            if p.end != "return":
                n["path: gone"] += 1
                c.ob("paths", b.name, bool(cwd and p.variant(cwd[0]) == "Err" or df and p.variant(df[0]) == "None"), "storing a path ends the program", span=b.span)
                continue
            v = unwrap(p.ret)
            rel = rel_of(p, inp)
            x = unwrap(agg_field(v, "1"))
            ok = const_of(unwrap(agg_field(v, "0"))) == "file" and re.search(r"unix_slash$", call_name(x))
            y = unwrap(x.a[1][0]) if ok else None
            n["path relative" if rel else "path absolute"] += 1
            ok = ok and (y is inp if rel else rel is False and y.op == "proj" and df and y is payload(df[0], "Some") and called(df[0], r"diff$", inp, lambda z: ok_of(z) is not None and cwd and ok_of(z) is cwd[0]))
            c.ob("paths", b.name, bool(ok), "a path of the file system is stored as another", span=b.span)
    for fn in ("to_abs_path", "to_rel_path"):
        for b in anchored(c, r"ResourcePath::%s$" % fn, **P2):
            for p in c.paths_of(b, events="zz", opaque=r"path::diff$", hof=False):
                k, x = opt_of(p, p.ret)
                kind = [v for v in p.facts if v.op == "bin" and v.a[0] in ("Eq", "Ne") and any(const_of(z) == "file" for z in v.a[1:3]) and any(sp(unwrap(z)) == ("0",) for z in v.a[1:3])]
                isf = flag(p, kind[0]) == (kind[0].a[0] == "Eq") if kind else None
                if isf is not True:
                    n["path: no file"] += 1
                    c.ob("paths", b.name, isf is False and k == "None", "a path that is none of a file has a place", span=b.span)
                    continue
                path = F(SELF, "1")
                rel = rel_of(p, path)
                n["path: place"] += 1
                base = mk("arg", "base")
                if fn == "to_abs_path":
                    ok = rel is not None and k == "Some" and (called(x, r"Path::join$", base, path) if rel else x is path)
                else:
                    df = [v for v in p.facts if called(v, r"path::diff$", path, base)]
                    ok = rel is not None and k == "Some" and (x is path if rel or df and p.variant(df[0]) == "None" else bool(df) and (x is payload(df[0], "Some")))
                c.ob("paths", b.name, bool(ok), "a stored path is taken for another place", span=b.span)
    for b in anchored(c, r"primitives::Id::from_world$", **P2):
        for p in c.paths_of(b, events="zz", opaque=r"from_user_sys$|unix_slash$", hof=False):
            k, x = opt_of(p, p.ret)
            mn = [v for v in p.facts if re.search(r"EntryState::main$", call_name(v)) and called(v, r"main$", lambda y: called(y, r"entry_state$", mk("arg", "world")))]
            n["id of a world"] += 1
            if mn and p.variant(mn[0]) == "None":
                c.ob("paths", b.name, k == "None", "a world without a main file has an id", span=b.span)
                continue
            ok = p.end == "return" and k == "Some" and bool(mn) and payload(mn[0], "Some") in list(subvalues(x)) and any(re.search(r"from_user_sys$", call_name(z)) for z in subvalues(x)) and any(re.search(r"as_rootless_path$", call_name(z)) for z in subvalues(x))
            c.ob("paths", b.name, ok, "the id of a world is not its main file", span=b.span)
    for b in anchored(c, r"ProjectPathMaterial::from_deps$"):
        for p in c.paths_of(b, events=r".", hof=False):
            v = unwrap(p.ret)
            ok = p.end == "return" and v.op == "agg" and unwrap(agg_field(v, "id")) is mk("arg", "doc_id")
            fs = root_of(agg_field(v, "files")) if ok else None
            ok = ok and re.search(r"collect$", call_name(fs)) and re.search(r"Iterator>?::map$", call_name(unwrap(fs.a[1][0]))) and over(unwrap(fs.a[1][0]).a[1][0], mk("arg", "files"))
            if ok:
                m = unwrap(fs.a[1][0])
                ev = [e for e in p.events if e.res is m or unwrap(e.res) is m]
                for q in closure_runs(c, p, m.a[1][1], {2: mk("arg", "file")}, at=ev[0] if ev else None, events="zz") or []:
                    n["material"] += 1
                    ok = ok and q.end == "return" and unwrap(q.ret) is mk("arg", "file")
            changed = [e for e in p.events if e.kind == "call" and re.search(r"::(dedup\w*|retain\w*|truncate|pop|clear|remove|swap_remove|drain)$", e.name)]
            c.ob("paths", b.name, bool(ok) and not changed, "the files of a document are not all its files", span=b.span)


def rel_of(p, v):
    """whether a path is relative, as far as the path of the program knows"""
    for f in p.facts:
        if re.search(r"Path::is_(relative|absolute)$", call_name(f)) and unwrap(f.a[1][0]) is v:
            t = flag(p, f)
            if t is not None:
                return t == call_name(f).endswith("relative")
    return None


def split_at(v):
    """(part, text) of a text taken apart at its first colon"""
    v = unwrap(v)
    if v.op == "proj" and v.a[1][0] == "f":
        b = v.a[0]
        while b.op == "proj":
            b = b.a[0]
        r = ok_of(b) or b
        while re.search(r"::(ok_or|ok_or_else)$", call_name(r)):
            r = r.a[1][0]
        if re.search(r"str>?::split_once$", call_name(r)) and const_of(r.a[1][1]) in (58, ":"):
            return str(v.a[1][1]), unwrap(r.a[1][0])
    return None


@check("J06")
def j06(c):
    c.which = 2
    n = defaultdict(int)
    c.rule("update", "LockFile::update opens the lock file of the directory under an exclusive lock before anything else is done with it; a file with nothing in it has no documents, tasks and routes, any other must be text, toml and of this version; the change is made once, on what the file has, and sorted; nothing is written if a step or the change fails, or if the text stays the same; otherwise the file is cut, and exactly the new text is written at its start. Each failed step is the error of the update.")
    c.rule("read", "LockFile::read reads under a shared lock, writes nothing, and gives what the file has, or the error of the step that failed.")
    c.rule("version", "Only a lock file of this version is taken as one; versions are compared as semantic versions, and what is none is not compared.")
    c.rule("apply", "A document or task takes the place of the one with its id, or is put in once; a route takes the last place, and only the one of the same document goes; documents and tasks are sorted, routes are not.")
    locking(c, n)
    versions(c, n)
    lists(c, n)
    c.rule("commit", "What is collected for the lock file is carried out in order, each as what it is: a document, task or route is put in, the files of a document are stored whole under its own name in the cache. The document of a world is stored with its id, its main file and font paths as seen from the directory of the lock file.")
    c.rule("text", "The text of a lock file starts with comments and its version, and has every document, route and task as an entry of its own list; what a task does to its output is an entry of that task. Only an entry that is no table ends the program.")
    pushed(c, n)
    texts(c, n)
    c.rule("paths", "A path is stored as its kind, a colon and the rest, and read as that, the rest with its colons; kinds are fixed and have no colon. A path of the file system is stored as it is if it is relative, and otherwise as the way from the working directory; it is read as below the directory given unless it is absolute. The files stored for a document are all of its files.")
    schemes(c, n)
    for k in sorted(CASES):
        c.floor("cases: " + k, n[k], 1)


CASES = """no lock;no read;new;refused;unchanged;failed;written;no toml;no version;other version;no migration;old;read;read no toml;version other;version own;migrate Other;migrate Version010Beta0;compared;id document;added document;replaced document;get document;id task;added task;replaced task;get task;route;sorted;collect task;collect route;collect update_materials;not collected;collect compiled;font paths;carried Route;carried Material;carried Task;carried Input;carried out;text whole;text entry;text task;task with;task without;text route;text document;path made;path read;path shown;path relative;path absolute;path: place;path: no file;id of a world;material""".split(";")
