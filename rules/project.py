"""J: projects, file watching and scheduling of compilations (crate tinymist-project, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
import vfs
from vfs import SELF, call_name, field, fpath, nexts, payload, src
from pkg import closure_runs, unwrap

CONTENT = re.compile(r"PathAccessModel(<.*>)?>?::content$")
GET = re.compile(r"HashMap(<.*>)?::(get_mut|get)$")


def anchored(c, rx):
    return vfs.anchored(c, rx, crate="tinymist_project")


def under(v, root):
    """whether v is (a part of) root"""
    v = unwrap(v)
    while v is not root and v.op == "proj":
        v = v.a[0]
    return v is root


def futures(c, rx, crate="tinymist_project"):
    """the bodies of async functions and blocks"""
    bs, seen = [], set()
    for (k, i), b in program(c.which).bodies.items():
        if k == crate and re.search(rx, b.name) and (b.name, b.span) not in seen:
            seen.add((b.name, b.span))
            bs.append(b)
    c.anchor(rx, bs)
    return bs


def spath(v):
    """field names below self of a place, in functions and in futures"""
    r, p = fpath(v)
    if r is SELF:
        return p
    if r.op == "arg" and r.a[0] == "env" and p[:1] == ("self",):
        return p[1:]
    return None


def upvar(name):
    """a parameter of the function, in functions and in futures"""
    return (mk("arg", name), F(mk("arg", "env"), name))


def cells(p, root, since=0):
    """{fields below root: last value stored}, for a place behind a reference"""
    out = {}
    for e in p.events:
        if e.kind != "store" or not isinstance(e.extra, tuple) or e.extra[0].op != "H":
            continue
        r = e.extra[0].a[0]
        fs = tuple(x[1] for x in e.extra[1])
        while r is not root and r.op == "proj" and r.a[1][0] in ("f", "d"):
            fs = (r.a[1][1],) + fs
            r = r.a[0]
        if r is root:
            for k in [k for k in out if k[:len(fs)] == fs]:
                del out[k]
            out[fs] = e.res
    return out


def known_eq(p, a, b):
    """whether the path knows a == b"""
    for v, f in p.facts.items():
        if f[0] != "eq":
            continue
        if v.op == "bin" and v.a[0] in ("Eq", "Ne"):
            x, y, neg = v.a[1], v.a[2], v.a[0] == "Ne"
        elif re.search(r"PartialEq(<.*>)?>?::(eq|ne)$", call_name(v)):
            x, y, neg = v.a[1][0], v.a[1][1], call_name(v).endswith("::ne")
        else:
            continue
        x, y = unwrap(x), unwrap(y)
        if (x is a and y is b) or (x is b and y is a):
            return (f[1] == "1") != neg
    return None


SEND = re.compile(r"Unbounded(Sender|_sender)(<.*>)?::send$")
EMIT = re.compile(r"Fn(Mut|Once)?(<.*>)?>?::call(_mut|_once)?$")


def settled(p):
    """whether the path is one that matters: it neither panics nor fails to write a text"""
    return p.end != "diverge"


def emitted(p, e):
    """the changeset (a value) that an event handed to the consumer carries, and the event's variant"""
    if not EMIT.search(e.name) or spath(e.args[0]) != ("interrupted_by_events",):
        return None
    a = e.args[1]
    if a.op == "agg" and a.a[0] == "tuple":
        a = a.a[4]
    return a


def changeset(v, p):
    """(inserts, removes) pushed one by one to a changeset that was empty, as [(path, value)] and [path]; None if it cannot be told"""
    b = v
    while b.op == "upd":
        b = b.a[0]
    if not (re.search(r"Default>?::default$", call_name(b)) or b.op == "default" or re.search(r"FileChangeSet(<.*>)?::(default|new_\w+)$", call_name(b))):
        return None
    ins, rem = [], []
    for e in p.events:
        if e.kind == "call" and e.name.endswith("Vec::push"):
            r, fs = fpath(e.args[0])
            if r is b and fs == ("inserts",):
                ins.append(e.args[1])
            elif r is b and fs == ("removes",):
                rem.append(e.args[1])
    if re.search(r"new_inserts$", call_name(b)):
        return None
    return ins, rem


@check("J01")
def j01(c):
    c.which = 2
    c.rule("update", "a watched file that is read again is either reported, with what was read as the new known content; or known to be what was reported last, and then it is stable; or it is empty or an error, kept as the content to report by a recheck that is under way")
    c.rule("recheck", "a recheck that is not too early for its file reports the content kept if that recheck put it there and it is not what was reported last; a later recheck's content stays kept; an early one is sent again")
    c.rule("known content", "the content taken as reported changes only together with a report of that content")
    c.rule("deliver", "every file update found for a notification, a synchronization or an upstream change is sent to the consumer with its change set")
    n = defaultdict(int)
    for b in anchored(c, r"NotifyActor::notify_entry_update$"):
        path = mk("arg", "path")
        for p in c.paths_of(b, events=r".", cut=".", stores=True):
            if p.end != "return":
                if p.end != "diverge":
                    c.ob("update", b.name, False, "loops", span=b.span)
                continue
            gets = [e for e in p.events if e.kind == "call" and GET.search(e.name) and spath(e.args[0]) == ("watched_entries",) and unwrap(e.args[1]) is path]
            if len(gets) != 1:
                c.ob("update", b.name, False, f"looks up {len(gets)} entries for the file", span=b.span)
                continue
            ent = F(gets[0].res, "+Some", "0")
            st = cells(p, ent)
            if p.variant(gets[0].res) == "None":
                n["unwatched"] += 1
                c.ob("update", b.name, p.variant(p.ret) == "None", "reports a file that is not watched", span=b.span)
                continue
            reads = [e for e in p.events if e.kind == "call" and CONTENT.search(e.name) and spath(e.args[0]) == ("inner",) and unwrap(e.args[1]) is path]
            if len(reads) != 1:
                c.ob("update", b.name, False, f"reads the file {len(reads)} times", span=b.span)
                continue
            file = reads[0].res
            prev, state = F(ent, "prev"), F(ent, "state")
            end = st.get(("state",))
            kept = st.get(("state", "EmptyOrRemoval", "payload"))
            was = p.variant(state)
            if p.variant(p.ret) == "Some":
                n["reported"] += 1
                v = payload(p.ret, "Some")
                parts = v.a[4:] if v.op == "agg" and v.a[0] == "tuple" else (F(v, "0"), F(v, "1"))
                np = st.get(("prev",))
                c.ob("update", b.name, unwrap(parts[0]) is path and unwrap(parts[1]) is file, "reports something else than the file just read", span=b.span)
                c.ob("known content", b.name, np is not None and p.variant(np) == "Some" and unwrap(payload(np, "Some")) is file, "a reported content is not the one compared with later", span=b.span)
                c.ob("update", b.name, p.variant(end) == "Stable" if end is not None else was == "Stable", "a file reported stays unstable", span=b.span)
                continue
            c.ob("known content", b.name, not any(k[:1] == ("prev",) or not k for k in st), "takes a content as reported without a report", span=b.span)
            old = F(prev, "+Some", "0")
            same = any(known_eq(p, F(old, "+" + k, "0"), F(file, "+" + k, "0")) for k in ("Ok", "Err")) or known_eq(p, old, file) or known_eq(p, prev, mk("agg", "adt", "Option", "Some", ("0",), file))
            if p.variant(prev) == "Some" and same:
                n["same"] += 1
                c.ob("update", b.name, p.variant(end) == "Stable" if end is not None else (was == "Stable" and kept is None), "a file with the content reported last stays unstable, so that something else may be reported later", span=b.span)
                continue
            n["delayed"] += 1
            empty = p.variant(file) == "Err" or any(re.search(r"::is_empty$", call_name(v)) and under(v.a[1][0], file) and f == ("eq", "1") or len_zero(v, f, file) for v, f in p.facts.items())
            c.ob("update", b.name, bool(empty), "an update that is neither empty nor an error is not reported", span=b.span)
            if end is not None:
                ok = p.variant(end) == "EmptyOrRemoval" and unwrap(agg_field(end, "payload")) is file
                tick = agg_field(end, "recheck_at") if ok else None
                if tick is None:
                    c.ob("update", b.name, False, "the content of a file not reported is not kept", span=b.span)
                    continue
                if was == "EmptyOrRemoval" and tick is F(state, "+EmptyOrRemoval", "recheck_at"):
                    continue
                sends = [e for e in p.events if e.kind == "call" and SEND.search(e.name) and spath(e.args[0]) == ("undetermined_send",)]
                c.ob("update", b.name, any(unwrap(agg_field(e.args[1], "path") or e.args[1]) is path and agg_field(e.args[1], "at_logical_tick") is tick for e in sends),
                     "no recheck is sent for the content kept", span=b.span)
                c.ob("update", b.name, spath(tick) == ("logical_tick",), "the recheck is not identified by the time of the event", span=b.span)
                c.ob("update", b.name, all(re.search(r"Instant(<.*>)?::now$", call_name(agg_field(e.args[1], "at_realtime"))) for e in sends), "the recheck is not timed from now", span=b.span)
            else:
                c.ob("update", b.name, was == "EmptyOrRemoval" and unwrap(kept) is file if kept is not None else False, "the content of a file not reported is not kept", span=b.span)
    for k in ("unwatched", "reported", "same", "delayed"):
        c.floor(f"paths: {k}", n[k], 1)

    # the default state is the stable one
    for b in anchored(c, r"<.*WatchState as .*Default>::default$"):
        for p in c.paths_of(b):
            c.ob("recheck", b.name, p.variant(p.ret) == "Stable", "files are unstable by default", span=b.span)

    for b in futures(c, r"NotifyActor::recheck_notify_event::\{closure#0\}$"):
        evs_ = upvar("event")

        def ev(v, f):
            v = unwrap(v)
            return v.op == "proj" and v.a[1] == ("f", f) and v.a[0] in evs_

        for p in c.paths_of(b, events=r".", cut=".", stores=True):
            if p.end == "diverge":
                continue
            early = too_early(p, ev)
            gets = [e for e in p.events if e.kind == "call" and GET.search(e.name) and spath(e.args[0]) == ("watched_entries",) and ev(e.args[1], "path")]
            sends = [e for e in p.events if e.kind == "call" and SEND.search(e.name) and spath(e.args[0]) == ("undetermined_send",)]
            emits = [e for e in p.events if e.kind == "call" and EMIT.search(e.name) and spath(e.args[0]) == ("interrupted_by_events",)]
            if p.end == "loop" or (early and not sends):
                # waiting, or started to wait elsewhere
                spawn = [e for e in p.events if e.kind == "call" and re.search(r"::spawn\w*$", e.name)]
                c.ob("recheck", b.name, early and not gets and not emits and bool(spawn or p.end == "loop"), "an event is dropped", span=b.span)
                n["early"] += 1
                continue
            if early:
                n["again"] += 1
                c.ob("recheck", b.name, len(sends) == 1 and unwrap(sends[0].args[1]) in evs_ and not gets and not emits, "an early recheck is not sent again as it was", span=b.span)
                continue
            if len(gets) != 1:
                c.ob("recheck", b.name, False, f"looks up {len(gets)} entries for the file", span=b.span)
                continue
            if p.variant(gets[0].res) == "None":
                c.ob("recheck", b.name, not emits, "reports a file that is not watched", span=b.span)
                continue
            ent = F(gets[0].res, "+Some", "0")
            st = cells(p, ent)
            prev, state = F(ent, "prev"), F(ent, "state")
            end = st.get(("state",), state)
            deflt = is_default(end) or p.variant(end) == "Stable"
            np = st.get(("prev",))
            if p.variant(state) == "Stable":
                n["stable"] += 1
                c.ob("recheck", b.name, not emits and np is None and (deflt or end is state), "rechecks a stable file", span=b.span)
                continue
            tick, pl = F(state, "+EmptyOrRemoval", "recheck_at"), F(state, "+EmptyOrRemoval", "payload")
            mine = any(known_eq(p, tick, F(x, "at_logical_tick")) for x in evs_)
            if not mine:
                n["other's"] += 1
                whole = end is state or (p.variant(end) == "EmptyOrRemoval" and agg_field(end, "recheck_at") is tick and agg_field(end, "payload") is pl)
                c.ob("recheck", b.name, not emits and np is None and whole, "a recheck takes the content another recheck is to report", span=b.span)
                continue
            same = p.variant(prev) == "Some" and (known_eq(p, pl, F(prev, "+Some", "0")) or known_eq(p, prev, mk("agg", "adt", "Option", "Some", ("0",), pl)))
            c.ob("recheck", b.name, deflt, "a file rechecked stays unstable", span=b.span)
            if same and not emits:
                n["recheck same"] += 1
                c.ob("known content", b.name, np is None or unwrap(payload(np, "Some")) is pl, "takes another content as reported", span=b.span)
                continue
            n["recheck reported"] += 1
            ok = len(emits) == 1
            if ok:
                a = emitted(p, emits[0])
                cs = changeset(payload(a, "Update") if p.variant(a) == "Update" else a, p)
                ok = cs is not None and p.variant(a) == "Update" and not cs[1] and len(cs[0]) == 1 and cs[0][0].op == "agg" and ev(cs[0][0].a[4], "path") and unwrap(cs[0][0].a[5]) is pl
            c.ob("recheck", b.name, ok, "the content kept is not reported", span=b.span)
            c.ob("known content", b.name, np is not None and p.variant(np) == "Some" and unwrap(payload(np, "Some")) is pl, "the content reported is not the one compared with later", span=b.span)
    for k in ("early", "again", "stable", "other's", "recheck same", "recheck reported"):
        c.floor(f"rechecks: {k}", n[k], 1)
    deliveries(c, n)


def is_default(v):
    return v.op == "default" or bool(re.search(r"(^|::)default$", call_name(v)))


def len_zero(v, f, file):
    return v.op == "bin" and v.a[0] == "Eq" and f == ("eq", "1") and re.search(r"::len$", call_name(v.a[1])) and under(v.a[1].a[1][0], file) and v.a[2].op == "const" and cval(v.a[2]) == 0


def too_early(p, ev):
    """whether the path knows that less time than a constant passed since the event"""
    for v, f in p.facts.items():
        m = re.search(r"PartialOrd(<.*>)?>?::(lt|le|gt|ge)$", call_name(v))
        if m and f[0] == "eq":
            x, y = v.a[1]
            op = m.group(2)
            if op in ("gt", "ge"):
                x, y, op = y, x, {"gt": "lt", "ge": "le"}[op]
            since = lambda d: re.search(r"(Sub(<.*>)?>?::sub|Instant::(saturating_)?duration_since|Instant::elapsed)$", call_name(d)) and any(ev(z, "at_realtime") for z in d.a[1])
            if since(x):
                return f[1] == "1"
            if since(y):
                return f[1] == "0"
    return False


def empty_set(p, v):
    """whether the path knows that the changeset v is empty"""
    for k, f in p.facts.items():
        if re.search(r"FileChangeSet(<.*>)?::is_empty$", call_name(k)) and root_of(k.a[1][0]) is root_of(v):
            return f == ("eq", "1")
    return None


def root_of(v):
    """what a value was before it was changed"""
    while True:
        w = v
        if v.op == "upd":
            v = v.a[0]
        elif v.op == "loop":
            v = v.a[3]
        elif v.op == "mut":
            v = v.a[2] if len(v.a) > 2 and isinstance(v.a[2], V) else v.a[0]
        if v is w:
            return v


def emits_of(p):
    return [(e, emitted(p, e)) for e in p.events if e.kind == "call" and EMIT.search(e.name) and spath(e.args[0]) == ("interrupted_by_events",)]


def sent_set(a, p, v):
    """the event hands over the changeset v"""
    return p.variant(a) == "Update" and root_of(payload(a, "Update")) is root_of(v)


def updates_in(p):
    """[(path, result)] of the files looked at again, with whether the result is put in a changeset, and which"""
    out = []
    for i, e in enumerate(p.events):
        if e.kind == "call" and e.name.endswith("NotifyActor::notify_entry_update"):
            into = [x.args[0] for x in p.events[i:] if x.kind == "call" and x.name.endswith("FileChangeSet::may_insert") and x.args[1] is e.res]
            into += [x.args[0] for x in p.events[i:] if x.kind == "call" and x.name.endswith("Extend>::extend") and x.args[1] is e.res and fpath(x.args[0])[1][-1:] == ("inserts",)]
            into += [fpath(x.args[0])[0] for x in p.events[i:] if x.kind == "call" and x.name.endswith("Vec::push") and fpath(x.args[0])[1] == ("inserts",) and under(x.args[1], e.res)]
            out.append((i, e, into))
    return out


QUIET = r"notify_entry_update$|FileChangeSet::(may_insert|is_empty)$|update_watches$|NotifyActor::(notify_event|invalidate_upstream|recheck_notify_event(::\{closure#0\})?)$"


def deliveries(c, n):
    for b in vfs.anchored(c, r"FileChangeSet::is_empty$"):
        for p in c.paths_of(b):
            t = p.truth(p.ret) if p.truth(p.ret) is not None else const_of(p.ret)
            part = {k: next((f == ("eq", "1") for v, f in p.facts.items() if re.search(r"is_empty$", call_name(v)) and spath(v.a[1][0]) == (k,)), None) for k in ("inserts", "removes")}
            if p.end == "return" and t is None and re.search(r"is_empty$", call_name(p.ret)):
                k = spath(p.ret.a[1][0])
                ok = k in (("inserts",), ("removes",)) and part["inserts" if k == ("removes",) else "removes"]
            else:
                ok = (all(part.values()) if t else any(x is False for x in part.values())) and t is not None
            c.ob("deliver", b.name, bool(ok), "a change set with changes counts as empty, or the other way around", span=b.span)
    for b in vfs.anchored(c, r"FileChangeSet::may_insert$"):
        v = mk("arg", "v")
        for p in c.paths_of(b, events=r"."):
            ps = [e for e in p.events if e.name.endswith("Vec::push") and spath(e.args[0]) == ("inserts",)]
            if p.variant(v) == "None":
                c.ob("deliver", b.name, not ps, "inserts a file that has not changed", span=b.span)
            else:
                c.ob("deliver", b.name, len(ps) == 1 and under(ps[0].args[1], v), "a changed file is not put in the change set", span=b.span)

    for b in anchored(c, r"NotifyActor::notify_event$"):
        paths = F(mk("arg", "event"), "paths")
        loops = defaultdict(list)
        rets = []
        for p in c.paths_of(b, events=r".", cut=".", stores=True, opaque=QUIET):
            if p.end == "return":
                rets.append(p)
            elif p.end == "loop":
                it = [(i, lv) for i, lv, s in nexts(p) if i is not None and unwrap(s) is paths]
                if it:
                    loops[lv_id(it[-1][1])].append((p, it[-1][0]))
        good = {}
        for k, ps in loops.items():
            sets = set()
            for p, item in ps:
                us = [(e, into) for _, e, into in updates_in(p) if unwrap(e.args[1]) is item or under(e.args[1], item)]
                if us and p.variant(us[0][0].res) == "None":
                    continue
                sets |= {root_of(s) for e, into in us[:1] for s in into} or {None}
            if len(sets) == 1 and None not in sets:
                good[k] = sets.pop()
        c.ob("deliver", b.name, len(good) == 1, "not every file of a notification is looked at again and put in the change set", span=b.span)
        if len(good) != 1:
            continue
        (k, cs), = good.items()
        for p in rets:
            done = [1 for i, lv, s in nexts(p) if i is None and lv_id(lv) == k]
            es = emits_of(p)
            sent = [a for e, a in es if sent_set(a, p, cs)]
            c.ob("deliver", b.name, bool(done), "a notification is left before its files are looked at", span=b.span)
            c.ob("deliver", b.name, len(sent) == 1 if not empty_set(p, cs) else not es, "the changes of a notification are not sent to the consumer", span=b.span)
            n["notified"] += 1

    for b in anchored(c, r"NotifyActor::invalidate_upstream$"):
        ev = mk("arg", "event")
        for p in c.paths_of(b, events=r".", stores=True, opaque=QUIET):
            if p.end != "return":
                continue
            us = [e for e in p.events if e.name.endswith("NotifyActor::update_watches")]
            es = emits_of(p)
            ok = len(us) == 1 and len(es) == 1 and p.variant(es[0][1]) == "UpstreamUpdate"
            if ok:
                a = es[0][1]
                cs, up = agg_field(a, "changeset"), agg_field(a, "upstream_event")
                got = p.variant(us[0].res)
                c.ob("deliver", b.name, unwrap(us[0].args[1]) is F(ev, "invalidates"), "looks at other files than the ones invalidated", span=b.span)
                c.ob("deliver", b.name, cs is payload(us[0].res, "Some") if got == "Some" else got == "None" and (is_default(cs)), "the changes found for an upstream change are not sent with it", span=b.span)
                c.ob("deliver", b.name, p.variant(up) == "Some" and payload(up, "Some") is ev, "the upstream change is not sent on", span=b.span)
            else:
                c.ob("deliver", b.name, False, "an upstream change is not sent on, after the files it invalidates are looked at", span=b.span)
            n["upstream"] += 1
    for k in ("notified", "upstream"):
        c.floor(f"deliveries: {k}", n[k], 1)


def lv_id(lv):
    return (lv.a[0], lv.a[1]) if lv.op == "loop" else lv


WATCH = re.compile(r"Watcher(<.*>)?>?::watch$")
UNWATCH = re.compile(r"Watcher(<.*>)?>?::unwatch$")
MAPVALS = re.compile(r"HashMap(<.*>)?::(values_mut|iter_mut)$")


def excludes(p, v, name):
    """whether the path knows that v is not that variant"""
    f = p.facts.get(v)
    if f is None:
        x = p.variant(v)
        return x is not None and x != name
    return (f[0] == "eq" and f[1] != name) or (f[0] == "ne" and name in f[1])


def entry_roots(p, field_):
    """the places whose field of that name the path writes"""
    out = []
    for e in p.events:
        if e.kind == "store" and isinstance(e.extra, tuple) and e.extra[0].op == "H":
            r, fs = e.extra[0].a[0], tuple(x[1] for x in e.extra[1])
            if fs[-1:] == (field_,):
                out.append(r if len(fs) == 1 else F(r, *fs[:-1]))
    return out


def is_true(p, v):
    return const_of(v) in (1, True) or p.truth(v) is True


def is_false(p, v):
    return const_of(v) in (0, False) or p.truth(v) is False


def watching_now(c, p, b, ent, path_ok, rule):
    """after the watch calls of the path, the entry is marked as watched exactly if it is"""
    st = cells(p, ent)
    w = st.get(("watching",))
    calls = [e for e in p.events if e.kind == "call" and (WATCH.search(e.name) or UNWATCH.search(e.name)) and path_ok(e.args[1])]
    last = calls[-1] if calls else None
    if last is None:
        ok = w is None or is_false(p, w)
    elif WATCH.search(last.name):
        got = p.variant(last.res)
        ok = w is not None and ((got == "Ok" and is_true(p, w)) or (got == "Err" and is_false(p, w)))
    else:
        ok = w is not None and is_false(p, w)
    c.ob(rule, b.name, ok, "a file is marked as watched though it may not be, or the other way around", span=b.span)
    return last


@check("J02")
def j02(c):
    c.which = 2
    c.rule("watch", "a file depended on that exists is watched before it is read, unless it is a directory or watched already; it is read again once per synchronization and what changed is reported")
    c.rule("mark", "an entry is marked as watched exactly if the last attempt to watch it succeeded and it was not unwatched since; entries are made unwatched, unseen, stable and with nothing known")
    c.rule("drop", "an entry is dropped only if it was not depended on for a number of synchronizations, and its content is dropped then; a file that is not depended on is not watched any more")
    c.rule("replaced", "when a file is removed or renamed, which ends its watch, it is watched again at once, before it is read")
    c.rule("run", "every message and event the actor takes is handled in order: synchronizations and upstream changes update the watches, notifications and rechecks are processed, until it is settled or has no sender")
    c.rule("deps", "the files depended on are those of every project, and every one of a list")
    n = defaultdict(int)
    for b in anchored(c, r"NotifyActor::update_watches$"):
        unseen, rets = [], []
        for p in c.paths_of(b, events=r".", cut=".", stores=True, opaque=QUIET):
            if p.end == "loop":
                it = [(i, lv) for i, lv, s in nexts(p) if i is not None and MAPVALS.search(call_name(s)) and spath(s.a[1][0]) == ("watched_entries",)]
                if it:
                    i, lv = it[-1]
                    ok = any(under(r, i) and is_false(p, cells(p, r).get(("seen",))) for r in entry_roots(p, "seen"))
                    c.ob("watch", b.name, ok, "an entry stays seen from the synchronization before, so that the file is not read again", span=b.span)
                    unseen.append(lv_id(lv))
            elif p.end == "return":
                rets.append(p)
        c.ob("watch", b.name, len(set(unseen)) == 1, "the entries seen in the synchronization before are not told from the ones seen in this", span=b.span)
        for p in rets:
            deps = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and re.search(r"NotifyDeps::dependencies$", e.name)]
            keep = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and re.search(r"HashMap(<.*>)?::retain$", e.name) and spath(e.args[0]) == ("watched_entries",)]
            marks = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name.endswith("::next") and unseen and e.args[0].op == "loop" and lv_id(e.args[0]) == unseen[0]]
            ok = len(deps) == 1 and len(keep) == 1 and bool(marks) and marks[0] < deps[0][0] < keep[0][0] and unwrap(deps[0][1].args[0]) is mk("arg", "paths")
            c.ob("watch", b.name, ok, "the files depended on are not gone through between forgetting what was seen and dropping what is not", span=b.span)
            if not ok:
                continue
            d, k = deps[0][1], keep[0][1]
            # the change set
            cs = None
            t = p.variant(p.ret)
            if t == "Some":
                cs = root_of(payload(p.ret, "Some"))
            else:
                es = [root_of(v.a[1][0]) for v, f in p.facts.items() if re.search(r"FileChangeSet(<.*>)?::is_empty$", call_name(v)) and f == ("eq", "1")]
                c.ob("watch", b.name, t == "None" and len(es) == 1, "changes found are not returned", span=b.span)
                cs = es[0] if es else None
            n["returns"] += 1
            if n["closures"] == 0 and cs is not None:
                n["closures"] = 1
                dep_closure(c, p, b, d.args[1], cs, n)
                keep_closure(c, p, b, k.args[1], cs, n)
    for b in anchored(c, r"NotifyActor::notify_event$"):
        replaced(c, b, n)
    for b in futures(c, r"NotifyActor::run::\{closure#0\}$"):
        run_loop(c, b, n)
    for rx, cr in ((r"ProjectDeps as .*NotifyDeps>::dependencies$", "tinymist_project"), (r"Vec(<.*>)? as .*NotifyDeps>::dependencies$", "tinymist_vfs")):
        for b in vfs.anchored(c, rx, crate=cr):
            saw = 0
            for p in c.paths_of(b, events=r".", cut="."):
                if p.end != "loop":
                    continue
                it = [(i, s) for i, lv, s in nexts(p) if i is not None]
                if not it:
                    continue
                item, s = it[-1]
                calls = [e for e in p.events if e.kind == "call" and EMIT.search(e.name) and root_of(e.args[0]) is mk("arg", "f")]
                inner = len(it) > 1 or cr == "tinymist_vfs" or any(re.search(r"flat_map$", e.name) for e in p.events)
                if not calls and len(it) == 1 and cr != "tinymist_vfs" and re.search(r"Values|RedBlackTreeMap", show(s)) and not re.search("flat_map", show(s)):
                    continue  # the outer loop of two
                saw += 1
                whole = cr == "tinymist_vfs" or "project_deps" in show(s) or any("project_deps" in show(x) for _, x in it)
                bad = any(LIMITS.search(e.name) for e in p.events if e.kind == "call")
                c.ob("deps", b.name, len(calls) == 1 and under(calls[0].args[1].a[4] if calls[0].args[1].op == "agg" else calls[0].args[1], item) and whole and not bad, "a file depended on is left out", span=b.span)
            c.ob("deps", b.name, saw > 0, "the files depended on are left out", span=b.span)
    for k in ("returns", "seen", "watched", "read", "no watcher", "kept", "dropped", "unwatched", "replaced", "sync", "upstream", "notify", "recheck", "settle", "closed"):
        c.floor(f"paths: {k}", n[k], 1)


LIMITS = re.compile(r"(Iterator|Iterator>|\bslice|<\[\w+\]>)::(skip|take|filter|step_by|skip_while|take_while|map_while|filter_map|scan|fuse|nth|last|next_back|chunks\w*|split\w*)$")


def dep_closure(c, p, b, clo, cs, n):
    path = mk("arg", "path")
    qs = closure_runs(c, p, clo, events=r".", cut=".", stores=True, opaque=QUIET)
    c.ob("watch", b.name, qs is not None, "what is done for each file depended on cannot be told", span=b.span)
    for q in qs or ():
        if q.end != "return":
            continue
        ents = [r for r in entry_roots(q, "seen")]
        made = [e for e in q.events if e.kind == "call" and re.search(r"hash_map::Entry(<.*>)?::(or_insert\w*|or_default)$", e.name)]
        ent = made[0].res if made else ents[0] if ents else None
        if ent is None:
            c.ob("watch", b.name, False, "a file depended on gets no entry", span=b.span)
            continue
        if is_true(q, F(ent, "seen")):
            n["seen"] += 1
            continue
        is_path = lambda v: unwrap(v) is path or under(v, path)
        c.ob("watch", b.name, is_true(q, cells(q, ent).get(("seen",), F(ent, "seen"))), "a file depended on counts as not depended on", span=b.span)
        entry_made(c, q, b, made, n)
        W = [v for v, f in q.facts.items() if spath(v) == ("watcher",)]
        has = q.variant(W[0]) if W else None
        ups = updates_in(q)
        pushes = [e for e in q.events if e.kind == "call" and e.name.endswith("Vec::push") and fpath(e.args[0])[1][-1:] == ("inserts",) and into_set(fpath(e.args[0])[0], cs)]
        if has == "None":
            n["no watcher"] += 1
            rd = [e for e in q.events if e.kind == "call" and CONTENT.search(e.name) and is_path(e.args[1])]
            ok = (len(rd) == 1 and len(pushes) == 1 and pushes[0].args[1].op == "agg" and is_path(pushes[0].args[1].a[4]) and under(pushes[0].args[1].a[5], rd[0].res)) or any(into_set(s, cs) for _, e, i in ups for s in i)
            c.ob("watch", b.name, ok, "without a watcher a file depended on is not reported", span=b.span)
            continue
        last = watching_now(c, q, b, ent, is_path, "mark")
        ok = [i for i, e, into in ups if is_path(e.args[1]) and any(into_set(s, cs) for s in into)]
        c.ob("watch", b.name, len(ok) == 1, "what changed in a file depended on is not returned", span=b.span)
        n["read"] += bool(ok)
        if last is not None and WATCH.search(last.name):
            n["watched"] += 1
            c.ob("watch", b.name, bool(ok) and q.events.index(last) < ok[0] and no_recursion(q, last), "a file is read before it is watched, so that a change in between is lost", span=b.span)
        else:
            meta = [v for v, f in q.facts.items() if re.search(r"(metadata|symlink_metadata)$", call_name(v)) and f == ("eq", "Err")]
            isdir = [v for v, f in q.facts.items() if re.search(r"Metadata(<.*>)?::is_dir$|Path::is_dir$|FileType::is_dir$", call_name(v)) and f == ("eq", "1")]
            notfile = [v for v, f in q.facts.items() if re.search(r"Metadata(<.*>)?::is_file$|Path::(is_file|exists)$", call_name(v)) and f == ("eq", "0")]
            known = is_true(q, F(ent, "watching"))
            c.ob("watch", b.name, bool(meta or isdir or notfile or known), "a file depended on is not watched", span=b.span)


def into_set(v, cs):
    """v is the change set, or what was moved out of its variable since the closure captured it"""
    r = root_of(v)
    return r is cs or r.op == "undef"


def no_recursion(q, e):
    return len(e.args) < 3 or q.variant(e.args[2]) in (None, "NonRecursive", "Recursive")


def entry_made(c, q, b, made, n):
    """how an entry is found or made"""
    life = None
    for e in q.events:
        if e.kind != "call":
            continue
        if re.search(r"hash_map::Entry(<.*>)?::and_modify$", e.name):
            for r in closure_runs(c, q, e.args[1], events=r".", stores=True) or ():
                st = {k: v for root in entry_roots(r, "lifetime") for k, v in cells(r, root).items()}
                c.ob("drop", b.name, spath(st[("lifetime",)]) == ("lifetime",) or "lifetime" in show(st[("lifetime",)]) if ("lifetime",) in st else False, "a file depended on ages", span=b.span)
                life = True
        elif re.search(r"hash_map::Entry(<.*>)?::or_insert_with$", e.name):
            for r in closure_runs(c, q, e.args[1], events=r".", stores=True) or ():
                v = r.ret
                ok = is_false(r, agg_field(v, "watching")) and is_false(r, agg_field(v, "seen")) and r.variant(agg_field(v, "prev")) == "None" and r.variant(agg_field(v, "state")) == "Stable"
                c.ob("mark", b.name, bool(ok), "a new entry is not unwatched, unseen, stable and with nothing known", span=b.span)
                c.ob("drop", b.name, "lifetime" in show(agg_field(v, "lifetime")), "a file depended on ages", span=b.span)
    st = [v for r in entry_roots(q, "lifetime") for k, v in cells(q, r).items() if k == ("lifetime",)]
    c.ob("drop", b.name, bool(life or st), "a file depended on ages", span=b.span)


def keep_closure(c, p, b, clo, cs, n):
    qs = closure_runs(c, p, clo, events=r".", cut=".", stores=True)
    c.ob("drop", b.name, qs is not None, "which entries are dropped cannot be told", span=b.span)
    for q in qs or ():
        if q.end != "return":
            continue
        path, ent = mk("arg", "path"), mk("arg", "entry")
        if not any(ent is x for v in q.facts for x in subvalues(v)):
            continue
        old = [f == ("eq", "0") for v, f in q.facts.items() if lifetime_test(v)]
        t = True if is_true(q, q.ret) else False if is_false(q, q.ret) else None
        rem = [e for e in q.events if e.kind == "call" and e.name.endswith("Vec::push") and fpath(e.args[0])[1][-1:] == ("removes",) or e.kind == "call" and e.name.endswith("Vec::push") and "removes" in show(e.args[0])]
        rem = [e for e in rem if unwrap(e.args[1]) is path]
        if t is False:
            n["dropped"] += 1
            c.ob("drop", b.name, old == [True], "an entry is dropped though its file was depended on lately", span=b.span)
            c.ob("drop", b.name, len(rem) == 1, "the content of a file not watched any more is kept", span=b.span)
        else:
            n["kept"] += 1
            c.ob("drop", b.name, t is True and not rem, "the content of a file still depended on is dropped", span=b.span)
        un = [e for e in q.events if e.kind == "call" and UNWATCH.search(e.name)]
        st = cells(q, ent)
        if un:
            n["unwatched"] += 1
            c.ob("drop", b.name, is_false(q, F(ent, "seen")), "a file depended on is not watched any more", span=b.span)
            c.ob("mark", b.name, is_false(q, st.get(("watching",), F(ent, "watching"))) and unwrap(un[0].args[1]) is path, "an entry stays marked as watched", span=b.span)
        else:
            none = any(f == ("eq", "None") and ("watcher" in show(v)) for v, f in q.facts.items())
            c.ob("drop", b.name, is_true(q, F(ent, "seen")) or is_false(q, F(ent, "watching")) or none, "a file that is not depended on any more stays watched", span=b.span)
            c.ob("mark", b.name, ("watching",) not in st or is_false(q, st[("watching",)]), "an entry is marked as watched that is not", span=b.span)


def subvalues(v):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, V):
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        todo.extend(x.a)


def lifetime_test(v):
    """a test that an entry is young: now - then < a number"""
    if v.op != "bin" or v.a[0] not in ("Lt", "Le"):
        return False
    x, y = v.a[1], v.a[2]
    return x.op == "bin" and x.a[0].startswith("Sub") and "lifetime" in show(x.a[1]) and x.a[2] is F(mk("arg", "entry"), "lifetime") and isinstance(const_of(y), int) and const_of(y) >= 1


def replaced(c, b, n):
    ev = mk("arg", "event")
    kind, paths = F(ev, "kind"), F(ev, "paths")
    good, reading, rets = set(), set(), []
    for p in c.paths_of(b, events=r".", cut=".", stores=True, opaque=QUIET):
        if p.end == "return":
            rets.append(p)
            continue
        if p.end != "loop":
            continue
        it = [(i, lv) for i, lv, s in nexts(p) if i is not None and unwrap(s) is paths]
        if not it:
            continue
        item, lv = it[-1]
        is_path = lambda v: unwrap(v) is item or under(v, item)
        if any(is_path(e.args[1]) for _, e, _ in updates_in(p)):
            reading.add(lv_id(lv))
            continue
        gets = [e for e in p.events if e.kind == "call" and GET.search(e.name) and spath(e.args[0]) == ("watched_entries",) and is_path(e.args[1])]
        if not gets:
            continue
        good.add(lv_id(lv))
        if p.variant(gets[0].res) == "None":
            continue
        ent = F(gets[0].res, "+Some", "0")
        if is_false(p, F(ent, "watching")):
            continue
        n["replaced"] += 1
        last = watching_now(c, p, b, ent, is_path, "mark")
        none = any(f == ("eq", "None") and spath(v) == ("watcher",) for v, f in p.facts.items())
        un = [e for e in p.events if e.kind == "call" and UNWATCH.search(e.name) and is_path(e.args[1])]
        c.ob("replaced", b.name, none or (last is not None and WATCH.search(last.name)) and bool(un), "a file that was replaced is not watched any more", span=b.span)
    for p in rets:
        if excludes_kind(p, kind):
            continue
        ws = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name.endswith("::next") and e.args[0].op == "loop" and lv_id(e.args[0]) in good]
        rs = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name.endswith("::next") and e.args[0].op == "loop" and lv_id(e.args[0]) in reading]
        c.ob("replaced", b.name, bool(ws), "files removed or renamed are not watched again", span=b.span)
        c.ob("replaced", b.name, not ws or not rs or ws[0] < rs[0], "files removed or renamed are read before they are watched again", span=b.span)


def excludes_kind(p, kind):
    """whether the notification is known not to be one after which the watch has ended"""
    rm = excludes(p, kind, "Remove") or excludes(p, F(kind, "+Remove", "0"), "File")
    name = F(kind, "+Modify", "0")
    rn = excludes(p, kind, "Modify") or excludes(p, name, "Name") or excludes(p, F(name, "+Name", "0"), "From")
    return rm and rn


def run_loop(c, b, n):
    for p in c.paths_of(b, events=r".", cut=".", stores=True, opaque=QUIET):
        if p.end == "diverge":
            continue
        facts = {f[1]: v for v, f in p.facts.items() if f[0] == "eq" and isinstance(f[1], str)}
        calls = [e for e in p.events if e.kind == "call"]
        named = lambda s: [e for e in calls if e.name.endswith(s)]
        ups, ups2, nots, recs = named("NotifyActor::update_watches"), named("NotifyActor::invalidate_upstream"), named("NotifyActor::notify_event"), named("NotifyActor::recheck_notify_event")
        polled = [(v, f) for v, f in p.facts.items() if re.search(r"recheck_notify_event::\{closure#0\}$", call_name(v))]
        es = emits_of(p)
        ready = taken(p)
        if ready is None:
            c.ob("run", b.name, not (ups or ups2 or nots or recs or es), "acts without an event", span=b.span)
            continue
        v = ready
        if p.end == "return":
            ends = any(f[1] in ("None", "Settle") for k, f in p.facts.items() if f[0] == "eq" and under(k, v))
            c.ob("run", b.name, ends, "the actor ends though there is more to do", span=b.span)
            n["settle" if any(f == ("eq", "Settle") for f in p.facts.values()) else "closed"] += 1
            continue
        msg = [(k, f[1]) for k, f in p.facts.items() if f[0] == "eq" and under(k, v)]
        tag = {x for _, x in msg}
        handled = 0
        for k, x in msg:
            if x == "SyncDependency":
                handled += 1
                n["sync"] += 1
                c.ob("run", b.name, len(ups) == 1 and under(ups[0].args[1], F(k, "+SyncDependency", "0")), "a synchronization does not update the watches", span=b.span)
                if len(ups) == 1:
                    r = ups[0].res
                    if p.variant(r) == "Some":
                        c.ob("run", b.name, len(es) == 1 and p.variant(es[0][1]) == "Update" and payload(es[0][1], "Update") is payload(r, "Some"), "changes found by a synchronization are not sent to the consumer", span=b.span)
                    else:
                        c.ob("run", b.name, p.variant(r) == "None" and not es, "changes found by a synchronization are not sent to the consumer", span=b.span)
            elif x == "UpstreamUpdate":
                handled += 1
                n["upstream"] += 1
                c.ob("run", b.name, len(ups2) == 1 and under(ups2[0].args[1], F(k, "+UpstreamUpdate", "0")), "an upstream change is not handled", span=b.span)
        if not handled and nots:
            handled += 1
            n["notify"] += 1
            c.ob("run", b.name, len(nots) == 1 and under(nots[0].args[1], v), "a notification is not handled", span=b.span)
        elif not handled and recs:
            handled += 1
            if polled and polled[-1][1] == ("eq", "Pending"):
                continue
            n["recheck"] += 1
            c.ob("run", b.name, len(recs) == 1 and under(recs[0].args[1], v) and any(f == ("eq", "Ready") for _, f in polled), "a recheck is not waited for", span=b.span)
        elif not handled:
            c.ob("run", b.name, "Err" in tag, "an event is dropped", span=b.span)
            n["error"] += 1
        for e in ups + ups2 + nots + recs:
            t = field(e.args[0], "logical_tick")
            c.ob("run", b.name, t.op == "bin" and t.a[0].startswith("Add") and isinstance(const_of(t.a[2]), int) and const_of(t.a[2]) >= 1, "two events have the same time, so that their rechecks are mistaken for each other", span=b.span)


def taken(p):
    """the message or event the path takes from its channels"""
    for v, f in p.facts.items():
        if f == ("eq", "Ready") and re.search(r"PollFn(<.*>)? as .*poll$", call_name(v)):
            r = F(v, "+Ready", "0")
            for k, g in p.facts.items():
                if k is r and g[0] == "eq" and g[1].startswith("_"):
                    return F(r, "+" + g[1], "0")
            return r
    return None


# ---------------------------------------------------------------------------------------------------------------------
# the project compiler

INCR = re.compile(r"CompilerUniverse(<.*>)?::increment_revision$")
PROC = dict(events=r".", cut=".", stores=True, drops=r".", runs={r"CompilerUniverse(<.*>)?::increment_revision$": 1},
            opaque=r"^log::|apply_memory_changes|apply_delayed_memory_changes|process_compile|remove_dedicates|find_project$|increment_revision$|CompilerUniverse::snapshot|RevisingUniverse|FilesystemEvent::split$|FileChangeSet::")
PROC_BODY = r"ProjectCompiler::process_inner$"


def sp(v):
    """fields below self of a place that may have been changed before"""
    r, p = fpath(v)
    return p if r is SELF else None


def cover(s):
    """(the projects an iterator gives, where the project is in an item, {where: what else is in an item})"""
    s = root_of(s)
    if sp(s) == ("dedicates",):
        return {"dedicates"}, (), {}
    n = call_name(s)
    m = re.search(r"::(chain|zip|once|iter_mut|into_iter|rev|by_ref|enumerate)$", n)
    if not m:
        return set(), (), {}
    k, a = m.group(1), s.a[1]
    if k == "once":
        return ({"primary"} if sp(a[0]) == ("primary",) else set()), (), {}
    if k in ("iter_mut", "into_iter", "rev", "by_ref"):
        return cover(a[0])
    if k == "enumerate":
        x, at, ex = cover(a[0])
        return x, ("1",) + at, {("1",) + q: v for q, v in ex.items()}
    if k == "chain":
        x, at, ex = cover(a[0])
        y, bt, ey = cover(a[1])
        return (x | y, at, {}) if at == bt else (set(), (), {})
    x, at, ex = cover(a[0])
    y, bt, ey = cover(a[1])
    if x and not y:
        v = repeated(a[1])
        return (x, ("0",) + at, {**{("0",) + q: w for q, w in ex.items()}, ("1",): v}) if v is not None else (set(), (), {})
    if y and not x:
        v = repeated(a[0])
        return (y, ("1",) + bt, {**{("1",) + q: w for q, w in ey.items()}, ("0",): v}) if v is not None else (set(), (), {})
    return set(), (), {}


def repeated(s):
    """the value an iterator gives for every project; None if it may end earlier"""
    s = root_of(s)
    n = call_name(s)
    if re.search(r"iter::repeat$", n):
        return s.a[1][0]
    if re.search(r"iter::repeat_n$", n):
        k = s.a[1][1]
        if k.op == "bin" and k.a[0].startswith("Add"):
            for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if re.search(r"::len$", call_name(x)) and sp(x.a[1][0]) == ("dedicates",) and isinstance(const_of(y), int) and const_of(y) >= 1:
                    return s.a[1][0]
    if re.search(r"::take$", n) and call_name(root_of(s.a[1][0])).endswith("repeat"):
        return repeated(mk("call", "std::iter::repeat_n", (root_of(s.a[1][0]).a[1][0], s.a[1][1])))
    return None


class Unit:
    """what a path does to one project within one revision of its universe"""

    def __init__(self, p, i, e):
        self.p, self.i, self.e = p, i, e
        self.verse = mk("hof", e.res, 1, 0)
        self.proj = None
        self.who, self.loop, self.extra = set(), None, {}
        place = e.args[0]
        r, fs = place, ()
        if place.op == "proj" and place.a[1] == ("f", "verse"):
            self.proj = place.a[0]
        if self.proj is None:
            return
        f = sp(self.proj)
        if f == ("primary",):
            self.who = {"primary"}
            return
        for item, lv, s in nexts(p):
            if item is None:
                continue
            x, at, ex = cover(lv.a[3] if lv.op == "loop" else lv)
            if x and unwrap_loop(self.proj) is F(item, *at):
                self.who, self.loop = x, lv_id(lv)
                self.extra = {F(item, *q): v for q, v in ex.items()}

    def on(self, v):
        """v is (behind) the revising universe of this unit"""
        return under_mut(v, self.verse)

    def calls(self, rx):
        return [(j, e) for j, e in enumerate(self.p.events) if j > self.i and e.kind == "call" and re.search(rx, e.name) and e.args and self.on(e.args[0])]

    def vfs(self, v):
        """v is the revising file system of this unit; the index of its call"""
        v = root_of(v)
        return re.search(r"RevisingUniverse(<.*>)?::vfs$", call_name(v)) and self.on(v.a[1][0])


def unwrap_loop(v):
    while v.op in ("upd", "mut"):
        v = v.a[0] if v.op == "upd" else v.a[2] if len(v.a) > 2 and isinstance(v.a[2], V) else v.a[0]
    return v


def under_mut(v, root):
    return root_of(v) is root


def units(p):
    return [Unit(p, i, e) for i, e in enumerate(p.events) if e.kind == "enter" and INCR.search(e.name)]


def everyone(c, rule, b, ps, arm, what):
    """every path of an arm does `arm` (unit -> bool) on the primary and on every dedicated project"""
    loops = defaultdict(lambda: [set(), True])
    for p in ps:
        if p.end != "loop":
            continue
        it = [(i, lv) for i, lv, s in nexts(p) if i is not None]
        if not it:
            continue
        x, at, ex = cover(it[-1][1].a[3] if it[-1][1].op == "loop" else it[-1][1])
        if not x:
            continue
        us = [u for u in units(p) if u.loop == lv_id(it[-1][1])]
        good = len(us) == 1 and arm(us[0])
        rec = loops[lv_id(it[-1][1])]
        rec[0] |= x
        rec[1] = rec[1] and good
    for p in ps:
        if p.end != "return":
            continue
        done = set()
        for i, lv, s in nexts(p):
            if i is None and lv_id(lv) in loops and loops[lv_id(lv)][1]:
                done |= loops[lv_id(lv)][0]
        for u in units(p):
            if u.loop is None and u.who and arm(u):
                done |= u.who
        c.ob(rule, b.name, done == {"primary", "dedicates"}, f"{what} does not reach {' and '.join(sorted({'primary', 'dedicates'} - done))}", span=b.span)


def arms(c, b):
    """{kind of interrupt: paths}"""
    out = defaultdict(list)
    for p in c.paths_of(b, **PROC):
        if p.end != "diverge":
            out[p.variant(mk("arg", "intr"))].append(p)
    return out


def is_event(v, u, intr):
    """v is the payload of the interrupt, or a copy of it given to the project"""
    v = unwrap(v)
    return v is intr or any(v is k and unwrap(x) is intr for k, x in u.extra.items())


def guard_dropped(u, vfs, before):
    return any(j < before and e.kind == "drop" and u.vfs(e.args[0]) for j, e in enumerate(u.p.events) if j > u.i)


@check("J03")
def j03(c):
    c.which = 2
    c.rule("direct", "a change of edited files is applied at once only if no file goes back from memory to disk and no earlier change is under way; it is applied to every project")
    c.rule("delay", "any other change of edited files is sent to the file watcher with the time it was received, along with every file that goes back from memory to disk; the files in memory are accounted for")
    c.rule("return", "every change of files is applied to every project, in it first the change of edited files that comes back with it; nothing is delayed any more once the last change sent is back")
    c.rule("apply", "a change of edited files removes and then adds every one of its files; a synchronization forgets all others first")
    c.rule("time", "each interrupt has its own time")
    n = defaultdict(int)
    ticks(c, n)
    for b in anchored(c, PROC_BODY):
        A = arms(c, b)
        memory_arm(c, b, A["Memory"], n)
        ev = F(mk("arg", "intr"), "+Fs", "0")

        def part(u, v, k):
            v = unwrap(v)
            for x in [v] + [unwrap(w) for q, w in u.extra.items() if q is v]:
                if x.op == "proj" and x.a[1] == ("f", str(k)) and re.search(r"FilesystemEvent::split$", call_name(x.a[0])) and unwrap(x.a[0].a[1][0]) is ev:
                    return True
            return False

        def arm(u):
            dl = [(j, e) for j, e in enumerate(u.p.events) if j > u.i and e.kind == "call" and e.name.endswith("apply_delayed_memory_changes") and u.vfs(e.args[0])]
            fs = [(j, e) for j, e in enumerate(u.p.events) if j > u.i and e.kind == "call" and re.search(r"RevisingVfs(<.*>)?::notify_fs_changes$", e.name) and u.vfs(e.args[0])]
            ch = u.calls(r"RevisingUniverse(<.*>)?::vfs_changed$")
            n["fs"] += 1
            ok = len(dl) == 1 and len(fs) == 1 and dl[0][0] < fs[0][0] and part(u, dl[0][1].args[2], 1) and part(u, fs[0][1].args[1], 0)
            ok = ok and sp(dl[0][1].args[1]) == ("dirty_shadow_logical_tick",)
            return ok and len(ch) == 1 and guard_dropped(u, None, ch[0][0]) and fs[0][0] < ch[0][0]

        everyone(c, "return", b, A["Fs"], arm, "a change of files")
    for b in vfs.anchored(c, r"FilesystemEvent::split$"):
        for p in c.paths_of(b):
            k = p.variant(SELF)
            a, e = agg_field(p.ret, "0"), agg_field(p.ret, "1")
            if k == "Update":
                ok = unwrap(a) is payload(SELF, "Update") and p.variant(e) == "None"
            else:
                ok = unwrap(a) is F(SELF, "+UpstreamUpdate", "changeset") and unwrap(e) is F(SELF, "+UpstreamUpdate", "upstream_event")
            n["split " + str(k)] += 1
            c.ob("return", b.name, bool(ok), "a part of a change of files is lost", span=b.span)
    delayed(c, n)
    for k in ("direct", "delayed", "fs", "removes", "inserts", "split Update", "split UpstreamUpdate", "back", "no tick", "reset", "unmap", "map", "applied", "process"):
        c.floor(f"paths: {k}", n[k], 1)


def ticks(c, n):
    for b in anchored(c, r"ProjectCompiler::process$"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=r"process_inner|on_any_compile_reason"):
            if p.end != "return":
                continue
            n["process"] += 1
            inner = [e for e in p.events if e.name.endswith("process_inner")]
            hooks = [e for e in p.events if e.name.endswith("on_any_compile_reason")]
            ok = len(inner) == 1 and unwrap(inner[0].args[1]) is mk("arg", "intr")
            c.ob("time", b.name, ok, "an interrupt is not processed once", span=b.span)
            if ok:
                t = field(inner[0].args[0], "logical_tick")
                c.ob("time", b.name, t.op == "bin" and t.a[0].startswith("Add") and sp(t.a[1]) == ("logical_tick",) and isinstance(const_of(t.a[2]), int) and const_of(t.a[2]) >= 1,
                     "two interrupts have the same time, so that the second one's delay ends with the first one's", span=b.span)
                c.ob("time", b.name, len(hooks) == 1 and p.events.index(hooks[0]) > p.events.index(inner[0]), "what is to be compiled is not decided after each interrupt", span=b.span)
    for b in anchored(c, r"ProjectCompiler::new$"):
        for p in c.paths_of(b, opaque=r"create_project"):
            if p.end == "return":
                t = agg_field(p.ret, "logical_tick")
                c.ob("time", b.name, isinstance(const_of(t), int) and const_of(t) >= 1 and const_of(agg_field(p.ret, "dirty_shadow_logical_tick")) == 0, "starts with a delay", span=b.span)


EST = "estimated_shadow_files"


def set_of(e):
    """which set a call is on: the files known to be in memory, or those of this change"""
    r = e.raw[0]
    if r.op == "ref" and r.a[0].op == "H":
        f = [x[1] for x in r.a[1]]
        return "known" if f[-1:] == [EST] else None
    if r.op == "ref" and r.a[0].op == "L":
        return "gone"
    return "known" if sp(e.args[0]) == (EST,) else None


def memory_arm(c, b, ps, n):
    intr = F(mk("arg", "intr"), "+Memory", "0")
    loops = {}
    for p in ps:
        if p.end != "loop":
            continue
        it = [(i, lv, s) for i, lv, s in nexts(p) if i is not None]
        if not it:
            continue
        item, lv, s = it[-1]
        r, fs = fpath(s)
        if s.op != "proj" or s.a[1] not in (("f", "removes"), ("f", "inserts")) or not under(s, intr):
            continue
        k = s.a[1][1]
        path = item if k == "removes" else F(item, "0")
        ops = [(m.group(1), set_of(e)) for e in p.events if e.kind == "call" for m in [re.search(r"HashSet(<.*>)?::(?P<x>insert|remove|take|replace)$", e.name)] if m and (unwrap(e.args[1]) is path) for m in [re.match(r"(.*)", m.group("x"))]]
        want = {("remove", "known"), ("insert", "gone")} if k == "removes" else {("insert", "known"), ("remove", "gone")}
        n[k] += 1
        c.ob("delay", b.name, set(ops) == want, f"a file of the {k} of a change is not accounted for", span=b.span)
        loops.setdefault(k, set()).add(lv_id(lv))

    def order(p):
        got = {}
        for j, e in enumerate(p.events):
            if e.kind == "call" and e.name.endswith("::next") and e.args[0].op == "loop":
                for k, ids in loops.items():
                    if lv_id(e.args[0]) in ids:
                        got.setdefault(k, j)
        return got

    direct_paths = []
    for p in ps:
        us = units(p)
        send = [e for e in p.events if e.kind == "call" and SEND.search(e.name) and sp(e.args[0]) == ("dep_tx",)]
        empties = [v for v, f in p.facts.items() if re.search(r"HashSet(<.*>)?::is_empty$", call_name(v)) and f == ("eq", "1") and local_set(v.a[1][0])]
        zero = any(v.op == "bin" and v.a[0] == "Eq" and f == ("eq", "1") and sp(v.a[1]) == ("dirty_shadow_logical_tick",) and const_of(v.a[2]) == 0 for v, f in p.facts.items()) \
            or any(sp(v) == ("dirty_shadow_logical_tick",) and f in (("eq", "0"), ("eq", 0)) for v, f in p.facts.items())
        if p.end == "loop" and not us:
            continue
        done = order(p)
        c.ob("delay", b.name, set(done) == {"removes", "inserts"} and done["removes"] < done["inserts"], "not every file removed and then every file inserted is accounted for", span=b.span)
        if us or not send:
            direct_paths.append(p)
            n["direct"] += 1
            c.ob("direct", b.name, bool(empties) and zero and not send, "a change is applied before files are read again or before an earlier change", span=b.span)
            sets = [v.a[1][0] for v in empties]
        else:
            n["delayed"] += 1
            m = send[0].args[1]
            m = payload(m, "UpstreamUpdate") if p.variant(m) == "UpstreamUpdate" else None
            ok = m is not None and len(send) == 1
            c.ob("delay", b.name, ok, "a change that is not applied is not sent to the file watcher", span=b.span)
            if not ok:
                continue
            opq, inv = agg_field(m, "opaque"), agg_field(m, "invalidates")
            opq = boxed(opq)
            tick = agg_field(opq, "logical_tick")
            c.ob("delay", b.name, unwrap(agg_field(opq, "event")) is intr, "another change is sent", span=b.span)
            dirty = next((e.res for e in reversed(p.events) if e.kind == "store" and isinstance(e.extra, tuple) and [x[1] for x in e.extra[1]][-1:] == ["dirty_shadow_logical_tick"]), None)
            c.ob("delay", b.name, tick is not None and sp(tick) == ("logical_tick",) and dirty is not None and sp(dirty) == ("logical_tick",), "the change is not identified by its time", span=b.span)
            x = inv
            while x.op in ("call", "pure") and re.search(r"::(collect|into_iter|iter|cloned|from_iter|into|drain|copied)$", x.a[0]):
                x = x.a[1][0]
            c.ob("delay", b.name, local_set(x), "not all files that go back from memory to disk are read again", span=b.span)
            sets = [x]
        for x in sets:
            first = root_of(x)
            kind = p.variant(intr)
            if kind == "Sync":
                ok = sp(first) == (EST,)
                known = [e.res for e in p.events if e.kind == "store" and isinstance(e.extra, tuple) and [y[1] for y in e.extra[1]][-1:] == [EST]]
                ok = ok and len(known) == 1 and fresh_set(known[0])
            else:
                ok = fresh_set(first) and kind is not None
            c.ob("delay", b.name, ok, "a synchronization does not let all earlier edited files go, or an update does", span=b.span)

    def arm(u):
        ap = [(j, e) for j, e in enumerate(u.p.events) if j > u.i and e.kind == "call" and e.name.endswith("ProjectCompiler::apply_memory_changes") and u.vfs(e.args[0])]
        ch = u.calls(r"RevisingUniverse(<.*>)?::vfs_changed$")
        return len(ap) == 1 and is_event(ap[0][1].args[1], u, intr) and len(ch) == 1 and ap[0][0] < ch[0][0] and guard_dropped(u, None, ch[0][0])

    everyone(c, "direct", b, direct_paths, arm, "a change of edited files")


def local_set(v):
    return v.op in ("loop", "mut", "upd") and not (v.op == "proj") and (sp(root_of(v)) == (EST,) or fresh_set(root_of(v)))


def fresh_set(v):
    return bool(re.search(r"HashSet(<.*>)?::(new|with_capacity)$|Default>?::default$|(^|::)default$", call_name(v)))


def boxed(v):
    v = unwrap(v)
    while v.op in ("call", "pure") and re.search(r"Box(<.*>)?::new$", v.a[0]):
        v = unwrap(v.a[1][0])
    return v


def delayed(c, n):
    ev = mk("arg", "event")
    for b in anchored(c, r"ProjectCompiler::apply_delayed_memory_changes$"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=r"ProjectCompiler::apply_memory_changes$"):
            if p.end != "return":
                continue
            ap = [e for e in p.events if e.kind == "call" and e.name.endswith("ProjectCompiler::apply_memory_changes")]
            st = [e for e in p.events if e.kind == "store" and e.extra[0].op == "H" and "dirty" in show(e.extra[0].a[0])]
            t = p.variant(p.ret)
            if p.variant(ev) == "None":
                c.ob("return", b.name, not ap and not st and t == "Some", "applies a change that did not come back", span=b.span)
                continue
            got = [(v, f[1]) for v, f in p.facts.items() if re.search(r"::downcast_ref$", call_name(v)) and f[0] == "eq"]
            ok = len(got) == 1 and under(unbox(got[0][0].a[1][0]), F(ev, "+Some", "0", "opaque"))
            c.ob("return", b.name, ok, "the change is taken from somewhere else", span=b.span)
            if not ok:
                continue
            if got[0][1] == "None":
                n["unknown"] += 1
                c.ob("return", b.name, t == "None" and not ap, "a change of others is taken for one's own", span=b.span)
                continue
            tagged = F(got[0][0], "+Some", "0")
            same = known_eq(p, F(tagged, "logical_tick"), mk("arg", "dirty_shadow_logical_tick"))
            n["back"] += 1
            c.ob("return", b.name, t == "Some" and len(ap) == 1 and unwrap(ap[0].args[1]) is F(tagged, "event") and root_of(ap[0].args[0]) is mk("arg", "verse"),
                 "a change that comes back is not applied", span=b.span)
            if same:
                c.ob("return", b.name, len(st) == 1 and const_of(st[0].res) == 0, "changes are delayed though all sent are back", span=b.span)
            else:
                n["no tick"] += 1
                c.ob("return", b.name, same is False and not st, "a later change may be applied before an earlier one is back", span=b.span)
    for b in anchored(c, r"ProjectCompiler::apply_memory_changes$"):
        done = defaultdict(set)
        rets = []
        vfs_ = mk("arg", "vfs")
        for p in c.paths_of(b, events=r".", cut=".", stores=True, opaque=r"RevisingVfs"):
            if p.end == "diverge":
                continue
            resets = [e for e in p.events if re.search(r"RevisingVfs(<.*>)?::reset_shadow$", e.name)]
            maps = [i for i, e in enumerate(p.events) if re.search(r"RevisingVfs(<.*>)?::(un)?map_shadow$", e.name)]
            kind = p.variant(ev)
            nx = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name.endswith("::next")]
            c.ob("apply", b.name, (len(resets) == 1 and root_of(resets[0].args[0]) is vfs_ and (not nx or p.events.index(resets[0]) < nx[0])) if kind == "Sync" else kind == "Update" and not resets,
                 "a synchronization keeps earlier edited files, or an update does not", span=b.span)
            n["reset"] += kind == "Sync"
            if p.end == "loop":
                it = [(i, lv, s) for i, lv, s in nexts(p) if i is not None]
                if not it:
                    continue
                item, lv, s = it[-1]
                k = s.a[1][1] if s.op == "proj" and s.a[1][0] == "f" and under(s, ev) else None
                es = [p.events[i] for i in maps]
                if k == "removes":
                    ok = len(es) == 1 and es[0].name.endswith("::unmap_shadow") and unwrap(es[0].args[1]) is item and root_of(es[0].args[0]) is vfs_
                    n["unmap"] += 1
                elif k == "inserts":
                    ok = len(es) == 1 and es[0].name.endswith("::map_shadow") and unwrap(es[0].args[1]) is F(item, "0") and unwrap(es[0].args[2]) is F(item, "1") and root_of(es[0].args[0]) is vfs_
                    n["map"] += 1
                else:
                    continue
                c.ob("apply", b.name, ok, f"a file of the {k} of a change is not applied", span=b.span)
                if ok:
                    done[k].add(lv_id(lv))
            else:
                rets.append(p)
        for p in rets:
            got = {}
            for j, e in enumerate(p.events):
                if e.kind == "call" and e.name.endswith("::next") and e.args[0].op == "loop":
                    for k in done:
                        if lv_id(e.args[0]) in done[k]:
                            got.setdefault(k, j)
            n["applied"] += 1
            c.ob("apply", b.name, set(got) == {"removes", "inserts"} and got["removes"] < got["inserts"], "not all files of a change are applied", span=b.span)


def unbox(v):
    v = unwrap(v)
    while v.op in ("call", "pure") and re.search(r"(as_ref|deref|Box(<.*>)?::as_ref)$", v.a[0]):
        v = v.a[1][0]
    return v


def beval(v, env):
    """truth of a value under an assignment of its atoms; None if it cannot be told"""
    v = unwrap(v)
    if v in env:
        return env[v]
    if is_default(v):
        return False
    k = const_of(v)
    if k in (0, 1, True, False) and k is not None:
        return bool(k)
    if v.op == "not":
        x = beval(v.a[0], env)
        return None if x is None else not x
    if v.op == "bin" and v.a[0] in ("BitOr", "BitAnd", "BitXor", "Eq", "Ne"):
        x, y = beval(v.a[1], env), beval(v.a[2], env)
        if v.a[0] == "BitOr" and (x or y):
            return True
        if v.a[0] == "BitAnd" and (x is False or y is False):
            return False
        if x is None or y is None:
            return None
        return {"BitOr": x or y, "BitAnd": x and y, "BitXor": x != y, "Eq": x == y, "Ne": x != y}[v.a[0]]
    return None


def assignments(p, atoms):
    """the assignments of the atoms that the path allows"""
    import itertools
    for bits in itertools.product((False, True), repeat=len(atoms)):
        env = dict(zip(atoms, bits))
        if any(p.truth(a) is not None and p.truth(a) != env[a] for a in atoms):
            continue
        if any(f in (("eq", "1"), ("eq", "0")) and beval(v, env) not in (None, f[1] == "1") for v, f in p.facts.items()):
            continue
        yield env


def table(p, atoms, got, want):
    """whether, under every assignment of the atoms that the path allows, `got` (a value) is what want(assignment) says"""
    return all(beval(got, env) == want(env) for env in assignments(p, atoms))


FLAGS = ("by_memory_events", "by_fs_events", "by_entry_update")


def reason_after(p, proj, k):
    """the flag of the project's reason at the end of the path, and whether it was written"""
    st = cells(p, proj)
    if ("reason", k) in st:
        return st[("reason", k)], True
    if ("reason",) in st:
        return field(st[("reason",)], k), True
    return F(proj, "reason", k), False


def flags_of(proj):
    return [F(proj, "reason", k) for k in FLAGS]


def keeps_reason(p, proj):
    """no reason seen before is lost"""
    fl = flags_of(proj)
    return all(not env[o] or reason_after(p, proj, k)[0] is o or beval(reason_after(p, proj, k)[0], env) is True for env in assignments(p, fl) for k, o in zip(FLAGS, fl))


def same_reason(p, proj):
    """no reason is added or lost"""
    fl = flags_of(proj)
    return all(reason_after(p, proj, k)[0] is o or beval(reason_after(p, proj, k)[0], env) is env[o] for env in assignments(p, fl) for k, o in zip(FLAGS, fl))


def has_reason(p, proj, k=None):
    """the project has a reason to compile at the end of the path, whatever it was before"""
    return all(any(beval(reason_after(p, proj, x)[0], env) is True for x in ((k,) if k else FLAGS)) for env in assignments(p, flags_of(proj)))


def found(p):
    """(the project looked up by the path, whether there is one, by which id)"""
    es = [e for e in p.events if e.kind == "call" and e.name.endswith("ProjectCompiler::find_project")]
    if len(es) != 1:
        return None, None, None
    e = es[0]
    if sp(e.args[0]) != ("primary",) or sp(e.args[1]) != ("dedicates",):
        return None, None, None
    return F(e.res, "+Some", "0"), p.variant(e.res), e.args[2]


def sync_sent(p):
    """the dependencies sent to the file watcher, with where"""
    out = []
    for i, e in enumerate(p.events):
        if e.kind == "call" and SEND.search(e.name) and sp(e.args[0]) == ("dep_tx",):
            out.append((i, boxed(payload(e.args[1], "SyncDependency")) if p.variant(e.args[1]) == "SyncDependency" else None))
    return out


@check("J04")
def j04(c):
    c.which = 2
    c.rule("commit", "a compilation is taken over only if it is of a later revision than the one taken over before: its revision, its document if it made one, and the paths of all files it read; an older one changes nothing")
    c.rule("watch", "once a compilation is taken over, or a project removed, the files of all projects are sent to the file watcher")
    c.rule("project", "an interrupt concerns the project with the id it names, and is ignored if that was removed")
    c.rule("restart", "a project that replaces one starts from the primary's state, with a reason to compile, at a later revision than any compilation of the one removed")
    c.rule("compile", "a compilation compiles the snapshot it was made of for the target asked for, and reports the start and then the outcome, each for its own revision, before it hands out what it made")
    n = defaultdict(int)
    for b in anchored(c, PROC_BODY):
        A = arms(c, b)
        art = F(mk("arg", "intr"), "+Compiled", "0")
        for p in A["Compiled"]:
            proj, there, pid = found(p)
            done = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name.endswith("ProjectInsState::process_compile")]
            ins = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and re.search(r"RedBlackTreeMap(<.*>)?::insert_mut$", e.name) and sp(e.args[0]) == ("deps", "project_deps")]
            sync = sync_sent(p)
            if there == "None":
                n["gone"] += 1
                c.ob("project", b.name, not done and not ins and not sync, "the compilation of a removed project is taken over", span=b.span)
                continue
            ok = proj is not None and there == "Some" and len(done) == 1 and unwrap_loop(done[0][1].args[0]) is proj and unwrap(done[0][1].args[1]) is art
            c.ob("project", b.name, ok and under(unbox_id(pid), art), "a compilation is taken over by another project", span=b.span)
            if not ok:
                continue
            if p.truth(done[0][1].res):
                n["taken"] += 1
                ok = len(ins) == 1 and len(sync) == 1 and done[0][0] < ins[0][0] < sync[0][0] and root_proj(ins[0][1].args[1], proj) == ("id",) and root_proj(ins[0][1].args[2], proj) == ("deps",)
                ok = ok and sync[0][1] is not None and sp(sync[0][1]) == ("deps",) and ins[0][1].res is not None and changed_by(sync[0][1], ins[0][1])
                c.ob("watch", b.name, bool(ok), "the files of a compilation are not sent to the file watcher", span=b.span)
            else:
                n["old"] += 1
                c.ob("commit", b.name, not ins and not sync, "an older compilation changes what is watched", span=b.span)
        for p in A["Settle"]:
            es = [e for e in p.events if e.kind == "call" and e.name.endswith("ProjectCompiler::remove_dedicates")]
            n["settle"] += 1
            c.ob("project", b.name, len(es) == 1 and unwrap(es[0].args[1]) is F(mk("arg", "intr"), "+Settle", "0"), "a settled project is not removed", span=b.span)
    find(c, n)
    commit(c, n)
    restart(c, n)
    compiles(c, n)
    for k in ("gone", "taken", "old", "settle", "primary", "dedicated", "none", "later", "failed doc", "earlier", "dep", "dep error", "removed", "not there", "restarted", "started", "success", "error", "html", "paged", "own doc", "last doc"):
        c.floor(f"paths: {k}", n[k], 1)


def unbox_id(v):
    while v is not None and re.search(r"CompiledArtifact(<.*>)?::id$", call_name(v)):
        v = v.a[1][0]
    return unbox(v) if v is not None else NONE_V


NONE_V = mk("none")


def root_proj(v, proj):
    """field names of v below a project that may have been changed"""
    fs = []
    v = unwrap(v)
    while True:
        v = unwrap_loop(v)
        if v is proj:
            return tuple(reversed(fs))
        if v.op == "proj" and v.a[1][0] == "f":
            fs.append(v.a[1][1])
            v = v.a[0]
        else:
            return None


def changed_by(v, e):
    """v is what the call e made of its first argument, or contains it"""
    return any(x.op == "mut" and isinstance(x.a[0], V) and x.a[0].op in ("call", "pure") and x.a[0].a[0] == e.name and x.a[0].a[1][1:] == tuple(e.args[1:]) for x in subvalues(v))


def id_test(c, p, clo, pid):
    """the closure picks the project with the id"""
    qs = closure_runs(c, p, clo)
    if not qs:
        return False
    for q in qs:
        if q.end != "return":
            return False
        r = q.ret
        ok = False
        for x, y in cmp_eq(r):
            for s, t in ((x, y), (y, x)):
                if unwrap(s).op == "proj" and unwrap(s).a[1] == ("f", "id") and unwrap(t) is pid:
                    ok = True
        if not ok:
            return False
    return True


def cmp_eq(v):
    """the two sides of an equality"""
    if v.op == "bin" and v.a[0] == "Eq":
        return [(v.a[1], v.a[2])]
    if re.search(r"PartialEq(<.*>)?>?::eq$", call_name(v)):
        return [(v.a[1][0], v.a[1][1])]
    return []


def find(c, n):
    for b in anchored(c, r"ProjectCompiler::find_project$"):
        prim, deds, pid = mk("arg", "primary"), mk("arg", "dedicates"), mk("arg", "id")
        for p in c.paths_of(b, events=r".", hof=False, cut="."):
            if p.end == "loop":
                it = [i for i, lv, s in nexts(p) if i is not None and root_of(lv.a[3] if lv.op == "loop" else lv) in (deds,) or i is not None and deds in list(subvalues(lv))]
                c.ob("project", b.name, bool(it) and known_eq(p, F(it[-1], "id"), pid) is False, "a project with the id is passed by", span=b.span)
                continue
            if p.end != "return":
                continue
            same = known_eq(p, F(prim, "id"), pid)
            v = p.ret
            fd = [e for e in p.events if re.search(r"Iterator(<.*>)?>?::find$", e.name)]
            pick = len(fd) == 1 and deds in list(subvalues(fd[0].args[0])) and not LIMITS.search(" ".join(x.a[0] for x in subvalues(fd[0].args[0]) if x.op in ("call", "pure"))) and id_test(c, p, fd[0].args[1], pid)
            if same:
                n["primary"] += 1
                c.ob("project", b.name, p.variant(v) == "Some" and unwrap(payload(v, "Some")) is prim, "the primary project is not found", span=b.span)
            elif pick:
                k = p.variant(fd[0].res)
                n["dedicated" if k != "None" else "none"] += 1
                n["none"] += k is None
                c.ob("project", b.name, same is False and (v is fd[0].res or (k == "None" and p.variant(v) == "None") or (k == "Some" and p.variant(v) == "Some" and payload(v, "Some") is F(fd[0].res, "+Some", "0"))), "another project is found", span=b.span)
            elif p.variant(v) == "Some":
                n["dedicated"] += 1
                it = [i for i, lv, s in nexts(p) if i is not None and deds in list(subvalues(lv))]
                c.ob("project", b.name, same is False and bool(it) and unwrap(payload(v, "Some")) is it[-1] and known_eq(p, F(it[-1], "id"), pid) is True, "another project is found", span=b.span)
            else:
                n["none"] += 1
                c.ob("project", b.name, same is False and p.variant(v) == "None" and any(i is None and deds in list(subvalues(lv)) for i, lv, s in nexts(p)), "a project with the id is not found", span=b.span)


def commit(c, n):
    art = mk("arg", "artifact")
    for b in anchored(c, r"ProjectInsState::process_compile$"):
        saw = 0
        for p in c.paths_of(b, events=r".", stores=True, hof=False, opaque=r"CompilerWorld::|WorldComputeGraph::"):
            if p.end != "return":
                continue
            st = cells(p, SELF)
            revs = [v for v in p.facts for x in subvalues(v) if re.search(r"CompilerWorld(<.*>)?::revision$", call_name(x)) and under(unbox(x.a[1][0]), art)]
            later = None
            for v, f in p.facts.items():
                if v.op == "bin" and v in revs:
                    for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                        if sp(x) == ("committed_revision",) and of_revision(y, art):
                            t = vfs.cmp_holds(v, f, y, x)
                            later = t if t is not None else later
                            rev = y
            c.ob("commit", b.name, later is not None, "a compilation is taken over without regard to its revision", span=b.span)
            if not later:
                n["earlier"] += 1
                c.ob("commit", b.name, is_false(p, p.ret) and not st, "an older compilation replaces a newer one", span=b.span)
                continue
            n["later"] += 1
            c.ob("commit", b.name, is_true(p, p.ret) and st.get(("committed_revision",)) is not None and of_revision(st[("committed_revision",)], art), "a compilation taken over is not remembered", span=b.span)
            doc = F(art, "doc")
            got = st.get(("latest_success_doc",))
            if p.variant(doc) == "Some":
                c.ob("commit", b.name, got is not None and (unwrap(got) is doc or p.variant(got) == "Some" and unwrap(payload(got, "Some")) is F(doc, "+Some", "0")), "the latest document is not the one compiled last", span=b.span)
            elif p.variant(doc) == "None":
                n["failed doc"] += 1
                c.ob("commit", b.name, got is None or unwrap(got) is F(SELF, "latest_success_doc"), "a failed compilation drops the last document", span=b.span)
            else:
                n["failed doc"] += 1
                c.ob("commit", b.name, got is not None and keeps_last(got, doc), "the latest document is not the one compiled last", span=b.span)
            it = [e for e in p.events if re.search(r"WorldDeps(<.*>)?>?::iter_dependencies$", e.name)]
            deps = st.get(("deps",))
            ok = len(it) == 1 and deps is not None and in_artifact(it[0].args[0], art)
            c.ob("commit", b.name, ok, "the files a compilation read are not taken over", span=b.span)
            if not ok or saw:
                continue
            saw = 1
            clo = it[0].args[1]
            caps = [root_of(p.interp.read(it[0], x.a)) if x.op == "ref" else root_of(x) for x in clo.a[2]]
            c.ob("commit", b.name, root_of(deps) in caps, "the files a compilation read are not taken over", span=b.span)
            for q in closure_runs(c, p, clo, at=it[0], events=r".", stores=True):
                if q.end != "return":
                    continue
                ps = [e for e in q.events if re.search(r"(EcoVec|Vec)(<.*>)?::push$", e.name)]
                fp = [e for e in q.events if re.search(r"file_path$", e.name)]
                err = any(f == ("eq", "Err") for v, f in q.facts.items())
                ok = len(fp) == 1 and unwrap(fp[0].args[1]).op == "arg" and in_artifact(fp[0].args[0], art)
                if err:
                    n["dep error"] += 1
                    c.ob("commit", b.name, ok and not ps, "a file without a path is watched", span=b.span)
                else:
                    n["dep"] += 1
                    c.ob("commit", b.name, ok and len(ps) == 1 and any(x is fp[0].res for x in subvalues(ps[0].args[1])), "a file the compilation read is not watched", span=b.span)
    for b in anchored(c, r"CompiledArtifact::success_doc$"):
        for p in c.paths_of(b):
            k = p.variant(F(SELF, "doc"))
            if k == "Some":
                n["own doc"] += 1
                c.ob("commit", b.name, p.variant(p.ret) == "Some" and unwrap(payload(p.ret, "Some")) is F(SELF, "doc", "+Some", "0") or unwrap(p.ret) is F(SELF, "doc"), "the latest document is not the one compiled last", span=b.span)
            else:
                n["last doc"] += 1
                r, fs = fpath(unwrap(p.ret))
                c.ob("commit", b.name, k == "None" and r is SELF and fs[-1:] == ("success_doc",), "a failed compilation drops the last document", span=b.span)


def in_artifact(v, art):
    """v is the world of the artifact's snapshot"""
    v = unbox(v)
    while True:
        w = v
        v = unbox(v)
        if re.search(r"WorldComputeGraph(<.*>)?::world$", call_name(v)):
            v = v.a[1][0]
            return under(unbox(v), art) or fpath(unbox(v))[0] is art
        if v.op == "proj" and v.a[1] == ("f", "world"):
            return fpath(v)[0] is art or under(v, art)
        if w is v:
            return False


def of_revision(v, art):
    v = unwrap(v)
    while v.op in ("call", "pure") and re.search(r"(NonZero\w*(<.*>)?::get|::into|::from)$", v.a[0]):
        v = v.a[1][0]
    return bool(re.search(r"CompilerWorld(<.*>)?::revision$", call_name(v))) and in_artifact(v.a[1][0], art)


def keeps_last(v, doc):
    """doc.or(last)"""
    return bool(re.search(r"Option(<.*>)?::(or|or_else)$", call_name(v))) and unwrap(v.a[1][0]) is doc


def restart(c, n):
    OP = r"^log::|remove_dedicates$|create_project$|CompilerUniverse::"
    for b in anchored(c, r"ProjectCompiler::remove_dedicates$"):
        pid = mk("arg", "id")
        for p in c.paths_of(b, events=r".", stores=True, hof=False):
            if p.end != "return":
                continue
            calls = [e for e in p.events if e.kind == "call"]
            pos = [e for e in calls if re.search(r"Iterator(<.*>)?>?::position$", e.name) and any(sp(x) == ("dedicates",) for x in subvalues(e.args[0]))]
            rm = [e for e in calls if re.search(r"Vec(<.*>)?::(remove|swap_remove)$", e.name) and sp(e.args[0]) == ("dedicates",)]
            ok = len(pos) == 1 and id_test(c, p, pos[0].args[1], pid)
            c.ob("restart", b.name, ok, "the project to remove is not found by its id", span=b.span)
            if not ok:
                continue
            if p.variant(pos[0].res) != "Some":
                n["not there"] += 1
                c.ob("restart", b.name, not rm and not sync_sent(p), "another project is removed", span=b.span)
                continue
            n["removed"] += 1
            told = [e for e in calls if re.search(r"CompileHandler(<.*>)?>?::notify_removed$", e.name) and unwrap(e.args[1]) is pid]
            c.ob("restart", b.name, len(rm) == 1 and rm[0].args[1] is F(pos[0].res, "+Some", "0") and len(told) == 1, "another project is removed, or nobody is told", span=b.span)
            un = [e for e in calls if re.search(r"RedBlackTreeMap(<.*>)?::remove_mut$", e.name) and sp(e.args[0]) == ("deps", "project_deps") and unwrap(e.args[1]) is pid]
            sync = sync_sent(p)
            ok = len(un) == 1 and len(sync) == 1 and sync[0][1] is not None and sp(sync[0][1]) == ("deps",) and changed_by(sync[0][1], un[0])
            c.ob("watch", b.name, bool(ok), "the files of a removed project stay watched", span=b.span)
            rev = cells(p, SELF).get(("removed_revision",), F(SELF, "removed_revision"))
            ok = len(rm) == 1 and later_of(p, rev, lambda v: sp(v) == ("removed_revision",), lambda v: rev_of(v, rm[0].res))
            c.ob("restart", b.name, bool(ok), "the revisions of a removed project are forgotten", span=b.span)
    for b in anchored(c, r"ProjectCompiler::restart_dedicate$"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=OP):
            if p.end != "return":
                continue
            n["restarted"] += 1
            calls = [e for e in p.events if e.kind == "call"]
            mkp = [e for e in calls if e.name.endswith("ProjectCompiler::create_project")]
            new = [e for e in calls if re.search(r"CompilerUniverse(<.*>)?::new_raw$", e.name)]
            rm = [e for e in calls if e.name.endswith("ProjectCompiler::remove_dedicates")]
            push = [e for e in calls if e.name.endswith("Vec::push") and sp(e.args[0]) == ("dedicates",)]
            ok = len(mkp) == len(new) == len(rm) == len(push) == 1
            c.ob("restart", b.name, ok, "a project is not made, or the one it replaces not removed", span=b.span)
            if not ok:
                continue
            v = push[0].args[1]
            pid = mkp[0].args[0]
            c.ob("restart", b.name, root_of(v) is mkp[0].res and unwrap(rm[0].args[1]) is unwrap(pid) and calls.index(rm[0]) < calls.index(push[0]), "the project replaced is not removed before", span=b.span)
            a = new[0].args
            prim = lambda x, *fs: sp(unwrap(x)) == ("primary", "verse") + fs
            inp = payload(a[2], "Some") if p.variant(a[2]) == "Some" else a[2]
            via = lambda x, rx: bool(re.search(rx, call_name(unwrap(x)))) and unwrap(x).a[1][0]
            vf = via(a[3], r"Vfs(<.*>)?::fork$")
            vf = vf and via(vf, r"CompilerUniverse(<.*>)?::vfs$") or vf
            ok = unwrap(a[0]) is mk("arg", "entry") and prim(a[1], "features") and prim(via(inp, r"CompilerUniverse(<.*>)?::inputs$") or inp, *(() if via(inp, r"::inputs$") else ("inputs",))) \
                and vf and sp(unwrap(vf)) in (("primary", "verse"), ("primary", "verse", "vfs")) and prim(a[4], "registry") and prim(a[5], "font_resolver")
            c.ob("restart", b.name, bool(ok), "a project does not start from the state of the primary one", span=b.span)
            flags = [field(field(v, "reason"), k) for k in FLAGS]
            c.ob("restart", b.name, any(beval(x, {F(mkp[0].res, "reason", k): False}) for x, k in zip(flags, FLAGS)), "a new project is not compiled", span=b.span)
            com, rev = field(v, "committed_revision"), field(field(v, "verse"), "revision")
            rr = lambda x: fpath(x)[0] is SELF and fpath(x)[1] == ("removed_revision",)
            x = rev
            ok = rr(com) and re.search(r"NonZero\w*(<.*>)?::(saturating_add|checked_add)$", call_name(x)) and rr(x.a[1][1])
            c.ob("restart", b.name, bool(ok), "a compilation of the project removed may be taken for one of the new", span=b.span)
            same = p.variant(p.ret) == "Ok" and unwrap(payload(p.ret, "Ok")) is unwrap(pid)
            c.ob("restart", b.name, same and unwrap(mkp[0].args[1]) is new[0].res, "another id is given out", span=b.span)
    for b in anchored(c, r"ProjectCompiler::create_project$"):
        for p in c.paths_of(b):
            v = p.ret
            ok = p.end == "return" and agg_field(v, "id") is mk("arg", "id") and agg_field(v, "verse") is mk("arg", "verse") and p.variant(agg_field(v, "snapshot")) == "None" and const_of(agg_field(v, "committed_revision")) == 0 and p.variant(agg_field(v, "latest_success_doc")) == "None"
            c.ob("restart", b.name, bool(ok) and agg_field(v, "export_target") is mk("arg", "export_target") and agg_field(v, "handler") is mk("arg", "handler"), "a new project has a state of its own", span=b.span)


def rev_of(v, proj):
    v = unwrap(v)
    while v.op in ("call", "pure") and re.search(r"NonZero\w*(<.*>)?::get$", v.a[0]):
        v = v.a[1][0]
    r, fs = v, ()
    return root_proj(v, proj) == ("verse", "revision")


def later_of(p, v, x, y):
    """v is the maximum of two values, one for which x holds and one for which y holds"""
    if re.search(r"(Ord(<.*>)?>?::max|cmp::max|usize::max)$", call_name(v)):
        a = v.a[1]
        return (x(a[0]) and y(a[1])) or (x(a[1]) and y(a[0]))
    for k, f in p.facts.items():
        if k.op == "bin" and k.a[0] in ("Lt", "Gt", "Le", "Ge"):
            for s, t in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if x(s) and y(t):
                    g, h = vfs.cmp_holds(k, f, t, s), vfs.cmp_holds(k, f, s, t)
                    if (g is True or h is False) and y(v) or (g is False or h is True) and x(v):
                        return True
    return False


def compiles(c, n):
    OP = r"^log::|log_compile_report|WorldComputeGraph::|CompiledArtifact::from_graph|CompilerWorld::"
    for b in anchored(c, r"ProjectInsState::run_compile$"):
        h, g = mk("arg", "h"), mk("arg", "graph")
        one = 0
        for p in c.paths_of(b, events=r".", opaque=OP):
            if p.end != "return":
                continue
            n["started"] += 1
            st = [e for e in p.events if re.search(r"CompileHandler(<.*>)?>?::status$", e.name)]
            ok = len(st) == 1 and root_of(unbox(st[0].args[0])) is h and graph_rev(st[0].args[1], g) and p.variant(agg_field(st[0].args[2], "status")) == "Compiling" and snap_id(agg_field(st[0].args[2], "id"), g)
            c.ob("compile", b.name, bool(ok), "the start of a compilation is not reported", span=b.span)
            if one or p.ret.op != "clo":
                c.ob("compile", b.name, p.ret.op == "clo", "what is compiled cannot be told", span=b.span)
                continue
            one = 1
            for q in closure_runs(c, p, p.ret, events=r".", opaque=OP, asserts=True):
                if q.end != "return":
                    continue
                mk_ = [e for e in q.events if e.name.endswith("CompiledArtifact::from_graph")]
                ok = len(mk_) == 1 and unwrap(mk_[0].args[0]) is g
                t = mk("arg", "export_target")
                html = q.variant(t)
                flag = mk_[0].args[1] if ok else None
                ok = ok and ((html == "Html" and is_true(q, flag)) or (html is not None and html != "Html" and is_false(q, flag)) or (excludes(q, t, "Html") and is_false(q, flag)))
                c.ob("compile", b.name, bool(ok), "compiles something else", span=b.span)
                if not ok:
                    continue
                art = mk_[0].res
                st = [(i, e) for i, e in enumerate(q.events) if re.search(r"CompileHandler(<.*>)?>?::status$", e.name)]
                nt = [(i, e) for i, e in enumerate(q.events) if re.search(r"CompileHandler(<.*>)?>?::notify_compile$", e.name)]
                good = q.variant(F(art, "doc"))
                n["success" if good == "Some" else "error"] += 1
                ok = len(st) == 1 and graph_rev(st[0][1].args[1], g) and q.variant(agg_field(st[0][1].args[2], "status")) == ("CompileSuccess" if good == "Some" else "CompileError")
                rep = st[0][1].args[2] if ok else None
                c.ob("compile", b.name, bool(ok) and good in ("Some", "None") and art_id(agg_field(rep, "id"), art, g), "the outcome of a compilation is not the one reported", span=b.span)
                pages = agg_field(rep, "page_count") if rep is not None else None
                c.ob("compile", b.name, pages is not None and (re.search(r"num_of_pages$", call_name(pages)) and under(pages.a[1][0], art) if good == "Some" else const_of(pages) == 0), "the pages reported are others", span=b.span)
                res = payload(agg_field(rep, "status"), "CompileSuccess" if good == "Some" else "CompileError") if rep is not None else None
                d = agg_field(res, "diag") if res is not None else None
                names = {re.sub(r".*::", "", call_name(x)) for x in subvalues(d) if call_name(x).endswith("_cnt")} if d is not None else set()
                c.ob("compile", b.name, names == {"warning_cnt", "error_cnt"}, "the diagnostics reported are not all", span=b.span)
                ok = len(nt) == 1 and unwrap(nt[0][1].args[1]) is art and root_of(unbox(nt[0][1].args[0])) is h and (not st or st[0][0] < nt[0][0]) and unwrap(q.ret) is art
                c.ob("compile", b.name, bool(ok), "what was compiled is not handed out", span=b.span)
    for b in anchored(c, r"CompiledArtifact::from_graph$"):
        g, h = mk("arg", "graph"), mk("arg", "is_html")
        for p in c.paths_of(b, events=r".", opaque=r"^log::|WorldComputeGraph::"):
            if p.end != "return":
                continue
            html = p.truth(h)
            n["html" if html else "paged"] += 1
            pv = {}
            for i, e in enumerate(p.events):
                if e.name.endswith("WorldComputeGraph::provide"):
                    k = "Html" if "Html" in str(e.extra.get("ga")) else "Paged" if "Paged" in str(e.extra.get("ga")) else None
                    f = payload(e.args[1], "Ok") if p.variant(e.args[1]) == "Ok" else None
                    pv[k] = (i, f.a[1][0] if f is not None and re.search(r"::flag$", call_name(f)) else None)
            run = [(i, e) for i, e in enumerate(p.events) if re.search(r"WorldComputeGraph::shared_compile(_html)?$", e.name)]
            ok = set(pv) == {"Html", "Paged"} and all(v is not None and beval(v, {h: html}) == (html if k == "Html" else not html) for k, (i, v) in pv.items())
            c.ob("compile", b.name, ok and len(run) == 1 and all(i < run[0][0] for i, _ in pv.values()), "the target to compile for is not set before", span=b.span)
            if not ok or len(run) != 1:
                continue
            r = run[0][1].res
            c.ob("compile", b.name, run[0][1].name.endswith("_html") == html and unwrap(run[0][1].args[0]) is g, "compiles for another target", span=b.span)
            doc, got = agg_field(p.ret, "doc"), p.variant(F(r, "+Ok", "0"))
            ok = (p.variant(doc) == "Some" and any(x is F(r, "+Ok", "0", "+Some", "0") for x in subvalues(doc))) if got == "Some" else got == "None" and p.variant(doc) == "None"
            dg = [(i, e) for i, e in enumerate(p.events) if e.name.endswith("WorldComputeGraph::shared_diagnostics")]
            ok = ok and agg_field(p.ret, "graph") is g and len(dg) == 1 and dg[0][0] > run[0][0] and agg_field(p.ret, "diag") is F(dg[0][1].res, "+Ok", "0")
            c.ob("compile", b.name, bool(ok), "the document or its diagnostics are not those compiled", span=b.span)


def graph_rev(v, g):
    v = unwrap(v)
    while v.op in ("call", "pure") and re.search(r"NonZero\w*(<.*>)?::get$", v.a[0]):
        v = v.a[1][0]
    return bool(re.search(r"CompilerWorld(<.*>)?::revision$", call_name(v))) and in_artifact(v.a[1][0], g)


def snap_id(v, g):
    r, fs = fpath(unbox(v))
    return r is g and fs[-1:] == ("id",)


def art_id(v, art, g):
    v = unbox_id(v)
    r, fs = fpath(v)
    return (r in (art, g) and fs[-1:] == ("id",)) or v is art


@check("J05")
def j05(c):
    c.which = 2
    c.rule("reason", "a project whose files, fonts, inputs or entry an interrupt changes has a reason to compile afterwards, named after what changed, and keeps every reason it had before")
    c.rule("every project", "changes of files and fonts are looked for in every project")
    c.rule("task", "a change of a task sets the inputs and the entry given, drops the document of the former entry and reports a suspension")
    c.rule("compile", "a project compiles exactly if it has a reason and a file to compile; only then its reasons are taken, and what is compiled is a snapshot taken before")
    c.rule("snapshot", "the snapshot of a project is of its present revision, and carries its id, its reasons and its last document")
    c.rule("reasons", "reasons are merged by union, there are any if one is there, and those excluded are left out; they become the signals of the same name")
    n = defaultdict(int)
    for b in anchored(c, PROC_BODY):
        A = arms(c, b)
        for kind, rx, flag in (("Memory", r"RevisingUniverse(<.*>)?::vfs_changed$", "by_memory_events"), ("Fs", r"RevisingUniverse(<.*>)?::vfs_changed$", "by_fs_events"), ("Font", r"RevisingUniverse(<.*>)?::font_changed$", None)):
            def arm(u, kind=kind, rx=rx, flag=flag):
                p = u.p
                ch = u.calls(rx)
                if len(ch) != 1 or u.proj is None:
                    return False
                proj = unwrap_loop(u.proj)
                t = p.truth(ch[0][1].res)
                ok = t is not None and keeps_reason(p, proj)
                if kind == "Font":
                    st = u.calls(r"RevisingUniverse(<.*>)?::set_fonts$")
                    ok = ok and len(st) == 1 and st[0][0] < ch[0][0] and is_event(st[0][1].args[1], u, F(mk("arg", "intr"), "+Font", "0"))
                n[f"{kind} {'changed' if t else 'same'}"] += 1
                if t:
                    return ok and has_reason(p, proj, flag)
                dl = [e for e in p.events if e.name.endswith("apply_delayed_memory_changes")]
                extra = kind == "Fs" and any(p.variant(e.res) == "None" for e in dl)
                return ok and (extra or same_reason(p, proj))

            ps = A[kind]
            if kind == "Memory":
                ps = [p for p in ps if not any(SEND.search(e.name) for e in p.events if e.kind == "call")]
                ps = [p for p in ps if units(p) or p.end == "return"]
            everyone(c, "every project", b, ps, arm, {"Memory": "a reason to compile after a change of edited files", "Fs": "a reason to compile after a change of files", "Font": "a change of fonts, or a reason to compile after it,"}[kind])
            # per unit, so that the reason is named
            for p in A[kind]:
                for u in units(p):
                    if p.end == "loop" or u.loop is None:
                        c.ob("reason", b.name, arm(u), f"a project has no reason to compile after a change ({kind}), or loses one", span=b.span)
        for kind in ("Compile", "ChangeTask"):
            for p in A[kind]:
                proj, there, pid = found(p)
                us = units(p)
                want = F(mk("arg", "intr"), "+" + kind, "0")
                if there == "None":
                    n["gone"] += 1
                    c.ob("reason", b.name, not us, "changes another project than the one named", span=b.span)
                    continue
                ok = proj is not None and unwrap(pid) is want and len(us) == 1 and us[0].proj is not None and unwrap_loop(us[0].proj) is proj
                c.ob("reason", b.name, ok, "changes another project than the one named", span=b.span)
                if not ok:
                    continue
                u = us[0]
                n[kind] += 1
                c.ob("reason", b.name, has_reason(p, proj) and keeps_reason(p, proj), f"a project has no reason to compile after a change ({kind}), or loses one", span=b.span)
                if kind == "Compile":
                    fl = u.calls(r"RevisingUniverse(<.*>)?::flush$")
                    c.ob("reason", b.name, len(fl) == 1, "a compilation asked for is taken for one done before", span=b.span)
                else:
                    task(c, b, p, u, proj, F(mk("arg", "intr"), "+ChangeTask", "1"), n)
    reasons(c, n)
    may(c, n)
    for k in ("Memory changed", "Memory same", "Fs changed", "Fs same", "Font changed", "Font same", "gone", "Compile", "ChangeTask", "inputs", "entry", "suspended", "compiles", "nothing", "cached", "made", "see", "any", "exclude", "signal", "make"):
        c.floor(f"paths: {k}", n[k], 1)


def task(c, b, p, u, proj, change, n):
    inp, ent = F(change, "inputs"), F(change, "entry")
    si = u.calls(r"RevisingUniverse(<.*>)?::set_inputs$")
    me = u.calls(r"RevisingUniverse(<.*>)?::(mutate_entry|set_entry_file|set_entry)$")
    st = cells(p, proj)
    if p.variant(inp) == "Some":
        n["inputs"] += 1
        c.ob("task", b.name, len(si) == 1 and unwrap(si[0][1].args[1]) is F(inp, "+Some", "0"), "the inputs of a task are not set", span=b.span)
    else:
        c.ob("task", b.name, p.variant(inp) == "None" and not si, "inputs are set that are not given", span=b.span)
    stat = [e for e in p.events if re.search(r"CompileHandler(<.*>)?>?::status$", e.name)]
    if p.variant(ent) == "Some":
        n["entry"] += 1
        e = F(ent, "+Some", "0")
        c.ob("task", b.name, len(me) == 1 and unwrap(me[0][1].args[1]) is e, "the entry of a task is not set", span=b.span)
        d = st.get(("latest_success_doc",))
        c.ob("task", b.name, d is not None and p.variant(d) == "None", "the document of the former entry is kept", span=b.span)
        off = [f for v, f in p.facts.items() if re.search(r"EntryState(<.*>)?::is_inactive$", call_name(v)) and unwrap(v.a[1][0]) is e]
        if off == [("eq", "1")]:
            n["suspended"] += 1
            ok = len(stat) == 1 and p.variant(agg_field(stat[0].args[2], "status")) == "Suspend" and root_proj(agg_field(stat[0].args[2], "id"), proj) == ("id",) and sp(unbox(stat[0].args[0])) == ("handler",)
            c.ob("task", b.name, bool(ok), "a suspension is not reported", span=b.span)
        else:
            c.ob("task", b.name, off == [("eq", "0")] and not stat, "a suspension is reported that is none", span=b.span)
    else:
        c.ob("task", b.name, p.variant(ent) == "None" and not me and not stat and ("latest_success_doc",) not in st, "an entry is set that is not given", span=b.span)


def reasons(c, n):
    S, R = SELF, mk("arg", "reason")
    for b in anchored(c, r"CompileReasons::see$"):
        for p in c.paths_of(b, events=r".", stores=True):
            st = cells(p, S)
            n["see"] += 1
            for k in FLAGS:
                v = st.get((k,), field(st[()], k) if () in st else F(S, k))
                c.ob("reasons", b.name, p.end == "return" and table(p, [F(S, k), F(R, k)], v, lambda e: any(e.values())), "a reason is lost or made up", span=b.span)
    for b in anchored(c, r"CompileReasons::any$"):
        for p in c.paths_of(b):
            n["any"] += 1
            at = [F(S, k) for k in FLAGS]
            c.ob("reasons", b.name, p.end == "return" and table(p, at, p.ret, lambda e: any(e.values())), "there is a reason but none is seen, or the other way around", span=b.span)
    for b in anchored(c, r"CompileReasons::exclude$"):
        X = mk("arg", "excluded")
        for p in c.paths_of(b):
            n["exclude"] += 1
            for k in FLAGS:
                c.ob("reasons", b.name, p.end == "return" and table(p, [F(S, k), F(X, k)], field(p.ret, k), lambda e, k=k: e[F(S, k)] and not e[F(X, k)]), "excludes another reason", span=b.span)
    for b in anchored(c, r"ExportSignal as .*From<.*CompileReasons>>::from$|ExportSignal as .*From>::from$"):
        V_ = mk("arg", "value")
        for p in c.paths_of(b):
            n["signal"] += 1
            for k, s in zip(FLAGS, ("by_mem_events", "by_fs_events", "by_entry_update")):
                c.ob("reasons", b.name, agg_field(p.ret, s) is F(V_, k), "a reason becomes another signal", span=b.span)


def may(c, n):
    OP = r"^log::|CompilerUniverse::|WorldComputeGraph::|ProjectInsState::(make_snapshot|run_compile|snapshot)$|EntryReader|EntryState"
    for b in anchored(c, r"ProjectInsState::may_compile2?$"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=OP):
            if p.end != "return":
                continue
            st = cells(p, SELF)
            fl = flags_of(SELF)
            anyr = {any(env.values()) for env in assignments(p, fl)}
            off = [(v, p.truth(v)) for v in p.facts if re.search(r"EntryState(<.*>)?::is_inactive$", call_name(v)) and any(sp(x)[:1] == ("verse",) for x in subvalues(v) if sp(x))]
            idle = any(t for _, t in off)
            if p.variant(p.ret) == "None":
                n["nothing"] += 1
                c.ob("compile", b.name, anyr == {False} or idle, "a project with a reason and a file is not compiled", span=b.span)
                c.ob("compile", b.name, not any(k[:1] == ("reason",) for k in st), "a reason is taken though nothing is compiled", span=b.span)
                continue
            n["compiles"] += 1
            c.ob("compile", b.name, anyr == {True} and [t for _, t in off] == [False], "a project without a reason or a file is compiled", span=b.span)
            sn = [(i, e) for i, e in enumerate(p.events) if re.search(r"ProjectInsState::(make_)?snapshot$", e.name) and root_of(e.args[0]) is SELF]
            rs = [i for i, e in enumerate(p.events) if e.kind == "store" and isinstance(e.extra, tuple) and any(x[1] == "reason" for x in e.extra[1])]
            ok = len(sn) == 1 and all(i > sn[0][0] for i in rs)
            c.ob("compile", b.name, ok, "what is compiled is not the state the reasons are of", span=b.span)
            c.ob("compile", b.name, all(beval(reason_after(p, SELF, k)[0], {}) is False for k in FLAGS), "a reason is kept though its change is compiled", span=b.span)
            v = payload(p.ret, "Some")
            if not ok:
                continue
            s = sn[0][1].res
            if b.name.endswith("2"):
                q = closure_runs(c, p, v, events=r".", opaque=OP)
                ok = bool(q) and all(x.end != "return" or (unwrap(x.ret) is s and any(EMIT.search(e.name) and e.args[0] is mk("arg", "compute") and s in list(subvalues(e.args[1])) for e in x.events)) for x in q)
                c.ob("compile", b.name, ok, "another snapshot is compiled", span=b.span)
            else:
                ok = re.search(r"ProjectInsState::run_compile$", call_name(v)) and unwrap(v.a[1][0]) is mk("arg", "handler") and unwrap(v.a[1][1]) is s and sp(v.a[1][2]) == ("export_target",)
                c.ob("compile", b.name, bool(ok), "another snapshot is compiled, or for another target", span=b.span)
    for b in anchored(c, r"ProjectInsState::snapshot$"):
        for p in c.paths_of(b, events=r".", stores=True, opaque=OP.replace("|snapshot)$", ")$")):
            if p.end != "return":
                continue
            old = F(SELF, "snapshot", "+Some", "0")
            mkd = [e for e in p.events if e.name.endswith("ProjectInsState::make_snapshot") and root_of(e.args[0]) is SELF]
            st = cells(p, SELF)
            if not mkd:
                if p.variant(F(SELF, "snapshot")) != "Some":
                    continue  # cannot be: a reference that is not there
                n["cached"] += 1
                ok = unwrap(p.ret) is old and any(f == ("eq", "1") and present_rev(v, old) for v, f in p.facts.items())
                c.ob("snapshot", b.name, ok, "the snapshot of an earlier revision is used", span=b.span)
            else:
                n["made"] += 1
                v = st.get(("snapshot",))
                ok = len(mkd) == 1 and unwrap(p.ret) is mkd[0].res and v is not None and p.variant(v) == "Some" and unwrap(payload(v, "Some")) is mkd[0].res
                c.ob("snapshot", b.name, ok, "a snapshot is used that is not kept, or the other way around", span=b.span)
    for b in anchored(c, r"ProjectInsState::make_snapshot$"):
        for p in c.paths_of(b, events=r".", opaque=OP.replace("make_snapshot|", "")):
            if p.end != "return":
                continue
            n["make"] += 1
            g = p.ret
            ok = re.search(r"WorldComputeGraph(<.*>)?::new$", call_name(g))
            v = g.a[1][0] if ok else None
            sn = agg_field(v, "world") if ok else None
            ok = ok and sn is not None and re.search(r"CompilerUniverse(<.*>)?::snapshot$", call_name(sn)) and sp(sn.a[1][0]) == ("verse",) and sp(agg_field(v, "id")) == ("id",) and sp(agg_field(v, "success_doc")) == ("latest_success_doc",)
            c.ob("snapshot", b.name, bool(ok), "a snapshot is not of the project's state", span=b.span)
            if ok:
                for k, s in zip(FLAGS, ("by_mem_events", "by_fs_events", "by_entry_update")):
                    sig = agg_field(v, "signal")
                    # into() is followed like a copy; there is one conversion of the two types, which has its own rule
                    ok = sig is not None and (sp(sig) == ("reason",) or agg_field(sig, s) is not None and sp(agg_field(sig, s)) == ("reason", k))
                    c.ob("snapshot", b.name, ok, "a snapshot tells other reasons", span=b.span)


def present_rev(v, old):
    for x, y in cmp_eq(v):
        for s, t in ((x, y), (y, x)):
            s, t = strip_get(s), strip_get(t)
            if re.search(r"CompilerWorld(<.*>)?::revision$", call_name(s)) and any(z is old for z in subvalues(s)) and sp(t) == ("verse", "revision"):
                return True
    return False


def strip_get(v):
    v = unwrap(v)
    while v.op in ("call", "pure") and re.search(r"NonZero\w*(<.*>)?::get$", v.a[0]):
        v = unwrap(v.a[1][0])
    return v
