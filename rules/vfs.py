"""V: the virtual file system (crate tinymist-vfs, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *

VFS = "tinymist_vfs"
LOCK = re.compile(r"(Mutex|RwLock|FairMutex|ReentrantMutex)(<.*>)?::(lock|read|write)$")
DEF = re.compile(r"(std::default::Default>?::default|^std::collections::HashMap::new|^ecow::EcoVec::new|::default)$")


def call_name(v):
    return v.a[0] if v.op in ("call", "pure") else ""


def fpath(v):
    """(root value, field names) of a place, seen through locks, loops and partial updates"""
    fs = []
    while True:
        if v.op == "proj" and v.a[1][0] == "f":
            fs.append(v.a[1][1])
            v = v.a[0]
        elif v.op == "upd":
            v = v.a[0]
        elif v.op == "mut":
            v = v.a[2] if len(v.a) > 2 and isinstance(v.a[2], V) else v.a[0]
        elif v.op == "loop":
            v = v.a[3]
        elif v.op in ("call", "pure") and LOCK.search(v.a[0]):
            v = v.a[1][0]
        else:
            return v, tuple(reversed(fs))


SELF = mk("arg", "self")


def at(v, *fs, root=SELF):
    r, p = fpath(v)
    return r is root and p == fs


def nexts(p):
    """[(item or None, loop value, what is iterated)] for the `next` calls of the path"""
    out = []
    for v, f in p.facts.items():
        if re.search(r"Iterator>?::next$", call_name(v)) and f[0] == "eq":
            lv = v.a[1][0]
            src = lv.a[3] if lv.op == "loop" else lv
            if re.search(r"(\[T\]|Vec|EcoVec|VecDeque)(<.*>)?(::|>::)(iter|iter_mut|into_iter)$", call_name(src)):
                src = src.a[1][0]
            out.append((F(v, "+Some", "0") if f[1] == "Some" else None, lv, src))
    return out


def fresh_cell(v):
    """a value not shared with anything and not computed yet"""
    v0 = v
    while v0.op == "agg" and len(v0.a) > 4:
        v0 = v0.a[4]
    n = call_name(v0)
    if re.search(r"Default>?::default$", n):
        return True
    if re.search(r"(Arc|OnceLock)(<.*>)?::new$", n):
        return n.endswith("OnceLock::new") or not v0.a[1] or fresh_cell(v0.a[1][0])
    return v0.op == "default"


def final(p, *fs):
    """what the place self.fs holds at the end, through references: the last store, or what it was"""
    for e in reversed(p.events):
        if e.kind != "store" or not isinstance(e.extra, tuple) or e.extra[0].op != "H":
            continue
        r, b = fpath(e.extra[0].a[0])
        full = b + tuple(x[1] for x in e.extra[1])
        if r is SELF and full == fs[:len(full)]:
            v = e.res
            for f in fs[len(full):]:
                v = field(v, f)
            return v
    return F(SELF, *fs)


def no_value(v):
    return v.op == "default" or bool(DEF.search(call_name(v)))


def entry_updates(p):
    """{key value: {field: value}} of the entries of the file table the path rewrites"""
    out = {}
    for e in p.events:
        if e.kind == "call" and re.search(r"RedBlackTreeMap::insert_mut$", e.name) and at(e.args[0], "managed", "entries"):
            v = e.args[2]
            d = out.setdefault(e.args[1], {})
            for f in ("changed_at", "bytes", "source"):
                d[f] = field(v, f)
        elif e.kind == "store" and isinstance(e.extra, tuple):
            root, ps = e.extra
            if root.op == "H":
                r = root.a[0]
                if r.op == "proj" and r.a[1] == ("f", "0") and r.a[0].op == "proj" and r.a[0].a[1] == ("d", "Some"):
                    g = r.a[0].a[0]
                    if re.search(r"RedBlackTreeMap::get_mut$", call_name(g)) and at(g.a[1][0], "managed", "entries"):
                        d = out.setdefault(g.a[1][1], {})
                        if not ps:
                            for f in ("changed_at", "bytes", "source"):
                                d[f] = field(e.res, f)
                        elif len(ps) == 1:
                            d[ps[0][1]] = e.res
    return out


def field(v, f):
    """field of a possibly updated aggregate"""
    if v.op == "upd":
        rest = []
        for k, w in v.a[1]:
            if k == (("f", f),):
                return w
            if k[0] == ("f", f):
                rest.append((k[1:], w))
        b = field(v.a[0], f)
        return mk("upd", b, tuple(rest)) if rest else b
    x = agg_field(v, f)
    return x if x is not None else F(v, f)


def upd_fields(v):
    out = {}
    for x in v.a[1:]:
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], V):
                    k = y[0]
                    while isinstance(k, tuple) and k and isinstance(k[0], tuple):
                        k = k[0]
                    out[k[1] if isinstance(k, tuple) and len(k) == 2 else k] = y[1]
    return out


def goal(v):
    return re.search(r"NonZero(<.*>)?::get$", call_name(v)) and at(v.a[1][0], "goal_revision")


def renewed(d):
    """the entry is marked as changed in the coming revision and has nothing read"""
    return bool(d) and {"changed_at", "bytes", "source"} <= set(d) and bool(goal(d["changed_at"])) and fresh_cell(d["bytes"]) and fresh_cell(d["source"])


def anchored(c, rx, sig=None, crate=VFS):
    bs = fn_by(program(c.which), rx, crate, sig)
    c.anchor(rx, bs)
    return bs


def src(p):
    return f"{p.end} {show(p.ret)[:100]}" if p.ret is not None else p.end


def overlay_key(v):
    """0: the table of files shadowed by id, 1: by path, 2: the table of changes notified (within a revising file system)"""
    r, p = fpath(v)
    if r is SELF and p[-1:] == ("files",) and p[:2] in (("inner", "access_model"),):
        return {0: 0, 2: 1, 3: 2}.get(len(p) - 3 if all(x == "inner" for x in p[2:-1]) else -1)
    return None


def fact_is(p, v, name):
    return p.variant(v) == name


class Invalidation:
    """which iterations of which loops invalidate their item (a path or a file id)"""

    def __init__(self, paths):
        self.paths = paths
        self.loops = defaultdict(list)  # loop value id -> iteration paths
        for p in paths:
            for item, lv, s in nexts(p):
                if item is not None and lv.op == "loop" and p.ends_loop(lv):
                    self.loops[self.key(lv)].append((p, item))

    def key(self, lv):
        return (lv.a[0], lv.a[1])

    def ids(self, p, key):
        """the path invalidates the ids found under a lookup of `key` in the path table (all of them)"""
        for e in evs(p, r"HashMap::get$", "call"):
            if e.args[1] is not key or not at(e.args[0], "paths", "paths"):
                continue
            if fact_is(p, e.res, "None"):
                return True
            some = F(e.res, "+Some", "0")
            for v, f in p.facts.items():
                if re.search(r"(EcoVec|\[T\]|Vec)(<.*>)?::is_empty$", call_name(v)) and v.a[1][0] is some and f == ("eq", "1"):
                    return True
            for item, lv, s in nexts(p):
                if s is some:
                    return item is None and self.each(lv, self.id_done) or item is not None and lv.op == "loop" and p.ends_loop(lv) and self.each(lv, self.id_done)
        return False

    def id_done(self, p, item):
        return any(k is item and renewed(d) for k, d in entry_updates(p).items())

    def each(self, lv, done):
        it = self.loops.get(self.key(lv), ())
        return bool(it) and all(done(p, item) for p, item in it)

    def path_done(self, of=lambda x: x):
        return lambda p, item: self.ids(p, of(item))

    def whole(self, p, is_src, done):
        """the path runs a loop over the source to its end, and every iteration does its item"""
        return any(item is None and is_src(s) and self.each(lv, done) for item, lv, s in nexts(p))


@check("V01")
def v01(c):
    c.which = 2
    P = program(2)
    c.rule("shadow", "a layer answers from its own table exactly when it has the file, with the content recorded there, and asks the next layer for the same file otherwise")
    c.rule("resolve", "an id is resolved to a path exactly by the root resolver; the content comes from the next layer for that path, and an id that resolves to no path gives the error and no content")
    c.rule("edit", "adding a file to a layer replaces what it had for it, removing it removes exactly it, clearing removes all")
    c.rule("notify", "a change set removes its removed files and records its inserted ones, the removals first")
    c.rule("disk", "the disk layer reads the whole file at the path, refuses directories and reports every error for that path")
    c.rule("reset", "a reset reaches the innermost layer through every layer")
    c.rule("stack", "the layers are stacked: files shadowed by id, resolution, files shadowed by path, changes notified, disk; all tables start empty")
    n = defaultdict(int)
    s = mk("arg", "src")
    for rx in (r"<overlay::OverlayAccessModel as PathAccessModel>::content$", r"<overlay::OverlayAccessModel as AccessModel>::content$", r"<notify::NotifyAccessModel as PathAccessModel>::content$"):
        for b in anchored(c, rx):
            byid = " AccessModel" in rx
            for p in c.paths_of(b, events=r"RedBlackTreeMap::|AccessModel>?::content$", cut="."):
                g = [e for e in evs(p, r"RedBlackTreeMap::(get|contains_key)$") if at(e.args[0], "files")]
                i = evs(p, r"AccessModel>?::content$", "call")
                ok = p.end == "return" and bool(g) and all(e.args[1] is s for e in g)
                hit = None
                for e in g:
                    if e.name.endswith("contains_key"):
                        hit = p.truth(e.res) if hit is None else hit
                    else:
                        v = p.variant(e.res)
                        hit = {"Some": True, "None": False}.get(v, hit)
                n[hit] += 1
                if hit:
                    ret = p.ret
                    if byid:
                        ok = ok and ret.op == "agg" and p.variant(ret.a[4]) == "None"
                        ret = ret.a[5] if ret.op == "agg" and len(ret.a) > 5 else ret
                    stored = F([e for e in g if e.name.endswith("get")][-1].res, "+Some", "0", "0") if any(e.name.endswith("get") for e in g) else None
                    rv = p.variant(ret)
                    ok = ok and not i and rv in ("Ok", "Err") and payload(ret, rv) is F(stored, "+" + rv, "0") and p.variant(stored) == rv
                else:
                    ok = ok and hit is False and len(i) == 1 and at(i[0].args[0], "inner") and i[0].args[1] is s and p.ret is i[0].res
                c.ob("shadow", rx.split("::content")[0], ok, f"hit={hit}: {src(p)}", f"shadow|{rx}|{hit}", p.span)
    c.floor("layer hits", n[True], 6)
    c.floor("layer misses", n[False], 3)
    fid = mk("arg", "fid")
    for b in anchored(c, r"<resolve::ResolveAccessModel as AccessModel>::content$"):
        for p in c.paths_of(b, events=r"path_for_id$|AccessModel>?::content$"):
            r = [e for e in evs(p, r"path_for_id$") if e.args[1] is fid and at(e.args[0], "resolver")]
            i = evs(p, r"AccessModel>?::content$", "call")
            ok = p.end == "return" and len(r) == 1 and p.ret.op == "agg" and len(p.ret.a) > 5
            if ok:
                a, d = p.ret.a[4], p.ret.a[5]
                okv = F(r[0].res, "+Ok", "0")
                if p.variant(r[0].res) == "Ok" and p.variant(okv) == "Resolved":
                    path = F(okv, "+Resolved", "0")
                    n["resolved"] += 1
                    ok = len(i) == 1 and i[0].args[1] is path and at(i[0].args[0], "inner") and d is i[0].res and p.variant(a) == "Some" and payload(a, "Some") is path
                else:
                    n["unresolved"] += 1
                    err = F(r[0].res, "+Err", "0") if p.variant(r[0].res) == "Err" else None
                    ok = not i and p.variant(a) == "None" and p.variant(d) == "Err" and (payload(d, "Err") is err if err is not None else agg_variant(payload(d, "Err")) == "AccessDenied")
            c.ob("resolve", "outcome", ok, src(p), "resolve", p.span)
    c.floor("resolved", n["resolved"], 1)
    c.floor("unresolved", n["unresolved"], 2)
    # ------------------------------------------------------------- edits
    path, snap = mk("arg", "path"), mk("arg", "snap")
    for b in anchored(c, r"overlay::OverlayAccessModel::add_file$"):
        for p in c.paths_of(b, events=r"RedBlackTreeMap::|Fn(<.*>)?::call$", stores=True):
            w = [e for e in evs(p, r"RedBlackTreeMap::insert_mut$") if at(e.args[0], "files")]
            st = [e for e in p.events if e.kind == "store" and isinstance(e.extra, tuple) and e.extra[0].op == "H" and calls_in(e.extra[0].a[0], r"RedBlackTreeMap::get_mut$")]
            other = [e for e in evs(p, r"RedBlackTreeMap::(remove|clear)")]
            ok = p.end == "return" and not other
            if w:
                ok = ok and len(w) == 1 and not st and w[0].args[2] is snap and mentions(w[0].args[1], lambda x: x is path)
            else:
                g = calls_in(st[0].extra[0].a[0], r"RedBlackTreeMap::get_mut$")[0] if st else None
                ok = ok and len(st) == 1 and st[0].extra[1] == () and st[0].res is snap and g.a[1][1] is path and at(g.a[1][0], "files") and st[0].extra[0].a[0] is F(g, "+Some", "0")
            n["add"] += 1
            c.ob("edit", "add", ok, f"{src(p)}: {[(e.name, [show(a)[:60] for a in e.args]) for e in w + st + other]}", "edit|add", p.span)
    for b in anchored(c, r"overlay::OverlayAccessModel::remove_file$"):
        for p in c.paths_of(b, events=r"RedBlackTreeMap::", stores=True):
            w = [e for e in p.events if e.kind == "store" or e.kind == "call" and not re.search(r"::(get|contains_key|size|is_empty)$", e.name)]
            absent = any(re.search(r"contains_key$", call_name(v)) and f == ("eq", "0") and v.a[1][1] is path for v, f in p.facts.items())
            c.ob("edit", "remove", p.end == "return" and (absent and not w or len(w) == 1 and w[0].name.endswith("remove_mut") and at(w[0].args[0], "files") and w[0].args[1] is path), f"{src(p)}: {[e.name for e in w]}", "edit|remove", p.span)
    for b in anchored(c, r"overlay::OverlayAccessModel::clear_shadow$"):
        for p in c.paths_of(b, events=r"RedBlackTreeMap"):
            v = p.read_arg("self", "files")
            c.ob("edit", "clear", p.end == "return" and no_value(v), f"files = {show(v)[:80]}", "edit|clear", p.span)
    c.floor("add paths", n["add"], 1)
    cs = mk("arg", "changeset")
    for b in anchored(c, r"notify::NotifyAccessModel::notify$"):
        ps = c.paths_of(b, events=r"RedBlackTreeMap::", stores=True, cut=".")
        seen = defaultdict(int)
        for p in ps:
            nx = nexts(p)
            cur = [(i, s_) for i, lv, s_ in nx if i is not None and p.ends_loop(lv)]
            done = {s_: True for i, lv, s_ in nx if i is None}
            w = [e for e in p.events if e.kind == "call" and not re.search(r"::(get|contains_key|size|is_empty)$", e.name) or e.kind == "store"]
            rem, ins = F(cs, "removes"), F(cs, "inserts")
            if p.end == "loop":
                it, s_ = cur[0] if cur else (None, None)
                mine = [e for e in w if any(a is it or a is F(it, "0") for a in e.args[1:2])] if it is not None else []
                if s_ is rem:
                    ok = len(w) == 1 and w[0].name.endswith("remove_mut") and at(w[0].args[0], "files") and w[0].args[1] is it and ins not in done
                elif s_ is ins:
                    e = [x for x in w if x.name.endswith("insert_mut")]
                    ok = len(e) == 1 and len(w) == 1 and at(e[0].args[0], "files") and e[0].args[1] is F(it, "0") and e[0].args[2] is F(it, "1") and rem in done
                else:
                    ok = False
                seen[s_] += 1
                c.ob("notify", "each entry", ok, f"{[(x.name, [show(a)[:50] for a in x.args]) for x in w]} for an item of {show(s_)[:40] if s_ is not None else None}", f"notify|{show(s_)[:20] if s_ is not None else ''}", p.span)
            else:
                c.ob("notify", "all entries", p.end == "return" and rem in done and ins in done, f"{src(p)}", "notify|all", p.span)
        c.floor("notified removals", seen[F(cs, "removes")], 1)
        c.floor("notified inserts", seen[F(cs, "inserts")], 1)
    # ------------------------------------------------------------- disk
    for b in anchored(c, r"<system::SystemAccessModel as PathAccessModel>::content$"):
        for p in c.paths_of(b, events=r"std::fs::|std::io::|File::|from_io$|Bytes::"):
            rd = evs(p, r"read_to_end$|^std::fs::read$")
            op = evs(p, r"File::open$|^std::fs::read$")
            md = evs(p, r"^std::fs::(symlink_)?metadata$|Path::is_dir$|File::metadata$")
            bad = [e for e in op + [e for e in md if not e.name.startswith("std::fs::File")] if e.args[0] is not s]
            wr = evs(p, r"write|set_len|create|remove|rename")
            rv = p.variant(p.ret)
            fails = [e for e in p.events if e.kind == "call" and p.variant(e.res) == "Err"]
            isd = [f == ("eq", "1") for v, f in p.facts.items() if re.search(r"is_dir$", call_name(v))]
            ok = p.end == "return" and not bad and not wr
            if rv == "Ok":
                n["read"] += 1
                ok = ok and isd and not any(isd) and rd and not fails
                res = payload(p.ret, "Ok")
                if ok and rd[0].name.endswith("read_to_end"):
                    f0 = base(rd[0].args[0])
                    ok = bool(op) and (f0 is op[0].res or mentions(rd[0].args[0], lambda x: x is op[0].res)) and re.search(r"Bytes::new$|From>?::from$", call_name(res)) and mentions(res, lambda x: x.op == "mut" and rd[0].name in str(x.a) or "read_to_end" in show(x))
                elif ok:
                    ok = mentions(res, lambda x: x is rd[0].res)
            else:
                er = payload(p.ret, "Err")
                if any(isd):
                    n["dir"] += 1
                    ok = ok and agg_variant(er) == "IsDirectory" and not rd
                else:
                    n["err"] += 1
                    ok = ok and len(fails) == 1 and re.search(r"from_io$", call_name(er)) and er.a[1][0] is F(fails[0].res, "+Err", "0") and er.a[1][1] is s
            c.ob("disk", f"{rv}", bool(ok), f"{src(p)}; is_dir={isd}, failing {[e.name for e in fails]}", f"disk|{rv}|{bool(isd and isd[0])}", p.span)
    c.floor("disk reads", n["read"], 1)
    c.floor("disk errors", n["err"], 3)
    c.floor("directories refused", n["dir"], 1)
    # ------------------------------------------------------------- reset
    layers = {"overlay by path": r"<overlay::OverlayAccessModel as PathAccessModel>::reset$", "overlay by id": r"<overlay::OverlayAccessModel as AccessModel>::reset$",
              "changes": r"<notify::NotifyAccessModel as PathAccessModel>::reset$", "resolution": r"<resolve::ResolveAccessModel as AccessModel>::reset$", "shared": r"<SharedAccessModel as PathAccessModel>::reset$"}
    for what, rx in layers.items():
        bs = fn_by(P, rx, VFS)
        c.ob("reset", what, bool(bs), f"the layer has no reset of its own, so a reset stops there and never reaches the layers below", f"reset|{what}")
        for b in bs:
            for p in c.paths_of(b, events=r"AccessModel>?::reset$|RwLock"):
                r = evs(p, r"AccessModel>?::reset$", "call")
                c.ob("reset", what, p.end == "return" and len(r) == 1 and at(r[0].args[0], "inner"), f"{src(p)}: {[show(e.args[0])[:60] for e in r]}", f"reset|{what}|inner", p.span)
    for b in anchored(c, r"^Vfs::reset_access_model$"):
        for p in c.paths_of(b, events=r"AccessModel.*::reset$", opaque=r"AccessModel as .*::reset$"):
            r = evs(p, r"AccessModel.*::reset$", "call")
            c.ob("reset", "file system", p.end == "return" and len(r) == 1 and at(r[0].args[0], "access_model"), src(p), "reset|vfs", p.span)
    # ------------------------------------------------------------- stack
    am, rs = mk("arg", "access_model"), mk("arg", "resolver")
    for b in anchored(c, r"^Vfs::new$"):
        for p in c.paths_of(b, events=r"RwLock::new$"):
            if p.end == "diverge" and const_false(p):
                continue
            v = agg_field(p.ret, "access_model") if p.ret is not None and p.ret.op == "agg" else None
            ok = v is not None
            shape = []
            while ok and v is not None and v.op == "agg" and v.a[0] == "adt" and len(shape) < 8:
                shape.append(v.a[1].rsplit("::", 1)[-1])
                fl = agg_field(v, "files")
                if fl is not None and not no_value(fl):
                    ok = False
                if shape[-1] == "ResolveAccessModel":
                    ok = ok and agg_field(v, "resolver") is rs
                v = agg_field(v, "inner")
            ok = ok and shape == ["OverlayAccessModel", "ResolveAccessModel", "OverlayAccessModel", "NotifyAccessModel", "SharedAccessModel"] and v is not None and mentions(v, lambda x: x is am)
            c.ob("stack", "new", ok, f"layers {shape} over {show(v)[:80] if v is not None else None}", "stack", p.span)


def payload(v, variant):
    if v.op == "agg" and v.a[0] == "adt" and v.a[2] == variant and len(v.a) > 4:
        return v.a[4]
    return F(v, "+" + variant, "0")


def const_false(p):
    """the path needs a constant to be absent (an `expect` on a constant number)"""
    return any(re.search(r"NonZero::new$", call_name(v)) and v.a[1][0].op == "const" and f == ("eq", "None") for v, f in p.facts.items())


ONCE = r"OnceLock::get_or_(try_)?init$"


def tables(p):
    """[(layer, what, key, value)] the shadow tables the path writes"""
    out = []
    for e in p.events:
        if e.kind == "call":
            m = re.search(r"RedBlackTreeMap::(insert_mut|remove_mut)$", e.name)
            if m and overlay_key(e.args[0]) is not None:
                out.append((overlay_key(e.args[0]), m.group(1)[:6], e.args[1], e.args[2] if len(e.args) > 2 else None))
        elif e.kind == "store" and isinstance(e.extra, tuple) and e.extra[0].op == "H":
            r = e.extra[0].a[0]
            for g in calls_in(r, r"RedBlackTreeMap::get_mut$"):
                if r is F(g, "+Some", "0") and overlay_key(g.a[1][0]) is not None:
                    out.append((overlay_key(g.a[1][0]), "insert" if e.extra[1] == () else "part", g.a[1][1], e.res))
    return out


def keys_of(s, layer):
    """the value is the list of the keys of a shadow table"""
    while call_name(s) and re.search(r"::(collect|cloned|copied|into_iter|to_vec)$", call_name(s)):
        s = s.a[1][0]
    return bool(re.search(r"RedBlackTreeMap::keys$", call_name(s))) and overlay_key(s.a[1][0]) == layer


@check("V02")
def v02(c):
    c.which = 2
    c.rule("shadowed", "a file shadowed or no longer shadowed is set or removed in its layer, and every file read under that path or id is unread in the coming revision")
    c.rule("all shadows", "clearing the shadows invalidates every path and id that was shadowed and empties both layers")
    c.rule("changes", "a change set invalidates every file read under each path it removes or inserts, and reaches the layer of changes")
    c.rule("published", "whatever is invalidated makes a new revision")
    c.rule("cache", "resetting the cache forgets what was read under every id and makes a new revision")
    path, snap, fid, ev = (mk("arg", x) for x in ("path", "snap", "file_id", "event"))
    EV, OP = r"RedBlackTreeMap|HashMap|EcoVec|next$|notify$|split$", r"NotifyAccessModel::notify$"
    n = defaultdict(int)

    def published(b, p):
        vc = p.read_arg("self", "view_changed")
        if any(renewed(d) for d in entry_updates(p).values()):
            n["renewals"] += 1
            c.ob("published", b.name.split("::")[-1], p.truth(vc) is True or const_of(vc) == 1, f"files are invalidated but view_changed = {show(vc)[:60]}", f"published|{b.name}", p.span)
        for e in p.events:
            if e.kind == "store" and isinstance(e.extra, tuple) and e.extra[1][-1:] == (("f", "view_changed"),):
                c.ob("published", b.name.split("::")[-1] + " keeps it", const_of(e.res) == 1, f"view_changed becomes {show(e.res)[:60]}", f"published|keep|{b.name}", e.span)

    for nm, layer, key, op in (("map_shadow", 1, path, "insert"), ("unmap_shadow", 1, path, "remove"), ("map_shadow_by_id", 0, fid, "insert"), ("remove_shadow_by_id", 0, fid, "remove")):
        for b in anchored(c, rf"RevisingVfs::{nm}$"):
            ps = c.paths_of(b, events=EV, cut=".", stores=True, opaque=OP)
            inv = Invalidation(ps)
            for p in ps:
                published(b, p)
                if p.end == "loop":
                    continue
                t = tables(p)
                done = inv.id_done(p, key) if layer == 0 else inv.ids(p, key)
                ok = p.end == "return" and done and len(t) == 1 and t[0][:2] == (layer, op) and t[0][2] is key and (op == "remove" or t[0][3] is snap)
                if ok and call_name(p.ret) == "" and p.variant(p.ret) == "Err":
                    ok = False
                n[nm] += 1
                c.ob("shadowed", nm, ok, f"{src(p)}: invalidated={done}, tables {[(x[0], x[1], show(x[2])[:40]) for x in t]}", f"shadowed|{nm}", p.span)
        c.floor(nm, n[nm], 1)
    for b in anchored(c, r"RevisingVfs::reset_shadow$"):
        ps = c.paths_of(b, events=EV, cut=".", stores=True, opaque=OP)
        inv = Invalidation(ps)
        for p in ps:
            published(b, p)
            if p.end == "loop":
                continue
            n["reset"] += 1
            for layer, fs in ((1, ("inner", "access_model", "inner", "inner", "files")), (0, ("inner", "access_model", "files"))):
                done = inv.path_done() if layer else inv.id_done
                v = final(p, *fs)
                c.ob("all shadows", f"layer {layer} invalidated", p.end == "return" and inv.whole(p, lambda s: keys_of(s, layer), done), src(p), f"all|{layer}|inv", p.span)
                c.ob("all shadows", f"layer {layer} emptied", no_value(v), f"files = {show(v)[:80]}", f"all|{layer}|clear", p.span)
    c.floor("reset_shadow", n["reset"], 1)
    for nm in ("notify_fs_changes", "notify_fs_event"):
        for b in anchored(c, rf"RevisingVfs::{nm}$"):
            ps = c.paths_of(b, events=EV, cut=".", stores=True, opaque=OP + r"|FilesystemEvent::split$")
            inv = Invalidation(ps)
            for p in ps:
                published(b, p)
                if p.end == "loop":
                    continue
                n[nm] += 1
                w = evs(p, r"NotifyAccessModel::notify$", "call")
                ok = p.end == "return" and len(w) == 1 and fpath(w[0].args[0])[1] == ("inner", "access_model", "inner", "inner", "inner") and fpath(w[0].args[0])[0] is SELF
                cs = w[0].args[1] if ok else ev
                whole = cs is ev if nm.endswith("changes") else cs.op == "proj" and cs.a[1] == ("f", "0") and re.search(r"FilesystemEvent::split$", call_name(cs.a[0])) and cs.a[0].a[1][0] is ev
                c.ob("changes", f"{nm}: notified", bool(ok and whole), f"{src(p)}; {[show(a)[:60] for e in w for a in e.args]}", f"changes|{nm}|notify", p.span)
                c.ob("changes", f"{nm}: removed paths", inv.whole(p, lambda s: s is F(cs, "removes"), inv.path_done()), src(p), f"changes|{nm}|removes", p.span)
                c.ob("changes", f"{nm}: inserted paths", inv.whole(p, lambda s: s is F(cs, "inserts"), inv.path_done(lambda i: F(i, "0"))), src(p), f"changes|{nm}|inserts", p.span)
        c.floor(nm, n[nm], 1)
    for b in anchored(c, r"FilesystemEvent::split$"):
        for p in c.paths_of(b):
            s = mk("arg", "self")
            k = p.variant(s)
            want = {"Update": F(s, "+Update", "0"), "UpstreamUpdate": F(s, "+UpstreamUpdate", "changeset")}.get(k)
            got = p.ret.a[4] if p.ret is not None and p.ret.op == "agg" else None
            n["split"] += 1
            c.ob("changes", f"event {k}", want is not None and got is want, f"{show(got)[:80] if got is not None else None}", f"changes|split|{k}", p.span)
    c.floor("event kinds", n["split"], 2)
    for b in anchored(c, r"RevisingVfs::reset_cache$"):
        for p in c.paths_of(b, events="x"):
            e, q, r, vc = (p.read_arg("self", *f) for f in (("managed", "entries"), ("paths", "paths"), ("paths", "file_ids"), ("view_changed",)))
            c.ob("cache", "forgotten", p.end == "return" and no_value(e) and no_value(q) and no_value(r) and const_of(vc) == 1, f"{show(e)[:60]}, {show(q)[:60]}, {show(vc)[:30]}", "cache", p.span)
    c.floor("renewals", n["renewals"], 8)


@check("V03")
def v03(c):
    c.which = 2
    c.rule("publish", "dropping the edit puts its own tables, in new cells, and its revision in place when something changed, and touches nothing otherwise")
    c.rule("begin", "an edit works on copies of the tables made under their locks, towards the next revision, and nothing is changed yet")
    c.rule("unread", "what a snapshot may still be reading is not shared with the next revision: only the entries whose content is read, and those keep what they have")
    c.rule("snapshot", "a snapshot shares the tables, revision and layers of the moment; a fork has the layers but tables of its own")
    c.rule("clean", "a compilation is clean exactly when every file it read is known and has not changed since its revision")
    slf = SELF
    n = defaultdict(int)

    def cell_of(v):
        """the content of a new shared cell"""
        while call_name(v) and re.search(r"(Arc|Mutex|RwLock)(<.*>)?::(new|from)$", call_name(v)):
            v = v.a[1][0]
        return v

    for b in anchored(c, r"<RevisingVfs as std::ops::Drop>::drop$"):
        for p in c.paths_of(b, events=".", stores=True):
            changed = p.truth(F(slf, "view_changed"))
            m, q, r = (final(p, "inner", f) for f in ("managed", "paths", "revision"))
            old = [F(slf, "inner", f) for f in ("managed", "paths", "revision")]
            n[changed] += 1
            if changed:
                lk = [e for e in p.events if e.kind == "call" and LOCK.search(e.name)]
                new = lambda v, f: cell_of(v) is F(slf, f) and re.search(r"Mutex(<.*>)?::new$", call_name(v) or call_name(v.a[1][0]) if call_name(v) else "")
                ok = new(m, "managed") and new(q, "paths") and r is F(slf, "goal_revision") and not lk
            else:
                ok = changed is False and [m, q, r] == old and not [e for e in p.events if e.kind == "store"]
            c.ob("publish", f"changed={changed}", p.end == "return" and bool(ok), f"managed = {show(m)[:70]}, paths = {show(q)[:70]}, revision = {show(r)[:50]}", f"publish|{changed}", p.span)
    c.floor("drops that publish", n[True], 1)
    c.floor("drops that do not", n[False], 1)
    # ------------------------------------------------------------- begin
    for b in anchored(c, r"^Vfs::revise$"):
        ps = c.paths_of(b, events=r"::(lock|read|write)$|next$|OnceLock|RedBlackTreeMap|HashMap|checked_add", cut=".", stores=True)
        it = defaultdict(list)
        for p in ps:
            mine = entry_puts(p)
            for item, lv, s in nexts(p):
                if item is not None and p.ends_loop(lv):
                    it[(lv.a[0], lv.a[1])].append((p, item, s))
            if p.end == "loop":
                n["iterations"] += 1
                item = next((i for i, lv, s in nexts(p) if i is not None and p.ends_loop(lv)), None)
                key, ent = (F(item, "0"), F(item, "1")) if item is not None else (None, None)
                read = [f for v, f in p.facts.items() if re.search(r"OnceLock::get$", call_name(v)) and ent is not None and v.a[1][0] is F(ent, "bytes")]
                kept = read and read[0] == ("eq", "Some")
                if kept:
                    ok = not mine
                else:
                    ok = len(mine) == 1 and mine[0][0] is key and field(mine[0][1], "changed_at") is F(ent, "changed_at") and fresh_cell(field(mine[0][1], "bytes")) and fresh_cell(field(mine[0][1], "source")) and read and read[0] == ("eq", "None")
                c.ob("unread", "read" if kept else "not read", bool(ok), f"{[(show(k)[:40], show(v)[:120]) for k, v in mine]}", f"unread|{bool(kept)}", p.span)
            elif p.end == "diverge":
                c.ob("begin", "overflow", any(re.search(r"checked_add$", call_name(v)) and f == ("eq", "None") for v, f in p.facts.items()), src(p), "begin|diverge", p.span)
            else:
                n["revise"] += 1
                g = lambda f: agg_field(p.ret, f) if p.ret is not None and p.ret.op == "agg" else None
                m, q = g("managed"), g("paths")
                goal_ = g("goal_revision")
                st = [e for e in p.events if e.kind == "store" and isinstance(e.extra, tuple) and (e.extra[0] is slf or e.extra[0].op == "H" and fpath(e.extra[0].a[0])[0] is slf and not fpath(e.extra[0].a[0])[1][:1] == ("managed",))]
                okm = m is not None and fpath(first_field(m, "entries"))[0] is slf and fpath(first_field(m, "entries"))[1][:1] == ("managed",) and locked(first_field(m, "entries"))
                okq = q is not None and fpath(q)[0] is slf and fpath(q)[1] == ("paths",) and locked(q)
                okg = goal_ is not None and goal_.op == "proj" and re.search(r"NonZero(<.*>)?::checked_add$", call_name(base(goal_))) and at(base(goal_).a[1][0], "revision") and const_of(base(goal_).a[1][1]) == 1
                order = [i for i, e in enumerate(p.events) if e.kind == "call" and LOCK.search(e.name)]
                names = [fpath(p.events[i].args[0])[1] for i in order]
                looped = [i for i, e in enumerate(p.events) if re.search(r"Iterator>?::next$", e.name)]
                seq = names == [("managed",), ("paths",)] and (not looped or looped[-1] < order[1])
                c.ob("begin", "tables", p.end == "return" and bool(okm and okq) and g("inner") is slf and const_of(g("view_changed")) == 0 and not st, f"managed {show(m)[:60]}, paths {show(q)[:60]}, view_changed {show(g('view_changed'))[:20]}", "begin|tables", p.span)
                c.ob("begin", "next revision", bool(okg), f"goal {show(goal_)[:80] if goal_ is not None else None}", "begin|goal", p.span)
                whole = any(i is None and re.search(r"RedBlackTreeMap::iter$", call_name(s)) and fpath(s.a[1][0])[1] == ("managed", "entries") for i, lv, s in nexts(p))
                c.ob("unread", "every entry, between the two copies", seq and whole, f"locks {names}, loops over {[show(s)[:60] for _, _, s in nexts(p)]}", "unread|all", p.span)
    c.floor("revisions begun", n["revise"], 1)
    c.floor("entries inspected", n["iterations"], 2)
    # ------------------------------------------------------------- snapshots
    for nm in ("snapshot", "fork"):
        for b in anchored(c, rf"^Vfs::{nm}$"):
            for p in c.paths_of(b, events="."):
                if p.end == "diverge" and const_false(p):
                    continue
                g = lambda f: agg_field(p.ret, f) if p.ret is not None and p.ret.op == "agg" else None
                n[nm] += 1
                same = lambda f: g(f) is F(slf, f)
                ok = p.end == "return" and same("access_model")
                if nm == "snapshot":
                    ok = ok and same("managed") and same("paths") and same("revision")
                else:
                    ok = ok and all(g(f) is not None and new_table(g(f)) for f in ("managed", "paths"))
                c.ob("snapshot", nm, ok, f"{src(p)}: " + ", ".join(f"{f} = {show(g(f))[:50]}" for f in ("managed", "paths", "revision", "access_model") if g(f) is not None), f"snapshot|{nm}", p.span)
        c.floor(nm, n[nm], 1)
    # layers are copied, not shared: a copy of each persistent table
    for b in anchored(c, r"(Overlay|Resolve|Notify)AccessModel as std::clone::Clone>::clone$"):
        for p in c.paths_of(b):
            n["copies"] += 1
            c.ob("snapshot", "copy of a layer", p.end == "return" and (p.ret is SELF or p.ret is not None and p.ret.op == "agg" and all(x is F(SELF, f) for f, x in zip(p.ret.a[3], p.ret.a[4:]))), src(p), "snapshot|copy", p.span)
    c.floor("layers copied", n["copies"], 3)
    # ------------------------------------------------------------- clean
    ids, rev = mk("arg", "file_ids"), mk("arg", "rev")
    for b in anchored(c, r"^Vfs::is_clean_compile$"):
        for p in c.paths_of(b, events=r"RedBlackTreeMap|next$|::lock$", cut=".", stores=True):
            cur = next(((i, s) for i, lv, s in nexts(p) if i is not None), None)
            ended = any(i is None and s is ids for i, lv, s in nexts(p))
            look = [(v, f) for v, f in p.facts.items() if re.search(r"RedBlackTreeMap::(get|get_mut|contains_key)$", call_name(v)) and at(v.a[1][0], "managed", "entries")]
            if cur is None:
                ok = p.end == "return" and ended and const_of(p.ret) == 1
                n["all"] += 1
            else:
                item = cur[0]
                ok = cur[1] is ids and len(look) == 1 and look[0][0].a[1][1] is item
                ent = F(look[0][0], "+Some", "0") if look else None
                newer = None
                for v, f in p.facts.items():
                    if ent is not None and mentions(v, lambda x: x is F(ent, "changed_at")):
                        newer = cmp_holds(v, f, F(ent, "changed_at"), rev)
                bad = look and look[0][1] == ("eq", "None") or newer is True
                if p.end == "loop":
                    n["kept"] += 1
                    ok = ok and look[0][1] == ("eq", "Some") and newer is False
                else:
                    n["dirty"] += 1
                    ok = ok and p.end == "return" and const_of(p.ret) == 0 and bool(bad)
            c.ob("clean", "verdict", bool(ok), f"{p.end} {show(p.ret)[:40] if p.ret is not None else ''}", "clean", p.span)
    c.floor("clean verdicts", n["all"], 1)
    c.floor("dirty verdicts", n["dirty"], 2)


def cmp_holds(v, f, a, b):
    """truth of a > b on a path that decided a comparison of the two; None when undecided"""
    t = f == ("eq", "1") or f == ("ne", "0") if f[0] in ("eq", "ne") else None
    if v.op == "bin":
        op, x, y = v.a[0], v.a[1], v.a[2]
    elif re.search(r"::(gt|lt|ge|le)$", call_name(v)):
        op, x, y = call_name(v)[-2:].capitalize(), v.a[1][0], v.a[1][1]
    else:
        return None
    if (x, y) == (b, a):
        op = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(op)
    elif (x, y) != (a, b):
        return None
    if f not in (("eq", "0"), ("eq", "1")):
        return None
    t = f == ("eq", "1")
    return {"Gt": t, "Le": not t}.get(op)


def entry_puts(p):
    """[(key, entry)] written in any table of entries"""
    out = []
    for e in p.events:
        if e.kind == "call" and re.search(r"RedBlackTreeMap::insert_mut$", e.name) and fpath(e.args[0])[1][-1:] == ("entries",):
            out.append((e.args[1], e.args[2]))
        elif e.kind == "call" and re.search(r"RedBlackTreeMap::(remove_mut|get_mut)$", e.name):
            out.append((e.args[1], e.res))
    return out


def first_field(v, f):
    """field of a value that may have been rebuilt in a loop"""
    x = agg_field(v, f)
    return x if x is not None else F(v, f)


def locked(v):
    return mentions_deep(v, lambda x: bool(LOCK.search(call_name(x))))


def mentions_deep(v, f):
    return any(f(x) for x in walk(v))


def new_table(v):
    v0 = v
    while call_name(v0) and re.search(r"(Arc|Mutex)(<.*>)?::(new|from)$", call_name(v0)):
        v0 = v0.a[1][0]
    if v0.op == "agg":
        return all(no_value(x) for x in v0.a[4:])
    return no_value(v0)


class Shift:
    """the captured values of a closure, as the places of the function that runs it"""


def once_runs(c, p, e, **kw):
    """paths of the closure given to a one-time initialisation, on the values it captures there"""
    P = program(c.which)
    clo = e.args[1]
    if clo.op not in ("clo", "fn") or len(clo.a) < 5:
        return None
    if clo.op == "clo":
        vals = []
        st = e if getattr(e, "mem", None) else p.st
        for x in clo.a[2]:
            if x.op == "ref":
                x = p.interp.resolve(st, p.interp.read(st, x.a))
            vals.append(x)
        clo = mk("clo", clo.a[0], clo.a[1], tuple(vals), *clo.a[3:])
    b = P.bodies.get((clo.a[4], clo.a[3]))
    return None if b is None else c.paths_of(b, args={1: clo}, **kw)


def entry_of(p, v, fid, f):
    """v is the field f of the file table's entry for the id: of the one found, or of the one put in"""
    for g in evs(p, r"RedBlackTreeMap::get_mut$", "call"):
        if at(g.args[0], "managed", "entries") and g.args[1] is fid and v is F(g.res, "+Some", "0", f):
            return True
    for k, d in entry_updates(p).items():
        if k is fid and d.get(f) is v and fresh_cell(v):
            return True
    return False


@check("V04")
def v04(c):
    c.which = 2
    c.rule("once", "content and source of a file come from the one-time cells of its entry in the revision's table, so they are computed once and every reader gets the same")
    c.rule("recorded", "reading a file asks the layers for its id once, records the path it came from in the revision's path table before the content is published, and keeps path, revision and content together")
    c.rule("index", "recording a path lists the file under it, and under no other path")
    c.rule("source", "the source is made of the same content: its text without a byte order mark, an error when that is not UTF-8; parsed anew, or an earlier source of the same file with its text replaced, or the one cached for the same file and the same content")
    c.rule("eviction", "a cached source is dropped only when neither it nor its file was used for more revisions than the threshold")
    fid = {}
    n = defaultdict(int)
    OP = ONCE + r"|AccessModel as .*AccessModel>::content$|PathMap::insert$|^from_utf8_or_bom$"
    for nm, cell in (("read", "bytes"), ("source", "source")):
        for b in anchored(c, rf"^Vfs::{nm}$"):
            ps = c.paths_of(b, events=".", stores=True, opaque=OP, hof=False)
            for p in ps:
                on = evs(p, ONCE, "call")
                ids = [k for k in entry_updates(p)] + [g.args[1] for g in evs(p, r"RedBlackTreeMap::get_mut$")]
                f = ids[0] if ids and ids[0].op == "arg" else None
                ok = p.end == "return" and f is not None and len(on) == 1 and entry_of(p, on[0].args[0], f, cell)
                n[nm] += 1
                r = on[0].res if on else None
                if ok:
                    if on[0].name.endswith("try_init"):
                        r = F(r, "+Ok", "0")
                    ok = p.ret is (F(r, "2") if nm == "read" else r)
                c.ob("once", nm, bool(ok), f"returns {show(p.ret)[:120] if p.ret is not None else None}", f"once|{nm}", p.span)
                if not on:
                    continue
                qs = once_runs(c, p, on[0], events=".", stores=True, opaque=OP, cut=".", hof=False, drops=r"Ref(Mut)?<|Guard")
                if qs is None:
                    c.ob("once", f"{nm}: initialisation", False, f"is given {show(on[0].args[1])[:80]}", f"once|{nm}|clo", p.span)
                    continue
                for q in qs:
                    if nm == "read":
                        content(c, q, f, n)
                    else:
                        made(c, p, q, f, n, OP)
    for nm, k in (("read", 2), ("source", 2), ("contents with a path", 1), ("contents without", 1), ("invalid text", 1), ("replaced", 1), ("parsed", 1), ("cached", 1), ("read errors", 1), ("bytes cells", 2), ("uses", 4)):
        c.floor(nm, n[nm], k)
    # ------------------------------------------------------------- text
    buf = mk("arg", "buf")
    for b in anchored(c, r"^from_utf8_or_bom$"):
        for p in c.paths_of(b, events="."):
            u = [v for v in list(p.facts) + [e.res for e in p.events if e.kind == "call"] if re.search(r"str::from_utf8$", call_name(v))]
            bom = [(v, f) for v, f in p.facts.items() if re.search(r"::(starts_with|strip_prefix)$", call_name(v))]
            ok = bool(u) and len(bom) == 1 and bom[0][0].a[1][0] is buf and is_bom(bom[0][0].a[1][1])
            if ok:
                yes = bom[0][1] in (("eq", "1"), ("eq", "Some"))
                a = u[0].a[1][0]
                ok = (after3(a, buf) or a is F(bom[0][0], "+Some", "0")) if yes else a is buf
                rv = p.variant(p.ret)
                ok = ok and rv == p.variant(u[0]) and (rv != "Ok" or payload(p.ret, "Ok") is F(u[0], "+Ok", "0"))
            n["text"] += 1
            c.ob("source", "text", bool(ok), src(p), "source|text", p.span)
    c.floor("texts", n["text"], 4)
    # ------------------------------------------------------------- index
    nx, id_, rev = mk("arg", "next"), mk("arg", "fid"), mk("arg", "rev")
    for b in anchored(c, r"PathMap::insert$"):
        for p in c.paths_of(b, events=r"HashMap|EcoVec|hash_map|PartialEq", stores=True):
            pu = evs(p, r"EcoVec(<.*>)?::push$")
            listed = lambda e: e.args[1] is id_ and any(x.a[1][1] is nx for x in calls_in(e.args[0], r"HashMap::(entry|get_mut)$")) and any(fpath(x.a[1][0])[1] == ("paths",) for x in calls_in(e.args[0], r"HashMap::(entry|get_mut)$"))
            ent = next((v for v in p.facts if re.search(r"HashMap::(entry|get|get_mut)$", call_name(v)) and fpath(v.a[1][0])[1] == ("file_ids",) and v.a[1][1] is id_), None)
            st = {"Occupied": "old", "Vacant": "new", "Some": "old", "None": "new"}.get(p.facts.get(ent, (0, 0))[1] if ent is not None else None)
            same = None
            for v, f in p.facts.items():
                if re.search(r"PartialEq>?::(ne|eq)$", call_name(v)) and any(x is nx for x in v.a[1]) and f[0] == "eq":
                    same = (f[1] == "1") == call_name(v).endswith("::eq")
                elif v.op == "bin" and v.a[0] in ("Eq", "Ne") and any(x is nx for x in v.a[1:3]) and f[0] == "eq":
                    same = (f[1] == "1") == (v.a[0] == "Eq")
            ret = evs(p, r"EcoVec(<.*>)?::retain$|EcoVec(<.*>)?::remove$")
            if st == "new":
                ins = [e for e in evs(p, r"(VacantEntry|HashMap)::insert$")]
                ok = len(pu) == 1 and listed(pu[0]) and len(ins) == 1 and ins[0].args[-1].op == "agg" and ins[0].args[-1].a[4:] == (nx, rev) and not ret
            elif st == "old" and same:
                ok = not pu and not ret and not [e for e in p.events if e.kind == "store"]
            else:
                w = [e for e in p.events if e.kind == "store" and e.res is nx]
                gone = any(re.search(r"HashMap::get_mut$", call_name(v)) and f == ("eq", "None") for v, f in p.facts.items())
                ok = st == "old" and same is False and len(pu) == 1 and listed(pu[0]) and len(w) == 1 and (gone and not ret or len(ret) == 1 and drops(c, p, ret[0], id_))
            n["index"] += 1
            c.ob("index", f"{st}", p.end == "return" and bool(ok), f"same={same}: {[e.name for e in pu + ret]}", f"index|{st}|{same}", p.span)
    c.floor("records", n["index"], 4)
    # ------------------------------------------------------------- eviction
    cur, thr = mk("arg", "curr"), mk("arg", "threshold")
    for b in anchored(c, r"^SourceCache::evict$"):
        for p in c.paths_of(b, events="retain$", hof=False):
            for e in evs(p, r"retain$", "call"):
                for q in once_runs(c, p, e, events="retain$", hof=False) or ():
                    keep = const_of(q.ret)
                    inner = evs(q, r"retain$", "call")
                    old = [unused(v, f, cur, thr) for v, f in q.facts.items()]
                    old = [x for x in old if x is not None]
                    n["evict"] += 1
                    c.ob("eviction", "file", q.end == "return" and old == [keep == 0], f"keep = {show(q.ret)[:40]}, unused = {old}", "eviction|file", q.span)
                    for x in inner:
                        for r in once_runs(c, q, x, events="x", hof=False) or ():
                            n["evict entry"] += 1
                            o = unused(r.ret, ("eq", "0"), cur, thr)
                            if o is None and const_of(r.ret) is not None:
                                os_ = [y for y in (unused(v, f, cur, thr) for v, f in r.facts.items()) if y is not None]
                                o = os_ == [const_of(r.ret) == 0]
                            c.ob("eviction", "source", bool(o), f"keeps when {show(r.ret)[:100]}", "eviction|entry", r.span)
    c.floor("evictions", n["evict"], 2)
    c.floor("evicted sources", n["evict entry"], 1)


def unused(v, f, cur, thr):
    """a comparison of curr - last_accessed_rev with the threshold: True when the path takes 'unused for longer'"""
    if v.op in ("not", "un"):
        return unused(v.a[-1], ("eq", {"0": "1", "1": "0"}.get(f[1])), cur, thr)
    if v.op != "bin" or f not in (("eq", "0"), ("eq", "1")):
        return None
    op, x, y = v.a[0], v.a[1], v.a[2]
    if x is thr:
        op, x, y = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(op), y, x
    if y is not thr or not re.search(r"saturating_sub$", call_name(x)):
        return None
    g, l = x.a[1]
    num = lambda z: z.a[1][0] if re.search(r"NonZero(<.*>)?::get$", call_name(z)) else z
    if num(g) is not cur or fpath(num(l))[1][-1:] != ("last_accessed_rev",):
        return None
    return {"Gt": f[1] == "1", "Le": f[1] == "0"}.get(op)


def drops(c, p, e, fid):
    """a retain that drops exactly the id"""
    if not e.name.endswith("retain"):
        return False
    qs = once_runs(c, p, e, events="x")
    return bool(qs) and all(q.end == "return" and keeps_others(q, fid) for q in qs)


def keeps_others(q, fid):
    v = q.ret
    if v.op == "bin" and v.a[0] == "Ne":
        return any(x is fid for x in v.a[1:3])
    if re.search(r"PartialEq>?::ne$", call_name(v)):
        return any(x is fid for x in v.a[1])
    if v.op in ("un", "not"):
        w = v.a[-1]
        return bool(re.search(r"PartialEq>?::eq$", call_name(w))) and any(x is fid for x in w.a[1]) or w.op == "bin" and w.a[0] == "Eq" and any(x is fid for x in w.a[1:3])
    return False


def is_bom(v):
    return show(v).replace("\\\\", "\\") in ("{'bytes': '\\ufeff'}", "'\\ufeff'", "{'bytes': '\\xef\\xbb\\xbf'}") or "[239, 187, 191]" in show(v)


def after3(a, buf):
    if re.search(r"Index>?::index$", call_name(a)) and a.a[1][0] is buf:
        r = a.a[1][1]
        return r.op == "agg" and r.a[3] == ("start",) and const_of(r.a[4]) == 3
    return a.op == "proj" and a.a[0] is buf and "3" in str(a.a[1])


def content(c, q, fid, n):
    """one way to initialise the content cell of a file"""
    r = evs(q, r"AccessModel>::content$", "call")
    ok = q.end == "return" and len(r) == 1 and at(r[0].args[0], "access_model") and r[0].args[1] is fid
    path = F(r[0].res, "0") if r else None
    some = q.variant(path) if path is not None else None
    ins = evs(q, r"PathMap::insert$", "call")
    n["contents with a path" if some == "Some" else "contents without"] += 1
    if some == "Some":
        ok = ok and len(ins) == 1 and at(ins[0].args[0], "paths") and locked(ins[0].args[0]) and ins[0].args[1] is F(path, "+Some", "0") and ins[0].args[2] is fid and at(ins[0].args[3], "revision")
    else:
        ok = ok and some == "None" and not ins
    t = q.ret
    if ok:
        if t.op == "agg" and t.a[0] == "adt" and t.a[2] == "Ok":
            t = t.a[4]
        ok = t.op == "agg" and t.a[0] == "tuple" and (t.a[4] is path or q.variant(t.a[4]) == some and (some == "None" or payload(t.a[4], "Some") is F(path, "+Some", "0"))) and goal_of(t.a[5]) and t.a[6] is F(r[0].res, "1")
    c.ob("recorded", f"path {some}", bool(ok), f"keeps {show(q.ret)[:120] if q.ret is not None else q.end}; recorded {[show(a)[:50] for e in ins for a in e.args]}", f"recorded|{some}", q.span)


def bumped(q, holder):
    """the holder's last use is at least the revision of the file system at the end of the path"""
    x = F(holder, "last_accessed_rev")
    isrev = lambda v: at(v, "revision") or goal_of(v)
    for e in q.events:
        if e.kind == "store" and isinstance(e.extra, tuple) and e.extra[1][-1:] == (("f", "last_accessed_rev"),) and e.extra[0].op == "H" and stripped(e.extra[0].a[0]) is stripped(holder) and (isrev(e.res) or call_name(e.res).endswith("max") and any(isrev(y) for y in e.res.a[1])):
            return True
    for e in q.events:
        if e.kind == "drop" and stripped(e.args[0]) is stripped(holder) and isrev(field(e.args[0], "last_accessed_rev")):
            return True
    for v, f in q.facts.items():
        lt = None
        if v.op == "bin":
            lt = (v.a[0], v.a[1], v.a[2])
        elif re.search(r"PartialOrd>?::(lt|ge|gt|le)$", call_name(v)):
            lt = (call_name(v)[-2:].capitalize(), v.a[1][0], v.a[1][1])
        if lt is None or f[0] != "eq":
            continue
        op, a, b = lt
        if isrev(a):
            op, a, b = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(op), b, a
        if isrev(b) and F(stripped(a.a[0]), "last_accessed_rev") is F(stripped(holder), "last_accessed_rev") if a.op == "proj" and a.a[1] == ("f", "last_accessed_rev") else False:
            if (op, f[1]) in (("Lt", "0"), ("Ge", "1"), ("Gt", "1")):
                return True
    return False


def stripped(v):
    """without the calls that may have changed it, and guards"""
    while True:
        if v.op == "mut":
            v = v.a[2] if len(v.a) > 2 and isinstance(v.a[2], V) else v.a[0]
        elif v.op == "upd":
            v = v.a[0]
        else:
            return v


def base_opt(v, arg):
    """v is what the value at arg became by a call that changed it"""
    while v.op == "mut":
        v = v.a[2] if len(v.a) > 2 and isinstance(v.a[2], V) else v.a[0]
    if re.search(r"Source::replace$", call_name(v)):
        v = v.a[1][0]
    return v is arg


def goal_of(v):
    return bool(re.search(r"NonZero(<.*>)?::get$", call_name(v))) and at(v.a[1][0], "revision")


def made(c, p0, q, fid, n, OP):
    """one way to initialise the source cell of a file"""
    on = evs(q, ONCE, "call")
    n["bytes cells"] += 1
    cell = on[0].args[0] if on else None
    ok = q.end == "return" and len(on) == 1 and entry_of(p0, cell, fid, "bytes")
    c.ob("source", "from the file's content", bool(ok), f"reads {show(cell)[:80] if cell is not None else None}", "source|cell", q.span)
    if not ok:
        return
    for r in once_runs(c, q, on[0], events=".", stores=True, opaque=OP, cut=".", hof=False) or [None]:
        if r is None:
            c.ob("recorded", "initialisation", False, "not a closure", "recorded|clo", q.span)
        else:
            content(c, r, fid, n)
    res = on[0].res
    data = F(F(res, "+Ok", "0") if on[0].name.endswith("try_init") else res, "2")
    okd = F(data, "+Ok", "0")
    rv = q.variant(q.ret)
    if q.variant(data) == "Err":
        n["read errors"] += 1
        c.ob("source", "unreadable", rv == "Err" and payload(q.ret, "Err") is F(data, "+Err", "0"), f"gives {show(q.ret)[:100]}", "source|unreadable", q.span)
        return
    # the file's shard of the cache
    shard = [e for e in q.events if e.kind == "call" and re.search(r"(entry|get|get_mut)$", e.name) and re.search(r"CHashMap|DashMap", e.name)]
    oks = all(fpath(e.args[0])[1] == ("source_cache", "cache_entries") and e.args[1] is fid for e in shard)
    look = [e for e in evs(q, r"HashMap::(get|get_mut|entry)$", "call") if fpath(e.args[0])[1][-1:] == ("sources",)]
    oks = oks and all(e.args[1] is okd for e in look)
    c.ob("source", "cache keyed by file and content", oks, f"looks up {[(show(e.args[0])[-40:], show(e.args[1])[:60]) for e in shard + look]}", "source|keys", q.span)
    n["uses"] += 1
    held = [e.res for e in q.events if e.kind == "call" and re.search(r"(or_default|or_insert(_with)?)$", e.name) and any(x in [y.res for y in shard] for x in calls_in(e.args[0], r"entry$"))]
    c.ob("eviction", "the file is used", any(bumped(q, x) for x in held), "the file's last use is not this revision", "eviction|used|file", q.span)
    of = [F(e.res, "+Some", "0") for e in look if re.search(r"get(_mut)?$", e.name) and q.variant(e.res) == "Some"]
    of += [e.res for e in evs(q, r"hash_map::Entry::or_insert(_with)?$", "call") if any(x in [y.res for y in look] for x in calls_in(e.args[0], r"entry$"))]
    c.ob("eviction", "the source is used", any(bumped(q, x) for x in of), "the source's last use is not this revision", "eviction|used|source", q.span)
    hits = [e.res for e in look if re.search(r"get(_mut)?$", e.name) and q.variant(e.res) == "Some"]
    if hits:
        n["cached"] += 1
        st = [e for e in q.events if e.kind == "store" and e.name.endswith("source")]
        c.ob("source", "cached", q.ret is F(hits[0], "+Some", "0", "source") and not st, f"gives {show(q.ret)[:100]}", "source|cached", q.span)
        return
    u = evs(q, r"^from_utf8_or_bom$", "call")
    ok = len(u) == 1 and u[0].args[0] is okd
    text = F(u[0].res, "+Ok", "0") if u else None
    kept = [e for e in q.events if e.kind == "store" and e.name.endswith("recent_source")]
    if ok and q.variant(u[0].res) == "Err":
        n["invalid text"] += 1
        c.ob("source", "not UTF-8", rv == "Err" and agg_variant(payload(q.ret, "Err")) == "InvalidUtf8" and not kept, f"gives {show(q.ret)[:100]}", "source|utf8", q.span)
        val = q.ret
    else:
        val = payload(q.ret, "Ok")
        new = re.search(r"Source::new$", call_name(val))
        rep = evs(q, r"Source::replace$", "call")
        if new:
            n["parsed"] += 1
            ok = ok and val.a[1][0] is fid and val.a[1][1] is text and not rep
        else:
            n["replaced"] += 1
            ok = ok and len(rep) == 1 and rep[0].args[1] is text and base_opt(val, rep[0].args[0]) and any(rep[0].args[0] is F(e.res, "recent_source", "+Some", "0") for e in q.events if e.kind == "call" and re.search(r"or_default$|or_insert", e.name) and any(x in [y.res for y in shard] for x in calls_in(e.args[0], r"entry$")))
        ok = ok and rv == "Ok" and all(agg_variant(e.res) == "Some" and payload(e.res, "Some") is val for e in kept)
        c.ob("source", "parsed" if new else "replaced", bool(ok), f"gives {show(q.ret)[:140]}", f"source|{'new' if new else 'replace'}", q.span)
    for e in evs(q, r"hash_map::Entry::(or_insert|or_insert_with|insert_entry)$|HashMap::insert$", "call"):
        if not any(fpath(x.a[1][0])[1][-1:] == ("sources",) for x in calls_in(e.args[0], r"HashMap::entry$")):
            continue
        a = e.args[-1]
        if a.op == "clo":
            rs = once_runs(c, q, e, events="x")
            a = rs[0].ret if rs and len(rs) == 1 else a
        s_ = agg_field(a, "source") if a.op == "agg" else None
        n["stored"] += 1
        c.ob("source", "stored", s_ is not None and (s_ is q.ret or q.variant(s_) == rv and payload(s_, rv) is payload(q.ret, rv)), f"stores {show(a)[:120]}", "source|stored", q.span)


@check("V05")
def v05(c):
    c.which = 2
    c.rule("contained", "a file gets a path only as its virtual path resolved inside its workspace or its package's root; one that leaves the root is refused")
    c.rule("rootless", "a file without a root, and an untitled one, has no path on disk")
    c.rule("errors", "an id that cannot be resolved, or a package that cannot be found, gives that error")
    c.rule("kinds", "ids of the workspace namespace name a workspace, titled or not by their version, an unknown one being an error; other namespaces are packages; no package means no root")
    fid = mk("arg", "file_id")
    n = defaultdict(int)
    for nm in ("path_for_id", "resolve_root"):
        for b in anchored(c, rf"RootResolver::{nm}$"):
            for p in c.paths_of(b, events=".", opaque=r"WorkspaceResolver::resolve$|WorkspaceId::path$|resolve_package_root$"):
                r = evs(p, r"WorkspaceResolver::resolve$", "call")
                ok = len(r) == 1 and r[0].args[0] is fid
                v = r[0].res if r else None
                kind = "Err" if ok and p.variant(v) == "Err" else p.variant(F(v, "+Ok", "0")) if ok else None
                n[nm, kind] += 1
                if p.end == "diverge":
                    pk = [(x, f) for x, f in p.facts.items() if re.search(r"FileId::package$", call_name(x))]
                    c.ob("errors", "panics only when a package file has no package", kind == "Package" and any(f == ("eq", "None") for _, f in pk), src(p), f"panic|{nm}", p.span)
                    continue
                rv = p.variant(p.ret)
                root = None
                if kind == "Err":
                    c.ob("errors", f"{nm}: unresolved", rv == "Err" and payload(p.ret, "Err") is F(v, "+Err", "0"), src(p), f"errors|{nm}|id", p.span)
                    continue
                k = F(v, "+Ok", "0")
                if kind == "Package":
                    g = evs(p, r"resolve_package_root$", "call")
                    spec = lambda x: x.op == "proj" and re.search(r"FileId::package$", call_name(base_some(x))) and base_some(x).a[1][0] is fid
                    ok = len(g) == 1 and spec(g[0].args[1])
                    if ok and p.variant(g[0].res) == "Err" or ok and g[0].res is p.ret:
                        c.ob("errors", f"{nm}: package", g[0].res is p.ret or rv == "Err" and payload(p.ret, "Err") is F(g[0].res, "+Err", "0"), src(p), f"errors|{nm}|pkg", p.span)
                        continue
                    root = F(g[0].res, "+Ok", "0") if ok else None
                elif kind in ("Workspace", "UntitledRooted"):
                    w = evs(p, r"WorkspaceId::path$", "call")
                    root = w[0].res if len(w) == 1 and w[0].args[0] is F(k, "+" + kind, "0") else None
                if nm == "resolve_root":
                    got = payload(p.ret, "Ok")
                    ok = rv == "Ok" and (p.variant(got) == "None" if kind == "Rootless" else root is not None and p.variant(got) == "Some" and payload(got, "Some") is root)
                    c.ob("contained" if kind != "Rootless" else "rootless", f"root of {kind}", bool(ok), src(p), f"root|{kind}", p.span)
                    continue
                if kind in ("Rootless", "UntitledRooted"):
                    got = payload(p.ret, "Ok")
                    ok = rv == "Ok" and agg_variant(got) == "Rootless" and mentions(got, lambda x: bool(re.search(r"FileId::vpath$", call_name(x))) and x.a[1][0] is fid)
                    c.ob("rootless", f"{kind}", ok, src(p), f"rootless|{kind}", p.span)
                    continue
                t = [e for e in p.events if e.kind == "call" and re.search(r"VirtualPath::resolve$", e.name)]
                ok = len(t) == 1 and re.search(r"FileId::vpath$", call_name(t[0].args[0])) and t[0].args[0].a[1][0] is fid and t[0].args[1] is root
                if ok and p.variant(t[0].res) == "Some":
                    got = payload(p.ret, "Ok")
                    ok = rv == "Ok" and agg_variant(got) == "Resolved" and payload(got, "Resolved") is F(t[0].res, "+Some", "0")
                    n["inside"] += 1
                else:
                    ok = ok and p.variant(t[0].res) == "None" and rv == "Err" and agg_variant(payload(p.ret, "Err")) == "AccessDenied"
                    n["outside"] += 1
                c.ob("contained", f"{kind}", bool(ok), src(p), f"contained|{kind}", p.span)
    for nm in ("path_for_id", "resolve_root"):
        for k in ("Err", "Package", "Workspace", "UntitledRooted", "Rootless"):
            c.floor(f"{nm} of {k}", n[nm, k], 1)
    c.floor("inside the root", n["inside"], 2)
    c.floor("outside the root", n["outside"], 2)
    f = mk("arg", "fid")
    for b in anchored(c, r"^path_mapper::WorkspaceResolver::resolve$"):
        for p in c.paths_of(b, events=".", opaque=r"from_package_name$"):
            if fmt_fails(p):
                continue
            if p.end != "return":
                c.ob("kinds", "answers", False, src(p), "kinds|end", p.span)
                continue
            pk = next((v for v in p.facts if re.search(r"FileId::package$", call_name(v)) and v.a[1][0] is f), None)
            g = evs(p, r"from_package_name$", "call")
            rv = p.variant(p.ret)
            got = payload(p.ret, "Ok")
            if pk is None or p.variant(pk) != "Some":
                ok, w = pk is not None and p.variant(pk) == "None" and rv == "Ok" and agg_variant(got) == "Rootless", "no package"
            else:
                spec = F(pk, "+Some", "0")
                ns = [(v, x) for v, x in p.facts.items() if mentions(v, lambda y: y is F(spec, "namespace")) and x[0] == "eq"]
                isws = [x[1] == "1" for v, x in ns if "'ws'" in show(v) or '"ws"' in show(v) or "WORKSPACE_NS" in show(v)]
                if not isws or not isws[0]:
                    ok, w = bool(isws) and len(ns) == 1 and rv == "Ok" and agg_variant(got) == "Package", "other namespace"
                elif len(g) == 1 and mentions(g[0].args[0], lambda y: y is F(spec, "name")) and p.variant(g[0].res) == "Some":
                    id_ = F(g[0].res, "+Some", "0")
                    un = untitled(p, spec)
                    ok, w = rv == "Ok" and un is not None and agg_variant(got) == ("UntitledRooted" if un else "Workspace") and got.a[4] is id_, f"workspace, untitled={un}"
                else:
                    ok, w = len(g) == 1 and mentions(g[0].args[0], lambda y: y is F(spec, "name")) and p.variant(g[0].res) == "None" and rv == "Err", "unknown workspace"
            n[w] += 1
            c.ob("kinds", w, bool(ok), src(p), f"kinds|{w}", p.span)
    for w in ("no package", "other namespace", "workspace, untitled=True", "workspace, untitled=False", "unknown workspace"):
        c.floor(w, n[w], 1)


def base_some(x):
    while x.op == "proj":
        x = x.a[0]
    return x


def version(v):
    """(major, minor, patch) of a constant version"""
    k = const_of(v)
    if isinstance(k, dict) and set(k) == {"major", "minor", "patch"}:
        return (k["major"], k["minor"], k["patch"])
    x = [const_of(agg_field(v, f)) if v.op == "agg" else None for f in ("major", "minor", "patch")]
    return tuple(x) if None not in x else None


def untitled(p, spec):
    """whether the version of the spec equals 0.0.1 on this path"""
    got = {}
    for v, f in p.facts.items():
        if f[0] != "eq":
            continue
        a = v.a[1:3] if v.op == "bin" and v.a[0] in ("Eq", "Ne") else v.a[1] if re.search(r"PartialEq>?::(eq|ne)$", call_name(v)) else None
        if not a:
            continue
        pos = f[1] == "1"
        if v.op == "bin" and v.a[0] == "Ne" or call_name(v).endswith("::ne"):
            pos = not pos
        for x, y in (a, a[::-1]):
            if x is F(spec, "version"):
                z = version(y)
                if z == (0, 0, 1) or "UNTITLED_ROOT" in show(y):
                    return pos
            for i, fl in enumerate(("major", "minor", "patch")):
                if x is F(spec, "version", fl) and const_of(y) == (0, 0, 1)[i]:
                    got[fl] = pos
    if any(v is False for v in got.values()):
        return False
    return True if len(got) == 3 else None


@check("V06")
def v06(c):
    c.which = 2
    c.rule("one id", "a root gets an id once: a root already known, as given or in its clean form, gets the id it has; a new one gets the next number, under which exactly its clean form is kept")
    c.rule("lookup", "the path of an id is the root kept under its number, and only numbers that were given out are ids")
    c.rule("names", "an id's package is named after its number in the workspace namespace, so that parsing the name gives the id back; titled and untitled files differ in the version")
    c.rule("files", "files get the id of the root they are created with, or none without one")
    root, path = mk("arg", "root"), mk("arg", "path")
    n = defaultdict(int)
    tbl = lambda v, f: fpath(v)[1][-1:] == (f,) and "INTERNER" in show(v)
    for b in anchored(c, r"WorkspaceResolver::workspace_id$"):
        for p in c.paths_of(b, events=r"HashMap|Vec|::(read|write|lock)$|try_into|TryFrom|clean$|::push", stores=True):
            isclean = lambda v: bool(re.search(r"PathClean>?::clean$|::clean$", call_name(v))) and v.a[1][0] is root
            get = [e for e in evs(p, r"HashMap(<.*>)?::(get|entry)$", "call") if tbl(e.args[0], "to_id")]
            hit = [e for e in get if p.variant(e.res) == "Some"]
            put = [e for e in evs(p, r"HashMap(<.*>)?::insert$|VacantEntry::insert$", "call")]
            push = [e for e in evs(p, r"Vec(<.*>)?::push$", "call") if tbl(e.args[0], "from_id")]
            lk = evs(p, r"RwLock(<.*>)?::write$|Mutex(<.*>)?::lock$", "call")
            if hit:
                n["known"] += 1
                ok = p.end == "return" and not put and not push and (hit[0].args[1] is root or isclean(hit[0].args[1])) and idv(p.ret) is idv(F(hit[0].res, "+Some", "0"))
                c.ob("one id", "known", ok, src(p), "one|known", p.span)
            elif p.end == "return":
                n["new"] += 1
                looked = any(isclean(e.args[1]) for e in get)
                ok = len(put) == 1 and len(push) == 1 and looked and len(lk) == 1 and isclean(push[0].args[1]) and isclean(put[0].args[-2]) and idv(put[0].args[-1]) is idv(p.ret) and numbered(p.ret)
                c.ob("one id", "new", bool(ok), f"looks up {[show(e.args[1])[:50] for e in get]}, keeps {[show(e.args[-2])[:50] for e in put]} as {show(p.ret)[:80]}", "one|new", p.span)
            else:
                n["full"] += 1
                c.ob("one id", "no id left", not put and not push and any(re.search(r"try_into$|try_from$", call_name(v)) and f == ("eq", "Err") for v, f in p.facts.items()), src(p), "one|full", p.span)
    c.floor("known roots", n["known"], 1)
    c.floor("new roots", n["new"], 1)
    for b in fn_by(program(2), r"path_mapper::(Workspace|INTERNER|Resolving)|<path_mapper::", VFS):
        if not helper_of(program(2), b, r"workspace_id(::|$)"):
            for p in c.paths_of(b, events=r"(RwLock|Mutex)(<.*>)?::(write|lock)$", opaque=r"workspace_id$"):
                w = [e for e in p.events if "INTERNER" in show(e.args[0])]
                n["elsewhere"] += 1
                c.ob("one id", "the tables are written nowhere else", not w, b.name, f"one|writer|{b.name}", p.span)
    c.floor("other users of the tables", n["elsewhere"], 8)
    slf = SELF
    for b in anchored(c, r"WorkspaceId::path$"):
        for p in c.paths_of(b, events=r"get$"):
            g = [e for e in p.events if re.search(r"::get$|index$", e.name) and tbl(e.args[0], "from_id")]
            num = F(slf, "0")
            ok = len(g) == 1 and uncast(g[0].args[1]) is num
            if p.end == "return":
                n["path"] += 1
                ok = ok and (p.ret is F(g[0].res, "+Some", "0") or p.ret is g[0].res)
            else:
                ok = ok and p.variant(g[0].res) == "None"
            c.ob("lookup", f"path: {p.end}", bool(ok), src(p), f"lookup|{p.end}", p.span)
    name = mk("arg", "name")
    for b in anchored(c, r"WorkspaceId::from_package_name$"):
        for p in c.paths_of(b, events=r"parse|len$|starts_with|strip_prefix|index"):
            pre = [(v, f) for v, f in p.facts.items() if re.search(r"str::(starts_with|strip_prefix)$", call_name(v)) and v.a[1][0] is name and text_is(v.a[1][1], "p")]
            par = [(v, f) for v, f in p.facts.items() if re.search(r"str::parse$|from_str$", call_name(v))]
            yes = pre and pre[0][1] in (("eq", "1"), ("eq", "Some"))
            rv = p.variant(p.ret)
            if rv == "Some":
                n["parsed"] += 1
                rest = par and (par[0][0].a[1][0] is F(pre[0][0], "+Some", "0") or rest1(par[0][0].a[1][0], name)) if pre else False
                num = F(par[0][0], "+Ok", "0") if par else None
                known = any(in_range(v, f, num, tbl) for v, f in p.facts.items())
                ok = yes and rest and par[0][1] == ("eq", "Ok") and idv(payload(p.ret, "Some")) is num and known
                c.ob("lookup", "known number", bool(ok), f"{src(p)}; within the table: {known}", "lookup|known", p.span)
            else:
                n["refused"] += 1
                bad = not yes or par and par[0][1] == ("eq", "Err") or any(in_range(v, ("eq", {"0": "1", "1": "0"}.get(f[1])), F(par[0][0], "+Ok", "0"), tbl) for v, f in p.facts.items())
                c.ob("lookup", "refused", p.end == "return" and rv == "None" and bool(pre) and bool(bad), src(p), "lookup|refused", p.span)
    c.floor("names parsed", n["parsed"], 1)
    c.floor("names refused", n["refused"], 3)
    vs = {}
    for nm in ("package", "untitled_root"):
        for b in anchored(c, rf"WorkspaceId::{nm}$"):
            for p in c.paths_of(b, events="."):
                if fmt_fails(p):
                    continue
                g = lambda f: agg_field(p.ret, f) if p.ret is not None and p.ret.op == "agg" else None
                ns, nn, ver = g("namespace"), g("name"), g("version")
                fm = nn is not None and shown_as(p, nn, "p", F(slf, "0"))
                ws = ns is not None and ("WORKSPACE_NS" in show(ns) or "'ws'" in show(ns) or '"ws"' in show(ns))
                vs[nm] = version(ver) or show(ver)[:60] if ver is not None else None
                n["names"] += 1
                c.ob("names", nm, p.end == "return" and ws and fm, f"namespace {show(ns)[:60] if ns is not None else None}, name {show(nn)[:100] if nn is not None else None}", f"names|{nm}", p.span)
    c.ob("names", "versions", len(vs) == 2 and None not in vs.values() and vs["package"] != vs["untitled_root"] and (vs["untitled_root"] == (0, 0, 1) or "UNTITLED_ROOT" in str(vs["untitled_root"])), f"{vs}", "names|versions")
    for nm, mkid in (("workspace_file", "package"), ("rooted_untitled", "untitled_root"), ("file_with_parent_root", "package"), ("rootless_file", None)):
        for b in anchored(c, rf"WorkspaceResolver::{nm}$"):
            for p in c.paths_of(b, events=".", opaque=r"WorkspaceResolver::workspace_id$|WorkspaceId::(package|untitled_root)$"):
                v = p.ret
                w = evs(p, r"WorkspaceResolver::workspace_id$", "call")
                if nm == "file_with_parent_root":
                    if p.variant(v) == "None":
                        n["no parent"] += 1
                        c.ob("files", f"{nm}: none", p.end == "return" and any(re.search(r"Path::(is_absolute|parent|file_name)$", call_name(x)) and x.a[1][0] is path and f in (("eq", "0"), ("eq", "None")) for x, f in p.facts.items()), src(p), f"files|{nm}|none", p.span)
                        continue
                    v = payload(v, "Some")
                if not (v is not None and re.search(r"FileId::new$", call_name(v))):
                    c.ob("files", nm, False, src(p), f"files|{nm}", p.span)
                    continue
                a, q = v.a[1]
                n[nm] += 1
                rooted = p.variant(root) if nm in ("workspace_file", "rooted_untitled") else "Some" if mkid and nm == "file_with_parent_root" else "None"
                if rooted == "Some":
                    m = payload(a, "Some")
                    ok = p.variant(a) == "Some" and re.search(rf"WorkspaceId::{mkid}$", call_name(m)) and len(w) == 1 and base_ref(m.a[1][0]) is w[0].res
                    if nm == "file_with_parent_root":
                        par = next((x for x in p.facts if re.search(r"Path::parent$", call_name(x)) and x.a[1][0] is path), None)
                        fn = next((x for x in p.facts if re.search(r"Path::file_name$", call_name(x)) and x.a[1][0] is path), None)
                        ok = ok and par is not None and w[0].args[0] is F(par, "+Some", "0") and fn is not None and re.search(r"VirtualPath::new$", call_name(q)) and q.a[1][0] is F(fn, "+Some", "0")
                    else:
                        ok = ok and w[0].args[0] is F(root, "+Some", "0") and q is path
                else:
                    ok = rooted == "None" and p.variant(a) == "None" and q is path and not w
                c.ob("files", f"{nm}: root {rooted}", bool(ok), src(p), f"files|{nm}|{rooted}", p.span)
    for nm, k in (("workspace_file", 2), ("rooted_untitled", 2), ("file_with_parent_root", 1), ("rootless_file", 1), ("no parent", 2)):
        c.floor(nm, n[nm], k)


def idv(v):
    """the number inside an id"""
    return v.a[4] if v.op == "agg" and v.a[1].endswith("WorkspaceId") else F(v, "0") if v.op == "proj" or v.op in ("call",) else v


def uncast(v):
    while v.op == "cast" or re.search(r"From>?::from$|Into>?::into$", call_name(v)):
        v = v.a[1] if v.op == "cast" else v.a[1][0]
    return v


def numbered(v):
    """the id made of the number of roots known so far"""
    x = idv(v)
    if x.op == "proj":
        x = base_some(x)
    return bool(re.search(r"try_into$|try_from$", call_name(x))) and bool(re.search(r"Vec(<.*>)?::len$", call_name(x.a[1][0]))) and fpath(x.a[1][0].a[1][0])[1][-1:] == ("from_id",)


def text_is(v, s):
    return show(v).strip("'\"") == s or const_of(v) == s or len(s) == 1 and const_of(v) == ord(s)


def rest1(v, name):
    return bool(re.search(r"Index>?::index$", call_name(v))) and v.a[1][0] is name and v.a[1][1].op == "agg" and v.a[1][1].a[3] == ("start",) and const_of(v.a[1][1].a[4]) == 1


def in_range(v, f, num, tbl):
    """the comparison holds that the number is below the count of roots"""
    if v.op != "bin" or f not in (("eq", "0"), ("eq", "1")):
        return False
    op, x, y = v.a[0], v.a[1], v.a[2]
    if uncast(y) is num:
        op, x, y = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(op), y, x
    return uncast(x) is num and bool(re.search(r"Vec(<.*>)?::len$", call_name(y))) and tbl(y.a[1][0], "from_id") and (op, f[1]) in (("Lt", "1"), ("Ge", "0"))


def base_ref(v):
    return v


def shown_as(p, v, prefix, num):
    """v is the text of the prefix and the number"""
    for x in walk(v):
        parts = fmt_parts(x)
        if parts is not None:
            return len(parts) == 2 and parts[0] == prefix and parts[1][0] == "arg" and parts[1][1] is num and parts[1][2] == "display" and not any(y.op == "const" and isinstance(const_of(y), str) and const_of(y) for y in walk(v) if not any(y is z for z in walk(x)))
    return False


def fmt_fails(p):
    """formatting into a string does not fail"""
    return p.end == "diverge" and any(re.search(r"String as std::fmt::Write>::write_fmt$", call_name(v)) and f == ("eq", "Err") for v, f in p.facts.items())
