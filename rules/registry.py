"""P04: the newest version of a package, and the index it is told from (crate tinymist-package, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
from vfs import SELF, at, call_name, payload, src, text_is
from pkg import anchored, closure_runs, noise, spec_dir, status, text_parts, unwrap
from std import feasible
from cli import listed

spec = mk("arg", "spec")
STAGE = re.compile(r"Iterator>?::(map|filter|filter_map|flat_map|flatten)$")
SAME = re.compile(r"::(iter|into_iter|copied|cloned|by_ref|as_ref|as_deref|ok|fuse|peekable|into_par_iter|par_iter|collect|to_vec)$")


class Flow:
    """what an iterator chain gives: for each way through its closures the item, None if it is left out, and why"""

    def __init__(self, c, p):
        self.c, self.p, self.elems, self.told, self.panics = c, p, {}, True, []

    def elem(self, of):
        e = mk("arg", f"element {len(self.elems)}")
        self.elems[e] = of
        return e

    def of(self, v, q):
        v = unwrap(v)
        m = STAGE.search(call_name(v))
        if m:
            k, ins = m.group(1), self.of(v.a[1][0], q)
            if k == "flatten":
                return [y if x is None else (z, cx + cz) for x, cx in ins for y in [(None, cx)] for z, cz in ([(None, [])] if x is None else self.of(x, q))]
            ev = next((e for e in q.events if e.kind == "call" and e.res is v), None)
            out = []
            for x, cx in ins:
                if x is None:
                    out.append((None, cx))
                    continue
                rs = closure_runs(self.c, q, v.a[1][1], {2: x}, at=ev, events=".", cut=".")
                if not rs or any(r.end not in ("return", "diverge") for r in rs):
                    self.told = False
                for r in feasible(rs or []):
                    cs = cx + list(r.facts.items())
                    if r.end != "return":
                        self.panics.append(cs)
                        continue
                    if k == "map":
                        out.append((r.ret, cs))
                    elif k == "filter":
                        t = r.truth(r.ret)
                        for b in (True, False) if t is None else (t,):
                            out.append((x if b else None, cs + ([] if is_const(r.ret) else [(r.ret, ("eq", "1" if b else "0"))])))
                    else:
                        out += [(y, cs + cy) for y, cy in self.of(r.ret, r)]
            return out
        if SAME.search(call_name(v)):
            return self.of(v.a[1][0], q)
        while v.op == "agg" and re.search(r"option::(Iter|IntoIter|Item)$", str(v.a[1])) and len(v.a) > 4:
            v = v.a[4]
        if v.op == "loop" and re.search(r"Vec(<.*>)?>?::(new|with_capacity)$", call_name(v.a[3])):
            out = []
            for r, item, ways in self.rounds(v):
                x = r.loop_next(v)
                put = unwrap(x.a[0].a[1][1]) if x.op == "mut" and call_name(x.a[0]).endswith("Vec::push") and x.a[2] is v else None
                self.told = self.told and (x is v or put is not None)
                for y, cs in ways:
                    out.append((None, cs) if y is None or put is None else (replaced(put, item, y), cs))
            return out
        k = agg_variant(v) if v.op == "agg" else q.variant(v)
        if k in ("Some", "Ok"):
            return [(payload(v, k), [])]
        if k in ("None", "Err"):
            return [(None, [(v, ("eq", k))])]
        return [(self.elem(v), [])]


    def rounds(self, lv):
        """(path of a round, its element, [(element or None, why)]) of the loop lv is changed by"""
        for q in self.p.mates:
            if not q.ends_loop(lv):
                continue
            nx = [v for v, f in q.facts.items() if call_name(v).endswith("::next") and f == ("eq", "Some") and unwrap(v.a[1][0]).op == "loop"]
            if len(nx) != 1:
                self.told = False
                continue
            item = payload(nx[0], "Some")
            here = [(v, f) for v, f in q.facts.items() if any(x is item for x in walk(v))]
            yield q, item, [(y, cy if y is None else cy + [(replaced(v, item, y), f) for v, f in here]) for y, cy in self.of(unwrap(nx[0].a[1][0]).a[3], q)]


def largest(c, p, best):
    """(flow, ways) of the items whose largest `best` is: [(value or None, why)]"""
    fl = Flow(c, p)
    if re.search(r"Iterator>?::max$", call_name(best)):
        return fl, fl.of(best.a[1][0], p)
    if best.op != "loop" or agg_variant(unwrap(best.a[3])) != "None":
        return fl, None
    out = []
    for q, item, ways in fl.rounds(best):
        x = q.loop_next(best)
        for y, cs in ways:
            if y is None:
                out.append((None, cs))
                continue
            sub = lambda w: replaced(w, item, y)
            cur = payload(best, "Some")

            def order(v, f):
                """(the other side, whether it is larger than the best) of a comparison with the best"""
                m = re.search(r"PartialOrd(<.*>)?>?::(gt|lt|ge|le)$", call_name(v))
                op, ab = (v.a[0].lower(), v.a[1:]) if v.op == "bin" else (m.group(2), v.a[1]) if m else ("", ())
                if op in ("gt", "lt", "ge", "le"):
                    for w, o in (ab, ab[::-1]):
                        if unwrap(o) is cur:
                            return unwrap(w), ((op in ("gt", "ge")) == (w is ab[0])) == (f == ("eq", "1"))
            cmp_ = [order(v, f) for v, f in q.facts.items()]
            cmp_ = [o for o in cmp_ if o]
            cs = [(v, f) for v, f in cs if not any(o is cur for o in walk(v))]
            if x is best:
                if cmp_ and not cmp_[-1][1]:
                    out.append((sub(cmp_[-1][0]), cs))
                else:
                    out.append((None, cs))
            elif x.op == "agg" and agg_variant(x) == "Some" and (q.variant(best) == "None" or cmp_ and cmp_[-1][1] and cmp_[-1][0] is unwrap(x.a[4])):
                out.append((sub(x.a[4]), cs))
            elif re.search(r"Ord>?::max$", call_name(x)) and any(w is best for w in x.a[1]):
                w = next(w for w in x.a[1] if w is not best)
                out.append((sub(w.a[4]), cs) if w.op == "agg" and agg_variant(w) == "Some" else (mk("arg", "?"), cs))
            else:
                return fl, None
    return fl, out


def replaced(v, old, new):
    """v with `old` taken for `new`"""
    if v is old:
        return new

    def sub(x):
        if isinstance(x, V):
            return replaced(x, old, new)
        return tuple(sub(y) for y in x) if isinstance(x, tuple) else x
    a = tuple(sub(x) for x in v.a)
    return v if all(x is y for x, y in zip(a, v.a)) else mk(v.op, *a)


def from_index(fl, ways):
    """items of the index with the asked name give their version, and no other gives anything"""
    items = {e for e, of in fl.elems.items() if is_index(of)}
    kinds = set()
    for v, cs in ways:
        named = None
        for w, f in cs:
            if w.op == "bin" and w.a[0] in ("Eq", "Ne"):
                it = next((e for e in items for a in w.a[1:] if unwrap(a) is F(e, "0", "name")), None)
                if it is not None and any(unwrap(a) is F(spec, "name") for a in w.a[1:]):
                    named = (it, (f == ("eq", "1")) == (w.a[0] == "Eq"))
                    continue
                ns = [unwrap(a) for a in w.a[1:]]
                if any(x is F(spec, "namespace") for x in ns) and any(text_is(x, "preview") or x in {F(e, "0", "namespace") for e in items} for x in ns):
                    continue
            if any(x in items for x in walk(w)):
                return f"depends on {show(w)[:80]}"
        if v is None:
            if named is None or named[1]:
                return "leaves out a version of the package"
            kinds.add("other")
        else:
            if named is None or not named[1] or unwrap(v) is not F(named[0], "0", "version"):
                return f"takes {show(v)[:80]} of {'another' if not named or not named[1] else 'the'} package"
            kinds.add("version")
    return None if kinds == {"other", "version"} else f"only {sorted(kinds)}"


def is_index(v):
    v = unwrap(v)
    while SAME.search(call_name(v)) or call_name(v).endswith("::deref"):
        v = unwrap(v.a[1][0])
    return re.search(r"PackageStorage::download_index$", call_name(v)) and v.a[1][0] is SELF


def from_files(fl, ways):
    """entries of the data directory's namespace/name whose names are versions give these, and all of them do"""
    root = F(SELF, "package_path")

    def lists(v):
        v = unwrap(v)
        if v.op == "proj" and v is F(v.a[0].a[0] if v.a[0].op == "proj" else v, "+Ok", "0"):
            v = v.a[0].a[0]
        while SAME.search(call_name(v)):
            v = unwrap(v.a[1][0])
        return re.search(r"fs::read_dir$|Path::read_dir$", call_name(v)) and spec_dir(unwrap(v.a[1][0]), lambda x: unwrap(x) in (F(root, "+Some", "0"),) or x in fl.elems and unwrap(fl.elems[x]) is root, spec, ("namespace", "name"))

    def entry(v):
        v = unwrap(v)
        if v in fl.elems and v.op == "arg":
            o = unwrap(fl.elems[v])
            return o in fl.elems and lists(fl.elems[o])
        return v.op == "proj" and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Ok") and v.a[0].a[0] in fl.elems and lists(fl.elems[v.a[0].a[0]])

    def name(v):
        v = unwrap(v)
        while True:
            n = call_name(v)
            if re.search(r"::(to_string_lossy|to_str|into_owned|as_str|deref|to_owned|into_string|as_os_str)$", n):
                v = unwrap(v.a[1][0])
            elif v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1] in (("d", "Some"), ("d", "Ok")):
                v = unwrap(v.a[0].a[0])
            elif re.search(r"Path::file_name$", n):
                w = unwrap(v.a[1][0])
                return re.search(r"DirEntry::path$", call_name(w)) and entry(w.a[1][0])
            else:
                return re.search(r"DirEntry::file_name$", n) and entry(v.a[1][0])

    def parsed(v):
        v = unwrap(v)
        return re.search(r"::(parse|from_str)$", call_name(v)) and name(v.a[1][-1])

    kinds = set()
    for v, cs in ways:
        if v is None:
            bad = [(w, f) for w, f in cs if f[1] in ("None", "Err", "0")]
            if any(parsed(w) or re.search(r"file_name$|to_str$", call_name(w)) and name(w) or w in fl.elems and entry(F(w, "+Ok", "0")) or w is root or w.op == "agg" or lists(w) for w, f in bad):
                kinds.add("none")
                continue
            return f"leaves out an entry: {[(show(w)[:60], f) for w, f in cs[-2:]]}"
        w = unwrap(v)
        if not (w is F(w.a[0].a[0], "+Ok", "0") if w.op == "proj" and w.a[0].op == "proj" else False) or not parsed(w.a[0].a[0]):
            return f"takes {show(v)[:120]}"
        kinds.add("version")
    return None if "version" in kinds or all(v is None for v, _ in ways) else "no version is taken"


@check("P04")
def p04(c):
    c.which = 2
    c.rule("newest", "the newest version is the largest one among those of the index with the package's name for the preview namespace, else among the names of the data directory's namespace/name that are versions; without any, the request fails")
    c.rule("index", "the index is fetched at most once, from the registry's address of the index; its items are those of the answer, in the preview namespace, each with its own name, version and description; a failed or unreadable answer gives an empty index")
    n = defaultdict(int)
    for b in anchored(c, r"PackageStorage::determine_latest_version$"):
        ps = feasible(c.paths_of(b, events=r".", cut=".", opaque=r"download_index$", hof=False))
        for p in ps:
            p.mates = ps
            if p.end == "loop" or noise(p):
                continue
            preview = None
            for v, f in p.facts.items():
                if v.op == "bin" and v.a[0] in ("Eq", "Ne") and F(spec, "namespace") in v.a[1:] and any(text_is(x, "preview") for x in v.a[1:]):
                    preview = (f == ("eq", "1")) == (v.a[0] == "Eq")
            rv = p.variant(p.ret) if p.end == "return" else None
            if preview is None or rv is None:
                c.ob("newest", "told apart", False, src(p), "newest|which", p.span)
                continue
            best = payload(p.ret, "Ok") if rv == "Ok" else next((v for v, f in p.facts.items() if f == ("eq", "None") and (re.search(r"Iterator>?::max$", call_name(v)) or v.op == "loop")), None)
            if best is not None and rv == "Ok":
                best = unwrap(best)
                best = best.a[0].a[0] if best.op == "proj" and best.a[0].op == "proj" and best.a[0].a[1] == ("d", "Some") else None
            hold = (F(SELF, "package_path"), lambda w: re.search(r"fs::read_dir$|Path::read_dir$", call_name(w)))
            if best is None and rv == "Err" and not preview and any(f[1] in ("None", "Err") and (v is hold[0] or hold[1](v)) for v, f in p.facts.items()):
                fl, ways = Flow(c, p), [(None, list(p.facts.items()))]
            elif best is None:
                c.ob("newest", f"{'index' if preview else 'files'}, {rv}", False, f"not the largest of anything: {src(p)}", f"newest|{preview}|{rv}", p.span)
                continue
            else:
                fl, ways = largest(c, p, best)
            why = "the largest is told in no known way" if ways is None or not fl.told or fl.panics else from_index(fl, ways) if preview else from_files(fl, ways)
            n[f"{'index' if preview else 'files'} {rv}"] += 1
            c.ob("newest", f"{'index' if preview else 'files'}, {rv}", why is None, str(why), f"newest|{preview}|{rv}", p.span)
    for k in ("index Ok", "index Err", "files Ok", "files Err"):
        c.floor(k, n[k], 1)
    for b in anchored(c, r"PackageStorage::download_index$"):
        for p in c.paths_of(b, events=r"get_or_init$", cut=".", hof=False, opaque=r"get_or_init$|threaded_http$"):
            e = evs(p, r"get_or_init$", "call")
            v = unwrap(p.ret) if p.end == "return" else None
            while v is not None and call_name(v).endswith("::as_slice"):
                v = unwrap(v.a[1][0])
            ok = len(e) == 1 and at(e[0].args[0], "index") and v is e[0].res
            c.ob("index", "once", bool(ok), src(p), "index|once", p.span)
            for q in (closure_runs(c, p, e[0].args[1], at=e[0], events=r"threaded_http$", opaque=r"threaded_http$", cut=".") or []) if e else []:
                if noise(q):
                    continue
                t = evs(q, r"threaded_http$", "call")
                parts = text_parts(t[0].args[0]) if len(t) == 1 else None
                url = "".join(x if isinstance(x, str) else str(const_of(x)) if is_const(x) else "?" for x in parts or [])
                c.ob("index", "address", len(t) == 1 and url == "https://packages.typst.org/preview/index.json", url, "index|url", q.span)
                if len(t) != 1:
                    continue
                out = q.ret if q.end == "return" else None
                if out is not None and call_name(out).endswith("unwrap_or_default"):
                    ok = out.a[1][0] is t[0].res
                elif q.variant(t[0].res) == "None":
                    ok = out is not None and nothing(out)
                else:
                    ok = out is payload(t[0].res, "Some")
                c.ob("index", "outcome", bool(ok), src(q), "index|out", q.span)
                if not n["answers"]:
                    answer(c, q, t[0], n)
    for k in ("answers", "failed"):
        c.floor(f"{k} of the index", n[k], 1)
    for b in anchored(c, r"HttpRegistry as .*PackageRegistry>::packages$"):
        for p in c.paths_of(b, cut=".", opaque=r"download_index$|HttpRegistry::storage$"):
            v = unwrap(p.ret) if p.end == "return" else SELF
            ok = re.search(r"PackageStorage::download_index$", call_name(v)) and re.search(r"HttpRegistry::storage$", call_name(v.a[1][0])) and v.a[1][0].a[1][0] is SELF
            n["lists"] += 1
            c.ob("index", "the registry's packages", bool(ok), src(p), "index|packages", p.span)
    for b in anchored(c, r"PackageStorage::cached_index$"):
        for p in c.paths_of(b, cut="."):
            x = next((v for v, f in p.facts.items() if re.search(r"OnceLock(<.*>)?::get$", call_name(v)) and at(v.a[1][0], "index")), None)
            k = p.variant(p.ret) if p.end == "return" else None
            y = unwrap(payload(p.ret, "Some")) if k == "Some" else None
            while y is not None and call_name(y).endswith("::as_slice"):
                y = unwrap(y.a[1][0])
            ok = x is not None and k == p.variant(x) and (k == "None" or y is F(x, "+Some", "0"))
            n["lists"] += 1
            c.ob("index", "the cached index", bool(ok), src(p), "index|cached", p.span)
    c.floor("lists", n["lists"], 2)


def nothing(v):
    v = unwrap(v)
    return re.search(r"Vec(<.*>)?>?::new$|Vec as .*Default>::default$|Default>?::default$", call_name(v)) is not None


def answer(c, p, e, n):
    """what becomes of the answer"""
    resp = mk("arg", "resp")
    qs = feasible(closure_runs(c, p, e.args[2], {2: resp}, at=e, events=".", cut=".") or [])
    c.ob("index", "handler", bool(qs), "the handler is not a closure", "index|clo")
    good = F(resp, "+Ok", "0")
    for q in qs:
        q.mates = qs
        if q.end == "loop" or noise(q):
            continue
        efs = next((v for v in q.facts if re.search(r"error_for_status(_ref)?$", call_name(v)) and v.a[1][0] is good), None)
        rd = next((v for v in q.facts if re.search(r"serde_json::(from_reader|from_slice|from_str)$|Response::json$", call_name(v))), None)
        fine = q.variant(resp) == "Ok" and efs is not None and q.variant(efs) == "Ok"
        if not fine or rd is None or q.variant(rd) != "Ok":
            n["failed"] += 1
            c.ob("index", "no answer", q.end == "return" and nothing(q.ret) and (fine or rd is None), src(q), "index|none", q.span)
            continue
        n["answers"] += 1
        body = F(efs, "+Ok", "0")

        def how(r, v, item):
            v = unwrap(v)
            s = v.a[4] if v.op == "agg" and v.a[0] == "tuple" and len(v.a) == 6 else None
            if s is None or s.op != "agg":
                return False
            return text_is(unwrap(agg_field(s, "namespace")), "preview") and unwrap(agg_field(s, "name")) is F(item, "name") and unwrap(agg_field(s, "version")) is F(item, "version") and unwrap(v.a[5]) is F(item, "description")
        ok = q.end == "return" and any(x is body for x in walk(rd)) and listed(c, q, q.ret, F(rd, "+Ok", "0"), how)
        c.ob("index", "items", bool(ok), src(q), "index|items", q.span)
