"""U05: diagnostics on the command line, and temporary shadows (crate tinymist-world)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
from fonts import anchored, arg, named
from pkg import mentions, unwrap
from registry import Flow
from std import feasible
from vfs import SELF, at, call_name, nexts, payload, src
from fonts import unwrap_iter

WORLD = arg("world")


def fld(v, name):
    """the field of that name of a value"""
    v = unwrap(v)
    return agg_field(v, name) if v.op == "agg" else F(v, name)


def same(a, b):
    return a is not None and b is not None and unwrap(a) is unwrap(b)


def built(v):
    """the calls that make a diagnostic: the start, and what it is given"""
    given = {}
    v = unwrap(v)
    for _ in range(8):
        m = re.search(r"Diagnostic(<.*>)?::with_(message|notes|labels|code)$", call_name(v))
        if not m:
            break
        given.setdefault(m[2], unwrap(v.a[1][1]))
        v = unwrap(v.a[1][0])
    m = re.search(r"Diagnostic(<.*>)?::(error|warning|help|note|bug)$", call_name(v))
    return m and m[2], given


def label_of(p, v, span):
    """the labels are the place of the span, or none if it has none"""
    for _ in range(4):
        if v is not None and named(v, r"::(collect|into_iter|from_iter|to_vec)$"):
            v = unwrap(v.a[1][0])
    of = lambda x, rx, i: named(x, rx) and same(x.a[1][i], span)
    if v is None or v.op != "agg":
        return False
    if agg_variant(v) == "Some":
        x = unwrap(agg_field(v, "0"))
        if not named(x, r"Label(<.*>)?::primary$"):
            return False
        a, b = (unwrap(y) for y in x.a[1])
        got = lambda y, rx, i: any(of(k, rx, i) and p.variant(k) == "Some" and y is payload(k, "Some") for k in p.facts)
        return got(a, r"Span::id$", 0) and got(b, r"WorldExt>?::range$", 1)
    return agg_variant(v) == "None" and any((of(k, r"Span::id$", 0) or of(k, r"WorldExt>?::range$", 1)) and p.variant(k) == "None" for k in p.facts)


def trusted(c, n):
    """the places of the sources, as the printer asks for them"""
    w, gid, given = F(SELF, "world"), arg("id"), arg("given")

    def source(p, v):
        v = unwrap(v)
        return named(v, r"SourceWorld>?::lookup$") and same(v.a[1][0], w) and v.a[1][1] is gid or any(named(k, r"World>?::source$") and same(k.a[1][0], w) and k.a[1][1] is gid and v is payload(k, "Ok") for k in p.facts)
    for name, rx in (("line_index", r"Source::byte_to_line$"), ("column_number", r"Source::byte_to_column$"), ("line_range", r"Source::line_to_range$")):
        for b in anchored(c, r"<world::CodeSpanReportWorld as .*Files>::" + name + "$"):
            for p in feasible(c.paths_of(b, events=r".", opaque=r"SourceWorld>?::lookup$|World>?::source$", cut=".")):
                q = [k for k in p.facts if named(k, rx) and source(p, k.a[1][0]) and k.a[1][1] is given]
                r = unwrap(p.ret) if p.end == "return" else None
                ok = False
                if r is not None and r.op == "agg" and agg_variant(r) == "Ok" and q:
                    ok = p.variant(q[0]) == "Some" and same(agg_field(r, "0"), payload(q[0], "Some"))
                    n["place"] += 1
                elif r is not None and q:
                    ok = agg_variant(r) == "Err" and p.variant(q[0]) == "None"
                    n["no place"] += 1
                elif r is not None and r.op == "agg":
                    ok = any(named(k, r"World>?::source$") and p.variant(k) == "Err" for k in p.facts)
                c.ob("place", f"{b.name}", bool(ok), src(p), f"place|{name}", p.span)
    for b in anchored(c, r"<world::CodeSpanReportWorld as .*Files>::source$"):
        for p in feasible(c.paths_of(b, events=r".", opaque=r"SourceWorld>?::lookup$|World>?::source$", cut=".")):
            if p.end == "return" and agg_variant(p.ret) == "Ok":
                c.ob("place", b.name, source(p, agg_field(p.ret, "0")), src(p), "place|source", p.span)
    for b in anchored(c, r"^(?!<).*SourceWorld::lookup$|<.* as SourceWorld>::lookup$"):
        for p in feasible(c.paths_of(b, events=r".", opaque=r"World>?::source$", cut=".")):
            if p.end == "return":
                k = next((k for k in p.facts if named(k, r"World>?::source$") and same(k.a[1][0], SELF) and k.a[1][1] is gid), None)
                c.ob("place", b.name, k is not None and p.variant(k) == "Ok" and same(p.ret, payload(k, "Ok")), src(p), "place|lookup", p.span)
                n["source"] += 1
    for b in anchored(c, r"<world::CodeSpanReportWorld as .*Files>::name$"):
        for p in feasible(c.paths_of(b, events=r".", opaque=r"SourceWorld>?::path_for_id$", cut=".")):
            k = next((k for k in p.facts if named(k, r"SourceWorld>?::path_for_id$") and same(k.a[1][0], w) and k.a[1][1] is gid), None)
            ok = k is not None and p.end == "return" and agg_variant(p.ret) == "Ok"
            if ok:
                x = payload(k, "Ok") if p.variant(k) == "Ok" else gid
                ok = mentions(agg_field(p.ret, "0"), lambda y: y is x)
                n["named" if p.variant(k) == "Ok" else "unnamed"] += 1
            c.ob("place", b.name, bool(ok), src(p), "place|name", p.span)
    for b in anchored(c, r"<world::CompilerWorld as .*Files>::(name|source|line_index|column_number|line_range)$"):
        m = b.name.rsplit("::", 1)[1]
        for p in feasible(c.paths_of(b, events=r".", opaque=r"CodeSpanReportWorld as .*Files>::\w+$", cut=".")):
            r = unwrap(p.ret) if p.end == "return" else None
            ok = r is not None and named(r, r"Files>::" + m + "$") and same(agg_field(unwrap(r.a[1][0]), "world") if unwrap(r.a[1][0]).op == "agg" else None, SELF) and r.a[1][1] is gid
            if ok and m in ("line_index", "column_number", "line_range"):
                ok = r.a[1][-1] is given
            c.ob("place", b.name, bool(ok), src(p), f"place|world|{m}", p.span)
            n["forwarded"] += 1


def printed(c, n):
    for b in anchored(c, r"system::diag::print_diagnostics$"):
        ps = feasible(c.paths_of(b, events=r"term::emit$|StandardStream::\w+$", cut="."))
        for p in ps:
            nx = nexts(p)
            o = next(((i, lv) for i, lv, s in nx if unwrap_iter(s) is arg("errors")), None)
            em = evs(p, r"term::emit$", "call")
            bad = None
            if o is None:
                c.ob("printed", b.name, False, f"the diagnostics given are not read: {src(p)}", "printed|read", p.span)
                continue
            item, lv = o
            if item is None:
                n["all printed"] += 1
                c.ob("printed", b.name, p.end == "return" and p.variant(p.ret) == "Ok" and not em, src(p), "printed|end", p.span)
                continue
            tr = next(((i, l) for i, l, s in nx if l is not lv and unwrap_iter(s) is unwrap(F(item, "trace"))), None)
            point = tr[0] if tr else None
            want = 1 + (point is not None)
            if len(em) != want:
                bad = f"{len(em)} of {want} messages printed"
            for e, x in zip(em, [item, point]):
                kind, g = built(e.args[3])
                out, cfg, wd = (unwrap(a) for a in e.args[:3])
                if not mentions(out, lambda y: named(y, r"StandardStream::stderr$")):
                    bad = bad or "printed elsewhere"
                if not (wd.op == "agg" and same(agg_field(wd, "world"), WORLD)):
                    bad = bad or "the sources are not those of the world"
                if not label_of(p, g.get("labels"), F(x, "span")):
                    bad = bad or f"the place is not that of the span: {show(g['labels'])[:80] if g.get('labels') is not None else None}"
                msg = g.get("message")
                if x is item:
                    sev = {"Error": "error", "Warning": "warning"}.get(p.variant(F(item, "severity")))
                    if kind != sev:
                        bad = bad or f"a message of severity {sev} is printed as {kind}"
                    if not same(msg, F(item, "message")):
                        bad = bad or "not its message"
                    notes, fl = g.get("notes"), Flow(c, p)
                    ways = fl.of(notes, p) if notes is not None else []
                    h = next((y for y, of in fl.elems.items() if unwrap(of) is unwrap(F(item, "hints"))), None)
                    if h is None or not fl.told or len(ways) != 1 or ways[0][0] is None or not mentions(ways[0][0], lambda y: y is h):
                        bad = bad or "not its hints"
                    n["diagnostic " + str(sev)] += 1
                else:
                    if kind in ("error", "warning", "bug") or kind is None:
                        bad = bad or f"a point of the trace is printed as {kind}"
                    if msg is None or not mentions(msg, lambda y: y is F(x, "v")):
                        bad = bad or f"not the message of the point: {show(msg)[:120] if msg is not None else None}"
                    n["trace"] += 1
                short = [p.variant(k) for k in p.facts if unwrap(k) is arg("diagnostic_format")]
                style = mentions(cfg, lambda y: y.op == "agg" and agg_variant(y) == "Short" or y.op == "const" and str(y.a[0]).endswith("Short"))
                if bool(style) != ("Short" in short):
                    bad = bad or "the style is not the one asked for"
            if bad is None:
                last = em[-1].res
                if p.end == "return":
                    r = unwrap(p.ret)
                    if not (p.variant(last) == "Err" and p.variant(p.ret) == "Err" and mentions(r, lambda y: y is last)):
                        bad = f"the printing ends early: {src(p)}"
                elif p.end == "loop":
                    if point is not None:
                        if not p.ends_loop(tr[1]):
                            bad = "the rest of the trace is not printed"
                    elif tr is None or not p.ends_loop(lv):
                        bad = "the trace is not printed"
                else:
                    bad = src(p)
            c.ob("printed", b.name, bad is None, bad or "", "printed|message", p.span)


@check("U05")
def d01(c):
    c.which = 2
    c.rule("printed", "each diagnostic is printed with its severity, message, hints and the place of its span, followed by each point of its trace; only an output error ends this early")
    c.rule("place", "lines, columns, names and texts are those of the source of the file id in the world")
    c.rule("shadow", "a file is shadowed before the function runs and no more afterwards, also if the function fails; the result is that of the function")
    n = defaultdict(int)
    printed(c, n)
    trusted(c, n)
    for b in anchored(c, r"ShadowApiExt>?::with_shadow_file(_by_id)?$"):
        key = arg("file_id" if b.name.endswith("by_id") else "file_path")
        for p in feasible(c.paths_of(b, events=r"ShadowApi>?::\w+$|FnOnce>?::call_once$", cut=".")):
            ev = [e for e in p.events if e.kind == "call"]
            kinds = [re.search(r"(unmap_shadow|map_shadow|call_once|\w+$)", e.name)[1] for e in ev]
            ok = p.end == "return" and kinds[:1] == ["map_shadow"] and same(ev[0].args[1], key) and same(ev[0].args[2], arg("content"))
            if kinds == ["map_shadow"]:
                n["not shadowed"] += 1
                ok = ok and p.variant(p.ret) == "Err" and mentions(p.ret, lambda y: y is ev[0].res)
            else:
                ok = ok and kinds == ["map_shadow", "call_once", "unmap_shadow"] and unwrap(ev[1].args[0]) is arg("f") and same(ev[2].args[1], key)
                ok = ok and (same(p.ret, ev[1].res) or p.variant(p.ret) == "Err" and mentions(p.ret, lambda y: y is ev[2].res))
                n["shadowed"] += 1
            c.ob("shadow", b.name, bool(ok), f"{kinds} {src(p)}", "shadow|" + b.name.rsplit("::", 1)[1], p.span)
    for k, m in (("all printed", 1), ("diagnostic error", 1), ("diagnostic warning", 1), ("trace", 1), ("place", 3), ("no place", 3), ("source", 1), ("named", 1), ("unnamed", 1), ("forwarded", 5), ("shadowed", 2), ("not shadowed", 2)):
        c.floor("cases: " + k, n[k], m)
