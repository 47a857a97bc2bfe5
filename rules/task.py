"""T: export tasks: when they run, where they write and what they write (crates tinymist-task and tinymist-world, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
import vfs
from vfs import SELF, call_name, field, fpath, payload
from pkg import closure_runs, unwrap
from project import sp, cells, subvalues, cmp_eq, is_default, root_of, under, beval, assignments, excludes
from universe import flag, equal, args_tuple, fresh
from misc import written, WRITES

T = "tinymist_task"
W = "tinymist_world"
WHEN = ("Never", "OnSave", "OnType", "OnDocumentHasTitle")


def anchored(c, rx, sig=None, crate=T):
    return vfs.anchored(c, rx, sig, crate=crate)


def called(v, rx, *args):
    """whether a value is what a function gives for such arguments (each a value, or a test of a value, or None)"""
    v = unwrap(v)
    if not re.search(rx, call_name(v)):
        return False
    xs = [unwrap(x) for x in v.a[1]]
    return len(xs) >= len(args) and all(w is None or (w(x) if callable(w) else x is unwrap(w)) for x, w in zip(xs, args))


def opt(v, inner):
    """whether a value is Some of such a value"""
    v = unwrap(v)
    if v.op == "agg":
        return agg_variant(v) == "Some" and inner(unwrap(agg_field(v, "0")))
    return False


def possible(p, v, names):
    return [k for k in names if not excludes(p, v, k)]


# ---------------------------------------------------------------------- T01
SIGNAL = ("by_mem_events", "by_fs_events", "by_entry_update")
OPT = r"^log::|Document>?::info$|ExportSignal::should_run_task$"


def decisions(c, b, doc_of, n):
    """the table of a task's timing, the reasons of a revision and the document"""
    when, docs = mk("arg", "when"), mk("arg", "docs")
    atoms = [F(SELF, k) for k in SIGNAL]
    for p in c.paths_of(b, events=r".", opaque=r"^log::|Document>?::info$", hof=True):
        if p.end != "return":
            c.ob("runs", b.name, p.end != "diverge", "the question is not answered", span=b.span)
            continue
        for w in possible(p, when, WHEN):
            for kind in possible(p, docs, ("None", "Some")):
                for env in assignments(p, atoms):
                    mem, fs, entry = (env[a] for a in atoms)
                    n[w] += 1
                    got = p.variant(p.ret)
                    val = unwrap(agg_field(p.ret, "0")) if got == "Some" and p.ret.op == "agg" else None
                    if w == "OnDocumentHasTitle" and fs and not entry:
                        if kind == "None":
                            ok = got == "None"
                        else:
                            d = doc_of(p)
                            ok = got == "Some" and d is not None and titled(p, val, d)
                    else:
                        want = False if w == "Never" else entry or {"OnType": mem, "OnSave": fs, "OnDocumentHasTitle": False}[w]
                        ok = got == "Some" and val is not None and beval(val, env) is want
                    c.ob("runs", b.name, ok, "a task that runs %s is decided on wrongly (memory %s, disk %s, entry %s, document %s)" % (w, mem, fs, entry, kind), span=b.span)


def titled(p, v, docs):
    """whether a value says if one of the documents has a title"""
    t = None
    if v.op == "isvar":
        t, name = v.a[0], v.a[1]
        if name != "Some":
            return False
    else:
        k = beval(v, {})
        for x, f in p.facts.items():
            if f == ("eq", "Some") and k is True or f == ("eq", "None") and k is False:
                if fpath(x)[1][-1:] == ("title",):
                    t = x
    if t is None:
        return False
    r, fs = fpath(t)
    return fs[-1:] == ("title",) and re.search(r"Document>?::info$", call_name(r)) and unwrap(r.a[1][0]) in docs


@check("T01")
def t01(c):
    """whether a task runs after a compilation is what its timing and the revision's reasons say"""
    c.which = 2
    prog = program(2)
    n = defaultdict(int)
    c.rule("runs", "ExportSignal::should_run_task and should_run_task_dyn give, for every timing, every combination of the revision's reasons (each known, by the path's facts, or both) and every document: never — no; the entry changed — yes; on typing — whether the memory changed; on saving — whether the disk changed; with a title — no without a change on disk, undecided without a document, and whether its own information has a title otherwise. ExportTimings::needs_run asks this of the snapshot's reasons, with the timing given or the default, which is never.")
    c.rule("merge", "ExportSignal::merge leaves each reason that either of the two has, and no other.")
    c.rule("task", "ProjectTask::when and as_export give the timing and the export settings of the task's own kind, and a preview, which exports nothing, has no export settings.")
    docs = mk("arg", "docs")
    some = payload(docs, "Some")
    for b in vfs.anchored(c, r"ExportSignal::should_run_task$", crate=W):
        decisions(c, b, lambda p: [some], n)
    for b in vfs.anchored(c, r"ExportSignal::should_run_task_dyn$", crate=W):
        decisions(c, b, lambda p: [payload(some, k) for k in ("Paged", "Html") if not excludes(p, some, k)] if p.variant(some) else None, n)
    for b in vfs.anchored(c, r"ExportSignal::merge$", crate=W):
        other = mk("arg", "other")
        for p in c.paths_of(b, events=r".", stores=True):
            if p.end != "return":
                continue
            st = cells(p, SELF)
            for k in SIGNAL:
                x, y = F(SELF, k), F(other, k)
                v = st.get((k,)) or (field(st[()], k) if () in st else x)
                for env in assignments(p, [x, y]):
                    n["merged"] += 1
                    c.ob("merge", b.name, beval(v, env) is (env[x] or env[y]), "the reason %s is lost or made up" % k, span=b.span)
            c.ob("merge", b.name, all(k and k[0] in SIGNAL or k == () for k in st), "something else is changed", span=b.span)
    for b in vfs.anchored(c, r"args::TaskWhen as .*Default>::default$", crate=W):
        for p in c.paths_of(b, events="zz"):
            n["default"] += 1
            c.ob("runs", b.name, p.variant(p.ret) == "Never", "a task that was not asked for is run", span=b.span)
    for b in vfs.anchored(c, r"TaskWhen::is_never$", crate=W):
        for p in c.paths_of(b, events="zz"):
            for w in possible(p, SELF, WHEN):
                v = p.ret
                got = flag(p, v) if v.op != "isvar" else (v.a[1] == "Never" and w == "Never" if v.a[0] is SELF else None)
                if v.op == "isvar" and v.a[0] is SELF:
                    got = v.a[1] == w
                c.ob("runs", b.name, got is (w == "Never"), "whether a task never runs is told wrongly", span=b.span)
    for b in anchored(c, r"ExportTimings::needs_run$"):
        timing = mk("arg", "timing")
        for p in c.paths_of(b, events=r".", opaque=OPT):
            if p.end != "return":
                continue
            r = unwrap(p.ret)
            ok = called(r, r"ExportSignal::should_run_task$", F(mk("arg", "snap"), "signal"), None, docs)
            w = unwrap(r.a[1][1]) if ok else None
            for k in possible(p, timing, ("None", "Some")):
                n["needs " + k] += 1
                if k == "Some":
                    good = ok and (w is payload(timing, "Some") or called(w, r"Option(<.*>)?::unwrap_or_default$", timing))
                else:
                    good = ok and (is_default(w) or agg_variant(w) == "Never" or called(w, r"Option(<.*>)?::unwrap_or_default$", timing))
                c.ob("runs", b.name, good, "the question is asked with other reasons, another timing or another document", span=b.span)
    kinds(c, prog, n)
    for k in WHEN + ("merged", "default", "needs Some", "needs None", "kinds when", "kinds as_export"):
        c.floor("cases: " + k, n[k], 1)


def kinds(c, prog, n):
    """each kind of task has its own settings"""
    names = ("Preview", "ExportPdf", "ExportPng", "ExportSvg", "ExportHtml", "ExportSvgHtml", "ExportMd", "ExportText", "Query")
    for fn in ("when", "as_export"):
        for b in anchored(c, r"ProjectTask::%s$" % fn):
            seen = set()
            for p in c.paths_of(b, events="zz"):
                if p.end != "return":
                    continue
                for k in possible(p, SELF, names):
                    n["kinds " + fn] += 1
                    seen.add(k)
                    t = payload(SELF, k)
                    if fn == "as_export" and k == "Preview":
                        c.ob("task", b.name, p.variant(p.ret) == "None", "a preview is exported", span=b.span)
                        continue
                    want = F(t, "when") if k == "Preview" else F(t, "export", "when") if fn == "when" else F(t, "export")
                    got = unwrap(agg_field(p.ret, "0")) if p.variant(p.ret) == "Some" and p.ret.op == "agg" else None
                    c.ob("task", b.name, got is want, "a task of the kind %s has settings of another" % k, span=b.span)
            c.ob("task", b.name, seen == set(names), "not all kinds of tasks are answered for", span=b.span)


# ---------------------------------------------------------------------- T02
@check("T02")
def t02(c):
    """an export is written where its pattern says, and never for a file of a package"""
    c.which = 2
    n = defaultdict(int)
    c.rule("path", "PathPattern::substitute gives nothing exactly if there is no root or no main file, the main file is in a package, or its path leaves the root or is not below it; a file below /untitled goes to typst/<path> in the directory for temporary files; an empty pattern gives the cleaned path of the main file itself; any other pattern gives the cleaned pattern with $root, $dir and $name replaced by the root and by the directory and file name of the main file below the root.")
    c.rule("ext", "ProjectTask::extension is the extension of the task's own format, and for a query the one that was asked for or its format.")
    entry = mk("arg", "entry")
    for b in anchored(c, r"PathPattern::substitute$"):
        for p in c.paths_of(b, events=r".", opaque=r"^log::|EntryState::(root|main)$|is_package_file$", hof=False):
            if p.end != "return":
                c.ob("path", b.name, p.end != "diverge", "the path is not told", span=b.span)
                continue
            substituted(c, b, p, entry, n)
    exts = {"ExportPdf": "pdf", "Preview": "html", "ExportSvgHtml": "html", "ExportHtml": "html", "ExportMd": "md", "ExportText": "txt", "ExportSvg": "svg", "ExportPng": "png"}
    for b in anchored(c, r"ProjectTask::extension$"):
        for p in c.paths_of(b, events="zz"):
            if p.end != "return":
                continue
            for k in possible(p, SELF, tuple(exts) + ("Query",)):
                n["ext " + k] += 1
                r = unwrap(p.ret)
                if k == "Query":
                    q = payload(SELF, "Query")
                    e = F(q, "output_extension")
                    v = p.variant(e)
                    ok = r is payload(e, "Some") if v == "Some" else r is F(q, "format") if v == "None" else False
                    c.ob("ext", b.name, ok, "a query has another extension", span=b.span)
                else:
                    c.ob("ext", b.name, const_of(r) == exts[k], "the kind %s has another extension" % k, span=b.span)
    for k in tuple("ext " + k for k in exts) + ("ext Query", "no root", "package", "outside", "untitled", "empty", "below", "not below"):
        c.floor("cases: " + k, n[k], 1)


def substituted(c, b, p, entry, n):
    def has(rx, *args):
        return [v for v in p.facts if called(v, rx, *args)]
    calls = {}
    for e in p.events:
        for k in ("root", "main"):
            if e.kind == "call" and re.search(r"EntryState::%s$" % k, e.name) and unwrap(e.args[0]) is entry:
                calls[k] = e.res
    if set(calls) != {"root", "main"}:
        c.ob("path", b.name, False, "the entry is not looked at", span=b.span)
        return
    rv, mv = p.variant(calls["root"]), p.variant(calls["main"])
    none = p.variant(p.ret) == "None"
    if "None" in (rv, mv):
        n["no root"] += 1
        c.ob("path", b.name, none, "there is a path without a root or a main file", span=b.span)
        return
    root, main = payload(calls["root"], "Some"), payload(calls["main"], "Some")
    pk = [flag(p, v) for v in p.facts if called(v, r"is_package_file$", main)]
    if rv is None or mv is None or not pk:
        c.ob("path", b.name, False, "there is a path, or none, before it is known whether the file is of the root or of a package", span=b.span)
        return
    if pk[0]:
        n["package"] += 1
        c.ob("path", b.name, none, "a file of a package is exported", span=b.span)
        return
    res = has(r"VirtualPath::resolve$", lambda x: called(x, r"::vpath$", main), root)
    path = payload(res[0], "Some") if res and p.variant(res[0]) == "Some" else None
    if path is None:
        n["outside"] += 1
        c.ob("path", b.name, none and bool(res), "a file outside the root is exported, or one inside is not", span=b.span)
        return
    unt = has(r"Path::strip_prefix$", path, lambda x: const_of(x) == "/untitled")
    if not unt:
        c.ob("path", b.name, False, "it is not told whether the file has a place on disk", span=b.span)
        return
    clean = r"PathClean>?::clean$"
    if p.variant(unt[0]) == "Ok":
        n["untitled"] += 1
        v = agg_field(p.ret, "0") if p.ret.op == "agg" and not none else None
        parts = join_parts(v) if v is not None else None
        ok = parts and called(parts[0], r"env::temp_dir$") and len(parts) == 3 and const_of(parts[1]) == "typst" and parts[2] is payload(unt[0], "Ok")
        c.ob("path", b.name, bool(ok), "a file without a place is exported to another place than that for temporary files", span=b.span)
        return
    empty = [flag(p, v) for v in p.facts if called(v, r"::is_empty$", F(SELF, "0"))]
    if empty and empty[0]:
        n["empty"] += 1
        ok = not none and called(agg_field(p.ret, "0"), clean, path)
        c.ob("path", b.name, ok, "without a pattern, the export is not beside the file", span=b.span)
        return
    rel = has(r"Path::strip_prefix$", path, root)
    if not rel or p.variant(rel[0]) != "Ok":
        n["not below"] += 1
        c.ob("path", b.name, none and bool(rel), "a file not below the root is exported", span=b.span)
        return
    n["below"] += 1
    rel = payload(rel[0], "Ok")
    v = unwrap(agg_field(p.ret, "0")) if p.ret.op == "agg" and not none else None
    if v is None or not called(v, clean) or not empty:
        c.ob("path", b.name, False, "the path is not the cleaned pattern", span=b.span)
        return
    v = unwrap(v.a[1][0])
    marks = {}
    while re.search(r"(str|String|EcoString)(<.*>)?::replace$", call_name(v)):
        a = [unwrap(x) for x in v.a[1]]
        marks.setdefault(const_of(a[1]), []).append(a[2])
        v = a[0]
    ok = v is F(SELF, "0") and all(len(x) == 1 for x in marks.values())
    par = [x for x in p.facts if called(x, r"Path::parent$", rel)]
    nam = [x for x in p.facts if called(x, r"Path::file_name$", rel)]

    def lossy(x, of):
        return called(x, r"to_string_lossy$", of)
    want = {"$root": lambda x: lossy(x, root)}
    if nam and p.variant(nam[0]) == "Some":
        want["$name"] = lambda x: lossy(x, payload(nam[0], "Some"))
    else:
        want["$name"] = lambda x: bool(nam) and (const_of(x) == "" or called(x, r"to_string_lossy$", is_default) or is_default(x))
    if par and p.variant(par[0]) == "Some":
        want["$dir"] = lambda x: lossy(x, payload(par[0], "Some"))
    elif par and "$dir" in marks:
        want["$dir"] = lambda x: const_of(x) == ""
    ok = ok and bool(par) and set(marks) == set(want) and all(want[k](marks[k][0]) for k in marks)
    c.ob("path", b.name, ok, "the pattern is filled with something else: " + ", ".join(sorted(map(str, marks))), span=b.span)


def join_parts(v):
    v = unwrap(v)
    if re.search(r"Path(Buf)?::join$", call_name(v)):
        x = join_parts(v.a[1][0])
        return x + [unwrap(v.a[1][1])] if x else None
    return [v]


# ---------------------------------------------------------------------- T03
CTX = re.compile(r"(WithContext(Untyped)?(<.*>)?>?::(with_)?context(_ut)?|Result(<.*>)?::map_err)$")


def ctx(v):
    """a result without the context given to its error"""
    v = unwrap(v)
    while CTX.search(call_name(v)):
        v = unwrap(v.a[1][0])
    return v


def told_twice(p):
    """paths on which giving an error its context makes it a success, or the other way around, or formatting into a string fails"""
    if vfs.fmt_fails(p):
        return True
    for v in p.facts:
        if CTX.search(call_name(v)) and {p.variant(ctx(v)), p.variant(v)} == {"Ok", "Err"}:
            return True
    return False


def ok_of(v):
    """the result whose success a value is, if it is one"""
    v = unwrap(v)
    if v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Ok"):
        return ctx(v.a[0].a[0])
    return None


def result(p):
    """(Ok or Err, the value of a success) of what the path gives"""
    k = p.variant(p.ret)
    r = ctx(p.ret)
    if k is None:
        k = p.variant(r)
    if k == "Ok":
        return k, unwrap(agg_field(r, "0")) if r.op == "agg" else payload(r, "Ok")
    return k, None


def option(p, rx, *args):
    """(Some or None, the value in it) of an option that a function gives, also if it is turned into a result"""
    for v in p.facts:
        if called(ctx(v), rx, *args):
            k = p.variant(v)
            return {"Ok": "Some", "Err": "None"}.get(k, k), payload(v, "Ok" if k == "Ok" else "Some")
    return None, None


def succeeded(v, rx, *args):
    """whether a value is what a function gave when it succeeded"""
    r = ok_of(v)
    return r is not None and called(r, rx, *args)


def settled(p, rx, *args):
    """the outcome of a call, as the path knows it"""
    for v in p.facts:
        if called(ctx(v), rx, *args):
            return p.variant(v) or p.variant(ctx(v))
    return None


@check("T03")
def t03(c):
    """which pages an export has, and what they are made with"""
    c.which = 2
    prog = program(2)
    n = defaultdict(int)
    c.rule("range", "A page range is read as one number, or as two texts around the only hyphen, each trimmed, an empty one for an open end; not both are empty, numbers are those NonZeroUsize reads, and the first is not above the second. It is written as its first number, or nothing, a hyphen, and its last number, or nothing: what is written is read as the same range.")
    c.rule("selection", "get_page_selection selects the first page exactly if one of the transforms is the range of the first page alone; otherwise the gap is that of the last merge among the transforms, none without one or its gap, and a gap that is no length is an error.")
    c.rule("length", "parse_length takes the value and the unit of the first number in code that has no errors: points, millimetres, centimetres and inches as such, every other unit is an error.")
    c.rule("image", "SvgExport and PngExport draw the first page exactly if it is selected and there is one, and all pages of the document with the selected gap otherwise; the picture has the resolution asked for, which is above 1e-6, and the fill asked for, or white.")
    c.rule("pdf", "PdfExport gives typst the document, the time asked for or now, and each standard asked for as typst's own of that name; HtmlExport is typst's html of the document. An error of any of them is the export's.")
    c.rule("number", "A Scalar is made only of a number that is tested not to be NaN, or is copied from another: neither code nor what is read from a file makes one of NaN.")
    c.rule("equal", "Scalars that are equal are hashed alike, with zero equal to negative zero, and their order is that of their numbers.")
    ranges(c, n)
    scalars(c, n)
    equality(c, n)
    selection(c, n)
    images(c, n)
    pdf(c, n)
    for k in ("one number", "two numbers", "open start", "open end", "wrong order", "no number", "shown", "first", "merge", "no merge", "other", "Pt", "Mm", "Cm", "In", "svg first", "svg merged", "png first", "png merged", "ppi", "pdf at", "pdf now", "standard", "html", "white", "fill", "scalar"):
        c.floor("cases: " + k, n[k], 1)


def makers(crate, adt):
    """the functions that make a value of a type from its parts"""
    out = []
    for (k, i), b in program(2).bodies.items():
        if k == crate and any(s[0] == "=" and s[2].get("r") == "agg" and s[2].get("adt") == adt for bl in b.blocks if bl for s in bl["s"]):
            out.append(b)
    return list({b.name: b for b in out}.values())


def scalars(c, n):
    for b in makers(T, "primitives::Scalar"):
        for p in c.paths_of(b, events=r".", hof=False):
            vals = [p.ret] if p.ret is not None else []
            vals += [x for e in p.events for x in e.args]
            for v in dict.fromkeys(x for r in vals if isinstance(r, V) for x in subvalues(r)):
                if v.op != "agg" or v.a[1] != "primitives::Scalar":
                    continue
                x = unwrap(agg_field(v, "0"))
                if re.search(r"Scalar as .*Clone>", b.name) and sp(x) == ("0",):
                    continue
                n["scalar"] += 1
                ok = const_of(x) is not None or any(called(k, r"is_nan$", x) and f == ("eq", "0") for k, f in p.facts.items()) or any(k.op == "bin" and k.a[0] in ("Eq", "Ne") and unwrap(k.a[1]) is x and unwrap(k.a[2]) is x and f == ("eq", "1" if k.a[0] == "Eq" else "0") for k, f in p.facts.items())
                c.ob("number", b.name, ok, "a scalar is made of a number that may be NaN", span=b.span)


def equality(c, n):
    """equality, order and hash of scalars are of one kind"""
    me, other = mk("proj", SELF, ("f", "0")), mk("proj", mk("arg", "other"), ("f", "0"))
    is_bits = lambda v, x: called(v, r"f32::to_bits$", x)
    kinds = set()
    for b in anchored(c, r"Scalar as .*PartialEq(<.*>)?>::eq$"):
        for p in c.paths_of(b):
            v = p.ret if p.end == "return" else None
            k = "?"
            if v is not None and v.op == "bin" and v.a[0] == "Eq":
                x, y = unwrap(v.a[1]), unwrap(v.a[2])
                k = "number" if {x, y} == {me, other} else "bits" if any(is_bits(u, me) and is_bits(w, other) for u, w in ((x, y), (y, x))) else "?"
            kinds.add(k)
    k = kinds.pop() if len(kinds) == 1 else "?"
    c.ob("equal", "equality", k != "?", "scalars are not compared by their numbers", "equal|eq")
    for b in anchored(c, r"Scalar as .*Hash>::hash$"):
        for p in c.paths_of(b, events=r"Hash>?::hash$|Hasher>?::write"):
            if p.end == "loop":
                continue
            ev = [e for e in p.events if e.kind == "call"]
            x = unwrap(ev[0].args[0]) if len(ev) == 1 else None
            if x is not None and ev[0].name.split("::")[-1].startswith("write"):
                x = unwrap(ev[0].args[1])
            zero = next((f == ("eq", "1") for v, f in p.facts.items() if v.op == "bin" and v.a[0] == "Eq" and me in v.a[1:] and any(is_zero(y) for y in v.a[1:])), None)
            y = unwrap(x.a[1][0]) if x is not None and call_name(x).endswith("f32::to_bits") else None
            if k == "bits":
                ok = y is me
            else:
                ok = x is not None and (zero is True and not any(w is me for w in walk(x)) or zero is False and y is me or y is not None and y.op == "bin" and y.a[0] == "Add" and me in y.a[1:] and any(is_zero(w) for w in y.a[1:]))
            n["hash of a scalar"] += 1
            c.ob("equal", b.name, p.end == "return" and bool(ok), "zero and negative zero are equal, but hashed differently", "equal|hash", span=b.span)
    for b in anchored(c, r"Scalar as .*(Ord|PartialOrd(<.*>)?)>::(cmp|partial_cmp)$"):
        for p in c.paths_of(b):
            v = p.ret
            if p.end == "diverge":
                ok = any(called(w, r"f32 as .*PartialOrd(<.*>)?>::partial_cmp$", me, other) and f == ("eq", "None") for w, f in p.facts.items())
            elif p.end == "return":
                v = unwrap(payload(v, "Some")) if b.name.endswith("partial_cmp") else unwrap(v)
                if v.op == "proj" and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Some"):
                    v = unwrap(v.a[0].a[0])
                ok = called(v, r"f32 as .*PartialOrd(<.*>)?>::partial_cmp$", me, other) if k != "bits" else called(v, r"total_cmp$", me, other)
            else:
                continue
            n["order of scalars"] += 1
            c.ob("equal", b.name, bool(ok), "scalars are not ordered by their numbers", "equal|order", span=b.span)
    c.floor("cases: hash", n["hash of a scalar"], 1)
    c.floor("cases: order", n["order of scalars"], 2)


def is_zero(v):
    return is_const(v) and str(const_of(v)).lower() in ("0", "0.0", "0f32", "0.0f32", "+0.0", "-0.0", "2147483648")


def pieces_of(v):
    """(index, whether trimmed) of a piece of the value between hyphens"""
    v = unwrap(v)
    trim = False
    while re.search(r"str>?::trim$", call_name(v)):
        trim, v = True, unwrap(v.a[1][0])
    if v.op != "proj" or v.a[1][0] not in ("f", "i", "ci", "c"):
        return None
    i, s = v.a[1][1], unwrap(v.a[0])
    while True:
        nm = call_name(s)
        if re.search(r"Iterator>?::collect$|::as_slice$|::into_iter$|::iter$|::as_ref$", nm):
            s = unwrap(s.a[1][0])
        elif re.search(r"Iterator>?::map$", nm) and re.search(r"str>?::trim$", show(s.a[1][1])):
            trim, s = True, unwrap(s.a[1][0])
        else:
            break
    if re.search(r"str>?::split$", call_name(s)) and unwrap(s.a[1][0]) is mk("arg", "value") and const_of(s.a[1][1]) in (45, "-"):
        return str(i), trim
    return None


def ranges(c, n):
    for b in anchored(c, r"Pages as .*FromStr>::from_str$"):
        for p in c.paths_of(b, events="zz", opaque=r"parse_page_number$"):
            if p.end != "return":
                c.ob("range", b.name, False, "reading a range ends the program", span=b.span)
                continue
            count, empty, num = None, {}, {}
            for v, f in p.facts.items():
                if re.search(r"(^|::)len$", call_name(v)):
                    count = f[1] if f[0] == "eq" else "more"
                if v.op == "bin" and v.a[0] == "Eq" and const_of(v.a[2]) == "" and pieces_of(v.a[1]):
                    empty[pieces_of(v.a[1])[0]] = f == ("eq", "1")
                if re.search(r"parse_page_number$", call_name(v)):
                    x = pieces_of(v.a[1][0])
                    c.ob("range", b.name, bool(x) and x[1], "the text of a number is not the trimmed text beside the hyphen", span=b.span)
                    if x:
                        num[x[0]] = v
            kind = p.variant(p.ret)
            want = None
            if count == "0" or count == "more":
                want = "Err"
            elif count == "1":
                v = num.get("0")
                want = "Err" if empty.get("0") or v is not None and p.variant(v) == "Err" else [v, v] if v is not None else None
            elif count == "2":
                e0, e1 = empty.get("0"), empty.get("1")
                bad = any(p.variant(v) == "Err" for v in num.values())
                if e0 and e1:
                    want = "Err"
                elif bad:
                    n["no number"] += 1
                    want = "Err"
                elif e0 is True and e1 is False and set(num) == {"1"}:
                    want = [None, num["1"]]
                elif e0 is False and e1 is True and set(num) == {"0"}:
                    want = [num["0"], None]
                elif e0 is False and e1 is False and set(num) == {"0", "1"}:
                    x, y = payload(num["0"], "Ok"), payload(num["1"], "Ok")
                    le = ordered(p, x, y)
                    want = None if le is None else "Err" if not le else [num["0"], num["1"]]
                    if le is False:
                        n["wrong order"] += 1
            if want is None:
                c.ob("range", b.name, False, "a range is read without looking at all its parts", span=b.span)
                continue
            if want == "Err":
                c.ob("range", b.name, kind == "Err", "a text that is no range is read as one", span=b.span)
                continue
            n["one number" if count == "1" else "open start" if want[0] is None else "open end" if want[1] is None else "two numbers"] += 1
            r = agg_field(p.ret, "0") if kind == "Ok" else None
            r = unwrap(agg_field(r, "0")) if r is not None and r.op == "agg" else None
            ok = r is not None and re.search(r"RangeInclusive(<.*>)?::new$", call_name(r))
            ok = ok and all((agg_variant(unwrap(g)) == "None" if w is None else opt(g, lambda x: x is payload(w, "Ok"))) for g, w in zip(r.a[1], want))
            c.ob("range", b.name, bool(ok), "a range is read as another", span=b.span)
    for b in anchored(c, r"parse_page_number$"):
        v = mk("arg", "value")
        for p in c.paths_of(b, events="zz"):
            read = [x for x in p.facts if called(x, r"FromStr>?::from_str$|str>?::parse$", v)]
            zero = any(x.op == "bin" and x.a[0] == "Eq" and x.a[1] is v and const_of(x.a[2]) == "0" and f == ("eq", "1") for x, f in p.facts.items())
            if zero and not read:
                c.ob("range", b.name, p.variant(p.ret) == "Err", "zero is a page", span=b.span)
                continue
            ok = bool(read) and re.search(r"NonZero", call_name(read[0])) and p.variant(p.ret) == p.variant(read[0]) and (p.variant(p.ret) == "Err" or unwrap(agg_field(p.ret, "0")) is payload(read[0], "Ok") if p.ret.op == "agg" else p.ret is read[0])
            c.ob("range", b.name, bool(ok), "a number is read as another", span=b.span)
    for b in anchored(c, r"Pages as .*Display>::fmt$"):
        for p in c.paths_of(b, events=WRITES):
            ends = {}
            for k in ("start", "end"):
                ends[k] = next((x for x in p.facts if called(x, r"RangeInclusive(<.*>)?::%s$" % k, F(SELF, "0"))), None)
            got, ok, failed = written(p, mk("arg", "f"))
            if p.end == "return" and failed:
                c.ob("range", b.name, ok, "a range that could not be written is told to be", span=b.span)
                continue
            if p.end != "return" or None in ends.values() or not ok:
                c.ob("range", b.name, False, "a range is not written with both its ends", span=b.span)
                continue
            want = [str_of(p, ends["start"]), "-", str_of(p, ends["end"])]
            n["shown"] += 1
            c.ob("range", b.name, same_text(got, [x for x in want if x]), "a range is written as another", span=b.span)
    for ty, what in (("Pages", "a range"),):
        text_form(c, ty, "range", what)


def text_form(c, ty, rule, what):
    """a type is stored as the text it is shown as, and read from it"""
    for b in anchored(c, r"%s as .*Serialize>::serialize$" % ty):
        for p in c.paths_of(b, events="zz", hof=False):
            if p.end == "return":
                ok = called(p.ret, r"serialize_str$", mk("arg", "serializer"), lambda x: x is SELF or content(x) == [("arg", SELF, "display")] or called(x, r"to_string$", SELF)) or called(p.ret, r"collect_str$", mk("arg", "serializer"), SELF)
                c.ob(rule, b.name, ok, what + " is stored as another text than it is shown as", span=b.span)
    for b in anchored(c, r"%s as .*Deserialize(<.*>)?>::deserialize$" % ty):
        for p in c.paths_of(b, events="zz", hof=False, opaque=r"FromStr>::from_str$|str>?::parse$"):
            if p.end == "return" and p.variant(p.ret) != "Err" or p.end == "return" and CTX.search(call_name(p.ret)):
                r = ctx(p.ret)
                if r.op == "agg" and agg_variant(r) == "Ok":
                    r = ok_of(agg_field(r, "0")) or r
                s = unwrap(r.a[1][0]) if re.search(r"FromStr>?::from_str$|str>?::parse$", call_name(r)) else None
                ok = s is not None and ok_of(s) is not None and called(ok_of(s), r"Deserialize(<.*>)?>?::deserialize$", mk("arg", "deserializer"))
                c.ob(rule, b.name, bool(ok), what + " is read from another text than it is stored as", span=b.span)


def str_of(p, v):
    return ("arg", payload(v, "Some"), "display") if p.variant(v) == "Some" else "" if p.variant(v) == "None" else None


def same_text(a, b):
    def norm(x):
        return x if isinstance(x, str) else ("arg", strip_text(x[1]), x[2])
    return None not in b and [norm(x) for x in a] == [norm(x) for x in b]


def strip_text(v):
    v = unwrap(v)
    while re.search(r"to_string$", call_name(v)):
        v = unwrap(v.a[1][0])
    return v


def ordered(p, x, y):
    """whether the path knows x <= y"""
    for v, f in p.facts.items():
        m = re.search(r"(Partial)?Ord(<.*>)?>?::(lt|le|gt|ge)$", call_name(v))
        op, a = (m.group(3), [unwrap(z) for z in v.a[1]]) if m else (v.a[0].lower(), [unwrap(v.a[1]), unwrap(v.a[2])]) if v.op == "bin" and v.a[0] in ("Lt", "Le", "Gt", "Ge") else (None, None)
        if op is None or f not in (("eq", "0"), ("eq", "1")):
            continue
        t = f[1] == "1"
        if a == [y, x]:
            op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[op]
        elif a != [x, y]:
            continue
        if op == "gt":
            return not t
        if op == "le":
            return t
        # strict tests leave equal numbers to the other side
        return None
    return None


def selection(c, n):
    task = mk("arg", "task")
    tr = F(task, "transform")
    for b in anchored(c, r"get_page_selection$"):
        for p in c.paths_of(b, events=r".", opaque=r"parse_length$", cut=".", hof=False, iters=False):
            if told_twice(p):
                continue
            if p.end == "diverge":
                c.ob("selection", b.name, False, "the selection ends the program", span=b.span)
                continue
            anys = [v for v in p.facts if re.search(r"Iterator>?::any$", call_name(v)) and over(v.a[1][0], tr)]
            if not anys:
                c.ob("selection", b.name, False, "the transforms are not looked at for the first page", span=b.span)
                continue
            a = anys[0]
            if not n["closure"]:
                n["closure"] = 1
                ev = [e for e in p.events if e.res is a]
                first_only(c, b, p, a, ev[0] if ev else None, n)
            kind, val = result(p)
            if flag(p, a):
                n["first"] += 1
                val = val if val is None or val.op == "agg" else None
                ok = kind == "Ok" and val is not None and (beval(val.a[4], {a: True}) is True)
                c.ob("selection", b.name, ok, "the first page is not what is exported", span=b.span)
                continue
            nx = [v for v in p.facts if re.search(r"Iterator>?::next$", call_name(v)) and over(v.a[1][0], tr)]
            if not nx:
                c.ob("selection", b.name, False, "the transforms are not looked at for a gap", span=b.span)
                continue
            it = nx[-1]
            gaps = [lv for lv in loops_of(p) if not re.search(r"iter", call_name(lv.a[3])) and lv.a[3] is not tr and is_default(unwrap(lv.a[3]))]
            if p.variant(it) == "None":
                n["no merge"] += 1
                ok = kind == "Ok" and val is not None and val.op == "agg" and beval(val.a[4], {a: False}) is False and unwrap(val.a[5]) in gaps
                c.ob("selection", b.name, ok, "the gap is not the one found among the transforms", span=b.span)
                continue
            item = payload(it, "Some")
            if excludes(p, item, "Merge"):
                n["other"] += 1
                ok = p.end == "loop" and all(p.loop_next(g) in (None, g) for g in gaps)
                c.ob("selection", b.name, ok, "a transform that is no merge sets a gap", span=b.span)
                continue
            n["merge"] += 1
            gap = F(payload_of(item, "Merge"), "gap")
            pf = [v for v in p.facts if called(ctx(v), r"parse_length$", lambda x: unwrap(x) is payload(gap, "Some"))]
            pl = [ctx(v) for v in pf]
            got = [p.loop_next(g) for g in gaps if p.loop_next(g) is not None]
            if p.variant(gap) == "None":
                ok = p.end == "loop" and len(got) == 1 and nothing(p, got[0])
            elif any(p.variant(v) == "Err" for v in pf):
                ok = p.end == "return" and kind == "Err"
            else:
                ok = p.end == "loop" and len(set(pl)) == 1 and len(got) == 1 and given(got[0], pl[0])
            if impossible_some(p, gap, pl):
                continue
            c.ob("selection", b.name, ok, "a merge does not set its own gap", span=b.span)
    for b in anchored(c, r"compute::parse_length$"):
        gap = mk("arg", "gap")
        want = {"Pt": "pt", "Mm": "mm", "Cm": "cm", "In": "inches"}
        code = lambda v: called(v, r"parse_code$", gap)
        for p in c.paths_of(b, events="zz", opaque=r"descendants$"):
            if told_twice(p):
                continue
            kind, val = result(p)
            err = [flag(p, v) for v in p.facts if called(v, r"::erroneous$", code)]
            if not err or err[0]:
                c.ob("length", b.name, kind == "Err", "text with errors is a length", span=b.span)
                continue
            num = [v for v in p.facts if re.search(r"Iterator>?::find_map$", call_name(v)) and called(v.a[1][0], r"descendants$", code)]
            if not num or p.variant(num[0]) != "Some":
                c.ob("length", b.name, kind == "Err", "text without a number is a length", span=b.span)
                continue
            got = [v for v in subvalues_of(p) if called(v, r"Numeric(<.*>)?::get$", payload(num[0], "Some"))]
            if not got:
                c.ob("length", b.name, kind == "Err", "the number is not looked at", span=b.span)
                continue
            unit = F(got[0], "1")
            units = [k for k in ("Pt", "Mm", "Cm", "In", "Rad", "Deg", "Em", "Fr", "Percent") if not excludes(p, unit, k)]
            for u in units:
                n[u] += 1
                if u in want:
                    c.ob("length", b.name, kind == "Ok" and called(val, r"Abs(<.*>)?::%s$" % want[u], F(got[0], "0")), "a length in the unit %s is another" % u, span=b.span)
                else:
                    c.ob("length", b.name, kind == "Err", "the unit %s is a length" % u, span=b.span)


def subvalues_of(p):
    out = []
    for v in p.facts:
        out += subvalues(v)
    return out


def payload_of(v, variant):
    from vfs import payload as pl
    x = pl(v, variant)
    return x.a[0] if x.op == "proj" and x.a[1] == ("f", "0") else x


def loops_of(p):
    out = []
    for v in list(p.facts) + [p.ret] + [e.res for e in p.events if e.res is not None] + [x for e in p.events for x in e.args]:
        if isinstance(v, V):
            out += [x for x in subvalues(v) if x.op == "loop"]
    return list(dict.fromkeys(out + p.loop_vars()))


def nothing(p, v):
    v = unwrap(v)
    return is_default(v) or called(v, r"unwrap_or_default$", lambda x: p.variant(x) == "None")


def given(v, r):
    """whether a value is the success of a result, through options and contexts"""
    v = unwrap(v)
    for _ in range(8):
        if v is payload(r, "Ok"):
            return True
        if v.op == "agg" and agg_variant(v) in ("Some", "Ok"):
            v = unwrap(agg_field(v, "0"))
        elif v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1][0] == "d" and v.a[0].a[1][1] in ("Ok", "Some"):
            x = ctx(v.a[0].a[0])
            if x.op == "agg":
                v = unwrap(agg_field(x, "0"))
            elif x.op == "proj":
                v = x
            else:
                return x is r
        elif re.search(r"unwrap_or_default$", call_name(v)):
            v = unwrap(v.a[1][0])
        else:
            return False
    return False


def impossible_some(p, gap, pl):
    """paths on which the context of a result changes whether there is a gap"""
    for v in p.facts:
        if v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Ok") and CTX.search(call_name(v.a[0].a[0])):
            x = ctx(v.a[0].a[0])
            if x.op == "agg" and agg_variant(x) == "Ok":
                y = unwrap(agg_field(x, "0"))
                if p.variant(y) and p.variant(v) and p.variant(y) != p.variant(v):
                    return True
    return False


def over(v, place):
    """whether an iterator goes over all of a list"""
    v = unwrap(v)
    for _ in range(6):
        if place(v) if callable(place) else v is place:
            return True
        if v.op == "loop":
            v = unwrap(v.a[3])
        elif v.op == "mut":
            v = unwrap(v.a[2])
        elif re.search(r"::(iter|into_iter|as_slice|deref|as_ref)$", call_name(v)):
            v = unwrap(v.a[1][0])
        else:
            return False
    return False


def first_only(c, b, p, a, ev, n):
    """the test for the range of the first page alone"""
    item = mk("arg", "transform-item")
    runs = closure_runs(c, p, a.a[1][1], {2: item}, at=ev, events=r".") or []
    c.ob("selection", b.name, bool(runs), "it is not told how the first page is selected", span=b.span)
    for r in runs:
        if r.end != "return":
            continue
        n["tests"] += 1
        if excludes(r, item, "Pages"):
            c.ob("selection", b.name, flag(r, r.ret) is False, "a transform that is no range of pages selects the first page", span=b.span)
            continue
        rg = F(payload_of(item, "Pages"), "ranges")
        ok = False
        for v, f in list(r.facts.items()) + [(r.ret, None)]:
            t = cmp_eq(v)
            if not t or not any(unwrap(x) is rg for x in t[0]):
                continue
            same = [x for x in t[0] if unwrap(x) is not rg]
            got = flag(r, r.ret) if f is not None else True
            want = f == ("eq", "1") if f is not None else True
            ok = len(same) == 1 and first_list(same[0]) and got is want
        c.ob("selection", b.name, ok, "another range than the first page selects it", span=b.span)


def first_list(v):
    """whether a value is the list of the range from one to one"""
    k = const_of(unwrap(v))
    if not isinstance(k, list) or len(k) != 1 or not isinstance(k[0], dict):
        return False
    r = k[0].get("0", k[0])
    ends = [r.get("start"), r.get("end")] if isinstance(r, dict) else []
    return len(ends) == 2 and not r.get("exhausted") and all(isinstance(e, dict) and e.get("variant") == "Some" and e.get("o") == [1] for e in ends)


def images(c, n):
    doc, cfg = mk("arg", "doc"), mk("arg", "config")
    SEL = r"get_page_selection$"
    for kind, rx in (("svg", r"SvgExport as .*ExportComputation.*>::run$"), ("png", r"PngExport as .*ExportComputation.*>::run$")):
        for b in anchored(c, rx):
            for p in c.paths_of(b, events="zz", opaque=SEL + r"|parse_color$"):
                if told_twice(p):
                    continue
                k, val = result(p)
                sel = [v for v in p.facts if called(v, SEL, F(cfg, "export"))]
                bad = []
                if kind == "png":
                    low = low_ppi(p, F(cfg, "ppi"))
                    if low is not False:
                        n["ppi"] += 1
                        c.ob("image", b.name, low is True and k == "Err", "a picture of no resolution is drawn", span=b.span)
                        continue
                    fill = F(cfg, "fill")
                    col = [v for v in p.facts if called(v, r"parse_color$", payload(fill, "Some"))]
                    if col and p.variant(col[0]) == "Err":
                        bad.append(1)
                if sel and p.variant(sel[0]) == "Err" or bad:
                    c.ob("image", b.name, k == "Err", "a wrong setting is ignored", span=b.span)
                    continue
                if not sel:
                    c.ob("image", b.name, False, "the pages are not selected", span=b.span)
                    continue
                s = payload(sel[0], "Ok")
                if kind == "png":
                    enc = [v for v in p.facts if re.search(r"encode_png$", call_name(v))]
                    if not enc or k != p.variant(enc[0]):
                        c.ob("image", b.name, False, "a picture that cannot be encoded is a success, or the other way around", span=b.span)
                        continue
                    if k == "Err":
                        continue
                    val = unwrap(val)
                    ok = called(val, r"Bytes::new$", payload(enc[0], "Ok")) or val is payload(enc[0], "Ok")
                    c.ob("image", b.name, ok, "the picture is not what is given", span=b.span)
                    val = unwrap(enc[0].a[1][0])
                elif k != "Ok":
                    c.ob("image", b.name, False, "an export fails without a reason", span=b.span)
                    continue
                is_first = flag(p, F(s, "0"))
                fp = [v for v in p.facts if called(v, r"::first$", F(doc, "pages"))]
                draw = {"svg": (r"typst_svg::svg$", r"typst_svg::svg_merged$"), "png": (r"typst_render::render$", r"typst_render::render_merged$")}[kind]
                if is_first and fp and p.variant(fp[0]) == "Some":
                    n[kind + " first"] += 1
                    ok = called(val, draw[0], payload(fp[0], "Some"))
                    at = 1
                    merged = False
                elif is_first is False or is_first and fp and p.variant(fp[0]) == "None":
                    n[kind + " merged"] += 1
                    merged = True
                    at = 1
                    ok = called(val, draw[1], doc) and unwrap(val.a[1][2 if kind == "png" else 1]) is F(s, "1")
                else:
                    ok = False
                c.ob("image", b.name, ok, "other pages are drawn than those selected", span=b.span)
                if kind == "png" and ok:
                    r = unwrap(val.a[1][at])
                    res = r.op == "bin" and r.a[0] == "Div" and unwrap(r.a[1]) in ppi_of(cfg) and const_of(r.a[2]) in (72, 72.0, 1116733440)
                    c.ob("image", b.name, res, "the picture has another resolution", span=b.span)
                    if merged:
                        f = unwrap(val.a[1][3])
                        x = unwrap(agg_field(f, "0")) if f.op == "agg" and agg_variant(f) == "Some" else None
                        v = p.variant(fill)
                        if v == "Some":
                            n["fill"] += 1
                            good = x is not None and bool(col) and x is payload(col[0], "Ok")
                        else:
                            n["white"] += 1
                            good = v == "None" and x is not None and (const_of(x) == 1 or "WHITE" in show(x))
                        c.ob("image", b.name, good, "the picture has another fill", span=b.span)
    for b in anchored(c, r"HtmlExport as .*ExportComputation.*>::run$"):
        for p in c.paths_of(b, events="zz"):
            h = [v for v in p.facts if called(v, r"typst_html::html$", doc)]
            k, val = result(p)
            if not h:
                c.ob("pdf", b.name, called(ctx(p.ret), r"typst_html::html$", doc), "the html is not of the document", span=b.span)
                continue
            n["html"] += 1
            c.ob("pdf", b.name, k == p.variant(h[0]) and (k == "Err" or val is payload(h[0], "Ok")), "the html is not of the document", span=b.span)


def ppi_of(cfg):
    return (F(cfg, "ppi", "0"), F(cfg, "ppi"))


def low_ppi(p, ppi):
    """whether the resolution is at most 1e-6"""
    import struct
    xs = (ppi, F(ppi, "0"))
    small = (1e-6, struct.unpack("<I", struct.pack("<f", 1e-6))[0])
    for v, f in p.facts.items():
        if v.op != "bin" or f not in (("eq", "0"), ("eq", "1")):
            continue
        t, a, x, y = f[1] == "1", v.a[0], unwrap(v.a[1]), unwrap(v.a[2])
        if x in xs and const_of(y) in small:
            a, x, y = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(a, a), y, x
        if const_of(x) in small and y in xs:
            if a == "Lt":
                return not t
            if a == "Ge":
                return t
    return None


def pdf(c, n):
    doc, cfg = mk("arg", "doc"), mk("arg", "config")
    ts = F(cfg, "creation_timestamp")
    for b in anchored(c, r"PdfExport as .*ExportComputation.*>::run$"):
        for p in c.paths_of(b, events=r".", hof=False):
            if told_twice(p):
                continue
            k, val = result(p)
            errs = [v for v in p.facts if f_is(p, v, "Err") and re.search(r"to_utc_datetime$|PdfStandards(<.*>)?::new$|::pdf$", call_name(ctx(v)))]
            if k == "Err":
                c.ob("pdf", b.name, bool(errs) or any(f_is(p, v, "Err") for v in p.facts), "an export fails without a reason", span=b.span)
                continue
            made = ok_of(val.a[1][0]) if called(val, r"Bytes::new$") else ok_of(val)
            if made is None or not called(made, r"pdf::pdf$|typst_pdf::pdf$", doc):
                c.ob("pdf", b.name, False, "the export is not typst's pdf of the document", span=b.span)
                continue
            o = unwrap(made.a[1][1])
            t, s = field(o, "timestamp"), field(o, "standards")
            t = unwrap(agg_field(t, "0")) if t is not None and t.op == "agg" and agg_variant(t) == "Some" else None
            t = unwrap(t.a[1][0]) if t is not None and called(t, r"Timestamp(<.*>)?::new_utc$") else None
            t = unwrap(t.a[1][0]) if t is not None and called(t, r"to_typst_time$") else None
            if p.variant(ts) == "Some":
                n["pdf at"] += 1
                ok = t is not None and ok_of(t) is not None and called(ok_of(t), r"to_utc_datetime$", payload(ts, "Some"))
            else:
                n["pdf now"] += 1
                ok = p.variant(ts) == "None" and t is not None and called(t, r"utc_now$")
            if p.variant(ts) is None and t is not None:
                ok = lazily(c, p, t, ts, n)
            c.ob("pdf", b.name, bool(ok), "the document has another time than asked for", span=b.span)
            st = ok_of(s) if s is not None else None
            src = unwrap(st.a[1][0]) if st is not None and called(st, r"PdfStandards(<.*>)?::new$") else None
            while src is not None and re.search(r"::(collect|deref|as_slice|as_ref|borrow)$", call_name(src)):
                src = unwrap(src.a[1][0])
            ok = src is not None and re.search(r"Iterator>?::map$", call_name(src)) and over(src.a[1][0], F(cfg, "pdf_standards"))
            c.ob("pdf", b.name, bool(ok), "the standards asked for are not those used", span=b.span)
            if ok:
                item = mk("arg", "standard-item")
                ev = [e for e in p.events if e.res is src]
                for r in closure_runs(c, p, src.a[1][1], {2: item}, at=ev[0] if ev else None, events="zz") or []:
                    for x in possible(r, item, ("V_1_7", "A_2b", "A_3b")):
                        n["standard"] += 1
                        c.ob("pdf", b.name, r.end == "return" and r.variant(r.ret) == x, "the standard %s is taken for another" % x, span=b.span)


def f_is(p, v, k):
    return p.variant(v) == k


def lazily(c, p, t, ts, n):
    """a time from an option that was not branched on: map, transpose, unwrap_or_else"""
    if not re.search(r"unwrap_or_else$", call_name(t)):
        return False
    o, clo = unwrap(t.a[1][0]), t.a[1][1]
    r = ok_of(o)
    if r is None or not re.search(r"::transpose$", call_name(r)):
        return False
    m = unwrap(r.a[1][0])
    if not re.search(r"Option(<.*>)?::map$", call_name(m)) or unwrap(m.a[1][0]) is not ts:
        return False
    x = mk("arg", "seconds")
    ev = [e for e in p.events if e.res is m]
    runs = closure_runs(c, p, m.a[1][1], {2: x}, at=ev[0] if ev else None, events="zz") or []
    ok = bool(runs) and all(called(ctx(q.ret), r"to_utc_datetime$", x) for q in runs if q.end == "return")
    n["pdf at"] += 1
    n["pdf now"] += 1
    return ok and "utc_now" in show(clo)


# ---------------------------------------------------------------------- T04
OPQ4 = r"DocumentQuery::(run_inner|retrieve|get_as_value)$|compute::serialize$"
FULL = r"FullTextDigest::(export_frame|export_item|export_element|export_html_node)$"


@check("T04")
def t04(c):
    """a query gives what it asked for, and a text export has all the text"""
    c.which = 2
    n = defaultdict(int)
    c.rule("elements", "DocumentQuery::retrieve gives all elements the document's introspector finds for the selector that the code given evaluates to in the world, and an error if it evaluates to none; run_inner fails if one is asked for and there is not exactly one, and gives of each element the field asked for, if it has it, or the whole element.")
    c.rule("answer", "The answer to a query is its first value if one is asked for, and an error without one, and the list of all values otherwise, in the format asked for: json and yaml as serde_json and serde_yaml write it, txt only for a text, which is given as it is; any other format is an error.")
    c.rule("text", "The text export writes every text and every frame inside of a document exactly once, in the order of the pages, of the items of a frame and of the children of an element, and after a frame its hint if it has one; nothing else is written, and a failed write ends the export with it.")
    queries(c, n)
    texts(c, n)
    for k in ("found", "not found", "field", "whole", "not one", "first", "none", "all", "json", "yaml", "txt", "no text", "no format", "frame item", "frame end", "hint", "no hint", "page", "pages end", "child", "children end", "item Text", "item Group", "item none", "node Text", "node Element", "node Frame", "node none", "html"):
        c.floor("cases: " + k, n[k], 1)


def queries(c, n):
    g, doc, cfg, world, sel = (mk("arg", x) for x in ("g", "doc", "config", "world", "selector"))
    for b in anchored(c, r"DocumentQuery::retrieve$"):
        document = mk("arg", "document")
        for p in c.paths_of(b, events=".", hof=False, cut=".", iters=False):
            ev = [v for v in p.facts if called(ctx(v), r"eval_string$", None, lambda x: called(x, r"::track$", world), sel)]
            if p.end == "loop":
                continue
            k, val = result(p)
            if not ev:
                c.ob("elements", b.name, False, "the selector is not the code given", span=b.span)
                continue
            cast = [v for v in p.facts if re.search(r"::cast$", call_name(ctx(v))) and ok_of(ctx(v).a[1][0]) is not None and called(ok_of(ctx(v).a[1][0]), r"eval_string$")]
            if p.variant(ev[0]) == "Err" or cast and (p.variant(cast[0]) == "Err"):
                n["not found"] += 1
                c.ob("elements", b.name, k == "Err", "a wrong selector finds something", span=b.span)
                continue
            n["found"] += 1
            v = unwrap(val) if val is not None else None
            while v is not None and re.search(r"::(collect|into_iter|to_vec|cloned)$", call_name(v)):
                v = unwrap(v.a[1][0])
            ok = v is not None and called(v, r"Introspector(<.*>)?::query$", lambda x: called(x, r"::introspector$", document))
            s = unwrap(v.a[1][1]) if ok else None
            s = s.a[0] if s is not None and s.op == "proj" and s.a[1] == ("f", "0") and s.a[0].op == "proj" and s.a[0].a[1] == ("f", "0") else s
            inner = s if s is None else ok_of(s)
            ok = ok and inner is not None and bool(cast) and inner is ctx(cast[0])
            c.ob("elements", b.name, ok, "the elements are not those of the document that the selector finds", span=b.span)
    fld = F(cfg, "field")

    def element(b, q, item, put, ended):
        """of one element, its field or all of it is given; put is what is given, None for nothing"""
        if not ended:
            c.ob("elements", b.name, False, "an element ends the query", span=b.span)
            return
        k = q.variant(fld)
        if k == "Some":
            n["field"] += 1
            by = [y for y in list(q.facts) + ([put] if put is not None else []) if called(y, r"get_by_name$", item, payload(fld, "Some"))]
            by += [ctx(unwrap(put.a[1][0]))] if put is not None and re.search(r"Result(<.*>)?::ok$", call_name(put)) and called(ctx(put.a[1][0]), r"get_by_name$", item, payload(fld, "Some")) else []
            if not by:
                good = False
            elif q.variant(by[0]) == "Err":
                good = put is None
            elif q.variant(by[0]) == "Ok":
                good = put is payload(by[0], "Ok")
            else:
                good = put is not None and re.search(r"Result(<.*>)?::ok$", call_name(put)) is not None
        elif k == "None":
            n["whole"] += 1
            good = put is not None and (put is item or called(put, r"into_value$", item))
        else:
            good = False
        c.ob("elements", b.name, bool(good), "of an element another thing is given than asked for", span=b.span)

    def gather(v):
        while v is not None and re.search(r"::(collect|into_iter|to_vec)$", call_name(v)):
            v = unwrap(v.a[1][0])
        return v

    for b in anchored(c, r"DocumentQuery::run_inner$"):
        for p in c.paths_of(b, events=".", opaque=r"DocumentQuery::retrieve$", hof=False, cut=".", iters=False):
            if told_twice(p):
                continue
            r = [v for v in p.facts if called(v, r"DocumentQuery::retrieve$", F(g, "snap", "world"), F(cfg, "selector"), doc)]
            k, val = result(p)
            if not r or p.variant(r[0]) != "Ok":
                c.ob("elements", b.name, bool(r) and k == "Err", "the elements are not those found", span=b.span)
                continue
            els = payload(r[0], "Ok")
            one = flag(p, F(cfg, "one"))
            if one is not False:
                is1 = one_of(p, els)
                if one is None or is1 is None:
                    c.ob("elements", b.name, False, "it is not told whether there is one element", span=b.span)
                    continue
                if not is1:
                    n["not one"] += 1
                    c.ob("elements", b.name, k == "Err", "other than one element is given for one", span=b.span)
                    continue
            nx = [v for v in p.facts if re.search(r"Iterator>?::next$", call_name(v)) and over(v.a[1][0], els)]
            lists = [lv for lv in loops_of(p) if re.search(r"Vec(<.*>)?::(new|with_capacity)$|::default$", call_name(unwrap(lv.a[3])))]
            if nx and p.variant(nx[-1]) == "Some":
                item = payload(nx[-1], "Some")
                put = []
                for lv in lists:
                    w = p.loop_next(lv)
                    if w is not None and w is not lv:
                        put.append(w.a[0].a[1][1] if w.op == "mut" and re.search(r"Vec(<.*>)?::push$", call_name(w.a[0])) and w.a[1] == 0 and w.a[2] is lv else mk("none"))
                element(b, p, item, unwrap(put[0]) if put else None, p.end == "loop" and len(put) <= 1)
                continue
            v = gather(unwrap(val)) if val is not None else None
            if nx:
                c.ob("elements", b.name, v is not None and v in lists, "not all elements are given", span=b.span)
                continue
            ok = v is not None and re.search(r"Iterator>?::(filter_map|flat_map)$", call_name(v)) and over(v.a[1][0], els)
            c.ob("elements", b.name, bool(ok), "not all elements are given", span=b.span)
            if not ok:
                continue
            item = mk("arg", "element")
            ev = [e for e in p.events if e.res is v]
            for q in closure_runs(c, p, v.a[1][1], {2: item}, at=ev[0] if ev else None, events="zz") or []:
                put = unwrap(agg_field(q.ret, "0")) if q.ret.op == "agg" and q.variant(q.ret) == "Some" else q.ret if q.variant(q.ret) != "None" else None
                element(b, q, item, put, q.end == "return")
    for rx, out in ((r"DocumentQuery::get_as_value$", r"serde_json(::value)?(::ser)?::to_value$"), (r"DocumentQuery as .*ExportComputation.*>::run$", r"compute::serialize$")):
        for b in anchored(c, rx):
            for p in c.paths_of(b, events="zz", opaque=OPQ4, hof=False):
                if told_twice(p):
                    continue
                r = [v for v in p.facts if called(v, r"DocumentQuery::run_inner$", g, doc, cfg)]
                k, val = result(p)
                if not r or p.variant(r[0]) != "Ok":
                    c.ob("answer", b.name, bool(r) and k == "Err", "the answer is not that of the query", span=b.span)
                    continue
                vals = payload(r[0], "Ok")
                one = flag(p, F(cfg, "one"))
                has, head = option(p, r"::first$", vals)
                if one is None or one and not has:
                    c.ob("answer", b.name, False, "it is not told whether one is asked for", span=b.span)
                    continue
                if one and has == "None":
                    n["none"] += 1
                    c.ob("answer", b.name, k == "Err", "nothing is given for one", span=b.span)
                    continue
                n["first" if one else "all"] += 1
                want = head if one else vals
                s = [v for v in list(p.facts) + [ctx(p.ret)] if called(v, out, want)]
                if not s:
                    c.ob("answer", b.name, False, "other values are given than asked for", span=b.span)
                    continue
                if "serialize" in out:
                    ok = unwrap(s[0].a[1][1]) is F(cfg, "format")
                    if p.variant(s[0]) == "Ok":
                        x = val
                        x = unwrap(agg_field(x, "0")) if x is not None and x.op == "agg" and agg_variant(x) == "Ok" else x
                        ok = ok and k == "Ok" and x is payload(s[0], "Ok")
                    else:
                        ok = ok and (k == "Err" or ctx(p.ret) is s[0] or re.search(r"Result(<.*>)?::map$", call_name(p.ret)) is not None)
                else:
                    ok = ctx(p.ret) is s[0] or p.variant(s[0]) == k and (k == "Err" or val is payload(s[0], "Ok"))
                c.ob("answer", b.name, bool(ok), "the answer is not in the format asked for", span=b.span)
    for b in anchored(c, r"DocumentQuery::doc_get_as_value$"):
        for p in c.paths_of(b, events="zz", opaque=OPQ4, hof=False):
            for k in possible(p, doc, ("Paged", "Html")):
                c.ob("answer", b.name, called(p.ret, r"get_as_value$", g, payload(doc, k), cfg), "the query is not of the document", span=b.span)
    data, fmt = mk("arg", "data"), mk("arg", "format")
    for b in anchored(c, r"compute::serialize$"):
        for p in c.paths_of(b, events="zz", hof=False):
            if told_twice(p):
                continue
            eqs = {}
            for v, f in p.facts.items():
                for x, y in cmp_eq(v):
                    if unwrap(x) is fmt and isinstance(const_of(y), str):
                        eqs[const_of(y)] = f == ("eq", "1")
            name = next((k for k, t in eqs.items() if t), None)
            k, val = result(p)
            if name is None:
                n["no format"] += 1
                c.ob("answer", b.name, k == "Err" and {"json", "yaml", "txt"} <= set(eqs), "an unknown format is written", span=b.span)
                continue
            want = {"json": r"serde_json(::ser)?::to_string(_pretty)?$", "yaml": r"serde_yaml(::ser)?::to_string$", "txt": r"serde_json(::value)?::to_value$"}.get(name)
            s = [ctx(v) for v in p.facts if want and called(ctx(v), want, data)]
            if not s:
                c.ob("answer", b.name, False, "the format %s is written as another" % name, span=b.span)
                continue
            n[name] += 1
            if name != "txt":
                ok = k == "Err" if p.variant(s[0]) == "Err" or any(ctx(v) is s[0] and p.variant(v) == "Err" for v in p.facts) else k == "Ok" and ok_of(val) is s[0]
            else:
                js = [v for v in subvalues_of(p) if ok_of(v) is s[0]]
                if any(ctx(v) is s[0] and p.variant(v) == "Err" for v in p.facts) or not js:
                    ok = k == "Err"
                elif p.variant(js[0]) == "String":
                    ok = k == "Ok" and val is payload(js[0], "String")
                else:
                    n["no text"] += 1
                    ok = k == "Err"
            c.ob("answer", b.name, ok, "the format %s is written wrongly" % name, span=b.span)


def one_of(p, els):
    """whether the path knows that a list has exactly one element"""
    for v, f in p.facts.items():
        if v.op == "bin" and v.a[0] in ("Eq", "Ne") and f in (("eq", "0"), ("eq", "1")):
            x, y = v.a[1], v.a[2]
            if const_of(x) == 1:
                x, y = y, x
            if const_of(y) == 1 and re.search(r"(^|::)len$", call_name(x)) and unwrap(x.a[1][0]) is els:
                return (f[1] == "1") == (v.a[0] == "Eq")
    for v, f in p.facts.items():
        if re.search(r"(^|::)len$", call_name(v)) and unwrap(v.a[1][0]) is els and f == ("eq", "1"):
            return True
    return None


WRITE = re.compile(r"(::write_str|::write_char|::write_fmt|::pad|FullTextDigest::export_\w+)$")


def writes(p):
    return [e for e in p.events if e.kind == "call" and WRITE.search(e.name)]


def texts(c, n):
    doc, item, elem, node, f = (mk("arg", x) for x in ("doc", "item", "elem", "node", "f"))

    def of_f(v):
        v = unwrap(v)
        while v.op in ("loop", "mut"):
            v = unwrap(v.a[3] if v.op == "loop" else v.a[2])
        return v is f

    def outcome(b, p, e, last):
        """a write that failed ends the export with its error; one that succeeded does not"""
        if p.ret is e.res or p.end == "return" and ctx(p.ret) is e.res:
            return last or p.variant(e.res) == "Err"
        k = p.variant(e.res)
        if k == "Err":
            return p.end == "return" and p.variant(p.ret) == "Err"
        return k == "Ok" and (p.variant(p.ret) == "Ok" if p.end == "return" and last else p.end == "loop" if not last else False)

    def loop(b, p, items, make, name, after):
        nx = [e for e in p.events if e.kind == "call" and re.search(r"Iterator>?::next$", e.name) and over(e.args[0], items)]
        ws = writes(p)
        if not nx:
            c.ob("text", b.name, False, "not all of %s is written" % name, span=b.span)
            return
        k = p.variant(nx[-1].res)
        if k == "Some":
            n[name] += 1
            ok = len(ws) == 1 and make(ws[0], payload(nx[-1].res, "Some")) and of_f(ws[0].args[0]) and outcome(b, p, ws[0], False)
            c.ob("text", b.name, ok, "a %s is not written, or not once" % name, span=b.span)
        else:
            n[after] += 1
            hints(b, p, ws) if after == "frame end" else c.ob("text", b.name, k == "None" and not ws and p.variant(p.ret) == "Ok", "something else is written after %s" % name, span=b.span)

    def hints(b, p, ws):
        h = [v for v in subvalues_of(p) if called(v, r"content_hint$", doc)]
        zero = None
        for v, x in p.facts.items():
            if v.op == "bin" and v.a[0] in ("Eq", "Ne") and h and h[0] in (v.a[1], v.a[2]) and 0 in (const_of(v.a[1]), const_of(v.a[2])):
                zero = (x[1] == "1") == (v.a[0] == "Eq")
        if zero is None:
            c.ob("text", b.name, False, "the hint after a frame is not looked at", span=b.span)
        elif zero:
            n["no hint"] += 1
            c.ob("text", b.name, not ws and p.variant(p.ret) == "Ok", "something is written where there is no hint", span=b.span)
        else:
            n["hint"] += 1
            ok = len(ws) == 1 and re.search(r"write_char$", ws[0].name) and of_f(ws[0].args[0]) and unwrap(ws[0].args[1]) is h[0] and outcome(b, p, ws[0], True)
            c.ob("text", b.name, bool(ok), "the hint after a frame is not written", span=b.span)

    KW = dict(events=r".", opaque=FULL, cut=".")
    for b in anchored(c, r"FullTextDigest.*::export_frame$"):
        for p in c.paths_of(b, **KW):
            loop(b, p, lambda x: called(x, r"Frame(<.*>)?::items$", doc), lambda e, i: re.search(r"export_item$", e.name) and unwrap(e.args[1]) is F(i, "1"), "frame item", "frame end")
    for b in anchored(c, r"FullTextDigest.*::export_element$"):
        for p in c.paths_of(b, **KW):
            loop(b, p, lambda x: x is F(elem, "children"), lambda e, i: re.search(r"export_html_node$", e.name) and unwrap(e.args[1]) is i, "child", "children end")
    for b in anchored(c, r"FullTextDigest as .*Display>::fmt$"):
        me = F(SELF, "0")
        for p in c.paths_of(b, **KW):
            for k in possible(p, me, ("Paged", "Html")):
                if k == "Paged":
                    loop(b, p, lambda x: x is F(payload(me, "Paged"), "pages"), lambda e, i: re.search(r"export_frame$", e.name) and unwrap(e.args[1]) is F(i, "frame"), "page", "pages end")
                else:
                    n["html"] += 1
                    ws = writes(p)
                    ok = len(ws) == 1 and re.search(r"export_element$", ws[0].name) and unwrap(ws[0].args[1]) is F(payload(me, "Html"), "root") and of_f(ws[0].args[0]) and outcome(b, p, ws[0], True)
                    c.ob("text", b.name, bool(ok), "the html document is not written", span=b.span)
    for fn, x, pre, table in (("export_item", item, "item", {"Group": (r"export_frame$", ("frame",)), "Text": (r"write_str$", ("text",)), "Link": None, "Tag": None, "Shape": None, "Image": None}),
                              ("export_html_node", node, "node", {"Tag": None, "Element": (r"export_element$", ()), "Text": (r"write_str$", ()), "Frame": (r"export_frame$", ())})):
        for b in anchored(c, r"FullTextDigest.*::%s$" % fn):
            seen = set()
            for p in c.paths_of(b, **KW):
                ws = writes(p)
                for k in possible(p, x, tuple(table)):
                    seen.add(k)
                    w = table[k]
                    n[pre + " " + (k if w else "none")] += 1
                    if w is None:
                        ok = not ws and p.end == "return" and p.variant(p.ret) == "Ok"
                    else:
                        ok = len(ws) == 1 and re.search(w[0], ws[0].name) and of_f(ws[0].args[0]) and unwrap(ws[0].args[1]) is F(payload(x, k), *w[1]) and outcome(b, p, ws[0], True)
                    c.ob("text", b.name, bool(ok), "the text of a %s is not written" % k if w else "a %s is written" % k, span=b.span)
            c.ob("text", b.name, seen == set(table), "not all kinds of content are written", span=b.span)
    for b in anchored(c, r"TextExport::run_on_doc$"):
        for p in c.paths_of(b, events="zz", opaque=FULL):
            k, val = result(p)
            t = content(val) if val is not None else []
            ok = k == "Ok" and len(t) == 1 and not isinstance(t[0], str) and shows_doc(t[0][1], doc)
            c.ob("text", b.name, ok, "the text is not that of the document", span=b.span)
    for b in anchored(c, r"TextExport as .*ExportComputation.*>::run$"):
        for p in c.paths_of(b, events="zz", opaque=r"TextExport::run_on_doc$"):
            r = ctx(p.ret)
            d = unwrap(r.a[1][0]) if re.search(r"run_on_doc$", call_name(r)) else None
            ok = d is not None and agg_variant(d) == "Paged" and unwrap(agg_field(d, "0")) is doc
            c.ob("text", b.name, ok, "the text is not that of the document", span=b.span)


def shows_doc(v, doc):
    v = unwrap(v)
    return v.op == "agg" and str(v.a[1]).endswith("FullTextDigest") and unwrap(agg_field(v, "0")) is doc
