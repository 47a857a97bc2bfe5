"""F: fonts (crate tinymist-world, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
import vfs
from vfs import Invalidation, SELF, at, call_name, field, final, fpath, nexts, payload, src
from pkg import closure_runs, mentions, unwrap
from registry import Flow
from std import feasible

W = "tinymist_world"
arg = lambda n: mk("arg", n)


def anchored(c, rx):
    return vfs.anchored(c, rx, crate=W)


def named(v, rx):
    return re.search(rx, call_name(v)) is not None


def ended(c, b, **kw):
    ps = feasible(c.paths_of(b, cut=".", **kw))
    for p in ps:
        p.mates = ps
        if p.end != "loop":
            yield p


def fresh(v):
    return named(v, r"::new$|Default>?::default$") and not v.a[1]


def face(v, info, loader, desc):
    """v is a pair of that information and a slot that loads with that loader, described so"""
    v = unwrap(v)
    if not (v.op == "agg" and v.a[0] == "tuple" and len(v.a) == 6):
        return "not a pair of information and slot"
    if not info(unwrap(v.a[4])):
        return f"the information is {show(v.a[4])[:100]}"
    s = unwrap(v.a[5])
    inner = unwrap(agg_field(s, "inner")) if s.op == "agg" else None
    while inner is not None and named(inner, r"(Arc|Box)(<.*>)?::new$"):
        inner = unwrap(inner.a[1][0])
    if inner is None or not named(inner, r"QueryRef(<.*>)?::with_context$") or not loader(unwrap(inner.a[1][-1])):
        return f"the slot is {show(s)[:140]}"
    d = unwrap(agg_field(s, "description"))
    return None if desc(d) else f"the description is {show(d)[:100]}"


def is_font_info(v, data, index):
    """the information of that face"""
    return v.op == "proj" and v.a[0].op == "proj" and v is payload(v.a[0].a[0], "Some") and named(v.a[0].a[0], r"FontInfo::new$") and unwrap(v.a[0].a[0].a[1][0]) is data and unwrap(v.a[0].a[0].a[1][1]) is index


def search(c, n):
    searches = r"SystemFontSearcher::(search_|flush|add_memory)"
    for b in anchored(c, r"SystemFontSearcher::resolve_opts$"):
        ps = feasible(c.paths_of(b, events=r"is_dir$|" + searches, cut=".", opaque=searches))
        paths = F(arg("opts"), "font_paths")
        for p in ps:
            ev = [(re.search(r"\w+$", e.name).group(), e) for e in p.events if e.kind == "call" and re.search(searches, e.name)]
            nx = [(v, f[1]) for v, f in p.facts.items() if named(v, r"Iterator>?::next$") and v.a[1][0].op == "loop" and unwrap_iter(v.a[1][0].a[3]) is paths]
            if not all(at(e.args[0]) for _, e in ev):
                c.ob("search", "its own searcher", False, str([show(e.args[0])[:60] for _, e in ev]), "search|self", p.span)
            if p.end == "loop":
                item = payload(nx[0][0], "Some") if len(nx) == 1 and nx[0][1] == "Some" else None
                isd = next((f == ("eq", "1") for v, f in p.facts.items() if named(v, r"Path::is_dir$") and item is not None and unwrap(v.a[1][0]) is item), None)
                ok = item is not None and len(ev) == 1 and unwrap(ev[0][1].args[1]) is item and isd is not None and ev[0][0] == ("search_dir" if isd else "search_file")
                n[f"path given, directory: {isd}"] += 1
                c.ob("search", "font path", bool(ok), src(p) if not ev else str([(k, show(e.args[1])[:60]) for k, e in ev if len(e.args) > 1]) + f" directory: {isd}", f"search|path|{isd}", p.span)
                continue
            no = p.truth(F(arg("opts"), "no_system_fonts"))
            want = ([] if no else ["search_system"]) + ["flush", "add_memory_fonts"]
            ok = p.end == "return" and p.variant(p.ret) == "Ok" and no is not None and [k for k, _ in ev] == want and any(k == "None" for _, k in nx)
            n[f"no system fonts: {no}"] += 1
            c.ob("search", "order", bool(ok), f"{[k for k, _ in ev]} with no_system_fonts {no}", f"search|order|{no}", p.span)
            am = [e for k, e in ev if k == "add_memory_fonts"]
            if am:
                fl = Flow(c, p)
                ways = fl.of(am[0].args[1], p)
                ok = fl.told and not fl.panics and bool(ways)
                for v, cs in ways:
                    x = unwrap(v) if v is not None else None
                    while x is not None and named(x, r"Bytes(<.*>)?>?::(new|from|from_static)$"):
                        x = unwrap(x.a[1][0])
                    if x is not None and x.op == "proj" and x.a[0].op == "proj" and x.a[0].a[1][0] == "d":
                        x = x.a[0].a[0]
                    ok = ok and x is not None and x in fl.elems and unwrap(fl.elems[x]) is F(arg("opts"), "with_embedded_fonts")
                c.ob("search", "embedded fonts", bool(ok), show(am[0].args[1])[:160], "search|embedded", p.span)
    for k in ("path given, directory: True", "path given, directory: False", "no system fonts: True", "no system fonts: False"):
        c.floor(k, n[k], 1)
    for f, load, prm in (("search_dir", "load_fonts_dir", "path"), ("search_file", "load_font_file", "path"), ("search_system", "load_system_fonts", None)):
        for b in anchored(c, rf"SystemFontSearcher::{f}$"):
            for p in ended(c, b, events=r"Database::|record_path$", opaque=r"record_path$"):
                ld = [e for e in p.events if e.kind == "call" and "Database::" in e.name]
                rec = [e for e in p.events if e.kind == "call" and e.name.endswith("record_path")]
                ok = p.end == "return" and len(ld) == 1 and ld[0].name.endswith("::" + load) and at(ld[0].args[0], "db") and (not prm or unwrap(ld[0].args[1]) is arg(prm))
                ok = ok and len(rec) == (1 if prm else 0) and all(at(e.args[0]) and unwrap(e.args[1]) is arg("path") for e in rec)
                if f == "search_file":
                    ok = ok and p.variant(p.ret) == p.variant(ld[0].res)
                n["searches"] += 1
                c.ob("search", f, bool(ok), f"{[e.name for e in p.events if e.kind == 'call']}; {src(p)}", f"search|{f}", p.span)
    c.floor("searches", n["searches"], 4)
    for b in anchored(c, r"SystemFontSearcher::record_path$"):
        for p in ended(c, b, events=r"Vec(<.*>)?::push$"):
            ev = [e for e in p.events if e.kind == "call"]
            rel = next((f == ("eq", "1") for v, f in p.facts.items() if named(v, r"Path::is_relative$") and unwrap(v.a[1][0]) is arg("path")), None)
            if rel is None:
                rel = next((f == ("eq", "0") for v, f in p.facts.items() if named(v, r"Path::is_absolute$") and unwrap(v.a[1][0]) is arg("path")), None)
            cwd = next((v for v in p.facts if named(v, r"env::current_dir$")), None)
            ok = p.end == "return" and len(ev) == 1 and at(ev[0].args[0], "font_paths")
            v = unwrap(ev[0].args[1]) if ok else None
            if v is not None:
                j = named(v, r"Path(Buf)?::join$") and cwd is not None and unwrap(v.a[1][0]) is payload(cwd, "Ok") and unwrap(v.a[1][1]) is arg("path")
                ok = j if rel and cwd is not None and p.variant(cwd) == "Ok" else v is arg("path") and (rel is False or cwd is not None and p.variant(cwd) == "Err")
            n["records"] += 1
            c.ob("search", "recorded path", bool(ok), f"relative: {rel}; {show(v)[:100] if v is not None else src(p)}", "search|record", p.span)
    c.floor("recorded paths", n["records"], 3)


def unwrap_iter(v):
    v = unwrap(v)
    while named(v, r"::(into_iter|iter|deref)$"):
        v = unwrap(v.a[1][0])
    return v


def given(c, n):
    """the fonts of a search are all of what was found"""
    for b in anchored(c, r"SystemFontSearcher::flush$"):
        for p in ended(c, b, events=".", opaque=r"MemoryFontSearcher::extend$", hof=False, stores=True):
            e = evs(p, r"MemoryFontSearcher::extend$", "call")
            if p.end != "return" or len(e) != 1 or not at(e[0].args[0], "base"):
                c.ob("found", "files", False, src(p), "found|flush", p.span)
                continue
            db = final(p, "db")
            c.ob("found", "none twice", fresh(unwrap(db)), f"the database is then {show(db)[:80]}", "found|again", p.span)
            fl = Flow(c, p)
            kinds = set()
            bad = None
            for v, cs in fl.of(e[0].args[1], p):
                f = next((x for x, of in fl.elems.items() if named(unwrap(of), r"Database::faces$") and at(unwrap(of).a[1][0], "db")), None)
                if f is None:
                    bad = "not the faces of the database"
                    break
                wf = lambda w: named(w, r"Database::with_face_data$") and at(w.a[1][0], "db") and unwrap(w.a[1][1]) is F(f, "id") and w.a[1][2].op == "fn" and str(w.a[1][2].a[0]).endswith("FontInfo::new")
                if v is None:
                    if not any(k[1] == "None" and (wf(w) or w.op == "proj" and wf(w.a[0].a[0] if w.a[0].op == "proj" else w)) for w, k in cs):
                        bad = f"leaves a face out: {[(show(w)[:60], k[1]) for w, k in cs[-3:]]}"
                    kinds.add("unreadable")
                    continue
                kinds.add("face")
                path = lambda x: x.op == "proj" and x.a[0].op == "proj" and x.a[0].a[0] is F(f, "source") and x.a[0].a[1][1] in ("File", "SharedFile") and x.a[1] == ("f", "0")

                def loader(x):
                    r = agg_field(x, "read") if x.op == "agg" else None
                    r = unwrap(r.a[4]) if r is not None and r.op == "agg" and agg_variant(r) == "Some" else None
                    return r is not None and named(r, r"LazyFile::new$") and path(unwrap(r.a[1][0])) and unwrap(agg_field(x, "index")) is F(f, "index")

                def info(x):
                    return x.op == "proj" and x is payload(payload(x.a[0].a[0].a[0].a[0], "Some"), "Some") and wf(x.a[0].a[0].a[0].a[0]) if x.op == "proj" and x.a[0].op == "proj" and x.a[0].a[0].op == "proj" and x.a[0].a[0].a[0].op == "proj" else False
                why = face(v, info, loader, lambda d: d.op == "agg" and agg_variant(d) == "Some" and (mentions(d, path) or any(named(w, r"to_str$") and k[1] == "None" for w, k in cs)))
                bad = bad or why
            binary = all(any(w.op == "proj" and w.a[1] == ("f", "source") and k == ("eq", "Binary") for w, k in cs) for cs in fl.panics)
            c.ob("found", "files", bad is None and fl.told and binary and kinds == {"face", "unreadable"}, bad or f"{sorted(kinds)}, told {fl.told}, panics only for memory faces: {binary}", "found|files", p.span)
            n["files"] += 1
    c.floor("searches of files", n["files"], 1)
    for b in anchored(c, r"SystemFontSearcher::add_memory_fonts?$"):
        for p in ended(c, b, events=r"MemoryFontSearcher::add_memory_fonts?$", opaque=r"MemoryFontSearcher::add_memory"):
            ev = [e for e in p.events if e.kind == "call"]
            empty = next((f == ("eq", "1") for v, f in p.facts.items() if named(v, r"Database::is_empty$") and at(v.a[1][0], "db")), None)
            ok = empty is False if p.end == "diverge" else p.end == "return" and empty is not False and len(ev) == 1 and at(ev[0].args[0], "base") and unwrap(ev[0].args[1]) is arg("data")
            n["in memory"] += 1
            c.ob("found", "in memory", bool(ok), f"database empty: {empty}; {src(p)}", "found|memory", p.span)
    for f in ("add_memory_fonts", "add_memory_font"):
        for b in anchored(c, rf"MemoryFontSearcher::{f}$"):
            for p in ended(c, b, events=".", opaque=r"MemoryFontSearcher::(extend_bytes|add_memory_fonts)$", hof=False):
                ev = [e for e in p.events if e.kind == "call" and re.search(r"MemoryFontSearcher::(extend_bytes|add_memory_fonts)$", e.name)]
                ok = p.end == "return" and len(ev) == 1 and at(ev[0].args[0])
                if ok:
                    v = ev[0].args[1]
                    if f == "add_memory_font":
                        while named(v, r"::map$"):
                            v = v.a[1][0]
                        ok = named(v, r"iter::once$") and unwrap(v.a[1][0]) is arg("data")
                    else:
                        fl = Flow(c, p)
                        ways = fl.of(v, p)
                        ok = fl.told and not fl.panics and len(ways) >= 1 and all(x is not None and x.op == "agg" and x.a[0] == "tuple" and unwrap(x.a[4]) in fl.elems and unwrap(fl.elems[unwrap(x.a[4])]) is arg("data") for x, _ in ways)
                n["in memory"] += 1
                c.ob("found", f"{f}, all data", bool(ok), src(p), f"found|{f}", p.span)
    c.floor("in memory", n["in memory"], 4)
    for b in anchored(c, r"MemoryFontSearcher::extend_bytes$"):
        for p in ended(c, b, events=".", opaque=r"MemoryFontSearcher::extend$", hof=False):
            e = evs(p, r"MemoryFontSearcher::extend$", "call")
            if p.end != "return" or len(e) != 1 or not at(e[0].args[0]):
                c.ob("found", "faces", False, src(p), "found|bytes", p.span)
                continue
            fl = Flow(c, p)
            ways = fl.of(e[0].args[1], p)
            item = next((x for x, of in fl.elems.items() if unwrap(of) is arg("items")), None)
            bad, kinds = None if item is not None else "not the given items", set()
            for v, cs in ways if item is not None else []:
                data, dsc = F(item, "0"), F(item, "1")
                ix = [x for x, of in fl.elems.items() if of.op == "agg" and str(of.a[1]).endswith("Range") and const_of(of.a[4]) in (0, "0") and all_faces(of.a[5], data, cs)]
                if v is None:
                    if not any(k[1] == "None" and named(w, r"FontInfo::new$") and unwrap(w.a[1][0]) is data and unwrap(w.a[1][1]) in ix for w, k in cs):
                        bad = f"leaves a face out: {[(show(w)[:60], k[1]) for w, k in cs[-3:]]}"
                    kinds.add("unreadable")
                    continue
                kinds.add("face")
                i = next((x for x in ix if mentions(v, lambda y: y is x)), None)

                def loader(x):
                    r = agg_field(x, "buffer") if x.op == "agg" else None
                    return r is not None and r.op == "agg" and agg_variant(r) == "Some" and unwrap(r.a[4]) is data and unwrap(agg_field(x, "index")) is i
                desc = lambda d: (agg_variant(d) == "None") if any(w is dsc and k[1] == "None" for w, k in cs) else agg_variant(d) == "Some" and mentions(d, lambda y: y is payload(dsc, "Some"))
                bad = bad or ("not every face of the data" if i is None else face(v, lambda x: is_font_info(x, data, i), loader, desc))
            c.ob("found", "faces", bad is None and fl.told and not fl.panics and kinds == {"face", "unreadable"}, bad or f"{sorted(kinds)}, told {fl.told}, {len(fl.panics)} panics", "found|bytes", p.span)
            n["bytes"] += 1
    c.floor("data with faces", n["bytes"], 1)
    for b in anchored(c, r"MemoryFontSearcher::extend$"):
        # at once, or one after another
        iv = Invalidation(feasible(c.paths_of(b, events=r"Extend.*::extend$|(Vec(<.*>)?|\[T\]|<impl \[T\]>)::(?!(len|is_empty|reserve|reserve_exact|capacity|iter|as_slice)$)\w+$|DerefMut.*::deref_mut$", cut=".")))
        given = lambda s: unwrap_iter(s) is arg("items")

        def put(p, item):
            ev = [e for e in p.events if e.kind == "call"]
            return p.end == "loop" and len(ev) == 1 and re.search(r"::push$", ev[0].name) and at(ev[0].args[0], "fonts") and unwrap(ev[0].args[1]) is item
        for p in iv.paths:
            if p.end == "loop":
                continue
            ev = [e for e in p.events if e.kind == "call"]
            if ev:
                ok = len(ev) == 1 and re.search(r"::extend$", ev[0].name) and at(ev[0].args[0], "fonts") and given(ev[0].args[1]) and not nexts(p)
            else:
                ok = iv.whole(p, given, put)
            ok = ok and p.end == "return"
            n["kept"] += 1
            c.ob("found", "kept in order", bool(ok), src(p), "found|extend", p.span)
    c.floor("kept", n["kept"], 1)


def all_faces(hi, data, cs):
    """hi is the number of faces of the data, or one if the data does not tell"""
    hi = unwrap(hi)
    cnt = next(((w, k[1]) for w, k in cs if named(w, r"fonts_in_collection$") and unwrap(w.a[1][0]) is data), None)
    if cnt is None:
        return named(hi, r"unwrap_or$") and named(hi.a[1][0], r"fonts_in_collection$") and unwrap(hi.a[1][0].a[1][0]) is data and const_of(hi.a[1][1]) in (1, "1")
    return hi is payload(cnt[0], "Some") if cnt[1] == "Some" else const_of(hi) in (1, "1")


@check("F01")
def f01(c):
    c.which = 2
    c.rule("search", "the fonts of each given path are searched, as a directory if it is one and else as a file, then those of the system unless told not to, then the embedded ones, in this order, each whole; the given paths are recorded as absolute ones")
    c.rule("found", "what is found is added once, after what was added before: each face of each file or data whose information can be read, with this information, and a slot that loads just this face of it; a search does not panic")
    n = defaultdict(int)
    search(c, n)
    given(c, n)


@check("F02")
def f02(c):
    c.which = 2
    c.rule("index", "the book and the slots of a resolver are made of the same fonts in the same order, and stay so: a font is asked for by the index the book has for it")
    c.rule("load", "a slot loads its font at most once, and what it gives is what that gave: the face at its index of its own data, or nothing if it cannot be read")
    c.rule("describe", "the source told for a font is that of the slot which holds it")
    n = defaultdict(int)
    for b in anchored(c, r"MemoryFontSearcher::build$"):
        for p in ended(c, b, events=r".", hof=False):
            v = p.ret if p.end == "return" else None
            slots = unwrap(agg_field(v, "slots")) if v is not None and v.op == "agg" else None
            book = unwrap(agg_field(v, "book")) if slots is not None else None
            book = unwrap(book.a[1][0]) if book is not None and named(book, r"LazyHash(<.*>)?::new$") else book
            why = None
            if book is not None and named(book, r"FontBook::from_infos$"):
                for lst, f in ((book.a[1][0], "0"), (slots, "1")):
                    fl = Flow(c, p)
                    ways = fl.of(lst, p)
                    if not (fl.told and not fl.panics and len(ways) == 1 and ways[0][0] is not None and any(unwrap(ways[0][0]) is F(x, f) and at(unwrap(of), "fonts") for x, of in fl.elems.items())):
                        why = f"{'the book' if f == '0' else 'the slots'}: {show(lst)[:120]}"
            else:
                why = twin(c, p, v, F(SELF, "fonts"))
            n["built"] += 1
            c.ob("index", "built", why is None, str(why), "index|build", p.span)
    for b in anchored(c, r"FontResolverImpl::new_with_fonts$"):
        for p in ended(c, b, events=r".", hof=False):
            n["built"] += 1
            why = twin(c, p, p.ret, arg("fonts")) if p.end == "return" else src(p)
            c.ob("index", "made of fonts", why is None, str(why), "index|pairs", p.span)
    for b in anchored(c, r"SystemFontSearcher::build$"):
        for p in ended(c, b, opaque=r"MemoryFontSearcher::build$"):
            v = p.ret if p.end == "return" else None
            r, _ = fpath(v) if v is not None else (None, ())
            ok = v is not None and named(r, r"MemoryFontSearcher::build$") and at(r.a[1][0], "base") and at(field(v, "font_paths"), "font_paths") and all(field(v, f) is F(r, f) for f in ("book", "slots"))
            n["built"] += 1
            c.ob("index", "system fonts", bool(ok), src(p), "index|system", p.span)
    for b in anchored(c, r"FontResolverImpl::new$"):
        for p in ended(c, b):
            v = p.ret if p.end == "return" else None
            bk = unwrap(agg_field(v, "book")) if v is not None and v.op == "agg" else None
            ok = bk is not None and unwrap(bk.a[1][0] if named(bk, r"LazyHash(<.*>)?::new$") else bk) is arg("book") and unwrap(agg_field(v, "slots")) is arg("slots") and unwrap(agg_field(v, "font_paths")) is arg("font_paths")
            n["built"] += 1
            c.ob("index", "given", bool(ok), src(p), "index|new", p.span)
    c.floor("resolvers made", n["built"], 4)
    get = lambda v, i: named(v, r"\[T\]::get$|Vec(<.*>)?>?::get$|Index(<.*>)?>?::index$|::index$") and at(unwrap(v.a[1][0]), "slots") and unwrap(v.a[1][1]) is i
    for f in ("slot", "font", "font_book"):
        for b in anchored(c, rf"FontResolverImpl as .*FontResolver>::{f}$"):
            for p in ended(c, b, opaque=r"FontSlot::get_or_init$"):
                v = unwrap(p.ret) if p.end == "return" else None
                i = next((x for x in walk(v) if x.op == "arg" and x is not SELF), None) if v is not None else None
                if f == "font_book":
                    ok = v is not None and at(v, "book")
                elif f == "slot":
                    ok = v is not None and named(v, r"::get$") and get(v, i)
                else:
                    s = unwrap(v.a[1][0]) if v is not None and named(v, r"FontSlot::get_or_init$") else None
                    ok = s is not None and (get(s, i) or s.op == "proj" and s.a[0].op == "proj" and get(s.a[0].a[0], i))
                n["asked"] += 1
                c.ob("index", f, bool(ok), src(p), f"index|{f}", p.span)
    for b in anchored(c, r"as .*FontResolver>::default_get_by_info$|FontResolver::default_get_by_info$"):
        for p in ended(c, b, events=r"select_fallback$"):
            e = evs(p, r"select_fallback$", "call")
            if p.end == "diverge":
                continue
            v = unwrap(p.ret)
            ok = len(e) == 1 and named(v, r"FontResolver>?::font$") and unwrap(v.a[1][0]) is SELF and unwrap(v.a[1][1]) is payload(e[0].res, "Some") and named(unwrap(e[0].args[0]), r"font_book$") and mentions(e[0].args[1], lambda x: x is arg("info")) and unwrap(e[0].args[2]) is F(arg("info"), "variant")
            n["asked"] += 1
            c.ob("index", "by information", bool(ok), src(p), "index|info", p.span)
    for f in ("font_book", "slot", "font", "get_by_info"):
        for b in anchored(c, rf"Arc(<.*>)? as .*FontResolver>::{f}$"):
            for p in ended(c, b):
                v = unwrap(p.ret) if p.end == "return" else None
                ok = v is not None and named(v, rf"FontResolver>?::{f}$") and unwrap(v.a[1][0]) is SELF and all(unwrap(x).op == "arg" for x in v.a[1][1:])
                n["shared"] += 1
                c.ob("index", f"shared, {f}", bool(ok), src(p), f"index|arc|{f}", p.span)
    c.floor("asked", n["asked"], 4)
    c.floor("shared", n["shared"], 4)
    for f in ("fonts", "loaded_fonts"):
        for b in anchored(c, rf"FontResolverImpl::{f}$"):
            for p in ended(c, b, events=r".", hof=False):
                fl = Flow(c, p)
                ways = fl.of(p.ret, p) if p.end == "return" else []
                e = next((x for x, of in fl.elems.items() if named(of, r"Iterator>?::enumerate$") and at(unwrap_iter(of.a[1][0]), "slots")), None)
                ok = e is not None and fl.told and bool(ways)
                for v, cs in ways if ok else []:
                    if f == "loaded_fonts":
                        unset = any(k[1] in ("None", "Err") and mentions(w, lambda x: x is F(e, "1")) for w, k in cs)
                        ok = ok and (unset if v is None else v.op == "agg" and unwrap(v.a[4]) is F(e, "0") and mentions(v.a[5], lambda x: named(x, r"get_uninitialized$") and mentions(x, lambda y: y is F(e, "1"))))
                    else:
                        ok = ok and v is not None and v.op == "agg" and unwrap(v.a[5]) is F(e, "1") and mentions(v.a[4], lambda x: named(x, r"FontBook::info$") and unwrap(x.a[1][1]) is F(e, "0") and at(x.a[1][0], "book"))
                n["listed"] += 1
                c.ob("index", f"listed, {f}", bool(ok), src(p), f"index|{f}", p.span)
    c.floor("listed", n["listed"], 2)
    for b in anchored(c, r"FontResolverImpl::describe_font_by_id$"):
        for p in ended(c, b):
            if p.end == "diverge":
                continue
            v = unwrap(p.ret)
            ok = v.op == "proj" and v.a[1] == ("f", "description") and (get(unwrap(v.a[0]), arg("id")))
            n["described"] += 1
            c.ob("describe", "by id", bool(ok), src(p), "describe|id", p.span)
    for b in anchored(c, r"FontResolverImpl::describe_font$"):
        for p in ended(c, b, opaque=r"FontSlot::get_uninitialized$"):
            nx = [(v, f[1]) for v, f in p.facts.items() if named(v, r"Iterator>?::next$") and at(unwrap_iter(unwrap(v.a[1][0]).a[3] if unwrap(v.a[1][0]).op == "loop" else v.a[1][0]), "slots")]
            if p.end != "return" or not nx:
                c.ob("describe", "of a font", False, src(p), "describe|font", p.span)
                continue
            last, k = nx[-1]
            s = payload(last, "Some")
            v = unwrap(p.ret)
            if v is F(s, "description"):
                ok = any((f == ("eq", "1")) == (w.a[0] == "Eq") and mentions(w, lambda x: x is arg("font")) and mentions(w, lambda x: named(x, r"get_uninitialized$") and mentions(x, lambda y: y is s)) for w, f in p.facts.items() if w.op == "bin" and w.a[0] in ("Eq", "Ne"))
                n["described"] += 1
            else:
                ok = k == "None" and p.variant(v) == "None"
                n["not described"] += 1
            c.ob("describe", "of a font", bool(ok), src(p), "describe|font", p.span)
    c.floor("described", n["described"], 2)
    c.floor("not described", n["not described"], 1)
    loads(c, n)


def twin(c, p, v, fonts):
    """a loop adds the information of each font to the book, and its slot to the slots"""
    bk = unwrap(agg_field(v, "book")) if v is not None and v.op == "agg" else None
    bk = unwrap(bk.a[1][0]) if bk is not None and named(bk, r"LazyHash(<.*>)?::new$") else bk
    sl = unwrap(agg_field(v, "slots")) if bk is not None else None
    if bk is None or bk.op != "loop" or sl.op != "loop" or not fresh(unwrap(bk.a[3])) or not named(unwrap(sl.a[3]), r"::(new|with_capacity|default)$"):
        return f"not told: {show(v)[:140] if v is not None else None}"
    rounds = [q for q in p.mates if q.ends_loop(bk)]
    for q in rounds:
        nx = [w for w, f in q.facts.items() if named(w, r"::next$") and f == ("eq", "Some") and unwrap(w.a[1][0]).op == "loop" and fpath(unwrap_iter(unwrap(w.a[1][0]).a[3])) == fpath(fonts)]
        x, y = q.loop_next(bk), q.loop_next(sl)
        ok = len(nx) == 1 and x.op == "mut" and named(x.a[0], r"FontBook::push$") and x.a[2] is bk and y.op == "mut" and named(y.a[0], r"Vec(<.*>)?::push$") and y.a[2] is sl
        if not ok or unwrap(x.a[0].a[1][1]) is not F(payload(nx[0], "Some"), "0") or unwrap(y.a[0].a[1][1]) is not F(payload(nx[0], "Some"), "1"):
            return "a round does not add the information and the slot of its font"
    return None if rounds else "no round"


def loads(c, n):
    for f, how, prm in (("new", "with_context", "f"), ("new_boxed", "with_context", "f"), ("new_loaded", "with_value", "f")):
        for b in anchored(c, rf"FontSlot::{f}$"):
            for p in ended(c, b):
                v = p.ret if p.end == "return" else None
                x = unwrap(agg_field(v, "inner")) if v is not None and v.op == "agg" else None
                while x is not None and named(x, r"(Arc|Box)(<.*>)?::new$"):
                    x = unwrap(x.a[1][0])
                y = unwrap(x.a[1][-1]) if x is not None and named(x, rf"QueryRef(<.*>)?::{how}$") else None
                while y is not None and named(y, r"Box(<.*>)?::new$"):
                    y = unwrap(y.a[1][0])
                ok = y is arg(prm) and agg_variant(agg_field(v, "description")) == "None"
                n["slots"] += 1
                c.ob("load", f"slot made by {f}", bool(ok), src(p), f"load|{f}", p.span)
    for b in anchored(c, r"FontSlot::with_describe(_arc)?$"):
        for p in ended(c, b):
            v = p.ret if p.end == "return" else None
            d = unwrap(field(v, "description")) if v is not None else None
            y = unwrap(d.a[4]) if d is not None and d.op == "agg" and agg_variant(d) == "Some" else None
            while y is not None and named(y, r"Arc(<.*>)?::new$"):
                y = unwrap(y.a[1][0])
            n["slots"] += 1
            c.ob("describe", "slot", y is arg("desc") and at(unwrap(field(v, "inner")), "inner"), src(p), "describe|slot", p.span)
    for b in anchored(c, r"FontSlot::get_or_init$"):
        for p in ended(c, b, events=r"compute_with_context$", hof=False, opaque=r"compute_with_context$"):
            e = evs(p, r"compute_with_context$", "call")
            ok = len(e) == 1 and at(unwrap(e[0].args[0]), "inner")
            if p.end == "return":
                ok = ok and unwrap(p.ret) is payload(e[0].res, "Ok")
            for q in closure_runs(c, p, e[0].args[1], {2: arg("loader")}, at=e[0], events=r"FontLoader>?::load$") or [] if ok else []:
                ld = evs(q, r"FontLoader>?::load$", "call")
                ok = ok and q.end == "return" and len(ld) == 1 and fpath(unwrap(ld[0].args[0]))[0] is arg("loader") and q.variant(q.ret) == "Ok" and unwrap(payload(q.ret, "Ok")) is ld[0].res
            n["slots"] += 1
            c.ob("load", "once", bool(ok), src(p), "load|once", p.span)
    for b in anchored(c, r"FontSlot::get_uninitialized$"):
        for p in ended(c, b, opaque=r"QueryRef(<.*>)?::get_uninitialized$"):
            g = next((v for v in p.facts if named(v, r"get_uninitialized$") and at(unwrap(v.a[1][0]), "inner")), None)
            k = p.variant(g) if g is not None else None
            r = p.variant(p.ret) if p.end == "return" else None
            ok = k is not None and r == k
            if ok and k == "Some":
                x, y = payload(g, "Some"), unwrap(payload(p.ret, "Some"))
                ok = p.variant(x) == "Err" and p.variant(y) == "None" or p.variant(x) == "Ok" and y is payload(x, "Ok")
            n["slots"] += 1
            c.ob("load", "seen", bool(ok), src(p), "load|seen", p.span)
    c.floor("slots", n["slots"], 8)
    for b in anchored(c, r"LazyBufferFontLoader.*::new$"):
        for p in ended(c, b):
            v = p.ret if p.end == "return" else None
            r = agg_field(v, "read") if v is not None and v.op == "agg" else None
            n["loads"] += 1
            c.ob("load", "loader", r is not None and agg_variant(r) == "Some" and unwrap(r.a[4]) is arg("read") and unwrap(agg_field(v, "index")) is arg("index"), src(p), "load|loader", p.span)
    for ty, f in (("BufferFontLoader", "buffer"), ("LazyBufferFontLoader", "read")):
        for b in anchored(c, rf"loader::{ty}(<.*>)? as .*FontLoader>::load$"):
            for p in ended(c, b, events=r"read_all$|Font::new$"):
                own = F(SELF, f)
                if p.end == "diverge":
                    c.ob("load", "a second time", p.variant(own) == "None", src(p), f"load|again|{f}", p.span)
                    continue
                rd = evs(p, r"read_all$", "call")
                v = unwrap(p.ret)
                if f == "read" and rd and p.variant(rd[0].res) == "Err":
                    ok = p.variant(v) == "None"
                    n["loads"] += 1
                else:
                    ok = named(v, r"Font::new$") and unwrap(v.a[1][1]) is F(SELF, "index")
                    d = unwrap(v.a[1][0]) if ok else None
                    if f == "buffer":
                        ok = ok and d is payload(own, "Some")
                    else:
                        d = unwrap(d.a[1][0]) if ok and named(d, r"Bytes(<.*>)?>?::(new|from)$") else None
                        ok = len(rd) == 1 and d is not None and unwrap(rd[0].args[0]) is payload(own, "Some") and d.op == "mut" and d.a[0] is rd[0].res and d.a[1] == 1 and named(d.a[2], r"Vec(<.*>)?::(new|with_capacity)$")
                    n["loads"] += 1
                c.ob("load", f"from {f}", bool(ok), src(p), f"load|{f}", p.span)
    c.floor("loads", n["loads"], 4)
