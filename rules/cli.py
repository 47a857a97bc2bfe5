"""A01, A02: what a compile command line asks for (crates tinymist-project and tinymist-world, built against the interface stubs)."""
import re
from core import check, program
from mir import *
from q import *
import vfs
from vfs import call_name, payload
from pkg import unwrap, closure_runs
from std import feasible
from task import called, ctx, told_twice

J = "tinymist_project"
W = "tinymist_world"
me = mk("arg", "self")
OPQ = r"from_user_sys$|to_abs_path$|Id as .*From"
FORMATS = {"pdf": "Pdf", "png": "Png", "svg": "Svg", "html": "Html"}


def anchored(c, rx, crate=J, sig=None):
    return vfs.anchored(c, rx, sig, crate=crate)


def bare(v):
    """a value without the context given to the error of the result it is taken from"""
    v = unwrap(v)
    if v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Ok"):
        r = v.a[0].a[0]
        x = ctx(r)
        if x is not unwrap(r):
            if x.op == "agg" and agg_variant(x) in ("Some", "Ok"):
                return bare(x.a[4])
            return payload(x, "Some" if "Option" in call_name(unwrap(r)) or "ok_or" in call_name(unwrap(r)) else "Ok")
        for how in ("ok_or_else", "ok_or"):
            if call_name(unwrap(r)).endswith("::" + how):
                return payload(unwrap(unwrap(r).a[1][0]), "Some")
    return v


def impossible(p):
    """paths on which a context makes nothing of something, or something of nothing"""
    for v, f in p.facts.items():
        x = ctx(v)
        if x is v:
            continue
        k = p.variant(v)
        if k == "Ok" and (p.variant(x) in ("None", "Err") or x.op == "agg" and agg_variant(x) in ("None", "Err")):
            return True
        if k == "Err" and (p.variant(x) in ("Some", "Ok") or x.op == "agg" and agg_variant(x) in ("Some", "Ok")):
            return True
    return told_twice(p)


def paths(c, b, **kw):
    ps = feasible(c.paths_of(b, cut=".", **kw))
    for p in ps:
        p.mates = ps
        if p.end == "loop" or impossible(p):
            continue
        yield p


def opt(p, v):
    """('Some', value) or ('None', None) of an optional value, told by the path"""
    v = unwrap(v)
    if v.op == "agg" and agg_variant(v) in ("None", "Some"):
        return agg_variant(v), unwrap(v.a[4]) if agg_variant(v) == "Some" else None
    if re.search(r"Option(<.*>)?>?::(as_ref|as_deref|cloned|clone|copied|map)$|Clone>?::clone$", call_name(v)) and len(v.a[1]) == 1:
        return opt(p, v.a[1][0])
    k = p.variant(v)
    return k, payload(v, "Some") if k == "Some" else None


def optional(p, v, given, how):
    """v is what becomes of a given optional value: nothing of nothing, and how(v, value) of a value"""
    g, x = opt(p, given)
    k, y = opt(p, v)
    return g is not None and k == g and (g == "None" or how(y, x))


def pushed(p, v, src, how):
    """a loop over src pushes what becomes of each element onto a new list"""
    if v.op != "loop" or not re.search(r"Vec::(new|with_capacity)$", call_name(v.a[3])):
        return False
    rounds = [q for q in p.mates if q.ends_loop(v)]
    for q in rounds:
        x = q.loop_next(v)
        e = x.a[0].a[1][1] if x.op == "mut" and call_name(x.a[0]).endswith("Vec::push") and x.a[2] is v else None
        items = [w for w, f in q.facts.items() if call_name(w).endswith("::next") and f == ("eq", "Some") and unwrap(w.a[1][0]).op == "loop"]
        items = [w for w in items if source(unwrap(w.a[1][0]).a[3]) is src]
        skip = x is v and any(q.variant(y) == "None" and any(how(q, y, payload(w, "Some")) for w in items) for y in q.facts)
        if not items or not skip and (e is None or not any(how(q, y, payload(w, "Some")) for w in items for y in (e, some_of(e)) if y is not None)):
            return False
    return bool(rounds)


def some_of(e):
    """the optional value a value is taken from"""
    e = unwrap(e)
    return e.a[0].a[0] if e.op == "proj" and e.a[1] == ("f", "0") and e.a[0].op == "proj" and e.a[0].a[1] == ("d", "Some") else None


def source(it):
    it = unwrap(it)
    while re.search(r"::(iter|into_iter|deref|as_slice)$", call_name(it)):
        it = unwrap(it.a[1][0])
    return it


def listed(c, p, v, src, how):
    """v is the list of what becomes of each element of src, in order"""
    v = unwrap(v)
    if pushed(p, v, src, how):
        return True
    while re.search(r"::collect$|FromIterator>?::from_iter$|Vec(<.*>)?>?::(from|into_iter)$", call_name(v)) and v.a[1]:
        v = unwrap(v.a[1][0])
    if not re.search(r"Iterator>?::(map|flat_map|filter_map)$", call_name(v)):
        return False
    f = v.a[1][1]
    if source(v.a[1][0]) is not src:
        return False
    item = mk("arg", "item")
    qs = closure_runs(c, p, f, {2: item}, opaque=OPQ)
    return bool(qs) and all(q.end == "return" and how(q, q.ret, item) for q in qs)


# ------------------------------------------------------------------ A01
def asked_format(p):
    """the format a path of to_task is about: name, None if it has to be refused, or '?' if the path does not tell"""
    fmt = F(me, "format")
    if p.variant(fmt) == "Some":
        return p.variant(payload(fmt, "Some")) or "any"
    if p.variant(fmt) != "None":
        return "?"
    k = p.variant(F(me, "output"))
    if k == "None":
        return "Pdf"
    if k != "Some":
        return "?"
    out = payload(F(me, "output"), "Some")
    ex = [v for v in p.facts if re.search(r"Path::extension$", call_name(v)) and unwrap(v.a[1][0]) is out]
    if not ex:
        return "?"
    if p.variant(ex[0]) == "None":
        return None
    e, no = payload(ex[0], "Some"), set()
    for v, f in p.facts.items():
        if not re.search(r"(eq_ignore_ascii_case|PartialEq.*::eq)$", call_name(v)) or f[0] != "eq":
            continue
        xs = [unwrap(x) for x in v.a[1]]
        t = [const_of(x) for x in xs if isinstance(const_of(x), str)]
        if not call_name(v).endswith("ignore_ascii_case") and not any(has_call(x, r"to_(ascii_)?lowercase$") for x in xs):
            continue
        if len(t) != 1 or not any(mentions(x, lambda y: y is e) for x in xs):
            continue
        if f[1] == "1":
            return FORMATS.get(t[0].lower(), "?")
        no.add(t[0].lower())
    return None if no >= set(FORMATS) else "?"


TASKS = {"Pdf": "ExportPdf", "Png": "ExportPng", "Svg": "ExportSvg", "Html": "ExportHtml"}


def to_task(c):
    n = m = 0
    doc = mk("arg", "doc_id")
    for b in anchored(c, r"TaskCompileArgs::to_task$"):
        for p in paths(c, b, events=r"try_into$|try_from$", opaque=r"Scalar as .*TryFrom|Id::new$|PathPattern::new$"):
            want = asked_format(p)
            if p.end != "return":
                c.ob("task", "no panic", False, f"{p.end} for the format {want}, under {[show(v)[:80] for v in p.facts if p.variant(v) in ('Err', 'None')][:3]}", "task|panic", p.span)
                continue
            ppi = [e.res for e in p.events if e.kind == "call" and unwrap(e.args[0]) is F(me, "png", "ppi")]
            if p.variant(p.ret) == "Err":
                ok = want is None or any(p.variant(r) == "Err" or any(ctx(v) is r and p.variant(v) == "Err" for v in p.facts) for r in ppi)
                m += want is None
                c.ob("format", "refused", ok, f"the format {want} is refused", f"format|refused|{want}", p.span)
                continue
            t = unwrap(agg_field(p.ret, "0")) if p.ret.op == "agg" else p.ret
            if t.op != "agg" or want in ("?", None) or agg_field(t, "task") is None:
                c.ob("format", f"format {want}", False, f"gives {show(p.ret)[:120]}", f"format|{want}|odd", p.span)
                continue
            task = unwrap(agg_field(t, "task"))
            got = agg_variant(task)
            n += 1
            c.ob("format", f"format {want}", TASKS.get(want) == got, f"the format {want} makes the task {got}", f"format|{want}", p.span)
            name = F(me, "task_name")
            i = unwrap(agg_field(t, "id"))
            tn = p.variant(name)
            ok = called(i, r"Option(<.*>)?::unwrap_or$", lambda v: called(v, r"Option(<.*>)?::map$", name, lambda f: "Id::new" in show(f)), doc) or \
                tn == "Some" and called(i, r"Id::new$", payload(name, "Some")) or tn == "None" and i is doc
            if tn is None and not ok:
                ok = called(i, r"Option(<.*>)?::(unwrap_or_else|map_or|map_or_else)$") and mentions(i, lambda v: v is name) and mentions(i, lambda v: v is doc)
            c.ob("task", "id", ok, f"the task is called {show(i)[:120]}", "task|id", p.span)
            c.ob("task", "document", unwrap(agg_field(t, "document")) is doc, f"is of the document {show(agg_field(t, 'document'))[:80]}", "task|document", p.span)
            cfg = unwrap(task.a[4])
            ex = unwrap(agg_field(cfg, "export"))
            if cfg.op != "agg" or ex.op != "agg":
                c.ob("task", "settings", False, f"exports {show(task)[:120]}", "task|settings", p.span)
                continue
            w, gw = unwrap(agg_field(ex, "when")), F(me, "when")
            k = p.variant(gw)
            ok = called(w, r"Option(<.*>)?::unwrap_or$", gw, lambda v: agg_variant(v) == "Never") or k == "Some" and w is payload(gw, "Some") or k == "None" and agg_variant(w) == "Never"
            c.ob("task", "when", ok, f"runs {show(w)[:80]}", "task|when", p.span)
            pg, tr = F(me, "pages"), unwrap(agg_field(ex, "transform"))
            k = p.variant(pg)
            told = [v for v in walk(tr) if v.op == "agg" and agg_variant(v) == "Pages"]
            adds = [v for v in walk(tr) if re.search(r"::(push|extend|insert)$", call_name(v))] + [v for v in walk(tr) if v.op == "mut"]
            if k == "Some":
                ok = len(told) == 1 and unwrap(agg_field(told[0], "ranges")) is payload(pg, "Some")
            else:
                ok = k == "None" and not told and not adds
            c.ob("task", "pages", ok, f"exports the pages {show(tr)[:120]} for {k} pages given", f"task|pages|{k}", p.span)
            if got == "ExportPdf":
                ok = unwrap(agg_field(cfg, "pdf_standards")) is F(me, "pdf", "pdf_standard")
                c.ob("task", "PDF standards", ok, f"enforces {show(agg_field(cfg, 'pdf_standards'))[:80]}", "task|pdf", p.span)
            if got == "ExportPng":
                ok = any(bare(agg_field(cfg, "ppi")) is payload(r, "Ok") for r in ppi)
                c.ob("task", "PPI", ok, f"uses {show(agg_field(cfg, 'ppi'))[:80]}", "task|ppi", p.span)
            out = unwrap(agg_field(ex, "output"))
            if p.variant(F(me, "output")) == "Some":
                ok = agg_variant(out) == "Some" and mentions(out, lambda v: v is payload(F(me, "output"), "Some"))
                c.ob("output", "given path", ok, f"the output path given is not used: the task's output is {show(out)[:60]}", "output|ignored" if agg_variant(out) == "None" else "output|wrong", p.span)
    c.floor("tasks made", n, 10)
    c.floor("formats refused", m, 2)


def user_path(c, v, x):
    """v is the resource path of a path the user gave"""
    return called(v, r"ResourcePath::from_user_sys$", lambda y: unwrap(y) is x)


def to_input(c):
    n = 0
    for b in anchored(c, r"DocNewArgs::to_input$"):
        for p in paths(c, b, events="ZZ", opaque=r"ResourcePath::from_user_sys$|Id as .*From"):
            v = unwrap(p.ret) if p.end == "return" else None
            if v is None or v.op != "agg":
                c.ob("input", "made", False, f"{p.end} {show(p.ret)[:120]}", "input|made", p.span)
                continue
            n += 1
            i = unwrap(agg_field(v, "id"))
            ok = i is F(me, "id") or called(i, r"(From|Into)>?::(from|into)$", F(me, "id"))
            c.ob("input", "id", ok, f"is called {show(i)[:100]}", "input|id", p.span)
            c.ob("input", "main", user_path(c, unwrap(agg_field(v, "main")), F(me, "id", "input")), f"the main file is {show(agg_field(v, 'main'))[:100]}", "input|main", p.span)
            for fld, src in (("root", F(me, "root")), ("package_path", F(me, "package", "package_path")), ("package_cache_path", F(me, "package", "package_cache_path"))):
                ok = optional(p, agg_field(v, fld), src, lambda y, x: user_path(c, y, x))
                c.ob("input", fld, ok, f"{fld} is {show(agg_field(v, fld))[:100]}", f"input|{fld}", p.span)
            ok = listed(c, p, agg_field(v, "font_paths"), F(me, "font", "font_paths"), lambda q, r, x: user_path(c, unwrap(r), x))
            c.ob("input", "font paths", ok, f"the font paths are {show(agg_field(v, 'font_paths'))[:100]}", "input|fonts", p.span)
            sf = agg_field(v, "system_fonts")
            ok = sf is mk("not", F(me, "font", "ignore_system_fonts")) or const_of(sf) in (0, 1, "0", "1", True, False) and p.facts.get(F(me, "font", "ignore_system_fonts")) == ("eq", str(1 - int(const_of(sf))))
            c.ob("input", "system fonts", ok, f"system fonts are {show(sf)[:80]}", "input|system", p.span)
    c.floor("inputs made", n, 1)
    n = 0
    a = mk("arg", "args")
    for b in anchored(c, r"Id as std::convert::From>::from$", sig=r"DocIdArgs"):
        for p in paths(c, b, events="ZZ", opaque=r"ResourcePath::from_user_sys$|Id::new$"):
            k = p.variant(F(a, "name"))
            v = unwrap(p.ret) if p.end == "return" else None
            if k == "Some":
                ok = v is not None and called(v, r"Id::new$", payload(F(a, "name"), "Some"))
            else:
                ok = k == "None" and v is not None and any(user_path(c, x, F(a, "input")) for x in walk(v)) and not mentions(v, lambda x: x is F(a, "name"))
            n += 1
            c.ob("input", f"name {k}", ok, f"the id is {show(p.ret)[:120] if p.ret is not None else p.end}", f"input|name|{k}", p.span)
    c.floor("ids made", n, 2)


def pairs(c):
    raw = mk("arg", "raw")
    n = 0
    for b in anchored(c, r"args::parse_input_pair$", W):
        for p in paths(c, b, events="ZZ"):
            sp = [v for v in p.facts if re.search(r"str>?::split_once$", call_name(v)) and unwrap(v.a[1][0]) is raw and str(const_of(v.a[1][1])) in ("61", "=")]
            if p.end != "return" or not sp:
                c.ob("pair", "split", False, f"{p.end} {show(p.ret)[:100] if p.ret is not None else ''}: not split at the first '='", "pair|split", p.span)
                continue
            k = p.variant(sp[0])
            one = payload(sp[0], "Some")
            key, val = F(one, "0"), F(one, "1")
            trimmed = lambda v, x: called(v, r"str>?::trim$", x)
            em = [f[1] == "1" for v, f in p.facts.items() if re.search(r"is_empty$", call_name(v)) and trimmed(unwrap(v.a[1][0]), key)]
            got = p.variant(p.ret)
            if k == "None" or em and em[0]:
                ok = got == "Err"
            else:
                r = unwrap(p.ret.a[4]) if p.ret.op == "agg" and got == "Ok" else None
                ok = bool(em) and r is not None and r.op == "agg" and len(r.a) == 6 and trimmed(unwrap(r.a[4]), key) and trimmed(unwrap(r.a[5]), val)
            n += 1
            c.ob("pair", f"{'with' if k == 'Some' else 'without'} an equal sign{', empty key' if em and em[0] else ''}", ok, f"gives {show(p.ret)[:160]}", f"pair|{k}|{em}", p.span)
    c.floor("pairs", n, 3)
    n = 0
    for b in anchored(c, r"args::parse_source_date_epoch$", W):
        for p in paths(c, b, events=r"::parse$|from_str(_radix)?$"):
            ps = [e.res for e in p.events if e.kind == "call" and unwrap(e.args[0]) is raw]
            k = p.variant(ps[0]) if ps else None
            r = p.ret
            ok = p.end == "return" and len(ps) == 1 and (r is ps[0] or k is not None and p.variant(r) == k and (k == "Err" or bare(agg_field(r, "0")) is payload(ps[0], "Ok")))
            n += 1
            c.ob("pair", "timestamp", ok, f"gives {show(r)[:120] if r is not None else p.end}", "pair|time", p.span)
    c.floor("timestamps", n, 1)


@check("A01")
def a01(c):
    c.which = 2
    c.rule("format", "the task exports in the given format, else in that of the output's extension in any case, else PDF; only another extension is refused")
    c.rule("task", "the task has the given name, else the document's id, its document, the given time to run (else never), pages, PDF standards and PPI, and no arguments panic")
    c.rule("output", "the task writes to the given path")
    c.rule("input", "the document has the given name, else its path's id, and exactly the given main file, root, font and package paths")
    c.rule("pair", "an input is split at its first '=', both sides trimmed, and refused without '=' or key; a timestamp is the number given")
    to_task(c)
    to_input(c)
    pairs(c)


# ------------------------------------------------------------------ A02
OPE = r"EntryOpts::new_rooted$"


def absolute(p, v, x):
    """v is the given path, joined to the current directory unless it is absolute"""
    v = bare(v)
    known = [f[1] == "1" for u, f in p.facts.items() if f[0] == "eq" and re.search(r"Path::(is_absolute|has_root)$", call_name(u)) and bare(u.a[1][0]) is x]
    rel = [f[1] == "0" for u, f in p.facts.items() if f[0] == "eq" and re.search(r"Path::is_relative$", call_name(u)) and bare(u.a[1][0]) is x]
    known += rel
    if v is x:
        return bool(known) and known[0]
    if re.search(r"Path::join$", call_name(v)) and bare(v.a[1][1]) is x:
        w = bare(v.a[1][0])
        return w.op == "proj" and called(w.a[0].a[0] if w.a[0].op == "proj" else w.a[0], r"env::current_dir$")
    return False


def failed(p, *what):
    """whether one of the steps that may fail has failed on the path"""
    for v, f in p.facts.items():
        x = ctx(v)
        if x.op == "agg":
            continue
        if p.variant(v) in ("Err", "None") or p.variant(x) in ("Err", "None"):
            if any(re.search(w, call_name(x)) if isinstance(w, str) else x is w for w in what):
                return True
    return False


def stripped(p, r):
    """(root, main file, the rest) of the entry options made, or None"""
    v = unwrap(agg_field(r, "0")) if r.op == "agg" else payload(r, "Ok")
    if v is None or not called(v, r"EntryOpts::new_rooted$") or len(v.a[1]) != 2:
        return None
    root, m = bare(v.a[1][0]), unwrap(v.a[1][1])
    if agg_variant(m) != "Some":
        return None
    rest = bare(m.a[4])
    st = rest.a[0].a[0] if rest.op == "proj" and rest.a[0].op == "proj" else None
    if st is None or not re.search(r"Path::strip_prefix$", call_name(st)) or bare(st.a[1][1]) is not root:
        return None
    return root, bare(st.a[1][0])


def entries(c):
    n = m = 0
    for rx, crate in ((r"CompileOnceArgs as .*WorldProvider>::entry$", J), (r"CompileOnceArgs::resolve_sys_entry_opts$", W)):
        inp, root = F(me, "input"), F(me, "root")
        for b in anchored(c, rx, crate):
            for p in paths(c, b, events="ZZ", opaque=OPE):
                site = b.name.split("::")[-1]
                if p.end != "return":
                    c.ob("entry", f"{site} no panic", False, p.end, f"entry|{site}|panic", p.span)
                    continue
                if p.variant(p.ret) == "Err":
                    ok = p.variant(inp) == "None" or failed(p, r"current_dir$", r"Path::parent$", r"strip_prefix$")
                    m += 1
                    c.ob("entry", f"{site} refused", ok, f"a main file is refused under {[(show(v)[:80], f) for v, f in p.facts.items()][-3:]}", f"entry|{site}|refused", p.span)
                    continue
                s = stripped(p, p.ret)
                ok = s is not None and p.variant(inp) == "Some" and absolute(p, s[1], payload(inp, "Some"))
                c.ob("entry", f"{site} main", ok, f"the main file is {show(p.ret)[:160]}", f"entry|{site}|main", p.span)
                k = p.variant(root)
                if k == "Some":
                    ok = s is not None and absolute(p, s[0], payload(root, "Some"))
                else:
                    r = s[0] if s else None
                    ok = k == "None" and r is not None and r.op == "proj" and r.a[0].op == "proj" and re.search(r"Path::parent$", call_name(r.a[0].a[0])) and bare(r.a[0].a[0].a[1][0]) is s[1]
                n += 1
                c.ob("entry", f"{site} root {'given' if k == 'Some' else 'not given'}", bool(ok), f"the root is {show(s[0])[:120] if s else None}", f"entry|{site}|root|{k}", p.span)
    c.floor("entries of arguments", n, 8)
    c.floor("entries refused", m, 6)
    n = 0
    proj, lock = F(me, "0"), F(me, "1")
    for b in anchored(c, r"ProjectInput, .* as .*WorldProvider>::entry$"):
        for p in paths(c, b, events="ZZ", opaque=OPE + r"|to_abs_path$"):
            if p.end != "return":
                c.ob("entry", "stored no panic", False, p.end, "entry|stored|panic", p.span)
                continue
            inside = [f[1] for v, f in p.facts.items() if re.search(r"Path::starts_with$", call_name(v))]
            if p.variant(p.ret) == "Err":
                ok = failed(p, r"to_abs_path$", r"strip_prefix$") or "0" in inside
                c.ob("entry", "stored refused", ok, f"a stored document is refused under {[(show(v)[:80], f) for v, f in p.facts.items()][-3:]}", "entry|stored|refused", p.span)
                continue
            s = stripped(p, p.ret)
            at = lambda v, x: v.op == "proj" and v.a[0].op == "proj" and called(v.a[0].a[0], r"ResourcePath::to_abs_path$", x, lock)
            ok = s is not None and at(s[1], F(proj, "main"))
            c.ob("entry", "stored main", ok, f"the main file is {show(p.ret)[:160]}", "entry|stored|main", p.span)
            k = p.variant(F(proj, "root"))
            ok = s is not None and (k == "Some" and at(s[0], payload(F(proj, "root"), "Some")) or k == "None" and unwrap(s[0]) is lock)
            n += 1
            c.ob("entry", f"stored root {k}", ok, f"the root is {show(s[0])[:120] if s else None}", f"entry|stored|root|{k}", p.span)
    c.floor("entries of stored documents", n, 2)


OPW = r"WorldProvider>::entry$|resolve_sys_entry_opts$|resolve_inputs$|resolve_features$|resolve_fonts$|resolve_package$|UniverseBuilder::build$|to_abs_path$"


def ok_value(v, rx, *args):
    """the value of a success of the call"""
    v = bare(v)
    return v.op == "proj" and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Ok") and called(ctx(v.a[0].a[0]), rx, *args)


def worlds(c):
    n = 0
    for rx, crate, ent in ((r"CompileOnceArgs as .*WorldProvider>::resolve$", J, r"WorldProvider>::entry$"), (r"CompileOnceArgs::resolve_system$", W, r"resolve_sys_entry_opts$"),
                           (r"ProjectInput, .* as .*WorldProvider>::resolve$", J, r"WorldProvider>::entry$")):
        stored = "ProjectInput" in rx
        for b in anchored(c, rx, crate):
            site = "stored document" if stored else b.name.split("::")[-1]
            if b.crate == W:
                names = ["entry", "inputs", "fonts", "packages"]
            else:
                names = ["entry", "target", "features", "inputs", "packages", "fonts"]
            for p in paths(c, b, events="ZZ", opaque=OPW):
                if p.end != "return":
                    c.ob("world", f"{site} no panic", False, p.end, f"world|{site}|panic", p.span)
                    continue
                if p.variant(p.ret) == "Err":
                    c.ob("world", f"{site} refused", failed(p, r"::entry$|resolve_sys_entry_opts$|try_into$|try_from$|resolve_fonts$"), "is refused though every step succeeded", f"world|{site}|refused", p.span)
                    continue
                v = unwrap(agg_field(p.ret, "0")) if p.ret.op == "agg" else p.ret
                if not called(v, r"UniverseBuilder::build$") or len(v.a[1]) != len(names):
                    c.ob("world", site, False, f"gives {show(p.ret)[:120]}", f"world|{site}|build", p.span)
                    continue
                n += 1
                a = dict(zip(names, v.a[1]))
                e = bare(a["entry"])
                if e.op == "proj" and e.a[0].op == "proj" and re.search(r"Try(Into|From).*::try_(into|from)$", call_name(ctx(e.a[0].a[0]))):
                    e = ctx(e.a[0].a[0]).a[1][0]
                c.ob("world", f"{site} entry", ok_value(e, ent, me), f"the entry is {show(a['entry'])[:120]}", f"world|{site}|entry", p.span)
                if "target" in a:
                    c.ob("world", f"{site} target", agg_variant(unwrap(a["target"])) == "Paged", f"compiles for {show(a['target'])[:60]}", f"world|{site}|target", p.span)
                f, pk = bare(a["fonts"]), unwrap(a["packages"])
                while re.search(r"Arc(<.*>)?::(new|from)$", call_name(f)):
                    f = bare(f.a[1][0])
                if not stored:
                    c.ob("world", f"{site} fonts", ok_value(f, r"resolve_fonts$", F(me, "font")), f"the fonts are {show(f)[:120]}", f"world|{site}|fonts", p.span)
                    ok = called(pk, r"resolve_package$", lambda x: optional(p, x, F(me, "cert"), lambda y, z: unwrap(y) is z), lambda x: opt(p, x) == ("Some", F(me, "package")))
                    c.ob("world", f"{site} packages", ok, f"the packages are {show(pk)[:160]}", f"world|{site}|packages", p.span)
                    if "features" in a:
                        c.ob("world", f"{site} features", called(a["features"], r"resolve_features$", me), f"the features are {show(a['features'])[:80]}", f"world|{site}|features", p.span)
                    i = unwrap(a["inputs"])
                    ri = [x for x in p.facts if called(x, r"resolve_inputs$", me)]
                    k = p.variant(ri[0]) if ri else None
                    ok = called(i, r"unwrap_or_default$", lambda x: called(x, r"resolve_inputs$", me)) or k == "Some" and i is payload(ri[0], "Some") or k == "None" and re.search(r"::default$", call_name(i))
                    c.ob("world", f"{site} inputs", bool(ok), f"the inputs are {show(i)[:120]}", f"world|{site}|inputs", p.span)
                    continue
                proj, lock = F(me, "0"), F(me, "1")
                at = lambda y, x: called(unwrap(y), r"to_abs_path$", x, lock)
                fa = ctx(f.a[0].a[0]).a[1][0] if ok_value(f, r"resolve_fonts$") else None
                ok = fa is not None and listed(c, p, agg_field(fa, "font_paths"), F(proj, "font_paths"), lambda q, r, x: at(r, x)) and agg_field(fa, "ignore_system_fonts") is mk("not", F(proj, "system_fonts"))
                c.ob("world", f"{site} fonts", ok, f"the fonts are {show(fa)[:160] if fa is not None else None}", f"world|{site}|fonts", p.span)
                ok = called(pk, r"resolve_package$") and opt(p, pk.a[1][1])[0] == "Some"
                pa = opt(p, pk.a[1][1])[1] if ok else None
                for fld in ("package_path", "package_cache_path"):
                    src = F(proj, fld)
                    ok = pa is not None and agg_field(pa, fld) is not None
                    if ok:
                        g = p.variant(src)
                        x = unwrap(agg_field(pa, fld))
                        ok = g == "Some" and at(x, payload(src, "Some")) or g == "None" and agg_variant(x) == "None"
                    c.ob("world", f"{site} {fld}", ok, f"the packages are {show(pk)[:160]}", f"world|{site}|{fld}", p.span)
                c.ob("world", f"{site} inputs", mentions(a["inputs"], lambda x: x is F(proj, "inputs")), f"the inputs are {show(a['inputs'])[:120]}", f"world|{site}|inputs", p.span)
    c.floor("universes made", n, 12)


def given(c):
    """inputs, features, fonts and packages: all of what is given"""
    n = 0
    for b in anchored(c, r"CompileOnceArgs::resolve_inputs$", W):
        for p in paths(c, b, events="ZZ"):
            src = F(me, "inputs")
            em = [f[1] == "1" for v, f in p.facts.items() if call_name(v).endswith("is_empty") and unwrap(v.a[1][0]) is src]
            k = p.variant(p.ret) if p.end == "return" else None
            if k == "None":
                ok = bool(em) and em[0]
            else:
                v = unwrap(p.ret.a[4]) if k == "Some" and p.ret.op == "agg" else None
                while v is not None and call_name(v).endswith("::new"):
                    v = unwrap(v.a[1][0])
                kv = lambda q, r, x: r.op == "agg" and len(r.a) == 6 and text_of(r.a[4], F(x, "0")) and text_of(r.a[5], F(x, "1"))
                ok = v is not None and listed(c, p, v, src, kv)
            n += 1
            c.ob("given", "inputs", ok, f"the inputs are {show(p.ret)[:160] if p.ret is not None else p.end}", "given|inputs", p.span)
    for b in anchored(c, r"CompileOnceArgs::resolve_features$", W):
        for p in paths(c, b, events="ZZ", opaque=r"Feature as .*From"):
            ok = p.end == "return" and listed(c, p, p.ret, F(me, "features"), lambda q, r, x: unwrap(r) is x or called(r, r"(from|into)$", x))
            n += 1
            c.ob("given", "features", ok, f"the features are {show(p.ret)[:160] if p.ret is not None else p.end}", "given|features", p.span)
    for b in anchored(c, r"Feature as std::convert::From>::from$", W):
        names = set()
        for p in paths(c, b, events="ZZ"):
            a = next((v for v in p.facts if v.op == "arg"), mk("arg", "f"))
            names.add((p.variant(a), agg_variant(p.ret)) if p.end == "return" else ("?", p.end))
        n += 1
        ok = bool(names) and all(x == y for x, y in names if x is not None) and {y for _, y in names} == {"Html"}
        c.ob("given", "feature", ok, f"features become {sorted(map(str, names))}", "given|feature", b.span)
    for crate in (J, W):
        for b in anchored(c, r"UniverseBuilder::resolve_fonts$", crate):
            a = mk("arg", "args")
            for p in paths(c, b, events="resolve_opts$|build$", opaque=r"SystemFontSearcher::(resolve_opts|build|new)$"):
                o = [e for e in p.events if e.kind == "call" and e.name.endswith("resolve_opts")]
                v = o[0].args[1] if len(o) == 1 else None
                ok = v is not None and v.op == "agg" and unwrap(agg_field(v, "font_paths")) is F(a, "font_paths") and agg_field(v, "no_system_fonts") is F(a, "ignore_system_fonts") \
                    and mentions(agg_field(v, "with_embedded_fonts"), lambda x: re.search(r"typst_assets::fonts$", call_name(x)))
                r = p.variant(o[0].res) if ok else None
                ok = ok and p.end == "return" and p.variant(p.ret) == r
                n += 1
                c.ob("given", "fonts", bool(ok), f"searches {show(v)[:160] if v is not None else None} and gives {p.variant(p.ret) if p.ret is not None else p.end}", f"given|fonts|{crate}", p.span)
        for b in anchored(c, r"UniverseBuilder::resolve_package$", crate):
            a = mk("arg", "args")
            for p in paths(c, b, events="ZZ", opaque=r"HttpRegistry::new$"):
                v = p.ret
                ok = p.end == "return" and called(v, r"HttpRegistry::new$") and unwrap(v.a[1][0]) is mk("arg", "cert_path")
                k = p.variant(a)
                for i, fld in ((1, "package_path"), (2, "package_cache_path")):
                    if not ok:
                        break
                    src = F(payload(a, "Some"), fld)
                    x = v.a[1][i]
                    ok = k == "None" and opt(p, x)[0] == "None" or k == "Some" and optional(p, x, src, lambda y, z: unwrap(y) is z)
                n += 1
                c.ob("given", "packages", ok, f"the registry is {show(v)[:160]}", f"given|packages|{crate}", p.span)
    c.floor("things given", n, 15)
    n = 0
    for b in anchored(c, r"LspUniverseBuilder::build$"):
        arg = lambda s: mk("arg", s)
        for p in paths(c, b, events="ZZ", opaque=r"::new_raw$|Vfs::new$|RegistryPathMapper::new$"):
            v = p.ret
            if p.end != "return" or not call_name(v).endswith("::new_raw"):
                c.ob("given", "universe", False, f"{p.end} {show(v)[:100] if v is not None else ''}", "given|universe", p.span)
                continue
            html = p.variant(arg("export_target")) == "Html"
            e, ft, inp, vf, reg, fonts = v.a[1]
            ok = e is arg("entry") and opt(p, inp) == ("Some", arg("inputs")) and unwrap(fonts) is arg("font_resolver")
            ok = ok and mentions(reg, lambda x: x is arg("package_registry")) and mentions(vf, lambda x: x is arg("package_registry"))
            ok = ok and (mentions(ft, lambda x: x.op == "agg" and agg_variant(x) == "Html") if html else ft is arg("features"))
            n += 1
            c.ob("given", f"universe{' for HTML' if html else ''}", bool(ok), f"the universe is {show(v)[:200]}", f"given|universe|{html}", p.span)
    c.floor("universes built", n, 2)


def text_of(v, x):
    """v is the text x, in whatever type"""
    while True:
        v = unwrap(v)
        if v is x:
            return True
        if v.op == "agg" and len(v.a) == 5:
            v = v.a[4]
        elif v.op in ("call", "pure") and len(v.a[1]) == 1 and re.search(r"::(as_str|into_value|to_string|as_ref|from|into)$", call_name(v)):
            v = v.a[1][0]
        else:
            return False


@check("A02")
def a02(c):
    c.which = 2
    c.rule("entry", "the main file is the given one in the current directory or below the lock file, the root the given one, else the main file's or the lock file's directory; a file outside is refused")
    c.rule("world", "a universe is made of exactly that entry, and the inputs, features, fonts, packages and certificate given, and refused only if a step fails")
    c.rule("given", "every input and feature, all font paths, the embedded fonts, both package paths and nothing else are passed on")
    entries(c)
    worlds(c)
    given(c)
