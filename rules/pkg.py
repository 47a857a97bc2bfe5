"""P: packages (crate tinymist-package, built against the interface stubs)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
import vfs
from vfs import SELF, at, call_name, fpath, nexts, payload, src, text_is

FSW = re.compile(r"^std::fs::(rename|remove_\w+|create_dir\w*|write|copy|hard_link|soft_link|set_permissions)$|^std::fs::File::(create\w*)$|OpenOptions::open$|^std::os::unix::fs::symlink$|Archive::unpack$|Entry::unpack\w*$|(io::)?copy$|::write_all$|::set_len$")


def anchored(c, rx):
    return vfs.anchored(c, rx, crate="tinymist_package")


def closure_runs(c, p, clo, more=None, at=None, **kw):
    """paths of a closure value, on what it captures at the end of the path or at the event, and on the given parameters"""
    P = program(c.which)
    st = at or p.st
    if clo.op == "ref":
        clo = p.interp.resolve(st, p.interp.read(st, clo.a))
    if clo.op == "fn":
        b = P.bodies.get((clo.a[2], clo.a[1]))
        return None if b is None else c.paths_of(b, args={k - 1: v for k, v in (more or {}).items()}, **kw)
    if clo.op != "clo":
        return None
    vals = []
    for x in clo.a[2]:
        if x.op == "ref":
            x = p.interp.resolve(st, p.interp.read(st, x.a))
        vals.append(x)
    clo = mk("clo", clo.a[0], clo.a[1], tuple(vals), *clo.a[3:])
    b = P.bodies.get((clo.a[4], clo.a[3]))
    kw.setdefault("hof", False)
    return None if b is None else c.paths_of(b, args={1: clo, **(more or {})}, **kw)


def unwrap(v):
    """the value behind conversions"""
    while True:
        if v.op in ("call", "pure") and re.search(r"::(into|from|to_owned|to_path_buf|as_path|as_ref|clone|deref|borrow|into_owned|new_display)$", v.a[0]) and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            return v


def text_parts(v):
    """[text or value] of a string built with format!, to_string or taken as it is; None if it cannot be told"""
    v = unwrap(v)
    if v.op == "const" and isinstance(cval(v), str):
        return [cval(v)]
    n = call_name(v)
    if re.search(r"fmt::format$|::format$|to_eco_string$", n) and v.a[1]:
        return text_parts(v.a[1][0])
    if re.search(r"::to_string$", n):
        return [v.a[1][0]]
    parts = fmt_parts(v)
    if parts is not None:
        out = []
        for x in parts:
            if isinstance(x, str):
                out.append(x)
            elif x[-1] == "*" or "*" in str(x[2] if len(x) > 2 else ""):
                return None
            else:
                out.append(unwrap(x[1]))
        return out
    if "fmt::Arguments" in n:
        return None
    return [v]


def joined(v):
    """(base path, [text or value] joined to it with '/' between) of a path built with join"""
    v = unwrap(v)
    rest = []
    while re.search(r"Path::join$", call_name(v)):
        ps = text_parts(v.a[1][1])
        if ps is None:
            return v, None
        rest = ps + (["/"] if rest else []) + rest
        v = unwrap(v.a[1][0])
    return v, rest


def spec_dir(v, root_of, spec, fields):
    b, rest = joined(v)
    want = []
    for i, f in enumerate(fields):
        want += (["/"] if i else []) + [F(spec, f)]
    if rest is None or not root_of(b):
        return False
    # adjacent texts
    got = []
    for x in rest:
        if got and isinstance(x, str) and isinstance(got[-1], str):
            got[-1] += x
        else:
            got.append(x)
    return len(got) == len(want) and all(x == y if isinstance(y, str) else x is y for x, y in zip(got, want))


def err_kind(p, v):
    """variant of the package error a result carries"""
    if p.variant(v) != "Err":
        return None
    x = payload(v, "Err")
    return p.variant(x)


def noise(p):
    """the path fails to write a text, which only happens when a formatter misbehaves"""
    return any(f == ("eq", "Err") and re.search(r"fmt::Write>?::write_fmt$", call_name(v)) for v, f in p.facts.items())


@check("P01")
def p01(c):
    c.which = 2
    c.rule("resolve", "a package resolves to the directory namespace/name/version below the data directory if that exists, else below the cache directory if that exists or exists after a download; otherwise it is not found")
    c.rule("download when", "a package is downloaded only if it is in the preview namespace and in neither directory, into its directory in the cache; a failed download is the failure of the package")
    c.rule("dirs", "the registry looks in the directories it was given, and for those not given in the platform's own; it answers from this storage")
    n = defaultdict(int)
    spec = mk("arg", "spec")
    for b in anchored(c, r"PackageStorage::prepare_package$"):
        ps = c.paths_of(b, events=r"exists$|is_dir$|download_package$|try_exists$", cut=".", stores=True, opaque=r"download_package$")
        roots = {"package_path": F(SELF, "package_path"), "package_cache_path": F(SELF, "package_cache_path")}

        def dir_of(v):
            for k, r in roots.items():
                if spec_dir(v, lambda x: x is F(r, "+Some", "0"), spec, ("namespace", "name", "version")):
                    return k

        for p in ps:
            seen = []  # what the path learned, in order
            for e in p.events:
                if e.kind != "call":
                    continue
                if re.search(r"(exists|is_dir)$", e.name):
                    seen.append(("exists", dir_of(e.args[0]), p.truth(e.res) if p.truth(e.res) is not None else p.truth(payload(e.res, "Ok"))))
                elif re.search(r"download_package$", e.name):
                    seen.append(("download", dir_of(e.args[2]), p.variant(e.res)))
                    pre = [x for x in seen[:-1]]
                    ns = any(f == ("eq", "1") and v.op == "bin" and v.a[0] == "Eq" and {F(spec, "namespace")} & {v.a[1], v.a[2]} and any(text_is(x, "preview") for x in v.a[1:]) for v, f in p.facts.items())
                    ok = e.args[0] is SELF and e.args[1] is spec and dir_of(e.args[2]) == "package_cache_path" and ns and ("exists", "package_cache_path", False) in pre and (("exists", "package_path", False) in pre or p.variant(roots["package_path"]) == "None")
                    n["downloads"] += 1
                    c.ob("download when", "download", bool(ok), f"{e.args[1:]} after {pre}; preview: {ns}", "when|call", e.span)
            data_gone = p.variant(roots["package_path"]) == "None" or ("exists", "package_path", False) in seen
            last = seen[-1] if seen else None
            rv = p.variant(p.ret)
            bad_dir = any(x[1] is None for x in seen)
            if p.end != "return" or bad_dir:
                c.ob("resolve", "followed", False, f"{src(p)}; {seen}", "resolve|other", p.span)
            elif rv == "Ok":
                k = dir_of(unwrap(payload(p.ret, "Ok")))
                n[f"found in {k}"] += 1
                ok = k is not None and last == ("exists", k, True) and (k == "package_path" or data_gone)
                c.ob("resolve", f"found in {k}", bool(ok), f"{src(p)}; {seen}", f"resolve|{k}", p.span)
            else:
                dl = [x for x in seen if x[0] == "download"]
                if dl and dl[-1][2] == "Err":
                    d = [e for e in p.events if e.name.endswith("download_package")][-1]
                    ok = unwrap(payload(p.ret, "Err")) is F(d.res, "+Err", "0") or p.ret is d.res
                    n["download failed"] += 1
                    c.ob("download when", "failure", bool(ok), src(p), "when|err", p.span)
                    continue
                pc = p.variant(roots["package_cache_path"])
                preview = None
                for v, f in p.facts.items():
                    if v.op == "bin" and v.a[0] == "Eq" and any(text_is(x, "preview") for x in v.a[1:]) and F(spec, "namespace") in v.a[1:]:
                        preview = f == ("eq", "1")
                gone = pc == "None" or last is not None and last[1:] == ("package_cache_path", False) and (preview is False or dl)
                e = payload(p.ret, "Err")
                ok = rv == "Err" and err_kind(p, p.ret) == "NotFound" and e.op == "agg" and e.a[4] is spec and data_gone and gone
                n["not found"] += 1
                c.ob("resolve", "not found", bool(ok), f"{src(p)}; {seen}; preview {preview}", "resolve|none", p.span)
    for k in ("found in package_path", "found in package_cache_path", "not found", "downloads", "download failed"):
        c.floor(k, n[k], 1)
    for b in anchored(c, r"HttpRegistry as .*PackageRegistry>::resolve$"):
        for p in c.paths_of(b, events=r"prepare_package$", cut=".", opaque=r"prepare_package$|HttpRegistry::storage$"):
            ok = p.end == "return" and re.search(r"prepare_package$", call_name(p.ret)) and re.search(r"HttpRegistry::storage$", call_name(p.ret.a[1][0])) and p.ret.a[1][0].a[1][0] is SELF and p.ret.a[1][1] is spec
            c.ob("dirs", "answers from its storage", bool(ok), src(p), "dirs|resolve", p.span)
            n["registry"] += 1
    for b in anchored(c, r"HttpRegistry::storage$"):
        for p in c.paths_of(b, events=r"get_or_init$", cut=".", hof=False, opaque=r"get_or_init$"):
            e = evs(p, r"get_or_init$", "call")
            ok = p.end == "return" and len(e) == 1 and at(e[0].args[0], "storage") and p.ret is e[0].res
            c.ob("dirs", "one storage", bool(ok), src(p), "dirs|once", p.span)
            for q in (closure_runs(c, p, e[0].args[1], events="PackageStorage::new|_dir$|join$", opaque=r"PackageStorage::new$", cut=".") or [None]) if e else []:
                if q is None or q.end != "return" or not re.search(r"PackageStorage::new$", call_name(q.ret)):
                    c.ob("dirs", "made", False, src(q) if q is not None else "not a closure", "dirs|made", p.span)
                    continue
                for i, (f, d) in enumerate((("package_cache_path", "cache_dir"), ("package_path", "data_dir"))):
                    v = q.ret.a[1][i]
                    own = F(SELF, f)
                    given = q.variant(own)
                    if v is own:
                        ok = given == "Some"
                    elif q.variant(v) == "Some":
                        x = payload(v, "Some")
                        if given == "Some":
                            ok = unwrap(x) is F(own, "+Some", "0")
                        else:
                            bs, rest = joined(x)
                            ok = given == "None" and rest == ["typst/packages"] and bs.op == "proj" and re.search(rf"dirs(_sys)?::(\w+::)*{d}$", call_name(bs.a[0].a[0])) is not None
                    else:
                        ok = given == "None" and any(fv == ("eq", "None") and re.search(rf"::{d}$", call_name(k)) for k, fv in q.facts.items())
                    n["directories"] += 1
                    c.ob("dirs", f, bool(ok), f"given {given}: {show(v)[:120]}", f"dirs|{f}", q.span)
                c.ob("dirs", "certificate", unwrap(q.ret.a[1][2]) is F(SELF, "cert_path"), show(q.ret.a[1][2])[:80], "dirs|cert", q.span)
    c.floor("registry answers", n["registry"], 1)
    c.floor("directories", n["directories"], 4)
    for b in anchored(c, r"PackageStorage::new$"):
        for p in c.paths_of(b):
            ok = p.end == "return" and all(agg_field(p.ret, f) is mk("arg", f) for f in ("package_path", "package_cache_path", "cert_path"))
            c.ob("dirs", "kept", bool(ok), src(p), "dirs|kept", p.span)


@check("P02")
def p02(c):
    c.which = 2
    c.rule("unpack", "a download is unpacked next to the package's directory, in a directory of its own that no listing takes for a package; the package's directory is only ever made by moving that directory in place after everything was unpacked")
    c.rule("success", "a download succeeds only if the archive of exactly that package was fetched and unpacked, and moved in place, or another one is in place")
    c.rule("failure", "a missing package is reported as not found, another failed request as a network failure, a bad archive as such; a request that cannot be made is a failure")
    c.rule("request", "the archive asked for is the one of the name and version, once, and its outcome is what is handled")
    n = defaultdict(int)
    spec, pdir = mk("arg", "spec"), mk("arg", "package_dir")
    for b in anchored(c, r"PackageStorage::download_package$"):
        ps = c.paths_of(b, events=r"threaded_http$|" + FSW.pattern, cut=".", opaque=r"threaded_http$", hof=False)
        for p in ps:
            if noise(p):
                continue
            if p.end == "diverge":
                ok = any(f == ("eq", "0") and F(spec, "namespace") in v.a for v, f in p.facts.items() if v.op == "bin" and v.a[0] == "Eq")
                c.ob("request", "refused", bool(ok), src(p), "request|refused", p.span)
                continue
            e = evs(p, r"threaded_http$", "call")
            if len(e) != 1 or p.end != "return":
                c.ob("request", "one request", False, src(p), "request|one", p.span)
                continue
            e = e[0]
            parts = text_parts(e.args[0])
            name = False
            if parts:
                tail = [x for x in parts if x]
                name = len(tail) >= 4 and tail[-1] == ".tar.gz" and tail[-2] is F(spec, "version") and tail[-3] == "-" and tail[-4] is F(spec, "name") and all(isinstance(x, (str, V)) for x in tail)
                pre = "".join(x if isinstance(x, str) else str(const_of(x)) if is_const(x) else "?" for x in tail[:-4])
                name = name and pre.endswith("/preview/") and pre.startswith("https://")
            c.ob("request", "address", bool(name), f"{[x if isinstance(x, str) else show(x)[:40] for x in parts or []]}", "request|url", p.span)
            other = [x for x in p.events if x.kind == "call" and FSW.search(x.name)]
            c.ob("unpack", "nothing else", not other, f"{[x.name for x in other]}", "unpack|else", p.span)
            if p.variant(e.res) == "None":
                ok = err_kind(p, p.ret) is not None
                c.ob("failure", "no request", bool(ok), src(p), "failure|thread", p.span)
                n["no request"] += 1
            else:
                c.ob("request", "outcome", p.variant(e.res) == "Some" and p.ret is F(e.res, "+Some", "0"), src(p), "request|out", p.span)
                if not n["handled"]:
                    handled(c, p, e.args[2], spec, pdir, n)
                n["handled"] += 1
    for k in ("no request", "handled", "succeeded", "another in place", "Err 404", "Err request", "Err unpack"):
        c.floor(k, n[k], 1)
    http(c, n)
    c.floor("requests", n["requests"], 1)


def status(c, q, resp, spec, n, rule):
    """how a failed request is reported; None if the request succeeded"""
    good = F(resp, "+Ok", "0")
    efs = next((v for v in q.facts if re.search(r"error_for_status(_ref)?$", call_name(v)) and v.a[1][0] is good), None)
    if q.variant(resp) == "Ok" and efs is not None and q.variant(efs) == "Ok":
        return F(efs, "+Ok", "0")
    err = F(resp, "+Err", "0") if q.variant(resp) == "Err" else F(efs, "+Err", "0") if efs is not None else None
    code = None
    for v, f in q.facts.items():
        if re.search(r"StatusCode::as_u16$", call_name(v)) and mentions(v, lambda x: x is err):
            code = f == ("eq", "404")
        elif v.op == "bin" and v.a[0] == "Eq" and mentions(v, lambda x: x is err) and any(const_of(x) == 404 or "NOT_FOUND" in show(x) for x in v.a[1:]):
            code = f == ("eq", "1")
    kind = err_kind(q, q.ret)
    e = payload(q.ret, "Err")
    ok = q.end == "return" and err is not None
    if code:
        n["Err 404"] += 1
        ok = ok and kind == "NotFound" and e.op == "agg" and unwrap(e.a[4]) is spec
    else:
        n["Err request"] += 1
        ok = ok and kind == "NetworkFailed"
    c.ob(rule, f"request failed, missing: {code}", bool(ok), src(q), f"{rule}|{code}", q.span)
    return None


def mentions(v, f):
    return any(f(x) for x in walk(v))


def handled(c, p, clo, spec, pdir, n):
    """what is done with the response"""
    resp = mk("arg", "resp")
    qs = closure_runs(c, p, clo, {2: resp}, events=r"exists$|error_for_status|process::id|" + FSW.pattern, cut=".", stores=True) or []
    c.ob("request", "handler", bool(qs), "the handler is not a closure", "request|clo", p.span)
    for q in qs:
        if noise(q):
            continue
        w = [e for e in q.events if e.kind == "call" and FSW.search(e.name)]
        body = status(c, q, resp, spec, n, "failure")
        if body is None:
            c.ob("unpack", "nothing without a response", not w, f"{[e.name for e in w]}", "unpack|early", q.span)
            continue
        un = [e for e in w if re.search(r"Archive::unpack$", e.name)]
        ren = [e for e in w if e.name.endswith("fs::rename")]
        rest = [e for e in w if e not in un and e not in ren]
        ok = len(un) == 1
        tmp = un[0].args[1] if ok else None
        if ok:
            ok = own_dir(tmp, pdir) and mentions(un[0].args[0], lambda x: x is body)
        c.ob("unpack", "directory of its own", bool(ok), f"unpacks into {show(tmp)[:160] if tmp is not None else None}", "unpack|own", q.span)
        for e in rest:
            good = re.search(r"fs::(remove_dir_all|create_dir_all|create_dir)$", e.name) and (e.args[0] is tmp or own_dir(e.args[0], pdir) or re.search(r"create_dir", e.name) and is_parent(e.args[0], pdir))
            if re.search(r"remove_dir_all$", e.name) and ren and q.variant(ren[0].res) == "Ok" and q.events.index(e) > q.events.index(ren[0]):
                pass
            c.ob("unpack", "other effects", bool(good), f"{e.name}({show(e.args[0])[:80]})", "unpack|other", e.span)
        opened = un[0].res if un else None
        for e in ren:
            ok = e.args[0] is tmp and e.args[1] is pdir and q.variant(opened) == "Ok" and q.events.index(e) > q.events.index(un[0])
            c.ob("unpack", "moved in place", bool(ok), f"rename({show(e.args[0])[:60]}, {show(e.args[1])[:60]}) with unpack {q.variant(opened)}", "unpack|rename", e.span)
        rv = q.variant(q.ret)
        if opened is None:
            continue
        if q.variant(opened) != "Ok":
            n["Err unpack"] += 1
            c.ob("failure", "bad archive", q.end == "return" and err_kind(q, q.ret) == "MalformedArchive", src(q), "failure|archive", q.span)
            continue
        moved = ren and q.variant(ren[-1].res) == "Ok"
        there = any(e.kind == "call" and re.search(r"exists$|is_dir$", e.name) and e.args[0] is pdir and q.truth(e.res) and (not ren or q.events.index(e) > q.events.index(ren[-1])) for e in q.events)
        if rv == "Ok":
            n["succeeded" if moved else "another in place"] += 1
            c.ob("success", "in place", q.end == "return" and bool(moved or there), f"moved {bool(moved)}, there {there}", "success|ok", q.span)
        else:
            n["Err move"] += 1
            c.ob("success", "not in place", q.end == "return" and rv == "Err" and not moved, src(q), "success|err", q.span)


def own_dir(v, pdir):
    """a directory next to the package's, with a hidden name that no other download uses"""
    v = unwrap(v)
    n = call_name(v)
    if re.search(r"Path::with_file_name$", n) and unwrap(v.a[1][0]) is pdir:
        ps = text_parts(v.a[1][1])
    elif re.search(r"Path::join$", n) and is_parent(v.a[1][0], pdir):
        ps = text_parts(v.a[1][1])
    else:
        # a temporary directory made below the parent
        return mentions(v, lambda x: re.search(r"tempdir_in$", call_name(x)) and any(is_parent(a, pdir) for a in x.a[1]))
    if not ps or not isinstance(ps[0], str) or not ps[0].startswith("."):
        return False
    rnd = r"random|fastrand|rng|uuid"
    within = lambda rx: any(isinstance(x, V) and mentions(x, lambda y: re.search(rx, call_name(y))) for x in ps)
    return within(rnd) or within(r"fetch_add$") and within(r"process::id$")


def is_parent(v, pdir):
    v = unwrap(v)
    while v.op == "proj":
        v = v.a[0]
    return bool(re.search(r"Path::parent$", call_name(v))) and unwrap(v.a[1][0]) is pdir


def http(c, n):
    """the one request: its outcome goes to the handler"""
    url = mk("arg", "url")
    P = program(c.which)
    bs = [b for (k, i), b in P.bodies.items() if k == "tinymist_package" and re.search(r"^registry::http::threaded_http::\{closure#0\}(::\{closure#0\})?$", b.name)]
    for b in bs:
        for p in c.paths_of(b, events=r"call_once$|blocking::.*::(send|get|execute|build)$|call_mut$", cut=".", hof=False):
            calls = evs(p, r"FnOnce::call_once$", "call")
            if not calls:
                continue
            e = calls[-1]
            resp = e.args[1].a[4] if e.args[1].op == "agg" and len(e.args[1].a) > 4 else None
            sent = resp is not None and re.search(r"RequestBuilder::send$", call_name(resp)) and re.search(r"Client::get$", call_name(resp.a[1][0]))
            if sent:
                g = resp.a[1][0]
                sent = show(unwrap(g.a[1][1])).endswith("url)") or show(g.a[1][1]).rstrip(")").endswith("url")
            n["requests"] += 1
            c.ob("request", "sent once", len(calls) == 1 and bool(sent) and p.end == "return" and p.ret is e.res, f"{src(p)}", "request|send", p.span)


@check("P03")
def p03(c):
    c.which = 2
    c.rule("contained", "copying a pack into a directory creates files only at names without parent, root or prefix parts, joined to that directory")
    c.rule("copied", "a file is copied under its own name with all of its content; a pack is copied only if every file was, and the first failure is reported")
    c.rule("listed", "a pack gives every file it has, once, under its own name with its own content, except those its filter refuses; a directory leaves out hidden entries below it")
    n = defaultdict(int)
    path, file = mk("arg", "path"), mk("arg", "file")
    for b in anchored(c, r"(DirPack|MapPack) as .*CloneIntoPack>::clone_into_pack$"):
        kind = "Dir" if "DirPack" in b.name else "Map"
        for p in c.paths_of(b, events=r"read_all$", cut=".", hof=False):
            if noise(p):
                continue
            e = evs(p, r"read_all$", "call")
            ok = p.end == "return" and len(e) == 1 and e[0].args[0] is mk("arg", "pack") and p.variant(p.ret) == p.variant(e[0].res) and p.variant(p.ret) in ("Ok", "Err")
            c.ob("copied", f"{kind}: outcome", bool(ok), src(p), f"copied|{kind}|out", p.span)
            n[f"{kind} outcomes"] += 1
            if p.variant(p.ret) == "Ok" and e:
                copies(c, p, e[0].args[1], kind, path, file, n)
    for k in ("Dir outcomes", "Map outcomes"):
        c.floor(k, n[k], 2)
    for k in ("Dir copies", "Map copies", "Dir refused"):
        c.floor(k, n[k], 1)
    lists(c, n)


def copies(c, p, clo, kind, path, file, n):
    qs = closure_runs(c, p, clo, {2: path, 3: file}, events=r"components$|next$|HashMap::insert$|read_to_end$|" + FSW.pattern, cut=".", stores=True) or []
    c.ob("copied", f"{kind}: each file", bool(qs), "not a closure", f"copied|{kind}|clo", p.span)
    for q in qs:
        if noise(q):
            continue
        safe = inner(qs, q, path)
        w = [e for e in q.events if e.kind == "call" and FSW.search(e.name)]
        made = []
        for e in w:
            if re.search(r"fs::create_dir_all$", e.name):
                x = unwrap(e.args[0])
                while x.op == "proj":
                    x = x.a[0]
                if re.search(r"Path::parent$", call_name(x)):
                    x = unwrap(x.a[1][0])
                t = x
            elif re.search(r"File::create$|fs::write$", e.name):
                t = unwrap(e.args[0])
                made.append(e)
            elif re.search(r"copy$|write_all$", e.name):
                continue
            else:
                t = None
            if kind == "Map":
                c.ob("copied", "Map: no files", False, e.name, "copied|Map|fs", e.span)
                continue
            ok = t is not None and re.search(r"Path::join$", call_name(t)) and from_self(p, t.a[1][0]) and unwrap(t.a[1][1]) is path and safe
            c.ob("contained", "effect", bool(ok), f"{e.name}({show(t)[:100] if t is not None else '?'}), names checked: {safe}", "contained|effect", e.span)
        if q.end in ("loop", "diverge"):
            # a panic is no success
            continue
        rv = q.variant(q.ret)
        if rv == "Ok":
            n[f"{kind} copies"] += 1
            c.ob("copied", f"{kind}: whole", q.end == "return" and bool(whole(q, kind, path, file, made)), f"{[e.name for e in w]} for {q.variant(file)}", f"copied|{kind}|whole", q.span)
        else:
            failed = any(f == ("eq", "Err") and re.search(r"copy$|write_all$|File::create$|create_dir_all$|read_to_end$|fs::write$", call_name(v)) for v, f in q.facts.items())
            refused = kind == "Dir" and not safe
            if refused:
                n["Dir refused"] += 1
            c.ob("copied", f"{kind}: failure", rv == "Err" and q.end == "return" and bool(failed or refused), src(q), f"copied|{kind}|err", q.span)


def from_self(p, v):
    v = unwrap(v)
    r, fs = fpath(v)
    return r is SELF and fs[:1] == ("path",) or show(v) == "($self).path"


def inner(qs, q, path):
    """every part of the path was found to be a plain name or `.`"""
    def of_path(s):
        s = unwrap(s)
        if not re.search(r"Path::components$", call_name(s)):
            return False
        s = unwrap(s.a[1][0])
        if re.search(r"Path::new$", call_name(s)):
            s = unwrap(s.a[1][0])
        return s is path

    for item, lv, s in nexts(q):
        if item is None and of_path(s) and lv.op == "loop":
            its = [(r, i) for r in qs for i, l2, _ in nexts(r) if i is not None and l2.op == "loop" and r.ends_loop(l2) and (l2.a[0], l2.a[1]) == (lv.a[0], lv.a[1])]
            if its and all(r.variant(i) in ("Normal", "CurDir") for r, i in its):
                return True
    return False


def whole(q, kind, path, file, made):
    """all content of the file went to its place"""
    var = q.variant(file)
    data = F(file, f"+{var}", "0") if var in ("Read", "Data") else file
    cp = [e for e in q.events if e.kind == "call" and re.search(r"io::copy$|::write_all$|::read_to_end$|fs::write$", e.name)]
    if any(q.variant(e.res) != "Ok" for e in cp):
        return False
    if kind == "Dir":
        if len(made) != 1 or q.variant(made[0].res) != "Ok" or len(cp) != 1:
            return False
        e = cp[0]
        dst = F(made[0].res, "+Ok", "0")
        if e.name.endswith("io::copy"):
            return unwrap(e.args[0]) in (data, file) and is_dst(e.args[1], dst)
        if e.name.endswith("write_all"):
            return is_dst(e.args[0], dst) and bytes_of(q, e.args[1], data, cp)
        return e.name.endswith("fs::write") and bytes_of(q, e.args[1], data, cp)
    ins = evs(q, r"HashMap::insert$", "call")
    if len(ins) != 1 or not at(ins[0].args[0], "files") and "files" not in show(ins[0].args[0]):
        return False
    if unwrap(ins[0].args[1]) is not path:
        return False
    v = unwrap(ins[0].args[2])
    if len(cp) == 1:
        e = cp[0]
        i, o = (e.args[0], 1) if e.name.endswith("copy") else (e.args[0], 1)
        return unwrap(i) in (data, file) and v.op == "mut" and v.a[0] is e.res and v.a[1] == o and re.search(r"Vec(<.*>)?::(new|with_capacity)$|default$", call_name(v.a[2])) is not None
    return not cp and bytes_of(q, v, data, cp)


def is_dst(v, dst):
    while v.op == "mut":
        v = v.a[2]
    return v is dst


def bytes_of(q, v, data, cp):
    v = unwrap(v)
    while re.search(r"(Cursor(<.*>)?::(into_inner|get_ref)|as_slice|as_ref|deref)$", call_name(v)):
        v = unwrap(v.a[1][0])
    return v is data


def lists(c, n):
    f = mk("arg", "f")
    EV = r"FnMut::call_mut$|Fn::call$|FnOnce::call_once$|next$|File::open$|strip_prefix$|read_all$|entries$|is_file$|Entry::path$|Header::path$"
    # the filter of any pack
    for b in anchored(c, r"^<pack::ops::FilterPack as pack::PackFs>::read_all$"):
        for p in c.paths_of(b, events=EV, cut=".", hof=False):
            e = evs(p, r"read_all$", "call")
            ok = p.end == "return" and len(e) == 1 and at(e[0].args[0], "src") and p.ret is e[0].res
            c.ob("listed", "filter: all of the source", bool(ok), src(p), "listed|filter|src", p.span)
            a, d = mk("arg", "a"), mk("arg", "d")
            for q in closure_runs(c, p, e[0].args[1], {2: a, 3: d}, events=EV, cut=".") or [] if e else []:
                t = [v for v in q.facts if re.search(r"Fn::call$", call_name(v)) and at(v.a[1][0], "f") and args_of(v) == [a]]
                g = evs(q, r"FnMut::call_mut$", "call")
                yes = bool(t) and q.truth(t[0])
                n["filtered" if yes else "refused"] += 1
                if yes:
                    ok = q.end == "return" and len(g) == 1 and args_of(g[0].res) == [a, d] and q.ret is g[0].res
                else:
                    ok = q.end == "return" and bool(t) and not g and q.variant(q.ret) == "Ok"
                c.ob("listed", f"filter: {yes}", bool(ok), src(q), f"listed|filter|{yes}", q.span)
    c.floor("filtered", n["filtered"], 1)
    c.floor("refused", n["refused"], 1)
    # a map
    for b in anchored(c, r"MapPack as pack::PackFs>::read_all$"):
        each(c, b, "map", n, EV, f, lambda s: at(s, "files") or re.search(r"HashMap::iter$", call_name(s)) and at(s.a[1][0], "files"),
             lambda p, item, g: ismap(g, item), lambda p, item: None)
    # a directory
    for b in anchored(c, r"FilterDirPack as pack::PackFs>::read_all$"):
        got = {}

        def listing(s):
            k = walked(c, s)
            got["known"] = k
            return k is not None

        isf = lambda p, item: [p.truth(v) for v in p.facts if re.search(r"FileType::is_file$", call_name(v)) and mentions(v, lambda x: x in (item, F(item, "+Ok", "0")))]
        each(c, b, "directory", n, EV, f, listing,
             lambda p, item, g: isfile(p, item, g) and "shown" in got["known"] and ("files" in got["known"] or isf(p, item) == [True]),
             lambda p, item: "other" not in got["known"] and (any(re.search(r"Fn::call$", call_name(v)) and at(v.a[1][0], "f") and p.truth(v) is False for v in p.facts) or isf(p, item) == [False] or p.variant(item) == "Err"))
    # an archive
    for b in anchored(c, r"TarballPack as pack::PackFs>::read_all$"):
        each(c, b, "archive", n, EV, f, lambda s: mentions(s, lambda x: re.search(r"Archive::entries$", call_name(x)) and at(x.a[1][0], "reader")),
             lambda p, item, g: istar(p, item, g),
             lambda p, item: any(re.search(r"is_file$", call_name(v)) and p.truth(v) is False and mentions(v, lambda x: x is F(item, "+Ok", "0")) for v in p.facts))
    for k in ("map", "directory", "archive"):
        c.floor(f"{k} files", n[f"{k} files"], 1)
        c.floor(f"{k} ends", n[f"{k} ends"], 1)


def args_of(v):
    t = v.a[1][1] if len(v.a[1]) > 1 else None
    return [unwrap(x) for x in t.a[4:]] if t is not None and t.op == "agg" else []


def each(c, b, what, n, EV, f, is_src, given, skip):
    ps = c.paths_of(b, events=EV, cut=".", hof=False)
    for p in ps:
        if noise(p):
            continue
        g = [e for e in evs(p, r"FnMut::call_mut$", "call") if fpath(e.args[0])[0] is f]
        nx = nexts(p)
        item = next((i for i, lv, s in nx if i is not None and is_src(s)), None)
        if p.end == "loop" and item is not None:
            if g:
                n[f"{what} files"] += 1
                ok = len(g) == 1 and given(p, item, args_of(g[0].res)) and p.variant(g[0].res) == "Ok"
            else:
                n[f"{what} left out"] += 1
                ok = bool(skip(p, item))
            c.ob("listed", f"{what}: entry", bool(ok), f"gives {[show(x)[:80] for e in g for x in args_of(e.res)]}", f"listed|{what}|entry", p.span)
        elif p.end == "return" and p.variant(p.ret) == "Ok":
            n[f"{what} ends"] += 1
            c.ob("listed", f"{what}: end", any(i is None and is_src(s) for i, lv, s in nx) and not g, src(p), f"listed|{what}|end", p.span)
        else:
            # a failure ends the listing as a failure
            bad = p.end == "return" and p.variant(p.ret) == "Err" and any(fv == ("eq", "Err") for fv in p.facts.values())
            c.ob("listed", f"{what}: failure", bool(bad), src(p), f"listed|{what}|err", p.span)


def ismap(g, item):
    k, d = F(item, "0"), F(item, "1")
    return len(g) == 2 and g[0] is k and g[1].op == "agg" and g[1].a[2] == "Data" and mentions(g[1], lambda x: x is d)


def isfile(p, item, g):
    of = lambda v: re.search(r"DirEntry::(path|into_path)$", call_name(v)) and v.a[1][0] in (item, F(item, "+Ok", "0"))
    path = next((v for v in walk(g[1]) if of(v)), None) if len(g) == 2 else None
    if path is None or not (g[1].op == "agg" and g[1].a[2] == "Read"):
        return False
    rel = [v for v in walk(g[0]) if re.search(r"Path::strip_prefix$", call_name(v)) and v.a[1][0] is path and at(v.a[1][1], "path")]
    op = [v for v in walk(g[1]) if re.search(r"File::open$", call_name(v)) and v.a[1][0] is path]
    yes = [v for v in p.facts if re.search(r"Fn::call$", call_name(v)) and at(v.a[1][0], "f") and p.truth(v) is True and args_of(v) == [g[0]]]
    return bool(rel and op and yes) and p.variant(op[0]) == "Ok"


def istar(p, item, g):
    e = F(item, "+Ok", "0")
    if len(g) != 2 or not (g[1].op == "agg" and g[1].a[2] == "Read" and mentions(g[1], lambda x: x is e)):
        return False
    # the header alone has only the start of a long name
    return any(re.search(r"Entry::path$", call_name(v)) and v.a[1][0] is e for v in walk(g[0])) and any(re.search(r"is_file$", call_name(v)) and p.truth(v) is True for v in p.facts)


def walked(c, s):
    """what the entries of a directory listing are known to be ("files": no directories, "shown": not below hidden ones, "read": no errors); None if it is not the listing of the directory"""
    known = set()
    v = s
    while call_name(v):
        nm = call_name(v)
        if re.search(r"WalkDir::new$", nm):
            return known if at(unwrap(v.a[1][0]), "path") else None
        if re.search(r"WalkDir::follow_links$|into_iter$|by_ref$|::flatten$", nm):
            if nm.endswith("flatten"):
                known.add("read")
        elif re.search(r"(filter_entry|filter|filter_map)$", nm):
            known |= stage(c, v.a[1][1], nm.rsplit("::", 1)[1]) or {"other"}
        else:
            return None
        v = v.a[1][0]
    return None


def stage(c, clo, how):
    """what the entries that pass are known to be, if no other entry is left out; else nothing"""
    if how == "filter_map" and re.search(r"Result(<.*>)?::ok\b", show(clo)):
        return {"read"}
    b = program(c.which).bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
    e = mk("arg", "entry")
    if b is None:
        return set()
    every = []
    for q in c.paths_of(b, args={1: clo, 2: e}, events=".", hof=False):
        if q.end != "return":
            return set()
        r = q.ret
        have = set()
        if how == "filter_map":
            if q.variant(e) == "Ok" and q.variant(r) == "Some" and unwrap(payload(r, "Some")) is F(e, "+Ok", "0") or q.variant(e) == "Err" and q.variant(r) == "None":
                have.add("read")
        elif how == "filter":
            isf = [v for v in [r, *q.facts] if re.search(r"FileType::is_file$", call_name(v)) and mentions(v, lambda x: x is e)]
            if isf and (r is isf[0] or const_of(r) in (0, 1) and q.truth(isf[0]) == bool(const_of(r))):
                have.add("files")
        else:
            depth = lambda x: re.search(r"DirEntry::depth$", call_name(x)) and x.a[1][0] is e
            top = {f == ("eq", "1") for v, f in q.facts.items() if v.op == "bin" and v.a[0] == "Eq" and any(depth(x) for x in v.a[1:]) and any(const_of(x) == 0 for x in v.a[1:])}
            top |= {f == ("eq", "0") for v, f in q.facts.items() if depth(v)}
            hid = lambda v: re.search(r"starts_with$", call_name(v)) and text_is(v.a[1][1], ".") and mentions(v.a[1][0], lambda x: re.search(r"DirEntry::file_name$", call_name(x)) and x.a[1][0] is e)
            if const_of(r) in (0, 1):
                hidden = {q.truth(v) for v in q.facts if hid(v)}
                keep = top == {True} or hidden == {False}
                good = bool(const_of(r)) == keep and (top == {True} or top == {False} and len(hidden) == 1)
                # a plain name is kept whether it is at the top or not
                good = good or not top and hidden == {False} and const_of(r) == 1
            elif r.op == "not":
                good = hid(r.a[0]) and top == {False}
            elif r.op == "bin" and r.a[0] == "Eq":
                good = depth(r.a[1]) and const_of(r.a[2]) == 0 and {q.truth(v) for v in q.facts if hid(v)} == {True}
            else:
                good = False
            if good:
                have.add("shown")
        every.append(have)
    return set.intersection(*every) if every else set()
