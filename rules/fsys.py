"""tinymist-std: file-system helpers and file locks."""
from collections import defaultdict
from core import check, program
from q import *

STD = "tinymist_std"
MUT = (r"^std::fs::(write|rename|remove_file|remove_dir|remove_dir_all|copy|hard_link|soft_link|create_dir|create_dir_all|set_permissions)$"
       r"|^std::fs::File::(create|create_new|set_len|set_permissions|set_times|set_modified)$|OpenOptions::open$|std::os::\w+::fs::\w+$|DirBuilder::create$"
       r"|^tempfile::(?!NamedTempFile::(path|as_file|as_file_mut|reopen)$|TempDir::path$|Builder::(new|prefix|suffix|rand_bytes)$)"
       r"|(File|NamedTempFile|BufWriter) as std::io::(Write|Seek)>::|^std::io::Write::|^std::io::copy$|^libc::(?!flock$|statfs$)")
SYNC = r"File::sync_(all|data)$|Write>?::flush$"
QUERY = r"std::path::Path::(metadata|symlink_metadata|exists|is_dir|is_file|read_dir|is_symlink)$|std::fs::(metadata|symlink_metadata|read_dir|exists|read|read_to_string|canonicalize)$|is_same_file$|canonicalize$"


def some(v):
    return F(v, "+Some", "0")


def payload(v):
    """what an Ok carries"""
    return v.a[4] if v.op == "agg" and v.a[2] == "Ok" else F(v, "+Ok", "0")


def under_mut(v):
    while v.op == "mut":
        v = v.a[2]
    return v


def call_name(v):
    return v.a[0] if v.op in ("call", "pure") else ""


def is_path_fn(v, fn, of):
    """v is (Some of) Path::fn(of)"""
    if v.op == "proj":
        v = base(v)
    return bool(re.search(r"std::path::Path::%s$" % fn, call_name(v))) and v.a[1][0] is of


def opts(v):
    """{flag: bool} of an OpenOptions value, or None"""
    out = {}
    while True:
        if v.op == "mut" and isinstance(v.a[0], V):
            call, nxt = v.a[0], v.a[2]
        elif v.op in ("call", "pure"):
            call, nxt = v, None
        else:
            return None
        n = call_name(call)
        if re.search(r"OpenOptions::new$|File::options$", n):
            return out
        m = re.search(r"OpenOptions(?:Ext>?)?::(\w+)$", n)
        if not m:
            return None
        k = const_of(call.a[1][1])
        if str(k) not in ("0", "1", "True", "False"):
            return None
        out.setdefault(m.group(1), str(k) in ("1", "True"))
        v = nxt if nxt is not None else call.a[1][0]
        if nxt is not None and v.op == "call" and v.a[0].endswith("OpenOptions::new"):
            return out


def unresolved(p, es):
    """fallible events whose failure is neither known not to have happened nor what the function returns"""
    return [e for e in es if p.variant(e.res) not in ("Ok", "Err") and not mentions(p.ret, lambda x, e=e: x is e.res)]


def failed(p, es):
    return [e for e in es if p.variant(e.res) == "Err"]


def same(a, b):
    return a is b or under_mut(a) is under_mut(b)


def src(p):
    """where a path returns/panics, for messages"""
    return f"{p.end} {show(p.ret)[:90]}"


@check("S01")
def s01(c):
    P = program()
    c.rule("new", "the new text goes to a fresh temporary file in the target's own directory, whole and once; the target itself is touched only by the final rename")
    c.rule("order", "the temporary file replaces the target only after every earlier step succeeded, and it is the last step")
    c.rule("mode", "if the target exists, its permission bits (and no other mode bits) are set on the temporary file before the rename")
    c.rule("outcome", "success is reported exactly when the rename succeeded; a failed step is reported as the failure")
    n = 0
    for b in fn_by(P, r"paths::write_atomic$", STD):
        path, cont = mk("arg", "path"), mk("arg", "contents")
        for p in c.paths_of(b, events=MUT + "|" + QUERY + "|mode$|permissions$|" + SYNC):
            M = evs(p, MUT + "|" + SYNC)
            if p.end in ("panic", "diverge"):
                bad = not any(p.variant(v) == "None" and re.search(r"std::path::Path::(file_name|parent)$", call_name(v)) and v.a[1][0] is path for v in p.facts)
                c.ob("new", "panic only for a path without directory and file name", not bad and not M, src(p), "new|panic", p.span)
                continue
            tmp = [e for e in M if e.name.endswith("tempfile_in") or re.search(r"NamedTempFile::\w*new_in$", e.name)]
            fin = [e for e in M if re.search(r"NamedTempFile::persist(_noclobber)?$|^std::fs::rename$", e.name)]
            wr = [e for e in M if re.search(r"Write>?::write_all$", e.name)]
            pm = [e for e in M if re.search(r"set_permissions$", e.name)]
            rest = [e for e in M if e not in tmp + fin + wr + pm and not re.search(r"::(flush|sync_all|sync_data)$", e.name)]
            c.ob("new", "no other file-system effect", not rest, f"also {[e.name + '(' + show(e.args[0])[:50] for e in rest]}", "new|other", p.span)
            fl = failed(p, M)
            for e in tmp:
                d = e.args[-1]
                c.ob("new", "temporary file's directory", is_path_fn(d, "parent", path), f"the temporary file is created in {show(d)[:100]}", "new|dir", e.span)
            tv = [F(e.res, "+Ok", "0") for e in tmp]
            onto = lambda v: any(mentions(v, lambda x, t=t: x is t) for t in tv) and not re.search(r"^\$", show(v))
            for e in wr:
                c.ob("new", "text", onto(e.args[0]) and e.args[1] is cont, f"writes {show(e.args[1])[:80]} to {show(e.args[0])[:80]}", "new|text", e.span)
            for e in pm:
                c.ob("mode", "set on the temporary file", onto(e.args[0]), f"permissions of {show(e.args[0])[:90]} are changed", "mode|target", e.span)
                v = e.args[1]
                cs = [x for x in walk(v) if x.op == "bin" and x.a[0] == "BitAnd"]
                ok = len(cs) == 1 and any(str(const_of(x)) == "511" for x in cs[0].a[1:]) and any(calls_in(x, r"mode$") and any(y.a[1][0] is path for y in calls_in(x, r"metadata$")) for x in cs[0].a[1:])
                other = [x for x in walk(v) if x.op == "bin" and x.a[0] != "BitAnd"]
                c.ob("mode", "value", ok and not other, f"the mode set is {show(v)[:160]}", "mode|value", e.span)
            for e in fin:
                n += 1
                before = M[: M.index(e)]
                ok = onto(e.args[0]) and e.args[1] is path and e.name.endswith(("persist", "rename"))
                c.ob("order", "what replaces what", ok, f"{e.name}({show(e.args[0])[:60]}, {show(e.args[1])[:60]})", "order|args", e.span)
                ok = len(wr) == 1 and wr[0] in before and all(p.variant(x.res) == "Ok" for x in before)
                c.ob("order", "after every step succeeded", ok, f"replaced after {[(x.name.rsplit('::', 1)[1], p.variant(x.res)) for x in before]}", "order|before", e.span)
                c.ob("order", "last step", e is M[-1], f"followed by {[x.name for x in M[M.index(e) + 1:]]}", "order|last", e.span)
                md = [x for x in evs(p, r"metadata$") if x.args[0] is path]
                ex = [x for x in md if p.variant(x.res) == "Ok"]
                c.ob("mode", "kept for an existing target", bool(md) and (not ex or len(pm) == 1), f"metadata of the target: {[(x.name, p.variant(x.res)) for x in md]}; {len(pm)} permission changes", "mode|kept", e.span)
            rv = p.variant(p.ret)
            if rv == "Ok":
                ok = len(fin) == 1 and p.variant(fin[0].res) == "Ok" and not fl
            else:
                ok = rv == "Err" and len(fl) == 1 and fl[0] is M[-1]
            c.ob("outcome", f"{rv}", ok, f"{src(p)} after {[(x.name.rsplit('::', 1)[1], p.variant(x.res)) for x in M]}", f"outcome|{rv}", p.span)
    c.floor("replacing paths", n, 3)


def one_op(c, name, op, args, key, rule="wrap"):
    """the wrapper performs exactly that operation, once, and reports its outcome"""
    P = program()
    bs = fn_by(P, r"paths::%s$" % name, STD)
    c.anchor(f"paths::{name}", bs)
    for b in bs:
        for p in c.paths_of(b, events=MUT + "|" + QUERY + "|" + op):
            E = evs(p, MUT + "|" + QUERY + "|" + op)
            ok = p.end == "return" and len(E) == 1 and re.search(op, E[0].name) and len(E[0].args) >= len(args) and all(a(x) if callable(a) else x is a for a, x in zip(args, E[0].args))
            c.ob(rule, name, bool(ok), f"{src(p)}; {[e.name + '(' + ', '.join(show(a)[:40] for a in e.args) + ')' for e in E]}", f"{rule}|{key or name}|op", p.span)
            if ok:
                r, o = p.ret, E[0].res
                rv = p.variant(r)
                ok = r is o or rv == "Err" and p.variant(o) == "Err" or rv == "Ok" and p.variant(o) == "Ok" and (F(r, "+Ok", "0") is F(o, "+Ok", "0") or p.interp is not None and mentions(r, lambda x: x is F(o, "+Ok", "0")) or show(r) == "Result::Ok(tuple())")
                c.ob(rule, name + " outcome", ok, f"returns {show(r)[:80]} when the operation {p.variant(o)}", f"{rule}|{key or name}|outcome", p.span)


def has_opts(**want):
    def f(v):
        o = opts(v)
        return o is not None and {k: x for k, x in o.items() if x} == {k: True for k in want}
    return f


@check("S02")
def s02(c):
    P = program()
    c.rule("wrap", "reading, writing, creating, opening, copying and removing act on exactly the path given, once, and report the system's outcome")
    c.rule("changed", "write-if-changed leaves the file alone when it already holds the text, otherwise leaves exactly the new text; a failed step is reported")
    c.rule("append", "append opens the path in append mode (creating it if needed) and writes the given bytes once")
    c.rule("utf8", "reading text returns the file's bytes as text only if they are valid UTF-8, otherwise an error")
    a = lambda n: mk("arg", n)
    one_op(c, "metadata", r"(fs|Path)::metadata$", [a("path")], "")
    one_op(c, "symlink_metadata", r"(fs|Path)::symlink_metadata$", [a("path")], "")
    one_op(c, "read_bytes", r"std::fs::read$", [a("path")], "")
    one_op(c, "write", r"std::fs::write$", [a("path"), a("contents")], "")
    one_op(c, "create", r"File::create$", [a("path")], "")
    one_op(c, "open", r"File::open$", [a("path")], "")
    one_op(c, "create_dir_all", r"fs::create_dir_all$", [a("p")], "")
    one_op(c, "remove_dir", r"fs::remove_dir$", [a("p")], "")
    one_op(c, "copy", r"fs::copy$", [a("from"), a("to")], "")
    for b in fn_by(P, r"paths::read$", STD):
        n = 0
        for p in c.paths_of(b, events=MUT + "|" + QUERY + "|from_utf8"):
            E = evs(p, MUT + "|" + QUERY)
            U = evs(p, r"from_utf8")
            if p.end != "return":
                c.ob("utf8", "no panic", False, src(p), "utf8|panic", p.span)
                continue
            ok = len(E) == 1 and E[0].name in ("std::fs::read", "std::fs::read_to_string") and E[0].args[0] is a("path")
            if ok and E[0].name.endswith("to_string"):
                n += 1
                ok = p.ret is E[0].res or p.variant(p.ret) == p.variant(E[0].res) and (p.variant(p.ret) == "Err" or payload(p.ret) is payload(E[0].res))
            elif p.variant(p.ret) == "Ok":
                n += 1
                ok = ok and len(U) == 1 and not re.search("lossy|unchecked", U[0].name) and p.variant(U[0].res) == "Ok" and U[0].args[0] is F(E[0].res, "+Ok", "0") and payload(p.ret) is payload(U[0].res)
            else:
                ok = ok and (p.variant(E[0].res) == "Err" or U and p.variant(U[0].res) == "Err")
            c.ob("utf8", f"read {p.variant(p.ret)}", bool(ok), f"{src(p)}; reads {[show(e.args[0]) for e in E]}", "utf8", p.span)
        c.floor("successful text reads", n, 1)
    path, cont = a("path"), a("contents")
    n = defaultdict(int)
    for b in fn_by(P, r"paths::write_if_changed$", STD):
        for p in c.paths_of(b, events=MUT + "|" + QUERY + r"|read_to_end$|read_to_string$|PartialEq>?::(eq|ne)$"):
            if p.end != "return":
                c.ob("changed", "no panic", False, src(p), "changed|panic", p.span)
                continue
            M = evs(p, MUT)
            op = [e for e in M if e.name.endswith("OpenOptions::open")]
            rd = evs(p, r"read_to_end$")
            rest = [e for e in M if e not in op]
            ok = len(op) == 1 and M[0] is op[0] and op[0].args[1] is path and (opts(op[0].args[0]) or {}) and {k for k, v in opts(op[0].args[0]).items() if v} == {"read", "write", "create"}
            c.ob("changed", "opened without truncating", bool(ok), f"opens {[show(e.args[1]) for e in op]} with {[opts(e.args[0]) for e in op]}", "changed|open", p.span)
            if not ok:
                continue
            f = F(op[0].res, "+Ok", "0")
            ok = all(any(x is f for x in walk(e.args[0])) for e in rest + rd)
            c.ob("changed", "acts on that file", ok, f"{[(e.name, show(e.args[0])[:50]) for e in rest + rd]}", "changed|file", p.span)
            fl = failed(p, M + rd)
            if fl:
                ok = p.variant(p.ret) == "Err" and len(fl) == 1 and (M + rd)[-1:] and (fl[0] is M[-1] or fl[0] in rd and not rest)
                c.ob("changed", f"failing {fl[0].name.rsplit('::', 1)[1]}", ok, f"{src(p)}", "changed|err", p.span)
                continue
            ok = p.variant(p.ret) == "Ok" and not unresolved(p, M + rd)
            c.ob("changed", "every outcome is known", ok, f"{src(p)}; unresolved {[e.name for e in unresolved(p, M + rd)]}", "changed|unresolved", p.span)
            differs = None
            for v, fa in p.facts.items():
                if v.op in ("call", "pure") and re.search(r"PartialEq.*::(eq|ne)$|\b(eq|ne)$", v.a[0]) and any(cont is x or content(x) == content(cont) for x in v.a[1]) and any(rd and mentions(x, lambda y: y is rd[0].res or y.op == "mut" and y.a[0] is rd[0].res) for x in v.a[1]) and fa[0] == "eq":
                    differs = (fa[1] == "1") == v.a[0].endswith("ne")
                if v.op == "bin" and v.a[0] == "Eq" and any(x is cont for x in v.a[1:]) and fa[0] == "eq":
                    differs = fa[1] == "0"
            n[differs] += 1
            names = [e.name.rsplit("::", 1)[1] for e in rest]
            if differs is False:
                c.ob("changed", "unchanged text", not rest, f"the file is modified ({names}) though it holds the text", "changed|same", p.span)
            else:
                want = names == ["set_len", "seek", "write_all"] and str(const_of(rest[0].args[1])) == "0" and re.search(r"SeekFrom::Start\(0\)", show(rest[1].args[1])) and rest[2].args[1] is cont
                alt = names == ["seek", "set_len", "write_all"] and str(const_of(rest[1].args[1])) == "0" and re.search(r"SeekFrom::Start\(0\)", show(rest[0].args[1])) and rest[2].args[1] is cont
                alt2 = names == ["set_len", "rewind", "write_all"] and str(const_of(rest[0].args[1])) == "0" and rest[2].args[1] is cont
                c.ob("changed", "different text", bool(want or alt or alt2) and bool(rd), f"{names} {[show(e.args[1])[:40] for e in rest if len(e.args) > 1]}", "changed|diff", p.span)
    c.floor("unchanged cases", n[False], 1)
    c.floor("changed cases", n[True], 1)
    k = 0
    for b in fn_by(P, r"paths::append$", STD):
        for p in c.paths_of(b, events=MUT + "|" + QUERY):
            M = evs(p, MUT)
            op = [e for e in M if e.name.endswith("OpenOptions::open")]
            o = opts(op[0].args[0]) if len(op) == 1 else None
            ok = p.end == "return" and o is not None and {x for x, v in o.items() if v} - {"write", "read"} == {"append", "create"} and op[0].args[1] is path and M[0] is op[0]
            c.ob("append", "opened in append mode", bool(ok), f"{src(p)}; {[(show(e.args[1]), opts(e.args[0])) for e in op]}", "append|open", p.span)
            if not ok:
                continue
            rest = M[1:]
            fl = failed(p, M)
            if fl:
                ok = p.variant(p.ret) == "Err" and fl[0] is M[-1]
            else:
                k += 1
                ok = p.variant(p.ret) == "Ok" or rest and p.ret is rest[-1].res
                ok = ok and len(rest) == 1 and rest[0].name.endswith("write_all") and rest[0].args[1] is cont and mentions(rest[0].args[0], lambda x: x is F(op[0].res, "+Ok", "0"))
            c.ob("append", "written", ok, f"{src(p)}; {[(e.name, p.variant(e.res)) for e in M]}", "append|write", p.span)
    c.floor("successful appends", k, 1)


def readonly_retry(c, p, seq, target, rule, key):
    """seq: events of removing target: op [set_permissions op]; returns True if the removal protocol is right"""
    ops = [e for e in seq if not e.name.endswith("set_permissions")]
    sp = [e for e in seq if e.name.endswith("set_permissions")]
    ok = all(e.args[0] is target for e in seq) and 1 <= len(ops) <= 2 and len(sp) <= 1
    if sp:
        o1 = ops[0]
        kind = [v for v, f in p.facts.items() if call_name(v).endswith("io::Error::kind") and mentions(v, lambda x: x is o1.res) and p.variant(v) == "PermissionDenied"]
        ro = [v for v, f in p.facts.items() if call_name(v).endswith("Permissions::readonly") and f == ("eq", "1")]
        md = [calls_in(v, r"metadata$") for v in ro]
        mode = [x for x in walk(sp[0].args[1]) if x.op == "mut" and re.search(r"set_mode$", call_name(x.a[0]))]
        bits = str(const_of(mode[0].a[0].a[1][1])) if len(mode) == 1 else ""
        okm = bits.isdigit() and int(bits) & 0o200 and not int(bits) & ~0o777 and not int(bits) & 0o007
        ok = ok and p.variant(o1.res) == "Err" and bool(kind) and bool(ro) and any(m and m[0].a[1][0] is target for m in md) and okm
    if sp and p.variant(sp[0].res) == "Ok":
        ok = ok and len(ops) == 2  # made writable for nothing otherwise
    if len(ops) == 2:
        ok = ok and sp and p.variant(sp[0].res) == "Ok" and ops[0].name == ops[1].name
    return bool(ok)


@check("S03")
def s03(c):
    P = program()
    c.rule("link", "a symbolic link is removed itself; what it points to is never entered")
    c.rule("entries", "a directory's entries are removed first, each once: directories recursively, everything else as a file; then the directory itself")
    c.rule("within", "only the path given and entries read from it are touched; permissions are changed only to retry a removal refused for a read-only file")
    c.rule("outcome", "success is reported only if the path is gone: the last removal succeeded and no earlier failure was ignored")
    c.rule("siblings", "removing a lock file's siblings removes every other entry of its directory and never the lock file")
    p_ = mk("arg", "p")
    RM = r"paths::(remove_dir_all|_remove_dir_all|remove_file|_remove_file|remove_dir|_remove_dir)$"
    EV = MUT + "|" + QUERY + r"|DirEntry::|FileType::|is_symlink$|" + RM
    n = defaultdict(int)
    walker = fn_by(P, r"paths::_remove_dir_all$", STD) or fn_by(P, r"paths::remove_dir_all$", STD)
    c.anchor("recursive removal", walker)

    def is_entry(v):
        """v is the path of an entry read from some directory; that directory's path"""
        pc = calls_in(v, r"DirEntry::path$")
        if not pc or not (v.op in ("call", "pure") and v is pc[0]):
            return None
        for x in walk(v):
            if x.op in ("call", "pure") and re.search(r"read_dir$", x.a[0]):
                return x.a[1][0], base(pc[0].a[1][0])
        return None

    for b in walker:
        for p in c.paths_of(b, events=EV, cut=r".", opaque=r"paths::(remove_dir_all|remove_file|remove_dir|_remove_file|_remove_dir)$"):
            if p.end in ("panic", "diverge"):
                c.ob("within", "no panic", False, src(p), "within|panic", p.span)
                continue
            R = [e for e in p.events if e.kind == "call" and re.search(RM + "|" + MUT, e.name)]
            lnk = [x for x in p.facts if re.search(r"is_symlink$", call_name(x))]
            isl = None
            for x in lnk:
                q = [m for m in calls_in(x, r"symlink_metadata$") if m.a[1][0] is p_]
                if q or (x.a[0].endswith("Path::is_symlink") and x.a[1][0] is p_):
                    isl = p.facts[x] == ("eq", "1")
            for e in R:
                t = e.args[0]
                ent = is_entry(t)
                short_ = e.name.rsplit("::", 1)[1].lstrip("_")
                if t is p_:
                    n["self"] += 1
                    if short_ == "remove_file":
                        c.ob("link", "file removal of the path itself", isl is True, f"{e.name} on the path when it is {'not ' if isl is False else 'not known to be '}a link", "link|file", e.span)
                    elif short_ == "remove_dir":
                        c.ob("link", "directory removal", isl is False, "the path is removed as a directory without knowing that it is not a link", "link|dir", e.span)
                        done = any(call_name(v) and re.search(r"ReadDir as std::iter::Iterator>::next$", v.a[0]) and p.variant(v) == "None" for v in p.facts)
                        c.ob("entries", "directory removed after its entries", done and e is R[-1], "the directory is removed before its entries were all handled", "entries|last", e.span)
                    else:
                        c.ob("within", "operation", False, f"{e.name} on the path itself", f"within|{short_}", e.span)
                elif ent is not None and ent[0] is p_:
                    n["entry"] += 1
                    ft = [x for x in p.facts if re.search(r"FileType::is_(dir|symlink|file)$|Path::is_dir$|Metadata::is_dir$", call_name(x))]
                    isd = None
                    for x in ft:
                        own = calls_in(x, r"DirEntry::(file_type|metadata)$|symlink_metadata$")
                        if own and (base(own[0].a[1][0]) is ent[1] or own[0].a[1][0] is t):
                            if x.a[0].endswith("is_dir"):
                                isd = p.facts[x] == ("eq", "1")
                            elif p.facts[x] == ("eq", "1"):
                                isd = False
                        elif mentions(x, lambda y: y is t) and x.a[0].endswith("is_dir") and isd is None:
                            # the link is followed; a link to a directory is then taken out by the recursion, see "link"
                            isd = p.facts[x] == ("eq", "1")
                    want = {"remove_dir_all": True, "remove_file": False}.get(short_)
                    c.ob("entries", f"{short_} of an entry", want is not None and isd is want, f"{short_} of an entry which is a directory: {isd}", f"entries|{short_}", e.span)
                else:
                    c.ob("within", "target", False, f"{e.name}({show(t)[:100]})", "within|target", e.span)
            fl = failed(p, R)
            if p.end == "loop":
                mine = [e for e in R if is_entry(e.args[0])]
                c.ob("entries", "each entry handled", len(mine) == 1 and p.variant(mine[0].res) == "Ok", f"an iteration goes on after {[(e.name, p.variant(e.res)) for e in mine]}", "entries|each", p.span)
                continue
            rv = p.variant(p.ret)
            if rv == "Ok" or rv is None and R:
                last = R[-1] if R else None
                ok = last is not None and last.args[0] is p_ and (p.ret is last.res or p.variant(last.res) == "Ok") and not fl
                c.ob("outcome", "success", ok, f"{src(p)} after {[(e.name, p.variant(e.res)) for e in R]}", "outcome|ok", p.span)
    c.floor("removals of the path", n["self"], 2)
    c.floor("removals of entries", n["entry"], 2)

    # the entry points
    k = 0
    for b in fn_by(P, r"paths::remove_dir_all$", STD):
        if b in walker:
            continue
        for p in c.paths_of(b, events=EV, opaque=r"paths::_remove_dir_all$"):
            R = [e for e in p.events if e.kind == "call" and re.search(RM + "|" + MUT, e.name)]
            k += 1
            ok = p.end == "return" and R and all(e.args[0] is p_ for e in R) and [e.name.rsplit("::", 1)[1] for e in R] in (["_remove_dir_all"], ["_remove_dir_all", "remove_dir_all"])
            if ok:
                ok = (p.ret is R[-1].res or p.variant(p.ret) == p.variant(R[-1].res)) and (len(R) == 1 or p.variant(R[0].res) == "Err")
            c.ob("outcome", "remove_dir_all", bool(ok), f"{src(p)}; {[(e.name, show(e.args[0]), p.variant(e.res)) for e in R]}", "outcome|entry", p.span)
    m = 0
    for b in fn_by(P, r"paths::remove_file$", STD):
        for p in c.paths_of(b, events=EV + "|kind$|readonly$|set_mode$"):
            S = evs(p, MUT)
            m += 1
            ok = p.end == "return" and readonly_retry(c, p, S, p_, "within", "") and {e.name for e in S} <= {"std::fs::remove_file", "std::fs::set_permissions"} and S[0].name == "std::fs::remove_file"
            c.ob("within", "file removal", ok, f"{src(p)}; {[(e.name, show(e.args[0])[:40], p.variant(e.res)) for e in S]}", "within|file", p.span)
            rm = [e for e in S if e.name.endswith("remove_file")]
            rv = p.variant(p.ret)
            good = rm and (p.ret is rm[-1].res or rv == "Ok" and p.variant(rm[-1].res) == "Ok" or rv == "Err" and p.variant(rm[-1].res) == "Err")
            c.ob("outcome", "file removal", bool(good), f"{src(p)} after {[(e.name, p.variant(e.res)) for e in S]}", "outcome|file", p.span)
    c.floor("file removal paths", m, 3)
    # siblings
    s = defaultdict(int)
    for b in fn_by(P, r"FileLock::remove_siblings$", STD):
        me = F(mk("arg", "self"), "path")
        for p in c.paths_of(b, events=EV + r"|file_name$|PartialEq.*::(eq|ne)$", cut=r".", opaque=r"paths::(remove_dir_all|remove_file)$"):
            if p.end in ("panic", "diverge"):
                ok = any(is_path_fn(v, "parent", me) and p.variant(v) == "None" for v in p.facts)
                c.ob("siblings", "no panic", ok, src(p), "siblings|panic", p.span)
                continue
            R = [e for e in p.events if e.kind == "call" and re.search(RM + "|" + MUT, e.name)]
            own = None
            for v, f in p.facts.items():
                if f[0] == "eq" and (v.op in ("call", "pure") and re.search(r"PartialEq.*::(eq|ne)$", v.a[0]) or v.op == "bin" and v.a[0] == "Eq"):
                    xs = v.a[1] if v.op != "bin" else v.a[1:]
                    if any(calls_in(x, r"DirEntry::file_name$") for x in xs) and any(calls_in(x, r"Path::file_name$") and mentions(x, lambda y: y is me) for x in xs):
                        own = (f[1] == "1") == (v.op == "bin" or not v.a[0].endswith("ne"))
            if R:
                e = R[0]
                d = is_entry(e.args[0])
                ok = len(R) == 1 and d is not None and is_path_fn(d[0], "parent", me)
                c.ob("siblings", "what is removed", ok, f"{[e.name + '(' + show(e.args[0])[:80] for e in R]}", "siblings|target", p.span)
                c.ob("siblings", "not the lock file", own is False, "an entry is removed without comparing its name with the lock file's", "siblings|own", p.span)
                ft = [x for x in p.facts if re.search(r"is_dir$", call_name(x)) and calls_in(x, r"DirEntry::file_type$")]
                isd = p.facts[ft[0]] == ("eq", "1") if ft else None
                short_ = e.name.rsplit("::", 1)[1]
                c.ob("siblings", "kind", isd is not None and short_ == ("remove_dir_all" if isd else "remove_file"), f"{short_} when the entry's own type is a directory: {isd}", "siblings|kind", p.span)
                s["removed"] += 1
            if p.end == "loop":
                ok = own is True and not R or len(R) == 1 and p.variant(R[0].res) == "Ok"
                c.ob("siblings", "each other entry is removed", ok, f"an iteration goes on with {len(R)} removals; own name: {own}", "siblings|each", p.span)
            elif p.variant(p.ret) == "Ok":
                done = any(re.search(r"ReadDir as std::iter::Iterator>::next$", call_name(v)) and p.variant(v) == "None" for v in p.facts)
                c.ob("siblings", "all entries seen", done and not R, src(p), "siblings|all", p.span)
    c.floor("sibling removals", s["removed"], 2)


@check("S04")
def s04(c):
    P = program()
    c.rule("same", "nothing is touched when source and destination are the same file")
    c.rule("clear", "an existing destination (also a dangling link) is removed before linking; the source is never removed or written")
    c.rule("kind", "a directory is linked symbolically, relative to the destination's directory when it lies inside it; a file is linked hard; if linking fails the file is copied from source to destination")
    c.rule("outcome", "success is reported only when the last linking or copying step succeeded, failure otherwise")
    src_, dst = mk("arg", "src"), mk("arg", "dst")
    n = defaultdict(int)
    for b in fn_by(P, r"paths::link_or_copy$", STD):
        for p in c.paths_of(b, events=MUT + "|" + QUERY + "|strip_prefix$|starts_with$"):
            M = evs(p, MUT)
            if p.end in ("panic", "diverge"):
                ok = any(p.variant(v) == "None" and is_path_fn(v, "parent", dst) for v in p.facts) or any(re.search(r"strip_prefix$", call_name(v)) and p.variant(v) == "Err" and v.a[1][0] is src_ and any(re.search(r"starts_with$", call_name(w)) and w.a[1] == v.a[1] and f == ("eq", "1") for w, f in p.facts.items()) for v in p.facts)
                c.ob("kind", "no panic", ok, src(p), "kind|panic", p.span)
                continue
            sm = [v for v in p.facts if re.search(r"is_same_file$", call_name(v)) and set(v.a[1]) == {src_, dst}]
            isame = None
            for v in sm:
                if p.variant(v) == "Ok":
                    f = p.facts.get(F(v, "+Ok", "0"))
                    isame = f == ("eq", "1") if f else None
                elif p.variant(v) == "Err":
                    isame = False
            rm = [e for e in M if re.search(r"remove_\w+$|set_permissions$", e.name)]
            ln = [e for e in M if re.search(r"hard_link$|symlink\w*$|fs::copy$", e.name)]
            rest = [e for e in M if e not in rm + ln]
            c.ob("clear", "no other effect", not rest, f"{[e.name for e in rest]}", "clear|other", p.span)
            if isame is True:
                n["same"] += 1
                c.ob("same", "same file", not M and p.variant(p.ret) == "Ok", f"{src(p)}; {[e.name for e in M]}", "same", p.span)
                continue
            c.ob("same", "tested", isame is False or not M, "linking without asking whether both are the same file", "same|tested", p.span)
            c.ob("clear", "only the destination is removed", all(e.args[0] is dst for e in rm) and all(e.name.endswith(("remove_file", "set_permissions")) for e in rm) and (not rm or readonly_retry(c, p, rm, dst, "clear", "")), f"{[(e.name, show(e.args[0])[:50]) for e in rm]}", "clear|what", p.span)
            ex = [v for v in p.facts if re.search(r"symlink_metadata$", call_name(v)) and v.a[1][0] is dst]
            there = p.variant(ex[0]) == "Ok" if ex else None
            removed = bool(rm) and p.variant([e for e in rm if e.name.endswith("remove_file")][-1].res) == "Ok"
            for e in ln:
                c.ob("clear", "destination gone before linking", there is False or there is True and removed, f"{e.name} with destination existing: {there}, removed: {removed}", "clear|gone", e.span)
                c.ob("clear", "arguments", e.args[1] is dst and (e.args[0] is src_ or mentions(e.args[0], lambda x: x is src_)), f"{e.name}({show(e.args[0])[:60]}, {show(e.args[1])[:60]})", "clear|args", e.span)
            if ln:
                f = ln[0]
                dv = [v for v in p.facts if re.search(r"Path::is_dir$", call_name(v)) and v.a[1][0] is src_]
                isd = p.facts[dv[0]] == ("eq", "1") if dv else None
                nm = f.name.rsplit("::", 1)[1]
                c.ob("kind", f"first step {nm}", isd is True and nm == "symlink" or isd is False and nm == "hard_link", f"first {nm} when the source is a directory: {isd}", f"kind|{nm}", f.span)
                if nm == "symlink":
                    t = f.args[0]
                    sw = [(v, x) for v, x in p.facts.items() if re.search(r"Path::starts_with$", call_name(v)) and v.a[1][0] is src_]
                    ins = sw[0][1] == ("eq", "1") and is_path_fn(sw[0][0].a[1][1], "parent", dst) if sw else None
                    sp = calls_in(t, r"strip_prefix$")
                    ok = bool(sp) and ins is True and sp[0].a[1][0] is src_ and is_path_fn(sp[0].a[1][1], "parent", dst) or t is src_ and not ins
                    c.ob("kind", "link target", ok, f"the link points to {show(t)[:100]} (inside the destination's directory: {ins})", "kind|target", f.span)
                c.ob("kind", "copy only as fallback", len(ln) <= 2 and (len(ln) == 1 or ln[1].name.endswith("fs::copy") and p.variant(ln[0].res) == "Err"), f"{[(e.name, p.variant(e.res)) for e in ln]}", "kind|fallback", p.span)
                n["linked"] += 1
            rv = p.variant(p.ret)
            last = M[-1] if M else None
            ok = last is not None and (rv == "Ok" and last in ln and p.variant(last.res) == "Ok" or rv == "Err" and (last in ln and last.name.endswith("copy") and p.variant(last.res) == "Err" or last in rm or not ln))
            c.ob("outcome", f"{rv}", ok, f"{src(p)} after {[(e.name, p.variant(e.res)) for e in M]}", f"outcome|{rv}", p.span)
    c.floor("same-file paths", n["same"], 1)
    c.floor("linking paths", n["linked"], 6)


@check("S05")
def s05(c):
    P = program()
    c.rule("exists", "an existing directory is left alone")
    c.rule("tagged", "the directory appears under its name only by renaming a fresh temporary directory of the same parent that already carries the cache tag")
    c.rule("outcome", "success is reported only if the rename succeeded or the path exists by then; a failed earlier step is reported and nothing appears under the name")
    c.rule("tag", "the tag is written to CACHEDIR.TAG in that directory unless one is there, starts with the cache-directory signature, and a failure to write it is ignored")
    c.rule("tempdir", "a temporary-directory action creates the parent, a fresh directory in it, runs the action on that directory once and returns its outcome")
    p_ = mk("arg", "p")
    SIG = "Signature: 8a477f597d28d172789f06886806bc55\n"
    n = defaultdict(int)
    for b in fn_by(P, r"paths::create_dir_all_excluded_from_backups_atomic$", STD):
        for p in c.paths_of(b, events=MUT + "|" + QUERY):
            M = evs(p, MUT)
            if p.end in ("panic", "diverge"):
                ok = any(p.variant(v) == "None" and (is_path_fn(v, "parent", p_) or is_path_fn(v, "file_name", p_)) for v in p.facts)
                c.ob("exists", "no panic", ok and not M, src(p), "exists|panic", p.span)
                continue
            isd = [f == ("eq", "1") for v, f in p.facts.items() if re.search(r"is_dir$", call_name(v)) and v.a[1][0] is p_]
            if True in isd:
                n["exists"] += 1
                c.ob("exists", "directory", not M and p.variant(p.ret) == "Ok", f"{src(p)}; {[e.name for e in M]}", "exists", p.span)
                continue
            mk_ = [e for e in M if e.name.endswith("fs::create_dir_all")]
            td = [e for e in M if e.name.endswith("tempdir_in")]
            rn = [e for e in M if e.name.endswith("fs::rename")]
            wr = [e for e in M if e.name.endswith("fs::write")]
            rest = [e for e in M if e not in mk_ + td + rn + wr]
            c.ob("tagged", "no other effect", not rest and all(is_path_fn(e.args[0], "parent", p_) for e in mk_) and all(is_path_fn(e.args[-1], "parent", p_) for e in td), f"{[(e.name, show(e.args[0])[:60]) for e in rest + mk_ + td]}", "tagged|other", p.span)
            tmp = F(td[0].res, "+Ok", "0") if td else None
            istmp = lambda v: re.search(r"TempDir::path$|into_path$", call_name(v)) and any(x is tmp for x in v.a[1])
            tagof = lambda v: re.search(r"Path::join$", call_name(v)) and istmp(v.a[1][0]) and const_of(v.a[1][1]) == "CACHEDIR.TAG"
            for e in wr:
                c.ob("tag", "written", tagof(e.args[0]) and "".join(x for x in content(e.args[1]) if isinstance(x, str)).startswith(SIG), f"writes {show(e.args[1])[:60]} to {show(e.args[0])[:100]}", "tag|text", e.span)
            for e in td:
                ok = any(m in M[: M.index(e)] for m in mk_) and all(p.variant(m.res) == "Ok" for m in mk_ if m in M[: M.index(e)])
                c.ob("tagged", "parent first", ok, "the temporary directory is made without creating the parent", "tagged|parent", e.span)
            for e in rn:
                n["rename"] += 1
                c.ob("tagged", "rename", len(rn) == 1 and e is M[-1] and istmp(e.args[0]) and e.args[1] is p_, f"rename({show(e.args[0])[:60]}, {show(e.args[1])[:60]})", "tagged|rename", e.span)
                ex = [f == ("eq", "1") for v, f in p.facts.items() if re.search(r"Path::(exists|is_file)$", call_name(v)) and tagof(v.a[1][0])]
                c.ob("tagged", "tag first", bool(wr) or ex == [True], "the directory gets its name without the cache tag", "tagged|tag", e.span)
            fl = failed(p, mk_ + td)
            rv = p.variant(p.ret)
            if fl:
                ok = rv == "Err" and not rn
            elif rn:
                r = p.variant(rn[0].res)
                ex = [f == ("eq", "1") for v, f in p.facts.items() if re.search(r"Path::(exists|is_dir|try_exists)$", call_name(v)) and v.a[1][0] is p_]
                later = [e for e in evs(p, r"Path::(exists|is_dir)$") if e.args[0] is p_ and p.events.index(e) > p.events.index(rn[0])]
                ok = r == "Ok" and rv == "Ok" or r == "Err" and bool(later) and rv == ("Ok" if p.truth(later[-1].res) else "Err")
            else:
                ok = rv == "Err"
            c.ob("outcome", f"{rv}", ok, f"{src(p)} after {[(e.name, p.variant(e.res)) for e in M]}", f"outcome|{rv}", p.span)
    c.floor("renames", n["rename"], 2)
    c.floor("existing", n["exists"], 1)
    t = 0
    for b in fn_by(P, r"paths::temp_dir_in$", STD):
        path, f = mk("arg", "path"), mk("arg", "f")
        for p in c.paths_of(b, events=MUT + "|" + QUERY + r"|FnOnce.*call_once$|ops::Fn\w*::call"):
            M = evs(p, MUT)
            C = evs(p, r"call(_once|_mut)?$")
            ok = p.end == "return" and [e.name.rsplit("::", 1)[1] for e in M] in (["create_dir_all"], ["create_dir_all", "tempdir_in"]) and all(e.args[-1] is path for e in M)
            if C:
                t += 1
                d = [x for a in C[0].args for x in walk(a) if re.search(r"TempDir::path$", call_name(x))]
                ok = ok and len(C) == 1 and len(M) == 2 and p.variant(M[1].res) == "Ok" and p.variant(M[0].res) == "Ok" and d and base(d[0].a[1][0]) is M[1].res and p.ret is C[0].res
            else:
                ok = ok and p.variant(p.ret) == "Err" and p.variant(M[-1].res) == "Err"
            c.ob("tempdir", "action", bool(ok), f"{src(p)}; {[(e.name, p.variant(e.res)) for e in M]}, {len(C)} actions", "tempdir", p.span)
    c.floor("temporary-directory actions", t, 1)


def os_error(p, err):
    """codes an io error is known to be / known not to be"""
    yes, no = set(), set()
    for v, f in p.facts.items():
        if v.op == "bin" and v.a[0] == "Eq" and f[0] == "eq":
            for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if call_name(x).endswith("raw_os_error") and x.a[1][0] is err and y.op == "agg" and y.a[2] == "Some" and len(y.a) > 4:
                    (yes if f[1] == "1" else no).add(str(const_of(y.a[4])))
        b = v.a[0] if v.op == "proj" else None
        b = b.a[0] if b is not None and b.op == "proj" else b
        if b is not None and call_name(b).endswith("raw_os_error") and b.a[1][0] is err:
            if f[0] == "eq":
                yes.add(f[1])
            else:
                no |= set(f[1])
        if call_name(v).endswith("io::Error::kind") and v.a[1][0] is err and p.variant(v) in ("WouldBlock", "Unsupported"):
            yes |= {"11"} if p.variant(v) == "WouldBlock" else {"95", "38"}
    return yes, no


def c_failed(p, v):
    """a C call's result is known to be negative (True) / not negative (False)"""
    for x, f in p.facts.items():
        if x.op == "bin" and x.a[1] is v and f[0] == "eq":
            k = str(const_of(x.a[2]))
            t = f[1] == "1"
            if x.a[0] == "Lt" and k == "0" or x.a[0] == "Eq" and k == "-1":
                return t
            if x.a[0] in ("Eq", "Ge") and k == "0":
                return not t
            if x.a[0] == "Ne" and k in ("0", "-1"):
                return t if k == "0" else not t
    f = p.facts.get(v)
    if f is not None and f[0] == "eq":
        return f[1] != "0"
    return None


FLOCK = r"^libc::flock$"


@check("S06")
def s06(c):
    P = program()
    c.rule("held", "a lock handle is returned only after the system granted the lock of the requested kind on the very file the handle owns (or the file lies on NFS, or its file system does not support locking)")
    c.rule("contended", "a lock held by someone else is waited for by the blocking variants and answered with 'none' by the trying variants, which never wait")
    c.rule("open", "the file is root/path, opened without truncation; a missing parent directory is created only when creating and only after 'not found'")
    c.rule("error", "failing to open or lock is an error, and nothing else is")
    c.rule("release", "dropping the handle unlocks the file it owns, exactly once")
    c.rule("forward", "reading, seeking, writing and flushing through the handle act on the locked file")
    c.rule("root", "a file system stays at the path it was made for: joining and pushing extend exactly that path, and it equals exactly that path")
    me_, other = mk("arg", "self"), mk("arg", "other")
    root = F(me_, "root")

    def root_is(v, ok):
        return v is not None and v.op == "agg" and v.a[1].endswith("Filesystem") and ok(agg_field(v, "root"))

    def eq_of(a, b):
        return lambda p, v: v.op == "bin" and v.a[0] == "Eq" and {v.a[1], v.a[2]} == {a, b}

    def pushed(p, v):
        es = evs(p, r"PathBuf::\w+$")
        return len(es) == 1 and es[0].name.endswith("::push") and es[0].args[0] is root and es[0].args[1] is other

    for rx, good in (
        (r"flock::Filesystem::new$", lambda p, v: root_is(v, lambda r: r is mk("arg", "path"))),
        (r"flock::Filesystem::join$", lambda p, v: root_is(v, lambda r: re.search(r"Path::join$", call_name(r)) and list(r.a[1]) == [root, other])),
        (r"flock::Filesystem::push$", pushed),
        (r"flock::Filesystem::(into_path_unlocked|as_path_unlocked)$", lambda p, v: v is root),
        (r"flock::Filesystem::create_dir$", lambda p, v: [list(e.args) for e in evs(p, r"paths::create_dir_all$")] == [[root]] and v is evs(p, r"paths::create_dir_all$")[0].res),
        (r"flock::Filesystem::display$", lambda p, v: call_name(v).endswith("Path::display") and list(v.a[1]) == [root]),
        (r"flock::Filesystem as std::cmp::PartialEq>::eq$", eq_of(root, other)),
        (r"std::path::Path as std::cmp::PartialEq>::eq$", eq_of(me_, F(other, "root"))),
    ):
        bs = fn_by(P, rx, STD)
        if c.anchor(rx, bs):
            for b in bs:
                for p in c.paths_of(b, events=r"PathBuf::\w+$|paths::create_dir_all$", opaque=r"paths::create_dir_all$"):
                    c.ob("root", b.name, p.end == "return" and bool(good(p, p.ret)), f"{p.end}: {show(p.ret)[:120]}", f"root|{rx}", p.span)
    selfr = mk("arg", "self")
    want = {
        "open_rw_exclusive_create": ("6", "2", {"read", "write", "create"}, True),
        "try_open_rw_exclusive_create": ("6", None, {"read", "write", "create"}, True),
        "open_ro_shared": ("5", "1", {"read"}, False),
        "open_ro_shared_create": ("5", "1", {"read", "write", "create"}, True),
        "try_open_ro_shared_create": ("5", None, {"read", "write", "create"}, True),
    }
    held = defaultdict(int)
    for name, (tryk, blockk, flags, create) in want.items():
        bs = fn_by(P, r"Filesystem::%s$" % name, STD)
        c.anchor(name, bs)
        path = mk("arg", "path")
        for b in bs:
            for p in c.paths_of(b, events=MUT + "|" + QUERY + r"|^libc::|last_os_error$|as_raw_fd$"):
                O = evs(p, r"OpenOptions::open$")
                D = evs(p, r"create_dir_all$")
                L = evs(p, FLOCK)
                full = O[0].args[1] if O else None
                okp = full is not None and re.search(r"Path::join$", call_name(full)) and full.a[1][0] is F(selfr, "root") and full.a[1][1] is path
                c.ob("open", name + " file", bool(okp) and all(e.args[1] is full for e in O), f"opens {[show(e.args[1]) for e in O]}", f"open|{name}|path", p.span)
                if not okp:
                    continue
                for e in O:
                    o = opts(e.args[0])
                    c.ob("open", name + " options", o is not None and {k for k, v in o.items() if v} == flags, f"opened with {o}", f"open|{name}|opts", e.span)
                rest = [e for e in evs(p, MUT) if e not in O + D]
                c.ob("open", name + " no other effect", not rest, f"{[e.name for e in rest]}", f"open|{name}|other", p.span)
                nf = any(call_name(v).endswith("io::Error::kind") and mentions(v, lambda x: x is O[0].res) and p.variant(v) == "NotFound" for v in p.facts)
                first = p.variant(O[0].res)
                for e in D:
                    ok = create and first == "Err" and nf and is_path_fn(e.args[0], "parent", full) and len(D) == 1
                    c.ob("open", name + " creates the parent", ok, f"create_dir_all({show(e.args[0])[:80]}) when opening {first}, not found: {nf}", f"open|{name}|mkdir", e.span)
                if p.end in ("panic", "diverge"):
                    ok = any(p.variant(v) == "None" and is_path_fn(v, "parent", full) for v in p.facts)
                    c.ob("error", name + " no panic", ok, src(p), f"error|{name}|panic", p.span)
                    continue
                last = O[-1]
                opened = p.variant(last.res) == "Ok"
                if len(O) == 2:
                    c.ob("open", name + " reopened", bool(D) and p.variant(D[0].res) == "Ok", "opened again without creating the parent", f"open|{name}|again", p.span)
                retry = create and first == "Err" and nf
                if not opened:
                    tried = not retry or D and (p.variant(D[0].res) == "Err" or len(O) == 2)
                    c.ob("error", name + " not opened", p.variant(p.ret) == "Err" and not L and bool(tried), f"{src(p)} when opening failed", f"error|{name}|open", p.span)
                    continue
                f = F(last.res, "+Ok", "0")
                for e in L:
                    fd = e.args[0]
                    ok = call_name(fd).endswith("as_raw_fd") and fd.a[1][0] is f
                    k = str(const_of(e.args[1]))
                    i = L.index(e)
                    ok2 = k == (tryk if i == 0 else blockk)
                    c.ob("held", f"{name} lock {k}", ok and ok2, f"flock({show(fd)[:80]}, {k}) as attempt {i + 1}", f"held|{name}|lock", e.span)
                granted = any(c_failed(p, e.res) is False for e in L)
                errs = []
                for e in L:
                    after = [x for x in evs(p, r"last_os_error$") if p.events.index(x) > p.events.index(e)]
                    errs.append(os_error(p, after[0].res) if after else (set(), set()))
                nfs = any(v.op == "bin" and v.a[0] == "Eq" and f2 == ("eq", "1") and str(const_of(v.a[2])) in ("26985",) and "f_type" in show(v.a[1]) for v, f2 in p.facts.items()) or any(f2 == ("eq", "26985") and "f_type" in show(v) for v, f2 in p.facts.items())
                unsupported = bool(L) and c_failed(p, L[0].res) is True and bool(errs[0][0] & {"95", "38"})
                contended = bool(L) and c_failed(p, L[0].res) is True and "11" in errs[0][0]
                rv = p.variant(p.ret)
                val = payload(p.ret) if rv == "Ok" else None
                hs = agg_named(p.ret, "FileLock")
                if hs:
                    h = hs[0]
                    fl = agg_field(h, "f")
                    held[name] += 1
                    c.ob("held", name + " granted", granted or nfs or unsupported, f"a handle is returned after {[(show(e.args[1]), c_failed(p, e.res)) for e in L]}; errno {errs}", f"held|{name}|granted", p.span)
                    c.ob("held", name + " handle", agg_variant(fl) == "Some" and fl.a[4] is f and agg_field(h, "path") is full, f"the handle holds {show(h)[:200]}", f"held|{name}|handle", p.span)
                    c.ob("contended", name, not contended or len(L) == 2 and c_failed(p, L[1].res) is False, "a handle is returned though the lock is held by someone else", f"contended|{name}", p.span)
                elif rv == "Ok" and blockk is None and val is not None and agg_variant(val) == "None":
                    c.ob("contended", name + " none", contended and len(L) == 1, f"'none' after {[(show(e.args[1]), c_failed(p, e.res)) for e in L]}; errno {errs}", f"contended|{name}|none", p.span)
                    held[name + " none"] += 1
                else:
                    other = bool(L) and c_failed(p, L[0].res) is True and not unsupported and not contended
                    blocked = len(L) == 2 and c_failed(p, L[1].res) is True
                    c.ob("error", name + " failing", rv == "Err" and (blocked or other and len(L) == 1) and not (granted or nfs), f"{src(p)} after {[(show(e.args[1]), c_failed(p, e.res)) for e in L]}; errno {errs}", f"error|{name}|lock", p.span)
        c.floor(f"{name} handles", held[name], 3)
        if blockk is None:
            c.floor(f"{name} contended", held[name + " none"], 1)
    d = 0
    for b in fn_by(P, r"FileLock as std::ops::Drop>::drop$", STD):
        f = F(selfr, "f")
        for p in c.paths_of(b, events=r"^libc::|as_raw_fd$|" + MUT):
            L = evs(p, FLOCK)
            has = p.variant(f)
            d += has == "Some"
            ok = p.end == "return" and not [e for e in evs(p, r"^libc::|" + MUT) if e not in L] and (has == "None" and not L or has == "Some" and len(L) == 1 and str(const_of(L[0].args[1])) == "8" and call_name(L[0].args[0]).endswith("as_raw_fd") and L[0].args[0].a[1][0] is F(f, "+Some", "0"))
            c.ob("release", "drop", ok, f"{src(p)}; {[show(e.args[1]) for e in L]} with file {has}", "release", p.span)
    c.floor("drops of an owned file", d, 1)
    k = 0
    for tr, m in (("Read", "read"), ("Seek", "seek"), ("Write", "write"), ("Write", "flush")):
        for b in fn_by(P, r"FileLock as std::io::%s>::%s$" % (tr, m), STD):
            for p in c.paths_of(b, events=r"std::io::(Read|Seek|Write)>?::"):
                E = evs(p, r"std::io::(Read|Seek|Write)>?::")
                f = F(selfr, "f")
                if p.end in ("panic", "diverge"):
                    c.ob("forward", m + " no panic", p.variant(f) == "None", src(p), f"forward|{m}|panic", p.span)
                    continue
                k += 1
                rest = [mk("arg", b.locals[i][1]) for i in range(2, b.argc + 1)]
                ok = len(E) == 1 and E[0].name.endswith(f"{tr}>::{m}") and E[0].args[0] is F(f, "+Some", "0") and list(E[0].args[1:]) == rest and p.ret is E[0].res
                c.ob("forward", m, bool(ok), f"{src(p)}; {[(e.name, [show(a)[:40] for a in e.args]) for e in E]}", f"forward|{m}", p.span)
    c.floor("forwarding paths", k, 4)
    for m, fn in (("path", lambda p: p.ret is F(selfr, "path")), ("parent", lambda p: is_path_fn(p.ret, "parent", F(selfr, "path"))), ("file", lambda p: p.ret is F(selfr, "f", "+Some", "0"))):
        for b in fn_by(P, r"FileLock::%s$" % m, STD):
            for p in c.paths_of(b, events="."):
                if p.end == "return":
                    c.ob("forward", m, fn(p), f"{m}() is {show(p.ret)[:80]}", f"forward|acc|{m}", p.span)
                else:
                    c.ob("forward", m + " panic", any(p.variant(v) == "None" for v in p.facts), src(p), f"forward|acc|{m}|panic", p.span)
