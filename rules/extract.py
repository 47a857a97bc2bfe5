"""the tool that collects translatable messages from source files"""
from core import check, program
from q import *
from fsys import under_mut, call_name, payload, base
from std import payload_of, char_const
from misc import plain
from l10n import find, text, sep, chain, clo_paths, cases, captured, base_key, eat

BIN = "tinymist_l10n-bin"
PREFIX = {True: "tinymist_l10n::", False: "l10nMsg"}
OPAQUE = r"^(parse_str|parse_char|check_calls)$|update_disk_translations$"


def closed(p, callv, clo):
    """the closure with the values it captures at the call"""
    vals = captured(p, callv, clo)
    return mk("clo", clo.a[0], clo.a[1], tuple(vals), *clo.a[3:])


@check("N04")
def n04(c):
    c.rule("files", "every file below the directory with the kind as its extension is searched, and what is found goes to the output file, whose outcome is the tool's")
    c.rule("calls", "every call of a translation function with the expected literal arguments gives its key and text, nothing else does")
    c.rule("character", "blanks are skipped before an expected character, which must come next")
    c.rule("literal", "a string literal ends at the first quote that is not escaped")
    for b in find(c, r"^parse_char$", BIN):
        s, ch = mk("arg", "s"), mk("arg", "ch")
        T = ("trim_start", ("v", s, ""), "")
        n = 0
        for p in c.paths_of(b, events="."):
            r = p.variant(p.ret) if p.end == "return" else None
            t = [(v, f) for v, f in p.facts.items() if re.search(r"str::(starts_with|strip_prefix)$", call_name(v)) and text(v.a[1][0]) == T and v.a[1][1] is ch]
            yes = [f for v, f in t if f in (("eq", "1"), ("eq", "Some"))]
            no = [f for v, f in t if f in (("eq", "0"), ("eq", "None"))]
            if call_name(p.ret).endswith("str::strip_prefix") and text(p.ret.a[1][0]) == T and p.ret.a[1][1] is ch:
                n += 2
                continue
            if r == "Some":
                x = payload_of(p.ret, "Some")
                g = text(x)
                rest = x.op == "proj" and any(x is F(v, "+Some", "0") for v, f in t) or g == ("drop", T, "1") or drop_len(x, T, ch)
                c.ob("character", "found", bool(yes) and bool(rest), f"gives {show(x)[:100]}", "character|found", p.span)
            else:
                c.ob("character", "not found", r == "None" and bool(no), f"{p.end} {r}", "character|none", p.span)
            n += 1
        c.floor("characters", n, 2)
    for b in find(c, r"^parse_str$", BIN):
        literal(c, c.paths_of(b, events=".", cut=".", opaque=OPAQUE))
    for b in find(c, r"^check_calls$", BIN):
        calls(c, c.paths_of(b, events=".", opaque=OPAQUE, hof=False))
    for b in find(c, r"^main$", BIN):
        main(c, c.paths_of(b, events=".", opaque=OPAQUE, hof=False))


def drop_len(x, T, ch):
    """x is the text T after as many bytes as the character has"""
    if not re.search(r"Index>?::index$", call_name(x)) or text(x.a[1][0]) != T:
        return False
    r = x.a[1][1]
    return r.op == "agg" and r.a[3] == ("start",) and re.search(r"len_utf8$", call_name(r.a[4])) and r.a[4].a[1][0] is ch


def literal(c, ps):
    s = mk("arg", "s")
    opens = {v.id: v for p in ps for v in p.facts if call_name(v) == "parse_char"}
    ok = len(opens) == 1 and all(v.a[1][0] is s and char_const(v.a[1][1]) == '"' for v in opens.values())
    c.ob("literal", "opening quote", ok, f"{[show(v)[:60] for v in opens.values()]}", "literal|open")
    if not ok:
        return
    O = list(opens.values())[0]
    body = F(O, "+Some", "0")
    B = ("v", body, "")
    loops = {}
    for p in ps:
        for f in p.facts:
            for x in walk(f):
                if x.op == "loop":
                    loops[(x.a[0], x.a[1], x.a[4])] = x
    its = [x for x in loops.values() if re.search(r"str::(char_indices|bytes|chars)$|Iterator>?::enumerate$", call_name(x.a[3]))]
    ok = len(its) == 1 and (re.search(r"char_indices$", call_name(its[0].a[3])) and text(its[0].a[3].a[1][0]) == B or re.search(r"enumerate$", call_name(its[0].a[3])) and re.search(r"str::bytes$", call_name(its[0].a[3].a[1][0])) and text(its[0].a[3].a[1][0].a[1][0]) == B)
    c.ob("literal", "every character", ok, f"{[show(x.a[3])[:80] for x in its]}", "literal|chars")
    if not ok:
        return
    it = its[0]
    flags = [x for x in loops.values() if x is not it and str(const_of(x.a[3])) in ("0", "False")]
    c.ob("literal", "state", len(flags) <= 1, f"{len(flags)} flags", "literal|state")
    esc = flags[0] if flags else None
    n = set()
    for p in ps:
        if p.variant(O) == "None":
            c.ob("literal", "no literal", p.end == "return" and p.variant(p.ret) == "None", f"{p.end}", "literal|none", p.span)
            n.add("no")
            continue
        if any(x.op == "ovf" and f == ("eq", "1") for x, f in p.facts.items()):
            continue
        nx = [e.res for e in p.events if e.kind == "call" and re.search(r"Iterator>?::next$", e.name) and mentions(e.args[0], lambda x: x is it)]
        first = [v for v in nx if v.a[1][0] is it]
        if not first:
            c.ob("literal", "start", p.end != "return", f"returns {show(p.ret)[:80]}", "literal|start", p.span)
            continue
        f0 = first[0]
        if p.variant(f0) == "None":
            c.ob("literal", "end of file", p.end == "return" and p.variant(p.ret) == "None", f"{p.end} {show(p.ret)[:80]}", "literal|end", p.span)
            n.add("end")
            continue
        ch = F(f0, "+Some", "0", "1")
        k = {x: is_char(p, ch, x) for x in ('"', "\\")}
        e = None if esc is None else p.truth(esc)
        more = [v for v in nx if v is not f0]
        if p.end == "return" and p.variant(p.ret) == "None" and more and p.variant(more[0]) == "None" and k["\\"]:
            continue
        if p.end == "return":
            r = payload_of(p.ret, "Some") if p.variant(p.ret) == "Some" else None
            at = F(f0, "+Some", "0", "0")
            ok = r is not None and r.op == "agg" and k['"'] is True and (esc is None or e is False) and upto(r.a[4], B, at) and after(r.a[5], B, at)
            n.add("quote")
            c.ob("literal", "closing quote", bool(ok), f"ends with {show(r)[:120] if r is not None else None} knowing {k}, escaped: {e}", "literal|close", p.span)
            continue
        if p.end != "loop" or not p.ends_loop(it):
            c.ob("literal", "goes on", p.end == "loop", f"{p.end}", "literal|goes on", p.span)
            continue
        ne = None if esc is None else const_of(p.loop_next(esc)) if p.loop_next(esc) is not esc else "same"
        ne = {"0": False, "1": True, "False": False, "True": True}.get(str(ne), ne)
        if ne == "same":
            ne = e
        if esc is not None and e is True:
            n.add("escaped")
            c.ob("literal", "escaped character", ne is False and not more, f"after an escaped character the next one is {'escaped' if ne else ne}", "literal|escaped", p.span)
        elif k["\\"] is True:
            n.add("backslash")
            ok = ne is True and not more if esc is not None and not more else len(more) == 1 and (esc is None or ne is False)
            c.ob("literal", "backslash", ok and (esc is None or e is False), "a backslash does not escape exactly the next character", "literal|backslash", p.span)
        else:
            n.add("other")
            ok = k['"'] is False and k["\\"] is False and not more and (esc is None or e is False and ne is False)
            c.ob("literal", "other character", ok, f"goes on knowing {k}, escaped: {e} then {ne}", "literal|other", p.span)
    c.ob("literal", "cases", {"no", "end", "quote", "backslash", "other"} <= n, f"only {sorted(n)}", "literal|cases")


def is_char(p, v, ch):
    for x, f in p.facts.items():
        if x is v:
            if f[0] == "eq":
                return str(f[1]) == str(ord(ch))
            if f[0] == "ne" and str(ord(ch)) in {str(y) for y in f[1]}:
                return False
    known = None
    for x, f in p.facts.items():
        if x.op == "bin" and x.a[0] in ("Eq", "Ne") and f[0] == "eq" and v in x.a[1:]:
            o = x.a[2] if x.a[1] is v else x.a[1]
            eq = (f[1] == "1") == (x.a[0] == "Eq")
            if char_const(o) == ch:
                known = eq
            elif eq and char_const(o) is not None:
                return False
    return known


def rng(v, T):
    if re.search(r"Index>?::index$", call_name(v)) and text(v.a[1][0]) == T and v.a[1][1].op == "agg":
        r = v.a[1][1]
        return dict(zip(r.a[3], r.a[4:]))
    return {}


def upto(v, T, at):
    r = rng(v, T)
    return "start" not in r and r.get("end") is at or v.op == "proj" and re.search(r"str::split_at$", call_name(v.a[0])) and text(v.a[0].a[1][0]) == T and v.a[0].a[1][1] is at and v.a[1] == ("f", "0")


def after(v, T, at):
    r = rng(v, T)
    return "end" not in r and "start" in r and plus(r["start"]) == (at.id, 1)


def plus(v):
    """(value, constant added)"""
    if v.op == "proj" and v.a[0].op == "bin":
        v = v.a[0]
    if v.op == "bin" and v.a[0].startswith("Add"):
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if str(const_of(b)).isdigit():
                x, n = plus(a)
                return x, n + int(const_of(b))
            l = len_of(b)
            if l is not None and isinstance(const_of(l), str):
                x, n = plus(a)
                return x, n + len(const_of(l).encode())
    return v.id, 0


def calls(c, ps):
    P = program()
    e, rs = mk("arg", "e"), mk("arg", "is_rs")
    kinds = set()
    for p in ps:
        rd = evs(p, r"fs::read_to_string$", "call")
        ok = len(rd) == 1 and re.search(r"DirEntry::(path|into_path)$", call_name(plain(rd[0].args[0]))) and plain(rd[0].args[0]).a[1][0] is e
        c.ob("files", "read", bool(ok) and p.end == "return", f"{p.end} reading {[show(x.args[0])[:60] for x in rd]}", "files|read", p.span)
        if not ok:
            continue
        if p.variant(rd[0].res) == "Err":
            c.ob("files", "unreadable", bool(re.search(r"Vec::new$|Default", call_name(p.ret))) or p.ret.op == "agg", f"{show(p.ret)[:80]}", "files|unreadable", p.span)
            continue
        content_ = F(rd[0].res, "+Ok", "0")
        k = p.facts.get(rs)
        v, clo = p.ret, None
        while v.op in ("call", "pure") and re.search(r"::(collect|into_iter|into_par_iter)$", v.a[0]):
            v = v.a[1][0]
        if v.op in ("call", "pure") and re.search(r"::(flat_map|flat_map_iter|filter_map)$", v.a[0]):
            clo, fm, v = v.a[1][1], v, v.a[1][0]
        ok = clo is not None and re.search(r"match_indices$", call_name(v)) and plain(v.a[1][0]) is content_
        pat = sep(v.a[1][1]) if ok else None
        ok = ok and k is not None and pat and PREFIX[k == ("eq", "1")].startswith(pat)
        c.ob("calls", "every place", bool(ok), f"searches {show(v)[:100]} with kind {k}", "calls|places", p.span)
        if not ok:
            continue
        kind = k == ("eq", "1")
        kinds.add(kind)
        at = mk("arg", "a place")
        qs = clo_paths(c, closed(p, fm, clo), at, opaque=OPAQUE, hof=False)
        c.ob("calls", "closure", bool(qs), "the search cannot be followed", "calls|closure", p.span)
        some = 0
        for q in qs or []:
            if q.facts.get(rs) not in (None, k) or any(x.op == "ovf" and f == ("eq", "1") for x, f in q.facts.items()):
                continue
            some += one_call(c, q, kind, content_, F(at, "0"))
        c.ob("calls", "kinds of calls", some == (2 if kind else 1), f"{some} ways to find a call of kind {'rs' if kind else 'ts'}", f"calls|ways|{kind}", p.span)
    c.ob("calls", "both languages", kinds == {True, False}, f"{kinds}", "calls|languages")


def one_call(c, q, kind, content_, at):
    """obligations of one path of the search at a place; 1 if it finds a call"""
    def pos(v):
        """bytes after the place where the text v starts, or None"""
        if re.search(r"Index>?::index$", call_name(v)) and v.a[1][1].op == "agg" and v.a[1][1].a[3] == ("start",):
            x, n = plus(v.a[1][1].a[4])
            if plain(v.a[1][0]) is content_:
                return n if x == at.id else None
            k = v.a[1][1].a[4]
            k = const_of(k) if const_of(k) is not None else len(const_of(len_of(k)).encode()) if len_of(k) is not None and isinstance(const_of(len_of(k)), str) else None
            b = pos(v.a[1][0])
            return b + int(k) if b is not None and k is not None else None
        t = text(v)
        if t[0] == "after" and t[1][0] == "v" and isinstance(t[2], str):
            n = pos(t[1][1])
            return None if n is None else n + len(t[2].encode())
        if t[0] == "drop" and t[1][0] == "v":
            n = pos(t[1][1])
            return None if n is None else n + int(t[2])
        return None
    pre = PREFIX[kind]
    tests = [(v, f) for v, f in q.facts.items() if re.search(r"str::(starts_with|strip_prefix)$", call_name(v))]
    L = len(pre.encode())

    def tested(at_, lit):
        r = [f in (("eq", "1"), ("eq", "Some")) for v, f in tests if pos(v.a[1][0]) == at_ and sep(v.a[1][1]) == lit]
        return r[0] if r else None
    macro = {m: tested(L, m) for m in ("t!", "bail!")}
    whole = {m: tested(0, pre + m) for m in ("t!", "bail!")}
    parsed = [(v, q.variant(v)) for v in [x.res for x in q.events if x.kind == "call" and x.name in ("parse_char", "parse_str")]]
    r = q.variant(q.ret) if q.end == "return" else None
    why = lambda: [(show(v)[:70], f) for v, f in list(q.facts.items())[-4:]]
    if r == "None":
        no = tested(0, pre) is False or kind and (all(x is False for x in macro.values()) or all(x is False for x in whole.values())) or any(x == "None" for _, x in parsed)
        c.ob("calls", "not a call", bool(no), f"a place is passed over knowing {why()}", f"calls|none|{kind}", q.span)
        if any(x == "None" for _, x in parsed):
            steps(c, q, kind, pos, L, macro, parsed, False)
        return 0
    if r != "Some":
        c.ob("calls", "outcome", False, f"{q.end} {show(q.ret)[:80]}", "calls|outcome", q.span)
        return 0
    yes = tested(0, pre) is True and (not kind or any(macro.values())) or kind and any(whole.values())
    c.ob("calls", "a call", bool(yes), f"a call is found knowing {why()}", f"calls|some|{kind}", q.span)
    strs = steps(c, q, kind, pos, L, macro, parsed, True)
    if strs is None:
        return 1
    t = payload_of(q.ret, "Some")
    ok = t.op == "agg" and len(t.a) == 6
    if ok:
        a, b = content(t.a[4]), content(t.a[5])
        quoted = lambda v: ['"', ("arg", v, "display"), '"']
        norm = lambda w: [(x[0], base_key(x[1]), x[2]) if isinstance(x, tuple) else x for x in w]
        key = F(strs[0], "+Some", "0", "0")
        if kind:
            ok = norm(a) == [("arg", key, "display")] and norm(b) == quoted(F(strs[1], "+Some", "0", "0"))
        else:
            ok = norm(a) == quoted(key) and norm(b) == quoted(key)
    c.ob("calls", "key and text", ok, f"gives {show(t)[:160]}", f"calls|result|{kind}", q.span)
    return 1


def steps(c, q, kind, pos, L, macro, parsed, full):
    """the arguments are parsed one after the other: the literals"""
    want = [("parse_char", "("), ("parse_str", None)] + ([("parse_char", ","), ("parse_str", None)] if kind else [])
    got = [v for v, _ in parsed]
    ok = len(got) == len(want) if full else len(got) <= len(want)
    prev, strs = None, []
    for v, (n, ch) in zip(got, want):
        ok = ok and v.a[0] == n and (ch is None or char_const(v.a[1][1]) == ch)
        if prev is None:
            n0 = pos(v.a[1][0])
            m = [x for x, y in macro.items() if y]
            ok = ok and n0 is not None and (n0 == L + len(m[0]) if kind and m else n0 in (L + 2, L + 5) if kind else n0 == L)
        else:
            ok = ok and v.a[1][0] is (F(prev, "+Some", "0") if prev.a[0] == "parse_char" else F(prev, "+Some", "0", "1"))
        prev = v
        if n == "parse_str":
            strs.append(v)
    c.ob("calls", "arguments", bool(ok), f"parses {[show(v)[:60] for v in got]}", f"calls|arguments|{kind}", q.span)
    return strs if ok and full else None


def main(c, ps):
    n = 0
    for p in ps:
        up = evs(p, r"update_disk_translations$", "call")
        ok = len(up) == 1 and p.end == "return"
        c.ob("files", "output", ok, f"{p.end}, written {len(up)} times", "files|output", p.span)
        if not ok:
            continue
        args = [x for x in walk(up[0].args[1]) if re.search(r"Parser>?::parse$", call_name(x))]
        if not args:
            c.ob("files", "arguments", False, f"{show(up[0].args[1])[:80]}", "files|args", p.span)
            continue
        A = args[0]
        n += 1
        c.ob("files", "output file", plain_path(up[0].args[1]) is F(A, "output"), f"{show(up[0].args[1])[:80]}", "files|output file", p.span)
        c.ob("files", "outcome", p.variant(p.ret) is not None and p.variant(p.ret) == p.variant(up[0].res) or p.ret is up[0].res, f"{show(p.ret)[:80]}", "files|outcome", p.span)
        v, fs = up[0].args[0], []
        while v.op in ("call", "pure") and v.a[1]:
            nm = v.a[0].rsplit("::", 1)[1]
            if nm in ("collect", "par_bridge", "into_iter", "into_par_iter", "by_ref"):
                v = v.a[1][0]
            elif nm in ("filter", "filter_map", "flat_map", "flat_map_iter", "map", "flatten"):
                fs.append((nm, v.a[1][1] if len(v.a[1]) > 1 else None, v))
                v = v.a[1][0]
            elif nm in ("follow_links", "sort_by", "sort_by_file_name", "same_file_system", "contents_first") and "WalkDir" in v.a[0]:
                v = v.a[1][0]
            else:
                break
        ok = re.search(r"WalkDir::new$", call_name(v)) and plain_path(v.a[1][0]) is F(A, "dir")
        c.ob("files", "the whole directory", bool(ok), f"goes through {show(v)[:100]}", "files|walk", p.span)
        item, ext, searched = mk("arg", "an entry"), False, False
        for nm, clo, cv in fs[::-1]:
            if nm == "flatten":
                continue
            qs = clo_paths(c, closed(p, cv, clo) if clo is not None and clo.op == "clo" else clo, item, opaque=OPAQUE, hof=False)
            if nm.startswith("flat_map") and qs and all(q.variant(q.ret) in ("Some", "None") for q in qs):
                nm = "filter_map"  # an option is a list of at most one item
            if nm == "filter":
                for q in qs or []:
                    for fd, keep in cases(q):
                        if keep is False:
                            nofile = any(re.search(r"is_file$", call_name(x)) and f == ("eq", "0") or re.search(r"is_dir$", call_name(x)) and f == ("eq", "1") for x, f in fd.items())
                            c.ob("files", "left out", nofile or other_ext(fd, q, F(A, "kind")) is True, f"a file is left out knowing {[(show(x)[:60], f) for x, f in fd.items()]}", "files|left out", q.span)
                            ext = ext or other_ext(fd, q, F(A, "kind")) is True
            elif nm == "filter_map":
                for q in qs or []:
                    ok = q.end == "return" and (q.variant(q.ret) == q.variant(item) == "Some" or q.variant(item) == "Err" and q.variant(q.ret) == "None" or q.variant(item) == "Ok" and q.variant(q.ret) == "Some" and payload_of(q.ret, "Some") is F(item, "+Ok", "0"))
                    c.ob("files", "readable entries", ok, f"{show(q.ret)[:80]}", "files|entries", q.span)
            elif nm in ("flat_map", "flat_map_iter"):
                for q in qs or []:
                    r = base_key(q.ret)
                    k = r.a[1][1] if call_name(r) == "check_calls" else None
                    searched = k is not None and r.a[1][0] is item and is_kind(k, F(A, "kind"), p)
                    c.ob("files", "searched", searched, f"{show(q.ret)[:100]}", "files|searched", q.span)
        c.ob("files", "kind of file", ext and searched, "files of other kinds are searched", "files|kind", p.span)
    c.floor("runs", n, 1)


def plain_path(v):
    while v.op in ("call", "pure") and re.search(r"Path::new$|::(as_ref|as_str|deref|as_path|into|from|borrow|clone)$", v.a[0]):
        v = v.a[1][0]
    return v


def eq_kind(x, kind):
    return x.op == "bin" and x.a[0] in ("Eq", "Ne") and any(plain_path(y) is kind for y in x.a[1:]) or re.search(r"PartialEq.*>?::eq$", call_name(x)) and any(plain_path(y) is kind for y in x.a[1])


def other_ext(fd, q, kind):
    """the entry has no or another extension"""
    for x, f in fd.items():
        if re.search(r"Path::extension$", call_name(x)) and f == ("eq", "None"):
            return True
        if eq_kind(x, kind) and f == ("eq", "1" if x.op == "bin" and x.a[0] == "Ne" else "0"):
            return mentions(x, lambda y: re.search(r"Path::extension$", call_name(y)))
        if x.op in ("call", "pure") and re.search(r"is_some_and$|Option as std::cmp::PartialEq", x.a[0]) and f == ("eq", "0"):
            return mentions(x, lambda y: y is kind)
    return None


def is_kind(k, kind, p):
    """k says whether the kind is 'rs'"""
    return k.op == "bin" and k.a[0] == "Eq" and any(plain_path(y) is kind for y in k.a[1:]) and any(const_of(y) == "rs" for y in k.a[1:])
