"""tinymist-std wrappers, conversions and errors; tinymist-l10n."""
from core import check, program
from q import *
from fsys import same, under_mut, call_name, payload, some, base
from std import anchored, payload_of, feasible, char_const, debug_only

CONVERT = re.compile(r"Into>?::into$|From>?::from$|::to_string$|::to_owned$|::as_ref$|::as_str$|::deref$|Borrow>?::borrow$")


def plain(v):
    """through conversions that keep the text"""
    while True:
        if v.op in ("call", "pure") and CONVERT.search(v.a[0]) and v.a[1]:
            v = v.a[1][0]
        elif is_cow(v):
            v = v.a[4]
        else:
            return v


def is_empty_text(p, v):
    """True/False if the path knows whether the text v is empty"""
    for x, f in p.facts.items():
        if f[0] != "eq":
            continue
        if call_name(x).endswith("::is_empty") and plain(x.a[1][0]) is v:
            return f[1] == "1"
        if x.op == "bin" and x.a[0] in ("Eq", "Ne"):
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if len_of(a) is v and str(const_of(b)) == "0" or a is v and const_of(b) == "":
                    return (f[1] == "1") == (x.a[0] == "Eq")
        if x.op == "bin" and x.a[0] == "Lt" and str(const_of(x.a[1])) == "0" and len_of(x.a[2]) is v:
            return f[1] != "1"
    return None


WRITES = r"Formatter::(write_fmt|write_str|write_char|pad)$|fmt::Write>?::(write_fmt|write_str|write_char)$|fmt::(Display|Debug)>?::fmt$"


def written(p, fmt):
    """text a fmt function writes on a path: [str | ('arg', V, display|debug)], and whether its outcome is that of the writes"""
    out = []
    ok = True
    es = [e for e in p.events if e.kind == "call" and re.search(WRITES, e.name)]
    for i, e in enumerate(es):
        if re.search(r"(Display|Debug)>?::fmt$", e.name):
            if under_mut(e.args[1]) is not fmt:
                continue
            out.append(("arg", e.args[0], "debug" if "Debug" in e.name else "display"))
        else:
            if under_mut(e.args[0]) is not fmt:
                continue
            x = e.args[1]
            if e.name.endswith("write_char"):
                ch = char_const(x)
                out += [ch] if ch is not None else [("arg", x, "display")]
            else:
                out += content(x)
        r = p.variant(e.res)
        if r == "Err":
            ok = p.variant(p.ret) == "Err"
            return out, ok, True
        if r is None and p.ret is not e.res:
            ok = False
    m = []
    for x in out:
        if isinstance(x, str) and m and isinstance(m[-1], str):
            m[-1] += x
        elif x != "":
            m.append(x)
    return m, ok and p.variant(p.ret) != "Err", False


# ------------------------------------------------------------------ S12
@check("S12")
def s12(c):
    P = program()
    s = mk("arg", "self")
    c.rule("take", "the inner value when the pointer is the only one, a clone of the inner value otherwise")
    c.rule("cowmut", "reads and writes reach the owned value or the borrowed one; the default is an owned default")
    c.rule("bytes", "bytes are written and read in the same base64 alphabet and padding, whole, and a text that cannot be read is an error")
    c.rule("arc", "converting a shared pointer converts exactly that pointer")
    c.rule("time", "a time stamp becomes the date of exactly that moment; a moment out of range is no date, without a panic")
    k = 0
    for b in anchored(c, r"TakeAs>::take$"):
        for p in c.paths_of(b, events="."):
            k += 1
            tu = [v for v in p.facts if re.search(r"Arc::(try_unwrap|into_inner|get_mut|strong_count)$", call_name(v))]
            r = p.ret
            # (v or clone of v) through the transparent clone
            ok = p.end == "return" and (call_name(r).endswith("Arc::unwrap_or_clone") and r.a[1][0] is s)
            for v in tu:
                if v.a[0].endswith("try_unwrap") and v.a[1][0] is s and p.variant(v) in ("Ok", "Err"):
                    ok = ok or r is F(v, "+" + p.variant(v), "0")
            c.ob("take", f"{[p.variant(v) for v in tu]}", ok, f"{p.end}: takes {show(r)[:140]}", "take|value", p.span)
    c.floor("takes", k, 1)
    for nm in ("deref", "deref_mut"):
        for b in anchored(c, r"CowMut as std::ops::Deref(Mut)?>::%s$" % nm):
            seen = set()
            for p in c.paths_of(b, events="."):
                v = p.variant(s)
                seen.add(v)
                ok = p.end == "return" and v in ("Owned", "Borrowed") and p.ret is F(s, "+" + v, "0")
                c.ob("cowmut", f"{nm} {v}", ok, f"{p.end}: {nm} of {v} is {show(p.ret)[:100]}", f"cowmut|{nm}|{v}", p.span)
            c.ob("cowmut", f"{nm} of every variant", seen == {"Owned", "Borrowed"}, f"{seen}", f"cowmut|{nm}|all")
    for b in anchored(c, r"CowMut as std::default::Default>::default$"):
        for p in c.paths_of(b, events="."):
            ok = p.variant(p.ret) == "Owned" and call_name(p.ret.a[4]).endswith("Default::default") or call_name(payload_of(p.ret, "Owned")).endswith("::default")
            c.ob("cowmut", "default", p.end == "return" and ok, f"default is {show(p.ret)[:100]}", "cowmut|default", p.span)
    kinds = {}
    for b in anchored(c, r"AsCowBytes as serde_with::SerializeAs>::serialize_as$"):
        for p in c.paths_of(b, events="."):
            es = evs(p, r"SerializeAs>?::serialize_as$", "call")
            ok = p.end == "return" and len(es) == 1 and es[0].res is p.ret and plain(es[0].args[0]) is mk("arg", "source") and es[0].args[1] is mk("arg", "serializer")
            c.ob("bytes", "serialize", ok, f"serializes as {show(p.ret)[:140]}", "bytes|ser", p.span)
            for e in es:
                kinds.setdefault((e.extra or {}).get("ga", ["?"])[0], set()).add("ser")
    for b in anchored(c, r"AsCowBytes as serde_with::DeserializeAs>::deserialize_as$"):
        for p in c.paths_of(b, events="."):
            es = evs(p, r"DeserializeAs>?::deserialize_as$", "call")
            ok = p.end == "return" and len(es) == 1 and es[0].args[0] is mk("arg", "deserializer")
            if ok:
                kinds.setdefault((es[0].extra or {}).get("ga", ["?"])[0], set()).add("de")
                v = p.variant(es[0].res)
                r = p.ret
                if v == "Ok":
                    x = payload(r)
                    x = x.a[4] if x.op == "agg" and x.a[2] in ("Owned", "Borrowed") else plain(x)
                    ok = p.variant(r) == "Ok" and x is F(es[0].res, "+Ok", "0")
                elif v == "Err":
                    ok = p.variant(r) == "Err" and plain(payload_of(r, "Err")) is F(es[0].res, "+Err", "0") or r is es[0].res
                else:
                    ok = r is es[0].res
            c.ob("bytes", "deserialize", ok, f"deserializes to {show(p.ret)[:140]}", "bytes|de", p.span)
    c.ob("bytes", "one encoding", len(kinds) == 1 and list(kinds.values()) == [{"ser", "de"}], f"written and read as {kinds}", "bytes|same")
    for rx, a in ((r"FromArc>::from_arc$", "arc"), (r"ArcInto>::arc_into$", "self")):
        for b in anchored(c, rx):
            for p in c.paths_of(b, events="."):
                c.ob("arc", a, p.end == "return" and plain(p.ret) is mk("arg", a), f"is {show(p.ret)[:100]}", f"arc|{a}", p.span)
    k = 0
    for b in anchored(c, r"<i64 as time::ToUtcDateTime>::to_utc_datetime$"):
        for p in c.paths_of(b, events="."):
            k += 1
            vs = [v for v in p.facts if re.search(r"UtcDateTime::from_unix_timestamp$", call_name(v)) and v.a[1][0] is s]
            r, rv = p.ret, p.variant(p.ret)
            ok = p.end == "return" and len(vs) == 1 and (p.variant(vs[0]) == "Ok" and rv == "Some" and payload_of(r, "Some") is F(vs[0], "+Ok", "0") or p.variant(vs[0]) == "Err" and rv == "None")
            c.ob("time", "i64", ok, f"{p.end} {show(r)[:120]}", "time|i64", p.span)
    for b in anchored(c, r"SystemTime as time::ToUtcDateTime>::to_utc_datetime$"):
        for p in c.paths_of(b, events="."):
            k += 1
            r = p.ret
            since = [v for v in p.facts if call_name(v).endswith("SystemTime::duration_since") and v.a[1][0] is s and "UNIX_EPOCH" in show(v.a[1][1])]
            chk = [x for x in walk(r) if re.search(r"UtcDateTime::checked_(add|sub)$", call_name(x))]
            why = f"{p.end} {show(r)[:160]}"
            ok = p.end == "return" and len(since) == 1
            if ok:
                side = p.variant(since[0])
                if p.variant(r) == "None" and not chk:
                    # only because the distance does not fit
                    ok = any(f in (("eq", "Err"), ("eq", "None")) and v is not since[0] and re.search(r"try_into$|try_from$|checked_\w+$", call_name(v)) and mentions(v, lambda x: x is since[0]) for v, f in p.facts.items())
                else:
                    want = {"Ok": "checked_add", "Err": "checked_sub"}.get(side)
                    x = chk[0] if chk else None
                    ok = x is not None and x.a[0].endswith(str(want)) and "UNIX_EPOCH" in show(x.a[1][0]) and (r is x or payload_of(r, "Some") is F(x, "+Some", "0"))
                    if ok:
                        d = x.a[1][1]
                        fns = [y.a[0].rsplit("::", 1)[1] for y in walk(d) if y.op in ("call", "pure")]
                        ok = set(fns) <= {"duration_since", "duration", "try_into", "try_from"} and mentions(d, lambda y: y is since[0])
            c.ob("time", "system time", ok, why, "time|system", p.span)
    c.floor("time conversions", k, 4)
    for b in anchored(c, r"time::utc_now$"):
        for p in c.paths_of(b, events="."):
            r = plain(p.ret)
            c.ob("time", "now", p.end == "return" and bool(re.search(r"SystemTime::now$", call_name(r))), f"now is {show(p.ret)[:100]}", "time|now", p.span)


# ------------------------------------------------------------------ S13
def err_fields(P, v):
    """(loc, kind, args) of an Error value, by the type's own field names"""
    for x in walk(v):
        if x.op == "agg" and x.a[0] == "adt" and x.a[1].endswith("ErrorImpl"):
            return agg_field(x, "loc"), agg_field(x, "kind"), agg_field(x, "args")
    return None


def kind_of(v):
    """('Msg', payload) etc."""
    if v.op == "agg":
        return v.a[2], (v.a[4] if len(v.a) > 4 else None)
    return None, v


@check("S13")
def s13(c):
    P = program()
    s = mk("arg", "self")
    c.rule("accessors", "location, kind and arguments of an error are the ones it was made with")
    c.rule("kind", "converting an error or a text to an error kind keeps its whole text")
    c.rule("context", "adding context leaves a success as it is and turns a failure into an error with the given location, the failure's text and the given arguments")
    c.rule("map", "a mapping function yields an error with its location, the mapped error (its text, or the error itself when wrapping) and its arguments")
    c.rule("text", "an error prints its location, its message and its arguments, leaving out what it does not have, and never nothing")
    c.rule("log", "logging a failure keeps a success's value and logs the message with the error at error level")
    c.rule("severity", "the severities are the protocol's numbers, and each prints its own name")

    def find(rx):
        bs = {b.name: b for b in reversed(fn_by(P, rx, "tinymist_std"))}
        c.anchor(rx, bs)
        return list(bs.values())

    n = 0
    for b in find(r"error::Error::new$"):
        for p in c.paths_of(b, events="."):
            f = err_fields(P, p.ret)
            ok = p.end == "return" and f is not None and f[0] is mk("arg", "loc") and f[1] is mk("arg", "kind") and f[2] is mk("arg", "args")
            c.ob("accessors", "new", ok, f"makes {show(p.ret)[:140]}", "acc|new", p.span)
    for nm, fld in (("loc", "loc"), ("kind", "kind")):
        for b in find(r"error::Error::%s$" % nm):
            for p in c.paths_of(b, events="."):
                r = p.ret
                ok = p.end == "diverge" or p.end == "return" and r.op == "proj" and r.a[1] == ("f", fld) and base(r) is s and not calls_in(r, ".")
                c.ob("accessors", nm, ok, f"is {show(r)[:100]}", f"acc|{nm}", p.span)
    for b in find(r"error::Error::arguments$"):
        for p in c.paths_of(b, events="."):
            if p.end == "diverge":
                continue
            r = p.ret
            while r.op == "proj" and r.a[1] == ("f", "0") and r.a[0].op == "proj" and r.a[0].a[1][0] == "f":  # through the box
                r = r.a[0]
            av = [v for v in p.facts if v.op == "proj" and v.a[1] == ("f", "args")]
            w = p.variant(av[0]) if av else None
            ok = w == "Some" and r is F(av[0], "+Some", "0") or w == "None" and (call_name(r).endswith("Default>::default") or r.op == "agg" and len(r.a) <= 4 or const_of(r) is not None)
            c.ob("accessors", "arguments", p.end == "return" and ok, f"with arguments {w}: {show(r)[:100]}", "acc|arguments", p.span)
    ks = find(r"ErrKindExt>::to_error_kind$")
    for b in ks:
        web = "JsValue" in b.name
        for p in feasible(c.paths_of(b, events=".")):
            n += 1
            if p.end == "diverge" and not debug_only(p) and all(f != ("eq", "Err") for f in p.facts.values()):
                c.ob("kind", b.name, False, "panics", f"kind|{b.name}|panic", p.span)
                continue
            if p.end != "return":
                continue
            r = p.ret
            if r is s:
                ok = "ErrKind as" in b.name
            else:
                k, x = kind_of(r)
                if k == "Msg":
                    t = content(x)
                    ok = len(t) == 1 and isinstance(t[0], tuple) and plain(t[0][1]) is s and (t[0][2] == "display" or web)
                else:
                    ok = k == "Inner" and x is s
            c.ob("kind", b.name, bool(ok), f"becomes {show(r)[:140]}", f"kind|{b.name}", p.span)
    c.floor("error kinds", n, 10)

    def made(p, what, loc, check_kind, args_ok, rule, key):
        f = err_fields(P, p.ret)
        ok = f is not None
        c.ob(rule, what, ok, f"{p.end}: no error is made: {show(p.ret)[:120]}", key + "|none", p.span)
        if not ok:
            return
        c.ob(rule, f"{what} location", f[0] is loc, f"the location is {show(f[0])[:100]}", key + "|loc", p.span)
        c.ob(rule, f"{what} message", check_kind(f[1]), f"the kind is {show(f[1])[:140]}", key + "|kind", p.span)
        c.ob(rule, f"{what} arguments", args_ok(f[2]), f"the arguments are {show(f[2])[:140]}", key + "|args", p.span)

    def is_called(v, f):
        return v.op == "call" and re.search(r"FnOnce::call_once$", v.a[0]) and v.a[1][0] is f or call_name(v).endswith("call_once") and v.a[1][0] is f

    k = 0
    for ty, ok_v, bad_v in (("Result", "Ok", "Err"), ("Option", "Some", "None")):
        for tr in ("WithContext", "WithContextUntyped"):
            for fn in ("context", "with_context", "context_ut", "with_context_ut"):
                if (tr == "WithContextUntyped") != fn.endswith("_ut") or ty == "Option" and fn.endswith("_ut"):
                    continue
                for b in find(r"<std::%s::%s as error::%s>::%s$" % (ty.lower(), ty, tr, fn)):
                    seen = set()
                    for p in feasible(c.paths_of(b, events=".")):
                        v = p.variant(s)
                        seen.add(v)
                        k += 1
                        key = f"context|{ty}|{fn}"
                        if v == ok_v:
                            good = p.end == "return" and p.variant(p.ret) == "Ok" and payload_of(p.ret, "Ok") is F(s, "+" + ok_v, "0")
                            c.ob("context", f"{ty} {fn} success", good, f"a success becomes {show(p.ret)[:100]}", key + "|ok", p.span)
                            called = [e for e in p.events if e.kind == "call" and e.name.endswith("call_once")]
                            c.ob("context", f"{ty} {fn} lazy", not called, "the arguments are computed for a success", key + "|lazy", p.span)
                            continue
                        c.ob("context", f"{ty} {fn} failure", p.end == "return" and v == bad_v and p.variant(p.ret) == "Err", f"{p.end} {v}: {show(p.ret)[:100]}", key + "|fail", p.span)
                        ev = F(s, "+Err", "0")

                        def kind_ok(x, ty=ty, fn=fn):
                            kk, y = kind_of(x)
                            if ty == "Option":
                                return kk == "None"
                            if kk == "Msg":
                                t = content(y)
                                return len(t) == 1 and isinstance(t[0], tuple) and plain(t[0][1]) is ev and t[0][2] == "display"
                            return not fn.endswith("_ut") and call_name(x).endswith("to_error_kind") and x.a[1][0] is ev

                        def args_ok(x, fn=fn):
                            return bool(is_called(x, mk("arg", "f"))) if "with_" in fn else agg_variant(x) == "None"

                        made(p, f"{ty} {fn}", mk("arg", "loc"), kind_ok, args_ok, "context", key)
                    c.ob("context", f"{ty} {fn} both cases", seen == {ok_v, bad_v}, f"{seen}", f"context|{ty}|{fn}|cases")
    c.floor("context paths", k, 12)
    k = 0
    for fn in ("map_string_err", "map_into_err", "map_err", "wrap_err", "map_string_err_with_args", "map_into_err_with_args", "map_err_with_args", "wrap_err_with_args"):
        for b in find(r"error::prelude::%s$" % fn):
            for p in c.paths_of(b, events="."):
                clo = p.ret
                cb = P.bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
                c.ob("map", fn, cb is not None, f"returns {show(clo)[:100]}", f"map|{fn}|closure", p.span)
                if cb is None:
                    continue
                for q in feasible(c.paths_of(cb, events=".", args={1: clo})):
                    k += 1
                    if q.end != "return":
                        c.ob("map", fn, False, f"{q.end}", f"map|{fn}|end", q.span)
                        continue
                    e = mk("arg", "e")

                    def root(x):
                        while x.op in ("call", "pure") and (CONVERT.search(x.a[0]) or x.a[0].endswith("to_error_kind")) and x.a[1]:
                            x = x.a[1][0]
                        return x

                    def kind_ok(x, fn=fn):
                        kk, y = kind_of(x)
                        if fn.startswith("wrap"):
                            return kk == "Inner" and is_param(y, cb)
                        if kk == "Msg":
                            t = content(y)
                            return len(t) == 1 and isinstance(t[0], tuple) and is_param(root(t[0][1]), cb)
                        return call_name(x).endswith("to_error_kind") and is_param(root(x), cb)

                    def args_ok(x, fn=fn):
                        if not fn.endswith("with_args"):
                            return agg_variant(x) == "None"
                        y = payload_of(x, "Some")
                        return agg_variant(x) == "Some" and mentions(y, lambda z: z is mk("arg", "args")) and not calls_in(y, r"::(rev|skip|filter\w*|take|step_by|chain|map)$")

                    made(q, fn, mk("arg", "loc"), kind_ok, args_ok, "map", f"map|{fn}")
    c.floor("mapping functions", k, 8)
    for fn, lc, kd, ag in (("_error_once", "loc", "None", "args"), ("_msg", "loc", "Msg", None)):
        for b in find(r"error::prelude::%s$" % fn):
            for p in c.paths_of(b, events="."):
                made(p, fn, mk("arg", lc), lambda x: kind_of(x)[0] == kd and (kd == "None" or plain(kind_of(x)[1]) is mk("arg", "msg")), lambda x: agg_variant(x) == "None" if ag is None else agg_variant(x) == "Some" and payload_of(x, "Some") is mk("arg", ag), "map", f"map|{fn}")
    for b in find(r"<error::Error as std::convert::From>::from$"):
        for p in c.paths_of(b, events="."):
            e = mk("arg", "e")
            made(p, "from anyhow", mk("const", "") if False else err_fields(P, p.ret)[0] if err_fields(P, p.ret) and const_of(err_fields(P, p.ret)[0]) == "" else mk("none"),
                 lambda x: kind_of(x)[0] == "Msg" and plain(kind_of(x)[1]) is e, lambda x: agg_variant(x) == "None", "map", "map|from")
    for b in find(r"JsValue as std::convert::From>::from$"):
        for p in c.paths_of(b, events="."):
            x = p.ret
            js = calls_in(x, r"js_sys::Error::new$")
            t = content(js[0].a[1][0]) if js else []
            ok = p.end == "return" and len(t) == 1 and isinstance(t[0], tuple) and plain(t[0][1]) is mk("arg", "e") and t[0][2] == "display"
            c.ob("map", "to JavaScript", ok, f"becomes {show(x)[:120]}", "map|js", p.span)
    # what is printed
    f = mk("arg", "f")
    k = 0
    for b in find(r"<error::Error as std::fmt::Display>::fmt$"):
        for p in c.paths_of(b, events=".", keep_log=True):
            if p.end != "return":
                c.ob("text", "no panic", p.end == "diverge" and debug_only(p), f"{p.end} under {[(show(v)[:60], g) for v, g in p.facts.items()]}", "text|panic", p.span)
                continue
            out, ok, failed = written(p, f)
            c.ob("text", "outcome", ok, f"the outcome {show(p.ret)[:80]} is not that of the writes", "text|outcome", p.span)
            if failed:
                continue
            k += 1

            def fld(name):
                vs = [v for v in p.facts if v.op == "proj" and v.a[1] == ("f", name) and base(v) is s]
                vs += [x for a in out if isinstance(a, tuple) for x in walk(a[1]) if x.op == "proj" and x.a[1] == ("f", name) and base(x) is s]
                return vs[0] if vs else None

            loc, kind, args = [v for v in p.facts if call_name(v).endswith("is_empty")], fld("kind"), fld("args")
            e0 = next((x.a[0] for x in (kind, args) if x is not None), None)
            if e0 is None:
                c.ob("text", "looks at the kind", False, f"writes {[show(a[1])[:50] if isinstance(a, tuple) else a for a in out]} whatever the kind", "text|blind", p.span)
                continue
            L, K, A = (mk("proj", e0, ("f", x)) for x in ("loc", "kind", "args"))
            kv = p.variant(K)
            want = []
            le = is_empty_text(p, L)
            if le is not True:
                want.append(("arg", L, "display"))
            msg = {"Msg": F(K, "+Msg", "0"), "Inner": F(K, "+Inner", "0")}.get(kv)
            if kv == "Diag":
                cands = [x for a in out if isinstance(a, tuple) for x in walk(a[1]) if x.op == "proj" and x.a[1] == ("f", "message") and mentions(x, lambda y: y is F(K, "+Diag", "0"))]
                msg = cands[0] if cands else mk("none")
            me = is_empty_text(p, msg) if kv == "Msg" else False
            if msg is not None and me is not True:
                want += ([": "] if want else []) + [("arg", msg, "display")]
            av = p.variant(A)
            tail = []
            if av == "Some":
                tail = [", with ", ("arg", F(A, "+Some", "0"), "debug")]
            elif av is None:
                tail = None
            got = list(out)
            if kv == "None" and le is True:
                ok = bool(got) and isinstance(got[0], str) and got[0].strip(", ") != ""
                if ok and tail:
                    ok = got[0].endswith(", with ") and len(got[0]) > len(", with ") and got[1:] == tail[1:]
                elif ok:
                    ok = tail == [] and len(got) == 1
            else:
                full = want + (tail or [])
                m = []
                for x in full:
                    if isinstance(x, str) and m and isinstance(m[-1], str):
                        m[-1] += x
                    else:
                        m.append(x)
                ok = tail is not None and kv is not None and (le is not None or kv is None) and got == m
                # a message and a location that may both be empty must have been looked at
                if kv == "Msg" and le is False and me is None:
                    ok = False
            c.ob("text", f"{kv} location {'empty' if le else 'given'}{' message empty' if me else ''}{' with arguments' if av == 'Some' else ''}", ok,
                 f"writes {[show(a[1])[-60:] + ':' + a[2] if isinstance(a, tuple) else a for a in got]}", f"text|{kv}|{le}|{av}", p.span)
    c.floor("printed forms", k, 16)
    for b in find(r"<error::Error as std::fmt::Debug>::fmt$"):
        ps = c.paths_of(b, events=".", opaque=r"<error::Error as std::fmt::Display>::fmt$")
        for p in ps:
            r = p.ret
            es = evs(p, r"Error as std::fmt::Display>::fmt$|Formatter::write_fmt$", "call")
            t = content(es[0].args[1]) if len(es) == 1 and es[0].name.endswith("write_fmt") else None
            ok = p.end == "return" and len(es) == 1 and es[0].res is r and (t is None and es[0].args[0] is s or t == [("arg", s, "display")])
            c.ob("text", "debug text", ok, f"{p.end} {show(r)[:120]}", "text|debug", p.span)
    # logging
    k = 0
    for fn in ("log_error", "log_error_with"):
        for b in find(r"IgnoreLogging>::%s$" % fn):
            for p in c.paths_of(b, events=".", keep_log=True):
                k += 1
                v, rv = p.variant(s), p.variant(p.ret)
                if v == "Ok":
                    c.ob("log", f"{fn} success", p.end == "return" and rv == "Some" and payload_of(p.ret, "Some") is F(s, "+Ok", "0"), f"a success becomes {show(p.ret)[:100]}", f"log|{fn}|ok", p.span)
                    continue
                c.ob("log", f"{fn} failure", p.end == "return" and v == "Err" and rv == "None", f"{p.end} {v} becomes {show(p.ret)[:100]}", f"log|{fn}|err", p.span)
                logs = evs(p, r"log::__private_api::log$", "call")
                off = [g for x, g in p.facts.items() if "log::Level as" in call_name(x) and g == ("eq", "0")]
                if off and not logs:
                    continue
                t = content(logs[0].args[1]) if len(logs) == 1 else None
                lv = [agg_variant(a) for e in logs for a in e.args if agg_named(a, "log::Level")]
                ok = t is not None and any(isinstance(x, tuple) and x[1] is F(s, "+Err", "0") for x in t) and "Error" in lv
                m = mk("arg", "msg") if fn == "log_error" else None
                if ok:
                    ok = any(isinstance(x, tuple) and (x[1] is m if m is not None else calls_in(x[1], r"FnOnce::call_once$")) for x in t)
                c.ob("log", f"{fn} text", bool(ok), f"logs {[show(x[1])[:60] if isinstance(x, tuple) else x for x in t or []]} at {lv}", f"log|{fn}|text", p.span)
    c.floor("logging paths", k, 4)
    # severities
    NAMES = {"Error": ("error", 1), "Warning": ("warning", 2), "Information": ("information", 3), "Hint": ("hint", 4)}
    seen = set()
    for b in find(r"DiagSeverity as std::fmt::Display>::fmt$"):
        for p in c.paths_of(b, events="."):
            v = p.variant(s)
            out, ok, failed = written(p, f)
            if failed:
                continue
            seen.add(v)
            c.ob("severity", f"{v}", ok and v in NAMES and out == [NAMES[v][0]], f"{v} prints {out}", f"severity|{v}", p.span)
    c.ob("severity", "all severities", seen == set(NAMES), f"{seen}", "severity|all")
    adt = [a for n_, a in P.adts.items() if n_ == "error::DiagSeverity"]
    for a in c.anchor("DiagSeverity", adt):
        have = {v["n"]: int(v["d"]) for v in a["v"]}
        c.ob("severity", "numbers", have == {k_: x[1] for k_, x in NAMES.items()}, f"the numbers are {have}", "severity|numbers")


def is_param(v, body):
    """v is a parameter of the closure"""
    return v.op == "arg" and v.a[0] not in ("self", "loc", "args")
