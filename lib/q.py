"""small query helpers over abstract values and paths"""
import re
from mir import *



def F(v, *fs):
    """projection chain: 'Variant' (capitalised with a leading '+') or field name"""
    for f in fs:
        v = mk("proj", v, ("d", f[1:])) if f.startswith("+") else mk("proj", v, ("f", f))
    return v


def strip_ref(v):
    while v.op == "ref" and False:
        v = v.a[0]
    return v


def base(v):
    """innermost value a projection/clone chain starts from"""
    while v.op in ("proj", "upd", "cast", "mut", "loop") and isinstance(v.a[0] if v.op != "cast" else v.a[1], V):
        v = v.a[1] if v.op == "cast" else v.a[0]
    return v


def has_call(v, rx):
    return bool(calls_in(v, rx))


def agg_variant(v):
    return v.a[2] if v.op == "agg" and v.a[0] == "adt" else None


def agg_field(v, name):
    if v.op == "agg" and name in v.a[3]:
        return v.a[4 + v.a[3].index(name)]
    return None


def agg_named(v, adt_suffix, variant=None):
    return [x for x in walk(v) if x.op == "agg" and x.a[0] == "adt" and x.a[1].endswith(adt_suffix) and (variant is None or x.a[2] == variant)]


def evs(p, rx, kind=None):
    r = re.compile(rx)
    return [e for e in p.events if (kind is None or e.kind == kind) and r.search(e.name)]


def is_const_str(v, s):
    return is_const(v) and cval(v) == s


def str_tests(p):
    """{(value, string): bool} equality facts with string constants on the path"""
    out = {}
    for v, f in p.facts.items():
        if v.op == "bin" and v.a[0] == "Eq" and f[0] == "eq":
            a, b = v.a[1], v.a[2]
            for x, y in ((a, b), (b, a)):
                if is_const(y) and isinstance(cval(y), str):
                    out[(x, cval(y))] = f[1] == "1"
    return out


def fn_by(prog, rx, crate=None, sig=None):
    """bodies of the functions with that name whose signature (inputs) matches sig"""
    r = re.compile(rx)
    out = []
    for f in prog.fns:
        if r.search(f["name"]) and (crate is None or f["crate"] == crate):
            if sig is None or re.search(sig, " ".join(f["in"]) + " -> " + f["out"]):
                b = prog.bodies.get((f["crate"], f["id"]))
                if b is not None:
                    out.append(b)
    return out


def const_of(v):
    return cval(v) if is_const(v) else None


def ref_target(v):
    return v


# ------------------------------------------------------------- text content
def fmt_parts(v):
    """[str | ('arg', argument value, formatter) | ('opt', ...)], options marked by '*' on the formatter, of a fmt::Arguments value, or None"""
    if v.op not in ("pure", "call") or "fmt::Arguments" not in v.a[0]:
        return None
    args = v.a[1]
    if re.search(r"from_str", v.a[0]):
        s = const_of(args[0])
        return [s] if isinstance(s, str) else None
    t = const_of(args[0])
    if isinstance(t, str):
        bs = list(t.encode("latin-1", "replace"))
    elif isinstance(t, dict) and "bytes" in t:
        bs = t["bytes"]
    else:
        return None
    arr = args[1] if len(args) > 1 else None
    items = list(arr.a[4:]) if arr is not None and arr.op == "agg" else []
    out, i, k = [], 0, 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i + 1 : i + 1 + b]).decode("utf-8", "replace"))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(bytes(bs[i + 3 : i + 3 + n]).decode("utf-8", "replace"))
            i += 3 + n
        else:
            i += 1
            opt = b != 0xC0
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                k = bs[i] | bs[i + 1] << 8
                i += 2
            if k >= len(items):
                return None
            a = items[k]
            k += 1
            if a.op in ("pure", "call") and "rt::Argument::new_" in a.a[0]:
                out.append(("opt" if opt else "arg", a.a[1][0], a.a[0].rsplit("new_", 1)[1] + ("*" if opt else "")))
            else:
                return None
    return out


def _merge(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


TRANSPARENT_TEXT = re.compile(r"(::as_bytes|::as_str|::into_bytes|::as_slice|::to_owned|::to_string|::to_vec|::as_ref|::borrow|::deref|::into|::from|::into_boxed_str|str::from_utf8_unchecked|::as_mut_str|::as_mut)$")
APPEND = re.compile(r"(push_str|AddAssign>::add_assign|extend_from_slice|Write>?::write_all|Write>?::write_str|write_fmt|String::push|Vec::push)$")


def content(v, d=0):
    """text a string/byte value stands for, as literal pieces and atoms; atoms are ('arg', V, 'display') """
    if d > 12:
        return [("arg", v, "display")]
    s = const_of(v)
    if isinstance(s, str) and v.op == "const":
        return [s]
    if isinstance(s, dict) and "bytes" in s:
        return [bytes(s["bytes"]).decode("utf-8", "replace")]
    if v.op in ("pure", "call"):
        n = v.a[0]
        f = fmt_parts(v)
        if f is not None:
            out = []
            for x in f:
                out += [x] if isinstance(x, str) else content(x[1], d + 1) if x[0] == "arg" and x[2] == "display" else [x]
            return _merge(out)
        if re.search(r"fmt::format$", n) and v.a[1]:
            return content(v.a[1][0], d + 1)
        if TRANSPARENT_TEXT.search(n) and v.a[1]:
            return content(v.a[1][0], d + 1)
        if re.search(r"(String|Vec)::(new|with_capacity)$", n):
            return []
        if re.search(r"\[T\]::(join|concat)$|slice::(Join|Concat)", n) and v.a[1][0].op == "agg" and v.a[1][0].a[0] == "array" and (len(v.a[1]) < 2 or const_of(v.a[1][1]) == ""):
            return _merge([y for x in v.a[1][0].a[4:] for y in content(x, d + 1)])
    if is_cow(v):
        return content(v.a[4], d + 1)
    if v.op == "mut" and isinstance(v.a[0], V) and v.a[0].op == "call" and APPEND.search(v.a[0].a[0]) and v.a[1] == 0:
        return _merge(content(v.a[2], d + 1) + content(v.a[0].a[1][1], d + 1))
    return [("arg", v, "display")]


def is_cow(v):
    return v.op == "agg" and str(v.a[1]).endswith("borrow::Cow") and len(v.a) == 5


def len_of(v):
    """the value whose byte length v is, or None"""
    while v.op == "cast":
        v = v.a[1]
    if v.op in ("pure", "call") and re.search(r"(str|String|Vec|slice|\[T\])::len$|::len$", v.a[0]):
        return v.a[1][0]
    return None


def always_variant(ps, p, v, name):
    """v has the given variant on p: known there, or a loop variable that starts as it and stays it on every iteration"""
    if p.variant(v) == name:
        return True
    if v.op != "loop" or p.variant(v) is not None:
        return False
    init = v.a[3]
    if not (agg_variant(init) == name or p.variant(init) == name):
        return False
    for q in ps:
        if q.end != "loop":
            continue
        nx = q.loop_next(v)
        if nx is None or nx is v or q.variant(nx) == name:
            continue
        return False
    return True


def callers_of(P, b):
    """the functions that call b (closures count as the functions they are in)"""
    cache = P.__dict__.setdefault("_callers", {})
    if not cache:
        for u in P.bodies.values():
            for bl in u.blocks:
                t = bl and bl["t"]
                if t and t["t"] == "call" and t["f"].get("k") == "fn":
                    cache.setdefault(t["f"]["c"].get("p", "").split("::")[-1], []).append((t["f"]["c"], u))
        cache[""] = []
    return [u for x, u in cache.get(b.name.split("::")[-1], ()) if x.get("p", "").endswith(b.name) and x.get("krate", "") == b.crate]


def helper_of(P, b, rx, seen=()):
    """b is one of the functions rx names, or is called by nothing but them"""
    if re.search(rx, b.name):
        return True
    cs = callers_of(P, b)
    return bool(cs) and all(u.name in seen or helper_of(P, u, rx, seen + (b.name,)) for u in cs)
