"""tinymist-std: fingerprints, hashing, sharded maps, queries, paths, values, errors, time."""
from core import check, program
from q import *
from fsys import same, under_mut, call_name, payload, some, base

STD = "tinymist_std"
EVAL = {}


# ------------------------------------------------------------ bit provenance
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i32": 32, "i64": 64}


def bits(v, width, leaf):
    """which input bit each bit of v is: list (low first) of 0, 1 or (input, i); None where unknown"""
    k = const_of(v)
    if v.op == "const":
        try:
            k = int(k)
        except (TypeError, ValueError):
            return [None] * width
        return [(k >> i) & 1 for i in range(width)]
    w = leaf(v)
    if w is not None:
        return [(v, i) if i < w else 0 for i in range(width)]
    if v.op == "cast":
        w = WIDTH.get(str(v.a[0]))
        b = bits(v.a[1], 128, leaf)
        return [b[i] if w and i < w else 0 for i in range(width)]
    if v.op in ("call", "pure") and TRANSPARENT_NUM.search(v.a[0]):
        return bits(v.a[1][0], width, leaf)
    if v.op == "bin" and str(v.a[0]) in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
        n = const_of(v.a[2])
        if n is None:
            return [None] * width
        n, b = int(n), bits(v.a[1], 128, leaf)
        return [(b[i - n] if i >= n else 0) if str(v.a[0]).startswith("Shl") else (b[i + n] if i + n < 128 else 0) for i in range(width)]
    if v.op == "bin" and v.a[0] in ("BitOr", "BitAnd", "BitXor", "Add"):
        x, y = bits(v.a[1], width, leaf), bits(v.a[2], width, leaf)
        if v.a[0] == "BitAnd":
            return [b if a == 1 else a if b == 1 else 0 if 0 in (a, b) else a if a == b else None for a, b in zip(x, y)]
        if v.a[0] == "Add" and any(a != 0 and b != 0 for a, b in zip(x, y)):
            return [None] * width
        return [b if a == 0 else a if b == 0 else (a if v.a[0] == "BitOr" and a == b else None) for a, b in zip(x, y)]
    return [None] * width


TRANSPARENT_NUM = re.compile(r"<u(8|16|32|64|128|size) as std::convert::From>::from$|Into>?::into$")


def feasible(ps):
    """drop the paths on which formatting into a string fails: it cannot"""
    def ok(p):
        for v, f in p.facts.items():
            if f == ("eq", "Err") and v.op in ("call", "pure") and re.search(r"(EcoString|String) as std::fmt::Write>::write_(fmt|str|char)$", v.a[0]):
                return False
        return True
    return [p for p in ps if ok(p)]


# ------------------------------------------------------------------ S07
ENC, DEC = r"base64::Engine::encode$", r"base64::Engine::decode$"


def closure_is(c, clo, want):
    """the predicate closure is `byte == 0` (want True) on all its paths"""
    b = program().bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
    if b is None:
        return None
    ps = c.paths_of(b)
    def eq0(v):
        if v.op == "bin" and v.a[0] == "Eq":
            ks = [x for x in v.a[1:] if x.op == "const" and str(cval(x)) == "0"]
            return len(ks) == 1
        return False
    for p in ps:
        if p.end != "return":
            return False
        r = p.ret
        if eq0(r):
            got = True
        elif r.op == "not" and eq0(r.a[0]):
            got = False
        elif r.op == "bin" and r.a[0] in ("Ne", "Gt", "Lt") and any(x.op == "const" and str(cval(x)) == "0" for x in r.a[1:]):
            got = False
            if r.a[0] == "Gt" and str(const_of(r.a[2])) != "0" or r.a[0] == "Lt" and str(const_of(r.a[1])) != "0":
                return False
        elif r.op == "bin" and r.a[0] == "Lt" and str(const_of(r.a[2])) == "1":
            got = True
        elif r.op in ("bin", "not", "const"):
            return False  # some other comparison
        else:
            return None
        if got != want:
            return False
    return True


def zero_tail(c, p, end, arr):
    """`end` is the length of `arr` without its trailing zero bytes: True/False, None if not recognised"""
    while end.op == "cast":
        end = end.a[1]
    n = call_name(end)
    if str(const_of(end)) == "0":  # no byte that is not zero
        rp = [v for v, f in p.facts.items() if f == ("eq", "None") and n is not None and call_name(v).endswith("::rposition")]
        its = [under_mut(v.a[1][0]) for v in rp]
        return any(re.search(r"::iter$", call_name(i)) and i.a[1][0] is arr and closure_is(c, v.a[1][1], False) for v, i in zip(rp, its))
    if n.endswith("::count"):
        s = end.a[1][0]
        if not call_name(s).endswith("::skip_while"):
            return False
        r = s.a[1][0]
        if not (call_name(r).endswith("::rev") and re.search(r"::(iter|into_iter)$", call_name(r.a[1][0])) and r.a[1][0].a[1][0] is arr):
            return r is arr or False
        return closure_is(c, s.a[1][1], True)
    lz = calls_in(end, r"u64::leading_zeros$")
    if lz and any(arr.op in ("call", "pure") and x.a[1][0] is arr.a[1][0] for x in lz):
        x = end
        def div8(v):
            while v.op == "cast":
                v = v.a[1]
            if v.op == "bin" and v.a[0] in ("Div", "Shr", "ShrUnchecked"):
                k, m = v.a[1], v.a[2]
                while k.op == "cast":
                    k = k.a[1]
                return k in lz and str(const_of(m)) == ("8" if v.a[0] == "Div" else "3")
            return False
        if x.op == "proj":
            x = x.a[0]
        return x.op == "bin" and str(x.a[0]).startswith("Sub") and str(const_of(x.a[1])) == "8" and div8(x.a[2])
    rp = calls_in(end, r"::rposition$")
    tw = calls_in(end, r"::take_while$")
    if tw and calls_in(end, r"::count$"):
        x = end.a[0] if end.op == "proj" else end
        it = tw[0].a[1][0]
        src_ok = call_name(it).endswith("::rev") and re.search(r"::(iter|into_iter)$", call_name(it.a[1][0])) and it.a[1][0].a[1][0] is arr
        sub = x.op == "bin" and str(x.a[0]).startswith("Sub") and (str(const_of(x.a[1])) == "8" or call_name(x.a[1]).endswith("::len")) and call_name(x.a[2]).endswith("::count")
        return closure_is(c, tw[0].a[1][1], True) if src_ok and sub else False
    if rp:
        x = rp[0]
        it = x.a[1][0]
        it = under_mut(it)
        if not (re.search(r"::iter$", call_name(it)) and it.a[1][0] is arr):
            return False
        plus = end.op == "bin" and str(end.a[0]).startswith("Add") or end.op == "proj"
        return closure_is(c, x.a[1][1], False) if plus else False
    if end.op == "loop":
        if str(const_of(end.a[3])) != "8":
            return False
        for q in p.siblings:
            if q.end != "loop":
                continue
            nx = q.loop_next(end)
            if nx is None or nx is end:
                continue
            y = nx.a[0] if nx.op == "proj" else nx
            step = y.op == "bin" and str(y.a[0]).startswith("Sub") and y.a[1] is end and str(const_of(y.a[2])) == "1"
            zero = any(f in (("eq", "1"), ("eq", "0")) and mentions(v, lambda z: z is arr) for v, f in q.facts.items())
            if not (step and zero):
                return False
        return True
    if calls_in(end, r"::(position|find|memchr)$") and not calls_in(end, r"::rev$"):
        return False  # the first, not the last, byte of some kind
    if calls_in(end, r"::(count|skip_while|take_while|leading_zeros|trailing_zeros|rposition)$") or end.op in ("const", "bin"):
        return False  # such a count, but not of the zero tail alone
    return None


@check("S07")
def s07(c):
    P = program()
    c.rule("pair", "the 128-bit, pair and 32-bit views of a fingerprint are the same bits")
    c.rule("encode", "the text of a fingerprint is the prefix, the base64 of the low word's little-endian bytes and, unless the high word is zero, that of the high word's bytes without its zero tail")
    c.rule("decode", "text is split after 11 characters; the first part decodes to the low word, the rest, filled up with zeros, to the high word")
    c.rule("total", "text that is no fingerprint is an error, never a panic")
    c.rule("serde", "a fingerprint is serialized as its text without prefix and deserialized from it")
    c.rule("eq", "two fingerprints are equal exactly if both words are")
    lo = lambda v: F(v, "lo")
    hi = lambda v: F(v, "hi")

    def one(rx):
        bs = fn_by(P, rx, STD)
        c.anchor(rx, bs)
        return bs[:1]

    for rx, want in ((r"Fingerprint::to_u128$", None), (r"Fingerprint::lower32$", None)):
        for b in one(rx):
            s = mk("arg", "self")
            for p in c.paths_of(b, asserts=True):
                leaf = lambda v: 64 if v in (lo(s), hi(s)) else None
                w = 128 if "128" in rx else 32
                got = bits(p.ret, w, leaf) if p.end == "return" else []
                exp = ([(lo(s), i) for i in range(64)] + [(hi(s), i) for i in range(64)])[:w]
                c.ob("pair", rx.strip("$"), got == exp, f"returns {show(p.ret)[:120]}", "pair|" + rx, p.span)
    for b in one(r"Fingerprint::from_u128$"):
        h = mk("arg", "hash")
        for p in c.paths_of(b, asserts=True):
            leaf = lambda v: 128 if v is h else None
            r = p.ret
            ok = r.op == "agg" and bits(agg_field(r, "lo"), 64, leaf) == [(h, i) for i in range(64)] and bits(agg_field(r, "hi"), 64, leaf) == [(h, i + 64) for i in range(64)]
            c.ob("pair", "from_u128", ok, f"returns {show(r)[:120]}", "pair|from_u128", p.span)
    for b in one(r"Fingerprint::from_pair$"):
        for p in c.paths_of(b):
            ok = p.ret.op == "agg" and agg_field(p.ret, "lo") is mk("arg", "lo") and agg_field(p.ret, "hi") is mk("arg", "hi")
            c.ob("pair", "from_pair", ok, f"returns {show(p.ret)[:120]}", "pair|from_pair", p.span)

    engine = set()
    n = 0
    for b in one(r"Fingerprint::as_svg_id$"):
        s, pre = mk("arg", "self"), mk("arg", "prefix")
        ps = c.paths_of(b, events=".", cut=".")
        for p in ps:
            p.siblings = ps
        for p in ps:
            if p.end == "loop":
                continue
            if p.end != "return":
                c.ob("total", "as_svg_id", False, f"{p.end}", "total|as_svg_id", p.span)
                continue
            n += 1
            parts = content(p.ret)
            vs = [x[1] if isinstance(x, tuple) else x for x in parts]
            ok = len(vs) in (2, 3) and vs[0] is pre
            c.ob("encode", "prefix first", ok, f"the text is {[show(x)[:60] if isinstance(x, V) else x for x in vs]}", "encode|parts", p.span)
            if not ok:
                continue
            for x in vs[1:]:
                ok = isinstance(x, V) and re.search(ENC, call_name(x))
                c.ob("encode", "base64", ok, f"a part is {x if isinstance(x, str) else show(x)[:80]}", "encode|b64", p.span)
                if ok:
                    engine.add(x.a[1][0])
            if not all(isinstance(x, V) and re.search(ENC, call_name(x)) for x in vs[1:]):
                continue
            a = vs[1].a[1][1]
            ok = call_name(a) == "u64::to_le_bytes" and a.a[1][0] is lo(s)
            c.ob("encode", "low word", ok, f"the first word encoded is {show(a)[:100]}", "encode|lo", p.span)
            zero = any(v.op == "bin" and v.a[0] == "Eq" and f == ("eq", "1") and hi(s) in v.a[1:] and any(str(const_of(x)) == "0" for x in v.a[1:]) for v, f in p.facts.items()) or p.facts.get(hi(s)) == ("eq", "0")
            if len(vs) == 2:
                c.ob("encode", "high word left out", zero, "the high word is left out though it need not be zero", "encode|nohi", p.span)
                continue
            x = vs[2].a[1][1]
            while call_name(x).endswith(("::index", "::split_at")) or x.op == "proj":
                if x.op == "proj":
                    x = base(x)
                    continue
                arr, r = x.a[1][0], x.a[1][1]
                end = agg_field(r, "end") if r.op == "agg" and r.a[1].endswith("RangeTo") else None
                if r.op == "agg" and r.a[1].endswith("Range") and str(const_of(agg_field(r, "start"))) == "0":
                    end = agg_field(r, "end")
                z = zero_tail(c, p, end, arr) if end is not None else False
                if z is None:
                    c.note(f"length of the high word's text not recognised, taken as is: {show(end)[:120]}")
                c.ob("encode", "high word without its zero tail", z is not False, f"the high word is cut at {show(end)[:200] if end is not None else show(r)[:200]}", "encode|tail", p.span)
                x = arr
            ok = call_name(x) == "u64::to_le_bytes" and x.a[1][0] is hi(s)
            c.ob("encode", "high word", ok, f"the second word encoded is {show(x)[:100]}", "encode|hi", p.span)
    m = 0
    for b in one(r"Fingerprint::try_from_str$"):
        s = mk("arg", "s")
        lens = {"Ok": set(), "Err": set()}
        for p in feasible(c.paths_of(b, events=".", cut=".", asserts=True)):
            ds = [v for v in p.facts if re.search(DEC, call_name(v))]
            d1 = [v for v in ds if is_piece(v.a[1][1], s, 1)]
            if p.end == "return" and d1 and all(p.variant(v) == "Ok" for v in ds) and not any(f == ("eq", "Err") and re.search(r"try_(from|into)$", call_name(v)) and not mentions(v, lambda x: x is d1[0]) for v, f in p.facts.items()):
                lens.setdefault(p.variant(p.ret), set()).update(lengths(p, F(d1[0], "+Ok", "0")))
            if p.end == "loop":
                continue
            ok_, why = no_panic(p, s)
            if p.end != "return":
                c.ob("total", "try_from_str", ok_, f"{p.end}: {why}", "total|try_from_str", p.span)
                continue
            rv = p.variant(p.ret)
            if rv != "Ok":
                c.ob("total", "error result", rv == "Err", f"returns {show(p.ret)[:80]}", "total|result", p.span)
                continue
            m += 1
            fp = payload(p.ret)
            for f, piece in (("lo", 0), ("hi", 1)):
                v = agg_field(fp, f) if fp.op == "agg" else None
                ok = v is not None and call_name(v) == "u64::from_le_bytes"
                ds = calls_in(v, DEC) if ok else []
                ok = ok and len({d.id for d in ds}) == 1
                c.ob("decode", f"{f} word", ok, f"the {f} word is {show(v)[:120] if v is not None else show(p.ret)[:80]}", f"decode|{f}", p.span)
                if not ok:
                    continue
                d = ds[0]
                engine.add(d.a[1][0])
                src = d.a[1][1]
                ok = is_piece(src, s, piece)
                c.ob("decode", f"{f} word's text", ok, f"the {f} word is decoded from {show(src)[:140]}", f"decode|{f}|text", p.span)
                fills = [x for x in walk(v) if x.op in ("call",) and re.search(r"Vec::(resize|extend_from_slice|extend|insert|push|truncate)$", x.a[0])]
                bad = [x for x in fills if not (x.a[0].endswith("resize") and str(const_of(x.a[1][1])) == "8" and str(const_of(x.a[1][2])) == "0")]
                if f == "lo":
                    c.ob("decode", "lo word is exact", not fills, f"the low word is changed by {[x.a[0] for x in fills]}", "decode|lo|fill", p.span)
                else:
                    short_ok = any(v2.op == "bin" and calls_in(v2, r"::len$") for v2 in p.facts)
                    c.ob("decode", "hi word is filled up with zeros", not bad and (len(fills) == 1 and short_ok or not fills), f"filled by {[show(x)[:80] for x in fills]}", "decode|hi|fill", p.span)
        c.ob("decode", "lengths", lens == {"Ok": set(range(9)), "Err": set(range(9, 20))}, f"high words of {sorted(lens['Ok'])} bytes are accepted, of {sorted(lens['Err'])} bytes refused", "decode|lengths")
    c.ob("decode", "same alphabet", len(engine) == 1, f"encoded and decoded with different engines: {[show(x)[:60] for x in engine]}", "decode|engine")
    for b in one(r"hash::Fingerprint as serde::Serialize>::serialize$"):
        for p in c.paths_of(b, events=".", opaque=r"Fingerprint::as_svg_id$", cut="."):
            t = calls_in(p.ret, r"Serializer>?::serialize_str$")
            ok = p.end == "return" and p.ret in t and call_name(t[0].a[1][1]).endswith("as_svg_id") and t[0].a[1][1].a[1][0] in (mk("arg", "self"),) and const_of(t[0].a[1][1].a[1][1]) == ""
            c.ob("serde", "serialize", ok, f"{p.end} {show(p.ret)[:160]}", "serde|ser", p.span)
    for b in one(r"hash::Fingerprint as serde::Deserialize>::deserialize$"):
        k = 0
        for p in c.paths_of(b, events=".", opaque=r"Fingerprint::try_from_str$", cut="."):
            es = evs(p, r"Fingerprint::try_from_str$")
            ds = evs(p, r"Deserialize>?::deserialize$")
            if p.end != "return":
                c.ob("serde", "deserialize", False, f"{p.end} while deserializing", "serde|panic", p.span)
            elif p.variant(p.ret) == "Ok":
                k += 1
                ok = len(es) == 1 and mentions(es[0].args[0], lambda x: any(x is d.res for d in ds)) and payload(p.ret) is F(es[0].res, "+Ok", "0")
                c.ob("serde", "deserialize", ok, f"returns {show(p.ret)[:160]}", "serde|de", p.span)
        c.floor("deserialized results", k, 1)
    for b in one(r"hash::Fingerprint as std::fmt::Debug>::fmt$"):
        pass
    for b in one(r"hash::Fingerprint as std::cmp::PartialEq>::eq$"):
        for p in c.paths_of(b):
            s, o = mk("arg", "self"), mk("arg", "other")
            full = all_fields_equal(p, [(F(s, f), F(o, f)) for f in ("lo", "hi")])
            c.ob("eq", "PartialEq", full, f"{p.end} {show(p.ret)[:100]} under {[(show(v)[:40], f) for v, f in p.facts.items()]}", "eq|eq", p.span)
    for b in one(r"hash::Fingerprint as std::hash::Hash>::hash$"):
        for p in c.paths_of(b, events="."):
            s = mk("arg", "self")
            hs = evs(p, r"Hash>?::hash$|Hasher>?::write_u64$|Hasher>?::write_u128$")
            ok = p.end == "return" and any(any(mentions(a, lambda x: x is lo(s) or x is s) for a in e.args) for e in hs)
            c.ob("eq", "Hash is a function of the fingerprint", ok and all(not calls_in(a, r"rand|time|thread") for e in hs for a in e.args), f"hashes {[show(a)[:50] for e in hs for a in e.args]}", "eq|hash", p.span)
    c.floor("encoding paths", n, 1)
    c.floor("decoding paths", m, 1)


def lengths(p, v, upto=20):
    """the lengths of v the path is possible for"""
    out = set()
    for n in range(upto):
        ok = True
        for x, f in p.facts.items():
            if x.op != "bin" or f not in (("eq", "0"), ("eq", "1")):
                continue
            ab = []
            for y in x.a[1:]:
                while y.op == "cast":
                    y = y.a[1]
                k = str(const_of(y))
                ln = re.search(r"::len$", call_name(y)) or y.op == "pure" and y.a[0] == "len"
                ab.append(n if ln and y.a[1][0] is v else int(k) if k.isdigit() else None)
            if None in ab:
                continue
            t = {"Lt": ab[0] < ab[1], "Le": ab[0] <= ab[1], "Gt": ab[0] > ab[1], "Ge": ab[0] >= ab[1], "Eq": ab[0] == ab[1], "Ne": ab[0] != ab[1]}.get(x.a[0])
            if t is not None and t != (f == ("eq", "1")):
                ok = False
        if ok:
            out.add(n)
    return out


def all_fields_equal(p, pairs):
    """the function returns true exactly if all pairs are equal, on this path"""
    if p.end != "return":
        return False
    known = {}
    for v, f in p.facts.items():
        if v.op == "bin" and v.a[0] == "Eq" and f[0] == "eq":
            known[frozenset((v.a[1].id, v.a[2].id))] = f[1] == "1"
    key = lambda a, b: frozenset((a.id, b.id))
    vals = [known.get(key(a, b)) for a, b in pairs]
    r = p.ret
    if r.op == "const":
        t = str(cval(r)) in ("1", "True")
        return all(x is True for x in vals) if t else any(x is False for x in vals)
    # returns the comparison of what is still open
    parts = [r]
    while any(x.op == "bin" and x.a[0] == "BitAnd" for x in parts):
        parts = [y for x in parts for y in (x.a[1:] if x.op == "bin" and x.a[0] == "BitAnd" else [x])]
    left = {key(a, b) for (a, b), k in zip(pairs, vals) if k is not True}
    got = {key(x.a[1], x.a[2]) for x in parts if x.op == "bin" and x.a[0] == "Eq"}
    return len(got) == len(parts) and got == left and not any(k is False for k in vals)


def is_piece(v, s, i):
    """v is s[..11] (i=0) / s[11..] (i=1) as bytes or text"""
    while call_name(v).endswith("as_bytes") or v.op in ("call", "pure") and TRANSPARENT_TEXT.search(v.a[0]):
        v = v.a[1][0]
    if v.op == "proj" and v.a[1] == ("f", str(i)):
        b = base(v)
        return bool(re.search(r"::split_at(_checked)?$", call_name(b))) and base_text(b.a[1][0]) is s and str(const_of(b.a[1][1])) == "11"
    b = base(v)
    if re.search(r"::(index|get)$", call_name(b)):
        r = b.a[1][1]
        if base_text(b.a[1][0]) is not s or r.op != "agg":
            return False
        if i == 0:
            return str(const_of(agg_field(r, "end"))) == "11" and (r.a[1].endswith("RangeTo") or str(const_of(agg_field(r, "start") or mk("none"))) == "0")
        return r.a[1].endswith("RangeFrom") and str(const_of(agg_field(r, "start"))) == "11"
    return False


def base_text(v):
    while v.op in ("call", "pure") and re.search(r"::as_bytes$|::as_str$|::chars$|::bytes$", v.a[0]):
        v = v.a[1][0]
    return v


def no_panic(p, s):
    """a path that ends in a panic is fine only if its reason is impossible"""
    if p.end == "return":
        return True, ""
    for v, f in p.facts.items():
        # a vector resized to 8 converts to [u8; 8]
        if f == ("eq", "Err") and re.search(r"Try(Into|From)>?::try_(into|from)$", call_name(v)):
            x = v.a[1][0]
            if x.op == "mut" and x.a[0].op == "call" and x.a[0].a[0].endswith("Vec::resize") and str(const_of(x.a[0].a[1][1])) == "8":
                return True, ""
            if x.op == "mut" and x.a[0].op == "call" and x.a[0].a[0].endswith("Vec::resize"):
                return False, f"resized to {show(x.a[0].a[1][1])}"
    return False, show(p.ret)[:200]


# ------------------------------------------------------------------ S08
def hash_chain(v):
    """([(what is hashed), ...], the fresh hasher) of a hasher's state"""
    out = []
    while v.op == "mut":
        call = v.a[0]
        if not re.search(r"Hash>?::hash$|Hasher>?::write\w*$", call.a[0]):
            return None, v
        hs, st = (call.a[1][0], v.a[1] == 1) if call.a[0].endswith("hash") else (call.a[1][1], v.a[1] == 0)
        if not st:
            return None, v
        if hs.op == "agg" and hs.a[0] == "tuple":  # a tuple hashes as its parts
            out += list(hs.a[4:])[::-1]
        else:
            out.append(hs)
        v = v.a[2]
    return out[::-1], v


def base_list(v):
    """the list itself: before reservations, behind an iterator over all its items in order"""
    while True:
        if v.op == "mut" and re.search(r"::(reserve|reserve_exact)$", call_name(v.a[0])):
            v = v.a[2]
        elif re.search(r"::(iter|copied|cloned|into_iter|to_vec|to_owned)$", call_name(v)):
            v = v.a[1][0]
        elif v.op == "proj" and v.a[1] == ("f", "*"):
            v = v.a[0]
        else:
            return v


@check("S08")
def s08(c):
    P = program()
    c.rule("typed", "an item hash covers the item's type and the item, in that order, in a fresh 128-bit hasher")
    c.rule("plain", "a plain hash covers exactly the value, in a fresh hasher")
    c.rule("collect", "the fingerprint hasher keeps every byte written, in order, and both words of the fingerprint come from one 128-bit hash of exactly these bytes")
    c.rule("conflict", "a checked fingerprint is returned only if it is new, and then its bytes are remembered under it, or if the same bytes are remembered under it; otherwise it is never returned")
    c.rule("stored", "a value with a stored hash hashes as that hash, and the default's hash is that of the default")
    item = mk("arg", "item")
    is_ty = lambda v, of: (call_name(v).endswith("::type_id") and v.a[1][0] is of) or call_name(v).endswith("TypeId::of")

    def one(rx, sig=None):
        bs = fn_by(P, rx, STD, sig)
        c.anchor(rx, bs)
        return bs[:1]

    def fresh(v):
        return call_name(v).endswith(("::new", "::default"))

    for rx, arg, typed in ((r"hash::item_hash128$", "item", True), (r"hash::hash128$", "value", False), (r"hash::hash64$", "v", False)):
        for b in one(rx):
            x = mk("arg", arg)
            for p in c.paths_of(b):
                r = p.ret
                if call_name(r).endswith("as_u128"):
                    r = r.a[1][0]
                    fin = call_name(r).endswith("Hasher128>::finish128") and "64" not in rx
                else:
                    fin = call_name(r).endswith("Hasher>::finish") and "64" in rx
                ch, h = hash_chain(r.a[1][0]) if fin else (None, r)
                if typed:
                    ok = ch is not None and len(ch) == 2 and is_ty(ch[0], x) and ch[1] is x and fresh(h)
                else:
                    ok = ch == [x] and fresh(h)
                c.ob("typed" if typed else "plain", rx.strip("$"), p.end == "return" and ok, f"returns {show(p.ret)[:200]}", "hash|" + rx, p.span)
    for b in one(r"FingerprintSipHasher as std::hash::Hasher>::write$"):
        for p in c.paths_of(b, events=".", stores=True):
            d = F(mk("arg", "self"), "data")
            ms = [e for e in evs(p, r"Vec::|Extend>?::extend|Write>?::write") if not re.search(r"::(reserve|reserve_exact|len|capacity)$", e.name)]
            ok = p.end == "return" and len(ms) == 1 and re.search(r"(extend_from_slice|Extend>::extend|write_all|append)$", ms[0].name) and base_list(ms[0].args[0]) is d and base_text(base_list(ms[0].args[1])) is mk("arg", "bytes")
            c.ob("collect", "write appends the bytes", ok, f"{p.end}: {[(e.name, [show(a)[:40] for a in e.args]) for e in ms]}", "collect|write", p.span)
    for b in one(r"FingerprintSipHasher as hash::FingerprintHasher>::finish_fingerprint$"):
        for p in c.paths_of(b):
            d = F(mk("arg", "self"), "data")
            r = p.ret
            fp, data = (r.a[4], r.a[5]) if r.op == "agg" and len(r.a) == 6 else (r, r)
            hs = fp_words(fp)
            ch, h = hash_chain(hs.a[1][0]) if hs is not None else (None, r)
            c.ob("collect", "fingerprint", p.end == "return" and ch == [d] and fresh(h), f"fingerprint is {show(fp)[:200]}", "collect|fp", p.span)
            c.ob("collect", "bytes", data is d, f"the bytes returned are {show(data)[:100]}", "collect|data", p.span)
    for b in one(r"FingerprintSipHasher::fast_hash$"):
        for p in c.paths_of(b):
            d = F(mk("arg", "self"), "data")
            r = p.ret
            h, data = (r.a[4], r.a[5]) if r.op == "agg" and len(r.a) == 6 else (r, r)
            while h.op == "cast":
                h = h.a[1]
            ch, h0 = hash_chain(h.a[1][0]) if call_name(h).endswith("::finish") else (None, h)
            c.ob("collect", "fast hash", p.end == "return" and ch == [d] and fresh(h0), f"the hash is {show(h)[:160]}", "collect|fast", p.span)
            c.ob("collect", "fast hash's bytes", data is d or data.op == "ref" and data.a[0] is d, f"the bytes returned are {show(data)[:100]}", "collect|fast|data", p.span)
    for b in one(r"FingerprintSipHasher as std::hash::Hasher>::finish$"):
        for p in c.paths_of(b):
            ch, h = hash_chain(p.ret.a[1][0]) if call_name(p.ret).endswith("::finish") else (None, p.ret)
            c.ob("collect", "finish", ch == [F(mk("arg", "self"), "data")] and fresh(h), f"returns {show(p.ret)[:160]}", "collect|finish", p.span)
    n = 0
    for b in one(r"FingerprintBuilder::resolve$"):
        tbl = F(mk("arg", "self"), "conflict_checker")
        for p in c.paths_of(b, events="."):
            gets = [e for e in evs(p, r"(DashMap|HashMap)(<.*>)?::(get|contains_key|entry|get_mut)$") if same(e.args[0], tbl)]
            ins = [e for e in evs(p, r"(DashMap|HashMap)(<.*>)?::(insert|remove|alter|clear)$") if same(e.args[0], tbl)]
            if p.end != "return":
                differ = any(v.op == "bin" and v.a[0] == "Eq" and f == ("eq", "0") for v, f in p.facts.items())
                c.ob("conflict", "panics only on a conflict", differ and not ins, f"{p.end} {show(p.ret)[:100]}", "conflict|panic", p.span)
                continue
            n += 1
            fp = p.ret
            hs = fp_words(fp)
            st = hs.a[1][0] if hs is not None else None
            data = st.a[0].a[1][0] if st is not None and st.op == "mut" else None
            # the bytes are what the builder's hasher collected for type and item
            ch, h = hash_chain(data.a[0]) if data is not None and data.op == "proj" else (None, None)
            ok = ch is not None and len(ch) == 2 and is_ty(ch[0], item) and ch[1] is item and h.op == "agg" and re.search(r"Vec::new$|::default$", call_name(h.a[4])) and fresh(st.a[2])
            c.ob("typed", "fingerprint of type and item", ok, f"the fingerprint is of {[show(x)[:60] for x in ch] if ch else show(fp)[:160]}", "typed|resolve", p.span)
            ok = len(gets) == 1 and gets[0].args[1] is fp
            c.ob("conflict", "looked up under the fingerprint", ok, f"lookups: {[[show(a)[:60] for a in e.args] for e in gets]}", "conflict|lookup", p.span)
            if not ok:
                continue
            g = gets[0].res
            slot = p.variant(g) if gets[0].name.endswith("::entry") else None
            if slot == "Vacant":
                put = evs(p, r"VacantEntry(<.*>)?::(insert|insert_entry)$|Entry(<.*>)?::(insert|or_insert)$")
                ok = len(put) == 1 and mentions(put[0].args[0], lambda y: y is g) and put[0].args[1] is data and not ins
                c.ob("conflict", "new fingerprint is remembered with its bytes", ok, f"insertions: {[[show(a)[:60] for a in e.args[1:]] for e in put + ins]}", "conflict|new", p.span)
            elif p.variant(g) == "None":
                ok = len(ins) == 1 and ins[0].name.endswith("insert") and ins[0].args[1] is fp and ins[0].args[2] is data
                c.ob("conflict", "new fingerprint is remembered with its bytes", ok, f"insertions: {[[show(a)[:60] for a in e.args[1:]] for e in ins]}", "conflict|new", p.span)
            else:
                eq = [v for v, f in p.facts.items() if v.op == "bin" and v.a[0] == "Eq" and f == ("eq", "1") and any(x is data for x in v.a[1:]) and any(mentions(x, lambda y: y is g) for x in v.a[1:])]
                c.ob("conflict", "known fingerprint only for the same bytes", (p.variant(g) == "Some" or slot == "Occupied") and len(eq) == 1 and not ins, f"returned under {[(show(v)[:60], f) for v, f in p.facts.items()]}", "conflict|same", p.span)
    c.floor("resolved fingerprints", n, 2)
    for b in one(r"FingerprintBuilder::resolve_unchecked$"):
        for p in c.paths_of(b, events="."):
            hs = fp_words(p.ret)
            st = hs.a[1][0] if hs is not None else None
            data = st.a[0].a[1][0] if st is not None and st.op == "mut" else None
            ch, h = hash_chain(data.a[0]) if data is not None and data.op == "proj" else (None, None)
            c.ob("plain", "unchecked fingerprint", p.end == "return" and ch == [item], f"the fingerprint is {show(p.ret)[:160]}", "plain|unchecked", p.span)
    s = mk("arg", "self")
    for b in one(r"hash::HashedTrait as std::hash::Hash>::hash$"):
        for p in c.paths_of(b, events="."):
            ws = evs(p, r"Hash>?::hash$|Hasher>?::write")
            ok = p.end == "return" and len(ws) == 1 and F(s, "hash") in ws[0].args
            c.ob("stored", "HashedTrait hashes as stored", ok, f"hashes {[show(a)[:50] for e in ws for a in e.args]}", "stored|trait", p.span)
    for b in one(r"dyn hash::StaticHash128 \+ 'static\) as std::hash::Hash>::hash$"):
        for p in c.paths_of(b, events="."):
            ws = evs(p, r"Hash>?::hash$|Hasher>?::write")
            ok = p.end == "return" and len(ws) == 1 and any(call_name(a).endswith("get_hash") and a.a[1][0] is s for a in ws[0].args)
            c.ob("stored", "a static hash hashes as itself", ok, f"hashes {[show(a)[:50] for e in ws for a in e.args]}", "stored|dyn", p.span)
    for b in one(r"hash::HashedTrait as hash::StaticHash128>::get_hash$"):
        for p in c.paths_of(b):
            c.ob("stored", "get_hash", p.ret is F(s, "hash"), f"returns {show(p.ret)[:80]}", "stored|get", p.span)
    for b in one(r"hash::HashedTrait as std::ops::Deref>::deref$"):
        for p in c.paths_of(b):
            c.ob("stored", "deref", base(p.ret) is s and mentions(p.ret, lambda x: x is F(s, "t")), f"returns {show(p.ret)[:80]}", "stored|deref", p.span)
    for b in one(r"hash::HashedTrait::new$"):
        for p in c.paths_of(b):
            ok = p.ret.op == "agg" and agg_field(p.ret, "hash") is mk("arg", "hash") and agg_field(p.ret, "t") is mk("arg", "t")
            c.ob("stored", "new", ok, f"returns {show(p.ret)[:80]}", "stored|new", p.span)
    for b in one(r"hash::HashedTrait as std::default::Default>::default$"):
        for p in c.paths_of(b):
            r = p.ret
            t = agg_field(r, "t") if r.op == "agg" else None
            h = agg_field(r, "hash") if r.op == "agg" else None
            r2 = h.a[1][0] if h is not None and call_name(h).endswith("as_u128") else None
            ch, hh = hash_chain(r2.a[1][0]) if r2 is not None else (None, None)
            ok = ch is not None and len(ch) == 2 and is_ty(ch[0], t) and ch[1] is t and fresh(hh) and call_name(t).endswith("Default::default")
            c.ob("stored", "default", ok, f"returns {show(r)[:200]}", "stored|default", p.span)


def fp_words(fp):
    """the 128-bit hash whose words are the fingerprint's"""
    if fp.op != "agg" or len(fp.a) != 6:
        return None
    lo, hi = agg_field(fp, "lo"), agg_field(fp, "hi")
    if lo is None or lo.op != "proj" or hi.op != "proj" or lo.a[1] != ("f", "h1") or hi.a[1] != ("f", "h2") or lo.a[0] is not hi.a[0]:
        return None
    return lo.a[0] if call_name(lo.a[0]).endswith("finish128") else None



# ------------------------------------------------------------------ S09
def anchored(c, rx, sig=None, crate=STD):
    bs = fn_by(program(), rx, crate, sig)
    c.anchor(rx, bs)
    return bs[:1]


def uncast(v):
    while v.op == "cast":
        v = v.a[1]
    return v


def pow2(v, facts=None):
    """v is a power of two (an abstract value analysis, assuming no overflow of next_power_of_two)"""
    v = uncast(v)
    k = const_of(v)
    if v.op == "const":
        try:
            k = int(k)
        except (TypeError, ValueError):
            return False
        return k > 0 and k & (k - 1) == 0
    n = call_name(v)
    if n.endswith("next_power_of_two"):
        return True
    if re.search(r"::(min|max)$", n):
        return all(pow2(x, facts) for x in v.a[1])
    if v.op == "proj" and v.a[0].op == "bin":
        v = v.a[0]
    if v.op == "bin" and str(v.a[0]).startswith(("Mul", "Shl")):
        return pow2(v.a[1], facts) and (pow2(v.a[2], facts) or str(v.a[0]).startswith("Shl"))
    for w, f in (facts or {}).items():
        if call_name(w).endswith("is_power_of_two") and w.a[1][0] is v and f == ("eq", "1"):
            return True
    return False


def bounded(v, top):
    v = uncast(v)
    if v.op == "const":
        try:
            return int(cval(v)) <= top
        except (TypeError, ValueError):
            return False
    n = call_name(v)
    if n.endswith("::min"):
        return any(bounded(x, top) for x in v.a[1])
    if n.endswith("::clamp"):
        return bounded(v.a[1][2], top)
    if n.endswith(("::max",)):
        return all(bounded(x, top) for x in v.a[1])
    if n.endswith("next_power_of_two"):
        return top & (top - 1) == 0 and bounded(v.a[1][0], top)
    return False


@check("S09")
def s09(c):
    P = program()
    c.rule("size", "a map has a power of two of shards, at least one and at most 512, each an empty map, and its mask is that number minus one")
    c.rule("route", "the shard of a fingerprint is chosen by its bits and the mask only, always inside the shards")
    c.rule("lookup", "a fingerprint is looked up in its own shard")
    c.rule("items", "the items of a map are all items of all shards")
    c.rule("total", "creating or using a map does not panic")
    slf, fg = mk("arg", "self"), mk("arg", "fg")
    for f in P.fns:
        if f["crate"] != STD or not re.search(r"(^|::)\w*default_shard_size\w*(::\{closure#\d+\})?$", f["name"]) or (f["crate"], f["id"]) not in P.bodies:
            continue
        for p in c.paths_of(P.bodies[(f["crate"], f["id"])], events="."):
            made = [v for v, g in p.facts.items() if re.search(r"NonZero(U32)?(<.*>)?::new$", call_name(v))]
            if p.end == "return":
                x = base(p.ret)
                if re.search(r"NonZero(U32)?(<.*>)?::new(_unchecked)?$", call_name(x)):
                    c.ob("size", "default", pow2(x.a[1][0]), f"the default is {show(p.ret)[:120]}", "size|default", p.span)
            else:
                c.ob("total", "default", len(made) == 1 and pow2(made[0].a[1][0]), f"{p.end} {show(p.ret)[:100]}", "total|default", p.span)
    for b in anchored(c, r"FingerprintMap as std::default::Default>::default$"):
        for p in c.paths_of(b, events=r"FingerprintMap::new$|default_shard_size$", opaque=r"FingerprintMap::new$|fmap::default_shard_size$"):
            es = evs(p, r"FingerprintMap::new$")
            ok = p.end == "return" and len(es) == 1 and p.ret is es[0].res
            c.ob("size", "default map", ok, f"{p.end} {show(p.ret)[:100]}", "size|defaultmap", p.span)
    for b in anchored(c, r"FingerprintMap::new$"):
        n = 0
        ps = c.paths_of(b, events=".", asserts=True, cut=".")
        for p in ps:
            if p.end == "loop":
                continue
            if p.end != "return":
                # reasons that cannot be: the size is a power of two, hence positive
                bad = []
                for v, f in p.facts.items():
                    if call_name(v).endswith("is_power_of_two") and f == ("eq", "0") and pow2(v.a[1][0]) and bounded(v.a[1][0], 512):
                        bad.append(v)
                    if v.op == "bin" and v.a[0] == "Lt" and str(const_of(v.a[1])) == "0" and f == ("eq", "0") and pow2(v.a[2]):
                        bad.append(v)
                    if v.op == "bin" and v.a[0] == "Eq" and f == ("eq", "1") and str(const_of(v.a[2])) == "0" and pow2(v.a[1]):
                        bad.append(v)
                    if v.op == "ovf" and f == ("eq", "1") and v.a[0].op == "bin" and str(v.a[0].a[0]).startswith("Sub") and pow2(v.a[0].a[1]):
                        bad.append(v)
                if p.end == "panic" and not bad and mentions(p.ret, lambda x: x.op == "bin" and str(x.a[0]).startswith("Sub") and pow2(x.a[1], p.facts)):
                    bad.append(p.ret)
                c.ob("total", "new", bool(bad), f"{p.end} {show(p.ret)[:120]} under {[(show(v)[:80], f) for v, f in p.facts.items()]}", "total|new", p.span)
                continue
            r = p.ret
            mask, shards = agg_field(r, "mask"), agg_field(r, "shards")
            m = mask.a[0] if mask.op == "proj" else mask
            ok = m.op == "bin" and str(m.a[0]).startswith("Sub") and str(const_of(m.a[2])) == "1"
            c.ob("size", "mask is one less than the size", ok, f"the mask is {show(mask)[:120]}", "size|mask", p.span)
            if not ok:
                continue
            n += 1
            size = m.a[1]
            c.ob("size", "power of two", pow2(size), f"the size is {show(size)[:120]}", "size|pow2", p.span)
            c.ob("size", "at most 512", bounded(size, 512), f"the size is {show(size)[:120]}", "size|max", p.span)
            shards = gathered(ps, shards)
            if shards.op == "loop":  # one shard pushed for each number of a range
                rounds = [q for q in ps if q.ends_loop(shards)]
                push = [q.loop_next(shards) for q in rounds]
                rngs = {v.a[1][0] for v, f in p.facts.items() if re.search(r"::next$", call_name(v)) and v.a[1] and v.a[1][0].op == "loop" and p.variant(v) == "None"}
                fresh = r"Vec::(new|with_capacity)$"
                one = bool(push) and all(x.op == "mut" and call_name(x.a[0]).endswith("Vec::push") and x.a[2] is shards and re.search(r"::(new|default)$", call_name(x.a[0].a[1][1])) for x in push)
                c.ob("size", "one empty shard a round", one and len(rngs) == 1 and re.search(fresh, call_name(shards.a[3])), f"{[show(x)[:80] for x in push]}", "size|round", p.span)
                shards = rngs.pop().a[3] if rngs else shards
            has = [x for x in walk(shards) if x is size or (x.op == "cast" and uncast(x) is uncast(size))]
            odd = [x for x in walk(shards) if x.op == "bin" and any(uncast(y) is uncast(size) or (y.op == "proj" and y.a[0] is uncast(size)) for y in x.a[1:])]
            rng = [x for x in walk(shards) if x.op == "agg" and x.a[1].endswith("Range")]
            start_ok = all(str(const_of(agg_field(x, "start"))) == "0" for x in rng)
            odd += [x for x in walk(shards) if call_name(x) and re.search(r"::(skip|step_by|filter|take_while|skip_while|filter_map|truncate|pop)$", call_name(x))]
            c.ob("size", "as many shards as the size", bool(has) and not odd and start_ok, f"the shards are {show(shards)[:200]}", "size|count", p.span)
        c.floor("maps created", n, 1)
    for b in anchored(c, r"FingerprintMap as std::default::Default>::default$"):
        for p in c.paths_of(b, events=".", opaque=r"FingerprintMap::new$|default_shard_size$"):
            c.ob("size", "default goes through new", p.end == "return" and call_name(p.ret).endswith("FingerprintMap::new"), f"returns {show(p.ret)[:120]}", "size|default", p.span)
    for b in anchored(c, r"default_shard_size::determine_default_shard_size$|default_shard_size$"):
        pass
    idx = {}

    def route(p, where):
        # the shard value taken: index into self.shards
        sh = F(slf, "shards")
        takes = [x for x in walk(p.ret) if (call_name(x).endswith(("get_unchecked", "::index", "get_unchecked_mut")) and under_mut(x.a[1][0]) is sh) or (x.op == "proj" and x.a[0] is sh and x.a[1][0] == "i")]
        takes = list(dict.fromkeys(takes))
        c.ob("route", f"{where}: one shard of the map", len(takes) == 1, f"{show(p.ret)[:160]}", f"route|{where}|one", p.span)
        for x in takes:
            i = x.a[1][1] if x.op != "proj" else x.a[1][1]
            unchecked = "unchecked" in call_name(x)
            k = uncast(i)
            mask = F(slf, "mask")
            dep = [y for y in walk(k) if y.op == "arg" and y not in (slf, fg)] + [y for y in walk(k) if y.op == "call" and not re.search(r"::len$|trailing_zeros|from$|lower32", y.a[0])]
            c.ob("route", f"{where}: by the fingerprint only", not dep and mentions(k, lambda y: y is fg), f"the index is {show(i)[:120]}", f"route|{where}|dep", p.span)
            low = k.op == "bin" and k.a[0] == "BitAnd" and any(uncast(y) is mask or is_len1(y, sh) for y in k.a[1:])
            low = low or (k.op == "bin" and k.a[0] == "Rem" and len_of(k.a[2]) is sh)
            low = low or any(v.op == "bin" and v.a[0] == "Lt" and uncast(v.a[1]) is k and len_of(v.a[2]) is sh and f == ("eq", "1") and not debug_only(p) for v, f in p.facts.items())
            c.ob("route", f"{where}: inside the shards", low, f"the index is {show(i)[:120]}", f"route|{where}|bound", p.span)
            idx.setdefault(where, set()).add(show(k))
    for b in anchored(c, r"FingerprintMap::shard$"):
        n = 0
        for p in c.paths_of(b, events="."):
            if p.end == "return":
                n += 1
                route(p, "shard")
            else:
                low = [v for v, f in p.facts.items() if v.op == "bin" and v.a[0] == "Lt" and f == ("eq", "0") and len_of(v.a[2]) is F(slf, "shards") and uncast(v.a[1]).op == "bin" and uncast(v.a[1]).a[0] == "BitAnd" and any(uncast(y) is F(slf, "mask") for y in uncast(v.a[1]).a[1:])]
                c.ob("total", "shard", bool(low), f"{p.end} {show(p.ret)[:100]}", "total|shard", p.span)
        c.floor("routed fingerprints", n, 1)
    for b in anchored(c, r"FingerprintMap::contains_key$"):
        for p in c.paths_of(b, events="."):
            if p.end != "return":
                continue
            r = p.ret
            ok = call_name(r).endswith("contains_key") and r.a[1][1] is fg
            ok = ok or call_name(r).endswith("is_some") or r.op == "isvar" and r.a[1] == "Some" and call_name(r.a[0]).endswith("::get") and r.a[0].a[1][1] is fg
            c.ob("lookup", "contains_key", ok, f"returns {show(r)[:160]}", "lookup|contains", p.span)
            if ok:
                route(p, "contains_key")
    if "contains_key" in idx:
        c.ob("lookup", "the same shard as for insertion", idx["contains_key"] == idx.get("shard"), f"looked up in shard {idx['contains_key']}, items live in {idx.get('shard')}", "lookup|same")
    for b in anchored(c, r"FingerprintMap::into_items$"):
        for p in c.paths_of(b, events="."):
            r = p.ret
            names = [call_name(x) for x in walk(r) if x.op in ("call", "pure")]
            bad = [n for n in names if re.search(r"::(skip|take|step_by|filter|filter_map|take_while|skip_while|nth|last|find|map_while)$", n)]
            ok = p.end == "return" and mentions(r, lambda x: x is F(slf, "shards")) and any(re.search(r"::(flat_map|flatten|chain|flat_map_iter|collect)$", n) for n in names)
            c.ob("items", "all shards", ok and not bad, f"returns {show(r)[:200]}", "items|all", p.span)
            inner = evs(p, r"RwLock::into_inner$")
            for e in inner:
                its = evs(p, r"HashMap as std::iter::IntoIterator>::into_iter$")
                bad = [x for x in p.events if x.kind == "call" and re.search(r"HashMap(<.*>)?::(retain|remove|drain|clear)|::(skip|take|filter|step_by|filter_map)$", x.name)]
                c.ob("items", "all items of a shard", not bad, f"also {[x.name for x in bad]}", "items|shard", e.span)
    for b in anchored(c, r"FingerprintMap::as_mut_slice$"):
        for p in c.paths_of(b):
            c.ob("items", "as_mut_slice", base(p.ret) is slf and F(slf, "shards") in list(walk(p.ret)) and not calls_in(p.ret, r"index|split"), f"returns {show(p.ret)[:120]}", "items|slice", p.span)


def is_len1(v, sh):
    v = uncast(v)
    v = v.a[0] if v.op == "proj" else v
    return v.op == "bin" and str(v.a[0]).startswith("Sub") and str(const_of(v.a[2])) == "1" and len_of(v.a[1]) is sh


def debug_only(p):
    return False


# ------------------------------------------------------------------ S10
@check("S10")
def s10(c):
    P = program()
    c.rule("once", "the computation runs only inside the cell's one-time initialisation, at most once per call, and what it returns is what the cell keeps")
    c.rule("result", "every caller gets the cell's result: a reference to its value or a copy of its error")
    c.rule("context", "the computation gets the query's own context, which is then gone")
    c.rule("create", "a query created with a value holds it, one created with a context or by default is not computed yet")
    slf = mk("arg", "self")
    cell, ctx = F(slf, "cell"), F(slf, "ctx")
    INIT = r"OnceLock::(get_or_init|get_or_try_init|get_mut_or_init|initialize)$|OnceCell::(get_or_init|get_or_try_init)$"
    TOUCH = r"Once(Lock|Cell)(<.*>)?::(set|take|try_insert|into_inner|get_mut)$"
    f = mk("arg", "f")
    for nm, with_ctx in (("compute", False), ("compute_with_context", True)):
        n = k = 0
        for b in anchored(c, rf"QueryRef::{nm}$"):
            for p in c.paths_of(b, events="."):
                inits = [e for e in evs(p, INIT, "call") if same(e.args[0], cell)]
                entered = [e for e in evs(p, INIT, "enter") if same(e.args[0], cell)]
                touch = [e for e in evs(p, TOUCH) if mentions(e.args[0], lambda x: x is cell)]
                runs = [e for e in evs(p, r"Fn(Once|Mut)?(>)?::call(_once|_mut)?$", "call") if mentions(e.args[0], lambda x: x is f)]
                c.ob("once", f"{nm}: the cell is only initialised", not touch, f"also {[e.name for e in touch]}", f"once|{nm}|touch", p.span)
                c.ob("once", f"{nm}: runs at most once", len(runs) <= 1, f"the computation runs {len(runs)} times", f"once|{nm}|runs", p.span)
                for e in runs:
                    k += 1
                    inside = any(re.search(INIT, s) for s in e.stack) or (inits and any("{closure" in s for s in e.stack) and p.events.index(inits[0]) < p.events.index(e) and not any(re.search(r"compute(_with_context)?$", s) for s in e.stack[-1:]))
                    c.ob("once", f"{nm}: runs inside the initialisation", bool(inside), f"called from {e.stack[-1]}", f"once|{nm}|inside", e.span)
                    if with_ctx:
                        a = e.args[1]
                        a = a.a[4] if a.op == "agg" and len(a.a) > 4 else a
                        lk = calls_in(a, r"Mutex::lock$|RwLock::write$")
                        c.ob("context", "the taken context", any(x.a[1][0] is ctx for x in lk), f"runs on {show(a)[:100]}", "context|arg", e.span)
                    tk = evs(p, r"Option::(take|replace)$|^std::mem::(take|replace)$")
                    c.ob("context", f"{nm}: taken", any(mentions(x.args[0], lambda y: y is ctx) for x in tk), "the context is not taken out", f"context|{nm}|take", e.span)
                if p.end != "return":
                    none = any(calls_in(v, r"Mutex::lock$") and fct == ("eq", "None") for v, fct in p.facts.items())
                    c.ob("once", f"{nm}: panics only without a context", none and not runs, f"{p.end} {show(p.ret)[:80]}", f"once|{nm}|panic", p.span)
                    continue
                n += 1
                early = [v for v in p.facts if re.search(r"Once(Lock|Cell)(<.*>)?::get$", call_name(v)) and v.a[1][0] is cell and p.variant(v) == "Some"]
                if early and not inits and not runs:
                    # an answer that was already there
                    r = F(early[-1], "+Some", "0")
                    rv = p.variant(p.ret)
                    ok = rv in ("Ok", "Err") and payload_of(p.ret, rv) is F(r, "+" + rv, "0") and p.variant(r) == rv
                    c.ob("result", f"{nm}: {rv}", ok, f"returns {show(p.ret)[:160]}", f"result|{nm}|{rv}", p.span)
                    continue
                c.ob("once", f"{nm}: one initialisation", len(inits) == 1, f"{len(inits)} initialisations of the cell", f"once|{nm}|init", p.span)
                if len(inits) != 1:
                    continue
                r = inits[0].res
                while True:
                    x = F(r, "+Ok", "0")
                    if "try_init" in inits[0].name and mentions(p.ret, lambda y: y is x):
                        r = x
                    break
                rv = p.variant(p.ret)
                ok = rv in ("Ok", "Err") and payload_of(p.ret, rv) is F(r, "+" + rv, "0") and p.variant(r) == rv
                c.ob("result", f"{nm}: {rv}", ok, f"returns {show(p.ret)[:160]}", f"result|{nm}|{rv}", p.span)
        c.floor(f"{nm}: results", n, 2)
        c.floor(f"{nm}: runs", k, 1)
    for b in anchored(c, r"QueryRef::get_uninitialized$"):
        for p in c.paths_of(b):
            ok = re.search(r"Once(Lock|Cell)(<.*>)?::get$", call_name(p.ret)) and p.ret.a[1][0] is cell
            c.ob("result", "get_uninitialized", bool(ok), f"returns {show(p.ret)[:100]}", "result|get", p.span)
    for nm, want in (("QueryRef::with_context$", "ctx"), (r"QueryRef as std::default::Default>::default$", None)):
        for b in anchored(c, nm):
            for p in c.paths_of(b, events="."):
                cx, ce = agg_field(p.ret, "ctx"), agg_field(p.ret, "cell")
                some_ = cx.a[1][0] if call_name(cx).endswith("Mutex::new") else cx
                inner = some_.a[4] if some_.op == "agg" and some_.a[2] == "Some" else None
                ok = inner is not None and (inner is mk("arg", "ctx") if want else inner.op == "agg" and len(inner.a) == 4)
                c.ob("create", f"{nm.strip('$')}: holds the context", ok, f"the context is {show(cx)[:80]}", "create|ctx|" + nm, p.span)
                ok = re.search(r"Once(Lock|Cell)::(new|default)$|default$", call_name(ce)) and not evs(p, INIT + "|" + TOUCH)
                c.ob("create", f"{nm.strip('$')}: not computed", bool(ok), f"the cell is {show(ce)[:80]}", "create|cell|" + nm, p.span)
    for b in anchored(c, r"QueryRef::with_value$"):
        for p in c.paths_of(b, events="."):
            ce = agg_field(p.ret, "cell")
            # the value the cell gets: the closure's result, a set() argument or a From
            vals = []
            for x in [ce] + [e.res for e in p.events if e.kind == "call"]:
                for y in walk(x):
                    if call_name(y) and re.search(r"Once(Lock|Cell)", y.a[0]) and len(y.a[1]) > 1:
                        vals.append(y.a[1][1])
            got = ce.op == "agg" and ce.a[2] == "Ok" and ce.a[4] is mk("arg", "value")  # From<T>
            for v in vals:
                for y in closure_tree(v):
                    if y.op == "agg" and y.a[2] == "Ok" and y.a[4] is mk("arg", "value"):
                        got = True
                    if y.op == "clo":
                        bb = P.bodies.get((y.a[4], y.a[3]))
                        if bb is not None and bb.crate == STD:
                            for q in c.paths_of(bb):
                                e0 = q.ret.a[4] if q.ret.op == "agg" and q.ret.a[2] == "Ok" else None
                                if e0 is not None and base(e0).op == "arg" and mk("arg", "value") in y.a[2]:
                                    got = True
            c.ob("create", "with_value holds the value", got, f"the cell is {show(ce)[:80]}", "create|value", p.span)


def closure_tree(v):
    """a value with what its closures capture"""
    out, todo = [], [v]
    seen = set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        for y in walk(x):
            out.append(y)
            if y.op == "clo":
                for z in y.a[2]:
                    if isinstance(z, V) and z.id not in seen:
                        todo.append(z)
    return out


def payload_of(v, variant):
    return v.a[4] if v.op == "agg" and v.a[2] == variant and len(v.a) > 4 else F(v, "+" + variant, "0")


def gathered(ps, v):
    """what the items of the list v are the items of, when a loop puts each of them into a new list; else v itself"""
    if v.op != "loop" or not re.search(r"Vec::(new|with_capacity)$", call_name(v.a[3])):
        return v
    rounds = [q for q in ps if q.ends_loop(v)]
    its = set()
    for q in rounds:
        x = q.loop_next(v)
        if not (x.op == "mut" and call_name(x.a[0]).endswith("Vec::push") and x.a[2] is v):
            return v
        e = x.a[0].a[1][1]
        nx = e.a[0].a[0] if e.op == "proj" and e.a[1] == ("f", "0") and e.a[0].op == "proj" else None
        if nx is None or not call_name(nx).endswith("::next") or nx.a[1][0].op != "loop" or e is not F(nx, "+Some", "0"):
            return v
        its.add(nx.a[1][0])
    return its.pop().a[3] if len(its) == 1 else v


# ------------------------------------------------------------------ S11
def char_const(v):
    k = const_of(v)
    if isinstance(k, int) and not isinstance(k, bool):
        return chr(k)
    if isinstance(k, str) and k.isdigit() and len(k) > 1:
        return chr(int(k))
    return k if isinstance(k, str) else None


def appended(v, start):
    """pieces appended to the text `start` to get `v` (None: not of that form)"""
    out = []
    while v is not start:
        if v.op == "mut" and v.a[0].op == "call" and APPEND.search(v.a[0].a[0]) and v.a[1] == 0:
            x = v.a[0].a[1][1]
            if v.a[0].a[0].endswith("::push"):
                ch = char_const(x)
                out.append(ch if ch is not None else x)
            else:
                out.extend(reversed([(y[1] if y[2] == "display" else mk("fmt", y[2], y[1])) if isinstance(y, tuple) else y for y in content(x)]))
            v = v.a[2]
        elif v.op == "mut" and re.search(r"::(reserve|shrink_to_fit)$", v.a[0].a[0]):
            v = v.a[2]
        else:
            return None
    return out[::-1]


def slash_automaton(c, ps):
    """runs the loop of unix_slash as a finite automaton over component kinds"""
    nexts = [v for p in ps for v in p.facts if re.search(r"Iterator>?::next$", call_name(v))]
    if not nexts:
        c.ob("slash", "component loop", False, "no loop over the path's components", "slash|loop")
        return
    nx = nexts[0]
    comp = F(nx, "+Some", "0")
    it = nx.a[1][0]
    src_ = it.a[3] if it.op == "loop" else it
    c.ob("slash", "the path's components", call_name(src_).endswith("Path::components") and src_.a[1][0] is mk("arg", "root"), f"walks over {show(src_)[:100]}", "slash|source")
    loops = {}
    for p in ps:
        for v in list(p.facts) + [p.ret] + [x for e in p.events for x in e.args]:
            for x in walk(v):
                if x.op == "loop" and x is not it:
                    loops[x.id] = x
    text = [x for x in loops.values() if re.search(r"String::(new|with_capacity)$", call_name(x.a[3])) or const_of(x.a[3]) == ""]
    text = [x for x in text if any(q.loop_next(x) is not None and appended(q.loop_next(x), x) for q in ps if q.end == "loop")]
    c.ob("slash", "text built in the loop", len(text) == 1, f"{len(text)} texts are built", "slash|text")
    if len(text) != 1:
        return
    R = text[0]
    ctl = [x for x in loops.values() if x is not R]

    def holds(p, st):
        """can path p be taken in state st = (class of the text's end, values of the control variables)"""
        for v, f in p.facts.items():
            if v in st[1] and f[0] == "eq" and str(st[1][v]) != str(f[1]):
                return False
            if v in st[1] and f[0] == "ne" and str(st[1][v]) in {str(x) for x in f[1]}:
                return False
            n = call_name(v)
            want = None
            if n.endswith("is_empty") and v.a[1][0] is R:
                want = st[0] == "empty"
            elif n.endswith("ends_with") and v.a[1][0] is R and char_const(v.a[1][1]) == "/":
                want = st[0] == "slash"
            elif v.op == "bin" and v.a[0] == "Eq" and len_of(v.a[1]) is R and str(const_of(v.a[2])) == "0":
                want = st[0] == "empty"
            elif v.op == "bin" and v.a[0] == "Lt" and str(const_of(v.a[1])) == "0" and len_of(v.a[2]) is R:
                want = st[0] != "empty"
            if want is not None and f[0] == "eq" and (f[1] == "1") != want:
                return False
        return True

    KINDS = ("RootDir", "CurDir", "ParentDir", "Normal")  # no prefixes on the target analysed
    start = ("empty", {x: cval(x.a[3]) if x.a[3].op == "const" else (x.a[3].a[2] if x.a[3].op == "agg" else None) for x in ctl})
    todo = [(start, None, None)]
    seen = set()
    steps = 0
    while todo:
        st, prev, sep = todo.pop()
        key = (st[0], tuple(sorted((x.id, str(v)) for x, v in st[1].items())), prev, sep)
        if key in seen:
            continue
        seen.add(key)
        for p in ps:
            if p.end == "loop":
                continue
            if not holds(p, st) or p.variant(nx) == "Some":
                continue
            pc = appended(p.ret, R) if p.end == "return" else None
            want = ["."] if st[0] == "empty" else []
            c.ob("slash", "end", pc == want, f"after {'nothing' if st[0] == 'empty' else 'a text'} the result gets {pc if pc is None else [show(x) if isinstance(x, V) else x for x in pc]} appended", "slash|end", p.span)
        for k in KINDS:
            # the root and a leading "." only come first
            if k in ("RootDir", "CurDir") and prev is not None:
                continue
            took = 0
            for p in ps:
                if p.end != "loop" or p.variant(nx) != "Some" or not holds(p, st):
                    continue
                f = p.facts.get(comp)
                if f is not None and (f[0] == "eq" and f[1] != k or f[0] == "ne" and k in f[1]):
                    continue
                took += 1
                steps += 1
                pc = appended(p.loop_next(R), R)
                if pc is None:
                    c.ob("slash", f"{k} only appends", False, f"the text becomes {show(p.loop_next(R))[:100]}", f"slash|{k}|append", p.span)
                    continue
                pc = [str(cval(st[1][x])) if isinstance(x, V) and x in st[1] and isinstance(st[1][x], V) else st[1][x] if isinstance(x, V) and isinstance(st[1].get(x), str) else x for x in pc]
                pc = [x for x in pc if x != ""]
                need = sep and k in ("ParentDir", "Normal")
                if k == "CurDir":
                    ok = pc == []
                elif k == "RootDir":
                    ok = pc == ["/"]
                else:
                    body = pc[1:] if need else pc
                    ok = (not need or pc[:1] == ["/"]) and len(body) == 1
                    b0 = body[0] if len(body) == 1 else None
                    own = isinstance(b0, V) and re.search(r"to_string_lossy$", call_name(b0)) and mentions(b0, lambda x: x is comp) and not [x for x in walk(b0) if x.op in ("call", "pure") and not re.search(r"to_string_lossy$|as_os_str$|Iterator>?::next$|components$|into_iter$", x.a[0]) and mentions(x, lambda y: y is comp)]
                    ok = ok and (own or k == "ParentDir" and b0 == "..")
                c.ob("slash", f"{k} after {prev or 'nothing'}", ok, f"{k} after {prev or 'nothing'} appends {[show(x)[:60] if isinstance(x, V) else x for x in pc]}", f"slash|{k}|{prev}", p.span)
                nst = {}
                for x in ctl:
                    y = p.loop_next(x)
                    if y is None or y is x:
                        nst[x] = st[1][x]
                    elif y.op == "const":
                        nst[x] = cval(y)
                    elif y.op == "agg":
                        nst[x] = y.a[2]
                    elif y.op == "loop":
                        nst[x] = st[1].get(y)
                    else:
                        nst[x] = None
                cls = st[0] if not pc else "slash" if pc[-1] == "/" else "other"
                todo.append(((cls, nst), k if k != "CurDir" else "CurDir", k in ("ParentDir", "Normal")))
            c.ob("slash", f"{k} handled", took > 0, f"no iteration handles {k} after {prev or 'nothing'}", f"slash|{k}|handled")
            if len(seen) > 400:
                c.ob("slash", "finite control", False, "the loop's control state is not finite", "slash|finite")
                return
    c.floor("automaton steps", steps, 8)


@check("S11")
def s11(c):
    P = program()
    c.rule("slash", "each component is appended once, separated by '/' exactly when a name or '..' precedes it; the root is '/', a leading '.' nothing, and an empty text becomes '.'")
    c.rule("diff", "the difference is taken from the first path to the second, each cleaned unless it has no '.' and no '..' component")
    c.rule("normalize", "names and the root are pushed, '..' pops, '.' does nothing, starting from the prefix if there is one")
    c.rule("ancestors", "the ancestors start with the path itself and go on with the parent, until there is none or the stop directory was returned")
    c.rule("strip", "the canonical base is stripped from the canonical path; a path that cannot be canonicalized is taken as it is")
    c.rule("resolve", "an executable of one component is the first candidate in PATH order that is a file; any other is itself")
    c.rule("env", "the library path is the environment variable's, split; nothing when it is not set; paths are joined as the system joins them, all of them")
    k = 0
    for b in anchored(c, r"fs::paths::join_paths$"):
        for p in feasible(c.paths_of(b, events=r"env::join_paths$|Context>?::(with_)?context$", cut=".")):
            e = evs(p, r"env::join_paths$")
            if p.end != "return" and not e:
                c.ob("env", "joined", p.end == "loop", p.end, "env|joinend", p.span)
                continue
            r, x = p.ret, e[0].args[0] if e else None
            src = x.a[1][0] if x is not None and call_name(x).endswith(("::iter", "::into_iter")) else x
            ok = len(e) == 1 and same(src, mk("arg", "paths"))
            if ok and p.end == "return":
                w = evs(p, r"Context>?::(with_)?context$")
                if len(w) == 1 and r is w[0].res:
                    ok = w[0].args[0] is e[0].res
                else:
                    v = p.variant(e[0].res)
                    ok = v is not None and p.variant(r) == v and (v == "Err" or payload_of(r, "Ok") is payload_of(e[0].res, "Ok"))
            k += 1
            c.ob("env", "joined", ok, f"joins {show(x)[:80] if x is not None else None} and gives {show(r)[:120] if r is not None else None}", "env|join", p.span)
    c.floor("joined paths", k, 1)
    for b in anchored(c, r"path::unix_slash$"):
        ps = c.paths_of(b, events=".", cut=".")
        slash_automaton(c, ps)
    k = 0
    for b in anchored(c, r"path::diff$"):
        ps = c.paths_of(b, events="ZZ", cut=".")
        for p in ps:
            r = p.ret
            if p.end == "loop":
                continue
            if p.end != "return" or not call_name(r).endswith("diff_paths"):
                c.ob("diff", "result", False, f"{p.end} {show(r)[:120]}", "diff|result", p.span)
                continue
            k += 1
            for i, nm in enumerate(("fr", "to")):
                x, a = r.a[1][i], mk("arg", nm)
                y = x.a[4] if x.op == "agg" and x.a[2] in ("Owned", "Borrowed") else x
                cl = re.search(r"PathClean>?::clean$|path_clean::clean$", call_name(y)) and y.a[1][0] is a
                ok = cl or y is a and plain_components(c, ps, p, a)
                c.ob("diff", f"{nm}", bool(ok), f"the {('first', 'second')[i]} path of the difference is {show(y)[:100]}, under {[(show(v)[:80], f) for v, f in p.facts.items() if v.op != 'hof'][:3]}", f"diff|{nm}", p.span)
    c.floor("differences", k, 1)
    for b in anchored(c, r"fs::paths::normalize_path$"):
        ps = c.paths_of(b, events=".", cut=".")
        n = 0
        rets = {p.ret.id: p.ret for p in ps if p.end == "return"}
        for p in ps:
            steps = [v for v, f in p.facts.items() if re.search(r"Iterator>?::next$", call_name(v)) and f == ("eq", "Some")]
            if p.end == "return":
                R = p.ret
                init = R.a[3] if R.op == "loop" else None
                pre = [v for v, f in p.facts.items() if f == ("eq", "Prefix")]
                ok = init is not None and (call_name(init).endswith("PathBuf::new") or pre and mentions(init, lambda x: any(y is x for y in pre)))
                c.ob("normalize", "start", bool(ok), f"starts from {show(init)[:100] if init is not None else show(R)[:100]}", "normalize|start", p.span)
                continue
            if p.end != "loop":
                ok = any(f == ("eq", "Prefix") for f in p.facts.values())
                c.ob("normalize", "panic", ok, f"{p.end}", "normalize|panic", p.span)
                continue
            comp = F(steps[-1], "+Some", "0") if steps else None
            kind = p.variant(comp) if comp is not None else None
            for R in rets.values():
                if R.op != "loop":
                    continue
                nxt = p.loop_next(R)
                if nxt is None or not mentions(nxt, lambda x: x is R):
                    continue
                n += 1
                op = None
                if nxt is not R and nxt.op == "mut" and nxt.a[2] is R:
                    nm = nxt.a[0].a[0].rsplit("::", 1)[1]
                    own = len(nxt.a[0].a[1]) < 2 or mentions(nxt.a[0].a[1][1], lambda x: x is comp) and not calls_in(nxt.a[0].a[1][1], r"lossy|clean|join|file_")
                    op = nm if own else nm + " of something else"
                elif nxt is R:
                    op = "nothing"
                want = {"RootDir": "push", "Normal": "push", "ParentDir": "pop", "CurDir": "nothing"}.get(kind)
                f = p.facts.get(comp)
                if kind is None and f is not None and f[0] == "ne":
                    left = {"RootDir", "Normal", "ParentDir", "CurDir"} - set(f[1])
                    ws = {{"RootDir": "push", "Normal": "push", "ParentDir": "pop", "CurDir": "nothing"}[x] for x in left}
                    want = ws.pop() if len(ws) == 1 else None
                c.ob("normalize", f"{kind}", want is not None and op == want, f"{kind}: {op}", f"normalize|{kind}", p.span)
        c.floor("normalization steps", n, 4)
    s = mk("arg", "self")
    for b in anchored(c, r"PathAncestors as std::iter::Iterator>::next$"):
        k = 0
        for p in c.paths_of(b, events="."):
            r = p.ret
            v = p.variant(r)
            if v == "None":
                none = [x for x, f in p.facts.items() if f == ("eq", "None") and x.op == "proj" and base(x) is s]
                c.ob("ancestors", "end", bool(none), f"ends under {[(show(x)[:60], f) for x, f in p.facts.items()]}", "ancestors|end", p.span)
                if none:
                    c.ob("ancestors", "stays at the end", p.variant(p.read_arg("self", none[0].a[1][1])) == "None" or p.read_arg("self", none[0].a[1][1]) is none[0], "the iterator goes on after its end", "ancestors|fused", p.span)
                continue
            k += 1
            cur = r.a[4].a[0].a[0] if r.op == "agg" and r.a[4].op == "proj" and r.a[4].a[0].op == "proj" else None
            ok = v == "Some" and cur is not None and cur.op == "proj" and cur.a[0] is s
            c.ob("ancestors", "current", ok, f"returns {show(r)[:100]}", "ancestors|current", p.span)
            if not ok:
                continue
            path = r.a[4]
            end = p.read_arg("self", cur.a[1][1])
            stop = [(x, f) for x, f in p.facts.items() if x.op == "bin" and x.a[0] == "Eq" and path in x.a[1:] and f[0] == "eq"]
            stops = [x for x, f in stop if f[1] == "1"]
            stop_none = [x for x, f in p.facts.items() if f == ("eq", "None") and x.op == "proj" and x.a[0] is s and x is not cur]
            if stops:
                other = [y for y in stops[0].a[1:] if y is not path]
                ok = p.variant(end) == "None" and other and base(other[0]) is s
                c.ob("ancestors", "stops at the stop directory", bool(ok), f"after the stop directory comes {show(end)[:80]}", "ancestors|stop", p.span)
            else:
                par = call_name(end).endswith("Path::parent") and end.a[1][0] is path or end.op == "proj" and False
                c.ob("ancestors", "parent next", par, f"the next ancestor is {show(end)[:80]}", "ancestors|parent", p.span)
                c.ob("ancestors", "stop directory looked at", bool(stop_none or stop), "the next ancestor is taken without comparing with the stop directory", "ancestors|nostop", p.span)
        c.floor("ancestor steps", k, 2)
    c.rule("bytes", "a path becomes exactly its bytes and back")
    for b in anchored(c, r"fs::paths::path2bytes$"):
        for p in c.paths_of(b):
            r = payload_of(p.ret, "Ok")
            while call_name(r).endswith(("as_bytes", "as_os_str", "as_encoded_bytes", "as_ref")) and len(r.a[1]) == 1:
                r = r.a[1][0]
            c.ob("bytes", "to bytes", p.end == "return" and p.variant(p.ret) == "Ok" and r is mk("arg", "path"), f"{p.end}: {show(p.ret)[:120]}", "bytes|to", p.span)
    for b in anchored(c, r"fs::paths::bytes2path$"):
        for p in c.paths_of(b):
            r = payload_of(p.ret, "Ok")
            while call_name(r).endswith(("from_bytes", "Path::new", "::from", "to_owned", "to_path_buf", "to_os_string")) and len(r.a[1]) == 1:
                r = r.a[1][0]
            c.ob("bytes", "from bytes", p.end == "return" and p.variant(p.ret) == "Ok" and r is mk("arg", "bytes"), f"{p.end}: {show(p.ret)[:120]}", "bytes|from", p.span)
    for b in anchored(c, r"PathAncestors::new$") + anchored(c, r"fs::paths::ancestors$"):
        for p in c.paths_of(b, events="."):
            a = p.ret
            pv, sv = mk("arg", "path"), mk("arg", "stop_root_at")
            vals = list(a.a[4:]) if a.op == "agg" else []
            ok = len(vals) == 2 and any(x.op == "agg" and x.a[2] == "Some" and x.a[4] is pv for x in vals)
            c.ob("ancestors", "starts at the path", ok, f"returns {show(a)[:120]}", "ancestors|new", p.span)
            rest = [x for x in vals if not (x.op == "agg" and x.a[2] == "Some" and x.a[4] is pv)]
            if ok and rest:
                envs = [x for x, f in p.facts.items() if re.search(r"env::var(_os)?$", call_name(x)) and f[1] in ("Ok", "Some")]
                x = rest[0]
                if not envs:
                    w = p.variant(sv)
                    good = w == "None" and p.variant(x) == "None" or w == "Some" and p.variant(x) == "Some" and payload_of(x, "Some") is F(sv, "+Some", "0") or x is sv
                    c.ob("ancestors", "stop directory", good, f"the stop directory is {show(x)[:80]}", "ancestors|newstop", p.span)
    k = 0
    for b in anchored(c, r"fs::paths::strip_prefix_canonical$"):
        for p in c.paths_of(b, events="ZZ"):
            st = [v for v, f in p.facts.items() if call_name(v).endswith("Path::strip_prefix")] or calls_in(p.ret, r"Path::strip_prefix$")
            ok = p.end == "return" and len(set(x.id for x in st)) == 1
            c.ob("strip", "one strip", ok, f"{p.end} {show(p.ret)[:120]}", "strip|one", p.span)
            if not ok:
                continue
            k += 1
            rv = p.variant(p.ret)
            c.ob("strip", "outcome", p.ret is st[0] or payload_of(p.ret, rv) is F(st[0], "+" + str(rv), "0") and p.variant(st[0]) == rv, f"returns {show(p.ret)[:120]}", "strip|out", p.span)
            for i, nm in enumerate(("path", "base")):
                a = mk("arg", nm)
                x = st[0].a[1][i]
                cn = [v for v in p.facts if call_name(v).endswith("canonicalize") and v.a[1][0] is a]
                good = len(cn) == 1 and (p.variant(cn[0]) == "Ok" and x is F(cn[0], "+Ok", "0") or p.variant(cn[0]) == "Err" and x is a)
                good = good or call_name(x).endswith("unwrap_or_else") and mentions(x, lambda y: y is a)
                c.ob("strip", nm, good, f"the {nm} is {show(x)[:100]} when canonicalizing gives {[p.variant(v) for v in cn]}", f"strip|{nm}", p.span)
    c.floor("stripped", k, 2)
    ex = mk("arg", "exec")
    for b in anchored(c, r"fs::paths::resolve_executable$"):
        k = 0
        for p in c.paths_of(b, events=".", cut="."):
            one = None
            for v, f in p.facts.items():
                cnt = [x for x in (v.a[1:] if v.op == "bin" else [v]) if isinstance(x, V) and re.search(r"::count$|Path::parent$", call_name(x))]
                if v.op == "bin" and v.a[0] == "Eq" and cnt and any(str(const_of(x)) == "1" for x in v.a[1:]):
                    one = f == ("eq", "1")
            if p.end == "loop":
                isf = [f for v, f in p.facts.items() if call_name(v).endswith("Path::is_file")]
                c.ob("resolve", "only non-files are passed over", bool(isf) and all(f == ("eq", "0") for f in isf) or not isf and one is None, "a candidate is passed over that may be a file", "resolve|skip", p.span)
                continue
            rv = p.variant(p.ret)
            if rv != "Ok":
                nopath = [v for v, f in p.facts.items() if f in (("eq", "None"), ("eq", "Err")) and (re.search(r"env::var(_os)?$", call_name(v)) or re.search(r"Iterator>?::(next|find)$", call_name(v)))]
                c.ob("resolve", "error", rv == "Err" and one is True and bool(nopath), f"{p.end} {rv} when the name has one component: {one}", "resolve|err", p.span)
                continue
            k += 1
            x = payload(p.ret)
            if one is False:
                c.ob("resolve", "a path is itself", x is ex, f"returns {show(x)[:100]}", "resolve|self", p.span)
                continue
            isf = [v for v, f in p.facts.items() if call_name(v).endswith("Path::is_file") and f == ("eq", "1")]
            found = [v for v in isf if v.a[1][0] is x] or calls_in(x, r"Iterator>?::find$")
            c.ob("resolve", "a file", one is True and bool(found), f"returns {show(x)[:120]} without knowing that it is a file", "resolve|file", p.span)
            sp = [y for y in walk(x) if re.search(r"env::split_paths$", call_name(y))]
            ok = bool(sp) and all(calls_in(y, r"env::var(_os)?$") and const_of(calls_in(y, r"env::var(_os)?$")[0].a[1][0]) == "PATH" for y in sp)
            ok = ok and not calls_in(x, r"::(rev|skip|filter|step_by|take|last|nth)$")
            c.ob("resolve", "from PATH in order", ok, f"candidates are {show(x)[:160]}", "resolve|path", p.span)
        c.floor("resolved executables", k, 2)
    for b in anchored(c, r"fs::paths::dylib_path$"):
        ps = c.paths_of(b, events="ZZ", cut=".")
        for p in ps:
            if p.end == "loop":
                continue
            r = gathered(ps, p.ret)
            ev = [v for v in p.facts if re.search(r"env::var_os$", call_name(v))] or calls_in(r, r"env::var_os$")
            ok = p.end == "return" and len(ev) >= 1 and const_of(ev[0].a[1][0]) == "LD_LIBRARY_PATH"
            if ok and p.variant(ev[0]) == "Some":
                ok = bool(calls_in(r, r"env::split_paths$")) and calls_in(r, r"env::split_paths$")[0].a[1][0] is F(ev[0], "+Some", "0") and not calls_in(r, r"::(rev|skip|filter|take)$")
            elif ok and p.variant(ev[0]) == "None":
                ok = bool(re.search(r"Vec::(new|default)$|Default>?::default$", call_name(r)))
            c.ob("env", "library path", ok, f"returns {show(r)[:120]}", "env|dylib", p.span)


def plain_components(c, ps, p, a):
    """the path knows that `a` has neither '.' nor '..' components"""
    for v, f in p.facts.items():
        if f == ("eq", "None") and re.search(r"Iterator>?::next$", call_name(v)) and v.a[1][0].op == "loop":
            it = v.a[1][0].a[3]
            while call_name(it).endswith("into_iter"):
                it = it.a[1][0]
            if call_name(it).endswith("Path::components") and it.a[1][0] is a:
                comp = F(v, "+Some", "0")
                on = [q.facts.get(comp) for q in ps if q.ends_loop(v.a[1][0])]
                return all(x is not None and (x[0] == "eq" and x[1] not in ("ParentDir", "CurDir") or x[0] == "ne" and {"ParentDir", "CurDir"} <= set(x[1])) for x in on)
        if f != ("eq", "0") or not re.search(r"Iterator>?::any$", call_name(v)):
            continue
        it, clo = v.a[1][0], v.a[1][1]
        if not (call_name(it).endswith("Path::components") and it.a[1][0] is a):
            continue
        b = program().bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
        if b is None:
            continue
        ok = {"ParentDir": False, "CurDir": False}
        bad = False
        for q in c.paths_of(b):
            t = const_of(q.ret)
            vs = [f2 for x, f2 in q.facts.items() if x.op in ("arg", "proj")]
            kinds = {"ParentDir", "CurDir"}
            for f2 in vs:
                kinds &= {f2[1]} if f2[0] == "eq" else kinds - set(f2[1])
            if q.ret.op == "isvar" and q.ret.a[1] in ok:
                ok[q.ret.a[1]] = True
                continue
            for k in kinds:
                if str(t) in ("1", "True"):
                    ok[k] = True
                else:
                    bad = True
        return all(ok.values()) and not bad
    return False
