"""J07: what is stored as JSON or TOML is what is read from it (derived serde code of all crates that are built here)."""
import re
from collections import defaultdict
from core import check, program
from mir import *
from q import *
import vfs
from vfs import SELF, call_name, payload
from pkg import unwrap
from project import sp, subvalues
from universe import flag
from task import ok_of
from lock import is_list, calls

SER = re.compile(r"^<([\w:]+) as serde::Serialize>::serialize$")
KW = dict(events=r".", hof=False, iters=False, cut=".", max_states=400000)
OPQ = r"as serde::(de::)?Deserialize(<.*>)?>::deserialize$|as serde::(ser::)?Serialize>::serialize$|is_empty$|is_none$"


def visitors(P, crate, ty, fn):
    """the bodies of a function of the visitors of a type: (those of the type itself, those of its variants)"""
    own, sub = [], []
    for (k, i), b in P.bodies.items():
        if k != crate or not b.name.endswith("::" + fn):
            continue
        if re.search(r"<impl serde::Deserialize<'de> for %s>::deserialize::__(Field)?Visitor(<'de>)? as [^>]*(<'de>)?>::%s$" % (re.escape(ty), fn), b.name):
            own.append(b)
        elif re.search(r"<impl serde::Deserialize<'de> for %s>::deserialize::__Visitor(<'de>)? as .*>::visit_enum::__(Field)?Visitor" % re.escape(ty), b.name):
            sub.append(b)
    return own, sub


def names_of(c, b):
    """the key a name is read as: {name: index}; other names as None"""
    out, other = {}, None
    for p in c.paths_of(b, **{**KW, "cut": None}):
        hit = [const_of(x) for v, t in p.facts.items() if v.op == "bin" and v.a[0] == "Eq" and t == ("eq", "1") for x in v.a[1:3] if isinstance(const_of(x), str)]
        r = p.ret
        if p.end != "return" or r.op != "agg":
            continue
        k = agg_field(r, "0")
        if agg_variant(r) == "Ok" and k.op == "agg" and len(hit) == 1:
            m = re.match(r"__field(\d+)$", str(agg_variant(k)))
            if m:
                out[hit[0]] = int(m.group(1))
        elif not hit:
            other = "ignored" if agg_variant(r) == "Ok" else "refused"
    return out, other


class Read:
    """how the fields of a struct, or of one variant, are read from a map"""

    def __init__(self, c, b):
        self.from_key = {}      # index of the key -> loop value it is kept in
        self.fields = {}        # field -> loop value
        self.missing = defaultdict(list)  # field -> values it has when not given
        self.flat = set()
        self.variant = None
        self.bad = None
        for p in c.paths_of(b, opaque=OPQ, **KW):
            if p.end == "loop":
                for v, t in p.facts.items():
                    m = re.match(r"__field(\d+)$", str(t[1])) if t[0] == "eq" else None
                    if m and re.search(r"next_key", show(v)):
                        for lv in p.loop_vars():
                            nx = p.loop_next(lv)
                            if nx is not None and nx is not lv and nx.op == "agg" and agg_variant(nx) == "Some" and "next_value" in show(nx):
                                self.from_key[int(m.group(1))] = (lv, "with" if unwrap(agg_field(nx, "0")).op == "proj" and unwrap(agg_field(nx, "0")).a[1] == ("f", "value") else None)
            elif p.end == "return" and p.ret.op == "agg" and agg_variant(p.ret) == "Ok":
                x = agg_field(p.ret, "0")
                if x.op != "agg" or not x.a[3]:
                    self.bad = "what is read is not told"
                    continue
                self.variant = agg_variant(x)
                for f in x.a[3]:
                    v = agg_field(x, f)
                    w = unwrap(v)
                    if any(re.search(r"FlatMapDeserializer", show(y)) for y in subvalues(w)) or re.search(r"Deserialize>::deserialize", show(w)) and not any(y.op == "loop" and w is payload(y, "Some") for y in subvalues(w)):
                        self.flat.add(f)
                        continue
                    lv = next((y for y in subvalues(v) if y.op == "loop" and payload(y, "Some") is w), None)
                    if lv is not None:
                        self.fields[f] = lv
                    else:
                        self.missing[f].append(v)


class Written:
    """how the fields are written: for each field the names it is written under, and the conditions it is left out on"""

    def __init__(self):
        self.name = defaultdict(set)   # field -> names
        self.with_ = set()
        self.left = defaultdict(list)  # field -> facts of paths that leave it out
        self.flat = set()
        self.tag = None
        self.kind = None
        self.vname = None


def field_in(v, base):
    """the field of the value that another one is, or is made of"""
    w = unwrap(v)
    got = []
    for x in [w] + list(subvalues(w)):
        y = unwrap(x)
        if y.op == "proj" and y.a[1][0] == "f" and unwrap(y.a[0]) is base:
            got.append((str(y.a[1][1]), y is w))
    return got[0] if got else (None, False)


def write_of(c, b):
    """{variant or None: Written}"""
    out = {}
    for p in c.paths_of(b, opaque=OPQ, **{**KW, "cut": None}):
        v = p.variant(SELF)
        base = SELF
        w = out.setdefault(v, Written())
        if v is not None:
            base = None
        seen = {}
        done = p.end == "return" and p.variant(p.ret) != "Err" and not any(e.kind == "call" and p.variant(e.res) == "Err" for e in p.events)
        for e in p.events:
            if e.kind != "call":
                continue
            nm = e.name
            last = p.ret is e.res or unwrap(p.ret) is e.res
            if re.search(r"serialize_unit_variant$", nm):
                w.kind, w.vname = "unit", const_of(e.args[3])
            elif re.search(r"serialize_(newtype|tuple|struct)_variant$", nm):
                w.kind, w.vname = re.search(r"serialize_(\w+)_variant$", nm).group(1), const_of(e.args[3])
            elif re.search(r"serialize_tagged_newtype$", nm):
                w.kind, w.tag, w.vname = "tagged", const_of(e.args[3]), const_of(e.args[4])
            elif re.search(r"serialize_newtype_struct$", nm):
                w.kind = "newtype"
            elif re.search(r"(SerializeStruct|SerializeStructVariant)>?::serialize_field$|SerializeMap>?::serialize_entry$", nm):
                n = const_of(e.args[1])
                if v is None:
                    f, whole = field_in(e.args[2], SELF)
                else:
                    f, whole = None, True
                    for x in [unwrap(e.args[2])] + list(subvalues(e.args[2])):
                        y = unwrap(x)
                        if y.op == "proj" and y.a[1][0] == "f":
                            z = y.a[0]
                            if z.op == "proj" and unwrap(z.a[0]) is SELF or payload(SELF, v) is z:
                                f, whole = str(y.a[1][1]), y is unwrap(e.args[2])
                                break
                if f is None and isinstance(const_of(e.args[2]), str):
                    w.tag, w.vname, w.kind = n, const_of(e.args[2]), "unit tagged"
                    continue
                seen[f] = n
                if not whole:
                    w.with_.add(f)
            elif re.search(r"Serialize>::serialize$", nm) and len(e.args) == 2 and re.search(r"FlatMapSerializer", show(e.args[1])):
                f, _ = field_in(e.args[0], SELF)
                w.flat.add(f)
        for f, n in seen.items():
            w.name[f].add(n)
        if done:
            w.left["*"].append((p, set(seen)))
    for w in out.values():
        for p, seen in w.left.pop("*", []):
            for f in set(w.name) - seen:
                w.left[f].append(p)
    return out


def cond(p, f, variant):
    """why a field is left out: 'none', 'empty', 'no', or None where it is not told"""
    for v, t in p.facts.items():
        w = unwrap(v)
        place = lambda x: any(unwrap(y).op == "proj" and unwrap(y).a[1][0] == "f" and str(unwrap(y).a[1][1]) == f for y in [x])
        if place(w):
            if p.variant(w) in ("None", "Null"):
                return "none" if p.variant(w) == "None" else "null"
            if t == ("eq", "0"):
                return "no"
        if re.search(r"::is_empty$", call_name(w)) and place(w.a[1][0]) and flag(p, v):
            return "empty"
        if re.search(r"::is_none$", call_name(w)) and place(w.a[1][0]) and flag(p, v):
            return "none"
        if re.search(r"ops::Not>::not$", call_name(w)) and place(w.a[1][0]) and flag(p, v):
            return "no"
        if re.search(r"Value::is_null$", call_name(w)) and place(w.a[1][0]) and flag(p, v):
            return "null"
    return None


def fits(why, v):
    """whether what a missing field is read as is what was left out"""
    w = unwrap(v)
    if re.search(r"missing_field$", call_name(ok_of(w)) if ok_of(w) is not None else ""):
        return why == "none"
    if re.search(r"::default$", call_name(w)):
        return why in ("none", "empty", "no", "null")
    if w.op == "agg" and agg_variant(w) in ("None", "Null"):
        return why == ("none" if agg_variant(w) == "None" else "null")
    k = const_of(w)
    if isinstance(k, dict) and "variant" in k:
        return why == {"None": "none", "Null": "null"}.get(k["variant"])
    if const_of(w) in (False, 0) and w.op == "const":
        return why == "no"
    return why == "empty" and bool(is_list(w))


def compare(c, site, span, w, r, names, n, tag):
    """the fields of one struct or variant"""
    if r.bad:
        c.ob("fields", site, False, r.bad, span=span)
        return
    every = set(r.fields) | set(r.missing) | r.flat
    for f in sorted(every, key=str):
        if f in r.flat or f in w.flat:
            n["flattened"] += 1
            c.ob("fields", site, f in r.flat and f in w.flat, "`%s` is stored in its own place, or read from there, but not both" % f, key="fields|%s|%s" % (site, f), span=span)
            continue
        n["field"] += 1
        ns = w.name.get(f, set())
        ok = len(ns) == 1 and f in r.fields
        if ok:
            i = names.get(next(iter(ns)))
            ok = i is not None and r.from_key.get(i, (None,))[0] is r.fields[f]
            if ok and (r.from_key[i][1] == "with") != (f in w.with_):
                c.ob("fields", site, False, "`%s` is stored in a form of its own, or read in one, but not both" % f, key="fields|%s|%s" % (site, f), span=span)
                continue
        c.ob("fields", site, ok, "`%s` is not read by the name it is stored under, or is not stored" % f, key="fields|%s|%s" % (site, f), span=span)
        if not ok:
            continue
        whys = {cond(p, f, None) for p in w.left.get(f, [])}
        for why in whys:
            n["left out: " + str(why)] += 1
            ok = why is not None and bool(r.missing[f]) and all(fits(why, v) for v in r.missing[f])
            c.ob("fields", site, ok, "`%s` is left out on a value it is not read as when it is missing" % f, key="left|%s|%s" % (site, f), span=span)
    seen = [next(iter(x)) for x in w.name.values() if len(x) == 1]
    c.ob("fields", site, len(set(seen)) == len(seen) and tag not in seen, "two fields are stored under one name", span=span)


def stored(c, n):
    for which, crates in ((1, ("sync_ls",)), (2, ("tinymist_std", "tinymist_world", "tinymist_task", "tinymist_project", "tinymist_package"))):
        c.which = which
        P = program(which)
        for (k, i), b in sorted(P.bodies.items(), key=lambda x: x[1].name):
            m = SER.match(b.name)
            if not m or k not in crates:
                continue
            ty = m.group(1)
            de = [x for (k2, _), x in P.bodies.items() if k2 == k and x.name == "<%s as serde::Deserialize>::deserialize" % ty]
            fv, fsub = visitors(P, k, ty, "visit_str")
            mv, msub = visitors(P, k, ty, "visit_map")
            ev, _ = visitors(P, k, ty, "visit_enum")
            if not de or not fv:
                continue
            names, other = names_of(c, fv[0])
            ws = write_of(c, b)
            adj = {const_of(x)["variant_name"] for p in c.paths_of(b, opaque=OPQ, **{**KW, "cut": None}) for e in p.events if e.kind == "call" for x in e.args if isinstance(const_of(x), dict) and "variant_name" in const_of(x)}
            if adj:
                n["adjacent"] += len(adj)
                c.ob("variants", ty, any(adj <= set(names_of(c, x)[0]) for x in fv), "a variant is not read by the name it is stored with", span=b.span)
                continue
            if mv and set(ws) <= {None}:
                n["type with fields"] += 1
                w = ws[None]
                compare(c, ty, b.span, w, Read(c, mv[0]), names, n, w.tag)
                continue
            variants(c, P, k, ty, b, de[0], names, ws, ev, fsub, msub, n)


def variants(c, P, k, ty, b, de, names, ws, ev, fsub, msub, n):
    """enums: each variant is read by the name it is stored under"""
    n["type with variants"] += 1
    read = {}     # index -> (variant, field names of a struct variant)
    src = ev[0] if ev else de
    for p in c.paths_of(src, opaque=OPQ, **{**KW, "cut": None}):
        i = next((int(t[1][7:]) for v, t in p.facts.items() if t[0] == "eq" and re.match(r"__field\d+$", str(t[1]))), None)
        if i is None:
            continue
        ls = calls(p, r"struct_variant$")
        x = p.ret
        if x.op == "agg" and agg_variant(x) == "Ok" and agg_field(x, "0").op == "agg":
            read[i] = (agg_variant(agg_field(x, "0")), None)
        elif ls and p.ret is ls[0].res:
            read[i] = (None, const_of(ls[0].args[1]))
    tags = {w.tag for w in ws.values() if w.tag}
    c.ob("variants", ty, len(tags) <= 1, "variants are told by different names", span=b.span)
    if tags:
        t = next(iter(tags))
        got = {const_of(e.args[0]) for p in c.paths_of(de, opaque=OPQ, **{**KW, "cut": None}) for e in calls(p, r"TaggedContentVisitor(<.*>)?::new$")}
        c.ob("variants", ty, got == {t}, "a variant is not told by the name it is stored with", span=b.span)
    reads = {}
    for mb in msub:
        if mb.name.endswith("visit_map"):
            r = Read(c, mb)
            reads[r.variant] = (r, mb)
    keys = [names_of(c, fb)[0] for fb in fsub if fb.name.endswith("visit_str")]
    for v, w in sorted(ws.items(), key=str):
        if w.vname is None:
            n["untagged"] += 1
            continue
        n["variant"] += 1
        i = names.get(w.vname)
        ok = i in read
        if ok and read[i][0] is not None:
            ok = read[i][0] == v
        elif ok:
            ok = v in reads
        c.ob("variants", ty, ok, "`%s` is read as another variant, or not at all" % v, key="variants|%s|%s" % (ty, v), span=b.span)
        if ok and read[i][0] is None:
            fields = read[i][1]
            want = {f: j for j, f in enumerate(fields or [])}
            c.ob("variants", ty, want in keys, "the names of the fields of `%s` are read in another order" % v, span=b.span)
            compare(c, "%s::%s" % (ty, v), b.span, w, reads[v][0], want, n, None)
    vs = [w.vname for w in ws.values() if w.vname]
    c.ob("variants", ty, len(set(vs)) == len(vs), "two variants are stored under one name", span=b.span)


@check("J07")
def j07(c):
    n = defaultdict(int)
    c.rule("fields", "Each field is read by the one name it is stored under; what is stored in a form of its own or in place is read so. A field that may be left out is left out only on the value it is read as when it is missing.")
    c.rule("variants", "Each variant is read by the one name, and under the one key, it is stored with.")
    stored(c, n)
    for k, m in (("type with variants", 8), ("variant", 28), ("type with fields", 35), ("field", 90), ("flattened", 8), ("left out: none", 10), ("left out: empty", 5), ("left out: no", 1), ("left out: null", 2)):
        c.floor("cases: " + k, n[k], m)
