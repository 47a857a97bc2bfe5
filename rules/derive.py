"""tinymist-derive: the token streams the two derive macros produce, reconstructed from the macro's own code."""
import os
from core import check, program
from q import *
from fsys import under_mut, call_name
from std import payload_of
from l10n import find, captured
import build

D = "tinymist_derive"
PUNCT = dict(comma=",", colon=":", colon2="::", lt="<", gt=">", rarrow="->", dot=".", fat_arrow="=>", bang="!", semi=";", eq="=", pound="#", star="*", add="+", question="?", underscore="_", dot2="..", eq_eq="==", ne="!=")
PUNCT["and"], PUNCT["or"] = "&", "|"
NEW = r"TokenStream::new$|Default>?::default$"


def tokens(v):
    """tokens of a token stream value: str | ('group', delimiter, tokens) | ('val', V) | ('rep', loop variable)"""
    if call_name(v) and re.search(r"From>?::from$|Into>?::into$|::into_token_stream$|::clone$", call_name(v)):
        return tokens(v.a[1][0])
    if re.search(NEW, call_name(v)):
        return []
    if v.op == "loop":
        return tokens(v.a[3]) + [("rep", v)]
    if v.op == "mut" and v.a[0].op in ("call", "pure"):
        e = v.a[0]
        n = e.a[0]
        prev = tokens(v.a[2])
        m = re.search(r"quote::__private::push_(\w+)$", n)
        if m:
            k = re.sub(r"_spanned$", "", m.group(1))
            a = [x for x in e.a[1] if x is not v.a[2]]
            a = e.a[1][1:] if e.a[1][0] is v.a[2] else a
            if m.group(1).endswith("_spanned"):
                a = a[1:]
            if k == "ident":
                return prev + [const_of(a[0])]
            if k == "group":
                return prev + [("group", {"Parenthesis": "(", "Brace": "{", "Bracket": "["}.get(a[0].a[2] if a[0].op == "agg" else "", "?"), tokens(a[1]))]
            return prev + [PUNCT.get(k, "?" + k)]
        if re.search(r"quote::__private::parse(_spanned)?$", n):
            return prev + [const_of(e.a[1][-1])]
        if re.search(r"ToTokens>?::to_tokens$", n):
            x = e.a[1][0]
            return prev + [("val", interp(x))]
        if re.search(r"(TokenStreamExt|Extend)>?::(append_all|append_separated|append_terminated|extend)$", n):
            return prev + [("val", e.a[1][1])]
    return [("val", v)]


def interp(x):
    """the item in a RepInterp, whose next gives the item itself again"""
    while True:
        if x.op == "agg" and str(x.a[1]).endswith("RepInterp"):
            x = x.a[4]
        elif x.op == "proj" and x.a[1] == ("f", "0") and x.a[0].op == "proj" and x.a[0].a[1] == ("d", "Some") and call_name(x.a[0].a[0]).endswith("RepInterp::next"):
            x = x.a[0].a[0].a[1][0]
        else:
            return x


def items(v):
    """the list an item of a repetition comes from, and the closures it went through"""
    fs = []
    while True:
        if v.op == "loop" and isinstance(v.a[3], V) and not re.search(r"Vec::(new|with_capacity)$", call_name(v.a[3])):
            v = v.a[3]
        elif v.op == "proj" and v.a[1] == ("f", "0") and re.search(r"quote_into_iter$", call_name(v.a[0])):
            v = v.a[0].a[1][0]
        elif v.op in ("call", "pure") and re.search(r"::(quote_into_iter|into_iter|iter|collect|by_ref|deref|as_slice|cloned|copied|clone|as_ref)$", v.a[0]):
            v = v.a[1][0]
        elif v.op in ("call", "pure") and re.search(r"Iterator>?::(\w+)$", v.a[0]) and len(v.a[1]) > 1:
            fs.append((v.a[0].rsplit("::", 1)[1], v.a[1][1]))
            v = v.a[1][0]
        else:
            return v, fs[::-1]


class Reps:
    def __init__(self, c, ps):
        self.c, self.ps = c, ps
        self.I = mk("arg", "a variant")

    def variant_value(self, x):
        """what an interpolated item is, for a symbolic variant: (the list the variant comes from, V)"""
        y = x
        if y.op == "proj" and y.a[1] == ("f", "0") and y.a[0].op == "proj" and y.a[0].a[1] == ("d", "Some") and re.search(r"Iterator>?::next$", call_name(y.a[0].a[0])):
            src, fs = items(y.a[0].a[0].a[1][0])
            v = self.I
            if src.op == "loop":
                r = self.pushed(src)
                if r is None:
                    return None
                src, v = r
            for n, clo in fs:
                if n != "map":
                    return None
                b = program().bodies.get((clo.a[4], clo.a[3])) if clo.op in ("clo", "fn") else None
                qs = self.c.paths_of(b, events=".", args={1: clo, 2: v}) if b is not None else []
                if len(qs) != 1 or qs[0].end != "return":
                    return None
                v = qs[0].ret
            return src, v
        return None

    def pushed(self, L):
        """a list that a loop fills with one item for every variant: (list of the variants, item)"""
        out = set()
        for p in self.ps:
            if not p.ends_loop(L):
                continue
            n = p.loop_next(L)
            if n.op != "mut" or not re.search(r"Vec::push$", call_name(n.a[0])) or n.a[2] is not L:
                return None
            e = n.a[0].a[1][1]
            its = {x for x in walk(e) if x.op == "proj" and x.a[1] == ("f", "0") and x.a[0].op == "proj" and x.a[0].a[1] == ("d", "Some") and re.search(r"Iterator>?::next$", call_name(x.a[0].a[0]))}
            if len(its) != 1:
                return None
            it = its.pop()
            r = self.variant_value(it)
            if r is None:
                return None
            out.add((r[0], substitute(e, it, r[1])))
        return out.pop() if len(out) == 1 else None

    def contents(self, L):
        """[tokens added to a repetition by one iteration], without separators"""
        out = []
        for p in self.ps:
            if p.end != "loop" or not p.ends_loop(L):
                continue
            t = tokens(p.loop_next(L))
            k = next((i for i, x in enumerate(t) if isinstance(x, tuple) and x[0] == "rep" and x[1] is L), None)
            if k is None:
                return None
            t = t[k + 1:]
            for x in t:
                pass
            out.append(t)
        return out

    def flat(self, ts, src):
        """tokens with interpolated variants resolved; src collects the lists the variants come from"""
        out = []
        for x in ts:
            if isinstance(x, tuple) and x[0] == "val":
                r = self.variant_value(x[1])
                if r is not None:
                    src.append(r[0])
                    v = r[1]
                    out += self.flat(tokens(v), src) if v.op == "mut" else [("val", strip(v))]
                else:
                    out.append(("val", strip(x[1])))
            elif isinstance(x, tuple) and x[0] == "group":
                out.append(("group", x[1], self.flat(x[2], src)))
            else:
                out.append(x)
        return out


def substitute(v, a, b):
    if v is a:
        return b
    if isinstance(v, V):
        return mk(v.op, *[substitute(x, a, b) for x in v.a]) if v.op in ("proj", "call", "pure", "agg") else v
    return tuple(substitute(x, a, b) for x in v) if isinstance(v, tuple) else v


def strip(v):
    while v.op in ("call", "pure") and re.search(r"::(clone|as_ref|deref|to_owned|borrow)$", v.a[0]):
        v = v.a[1][0]
    return v


def split(ts, s):
    out = [[]]
    for x in ts:
        if x == s:
            out.append([])
        else:
            out[-1].append(x)
    return [x for x in out if x]


def impls(ts):
    """[(header tokens, body tokens)] of the impls in a token list"""
    out, cur = [], []
    for x in ts:
        if isinstance(x, tuple) and x[0] == "group" and x[1] == "{":
            out.append((cur, x[2]))
            cur = []
        else:
            cur.append(x)
    return out, cur


def fns(ts):
    """{name: (parameter names, body tokens)} of the functions in an impl"""
    out, i = {}, 0
    while i < len(ts):
        if ts[i] == "fn" and i + 2 < len(ts):
            name, ps = ts[i + 1], ts[i + 2]
            j = i + 3
            while j < len(ts) and not (isinstance(ts[j], tuple) and ts[j][0] == "group" and ts[j][1] == "{"):
                j += 1
            params = [split(x, ":")[0] for x in split(ps[2], ",")] if isinstance(ps, tuple) else []
            out[name] = ([x[-1] for x in params], effective(ts[j][2]) if j < len(ts) else None)
            i = j
        i += 1
    return out


def effective(ts):
    """a block without the statements that do nothing, the braces around all of it, and a final `return`"""
    while True:
        if len(ts) == 1 and isinstance(ts[0], tuple) and ts[0][0] == "group" and ts[0][1] == "{":
            ts = ts[0][2]
        elif ";" in ts and idle(ts[: ts.index(";")]):
            ts = ts[ts.index(";") + 1:]
        elif ts and ts[0] == "return":
            ts = ts[1:-1] if ts[-1] == ";" else ts[1:]
        else:
            return ts


def idle(st):
    """a statement of literals and names only"""
    if st[:2] == ["let", "_"] and "=" in st:
        st = st[st.index("=") + 1:]
    return all(isinstance(x, str) and re.match(r"^([\w.'\"&+*-]+)$", x) and x not in ("return", "break", "continue", "loop", "match", "if", "let") for x in flat_groups(st))


def flat_groups(ts):
    for i, x in enumerate(ts):
        if isinstance(x, tuple):
            yield from flat_groups(x[2]) if x[0] == "group" and x[1] == "(" and (i == 0 or not re.match(r"\w", str(ts[i - 1]))) else [x]
        else:
            yield x


def tshow(ts):
    return " ".join(x if isinstance(x, str) else x[1] + " " + tshow(x[2]) + " " + {"(": ")", "{": "}", "[": "]"}.get(x[1], "") if x[0] == "group" else "#" + show(x[1])[:30] for x in ts)[:220]


def outputs(c, ps, rule, data):
    """the paths that produce code; every other one must refuse the input"""
    out = []
    for p in ps:
        if p.end == "loop":
            continue
        inp = [v for v in p.facts if re.search(r"syn::parse(_macro_input)?(::parse)?$|parse2?$", call_name(v))]
        if any(x.op == "ovf" and f == ("eq", "1") for x, f in p.facts.items()):
            continue
        if p.end == "diverge":
            continue  # a macro that panics is a compile error
        if inp and p.variant(inp[0]) == "Err":
            c.ob(rule, "invalid input", bool(re.search(r"to_compile_error|into_compile_error", " ".join(e.name for e in p.events))), f"{show(p.ret)[:80]}", rule + "|invalid", p.span)
            continue
        ok = bool(inp)
        if ok:
            inp = F(inp[0], "+Ok", "0")
            c.ob(rule, "kind of item", p.variant(F(inp, "data")) == data, f"code is produced for {p.variant(F(inp, 'data')) or 'any item'}", rule + "|kind", p.span)
            out.append((p, inp))
        else:
            c.ob(rule, "input", False, f"{p.end} {show(p.ret)[:80]}", rule + "|input", p.span)
    return out


def trait_methods():
    """methods of TyCtx that an impl has to give: {name: number of parameters}"""
    import glob
    for f in sorted(glob.glob(os.path.join(build.REPO, "crates/tinymist-analysis/src/ty/*.rs"))):
        m = re.search(r"pub trait TyCtx \{(.*?)\n\}", open(f).read(), re.S)
        if m:
            return {n: len([x for x in a.split(",") if x.strip()]) for n, a in re.findall(r"fn (\w+)\s*\(([^)]*)\)[^;{]*;", m.group(1))}
    return {}


@check("D01")
def d01(c):
    c.rule("bind", "the derived type context forwards every method of the trait, with its arguments in order, to the bound member: the expression of the bind attribute, else tyctx")
    want = trait_methods() or {"global_bounds": 3, "local_bind_of": 2}
    c.ob("bind", "trait", len(want) >= 2, f"{want}", "bind|trait")
    n = 0
    for b in find(c, r"^bind_ty_ctx$", D):
        ps = c.paths_of(b, events=".", cut=".")
        for p, inp in outputs(c, ps, "bind", "Struct"):
            n += 1
            im, rest = impls(tokens(p.ret))
            ok = len(im) == 1 and not rest
            c.ob("bind", "one impl", ok, f"{len(im)} impls", "bind|one", p.span)
            if not ok:
                continue
            head, body = im[0]
            g = [x[1] for x in head if isinstance(x, tuple)]
            names = [x for x in head if isinstance(x, str)]
            ok = names == ["impl", "TyCtx", "for"] and len(g) == 4 and strip(g[1]) is F(inp, "ident") and [x.a[1] for x in (g[0], g[2], g[3]) if x.op == "proj"] == [("f", "0"), ("f", "1"), ("f", "2")] and all(re.search(r"split_for_impl$", call_name(x.a[0])) and x.a[0].a[1][0] is F(inp, "generics") for x in (g[0], g[2], g[3]))
            c.ob("bind", "header", ok, tshow(head), "bind|header", p.span)
            f = fns(body)
            c.ob("bind", "methods", set(f) == set(want), f"{sorted(f)} instead of {sorted(want)}", "bind|methods", p.span)
            for name, (params, t) in f.items():
                ok, m = forwards(t, name, params)
                c.ob("bind", f"forwards {name}", ok and len(params) == want.get(name, len(params)), tshow(t or []), f"bind|forward|{name}", p.span)
                if ok:
                    c.ob("bind", f"member of {name}", bound(c, p, m, inp, ps), f"{show(m)[:120]}", f"bind|member|{name}", p.span)
    c.floor("outcomes", n, 2)


def forwards(t, name, params):
    """t is self.#m.name(params): m"""
    if t and len(t) == 6 and t[0] == "self" and t[1] == "." and isinstance(t[2], tuple) and t[2][0] == "val" and t[3] == "." and t[4] == name:
        a, m = t[5], t[2][1]
        rest = params[1:]
    elif t and len(t) == 4 and t[0] == "TyCtx" and t[1] == "::" and t[2] == name and isinstance(t[3], tuple):
        x = split(t[3][2], ",")
        if not x or len(x[0]) != 4 or x[0][:3] != ["&", "self", "."]:
            return False, None
        m = x[0][3][1]
        return params[0] == "self" and x[1:] == [[y] for y in params[1:]], m
    else:
        return False, None
    return isinstance(a, tuple) and a[1] == "(" and params[:1] == ["self"] and split(a[2], ",") == [[x] for x in rest], m


def bound(c, p, m, inp, ps):
    """m is the expression of the bind attribute if there is one, else the name tyctx"""
    look = [v for v in p.facts if re.search(r"Iterator>?::(find_map|find|next)$", call_name(v)) and mentions(v.a[1][0], lambda x: x is F(inp, "attrs"))]
    if any(p.variant(v) == "Some" for v in look):
        v = [v for v in look if p.variant(v) == "Some"][-1]
        base, fs = items(v.a[1][0])
        if base is not F(inp, "attrs") or fs:
            return False
        if call_name(v).endswith("find_map"):
            return strip(m) is F(v, "+Some", "0") and bind_closure(c, v.a[1][1])
        if call_name(v).endswith("next"):
            m = strip(m)
            x = F(v, "+Some", "0")
            return m.op == "proj" and re.search(r"parse_args$", call_name(m.a[0].a[0])) and m.a[0].a[0].a[1][0] is x and is_bind(p, x) == "1" and all(is_bind(q, F(w, "+Some", "0")) == "0" for q in ps if q.end == "loop" for w in q.facts if call_name(w).endswith("next") and items(w.a[1][0])[0] is base)
        if call_name(v).endswith("find"):
            m = strip(m)
            return m.op == "proj" and re.search(r"parse_args$", call_name(m.a[0].a[0])) and m.a[0].a[0].a[1][0] is F(v, "+Some", "0") and bind_test(c, v.a[1][1])
        return False
    if not look or any(p.variant(v) != "None" for v in look):
        return False
    m = strip(m)
    if m.op == "proj" or re.search(r"parse(_quote)?$|::from$|::into$", call_name(m)):
        ids = [x for x in walk(m) if re.search(r"Ident::new$", call_name(x))]
        return len(ids) == 1 and const_of(ids[0].a[1][0]) == "tyctx" or "tyctx" in [t for x in walk(m) if x.op == "mut" for t in tokens(x)]
    return re.search(r"Ident::new$", call_name(m)) and const_of(m.a[1][0]) == "tyctx"


def is_bind(p, at):
    t = [f[1] for v, f in p.facts.items() if re.search(r"is_ident$", call_name(v)) and f[0] == "eq" and const_of(v.a[1][1]) == "bind" and mentions(v.a[1][0], lambda x: x is at)]
    return t[0] if len(t) == 1 else None


def bind_test(c, clo):
    b = program().bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
    at = mk("arg", "an attribute")
    qs = c.paths_of(b, events=".", args={1: clo, 2: at}) if b is not None else []
    return len(qs) == 1 and re.search(r"is_ident$", call_name(qs[0].ret)) and const_of(qs[0].ret.a[1][1]) == "bind" and mentions(qs[0].ret.a[1][0], lambda x: x is at)


def bind_closure(c, clo):
    b = program().bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
    if b is None:
        return False
    at = mk("arg", "an attribute")
    ok, n = True, 0
    for q in c.paths_of(b, events=".", args={1: clo, 2: at}):
        t = [f for v, f in q.facts.items() if re.search(r"is_ident$", call_name(v)) and const_of(v.a[1][1]) == "bind"] + [("eq", "1") if (f[1] == "1") == (v.a[0] == "Eq") else ("eq", "0") for v, f in q.facts.items() if v.op == "bin" and any(const_of(x) == "bind" for x in v.a[1:])]
        if q.end == "diverge":
            continue
        r = q.variant(q.ret)
        if r == "None":
            ok = ok and t == [("eq", "0")]
        else:
            n += 1
            x = payload_of(q.ret, "Some")
            ok = ok and r == "Some" and t == [("eq", "1")] and x.op == "proj" and re.search(r"parse_args$", call_name(x.a[0].a[0])) and mentions(x, lambda y: y is at)
    return ok and n >= 1


@check("D02")
def d02(c):
    c.rule("name", "the derived name of every variant is its content's name")
    c.rule("span", "the derived span of every variant is its content's span")
    c.rule("debug", "the derived debug text of every variant is the variant's name and its content in parentheses")
    n = 0
    for b in find(c, r"^gen_decl_enum$", D):
        ps = c.paths_of(b, events=".", cut=".")
        R = Reps(c, ps)
        for p, inp in outputs(c, ps, "name", "Enum"):
            im, rest = impls(tokens(p.ret))
            n += 1
            c.ob("name", "impls", not rest, tshow(rest), "name|rest", p.span)
            got = set()
            variants = F(F(F(inp, "data"), "+Enum", "0"), "variants")
            for head, body in im:
                names = [x for x in head if isinstance(x, str)]
                vals = [strip(x[1]) for x in head if isinstance(x, tuple)]
                own = [F(inp, "ident")]
                for name, (params, t) in fns(body).items():
                    rule = {"name": "name", "span": "span", "fmt": "debug"}.get(name)
                    if rule is None:
                        continue
                    ok = vals == own and (names == ["impl"] if rule != "debug" else names[-2:] == ["Debug", "for"])
                    c.ob(rule, "for the enum", ok, tshow(head), rule + "|head", p.span)
                    got.add(rule)
                    if t and len(t) == 3 and t[:2] == ["match", "self"] and isinstance(t[2], tuple):
                        arms = t[2][2]
                    elif t and len(t) == 4 and t[:3] == ["match", "*", "self"]:
                        arms = t[3][2]
                    else:
                        arms = None
                    reps = [x for x in arms or [] if isinstance(x, tuple) and x[0] == "rep"]
                    ok = arms is not None and len(reps) == 1 and all(x == "," for x in arms if x not in reps)
                    c.ob(rule, "arms", ok, tshow([x for x in t or [] if not (isinstance(x, tuple) and x[0] == "rep")])[:100], rule + "|arms", p.span)
                    if not ok:
                        continue
                    cs = R.contents(reps[0][1])
                    c.ob(rule, "arm", bool(cs), "an arm that cannot be followed", rule + "|arm", p.span)
                    for ts in cs or []:
                        src = []
                        ts = R.flat(ts, src)
                        ts = [x for i, x in enumerate(ts) if not (x == "," and i in (0, len(ts) - 1))]
                        if not ts:
                            continue
                        ok = bool(src) and all(strip(x) is variants for x in src)
                        c.ob(rule, "every variant", ok, f"{[show(x)[:60] for x in src]}", rule + "|every", p.span)
                        c.ob(rule, "arm text", arm(ts, rule, params, R.I, F(inp, "ident")), tshow(ts), rule + "|text", p.span)
            c.ob("name", "all three", got == {"name", "span", "debug"}, f"{sorted(got)}", "name|all", p.span)
    c.floor("outcomes", n, 1)


def arm(ts, rule, params, I, enum):
    ident = ("val", F(I, "ident"))
    if "=>" not in ts:
        return False
    k = ts.index("=>")
    pat, body = ts[:k], ts[k + 1:]
    body = effective(body)
    if len(pat) != 4 or pat[0] not in ("Self", ("val", enum)) or pat[1] != "::" or pat[2] != ident or not isinstance(pat[3], tuple) or pat[3][1] != "(":
        return False
    x = pat[3][2]
    if len(x) != 1 or not isinstance(x[0], str):
        return False
    x = x[0]
    if rule in ("name", "span"):
        return body == [x, ".", rule, ("group", "(", [])]
    f = params[-1]
    sname = ["stringify", "!", ("group", "(", [ident])]
    if body[:2] == ["write", "!"] and len(body) == 3:
        a = split(body[2][2], ",")
        if len(a) == 3 and a[0] == [f] and a[2] == [x] and a[1][:2] == ["concat", "!"]:
            return split(a[1][2][2], ",") == [sname, ['"({:?})"']]
        return len(a) == 4 and a[0] == [f] and a[1] == ['"{}({:?})"'] and a[2] == sname and a[3] == [x]
    return body == [f, ".", "debug_tuple", ("group", "(", sname), ".", "field", ("group", "(", [x]), ".", "finish", ("group", "(", [])]
