"""tinymist-l10n: messages, locales, translation files, the extraction tool."""
from core import check, program
from q import *
from fsys import under_mut, call_name, payload, base
from std import payload_of, feasible, char_const, debug_only, appended
from misc import plain, written

L10N = "tinymist_l10n"


def find(c, rx, crate=L10N):
    bs = {b.name: b for b in reversed(fn_by(program(), rx, crate))}
    c.anchor(rx, bs)
    return list(bs.values())


def poison(p):
    """the path ends because a lock is poisoned: only after another thread panicked while holding it"""
    return p.end == "diverge" and any(f == ("eq", "Err") and re.search(r"(RwLock|Mutex)::(read|write|lock)$", call_name(v)) for v, f in p.facts.items())


def sep(v):
    """constant separator, as text"""
    ch = char_const(v)
    return ch if ch is not None else const_of(v)


def text(v):
    """normal form of a text value: ('v', V) | (op, text, constant)"""
    while is_cow(v) or v.op in ("call", "pure") and re.search(r"::(as_str|as_ref|deref|borrow|to_string|to_owned|into|from|chars|into_boxed_str|as_bytes)$", v.a[0]) and v.a[1]:
        v = v.a[4] if is_cow(v) else v.a[1][0]
    n = call_name(v)
    if re.search(r"str::trim$", n):
        return ("trim", text(v.a[1][0]), "")
    if re.search(r"str::trim_(start|end|left|right)$", n):
        return (n.rsplit("::", 1)[1], text(v.a[1][0]), "")
    # the iterator after one character
    if v.op == "mut" and re.search(r"Chars as std::iter::Iterator>::next$", call_name(v.a[0])):
        return ("after1", text(v.a[2]), v.a[0])
    if v.op == "proj" and v.a[1][0] == "f" and v.a[0].op == "proj" and v.a[0].a[1] == ("f", "0"):
        x = v.a[0].a[0]
        if x.op == "proj" and x.a[1] == ("d", "Some") and re.search(r"str::split_once$", call_name(x.a[0])):
            s = x.a[0]
            return ("head" if v.a[1][1] == "0" else "tail", text(s.a[1][0]), sep(s.a[1][1]))
    if v.op == "proj" and v.a[1] in (("f", "0"), ("f", "1")) and re.search(r"str::split_at$", call_name(v.a[0])):
        s, i = v.a[0].a[1]
        if i.op == "proj" and i.a[0].op == "proj" and re.search(r"str::find$", call_name(i.a[0].a[0])) and text(i.a[0].a[0].a[1][0]) == text(s):
            d = sep(i.a[0].a[0].a[1][1])
            return ("head" if v.a[1][1] == "0" else "from", text(s), d)
    if v.op == "proj" and v.a[1] == ("f", "0") and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Some"):
        x = v.a[0].a[0]
        m = re.search(r"str::strip_(prefix|suffix)$", call_name(x))
        if m:
            return ("after" if m.group(1) == "prefix" else "before", text(x.a[1][0]), sep(x.a[1][1]))
    if re.search(r"Index>?::index$|str::get_unchecked$", n) or v.op == "index":
        s, r = (v.a[1][0], v.a[1][1]) if v.op != "index" else (v.a[0], v.a[1])
        if r.op == "agg":
            lo, hi = None, None
            fs = dict(zip(r.a[3], r.a[4:])) if isinstance(r.a[3], tuple) else {}
            lo, hi = fs.get("start"), fs.get("end")

            def pos(x):
                """(separator, 0|length) when x is the position of the first separator in s, or just after it"""
                if x is None:
                    return None
                y, d = x, 0
                if y.op == "bin" and y.a[0] in ("Add", "AddUnchecked", "AddWithOverflow"):
                    k = const_of(y.a[2])
                    y, d = y.a[1], int(k) if str(k).isdigit() else None
                if y.op == "proj" and y.a[0].op == "bin":
                    return pos(mk("bin", "Add", y.a[0].a[1], y.a[0].a[2]))
                if y.op == "proj" and y.a[0].op == "proj" and re.search(r"str::find$", call_name(y.a[0].a[0])) and text(y.a[0].a[0].a[1][0]) == text(s):
                    return sep(y.a[0].a[0].a[1][1]), d
                return None
            if lo is None and hi is not None:
                q = pos(hi)
                if q and q[1] == 0:
                    return ("head", text(s), q[0])
            if hi is None and lo is not None:
                q = pos(lo)
                if q and q[0] and q[1] == len(q[0].encode()):
                    return ("tail", text(s), q[0])
                if str(const_of(lo)).isdigit():
                    t = text(s)
                    if t[0] == "from" and t[2] and str(len(t[2].encode())) == str(const_of(lo)):
                        return ("tail",) + t[1:]
                    return ("drop", t, str(const_of(lo)))
    return ("v", v, "")


def eat(t, start, d=0):
    """atoms consumed from text `start` to reach its rest `t` (None: t is not a rest of start)"""
    if t == start:
        return []
    if d > 12 or t[0] == "v":
        return None
    r = eat(t[1], start, d + 1)
    if r is None:
        return None
    if t[0] == "after1":
        return r + [("char", t[2])]
    if t[0] == "tail":
        return r + [("text", ("head", t[1], t[2])), ("lit", t[2])]
    if t[0] == "after":
        return r + [("lit", t[2])]
    return None


def fact_eq(p, v, rx):
    """facts on calls matching rx whose first argument has the text normal form v"""
    return [(x, f) for x, f in p.facts.items() if re.search(rx, call_name(x)) and x.a[1] and text(x.a[1][0]) == v]


def char_is(p, v, ch):
    """True/False/None: the character value v equals ch"""
    for x, f in p.facts.items():
        if x is v:
            if f[0] == "eq":
                return str(f[1]) in (str(ord(ch)), ch)
            if f[0] == "ne" and (str(ord(ch)) in {str(y) for y in f[1]} or ch in f[1]):
                return False
        if x.op == "bin" and x.a[0] in ("Eq", "Ne") and f[0] == "eq":
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if a is v and char_const(b) == ch:
                    return (f[1] == "1") == (x.a[0] == "Eq")
    return None


def message_source(c, p, v, rule, key):
    """v is the translation found for the key, or the message when there is none"""
    msg, k = mk("arg", "message"), mk("arg", "key")
    reads = [x for x in p.facts if re.search(r"RwLock::read$", call_name(x)) and "LOCALE_TRANSLATIONS" in show(x)]
    loc = F(reads[0], "+Ok", "0") if reads else None
    got = [x for x in p.facts if re.search(r"HashMap::get$", call_name(x)) and loc is not None and x.a[1][0] is F(loc, "+Some", "0") and plain(x.a[1][1]) is k]
    if plain(v) is msg:
        ok = loc is not None and (p.variant(loc) == "None" or p.variant(loc) == "Some" and bool(got) and p.variant(got[0]) == "None")
        c.ob(rule, "fallback", ok, "the message is used although a translation may exist", key + "|fallback", p.span)
    else:
        ok = bool(got) and p.variant(got[0]) == "Some" and plain(v) is F(got[0], "+Some", "0")
        c.ob(rule, "translation", ok, f"the text is {show(v)[:120]}", key + "|translation", p.span)


@check("N01")
def n01(c):
    P = program()
    c.rule("find", "the translation of the key in the current locale, else the message as it is")
    c.rule("plain", "a text without arguments is returned unchanged")
    c.rule("template", "every character is copied in order, except that '{name}' becomes the text of the argument of that name, and only if there is one")
    c.rule("argument", "an argument keeps its text or number")
    k = 0
    for b in find(c, r"^t_without_args$"):
        for p in c.paths_of(b, events="ZZ"):
            if poison(p):
                continue
            r = p.ret
            ok = p.end == "return"
            c.ob("plain", "result", ok, f"{p.end} {show(r)[:100]}", "plain|result", p.span)
            if ok:
                k += 1
                message_source(c, p, r, "find", "find|plain")
    for b in find(c, r"^t_with_args$"):
        ps = c.paths_of(b, events=".", cut=".")
        template(c, ps)
    for b in find(c, r"Arg as std::convert::From>::from$|DebugL10n>::debug_l10n$"):
        for p in feasible(c.paths_of(b, events=".")):
            if p.end != "return":
                continue
            k += 1
            r = p.ret
            a = mk("arg", "self") if "DebugL10n" in b.name else mk("arg", "s")
            t = content(r.a[4]) if r.op == "agg" and r.a[2] == "Str" else []
            ok = len(t) == 1 and isinstance(t[0], tuple) and plain(t[0][1]) is a and t[0][2] == ("debug" if "DebugL10n" in b.name else "display")
            c.ob("argument", b.name, ok, f"becomes {show(r)[:120]}", f"argument|{b.name}", p.span)
    c.floor("texts", k, 5)


def template(c, ps):
    args = mk("arg", "args")
    loops = {}
    for p in ps:
        for v in list(p.facts) + [p.ret] + [x for e in p.events for x in e.args]:
            for x in walk(v):
                if x.op == "loop":
                    loops[x.id] = x
    texts = {}
    rests = {}
    for x in loops.values():
        i = x.a[3]
        if re.search(r"String::(new|with_capacity)$", call_name(i)) or const_of(i) == "":
            texts.setdefault((x.a[0], x.a[1], x.a[4]), []).append(x)
        else:
            rests.setdefault((x.a[0], x.a[1], x.a[4]), []).append(x)
    n = 0
    for p in ps:
        if poison(p):
            continue
        R = [x for v in texts.values() for x in v if p.loop_next(x) is not None and (p.end == "loop" and p.ends_loop(x) or p.end == "return")]
        if p.end == "return":
            r = p.ret
            body = r.a[4] if r.op == "agg" and r.a[2] in ("Owned", "Borrowed") else r
            cand = [x for v in texts.values() for x in v if appended(body, x) is not None]
            c.ob("template", "result", len(cand) == 1, f"returns {show(r)[:120]}", "template|result", p.span)
            if len(cand) != 1:
                continue
            out = appended(body, cand[0])
            rest = [x for v in rests.values() for x in v if any(y is x for w in p.facts for y in walk(w))]
            ok = False
            for x in rest:
                T = text(x)
                ends = [v for v, f in p.facts.items() if f == ("eq", "None") and (re.search(r"Chars as std::iter::Iterator>::next$", call_name(v)) and text(v.a[1][0]) == T)]
                none = [v for v, f in p.facts.items() if f == ("eq", "None") and re.search(r"str::(split_once|find)$", call_name(v)) and text(v.a[1][0]) == T and sep(v.a[1][1]) == "{"]
                if ends:
                    ok = ok or out == []
                elif none or [v for v, f in fact_eq(p, T, r"::is_empty$") if f == ("eq", "1")]:
                    ok = ok or len(out) == 1 and isinstance(out[0], V) and text(out[0]) == T or not none and out == []
                i = x.a[3]
                if ends or none:
                    src = text(i)
                    while src[0] == "v" and False:
                        pass
                    message_source(c, p, plain(i.a[1][0]) if call_name(i).endswith("chars") else i, "find", "find|template")
            c.ob("template", "end", ok, f"ends with {[show(y)[:60] if isinstance(y, V) else y for y in out]} appended", "template|end", p.span)
            continue
        if p.end != "loop":
            c.ob("template", "no panic", p.end == "diverge" and debug_only(p), f"{p.end} {show(p.ret)[:100]}", "template|panic", p.span)
            continue
        mine = [x for v in texts.values() for x in v if p.ends_loop(x)]
        its = [x for v in rests.values() for x in v if p.ends_loop(x)]
        if not mine:
            # a loop of its own (looking for the argument): it must not touch the text
            continue
        outs = [appended(p.loop_next(x), x) for x in mine]
        done = False
        for x in its:
            T = text(x)
            nx = p.loop_next(x)
            if nx is None:
                continue
            eaten = eat(text(nx), T)
            if eaten is None:
                continue
            done = True
            n += 1
            c.ob("template", "progress", bool(eaten), "an iteration consumes nothing", "template|progress", p.span)
            for out in outs:
                why = match_template(p, eaten, out, args)
                c.ob("template", "iteration", why is None, f"consuming {[show(a[1])[:50] if isinstance(a[1], V) else a[1] if a[0] == 'lit' else a[1][0] for a in eaten]}: {why}", "template|iteration|" + str(why)[:40], p.span)
        c.ob("template", "rest of the text", done, "an iteration goes on with something that is not the rest of the message", "template|rest", p.span)
    c.floor("iterations", n, 4)


def match_template(p, eaten, out, args):
    if out is None:
        return "the text is not appended to"
    def kind(a):
        if a[0] == "char":
            ch = F(a[1], "+Some", "0")
            w = char_is(p, ch, "{")
            return ("lit", "{") if w else ("other", ch) if w is False else ("unknown", ch)
        return a
    atoms = [kind(a) for a in eaten]
    i = j = 0
    while i < len(atoms):
        a = atoms[i]
        o = out[j] if j < len(out) else None
        # a replaced placeholder
        if a == ("lit", "{") and i + 2 < len(atoms) and atoms[i + 1][0] == "text" and atoms[i + 1][1][0] == "head" and atoms[i + 2] == ("lit", "}") and not (o == "{" or isinstance(o, V) and char_is(p, o, "{")):
            name = atoms[i + 1][1]
            if not isinstance(o, V) or not arg_text(p, o, name, args):
                return f"a placeholder becomes {show(o)[:100] if isinstance(o, V) else o}, not the text of the argument of that name"
            i, j = i + 3, j + 1
            continue
        if a[0] == "lit":
            if o != a[1] and not (isinstance(o, V) and char_is(p, o, a[1])):
                return f"'{a[1]}' is not copied"
            if a[1] == "{" and not no_placeholder(p, args):
                return "'{' is copied although a placeholder may follow"
        elif a[0] == "text":
            if a[1][0] != "head" or a[1][2] != "{":
                return "a text that may hold placeholders is copied or dropped"
            if not isinstance(o, V) or text(o) != a[1]:
                return "the text before a placeholder is not copied"
        elif a[0] == "other":
            if o is not a[1]:
                return "a character is not copied"
        else:
            return "a character is handled without knowing whether it starts a placeholder"
        i, j = i + 1, j + 1
    if j != len(out):
        return f"{len(out) - j} more pieces are written"
    return None


def finds_name(p, v, args):
    """v looks an argument up by name: the searched name's text form, or None"""
    if re.search(r"Iterator>?::(find|find_map|position|any)$", call_name(v)) and mentions(v.a[1][0], lambda x: x is args):
        return closure_name(v.a[1][1])
    return None


def closure_name(clo):
    """the captured text which a predicate compares the items' names with"""
    P = program()
    b = P.bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
    if b is None:
        return None
    import mir
    ps, it = mir.analyze(P, b, events="ZZ", args={1: clo})
    ok = False
    for q in ps:
        if q.end != "return":
            return None
        eqs = [x for x in [q.ret] + list(q.facts) if x.op == "bin" and x.a[0] == "Eq"]
        if q.ret.op == "bin" and q.ret.a[0] == "Eq" and len(eqs) >= 1:
            ok = any(first_field(y) for y in q.ret.a[1:])
        elif const_of(q.ret) is not None and eqs:
            ok = any(q.facts.get(e) == ("eq", "1") for e in eqs) == (str(const_of(q.ret)) in ("1", "True")) and any(first_field(y) for y in eqs[0].a[1:])
        else:
            return None
    return ok


def first_field(y):
    """the name of an (name, argument) item"""
    return y.op == "proj" and y.a[1] == ("f", "0") and base(y).op == "arg"


def lookups(p, args):
    out = []
    for v, f in p.facts.items():
        if re.search(r"Iterator>?::(find|find_map|position|next)$", call_name(v)) and mentions(v.a[1][0], lambda x: x is args):
            out.append((v, f))
    return out


def no_placeholder(p, args):
    """after a '{' there is no '}' or no argument of that name"""
    for v, f in p.facts.items():
        if f == ("eq", "None") and re.search(r"str::(split_once|find)$", call_name(v)) and sep(v.a[1][1]) == "}":
            return True
    for v, f in lookups(p, args):
        if f == ("eq", "None"):
            return call_name(v).endswith("next") or bool(closure_name(v.a[1][1]))
    return False


def arg_text(p, o, name, args):
    """o is the text of the argument called name"""
    t = content(o)
    if len(t) != 1 or not isinstance(t[0], tuple) or t[0][2] != "display":
        return False
    v = plain(t[0][1])
    if v.op != "proj" or v.a[1] != ("f", "0") or v.a[0].op != "proj" or v.a[0].a[1][0] != "d":
        return False
    kind, a = v.a[0].a[1][1], v.a[0].a[0]
    if kind not in ("Str", "Int", "Float") or p.variant(a) != kind:
        return False
    for x, f in lookups(p, args):
        if f == ("eq", "Some") and mentions(a, lambda y: y is x):
            it = F(x, "+Some", "0")
            if call_name(x).endswith("::find"):
                clo = x.a[1][1]
                return a is F(it, "1") and bool(closure_name(clo)) and any(text(y) == name for y in captured(p, x, clo))
            if call_name(x).endswith("::next"):
                return a is F(it, "1") and any(y.op == "bin" and y.a[0] == "Eq" and g == ("eq", "1") and F(it, "0") in y.a[1:] and any(text(z) == name for z in y.a[1:]) for y, g in p.facts.items())
    return False


def captured(p, callv, clo):
    """values the closure captures at the call it is given to"""
    import mir
    st = next((e for e in p.events if e.kind == "call" and e.res is callv), None)
    if st is None:
        st = p.st
    out = []
    for x in clo.a[2]:
        if x.op == "ref":
            x = p.interp.resolve(st, p.interp.read(st, x.a))
        out.append(x)
    return out


@check("N02")
def n02(c):
    c.rule("set", "the translations are stored once; a second call changes nothing")
    c.rule("locale", "the locale's own translations, or those of the language it is a regional variant of ('language-...'), ignoring case; when there are none nothing changes and the caller is told")
    loc = mk("arg", "locale")
    k = 0
    for b in find(c, r"^set_translations$"):
        for p in c.paths_of(b, events="."):
            es = [e for e in p.events if e.kind == "call" and re.search(r"OnceLock::|RwLock::|Mutex::", e.name)]
            sets = [e for e in es if re.search(r"OnceLock::(set|get_or_init|try_insert)$", e.name) and "ALL_TRANSLATIONS" in show(e.args[0])]
            ok = p.end == "return" and len(sets) == 1 and len(es) == 1 and (sets[0].args[1] is mk("arg", "translations"))
            k += 1
            c.ob("set", "once", ok, f"{p.end}: {[short(e.name) for e in es]}", "set|once", p.span)
    for b in find(c, r"^set_locale$"):
        for p in c.paths_of(b, events=".", cut=".", stores=True):
            if poison(p):
                continue
            if p.end == "loop":
                continue
            all_ = [v for v in p.facts if re.search(r"OnceLock::get$", call_name(v)) and "ALL_TRANSLATIONS" in show(v)]
            T = F(all_[0], "+Some", "0") if all_ else None
            writes = evs(p, r"RwLock::(write|try_write)$", "call")
            rv = p.variant(p.ret)
            exact = [v for v in p.facts if re.search(r"HashMap::get$", call_name(v)) and v.a[1][0] is T]
            like = [v for v in p.facts if re.search(r"Iterator>?::(find|find_map|next)$", call_name(v)) and T is not None and mentions(v.a[1][0], lambda x: x is T)]
            if rv == "None":
                ok = p.end == "return" and not writes and (p.variant(all_[0]) == "None" if all_ and p.variant(all_[0]) != "Some" else bool(exact) and p.variant(exact[0]) == "None" and bool(like) and p.variant(like[0]) == "None")
                c.ob("locale", "no such locale", ok, f"gives up under {[(show(v)[:60], f) for v, f in p.facts.items()][:4]}, having taken {len(writes)} locks", "locale|none", p.span)
                continue
            k += 1
            ok = p.end == "return" and rv == "Some" and len(writes) == 1 and "LOCALE_TRANSLATIONS" in show(writes[0].args[0])
            c.ob("locale", "set", ok, f"{p.end} {rv}, {len(writes)} locks taken", "locale|set", p.span)
            if not ok:
                continue
            st = stored(p, F(writes[0].res, "+Ok", "0"))
            low = [x for v in exact for x in [plain(v.a[1][1])]]
            lok = bool(low) and re.search(r"str::to_(ascii_)?lowercase$", call_name(low[0])) and plain(low[0].a[1][0]) is loc
            c.ob("locale", "ignoring case", bool(lok), f"looked up as {show(low[0])[:80] if low else None}", "locale|case", p.span)
            val = st.a[4] if st is not None and st.op == "agg" and st.a[2] == "Some" else None
            if exact and p.variant(exact[0]) == "Some":
                ok = val is not None and val is F(exact[0], "+Some", "0")
                c.ob("locale", "own translations", ok, f"stored {show(st)[:120] if st is not None else None}", "locale|exact", p.span)
            else:
                ok = bool(exact) and p.variant(exact[0]) == "None" and bool(like) and p.variant(like[0]) == "Some" and val is not None and variant_of(c, p, like[0], val, low[0] if low else None)
                c.ob("locale", "language of the variant", bool(ok), f"stored {show(st)[:160] if st is not None else None}", "locale|variant", p.span)
    c.floor("locale paths", k, 3)


def stored(p, guard):
    """what the guard's target holds at the end of the path"""
    return p.interp.resolve(p.st, p.interp.read(p.st, (mk("H", guard), ())))


def variant_of(c, p, find_, val, low):
    """val is the translation map of an entry whose key is the language of locale `low`"""
    it = F(find_, "+Some", "0")
    n = call_name(find_)
    P = program()
    if n.endswith("::find"):
        if val is not F(it, "1"):
            return False
        clo = find_.a[1][1]
        b = P.bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
        if b is None:
            return False
        if not any(plain(x) is low for x in captured(p, find_, clo)):
            return False
        good = 0
        for q in c.paths_of(b, events="ZZ", args={1: clo}):
            if q.end != "return":
                return False
            r = const_of(q.ret)
            if r is not None and str(r) not in ("1", "True"):
                continue
            if not variant_facts(q):
                return False
            good += 1
        return good >= 1
    # a loop of its own over the translations
    return n.endswith("::next") and val is F(it, "1") and variant_facts(p, F(it, "0"), low)


def variant_facts(q, lang=None, low=None):
    """a hyphen follows the language in the locale on q"""
    pre = [v for v, f in q.facts.items() if re.search(r"str::(starts_with|strip_prefix)$", call_name(v)) and f in (("eq", "1"), ("eq", "Some")) and (lang is None or plain(v.a[1][0]) is low and plain(v.a[1][1]) is lang)]
    hyph = None
    for x in [q.ret] + list(q.facts):
        if x.op == "bin" and x.a[0] == "Eq" and any("'-'" in show(y) or char_const(y) == "-" or y.op == "agg" and len(y.a) > 4 and char_const(y.a[4]) == "-" for y in x.a[1:]):
            hyph = x
        if re.search(r"str::starts_with$", call_name(x)) and sep(x.a[1][1]) in ("-",):
            hyph = x
    if not pre or hyph is None or not (q.ret is hyph or q.facts.get(hyph) == ("eq", "1")):
        return False
    # the hyphen comes right after the language
    if hyph.op == "bin":
        y = next((y for y in hyph.a[1:] if y.op in ("call", "pure", "proj")), None)
        return y is not None and hyphen_at(y, pre[0])
    return text(hyph.a[1][0])[0] in ("after", "drop")


def hyphen_at(y, pre):
    """y is the character of the locale right after the prefix"""
    key = pre.a[1][1]
    if y.op == "proj":
        y = base(y)
    n = call_name(y)
    if re.search(r"Iterator>?::nth$", n):
        i = y.a[1][1]
        return len_of(i) is not None and text(len_of(i)) == text(key) and text(y.a[1][0]) == text(pre.a[1][0])
    if re.search(r"\[T\]::get$|slice::get$|str::as_bytes$", n):
        i = y.a[1][1]
        return len_of(i) is not None and text(len_of(i)) == text(key)
    if re.search(r"Iterator>?::next$", n):
        t = text(y.a[1][0])
        return t[0] in ("after", "drop")
    return False


# ------------------------------------------------------------------ N03
class Facts:
    """facts of a path (and of the closures its current line has passed)"""

    def __init__(self, *dicts):
        self.items = [(v, f) for d in dicts for v, f in d.items()]

    def first(self, t, T):
        """'' (empty), the first character, ('not', set) or None of the text t, a normal form; T maps a value to a normal form"""
        no, known = set(), None
        for v, f in self.items:
            n = call_name(v)
            if not v.op in ("call", "pure", "bin", "proj") or f[0] != "eq" and v.op != "proj":
                continue
            if v.op in ("call", "pure") and v.a[1] and re.search(r"str::(starts_with|strip_prefix)$", n) and T(v.a[1][0]) == t:
                s = sep(v.a[1][1])
                if not s:
                    continue
                if f[1] in ("1", "Some"):
                    known = s[0]
                elif len(s) == 1:
                    no.add(s)
            elif re.search(r"::is_empty$", n) and T(v.a[1][0]) == t:
                if f[1] == "1":
                    known = ""
                else:
                    no.add("")
            elif re.search(r"Iterator>?::next$", n) and f[1] == "None" and T(v.a[1][0]) == t:
                known = ""
        for v, f in self.items:
            # the first character, compared
            for ch, pos in char_facts(v, f):
                if ch[0].op == "proj" and re.search(r"Chars as std::iter::Iterator>::next$", call_name(base(ch[0]))) and T(base(ch[0]).a[1][0]) == t:
                    no.add("")
                    if pos:
                        known = ch[1]
                    else:
                        no.add(ch[1])
        return known if known is not None else ("not", no)


def char_facts(v, f):
    """[((value, character), equal?)] a fact says"""
    out = []
    if v.op == "proj" and f[0] == "eq" and str(f[1]).isdigit():
        out.append(((v, chr(int(f[1]))), True))
    if v.op == "proj" and f[0] == "ne":
        out += [((v, chr(int(x))), False) for x in f[1] if str(x).isdigit()]
    if v.op == "bin" and v.a[0] in ("Eq", "Ne") and f[0] == "eq":
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if char_const(b) is not None:
                out.append(((a, char_const(b)), (f[1] == "1") == (v.a[0] == "Eq")))
    return out


def cases(p):
    """[(facts, result)] of a path of a predicate"""
    v, neg = p.ret, False
    while v.op == "not":
        v, neg = v.a[0], not neg
    k = const_of(v)
    if k is not None:
        return [(p.facts, (str(k) in ("1", "True")) != neg)]
    return [({**p.facts, v: ("eq", b)}, (b == "1") != neg) for b in ("0", "1")]


def chain(v):
    """where an iterator's items come from: (innermost source, [(adapter, closure)] in order)"""
    fs = []
    while True:
        if v.op == "loop" and isinstance(v.a[3], V):
            v = v.a[3]
        elif v.op in ("call", "pure") and re.search(r"::(into_iter|into_par_iter|iter|par_iter|iter_mut|par_iter_mut|by_ref|deref|deref_mut|as_slice|collect|as_ref|as_mut|cloned|copied)$", v.a[0]) and v.a[1]:
            v = v.a[1][0]
        elif v.op in ("call", "pure") and re.search(r"::(map|filter|filter_map|skip_while|take_while|inspect|skip|take|rev)$", v.a[0]) and len(v.a[1]):
            fs.append((v.a[0].rsplit("::", 1)[1], v.a[1][1] if len(v.a[1]) > 1 else None))
            v = v.a[1][0]
        else:
            return v, fs[::-1]


def clo_paths(c, clo, *args, **kw):
    P = program()
    b = P.bodies.get((clo.a[4], clo.a[3])) if clo is not None and clo.op in ("clo", "fn") and len(clo.a) > 4 else None
    if b is None:
        return None
    a = {1: clo}
    a.update({i + 2: x for i, x in enumerate(args)})
    return c.paths_of(b, events=".", args=a, **kw)


def is_trim(clo):
    return clo is not None and clo.op == "fn" and str(clo.a[0]).endswith("str::trim")


def root_loops(ps, rx, skip=()):
    """loop variables of the paths whose value before the loop matches rx"""
    out = {}
    for p in ps:
        for v in list(p.facts) + [p.ret] + [x for e in p.events for x in e.args if isinstance(x, V)]:
            for x in walk(v):
                if x.op == "loop" and isinstance(x.a[3], V) and re.search(rx, call_name(x.a[3])):
                    out[x.id] = x
    return list(out.values())


EMPTY_MAP = r"HashMap::(new|with_hasher|with_capacity)$|HashMap as std::default::Default>::default$|default::Default>?::default$"
MAP_OPS = r"(HashMap|hash_map::Entry|BTreeMap|btree_map::Entry)::"


def lines(c, ps, key):
    """the loop over the lines: facts and text form of every line that reaches the loop, and what is dropped before"""
    nexts = {v.id: v for p in ps for v in p.facts if re.search(r"Iterator>?::next$", call_name(v)) and mentions(chain(v.a[1][0])[0], lambda x: x.op == "arg" and x.a[0] == "input")}
    nexts = [v for v in nexts.values() if not re.search(r"Chars", call_name(v))]
    ok = len(nexts) == 1
    c.ob("read", "one loop over the lines", ok, f"{len(nexts)} loops", key + "|loop")
    if not ok:
        return None
    nx = nexts[0]
    src, fs = chain(nx.a[1][0])
    ok = bool(re.search(r"::par_split$|str::split$|str::split_terminator$", call_name(src)) and sep(src.a[1][1]) == "\n" or re.search(r"::par_lines$|str::lines$", call_name(src))) and text(src.a[1][0]) == ("v", mk("arg", "input"), "")
    c.ob("read", "lines", ok, f"goes through {show(src)[:120]}", key + "|lines")
    raw = mk("arg", "a line")
    cur = ("v", raw, "")
    kept = [{}]
    for name, clo in fs:
        item = raw if cur == ("v", raw, "") else mk("pure", "str::trim", (raw,))
        if name == "map" and is_trim(clo):
            cur = ("trim", ("v", raw, ""), "")
            continue
        qs = clo_paths(c, clo, item)
        if name == "map":
            ok = bool(qs) and len(qs) == 1 and qs[0].end == "return" and text(qs[0].ret) == ("trim", ("v", raw, ""), "")
            c.ob("read", "lines are trimmed", ok, "a line is changed before it is read in another way than by removing surrounding blanks", key + "|map")
            cur = ("trim", ("v", raw, ""), "")
        elif name == "filter":
            k2 = []
            for q in qs or []:
                for fd, keep in cases(q) if q.end == "return" else [({}, None)]:
                    if keep:
                        k2 += [{**d, **fd} for d in kept]
                    else:
                        f = Facts(*[fd])
                        fst = f.first(cur, text)
                        c.ob("read", "dropped lines", fst in ("", "#"), f"a line is dropped knowing {[(show(v)[:60], x) for v, x in fd.items()]}", key + f"|drop|{fst}")
            c.ob("read", "filter", bool(k2), "a filter that cannot be followed", key + "|filter")
            kept = k2 or kept
        elif name == "filter_map":
            k2, forms = [], set()
            for q in qs or []:
                r = q.variant(q.ret) if q.end == "return" else None
                if r == "Some":
                    k2 += [{**d, **q.facts} for d in kept]
                    forms.add(text(payload_of(q.ret, "Some")))
                else:
                    fst = Facts(q.facts).first(("trim", ("v", raw, ""), ""), text)
                    c.ob("read", "dropped lines", r == "None" and fst in ("", "#"), f"a line is dropped ({r}) knowing {[(show(v)[:60], x) for v, x in q.facts.items()]}", key + f"|drop|{fst}")
            c.ob("read", "filter", len(forms) == 1 and forms <= {cur, ("trim", ("v", raw, ""), "")}, "a line is changed before it is read in another way than by removing surrounding blanks", key + "|filter")
            kept = k2 or kept
            cur = list(forms)[0] if len(forms) == 1 else cur
        elif name != "inspect":
            c.ob("read", "lines reach the loop", False, f"lines pass through '{name}'", key + "|adapter")
    return nx, cur, kept


def subst(t, a, b):
    """text form t with the root a replaced by b; trims of trims collapse"""
    if t == a:
        return b
    if t[0] == "v":
        return t
    s = subst(t[1], a, b)
    if t[0] == "trim" and s[0] == "trim":
        return s
    return (t[0], s) + t[2:]


@check("N03")
def n03(c):
    c.rule("read", "blank lines and comments are skipped, '[key]' sets the key, 'language = text' adds the text under key and language; any other line is an error")
    c.rule("load", "a loaded text in quotes is unescaped, any other is kept; every language and key is treated")
    c.rule("update", "exactly the used keys remain, each with its English text replaced and all others kept")
    c.rule("write", "every key in order, its English text first, then every other language in order")
    c.rule("disk", "the file is read (a missing one is empty), updated and written; when it cannot be read or understood nothing is written")
    OP = r"^(deserialize|update_translations|serialize_translations|load_translations|update_disk_translations)$"
    for b in find(c, r"^deserialize$"):
        read(c, c.paths_of(b, events=".", cut="."))
    for b in find(c, r"^load_translations$"):
        load(c, c.paths_of(b, events=".", cut=".", opaque=OP, stores=True))
    for b in find(c, r"^update_translations$"):
        update(c, c.paths_of(b, events=".", cut="."))
    for b in find(c, r"^serialize_translations$"):
        serialize(c, c.paths_of(b, events=".", cut="."))
    for b in find(c, r"^update_disk_translations$"):
        disk(c, c.paths_of(b, events=".", opaque=OP))


def read(c, ps):
    L = lines(c, ps, "read")
    if L is None:
        return
    nx, cur, kept = L
    line = F(nx, "+Some", "0")
    maps = root_loops(ps, EMPTY_MAP)
    keys = [x for x in root_loops(ps, r"String::(new|with_capacity)$|Default>?::default$") if x not in maps] or [v for p in ps for f in p.facts for v in walk(f) if v.op == "loop" and const_of(v.a[3]) == ""]
    if not keys:
        ids = {}
        for p in ps:
            for e in p.events:
                for a in e.args:
                    if isinstance(a, V):
                        for x in walk(a):
                            if x.op == "loop" and const_of(x.a[3]) == "":
                                ids[x.id] = x
        keys = list(ids.values())
    maps, keys = {(x.a[0], x.a[1], x.a[4]): x for x in maps}, {(x.a[0], x.a[1], x.a[4]): x for x in keys}
    ok = len(maps) == 1 and len(keys) == 1
    c.ob("read", "key and result", ok, f"{len(maps)} maps and {len(keys)} keys are carried from line to line", "read|state")
    if not ok:
        return
    M, K = list(maps.values())[0], list(keys.values())[0]
    R = ("trim", ("v", mk("arg", "a line"), ""), "")
    n = 0
    seen = set()
    for p in ps:
        def T(v):
            return subst(text(v), ("v", line, ""), cur)
        v = p.variant(nx)
        if v == "None":
            ok = p.end == "return" and p.variant(p.ret) == "Ok" and under_mut(payload(p.ret)) is M
            c.ob("read", "end", ok, f"{p.end} {show(p.ret)[:120]}", "read|end", p.span)
            continue
        if v != "Some":
            c.ob("read", "start", p.end != "return", f"returns {show(p.ret)[:100]} before the first line", "read|start", p.span)
            continue
        if any(x.op == "ovf" and f == ("eq", "1") for x, f in p.facts.items()):
            continue
        for d in kept:
            f = Facts(p.facts, d)
            fst = f.first(R, T)
            n += 1
            notc = fst == ("not", fst[1]) and "#" in fst[1] if isinstance(fst, tuple) else fst not in ("#", "")
            eq = [(x, g) for x, g in f.items if re.search(r"str::(find|split_once)$", call_name(x)) and T(x.a[1][0]) in (R, R[1]) and sep(x.a[1][1]) == "="]
            pre = [(x, g) for x, g in f.items if re.search(r"str::strip_prefix$", call_name(x)) and T(x.a[1][0]) == R and sep(x.a[1][1]) == "["]
            suf = [(x, g) for x, g in f.items if re.search(r"str::strip_suffix$", call_name(x)) and sep(x.a[1][1]) == "]"]
            head = fst == "["
            if p.end == "return":
                bad = head and (any(g == ("eq", "None") for x, g in suf) or any(g == ("eq", "None") for x, g in pre) or True) and not any(g == ("eq", "Some") for x, g in suf)
                if not head:
                    nothead = isinstance(fst, tuple) and {"[", "#", ""} <= fst[1] or not isinstance(fst, tuple) and fst not in ("[", "#", "")
                    bad = nothead and any(g == ("eq", "None") for x, g in eq)
                ok = p.variant(p.ret) == "Err" and bad
                seen.add("err-head" if head else "err-eq")
                c.ob("read", "errors", ok, f"returns {show(p.ret)[:80]} for a line known as {fst}", f"read|error|{fst if not isinstance(fst, tuple) else ''}", p.span)
                continue
            if p.end != "loop" or not p.ends_loop(M):
                if p.end == "diverge" and head and pre and pre[0][1] == ("eq", "None"):
                    continue
                c.ob("read", "goes on", p.end == "loop", f"{p.end} {show(p.ret)[:100]}", "read|goes on", p.span)
                continue
            nk = p.loop_next(K)
            touched = [e for e in p.events if e.kind == "call" and re.search(MAP_OPS, e.name) and e.args and mentions(e.args[0], lambda x: x is M) and not re.search(r"::(or_insert_with|or_default|or_insert|contains_key|get|get_mut|len|is_empty|insert|into_mut|key)$", e.name) ]
            ins = [e for e in p.events if e.kind == "call" and re.search(r"(HashMap|BTreeMap)::insert$", e.name) and mentions(e.args[0], lambda x: x is M)]
            changed = bool(ins or touched)
            if fst in ("", "#"):
                ok = nk is K and not changed
                c.ob("read", "skipped lines", ok, "a blank line or comment has an effect", "read|skip", p.span)
                seen.add("skip")
            elif nk is not K and not changed:
                want = ("before", ("after", R, "["), "]")
                got = T(nk)
                seen.add("key")
                c.ob("read", "key", head or bool(pre) and pre[0][1] == ("eq", "Some"), "a line that does not start with '[' sets the key", "read|key|when", p.span)
                c.ob("read", "key text", got == want, f"the key becomes {tshow(got)}", "read|key|text", p.span)
            elif nk is K and changed:
                lang, val = ("trim", ("head", R[1], "="), ""), ("trim", ("tail", R[1], "="), "")
                key_first = p.facts.get(mk("arg", "key_first"))
                ok = len(ins) == 1 and len(touched) == 1 and re.search(r"::entry$", touched[0].name) and mentions(ins[0].args[0], lambda x: x is touched[0].res)
                ok = ok and not head and not any(g == ("eq", "Some") for x, g in pre)
                c.ob("read", "one text", bool(ok), f"a line known as {fst} leads to {[short(e.name) for e in touched + ins]}", "read|entry|one", p.span)
                if ok:
                    def N(v):
                        t = T(v)
                        return subst(t, R, R[1])
                    outer, inner, value = plain(touched[0].args[1]), ins[0].args[1], ins[0].args[2]
                    def is_key(v):
                        return base_key(v) is K
                    kf = key_first == ("eq", "1")
                    if key_first is None:
                        good = False
                    elif kf:
                        good = is_key(outer) and N(inner) == lang
                    else:
                        good = N(outer) == lang and is_key(inner)
                    seen.add("entry" + str(kf))
                    c.ob("read", "key and language", good, f"with key_first {key_first}: {tshow(N(outer))} / {tshow(N(inner))}", "read|entry|place", p.span)
                    c.ob("read", "text", N(value) == val, f"the text becomes {tshow(N(value))}", "read|entry|text", p.span)
                    c.ob("read", "not a comment", fst not in ("#", "") and (not isinstance(fst, tuple) or "#" in fst[1]), f"a comment may be read as a text: the line is only known as {fst}", "read|entry|comment", p.span)
            else:
                c.ob("read", "line without effect", False, f"a line known as {fst} has {'both effects' if changed else 'no effect'}", "read|effect", p.span)
    c.ob("read", "kinds of lines", {"key", "entryTrue", "entryFalse", "err-eq", "err-head"} <= seen, f"only {sorted(seen)}", "read|kinds")
    c.floor("lines", n, 6)


def base_key(v):
    v = plain(v)
    while v.op in ("call", "pure") and re.search(r"::clone$", v.a[0]):
        v = plain(v.a[1][0])
    return v


def tshow(t):
    return show(t[1])[:60] if t[0] == "v" else f"{t[0]}({tshow(t[1])}{', ' + repr(t[2]) if isinstance(t[2], str) and t[2] else ''})"


def load(c, ps):
    n = 0
    for p in ps:
        d = evs(p, r"^deserialize$", "call")
        if not d:
            c.ob("load", "read", False, f"{p.end} without reading the text", "load|read", p.span)
            continue
        r = d[0].res
        kf = const_of(d[0].args[1])
        c.ob("load", "by language", len(d) == 1 and d[0].args[0] is mk("arg", "input") and str(kf) in ("0", "False"), f"{len(d)} reads, key first: {kf}", "load|language", p.span)
        if p.variant(r) == "Err":
            c.ob("load", "errors", p.end == "return" and p.variant(p.ret) == "Err", f"{p.end} {show(p.ret)[:80]}", "load|error", p.span)
            continue
        its = [e for e in p.events if e.kind == "call" and re.search(r"(Iterator|iter)::|::(iter|iter_mut|values|values_mut|keys|into_iter|par_iter)", e.name)]
        bad = [short(e.name) for e in its if not re.search(r"::(par_iter_mut|iter_mut|values_mut|into_iter|into_par_iter|for_each|try_for_each|next|flat_map|flat_map_iter|collect|map)$", e.name)]
        c.ob("load", "all texts", not bad, f"passes through {bad}", "load|all", p.span)
        m = F(r, "+Ok", "0")
        qs = [(v, f) for v, f in p.facts.items() if re.search(r"str::(starts_with|strip_prefix)$", call_name(v)) and sep(v.a[1][1]) == '"']
        parsed = [(v, p.variant(v)) for e in p.events for v in [e.res] if e.kind == "call" and re.search(r"serde_json::(de::)?from_(str|slice)$", e.name)]
        st = [e for e in p.events if e.kind == "store"]
        item = text(qs[0][0].a[1][0]) if qs else None
        if p.end == "return" and p.variant(p.ret) == "Ok" and m is not under_pure(payload(p.ret)):
            c.ob("load", "result", False, f"returns {show(p.ret)[:120]}", "load|result", p.span)
        if parsed and any(x == "Err" for _, x in parsed):
            c.ob("load", "malformed text", not st and (p.end == "diverge" or p.variant(p.ret) == "Err"), "a text that cannot be unescaped goes unnoticed", "load|malformed", p.span)
        elif st or parsed:
            n += 1
            ok = len(st) == len(parsed) == len(qs) == 1 and qs[0][1] in (("eq", "1"), ("eq", "Some")) and plain(st[0].args[0]) is F(parsed[0][0], "+Ok", "0") and text(parsed[0][0].a[1][0]) == item
            x = item[1] if item and item[0] == "v" else None
            ok = ok and x is not None and place_of(st[0]) is x and second(x, m)
            c.ob("load", "unescaped in place", ok, f"{[show(s.args[0])[:80] for s in st]} stored in {show(place_of(st[0]))[:80] if st else None} under {[(show(v)[:50], f) for v, f in qs]}", "load|unescape", p.span)
        else:
            ok = all(f in (("eq", "0"), ("eq", "None")) for _, f in qs)
            n += bool(qs)
            c.ob("load", "kept", ok and p.end in ("return", "loop"), "a quoted text is not unescaped", "load|kept", p.span)
    c.floor("texts", n, 2)


def under_pure(v):
    while v.op == "mut" or v.op == "loop":
        v = v.a[2] if v.op == "mut" else v.a[3]
    return v


def place_of(e):
    r, ps = e.extra
    v = r
    if v.op == "H":
        v = v.a[0]
    for x in ps:
        v = mk("proj", v, x)
    return v


def second(x, m):
    """x is a value of one of the maps in m"""
    n = 0
    while True:
        if x.op == "proj" and x.a[1] == ("f", "1"):
            x, n = x.a[0], n + 1
        elif x.op == "proj" and (x.a[1] == ("d", "Some") or x.a[1] == ("f", "0") and x.a[0].op == "proj" and x.a[0].a[1] == ("d", "Some")):
            x = x.a[0]
        elif x.op == "hof":
            x = x.a[0].a[1][0] if x.a[0].op in ("call", "pure") else x.a[0]
        elif x.op in ("loop", "mut"):
            x = x.a[3] if x.op == "loop" else x.a[2]
        elif x.op in ("call", "pure") and x.a[1]:
            n += bool(re.search(r"::values_mut$", x.a[0]))
            if x is m.a[0]:
                return n == 2
            x = x.a[1][0]
        elif x is m:
            return n == 2
        else:
            return x.op == "proj" and base(x) is base(m) and n == 2


def first_of(c, clo):
    """the closure returns the first field of its item"""
    it = mk("arg", "an item")
    qs = clo_paths(c, clo, it)
    return bool(qs) and all(q.end == "return" and plain(base_key(q.ret)) is F(it, "0") for q in qs)


def is_keyset(c, ps, v, kv):
    """v holds exactly the keys of the list kv"""
    src, fs = chain(v)
    if under_mut(src) is kv or base(src) is kv:
        return [n for n, _ in fs] == ["map"] and first_of(c, fs[0][1])
    if v.op == "loop" and re.search(r"HashSet::(new|with_capacity)|Default", call_name(v.a[3]) + " " + str(v.a[3].a[0])):
        rs = [(p, p.loop_next(v)) for p in ps if p.end == "loop" and p.ends_loop(v)]
        ok = bool(rs)
        for p, n in rs:
            e = n.a[0] if n is not None and n.op == "mut" else None
            k = base_key(e.a[1][1]) if e is not None and re.search(r"HashSet::insert$", call_name(e)) and n.a[2] is v else None
            s = first_item(k)
            ok = ok and s is not None and under_mut(chain(s)[0]) is kv and not chain(s)[1]
        return ok
    return False


def first_item(k, i="0"):
    """k is field i of what an iterator yields: the iterator"""
    if k is None or k.op != "proj" or k.a[1] != ("f", i):
        return None
    x = k.a[0]
    if x.op == "proj" and x.a[1] == ("f", "0") and x.a[0].op == "proj" and x.a[0].a[1] == ("d", "Some") and re.search(r"Iterator>?::next$", call_name(x.a[0].a[0])):
        return x.a[0].a[0].a[1][0]
    return None


def update(c, ps):
    kv, tm = mk("arg", "key_values"), mk("arg", "translations")
    n = 0
    for p in ps:
        rs = evs(p, r"(HashMap|BTreeMap)::retain$", "call")
        mine = [e for e in rs if under_pure(e.args[0]) is tm]
        if p.end == "return":
            n += 1
            c.ob("update", "unused keys", len(mine) == 1, f"{len(mine)} removals of unused keys", "update|retain", p.span)
        for e in mine:
            k = mk("arg", "a key")
            qs = clo_paths(c, e.args[1], k, mk("arg", "its texts"))
            ok = bool(qs)
            for q in qs or []:
                for fd, keep in cases(q) if q.end == "return" else [({}, None)]:
                    has = [(v, f) for v, f in fd.items() if re.search(r"::contains(_key)?$", call_name(v)) and plain(base_key(v.a[1][1])) is k]
                    ok = ok and keep is not None and len(has) == 1 and (has[0][1] == ("eq", "1")) == keep
            ok = ok and not any(x.kind == "store" for q in qs for x in q.events)
            c.ob("update", "kept keys", ok, "the keys kept are not the used ones", "update|kept", p.span)
            used = [x for x in captured(p, e.res, e.args[1]) if is_keyset(c, ps, x, kv)] if e.args[1].op == "clo" else []
            c.ob("update", "used keys", len(used) == 1, "the used keys are not the keys of the list", "update|used", p.span)
        ins = [e for e in p.events if e.kind == "call" and re.search(r"(HashMap|BTreeMap)::(insert|remove|clear|extend|drain|remove_entry)$", e.name) and base_arg(e.args[0]) is tm]
        ents = [e for e in p.events if e.kind == "call" and re.search(r"(HashMap|BTreeMap)::(entry|get_mut)$", e.name) and base_arg(e.args[0]) is tm]
        if p.end == "loop":
            its = [v for v, f in p.facts.items() if f == ("eq", "Some") and re.search(r"Iterator>?::next$", call_name(v)) and under_mut(chain(v.a[1][0])[0]) is kv and not [x for x in chain(v.a[1][0])[1]]]
            last = [v for v in its if any(mentions(e.args[1], lambda x: x is v) for e in ents)]
            if not mine and not ins:
                continue   # a loop that only collects
            ok = len(ins) == len(ents) == 1 and len(last) == 1 and ins[0].name.endswith("::insert")
            c.ob("update", "each key", ok, f"a key leads to {[short(e.name) for e in ents + ins]}", "update|each", p.span)
            if ok:
                it = F(last[0], "+Some", "0")
                e, i = ents[0], ins[0]
                ok = base_key(e.args[1]) is F(it, "0") and mentions(i.args[0], lambda x: x is e.res) and const_text(i.args[1]) == "en" and base_key(i.args[2]) is F(it, "1")
                c.ob("update", "English text", ok, f"{show(i.args[1])[:60]} = {show(i.args[2])[:60]} under {show(e.args[1])[:60]}", "update|text", p.span)
        else:
            c.ob("update", "otherwise unchanged", not ins, f"{[short(e.name) for e in ins]}", "update|else", p.span)
        skipped = [v for v, f in p.facts.items() if re.search(r"Iterator>?::next$", call_name(v)) and base_arg(chain(v.a[1][0])[0]) is kv and [x for x in chain(v.a[1][0])[1] if x[0] != "map"]]
        c.ob("update", "all keys", not skipped, "keys are skipped", "update|all", p.span)
    c.floor("updates", n, 1)


def const_text(v):
    t = content(base_key(v))
    return t[0] if len(t) == 1 and isinstance(t[0], str) else None


def base_arg(v):
    """the argument a place lies in, through loops, mutations and map accesses"""
    d = 0
    while d < 60:
        d += 1
        if v.op == "loop" and isinstance(v.a[3], V):
            v = v.a[3]
        elif v.op == "mut":
            v = v.a[2]
        elif v.op == "proj":
            v = v.a[0]
        elif v.op in ("call", "pure") and v.a[1] and re.search(r"::(entry|or_default|or_insert|or_insert_with|get_mut|deref_mut|as_mut|iter|into_iter|iter_mut)$", v.a[0]):
            v = v.a[1][0]
        else:
            return v
    return v


def sorted_of(c, v):
    """v is a sorted list (by the first field) of a map's items: the map, or None"""
    if v.op == "loop" and isinstance(v.a[3], V):
        v = v.a[3]
    while v.op in ("call", "pure") and re.search(r"::(into_iter|iter|drain|deref|deref_mut|by_ref)$", v.a[0]):
        v = v.a[1][0]
    good = False
    while True:
        if v.op == "mut" and isinstance(v.a[0], V) and re.search(r"::(sort|sort_unstable)$", call_name(v.a[0])):
            good, v = True, v.a[2]
        elif v.op == "mut" and isinstance(v.a[0], V) and re.search(r"::(sort_by|sort_unstable_by)$", call_name(v.a[0])):
            a, b = mk("arg", "a"), mk("arg", "b")
            qs = clo_paths(c, v.a[0].a[1][1], a, b)
            good = bool(qs) and all(q.end == "return" and re.search(r"::cmp$", call_name(q.ret)) and [plain(x) for x in q.ret.a[1]] == [F(a, "0"), F(b, "0")] for q in qs)
            v = v.a[2]
        elif v.op == "mut" and isinstance(v.a[0], V) and re.search(r"::(sort_by_key|sort_unstable_by_key|sort_by_cached_key)$", call_name(v.a[0])):
            good, v = first_of(c, v.a[0].a[1][1]), v.a[2]
        elif v.op in ("call", "pure") and re.search(r"::collect$", v.a[0]):
            src, fs = chain(v)
            return src if good and not fs else None
        else:
            return None


def norm_lines(t, tail):
    """pieces, without comment and blank lines between complete lines; tail: whether the text before ends a line"""
    out = []
    for x in t:
        if isinstance(x, str):
            out += re.split(r"(?<=\n)", x)
        else:
            out.append(x)
    cur, res = [], []
    for x in out:
        if x == "":
            continue
        cur.append(x)
        if isinstance(x, str) and x.endswith("\n"):
            if len(cur) > 1 or x.strip() and not x.strip().startswith("#"):
                res += cur
            cur = []
    res += cur
    m = []
    for x in res:
        if isinstance(x, str) and m and isinstance(m[-1], str):
            m[-1] += x
        else:
            m.append(x)
    return m


def through(v, starts):
    """the pieces appended since one of the loop variables `starts` (or the empty text): (start, pieces)"""
    for s in starts:
        o = appended(v, s)
        if o is not None:
            return s, o
    t, x = [], v
    while x.op == "mut":
        x = x.a[2]
    if re.search(r"String::(new|with_capacity)$|Default>?::default$", call_name(x)) or const_of(x) == "":
        o = appended(v, x)
        return (None, o) if o is not None else (None, None)
    if isinstance(const_of(x), str) or call_name(x):
        o = appended(v, x)
        return (None, content(x) + o) if o is not None else (None, None)
    return None, None


def serialize(c, ps):
    tr = mk("arg", "translations")
    loops = {}
    for p in ps:
        for v in list(p.facts) + [p.ret] + [x for e in p.events for x in e.args if isinstance(x, V)]:
            for x in walk(v):
                if x.op == "loop":
                    loops[x.id] = x
    texts = [x for x in loops.values() if isinstance(x.a[3], V) and (lambda y: re.search(r"String::(new|with_capacity)$", call_name(y)) or isinstance(const_of(y), str))(root_text(x))]
    nexts = {v.id: v for p in ps for v in p.facts if re.search(r"Iterator>?::next$", call_name(v))}
    outer = [v for v in nexts.values() if sorted_of(c, v.a[1][0]) is tr]
    c.ob("write", "keys in order", len(outer) == 1, f"{len(outer)} loops over the sorted keys", "write|keys")
    if len(outer) != 1:
        return
    o = outer[0]
    item = F(o, "+Some", "0")
    data = F(item, "1")
    inner = []
    for v in nexts.values():
        s = sorted_of(c, v.a[1][0])
        if s is not None and s is not tr:
            inner.append((v, s))
    ok = len(inner) == 1 and under_pure(inner[0][1]) is data and inner[0][1].op == "mut" and re.search(r"::remove(_entry)?$", call_name(inner[0][1].a[0])) and const_text(inner[0][1].a[0].a[1][1]) == "en"
    skips = len(inner) == 1 and inner[0][1] is data
    c.ob("write", "languages in order", ok or skips, f"{[show(s)[:80] for _, s in inner]}", "write|languages")
    if not (ok or skips):
        return
    i = inner[0][0]
    iit = F(i, "+Some", "0")
    n = set()
    outers = [x for x in texts if any(p.end == "loop" and p.ends_loop(x) and p.variant(i) is None for p in ps) or through(x.a[3], [])[1] is not None and x.a[3].op in ("mut", "call", "pure") and all(not mentions(x.a[3], lambda y: y is z) for z in texts)]
    for p in ps:
        if p.variant(o) == "None":
            s, t = through(p.ret, texts)
            n.add("end")
            c.ob("write", "result", p.end == "return" and s in outers and norm_lines(t or [], True) == [], f"{p.end} {show(p.ret)[:100]}", "write|result", p.span)
            if s in outers:
                _, t0 = through(s.a[3], [])
                c.ob("write", "start", t0 is not None and norm_lines(t0, True) == [], f"starts with {t0}", "write|start", p.span)
            continue
        if p.variant(o) != "Some":
            c.ob("write", "loop", p.end == "return" and False, f"{p.end} before the first key", "write|loop", p.span)
            continue
        mine = [x for x in texts if p.end == "loop" and p.ends_loop(x)]
        if p.end != "loop":
            en = [v for v, f in p.facts.items() if f == ("eq", "None") and re.search(r"::(remove|get)$", call_name(v)) and const_text(v.a[1][1]) == "en"]
            c.ob("write", "no English text", p.end == "diverge" and bool(en), f"{p.end} {show(p.ret)[:80]}", "write|panic", p.span)
            continue
        for x in mine:
            s, t = through(p.loop_next(x), texts)
            if p.variant(i) == "Some" and s is x and x not in outers:
                n.add("text")
                w = norm_lines(t, True)
                if skips and w == []:
                    en = any(f == ("eq", "1") and v.op == "bin" and v.a[0] == "Eq" and any(plain(y) is F(iit, "0") for y in v.a[1:]) and any(const_text(y) == "en" for y in v.a[1:]) or f == ("eq", "0") and v.op == "bin" and v.a[0] == "Ne" and any(const_text(y) == "en" for y in v.a[1:]) for v, f in p.facts.items())
                    c.ob("write", "only English is written before", en, "a language is left out", "write|left out", p.span)
                    continue
                ok = len(w) == 4 and w[1] == " = " and w[3] == "\n" and [base_key(y) for y in (w[0], w[2])] == [F(iit, "0"), F(iit, "1")]
                c.ob("write", "a text", ok, f"writes {pieces(w)}", "write|text", p.span)
            elif p.variant(i) == "None":
                # the end of a key: nothing but the texts came after its head
                n.add("key")
                inn = s if s is not None else None
                ok = inn is not None and inn not in outers and norm_lines(t, True) == []
                c.ob("write", "end of a key", ok, f"the key ends with {pieces(t)}", "write|key end", p.span)
                if ok:
                    s0, t0 = through(inn.a[3], outers)
                    w = norm_lines(t0 or [], True)
                    good = s0 in outers and len(w) == 5 and w[0] == "[" and w[2] == "]\nen = " and w[4] == "\n" and base_key(w[1]) is F(item, "0")
                    if good:
                        e = base_key(w[3])
                        good = e.op == "proj" and base_opt(e) is not None and re.search(r"::(remove|get)$", call_name(base_opt(e))) and const_text(base_opt(e).a[1][1]) == "en" and under_pure(base_opt(e).a[1][0]) is data
                    c.ob("write", "head of a key", bool(good), f"writes {pieces(w)}", "write|head", p.span)
    c.ob("write", "parts", {"end", "text", "key"} <= n, f"only {sorted(n)}", "write|parts")
    c.floor("parts", len(n), 3)


def base_opt(e):
    return e.a[0].a[0] if e.op == "proj" and e.a[1] == ("f", "0") and e.a[0].op == "proj" and e.a[0].a[1][0] == "d" else None


def pieces(w):
    return [y if isinstance(y, str) else show(y)[:60] for y in w or []]


def root_text(v):
    d = 0
    while d < 60:
        d += 1
        if v.op == "loop" and isinstance(v.a[3], V):
            v = v.a[3]
        elif v.op == "mut":
            v = v.a[2]
        else:
            break
    return v


def disk(c, ps):
    kv, out = mk("arg", "key_values"), mk("arg", "output")
    n = set()
    for p in ps:
        rd = [e for e in p.events if e.kind == "call" and re.search(r"fs::read(_to_string)?$", e.name)]
        wr = [e for e in p.events if e.kind == "call" and re.search(r"fs::(write|rename|copy|remove_file|File::create|OpenOptions::open)", e.name)]
        ok = len(rd) == 1 and plain(rd[0].args[0]) is out
        c.ob("disk", "read", ok, f"{[short(e.name) for e in rd]}", "disk|read", p.span)
        if not ok:
            continue
        r = rd[0].res
        de = evs(p, r"^deserialize$", "call")
        src = None
        if p.variant(r) == "Ok":
            ok = len(de) == 1 and plain(de[0].args[0]) is F(r, "+Ok", "0") and str(const_of(de[0].args[1])) in ("1", "True")
            c.ob("disk", "by key", ok, f"{[show(e.args[0])[:60] for e in de]}", "disk|parse", p.span)
            if not ok:
                continue
            if p.variant(de[0].res) == "Err":
                n.add("bad")
                c.ob("disk", "not understood", p.end == "return" and p.variant(p.ret) == "Err" and not wr, f"{p.end} having written {len(wr)} times", "disk|bad", p.span)
                continue
            src = F(de[0].res, "+Ok", "0")
        else:
            kind = [(v, p.variant(v)) for v in p.facts if re.search(r"io::Error::kind$", call_name(v))]
            kinds = [f for v, f in p.facts.items() if re.search(r"io::Error::kind$", call_name(v))]
            nf = any(k == "NotFound" for _, k in kind)
            if not nf:
                n.add("unreadable")
                c.ob("disk", "not readable", p.end == "return" and p.variant(p.ret) == "Err" and not wr, f"{p.end} with error kind {kinds} having written {len(wr)} times", "disk|unreadable", p.span)
                continue
            n.add("missing")
        up = evs(p, r"^update_translations$", "call")
        se = evs(p, r"^serialize_translations$", "call")
        ok = len(up) == len(se) == len(wr) == 1 and wr[0].name.endswith("fs::write")
        c.ob("disk", "updated and written", ok, f"{[short(e.name) for e in up + se + wr]}", "disk|steps", p.span)
        if not ok:
            continue
        m = up[0].args[1]
        ok = (under_mut(m) is src if src is not None else bool(re.search(EMPTY_MAP, call_name(under_mut(m)))))
        c.ob("disk", "what is updated", ok, f"{show(m)[:80]}", "disk|map", p.span)
        x = se[0].args[0]
        ok = x.op == "mut" and x.a[0] is up[0].res and x.a[2] is m and under_mut(up[0].args[0]) is kv
        c.ob("disk", "update", ok, f"writes {show(x)[:80]} updated with {show(up[0].args[0])[:60]}", "disk|update", p.span)
        ok = plain(wr[0].args[0]) is out and plain(wr[0].args[1]) is se[0].res
        c.ob("disk", "write", ok, f"writes {show(wr[0].args[1])[:60]} to {show(wr[0].args[0])[:60]}", "disk|write", p.span)
        n.add(p.variant(wr[0].res))
        same = p.ret is wr[0].res or p.variant(wr[0].res) is not None and p.variant(p.ret) == p.variant(wr[0].res)
        c.ob("disk", "outcome", p.end == "return" and same, f"{p.end} {show(p.ret)[:80]}", "disk|outcome", p.span)
    c.ob("disk", "cases", {"bad", "unreadable", "missing"} <= n, f"only {sorted(map(str, n))}", "disk|cases")
