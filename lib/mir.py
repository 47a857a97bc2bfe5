"""Path-sensitive dataflow over the instance-level MIR dumped by tools/mirdump.

The engine walks the control-flow graph of a root function with its local
callees (and the core combinators) spliced in, tracking for every place the
*provenance* of its value (which argument, constant, call result or aggregate it
comes from) and, for every branch taken, the fact the branch establishes.  States
that agree on live values, facts and recorded events are merged.  Loops are
summarised: everything a loop body can write is forgotten at its header, so one
pass over the body stands for an arbitrary iteration.  Nothing is executed and no
solver is involved; infeasible paths are only pruned when a branch contradicts an
already established fact on the same value.
"""
import json, re, os, sys
from collections import defaultdict

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ values
class V:
    __slots__ = ("op", "a", "id", "_m")
    table = {}
    count = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    v = V.table.get(k)
    if v is None:
        v = V.__new__(V)
        v.op = op
        v.a = a
        V.count += 1
        v.id = V.count
        v._m = None
        V.table[k] = v
    return v


def const(x):
    return mk("const", json.dumps(x, sort_keys=True) if not isinstance(x, (int, str, type(None))) else (("b" if isinstance(x, bool) else ""), x))


def cval(v):
    """python value of a constant, or None"""
    if v.op != "const":
        return None
    x = v.a[0]
    if isinstance(x, tuple):
        return int(x[1]) if isinstance(x[1], bool) else x[1]
    return json.loads(x)


def is_const(v):
    return v.op == "const"


TRUE = const(1)
FALSE = const(0)
UNIT = mk("agg", "tuple", "", "", ())


def short(n):
    n = re.sub(r"<[^<>]*>", "", n) if not n.startswith("<") else n
    return n


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return "(" + ",".join(show(x, d + 1) for x in v) + ")"
        return str(v)
    if d > 7:
        return "…"
    o, a = v.op, v.a
    if o == "arg":
        return f"${a[0]}"
    if o == "const":
        return repr(cval(v))
    if o == "fn":
        return f"fn {a[0]}"
    if o == "agg":
        n = a[2] and f"{a[1].split('::')[-1]}::{a[2]}" or (a[1].split("::")[-1] if a[1] else a[0])
        fs = a[3]
        vals = a[4:]
        return f"{n}({', '.join((f + ':' if f and not f.isdigit() else '') + show(x, d + 1) for f, x in zip(fs, vals))})"
    if o == "clo":
        return f"closure[{a[0]}]"
    if o == "ref":
        return f"&{show(a[0], d + 1)}{projs_str(a[1])}"
    if o in ("call", "pure"):
        return f"{short(a[0])}({', '.join(show(x, d + 1) for x in a[1])})" + (f"#{a[2].id if isinstance(a[2], V) else a[2]}.{a[3]}" if o == "call" else "")
    if o == "proj":
        p = a[1]
        if p[0] == "d":
            return f"{show(a[0], d + 1)} as {p[1]}"
        return f"({show(a[0], d + 1)}).{p[1] if len(p) > 1 else p[0]}"
    if o == "bin":
        return f"({show(a[1], d + 1)} {a[0]} {show(a[2], d + 1)})"
    if o == "upd":
        return f"upd({show(a[0], d + 1)}, {', '.join(projs_str(k) + '=' + show(x, d + 1) for k, x in a[1])})"
    return f"{o}({', '.join(show(x, d + 1) for x in a)})"


def projs_str(ps):
    return "".join("." + (str(p[1]) if len(p) > 1 and p[0] == "f" else f"{p[0]}{p[1] if len(p) > 1 else ''}") for p in ps)


def walk(v, seen=None):
    """all sub-values of v"""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, V) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.a)


def mentions(v, pred):
    return any(pred(x) for x in walk(v))


def calls_in(v, rx):
    r = re.compile(rx)
    return [x for x in walk(v) if x.op in ("call", "pure") and r.search(x.a[0])]


def args_in(v):
    return {x.a[0] for x in walk(v) if x.op == "arg"}


# ------------------------------------------------------------------ program
class Body:
    def __init__(self, prog, j):
        self.prog = prog
        self.id = j["id"]
        self.name = j["name"]
        self.kind = j["kind"]
        self.local = j["local"]
        self.identity = j["identity"]
        self.span = j["span"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["b"]
        self.args = j["args"]
        self.spread_arg = j.get("spread_arg")
        self._live = None
        self._loops = None
        self._lw = {}

    def succ(self, i):
        b = self.blocks[i]
        if b is None:
            return []
        t = b["t"]
        k = t["t"]
        if k == "switch":
            return [x[1] for x in t["v"]] + [t["else"]]
        if k in ("goto", "drop", "assert", "yield"):
            return [t["to"]]
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        return []

    @property
    def loops(self):
        """header -> set of blocks (natural loops)"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        order, state = [], [0] * n
        back = []
        st = [(0, iter(self.succ(0)))]
        state[0] = 1
        while st:
            u, it = st[-1]
            for w in it:
                if state[w] == 0:
                    state[w] = 1
                    st.append((w, iter(self.succ(w))))
                    break
                if state[w] == 1:
                    back.append((u, w))
            else:
                state[u] = 2
                order.append(u)
                st.pop()
        preds = defaultdict(list)
        for u in range(n):
            if state[u]:
                for w in self.succ(u):
                    preds[w].append(u)
        res = {}
        for u, h in back:
            body = res.setdefault(h, {h})
            wk = [u]
            while wk:
                x = wk.pop()
                if x in body:
                    continue
                body.add(x)
                wk.extend(preds[x])
        self._loops = res
        return res

    def place_uses(self, p, out):
        out.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i":
                out.add(e[1])

    def op_uses(self, o, out):
        if o["k"] in ("cp", "mv"):
            self.place_uses(o["p"], out)

    def rv_uses(self, r, out):
        if "o" in r:
            for o in r["o"] if isinstance(r["o"], list) else [r["o"]]:
                self.op_uses(o, out)
        if "p" in r:
            self.place_uses(r["p"], out)

    @property
    def live(self):
        """live-in locals per block (address-taken locals stay live)"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        gen = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]
        for i, b in enumerate(self.blocks):
            if b is None:
                continue
            g, k = gen[i], kill[i]
            for s in b["s"]:
                if s[0] == "=":
                    u = set()
                    self.rv_uses(s[2], u)
                    if len(s[1]) > 1:
                        self.place_uses(s[1], u)
                    g |= u - k
                    if len(s[1]) == 1:
                        k.add(s[1][0])
                elif s[0] == "sd":
                    if s[1][0] not in k:
                        g.add(s[1][0])
                elif s[0] == "dead":
                    k.add(s[1])
            t = b["t"]
            u = set()
            if t["t"] in ("switch", "assert"):
                self.op_uses(t["o"], u)
                for o in t.get("ops", []):
                    self.op_uses(o, u)
            elif t["t"] == "drop":
                self.place_uses(t["p"], u)
            elif t["t"] == "call":
                for o in t["a"]:
                    self.op_uses(o, u)
                self.op_uses(t["f"], u)
                if len(t["d"]) > 1:
                    self.place_uses(t["d"], u)
            elif t["t"] == "return":
                u.add(0)
            g |= u - k
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                if self.blocks[i] is None:
                    continue
                o = set()
                for s in self.succ(i):
                    o |= live[s]
                new = gen[i] | (o - kill[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self._live = live
        return live

    def loop_writes(self, h):
        """(locals assigned in the loop, locals whose pointee may be written)"""
        if h in self._lw:
            return self._lw[h]
        direct, through = set(), set()
        for i in self.loops[h]:
            b = self.blocks[i]
            for s in b["s"]:
                if s[0] in ("=", "sd"):
                    (through if "*" in s[1] else direct).add(s[1][0])
                    if s[0] == "=" and s[2]["r"] == "ref" and s[2].get("m"):
                        (through if "*" in s[2]["p"] else direct).add(s[2]["p"][0])
            t = b["t"]
            if t["t"] == "call":
                (through if "*" in t["d"] else direct).add(t["d"][0])
                for o, ty in zip(t["a"], t["at"]):
                    if o["k"] in ("cp", "mv") and ty.startswith("&mut"):
                        through.add(o["p"][0])
        # a captured reference is read into a temporary before it is written through
        for i in self.loops[h]:
            for s in self.blocks[i]["s"]:
                if s[0] == "=" and len(s[1]) == 1 and s[1][0] in through and s[2]["r"] == "use" and s[2]["o"]["k"] in ("cp", "mv"):
                    pl = s[2]["o"]["p"]
                    if pl[0] == 1 and len(pl) > 1 and "{closure" in self.name:
                        through.add(1)
        self._lw[h] = (direct, through)
        return self._lw[h]


MAP_LOOKUP = re.compile(r"(?:RedBlackTreeMap|HashMap|BTreeMap)::(get|get_mut|contains_key)$")
MAP_INSERT = re.compile(r"(?:RedBlackTreeMap|HashMap|BTreeMap)::insert(_mut)?$")
ITER_LOOP = re.compile(r"Iterator>?::(for_each|try_for_each|all|any|find|find_map)$")


def captured_mut(cb):
    """which captured variables the closure writes or borrows mutably"""
    out, alias = set(), {}

    def use(pl):
        if pl and pl[0] in alias and "*" in pl:
            out.add(alias[pl[0]])
        if pl and pl[0] == 1:
            for x in pl[1:]:
                if isinstance(x, (list, tuple)) and x[0] == "f":
                    out.add(x[2])
                    return

    for b in cb.blocks:
        for s in b["s"] if b is not None else ():
            if s[0] == "=" and s[2]["r"] == "use" and s[2]["o"]["k"] in ("cp", "mv") and len(s[1]) == 1:
                pl = s[2]["o"]["p"]
                fs = [x[2] for x in pl[1:] if isinstance(x, (list, tuple)) and x[0] == "f"]
                if pl[0] == 1 and len(fs) == 1:
                    alias[s[1][0]] = fs[0]
    for b in cb.blocks:
        if b is None:
            continue
        for s in b["s"]:
            if s[0] in ("=", "sd"):
                use(s[1])
                if s[0] == "=" and s[2]["r"] in ("ref", "rawptr") and s[2].get("m", True):
                    use(s[2]["p"])
        t = b["t"]
        if t["t"] == "call":
            use(t["d"])
            for o, ty in zip(t["a"], t["at"]):
                if o["k"] in ("cp", "mv") and ty.startswith("&mut"):
                    use(o["p"])
    return out


ITER_NEXT = re.compile(r"Iterator>?::next$")
ADAPTER = re.compile(r"Iterator>?::(filter|map|filter_map)$")


def adapted(v):
    """(how, iterator below, closure) of an iterator that maps or filters another"""
    if v.op == "loop":
        r = adapted(v.a[3])
        return r and (r[0], mk("loop", v.a[0], v.a[1], v.a[2], r[1], v.a[4]), r[2])
    if v.op == "mut":
        r = adapted(v.a[2])
        return r and (r[0], mk("mut", v.a[0], v.a[1], r[1]), r[2])
    m = ADAPTER.search(v.a[0]) if v.op == "call" else None
    if m and len(v.a[1]) == 2 and v.a[1][1].op == "clo" and v.a[1][1].a[3] != -1:
        return m.group(1), v.a[1][0], v.a[1][1]
    return None


class NextBody(Body):
    """the next item of an iterator that maps or filters another"""
    again = False


def synth_next(prog, how, cb, again, sp):
    """`again`: an item left out is the caller's loop going on"""
    key = ("next", how, id(cb), again)
    if key in prog.synth:
        return prog.synth[key]
    OPT = "std::option::Option"
    cp = lambda l: {"k": "cp", "p": [l]}
    mv = lambda l: {"k": "mv", "p": [l]}
    item = [6, ["d", "Some", 1], ["f", "0", 0]]
    none = {"r": "agg", "a": "adt", "adt": OPT, "v": "None", "f": [], "o": []}
    some = lambda l: {"r": "agg", "a": "adt", "adt": OPT, "v": "Some", "f": ["0"], "o": [mv(l)]}
    out = {"s": [], "t": {"t": "again"} if again else {"t": "goto", "to": 0}}
    blocks = [
        {"s": [["=", [3], {"r": "ref", "m": True, "p": [1]}, sp]], "t": {"t": "call", "f": {"k": "fn", "c": {"p": "<_ as std::iter::Iterator>::next", "how": "static", "ga": [], "t": "std::iter::Iterator::next", "self": ""}}, "a": [mv(3)], "at": ["&mut _"], "d": [6], "dty": OPT, "to": 1, "sp": sp, "mac": ""}},
        {"s": [["=", [5], {"r": "discr", "p": [6], "adt": OPT}, sp]], "t": {"t": "switch", "o": mv(5), "ty": "isize", "v": [["0", 2], ["1", 3]], "else": 7}},
        {"s": [["=", [0], none, sp]], "t": {"t": "return"}},
        {"s": [["=", [7], {"r": "use", "o": cp(0) | {"p": item}}, sp], ["=", [8], {"r": "ref", "m": False, "p": [7]}, sp]], "t": {"t": "call", "f": {"k": "fn", "c": {"p": cb.name, "how": "static", "ga": [], "i": cb.id}}, "a": [cp(2), mv(8) if how == "filter" else cp(7)], "at": ["", ""], "d": [9], "dty": "", "to": 4, "sp": sp, "mac": ""}},
        None,
        {"s": [["=", [0], {"filter": some(7), "map": some(9), "filter_map": {"r": "use", "o": mv(9)}}[how], sp]], "t": {"t": "return"}},
        out,
        {"s": [], "t": {"t": "unreachable"}},
    ]
    blocks[4] = {
        "filter": {"s": [], "t": {"t": "switch", "o": cp(9), "ty": "bool", "v": [["0", 6]], "else": 5}},
        "map": {"s": [], "t": {"t": "goto", "to": 5}},
        "filter_map": {"s": [["=", [5], {"r": "discr", "p": [9], "adt": OPT}, sp]], "t": {"t": "switch", "o": mv(5), "ty": "isize", "v": [["0", 6], ["1", 5]], "else": 7}},
    }[how]
    if how == "map":
        blocks[6] = {"s": [], "t": {"t": "unreachable"}}
    j = {"id": -1, "name": "std::iter::Iterator::next", "kind": "fn", "local": False, "identity": "", "span": cb.span, "argc": 2, "locals": {}, "b": blocks, "args": []}
    body = NextBody(prog, j)
    body.crate = cb.crate
    body.again = again
    prog.synth[key] = body
    return body


class LoopBody(Body):
    """`for item in iter { closure(item) }`, as a combinator runs it"""

    @property
    def live(self):
        if self._live is None:
            self._live = [set(x) | self.through for x in Body.live.fget(self)]
        return self._live

    def loop_writes(self, h):
        d, t = Body.loop_writes(self, h)
        return d, t | self.through


def synth_loop(prog, how, by_ref, nx, cb, ity, sp, dty=""):
    key = (how, by_ref, nx, id(cb), dty)
    if key in prog.synth:
        return prog.synth[key]
    OPT = "std::option::Option"
    cp = lambda l: {"k": "cp", "p": [l]}
    mv = lambda l: {"k": "mv", "p": [l]}
    item = [6, ["d", "Some", 1], ["f", "0", 0]]
    st1 = [] if by_ref else [["=", [3], {"r": "ref", "m": True, "p": [1]}, sp]]
    k = lambda v: {"k": "c", "ty": "bool", "v": v}
    some = {"r": "agg", "a": "adt", "adt": OPT, "v": "Some", "f": ["0"], "o": [mv(7)]}
    none = {"r": "agg", "a": "adt", "adt": OPT, "v": "None", "f": [], "o": []}
    blocks = [
        {"s": [], "t": {"t": "goto", "to": 1}},
        {"s": st1, "t": {"t": "call", "f": {"k": "fn", "c": {"p": nx, "how": "static", "ga": [], "t": "std::iter::Iterator::next", "self": ""}}, "a": [cp(1) if by_ref else mv(3)], "at": ["&mut " + ity.replace("&mut ", "")], "d": [6], "dty": OPT, "to": 2, "sp": sp, "mac": ""}},
        {"s": [["=", [5], {"r": "discr", "p": [6], "adt": OPT}, sp]], "t": {"t": "switch", "o": mv(5), "ty": "isize", "v": [["0", 3], ["1", 4]], "else": 9}},
        {"s": [["=", [0], {"none": none}, sp]], "t": {"t": "return"}},
        {"s": [["=", [7], {"r": "use", "o": {"k": "cp", "p": item}}, sp]], "t": {"t": "goto", "to": 5}},
        {"s": [], "t": {"t": "call", "f": {"k": "fn", "c": {"p": cb.name, "how": "static", "ga": [], "i": cb.id}}, "a": [cp(2), mv(8) if how == "find" else cp(7)], "at": ["", ""], "d": [9], "dty": "", "to": 6, "sp": sp, "mac": ""}},
        {"s": [], "t": {"t": "goto", "to": 1}},
        {"s": [], "t": {"t": "return"}},
        {"s": [["=", [0], some, sp]], "t": {"t": "return"}},
        {"s": [], "t": {"t": "unreachable"}},
    ]
    if how == "find":
        blocks[4]["s"].append(["=", [8], {"r": "ref", "m": False, "p": [7]}, sp])
    if how in ("all", "any", "find"):
        # all stops at the first false, any and find at the first true
        stop = 8 if how == "find" else 7
        go = {"t": "switch", "o": cp(9), "ty": "bool", "v": [["0", stop if how == "all" else 10]], "else": 10 if how == "all" else stop}
        blocks[6] = {"s": [], "t": go}
        if how != "find":
            blocks[7]["s"] = [["=", [0], {"r": "use", "o": k(0 if how == "all" else 1)}, sp]]
    if how == "find_map":
        blocks[6] = {"s": [["=", [5], {"r": "discr", "p": [9], "adt": OPT}, sp]], "t": {"t": "switch", "o": mv(5), "ty": "isize", "v": [["0", 10], ["1", 7]], "else": 9}}
        blocks[7]["s"] = [["=", [0], {"r": "use", "o": mv(9)}, sp]]
    if how == "try_for_each":
        # ends at the first failure, with it
        adt, stop, goes, none = dty, *(("1", "0", "Ok") if dty.endswith("Result") else ("0", "1", "Some")),
        unit = {"r": "agg", "a": "tuple", "o": []}
        blocks[6] = {"s": [["=", [5], {"r": "discr", "p": [9], "adt": adt}, sp]], "t": {"t": "switch", "o": mv(5), "ty": "isize", "v": [[goes, 10], [stop, 7]], "else": 9}}
        blocks[7]["s"] = [["=", [0], {"r": "use", "o": mv(9)}, sp]]
        blocks[3]["pre"] = ["=", [4], unit, sp]
        none = {"r": "agg", "a": "adt", "adt": adt, "v": none, "f": ["0"], "o": [mv(4)]}
    blocks.append({"s": [], "t": {"t": "goto", "to": 1}})
    end = {"for_each": {"r": "agg", "a": "tuple", "o": []}, "all": {"r": "use", "o": k(1)}, "any": {"r": "use", "o": k(0)}}.get(how, none)
    blocks[3]["s"] = [x for x in [blocks[3].pop("pre", None), ["=", [0], end, sp]] if x]
    j = {"id": -1, "name": nx[: -len("next")] + how, "kind": "fn", "local": False, "identity": "", "span": cb.span, "argc": 2, "locals": {}, "b": blocks, "args": []}
    body = LoopBody(prog, j)
    body.crate = cb.crate
    body.through = {20 + i for i in captured_mut(cb)}
    prog.synth[key] = body
    return body


class Program:
    def __init__(self, files):
        self.bodies = {}
        self.synth = {}
        self.fns = []
        self.derived = set()
        self.adts = {}
        self.impls = []
        self.crates = []
        for f in files:
            d = json.load(open(f))
            c = d["crate"] + ("-bin" if f.endswith("-bin.json") else "")
            self.crates.append(c)
            for b in d["bodies"]:
                b["crate"] = c
                body = Body(self, b)
                body.crate = c
                self.bodies[(c, b["id"])] = body
            for x in d["fns"]:
                x["crate"] = c
                self.fns.append(x)
                if x.get("derived"):
                    self.derived.add(x["name"])
            for k, v in d["adts"].items():
                if k not in self.adts or v["local"]:
                    self.adts[k] = v
            for i in d["impls"]:
                i["crate"] = c
                self.impls.append(i)

    def fn(self, name, crate=None):
        """identity body of the function with that exact (or suffix) name"""
        r = [f for f in self.fns if (f["name"] == name or f["name"].endswith("::" + name)) and (crate is None or f["crate"] == crate)]
        ex = [f for f in r if f["name"] == name]
        if ex:
            r = ex
        if not r:
            return None
        return self.bodies[(r[0]["crate"], r[0]["id"])]

    def fns_like(self, rx, crate=None):
        r = re.compile(rx)
        return [self.bodies[(f["crate"], f["id"])] for f in self.fns if r.search(f["name"]) and (crate is None or f["crate"] == crate)]

    def variant(self, adt, discr):
        a = self.adts.get(adt)
        if not a:
            return None
        for v in a["v"]:
            if v["d"] == discr:
                return v["n"]
        # negative discriminants are printed as unsigned of various widths
        for v in a["v"]:
            try:
                x, y = int(v["d"]), int(discr)
            except ValueError:
                continue
            for w in (8, 16, 32, 64, 128):
                if x % (1 << w) == y % (1 << w) and (x > (1 << 31) or y > (1 << 31)):
                    return v["n"]
        return None

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v["n"] for v in a["v"]] if a else []


# ------------------------------------------------------------------ models
TRANSPARENT = re.compile(
    r"""(
    std::ops::Deref(Mut)?(>)?::deref(_mut)?$|
    std::convert::AsRef>?::as_ref$|std::convert::AsMut>?::as_mut$|
    std::borrow::Borrow(Mut)?>?::borrow(_mut)?$|
    ::as_(str|path|bytes|slice|mut_slice|os_str|mut_str|deref|deref_mut)$|
    std::path::Path::new$|std::ffi::OsStr::new$|
    ^std::boxed::Box::(new|pin)$|^std::pin::Pin::(new|new_unchecked|get_mut|as_mut|into_inner|get_unchecked_mut)$|
    ^std::sync::Arc::new$|^std::rc::Rc::new$|
    std::borrow::ToOwned>?::to_owned$|std::clone::Clone>?::clone$|::to_path_buf$|::to_vec$|
    std::string::ToString>?::to_string$|
    std::convert::Into>?::into$|std::convert::From>?::from$|
    std::future::IntoFuture>?::into_future$|std::iter::IntoIterator>?::into_iter$|
    ::into_(boxed_str|boxed_slice|boxed_path|string|bytes|os_string|path_buf|vec|inner|owned)$|
    ^std::string::String::from$|^std::hint::must_use$|^core::hint::must_use$|
    ^std::boxed::Box::(leak|into_raw|from_raw)$|
    ^std::borrow::Cow::(into_owned|to_mut)$|
    ^std::mem::ManuallyDrop::new$|^std::convert::identity$
    )""",
    re.X,
)
STD_GUARD = re.compile(r"<std::sync::(RwLockWriteGuard|RwLockReadGuard|MutexGuard) as std::ops::Deref(Mut)?>")
NOT_TRANSPARENT = re.compile(r"^$")
PURE = re.compile(
    r"""(
    ::(len|is_empty|parent|file_name|file_stem|extension|components|is_absolute|join|with_extension|with_file_name|
       starts_with|ends_with|contains|trim|trim_end|trim_start|to_lowercase|to_ascii_lowercase|eq_ignore_ascii_case|
       to_str|to_string_lossy|display|chars|bytes|lines|split|splitn|split_once|rsplit|strip_prefix|strip_suffix|
       is_dir|is_file|is_symlink|mode|bits|type_id|is_alphanumeric|is_ascii_hexdigit|find|rfind|
       from_utf8_lossy|to_ascii_uppercase|wrapping_add|wrapping_sub|checked_add|checked_sub|saturating_sub|saturating_add|is_power_of_two|next_power_of_two|trailing_zeros|leading_zeros|count_ones|to_le_bytes|to_be_bytes|from_le_bytes|from_be_bytes|kind|raw_os_error|index)$|
    ^std::any::TypeId::of$|^std::mem::size_of|
    std::cmp::(PartialOrd|Ord)>?::(lt|le|gt|ge|cmp|partial_cmp|max|min)$|
    ^std::fmt::Arguments::|core::fmt::rt::|^std::fmt::format$|^alloc::fmt::format$|
    std::ops::Index(Mut)?>?::index(_mut)?$|
    std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr|Not|Neg)>?::(add|sub|mul|div|rem|bitand|bitor|bitxor|shl|shr|not|neg)$
    )""",
    re.X,
)
DERIVED_EQ = ("std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord")
ANYHOW_CONTEXT = re.compile(r"^<std::result::Result as anyhow::Context>::(with_)?context$")
BUILDER = re.compile(r"^std::fs::(OpenOptions|DirBuilder)::(read|write|append|truncate|create|create_new|recursive)$|OpenOptionsExt>?::(mode|custom_flags)$|^tempfile::Builder::(prefix|suffix|rand_bytes|append|permissions)$")
IS_VARIANT = re.compile(r"^(std::option::Option|std::result::Result|serde_json::Value)::(is_none|is_some|is_ok|is_err|is_null)$")
STORES_CLOSURE = re.compile(r"(HashMap|BTreeMap|Vec|VecDeque|Sender|IndexMap)(<.*>)?::(insert|push|push_back|send|try_send)$")
LOGGY = re.compile(r"^log::|^<log::|^tracing")


_params = None


def params():
    """parameter names the rules use, by function (see gen/params.py): a renamed parameter keeps its recorded name"""
    global _params
    if _params is None:
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "params.json")
        _params = json.load(open(f)) if os.path.exists(f) else {}
    return _params


class Event:
    __slots__ = ("kind", "name", "args", "raw", "res", "span", "facts", "stack", "ty", "extra", "prev", "n", "key", "mem")

    def __repr__(self):
        a = ", ".join(show(x, 3) for x in self.args)
        return f"{self.kind}:{short(self.name)}({a}) @{self.span}"


def from_json(v):
    """a constant with enum values inside"""
    if isinstance(v, dict) and "variant" in v and "o" in v:
        return mk("agg", "adt", v["adt"], v["variant"], tuple(v["f"]), *[from_json(x) for x in v["o"]])
    return const(v)


class Path:
    def __init__(self, end, ret, st, span, interp):
        self.end = end
        self.ret = ret
        self.facts = dict(st.facts)
        ev = []
        e = st.ev
        while e is not None:
            ev.append(e)
            e = e.prev
        ev.reverse()
        self.events = ev
        self.span = span
        self.st = st
        self.interp = interp

    def names(self):
        return [e.name for e in self.events]

    def variant(self, v):
        return self.interp.known_variant(self.facts, v)

    def truth(self, v):
        return self.interp.known_bool(self.facts, v)

    def read_arg(self, name, *fields):
        """value of $name.fields at the end of the path"""
        v = mk("arg", name)
        return self.interp.resolve(self.st, self.interp.read(self.st, (mk("H", v), tuple(("f", f) for f in fields))))

    def loop_vars(self):
        """the loop values of the loop the path is one iteration of"""
        return list(self.interp.havocs.get(getattr(self, "loop_id", None), ())) if self.end == "loop" else []

    def ends_loop(self, lv):
        """the path is one iteration of the loop the loop value belongs to"""
        return self.end == "loop" and lv.op == "loop" and self.loop_id == (lv.a[0], lv.a[1])

    def loop_next(self, lv):
        """value, at the end of the path, of the variable a loop value stands for"""
        if lv.op != "loop":
            return None
        l, _, j = str(lv.a[4]).partition(".")
        r = mk("L", lv.a[0], int(l))
        if r not in self.st.mem:
            return None
        v = self.interp.read(self.st, (r, ()))
        if j:  # what a closure keeps or writes to
            v = self.interp.read(self.st, v.a) if v.op == "ref" else v
            if v.op != "clo":
                return None
            v = v.a[2][int(j)]
            if v.op != "ref" and lv.a[3] is not v and mk("H", v) in self.st.mem:
                v = self.interp.read(self.st, (mk("H", v), ()))
        if v.op == "ref":
            v = self.interp.read(self.st, v.a)
        return self.interp.resolve(self.st, v)

    def __repr__(self):
        return f"[{self.end}] ret={show(self.ret)} :: " + " ; ".join(map(repr, self.events))


class St:
    __slots__ = ("frames", "mem", "facts", "ev", "cnt", "own")

    def copy(self):
        s = St()
        s.frames = list(self.frames)
        s.mem = dict(self.mem)
        s.own = set()
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.cnt = dict(self.cnt)
        return s


class Frame:
    __slots__ = ("uid", "body", "bb", "dest", "ret", "skip")

    def __init__(self, uid, body, bb, dest, ret, skip=0):
        self.uid = uid
        self.body = body
        self.bb = bb
        self.dest = dest
        self.ret = ret
        self.skip = skip

    def at(self, bb):
        return Frame(self.uid, self.body, bb, self.dest, self.ret)


class Bound(Exception):
    pass


def no_items(x):
    """`x == 0` for a length x is the question whether there is nothing"""
    if x.op == "pure" and isinstance(x.a[0], str) and re.search(r"(str|String|Vec|HashMap|HashSet|BTreeMap|VecDeque|EcoVec|EcoString|OsStr|slice)::len$", x.a[0]):
        return mk("pure", x.a[0][:-3] + "is_empty", *x.a[1:])
    return None


class Interp:
    def __init__(self, prog, events=None, stores=False, drops=None, opaque=None, depth=24, visits=2, max_states=60000, hof=True, asserts=False, reads=None, keep_log=False, impure=None, inline=None, models=None, cut=None, iters=False, runs=None):
        self.prog = prog
        self.iters = iters
        self.cut = re.compile(cut) if cut else None
        self.rx = re.compile(events) if events else None
        self.stores = stores
        self.drops = re.compile(drops) if drops else None
        self.opaque = re.compile(opaque) if opaque else None
        self.impure = re.compile(impure) if impure else None
        self.inline = re.compile(inline) if inline else None
        self.depth = depth
        self.visits = visits
        self.max_states = max_states
        self.hof = hof
        self.asserts = asserts
        self.keep_log = keep_log
        self.models = models or {}
        self.runs = runs  # {name: the argument that is a closure the call runs exactly once, giving its result}
        self.nstates = 0
        self.visited_fns = set()
        self.havocs = {}

    # -- memory
    def read(self, st, path):
        root, ps = path
        m = st.mem.get(root)
        if m is None:
            v = root.a[0] if root.op == "H" else mk("undef", root)
            for p in ps:
                v = self.apply(st, v, p)
            return v
        for n in range(len(ps), -1, -1):
            v = m.get(ps[:n])
            if v is not None:
                break
        else:
            n = 0
            v = root.a[0] if root.op == "H" else mk("undef", root)
        for p in ps[n:]:
            v = self.apply(st, v, p)
        L = len(ps)
        if len(m) > 1 or (m and n == 0 and () not in m):
            over = [(k[L:], w) for k, w in m.items() if len(k) > L and k[:L] == ps]
            if over:
                over.sort(key=lambda x: (len(x[0]), str(x[0])))
                if v.op == "undef" and all(len(k) == 1 and k[0][0] == "f" for k, _ in over):
                    v = mk("agg", "tuple", "", "", tuple(k[0][1] for k, _ in over), *[w for _, w in over])
                else:
                    v = mk("upd", v, tuple(over))
        return v

    def apply(self, st, v, p):
        o = v.op
        if p[0] == "*":
            if o == "ref":
                return self.read(st, v.a)
            return self.read(st, (mk("H", v), ()))
        if o == "upd":
            rest = []
            for k, w in v.a[1]:
                if k == (p,):
                    return w
                if k[0] == p:
                    rest.append((k[1:], w))
            b = self.apply(st, v.a[0], p)
            return mk("upd", b, tuple(rest)) if rest else b
        if o == "agg":
            if p[0] == "d":
                return v
            if p[0] == "f":
                try:
                    return v.a[4 + v.a[3].index(p[1])]
                except ValueError:
                    pass
            if p[0] == "i" and v.a[0] == "array" and is_const(p[1]):
                i = cval(p[1])
                if isinstance(i, int) and i < len(v.a) - 4:
                    return v.a[4 + i]
            if p[0] == "ci" and v.a[0] == "array" and not p[2] and p[1] < len(v.a) - 4:
                return v.a[4 + p[1]]
        if o == "clo":
            if p[0] == "f":
                try:
                    return v.a[2][v.a[1].index(p[1])]
                except ValueError:
                    pass
            if p[0] == "d":
                return v
        if o == "const":
            c = cval(v)
            if p[0] == "f":
                if isinstance(c, dict) and p[1] in c:
                    return const(c[p[1]])
                if isinstance(c, list) and p[1].isdigit() and int(p[1]) < len(c):
                    return const(c[int(p[1])])
            if p[0] in ("i", "ci") and isinstance(c, list):
                i = cval(p[1]) if p[0] == "i" and is_const(p[1]) else (p[1] if p[0] == "ci" else None)
                if isinstance(i, int) and i < len(c):
                    return const(c[i])
        return mk("proj", v, p)

    def write(self, st, path, v):
        root, ps = path
        m = st.mem.get(root)
        if m is None:
            m = {}
        else:
            m = {k: w for k, w in m.items() if k[: len(ps)] != ps}
        m[ps] = v
        st.mem[root] = m

    def path(self, st, fr, p):
        root = mk("L", fr.uid, p[0])
        ps = ()
        for e in p[1:]:
            if e == "*":
                v = self.read(st, (root, ps))
                if v.op == "ref":
                    root, ps = v.a
                else:
                    root, ps = mk("H", v), ()
            elif e[0] == "i":
                ps += (("i", self.read(st, (mk("L", fr.uid, e[1]), ()))),)
            elif e[0] == "f":
                ps += (("f", e[1]),)
            elif e[0] == "d":
                ps += (("d", e[1]),)
            else:
                ps += (tuple(e),)
        return root, ps

    def resolve(self, st, v, d=0):
        """replace references by what they currently point to"""
        if d > 6:
            return v
        if v.op == "ref":
            return self.resolve(st, self.read(st, v.a), d + 1)
        if v.op == "agg":
            n = [self.resolve(st, x, d + 1) for x in v.a[4:]]
            if any(a is not b for a, b in zip(n, v.a[4:])):
                return mk("agg", *v.a[:4], *n)
            return v
        if v.op in ("arg", "call", "proj", "pure", "mut", "hof"):
            m = st.mem.get(mk("H", v))
            if m:
                w = self.read(st, (mk("H", v), ()))
                if w is not v:
                    return w
        return v

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("cp", "mv"):
            return self.read(st, self.path(st, fr, o["p"]))
        if k == "fn":
            c = o["c"]
            return mk("fn", c["p"], c.get("i", -1), fr.body.crate if c.get("i") is not None else "", tuple(c.get("ga", ())))
        if "v" in o:
            v = o["v"]
            if isinstance(v, dict) and "variant" in v:
                if "o" in v:
                    return from_json(v)
                return mk("agg", "adt", re.sub(r"^&|<.*", "", o["ty"]), v["variant"], ())
            if v is None:
                if o["ty"] == "()":
                    return UNIT
                return mk("zst", o["ty"])
            return const(v)
        text = o.get("path") or o.get("s", "?")
        if re.match(r"\{transmute\(0x0+\): std::option::Option<&", text):
            return mk("agg", "adt", "std::option::Option", "None", ())
        return mk("cexpr", text)

    # -- facts
    def known_variant(self, facts, v):
        if v.op == "agg" and v.a[0] == "adt":
            return v.a[2]
        if v.op == "upd":
            return self.known_variant(facts, v.a[0])
        f = facts.get(v)
        if f and f[0] == "eq":
            return f[1]
        return None

    def known_bool(self, facts, v):
        neg = False
        while v.op == "not":
            v = v.a[0]
            neg = not neg
        r = None
        if v.op == "const":
            c = cval(v)
            if isinstance(c, int):
                r = bool(c)
        elif v.op == "isvar":
            k = self.known_variant(facts, v.a[0])
            if k is not None:
                r = k == v.a[1]
            else:
                f = facts.get(v.a[0])
                if f and f[0] == "ne" and v.a[1] in f[1]:
                    r = False
        if r is None:
            f = facts.get(v)
            if f and f[0] == "eq":
                r = bool(int(f[1]))
            elif f and f[0] == "ne":
                if "0" in f[1]:
                    r = True
                elif "1" in f[1]:
                    r = False
        if r is None and v.op == "bin" and v.a[0] in ("Eq", "Ne") and is_const(v.a[2]):
            f = facts.get(v.a[1])
            if f and f[0] == "eq" and str(cval(v.a[2])) == f[1]:
                r = v.a[0] == "Eq"
            elif f and f[0] == "eq":
                r = v.a[0] == "Ne"
            elif f and f[0] == "ne" and str(cval(v.a[2])) in f[1]:
                r = v.a[0] == "Ne"
        return None if r is None else r != neg

    def assume_variant(self, st, v, name, adt, eq=True):
        """returns False if contradictory"""
        while v.op == "upd":
            v = v.a[0]
        if v.op == "agg" and v.a[0] == "adt":
            return (v.a[2] == name) == eq
        f = st.facts.get(v)
        if f is None:
            st.facts[v] = ("eq", name) if eq else ("ne", frozenset([name]))
        elif f[0] == "eq":
            return (f[1] == name) == eq
        else:
            if eq:
                if name in f[1]:
                    return False
                st.facts[v] = ("eq", name)
            else:
                st.facts[v] = ("ne", f[1] | {name})
        f = st.facts[v]
        if f[0] == "ne" and adt:
            rest = [x for x in self.prog.variants(adt) if x not in f[1]]
            if len(rest) == 1:
                st.facts[v] = ("eq", rest[0])
            elif not rest and self.prog.variants(adt):
                return False
        return True

    def assume_bool(self, st, v, b):
        while v.op == "not":
            v = v.a[0]
            b = not b
        k = self.known_bool(st.facts, v)
        if k is not None:
            return k == b
        if v.op == "isvar":
            return self.assume_variant(st, v.a[0], v.a[1], v.a[2], b)
        st.facts[v] = ("eq", "1" if b else "0")
        if v.op == "bin" and v.a[0] in ("Eq", "Ne") and is_const(v.a[2]) and isinstance(cval(v.a[2]), int):
            e = (v.a[0] == "Eq") == b
            c = str(cval(v.a[2]))
            f = st.facts.get(v.a[1])
            if e:
                st.facts[v.a[1]] = ("eq", c)
            elif f is None:
                st.facts[v.a[1]] = ("ne", frozenset([c]))
            elif f[0] == "ne":
                st.facts[v.a[1]] = ("ne", f[1] | {c})
        return True

    # -- events
    def event(self, st, kind, name, args, res, span, ty="", extra=None):
        e = Event()
        e.kind, e.name, e.res, e.span, e.ty = kind, name, res, span, ty
        e.raw = args
        e.args = tuple(self.resolve(st, a) for a in args)
        e.facts = dict(st.facts)
        e.stack = tuple(f.body.name for f in st.frames)
        e.extra = extra
        e.prev = st.ev
        e.mem = dict(st.mem)
        e.n = (st.ev.n + 1) if st.ev else 0
        e.key = (st.ev.key if st.ev else 0, kind, name, e.args, res, span)
        e.key = hash(e.key)
        st.ev = e
        return e

    def want(self, name):
        return self.rx is not None and self.rx.search(name) is not None

    # -- run
    def run(self, body, args=None, setup=None):
        st = St()
        st.mem = {}
        st.facts = {}
        st.ev = None
        st.cnt = {}
        st.own = set()
        uid = mk("frame", None, body.name, 0)
        st.frames = [Frame(uid, body, 0, None, None)]
        self.bind_root(st, st.frames[0], args)
        if setup:
            setup(self, st)
        return self.explore(st)

    def bind_root(self, st, fr, args):
        body = fr.body
        canon = params().get(body.crate + "|" + body.name, ())
        for i in range(1, body.argc + 1):
            nm = canon[i - 1] if len(canon) == body.argc else body.locals[i][1] or (f"#{i}")
            v = (args or {}).get(nm) or (args or {}).get(i)
            if v is None:
                if body.kind in ("closure", "coroutine") and i == 1:
                    v = mk("arg", "env")
                else:
                    v = mk("arg", nm)
            self.write(st, (mk("L", fr.uid, i), ()), v)

    def explore(self, st):
        self.paths = []
        self.seen = set()
        work = [st]
        while work:
            s = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Bound(f"state bound {self.max_states} exceeded in {s.frames[0].body.name}")
            r = self.block(s)
            for x in r:
                k = self.key(x)
                if k in self.seen:
                    continue
                self.seen.add(k)
                work.append(x)
        return self.paths

    def key(self, st):
        roots = set()
        for i, f in enumerate(st.frames):
            # a suspended frame resumes at the block its callee returns to
            live = f.body.live[f.bb if i + 1 == len(st.frames) else st.frames[i + 1].ret]
            roots |= {mk("L", f.uid, l) for l in live}
            roots.add(mk("L", f.uid, 0))
            if f.dest is not None:
                roots.add(f.dest[0])
        seen = set()
        wk = [r for r in roots if r in st.mem]
        vals = []
        vseen = set()
        while wk:
            r = wk.pop()
            if r in seen:
                continue
            seen.add(r)
            for k, v in st.mem[r].items():
                for x in walk((k, v)):
                    if x.id in vseen:
                        continue
                    vseen.add(x.id)
                    if x.op in ("L", "H") and x in st.mem:
                        wk.append(x)
                    h = None
                    if x.op in ("arg", "call", "proj", "pure", "mut"):
                        h = V.table.get(("H", x))
                    if h is not None and h in st.mem:
                        wk.append(h)
        # heap stays relevant: a later frame may still read it
        for r in st.mem:
            if r.op == "H":
                seen.add(r)
            elif r.op == "L" and r not in seen:
                pass
        mem = frozenset((r.id, frozenset((k, v.id) for k, v in st.mem[r].items())) for r in seen if r in st.mem)
        # garbage-collect dead locals
        dead = [r for r in st.mem if r.op == "L" and r not in seen]
        for r in dead:
            del st.mem[r]
        facts = frozenset((v.id, f) for v, f in st.facts.items())
        fr = tuple((f.uid.id, f.bb, f.skip) for f in st.frames)
        return (fr, mem, facts, st.ev.key if st.ev else 0, frozenset(st.cnt.items()))

    def finish(self, st, end, ret, span):
        self.paths.append(Path(end, ret, st, span, self))

    def goto(self, st, bb):
        """enter block bb of the top frame, handling loop headers; returns [state] or []"""
        fr = st.frames[-1]
        body = fr.body
        if bb in body.loops:
            ck = (fr.uid.id, bb)
            n = st.cnt.get(ck, 0)
            inside = fr.bb in body.loops[bb] and fr.bb != bb or (fr.bb == bb and n > 0)
            if not inside:
                # entering afresh
                n = 0
                for k in [k for k in st.cnt if k[0] == fr.uid.id and k[1] in body.loops[bb]]:
                    del st.cnt[k]
            n += 1
            if n > (1 if self.cut is not None and self.cut.search(body.name) else self.visits):
                self.finish(st, "loop", mk("none"), f"{body.name}:bb{bb}")
                self.paths[-1].loop_id = (fr.uid, bb)
                return []
            st.cnt[ck] = n
            self.havoc_loop(st, fr, bb, n)
        st.frames[-1] = fr.at(bb)
        return [st]

    def havoc_loop(self, st, fr, h, n):
        direct, through = fr.body.loop_writes(h)
        live = fr.body.live[h]
        made = self.havocs.setdefault((fr.uid, h), {})
        for l in direct:
            if l not in live:
                continue
            r = mk("L", fr.uid, l)
            if r in st.mem:
                old = self.read(st, (r, ()))
                if self.havoc_closure(st, fr, h, n, l, old, made, r):
                    continue
                if old.op == "loop":
                    old = old.a[3]
                made[mk("loop", fr.uid, h, n, old, l)] = 1
                st.mem[r] = {(): mk("loop", fr.uid, h, n, old, l)}
        for l in through:
            r = mk("L", fr.uid, l)
            if r in st.mem:
                v = self.read(st, (r, ()))
                if v.op == "ref":
                    old = self.read(st, v.a)
                    if old.op == "clo" and self.havoc_closure(st, fr, h, n, l, old, made, None):
                        continue
                    if old.op == "loop":
                        old = old.a[3]
                    self.write(st, v.a, mk("loop", fr.uid, h, n, old, l))
                elif v.op == "clo":
                    self.havoc_closure(st, fr, h, n, l, v, made, r)
                elif v.op in ("arg", "call", "proj", "mut"):
                    hr = mk("H", v)
                    old = self.read(st, (hr, ()))
                    if old.op == "loop":
                        old = old.a[3]
                    st.mem[hr] = {(): mk("loop", fr.uid, h, n, old, l)}

    def havoc_closure(self, st, fr, h, n, l, clo, made, r):
        """a closure made before the loop stays the closure; what it writes through its captures may be anything"""
        cb = self.prog.bodies.get((clo.a[4], clo.a[3])) if clo.op == "clo" else None
        if cb is None:
            return False
        caps = list(clo.a[2])
        for j in captured_mut(cb):
            if j >= len(caps):
                return False
            x = caps[j]
            key = f"{l}.{j}"
            old = self.read(st, x.a) if x.op == "ref" else x
            if old.op == "loop":
                old = old.a[3]
            v = mk("loop", fr.uid, h, n, old, key)
            made[v] = 1
            if x.op == "ref":
                self.write(st, x.a, v)
            elif x.op in ("arg", "call", "proj", "mut") and r is not None:
                hr = mk("H", x)
                old = self.read(st, (hr, ()))
                st.mem[hr] = {(): mk("loop", fr.uid, h, n, old.a[3] if old.op == "loop" else old, key)}
                caps[j] = x
            elif r is None:
                return False
            else:
                caps[j] = v
        if r is not None and tuple(caps) != clo.a[2]:
            st.mem[r] = {(): mk("clo", clo.a[0], clo.a[1], tuple(caps), *clo.a[3:])}
        return True

    def block(self, st):
        fr = st.frames[-1]
        body = fr.body
        self.visited_fns.add(body.name)
        b = body.blocks[fr.bb]
        for s in b["s"]:
            if s[0] == "=":
                p = self.path(st, fr, s[1])
                v = self.rvalue(st, fr, s[2])
                self.write(st, p, v)
                if self.stores and p[0].op == "H":
                    self.event(st, "store", show(p[0].a[0]) + projs_str(p[1]), (v,), v, s[3], extra=p)
            elif s[0] == "sd":
                pass
            elif s[0] == "dead":
                r = mk("L", fr.uid, s[1])
                st.mem.pop(r, None)
        t = b["t"]
        k = t["t"]
        if k == "goto" or k == "yield":
            if k == "yield":
                if self.want("@yield"):
                    self.event(st, "yield", "@yield", (), UNIT, "")
            return self.goto(st, t["to"])
        if k == "return":
            return self.ret(st)
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "drop":
            return self.drop(st, fr, t)
        if k == "assert":
            if self.asserts:
                ops = tuple(self.operand(st, fr, o) for o in t["ops"])
                self.event(st, "assert", t["kind"], ops, UNIT, t["sp"])
            cond = self.operand(st, fr, t["o"])
            if not self.assume_bool(st, cond, t["exp"]):
                self.finish(st, "panic", mk("none"), t["sp"])
                return []
            return self.goto(st, t["to"])
        if k == "call":
            return self.call(st, fr, t)
        if k == "unreachable":
            return []
        if k == "again":
            # the item is left out: the loop that asked for it goes on
            while isinstance(st.frames[-1].body, NextBody) and st.frames[-1].body.again:
                f = st.frames.pop()
                for r in [r for r in st.mem if r.op == "L" and r.a[0] is f.uid]:
                    del st.mem[r]
            return self.goto(st, self.plain_header(st.frames[-1]))
        raise Exception(k)

    def ret(self, st):
        fr = st.frames.pop()
        v = self.read(st, (mk("L", fr.uid, 0), ()))
        if v.op == "undef":
            v = UNIT
        if not st.frames:
            rv = self.resolve(st, v)
            self.finish(st, "return", rv, fr.body.span)
            return []
        for r in [r for r in st.mem if r.op == "L" and r.a[0] is fr.uid]:
            if not self.escapes(v, r):
                del st.mem[r]
        top = st.frames[-1]
        if fr.dest is not None:
            root, ps = fr.dest
            self.write(st, (root, ps), v)
            if self.stores and root.op == "H":
                self.event(st, "store", show(root.a[0]) + projs_str(ps), (v,), v, fr.body.span, extra=(root, ps))
        return self.goto(st, fr.ret)

    def escapes(self, v, r):
        return any(x is r for x in walk(v))

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["o"])
        out = []
        if v.op == "discr":
            sub, adt = v.a
            kv = self.known_variant(st.facts, sub)
            names = [(self.prog.variant(adt, d) or d, bb) for d, bb in t["v"]]
            if kv is not None:
                for n, bb in names:
                    if n == kv:
                        return self.goto(st, bb)
                return self.goto(st, t["else"])
            for n, bb in names:
                s = st.copy()
                if self.assume_variant(s, sub, n, adt):
                    out += self.goto(s, bb)
            ok = True
            for n, _ in names:
                if not self.assume_variant(st, sub, n, adt, False):
                    ok = False
                    break
            if ok:
                out += self.goto(st, t["else"])
            return out
        if v.op == "const" and isinstance(cval(v), int):
            c = cval(v)
            for d, bb in t["v"]:
                if int(d) == c or (c < 0 and any(int(d) == c % (1 << w) for w in (8, 16, 32, 64, 128))):
                    return self.goto(st, bb)
            return self.goto(st, t["else"])
        if t["ty"] == "bool":
            for d, bb in t["v"]:
                s = st.copy()
                if self.assume_bool(s, v, d != "0"):
                    out += self.goto(s, bb)
            if len(t["v"]) == 1:
                if self.assume_bool(st, v, t["v"][0][0] == "0"):
                    out += self.goto(st, t["else"])
            else:
                pass
            return out
        for d, bb in t["v"]:
            s = st.copy()
            if self.assume_variant(s, v, d, None):
                out += self.goto(s, bb)
        ok = True
        for d, _ in t["v"]:
            ok = ok and self.assume_variant(st, v, d, None, False)
        if ok:
            out += self.goto(st, t["else"])
        return out

    def drop(self, st, fr, t):
        p = self.path(st, fr, t["p"])
        v = self.read(st, p)
        names = [d["adt"] for d in t["drops"]]
        if self.drops and (self.drops.search(t["ty"]) or any(self.drops.search(n) for n in names)):
            self.event(st, "drop", t["ty"], (v,), UNIT, t["sp"], ty=t["ty"], extra=names)
        top = t["drops"][0] if t["drops"] else None
        for d in t["drops"]:
            if "i" in d and (d is top and t["ty"].split("<")[0] == d["adt"]):
                body = self.prog.bodies.get((fr.body.crate, d["i"]))
                if body and len(st.frames) < self.depth and not any(f.body is body for f in st.frames):
                    uid = mk("frame", fr.uid, fr.bb, "drop")
                    nf = Frame(uid, body, 0, None, t["to"])
                    self.write(st, (mk("L", uid, 1), ()), mk("ref", *p))
                    st.frames.append(nf)
                    return [st]
        return self.goto(st, t["to"])

    # -- rvalues
    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref":
            p = r["p"]
            path = self.path(st, fr, p)
            root, ps = path
            if root.op == "H" and not ps:
                return root.a[0]
            return mk("ref", root, ps)
        if k == "cast":
            if r["c"] == "BoxDerefTransmute" and r["o"].get("p") and r["o"]["p"][-1][:2] == ["f", "0"]:
                # a box is its content
                root, ps = self.path(st, fr, r["o"]["p"][:-1])
                return root.a[0] if root.op == "H" and not ps else mk("ref", root, ps)
            v = self.operand(st, fr, r["o"])
            if r["c"].startswith(("IntToInt", "FloatToInt", "IntToFloat")):
                c = cval(v) if is_const(v) else None
                if isinstance(c, int):
                    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(r["ty"])
                    sb = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(r["ty"])
                    if bits:
                        return const(c % (1 << bits))
                    if sb:
                        c %= 1 << sb
                        return const(c - (1 << sb) if c >> (sb - 1) else c)
                if v.op == "discr":
                    kv = self.known_variant(st.facts, v.a[0])
                    a = self.prog.adts.get(v.a[1])
                    if kv and a:
                        for x in a["v"]:
                            if x["n"] == kv:
                                d = int(x["d"])
                                for w in (64, 32, 16, 128):
                                    if d >= (1 << (w - 1)) and r["ty"].startswith("i"):
                                        d2 = d - (1 << w)
                                        if -(1 << 31) <= d2 < 0:
                                            d = d2
                                            break
                                return const(d)
                return mk("cast", r["ty"], v)
            return v
        if k == "bin":
            return self.binop(st, r["b"], self.operand(st, fr, r["o"][0]), self.operand(st, fr, r["o"][1]))
        if k == "un":
            v = self.operand(st, fr, r["o"])
            if r["u"] == "Not":
                if is_const(v) and cval(v) in (0, 1):
                    return const(1 - cval(v))
                if v.op == "not":
                    return v.a[0]
                return mk("not", v)
            if r["u"] == "PtrMetadata":
                return mk("pure", "len", (self.resolve(st, v),))
            return mk("un", r["u"], v)
        if k == "discr":
            v = self.read(st, self.path(st, fr, r["p"]))
            if v.op == "ref":
                v = self.resolve(st, v)
            while v.op == "upd":
                v = v.a[0]
            return mk("discr", v, r["adt"])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["o"]]
            a = r["a"]
            if a == "adt":
                names = tuple(r["f"])
                if len(names) != len(ops):
                    names = tuple(str(i) for i in range(len(ops)))
                return mk("agg", "adt", r["adt"], r["v"], names, *ops)
            if a in ("tuple", "array", "rawptr"):
                if a == "rawptr":
                    return ops[0]
                return mk("agg", a, "", "", tuple(str(i) for i in range(len(ops))), *ops)
            names = tuple(r["f"]) if len(r["f"]) == len(ops) else tuple(str(i) for i in range(len(ops)))
            return mk("clo", r["def"], names, tuple(ops), r["i"] if r["i"] is not None else -1, fr.body.crate, a)
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, r["o"]), r["n"])
        raise Exception(k)

    def binop(self, st, b, x, y):
        over = False
        if b.endswith("WithOverflow"):
            b = b[:-12]
            over = True
        b = b.replace("Unchecked", "")
        v = None
        cx, cy = (cval(x) if is_const(x) else None), (cval(y) if is_const(y) else None)
        if isinstance(cx, int) and isinstance(cy, int):
            f = {
                "Add": lambda: cx + cy, "Sub": lambda: cx - cy, "Mul": lambda: cx * cy,
                "BitAnd": lambda: cx & cy, "BitOr": lambda: cx | cy, "BitXor": lambda: cx ^ cy,
                "Shl": lambda: cx << cy if cy < 128 else None, "Shr": lambda: cx >> cy,
                "Eq": lambda: int(cx == cy), "Ne": lambda: int(cx != cy), "Lt": lambda: int(cx < cy),
                "Le": lambda: int(cx <= cy), "Gt": lambda: int(cx > cy), "Ge": lambda: int(cx >= cy),
            }.get(b)
            if f and f() is not None:
                v = const(f())
        if v is None and b in ("Eq", "Ne"):
            if x is y and x.op not in ("loop",):
                v = const(int(b == "Eq"))
            elif x.op == "agg" and y.op == "agg" and x.a[2] != y.a[2]:
                v = const(int(b == "Ne"))
            else:
                if is_const(x) and not is_const(y):
                    x, y = y, x
                if is_const(y) and cval(y) == 0 and not isinstance(cval(y), bool):
                    v = no_items(x)
                if b == "Ne":
                    v = mk("not", v or mk("bin", "Eq", x, y))
        if b in ("Eq", "Ne") and (v is None or v.op == "not") and x.op == "discr" and is_const(y):
            n = self.prog.variant(x.a[1], str(cval(y)))
            if n is not None:
                kv = self.known_variant(st.facts, x.a[0])
                w = const(int(kv == n)) if kv is not None else mk("isvar", x.a[0], n, x.a[1])
                v = w if b == "Eq" else const(1 - cval(w)) if is_const(w) else mk("not", w)
        if v is None and b in ("Gt", "Ge"):
            b, x, y = {"Gt": "Lt", "Ge": "Le"}[b], y, x
        if v is None and b == "Le":
            v = mk("not", mk("bin", "Lt", y, x))
        if v is None and b in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and is_const(x) and not is_const(y):
            x, y = y, x
        if v is None and b == "Lt" and cy == 1:
            v = no_items(x)
        if v is None and b == "Lt" and is_const(x) and cval(x) == 0:
            e = no_items(y)
            v = e and mk("not", e)
        if v is None:
            v = mk("bin", b, x, y)
        if over:
            return mk("agg", "tuple", "", "", ("0", "1"), v, mk("ovf", v))
        return v

    # -- calls
    def push(self, st, fr, t, body, args, tag):
        uid = mk("frame", fr.uid, fr.bb, tag, st.cnt.get((fr.uid.id, fr.bb, "c"), 0))
        for i, a in enumerate(args):
            self.write(st, (mk("L", uid, i + 1), ()), a)
        dest = self.path(st, fr, t["d"]) if t.get("d") else None
        st.frames.append(Frame(uid, body, 0, dest, t["to"]))

    def call(self, st, fr, t):
        f = t["f"]
        args = [self.operand(st, fr, a) for a in t["a"]]
        if f["k"] != "fn":
            fv = self.resolve(st, self.operand(st, fr, f))
            if fv.op == "fn":
                c = {"p": fv.a[0], "how": "static", "ga": list(fv.a[3])}
                if fv.a[1] != -1:
                    c["i"] = fv.a[1]
            elif fv.op == "clo":
                c = {"p": fv.a[0], "how": "static", "ga": [], "i": fv.a[3]}
            else:
                c = {"p": "@indirect", "how": "indirect", "ga": []}
                args = [fv] + args
        else:
            c = f["c"]
        name = c["p"]
        trait = c.get("t", "")
        # Fn-trait calls on a known closure / fn value
        if (trait.startswith("std::ops::Fn") or c["how"] in ("virtual", "closureonce", "shim")) and "::call" in (trait or name):
            if not c.get("spread"):
                sv = self.resolve(st, args[0])
                if sv.op == "clo" and sv.a[3] != -1:
                    c = {"p": sv.a[0], "how": "static", "i": sv.a[3], "spread": True, "ga": []}
                    name = c["p"]
                    args = [sv if sv.op == "clo" else args[0]] + args[1:]
                elif sv.op == "fn":
                    c = {"p": sv.a[0], "how": "static", "spread": True, "dropself": True, "ga": list(sv.a[3])}
                    if sv.a[1] != -1:
                        c["i"] = sv.a[1]
                    name = c["p"]
        if c.get("spread"):
            tup = args[1] if len(args) > 1 else UNIT
            tup = tup if tup.op == "agg" else self.resolve(st, tup)
            rest = list(tup.a[4:]) if tup.op == "agg" else [tup]
            args = ([] if c.get("dropself") else [args[0]]) + rest
        site_n = st.cnt.get((fr.uid.id, fr.bb, "c"), 0)
        st.cnt[(fr.uid.id, fr.bb, "c")] = site_n + 1 if self.inloop(fr) else site_n
        wanted = self.want(name) or (trait and self.want(trait))
        body = self.prog.bodies.get((fr.body.crate, c["i"])) if "i" in c else None
        opaque = self.opaque is not None and self.opaque.search(name)
        if c["how"] == "ctor":
            return self.assign(st, fr, t, self.ctor(name, args))
        if body is not None and (trait == "std::clone::Clone::clone" or (trait.rsplit("::", 1)[0] in DERIVED_EQ and name in self.prog.derived)):
            body = None  # cloning preserves the value; derived comparison is structural
        if body is not None and not opaque and not (LOGGY.search(name) and not self.keep_log):
            rec = sum(1 for x in st.frames if x.body is body)
            if len(st.frames) < self.depth and rec == 0:
                if wanted:
                    self.event(st, "enter", name, tuple(args), UNIT, t["sp"])
                self.push(st, fr, t, body, args, "c")
                if body.kind == "coroutine" or body.spread_arg:
                    pass
                return [st]
        for rx, i in (self.runs or {}).items():
            if re.search(rx, name) and t["to"] is not None:
                r = self.resolve(st, args[i])
                body = self.prog.bodies.get((r.a[4], r.a[3])) if r.op == "clo" and r.a[3] != -1 else None
                if body is not None and len(st.frames) < self.depth and not any(x.body is body for x in st.frames):
                    v = mk("call", name, tuple(self.resolve(st, a) for a in args), mk("site", fr.uid, fr.bb), site_n)
                    if wanted:
                        self.event(st, "enter", name, tuple(args), v, t["sp"])
                    self.push(st, fr, t, body, [r] + [mk("hof", v, i, j) for j in range(body.argc - 1)], "c")
                    return [st]
        return self.external(st, fr, t, c, name, trait, args, wanted, site_n)

    def inloop(self, fr):
        return any(fr.bb in s for s in fr.body.loops.values())

    def ctor(self, name, args):
        parts = name.split("::")
        adt = "::".join(parts[:-1])
        if adt in self.prog.adts:
            names = tuple(str(i) for i in range(len(args)))
            return mk("agg", "adt", adt, parts[-1], names, *args)
        return mk("agg", "adt", name, parts[-1], tuple(str(i) for i in range(len(args))), *args)

    def assign(self, st, fr, t, v):
        if t["to"] is None:
            self.finish(st, "diverge", mk("none"), t["sp"])
            return []
        p = self.path(st, fr, t["d"])
        self.write(st, p, v)
        if self.stores and p[0].op == "H":
            self.event(st, "store", show(p[0].a[0]) + projs_str(p[1]), (v,), v, t["sp"], extra=p)
        return self.goto(st, t["to"])

    def external(self, st, fr, t, c, name, trait, args, wanted, n):
        key = trait or name
        dty = t["dty"]
        if self.models:
            for rx, fn in self.models.items():
                if re.search(rx, name) or (trait and re.search(rx, trait)):
                    v = fn(self, st, name, args, t)
                    if v is not None:
                        if wanted:
                            self.event(st, "call", name, tuple(args), v, t["sp"], ty=dty)
                        return self.assign(st, fr, t, v)
        if LOGGY.search(name) and not self.keep_log:
            return self.assign(st, fr, t, FALSE if dty == "bool" else mk("log", name))
        # comparisons
        m = re.search(r"std::cmp::PartialEq>?::(eq|ne)$", key)
        if m:
            a, b = self.resolve(st, args[0]), self.resolve(st, args[1])
            v = self.binop(st, "Eq" if m.group(1) == "eq" else "Ne", a, b)
            if v.op == "bin" and v.a[0] == "Eq":
                v = self.eq_norm(st, v)
            elif v.op == "not" and v.a[0].op == "bin":
                w = self.eq_norm(st, v.a[0])
                v = mk("not", w) if w.op != "const" else const(1 - cval(w))
            if wanted:
                self.event(st, "call", name, tuple(args), v, t["sp"], ty=dty)
            return self.assign(st, fr, t, v)
        if ANYHOW_CONTEXT.search(name):
            # wraps the error and keeps the outcome and its cause
            v = self.resolve(st, args[0])
            if wanted:
                self.event(st, "call", name, tuple(args), v, t["sp"], ty=dty)
            return self.assign(st, fr, t, v)
        if name == "comemo::internal::memoized" and len(args) == 4:
            # a memoized function: the body, run on the arguments
            r = self.resolve(st, args[3])
            body = self.prog.bodies.get((r.a[4], r.a[3])) if r.op == "clo" and r.a[3] != -1 else None
            if body is not None and t["to"] is not None and len(st.frames) < self.depth and not any(x.body is body for x in st.frames):
                tup = self.apply(st, args[0], ("f", "0"))
                self.push(st, fr, t, body, [r, tup] + [args[1]] * (body.argc - 2), "c")
                return [st]
        m = IS_VARIANT.search(name)
        if m and len(args) == 1:
            a = args[0]
            v = self.resolve(st, self.read(st, a.a) if a.op == "ref" else a)
            var = {"is_none": "None", "is_some": "Some", "is_ok": "Ok", "is_err": "Err", "is_null": "Null"}[m.group(2)]
            kv = self.known_variant(st.facts, v)
            adt = m.group(1)
            r = const(int(kv == var)) if kv is not None else mk("isvar", v, var, adt)
            if wanted:
                self.event(st, "call", name, tuple(args), r, t["sp"], ty=dty)
            return self.assign(st, fr, t, r)
        m = re.search(r"^std::mem::(replace|take|swap)$", name)
        if m:
            if m.group(1) == "swap":
                a, b = args[0], args[1]
                pa = a.a if a.op == "ref" else (mk("H", a), ())
                pb = b.a if b.op == "ref" else (mk("H", b), ())
                va, vb = self.read(st, pa), self.read(st, pb)
                self.write(st, pa, vb)
                self.write(st, pb, va)
                if self.stores:
                    for p, v in ((pa, vb), (pb, va)):
                        if p[0].op == "H":
                            self.event(st, "store", show(p[0].a[0]) + projs_str(p[1]), (v,), v, t["sp"], extra=p)
                return self.assign(st, fr, t, UNIT)
            a = args[0]
            pa = a.a if a.op == "ref" else (mk("H", a), ())
            old = self.read(st, pa)
            new = args[1] if m.group(1) == "replace" else mk("pure", "default", ())
            self.write(st, pa, new)
            if self.stores and pa[0].op == "H":
                self.event(st, "store", show(pa[0].a[0]) + projs_str(pa[1]), (new,), new, t["sp"], extra=pa)
            return self.assign(st, fr, t, old)
        if TRANSPARENT.search(key) and not (self.impure and self.impure.search(key)) and args:
            a = args[0]
            if a.op == "ref" and STD_GUARD.search(name):
                # what a guard points to is not the guard itself
                v = self.read(st, a.a)
                v = self.resolve(st, v) if v.op == "ref" else v
            elif a.op == "ref" and not (dty.startswith("&") or "MutexGuard" in dty or dty.startswith("std::pin::Pin<&")):
                v = self.read(st, a.a)
                if v.op == "ref" and not dty.startswith("&"):
                    v = self.resolve(st, v)
            else:
                v = a if a.op == "ref" else self.resolve1(st, a)
            if wanted:
                self.event(st, "call", name, tuple(args), v, t["sp"], ty=dty)
            return self.assign(st, fr, t, v)
        if c["how"] == "cloneshim":
            return self.assign(st, fr, t, self.resolve(st, args[0]))
        rargs = tuple(self.resolve(st, a) for a in args)
        if self.iters and ITER_LOOP.search(trait or name):
            r = self.iter_loop(st, fr, t, c, name, trait, args)
            if r is not None:
                return r
        if PURE.search(key) and not (self.impure and self.impure.search(key)):
            # a function of types only differs by these
            ofty = tuple(const({"type": str(g)}) for g in c.get("ga", ())) if not rargs else ()
            v = mk("pure", self.norm(name, trait), rargs + ofty)
            if wanted:
                self.event(st, "call", name, tuple(args), v, t["sp"], ty=dty)
            return self.assign(st, fr, t, v)
        if self.iters and ITER_NEXT.search(trait or name) and len(rargs) == 1 and args[0].op == "ref" and t["to"] is not None:
            r = self.iter_next(st, fr, t, name, trait, args, n)
            if r is not None:
                return r
        site = mk("site", fr.uid, fr.bb)
        v = mk("call", self.norm(name, trait), rargs, site, n)
        m = MAP_LOOKUP.search(name)
        if m and len(rargs) == 2:
            # what was just put in is found, and what was found there is found again
            has = None
            if rargs[0].op == "mut":
                w = rargs[0].a[0]
                if w.op == "call" and MAP_INSERT.search(w.a[0]) and rargs[0].a[1] == 0 and w.a[1][1] is rargs[1]:
                    has = True
            for g, f in st.facts.items() if has is None else ():
                if g.op == "call" and g.a[1] == rargs and MAP_LOOKUP.search(g.a[0]) and f[0] == "eq":
                    has = f[1] in ("Some", "1")
            if has is not None:
                if m.group(1) == "contains_key":
                    v = const(int(has))
                else:
                    st.facts[v] = ("eq", "Some" if has else "None")
        if wanted:
            self.event(st, "call", name, tuple(args), v, t["sp"], ty=dty, extra=c)
        out = []
        # higher-order callee: the closure may run (once, with unknown arguments)
        if not self.hof:
            # the closures may run, and change what they capture
            for i, a in enumerate(args):
                r = self.resolve(st, a)
                body = self.prog.bodies.get((r.a[4], r.a[3])) if r.op == "clo" and r.a[3] != -1 else None
                if body is not None:
                    for j in captured_mut(body):
                        if j < len(r.a[2]) and r.a[2][j].op == "ref":
                            x = r.a[2][j].a
                            self.write(st, x, mk("mut", v, i, self.read(st, x)))
        elif not STORES_CLOSURE.search(name):
            for i, a in enumerate(args):
                r = self.resolve(st, a)
                if r.op == "clo" and r.a[3] != -1:
                    body = self.prog.bodies.get((r.a[4], r.a[3]))
                    if body is None or len(st.frames) >= self.depth or any(x.body is body for x in st.frames):
                        continue
                    s = st.copy()
                    cargs = [r]
                    if r.a[5] == "closure":
                        cargs += [mk("hof", v, i, j) for j in range(body.argc - 1)]
                    else:
                        cargs += [mk("hof", v, i, j) for j in range(body.argc - 1)]
                    if wanted:
                        pass
                    # run the closure, then resume as if the call returned
                    uid = mk("frame", fr.uid, fr.bb, "hof", i)
                    for j, x in enumerate(cargs):
                        self.write(s, (mk("L", uid, j + 1), ()), x)
                    # the closure's result goes to a scratch place; then continue
                    scratch = (mk("L", mk("frame", fr.uid, fr.bb, "hofret", i), 0), ())
                    if t["to"] is None:
                        continue
                    self.mutate(s, args, t, v)
                    p = self.path(s, fr, t["d"])
                    self.write(s, p, v)
                    s.frames.append(Frame(uid, body, 0, scratch, t["to"]))
                    out.append(s)
        if t["to"] is None:
            if wanted or self.want("@diverge"):
                pass
            self.finish(st, "diverge", v, t["sp"])
            return out
        self.mutate(st, args, t, v)
        if BUILDER.search(name) and args and args[0].op == "ref":
            v = args[0]  # a setter hands back the value it was called on
        return out + self.assign(st, fr, t, v)

    def iter_next(self, st, fr, t, name, trait, args, n):
        """the next item of an iterator that maps or filters another by a known closure"""
        it = adapted(self.resolve(st, args[0]))
        if it is None:
            return None
        how, src, clo = it
        cb = self.prog.bodies.get((clo.a[4], clo.a[3]))
        if cb is None or cb.argc != 2 or captured_mut(cb) or len(st.frames) + 1 >= self.depth or any(x.body is cb for x in st.frames):
            return None
        again = fr.body.again if isinstance(fr.body, NextBody) and fr.bb == 0 and not fr.body.loops else self.plain_header(fr) is not None
        body = synth_next(self.prog, how, cb, again, t["sp"])
        v = mk("call", self.norm(name, trait), (self.resolve(st, args[0]),), mk("site", fr.uid, fr.bb), n)
        self.mutate(st, args, t, v)
        self.push(st, fr, t, body, [src, clo], "next")
        return [st]

    def plain_header(self, fr):
        """the header of the innermost loop around a block, if nothing happens between the header and the end of the block"""
        hs = sorted((len(bs), h) for h, bs in fr.body.loops.items() if fr.bb in bs)
        if not hs:
            return None
        b = hs[0][1]
        for _ in range(8):
            blk = fr.body.blocks[b]
            if any(s[0] == "=" and (len(s[1]) != 1 or s[2]["r"] not in ("ref", "use")) for s in blk["s"]):
                return None
            if b == fr.bb:
                return hs[0][1]
            if blk["t"]["t"] != "goto":
                return None
            b = blk["t"]["to"]
        return None

    def iter_loop(self, st, fr, t, c, name, trait, args):
        """a combinator that calls a known closure on every item, run as the loop it stands for"""
        how = ITER_LOOP.search(trait or name).group(1)
        clo = self.resolve(st, args[1]) if len(args) == 2 else None
        if clo is None or clo.op != "clo" or clo.a[3] == -1 or t["to"] is None:
            return None
        cb = self.prog.bodies.get((clo.a[4], clo.a[3]))
        if cb is None or cb.argc != 2 or len(st.frames) + 1 >= self.depth or any(x.body is cb for x in st.frames):
            return None
        by_ref = how not in ("for_each", "find_map", "try_for_each") or args[0].op == "ref"
        nx = re.sub(r"::\w+$", "::next", name)
        if nx.startswith("std::iter::Iterator::") and c.get("self"):
            nx = f"<{c['self']} as std::iter::Iterator>::next"
        dty = re.match(r"[\w:]*", t.get("dty", "")).group(0) if how == "try_for_each" else ""
        if how == "try_for_each" and dty not in ("std::option::Option", "std::result::Result"):
            return None
        body = synth_loop(self.prog, how, by_ref, nx, cb, t["at"][0] if t["at"] else "", t["sp"], dty)
        self.push(st, fr, t, body, [args[0], clo], "it")
        uid = st.frames[-1].uid
        written = captured_mut(cb)
        for i, x in enumerate(clo.a[2]):
            if i in written:
                self.write(st, (mk("L", uid, 20 + i), ()), x)
        return [st]

    def resolve1(self, st, v):
        if v.op in ("arg", "call", "proj", "pure", "mut", "hof"):
            m = st.mem.get(mk("H", v))
            if m and () in m:
                return v
        return v

    def norm(self, name, trait):
        return name

    def eq_norm(self, st, v):
        a, b = v.a[1], v.a[2]
        a, b = self.resolve(st, a), self.resolve(st, b)
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            return const(int(cval(a) == cval(b)))
        for x, y in ((a, b), (b, a)):
            if y.op == "agg" and y.a[0] == "adt" and len(y.a) == 4:
                kv = self.known_variant(st.facts, x)
                if kv is not None:
                    return const(int(kv == y.a[2]))
                return mk("isvar", x, y.a[2], y.a[1])
        for x, y in ((a, b), (b, a)):
            if y.op == "agg" and y.a[0] == "adt" and len(y.a) == 5 and y.a[2] in ("Some", "Ok", "Err"):
                kv = y.a[2] if x.op != "agg" and self.known_variant(st.facts, x) == y.a[2] else x.a[2] if x.op == "agg" else None
                if kv is not None and kv != y.a[2]:
                    return const(0)
                if kv == y.a[2]:
                    px = x.a[4] if x.op == "agg" else mk("proj", mk("proj", x, ("d", kv)), ("f", "0"))
                    return self.eq_norm(st, mk("bin", "Eq", px, y.a[4]))
        if is_const(a) or (not is_const(b) and a.id > b.id):
            a, b = b, a
        return mk("bin", "Eq", a, b)

    def mutate(self, st, args, t, callv):
        for i, (a, ty) in enumerate(zip(args, t["at"] if len(t["at"]) == len(args) else [""] * len(args))):
            if ty.startswith("&mut") or ty.startswith("std::pin::Pin<&mut") or ty.startswith("*mut"):
                if a.op == "ref":
                    old = self.read(st, a.a)
                    self.write(st, a.a, mk("mut", callv, i, old))
                elif a.op in ("arg", "call", "proj", "mut", "hof", "pure", "loop"):
                    h = mk("H", a)
                    old = self.read(st, (h, ()))
                    st.mem[h] = {(): mk("mut", callv, i, old)}


def analyze(prog, body, **kw):
    setup = kw.pop("setup", None)
    args = kw.pop("args", None)
    it = Interp(prog, **kw)
    return it.run(body, args=args, setup=setup), it
