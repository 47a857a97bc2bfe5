"""sync-ls: request/response discipline and lifecycles (path rules over the dispatch loops)."""
from collections import defaultdict
from core import check, program
from q import *


def call_name(v):
    return str(v.a[0]) if v.op in ("call", "pure") else ""

# The public client operations are the vocabulary of the dispatch rules; each has
# rules of its own below.
OPS = r"LspClient::(schedule|respond_result|respond|respond_lsp|register_request|complete_lsp_request|complete_dap_request)$"
DYN = r"Box as std::ops::Fn"
STATES = ["Uninitialized", "Initializing", "Ready", "ShuttingDown"]
_cache = {}


def start_loop(c, proto):
    """paths of one iteration of the main loop (arbitrary server state on entry)"""
    P = program()
    b = fn_by(P, r"LsDriver::start_$", "sync_ls", sig=r"LsDriver<%s::Message" % proto)
    c.anchor(f"{proto} LsDriver::start_", b)
    if not b:
        return None, []
    k = proto
    if k not in _cache:
        it = Interp(P, events=OPS + "|" + DYN + r"|Initializer.*::initialize$|@indirect", opaque=OPS, cut=r"^server::(\w+::)*\w+$", stores=True)
        ps = it.run(b[0])
        _cache[k] = (it, ps)
    it, ps = _cache[k]
    c.fns |= it.visited_fns
    c.paths += len(ps)
    c.states += it.nstates
    return it, ps


class Step:
    """what one path of the loop does with one incoming message"""

    def __init__(self, it, p):
        self.p = p
        self.it = it
        self.kind = None
        self.msg = None
        for v, f in p.facts.items():
            if f[0] == "eq" and f[1] in ("Request", "Notification", "Response", "Event") and v.op != "agg" and has_call(v, r"recv"):
                self.kind, self.msg = f[1], v
        self.body = F(self.msg, "+" + self.kind, "0") if self.kind else None
        # server state on entry
        self.sv, self.state = None, set(STATES)
        for v, f in p.facts.items():
            if v.op == "proj" and (f[1] in STATES if f[0] == "eq" else all(x in STATES for x in f[1])) and f[1]:
                self.sv = v
                self.state = {f[1]} if f[0] == "eq" else set(STATES) - set(f[1])
        self.tests = {}
        for (v, s), b in str_tests(p).items():
            if self.body is not None and base(v) is base(self.body) and v.op == "proj" and v.a[1][1] in ("method", "command", "event"):
                self.tests[s] = b

    def id(self):
        for n in ("id",):
            pass
        return None

    def method_is(self, m):
        return self.tests.get(m)

    def method_may(self, m):
        """the message's method can be m on this path"""
        if self.tests.get(m) is not None:
            return self.tests[m]
        return not any(b for s, b in self.tests.items() if s != m)

    def handler_calls(self):
        return [e for e in self.p.events if re.search(DYN, e.name) or e.name == "@indirect"]

    def final_state(self):
        """variant the state has at the end of the path ('=' when untouched), and its value"""
        if self.sv is None:
            # untouched unless some store wrote a State value
            for e in self.p.events:
                if e.kind == "store" and agg_variant(e.res) in STATES:
                    return agg_variant(e.res), e.res
            return "=", None
        fld = self.sv.a[1]
        v = self.it.read(self.p.st, (mk("H", mk("arg", "self")), (fld,)))
        if v is self.sv:
            return "=", v
        if v.op == "agg":
            return v.a[2], v
        if v.op == "upd" and v.a[0] is self.sv:
            # only the payload of the current variant was lent out / mutated
            return ("~" if any(k and k[0] == ("d", "Uninitialized") for k, _ in v.a[1]) else "="), v
        if v.op == "proj" and base(v) is base(self.sv) and v.a[1] == fld:
            return "=", v
        return "?", v


def result_kind(p, r):
    """what the path knows about a ScheduledResult value: 'answered' (Ok(Some)), 'open' (Err / Ok(None)) or None"""
    k = p.variant(r)
    if k == "Err":
        return "open"
    if k == "Ok":
        if r.op == "agg":
            w = r.a[4]
        else:
            w = F(r, "+Ok", "0")
        k2 = p.variant(w)
        if k2 == "Some":
            return "answered"
        if k2 == "None":
            return "open"
        f = p.facts.get(w)
        if f and f[0] == "ne":
            return "answered" if "None" in f[1] else "open"
        return None
    f = p.facts.get(r)
    if f and f[0] == "ne" and "Ok" in f[1]:
        return "open"
    return None


def req_id(step, reg):
    return reg.args[2]


def answers(step):
    """(number of answers on the path, problems)"""
    p = step.p
    regs = evs(p, r"LspClient::register_request$")
    probs = []
    if len(regs) != 1:
        return 0, [f"the request is registered {len(regs)} times"], None
    rid = regs[0].args[2]
    n = 0
    for e in p.events:
        if e.kind != "call":
            continue
        last = e.name.split("::")[-1]
        if e.n < regs[0].n and (re.search(OPS, e.name) or re.search(DYN, e.name)):
            probs.append(f"{last} runs before the request is registered")
        if last in ("respond_result", "respond") and "LspClient" in e.name:
            if e.args[1] is not rid:
                probs.append(f"{last} answers id {show(e.args[1])}, not the request's id {show(rid)}")
            n += 1
        elif last == "respond_lsp":
            n += 1
        elif last == "schedule" or re.search(DYN, e.name):
            if last == "schedule":
                got = e.args[1]
            else:
                got = agg_field(e.args[1], "2") if len(e.args) > 1 and e.args[1].op == "agg" and len(e.args[1].a) == 8 else None
                if got is None:
                    continue
            if got is not rid:
                probs.append(f"{last} is given id {show(got)}, not the request's id {show(rid)}")
            k = result_kind(p, e.res)
            if k == "answered":
                n += 1
            elif k is None:
                probs.append(f"the outcome of {last} is not inspected, an unanswered request would be lost")
    return n, probs, rid


def describe(step):
    m = [s for s, b in step.tests.items() if b] or ["not " + s for s in step.tests] or ["any"]
    return f"{step.kind} method={','.join(m)} state={'|'.join(sorted(step.state))}"


@check("L01")
def l01(c):
    P = program()
    incoming_table(c)
    c.rule("dispatch", "on every path of the dispatch loop that received a request: registered once, first; then exactly one answer for its id (respond_result, or schedule/handler whose outcome the path knows to be Ok(Some(())))")
    c.rule("answer-kept", "when an answer is sent because schedule/handler did not answer, it carries that outcome's error")
    for proto in ("lsp", "dap"):
        it, ps = start_loop(c, proto)
        n = 0
        for p in ps:
            s = Step(it, p)
            if s.kind != "Request" or p.end in ("panic", "diverge"):
                continue
            n += 1
            k, probs, rid = answers(s)
            site = f"{proto} {describe(s)}"
            c.ob("dispatch", site, k == 1 and not probs, "; ".join(probs) or f"{k} answers on this path: {[e.name.split('::')[-1] for e in p.events if e.kind == 'call']}", f"dispatch|{proto}|{describe(s)}", p.span)
            for e in evs(p, r"LspClient::respond_result$"):
                prev = [x for x in p.events if x.kind == "call" and x.n < e.n and (x.name.endswith("LspClient::schedule") or re.search(DYN, x.name))]
                if prev:
                    src = prev[-1].res
                    ok = mentions(e.args[2], lambda x: x is src)
                    c.ob("answer-kept", site, ok, f"the answer {show(e.args[2])} drops the outcome of {prev[-1].name}", f"answer-kept|{proto}|{describe(s)}", e.span)
        c.floor(f"{proto} request paths", n, 8)
    # schedule: Done / Future
    b = fn_by(P, r"LspClient::schedule$", "sync_ls")
    if c.anchor("LspClient::schedule", b):
        c.rule("schedule", "schedule returns Ok(Some(())) only after answering, or after spawning a task that answers when the future resolves, or when the response was already taken; otherwise it returns the error")
        ps = c.paths_of(b[0], events=r"LspClient::(respond_result|respond)$|spawn|poll$|Gone", opaque=r"LspClient::(respond_result|respond)$")
        kinds = defaultdict(int)
        rid = mk("arg", "req_id")
        for p in ps:
            if p.end != "return":
                continue
            ret = result_kind(p, p.ret)
            resp = evs(p, r"respond_result$|LspClient::respond$")
            inner = [e for e in resp if any("closure" in f for f in e.stack)]
            outer = [e for e in resp if e not in inner]
            spawn = evs(p, r"::spawn")
            for e in resp:
                ok = e.args[1] is rid
                c.ob("schedule", "answers the given id", ok, f"answers {show(e.args[1])}", "schedule|id", e.span)
            md = {f[1] for v, f in p.facts.items() if f[0] == "eq" and f[1] in ("Done", "Future", "Gone")}
            ne = [f[1] for v, f in p.facts.items() if f[0] == "ne" and {"Done", "Future"} <= set(f[1])]
            if p.variant(mk("arg", "resp")) == "Err":
                ok = p.ret.op == "agg" and p.variant(p.ret) == "Err" and not resp or (len(outer) == 1 and ret == "answered")
                if not resp:
                    ok = ok and mentions(p.ret, lambda x: x is mk("arg", "resp"))
                kinds["Err"] += 1
                c.ob("schedule", "error", ok, f"an early error yields {show(p.ret)} with {len(resp)} answers", "schedule|error", p.span)
            elif "Done" in md:
                kinds["Done"] += 1
                ok = (len(outer) == 1 and ret == "answered") or (not resp and ret == "open")
                c.ob("schedule", "finished response", ok, f"a finished response is answered {len(resp)} times and schedule returns {show(p.ret)}", "schedule|done", p.span)
                for e in outer:
                    c.ob("schedule", "finished response value", mentions(e.args[2], lambda x: x is mk("arg", "resp")), f"answers {show(e.args[2])}", "schedule|done-value", e.span)
            elif "Future" in md:
                if spawn and not inner and not any(e.name.endswith("poll") for e in p.events):
                    c.ob("schedule", "pending response", ret == "answered" and not outer, "a pending response is both answered and spawned", "schedule|future", p.span)
                    continue  # the spawned task has not run yet on this path
                kinds["Future"] += 1
                if not inner and any(e.name.endswith("poll") for e in p.events):
                    c.ob("schedule", "pending response", False, "the spawned task resolves the future without answering", "schedule|future-noanswer", p.span)
                    continue
                ok = len(resp) == 1 and (len(inner) == 1 and spawn or outer) and ret == "answered"
                c.ob("schedule", "pending response", ok, f"a pending response leads to {len(resp)} answers, spawn={len(spawn)}, returns {show(p.ret)}", "schedule|future", p.span)
                for e in inner:
                    c.ob("schedule", "pending response value", has_call(e.args[2], r"poll"), f"the task answers {show(e.args[2])}, not what the future resolved to", "schedule|future-value", e.span)
            else:
                kinds["Gone"] += 1
        for k in ("Err", "Done", "Future"):
            c.floor(f"schedule paths for {k}", kinds[k], 1)
    # respond_result -> respond for the same id on every path
    for nm in ("respond_result", "respond_lsp"):
        b = fn_by(P, r"LspClient::%s$" % nm, "sync_ls")
        if not c.anchor(f"LspClient::{nm}", b):
            continue
        c.rule("forward", "every path of the typed answer operations reaches the pending-table removal exactly once, keyed by the request's id")
        ps = c.paths_of(b[0], events=r"HashMap::remove$|Sender::(send|try_send)")
        n = 0
        for p in ps:
            if p.end != "return":
                continue
            n += 1
            rem = [e for e in evs(p, r"HashMap::remove$") if "incoming" in show(e.args[0]) or "pending" in show(e.args[0])]
            want = mk("arg", "id") if nm == "respond_result" else F(mk("arg", "response"), "id")
            ok = len(rem) == 1 and rem[0].args[1] is want
            c.ob("forward", nm, ok, f"{len(rem)} removals, keys {[show(e.args[1]) for e in rem]}", f"forward|{nm}", p.span)
        c.floor(f"{nm} paths", n, 2)
    respond_sends(c, "sends")
    handlers_forward(c)


def respond_sends(c, rule):
    """LspClient::respond: pending & connected => exactly one send; not pending => none"""
    P = program()
    c.rule(rule, "respond: a path on which the id was pending and the connection is alive sends the given message exactly once, the others send nothing")
    b = fn_by(P, r"LspClient::respond$", "sync_ls")
    if not c.anchor("LspClient::respond", b):
        return
    ps = c.paths_of(b[0], events=r"HashMap::remove|Weak::upgrade|Sender::(send|try_send|send_timeout)$|mem::drop$", drops="MutexGuard")
    kinds = defaultdict(int)
    for p in ps:
        if p.end != "return":
            continue
        rem = evs(p, r"HashMap::remove")
        up = evs(p, r"Weak::upgrade$")
        sends = evs(p, r"Sender::")
        if len(rem) != 1:
            c.ob(rule, "one removal", False, f"{len(rem)} removals from the pending table", f"{rule}|removals", p.span)
            continue
        pend = p.variant(rem[0].res)
        alive = p.variant(up[0].res) if up else None
        if pend == "Some":
            if alive == "Some":
                kinds["pending"] += 1
                ok = len(sends) == 1 and sends[0].n > rem[0].n and sends[0].name.endswith("::send") and mentions(sends[0].args[1], lambda x: x is mk("arg", "response"))
                c.ob(rule, "pending request", ok, f"{len(sends)} sends for a pending request", f"{rule}|pending", p.span)
            else:
                c.ob(rule, "pending request, no connection", not sends and alive == "None", f"{len(sends)} sends, connection tested: {alive}", f"{rule}|closed", p.span)
        elif pend == "None":
            kinds["gone"] += 1
            c.ob(rule, "answered or unknown request", not sends, f"{len(sends)} sends for a request that is not pending", f"{rule}|gone", p.span)
        else:
            c.ob(rule, "removal tested", False, "the outcome of the removal is not inspected before sending", f"{rule}|untested", p.span)
    c.floor("respond paths, pending", kinds["pending"], 1)
    c.floor("respond paths, not pending", kinds["gone"], 1)


def builder_closures(c, rx=r"LsBuilder::with_\w+$"):
    """(builder fn, closure value, key value) for every handler registration"""
    P = program()
    out = []
    for b in fn_by(P, rx, "sync_ls"):
        ps = c.paths_of(b, events=r"HashMap::insert$|FxHashMap::insert$")
        for p in ps:
            if p.end == "return":
                out.append((b, p, evs(p, r"HashMap::insert$")))
    return out


def run_closure(c, clo, nargs, **kw):
    P = program()
    body = P.bodies.get((clo.a[4], clo.a[3]))
    if body is None:
        return None, []
    it = Interp(P, **kw)
    ps = it.run(body, args={1: clo})
    c.fns |= it.visited_fns
    c.paths += len(ps)
    c.states += it.nstates
    return body, ps


def closure_sites(c):
    """every boxed request/command/resource handler closure of the builders: (site, proto, clo, body)"""
    P = program()
    for b, p, ins in builder_closures(c):
        fi = next(f for f in P.fns if f["crate"] == b.crate and P.bodies.get((f["crate"], f["id"])) is b)
        proto = "dap" if "dap::Message" in fi["self"] else "lsp" if "lsp::Message" in fi["self"] else "any"
        for e in ins:
            yield f"{proto}:{b.name.split('::')[-1]}", proto, b, p, e


def handlers_forward(c):
    c.rule("handler", "every boxed request/command/resource handler a builder registers either forwards the request id to the raw handler or returns what schedule(id, handler's response) returns, or an error")
    n = 0
    for site, proto, b, p, e in closure_sites(c):
        tbl = show(e.args[0])
        if not re.search(r"command_handlers|req_handlers|resource_handlers", tbl):
            continue
        clo = e.args[2]
        if clo.op != "clo":
            continue
        body, ps = run_closure(c, clo, 4, events=r"LspClient::schedule$|@indirect|respond", opaque=r"LspClient::(schedule|respond_result|respond)$")
        if body is None:
            c.ob("handler", site, False, "no body for the handler closure", f"handler|{site}|body")
            continue
        n += 1
        # the closure's parameters: service, client, id, params
        ids = [mk("arg", body.locals[i][1] or f"#{i}") for i in range(1, body.argc + 1)]
        for q in ps:
            if q.end != "return":
                continue
            calls = evs(q, r"@indirect")
            sch = evs(q, r"LspClient::schedule$")
            if sch:
                ok = len(sch) == 1 and q.ret is sch[0].res and len(calls) == 1
                idok = len(ids) > 3 and sch[0].args[1] is ids[3]  # (env, service, client, id, params)
                c.ob("handler", site, ok and idok, f"{len(sch)} schedules, {len(calls)} handler calls, returns {show(q.ret)}", f"handler|{site}", q.span)
                rok = calls and mentions(sch[0].args[2], lambda x: x is calls[0].res)
                c.ob("handler", site + " response", rok, f"schedules {show(sch[0].args[2])}, not the handler's response", f"handler|{site}|resp", q.span)
            elif calls:
                ok = len(calls) == 1 and q.ret is calls[0].res
                c.ob("handler", site, ok, f"the raw handler's outcome is replaced by {show(q.ret)}", f"handler|{site}|raw", q.span)
            else:
                c.ob("handler", site, q.variant(q.ret) == "Err", f"returns {show(q.ret)} without running the handler", f"handler|{site}|none", q.span)
    c.floor("handler registrations", n, 12)


# --------------------------------------------------------------------- L02
def pub_client_fns(c):
    P = program()
    out = []
    for f in P.fns:
        if f["crate"] == "sync_ls" and not f["derived"] and f["vis"] == "Public" and re.search(r"LspClient\b|req_queue::", f["self"] or f["name"]):
            b = P.bodies.get((f["crate"], f["id"]))
            if b is not None and b.kind == "fn":
                out.append((f, b))
    return out


def root_ty(body, v):
    """static type of the root argument a value is read from"""
    r = base(v)
    if r.op != "arg":
        return ""
    for i in range(1, body.argc + 1):
        if (body.locals[i][1] or f"#{i}") == r.a[0]:
            return body.locals[i][0]
    return ""


NOTRESP = ("Request", "Notification", "Event")


def msg_class(body, v):
    a = agg_variant(v)
    if v.op == "agg":
        if a == "Response":
            return "response"
        if a in NOTRESP:
            return "other"
        if a in ("Lsp", "Dap") and len(v.a) > 4:
            return msg_class(body, v.a[4])
        return "unknown"
    if v.op in ("call", "pure"):
        if re.search(r"dapts::Response::(success|error)$", v.a[0]):
            return "response"
        if re.search(r"(dapts::Event|Notification|Request)::new$", v.a[0]):
            return "other"
        return "unknown"
    if v.op == "arg":
        t = root_ty(body, v)
        if re.search(r"(Notification|Request|Event)$", t):
            return "other"
    return "unknown"


@check("L02")
def l02(c):
    c.rule("guarded-send", "every send of a response (or of a message whose kind is unknown) to the client happens after this call removed the request's id from the pending table and found it there")
    c.rule("id-match", "the id of the response that is built is the id that was removed")
    c.rule("single-removal", "a response is sent at most once per removal")
    c.rule("insert", "only registering an incoming request puts an id into the pending table")
    c.rule("cancel", "cancelling removes the id and answers only when it was pending, with code -32800 and the request's id")
    P = program()
    nsend = 0
    roots = pub_client_fns(c)
    for f, b in roots:
        ps = c.paths_of(b, events=r"HashMap::(insert|remove|entry|clear|drain|retain|remove_entry)|Sender::(send|try_send|send_timeout|send_deadline)$|Sender.*Clone")
        nm = b.name.split("::", 1)[-1]
        for p in ps:
            rem = [e for e in evs(p, r"HashMap::remove") if "incoming" in show(e.args[0]) or (f["name"].startswith("req_queue::Incoming"))]
            used = []
            for e in p.events:
                if e.kind != "call":
                    continue
                if e.name.endswith("HashMap::insert") and ("incoming" in show(e.args[0]) or f["name"].startswith("req_queue::Incoming")):
                    ok = nm.endswith("register_request") or nm.endswith("Incoming::register")
                    c.ob("insert", nm, ok, f"{nm} registers an incoming request id", f"insert|{nm}", e.span)
                    if nm.endswith("register_request"):
                        c.ob("insert", nm + " key", e.args[1] is mk("arg", "id"), f"registers {show(e.args[1])}", f"insert|{nm}|key", e.span)
                if "Sender::" in e.name:
                    if not re.search(r"\.lsp$|\)\.lsp", show(e.args[0])):
                        continue
                    k = msg_class(b, e.args[1])
                    nsend += 1
                    if k == "other":
                        c.ob("guarded-send", nm + " (not a response)", True)
                        continue
                    g = [r for r in rem if r.n < e.n and p.interp.known_variant(e.facts, r.res) == "Some"]
                    g = [r for r in g if r.name.endswith("HashMap::remove")]
                    c.ob("guarded-send", nm, bool(g), f"{nm} sends {show(e.args[1])[:120]} without having removed a pending request", f"guarded-send|{nm}", e.span)
                    if g:
                        r = g[-1]
                        c.ob("single-removal", nm, r.n not in used, f"{nm} sends twice for one removal", f"single-removal|{nm}", e.span)
                        used.append(r.n)
                        m = e.args[1]
                        if agg_variant(m) in ("Lsp", "Dap"):
                            m = m.a[4]
                        i = agg_field(m, "id") if m.op == "agg" else (m.a[1][0] if m.op in ("call", "pure") and m.a[1] else None)
                        if i is not None:
                            key = r.args[1]
                            # the request id, or the number inside it for DAP (request_seq)
                            ok = i is key or (i.op == "cast" and base(i) is key) or base(i) is key
                            c.ob("id-match", nm, ok, f"response carries id {show(i)} but {show(key)} was removed", f"id-match|{nm}", e.span)
    c.floor("public client operations", len(roots), 14)
    c.floor("sends to the client", nsend, 6)
    b = fn_by(P, r"req_queue::Incoming::cancel$", "sync_ls")
    if c.anchor("Incoming::cancel", b):
        for p in c.paths_of(b[0], events=r"HashMap::remove"):
            if p.end != "return":
                continue
            rem = evs(p, r"HashMap::remove")
            k = p.variant(rem[0].res) if len(rem) == 1 else None
            r = p.variant(p.ret)
            c.ob("cancel", "removes once", len(rem) == 1 and rem[0].args[1] is mk("arg", "id"), f"{len(rem)} removals", "cancel|removal", p.span)
            if k == "Some":
                resp = p.ret.a[4] if r == "Some" and p.ret.op == "agg" else None
                err = agg_field(resp, "error") if resp is not None and resp.op == "agg" else None
                code = [const_of(agg_field(x, "code")) for x in agg_named(err, "ResponseError")] if err is not None else []
                ok = resp is not None and agg_field(resp, "id") is mk("arg", "id") and code == [-32800] and agg_variant(agg_field(resp, "result")) == "None"
                c.ob("cancel", "pending", ok, f"cancelling a pending request returns {show(p.ret)}", "cancel|pending", p.span)
            else:
                c.ob("cancel", "not pending", k == "None" and r == "None", f"cancelling a request that is not pending returns {show(p.ret)}", "cancel|gone", p.span)
    b = fn_by(P, r"req_queue::Incoming::(complete)$", "sync_ls")
    if c.anchor("Incoming::complete", b):
        c.rule("complete", "completing removes the entry and returns what was removed")
        for p in c.paths_of(b[0], events=r"HashMap::"):
            rem = evs(p, r"HashMap::remove$")
            c.ob("complete", "Incoming::complete", len(rem) == 1 and p.ret is rem[0].res and rem[0].args[1] is mk("arg", "id"), f"returns {show(p.ret)}", "complete", p.span)


# --------------------------------------------------------------------- L03 / L04
def codes(v):
    return [const_of(agg_field(x, "code")) for x in agg_named(v, "ResponseError")]


def answer_value(step):
    """the response value the path hands to schedule / respond_result first"""
    for e in step.p.events:
        if e.kind == "call" and re.search(r"LspClient::(schedule|respond_result)$", e.name):
            return e.args[2], e
    return None, None


def lifecycle(c, proto):
    A, FIELD, PARAMS = ("method", "method", "params") if proto == "lsp" else ("command", "event", "arguments")
    END = "shutdown" if proto == "lsp" else "disconnect"
    c.rule("reject", "a request the current state does not allow runs no handler, leaves the state alone and is answered with the state's error code (-32002 before initialization, -32600 for a second initialize and after shutdown)")
    c.rule("init", "initialize in the uninitialized state: the arguments are consumed exactly when the parameters parse, the state advances with the new service, and the initializer's response is what is answered; parameters that do not parse give -32600 and change nothing")
    c.rule("serve", "a request in the ready state runs exactly the handler registered for its method, once, with the ready service, its id and its parameters, or is answered -32601 when there is none")
    c.rule("end", f"the state becomes shutting-down exactly on a {END} request that had a handler")
    c.rule("notify", "a notification runs exactly its registered handler, once, only in the ready state (or for `initialized` while initializing, which makes the server ready)")
    c.rule("response", "a response from the client completes an outgoing request exactly when the server is ready")
    c.rule("event", "an internal event runs its handler exactly once with the service view of the current state, and not after shutdown")
    c.rule("exit", "the loop ends on an exit notification, and no other client message ends it")
    it, ps = start_loop(c, proto)
    cnt = defaultdict(int)
    for p in ps:
        s = Step(it, p)
        if p.end in ("panic", "diverge"):
            continue
        d = f"{proto} {describe(s)}" if s.kind else f"{proto} event state={'|'.join(sorted(s.state))}"
        key = d
        hs = s.handler_calls()
        fin, fv = s.final_state()
        if s.kind == "Request":
            rid = evs(p, r"register_request$")
            rid = rid[0].args[2] if rid else None
            ended = [m for m in ("initialize", "workspace/executeCommand" if proto == "lsp" else None, END) if m]
            c.ob("exit", d, p.end == "loop", f"a request ends the loop ({p.end})", f"exit|{key}", p.span)
            for st in s.state:
                for m in ended + ["*"]:
                    may = s.method_may(m) if m != "*" else not any(b for x, b in s.tests.items() if x in ended)
                    if not may:
                        continue
                    val, ae = answer_value(s)
                    if st == "Uninitialized" and m == "initialize":
                        # parsing outcome
                        cnt["init"] += 1
                        ini = evs(p, r"Initializer.*initialize$|::initialize$")
                        if ini:
                            okp = has_call(ini[0].args[1], r"from_value") and mentions(ini[0].args[1], lambda x: x is F(s.body, PARAMS))
                            svc, res = F(ini[0].res, "0"), F(ini[0].res, "1")
                            want = "Initializing" if proto == "lsp" else "Ready"
                            okst = fin == want and fv is not None and mentions(fv, lambda x: x is svc)
                            oka = val is not None and mentions(val, lambda x: x is res)
                            c.ob("init", d, len(ini) == 1 and okp and okst and oka and not hs, f"initialize called {len(ini)} times, parameters ok={okp}, state becomes {fin}, answer {show(val)[:80] if val else None}", f"init|{key}", p.span)
                        else:
                            ok = val is not None and -32600 in codes(val) and fin == "=" and not hs
                            c.ob("init", d + " unparsable", ok, f"without calling the initializer: state {fin}, answer {show(val)[:100] if val else None}", f"init-bad|{key}", p.span)
                    elif st in ("Uninitialized", "Initializing") or (m == "initialize") or st == "ShuttingDown":
                        cnt["reject"] += 1
                        if m == "initialize" and st != "Uninitialized":
                            want = (-32600, -32002) if st == "Initializing" else (-32600,)
                        else:
                            want = (-32600,) if st == "ShuttingDown" else (-32002,)
                        got = codes(val) if val is not None else []
                        ok = len(got) == 1 and got[0] in want and not hs and fin == "=" and not evs(p, r"::initialize$")
                        c.ob("reject", d, ok, f"in state {st}: answered {got}, {len(hs)} handlers, state {fin}", f"reject|{key}", p.span)
                    else:
                        cmd = m == "workspace/executeCommand"
                        cnt["command" if cmd else "serve"] += 1
                        if len(hs) > 1:
                            c.ob("serve", d, False, f"{len(hs)} handlers run", f"serve|{key}|count", p.span)
                            continue
                        if hs:
                            h = hs[0]
                            src = h.args[0]
                            tup = h.args[1] if len(h.args) > 1 else None
                            table = "commands|resources" if cmd else "requests"
                            got = [x for x in calls_in(src, r"HashMap::get") if re.search(r"\.(%s)$" % table, show(x.a[1][0]))]
                            okh = bool(got)
                            if okh and not cmd:
                                okh = got[0].a[1][1] is F(s.body, A)
                            if okh and cmd:
                                okh = has_call(got[0].a[1][1], r"from_value")
                            svc = agg_field(tup, "0") if tup is not None else None
                            oks = svc is not None and s.sv is not None and svc is F(s.sv, "+Ready", "0")
                            okid = tup is not None and agg_field(tup, "2") is rid
                            par = agg_field(tup, "3") if tup is not None else None
                            okp = par is not None and (par is F(s.body, PARAMS) if not cmd else has_call(par, r"from_value"))
                            c.ob("serve", d, okh and oks and okid and okp, f"handler from {show(src)[:80]} (ok={okh}) service ok={oks} id ok={okid} params ok={okp}", f"serve|{key}", p.span)
                        else:
                            got = codes(val) if val is not None else []
                            want = {-32601} if not cmd else {-32601, -32602}
                            miss = [v for v, f in p.facts.items() if f[0] == "eq" and f[1] == "None" and v.op == "call" and v.a[0].endswith("HashMap::get")]
                            bad = [v for v, f in p.facts.items() if f[0] == "eq" and f[1] == "Err" and v.op == "call" and "from_value" in v.a[0]]
                            short = [v for v, f in p.facts.items() if v.op == "call" and re.search(r"::(get|first|next|pop)$", v.a[0]) and f == ("eq", "None")]
                            ok = len(got) == 1 and got[0] in want and (bool(miss) if got[0] == -32601 else bool(bad or short))
                            c.ob("serve", d + " no handler", ok, f"answered {got} without running a handler", f"serve-none|{key}", p.span)
                        want_end = hs and s.tests.get(END) is True
                        if hs and not cmd and s.tests.get(END) is None and m == END:
                            c.ob("end", d, fin == "ShuttingDown", f"state {fin} after a {END} request", f"end|{key}", p.span)
                        else:
                            ok = (fin == "ShuttingDown") if want_end else (fin == "=")
                            c.ob("end", d, ok, f"state {fin} afterwards", f"end|{key}", p.span)
                            cnt["end"] += bool(want_end)
        elif s.kind in ("Notification", "Event"):
            name = "method" if proto == "lsp" else "event"
            ini = s.tests.get("initialized") if proto == "lsp" else False
            for st in s.state:
                for isini in ([ini] if ini is not None else [True, False]):
                    allowed = st == "Ready" or (st == "Initializing" and isini)
                    cnt["notify"] += 1
                    miss = [v for v, f in p.facts.items() if f == ("eq", "None") and v.op == "call" and v.a[0].endswith("HashMap::get")]
                    if allowed:
                        if hs:
                            h = hs[0]
                            got = [x for x in calls_in(h.args[0], r"HashMap::get") if show(x.a[1][0]).endswith(".notifications")]
                            okh = bool(got) and got[0].a[1][1] is F(s.body, name)
                            tup = h.args[1]
                            svc = agg_field(tup, "0")
                            oks = s.sv is not None and svc is not None and svc is F(s.sv, "+" + st, "0")
                            okp = agg_field(tup, "1") is F(s.body, "params" if proto == "lsp" else "body")
                            c.ob("notify", d, len(hs) == 1 and okh and oks and okp, f"{len(hs)} handlers; from its table={okh} service={oks} params={okp}", f"notify|{key}", p.span)
                        else:
                            c.ob("notify", d + " unhandled", bool(miss), "a registered notification handler is skipped", f"notify-skip|{key}", p.span)
                    else:
                        c.ob("notify", d, not hs, f"{len(hs)} handlers run in state {st}", f"notify-state|{key}", p.span)
                    if st == "Initializing" and isini:
                        ok = fin == "Ready" and fv is not None and mentions(fv, lambda x: x is F(s.sv, "+Initializing", "0"))
                        cnt["ready"] += 1
                    else:
                        ok = fin == "=" or (fin == st and fv is not None and mentions(fv, lambda x: s.sv is not None and x is F(s.sv, "+" + st, "0")))
                    c.ob("notify", d + " state", ok, f"state {fin} afterwards (was {st})", f"notify-final|{key}", p.span)
            if proto == "lsp":
                ex = s.tests.get("exit")
                if ex is None:
                    herr = False
                    c.ob("exit", d, False, "the loop does not test for an exit notification here", f"exit|{key}", p.span)
                else:
                    ok = (p.end == "return" and p.variant(p.ret) == "Ok") if ex else p.end == "loop"
                    c.ob("exit", d, ok, f"exit={ex} but the loop {'ends' if p.end == 'return' else 'continues'} with {show(p.ret)[:60]}", f"exit|{key}", p.span)
                    cnt["exit"] += ex
            else:
                c.ob("exit", d, p.end == "loop", f"an event ends the loop ({p.end})", f"exit|{key}", p.span)
        elif s.kind == "Response":
            comp = evs(p, r"complete_(lsp|dap)_request$")
            for st in s.state:
                cnt["response"] += 1
                if st == "Ready":
                    ok = len(comp) == 1 and comp[0].args[1] is F(s.sv, "+Ready", "0") and comp[0].args[2] is s.body
                else:
                    ok = not comp
                c.ob("response", d, ok and not hs, f"{len(comp)} completions in state {st}", f"response|{key}", p.span)
            c.ob("exit", d, p.end == "loop", "a response ends the loop", f"exit|{key}", p.span)
            c.ob("response", d + " state", fin == "=", f"state {fin}", f"response-state|{key}", p.span)
        else:
            if not has_recv_event(p):
                continue
            cnt["event"] += 1
            for h in hs:
                tup = h.args[1]
                view = agg_field(tup, "0")
                k = agg_variant(view) if view is not None else None
                for st in s.state:
                    ok = len(hs) == 1 and (k == "Ready" and st in ("Ready", "Initializing") and mentions(view, lambda x: x is F(s.sv, "+" + st, "0")) or k == "Uninitialized" and st == "Uninitialized")
                    c.ob("event", d, ok, f"{len(hs)} handlers, view {k} in state {st}", f"event|{key}", p.span)
            if hs:
                bad = [e for e in hs if p.variant(e.res) == "Err"]
                if p.end == "return":
                    c.ob("event", d + " failure", bool(bad) and p.variant(p.ret) == "Err", "an event that did not fail ends the loop", f"event-end|{key}", p.span)
            elif p.end == "loop":
                miss = [v for v, f in p.facts.items() if f == ("eq", "None") and v.op == "call" and v.a[0].endswith("HashMap::get")]
                c.ob("event", d + " skipped", bool(miss) or s.state == {"ShuttingDown"}, "an event with a handler is skipped", f"event-skip|{key}", p.span)
    want = {"init": 2, "reject": 6, "serve": 3, "end": 1, "notify": 5, "response": 2, "event": 3}
    if proto == "lsp":
        want.update({"command": 6, "exit": 4, "ready": 2})
    for k, n in want.items():
        c.floor(f"{proto} {k} cases", cnt[k], n)


def has_recv_event(p):
    return any(v.op == "call" and v.a[0].endswith("SelectedOperation::recv") and f == ("eq", "Ok") for v, f in p.facts.items())


@check("L03")
def l03(c):
    lifecycle(c, "lsp")


@check("L04")
def l04(c):
    lifecycle(c, "dap")


# --------------------------------------------------------------------- L05
def affine(v):
    """(base, k) with v = base + k"""
    while v.op == "cast":
        v = v.a[1]
    if v.op == "agg" and v.a[2] in ("RequestId", "I32", "IdRepr") and len(v.a) == 5:
        return affine(v.a[4])
    if v.op == "proj" and v.a[0].op == "agg":
        return v, 0
    if v.op == "bin" and v.a[0] in ("Add", "Sub") and is_const(v.a[2]):
        b, k = affine(v.a[1])
        return b, k + (cval(v.a[2]) if v.a[0] == "Add" else -cval(v.a[2]))
    if v.op == "bin" and v.a[0] == "Add" and is_const(v.a[1]):
        b, k = affine(v.a[2])
        return b, k + cval(v.a[1])
    if v.op == "pure" and re.search(r"wrapping_add$", v.a[0]) and is_const(v.a[1][1]):
        b, k = affine(v.a[1][0])
        return b, k + cval(v.a[1][1])
    return v, 0


@check("L05")
def l05(c):
    P = program()
    c.rule("fresh-id", "the id of a request or event sent to the client is taken from the counter, which the same critical section advances beyond it")
    c.rule("registered-first", "the response handler is registered under the request's id before the request is handed to the connection")
    c.rule("complete-once", "a client response runs the handler removed for its id, once, with that response; an unknown id runs nothing")
    c.rule("handler-kept", "the registered handler is the caller's, and runs it exactly once with the response")
    n = 0
    for nm, idsel in ((r"LspClient::send_lsp_request_$", "request"), (r"TypedLspClient::send_dap_event$", "event"), (r"TypedLspClient::send_lsp_request$", "request")):
        bs = fn_by(P, nm, "sync_ls")
        if not c.anchor(nm, bs):
            continue
        b = bs[0]
        for p in c.paths_of(b, events=r"Mutex::lock|HashMap::insert$|Sender::send$|mem::drop$", drops="MutexGuard"):
            if p.end != "return":
                continue
            ins = evs(p, r"HashMap::insert$")
            send = evs(p, r"Sender::send$")
            lk = evs(p, r"Mutex::lock$")
            site = b.name.split("::")[-1]
            if idsel == "request":
                ok = len(ins) == 1 and "outgoing" in show(ins[0].args[0])
                c.ob("registered-first", site, ok, f"{len(ins)} registrations", f"registered|{site}|count", p.span)
                if len(ins) != 1:
                    continue
                key = ins[0].args[1]
                for e in send:
                    n += 1
                    m = e.args[1]
                    mid = agg_field(m, "id") if m.op == "agg" else None
                    c.ob("registered-first", site, ins[0].n < e.n, "the request is sent before its handler is registered", f"registered|{site}", e.span)
                    c.ob("registered-first", site + " id", mid is not None and mid is key, f"registered under {show(key)}, sent as {show(mid) if mid else None}", f"registered|{site}|id", e.span)
                h = ins[0].args[2]
                c.ob("handler-kept", site, h.op == "clo", f"registers {show(h)}", f"handler|{site}", ins[0].span)
                if h.op == "clo" and site == "send_lsp_request_":
                    body, qs = run_closure(c, h, 3, events=r"call_once|@indirect")
                    for q in qs:
                        if q.end != "return":
                            continue
                        k = evs(q, r"call_once|@indirect")
                        ok = len(k) == 1 and mentions(k[0].args[0], lambda x: x is mk("arg", "handler"))
                        okr = ok and mentions(k[0].args[1] if len(k[0].args) > 1 else UNIT, lambda x: x.op == "arg" and x.a[0] not in ("handler", "env"))
                        c.ob("handler-kept", site + " closure", ok and okr, f"the registered handler calls the caller's handler {len(k)} times", f"handler|{site}|closure", q.span)
                ids = [key]
            else:
                ids = [e.args[1].a[1][0] for e in send if e.args[1].op in ("call", "pure") and e.args[1].a[1]]
                n += len(ids)
                c.ob("fresh-id", site, len(ids) == len(send), "the event's sequence number was not found", f"fresh|{site}|shape", p.span)
            # counter on release
            rel = [e for e in p.events if (e.kind == "drop" or e.name.endswith("mem::drop")) and lk and mentions(e.args[0], lambda x: x is lk[0].res)]
            c.ob("fresh-id", site + " critical section", len(rel) >= 1, "the queue is not released", f"fresh|{site}|release", p.span)
            for e in rel[:1]:
                g = e.args[0]
                cnt = F(lk[0].res, "outgoing", "next_id")
                new = p.interp.apply(p.st, p.interp.apply(p.st, g, ("f", "outgoing")), ("f", "next_id"))
                nb, nk = affine(new)
                for i in ids:
                    ib, ik = affine(i)
                    ok = ib is nb and ib is cnt and 0 <= ik < nk
                    c.ob("fresh-id", site, ok, f"id {show(i)} while the counter becomes {show(new)}", f"fresh|{site}", e.span)
    c.floor("messages with allocated ids", n, 3)
    m = 0
    for nm, idf in (("complete_lsp_request", "id"), ("complete_dap_request", "request_seq")):
        b = fn_by(P, r"LspClient::%s$" % nm, "sync_ls")
        if not c.anchor(nm, b):
            continue
        for p in c.paths_of(b[0], events=r"HashMap::remove|call_once|@indirect|ops::Fn"):
            if p.end != "return":
                continue
            rem = evs(p, r"HashMap::remove$")
            cl = evs(p, r"call_once|@indirect|ops::Fn")
            want = F(mk("arg", "response"), idf)
            ok = len(rem) == 1 and "outgoing" in show(rem[0].args[0]) and base(affine(rem[0].args[1])[0]) is mk("arg", "response") and mentions(rem[0].args[1], lambda x: x is want)
            c.ob("complete-once", nm, ok, f"removal of {[show(e.args[1]) for e in rem]}", f"complete|{nm}|key", p.span)
            if not ok:
                continue
            k = p.variant(rem[0].res)
            if k == "Some":
                m += 1
                ok = len(cl) == 1 and mentions(cl[0].args[0], lambda x: x is rem[0].res) and mentions(cl[0].args[1], lambda x: x is mk("arg", "response")) and mentions(cl[0].args[1], lambda x: x is mk("arg", "service"))
                c.ob("complete-once", nm, ok, f"{len(cl)} handler runs for a known response", f"complete|{nm}", p.span)
            else:
                c.ob("complete-once", nm + " unknown", not cl and k == "None", f"{len(cl)} handler runs for an unknown response", f"complete|{nm}|unknown", p.span)
    c.floor("completions", m, 2)


# --------------------------------------------------------------------- L06
@check("L06")
def l06(c):
    P = program()
    c.rule("no-foreign-code", "while the request queue is locked, no handler, caller-supplied closure or await runs and nothing waits on a thread, timer or channel receive")
    c.rule("no-relock", "the request queue is never locked again by the thread that holds it")
    c.rule("released", "every lock of the request queue is released before the operation returns")
    n = 0
    BAD = r"@indirect|ops::Fn(Mut|Once)?(>)?::call|@yield|thread::sleep|JoinHandle.*::join$|Receiver::recv|block_on|Condvar|Initializer"
    roots = [b for f, b in pub_client_fns(c)] + fn_by(P, r"LsDriver::(start|start_|ready|get_resources)$", "sync_ls")
    for b in roots:
        heavy = "LsDriver" in b.name
        it = Interp(P, events=BAD + r"|Mutex::(lock|try_lock|lock_arc)$|mem::drop$|MutexGuard", drops=r"MutexGuard|LockedGuard", opaque=OPS if heavy else None, cut=r"^server::(\w+::)*\w+$")
        ps = it.run(b)
        c.fns |= it.visited_fns
        c.paths += len(ps)
        c.states += it.nstates
        site = b.name
        for p in ps:
            held = {}
            for e in p.events:
                if e.kind == "call" and re.search(r"Mutex::(lock|lock_arc)$", e.name):
                    n += 1
                    q = show(e.args[0])
                    ok = not any(h == q for h in held.values())
                    c.ob("no-relock", site, ok, f"locks {q} while holding it", f"relock|{site}", e.span)
                    held[e.res] = q
                elif e.kind == "drop" or e.name.endswith("mem::drop") or re.search(r"MutexGuard.*unlock", e.name):
                    v = e.args[0]
                    for g in list(held):
                        if mentions(v, lambda x: x is g):
                            del held[g]
                elif held and e.kind in ("call", "yield") and re.search(BAD, e.name):
                    c.ob("no-foreign-code", site, False, f"{e.name} runs while {list(held.values())} is locked", f"foreign|{site}|{e.name}", e.span)
            if p.end == "return":
                ret_guard = [g for g in held if mentions(p.ret, lambda x: x is g)]
                c.ob("released", site, len(held) == len(ret_guard) == 0, f"{list(held.values())} still locked on return", f"released|{site}", p.span)
    c.ob("no-foreign-code", "all operations", True)
    c.floor("lock acquisitions on paths", n, 12)


# --------------------------------------------------------------------- L07
FAMILY = {  # public registration operation -> (table, key source)
    "with_request": ("req_handlers", "const"), "with_request_": ("req_handlers", "const"), "with_raw_request": ("req_handlers", "const"),
    "with_notification": ("notif_handlers", "const"), "with_notification_": ("notif_handlers", "const"),
    "with_command": ("command_handlers", "arg"), "with_command_": ("command_handlers", "arg"),
    "with_resource": ("resource_handlers", "arg"), "with_resource_": ("resource_handlers", "arg"),
    "with_event": ("events", "type"),
}


@check("L07")
def l07(c):
    P = program()
    c.rule("key", "a registration puts the handler into the table of its kind, under the method constant of the registered type (requests, notifications), the given name (commands), the given path (resources) or the type id of the event")
    c.rule("call", "the registered handler is the caller's: called at most once per message, with the service, the request's id (raw handlers) and the message's parameters, deserialized when it is typed")
    c.rule("bad-params", "parameters that do not deserialize are answered 'invalid request' (-32600) carrying the deserializer's message, and the handler does not run")
    c.rule("keeps", "a registration changes nothing else of the builder, and building hands every table, the client and the arguments to the server")
    n = 0
    for site, proto, b, p, e in closure_sites(c):
        nm = site.split(":")[1]
        if nm not in FAMILY:
            continue
        n += 1
        table, src = FAMILY[nm]
        key = e.args[1]
        okt = e.args[0] is F(mk("arg", "self"), table)
        if src == "const":
            okk = key.op == "cexpr" and re.search(r"::(METHOD|COMMAND)$", str(key.a[0])) is not None
        elif src == "arg":
            okk = key.op == "arg" or (nm == "with_resource" and bool(args_in(key)))
        else:
            okk = key.op in ("call", "pure") and key.a[0].endswith("type_id")
        c.ob("key", site, okt and okk, f"inserted into {show(e.args[0])} under {show(key)}", f"key|{site}", e.span)
        # the returned builder
        fin = p.ret
        ok = fin.op == "upd" and fin.a[0] is mk("arg", "self") and [pth for pth, _ in fin.a[1]] == [(("f", table),)]
        c.ob("keeps", site, ok, f"returns {show(fin)[:120]}", f"keeps|{site}", p.span)
        ok = sum(1 for _ in evs(p, r"HashMap::insert$")) == 1
        c.ob("keeps", site + " once", ok, "more than one insertion", f"keeps|{site}|once", p.span)
        clo = e.args[2]
        typed = not nm.endswith("_") and nm in ("with_request", "with_notification") or nm == "with_request_"
        if clo.op == "arg":
            c.ob("call", site, nm == "with_notification_", f"the stored handler is {show(clo)}", f"call|{site}", e.span)
            continue
        if clo.op != "clo":
            c.ob("call", site, False, f"the stored handler is {show(clo)}", f"call|{site}", e.span)
            continue
        body, qs = run_closure(c, clo, 4, events=r"@indirect|ops::Fn::call$|LspClient::schedule$|from_value$", opaque=r"LspClient::(schedule|respond_result|respond)$")
        par = [mk("arg", body.locals[i][1] or f"#{i}") for i in range(2, body.argc + 1)]
        calls_seen = 0
        for q in qs:
            if q.end in ("panic", "diverge"):
                continue
            calls = evs(q, r"@indirect|ops::Fn::call$")
            if len(calls) > 1:
                c.ob("call", site, False, f"{len(calls)} handler calls", f"call|{site}|count", q.span)
                continue
            fv = evs(q, r"from_value$")
            if calls:
                calls_seen += 1
                a = list(calls[0].args)
                a = [a[0]] + (list(a[1].a[4:]) if len(a) == 2 and a[1].op == "agg" else a[1:])
                okh = a[0].op == "arg" and a[0] not in par
                svc = a[1] is par[0]
                req = par[-1]
                want = req
                if typed:
                    want = F(fv[0].res, "+Ok", "0") if fv and fv[0].args[0] is req else None
                if nm == "with_event":
                    okp = mentions(a[-1], lambda x: x is req)
                else:
                    okp = a[-1] is want
                okid = len(a) < 4 or a[2] is par[2]
                c.ob("call", site, okh and svc and okp and okid, f"handler {show(a[0])} called with {[show(x) for x in a[1:]]}", f"call|{site}", calls[0].span)
            elif typed:
                ok = bool(fv) and q.variant(fv[0].res) == "Err" and q.variant(q.ret) == "Err" and codes(q.ret) == [-32600] and mentions(q.ret, lambda x: x is fv[0].res)
                c.ob("bad-params", site, ok, f"without a handler call the result is {show(q.ret)[:120]}", f"bad-params|{site}", q.span)
            else:
                c.ob("call", site, False, "a path does not call the handler", f"call|{site}|none", q.span)
        c.floor(f"handler calls of {site}", calls_seen, 1)
    c.floor("registrations", n, 14)
    c.floor("registration operations", len({s for s in FAMILY if fn_by(P, r"LsBuilder::%s$" % s, "sync_ls")}), 10)
    for nm, (table, _) in FAMILY.items():
        for bb in fn_by(P, r"LsBuilder::%s$" % nm, "sync_ls"):
            for p in c.paths_of(bb, events=r"HashMap::\w+$"):
                es = [e for e in evs(p, r"HashMap::\w+$") if e.args and e.args[0] is F(mk("arg", "self"), table)]
                ok = p.end == "return" and len(es) == 1 and es[0].name.endswith("::insert")
                c.ob("key", bb.name + " registers", ok, f"{p.end} with {len(es)} registrations", f"key|{nm}|registers", p.span)
    b = fn_by(P, r"LsBuilder::build$", "sync_ls")
    if c.anchor("LsBuilder::build", b):
        pairs = {"client": "client", "events": "events", "commands": "command_handlers", "notifications": "notif_handlers", "requests": "req_handlers", "resources": "resource_handlers"}
        for bb in b:
            for p in c.paths_of(bb):
                if p.end != "return":
                    continue
                for k, v in pairs.items():
                    g = agg_field(p.ret, k)
                    c.ob("keeps", f"build {k}", g is F(mk("arg", "self"), v), f"{k} becomes {show(g) if g is not None else None}", f"keeps|build|{k}", p.span)
                st = agg_field(p.ret, "state")
                ok = st is not None and agg_variant(st) == "Uninitialized" and mentions(st, lambda x: x is F(mk("arg", "self"), "args"))
                c.ob("keeps", "build state", ok, f"starts in {show(st) if st is not None else None}", "keeps|build|state", p.span)
    # workspace/executeCommand and the resource command
    c.rule("command", "workspace/executeCommand runs the handler registered for its command name with its arguments; the resource command runs the handler registered for the path given as its first argument, with all arguments")
    it, ps = start_loop(c, "lsp")
    k = defaultdict(int)
    for p in ps:
        s = Step(it, p)
        if s.kind != "Request" or s.tests.get("workspace/executeCommand") is not True or p.end in ("panic", "diverge"):
            continue
        tests = {(v, x): b for (v, x), b in str_tests(p).items() if has_call(v, r"from_value")}
        for h in s.handler_calls():
            got = calls_in(h.args[0], r"HashMap::get")
            tup = h.args[1]
            par = agg_field(tup, "3")
            table = show(got[0].a[1][0]) if got else ""
            if table.endswith(".commands"):
                k["cmd"] += 1
                key = got[0].a[1][1]
                root = key.a[0] if key.op == "proj" else None
                ok = key.op == "proj" and key.a[1] == ("f", "command") and par is F(root, "arguments") and has_call(key, r"from_value") and mentions(key, lambda x: x is F(s.body, "params"))
                c.ob("command", "command", ok, f"handler for {show(key)} gets {show(par)}", "command|cmd", h.span)
                # the resource command must not be served from the command table
                c.ob("command", "resource command reserved", any(x == "tinymist.getResources" and v is key and b is False for (v, x), b in tests.items()), "the resource command is looked up as a plain command", "command|reserved", h.span)
            elif table.endswith(".resources"):
                k["res"] += 1
                ok = any(x == "tinymist.getResources" and b for (v, x), b in tests.items())
                ok = ok and par.op == "proj" and par.a[1] == ("f", "arguments")
                key = got[0].a[1][1]
                first = [x for x in walk(key) if x.op == "call" and re.search(r"Index>::index$|::first$|::get$", x.a[0]) and x.a[1][0] is par]
                ok0 = bool(first) and all(len(x.a[1]) < 2 or str(const_of(x.a[1][1])) == "0" for x in first)
                c.ob("command", "resource", ok and ok0, f"resource handler for {show(key)} gets {show(par)}", "command|res", h.span)
            else:
                c.ob("command", "unknown table", False, f"a command handler comes from {table}", "command|table", h.span)
    c.floor("command dispatch paths", k["cmd"], 1)
    c.floor("resource dispatch paths", k["res"], 1)


# --------------------------------------------------------------------- L08
CODES = dict(ParseError=-32700, InvalidRequest=-32600, MethodNotFound=-32601, InvalidParams=-32602, InternalError=-32603, ServerErrorStart=-32099, ServerErrorEnd=-32000,
             ServerNotInitialized=-32002, UnknownErrorCode=-32001, RequestCanceled=-32800, ContentModified=-32801, ServerCancelled=-32802, RequestFailed=-32803)
HELPERS = dict(invalid_params=-32602, internal_error=-32603, not_initialized=-32002, method_not_found=-32601, invalid_request=-32600)


@check("L08")
def l08(c):
    P = program()
    c.rule("result", "a handler's value is sent as the result of a response without an error, in the protocol of the server, under the request's id")
    c.rule("error", "a handler's error is sent as an error with its code and message and no result, under the request's id")
    c.rule("unserializable", "a value that cannot be serialized is answered as an internal error (-32603) with the serializer's message, not dropped")
    b = fn_by(P, r"LspClient::respond_result$", "sync_ls")
    cnt = defaultdict(int)
    if c.anchor("LspClient::respond_result", b):
        res, rid = mk("arg", "result"), mk("arg", "id")
        kind = F(mk("arg", "self"), "msg_kind")
        for p in c.paths_of(b[0], events=r"LspClient::respond$|to_value$", opaque=r"LspClient::respond$"):
            if p.end != "return":
                continue
            sends = evs(p, r"LspClient::respond$")
            tv = evs(p, r"to_value$")
            if len(sends) != 1:
                c.ob("result", "one response", False, f"{len(sends)} responses", "result|count", p.span)
                continue
            msg = sends[0].args[2]
            pk = p.variant(kind)
            ok0 = sends[0].args[1] is rid
            c.ob("result", "under the request's id", ok0, f"answered under {show(sends[0].args[1])}", "result|key", sends[0].span)
            rv = p.variant(res)
            bad = rv == "Ok" and tv and p.variant(tv[0].res) == "Err"
            site = f"{pk} {rv}{' unserializable' if bad else ''}"
            cnt[site] += 1
            if pk == "Lsp":
                rs = agg_named(msg, "lsp::Response")
                if len(rs) != 1:
                    c.ob("result", site, False, f"sends {show(msg)[:200]}", f"result|{site}", p.span)
                    continue
                r = rs[0]
                c.ob("result", site + " id", agg_field(r, "id") is rid, f"id {show(agg_field(r, 'id'))}", f"result|{site}|id", p.span)
                rr, re_ = agg_field(r, "result"), agg_field(r, "error")
                if rv == "Ok" and not bad:
                    ok = p.variant(rr) == "Some" and mentions(rr, lambda x: x is F(res, "+Ok", "0")) and has_call(rr, "to_value") and p.variant(re_) == "None"
                    c.ob("result", site, ok, f"result {show(rr)[:100]} error {show(re_)[:100]}", f"result|{site}", p.span)
                else:
                    er = agg_named(re_, "ResponseError")
                    ok = p.variant(rr) == "None" and p.variant(re_) == "Some" and len(er) == 1
                    if ok and rv == "Err":
                        e0 = F(res, "+Err", "0")
                        ok = agg_field(er[0], "code") is F(e0, "code") and agg_field(er[0], "message") is F(e0, "message")
                    elif ok:
                        ok = const_of(agg_field(er[0], "code")) in (-32603, "-32603") and mentions(agg_field(er[0], "message"), lambda x: x is tv[0].res)
                    c.ob("unserializable" if bad else "error", site, ok, f"result {show(rr)[:100]} error {show(re_)[:200]}", f"error|{site}", p.span)
            elif pk == "Dap":
                suc, err = calls_in(msg, r"dapts::Response::success$"), calls_in(msg, r"dapts::Response::error$")
                call = (suc + err)[0] if len(suc) + len(err) == 1 else None
                if call is None:
                    c.ob("result", site, False, f"sends {show(msg)[:200]}", f"result|{site}", p.span)
                    continue
                idv = call.a[1][0]
                okid = idv.op == "cast" and mentions(idv, lambda x: x is rid)
                if rv == "Ok" and not bad:
                    ok = bool(suc) and mentions(call.a[1][1], lambda x: x is F(res, "+Ok", "0")) and has_call(call.a[1][1], "to_value")
                    c.ob("result", site, ok and okid, f"sends {show(call)[:200]}", f"result|{site}", p.span)
                else:
                    m = call.a[1][1]
                    ok = bool(err) and p.variant(m) == "Some"
                    ok = ok and mentions(m, lambda x: x is (tv[0].res if bad else F(F(res, "+Err", "0"), "message")))
                    c.ob("unserializable" if bad else "error", site, ok and okid, f"sends {show(call)[:200]}", f"error|{site}", p.span)
            else:
                c.ob("result", "protocol", False, "the response is built without looking at the protocol", "result|proto", p.span)
    for k in ("Lsp Ok", "Lsp Err", "Lsp Ok unserializable", "Dap Ok", "Dap Err", "Dap Ok unserializable"):
        c.floor(f"paths for {k}", cnt[k], 1)
    c.rule("constructor", "the public response constructors set exactly one of result and error")
    for nm in ("new_ok", "new_err"):
        bs = fn_by(P, r"lsp::Response::%s$" % nm, "sync_ls")
        if c.anchor(f"Response::{nm}", bs):
            for p in c.paths_of(bs[0]):
                if p.end != "return":
                    continue
                rr, re_ = agg_field(p.ret, "result"), agg_field(p.ret, "error")
                ok = agg_field(p.ret, "id") is mk("arg", "id")
                if nm == "new_ok":
                    ok = ok and p.variant(rr) == "Some" and p.variant(re_) == "None" and mentions(rr, lambda x: x is mk("arg", "result"))
                else:
                    er = agg_named(re_, "ResponseError")
                    ok = ok and p.variant(rr) == "None" and p.variant(re_) == "Some" and len(er) == 1 and agg_field(er[0], "code") is mk("arg", "code") and agg_field(er[0], "message") is mk("arg", "message")
                c.ob("constructor", nm, ok, f"{nm} builds {show(p.ret)[:200]}", f"constructor|{nm}", p.span)
    c.rule("code", "each error kind carries its code of the protocol")
    adt = next((a for n, a in P.adts.items() if n.endswith("msg::ErrorCode") or n.endswith("::ErrorCode")), None)
    if c.anchor("ErrorCode", adt):
        have = {v["n"]: (int(v["d"]) + 2**31) % 2**32 - 2**31 for v in adt["v"]}
        for k, v in CODES.items():
            if k in have:
                c.ob("code", k, have[k] == v, f"{k} is {have[k]}, the protocol says {v}", f"code|{k}")
        c.floor("error codes", sum(k in have for k in CODES), 11)
    for nm, v in HELPERS.items():
        bs = fn_by(P, r"(^|::)%s$" % nm, "sync_ls", sig=r"-> .*ResponseError")
        if c.anchor(nm, bs):
            for p in c.paths_of(bs[0]):
                if p.end == "return":
                    ok = codes(p.ret) == [v]
                    a = bs[0].argc == 0 or mentions(p.ret, lambda x: x is mk("arg", "msg"))
                    c.ob("code", nm, ok and a, f"{nm} builds {show(p.ret)[:200]}", f"code|{nm}", p.span)
    c.rule("proto", "a server's client answers in the protocol its message type stands for, and converting a message between the typed and untyped forms keeps its protocol and content")
    want = {"lsp::Message": "Lsp", "dap::Message": "Dap"}
    n = 0
    for f in P.fns:
        if f["crate"] == "sync_ls" and f["name"].endswith("get_message_kind") and f.get("self"):
            k = next((x for x in want if x in f["self"]), None)
            bb = P.bodies.get((f["crate"], f["id"]))
            if k and bb:
                n += 1
                for p in c.paths_of(bb):
                    c.ob("proto", k, agg_variant(p.ret) == want[k], f"{k} is of kind {show(p.ret)}", f"proto|{k}", p.span)
    c.floor("message kinds", n, 2)


# --------------------------------------------------------------------- L09
PANICKY = r"unwrap_failed$|expect_failed$|panicking::panic|(Index|IndexMut)>?::index(_mut)?$|slice_index|copy_from_slice$|split_at(_mut)?$|Vec::(remove|swap_remove|insert|drain|split_off)$|String::(remove|insert|drain|split_off)$|begin_panic$|process::(exit|abort)$"


@check("L09")
def l09(c):
    P = program()
    c.rule("total", "no operation that can panic (unwrap, expect, indexing, slicing, overflow or bounds assertion, explicit panic) is reached while a client message is dispatched, unless the path is excluded by an invariant the other rules establish")
    c.rule("dap-id", "a debug-adapter request is registered under an integer id, so answering it cannot meet a string id")
    ent = []
    for proto in ("lsp", "dap"):
        b = fn_by(P, r"LsDriver::start_$", "sync_ls", sig=r"LsDriver<%s::Message" % proto)
        if c.anchor(f"{proto} loop", b):
            ent.append((f"{proto} loop", b[0], dict(opaque=OPS, cut=r"^server::(\w+::)*\w+$")))
    for nm, rx in (("complete_lsp_request", r"complete_lsp_request$"), ("complete_dap_request", r"complete_dap_request$"), ("register_request", r"register_request$"), ("respond", r"LspClient::respond$"),
                   ("respond_result", r"respond_result$"), ("schedule", r"LspClient::schedule$"), ("get_resources", r"get_resources$")):
        b = fn_by(P, rx, "sync_ls")
        if c.anchor(nm, b):
            ent.append((nm, b[0], {}))
    n = 0
    for nm, body, kw in ent:
        it = Interp(P, events=PANICKY + r"|register_request$", asserts=True, **kw)
        ps = it.run(body)
        c.fns |= it.visited_fns
        c.paths += len(ps)
        c.states += it.nstates
        n += len(ps)
        for p in ps:
            for e in evs(p, PANICKY):
                if e.kind == "call" and not excluded(p, e, nm):
                    c.ob("total", nm, False, f"{short(e.name)}({', '.join(show(a)[:60] for a in e.args)}) can panic on client data", f"total|{nm}|{short(e.name)}", e.span)
            for e in p.events:
                if e.kind == "assert" and e.name != "other" and not excluded(p, e, nm):
                    c.ob("total", nm, False, f"assertion {e.name} can fail on client data", f"total|{nm}|assert", e.span)
            c.ob("total", nm, True)
            if nm == "dap loop":
                for e in evs(p, r"register_request$"):
                    ok = any(x.op == "agg" and x.a[0] == "adt" and x.a[2] == "I32" for x in walk(e.args[2])) or e.args[2].op == "cast" and e.args[2].a[0] == "i32"
                    c.ob("dap-id", nm, ok, f"registered under {show(e.args[2])[:100]}", "dap-id", e.span)
    c.floor("dispatch paths", n, 150)


def excluded(p, e, nm):
    """path excluded by an invariant: Uninitialized(None) never rests in the state (rule L03/L04 init),
    a DAP id is an integer (rule dap-id), select() returns one of its operations, re-serializing a JSON value succeeds"""
    if e.kind == "assert" and e.name == "bounds" and len(e.args) == 2:
        a, b = const_of(e.args[0]), const_of(e.args[1])
        if str(a).isdigit() and str(b).isdigit() and int(b) < int(a):
            return True
    for v, f in p.facts.items():
        if f == ("eq", "None") and v.op == "proj" and v.a[0].op == "proj" and v.a[0].a[1] == ("d", "Uninitialized"):
            return True
        if f[0] == "eq" and f[1] == "String" and nm in ("respond_result", "schedule"):
            if any(x == ("eq", "Dap") for x in p.facts.values()):
                return True
        if f[0] == "ne" and v.op in ("call", "pure") and v.a[0].endswith("SelectedOperation::index"):
            return True
        if f == ("eq", "Err") and v.op == "call" and v.a[0].endswith("to_value") and has_call(v.a[1][0], r"to_value$"):
            return True
    return False


def incoming_table(c):
    """registering, completing and querying incoming requests"""
    c.rule("table", "the table of incoming requests holds exactly the registered ids not yet completed, with their data, and says so")
    P = program()
    arg = lambda n: mk("arg", n)

    def one(rx, **kw):
        bs = fn_by(P, rx, "sync_ls", **kw)
        c.anchor(rx, bs)
        return bs

    pend = F(arg("self"), "pending")
    TABLE = r"HashMap::\w+$"
    for b in one(r"Incoming::register$"):
        for p in c.paths_of(b, events=TABLE):
            es = [e for e in evs(p, TABLE) if not re.search(r"::(get|contains_key|len|is_empty|reserve)$", e.name)]
            ok = p.end == "return" and len(es) == 1 and es[0].name.endswith("::insert") and es[0].args[0] is pend and es[0].args[1] is arg("id") and es[0].args[2] is arg("data")
            c.ob("table", "register", ok, f"{p.end} after {[(e.name, [show(a)[:40] for a in e.args[1:]]) for e in es]}", "table|register", p.span)
    for b in one(r"Incoming::complete$"):
        for p in c.paths_of(b, events=TABLE):
            es = [e for e in evs(p, TABLE) if not re.search(r"::(get|contains_key|len|is_empty)$", e.name)]
            ok = p.end == "return" and len(es) == 1 and es[0].name.endswith("::remove") and es[0].args[0] is pend and es[0].args[1] is arg("id") and p.ret is es[0].res
            c.ob("table", "complete", ok, f"{p.end} {show(p.ret)[:80]} after {[(e.name, [show(a)[:40] for a in e.args[1:]]) for e in es]}", "table|complete", p.span)

    def verdict(p, table, key=None):
        """True/False: the path returns that the table is empty (holds the key) / the negation; None: neither"""
        s = says_of(p.ret, table, key)
        if s is not None:
            return s
        if p.ret.op == "const":
            t = str(cval(p.ret)) in ("1", "True")
            for v, f in p.facts.items():
                s = says_of(v, table, key)
                if s is not None and f[0] == "eq" and f[1] in ("0", "1"):
                    return s == ((f[1] == "1") == t)
                if key is not None and f[0] == "eq" and f[1] in ("Some", "None") and re.search(r"HashMap::get$", call_name(v)) and v.a[1][0] is table and v.a[1][1] is key:
                    return (f[1] == "Some") == t
        return None

    for rx, key in ((r"Incoming::has_pending$", None), (r"Incoming::is_completed$", arg("id"))):
        for b in one(rx):
            for p in c.paths_of(b):
                c.ob("table", rx.strip("$"), p.end == "return" and verdict(p, pend, key) is False, f"{p.end} {show(p.ret)[:100]}", f"table|{rx}", p.span)
    for b in one(r"LspClient::has_pending_requests$"):
        for p in c.paths_of(b, events="Mutex::lock$"):
            lk = evs(p, r"Mutex::lock$")
            ok = p.end == "return" and len(lk) == 1 and verdict(p, F(lk[0].res, "incoming", "pending")) is False
            c.ob("table", "has_pending_requests", ok, f"{p.end} {show(p.ret)[:140]}", "table|has_pending_requests", p.span)
    for b in one(r"LspClient::register_request$"):
        for p in c.paths_of(b, events=TABLE):
            es = [e for e in evs(p, TABLE) if not re.search(r"::(get|contains_key|len|is_empty|reserve)$", e.name)]
            ok = p.end == "return" and len(es) == 1 and es[0].name.endswith("::insert") and "incoming" in show(es[0].args[0]) and es[0].args[1] is arg("id")
            c.ob("table", "register_request", ok, f"{p.end} after {[(e.name, [show(a)[:40] for a in e.args[1:]]) for e in es]}", "table|register_request", p.span)


# --------------------------------------------------------------------- L10
def unwrapped(v):
    """the value inside newtype variants and boxes"""
    while True:
        if v.op == "agg" and v.a[0] == "adt" and len(v.a) == 5 and len(v.a[3] or (0,)) <= 1:
            v = v.a[4]
        elif re.search(r"(Box|Arc)::(new|from)$", call_name(v)) and v.a[1]:
            v = v.a[1][0]
        else:
            return v


def sent_once(c, rule, b, channel, whole):
    """with a live connection, exactly one message goes into the channel and it is the whole one"""
    n = 0
    for p in c.paths_of(b, events=r"Weak::upgrade$|Sender::\w+$", drops=r"MutexGuard"):
        site = b.name
        if p.end != "return":
            # a value of the caller's that cannot be turned into JSON
            ok = any(f == ("eq", "Err") and call_name(v).endswith("to_value") for v, f in p.facts.items()) or any(v.op in ("ovf",) or str(v.op).startswith("ovf") for v in p.facts)
            c.ob(rule, site, ok, f"{p.end}: {show(p.ret)[:100]}", f"{rule}|{site}|panic", p.span)
            continue
        up = evs(p, r"Weak::upgrade$")
        se = evs(p, r"Sender::\w+$")
        live = [e for e in up if p.variant(e.res) == "Some"]
        if not live or p.variant(up[-1].res) == "None":
            c.ob(rule, site + " closed", not se and bool(up) and any(p.variant(e.res) == "None" for e in up), "the connection is not looked at, or used though it is closed", f"{rule}|{site}|closed", p.span)
            continue
        n += 1
        ok = len(se) == 1 and se[0].name.endswith("Sender::send")
        c.ob(rule, site + " once", ok, f"{len(se)} sends: {[e.name for e in se]}", f"{rule}|{site}|once", p.span)
        for e in se:
            t = e.args[0]
            ok = t.op == "proj" and t.a[1] == ("f", channel) and any(mentions(t, lambda x: x is u.res) and sp_sender(u) for u in live)
            c.ob(rule, site + " channel", ok, f"sent through {show(t)[:100]}", f"{rule}|{site}|channel", e.span)
            ok = whole(p, unwrapped(e.args[1]))
            c.ob(rule, site + " whole", ok, f"sends {show(e.args[1])[:200]}", f"{rule}|{site}|whole", e.span)
    c.floor(f"sends of {b.name}", n, 1)


def sp_sender(up):
    v = up.args[0]
    return v.op == "proj" and v.a[1] == ("f", "sender")


def ok_json(p, v, arg):
    """v is the JSON of arg"""
    return v is not None and v.op == "proj" and call_name(base(v)).endswith("to_value") and base(v).a[1][0] is arg and p.variant(base(v)) == "Ok"


def says_of(v, table, key=None):
    """True/False: v says that the table is empty (holds the key) / that it is not; table None: any table of incoming requests"""
    neg = False
    while v.op in ("un", "not"):
        if v.op == "un" and v.a[0] != "Not":
            return None
        neg, v = not neg, v.a[-1]

    def on(x):
        return x is table or table is None and "incoming" in show(x)

    if key is not None:
        if re.search(r"HashMap::contains_key$", call_name(v)) and on(v.a[1][0]) and v.a[1][1] is key:
            return not neg
        if v.op == "isvar" and re.search(r"HashMap::get$", call_name(v.a[0])) and on(v.a[0].a[1][0]) and v.a[0].a[1][1] is key:
            return (v.a[1] == "Some") != neg
        return None
    if re.search(r"HashMap::is_empty$", call_name(v)) and on(v.a[1][0]):
        return not neg
    if v.op == "bin":
        op, x, y = v.a[0], v.a[1], v.a[2]
        if str(const_of(x)).isdigit():
            op, x, y = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), y, x
        if re.search(r"HashMap::len$", call_name(x)) and on(x.a[1][0]):
            k = (op, str(const_of(y)))
            if k in (("Eq", "0"), ("Lt", "1"), ("Le", "0")):
                return not neg
            if k in (("Ne", "0"), ("Gt", "0"), ("Ge", "1")):
                return neg
    return None


def cexpr_named(v, rx):
    return v is not None and v.op == "cexpr" and re.search(rx, str(v.a[0])) is not None


@check("L10")
def l10(c):
    P = program()
    c.rule("send", "a request, notification, event or internal event given to the client handle goes into its channel exactly once and whole while the connection is open, and nowhere once it is closed")
    c.rule("handle", "a new handle answers in its message type's protocol through the sender it was given, starts with no pending request, and every handle derived from it is the same client")
    c.rule("receive", "the server receives what was sent: messages as messages, events as events, whole, and an error exactly if the channel or the conversion fails")
    c.rule("convert", "wrapping a message for another layer keeps it whole and in its protocol; unwrapping gives it back or fails for the other protocol")
    c.rule("extract", "extracting a message by method gives its id and parsed parameters, the untouched message when the method differs, or an error that names its method")
    c.rule("ready", "the service becomes ready once: the first call initializes it with the arguments given to the builder, later calls are refused as invalid requests")
    c.rule("result", "the helpers for handlers' results wrap exactly the value they are given")
    arg = lambda n: mk("arg", n)

    def one(rx, **kw):
        bs = fn_by(P, rx, "sync_ls", **kw)
        c.anchor(rx, bs)
        return bs

    # send
    for b in one(r"LspClient::send_notification_$"):
        sent_once(c, "send", b, "lsp", lambda p, v: v is arg("notif"))
    for b in one(r"LspClient::send_notification$"):
        sent_once(c, "send", b, "lsp", lambda p, v: v.op == "agg" and v.a[1].endswith("lsp::Notification") and cexpr_named(agg_field(v, "method"), r"::METHOD$") and ok_json(p, agg_field(v, "params"), arg("params")))
    for b in one(r"LspClient::send_lsp_request_$"):
        sent_once(c, "send", b, "lsp", lambda p, v: v.op == "agg" and v.a[1].endswith("lsp::Request") and cexpr_named(agg_field(v, "method"), r"::METHOD$") and ok_json(p, agg_field(v, "params"), arg("params")))
    for b in one(r"TypedLspClient::send_lsp_request$"):
        sent_once(c, "send", b, "lsp", lambda p, v: v.op == "agg" and v.a[1].endswith("lsp::Request") and cexpr_named(agg_field(v, "method"), r"::METHOD$") and ok_json(p, agg_field(v, "params"), arg("params")))
    for b in one(r"LspClient::send_event$") :
        sent_once(c, "send", b, "event", lambda p, v: v is arg("event"))
    for b in one(r"LspClient::send_dap_event_$"):
        sent_once(c, "send", b, "lsp", lambda p, v: v is arg("evt"))
    for b in one(r"LspClient::send_dap_event$"):
        sent_once(c, "send", b, "lsp", lambda p, v: call_name(v).endswith("Event::new") and cexpr_named(v.a[1][1], r"::EVENT$") and v.a[1][2] is arg("body"))
    # handle
    for b in one(r"LspClientRoot::new$"):
        for p in c.paths_of(b):
            if p.end != "return":
                c.ob("handle", "new", False, p.end, "handle|new", p.span)
                continue
            w, s = agg_field(p.ret, "weak"), agg_field(p.ret, "_strong")
            s0 = unwrapped(s) if s is not None else None
            ok = w is not None and w.op == "agg" and s0 is arg("sender")
            c.ob("handle", "keeps the sender", ok, f"returns {show(p.ret)[:200]}", "handle|new", p.span)
            if not ok:
                continue
            sd = agg_field(w, "sender")
            ok = call_name(sd).endswith("Arc::downgrade") and (sd.a[1][0] is s or unwrapped(sd.a[1][0]) is s0)
            c.ob("handle", "sender", ok, f"sends through {show(sd)[:120]}", "handle|sender", p.span)
            ok = agg_field(w, "handle") is arg("handle") and call_name(agg_field(w, "msg_kind")).endswith("get_message_kind")
            c.ob("handle", "protocol", ok, f"protocol {show(agg_field(w, 'msg_kind'))[:80]}", "handle|kind", p.span)
            q = agg_field(w, "req_queue")
            bad = [x for x in walk(q) if x.op in ("arg", "mut", "upd")]
            c.ob("handle", "no pending request", not bad, f"the queue starts as {show(q)[:160]}", "handle|queue", p.span)
    for rx, src in ((r"LspClientRoot::weak$", lambda: F(arg("self"), "weak")), (r"LspClient::untyped$", None), (r"LspClient::to_typed$", lambda: arg("self")), (r"TypedLspClient::cast$", lambda: F(arg("self"), "client")),
                    (r"TypedLspClient::to_untyped$", lambda: F(arg("self"), "client")), (r"<server::TypedLspClient as std::clone::Clone>::clone$", lambda: F(arg("self"), "client")), (r"<server::TypedLspClient as std::ops::Deref>::deref$", lambda: F(arg("self"), "client"))):
        for b in one(rx):
            want = src() if src else (F(arg("self"), "client") if "Typed" in b.name else arg("self"))
            for p in c.paths_of(b):
                r = p.ret
                if p.end == "return" and r.op == "agg":
                    r = agg_field(r, "client")
                ok = p.end == "return" and r is not None and (r is want or r.op == "ref" and r.a[0] is want)
                c.ob("handle", b.name, ok, f"{p.end}: the client is {show(r)[:120] if r is not None else None}", f"handle|{rx}", p.span)
                if p.end == "return" and p.ret.op == "agg":
                    k = agg_field(p.ret, "caster")
                    if rx.endswith("clone$"):
                        c.ob("handle", b.name + " caster", k is F(arg("self"), "caster"), f"casts by {show(k)[:80]}", f"handle|{rx}|caster", p.span)
                    elif k is not None:
                        k0 = unwrapped(k)
                        ok = k0.op == "clo"
                        if ok:
                            _, qs = run_closure(c, k0, 2, events=r"@indirect|ops::Fn|downcast_mut$")
                            for q in qs:
                                if q.end != "return":
                                    ok = ok and q.end in ("panic", "diverge") and rx.endswith("to_typed$") and any(f == ("eq", "None") and has_call(v, "downcast_mut") for v, f in q.facts.items())
                                elif rx.endswith("cast$"):
                                    es = evs(q, r"@indirect|ops::Fn")
                                    ok = ok and len(es) == 2 and q.ret is es[-1].res and es[-1].args[0] is not es[0].args[0] and mentions(es[-1].args[-1], lambda x: x is es[0].res)
                                else:
                                    ok = ok and has_call(q.ret, "downcast_mut")
                        c.ob("handle", b.name + " caster", ok, f"casts by {show(k)[:80]}", f"handle|{rx}|caster", p.span)
    # connections converted field by field
    n = 0
    for b in one(r"server::(TConnectionTx|Connection) as std::convert::From>::from$"):
        for p in c.paths_of(b):
            a = arg("conn")
            n += 1
            if "TConnectionTx as" in b.name:
                parts = [((), a)]
            else:
                parts = [(("sender",), F(a, "sender")), (("receiver",), F(a, "receiver"))]
            for path, src in parts:
                v = p.ret
                for f in path:
                    v = agg_field(v, f) if v.op == "agg" else v
                ok = p.end == "return" and v is not None and v.op == "agg" and agg_field(v, "event") is F(src, "event") and agg_field(v, "lsp") is F(src, "lsp")
                c.ob("receive", f"{b.name} {'.'.join(path)}", ok, f"becomes {show(v)[:160] if v is not None else None}", f"receive|{b.name}|{path}", p.span)
    # receive
    n = defaultdict(int)
    for b in one(r"TConnectionRx::recv$"):
        for p in c.paths_of(b, events=r"SelectedOperation::recv$|try_into$|Receiver::\w+$"):
            if p.end != "return":
                c.ob("receive", "recv", any(f[0] == "ne" and call_name(v).endswith("SelectedOperation::index") for v, f in p.facts.items()), p.end, "receive|panic", p.span)
                continue
            rs = evs(p, r"SelectedOperation::recv$|Receiver::(try_)?recv$")
            if len(rs) != 1:
                c.ob("receive", "recv", False, f"{len(rs)} receptions for one message", "receive|count", p.span)
                continue
            ch = rs[0].args[-1]
            ev = ch is F(arg("self"), "event")
            k = p.variant(p.ret)
            got = F(rs[0].res, "+Ok", "0")
            if p.variant(rs[0].res) == "Ok":
                if ev:
                    ok = k == "Ok" and agg_variant(F(p.ret, "+Ok", "0") if p.ret.op != "agg" else p.ret.a[4]) == "Evt" and unwrapped(p.ret) is got
                    n["event"] += ok
                    c.ob("receive", "event", ok, f"an event becomes {show(p.ret)[:160]}", "receive|event", p.span)
                else:
                    ti = evs(p, r"try_into$")
                    ok = ch is F(arg("self"), "lsp") and len(ti) == 1 and ti[0].args[0] is got
                    if ok and p.variant(ti[0].res) == "Ok":
                        ok = k == "Ok" and agg_variant(p.ret.a[4]) == "Msg" and unwrapped(p.ret) is F(ti[0].res, "+Ok", "0")
                        n["message"] += ok
                    else:
                        ok = ok and k == "Err"
                    c.ob("receive", "message", ok, f"a message becomes {show(p.ret)[:160]}", "receive|message", p.span)
            else:
                c.ob("receive", "closed", k == "Err", f"a closed channel gives {show(p.ret)[:160]}", "receive|closed", p.span)
    c.floor("received kinds", len([x for x in n.values() if x]), 2)
    # convert
    n = 0
    for f in P.fns:
        if f["crate"] != "sync_ls" or not re.search(r"::(from|try_from)$", f["name"]):
            continue
        bb = P.bodies.get((f["crate"], f["id"]))
        st = f.get("self") or ""
        m = re.search(r"(?:^|::)((?:lsp|dap|dapts)::(?:Message|Response)|msg::Message|LspOrDapResponse|msg::RequestId|RequestId)$", st.split("<")[0].strip())
        if not bb or not m:
            continue
        sig = str(f.get("sig") or "")
        from_arg = arg(bb.locals[1][1] or "#1")
        for p in c.paths_of(bb):
            n += 1
            site = f"{st.split('::')[-1]} from {sig[:60]}"
            if p.end != "return":
                c.ob("convert", site, False, p.end, f"convert|{f['name']}|{st}|panic", p.span)
                continue
            if f["name"].endswith("::from"):
                ok = unwrapped(p.ret) is from_arg
                if ok and re.search(r"LspOrDapResponse|(?<!lsp::)(?<!dap::)Message$", st) and p.ret.op == "agg" and p.ret.a[2] in ("Lsp", "Dap"):
                    src = bb.locals[1][0] if isinstance(bb.locals[1][0], str) else sig
                    ok = ("lsp::" in str(src)) == (p.ret.a[2] == "Lsp") if re.search(r"(lsp|dap)::", str(src)) else ok
                c.ob("convert", site, ok, f"becomes {show(p.ret)[:160]}", f"convert|{f['name']}|{st}", p.span)
            else:
                want = {"lsp": "Lsp", "dap": "Dap", "dapts": "Dap"}.get(m.group(1).split("::")[0])
                k = p.variant(from_arg)
                if want and k == want:
                    ok = p.variant(p.ret) == "Ok" and unwrapped(p.ret) is F(from_arg, "+" + want, "0")
                else:
                    ok = bool(want) and p.variant(p.ret) == "Err"
                c.ob("convert", site + f" {k}", ok, f"{k} gives {show(p.ret)[:160]}", f"convert|{f['name']}|{st}", p.span)
    c.floor("conversions", n, 18)
    incoming_table(c)
    # extract
    n = 0
    for b in one(r"lsp::(Request|Notification)::extract$"):
        s, m = arg("self"), arg("method")
        kind = "Request" if "Request" in b.name else "Notification"
        for p in c.paths_of(b, events=r"from_value$"):
            site = kind
            if p.end != "return":
                c.ob("extract", site, False, p.end, f"extract|{site}|panic", p.span)
                continue
            same = [f[1] == "1" for v, f in p.facts.items() if v.op == "bin" and v.a[0] == "Eq" and f[0] == "eq" and set(v.a[1:]) == {F(s, "method"), m}]
            fv = evs(p, r"from_value$")
            r = p.ret
            if not same:
                c.ob("extract", site, False, "the method is not compared", f"extract|{site}|method", p.span)
                continue
            if not same[0]:
                x = unwrapped(r)
                ok = agg_variant(r) == "Err" and agg_variant(r.a[4]) == "MethodMismatch" and x is s
                c.ob("extract", site + " mismatch", ok, f"gives {show(r)[:160]}", f"extract|{site}|mismatch", p.span)
                continue
            ok = len(fv) == 1 and fv[0].args[0] is F(s, "params")
            if ok and p.variant(fv[0].res) == "Ok":
                n += 1
                v = F(fv[0].res, "+Ok", "0")
                x = r.a[4] if agg_variant(r) == "Ok" else None
                if kind == "Request":
                    ok = x is not None and x.op == "agg" and x.a[0] == "tuple" and x.a[4] is F(s, "id") and x.a[5] is v
                else:
                    ok = x is v or (r is fv[0].res)
            elif ok:
                x = r.a[4] if agg_variant(r) == "Err" else None
                ok = x is not None and agg_variant(x) == "JsonError" and agg_field(x, "method") is F(s, "method") and agg_field(x, "error") is F(fv[0].res, "+Err", "0")
            c.ob("extract", site, ok, f"gives {show(r)[:200]}", f"extract|{site}", p.span)
    c.floor("extractions", n, 2)
    # the error's text names the method it is about
    from misc import written
    n = 0
    for b in one(r"ExtractError as std::fmt::Display>::fmt$"):
        for p in c.paths_of(b, events=".", keep_log=True):
            out, ok, failed = written(p, arg("f"))
            if failed:
                continue
            s = next((x.a[0] for a in out if isinstance(a, tuple) for x in walk(a[1]) if x.op == "proj" and x.a[1] in (("d", "MethodMismatch"), ("d", "JsonError"))), None) or arg("self")
            vs = [a[1] for a in out if isinstance(a, tuple)]
            var = p.variant(s)
            want = {"MethodMismatch": [F(s, "+MethodMismatch", "0", "method")], "JsonError": [F(s, "+JsonError", "method"), F(s, "+JsonError", "error")]}.get(var)
            ok = p.end == "return" and ok and want is not None and all(w in vs for w in want)
            n += 1
            c.ob("extract", f"text of {var}", ok, f"{var} prints {[show(v)[:60] for v in vs]}", f"extract|text|{var}", p.span)
    c.floor("printed extraction errors", n, 4)
    # ready
    n = 0
    for b in one(r"LsDriver::ready$"):
        st = F(arg("self"), "state")
        for p in c.paths_of(b, events=r"Initializer(>)?::initialize$"):
            ini = evs(p, r"initialize$")
            if p.variant(st) == "Uninitialized":
                if p.end != "return":
                    ok = p.variant(F(st, "+Uninitialized", "0")) == "None"  # excluded: L03/L04 'init'
                    c.ob("ready", "first", ok, p.end, "ready|panic", p.span)
                    continue
                n += 1
                a = F(st, "+Uninitialized", "0", "+Some", "0")
                ok = len(ini) == 1 and ini[0].args[0] is a and ini[0].args[1] is arg("params")
                c.ob("ready", "initialized once, with its arguments", ok, f"{len(ini)} initializations", "ready|init", p.span)
                if not ok:
                    continue
                new = p.read_arg("self", "state")
                ok = agg_variant(new) == "Ready" and new.a[4] is F(ini[0].res, "0")
                c.ob("ready", "state", ok, f"the state becomes {show(new)[:160]}", "ready|state", p.span)
                c.ob("ready", "answer", p.ret is F(ini[0].res, "1"), f"answers {show(p.ret)[:160]}", "ready|answer", p.span)
            else:
                ok = p.end == "return" and not ini and p.read_arg("self", "state") is st and agg_variant(p.ret) in ("Ok", "Err") and codes(p.ret) == [-32600] and agg_variant(p.ret.a[4]) in ("Done", "ResponseError", None)
                c.ob("ready", "later", ok, f"answers {show(p.ret)[:160]}", "ready|later", p.span)
    c.floor("initializations", n, 1)
    for rx, want in ((r"State::opt$", None), (r"State::opt_mut$", None), (r"server::ServiceState::ready$", None)):
        for b in one(rx, sig=None):
            s = arg("self")
            for p in c.paths_of(b):
                k = p.variant(s)
                ok = p.end == "return" and (agg_variant(p.ret) == "Some" and k == "Ready" and (p.ret.a[4] is F(s, "+Ready", "0") or p.ret.a[4].op == "ref" and p.ret.a[4].a[0] is F(s, "+Ready", "0")) or agg_variant(p.ret) == "None" and k != "Ready")
                c.ob("ready", rx.strip("$"), ok, f"{k}: {show(p.ret)[:100]}", f"ready|{rx}", p.span)
    # results
    for nm in ("just_ok", "just_result", "just_future"):
        for b in one(r"(^|::)%s$" % nm):
            for p in c.paths_of(b):
                r = p.ret
                ok = p.end == "return" and agg_variant(r) == "Ok" and r.a[4].op == "agg"
                if ok:
                    d = r.a[4]
                    if nm == "just_future":
                        x = d.a[4]
                        while call_name(x).endswith(("Box::pin", "Box::new", "Pin::new_unchecked", "Pin::new", "into_pin", "::into")) and x.a[1]:
                            x = x.a[1][0]
                        if x.op == "agg":
                            x = unwrapped(x)
                        ok = d.a[2] == "Future" and x is arg("fut")
                    else:
                        x = d.a[4]
                        ok = d.a[2] == "Done" and (x is arg("res") if nm == "just_result" else agg_variant(x) == "Ok" and x.a[4] is arg("res"))
                c.ob("result", nm, ok, f"{p.end} {show(r)[:120]}", f"result|{nm}", p.span)


# --------------------------------------------------------------------- L11
@check("L11")
def l11(c):
    P = program()
    c.rule("serve", "starting a server runs its loop once on the given connection and returns what the loop returned")
    c.rule("wait", "a replayed session returns only when no request is pending; an ordinary one does not wait")
    c.rule("timeout", "the wait is given up, by a panic that says so, exactly when the timeout has passed; the timeout is REPLAY_TIMEOUT seconds, or 60 when that is no number")
    for proto in ("lsp", "dap"):
        bs = fn_by(P, r"LsDriver::start$", "sync_ls", sig=r"LsDriver<%s::Message" % proto)
        if not c.anchor(f"{proto} LsDriver::start", bs):
            continue
        n = defaultdict(int)
        rp = mk("arg", "is_replay")
        for p in c.paths_of(bs[0], events=r"LsDriver::start_$|thread::spawn$|::join$|block_on$|HashMap::is_empty$|panic|env::var$|parse$|Instant::(now|elapsed)$|sleep", opaque=r"LsDriver::start_$", cut="."):
            st = evs(p, r"LsDriver::start_$")
            ok = len(st) == 1 and st[0].args[0] is mk("arg", "self") and st[0].args[1] is mk("arg", "inbox")
            c.ob("serve", proto, ok, f"the loop is run {len(st)} times", f"serve|{proto}", p.span)
            if not ok:
                continue
            replay = p.truth(rp)
            if p.end == "return":
                c.ob("serve", proto + " result", p.ret is st[0].res, f"returns {show(p.ret)[:120]}", f"serve|{proto}|result", p.span)
            pend = [(v, ("eq", "1" if says_of(v, None) == (f == ("eq", "1")) else "0")) for v, f in p.facts.items() if f in (("eq", "0"), ("eq", "1")) and says_of(v, None) is not None]
            waited = [e for e in evs(p, r"block_on$|thread::spawn$") if e.n > st[0].n]
            if replay is not True:
                c.ob("wait", proto + " ordinary", not pend and not waited and p.end == "return" and replay is False, f"{p.end}; an ordinary session waits", f"wait|{proto}|ordinary", p.span)
                n["ordinary"] += 1
                continue
            el = [(v, f) for v, f in p.facts.items() if v.op == "bin" and has_call(v, r"Instant::elapsed$|duration_since$")]
            env = evs(p, r"env::var$")
            late = None
            for v, f in el:
                a, b = v.a[1], v.a[2]
                lim, left = (a, True) if has_call(b, r"elapsed$|duration_since$") else (b, False)
                op = v.a[0]
                t = f == ("eq", "1")
                late = t if (op in ("Lt", "Le")) == left else not t
                secs = [x for x in (a, b) if x is not lim][0]
                pr = calls_in(lim, r"parse$")
                if env and p.variant(env[0].res) == "Ok" and pr and p.variant(pr[0]) == "Ok":
                    ok = lim is F(pr[0], "+Ok", "0") and mentions(pr[0], lambda x: x is env[0].res)
                else:
                    ok = str(const_of(lim)) == "60" and bool(env)
                ok = ok and const_of(env[0].args[0]) == "REPLAY_TIMEOUT" and re.search(r"Duration::as_secs$", call_name(secs))
                c.ob("timeout", proto + " limit", ok, f"waits up to {show(lim)[:120]}", f"timeout|{proto}|limit", p.span)
            if p.end == "return":
                fin = [f for v, f in pend]
                if not any(e.name.endswith("block_on") for e in waited) and not pend:
                    # the closure of the waiting thread is not run on this path of the analysis
                    ok = bool(waited)
                else:
                    if not pend:
                        continue
                    ok = fin[-1] == ("eq", "1")
                    n["waited"] += ok
                sp = [e for e in waited if e.name.endswith("thread::spawn")]
                jn = evs(p, r"::join$")
                ok = ok and (not sp or any(mentions(j.args[0], lambda x: x is sp[0].res) for j in jn))
                c.ob("wait", proto, ok, "a replayed session returns with a request pending, or without waiting", f"wait|{proto}", p.span)
            elif p.end in ("diverge", "panic"):
                ok = late is True and bool(pend) and pend[-1][1] == ("eq", "0")
                n["late"] += ok
                c.ob("timeout", proto, ok, f"gives up {'before the timeout' if late is not True else 'with nothing pending'}: {show(p.ret)[:80]}", f"timeout|{proto}", p.span)
            elif p.end == "loop":
                ok = late is False and bool(pend) and pend[-1][1] == ("eq", "0")
                n["again"] += ok
                c.ob("timeout", proto + " goes on", ok, "the wait goes on though nothing is pending or the timeout has passed", f"timeout|{proto}|on", p.span)
        for k in ("ordinary", "waited", "late", "again"):
            c.floor(f"{proto} paths: {k}", n[k], 1)
