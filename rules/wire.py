"""sync-ls: framing, JSON shapes, transport threads, record/replay."""
from collections import defaultdict
from core import check, program
from q import *
from ls import run_closure
from std import payload_of

IOW = r"io::Write>?::(write|write_all|write_fmt|flush|write_vectored)$"


def writes_of(p, out):
    """content handed to the given writer on a path, in order; 'F' for a flush"""
    seq = []
    for e in evs(p, IOW):
        if not is_same_writer(e.args[0], out):
            continue
        k = e.name.rsplit("::", 1)[1]
        if k == "flush":
            seq.append(("flush", e))
        elif k == "write_vectored":
            seq.append(("?", e))
        else:
            for x in content(e.args[1]):
                seq.append((x, e))
            if k == "write":
                seq.append(("?", e))
    return seq


def is_same_writer(v, out):
    while v.op in ("mut", "loop"):
        v = v.a[2] if v.op == "mut" else v.a[3]
    return v is out


def flat(seq):
    """merge literal neighbours"""
    out = []
    for x, e in seq:
        if isinstance(x, str) and x not in ("flush", "?") and out and isinstance(out[-1][0], str) and out[-1][0] not in ("flush", "?"):
            out[-1] = (out[-1][0] + x, e)
        else:
            out.append((x, e))
    return out


@check("W01")
def w01(c):
    P = program()
    c.rule("frame", "a message is written as 'Content-Length: ' + the byte length of exactly the text that follows + CRLF CRLF + that text, and nothing else; then the stream is flushed")
    c.rule("error", "a failing write ends the message with that error: nothing is written after it and success is not reported")
    b = fn_by(P, r"write_msg_text$", "sync_ls")
    n = 0
    if c.anchor("frame writer", b):
        body = b[0]
        prm = [mk("arg", body.locals[i][1] or f"#{i}") for i in range(1, body.argc + 1)]
        out, msg = prm[0], prm[1]
        for p in c.paths_of(body, events=IOW):
            if p.end in ("panic", "diverge"):
                c.ob("error", "no panic", False, f"writing can panic: {show(p.ret)[:80]}", "error|panic", p.span)
                continue
            seq = flat(writes_of(p, out))
            rv = p.variant(p.ret)
            failed = [e for e in evs(p, IOW) if p.variant(e.res) == "Err"]
            if failed:
                last = evs(p, IOW)[-1]
                ok = rv == "Err" and last is failed[0] and mentions(p.ret, lambda x: x is failed[0].res)
                c.ob("error", f"failing {failed[0].name.rsplit('::', 1)[1]}", ok, f"returns {show(p.ret)[:80]} after a failed write", f"error|{failed[0].name}", p.span)
                continue
            n += 1
            ok = len(seq) == 5 or len(seq) == 4
            shape = [x if isinstance(x, str) else "<v>" for x, _ in seq]
            ok = shape == ["Content-Length: ", "<v>", "\r\n\r\n", "<v>", "flush"]
            if ok:
                ln, txt = seq[1][0], seq[3][0]
                lv = len_of(ln[1])
                ok = ln[0] == "arg" and ln[2] == "display" and txt[1] is msg and lv is not None and content(lv) == content(msg)
            c.ob("frame", "successful write", ok, f"writes {[x if isinstance(x, str) else show(x[1])[:60] for x, _ in seq]}", "frame", p.span)
            unchecked = [e for e in evs(p, IOW) if p.variant(e.res) != "Ok" and e.res is not p.ret]
            c.ob("error", "outcomes are checked", not unchecked, f"the outcome of {[e.name for e in unchecked]} is ignored", "error|unchecked", p.span)
    c.floor("successful writer paths", n, 1)
    c.rule("whole", "writing a message writes one frame whose text is the JSON of the whole message with jsonrpc 2.0, and reports its outcome; a message that cannot be serialized writes nothing")
    k = 0
    for proto in ("lsp", "dap"):
        for body in fn_by(P, r"%s::Message::write$" % proto, "sync_ls"):
            for p in c.paths_of(body, events=r"write_msg_text$|serde_json::(to_string|to_vec|to_writer)", opaque=r"write_msg_text$"):
                if p.end in ("panic", "diverge"):
                    c.ob("whole", proto, False, "writing can panic", f"whole|{proto}|panic", p.span)
                    continue
                w, s = evs(p, r"write_msg_text$"), evs(p, r"serde_json::")
                k += 1
                if w:
                    t = w[0].args[1]
                    src = [x for x in walk(t) if x.op == "call" and "serde_json::to_" in x.a[0]]
                    ok = len(w) == 1 and len(src) == 1 and p.ret is w[0].res or (len(w) == 1 and len(src) == 1 and p.variant(w[0].res) == p.variant(p.ret) is not None)
                    rec = src[0].a[1][0] if src else None
                    ok = ok and rec is not None and rec.op == "agg" and const_of(agg_field(rec, "jsonrpc")) == "2.0" and any(x is mk("arg", "self") for x in rec.a[4:])
                    c.ob("whole", f"{proto} written", ok, f"{len(w)} frames; text {show(t)[:120]}; returns {show(p.ret)[:60]}", f"whole|{proto}", p.span)
                else:
                    ok = p.variant(p.ret) == "Err" and s and p.variant(s[-1].res) == "Err"
                    c.ob("whole", f"{proto} not written", ok, f"returns {show(p.ret)[:80]} without writing", f"whole|{proto}|none", p.span)
    for body in fn_by(P, r"msg::Message::write$", "sync_ls"):
        for p in c.paths_of(body, events=r"::_?write$", opaque=r"(lsp|dap)::Message::_?write$"):
            w = [e for e in evs(p, r"::_?write$") if e.kind == "call"]
            k += 1
            pk = p.variant(mk("arg", "self"))
            ok = len(w) == 1 and p.ret is w[0].res and w[0].args[0] is F(mk("arg", "self"), "+" + (pk or "?"), "0")
            c.ob("whole", f"untyped {pk}", ok, f"{len(w)} writes of {[show(e.args[0]) for e in w]}", f"whole|untyped|{pk}", p.span)
    c.floor("message write paths", k, 6)


CLEARED = r"String::(new|clear|with_capacity)$|mem::take$"


@check("W02")
def w02(c):
    P = program()
    c.rule("length", "the body has exactly the number of bytes that the value of the Content-Length header (any letter case) says; other headers do not change it")
    c.rule("headers", "headers are read line by line up to the first empty line; a line without CRLF, a header without ': ', an unparsable length, a missing length, a short body or a body that is not UTF-8 is an error")
    c.rule("eof", "end of input where a header should start is 'no more messages', and nothing else is")
    c.rule("line", "each header line is read into an empty buffer")
    c.rule("content", "the text returned is the body read, unchanged")
    b = fn_by(P, r"read_msg_text$", "sync_ls")
    if not c.anchor("frame reader", b):
        return
    ps = c.paths_of(b[0], events=r"read_line$|read_until$|read_exact$|read_to_end$|read_to_string$|Read>?::read$|take$|resize$|parse$|eq_ignore_ascii_case$|splitn?$|split_once$|from_utf8|ends_with$|strip_suffix$|is_empty$", cut=r".")
    cnt = defaultdict(int)
    loopvar = None
    RD = r"read_line$|read_until$"
    for p in ps:
        if p.end == "return" and p.variant(p.ret) == "Ok" and p.variant(F(p.ret, "+Ok", "0")) in ("Some", None):
            for v in walk(p.ret):
                if v.op == "call" and v.a[0].endswith("Vec::resize") or v.op in ("call", "pure") and v.a[0].endswith("vec::from_elem"):
                    for x in walk(v.a[1][1]):
                        if x.op == "loop" and (x.a[3].op == "agg" and agg_variant(x.a[3]) == "None"):
                            loopvar = x
    for p in ps:
        lines = evs(p, RD)
        for e in lines:
            bv = e.args[1]
            ok = bv.op in ("call", "pure") and re.search(CLEARED, bv.a[0]) or bv.op == "mut" and re.search(CLEARED, bv.a[0].a[0])
            c.ob("line", "buffer", bool(ok), f"a line is appended to {show(bv)[:100]}", "line", e.span)
        if p.end in ("panic", "diverge"):
            # the first piece of a split always exists
            okp = any(f == ("eq", "None") and v.op == "call" and re.search(r"Split\w* as std::iter::Iterator>::next$", v.a[0]) and not any(x.op == "mut" and "next" in str(x.a[0].a[0]) for x in walk(v.a[1][0]) if isinstance(x.a[0], V)) for v, f in p.facts.items())
            c.ob("headers", "no panic", okp, f"panics: {show(p.ret)[:100]}", "headers|panic", p.span)
            continue
        hdr = None
        test = None
        for v, f in p.facts.items():
            if v.op in ("call", "pure") and v.a[0].endswith("eq_ignore_ascii_case") and any(const_of(a) == "Content-Length" or str(const_of(a)).lower() == "content-length" for a in v.a[1]):
                test = f == ("eq", "1")
                hdr = v
        parse = [e for e in evs(p, r"parse$")]
        if hdr is not None:
            other = [a for a in hdr.a[1] if not is_const(a)]
            ok = other and has_call(other[0], r"splitn?$|split_once$")
            c.ob("length", "header name", ok, f"compares {show(hdr)[:100]}", "length|name", p.span)
            delim_ok = any(cc.a[1] and any(const_of(a) == ": " for a in cc.a[1]) for cc in calls_in(other[0], r"splitn?$|split_once$")) if other else False
            c.ob("headers", "separator", delim_ok, f"header name split as {show(other[0])[:100] if other else None}", "headers|sep", p.span)
        if parse and hdr is not None:
            ok = test and has_call(parse[0].args[0], r"splitn?$|split_once$") and len(parse) == 1
            c.ob("length", "header value", ok, f"parses {show(parse[0].args[0])[:100]} with the name test {test}", "length|value", p.span)
        elif parse:
            c.ob("length", "header value", False, "a number is parsed without testing the header's name", "length|untested", p.span)
        if p.end == "loop" and not lines:
            continue
        if p.end == "loop":
            cnt["loop"] += 1
            nx = p.loop_next(loopvar) if loopvar is not None else None
            if test:
                ok = nx is not None and p.variant(nx) == "Some" and parse and mentions(nx, lambda x: x is parse[0].res) and p.variant(parse[0].res) == "Ok"
                c.ob("length", "recorded", ok, f"after a Content-Length header the length is {show(nx)[:100] if nx is not None else None}", "length|set", p.span)
                cnt["set"] += 1
            else:
                ok = nx is None or nx is loopvar
                c.ob("length", "other headers", ok, f"another header changes the length to {show(nx)[:100] if nx is not None else None}", "length|other", p.span)
            ok = hdr is not None and test is not None
            c.ob("headers", "inspected", ok, "a header line is skipped without looking at its name", "headers|skip", p.span)
            continue
        rv = p.variant(p.ret)
        last = lines[-1] if lines else None
        n0 = None
        for v, f in p.facts.items():
            if last is not None and v is F(last.res, "+Ok", "0") and f == ("eq", "0"):
                n0 = True
            if last is not None and v.op == "bin" and v.a[0] == "Eq" and F(last.res, "+Ok", "0") in v.a[1:] and f == ("eq", "1") and any(str(const_of(a)) == "0" for a in v.a[1:] if is_const(a)):
                n0 = True
        if rv == "Ok":
            inner = F(p.ret, "+Ok", "0")
            iv = agg_variant(agg_field(p.ret, "0")) if p.ret.op == "agg" else None
            if iv == "None":
                cnt["eof"] += 1
                c.ob("eof", "no more messages", bool(n0) and not evs(p, r"read_exact$"), "reports the end of input although a line was read", "eof", p.span)
                continue
            cnt["msg"] += 1
            body = agg_field(p.ret, "0")
            utf = [x for x in walk(body) if x.op in ("call", "pure") and re.search(r"from_utf8$", x.a[0])]
            ok = len(utf) >= 1 and p.variant(utf[0]) == "Ok" and F(utf[0], "+Ok", "0") in (agg_field(body, "0"),)
            c.ob("content", "utf-8", ok, f"returns {show(body)[:100]}", "content|utf8", p.span)
            rd = [x for x in walk(body) if x.op == "call" and x.a[0].endswith("read_exact")]
            ok = len(rd) == 1 and p.variant(rd[0]) == "Ok"
            c.ob("length", "whole body", ok, f"{len(rd)} exact reads of the body", "length|exact", p.span)
            if rd:
                buf = rd[0].a[1][1]
                sz = None
                if buf.op == "mut" and buf.a[0].a[0].endswith("Vec::resize"):
                    sz = buf.a[0].a[1][1]
                elif buf.op in ("call", "pure") and buf.a[0].endswith("from_elem"):
                    sz = buf.a[1][1]
                ok = sz is not None and loopvar is not None and sz is F(loopvar, "+Some", "0")
                c.ob("length", "body size", ok, f"the body buffer has size {show(sz)[:100] if sz is not None else show(buf)[:100]}", "length|size", p.span)
                ok = not [x for x in walk(body) if x.op == "mut" and isinstance(x.a[0], V) and x.a[0] is not rd[0] and x.a[0].op == "call" and re.search(r"truncate|push|extend|drain|remove|insert", x.a[0].a[0]) and mentions(x, lambda y: y is rd[0])]
                c.ob("content", "unchanged", ok, "the body is edited after it is read", "content|edited", p.span)
            emp = empty_line(p)
            c.ob("headers", "up to the empty line", emp, "the body is read although no empty line ended the headers", "headers|empty", p.span)
            crlf = any(f == ("eq", "1") and v.op in ("call", "pure") and v.a[0].endswith("ends_with") and any(const_of(a) == "\r\n" for a in v.a[1]) for v, f in p.facts.items()) or has_strip(p)
            c.ob("headers", "CRLF", crlf, "a line is accepted without CRLF", "headers|crlf", p.span)
        elif rv == "Err":
            cnt["err"] += 1
            c.ob("eof", "errors", not n0, "the end of input is reported as an error", "eof|err", p.span)
            # an error needs a cause: a failed operation or a failed test on this path
            cause = any(f == ("eq", "Err") and v.op in ("call", "pure") and re.search(r"read|parse|from_utf8", v.a[0]) for v, f in p.facts.items())
            cause = cause or any(f == ("eq", "0") and v.op in ("call", "pure") and v.a[0].endswith("ends_with") for v, f in p.facts.items())
            cause = cause or any(f == ("eq", "None") and (v.op in ("call", "pure") and re.search(r"next$|split_once$|strip_suffix$", v.a[0]) or v is loopvar) for v, f in p.facts.items())
            c.ob("headers", "errors have a cause", cause, f"a well-formed message is refused with {show(p.ret)[:120]}", "headers|cause", p.span)
    for k, n in (("loop", 2), ("set", 1), ("eof", 1), ("msg", 1), ("err", 5)):
        c.floor(f"reader paths ({k})", cnt[k], n)
    c.rule("json", "a frame is decoded as JSON of a message of the protocol: undecodable text is an error, the end of input is the end of messages, and a decoded message is returned as it is")
    k = 0
    for proto in ("lsp", "dap"):
        for body in fn_by(P, r"%s::Message::read$" % proto, "sync_ls"):
            for p in c.paths_of(body, events=r"read_msg_text$|serde_json::from_", opaque=r"read_msg_text$"):
                if p.end in ("panic", "diverge"):
                    c.ob("json", proto, False, "reading can panic", f"json|{proto}|panic", p.span)
                    continue
                k += 1
                r = evs(p, r"read_msg_text$")
                j = evs(p, r"serde_json::from_")
                rr = p.variant(r[0].res) if r else None
                rv = p.variant(p.ret)
                if len(r) != 1 or len(j) > 1:
                    c.ob("json", proto, False, f"{len(r)} frames, {len(j)} decodings", f"json|{proto}|count", p.span)
                elif rr == "Err":
                    c.ob("json", f"{proto} read error", rv == "Err" and not j, f"returns {show(p.ret)[:80]}", f"json|{proto}|err", p.span)
                elif j:
                    ok = mentions(j[0].args[0], lambda x: x is F(r[0].res, "+Ok", "0", "+Some", "0"))
                    if p.variant(j[0].res) == "Err":
                        ok = ok and rv == "Err"
                    else:
                        m = agg_field(agg_field(p.ret, "0"), "0") if rv == "Ok" and agg_variant(agg_field(p.ret, "0")) == "Some" else None
                        ok = ok and m is F(j[0].res, "+Ok", "0")
                    c.ob("json", f"{proto} decode", ok, f"decoding {p.variant(j[0].res)} returns {show(p.ret)[:100]}", f"json|{proto}|dec", p.span)
                else:
                    ok = rv == "Ok" and agg_variant(agg_field(p.ret, "0")) == "None" and p.variant(F(r[0].res, "+Ok", "0")) == "None"
                    c.ob("json", f"{proto} end", ok, f"returns {show(p.ret)[:100]} for the end of input", f"json|{proto}|end", p.span)
    c.floor("message read paths", k, 8)
    c.rule("kind", "a message read as one of a protocol is that message, of that protocol; the end of input and an error stay what they are")
    k = 0
    for proto, want in (("lsp", "Lsp"), ("dap", "Dap")):
        for body in fn_by(P, r"msg::Message::read_%s$" % proto, "sync_ls"):
            rd = r"%s::Message::read$" % proto
            for p in c.paths_of(body, events=r"Message::read$|read_msg_text$", opaque=r"(lsp|dap)::Message::read$"):
                k += 1
                es = evs(p, r"::Message::read$")
                ok = p.end == "return" and len(es) == 1 and re.search(rd, es[0].name) and es[0].args[0] is mk("arg", "reader")
                if ok:
                    res = es[0].res
                    if p.variant(res) == "Err":
                        ok = p.variant(p.ret) == "Err" and payload_of(p.ret, "Err") is F(res, "+Err", "0")
                    elif p.variant(F(res, "+Ok", "0")) == "None":
                        ok = p.variant(p.ret) == "Ok" and p.variant(payload_of(p.ret, "Ok")) == "None"
                    else:
                        x = payload_of(payload_of(p.ret, "Ok"), "Some") if p.variant(p.ret) == "Ok" else None
                        ok = x is not None and x.op == "agg" and x.a[2] == want and x.a[4] is F(res, "+Ok", "0", "+Some", "0")
                c.ob("kind", proto, bool(ok), f"{p.end}: {show(p.ret)[:120]}", f"kind|{proto}", p.span)
    c.floor("paths of reading a kind", k, 6)


def has_strip(p):
    return any(v.op in ("call", "pure") and v.a[0].endswith("strip_suffix") and any(const_of(a) == "\r\n" for a in v.a[1]) and f == ("eq", "Some") for v, f in p.facts.items())


def empty_line(p):
    """a fact of the path says that the last header line, without its CRLF, is empty"""
    for v, f in p.facts.items():
        line = None
        if v.op in ("call", "pure") and v.a[0].endswith("is_empty") and f == ("eq", "1"):
            line = v.a[1][0]
        elif v.op == "bin" and v.a[0] == "Eq" and f == ("eq", "1"):
            for a, o in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if is_const(a) and const_of(a) in ("", "\r\n"):
                    if const_of(a) == "\r\n" and mentions(o, lambda x: x.op == "call" and x.a[0].endswith("read_line")):
                        return True
                    line = o
                elif is_const(a) and str(const_of(a)) in ("0", "2") and len_of(o) is not None:
                    if str(const_of(a)) == "2":
                        return True
                    line = len_of(o)
        if line is None:
            continue
        if any(x.op == "proj" and x.a[0].op in ("call", "pure") and x.a[0].a[0].endswith("strip_suffix") for x in walk(line)):
            return True
        if has_call(line, r"trim_end"):
            return True
        for x in walk(line):
            if x.op in ("call", "pure") and re.search(r"index$|get$|get_unchecked$", x.a[0]):
                for y in walk(x.a[1][1] if len(x.a[1]) > 1 else x):
                    if y.op == "bin" and y.a[0].startswith("Sub") and str(const_of(y.a[2])) == "2" and len_of(y.a[1]) is not None:
                        return True
    return False


# --------------------------------------------------------------------- W03
SHAPES = {  # type -> {json name: (field, 'always' | 'some' | 'nonnull')}
    "lsp::Request": {"id": ("id", "always"), "method": ("method", "always"), "params": ("params", "nonnull")},
    "lsp::Response": {"id": ("id", "always"), "result": ("result", "some"), "error": ("error", "some")},
    "lsp::Notification": {"method": ("method", "always"), "params": ("params", "nonnull")},
    "msg::ResponseError": {"code": ("code", "always"), "message": ("message", "always"), "data": ("data", "some")},
}
REQUIRED = {"lsp::Request": ("id", "method"), "lsp::Response": ("id",), "lsp::Notification": ("method",), "msg::ResponseError": ("code", "message")}


@check("W03")
def w03(c):
    P = program()
    self_ = mk("arg", "self")
    c.rule("write", "serializing a request, response, notification or error emits exactly the members of the protocol, each with its field's value; an absent result, error or data and null params are omitted, nothing else is")
    c.rule("read", "each member of the protocol is read into its field; unknown members are ignored; a missing id, method, code or message is an error, missing params are null")
    for ty, shape in SHAPES.items():
        bs = fn_by(P, r"<%s as serde::Serialize>::serialize$" % ty, "sync_ls")
        if not c.anchor(f"Serialize for {ty}", bs):
            continue
        n = 0
        for p in c.paths_of(bs[0], events=r"serialize_field$|skip_field$|serialize_entry$|SerializeStruct::end$|serialize_struct$"):
            fs = evs(p, r"serialize_field$|serialize_entry$")
            bad = [e for e in fs if p.variant(e.res) == "Err"]
            if bad or p.end != "return" or not (evs(p, r"::end$")):
                ok = p.end != "return" or p.variant(p.ret) == "Err"
                c.ob("write", f"{ty} failure", ok, "a failed member is reported as success", f"write|{ty}|fail", p.span)
                continue
            n += 1
            got = {}
            for e in fs:
                nm = const_of(e.args[1])
                c.ob("write", f"{ty}.{nm}", nm in shape and nm not in got and e.args[2] is F(self_, shape[nm][0]), f"writes member {nm!r} = {show(e.args[2])[:60]}", f"write|{ty}|{nm}", e.span)
                got[nm] = e
            for nm, (fld, mode) in shape.items():
                v = F(self_, fld)
                if nm in got:
                    continue
                ok = mode == "some" and p.variant(v) == "None" or mode == "nonnull" and is_null(p, v)
                c.ob("write", f"{ty}.{nm} omitted", ok, f"member {nm!r} is omitted although it has a value", f"write|{ty}|{nm}|omit", p.span)
            for nm in got:
                fld, mode = shape.get(nm, (nm, ""))
                v = F(self_, fld)
                if mode == "some" and p.variant(v) != "Some" or mode == "nonnull" and not not_null(p, v):
                    c.ob("write", f"{ty}.{nm} present", False, f"member {nm!r} is written although it may be absent", f"write|{ty}|{nm}|null", p.span)
        c.floor(f"serialized shapes of {ty}", n, 1 if not any(m != "always" for _, m in shape.values()) else 2)
        # field names on input
        vs = fn_by(P, r"for %s>::deserialize::__FieldVisitor as serde::de::Visitor>::visit_str$" % ty, "sync_ls")
        names = {}
        if c.anchor(f"field names of {ty}", vs):
            for p in c.paths_of(vs[0]):
                if p.end != "return":
                    continue
                pos = [s for (v, s), bl in str_tests(p).items() if bl]
                k = [agg_variant(x) for x in walk(p.ret) if x.op == "agg" and str(agg_variant(x)).startswith("__")]
                if pos and k:
                    names[pos[0]] = k[0]
            ok = set(names) == set(shape) and "__ignore" not in names.values() and len(set(names.values())) == len(names)
            c.ob("read", f"{ty} members", ok, f"reads members {names}", f"read|{ty}|names")
        vm = fn_by(P, r"for %s>::deserialize::__Visitor as serde::de::Visitor>::visit_map$" % ty, "sync_ls")
        if c.anchor(f"reader of {ty}", vm):
            k = 0
            slot = {}
            ps = c.paths_of(vm[0], events=r"missing_field$|next_value|unwrap_or|default$", cut=r".")
            fields = [f for f, _ in shape.values()]
            for p in ps:
                if p.end == "return" and p.variant(p.ret) == "Ok":
                    r = agg_named(p.ret, ty)
                    if len(r) != 1:
                        c.ob("read", ty, False, f"builds {show(p.ret)[:100]}", f"read|{ty}|build", p.span)
                        continue
                    k += 1
                    for nm, (fld, mode) in shape.items():
                        v = agg_field(r[0], fld)
                        lv = [x for x in walk(v) if x.op == "loop"]
                        mf = [x for x in calls_in(v, r"missing_field$")]
                        if lv and not mf:
                            slot.setdefault(fld, lv[0])
                        elif mf:
                            ok = const_of(mf[0].a[1][0]) == nm
                            c.ob("read", f"{ty}.{nm} missing", ok, f"missing {nm} becomes {show(v)[:80]}", f"read|{ty}|{nm}|missing", p.span)
                        else:
                            d = mode == "nonnull" and (has_call(v, r"default$") or agg_variant(v) == "Null")
                            c.ob("read", f"{ty}.{nm} default", d and nm not in REQUIRED[ty], f"missing {nm} becomes {show(v)[:80]}", f"read|{ty}|{nm}|default", p.span)
            c.floor(f"read paths of {ty}", k, 1)
            for p in ps:
                if p.end != "loop":
                    continue
                key = [f[1] for v, f in p.facts.items() if f[0] == "eq" and str(f[1]).startswith("__field")]
                for fld, lv in slot.items():
                    nx = p.loop_next(lv)
                    nm = next((n_ for n_, (f_, _) in shape.items() if f_ == fld), fld)
                    if nx is not None and nx is not lv and has_call(nx, r"next_value"):
                        ok = len(key) == 1 and names.get(nm) == key[0]
                        c.ob("read", f"{ty}.{nm} value", ok, f"member stored into {nm} under key {key}, expected {names.get(nm)}", f"read|{ty}|{nm}|value", p.span)
    c.rule("kind", "a language-server message is read as a request if it has id and method, else as a response if it has an id, else as a notification; it is written as its content alone, with jsonrpc \"2.0\"")
    bs = fn_by(P, r"<lsp::Message as serde::Deserialize>::deserialize$", "sync_ls")
    if c.anchor("Deserialize for lsp::Message", bs):
        order = ["Request", "Response", "Notification"]
        seen = set()
        for p in c.paths_of(bs[0], events=r"deserialize_struct$|ContentRefDeserializer"):
            if p.end != "return" or p.variant(p.ret) != "Ok":
                continue
            m = agg_variant(agg_field(p.ret, "0"))
            tried = [const_of(e.args[1]) for e in evs(p, r"deserialize_struct$")]
            ok = m in order and tried == order[: order.index(m) + 1]
            seen.add(m)
            c.ob("kind", f"read {m}", ok, f"a message is read as {m} after trying {tried}", f"kind|{m}", p.span)
        c.floor("message kinds read", len(seen), 3)
    bs = fn_by(P, r"<lsp::Message as serde::Serialize>::serialize$", "sync_ls")
    if c.anchor("Serialize for lsp::Message", bs):
        k = 0
        for p in c.paths_of(bs[0], events=r"serde::Serialize>::serialize$|serialize_newtype_variant|serialize_map|serialize_struct$", opaque=r"<lsp::(Request|Response|Notification) as serde::Serialize>"):
            if p.end != "return":
                continue
            k += 1
            s = evs(p, r".")
            m = p.variant(self_)
            ok = len(s) == 1 and s[0].name.endswith("serde::Serialize>::serialize") and s[0].args[0] is F(self_, "+" + (m or "?"), "0") and p.ret is s[0].res
            c.ob("kind", f"write {m}", ok, f"{m} is written through {[e.name for e in s]}", f"kind|write|{m}", p.span)
        c.floor("message kinds written", k, 3)
    for proto in ("lsp", "dap"):
        bs = fn_by(P, r"<%s::Message::\w+::\w+ as serde::Serialize>::serialize$" % proto, "sync_ls")
        if c.anchor(f"{proto} envelope", bs):
            k = 0
            for p in c.paths_of(bs[0], events=r"serialize_entry$|serialize_field$|Serialize>::serialize$|SerializeMap::end$|SerializeStruct::end$"):
                if p.end != "return" or not evs(p, r"::end$"):
                    continue
                k += 1
                ent = [(const_of(e.args[1]), show(e.args[2])) for e in evs(p, r"serialize_entry$|serialize_field$")]
                inner = [e for e in evs(p, r"Serialize>::serialize$") if e.args[0] is F(self_, "msg")]
                ok = ent == [("jsonrpc", "($self).jsonrpc")] and len(inner) == 1 and "FlatMap" in show(inner[0].args[1])
                c.ob("kind", f"{proto} envelope", ok, f"writes {ent} and {len(inner)} flattened messages", f"kind|env|{proto}", p.span)
            c.floor(f"{proto} envelope paths", k, 1)
    c.rule("tag", "a debug-adapter message is tagged request, response or event under the key 'type'")
    bs = fn_by(P, r"<dap::Message as serde::Serialize>::serialize$", "sync_ls")
    if c.anchor("Serialize for dap::Message", bs):
        k = 0
        for p in c.paths_of(bs[0], events=r"serialize_tagged_newtype$", opaque="serialize_tagged_newtype$"):
            t = evs(p, r"serialize_tagged_newtype$")
            m = p.variant(self_)
            if len(t) != 1:
                c.ob("tag", f"{m}", False, f"{len(t)} tagged values", f"tag|{m}", p.span)
                continue
            k += 1
            consts = [const_of(a) for a in t[0].args if is_const(a)]
            ok = consts[-2:] == ["type", (m or "").lower()] and t[0].args[-1] is F(self_, "+" + (m or "?"), "0")
            c.ob("tag", f"write {m}", ok, f"{m} is tagged {consts}", f"tag|{m}", p.span)
        c.floor("tagged kinds", k, 3)
    vs = fn_by(P, r"for dap::Message>::deserialize::__FieldVisitor as serde::de::Visitor>::visit_str$", "sync_ls")
    if c.anchor("tags of dap::Message", vs):
        tags = {}
        for p in c.paths_of(vs[0]):
            pos = [s for (v, s), bl in str_tests(p).items() if bl]
            k = [agg_variant(x) for x in walk(p.ret) if x.op == "agg" and str(agg_variant(x)).startswith("__")]
            if pos and k:
                tags[pos[0]] = k[0]
        c.ob("tag", "read tags", set(tags) == {"request", "response", "event"}, f"reads tags {tags}", "tag|read")
        ds = fn_by(P, r"<dap::Message as serde::Deserialize>::deserialize$", "sync_ls")
        k = 0
        for p in c.paths_of(ds[0], events=r"TaggedContentVisitor|deserialize"):
            if p.end != "return" or p.variant(p.ret) != "Ok":
                continue
            m = agg_variant(agg_field(p.ret, "0"))
            fld = [f[1] for v, f in p.facts.items() if f[0] == "eq" and str(f[1]).startswith("__field")]
            ok = len(fld) == 1 and tags.get(str(m).lower()) == fld[0]
            k += 1
            c.ob("tag", f"read {m}", ok, f"tag {fld} is read as {m}", f"tag|read|{m}", p.span)
        c.floor("tagged kinds read", k, 3)
    c.rule("id", "a request id is written and read as the bare number or string it is")
    bs = fn_by(P, r"<msg::RequestId as serde::Serialize>::serialize$", "sync_ls")
    if c.anchor("Serialize for RequestId", bs):
        k = 0
        for p in c.paths_of(bs[0], events=r"serialize_(i32|str|newtype|u\d+|struct|map|unit)|Serialize>::serialize$"):
            if p.end != "return":
                continue
            ev = [e for e in p.events if e.kind == "call"]
            iv = p.variant(F(self_, "0"))
            k += 1
            ok = len(ev) == 1 and re.search(r"serialize_i32$|serialize_str$|Serialize>::serialize$", ev[0].name) and any(mentions(a, lambda x: x is F(self_, "0", "+" + (iv or "?"), "0")) for a in ev[0].args)
            c.ob("id", f"write {iv}", ok, f"an id is written through {[short(e.name) for e in ev]}", f"id|{iv}", p.span)
        c.floor("id forms written", k, 2)


def is_null(p, v):
    return p.variant(v) == "Null"


def not_null(p, v):
    f = p.facts.get(v)
    return f is not None and (f[0] == "ne" and "Null" in f[1] or f[0] == "eq" and f[1] != "Null")


# --------------------------------------------------------------------- W04
@check("W04")
def w04(c):
    P = program()
    c.rule("reader", "the reader thread hands over every message it reads, once, in order; it stops at the end of input, at a read error (which it reports) or after handing over an exit notification, and for no other reason")
    c.rule("writer", "the writer thread writes every message it receives, once, and stops only when the senders are gone or a write fails (which it reports)")
    c.rule("wiring", "the transport returns the sender the writer reads from, the receiver the reader feeds and the handles of the two threads")
    c.rule("drain", "after the server loop succeeded, the transport waits for the writer and reports its outcome; a failing loop is reported")
    b = fn_by(P, r"transport::io_transport$", "sync_ls")
    if not c.anchor("io_transport", b):
        return
    OPQ = r"msg::Message::(read_lsp|read_dap|write)$"
    base_ps = [p for p in c.paths_of(b[0], events=r"thread::spawn$|Builder::spawn|bounded$|unbounded$", cut=r".", hof=False) if p.end == "return"]
    done = False
    for p in base_ps[:1]:
        sp = evs(p, r"spawn")
        ch = evs(p, r"bounded$|unbounded$")
        ret = p.ret
        c.ob("wiring", "two threads, two channels", len(sp) == 2 and len(ch) == 2, f"{len(sp)} threads, {len(ch)} channels", "wiring|count", p.span)
        role = {}
        for e in sp:
            clo = next((a for a in e.args if a.op == "clo"), None)
            if clo is None:
                continue
            body, qs = run_closure(c, clo, 1, events=OPQ + r"|Sender::\w+$|try_for_each|from_lsp|::next$|recv$", opaque=OPQ, cut=r".")
            reads = any(evs(q, r"read_lsp$|read_dap$") for q in qs)
            role["reader" if reads else "writer"] = (e, clo, qs)
        if not c.ob("wiring", "roles", set(role) == {"reader", "writer"}, f"threads {sorted(role)}", "wiring|roles"):
            return
        snd = F(ret, "0") if ret.op != "agg" else agg_field(ret, "0")
        rcv = agg_field(ret, "1")
        thr = agg_field(ret, "2")
        rd, wr = role["reader"], role["writer"]
        okr = agg_field(thr, "reader") is rd[0].res and agg_field(thr, "writer") is wr[0].res
        c.ob("wiring", "handles", okr, f"handles {show(thr)[:120]}", "wiring|handles", p.span)
        caps_r, caps_w = closure_caps(rd[1]), closure_caps(wr[1])
        # sender returned pairs with receiver captured by the writer
        okw = snd.op == "proj" and any(x.op == "proj" and x.a[0] is snd.a[0] and x is not snd for x in caps_w)
        okv = rcv.op == "proj" and any(x.op == "proj" and x.a[0] is rcv.a[0] and x is not rcv for x in caps_r)
        c.ob("wiring", "outgoing channel", okw, "the returned sender is not the writer's channel", "wiring|out", p.span)
        c.ob("wiring", "incoming channel", okv, "the returned receiver is not the reader's channel", "wiring|in", p.span)
        k = defaultdict(int)
        for q in rd[2]:
            rds = evs(q, r"read_lsp$|read_dap$")
            snds = evs(q, r"Sender::(send|try_send|send_timeout)$")
            if not rds:
                c.ob("reader", "reads", False, "the reader stops without reading", "reader|noread", q.span)
                continue
            r0 = rds[-1].res
            out = q.variant(r0)
            some = q.variant(F(r0, "+Ok", "0"))
            if out == "Err":
                k["err"] += 1
                c.ob("reader", "read error", q.end == "return" and q.variant(q.ret) == "Err" and mentions(q.ret, lambda x: x is r0) and not snds, f"a read error gives {q.end} {show(q.ret)[:60]}", "reader|err", q.span)
            elif some == "None":
                k["eof"] += 1
                c.ob("reader", "end of input", q.end == "return" and q.variant(q.ret) == "Ok" and not snds, f"the end of input gives {q.end} {show(q.ret)[:60]}", "reader|eof", q.span)
            else:
                m = F(r0, "+Ok", "0", "+Some", "0")
                ok = len(snds) == 1 and snds[0].name.endswith("::send") and snds[0].args[1] is m
                c.ob("reader", "handed over", ok, f"{len(snds)} sends of a message that was read", "reader|send", q.span)
                if not ok:
                    continue
                if q.variant(snds[0].res) == "Err":
                    k["gone"] += 1
                    continue  # the receiver is gone: nobody is left to hand messages to
                ex = [bl for (v, s), bl in str_tests(q).items() if s == "exit" and mentions(v, lambda x: x is r0)]
                isn = any(f == ("eq", "Notification") and mentions(v, lambda x: x is r0) for v, f in q.facts.items())
                if q.end == "loop":
                    k["next"] += 1
                    c.ob("reader", "goes on", not any(ex), "the reader goes on after an exit notification", "reader|exit", q.span)
                else:
                    k["exit"] += 1
                    ok = q.end == "return" and any(ex) and isn and q.variant(q.ret) == "Ok"
                    c.ob("reader", "stops", ok, f"the reader stops ({q.end}) after a message that is not an exit notification", "reader|stop", q.span)
        for kk in ("err", "eof", "next", "exit"):
            c.floor(f"reader paths ({kk})", k[kk], 1)
        # protocol of the messages read
        for q in rd[2]:
            pk = [f[1] for v, f in q.facts.items() if f[0] == "eq" and f[1] in ("Lsp", "Dap") and not has_call(v, "read_")]
            nm = {e.name.rsplit("::", 1)[1] for e in evs(q, r"read_lsp$|read_dap$")}
            if pk and nm:
                c.ob("reader", f"reads {pk[0]}", nm == {"read_" + pk[0].lower()}, f"a {pk[0]} transport reads with {nm}", f"reader|proto|{pk[0]}", q.span)
        wrote = writer_paths(c, wr, [x for x in caps_w if x.op == "proj" and x.a[0] is snd.a[0]])
        c.floor("writer paths that write", wrote, 1)
        done = True
    c.floor("transport analysed", int(done), 1)
    b = fn_by(P, r"transport::with_stdio_transport_impl$", "sync_ls") or fn_by(P, r"transport::with_stdio_transport$", "sync_ls")
    if c.anchor("with_stdio_transport", b):
        k = 0
        for p in c.paths_of(b[0], events=r"call_once$|join_write$|IoThreads::join$|JoinHandle::join$|io_transport$", opaque=r"io_transport$|IoThreads::join(_write)?$"):
            if p.end != "return":
                continue
            f = [e for e in evs(p, r"call_once$") if e.args[0] is mk("arg", "f")]
            j = evs(p, r"join_write$|IoThreads::join$|JoinHandle::join$")
            if len(f) != 1:
                c.ob("drain", "server loop", False, f"the server loop runs {len(f)} times", "drain|loop", p.span)
                continue
            k += 1
            if p.variant(f[0].res) == "Err":
                c.ob("drain", "loop failed", p.variant(p.ret) == "Err", "a failing loop is reported as success", "drain|fail", p.span)
            elif p.variant(p.ret) == "Ok" or p.variant(p.ret) is None:
                ok = len(j) == 1 and j[0].n > f[0].n and (p.variant(j[0].res) == "Ok" or mentions(p.ret, lambda x: x is j[0].res))
                c.ob("drain", "loop succeeded", ok, "returns without waiting for the writer", "drain|join", p.span)
            conn = agg_field(f[0].args[1], "0") if f[0].args[1].op == "agg" else f[0].args[1]
            io = evs(p, r"io_transport$")
            ok = len(io) == 1 and mentions(conn, lambda x: x is F(io[0].res, "0")) and mentions(conn, lambda x: x is F(io[0].res, "1"))
            c.ob("drain", "connection", ok, "the connection is not the transport's", "drain|conn", p.span)
        c.floor("stdio transport paths", k, 2)
    b = fn_by(P, r"IoThreads::join_write$", "sync_ls")
    if c.anchor("join_write", b):
        for p in c.paths_of(b[0], events=r"JoinHandle::join$"):
            j = evs(p, r"JoinHandle::join$")
            ok = len(j) == 1 and j[0].args[0] is F(mk("arg", "self"), "writer")
            if ok and p.end == "return":
                ok = p.ret is F(j[0].res, "+Ok", "0") or p.variant(p.ret) == "Err"
            c.ob("drain", "join_write", ok, f"joins {[show(e.args[0]) for e in j]} and returns {show(p.ret)[:60]}", "drain|join_write", p.span)

    b = fn_by(P, r"IoThreads::join$", "sync_ls")
    if c.anchor("join", b):
        for p in c.paths_of(b[0], events=r"JoinHandle::join$"):
            if p.end != "return":
                continue  # a thread that panicked
            j = evs(p, r"JoinHandle::join$")
            of = {e.args[0]: e.res for e in j}
            rd, wr = of.get(F(mk("arg", "self"), "reader")), of.get(F(mk("arg", "self"), "writer"))
            last = wr is not None and p.ret is F(wr, "+Ok", "0")
            if p.variant(p.ret) == "Err" and not last:
                ok = any(x is not None and p.variant(F(x, "+Ok", "0")) == "Err" and mentions(p.ret, lambda v: v is F(x, "+Ok", "0", "+Err", "0")) for x in (rd, wr))
            else:
                ok = rd is not None and wr is not None and len(j) == 2 and p.variant(F(rd, "+Ok", "0")) == "Ok" and (last or p.variant(F(wr, "+Ok", "0")) == "Ok")
            c.ob("drain", "join", ok, f"joins {[show(e.args[0]) for e in j]} and returns {show(p.ret)[:80]}", "drain|joinboth", p.span)
    b = fn_by(P, r"transport::with_stdio_transport$", "sync_ls")
    if b and fn_by(P, r"transport::with_stdio_transport_impl$", "sync_ls"):
        k = 0
        for p in c.paths_of(b[0], events=r"with_stdio_transport_impl$|get_message_kind$", opaque=r"with_stdio_transport_impl$"):
            e, g = evs(p, r"with_stdio_transport_impl$"), evs(p, r"get_message_kind$")
            ok = p.end == "return" and len(e) == 1 and p.ret is e[0].res and e[0].args[0] is mk("arg", "args") and e[0].args[1] in [x.res for x in g]
            k += 1
            c.ob("drain", "typed transport", ok, f"runs {[[show(a)[:60] for a in x.args] for x in e]} and returns {show(p.ret)[:80]}", "drain|typed", p.span)
        c.floor("typed transports", k, 1)


ITERS = re.compile(r"Receiver(<.*>)?::(iter|into_iter)$|IntoIterator>?::into_iter$|Iterator>?::(inspect|fuse|by_ref)$")


def chan_source(v):
    """the channel end an iterator or a received message comes from, if nothing is skipped on the way"""
    while True:
        if v.op in ("mut", "loop"):
            v = v.a[2] if v.op == "mut" else v.a[3]
        elif v.op in ("call", "pure") and ITERS.search(v.a[0]):
            v = v.a[1][0]
        else:
            return v


def writer_paths(c, wr, rcv):
    """obligations of the writer thread: every message of the channel is written once; errors end it and are its result"""
    OPQ = r"msg::Message::write$"
    wrote = 0
    for q in wr[2]:
        if q.end in ("panic", "diverge"):
            c.ob("writer", "no panic", False, f"the writer can panic: {show(q.ret)[:80]}", "writer|panic", q.span)
            continue
        tf = evs(q, r"Iterator>?::try_for_each$")
        if tf:
            e = tf[0]
            ok = len(tf) == 1 and chan_source(e.args[0]) in rcv
            c.ob("writer", "every message", ok, f"writes the messages of {show(e.args[0])[:120]}", "writer|filter", q.span)
            ok = q.end == "return" and (q.ret is e.res or q.variant(q.ret) == q.variant(e.res) is not None)
            c.ob("writer", "result", ok, f"the writer ends with {show(q.ret)[:80]}", "writer|result", q.span)
            clo = e.args[1]
            if clo.op != "clo":
                c.ob("writer", "writes", False, f"messages are handed to {show(clo)[:80]}", "writer|clo", q.span)
                continue
            _, qs = run_closure(c, clo, 2, events=OPQ, opaque=OPQ)
            for r in qs:
                w = evs(r, OPQ)
                if r.end != "return" or len(w) != 1:
                    c.ob("writer", "written once", False, f"{len(w)} writes of a received message ({r.end})", "writer|once", r.span)
                    continue
                wrote += 1
                item = w[0].args[0]
                ok = item.op == "arg"
                c.ob("writer", "received message", ok, f"writes {show(item)[:80]}", "writer|src", r.span)
                ok = r.ret is w[0].res or r.variant(r.ret) is not None and r.variant(r.ret) == r.variant(w[0].res)
                c.ob("writer", "failure", ok, f"a write that ends with {r.variant(w[0].res) or 'any outcome'} gives {show(r.ret)[:80]}", "writer|fail", r.span)
            continue
        w = evs(q, OPQ)
        nx = evs(q, r"Iterator>?::next$|Receiver(<.*>)?::recv$")
        got = [e for e in nx if q.variant(e.res) in ("Some", "Ok")]
        if not got:
            ok = q.end == "return" and not w and nx and always_variant(wr[2], q, q.ret, "Ok")
            c.ob("writer", "end", ok, "the writer ends before the senders are gone", "writer|end", q.span)
            continue
        e = got[-1]
        ok = len(w) == 1 and chan_source(e.args[0]) in rcv and w[0].args[0] is F(e.res, "+" + q.variant(e.res), "0")
        c.ob("writer", "every message", ok, f"{len(w)} writes of a received message", "writer|once", q.span)
        if not ok:
            continue
        wrote += 1
        o = q.variant(w[0].res)
        if q.end == "loop":
            c.ob("writer", "failure", o == "Ok", "the writer goes on after a failed write", "writer|fail", q.span)
        else:
            ok = q.end == "return" and o == "Err" and q.variant(q.ret) == "Err" or q.ret is w[0].res and o == "Err"
            c.ob("writer", "stops", ok, f"the writer stops after a write that ended with {o}", "writer|stop", q.span)
    return wrote


def closure_caps(clo):
    return [x for x in clo.a if isinstance(x, V)] + [x for t in clo.a if isinstance(t, tuple) for x in t if isinstance(x, V)]


# --------------------------------------------------------------------- W05
@check("W05")
def w05(c):
    P = program()
    c.rule("read", "recording: every read returns what the inner reader returned, and exactly the bytes it delivered are recorded, once; a failing record does not disturb the session")
    c.rule("consume", "recording: consuming n bytes consumes exactly n bytes of the inner reader and records exactly these bytes, read before they are consumed; looking at the buffer records nothing")
    M = mk("arg", "self")
    inner, log = F(M, "0"), F(M, "1")
    W = r"io::Write>?::\w+$|io::Read>?::\w+$|BufRead>?::\w+$"
    cnt = defaultdict(int)
    for f in P.fns:
        if f["crate"] != "sync_ls" or "MirrorWriter" not in f["name"]:
            continue
        m = f["name"].rsplit("::", 1)[1]
        b = P.bodies.get((f["crate"], f["id"]))
        if b is None or m not in ("read", "fill_buf", "consume", "read_exact", "read_to_end"):
            continue
        for p in c.paths_of(b, events=W):
            ev = [e for e in p.events if e.kind == "call"]
            ri = [e for e in ev if root_of(e.args[0]) is inner]
            wi = [e for e in ev if root_of(e.args[0]) is log and not e.name.endswith("flush")]
            if p.end in ("panic", "diverge"):
                ok = m == "consume" and any(f_ == ("eq", "Err") and v.op == "call" and v.a[0].endswith("fill_buf") for v, f_ in p.facts.items()) or "slice" in show(p.ret) or "index" in show(p.ret)
                c.ob("read" if m == "read" else "consume", f"{m} panics", ok, f"{m} can panic: {show(p.ret)[:80]}", f"{m}|panic", p.span)
                continue
            cnt[m] += 1
            if m == "read":
                ok = len(ri) == 1 and ri[0].name.endswith("Read::read") or len(ri) == 1 and ri[0].name.endswith("::read")
                ok = ok and ri[0].args[1] is mk("arg", "buf")
                rv = p.variant(ri[0].res) if ok else None
                if rv == "Err":
                    ok = ok and p.variant(p.ret) == "Err" and not wi
                else:
                    n = F(ri[0].res, "+Ok", "0") if ri else None
                    ok = ok and p.variant(p.ret) == "Ok" and agg_field(p.ret, "0") is n and len(wi) == 1 and wi[0].name.endswith("write_all")
                    if ok:
                        d = wi[0].args[1]
                        idx = [x for x in walk(d) if x.op == "agg" and x.a[1].endswith("RangeTo")]
                        ok = bool(idx) and idx[0].a[4] is n and mentions(d, lambda x: x is mk("arg", "buf"))
                c.ob("read", "read", ok, f"inner reads {[short(e.name) for e in ri]}, records {[show(e.args[1])[:60] for e in wi]}, returns {show(p.ret)[:60]}", "read", p.span)
            elif m == "fill_buf":
                ok = len(ri) == 1 and ri[0].name.endswith("fill_buf") and not wi and p.ret is ri[0].res
                c.ob("consume", "fill_buf", ok, "looking at the buffer is not passed through unrecorded", "fill_buf", p.span)
            elif m == "consume":
                fb = [e for e in ri if e.name.endswith("fill_buf")]
                co = [e for e in ri if e.name.endswith("consume")]
                amt = mk("arg", "amt")
                ok = len(co) == 1 and co[0].args[1] is amt and len(fb) == 1 and fb[0].n < co[0].n and len(wi) == 1 and wi[0].n < co[0].n and wi[0].name.endswith("write_all")
                if ok:
                    d = wi[0].args[1]
                    idx = [x for x in walk(d) if x.op == "agg" and x.a[1].endswith("RangeTo")]
                    ok = bool(idx) and idx[0].a[4] is amt and mentions(d, lambda x: x is fb[0].res)
                c.ob("consume", "consume", ok, f"inner {[short(e.name) for e in ri]}, records {[show(e.args[1])[:60] for e in wi]}", "consume", p.span)
    for k, n in (("read", 2), ("fill_buf", 1), ("consume", 1)):
        c.floor(f"recording {k} paths", cnt[k], n)
    c.rule("source", "replaying reads the replay file and nothing else; recording truncates the mirror file and reads standard input; otherwise standard input is read unrecorded")
    b = fn_by(P, r"transport::with_stdio_transport_impl$", "sync_ls") or fn_by(P, r"transport::with_stdio_transport$", "sync_ls")
    k = set()
    if c.anchor("with_stdio_transport", b):
        for p in c.paths_of(b[0], events=r"io_transport$", opaque=r"io_transport$"):
            for e in evs(p, r"io_transport$"):
                clo = next((a for a in e.args if a.op == "clo"), None)
                if clo is None:
                    continue
                body, qs = run_closure(c, clo, 1, events=r"File::(open|create|options)$|io::stdin$|OpenOptions")
                for q in qs:
                    if q.end != "return":
                        continue
                    op, cr, si = evs(q, r"File::open$"), evs(q, r"File::create$|OpenOptions::open$"), evs(q, r"io::stdin$")
                    em = {}
                    for v, f in q.facts.items():
                        if v.op in ("call", "pure") and v.a[0].endswith("is_empty"):
                            n = next((x for x in ("replay", "mirror") if re.search(r"\b%s\b" % x, show(v.a[1][0]))), None)
                            if n:
                                em[n] = f == ("eq", "1")
                    mw = mentions(q.ret, lambda x: x.op == "agg" and x.a[1].endswith("MirrorWriter"))
                    if em.get("replay") is False:
                        k.add("replay")
                        ok = len(op) == 1 and "replay" in show(op[0].args[0]) and not cr and not si and not mw
                    elif em.get("mirror") is True:
                        k.add("plain")
                        ok = em.get("replay") is True and len(si) == 1 and not op and not cr and not mw
                    else:
                        k.add("mirror")
                        ok = em.get("replay") is True and len(si) == 1 and not op and len(cr) == 1 and "mirror" in show(cr[0].args[0]) and mw
                    c.ob("source", str(sorted(em.items())), ok, f"opens {len(op)}, creates {len(cr)}, stdin {len(si)}, records {mw}", f"source|{sorted(em.items())}", q.span)
            break
    c.floor("input sources", len(k), 3)


def root_of(v):
    while v.op in ("mut", "loop"):
        v = v.a[2] if v.op == "mut" else v.a[3]
    return v
