"""A Rust lexer and token trees, for sources that cannot be compiled here."""
import json, re
from collections import namedtuple

Tok = namedtuple("Tok", "k t line")  # k: id, life, str, num, char, p (punctuation) | g (group: t = (delimiter, [tokens]))
TOKEN = re.compile(r"""
 (?P<ws>\s+) | (?P<lc>//[^\n]*) | (?P<bc>/\*)
 | (?P<raw>(?:b|c)?r(?P<h>\#*)"(?s:.*?)"(?P=h))
 | (?P<str>(?:b|c)?"(?:\\(?s:.)|[^"\\])*")
 | (?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 | (?P<life>'[A-Za-z_]\w*)
 | (?P<id>(?:r\#)?[^\W\d]\w*)
 | (?P<num>\d\w*(?:\.\d\w*)?)
 | (?P<p>::|->|=>|\.\.=|\.\.\.|\.\.|==|!=|<=|>=|&&|\|\||.)
""", re.X)
CLOSE = {"(": ")", "[": "]", "{": "}"}


def lex(src):
    i, line, out = 0, 1, []
    while i < len(src):
        m = TOKEN.match(src, i)
        k, t = m.lastgroup, m.group(0)
        if k == "h":
            k = "raw"
        j = m.end()
        if m.group("bc"):
            d = 1
            while d and j < len(src):
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
        elif m.group("raw"):
            h = len(m.group("h"))
            out.append(Tok("str", t[t.index('"') + 1:len(t) - 1 - h], line))
        elif k == "str":
            out.append(Tok("str", unescape(t[t.index('"') + 1:-1]), line))
        elif k not in ("ws", "lc"):
            out.append(Tok(k, t, line))
        line += src.count("\n", i, j)
        i = j
    return out


def unescape(s):
    def f(m):
        e = m.group(1)
        if e[0] == "u":
            return chr(int(e[2:-1].replace("_", ""), 16))
        if e[0] == "x":
            return chr(int(e[1:], 16))
        if e[0] == "\n":
            return ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e, e)
    return re.sub(r"\\(u\{[^}]*\}|x[0-9a-fA-F]{2}|\n\s*|.)", f, s)


def trees(toks):
    """token trees: groups nested"""
    stack = [[]]
    opens = []
    for t in toks:
        if t.k == "p" and t.t in CLOSE:
            opens.append(t)
            stack.append([])
        elif t.k == "p" and t.t in CLOSE.values():
            o = opens.pop()
            g = stack.pop()
            stack[-1].append(Tok("g", (o.t, g), o.line))
        else:
            stack[-1].append(t)
    return stack[0]


def walk(ts):
    """(list, index) of every token, inside groups too"""
    for i, t in enumerate(ts):
        yield ts, i
        if t.k == "g":
            yield from walk(t.t[1])


def split(ts, sep=","):
    out = [[]]
    for t in ts:
        if t.k == "p" and t.t == sep:
            out.append([])
        else:
            out[-1].append(t)
    return [x for x in out if x]


def text(ts):
    out = []
    for t in ts:
        if t.k == "g":
            out.append(t.t[0] + text(t.t[1]) + CLOSE[t.t[0]])
        elif t.k == "str":
            out.append(json.dumps(t.t, ensure_ascii=False))
        else:
            out.append(t.t)
    return " ".join(out)


def parse(path):
    with open(path, encoding="utf-8") as f:
        return trees(lex(f.read()))
