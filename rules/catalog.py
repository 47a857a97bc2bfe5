"""The translation catalogs against the places that use them."""
import glob, json, os, re, subprocess
from core import check, REPO, HERE
import rlex


def catalog(path):
    """{key: {language: text}} of a translation file, read as the loader reads it"""
    out, key = {}, None
    bad = []
    with open(path, encoding="utf-8") as f:
        for n, line in enumerate(f, 1):
            s = line.strip()
            if not s or s.startswith("#"):
                continue
            if s.startswith("["):
                key = s[1:-1] if s.endswith("]") else None
                if key is not None and key.startswith('"'):
                    try:
                        key = json.loads(key)
                    except ValueError:
                        key = None
                if key is None or key in out:
                    bad.append((n, s))
                out.setdefault(key, {})
                continue
            lang, eq, text = s.partition("=")
            try:
                t = json.loads(text.strip())
            except ValueError:
                t = None
            if not eq or key is None or not isinstance(t, str) or lang.strip() in out[key]:
                bad.append((n, s))
            else:
                out[key][lang.strip()] = t
    return out, bad


def placeholders(s):
    return set(re.findall(r"\{([^{}]*)\}", s))


def rust_calls():
    """(file, line, macro, key, English text, argument names | None) of every use of a translation macro"""
    for f in sorted(glob.glob(REPO + "/crates/**/*.rs", recursive=True)):
        rel = os.path.relpath(f, REPO)
        if rel.startswith("crates/tinymist-l10n/"):
            continue
        with open(f, encoding="utf-8") as h:
            src = h.read()
        if "tinymist_l10n" not in src:
            continue
        for ts, i in rlex.walk(rlex.trees(rlex.lex(src))):
            if [t.t for t in ts[i:i + 2]] != ["tinymist_l10n", "::"] or len(ts) < i + 5 or ts[i + 2].t not in ("t", "bail") or ts[i + 3].t != "!" or ts[i + 4].k != "g":
                continue
            parts = rlex.split(ts[i + 4].t[1])
            lits = [p[0].t if len(p) == 1 and p[0].k == "str" else None for p in parts[:2]]
            args = [p[0].t for p in parts[2:] if len(p) > 2 and p[0].k == "id" and p[1].t == "="]
            yield rel, ts[i].line, ts[i + 2].t, (lits + [None, None])[0], (lits + [None, None])[1], args if len(args) == len(parts) - 2 else None


def ts_calls(d, *names):
    r = subprocess.run(["node", HERE + "/tools/calls.js", REPO + "/" + d, *names], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("calls.js: " + r.stderr[-500:])
    return [json.loads(x) for x in r.stdout.splitlines()]


@check("N05")
def n05(c):
    c.rule("catalog", "a translation file is well-formed: no key and no language of a key twice")
    c.rule("key", "the message a call site asks for is in the catalog, its English text is the one of the call site")
    c.rule("arguments", "every placeholder of a translation, in any language, is an argument the call site passes")
    c.rule("manifest", "every text the extension manifest refers to is in its catalog, in English at least")
    cats = {}
    for name in ("tinymist-rt", "tinymist-vscode-rt", "tinymist-vscode"):
        p = f"{REPO}/locales/{name}.toml"
        cats[name], bad = catalog(p)
        c.ob("catalog", name, not bad, f"line {bad[0][0]}: {bad[0][1]}" if bad else "", f"catalog|{name}", f"locales/{name}.toml:{bad[0][0] if bad else 1}")
        for k, t in cats[name].items():
            c.ob("catalog", f"{name} {k}", "en" in t, "no English text", f"catalog|{name}|{k}", f"locales/{name}.toml")
    n = 0
    for f, line, macro, key, text, args in rust_calls():
        n += 1
        at = f"{f}:{line}"
        ts = cats["tinymist-rt"].get(key)
        c.ob("key", f"{macro}! {key}", key is not None and text is not None and ts is not None, "the key or the text is no literal" if key is None or text is None else "not in locales/tinymist-rt.toml", f"key|{f}|{key}", at)
        if ts is None:
            continue
        c.ob("key", f"English text of {key}", ts.get("en") == text, f"{ts.get('en')!r} in the catalog, {text!r} at the call", f"english|{f}|{key}", at)
        for lang, t in [("the call", text)] + sorted(ts.items()):
            miss = placeholders(t or "") - set(args or [])
            c.ob("arguments", f"{key} in {lang}", not miss, f"the text uses {sorted(miss)}, the call passes {args}", f"arguments|{f}|{key}|{lang}", at)
    c.floor("calls of translation macros", n, 12)
    m = 0
    for x in ts_calls("editors/vscode/src", "l10nMsg"):
        m += 1
        f, key = os.path.relpath(x["file"], REPO), x["args"][0] if x["args"] else None
        if f.endswith("src/l10n.ts"):
            continue
        args = x["args"][1]["keys"] if len(x["args"]) > 1 and x["args"][1] else []
        ts = cats["tinymist-vscode-rt"].get(key)
        at = f"{f}:{x['line']}"
        c.ob("key", f"l10nMsg {key}", isinstance(key, str) and ts is not None, "not in locales/tinymist-vscode-rt.toml", f"key|{f}|{key}", at)
        if ts is None:
            continue
        c.ob("key", f"English text of {key}", ts.get("en") == key, f"{ts.get('en')!r}", f"english|{f}|{key}", at)
        for lang, t in sorted(ts.items()):
            miss = placeholders(t) - set(args)
            c.ob("arguments", f"{key} in {lang}", "..." in args or not miss, f"the text uses {sorted(miss)}, the call passes {args}", f"arguments|{f}|{key}|{lang}", at)
    c.floor("calls of l10nMsg", m, 10)
    with open(REPO + "/editors/vscode/package.json", encoding="utf-8") as h:
        used = set(re.findall(r'"%([^%"]+)%"', h.read()))
    for k in sorted(used):
        c.ob("manifest", k, k in cats["tinymist-vscode"], "not in locales/tinymist-vscode.toml", f"manifest|{k}", "editors/vscode/package.json")
    c.floor("texts of the manifest", len(used), 100)
