"""C34: no unsafe code, in compiled code (HIR/THIR of every configuration) and in code switched off by features (token scan)."""
import json, os, re
import build


def strip(src):
    """comments, strings and character literals removed, newlines kept"""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    if src[j] == "\n":
                        out.append("\n")
                    j += 1
            i = j
            continue
        m = re.match(r'b?r(#*)"', src[i:]) if c in "br" and not (i and (src[i - 1].isalnum() or src[i - 1] == "_")) else None
        if m:
            j = src.find('"' + m.group(1), i + m.end())
            j = n if j < 0 else j + 1 + len(m.group(1))
            out.append("\n" * src.count("\n", i, j))
            i = j
            continue
        if c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append("\n" * src.count("\n", i, j))
            i = j + 1
            continue
        m = re.match(r"'(\\.[^']*|[^\\'])'", src[i:]) if c == "'" else None
        if m:
            i += m.end()
            continue
        out.append(c)
        i += 1
    return "".join(out)


def drop_tests(s):
    """bodies of #[cfg(test)] items"""
    while True:
        m = re.search(r"#\s*\[\s*cfg\s*\(\s*test\s*\)\s*\]", s)
        if not m:
            return s
        j = m.end()
        while j < len(s) and s[j] not in "{;":
            j += 1
        if j < len(s) and s[j] == "{":
            d = 1
            j += 1
            while j < len(s) and d:
                d += {"{": 1, "}": -1}.get(s[j], 0)
                j += 1
        s = s[:m.start()] + "\n" * s.count("\n", m.start(), j) + s[j:]


def check(rep):
    d = build.dumps()
    for cfg in sorted(d):
        for crate in sorted(d[cfg]):
            j = json.load(open(d[cfg][crate]))
            rep.count("bodies", len(j["fns"]))
            key = "compiled code of %s (%s build)" % (crate, cfg)
            bad = [u for u in j["unsafe"] if u["src"] != "CompilerGenerated" and not (u["exp"] and "TrivialClone" in u["owner"])
                   and "format_args" not in u["owner"]]
            for u in bad:
                rep.bad(key + ": %s in %s" % (u["what"], u["owner"]), "%s in %s" % (u["what"], u["owner"]), "%s:%s" % (u["file"], u["line"]))
            if not bad:
                rep.ok(key)
    for root in ("src", "groth16/src"):
        for p, ds, fs in os.walk(os.path.join(build.REPO, root)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".rs"):
                    continue
                path = os.path.join(p, f)
                rel = os.path.relpath(path, build.REPO)
                if "/tests/" in rel:
                    continue
                s = drop_tests(strip(open(path).read()))
                hits = [s.count("\n", 0, m.start()) + 1 for m in re.finditer(r"(?<![\w])unsafe(?![\w])", s)]
                if hits:
                    rep.bad("tokens of " + rel, "the keyword unsafe occurs %d times" % len(hits), "%s:%d" % (rel, hits[0]))
                else:
                    rep.ok("tokens of " + rel)
