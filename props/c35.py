"""C35: an option means the same in every spelling and at every place of the command line."""
import c26
from vf import Violation

ID = "C35"
QUICK, THOROUGH = 12000, 200000
CAP = 40
RULE = ("one case = a command line of any tool, taken from the generators of the other checks, and the same one written differently: options short or long, "
        "value attached, with =, or as the next word, flags bundled, files before, between or after the options (order of options and of files kept), after --, names of "
        "modes in any case, standard input named or implied; both runs must agree in status and output, and both or neither give a message; "
        "distinct = (tool, options, kinds of rewriting, status)")
ASSUMPTIONS = ["options written as the tools document them; clap's own conventions for - and --"]
SRC = list(c26.SRC)

# long name -> (short, takes a value, values in any case)
T, F = True, False
OPTS = {
    "binsearch": {"key": ("k", T), "filename": ("H", T), "context": ("C", T), "sub-delim": ("s", T)},
    "calc": {"fmt": ("f", T)},
    "cat": {"pad": ("p", T, 1), "remove": ("r", T), "skip": ("s", T), "number": ("n", T), "begin": ("b", F), "end": ("e", F)},
    "cgrep": {"pattern": ("p", T), "or": ("o", F), "invert": ("v", F), "location": ("l", T)},
    "cut": {"fields": ("f", T), "group": ("g", T), "expr": ("e", T), "composite": ("c", T), "dups": ("D", T, 1)},
    "filegen": {"lines": ("n", T), "column": ("c", T), "multi": ("m", T), "with-header": ("h", F)},
    "join": {"also": ("a", T), "file": ("f", T), "key": ("k", T), "output": ("o", T)},
    "paste": {"end": ("e", T, 1), "default": ("d", T), "last": ("l", F), "rename": ("r", T), "rename-sloppy": ("R", F), "dups": ("D", T, 1)},
    "sample": {"for": ("f", T), "sample": ("s", T), "range": ("r", T)},
    "sort": {"key": ("k", T), "unique": ("u", F), "merge": ("m", F), "check": ("c", F), "Check": ("C", T), "alt-sort": ("a", F), "alt-merge": ("A", F)},
    "tabs": {"end": ("e", F)},
    "transpose": {"head": ("h", F), "lines": ("n", T)},
    "uniq": {"agg": ("a", T), "agg-pre": ("", T), "agg-post": ("", T), "key": ("k", T), "count": ("c", T), "which": ("w", T)},
    "verify": {"report": ("r", T), "first": ("f", T), "last": ("l", T), "key": ("k", T), "sort": ("s", F), "unique": ("u", F), "pattern": ("p", T)},
    "wc": {"agg": ("a", T), "lines": ("l", F), "bytes": ("b", F), "chars": ("c", F), "words": ("w", F), "file": ("f", T), "with-header": ("h", T),
           "total": ("t", T), "format": ("F", T), "columns": ("C", F)},
}
GLOBAL = {"text-in": ("", T), "text-out": ("", T)}


def parse(args):
    """[(long name, value or None)], [positional]; None if not understood"""
    tool = args[0]
    if tool not in OPTS:
        return None
    o = dict(OPTS[tool], **GLOBAL)
    short = {v[0]: k for k, v in o.items() if v[0]}
    opts, pos, i = [], [], 1
    while i < len(args):
        a = args[i]
        i += 1
        if a.startswith("--") and len(a) > 2:
            n, eq, v = a[2:].partition("=")
            if n not in o:
                return None
            if not o[n][1]:
                if eq:
                    return None
                opts.append((n, None))
                continue
            if not eq:
                if i >= len(args):
                    return None
                v = args[i]
                i += 1
            opts.append((n, v))
        elif a.startswith("-") and a != "-" and a != "--":
            while True:
                n = short.get(a[1])
                if n is None:
                    return None
                if not o[n][1]:
                    opts.append((n, None))
                    a = "-" + a[2:]
                    if a == "-":
                        break
                    continue
                v = a[2:]
                if v.startswith("="):
                    v = v[1:]
                elif not v:
                    if i >= len(args):
                        return None
                    v = args[i]
                    i += 1
                opts.append((n, v))
                break
        elif a == "--":
            return None
        else:
            pos.append(a)
    return opts, pos


def spell(rng, o, n, v, kinds):
    s = o[n][0]
    if v is None:
        k = "short" if s and rng.random() < 0.5 else "long"
        kinds.add(k)
        return ["-" + s] if k == "short" else ["--" + n]
    if len(o[n]) > 2 and rng.random() < 0.5:
        v = rng.choice([v.upper(), v.lower(), v.capitalize()])
        kinds.add("case")
    ways = ["long="]
    plain = v and not v.startswith("-")
    if plain:
        ways.append("long")
    if s:
        if v:
            ways.append("short=")
        if plain:
            ways.append("short")
            if not v.startswith("="):
                ways.append("attached")
    k = rng.choice(ways)
    kinds.add(k)
    return {"long=": ["--%s=%s" % (n, v)], "long": ["--" + n, v], "short=": ["-%s=%s" % (s, v)], "short": ["-" + s, v], "attached": ["-%s%s" % (s, v)]}[k]


def rewrite(rng, args, files, stdin):
    p = parse(args)
    if p is None:
        return None
    opts, pos = p
    tool, o, kinds = args[0], dict(OPTS[args[0]], **GLOBAL), set()
    words = []
    for n, v in opts:
        w = spell(rng, o, n, v, kinds)
        if words and len(w) == 1 and len(words[-1]) == 1 and v is None and w[0][1] != "-" and words[-1][1:] == [] and words[-1][0][0] == "-" \
                and words[-1][0][1] != "-" and len(words[-1][0]) == 2 and not o[{x[0]: k for k, x in o.items()}[words[-1][0][1]]][1] and rng.random() < 0.5:
            words[-1] = [words[-1][0] + w[0][1:]]
            kinds.add("bundle")
            continue
        words.append(w)
    if pos == ["-"] and tool not in ("binsearch", "filegen") and rng.random() < 0.5:
        pos = []
        kinds.add("stdin implied")
    elif not pos and tool not in ("binsearch", "filegen"):
        if rng.random() < 0.5:
            pos = ["-"]
            kinds.add("stdin named")
    out = [tool]
    r = rng.random()
    if r < 0.25 and all(not x.startswith("-") or x == "-" for x in pos):
        kinds.add("first")
        return out + pos + [x for w in words for x in w], kinds
    if r < 0.5:
        kinds.add("last")
        return out + [x for w in words for x in w] + pos, kinds
    if r < 0.7:
        kinds.add("--")
        return out + [x for w in words for x in w] + ["--"] + pos, kinds
    kinds.add("mixed")
    a, b = [[x] for x in pos], words
    while a or b:
        src = a if a and (not b or rng.random() < len(a) / (len(a) + len(b))) else b
        out += src.pop(0)
    return out, kinds


def gen(rng, idx, tier):
    for _ in range(50):
        a, f, s = c26.base(rng, idx, tier)
        if rng.random() < 0.1:
            a[1:1] = [rng.choice(["--text-in=m,", "--text-in=n\t", "--text-in=m;", "--text-out=m,", "--text-in", "--text-in=x\t"])]
            if a[1] == "--text-in":
                a[2:2] = ["m|"]
        v = rewrite(rng, a, f, s)
        if v and v[0] != a:
            return {"files": f, "args": a, "args2": v[0], "kinds": sorted(v[1]), "stdin": s}
    return {"files": {"f": "a\nb\n"}, "args": ["cat", "f"], "args2": ["cat", "--", "f"], "kinds": ["--"], "stdin": ""}


RANDOM = ("decimal", "normal", "random")


def outs(ctx, case):
    import os
    out = {}
    for n in sorted(os.listdir(ctx.dir)):
        p = os.path.join(ctx.dir, n)
        if n not in case["files"] and os.path.isfile(p) and not n.startswith("."):
            with open(p, "rb") as f:
                out[n] = f.read()
            os.unlink(p)
    return out


def judge(ctx, case):
    outs(ctx, case)
    r1 = ctx.sane(ctx.run(case["args"], stdin=case["stdin"].encode("latin-1")))
    o1 = outs(ctx, case)
    for n, d in case["files"].items():
        ctx.write(n, d)
    r2 = ctx.sane(ctx.run(case["args2"], stdin=case["stdin"].encode("latin-1")))
    o2 = outs(ctx, case)
    if r1.rc != r2.rc or bool(r1.err) != bool(r2.err):
        raise Violation("the same command line, written differently, ends differently", run=r1.brief(), other=r2.brief())
    rnd = case["args"][0] == "filegen" and any(x in a.lower() for a in case["args"] for x in RANDOM)
    if not rnd and (r1.out != r2.out or o1 != o2):
        raise Violation("the same command line, written differently, gives another result", run=r1.brief(), other=r2.brief(),
                        files1={k: v[:300].decode("latin-1") for k, v in o1.items()}, files2={k: v[:300].decode("latin-1") for k, v in o2.items()})
    ctx.count("rewritten_command_lines")
    ctx.count("failing_command_lines", int(r1.rc != 0))
    p = parse(case["args"])
    return "%s|%s|%s|%s" % (case["args"][0], sorted(set(n for n, _ in p[0])), case["kinds"], r1.rc)
