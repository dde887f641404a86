"""Column specifications: generator and independent resolver."""
import fnmatch
import re


class Bad(Exception):
    """the specification must be rejected"""


def single(rng, names, hdr, i):
    """some way of naming column i (0-based)"""
    w = len(names)
    r = rng.random()
    if hdr and r < 0.45:
        return names[i]
    if r < 0.8:
        return str(i + 1)
    return "+%d" % (w - i)


def glob_re(pat, icase=False):
    return re.compile("".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in pat) + r"\Z",
                      re.S | (re.I if icase else 0))


def matcher(rng, names):
    """a name matcher and the columns it selects"""
    if rng.random() < 0.15:
        t, cols = matcher(rng, names)
        if not t.startswith("not"):
            return "not." + t, [i for i in range(len(names)) if i not in cols]
        return t, cols
    n = rng.choice(names)
    k = rng.choice(["glob", "glob", "exact", "prefix", "suffix", "infix", "length", "regex"])
    if k == "regex":
        i = rng.randrange(len(n))
        pat = rng.choice(["^%s+%s$" % (n[:i + 1], n[i + 1:]), "%s+" % n[i:], "^" + n[:i + 1], n[i] + "." if i + 1 < len(n) else n[i] + "$"])
        return "regex,%s" % pat, [i for i, x in enumerate(names) if re.search(pat.replace("$", r"\Z"), x)]
    if k == "glob":
        pat = "".join(rng.choice(["*", "?", c, c, c, c]) for c in n)
        if rng.random() < 0.4:
            pat = rng.choice(["*%s*" % n[len(n) // 2], n[:2] + "*", "*" + n[-1], "*", "?" * len(n), "*%s*%s" % (n[0], n[-1])])
        rx = glob_re(pat)
        return "glob,%s" % pat, [i for i, x in enumerate(names) if rx.match(x)]
    if k == "exact":
        return "exact," + n, [i for i, x in enumerate(names) if x == n]
    if k == "prefix":
        p = n[:rng.randint(1, 2)]
        return "prefix," + p, [i for i, x in enumerate(names) if x.startswith(p)]
    if k == "suffix":
        p = n[-rng.randint(1, 2):]
        return "suffix," + p, [i for i, x in enumerate(names) if x.endswith(p)]
    if k == "infix":
        p = n[1:2] or n
        return "infix," + p, [i for i, x in enumerate(names) if p in x]
    a, b = sorted([rng.randint(1, 6), rng.randint(1, 6)])
    return "length,%d,%d" % (a, b), [i for i, x in enumerate(names) if a <= len(x) <= b]


def piece(rng, names, hdr, match=True):
    """(text, [columns]) for one range"""
    w = len(names)
    r = rng.random()
    if match and hdr and r < 0.2:
        m, cols = matcher(rng, names)
        return "(%s)" % m, cols
    a = rng.randrange(w)
    if r < 0.6:
        return single(rng, names, hdr, a), [a]
    b = rng.randrange(a, w)
    if r < 0.75:
        return "%s-%s" % (single(rng, names, hdr, a), single(rng, names, hdr, b)), list(range(a, b + 1))
    if r < 0.85:
        return "%s-" % single(rng, names, hdr, a), list(range(a, w))
    if r < 0.95:
        return "-%s" % single(rng, names, hdr, b), list(range(b + 1))
    return "-", list(range(w))


def spec(rng, names, hdr, rename=True, match=True):
    """(text, yes [(col, newname)], no-set) for one comma-separated list"""
    out, yes, no, anyyes = [], [], set(), False
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        t, cols = piece(rng, names, hdr, match)
        r = rng.random()
        if r < 0.2:
            out.append("~" + t)
            no |= set(cols)
            continue
        nm = ""
        if rename and r < 0.4:
            nm = rng.choice(["new", "other", "n_1", "zed"])
            t = nm + ":" + t
        anyyes = True
        out.append(t)
        yes += [(c, nm) for c in cols]
    return ",".join(out), resolve(yes, no, anyyes, len(names))


def resolve(yes, no, anyyes, w):
    if not anyyes:
        return [(c, "") for c in range(w) if c not in no]
    return [(c, n) for c, n in yes if c not in no]


def header(cols, names, dups):
    """output names for [(col,newname)]; raises Bad when duplicates are not allowed"""
    out = []
    for c, n in cols:
        n = n or names[c]
        if n in out:
            if dups == "fail":
                raise Bad("duplicate " + n)
            if dups == "numeric":
                k = 1
                while "%s%d" % (n, k) in out:
                    k += 1
                n = "%s%d" % (n, k)
        out.append(n)
    return out
