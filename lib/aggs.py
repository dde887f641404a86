"""Models of the aggregators (sum, mean, min, max, merge, prefix, suffix, count, counters)."""
import functools
import re

import model as M
from vf import s2b

COMPS = ["", "num", "float", "lower", "len", "rev", "rev.num", "num.rev", "lower.rev", "plain"]


def comp_of(spec):
    rev = "rev" in spec.split(".")
    m = [x for x in spec.split(".") if x != "rev"]
    m = m[0] if m else ""

    def cmp(a, b):
        x, y = M.method_key(m, a), M.method_key(m, b)
        c = (x > y) - (x < y)
        return -c if rev else c
    return cmp


def numcell(rng):
    r = rng.random()
    if r < 0.5:
        return str(rng.randint(-20, 200))
    if r < 0.75:
        return "%s%d.%d" % (rng.choice(["", "", "-", "+"]), rng.randint(0, 50), rng.randint(0, 99))
    if r < 0.85:
        return rng.choice(["1e3", "2.5e2", "1E-2", "12e0", "-3e1", "0.3", "0.1", "7e+1"])
    if r < 0.93:
        return rng.choice(["2k", "1K", "1.5k", "3M", "-2k", "1m", "2G", "5g"])
    if r < 0.97:
        return rng.choice(["", "abc", "12abc", "1e", "1.2.3", "-", "0"])
    if r < 0.985:
        return str(rng.randint(10 ** 9, 10 ** 10))
    return rng.choice(["9007199254740993", "4503599627370497.5", "2251799813685249.25", "1125899906842625.125", "0.1234567890123456789", "1e300",
                       "-4503599627370497.5", "1e-300", "123456789.123456789", "4294967296", "4294967297.5", "-2147483649"])


def pick(rng, kind):
    """-> spec (method[,pattern])"""
    r = rng.random()
    if kind == "num" and r < 0.45:
        return rng.choice(["sum", "sum", "mean", "avg"])
    if r < 0.55:
        m = rng.choice(["min", "max", "minimum", "maximum"])
        c = rng.choice(["num", "float", "", "rev.num", "len", "num.rev", "rev"] if kind == "plainnum"
                       else ["", "lower", "len", "rev", "lower.rev", "plain"])
        return m + ("," + c if c else "")
    if r < 0.62:
        return "prefix"
    if r < 0.69:
        return "suffix"
    if r < 0.77:
        return rng.choice(["count", "count,5", "count,-3", "count,0", "count,999"])
    if r < 0.88:
        return "%s,%s%s" % (rng.choice(["asum", "amin", "amax", "amean", "aavg"]), rng.choice(["", "utf8."]),
                            rng.choice(["chars", "swords", "awords"]))
    parts = []
    if rng.random() < 0.6:
        parts.append("sort")
    if rng.random() < 0.5:
        parts.append("uniq")
    x = rng.random()
    if x < 0.3:
        parts.append("count")
    elif x < 0.6:
        for o in rng.sample(["min_len:%d" % rng.randint(0, 3), "max_len:%d" % rng.randint(0, 4), "max_parts:%d" % rng.randint(1, 4)],
                            rng.randint(1, 3)):
            parts.append(o)
    if rng.random() < 0.4:
        parts.append("D" + rng.choice([",", ";"] if kind == "plainnum" else [",", ";", "b", "."]) + rng.choice([",", "|", ".", "-"]))
    rng.shuffle(parts)
    if rng.random() < 0.4:
        parts.append("comp:" + rng.choice(["num", "lower", "rev", "len", "rev.num"] if kind == "plainnum" else ["lower", "rev", "len", "lower.rev"]))
    return "merge" + ("," + ".".join(parts) if parts else "")


def counter(spec, b):
    u = "utf8" in spec.split(".")
    kind = [x for x in spec.split(".") if x != "utf8"][0]
    if u:
        t = b.decode("utf8", "replace")
        if kind == "chars":
            return len(t)
        if kind == "swords":
            return len(t.split()) if t.strip() else 0
        return len([x for x in "".join(c if c.isalnum() else " " for c in t).split(" ") if x])
    if kind == "chars":
        return len(b)
    if kind == "swords":
        return len(re.findall(rb"[\x21-\xff]+", b))
    return len(re.findall(rb"[0-9A-Za-z]+", b))


def eval(spec, vals, fmt=M.fmt_short):
    """bytes produced by the aggregator over the values"""
    method, _, pat = spec.partition(",")
    if method == "sum":
        return fmt(functools.reduce(lambda a, b: a + b, (M.f64(v) for v in vals), 0.0)).encode()
    if method in ("mean", "avg"):
        s = functools.reduce(lambda a, b: a + b, (M.f64(v) for v in vals), 0.0)
        return fmt(s / len(vals) if vals else 0.0).encode()
    if method in ("min", "minimum", "max", "maximum"):
        cmp = comp_of(pat)
        want = 1 if method.startswith("min") else -1
        best = None
        for v in vals:
            if best is None or cmp(best, v) == want:
                best = v
        return best or b""
    if method == "prefix":
        p = vals[0] if vals else b""
        for v in vals:
            while not v.startswith(p):
                p = p[:-1]
        return p
    if method == "suffix":
        p = vals[0] if vals else b""
        for v in vals:
            while not v.endswith(p):
                p = p[1:]
        return p
    if method == "count":
        return fmt(float(len(vals) + (int(pat) if pat else 0))).encode()
    if method in ("asum", "amin", "amax", "amean", "aavg"):
        c = [counter(pat, v) for v in vals]
        x = {"asum": sum, "amin": lambda z: min(z), "amax": lambda z: max(z),
             "amean": lambda z: sum(z) / len(z), "aavg": lambda z: sum(z) / len(z)}[method](c)
        return fmt(float(x)).encode()
    if method == "merge":
        return merge(pat, vals, fmt)
    raise ValueError(spec)


def merge(pat, vals, fmt):
    o = {"delim": b",", "out": b",", "max_parts": 1 << 60, "min": 0, "max": 1 << 60, "sort": 0, "uniq": 0, "count": 0, "comp": ""}
    p = pat
    while p:
        if p.startswith("comp:"):
            o["comp"] = p[5:]
            break
        if p[0] == "D":
            o["delim"], o["out"] = s2b(p[1]), s2b(p[2])
            p = p[4:]
            continue
        a, _, p = p.partition(".")
        if a in ("sort", "uniq", "count"):
            o[a] = 1
        elif a.startswith("min_len:"):
            o["min"] = int(a[8:])
        elif a.startswith("max_len:"):
            o["max"] = int(a[8:])
        else:
            o["max_parts"] = int(a[10:])
    data = o["delim"].join(v for v in vals if v)
    parts = data.split(o["delim"])
    if parts[-1] == b"":
        parts.pop()
    cmp = comp_of(o["comp"])
    if o["sort"]:
        parts.sort(key=functools.cmp_to_key(cmp))
    if o["uniq"]:
        u = []
        for x in parts:
            if not u or cmp(u[-1], x) != 0:
                u.append(x)
        parts = u
    if o["count"]:
        return fmt(float(len(parts))).encode()
    parts = [x for x in parts if o["min"] <= len(x) <= o["max"]]
    return o["out"].join(parts[:o["max_parts"]])
