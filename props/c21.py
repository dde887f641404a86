"""C21: numbers are read at their exact value and written so that they read back the same."""
import model as M
from vf import Violation, s2b

ID = "C21"
QUICK, THOROUGH = 14000, 300000
CAP = 40
RULE = ("one case = 1-12 number texts (up to 40 digits, exponents, signs, suffix letters, trailing junk) read as column values, or 1-12 doubles "
        "written in one of the formats, or integers with suffixes; reading is compared bit for bit with correctly rounded decimal conversion, writing with "
        "shortest round-trip or correctly rounded decimals; distinct = (kind, format, shapes of the numbers)")
ASSUMPTIONS = ["one suffix letter multiplies by a power of 1000 (lower case) or 1024 (upper case)"]


def numtext(rng):
    r = rng.random()
    s = rng.choice(["", "", "", "-", "+"])
    digs = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    a = digs(rng.choice([0, 1, 1, 2, 3, 5, 16, 17, 25, 40]))
    if r < 0.4:
        s += a
    else:
        s += a + "." + digs(rng.choice([0, 1, 2, 3, 8, 17, 30]))
    if rng.random() < 0.35:
        s += rng.choice("eE") + rng.choice(["", "+", "-"]) + rng.choice(["0", "1", "2", "10", "15", "22", "23", "100", "300", "308", "320", "400", "05", "", "99999999999"])
    if rng.random() < 0.25:
        s += rng.choice("KMGTPEZYkmgtpezy")
    if rng.random() < 0.15:
        s += rng.choice([" ", "x", "kk", "..", "abc", "-", "_1", ",5"])
    if rng.random() < 0.05:
        s = rng.choice(["", "abc", "-", "+", ".", "e5", "-x", "k", "inf", "nan", "NaN", "infinity", "0x10", "1e", "1e+", "--5"])
    return s


def double(rng):
    r = rng.random()
    if r < 0.3:
        return float(rng.randint(0, 5000))
    if r < 0.45:
        return rng.choice([0.0001, 0.00009999999, 999.9999, 1000.0, 999.0, 999.4, 999.5, 1023.0, 1024.0, 1099.0, 1100.0, 1126.0, 1127.0, 9999.0, 10000.0, 10240.0,
                           998999.0, 999000.0, 999499.0, 999500.0, 1022976.0, 1e6, 1e15, 1e21, 1e22, 1e23, 1e24, 9.99e26, 1.5e30, 5e-324, 1.7976931348623157e308, 0.5, 1.5, 2.5, 0.25, 0.125])
    if r < 0.75:
        return rng.random() * 10.0 ** rng.randint(-8, 28)
    return float("%d.%d" % (rng.randint(0, 10 ** rng.randint(1, 9)), rng.randint(0, 9999)))


def gen(rng, idx, tier):
    kind = rng.choice(["read", "read", "write", "write", "int", "bad", "total"])
    if kind == "read":
        vals = [numtext(rng) for _ in range(rng.randint(1, 12))]
        return {"kind": kind, "vals": vals, "files": {"f0": "".join("q\t%s\n" % v for v in vals)}}
    if kind == "write":
        vals = [[double(rng), rng.random() < 0.25] for _ in range(rng.randint(1, 12))]
        fmt = rng.choice(["plain", "short", "float", "Plain", "power2", "p2", "power10", "p10", "P10", "plain.%d" % rng.randint(0, 6), "float.%d" % rng.randint(0, 6),
                          "short.%d" % rng.randint(0, 6), None])
        return {"kind": kind, "vals": vals, "fmt": fmt, "inline": rng.random() < 0.3,
                "files": {"f0": "".join("%s%r\n" % ("-" if n else "", v) for v, n in vals)}}
    if kind == "int":
        s = rng.choice(["", "-", "+"]) + str(rng.choice([0, 1, 7, 12, 999, 5000, 2 ** 31, 2 ** 53, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 10 ** 20])) + \
            rng.choice(["", "", "", "k", "K", "m", "M", "g", "G", "t", "T", "p", "P", "e", "E"])
        return {"kind": kind, "spec": s, "files": {"f0": "x\n" * rng.randint(1, 3)}}
    if kind == "total":
        vals = [[rng.randint(0, 10 ** rng.randint(1, 6)) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))]
        return {"kind": kind, "vals": vals, "fmt": rng.choice(["plain", "short", "float", "power2", "power10", "plain.2", "float.3"]),
                "files": {"f%d" % i: "".join("%d\n" % x for x in v) for i, v in enumerate(vals)}}
    return {"kind": kind, "what": rng.choice(["fmt", "int"]), "spec": rng.choice(["5x", "x", "1.5", "5kk", "--5", "5 "]),
            "fmt": rng.choice(["flat", "plain.x", "plain.1x", "power3", "p", "float.-1", "short.a", "zz.3"]), "files": {"f0": "1\n"}}


def fmt(f, v):
    f = (f or "short").lower()
    name, _, p = f.partition(".")
    p = int(p) if p else None
    if name == "plain":
        return M.fmt_plain(v, p)
    if name == "float":
        return M.fmt_float(v, p)
    if name == "short":
        return M.fmt_short(v, p)
    return M.fmt_power(v, name in ("power2", "p2"))


def isnum(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def shape(s):
    out = ""
    for c in s:
        k = "9" if c.isdigit() else "a" if c.isalpha() else c
        if not out.endswith(k):
            out += k
    return out


def judge(ctx, case):
    kind = case["kind"]
    if kind == "read":
        r = ctx.good(["cut", "-e", "v:c2", "f0"])
        got = r.out.split(b"\n")[:-1]
        if len(got) != len(case["vals"]):
            raise Violation("wrong number of lines", run=r.brief())
        for g, t in zip(got, case["vals"]):
            w = M.f64(s2b(t))
            if float(g) != w:
                raise Violation("%r was read as %s, should be %r" % (t, g.decode(), w), run=r.brief())
        ctx.count("numbers_read", len(got))
        return "read|" + "|".join(sorted(set(map(shape, case["vals"]))))[:80]
    if kind == "write":
        vals = [-v if n else v for v, n in case["vals"]]
        if case["fmt"] and case["inline"]:
            text = s2b(case["files"]["f0"]).decode()
            r = ctx.good(["calc", "-"], stdin=(case["fmt"] + "," + text).encode())
        else:
            r = ctx.good(["calc"] + (["--fmt=" + case["fmt"]] if case["fmt"] else []) + ["f0"])
        f = (case["fmt"] or "short").lower()
        got = r.out.decode("latin-1").split("\n")
        want = [fmt(case["fmt"], v) for v in vals] + [""]
        if f in ("plain", "short", "float") and len(got) == len(want):
            # two shortest representations can be equally close
            for i, v in enumerate(vals):
                if len(got[i]) == len(want[i]) and ("e" in got[i]) == ("e" in want[i]) and isnum(got[i]) and float(got[i]) == v:
                    want[i] = got[i]
        ctx.expect("formatted numbers (%s)" % case["fmt"], r.out, "\n".join(want).encode(), r)
        if f in ("plain", "short", "float"):
            back = [float(x) for x in r.out.split()]
            ctx.expect("numbers do not read back the same", repr(back).encode(), repr(vals).encode(), r)
        ctx.count("numbers_written", len(vals))
        return "write|%s|%s" % (case["fmt"], "|".join(sorted(set(shape(fmt(case["fmt"], v)) for v in vals)))[:60])
    if kind == "int":
        n = len(case["files"]["f0"]) // 2
        s = case["spec"]
        mul = 1
        if s[-1].isalpha():
            i = "kmgtpe".index(s[-1].lower()) + 1
            mul = 1000 ** i if s[-1].islower() else 1024 ** i
            s = s[:-1]
        neg = s.startswith("-")
        v = min(min(int(s.lstrip("+-")), 2 ** 63 - 1) * mul, 2 ** 63 - 1)
        v = -v if neg else v
        v = min(v + n, 2 ** 63 - 1)
        r = ctx.good(["uniq", "-k", "1", "--agg-post=x,1,count," + case["spec"], "f0"])
        ctx.expect("integer %s plus %d" % (case["spec"], n), r.out, b"x\t" + fmt("short", float(v)).encode() + b"\n", r)
        ctx.count("integers_read")
        return "int|" + case["spec"]
    if kind == "total":
        args = ["wc", "--count=s,asum,num", "--format=" + case["fmt"], "--header=no"] if False else ["wc", "--lines=a", "--format=" + case["fmt"]]
        names = sorted(case["files"])
        r = ctx.sane(ctx.run(["wc", "--format=" + case["fmt"], "--total=only"] + names))
        want = fmt(case["fmt"], float(sum(len(v) for v in case["vals"]))) + "\n"
        ctx.expect("formatted total", r.out.split(b"\n")[-2] + b"\n" if r.out else b"", want.encode(), r)
        ctx.count("numbers_written")
        return "total|%s|%d" % (case["fmt"], len(names))
    if case["what"] == "fmt":
        ctx.bad(["calc", "--fmt=" + case["fmt"], "f0"])
    else:
        ctx.bad(["uniq", "-k", "1", "--agg-post=x,1,count," + case["spec"], "f0"])
    ctx.count("refused")
    return "bad|" + case["what"] + case["fmt"] + case["spec"]
