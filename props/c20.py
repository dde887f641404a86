"""C20: arithmetic expressions have their usual value, wherever they are used."""
import math
import re
import exprs as E
import gen as G
import model as M
from vf import Violation, s2b

ID = "C20"
QUICK, THOROUGH = 40000, 600000
CAP = 40
RULE = ("one case = either a list of expressions given to calc, or a table and an expression over its columns given to cut, cgrep, sort (also checking and merging), uniq, join, "
        "binsearch, verify or an aggregator; values are compared with an independent evaluator, bit for bit except for transcendental functions (relative 1e-9); "
        "distinct = (use, operators and functions in the expression)")
ASSUMPTIONS = ["numbers have no suffix; column values are numbers, empty or without leading digits",
               "transcendental functions are compared on moderate arguments"]
BADEX = ["1+", "(1", "1)", "*2", "1,2", "nosuch(1)", "sin()", "atan2(1)", "sin(1,2)", "if(1,2)", "", "1=2", "2$3", "()", "max(1,,2)", "(1,2)", "1 2", "^3", "!", "@"]


def table(rng):
    w = G.width(rng, 1, 5)
    names = rng.sample(["aa", "bb", "c_c", "dd2", "x", "Y", "long_name_1", "val", "AA", "X", "y", "Long_name_1"] + (["q%d_" % i for i in range(w)] if w > 5 else []), w)
    rows = []
    for _ in range(rng.choice([1, 2, 3, 6, 12])):
        rows.append([rng.choice(["0", "1", "2", "3", "-1", "-2.5", "10", "0.5", "1e2", "", "zzz", "7", "12.25", "-0.125", "100000"]) for _ in range(w)])
    if rng.random() < 0.1 and len(rows) > 1:
        i = rng.randrange(1, len(rows))
        rows[i] = rows[i][:rng.randint(1, w)]
    if rng.random() < 0.01:
        rows = rows * 90
    return names, rows


def gen(rng, idx, tier):
    kind = rng.choice(["calc", "calc", "calc", "cut", "cut", "cgrep", "sort", "uniq", "agg", "agg", rng.choice(["check", "merge", "join", "search", "verify"])])
    if kind == "calc":
        items = []
        for _ in range(rng.randint(1, 12)):
            r = rng.random()
            if r < 0.12:
                s = E.broken(rng, E.expr(rng, [], rng.choice([0, 1, 2]))) if rng.random() < 0.7 else None
                items.append({"bad": s or rng.choice(BADEX)})
            elif r < 0.45:
                items.append({"t": E.trans(rng, []), "exact": False})
            else:
                items.append({"t": E.expr(rng, [], rng.choice([0, 1, 2, 3])), "exact": True})
        if "bad" in items[0] and items[0]["bad"] == "":
            items[0] = {"bad": "1+"}
        text = "".join(("".join(i["t"]) if "t" in i else i["bad"]) + "\n" for i in items)
        fmt = rng.choice([None, None, "plain", "float"])
        return {"kind": kind, "files": {"f0": text}, "items": items, "fmt": fmt, "args": ["calc"] + (["--fmt=" + fmt] if fmt else [])}
    names, rows = table(rng)
    use = []
    for i, n in enumerate(names):
        use.append(n)
        use.append("c%d" % (i + 1))
        use.append("[%s]" % rng.choice([n, str(i + 1)]))
    t = E.expr(rng, use, rng.choice([0, 1, 2, 2]))
    hdr = True
    case = {"kind": kind, "names": names, "rows": rows, "t": t, "files": {"f0": G.dump(names, rows)}}
    if kind == "cut":
        if rng.random() < 0.25 and len(names) > 1:
            a = rng.randint(1, len(names))
            b = rng.randint(a, len(names))
            f = rng.choice(["max(", "min(", "avg("])
            case["t"] = [f]
            for c in range(a, b + 1):
                case["t"] += (["," ] if c > a else []) + ["c%d" % c]
            case["t"].append(")")
            case["spec"] = "%s[%d-%d])" % (f, a, b)
        else:
            case["spec"] = "".join(t)
        case["t2"] = E.expr(rng, use, 1)
    if rng.random() < 0.1:
        s = E.broken(rng, E.expr(rng, names, rng.choice([0, 1, 2])))
        if s:
            case["bad"] = s
            return case
    if kind in ("sort", "check", "merge", "join", "search"):
        case["rev"] = rng.random() < 0.4
    if kind in ("merge", "join"):
        # another table, in which the same names may stand elsewhere
        n2, rows2 = table(rng)
        perm = names[:]
        if kind == "join" and not any(x.startswith("c") or x[0] == "[" for x in t):
            rng.shuffle(perm)
        if len(n2) < len(perm):
            rows2 = [(r + ["1"] * len(perm))[:len(perm)] for r in rows2]
        case["names2"], case["rows2"] = perm, [r[:len(perm)] for r in rows2]
        case["pick"] = rng.random()
    if kind in ("search", "check", "verify"):
        case["pick"] = rng.random()
    if kind == "agg":
        case["init"] = rng.choice(["0", "1", "2.5"])
        case["op"] = rng.choice(["acc+(%s)", "max(acc,%s)", "min(acc,%s)", "acc*2+%s"])
        case["group"] = rng.random() < 0.7
    return case


def env(names, row):
    d = {}
    for i, n in enumerate(names):
        v = row[i] if i < len(row) else ""
        try:
            x = float(v)
        except ValueError:
            x = 0.0
        for k in (n, "c%d" % (i + 1), "[%s]" % n, "[%d]" % (i + 1)):
            d[k] = x
    return d


def ref(names, tok):
    """the column a token of an expression names, if any"""
    x = tok[1:-1] if tok.startswith("[") else tok
    if x in names:
        return names.index(x)
    m = re.fullmatch("c([0-9]+)", tok) or re.fullmatch(r"\[([0-9]+)\]", tok)
    return int(m.group(1)) - 1 if m else None


def sig(t):
    return ".".join(sorted(set(x for x in t if x in E.PREC or x.endswith("(") or x == "!" or x in E.CONSTS)))[:60]


def judge(ctx, case):
    try:
        return judge2(ctx, case)
    except E.Ambiguous:
        ctx.count("ambiguous_cases")
        return None


def judge2(ctx, case):
    kind = case["kind"]
    if kind == "calc":
        r = ctx.sane(ctx.run(case["args"] + ["f0"]))
        got = r.out.split(b"\n")[:-1]
        want = []
        for it in case["items"]:
            if "t" in it:
                try:
                    want.append((it, E.Ev(it["t"], {}).all()))
                except E.Ambiguous:
                    want.append((it, None))
        if len(got) != len(want):
            raise Violation("calc wrote %d values for %d valid expressions" % (len(got), len(want)), run=r.brief(),
                            expected=[w[1] for w in want])
        nbad = sum("bad" in i for i in case["items"])
        if nbad and not r.err:
            raise Violation("a malformed expression was not reported", run=r.brief())
        for g, (it, w) in zip(got, want):
            if w is not None and not E.same(g, w, it["exact"]):
                raise Violation("calc %s gave %s, should be %r" % ("".join(it["t"]), g.decode("latin-1"), w), run=r.brief())
        ctx.count("expressions", len(want))
        ctx.count("refused_expressions", nbad)
        return "calc|" + "|".join(sig(it["t"]) for it, _ in want)[:200]
    names, rows, t = case["names"], case["rows"], case["t"]
    if "bad" in case:
        s = case["bad"]
        cmd = {"cut": ["cut", "-e", "res:" + s], "cgrep": ["cgrep", "-p", ",expr," + s], "sort": ["sort", "-k", ",expr," + s],
               "check": ["sort", "-c", "-k", ",expr," + s], "merge": ["sort", "-m", "-k", ",expr," + s, "f0"], "join": ["join", "-k", ",expr," + s, "f0"],
               "search": ["binsearch", "-k", ",expr," + s, "1"], "verify": ["verify", "-p", ",expr," + s], "uniq": ["uniq", "-k", ",expr," + s], "agg": ["uniq", "-k", "1", "--agg-post", ",expr,acc,0," + s]}[kind]
        r = ctx.sane(ctx.run(cmd + ["f0"]))
        if r.rc == 0 or not r.err:
            raise Violation("malformed expression %s accepted" % s, run=r.brief())
        ctx.count("refused_expressions")
        return "bad|%s|%s" % (kind, sig(t))
    vals = [E.Ev(t, env(names, r)).all() for r in rows]
    ex = "".join(t)
    lines = ["\t".join(r).encode("latin-1") for r in rows]
    head = b" CDX\t" + "\t".join(names).encode() + b"\n"
    if kind == "cut":
        v2 = [E.Ev(case["t2"], env(names, r)).all() for r in rows]
        r = ctx.good(["cut", "-f", "1", "-e", "res:" + case["spec"], "-e", "r2:" + "".join(case["t2"]), "f0"])
        got = r.out.split(b"\n")[:-1]
        ctx.expect("header of computed columns", got[0] if got else b"", b" CDX\t" + names[0].encode() + b"\tres\tr2", r)
        ctx.expect("number of lines", str(len(got) - 1).encode(), str(len(rows)).encode(), r)
        for g, row, a, b in zip(got[1:], rows, vals, v2):
            p = g.split(b"\t")
            if len(p) != 3 or p[0] != row[0].encode() or not E.same(p[1], a, True) or not E.same(p[2], b, True):
                raise Violation("cut -e %s and %s gave %r for %r, should be %r, %r" % (ex, "".join(case["t2"]), g, row, a, b), run=r.brief())
        ctx.count("expressions", 2 * len(rows))
    elif kind == "cgrep":
        r = ctx.good(["cgrep", "-p", ",expr," + ex, "f0"])
        want = [l for l, v in zip(lines, vals) if v != 0]
        ctx.expect("lines where the expression is non-zero", r.out, head + b"".join(x + b"\n" for x in want), r)
        ctx.count("expressions", len(rows))
    elif kind in ("sort", "uniq"):
        if any(math.isnan(v) for v in vals):
            return None
        if kind == "sort":
            o = sorted(range(len(rows)), key=lambda i: (-vals[i] if case["rev"] else vals[i]) + 0.0)
            r = ctx.good(["sort", "-k", ",expr%s,%s" % (".rev" if case["rev"] else "", ex), "f0"])
            want = [lines[i] for i in o]
        else:
            r = ctx.good(["uniq", "-k", ",expr," + ex, "f0"])
            want = [lines[i] for i in range(len(rows)) if i == 0 or vals[i] != vals[i - 1]]
        ctx.expect("%s by an expression" % kind, r.out, head + b"".join(x + b"\n" for x in want), r)
        ctx.count("expressions", len(rows))
    elif kind in ("check", "merge", "join", "search", "verify"):
        if any(math.isnan(v) for v in vals):
            return None
        key = ",expr%s,%s" % (".rev" if case.get("rev") else "", ex)
        flip = -1.0 if case.get("rev") else 1.0
        order = sorted(range(len(rows)), key=lambda i: flip * vals[i] + 0.0)
        if kind == "verify":
            v = [x != 0 for x in vals]
            r = ctx.sane(ctx.run(["verify", "-r", "100000", "-p", ",expr," + ex, "f0"]))
            want = sorted(set(i + 1 for i, (x, row) in enumerate(zip(v, rows)) if not x))
            got = [int(x) for x in re.findall(rb"For line ([0-9]+) of f0 ", r.err)]
            ctx.expect("lines named by verify with an expression", got, want, r)
            ctx.expect("verdict of verify with an expression", r.rc, 1 if want or any(len(x) != len(names) for x in rows) else 0, r)
        elif kind == "check":
            o = list(order)
            if len(o) > 1 and case["pick"] < 0.5:
                i = int(case["pick"] * 2 * (len(o) - 1))
                o[i], o[i + 1] = o[i + 1], o[i]
            ctx.write("g0", head + b"".join(lines[i] + b"\n" for i in o))
            bad = any(flip * vals[o[i]] > flip * vals[o[i + 1]] for i in range(len(o) - 1))
            r = ctx.sane(ctx.run(["sort", "-c", "-k", key, "g0"]))
            ctx.expect("order check by an expression", r.rc, 1 if bad else 0, r)
        elif kind == "search":
            ctx.write("g0", head + b"".join(lines[i] + b"\n" for i in order))
            x = vals[int(case["pick"] * len(vals))]
            if math.isinf(x) or (x == 0 and math.copysign(1, x) < 0):
                return None
            r = ctx.good(["binsearch", "-k", key, "--", repr(x), "g0"])
            ctx.expect("binary search by an expression", r.out, head + b"".join(lines[i] + b"\n" for i in order if vals[i] == x), r)
        else:
            names2, rows2 = case["names2"], case["rows2"]
            v2 = [E.Ev(t, env(names2, r)).all() for r in rows2]
            if any(math.isnan(v) for v in v2):
                return None
            o2 = sorted(range(len(rows2)), key=lambda i: flip * v2[i] + 0.0)
            if kind == "join":
                o2 = [i for k, i in enumerate(o2) if not k or v2[i] != v2[o2[k - 1]]]
            l2 = ["\t".join(r).encode("latin-1") for r in rows2]
            h2 = b" CDX\t" + "\t".join(names2).encode() + b"\n"
            ctx.write("g0", head + b"".join(lines[i] + b"\n" for i in order))
            ctx.write("g1", h2 + b"".join(l2[i] + b"\n" for i in o2))
            if kind == "merge":
                r = ctx.good(["sort", "-m", "-k", key, "g0", "g1"])
                both = [(flip * vals[i] + 0.0, 0, lines[i]) for i in order] + [(flip * v2[i] + 0.0, 1, l2[i]) for i in o2]
                both.sort(key=lambda x: x[:2])
                ctx.expect("merge by an expression", r.out, head + b"".join(x[2] + b"\n" for x in both), r)
            else:
                used = set(ref(names2, x) for x in t) - {None}
                rest = [i for i in range(len(names2)) if i not in used]
                out = [" CDX\t" + "\t".join(names + [names2[i] for i in rest])]
                by = {v2[i] + 0.0: rows2[i] for i in o2}
                for i in order:
                    m = by.get(vals[i] + 0.0)
                    if m is not None:
                        out.append("\t".join((rows[i] + [""] * len(names))[:len(names)] + [m[c] if c < len(m) else "" for c in rest]))
                r = ctx.good(["join", "-k", key, "g0", "g1"])
                ctx.expect("join by an expression", r.out, "".join(x + "\n" for x in out).encode("latin-1"), r)
        ctx.count("expressions", len(rows))
    else:
        full = case["op"] % ex if "(%s)" not in case["op"] else case["op"].replace("%s", ex)
        if case["op"].startswith("acc*"):
            tt = ["acc", "*", "2", "+"] + t
        elif case["op"].startswith("acc+"):
            tt = ["acc", "+", "("] + t + [")"]
        else:
            tt = [case["op"][:4], "acc", ","] + t + [")"]
        groups = []
        for i, row in enumerate(rows):
            if not i or (case.get("group") and row[0] != rows[i - 1][0]):
                groups.append([row, float(case["init"])])
            d = env(names, row)
            d["acc"] = groups[-1][1]
            groups[-1][1] = E.Ev(tt, d).all()
        r = ctx.good(["uniq", "-k", "1" if case.get("group") else ",expr,1", "--agg-post", ",expr,acc,%s,%s" % (case["init"], full), "f0"])
        got = r.out.split(b"\n")[1:-1]
        if len(got) != len(groups) or not all(E.same(g.split(b"\t")[-1], a, True) for g, (_, a) in zip(got, groups)):
            raise Violation("expression aggregate %s gave %r, should be %r" % (full, got, [a for _, a in groups]), run=r.brief())
        ctx.count("expressions", len(rows))
    return kind + "|" + sig(t)


def _table():
    """every factorial, and every constant, as one calc run each"""
    f = [{"t": [str(n), "!"], "exact": n < 20} for n in range(176)] + [{"t": ["%d.%d" % (n, d), "!"], "exact": n < 20} for n in range(0, 172, 7) for d in (4, 5, 6)]
    c = [{"t": [n], "exact": False} for n in sorted(E.CONSTS)]
    return [{"kind": "calc", "files": {"f0": "".join("".join(i["t"]) + "\n" for i in x)}, "items": x, "fmt": None, "args": ["calc", "--fmt=plain"]} for x in (f, c)]


FIXED = _table()
