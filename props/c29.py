"""C29: filegen writes the requested number of lines, every column of the requested kind."""
import math
import re

import gen as G
import model as M
from vf import Violation

ID = "C29"
QUICK, THOROUGH = 6000, 100000
RULE = ("one case = one `cdx filegen` with 0-6 column specs (grid, count, null, expr, decimal, normal; single and multi), a line count and optional header; every deterministic cell is "
        "compared with its formula, every random cell with its format and range, and samples of 200 or more with bounds on mean and spread that chance exceeds with probability < 1e-12; "
        "a line produced must be readable by cut with the same width; distinct = (specs, header, line class)")
ASSUMPTIONS = ["expressions use exact small-integer arithmetic"]
EXPRS = [("line", lambda l, c: l), ("col", lambda l, c: c), ("line*col", lambda l, c: l * c), ("line+col*10", lambda l, c: l + c * 10), ("(line-1)*2", lambda l, c: (l - 1) * 2),
         ("line-col", lambda l, c: l - c), ("7", lambda l, c: 7), ("line*line", lambda l, c: l * l)]
BAD = ["nosuch", "count,x", "decimal," + "N" * 30, "normal,a", "normal,1,2,bogus", "normal,1,2,plain,4"]


def one(rng):
    k = rng.choice(["grid", "grid", "count", "count", "null", "expr", "decimal", "normal"])
    if k == "count":
        if rng.random() < 0.3:
            return "count", ["count", 0]
        n = rng.choice([0, 1, 100, -5, rng.randint(-10**6, 10**6), 2**63 - 1 - rng.randint(0, 9), -2**63 + 10])
        return "count,%d" % n, ["count", n]
    if k == "expr":
        i = rng.randrange(len(EXPRS))
        f = rng.choice(["", "plain", "plain"])
        return "expr," + (f + "," if f else "") + EXPRS[i][0], ["expr", i, f]
    if k == "decimal":
        if rng.random() < 0.2:
            return "decimal", ["decimal", False, 4, 0]
        s, a, b = rng.random() < 0.5, rng.randint(0, 12), rng.choice([0, 0, 1, 2, 5])
        if not a and not b:
            a = 1
        return "decimal," + ("-" if s else "") + "N" * a + ("." + "N" * b if b else ""), ["decimal", s, a, b]
    if k == "normal":
        m, d = rng.choice([0, 10, -3, 1000]), rng.choice([1, 0, 2, 50])
        return rng.choice(["normal,%d,%d,plain" % (m, d)]), ["normal", m, d]
    return k, [k]


def gen(rng, idx, tier):
    args, cols = ["filegen"], []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        t, m = one(rng)
        if rng.random() < 0.25:
            n = rng.randint(0, 4)
            args += [rng.choice(["-m", "--multi"]), "%d,%s" % (n, t)]
            cols += [m] * n
        else:
            args += [rng.choice(["-c", "--column"]), t]
            cols.append(m)
    n = rng.choice([None, 0, 1, 2, 5, 17, 60, 300])
    if n is not None:
        args += [rng.choice(["-n", "--lines"]), str(n)]
    h = rng.random() < 0.4
    if h:
        args.append(rng.choice(["-h", "--with-header"]))
    bad = None
    if rng.random() < 0.06:
        bad = rng.choice(BAD)
        args += ["-c", bad]
    return {"files": {}, "args": args, "cols": cols or [["grid"]], "n": 10 if n is None else n, "h": h, "bad": bad}


def judge(ctx, case):
    if case["bad"]:
        r = ctx.bad(case["args"])
        ctx.expect("output in spite of the error", r.out, b"", r)
        ctx.count("refusals")
        return "bad|" + case["bad"]
    r = ctx.good(case["args"])
    ctx.expect("unexpected messages", r.err, b"", r)
    ls = G.lines(r.out)
    if r.out and not r.out.endswith(b"\n"):
        raise Violation("last line unterminated", run=r.brief())
    w = len(case["cols"])
    if case["h"]:
        ctx.expect("header", ls[0] if ls else None, b"\t".join([b" CDX"] + [b"c%d" % (i + 1) for i in range(w)]), r)
        ls = ls[1:]
    ctx.expect("number of lines", len(ls), case["n"], r)
    vals = {}
    for i, l in enumerate(ls, 1):
        cs = l.split(b"\t")
        ctx.expect("number of columns", len(cs), w, r, line=repr(l))
        for j, (m, v) in enumerate(zip(case["cols"], cs), 1):
            if m[0] == "grid":
                want = b"%d_%d" % (i, j)
            elif m[0] == "null":
                want = b""
            elif m[0] == "count":
                want = b"%d" % (m[1] + i - 1)
            elif m[0] == "expr":
                x = float(EXPRS[m[1]][1](i, j))
                want = (M.fmt_plain(x) if m[2] == "plain" else M.fmt_short(x))
                want = want if isinstance(want, bytes) else want.encode()
            elif m[0] == "decimal":
                _, s, a, b = m
                t = re.match(rb"(-?)(0|[1-9][0-9]*)" + (rb"\.([0-9]{%d})" % b if b else b"") + rb"\Z", v)
                if not t or (t.group(1) and not s) or len(t.group(2)) > max(a, 1) or (a == 0 and t.group(2) != b"0"):
                    raise Violation("a decimal cell does not have the requested form", cell=repr(v), spec=m, run=r.brief())
                vals.setdefault(j, []).append(float(v))
                d = vals.setdefault(("digits", j), [set(), set(), set()])
                d[0].add(v[-1:])
                d[1].add(t.group(2)[-1:])
                d[2].add(t.group(3)[:1] if b else b"")
                if s and t.group(1):
                    vals.setdefault(("neg", j), []).append(1)
                ctx.count("random_cells")
                continue
            else:
                if not re.match(rb"-?[0-9]+(\.[0-9]+)?\Z", v):
                    raise Violation("a normal cell is not a plain number", cell=repr(v), run=r.brief())
                vals.setdefault(j, []).append(float(v))
                ctx.count("random_cells")
                continue
            if v != want:
                ctx.expect("cell at line %d column %d" % (i, j), v, want, r)
    for j, m in enumerate(case["cols"], 1):
        x = vals.get(j, [])
        if len(x) < 200:
            continue
        n = len(x)
        mean = sum(x) / n
        if m[0] == "normal":
            sd = math.sqrt(sum((y - mean) ** 2 for y in x) / n)
            if abs(mean - m[1]) > 8 * m[2] / math.sqrt(n) + 1e-9 or not 0.5 * m[2] <= sd <= 1.6 * m[2] + 1e-9:
                raise Violation("normal column far from its mean or deviation", mean=mean, sd=sd, spec=m)
            for k in (1, 2, 3) if n >= 5000 and m[2] else ():
                # eight standard errors of the number of values on either side beyond k deviations
                p = math.erfc(k / math.sqrt(2)) / 2
                for side in (1, -1):
                    got = sum(side * (y - m[1]) > k * m[2] for y in x)
                    if abs(got - n * p) > 8 * math.sqrt(n * p):
                        raise Violation("normal column has the wrong shape", beyond=k * side, got=got, expected=n * p, spec=m)
        else:
            _, s, a, b = m
            top = 10.0 ** a
            ab = [abs(y) for y in x]
            am = sum(ab) / n
            if b and a == 0:
                top = 1.0
            exp = (top - 10.0 ** -b) / 2 if b else (top - 1) / 2
            if abs(am - exp) > 8 * (top / math.sqrt(12)) / math.sqrt(n):
                raise Violation("decimal column is not spread over its range", mean=am, want=exp, spec=m)
            if n >= 300:
                # chance misses one digit in a place with probability < 1e-12
                d = vals[("digits", j)]
                if (b and (len(d[0]) < 10 or len(d[2]) < 10)) or (a and len(d[1]) < 10):
                    raise Violation("some digit never occurs in a decimal column", digits=repr(d), spec=m)
            neg = len(vals.get(("neg", j), []))
            if s and abs(neg - n / 2) > 8 * math.sqrt(n) / 2:
                raise Violation("signs are not evenly drawn", neg=neg, n=n)
        ctx.count("samples_judged")
    if not ls:
        return None
    return "%s|%s|%d" % (",".join(sorted("%s%s" % (m[0], m[2:] if m[0] in ("decimal", "expr") else "") for m in case["cols"])), case["h"], min(len(ls), 20))


# long files: what is counted keeps counting, and the shape of the normal distribution shows
FIXED = [{"files": {}, "args": ["filegen", "-n", "66000", "-c", "grid", "-c", "count,5", "-c", "expr,plain,line", "-c", "expr,plain,line*col", "-c", "expr,line*line"],
          "cols": [["grid"], ["count", 5], ["expr", 0, "plain"], ["expr", 2, "plain"], ["expr", 7, ""]], "n": 66000, "h": False, "bad": None},
         {"files": {}, "args": ["filegen", "-n", "20000", "-c", "normal,10,2,plain", "-c", "normal,-3,50,plain", "-c", "decimal,-NN.N"],
          "cols": [["normal", 10, 2], ["normal", -3, 50], ["decimal", True, 2, 1]], "n": 20000, "h": False, "bad": None}]
