"""C05: every comparison method is one consistent total order, however it is evaluated."""
import gen as G
import keys as K
import model as M
from vf import HARNESS as EXE, Violation, s2b

ID = "C05"
HARNESS = "comp"
QUICK, THOROUGH = 9000, 200000
RULE = ("one case = 3-12 lines (or single values) compared pairwise by the real comparators through every route the library "
        "offers (lines, split columns, cached sort items, value-against-line); all routes must agree with each other and "
        "with the model's sign, equality must coincide with comparing equal, and the matrix must be reflexive, "
        "antisymmetric and transitive; 'random' keys are checked for the laws only; distinct = (route, methods, kinds)")
ASSUMPTIONS = ["numeric text is plain decimal; junk text is compared for consistency between routes, not against a value"]


def junk(rng):
    return rng.choice([G.nasty(rng), G.text(rng), "", "-", ".", "-0", "0", "00", "-0.0", "0.0", "+1", "1e3", "1000", "1k", "1K",
                       "1,000", "1.", ".5", "0.5", "x1", "1x", "-x", " 7", "7", "1.5", "1.50", "1.2.3", "1.2", "999999999999999999999",
                       "a\0", "a", "A", "a\0b", "\0", "abcdefgh", "abcdefgh\0", "ABCDEFGH", "abcdefghi"])


def gen(rng, idx, tier):
    mode = rng.choice(["model", "model", "junk", "value", "vjunk", "random"])
    if mode in ("value", "vjunk"):
        m = rng.choice(["plain", "lower", "len", "num", "float", "ip", "equal"])
        if mode == "vjunk":
            vals = [junk(rng) for _ in range(rng.randint(3, 10))]
        else:
            kind = {"num": "bignum", "float": "float", "ip": "ip"}.get(m, rng.choice(["text", "nasty", "key"]))
            vals = [x[0] for x in G.table(rng, 1, rng.randint(3, 10), [kind], close=rng.choice([0, 0.3, 0.8]))]
            if m == "len" and rng.random() < 0.1:
                n = rng.choice([255, 256, 511, 65535, 65536])
                vals += ["x" * n, "x" * (n + 1), "y" * (n - 1), "y" * (n & 255)]
            if m == "num" and rng.random() < 0.05:
                n = rng.choice([254, 255, 256, 510])
                vals += ["1" + "0" * n, "9" + "0" * n, "1" * n, "-" + "1" * (n + 2)]
        ms = [m]
        if rng.random() < 0.4:
            ms = ms + [rng.choice(["plain", "lower", "len", "equal"] if mode == "value" else ["plain", "lower", "len", "num", "float", "ip", "equal"]) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.5:
                ms = [rng.choice(["len", "lower", "equal"])] + ms
        ms = [[x, rng.random() < 0.4] for x in ms]
        vals = [v for v in vals if "\n" not in v and "\t" not in v and "\x01" not in v]
        return {"mode": mode, "methods": ms, "vals": vals}
    nc = rng.randint(1, 3)
    if mode == "model":
        kinds = [rng.choice(K.KINDS) for _ in range(nc)]
        specs, ks = K.pick(rng, kinds, ["c%d" % (i + 1) for i in range(nc)])
        rows = G.table(rng, nc, rng.randint(3, 10), kinds, ragged=rng.choice([0, 0.2]), close=rng.choice([0, 0.15, 0.5]))
    else:
        ks, specs = [], []
        for _ in range(rng.randint(1, 2)):
            c = rng.choice([None] + list(range(nc)))
            m = "random" if mode == "random" else rng.choice(["plain", "lower", "len", "num", "float", "ip", "equal"])
            rev = rng.random() < 0.3
            ks.append([c, m, rev])
            specs.append(("" if c is None else str(c + 1)) + "," + ("rev." if rev else "") + m)
        rows = [[junk(rng).replace("\t", "_") for _ in range(nc)] for _ in range(rng.randint(3, 10))]
    return {"mode": mode, "specs": specs, "keys": ks, "lines": ["\t".join(r) for r in rows]}


FLIP = {"<": ">", ">": "<", "=": "="}


def laws(ctx, n, sign, eq, desc):
    for i in range(n):
        if sign[i][i] != "=":
            raise Violation("a line does not compare equal to itself", i=i, **desc)
        for j in range(n):
            if sign[i][j] != FLIP[sign[j][i]]:
                raise Violation("comparison is not antisymmetric", i=i, j=j, **desc)
            if (sign[i][j] == "=") != eq[i][j]:
                raise Violation("equality disagrees with comparing equal", i=i, j=j, **desc)
    for i in range(n):
        for j in range(n):
            if sign[i][j] == ">":
                continue
            for k in range(n):
                if sign[j][k] == ">":
                    continue
                ctx.count("triples_checked")
                want_lt = sign[i][j] == "<" or sign[j][k] == "<"
                if (sign[i][k] == "<") != want_lt or sign[i][k] == ">":
                    raise Violation("comparison is not transitive", i=i, j=j, k=k, **desc)


def judge(ctx, case):
    value = case["mode"] in ("value", "vjunk")
    if value:
        items = [s2b(v) for v in case["vals"]]
        args = ["value"] + [("rev." if v else "") + m for m, v in case["methods"]]
        keys = [M.Key(0, m, v) for m, v in case["methods"]]
    else:
        items = [s2b(v) for v in case["lines"]]
        args = ["comp", str(len(case["specs"]))] + case["specs"]
        keys = None if case["mode"] != "model" else K.mk(case["keys"])
    if value and case["mode"] == "vjunk":
        keys = None
    n = len(items)
    r = ctx.good(args, b"".join(x + b"\n" for x in items), exe=EXE)
    rows = r.out.decode().split("\n")[:-1]
    if len(rows) != n * n:
        raise Violation("harness answered %d of %d pairs" % (len(rows), n * n), run=r.brief())
    desc = {"args": args, "items": repr(items)}
    sign = [[None] * n for _ in range(n)]
    eq = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            row = rows[i * n + j]
            if len(set(row[:4])) != 1:
                raise Violation("routes disagree about the order", i=i, j=j, row=row, **desc)
            if len(set(row[4:])) != 1:
                raise Violation("routes disagree about equality", i=i, j=j, row=row, **desc)
            sign[i][j] = row[0]
            eq[i][j] = row[4] == "e"
            ctx.count("pairs_compared")
            if keys is not None:
                c = M.compare(keys, items[i], items[j])
                w = "<" if c < 0 else ">" if c > 0 else "="
                if w != row[0]:
                    raise Violation("comparison disagrees with the model", i=i, j=j, got=row[0], want=w, **desc)
                ctx.count("pairs_against_model")
    laws(ctx, n, sign, eq, desc)
    if value:
        return "%s|%s|%d" % (case["mode"], case["methods"], n)
    return "%s|%s" % (case["mode"], ",".join("%s%s%s" % ("L" if k[0] is None else "c", k[1], "-" if k[2] else "") for k in case["keys"]))
