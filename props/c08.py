"""C08: aggregated columns hold exactly the aggregate of their group."""
import aggs
import gen as G
import keys as K
import model as M
from c07 import representative
from vf import s2b

ID = "C08"
QUICK, THOROUGH = 9000, 200000
RULE = ("one case = one file with runs of equal keys, `cdx uniq` with 1-4 aggregators (replace/prefix/append of sum, mean, "
        "min, max, merge, prefix, suffix, count, character and word counters, all with options) plus optional count and "
        "which; full output compared with the model; non-trivial = some group has 2 or more lines; distinct = (aggregators, "
        "placements, count position, which)")
ASSUMPTIONS = ["sums are compared as IEEE doubles added in input order, printed in the documented short format",
               "merge's count is not combined with its length filters"]


def gen(rng, idx, tier):
    nc = G.width(rng, 2, 4)
    kinds = ["key"] + [rng.choice(["num", "plainnum", "text", "nasty", "list"]) for _ in range(nc - 1)]
    nm = G.names(rng, nc) if rng.random() < 0.7 else None

    def cell(k):
        if k == "num":
            return aggs.numcell(rng)
        if k == "plainnum":
            return G.number(rng)
        if k == "list":
            return ",".join(rng.choice(["a", "b", "B", "cc", "", "10", "9", "ab"]) for _ in range(rng.choice([1, 1, 2, 3])))
        return G.cell(rng, k)
    rows = []
    for _ in range(G.nrows(rng, tier)):
        key = G.cell(rng, "key") or "k"
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            r = [key] + [cell(k) for k in kinds[1:]]
            if rng.random() < 0.05 and rows:
                r = r[:rng.randint(1, nc)]
            rows.append(r)
    k = G.huge(rng, 0.0005)
    if k and rows:
        i = rng.randrange(len(rows))
        if sum(map(len, rows[i])) < 60:
            rows[i:i] = [rows[i]] * k
    args = ["uniq"]
    ks = [[0, rng.choice(["", "lower", "plain"]), False]]
    if rng.random() < 0.05:
        ks = [[None, "", False]]
        args += ["-k", ""]
    else:
        args += ["-k", (rng.choice([nm[0], "1"]) if nm else "1") + ("," + ks[0][1] if ks[0][1] else "")]
    al = []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        c = rng.randrange(nc)
        spec = aggs.pick(rng, {"key": "text", "list": "text", "nasty": "text"}.get(kinds[c], kinds[c]))
        cs = rng.choice([nm[c], str(c + 1)]) if nm else str(c + 1)
        place = rng.choice(["replace", "prefix", "append"])
        name = "new%d" % i if not nm or rng.random() < 0.98 else rng.choice(nm + ["new0"])
        if place == "replace":
            args += [rng.choice(["-a", "--agg"]), cs + "," + spec]
        else:
            args += ["--agg-pre" if place == "prefix" else "--agg-post", name + "," + cs + "," + spec]
        al.append([place, name, c, spec])
    cnt = None
    if rng.random() < 0.3:
        pos = rng.choice(["begin", "end"])
        args += ["-c", "tally," + pos]
        cnt = pos
    which, wk = "first", []
    if rng.random() < 0.3:
        which = rng.choice(["last", "min", "max"])
        spec = which
        if which in ("min", "max"):
            c = rng.randrange(nc)
            m = rng.choice(["", "len", "lower"])
            wk = [[c, m, False]]
            spec += ",%d" % (c + 1) + ("," + m if m else "")
        args += ["-w", spec]
    return {"files": {"f": G.dump(nm, rows, final_nl=rng.random() < 0.85)}, "args": args + ["f"], "keys": ks, "aggs": al,
            "count": cnt, "which": which, "wkeys": wk, "header": nm, "nc": nc}


def judge(ctx, case):
    new = [a[1] for a in case["aggs"] if a[0] != "replace"] + (["tally"] if case["count"] else [])
    if case["header"] and len(set(new + case["header"])) != len(new + case["header"]):
        ctx.bad(case["args"])
        return "clash|%d" % len(new)
    r = ctx.good(case["args"])
    ls = G.lines(s2b(case["files"]["f"]))
    al = [list(a) for a in case["aggs"]]
    if case["count"] == "begin":
        al.insert(0, ["prefix", "tally", 0, "count"])
    elif case["count"] == "end":
        al.append(["append", "tally", 0, "count"])
    want = []
    if not ls:
        ctx.expect("output for empty input", r.out, b"", r)
        return None
    if case["header"]:
        names = ls.pop(0).split(b"\t")[1:]
        width = len(names)
    else:
        names = None
        width = len(ls[0].split(b"\t"))
    pre = [a for a in al if a[0] == "prefix"]
    app = [a for a in al if a[0] == "append"]
    rep = {}
    for a in al:
        if a[0] == "replace":
            rep.setdefault(a[2], a)
    if names:
        want.append(b"\t".join([b" CDX"] + [s2b(a[1]) for a in pre] + names + [s2b(a[1]) for a in app]))
    gs = M.groups(K.mk(case["keys"]), ls)
    for g in gs:
        base = representative(case["which"], K.mk(case["wkeys"] or [[None, "", False]]), g)
        val = lambda a: aggs.eval(a[3], [M.col(x, a[2]) for x in g])
        cols = [val(a) for a in pre]
        for i in range(width):
            cols.append(val(rep[i]) if i in rep else M.col(base, i))
        cols += [val(a) for a in app]
        ctx.count("aggregates_checked", len(al))
        want.append(b"\t".join(cols))
    ctx.expect("aggregated output differs from the model", r.out, M.ties(r.out, b"".join(x + b"\n" for x in want)), r)
    if all(len(g) == 1 for g in gs):
        return None
    return "|".join(sorted("%s:%s" % (a[0], a[3]) for a in case["aggs"])) + "|%s|%s" % (case["count"], case["which"])
